#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that anchors and wording stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Exactly the documented language is accepted",
  "A source text is read without any diagnostic if and only if it is one module of the documented grammar, where `;` may stand wherever a line break may, and blanks, tabs and `//` comments may stand between any two tokens. Every other text gets at least one diagnostic: nothing before, inside or behind the module is skipped silently.",
  ["inputs"], "all texts: every sequence of tokens and every sequence of characters",
  "Two accepted texts and three example files are tested; no rejected text at all, and the language is infinite.",
  ["src/parser.rs"], [("tokenizer combinators", "src/parser.rs tokenizer()"), ("module grammar combinators", "src/parser.rs erd_module_parser()"), ("end-of-input check", "src/parser.rs, both end()")],
  ["seiren::parser::parse: the two diagnostic lists"])
p("C02", "An accepted source means exactly what it says",
  "An accepted text yields exactly the module it denotes: its name, its entities with their fields (name, type, optional key) and its relations, all in source order. A word is a keyword only as a whole word in its exact spelling; a back-quoted identifier denotes its characters with the escapes \\\\ \\/ \\\" \\` \\b \\f \\n \\r \\t \\uXXXX decoded, and is an identifier even if it spells a keyword.",
  ["inputs"], "all accepted texts, all identifiers, all escapes (every \\u0000-\\uFFFF)",
  "Two syntax trees are compared; escapes, keyword boundaries, unusual orders and long lists are never exercised.",
  ["src/parser.rs", "src/erd.rs"], [("token classes and their order", "src/parser.rs tokenizer()"), ("syntax tree construction", "src/parser.rs erd_module_parser() map closures")],
  ["the syntax tree returned by seiren::parser::parse"])
p("C03", "Layout of the source text does not change the diagram",
  "Blanks, tabs, `//` comments with any content, additional blank lines, `\\r\\n` instead of `\\n`, `;` instead of a line break, and back quotes around an identifier that needs none can be added, removed or exchanged wherever the grammar allows them. Neither the syntax tree nor a single byte of the SVG changes.",
  ["inputs"], "all programs and all combinations of such edits at all places",
  "One text with comments is compared to one tree; the places and kinds of trivia combine exponentially.",
  ["src/parser.rs"], [("padding by comments and blanks", "src/parser.rs tokenizer()"), ("pad and separator", "src/parser.rs erd_module_parser()")],
  ["syntax tree and SVG bytes of the edited source against those of the original"])
p("C04", "Diagnostics point at the offending place",
  "The range of every diagnostic lies within the source text, counted in characters, or at its end. If a text consists of valid tokens, the first diagnostic starts at the first token with which no valid module can continue, or at the end of the text if it is only incomplete. Otherwise the first lexical diagnostic lies within the first stretch of the text that is not a token.",
  ["inputs"], "all texts that are not accepted",
  "No test looks at a diagnostic.",
  ["src/parser.rs", "src/main.rs"], [("token spans", "src/parser.rs tokenizer() map_with_span"), ("end-of-input span", "src/parser.rs parse()")],
  ["spans of the diagnostics returned by seiren::parser::parse"])
p("C05", "Every input ends in a drawing or a diagnostic, never in a panic or hang",
  "For every input text, reading it, laying out whatever module could be recovered and drawing it terminates without a panic. The result is a complete SVG document, or no document and at least one diagnostic.",
  ["inputs", "programs"], "all texts and all modules, including self-relations, repeated names, undefined names, empty tables and empty modules",
  "Tests run five well-behaved diagrams; the code contains unwraps, asserts and panics that depend on the shape of the diagram.",
  ["src/parser.rs", "src/erd.rs", "src/layout.rs", "src/renderer.rs"], [("error recovery", "src/parser.rs tokenizer()"), ("route exists for every pair", "src/layout.rs compute_shortest_path"), ("no turnaround", "src/renderer.rs draw_edge_connection")],
  ["return of the whole pipeline under a panic catcher and a watchdog"])
p("C06", "Every entity is drawn as one table with all of its fields",
  "The drawing has exactly one table per entity definition, in source order; its first row shows the entity's name, and each field has a row, in source order, with the field's name, its type and, if and only if it has a key, a PK or FK badge. Nothing else is written in a table, every text stands in its own row, and each table is clipped by its own outline.",
  ["programs"], "all modules: numbers of tables and fields, types, keys, names, positions of relations among the entries",
  "Four drawings are compared; combinations of types, keys, empty tables and many tables are not.",
  ["src/erd.rs", "src/renderer.rs", "src/mir.rs"], [("module to document", "src/erd.rs Module::into_mir"), ("table drawing", "src/renderer.rs SVGRenderer::render")],
  ["texts, circles, lines and rectangles in the SVG"])
p("C07", "Every relation is drawn as one line between the elements it names",
  "Each relation whose two ends both name a defined entity or field is drawn as exactly one line, from the element named first to the element named second, in the order of the relations, no matter whether the definitions come before or after it. A relation that names something undefined is not drawn and changes nothing else in the drawing.",
  ["programs"], "all modules: all sets and orders of definitions and relations, self-relations, parallel relations, names containing dots",
  "Tests draw at most five relations, all between distinct tables defined beforehand, none undefined.",
  ["src/erd.rs", "src/layout.rs", "src/mir.rs"], [("endpoint resolution", "src/erd.rs Module::into_mir"), ("path to edge assignment", "src/layout.rs draw_edge_path")],
  ["number, order and end points of the lines in the SVG; edges of the document"])
p("C08", "Tables stand in a grid in source order and never overlap",
  "Tables are placed in source order, left to right, three to a row of the grid; the tables of a grid row start at the same height, below all tables of the grid row above. No two tables overlap or come closer than the spacing of 80, and the rows of a table fill it completely, stacked in order without gap or overlap.",
  ["programs"], "all modules: all numbers of tables and all combinations of table heights",
  "Tests have at most five tables, of two heights in one arrangement.",
  ["src/layout.rs"], [("grid placement", "src/layout.rs place_nodes")],
  ["table rectangles, row backgrounds, row rules in the SVG"])
p("C09", "The view box shows the whole drawing",
  "The view box of a laid out module starts at the origin, has finite, positive width and height, and contains every table, every line including its rounded corners, and every end mark completely, also for a module without any table.",
  ["programs"], "all modules, including the empty one",
  "Three examples have their view box compared; none is empty or has lines around the outside.",
  ["src/layout.rs", "src/renderer.rs"], [("view box computation", "src/layout.rs place_nodes"), ("viewBox attribute", "src/renderer.rs render")],
  ["viewBox attribute against all coordinates in the SVG"])
p("C10", "Lines attach to the middle of a free side of the named element",
  "A line starts and ends on the outline of its table, at the middle of a side of the row (or of the whole table) it is drawn for, be that row a field or the header: left or right side, or the top or bottom side where that lies on the table's outline. It leaves and arrives perpendicular to that side, from the outside of the table, and the end marks are centred on its two ends.",
  ["programs"], "all modules and relations: all rows of all tables, all relative positions of the two tables",
  "Tests contain nine lines.",
  ["src/layout.rs", "src/renderer.rs"], [("terminal ports", "src/layout.rs place_terminal_ports"), ("connectable directions", "src/layout.rs connect_nearest_neighbor_edge_junctions"), ("end circles", "src/renderer.rs draw_edge_connection")],
  ["first and last segments of path elements, circles in the SVG"])
p("C11", "Lines are orthogonal and never run through a table",
  "Every line consists of horizontal and vertical segments of positive length, no segment doubles back on the one before it, and no part of a line passes through the inside of any table.",
  ["programs"], "all modules and relations: all grid sizes, all combinations of table heights, all pairs of rows, several relations at once",
  "Tests contain nine lines, none of which has a table in its way vertically.",
  ["src/layout.rs", "src/geometry.rs"], [("collision check", "src/layout.rs connect_nearest_neighbor_edge_junctions"), ("segment/rectangle intersection", "src/geometry.rs Rect::intersected_line"), ("junction removal", "src/layout.rs remove_overlapped_junction_nodes")],
  ["path elements against table rectangles in the SVG"])
p("C12", "Every line takes a shortest route",
  "No line is longer than the shortest orthogonal route that joins any free side of the one element to any free side of the other and keeps the clearance of 40 from every table except where it leaves and arrives.",
  ["programs"], "all modules and relations; all pairs of attachment sides",
  "The nine tested lines are compared to stored drawings, not to an optimum.",
  ["src/layout.rs"], [("shortest path over all port pairs", "src/layout.rs find_shortest_edges_path, compute_shortest_path"), ("junction placement", "src/layout.rs edge_junction_nodes_*")],
  ["length of path elements against an independent grid search"])
p("C13", "The SVG is well-formed for every name and shows it literally",
  "Whatever characters names contain, the output is well-formed XML with a single svg root, and a name that consists of characters XML can represent is read back from it unchanged, between the line breaks the writer puts around every text. A character that XML cannot represent appears as U+FFFD, and no name alters anything but its own text.",
  ["inputs"], "all names: every character and every short combination of markup characters, in module, entity and field names",
  "All names in tests are plain words.",
  ["src/renderer.rs"], [("text escaping", "src/renderer.rs draw_text"), ("document writing", "src/renderer.rs render")],
  ["the SVG read by a strict XML reader"])
p("C14", "The drawn line follows its route exactly",
  "The line drawn for a route starts at its first point, visits its points in order and ends at its last point, in one piece. At each bend the corner is rounded by a curve that begins and ends on the two adjoining segments, is controlled by the corner point, and leaves room for the neighbouring bends, so that the pen never moves backward; end marks sit on the first and last point.",
  ["inputs"], "all orthogonal routes: all sequences of turns, straight-through points and segment lengths",
  "Tests draw six of the eight turns, with segments longer than twice the radius.",
  ["src/renderer.rs", "src/geometry.rs"], [("turn table", "src/renderer.rs draw_edge_connection"), ("direction of a segment", "src/geometry.rs Point::orthogonal_direction")],
  ["d attribute of path elements"])
p("C15", "Layout depends only on the document, not on history",
  "Laying out a document gives the same drawing whether the engine was used before on the same or another document, whether a phase is repeated, and whether the document was laid out before and then extended, or came with places, sizes, ports or routes from elsewhere, as a fresh engine gives for a freshly built equal document.",
  ["histories"], "all sequences of layout runs, repeated phases and document extensions over several documents and engines",
  "Every test uses each engine and each document once.",
  ["src/layout.rs", "src/mir.rs"], [("route graph reset", "src/layout.rs draw_edge_path"), ("port reset", "src/layout.rs place_terminal_ports")],
  ["SVG of every layout in a history against a fresh one"],
  state=[("edge_route_graph", "routes of the document laid out last", "src/layout.rs SimpleLayoutEngine"), ("terminal_ports", "ports of a node", "src/mir.rs NodeData")])
p("C16", "Rendering is all or nothing, and failures are reported",
  "Rendering reports success only after the writer has accepted every byte of the complete document, however the writer splits or interrupts the writes, and reports failure if the writer fails. A document with a table, row or line that has not been laid out is reported as an error naming such a node, and nothing is written for it.",
  ["fault_sequences", "inputs"], "all sequences of short, interrupted, failing and refused writes; all subsets of missing layout information",
  "Tests write to a vector that never fails, and lay out everything first.",
  ["src/renderer.rs", "src/error.rs"], [("single write_all", "src/renderer.rs render"), ("InvalidLayout checks", "src/renderer.rs render, draw_edge_connection")],
  ["result of Renderer::render and the bytes that reached the writer"])
p("C17", "The command line tool delivers the drawing or says that it could not",
  "Given a file or the same text on standard input, in pieces of any size, the tool writes exactly the SVG of the recovered module to standard output, diagnostics go to standard error if and only if the text has errors, and it never panics on a text. If the input cannot be read or is not UTF-8, or any byte of the output cannot be written, the exit status is not zero; otherwise it is zero.",
  ["inputs", "fault_sequences"], "all texts, all splits of the input, a write failure at every byte of the output",
  "The binary has no tests.",
  ["src/main.rs"], [("input selection", "src/main.rs main"), ("diagnostic report", "src/main.rs main"), ("flush", "src/main.rs main")],
  ["exit status, standard output and standard error of the seiren process"])
p("C18", "Segment/rectangle geometry agrees with exact arithmetic",
  "A line segment intersects a rectangle exactly if it has a point in common with it and does not lie strictly inside it, whatever its direction, and the reported pair of points are the two ends of the part of the segment inside the closed rectangle, from left to right. A rectangle contains exactly the points within or on its edges, and insetting moves each edge by exactly the given amount, never below zero size.",
  ["inputs"], "all rectangles (also degenerate ones) and segments (also points) of a coordinate grid",
  "About twenty-five segments against one rectangle are tested, none upward through it.",
  ["src/geometry.rs"], [("Liang-Barsky clipping", "src/geometry.rs Rect::intersected_line"), ("inset_by, contains_point", "src/geometry.rs Rect")],
  ["Rect::intersects_line, intersected_line, contains_point, inset_by"])
p("C19", "A document keeps what was put into it",
  "Every node and line added to a document stays reachable under the identifier returned for it, distinct from all others, with its own content, and children and lines are listed in the order in which they were added. Changing one node never changes another.",
  ["histories"], "all sequences of document operations",
  "One node is created and changed in one test.",
  ["src/mir.rs"], [("graph storage", "src/mir.rs Document"), ("children and ports", "src/mir.rs NodeData")],
  ["Document and NodeData accessors after every operation"])
p("C20", "The drawing of a source is reproducible",
  "The same source text always gives the same bytes of SVG, independent of the process, of earlier work in it and of the random keys of hash tables.",
  ["programs", "configurations"], "all modules under all hash keys",
  "Each drawing is made once per test run, with one random key.",
  ["src/erd.rs", "src/layout.rs"], [("hash tables used for lookup only", "src/erd.rs node_paths; src/layout.rs RouteGraph")],
  ["SVG bytes under controlled hash keys"])
p("C21", "A printed module reads back as the same module",
  "Printing a module whose names are plain identifiers gives a text that is accepted without diagnostics and denotes an equal module, with all names, types, keys, relations and their order; printing that again gives the same text.",
  ["programs"], "all modules with plain names",
  "Two printed modules are compared to stored texts, none is read back.",
  ["src/erd.rs", "src/parser.rs"], [("Display implementations", "src/erd.rs"), ("parser", "src/parser.rs")],
  ["to_string of the module and parse of the result"])
p("C22", "Colors are written in the notation SVG understands",
  "Every color is written as # followed by exactly six hexadecimal digits, two each for red, green and blue in this order, or as a color name SVG knows, and distinct RGB colors are written differently.",
  ["inputs"], "all 2^24 RGB colors and all named colors",
  "Three RGB colors are tested.",
  ["src/color.rs"], [("Display implementations", "src/color.rs")],
  ["to_string of colors"])
p("C23", "Lines run on the routing network, which avoids all tables",
  "Every link of the routing network an engine exposes is horizontal or vertical, has two distinct ends and a positive length, appears once, and does not pass through a table; no two of its nodes share a location. Every line of the drawing runs along links of the network.",
  ["programs"], "all modules and relations",
  "No test looks at the network.",
  ["src/layout.rs"], [("node and link deduplication", "src/layout.rs RouteGraph"), ("nearest neighbor links", "src/layout.rs connect_nearest_neighbor_edge_junctions")],
  ["SimpleLayoutEngine::edge_route_graph, Document::edges"])
p("C24", "Other ways to the drawing give the same drawing",
  "The notebook output carries exactly the SVG that rendering the document gives, between its two marker lines. Turning on the routing overlay only adds elements after those of the drawing: the output stays well-formed, everything drawn without it is still there unchanged and in the same order, and the overlay shows each link of the network once, with an arrow head that points along it to its target, each node once with its identifier beside it, a mark at each point of each line's route, and the identifier of each table beside the table.",
  ["programs", "configurations"], "all modules, with and without view box, with and without overlay",
  "Neither the notebook output nor the overlay is tested.",
  ["src/evcxr.rs", "src/renderer.rs"], [("draw_erd", "src/evcxr.rs"), ("draw_debug_info", "src/renderer.rs")],
  ["standard output of the notebook hook; SVG with and without overlay"])

p("C25", "Every diagnostic is reported once, at the line and column where it starts",
  "For a text with errors the command line tool writes to standard error exactly one report per diagnostic, in the order of the diagnostics. Each is headed by the name the text was read under (the file's path as given, or `(stdin)`) and by the line and the column, both counted from 1 and in characters, at which its diagnostic starts.",
  ["inputs"], "all texts with errors, read from a file or from standard input",
  "The binary has no tests.",
  ["src/main.rs", "src/parser.rs"], [("report loop", "src/main.rs main"), ("source name and spans", "src/main.rs main; src/parser.rs parse()")],
  ["standard error of the seiren process"])
p("C26", "Every part of a drawing has the style its document gives it",
  "Border, background and rounding of tables, background and upper line of rows, color, font, weight and size of every text, color and background of badges are drawn exactly as the document's shapes say, on the part they belong to, and nothing is drawn for what is not given. A table looks the same wherever it stands in a module and whatever else the module contains.",
  ["configurations", "programs"], "all styles of all parts; all tables at all places among all others",
  "One default style is drawn in three fixed examples.",
  ["src/renderer.rs", "src/mir.rs", "src/erd.rs"], [("drawing of shapes", "src/renderer.rs render, draw_text"), ("styles of modules", "src/erd.rs into_mir")],
  ["attributes of the elements of the SVG"])
p("C27", "The routing graph keeps what is put into it",
  "A node put to a place of a routing graph stays there under the identifier returned for it, and putting one of the same kind to the same place again gives the same identifier. A terminal port is found under its own identifier, at its place and with its side. Two nodes are linked once however often and in whichever direction the link is added, and copies are independent. The network of an engine knows every terminal port of the related elements.",
  ["histories"], "all sequences of operations on a routing graph",
  "Seven tests add two or three nodes or links each.",
  ["src/layout.rs"], [("deduplication", "src/layout.rs RouteGraph add_node, add_terminal_port, add_edge")],
  ["RouteGraph accessors after every operation"])
p("C28", "Points, rectangles and paths answer what they were built from",
  "The distance of two points is Euclidean and the direction between two points in line is the one from the first to the second. A rectangle's edges, middles, center and extents follow from its origin and size. A path lists its commands in the order they were added, with its start and end.",
  ["inputs"], "all points and rectangles of a coordinate grid, all short command sequences",
  "Two pairs of points are tested.",
  ["src/geometry.rs"], [("accessors", "src/geometry.rs Point, Rect, Path")],
  ["Point, Rect and Path accessors"])
p("C29", "A diagnostic tells what stands at its place and what could stand there",
  "A diagnostic names as what was found the character or token that stands at the place where it starts, or nothing at the end of the text. The first syntax diagnostic of a text that consists of valid tokens names as expected only tokens with which a module can continue there, and all of them except identifiers and separators. The command line tool's report of a diagnostic shows what was found and everything that was expected.",
  ["inputs"], "all texts that are not accepted",
  "No test looks at a diagnostic.",
  ["src/parser.rs", "src/main.rs"], [("token and character alternatives", "src/parser.rs tokenizer, erd_module_parser"), ("wording of reports", "src/main.rs main")],
  ["Simple::found and Simple::expected of the diagnostics; standard error of the seiren process"])
p("C30", "A module built with the library is the module its text denotes",
  "A module put together through the library lists its name, entries, fields, types, keys and paths exactly as they were given and in the order in which they were added, by whichever of the adding functions, also while it grows further; a copy is independent of its original. Its drawing is that of the same module read from source text, and making a document from it neither changes the module nor depends on earlier conversions. Two paths are equal exactly if their parts are.",
  ["histories", "inputs"], "all sequences of building steps, all names, any number of entries and fields",
  "The tests only ever see modules made by the parser.",
  ["src/erd.rs"], [("construction", "src/erd.rs Module, EntityDefinition add_*"), ("conversion", "src/erd.rs into_mir"), ("paths", "src/erd.rs EntityPath")],
  ["Module and EntityDefinition accessors after every step; the SVG of the module"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
