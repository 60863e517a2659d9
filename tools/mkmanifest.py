#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties given on the command line (default: all)."""
import json, sys, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
ST = "stateless exhaustive exploration of the real code"
SPEC = {
 "C01": ("model checking: W-method conformance of the real parser against a 17-state automaton of the language, and all short texts", "model_checking",
   "Every text up to the stated lengths over token classes and over characters, every transition of the language automaton with all separating suffixes, and every single edit of accepted texts; the verdict is an independent lexer and automaton. Trusts that grammar (taken from README and grammar of the parser) and, beyond the lengths, that the parser has no more extra states than the W-method bound."),
 "C02": ("model checking: all modules up to a depth are written out in all spellings, and the tree read back is compared", "model_checking",
   "Exhaustive over the enumerated modules, identifiers, escapes and keyword neighbours; larger modules are not covered."),
 "C03": ("model checking: all placements of trivia, line ends and quotes up to a number of deviations", "model_checking",
   "Every combination of up to the stated number of layout deviations in the stated modules; compares tree and SVG bytes with the plain spelling."),
 "C04": ("model checking: all short token sequences and single edits, against the viable-prefix automaton", "model_checking",
   "The position is judged exactly by the language automaton; lengths are bounded."),
 "C05": (ST + ": all short texts and all truncations/edits, with panic, signal and hang detection", "model_checking",
   "Built with overflow checks and debug assertions; a hang is 60 s without end."),
 "C21": (ST + ": all modules up to a depth, printed and read back, and the parser's own trees", "model_checking",
   "Restricted to plain identifiers, as the property says."),
 "C06": (ST + ": all small modules, drawing read back from the SVG", "model_checking", "Trusts the SVG reader mc/src/svgx.rs; table and field counts are bounded."),
 "C07": (ST + ": all orders of definitions and relations up to a depth", "model_checking", "Modules that define a name twice are outside the property."),
 "C08": (ST + ": all table height combinations up to a number of tables", "model_checking", "Bounded table and field counts; spacing 80 taken from the layout constants as observable in the examples."),
 "C09": (ST + ": all small modules with relations between all pairs of elements", "model_checking", "A curve is taken to lie within the triangle of its points."),
 "C10": (ST + ": all small modules with relations between all pairs of elements", "model_checking", "Bounded table, field and relation counts."),
 "C11": (ST + ": all small modules with relations between all pairs of elements", "model_checking", "Bounded table, field and relation counts."),
 "C12": (ST + ": all small modules, each route compared with an exhaustive search of the whole grid of possible routes", "model_checking", "The oracle searches the orthogonal visibility grid of all tables with clearance 40; lengths may differ by the rounding to whole units."),
 "C13": (ST + ": every Unicode character and all short markup strings as names, read back by a strict XML reader", "model_checking", "Trusts the XML reader mc/src/svgx.rs; strings beyond the stated length are not covered."),
 "C14": (ST + ": all hand-built routes over turns and segment lengths", "model_checking", "Routes of up to the stated number of segments from a set of lengths around the corner radius."),
 "C15": (ST + ": all operation sequences over two engines and several documents, compared with a fresh run", "model_checking", "Histories up to the stated depth."),
 "C16": ("model checking: enumeration of all writer behaviours up to a number of deviations, and all sets of missing layout", "fault_enumeration", "Faults are injected at the io::Write boundary; every write call position, up to the stated number of faults together."),
 "C17": ("model checking: enumeration of inputs, input splits and output cut at every byte for the real executable", "fault_enumeration", "Runs the real executable; output faults by file size limit at every byte and closed descriptors."),
 "C18": (ST + ": all segments against all rectangles of a grid, against exact integer arithmetic", "model_checking", "Coordinates from a bounded half-integer grid; a segment that only touches a corner diagonally is left out where f32 rounding decides."),
 "C19": ("model checking: all sequences of document operations up to a depth against a reference model", "model_checking", "Bounded depth; the reference model is a plain list of nodes."),
 "C20": ("model checking: enumeration of hash keys that cover different iteration orders, with the seeds of the hash tables under control", "model_checking", "The keys are substituted at the operating system's random source of the process; covers the enumerated keys and orders, not all 2^128 keys."),
 "C22": ("model checking: exhaustive enumeration of all 2^24 colors and all named colors", "model_checking", "Complete."),
 "C23": (ST + ": all small modules with relations between all pairs of elements, network compared with drawing", "model_checking", "Bounded table, field and relation counts."),
 "C24": (ST + ": all small modules drawn with and without overlay and as notebook output", "model_checking", "Bounded table, field and relation counts; notebook output captured from the real standard output."),
 "C25": (ST + ": all short token sequences, edits, strings and stacked errors given to the real executable", "model_checking",
   "The diagnostics themselves come from the library (judged by C04); line ends \\n and \\r\\n only."),
 "C26": (ST + ": all styles up to a number of deviations from all-given and none-given documents; all tables in all surroundings", "model_checking",
   "Reads the presentation attributes of the SVG."),
 "C27": ("model checking: all sequences of routing graph operations up to a depth against a reference model", "model_checking",
   "Bounded depth; the reference model is a plain list of nodes and links; places taken by a node of another kind are left out."),
 "C29": (ST + ": all token sequences up to a length, viable prefixes, edits and strings against the reference automaton; the shorter ones also given to the real executable", "model_checking",
   "What can stand at a place is decided by the reference automaton of the grammar; the wording around the alternatives is not judged."),
 "C30": ("model checking: all sequences of steps that build modules up to a depth against a reference model", "model_checking",
   "Bounded depth and pools of entries; the reference model is a plain list of entries."),
 "C28": (ST + ": all points and rectangles of grids, all short paths, against exact values", "model_checking", "Bounded grids and path lengths."),
}
claim = sys.argv[1:] or [p["id"] for p in props]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claim:
        t, l, n = SPEC[i]
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i + " thorough",
                       "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": "no check registered yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "check.sh ID thorough (or VERIF_TIER=thorough) takes the deep bounds. Replays: ./check.sh replay FILE."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
