From 51a540b264235d78dd36ac0b8ce40a9afa0a29d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 01/17] fix: detect intersection of lines drawn upward through
 a rectangle

The entirely-inside shortcut of Rect::intersected_line compared the start
point with the top edge and the end point with the bottom edge, whichever
way the line runs. A line that enters from below and leaves at the top
passed for one inside the rectangle, and the router drew through tables.
---
 src/geometry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index a928e9b..e6407c8 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -238,7 +238,11 @@ impl Rect {
         let top = self.min_y();
         let bottom = self.max_y();
 
-        if x > left && (x + dx) < right && y > top && (y + dy) < bottom {
+        if x > left
+            && (x + dx) < right
+            && y.min(y + dy) > top
+            && y.max(y + dy) < bottom
+        {
             // Line is entirely inside the rectangle.
             return None;
         }
-- 
2.43.0


From 884d7baad893f0d10185d82da9b44ebb7b366c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 02/17] fix: check collision for every neighbor candidate

`a || b && c` took the first candidate in each direction without looking
for tables in between, so that edges ran through tables, or turned around.
---
 src/layout.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index 7e06e28..e65912b 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -716,7 +716,7 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Up) && m.is_connectable(Orientation::Down) {
                         // Is nearest neighbor?
-                        if up.is_none() || up.unwrap().1.location().y < q.y && no_collision() {
+                        if (up.is_none() || up.unwrap().1.location().y < q.y) && no_collision() {
                             up.replace((b, m));
                         }
                     }
@@ -733,7 +733,7 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Down) && m.is_connectable(Orientation::Up) {
                         // Is nearest neighbor?
-                        if down.is_none() || down.unwrap().1.location().y > q.y && no_collision() {
+                        if (down.is_none() || down.unwrap().1.location().y > q.y) && no_collision() {
                             down.replace((b, m));
                         }
                     }
@@ -747,7 +747,7 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Left) && m.is_connectable(Orientation::Right) {
                         // Is nearest neighbor?
-                        if left.is_none() || left.unwrap().1.location().x < q.x && no_collision() {
+                        if (left.is_none() || left.unwrap().1.location().x < q.x) && no_collision() {
                             left.replace((b, m));
                         }
                     }
@@ -761,7 +761,8 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Right) && m.is_connectable(Orientation::Left) {
                         // Is nearest neighbor?
-                        if right.is_none() || right.unwrap().1.location().x > q.x && no_collision()
+                        if (right.is_none() || right.unwrap().1.location().x > q.x)
+                            && no_collision()
                         {
                             right.replace((b, m));
                         }
-- 
2.43.0


From 64b79ba15faceee58197a9ceea6ac23b307a6f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 03/17] fix: route edges between ports that share a location

A relation of a field (or table) with itself, or of a table with one of its
own fields, found a zero-length path and made the renderer panic.
---
 src/layout.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index e65912b..a8cbf18 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -805,6 +805,12 @@ impl SimpleLayoutEngine {
                 let Some(src_node) = self.edge_route_graph.get_terminal_port(src.id()) else { continue };
                 let Some(dst_node) = self.edge_route_graph.get_terminal_port(dst.id()) else { continue };
 
+                // Terminal ports of different nodes can share a location (e.g. a record and its
+                // middle field). There is no line to draw between them.
+                if src_node == dst_node {
+                    continue;
+                }
+
                 let (c, p) = self.compute_shortest_path(src_node, dst_node);
                 if c < cost {
                     path.replace(p);
-- 
2.43.0


From 9406ee749d3415fd1ba99cc3915bb58138bc0dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 04/17] fix: compute a valid view box for an empty module

The height of a row without any record was f32::MIN, and viewBox got a
negative height of -3.4e38.
---
 src/layout.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index a8cbf18..c7392a9 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -272,13 +272,13 @@ impl LayoutEngine for SimpleLayoutEngine {
         let child_id_vec = doc.body().children().collect::<Vec<_>>();
 
         let mut base_y = Self::ORIGIN.y;
-        let mut max_height = f32::MIN;
+        let mut max_height = 0.0f32;
 
         for (record_index, child_id) in child_id_vec.iter().copied().enumerate() {
             if record_index > 0 && (record_index % n_columns == 0) {
                 // Move to next row.
                 base_y += max_height + Self::RECORD_SPACE;
-                max_height = f32::MIN;
+                max_height = 0.0;
             }
 
             let Some(record_node) = doc.get_node_mut(child_id) else { continue };
-- 
2.43.0


From 7b0d951a27a51a0101cf1bbca92c91f74846f820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 05/17] fix: parse a relation endpoint as "identifier, [ '.',
 identifier ]"

The dot was mandatory and the field name optional, so that `a o--o b` was
an error and `a. o--o b.` was not.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index cde6fb7..cdcecd3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -194,7 +194,7 @@ fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Cl
     ));
 
     let entity = ident
-        .then(just(Token::Ctrl('.')).ignore_then(ident.or_not()))
+        .then(just(Token::Ctrl('.')).ignore_then(ident).or_not())
         .map(|(table, field)| {
             if let Some(field) = field {
                 EntityPath::Field(table, field)
-- 
2.43.0


From 14cdbca3f2012d125a5522750b5d59c0fcbc778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 06/17] fix: report input left after the module

Neither the tokenizer nor the parser looked at what follows the last thing
it could read: `erd {} @` and `erd {} erd` were taken without an error.
---
 src/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index cdcecd3..8f6d0c8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -162,9 +162,12 @@ fn tokenizer() -> impl Parser<char, Vec<(Token, Span)>, Error = Simple<char>> {
 
     token
         .map_with_span(|tok, span| (tok, span))
-        .padded_by(comment.repeated())
-        .padded_by(spaces)
+        .padded_by(comment.clone().repeated())
+        .padded_by(spaces.clone())
         .repeated()
+        .then_ignore(comment.repeated().padded_by(spaces))
+        // Report anything left that isn't a token.
+        .then_ignore(end().recover_with(skip_then_retry_until([])))
 }
 
 fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Clone {
@@ -269,6 +272,8 @@ fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Cl
         .then(module_entries.padded_by(pad.clone()))
         .then_ignore(just(Token::Ctrl('}')))
         .padded_by(pad.clone())
+        // Report anything left after the module.
+        .then_ignore(end().recover_with(skip_then_retry_until([])))
         .map(|(name, entries)| {
             let mut module = Module::new(name);
 
-- 
2.43.0


From a63151d475066f267b66afb3dec5705394fd5fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 07/17] fix: escape names in SVG text

svg::node::Text writes its content as is: a quoted identifier with `<`, `&`
or a control character resulted in a file that is not well-formed XML.
---
 src/renderer.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/renderer.rs b/src/renderer.rs
index 6bf2c7f..d82d085 100644
--- a/src/renderer.rs
+++ b/src/renderer.rs
@@ -216,6 +216,26 @@ impl Renderer for SVGRenderer<'_> {
     }
 }
 
+/// Escapes a text for use as XML character data.
+///
+/// A character that is not allowed in XML at all is replaced by U+FFFD.
+fn escape_text(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '\t' | '\n' | '\r' => escaped.push(c),
+            '\u{0}'..='\u{1F}' | '\u{FFFE}' | '\u{FFFF}' => escaped.push('\u{FFFD}'),
+            _ => escaped.push(c),
+        }
+    }
+
+    escaped
+}
+
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 enum SVGAnchor {
     Start,
@@ -245,7 +265,7 @@ impl SVGRenderer<'_> {
             .set("x", origin.x)
             .set("y", origin.y)
             .set("dominant-baseline", "middle")
-            .add(svg::node::Text::new(span.text.clone()));
+            .add(svg::node::Text::new(escape_text(&span.text)));
 
         if let Some(text_anchor) = text_anchor {
             label = label.set("text-anchor", text_anchor.text_anchor());
-- 
2.43.0


From 84ed5f3264a551755b30b7d3fb8dc54468bb2010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 08/17] fix: draw relations that precede the entities they
 connect

A relation was resolved against the definitions seen so far, and dropped
silently if one of its ends was defined further down.
---
 src/erd.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/erd.rs b/src/erd.rs
index fd368f9..d0070ef 100644
--- a/src/erd.rs
+++ b/src/erd.rs
@@ -48,6 +48,7 @@ impl Module {
 
         // node path (e.g. ["users", "id"]) -> node ID
         let mut node_paths: HashMap<EntityPath, mir::NodeId> = HashMap::new();
+        let mut relations: Vec<&EntityRelation> = vec![];
 
         for entry in self.entries.iter() {
             match entry {
@@ -126,15 +127,18 @@ impl Module {
 
                     doc.body_mut().append_child(record_id);
                 }
-                ModuleEntry::EntityRelation(relation) => {
-                    let Some(start_node_id) = node_paths.get(relation.start_path()) else { continue };
-                    let Some(end_node_id) = node_paths.get(relation.end_path()) else { continue };
-
-                    doc.add_edge(mir::EdgeData::new(*start_node_id, *end_node_id, None));
-                }
+                ModuleEntry::EntityRelation(relation) => relations.push(relation),
             }
         }
 
+        // A relation may precede the definitions of its entities.
+        for relation in relations {
+            let Some(start_node_id) = node_paths.get(relation.start_path()) else { continue };
+            let Some(end_node_id) = node_paths.get(relation.end_path()) else { continue };
+
+            doc.add_edge(mir::EdgeData::new(*start_node_id, *end_node_id, None));
+        }
+
         doc
     }
 
-- 
2.43.0


From 2c05c0b3daf3253d547c73cc3e4cc716667c626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 09/17] fix: forget routes of the previous document in
 SimpleLayoutEngine

Junctions and terminal ports of a document stayed in the engine, and edges
of the next one were routed along them, or its layout panicked.
---
 src/layout.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index c7392a9..51e721c 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -399,6 +399,9 @@ impl LayoutEngine for SimpleLayoutEngine {
     /// v        |                       |
     /// ```
     fn draw_edge_path(&mut self, doc: &mut mir::Document) {
+        // Forget routes of the document that was laid out before.
+        self.edge_route_graph = RouteGraph::new();
+
         // We don't actually draw the edges here, but only calculate the set of points through which
         // the edges pass.
         //
-- 
2.43.0


From 663872c8c6813a4cea2bd01ed8f22a3e43b38d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 10/17] fix: replace terminal ports when a document is laid out
 again

Ports of the previous layout stayed in place after a document had changed,
and edges were attached to where a node had been.
---
 src/layout.rs | 4 ++++
 src/mir.rs    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index 51e721c..048e4f1 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -323,6 +323,8 @@ impl LayoutEngine for SimpleLayoutEngine {
             let Some(record_node) = doc.get_node_mut(child_id) else { continue };
             let Some(record_rect) = record_node.rect() else { continue };
 
+            record_node.clear_terminal_ports();
+
             // In the case of a rectangle, terminal ports are placed in
             // the center of each of the four edges.
             for (x, y, d) in [
@@ -346,6 +348,8 @@ impl LayoutEngine for SimpleLayoutEngine {
                 let Some(field_node) = doc.get_node_mut(field_node_index) else { continue };
                 let Some(field_rect) = field_node.rect() else { continue };
 
+                field_node.clear_terminal_ports();
+
                 if field_id_vec.len() == 1 {
                     for (x, y, d) in [
                         (field_rect.mid_x(), field_rect.min_y(), Orientation::Up),
diff --git a/src/mir.rs b/src/mir.rs
index 2fa0ae5..34107ae 100644
--- a/src/mir.rs
+++ b/src/mir.rs
@@ -89,6 +89,10 @@ impl NodeData {
         self.terminal_ports.iter()
     }
 
+    pub fn clear_terminal_ports(&mut self) {
+        self.terminal_ports.clear();
+    }
+
     pub fn add_terminal_port(
         &mut self,
         node_id: NodeId,
-- 
2.43.0


From 0c579b1094de1fbca983b56b1fda32459a54ac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 11/17] fix: keep paths with their edges when an edge has no
 route

An edge of a node that is not part of the body has no path. The paths of the
edges after it moved up by one, and the last one panicked.
---
 src/layout.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index 048e4f1..407aa06 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -507,16 +507,14 @@ impl LayoutEngine for SimpleLayoutEngine {
 
         // Finding shortest edge paths
         let edge_ids = doc.edge_ids();
-        let mut paths: VecDeque<Vec<Point>> = VecDeque::with_capacity(edge_ids.len());
+        let mut paths: VecDeque<Option<Vec<Point>>> = VecDeque::with_capacity(edge_ids.len());
 
         for edge_id in edge_ids {
-            if let Some(path) = self.find_shortest_edges_path(doc, edge_id) {
-                paths.push_back(path);
-            }
+            paths.push_back(self.find_shortest_edges_path(doc, edge_id));
         }
 
         for edge in doc.edges_mut() {
-            edge.set_path_points(Some(paths.pop_front().unwrap()));
+            edge.set_path_points(paths.pop_front().unwrap());
         }
     }
 }
-- 
2.43.0


From a068d767afb6d86489b466db4a4625427c124cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 12/17] fix: keep rounded corners of an edge within its
 segments

The radius of 6 was used even if the next corner is only 5 away, so that the
pen jumped back and the line was drawn with a spike.
---
 src/renderer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/renderer.rs b/src/renderer.rs
index d82d085..c824339 100644
--- a/src/renderer.rs
+++ b/src/renderer.rs
@@ -293,7 +293,7 @@ impl SVGRenderer<'_> {
         edge: &mir::EdgeData,
     ) -> Result<(element::Path, element::Circle, element::Circle), BackendError> {
         let circle_radius = 4.0;
-        let path_radius = 6.0;
+        let path_radius = 6.0f32;
         let stroke_width = 1.5;
         let stroke_color = WebColor::RGB(RGBColor {
             red: 136,
@@ -358,6 +358,11 @@ impl SVGRenderer<'_> {
                 let bp = path_points[i - 1]; // backward
                 let fp = path_points[i + 1]; // forward
 
+                // Neighboring corners must not overlap.
+                let path_radius = path_radius
+                    .min(bp.distance(&pt) / 2.0)
+                    .min(pt.distance(&fp) / 2.0);
+
                 let d1 = bp.orthogonal_direction(&pt);
                 let d2 = pt.orthogonal_direction(&fp);
 
-- 
2.43.0


From 414b060c021f90e3a905ccd62c0edc45285e518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 13/17] fix: fail if the end of the SVG can't be written

stdout is line buffered and the output doesn't end with a newline. An error
in writing the last line at exit was ignored, and a truncated file passed
for a good one.
---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 14efe03..475d2b5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -2,7 +2,7 @@ use ariadne::{Color, Fmt, Label, Report, ReportKind, Source};
 use seiren::layout::{LayoutEngine, SimpleLayoutEngine};
 use seiren::parser::parse;
 use seiren::renderer::{Renderer, SVGRenderer};
-use std::io;
+use std::io::{self, Write};
 use std::{fs, io::Read};
 
 const DEBUG: bool = false;
@@ -128,6 +128,7 @@ fn main() -> Result<(), io::Error> {
         backend
             .render(&doc, &mut handle)
             .expect("Couldn't render as SVG.");
+        handle.flush()?;
     }
 
     Ok(())
-- 
2.43.0


From 1b8f31c5598b7019cc5048e92387bfd53d6e27a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 14/17] fix: report an error for an empty source instead of
 panicking

---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 475d2b5..bf26e42 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -33,6 +33,10 @@ fn main() -> Result<(), io::Error> {
         .collect::<Vec<_>>();
 
     // Report errors
+    //
+    // ariadne can't point into an empty source.
+    let report_src = if src.is_empty() { "\n" } else { src.as_str() };
+
     for e in errors {
         let filename = filename.as_str();
         let report = Report::build(ReportKind::Error, filename, e.span().start);
@@ -100,7 +104,7 @@ fn main() -> Result<(), io::Error> {
 
         report
             .finish()
-            .eprint((filename, Source::from(&src)))
+            .eprint((filename, Source::from(report_src)))
             .unwrap();
     }
 
-- 
2.43.0


From 223f1675ce566a8cc9f258d9b31c9e77bfee51b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 15/17] fix: keep carriage returns of names in SVG text

---
 src/renderer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/renderer.rs b/src/renderer.rs
index c824339..489c63f 100644
--- a/src/renderer.rs
+++ b/src/renderer.rs
@@ -227,7 +227,9 @@ fn escape_text(text: &str) -> String {
             '&' => escaped.push_str("&amp;"),
             '<' => escaped.push_str("&lt;"),
             '>' => escaped.push_str("&gt;"),
-            '\t' | '\n' | '\r' => escaped.push(c),
+            // A literal CR would be read as LF.
+            '\r' => escaped.push_str("&#13;"),
+            '\t' | '\n' => escaped.push(c),
             '\u{0}'..='\u{1F}' | '\u{FFFE}' | '\u{FFFF}' => escaped.push('\u{FFFD}'),
             _ => escaped.push(c),
         }
-- 
2.43.0


From bc6377046b094c750b53724a24acf59bf26bbe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 16/17] fix: draw square corners for a record that is not
 rounded

RecordShape.rounded was ignored: the corners of every record were rounded.
---
 src/renderer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/renderer.rs b/src/renderer.rs
index 489c63f..7ccf3ed 100644
--- a/src/renderer.rs
+++ b/src/renderer.rs
@@ -66,10 +66,11 @@ impl Renderer for SVGRenderer<'_> {
         // -- Generate clip paths for record shapes.
         for (record_index, child_id) in doc.body().children().enumerate() {
             let Some(record_node) = doc.get_node(child_id) else { continue };
-            let mir::ShapeKind::Record(_) = record_node.kind() else  { continue };
+            let mir::ShapeKind::Record(record) = record_node.kind() else  { continue };
 
             let Some(record_origin) = record_node.origin else { return Err(BackendError::InvalidLayout(child_id)) };
             let Some(record_size) = record_node.size else { return Err(BackendError::InvalidLayout(child_id)) };
+            let border_radius = if record.rounded { border_radius } else { 0f32 };
 
             let clip_path_rect = element::Rectangle::new()
                 .set("x", record_origin.x)
@@ -92,6 +93,7 @@ impl Renderer for SVGRenderer<'_> {
             let mir::ShapeKind::Record(record) = record_node.kind() else  { continue };
             let Some(record_origin) = record_node.origin else { return Err(BackendError::InvalidLayout(child_id)) };
             let Some(record_size) = record_node.size else { return Err(BackendError::InvalidLayout(child_id)) };
+            let border_radius = if record.rounded { border_radius } else { 0f32 };
 
             // background
             let mut table_bg = element::Rectangle::new()
-- 
2.43.0


From a64ada35970d706eda0836c75b7bec5d0941a711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 17/17] fix: accept a file name that is not UTF-8

The tool panicked on it before it read the file.
---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index bf26e42..26b9d52 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -9,13 +9,13 @@ const DEBUG: bool = false;
 
 fn main() -> Result<(), io::Error> {
     let mut filename = "(stdin)".to_string();
-    let mut args = std::env::args();
+    let mut args = std::env::args_os();
 
     // Read the contents of a specified file or from stdio.
     let src = if args.len() >= 2 {
         let path = args.nth(1).unwrap();
 
-        filename = path.clone();
+        filename = path.to_string_lossy().into_owned();
         fs::read_to_string(path)?
     } else {
         let mut s = String::new();
-- 
2.43.0

