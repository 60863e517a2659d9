//! C14, C15, C16, C19: documents, their layout and their rendering through the library interface.
use seiren::error::BackendError;
use seiren::geometry::{Orientation, Point, Rect, Size};
use seiren::layout::{LayoutEngine, SimpleLayoutEngine};
use seiren::mir::{self, Document, EdgeData, NodeId, ShapeKind};
use seiren::renderer::{Renderer, SVGRenderer};
use seiren_mc::ex::*;
use seiren_mc::geom::{near, near_pt};
use seiren_mc::model::*;
use seiren_mc::run::{space, Check, Space};
use seiren_mc::svgx::{scene, Cmd, Edge};
use seiren_mc::*;
use std::io::{self, ErrorKind, Write};

fn span(s: &str) -> mir::TextSpan {
    mir::TextSpanBuilder::default().text(s).build().unwrap()
}
fn field(s: &str) -> mir::FieldShape {
    mir::FieldShapeBuilder::default().title(span(s)).build().unwrap()
}
fn record(rounded: bool) -> mir::RecordShape {
    mir::RecordShapeBuilder::default().rounded(rounded).build().unwrap()
}

// ---- C14: drawing of a route -------------------------------------------------------------------

type P2 = (f64, f64);
/// The drawn line `e` against the route `pts`, which has no zero-length or reversing segment.
fn follows(e: &Edge, pts: &[P2]) -> R {
    let dir = |a: P2, b: P2| ((b.0 - a.0).signum() * ((b.0 != a.0) as i32 as f64), (b.1 - a.1).signum() * ((b.1 != a.1) as i32 as f64));
    // corners: first point, bends, last point; the points between are passed straight on
    let mut cs = vec![pts[0]];
    let mut straight: Vec<(usize, P2)> = vec![];
    for w in pts.windows(3) {
        if dir(w[0], w[1]) != dir(w[1], w[2]) {
            cs.push(w[1]);
        } else {
            straight.push((cs.len() - 1, w[1]));
        }
    }
    cs.push(*pts.last().unwrap());
    let seglen = |i: usize| (cs[i + 1].0 - cs[i].0).abs() + (cs[i + 1].1 - cs[i].1).abs();
    // distance of p from corner i along segment i, if it is on it
    let along = |i: usize, p: P2| -> Option<f64> {
        let d = dir(cs[i], cs[i + 1]);
        let v = (p.0 - cs[i].0, p.1 - cs[i].1);
        let t = v.0 * d.0 + v.1 * d.1;
        let off = v.0 * d.1 - v.1 * d.0;
        (near(off, 0.0) && t > -geom::EPS && t < seglen(i) + geom::EPS).then_some(t)
    };
    let Some(Cmd::M(p)) = e.cmds.first() else { return viol("the line has no start") };
    ck!(near_pt(*p, cs[0]), "the line starts at {:?} instead of {:?}", p, cs[0]);
    let (mut i, mut t) = (0usize, 0.0f64);
    // the straight part of each segment
    let mut parts: Vec<(f64, f64)> = vec![(0.0, 0.0)];
    for c in &e.cmds[1..] {
        match c {
            Cmd::M(p) => return viol(format!("the line is broken at {:?}", p)),
            Cmd::L(p) => {
                let Some(u) = along(i, *p) else {
                    return viol(format!("the line goes to {:?}, which is not on the segment {:?} - {:?}", p, cs[i], cs[i + 1]));
                };
                ck!(u > t - geom::EPS, "the line moves backward at {:?}", p);
                t = u;
                parts[i].1 = u;
            }
            Cmd::Q(k, p) => {
                ck!(i + 2 < cs.len(), "a curve at {:?}, behind the last bend", k);
                ck!(near_pt(*k, cs[i + 1]), "a curve is controlled by {:?}, not by the corner {:?}", k, cs[i + 1]);
                let Some(u) = along(i + 1, *p) else {
                    return viol(format!("the curve at {:?} ends at {:?}, which is not on the next segment, to {:?}", k, p, cs[i + 2]));
                };
                ck!(u > geom::EPS && seglen(i) - t > geom::EPS, "the corner {:?} is not rounded", k);
                i += 1;
                t = u;
                parts.push((u, u));
            }
        }
    }
    ck!(i + 2 == cs.len(), "the line leaves out the bends from {:?} on", cs[i + 1]);
    ck!(near(t, seglen(i)), "the line ends before {:?}", cs[i + 1]);
    for (i, p) in straight {
        let u = along(i, p).unwrap_or(-1.0);
        ck!(u > parts[i].0 - geom::EPS && u < parts[i].1 + geom::EPS, "the line does not pass through the point {:?} of its route", p);
    }
    ck!(e.ends.len() == 2, "{} end marks", e.ends.len());
    let (a, b) = (e.ends[0].c, e.ends[1].c);
    let (s, z) = (pts[0], *pts.last().unwrap());
    ck!((near_pt(a, s) && near_pt(b, z)) || (near_pt(a, z) && near_pt(b, s)), "the end marks are at {:?} and {:?}, the ends of the route at {:?} and {:?}", a, b, s, z);
    Ok(())
}
fn draw_paths(paths: &[Vec<Point>]) -> Result<Vec<Edge>, Bad> {
    let mut doc = Document::new();
    let a = doc.create_record(record(true));
    let b = doc.create_record(record(true));
    for p in paths {
        doc.add_edge(EdgeData::new(a, b, Some(p.clone())));
    }
    let svg = pipe::svg(&doc, None);
    let sc = scene(&svg).map_err(Bad::Viol)?;
    ck_edges(sc.edges, paths.len())
}
fn ck_edges(e: Vec<Edge>, n: usize) -> Result<Vec<Edge>, Bad> {
    if e.len() == n {
        Ok(e)
    } else {
        Err(Bad::Viol(format!("{} lines are drawn instead of {}", e.len(), n)))
    }
}
fn walks(segs: usize, ls: &'static [f32], straight: bool) -> Space {
    space(
        &format!("{}-segments{}", segs, if straight { "-with-straight-points" } else { "" }),
        &format!("every route of {} segments with lengths {:?}, starting in every direction, turning left or right{} after each", segs, ls, if straight { " or going straight on" } else { "" }),
        move |c| {
            let (mut x, mut y) = (100.0f32, 60.0f32);
            let mut d = c.pick(4);
            let mut pts = vec![Point::new(x, y)];
            for i in 0..segs {
                if i > 0 {
                    d = match c.pick(if straight { 3 } else { 2 }) {
                        0 => (d + 1) % 4,
                        1 => (d + 3) % 4,
                        _ => d,
                    };
                }
                let l = *c.of(ls);
                match d {
                    0 => x += l,
                    1 => y += l,
                    2 => x -= l,
                    _ => y -= l,
                }
                pts.push(Point::new(x, y));
            }
            c.label(format!("route {}", pts.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(" ")));
            c.eval(1);
            // a second line must not take over anything of the first
            let other = vec![Point::new(0.0, 0.0), Point::new(0.0, 30.0), Point::new(20.0, 30.0)];
            let es = draw_paths(&[pts.clone(), other.clone()])?;
            c.state(&format!("{:?}", es[0].cmds));
            let f = |v: &[Point]| v.iter().map(|p| (p.x as f64, p.y as f64)).collect::<Vec<P2>>();
            follows(&es[0], &f(&pts))?;
            follows(&es[1], &f(&other))
        },
    )
}
/// long routes in periodic patterns
fn long_walks(max: usize, period: usize) -> Space {
    space(
        &format!("periodic-{}", period),
        &format!("routes of 2 to {} segments that repeat any pattern of {} of: turn left, turn right, go straight, with lengths 40, 7 or 3000.25, from 3 places", max, period),
        move |c| {
            let pat: Vec<(usize, f32)> = (0..period).map(|_| (*c.of(&[1usize, 3, 0]), *c.of(&[40.0f32, 7.0, 3000.25]))).collect();
            let n = *c.of(&[2usize, 9, 10, 11, 12, 13, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257].map(|n| n.min(max)));
            let (mut x, mut y) = *c.of(&[(100.0f32, 60.0f32), (-3000.5, 0.0), (0.0, 20000.0)]);
            let mut d = 0;
            let mut pts = vec![Point::new(x, y)];
            for i in 0..n {
                let (t, l) = pat[i % period];
                d = (d + t) % 4;
                match d {
                    0 => x += l,
                    1 => y += l,
                    2 => x -= l,
                    _ => y -= l,
                }
                pts.push(Point::new(x, y));
            }
            c.label(format!("{} segments of the pattern {:?} from {:?}", n, pat, pts[0]));
            c.eval(1);
            let es = draw_paths(&[pts.clone()])?;
            c.state(&format!("{:?}", es[0].cmds));
            let v: Vec<P2> = pts.iter().map(|p| (p.x as f64, p.y as f64)).collect();
            follows(&es[0], &v)
        },
    )
}
/// many lines in one document
fn many_lines() -> Space {
    space("many-lines", "1 to 300 lines in one document, each of one of 5 shapes in any of 25 orders", |c| {
        let n = *c.of(&[1usize, 2, 3, 5, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300]);
        let (p, q) = (c.pick(5), c.pick(5));
        c.label(format!("{} lines, order {} {}", n, p, q));
        let shapes: [&[(f32, f32)]; 5] = [
            &[(0.0, 0.0), (50.0, 0.0)],
            &[(0.0, 0.0), (0.0, 30.0), (20.0, 30.0)],
            &[(0.0, 0.0), (0.0, -30.0), (-20.0, -30.0), (-20.0, 60.5)],
            &[(0.0, 0.0), (-9.0, 0.0), (-18.0, 0.0), (-18.0, 5.0), (40.0, 5.0), (40.0, 90.0)],
            &[(0.0, 0.0), (0.0, 1.0)],
        ];
        let ps: Vec<Vec<Point>> = (0..n).map(|i| shapes[(i * p + q + i / 5) % 5].iter().map(|a| Point::new(a.0 + i as f32, a.1 - 3.0 * i as f32)).collect()).collect();
        let es = draw_paths(&ps)?;
        for (e, p) in es.iter().zip(&ps) {
            c.eval(1);
            follows(e, &p.iter().map(|p| (p.x as f64, p.y as f64)).collect::<Vec<P2>>())?;
        }
        c.state(&format!("{:?}", es.iter().map(|e| &e.cmds).collect::<Vec<_>>()));
        Ok(())
    })
}
/// routes the layout finds itself
fn laid_out(t: usize, hs: &'static [usize]) -> Space {
    space(&format!("laid-out-{}", t), &format!("{} tables with {:?} fields each, one relation between any two elements: the drawing against the route the layout found", t, hs), move |c| {
        let ns: Vec<usize> = (0..t).map(|_| *c.of(hs)).collect();
        let mut d = Doc { name: None, entries: ns.iter().enumerate().map(|(i, n)| table(i, *n)).collect() };
        let mut end = || {
            let i = c.pick(t);
            let r = c.pick(ns[i] + 1);
            if r == 0 { Path::e(&tname(i)) } else { Path::f(&tname(i), &fname(r - 1)) }
        };
        let (a, b) = (end(), end());
        d.entries.push(Entry::Rel { a, b });
        c.label(d.src());
        let mut doc = pipe::build(&d).into_mir();
        let (svg, _) = pipe::draw_doc(&mut doc);
        let sc = scene(&svg).map_err(Bad::Viol)?;
        let routes: Vec<Vec<P2>> = doc.edges().filter_map(|e| e.path_points()).map(|p| p.iter().map(|p| (p.x as f64, p.y as f64)).collect()).collect();
        ck!(sc.edges.len() == routes.len(), "{} routes, but {} lines", routes.len(), sc.edges.len());
        for (e, r) in sc.edges.iter().zip(&routes) {
            c.eval(1);
            c.state(&format!("{:?}", e.cmds));
            follows(e, r)?;
        }
        Ok(())
    })
}
fn c14(th: bool) -> Vec<Space> {
    const L: &[f32] = &[40.0, 1.0, 5.0, 11.0, 12.0, 13.0, 17.5];
    const L2: &[f32] = &[40.0, 1.0, 6.0, 12.5];
    let mut v = vec![
        walks(1, &[1.0, 40.0, 5000.0, 0.25], false),
        walks(2, L, true),
        walks(3, &[0.125, 0.5, 0.75, 2.0, 40.0], true).named("tiny-3-segments"),
        walks(4, &[0.25, 0.9375, 30.0], true).named("tiny-4-segments"),
        walks(3, L, true),
        walks(4, L, true),
        walks(5, L2, true),
        walks(6, &[40.0, 7.0], true),
        walks(7, &[40.0, 7.0], true),
        walks(8, &[40.0, 7.0], false),
        long_walks(257, 1),
        long_walks(257, 2),
        long_walks(if th { 257 } else { 64 }, 3),
        many_lines(),
        laid_out(2, &[0, 1, 2, 5]),
        laid_out(3, &[0, 1, 4]),
        laid_out(5, &[0, 3]),
        laid_out(6, &[0, 2]),
    ];
    if th {
        v.push(walks(5, L, true));
        v.push(walks(6, L2, true));
        v.push(walks(9, &[40.0, 7.0], true));
        v.push(laid_out(4, &[0, 1, 2, 4, 7]));
        v.push(laid_out(7, &[0, 3]));
    }
    v
}

// ---- C15: histories ----------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
enum Phase {
    Fresh,
    Placed,
    Ported,
    Done,
}
struct Work {
    id: usize,
    base: Doc,
    doc: Document,
    exts: Vec<usize>,
    phase: Phase,
    view: Option<Rect>,
}
fn extend(doc: &mut Document, k: usize) {
    let recs: Vec<NodeId> = doc.body().children().collect();
    match k {
        // one more table with one field
        0 => {
            let r = doc.create_record(record(true));
            let h = doc.create_field(field("new"));
            let f = doc.create_field(field("n"));
            doc.get_node_mut(r).unwrap().append_child(h);
            doc.get_node_mut(r).unwrap().append_child(f);
            doc.body_mut().append_child(r);
        }
        // one more field in the first table
        1 => {
            let f = doc.create_field(field("more"));
            doc.get_node_mut(recs[0]).unwrap().append_child(f);
        }
        // one more relation, from the last row of the first table to the last table
        _ => {
            let f = doc.get_node(recs[0]).unwrap().children().last().unwrap();
            doc.add_edge(EdgeData::new(f, *recs.last().unwrap(), None));
        }
    }
}
/// what somebody else may have left in a document before it is laid out (again)
fn disturb(doc: &mut Document, k: usize) {
    let tables: Vec<NodeId> = doc.body().children().collect();
    let rows: Vec<NodeId> = tables.iter().flat_map(|t| doc.get_node(*t).unwrap().children().collect::<Vec<_>>()).collect();
    let some: Vec<NodeId> = match k / 7 {
        0 => tables,
        1 => rows,
        2 => tables.into_iter().chain(rows).collect(),
        _ => tables.last().into_iter().chain(rows.last()).copied().collect(),
    };
    match k % 7 {
        // moved: down, up, to the right
        m @ 0..=2 => {
            let (dx, dy) = [(0.0, 120.0), (0.0, -40.0), (380.0, 0.0)][m];
            for id in some {
                let n = doc.get_node_mut(id).unwrap();
                n.origin = n.origin.or(Some(Point::new(50.0, 50.0))).map(|p| Point::new(p.x + dx, p.y + dy));
            }
        }
        // another size
        m @ 3..=4 => {
            for id in some {
                doc.get_node_mut(id).unwrap().size = Some([Size::new(300.0, 350.0), Size::new(120.0, 10.0)][m - 3]);
            }
        }
        // no place at all
        5 => {
            for id in some {
                doc.get_node_mut(id).unwrap().origin = None;
            }
        }
        // a port in the middle of nowhere, and a route for every line
        _ => {
            for id in some {
                doc.get_node_mut(id).unwrap().add_terminal_port(id, Point::new(7.0, 13.0), seiren::geometry::Orientation::Up);
            }
            for e in doc.edges_mut() {
                e.set_path_points(Some(vec![Point::new(1.0, 2.0), Point::new(3.0, 2.0)]));
            }
        }
    }
}
fn disturbed() -> Space {
    space(
        "disturbed",
        "every one of 9 documents, new or laid out before: its tables, its rows, both, or the last of them moved in 3 ways, resized in 2, without a place, or with stray ports and routes, once or twice; then laid out, also by an engine that laid it out before",
        |c| {
            let bases = base_docs();
            let k = c.pick(bases.len());
            let mut w = Work::new(k, bases[k].clone());
            let mut e = SimpleLayoutEngine::new();
            let before = c.flag();
            let ways: Vec<usize> = (0..1 + c.pick(2)).map(|_| c.pick(28)).collect();
            let same = c.flag();
            c.label(format!("document {}, laid out before: {}, disturbed in ways {:?}, same engine: {}", k, before, ways, same));
            let whole = |w: &mut Work, e: &mut SimpleLayoutEngine| {
                w.place(e);
                w.ports(e);
                w.edges(e);
            };
            if before {
                whole(&mut w, &mut e);
            }
            for k in ways {
                disturb(&mut w.doc, k);
            }
            if !same {
                e = SimpleLayoutEngine::new();
            }
            whole(&mut w, &mut e);
            w.check(c, &e)
        },
    )
}
impl Work {
    fn new(id: usize, base: Doc) -> Work {
        let doc = pipe::build(&base).into_mir();
        Work { id, base, doc, exts: vec![], phase: Phase::Fresh, view: None }
    }
    /// the drawing by a fresh engine of a fresh document (drawn once per thread: C20 is about drawing it again)
    fn expected(&self) -> (String, Option<Rect>) {
        type Drawn = std::collections::HashMap<(usize, Vec<usize>), (String, Option<Rect>)>;
        thread_local!(static DRAWN: std::cell::RefCell<Drawn> = Default::default());
        let key = (self.id, self.exts.clone());
        if let Some(d) = DRAWN.with(|m| m.borrow().get(&key).cloned()) {
            return d;
        }
        let mut d = pipe::build(&self.base).into_mir();
        for k in &self.exts {
            extend(&mut d, *k);
        }
        let d = pipe::draw_doc(&mut d);
        DRAWN.with(|m| m.borrow_mut().insert(key, d.clone()));
        d
    }
    fn place(&mut self, e: &mut SimpleLayoutEngine) {
        self.view = e.place_nodes(&mut self.doc);
        self.phase = Phase::Placed;
    }
    fn ports(&mut self, e: &mut SimpleLayoutEngine) {
        e.place_terminal_ports(&mut self.doc);
        self.phase = Phase::Ported;
    }
    fn edges(&mut self, e: &mut SimpleLayoutEngine) {
        e.draw_edge_path(&mut self.doc);
        self.phase = Phase::Done;
    }
    fn check(&self, c: &mut Ch, e: &SimpleLayoutEngine) -> R {
        let (want, vb) = self.expected();
        let _ = e;
        let got = pipe::svg(&self.doc, self.view);
        c.state(&got);
        c.eval(1);
        ck!(self.view == vb, "the view box is {:?} instead of {:?}", self.view, vb);
        ck!(got == want, "the drawing differs from the one of a fresh engine and document:\n{}", first_diff(&got, &want));
        Ok(())
    }
}
fn first_diff(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("{}\ninstead of\n{}", x, y);
        }
    }
    format!("{} lines instead of {}", a.lines().count(), b.lines().count())
}
fn base_docs() -> Vec<Doc> {
    let t = |ns: &[usize], rels: Vec<(Path, Path)>| -> Doc {
        let mut d = Doc { name: None, entries: ns.iter().enumerate().map(|(i, n)| table(i, *n)).collect() };
        d.entries.extend(rels.into_iter().map(|(a, b)| Entry::Rel { a, b }));
        d
    };
    vec![
        t(&[2, 1], vec![(Path::f("t0", "f1"), Path::e("t1"))]),
        t(&[0, 3, 1, 2], vec![(Path::e("t0"), Path::f("t3", "f1")), (Path::f("t1", "f2"), Path::f("t1", "f0"))]),
        t(&[2], vec![]),
        t(&[1], vec![(Path::e("t0"), Path::f("t0", "f0"))]),
        // the tables of document 0 with another relation, with none, and with other heights
        t(&[2, 1], vec![(Path::f("t1", "f0"), Path::f("t0", "f0")), (Path::e("t0"), Path::e("t1"))]),
        t(&[2, 1], vec![]),
        t(&[1, 3], vec![(Path::e("t0"), Path::f("t1", "f0"))]),
        t(&[], vec![]),
        // two rows of the grid, many lines
        t(&[3, 0, 5, 2, 1, 9, 4], (0..9).map(|i| (Path::e(&tname(i % 7)), if i == 1 || (i * 3 + 2) % 7 == 1 { Path::e("t5") } else { Path::f(&tname((i * 3 + 2) % 7), "f0") })).collect()),
    ]
}
/// an output much larger than any buffer
fn large_doc() -> Doc {
    let mut d = Doc { name: None, entries: (0..90).map(|i| table(i, i % 5)).collect() };
    d.entries.push(Entry::Rel { a: Path::f("t2", "f1"), b: Path::e("t89") });
    d
}
/// every pair (triple) of different documents in one engine
fn sequences(len: usize) -> Space {
    space(
        &format!("sequences-{}", len),
        &format!("every sequence of {} of 9 documents, laid out one after the other by one engine, the last one completely or phase by phase with another document's in between", len),
        move |c| {
            let bases = base_docs();
            let ids: Vec<usize> = (0..len).map(|_| c.pick(bases.len())).collect();
            let mixed = c.pick(4);
            c.label(format!("documents {:?}, way {}", ids, mixed));
            let mut e = SimpleLayoutEngine::new();
            let mut ws: Vec<Work> = ids.iter().map(|i| Work::new(*i, bases[*i].clone())).collect();
            let (last, first) = ws.split_last_mut().unwrap();
            let phase = |w: &mut Work, e: &mut SimpleLayoutEngine, k: usize| match k {
                0 => w.place(e),
                1 => w.ports(e),
                _ => w.edges(e),
            };
            for (n, w) in first.iter_mut().enumerate() {
                for k in 0..3 {
                    phase(w, &mut e, k);
                }
                if mixed == 0 || n + 1 < len - 1 {
                    w.check(c, &e)?;
                }
            }
            for k in 0..3 {
                phase(last, &mut e, k);
                // another document in between, behind phase `mixed`
                if mixed == k + 1 && k < 2 {
                    if let Some(w) = first.last_mut() {
                        for k in 0..3 {
                            phase(w, &mut e, k);
                        }
                        w.check(c, &e)?;
                    }
                }
            }
            last.check(c, &e)?;
            if mixed == 3 {
                // once more
                for k in 0..3 {
                    phase(last, &mut e, k);
                }
                last.check(c, &e)?;
            }
            Ok(())
        },
    )
}
/// `whole`: layouts run as a whole; otherwise phase by phase.
fn histories(name: &str, docs: &'static [usize], engines: usize, depth: usize, whole: bool) -> Space {
    let phases = if whole { "place+ports+lines" } else { "place, ports, lines (in this order, repeated at will)" };
    space(
        name,
        &format!("every sequence of {} operations on {} document(s) with {} engine(s): {}; extend by a table, a field, a relation; then a complete layout", depth, docs.len(), engines, phases),
        move |c| {
            let bases = base_docs();
            let mut ws: Vec<Work> = docs.iter().map(|i| Work::new(*i, bases[*i].clone())).collect();
            let mut es: Vec<SimpleLayoutEngine> = (0..engines).map(|_| SimpleLayoutEngine::new()).collect();
            let mut log = vec![];
            for _ in 0..depth {
                // the legal operations
                let mut ops: Vec<(usize, usize, usize)> = vec![];
                for (i, w) in ws.iter().enumerate() {
                    for e in 0..engines {
                        if whole {
                            ops.push((3, i, e));
                        } else {
                            ops.push((0, i, e));
                            if w.phase != Phase::Fresh {
                                ops.push((1, i, e));
                            }
                            if w.phase == Phase::Ported || w.phase == Phase::Done {
                                ops.push((2, i, e));
                            }
                        }
                    }
                    for k in 0..3 {
                        ops.push((4, i, k));
                    }
                }
                let (op, i, e) = ops[c.pick(ops.len())];
                log.push(match op {
                    4 => format!("extend document {} by {}", i, ["a table", "a field", "a relation"][e]),
                    o => format!("{} document {} with engine {}", ["place", "ports of", "lines of", "lay out"][o], i, e),
                });
                c.label(log.join("; "));
                let w = &mut ws[i];
                match op {
                    0 => w.place(&mut es[e]),
                    1 => w.ports(&mut es[e]),
                    2 => w.edges(&mut es[e]),
                    3 => {
                        w.place(&mut es[e]);
                        w.ports(&mut es[e]);
                        w.edges(&mut es[e]);
                    }
                    _ => {
                        extend(&mut w.doc, e);
                        w.exts.push(e);
                        w.phase = Phase::Fresh;
                    }
                }
                if w.phase == Phase::Done {
                    w.check(c, &es[e])?;
                }
            }
            for (i, w) in ws.iter_mut().enumerate() {
                // the last engine, with all its history
                let e = es.last_mut().unwrap();
                c.label(format!("{}; at the end lay out document {} with the last engine", log.join("; "), i));
                w.place(e);
                w.ports(e);
                w.edges(e);
                w.check(c, e)?;
            }
            Ok(())
        },
    )
}
fn c15(th: bool) -> Vec<Space> {
    let x = th as usize;
    vec![
        histories("whole", &[0, 1], 2, 5 + x, true),
        histories("whole-same-shape", &[0, 0], 1, 5 + 2 * x, true),
        histories("phases-one-document", &[0], 1, 7 + 2 * x, false),
        histories("phases-two-engines", &[1], 2, 5 + 2 * x, false),
        histories("phases-two-documents", &[0, 1], 1, 5 + 2 * x, false),
        histories("phases-small", &[2, 3], 1, 5 + 2 * x, false),
        disturbed(),
        sequences(2),
        sequences(3),
        sequences(4 + x),
    ]
}

// ---- C16: rendering ----------------------------------------------------------------------------

struct Faulty<'a, 'b> {
    c: &'a mut Ch<'b>,
    got: Vec<u8>,
    chunk: usize,
    faults: bool,
    calls: usize,
    failed: bool,
    log: Vec<String>,
}
impl Write for Faulty<'_, '_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        let k = if self.faults && !self.failed { self.c.dev(9) } else { 0 };
        let call = self.calls;
        let mut note = |s: &str| self.log.push(format!("call {}: {}", call, s));
        let n = match k {
            0 => b.len().min(self.chunk),
            1 => {
                note("accepts 1 byte");
                b.len().min(1)
            }
            2 => {
                note("accepts half");
                (b.len() + 1) / 2
            }
            3 => {
                note("accepts all but 1 byte");
                if b.len() > 1 { b.len() - 1 } else { b.len() }
            }
            4 => {
                note("interrupted");
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
            5 => {
                note("accepts nothing");
                if b.is_empty() {
                    return Ok(0);
                }
                self.failed = true;
                return Ok(0);
            }
            k => {
                let e = [ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::Other][k - 6];
                note(&format!("fails with {:?}", e));
                self.failed = true;
                return Err(io::Error::from(e));
            }
        };
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.faults && !self.failed && self.c.dev(2) == 1 {
            self.failed = true;
            self.log.push("flush fails".into());
            return Err(io::Error::from(ErrorKind::Other));
        }
        Ok(())
    }
}
const LARGE: usize = 99;
fn faults(name: &str, docs: &'static [usize], chunks: &'static [usize]) -> Space {
    space(
        name,
        &format!("{} document(s), with and without routing overlay, writers that take {:?} bytes per call; at every call: accept 1 byte, half, all but one, nothing, be interrupted, or fail in 3 ways", docs.len(), chunks),
        move |c| {
            let k = *c.of(docs);
            let base = if k == LARGE { large_doc() } else { base_docs().swap_remove(k) };
            let chunk = *c.of(chunks);
            let overlay = c.flag();
            let mut doc = pipe::build(&base).into_mir();
            let mut en = SimpleLayoutEngine::new();
            let vb = en.place_nodes(&mut doc);
            en.place_terminal_ports(&mut doc);
            en.draw_edge_path(&mut doc);
            let mut r = SVGRenderer::new();
            r.view_box = vb;
            if overlay {
                r.edge_route_graph = Some(en.edge_route_graph());
            }
            let mut whole = vec![];
            if let Err(e) = r.render(&doc, &mut whole) {
                return viol(format!("rendering into memory fails: {}", e));
            }
            svgx::parse_xml(&String::from_utf8_lossy(&whole)).map_err(Bad::Viol)?;
            let mut w = Faulty { c, got: vec![], chunk, faults: true, calls: 0, failed: false, log: vec![] };
            let res = r.render(&doc, &mut w);
            let (got, failed, log) = (w.got, w.failed, w.log);
            c.label(format!("{} bytes, chunk {}, overlay {}; {}", whole.len(), chunk, overlay, log.join("; ")));
            c.eval(1);
            c.state(&(chunk, overlay, whole.len(), got.len(), res.is_ok(), &log));
            if failed {
                c.tag("writer failed");
                match res {
                    Err(BackendError::IoFailure(_)) => Ok(()),
                    Err(e) => viol(format!("the writer failed, but the error is: {}", e)),
                    Ok(()) => viol("the writer failed, but rendering reports success"),
                }
            } else {
                c.tag("writer took everything");
                ck!(res.is_ok(), "the writer never failed, but rendering reports {:?}", res.err().map(|e| e.to_string()));
                ck!(got == whole, "rendering reports success, but {} of {} bytes are written", got.len(), whole.len());
                Ok(())
            }
        },
    )
}
fn unlaid(rows: [usize; 2], per_node: usize) -> Space {
    space(
        &format!("not-laid-out-{}-{}", rows[0], rows[1]),
        &format!("two tables of {:?} rows and two lines; every node laid out or {}, every line with or without a route", rows, if per_node == 4 { "without origin, size, or both" } else { "without origin or size" }),
        move |c| {
            let mut doc = Document::new();
            let mut all = vec![];
            for (t, n) in rows.iter().enumerate() {
                let r = doc.create_record(record(true));
                doc.body_mut().append_child(r);
                all.push((r, t, 0));
                for i in 0..*n {
                    let f = doc.create_field(field("x"));
                    doc.get_node_mut(r).unwrap().append_child(f);
                    all.push((f, t, i));
                }
            }
            let (a, b, last) = (all[0].0, all[1].0, all[all.len() - 1].0);
            let pts = vec![Point::new(0.0, 0.0), Point::new(0.0, 20.0)];
            let mut missing: Vec<NodeId> = vec![];
            let mut text = vec![];
            for (id, t, i) in &all {
                let k = c.pick(per_node);
                let n = doc.get_node_mut(*id).unwrap();
                if k == 0 || k == 2 {
                    n.origin = Some(Point::new(100.0 * *t as f32, 30.0 * *i as f32));
                }
                if k == 0 || k == 1 {
                    n.size = Some(Size::new(80.0, 30.0));
                }
                if k > 0 {
                    missing.push(*id);
                    text.push(format!("node {} without {}", id, ["origin", "size", "both"][k - 1]));
                }
            }
            for (x, y) in [(a, last), (b, a)] {
                let r = c.flag();
                doc.add_edge(EdgeData::new(x, y, if r { None } else { Some(pts.clone()) }));
                if r {
                    missing.push(x);
                    missing.push(y);
                    text.push(format!("line {} - {} without route", x, y));
                }
            }
            c.label(if text.is_empty() { "everything laid out".to_string() } else { text.join("; ") });
            c.state(&text);
            c.eval(1);
            let mut out = vec![];
            let mut r = SVGRenderer::new();
            r.view_box = Some(Rect::new(Point::zero(), Size::new(300.0, 300.0)));
            let res = r.render(&doc, &mut out);
            if missing.is_empty() {
                ck!(res.is_ok(), "a complete document is not rendered: {:?}", res.err().map(|e| e.to_string()));
                let sc = scene(&String::from_utf8_lossy(&out)).map_err(Bad::Viol)?;
                ck!(sc.tables.len() == 2 && sc.edges.len() == 2, "{} tables and {} lines are drawn", sc.tables.len(), sc.edges.len());
                return Ok(());
            }
            match res {
                Ok(()) => return viol("an incomplete document is rendered as if it were complete"),
                Err(BackendError::InvalidLayout(id)) => ck!(missing.contains(&id), "the error names node {}, which is laid out", id),
                Err(e) => return viol(format!("the error is {}", e)),
            }
            ck!(out.is_empty(), "{} bytes are written for an incomplete document", out.len());
            Ok(())
        },
    )
}
/// lines between any two nodes, also the same one or the same two again
fn unlaid_lines(max: usize) -> Space {
    space(
        &format!("lines-not-laid-out-{}", max),
        &format!("two tables of two rows and one of none, at most one node without origin or size, anywhere; up to {} lines between any two nodes, also from a node to itself and parallel ones, each with or without a route", max),
        move |c| {
            let mut doc = Document::new();
            let mut all = vec![];
            for (t, n) in [2, 2, 0].iter().enumerate() {
                let r = doc.create_record(record(true));
                doc.body_mut().append_child(r);
                all.push((r, t, 0));
                for i in 0..*n {
                    let f = doc.create_field(field("x"));
                    doc.get_node_mut(r).unwrap().append_child(f);
                    all.push((f, t, i));
                }
            }
            let mut missing: Vec<NodeId> = vec![];
            let mut text = vec![];
            let gap = c.pick(2 * all.len() + 1);
            for (k, (id, t, i)) in all.iter().enumerate() {
                let n = doc.get_node_mut(*id).unwrap();
                n.origin = Some(Point::new(100.0 * *t as f32, 30.0 * *i as f32));
                n.size = Some(Size::new(80.0, 30.0));
                if gap == 2 * k + 1 {
                    n.origin = None;
                } else if gap == 2 * k + 2 {
                    n.size = None;
                } else {
                    continue;
                }
                missing.push(*id);
                text.push(format!("node {} without {}", id, if gap % 2 == 1 { "origin" } else { "size" }));
            }
            let pts = vec![Point::new(0.0, 0.0), Point::new(0.0, 20.0)];
            let m = c.pick(max + 1);
            let k = all.len();
            for _ in 0..m {
                let (x, y) = (all[c.pick(k)].0, all[c.pick(k)].0);
                let r = c.flag();
                doc.add_edge(EdgeData::new(x, y, if r { None } else { Some(pts.clone()) }));
                if r {
                    missing.push(x);
                    missing.push(y);
                    text.push(format!("line {} - {} without route", x, y));
                } else {
                    text.push(format!("line {} - {}", x, y));
                }
            }
            c.label(text.join("; "));
            c.state(&text);
            c.eval(1);
            let mut out = vec![];
            let mut r = SVGRenderer::new();
            r.view_box = Some(Rect::new(Point::zero(), Size::new(300.0, 300.0)));
            let res = r.render(&doc, &mut out);
            if missing.is_empty() {
                ck!(res.is_ok(), "a complete document is not rendered: {:?}", res.err().map(|e| e.to_string()));
                let sc = scene(&String::from_utf8_lossy(&out)).map_err(Bad::Viol)?;
                ck!(sc.tables.len() == 3 && sc.edges.len() == m, "{} tables and {} lines are drawn instead of 3 and {}", sc.tables.len(), sc.edges.len(), m);
                return Ok(());
            }
            match res {
                Ok(()) => return viol("an incomplete document is rendered as if it were complete"),
                Err(BackendError::InvalidLayout(id)) => ck!(missing.contains(&id), "the error names node {}, which is laid out", id),
                Err(e) => return viol(format!("the error is {}", e)),
            }
            ck!(out.is_empty(), "{} bytes are written for an incomplete document", out.len());
            Ok(())
        },
    )
}
/// complete documents of any shape: tables without rows, boxes without extent, places anywhere
fn complete(ts: usize, max: usize) -> Space {
    space(
        &format!("complete-{}-{}", ts, max),
        &format!("{} tables of 0 to {} rows, laid out by the engine, or by hand with every box of one of 4 sizes (80 x 30, 80 x 0, 0 x 30, 0 x 0) at one of 3 places, no line or one between any two tables with a route of 2, 3 or 4 points, shown in no view box, one, or an empty one", ts, max),
        move |c| {
            let mut doc = Document::new();
            let (mut tables, mut all) = (vec![], vec![]);
            let mut text = vec![];
            for t in 0..ts {
                let r = doc.create_record(record(t % 2 == 0));
                doc.body_mut().append_child(r);
                all.push(r);
                tables.push(r);
                let n = c.pick(max + 1);
                text.push(format!("{} rows", n));
                for _ in 0..n {
                    let f = doc.create_field(field("x"));
                    doc.get_node_mut(r).unwrap().append_child(f);
                    all.push(f);
                }
            }
            let line = c.pick(1 + ts * ts);
            let mut vb = Some(Rect::new(Point::zero(), Size::new(300.0, 300.0)));
            let ends = (line > 0).then(|| (tables[(line - 1) / ts], tables[(line - 1) % ts]));
            if c.flag() {
                text.push("by the engine".into());
                if line > 0 && tables.iter().any(|t| doc.get_node(*t).unwrap().children().next().is_none()) {
                    // the engine draws no lines among tables without rows, which no module has
                    return Err(Bad::Skip);
                }
                if let Some((a, b)) = ends {
                    doc.add_edge(EdgeData::new(a, b, None));
                }
                let mut en = SimpleLayoutEngine::new();
                vb = en.place_nodes(&mut doc);
                en.place_terminal_ports(&mut doc);
                en.draw_edge_path(&mut doc);
            } else {
                for id in &all {
                    let n = doc.get_node_mut(*id).unwrap();
                    let o = *c.of(&[(0.0, 0.0), (-200.0, 0.5), (1e6, -1e6)]);
                    let s = *c.of(&[(80.0, 30.0), (80.0, 0.0), (0.0, 30.0), (0.0, 0.0)]);
                    n.origin = Some(Point::new(o.0, o.1));
                    n.size = Some(Size::new(s.0, s.1));
                    text.push(format!("{:?} {:?}", o, s));
                }
                if let Some((a, b)) = ends {
                    let k = *c.of(&[2usize, 3, 4]);
                    text.push(format!("a line of {} points", k));
                    let pts = [(0.0, 0.0), (0.0, 20.0), (50.0, 20.0), (50.0, 90.0)].iter().take(k).map(|p| Point::new(p.0, p.1)).collect();
                    doc.add_edge(EdgeData::new(a, b, Some(pts)));
                }
            }
            match c.pick(3) {
                0 => {}
                1 => vb = None,
                _ => vb = Some(Rect::new(Point::zero(), Size::zero())),
            }
            c.label(text.join("; "));
            c.state(&text);
            c.eval(1);
            if doc.body().children().any(|t| doc.get_node(t).unwrap().rect().is_none()) || doc.edges().any(|e| e.path_points().is_none()) {
                // the engine may leave a line of a table without any rows undrawn
                return Err(Bad::Skip);
            }
            let mut r = SVGRenderer::new();
            r.view_box = vb;
            let mut out = vec![];
            let res = r.render(&doc, &mut out);
            ck!(res.is_ok(), "a complete document is not rendered: {:?}", res.err().map(|e| e.to_string()));
            svgx::parse_xml(&String::from_utf8_lossy(&out)).map_err(Bad::Viol)?;
            Ok(())
        },
    )
}
/// many tables, rows and lines, of which one, somewhere, is not laid out
fn unlaid_large(th: bool) -> Space {
    space(
        "unlaid-large",
        &format!("documents of 1 to {} tables, rows of one table, or lines, all laid out, or all but the first, second, middle, last but one, or last", if th { 5000 } else { 2000 }),
        move |c| {
            let mut ns: Vec<usize> = (1..=34).collect();
            ns.extend([50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 300, 500, 512, 999, 1000, 1001, 1024, 2000]);
            if th {
                ns.extend([3000, 4096, 5000]);
            }
            let n = *c.of(&ns);
            let what = c.pick(3);
            let gap = match c.pick(6) {
                0 => None,
                1 => Some(0),
                2 if n > 4 => Some(1),
                3 if n > 4 => Some(n / 2),
                4 if n > 4 => Some(n - 2),
                5 if n > 1 => Some(n - 1),
                _ => return Err(Bad::Skip),
            };
            let origin = what < 2 && c.flag();
            c.label(format!("{} {}, number {:?} is not laid out{}", n, ["tables", "rows", "lines"][what], gap, if origin { " (origin)" } else { "" }));
            let mut doc = Document::new();
            let (mut tables, mut rows) = (vec![], vec![]);
            for t in 0..if what == 0 { n } else { 2 } {
                let r = doc.create_record(record(t % 2 == 0));
                doc.body_mut().append_child(r);
                tables.push(r);
                for _ in 0..if what == 1 && t == 0 { n } else { 1 } {
                    let f = doc.create_field(field("x"));
                    doc.get_node_mut(r).unwrap().append_child(f);
                    rows.push(f);
                }
            }
            for (i, id) in tables.iter().chain(&rows).enumerate() {
                let x = doc.get_node_mut(*id).unwrap();
                x.origin = Some(Point::new(100.0 * i as f32, 30.0));
                x.size = Some(Size::new(80.0, 30.0));
            }
            let mut missing = vec![];
            let nodes = if what == 0 { &tables } else { &rows };
            if let (Some(g), true) = (gap, what < 2) {
                let x = doc.get_node_mut(nodes[g]).unwrap();
                if origin {
                    x.origin = None;
                } else {
                    x.size = None;
                }
                missing.push(nodes[g]);
            }
            let m = if what == 2 { n } else { 2 };
            for i in 0..m {
                let (a, b) = (rows[i % rows.len().min(2)], tables[tables.len() - 1]);
                let lost = what == 2 && gap == Some(i);
                doc.add_edge(EdgeData::new(a, b, if lost { None } else { Some(vec![Point::zero(), Point::new(0.0, 20.0)]) }));
                if lost {
                    missing.extend([a, b]);
                }
            }
            c.state(&(n, what, gap, origin));
            c.eval(1);
            let mut out = vec![];
            match (SVGRenderer::new().render(&doc, &mut out), missing.is_empty()) {
                (Ok(()), true) => {
                    let sc = scene(&String::from_utf8_lossy(&out)).map_err(Bad::Viol)?;
                    ck!(sc.tables.len() == tables.len() && sc.edges.len() == m, "{} tables and {} lines are drawn instead of {} and {}", sc.tables.len(), sc.edges.len(), tables.len(), m);
                }
                (Err(e), true) => return viol(format!("a complete document is not rendered: {}", e)),
                (Ok(()), false) => return viol("an incomplete document is rendered as if it were complete"),
                (Err(BackendError::InvalidLayout(id)), false) => {
                    ck!(missing.contains(&id), "the error names node {}, which is laid out", id);
                    ck!(out.is_empty(), "{} bytes are written for an incomplete document", out.len());
                }
                (Err(e), false) => return viol(format!("the error is {}", e)),
            }
            Ok(())
        },
    )
}
fn c16(th: bool) -> Vec<Space> {
    let mut v = vec![
        faults("writer-whole", &[0, 1, 2, 3], &[usize::MAX]).devs(if th { 7 } else { 5 }),
        faults("writer-blocks", &[0, 1], &[1024, 100]).devs(if th { 2 } else { 1 }),
        faults("writer-bytes", if th { &[0, 2, 3] } else { &[2] }, &[1]).devs(1),
        faults("writer-large", &[LARGE], &[usize::MAX, 65536, 8192, 8191]).devs(1 + th as usize),
        unlaid([2, 2], 4),
        unlaid([3, 3], 4),
        unlaid([4, 4], 3),
        unlaid_lines(if th { 3 } else { 2 }),
        unlaid_large(th),
        complete(1, 2),
        complete(2, 1),
    ];
    if th {
        v.push(unlaid([4, 4], 4));
        v.push(unlaid([6, 5], 3));
    }
    v
}

// ---- C19: documents ----------------------------------------------------------------------------

#[derive(Clone, Debug, Default, PartialEq)]
struct MNode {
    /// None: a record, with its rounding
    title: Option<String>,
    rounded: bool,
    children: Vec<usize>,
    origin: Option<(i32, i32)>,
    size: Option<(i32, i32)>,
    ports: Vec<(i32, usize)>,
}
#[derive(Default)]
struct Model {
    /// node 0 is the body
    nodes: Vec<MNode>,
    edges: Vec<(usize, usize, Option<Vec<i32>>)>,
}
const OR: [Orientation; 4] = [Orientation::Up, Orientation::Right, Orientation::Down, Orientation::Left];
struct Sys {
    doc: Document,
    ids: Vec<NodeId>,
    eids: Vec<mir::EdgeId>,
    m: Model,
    n: i32,
}
impl Sys {
    fn new() -> Sys {
        let mut m = Model::default();
        m.nodes.push(MNode::default());
        Sys { doc: Document::new(), ids: vec![], eids: vec![], m, n: 0 }
    }
    fn node(&mut self, i: usize) -> &mut mir::NodeData {
        if i == 0 {
            self.doc.body_mut()
        } else {
            self.doc.get_node_mut(self.ids[i - 1]).expect("a node cannot be found under its identifier")
        }
    }
    fn record(&mut self) {
        let rounded = self.ids.len() % 2 == 0;
        let id = self.doc.create_record(record(rounded));
        self.ids.push(id);
        self.m.nodes.push(MNode { rounded, ..Default::default() });
    }
    fn field(&mut self) {
        self.n += 1;
        let t = format!("f{}", self.n);
        let id = self.doc.create_field(field(&t));
        self.ids.push(id);
        self.m.nodes.push(MNode { title: Some(t), ..Default::default() });
    }
    fn append(&mut self, p: usize, k: usize) {
        let id = self.ids[k - 1];
        self.node(p).append_child(id);
        self.m.nodes[p].children.push(k);
    }
    fn edge(&mut self, a: usize, b: usize, path: bool) {
        self.n += 1;
        let p = path.then(|| vec![self.n, self.n + 1]);
        let pts = p.as_ref().map(|v| v.iter().map(|x| Point::new(*x as f32, 0.0)).collect());
        let id = self.doc.add_edge(EdgeData::new(self.ids[a - 1], self.ids[b - 1], pts));
        self.eids.push(id);
        self.m.edges.push((a, b, p));
    }
    fn change(&mut self, i: usize, k: usize) {
        self.n += 1;
        let n = self.n;
        let id = if i > 0 { Some(self.ids[i - 1]) } else { None };
        let node = self.node(i);
        match k {
            0 => {
                node.origin = Some(Point::new(n as f32, 2.0));
                self.m.nodes[i].origin = Some((n, 2));
            }
            1 => {
                node.size = Some(Size::new(n as f32, 3.0));
                self.m.nodes[i].size = Some((n, 3));
            }
            2 => {
                if let Some(id) = id {
                    let d = n as usize % 4;
                    node.add_terminal_port(id, Point::new(n as f32, 0.0), OR[d]);
                    self.m.nodes[i].ports.push((n, d));
                }
            }
            3 => {
                // always the same
                if let Some(id) = id {
                    node.add_terminal_port(id, Point::new(-1.0, 0.0), OR[0]);
                    self.m.nodes[i].ports.push((-1, 0));
                }
            }
            _ => {
                node.clear_terminal_ports();
                self.m.nodes[i].ports.clear();
            }
        }
    }
    fn route(&mut self, e: usize, some: bool) {
        self.n += 1;
        let p = some.then(|| [vec![self.n, 7, self.n], vec![self.n], vec![], vec![self.n, self.n]][self.n as usize % 4].clone());
        let pts = p.as_ref().map(|v| v.iter().map(|x| Point::new(*x as f32, 0.0)).collect());
        if let Some(x) = self.doc.edges_mut().nth(e) {
            x.set_path_points(pts);
        }
        self.m.edges[e].2 = p;
    }
    fn same(&self, c: &mut Ch) -> R {
        let doc = &self.doc;
        for (i, a) in self.ids.iter().enumerate() {
            for b in &self.ids[..i] {
                ck!(a != b && a.to_string() != b.to_string(), "two nodes share the identifier {}", a);
            }
        }
        for (i, m) in self.m.nodes.iter().enumerate() {
            c.eval(1);
            let n = if i == 0 {
                doc.body()
            } else {
                match doc.get_node(self.ids[i - 1]) {
                    Some(n) => n,
                    None => return viol(format!("node {} cannot be found under its identifier", i)),
                }
            };
            match (n.kind(), &m.title) {
                (ShapeKind::Body(_), None) if i == 0 => {}
                (ShapeKind::Record(r), None) if i > 0 => ck!(r.rounded == m.rounded, "node {} has the shape of another one", i),
                (ShapeKind::Field(f), Some(t)) => ck!(&f.title.text == t, "node {} has the title {:?} instead of {:?}", i, f.title.text, t),
                _ => return viol(format!("node {} has the kind of another one", i)),
            }
            let kids: Vec<NodeId> = n.children().collect();
            let want: Vec<NodeId> = m.children.iter().map(|k| self.ids[k - 1]).collect();
            ck!(kids == want && n.children().len() == want.len(), "node {} has other children: {:?} instead of {:?}", i, kids, want);
            let o = n.origin.map(|p| (p.x as i32, p.y as i32));
            let s = n.size.map(|p| (p.width as i32, p.height as i32));
            ck!(o == m.origin && s == m.size, "node {} has origin {:?} and size {:?} instead of {:?} and {:?}", i, o, s, m.origin, m.size);
            let r = n.rect().map(|r| ((r.origin.x as i32, r.origin.y as i32), (r.size.width as i32, r.size.height as i32)));
            ck!(r == m.origin.and_then(|o| m.size.map(|s| (o, s))), "node {} has the rectangle {:?}", i, r);
            let ports: Vec<(i32, usize)> = n
                .terminal_ports()
                .map(|p| (p.location().x as i32, OR.iter().position(|o| *o == p.orientation()).unwrap()))
                .collect();
            ck!(ports == m.ports, "node {} has the ports {:?} instead of {:?}", i, ports, m.ports);
            let mut pids: Vec<String> = n.terminal_ports().map(|p| p.id().to_string()).collect();
            pids.sort();
            pids.dedup();
            ck!(pids.len() == m.ports.len(), "two ports of node {} share an identifier", i);
        }
        let es: Vec<&EdgeData> = doc.edges().collect();
        ck!(es.len() == self.m.edges.len(), "{} lines instead of {}", es.len(), self.m.edges.len());
        let eids: Vec<mir::EdgeId> = doc.edge_ids().collect();
        ck!(eids == self.eids, "the lines are listed as {:?} instead of {:?}", eids, self.eids);
        for (i, (a, b, p)) in self.m.edges.iter().enumerate() {
            c.eval(1);
            let want = (self.ids[a - 1], self.ids[b - 1]);
            let one = doc.edge(self.eids[i]);
            for e in [Some(es[i]), one] {
                let Some(e) = e else { return viol(format!("line {} cannot be found under its identifier", i)) };
                ck!((e.source_id(), e.target_id()) == want, "line {} joins {:?}", i, (e.source_id(), e.target_id()));
                let g = e.path_points().map(|v| v.iter().map(|p| p.x as i32).collect::<Vec<_>>());
                ck!(&g == p, "line {} has the route {:?} instead of {:?}", i, g, p);
            }
            ck!(doc.edge_endpoints(self.eids[i]) == Some(want), "line {} has other ends: {:?}", i, doc.edge_endpoints(self.eids[i]));
        }
        c.state(&format!("{:?}{:?}", self.m.nodes, self.m.edges));
        Ok(())
    }
}
fn doc_ops(depth: usize, start: usize) -> Space {
    space(
        &format!("operations-{}-{}", start, depth),
        &format!("every sequence of {} operations on a document that has {} nodes: create record / field, append any node to any node, line between any two nodes, change origin / size / ports of any node, set the route of any line", depth, start),
        move |c| {
            let mut s = Sys::new();
            let mut log = vec![];
            for i in 0..start {
                if i % 2 == 0 { s.record() } else { s.field() }
            }
            for _ in 0..depth {
                let n = s.ids.len();
                let e = s.eids.len();
                // operation, its arguments
                let mut ops: Vec<(usize, usize, usize)> = vec![(0, 0, 0), (1, 0, 0)];
                for p in 0..=n {
                    for k in 1..=n {
                        if p != k {
                            ops.push((2, p, k));
                        }
                    }
                    for k in 0..5 {
                        ops.push((4, p, k));
                    }
                }
                for a in 1..=n {
                    for b in 1..=n {
                        ops.push((3, a, b));
                    }
                }
                for x in 0..e {
                    ops.push((5, x, 1));
                    ops.push((5, x, 0));
                }
                let (op, a, b) = ops[c.pick(ops.len())];
                log.push(format!("{}({}, {})", ["record", "field", "append", "line", "change", "route"][op], a, b));
                c.label(log.join("; "));
                match op {
                    0 => s.record(),
                    1 => s.field(),
                    2 => s.append(a, b),
                    3 => s.edge(a, b, (a + b) % 2 == 0),
                    4 => s.change(a, b),
                    _ => s.route(a, b == 1),
                }
            }
            s.same(c)
        },
    )
}
fn doc_long() -> Space {
    space("long", "documents of up to 300 nodes and lines built in every one of 6^3 periodic patterns of operations", |c| {
        let (p, q, r) = (c.pick(6), c.pick(6), c.pick(6));
        let len = *c.of(&[7usize, 60, 300]);
        c.label(format!("pattern {} {} {}, {} operations", p, q, r, len));
        let mut s = Sys::new();
        s.record();
        for i in 0..len {
            let n = s.ids.len();
            let e = s.eids.len();
            match [p, q, r][i % 3] {
                0 => s.record(),
                1 => s.field(),
                2 => s.append(i % n, n - (i % n).min(n - 1)),
                3 => s.edge(1 + i % n, 1 + (i / 2) % n, i % 2 == 0),
                4 => s.change((i * 7) % (n + 1), i % 5),
                _ => {
                    if e > 0 {
                        s.route((i * 5) % e, i % 3 != 0)
                    }
                }
            }
        }
        s.same(c)
    })
}
/// one node with many children, lines or ports, many nodes
fn doc_wide(max: usize) -> Space {
    space("wide", &format!("1, 15 to 17, 31 to 33, 63 to 65, ... and 1000, up to {} nodes put below the body, below the first record, or below each other, in the order of their creation, backwards, or every third first, each once or twice; the same number of lines between the first two, between all neighbours or of each with itself; ports at one node", max), move |c| {
        let mut ns = vec![1usize, 10, 100, 1000, 5000];
        for k in 4..13 {
            ns.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
        }
        ns.retain(|n| *n <= max);
        let n = *c.of(&ns);
        let (below, order, twice, lines) = (c.pick(3), c.pick(3), c.flag(), c.pick(4));
        c.label(format!("{} nodes, below {}, order {}, twice {}, lines {}", n, below, order, twice, lines));
        let mut s = Sys::new();
        s.record();
        for i in 0..n {
            if i % 2 == 0 { s.field() } else { s.record() }
        }
        // nodes 2 ..= n + 1
        let mut ks: Vec<usize> = (2..n + 2).collect();
        match order {
            0 => {}
            1 => ks.reverse(),
            _ => ks.sort_by_key(|k| k % 3),
        }
        for k in ks {
            for _ in 0..1 + twice as usize {
                s.append([0, 1, k - 1][below], k);
            }
        }
        for i in 0..n {
            match lines {
                0 => s.edge(1, 2, i % 2 == 0),
                1 => s.edge(i + 1, i + 2, i % 3 == 0),
                2 => s.edge(i + 1, i + 1, false),
                _ => s.change(1, 2),
            }
        }
        s.same(c)
    })
}
fn c19(th: bool) -> Vec<Space> {
    let x = th as usize;
    vec![doc_ops(5 + x, 0), doc_ops(4 + x, 2), doc_ops(3 + x, 4), doc_long(), doc_wide(if th { 5000 } else { 2100 })]
}

fn main() {
    run::main(&[
        Check {
            id: "C14",
            level: "model_checking",
            rule: "one case = one route drawn by the real renderer and read back from the path data; states = distinct drawn lines",
            assumptions: &["path data is read by mc/src/svgx.rs; routes are orthogonal, without zero-length or reversing segments"],
            spaces: c14,
        },
        Check {
            id: "C15",
            level: "model_checking",
            rule: "one case = one history of layout operations, compared with a fresh engine and document after every complete layout; states = distinct drawings",
            assumptions: &["phases are run in their documented order: places, then ports, then lines, each repeated at will; after an extension they start again"],
            spaces: c15,
        },
        Check {
            id: "C16",
            level: "fault_enumeration",
            rule: "one case = one document rendered into one behaviour of the writer, or one set of missing layout data; distinct by writer behaviour and outcome",
            assumptions: &["an interrupted write is one that io::Write allows to be repeated"],
            spaces: c16,
        },
        Check {
            id: "C19",
            level: "model_checking",
            rule: "one case = one sequence of operations, the whole document compared with a plain reference model; states = distinct documents",
            assumptions: &[],
            spaces: c19,
        },
    ]);
}
