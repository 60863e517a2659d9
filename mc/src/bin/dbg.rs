//! C23, C24: the routing network, its overlay, and the notebook output.
use seiren::geometry::{Point, Rect, Size};
use seiren::evcxr::{draw_erd, CustomDisplay};
use seiren::layout::{LayoutEngine, RouteGraph, SimpleLayoutEngine};
use seiren::mir::Document;
use seiren::renderer::{Renderer, SVGRenderer};
use seiren_mc::ex::*;
use seiren_mc::geom::*;
use seiren_mc::model::*;
use seiren_mc::run::{space, Check, Space};
use seiren_mc::svgx::{parse_xml, scene, El};
use seiren_mc::*;
use std::io::{Read, Seek, Write};
use std::os::fd::AsRawFd;

type P2 = (f64, f64);

fn network(g: &RouteGraph) -> Result<(Vec<P2>, Vec<(P2, P2)>), Bad> {
    let loc = |id| -> Result<P2, Bad> {
        match g.get_node(id) {
            Some(n) => Ok((n.location().x as f64, n.location().y as f64)),
            None => Err(Bad::Viol("a link has an end that is not a node of the network".into())),
        }
    };
    let nodes: Vec<P2> = g.nodes().map(|n| (n.location().x as f64, n.location().y as f64)).collect();
    let ids: Vec<_> = g.node_ids().collect();
    let mut by_id = vec![];
    for i in &ids {
        by_id.push(loc(*i)?);
    }
    if by_id != nodes {
        return Err(Bad::Viol("the network lists its nodes differently by identifier".into()));
    }
    let mut links = vec![];
    let mut pairs = std::collections::HashSet::new();
    for e in g.edges() {
        let (a, b) = (e.source_id(), e.target_id());
        if a == b {
            return Err(Bad::Viol(format!("a link joins node {} with itself", a)));
        }
        let (x, y) = (ids.iter().position(|i| *i == a), ids.iter().position(|i| *i == b));
        if !pairs.insert((x.min(y), x.max(y))) {
            return Err(Bad::Viol(format!("the link {} - {} appears twice", a, b)));
        }
        links.push((loc(a)?, loc(b)?));
    }
    Ok((nodes, links))
}
/// Is the segment a - b covered by links?
fn covered(a: P2, b: P2, links: &[(P2, P2)]) -> bool {
    let v = near(a.0, b.0);
    let k = |p: P2| if v { (p.0, p.1) } else { (p.1, p.0) };
    let (line, lo, hi) = (k(a).0, k(a).1.min(k(b).1), k(a).1.max(k(b).1));
    let mut at = lo;
    loop {
        if at >= hi - EPS {
            return true;
        }
        let mut best = at;
        for (p, q) in links {
            if near(k(*p).0, line) && near(k(*q).0, line) {
                let (s, t) = (k(*p).1.min(k(*q).1), k(*p).1.max(k(*q).1));
                if s <= at + EPS && t > best {
                    best = t;
                }
            }
        }
        if best <= at + EPS {
            return false;
        }
        at = best;
    }
}
fn lay(doc: &mut Document, en: &mut SimpleLayoutEngine) -> Option<seiren::geometry::Rect> {
    let vb = en.place_nodes(doc);
    en.place_terminal_ports(doc);
    en.draw_edge_path(doc);
    vb
}
fn see_network(c: &mut Ch, doc: &mut Document, en: &mut SimpleLayoutEngine) -> R {
    let vb = lay(doc, en);
    network_of(c, doc, vb, en)
}
fn network_of(c: &mut Ch, doc: &Document, vb: Option<Rect>, en: &SimpleLayoutEngine) -> R {
    let sc = scene(&pipe::svg(doc, vb)).map_err(Bad::Viol)?;
    let (nodes, links) = network(en.edge_route_graph())?;
    let key: Vec<(i64, i64)> = nodes.iter().chain(links.iter().map(|l| &l.0)).chain(links.iter().map(|l| &l.1)).map(|p| (p.0 as i64, p.1 as i64)).collect();
    c.state(&key);
    for (i, a) in nodes.iter().enumerate() {
        for b in &nodes[..i] {
            ck!(!near_pt(*a, *b), "two nodes of the network are at {:?}", a);
        }
    }
    for (a, b) in &links {
        c.eval(1);
        ck!(near(a.0, b.0) != near(a.1, b.1), "a link runs from {:?} to {:?}", a, b);
        for (k, t) in sc.tables.iter().enumerate() {
            ck!(!through(*a, *b, t.rect), "the link {:?} - {:?} runs through table {} at {:?}", a, b, k, t.rect);
        }
    }
    for (i, e) in sc.edges.iter().enumerate() {
        for w in e.polyline().windows(2) {
            c.eval(1);
            ck!(covered(w[0], w[1], &links), "line {} leaves the network between {:?} and {:?}", i, w[0], w[1]);
        }
    }
    Ok(())
}
fn rel(c: &mut Ch, ns: &[usize]) -> Entry {
    let mut end = || {
        let i = c.pick(ns.len());
        let r = c.pick(ns[i] + 1);
        if r == 0 { Path::e(&tname(i)) } else { Path::f(&tname(i), &fname(r - 1)) }
    };
    let (a, b) = (end(), end());
    Entry::Rel { a, b }
}
fn choose(c: &mut Ch, t: usize, hs: &[usize], e: usize) -> Doc {
    let ns: Vec<usize> = (0..t).map(|_| *c.of(hs)).collect();
    let mut d = Doc { name: None, entries: ns.iter().enumerate().map(|(i, n)| table(i, *n)).collect() };
    for _ in 0..e {
        let r = rel(c, &ns);
        d.entries.push(r);
    }
    d
}
fn nets(t: usize, hs: &'static [usize], e: usize) -> Space {
    space(
        &format!("t{}h{}e{}", t, hs.iter().map(|h| h.to_string()).collect::<Vec<_>>().join("."), e),
        &format!("{} tables with {:?} fields each, {} relation(s) between any two elements", t, hs, e),
        move |c| {
            let d = choose(c, t, hs, e);
            c.label(d.src());
            see_network(c, &mut pipe::build(&d).into_mir(), &mut SimpleLayoutEngine::new())
        },
    )
}
/// the network of other families of modules
fn family(x: docs::Docs) -> Space {
    space(&x.name, &x.what, move |c| {
        let d = (x.choose)(c);
        c.label(d.src());
        see_network(c, &mut pipe::build(&d).into_mir(), &mut SimpleLayoutEngine::new())
    })
}
/// the network around tables that were moved
fn moved(x: docs::Moved) -> Space {
    space(&x.name.clone(), &x.what.clone(), move |c| {
        let (d, at) = x.choose(c)?;
        c.label(format!("{:?}\n{}", at, d.src()));
        let mut doc = pipe::build(&d).into_mir();
        let mut en = SimpleLayoutEngine::new();
        docs::lay_at(&mut doc, &at, &mut en);
        network_of(c, &doc, None, &en)
    })
}
/// two modules for one engine
fn two(c: &mut Ch) -> (Doc, Doc) {
    let t = c.pick(4);
    let mut d = choose(c, t, &[0, 3], 0);
    let n = d.tables().last().map_or(0, |x| x.1.len());
    if t > 0 && c.flag() {
        let b = if n > 0 && c.flag() { Path::f(&tname(t - 1), &fname(n - 1)) } else { Path::e(&tname(t - 1)) };
        d.entries.push(Entry::Rel { a: Path::e(&tname(0)), b });
    }
    let t = c.pick(4);
    let e = if t > 0 { c.pick(2) } else { 0 };
    (d, choose(c, t, &[0, 3], e))
}
fn used() -> Space {
    space("used-engine", "the engine has laid out another document before: up to 3 tables of 0 or 3 fields, with or without a relation from the first to the last; then up to 3 such tables with up to one relation", |c| {
        let mut en = SimpleLayoutEngine::new();
        let (d, e) = two(c);
        lay(&mut pipe::build(&d).into_mir(), &mut en);
        c.label(format!("{}\n--- then ---\n{}", d.src(), e.src()));
        see_network(c, &mut pipe::build(&e).into_mir(), &mut en)
    })
}
fn c23(th: bool) -> Vec<Space> {
    let mut v = vec![
        nets(0, &[0], 0),
        nets(2, &[0, 1, 4], 0),
        nets(1, &[0, 1, 2, 3, 5], 2),
        nets(2, &[0, 1, 2, 3, 5], 1),
        nets(3, &[0, 1, 2, 4], 1),
        nets(4, &[0, 1, 3], 1),
        nets(5, &[0, 3], 1),
        nets(6, &[0, 2], 1),
        nets(2, &[0, 1, 2], 2),
        nets(3, &[0, 1], 2),
        nets(4, &[0, 1], 2),
        nets(2, &[0, 9, 25], 1),
        nets(4, &[0, 8], 1),
        nets(7, &[0, 2], 1),
        nets(12, &[0, 1], 0),
        family(docs::wide(&[7, 8, 9, 10, 12], &[1, 4, 9])),
        family(docs::tall(&[1, 2, 3, 4, 5, 7], &[7, 20])),
        family(docs::crowd(if th { 40 } else { 16 })),
        family(docs::bundle()),
        family(docs::rows(if th { 90 } else { 48 }, &[100])),
        family(docs::everywhere(if th { &[20, 41, 70] } else { &[20, 41] })),
        family(docs::hub()),
        used(),
    ];
    v.extend(docs::moved(th).into_iter().map(moved));
    if th {
        v.extend([
            nets(3, &[0, 1, 2, 3, 5, 8], 1),
            nets(4, &[0, 1, 2, 4, 7], 1),
            nets(5, &[0, 2, 5], 1),
            nets(6, &[0, 1, 4], 1),
            nets(7, &[0, 3], 1),
            nets(8, &[0, 2], 1),
            nets(2, &[0, 1, 2], 3),
            nets(3, &[0, 1, 2], 2),
            nets(5, &[0, 1], 2),
        ]);
    }
    v
}

// ---- C24 ---------------------------------------------------------------------------------------

fn same_el(a: &El, b: &El) -> bool {
    format!("{:?}", a) == format!("{:?}", b)
}
fn overlay(c: &mut Ch, d: &Doc) -> R {
    overlay_in(c, d, |_, v| v)
}
fn overlay_in(c: &mut Ch, d: &Doc, frame: impl Fn(&mut Ch, Option<Rect>) -> Option<Rect>) -> R {
    let mut doc = pipe::build(d).into_mir();
    let mut en = SimpleLayoutEngine::new();
    let vb = lay(&mut doc, &mut en);
    let vb = frame(c, vb);
    let plain = pipe::svg(&doc, vb);
    let mut r = SVGRenderer::new();
    r.view_box = vb;
    r.edge_route_graph = Some(en.edge_route_graph());
    let mut out = vec![];
    if let Err(e) = r.render(&doc, &mut out) {
        return viol(format!("rendering with the overlay fails: {}", e));
    }
    let with = String::from_utf8(out).map_err(|_| Bad::Viol("the output with the overlay is not UTF-8".into()))?;
    c.state(&with);
    let (a, b) = (parse_xml(&plain).map_err(Bad::Viol)?, parse_xml(&with).map_err(Bad::Viol)?);
    let own = |e: &El| e.attrs.clone();
    ck!(own(&a) == own(&b), "the overlay changes the root element");
    let (x, y): (Vec<&El>, Vec<&El>) = (a.els().collect(), b.els().collect());
    ck!(y.len() >= x.len(), "the overlay removes elements");
    for (i, (p, q)) in x.iter().zip(&y).enumerate() {
        c.eval(1);
        ck!(same_el(p, q), "the overlay changes element {} of the drawing, <{}>", i, p.name);
    }
    let rest = &y[x.len()..];
    let g = en.edge_route_graph();
    let (nodes, links) = network(g)?;
    let num = |e: &El, k: &str| e.num(k).map_err(Bad::Viol);
    let at = |e: &El, x: &str, y: &str| -> Result<P2, Bad> { Ok((num(e, x)?, num(e, y)?)) };
    let mut lines: Vec<(P2, P2)> = vec![];
    let mut heads: Vec<Vec<P2>> = vec![];
    let mut dots: Vec<P2> = vec![];
    let mut marks: Vec<P2> = vec![];
    let mut labels: Vec<(P2, String)> = vec![];
    for e in rest {
        match e.name.as_str() {
            "line" => lines.push((at(e, "x1", "y1")?, at(e, "x2", "y2")?)),
            "polygon" => {
                let t = e.attr("points").unwrap_or("");
                let v: Option<Vec<f64>> = t.split(|c: char| c == ',' || c.is_whitespace()).filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect();
                match v {
                    Some(v) if v.len() == 6 => heads.push(v.chunks(2).map(|p| (p[0], p[1])).collect()),
                    _ => return viol(format!("an arrow head of the overlay has the points {:?}", t)),
                }
            }
            "circle" => {
                ck!(num(e, "r")? > 0.0, "a mark of the overlay has no size");
                let p = at(e, "cx", "cy")?;
                if e.attr("fill") == Some("red") { dots.push(p) } else { marks.push(p) }
            }
            "text" => labels.push((at(e, "x", "y")?, e.text().trim().to_string())),
            n => return viol(format!("the overlay adds a <{}>", n)),
        }
    }
    ck!(lines.len() == links.len(), "the overlay shows {} links, the network has {}", lines.len(), links.len());
    ck!(heads.len() == links.len(), "the overlay shows {} arrow heads, the network has {} links", heads.len(), links.len());
    ck!(dots.len() == nodes.len(), "the overlay shows {} nodes, the network has {}", dots.len(), nodes.len());
    for (p, q) in &links {
        c.eval(1);
        let n = lines.iter().filter(|(s, t)| near_pt(*s, *p) && near_pt(*t, *q)).count();
        ck!(n == 1, "the overlay shows the link {:?} - {:?} {} times", p, q, n);
        // an arrow head at q: its tip on the way to q, the other two points behind it on either side
        let l = ((q.0 - p.0).powi(2) + (q.1 - p.1).powi(2)).sqrt();
        let u = ((q.0 - p.0) / l, (q.1 - p.1) / l);
        let n = heads.iter().filter(|h| {
            // (distance before q, distance from the line)
            let mut v: Vec<P2> = h.iter().map(|x| (q.0 - x.0, q.1 - x.1)).map(|d| (d.0 * u.0 + d.1 * u.1, d.0 * u.1 - d.1 * u.0)).collect();
            v.sort_by(|a, b| a.0.total_cmp(&b.0));
            near(v[0].1, 0.0) && v[0].0 > -EPS && v[0].0 < 8.0 && near(v[1].0, v[2].0) && v[1].0 > v[0].0 + EPS && v[1].0 < 30.0 && near(v[1].1, -v[2].1) && v[1].1.abs() > EPS && v[1].1.abs() < 15.0
        }).count();
        ck!(n >= 1, "the link {:?} - {:?} has no arrow head", p, q);
    }
    for (p, id) in nodes.iter().zip(g.node_ids()) {
        c.eval(1);
        let n = dots.iter().filter(|s| near_pt(**s, *p)).count();
        ck!(n == 1, "the overlay shows the node at {:?} {} times", p, n);
        let n = labels.iter().filter(|(q, t)| *t == id.to_string() && (q.0 - p.0).abs() < 15.0 && (q.1 - p.1).abs() < 15.0).count();
        ck!(n >= 1, "the identifier {} is not shown beside the node at {:?}", id, p);
    }
    let mut want: Vec<P2> = doc.edges().filter_map(|e| e.path_points()).flatten().map(|p| (p.x as f64, p.y as f64)).collect();
    want.sort_by(|a, b| a.0.total_cmp(&b.0).then(a.1.total_cmp(&b.1)));
    marks.sort_by(|a, b| a.0.total_cmp(&b.0).then(a.1.total_cmp(&b.1)));
    ck!(want.len() == marks.len() && want.iter().zip(&marks).all(|(a, b)| near_pt(*a, *b)), "the routes have the points {:?}, but the overlay marks {:?}", want, marks);
    let mut n = nodes.len();
    for id in doc.body().children() {
        let Some(r) = doc.get_node(id).and_then(|n| n.rect()) else { continue };
        n += 1;
        let beside = |q: P2| q.0 > r.min_x() as f64 - 15.0 && q.0 < r.max_x() as f64 + 15.0 && q.1 > r.min_y() as f64 - 15.0 && q.1 < r.max_y() as f64 + 15.0;
        ck!(labels.iter().any(|(q, t)| *t == id.to_string() && beside(*q)), "the identifier {} is not shown beside its table at {:?}", id, r);
    }
    ck!(labels.len() == n, "the overlay shows {} identifiers of {} nodes and tables", labels.len(), n);
    Ok(())
}
fn overlays(t: usize, hs: &'static [usize], e: usize) -> Space {
    space(
        &format!("overlay-t{}h{}e{}", t, hs.iter().map(|h| h.to_string()).collect::<Vec<_>>().join("."), e),
        &format!("{} tables with {:?} fields each, {} relation(s) between any two elements, drawn with and without overlay", t, hs, e),
        move |c| {
            let d = choose(c, t, hs, e);
            c.label(d.src());
            overlay(c, &d)
        },
    )
}
fn overlay_family(x: docs::Docs) -> Space {
    space(&format!("overlay-{}", x.name), &format!("{}, drawn with and without overlay", x.what), move |c| {
        let d = (x.choose)(c);
        c.label(d.src());
        overlay(c, &d)
    })
}
/// whatever part of the drawing is to be shown
fn overlay_frames(t: usize, hs: &'static [usize], e: usize) -> Space {
    space(
        &format!("overlay-frames-t{}h{}e{}", t, hs.iter().map(|h| h.to_string()).collect::<Vec<_>>().join("."), e),
        &format!("{} tables with {:?} fields each, {} relation(s), drawn with and without overlay in no view box, or one from any of 4 x 4 corners and of any of 4 x 4 sizes", t, hs, e),
        move |c| {
            let d = choose(c, t, hs, e);
            c.label(d.src());
            overlay_in(c, &d, |c, v| {
                if c.flag() {
                    return None;
                }
                let v = v.unwrap_or(Rect::new(Point::zero(), Size::new(10.0, 10.0)));
                let mut at = |v: f32| *c.of(&[v, v - 50.0, v + 33.5, 1000.0]);
                let o = Point::new(at(v.min_x()), at(v.min_y()));
                let mut len = |v: f32| *c.of(&[v, 1.0, v / 2.0, v * 3.0]);
                let s = Size::new(len(v.width()), len(v.height()));
                Some(Rect::new(o, s))
            })
        },
    )
}
/// networks of up to thousands of nodes
fn overlay_large(max: usize) -> Space {
    space("overlay-large", &format!("1, 2, 3, 5, 10, 20, ... up to {} tables of 0, 1 or 5 fields, without or with a relation between the first and the last one's last row, drawn with and without overlay", max), move |c| {
        let ts: Vec<usize> = [1, 2, 3, 5, 10, 20, 26, 35, 50, 80, 120, 200, 255, 300, 500, 800, 1200].into_iter().filter(|t| *t <= max).collect();
        let (t, n) = (*c.of(&ts), *c.of(&[0usize, 1, 5]));
        let mut d = Doc { name: None, entries: (0..t).map(|i| table(i, n)).collect() };
        if c.flag() {
            let b = if n == 0 { Path::e(&tname(t - 1)) } else { Path::f(&tname(t - 1), &fname(n - 1)) };
            d.entries.push(Entry::Rel { a: Path::e(&tname(0)), b });
        }
        c.label(format!("{} tables of {} fields", t, n));
        overlay(c, &d)
    })
}
/// up to hundreds of routes to mark
fn overlay_lines(max: usize) -> Space {
    space("overlay-lines", &format!("0 to 12, 16, 20, 31, 32, 33, 50, 64, 65, 99, 100, 101, ... up to {} relations between the tables, or rows, of 2 tables, or among 6 tables, drawn with and without overlay", max), move |c| {
        let mut ns: Vec<usize> = (0..=12).collect();
        ns.extend([16, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 600, 1000]);
        ns.retain(|n| *n <= max);
        let n = *c.of(&ns);
        let how = c.pick(3);
        let t = if how == 2 { 6 } else { 2 };
        let mut d = Doc { name: None, entries: (0..t).map(|i| table(i, 4)).collect() };
        for i in 0..n {
            let (a, b) = match how {
                0 => (Path::e(&tname(0)), Path::e(&tname(1))),
                1 => (Path::f(&tname(0), &fname(i % 4)), Path::f(&tname(1), &fname(i / 4 % 4))),
                _ => (Path::f(&tname(i % 6), &fname(i / 6 % 4)), Path::e(&tname((i + 1 + i / 6 % 5) % 6))),
            };
            d.entries.push(Entry::Rel { a, b });
        }
        c.label(format!("{} relations, way {}", n, how));
        overlay(c, &d)
    })
}
/// every character in the notebook output
fn characters() -> Space {
    space("notebook-characters", "notebook output of tables and fields whose names have every character but line ends below U+0250, and every 97th other, alone, twice, and within text", |c| {
        let all: Vec<char> = (0..0x250u32).chain((0x250..0x110000).step_by(97)).filter_map(char::from_u32).filter(|x| !matches!(x, '\n' | '\r')).collect();
        const B: usize = 40;
        let k = c.pick(all.len().div_ceil(B));
        let cs = &all[k * B..all.len().min(k * B + B)];
        let names: Vec<String> = cs.iter().flat_map(|x| [x.to_string(), format!("{}{}", x, x), format!("a{}b", x)]).collect();
        let flip = c.flag();
        let fs: Vec<Field> = names.iter().map(|n| Field { name: n.clone(), ty: Ty::Int, key: None }).collect();
        let entries = if flip {
            names.iter().map(|n| Entry::Entity { name: n.clone(), fields: vec![] }).collect()
        } else {
            vec![Entry::Entity { name: "t".into(), fields: fs }]
        };
        c.label(format!("U+{:04X} to U+{:04X}", cs[0] as u32, cs[cs.len() - 1] as u32));
        notebook(c, &Doc { name: None, entries }, true)
    })
    .threads(1)
}
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}
/// What `f` prints to standard output. Only one thread may do this.
fn captured(f: impl FnOnce()) -> Vec<u8> {
    let path = std::env::temp_dir().join(format!("seiren-mc-nb-{}", std::process::id()));
    let mut file = std::fs::File::options().create(true).truncate(true).read(true).write(true).open(&path).expect("harness: capture file");
    let _ = std::fs::remove_file(&path);
    std::io::stdout().flush().unwrap();
    let old = unsafe { dup(1) };
    assert!(old >= 0, "harness: dup");
    unsafe { dup2(file.as_raw_fd(), 1) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let _ = std::io::stdout().flush();
    unsafe {
        dup2(old, 1);
        close(old);
    }
    if let Err(p) = r {
        std::panic::resume_unwind(p);
    }
    let mut v = vec![];
    file.rewind().unwrap();
    file.read_to_end(&mut v).unwrap();
    v
}
fn notebook(c: &mut Ch, d: &Doc, boxed: bool) -> R {
    let mut doc = pipe::build(d).into_mir();
    let mut en = SimpleLayoutEngine::new();
    let vb = lay(&mut doc, &mut en);
    let vb = if boxed { vb } else { None };
    let svg = pipe::svg(&doc, vb);
    let got = captured(|| draw_erd(&doc, vb).evcxr_display());
    c.state(&got);
    c.eval(1);
    let want = format!("EVCXR_BEGIN_CONTENT image/svg+xml\n{}\nEVCXR_END_CONTENT\n", svg);
    let got = String::from_utf8_lossy(&got);
    ck!(got == want, "the notebook output is not the drawing between its markers: {} bytes instead of {}, {:?} ... {:?}", got.len(), want.len(), got.chars().take(60).collect::<String>(), got.chars().rev().take(30).collect::<Vec<_>>().into_iter().rev().collect::<String>());
    Ok(())
}
fn notebooks(t: usize, hs: &'static [usize], e: usize) -> Space {
    space(
        &format!("notebook-t{}h{}e{}", t, hs.iter().map(|h| h.to_string()).collect::<Vec<_>>().join("."), e),
        &format!("{} tables with {:?} fields each, {} relation(s), with and without view box, as notebook output", t, hs, e),
        move |c| {
            let boxed = c.pick(2) == 0;
            let d = choose(c, t, hs, e);
            c.label(d.src());
            notebook(c, &d, boxed)
        },
    )
    .threads(1)
}
fn names() -> Space {
    space("notebook-names", "notebook output of a table and a field whose names are any of 13 pieces of text", |c| {
        let ns = ["a", "{}", "{0}", "%s", "é", "<&>", "\u{0}", "EVCXR_END_CONTENT", "\\n", "\"", "\u{1F600}", "", " x "];
        let d = Doc {
            name: None,
            entries: vec![Entry::Entity {
                name: c.of(&ns).to_string(),
                fields: vec![Field { name: c.of(&ns).to_string(), ty: Ty::Int, key: None }],
            }],
        };
        c.label(d.src());
        notebook(c, &d, true)?;
        overlay(c, &d)
    })
    .threads(1)
}
fn c24(th: bool) -> Vec<Space> {
    let mut v = vec![
        overlays(0, &[0], 0),
        overlays(2, &[0, 2], 0),
        overlays(1, &[0, 1, 2, 3, 5], 2),
        overlays(2, &[0, 1, 2, 5], 1),
        overlays(3, &[0, 1, 3], 1),
        overlays(4, &[0, 2], 1),
        overlays(5, &[0, 2], 1),
        overlays(2, &[0, 1], 3),
        overlays(2, &[0, 9, 25], 1),
        overlays(4, &[0, 8], 1),
        overlays(7, &[0, 2], 0),
        overlays(13, &[0, 1], 0),
        overlay_family(docs::bundle()),
        overlay_family(docs::hub()),
        overlay_family(docs::crowd(if th { 30 } else { 12 })),
        overlay_frames(0, &[0], 0),
        overlay_frames(2, &[0, 2], 1),
        overlay_frames(4, if th { &[0, 2] } else { &[2] }, 1),
        overlay_large(if th { 800 } else { 300 }),
        overlay_lines(if th { 1000 } else { 600 }),
        characters(),
        notebooks(0, &[0], 0),
        notebooks(2, &[0, 1, 2], 1),
        notebooks(3, &[0, 1], 1),
        notebooks(4, &[0, 1, 4], 0),
        notebooks(2, &[9, 25, 60], 0),
        notebooks(10, &[0, 1], 0),
        names(),
    ];
    if th {
        v.extend([
            overlays(4, &[0, 1, 4], 1),
            overlays(6, &[0, 2], 1),
            overlays(3, &[0, 1, 2], 2),
            notebooks(4, &[0, 1], 1),
            notebooks(2, &[0, 1, 2], 2),
        ]);
    }
    v
}

fn main() {
    const SVG: &str = "the SVG reader (mc/src/svgx.rs) reads tables and lines as an SVG viewer shows them";
    run::main(&[
        Check {
            id: "C23",
            level: "model_checking",
            rule: "one case = one module laid out by the real engine, its whole network and all lines examined; states = distinct networks",
            assumptions: &[SVG, "no module defines a name twice"],
            spaces: c23,
        },
        Check {
            id: "C24",
            level: "model_checking",
            rule: "one case = one module rendered plainly and with overlay or as notebook output; states = distinct outputs",
            assumptions: &["the overlay marks nodes by red circles and links by lines", "names contain no line break in the notebook runs"],
            spaces: c24,
        },
    ]);
}
