//! Families of modules with tables and relations that several checks enumerate.
use crate::ex::*;
use crate::model::*;

/// a bounded family of modules
pub struct Docs {
    pub name: String,
    pub what: String,
    pub choose: Box<dyn Fn(&mut Ch) -> Doc + Send + Sync>,
}
fn docs(name: &str, what: &str, f: impl Fn(&mut Ch) -> Doc + Send + Sync + 'static) -> Docs {
    Docs { name: name.into(), what: what.into(), choose: Box::new(f) }
}

pub fn rel(c: &mut Ch, ns: &[usize]) -> Entry {
    let mut end = || {
        let i = c.pick(ns.len());
        let r = c.pick(ns[i] + 1);
        if r == 0 {
            Path::e(&tname(i))
        } else {
            Path::f(&tname(i), &fname(r - 1))
        }
    };
    let a = end();
    let b = end();
    Entry::Rel { a, b }
}
/// `t` tables, each with one of the numbers of fields in `hs`, and `e` relations between any two
/// of their tables or rows.
pub fn routes(t: usize, hs: &'static [usize], e: usize) -> Docs {
    docs(
        &format!("t{}h{}e{}", t, hs.iter().map(|h| h.to_string()).collect::<Vec<_>>().join("."), e),
        &format!("{} tables with {:?} fields each, {} relation(s) between any two elements (tables or rows, also the same)", t, hs, e),
        move |c| {
            let ns: Vec<usize> = (0..t).map(|_| *c.of(hs)).collect();
            let mut d = Doc { name: None, entries: ns.iter().enumerate().map(|(i, n)| table(i, *n)).collect() };
            for _ in 0..e {
                let r = rel(c, &ns);
                d.entries.push(r);
            }
            d
        },
    )
}
/// many small tables and one tall one
pub fn wide(ts: &'static [usize], tall: &'static [usize]) -> Docs {
    docs(
        &format!("wide{}-{}", ts[0], ts[ts.len() - 1]),
        &format!("{:?} tables without fields except one, anywhere, with {:?}; one relation between any two elements", ts, tall),
        move |c| {
            let t = *c.of(ts);
            let mut ns = vec![0; t];
            let i = c.pick(t);
            ns[i] = *c.of(tall);
            let mut d = Doc { name: None, entries: ns.iter().enumerate().map(|(i, n)| table(i, *n)).collect() };
            let r = rel(c, &ns);
            d.entries.push(r);
            d
        },
    )
}
/// one tall table among small ones; relations from its rows
pub fn tall(ts: &'static [usize], hs: &'static [usize]) -> Docs {
    docs(
        "tall",
        &format!("{:?} tables with one field except one, anywhere, with {:?}; one relation between any of its elements and any other element, in either direction", ts, hs),
        move |c| {
            let t = *c.of(ts);
            let mut ns = vec![1; t];
            let i = c.pick(t);
            ns[i] = *c.of(hs);
            let mut d = Doc { name: None, entries: ns.iter().enumerate().map(|(i, n)| table(i, *n)).collect() };
            let r = c.pick(ns[i] + 1);
            let a = if r == 0 { Path::e(&tname(i)) } else { Path::f(&tname(i), &fname(r - 1)) };
            let j = c.pick(t);
            let r = c.pick(ns[j] + 1);
            let b = if r == 0 { Path::e(&tname(j)) } else { Path::f(&tname(j), &fname(r - 1)) };
            let (a, b) = if c.flag() { (b, a) } else { (a, b) };
            d.entries.push(Entry::Rel { a, b });
            d
        },
    )
}
/// many tables of one height, with relations of three patterns
pub fn crowd(max: usize) -> Docs {
    docs(
        "crowd",
        &format!("up to {} tables of 0, 1 or 3 fields with up to 12 relations at once: each table with the next, each with the first, or each with the opposite one, from any row, to any row", max),
        move |c| {
            let t = 1 + c.pick(max);
            let n = *c.of(&[0, 1, 3]);
            let mut d = Doc { name: None, entries: (0..t).map(|i| table(i, n)).collect() };
            let m = 1 + c.pick(t.min(12));
            let kind = c.pick(3);
            let (ra, rb) = (c.pick(n + 1), c.pick(n + 1));
            for i in 0..m {
                let i = i * t / m;
                let j = match kind {
                    0 => (i + 1) % t,
                    1 => 0,
                    _ => t - 1 - i,
                };
                let el = |i: usize, r: usize| if r == 0 { Path::e(&tname(i)) } else { Path::f(&tname(i), &fname(r - 1)) };
                d.entries.push(Entry::Rel { a: el(i, ra), b: el(j, rb) });
            }
            d
        },
    )
}
/// many lines at once
pub fn bundle() -> Docs {
    docs(
        "bundle",
        "2, 4, 5 or 9 tables of 1, 2, 3, 8 or 11 fields with 4, 9, 20, 40 or 70 relations stepping through their elements with every pair of 5 strides",
        move |c| {
            let t = *c.of(&[2usize, 4, 5, 9]);
            let n = *c.of(&[1usize, 2, 3, 8, 11]);
            let m = *c.of(&[4usize, 9, 20, 40, 70]);
            let (s, u) = (*c.of(&[0usize, 1, 2, 3, 5]), *c.of(&[0usize, 1, 2, 3, 5]));
            let el = |k: usize| {
                let k = k % (t * (n + 1));
                if k % (n + 1) == 0 { Path::e(&tname(k / (n + 1))) } else { Path::f(&tname(k / (n + 1)), &fname(k % (n + 1) - 1)) }
            };
            let mut d = Doc { name: None, entries: (0..t).map(|i| table(i, n)).collect() };
            for i in 0..m {
                d.entries.push(Entry::Rel { a: el(s * i), b: el(u * i + n + 1 + i / 7) });
            }
            d
        },
    )
}
/// tables of very many fields, very many tables
pub fn giant(th: bool) -> Docs {
    docs(
        "giant",
        "2 to 7 tables, one of them, anywhere, with 900, 1900, 3800 or (thorough only) 9000 fields, or 90, 250 or (thorough only) 700 tables; one relation between the first, middle or last row, or the table itself, of the giant and the same of any other table, in either direction - with many tables, of the first and the last, or of two of the last five that are two apart",
        move |c| {
            let many = c.flag();
            let (t, i, n) = if many {
                (*c.of(if th { &[90usize, 250, 700] } else { &[90usize, 250] }), 0, 2)
            } else {
                let t = 2 + c.pick(6);
                (t, c.pick(t), *c.of(if th { &[900usize, 1900, 3800, 9000] } else { &[900usize, 1900, 3800] }))
            };
            let ns: Vec<usize> = (0..t).map(|j| if j == i { n } else { 1 }).collect();
            // two tables of the last rows of the grid with a third between them, or the first and the last
            let (i, o) = if many { *c.of(&[(0, t - 1), (t - 3, t - 1), (t - 4, t - 2), (t - 5, t - 3)]) } else { (i, t - 1 - i) };
            let mut end = |k: usize| match c.pick(4) {
                0 => Path::e(&tname(k)),
                1 => Path::f(&tname(k), &fname(0)),
                2 => Path::f(&tname(k), &fname(ns[k] / 2)),
                _ => Path::f(&tname(k), &fname(ns[k] - 1)),
            };
            let (a, b) = (end(i), end(o));
            let (a, b) = if c.flag() { (b, a) } else { (a, b) };
            let mut d = Doc { name: None, entries: (0..t).map(|j| table(j, ns[j])).collect() };
            d.entries.push(Entry::Rel { a, b });
            d
        },
    )
}
/// a table of every height, with a line from each of its rows
pub fn rows(max: usize, more: &'static [usize]) -> Docs {
    docs(
        &format!("rows-{}", max),
        &format!("a table of 1 to {} or {:?} fields and one of 1 field, beside it or in the next row of the grid, before or after it; one relation between any row of the first and the second or its row, in either direction", max, more),
        move |c| {
            let n = c.pick(max + more.len());
            let n = if n < max { n + 1 } else { more[n - max] };
            let t = *c.of(&[2usize, 4]);
            let i = *c.of(&[0, t - 1]);
            let mut d = Doc { name: None, entries: (0..t).map(|j| table(j, if j == i { n } else if j == t - 1 - i { 1 } else { 0 })).collect() };
            let a = Path::f(&tname(i), &fname(c.pick(n)));
            let b = if c.flag() { Path::e(&tname(t - 1 - i)) } else { Path::f(&tname(t - 1 - i), &fname(0)) };
            let (a, b) = if c.flag() { (b, a) } else { (a, b) };
            d.entries.push(Entry::Rel { a, b });
            d
        },
    )
}
/// many tables, with a line at any of them
pub fn everywhere(ts: &'static [usize]) -> Docs {
    docs(
        "everywhere",
        &format!("{:?} tables of 1 field; one relation between any of them, or its row, and the first, second, third, fourth or seventh after it, in either direction", ts),
        move |c| {
            let t = *c.of(ts);
            let i = c.pick(t);
            let j = (i + *c.of(&[1usize, 2, 3, 4, 7])) % t;
            let mut el = |i: usize| if c.flag() { Path::e(&tname(i)) } else { Path::f(&tname(i), &fname(0)) };
            let (a, b) = (el(i), el(j));
            let (a, b) = if c.flag() { (b, a) } else { (a, b) };
            let mut d = Doc { name: None, entries: (0..t).map(|j| table(j, 1)).collect() };
            d.entries.push(Entry::Rel { a, b });
            d
        },
    )
}
/// an element with many lines
pub fn hub() -> Docs {
    docs(
        "hub",
        "2 to 5 tables of 0 to 2 fields with or without keys; any element related 0 to 6, 9 or 17 times: with itself, with another table, with its row, or with all other tables in turn, outward, inward or alternately",
        move |c| {
            let (t, n) = (2 + c.pick(4), c.pick(3));
            let key = *c.of(&KEYS);
            let mut d = Doc { name: None, entries: (0..t).map(|i| table(i, n)).collect() };
            for e in &mut d.entries {
                if let Entry::Entity { fields, .. } = e {
                    fields.iter_mut().for_each(|f| f.key = key);
                }
            }
            let i = c.pick(t);
            let r = c.pick(n + 1);
            let el = |i: usize, r: usize| if r == 0 { Path::e(&tname(i)) } else { Path::f(&tname(i), &fname(r - 1)) };
            let m = *c.of(&[0usize, 1, 2, 3, 4, 5, 6, 9, 17]);
            let (kind, way) = (c.pick(4), c.pick(3));
            for k in 0..m {
                let b = match kind {
                    0 => el(i, r),
                    1 => el((i + 1) % t, 0),
                    2 => el((i + 1) % t, n),
                    _ => el((i + 1 + k % (t - 1)) % t, k % (n + 1)),
                };
                let (a, b) = if way == 0 || way == 2 && k % 2 == 0 { (el(i, r), b) } else { (b, el(i, r)) };
                d.entries.push(Entry::Rel { a, b });
            }
            d
        },
    )
}
/// modules with relations between elements in all relative positions
pub fn route_docs(th: bool) -> Vec<Docs> {
    if th {
        vec![
            routes(1, &[0, 1, 2, 3, 4, 5, 6, 8], 2),
            routes(2, &[0, 1, 2, 3, 4, 6, 9, 12, 25, 40], 1),
            routes(3, &[0, 1, 2, 3, 5, 8], 1),
            routes(3, &[0, 9, 25], 1),
            routes(4, &[0, 9], 1),
            routes(4, &[0, 1, 2, 4, 7], 1),
            routes(5, &[0, 2, 5], 1),
            routes(5, &[0, 1, 3, 4], 1),
            routes(6, &[0, 1, 4], 1),
            routes(7, &[0, 3], 1),
            routes(7, &[0, 1, 2], 1),
            routes(8, &[0, 2], 1),
            routes(9, &[0, 2], 1),
            wide(&[7, 8, 9, 10, 11, 12, 13], &[1, 2, 4, 9]),
            tall(&[1, 2, 3, 4, 5, 6, 7, 8, 9], &[7, 10, 20, 40]),
            crowd(40),
            bundle(),
            giant(true),
            rows(160, &[200, 260, 500]),
            everywhere(&[20, 41, 70, 130]),
            hub(),
            routes(2, &[0, 1, 2], 3),
            routes(3, &[0, 1, 2], 2),
            routes(4, &[0, 2], 2),
            routes(5, &[0, 1], 2),
            routes(3, &[0, 1], 3),
            routes(2, &[0, 1], 4),
        ]
    } else {
        vec![
            routes(1, &[0, 1, 2, 3, 5], 2),
            routes(2, &[0, 1, 2, 3, 5, 9, 25], 1),
            routes(3, &[0, 1, 2, 5], 1),
            routes(3, &[0, 9], 1),
            routes(4, &[0, 8], 1),
            routes(4, &[0, 1, 2, 4], 1),
            routes(5, &[0, 1, 3], 1),
            routes(6, &[0, 2], 1),
            routes(7, &[0, 2], 1),
            wide(&[7, 8, 9, 10, 12], &[1, 4, 9]),
            tall(&[1, 2, 3, 4, 5, 7], &[7, 20]),
            crowd(16),
            bundle(),
            giant(false),
            rows(64, &[100, 140, 260]),
            everywhere(&[20, 41, 70]),
            hub(),
            routes(2, &[0, 1, 2], 2),
            routes(3, &[0, 2], 2),
            routes(4, &[0, 1], 2),
            routes(2, &[0, 1], 3),
        ]
    }
}


/// modules whose tables stand elsewhere than an engine puts them
pub struct Moved {
    pub name: String,
    pub what: String,
    t: usize,
    hs: &'static [usize],
    xs: &'static [f32],
    ys: &'static [f32],
    middle: f32,
}
impl Moved {
    /// a module and the places of its tables
    pub fn choose(&self, c: &mut Ch) -> Result<(Doc, Vec<(f32, f32)>), Bad> {
        let ns: Vec<usize> = (0..self.t).map(|_| *c.of(self.hs)).collect();
        let mut d = Doc { name: None, entries: ns.iter().enumerate().map(|(i, n)| table(i, *n)).collect() };
        let mut at: Vec<(f32, f32, f32)> = vec![];
        for n in &ns {
            let h = 35.0 * (*n as f32 + 1.0);
            let (x, y) = if at.is_empty() { (self.middle, self.middle) } else { (self.middle + *c.of(self.xs), self.middle + *c.of(self.ys)) };
            if at.iter().any(|(p, q, g)| (x - p).abs() < 380.0 && y < q + g + 80.0 && *q < y + h + 80.0) {
                return Err(Bad::Skip);
            }
            at.push((x, y, h));
        }
        let r = rel(c, &ns);
        d.entries.push(r);
        Ok((d, at.iter().map(|a| (a.0, a.1)).collect()))
    }
}
pub fn moved(th: bool) -> Vec<Moved> {
    const X: &[f32] = &[-760.0, -420.0, -380.0, -200.0, 0.0, 100.0, 380.0, 500.0, 760.0];
    const Y: &[f32] = &[-500.0, -185.0, -150.0, 0.0, 20.0, 115.0, 185.0, 400.0];
    const FX: &[f32] = &[-410.0, -33.5, 0.0, 380.5];
    const FY: &[f32] = &[-300.0, -17.5, 0.0, 301.5];
    let m = |t: usize, hs: &'static [usize], xs: &'static [f32], ys: &'static [f32], middle: f32| Moved {
        name: format!("moved-t{}h{}-{}x{}", t, hs.iter().map(|h| h.to_string()).collect::<Vec<_>>().join("."), xs.len(), ys.len()),
        what: format!("{} tables with {:?} fields each, moved before lines are drawn: the first to {} {}, the others to any place from there by {:?} and {:?} where all keep the spacing of 80; one relation between any two elements", t, hs, middle, middle, xs, ys),
        t,
        hs,
        xs,
        ys,
        middle,
    };
    vec![
        m(2, &[0, 1, 3], X, Y, 1000.0),
        m(3, if th { &[0, 2] } else { &[1] }, X, Y, 1000.0),
        m(3, &[0, 2], FX, FY, 1000.125),
        m(2, if th { &[0, 1, 4, 9] } else { &[0, 4] }, FX, FY, 70000.0),
    ]
}
/// lays a document out with its tables at the given places
pub fn lay_at(doc: &mut seiren::mir::Document, at: &[(f32, f32)], en: &mut seiren::layout::SimpleLayoutEngine) {
    use seiren::geometry::Point;
    use seiren::layout::LayoutEngine;
    en.place_nodes(doc);
    for (id, (x, y)) in doc.body().children().collect::<Vec<_>>().into_iter().zip(at) {
        let o = doc.get_node(id).unwrap().origin.expect("a table is not placed");
        let to = |p: Point| Point::new(p.x - o.x + x, p.y - o.y + y);
        doc.get_node_mut(id).unwrap().origin = Some(to(o));
        for k in doc.get_node(id).unwrap().children().collect::<Vec<_>>() {
            let n = doc.get_node_mut(k).unwrap();
            n.origin = n.origin.map(to);
        }
    }
    en.place_terminal_ports(doc);
    en.draw_edge_path(doc);
}
