//! C06 - C13: what a module looks like when it is drawn.
use seiren_mc::ex::*;
use seiren_mc::geom::*;
use seiren_mc::model::*;
use seiren_mc::run::{space, Check, Space};
use seiren_mc::svgx::{scene, Cmd, Scene};
use seiren_mc::*;

// ---- drawing and the shape of the space -------------------------------------------------------

/// Draws a module given as source text.
fn draw_text(d: &Doc) -> Result<String, Bad> {
    let p = pipe::read(&d.src());
    if !p.ok() {
        return Err(Bad::Viol(format!("the module gets diagnostics at {:?} {:?}", p.lex, p.syn)));
    }
    match p.ast {
        Some(a) => Ok(pipe::draw(&a)),
        None => Err(Bad::Viol("the module yields no syntax tree".into())),
    }
}
fn seen(svg: &str) -> Result<Scene, Bad> {
    scene(svg).map_err(Bad::Viol)
}
fn draw(d: &Doc) -> Result<Scene, Bad> {
    seen(&pipe::draw(&pipe::build(d)))
}
/// The same, but with the lines put into the document one by one.
fn draw_api(d: &Doc) -> Result<Scene, Bad> {
    let mut bare = d.clone();
    bare.entries.retain(|e| matches!(e, Entry::Entity { .. }));
    let mut doc = pipe::build(&bare).into_mir();
    let tables: Vec<_> = doc.body().children().collect();
    for (a, b) in d.rels() {
        let id = |p: &Path| {
            let (t, r) = d.resolve(p).expect("a defined element");
            match r {
                0 => tables[t],
                HEADER_ROW => doc.get_node(tables[t]).unwrap().children().next().unwrap(),
                r => doc.get_node(tables[t]).unwrap().children().nth(r).unwrap(),
            }
        };
        let (a, b) = (id(a), id(b));
        doc.add_edge(seiren::mir::EdgeData::new(a, b, None));
    }
    seen(&pipe::draw_doc(&mut doc).0)
}
/// `routes` for documents put together with the library, where a line may also end at a header row
fn api_routes(t: usize, hs: &'static [usize], e: usize, see: See) -> Space {
    space(
        &format!("api-t{}h{}e{}", t, hs.iter().map(|h| h.to_string()).collect::<Vec<_>>().join("."), e),
        &format!("{} tables with {:?} fields each, {} line(s) added to the document between any two of its nodes, of which one at least is a header row", t, hs, e),
        move |c| {
            let ns: Vec<usize> = (0..t).map(|_| *c.of(hs)).collect();
            let mut d = Doc { name: None, entries: ns.iter().enumerate().map(|(i, n)| table(i, *n)).collect() };
            let mut headers = 0;
            for _ in 0..e {
                let mut end = || {
                    let i = c.pick(t);
                    match c.pick(ns[i] + 2) {
                        0 => {
                            headers += 1;
                            Path::f(&tname(i), HEADER)
                        }
                        1 => Path::e(&tname(i)),
                        r => Path::f(&tname(i), &fname(r - 2)),
                    }
                };
                let (a, b) = (end(), end());
                d.entries.push(Entry::Rel { a, b });
            }
            if headers == 0 {
                return Err(Bad::Skip);
            }
            c.label(d.src());
            let sc = draw_api(&d)?;
            note(c, &sc);
            see(c, &d, &sc)
        },
    )
}

/// lines among tables that were moved
fn moved(x: docs::Moved, see: See) -> Space {
    space(&x.name.clone(), &x.what.clone(), move |c| {
        let (d, at) = x.choose(c)?;
        c.label(format!("{:?}\n{}", at, d.src()));
        let mut doc = pipe::build(&d).into_mir();
        docs::lay_at(&mut doc, &at, &mut seiren::layout::SimpleLayoutEngine::new());
        let sc = seen(&pipe::svg(&doc, None))?;
        note(c, &sc);
        see(c, &d, &sc)
    })
}

type See = fn(&mut Ch, &Doc, &Scene) -> R;
fn note(c: &mut Ch, sc: &Scene) {
    let v: Vec<(i64, i64)> = sc
        .tables
        .iter()
        .map(|t| (t.rect.x as i64, t.rect.y as i64))
        .chain(sc.edges.iter().flat_map(|e| e.polyline()).map(|p| ((p.0 * 2.0) as i64, (p.1 * 2.0) as i64)))
        .collect();
    c.state(&v);
    for e in &sc.edges {
        c.tag(match e.polyline().len() {
            0 | 1 => "no line",
            2 => "1 segment",
            3 => "2 segments",
            4 => "3 segments",
            5 => "4 segments",
            6 => "5 segments",
            _ => "6 or more segments",
        });
    }
}
fn route_spaces(th: bool, see: See) -> Vec<Space> {
    docs::route_docs(th)
        .into_iter()
        .map(|x| {
            space(&x.name, &x.what, move |c| {
                let d = (x.choose)(c);
                c.label(d.src());
                let sc = draw(&d)?;
                note(c, &sc);
                see(c, &d, &sc)
            })
        })
        .collect()
}
/// The same and documents put together with the library.
fn api_spaces(th: bool, see: See) -> Vec<Space> {
    let mut v = route_spaces(th, see);
    v.extend(if th {
        vec![
            api_routes(1, &[0, 1, 2, 3, 4], 3, see),
            api_routes(2, &[0, 1, 2, 3, 9], 1, see),
            api_routes(3, &[0, 1, 2, 5], 1, see),
            api_routes(4, &[0, 1, 3], 1, see),
            api_routes(5, &[0, 2], 1, see),
            api_routes(2, &[0, 1], 2, see),
        ]
    } else {
        vec![
            api_routes(1, &[0, 1, 2, 3], 2, see),
            api_routes(2, &[0, 1, 2, 9], 1, see),
            api_routes(3, &[0, 1], 1, see),
            api_routes(4, &[0, 2], 1, see),
        ]
    });
    v
}

// ---- C06: tables -------------------------------------------------------------------------------
fn tables(c: &mut Ch, d: &Doc, sc: &Scene) -> R {
    let want = d.tables();
    ck!(sc.tables.len() == want.len(), "{} entities, but {} tables are drawn", want.len(), sc.tables.len());
    for (i, ((name, fields), t)) in want.iter().zip(&sc.tables).enumerate() {
        let rows = fields.len() + 1;
        let h = t.rect.h / rows as f64;
        // expected texts per row, in the order in which they are drawn
        let mut exp: Vec<(usize, &str)> = vec![(0, name)];
        for (r, f) in fields.iter().enumerate() {
            exp.push((r + 1, &f.name));
            exp.push((r + 1, f.ty.kw()));
            if let Some(k) = f.key {
                exp.push((r + 1, k.kw()));
            }
        }
        c.eval(exp.len() as u64);
        let mut got: Vec<(usize, f64, &str)> = vec![];
        for x in &t.texts {
            ck!(x.x > t.rect.x && x.x < t.rect.r(), "text {:?} of table {} stands outside it", x.s, i);
            let r = ((x.y - t.rect.y) / h).floor();
            ck!(r >= 0.0 && (r as usize) < rows, "text {:?} of table {} stands in none of its rows", x.s, i);
            // the middle of the row, so that it cannot reach into another one
            ck!(near(x.y, t.rect.y + (r + 0.5) * h), "text {:?} of table {} is not in the middle of a row", x.s, i);
            got.push((r as usize, x.x, &x.s));
        }
        // rows from top to bottom, each from left to right
        got.sort_by(|a, b| (a.0).cmp(&b.0).then(a.1.total_cmp(&b.1)));
        let got: Vec<(usize, &str)> = got.iter().map(|g| (g.0, g.2)).collect();
        ck!(got == exp, "table {} shows {:?} instead of {:?}", i, got, exp);
        // one badge behind each PK/FK, nowhere else
        let badge_rows: Vec<usize> = fields.iter().enumerate().filter(|f| f.1.key.is_some()).map(|f| f.0 + 1).collect();
        let mut b: Vec<usize> = vec![];
        for x in &t.badges {
            let r = ((x.c.1 - t.rect.y) / h).floor() as usize;
            let key = t.texts.iter().find(|y| near_pt((y.x, y.y), x.c));
            ck!(key.map(|k| k.s == "PK" || k.s == "FK").unwrap_or(false), "a badge of table {} has no key in it", i);
            ck!(x.c.0 - x.r > t.rect.x && x.c.0 + x.r < t.rect.r() && x.r * 2.0 <= h, "a badge of table {} reaches out of its row", i);
            b.push(r);
        }
        b.sort();
        ck!(b == badge_rows, "table {} has badges in rows {:?} instead of {:?}", i, b, badge_rows);
        for (r, _, clip) in &t.bands {
            ck!(near_rc(*clip, t.rect), "a part of table {} is clipped by {:?} instead of its outline {:?}", i, clip, t.rect);
            ck!(r.x >= t.rect.x - EPS && r.r() <= t.rect.r() + EPS && r.y >= t.rect.y - EPS && r.b() <= t.rect.b() + EPS, "a row background of table {} reaches out of it", i);
        }
    }
    Ok(())
}
fn see_text(c: &mut Ch, d: &Doc) -> R {
    c.label(d.src());
    let svg = draw_text(d)?;
    c.state(&svg);
    let sc = seen(&svg)?;
    tables(c, d, &sc)
}
fn c06(th: bool) -> Vec<Space> {
    let family = |x: docs::Docs| {
        space(&x.name, &x.what, move |c| {
            let d = (x.choose)(c);
            see_text(c, &d)
        })
    };
    let fields = move |c: &mut Ch, max: usize| -> Vec<Field> {
        let mut v = vec![];
        while v.len() < max && c.flag() {
            let name = fname(v.len());
            v.push(Field { name, ty: *c.of(&TYS), key: *c.of(&KEYS) });
        }
        v
    };
    let deep = if th { 4 } else { 3 };
    let n2 = 2;
    vec![
        space("rows", &format!("one table of up to {} fields with every type and key", deep), move |c| {
            let d = Doc { name: None, entries: vec![Entry::Entity { name: "t".into(), fields: fields(c, deep) }] };
            see_text(c, &d)
        }),
        space("pairs", &format!("two tables of up to {} and 1 fields with every type and key", n2), move |c| {
            let d = Doc {
                name: Some("m".into()),
                entries: vec![
                    Entry::Entity { name: "t".into(), fields: fields(c, n2) },
                    Entry::Entity { name: "u".into(), fields: fields(c, 1) },
                ],
            };
            see_text(c, &d)
        }),
        space("entries", &format!("every sequence of up to {} entries from: table of 0, 1, 2 fields; relation between the first and the last table, of the first table to itself, to something undefined", if th { 7 } else { 5 }), move |c| {
            let mut d = Doc::default();
            let mut nt = 0;
            let mut rels = vec![];
            for i in 0..if th { 7 } else { 5 } {
                match c.pick(7) {
                    0 => break,
                    k @ 1..=3 => {
                        d.entries.push(table(nt, k - 1));
                        nt += 1;
                    }
                    k => {
                        rels.push((d.entries.len(), k));
                        d.entries.push(Entry::Rel { a: Path::e("t0"), b: Path::e(if k == 5 { "t0" } else { "zz" }) });
                    }
                }
                let _ = i;
            }
            let last = tname(nt.max(1) - 1);
            for (i, k) in rels {
                if k == 4 && last != "t0" {
                    d.entries[i] = Entry::Rel { a: Path::e("t0"), b: Path::e(&last) };
                }
            }
            see_text(c, &d)
        }),
        space("counts", "0 to 12 tables of 0 to 4 fields, 1 to 4 tables of up to 40 fields", move |c| {
            let (t, n) = if c.flag() { (c.pick(13), c.pick(5)) } else { (1 + c.pick(4), c.pick(41)) };
            let d = Doc { name: None, entries: (0..t).map(|i| table(i, n)).collect() };
            see_text(c, &d)
        }),
        space("names", "two tables and two fields whose names are any of a, b, the word of a type or a key, text with dots, blanks and XML, also equal ones", move |c| {
            let ns = ["a", "b", "int", "PK", "a.b", "x y", "<&>", "record-clip-path-0"];
            let mut n = || c.of(&ns).to_string();
            let (t, u, f, g) = (n(), n(), n(), n());
            let fld = |name: String, ty, key| Field { name, ty, key };
            let d = Doc {
                name: None,
                entries: vec![
                    Entry::Entity { name: t, fields: vec![fld(f, Ty::Int, Some(Key::Pk)), fld(g, Ty::Text, None)] },
                    Entry::Entity { name: u, fields: vec![] },
                ],
            };
            see_text(c, &d)
        }),
        space("usual-names", &format!("one table of up to {} fields of which one, in every position, has any of 20 usual field names, every type and key, all the others any one key; 7 table names", if th { 8 } else { 5 }), move |c| {
            let names = ["id", "uuid", "name", "text", "int", "PK", "FK", "key", "user_id", "created_at", "updated_at", "timestamp", "erd", "ID", "Id", "x", "_", "description_of_the_whole_thing_in_some_detail", "名前", "to-do"];
            let tables = ["users", "id", "t", "erd", "Order", "name", "テーブル"];
            let n = 1 + c.pick(if th { 8 } else { 5 });
            let at = c.pick(n);
            let name = c.of(&names).to_string();
            let (ty, key, others) = (*c.of(&TYS), *c.of(&KEYS), *c.of(&KEYS));
            let t = c.of(&tables).to_string();
            let fields = (0..n)
                .map(|i| if i == at { Field { name: name.clone(), ty, key } } else { Field { name: fname(i), ty: TYS[i % 4], key: others } })
                .collect();
            let d = Doc { name: None, entries: vec![Entry::Entity { name: t, fields }] };
            see_text(c, &d)
        }),
        space("repeats", "one table of up to 4 fields, or two tables of up to 2, named a or b, their fields named x or y with two types and with or without a key: the same name, field or table any number of times", |c| {
            let mut entries = vec![];
            let two = c.flag();
            for _ in 0..if two { 2 } else { 1 } {
                let name = c.of(&["a", "b"]).to_string();
                let mut fields = vec![];
                for _ in 0..if two { 2 } else { 4 } {
                    if !c.flag() {
                        break;
                    }
                    fields.push(Field { name: c.of(&["x", "y"]).to_string(), ty: *c.of(&[Ty::Int, Ty::Text]), key: *c.of(&[None, Some(Key::Pk)]) });
                }
                entries.push(Entry::Entity { name, fields });
            }
            see_text(c, &Doc { name: None, entries })
        }),
        space("long-names", "a table and a field whose names are 1 to 100, 255 to 257 or 1000 characters of 1 to 4 bytes long, with and without relations, with every key", |c| {
            let mut ns: Vec<usize> = (1..=100).collect();
            ns.extend([255, 256, 257, 1000]);
            let n = *c.of(&ns);
            let long = format!("{}{}", *c.of(&["", "x", "_"]), c.of(&['n', 'W', '_', 'é', '名', '😀', ' ']).to_string().repeat(n));
            let (t, f) = *c.of(&[(long.as_str(), "id"), ("t", long.as_str()), (long.as_str(), long.as_str())]);
            let key = *c.of(&KEYS);
            let mut d = Doc {
                name: None,
                entries: vec![
                    Entry::Entity { name: t.into(), fields: vec![Field { name: f.into(), ty: Ty::Timestamp, key }, Field { name: "z".into(), ty: Ty::Int, key: None }] },
                    Entry::Entity { name: "u".into(), fields: vec![] },
                ],
            };
            if c.flag() {
                d.entries.push(Entry::Rel { a: Path::f(t, f), b: Path::e("u") });
            }
            see_text(c, &d)
        }),
        space("forms-of-names", "a table and two fields whose names have any of 30 forms (underscores, digits, cases, blanks and signs at the ends, words of the language, numbers)", |c| {
            let ns = ["_a", "__", "a_", "_", "a1", "A", "aB", "AB", "user_id", "userId", "id_", "_id", " a", "a ", " ", "a  b", "1", "00", "-1", ".", "a.", "a-b", "a/b", "*", "?", "#", "", "'", "\"q\"", "~"];
            let (t, f, g) = (c.of(&ns).to_string(), c.of(&ns).to_string(), c.of(&ns).to_string());
            let d = Doc {
                name: None,
                entries: vec![Entry::Entity { name: t, fields: vec![Field { name: f, ty: Ty::Uuid, key: Some(Key::Fk) }, Field { name: g, ty: Ty::Text, key: None }] }],
            };
            see_text(c, &d)
        }),
        space("ladder", "modules of 0 to 40, 63 to 65, 99 to 101, 127 to 129 and 255 to 257 tables of one field, or of one table with that many fields or 999 to 1001 or 4096", |c| {
            let mut ns: Vec<usize> = (0..=40).collect();
            ns.extend([63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]);
            let d = if c.flag() {
                Doc { name: None, entries: (0..*c.of(&ns)).map(|i| table(i, 1)).collect() }
            } else {
                ns.extend([999, 1000, 1001, 4096]);
                Doc { name: None, entries: vec![table(0, *c.of(&ns))] }
            };
            see_text(c, &d)
        }),
        family(docs::hub()),
        family(docs::crowd(if th { 40 } else { 16 })),
        space("same-fields", "one to seven tables of one to four fields that are the same in every table, with every type and key; with up to as many relations", move |c| {
            let t = 1 + c.pick(7);
            let n = 1 + c.pick(4);
            let (ty, key, step) = (c.pick(4), c.pick(3), c.pick(2));
            let fields: Vec<Field> = (0..n).map(|i| Field { name: ["id", "name", "owner_id", "at"][i].into(), ty: TYS[(ty + step * i) % 4], key: KEYS[(key + i) % 3] }).collect();
            let mut d = Doc { name: None, entries: (0..t).map(|i| Entry::Entity { name: tname(i), fields: fields.clone() }).collect() };
            for i in 0..c.pick(t) {
                d.entries.push(Entry::Rel { a: Path::f(&tname(i), &fields[n - 1].name), b: Path::f(&tname(i + 1), "id") });
            }
            see_text(c, &d)
        }),
    ]
}

// ---- C07: relations ----------------------------------------------------------------------------
fn unique_names(d: &Doc) -> bool {
    let mut ts: Vec<&str> = d.tables().iter().map(|t| t.0).collect();
    let n = ts.len();
    ts.sort();
    ts.dedup();
    ts.len() == n
        && d.tables().iter().all(|(_, fs)| {
            let mut v: Vec<&str> = fs.iter().map(|f| f.name.as_str()).collect();
            v.sort();
            v.dedup();
            v.len() == fs.len()
        })
}
fn on_element(sc: &Scene, d: &Doc, p: svgx::Pt, el: (usize, usize)) -> bool {
    let t = sc.tables[el.0].rect;
    let fields = d.tables()[el.0].1.len();
    ports(element(t, fields, el.1), t).iter().any(|q| near_pt(q.at, p))
}
fn relations(c: &mut Ch, d: &Doc, sc: &Scene) -> R {
    if !unique_names(d) {
        return Err(Bad::Skip);
    }
    ck!(sc.tables.len() == d.tables().len(), "{} entities, but {} tables are drawn", d.tables().len(), sc.tables.len());
    let want: Vec<_> = d
        .rels()
        .iter()
        .filter_map(|(a, b)| Some((d.resolve(a)?, d.resolve(b)?)))
        .collect();
    c.eval(want.len() as u64 + 1);
    ck!(sc.edges.len() == want.len(), "{} relations between defined elements, but {} lines are drawn", want.len(), sc.edges.len());
    for (i, (e, (a, b))) in sc.edges.iter().zip(&want).enumerate() {
        ck!(on_element(sc, d, e.start(), *a), "line {} starts at {:?}, which is not a side of (table, row) {:?}", i, e.start(), a);
        ck!(on_element(sc, d, e.end(), *b), "line {} ends at {:?}, which is not a side of (table, row) {:?}", i, e.end(), b);
    }
    Ok(())
}
/// the same in the document the drawing is made from, where every element has its identity
fn doc_relations(d: &Doc) -> R {
    if !unique_names(d) {
        return Err(Bad::Skip);
    }
    let doc = pipe::build(d).into_mir();
    let mut where_ = std::collections::HashMap::new();
    for (i, id) in doc.body().children().enumerate() {
        where_.insert(id, (i, 0));
        for (j, k) in doc.get_node(id).unwrap().children().enumerate() {
            // the heading of a table is not the table
            where_.insert(k, (i, if j == 0 { usize::MAX } else { j }));
        }
    }
    let got: Vec<_> = doc
        .edges()
        .map(|e| (where_.get(&e.source_id()).copied(), where_.get(&e.target_id()).copied()))
        .collect();
    let want: Vec<_> = d
        .rels()
        .iter()
        .filter_map(|(a, b)| Some((Some(d.resolve(a)?), Some(d.resolve(b)?))))
        .collect();
    ck!(got == want, "the document's lines join (table, row) {:?} instead of {:?}", got, want);
    Ok(())
}
fn see_rel(c: &mut Ch, d: &Doc) -> R {
    c.label(d.src());
    if !unique_names(d) {
        return Err(Bad::Skip);
    }
    doc_relations(d)?;
    let svg = draw_text(d)?;
    c.state(&svg);
    let sc = seen(&svg)?;
    relations(c, d, &sc)?;
    // undefined ends change nothing else
    let mut e = d.clone();
    e.entries.retain(|x| match x {
        Entry::Rel { a, b } => d.resolve(a).is_some() && d.resolve(b).is_some(),
        _ => true,
    });
    if e.entries.len() != d.entries.len() {
        c.tag("with undefined ends");
        let clean = draw_text(&e)?;
        ck!(clean == svg, "a relation to something undefined changes the drawing");
    }
    Ok(())
}
fn rel_order(n: usize, entities: &'static [&'static str], fields: &'static [&'static str], what: &str) -> Space {
    space(
        &format!("{}{}", what, n),
        &format!("every sequence of up to {} entries: definitions of entities {:?} with no, one or all of the fields {:?}, relations between any paths over these names and one undefined name", n, entities, fields),
        move |c| {
            let mut d = Doc::default();
            let mut enames: Vec<&str> = entities.to_vec();
            enames.push("nil");
            let mut fnames: Vec<Option<&str>> = vec![None];
            fnames.extend(fields.iter().map(|f| Some(*f)));
            fnames.push(Some("nil"));
            for _ in 0..n {
                match c.pick(3) {
                    0 => break,
                    1 => {
                        let name = c.of(entities).to_string();
                        let k = [0, 1, fields.len()][c.pick(fields.len().min(2) + 1)];
                        d.entries.push(Entry::Entity {
                            name,
                            fields: fields[..k].iter().map(|f| Field { name: f.to_string(), ty: Ty::Int, key: None }).collect(),
                        });
                        if !unique_names(&d) {
                            return Err(Bad::Skip);
                        }
                    }
                    _ => {
                        let mut path = || Path { entity: c.of(&enames).to_string(), field: c.of(&fnames).map(|s| s.to_string()) };
                        let a = path();
                        let b = path();
                        d.entries.push(Entry::Rel { a, b });
                    }
                }
            }
            see_rel(c, &d)
        },
    )
}
/// names that differ only a little are different names
fn similar() -> Space {
    const N: [&str; 16] = ["a", "A", "aa", "a_", "_a", "a ", " a", "á", "a\u{301}", "a.", ".a", "", "a\n", "`a`", "b", "\u{ff41}"];
    space(
        "similar-names",
        &format!("an entity with a field, and a relation to a path whose two parts are chosen from {} similar names (cases, blanks, underscores, dots, accents), as are the names of the entity and the field", N.len()),
        |c| {
            let (e, f) = (c.of(&N).to_string(), c.of(&N).to_string());
            let (x, y) = (c.of(&N).to_string(), c.of(&N).to_string());
            let ent = Entry::Entity { name: e.clone(), fields: vec![Field { name: f, ty: Ty::Int, key: None }] };
            let mut d = Doc { name: None, entries: vec![ent, Entry::Entity { name: "z".into(), fields: vec![] }] };
            let b = if c.flag() { Path::f(&x, &y) } else { Path::e(&x) };
            if b.field.is_none() && y != N[0] {
                return Err(Bad::Skip);
            }
            d.entries.push(Entry::Rel { a: Path::e("z"), b });
            see_rel(c, &d)
        },
    )
}
/// names that look like paths in any notation
fn lookalikes() -> Space {
    space(
        "lookalikes",
        "entities a and b, fields c, d and the same, and names composed of two of them with nothing, any ASCII character that is no letter or digit, x, 0, or one of 13 other separators between: relations to the composed entity, the composed field, and the parts, defined in either order",
        |c| {
            let mut seps: Vec<String> = (0..128u8).filter(|b| !b.is_ascii_alphanumeric()).chain(*b"x0").map(|b| (b as char).to_string()).collect();
            seps.extend(["", "::", "->", "=>", "--", "__", ", ", "\", \"", "\0", "\u{1f}", "\u{a0}", "\u{feff}", "\u{ffff}"].map(String::from));
            let s = c.of(&seps).clone();
            let j = |x: &str, y: &str| format!("{}{}{}", x, s, y);
            let f = |n: &[String]| n.iter().map(|n| Field { name: n.clone(), ty: Ty::Int, key: None }).collect::<Vec<_>>();
            let mut es = vec![
                Entry::Entity { name: "a".into(), fields: f(&["c".into(), j("b", "c")]) },
                Entry::Entity { name: "b".into(), fields: f(&["c".into(), "a".into()]) },
                Entry::Entity { name: j("a", "b"), fields: f(&["c".into(), "d".into()]) },
                Entry::Entity { name: j("a", "c"), fields: f(&["d".into()]) },
            ];
            es.rotate_left(if c.flag() { 2 } else { 0 });
            if c.flag() {
                es.reverse();
            }
            let mut d = Doc { name: None, entries: es };
            let all: Vec<Path> = vec![
                Path::e("a"), Path::e("b"), Path::e(&j("a", "b")), Path::e(&j("a", "c")), Path::f("a", "c"), Path::f("a", &j("b", "c")),
                Path::f("b", "c"), Path::f("b", "a"), Path::f(&j("a", "b"), "c"), Path::f(&j("a", "b"), "d"), Path::f(&j("a", "c"), "d"),
                Path::e("c"), Path::e(&j("b", "c")), Path::f("a", "b"), Path::f(&j("a", "c"), "c"), Path::f("a", &j("c", "d")), Path::e(&j("a", &j("b", "c"))),
            ];
            let a = c.of(&all).clone();
            let b = c.of(&all).clone();
            d.entries.push(Entry::Rel { a, b });
            see_rel(c, &d)
        },
    )
}
fn many_rels() -> Space {
    space("many", "4 tables of 2 fields, up to 24 relations in a row stepping through the 12 elements with every pair of strides, a prefix of them before the definitions", |c| {
        let (s, t) = (c.pick(12), c.pick(12));
        let n = *c.of(&[1usize, 3, 8, 24]);
        let before = *c.of(&[0usize, 1, 2]);
        let el = |k: usize| {
            let k = k % 12;
            if k % 3 == 0 { Path::e(&tname(k / 3)) } else { Path::f(&tname(k / 3), &fname(k % 3 - 1)) }
        };
        let mut d = Doc { name: None, entries: (0..4).map(|i| table(i, 2)).collect() };
        for i in 0..n {
            let r = Entry::Rel { a: el(s * i + i / 2), b: el(t * i + 5 + i / 3) };
            if i < before {
                d.entries.insert(i, r);
            } else {
                d.entries.push(r);
            }
        }
        see_rel(c, &d)
    })
}
/// numbers of relations, far beyond what a diagram usually has
fn rel_ladder() -> Space {
    space("ladder", "2 tables of 3 fields with 0 to 40, 63 to 65, 100, 127 to 129, 255 to 257 and 600 relations at once: all the same, alternately in the one and the other direction, or stepping through all pairs of elements; in the first, the last or no place one to something undefined", |c| {
        let mut ns: Vec<usize> = (0..=40).collect();
        ns.extend([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 600]);
        let n = *c.of(&ns);
        let mut d = Doc { name: None, entries: (0..2).map(|i| table(i, 3)).collect() };
        let el = |k: usize| {
            let k = k % 8;
            if k % 4 == 0 { Path::e(&tname(k / 4)) } else { Path::f(&tname(k / 4), &fname(k % 4 - 1)) }
        };
        let kind = c.pick(3);
        for i in 0..n {
            let (a, b) = match kind {
                0 => (el(1), el(6)),
                1 if i % 2 == 0 => (el(2), el(4)),
                1 => (el(4), el(2)),
                _ => (el(i / 8), el(i)),
            };
            d.entries.push(Entry::Rel { a, b });
        }
        let bad = Entry::Rel { a: Path::e("t0"), b: Path::f("t1", "nil") };
        match c.pick(3) {
            0 => {}
            1 => d.entries.insert(2, bad),
            _ => d.entries.push(bad),
        }
        see_rel(c, &d)
    })
}
fn c07(th: bool) -> Vec<Space> {
    let see: See = |c, d, s| {
        doc_relations(d)?;
        relations(c, d, s)
    };
    let mut v = vec![
        rel_order(2, &["a", "b"], &["x", "y"], "order-xy"),
        rel_order(3, &["a", "b"], &["x"], "order-x"),
        rel_order(3, &["a"], &["x"], "one"),
        rel_order(2, &["a", "a.b"], &["b", "b.c"], "dots"),
        similar(),
        lookalikes(),
        many_rels(),
        rel_ladder(),
    ];
    if th {
        v.push(rel_order(3, &["a", "b"], &["x", "y"], "order-xy"));
        v.push(rel_order(4, &["a"], &["x"], "one"));
        v.push(rel_order(3, &["a", "a.b"], &["b", "b.c"], "dots"));
        v.push(rel_order(4, &["a", "b"], &[], "order"));
    }
    v.extend(route_spaces(th, see));
    v
}

// ---- C08: grid ---------------------------------------------------------------------------------
fn grid(c: &mut Ch, d: &Doc, sc: &Scene) -> R {
    let ts = d.tables();
    ck!(sc.tables.len() == ts.len(), "{} entities, but {} tables are drawn", ts.len(), sc.tables.len());
    let rs: Vec<_> = sc.tables.iter().map(|t| t.rect).collect();
    for (i, r) in rs.iter().enumerate() {
        c.eval(1);
        ck!(r.w > 0.0 && r.h > 0.0, "table {} has no area", i);
        let (row, col) = (i / 3, i % 3);
        ck!(near(r.y, rs[row * 3].y), "table {} starts at {} but the grid row at {}", i, r.y, rs[row * 3].y);
        ck!(near(r.x, rs[col].x), "table {} starts at x {} but the grid column at {}", i, r.x, rs[col].x);
        if col > 0 {
            ck!(r.x > rs[i - 1].x, "table {} is not to the right of the one before it", i);
        }
        for (j, q) in rs[..i].iter().enumerate() {
            let dx = (r.x - q.r()).max(q.x - r.r());
            let dy = (r.y - q.b()).max(q.y - r.b());
            ck!(dx >= 80.0 - EPS || dy >= 80.0 - EPS, "tables {} and {} come closer than 80: {:?} {:?}", j, i, q, r);
            if j / 3 < row {
                ck!(dy >= 80.0 - EPS && r.y > q.y, "table {} is not below table {} of a grid row above", i, j);
            }
        }
        // rows fill the table
        let t = &sc.tables[i];
        let n = ts[i].1.len() + 1;
        let h = r.h / n as f64;
        ck!(t.lines.len() == n - 1, "table {} has {} rows, but {} lines between them", i, n, t.lines.len());
        for (k, (a, b)) in t.lines.iter().enumerate() {
            let y = r.y + h * (k + 1) as f64;
            ck!(
                near(a.1, y) && near(b.1, y) && near(a.0.min(b.0), r.x) && near(a.0.max(b.0), r.r()),
                "row {} of table {} does not begin at {}: {:?} {:?}", k + 1, i, y, a, b
            );
        }
        for (b, _, _) in &t.bands {
            let k = (b.y - r.y) / h;
            ck!(near(k, k.round()) && near(b.h, h) && near(b.x, r.x) && near(b.w, r.w), "a row background of table {} is not one row: {:?}", i, b);
        }
    }
    Ok(())
}
/// rectangles of the document after placing
fn doc_rows(d: &Doc) -> R {
    use seiren::layout::LayoutEngine;
    let mut doc = pipe::build(d).into_mir();
    seiren::layout::SimpleLayoutEngine::new().place_nodes(&mut doc);
    for (i, id) in doc.body().children().enumerate() {
        let n = doc.get_node(id).unwrap();
        let Some(r) = n.rect() else { return viol(format!("table {} has no place", i)) };
        let mut y = r.min_y();
        for (j, k) in n.children().enumerate() {
            let Some(q) = doc.get_node(k).unwrap().rect() else { return viol(format!("row {} of table {} has no place", j, i)) };
            ck!(q.min_y() == y && q.min_x() == r.min_x() && q.width() == r.width() && q.height() > 0.0, "row {} of table {} is at {:?}, the table at {:?}", j, i, q, r);
            y = q.max_y();
        }
        ck!(y == r.max_y(), "the rows of table {} end at {}, the table at {}", i, y, r.max_y());
    }
    Ok(())
}
fn grids(name: &str, t0: usize, t1: usize, hs: &'static [usize]) -> Space {
    space(name, &format!("{} to {} tables, each with {:?} fields", t0, t1, hs), move |c| {
        let t = t0 + c.pick(t1 - t0 + 1);
        let d = Doc { name: None, entries: (0..t).map(|i| table(i, *c.of(hs))).collect() };
        c.label(d.src());
        doc_rows(&d)?;
        let sc = draw(&d)?;
        note(c, &sc);
        grid(c, &d, &sc)
    })
}
fn odd_one(max: usize, tall: &'static [usize]) -> Space {
    space("odd-one", &format!("up to {} tables with one field except one, anywhere, with {:?}", max, tall), move |c| {
        let t = 1 + c.pick(max);
        let mut ns = vec![1; t];
        let i = c.pick(t);
        ns[i] = *c.of(tall);
        let d = Doc { name: None, entries: ns.iter().enumerate().map(|(i, n)| table(i, *n)).collect() };
        c.label(format!("{} tables, table {} with {} fields", t, i, ns[i]));
        doc_rows(&d)?;
        let sc = draw(&d)?;
        note(c, &sc);
        grid(c, &d, &sc)
    })
}
fn c08(th: bool) -> Vec<Space> {
    let mut v = vec![
        grids("heights", 0, 4, &[0, 1, 2, 3, 5, 8]),
        grids("heights-2", 5, 7, &[0, 1, 4]),
        grids("heights-3", 8, if th { 14 } else { 10 }, &[0, 3]),
        odd_one(if th { 100 } else { 40 }, &[0, 2, 9, 40, 300]),
        grids("tall-tables", 1, 4, &[0, 9, 24, 31, 40, 63, 120]),
    ];
    if th {
        v.push(grids("heights-4", 5, 9, &[0, 2, 5]));
    }
    v.extend(route_spaces(false, grid).into_iter().skip(1));
    v
}

// ---- C09: view box -----------------------------------------------------------------------------
fn view_box(c: &mut Ch, _: &Doc, sc: &Scene) -> R {
    c.eval(1);
    let Some(v) = sc.view_box else { return viol("the drawing has no view box") };
    ck!(v.x == 0.0 && v.y == 0.0, "the view box starts at {:?}", (v.x, v.y));
    ck!(v.w > 0.0 && v.h > 0.0 && v.w < 1e7 && v.h < 1e7, "the view box has the size {:?}", (v.w, v.h));
    let inside = |x0: f64, y0: f64, x1: f64, y1: f64| x0 >= v.x - EPS && y0 >= v.y - EPS && x1 <= v.r() + EPS && y1 <= v.b() + EPS;
    for (i, t) in sc.tables.iter().enumerate() {
        ck!(inside(t.rect.x, t.rect.y, t.rect.r(), t.rect.b()), "table {} at {:?} is outside the view box {:?}", i, t.rect, v);
    }
    for (i, e) in sc.edges.iter().enumerate() {
        // a curve lies within the triangle of its three points
        for cmd in &e.cmds {
            let ps = match cmd {
                Cmd::M(p) | Cmd::L(p) => vec![*p],
                Cmd::Q(a, b) => vec![*a, *b],
            };
            for p in ps {
                ck!(inside(p.0, p.1, p.0, p.1), "line {} at {:?} is outside the view box {:?}", i, p, v);
            }
        }
        for o in &e.ends {
            ck!(inside(o.c.0 - o.r, o.c.1 - o.r, o.c.0 + o.r, o.c.1 + o.r), "an end mark of line {} at {:?} is outside the view box {:?}", i, o.c, v);
        }
    }
    Ok(())
}
fn c09(th: bool) -> Vec<Space> {
    let mut v = vec![space("counts", "0 to 30 tables of 0 to 6 fields, 0 to 3 tables of up to 60 fields, and 31 to 150 tables of 0 or 9 fields and one or two of 100 to 800 fields in steps, without relations", |c| {
        let (t, n) = match c.pick(4) {
            0 => (c.pick(31), c.pick(7)),
            1 => (c.pick(4), c.pick(61)),
            2 => (31 + c.pick(120), 9 * c.pick(2)),
            _ => (1 + c.pick(2), 100 + 50 * c.pick(15)),
        };
        let d = Doc { name: None, entries: (0..t).map(|i| table(i, n)).collect() };
        c.label(format!("{} tables of {} fields", t, n));
        let sc = draw(&d)?;
        note(c, &sc);
        view_box(c, &d, &sc)
    }), space("tall-tables", "1 to 4 tables, each with 0, 9, 24, 31, 40, 63 or 120 fields, and 7 to 9 tables with 2 or 40, without relations", |c| {
        let (t, hs): (usize, &[usize]) = if c.flag() { (1 + c.pick(4), &[0, 9, 24, 31, 40, 63, 120]) } else { (7 + c.pick(3), &[2, 40]) };
        let ns: Vec<usize> = (0..t).map(|_| *c.of(hs)).collect();
        let d = Doc { name: None, entries: ns.iter().enumerate().map(|(i, n)| table(i, *n)).collect() };
        c.label(format!("tables of {:?} fields", ns));
        let sc = draw(&d)?;
        note(c, &sc);
        view_box(c, &d, &sc)
    })];
    v.extend(api_spaces(th, view_box));
    v
}

// ---- C10: attachment ---------------------------------------------------------------------------
fn attached(c: &mut Ch, d: &Doc, sc: &Scene) -> R {
    let rels = d.rels();
    if sc.edges.len() != rels.len() || sc.tables.len() != d.tables().len() {
        return Err(Bad::Skip); // C06, C07
    }
    for (i, (e, (a, b))) in sc.edges.iter().zip(&rels).enumerate() {
        let p = e.polyline();
        ck!(p.len() >= 2, "line {} has no length", i);
        let n = p.len();
        for (what, path, at, next) in [("starts", a, p[0], p[1]), ("ends", b, p[n - 1], p[n - 2])] {
            c.eval(1);
            let Some((t, r)) = d.resolve(path) else { return Err(Bad::Skip) };
            let rect = sc.tables[t].rect;
            let el = element(rect, d.tables()[t].1.len(), r);
            let ps = ports(el, rect);
            let Some(q) = ps.iter().find(|q| near_pt(q.at, at)) else {
                return viol(format!("line {} {} at {:?}, not in the middle of a free side of {} {:?}", i, what, at, path.src(), el));
            };
            let v = (next.0 - at.0, next.1 - at.1);
            let out = v.0 * q.d.0 + v.1 * q.d.1;
            let side = v.0 * q.d.1 - v.1 * q.d.0;
            ck!(out > EPS && side.abs() < EPS, "line {} {} at {:?} but does not go straight away from the side of {}: next point {:?}", i, what, at, path.src(), next);
        }
        ck!(e.ends.len() == 2, "line {} has {} end marks", i, e.ends.len());
        let m = (e.ends[0].c, e.ends[1].c);
        let ok = (near_pt(m.0, p[0]) && near_pt(m.1, p[n - 1])) || (near_pt(m.1, p[0]) && near_pt(m.0, p[n - 1]));
        ck!(ok, "the end marks of line {} are at {:?}, its ends at {:?} and {:?}", i, m, p[0], p[n - 1]);
    }
    Ok(())
}
fn c10(th: bool) -> Vec<Space> {
    let mut v = api_spaces(th, attached);
    v.extend(docs::moved(th).into_iter().map(|x| moved(x, attached)));
    v
}

// ---- C11: orthogonal, free ---------------------------------------------------------------------
fn clear(c: &mut Ch, _: &Doc, sc: &Scene) -> R {
    for (i, e) in sc.edges.iter().enumerate() {
        let p = e.polyline();
        ck!(p.len() >= 2, "line {} has no length", i);
        for w in p.windows(2) {
            c.eval(1);
            let (h, v) = (near(w[0].1, w[1].1), near(w[0].0, w[1].0));
            ck!(h != v, "line {} has a segment {:?} - {:?}", i, w[0], w[1]);
            for (k, t) in sc.tables.iter().enumerate() {
                ck!(!through(w[0], w[1], t.rect), "line {} runs through table {}: {:?} - {:?} through {:?}", i, k, w[0], w[1], t.rect);
            }
        }
        for w in p.windows(3) {
            let a = (w[1].0 - w[0].0, w[1].1 - w[0].1);
            let b = (w[2].0 - w[1].0, w[2].1 - w[1].1);
            ck!(a.0 * b.0 + a.1 * b.1 > -EPS, "line {} doubles back at {:?}", i, w[1]);
        }
    }
    Ok(())
}
fn c11(th: bool) -> Vec<Space> {
    let mut v = api_spaces(th, clear);
    v.extend(docs::moved(th).into_iter().map(|x| moved(x, clear)));
    v
}

// ---- C12: shortest -----------------------------------------------------------------------------
fn optimal(c: &mut Ch, d: &Doc, sc: &Scene) -> R {
    let rels = d.rels();
    if sc.edges.len() != rels.len() || sc.tables.len() != d.tables().len() {
        return Err(Bad::Skip);
    }
    let rects: Vec<_> = sc.tables.iter().map(|t| t.rect).collect();
    for (i, (e, (a, b))) in sc.edges.iter().zip(&rels).enumerate() {
        let p = e.polyline();
        let (Some(a), Some(b)) = (d.resolve(a), d.resolve(b)) else { return Err(Bad::Skip) };
        let el = |x: (usize, usize)| ports(element(rects[x.0], d.tables()[x.0].1.len(), x.1), rects[x.0]);
        let l = len(&p);
        // clearance 40, up to the rounding the property leaves open
        let Some(best) = shortest(&rects, &el(a), &el(b), 39.0, 40.0) else { continue };
        c.eval(1);
        c.tag(if near(l, best) { "exactly shortest" } else if l < best { "shorter (less clearance)" } else { "longer" });
        ck!(l < best + 0.01 + best * 1e-6, "line {} has the length {}, but there is a route of length {}; it runs {:?}", i, l, best, p);
    }
    Ok(())
}
fn c12(th: bool) -> Vec<Space> {
    api_spaces(th, optimal)
}

// ---- C13: names --------------------------------------------------------------------------------
fn shown(s: &str) -> String {
    s.chars().map(|c| if svgx::xml_char(c) { c } else { '\u{FFFD}' }).collect()
}
/// The drawing without its texts.
fn skeleton(sc: &Scene) -> String {
    let mut s = String::new();
    for t in &sc.tables {
        s.push_str(&format!("{:?}{:?}{:?}{:?}{:?}{:?}", t.rect, t.fill, t.stroke, t.bands, t.lines, t.badges));
        for x in &t.texts {
            s.push_str(&format!("{:?}{:?}{:?}{:?};", x.x, x.y, x.fill, x.anchor));
        }
    }
    format!("{}{:?}{:?}", s, sc.edges, sc.view_box)
}
fn names_doc(mname: &str, tnames: &[String], fnames: &[String]) -> Doc {
    let mut entries = vec![];
    for (i, t) in tnames.iter().enumerate() {
        let fs = if i == 0 {
            fnames.iter().map(|f| Field { name: f.clone(), ty: Ty::Uuid, key: Some(Key::Fk) }).collect()
        } else {
            vec![]
        };
        entries.push(Entry::Entity { name: t.clone(), fields: fs });
    }
    Doc { name: Some(mname.into()), entries }
}
fn check_names(c: &mut Ch, mname: &str, tnames: &[String], fnames: &[String], via_text: bool) -> R {
    let d = names_doc(mname, tnames, fnames);
    let svg = if via_text { draw_text(&d)? } else { pipe::draw(&pipe::build(&d)) };
    c.state(&svg);
    let sc = seen(&svg)?;
    ck!(sc.tables.len() == tnames.len(), "{} tables are drawn instead of {}", sc.tables.len(), tnames.len());
    for (i, t) in sc.tables.iter().enumerate() {
        let fs: &[String] = if i == 0 { fnames } else { &[] };
        let exp: Vec<String> = std::iter::once(shown(&tnames[i]))
            .chain(fs.iter().flat_map(|f| [shown(f), "uuid".to_string(), "FK".to_string()]))
            .collect();
        c.eval(exp.len() as u64);
        ck!(t.texts.len() == exp.len(), "{} texts instead of {}", t.texts.len(), exp.len());
        for (g, w) in t.texts.iter().zip(&exp) {
            ck!(&g.s == w, "a name is shown as {:?} instead of {:?}", g.s, w);
        }
    }
    let plain: Vec<String> = (0..tnames.len()).map(tname).collect();
    let plainf: Vec<String> = (0..fnames.len()).map(fname).collect();
    let base = seen(&pipe::draw(&pipe::build(&names_doc("m", &plain, &plainf))))?;
    ck!(skeleton(&sc) == skeleton(&base), "the names change more than their own texts");
    Ok(())
}
fn c13(th: bool) -> Vec<Space> {
    const AL: [char; 18] = ['a', '&', '<', '>', '"', '\'', ';', '#', ']', '-', '!', '/', '?', '\n', '\r', '\u{0}', 'x', '3'];
    let n = if th { 4 } else { 3 };
    vec![
        space("every-character", "every Unicode character (64 in a module) as name of a table, of a field, and inside a name", move |c| {
            const B: usize = 64;
            let k = c.pick(0x110000 / B);
            let cs: Vec<char> = (k * B..(k + 1) * B).filter_map(|v| char::from_u32(v as u32)).collect();
            if cs.is_empty() {
                return Err(Bad::Skip);
            }
            c.label(format!("characters U+{:04X}..=U+{:04X}", k * B, k * B + B - 1));
            let alone: Vec<String> = cs.iter().map(|c| c.to_string()).collect();
            let inside: Vec<String> = cs.iter().map(|c| format!("a{}b{}", c, c)).collect();
            if k % 2 == 0 {
                check_names(c, &alone[0], &inside, &alone, false)
            } else {
                check_names(c, &alone[0], &alone, &inside, false)
            }
        }),
        space("markup", &format!("every string of up to {} of {} characters as module, table and field name, through the parser", n, AL.len()), move |c| {
            let mut s = String::new();
            for _ in 0..n {
                let k = c.pick(AL.len() + 1);
                if k == 0 {
                    break;
                }
                s.push(AL[k - 1]);
            }
            c.label(format!("{:?}", s));
            let t = vec![s.clone(), "b".to_string()];
            check_names(c, &s, &t, &[s.clone(), "z".into(), s.clone()], true)
        }),
        space("references", "every sequence of up to 3 of 14 pieces of markup as a name", |c| {
            let ps = ["&amp;", "&lt;", "&#0;", "&#x41;", "&unknown;", "<!--", "-->", "<![CDATA[", "]]>", "</text>", "<svg>", "<?xml", "\r\n", "  "];
            let mut s = String::new();
            for _ in 0..3 {
                let k = c.pick(ps.len() + 1);
                if k == 0 {
                    break;
                }
                s.push_str(ps[k - 1]);
            }
            c.label(format!("{:?}", s));
            check_names(c, &s, &[s.clone(), s.clone()], &[s.clone()], true)
        }),
        space("long", &format!("names of 1 to {} characters, ending in one of 6 pieces, of every of 3 kinds of characters", if th { 300_000 } else { 70_000 }), move |c| {
            let mut ns = vec![1usize, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 200, 255, 256, 257, 500, 511, 512, 999, 1000, 1001, 1023, 1024, 2000, 4095, 4096, 5000, 8191, 8192, 8193, 10_000, 16_384, 20_001, 32_768, 65_535, 65_536, 70_000];
            if th {
                ns.extend([100_000, 131_072, 300_000]);
            }
            let n = *c.of(&ns);
            let (unit, end) = (*c.of(&["a", "&", "\u{1F600}"]), *c.of(&["", "z", "<", "]]>", "&lt;", "\u{0}"]));
            c.label(format!("{} times {:?}, then {:?}", n, unit, end));
            let s = unit.repeat(n) + end;
            let o = "b".repeat(n) + end;
            check_names(c, "m", &[s.clone(), o.clone()], &[o, s], n <= 5000)
        }),
        space("with-relations", "two related tables whose names contain markup", |c| {
            let ns = ["a", "<", "&", "\"", "]]>", "a b", "url(#x)", "\u{0}", ".", "é"];
            let (x, y, f) = (c.of(&ns).to_string(), c.of(&ns).to_string(), c.of(&ns).to_string());
            if x == y {
                return Err(Bad::Skip);
            }
            let mk = |x: &str, y: &str, f: &str| Doc {
                name: Some(x.to_string()),
                entries: vec![
                    Entry::Entity { name: x.into(), fields: vec![Field { name: f.into(), ty: Ty::Int, key: None }] },
                    Entry::Entity { name: y.into(), fields: vec![] },
                    Entry::Rel { a: Path::f(x, f), b: Path::e(y) },
                ],
            };
            let d = mk(&x, &y, &f);
            c.label(d.src());
            c.eval(1);
            let svg = draw_text(&d)?;
            c.state(&svg);
            let a = seen(&svg)?;
            let b = seen(&draw_text(&mk("p", "q", "r"))?)?;
            ck!(a.edges.len() == 1, "the relation is not drawn");
            ck!(skeleton(&a) == skeleton(&b), "the names change more than their own texts");
            Ok(())
        }),
    ]
}

fn main() {
    const SVG: &str = "the SVG reader (mc/src/svgx.rs) reads tables, rows, texts and lines as an SVG viewer shows them";
    const UNIQ: &str = "modules that define a name twice are outside the domain (which definition a relation means is not specified)";
    const RULE: &str = "one case = one module laid out and rendered by the real code; states = distinct drawings (tables and routes)";
    run::main(&[
        Check { id: "C06", level: "model_checking", rule: "one case = one module text read, laid out and rendered by the real code; states = distinct SVG texts", assumptions: &[SVG], spaces: c06 },
        Check { id: "C07", level: "model_checking", rule: RULE, assumptions: &[SVG, UNIQ], spaces: c07 },
        Check { id: "C08", level: "model_checking", rule: RULE, assumptions: &[SVG], spaces: c08 },
        Check { id: "C09", level: "model_checking", rule: RULE, assumptions: &[SVG], spaces: c09 },
        Check { id: "C10", level: "model_checking", rule: RULE, assumptions: &[SVG], spaces: c10 },
        Check { id: "C11", level: "model_checking", rule: RULE, assumptions: &[SVG], spaces: c11 },
        Check { id: "C12", level: "model_checking", rule: "one case = one module; each of its lines is compared with the shortest route of an independent grid search; states = distinct drawings", assumptions: &[SVG, "link lengths are counted in whole units, so a line may be longer than the optimum by less than 1 per segment"], spaces: c12 },
        Check { id: "C13", level: "model_checking", rule: "one case = one set of names, drawn and read back by a strict XML 1.0 reader; states = distinct SVG texts", assumptions: &["the XML reader of mc/src/svgx.rs is as strict as XML 1.0 for the constructs the writer uses"], spaces: c13 },
    ]);
}
