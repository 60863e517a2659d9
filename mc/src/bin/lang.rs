//! C01 - C05, C21: from text to syntax tree and back.
use seiren_mc::ex::*;
use seiren_mc::model::*;
use seiren_mc::reflang::{self, step, Verdict, S, T};
use seiren_mc::run::{space, Check, Space};
use seiren_mc::texts::*;
use seiren_mc::*;
use std::sync::OnceLock;

// ---- C01 ---------------------------------------------------------------------------------------
fn accept(c: &mut Ch, src: &str) -> R {
    let v = reflang::judge(src);
    let p = pipe::read(src);
    c.eval(1);
    c.state(src);
    match v {
        Verdict::Yes(_) => {
            c.tag("modules");
            ck!(p.ok(), "a module of the language gets diagnostics at {:?} {:?}", p.lex, p.syn);
            ck!(p.ast.is_some(), "a module of the language yields no syntax tree");
        }
        Verdict::NotTokens(a, b) => {
            c.tag("not tokens");
            ck!(!p.ok(), "characters {}..={} are no token, but there is no diagnostic", a, b);
        }
        Verdict::NotAModule(a) => {
            c.tag("not modules");
            ck!(!p.ok(), "no module continues with the token at character {}, but there is no diagnostic", a);
        }
    }
    Ok(())
}
fn c01(th: bool) -> Vec<Space> {
    let j: Judge = accept;
    vec![
        w_method(if th { 4 } else { 3 }, j),
        edits(if th { 2 } else { 1 }, j),
        viable(if th { 15 } else { 11 }, j),
        tokens_all(if th { 6 } else { 5 }, j),
        strings(if th { 5 } else { 3 }, &HOLES, j),
        strings(4, &HOLES[3..6], j),
        words(j),
        quoted(if th { 6 } else { 4 }, j),
        escapes(th, j),
        every_char(if th { 0x110000 } else { 0x3000 }, j),
        long_names(j),
        filled(j),
        commented(3, j),
        sizes(4000, j),
    ]
}

// ---- C02 ---------------------------------------------------------------------------------------
fn meaning(c: &mut Ch, src: &str) -> R {
    let Verdict::Yes(d) = reflang::judge(src) else { return Err(Bad::Skip) };
    let p = pipe::read(src);
    c.eval(1);
    c.state(&d);
    let Some(ast) = p.ast else { return viol("an accepted text yields no syntax tree") };
    let got = pipe::to_doc(&ast);
    ck!(got == d, "the text means\n{:?}\nbut it is read as\n{:?}", d, got);
    Ok(())
}
/// modules of up to `n` entries, all of them accepted
fn modules(n: usize, fields: usize, j: Judge) -> Space {
    space(
        "modules",
        &format!("every module of up to {} entries: entities of up to {} fields with every type and key, relations between entities and fields; unnamed, named, and named by a quoted keyword", n, fields),
        move |c| {
            let name = c.of(&[None, Some("G"), Some("erd")]).map(|s: &str| s.to_string());
            let mut d = Doc { name, entries: vec![] };
            let mut k = 0;
            let mut fresh = |p: &str| {
                k += 1;
                format!("{}{}", p, k)
            };
            for _ in 0..n {
                match c.pick(3) {
                    0 => break,
                    1 => {
                        let name = fresh("e");
                        let mut fs = vec![];
                        for _ in 0..fields {
                            if !c.flag() {
                                break;
                            }
                            fs.push(Field { name: fresh("f"), ty: *c.of(&TYS), key: *c.of(&KEYS) });
                        }
                        d.entries.push(Entry::Entity { name, fields: fs });
                    }
                    _ => {
                        let mut path = |c: &mut Ch| Path { entity: fresh("r"), field: if c.flag() { Some(fresh("PK")) } else { None } };
                        let a = path(c);
                        let b = path(c);
                        d.entries.push(Entry::Rel { a, b });
                    }
                }
            }
            let s = d.src();
            c.label(s.clone());
            j(c, &s)
        },
    )
}
/// the same names, fields and entries any number of times
pub fn repeats(n: usize, j: Judge) -> Space {
    space(
        "repeats",
        &format!("up to {} entries, each of: entity a or b with up to 2 fields x or y of two types with or without a key; relation between any two of a, a.x, a.y, b, also the same", n),
        move |c| {
            let mut d = Doc::default();
            for _ in 0..n {
                match c.pick(3) {
                    0 => break,
                    1 => {
                        let name = c.of(&["a", "b"]).to_string();
                        let mut fields = vec![];
                        for _ in 0..2 {
                            if !c.flag() {
                                break;
                            }
                            fields.push(Field { name: c.of(&["x", "y"]).to_string(), ty: *c.of(&[Ty::Int, Ty::Uuid]), key: *c.of(&[None, Some(Key::Fk)]) });
                        }
                        d.entries.push(Entry::Entity { name, fields });
                    }
                    _ => {
                        let all = [Path::e("a"), Path::f("a", "x"), Path::f("a", "y"), Path::e("b")];
                        let (a, b) = (c.of(&all).clone(), c.of(&all).clone());
                        d.entries.push(Entry::Rel { a, b });
                    }
                }
            }
            let s = d.src();
            c.label(s.clone());
            j(c, &s)
        },
    )
}
fn c02(th: bool) -> Vec<Space> {
    let j: Judge = meaning;
    vec![
        modules(if th { 3 } else { 2 }, 2, j),
        repeats(if th { 3 } else { 2 }, j),
        viable(if th { 15 } else { 12 }, j),
        words(j),
        quoted(if th { 6 } else { 4 }, j),
        escapes(th, j),
        edits(if th { 2 } else { 1 }, j),
        strings(if th { 4 } else { 3 }, &HOLES[1..], j),
        every_char(if th { 0x110000 } else { 0x3000 }, j),
        long_names(j),
        filled(j),
        commented(3, j),
        sizes(4000, j),
    ]
}

// ---- C03 ---------------------------------------------------------------------------------------
const TRIVIA_BASES: [&str; 4] = [
    "erd G {\n a { x int PK ; y text }\n b { z uuid FK }\n a.x o--o b.z\n}\n",
    "erd { a { } ; a o--o b\n b { i timestamp\n j int } }",
    "erd `o` {\n o { o text FK }\n p o--o o.o\n p { q uuid }\n}",
    "erd { a o--o a\n a { x int ; y int ; z int } ; c { w text PK } ; c.w o--o a.y }",
];
fn trivia(maxdev: usize) -> Space {
    static SVG: [OnceLock<String>; 4] = [OnceLock::new(), OnceLock::new(), OnceLock::new(), OnceLock::new()];
    const GAPS: [&str; 16] = [
        " ", "", "\t", " \t  ", "\n", "\r\n", ";", "//\n", "// é`{};o--o \"\\ erd }\r\n", "\n\n;\n",
        "\t// a // b\n \t//\n", "  \n", "\n\t", " ;; ", "//{", "// o--o",
    ];
    space(
        "trivia",
        &format!("{} modules with up to {} edits: each gap (16 fillings), each line break or `;` (7 forms), each identifier quoted in three ways; edits the language gives another meaning are outside the domain", TRIVIA_BASES.len(), maxdev),
        move |c| {
            let bi = c.pick(TRIVIA_BASES.len());
            let base = TRIVIA_BASES[bi];
            let l = reflang::lex(base);
            let chars: Vec<char> = base.chars().collect();
            let mut s = String::new();
            // which gap may be empty is decided by the reference, too
            s.push_str(["", " ", "\n", "//é\n", "\t", ";", "\r\n \n// erd\n"][c.dev(7)]);
            for (i, (t, a, b)) in l.toks.iter().enumerate() {
                if i > 0 {
                    s.push_str(GAPS[c.dev(GAPS.len())]);
                }
                let own: String = chars[*a..*b].iter().collect();
                match t {
                    T::Nl | T::Semi => {
                        let forms = [own.as_str(), "\n", ";", "\r\n", ";;", "\n;\r\n", "// c\n"];
                        s.push_str(forms[c.dev(forms.len())]);
                    }
                    T::Ident(x) => match c.dev(4) {
                        0 => s.push_str(&own),
                        1 => s.push_str(&format!("`{}`", x)),
                        2 => s.push_str(&format!("`{}`", x.chars().map(|c| format!("\\u{:04x}", c as u32)).collect::<String>())),
                        _ => s.push_str(&format!("`\\u{:04X}{}`", x.chars().next().unwrap() as u32, x.chars().skip(1).collect::<String>())),
                    },
                    _ => s.push_str(&own),
                }
            }
            s.push_str(["", " ", "\n", "//é", "\t//\n", ";", "\r\n", "// }"][c.dev(8)]);
            c.label(s.clone());
            let Verdict::Yes(want) = reflang::judge(base) else { panic!("harness: bad base") };
            match reflang::judge(&s) {
                Verdict::Yes(d) if d == want => {}
                _ => return Err(Bad::Skip),
            }
            c.eval(2);
            c.state(&s);
            let p = pipe::read(&s);
            ck!(p.ok(), "the edited text gets diagnostics at {:?} {:?}", p.lex, p.syn);
            let Some(ast) = p.ast else { return viol("the edited text yields no syntax tree") };
            let got = pipe::to_doc(&ast);
            ck!(got == want, "the edited text is read as\n{:?}\ninstead of\n{:?}", got, want);
            let svg0 = SVG[bi].get_or_init(|| {
                pipe::read(base).ast.map(|a| pipe::draw(&a)).unwrap_or_default()
            });
            let svg = pipe::draw(&ast);
            ck!(&svg == svg0, "the drawing of the edited text differs");
            Ok(())
        },
    )
    .devs(maxdev)
}
/// a module, and it with one gap filled at length
fn long_trivia_text(c: &mut Ch) -> (&'static str, String) {
    const FILL: [&str; 10] = [" ", "\t", "\n", "\r\n", ";", "//c\n", " \n", "\n;", "//\r\n", "é"];
    let base = *c.of(&TRIVIA_BASES);
    let l = reflang::lex(base);
    let chars: Vec<char> = base.chars().collect();
    let at = c.pick(l.toks.len() + 1);
    let n = *c.of(&[3usize, 4, 5, 8, 9, 16, 17, 31, 32, 33, 64, 80, 100, 128, 255, 256, 257, 1000]);
    let f = *c.of(&FILL);
    let mut fill = f.repeat(n);
    if f == "é" {
        fill = format!("//{}\n", fill);
    }
    let cut = if at < l.toks.len() { l.toks[at].1 } else { chars.len() };
    let s: String = chars[..cut].iter().collect::<String>() + &fill + &chars[cut..].iter().collect::<String>();
    c.label(format!("{:?} before character {} of {:?}", if n > 20 { format!("{} x {:?}", n, f) } else { fill }, cut, base));
    (base, s)
}
/// one gap of a module filled with many repetitions of one kind of trivia
fn long_trivia() -> Space {
    space(
        "long-trivia",
        &format!("{} modules with one gap, anywhere, filled with 3 to 1000 repetitions of one of 9 kinds of trivia or by a comment of as many characters; fillings the language gives another meaning are outside the domain", TRIVIA_BASES.len()),
        move |c| {
            let (base, s) = long_trivia_text(c);
            let Verdict::Yes(want) = reflang::judge(base) else { panic!("harness: bad base") };
            match reflang::judge(&s) {
                Verdict::Yes(d) if d == want => {}
                _ => return Err(Bad::Skip),
            }
            c.eval(1);
            c.state(&s);
            let p = pipe::read(&s);
            ck!(p.ok(), "the edited text gets diagnostics at {:?} {:?}", p.lex, p.syn);
            let Some(ast) = p.ast else { return viol("the edited text yields no syntax tree") };
            let got = pipe::to_doc(&ast);
            ck!(got == want, "the edited text is read as\n{:?}\ninstead of\n{:?}", got, want);
            let svg0 = pipe::read(base).ast.map(|a| pipe::draw(&a)).unwrap_or_default();
            ck!(pipe::draw(&ast) == svg0, "the drawing of the edited text differs");
            Ok(())
        },
    )
}
/// a module, and it with a comment
fn comment_text(c: &mut Ch, n: usize, max: u32) -> Option<(&'static str, String)> {
    const CH: [char; 12] = ['\r', ' ', '\t', '/', '`', '\\', '"', '{', '}', ';', 'o', 'é'];
    let (base, at, text) = if c.flag() {
        let k = c.pick(n + 1);
        (1, 1 + c.pick(4) * 5, (0..k).map(|_| *c.of(&CH)).collect::<String>())
    } else {
        let b = c.pick(TRIVIA_BASES.len());
        let v = match c.pick(2) {
            0 => (c.pick((max / 64) as usize) * 64) as u32 + c.pick(64) as u32,
            _ => ((1i64 << c.pick(21)) + c.pick(5) as i64 - 2).clamp(0, 0x10FFFF) as u32,
        };
        let Some(ch) = char::from_u32(v) else { return None };
        let t = match c.pick(3) {
            0 => format!("{}x", ch),
            1 => format!("x{}y", ch),
            _ => format!("x{}", ch),
        };
        (b, 3 * c.pick(4), t)
    };
    let base = TRIVIA_BASES[base];
    let l = reflang::lex(base);
    let chars: Vec<char> = base.chars().collect();
    let cut = if at < l.toks.len() { l.toks[at].1 } else { chars.len() };
    let s: String = chars[..cut].iter().collect::<String>() + "//" + &text + "\n" + &chars[cut..].iter().collect::<String>();
    Some((base, s))
}
/// the same texts for other properties
fn filled(j: Judge) -> Space {
    space("long-gaps", "modules with one gap, anywhere, filled with 3 to 1000 repetitions of one of 9 kinds of trivia or by a comment of as many characters", move |c| {
        let (_, s) = long_trivia_text(c);
        c.label(if s.len() > 300 { format!("{} ... ({} characters)", s.chars().take(200).collect::<String>(), s.chars().count()) } else { s.clone() });
        j(c, &s)
    })
}
fn commented(n: usize, j: Judge) -> Space {
    space("comments", &format!("modules with one comment, in any gap, that consists of up to {} characters of 12, or has one of the characters below U+0400 or around a power of two at its beginning, middle or end", n), move |c| {
        let Some((_, s)) = comment_text(c, n, 0x400) else { return Err(Bad::Skip) };
        c.label(s.clone());
        j(c, &s)
    })
}
/// what stands in a comment does not matter
fn comments(n: usize, max: u32) -> Space {
    space(
        "comments",
        &format!("{} modules with one comment, in any gap, that consists of up to {} characters of 12, or has one of the characters below U+{:04X} or around a power of two at its beginning, middle or end", TRIVIA_BASES.len(), n, max),
        move |c| {
            let Some((base, s)) = comment_text(c, n, max) else { return Err(Bad::Skip) };
            c.label(s.clone());
            let Verdict::Yes(want) = reflang::judge(base) else { panic!("harness: bad base") };
            match reflang::judge(&s) {
                Verdict::Yes(d) if d == want => {}
                _ => return Err(Bad::Skip),
            }
            c.eval(1);
            c.state(&s);
            let p = pipe::read(&s);
            ck!(p.ok(), "the edited text gets diagnostics at {:?} {:?}", p.lex, p.syn);
            let Some(ast) = p.ast else { return viol("the edited text yields no syntax tree") };
            let got = pipe::to_doc(&ast);
            ck!(got == want, "the edited text is read as\n{:?}\ninstead of\n{:?}", got, want);
            Ok(())
        },
    )
}
fn c03(th: bool) -> Vec<Space> {
    vec![trivia(if th { 3 } else { 2 }), long_trivia(), comments(if th { 5 } else { 4 }, if th { 0x110000 } else { 0x800 })]
}

// ---- C04 ---------------------------------------------------------------------------------------
fn diagnostics(c: &mut Ch, src: &str) -> R {
    let v = reflang::judge(src);
    if matches!(v, Verdict::Yes(_)) {
        return Err(Bad::Skip);
    }
    let p = pipe::read(src);
    let n = src.chars().count();
    c.state(&(src, &p.lex, &p.syn));
    for (a, b) in p.lex.iter().chain(&p.syn) {
        c.eval(1);
        let inside = a <= b && *b <= n;
        let at_end = *a == n && *b <= n + 1;
        ck!(inside || at_end, "a diagnostic has the range {}..{}, but the text has {} characters", a, b, n);
    }
    c.eval(1);
    match v {
        Verdict::NotAModule(a) => {
            if p.ok() {
                return Err(Bad::Skip); // C01's matter
            }
            c.tag("not a module");
            ck!(p.lex.is_empty(), "all characters belong to tokens, but there is a lexical diagnostic at {:?}", p.lex);
            let (x, _) = p.syn[0];
            ck!(x == a, "no module continues with what is at character {}, but the first diagnostic is at {}", a, x);
        }
        Verdict::NotTokens(a, b) => {
            if p.lex.is_empty() {
                return Err(Bad::Skip);
            }
            c.tag("not tokens");
            let (x, _) = p.lex[0];
            ck!(a <= x && x <= b, "the characters {}..={} are no token, but the first lexical diagnostic is at {}", a, b, x);
        }
        _ => {}
    }
    Ok(())
}
fn c04(th: bool) -> Vec<Space> {
    let j: Judge = diagnostics;
    vec![
        edits(if th { 2 } else { 1 }, j),
        tokens_all(if th { 5 } else { 4 }, j),
        viable(if th { 13 } else { 10 }, j),
        strings(if th { 4 } else { 3 }, &HOLES, j),
        quoted(if th { 5 } else { 4 }, j),
        escapes(th, j),
        words(j),
        every_char(if th { 0x110000 } else { 0x800 }, j),
        far(j),
    ]
}

// ---- C05 ---------------------------------------------------------------------------------------
fn total(c: &mut Ch, src: &str) -> R {
    let p = pipe::read(src);
    c.eval(1);
    match &p.ast {
        Some(a) => {
            let svg = pipe::draw(a);
            c.state(&svg);
            c.tag(if p.ok() { "drawn" } else { "drawn and diagnosed" });
            if let Err(e) = svgx::parse_xml(&svg) {
                return viol(format!("the output is not a complete SVG document: {}", e));
            }
        }
        None => {
            c.state(&(&p.lex, &p.syn));
            c.tag("diagnosed");
            ck!(!p.ok(), "neither a drawing nor a diagnostic");
        }
    }
    Ok(())
}
/// sources of very tall tables and of very many
fn giants(th: bool, j: Judge) -> Space {
    let g = docs::giant(th);
    space(&g.name, &g.what, move |c| {
        let d = (g.choose)(c);
        let s = d.src();
        c.label(format!("{} ... ({} tables, {} fields, {:?})", s.chars().take(120).collect::<String>(), d.tables().len(), d.tables().iter().map(|t| t.1.len()).sum::<usize>(), d.rels()));
        j(c, &s)
    })
}
/// modules whose names collide or are undefined in every way
fn tangles(tables: usize, rels: usize) -> Space {
    space(
        &format!("tangles{}", rels),
        &format!("modules of up to {} tables named a or b with 0, 1 or 3 fields named x or x,y,x, and {} relations among 11 paths (defined, undefined, repeated, of the table itself), relations first or last", tables, rels),
        move |c| {
            let mut d = Doc::default();
            for _ in 0..tables {
                let name = match c.pick(3) {
                    0 => break,
                    1 => "a",
                    _ => "b",
                };
                let fs: &[&str] = *c.of(&[&[][..], &["x"][..], &["x", "y", "x"][..]]);
                d.entries.push(Entry::Entity {
                    name: name.into(),
                    fields: fs.iter().map(|f| Field { name: f.to_string(), ty: Ty::Int, key: Some(Key::Pk) }).collect(),
                });
            }
            let ps = [
                Path::e("a"), Path::f("a", "x"), Path::f("a", "y"), Path::e("b"), Path::f("b", "x"), Path::f("b", "y"),
                Path::e("c"), Path::f("a", "z"), Path::f("c", "x"), Path::e("x"), Path::f("x", "a"),
            ];
            let mut rs = vec![];
            for _ in 0..rels {
                let a = c.of(&ps).clone();
                let b = c.of(&ps).clone();
                rs.push(Entry::Rel { a, b });
            }
            if c.flag() {
                rs.append(&mut d.entries);
                d.entries = rs;
            } else {
                d.entries.append(&mut rs);
            }
            let s = d.src();
            c.label(s.clone());
            total(c, &s)
        },
    )
}
/// grids: number of tables, one of them tall, with relations
fn grids(maxt: usize, hs: &'static [usize], rels: usize) -> Space {
    space(
        &format!("grids{}", rels),
        &format!("1 to {} tables, two of them with {:?} fields, the others with one; {} relations between any of the first, second, middle and last tables and their first and last rows", maxt, hs, rels),
        move |c| {
            let t = 1 + c.pick(maxt);
            let mut ns = vec![1usize; t];
            let i = c.pick(t);
            ns[i] = *c.of(hs);
            if i + 1 < t {
                let j = i + 1 + c.pick(t - i - 1);
                ns[j] = *c.of(hs);
            }
            let mut d = Doc { name: None, entries: ns.iter().enumerate().map(|(i, n)| table(i, *n)).collect() };
            let mut ends = vec![];
            let mut which = vec![0, 1.min(t - 1), t / 2, t - 1];
            which.dedup();
            for i in which {
                let mut rows = vec![0, 1.min(ns[i]), ns[i]];
                rows.dedup();
                for r in rows {
                    ends.push(if r == 0 { Path::e(&tname(i)) } else { Path::f(&tname(i), &fname(r - 1)) });
                }
            }
            for _ in 0..rels {
                let a = c.of(&ends).clone();
                let b = c.of(&ends).clone();
                d.entries.push(Entry::Rel { a, b });
            }
            let s = d.src();
            c.label(s.clone());
            total(c, &s)
        },
    )
}
fn c05(th: bool) -> Vec<Space> {
    let j: Judge = total;
    vec![
        tangles(3, 1),
        grids(if th { 13 } else { 8 }, &[0, 5], 1),
        grids(if th { 5 } else { 2 }, &[0, 3], 2),
        edits(if th { 2 } else { 1 }, j),
        tokens_all(if th { 5 } else { 4 }, j),
        strings(if th { 4 } else { 3 }, &HOLES, j),
        w_method(if th { 2 } else { 1 }, j),
        quoted(if th { 5 } else { 4 }, j),
        escapes(th, j),
        giants(th, j),
        long_names(j),
        far(j),
        sizes(if th { 1000 } else { 256 }, j),
    ]
    .into_iter()
    .chain(if th { Some(tangles(2, 2)) } else { None })
    .collect()
}

// ---- C21 ---------------------------------------------------------------------------------------
fn round_trip(n: usize, fields: usize) -> Space {
    // plain names, some of them almost keywords
    const N: [&str; 9] = ["a", "o", "_", "ints", "er", "pk", "PK1", "erd_", "Z_9"];
    space(
        "round-trip",
        &format!("every module of up to {} entries (entities of up to {} fields with every type and key; relations of every form), its names chosen from {} plain identifiers that are almost keywords", n, fields, N.len()),
        move |c| {
            let rot = c.pick(N.len());
            let mut k = rot;
            let mut fresh = || {
                k += 1;
                N[k % N.len()].to_string()
            };
            let name = if c.flag() { Some(fresh()) } else { None };
            let mut d = Doc { name, entries: vec![] };
            for _ in 0..n {
                match c.pick(3) {
                    0 => break,
                    1 => {
                        let name = fresh();
                        let mut fs = vec![];
                        for _ in 0..fields {
                            if !c.flag() {
                                break;
                            }
                            fs.push(Field { name: fresh(), ty: *c.of(&TYS), key: *c.of(&KEYS) });
                        }
                        d.entries.push(Entry::Entity { name, fields: fs });
                    }
                    _ => {
                        let mut path = |c: &mut Ch| Path { entity: fresh(), field: if c.flag() { Some(fresh()) } else { None } };
                        let a = path(c);
                        let b = path(c);
                        d.entries.push(Entry::Rel { a, b });
                    }
                }
            }
            c.label(format!("{:?}", d));
            check_round_trip(c, &d)
        },
    )
}
fn check_round_trip(c: &mut Ch, d: &Doc) -> R {
    let text = pipe::build(d).to_string();
    c.eval(3);
    c.state(&text);
    let p = pipe::read(&text);
    ck!(p.ok(), "the printed module gets diagnostics at {:?} {:?}:\n{}", p.lex, p.syn, text);
    let Some(ast) = p.ast else { return viol(format!("the printed module yields no syntax tree:\n{}", text)) };
    let got = pipe::to_doc(&ast);
    ck!(&got == d, "the printed module reads back as\n{:?}\ninstead of\n{:?}\nprinted:\n{}", got, d, text);
    let again = ast.to_string();
    ck!(again == text, "printed again it is\n{}\ninstead of\n{}", again, text);
    Ok(())
}
fn round_trip_words() -> Space {
    let al: Vec<char> = "aozAZ_019".chars().collect();
    space(
        "names",
        "every plain identifier of up to 4 characters from {a,o,z,A,Z,_,0,1,9} as module, entity, field name and relation end",
        move |c| {
            let mut s = String::new();
            for _ in 0..4 {
                let k = c.pick(al.len() + 1);
                if k == 0 {
                    break;
                }
                s.push(al[k - 1]);
            }
            if !is_plain(&s) {
                return Err(Bad::Skip);
            }
            let d = Doc {
                name: Some(s.clone()),
                entries: vec![
                    Entry::Rel { a: Path::f(&s, &s), b: Path::e(&s) },
                    Entry::Entity { name: s.clone(), fields: vec![Field { name: s.clone(), ty: Ty::Text, key: Some(Key::Fk) }, Field { name: s.clone(), ty: Ty::Uuid, key: None }] },
                    Entry::Rel { a: Path::e(&s), b: Path::f(&s, &s) },
                ],
            };
            c.label(s);
            check_round_trip(c, &d)
        },
    )
}
fn round_trip_lengths() -> Space {
    space("lengths", "plain names of 1 to 140, 255 to 257 and 1000 characters as module, entity and field name and relation end", |c| {
        let mut ns: Vec<usize> = (1..=140).collect();
        ns.extend([255, 256, 257, 1000]);
        let n = *c.of(&ns);
        let mut name = || -> String {
            match c.pick(4) {
                0 => "n".repeat(n),
                1 => format!("A{}", "_9".repeat(n / 2)),
                2 => "z".into(),
                _ => format!("{}int", "_".repeat(n)),
            }
        };
        let (m, t, f) = (name(), name(), name());
        let d = Doc {
            name: Some(m),
            entries: vec![
                Entry::Entity { name: t.clone(), fields: vec![Field { name: f.clone(), ty: Ty::Uuid, key: Some(Key::Pk) }] },
                Entry::Rel { a: Path::f(&t, &f), b: Path::e(&t) },
            ],
        };
        c.label(format!("{:?}", d));
        check_round_trip(c, &d)
    })
}
fn round_trip_sizes(max: usize) -> Space {
    space("sizes", &format!("modules with up to {} entities, fields and relations", max), move |c| {
        let ns: Vec<usize> = [0usize, 1, 2, 5, 17, 60, 200, 1000].iter().copied().filter(|n| *n <= max).collect();
        let (a, b, r) = (*c.of(&ns), *c.of(&ns), *c.of(&ns));
        if a * b > 4 * max {
            return Err(Bad::Skip);
        }
        let mut d = Doc { name: None, entries: (0..a).map(|i| table(i, b)).collect() };
        for i in 0..r {
            d.entries.insert((i * 7) % (d.entries.len() + 1), Entry::Rel { a: Path::f(&tname(i), &fname(i)), b: Path::e(&tname(i + 1)) });
        }
        c.label(format!("{} tables of {} fields, {} relations", a, b, r));
        check_round_trip(c, &d)
    })
}
fn c21(th: bool) -> Vec<Space> {
    let j: Judge = |c, s| match reflang::judge(s) {
        Verdict::Yes(d) => check_round_trip(c, &d),
        _ => Err(Bad::Skip),
    };
    vec![round_trip(if th { 3 } else { 2 }, 2), repeats(if th { 3 } else { 2 }, j), round_trip_words(), round_trip_lengths(), round_trip_sizes(if th { 1000 } else { 200 })]
}

fn main() {
    let _ = step(S::Start, &T::Nl);
    const REF: &str = "the reference lexer and automaton (mc/src/reflang.rs) state the documented grammar";
    run::main(&[
        Check { id: "C01", level: "model_checking", rule: "one case = one source text read by the real parser; states = distinct texts (and automaton states passed through); accepted and rejected texts are both counted under `seen`", assumptions: &[REF, "texts beyond the stated lengths and alphabets are not explored"], spaces: c01 },
        Check { id: "C02", level: "model_checking", rule: "one case = one text the language accepts; states = distinct meanings; rejected texts are outside the domain and only enumerated", assumptions: &[REF], spaces: c02 },
        Check { id: "C03", level: "model_checking", rule: "one case = one edited text that the reference gives the same meaning; states = distinct texts", assumptions: &[REF], spaces: c03 },
        Check { id: "C04", level: "model_checking", rule: "one case = one text that is not accepted; states = distinct (text, diagnostic ranges)", assumptions: &[REF, "a malformed token is diagnosed anywhere between its first character and the character that makes it impossible"], spaces: c04 },
        Check { id: "C05", level: "model_checking", rule: "one case = one text taken through reading, layout and rendering; states = distinct drawings or diagnostic lists", assumptions: &["no execution takes more than 60 s unless it hangs", "64 MB of stack"], spaces: c05 },
        Check { id: "C21", level: "model_checking", rule: "one case = one module printed, read back and printed again; states = distinct printed texts", assumptions: &["names are plain identifiers that are no keywords (Display prints names without quotes)"], spaces: c21 },
    ]);
}
