//! Spaces of source texts. Every generator asks a `Ch` for its choices, so that the explorer
//! enumerates the whole space.
use crate::ex::*;
use crate::model::*;
use crate::reflang::{self, step, S, T};

/// Text of the `i`-th token of a text. Identifiers are numbered, so that each one is different.
/// In style 1 identifiers are quoted and not ASCII (so characters and bytes differ), line breaks
/// are CR LF, and every second gap is a tab.
pub fn tok_text(t: &T, i: usize, style: usize) -> String {
    match t {
        T::Erd => "erd".into(),
        T::Ident(s) if !s.is_empty() => ident_src(s),
        T::Ident(_) if style == 1 => format!("`é{}`", i),
        T::Ident(_) => format!("n{}", i),
        T::Ty(t) => t.kw().into(),
        T::Key(k) => k.kw().into(),
        T::Open => "{".into(),
        T::Close => "}".into(),
        T::Semi => ";".into(),
        T::Dot => ".".into(),
        T::Nl if style == 1 => "\r\n".into(),
        T::Nl => "\n".into(),
        T::Edge => "o--o".into(),
    }
}
pub fn render(toks: &[T], style: usize) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            s.push(if style == 1 && i % 2 == 0 { '\t' } else { ' ' });
        }
        s.push_str(&tok_text(t, i, style));
    }
    s
}

pub type Judge = fn(&mut Ch, &str) -> R;
use crate::run::{space, Space};

/// every token sequence up to length `n`
pub fn tokens_all(n: usize, j: Judge) -> Space {
    let al = reflang::alphabet();
    space("tokens", &format!("every sequence of up to {} of the 14 tokens", n), move |c| {
        let mut v = vec![];
        while v.len() < n {
            let k = c.pick(al.len() + 1);
            if k == 0 {
                break;
            }
            v.push(al[k - 1].clone());
        }
        let s = render(&v, v.len() % 2);
        c.label(s.clone());
        j(c, &s)
    })
}

/// state access . up to k tokens . characterizing suffix
pub fn w_method(k: usize, j: Judge) -> Space {
    let al = reflang::alphabet();
    let acc = reflang::access();
    let w = reflang::characterizing();
    assert_eq!(reflang::equivalent_states(&w), 0, "harness: reference automaton is not minimal");
    space(
        "w-method",
        &format!(
            "conformance suite of the {}-state reference automaton: access sequence of each state, every sequence of up to {} tokens, each of {} characterizing suffixes (decides the token language for every implementation with at most {} states)",
            acc.len(), k, w.len(), acc.len() + k - 1
        ),
        move |c| {
            let (s, p) = c.of(&acc).clone();
            let mut st = Some(s);
            let mut v = p;
            for _ in 0..k {
                let t = c.pick(al.len() + 1);
                if t == 0 {
                    break;
                }
                v.push(al[t - 1].clone());
                st = st.and_then(|s| step(s, &al[t - 1]));
            }
            c.state(&st);
            v.extend(c.of(&w).iter().cloned());
            let s = render(&v, v.len() % 2);
            c.label(s.clone());
            j(c, &s)
        },
    )
}

/// every token sequence up to length `n` with which a module can still continue, over an alphabet
/// with one type and one key; each is judged as it stands (most are incomplete)
pub fn viable(n: usize, j: Judge) -> Space {
    let al: Vec<T> = vec![
        T::Ident(String::new()), T::Open, T::Close, T::Edge, T::Dot, T::Nl, T::Semi, T::Erd,
        T::Ty(Ty::Text), T::Key(Key::Fk),
    ];
    space(
        "viable",
        &format!("every sequence of up to {} tokens that is a prefix of a module (one type, one key; at most 2 separators in a row)", n),
        move |c| {
            let mut v: Vec<T> = vec![];
            let mut s = S::Start;
            loop {
                let run = v.iter().rev().take_while(|t| matches!(t, T::Nl | T::Semi)).count();
                let nx: Vec<&T> = al
                    .iter()
                    .filter(|t| step(s, t).is_some() && !(run >= 2 && matches!(t, T::Nl | T::Semi)))
                    .collect();
                if v.len() == n {
                    break;
                }
                let k = c.pick(nx.len() + 1);
                if k == 0 {
                    break;
                }
                s = step(s, nx[k - 1]).unwrap();
                v.push(nx[k - 1].clone());
            }
            c.state(&(s, v.len()));
            let t = render(&v, v.len() % 2);
            c.label(t.clone());
            j(c, &t)
        },
    )
}

fn id(s: &str) -> T {
    T::Ident(s.into())
}
/// token sequences of typical modules, for edits
pub fn bases() -> Vec<Vec<T>> {
    let texts = [
        "erd {}",
        "erd G { a { } }",
        "erd\n{\n a { i int PK }\n\n b { j uuid; k text FK }\n a.i o--o b.k\n}\n",
        "erd G {\n a o--o b\n a { x timestamp }\n b.`y` o--o\n a.x; b { }; }",
        "\n;erd `int`\n;{ ;a\n{ x int\n;\ny text PK ; } \n; a\n\no--o\nb }\n;\n",
        "erd G {\n users { id int PK; created_at timestamp; name text; org uuid FK }\n orgs { id uuid PK; title text }\n posts { id int PK; author int FK }\n users.org o--o orgs.id\n posts.author o--o users.id\n}",
    ];
    texts
        .iter()
        .map(|t| {
            let l = reflang::lex(t);
            assert!(l.bad.is_none());
            l.toks.into_iter().map(|t| t.0).collect()
        })
        .collect()
}

/// up to `d` token edits anywhere in a typical module
pub fn edits(d: usize, j: Judge) -> Space {
    let bases = bases();
    let al: Vec<T> = reflang::alphabet()
        .into_iter()
        .map(|t| if let T::Ident(_) = t { id("z") } else { t })
        .collect();
    space(
        "edits",
        &format!("{} typical modules with up to {} token edits (delete, insert or replace by any token, exchange with the next, cut off) anywhere", bases.len(), d),
        move |c| {
            let b = c.of(&bases).clone();
            let n = al.len();
            let mut v: Vec<T> = vec![];
            let mut i = 0;
            let mut cut = false;
            while i < b.len() {
                // 0 keep, 1 delete, 2 swap, 3 cut here, 4.. insert before, 4+n.. replace
                match c.dev(4 + 2 * n) {
                    0 => v.push(b[i].clone()),
                    1 => {}
                    2 => {
                        if i + 1 < b.len() {
                            v.push(b[i + 1].clone());
                        }
                        v.push(b[i].clone());
                        i += 1;
                    }
                    3 => {
                        cut = true;
                        break;
                    }
                    k if k < 4 + n => {
                        v.push(al[k - 4].clone());
                        v.push(b[i].clone());
                    }
                    k => v.push(al[k - 4 - n].clone()),
                }
                i += 1;
            }
            if !cut {
                let k = c.dev(1 + n);
                if k > 0 {
                    v.push(al[k - 1].clone());
                }
            }
            let s = render(&v, v.len() % 2);
            c.label(s.clone());
            j(c, &s)
        },
    )
    .devs(d)
}

/// One character of every kind the lexer distinguishes, ordinary ones first.
pub const CHARS: [char; 22] = [
    'o', '-', '/', '`', '\\', ' ', '\n', '\r', '{', '}', ';', '.', '0', '_', 'u', '\t', 'é', '"', 'n',
    '#', '\u{0}', '\u{a0}',
];
/// Texts with a hole, for short character strings.
pub const HOLES: [(&str, &str); 9] = [
    ("", ""),
    ("erd ", "{ a o--o b }"),
    ("erd {", "a { }}"),
    ("erd{a{b", "int}}"),
    ("erd{a{b int", "FK}}"),
    ("erd{`a", "` o--o b}"),
    ("erd{a", "b}"),
    ("erd{a ", " b}"),
    ("erd{a o--o b}", ""),
];
pub fn strings(n: usize, holes: &'static [(&'static str, &'static str)], j: Judge) -> Space {
    space(
        &format!("chars{}x{}", n, holes.len()),
        &format!("every string of up to {} of {} characters in {} contexts", n, CHARS.len(), holes.len()),
        move |c| {
            let (a, b) = *c.of(holes);
            let mut s = String::new();
            for _ in 0..n {
                let k = c.pick(CHARS.len() + 1);
                if k == 0 {
                    break;
                }
                s.push(CHARS[k - 1]);
            }
            let s = format!("{}{}{}", a, s, b);
            c.label(s.clone());
            j(c, &s)
        },
    )
}

/// keywords and their near misses in every slot a word can stand in
pub fn words(j: Judge) -> Space {
    let mut ws: Vec<String> = vec!["o".into(), "oo".into(), "o_".into(), "_".into(), "__".into(), "_0".into(), "O".into(), "z9".into()];
    let extra: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['_', 'é', '-', '.', '`']).collect();
    for k in KEYWORDS {
        let cs: Vec<char> = k.chars().collect();
        let mut put = |v: Vec<char>| ws.push(v.into_iter().collect());
        put(cs.clone());
        for i in 0..=cs.len() {
            for x in &extra {
                let mut v = cs.clone();
                v.insert(i, *x);
                put(v);
            }
            if i < cs.len() {
                let mut v = cs.clone();
                v.remove(i);
                put(v);
                let mut v = cs.clone();
                v[i] = if v[i].is_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() };
                put(v);
                for x in &extra {
                    let mut v = cs.clone();
                    v[i] = *x;
                    put(v);
                }
            }
        }
        put(cs.iter().map(|c| c.to_ascii_uppercase()).collect());
        put(cs.iter().map(|c| c.to_ascii_lowercase()).collect());
        for k2 in KEYWORDS {
            put(cs.iter().copied().chain(k2.chars()).collect());
            put(cs.iter().copied().chain(['_']).chain(k2.chars()).collect());
        }
    }
    ws.sort();
    ws.dedup();
    let slots: Vec<(&'static str, &'static str)> = vec![
        ("", " G { a { x int PK } }"),
        ("erd ", " { a { x int PK } }"),
        ("erd ", "{a{x int PK}}"),
        ("erd { ", " { x int PK } }"),
        ("erd { ", "{ x int PK } }"),
        ("erd { a { ", " int PK } }"),
        ("erd { a { x ", " PK } }"),
        ("erd { a { x ", " } }"),
        ("erd { a { x ", "} }"),
        ("erd { a { x int ", " } }"),
        ("erd { a { x int ", "; y text } }"),
        ("erd { ", " o--o b }"),
        ("erd { a o--o ", " }"),
        ("erd { a o--o ", "}"),
        ("erd { a.", " o--o b }"),
        ("erd { ", ".x o--o b }"),
        ("erd { a o--o b.", "\n}"),
        ("erd { a { x int", " } }"),
        ("erd { `a` o--o`", "` }"),
    ];
    space(
        "words",
        &format!("{} words - every keyword and everything one edit away from one, pairs of keywords - in {} places", ws.len(), slots.len()),
        move |c| {
            let (a, b) = *c.of(&slots);
            let w = c.of(&ws);
            let s = format!("{}{}{}", a, w, b);
            c.label(s.clone());
            j(c, &s)
        },
    )
}

/// \uXXXX for every XXXX (in blocks), every short hexadecimal string, every escape letter
pub fn escapes(all: bool, j: Judge) -> Space {
    let step = if all { 1u32 } else { 1 };
    space(
        "escapes",
        "every \\u0000 to \\uFFFF, in upper and lower case; every two in a row from the edges of the surrogates; every character after a backslash up to U+024F; every string of up to 5 characters from {0,9,a,F,g,`,u,space} after \\u",
        move |c| {
            let _ = step;
            const EDGES: [&str; 12] = ["0000", "0041", "00E9", "d7ff", "D800", "D83D", "dbff", "DC00", "dE00", "DFFF", "e000", "FFFF"];
            let s = match c.pick(5) {
                4 => {
                    let (x, y) = (*c.of(&EDGES), *c.of(&EDGES));
                    let between = *c.of(&["", "", "a", "\\n", "\\\\", "`"]);
                    format!("erd {{ a {{ `\\u{}{}\\u{}` int }} }}", x, between, y)
                }
                k @ (0 | 1) => {
                    let hi = c.pick(256) as u32;
                    let lo = c.pick(256) as u32;
                    let v = hi * 256 + lo;
                    if k == 0 {
                        format!("erd`a\\u{:04x}b`{{}}", v)
                    } else {
                        format!("erd{{`\\u{:04X}`{{}}}}", v)
                    }
                }
                2 => {
                    let ch = char::from_u32(c.pick(0x250) as u32).unwrap();
                    format!("erd {{ a {{ `x\\{}y` int }} }}", ch)
                }
                _ => {
                    let al = ['0', '9', 'a', 'F', 'g', '`', 'u', ' '];
                    let mut t = String::new();
                    for _ in 0..5 {
                        let k = c.pick(al.len() + 1);
                        if k == 0 {
                            break;
                        }
                        t.push(al[k - 1]);
                    }
                    format!("erd {{ `\\u{}` o--o b }}", t)
                }
            };
            c.label(s.clone());
            j(c, &s)
        },
    )
}

/// bodies of quoted identifiers
pub fn quoted(n: usize, j: Judge) -> Space {
    let al = ['a', '\\', '`', 'n', 'u', '0', '"', '/', '\n', 'é', ' ', '{'];
    space(
        "quoted",
        &format!("every string of up to {} of {} characters between back quotes, as module, entity and field name", n, al.len()),
        move |c| {
            let k = c.pick(3);
            let mut t = String::new();
            for _ in 0..n {
                let k = c.pick(al.len() + 1);
                if k == 0 {
                    break;
                }
                t.push(al[k - 1]);
            }
            let s = match k {
                0 => format!("erd `{}` {{}}", t),
                1 => format!("erd {{ `{}` {{ x int }} }}", t),
                _ => format!("erd {{ a o--o b.`{}` }}", t),
            };
            c.label(s.clone());
            j(c, &s)
        },
    )
}

/// every Unicode character, alone in various places
pub fn every_char(max: u32, j: Judge) -> Space {
    space(
        "every-char",
        &format!("every Unicode character below U+{:04X} (and around every power of two above) bare in a name, as a name, as a separator, in quotes, in a comment and after the module", max),
        move |c| {
            const B: u32 = 256;
            let blocks = max / B;
            let hi = c.pick(blocks as usize + 1) as u32;
            let v = if hi < blocks {
                hi * B + c.pick(B as usize) as u32
            } else {
                // boundaries beyond `max`
                let k = c.pick(21) as u32;
                let d = c.pick(5) as i64 - 2;
                ((1i64 << k) + d).clamp(0, 0x10FFFF) as u32
            };
            let ch = match char::from_u32(v) {
                Some(ch) => ch,
                None => return Err(Bad::Skip),
            };
            let s = match c.pick(6) {
                0 => format!("erd a{} {{}}", ch),
                1 => format!("erd {{ {} {{}} }}", ch),
                2 => format!("erd {{ a {{ x{}int }} }}", ch),
                3 => format!("erd {{ `{}`.`x{}` o--o b }}", ch, ch),
                4 => format!("erd //{}\n{{}}// {}{}", ch, ch, ch),
                _ => format!("erd {{}} {}", ch),
            };
            c.label(s.clone());
            j(c, &s)
        },
    )
}

/// long lists and long words
pub fn sizes(max: usize, j: Judge) -> Space {
    space(
        "sizes",
        &format!("modules with n entities, n fields, n relations, n blank lines, n comments, words and quoted names of length n, n up to {}", max),
        move |c| {
            let ns = [0usize, 1, 2, 3, 7, 31, 100, 256, 1000, 4000];
            let ns: Vec<usize> = ns.iter().copied().filter(|n| *n <= max).collect();
            let n = *c.of(&ns);
            let rep = |f: &dyn Fn(usize) -> String, sep: &str| -> String {
                (0..n).map(f).collect::<Vec<_>>().join(sep)
            };
            let s = match c.pick(12) {
                0 => format!("erd {{ {} }}", rep(&|i| format!("e{} {{ x int }}", i), ";")),
                1 => format!("erd {{ a {{ {} }} }}", rep(&|i| format!("f{} text PK", i), "\n")),
                2 => format!("erd {{ {} }}", rep(&|i| format!("a.b o--o c{}", i), "\n")),
                3 => format!("erd {}{{{}}}{}", "\n".repeat(n), ";".repeat(n), "\r\n".repeat(n)),
                4 => format!("erd {{{}\n}}", "\n//x".repeat(n)),
                5 => format!("erd a{} {{}}", "b".repeat(n)),
                6 => format!("erd `a{}` {{}}", "\\u0041".repeat(n)),
                7 => format!("erd {}{{}}", " ".repeat(n)),
                8 => format!("erd {}", "{".repeat(n)),
                9 => format!("erd {{ {} }}", rep(&|_| "a {}".into(), " ")),
                10 => format!("{}", "}".repeat(n)),
                _ => format!("erd {{ {}", "a { ".repeat(n)),
            };
            c.label(if s.len() > 300 { format!("{}... ({} characters)", s.chars().take(200).collect::<String>(), s.chars().count()) } else { s.clone() });
            j(c, &s)
        },
    )
}

/// names of every length, of characters of one to four bytes, in every place of a name
pub fn long_names(j: Judge) -> Space {
    space(
        "long-names",
        "names of 1 to 70, 100, 127 to 129, 255 to 257, 1000 and 5000 characters of 1 to 4 bytes behind 0 to 3 letters, as the name of a module, an entity, a field, and the parts of a relation",
        move |c| {
            let mut ns: Vec<usize> = (1..=70).collect();
            ns.extend([100, 127, 128, 129, 255, 256, 257, 1000, 5000]);
            let n = *c.of(&ns);
            let ch = *c.of(&['a', 'Z', 'é', '名', '😀']);
            let name = format!("{}{}", &"xyz"[..c.pick(4)], ch.to_string().repeat(n));
            let w = ident_src(&name);
            let s = match c.pick(5) {
                0 => format!("erd {} {{ a {{ x int }} }}", w),
                1 => format!("erd {{ {} {{ x int }} }}", w),
                2 => format!("erd {{ a {{ y text PK\n{} int FK; z uuid }} }}", w),
                3 => format!("erd {{ {} {{ x int }} b {{ }}\n {}.x o--o b }}", w, w).replace("} b", "}; b"),
                _ => format!("erd {{ a {{ {} int }}\n b {{ }}\n b o--o a.{} }}", w, w),
            };
            c.label(format!("{} characters {} behind {:?}: {}", n, ch, name.trim_end_matches(ch), s.chars().take(60).collect::<String>()));
            j(c, &s)
        },
    )
}

/// an error far from the beginning of the text
pub fn far(j: Judge) -> Space {
    space(
        "far",
        "8 kinds of errors behind 0 to 20000 blanks, blank lines, comments with characters of several bytes, or entities",
        move |c| {
            let n = *c.of(&[0usize, 1, 2, 5, 9, 10, 11, 60, 99, 100, 127, 128, 254, 255, 256, 257, 1000, 4095, 4096, 20000]);
            let kind = c.pick(6);
            let (outer, inner) = match kind {
                0 => ("\n".repeat(n), String::new()),
                1 => (" ".repeat(n), String::new()),
                2 => (format!("//{}\n", "é".repeat(n)), String::new()),
                3 if n <= 1000 => (String::new(), "// 名\r\n".repeat(n)),
                4 if n <= 257 => (String::new(), (0..n).map(|i| format!("e{} {{ x int; `é` text FK }}\n", i)).collect()),
                5 if n <= 257 => (String::new(), format!("e {{ {} }};", (0..n).map(|i| format!("f{} int", i)).collect::<Vec<_>>().join(";"))),
                _ => return Err(Bad::Skip),
            };
            let (a, b) = *c.of(&[
                ("erd {", "a { x } }"), ("erd {", "a o--o"), ("erd {", "a { x # int } }"), ("erd ", "}"), ("erd {", "} b { }"),
                ("erd {", ""), ("", ""), ("erd é {", "}"),
            ]);
            let s = format!("{}{}{}{}", outer, a, inner, b);
            c.label(if s.len() > 200 { format!("kind {}, {} repetitions, {:?} .. {:?}", kind, n, a, b) } else { s.clone() });
            j(c, &s)
        },
    )
}
