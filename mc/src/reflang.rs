//! Reference of the source language: a hand-written lexer and a deterministic automaton over
//! tokens, both independent of the implementation's combinators.
//!
//! Language (from the grammar in the documentation; `;` stands wherever a line break may):
//!   program  = PAD "erd" PAD [ ident PAD ] "{" PAD [ entry { SEP PAD entry } ] PAD "}" PAD
//!   entry    = ident PAD "{" PAD [ field { SEP PAD field } ] PAD "}"  |  path PAD edge PAD path
//!   field    = ident type [ key ]          path = ident [ "." ident ]
use crate::model::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Erd,
    Ident(String),
    Ty(Ty),
    Key(Key),
    Open,
    Close,
    Semi,
    Dot,
    Nl,
    Edge,
}
#[derive(Clone, Debug)]
pub struct Lexed {
    /// token, start, end (in characters)
    pub toks: Vec<(T, usize, usize)>,
    /// The first stretch that is not a token: (its first character, the furthest character a
    /// reader can get to before it must know).
    pub bad: Option<(usize, usize)>,
    pub len: usize,
}

pub fn word(w: &str) -> T {
    match w {
        "erd" => T::Erd,
        "int" => T::Ty(Ty::Int),
        "uuid" => T::Ty(Ty::Uuid),
        "text" => T::Ty(Ty::Text),
        "timestamp" => T::Ty(Ty::Timestamp),
        "PK" => T::Key(Key::Pk),
        "FK" => T::Key(Key::Fk),
        w => T::Ident(w.to_string()),
    }
}

pub fn lex(src: &str) -> Lexed {
    let s: Vec<char> = src.chars().collect();
    let n = s.len();
    let at = |i: usize| -> Option<char> { s.get(i).copied() };
    let mut i = 0;
    let mut toks = vec![];
    macro_rules! bad {
        ($a:expr, $b:expr) => {
            return Lexed { toks, bad: Some(($a, $b)), len: n }
        };
    }
    while i < n {
        let c = s[i];
        if c == ' ' || c == '\t' {
            i += 1;
            continue;
        }
        if c == '/' {
            if at(i + 1) == Some('/') {
                while i < n && s[i] != '\n' {
                    i += 1;
                }
                continue;
            }
            bad!(i, i + 1);
        }
        let st = i;
        let t = if c == 'o' && at(i + 1) == Some('-') && at(i + 2) == Some('-') && at(i + 3) == Some('o') {
            i += 4;
            T::Edge
        } else if c == '_' || c.is_ascii_alphabetic() {
            while i < n && (s[i] == '_' || s[i].is_ascii_alphanumeric()) {
                i += 1;
            }
            let w: String = s[st..i].iter().collect();
            // "o-", "o--": the word `o` is followed by something that is no token
            word(&w)
        } else if c == '`' {
            i += 1;
            let mut name = String::new();
            loop {
                match at(i) {
                    None => bad!(st, n),
                    Some('`') => {
                        i += 1;
                        break;
                    }
                    Some('\\') => {
                        i += 1;
                        let e = match at(i) {
                            None => bad!(st, n),
                            Some(e) => e,
                        };
                        match e {
                            '\\' | '/' | '"' | '`' => name.push(e),
                            'b' => name.push('\u{8}'),
                            'f' => name.push('\u{c}'),
                            'n' => name.push('\n'),
                            'r' => name.push('\r'),
                            't' => name.push('\t'),
                            'u' => {
                                let mut v = 0;
                                for k in 1..=4 {
                                    match at(i + k).and_then(|h| h.to_digit(16)) {
                                        Some(h) => v = v * 16 + h,
                                        None => bad!(st, (i + k).min(n)),
                                    }
                                }
                                match char::from_u32(v) {
                                    Some(c) => name.push(c),
                                    None => bad!(st, i + 5),
                                }
                                i += 4;
                            }
                            _ => bad!(st, i),
                        }
                        i += 1;
                    }
                    Some(c) => {
                        name.push(c);
                        i += 1;
                    }
                }
            }
            T::Ident(name)
        } else if c == '\n' {
            i += 1;
            T::Nl
        } else if c == '\r' && at(i + 1) == Some('\n') {
            i += 2;
            T::Nl
        } else {
            i += 1;
            match c {
                '{' => T::Open,
                '}' => T::Close,
                ';' => T::Semi,
                '.' => T::Dot,
                '\r' => bad!(st, st + 1),
                // `o-` and `o--` begin like `o--o`
                '-' if matches!(toks.last(), Some((T::Ident(w), a, e)) if w == "o" && *a + 1 == st && *e == st) => {
                    let two = at(st + 1) == Some('-');
                    bad!(st, if two { st + 2 } else { st + 1 })
                }
                _ => bad!(st, st),
            }
        };
        toks.push((t, st, i));
    }
    Lexed { toks, bad: None, len: n }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum S {
    Start,
    Erd,
    Name,
    Mod,
    Id,
    IdPad,
    Dot1,
    Path1,
    Edge,
    Id2,
    Dot2,
    Done,
    Ent,
    Fld,
    FldTy,
    FldKey,
    End,
}
pub const STATES: [S; 17] = [
    S::Start, S::Erd, S::Name, S::Mod, S::Id, S::IdPad, S::Dot1, S::Path1, S::Edge, S::Id2,
    S::Dot2, S::Done, S::Ent, S::Fld, S::FldTy, S::FldKey, S::End,
];

/// `None`: no module can continue like this.
pub fn step(s: S, t: &T) -> Option<S> {
    use S::*;
    let sep = matches!(t, T::Nl | T::Semi);
    Some(match (s, t) {
        (Start, T::Erd) => Erd,
        (Start, _) if sep => Start,
        (Erd, T::Ident(_)) => Name,
        (Erd | Name, T::Open) => Mod,
        (Erd, _) if sep => Erd,
        (Name, _) if sep => Name,
        (Mod, T::Ident(_)) => Id,
        (Mod, _) if sep => Mod,
        (Mod | Id2 | Done, T::Close) => End,
        (Id, T::Dot) => Dot1,
        (Id | IdPad, T::Open) => Ent,
        (Id | IdPad, T::Edge) => Edge,
        (Id | IdPad, _) if sep => IdPad,
        (Dot1, T::Ident(_)) => Path1,
        (Path1, T::Edge) => Edge,
        (Path1, _) if sep => Path1,
        (Edge, T::Ident(_)) => Id2,
        (Edge, _) if sep => Edge,
        (Id2, T::Dot) => Dot2,
        (Dot2, T::Ident(_)) => Done,
        (Id2 | Done, _) if sep => Mod,
        (Ent, T::Ident(_)) => Fld,
        (Ent, _) if sep => Ent,
        (Ent | FldTy | FldKey, T::Close) => Done,
        (Fld, T::Ty(_)) => FldTy,
        (FldTy, T::Key(_)) => FldKey,
        (FldTy | FldKey, _) if sep => Ent,
        (End, _) if sep => End,
        _ => return None,
    })
}

#[derive(Clone, Debug)]
pub enum Verdict {
    /// accepted, with its meaning
    Yes(Doc),
    /// not a sequence of tokens: (first character, furthest character) of the first bad stretch
    NotTokens(usize, usize),
    /// start of the first token with which no module can continue; the length of the text if it
    /// is only incomplete
    NotAModule(usize),
}

pub fn judge(src: &str) -> Verdict {
    let l = lex(src);
    if let Some((a, b)) = l.bad {
        return Verdict::NotTokens(a, b);
    }
    let mut s = S::Start;
    for (t, a, _) in &l.toks {
        match step(s, t) {
            Some(n) => s = n,
            None => return Verdict::NotAModule(*a),
        }
    }
    if s != S::End {
        return Verdict::NotAModule(l.len);
    }
    Verdict::Yes(meaning(l.toks.into_iter().map(|t| t.0).filter(|t| !matches!(t, T::Nl | T::Semi))))
}

/// The module an accepted token sequence (without separators) denotes.
fn meaning(toks: impl Iterator<Item = T>) -> Doc {
    let mut it = toks.peekable();
    let id = |t: Option<T>| -> String {
        match t {
            Some(T::Ident(s)) => s,
            t => panic!("harness: reference parser met {:?}", t),
        }
    };
    let mut d = Doc::default();
    assert_eq!(it.next(), Some(T::Erd));
    if let Some(T::Ident(_)) = it.peek() {
        d.name = Some(id(it.next()));
    }
    assert_eq!(it.next(), Some(T::Open));
    while it.peek() != Some(&T::Close) {
        let a = id(it.next());
        if it.peek() == Some(&T::Open) {
            it.next();
            let mut fields = vec![];
            while it.peek() != Some(&T::Close) {
                let name = id(it.next());
                let ty = match it.next() {
                    Some(T::Ty(t)) => t,
                    t => panic!("harness: reference parser met {:?}", t),
                };
                let key = match it.peek() {
                    Some(T::Key(k)) => {
                        let k = *k;
                        it.next();
                        Some(k)
                    }
                    _ => None,
                };
                fields.push(Field { name, ty, key });
            }
            it.next();
            d.entries.push(Entry::Entity { name: a, fields });
        } else {
            let mut path = |e: String| -> Path {
                if it.peek() == Some(&T::Dot) {
                    it.next();
                    Path { entity: e, field: Some(id(it.next())) }
                } else {
                    Path { entity: e, field: None }
                }
            };
            let a = path(a);
            assert_eq!(it.next(), Some(T::Edge));
            let b = id(it.next());
            let mut path = |e: String| -> Path {
                if it.peek() == Some(&T::Dot) {
                    it.next();
                    Path { entity: e, field: Some(id(it.next())) }
                } else {
                    Path { entity: e, field: None }
                }
            };
            let b = path(b);
            d.entries.push(Entry::Rel { a, b });
        }
    }
    d
}

// ---- conformance suite -------------------------------------------------------------------------

/// One representative of every token the language has.
pub fn alphabet() -> Vec<T> {
    vec![
        T::Nl, T::Ident(String::new()), T::Open, T::Close, T::Edge, T::Dot, T::Semi, T::Erd,
        T::Ty(Ty::Int), T::Key(Key::Pk), T::Ty(Ty::Uuid), T::Ty(Ty::Text), T::Ty(Ty::Timestamp),
        T::Key(Key::Fk),
    ]
}
/// A shortest token sequence that leads to each state.
pub fn access() -> Vec<(S, Vec<T>)> {
    let al = alphabet();
    let mut seen: Vec<(S, Vec<T>)> = vec![(S::Start, vec![])];
    let mut i = 0;
    while i < seen.len() {
        let (s, p) = seen[i].clone();
        for t in &al {
            if let Some(n) = step(s, t) {
                if !seen.iter().any(|x| x.0 == n) {
                    let mut q = p.clone();
                    q.push(t.clone());
                    seen.push((n, q));
                }
            }
        }
        i += 1;
    }
    assert_eq!(seen.len(), STATES.len(), "harness: unreachable reference state");
    seen
}
fn run(s: Option<S>, w: &[T]) -> bool {
    let mut s = s;
    for t in w {
        s = s.and_then(|s| step(s, t));
    }
    s == Some(S::End)
}
/// A set of token sequences that tells any two states (and the dead state) apart by acceptance,
/// or `Err` with a pair the language cannot tell apart.
pub fn characterizing() -> Vec<Vec<T>> {
    let al = alphabet();
    let all: Vec<Option<S>> = STATES.iter().map(|s| Some(*s)).chain([None]).collect();
    // candidate suffixes by length
    let mut w: Vec<Vec<T>> = vec![vec![]];
    let mut frontier: Vec<Vec<T>> = vec![vec![]];
    let sig = |w: &[Vec<T>], s: Option<S>| -> Vec<bool> { w.iter().map(|x| run(s, x)).collect() };
    let classes = |w: &[Vec<T>]| -> usize {
        let mut v: Vec<Vec<bool>> = all.iter().map(|s| sig(w, *s)).collect();
        v.sort();
        v.dedup();
        v.len()
    };
    for _ in 0..6 {
        if classes(&w) == all.len() {
            break;
        }
        let mut next = vec![];
        for f in &frontier {
            for t in &al {
                let mut q = f.clone();
                q.push(t.clone());
                // keep only suffixes some state accepts or could accept
                if STATES.iter().any(|s| {
                    let mut x = Some(*s);
                    for t in &q {
                        x = x.and_then(|x| step(x, t));
                    }
                    x.is_some()
                }) {
                    let before = classes(&w);
                    let mut w2 = w.clone();
                    w2.push(q.clone());
                    if classes(&w2) > before {
                        w = w2;
                    }
                    next.push(q);
                }
            }
        }
        frontier = next;
    }
    w
}
/// Pairs of states the language cannot tell apart.
pub fn equivalent_states(w: &[Vec<T>]) -> usize {
    let mut v: Vec<Vec<bool>> =
        STATES.iter().map(|s| w.iter().map(|x| run(Some(*s), x)).collect()).collect();
    v.push(w.iter().map(|_| false).collect());
    let n = v.len();
    v.sort();
    v.dedup();
    n - v.len()
}
