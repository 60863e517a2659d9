//! The diagram as the harness knows it: what a source text *means*, independent of the
//! implementation's types.
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty {
    Int,
    Uuid,
    Text,
    Timestamp,
}
pub const TYS: [Ty; 4] = [Ty::Int, Ty::Uuid, Ty::Text, Ty::Timestamp];
impl Ty {
    pub fn kw(self) -> &'static str {
        match self {
            Ty::Int => "int",
            Ty::Uuid => "uuid",
            Ty::Text => "text",
            Ty::Timestamp => "timestamp",
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Key {
    Pk,
    Fk,
}
pub const KEYS: [Option<Key>; 3] = [None, Some(Key::Pk), Some(Key::Fk)];
impl Key {
    pub fn kw(self) -> &'static str {
        match self {
            Key::Pk => "PK",
            Key::Fk => "FK",
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub key: Option<Key>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Path {
    pub entity: String,
    pub field: Option<String>,
}
/// A field part that stands for the header row of a table. Source texts cannot name it, documents
/// built through the library can.
pub const HEADER: &str = "\u{0}header";
/// its row number
pub const HEADER_ROW: usize = usize::MAX;
impl Path {
    pub fn e(s: &str) -> Path {
        Path { entity: s.into(), field: None }
    }
    pub fn f(s: &str, f: &str) -> Path {
        Path { entity: s.into(), field: Some(f.into()) }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Entry {
    Entity { name: String, fields: Vec<Field> },
    Rel { a: Path, b: Path },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Doc {
    pub name: Option<String>,
    pub entries: Vec<Entry>,
}

pub const KEYWORDS: [&str; 7] = ["erd", "int", "uuid", "text", "timestamp", "PK", "FK"];

pub fn is_plain(s: &str) -> bool {
    let mut it = s.chars();
    let ok = match it.next() {
        Some(c) => c == '_' || c.is_ascii_alphabetic(),
        None => false,
    };
    ok && it.all(|c| c == '_' || c.is_ascii_alphanumeric()) && !KEYWORDS.contains(&s)
}
/// The identifier as it has to be written in a source text.
pub fn ident_src(s: &str) -> String {
    if is_plain(s) {
        return s.to_string();
    }
    let mut o = String::from("`");
    for c in s.chars() {
        match c {
            '`' => o.push_str("\\`"),
            '\\' => o.push_str("\\\\"),
            c => o.push(c),
        }
    }
    o.push('`');
    o
}
impl Path {
    pub fn src(&self) -> String {
        match &self.field {
            None => ident_src(&self.entity),
            Some(f) if f == HEADER => format!("{}.(header row)", ident_src(&self.entity)),
            Some(f) => format!("{}.{}", ident_src(&self.entity), ident_src(f)),
        }
    }
}
impl Field {
    pub fn src(&self) -> String {
        let mut s = format!("{} {}", ident_src(&self.name), self.ty.kw());
        if let Some(k) = self.key {
            write!(s, " {}", k.kw()).unwrap();
        }
        s
    }
}
impl Entry {
    pub fn src(&self) -> String {
        match self {
            Entry::Entity { name, fields } => {
                let f: Vec<_> = fields.iter().map(|f| f.src()).collect();
                format!("{} {{ {} }}", ident_src(name), f.join("; "))
            }
            Entry::Rel { a, b } => format!("{} o--o {}", a.src(), b.src()),
        }
    }
}
impl Doc {
    pub fn src(&self) -> String {
        let mut s = String::from("erd ");
        if let Some(n) = &self.name {
            write!(s, "{} ", ident_src(n)).unwrap();
        }
        s.push_str("{\n");
        for e in &self.entries {
            s.push_str("  ");
            s.push_str(&e.src());
            s.push('\n');
        }
        s.push_str("}\n");
        s
    }
    pub fn tables(&self) -> Vec<(&str, &[Field])> {
        self.entries
            .iter()
            .filter_map(|e| match e {
                Entry::Entity { name, fields } => Some((name.as_str(), fields.as_slice())),
                _ => None,
            })
            .collect()
    }
    pub fn rels(&self) -> Vec<(&Path, &Path)> {
        self.entries
            .iter()
            .filter_map(|e| match e {
                Entry::Rel { a, b } => Some((a, b)),
                _ => None,
            })
            .collect()
    }
    /// (table index, row index; row 0 is the whole table, row i is its i-th field) of a path.
    pub fn resolve(&self, p: &Path) -> Option<(usize, usize)> {
        let ts = self.tables();
        let t = ts.iter().position(|t| t.0 == p.entity)?;
        match &p.field {
            None => Some((t, 0)),
            Some(f) if f == HEADER => Some((t, HEADER_ROW)),
            Some(f) => ts[t].1.iter().position(|x| &x.name == f).map(|i| (t, i + 1)),
        }
    }
}
pub fn tname(i: usize) -> String {
    format!("t{}", i)
}
pub fn fname(i: usize) -> String {
    format!("f{}", i)
}
/// A table with `n` fields named f0..; types and keys cycle so that rows differ.
pub fn table(i: usize, n: usize) -> Entry {
    Entry::Entity {
        name: tname(i),
        fields: (0..n)
            .map(|j| Field { name: fname(j), ty: TYS[(i + j) % 4], key: KEYS[(i + 2 * j) % 3] })
            .collect(),
    }
}
