//! A strict reader for the XML subset an SVG file may use, and the drawing ("scene") in it.
//! Anything that is not well-formed XML 1.0 is an error: this is the oracle for "an SVG viewer can
//! open the file".
use std::collections::HashSet;

#[derive(Clone, Debug, Default)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}
#[derive(Clone, Debug)]
pub enum Node {
    El(El),
    Text(String),
}
impl El {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == n).map(|a| a.1.as_str())
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| match k {
            Node::El(e) => Some(e),
            _ => None,
        })
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Node::Text(t) => s.push_str(t),
                Node::El(e) => s.push_str(&e.text()),
            }
        }
        s
    }
    pub fn num(&self, n: &str) -> Result<f64, String> {
        let v = self.attr(n).ok_or_else(|| format!("<{}> has no attribute {}", self.name, n))?;
        num(v).ok_or_else(|| format!("<{}> attribute {}={:?} is not a finite number", self.name, n, v))
    }
}
pub fn num(s: &str) -> Option<f64> {
    let ok = !s.is_empty() && s.chars().all(|c| c.is_ascii_digit() || "+-.eE".contains(c));
    if !ok {
        return None;
    }
    s.parse::<f64>().ok().filter(|x| x.is_finite())
}

/// XML 1.0 Char production.
pub fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
fn name_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || c == ':'
}
fn name_char(c: char) -> bool {
    name_start(c) || c.is_ascii_digit() || c == '-' || c == '.'
}

struct P<'a> {
    s: &'a [char],
    i: usize,
}
impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> Result<T, String> {
        let a = self.i.saturating_sub(12);
        let b = (self.i + 12).min(self.s.len());
        let ctx: String = self.s[a..b].iter().collect();
        Err(format!("not well-formed XML at char {}: {} (near {:?})", self.i, m, ctx))
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn lit(&mut self, l: &str) -> bool {
        let k = l.chars().count();
        if self.i + k <= self.s.len() && l.chars().enumerate().all(|(j, c)| self.s[self.i + j] == c) {
            self.i += k;
            true
        } else {
            false
        }
    }
    fn ws(&mut self) -> bool {
        let st = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
        self.i > st
    }
    fn name(&mut self) -> Result<String, String> {
        let st = self.i;
        match self.peek() {
            Some(c) if name_start(c) => self.i += 1,
            _ => return self.err("expected a name"),
        }
        while matches!(self.peek(), Some(c) if name_char(c)) {
            self.i += 1;
        }
        Ok(self.s[st..self.i].iter().collect())
    }
    fn reference(&mut self) -> Result<char, String> {
        // at '&'
        self.i += 1;
        if self.lit("#") {
            let hex = self.lit("x");
            let st = self.i;
            while matches!(self.peek(), Some(c) if c.is_digit(if hex { 16 } else { 10 })) {
                self.i += 1;
            }
            let d: String = self.s[st..self.i].iter().collect();
            if !self.lit(";") {
                return self.err("unterminated character reference");
            }
            let v = u32::from_str_radix(&d, if hex { 16 } else { 10 }).ok();
            match v.and_then(char::from_u32) {
                Some(c) if xml_char(c) => Ok(c),
                _ => self.err("character reference to a character XML does not allow"),
            }
        } else {
            for (n, c) in [("lt;", '<'), ("gt;", '>'), ("amp;", '&'), ("quot;", '"'), ("apos;", '\'')] {
                if self.lit(n) {
                    return Ok(c);
                }
            }
            self.err("undefined or malformed entity reference")
        }
    }
    fn element(&mut self, depth: usize) -> Result<El, String> {
        if depth > 64 {
            return self.err("nesting too deep");
        }
        if !self.lit("<") {
            return self.err("expected an element");
        }
        let mut el = El { name: self.name()?, ..Default::default() };
        let mut seen = HashSet::new();
        loop {
            let sp = self.ws();
            if self.lit("/>") {
                return Ok(el);
            }
            if self.lit(">") {
                break;
            }
            if !sp {
                return self.err("expected white space before an attribute");
            }
            let n = self.name()?;
            self.ws();
            if !self.lit("=") {
                return self.err("expected =");
            }
            self.ws();
            let q = match self.peek() {
                Some(c @ ('"' | '\'')) => c,
                _ => return self.err("expected a quoted attribute value"),
            };
            self.i += 1;
            let mut v = String::new();
            loop {
                match self.peek() {
                    None => return self.err("unterminated attribute value"),
                    Some(c) if c == q => {
                        self.i += 1;
                        break;
                    }
                    Some('<') => return self.err("'<' in an attribute value"),
                    Some('&') => v.push(self.reference()?),
                    Some(c) if !xml_char(c) => return self.err("character XML does not allow"),
                    Some(c) => {
                        v.push(c);
                        self.i += 1;
                    }
                }
            }
            if !seen.insert(n.clone()) {
                return self.err("attribute given twice");
            }
            el.attrs.push((n, v));
        }
        let mut t = String::new();
        loop {
            if self.lit("</") {
                let n = self.name()?;
                if n != el.name {
                    return self.err("end tag does not match");
                }
                self.ws();
                if !self.lit(">") {
                    return self.err("expected >");
                }
                if !t.is_empty() {
                    el.kids.push(Node::Text(t));
                }
                return Ok(el);
            }
            if self.lit("<!--") {
                let mut closed = false;
                while self.i < self.s.len() {
                    if self.lit("--") {
                        closed = self.lit(">");
                        break;
                    }
                    if !xml_char(self.s[self.i]) {
                        return self.err("character XML does not allow");
                    }
                    self.i += 1;
                }
                if !closed {
                    return self.err("malformed comment");
                }
                continue;
            }
            match self.peek() {
                None => return self.err("unexpected end of file"),
                Some('<') => {
                    if !t.is_empty() {
                        el.kids.push(Node::Text(std::mem::take(&mut t)));
                    }
                    let k = self.element(depth + 1)?;
                    el.kids.push(Node::El(k));
                }
                Some('&') => t.push(self.reference()?),
                Some(c) => {
                    if !xml_char(c) {
                        return self.err("character XML does not allow");
                    }
                    if c == ']' && self.lit("]]>") {
                        return self.err("']]>' in character data");
                    }
                    t.push(c);
                    self.i += 1;
                }
            }
        }
    }
}

pub fn parse_xml(s: &str) -> Result<El, String> {
    // XML 1.0 section 2.11: literal line ends are normalized before anything else
    let norm;
    let s = if s.contains('\r') {
        norm = s.replace("\r\n", "\n").replace('\r', "\n");
        norm.as_str()
    } else {
        s
    };
    let cs: Vec<char> = s.chars().collect();
    let mut p = P { s: &cs, i: 0 };
    p.ws();
    if p.lit("<?xml") {
        while !p.lit("?>") {
            if p.i >= cs.len() {
                return p.err("unterminated XML declaration");
            }
            p.i += 1;
        }
        p.ws();
    }
    let e = p.element(0)?;
    p.ws();
    if p.i != cs.len() {
        return p.err("content after the root element");
    }
    if e.name != "svg" {
        return Err(format!("root element is <{}>, not <svg>", e.name));
    }
    Ok(e)
}

// ------------------------------------------------------------------------------------------------

pub type Pt = (f64, f64);

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Rc {
    pub x: f64,
    pub y: f64,
    pub w: f64,
    pub h: f64,
}
impl Rc {
    pub fn r(&self) -> f64 {
        self.x + self.w
    }
    pub fn b(&self) -> f64 {
        self.y + self.h
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Txt {
    pub x: f64,
    pub y: f64,
    pub s: String,
    pub fill: Option<String>,
    pub anchor: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Circ {
    pub c: Pt,
    pub r: f64,
    pub fill: Option<String>,
    pub stroke: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    M(Pt),
    L(Pt),
    Q(Pt, Pt),
}
#[derive(Clone, Debug)]
pub struct Table {
    pub rect: Rc,
    pub fill: Option<String>,
    pub stroke: Option<String>,
    /// clipped row backgrounds: (rect, fill, clip rect)
    pub bands: Vec<(Rc, Option<String>, Rc)>,
    pub lines: Vec<(Pt, Pt)>,
    pub texts: Vec<Txt>,
    pub badges: Vec<Circ>,
}
#[derive(Clone, Debug)]
pub struct Edge {
    pub cmds: Vec<Cmd>,
    pub ends: Vec<Circ>,
}
#[derive(Clone, Debug)]
pub struct Scene {
    pub view_box: Option<Rc>,
    pub tables: Vec<Table>,
    pub edges: Vec<Edge>,
}

fn rect_of(e: &El) -> Result<Rc, String> {
    Ok(Rc { x: e.num("x")?, y: e.num("y")?, w: e.num("width")?, h: e.num("height")? })
}

pub fn parse_path(d: &str) -> Result<Vec<Cmd>, String> {
    // tokens: command letters and numbers, separated by blanks or commas
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    for c in d.chars() {
        if c.is_ascii_alphabetic() && c != 'e' && c != 'E' {
            if !cur.is_empty() {
                toks.push(std::mem::take(&mut cur));
            }
            toks.push(c.to_string());
        } else if c == ' ' || c == ',' || c == '\n' || c == '\t' {
            if !cur.is_empty() {
                toks.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        toks.push(cur);
    }
    let mut i = 0;
    let mut out: Vec<Cmd> = vec![];
    let n = |i: &mut usize| -> Result<f64, String> {
        let t = toks.get(*i).ok_or_else(|| format!("path data {:?} ends early", d))?;
        *i += 1;
        num(t).ok_or_else(|| format!("path data {:?}: bad number {:?}", d, t))
    };
    let mut at: Pt = (0.0, 0.0);
    while i < toks.len() {
        let c = toks[i].clone();
        i += 1;
        let cmd = match c.as_str() {
            "M" => Cmd::M((n(&mut i)?, n(&mut i)?)),
            "L" => Cmd::L((n(&mut i)?, n(&mut i)?)),
            "H" => Cmd::L((n(&mut i)?, at.1)),
            "V" => Cmd::L((at.0, n(&mut i)?)),
            "Q" => Cmd::Q((n(&mut i)?, n(&mut i)?), (n(&mut i)?, n(&mut i)?)),
            _ => return Err(format!("path data {:?}: unexpected {:?}", d, c)),
        };
        at = match &cmd {
            Cmd::M(p) | Cmd::L(p) | Cmd::Q(_, p) => *p,
        };
        out.push(cmd);
    }
    if !matches!(out.first(), Some(Cmd::M(_))) {
        return Err(format!("path data {:?} does not start with M", d));
    }
    if out.iter().skip(1).any(|c| matches!(c, Cmd::M(_))) {
        return Err(format!("path data {:?} is broken into several pieces", d));
    }
    Ok(out)
}
impl Edge {
    /// The polyline whose corners were rounded: endpoints, line points and curve control points.
    /// A line point from which the next curve starts is the begin of the rounding, not a corner.
    pub fn polyline(&self) -> Vec<Pt> {
        let mut v: Vec<Pt> = vec![];
        for (i, c) in self.cmds.iter().enumerate() {
            match c {
                Cmd::M(p) => v.push(*p),
                Cmd::L(p) => {
                    if !matches!(self.cmds.get(i + 1), Some(Cmd::Q(..))) {
                        v.push(*p)
                    }
                }
                Cmd::Q(c, p) => {
                    v.push(*c);
                    if i + 1 == self.cmds.len() {
                        v.push(*p)
                    }
                }
            }
        }
        v
    }
    /// Every point the pen visits, with curves kept as their three points.
    pub fn start(&self) -> Pt {
        match self.cmds[0] {
            Cmd::M(p) | Cmd::L(p) | Cmd::Q(_, p) => p,
        }
    }
    pub fn end(&self) -> Pt {
        match *self.cmds.last().unwrap() {
            Cmd::M(p) | Cmd::L(p) | Cmd::Q(_, p) => p,
        }
    }
}

/// Reads the drawing. Errors are things no reader of the file could make sense of.
pub fn scene(svg: &str) -> Result<Scene, String> {
    let root = parse_xml(svg)?;
    let view_box = match root.attr("viewBox") {
        None => None,
        Some(v) => {
            let n: Vec<Option<f64>> =
                v.split([',', ' ']).filter(|s| !s.is_empty()).map(num).collect();
            if n.len() != 4 || n.iter().any(|x| x.is_none()) {
                return Err(format!("viewBox {:?} is not four numbers", v));
            }
            Some(Rc { x: n[0].unwrap(), y: n[1].unwrap(), w: n[2].unwrap(), h: n[3].unwrap() })
        }
    };
    let mut clips: Vec<(String, Rc)> = vec![];
    let mut sc = Scene { view_box, tables: vec![], edges: vec![] };
    for d in root.els().filter(|e| e.name == "defs") {
        for c in d.els().filter(|e| e.name == "clipPath") {
            let id = c.attr("id").ok_or("clipPath without id")?.to_string();
            if clips.iter().any(|x| x.0 == id) {
                return Err(format!("two clip paths share the id {:?}", id));
            }
            let r = c.els().find(|e| e.name == "rect").ok_or("clipPath without rect")?;
            clips.push((id, rect_of(r)?));
        }
    }
    for e in root.els() {
        match e.name.as_str() {
            "defs" => {}
            "rect" => {
                if e.attr("width") == Some("100%") {
                    continue; // backdrop
                }
                let r = rect_of(e)?;
                if let Some(cp) = e.attr("clip-path") {
                    let id = cp.strip_prefix("url(#").and_then(|s| s.strip_suffix(')')).unwrap_or(cp);
                    let clip = clips
                        .iter()
                        .find(|c| c.0 == id)
                        .ok_or_else(|| format!("clip path {:?} is not defined", cp))?
                        .1;
                    let t = sc.tables.last_mut().ok_or("row background before any table")?;
                    t.bands.push((r, e.attr("fill").map(|s| s.into()), clip));
                } else {
                    sc.tables.push(Table {
                        rect: r,
                        fill: e.attr("fill").map(|s| s.into()),
                        stroke: e.attr("stroke").map(|s| s.into()),
                        bands: vec![],
                        lines: vec![],
                        texts: vec![],
                        badges: vec![],
                    });
                }
            }
            "line" => {
                let t = sc.tables.last_mut().ok_or("line before any table")?;
                t.lines.push(((e.num("x1")?, e.num("y1")?), (e.num("x2")?, e.num("y2")?)));
            }
            "text" => {
                let t = sc.tables.last_mut().ok_or("text before any table")?;
                // the writer puts the content on a line of its own
                let s = e.text();
                let s = s.strip_prefix('\n').unwrap_or(&s);
                let s = s.strip_suffix('\n').unwrap_or(s);
                t.texts.push(Txt {
                    x: e.num("x")?,
                    y: e.num("y")?,
                    s: s.into(),
                    fill: e.attr("fill").map(|s| s.into()),
                    anchor: e.attr("text-anchor").map(|s| s.into()),
                });
            }
            "circle" => {
                let c = Circ {
                    c: (e.num("cx")?, e.num("cy")?),
                    r: e.num("r")?,
                    fill: e.attr("fill").map(|s| s.into()),
                    stroke: e.attr("stroke").map(|s| s.into()),
                };
                if let Some(ed) = sc.edges.last_mut() {
                    ed.ends.push(c);
                } else {
                    sc.tables.last_mut().ok_or("circle before any table")?.badges.push(c);
                }
            }
            "path" => {
                let d = e.attr("d").ok_or("path without d")?;
                sc.edges.push(Edge { cmds: parse_path(d)?, ends: vec![] });
            }
            o => return Err(format!("unexpected element <{}>", o)),
        }
    }
    Ok(sc)
}
