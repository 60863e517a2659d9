//! C26 - C28: styles, the routing graph, and plain geometric values.
use seiren::color::{NamedColor, RGBColor, WebColor};
use seiren::geometry::{Orientation, Path as GPath, PathCommand, Point, Rect, Size};
use seiren::layout::{LayoutEngine, RouteGraph, RouteNodeId, SimpleLayoutEngine};
use seiren::mir::*;

use seiren_mc::ex::*;
use seiren_mc::geom::*;
use seiren_mc::model::{self, tname, Doc, Entry, Field, KEYS, TYS};
use seiren_mc::run::{space, Check, Space};
use seiren_mc::svgx::{parse_xml, El};
use seiren_mc::*;

// ---- C26: styles -------------------------------------------------------------------------------

/// what a color means, independent of how it is written
fn rgb(s: &str) -> Option<(u8, u8, u8)> {
    match s {
        "white" => return Some((255, 255, 255)),
        "black" => return Some((0, 0, 0)),
        _ => {}
    }
    let h = s.strip_prefix('#')?;
    if h.len() != 6 || !h.is_ascii() {
        return None;
    }
    let v = |i: usize| u8::from_str_radix(&h[i..i + 2], 16).ok();
    Some((v(0)?, v(2)?, v(4)?))
}
type Rgb = (u8, u8, u8);
/// A slot takes one of `n` values: 0 is "nothing given". `full` is whether the base document gives
/// everything; any other value than the base's is a deviation.
struct Slots {
    full: bool,
    k: usize,
}
impl Slots {
    fn pick(&mut self, c: &mut Ch, n: usize) -> usize {
        self.k += 1;
        let base = if self.full { 1 + self.k % (n - 1) } else { 0 };
        (base + c.dev(n)) % n
    }
    fn color(&mut self, c: &mut Ch) -> (Option<WebColor>, Option<Rgb>) {
        let v = self.pick(c, 4);
        let k = self.k as u8;
        match v {
            0 => (None, None),
            1 => {
                let (r, g, b) = (k, 0x80 ^ k, 255 - k);
                (Some(WebColor::RGB(RGBColor::new(r, g, b))), Some((r, g, b)))
            }
            2 => (Some(WebColor::Named(NamedColor::White)), Some((255, 255, 255))),
            _ => (Some(WebColor::Named(NamedColor::Black)), Some((0, 0, 0))),
        }
    }
    fn text(&mut self, c: &mut Ch, s: &str) -> (TextSpan, WText) {
        let (color, rgb) = self.color(c);
        let fam = self.pick(c, 6);
        let wei = self.pick(c, 5);
        let siz = self.pick(c, 9);
        let (f, fs) = match fam {
            0 => (None, None),
            1 => (Some(FontFamily::SansSerif1), Some("Arial,sans-serif")),
            2 => (Some(FontFamily::SansSerif2), Some("Verdana,sans-serif")),
            3 => (Some(FontFamily::SansSerif3), Some("Trebuchet MS,sans-serif")),
            4 => (Some(FontFamily::Monospace1), Some("Monaco,Lucida Console,monospace")),
            _ => (Some(FontFamily::Monospace2), Some("Courier New,monospace")),
        };
        let (w, ws) = match wei {
            0 => (None, None),
            1 => (Some(FontWeight::Normal), Some("normal")),
            2 => (Some(FontWeight::Bold), Some("bold")),
            3 => (Some(FontWeight::Lighter), Some("lighter")),
            _ => (Some(FontWeight::Bolder), Some("bolder")),
        };
        let (z, zs) = match siz {
            0 => (None, None),
            1 => (Some(FontSize::XXSmall), Some("xx-small")),
            2 => (Some(FontSize::XSmall), Some("x-small")),
            3 => (Some(FontSize::Small), Some("small")),
            4 => (Some(FontSize::Medium), Some("medium")),
            5 => (Some(FontSize::Large), Some("large")),
            6 => (Some(FontSize::XLarge), Some("x-large")),
            7 => (Some(FontSize::XXLarge), Some("xx-large")),
            _ => (Some(FontSize::XXXLarge), Some("xxx-large")),
        };
        let mut b = TextSpanBuilder::default();
        b.text(s).color(color).font_family(f).font_weight(w).font_size(z);
        (b.build().unwrap(), WText { s: s.into(), rgb, family: fs, weight: ws, size: zs })
    }
}
struct WText {
    s: String,
    rgb: Option<Rgb>,
    family: Option<&'static str>,
    weight: Option<&'static str>,
    size: Option<&'static str>,
}
struct WRow {
    id: NodeId,
    title: WText,
    subtitle: Option<WText>,
    /// text, color, background
    badge: Option<(String, Option<Rgb>, Option<Rgb>)>,
    bg: Option<Rgb>,
    border: Option<Rgb>,
}
struct WRec {
    id: NodeId,
    rounded: bool,
    bg: Option<Rgb>,
    border: Option<Rgb>,
    rows: Vec<WRow>,
}
fn numf(e: &El, n: &str) -> f64 {
    e.num(n).unwrap_or(f64::NAN)
}
fn paint(e: &El, n: &str) -> Result<Option<Rgb>, Bad> {
    match e.attr(n) {
        None => Ok(None),
        Some("none") => Ok(None),
        Some(s) => match rgb(s) {
            Some(c) => Ok(Some(c)),
            None => Err(Bad::Viol(format!("{:?} is no color that was given", s))),
        },
    }
}
fn rc(r: Rect) -> svgx::Rc {
    svgx::Rc { x: r.min_x() as f64, y: r.min_y() as f64, w: r.width() as f64, h: r.height() as f64 }
}
fn is_rect(e: &El, r: svgx::Rc) -> bool {
    e.name == "rect" && near_rc(svgx::Rc { x: numf(e, "x"), y: numf(e, "y"), w: numf(e, "width"), h: numf(e, "height") }, r)
}
fn radius(e: &El) -> f64 {
    numf(e, "rx").max(numf(e, "ry")).max(0.0)
}
fn content(e: &El) -> String {
    let s = e.text();
    let s = s.strip_prefix('\n').unwrap_or(&s);
    s.strip_suffix('\n').unwrap_or(s).to_string()
}
fn text_as(els: &[&El], w: &WText) -> R {
    let v: Vec<&&El> = els.iter().filter(|e| e.name == "text" && content(e) == w.s).collect();
    ck!(v.len() == 1, "the text {:?} appears {} times", w.s, v.len());
    let e = v[0];
    ck!(paint(e, "fill")? == w.rgb, "the text {:?} has the color {:?} instead of {:?}", w.s, e.attr("fill"), w.rgb);
    let fam = |s: &str| s.split(',').map(|x| x.trim().trim_matches(['\'', '"']).to_string()).collect::<Vec<_>>();
    ck!(e.attr("font-family").map(fam) == w.family.map(fam), "the text {:?} has the font {:?} instead of {:?}", w.s, e.attr("font-family"), w.family);
    ck!(e.attr("font-weight") == w.weight, "the text {:?} has the weight {:?} instead of {:?}", w.s, e.attr("font-weight"), w.weight);
    ck!(e.attr("font-size") == w.size, "the text {:?} has the size {:?} instead of {:?}", w.s, e.attr("font-size"), w.size);
    Ok(())
}
fn styles(recs: usize, rows: usize, devs: usize) -> Space {
    space(
        &format!("styles-{}x{}", recs, rows),
        &format!("{} table(s) of {} row(s) whose every style is given or none is; up to {} of the styles changed to any other value (colors, 5 fonts, 4 weights, 8 sizes, rounding, presence of subtitle and badge)", recs, rows, devs),
        move |c| {
            let mut s = Slots { full: c.flag(), k: 0 };
            let mut doc = Document::new();
            let mut want: Vec<WRec> = vec![];
            for i in 0..recs {
                let rounded = s.pick(c, 2) == 1;
                let ((bg, wbg), (bo, wbo)) = (s.color(c), s.color(c));
                let mut b = RecordShapeBuilder::default();
                b.rounded(rounded).bg_color(bg).border_color(bo);
                let id = doc.create_record(b.build().unwrap());
                doc.body_mut().append_child(id);
                let mut w = WRec { id, rounded, bg: wbg, border: wbo, rows: vec![] };
                for j in 0..rows {
                    let (title, wt) = s.text(c, &format!("title{}.{}", i, j));
                    let (sub, wsub) = if s.pick(c, 2) == 1 {
                        let (a, b) = s.text(c, &format!("subtitle{}.{}", i, j));
                        (Some(a), Some(b))
                    } else {
                        (None, None)
                    };
                    let (badge, wbadge) = if s.pick(c, 2) == 1 {
                        let text = format!("badge{}.{}", i, j);
                        let ((co, wco), (bg, wbg)) = (s.color(c), s.color(c));
                        let mut b = BadgeBuilder::default();
                        b.text(text.clone()).color(co).bg_color(bg);
                        (Some(b.build().unwrap()), Some((text, wco, wbg)))
                    } else {
                        (None, None)
                    };
                    let ((bg, wbg), (bo, wbo)) = (s.color(c), s.color(c));
                    let mut b = FieldShapeBuilder::default();
                    b.title(title).subtitle(sub).badge(badge).bg_color(bg).border_color(bo);
                    let f = doc.create_field(b.build().unwrap());
                    doc.get_node_mut(id).unwrap().append_child(f);
                    w.rows.push(WRow { id: f, title: wt, subtitle: wsub, badge: wbadge, bg: wbg, border: wbo });
                }
                want.push(w);
            }
            let svg = pipe::draw_doc(&mut doc).0;
            c.label(format!("{} styles given by default, {} slots", if s.full { "all" } else { "no" }, s.k));
            c.state(&svg);
            let root = parse_xml(&svg).map_err(Bad::Viol)?;
            let els: Vec<&El> = root.els().collect();
            let clip_of = |e: &El| -> Option<&El> {
                let id = e.attr("clip-path")?.strip_prefix("url(#")?.strip_suffix(')')?;
                root.els().filter(|d| d.name == "defs").flat_map(|d| d.els()).find(|k| k.attr("id") == Some(id))?.els().next()
            };
            for w in &want {
                c.eval(1 + w.rows.len() as u64);
                let r = rc(doc.get_node(w.id).unwrap().rect().unwrap());
                let o: Vec<&&El> = els.iter().filter(|e| is_rect(e, r) && e.attr("clip-path").is_none()).collect();
                ck!(o.len() == 1, "a table has {} outlines", o.len());
                ck!(paint(o[0], "fill")? == w.bg, "a table has the background {:?} instead of {:?}", o[0].attr("fill"), w.bg);
                ck!(paint(o[0], "stroke")? == w.border, "a table has the border {:?} instead of {:?}", o[0].attr("stroke"), w.border);
                ck!((radius(o[0]) > 0.0) == w.rounded, "the corners of a table that is {}to be rounded have the radius {}", if w.rounded { "" } else { "not " }, radius(o[0]));
                for (j, row) in w.rows.iter().enumerate() {
                    let r = rc(doc.get_node(row.id).unwrap().rect().unwrap());
                    let v: Vec<&&El> = els.iter().filter(|e| is_rect(e, r) && e.attr("clip-path").is_some()).collect();
                    match row.bg {
                        None => ck!(v.is_empty(), "a row without background has one"),
                        Some(_) => {
                            ck!(v.len() == 1, "a row has {} backgrounds", v.len());
                            ck!(paint(v[0], "fill")? == row.bg, "a row has the background {:?} instead of {:?}", v[0].attr("fill"), row.bg);
                            let k = clip_of(v[0]).map(radius);
                            ck!(k.is_some_and(|k| near(k, radius(o[0]))), "a row background is clipped with corners of radius {:?}, the table has {}", k, radius(o[0]));
                        }
                    }
                    let l: Vec<&&El> = els
                        .iter()
                        .filter(|e| e.name == "line" && near(numf(e, "y1"), r.y) && near(numf(e, "y2"), r.y) && near(numf(e, "x1").min(numf(e, "x2")), r.x) && near(numf(e, "x1").max(numf(e, "x2")), r.r()))
                        .collect();
                    if j == 0 {
                        ck!(l.is_empty(), "there is a line above the first row");
                    } else {
                        let seen: Vec<Option<Rgb>> = l.iter().map(|e| paint(e, "stroke")).collect::<Result<Vec<_>, Bad>>()?.into_iter().filter(|s| s.is_some()).collect();
                        let exp: Vec<Option<Rgb>> = row.border.iter().map(|b| Some(*b)).collect();
                        ck!(seen == exp, "the line above a row has the colors {:?} instead of {:?}", seen, exp);
                    }
                    text_as(&els, &row.title)?;
                    match &row.subtitle {
                        Some(t) => text_as(&els, t)?,
                        None => {}
                    }
                    let dots: Vec<&&El> = els
                        .iter()
                        .filter(|e| e.name == "circle" && numf(e, "cy") > r.y && numf(e, "cy") < r.b() && numf(e, "cx") > r.x && numf(e, "cx") < r.r())
                        .collect();
                    match &row.badge {
                        None => ck!(dots.is_empty(), "a row without badge has a badge background"),
                        Some((t, co, bg)) => {
                            let v: Vec<&&El> = els.iter().filter(|e| e.name == "text" && content(e) == *t).collect();
                            ck!(v.len() == 1, "the badge {:?} appears {} times", t, v.len());
                            ck!(paint(v[0], "fill")? == *co, "the badge {:?} has the color {:?} instead of {:?}", t, v[0].attr("fill"), co);
                            let seen: Vec<Option<Rgb>> = dots.iter().map(|e| paint(e, "fill")).collect::<Result<_, _>>()?;
                            let exp: Vec<Option<Rgb>> = bg.iter().map(|b| Some(*b)).collect();
                            ck!(seen == exp, "the badge {:?} has the backgrounds {:?} instead of {:?}", t, seen, exp);
                        }
                    }
                }
                let n: usize = w.rows.iter().map(|r| 1 + r.subtitle.is_some() as usize + r.badge.is_some() as usize).sum();
                let seen = els.iter().filter(|e| e.name == "text" && numf(e, "x") > r.x && numf(e, "x") < r.r() && numf(e, "y") > r.y && numf(e, "y") < r.b()).count();
                ck!(n == seen, "a table shows {} texts instead of {}", seen, n);
            }
            Ok(())
        },
    )
    .devs(devs)
}
/// what the texts say doesn't matter to the styles
fn texts_odd() -> Space {
    const T: [&str; 9] = ["", "x", " ", "  y ", "PK", "<b>&amp;</b>", "#ff0000", "white", "a very long text that is much wider than any table can be 0123456789 0123456789"];
    space(
        "texts",
        "a table of 1 or 2 rows; in the last one title, subtitle and badge, each with a color of its own and the latter two present or absent, say any of 9 things, also nothing, blanks, or all the same",
        |c| {
            let n = 1 + c.pick(2);
            let title = *c.of(&T);
            let sub = if c.flag() { Some(*c.of(&T)) } else { None };
            let badge = if c.flag() { Some(*c.of(&T)) } else { None };
            let back = c.flag();
            let mut doc = Document::new();
            let r = doc.create_record(RecordShapeBuilder::default().build().unwrap());
            doc.body_mut().append_child(r);
            let col = |k: u8| Some(WebColor::RGB(RGBColor::new(k, 2 * k, 200 + k)));
            let span = |t: &str, k: u8| {
                let mut b = TextSpanBuilder::default();
                b.text(t).color(col(k));
                b.build().unwrap()
            };
            let mut want: Vec<(String, Rgb)> = vec![];
            let mut last = None;
            for i in 0..n {
                let mut b = FieldShapeBuilder::default();
                if i + 1 < n {
                    b.title(span("first", 1));
                } else {
                    b.title(span(title, 2));
                    let mut say = |t: &str, k: u8| if !t.trim().is_empty() { want.push((t.to_string(), (k, 2 * k, 200 + k))) };
                    say(title, 2);
                    if let Some(t) = sub {
                        b.subtitle(Some(span(t, 3)));
                        say(t, 3);
                    }
                    if let Some(t) = badge {
                        let mut g = BadgeBuilder::default();
                        g.text(t).color(col(4)).bg_color(if back { col(5) } else { None });
                        b.badge(Some(g.build().unwrap()));
                        say(t, 4);
                    }
                }
                let f = doc.create_field(b.build().unwrap());
                doc.get_node_mut(r).unwrap().append_child(f);
                last = Some(f);
            }
            c.label(format!("row {} of {}: title {:?}, subtitle {:?}, badge {:?} (background {})", n, n, title, sub, badge, back));
            let svg = pipe::draw_doc(&mut doc).0;
            c.state(&svg);
            c.eval(1);
            let root = parse_xml(&svg).map_err(Bad::Viol)?;
            let q = rc(doc.get_node(last.unwrap()).unwrap().rect().unwrap());
            let inside = |e: &&El, x: &str, y: &str| numf(e, y) > q.y && numf(e, y) < q.b() && numf(e, x) > q.x && numf(e, x) < q.r();
            let mut seen: Vec<(String, Rgb)> = vec![];
            for e in root.els().filter(|e| e.name == "text" && inside(e, "x", "y")) {
                let t = content(e);
                let Some(k) = paint(e, "fill")? else { return viol(format!("the text {:?} has no color", t)) };
                if !t.trim().is_empty() {
                    seen.push((t, k));
                }
            }
            seen.sort();
            want.sort();
            ck!(seen == want, "the row shows {:?} instead of {:?}", seen, want);
            let dots: Vec<Option<Rgb>> = root.els().filter(|e| e.name == "circle" && inside(e, "cx", "cy")).map(|e| paint(e, "fill")).collect::<Result<_, _>>()?;
            let exp: Vec<Option<Rgb>> = if back && badge.is_some() { vec![Some((5, 10, 205))] } else { vec![] };
            ck!(dots == exp, "the badge has the backgrounds {:?} instead of {:?}", dots, exp);
            Ok(())
        },
    )
}
/// Everything drawn for table `i`, with places relative to its origin and clip paths replaced by
/// what they stand for.
fn look(svg: &str, i: usize) -> Result<Vec<String>, Bad> {
    let root = parse_xml(svg).map_err(Bad::Viol)?;
    let outline: Vec<usize> = root
        .els()
        .enumerate()
        .filter(|(_, e)| e.name == "rect" && e.attr("clip-path").is_none() && e.attr("width") != Some("100%"))
        .map(|x| x.0)
        .collect();
    let els: Vec<&El> = root.els().collect();
    let Some(&at) = outline.get(i) else { return Err(Bad::Viol(format!("there is no table {}", i))) };
    let (x0, y0) = (numf(els[at], "x"), numf(els[at], "y"));
    let end = outline.get(i + 1).copied().unwrap_or(els.len());
    let show = |e: &El| {
        let mut v: Vec<String> = e
            .attrs
            .iter()
            .filter(|(n, _)| n != "clip-path" && n != "id")
            .map(|(n, v)| match n.as_str() {
                "x" | "x1" | "x2" | "cx" => format!("{}={:.3}", n, numf(e, n) - x0),
                "y" | "y1" | "y2" | "cy" => format!("{}={:.3}", n, numf(e, n) - y0),
                _ => format!("{}={}", n, v),
            })
            .collect();
        v.sort();
        format!("{} {} {:?}", e.name, v.join(" "), if e.name == "text" { content(e) } else { String::new() })
    };
    let mut v = vec![];
    for e in &els[at..end] {
        if e.name == "path" {
            break;
        }
        let mut s = show(e);
        if let Some(cp) = e.attr("clip-path") {
            let id = cp.strip_prefix("url(#").and_then(|s| s.strip_suffix(')')).unwrap_or(cp);
            let k: Vec<String> = root.els().filter(|d| d.name == "defs").flat_map(|d| d.els()).filter(|k| k.attr("id") == Some(id)).flat_map(|k| k.els()).map(show).collect();
            s += &format!(" clipped by {:?}", k);
        }
        v.push(s);
    }
    Ok(v)
}
fn same_look(c: &mut Ch, d: &Doc, i: usize) -> R {
    c.label(d.src());
    let whole = pipe::draw(&pipe::build(d));
    let own = d.entries.iter().filter(|e| matches!(e, Entry::Entity { .. })).nth(i).unwrap().clone();
    let alone = pipe::draw(&pipe::build(&Doc { name: None, entries: vec![own] }));
    c.state(&whole);
    let (a, b) = (look(&alone, 0)?, look(&whole, i)?);
    c.eval(a.len() as u64);
    ck!(a.len() == b.len(), "table {} is drawn by {} elements, alone by {}", i, b.len(), a.len());
    for (x, y) in a.iter().zip(&b) {
        ck!(x == y, "table {} is drawn with\n{}\nalone with\n{}", i, y, x);
    }
    Ok(())
}
fn places(name: &str, max: usize, others: &'static [usize], fields: usize) -> Space {
    space(
        name,
        &format!("a table of up to {} fields of every type and key at every place among up to {} tables of {:?} fields, without relations, with a relation of it, or with one of the others", fields, max, others),
        move |c| {
            let t = 1 + c.pick(max);
            let i = c.pick(t);
            let h = *c.of(others);
            let mut fs = vec![];
            while fs.len() < fields && c.flag() {
                let name = model::fname(fs.len());
                fs.push(Field { name, ty: *c.of(&TYS), key: *c.of(&KEYS) });
            }
            let mut d = Doc { name: None, entries: (0..t).map(|i| model::table(i, h)).collect() };
            d.entries[i] = Entry::Entity { name: tname(i), fields: fs };
            match c.pick(3) {
                0 => {}
                1 => d.entries.push(Entry::Rel { a: model::Path::e(&tname(i)), b: model::Path::e(&tname((i + 1) % t)) }),
                _ => d.entries.push(Entry::Rel { a: model::Path::e(&tname((i + 1) % t)), b: model::Path::e(&tname((i + 2) % t)) }),
            }
            same_look(c, &d, i)
        },
    )
}
/// every table of other families of modules
fn among(x: seiren_mc::docs::Docs) -> Space {
    space(&x.name, &format!("any table of: {}", x.what), move |c| {
        let d = (x.choose)(c);
        let n = d.entries.iter().filter(|e| matches!(e, Entry::Entity { .. })).count();
        let i = c.pick(n);
        same_look(c, &d, i)
    })
}
/// equal things look equal: the type of a field and its key decide how they are shown
fn same_roles(c: &mut Ch, tables: &[Vec<(model::Ty, Option<model::Key>)>]) -> R {
    let mut d = Doc::default();
    let mut parts: std::collections::HashMap<String, String> = Default::default();
    let mut n = 0;
    for (t, fs) in tables.iter().enumerate() {
        let mut fields = vec![];
        n += 1;
        parts.insert(format!("n{}", t), "header".into());
        for (f, (ty, key)) in fs.iter().enumerate() {
            let name = format!("f{}_{}", t, f);
            n += 2 + key.is_some() as usize;
            parts.insert(name.clone(), "name".into());
            parts.insert(ty.kw().into(), ty.kw().into());
            if let Some(k) = key {
                parts.insert(k.kw().into(), k.kw().into());
            }
            fields.push(Field { name, ty: *ty, key: *key });
        }
        d.entries.push(Entry::Entity { name: format!("n{}", t), fields });
    }
    let src = d.src();
    c.label(if src.len() > 400 { format!("{} tables with {:?} fields", tables.len(), tables.iter().map(|t| t.len()).collect::<Vec<_>>()) } else { src });
    let svg = pipe::draw(&pipe::build(&d));
    c.state(&svg);
    let root = parse_xml(&svg).map_err(Bad::Viol)?;
    let texts: Vec<&El> = root.els().filter(|e| e.name == "text").collect();
    c.eval(texts.len() as u64);
    ck!(texts.len() == n, "{} texts are drawn instead of {}", texts.len(), n);
    let mut seen: std::collections::HashMap<String, Vec<(String, String)>> = Default::default();
    for e in &texts {
        let s = content(e);
        let Some(role) = parts.get(&s) else {
            return viol(format!("the text {:?} is not one of the module's", s));
        };
        let mut st: Vec<(String, String)> = e.attrs.iter().filter(|a| a.0 != "x" && a.0 != "y").cloned().collect();
        st.sort();
        match seen.get(role) {
            None => {
                seen.insert(role.clone(), st);
            }
            Some(x) => ck!(*x == st, "{:?} ({}) is drawn as {:?} and as {:?}", s, role, x, st),
        }
    }
    // rows apart from their place: backgrounds and lines
    for what in ["rect", "line"] {
        let mut seen: Vec<Vec<(String, String)>> = vec![];
        for e in root.els().filter(|e| e.name == what && e.attr("width") != Some("100%")) {
            let clipped = e.attr("clip-path").is_some();
            let mut st: Vec<(String, String)> = e
                .attrs
                .iter()
                .filter(|a| !["x", "y", "x1", "x2", "y1", "y2", "clip-path"].contains(&a.0.as_str()) && (clipped || a.0 != "height"))
                .cloned()
                .collect();
            st.sort();
            if !seen.contains(&st) {
                seen.push(st);
            }
        }
        let max = if what == "rect" { 2 } else { 1 };
        ck!(seen.len() <= max, "{}s of equal parts are drawn in {} ways: {:?}", what, seen.len(), seen);
    }
    Ok(())
}
fn roles() -> Space {
    space("roles", "two tables of two fields of every type and key: types, keys, names and headers are drawn with the same styles wherever they are equal", |c| {
        let mut v = vec![];
        for _ in 0..2 {
            v.push((0..2).map(|_| (*c.of(&TYS), *c.of(&KEYS))).collect());
        }
        same_roles(c, &v)
    })
}
fn roles_many(max: usize) -> Space {
    space(&format!("roles-{}", max), &format!("a table of up to {0} fields, and up to {0} tables of 0 to 3 fields, types and keys in 9 orders: equal parts have equal styles", max), move |c| {
        let n = 1 + c.pick(max);
        let (p, q) = (1 + c.pick(3), 1 + c.pick(3));
        let f = |i: usize| (TYS[(i * p) % TYS.len()], KEYS[(i * q + i / 7) % KEYS.len()]);
        let k = c.pick(5);
        let v: Vec<Vec<_>> = if k == 0 { vec![(0..n).map(f).collect()] } else { (0..n).map(|t| (0..k - 1).map(|i| f(t + i)).collect()).collect() };
        same_roles(c, &v)
    })
}
fn c26(th: bool) -> Vec<Space> {
    let mut v = vec![
        styles(1, 2, if th { 4 } else { 3 }),
        styles(2, 2, if th { 3 } else { 2 }),
        styles(3, 3, if th { 2 } else { 1 }),
        places("places", 8, &[0, 1, 3], 2),
        places("places-far", 22, &[0, 5], 1),
        places("places-very-far", if th { 140 } else { 70 }, &[0], 0),
        among(docs::hub()),
        among(docs::bundle()),
        texts_odd(),
        roles(),
        roles_many(if th { 300 } else { 140 }),
    ];
    if th {
        v.push(places("places-more", 5, &[0, 2], 3));
        v.push(places("places-farther", 40, &[0, 1, 9], 1));
    }
    v
}

// ---- C27: the routing graph --------------------------------------------------------------------

#[derive(Default, Clone)]
struct MGraph {
    nodes: Vec<((i32, i32), Option<Orientation>)>,
    ports: Vec<(usize, usize)>,
    links: Vec<(usize, usize)>,
}
struct GSys {
    g: RouteGraph,
    m: MGraph,
    ids: Vec<RouteNodeId>,
}
const OR: [Orientation; 4] = [Orientation::Up, Orientation::Right, Orientation::Down, Orientation::Left];
fn at(p: (i32, i32)) -> Point {
    Point::new(p.0 as f32 * 0.5, p.1 as f32 * 0.5)
}
impl GSys {
    fn new() -> GSys {
        GSys { g: RouteGraph::new(), m: MGraph::default(), ids: vec![] }
    }
    /// `None`: the location is taken by a node of another kind, which the graph does not allow
    fn put(&mut self, p: (i32, i32), o: Option<Orientation>) -> Result<usize, Bad> {
        match self.m.nodes.iter().position(|n| n.0 == p) {
            Some(i) if self.m.nodes[i].1 == o => Ok(i),
            Some(_) => Err(Bad::Skip),
            None => {
                self.m.nodes.push((p, o));
                Ok(self.m.nodes.len() - 1)
            }
        }
    }
    fn got(&mut self, i: usize, id: RouteNodeId) -> R {
        if i == self.ids.len() {
            ck!(!self.ids.contains(&id), "a new node gets the identifier {} of an old one", id);
            self.ids.push(id);
        } else {
            ck!(self.ids[i] == id, "a node put to the place of node {} gets the identifier {}", self.ids[i], id);
        }
        Ok(())
    }
    fn check(&self, c: &mut Ch, ports: &[TerminalPort]) -> R {
        let (g, m) = (&self.g, &self.m);
        c.eval((m.nodes.len() + m.links.len() + ports.len()) as u64);
        let ids: Vec<RouteNodeId> = g.node_ids().collect();
        ck!(g.node_ids().len() == m.nodes.len(), "the graph counts {} nodes instead of {}", g.node_ids().len(), m.nodes.len());
        ck!(ids == self.ids, "the graph lists the nodes {:?} instead of {:?}", ids, self.ids);
        let locs: Vec<Point> = g.nodes().map(|n| *n.location()).collect();
        let want: Vec<Point> = m.nodes.iter().map(|n| at(n.0)).collect();
        ck!(locs == want, "the graph has nodes at {:?} instead of {:?}", locs, want);
        for (i, id) in self.ids.iter().enumerate() {
            let Some(n) = g.get_node(*id) else { return viol(format!("node {} is gone", id)) };
            ck!(*n.location() == at(m.nodes[i].0) && n.orientation() == m.nodes[i].1, "node {} is now {:?}", id, n);
            for o in OR {
                let w = m.nodes[i].1.is_none() || m.nodes[i].1 == Some(o);
                ck!(n.is_connectable(o) == w, "node {:?} can{} be left or entered {:?}", n, if w { "not" } else { "" }, o);
            }
        }
        for (k, p) in ports.iter().enumerate() {
            let w = m.ports.iter().find(|x| x.0 == k).map(|x| self.ids[x.1]);
            ck!(g.get_terminal_port(p.id()) == w, "port {} is at node {:?} instead of {:?}", k, g.get_terminal_port(p.id()), w);
        }
        let links: Vec<(RouteNodeId, RouteNodeId)> = g.edges().map(|e| (e.source_id(), e.target_id())).collect();
        let mut a: Vec<(usize, usize)> = vec![];
        for (x, y) in &links {
            let (Some(x), Some(y)) = (ids.iter().position(|i| i == x), ids.iter().position(|i| i == y)) else {
                return viol("a link has an end that is not a node of the graph");
            };
            a.push((x.min(y), x.max(y)));
        }
        let mut b: Vec<(usize, usize)> = m.links.clone();
        a.sort();
        b.sort();
        ck!(a == b, "the graph has the links {:?} instead of {:?}", a, b);
        Ok(())
    }
    fn link(&mut self, a: usize, b: usize) {
        self.g.add_edge(self.ids[a], self.ids[b]);
        let l = (a.min(b), a.max(b));
        if !self.m.links.contains(&l) {
            self.m.links.push(l);
        }
    }
}
/// ports of two nodes, two of them at one location, one at the location of a junction
fn some_ports() -> Vec<((i32, i32), Orientation, usize, usize, TerminalPort)> {
    let mut doc = Document::new();
    let mut v = vec![];
    for (n, ps) in [[((0, 0), Orientation::Up), ((4, 1), Orientation::Right)], [((4, 1), Orientation::Right), ((0, 5), Orientation::Left)]].iter().enumerate() {
        let id = doc.create_record(RecordShapeBuilder::default().build().unwrap());
        for (k, (p, o)) in ps.iter().enumerate() {
            doc.get_node_mut(id).unwrap().add_terminal_port(id, at(*p), *o);
            let t = doc.get_node(id).unwrap().terminal_ports().nth(k).unwrap().clone();
            v.push((*p, *o, n, k, t));
        }
    }
    v
}
fn graph_ops(depth: usize) -> Space {
    const LOC: [(i32, i32); 5] = [(0, 0), (0, 2), (3, 0), (0, 5), (-1, 2)];
    space(
        &format!("operations-{}", depth),
        &format!("every sequence of {} operations on a routing graph: add a node at one of {} places, one of 4 terminal ports (two of them at one place, two at places of nodes), a link between any two distinct nodes, go on with a copy; places taken by a node of another kind are outside the domain", depth, LOC.len()),
        move |c| {
            let ps = some_ports();
            let ports: Vec<TerminalPort> = ps.iter().map(|p| p.4.clone()).collect();
            let mut s = GSys::new();
            let mut log = vec![];
            let mut old: Option<(RouteGraph, MGraph, Vec<RouteNodeId>)> = None;
            for _ in 0..depth {
                let n = s.ids.len();
                let k = c.pick(LOC.len() + ps.len() + 1 + n * n);
                if k < LOC.len() {
                    log.push(format!("node at {:?}", LOC[k]));
                    let i = s.put(LOC[k], None)?;
                    let id = s.g.add_node(at(LOC[k]));
                    s.got(i, id)?;
                } else if k < LOC.len() + ps.len() {
                    let k = k - LOC.len();
                    log.push(format!("port {}", k));
                    let i = s.put(ps[k].0, Some(ps[k].1))?;
                    let id = s.g.add_terminal_port(&ports[k]);
                    s.got(i, id)?;
                    if !s.m.ports.iter().any(|p| p.0 == k) {
                        s.m.ports.push((k, i));
                    }
                } else if k == LOC.len() + ps.len() {
                    log.push("copy".into());
                    old = Some((s.g.clone(), s.m.clone(), s.ids.clone()));
                } else {
                    let k = k - LOC.len() - ps.len() - 1;
                    if k / n == k % n {
                        return Err(Bad::Skip);
                    }
                    log.push(format!("link {} - {}", k / n, k % n));
                    s.link(k / n, k % n);
                }
                c.label(log.join(", "));
                s.check(c, &ports)?;
            }
            if let Some((g, m, ids)) = old {
                GSys { g, m, ids }.check(c, &ports)?;
            }
            c.state(&log);
            Ok(())
        },
    )
}
fn graph_long() -> Space {
    space("long", "graphs of up to 1500 nodes on a lattice, linked in 6 patterns, each link put once, in both directions, or in both directions and twice, and in half of the cases all nodes and links again later; with 0, 3 or 6 ports, some of them linked; then a copy, and a copy that is extended", |c| {
        let n = *c.of(&[2usize, 7, 40, 200, 300, 600, 1500]);
        let pat = c.pick(6);
        let rev = c.flag();
        let again = c.flag();
        let times = 1 + c.pick(3);
        let mut links = vec![];
        let mut s = GSys::new();
        for i in 0..n {
            let p = ((i % 7) as i32 * 3 - 6, (i / 7) as i32);
            let k = s.put(p, None)?;
            let id = s.g.add_node(at(p));
            s.got(k, id)?;
        }
        for i in 0..n {
            let js = match pat {
                0 => vec![(i + 1) % n],
                1 => vec![0],
                2 => vec![n - 1 - i],
                3 => vec![(i * 3) % n],
                4 => vec![(i + 1) % n, (i + 7) % n, (i + 14) % n],
                _ => vec![i / 2, i / 3, i / 7, i / 50],
            };
            for j in js {
                let (a, b) = if rev { (j, i) } else { (i, j) };
                if a == b {
                    continue;
                }
                s.link(a, b);
                if times > 1 {
                    s.link(b, a);
                }
                if times > 2 {
                    s.link(a, b);
                }
                links.push((a, b));
            }
        }
        if again {
            for i in 0..n {
                let p = ((i % 7) as i32 * 3 - 6, (i / 7) as i32);
                let k = s.put(p, None)?;
                let id = s.g.add_node(at(p));
                s.got(k, id)?;
            }
            for (a, b) in links {
                s.link(b, a);
                s.link(a, b);
            }
        }
        // ports at places of their own, some with links and some without
        let mut doc = Document::new();
        let mut ports = vec![];
        for k in 0..c.pick(3) * 3 {
            let (p, o) = ((-20 - (k as i32), 3 * k as i32), OR[k % 4]);
            let id = doc.create_record(RecordShapeBuilder::default().build().unwrap());
            doc.get_node_mut(id).unwrap().add_terminal_port(id, at(p), o);
            let t = doc.get_node(id).unwrap().terminal_ports().next().unwrap().clone();
            let i = s.put(p, Some(o))?;
            let id = s.g.add_terminal_port(&t);
            s.got(i, id)?;
            s.m.ports.push((k, i));
            ports.push(t);
            if k % 3 != 1 {
                s.link(i, 0);
                s.link(n - 1, i);
            }
        }
        c.label(format!("{} nodes, pattern {}, reversed {}, again {}, put {} time(s), {} ports", n, pat, rev, again, times, ports.len()));
        c.state(&(n, pat, rev, times, ports.len()));
        s.check(c, &ports)?;
        // a copy is the same, and stays so
        let mut t = GSys { g: s.g.clone(), m: s.m.clone(), ids: s.ids.clone() };
        t.check(c, &ports)?;
        let i = t.put((-40, -40), None)?;
        let id = t.g.add_node(at((-40, -40)));
        t.got(i, id)?;
        t.link(i, n / 2);
        t.check(c, &ports)?;
        s.check(c, &ports)
    })
}
/// the ports of a laid out document are found in the engine's network
fn engine_ports(t: usize, hs: &'static [usize]) -> Space {
    space(&format!("engine-{}", t), &format!("{} tables with {:?} fields each, one relation between any two elements: the network has a node for each terminal port of the two related elements, at its place and with its side, and knows it by the port's identifier", t, hs), move |c| {
        let ns: Vec<usize> = (0..t).map(|_| *c.of(hs)).collect();
        let mut d = Doc { name: None, entries: ns.iter().enumerate().map(|(i, n)| model::table(i, *n)).collect() };
        let mut end = || {
            let i = c.pick(t);
            let r = c.pick(ns[i] + 1);
            if r == 0 { model::Path::e(&tname(i)) } else { model::Path::f(&tname(i), &model::fname(r - 1)) }
        };
        let (a, b) = (end(), end());
        d.entries.push(Entry::Rel { a, b });
        c.label(d.src());
        let mut doc = pipe::build(&d).into_mir();
        let mut en = SimpleLayoutEngine::new();
        en.place_nodes(&mut doc);
        en.place_terminal_ports(&mut doc);
        en.draw_edge_path(&mut doc);
        let g = en.edge_route_graph();
        let mut n = 0u64;
        for e in doc.edges() {
            for id in [e.source_id(), e.target_id()] {
                for p in doc.get_node(id).unwrap().terminal_ports() {
                    n += 1;
                    let Some(k) = g.get_terminal_port(p.id()) else { return viol(format!("the port at {} is not in the network", p.location())) };
                    let Some(k) = g.get_node(k) else { return viol("a port's node is not in the network") };
                    ck!(k.location() == p.location() && k.orientation() == Some(p.orientation()), "the port at {} is the node {:?}", p.location(), k);
                }
            }
        }
        c.eval(n);
        c.state(&(n, g.nodes().count(), g.edges().count(), d));
        Ok(())
    })
}
fn c27(th: bool) -> Vec<Space> {
    vec![
        graph_ops(if th { 7 } else { 6 }),
        graph_long(),
        engine_ports(1, &[0, 1, 2, 3, 5]),
        engine_ports(2, &[0, 1, 2, 3, 5]),
        engine_ports(4, if th { &[0, 1, 2, 4] } else { &[0, 1, 3] }),
    ]
}

// ---- C28: plain values -------------------------------------------------------------------------
fn c28(th: bool) -> Vec<Space> {
    let n = if th { 25 } else { 17 };
    vec![
        space("points", &format!("every two points of a grid of {0} x {0} in 5 scales and offsets: distance, and direction where they are in line", n), move |c| {
            let (x, y) = (c.pick(n) as i64 - n as i64 / 2, c.pick(n) as i64 - n as i64 / 2);
            let (sc, off) = *c.of(&[(1.0f64, 0.0f64), (0.25, 0.0), (17.5, 50.0), (1000.0, -8000.0), (0.0078125, 1.0)]);
            c.label(format!("from ({}, {}), scale {} and offset {}", x, y, sc, off));
            c.state(&(x, y, sc.to_bits()));
            let f = |v: i64| (v as f64 * sc + off) as f32;
            let p = Point::new(f(x), f(y));
            for u in 0..n as i64 {
                for v in 0..n as i64 {
                    let (u, v) = (u - n as i64 / 2, v - n as i64 / 2);
                    let q = Point::new(f(u), f(v));
                    let (dx, dy) = ((u - x) as f64 * sc, (v - y) as f64 * sc);
                    let d = (dx * dx + dy * dy).sqrt();
                    let g = p.distance(&q) as f64;
                    c.eval(1);
                    ck!((g - d).abs() <= 1e-6 * d, "the distance of {} and {} is {}", p, q, g);
                    ck!(q.distance(&p) as f64 == g, "the distance of {} and {} depends on the direction", p, q);
                    if (u == x) != (v == y) {
                        let want = if u < x { Orientation::Left } else if u > x { Orientation::Right } else if v < y { Orientation::Up } else { Orientation::Down };
                        ck!(p.orthogonal_direction(&q) == want, "from {} to {} it goes {:?}", p, q, p.orthogonal_direction(&q));
                    }
                    ck!((p == q) == (u == x && v == y), "{} and {} compare wrongly", p, q);
                }
            }
            Ok(())
        }),
        space("rectangles", "every origin of 9 x 9 and size of 9 x 9 in 4 scales and offsets: edges, middles, center, width and height", |c| {
            let (x, y) = (c.pick(9) as f32 - 4.0, c.pick(9) as f32 - 4.0);
            let (w, h) = (c.pick(9) as f32, c.pick(9) as f32);
            let (sc, off) = *c.of(&[(1.0f32, 0.0f32), (0.5, -3.25), (35.0, 50.0), (1000.0, -7000.0)]);
            c.label(format!("{:?}", (x, y, w, h, sc, off)));
            c.state(&format!("{:?}", (x, y, w, h, sc, off)));
            let (x, y, w, h) = (x * sc + off, y * sc + off, w * sc, h * sc);
            let r = Rect::new(Point::new(x, y), Size::new(w, h));
            c.eval(1);
            ck!(*r.origin() == Point::new(x, y) && *r.size() == Size::new(w, h), "{:?} has another origin or size", r);
            ck!(r.min_x() == x && r.min_y() == y && r.width() == w && r.height() == h, "{:?}: origin or size is reported wrongly", r);
            ck!(r.max_x() == x + w && r.max_y() == y + h, "{:?} ends at ({}, {})", r, r.max_x(), r.max_y());
            let m = (x + w / 2.0, y + h / 2.0);
            ck!(r.mid_x() == m.0 && r.mid_y() == m.1 && r.center() == Point::new(m.0, m.1), "{:?} has its middle at ({}, {}) or {}", r, r.mid_x(), r.mid_y(), r.center());
            Ok(())
        }),
        space("paths", "every path of up to 4 commands: move, line and curve to any of 3 places", |c| {
            let places = [Point::new(0.0, 0.0), Point::new(1.5, -2.0), Point::new(-3.0, 7.25)];
            let at = *c.of(&places);
            let mut p = GPath::new(at);
            let mut want = vec![('M', at, at)];
            for _ in 0..4 {
                match c.pick(4) {
                    0 => break,
                    1 => {
                        let a = *c.of(&places);
                        p.move_to(a);
                        want.push(('M', a, a));
                    }
                    2 => {
                        let a = *c.of(&places);
                        p.line_to(a);
                        want.push(('L', a, a));
                    }
                    _ => {
                        let (k, a) = (*c.of(&places), *c.of(&places));
                        p.quad_to(k, a);
                        want.push(('Q', k, a));
                    }
                }
            }
            c.label(format!("{:?}", want));
            c.state(&format!("{:?}", want));
            c.eval(1);
            let got: Vec<(char, Point, Point)> = p
                .commands()
                .map(|k| match k {
                    PathCommand::MoveTo(a) => ('M', *a, *a),
                    PathCommand::LineTo(a) => ('L', *a, *a),
                    PathCommand::QuadTo(k, a) => ('Q', *k, *a),
                })
                .collect();
            ck!(got == want && p.commands().len() == want.len(), "the path has the commands {:?} instead of {:?}", got, want);
            ck!(*p.start_point() == want[0].2, "the path starts at {}", p.start_point());
            ck!(*p.end_point() == want[want.len() - 1].2, "the path ends at {}", p.end_point());
            Ok(())
        }),
    ]
}

// ---- C30: modules built with the library --------------------------------------------------------
use seiren::erd;

fn era_field(f: &Field) -> erd::EntityField {
    let ty = match f.ty {
        model::Ty::Int => erd::EntityFieldType::Int,
        model::Ty::Uuid => erd::EntityFieldType::Uuid,
        model::Ty::Text => erd::EntityFieldType::Text,
        model::Ty::Timestamp => erd::EntityFieldType::Timestamp,
    };
    let key = f.key.map(|k| match k {
        model::Key::Pk => erd::EntityFieldKey::PrimaryKey,
        model::Key::Fk => erd::EntityFieldKey::ForeginKey,
    });
    erd::EntityField::new(f.name.clone(), ty, key)
}
fn erd_path(p: &model::Path) -> erd::EntityPath {
    match &p.field {
        None => erd::EntityPath::Entity(p.entity.clone()),
        Some(f) => erd::EntityPath::Field(p.entity.clone(), f.clone()),
    }
}
fn erd_rel(a: &model::Path, b: &model::Path) -> erd::EntityRelation {
    erd::EntityRelation::new(erd_path(a), erd_path(b))
}
/// A module under construction beside what it should be.
struct Built {
    m: erd::Module,
    want: Doc,
}
impl Built {
    fn put(&mut self, e: Entry, through_entry: bool) {
        match &e {
            Entry::Entity { name, fields } => {
                let mut t = erd::EntityDefinition::new(name.clone());
                for f in fields {
                    t.add_field(era_field(f));
                }
                if through_entry {
                    self.m.add_entry(erd::ModuleEntry::EntityDefinition(t));
                } else {
                    self.m.add_entity_definition(t);
                }
            }
            Entry::Rel { a, b } => {
                if through_entry {
                    self.m.add_entry(erd::ModuleEntry::EntityRelation(erd_rel(a, b)));
                } else {
                    self.m.add_entity_relation(erd_rel(a, b));
                }
            }
        }
        self.want.entries.push(e);
    }
    fn same(&self) -> R {
        ck!(self.m.name() == self.want.name.as_deref(), "the module's name is {:?} instead of {:?}", self.m.name(), self.want.name);
        ck!(self.m.entries().len() == self.want.entries.len(), "the module announces {} entries, {} were added", self.m.entries().len(), self.want.entries.len());
        let got = pipe::to_doc(&self.m);
        ck!(got == self.want, "the module lists\n{}\ninstead of\n{}", got.src(), self.want.src());
        Ok(())
    }
    /// a drawing, twice, and the one of the same module read from a text
    fn drawing(&self) -> R {
        let a = pipe::draw(&self.m);
        ck!(pipe::draw(&self.m) == a, "a second conversion of the module gives another drawing");
        self.same()?;
        let p = pipe::read(&self.want.src());
        match p.ast {
            Some(m) if p.lex.is_empty() && p.syn.is_empty() => {
                let b = pipe::draw(&m);
                ck!(a == b, "the drawing differs from that of the same module read from its text");
                Ok(())
            }
            _ => viol("the text of the module is not accepted"),
        }
    }
}
fn fld(n: &str, k: usize) -> Field {
    Field { name: n.into(), ty: TYS[k % 4], key: KEYS[k % 3] }
}
fn pool() -> Vec<Entry> {
    use model::Path as P;
    vec![
        Entry::Entity { name: "a".into(), fields: vec![] },
        Entry::Entity { name: "a".into(), fields: vec![fld("x", 1), fld("x", 2), fld("é \"`\\", 3)] },
        Entry::Entity { name: "b".into(), fields: vec![fld("x", 0)] },
        Entry::Rel { a: P::e("a"), b: P::f("b", "x") },
        Entry::Rel { a: P::f("b", "x"), b: P::e("a") },
        Entry::Rel { a: P::e("b"), b: P::e("b") },
    ]
}
fn building(depth: usize) -> Space {
    space(
        &format!("building-{}", depth),
        &format!("all sequences of {} steps on a module with or without name: adding any of 3 definitions or 3 relations as entry or by its own function, a definition under construction gets a field or is added (and built on), the module is cloned, or one turns to the other copy; compared with a plain list after every step, drawn at the end", depth),
        move |c| {
            let name = [None, Some("g".to_string()), Some("".to_string())][c.pick(3)].clone();
            let all = pool();
            let mut ms = vec![Built { m: erd::Module::new(name.clone()), want: Doc { name, entries: vec![] } }];
            let mut cur = 0;
            let mut def = (erd::EntityDefinition::new("d".into()), vec![]);
            let mut log = vec![];
            for _ in 0..depth {
                let k = c.pick(2 * all.len() + 4);
                log.push(k);
                match k.checked_sub(2 * all.len()) {
                    None => ms[cur].put(all[k / 2].clone(), k % 2 == 1),
                    Some(0) => {
                        let f = fld(&format!("f{}", def.1.len()), def.1.len());
                        def.0.add_field(era_field(&f));
                        def.1.push(f);
                    }
                    Some(1) => {
                        ms[cur].m.add_entity_definition(def.0.clone());
                        ms[cur].want.entries.push(Entry::Entity { name: "d".into(), fields: def.1.clone() });
                    }
                    Some(2) => {
                        if ms.len() == 2 {
                            return Err(Bad::Skip);
                        }
                        let b = Built { m: ms[0].m.clone(), want: ms[0].want.clone() };
                        ms.push(b);
                    }
                    _ => {
                        if ms.len() == 1 {
                            return Err(Bad::Skip);
                        }
                        cur = 1 - cur;
                    }
                }
                for b in &ms {
                    c.eval(1);
                    b.same()?;
                }
                ck!(def.0.name() == "d" && def.0.fields().len() == def.1.len(), "the definition has {} fields, {} were added", def.0.fields().len(), def.1.len());
            }
            c.state(&log);
            c.label(format!("steps {:?}", log));
            for b in &ms {
                b.drawing()?;
            }
            Ok(())
        },
    )
}
/// many entries, many fields
fn large() -> Space {
    space(
        "large-modules",
        "modules of n entries or of a definition of n fields, for n up to 40, around powers of two up to 1024, and 3000: definitions only, relations only, both in turn or one half after the other, added as entries, by their own functions, or both in turn; names all different or all the same",
        |c| {
            let mut ns: Vec<usize> = (0..=40).collect();
            for k in 6..=10 {
                ns.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
            }
            ns.push(3000);
            let n = *c.of(&ns);
            let kind = c.pick(5);
            let how = c.pick(3);
            let differ = c.flag();
            let nm = |i: usize| if differ { format!("n{}", i) } else { "n".to_string() };
            let mut b = Built { m: erd::Module::new(None), want: Doc::default() };
            let ent = |i: usize| Entry::Entity { name: nm(i), fields: (0..i % 3).map(|k| fld(&nm(k), i + k)).collect() };
            let rel = |i: usize| Entry::Rel { a: model::Path::e(&nm(i)), b: model::Path::f(&nm(i + 1), &nm(0)) };
            if kind == 4 {
                b.put(Entry::Entity { name: "t".into(), fields: (0..n).map(|i| fld(&nm(i), i)).collect() }, how == 1);
            } else {
                for i in 0..n {
                    let is_rel = match kind {
                        0 => false,
                        1 => true,
                        2 => i % 2 == 1,
                        _ => i >= n / 2,
                    };
                    b.put(if is_rel { rel(i) } else { ent(i) }, how == 1 || how == 2 && i % 3 == 0);
                }
            }
            c.label(format!("{} entries or fields, kind {}, by {}", n, kind, how));
            c.state(&(n, kind, how, differ));
            c.eval(1);
            b.same()?;
            if n <= 129 {
                return b.drawing();
            }
            Ok(())
        },
    )
}
/// paths are equal exactly if their parts are
fn equal_paths() -> Space {
    const N: [&str; 9] = ["a", "b", "a.b", "b.a", "", ".", "a.", "A", "á"];
    space("equal-paths", "all pairs of paths whose parts are any of 9 names, compared and looked up in a hash table", |c| {
        let mut one = || {
            let e = c.of(&N).to_string();
            let f = c.pick(N.len() + 1);
            model::Path { entity: e, field: f.checked_sub(1).map(|i| N[i].to_string()) }
        };
        let (a, b) = (one(), one());
        c.eval(2);
        c.state(&(&a, &b));
        let (x, y) = (erd_path(&a), erd_path(&b));
        ck!((x == y) == (a == b), "the paths {:?} and {:?} compare {}", a, b, x == y);
        let mut t = std::collections::HashMap::new();
        t.insert(x.clone(), 1);
        ck!(t.contains_key(&y) == (a == b), "the path {:?} is found under {:?}: {}", a, b, t.contains_key(&y));
        let r = erd_rel(&a, &b);
        ck!(*r.start_path() == x && *r.end_path() == y, "the relation {:?} - {:?} has the ends {:?} and {:?}", a, b, r.start_path(), r.end_path());
        let r = r.clone();
        ck!(*r.start_path() == x && *r.end_path() == y, "the copy of the relation {:?} - {:?} has the ends {:?} and {:?}", a, b, r.start_path(), r.end_path());
        Ok(())
    })
}
fn c30(th: bool) -> Vec<Space> {
    vec![building(if th { 6 } else { 4 }), large(), equal_paths()]
}

fn main() {
    run::main(&[
        Check {
            id: "C26",
            level: "model_checking",
            rule: "one case = one document with one choice of styles, or one table in one surrounding; states = distinct drawings",
            assumptions: &["styles are read from the presentation attributes of the SVG"],
            spaces: c26,
        },
        Check {
            id: "C27",
            level: "model_checking",
            rule: "one case = one sequence of operations on a real routing graph, compared with a plain reference after each; states = distinct sequences or networks",
            assumptions: &["no two nodes of different kinds are put to one place"],
            spaces: c27,
        },
        Check {
            id: "C28",
            level: "model_checking",
            rule: "one case = one point with every other one, one rectangle, or one path",
            assumptions: &[],
            spaces: c28,
        },
        Check {
            id: "C30",
            level: "model_checking",
            rule: "one case = one sequence of steps that build modules, compared with plain lists after each; states = distinct sequences",
            assumptions: &["a module is read back through name(), entries(), fields() and the paths of relations"],
            spaces: c30,
        },
    ]);
}
