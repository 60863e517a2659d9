//! C18 and C22: geometry and colors.
use seiren::color::{NamedColor, RGBColor, WebColor};
use seiren::geometry::{Point, Rect, Size};
use seiren_mc::ex::*;
use seiren_mc::run::{space, Check, Space};
use seiren_mc::*;

// ---- C18 ---------------------------------------------------------------------------------------

/// Fraction with positive denominator.
#[derive(Clone, Copy, Debug)]
struct Q(i64, i64);
impl Q {
    fn new(n: i64, d: i64) -> Q {
        if d < 0 { Q(-n, -d) } else { Q(n, d) }
    }
    fn cmp(&self, o: &Q) -> std::cmp::Ordering {
        (self.0 as i128 * o.1 as i128).cmp(&(o.0 as i128 * self.1 as i128))
    }
    fn f(&self) -> f64 {
        self.0 as f64 / self.1 as f64
    }
}
type P = (i64, i64);
#[derive(Clone, Copy, Debug)]
struct B {
    l: i64,
    t: i64,
    r: i64,
    b: i64,
}
#[derive(Debug)]
enum Clip {
    Inside,
    Apart,
    /// parameters of the two ends, and whether the common part is a single point in the middle of
    /// the segment (a corner that is only touched)
    Common(Q, Q, bool),
}
fn clip(a: P, b: P, r: B) -> Clip {
    let strictly = |p: P| p.0 > r.l && p.0 < r.r && p.1 > r.t && p.1 < r.b;
    if strictly(a) && strictly(b) {
        return Clip::Inside;
    }
    let (mut lo, mut hi) = (Q(0, 1), Q(1, 1));
    for (p, d, x0, x1) in [(a.0, b.0 - a.0, r.l, r.r), (a.1, b.1 - a.1, r.t, r.b)] {
        if d == 0 {
            if p < x0 || p > x1 {
                return Clip::Apart;
            }
            continue;
        }
        let (mut u, mut v) = (Q::new(x0 - p, d), Q::new(x1 - p, d));
        if u.cmp(&v).is_gt() {
            std::mem::swap(&mut u, &mut v);
        }
        if u.cmp(&lo).is_gt() {
            lo = u;
        }
        if v.cmp(&hi).is_lt() {
            hi = v;
        }
    }
    match lo.cmp(&hi) {
        std::cmp::Ordering::Greater => Clip::Apart,
        std::cmp::Ordering::Equal => {
            let (dx, dy) = ((b.0 - a.0).abs(), (b.1 - a.1).abs());
            // with powers of two every way to compute the two parameters is exact
            let exact = (dx as u64).is_power_of_two() && (dy as u64).is_power_of_two();
            let mid = lo.cmp(&Q(0, 1)).is_gt() && lo.cmp(&Q(1, 1)).is_lt() && dx != 0 && dy != 0 && !exact;
            Clip::Common(lo, hi, mid)
        }
        _ => Clip::Common(lo, hi, false),
    }
}
fn seg(c: &mut Ch, a: P, b: P, r: B, sc: f64, off: f64) -> R {
    let m = |v: i64| (v as f64 * sc + off) as f32;
    let pt = |p: P| Point::new(m(p.0), m(p.1));
    let rect = Rect::new(pt((r.l, r.t)), Size::new(((r.r - r.l) as f64 * sc) as f32, ((r.b - r.t) as f64 * sc) as f32));
    let (pa, pb) = (pt(a), pt(b));
    let got = rect.intersected_line(&pa, &pb);
    c.eval(1);
    ck!(rect.intersects_line(&pa, &pb) == got.is_some(), "intersects_line and intersected_line disagree for {:?} - {:?} and {:?}", pa, pb, rect);
    match clip(a, b, r) {
        Clip::Inside => ck!(got.is_none(), "{:?} - {:?} lies strictly inside {:?}, but the answer is {:?}", pa, pb, rect, got),
        Clip::Apart => ck!(got.is_none(), "{:?} - {:?} has no point in common with {:?}, but the answer is {:?}", pa, pb, rect, got),
        // whether the touch is seen is up to the rounding of f32
        Clip::Common(_, _, true) => {}
        Clip::Common(lo, hi, false) => {
            let Some((g1, g2)) = got else {
                return viol(format!("{:?} - {:?} meets {:?}, but the answer is none", pa, pb, rect));
            };
            let at = |q: Q| {
                let f = |x: i64, y: i64| (x as f64 + (y - x) as f64 * q.f()) * sc + off;
                (f(a.0, b.0), f(a.1, b.1))
            };
            let (mut w1, mut w2) = (at(lo), at(hi));
            let tol = 1e-4 * (off.abs() + sc.abs() * 10.0).max(1.0);
            let eq = |g: Point, w: (f64, f64)| (g.x as f64 - w.0).abs() <= tol && (g.y as f64 - w.1).abs() <= tol;
            if a.0 > b.0 {
                std::mem::swap(&mut w1, &mut w2);
            }
            let ok = (eq(g1, w1) && eq(g2, w2)) || (a.0 == b.0 && eq(g1, w2) && eq(g2, w1));
            ck!(ok, "{:?} - {:?} meets {:?} from {:?} to {:?}, but the answer is {:?} {:?}", pa, pb, rect, w1, w2, g1, g2);
        }
    }
    Ok(())
}
fn c18(th: bool) -> Vec<Space> {
    let n: i64 = if th { 13 } else { 9 };
    let scales: &'static [(f64, f64)] = &[(1.0, 0.0), (17.5, 50.0), (0.5, -2.25), (128.0, -384.0), (35.0, 10000.0)];
    vec![
        space("segments", &format!("every rectangle with corners on a grid of {0} x {0} (also of no width or height) and every segment between two points of the grid (also of no length), in {1} scales and offsets", n, scales.len()), move |c| {
            let l = c.pick(n as usize) as i64;
            let r = l + c.pick((n - l) as usize) as i64;
            let t = c.pick(n as usize) as i64;
            let b = t + c.pick((n - t) as usize) as i64;
            let (x, y) = (c.pick(n as usize) as i64, c.pick(n as usize) as i64);
            c.label(format!("rectangle {}..{} x {}..{}, segments from ({}, {})", l, r, t, b, x, y));
            c.state(&(l, r, t, b, x, y));
            for (sc, off) in scales {
                for u in 0..n {
                    for v in 0..n {
                        seg(c, (x, y), (u, v), B { l, t, r, b }, *sc, *off)?;
                    }
                }
            }
            Ok(())
        }),
        space("long", "horizontal and vertical segments of up to 16000 against every rectangle of a grid of 5 x 5", |c| {
            let g = [-8000i64, -1, 0, 1, 2, 3, 4, 5, 7999];
            let (l, t) = (c.pick(5) as i64, c.pick(5) as i64);
            let (r, b) = (l + c.pick((5 - l) as usize) as i64, t + c.pick((5 - t) as usize) as i64);
            let (vert, q) = (c.flag(), *c.of(&g));
            c.label(format!("rectangle {}..{} x {}..{}, {} segments at {}", l, r, t, b, if vert { "vertical" } else { "horizontal" }, q));
            c.state(&(l, r, t, b, vert, q));
            for (sc, off) in [(1.0, 0.0), (0.5, 7.5)] {
                for u in g {
                    for v in g {
                        let (p1, p2) = if vert { ((q, u), (q, v)) } else { ((u, q), (v, q)) };
                        seg(c, p1, p2, B { l, t, r, b }, sc, off)?;
                    }
                }
            }
            Ok(())
        }),
        space("rays", "from every point of a grid of 7 x 7 a ray to the end of the number range in each of the 4 directions against every rectangle of the grid that is not behind it", |c| {
            let (l, t) = (c.pick(7) as i64, c.pick(7) as i64);
            let (r, b) = (l + c.pick((7 - l) as usize) as i64, t + c.pick((7 - t) as usize) as i64);
            let (x, y) = (c.pick(7) as i64, c.pick(7) as i64);
            let k = c.pick(4);
            c.label(format!("rectangle {}..{} x {}..{}, ray {} from ({}, {})", l, r, t, b, ["left", "right", "up", "down"][k], x, y));
            // the layout asks only about rectangles in front
            if match k { 0 => r >= x, 1 => l <= x, 2 => b >= y, _ => t <= y } {
                return Err(Bad::Skip);
            }
            c.state(&(l, r, t, b, x, y, k));
            for sc in [1.0f32, 35.0, 17.5] {
                let a = Point::new(x as f32 * sc, y as f32 * sc);
                let e = match k {
                    0 => Point::new(f32::MIN, a.y),
                    1 => Point::new(f32::MAX, a.y),
                    2 => Point::new(a.x, f32::MIN),
                    _ => Point::new(a.x, f32::MAX),
                };
                let rect = Rect::new(Point::new(l as f32 * sc, t as f32 * sc), Size::new((r - l) as f32 * sc, (b - t) as f32 * sc));
                let want = if k < 2 { t <= y && y <= b } else { l <= x && x <= r };
                c.eval(1);
                ck!(rect.intersects_line(&a, &e) == want, "the ray {:?} - {:?} {} {:?}, but the answer is the opposite", a, e, if want { "meets" } else { "misses" }, rect);
            }
            Ok(())
        }),
        space("points", "every rectangle and point of a grid of 9 x 9, in 4 scales and offsets", |c| {
            let (l, t) = (c.pick(9) as i64, c.pick(9) as i64);
            let (r, b) = (l + c.pick((9 - l) as usize) as i64, t + c.pick((9 - t) as usize) as i64);
            c.label(format!("rectangle {}..{} x {}..{}", l, r, t, b));
            c.state(&(l, r, t, b));
            for (sc, off) in [(1.0f32, 0.0f32), (0.25, -1.0), (17.5, 50.0), (1000.0, -4000.0)] {
                let rect = Rect::new(
                    Point::new(l as f32 * sc + off, t as f32 * sc + off),
                    Size::new((r - l) as f32 * sc, (b - t) as f32 * sc),
                );
                for x in 0..9i64 {
                    for y in 0..9i64 {
                        let p = Point::new(x as f32 * sc + off, y as f32 * sc + off);
                        let want = x >= l && x <= r && y >= t && y <= b;
                        c.eval(1);
                        ck!(rect.contains_point(&p) == want, "{:?} contains {:?}: {}", rect, p, !want);
                    }
                }
            }
            Ok(())
        }),
        space("neighbours", "every rectangle with edges from 9 coordinates of both signs and of sizes from a fraction to 2^24, and the points on its edges, in its corners and the representable coordinates right beside them", |c| {
            const V: [f32; 9] = [-4096.0, -35.0, -0.5, 0.0, 0.25, 17.5, 1024.0, 65536.0, 16777216.0];
            let (i, k) = (c.pick(9), c.pick(9));
            let (l, t) = (V[i], V[k]);
            let (r, b) = (V[i + c.pick(9 - i)], V[k + c.pick(9 - k)]);
            c.label(format!("rectangle {}..{} x {}..{}", l, r, t, b));
            c.state(&(l.to_bits(), r.to_bits(), t.to_bits(), b.to_bits()));
            let rect = Rect::new(Point::new(l, t), Size::new(r - l, b - t));
            if rect.max_x() != r || rect.max_y() != b {
                return Ok(());
            }
            for x in [l.next_down(), l, l.next_up(), r.next_down(), r, r.next_up()] {
                for y in [t.next_down(), t, t.next_up(), b.next_down(), b, b.next_up()] {
                    let want = x >= l && x <= r && y >= t && y <= b;
                    c.eval(1);
                    ck!(rect.contains_point(&Point::new(x, y)) == want, "{:?} contains ({:?}, {:?}): {}", rect, x, y, !want);
                }
            }
            Ok(())
        }),
        space("inset", "every rectangle of a grid of 9 x 9, inset by every amount of -6..6 in halves in each direction", |c| {
            let (l, t) = (c.pick(9) as i64 - 4, c.pick(9) as i64 - 4);
            let (w, h) = (c.pick(9) as i64, c.pick(9) as i64);
            c.label(format!("rectangle at ({}, {}) of {} x {}", l, t, w, h));
            c.state(&(l, t, w, h));
            let rect = Rect::new(Point::new(l as f32, t as f32), Size::new(w as f32, h as f32));
            for i in -12..=12 {
                for j in -12..=12 {
                    let (dx, dy) = (i as f32 / 2.0, j as f32 / 2.0);
                    let g = rect.inset_by(dx, dy);
                    c.eval(1);
                    let want = Rect::new(
                        Point::new(l as f32 + dx, t as f32 + dy),
                        Size::new((w as f32 - 2.0 * dx).max(0.0), (h as f32 - 2.0 * dy).max(0.0)),
                    );
                    ck!(g == want, "{:?} inset by ({}, {}) is {:?}", rect, dx, dy, g);
                }
            }
            Ok(())
        }),
    ]
}

// ---- C22 ---------------------------------------------------------------------------------------
const NAMES: &str = "aliceblue antiquewhite aqua aquamarine azure beige bisque black blanchedalmond blue blueviolet brown burlywood cadetblue chartreuse chocolate coral cornflowerblue cornsilk crimson cyan darkblue darkcyan darkgoldenrod darkgray darkgreen darkgrey darkkhaki darkmagenta darkolivegreen darkorange darkorchid darkred darksalmon darkseagreen darkslateblue darkslategray darkslategrey darkturquoise darkviolet deeppink deepskyblue dimgray dimgrey dodgerblue firebrick floralwhite forestgreen fuchsia gainsboro ghostwhite gold goldenrod gray green greenyellow grey honeydew hotpink indianred indigo ivory khaki lavender lavenderblush lawngreen lemonchiffon lightblue lightcoral lightcyan lightgoldenrodyellow lightgray lightgreen lightgrey lightpink lightsalmon lightseagreen lightskyblue lightslategray lightslategrey lightsteelblue lightyellow lime limegreen linen magenta maroon mediumaquamarine mediumblue mediumorchid mediumpurple mediumseagreen mediumslateblue mediumspringgreen mediumturquoise mediumvioletred midnightblue mintcream mistyrose moccasin navajowhite navy oldlace olive olivedrab orange orangered orchid palegoldenrod palegreen paleturquoise palevioletred papayawhip peachpuff peru pink plum powderblue purple red rosybrown royalblue saddlebrown salmon sandybrown seagreen seashell sienna silver skyblue slateblue slategray slategrey snow springgreen steelblue tan teal thistle tomato turquoise violet wheat white whitesmoke yellow yellowgreen";

fn rgb(s: &str) -> Option<(u8, u8, u8)> {
    let h = s.strip_prefix('#')?;
    if h.len() != 6 || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
        return None;
    }
    let v = |i: usize| u8::from_str_radix(&h[i..i + 2], 16).ok();
    Some((v(0)?, v(2)?, v(4)?))
}
fn valid(s: &str) -> bool {
    rgb(s).is_some() || NAMES.split(' ').any(|n| n == s) || s == "transparent" || s == "none"
}
fn c22(th: bool) -> Vec<Space> {
    let n = if th { 4 } else { 3 };
    vec![
        space("rgb", "every one of the 2^24 colors, plain and as a web color", |c| {
            let r = c.pick(256) as u8;
            let g = c.pick(256) as u8;
            c.label(format!("red {}, green {}, every blue", r, g));
            c.state(&(r, g));
            for b in 0..=255u8 {
                let s = RGBColor::new(r, g, b).to_string();
                c.eval(1);
                // reading the same numbers back makes distinct colors distinct texts
                ck!(rgb(&s) == Some((r, g, b)), "the color ({}, {}, {}) is written {:?}", r, g, b, s);
                let w = WebColor::RGB(RGBColor { red: r, green: g, blue: b }).to_string();
                ck!(w == s, "the color ({}, {}, {}) is written {:?} and {:?}", r, g, b, s, w);
            }
            Ok(())
        }),
        space("named", "every named color, plain and as a web color, and the default colors", |c| {
            let (s, w) = match c.pick(4) {
                0 => (NamedColor::White.to_string(), "white"),
                1 => (NamedColor::Black.to_string(), "black"),
                2 => (WebColor::Named(NamedColor::White).to_string(), "white"),
                _ => (WebColor::Named(NamedColor::Black).to_string(), "black"),
            };
            c.label(w);
            c.state(&s);
            c.eval(1);
            ck!(NAMES.split(' ').any(|n| n == s) || rgb(&s).is_some(), "{:?} is not a color of SVG", s);
            let same = s == w || rgb(&s) == Some(if w == "white" { (255, 255, 255) } else { (0, 0, 0) });
            ck!(same, "{} is written {:?}", w, s);
            let d = WebColor::default().to_string();
            ck!(valid(&d) && valid(&RGBColor::default().to_string()), "the default color is written {:?}", d);
            Ok(())
        }),
        space("in-drawing", &format!("a document with {}^8 combinations of colors in its 8 places: every color in the SVG is valid, and each given one is there", n), move |c| {
            use seiren::mir::*;
            let mut given = vec![];
            let mut col = |k: usize| -> Option<WebColor> {
                let w = match c.pick(n) {
                    0 => return None,
                    1 => WebColor::RGB(RGBColor::new(k as u8, 0x0a * k as u8, 0xf0 | k as u8)),
                    2 => WebColor::Named(NamedColor::White),
                    _ => WebColor::Named(NamedColor::Black),
                };
                given.push(w.to_string());
                Some(w)
            };
            let cs: Vec<Option<WebColor>> = (1..=8).map(|k| col(k)).collect();
            let text = |s: &str, c: &Option<WebColor>| TextSpanBuilder::default().text(s).color(c.clone()).build().unwrap();
            let mut doc = Document::new();
            let rec = doc.create_record(RecordShapeBuilder::default().rounded(true).bg_color(cs[0].clone()).border_color(cs[1].clone()).build().unwrap());
            let field = FieldShapeBuilder::default()
                .title(text("a", &cs[4]))
                .subtitle(Some(text("b", &cs[5])))
                .badge(Some(BadgeBuilder::default().text("c").color(cs[6].clone()).bg_color(cs[7].clone()).build().unwrap()))
                .bg_color(cs[2].clone())
                .border_color(cs[3].clone())
                .build()
                .unwrap();
            let f1 = doc.create_field(field.clone());
            let f2 = doc.create_field(field);
            doc.body_mut().append_child(rec);
            doc.get_node_mut(rec).unwrap().append_child(f1);
            doc.get_node_mut(rec).unwrap().append_child(f2);
            c.label(format!("{:?}", given));
            let svg = pipe::draw_doc(&mut doc).0;
            c.state(&svg);
            let root = svgx::parse_xml(&svg).map_err(Bad::Viol)?;
            let mut seen = vec![];
            fn walk(e: &svgx::El, seen: &mut Vec<String>) {
                for n in ["fill", "stroke"] {
                    if let Some(v) = e.attr(n) {
                        seen.push(v.to_string());
                    }
                }
                for k in e.els() {
                    walk(k, seen);
                }
            }
            walk(&root, &mut seen);
            for s in &seen {
                c.eval(1);
                ck!(valid(s), "{:?} is not a color of SVG", s);
            }
            for g in &given {
                ck!(seen.contains(g), "the color {:?} does not appear in the drawing", g);
            }
            Ok(())
        }),
    ]
}

fn main() {
    run::main(&[
        Check {
            id: "C18",
            level: "model_checking",
            rule: "one case = one rectangle and one first point, against every second point of the grid in every scale; each comparison is with exact rational clipping; states = distinct cases",
            assumptions: &["coordinates are multiples of 1/4 up to 16384, which f32 represents exactly; a segment that only touches a corner with a point between its ends may be answered either way, unless its width and height are powers of two so that all arithmetic is exact"],
            spaces: c18,
        },
        Check {
            id: "C22",
            level: "model_checking",
            rule: "one case = one (red, green) with every blue, one named color, or one colored document",
            assumptions: &["the 147 names of SVG 1.1 are the color names SVG knows"],
            spaces: c22,
        },
    ]);
}
