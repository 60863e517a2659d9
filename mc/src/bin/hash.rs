//! C20: reproducibility, with the random keys of hash tables under control.
//!
//! The standard library takes the keys of its hash tables from the system's `getrandom`, once per
//! thread. This program supplies that function itself and runs every drawing in a thread of its
//! own, so the keys of an execution are a choice of the explorer.
use seiren_mc::ex::*;
use seiren_mc::model::*;
use seiren_mc::run::{space, Check, Space};
use seiren_mc::*;
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

thread_local! {
    static KEY: Cell<u64> = const { Cell::new(0) };
}
static CALLS: AtomicU64 = AtomicU64::new(0);

/// Replaces the C library's function of this name within this program.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    CALLS.fetch_add(1, Relaxed);
    let mut x = KEY.with(|k| k.get());
    for i in 0..len {
        if i % 8 == 0 {
            x = x.wrapping_add(0x9e3779b97f4a7c15);
        }
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        unsafe { *buf.add(i) = (z >> (8 * (i % 8))) as u8 };
    }
    len as isize
}

struct Run {
    svg: Result<String, String>,
    /// order in which a hash table with four keys is listed under these keys
    probe: Vec<u32>,
}
fn with_key<T: Send>(key: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn_scoped(s, move || {
                KEY.with(|k| k.set(key));
                f()
            })
            .expect("harness: thread")
            .join()
            .unwrap_or_else(|_| panic!("the program panicked while drawing"))
    })
}
fn once(src: &str) -> Result<String, String> {
    let p = pipe::read(src);
    match p.ast {
        Some(a) => Ok(pipe::draw(&a)),
        None => Err("nothing to draw".into()),
    }
}
fn run_in(key: u64, before: &[&str], src: &str) -> Run {
    with_key(key, || {
        let m: HashMap<u32, ()> = (0..4).map(|i| (i, ())).collect();
        let probe = m.keys().copied().collect();
        for b in before {
            let _ = once(b);
        }
        Run { svg: once(src), probe }
    })
}
fn first_diff(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("{}\ninstead of\n{}", x, y);
        }
    }
    format!("{} lines instead of {}", a.lines().count(), b.lines().count())
}
const BEFORE: [&[&str]; 4] = [
    &[],
    &["erd { a { x int } b { } a.x o--o b }"],
    &["erd broken {", "erd { t0 { f0 text PK } t1 { f0 int } t0 o--o t1 t1.f0 o--o t0.f0 }"],
    &["erd { x { a int\nb int\nc int }\ny { }\nz { }\nw { }\nx.a o--o w\nx.c o--o x.a }", "erd { }", "erd { t0 { } }"],
];
fn same(c: &mut Ch, src: &str, keys: u64, before: bool) -> R {
    c.label(src);
    let base = run_in(0, &[], src);
    let mut orders = HashSet::new();
    let mut go = |c: &mut Ch, key: u64, b: usize| -> R {
        let r = run_in(key, BEFORE[b], src);
        c.eval(1);
        orders.insert(r.probe);
        match (&r.svg, &base.svg) {
            (Ok(x), Ok(y)) => ck!(x == y, "the drawing depends on the hash keys or on earlier work (keys {}, earlier work {}): {}", key, b, first_diff(x, y)),
            (x, y) => ck!(x == y, "there is a drawing or none, depending on the hash keys or on earlier work (keys {}, earlier work {})", key, b),
        }
        Ok(())
    };
    for k in 1..=keys {
        go(c, k, 0)?;
    }
    if before {
        for b in 1..BEFORE.len() {
            go(c, 0, b)?;
            go(c, keys + b as u64, b)?;
        }
    }
    if let Ok(s) = &base.svg {
        c.state(s);
    }
    // the keys are under control only if they change the order of hash tables
    assert!(orders.len() > 1, "harness: the hash keys are not under control");
    if orders.len() >= 20 {
        c.tag("20 or more of the 24 orders of a table of 4");
    }
    Ok(())
}
fn choose(c: &mut Ch, t: usize, hs: &[usize], e: usize) -> Doc {
    let ns: Vec<usize> = (0..t).map(|_| *c.of(hs)).collect();
    let mut d = Doc { name: None, entries: ns.iter().enumerate().map(|(i, n)| table(i, *n)).collect() };
    for _ in 0..e {
        let mut end = || {
            let i = c.pick(t);
            let r = c.pick(ns[i] + 1);
            if r == 0 { Path::e(&tname(i)) } else { Path::f(&tname(i), &fname(r - 1)) }
        };
        let (a, b) = (end(), end());
        d.entries.push(Entry::Rel { a, b });
    }
    d
}
fn mods(t: usize, hs: &'static [usize], e: usize, keys: u64) -> Space {
    space(
        &format!("t{}h{}e{}k{}", t, hs.iter().map(|h| h.to_string()).collect::<Vec<_>>().join("."), e, keys),
        &format!("{} tables with {:?} fields each, {} relation(s) between any two elements, under {} different hash keys and after 3 kinds of earlier work", t, hs, e, keys),
        move |c| {
            let d = choose(c, t, hs, e);
            same(c, &d.src(), keys, true)
        },
    )
}
/// larger families, under a few keys
fn family(f: docs::Docs) -> Space {
    let what = format!("{}; under 3 different hash keys", f.what);
    space(&f.name.clone(), &what, move |c| {
        let d = (f.choose)(c);
        same(c, &d.src(), 3, false)
    })
}
/// a drawing after more and more earlier work
fn long_work(max: usize) -> Space {
    space(
        "long-work",
        &format!("4 texts, drawn after every number up to {} of other texts read and drawn in the same thread, all different or all the same", max),
        move |c| {
            let src = match c.pick(4) {
                0 => "erd { a { x int PK\ny text }\nb { }\na.x o--o b }".to_string(),
                1 => "erd `m n` { `a` { }\nb { `x y` uuid FK }\n`a` o--o b.`x y`\na o--o a } rest".to_string(),
                2 => {
                    let mut d = Doc { name: Some("big".into()), entries: (0..7).map(|i| table(i, i % 4)).collect() };
                    for i in 0..9 {
                        d.entries.push(Entry::Rel { a: Path::e(&tname(i * 5 % 7)), b: Path::e(&tname((i * 3 + 1) % 7)) });
                    }
                    d.src()
                }
                _ => "erd { t0 { f0 int }\nt1 { f0 int }\nt0.f0 o--o t1.f0 }".to_string(),
            };
            let vary = c.flag();
            c.label(format!("{} after {} other texts", src, if vary { "different" } else { "equal" }));
            let base = run_in(0, &[], &src).svg;
            if let Ok(s) = &base {
                c.state(s);
            }
            let (s, b) = (&src, &base);
            let bad = with_key(0, move || {
                for i in 0..max {
                    let w = if vary {
                        format!("erd {{ t{} {{ f{} int }}\nt0 {{ f0 text PK }}\nt{} o--o t0.f0{} }}", i, i % 7, i, if i % 5 == 0 { " ?" } else { "" })
                    } else {
                        "erd { t0 { f0 int PK }\nt1 { f0 int }\nt1.f0 o--o t0 }".to_string()
                    };
                    let _ = once(&w);
                    let g = once(s);
                    if g != *b {
                        return Some((i + 1, g));
                    }
                }
                None
            });
            c.eval(max as u64);
            match (bad, &base) {
                (None, _) => Ok(()),
                (Some((i, Ok(g))), Ok(b)) => viol(format!("the drawing after {} other texts differs: {}", i, first_diff(&g, b))),
                (Some((i, _)), _) => viol(format!("there is a drawing or none, depending on {} other texts read before", i)),
            }
        },
    )
}
/// Reads a text from standard input and writes its drawing: for `processes`.
fn child() -> ! {
    let mut src = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut src).expect("harness: input");
    match once(&src) {
        Ok(s) => print!("{}", s),
        Err(e) => print!("{}", e),
    }
    std::process::exit(0)
}
fn processes() -> Space {
    space(
        "processes",
        "5 texts, drawn by a process of its own with each of 20 environment variables set to one of 3 values, with an empty environment, with another name, more arguments, or another working directory, 3 times each",
        |c| {
            const VARS: [&str; 20] = [
                "DEBUG", "SEIREN_DEBUG", "RUST_LOG", "RUST_BACKTRACE", "VERBOSE", "NO_COLOR", "CLICOLOR_FORCE", "TERM", "COLUMNS", "LINES", "LANG", "LC_ALL", "LC_NUMERIC", "TZ",
                "HOME", "USER", "PWD", "TMPDIR", "SOURCE_DATE_EPOCH", "HOSTNAME",
            ];
            let src = *c.of(&[
                "erd { a { x int PK\ny text }\nb { }\na.x o--o b }",
                "erd { }",
                "erd { a { x int }\na { y int }\nb { x int\nx text }\na o--o b.x\na.x o--o a.y\nb.x o--o b }",
                "erd { zz o--o a\na { }\na o--o yy\nb { }\nb o--o a }\n trailing",
                "erd { `\u{e9}` { x timestamp FK }\n`\u{e9}`.x o--o `\u{e9}`\n`\u{e9}`.x o--o `\u{e9}` }",
            ]);
            let k = c.pick(VARS.len() + 4);
            let val = *c.of(&["", "1", "de_DE.UTF-8"]);
            if k >= VARS.len() && val != "1" {
                return Err(Bad::Skip);
            }
            let base = run_in(0, &[], src).svg;
            let mut what = String::new();
            for _ in 0..3 {
                let mut cmd = std::process::Command::new(std::env::current_exe().expect("harness: own name"));
                what = match k {
                    k if k < VARS.len() => {
                        cmd.env(VARS[k], val);
                        format!("{}={:?}", VARS[k], val)
                    }
                    k if k == VARS.len() => {
                        cmd.env_clear();
                        "an empty environment".into()
                    }
                    k if k == VARS.len() + 1 => {
                        std::os::unix::process::CommandExt::arg0(&mut cmd, "debug");
                        "another name".into()
                    }
                    k if k == VARS.len() + 2 => {
                        cmd.args(["--debug", "-v"]);
                        "more arguments".into()
                    }
                    _ => {
                        cmd.current_dir("/");
                        "another working directory".into()
                    }
                };
                cmd.env(CHILD, "1").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
                let mut ch = cmd.spawn().expect("harness: start");
                std::io::Write::write_all(&mut ch.stdin.take().unwrap(), src.as_bytes()).expect("harness: input");
                let o = ch.wait_with_output().expect("harness: wait");
                let got = String::from_utf8_lossy(&o.stdout).into_owned();
                let want = match &base {
                    Ok(s) => s.clone(),
                    Err(e) => e.clone(),
                };
                c.eval(1);
                c.label(format!("{} with {}", src, what));
                ck!(o.status.success(), "the process ends with {}", o.status);
                ck!(got == want, "the drawing depends on the process ({}): {}", what, first_diff(&got, &want));
            }
            c.state(&(src, &what));
            Ok(())
        },
    )
}
const CHILD: &str = "SEIREN_MC_CHILD";
fn c20(th: bool) -> Vec<Space> {
    let k = if th { 120 } else { 40 };
    let mut v = vec![
        space("keys", "6 larger modules under 400 different hash keys each", |c| {
            let i = c.pick(6);
            let src = match i {
                0 => "erd { a { x int PK\ny uuid FK\nz text }\nb { x timestamp\n`quoted \\n` int }\nc { }\nd { k int }\na.x o--o b.x\nb o--o c\nc o--o d.k\nd o--o a.z\na o--o a.y }".to_string(),
                1 => {
                    let mut d = Doc { name: Some("big".into()), entries: (0..12).map(|i| table(i, i % 5)).collect() };
                    for i in 0..24 {
                        d.entries.push(Entry::Rel { a: Path::e(&tname(i * 5 % 12)), b: Path::e(&tname((i * 7 + 1) % 12)) });
                    }
                    d.src()
                }
                2 => "erd { a { x int } a.x o--o a.x\na o--o a\na.x o--o a }".to_string(),
                3 => "erd { a { x int }\na { y int }\nb { x int\nx text }\na o--o b.x\na.x o--o a.y }".to_string(),
                4 => "erd { zz o--o a\na { }\na o--o yy\nb { }\nb o--o a }\n trailing".to_string(),
                _ => Doc { name: None, entries: (0..30).map(|i| table(i, 3)).collect() }.src(),
            };
            same(c, &src, 400, true)
        }),
        mods(1, &[0, 1, 2, 3], 2, k),
        mods(2, &[0, 1, 3], 1, k),
        mods(3, &[0, 2], 1, k),
        mods(4, &[0, 1], 1, k),
        mods(2, &[0, 1], 2, k),
    ];
    if th {
        v.extend([
            mods(2, &[0, 1, 2, 5], 2, k),
            mods(3, &[0, 1, 4], 1, k),
            mods(4, &[0, 2], 1, k),
            mods(5, &[0, 1], 1, k),
            mods(3, &[0, 1], 2, k),
            mods(2, &[0, 1], 3, k),
        ]);
    }
    v.push(family(docs::crowd(if th { 16 } else { 9 })));
    v.push(family(docs::bundle()));
    v.push(family(docs::hub()));
    v.push(long_work(if th { 5000 } else { 700 }));
    v.push(processes());
    v.push(space("orders", "every order of 2 to 4 definitions and 2 to 3 relations, with doubled and undefined names", |c| {
        let parts = ["a { x int }", "b { x int\ny text }", "a { }", "a o--o b", "b.x o--o a.x", "a o--o nil", "b.y o--o b.x"];
        let mut src = String::from("erd {\n");
        for _ in 0..4 {
            src.push_str(parts[c.pick(parts.len())]);
            src.push('\n');
        }
        src.push('}');
        same(c, &src, 24, false)
    }));
    v
}

fn main() {
    if std::env::var_os(CHILD).is_some() {
        child();
    }
    // the main thread's own tables
    KEY.with(|k| k.set(1));
    let t = with_key(7, || {
        let n = CALLS.load(Relaxed);
        let a: HashMap<u32, ()> = (0..64).map(|i| (i, ())).collect();
        let _ = n;
        a.keys().copied().collect::<Vec<_>>()
    });
    let u = with_key(7, || (0..64).map(|i| (i, ())).collect::<HashMap<u32, ()>>().keys().copied().collect::<Vec<_>>());
    if t != u {
        eprintln!("harness: the hash keys are not under control");
        std::process::exit(3);
    }
    run::main(&[Check {
        id: "C20",
        level: "model_checking",
        rule: "one case = one source text, drawn under every one of the enumerated hash keys, each in a thread of its own, and after other drawings; states = distinct drawings",
        assumptions: &["hash keys come from getrandom, as the standard library does it on Linux (the harness fails if they do not follow its choice)"],
        spaces: c20,
    }]);
}
