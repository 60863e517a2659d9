//! C17, C25, C29: the real executable.
use seiren_mc::ex::*;
use seiren_mc::model::*;
use seiren::parser::Token;
use seiren_mc::reflang::{self, S, T};
use seiren_mc::run::{space, Check, Space};
use seiren_mc::*;
use std::cell::RefCell;
use std::ffi::OsStr;
use std::fs::File;
use std::io::{Read, Seek, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

extern "C" {
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    fn signal(n: i32, h: usize) -> usize;
    fn ioctl(fd: i32, req: u64, arg: *mut i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;
const FIONREAD: u64 = 0x541B;

fn exe() -> PathBuf {
    if let Ok(p) = std::env::var("SEIREN_CLI") {
        return p.into();
    }
    std::env::current_exe().unwrap().with_file_name("seiren")
}
static DIRS: AtomicU64 = AtomicU64::new(0);
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!("seiren-mc-cli-{}-{}", std::process::id(), DIRS.fetch_add(1, Relaxed)));
        std::fs::create_dir_all(&d).expect("harness: scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
thread_local! {
    static SCRATCH: RefCell<Scratch> = RefCell::new(Scratch::new());
}
fn scratch() -> PathBuf {
    SCRATCH.with(|s| s.borrow().0.clone())
}
fn os_pipe() -> (OwnedFd, OwnedFd) {
    let mut f = [0i32; 2];
    assert!(unsafe { pipe(f.as_mut_ptr()) } == 0, "harness: pipe");
    for x in f {
        unsafe { fcntl(x, 2, 1) }; // FD_CLOEXEC
    }
    unsafe { (OwnedFd::from_raw_fd(f[0]), OwnedFd::from_raw_fd(f[1])) }
}

struct Out {
    status: ExitStatus,
    out: Vec<u8>,
    err: Vec<u8>,
}
impl Out {
    fn how(&self) -> String {
        match (self.status.code(), self.status.signal()) {
            (Some(c), _) => format!("exit status {}", c),
            (_, Some(s)) => format!("signal {}", s),
            _ => "unknown".into(),
        }
    }
    fn panicked(&self) -> bool {
        self.status.code() == Some(101) || self.status.signal().is_some()
    }
}
enum Input<'a> {
    File(&'a [u8]),
    /// standard input, each piece only after the one before has been taken
    Pieces(&'a [&'a [u8]]),
    StdinFile(&'a [u8]),
}
fn read_back(f: &mut File) -> Vec<u8> {
    let mut v = vec![];
    f.rewind().expect("harness: rewind");
    f.read_to_end(&mut v).expect("harness: read");
    v
}
fn tmp_file(name: &str) -> File {
    let p = scratch().join(name);
    let f = File::options().create(true).truncate(true).read(true).write(true).open(&p).expect("harness: scratch file");
    f
}
fn run_cli(input: Input) -> Out {
    let mut cmd = Command::new(exe());
    let mut pieces: Option<(&[&[u8]], OwnedFd, OwnedFd)> = None;
    match input {
        Input::File(b) => {
            let p = scratch().join("in.seiren");
            std::fs::write(&p, b).expect("harness: input file");
            cmd.arg(&p).stdin(Stdio::null());
        }
        Input::StdinFile(b) => {
            let mut f = tmp_file("in");
            f.write_all(b).expect("harness: input file");
            f.rewind().expect("harness: rewind");
            cmd.stdin(f);
        }
        Input::Pieces(ps) => {
            let (r, w) = os_pipe();
            cmd.stdin(r.try_clone().expect("harness: dup"));
            pieces = Some((ps, r, w));
        }
    }
    // files rather than pipes, so that neither side can block
    let (mut fo, mut fe) = (tmp_file("out"), tmp_file("err"));
    cmd.stdout(fo.try_clone().unwrap()).stderr(fe.try_clone().unwrap());
    let mut ch = cmd.spawn().expect("harness: the executable does not start");
    drop(cmd);
    if let Some((ps, r, w)) = pieces {
        let mut wf = File::from(w);
        for p in ps {
            if p.is_empty() {
                continue;
            }
            if wf.write_all(p).is_err() {
                break;
            }
            // wait until the reader has taken it (or is gone)
            loop {
                let mut n = 0i32;
                if unsafe { ioctl(r.as_raw_fd(), FIONREAD, &mut n) } != 0 || n == 0 {
                    break;
                }
                if let Ok(Some(_)) = ch.try_wait() {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_micros(50));
            }
        }
        drop(wf);
        drop(r);
    }
    let status = ch.wait().expect("harness: wait");
    Out { status, out: read_back(&mut fo), err: read_back(&mut fe) }
}
/// What the library gives for a text: the drawing, if any, and whether there are diagnostics.
fn library(src: &str) -> (Option<String>, bool) {
    let p = pipe::read(src);
    let bad = !p.ok();
    (p.ast.map(|a| pipe::draw(&a)), bad)
}
fn judge(c: &mut Ch, bytes: &[u8], o: &Out) -> R {
    c.eval(1);
    match std::str::from_utf8(bytes) {
        Err(_) => {
            c.tag("not UTF-8");
            ck!(!o.status.success(), "the input is not UTF-8, but the exit status is zero");
            ck!(o.out.is_empty(), "the input is not UTF-8, but {} bytes are written to standard output", o.out.len());
        }
        Ok(s) => {
            let (svg, bad) = library(s);
            c.state(&(&svg, bad));
            c.tag(if bad { "text with errors" } else { "text without errors" });
            ck!(!o.panicked(), "the tool ends with {}: {}", o.how(), String::from_utf8_lossy(&o.err).lines().last().unwrap_or(""));
            ck!(o.status.success(), "the tool ends with {} for a readable text", o.how());
            let want = svg.unwrap_or_default();
            ck!(o.out == want.as_bytes(), "standard output has {} bytes and is not the drawing of {} bytes", o.out.len(), want.len());
            ck!(o.err.is_empty() != bad, "the text has {} errors, but standard error has {} bytes", if bad { "some" } else { "no" }, o.err.len());
        }
    }
    Ok(())
}
fn samples() -> Vec<String> {
    let mut d = Doc { name: Some("m".into()), entries: vec![table(0, 2), table(1, 1), table(2, 0)] };
    d.entries.push(Entry::Rel { a: Path::f("t0", "f1"), b: Path::e("t2") });
    vec![
        d.src(),
        "erd { `é\u{1F600}` { `\\u00e9` int PK } // ü\n}".into(),
        "erd { a { x int } b { } a.x o--o b }\n".into(),
        "erd {\n  a {\n    x int\n    y\n  }\n  é\n}\n".into(),
        "erd { a {".into(),
        "".into(),
    ]
}
fn both(c: &mut Ch, b: &[u8]) -> R {
    let o = if c.flag() { run_cli(Input::StdinFile(b)) } else { run_cli(Input::File(b)) };
    judge(c, b, &o)
}

fn limited(o: &mut File, limit: u64, src: &[u8]) -> Out {
    let mut f = tmp_file("in");
    f.write_all(src).expect("harness: input file");
    f.rewind().unwrap();
    let (mut fe, out) = (tmp_file("err"), o.try_clone().unwrap());
    // diagnostics do not count: a pipe has no size limit, and these texts have none
    let mut cmd = Command::new(exe());
    cmd.env("RUST_BACKTRACE", "0");
    cmd.stdin(f).stdout(out).stderr(fe.try_clone().unwrap());
    unsafe {
        cmd.pre_exec(move || {
            signal(SIGXFSZ, 1); // ignored: the write fails instead
            if setrlimit(RLIMIT_FSIZE, &[limit, limit]) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let status = cmd.spawn().expect("harness: the executable does not start").wait().expect("harness: wait");
    Out { status, out: read_back(o), err: read_back(&mut fe) }
}

fn c17(th: bool) -> Vec<Space> {
    let al = reflang::alphabet();
    let nt = if th { 4 } else { 3 };
    let chars: &'static [char] = &['e', 'r', 'd', ' ', '{', '}', '\n', 'a', '.', 'o', '-', '/', '`', '\\', 'é', '"', '\r', '\u{0}', '\u{feff}', '\u{1a}'];
    let nc = if th { 3 } else { 2 };
    vec![
        space("tokens", &format!("every sequence of up to {} of the 14 tokens, as a file and on standard input", nt), move |c| {
            let mut v = vec![];
            for _ in 0..nt {
                let k = c.pick(al.len() + 1);
                if k == 0 {
                    break;
                }
                v.push(al[k - 1].clone());
            }
            let s = texts::render(&v, 0);
            c.label(s.clone());
            both(c, s.as_bytes())
        }),
        space("characters", &format!("every string of up to {} of {} characters in 7 contexts, as a file and on standard input", nc, chars.len()), move |c| {
            let (a, b) = *c.of(&[("", ""), ("", "erd { a { } }"), ("erd { }", ""), ("erd {", "}"), ("erd { a { x int", "} b { } a.x o--o b }"), ("erd { a {}\n", "\na o--o a }"), ("erd { `é", "` { } }")]);
            let mut s = String::from(a);
            for _ in 0..nc {
                let k = c.pick(chars.len() + 1);
                if k == 0 {
                    break;
                }
                s.push(chars[k - 1]);
            }
            s.push_str(b);
            c.label(s.clone());
            both(c, s.as_bytes())
        }),
        space("truncations", "every prefix and suffix, and every text with one byte removed, of 6 texts, as a file and on standard input", |c| {
            let s = samples();
            let b = s[c.pick(s.len())].as_bytes().to_vec();
            let i = c.pick(b.len() + 1);
            let t: Vec<u8> = match c.pick(3) {
                0 => b[..i].to_vec(),
                1 => b[i..].to_vec(),
                _ => b.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, x)| *x).collect(),
            };
            c.label(String::from_utf8_lossy(&t).to_string());
            both(c, &t)
        }),
        space("bytes", "every byte value above 127 and every pair of bytes from 15 starting or continuing a character, at the begin, in the middle and at the end of a text, in a file and on standard input", |c| {
            let base = b"erd { `ab` { x int } }";
            let at = *c.of(&[0usize, 8, 22]);
            let pair: &[u8] = &[0x80, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff, 0xa0, 0x9f, 0xbb];
            let ins: Vec<u8> = if c.flag() { vec![0x80 + c.pick(128) as u8] } else { vec![*c.of(pair), *c.of(pair)] };
            let mut t = base[..at].to_vec();
            t.extend(&ins);
            t.extend(&base[at..]);
            c.label(format!("bytes {:02x?} at {}", ins, at));
            both(c, &t)
        }),
        space("counts", "modules of 0 to 40, 63 to 65, 99 to 101, 127 to 129 and 255 to 257 tables, fields, relations of one row, relations among as many tables, undefined relations or errors, as a file and on standard input", |c| {
            let mut ns: Vec<usize> = (0..=40).collect();
            ns.extend([63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]);
            let n = *c.of(&ns);
            let rep = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join("\n");
            let s = match c.pick(6) {
                0 => format!("erd {{ {} }}", rep(&|i| format!("t{} {{ x int }}", i))),
                1 => format!("erd {{ t {{ {} }} }}", rep(&|i| format!("x{} text FK", i))),
                2 => format!("erd {{ a {{ x int }}; b {{ }}\n{} }}", rep(&|_| "a.x o--o b".into())),
                3 if n <= 70 => format!("erd {{ {} }}", rep(&|i| format!("t{} {{ x int }}; t{}.x o--o t0", i, i))),
                4 => format!("erd {{ a {{ x int }}\n{} }}", rep(&|i| format!("a.x o--o b.y{}", i))),
                5 => format!("erd {{ a {{ }}\n}} {}", rep(&|_| "?".into())),
                _ => return Err(Bad::Skip),
            };
            c.label(s.clone());
            both(c, s.as_bytes())
        }),
        space("two-pieces", "6 texts on standard input, split in two pieces at every byte", |c| {
            let s = samples();
            let b = s[c.pick(s.len())].as_bytes().to_vec();
            let i = c.pick(b.len() + 1);
            c.label(format!("{} | {}", String::from_utf8_lossy(&b[..i]), String::from_utf8_lossy(&b[i..])));
            let o = run_cli(Input::Pieces(&[&b[..i], &b[i..]]));
            judge(c, &b, &o)
        }),
        space("three-pieces", &format!("{} on standard input, split in three pieces at every two bytes, and into single bytes", if th { "3 texts" } else { "2 texts" }), move |c| {
            let s = samples();
            let b = s[1 + c.pick(if th { 3 } else { 2 })].as_bytes().to_vec();
            let i = c.pick(b.len() + 1);
            let o = if i == 0 {
                let ps: Vec<&[u8]> = b.chunks(1).collect();
                c.label(format!("single bytes of {}", String::from_utf8_lossy(&b)));
                run_cli(Input::Pieces(&ps))
            } else {
                let j = i + c.pick(b.len() - i + 1);
                c.label(format!("{} | {} | {}", String::from_utf8_lossy(&b[..i]), String::from_utf8_lossy(&b[i..j]), String::from_utf8_lossy(&b[j..])));
                run_cli(Input::Pieces(&[&b[..i], &b[i..j], &b[j..]]))
            };
            judge(c, &b, &o)
        }),
        space("large", "texts of 2^k - 1, 2^k and 2^k + 1 bytes with k from 5 to 17, as a file, on standard input whole, and in pieces of 5 sizes", |c| {
            let k = 5 + c.pick(13);
            let n = (1usize << k) - 1 + c.pick(3);
            let body = "erd { a { x int }\nb { } a.x o--o b }\n".replace("\nb", "; b").replace("} a.x", "}; a.x");
            let mut s = body.clone();
            s.push_str("//");
            if s.len() > n {
                s = " ".repeat(n);
            }
            // multi-byte characters, so that a piece ends within one
            while s.len() + 4 <= n {
                s.push('\u{1F600}');
            }
            while s.len() < n {
                s.push('x');
            }
            let how = c.pick(7);
            c.label(format!("{} bytes, way {}", n, how));
            let b = s.as_bytes();
            let o = match how {
                0 => run_cli(Input::File(b)),
                1 => run_cli(Input::StdinFile(b)),
                h => {
                    let sz = [7usize, 333, 4096, 4097, 65536][h - 2].max(n / 2000);
                    let ps: Vec<&[u8]> = b.chunks(sz).collect();
                    run_cli(Input::Pieces(&ps))
                }
            };
            judge(c, b, &o)
        }),
        space("huge", &format!("texts of 1, 2, 4, 8{} MiB, up to a line less or more: a module, many lines of comment, and more of the module, as a file and on standard input", if th { ", 16, 32" } else { " and 10" }), move |c| {
            let m: &[usize] = if th { &[1, 2, 4, 8, 10, 16, 32] } else { &[1, 2, 4, 8, 10] };
            let n = c.of(m) << 20;
            let n = if c.flag() { n + 5 } else { n - 1010 };
            let broken = c.flag();
            let mut s = String::from("erd { a { x int }\n");
            let line = format!("// {}é\n", "-".repeat(994));
            s.push_str(&line.repeat((n - s.len()) / line.len() + 1));
            s.push_str(if broken { "b { }\na.x o--o b\n" } else { "b { }\na.x o--o b }\n" });
            c.label(format!("{} bytes{}", s.len(), if broken { ", without the end" } else { "" }));
            both(c, s.as_bytes())
        }).threads(2),
        space("output-cut", "the output file can take only n bytes, for every n up to two more than the drawing has, for 3 texts", move |c| {
            let s = [samples().swap_remove(0), samples().swap_remove(1), "erd { }".to_string()];
            let src = &s[c.pick(3)];
            let (svg, _) = library(src);
            let svg = svg.unwrap_or_default();
            let n = c.pick(svg.len() + 3);
            c.label(format!("{} bytes of {} for {}", n, svg.len(), src));
            let mut f = tmp_file("out");
            let o = limited(&mut f, n as u64, src.as_bytes());
            c.eval(1);
            c.state(&(n, svg.len(), o.status.success()));
            if n < svg.len() {
                c.tag("output cut");
                ck!(!o.status.success(), "only {} of {} bytes could be written, but the exit status is zero", o.out.len(), svg.len());
                ck!(o.out.len() <= n && svg.as_bytes().starts_with(&o.out), "what was written is not the begin of the drawing");
            } else {
                ck!(o.status.success() && o.out == svg.as_bytes(), "all {} bytes could be written, but {} with {} bytes", svg.len(), o.how(), o.out.len());
            }
            Ok(())
        }),
        space("no-output", "standard output is a full device, or a pipe nobody reads, for 6 texts", |c| {
            let s = samples();
            let src = &s[c.pick(s.len())];
            let full = c.flag();
            c.label(format!("{} for {}", if full { "/dev/full" } else { "closed pipe" }, src));
            let (svg, bad) = library(src);
            let out: Stdio = if full {
                match File::options().write(true).open("/dev/full") {
                    Ok(f) => f.into(),
                    Err(_) => return Err(Bad::Skip),
                }
            } else {
                let (r, w) = os_pipe();
                drop(r);
                w.into()
            };
            let p = scratch().join("in.seiren");
            std::fs::write(&p, src).expect("harness: input file");
            let mut fe = tmp_file("err");
            let st = Command::new(exe()).arg(&p).stdin(Stdio::null()).stdout(out).stderr(fe.try_clone().unwrap()).status().expect("harness: start");
            let o = Out { status: st, out: vec![], err: read_back(&mut fe) };
            c.eval(1);
            c.state(&(full, src.len()));
            match svg {
                Some(_) => ck!(!o.status.success(), "the drawing cannot be written, but the exit status is zero"),
                None => ck!(o.status.success(), "there is nothing to write, but the tool ends with {}", o.how()),
            }
            ck!(!bad || !o.err.is_empty(), "the text has errors, but standard error is empty");
            Ok(())
        }),
        space("no-input", "the file does not exist, is a directory, lies in a file, has an empty or too long name; standard input is a directory", |c| {
            let d = scratch();
            let f = d.join("plain");
            std::fs::write(&f, "erd { }").expect("harness: input file");
            let k = c.pick(6);
            let mut cmd = Command::new(exe());
            cmd.stdin(Stdio::null());
            match k {
                0 => {
                    cmd.arg(d.join("missing.seiren"));
                }
                1 => {
                    cmd.arg(&d);
                }
                2 => {
                    cmd.arg(f.join("x"));
                }
                3 => {
                    cmd.arg("");
                }
                4 => {
                    cmd.arg(d.join("x".repeat(300)));
                }
                _ => {
                    cmd.stdin(File::open(&d).expect("harness: directory"));
                }
            }
            c.label(["missing file", "directory", "path through a file", "empty name", "too long name", "standard input is a directory"][k]);
            let o = cmd.output().expect("harness: start");
            c.eval(1);
            c.state(&k);
            ck!(!o.status.success(), "the input cannot be read, but the exit status is zero");
            ck!(o.stdout.is_empty(), "the input cannot be read, but something is drawn");
            ck!(!o.stderr.is_empty(), "the input cannot be read, and nothing says so");
            Ok(())
        }),
        space("file-names", "a file under any of 20 names, four of them not UTF-8, with other arguments behind it", |c| {
            let ns: [&[u8]; 20] = [
                b"a.seiren", b"-", b"--help", b"x y", "é".as_bytes(), b"(stdin)", b"{}", b"a\nb", b"%s", b"\"", b"-h", b"\x1b[0m",
                b"a\xff.erd", b"\xc3", b"\xed\xa0\x80", b"\x80\xe9", b"--", b"sub/./../a", b" ", b"~",
            ];
            let n = OsStr::from_bytes(c.of(&ns));
            let src = ["erd { a { } }", "erd { a {"][c.pick(2)];
            let more = c.flag();
            c.label(format!("{:?} {:?}{}", n, src, if more { " and another argument" } else { "" }));
            let d = scratch();
            std::fs::create_dir_all(d.join("sub")).expect("harness: directory");
            std::fs::write(d.join(n), src).expect("harness: input file");
            let mut cmd = Command::new(exe());
            cmd.arg(n).current_dir(&d).stdin(Stdio::null());
            if more {
                cmd.arg("nonsense");
            }
            let o = cmd.output().expect("harness: start");
            let _ = std::fs::remove_file(d.join(n));
            let o = Out { status: o.status, out: o.stdout, err: o.stderr };
            judge(c, src.as_bytes(), &o)
        }),
        space("environments", "6 texts, as a file with an absolute or relative name or on standard input, with each of 24 environment variables set (to 3 values) or all at once, an empty environment, or another working directory", |c| {
            const VARS: [&str; 24] = [
                "DEBUG", "SEIREN_DEBUG", "RUST_LOG", "RUST_BACKTRACE", "VERBOSE", "TRACE", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "COLORTERM", "TERM", "COLUMNS",
                "LINES", "LANG", "LC_ALL", "LC_NUMERIC", "TZ", "HOME", "USER", "PWD", "TMPDIR", "CI", "SOURCE_DATE_EPOCH", "PAGER",
            ];
            let s = samples();
            let src = &s[c.pick(s.len())];
            let how = c.pick(3);
            let k = c.pick(VARS.len() + 3);
            let val = *c.of(&["", "1", "de_DE.UTF-8"]);
            let away = c.flag();
            if k > VARS.len() && val != "1" {
                return Err(Bad::Skip);
            }
            let d = scratch();
            let sub = d.join("sub");
            std::fs::create_dir_all(&sub).expect("harness: directory");
            std::fs::write(d.join("in.seiren"), src).expect("harness: input file");
            let mut cmd = Command::new(exe());
            cmd.current_dir(if away { &sub } else { &d });
            match how {
                0 => {
                    cmd.arg(d.join("in.seiren")).stdin(Stdio::null());
                }
                1 => {
                    cmd.arg(if away { "../in.seiren" } else { "in.seiren" }).stdin(Stdio::null());
                }
                _ => {
                    cmd.stdin(File::open(d.join("in.seiren")).expect("harness: input file"));
                }
            }
            let what = match k {
                k if k < VARS.len() => {
                    cmd.env(VARS[k], val);
                    format!("{}={:?}", VARS[k], val)
                }
                k if k == VARS.len() => {
                    VARS.iter().for_each(|v| {
                        cmd.env(v, val);
                    });
                    format!("all variables {:?}", val)
                }
                k if k == VARS.len() + 1 => {
                    cmd.env_clear();
                    "empty environment".into()
                }
                _ => "usual environment".into(),
            };
            c.label(format!("{}, way {}, {}: {:?}", what, how, if away { "elsewhere" } else { "beside the file" }, src));
            let o = cmd.output().expect("harness: start");
            judge(c, src.as_bytes(), &Out { status: o.status, out: o.stdout, err: o.stderr })
        }),
        space("reader", "drawings of 3 sizes into a pipe of 4096 or 65536 bytes whose reader takes 1, 100, 4096 or 65536 bytes at a time and leaves after 0, 1, 4096 bytes, half, or never", |c| {
            let mut d = Doc { name: None, entries: (0..*c.of(&[1usize, 40, 150])).map(|i| table(i, 5)).collect() };
            d.entries.push(Entry::Rel { a: Path::e("t0"), b: Path::f("t0", "f1") });
            let src = d.src();
            let (svg, _) = library(&src);
            let svg = svg.unwrap_or_default().into_bytes();
            let cap = *c.of(&[4096usize, 65536]);
            let piece = *c.of(&[1usize, 100, 4096, 65536]);
            let leave = *c.of(&[Some(0), Some(1), Some(4096), Some(svg.len() / 2), None]);
            if piece == 1 && leave.unwrap_or(svg.len()) > 5000 && svg.len() > 5000 {
                return Err(Bad::Skip);
            }
            c.label(format!("drawing of {} bytes, pipe of {}, {} at a time, leaves after {:?}", svg.len(), cap, piece, leave));
            let (r, w) = os_pipe();
            // F_SETPIPE_SZ; without it the pipe keeps its usual size, so the real one counts
            unsafe { fcntl(w.as_raw_fd(), 1031, cap as i32) };
            let cap = unsafe { fcntl(w.as_raw_fd(), 1032, 0) }.max(65536.min(cap as i32)) as usize;
            let mut f = tmp_file("in");
            f.write_all(src.as_bytes()).expect("harness: input file");
            f.rewind().unwrap();
            let mut fe = tmp_file("err");
            let mut cmd = Command::new(exe());
            cmd.stdin(f).stdout(w).stderr(fe.try_clone().unwrap());
            let mut ch = cmd.spawn().expect("harness: the executable does not start");
            drop(cmd);
            let mut got = vec![];
            let mut rf = File::from(r);
            let mut buf = vec![0u8; piece];
            while got.len() < leave.unwrap_or(usize::MAX) {
                let n = rf.read(&mut buf).expect("harness: read");
                if n == 0 {
                    break;
                }
                got.extend_from_slice(&buf[..n]);
            }
            drop(rf);
            let o = Out { status: ch.wait().expect("harness: wait"), out: got, err: read_back(&mut fe) };
            c.eval(1);
            c.state(&(svg.len(), cap, piece, leave, o.status.success()));
            ck!(svg.starts_with(&o.out), "what was written is not the begin of the drawing");
            if leave.is_none() {
                c.tag("all read");
                ck!(o.out == svg && o.status.success() && o.err.is_empty(), "{} of {} bytes arrive, and the tool ends with {}", o.out.len(), svg.len(), o.how());
            } else if svg.len() > o.out.len() + cap {
                c.tag("reader left before the end");
                ck!(!o.status.success(), "the reader left after {} of {} bytes, but the exit status is zero", o.out.len(), svg.len());
            }
            Ok(())
        }),
    ]
}

// ---- C25 ---------------------------------------------------------------------------------------

/// without terminal colors
fn plain(err: &str) -> String {
    let mut s = String::new();
    let mut it = err.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            s.push(c);
        }
    }
    s
}
/// the place a line of a report heads it with: (name, line, column)
fn place(l: &str) -> Option<(String, usize, usize)> {
    let l = l.trim_start().strip_prefix('╭')?;
    let l = l.trim_start_matches(['─', '-', ' ']).strip_prefix('[')?.trim_end().strip_suffix(']')?;
    let (l, col) = l.rsplit_once(':')?;
    let (name, line) = l.rsplit_once(':')?;
    Some((name.trim().to_string(), line.trim().parse().ok()?, col.trim().parse().ok()?))
}
/// Where the reports on standard error say they are: (name, line, column) of each, in order.
fn reports(err: &str) -> Vec<(String, usize, usize)> {
    plain(err).lines().filter_map(place).collect()
}
/// Line and column, counted from 1 in characters, of the `p`-th character. Behind the end of the
/// text, which is behind a line break, also the last line is right.
fn places(src: &str, p: usize) -> Vec<(usize, usize)> {
    let s: Vec<char> = src.chars().collect();
    let start = |end: usize| s[..end].iter().rposition(|c| *c == '\n').map(|i| i + 1).unwrap_or(0);
    let line = |at: usize| s[..at].iter().filter(|c| **c == '\n').count() + 1;
    let mut v = vec![];
    let a = start(p);
    v.push((line(a), p - a + 1));
    if p == s.len() && p > 0 && s[p - 1] == '\n' {
        let a = start(p - 1);
        v.push((line(a), p - a + 1));
    }
    v
}
fn reported(c: &mut Ch, src: &str) -> R {
    // where lines end is clear only for these
    let cs: Vec<char> = src.chars().collect();
    if cs.iter().enumerate().any(|(i, c)| matches!(c, '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}') || (*c == '\r' && cs.get(i + 1) != Some(&'\n'))) {
        return Err(Bad::Skip);
    }
    let p = pipe::read(src);
    let want: Vec<(usize, usize)> = p.lex.iter().chain(&p.syn).copied().collect();
    let (o, name) = if cs.len() % 2 == 1 {
        (run_cli(Input::StdinFile(src.as_bytes())), "(stdin)".to_string())
    } else {
        (run_cli(Input::File(src.as_bytes())), scratch().join("in.seiren").to_string_lossy().to_string())
    };
    ck!(!o.panicked(), "the tool ends with {}", o.how());
    let err = String::from_utf8_lossy(&o.err).to_string();
    let got = reports(&err);
    c.state(&(src, &got));
    c.eval(1 + got.len() as u64);
    c.tag(match want.len() {
        0 => "no error",
        1 => "1 error",
        2 => "2 errors",
        _ => "3 or more errors",
    });
    ck!(got.len() == want.len(), "the text has {} errors, but {} are reported", want.len(), got.len());
    for (g, w) in got.iter().zip(&want) {
        ck!(g.0 == name, "an error is reported in {:?} instead of {:?}", g.0, name);
        let v = places(src, w.0);
        ck!(v.contains(&(g.1, g.2)), "an error at line and column {:?} is reported at {:?}", v[0], (g.1, g.2));
    }
    Ok(())
}
fn many_errors() -> Space {
    space("many", "modules of up to 12 lines of which any have an error, the lines preceded by up to 3 blank lines or comments with characters of several bytes, with \\n or \\r\\n", |c| {
        let nl = if c.flag() { "\r\n" } else { "\n" };
        let pad = ["", "\n", "// é\u{1F600} x\n\n", "  \n\t\n// `\n"][c.pick(4)];
        let n = *c.of(&[1usize, 2, 5, 12]);
        let bad = c.pick(4096 >> (12 - n));
        let kind = c.pick(3);
        let mut s = format!("{}erd {{\n", pad);
        for i in 0..n {
            s += &if bad >> i & 1 == 0 {
                format!("  `é{}` {{ x int }}\n", i)
            } else {
                [format!("  `é{}` $\n", i), format!("  a{} {{ x int int }}\n", i), format!("\t`\u{1F600}` o--o {}\n", "}")][kind].clone()
            };
        }
        s += "}\n";
        let s = s.replace('\n', nl);
        c.label(s.clone());
        reported(c, &s)
    })
}
fn numerous() -> Space {
    space("numerous", "1 to 300 errors of 6 kinds in one text, each on a line of its own or all on one line", |c| {
        let n = *c.of(&[1usize, 2, 3, 9, 10, 11, 12, 20, 21, 31, 32, 33, 50, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300]);
        let kind = c.pick(6);
        let line = c.flag();
        let e = ["$", "##", "a { x int int }", "`\u{1F600}` o--o }", "é { `", "\"x\" é"][kind];
        let sep = if line { "\n" } else { if kind == 4 { return Err(Bad::Skip) } "; " };
        let s = format!("erd {{\n{}\n}}", vec![e; n].join(sep));
        c.label(if n > 5 { format!("{} times {:?}, separated by {:?}", n, e, sep) } else { s.clone() });
        reported(c, &s)
    })
}
fn named() -> Space {
    space("named", "a text with 1, 2 or 11 errors under any of 20 paths, relative or absolute, with `.`, `..`, directories, colons and brackets", |c| {
        let d = scratch();
        let abs = d.join("in").to_string_lossy().to_string();
        let abs2 = format!("{}/./b/../in.erd", d.to_string_lossy());
        let ns: [&[u8]; 20] = [
            b"a.erd", b"./a.erd", b"b/a.erd", b"./b/../a.erd", b"b//a.erd", b"-", b"x y", "é\u{1F600}".as_bytes(), b"(stdin)", b"a:1:2", b"[a]",
            b"a]", b"b/c/x", b"b\\a", b"~", b"a\xff", b"--stdin", b"'a'", abs.as_bytes(), abs2.as_bytes(),
        ];
        let n = OsStr::from_bytes(c.of(&ns));
        let e = vec!["$"; *c.of(&[1usize, 2, 11])].join(" ;");
        let src = format!("erd {{ {} }}", e);
        c.label(format!("{:?}: {}", n, src));
        std::fs::create_dir_all(d.join("b/c")).expect("harness: directory");
        std::fs::write(d.join(n), &src).expect("harness: input file");
        let o = Command::new(exe()).arg(n).current_dir(&d).stdin(Stdio::null()).output().expect("harness: start");
        let _ = std::fs::remove_file(d.join(n));
        c.eval(1);
        let p = pipe::read(&src);
        let want: Vec<_> = p.lex.iter().chain(&p.syn).map(|w| (n.to_string_lossy().to_string(), 1, w.0 + 1)).collect();
        let got = reports(&String::from_utf8_lossy(&o.stderr));
        c.state(&(n, want.len()));
        ck!(got == want, "reported are {:?} instead of {:?}", got, want);
        Ok(())
    })
}
fn c25(th: bool) -> Vec<Space> {
    let j: texts::Judge = reported;
    vec![
        texts::tokens_all(if th { 4 } else { 3 }, j),
        texts::edits(1, j),
        texts::strings(if th { 3 } else { 2 }, &texts::HOLES, j),
        many_errors(),
        numerous(),
        named(),
        texts::far(j),
    ]
}

// ---- C29 ---------------------------------------------------------------------------------------
/// What the implementation calls a token; identifiers with their characters.
fn tok_of(t: &T) -> Token {
    match t {
        T::Erd => Token::Erd,
        T::Ident(s) => Token::Ident(s.clone()),
        T::Ty(Ty::Int) => Token::Int,
        T::Ty(Ty::Uuid) => Token::Uuid,
        T::Ty(Ty::Text) => Token::Text,
        T::Ty(Ty::Timestamp) => Token::Timestamp,
        T::Key(Key::Pk) => Token::PK,
        T::Key(Key::Fk) => Token::FK,
        T::Open => Token::Ctrl('{'),
        T::Close => Token::Ctrl('}'),
        T::Semi => Token::Ctrl(';'),
        T::Dot => Token::Ctrl('.'),
        T::Nl => Token::Newline,
        T::Edge => Token::Edge,
    }
}
fn truthful(c: &mut Ch, src: &str) -> R {
    let l = reflang::lex(src);
    let chars: Vec<char> = src.chars().collect();
    let (_, e1, e2) = seiren::parser::parse(src);
    if e1.is_empty() && e2.is_empty() {
        return Err(Bad::Skip);
    }
    c.state(&(src, e1.len(), e2.len()));
    for e in &e1 {
        c.eval(1);
        if format!("{:?}", e.reason()).starts_with("Custom") {
            continue; // says itself what is wrong
        }
        ck!(e.found() == chars.get(e.span().start), "a lexical diagnostic at character {} says it found {:?} instead of {:?}", e.span().start, e.found(), chars.get(e.span().start));
    }
    if l.bad.is_some() {
        c.tag("not tokens");
        return Ok(());
    }
    for (i, e) in e2.iter().enumerate() {
        c.eval(1);
        let at = e.span().start;
        let k = l.toks.iter().position(|t| t.1 == at);
        let there = k.map(|k| tok_of(&l.toks[k].0));
        ck!(e.found() == there.as_ref(), "a diagnostic at character {} says it found {:?} instead of {:?}", at, e.found(), there);
        ck!(k.is_some() || at == chars.len(), "a diagnostic points at character {}, where no token begins", at);
        if i > 0 {
            continue;
        }
        // the first one is where the text stops being the begin of a module
        let mut s = S::Start;
        for (t, _, _) in &l.toks[..k.unwrap_or(l.toks.len())] {
            match reflang::step(s, t) {
                Some(n) => s = n,
                None => return Err(Bad::Skip), // C04's matter
            }
        }
        c.tag(if k.is_some() { "unexpected token" } else { "unexpected end" });
        let mut want: Vec<Option<Token>> = reflang::alphabet().iter().filter(|t| reflang::step(s, t).is_some() && !matches!(t, T::Ident(_))).map(|t| Some(tok_of(t))).collect();
        if s == S::End {
            want.push(None);
        }
        let got: Vec<Option<Token>> = e.expected().cloned().collect();
        for g in &got {
            ck!(want.contains(g), "at character {} {:?} is said to be expected, but no module continues with it", at, g.as_ref().map(|g| g.to_string()));
        }
        for w in &want {
            if matches!(w, Some(Token::Newline | Token::Ctrl(';'))) {
                continue;
            }
            ck!(got.contains(w), "at character {} {:?} could stand, but is not among the expected {:?}", at, w.as_ref().map(|g| g.to_string()), got);
        }
    }
    Ok(())
}
/// The tool's report of each diagnostic, as plain text: message, and the rest.
fn plain_reports(err: &str) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let (mut head, mut inside) = (String::new(), false);
    for l in plain(err).lines() {
        // the message ends at the line with the place, the report with a corner
        if place(l).is_some() {
            v.push((std::mem::take(&mut head), String::new()));
            inside = true;
        }
        match v.last_mut() {
            Some(x) if inside => x.1 += &format!("{}\n", l),
            _ => head += &format!("{}\n", l),
        }
        if l.trim_end().ends_with('╯') && !l.contains('│') && !l.contains('┆') {
            inside = false;
        }
    }
    v
}
fn told(c: &mut Ch, src: &str) -> R {
    let (_, e1, e2) = seiren::parser::parse(src);
    if e1.is_empty() && e2.is_empty() {
        return Err(Bad::Skip);
    }
    let o = run_cli(Input::StdinFile(src.as_bytes()));
    let rs = plain_reports(&String::from_utf8_lossy(&o.err));
    c.state(src);
    if rs.len() != e1.len() + e2.len() {
        return Err(Bad::Skip); // C25's matter
    }
    // what each says, as library values
    let mut want: Vec<(String, Option<String>, Vec<String>, bool)> = vec![];
    for e in &e1 {
        want.push((format!("{:?}", e.reason()), e.found().map(|x| x.to_string()), e.expected().flatten().map(|x| x.to_string()).collect(), e.expected().any(|x| x.is_none())));
    }
    for e in &e2 {
        want.push((format!("{:?}", e.reason()), e.found().map(|x| x.to_string()), e.expected().flatten().map(|x| x.to_string()).collect(), e.expected().any(|x| x.is_none())));
    }
    for (r, (why, found, exp, end)) in rs.iter().zip(&want) {
        c.eval(1 + exp.len() as u64);
        if !why.starts_with("Unexpected") {
            continue;
        }
        let head = r.0.trim();
        let says_end = head.to_lowercase().split(|c: char| !c.is_alphanumeric()).any(|w| ["end", "ends", "ended", "eof", "eoi"].contains(&w));
        if found.is_none() {
            ck!(says_end, "the text ends too early, but the report says: {}", head);
        } else {
            ck!(says_end == *end, "the end of the text is {}expected, but the report says: {}", if *end { "" } else { "not " }, head);
        }
        let mut rest = r.0.clone();
        for x in exp.iter().filter(|x| !x.trim().is_empty()) {
            // items may contain each other
            ck!(rest.contains(x.as_str()) || r.0.contains(x.as_str()), "{:?} is expected, but the report says: {}", x, head);
            rest = rest.replacen(x.as_str(), "", 1);
        }
        // nothing else
        for t in reflang::alphabet() {
            if let T::Ident(_) = t {
                continue;
            }
            let x = tok_of(&t).to_string();
            if !e1.is_empty() || exp.contains(&x) || exp.iter().any(|e| e.contains(&x)) {
                continue;
            }
            let said: Vec<&str> = head.split([' ', ',']).collect();
            ck!(!said.contains(&x.as_str()), "{:?} is not expected, but the report says: {}", x, head);
        }
        if let Some(f) = found {
            if !f.chars().any(|c| c.is_whitespace() || c.is_control()) {
                // beside the lines of the text itself: number, bar, line
                let quoted = |l: &&str| l.trim_start().trim_start_matches(|c: char| c.is_ascii_digit()).trim_start().starts_with('│') && l.trim_start().starts_with(|c: char| c.is_ascii_digit());
                ck!(r.0.contains(f.as_str()) || r.1.lines().filter(|l| !quoted(l)).any(|l| l.contains(f.as_str())), "{:?} was found, but the report does not say so:\n{}{}", f, r.0, r.1);
            }
        }
    }
    Ok(())
}
/// names of every length where none can stand
fn misplaced(j: texts::Judge) -> Space {
    space("tool-misplaced", "words and quoted names of 1 to 70, 100, 127 to 129, 255 to 257 or 1000 characters of 1 to 4 bytes in 6 places where no name can stand", move |c| {
        let mut ns: Vec<usize> = (1..=70).collect();
        ns.extend([100, 127, 128, 129, 255, 256, 257, 1000]);
        let n = *c.of(&ns);
        let ch = *c.of(&['b', 'Z', '_', 'é', '名', '😀']);
        let name = format!("{}{}", *c.of(&["", "x"]), ch.to_string().repeat(n));
        let w = ident_src(&name);
        let s = match c.pick(6) {
            0 => format!("{} erd {{}}", w),
            1 => format!("erd {{}} {}", w),
            2 => format!("erd {{ a {{ x {} }} }}", w),
            3 => format!("erd {{\n a {{ x int {} }}\n}}", w),
            4 => format!("erd {{ a {} {{ }} }}", w),
            _ => format!("erd {{ a o--o b {}", w),
        };
        c.label(s.clone());
        j(c, &s)
    })
}
fn c29(th: bool) -> Vec<Space> {
    let j: texts::Judge = truthful;
    vec![
        texts::edits(if th { 2 } else { 1 }, j),
        texts::tokens_all(if th { 5 } else { 4 }, j),
        texts::viable(if th { 13 } else { 10 }, j),
        texts::strings(if th { 4 } else { 3 }, &texts::HOLES, j),
        texts::words(j),
        texts::escapes(th, j),
        texts::every_char(if th { 0x110000 } else { 0x800 }, j),
        texts::far(j),
        texts::tokens_all(if th { 4 } else { 3 }, told).named("tool-tokens"),
        texts::edits(1, told).named("tool-edits"),
        texts::strings(2, &texts::HOLES, told).named("tool-chars"),
        misplaced(truthful).named("misplaced"),
        misplaced(told),
    ]
}

fn main() {
    if std::env::args().nth(1).as_deref() != Some("list") && !exe().exists() {
        eprintln!("harness: {} is not there", exe().display());
        std::process::exit(2);
    }
    run::main(&[Check {
        id: "C17",
        level: "fault_enumeration",
        rule: "one case = one run of the real executable; non-trivial = distinct result of the library for the text, or distinct fault",
        assumptions: &[
            "the expected drawing is the one the library of the same tree gives; what it should be is checked by C01-C16",
            "a closed standard input or output is an empty input and a sink, as Rust's standard library has it",
            "diagnostics on standard error can be written",
        ],
        spaces: c17,
    },
    Check {
        id: "C25",
        level: "model_checking",
        rule: "one case = one text given to the real executable; states = distinct (text, reported places)",
        assumptions: &[
            "the diagnostics are those the library of the same tree gives; their ranges are checked by C04",
            "a report is headed by a line that begins with the corner and name:line:column in brackets",
        ],
        spaces: c25,
    },
    Check {
        id: "C29",
        level: "model_checking",
        rule: "one case = one text that is not accepted, read by the library or (spaces tool-*) given to the real executable; states = distinct texts",
        assumptions: &[
            "the reference lexer and automaton (mc/src/reflang.rs) state the documented grammar",
            "identifiers and separators are not necessarily listed among what is expected",
        ],
        spaces: c29,
    }]);
}
