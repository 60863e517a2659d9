//! Command line of every check binary.
//!
//!   <bin> check <ID>          explore; writes evidence/<ID>.json; exit 0 / 1 (VIOLATION line)
//!   <bin> replay <file>       re-executes one recorded execution; exit 1 if it still violates
//!   <bin> list
//!
//! `check` runs the exploration in a child process, so that a stack overflow or an abort of the
//! code under test is attributed to the execution that caused it.
use crate::ex::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::time::{Duration, Instant};

pub struct Space {
    pub name: String,
    /// what is enumerated, with its bounds
    pub what: String,
    pub body: Box<Body<'static>>,
    pub dev_bound: usize,
    pub threads: usize,
}
pub fn space(
    name: &str,
    what: &str,
    body: impl Fn(&mut Ch) -> R + Sync + 'static,
) -> Space {
    Space { name: name.into(), what: what.into(), body: Box::new(body), dev_bound: 0, threads: 0 }
}
impl Space {
    pub fn devs(mut self, n: usize) -> Self {
        self.dev_bound = n;
        self
    }
    /// the same space judged in another way
    pub fn named(mut self, name: &str) -> Self {
        self.name = name.into();
        self
    }
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    /// what counts as one case and what makes it non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// `true` for the thorough tier
    pub spaces: fn(bool) -> Vec<Space>,
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// Inverse of `js` for one-line files written by this program.
fn unjs(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.trim().trim_start_matches('"').trim_end_matches('"').chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('u') => {
                let h: String = it.by_ref().take(4).collect();
                o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// `finding: property=<ID> case=<json string> <what fails>`
fn known(id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| l.split_once(' '))
        .filter(|(i, _)| *i == id)
        .filter_map(|(_, l)| {
            let l = l.strip_prefix("case=\"")?;
            let mut end = 0;
            let b = l.as_bytes();
            while end < b.len() && b[end] != b'"' {
                end += if b[end] == b'\\' { 2 } else { 1 };
            }
            Some((unjs(&l[..end]), l[(end + 1).min(l.len())..].trim().to_string()))
        })
        .collect()
}

fn write_replay(id: &str, space: &str, choices: &[u32], what: &str, label: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let bin = std::env::current_exe()
        .ok()
        .and_then(|p| p.file_name().map(|s| s.to_string_lossy().to_string()))
        .unwrap_or_default();
    let key = fp(&(space, choices));
    let p = dir.join(format!("{}-{:016x}.txt", id, key));
    let mut s = String::new();
    let ch: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    writeln!(s, "bin {}\nproperty {}\ntier {}\nspace {}\nchoices {}", bin, id,
        if thorough() { "thorough" } else { "quick" }, space, ch.join(",")).unwrap();
    writeln!(s, "what {}\ncase {}", js(what), js(label)).unwrap();
    if let Err(e) = std::fs::write(&p, s) {
        eprintln!("harness: cannot write {}: {}", p.display(), e);
    }
    p
}
fn report(id: &str, space: &str, choices: &[u32], what: &str, label: &str) {
    let p = write_replay(id, space, choices, what, label);
    println!("property {} is violated: {}", id, what);
    println!("space {}, case:\n{}", space, label);
    println!("VIOLATION property={} replay={}", id, p.display());
    let _ = std::io::stdout().flush();
}

pub fn main(checks: &[Check]) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let get = |id: &str| -> &Check {
        checks.iter().find(|c| c.id == id).unwrap_or_else(|| {
            eprintln!("harness: this binary does not check {}", id);
            exit(2)
        })
    };
    match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("list"), _) => {
            for c in checks {
                println!("{}", c.id);
            }
            exit(0)
        }
        (Some("check"), Some(id)) => supervise(get(id)),
        (Some("explore"), Some(id)) => run(get(id)),
        (Some("replay"), Some(f)) => {
            let t = std::fs::read_to_string(f).unwrap_or_else(|e| {
                eprintln!("harness: {}: {}", f, e);
                exit(2)
            });
            let val = |k: &str| -> String {
                t.lines()
                    .find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix(' ')))
                    .unwrap_or("")
                    .to_string()
            };
            let c = get(&val("property"));
            let choices: Vec<u32> =
                val("choices").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            let sp = (c.spaces)(val("tier") == "thorough");
            let sp = sp.iter().find(|s| s.name == val("space")).unwrap_or_else(|| {
                eprintln!("harness: unknown space {}", val("space"));
                exit(2)
            });
            quiet_panics();
            let (r, label) = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || replay(&*sp.body, &choices))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            println!("case:\n{}", label);
            match r {
                Err(Bad::Viol(w)) => {
                    println!("violation: {}", w);
                    println!("VIOLATION property={} replay={}", c.id, f);
                    exit(1)
                }
                _ => {
                    println!("holds");
                    exit(0)
                }
            }
        }
        _ => {
            eprintln!("usage: check ID | replay FILE | list");
            exit(2)
        }
    }
}

/// Runs the exploration in a child. If the child dies of a signal, finds the execution that kills
/// it by re-running every worker's current one in a process of its own.
fn supervise(c: &Check) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let tmp = std::env::temp_dir().join(format!("seiren-mc-{}-{}", c.id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let st = Command::new(&exe).args(["explore", c.id]).env("MC_CUR_DIR", &tmp).status();
    let cleanup = |code: i32| -> ! {
        let _ = std::fs::remove_dir_all(&tmp);
        exit(code)
    };
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("harness: {}", e);
            cleanup(2)
        }
    };
    match st.code() {
        Some(0) => cleanup(0),
        Some(1) => cleanup(1),
        Some(n) => {
            eprintln!("harness: the exploration ended with status {}", n);
            cleanup(2)
        }
        None => {}
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("harness: the exploration was ended by signal {}", sig);
    if sig == 9 || sig == 15 {
        cleanup(2);
    }
    // which space was running?
    let sp = std::fs::read_to_string(tmp.join("space")).unwrap_or_default();
    let mut files: Vec<_> = std::fs::read_dir(&tmp)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    for f in files {
        if !f.file_name().map(|n| n.to_string_lossy().starts_with('w')).unwrap_or(false) {
            continue;
        }
        let b = std::fs::read(&f).unwrap_or_default();
        if b.len() < 4 {
            continue;
        }
        let n = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
        if n == 0 || b.len() < 4 * n {
            continue;
        }
        let ch: Vec<u32> = (1..n)
            .map(|i| u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]))
            .collect();
        let what = format!("the program was ended by signal {} (abort or stack overflow)", sig);
        let p = write_replay(c.id, &sp, &ch, &what, "(see replay)");
        let s2 = Command::new(&exe).arg("replay").arg(&p).status();
        if let Ok(s2) = s2 {
            if s2.signal() == Some(sig) || s2.code() == Some(1) {
                println!("property {} is violated: {}", c.id, what);
                println!("VIOLATION property={} replay={}", c.id, p.display());
                cleanup(1);
            }
        }
        let _ = std::fs::remove_file(&p);
    }
    eprintln!("harness: no single execution reproduces it");
    cleanup(2)
}

fn run(c: &Check) -> ! {
    quiet_panics();
    let thorough = thorough();
    let t0 = Instant::now();
    let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let budget = Duration::from_secs(
        std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 5400 } else { 420 }),
    );
    let cur_dir = std::env::var("MC_CUR_DIR").ok().map(PathBuf::from);
    let id = c.id;
    let mut reps: Vec<(Report, String)> = vec![];
    let mut bad: Option<Found> = None;
    let mut known_hit: Vec<String> = vec![];
    let kn = known(id);
    let only = std::env::var("MC_SPACE").ok();
    for sp in (c.spaces)(thorough) {
        if only.as_deref().map(|o| o != sp.name).unwrap_or(false) {
            continue;
        }
        if let Some(d) = &cur_dir {
            let _ = std::fs::write(d.join("space"), &sp.name);
        }
        let left = budget.saturating_sub(t0.elapsed());
        let name = sp.name.clone();
        HANG_HANDLER.set(Box::new(move |_, ch| {
            report(id, &name, ch, "the program did not come to an end within 60 s", "(see replay)");
            exit(1);
        }));
        let o = Opts {
            threads: if sp.threads > 0 { sp.threads } else { ncpu },
            dev_bound: sp.dev_bound,
            wall_cap: left,
            hang: Duration::from_secs(60),
            max_found: 40 + kn.len(),
            recheck: 3 + kn.len(),
            cur_dir: cur_dir.clone(),
        };
        let r = match explore(&sp.name, &*sp.body, &o) {
            HangOr::Done(r) => r,
            HangOr::Hang(r, _) => r,
        };
        eprintln!(
            "{} {}: {} executions, {} states, {} transitions, {} comparisons, {:.1}s{}{} {:?}",
            id, sp.name, r.executions, r.states, r.transitions, r.evals, r.wall,
            if r.complete { "" } else { " INCOMPLETE" },
            if r.skipped > 0 { format!(", {} outside the domain", r.skipped) } else { String::new() },
            r.tags
        );
        for (i, f) in r.found.iter().enumerate() {
            if let Some(k) = kn.iter().find(|k| k.0 == f.label) {
                if !known_hit.contains(&k.1) {
                    known_hit.push(k.1.clone());
                }
            } else if bad.is_none() && i < 3 + kn.len() {
                if f.reproduced >= 1 {
                    bad = Some(f.clone());
                } else {
                    eprintln!(
                        "harness error: a violation did not reproduce: {}\n{}",
                        f.what, f.label
                    );
                    exit(3);
                }
            }
        }
        let stop = bad.is_some();
        reps.push((r, sp.what));
        if stop {
            break;
        }
    }
    for k in &known_hit {
        println!("KNOWN-FINDING: property={} {}", id, k);
    }
    let ev = evidence(c, &reps, thorough, t0.elapsed().as_secs_f64(), bad.is_some());
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if only.is_none() {
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", id)), ev) {
            eprintln!("harness: cannot write evidence: {}", e);
            exit(2);
        }
    }
    if let Some(f) = bad {
        report(id, &f.harness, &f.choices, &f.what, &f.label);
        exit(1);
    }
    exit(0)
}

fn evidence(c: &Check, reps: &[(Report, String)], thorough: bool, wall: f64, bad: bool) -> String {
    let sum = |f: &dyn Fn(&Report) -> u64| -> u64 { reps.iter().map(|r| f(&r.0)).sum() };
    let judged = sum(&|r| r.executions - r.skipped);
    let states = sum(&|r| r.states);
    let trans = sum(&|r| r.transitions);
    let complete = reps.iter().all(|r| r.0.complete);
    let mut samples: Vec<String> = vec![];
    for (r, _) in reps {
        for s in r.samples.iter().rev().take(3) {
            let s: String = s.chars().take(600).collect();
            samples.push(js(&format!("[{}] {}", r.harness, s)));
        }
    }
    if samples.is_empty() {
        samples.push(js("(none)"));
    }
    let mut sp = vec![];
    for (r, what) in reps {
        let tags: Vec<String> = r.tags.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        sp.push(format!(
            "{{\"space\": {}, \"enumerated\": {}, \"deviation_bound\": {}, \"executions\": {}, \"outside_domain\": {}, \"distinct_states\": {}, \"choice_transitions\": {}, \"comparisons\": {}, \"longest_choice_sequence\": {}, \"complete\": {}, \"seen\": {{{}}}, \"wall_s\": {:.2}}}",
            js(&r.harness), js(what), r.dev_bound, r.executions, r.skipped, r.states, r.transitions, r.evals, r.max_points, r.complete, tags.join(", "), r.wall
        ));
    }
    let counts = if c.level == "fault_enumeration" || c.level == "exploration" {
        format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, \"transitions\": {}", judged, states, trans)
    } else {
        format!("\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}", states, trans, judged)
    };
    let ass: Vec<String> = c.assumptions.iter().map(|a| js(a)).collect();
    format!(
        "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": {},\n\"coverage\": {{{},\n\"rule\": {},\n\"exhaustive\": {},\n\"samples\": [{}],\n\"spaces\": [\n{}\n]}},\n\"assumptions\": [{}],\n\"wall_s\": {:.2},\n\"violations\": {}\n}}\n",
        js(c.id), js(if thorough { "thorough" } else { "quick" }), seed(), js(c.level), counts,
        js(c.rule), complete, samples.join(", "), sp.join(",\n"), ass.join(", "), wall, if bad { 1 } else { 0 }
    )
}
#[allow(dead_code)]
fn _p(_: &Path) {}
