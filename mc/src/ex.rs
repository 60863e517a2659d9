//! Stateless explorer: exhaustive depth-first enumeration of every choice sequence of a harness
//! body, in parallel. A harness is an ordinary function that asks a `Ch` for its choices
//! (`pick(n)`: all n answers are explored; `dev(n)`: answer 0 is the default, every other answer
//! costs one deviation, and sequences within the deviation bound are explored). Executions run the
//! real code to completion. An execution is identified by its choice vector, so each one can be
//! replayed exactly.
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
struct Pt {
    choice: u32,
    n: u32,
    dev: bool,
}

/// The source of every choice of one execution.
pub struct Ch<'a> {
    prefix: &'a [u32],
    tr: Vec<Pt>,
    /// fingerprints of the states this execution passed through
    states: Vec<u64>,
    evals: u64,
    label: String,
    tags: Vec<&'static str>,
}

impl<'a> Ch<'a> {
    fn new(prefix: &'a [u32]) -> Self {
        Ch { prefix, tr: vec![], states: vec![], evals: 0, label: String::new(), tags: vec![] }
    }
    fn next(&mut self, n: usize, dev: bool) -> usize {
        assert!(n > 0, "harness: empty choice");
        let i = self.tr.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            // A replayed prefix no longer fits: the harness is not in control of some choice.
            panic!("HARNESS-DIVERGED: choice {} of {} at point {}", c, n, i);
        }
        self.tr.push(Pt { choice: c, n: n as u32, dev });
        c as usize
    }
    /// One of `n` alternatives, all explored.
    pub fn pick(&mut self, n: usize) -> usize {
        self.next(n, false)
    }
    /// One of `n` alternatives; anything but 0 is a deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        self.next(n, true)
    }
    pub fn of<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.pick(xs.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    /// Records a state of the system (deduplicated globally by its fingerprint).
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        let mut h = Fnv(0xcbf29ce484222325);
        t.hash(&mut h);
        self.states.push(h.finish());
    }
    /// Counts comparisons of the implementation with the oracle.
    pub fn eval(&mut self, n: u64) {
        self.evals += n;
    }
    /// Human-readable form of the case, for samples and reports.
    pub fn label<S: Into<String>>(&mut self, s: S) {
        self.label = s.into();
    }
    /// Marks that this execution exercised something worth counting.
    pub fn tag(&mut self, t: &'static str) {
        self.tags.push(t);
    }
}

pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        // final avalanche (splitmix64)
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

pub fn fp<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

#[derive(Debug, Clone)]
pub enum Bad {
    /// outside the property's domain: not counted as evaluated
    Skip,
    /// the property is violated
    Viol(String),
}
pub type R = Result<(), Bad>;
pub fn viol<S: Into<String>>(s: S) -> R {
    Err(Bad::Viol(s.into()))
}
#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::ex::Bad::Viol(format!($($a)*))); } };
}

pub type Body<'b> = dyn Fn(&mut Ch) -> R + Sync + 'b;

#[derive(Clone, Debug)]
pub struct Found {
    pub harness: String,
    pub choices: Vec<u32>,
    pub label: String,
    pub what: String,
    pub cost: (usize, usize, usize),
    pub reproduced: usize,
}

#[derive(Default, Debug)]
pub struct Report {
    pub harness: String,
    pub executions: u64,
    pub skipped: u64,
    pub transitions: u64,
    pub evals: u64,
    pub states: u64,
    pub complete: bool,
    pub dev_bound: usize,
    pub samples: Vec<String>,
    pub tags: Vec<(String, u64)>,
    pub found: Vec<Found>,
    pub wall: f64,
    /// the enumeration reached every member of the space as bounded
    pub max_points: usize,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload(i.payload());
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} ({})", msg, loc));
    }));
}
fn payload(p: &dyn Any) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "panic".into())
}

struct One {
    tr: Vec<Pt>,
    states: Vec<u64>,
    evals: u64,
    label: String,
    tags: Vec<&'static str>,
    res: R,
    diverged: bool,
}
fn run_one(body: &Body, prefix: &[u32]) -> One {
    let mut ch = Ch::new(prefix);
    let r = catch_unwind(AssertUnwindSafe(|| body(&mut ch)));
    let mut diverged = false;
    let res = match r {
        Ok(x) => x,
        Err(p) => {
            let s = LAST_PANIC.with(|x| x.borrow().clone());
            let _ = payload(&*p);
            if s.contains("HARNESS-DIVERGED") || s.starts_with("harness:") {
                diverged = true;
            }
            Err(Bad::Viol(format!("the program panicked: {}", s)))
        }
    };
    One { tr: ch.tr, states: ch.states, evals: ch.evals, label: ch.label, tags: ch.tags, res, diverged }
}

pub struct Opts {
    pub threads: usize,
    pub dev_bound: usize,
    pub wall_cap: Duration,
    pub hang: Duration,
    pub max_found: usize,
    /// how many violations (fewest deviations first) are re-executed for confirmation
    pub recheck: usize,
    /// directory of per-worker "current case" files, written before each execution
    pub cur_dir: Option<std::path::PathBuf>,
}

struct Slot {
    since_ms: AtomicU64,
    cur: Mutex<Vec<u32>>,
}

pub enum HangOr {
    Done(Report),
    Hang(Report, Vec<u32>),
}

pub fn explore(name: &str, body: &Body, o: &Opts) -> HangOr {
    let t0 = Instant::now();
    let nt = o.threads.max(1);
    let global: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![vec![]]);
    let cv = Condvar::new();
    let idle = AtomicUsize::new(0);
    let hungry = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let (ex, sk, trn, ev) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let maxp = AtomicUsize::new(0);
    const SH: usize = 64;
    let shards: Vec<Mutex<HashSet<u64>>> = (0..SH).map(|_| Mutex::new(HashSet::new())).collect();
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let tags: Mutex<std::collections::BTreeMap<String, u64>> = Mutex::new(Default::default());
    let slots: Vec<Slot> =
        (0..nt).map(|_| Slot { since_ms: AtomicU64::new(0), cur: Mutex::new(vec![]) }).collect();
    let diverged = AtomicBool::new(false);
    let hung: Mutex<Option<Vec<u32>>> = Mutex::new(None);

    // Workers are plain threads borrowed from a scope; on a hang the process reports and exits, so
    // the scope is never left with a stuck thread (see `Hang` in main).
    std::thread::scope(|s| {
        for w in 0..nt {
            let (global, cv, idle, hungry, stop, capped, done) =
                (&global, &cv, &idle, &hungry, &stop, &capped, &done);
            let (ex, sk, trn, ev, maxp) = (&ex, &sk, &trn, &ev, &maxp);
            let (shards, found, samples, tags, slots, diverged) =
                (&shards, &found, &samples, &tags, &slots, &diverged);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut local: Vec<Vec<u32>> = vec![];
                    let mut ltags: std::collections::BTreeMap<&'static str, u64> = Default::default();
                    let mut lstates: HashSet<u64> = HashSet::new();
                    let curf = o.cur_dir.as_ref().map(|d| {
                        std::fs::File::create(d.join(format!("w{}", w))).expect("harness: cur file")
                    });
                    loop {
                        let p = match local.pop() {
                            Some(p) => p,
                            None => {
                                let mut g = global.lock().unwrap();
                                let mut counted = false;
                                let r = loop {
                                    if done.load(SeqCst) || stop.load(SeqCst) {
                                        break None;
                                    }
                                    if let Some(p) = g.pop() {
                                        break Some(p);
                                    }
                                    if !counted {
                                        counted = true;
                                        hungry.fetch_add(1, SeqCst);
                                        if idle.fetch_add(1, SeqCst) + 1 == nt {
                                            done.store(true, SeqCst);
                                            cv.notify_all();
                                            break None;
                                        }
                                    }
                                    g = cv.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
                                };
                                if counted && r.is_some() {
                                    hungry.fetch_sub(1, SeqCst);
                                    idle.fetch_sub(1, SeqCst);
                                }
                                match r {
                                    Some(p) => p,
                                    None => break,
                                }
                            }
                        };
                        if stop.load(Relaxed) {
                            break;
                        }
                        if t0.elapsed() > o.wall_cap {
                            capped.store(true, SeqCst);
                            stop.store(true, SeqCst);
                            cv.notify_all();
                            break;
                        }
                        {
                            let mut c = slots[w].cur.lock().unwrap();
                            c.clear();
                            c.extend_from_slice(&p);
                        }
                        if let Some(f) = &curf {
                            use std::os::unix::fs::FileExt;
                            let mut b = Vec::with_capacity(8 + p.len() * 4);
                            b.extend_from_slice(&(p.len() as u32 + 1).to_le_bytes());
                            for x in &p {
                                b.extend_from_slice(&x.to_le_bytes());
                            }
                            let _ = f.write_all_at(&b, 0);
                        }
                        slots[w].since_ms.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                        let r = run_one(body, &p);
                        slots[w].since_ms.store(0, SeqCst);

                        let n = ex.fetch_add(1, Relaxed);
                        trn.fetch_add((r.tr.len() + 1).saturating_sub(p.len().max(1)) as u64, Relaxed);
                        ev.fetch_add(r.evals, Relaxed);
                        maxp.fetch_max(r.tr.len(), Relaxed);
                        for st in &r.states {
                            lstates.insert(*st);
                        }
                        if lstates.len() > 4096 {
                            for st in lstates.drain() {
                                shards[(st % SH as u64) as usize].lock().unwrap().insert(st);
                            }
                        }
                        for t in &r.tags {
                            *ltags.entry(t).or_default() += 1;
                        }
                        // a few samples, spread over the run
                        if n.is_power_of_two() && !r.label.is_empty() {
                            samples.lock().unwrap().push(r.label.clone());
                        }
                        if r.diverged {
                            diverged.store(true, SeqCst);
                        }
                        match &r.res {
                            Ok(()) => {}
                            Err(Bad::Skip) => {
                                sk.fetch_add(1, Relaxed);
                            }
                            Err(Bad::Viol(what)) => {
                                let choices: Vec<u32> = r.tr.iter().map(|p| p.choice).collect();
                                let devs = r.tr.iter().filter(|p| p.dev && p.choice != 0).count();
                                let f = Found {
                                    harness: name.to_string(),
                                    cost: (devs, r.label.len(), choices.len()),
                                    choices,
                                    label: r.label.clone(),
                                    what: what.clone(),
                                    reproduced: 0,
                                };
                                let mut fs = found.lock().unwrap();
                                fs.push(f);
                                if fs.len() >= o.max_found {
                                    stop.store(true, SeqCst);
                                    cv.notify_all();
                                }
                            }
                        }
                        // branch on every choice point this execution introduced
                        let mut devs = 0usize;
                        for (i, pt) in r.tr.iter().enumerate() {
                            if i >= p.len() {
                                if !(pt.dev && devs + 1 > o.dev_bound) {
                                    for alt in (1..pt.n).rev() {
                                        let mut q: Vec<u32> = Vec::with_capacity(i + 1);
                                        q.extend(r.tr[..i].iter().map(|x| x.choice));
                                        q.push(alt);
                                        local.push(q);
                                    }
                                }
                            }
                            if pt.dev && pt.choice != 0 {
                                devs += 1;
                            }
                        }
                        if hungry.load(Relaxed) > 0 && local.len() > 1 {
                            // give away the oldest half: those are the biggest subtrees
                            let k = local.len() / 2;
                            let give: Vec<_> = local.drain(..k).collect();
                            let mut g = global.lock().unwrap();
                            g.extend(give);
                            cv.notify_all();
                        }
                    }
                    for st in lstates.drain() {
                        shards[(st % SH as u64) as usize].lock().unwrap().insert(st);
                    }
                    let mut tg = tags.lock().unwrap();
                    for (k, v) in ltags {
                        *tg.entry(k.to_string()).or_default() += v;
                    }
                    idle.fetch_add(0, SeqCst);
                })
                .expect("harness: spawn");
        }
        // watchdog
        let (slots, hung, stop, done, idle) = (&slots, &hung, &stop, &done, &idle);
        let hang = o.hang;
        let name = name.to_string();
        s.spawn(move || loop {
            std::thread::sleep(Duration::from_millis(50));
            if done.load(SeqCst) || stop.load(SeqCst) {
                // wait for workers elsewhere; but keep watching for a stuck one
                let busy = slots.iter().any(|s| s.since_ms.load(SeqCst) != 0);
                if !busy {
                    break;
                }
            }
            let now = t0.elapsed().as_millis() as u64;
            for sl in slots {
                let st = sl.since_ms.load(SeqCst);
                if st != 0 && now.saturating_sub(st) > hang.as_millis() as u64 {
                    let c = sl.cur.lock().unwrap().clone();
                    *hung.lock().unwrap() = Some(c.clone());
                    // The stuck thread cannot be cancelled: hand over to the hang handler.
                    HANG_HANDLER.with_handler(&name, &c);
                }
            }
            let _ = idle;
        });
    });

    let mut found = found.into_inner().unwrap();
    found.sort_by(|a, b| (a.cost, &a.choices).cmp(&(b.cost, &b.choices)));
    for f in found.iter_mut().take(o.recheck) {
        // The harness controls every choice of its own; code under test that depends on, say, the
        // random keys of a hash table may still need several attempts.
        for _ in 0..20 {
            let r = run_one(body, &f.choices);
            if matches!(r.res, Err(Bad::Viol(_))) {
                f.reproduced += 1;
            }
            if f.reproduced == 2 {
                break;
            }
        }
    }
    let mut samples = samples.into_inner().unwrap();
    samples.dedup();
    if samples.len() > 8 {
        samples = samples.split_off(samples.len() - 8);
    }
    let rep = Report {
        harness: name.into(),
        executions: ex.into_inner(),
        skipped: sk.into_inner(),
        transitions: trn.into_inner(),
        evals: ev.into_inner(),
        states: shards.iter().map(|s| s.lock().unwrap().len() as u64).sum(),
        complete: !capped.into_inner() && !stop.into_inner(),
        dev_bound: o.dev_bound,
        samples,
        tags: tags.into_inner().unwrap().into_iter().collect(),
        found,
        wall: t0.elapsed().as_secs_f64(),
        max_points: maxp.into_inner(),
    };
    if diverged.into_inner() {
        eprintln!("harness error: a replayed prefix diverged in {}", name);
        std::process::exit(3);
    }
    let h = hung.into_inner().unwrap();
    match h {
        Some(c) => HangOr::Hang(rep, c),
        None => HangOr::Done(rep),
    }
}

pub struct HangHandler(Mutex<Option<Box<dyn Fn(&str, &[u32]) + Send>>>);
pub static HANG_HANDLER: HangHandler = HangHandler(Mutex::new(None));
impl HangHandler {
    pub fn set(&self, f: Box<dyn Fn(&str, &[u32]) + Send>) {
        *self.0.lock().unwrap() = Some(f);
    }
    fn with_handler(&self, n: &str, c: &[u32]) {
        if let Some(f) = &*self.0.lock().unwrap() {
            f(n, c);
        }
    }
}

/// Re-executes exactly one choice vector.
pub fn replay(body: &Body, choices: &[u32]) -> (R, String) {
    let r = run_one(body, choices);
    (r.res, r.label)
}
