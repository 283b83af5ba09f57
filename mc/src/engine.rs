//! Stateless, exhaustive exploration engine.
//!
//! A *family* is a deterministic function of a sequence of bounded choices.
//! The engine enumerates every choice sequence (depth-first odometer, shared
//! between threads by donating unexplored sibling subtrees), running the real
//! code and its oracle on every one of them.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub type CaseFn = fn(&mut Cx) -> Res;
pub type Res = Result<(), Fail>;

#[derive(Debug, Clone)]
pub enum Fail {
    /// The choice sequence is outside the space (pruned, e.g. by symmetry).
    Skip,
    /// The property was violated.
    Bad(String),
}

impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::Bad(s)
    }
}

pub fn bad<T>(s: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Bad(s.into()))
}

#[derive(Clone, Copy)]
pub struct Family {
    pub name: &'static str,
    pub about: &'static str,
    pub run: CaseFn,
    /// Only explored in the thorough tier.
    pub thorough_only: bool,
}

pub const fn fam(name: &'static str, about: &'static str, run: CaseFn) -> Family {
    Family { name, about, run, thorough_only: false }
}
pub const fn deep(name: &'static str, about: &'static str, run: CaseFn) -> Family {
    Family { name, about, run, thorough_only: true }
}

/// Context of one case: the choices, and what was observed.
pub struct Cx {
    prefix: Vec<u32>,
    pos: usize,
    pub taken: Vec<u32>,
    arity: Vec<u32>,
    pub thorough: bool,
    pub transitions: u64,
    states: Vec<u64>,
    pub note: Option<String>,
    pub want_note: bool,
    pub nontrivial: bool,
}

impl Cx {
    fn new(prefix: Vec<u32>, thorough: bool) -> Self {
        Cx {
            prefix,
            pos: 0,
            taken: vec![],
            arity: vec![],
            thorough,
            transitions: 0,
            states: vec![],
            note: None,
            want_note: false,
            nontrivial: false,
        }
    }

    /// Picks one of `n` values; every value will be explored.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choose(0)");
        let v = if self.pos < self.prefix.len() { self.prefix[self.pos] } else { 0 };
        let v = if v as usize >= n { (n - 1) as u32 } else { v };
        self.pos += 1;
        self.taken.push(v);
        self.arity.push(n as u32);
        v as usize
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.choose(xs.len());
        xs[i].clone()
    }
    /// `lo ..= hi`
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.choose(hi - lo + 1)
    }
    /// Counts calls into the implementation (transitions of the explored system).
    pub fn op(&mut self, n: u64) {
        self.transitions += n;
    }
    /// Records an observed state of the implementation.
    pub fn state<H: Hash>(&mut self, h: &H) {
        let mut s = Fx(0xcbf29ce484222325);
        h.hash(&mut s);
        self.states.push(s.finish());
        self.nontrivial = true;
    }
    pub fn skip<T>(&self) -> Result<T, Fail> {
        Err(Fail::Skip)
    }
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^= x >> 32;
        x
    }
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.0 = (self.0.rotate_left(5) ^ b as u64).wrapping_mul(0x517cc1b727220a95);
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_quiet_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| {
            let f = l.file();
            let f = f.strip_prefix("/repo/").unwrap_or(f);
            format!("{}:{}", f, l.line())
        });
        LAST_PANIC.with(|p| *p.borrow_mut() = loc.unwrap_or_default());
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Runs one case and reports its outcome.
pub fn run_case(f: CaseFn, prefix: &[u32], thorough: bool, note: bool) -> (Res, Cx) {
    let mut cx = Cx::new(prefix.to_vec(), thorough);
    cx.want_note = note;
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
    let r = match r {
        Ok(r) => r,
        Err(p) => {
            let loc = LAST_PANIC.with(|l| l.borrow().clone());
            Err(Fail::Bad(format!(
                "panicked at {}: {}{}",
                loc,
                payload(&*p),
                cx.note.as_ref().map(|n| format!(" on {}", n)).unwrap_or_default()
            )))
        }
    };
    (r, cx)
}

/// Runs a closure calling the implementation; a panic becomes an error.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let loc = LAST_PANIC.with(|l| l.borrow().clone());
            bad(format!("{} panicked at {}: {}", what, loc, payload(&*p)))
        }
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub cases: u64,
    pub skipped: u64,
    pub trivial: u64,
    pub transitions: u64,
    pub states: u64,
    pub max_depth: u64,
    pub exhaustive: bool,
    pub samples: Vec<String>,
    pub wall: f64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub choices: Vec<u32>,
    pub message: String,
}

struct Shared {
    queue: Mutex<(Vec<Vec<u32>>, usize)>, // prefixes, active workers
    cv: Condvar,
    hungry: AtomicUsize,
    stop: AtomicBool,
    cut: AtomicBool,
    violations: Mutex<Vec<Violation>>,
    cases: AtomicU64,
}

pub struct Slots {
    pub file: File,
}
pub const SLOT: u64 = 8192;

impl Slots {
    fn put(&self, worker: usize, fam: u32, taken: &[u32]) {
        let mut buf = Vec::with_capacity(8 + taken.len() * 4);
        buf.extend_from_slice(&fam.to_le_bytes());
        buf.extend_from_slice(&(taken.len() as u32).to_le_bytes());
        for t in taken {
            buf.extend_from_slice(&t.to_le_bytes());
        }
        buf.truncate(SLOT as usize);
        let _ = self.file.write_all_at(&buf, worker as u64 * SLOT);
    }
    pub fn read_all(path: &str, workers: usize) -> Vec<(u32, Vec<u32>)> {
        let data = std::fs::read(path).unwrap_or_default();
        let mut out = vec![];
        for w in 0..workers {
            let o = w * SLOT as usize;
            if data.len() < o + 8 {
                break;
            }
            let g = |i: usize| u32::from_le_bytes(data[i..i + 4].try_into().unwrap());
            let fam = g(o);
            let n = g(o + 4) as usize;
            if fam == u32::MAX || data.len() < o + 8 + 4 * n {
                continue;
            }
            out.push((fam, (0..n).map(|i| g(o + 8 + 4 * i)).collect()));
        }
        out
    }
}

pub struct Opts {
    pub thorough: bool,
    pub threads: usize,
    pub deadline: Instant,
    pub slots: Option<Arc<Slots>>,
    /// Called with the choices of a case that runs for too long.
    pub hang: Option<Arc<dyn Fn(u32, Vec<u32>) + Send + Sync>>,
    pub hang_after: Duration,
}

/// Exhaustively explores one family.
pub fn explore(fam_ix: u32, fam: Family, opts: &Opts) -> (Stats, Vec<Violation>) {
    let start = Instant::now();
    let shared = Arc::new(Shared {
        queue: Mutex::new((vec![vec![]], 0)),
        cv: Condvar::new(),
        hungry: AtomicUsize::new(opts.threads),
        stop: AtomicBool::new(false),
        cut: AtomicBool::new(false),
        violations: Mutex::new(vec![]),
        cases: AtomicU64::new(0),
    });
    let running: Arc<Vec<Mutex<Option<(Instant, Vec<u32>)>>>> =
        Arc::new((0..opts.threads).map(|_| Mutex::new(None)).collect());
    let done = Arc::new(AtomicBool::new(false));
    let monitor = {
        let (running, done, hang, after, shared, deadline) = (
            running.clone(),
            done.clone(),
            opts.hang.clone(),
            opts.hang_after,
            shared.clone(),
            opts.deadline,
        );
        std::thread::spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::park_timeout(Duration::from_millis(200));
                if Instant::now() > deadline {
                    shared.cut.store(true, Ordering::Relaxed);
                    shared.stop.store(true, Ordering::Relaxed);
                }
                for slot in running.iter() {
                    let g = slot.lock().unwrap();
                    if let Some((t, c)) = &*g {
                        if t.elapsed() > after {
                            if let Some(h) = &hang {
                                h(fam_ix, c.clone());
                            }
                        }
                    }
                }
            }
        })
    };
    let mut handles = vec![];
    for w in 0..opts.threads {
        let shared = shared.clone();
        let running = running.clone();
        let slots = opts.slots.clone();
        let thorough = opts.thorough;
        handles.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || worker(w, fam_ix, fam, thorough, &shared, &running[w], slots))
                .unwrap(),
        );
    }
    let mut stats = Stats { exhaustive: true, ..Default::default() };
    let mut states: HashSet<u64> = HashSet::new();
    let mut samples: BTreeMap<Vec<u32>, String> = BTreeMap::new();
    for h in handles {
        let (s, st, sm) = h.join().unwrap();
        stats.cases += s.cases;
        stats.skipped += s.skipped;
        stats.trivial += s.trivial;
        stats.transitions += s.transitions;
        stats.max_depth = stats.max_depth.max(s.max_depth);
        states.extend(st);
        samples.extend(sm);
    }
    done.store(true, Ordering::Relaxed);
    monitor.thread().unpark();
    let _ = monitor.join();
    stats.states = states.len() as u64;
    let n = samples.len().max(1);
    stats.samples = samples.into_values().enumerate().filter(|(i, _)| i % (n / 3 + 1) == 0).map(|(_, s)| s).take(3).collect();
    if shared.cut.load(Ordering::Relaxed) {
        stats.exhaustive = false;
    }
    stats.wall = start.elapsed().as_secs_f64();
    let v = std::mem::take(&mut *shared.violations.lock().unwrap());
    if v.len() >= 64 {
        stats.exhaustive = false;
    }
    (stats, v)
}

fn worker(
    w: usize,
    fam_ix: u32,
    fam: Family,
    thorough: bool,
    sh: &Shared,
    running: &Mutex<Option<(Instant, Vec<u32>)>>,
    slots: Option<Arc<Slots>>,
) -> (Stats, HashSet<u64>, BTreeMap<Vec<u32>, String>) {
    let mut stats = Stats::default();
    let mut states: HashSet<u64> = HashSet::new();
    let mut samples = BTreeMap::new();
    let mut next_sample = 1u64;
    loop {
        // Take a subtree.
        let root = {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::Relaxed) {
                    break None;
                }
                if let Some(p) = q.0.pop() {
                    q.1 += 1;
                    sh.hungry.fetch_sub(1, Ordering::Relaxed);
                    break Some(p);
                }
                if q.1 == 0 {
                    sh.cv.notify_all();
                    break None;
                }
                let (g, _) = sh.cv.wait_timeout(q, Duration::from_millis(20)).unwrap();
                q = g;
            }
        };
        let Some(root) = root else { break };
        let base = root.len();
        let mut prefix = root;
        let mut limits: Vec<u32> = vec![]; // arity limits for positions >= base (may be lowered by donation)
        loop {
            if sh.stop.load(Ordering::Relaxed) {
                break;
            }
            if let Some(s) = &slots {
                s.put(w, fam_ix, &prefix);
            }
            *running.lock().unwrap() = Some((Instant::now(), prefix.clone()));
            let sample = stats.cases + 1 == next_sample;
            let (r, mut cx) = run_case(fam.run, &prefix, thorough, sample);
            *running.lock().unwrap() = None;
            stats.cases += 1;
            stats.transitions += cx.transitions;
            stats.max_depth = stats.max_depth.max(cx.taken.len() as u64);
            if states.len() < 3_000_000 {
                states.extend(cx.states.drain(..));
            }
            if sample {
                if let (Ok(()), Some(n)) = (&r, cx.note.take()) {
                    let n: String = n.chars().take(400).collect();
                    samples.insert(cx.taken.clone(), n);
                    next_sample = stats.cases * 3;
                } else {
                    next_sample = stats.cases + 1;
                }
            }
            match r {
                Ok(()) => {
                    if !cx.nontrivial {
                        stats.trivial += 1;
                    }
                }
                Err(Fail::Skip) => stats.skipped += 1,
                Err(Fail::Bad(message)) => {
                    let mut v = sh.violations.lock().unwrap();
                    v.push(Violation { family: fam.name.into(), choices: cx.taken.clone(), message });
                    if v.len() >= 64 {
                        sh.stop.store(true, Ordering::Relaxed);
                    }
                }
            }
            sh.cases.fetch_add(1, Ordering::Relaxed);
            // Limits for positions.
            for i in 0..cx.taken.len() {
                if i < base {
                    continue;
                }
                let k = i - base;
                if k < limits.len() && i < prefix.len() {
                    continue;
                }
                limits.truncate(k);
                limits.push(cx.arity[i]);
            }
            limits.truncate(cx.taken.len().saturating_sub(base));
            let mut cur = cx.taken;
            // Donate the shallowest unexplored siblings when others are idle.
            if sh.hungry.load(Ordering::Relaxed) > 0 {
                for i in base..cur.len() {
                    if cur[i] + 1 < limits[i - base] {
                        let mut q = sh.queue.lock().unwrap();
                        if q.0.len() < 64 {
                            for c in cur[i] + 1..limits[i - base] {
                                let mut p = cur[..i].to_vec();
                                p.push(c);
                                q.0.push(p);
                            }
                            limits[i - base] = cur[i] + 1;
                            sh.cv.notify_all();
                        }
                        break;
                    }
                }
            }
            // Next choice vector in this subtree.
            let mut advanced = false;
            while cur.len() > base {
                let i = cur.len() - 1;
                if cur[i] + 1 < limits[i - base] {
                    cur[i] += 1;
                    advanced = true;
                    break;
                }
                cur.pop();
            }
            if !advanced {
                break;
            }
            limits.truncate(cur.len() - base);
            prefix = cur;
        }
        let mut q = sh.queue.lock().unwrap();
        q.1 -= 1;
        sh.hungry.fetch_add(1, Ordering::Relaxed);
        sh.cv.notify_all();
        if sh.stop.load(Ordering::Relaxed) {
            break;
        }
    }
    if let Some(s) = &slots {
        s.put(w, u32::MAX, &[]);
    }
    (stats, states, samples)
}
