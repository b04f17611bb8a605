//! Generated-input search: choice-sequence source, runner, shrinker, replay, evidence.
//!
//! Every random decision of a case is one recorded `draw`; a failing case is
//! shrunk by deleting, zeroing and decreasing recorded choices and re-running the
//! generator, so shrinking can never leave the generator's domain.

use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub const CASE_CPU_LIMIT: u64 = 20; // seconds of CPU time of one case before it counts as not terminating

// ---------------------------------------------------------------- randomness

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash64(data: &[u64]) -> u64 {
    let mut h = 0x243F6A8885A308D3u64;
    for d in data {
        h ^= *d;
        let mut t = h;
        h = splitmix(&mut t);
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut v: Vec<u64> = vec![s.len() as u64];
    v.extend(s.bytes().map(|b| b as u64));
    hash64(&v)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

/// The source of all choices of one case.
pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), replay: vec![], rec: vec![] }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { rng: None, replay: choices, rec: vec![] }
    }
    /// A source that repeats the choices made since the first `from` of them.
    pub fn again(&self, from: usize) -> Src { Src::replay(self.rec[from..].to_vec()) }
    /// Uniform in 0..n (n >= 1). 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n >= 1);
        let v = match self.rng {
            Some(ref mut r) => {
                if n.is_power_of_two() { r.next() & (n - 1) } else { ((r.next() as u128 * n as u128) >> 64) as u64 }
            }
            None => {
                let c = self.replay.get(self.rec.len()).cloned().unwrap_or(0);
                if c >= n { n - 1 } else { c }
            }
        };
        self.rec.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = match self.rng {
            Some(ref mut r) => r.next(),
            None => self.replay.get(self.rec.len()).cloned().unwrap_or(0),
        };
        self.rec.push(v);
        v
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        assert!(lo <= hi);
        let w = (hi as i128 - lo as i128 + 1) as u64;
        lo + self.below(w) as i64
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    pub fn bool(&mut self) -> bool { self.below(2) == 1 }
    /// true once in `n`.
    pub fn one_in(&mut self, n: u64) -> bool { self.below(n) == n - 1 }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        let i = self.below(v.len() as u64) as usize;
        v[i].clone()
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, k) in w.iter().enumerate() {
            if x < *k { return i; }
            x -= *k;
        }
        w.len() - 1
    }
    /// 0..=max, biased towards the ends, powers of two and their neighbours.
    pub fn biased(&mut self, max: u64) -> u64 {
        match self.below(6) {
            0 => if max == u64::MAX { self.u64() } else { self.below(max + 1) },
            1 => { let k = self.below(17); k.min(max) }
            2 => { let k = self.below(17); max.saturating_sub(k) }
            3 => {
                let bits = 64 - max.leading_zeros() as u64;
                let b = self.below(bits + 1);
                let base = if b >= 64 { u64::MAX } else { 1u64 << b };
                let d = self.below(5);
                base.saturating_add(d).saturating_sub(2).min(max)
            }
            4 => {
                let bits = 64 - max.leading_zeros() as u64;
                let b = self.below(bits + 1);
                let v = self.u64();
                let m = if b == 0 { 0 } else { v >> (64 - b) };
                m.min(max)
            }
            _ => {
                let bits = 64 - max.leading_zeros() as u64;
                let mut v = 0u64;
                let n = self.below(4);
                for _ in 0..n { let b = self.below(bits.max(1)); v |= 1u64 << b; }
                v.min(max)
            }
        }
    }
    pub fn biased_range(&mut self, lo: i64, hi: i64) -> i64 {
        let w = (hi as i128 - lo as i128) as u64;
        lo.wrapping_add(self.biased(w) as i64)
    }
}

// ---------------------------------------------------------------- one case

#[derive(Default)]
pub struct Info {
    pub nontrivial: bool,
    pub key: Option<u64>,
    pub desc: String,
    pub want_desc: bool,
    pub labels: Vec<&'static str>,
    pub evals: u64, // extra evaluations made inside the case (at least 1 counted)
}

impl Info {
    pub fn nontrivial(&mut self, b: bool) { self.nontrivial = b; }
    pub fn label(&mut self, l: &'static str) { self.labels.push(l); }
    pub fn desc<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_desc { self.desc = f(); }
    }
    pub fn evals(&mut self, n: u64) { self.evals += n; }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! check {
    ($c:expr, $($fmt:tt)*) => { if !($c) { return Err(format!($($fmt)*)); } };
}
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($fmt:tt)*) => {{ let (a, b) = (&$a, &$b); if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($fmt)*), a, b)); } }};
}

pub enum Kind {
    /// random cases: (quick, thorough) counts
    Random(u64, u64),
    /// enumerated completely: number of indices (quick, thorough)
    Exhaustive(u64, u64),
}

pub struct Sub {
    pub name: &'static str,
    pub kind: Kind,
    pub run: Box<dyn Fn(&mut Src, &mut Info) -> Res + Sync + Send>,
    pub serial: bool,
}

impl Sub {
    pub fn random<F: Fn(&mut Src, &mut Info) -> Res + Sync + Send + 'static>(name: &'static str, quick: u64, thorough: u64, f: F) -> Sub {
        Sub { name, kind: Kind::Random(quick, thorough), run: Box::new(f), serial: false }
    }
    /// `f` receives an index as its first choice (`s.below(n)` must be its first draw, see `index`).
    pub fn exhaustive<F: Fn(u64, &mut Info) -> Res + Sync + Send + 'static>(name: &'static str, quick: u64, thorough: u64, f: F) -> Sub {
        Sub { name, kind: Kind::Exhaustive(quick, thorough), run: Box::new(move |s, i| { let k = s.u64(); f(k, i) }), serial: false }
    }
    pub fn serial(mut self) -> Sub { self.serial = true; self }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub subs: Vec<Sub>,
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() }
            else { "panic".to_string() };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked at {}: {}", loc, msg));
    }));
}

pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }

/// Runs `f`; a panic becomes Err(message).
pub fn catch<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn run_case(sub: &Sub, src: &mut Src, info: &mut Info) -> Res {
    match panic::catch_unwind(AssertUnwindSafe(|| (sub.run)(src, info))) {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    }
}

// ---------------------------------------------------------------- in-flight record (survives a crash of the worker)

pub const MAXT: usize = 64;

pub struct Flight { p: *mut u64 }
unsafe impl Send for Flight {}
unsafe impl Sync for Flight {}

impl Flight {
    pub fn open(path: &str, create: bool) -> Flight {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path).expect("flight file");
        f.set_len((MAXT * 24) as u64).unwrap();
        let p = unsafe { libc::mmap(std::ptr::null_mut(), MAXT * 24, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Flight { p: p as *mut u64 }
    }
    fn slot(&self, t: usize, k: usize) -> &AtomicU64 { unsafe { &*(self.p.add(t * 3 + k) as *const AtomicU64) } }
    pub fn set(&self, t: usize, sub: usize, idx: u64) {
        self.slot(t, 1).store(sub as u64, Ordering::SeqCst);
        self.slot(t, 2).store(idx, Ordering::SeqCst);
        self.slot(t, 0).fetch_add(1, Ordering::SeqCst);
    }
    pub fn clear(&self, t: usize) { self.slot(t, 1).store(u64::MAX, Ordering::SeqCst); }
    /// (sub, idx) of every case in flight
    pub fn in_flight(&self) -> Vec<(usize, u64)> {
        (0..MAXT).filter(|t| self.slot(*t, 0).load(Ordering::SeqCst) > 0 && self.slot(*t, 1).load(Ordering::SeqCst) != u64::MAX)
            .map(|t| (self.slot(t, 1).load(Ordering::SeqCst) as usize, self.slot(t, 2).load(Ordering::SeqCst))).collect()
    }
}

// ---------------------------------------------------------------- runner

pub struct Failure {
    pub sub: &'static str,
    pub idx: u64,
    pub choices: Vec<u64>,
    pub msg: String,
    pub desc: String,
    pub shrink_steps: u64,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub per_sub: Vec<Value>,
    pub exhaustive_subs: Vec<String>,
}

pub fn case_seed(seed: u64, sub: &str, idx: u64) -> u64 { hash64(&[seed, hash_str(sub), idx]) }

fn make_src(sub: &Sub, seed: u64, idx: u64) -> Src {
    match sub.kind {
        Kind::Random(..) => Src::random(case_seed(seed, sub.name, idx)),
        Kind::Exhaustive(..) => Src::replay(vec![idx]),
    }
}

fn thread_cpu_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

fn thread_clock() -> libc::clockid_t {
    let mut c: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
    c
}

fn clock_ns(c: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(c, &mut ts) } != 0 { return 0; }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

struct Worker { clock: Mutex<Option<libc::clockid_t>>, start: AtomicU64 }

pub fn run_sub(prop: &Prop, si: usize, seed: u64, thorough: bool, flight: &Flight, stats: &mut Stats) -> Option<Failure> {
    let sub = &prop.subs[si];
    let total = match sub.kind {
        Kind::Random(q, t) | Kind::Exhaustive(q, t) => if thorough { t } else { q },
    };
    let nthreads = if sub.serial { 1 } else { 8usize.min(total.max(1) as usize) };
    let min_fail = AtomicU64::new(u64::MAX);
    let fails: Mutex<Vec<(u64, Vec<u64>, String)>> = Mutex::new(vec![]);
    let agg: Mutex<Vec<(u64, HashSet<u64>, BTreeMap<String, u64>, Vec<(u64, String)>)>> = Mutex::new(vec![]);
    let workers: Arc<Vec<Worker>> = Arc::new((0..nthreads).map(|_| Worker { clock: Mutex::new(None), start: AtomicU64::new(0) }).collect());
    let done = Arc::new(AtomicBool::new(false));
    // watchdog: CPU time of the running case, never wall-clock time
    {
        let workers = workers.clone();
        let done = done.clone();
        std::thread::spawn(move || {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(200));
                for w in workers.iter() {
                    let g = w.clock.lock().unwrap();
                    if let Some(c) = *g {
                        let st = w.start.load(Ordering::SeqCst);
                        let now = clock_ns(c);
                        if st > 0 && now > st && now - st > CASE_CPU_LIMIT * 1_000_000_000 {
                            // the parent process re-runs every case in flight, alone, to confirm
                            unsafe { libc::_exit(87) };
                        }
                    }
                }
            }
        });
    }
    std::thread::scope(|sc| {
        for t in 0..nthreads {
            let (min_fail, fails, agg, workers) = (&min_fail, &fails, &agg, workers.clone());
            let b = std::thread::Builder::new().stack_size(16 << 20);
            b.spawn_scoped(sc, move || {
                *workers[t].clock.lock().unwrap() = Some(thread_clock());
                let mut evals = 0u64;
                let mut distinct = HashSet::new();
                let mut labels: BTreeMap<String, u64> = BTreeMap::new();
                let mut samples: Vec<(u64, String)> = vec![];
                let mut idx = t as u64;
                while idx < total {
                    if idx > min_fail.load(Ordering::SeqCst) { break; }
                    flight.set(t, si, idx);
                    workers[t].start.store(thread_cpu_ns().max(1), Ordering::SeqCst);
                    let mut src = make_src(sub, seed, idx);
                    let mut info = Info { want_desc: samples.len() < 2, ..Default::default() };
                    let r = run_case(sub, &mut src, &mut info);
                    evals += 1 + info.evals;
                    if info.nontrivial { distinct.insert(info.key.unwrap_or_else(|| hash64(&src.rec))); }
                    for l in info.labels.iter() { *labels.entry(l.to_string()).or_insert(0) += 1; }
                    if info.nontrivial && info.want_desc && !info.desc.is_empty() { samples.push((idx, info.desc.clone())); }
                    if let Err(m) = r {
                        fails.lock().unwrap().push((idx, src.rec.clone(), m));
                        min_fail.fetch_min(idx, Ordering::SeqCst);
                        break;
                    }
                    idx += nthreads as u64;
                }
                workers[t].start.store(0, Ordering::SeqCst);
                *workers[t].clock.lock().unwrap() = None;
                flight.clear(t);
                agg.lock().unwrap().push((evals, distinct, labels, samples));
            }).unwrap();
        }
    });
    done.store(true, Ordering::SeqCst);
    let mut evals = 0;
    let mut dist = 0;
    let mut all_samples = vec![];
    for (e, d, l, s) in agg.into_inner().unwrap() {
        evals += e;
        for k in d { if stats.distinct.insert(hash64(&[si as u64, k])) { dist += 1; } }
        for (k, v) in l { *stats.labels.entry(format!("{}/{}", sub.name, k)).or_insert(0) += v; }
        all_samples.extend(s);
    }
    all_samples.sort();
    for (i, d) in all_samples.into_iter().take(2) {
        stats.samples.push(json!({"sub": sub.name, "index": i, "case": trunc(&d, 600)}));
    }
    stats.evaluations += evals;
    let ex = matches!(sub.kind, Kind::Exhaustive(..));
    if ex { stats.exhaustive_subs.push(sub.name.to_string()); }
    stats.per_sub.push(json!({"sub": sub.name, "cases": total, "evaluations": evals, "distinct_nontrivial": dist, "enumerated": ex}));

    let mut fails = fails.into_inner().unwrap();
    fails.sort();
    fails.into_iter().next().map(|(idx, choices, msg)| {
        // should a smaller case never end, or end the process, the parent re-runs this one
        flight.set(0, si, idx);
        let f = shrink(sub, idx, choices, msg);
        flight.clear(0);
        f
    })
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() } else { let mut t: String = s.chars().take(n).collect(); t.push_str(" ..."); t }
}

fn try_choices(sub: &Sub, c: Vec<u64>) -> Option<(Vec<u64>, String)> {
    let mut src = Src::replay(c);
    let mut info = Info::default();
    match run_case(sub, &mut src, &mut info) {
        Ok(()) => None,
        Err(m) => Some((src.rec, m)),
    }
}

fn shrink(sub: &Sub, idx: u64, choices: Vec<u64>, msg: String) -> Failure {
    let clock = thread_clock();
    let start = Arc::new(AtomicU64::new(0));
    let watch = start.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        match watch.load(Ordering::SeqCst) {
            u64::MAX => break,
            0 => (),
            st => { let now = clock_ns(clock); if now > st && now - st > CASE_CPU_LIMIT * 1_000_000_000 { unsafe { libc::_exit(87) }; } }
        }
    });
    let f = shrink_watched(sub, idx, choices, msg, &start);
    start.store(u64::MAX, Ordering::SeqCst);
    f
}

fn shrink_watched(sub: &Sub, idx: u64, choices: Vec<u64>, msg: String, start: &AtomicU64) -> Failure {
    let try_choices = |sub: &Sub, c: Vec<u64>| { start.store(thread_cpu_ns().max(1), Ordering::SeqCst); try_choices(sub, c) };
    let mut best = choices;
    let mut bmsg = msg;
    let mut steps = 0u64;
    if matches!(sub.kind, Kind::Random(..)) {
        let t0 = thread_cpu_ns();
        // a run of the program costs this thread nothing, so the time that passes counts as well; how far
        // a case is reduced never changes the verdict
        let begun = Instant::now();
        let over = |steps: u64| steps > 4000 || thread_cpu_ns() - t0 > 30_000_000_000 || begun.elapsed().as_secs() > 60;
        let better = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a) < (b.len(), b);
        loop {
            let before = best.clone();
            // delete chunks
            let mut size = (best.len() / 2).max(1);
            while size >= 1 {
                let mut i = 0;
                while i + size <= best.len() && !over(steps) {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    steps += 1;
                    match try_choices(sub, c) {
                        Some((r, m)) if better(&r, &best) => { best = r; bmsg = m; }
                        _ => i += size,
                    }
                }
                if size == 1 { break; }
                size /= 2;
            }
            // zero, then binary-search each value down
            let mut i = 0;
            while i < best.len() && !over(steps) {
                if best[i] > 0 {
                    let mut c = best.clone();
                    c[i] = 0;
                    steps += 1;
                    match try_choices(sub, c) {
                        Some((r, m)) if better(&r, &best) => { best = r; bmsg = m; }
                        _ => {
                            let (mut lo, mut hi) = (0u64, best[i]);
                            while lo + 1 < hi && i < best.len() && !over(steps) {
                                let mid = lo + (hi - lo) / 2;
                                let mut c = best.clone();
                                c[i] = mid;
                                steps += 1;
                                match try_choices(sub, c) {
                                    Some((r, m)) if better(&r, &best) => { best = r; bmsg = m; hi = mid; }
                                    _ => lo = mid,
                                }
                            }
                        }
                    }
                }
                i += 1;
            }
            if best == before || over(steps) { break; }
        }
    }
    start.store(thread_cpu_ns().max(1), Ordering::SeqCst);
    let mut info = Info { want_desc: true, ..Default::default() };
    let mut src = Src::replay(best.clone());
    let _ = run_case(sub, &mut src, &mut info);
    Failure { sub: sub.name, idx, choices: best, msg: bmsg, desc: info.desc, shrink_steps: steps }
}

pub fn replay_choices(sub: &Sub, choices: Vec<u64>) -> (Res, String) {
    let mut info = Info { want_desc: true, ..Default::default() };
    let mut src = Src::replay(choices);
    let r = run_case(sub, &mut src, &mut info);
    (r, info.desc)
}

pub fn run_index(sub: &Sub, seed: u64, idx: u64) -> (Res, Vec<u64>) {
    let mut info = Info::default();
    let mut src = make_src(sub, seed, idx);
    let r = run_case(sub, &mut src, &mut info);
    (r, src.rec)
}

pub struct Timer(Instant);
impl Timer {
    pub fn new() -> Timer { Timer(Instant::now()) }
    pub fn secs(&self) -> f64 { (self.0.elapsed().as_millis() as f64) / 1000.0 }
}
