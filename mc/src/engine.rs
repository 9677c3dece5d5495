//! Exhaustive exploration of indexed case spaces on the real code, in parallel, with replay.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut s = std::hash::SipHasher::new();
    t.hash(&mut s);
    s.finish()
}
/// What one case reports about itself.
#[derive(Default)]
pub struct Rec {
    pub want: bool,
    pub thorough: bool,
    pub desc: String,
    states: HashSet<u64>,
    distinct: HashSet<u64>,
    transitions: u64,
    traces: u64,
    extra: BTreeMap<&'static str, u64>,
}
impl Rec {
    /// A model state that was visited.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.insert(h(t));
    }
    /// A model transition that was taken.
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: usize) {
        self.transitions += n as u64;
    }
    /// One run of the implementation whose observation was compared with the model.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    /// A distinct non-trivial observation.
    pub fn seen<T: Hash + ?Sized>(&mut self, t: &T) {
        self.distinct.insert(h(t));
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want {
            self.desc = f();
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.extra.entry(k).or_default() += n;
    }
}
#[derive(Clone)]
pub struct Violation {
    pub family: String,
    pub index: u64,
    pub desc: String,
    pub msg: String,
}
pub struct Run {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub replay: Option<(String, u64)>,
    pub only: Option<String>,
    pub families: Vec<(String, u64, f64)>,
    pub evals: u64,
    pub states: HashSet<u64>,
    pub distinct: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub extra: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub total_violations: u64,
    pub known: Vec<(String, String, String)>,
    pub known_hit: Vec<bool>,
    pub start: Instant,
}
thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
static ANY_PANIC: Mutex<String> = Mutex::new(String::new());
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let t = format!("panic at {loc}: {m}");
        if std::env::var_os("RXMC_TRACE").is_some() {
            eprintln!("{t}");
        }
        PANIC.with(|p| *p.borrow_mut() = t.clone());
        *ANY_PANIC.lock().unwrap() = t;
    }));
}
/// Run `f`, turning a panic into an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let mut t = PANIC.with(|p| p.borrow().clone());
        if t.contains("a scoped thread panicked") || t.is_empty() {
            t = format!("{t} / {}", ANY_PANIC.lock().unwrap());
        }
        if t.is_empty() {
            t = e.downcast_ref::<String>().cloned().unwrap_or_else(|| "panic".into());
        }
        t
    })
}
pub fn workers() -> usize {
    std::env::var("RXMC_JOBS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).max(1)
}
impl Run {
    pub fn new(prop: &str, thorough: bool, seed: u64, known: Vec<(String, String, String)>) -> Run {
        let n = known.len();
        Run {
            prop: prop.into(),
            thorough,
            seed,
            replay: None,
            only: std::env::var("RXMC_FAMILY").ok(),
            families: vec![],
            evals: 0,
            states: HashSet::new(),
            distinct: HashSet::new(),
            transitions: 0,
            traces: 0,
            extra: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            total_violations: 0,
            known,
            known_hit: vec![false; n],
            start: Instant::now(),
        }
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    fn one<F>(f: &F, i: u64, rec: &mut Rec) -> Result<(), String>
    where
        F: Fn(u64, &mut Rec) -> Result<(), String>,
    {
        match guarded(|| f(i, rec)) {
            Ok(r) => r,
            Err(p) => Err(p),
        }
    }
    /// Explore every case of a family: indices 0..n.
    pub fn explore<F>(&mut self, family: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Rec) -> Result<(), String> + Sync,
    {
        self.explore_with(family, n, workers(), f)
    }
    pub fn explore_with<F>(&mut self, family: &str, n: u64, jobs: usize, f: F)
    where
        F: Fn(u64, &mut Rec) -> Result<(), String> + Sync,
    {
        if let Some((rf, ri)) = &self.replay {
            if rf == family {
                let mut rec = Rec { want: true, thorough: self.thorough, ..Default::default() };
                let r = Self::one(&f, *ri, &mut rec);
                println!("replay {} {} #{}: {}", self.prop, family, ri, rec.desc);
                match r {
                    Ok(()) => println!("  holds"),
                    Err(m) => {
                        println!("  fails: {m}");
                        self.total_violations += 1;
                    }
                }
            }
            return;
        }
        if let Some(o) = &self.only {
            if !family.contains(o.as_str()) {
                return;
            }
        }
        let t0 = Instant::now();
        let thorough = self.thorough;
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        let fails: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
        let nfail = AtomicU64::new(0);
        let recs: Mutex<Vec<Rec>> = Mutex::new(vec![]);
        let jobs = jobs.min(n.max(1) as usize);
        let chunk = (n / (jobs as u64 * 16)).clamp(1, 256);
        let current: Vec<(AtomicU64, AtomicU64)> = (0..jobs).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
        let max_fail: u64 = std::env::var("RXMC_MAXFAIL").ok().and_then(|v| v.parse().ok()).unwrap_or(2000);
        let active = AtomicU64::new(jobs as u64);
        let hang: Mutex<Option<u64>> = Mutex::new(None);
        let (prop, fam) = (self.prop.clone(), family.to_string());
        std::thread::scope(|s| {
            for w in 0..jobs {
                let (next, stop, fails, recs, f, nfail, done, current, active) = (&next, &stop, &fails, &recs, &f, &nfail, &done, &current, &active);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut rec = Rec { thorough, ..Default::default() };
                        'outer: loop {
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= n {
                                break;
                            }
                            for i in a..(a + chunk).min(n) {
                                if stop.load(Ordering::Relaxed) {
                                    break 'outer;
                                }
                                current[w].1.store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                                current[w].0.store(i, Ordering::Relaxed);
                                if let Err(m) = Self::one(f, i, &mut rec) {
                                    let k = nfail.fetch_add(1, Ordering::Relaxed);
                                    fails.lock().unwrap().push((i, m));
                                    if k + 1 >= max_fail {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                done.fetch_add(1, Ordering::Relaxed);
                            }
                        }
                        current[w].0.store(u64::MAX, Ordering::Relaxed);
                        recs.lock().unwrap().push(rec);
                        active.fetch_sub(1, Ordering::Release);
                    })
                    .unwrap();
            }
            // Watchdog: a case that does not come back is a violation as well.
            let (current, active, hang) = (&current, &active, &hang);
            s.spawn(move || {
                while active.load(Ordering::Acquire) > 0 {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = t0.elapsed().as_millis() as u64;
                    for c in current.iter() {
                        let i = c.0.load(Ordering::Relaxed);
                        if i != u64::MAX && now.saturating_sub(c.1.load(Ordering::Relaxed)) > 180_000 {
                            *hang.lock().unwrap() = Some(i);
                            let path = format!("/verif/replays/{prop}-hang.json");
                            let _ = std::fs::create_dir_all("/verif/replays");
                            let _ = std::fs::write(&path, format!("{{\"property\":{prop:?},\"family\":{fam:?},\"index\":{i},\"message\":\"case did not finish within 180 s\"}}\n"));
                            println!("VIOLATION property={prop} replay={path}");
                            println!("  {fam} #{i}: case did not finish within 180 s");
                            std::process::exit(1);
                        }
                    }
                }
            });
        });
        for r in recs.into_inner().unwrap() {
            self.states.extend(r.states);
            self.distinct.extend(r.distinct);
            self.transitions += r.transitions;
            self.traces += r.traces;
            for (k, v) in r.extra {
                *self.extra.entry(k).or_default() += v;
            }
        }
        self.evals += done.load(Ordering::Relaxed);
        self.families.push((family.to_string(), done.load(Ordering::Relaxed), t0.elapsed().as_secs_f64()));
        // Samples: the first, middle and last case, written out.
        if n > 0 && self.samples.len() < 40 {
            for i in [n / 3, n - 1] {
                let mut rec = Rec { want: true, thorough: self.thorough, ..Default::default() };
                let _ = Self::one(&f, i, &mut rec);
                if !rec.desc.is_empty() {
                    let mut d = rec.desc;
                    if d.len() > 400 {
                        let mut e = 400;
                        while !d.is_char_boundary(e) {
                            e -= 1;
                        }
                        d.truncate(e);
                    }
                    self.samples.push(format!("{family} #{i}: {d}"));
                }
            }
        }
        let mut fails = fails.into_inner().unwrap();
        fails.sort();
        for (i, msg) in fails {
            // Only describe the first few, but look each up in the known findings.
            let mut rec = Rec { want: true, thorough: self.thorough, ..Default::default() };
            let _ = Self::one(&f, i, &mut rec);
            if let Some(k) = self.known.iter().position(|k| k.0 == family && k.1 == rec.desc) {
                self.known_hit[k] = true;
                continue;
            }
            self.total_violations += 1;
            if self.violations.len() < 25 {
                self.violations.push(Violation { family: family.into(), index: i, desc: rec.desc, msg });
            } else if self.total_violations > 200 {
                break;
            }
        }
    }
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A mixed-radix index decoder.
pub struct Dig(pub u64);
impl Dig {
    pub fn take(&mut self, n: usize) -> usize {
        let r = self.0 % n as u64;
        self.0 /= n as u64;
        r as usize
    }
    pub fn flag(&mut self) -> bool {
        self.take(2) == 1
    }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.take(v.len())]
    }
}
/// Number of sequences of length 0..=depth over `k` symbols.
pub fn seqs(k: u64, depth: u32) -> u64 {
    (0..=depth).map(|d| k.pow(d)).sum()
}
/// The i-th sequence (shortest first).
pub fn seq(mut i: u64, k: u64) -> Vec<usize> {
    let mut d = 0;
    while i >= k.pow(d) {
        i -= k.pow(d);
        d += 1;
    }
    let mut v = vec![];
    for _ in 0..d {
        v.push((i % k) as usize);
        i /= k;
    }
    v.reverse();
    v
}
/// The i-th permutation of 0..n.
pub fn perm(n: usize, mut i: u64) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for k in (1..=n).rev() {
        out.push(pool.remove((i % k as u64) as usize));
        i /= k as u64;
    }
    out
}
pub fn fact(n: u64) -> u64 {
    (1..=n).product()
}
/// Subsets of 0..n with at most `k` elements, smallest first.
pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        let mut nx = vec![];
        for s in &cur {
            let st = s.last().map(|x| x + 1).unwrap_or(0);
            for e in st..n {
                let mut t = s.clone();
                t.push(e);
                nx.push(t);
            }
        }
        out.extend(nx.iter().cloned());
        cur = nx;
    }
    out
}
