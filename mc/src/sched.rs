//! A controlled scheduler: real threads of the real code, one running at a time, with every
//! lock acquisition (and every start of a parallel task) as a scheduling point, and a
//! depth-first enumeration of all the choices, optionally up to a number of preemptions.
use rust_xlsxwriter::mc_hooks;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Absent,
    /// Waiting to be scheduled; with the lock it wants, if any.
    Wants(Option<(usize, bool)>),
    Running,
    Done,
}
#[derive(Clone)]
struct Choice {
    taken: usize,
    n: usize,
    /// The alternatives other than 0 are preemptions of a thread that could go on.
    preempts: bool,
}
#[derive(Default)]
struct Locks {
    readers: HashMap<usize, u32>,
    writer: HashSet<usize>,
}
struct St {
    prefix: Vec<usize>,
    choices: Vec<Choice>,
    tasks: Vec<Status>,
    ops: Vec<u32>,
    prev: Option<usize>,
    current: Option<usize>,
    locks: Locks,
    order: HashMap<usize, usize>,
    trace: Vec<(usize, u32)>,
    states: Vec<u64>,
    deadlock: bool,
    diverged: bool,
    free: bool,
    progress: Instant,
    events: u64,
}
pub struct Session {
    st: Mutex<St>,
    cvs: Vec<Condvar>,
    pub seed: u64,
    names: Vec<String>,
}
thread_local! {
    static CUR: RefCell<Option<(Arc<Session>, usize)>> = const { RefCell::new(None) };
    static SEED: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}
fn by_name() -> &'static Mutex<HashMap<String, (Arc<Session>, usize)>> {
    static M: OnceLock<Mutex<HashMap<String, (Arc<Session>, usize)>>> = OnceLock::new();
    M.get_or_init(Default::default)
}
type Job = Box<dyn FnOnce() + Send>;
thread_local! {
    static POOL: RefCell<Vec<std::sync::mpsc::Sender<Job>>> = const { RefCell::new(vec![]) };
}
/// Run a job on the k-th helper thread of this worker (starting threads is what costs most).
fn on_pool(k: usize, job: Job) {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        while p.len() <= k {
            let (tx, rx) = std::sync::mpsc::channel::<Job>();
            std::thread::spawn(move || {
                for j in rx {
                    j();
                }
            });
            p.push(tx);
        }
        p[k].send(job).expect("helper thread");
    })
}
struct Global;
impl mc_hooks::Scheduler for Global {
    fn before_acquire(&self, lock: usize, w: bool) {
        if let Some((s, t)) = CUR.with(|c| c.borrow().clone()) {
            s.point(t, Some((lock, w)));
        }
    }
    fn after_release(&self, lock: usize, w: bool) {
        if let Some((s, t)) = CUR.with(|c| c.borrow().clone()) {
            s.release(t, lock, w);
        }
    }
    fn task_start(&self, name: &str) {
        let e = by_name().lock().unwrap().get(name).cloned();
        if let Some((s, t)) = e {
            set_seed(Some(s.seed));
            CUR.with(|c| *c.borrow_mut() = Some((s.clone(), t)));
            s.point(t, None);
        }
    }
    fn task_end(&self, _name: &str) {
        let e = CUR.with(|c| c.borrow_mut().take());
        if let Some((s, t)) = e {
            s.finish(t);
        }
    }
}
pub fn install() {
    mc_hooks::install_scheduler(Box::new(Global));
}
impl Session {
    fn new(seed: u64, names: Vec<String>, prefix: Vec<usize>) -> Arc<Session> {
        let n = names.len();
        Arc::new(Session {
            st: Mutex::new(St {
                prefix,
                choices: vec![],
                tasks: vec![Status::Absent; n],
                ops: vec![0; n],
                prev: None,
                current: None,
                locks: Locks::default(),
                order: HashMap::new(),
                trace: vec![],
                states: vec![],
                deadlock: false,
                diverged: false,
                free: false,
                progress: Instant::now(),
                events: 0,
            }),
            cvs: (0..n).map(|_| Condvar::new()).collect(),
            seed,
            names,
        })
    }
    fn grantable(st: &St, w: Option<(usize, bool)>) -> bool {
        match w {
            None => true,
            Some((l, true)) => !st.locks.writer.contains(&l) && st.locks.readers.get(&l).copied().unwrap_or(0) == 0,
            Some((l, false)) => !st.locks.writer.contains(&l),
        }
    }
    fn all(&self) {
        for c in &self.cvs {
            c.notify_all();
        }
    }
    fn schedule(&self, st: &mut St, caller: Option<usize>) {
        if st.free || st.current.is_some() || st.tasks.iter().any(|t| *t == Status::Absent) {
            return;
        }
        let mut en: Vec<usize> = (0..st.tasks.len()).filter(|i| matches!(st.tasks[*i], Status::Wants(w) if Self::grantable(st, w))).collect();
        if en.is_empty() {
            if st.tasks.iter().any(|t| matches!(t, Status::Wants(_))) {
                st.deadlock = true;
                self.all();
            }
            return;
        }
        let mut preempts = false;
        if let Some(p) = st.prev {
            if let Some(i) = en.iter().position(|x| *x == p) {
                en.remove(i);
                en.insert(0, p);
                preempts = true;
            }
        }
        let k = st.choices.len();
        let mut taken = st.prefix.get(k).copied().unwrap_or(0);
        if taken >= en.len() {
            st.diverged = true;
            taken = 0;
        }
        st.choices.push(Choice { taken, n: en.len(), preempts });
        let t = en[taken];
        if let Status::Wants(Some((l, w))) = st.tasks[t] {
            if w {
                st.locks.writer.insert(l);
            } else {
                *st.locks.readers.entry(l).or_default() += 1;
            }
            let n = st.order.len();
            st.order.entry(l).or_insert(n);
        }
        st.tasks[t] = Status::Running;
        st.current = Some(t);
        st.prev = Some(t);
        st.ops[t] += 1;
        st.events += 1;
        let op = st.ops[t];
        st.trace.push((t, op));
        let snapshot = (st.ops.clone(), t);
        st.states.push(crate::engine::h(&snapshot));
        st.progress = Instant::now();
        if Some(t) != caller {
            self.cvs[t].notify_all();
        }
    }
    fn point(&self, t: usize, want: Option<(usize, bool)>) {
        let mut st = self.st.lock().unwrap();
        if st.free {
            return;
        }
        st.tasks[t] = Status::Wants(want);
        if st.current == Some(t) {
            st.current = None;
        }
        st.progress = Instant::now();
        self.schedule(&mut st, Some(t));
        loop {
            if st.current == Some(t) {
                return;
            }
            if st.free {
                return;
            }
            if st.deadlock {
                drop(st);
                panic!("deadlock");
            }
            let (g, to) = self.cvs[t].wait_timeout(st, Duration::from_millis(200)).unwrap();
            st = g;
            if to.timed_out() && st.current != Some(t) {
                let idle = st.progress.elapsed();
                // Tasks that never arrive (a sequential implementation): go on without them.
                if idle > Duration::from_millis(400) && st.current.is_none() && st.tasks.iter().any(|x| *x == Status::Absent) {
                    st.free = true;
                    self.all();
                }
                // A task blocked on something that is not under control.
                if idle > Duration::from_secs(20) {
                    st.free = true;
                    self.all();
                }
            }
        }
    }
    fn release(&self, _t: usize, lock: usize, w: bool) {
        let mut st = self.st.lock().unwrap();
        if w {
            st.locks.writer.remove(&lock);
        } else if let Some(n) = st.locks.readers.get_mut(&lock) {
            *n = n.saturating_sub(1);
        }
        st.progress = Instant::now();
    }
    fn finish(&self, t: usize) {
        let mut st = self.st.lock().unwrap();
        st.tasks[t] = Status::Done;
        if st.current == Some(t) {
            st.current = None;
        }
        self.schedule(&mut st, None);
    }
    /// Run the bodies as controlled threads to completion.
    pub fn run<T: Send + 'static>(self: &Arc<Self>, bodies: Vec<Box<dyn FnOnce() -> T + Send>>) -> Result<Vec<T>, String> {
        assert_eq!(bodies.len(), self.names.len());
        let (tx, rx) = std::sync::mpsc::channel();
        let n = bodies.len();
        for (t, b) in bodies.into_iter().enumerate() {
            let s = self.clone();
            let tx = tx.clone();
            on_pool(
                t,
                Box::new(move || {
                    CUR.with(|c| *c.borrow_mut() = Some((s.clone(), t)));
                    let r = crate::engine::guarded(|| {
                        s.point(t, None);
                        b()
                    });
                    CUR.with(|c| *c.borrow_mut() = None);
                    s.finish(t);
                    let _ = tx.send((t, r));
                }),
            );
        }
        drop(tx);
        let mut res: Vec<Option<Result<T, String>>> = (0..n).map(|_| None).collect();
        for (t, r) in rx {
            res[t] = Some(r);
        }
        if self.st.lock().unwrap().deadlock {
            return Err("deadlock".into());
        }
        res.into_iter().map(|r| r.unwrap_or_else(|| Err("thread died".into()))).collect()
    }
    pub fn schedule_text(&self) -> String {
        let st = self.st.lock().unwrap();
        st.trace.iter().map(|(t, o)| format!("{}.{o}", self.names[*t])).collect::<Vec<_>>().join(" ")
    }
}
#[derive(Default, Debug)]
pub struct Stats {
    pub schedules: u64,
    pub steps: u64,
    pub states: HashSet<u64>,
    pub free: u64,
}
/// Enumerate all the schedules of `exec`. The tasks are named; names of the library's own
/// parallel tasks are the names of the worksheets.
pub fn explore(names: &[String], seed: u64, bound: Option<usize>, mut exec: impl FnMut(&Arc<Session>) -> Result<(), String>) -> Result<Stats, String> {
    install();
    let mut stats = Stats::default();
    let mut prefix: Vec<usize> = vec![];
    loop {
        let s = Session::new(seed, names.to_vec(), prefix.clone());
        {
            let mut m = by_name().lock().unwrap();
            for (i, n) in names.iter().enumerate() {
                m.insert(n.clone(), (s.clone(), i));
            }
        }
        let r = exec(&s);
        {
            let mut m = by_name().lock().unwrap();
            for n in names {
                m.remove(n);
            }
        }
        if let Err(m) = r {
            return Err(format!("{m} [schedule {} of the enumeration: {}]", stats.schedules + 1, s.schedule_text()));
        }
        let st = s.st.lock().unwrap();
        stats.schedules += 1;
        stats.steps += st.events;
        stats.states.extend(st.states.iter());
        if st.free {
            stats.free += 1;
            // Not under control: one execution only.
            return Ok(stats);
        }
        if st.diverged {
            return Err("MACHINERY: the replay of a schedule prefix diverged".into());
        }
        // Next prefix in depth-first order.
        let ch = st.choices.clone();
        drop(st);
        let mut next = None;
        for k in (0..ch.len()).rev() {
            if ch[k].taken + 1 >= ch[k].n {
                continue;
            }
            let used: usize = ch[..k].iter().filter(|c| c.preempts && c.taken > 0).count();
            if let Some(b) = bound {
                if ch[k].preempts && used + 1 > b {
                    continue;
                }
            }
            let mut p: Vec<usize> = ch[..k].iter().map(|c| c.taken).collect();
            p.push(ch[k].taken + 1);
            next = Some(p);
            break;
        }
        match next {
            Some(p) => prefix = p,
            None => return Ok(stats),
        }
    }
}

// ---------------------------------------------------------------------------------------
// Deterministic hash seeds: the standard library takes the keys of its hash maps from
// getrandom(); this definition takes its place in this executable.
pub fn set_seed(s: Option<u64>) {
    SEED.with(|c| c.set(s));
}
fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
static CALLS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn random_calls() -> u64 {
    CALLS.load(std::sync::atomic::Ordering::Relaxed)
}
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let k = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let s = SEED.try_with(|c| c.get()).ok().flatten();
    let mut x = match s {
        Some(s) => mix(s ^ 0x5eed),
        None => mix(0xabcdef ^ (k << 20)),
    };
    for i in 0..len {
        x = mix(x);
        unsafe { *buf.add(i) = (x >> 13) as u8 };
    }
    len as isize
}
/// Run `f` on a fresh thread whose hash maps are keyed from `seed`.
pub fn seeded<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, move || {
                set_seed(Some(seed));
                crate::engine::guarded(f)
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err("thread died".into()))
    })
}
/// Check that the hash seeds really are under control: the iteration order of a map is a
/// function of the seed, and two seeds give two orders.
pub fn self_test() -> Result<(), String> {
    let order = |s: u64| {
        seeded(s, || {
            let mut m = HashMap::new();
            for i in 0..40u32 {
                m.insert(i, ());
            }
            m.keys().copied().collect::<Vec<_>>()
        })
    };
    let (a, b, c) = (order(1)?, order(1)?, order(2)?);
    if a != b {
        return Err("MACHINERY: hash seeds are not under control".into());
    }
    if a == c {
        return Err("MACHINERY: hash seeds have no effect".into());
    }
    Ok(())
}
