//! Stateless explorer: walks the complete choice tree of a driver, bounded by
//! the number of deviations (costed non-default choices) per execution.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
#[cfg(unix)]
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Alpha {
    Narrow,
    Wide,
}

#[derive(Clone, Copy, Debug)]
pub struct Pt {
    pub choice: u32,
    pub n: u32,
    pub cost: bool,
    pub label: &'static str,
}

pub struct Ctx {
    prefix: Vec<u32>,
    pub trace: Vec<Pt>,
    pub alpha: Alpha,
    /// Groups of fields that are allowed to deviate (driver specific bit mask).
    pub live: u32,
    pub counters: BTreeMap<&'static str, u64>,
    /// Hash of the model state this execution ends in (set by the driver).
    pub state: u64,
    /// Input bytes for the replay file.
    pub input: Vec<u8>,
    pub keep_input: bool,
    pub note: String,
    /// Further model states visited by this execution beyond `state`.
    pub extra_states: u64,
    states: Vec<u64>,
}

/// Violation of the property under check.
#[derive(Debug, Clone)]
pub struct Bad(pub String);
pub type Res = Result<u64, Bad>;

#[macro_export]
macro_rules! bad { ($($t:tt)*) => { return Err($crate::explore::Bad(format!($($t)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::explore::Bad(format!($($t)*))) } } }

pub const DIVERGED: &str = "MC-DIVERGED";

impl Ctx {
    fn new(prefix: Vec<u32>, alpha: Alpha, live: u32) -> Self {
        Ctx {
            prefix,
            trace: Vec::with_capacity(64),
            alpha,
            live,
            counters: BTreeMap::new(),
            state: 0,
            input: Vec::new(),
            keep_input: false,
            note: String::new(),
            extra_states: 0,
            states: Vec::new(),
        }
    }
    fn choose(&mut self, label: &'static str, n: usize, cost: bool) -> usize {
        assert!(n >= 1, "{DIVERGED}: empty choice {label}");
        let i = self.trace.len();
        let c = self.prefix.get(i).copied().unwrap_or(0);
        assert!((c as usize) < n, "{DIVERGED}: choice {c} of {n} at {label}");
        self.trace.push(Pt { choice: c, n: n as u32, cost, label });
        c as usize
    }
    /// Deviation point: choice 0 is the default, every other choice costs one deviation.
    pub fn pick(&mut self, label: &'static str, n: usize) -> usize {
        self.choose(label, n, true)
    }
    /// Free choice point: all alternatives are always enumerated.
    pub fn all(&mut self, label: &'static str, n: usize) -> usize {
        self.choose(label, n, false)
    }
    pub fn flag(&mut self, label: &'static str) -> bool {
        self.pick(label, 2) == 1
    }
    pub fn of<T: Copy>(&mut self, label: &'static str, opts: &[T]) -> T {
        opts[self.pick(label, opts.len())]
    }
    pub fn all_of<T: Copy>(&mut self, label: &'static str, opts: &[T]) -> T {
        opts[self.all(label, opts.len())]
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    /// A context without live choices: every deviation point yields its default.
    pub fn plain() -> Self {
        Ctx::new(vec![], Alpha::Narrow, 0)
    }
    /// Record the input of this execution.
    pub fn input(&mut self, b: &[u8]) {
        self.state = hash(b);
        if self.keep_input {
            self.input = b.to_vec();
        }
    }
    pub fn visit(&mut self, h: u64) {
        self.states.push(h);
    }
}

pub type DriverFn = Box<dyn Fn(&mut Ctx) -> Res + Sync + Send>;

pub struct Driver {
    pub name: &'static str,
    pub bound: u32,
    pub alpha: Alpha,
    pub live: u32,
    /// Stack size of the exploring threads.
    pub stack: usize,
    pub threads: usize,
    pub f: DriverFn,
    /// What the choice points range over, in words.
    pub what: &'static str,
}
impl Driver {
    pub fn new(
        name: &'static str,
        bound: u32,
        what: &'static str,
        f: impl Fn(&mut Ctx) -> Res + Sync + Send + 'static,
    ) -> Self {
        Driver { name, bound, alpha: Alpha::Narrow, live: !0, stack: 8 << 20, threads: 0, f: Box::new(f), what }
    }
    pub fn wide(mut self) -> Self {
        self.alpha = Alpha::Wide;
        self
    }
    pub fn live(mut self, m: u32) -> Self {
        self.live = m;
        self
    }
    pub fn stack(mut self, s: usize) -> Self {
        self.stack = s;
        self
    }
    pub fn threads(mut self, s: usize) -> Self {
        self.threads = s;
        self
    }
}

#[derive(Clone)]
struct Item {
    base: Arc<Vec<u32>>, // choices before the divergence point
    next: u32,
    end: u32,
    devs: u32, // deviations after taking the divergent choice
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub driver: String,
    pub choices: Vec<u32>,
    pub labels: Vec<(String, u32, u32)>,
    pub msg: String,
    pub input: Vec<u8>,
    pub note: String,
    pub devs: u32,
    pub deterministic: bool,
}

#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub outcomes: u64,
    pub max_points: u64,
    pub by_devs: Vec<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub capped: bool,
    pub wall: f64,
    pub violation: Option<Violation>,
    pub internal: Option<String>,
}

thread_local! { static LAST_PANIC: RefCell<Option<(String,String)>> = const { RefCell::new(None) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Outcome {
    Ok(u64),
    Bad(String),
    Internal(String),
}

pub fn run_one(d: &Driver, prefix: Vec<u32>, keep: bool) -> (Ctx, Outcome) {
    let mut ctx = Ctx::new(prefix, d.alpha, d.live);
    ctx.keep_input = keep;
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| (d.f)(&mut ctx)));
    let o = match r {
        Ok(Ok(h)) => Outcome::Ok(h),
        Ok(Err(Bad(m))) => Outcome::Bad(m),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // Panics raised in the harness itself (relative path "src/...") are errors of the check.
            if loc.starts_with("src/") || msg.contains(DIVERGED) {
                Outcome::Internal(format!("harness panic at {loc}: {msg}"))
            } else {
                Outcome::Bad(format!("panic in code under test at {loc}: {msg}"))
            }
        }
    };
    if ctx.trace.len() < ctx.prefix.len() {
        let m = format!("replay used {} of {} choices", ctx.trace.len(), ctx.prefix.len());
        if let Outcome::Ok(_) = o {
            return (ctx, Outcome::Internal(m));
        }
    }
    (ctx, o)
}

/// One execution where panics are not caught.
#[allow(dead_code)]
pub fn run_plain(d: &Driver, prefix: Vec<u32>) -> (Ctx, Outcome) {
    let mut ctx = Ctx::new(prefix, d.alpha, d.live);
    let o = match (d.f)(&mut ctx) {
        Ok(h) => Outcome::Ok(h),
        Err(Bad(m)) => Outcome::Bad(m),
    };
    if ctx.trace.len() < ctx.prefix.len() && matches!(o, Outcome::Ok(_)) {
        let m = format!("replay used {} of {} choices", ctx.trace.len(), ctx.prefix.len());
        return (ctx, Outcome::Internal(m));
    }
    (ctx, o)
}

const SHARDS: usize = 64;
struct Set {
    shards: Vec<Mutex<HashSet<u64, std::hash::BuildHasherDefault<Ident>>>>,
}
#[derive(Default)]
pub struct Ident(u64);
impl std::hash::Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
impl Set {
    fn new() -> Self {
        Set { shards: (0..SHARDS).map(|_| Mutex::new(HashSet::default())).collect() }
    }
    fn insert(&self, h: u64) {
        let h = h.wrapping_mul(0x9E3779B97F4A7C15);
        let h = h ^ (h >> 29);
        self.shards[(h >> 58) as usize & (SHARDS - 1)].lock().unwrap().insert(h);
    }
    fn len(&self) -> u64 {
        self.shards.iter().map(|s| s.lock().unwrap().len() as u64).sum()
    }
}

struct Pool {
    q: Mutex<Vec<Item>>,
    cv: Condvar,
    idle: AtomicUsize,
    queued: AtomicUsize,
    done: AtomicBool,
}

pub struct Journal {
    pub dir: Option<std::path::PathBuf>,
}

pub fn devs_of(trace: &[Pt]) -> u32 {
    trace.iter().filter(|p| p.cost && p.choice != 0).count() as u32
}

#[cfg(unix)]
pub fn explore(d: &Driver, didx: usize, journal: &Journal, deadline: Instant) -> Stats {
    let start = Instant::now();
    let nthreads = if d.threads > 0 {
        d.threads
    } else {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
    };
    let pool = Pool {
        q: Mutex::new(vec![]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        queued: AtomicUsize::new(0),
        done: AtomicBool::new(false),
    };
    let states = Set::new();
    let outcomes = Set::new();
    let best: Mutex<Option<Violation>> = Mutex::new(None);
    let best_devs = AtomicU64::new(u64::MAX);
    let internal: Mutex<Option<String>> = Mutex::new(None);
    let capped = AtomicBool::new(false);
    let agg: Mutex<Stats> = Mutex::new(Stats::default());
    pool.q.lock().unwrap().push(Item { base: Arc::new(vec![]), next: u32::MAX, end: 0, devs: 0 });
    pool.queued.store(1, SeqCst);

    std::thread::scope(|sc| {
        for w in 0..nthreads {
            let (pool, states, outcomes, best, best_devs, internal, capped, agg) =
                (&pool, &states, &outcomes, &best, &best_devs, &internal, &capped, &agg);
            let jf = journal.dir.as_ref().map(|p| {
                std::fs::OpenOptions::new()
                    .create(true)
                    .truncate(false)
                    .write(true)
                    .open(p.join(format!("w{w}")))
                    .expect("journal")
            });
            std::thread::Builder::new()
                .stack_size(d.stack)
                .spawn_scoped(sc, move || {
                    let mut local: Vec<Item> = vec![];
                    let mut st = Stats::default();
                    let mut jbuf: Vec<u8> = vec![];
                    let mut n = 0u64;
                    loop {
                        if pool.done.load(Relaxed) {
                            break;
                        }
                        let item = match local.pop() {
                            Some(i) => i,
                            None => {
                                if let Some(jf) = &jf {
                                    let _ = jf.write_at(&u64::MAX.to_le_bytes(), 0);
                                }
                                let mut q = pool.q.lock().unwrap();
                                let idle = pool.idle.fetch_add(1, SeqCst) + 1;
                                let got = loop {
                                    if pool.done.load(SeqCst) {
                                        break None;
                                    }
                                    if let Some(i) = q.pop() {
                                        pool.queued.store(q.len(), SeqCst);
                                        break Some(i);
                                    }
                                    if idle == nthreads || pool.idle.load(SeqCst) == nthreads {
                                        pool.done.store(true, SeqCst);
                                        pool.cv.notify_all();
                                        break None;
                                    }
                                    q = pool.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                                };
                                pool.idle.fetch_sub(1, SeqCst);
                                match got {
                                    Some(i) => i,
                                    None => break,
                                }
                            }
                        };
                        if item.devs as u64 >= best_devs.load(Relaxed) {
                            // A violation with no more deviations is already known.
                            continue;
                        }
                        // Expand one execution out of the item.
                        let prefix = if item.next == u32::MAX {
                            vec![]
                        } else {
                            let mut p = Vec::with_capacity(item.base.len() + 1);
                            p.extend_from_slice(&item.base);
                            p.push(item.next);
                            if item.next + 1 < item.end {
                                local.push(Item { next: item.next + 1, ..item.clone() });
                            }
                            p
                        };
                        if let Some(jf) = &jf {
                            jbuf.clear();
                            n += 1;
                            jbuf.extend_from_slice(&n.to_le_bytes());
                            jbuf.extend_from_slice(&(didx as u32).to_le_bytes());
                            jbuf.extend_from_slice(&(prefix.len() as u32).to_le_bytes());
                            for c in &prefix {
                                jbuf.extend_from_slice(&c.to_le_bytes());
                            }
                            let _ = jf.write_at(&jbuf, 0);
                        }
                        let plen = prefix.len();
                        let (ctx, o) = run_one(d, prefix, false);
                        let devs = devs_of(&ctx.trace);
                        st.executions += 1;
                        st.transitions += (ctx.trace.len() - plen.saturating_sub(1).min(ctx.trace.len())) as u64;
                        st.max_points = st.max_points.max(ctx.trace.len() as u64);
                        if st.by_devs.len() <= devs as usize {
                            st.by_devs.resize(devs as usize + 1, 0);
                        }
                        st.by_devs[devs as usize] += 1;
                        st.states += ctx.extra_states;
                        for (k, v) in &ctx.counters {
                            *st.counters.entry(k).or_insert(0) += v;
                        }
                        states.insert(ctx.state);
                        for s in &ctx.states {
                            states.insert(*s);
                        }
                        match o {
                            Outcome::Ok(h) => {
                                outcomes.insert(h);
                                if st.samples.len() < 2 && (devs > 0 || d.bound == 0) {
                                    st.samples.push(describe(&ctx, devs));
                                }
                            }
                            Outcome::Internal(m) => {
                                *internal.lock().unwrap() = Some(format!(
                                    "{}: {} choices={:?}",
                                    d.name,
                                    m,
                                    ctx.trace.iter().map(|p| p.choice).collect::<Vec<_>>()
                                ));
                                pool.done.store(true, SeqCst);
                            }
                            Outcome::Bad(m) => {
                                let choices: Vec<u32> = ctx.trace.iter().map(|p| p.choice).collect();
                                // Replay twice before trusting it.
                                let (c2, o2) = run_one(d, choices.clone(), true);
                                let (_, o3) = run_one(d, choices.clone(), true);
                                let same = matches!((&o2, &o3), (Outcome::Bad(a), Outcome::Bad(b)) if *a == m && *b == m);
                                let v = Violation {
                                    driver: d.name.into(),
                                    choices,
                                    labels: ctx
                                        .trace
                                        .iter()
                                        .map(|p| (p.label.to_string(), p.choice, p.n))
                                        .collect(),
                                    msg: m,
                                    input: c2.input,
                                    note: c2.note,
                                    devs,
                                    deterministic: same,
                                };
                                let mut b = best.lock().unwrap();
                                if b.as_ref().map_or(true, |o| {
                                    (v.devs, v.choices.len(), &v.choices) < (o.devs, o.choices.len(), &o.choices)
                                }) {
                                    best_devs.fetch_min(devs as u64, SeqCst);
                                    *b = Some(v);
                                }
                                if devs == 0 {
                                    pool.done.store(true, SeqCst);
                                }
                                continue;
                            }
                        }
                        // Children: for every point after the prefix, every other alternative.
                        let choices: Vec<u32> = ctx.trace.iter().map(|p| p.choice).collect();
                        let mut dv = devs_of(&ctx.trace[..plen]);
                        for i in plen..ctx.trace.len() {
                            let p = ctx.trace[i];
                            let cost = dv + p.cost as u32;
                            if p.n > 1 && cost <= d.bound {
                                local.push(Item {
                                    base: Arc::new(choices[..i].to_vec()),
                                    next: 1,
                                    end: p.n,
                                    devs: cost,
                                });
                            }
                            if p.cost && p.choice != 0 {
                                dv += 1;
                            }
                        }
                        // Share work with idle threads.
                        if pool.idle.load(Relaxed) > 0 && pool.queued.load(Relaxed) < nthreads && !local.is_empty() {
                            let mut q = pool.q.lock().unwrap();
                            if local.len() == 1 {
                                let it = &mut local[0];
                                if it.next != u32::MAX && it.end - it.next >= 2 {
                                    let mid = it.next + (it.end - it.next) / 2;
                                    q.push(Item { next: mid, ..it.clone() });
                                    it.end = mid;
                                }
                            } else {
                                let k = local.len() / 2;
                                q.extend(local.drain(..k));
                            }
                            pool.queued.store(q.len(), SeqCst);
                            drop(q);
                            pool.cv.notify_all();
                        }
                        if st.executions % 64 == 0 && Instant::now() > deadline {
                            capped.store(true, SeqCst);
                            pool.done.store(true, SeqCst);
                        }
                    }
                    if let Some(jf) = &jf {
                        let _ = jf.write_at(&u64::MAX.to_le_bytes(), 0);
                    }
                    let mut a = agg.lock().unwrap();
                    a.executions += st.executions;
                    a.transitions += st.transitions;
                    a.states += st.states;
                    a.max_points = a.max_points.max(st.max_points);
                    for (i, v) in st.by_devs.iter().enumerate() {
                        if a.by_devs.len() <= i {
                            a.by_devs.resize(i + 1, 0);
                        }
                        a.by_devs[i] += v;
                    }
                    for (k, v) in st.counters {
                        *a.counters.entry(k).or_insert(0) += v;
                    }
                    a.samples.extend(st.samples);
                })
                .expect("spawn");
        }
    });
    let mut s = agg.into_inner().unwrap();
    s.states += states.len();
    s.outcomes = outcomes.len();
    s.capped = capped.load(SeqCst);
    s.violation = best.into_inner().unwrap();
    s.internal = internal.into_inner().unwrap();
    s.samples.sort_by_key(|x| x.len());
    s.samples.truncate(3);
    s.wall = start.elapsed().as_secs_f64();
    s
}

pub fn describe(ctx: &Ctx, devs: u32) -> String {
    let mut s = format!("deviations={devs}");
    for p in ctx.trace.iter().filter(|p| p.choice != 0).take(12) {
        s += &format!(" {}={}/{}", p.label, p.choice, p.n);
    }
    if !ctx.note.is_empty() {
        s += " ";
        s += &ctx.note;
    }
    s.truncate(400);
    s
}

/// FNV-like 64-bit hash used for state and outcome identity.
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ (b.len() as u64);
    let mut c = b.chunks_exact(8);
    for w in &mut c {
        h = (h ^ u64::from_le_bytes(w.try_into().unwrap())).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 32;
    }
    for &x in c.remainder() {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 31)
}
