//! The explorer: complete depth-first enumeration of choice sequences.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------- outcomes ----

#[derive(Debug)]
pub enum Stop {
    /// The choice sequence does not denote a case (outside the stated domain).
    Prune,
    Fail(String),
}

pub type Out = Result<(), Stop>;

pub fn fail<T>(m: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Fail(m.into()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !($c) {
            return Err($crate::explore::Stop::Fail(format!($($t)*)));
        }
    };
}

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Panics are expected inside `call` only; they are kept, not printed.
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_LIB.with(|f| f.get()) {
            PANIC.with(|p| *p.borrow_mut() = info.to_string().replace('\n', " "));
        } else if !QUIET.with(|f| f.get()) {
            old(info);
        }
    }));
}

/// Runs library code; a panic inside it becomes a failure of the case.
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, Stop> {
    IN_LIB.with(|x| x.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|x| x.set(false));
    r.map_err(|_| Stop::Fail(PANIC.with(|p| p.borrow().clone())))
}

// -------------------------------------------------------------- choices ----

pub struct Ch<'a> {
    prefix: &'a [u32],
    pub trail: Vec<(u32, u32, bool)>,
    salt: u32,
    /// Which alternative is the default.
    pub bias: usize,
}

impl<'a> Ch<'a> {
    pub fn new(prefix: &'a [u32]) -> Ch<'a> {
        Ch {
            prefix,
            trail: Vec::with_capacity(32),
            salt: 0,
            bias: 0,
        }
    }
    fn pick(&mut self, n: usize, free: bool) -> usize {
        debug_assert!(n > 0);
        let at = self.trail.len();
        let v = self.prefix.get(at).copied().unwrap_or(0);
        assert!((v as usize) < n, "choice {v} of {n} at {at}: stale replay");
        self.trail.push((v, n as u32, free));
        v as usize
    }
    /// Alternative 0 is the default unless there is a bias; any other costs
    /// one deviation.
    pub fn choose(&mut self, n: usize) -> usize {
        (self.pick(n, false) + self.bias) % n
    }
    /// Every alternative is explored at no cost.
    pub fn free(&mut self, n: usize) -> usize {
        self.pick(n, true)
    }
    /// A value no other call in this case returned.
    pub fn fresh(&mut self) -> u32 {
        self.salt += 1;
        self.salt
    }
}

#[derive(Default)]
pub struct Obs {
    pub hashes: Vec<u64>,
    pub distinct: u64,
    pub calls: u64,
    pub validated: u64,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub show: Option<String>,
    pub want_show: bool,
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

/// Small fast hasher with fixed keys.
pub struct Fx(pub u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^= x >> 32;
        x
    }
    fn write(&mut self, b: &[u8]) {
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            self.write_u64(u64::from_le_bytes(c.try_into().unwrap()));
        }
        let r = it.remainder();
        let mut last = [0u8; 8];
        last[..r.len()].copy_from_slice(r);
        self.write_u64(u64::from_le_bytes(last) ^ ((r.len() as u64 + 1) << 56));
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 29;
    }
}

impl Obs {
    /// Registers the input or state this case is about.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.hashes.push(hash_of(t));
    }
    /// Registers inputs that are distinct by construction of a sweep.
    pub fn swept(&mut self, n: u64) {
        self.distinct += n;
    }
    pub fn calls(&mut self, n: u64) {
        self.calls += n;
    }
    /// An implementation result was compared with the reference model.
    pub fn validated(&mut self, n: u64) {
        self.validated += n;
    }
    pub fn outcome(&mut self, k: &'static str) {
        *self.outcomes.entry(k).or_default() += 1;
    }
    pub fn outcomes(&mut self, k: &'static str, n: u64) {
        *self.outcomes.entry(k).or_default() += n;
    }
    pub fn show(&mut self, f: impl FnOnce() -> String) {
        if self.want_show {
            self.show = Some(f());
        }
    }
}

type Case = dyn Fn(&mut Ch, &mut Obs) -> Out + Sync + Send;

pub struct Phase {
    pub name: String,
    pub k: u32,
    pub run: Box<Case>,
}

pub fn phase(
    name: impl Into<String>,
    k: u32,
    run: impl Fn(&mut Ch, &mut Obs) -> Out + Sync + Send + 'static,
) -> Phase {
    Phase {
        name: name.into(),
        k,
        run: Box::new(run),
    }
}

// ------------------------------------------------------------ one case ----

pub struct Ran {
    pub trail: Vec<(u32, u32, bool)>,
    pub out: Out,
}

pub fn run_case(p: &Phase, prefix: &[u32], obs: &mut Obs) -> Ran {
    let mut ch = Ch::new(prefix);
    let out = (p.run)(&mut ch, obs);
    Ran {
        trail: ch.trail,
        out,
    }
}

fn picks(t: &[(u32, u32, bool)]) -> Vec<u32> {
    let mut v: Vec<u32> = t.iter().map(|x| x.0).collect();
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

/// Same failure with as few deviations as possible.
/// A known case is not a substitute for a new one.
fn minimise(
    p: &Phase,
    start: Vec<u32>,
    msg: String,
    is_known: &dyn Fn(&Vec<u32>) -> bool,
) -> (Vec<u32>, String) {
    let deadline = Instant::now() + Duration::from_secs(10);
    let mut best = start;
    let mut best_msg = msg;
    let fails = |v: &[u32]| -> Option<(Vec<u32>, String)> {
        let mut obs = Obs::default();
        // A shortened vector may not fit the choice points it meets.
        QUIET.with(|x| x.set(true));
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut ch = Ch::new(v);
            let out = (p.run)(&mut ch, &mut obs);
            (picks(&ch.trail), out)
        }));
        QUIET.with(|x| x.set(false));
        match r {
            Ok((t, Err(Stop::Fail(m)))) => Some((t, m)),
            _ => None,
        }
    };
    let mut changed = true;
    while changed && Instant::now() < deadline {
        changed = false;
        for i in (0..best.len()).rev() {
            if Instant::now() > deadline {
                break;
            }
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            let mut cands = vec![best[..i].to_vec()];
            let mut z = best.clone();
            z[i] = 0;
            cands.push(z);
            for v in 1..best[i].min(4) {
                let mut z = best.clone();
                z[i] = v;
                cands.push(z);
            }
            for c in cands {
                if let Some((t, m)) = fails(&c) {
                    if !is_known(&t) && (t < best || t.len() < best.len()) {
                        best = t;
                        best_msg = m;
                        changed = true;
                        break;
                    }
                }
            }
        }
    }
    (best, best_msg)
}

// ------------------------------------------------------------- explorer ----

#[derive(Clone, Debug)]
pub struct Violation {
    pub phase: String,
    pub choices: Vec<u32>,
    pub what: String,
}

#[derive(Default)]
pub struct PhaseStats {
    pub name: String,
    pub k: u32,
    pub cases: u64,
    pub pruned: u64,
    pub states: u64,
    pub transitions: u64,
    pub calls: u64,
    pub validated: u64,
    pub deepest: u64,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub samples: Vec<(Vec<u32>, String)>,
    pub complete: bool,
    pub wall: f64,
    /// Longest case in seconds.
    pub slowest: f64,
    pub violations: Vec<Violation>,
}

const SHARDS: usize = 256;

pub struct Slots {
    /// Start of the running case in ms since `t0`, 0 when idle.
    pub started: Vec<AtomicU64>,
    pub t0: Instant,
    pub files: Vec<Option<std::fs::File>>,
}

impl Slots {
    pub fn new(n: usize, dir: Option<&std::path::Path>) -> Slots {
        Slots {
            started: (0..n).map(|_| AtomicU64::new(0)).collect(),
            t0: Instant::now(),
            files: (0..n)
                .map(|i| {
                    dir.map(|d| {
                        std::fs::OpenOptions::new()
                            .create(true)
                            .truncate(true)
                            .write(true)
                            .open(d.join(format!("cur-{i}")))
                            .expect("scratch file")
                    })
                })
                .collect(),
        }
    }
    fn note(&self, i: usize, phase: u32, prefix: &[u32]) {
        if let Some(f) = &self.files[i] {
            let mut b = Vec::with_capacity(8 + 4 * prefix.len());
            b.extend_from_slice(&phase.to_le_bytes());
            b.extend_from_slice(&(prefix.len() as u32).to_le_bytes());
            for p in prefix {
                b.extend_from_slice(&p.to_le_bytes());
            }
            let _ = f.write_at(&b, 0);
        }
        self.started[i].store(self.t0.elapsed().as_millis() as u64 + 1, Relaxed);
    }
    fn idle(&self, i: usize) {
        self.started[i].store(0, Relaxed);
    }
}

pub fn read_slot(bytes: &[u8]) -> Option<(u32, Vec<u32>)> {
    let w = |i: usize| {
        bytes
            .get(4 * i..4 * i + 4)
            .map(|b| u32::from_le_bytes(b.try_into().unwrap()))
    };
    let phase = w(0)?;
    let n = w(1)? as usize;
    let mut v = Vec::new();
    for i in 0..n {
        v.push(w(2 + i)?);
    }
    Some((phase, v))
}

struct Shared {
    queue: Mutex<Vec<Vec<u32>>>,
    wake: Condvar,
    pending: AtomicUsize,
    idle: AtomicUsize,
    stop: AtomicBool,
    out_of_time: AtomicBool,
}

pub struct Known(pub Vec<(String, Vec<u32>)>);

/// Explores one phase completely, or until a new violation or the deadline.
pub fn explore(
    index: u32,
    p: &Phase,
    threads: usize,
    slots: &Slots,
    deadline: Instant,
    known: &Known,
) -> PhaseStats {
    let t0 = Instant::now();
    let sh = Shared {
        queue: Mutex::new(vec![Vec::new()]),
        wake: Condvar::new(),
        pending: AtomicUsize::new(1),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        out_of_time: AtomicBool::new(false),
    };
    let seen: Vec<Mutex<HashSet<u64, NoHash>>> = (0..SHARDS)
        .map(|_| Mutex::new(HashSet::default()))
        .collect();
    let total: Mutex<PhaseStats> = Mutex::new(PhaseStats {
        name: p.name.clone(),
        k: p.k,
        ..Default::default()
    });
    std::thread::scope(|s| {
        for t in 0..threads {
            let (sh, seen, total) = (&sh, &seen, &total);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    worker(
                        index, p, t, slots, deadline, known, sh, seen, total, threads,
                    )
                })
                .expect("thread");
        }
    });
    let mut st = total.into_inner().unwrap();
    st.states += seen
        .iter()
        .map(|s| s.lock().unwrap().len() as u64)
        .sum::<u64>();
    st.complete = !sh.out_of_time.load(Relaxed) && !sh.stop.load(Relaxed);
    st.wall = t0.elapsed().as_secs_f64();
    st
}

#[derive(Default, Clone)]
pub struct NoHash;
impl std::hash::BuildHasher for NoHash {
    type Hasher = Id;
    fn build_hasher(&self) -> Id {
        Id(0)
    }
}
pub struct Id(u64);
impl Hasher for Id {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}

#[allow(clippy::too_many_arguments)]
fn worker(
    index: u32,
    p: &Phase,
    me: usize,
    slots: &Slots,
    deadline: Instant,
    known: &Known,
    sh: &Shared,
    seen: &[Mutex<HashSet<u64, NoHash>>],
    total: &Mutex<PhaseStats>,
    threads: usize,
) {
    let mut local: Vec<Vec<u32>> = Vec::new();
    let mut st = PhaseStats::default();
    let mut sample_min = u64::MAX;
    let mut sample: Option<Vec<u32>> = None;
    let mut n = 0u64;
    'outer: loop {
        let prefix = match local.pop() {
            Some(x) => x,
            None => {
                let mut q = sh.queue.lock().unwrap();
                sh.idle.fetch_add(1, SeqCst);
                loop {
                    if sh.stop.load(Relaxed) || sh.pending.load(SeqCst) == 0 {
                        sh.idle.fetch_sub(1, SeqCst);
                        sh.wake.notify_all();
                        break 'outer;
                    }
                    if let Some(x) = q.pop() {
                        sh.idle.fetch_sub(1, SeqCst);
                        break x;
                    }
                    q = sh
                        .wake
                        .wait_timeout(q, Duration::from_millis(20))
                        .unwrap()
                        .0;
                }
            }
        };
        if sh.stop.load(Relaxed) {
            break;
        }
        n += 1;
        if n % 64 == 0 && Instant::now() > deadline {
            sh.out_of_time.store(true, SeqCst);
            sh.stop.store(true, SeqCst);
            break;
        }
        slots.note(me, index, &prefix);
        let mut obs = Obs::default();
        let began = Instant::now();
        let ran = run_case(p, &prefix, &mut obs);
        st.slowest = st.slowest.max(began.elapsed().as_secs_f64());
        slots.idle(me);
        if !matches!(ran.out, Err(Stop::Prune)) {
            st.cases += 1;
            st.transitions += (ran.trail.len() - prefix.len().saturating_sub(1)) as u64;
            st.deepest = st.deepest.max(ran.trail.len() as u64);
            st.calls += obs.calls;
            st.validated += obs.validated;
            st.states += obs.distinct;
            for (k, v) in &obs.outcomes {
                *st.outcomes.entry(k).or_default() += v;
            }
            for h in &obs.hashes {
                seen[(h >> 56) as usize % SHARDS].lock().unwrap().insert(*h);
                if *h < sample_min {
                    sample_min = *h;
                    sample = Some(picks(&ran.trail));
                }
            }
            if prefix.is_empty() && sample.is_none() {
                sample = Some(Vec::new());
            }
        } else {
            st.pruned += 1;
        }
        // Children.
        let cost: u32 = ran.trail[..prefix.len().min(ran.trail.len())]
            .iter()
            .filter(|(v, _, f)| *v != 0 && !*f)
            .count() as u32;
        let mut added = 0;
        for i in prefix.len()..ran.trail.len() {
            let (_, width, free) = ran.trail[i];
            if !free && cost >= p.k {
                continue;
            }
            for v in 1..width {
                let mut c: Vec<u32> = Vec::with_capacity(i + 1);
                c.extend(ran.trail[..i].iter().map(|x| x.0));
                c.push(v);
                local.push(c);
                added += 1;
            }
        }
        if added > 0 {
            sh.pending.fetch_add(added, SeqCst);
        }
        if let Err(Stop::Fail(what)) = ran.out {
            let v = picks(&ran.trail);
            let is_known = |v: &Vec<u32>| known.0.iter().any(|(n, k)| *n == p.name && k == v);
            let (choices, what) = if is_known(&v) {
                (v, what)
            } else {
                sh.stop.store(true, SeqCst);
                minimise(p, v, what, &is_known)
            };
            st.violations.push(Violation {
                phase: p.name.clone(),
                choices,
                what,
            });
        }
        if sh.pending.fetch_sub(1, SeqCst) == 1 {
            sh.wake.notify_all();
        }
        if local.len() > 1 && sh.idle.load(Relaxed) > 0 {
            let mut q = sh.queue.lock().unwrap();
            if q.len() < threads * 8 {
                let half = local.len() / 2;
                q.extend(local.drain(..half));
                sh.wake.notify_all();
            }
        }
    }
    if let Some(v) = sample {
        let mut obs = Obs {
            want_show: true,
            ..Default::default()
        };
        let _ = run_case(p, &v, &mut obs);
        st.samples.push((v, obs.show.unwrap_or_default()));
    }
    let mut t = total.lock().unwrap();
    t.cases += st.cases;
    t.pruned += st.pruned;
    t.states += st.states;
    t.transitions += st.transitions;
    t.calls += st.calls;
    t.validated += st.validated;
    t.deepest = t.deepest.max(st.deepest);
    t.slowest = t.slowest.max(st.slowest);
    for (k, v) in st.outcomes {
        *t.outcomes.entry(k).or_default() += v;
    }
    t.samples.extend(st.samples);
    t.violations.extend(st.violations);
}
