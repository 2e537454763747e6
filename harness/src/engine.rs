//! Runs a property: proptest drives a choice tape (and shrinks it), 8 shards with their own seeds.

use crate::{alloc, cov, dict::Dict, tape::Tape};
use proptest::{
    prelude::RngCore,
    collection::vec,
    prelude::*,
    test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    io::{Seek, SeekFrom, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering},
    time::{Duration, Instant},
};

pub type Res = Result<(), String>;

pub struct Cx<'a> {
    pub d: &'a Dict,
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
    pub hash: u64,
    pub input: Vec<u8>,
    pub extra: String,
}

impl<'a> Cx<'a> {
    pub fn new(d: &'a Dict) -> Self {
        Cx { d, classes: vec![], nontrivial: false, hash: 0, input: vec![], extra: String::new() }
    }
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.class(c)
        }
    }
    /// The concrete case: its bytes, and whether it is non-trivial.
    pub fn case(&mut self, input: &[u8], nontrivial: bool) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        input.hash(&mut h);
        self.hash ^= h.finish();
        self.nontrivial |= nontrivial;
        self.input = input.to_vec();
    }
    pub fn note(&mut self, s: String) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        self.hash = self.hash.wrapping_mul(31) ^ h.finish();
        self.extra = s;
    }
}

pub struct Probe {
    /// key in known_findings.txt
    pub key: &'static str,
    /// true: the defect shows
    pub shows: fn() -> bool,
}

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub rule: &'static str,
    pub run: fn(&mut Tape, &mut Cx) -> Res,
    /// cases per shard
    pub quick: u32,
    pub thorough: u32,
    /// fixed cases tried before the random ones; the argument is the index, None when exhausted
    pub fixed: Option<fn(usize, &mut Cx) -> Option<Res>>,
    pub probes: &'static [Probe],
}

pub const SHARDS: u64 = 8;

/// A case takes milliseconds; one that uses this much processor time is taken for endless, once the
/// supervisor has seen it use as much again, alone. (The time of the clock on the wall says nothing
/// on a busy machine; `HANG_WALL` times as much of it is only for a case that waits for ever.)
pub const HANG_SECS: u64 = 40;
pub const HANG_WALL: u64 = 6;
/// Exit code of a worker that gave up on a case.
pub const HANG_CODE: i32 = 97;

/// When the case of each shard started (ms + 1; 0: none); the last slot is for fixed cases.
static STARTED: [AtomicU64; SHARDS as usize + 1] = [const { AtomicU64::new(0) }; SHARDS as usize + 1];
/// The processor clock of the shard's thread, and what it showed then.
static CLOCK: [AtomicI32; SHARDS as usize + 1] = [const { AtomicI32::new(0) }; SHARDS as usize + 1];
static CPU: [AtomicU64; SHARDS as usize + 1] = [const { AtomicU64::new(0) }; SHARDS as usize + 1];
static FIXED: AtomicUsize = AtomicUsize::new(0);

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64
}

#[repr(C)]
struct Ts {
    s: i64,
    n: i64,
}

extern "C" {
    fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, id: *mut i32) -> i32;
}

/// Milliseconds of a processor clock; 0 when its thread is gone.
fn cpu_ms(clock: i32) -> u64 {
    let mut t = Ts { s: 0, n: 0 };
    match unsafe { clock_gettime(clock, &mut t) } {
        0 => t.s as u64 * 1000 + t.n as u64 / 1_000_000,
        _ => 0,
    }
}

fn timed<T>(slot: usize, f: impl FnOnce() -> T) -> (T, u64) {
    let t = now_ms();
    let mut clock = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut clock) };
    CLOCK[slot].store(clock, Ordering::Relaxed);
    CPU[slot].store(cpu_ms(clock), Ordering::Relaxed);
    STARTED[slot].store(t + 1, Ordering::Release);
    let r = f();
    STARTED[slot].store(0, Ordering::Release);
    (r, now_ms() - t)
}

/// Ends the process when a case does not end, after writing which one.
pub fn watch(marker: std::path::PathBuf) {
    now_ms();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        for (k, s) in STARTED.iter().enumerate() {
            let t = s.load(Ordering::Acquire);
            if t == 0 {
                continue;
            }
            let wall = (now_ms() + 1).saturating_sub(t);
            if wall < HANG_SECS * 1000 {
                continue;
            }
            let cpu = cpu_ms(CLOCK[k].load(Ordering::Relaxed)).saturating_sub(CPU[k].load(Ordering::Relaxed));
            // the case may have changed while its clock was read
            if s.load(Ordering::Acquire) == t && (cpu > HANG_SECS * 1000 || wall > HANG_WALL * HANG_SECS * 1000) {
                let what = if k as u64 == SHARDS { format!("fixed {}", FIXED.load(Ordering::Relaxed)) } else { format!("shard {k}") };
                let _ = std::fs::write(&marker, what);
                std::process::exit(HANG_CODE);
            }
        }
    });
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {m}"));
    }));
}

/// Panics become failures.
pub fn guarded(f: impl FnOnce() -> Res) -> Res {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn run_tape(p: &Prop, d: &Dict, data: &[u32]) -> (Res, CaseInfo) {
    let mut cx = Cx::new(d);
    let (r, _, bytes) = alloc::measured(u64::MAX, CASE_BYTES, || guarded(|| (p.run)(&mut Tape::new(data), &mut cx)));
    (r, CaseInfo { bytes, classes: cx.classes, nontrivial: cx.nontrivial, hash: cx.hash, input: cx.input, extra: cx.extra })
}

/// No case comes near to asking for this many bytes (a loop that allocates for ever does).
const CASE_BYTES: u64 = 2 << 30;

pub struct CaseInfo {
    pub bytes: u64,
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
    pub hash: u64,
    pub input: Vec<u8>,
    pub extra: String,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub max_input: usize,
    pub max_bytes: u64,
    pub max_ms: u64,
    /// cases of the guided search, tapes it kept, and features (edge counts, comparisons) seen
    pub guided: u64,
    pub corpus: u64,
    pub features: u64,
}

impl Stats {
    fn add(&mut self, c: &CaseInfo) {
        self.evaluations += 1;
        self.max_input = self.max_input.max(c.input.len());
        self.max_bytes = self.max_bytes.max(c.bytes);
        if c.nontrivial {
            self.nontrivial += 1;
            self.distinct.insert(c.hash);
        }
        for k in &c.classes {
            *self.classes.entry(k).or_default() += 1;
        }
        if self.samples.len() < 3 && c.nontrivial && c.input.len() > 40 && c.input.len() < 900 && self.evaluations % 7 == 3 {
            let mut s = String::from_utf8_lossy(&c.input).to_string();
            if !c.extra.is_empty() {
                s = format!("{s}\n-- {}", c.extra.chars().take(300).collect::<String>());
            }
            self.samples.push(s);
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        self.max_input = self.max_input.max(o.max_input);
        self.max_bytes = self.max_bytes.max(o.max_bytes);
        self.max_ms = self.max_ms.max(o.max_ms);
        self.guided += o.guided;
        self.corpus += o.corpus;
        self.features = self.features.max(o.features);
    }
}

#[derive(Debug, Clone)]
pub struct Failure {
    pub message: String,
    pub tape: Vec<u32>,
    pub fixed: Option<usize>,
    pub input: Vec<u8>,
    pub extra: String,
}

fn seed_for(seed: u64, id: &str, shard: u64) -> [u8; 32] {
    // FNV-style mixing into 4 words, spelled out so that it never changes
    let mut out = [0u8; 32];
    for w in 0..4u64 {
        let mut h: u64 = 0xcbf29ce484222325 ^ (w.wrapping_mul(0x9e3779b97f4a7c15));
        let mut eat = |b: u8| {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        };
        seed.to_le_bytes().iter().for_each(|b| eat(*b));
        id.bytes().for_each(&mut eat);
        shard.to_le_bytes().iter().for_each(|b| eat(*b));
        out[(w * 8) as usize..(w * 8 + 8) as usize].copy_from_slice(&h.to_le_bytes());
    }
    out
}

struct Current(Option<std::fs::File>);
impl Current {
    fn put(&mut self, tape: &[u32]) {
        if let Some(f) = self.0.as_mut() {
            let mut b = Vec::with_capacity(tape.len() * 4 + 4);
            b.extend((tape.len() as u32).to_le_bytes());
            tape.iter().for_each(|v| b.extend(v.to_le_bytes()));
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(&b);
        }
    }
}

pub fn read_current(path: &std::path::Path) -> Option<Vec<u32>> {
    let b = std::fs::read(path).ok()?;
    let w: Vec<u32> = b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    let n = *w.first()? as usize;
    w.get(1..1 + n).map(|s| s.to_vec())
}

/// Tapes that reached something new, for the guided search.
struct Corpus {
    rec: cov::Recorder,
    /// how often each feature was seen (saturating)
    seen: Vec<u8>,
    features: u64,
    tapes: Vec<Vec<u32>>,
}

impl Corpus {
    fn new() -> Self {
        Corpus { rec: cov::Recorder::new(), seen: vec![0; cov::Recorder::features()], features: 0, tapes: vec![] }
    }

    fn run(&mut self, p: &Prop, d: &Dict, tape: &[u32]) -> (Res, CaseInfo) {
        let (r, fs) = self.rec.record(|| run_tape(p, d, tape));
        let mut new = false;
        for f in fs {
            let s = &mut self.seen[f as usize];
            if *s == 0 {
                new = true;
                self.features += 1;
            }
            *s = s.saturating_add(1);
        }
        if new && r.0.is_ok() && r.1.input.len() < 20_000 {
            self.tapes.push(tape.to_vec());
        }
        r
    }

    /// A changed copy of a kept tape.
    fn child(&self, rng: &mut TestRng) -> Vec<u32> {
        let below = |rng: &mut TestRng, n: usize| rng.next_u32() as usize % n.max(1);
        let n = self.tapes.len();
        if n == 0 {
            return (0..200).map(|_| rng.next_u32()).collect();
        }
        // the later ones reached the rarer things
        let i = if below(rng, 2) == 0 { n - 1 - below(rng, n.div_ceil(4)) } else { below(rng, n) };
        let mut t = self.tapes[i].clone();
        for _ in 0..1 + below(rng, 6) {
            let len = t.len();
            let at = below(rng, len + 1);
            match below(rng, 10) {
                0..=3 if len > 0 => t[at.min(len - 1)] = rng.next_u32(),
                4 if len > 0 => {
                    // a neighbouring choice
                    let k = 1 + below(rng, 40) as u32;
                    let step = u32::MAX / (2 + below(rng, 60) as u32);
                    let w = &mut t[at.min(len - 1)];
                    *w = if k % 2 == 0 { w.wrapping_add(step) } else { w.wrapping_sub(step) };
                }
                5 if len > 0 => t[at.min(len - 1)] = if below(rng, 2) == 0 { 0 } else { u32::MAX },
                6 => {
                    let k = 1 + below(rng, 8);
                    let new: Vec<u32> = (0..k).map(|_| rng.next_u32()).collect();
                    t.splice(at..at, new);
                }
                7 if len > 0 => {
                    let e = (at + 1 + below(rng, 12)).min(len);
                    t.drain(at.min(e)..e);
                }
                8 => {
                    // a stretch of its own again
                    let e = (at + 1 + below(rng, 60)).min(len);
                    let part = t[at.min(e)..e].to_vec();
                    let to = below(rng, len + 1);
                    t.splice(to..to, part);
                }
                _ => {
                    // a stretch of another one, in place or put in
                    let o = &self.tapes[below(rng, n)];
                    let a = below(rng, o.len() + 1);
                    let b = (a + 1 + below(rng, 120)).min(o.len());
                    let part = &o[a.min(b)..b];
                    let end = if below(rng, 2) == 0 { at } else { (at + part.len()).min(len) };
                    t.splice(at..end, part.iter().copied());
                }
            }
        }
        t.truncate(4000);
        t
    }
}

/// The smallest tape that still fails: shorter and with smaller words.
fn shrink(mut t: Vec<u32>, stop: Duration, mut fails: impl FnMut(&[u32]) -> bool) -> Vec<u32> {
    let t0 = Instant::now();
    loop {
        let before = t.clone();
        let mut step = t.len() / 2;
        while step > 0 {
            let mut i = t.len();
            while i >= step && t0.elapsed() < stop {
                let mut c = t.clone();
                c.drain(i - step..i);
                if fails(&c) {
                    t = c;
                }
                i -= step;
            }
            step /= 2;
        }
        for i in 0..t.len() {
            // the smallest word that will do
            let (mut lo, mut hi) = (0u32, t[i]);
            let mut tries = 0;
            while lo < hi && tries < 12 && t0.elapsed() < stop {
                let mid = if tries == 0 { 0 } else { lo + (hi - lo) / 2 };
                let mut c = t.clone();
                c[i] = mid;
                if fails(&c) {
                    t = c;
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
                tries += 1;
            }
        }
        if t == before || t0.elapsed() >= stop {
            return t;
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn shard(p: &Prop, d: &Dict, cases: u32, guided: u32, seed: u64, k: u64, cur: Option<std::path::PathBuf>, stop: &AtomicBool) -> (Stats, Option<Failure>) {
    let stats = RefCell::new(Stats::default());
    let current = RefCell::new(Current(cur.and_then(|c| std::fs::File::create(c).ok())));
    let corpus = RefCell::new(Corpus::new());
    let config = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 6000,
        max_shrink_time: 12_000,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed_for(seed, p.id, k)));
    let strat = prop_oneof![
        2 => vec(any::<u32>(), 0..60),
        8 => vec(any::<u32>(), 60..500),
        5 => vec(any::<u32>(), 300..2500),
    ];
    let failed = RefCell::new(false);
    let one = |tape: &[u32]| -> Res {
        current.borrow_mut().put(tape);
        let mut c = corpus.borrow_mut();
        let ((r, info), ms) = timed(k as usize, || c.run(p, d, tape));
        if !*failed.borrow() {
            let mut st = stats.borrow_mut();
            st.add(&info);
            st.max_ms = st.max_ms.max(ms);
        }
        if r.is_err() {
            *failed.borrow_mut() = true;
        }
        r
    };
    let r = runner.run(&strat, |tape| {
        // another shard has its failure, shrunk
        if stop.load(Ordering::Relaxed) {
            return Ok(());
        }
        one(&tape).map_err(TestCaseError::fail)
    });
    let mut bad = match r {
        Ok(()) => None,
        Err(TestError::Fail(_, tape)) => Some(tape),
        Err(TestError::Abort(m)) => panic!("proptest gave up: {m}"),
    };
    if bad.is_none() {
        // from what was reached so far, further
        let mut rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_for(seed, p.id, k + 1000));
        for _ in 0..guided {
            if stop.load(Ordering::Relaxed) {
                break;
            }
            let t = corpus.borrow().child(&mut rng);
            stats.borrow_mut().guided += 1;
            if one(&t).is_err() {
                bad = Some(shrink(t, Duration::from_secs(12), |c| one(c).is_err()));
                break;
            }
        }
    }
    let f = bad.map(|tape| {
        stop.store(true, Ordering::Relaxed);
        let ((r, info), _) = timed(k as usize, || run_tape(p, d, &tape));
        Failure {
            message: r.err().unwrap_or_else(|| "did not fail again".into()),
            tape,
            fixed: None,
            input: info.input,
            extra: info.extra,
        }
    });
    let mut st = stats.into_inner();
    let c = corpus.into_inner();
    st.corpus = c.tapes.len() as u64;
    st.features = c.features;
    (st, f)
}

pub fn run(p: &Prop, d: &Dict, cases: u32, guided: u32, seed: u64, cur: impl Fn(u64) -> Option<std::path::PathBuf> + Sync) -> (Stats, Option<Failure>) {
    let mut stats = Stats::default();
    if let Some(fixed) = p.fixed {
        let mut i = 0;
        loop {
            let mut cx = Cx::new(d);
            let mut done = false;
            FIXED.store(i, Ordering::Relaxed);
            let (r, ms) = timed(SHARDS as usize, || {
                guarded(|| match fixed(i, &mut cx) {
                    None => {
                        done = true;
                        Ok(())
                    }
                    Some(r) => r,
                })
            });
            stats.max_ms = stats.max_ms.max(ms);
            if done {
                break;
            }
            let info = CaseInfo { bytes: 0, classes: cx.classes, nontrivial: cx.nontrivial, hash: cx.hash, input: cx.input, extra: cx.extra };
            stats.add(&info);
            if let Err(m) = r {
                return (stats, Some(Failure { message: m, tape: vec![], fixed: Some(i), input: info.input, extra: info.extra }));
            }
            i += 1;
        }
    }
    let stop = AtomicBool::new(false);
    let mut fail: Option<Failure> = None;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..SHARDS)
            .map(|k| {
                let c = cur(k);
                let stop = &stop;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || shard(p, d, cases, guided, seed, k, c, stop))
                    .unwrap()
            })
            .collect();
        for h in hs {
            let (st, f) = h.join().expect("shard panicked");
            stats.merge(st);
            // the smallest reproduction
            if let Some(f) = f {
                if fail.as_ref().map_or(true, |g| f.tape.len() < g.tape.len()) {
                    fail = Some(f);
                }
            }
        }
    });
    (stats, fail)
}
