//! Property-based testing engine.
//!
//! A generated case is a *choice tape*: the sequence of (reduced) draws a generator made.  Every
//! random decision of a property goes through [`G`], so a tape replays a case exactly, and a
//! failing case is shrunk by deleting, zeroing and lowering draws and re-running the property.
use rand_chacha::ChaCha8Rng;
use rand_core::{RngCore, SeedableRng};
use sha3::{Digest, Keccak256};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Runs `f`, turning a panic (a wasm abort on chain) into an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| format!("abort: {}", p.borrow())))
}

enum Source {
    Rng(Box<ChaCha8Rng>),
    Tape { tape: Vec<u64>, pos: usize },
}

/// Source of all random decisions of a case.
pub struct G {
    src: Source,
    /// draws made so far, reduced to their range
    pub used: Vec<u64>,
    log: Option<Vec<String>>,
    pub labels: Vec<(&'static str, u64)>,
    pub nontrivial: bool,
}

impl G {
    fn new(src: Source, log: bool) -> Self {
        G { src, used: vec![], log: log.then(Vec::new), labels: vec![], nontrivial: false }
    }
    pub fn logging(&self) -> bool {
        self.log.is_some()
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = self.log.as_mut() {
            l.push(f());
        }
    }
    /// Counts an occurrence of a class of cases.
    pub fn label(&mut self, l: &'static str) {
        match self.labels.iter_mut().find(|(k, _)| *k == l) {
            Some((_, n)) => *n += 1,
            None => self.labels.push((l, 1)),
        }
    }
    /// Marks the case as non-trivial by the rule of its sub-check.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Uniform in `0..n`; 0 is the simplest value.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0, "harness: empty range");
        let raw = match &mut self.src {
            Source::Rng(r) => r.next_u64(),
            Source::Tape { tape, pos } => {
                let v = tape.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                assert!(*pos < tape.len() + (1 << 20), "tape exhausted");
                v
            }
        };
        let v = raw % n;
        self.used.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        let raw = match &mut self.src {
            Source::Rng(r) => r.next_u64(),
            Source::Tape { tape, pos } => {
                let v = tape.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                assert!(*pos < tape.len() + (1 << 20), "tape exhausted");
                v
            }
        };
        self.used.push(raw);
        raw
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// true with probability num/den; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // large draws are true so that shrinking a draw to 0 yields false
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// Index chosen with the given weights; index 0 is simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// A list whose elements can be deleted by the shrinker; expected length about `avg`.
    pub fn list<T>(&mut self, avg: u64, max: usize, mut f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let mut out = vec![];
        while out.len() < max && self.below(avg + 1) != 0 {
            out.push(f(self));
        }
        out
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n + 8);
        while out.len() < n {
            out.extend_from_slice(&self.u64().to_be_bytes());
        }
        out.truncate(n);
        out
    }
    /// Bytes that all come from one draw, for long strings.
    pub fn fill(&mut self, n: usize) -> Vec<u8> {
        let mut x = self.u64();
        let mut out = Vec::with_capacity(n + 8);
        while out.len() < n {
            x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            out.extend_from_slice(&(z ^ (z >> 31)).to_be_bytes());
        }
        out.truncate(n);
        out
    }
    /// Different indices below `n`, `k` of them, in random order.
    pub fn subset(&mut self, n: usize, k: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..k {
            let j = i + self.idx(n - i);
            v.swap(i, j);
        }
        v.truncate(k);
        v
    }
    pub fn bytes32(&mut self) -> [u8; 32] {
        self.bytes(32).try_into().unwrap()
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    /// Byte string with a length biased to small and boundary values.
    pub fn blob(&mut self, max: usize) -> Vec<u8> {
        let n = match self.below(6) {
            0 => 0,
            1 => self.idx(9).min(max),
            2 => *self.pick(&[31usize, 32, 33, 64, 65, 68, 76, 77, 78]),
            _ => self.idx(max + 1),
        }
        .min(max);
        self.bytes(n)
    }
    /// Domain identifiers, biased to look-alikes and boundaries.
    pub fn domain(&mut self) -> u32 {
        match self.below(4) {
            0 => *self.pick(&[0u32, 1, 2, 3, 10, 11, 26657]),
            1 => *self.pick(&[255u32, 256, 65535, 65536, 0x0100_0000, 0x0100_0001, u32::MAX, u32::MAX - 1, 0x7fff_ffff, 0x8000_0000]),
            _ => self.below(1 << 32) as u32,
        }
    }
    /// Amounts spread over magnitudes and boundaries.
    pub fn amount(&mut self, max: u128) -> u128 {
        let v = match self.below(5) {
            0 => self.below(4) as u128,
            1 => self.below(1000) as u128,
            2 => self.below(1_000_000_000_000) as u128,
            3 => {
                let bits = self.range(1, 127);
                let r = ((self.u64() as u128) << 64) | self.u64() as u128;
                r >> (128 - bits)
            }
            _ => max - (self.below(4) as u128).min(max),
        };
        if v > max {
            v % max.saturating_add(1).max(1)
        } else {
            v
        }
    }
    pub fn string(&mut self, max: usize) -> String {
        let n = self.idx(max + 1);
        (0..n)
            .map(|_| match self.below(8) {
                0 => *self.pick(&['é', '漢', '\u{0}', '\n', '"', '\\', '/', ' ']),
                1 => (b'0' + self.below(10) as u8) as char,
                _ => (b'a' + self.below(26) as u8) as char,
            })
            .collect()
    }
}

pub type PropFn = fn(&mut G) -> Result<(), String>;

/// One generated check of a property.
pub struct Sub {
    pub name: &'static str,
    /// number of cases (quick, thorough)
    pub cases: (usize, usize),
    /// which cases count as non-trivial
    pub rule: &'static str,
    pub run: PropFn,
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $($fmt:tt)+) => {
        if !$cond { return Err(format!($($fmt)+)); }
    };
}
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($fmt:tt)+) => {{
        match (&$a, &$b) {
            (a, b) => if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($fmt)+), a, b)); }
        }
    }};
}

#[derive(Default)]
struct Agg {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, (u64, u64)>,
    samples: Vec<(usize, Vec<String>)>,
}

pub struct Failure {
    pub sub: &'static str,
    pub index: usize,
    pub tape: Vec<u64>,
    pub message: String,
    pub log: Vec<String>,
    pub shrink_runs: usize,
}

pub struct SubReport {
    pub name: &'static str,
    pub rule: &'static str,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<&'static str, (u64, u64)>,
    pub samples: Vec<Vec<String>>,
    pub wall: f64,
}

fn case_seed(seed: u64, prop: &str, sub: &str, i: usize) -> [u8; 32] {
    let mut h = Keccak256::new();
    h.update(seed.to_be_bytes());
    h.update(prop.as_bytes());
    h.update([0]);
    h.update(sub.as_bytes());
    h.update([0]);
    h.update((i as u64).to_be_bytes());
    h.finalize().into()
}

fn hash_tape(t: &[u64]) -> u64 {
    // FNV-1a over the draws
    let mut h = 0xcbf29ce484222325u64;
    for v in t {
        for b in v.to_le_bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    h
}

fn eval(run: PropFn, g: &mut G) -> Result<(), String> {
    match guarded(|| run(g)) {
        Ok(r) => r,
        Err(e) => {
            // a panic inside the harness itself is an error of the check, not a violation
            if e.contains("harness:") {
                eprintln!("HARNESS ERROR: {e}");
                std::process::exit(3);
            }
            // a generator that does not come to an end on zeros, while shrinking
            if e.contains("tape exhausted") {
                return Ok(());
            }
            Err(format!("unexpected {e}"))
        }
    }
}

pub fn run_tape(run: PropFn, tape: Vec<u64>, log: bool) -> (Result<(), String>, G) {
    let mut g = G::new(Source::Tape { tape, pos: 0 }, log);
    let r = eval(run, &mut g);
    (r, g)
}

fn shrink(run: PropFn, tape: Vec<u64>, budget_s: f64) -> (Vec<u64>, usize) {
    let start = Instant::now();
    let mut best = tape;
    let mut runs = 0usize;
    let try_tape = |t: Vec<u64>, runs: &mut usize| -> Option<Vec<u64>> {
        *runs += 1;
        let (r, g) = run_tape(run, t, false);
        r.is_err().then_some(g.used)
    };
    let over = |runs: usize| runs > 20_000 || start.elapsed().as_secs_f64() > budget_s;
    loop {
        let before = best.clone();
        // delete chunks
        for size in [256usize, 64, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                if over(runs) {
                    return (best, runs);
                }
                let lo = i.saturating_sub(size);
                let mut t = best.clone();
                t.drain(lo..i.min(t.len()));
                match try_tape(t, &mut runs) {
                    Some(b) if b.len() < best.len() => {
                        best = b;
                        i = i.min(best.len());
                    }
                    _ => i -= 1.max(size / 2).min(i),
                }
            }
        }
        // zero chunks, then lower single draws
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                if over(runs) {
                    return (best, runs);
                }
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|v| *v != 0) {
                    let mut t = best.clone();
                    t[i..hi].iter_mut().for_each(|v| *v = 0);
                    if let Some(b) = try_tape(t, &mut runs) {
                        if b.len() <= best.len() {
                            best = b;
                        }
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                if over(runs) {
                    return (best, runs);
                }
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                match try_tape(t, &mut runs) {
                    Some(b) if b.len() <= best.len() && i < b.len() && b[i] <= mid => {
                        best = b;
                        hi = best[i];
                    }
                    _ => lo = mid + 1,
                }
                if i >= best.len() {
                    break;
                }
            }
            i += 1;
        }
        if best == before {
            return (best, runs);
        }
    }
}

/// Runs all cases of a sub-check on all cores. Deterministic in (seed, prop, sub, case index).
pub fn run_sub(prop: &str, sub: &Sub, seed: u64, cases: usize) -> (SubReport, Option<Failure>) {
    let start = Instant::now();
    let threads = std::thread::available_parallelism().map(|v| v.get()).unwrap_or(8).clamp(2, 16);
    let next = AtomicUsize::new(0);
    let failed_at = AtomicUsize::new(usize::MAX);
    let agg = Mutex::new(Agg::default());
    let failure: Mutex<Option<(usize, Vec<u64>, String)>> = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || {
                    let mut local = Agg::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= cases || i > failed_at.load(Ordering::Relaxed) {
                            break;
                        }
                        let rng = ChaCha8Rng::from_seed(case_seed(seed, prop, sub.name, i));
                        let mut g = G::new(Source::Rng(Box::new(rng)), i < 24);
                        let r = eval(sub.run, &mut g);
                        local.evaluations += 1;
                        if g.nontrivial {
                            local.nontrivial.insert(hash_tape(&g.used));
                        }
                        for (l, n) in &g.labels {
                            let e = local.labels.entry(l).or_default();
                            e.0 += 1;
                            e.1 += n;
                        }
                        if g.nontrivial && local.samples.len() < 2 {
                            if let Some(l) = g.log.take() {
                                local.samples.push((i, l));
                            }
                        }
                        if let Err(e) = r {
                            failed_at.fetch_min(i, Ordering::Relaxed);
                            let mut f = failure.lock().unwrap();
                            if f.as_ref().map(|v| v.0 > i).unwrap_or(true) {
                                *f = Some((i, g.used, e));
                            }
                            break;
                        }
                    }
                    let mut a = agg.lock().unwrap();
                    a.evaluations += local.evaluations;
                    a.nontrivial.extend(local.nontrivial);
                    for (k, (c, n)) in local.labels {
                        let e = a.labels.entry(k).or_default();
                        e.0 += c;
                        e.1 += n;
                    }
                    a.samples.extend(local.samples);
                })
                .expect("harness: spawn");
        }
    });
    let failure = failure.into_inner().unwrap().map(|(index, tape, message)| {
        let run = sub.run;
        let t0 = tape.clone();
        let (small, runs) = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || shrink(run, t0, 25.0))
            .unwrap()
            .join()
            .unwrap();
        let (r, g) = run_tape(sub.run, small.clone(), true);
        match r {
            Err(m) => Failure { sub: sub.name, index, tape: small, message: m, log: g.log.unwrap_or_default(), shrink_runs: runs },
            Ok(()) => Failure { sub: sub.name, index, tape, message, log: vec![], shrink_runs: runs },
        }
    });
    let mut a = agg.into_inner().unwrap();
    a.samples.sort_by_key(|v| v.0);
    let rep = SubReport {
        name: sub.name,
        rule: sub.rule,
        evaluations: a.evaluations,
        distinct_nontrivial: a.nontrivial.len() as u64,
        labels: a.labels,
        samples: a.samples.into_iter().take(3).map(|v| v.1).collect(),
        wall: start.elapsed().as_secs_f64(),
    };
    (rep, failure)
}

pub fn take_log(g: &mut G) -> Vec<String> {
    g.log.take().unwrap_or_default()
}
