//! Choice-tape engine: proptest generates (and shrinks) a vector of u32 choices,
//! a `Source` decodes it into a structured case.  All randomness of a case comes
//! from its tape, so a tape is a complete replay.
use proptest::collection::vec;
use proptest::num::u32::ANY;
use proptest::prop_oneof;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Source<'a> {
    tape: &'a [u32],
    pos: usize,
    /// Continues an exhausted tape in long cases.
    more: Option<u64>,
}

#[allow(dead_code)]
impl<'a> Source<'a> {
    pub fn new(tape: &'a [u32]) -> Self {
        Source { tape, pos: 0, more: None }
    }
    pub fn raw(&mut self) -> u32 {
        let v = match (self.tape.get(self.pos), &mut self.more) {
            (Some(v), _) => *v,
            (None, None) => 0,
            (None, Some(x)) => {
                *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
                let z = (*x ^ (*x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                let z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                (z >> 32) as u32
            }
        };
        self.pos += 1;
        v
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.tape.len() && self.more.is_none()
    }
    /// True for one case in `one_in`: a long case, whose choices do not end with the tape but go on pseudo-randomly.
    pub fn long(&mut self, one_in: usize) -> bool {
        let long = self.chance(1, one_in);
        if long {
            self.more = Some(self.raw() as u64);
        }
        long
    }
    /// Uniform below n; 0 on an exhausted tape.
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den; false on an exhausted tape.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'b, T>(&mut self, items: &'b [T]) -> &'b T {
        &items[self.below(items.len())]
    }
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut x = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        weights.len() - 1
    }
    pub fn u64(&mut self) -> u64 {
        ((self.raw() as u64) << 32) | self.raw() as u64
    }
    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
    /// Fisher-Yates; identity on an exhausted tape.
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            let j = i - self.below(i + 1);
            items.swap(i, j);
        }
    }
}

#[derive(Default)]
pub struct Rec {
    pub desc: String,
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}

impl Rec {
    pub fn case(&mut self, mut desc: String) {
        if desc.len() > 6000 {
            let n = (0..6000).rev().find(|i| desc.is_char_boundary(*i)).unwrap();
            desc.truncate(n);
            desc.push_str(" ...");
        }
        self.desc = desc;
    }
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.class(c);
        }
    }
}

pub type CaseResult = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub tape: usize,
    /// Cases per worker (8 workers).
    pub quick: u32,
    pub thorough: u32,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Source, &mut Rec) -> CaseResult,
    /// Fixed enumeration run by worker 0 (bounded-exhaustive part and regressions): number of items.
    pub fixed: Option<(fn() -> usize, fn(usize, &mut Rec) -> CaseResult)>,
}

pub const WORKERS: u32 = 8;
const HANG_CPU_S: f64 = 30.0;
/// A case that neither ends nor uses the processor for so long is a deadlock.
const STUCK_S: f64 = 40.0;
const MEM_LIMIT: u64 = 3 << 30;

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        PANIC.with(|p| *p.borrow_mut() = Some(s));
    }));
}

/// Runs `f`, turning a panic into `Err("panic: ..")`.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("{what} panicked: {m}"))
        }
    }
}

pub fn eval_case(prop: &Prop, tape: &[u32], rec: &mut Rec) -> CaseResult {
    let run = prop.run;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut s = Source::new(tape);
        let v = run(&mut s, rec);
        rec.class_if(s.pos > tape.len(), "choices used up");
        v
    }));
    match r {
        Ok(v) => v,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("panic: {m}"))
        }
    }
}

/// Cases with several threads do not fail on every schedule.
fn schedules(prop: &Prop) -> bool {
    prop.id == "C27"
}

/// `eval_case`, for cases with several threads again and again for some time.
fn eval_again(prop: &Prop, tape: &[u32], rec: &mut Rec, ms: u64) -> CaseResult {
    let start = Instant::now();
    loop {
        *rec = Rec::default();
        CASE_NO.fetch_add(1, Ordering::Relaxed);
        let r = eval_case(prop, tape, rec);
        if r.is_err() || !schedules(prop) || start.elapsed() > Duration::from_millis(ms) {
            return r;
        }
    }
}

pub fn eval_fixed(prop: &Prop, index: usize, rec: &mut Rec) -> CaseResult {
    let f = prop.fixed.unwrap().1;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(index, rec)));
    match r {
        Ok(v) => v,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("panic: {m}"))
        }
    }
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn seed_bytes(id: &str, seed: u64, worker: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut x = hash_str(id) ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ ((worker as u64) << 48);
    for chunk in out.chunks_mut(8) {
        // splitmix64
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        chunk.copy_from_slice(&z.to_le_bytes());
    }
    out
}

static CASE_NO: AtomicU64 = AtomicU64::new(0);

fn cpu_time() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

fn start_watchdog() {
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut since = cpu_time();
        let mut still = (u64::MAX, since, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let n = CASE_NO.load(Ordering::Relaxed);
            let now = cpu_time();
            if n != last {
                last = n;
                since = now;
            } else if now - since > HANG_CPU_S {
                unsafe { libc::_exit(97) };
            }
            if n != still.0 || now - still.1 > 0.5 {
                still = (n, now, Instant::now());
            } else if still.2.elapsed().as_secs_f64() > STUCK_S {
                unsafe { libc::_exit(98) };
            }
        }
    });
}

fn limits() {
    let l = libc::rlimit { rlim_cur: MEM_LIMIT, rlim_max: MEM_LIMIT };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &c) };
}

struct CurrentCase {
    file: std::fs::File,
}
impl CurrentCase {
    fn put(&mut self, kind: u32, data: &[u32]) {
        let mut buf = Vec::with_capacity(8 + data.len() * 4);
        buf.extend_from_slice(&kind.to_le_bytes());
        buf.extend_from_slice(&(data.len() as u32).to_le_bytes());
        for d in data {
            buf.extend_from_slice(&d.to_le_bytes());
        }
        let _ = self.file.seek(SeekFrom::Start(0));
        let _ = self.file.write_all(&buf);
    }
}
fn read_current(path: &Path) -> Option<(u32, Vec<u32>)> {
    let b = std::fs::read(path).ok()?;
    let word = |i: usize| -> Option<u32> {
        Some(u32::from_le_bytes(b.get(i * 4..i * 4 + 4)?.try_into().ok()?))
    };
    let kind = word(0)?;
    let n = word(1)? as usize;
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(word(2 + i)?);
    }
    Some((kind, v))
}

struct Stats {
    evaluations: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

impl Stats {
    fn add(&mut self, rec: &Rec) {
        self.evaluations += 1;
        for c in &rec.classes {
            *self.classes.entry(c).or_default() += 1;
        }
        if rec.nontrivial {
            self.nontrivial += 1;
            let new = self.hashes.insert(hash_str(&rec.desc));
            if new && self.samples.len() < 3 && self.nontrivial % 7 == 3 {
                self.samples.push(clip(&rec.desc));
            }
        }
    }
}

fn clip(s: &str) -> String {
    if s.chars().count() > 1500 {
        let mut t: String = s.chars().take(1500).collect();
        t.push('…');
        t
    } else {
        s.to_string()
    }
}

/// Minimises a failing tape: shorter first (removal of chunks), then smaller choices.
fn shrink(prop: &Prop, tape: Vec<u32>, mut note: impl FnMut(&[u32])) -> Vec<u32> {
    let mut best = tape;
    let mut budget = 8000u32;
    let start = Instant::now();
    let mut fails = |t: &[u32], budget: &mut u32| {
        if *budget == 0 || start.elapsed() > Duration::from_secs(60) {
            *budget = 0;
            return false;
        }
        *budget -= 1;
        CASE_NO.fetch_add(1, Ordering::Relaxed);
        note(t);
        eval_again(prop, t, &mut Rec::default(), 60).is_err()
    };
    loop {
        let before = best.clone();
        // Drop the tail.
        let mut cut = best.len();
        while cut > 0 {
            cut /= 2;
            while best.len() > cut && fails(&best[..best.len() - cut.max(1)], &mut budget) {
                best.truncate(best.len() - cut.max(1));
            }
        }
        // Remove or clear chunks.
        let mut chunk = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + chunk).min(best.len());
                let mut t = best.clone();
                t.drain(i..end);
                if fails(&t, &mut budget) {
                    best = t;
                    continue;
                }
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..end].fill(0);
                    if fails(&t, &mut budget) {
                        best = t;
                    }
                }
                i = end;
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // Smaller choices.
        for i in 0..best.len() {
            let mut step = best[i] / 2;
            while step > 1 << 16 {
                let mut t = best.clone();
                t[i] -= step;
                if fails(&t, &mut budget) {
                    best = t;
                    step = step.min(best[i] / 2);
                } else {
                    step /= 2;
                }
            }
        }
        if best == before || budget == 0 {
            return best;
        }
    }
}

/// The guided part of the search: tapes that reached something new (or rare) in the code are kept and varied.
struct Guide {
    on: bool,
    /// How often each feature was seen.
    seen: Vec<u32>,
    kept: Vec<Kept>,
    features: Vec<u32>,
    begun: std::time::Instant,
    cases: u64,
    time: u64,
}

struct Kept {
    tape: Vec<u32>,
    rare: Vec<u32>,
    /// How long it took.
    cost: u32,
}

impl Guide {
    fn new(on: bool) -> Guide {
        let on = on && crate::cov::available();
        Guide { on, seen: vec![0; if on { crate::cov::size() } else { 0 }], kept: vec![], features: vec![], begun: std::time::Instant::now(), cases: 0, time: 0 }
    }
    fn before(&mut self) {
        if self.on {
            self.begun = std::time::Instant::now();
            crate::cov::start();
        }
    }
    fn after(&mut self, tape: &[u32]) {
        if !self.on {
            return;
        }
        crate::cov::features(&mut self.features);
        let cost = self.begun.elapsed().as_micros().min(1 << 30) as u32;
        self.cases += 1;
        self.time += cost as u64;
        let mut rare = vec![];
        for f in &self.features {
            let n = &mut self.seen[*f as usize];
            *n = n.saturating_add(1);
            if *n <= 3 {
                rare.push(*f);
            }
        }
        if !rare.is_empty() && self.kept.len() < 20_000 {
            rare.truncate(16);
            self.kept.push(Kept { tape: tape.to_vec(), rare, cost });
        }
    }
    fn rarity(&self, k: &Kept) -> u32 {
        k.rare.iter().map(|f| self.seen[*f as usize]).min().unwrap_or(u32::MAX)
    }
    /// A kept tape that did not take very long (as a rule), mostly one that reached what few others did.
    fn pick(&self, rng: &mut Mix) -> &[u32] {
        let mut best = &self.kept[rng.below(self.kept.len())];
        let usual = 2 * self.time / self.cases.max(1);
        for _ in 0..10 {
            if best.cost as u64 <= usual {
                break;
            }
            best = &self.kept[rng.below(self.kept.len())];
        }
        let mut r = self.rarity(best);
        for _ in 0..rng.below(40) {
            let k = &self.kept[rng.below(self.kept.len())];
            let q = self.rarity(k);
            if q < r && k.cost as u64 <= usual {
                (best, r) = (k, q);
            }
        }
        &best.tape
    }
    fn vary(&self, rng: &mut Mix, most: usize) -> Vec<u32> {
        let mut t = self.pick(rng).to_vec();
        for _ in 0..1 + rng.below(4) + if rng.below(8) == 0 { rng.below(16) } else { 0 } {
            let n = t.len();
            let i = rng.below(n + 1);
            let span = |rng: &mut Mix| {
                let most = if rng.below(4) == 0 { 40 } else { 6 };
                1 + rng.below(most)
            };
            match rng.below(11) {
                0..=3 if n > 0 => t[i.min(n - 1)] = rng.next() as u32,
                4 if n > 0 => {
                    // A neighbouring choice.
                    let d = 1u32 << (20 + rng.below(11));
                    let x = &mut t[i.min(n - 1)];
                    *x = if rng.below(2) == 0 { x.wrapping_add(d) } else { x.wrapping_sub(d) };
                }
                5 if n > 0 => t[i.min(n - 1)] = if rng.below(2) == 0 { 0 } else { u32::MAX },
                6 => {
                    let new: Vec<u32> = (0..span(rng)).map(|_| rng.next() as u32).collect();
                    t.splice(i..i, new);
                }
                7 => {
                    let end = (i + span(rng)).min(n);
                    t.drain(i..end);
                }
                8 => {
                    let end = (i + span(rng)).min(n);
                    let copy: Vec<u32> = t[i..end].to_vec();
                    let at = rng.below(n + 1);
                    t.splice(at..at, copy);
                }
                9 => {
                    // The rest of another tape.
                    let other = self.pick(rng);
                    let from = if rng.below(2) == 0 { i.min(other.len()) } else { rng.below(other.len() + 1) };
                    t.truncate(i);
                    t.extend_from_slice(&other[from..]);
                }
                _ => {
                    t.truncate(i);
                    let new: Vec<u32> = (0..rng.below(most)).map(|_| rng.next() as u32).collect();
                    t.extend(new);
                }
            }
        }
        t.truncate(most);
        t
    }
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").as_deref() == Ok("thorough")
}

/// splitmix64
struct Mix(u64);

impl Mix {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 32) * n as u64 >> 32) as usize
    }
}

/// Body of a worker process.
pub fn worker(prop: &Prop, seed: u64, index: u32, cases: u32, out: &Path) {
    limits();
    install_panic_hook();
    start_watchdog();
    crate::gen::set_scratch(out.join(format!("w{index}")));
    let cur = RefCell::new(CurrentCase {
        file: std::fs::File::create(out.join(format!("cur{index}"))).expect("current case file"),
    });
    let stats = RefCell::new(Stats {
        evaluations: 0,
        nontrivial: 0,
        hashes: HashSet::new(),
        classes: BTreeMap::new(),
        samples: vec![],
    });
    let mut violation: Option<Value> = None;
    let mut exhaustive = 0u64;
    let (mut guided, mut kept) = (0u64, 0u64);
    if let Some((count, _)) = prop.fixed {
        let n = count();
        for i in (index as usize..n).step_by(WORKERS as usize) {
            CASE_NO.fetch_add(1, Ordering::Relaxed);
            cur.borrow_mut().put(1, &[i as u32]);
            let mut rec = Rec::default();
            let r = eval_fixed(prop, i, &mut rec);
            stats.borrow_mut().add(&rec);
            exhaustive += 1;
            if let Err(m) = r {
                violation = Some(json!({"kind":"fixed","index":i,"case":rec.desc,"message":m}));
                break;
            }
        }
    }
    if violation.is_none() && cases > 0 {
        let mut config = Config::with_cases(cases);
        config.failure_persistence = None;
        // Shrinking is done on the tape, see `shrink`.
        config.max_shrink_iters = 0;
        config.max_global_rejects = 1;
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(prop.id, seed, index));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let failed = RefCell::new(false);
        let guide = RefCell::new(Guide::new(!schedules(prop) && std::env::var_os("VH_RANDOM").is_none()));
        let begun = cpu_time();
        let result = runner.run(&prop_oneof![1 => vec(ANY, 0..=prop.tape / 3), 3 => vec(ANY, prop.tape / 3..=prop.tape)], |tape| {
            CASE_NO.fetch_add(1, Ordering::Relaxed);
            cur.borrow_mut().put(0, &tape);
            let mut rec = Rec::default();
            guide.borrow_mut().before();
            let r = eval_case(prop, &tape, &mut rec);
            guide.borrow_mut().after(&tape);
            if !*failed.borrow() {
                stats.borrow_mut().add(&rec);
            }
            r.map_err(|m| {
                *failed.borrow_mut() = true;
                TestCaseError::fail(m)
            })
        });
        // The guided part takes at most half as long as the random one, or as long in the thorough tier.
        let mut guide = guide.into_inner();
        let result = match result {
            Ok(()) if guide.on && !guide.kept.is_empty() => {
                let spent = cpu_time() - begun;
                let share = if thorough() { 1.0 } else { 0.5 };
                let mut rng = Mix(hash_str(prop.id) ^ seed << 8 ^ index as u64);
                let mut result = Ok(());
                while guided < cases as u64 && cpu_time() - begun < (1.0 + share) * spent {
                    let tape = guide.vary(&mut rng, prop.tape);
                    CASE_NO.fetch_add(1, Ordering::Relaxed);
                    cur.borrow_mut().put(0, &tape);
                    let mut rec = Rec::default();
                    guide.before();
                    let r = eval_case(prop, &tape, &mut rec);
                    guide.after(&tape);
                    stats.borrow_mut().add(&rec);
                    guided += 1;
                    if let Err(m) = r {
                        result = Err(TestError::Fail(m.into(), tape));
                        break;
                    }
                }
                kept = guide.kept.len() as u64;
                result
            }
            r => r,
        };
        match result {
            Ok(()) => {}
            Err(TestError::Fail(reason, tape)) => {
                let tape = shrink(prop, tape, |t| cur.borrow_mut().put(0, t));
                let mut rec = Rec::default();
                let r = eval_again(prop, &tape, &mut rec, 5000);
                let message = match r {
                    Err(m) => m,
                    Ok(()) => format!("not reproduced in the same process: {reason}"),
                };
                violation = Some(json!({"kind":"tape","tape":tape,"case":rec.desc,"message":message}));
            }
            Err(TestError::Abort(reason)) => {
                eprintln!("generation aborted: {reason}");
                std::process::exit(3);
            }
        }
    }
    let s = stats.into_inner();
    let v = json!({
        "evaluations": s.evaluations, "nontrivial": s.nontrivial, "classes": s.classes,
        "samples": s.samples, "fixed": exhaustive, "guided": guided, "kept": kept, "violation": violation,
        "hashes": s.hashes.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>(),
    });
    std::fs::write(out.join(format!("res{index}.json")), v.to_string()).expect("result file");
}

/// `one`: evaluate a single case given in a file, exit 0 ok, 1 failure (message on stdout).
pub fn one(prop: &Prop, file: &Path, scratch: &Path) -> i32 {
    limits();
    install_panic_hook();
    start_watchdog();
    crate::gen::set_scratch(scratch.to_path_buf());
    let Some((kind, data)) = read_current(file) else { return 3 };
    let mut rec = Rec::default();
    let r = match kind {
        1 => eval_fixed(prop, data[0] as usize, &mut rec),
        _ => eval_again(prop, &data, &mut rec, 10_000),
    };
    let m = r.as_ref().err().cloned();
    println!("{}", json!({"case": rec.desc, "message": m}));
    if r.is_err() {
        1
    } else {
        0
    }
}

enum OneResult {
    Ok,
    Fail(String, String),
    Crash(String),
    Error,
}

fn run_one(prop: &Prop, kind: u32, data: &[u32], dir: &Path) -> OneResult {
    let file = dir.join("one.case");
    CurrentCase { file: std::fs::File::create(&file).unwrap() }.put(kind, data);
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["one", prop.id])
        .arg(&file)
        .arg(dir.join("one"))
        .stderr(Stdio::null())
        .output();
    let Ok(out) = out else { return OneResult::Error };
    match out.status.code() {
        Some(0) => OneResult::Ok,
        Some(1) => {
            let v: Value = serde_json::from_slice(&out.stdout).unwrap_or(Value::Null);
            OneResult::Fail(
                v["case"].as_str().unwrap_or("").to_string(),
                v["message"].as_str().unwrap_or("").to_string(),
            )
        }
        Some(98) => OneResult::Crash(format!("does not terminate (deadlock: no progress for {STUCK_S} s without using the processor)")),
        Some(97) => OneResult::Crash(format!("does not terminate ({HANG_CPU_S} s of CPU time)")),
        Some(_) => OneResult::Error,
        None => {
            use std::os::unix::process::ExitStatusExt;
            OneResult::Crash(format!("process ended by signal {}", out.status.signal().unwrap_or(0)))
        }
    }
}

fn scratch_base() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    let name = format!("vh-{}", std::process::id());
    let d = shm.join(&name);
    if std::fs::create_dir_all(&d).is_ok() && std::fs::write(d.join("probe"), b"x").is_ok() {
        return d;
    }
    let d = std::env::temp_dir().join(&name);
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

/// Runs the check of one property; returns the exit code.
pub fn check(prop: &Prop, verif: &Path) -> i32 {
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let mut cases = if tier == "thorough" { prop.thorough } else { prop.quick };
    if let Some(c) = std::env::var("VH_CASES").ok().and_then(|s| s.parse().ok()) {
        cases = c;
    }
    let dir = scratch_base();
    let exe = std::env::current_exe().unwrap();
    let mut children = vec![];
    for w in 0..WORKERS {
        let c = Command::new(&exe)
            .args(["worker", prop.id, &seed.to_string(), &w.to_string(), &cases.to_string()])
            .arg(&dir)
            // ICU logs data errors.
            .stderr(if std::env::var_os("VH_DEBUG").is_some() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("spawn worker");
        children.push((w, c));
    }
    let mut violations: Vec<Value> = vec![];
    let mut stuck: Vec<Vec<u32>> = vec![];
    let mut error: Option<String> = None;
    let mut evaluations = 0u64;
    let mut fixed = 0u64;
    let (mut guided, mut kept) = (0u64, 0u64);
    let mut hashes: HashSet<String> = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    for (w, mut c) in children {
        let status = c.wait().expect("wait");
        if status.code() == Some(0) {
            let v: Value = std::fs::read(dir.join(format!("res{w}.json")))
                .ok()
                .and_then(|b| serde_json::from_slice(&b).ok())
                .unwrap_or(Value::Null);
            if v.is_null() {
                error = Some(format!("worker {w} left no result"));
                continue;
            }
            evaluations += v["evaluations"].as_u64().unwrap_or(0);
            fixed += v["fixed"].as_u64().unwrap_or(0);
            guided += v["guided"].as_u64().unwrap_or(0);
            kept += v["kept"].as_u64().unwrap_or(0);
            for h in v["hashes"].as_array().into_iter().flatten() {
                hashes.insert(h.as_str().unwrap_or("").to_string());
            }
            for (k, n) in v["classes"].as_object().into_iter().flatten() {
                *classes.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
            }
            for s in v["samples"].as_array().into_iter().flatten() {
                samples.push(s.as_str().unwrap_or("").to_string());
            }
            if !v["violation"].is_null() {
                violations.push(v["violation"].clone());
            }
            continue;
        }
        // Died: confirm with the saved case in a fresh process, then shrink a little.
        let Some((kind, data)) = read_current(&dir.join(format!("cur{w}"))) else {
            error = Some(format!("worker {w} ended with {status}"));
            continue;
        };
        if !violations.is_empty() {
            continue;
        }
        match run_one(prop, kind, &data, &dir) {
            OneResult::Crash(first) => {
                let mut best = data.clone();
                let mut msg = first;
                if kind == 0 && !msg.contains("terminate") {
                    let mut budget = 150;
                    let mut chunk = best.len() / 2;
                    while chunk >= 1 && budget > 0 {
                        let mut i = 0;
                        while i < best.len() && budget > 0 {
                            let mut t = best.clone();
                            t.drain(i..(i + chunk).min(t.len()));
                            budget -= 1;
                            if let OneResult::Crash(m) = run_one(prop, kind, &t, &dir) {
                                best = t;
                                msg = m;
                            } else {
                                i += chunk;
                            }
                        }
                        chunk /= 2;
                    }
                }
                violations.push(if kind == 1 {
                    json!({"kind":"fixed","index":best[0],"case":"","message":msg})
                } else {
                    json!({"kind":"tape","tape":best,"case":"","message":msg})
                });
            }
            OneResult::Fail(case, message) => {
                violations.push(if kind == 1 {
                    json!({"kind":"fixed","index":data[0],"case":case,"message":message})
                } else {
                    json!({"kind":"tape","tape":data,"case":case,"message":message})
                });
            }
            // A deadlock of several threads need not occur again.
            OneResult::Ok if status.code() == Some(98) && schedules(prop) => stuck.push(data),
            _ => error = Some(format!("worker {w} ended with {status}, not confirmed by its last case")),
        }
    }
    if violations.is_empty() {
        if stuck.len() > 1 {
            violations.push(json!({"kind":"tape","tape":stuck[0],"case":"","message":format!("{} workers made no progress for {STUCK_S} s without using the processor (deadlock)", stuck.len())}));
        } else if !stuck.is_empty() {
            error = Some("a worker made no progress, not confirmed by its last case".to_string());
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let wall = start.elapsed().as_secs_f64();
    samples.truncate(8);
    let evidence = json!({
        "property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": hashes.len(), "rule": prop.rule,
            "samples": samples, "classes": classes, "fixed_cases": fixed,
            "guided_cases": guided, "kept_for_new_coverage": kept,
        },
        "assumptions": prop.assumptions, "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations.len(),
    });
    let evdir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(
        evdir.join(format!("{}.json", prop.id)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .expect("evidence");
    eprintln!(
        "{} {tier} seed={seed}: {evaluations} cases ({guided} guided, {kept} kept), {} distinct non-trivial, {wall:.1} s, classes {classes:?}",
        prop.id,
        hashes.len()
    );
    if !violations.is_empty() {
        violations.sort_by_key(|v| v["tape"].as_array().map(|a| a.len()).unwrap_or(0));
        let mut v = violations[0].clone();
        v["property"] = json!(prop.id);
        v["seed"] = json!(seed);
        let rdir = verif.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-{:016x}.json", prop.id, hash_str(&v.to_string())));
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n").expect("replay");
        println!("case: {}", clip(v["case"].as_str().unwrap_or("")));
        println!("message: {}", clip(v["message"].as_str().unwrap_or("")));
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    if let Some(e) = error {
        println!("ERROR property={} {e}", prop.id);
        return 2;
    }
    println!("OK property={} evaluations={evaluations} distinct_nontrivial={}", prop.id, hashes.len());
    0
}

/// Re-runs a replay file; exit 1 if it still fails.
pub fn replay(prop: &Prop, v: &Value) -> i32 {
    install_panic_hook();
    let dir = scratch_base();
    crate::gen::set_scratch(dir.join("replay"));
    let mut rec = Rec::default();
    let r = if v["kind"] == "fixed" {
        eval_fixed(prop, v["index"].as_u64().unwrap() as usize, &mut rec)
    } else {
        let tape: Vec<u32> =
            v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
        eval_again(prop, &tape, &mut rec, 10_000)
    };
    let _ = std::fs::remove_dir_all(&dir);
    println!("case: {}", rec.desc);
    match r {
        Ok(()) => {
            println!("the property holds on this case");
            0
        }
        Err(m) => {
            println!("message: {m}");
            1
        }
    }
}
