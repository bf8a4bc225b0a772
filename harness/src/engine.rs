//! Runs one property: a systematic list of cases first, then proptest-generated ones (with shrinking), in a
//! fixed number of shards so that the outcome depends only on the code and the seed.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Obs {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub weight: u64,
}
impl Obs {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// additional executions of the code under test inside this case
    pub fn add(&mut self, n: u64) {
        self.weight += n;
    }
}

pub trait Prop: Sync {
    type Case: Serialize + DeserializeOwned + Clone + Debug + Send + Sync + 'static;
    const ID: &'static str;
    /// how cases are made and which count as non-trivial
    const RULE: &'static str;
    fn directed(&self, tier: Tier, seed: u64) -> Vec<Self::Case>;
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    fn random_cases(&self, tier: Tier) -> u32;
    fn check(&self, case: &Self::Case, obs: &mut Obs) -> Result<(), String>;
    /// too slow for the comparison-guided stage
    fn slow(&self, _case: &Self::Case) -> bool {
        false
    }
    /// Only panics, aborts and sanitizer reports count (used by the memory-safety property)
    fn crash_only(&self) -> bool {
        false
    }
}

/// The same cases, with every verdict ignored except that the code under test panicked or returned an error
pub struct CrashOnly<P>(pub P);
impl<P: Prop> Prop for CrashOnly<P> {
    type Case = P::Case;
    const ID: &'static str = P::ID;
    const RULE: &'static str = P::RULE;
    fn directed(&self, tier: Tier, seed: u64) -> Vec<P::Case> {
        self.0.directed(tier, seed)
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<P::Case> {
        self.0.strategy(tier)
    }
    fn random_cases(&self, tier: Tier) -> u32 {
        self.0.random_cases(tier)
    }
    fn check(&self, case: &P::Case, obs: &mut Obs) -> Result<(), String> {
        self.0.check(case, obs)
    }
    fn slow(&self, case: &P::Case) -> bool {
        self.0.slow(case)
    }
    fn crash_only(&self) -> bool {
        true
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    inner: u64,
    directed: u64,
    labels: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<serde_json::Value>,
}
impl Stats {
    fn record<C: Serialize>(&mut self, case: &C, obs: &Obs, sample: bool) {
        self.evaluations += 1;
        self.inner += obs.weight;
        for l in &obs.labels {
            *self.labels.entry((*l).to_string()).or_default() += 1;
        }
        if obs.nontrivial {
            let js = serde_json::to_string(case).unwrap();
            let mut h = std::collections::hash_map::DefaultHasher::new();
            js.hash(&mut h);
            self.distinct.insert(h.finish());
            if sample && self.samples.len() < 2 && js.len() < 4000 {
                self.samples.push(serde_json::from_str(&js).unwrap());
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.inner += o.inner;
        self.directed += o.directed;
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
    }
}

pub struct Failure {
    pub message: String,
    pub case: serde_json::Value,
}

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
    static IN_CASE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if !IN_CASE.get() {
            eprintln!("panic outside of any case: {msg} at {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = (loc, msg));
    }));
}
/// A panic raised by this harness or by a reference model: never a violation
pub const HARNESS_BUG: &str = "HARNESS-BUG";

/// Runs one check; a panic of the code under test becomes a failure.
pub fn guarded<P: Prop>(p: &P, case: &P::Case, obs: &mut Obs) -> Result<(), String> {
    let before = IN_CASE.replace(true);
    let r = catch_unwind(AssertUnwindSafe(|| p.check(case, obs)));
    IN_CASE.set(before);
    match r {
        Ok(r) => {
            if p.crash_only() {
                match r {
                    Err(m) if m.contains("returned an error") || m.starts_with(HARNESS_BUG) => Err(m),
                    _ => Ok(()),
                }
            } else {
                r
            }
        }
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow().clone());
            let ours = loc.starts_with("src/") || loc.contains("/verif/") || loc.contains("refmodel/") || loc.contains("harness/src/");
            if ours {
                Err(format!("{HARNESS_BUG}: panic at {loc}: {msg}"))
            } else {
                Err(format!("panic at {loc}: {msg}"))
            }
        }
    }
}

fn shard_seed(seed: u64, id: &str, shard: usize) -> [u8; 32] {
    let mut h = 0xcbf29ce484222325u64 ^ seed;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    std::array::from_fn(|i| crate::rng::stream_byte(h.wrapping_add(shard as u64 * 0x1234567), i))
}

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    /// write every case here before running it (used after a crash)
    pub trace_dir: Option<String>,
    pub only_shard: Option<usize>,
    /// percentage of the normal case counts
    pub scale: u32,
    /// a case that runs longer than this many seconds counts as one that never returns
    pub hang: u64,
    /// where a replay file goes when the process has to end in the middle of a case
    pub replay: Option<String>,
    /// property named in that file
    pub report_as: Option<String>,
    pub threads: usize,
}
pub const SHARDS: usize = 16;
/// exit status after a case that did not finish
pub const HUNG: i32 = 4;

struct Tracer(Option<std::fs::File>);
impl Tracer {
    fn put<C: Serialize>(&mut self, o: &Opts, id: &str, c: &C) {
        if let Some(f) = &mut self.0 {
            use std::io::Seek;
            let s = replay_json(o, id, "the process died while running this case", &serde_json::to_value(c).unwrap()).to_string();
            f.set_len(0).unwrap();
            f.seek(std::io::SeekFrom::Start(0)).unwrap();
            f.write_all(s.as_bytes()).unwrap();
        }
    }
}

struct Slot<C> {
    now: Mutex<Option<(Instant, C)>>,
}
impl<C: Clone> Slot<C> {
    fn start(&self, c: &C) {
        *self.now.lock().unwrap() = Some((Instant::now(), c.clone()));
    }
    fn end(&self) {
        *self.now.lock().unwrap() = None;
    }
}
pub fn replay_json(o: &Opts, id: &str, message: &str, case: &serde_json::Value) -> serde_json::Value {
    let mut r = serde_json::json!({"property": o.report_as.as_deref().unwrap_or(id), "message": message, "case": case, "seed": o.seed});
    if o.report_as.is_some() {
        r["cases_of"] = id.into();
    }
    r
}
fn watchdog<P: Prop>(o: &Opts, slots: &[Slot<P::Case>], done: &AtomicBool) {
    while !done.load(Ordering::SeqCst) {
        std::thread::sleep(Duration::from_millis(200));
        for s in slots {
            let g = s.now.lock().unwrap();
            if let Some((t, c)) = &*g {
                if t.elapsed() > Duration::from_secs(o.hang) {
                    let m = format!("a case did not finish within {} s", o.hang);
                    let v = serde_json::to_value(c).unwrap();
                    println!("FAILED {m}\n{v}");
                    if let Some(p) = &o.replay {
                        std::fs::write(p, serde_json::to_string_pretty(&replay_json(o, P::ID, &m, &v)).unwrap()).unwrap();
                    }
                    // the caller runs this case again, alone, before it believes it
                    std::process::exit(HUNG);
                }
            }
        }
    }
}

pub fn run<P: Prop>(p: &P, o: &Opts) -> (serde_json::Value, Option<Failure>) {
    let mut directed = p.directed(o.tier, o.seed);
    if o.scale < 100 {
        let keep = (directed.len() as u64 * o.scale as u64 / 100).max(1);
        let n = directed.len() as u64;
        // an even sample, shifted by the seed
        directed = (0..keep).map(|i| directed[((i * n / keep + o.seed) % n) as usize].clone()).collect();
    }
    let random = (p.random_cases(o.tier) as u64 * o.scale as u64 / 100) as u32;
    let results: Mutex<Vec<(usize, Stats, Option<Failure>)>> = Mutex::new(vec![]);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let live = AtomicUsize::new(o.threads);
    let slots: Vec<Slot<P::Case>> = (0..SHARDS).map(|_| Slot { now: Mutex::new(None) }).collect();
    std::thread::scope(|sc| {
        sc.spawn(|| watchdog::<P>(o, &slots, &done));
        for _ in 0..o.threads {
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(sc, || loop {
                    let s = next.fetch_add(1, Ordering::SeqCst);
                    if s >= SHARDS {
                        if live.fetch_sub(1, Ordering::SeqCst) == 1 {
                            done.store(true, Ordering::SeqCst);
                        }
                        break;
                    }
                    if o.only_shard.is_some_and(|x| x != s) {
                        continue;
                    }
                    let mut tr = Tracer(o.trace_dir.as_ref().map(|d| std::fs::File::create(format!("{d}/{s}.json")).unwrap()));
                    let mut st = Stats::default();
                    let mut fail = None;
                    for (i, c) in directed.iter().enumerate().filter(|(i, _)| i % SHARDS == s) {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut obs = Obs::default();
                        tr.put(o, P::ID, c);
                        slots[s].start(c);
                        let r = guarded(p, c, &mut obs);
                        slots[s].end();
                        st.record(c, &obs, i < SHARDS || i % 977 == 0);
                        st.directed += 1;
                        if let Err(m) = r {
                            fail = Some(Failure { message: m, case: serde_json::to_value(c).unwrap() });
                            break;
                        }
                    }
                    if fail.is_none() {
                        fail = random_part(p, o, s, random, &mut st, &mut tr, &slots[s], &stop);
                    }
                    if fail.is_some() {
                        stop.store(true, Ordering::Relaxed);
                    }
                    results.lock().unwrap().push((s, st, fail));
                })
                .unwrap();
        }
    });
    let mut rs = results.into_inner().unwrap();
    rs.sort_by_key(|r| r.0);
    let mut total = Stats::default();
    let mut failure = None;
    for (_, st, f) in rs {
        total.merge(st);
        if let Some(f) = f {
            // a harness bug outranks everything: nothing else can be believed
            if failure.is_none() || f.message.starts_with(HARNESS_BUG) {
                failure = Some(f);
            }
        }
    }
    let mut samples = total.samples;
    let n = samples.len().max(1);
    let samples: Vec<_> = samples.drain(..).enumerate().filter(|(i, _)| i % n.div_ceil(8) == 0).map(|x| x.1).collect();
    let ev = serde_json::json!({
        "evaluations": total.evaluations,
        "executions_inside_cases": total.inner,
        "distinct_nontrivial": total.distinct.len(),
        "rule": P::RULE,
        "systematic_cases": total.directed,
        "random_cases": total.evaluations - total.directed,
        "classes": total.labels,
        "samples": samples,
    });
    (ev, failure)
}

#[allow(clippy::too_many_arguments)]
fn random_part<P: Prop>(p: &P, o: &Opts, s: usize, random: u32, st: &mut Stats, tr: &mut Tracer, slot: &Slot<P::Case>, stop: &AtomicBool) -> Option<Failure> {
    let n = random / SHARDS as u32;
    if n == 0 {
        return None;
    }
    let cfg = Config { cases: n, failure_persistence: None, max_shrink_iters: 4000, max_shrink_time: 40_000, max_global_rejects: 1000, ..Config::default() };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &shard_seed(o.seed, P::ID, s));
    let mut runner = TestRunner::new_with_rng(cfg, rng);
    let cell = RefCell::new((st, tr, false, 0u32));
    let res = runner.run(&p.strategy(o.tier), |case| {
        let mut g = cell.borrow_mut();
        // another shard has found a failure: no need to go on, unless this one is shrinking its own
        if !g.2 && stop.load(Ordering::Relaxed) {
            return Ok(());
        }
        let mut obs = Obs::default();
        g.1.put(o, P::ID, &case);
        slot.start(&case);
        let r = guarded(p, &case, &mut obs);
        slot.end();
        if !g.2 {
            g.3 += 1;
            let n = g.3;
            g.0.record(&case, &obs, n % 7 == 3);
        }
        r.map_err(|m| {
            g.2 = true;
            TestCaseError::fail(m)
        })
    });
    match res {
        Ok(()) => None,
        Err(TestError::Fail(why, case)) => Some(Failure { message: why.message().to_string(), case: serde_json::to_value(case).unwrap() }),
        Err(TestError::Abort(why)) => Some(Failure { message: format!("{HARNESS_BUG}: generator aborted: {why}"), case: serde_json::Value::Null }),
    }
}

pub fn replay<P: Prop>(p: &P, case: &serde_json::Value) -> Result<(), String> {
    let c: P::Case = serde_json::from_value(case.clone()).map_err(|e| format!("{HARNESS_BUG}: bad replay file: {e}"))?;
    guarded(p, &c, &mut Obs::default())
}
