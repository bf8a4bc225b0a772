//! Comparison-guided search over the cases of a property.
//!
//! The code under test (with the generics it instantiates) is compiled so that every comparison of integers and byte
//! strings reports its operands.  For each comparison that has not yet come out "equal" (or greater, or less), the search
//! looks for an operand in the byte strings the case was built from, writes the other operand there, and runs the
//! property on the new case; where the operand is not found it follows the distance between the operands instead.
//! Cases and verdicts are those of the property itself, so a failure replays with `harness replay`.
use harness::engine::{self, guarded, CrashOnly, Obs, Opts, Prop, Tier, HARNESS_BUG};
use harness::gen::{hex, listen, Bytes};
use harness::rng::mix;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[repr(C)]
#[derive(Clone, Copy)]
struct Rec {
    a: u64,
    b: u64,
    site: u32,
    size: u8,
    konst: u8,
    mem: u8,
    pad: u8,
}
#[repr(C)]
struct MemRec {
    a: [u8; 64],
    b: [u8; 64],
}
extern "C" {
    fn cf_start();
    fn cf_gate(on: i32);
    fn cf_records(r: *mut *const Rec, m: *mut *const MemRec) -> u32;
    fn cf_new(l: *mut *const u32) -> u32;
    fn cf_seen(site: u32) -> u8;
    fn cf_settle(site: u32);
    fn cf_total() -> u64;
}

#[global_allocator]
static ALLOC: harness::props::memory::Watcher = harness::props::memory::Watcher;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

/// JSON pointers of everything that may be a `Bytes`
fn leaves(v: &Value, at: String, out: &mut Vec<(String, Value)>) {
    match v {
        Value::Object(o) => {
            if o.len() == 1 && ["Fill", "Sparse", "Ramp", "Seeded", "Patched", "Hex"].contains(&o.keys().next().unwrap().as_str()) {
                out.push((at, v.clone()));
                return;
            }
            for (k, x) in o {
                leaves(x, format!("{at}/{k}"), out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                leaves(x, format!("{at}/{i}"), out);
            }
        }
        _ => {}
    }
}
/// (string, position, new bytes)
type Edit = (usize, usize, Vec<u8>);
/// places of the case that hold byte strings, with their content
#[derive(Clone)]
struct Strings(Vec<(String, Vec<u8>)>);
fn strings(case: &Value, used: &[(Bytes, usize)]) -> Strings {
    let mut l = vec![];
    leaves(case, String::new(), &mut l);
    let mut size: HashMap<String, (usize, &Bytes)> = HashMap::new();
    for (b, n) in used {
        let e = size.entry(serde_json::to_string(b).unwrap()).or_insert((0, b));
        e.0 = e.0.max(*n);
    }
    Strings(l.into_iter().filter_map(|(p, v)| size.get(&v.to_string()).map(|(n, b)| (p, b.get(*n)))).collect())
}
fn with(case: &Value, at: &str, bytes: &[u8]) -> Value {
    let mut c = case.clone();
    *c.pointer_mut(at).expect("place") = json!({ "Hex": hex(bytes) });
    c
}
fn get12(b: &[u8], i: usize) -> u64 {
    let p = i / 2 * 3;
    (if i % 2 == 0 { b[p] as u64 | (b[p + 1] as u64 & 15) << 8 } else { b[p + 1] as u64 >> 4 | (b[p + 2] as u64) << 4 }) & 4095
}

/// what a comparison suggests writing where
fn suggestions(r: &Rec, m: &[MemRec], s: &Strings, rng: &mut Rng, want: &mut Vec<Edit>) -> bool {
    let put = |want: &mut Vec<Edit>, leaf: usize, pos: usize, with_bytes: &[u8]| want.push((leaf, pos, with_bytes.to_vec()));
    let find = |needle: &[u8]| -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (i, (_, c)) in s.0.iter().enumerate() {
            for p in 0..c.len().saturating_sub(needle.len() - 1) {
                if &c[p..p + needle.len()] == needle {
                    v.push((i, p));
                }
            }
        }
        v
    };
    let mut found = false;
    if r.mem != 0 {
        let n = r.size as usize;
        let (a, b) = (&m[r.a as usize].a[..n], &m[r.a as usize].b[..n]);
        for (x, y) in [(a, b), (b, a)] {
            for (l, p) in find(x).into_iter().take(4) {
                put(want, l, p, y);
                found = true;
            }
        }
        return found;
    }
    let mut pairs = vec![(r.a, r.b)];
    if r.konst == 0 {
        pairs.push((r.b, r.a));
    }
    for (x, y) in pairs {
        for w in [8usize, 4, 2, 1] {
            if w > r.size as usize || w < 8 && (x >> (8 * w) != 0 || y >> (8 * w) != 0) {
                continue;
            }
            for big in [false, true] {
                if w == 1 && big {
                    continue;
                }
                let enc = |v: u64| {
                    let mut e = v.to_le_bytes()[..w].to_vec();
                    if big {
                        e.reverse();
                    }
                    e
                };
                let mut at = find(&enc(x));
                found |= !at.is_empty() && (w > 1 || r.size == 1);
                // many matches: a random few
                for _ in 0..(if w == 1 { 6 } else { 4 }) {
                    if at.is_empty() {
                        break;
                    }
                    let (l, p) = at.swap_remove(rng.below(at.len()));
                    for v in [y, y.wrapping_add(1), y.wrapping_sub(1)] {
                        put(want, l, p, &enc(v));
                    }
                }
            }
        }
        if r.size >= 2 && x < 4096 && y < 4096 {
            for (l, (_, c)) in s.0.iter().enumerate() {
                if c.len() < 384 {
                    continue;
                }
                let mut at: Vec<usize> = (0..c.len() / 384 * 256).filter(|i| get12(&c[i / 256 * 384..], i % 256) == x).collect();
                for _ in 0..4 {
                    if at.is_empty() {
                        break;
                    }
                    found = true;
                    let i = at.swap_remove(rng.below(at.len()));
                    let from = i / 256 * 384 + i % 256 / 2 * 3;
                    let mut three = c[from..from + 3].to_vec();
                    harness::props::mlkem::set12(&mut three, i % 2, y as u16);
                    want.push((l, from, three));
                }
            }
        }
    }
    found
}
fn havoc(case: &Value, s: &Strings, rng: &mut Rng) -> Option<Value> {
    if s.0.is_empty() {
        return None;
    }
    let (at, c) = &s.0[rng.below(s.0.len())];
    let mut c = c.clone();
    if c.is_empty() {
        return None;
    }
    for _ in 0..1 + rng.below(3) {
        let p = rng.below(c.len());
        match rng.below(6) {
            0 => c[p] ^= 1 << rng.below(8),
            1 => c[p] = rng.next() as u8,
            2 => c[p] = [0, 1, 0x7f, 0x80, 0xff][rng.below(5)],
            3 => c[p] = c[p].wrapping_add(1),
            4 => c[p] = c[p].wrapping_sub(1),
            _ => {
                let n = 1 + rng.below(8);
                let q = rng.below(c.len());
                for i in 0..n {
                    if p + i < c.len() && q + i < c.len() {
                        c[p + i] = c[q + i];
                    }
                }
            }
        }
    }
    Some(with(case, at, &c))
}

#[derive(Default)]
struct Out {
    evaluations: u64,
    guided: u64,
    comparisons: u64,
    sites: u64,
    both: u64,
    given_up: u64,
    labels: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    failure: Option<(String, Value)>,
}
struct Site {
    tries: u32,
    best: u64,
    case: Option<Rc<(Value, Strings)>>,
}
type Slot = Mutex<Option<(Instant, Value)>>;

struct Search<'a, P: Prop> {
    p: &'a P,
    o: &'a Opts,
    shard: usize,
    slot: &'a Slot,
    trace: Option<std::fs::File>,
    rng: Rng,
    out: Out,
    corpus: Vec<Rc<(Value, Strings)>>,
    queue: VecDeque<(Rc<(Value, Strings)>, Edit)>,
    sites: HashMap<u32, Site>,
}
const PATIENCE: u32 = 160;
impl<P: Prop> Search<'_, P> {
    /// Runs one case; a failure ends the search
    fn exec(&mut self, v: Value, guided: bool) -> Result<(), (String, Value)> {
        let Ok(c) = serde_json::from_value::<P::Case>(v.clone()) else { return Ok(()) };
        if let Some(f) = &mut self.trace {
            use std::io::{Seek, Write};
            let t = engine::replay_json(self.o, P::ID, "the process died while running this case", &v).to_string();
            f.set_len(0).unwrap();
            f.rewind().unwrap();
            f.write_all(t.as_bytes()).unwrap();
        }
        *self.slot.lock().unwrap() = Some((Instant::now(), v.clone()));
        let mut obs = Obs::default();
        listen(true);
        // SAFETY: the functions of cmp.c
        unsafe {
            cf_start();
            cf_gate(1);
        }
        let r = guarded(self.p, &c, &mut obs);
        unsafe { cf_gate(0) };
        let used = listen(false);
        *self.slot.lock().unwrap() = None;
        self.out.evaluations += 1;
        self.out.guided += guided as u64;
        for l in &obs.labels {
            *self.out.labels.entry((*l).to_string()).or_default() += 1;
        }
        if obs.nontrivial {
            use std::hash::{Hash, Hasher};
            let js = v.to_string();
            let mut h = std::collections::hash_map::DefaultHasher::new();
            js.hash(&mut h);
            if self.out.distinct.insert(h.finish()) && guided && self.out.samples.is_empty() && js.len() < 3000 {
                self.out.samples.push(v.clone());
            }
        }
        if let Err(m) = r {
            return Err((m, v));
        }
        let (mut rp, mut mp, mut lp) = (std::ptr::null(), std::ptr::null(), std::ptr::null());
        // SAFETY: both arrays belong to this thread and stay unchanged until the next cf_start
        let (recs, mems, news) = unsafe {
            let n = cf_records(&mut rp, &mut mp) as usize;
            let k = cf_new(&mut lp) as usize;
            (std::slice::from_raw_parts(rp, n), std::slice::from_raw_parts(mp, 256), std::slice::from_raw_parts(lp, k))
        };
        // the records of comparisons still of interest
        let mut keep: Vec<(u32, u64, usize)> = vec![];
        for (i, r) in recs.iter().enumerate() {
            let seen = unsafe { cf_seen(r.site) };
            if seen & 0x80 != 0 {
                continue;
            }
            let site = self.sites.entry(r.site).or_insert(Site { tries: 0, best: u64::MAX, case: None });
            // both ways seen: one more side is worth a few tries only
            let limit = if seen & 2 != 0 && seen & 5 != 0 { PATIENCE / 4 } else { PATIENCE };
            if seen & 7 == 7 || site.tries > limit {
                self.out.given_up += (seen & 2 == 0 || seen & 5 == 0) as u64;
                unsafe { cf_settle(r.site) };
                continue;
            }
            keep.push((site.tries, self.rng.next(), i));
        }
        if keep.is_empty() && news.is_empty() {
            return Ok(());
        }
        let base = Rc::new((v.clone(), strings(&v, &used)));
        if !news.is_empty() {
            self.corpus.push(base.clone());
        }
        // those tried least, a few of each
        keep.sort_unstable();
        let mut done = HashSet::new();
        let mut per: HashMap<u32, u32> = HashMap::new();
        for (_, _, i) in keep {
            let r = &recs[i];
            let n = per.entry(r.site).or_insert(0);
            if done.len() >= 48 || *n >= 3 || !done.insert((r.site, r.a, r.b)) {
                continue;
            }
            *n += 1;
            let mut want = vec![];
            let found = suggestions(r, mems, &base.1, &mut self.rng, &mut want);
            let site = self.sites.get_mut(&r.site).unwrap();
            let d = if r.mem != 0 { 64 - r.b.min(63) } else { r.a.abs_diff(r.b) };
            if d < site.best {
                site.best = d;
                site.case = Some(base.clone());
                site.tries = site.tries.saturating_sub(10);
            }
            site.tries += 1;
            if found {
                while want.len() > 8 {
                    want.swap_remove(self.rng.below(want.len()));
                }
                for w in want {
                    if self.queue.len() < 4000 {
                        site.tries += 1;
                        self.queue.push_back((base.clone(), w));
                    }
                }
            }
        }
        Ok(())
    }
    fn search(&mut self, budget: u64, until: Instant) -> Result<(), (String, Value)> {
        let seed: [u8; 32] = std::array::from_fn(|i| harness::rng::stream_byte(mix(self.o.seed ^ 0xc3b ^ (self.shard as u64) << 32), i));
        let mut runner = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let strat = self.p.strategy(self.o.tier);
        let fresh = |runner: &mut TestRunner| serde_json::to_value(strat.new_tree(runner).expect("a case").current()).unwrap();
        let directed = self.p.directed(Tier::Quick, self.o.seed);
        let directed: Vec<_> = directed.into_iter().filter(|c| !self.p.slow(c)).collect();
        for i in 0..40.min(directed.len()) {
            let n = directed.len();
            let c = &directed[(self.shard * 7919 + i * (n / 40).max(1) + self.o.seed as usize) % n];
            self.exec(serde_json::to_value(c).unwrap(), false)?;
        }
        drop(directed);
        while self.out.evaluations < budget && Instant::now() < until {
            let k = self.rng.below(8);
            if k < 5 && !self.queue.is_empty() {
                // newest first half of the time: chains of comparisons are followed to their end
                let c = if k % 2 == 0 { self.queue.pop_back() } else { self.queue.pop_front() };
                let (base, (l, p, new)) = c.unwrap();
                let (at, old) = &base.1 .0[l];
                let mut b = old.clone();
                b[p..p + new.len()].copy_from_slice(&new);
                self.exec(with(&base.0, at, &b), true)?;
            } else if k == 5 && !self.sites.is_empty() {
                let mut keys: Vec<u32> = self.sites.iter().filter(|(i, s)| s.case.is_some() && unsafe { cf_seen(**i) } & 0x82 == 0).map(|x| *x.0).collect();
                keys.sort_unstable();
                if keys.is_empty() {
                    continue;
                }
                let id = keys[self.rng.below(keys.len())];
                let site = self.sites.get_mut(&id).unwrap();
                let c = site.case.clone().unwrap();
                site.tries += 1;
                if let Some(v) = havoc(&c.0, &c.1, &mut self.rng) {
                    self.exec(v, true)?;
                }
            } else if k == 6 && !self.corpus.is_empty() {
                let i = self.rng.below(self.corpus.len());
                let c = self.corpus[i].clone();
                if let Some(v) = havoc(&c.0, &c.1, &mut self.rng) {
                    self.exec(v, true)?;
                }
            } else {
                let v = fresh(&mut runner);
                self.exec(v, false)?;
            }
        }
        Ok(())
    }
    /// Simpler cases that still fail
    fn shrink(&mut self, mut m: String, mut v: Value) -> (String, Value) {
        let end = Instant::now() + Duration::from_secs(20);
        let fails = |c: &Value| -> Option<String> {
            let c: P::Case = serde_json::from_value(c.clone()).ok()?;
            match guarded(self.p, &c, &mut Obs::default()) {
                Err(m) if !m.starts_with(HARNESS_BUG) => Some(m),
                _ => None,
            }
        };
        let mut l = vec![];
        leaves(&v, String::new(), &mut l);
        for (at, old) in l {
            let mut c = v.clone();
            *c.pointer_mut(&at).unwrap() = json!({"Fill": 0});
            if let Some(x) = fails(&c) {
                (m, v) = (x, c);
                continue;
            }
            let Some(h) = old.get("Hex").and_then(|h| h.as_str()) else { continue };
            let mut b = harness::gen::unhex(h);
            let mut w = b.len().next_power_of_two();
            while w >= 1 && Instant::now() < end {
                for p in (0..b.len()).step_by(w) {
                    let e = (p + w).min(b.len());
                    if b[p..e].iter().all(|x| *x == 0) {
                        continue;
                    }
                    let keep = b.clone();
                    b[p..e].fill(0);
                    let c = with(&v, &at, &b);
                    if let Some(x) = fails(&c) {
                        (m, v) = (x, c);
                    } else {
                        b = keep;
                    }
                    if Instant::now() > end {
                        break;
                    }
                }
                w /= 2;
            }
        }
        (m, v)
    }
}

fn run<P: Prop>(p: &P, o: &Opts, budget: u64, secs: u64) -> (Value, Option<(String, Value)>) {
    const SHARDS: usize = 8;
    let until = Instant::now() + Duration::from_secs(secs);
    let outs: Mutex<Vec<(usize, Out)>> = Mutex::new(vec![]);
    let slots: Vec<Slot> = (0..SHARDS).map(|_| Mutex::new(None)).collect();
    let done = AtomicBool::new(false);
    std::thread::scope(|sc| {
        sc.spawn(|| {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                for s in &slots {
                    if let Some((t, c)) = &*s.lock().unwrap() {
                        if t.elapsed() > Duration::from_secs(o.hang) {
                            let m = format!("a case did not finish within {} s", o.hang);
                            println!("FAILED {m}\n{c}");
                            if let Some(f) = &o.replay {
                                std::fs::write(f, serde_json::to_string_pretty(&engine::replay_json(o, P::ID, &m, c)).unwrap()).unwrap();
                            }
                            std::process::exit(engine::HUNG);
                        }
                    }
                }
            }
        });
        let hs: Vec<_> = (0..SHARDS)
            .filter(|s| o.only_shard.is_none_or(|x| x == *s))
            .map(|shard| {
                let (slot, outs) = (&slots[shard], &outs);
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, move || {
                        let mut s = Search {
                            p,
                            o,
                            shard,
                            slot,
                            trace: o.trace_dir.as_ref().map(|d| std::fs::File::create(format!("{d}/{shard}.json")).unwrap()),
                            rng: Rng(mix(o.seed ^ 0x5eed ^ shard as u64)),
                            out: Out::default(),
                            corpus: vec![],
                            queue: VecDeque::new(),
                            sites: HashMap::new(),
                        };
                        let r = s.search(budget / SHARDS as u64, until);
                        // SAFETY: as above
                        for i in 0..65536 {
                            let x = unsafe { cf_seen(i) } & 7;
                            s.out.sites += (x != 0) as u64;
                            s.out.both += (x & 2 != 0 && x & 5 != 0) as u64;
                        }
                        s.out.comparisons = unsafe { cf_total() };
                        if let Err((m, v)) = r {
                            s.out.failure = Some(if m.starts_with(HARNESS_BUG) { (m, v) } else { s.shrink(m, v) });
                        }
                        outs.lock().unwrap().push((shard, s.out));
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, Ordering::SeqCst);
    });
    let mut outs = outs.into_inner().unwrap();
    outs.sort_by_key(|x| x.0);
    let mut t = Out::default();
    for (_, x) in outs {
        t.evaluations += x.evaluations;
        t.guided += x.guided;
        t.comparisons += x.comparisons;
        t.given_up = t.given_up.max(x.given_up);
        t.sites = t.sites.max(x.sites);
        t.both = t.both.max(x.both);
        t.distinct.extend(x.distinct);
        t.samples.extend(x.samples);
        for (k, v) in x.labels {
            *t.labels.entry(k).or_default() += v;
        }
        if let Some(f) = x.failure {
            if t.failure.is_none() || f.0.starts_with(HARNESS_BUG) {
                t.failure = Some(f);
            }
        }
    }
    t.samples.truncate(2);
    let v = json!({
        "evaluations": t.evaluations,
        "executions_inside_cases": 0,
        "cases_made_from_comparisons": t.guided,
        "comparisons_observed": t.comparisons,
        "comparison_sites": t.sites,
        "comparison_sites_seen_equal_and_unequal": t.both,
        "comparison_sites_given_up": t.given_up,
        "distinct_nontrivial": t.distinct.len(),
        "classes": t.labels,
        "samples": t.samples,
    });
    (v, t.failure)
}

macro_rules! registry {
    ($($id:literal => $p:expr),* $(,)?) => {
        fn go(id: &str, crash: bool, o: &Opts, budget: u64, secs: u64) -> (Value, Option<(String, Value)>) {
            match (id, crash) {
                $(($id, false) => run(&$p, o, budget, secs), ($id, true) => run(&CrashOnly($p), o, budget, secs),)*
                _ => usage(),
            }
        }
    };
}
use harness::props::*;
registry! {
    "C01" => mlkem::C01, "C02" => mlkem::C02, "C03" => mlkem::C03, "C04" => mlkem::C04, "C05" => mlkem::C05,
    "C06" => mlkem::C06, "C07" => mlkem::C07, "C08" => randomness::C08, "C09" => histories::C09, "C11" => xwing::C11,
    "C12" => xwing::C12, "C13" => xwing::C13, "C14" => xwing::C14, "C15" => dh::C15, "C16" => dh::C16, "C17" => dh::C17,
    "C18" => memory::C18,
    "C22" => resources::C22,
}
fn usage() -> ! {
    eprintln!("usage: cmpfuzz run|crash ID --seed N --tier quick|thorough --out FILE --replay FILE [--execs N] [--secs N] [--trace DIR] [--shard N]");
    std::process::exit(2)
}
fn main() {
    engine::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let num = |n: &str, d: u64| opt(n).map(|s| s.parse().expect("a number")).unwrap_or(d);
    let (Some(mode @ ("run" | "crash")), Some(id)) = (a.get(1).map(String::as_str), a.get(2)) else { usage() };
    let crash = mode == "crash";
    let tier = if opt("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let o = Opts {
        tier,
        seed: num("--seed", 1),
        trace_dir: opt("--trace"),
        only_shard: opt("--shard").map(|s| s.parse().unwrap()),
        scale: 100,
        threads: 8,
        hang: 120,
        replay: opt("--replay"),
        report_as: crash.then(|| "C10".to_string()),
    };
    let (ev, fail) = go(id, crash, &o, num("--execs", u64::MAX), num("--secs", 20));
    match opt("--out") {
        Some(f) => std::fs::write(f, serde_json::to_string_pretty(&ev).unwrap()).unwrap(),
        None => println!("{}", serde_json::to_string_pretty(&ev).unwrap()),
    }
    if let Some((m, c)) = fail {
        if m.starts_with(HARNESS_BUG) {
            eprintln!("{m}\n{c}");
            std::process::exit(3);
        }
        if let Some(p) = &o.replay {
            std::fs::write(p, serde_json::to_string_pretty(&engine::replay_json(&o, id, &m, &c)).unwrap()).unwrap();
        }
        println!("FAILED {m}\n{c}");
        std::process::exit(1);
    }
}
