//! C08: all randomness comes from the caller's generator and is used once.
use super::dh::{scalar, Scalar};
use super::xwing::{point, Point};
use crate::engine::{Obs, Prop, Tier};
use crate::gen::*;
use crate::osrand::{with_os_random, Faults};
use crate::rng::{mix, ScriptRng};
use crate::sut::{dh_suite, suite, xw};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use refmodel::{mlkem as rf, x25519 as r25, xwing as rx};
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct C08;
/// What a rejected scalar draw looks like
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad {
    Zero,
    /// n + k
    Above(u8),
    Max,
    /// top bytes at the maximum, the rest pseudo-random (invalid for the curves where that exceeds n)
    High(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Draw {
    MlGen { ps: u8, d: Bytes, z: Bytes },
    MlEnc { ps: u8, key: u8, m: Bytes },
    /// entry 0 generate_key_pair, 1 DecapsulationKey::generate
    XGen { sk: Bytes, entry: u8 },
    XEnc { key: u8, m: Bytes, ex: Bytes },
    DhGen { kem: u8, bad: Vec<Bad>, k: Scalar },
    DhEnc { kem: u8, key: Scalar, bad: Vec<Bad>, k: Scalar },
    /// encapsulation to a special X25519 value
    X25519Enc { p: Point, k: Bytes },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C08Case {
    /// several calls sharing one generator
    Seq { ops: Vec<Draw>, tail: u64 },
    /// one drawn byte, or a byte after the drawn ones, changed
    Sens { op: Draw, tail: u64, pos: u16, xor: u8, beyond: bool },
    /// X-Wing key generation from the operating system's generator: (its bytes, entry point) of each call; it returns
    /// at most `most` bytes at a time and every `interrupt`-th call is interrupted
    Os { keys: Vec<(Bytes, u8)>, most: u8, interrupt: u8 },
    /// the caller's generator fails after that many bytes
    Fail { op: Draw, after: u8 },
    /// the operating system's generator does
    OsFail { entry: u8, after: u8 },
}
impl Bad {
    fn get(&self, c: &refmodel::ec::Curve) -> Option<Vec<u8>> {
        let mut n = c.n_be();
        match self {
            Bad::Zero => return Some(vec![0; c.len]),
            Bad::Max => return Some(vec![0xff; c.len]),
            Bad::Above(k) => {
                let mut add = *k as u16;
                for b in n.iter_mut().rev() {
                    add += *b as u16;
                    *b = add as u8;
                    add >>= 8;
                }
            }
            Bad::High(s) => {
                let h = if c.len == 66 { 2 } else { c.len / 2 };
                let b = Bytes::seeded(*s).get(c.len);
                n[..h].fill(0xff);
                n[h..].copy_from_slice(&b[h..]);
            }
        }
        (!c.valid_scalar(&n)).then_some(n)
    }
}
impl Draw {
    /// the bytes the call must consume
    fn chunk(&self) -> Vec<u8> {
        let ec = |kem: u8, bad: &[Bad], k: &Scalar| match dh_suite(kem).curve() {
            None => k.get(refmodel::ec::p256()),
            Some(c) => {
                let mut v: Vec<u8> = bad.iter().filter_map(|b| b.get(c)).flatten().collect();
                v.extend(k.get(c));
                v
            }
        };
        match self {
            Draw::MlGen { d, z, .. } => [d.b32(), z.b32()].concat(),
            Draw::MlEnc { m, .. } => m.get(32),
            Draw::XGen { sk, .. } => sk.get(32),
            Draw::XEnc { m, ex, .. } => [m.b32(), ex.b32()].concat(),
            Draw::DhGen { kem, bad, k } => ec(*kem, bad, k),
            Draw::DhEnc { kem, bad, k, .. } => ec(*kem, bad, k),
            Draw::X25519Enc { k, .. } => k.get(32),
        }
    }
    /// the result of the call, as bytes
    fn run(&self, rng: &mut ScriptRng) -> Result<Vec<u8>, String> {
        Ok(match self {
            Draw::MlGen { ps, .. } => {
                let (dk, ek) = suite(*ps).gen(rng);
                [dk.bytes(), ek.bytes()].concat()
            }
            Draw::MlEnc { ps, key, .. } => {
                let s = suite(*ps);
                let (c, k) = s.ek(&honest(*ps, *key)).encaps(rng)?;
                [c, k.to_vec()].concat()
            }
            Draw::XGen { entry: 0, .. } => {
                let (dk, ek) = x_wing::generate_key_pair(rng);
                [dk.as_bytes().to_vec(), ek.as_bytes().to_vec()].concat()
            }
            Draw::XGen { .. } => {
                let dk = xw::DecapsulationKey::generate(rng);
                [dk.as_bytes().to_vec(), dk.encapsulation_key().as_bytes().to_vec()].concat()
            }
            Draw::XEnc { key, .. } => {
                let (c, k) = xw::encaps(&xw::ek(&rx::public(&[*key; 32])), rng)?;
                [c.as_bytes().to_vec(), k.to_vec()].concat()
            }
            Draw::DhGen { kem, .. } => {
                let (dk, ek) = dh_suite(*kem).keypair(rng);
                [dk.public(), ek.bytes()].concat()
            }
            Draw::DhEnc { kem, key, .. } => {
                let s = dh_suite(*kem);
                let (c, k) = s.ek(&dh_public(*kem, key)).expect("a point").encaps(rng)?;
                [c, k].concat()
            }
            Draw::X25519Enc { p, k } => {
                let (c, k) = dh_suite(4).ek(&p.get_for(&k.b32())).expect("32 bytes").encaps(rng)?;
                [c, k].concat()
            }
        })
    }
    /// what the model says the result is
    fn model(&self) -> Vec<u8> {
        let ch = self.chunk();
        match self {
            Draw::MlGen { ps, d, z } => {
                let (ek, dk) = rf::keygen(suite(*ps).p(), &d.b32(), &z.b32());
                [dk, ek].concat()
            }
            Draw::MlEnc { ps, key, m } => {
                let (c, k) = rf::encaps(suite(*ps).p(), &honest(*ps, *key), &m.b32());
                [c, k.to_vec()].concat()
            }
            Draw::XGen { sk, .. } => [sk.get(32), rx::public(&sk.b32())].concat(),
            Draw::XEnc { key, .. } => {
                let (c, k) = rx::encaps(&rx::public(&[*key; 32]), &ch.try_into().unwrap());
                [c, k.to_vec()].concat()
            }
            Draw::DhGen { kem, k, .. } => match dh_suite(*kem).curve() {
                None => {
                    let p = r25::base(&ch.try_into().unwrap());
                    [p, p].concat()
                }
                Some(c) => {
                    let p = c.public(&k.get(c));
                    [p.clone(), p].concat()
                }
            },
            Draw::DhEnc { kem, key, k, .. } => {
                let p = dh_public(*kem, key);
                match dh_suite(*kem).curve() {
                    None => {
                        let e: [u8; 32] = ch.try_into().unwrap();
                        [r25::base(&e), r25::x25519(&e, &p.try_into().unwrap())].concat()
                    }
                    Some(c) => {
                        let e = k.get(c);
                        [c.public(&e), c.dh(&e, &p)].concat()
                    }
                }
            }
            Draw::X25519Enc { p, k } => [r25::base(&k.b32()), r25::x25519(&k.b32(), &p.get_for(&k.b32()))].concat(),
        }
    }
    fn label(&self) -> &'static str {
        match self {
            Draw::MlGen { .. } => "ML-KEM key generation",
            Draw::MlEnc { .. } => "ML-KEM encapsulation",
            Draw::XGen { .. } => "X-Wing key generation",
            Draw::XEnc { .. } => "X-Wing encapsulation",
            Draw::DhGen { kem, bad, .. } if kem % 5 != 4 && !bad.is_empty() => "DH key generation with redraws",
            Draw::DhGen { .. } => "DH key generation",
            Draw::DhEnc { kem, bad, .. } if kem % 5 != 4 && !bad.is_empty() => "DH encapsulation with redraws",
            Draw::DhEnc { .. } => "DH encapsulation",
            Draw::X25519Enc { .. } => "X25519 encapsulation to a special value",
        }
    }
    fn x25519_at(&self) -> Option<usize> {
        match self {
            Draw::XEnc { .. } => Some(32),
            Draw::DhGen { kem, .. } | Draw::DhEnc { kem, .. } if kem % 5 == 4 => Some(0),
            _ => None,
        }
    }
}
fn os_generate(entry: u8) -> (Vec<u8>, Vec<u8>) {
    if entry % 2 == 0 {
        let (dk, ek) = x_wing::generate_key_pair_from_os_rng();
        (dk.as_bytes().to_vec(), ek.as_bytes().to_vec())
    } else {
        let dk = xw::DecapsulationKey::generate_from_os_rng();
        (dk.as_bytes().to_vec(), dk.encapsulation_key().as_bytes().to_vec())
    }
}
fn honest(ps: u8, key: u8) -> Vec<u8> {
    rf::keygen(suite(ps).p(), &[key; 32], &[0; 32]).0
}
fn dh_public(kem: u8, key: &Scalar) -> Vec<u8> {
    match dh_suite(kem).curve() {
        None => r25::base(&key.get(refmodel::ec::p256()).try_into().unwrap()).to_vec(),
        Some(c) => c.public(&key.get(c)),
    }
}
fn bad() -> BoxedStrategy<Vec<Bad>> {
    let one = prop_oneof![Just(Bad::Zero), any::<u8>().prop_map(Bad::Above), Just(Bad::Max), any::<u64>().prop_map(Bad::High)];
    prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(one, 1..5)].boxed()
}
fn draw() -> BoxedStrategy<Draw> {
    prop_oneof![
        3 => (ps(), bytes(), bytes()).prop_map(|(ps, d, z)| Draw::MlGen { ps, d, z }),
        3 => (ps(), 0u8..4, bytes()).prop_map(|(ps, key, m)| Draw::MlEnc { ps, key, m }),
        2 => (bytes(), 0u8..2).prop_map(|(sk, entry)| Draw::XGen { sk, entry }),
        2 => (0u8..4, bytes(), bytes()).prop_map(|(key, m, ex)| Draw::XEnc { key, m, ex }),
        3 => (0u8..5, bad(), scalar()).prop_map(|(kem, bad, k)| Draw::DhGen { kem, bad, k }),
        3 => (0u8..5, scalar(), bad(), scalar()).prop_map(|(kem, key, bad, k)| Draw::DhEnc { kem, key, bad, k }),
        1 => (point(), bytes()).prop_map(|(p, k)| Draw::X25519Enc { p, k }),
    ]
    .boxed()
}
impl Prop for C08 {
    type Case = C08Case;
    const ID: &'static str = "C08";
    const RULE: &'static str = "A case is a sequence of 1-6 generating or encapsulating calls (three ML-KEM sets, X-Wing, five DH KEMs) sharing one scripted generator whose every byte the check knows (including invalid scalars: zero, n, n+k, all ones, high values), or one call with one drawn byte, or one byte beyond the drawn ones, changed. Oracle: the exact number of bytes consumed after each call, and the model's result for exactly those bytes; for changes, the result differs for drawn bytes carrying entropy and is unchanged otherwise. X-Wing key generation from the operating system's generator is decided the same way, with that generator's output scripted, in pieces and with interruptions. Generators that fail after n bytes, for every n: the call must not return a result. Systematic: every drawn byte position of every call. Non-trivial: every case.";
    fn directed(&self, t: Tier, seed: u64) -> Vec<C08Case> {
        let mut v = vec![];
        let b = |x: u64| Bytes::seeded(seed ^ x);
        let sc = |x: u64| Scalar::B(Bytes::seeded(seed ^ x));
        let mut ops = vec![];
        for ps in 0..3 {
            ops.push(Draw::MlGen { ps, d: b(1), z: b(2) });
            ops.push(Draw::MlEnc { ps, key: 1, m: b(3) });
        }
        for entry in 0..2 {
            ops.push(Draw::XGen { sk: b(4), entry });
        }
        ops.push(Draw::XEnc { key: 2, m: b(5), ex: b(6) });
        for kem in 0..5 {
            ops.push(Draw::DhGen { kem, bad: vec![], k: sc(7) });
            ops.push(Draw::DhEnc { kem, key: sc(8), bad: vec![], k: sc(9) });
        }
        for op in &ops {
            let n = op.chunk().len();
            for pos in 0..n as u16 {
                for bit in 0..if t == Tier::Quick { 4 } else { 8 } {
                    v.push(C08Case::Sens { op: op.clone(), tail: seed, pos, xor: 1 << (bit * 2 % 8 + bit / 4), beyond: false });
                }
                v.push(C08Case::Sens { op: op.clone(), tail: seed, pos, xor: 0xff, beyond: true });
            }
            for after in 0..=n as u8 {
                v.push(C08Case::Fail { op: op.clone(), after });
            }
            // the same call three times: fresh bytes each time
            v.push(C08Case::Seq { ops: vec![op.clone(), op.clone(), op.clone()], tail: seed });
        }
        for a in &ops {
            for c in &ops {
                v.push(C08Case::Seq { ops: vec![a.clone(), c.clone(), a.clone()], tail: seed });
            }
        }
        for kem in 0..4 {
            for bads in [vec![Bad::Zero], vec![Bad::Above(0)], vec![Bad::Above(1)], vec![Bad::Max], vec![Bad::Zero, Bad::Above(0), Bad::Max, Bad::Zero], vec![Bad::Max; 20]] {
                v.push(C08Case::Seq { ops: vec![Draw::DhGen { kem, bad: bads.clone(), k: sc(10) }, Draw::DhGen { kem, bad: vec![], k: sc(11) }], tail: seed });
                v.push(C08Case::Seq { ops: vec![Draw::DhEnc { kem, key: sc(12), bad: bads.clone(), k: sc(10) }, Draw::DhGen { kem, bad: vec![], k: sc(11) }], tail: seed });
            }
            for i in 0..20 {
                v.push(C08Case::Seq { ops: vec![Draw::DhGen { kem, bad: vec![], k: Scalar::NearN(i) }, Draw::DhEnc { kem, key: sc(1), bad: vec![], k: Scalar::Small(i + 1) }], tail: seed });
            }
        }
        // structured draws
        for (i, x) in special32().into_iter().enumerate() {
            let ps = (i % 3) as u8;
            v.push(C08Case::Seq {
                ops: vec![
                    Draw::MlGen { ps, d: x.clone(), z: x.clone() },
                    Draw::MlEnc { ps, key: 0, m: x.clone() },
                    Draw::XGen { sk: x.clone(), entry: ps % 2 },
                    Draw::XEnc { key: 1, m: x.clone(), ex: x.clone() },
                    Draw::X25519Enc { p: Point::B(x.clone()), k: x },
                ],
                tail: seed,
            });
        }
        for entry in 0..2 {
            for after in 0..33 {
                v.push(C08Case::OsFail { entry, after });
            }
        }
        for (i, x) in special32().into_iter().chain(one_hot_random(32, seed, 8)).enumerate() {
            let i = i as u64;
            v.push(C08Case::Os {
                keys: vec![(x.clone(), (i % 2) as u8), (x, (i + 1) as u8 % 2), (b(i), (mix(i) % 2) as u8)],
                most: (i % 5 * 7) as u8,
                interrupt: (i / 5 % 4 * 2) as u8,
            });
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<C08Case> {
        prop_oneof![
            3 => (prop::collection::vec(draw(), 1..7), any::<u64>()).prop_map(|(ops, tail)| C08Case::Seq { ops, tail }),
            2 => (draw(), any::<u64>(), any::<u16>(), any::<u8>(), any::<bool>()).prop_map(|(op, tail, pos, xor, beyond)| C08Case::Sens { op, tail, pos, xor, beyond }),
            1 => (prop::collection::vec((bytes(), 0u8..2), 1..7), prop_oneof![Just(0u8), 1u8..80], prop_oneof![Just(0u8), 2u8..9])
                .prop_map(|(keys, most, interrupt)| C08Case::Os { keys, most, interrupt }),
            1 => (draw(), any::<u8>()).prop_map(|(op, after)| C08Case::Fail { op, after }),
        ]
        .boxed()
    }
    fn random_cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 40_000 } else { 500_000 }
    }
    fn check(&self, c: &C08Case, o: &mut Obs) -> Result<(), String> {
        o.nontrivial();
        match c {
            C08Case::Seq { ops, tail } => {
                o.label("sequence sharing one generator");
                let script: Vec<u8> = ops.iter().flat_map(|d| d.chunk()).collect();
                let mut rng = ScriptRng::new(script, *tail);
                let mut off = 0;
                for (i, d) in ops.iter().enumerate() {
                    o.label(d.label());
                    o.add(1);
                    let got = d.run(&mut rng)?;
                    off += d.chunk().len();
                    if rng.used != off {
                        return Err(format!("call {i} ({}) consumed {} bytes of the generator instead of {}", d.label(), rng.used as i64 - (off - d.chunk().len()) as i64, d.chunk().len()));
                    }
                    diff(&format!("result of call {i} ({})", d.label()), &got, &d.model())?;
                }
                Ok(())
            }
            C08Case::Fail { op, after } => {
                let chunk = op.chunk();
                let n = *after as usize % (chunk.len() + 1);
                let mut rng = ScriptRng::failing(chunk.clone(), n);
                let got = catch_unwind(AssertUnwindSafe(|| op.run(&mut rng)));
                if n == chunk.len() {
                    o.label("generator with exactly enough bytes");
                    return match got {
                        Ok(r) => diff(&format!("result of {} with exactly enough bytes", op.label()), &r?, &op.model()),
                        Err(_) => Err(format!("{} asked for more than the {n} bytes it needs", op.label())),
                    };
                }
                o.label("generator that fails");
                match got {
                    Ok(Ok(_)) => Err(format!("{} returned a result although the generator failed after {n} of {} bytes", op.label(), chunk.len())),
                    _ => Ok(()),
                }
            }
            C08Case::OsFail { entry, after } => {
                let script = Bytes::seeded(*after as u64).get(64);
                let faults = Faults { fail_after: Some(*after as usize % 33), ..Faults::default() };
                let ((a, b), used) = with_os_random(&script, faults, || {
                    let call = || catch_unwind(|| os_generate(*entry)).ok();
                    (call(), call())
                });
                o.add(1);
                if *after % 33 == 32 {
                    o.label("operating system's generator with exactly enough bytes");
                    if used > 0 && a.is_none() {
                        return Err("X-Wing key generation asked the operating system for more than 32 bytes".into());
                    }
                    return Ok(());
                }
                o.label("operating system's generator that fails");
                // taking the bytes from somewhere else is fine, going on without them is not
                let blank = |k: &[u8]| (0..32).any(|i| (1..12).all(|j| k[(i + j) % 32] == k[i]));
                match (a, b) {
                    (Some(x), _) | (_, Some(x)) if blank(&x.0) => Err(format!("X-Wing key generation went on with blank bytes when the operating system's generator failed: {}", hex(&x.0))),
                    (Some(x), Some(y)) if x.0 == y.0 => Err("X-Wing key generation repeats a key when the operating system's generator fails".into()),
                    _ => Ok(()),
                }
            }
            C08Case::Os { keys, most, interrupt } => {
                o.label("X-Wing key generation from the operating system's generator");
                if *most > 0 {
                    o.label("operating system's generator returns few bytes at a time");
                }
                if *interrupt > 0 {
                    o.label("operating system's generator is interrupted");
                }
                let script: Vec<u8> = keys.iter().flat_map(|k| k.0.get(32)).collect();
                // interrupting every call would never end
                let faults = Faults { most: *most as usize, interrupt: if *interrupt == 1 { 2 } else { *interrupt as u32 }, fail_after: None };
                let (got, used) =
                    with_os_random(&script, faults, || catch_unwind(|| keys.iter().map(|(_, entry)| os_generate(*entry)).collect::<Vec<_>>()));
                let Ok(got) = got else { return Err("X-Wing key generation panicked although the operating system's generator works".into()) };
                o.add(keys.len() as u64);
                if used == 0 {
                    // its bytes come some other way: at least no two keys may be equal
                    o.label("operating system's generator not observed");
                    for i in 0..got.len() {
                        if got[..i].iter().any(|x| x.0 == got[i].0) || got[i].0.iter().all(|x| *x == got[i].0[0]) {
                            return Err("keys from the operating system's generator repeat".into());
                        }
                        diff("public key", &got[i].1, &rx::public(&got[i].0.clone().try_into().unwrap()))?;
                    }
                    return Ok(());
                }
                if used != script.len() {
                    return Err(format!("{} key generations took {used} bytes of the operating system's generator", keys.len()));
                }
                for (i, (sk, pk)) in got.iter().enumerate() {
                    diff(&format!("secret key of call {i}"), sk, &keys[i].0.get(32))?;
                    diff(&format!("public key of call {i}"), pk, &rx::public(&keys[i].0.b32()))?;
                }
                Ok(())
            }
            C08Case::Sens { op, tail, pos, xor, beyond } => {
                let chunk = op.chunk();
                let n = chunk.len();
                let mut r1 = ScriptRng::new(chunk.clone(), *tail);
                let mut script = r1.range(0, n + 128);
                let at = if *beyond { n + *pos as usize % 128 } else { *pos as usize % n };
                script[at] ^= (*xor).max(1);
                let mut r2 = ScriptRng::new(script.clone(), *tail);
                let a = op.run(&mut r1)?;
                let b = op.run(&mut r2)?;
                if *beyond {
                    o.label("byte after the drawn ones changed");
                    return diff(&format!("result of {} after a change beyond the drawn bytes", op.label()), &b, &a);
                }
                o.label("drawn byte changed");
                if let Draw::DhGen { kem, bad, .. } | Draw::DhEnc { kem, bad, .. } = op {
                    // a change may turn a scalar into an invalid or another attempt into a valid one
                    if let Some(cv) = dh_suite(*kem).curve() {
                        if !bad.is_empty() || !cv.valid_scalar(&script[..cv.len]) {
                            o.label("change affects the validity of a scalar (skipped)");
                            return Ok(());
                        }
                    }
                }
                if let Draw::X25519Enc { .. } = op {
                    return Ok(());
                }
                if let Some(x) = op.x25519_at() {
                    // clamped bits carry no entropy
                    let mask = match at as i64 - x as i64 {
                        0 => 0xf8,
                        31 => 0x3f,
                        _ => 0xff,
                    };
                    if (*xor).max(1) & mask == 0 {
                        o.label("clamped bit changed");
                        return diff(&format!("result of {} after a change of clamped bits", op.label()), &b, &a);
                    }
                }
                if a == b {
                    return Err(format!("{}: byte {at} of the generator output has no influence", op.label()));
                }
                Ok(())
            }
        }
    }
}
