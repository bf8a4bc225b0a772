//! C09: stateful, model-based histories over all three crates, repetition, and shared keys across threads.
use super::dh::{scalar, Scalar};
use super::xwing::{point, Point};
use crate::engine::{Obs, Prop, Tier};
use crate::gen::*;
use crate::rng::{mix, ScriptRng};
use crate::sut::{dh_suite, suite, xw, DhDk, DhEk, Dk, Ek};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use refmodel::{mlkem as rf, x25519 as r25, xwing as rx};
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Barrier;

/// Seeds from a small family of near-identical values, so that a confusion between keys shows
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Near {
    base: u8,
    pos: u8,
    val: u8,
}
impl Near {
    fn get(&self) -> [u8; 32] {
        let mut b = Bytes::seeded(self.base as u64 % 3).b32();
        b[self.pos as usize % 32] ^= self.val % 4;
        b
    }
}
fn near() -> BoxedStrategy<Near> {
    (0u8..3, 0u8..32, 0u8..4).prop_map(|(base, pos, val)| Near { base, pos, val }).boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Gen { ps: u8, d: Near, z: Near, rng: bool },
    /// parse the encoding of live key `k` after changes (reduced by the code under test)
    ParseDk { k: u8, muts: Vec<Mut> },
    ParseEk { k: u8, muts: Vec<Mut> },
    CloneDk { k: u8 },
    DropKey { k: u8 },
    Encaps { k: u8, m: Near, rng: bool },
    /// through the encapsulation key exposed by the decapsulation key
    EncapsVia { k: u8, m: Near },
    Decaps { k: u8, c: u8, muts: Vec<Mut> },
    Bytes { k: u8 },
    Compare { a: u8, b: u8 },
    XGen { sk: Near },
    XEncaps { k: u8, m: Near, ex: Near },
    XDecaps { k: u8, c: u8, muts: Vec<Mut> },
    XPoint { k: u8, c: u8, p: Point },
    DhGen { kem: u8, a: Scalar },
    DhEncaps { k: u8, e: Scalar },
    DhDecaps { k: u8, c: u8 },
    /// a call whose generator fails after `after` bytes; what it does is C08's concern, later calls must not notice
    Abort { what: u8, k: u8, after: u8 },
    /// do the previous operation this many more times
    Again(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Plain {
    Gen { ps: u8 },
    Encaps { ps: u8 },
    Decaps { ps: u8, reject: bool },
    Parse { ps: u8 },
    XGen,
    XEncaps,
    XDecaps,
    DhGen { kem: u8 },
    DhEncaps { kem: u8 },
    DhDecaps { kem: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C09Case {
    History(Vec<Op>),
    /// one operation many times with the same inputs
    Repeat { op: Plain, n: u32, seed: u64 },
    /// `n` keys made one after another, then all of them used in another order
    Many { n: u16, seed: u64 },
    /// several keys used by several threads at once
    Threads { ps: u8, seeds: Vec<Near>, threads: u8, rounds: u8, seed: u64 },
    /// any operations, each with its own inputs, in several threads at once
    Together { jobs: Vec<(Plain, u64)>, threads: u8, rounds: u8 },
}
pub struct C09;

struct MlDk {
    ps: u8,
    enc: Vec<u8>,
    obj: Dk,
}
struct MlEk {
    ps: u8,
    enc: Vec<u8>,
    /// hash of the encoding, or the stored hash of the decapsulation key it was taken from
    obj: Ek,
}
#[derive(Default)]
struct World {
    dks: Vec<MlDk>,
    eks: Vec<MlEk>,
    cts: Vec<(u8, Vec<u8>)>,
    xks: Vec<([u8; 32], xw::DecapsulationKey, xw::EncapsulationKey)>,
    xcs: Vec<Vec<u8>>,
    dhs: Vec<(u8, Vec<u8>, Box<dyn DhDk>, Box<dyn DhEk>)>,
    dcs: Vec<(u8, Vec<u8>)>,
}
fn pick<T>(v: &[T], i: u8) -> Option<&T> {
    if v.is_empty() {
        None
    } else {
        Some(&v[i as usize % v.len()])
    }
}
impl World {
    /// returns false when the operation does not apply in this state
    fn step(&mut self, op: &Op) -> Result<bool, String> {
        match op {
            Op::Gen { ps, d, z, rng } => {
                let s = suite(*ps);
                let (d, z) = (d.get(), z.get());
                let (ek, dk) = rf::keygen(s.p(), &d, &z);
                let (gd, ge) = if *rng { s.gen(&mut ScriptRng::of(&[&d, &z])) } else { s.gen_det(&d, &z) };
                diff("generated decapsulation key", &gd.bytes(), &dk)?;
                diff("generated encapsulation key", &ge.bytes(), &ek)?;
                self.dks.push(MlDk { ps: *ps % 3, enc: dk, obj: gd });
                self.eks.push(MlEk { ps: *ps % 3, enc: ek, obj: ge });
            }
            Op::ParseDk { k, muts } => {
                let Some(x) = pick(&self.dks, *k) else { return Ok(false) };
                let s = suite(x.ps);
                let mut b = x.obj.bytes();
                apply(muts, &mut b);
                let canon = rf::canon_dk(s.p(), &b);
                let obj = s.dk(&b);
                diff("parsed decapsulation key", &obj.bytes(), &canon)?;
                let ps = x.ps;
                self.dks.push(MlDk { ps, enc: canon, obj });
            }
            Op::ParseEk { k, muts } => {
                let Some(x) = pick(&self.eks, *k) else { return Ok(false) };
                let s = suite(x.ps);
                let mut b = x.obj.bytes();
                apply(muts, &mut b);
                let canon = rf::canon_ek(s.p(), &b);
                let obj = s.ek(&b);
                diff("parsed encapsulation key", &obj.bytes(), &canon)?;
                let ps = x.ps;
                self.eks.push(MlEk { ps, enc: canon, obj });
            }
            Op::CloneDk { k } => {
                let Some(x) = pick(&self.dks, *k) else { return Ok(false) };
                let n = MlDk { ps: x.ps, enc: x.enc.clone(), obj: x.obj.dup() };
                self.dks.push(n);
            }
            Op::DropKey { k } => {
                if self.dks.len() < 2 {
                    return Ok(false);
                }
                let i = *k as usize % self.dks.len();
                self.dks.swap_remove(i);
            }
            Op::Encaps { k, m, rng } => {
                let Some(x) = pick(&self.eks, *k) else { return Ok(false) };
                let m = m.get();
                let (c, key) = rf::encaps(suite(x.ps).p(), &x.enc, &m);
                let (gc, gk) = if *rng { x.obj.encaps(&mut ScriptRng::of(&[&m]))? } else { x.obj.encaps_det(&m)? };
                diff("ciphertext", &gc, &c)?;
                diff("shared key", &gk, &key)?;
                let ps = x.ps;
                self.cts.push((ps, c));
            }
            Op::EncapsVia { k, m } => {
                let Some(x) = pick(&self.dks, *k) else { return Ok(false) };
                let p = suite(x.ps).p();
                let f = rf::split_dk(p, &x.enc);
                if f.h != refmodel::keccak::sha3_256(&[f.ek]) {
                    return Ok(false);
                }
                let m = m.get();
                let (c, key) = rf::encaps(p, f.ek, &m);
                let (gc, gk) = x.obj.ek().encaps_det(&m)?;
                diff("ciphertext of the exposed key", &gc, &c)?;
                diff("shared key of the exposed key", &gk, &key)?;
                let ps = x.ps;
                self.cts.push((ps, c));
            }
            Op::Decaps { k, c, muts } => {
                let Some(x) = pick(&self.dks, *k) else { return Ok(false) };
                let same: Vec<&(u8, Vec<u8>)> = self.cts.iter().filter(|t| t.0 == x.ps).collect();
                let Some(ct) = pick(&same, *c) else { return Ok(false) };
                let mut ct = ct.1.clone();
                apply(muts, &mut ct);
                let want = rf::decaps(suite(x.ps).p(), &x.enc, &ct);
                diff(if want.accepted { "decapsulation (accept)" } else { "decapsulation (reject)" }, &x.obj.decaps(&ct)?, &want.key)?;
            }
            Op::Bytes { k } => {
                let Some(x) = pick(&self.dks, *k) else { return Ok(false) };
                diff("decapsulation key encoding", &x.obj.bytes(), &x.enc)?;
                diff("exposed key encoding", &x.obj.ek().bytes(), rf::split_dk(suite(x.ps).p(), &x.enc).ek)?;
                if let Some(e) = pick(&self.eks, *k) {
                    diff("encapsulation key encoding", &e.obj.bytes(), &e.enc)?;
                }
            }
            Op::Compare { a, b } => {
                let (Some(x), Some(y)) = (pick(&self.dks, *a), pick(&self.dks, *b)) else { return Ok(false) };
                if x.ps != y.ps {
                    return Ok(false);
                }
                if x.obj.same(&*y.obj) != (x.enc == y.enc) {
                    return Err("decapsulation key equality disagrees with the encodings".into());
                }
            }
            Op::XGen { sk } => {
                let sk = sk.get();
                let (d, e) = x_wing::generate_key_pair(&mut ScriptRng::of(&[&sk]));
                diff("X-Wing public key", &e.as_bytes(), &rx::public(&sk))?;
                self.xks.push((sk, d, e));
            }
            Op::XEncaps { k, m, ex } => {
                let Some(x) = pick(&self.xks, *k) else { return Ok(false) };
                let es: [u8; 64] = [m.get(), ex.get()].concat().try_into().unwrap();
                let (c, ss) = rx::encaps(&rx::public(&x.0), &es);
                let (gc, gs) = xw::encaps(&x.2, &mut ScriptRng::of(&[&es]))?;
                diff("X-Wing ciphertext", &gc.as_bytes(), &c)?;
                diff("X-Wing secret", &gs, &ss)?;
                self.xcs.push(c);
            }
            Op::XDecaps { k, c, muts } => {
                let (Some(x), Some(ct)) = (pick(&self.xks, *k), pick(&self.xcs, *c)) else { return Ok(false) };
                let mut ct = ct.clone();
                apply(muts, &mut ct);
                diff("X-Wing decapsulation", &xw::decaps(&x.1, &xw::ct(&ct))?, &rx::decaps(&x.0, &ct).ss)?;
            }
            Op::XPoint { k, c, p } => {
                let (Some(x), Some(ct)) = (pick(&self.xks, *k), pick(&self.xcs, *c)) else { return Ok(false) };
                let mut ct = ct.clone();
                ct[1088..].copy_from_slice(&p.get());
                diff("X-Wing decapsulation", &xw::decaps(&x.1, &xw::ct(&ct))?, &rx::decaps(&x.0, &ct).ss)?;
            }
            Op::DhGen { kem, a } => {
                let s = dh_suite(*kem);
                let (a, p) = match s.curve() {
                    None => {
                        let a = a.get(refmodel::ec::p256());
                        let p = r25::base(&a.clone().try_into().unwrap()).to_vec();
                        (a, p)
                    }
                    Some(c) => {
                        let a = a.get(c);
                        let p = c.public(&a);
                        (a, p)
                    }
                };
                let (d, e) = s.keypair(&mut ScriptRng::of(&[&a]));
                diff("DH public key", &e.bytes(), &p)?;
                self.dhs.push((*kem % 5, a, d, e));
            }
            Op::DhEncaps { k, e } => {
                let Some(x) = pick(&self.dhs, *k) else { return Ok(false) };
                let (e, c, ss) = match dh_suite(x.0).curve() {
                    None => {
                        let e: [u8; 32] = e.get(refmodel::ec::p256()).try_into().unwrap();
                        let p = x.3.bytes().try_into().unwrap();
                        (e.to_vec(), r25::base(&e).to_vec(), r25::x25519(&e, &p).to_vec())
                    }
                    Some(c) => {
                        let e = e.get(c);
                        let (pe, ss) = (c.public(&e), c.dh(&e, &c.public(&x.1)));
                        (e, pe, ss)
                    }
                };
                let (gc, gs) = x.3.encaps(&mut ScriptRng::of(&[&e]))?;
                diff("DH encapsulated key", &gc, &c)?;
                diff("DH secret", &gs, &ss)?;
                let kem = x.0;
                self.dcs.push((kem, c));
            }
            Op::DhDecaps { k, c } => {
                let Some(x) = pick(&self.dhs, *k) else { return Ok(false) };
                let same: Vec<_> = self.dcs.iter().filter(|t| t.0 == x.0).collect();
                let Some(ct) = pick(&same, *c) else { return Ok(false) };
                let want = match dh_suite(x.0).curve() {
                    None => r25::x25519(&x.1.clone().try_into().unwrap(), &ct.1.clone().try_into().unwrap()).to_vec(),
                    Some(c) => c.dh(&x.1, &ct.1),
                };
                diff("DH decapsulation", &x.2.decaps(&ct.1)?, &want)?;
            }
            Op::Abort { what, k, after } => {
                let mut rng = ScriptRng::failing(vec![0x5a; 64], *after as usize % 64);
                let _ = catch_unwind(AssertUnwindSafe(|| match what % 6 {
                    0 => drop(suite(*k).gen(&mut rng)),
                    1 => drop(pick(&self.eks, *k).map(|x| x.obj.encaps(&mut rng).is_ok())),
                    2 => drop(x_wing::generate_key_pair(&mut rng)),
                    3 => drop(pick(&self.xks, *k).map(|x| xw::encaps(&x.2, &mut rng).is_ok())),
                    4 => drop(dh_suite(*k).keypair(&mut rng)),
                    _ => drop(pick(&self.dhs, *k).map(|x| x.3.encaps(&mut rng).is_ok())),
                }));
            }
            Op::Again(_) => return Ok(false),
        }
        Ok(true)
    }
}
fn small_muts() -> BoxedStrategy<Vec<Mut>> {
    prop_oneof![
        2 => Just(vec![]),
        3 => (any::<u16>(), 0u8..8).prop_map(|(p, b)| vec![Mut::Xor(p, 1 << b)]),
        1 => mutations(),
    ]
    .boxed()
}
fn op() -> BoxedStrategy<Op> {
    let i = || any::<u8>();
    prop_oneof![
        4 => (ps(), near(), near(), any::<bool>()).prop_map(|(ps, d, z, rng)| Op::Gen { ps, d, z, rng }),
        2 => (i(), small_muts()).prop_map(|(k, muts)| Op::ParseDk { k, muts }),
        2 => (i(), small_muts()).prop_map(|(k, muts)| Op::ParseEk { k, muts }),
        1 => i().prop_map(|k| Op::CloneDk { k }),
        1 => i().prop_map(|k| Op::DropKey { k }),
        5 => (i(), near(), any::<bool>()).prop_map(|(k, m, rng)| Op::Encaps { k, m, rng }),
        2 => (i(), near()).prop_map(|(k, m)| Op::EncapsVia { k, m }),
        6 => (i(), i(), small_muts()).prop_map(|(k, c, muts)| Op::Decaps { k, c, muts }),
        1 => i().prop_map(|k| Op::Bytes { k }),
        1 => (i(), i()).prop_map(|(a, b)| Op::Compare { a, b }),
        2 => near().prop_map(|sk| Op::XGen { sk }),
        2 => (i(), near(), near()).prop_map(|(k, m, ex)| Op::XEncaps { k, m, ex }),
        2 => (i(), i(), small_muts()).prop_map(|(k, c, muts)| Op::XDecaps { k, c, muts }),
        1 => (i(), i(), point()).prop_map(|(k, c, p)| Op::XPoint { k, c, p }),
        1 => (prop_oneof![6 => Just(4u8), 1 => 0u8..4], scalar()).prop_map(|(kem, a)| Op::DhGen { kem, a }),
        1 => (i(), scalar()).prop_map(|(k, e)| Op::DhEncaps { k, e }),
        1 => (i(), i()).prop_map(|(k, c)| Op::DhDecaps { k, c }),
        1 => (i(), i(), i()).prop_map(|(what, k, after)| Op::Abort { what, k, after }),
        1 => (1u8..12).prop_map(Op::Again),
    ]
    .boxed()
}
impl Plain {
    /// a closure that performs the operation on fixed inputs, and the model's result
    #[allow(clippy::type_complexity)]
    fn prepare(&self, seed: u64) -> (Box<dyn Fn() -> Result<Vec<u8>, String>>, Vec<u8>) {
        let b = |x: u64| Bytes::seeded(seed ^ x << 8).b32();
        let (d, z, m, e) = (b(1), b(2), b(3), b(4));
        match self {
            Plain::Gen { ps } => {
                let s = suite(*ps);
                let (ek, dk) = rf::keygen(s.p(), &d, &z);
                (
                    Box::new(move || {
                        let (dk, ek) = s.gen(&mut ScriptRng::of(&[&d, &z]));
                        Ok([ek.bytes(), dk.bytes()].concat())
                    }),
                    [ek, dk].concat(),
                )
            }
            Plain::Encaps { ps } => {
                let s = suite(*ps);
                let (ek, _) = rf::keygen(s.p(), &d, &z);
                let (c, k) = rf::encaps(s.p(), &ek, &m);
                let o = s.ek(&ek);
                (
                    Box::new(move || {
                        let (c, k) = o.encaps(&mut ScriptRng::of(&[&m]))?;
                        Ok([c, k.to_vec()].concat())
                    }),
                    [c, k.to_vec()].concat(),
                )
            }
            Plain::Decaps { ps, reject } => {
                let s = suite(*ps);
                let (ek, dk) = rf::keygen(s.p(), &d, &z);
                let mut c = rf::encaps(s.p(), &ek, &m).0;
                if *reject {
                    let i = seed as usize % c.len();
                    c[i] ^= 1;
                }
                let want = rf::decaps(s.p(), &dk, &c).key;
                let o = s.dk(&dk);
                (Box::new(move || Ok(o.decaps(&c)?.to_vec())), want.to_vec())
            }
            Plain::Parse { ps } => {
                let s = suite(*ps);
                let (ek, dk) = rf::keygen(s.p(), &d, &z);
                let want = [ek.clone(), dk.clone()].concat();
                (Box::new(move || Ok([s.ek(&ek).bytes(), s.dk(&dk).bytes()].concat())), want)
            }
            Plain::XGen => (
                Box::new(move || Ok(x_wing::generate_key_pair(&mut ScriptRng::of(&[&d])).1.as_bytes().to_vec())),
                rx::public(&d),
            ),
            Plain::XEncaps => {
                let pk = rx::public(&d);
                let es: [u8; 64] = [m, e].concat().try_into().unwrap();
                let (c, ss) = rx::encaps(&pk, &es);
                let o = xw::ek(&pk);
                (
                    Box::new(move || {
                        let (c, s) = xw::encaps(&o, &mut ScriptRng::of(&[&es]))?;
                        Ok([c.as_bytes().to_vec(), s.to_vec()].concat())
                    }),
                    [c, ss.to_vec()].concat(),
                )
            }
            Plain::XDecaps => {
                let es: [u8; 64] = [m, e].concat().try_into().unwrap();
                let (c, ss) = rx::encaps(&rx::public(&d), &es);
                let (o, c) = (xw::dk(&d), xw::ct(&c));
                (Box::new(move || Ok(xw::decaps(&o, &c)?.to_vec())), ss.to_vec())
            }
            Plain::DhGen { kem } | Plain::DhEncaps { kem } | Plain::DhDecaps { kem } => {
                let s = dh_suite(*kem);
                let (a, e, pa, pe, ss) = match s.curve() {
                    None => (d.to_vec(), e.to_vec(), r25::base(&d).to_vec(), r25::base(&e).to_vec(), r25::x25519(&e, &r25::base(&d)).to_vec()),
                    Some(c) => {
                        let a = Scalar::B(Bytes::seeded(seed)).get(c);
                        let e = Scalar::B(Bytes::seeded(seed + 1)).get(c);
                        let (pa, pe) = (c.public(&a), c.public(&e));
                        let ss = c.dh(&e, &pa);
                        (a, e, pa, pe, ss)
                    }
                };
                let (dk, ek) = s.keypair(&mut ScriptRng::of(&[&a]));
                match self {
                    Plain::DhGen { .. } => (Box::new(move || Ok(s.keypair(&mut ScriptRng::of(&[&a])).1.bytes())), pa),
                    Plain::DhEncaps { .. } => (
                        Box::new(move || {
                            let (c, k) = ek.encaps(&mut ScriptRng::of(&[&e]))?;
                            Ok([c, k].concat())
                        }),
                        [pe, ss].concat(),
                    ),
                    _ => (Box::new(move || dk.decaps(&pe)), ss),
                }
            }
        }
    }
}
fn plain() -> BoxedStrategy<Plain> {
    prop_oneof![
        ps().prop_map(|ps| Plain::Gen { ps }),
        ps().prop_map(|ps| Plain::Encaps { ps }),
        (ps(), any::<bool>()).prop_map(|(ps, reject)| Plain::Decaps { ps, reject }),
        ps().prop_map(|ps| Plain::Parse { ps }),
        Just(Plain::XGen),
        Just(Plain::XEncaps),
        Just(Plain::XDecaps),
        prop::sample::select(vec![0u8, 1, 2, 4]).prop_map(|kem| Plain::DhGen { kem }),
        prop::sample::select(vec![0u8, 1, 2, 4]).prop_map(|kem| Plain::DhEncaps { kem }),
        prop::sample::select(vec![0u8, 1, 2, 4]).prop_map(|kem| Plain::DhDecaps { kem }),
    ]
    .boxed()
}
impl Prop for C09 {
    type Case = C09Case;
    const ID: &'static str = "C09";
    const RULE: &'static str = "A case is (a) a history of up to 40 operations (generate, parse changed encodings, clone, drop, encapsulate, decapsulate, serialize, compare, calls aborted by a failing generator, over ML-KEM, X-Wing and DH keys drawn from families of near-identical seeds), each result compared at once with the models, (b) one operation repeated 300 to 70000 times with equal inputs, (c) up to 3000 keys made and then all used twice in other orders, (d) several near-identical keys used by 2-8 threads at once, every result compared, or (e) any operations of the three crates with inputs of their own in 2-8 threads at once. Non-trivial: a history in which at least 3 operations applied; every other case.";
    fn directed(&self, t: Tier, seed: u64) -> Vec<C09Case> {
        let mut v = vec![];
        let mut plain = vec![];
        for ps in 0..3 {
            plain.extend([Plain::Gen { ps }, Plain::Encaps { ps }, Plain::Decaps { ps, reject: false }, Plain::Decaps { ps, reject: true }, Plain::Parse { ps }]);
        }
        plain.extend([Plain::XGen, Plain::XEncaps, Plain::XDecaps]);
        for kem in 0..5 {
            plain.extend([Plain::DhGen { kem }, Plain::DhEncaps { kem }, Plain::DhDecaps { kem }]);
        }
        // the long repetitions first, spread over the shards
        for op in &plain {
            let n = match op {
                Plain::Gen { ps } | Plain::Encaps { ps } | Plain::Parse { ps } | Plain::Decaps { ps, .. } if *ps == 0 => 66_000,
                Plain::XDecaps => 66_000,
                Plain::DhGen { kem } | Plain::DhEncaps { kem } | Plain::DhDecaps { kem } => {
                    if *kem == 3 {
                        300
                    } else if *kem == 4 {
                        66_000
                    } else {
                        1200
                    }
                }
                Plain::XEncaps => 66_000,
                _ => 4500,
            };
            v.push(C09Case::Repeat { op: op.clone(), n: if t == Tier::Thorough { n * 10 } else { n }, seed });
        }
        for i in 0..if t == Tier::Quick { 16 } else { 64 } {
            v.push(C09Case::Many { n: if i % 8 == 0 { 3000 } else { 40 << (i % 4) }, seed: mix(seed ^ 0x3a ^ i) });
        }
        for op in &plain {
            for k in 1..4 {
                v.push(C09Case::Repeat { op: op.clone(), n: 20, seed: mix(seed ^ k) });
            }
        }
        let near = |b: u8, p: u8| Near { base: b, pos: p, val: 1 };
        for i in 0..if t == Tier::Quick { 40u64 } else { 600 } {
            for ps in 0..3 {
                v.push(C09Case::Threads { ps, seeds: (0..4).map(|j| near(0, (i * 4 + j) as u8)).collect(), threads: 2 + (i % 5) as u8, rounds: 6, seed: seed ^ i });
            }
        }
        for (i, op) in plain.iter().enumerate() {
            let seed = mix(seed ^ 0x70 ^ i as u64);
            v.push(C09Case::Together { jobs: (0..4).map(|j| (op.clone(), seed ^ j)).collect(), threads: 4, rounds: 10 });
        }
        // two keys that differ in one byte of one field, used alternately
        for ps in 0..3u8 {
            let p = suite(ps).p();
            for off in (p.dk_len() - 96..p.dk_len()).chain((0..p.dk_len()).step_by(29)).chain((384 * 2 * p.k..384 * 2 * p.k + 32).step_by(1)) {
                let x = vec![Mut::Xor(off as u16, 1)];
                v.push(C09Case::History(vec![
                    Op::Gen { ps, d: near(1, 0), z: near(2, 0), rng: false },
                    Op::Encaps { k: 0, m: near(0, 0), rng: false },
                    Op::ParseDk { k: 0, muts: x },
                    Op::Decaps { k: 0, c: 0, muts: vec![] },
                    Op::Decaps { k: 1, c: 0, muts: vec![] },
                    Op::Decaps { k: 0, c: 0, muts: vec![Mut::Xor(off as u16, 4)] },
                    Op::Decaps { k: 1, c: 0, muts: vec![Mut::Xor(off as u16, 4)] },
                    Op::Decaps { k: 0, c: 0, muts: vec![] },
                    Op::Compare { a: 0, b: 1 },
                    Op::Bytes { k: 0 },
                ]));
            }
            // keys with equal sums, and equal exclusive ors of their words
            let (e, d) = (p.ek_len() as u16, p.dk_len() as u16);
            for (i, j) in [(e - 32, e - 16), (e - 24, e - 8), (0, 768), (0, 384), (e - 1, e - 2), (3, 6)] {
                let swap = |at: u16, n: u16| (0..n).map(|x| Mut::Swap(at + i + x, at + j + x)).collect::<Vec<_>>();
                let n = if j > i { (j - i).min(8) } else { 1 };
                v.push(C09Case::History(vec![
                    Op::Gen { ps, d: near(1, 0), z: near(2, 0), rng: false },
                    Op::ParseEk { k: 0, muts: swap(0, n) },
                    Op::Encaps { k: 0, m: near(0, 0), rng: false },
                    Op::Encaps { k: 1, m: near(0, 0), rng: false },
                    Op::ParseDk { k: 0, muts: swap(384 * p.k as u16, n) },
                    Op::ParseDk { k: 0, muts: swap(d - e - 64 + 32, n) },
                    Op::Decaps { k: 0, c: 0, muts: vec![] },
                    Op::Decaps { k: 1, c: 0, muts: vec![] },
                    Op::Decaps { k: 2, c: 0, muts: vec![] },
                    Op::Decaps { k: 0, c: 1, muts: vec![] },
                    Op::Decaps { k: 1, c: 1, muts: vec![] },
                ]));
            }
            for off in (p.ek_len() - 32..p.ek_len()).chain((0..p.ek_len()).step_by(17)) {
                let x = vec![Mut::Xor(off as u16, 1)];
                v.push(C09Case::History(vec![
                    Op::Gen { ps, d: near(1, 0), z: near(2, 0), rng: false },
                    Op::ParseEk { k: 0, muts: x },
                    Op::Encaps { k: 0, m: near(0, 0), rng: false },
                    Op::Encaps { k: 1, m: near(0, 0), rng: false },
                    Op::Encaps { k: 0, m: near(0, 0), rng: true },
                    Op::Decaps { k: 0, c: 1, muts: vec![] },
                    Op::Decaps { k: 0, c: 0, muts: vec![] },
                    Op::Bytes { k: 1 },
                ]));
            }
        }
        // every operation after an aborted one
        for ps in 0..3u8 {
            for what in 0..6u8 {
                for after in [0, 16, 31, 32, 33, 48, 63] {
                    v.push(C09Case::History(vec![
                        Op::Gen { ps, d: near(1, 0), z: near(2, 0), rng: true },
                        Op::XGen { sk: near(0, 1) },
                        Op::DhGen { kem: if ps == 0 { 4 } else { ps }, a: Scalar::Small(5) },
                        Op::Abort { what, k: ps, after },
                        Op::Encaps { k: 0, m: near(0, 0), rng: true },
                        Op::Abort { what, k: 0, after },
                        Op::Decaps { k: 0, c: 0, muts: vec![] },
                        Op::Gen { ps, d: near(1, 1), z: near(2, 1), rng: true },
                        Op::XEncaps { k: 0, m: near(1, 0), ex: near(2, 0) },
                        Op::Abort { what, k: 0, after },
                        Op::XDecaps { k: 0, c: 0, muts: vec![] },
                        Op::DhEncaps { k: 0, e: Scalar::Small(9) },
                        Op::Abort { what, k: 0, after },
                        Op::DhDecaps { k: 0, c: 0 },
                        Op::XGen { sk: near(0, 2) },
                    ]));
                }
            }
        }
        // near-identical messages and X-Wing keys
        for pos in 0..32u8 {
            for ps in 0..3 {
                v.push(C09Case::History(vec![
                    Op::Gen { ps, d: near(0, 0), z: near(0, pos), rng: false },
                    Op::Gen { ps, d: near(0, 0), z: Near { base: 0, pos, val: 2 }, rng: true },
                    Op::Encaps { k: 0, m: near(0, pos), rng: false },
                    Op::Encaps { k: 0, m: Near { base: 0, pos, val: 2 }, rng: false },
                    Op::Decaps { k: 0, c: 0, muts: vec![Mut::Xor(pos as u16 * 7, 1)] },
                    Op::Decaps { k: 1, c: 0, muts: vec![Mut::Xor(pos as u16 * 7, 1)] },
                    Op::Decaps { k: 1, c: 1, muts: vec![] },
                    Op::Decaps { k: 0, c: 1, muts: vec![] },
                ]));
            }
            v.push(C09Case::History(vec![
                Op::XGen { sk: near(0, pos) },
                Op::XGen { sk: Near { base: 0, pos, val: 2 } },
                Op::XEncaps { k: 0, m: near(1, pos), ex: near(2, 0) },
                Op::XEncaps { k: 1, m: near(1, pos), ex: near(2, 0) },
                Op::XDecaps { k: 0, c: 0, muts: vec![] },
                Op::XDecaps { k: 1, c: 0, muts: vec![] },
                Op::XDecaps { k: 1, c: 1, muts: vec![] },
                Op::XDecaps { k: 0, c: 0, muts: vec![Mut::Xor(1088 + pos as u16, 1)] },
                Op::XDecaps { k: 0, c: 0, muts: vec![] },
            ]));
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<C09Case> {
        prop_oneof![
            40 => prop::collection::vec(op(), 4..40).prop_map(C09Case::History),
            1 => (ps(), prop::collection::vec(near(), 2..6), 2u8..9, 1u8..6, any::<u64>())
                .prop_map(|(ps, seeds, threads, rounds, seed)| C09Case::Threads { ps, seeds, threads, rounds, seed }),
            1 => (prop::collection::vec((plain(), any::<u64>()), 2..6), 2u8..9, 1u8..8)
                .prop_map(|(jobs, threads, rounds)| C09Case::Together { jobs, threads, rounds }),
        ]
        .boxed()
    }
    fn random_cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 20_000 } else { 200_000 }
    }
    fn slow(&self, c: &C09Case) -> bool {
        matches!(c, C09Case::Many { n: 100.., .. } | C09Case::Repeat { n: 100.., .. })
    }
    fn check(&self, c: &C09Case, o: &mut Obs) -> Result<(), String> {
        match c {
            C09Case::History(ops) => {
                o.label("history");
                let mut w = World::default();
                let mut applied = 0;
                let mut last: Option<&Op> = None;
                for (i, op) in ops.iter().enumerate() {
                    let (n, what) = match (op, last) {
                        (Op::Again(n), Some(l)) => (*n as usize, l),
                        (Op::Again(_), None) => continue,
                        _ => (1, op),
                    };
                    for _ in 0..n {
                        o.add(1);
                        match w.step(what) {
                            Ok(true) => applied += 1,
                            Ok(false) => break,
                            Err(m) => return Err(format!("operation {i} ({what:?}): {m}")),
                        }
                    }
                    last = Some(what);
                }
                // everything still alive is unchanged
                for k in 0..w.dks.len() {
                    w.step(&Op::Bytes { k: k as u8 }).map_err(|m| format!("at the end: {m}"))?;
                }
                if applied >= 3 {
                    o.nontrivial();
                }
                if applied >= 12 {
                    o.label("history of 12 or more applied operations");
                }
                if w.dks.len() >= 3 {
                    o.label("three or more live decapsulation keys");
                }
                Ok(())
            }
            C09Case::Repeat { op, n, seed } => {
                o.nontrivial();
                o.label("repetition");
                let (f, want) = op.prepare(*seed);
                for i in 0..*n {
                    o.add(1);
                    diff(&format!("{op:?}, call number {i}"), &f()?, &want)?;
                }
                Ok(())
            }
            C09Case::Many { n, seed } => {
                o.nontrivial();
                o.label("many keys");
                let n = (*n).max(2) as usize;
                struct K {
                    ps: u8,
                    d: Dk,
                    e: Ek,
                    m: [u8; 32],
                    c: Vec<u8>,
                    k: [u8; 32],
                    dk: Vec<u8>,
                    xd: xw::DecapsulationKey,
                    xe: xw::EncapsulationKey,
                    xpk: Vec<u8>,
                }
                let mut ks = Vec::with_capacity(n);
                for i in 0..n {
                    let b = |x: u64| Bytes::seeded(mix(*seed ^ (i as u64) << 8 ^ x)).b32();
                    let (ps, d, z, m) = ((mix(*seed ^ i as u64) % 3) as u8, b(1), b(2), b(3));
                    let s = suite(ps);
                    let (ek, dk) = rf::keygen(s.p(), &d, &z);
                    let (gd, ge) = s.gen(&mut ScriptRng::of(&[&d, &z]));
                    diff(&format!("decapsulation key {i}"), &gd.bytes(), &dk)?;
                    diff(&format!("encapsulation key {i}"), &ge.bytes(), &ek)?;
                    let (c, k) = rf::encaps(s.p(), &ek, &m);
                    let xpk = rx::public(&d);
                    let (xd, xe) = x_wing::generate_key_pair(&mut ScriptRng::of(&[&d]));
                    diff(&format!("X-Wing public key {i}"), &xe.as_bytes(), &xpk)?;
                    ks.push(K { ps, d: gd, e: ge, m, c, k, dk, xd, xe, xpk });
                }
                for pass in 0..2u64 {
                    // an odd step visits all of them when n is not a multiple of it; which ones come twice does not matter
                    let step = 2 * (mix(*seed ^ pass) as usize % n) + 1;
                    for j in 0..n {
                        let i = (j * step + pass as usize) % n;
                        let x = &ks[i];
                        let (c, k) = x.e.encaps(&mut ScriptRng::of(&[&x.m]))?;
                        diff(&format!("ciphertext under key {i}"), &c, &x.c)?;
                        diff(&format!("shared key under key {i}"), &k, &x.k)?;
                        diff(&format!("decapsulation with key {i}"), &x.d.decaps(&x.c)?, &x.k)?;
                        let y = &ks[(i + 1 + pass as usize) % n];
                        if y.ps == x.ps {
                            let z: &[u8; 32] = x.dk[x.dk.len() - 32..].try_into().unwrap();
                            let want = refmodel::keccak::shake256_32(&[&z[..], &y.c]);
                            diff(&format!("decapsulation of another key's ciphertext with key {i}"), &x.d.decaps(&y.c)?, &want)?;
                        }
                        diff(&format!("X-Wing public key {i} again"), &x.xd.encapsulation_key().as_bytes(), &x.xpk)?;
                        let es = [x.m, x.k].concat();
                        let (c, s) = xw::encaps(&x.xe, &mut ScriptRng::of(&[&es]))?;
                        diff(&format!("X-Wing secret with key {i}"), &xw::decaps(&x.xd, &c)?, &s)?;
                        if j % 16 == 0 {
                            let (wc, ws) = rx::encaps(&x.xpk, &es.try_into().unwrap());
                            diff(&format!("X-Wing ciphertext under key {i}"), &c.as_bytes(), &wc)?;
                            diff(&format!("X-Wing secret under key {i}"), &s, &ws)?;
                        }
                        o.add(5);
                    }
                }
                Ok(())
            }
            C09Case::Together { jobs, threads, rounds } => {
                o.nontrivial();
                o.label("different operations across threads");
                let bar = Barrier::new(*threads as usize);
                let res: Vec<Result<(), String>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..*threads as usize)
                        .map(|t| {
                            let bar = &bar;
                            sc.spawn(move || -> Result<(), String> {
                                let mine: Vec<_> = jobs.iter().map(|(op, seed)| (op, op.prepare(*seed))).collect();
                                bar.wait();
                                for r in 0..*rounds as usize {
                                    for j in 0..mine.len() {
                                        let (op, (f, want)) = &mine[(r * 7 + t + j) % mine.len()];
                                        diff(&format!("{op:?} in a thread"), &f()?, want)?;
                                    }
                                }
                                Ok(())
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic in a thread".into()))).collect()
                });
                o.add(*threads as u64 * *rounds as u64 * jobs.len() as u64);
                res.into_iter().collect()
            }
            C09Case::Threads { ps, seeds, threads, rounds, seed } => {
                o.nontrivial();
                o.label("shared keys across threads");
                let s = suite(*ps);
                let p = s.p();
                struct K {
                    dk: Dk,
                    ek: Ek,
                    m: [u8; 32],
                    c: Vec<u8>,
                    k: [u8; 32],
                    bad: Vec<u8>,
                    r: [u8; 32],
                    enc: Vec<u8>,
                }
                let ks: Vec<K> = seeds
                    .iter()
                    .enumerate()
                    .map(|(i, n)| {
                        let (d, z, m) = (n.get(), Bytes::seeded(*seed).b32(), Bytes::seeded(*seed ^ i as u64).b32());
                        let (e, dkb) = rf::keygen(p, &d, &z);
                        let (c, k) = rf::encaps(p, &e, &m);
                        let mut bad = c.clone();
                        let at = (*seed as usize + i * 31) % bad.len();
                        bad[at] ^= 1 << (i % 8);
                        let r = rf::decaps(p, &dkb, &bad).key;
                        K { dk: s.dk(&dkb), ek: s.ek(&e), m, c, k, bad, r, enc: dkb }
                    })
                    .collect();
                let bar = Barrier::new(*threads as usize);
                let res: Vec<Result<(), String>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..*threads as u64)
                        .map(|t| {
                            let (ks, bar) = (&ks, &bar);
                            sc.spawn(move || -> Result<(), String> {
                                bar.wait();
                                for r in 0..*rounds as u64 {
                                    for j in 0..ks.len() as u64 {
                                        let h = mix(*seed ^ t << 16 ^ r << 8 ^ j);
                                        let x = &ks[h as usize % ks.len()];
                                        match h >> 32 & 3 {
                                            0 => {
                                                let (c, k) = x.ek.encaps_det(&x.m)?;
                                                diff("ciphertext in a thread", &c, &x.c)?;
                                                diff("shared key in a thread", &k, &x.k)?;
                                            }
                                            1 => diff("decapsulation in a thread", &x.dk.decaps(&x.c)?, &x.k)?,
                                            2 => diff("rejection in a thread", &x.dk.decaps(&x.bad)?, &x.r)?,
                                            _ => diff("encoding in a thread", &s.dk(&x.dk.dup().bytes()).bytes(), &x.enc)?,
                                        }
                                    }
                                }
                                Ok(())
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic in a thread".into()))).collect()
                });
                o.add(*threads as u64 * *rounds as u64 * ks.len() as u64);
                res.into_iter().collect()
            }
        }
    }
}
