//! C20, C21 (`dh.rs`), and C23 (`mem.rs`: a build that records addresses). `trace`: instrumented build, sequence of basic blocks. `grind`: plain build under callgrind, machine
//! instructions and conditional branches executed.
mod dh;
mod mem;
use harness::engine::{self, Obs, Opts, Prop, Tier, HARNESS_BUG};
use harness::gen::*;
use harness::props::mlkem::CtS;
use harness::props::xwing::{point, xpk, Point, XPk};
use harness::rng::mix;
use harness::sut::suite;
use kem::{Decapsulate, Encapsulate};
use ml_kem::{EncapsulateDeterministic, Encoded, EncodedSizeUser, KemCore};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use refmodel::{mlkem as rf, xwing as rx};
use serde::{Deserialize, Serialize};
use std::hint::black_box;

extern "C" {
    fn ct_start();
    fn ct_stop(h: *mut u64, n: *mut u64);
    fn ct_valgrind() -> i32;
    fn ct_zero();
    fn ct_dump(s: *const std::ffi::c_char);
    fn ct_instrumented() -> i32;
    fn ct_apart(different: *mut u64, at: *mut u64) -> std::ffi::c_long;
}

/// How one run was measured
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Seen {
    hash: u64,
    blocks: u64,
}
#[inline(never)]
fn measured<R>(f: &dyn Fn() -> R) -> (R, Seen) {
    let (mut hash, mut blocks) = (0, 0);
    // the result goes to the same place each time
    let mut r: Option<R> = None;
    // SAFETY: the functions of cov.c
    unsafe {
        ct_zero();
        ct_start();
        *black_box(&mut r) = Some(f());
        ct_stop(&mut hash, &mut blocks);
        ct_dump(c"op".as_ptr());
        (black_box(r).unwrap(), Seen { hash, blocks })
    }
}
/// Both runs through the same code, at the same depth of the stack
#[inline(never)]
fn twice<A, R>(x: [A; 2], f: &mut dyn FnMut(A) -> R) -> [R; 2] {
    let mut v = Vec::with_capacity(2);
    for a in black_box(x) {
        v.push(f(black_box(a)));
    }
    v.try_into().ok().unwrap()
}

/// one secret key (over the case's matrix seed) and one ciphertext
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum V {
    /// an honestly built key with this noise seed
    Like { noise: Bytes, z: Bytes, ct: CtS },
    Fields { s: PolyVec, t: PolyVec, h: Bytes, z: Bytes, ct: CtS },
    /// arbitrary secret vector, solved for so that the ciphertext is accepted
    Crafted { s: PolyVec, t: PolyVec, h: Bytes, z: Bytes, m: Bytes, w: u8, sel: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum XV {
    Encaps(Bytes, Bytes),
    Changed(Bytes, Bytes, Vec<Mut>),
    Point(Bytes, Point),
    Raw(Bytes),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C20Case {
    Decaps { ps: u8, rho: Rho, a: V, b: V },
    Encaps { ps: u8, ek: EkS, a: Bytes, b: Bytes },
    Keygen { ps: u8, d: Bytes, a: Bytes, b: Bytes },
    XDecaps { sk: Bytes, a: XV, b: XV },
    /// both parties' 64 bytes of randomness
    XEncaps { pk: XPk, a: (Bytes, Bytes), b: (Bytes, Bytes) },
    /// a decapsulation key is parsed, serialized, cloned and dropped
    Store { ps: u8, rho: Rho, a: Box<Key>, b: Box<Key> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Key {
    V(V),
    /// any bytes for the secret vector, h and z
    Raw(Bytes),
}
impl Key {
    fn get(&self, p: &rf::Params, rho: &[u8; 32]) -> Vec<u8> {
        match self {
            Key::V(v) => v.get(p, rho).0,
            Key::Raw(b) => {
                // the public part stays that of an honest key
                let mut dk = rf::keygen_with(p, rho, &[7; 32], &[9; 32]).1;
                let (n, s) = (dk.len(), 384 * p.k);
                let raw = b.get(s + 64);
                dk[..s].copy_from_slice(&raw[..s]);
                dk[n - 64..].copy_from_slice(&raw[s..]);
                dk
            }
        }
    }
}
/// hands out 64 bytes
struct Fixed([u8; 64], usize);
impl rand_core::RngCore for Fixed {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.0[self.1 % 64];
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand_core::CryptoRng for Fixed {}
impl V {
    fn get(&self, p: &rf::Params, rho: &[u8; 32]) -> (Vec<u8>, Vec<u8>) {
        match self {
            V::Like { noise, z, ct } => {
                let dk = rf::keygen_with(p, rho, &noise.b32(), &z.b32()).1;
                let c = ct.get(p, &dk);
                (dk, c)
            }
            V::Fields { s, t, h, z, ct } => {
                let mut dk = rf::encode_vec(12, &polys(s, p.k));
                dk.extend(rf::encode_vec(12, &polys(t, p.k)));
                dk.extend_from_slice(rho);
                dk.extend(h.get(32));
                dk.extend(z.get(32));
                let c = ct.get(p, &dk);
                (dk, c)
            }
            V::Crafted { s, t, h, z, m, w, sel } => {
                let se = rf::encode_vec(12, &polys(s, p.k));
                let o = rf::CraftOpts { w_mode: w % 3, v_mode: 3, sel: *sel };
                rf::craft_accepting(p, &se, &polys(t, p.k), rho, &h.b32(), &z.b32(), &m.b32(), o).unwrap_or_else(|| {
                    // unsolvable: an arbitrary, rejected pair with the same secret
                    let mut dk = se;
                    dk.extend(rf::encode_vec(12, &polys(t, p.k)));
                    dk.extend_from_slice(rho);
                    dk.extend(h.get(32));
                    dk.extend(z.get(32));
                    let c = CtS::Encaps(m.clone()).get(p, &dk);
                    (dk, c)
                })
            }
        }
    }
}
impl XV {
    fn get(&self, sk: &[u8; 32]) -> Vec<u8> {
        let honest = |m: &Bytes, e: &Bytes| {
            let mut s = [0; 64];
            s[..32].copy_from_slice(&m.b32());
            s[32..].copy_from_slice(&e.b32());
            rx::encaps(&rx::public(sk), &s).0
        };
        match self {
            XV::Encaps(m, e) => honest(m, e),
            XV::Changed(m, e, x) => {
                let mut c = honest(m, e);
                apply(x, &mut c);
                c
            }
            XV::Point(m, p) => {
                let mut c = rf::encaps(&rf::ML768, &rx::public(sk)[..1184], &m.b32()).0;
                c.extend_from_slice(&p.get_for(&rx::expand(sk).sk_x));
                c
            }
            XV::Raw(b) => b.get(1120),
        }
    }
}

// the operations, each through exactly one copy of code, with its inputs always at the same place
struct Place<D, C> {
    d: Option<D>,
    c: Option<C>,
}
macro_rules! ops {
    ($dec:ident, $enc:ident, $gen:ident, $store:ident, $k:ty) => {
        #[inline(never)]
        fn $store(dks: [&[u8]; 2]) -> [(u8, Seen); 2] {
            type D = <$k as KemCore>::DecapsulationKey;
            let mut p: Box<Encoded<D>> = Box::default();
            twice(dks, &mut |dk| {
                p.copy_from_slice(dk);
                measured(&|| {
                    let d = D::from_bytes(black_box(&p));
                    let e = black_box(&d).clone().as_bytes();
                    drop(d);
                    e[0]
                })
            })
        }
        #[inline(never)]
        fn $dec(runs: [&(Vec<u8>, Vec<u8>); 2]) -> [([u8; 32], Seen); 2] {
            type D = <$k as KemCore>::DecapsulationKey;
            let mut p: Box<Place<D, ml_kem::Ciphertext<$k>>> = Box::new(Place { d: None, c: None });
            twice(runs, &mut |(dk, ct)| {
                p.d = Some(D::from_bytes(&Encoded::<D>::try_from(&dk[..]).unwrap()));
                p.c = Some(ml_kem::Ciphertext::<$k>::try_from(&ct[..]).unwrap());
                let (d, c) = (p.d.as_ref().unwrap(), p.c.as_ref().unwrap());
                let (k, s) = measured(&|| d.decapsulate(c).unwrap());
                (k.into(), s)
            })
        }
        #[inline(never)]
        fn $enc(ek: &[u8], ms: [[u8; 32]; 2]) -> [(Vec<u8>, Seen); 2] {
            type E = <$k as KemCore>::EncapsulationKey;
            let e = E::from_bytes(&Encoded::<E>::try_from(ek).unwrap());
            let mut place = ml_kem::B32::default();
            twice(ms, &mut |m| {
                place.copy_from_slice(&m);
                let (r, s) = measured(&|| e.encapsulate_deterministic(black_box(&place)).unwrap());
                (r.1.as_slice().to_vec(), s)
            })
        }
        #[inline(never)]
        fn $gen(d: [u8; 32], zs: [[u8; 32]; 2]) -> [(Vec<u8>, Seen); 2] {
            let d: ml_kem::B32 = d.into();
            let mut place = ml_kem::B32::default();
            twice(zs, &mut |z| {
                place.copy_from_slice(&z);
                let (r, s) = measured(&|| <$k>::generate_deterministic(&d, black_box(&place)));
                (r.0.as_bytes().as_slice().to_vec(), s)
            })
        }
    };
}
ops!(dec0, enc0, gen0, store0, ml_kem::MlKem512);
ops!(dec1, enc1, gen1, store1, ml_kem::MlKem768);
ops!(dec2, enc2, gen2, store2, ml_kem::MlKem1024);
#[inline(never)]
fn xdec(sk: [u8; 32], cts: [&Vec<u8>; 2]) -> [([u8; 32], Seen); 2] {
    let dk = x_wing::DecapsulationKey::from(sk);
    let mut p: Box<Place<(), x_wing::Ciphertext>> = Box::new(Place { d: None, c: None });
    twice(cts, &mut |ct| {
        p.c = Some(x_wing::Ciphertext::from(<&[u8; 1120]>::try_from(&ct[..]).unwrap()));
        let c = p.c.as_ref().unwrap();
        measured(&|| dk.decapsulate(c).unwrap())
    })
}
#[inline(never)]
fn xenc(pk: &[u8], rs: [[u8; 64]; 2]) -> [Seen; 2] {
    let e = x_wing::EncapsulationKey::from(<&[u8; 1216]>::try_from(pk).unwrap());
    let mut place = [0; 64];
    twice(rs, &mut |r| {
        place = r;
        measured(&|| e.encapsulate(&mut Fixed(*black_box(&place), 0)).unwrap().1).1
    })
}

/// runs both halves of a case; also says whether the two inputs differed and how their results relate
fn both(c: &C20Case, o: &mut Obs) -> [Seen; 2] {
    match c {
        C20Case::Decaps { ps, rho, a, b } => {
            let p = suite(*ps).p();
            let rho = rho.get();
            let (x, y) = (a.get(p, &rho), b.get(p, &rho));
            if x != y {
                o.nontrivial();
            }
            o.label(p.name);
            let [(k0, s0), (k1, s1)] = [dec0, dec1, dec2][*ps as usize % 3]([&x, &y]);
            let rej = |v: &(Vec<u8>, Vec<u8>), k: &[u8; 32]| rf::reject_key(&v.0[v.0.len() - 32..], &v.1) == *k;
            o.label(match (rej(&x, &k0), rej(&y, &k1)) {
                (false, false) => "both accepted",
                (true, true) => "both rejected",
                _ => "one accepted, one rejected",
            });
            [s0, s1]
        }
        C20Case::Encaps { ps, ek, a, b } => {
            o.label("encapsulation");
            if a.b32() != b.b32() {
                o.nontrivial();
            }
            [enc0, enc1, enc2][*ps as usize % 3](&ek.get(suite(*ps).p()), [a.b32(), b.b32()]).map(|x| x.1)
        }
        C20Case::Keygen { ps, d, a, b } => {
            o.label("key generation");
            if a.b32() != b.b32() {
                o.nontrivial();
            }
            [gen0, gen1, gen2][*ps as usize % 3](d.b32(), [a.b32(), b.b32()]).map(|x| x.1)
        }
        C20Case::XDecaps { sk, a, b } => {
            o.label("X-Wing decapsulation");
            let sk = sk.b32();
            let (x, y) = (a.get(&sk), b.get(&sk));
            if x != y {
                o.nontrivial();
            }
            xdec(sk, [&x, &y]).map(|x| x.1)
        }
        C20Case::XEncaps { pk, a, b } => {
            o.label("X-Wing encapsulation");
            let get = |x: &(Bytes, Bytes)| {
                let mut s = [0; 64];
                s[..32].copy_from_slice(&x.0.b32());
                s[32..].copy_from_slice(&x.1.b32());
                s
            };
            let (x, y) = (get(a), get(b));
            if x != y {
                o.nontrivial();
            }
            xenc(&pk.get(), [x, y])
        }
        C20Case::Store { ps, rho, a, b } => {
            o.label("parsing and serializing");
            let p = suite(*ps).p();
            let rho = rho.get();
            let public = |dk: &[u8]| dk[384 * p.k..dk.len() - 64].to_vec();
            let (x, mut y) = (a.get(p, &rho), b.get(p, &rho));
            // same public part
            let n = y.len();
            y[384 * p.k..n - 64].copy_from_slice(&public(&x));
            if x != y {
                o.nontrivial();
            }
            [store0, store1, store2][*ps as usize % 3]([&x, &y]).map(|x| x.1)
        }
    }
}

fn warm() {
    use std::sync::Once;
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let mut o = Obs::default();
        let b = Bytes::Fill(1);
        for ps in 0..3 {
            let v = V::Like { noise: b.clone(), z: b.clone(), ct: CtS::Encaps(b.clone()) };
            both(&C20Case::Decaps { ps, rho: Rho::B(b.clone()), a: v.clone(), b: v }, &mut o);
            both(&C20Case::Encaps { ps, ek: EkS::Honest(b.clone()), a: b.clone(), b: b.clone() }, &mut o);
            both(&C20Case::Keygen { ps, d: b.clone(), a: b.clone(), b: b.clone() }, &mut o);
            let k = Box::new(Key::Raw(b.clone()));
            both(&C20Case::Store { ps, rho: Rho::B(b.clone()), a: k.clone(), b: k }, &mut o);
        }
        let x = XV::Encaps(b.clone(), b.clone());
        both(&C20Case::XDecaps { sk: b.clone(), a: x.clone(), b: x }, &mut o);
        let r = (b.clone(), b.clone());
        both(&C20Case::XEncaps { pk: XPk::Honest(b), a: r.clone(), b: r }, &mut o);
    });
}

pub struct C20;
impl Prop for C20 {
    type Case = C20Case;
    const ID: &'static str = "C20";
    const RULE: &'static str = "A case is one operation run twice with different secrets or ciphertexts (decapsulation: same matrix seed, different secret vector, z, h and ciphertext; encapsulation: same key, two messages; key generation: same d, two z; X-Wing decapsulation: same key, two ciphertexts; X-Wing encapsulation: same key, two random strings; parsing, cloning, serializing and dropping a decapsulation key: same public part, two secret parts). Systematic: an honest ciphertext against the same with each single byte changed, for every position; every position of m and z; X25519 special points. Oracle: the hash of the sequence of basic blocks (and of libc byte comparisons) is equal for the two runs. Non-trivial: the two inputs differ.";
    fn directed(&self, t: Tier, seed: u64) -> Vec<C20Case> {
        let mut v = vec![];
        let b = |x: u64| Bytes::seeded(seed ^ x);
        let pv = |x: u64| -> PolyVec { std::array::from_fn(|j| PolyS::Seeded(mix(seed ^ x * 4 + j as u64))) };
        let step = if t == Tier::Quick { 1 } else { 1 };
        for ps in 0..3u8 {
            let p = suite(ps).p();
            for at in (0..p.ct_len()).step_by(step) {
                let like = |ct| V::Like { noise: b(1), z: b(2), ct };
                v.push(C20Case::Decaps {
                    ps,
                    rho: Rho::Mined(at as u8),
                    a: like(CtS::Encaps(b(at as u64))),
                    b: like(CtS::Changed(b(at as u64), vec![Mut::Xor(at as u16, 1 << (mix(at as u64) % 8))])),
                });
            }
            for (i, x) in special32().into_iter().enumerate() {
                let i = i as u64;
                let like = |noise: Bytes, z: Bytes, ct| V::Like { noise, z, ct };
                v.push(C20Case::Decaps { ps, rho: Rho::B(b(i)), a: like(b(1), x.clone(), CtS::Raw(b(3))), b: like(b(1), b(2), CtS::Raw(b(4))) });
                v.push(C20Case::Decaps { ps, rho: Rho::B(b(i)), a: like(x.clone(), b(1), CtS::Encaps(b(3))), b: like(b(1), b(2), CtS::Encaps(b(4))) });
                v.push(C20Case::Decaps { ps, rho: Rho::B(b(i)), a: like(b(1), b(1), CtS::Encaps(x.clone())), b: like(b(1), b(1), CtS::Raw(x.clone())) });
                v.push(C20Case::Encaps { ps, ek: EkS::Honest(b(i)), a: x.clone(), b: b(i) });
                v.push(C20Case::Store { ps, rho: Rho::B(b(i)), a: Box::new(Key::Raw(x.clone())), b: Box::new(Key::Raw(b(i))) });
                if ps == 1 {
                    v.push(C20Case::XEncaps { pk: XPk::Honest(b(i)), a: (x.clone(), b(1)), b: (b(i), b(2)) });
                    v.push(C20Case::XEncaps { pk: XPk::Honest(b(i)), a: (b(1), x.clone()), b: (b(1), b(i)) });
                }
                v.push(C20Case::Keygen { ps, d: b(i), a: x, b: b(i) });
            }
            for c in (0..3329u16).step_by(if t == Tier::Quick { 29 } else { 1 }) {
                let s: PolyVec = std::array::from_fn(|_| PolyS::Const(c));
                v.push(C20Case::Decaps {
                    ps,
                    rho: Rho::Mined(c as u8),
                    a: V::Crafted { s, t: pv(c as u64), h: b(1), z: b(2), m: b(c as u64), w: (c % 3) as u8, sel: c as u64 },
                    b: V::Like { noise: b(5), z: b(6), ct: CtS::Encaps(b(7)) },
                });
                let s: PolyVec = std::array::from_fn(|_| PolyS::Const(c));
                v.push(C20Case::Store {
                    ps,
                    rho: Rho::Mined(c as u8),
                    a: Box::new(Key::V(V::Fields { s, t: pv(1), h: b(1), z: b(2), ct: CtS::Raw(b(1)) })),
                    b: Box::new(Key::Raw(b(c as u64))),
                });
            }
        }
        for at in 0..1120u16 {
            v.push(C20Case::XDecaps { sk: b(at as u64 % 50), a: XV::Encaps(b(1), b(2)), b: XV::Changed(b(1), b(2), vec![Mut::Xor(at, 1 << (at % 8))]) });
        }
        for i in 0..14 {
            v.push(C20Case::XDecaps { sk: b(i), a: XV::Encaps(b(1), b(2)), b: XV::Point(b(1), Point::LowOrder(i as u8)) });
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<C20Case> {
        let ct = || {
            prop_oneof![
                3 => bytes().prop_map(CtS::Encaps),
                3 => (bytes(), mutations()).prop_map(|(m, x)| CtS::Changed(m, x)),
                1 => bytes().prop_map(CtS::Raw),
            ]
        };
        let var = move || {
            prop_oneof![
                4 => (bytes(), bytes(), ct()).prop_map(|(noise, z, ct)| V::Like { noise, z, ct }),
                2 => (polyvec(), polyvec(), bytes(), bytes(), ct()).prop_map(|(s, t, h, z, ct)| V::Fields { s, t, h, z, ct }),
                2 => (polyvec(), polyvec(), bytes(), bytes(), bytes(), 0u8..3, any::<u64>())
                    .prop_map(|(s, t, h, z, m, w, sel)| V::Crafted { s, t, h, z, m, w, sel }),
            ]
        };
        let key = || prop_oneof![1 => var().prop_map(Key::V), 1 => bytes().prop_map(Key::Raw)];
        let same_key = (bytes(), bytes(), ct(), ct())
            .prop_map(|(n, z, c, d)| (V::Like { noise: n.clone(), z: z.clone(), ct: c }, V::Like { noise: n, z, ct: d }));
        let x = || {
            prop_oneof![
                2 => (bytes(), bytes()).prop_map(|(m, e)| XV::Encaps(m, e)),
                2 => (bytes(), bytes(), mutations()).prop_map(|(m, e, x)| XV::Changed(m, e, x)),
                1 => (bytes(), point()).prop_map(|(m, p)| XV::Point(m, p)),
                1 => bytes().prop_map(XV::Raw),
            ]
        };
        prop_oneof![
            5 => (ps(), rho(), prop_oneof![1 => (var(), var()), 1 => same_key]).prop_map(|(ps, rho, (a, b))| C20Case::Decaps { ps, rho, a, b }),
            2 => (ps(), ek(), bytes(), bytes()).prop_map(|(ps, ek, a, b)| C20Case::Encaps { ps, ek, a, b }),
            1 => (ps(), bytes(), bytes(), bytes()).prop_map(|(ps, d, a, b)| C20Case::Keygen { ps, d, a, b }),
            1 => (bytes(), x(), x()).prop_map(|(sk, a, b)| C20Case::XDecaps { sk, a, b }),
            1 => (xpk(), (bytes(), bytes()), (bytes(), bytes())).prop_map(|(pk, a, b)| C20Case::XEncaps { pk, a, b }),
            1 => (ps(), rho(), key(), key()).prop_map(|(ps, rho, a, b)| C20Case::Store { ps, rho, a: Box::new(a), b: Box::new(b) }),
        ]
        .boxed()
    }
    fn random_cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 16_000 } else { 400_000 }
    }
    fn check(&self, c: &C20Case, o: &mut Obs) -> Result<(), String> {
        warm();
        // SAFETY: cov.c
        if unsafe { ct_instrumented() } == 0 {
            return Err(format!("{HARNESS_BUG}: this build is not instrumented"));
        }
        let [x, y] = both(c, o);
        o.add(2);
        if x.blocks < 100 {
            return Err(format!("{HARNESS_BUG}: only {} blocks seen", x.blocks));
        }
        if x != y {
            return Err(format!("the control flow differs: {} against {} basic blocks executed", x.blocks, y.blocks));
        }
        Ok(())
    }
}

/// Under callgrind: every case dumps twice; the caller compares the totals.
fn grind<P: Prop>(cases: &str, both: fn(&P::Case, &mut Obs) -> [Seen; 2]) {
    for l in cases.lines() {
        both(&serde_json::from_str(l).unwrap(), &mut Obs::default());
    }
}
/// A list of cases for `grind`
fn cases<P: Prop>(p: &P, n: usize, seed: u64) {
    use proptest::strategy::ValueTree;
    use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
    let d = p.directed(Tier::Quick, seed);
    let mut v: Vec<P::Case> = (0..n / 2).map(|i| d[(i * d.len() / (n / 2) + seed as usize) % d.len()].clone()).collect();
    let rs: [u8; 32] = std::array::from_fn(|i| harness::rng::stream_byte(mix(seed), i));
    let mut r = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &rs));
    let s = p.strategy(Tier::Quick);
    v.extend((0..n - n / 2).map(|_| s.new_tree(&mut r).unwrap().current()));
    for c in v {
        println!("{}", serde_json::to_string(&c).unwrap());
    }
}
fn run<P: Prop>(p: &P, o: &Opts, out: &str) {
    let (ev, fail) = engine::run(p, o);
    std::fs::write(out, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if let Some(f) = fail {
        if f.message.starts_with(HARNESS_BUG) {
            eprintln!("{}\n{}", f.message, f.case);
            std::process::exit(3);
        }
        if let Some(p) = &o.replay {
            std::fs::write(p, serde_json::to_string_pretty(&engine::replay_json(o, P::ID, &f.message, &f.case)).unwrap()).unwrap();
        }
        println!("FAILED {}\n{}", f.message, f.case);
        std::process::exit(1);
    }
}

fn main() {
    engine::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let num = |n: &str, d: u64| opt(n).map(|s| s.parse().unwrap()).unwrap_or(d);
    let tier = if opt("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let id = a.get(2).map_or("", String::as_str);
    let dh = id == "C21";
    match a.get(1).map(String::as_str) {
        Some("run") => {
            let o = Opts {
                tier,
                seed: num("--seed", 1),
                trace_dir: opt("--trace"),
                only_shard: opt("--shard").map(|s| s.parse().unwrap()),
                scale: num("--scale", 100) as u32,
                threads: num("--threads", 8) as usize,
                hang: 120,
                replay: opt("--replay"),
                report_as: None,
            };
            let out = opt("--out").expect("--out");
            if id == "C23" {
                run(&mem::C23, &o, &out)
            } else if dh {
                run(&dh::C21, &o, &out)
            } else {
                run(&C20, &o, &out)
            }
        }
        Some("cases") => {
            let (n, seed) = (num("--n", 100) as usize, num("--seed", 1));
            if dh {
                cases(&dh::C21, n, seed)
            } else {
                cases(&C20, n, seed)
            }
        }
        Some("grind") => {
            let f = std::fs::read_to_string(opt("--cases").expect("--cases")).unwrap();
            // SAFETY: cov.c
            if unsafe { ct_valgrind() } == 0 {
                eprintln!("not running under valgrind");
                std::process::exit(3);
            }
            // the first runs fill caches, resolve symbols, detect CPU features; the caller skips their dumps
            if dh {
                dh::warm();
                grind::<dh::C21>(&f, dh::both);
            } else {
                warm();
                grind::<C20>(&f, both);
            }
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let r = match v["property"].as_str() {
                Some("C21") => engine::replay(&dh::C21, &v["case"]),
                Some("C23") => engine::replay(&mem::C23, &v["case"]),
                _ => engine::replay(&C20, &v["case"]),
            };
            match r {
                Ok(()) => println!("replay: the property held"),
                Err(m) => {
                    println!("replay: {m}");
                    std::process::exit(if m.starts_with(HARNESS_BUG) { 3 } else { 1 });
                }
            }
        }
        _ => {
            eprintln!("usage: ctprobe run|cases|grind C20|C21, or replay FILE");
            std::process::exit(2)
        }
    }
}
