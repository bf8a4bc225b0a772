//! DH KEMs: C15 ECDH values, C16 X25519 values, C17 agreement and wrapper transparency.
use super::xwing::{point, special_points, Point};
use crate::engine::{Obs, Prop, Tier};
use crate::gen::*;
use crate::rng::{mix, ScriptRng};
use crate::sut::{dh_suite, DhSuite};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use refmodel::ec::Curve;
use serde::{Deserialize, Serialize};

/// Scalars, by their distance to something interesting
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Scalar {
    Small(u16),
    /// n - 1 - k
    NearN(u16),
    /// n/2 + k - 128
    Half(u8),
    PowTwo(u16),
    PowTwoMinus(u16),
    B(Bytes),
}
fn sub_small(v: &mut [u8], mut k: u32) {
    for b in v.iter_mut().rev() {
        let d = *b as i32 - (k & 255) as i32;
        k >>= 8;
        *b = d as u8;
        if d < 0 {
            k += 1;
        }
        if k == 0 {
            break;
        }
    }
}
impl Scalar {
    /// a valid scalar of the curve, big-endian
    pub fn get(&self, c: &Curve) -> Vec<u8> {
        let n = c.n_be();
        let len = c.len;
        let bits = if len == 66 { 521 } else { 8 * len };
        let mut v = match self {
            Scalar::Small(k) => {
                let mut v = vec![0; len];
                v[len - 1] = *k as u8;
                v[len - 2] = (*k >> 8) as u8;
                v
            }
            Scalar::NearN(k) => {
                let mut v = n.clone();
                sub_small(&mut v, 1 + *k as u32);
                v
            }
            Scalar::Half(k) => {
                let mut v = n.clone();
                let mut carry = 0;
                for b in v.iter_mut() {
                    let x = *b;
                    *b = x >> 1 | carry << 7;
                    carry = x & 1;
                }
                sub_small(&mut v, *k as u32);
                v
            }
            Scalar::PowTwo(e) => {
                let e = *e as usize % (bits - 1);
                let mut v = vec![0; len];
                v[len - 1 - e / 8] = 1 << (e % 8);
                v
            }
            Scalar::PowTwoMinus(e) => {
                let e = *e as usize % (bits - 1);
                let mut v = vec![0; len];
                v[len - 1 - e / 8] = 1 << (e % 8);
                sub_small(&mut v, 1);
                v
            }
            Scalar::B(b) => {
                let mut v = b.get(len);
                if len == 66 {
                    v[0] &= 1;
                }
                v
            }
        };
        if !c.valid_scalar(&v) {
            // fold into range: clear the top byte, and avoid zero
            v[0] = 0;
            if len == 66 {
                v[1] = 0;
            }
            if v.iter().all(|x| *x == 0) {
                v[len - 1] = 1;
            }
        }
        v
    }
}
pub fn scalar() -> BoxedStrategy<Scalar> {
    prop_oneof![
        1 => (0u16..300).prop_map(Scalar::Small),
        1 => (0u16..300).prop_map(Scalar::NearN),
        1 => any::<u8>().prop_map(Scalar::Half),
        1 => (0u16..521).prop_map(Scalar::PowTwo),
        1 => (0u16..521).prop_map(Scalar::PowTwoMinus),
        5 => bytes().prop_map(Scalar::B),
    ]
    .boxed()
}
/// Curve points
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum EcPoint {
    Mul(Scalar),
    /// the first point whose x is at least this
    AtX(Bytes, bool),
    /// x next to zero: shared secrets and encodings with leading zeros
    SmallX(u16, bool),
    /// the peer of the given scalar that makes the shared secret point have a chosen small x
    SmallSecret(u16, bool),
    /// ... have an x of at least this
    AtSecret(Bytes, bool),
    /// the public key of that scalar, or its negative
    Own(bool),
}
impl EcPoint {
    /// uncompressed; `k` is the scalar it will be multiplied with
    pub fn get(&self, c: &Curve, k: &[u8]) -> Vec<u8> {
        let small = |x: u16| {
            let mut v = vec![0; c.len];
            v[c.len - 1] = x as u8;
            v[c.len - 2] = (x >> 8) as u8;
            v
        };
        let at = |b: &Bytes, odd| {
            let mut x = b.get(c.len);
            if c.len == 66 {
                x[0] &= 1;
            }
            c.lift(&x, odd)
        };
        match self {
            EcPoint::Mul(s) => c.public(&s.get(c)),
            EcPoint::AtX(b, odd) => at(b, *odd),
            EcPoint::AtSecret(b, odd) => c.mul_point(&c.inv_scalar(k), &at(b, *odd)),
            EcPoint::Own(negative) => {
                let p = c.public(k);
                let odd = p[p.len() - 1] & 1 == 1;
                c.lift(&p[1..1 + c.len], odd != *negative)
            }
            EcPoint::SmallX(x, odd) => c.lift(&small(*x), *odd),
            EcPoint::SmallSecret(x, odd) => {
                // (1/k) P
                c.mul_point(&c.inv_scalar(k), &c.lift(&small(*x), *odd))
            }
        }
    }
    pub fn label(&self) -> &'static str {
        match self {
            EcPoint::Mul(_) => "point: multiple of the generator",
            EcPoint::AtX(..) => "point: arbitrary x",
            EcPoint::AtSecret(..) => "point: secret with an arbitrary x",
            EcPoint::Own(_) => "point: own public key or its negative",
            EcPoint::SmallX(..) => "point: x with leading zeros",
            EcPoint::SmallSecret(..) => "point: secret with leading zeros",
        }
    }
}
pub fn ecpoint() -> BoxedStrategy<EcPoint> {
    prop_oneof![
        3 => scalar().prop_map(EcPoint::Mul),
        2 => (bytes(), any::<bool>()).prop_map(|(b, o)| EcPoint::AtX(b, o)),
        1 => (any::<u16>(), any::<bool>()).prop_map(|(b, o)| EcPoint::SmallX(b, o)),
        2 => (any::<u16>(), any::<bool>()).prop_map(|(b, o)| EcPoint::SmallSecret(b, o)),
        2 => (bytes(), any::<bool>()).prop_map(|(b, o)| EcPoint::AtSecret(b, o)),
        1 => any::<bool>().prop_map(EcPoint::Own),
    ]
    .boxed()
}

// ------------------------------------------------------------------------------------------------ C15
pub struct C15;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C15Case {
    /// key pair from a, encapsulation with ephemeral e
    Kem { curve: u8, a: Scalar, e: Scalar },
    /// encapsulation to, and decapsulation of, an arbitrary point
    Point { curve: u8, a: Scalar, p: EcPoint, compressed: bool },
}
fn directed_scalars(c: &Curve) -> Vec<Scalar> {
    let bits = if c.len == 66 { 521 } else { 8 * c.len as u16 };
    let mut v: Vec<Scalar> = (1..40).map(Scalar::Small).collect();
    v.extend((0..40).map(Scalar::NearN));
    v.extend((0..8).map(Scalar::Half));
    v.extend((0..bits - 1).map(Scalar::PowTwo));
    v.extend((1..bits - 1).step_by(3).map(Scalar::PowTwoMinus));
    for f in [0u8, 1, 0x7f, 0x80, 0xfe, 0xff, 0x55, 0xaa, 0x0f, 0xf0] {
        v.push(Scalar::B(Bytes::Fill(f)));
    }
    v
}
impl Prop for C15 {
    type Case = C15Case;
    const ID: &'static str = "C15";
    const RULE: &'static str = "A case is a curve with two scalars (key pair, ephemeral), or a scalar and a curve point (generator multiple, own public key or its negative, arbitrary x, x with leading zero bytes, or chosen so that the shared x is any given value, such as one with leading zero bytes or next to the field prime), fed as compressed or uncompressed SEC1. Scalars: 1.., n-1.., n/2, powers of two and their neighbours, sparse, random. Oracle: an independent affine/Jacobian model of the four curves. Systematic: every power of two and the small and near-order scalars on both sides. Non-trivial: every case; leading-zero secrets are a class.";
    fn directed(&self, t: Tier, seed: u64) -> Vec<C15Case> {
        let mut v = vec![];
        for curve in 0..4u8 {
            let c = dh_suite(curve).curve().unwrap();
            for (i, s) in directed_scalars(c).into_iter().enumerate() {
                let r = Scalar::B(Bytes::seeded(seed ^ i as u64));
                if t == Tier::Thorough || i as u64 % 2 == seed % 2 || i < 90 {
                    v.push(C15Case::Kem { curve, a: s.clone(), e: r.clone() });
                    v.push(C15Case::Kem { curve, a: r.clone(), e: s.clone() });
                }
                if i < 90 {
                    v.push(C15Case::Kem { curve, a: s.clone(), e: s.clone() });
                }
                v.push(C15Case::Point { curve, a: s, p: EcPoint::SmallSecret(i as u16, i % 2 == 0), compressed: i % 2 == 0 });
            }
            let n = if t == Tier::Quick { 150 } else { 3000 };
            for i in 0..n {
                let a = Scalar::B(Bytes::seeded(seed ^ i));
                v.push(C15Case::Point { curve, a: a.clone(), p: EcPoint::SmallX(i as u16 * 2, i % 2 == 0), compressed: i % 3 == 0 });
                v.push(C15Case::Point { curve, a: a.clone(), p: EcPoint::SmallSecret(i as u16 * 3, i % 2 == 1), compressed: i % 3 == 1 });
                v.push(C15Case::Point { curve, a, p: EcPoint::AtX(Bytes::Fill(i as u8), i % 2 == 0), compressed: i % 3 == 2 });
            }
            // x-coordinates, of points and secrets, with zero bytes at either end, and next to the field prime and the group order
            let mut xs = vec![];
            for n in 1..c.len {
                xs.push((0..c.len).map(|i| if i < n { 0 } else { 0x5a }).collect::<Vec<u8>>());
                xs.push((0..c.len).map(|i| if i >= n { 0 } else { 0x5a }).collect());
            }
            for mut v in [c.p_be(), c.n_be()] {
                for _ in 0..12 {
                    sub_small(&mut v, 1);
                    xs.push(v.clone());
                }
            }
            for (i, x) in xs.into_iter().enumerate() {
                let a = Scalar::B(Bytes::seeded(seed ^ i as u64));
                let x = Bytes::Hex(hex(&x));
                v.push(C15Case::Point { curve, a: a.clone(), p: EcPoint::AtX(x.clone(), i % 2 == 0), compressed: i % 3 == 0 });
                v.push(C15Case::Point { curve, a, p: EcPoint::AtSecret(x, i % 2 == 0), compressed: i % 3 == 1 });
            }
            for i in 0..20 {
                let s = Scalar::B(Bytes::seeded(seed ^ i));
                v.push(C15Case::Point { curve, a: s, p: EcPoint::Own(i % 2 == 0), compressed: i % 4 < 2 });
            }
            // a scalar against its own public key, and against its negative
            for i in 0..20 {
                let a = Scalar::NearN(i);
                v.push(C15Case::Point { curve, a: a.clone(), p: EcPoint::Mul(Scalar::Small(i + 1)), compressed: false });
                v.push(C15Case::Point { curve, a: a.clone(), p: EcPoint::Mul(a), compressed: true });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<C15Case> {
        prop_oneof![
            1 => (0u8..4, scalar(), scalar()).prop_map(|(curve, a, e)| C15Case::Kem { curve, a, e }),
            1 => (0u8..4, scalar(), ecpoint(), any::<bool>()).prop_map(|(curve, a, p, compressed)| C15Case::Point { curve, a, p, compressed }),
        ]
        .boxed()
    }
    fn random_cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 24_000 } else { 400_000 }
    }
    fn check(&self, c: &C15Case, o: &mut Obs) -> Result<(), String> {
        o.nontrivial();
        match c {
            C15Case::Kem { curve, a, e } => {
                let s = dh_suite(*curve % 4);
                let c = s.curve().unwrap();
                o.label(c.name);
                let (a, e) = (a.get(c), e.get(c));
                let (pa, pe) = (c.public(&a), c.public(&e));
                let ss = c.dh(&e, &pa);
                if ss[0] == 0 && c.len != 66 || ss[0] == 0 && ss[1] == 0 {
                    o.label("secret with leading zero bytes");
                }
                let (dk, ek) = s.keypair(&mut ScriptRng::of(&[&a]));
                diff("public key", &ek.bytes(), &pa)?;
                let (ct, k) = ek.encaps(&mut ScriptRng::of(&[&e]))?;
                diff("encapsulated key", &ct, &pe)?;
                diff("sender's secret", &k, &ss)?;
                diff("receiver's secret", &dk.decaps(&ct)?, &ss)
            }
            C15Case::Point { curve, a, p, compressed } => {
                let s = dh_suite(*curve % 4);
                let c = s.curve().unwrap();
                o.label(c.name);
                o.label(p.label());
                let a = a.get(c);
                let pt = p.get(c, &a);
                let ss = c.dh(&a, &pt);
                if ss[0] == 0 && c.len != 66 || ss[0] == 0 && ss[1] == 0 {
                    o.label("secret with leading zero bytes");
                }
                let wire = if *compressed {
                    let mut w = vec![2 + (pt[pt.len() - 1] & 1)];
                    w.extend_from_slice(&pt[1..1 + c.len]);
                    w
                } else {
                    pt.clone()
                };
                let (dk, _) = s.keypair(&mut ScriptRng::of(&[&a]));
                diff("receiver's secret", &dk.decaps(&wire)?, &ss)?;
                let ek = s.ek(&wire).expect("a valid curve point");
                diff("parsed public key", &ek.bytes(), &pt)?;
                let (ct, k) = ek.encaps(&mut ScriptRng::of(&[&a]))?;
                diff("encapsulated key", &ct, &c.public(&a))?;
                diff("sender's secret", &k, &ss)
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ C16
pub struct C16;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C16Case {
    Kem { a: Bytes, e: Bytes },
    Point { a: Bytes, p: Point },
    /// a public value derived from the secret
    Related { a: Bytes, how: u8 },
}
fn related_point(a: &[u8; 32], how: u8) -> [u8; 32] {
    use refmodel::x25519::{base, x25519};
    let mut p = match how % 7 {
        0 | 1 => base(a),
        2 | 3 => *a,
        4 => x25519(a, &base(a)),
        5 => x25519(a, a),
        _ => {
            let mut c = *a;
            c[0] &= 0xf8;
            c[31] = c[31] & 0x7f | 0x40;
            c
        }
    };
    if how % 7 % 2 == 1 {
        p[31] ^= 0x80;
    }
    p
}
impl Prop for C16 {
    type Case = C16Case;
    const ID: &'static str = "C16";
    const RULE: &'static str = "A case is two 32-byte secrets (key pair and ephemeral), or a secret and any 32-byte public value (honest, arbitrary, low-order, non-canonical, high bit, small, on the twist, made so that the secret comes out as a given value, or derived from the secret itself: its own public key, the secret's bytes, ...). Oracle: an independent RFC 7748 model; zero secrets must be reported as non-contributory and no others. Systematic: position x value sweeps of both secrets and of the public value, all special points. Non-trivial: every case.";
    fn directed(&self, _: Tier, seed: u64) -> Vec<C16Case> {
        let mut v = vec![];
        let b = |x: u64| Bytes::seeded(seed ^ x);
        let mut sweeps = special32();
        sweeps.extend(one_hot_random(32, seed, 1));
        sweeps.extend(one_hot(32, 0, 1));
        sweeps.extend(one_hot(32, 0xff, 1));
        for (i, x) in sweeps.into_iter().enumerate() {
            let i = i as u64;
            v.push(C16Case::Kem { a: x.clone(), e: b(i) });
            v.push(C16Case::Kem { a: b(i), e: x.clone() });
            for how in 0..7 {
                v.push(C16Case::Related { a: x.clone(), how });
            }
            v.push(C16Case::Point { a: b(i), p: Point::B(x) });
        }
        for (i, p) in special_points().into_iter().enumerate() {
            for k in 0..4 {
                v.push(C16Case::Point { a: b(i as u64 * 4 + k), p: p.clone() });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<C16Case> {
        prop_oneof![
            4 => (bytes(), bytes()).prop_map(|(a, e)| C16Case::Kem { a, e }),
            8 => (bytes(), point()).prop_map(|(a, p)| C16Case::Point { a, p }),
            1 => (bytes(), 0u8..7).prop_map(|(a, how)| C16Case::Related { a, how }),
        ]
        .boxed()
    }
    fn random_cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 150_000 } else { 4_000_000 }
    }
    fn check(&self, c: &C16Case, o: &mut Obs) -> Result<(), String> {
        o.nontrivial();
        let s = dh_suite(4);
        use refmodel::x25519::{base, x25519};
        match c {
            C16Case::Kem { a, e } => {
                o.label("key pair and ephemeral");
                let (a, e) = (a.b32(), e.b32());
                let (pa, pe) = (base(&a), base(&e));
                let ss = x25519(&e, &pa);
                let (dk, ek) = s.keypair(&mut ScriptRng::of(&[&a]));
                diff("public key", &ek.bytes(), &pa)?;
                diff("public key of the secret", &dk.public(), &pa)?;
                let (ct, k) = ek.encaps(&mut ScriptRng::of(&[&e]))?;
                diff("encapsulated key", &ct, &pe)?;
                diff("sender's secret", &k, &ss)?;
                diff("receiver's secret", &dk.decaps(&ct)?, &ss)
            }
            C16Case::Point { .. } | C16Case::Related { .. } => {
                let (a, p) = match c {
                    C16Case::Related { a, how } => {
                        o.label("public value derived from the secret");
                        (a.b32(), related_point(&a.b32(), *how))
                    }
                    C16Case::Point { a, p } => {
                        o.label(p.label());
                        (a.b32(), p.get_for(&a.b32()))
                    }
                    C16Case::Kem { .. } => unreachable!(),
                };
                let ss = x25519(&a, &p);
                if ss == [0; 32] {
                    o.label("all-zero secret");
                }
                let (dk, _) = s.keypair(&mut ScriptRng::of(&[&a]));
                diff("receiver's secret", &dk.decaps(&p)?, &ss)?;
                let ek = s.ek(&p).unwrap();
                diff("parsed public key", &ek.bytes(), &p)?;
                let (ct, k) = ek.encaps(&mut ScriptRng::of(&[&a]))?;
                diff("encapsulated key", &ct, &base(&a))?;
                diff("sender's secret", &k, &ss)
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ C17
pub struct C17;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C17Case {
    /// n encapsulations to one key, delivered in an order, with the public key and encapsulated keys re-encoded
    Agree { kem: u8, seed: Bytes, tail: u64, n: u8, order: u64, via: u8, rewraps: u8 },
    /// wrapper operations over arbitrary values
    Wrap { a: u64, b: u64, v: Vec<u8>, w: Vec<u8>, s: String },
    /// wrapper operations over public keys
    WrapPk { kem: u8, a: Scalar, b: Scalar },
}
impl Prop for C17 {
    type Case = C17Case;
    const ID: &'static str = "C17";
    const RULE: &'static str = "A case is one of the five DH KEMs with a generator stream, 1-6 encapsulations, a delivery order, an encoding path (none, uncompressed, compressed, wrapper encoding) and a number of unwrap/wrap steps on the secret key; or wrapper operations (From, AsRef, into_inner, Clone, Eq, Ord, Hash, Default, ToEncodedPoint, Zeroize) over arbitrary integers, byte vectors, strings and public keys compared with the wrapped value's own. Non-trivial: every case.";
    fn directed(&self, _: Tier, seed: u64) -> Vec<C17Case> {
        let mut v = vec![];
        for kem in 0..5 {
            for via in 0..4 {
                for rewraps in 0..3 {
                    for n in [1, 2, 5] {
                        v.push(C17Case::Agree { kem, seed: Bytes::Hex(String::new()), tail: seed ^ (n as u64), n, order: mix(seed ^ via as u64), via, rewraps });
                    }
                }
            }
        }
        for a in [0u64, 1, 2, 255, 256, u64::MAX, 1 << 63] {
            for b in [0u64, 1, 2, 255, 256, u64::MAX, 1 << 63] {
                v.push(C17Case::Wrap { a, b, v: vec![a as u8; 3], w: vec![b as u8; 3], s: format!("{a}") });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<C17Case> {
        let sv = || prop::collection::vec(any::<u8>(), 0..9);
        prop_oneof![
            4 => (0u8..5, any::<u64>(), 1u8..7, any::<u64>(), 0u8..4, 0u8..4)
                .prop_map(|(kem, tail, n, order, via, rewraps)| C17Case::Agree { kem, seed: Bytes::Hex(String::new()), tail, n, order, via, rewraps }),
            2 => (prop_oneof![any::<u64>(), 0u64..4], prop_oneof![any::<u64>(), 0u64..4], sv(), sv(), "[a-c]{0,4}")
                .prop_map(|(a, b, v, w, s)| C17Case::Wrap { a, b, v, w, s }),
            2 => (0u8..5, scalar(), scalar()).prop_map(|(kem, a, b)| C17Case::WrapPk { kem, a, b }),
        ]
        .boxed()
    }
    fn random_cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 36_000 } else { 400_000 }
    }
    fn check(&self, c: &C17Case, o: &mut Obs) -> Result<(), String> {
        o.nontrivial();
        match c {
            C17Case::Agree { kem, seed: _, tail, n, order, via, rewraps } => {
                let s = dh_suite(*kem);
                o.label(s.name());
                o.label(["in memory", "re-encoded uncompressed", "re-encoded compressed", "through the wrapper encoding"][*via as usize % 4]);
                let mut rng = ScriptRng::new(vec![], *tail);
                if s.name() == "P-521" {
                    // valid scalars, so that no time goes into redrawing
                    let mut script = vec![];
                    for i in 0..(*n as usize + 1) {
                        let c = s.curve().unwrap();
                        script.extend(Scalar::B(Bytes::seeded(*tail ^ i as u64)).get(c));
                    }
                    rng = ScriptRng::new(script, *tail);
                }
                let (mut dk, ek) = s.keypair(&mut rng);
                for _ in 0..*rewraps {
                    dk = dk.rewrap();
                }
                diff("public key of the secret key", &dk.public(), &ek.bytes())?;
                let ek = match via % 4 {
                    0 => ek.dup(),
                    1 => s.ek(&ek.bytes()).ok_or("the public key does not parse")?,
                    2 => s.ek(&ek.encoded().1).ok_or("the compressed public key does not parse")?,
                    _ => s.ek(&ek.encoded().0).ok_or("the encoded public key does not parse")?,
                };
                let mut sent = vec![];
                for _ in 0..*n {
                    sent.push(ek.encaps(&mut rng)?);
                }
                let mut idx: Vec<usize> = (0..sent.len()).collect();
                idx.sort_by_key(|i| mix(*order ^ *i as u64));
                for i in idx {
                    let (ct, k) = &sent[i];
                    o.add(1);
                    let wire = if via % 4 == 2 { compress(s, ct) } else { ct.clone() };
                    diff(&format!("secret of encapsulation {i}"), &dk.decaps(&wire)?, k)?;
                }
                Ok(())
            }
            C17Case::Wrap { a, b, v, w, s } => {
                o.label("wrapper over plain values");
                wrap_ops(*a, *b)?;
                wrap_ops(v.clone(), w.clone())?;
                wrap_ops(s.clone(), String::from_utf8_lossy(v).into_owned())?;
                wrap_ops((*a as u8, *b as i16), (*b as u8, *a as i16))?;
                wrap_copy(*a)?;
                wrap_copy((*b as u8, *a))?;
                wrap_zero(*a)?;
                wrap_zero([*b, *a, *a ^ *b])?;
                wrap_zero(v.clone())
            }
            C17Case::WrapPk { kem, a, b } => {
                o.label("wrapper over public keys");
                macro_rules! go {
                    ($k:ident, $kem:ident) => {{
                        let c = dh_suite($kem).curve().unwrap();
                        let f = |s: &Scalar| elliptic_curve::PublicKey::<$k>::from_sec1_bytes(&c.public(&s.get(c))).unwrap();
                        let (x, y) = (f(a), f(b));
                        wrap_basic(x.clone(), y.clone())?;
                        wrap_ord(x.clone(), y)?;
                        wrap_point(x)
                    }};
                }
                use k256::Secp256k1;
                use p256::NistP256;
                use p384::NistP384;
                use p521::NistP521;
                let kem = *kem % 5;
                match kem {
                    0 => go!(Secp256k1, kem),
                    1 => go!(NistP256, kem),
                    2 => go!(NistP384, kem),
                    3 => go!(NistP521, kem),
                    _ => {
                        let c = dh_suite(0).curve().unwrap();
                        let f = |s: &Scalar| x25519_dalek::PublicKey::from(<[u8; 32]>::try_from(s.get(c)).unwrap());
                        let (x, y) = (f(a), f(b));
                        wrap_basic(x, y)?;
                        wrap_hash(x, y)
                    }
                }
            }
        }
    }
}
fn compress(s: &dyn DhSuite, pt: &[u8]) -> Vec<u8> {
    match s.curve() {
        None => pt.to_vec(),
        Some(c) => {
            let mut w = vec![2 + (pt[pt.len() - 1] & 1)];
            w.extend_from_slice(&pt[1..1 + c.len]);
            w
        }
    }
}
use dhkem::{DhDecapsulator, DhEncapsulator};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, RandomState};
fn want(c: bool, what: &str) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(format!("wrapper differs from the wrapped value in {what}"))
    }
}
fn wrap_basic<X: Clone + PartialEq + Debug>(x: X, y: X) -> Result<(), String> {
    let (e, d) = (DhEncapsulator::from(x.clone()), DhDecapsulator::from(x.clone()));
    want(e.as_ref() == &x && d.as_ref() == &x, "AsRef")?;
    want(e.clone().into_inner() == x && d.clone().into_inner() == x, "into_inner or Clone")?;
    let (e2, d2) = (DhEncapsulator::from(y.clone()), DhDecapsulator::from(y.clone()));
    want((e == e2) == (x == y) && (d == d2) == (x == y) && (e2 == e) == (y == x), "PartialEq")?;
    want((e != e2) == (x != y) && (d != d2) == (x != y), "PartialEq::ne")?;
    let mut t = e.clone();
    t.clone_from(&e2);
    want(t == e2 && t.into_inner() == y, "clone_from")?;
    want(DhEncapsulator::from(DhDecapsulator::from(y.clone()).into_inner()).into_inner() == y, "a chain of wrappers")
}
fn wrap_hash<X: Hash + Clone>(x: X, y: X) -> Result<(), String> {
    let h = RandomState::new();
    for v in [x, y] {
        let same = h.hash_one(&v);
        want(h.hash_one(DhEncapsulator::from(v.clone())) == same, "Hash")?;
        want(h.hash_one(DhDecapsulator::from(v)) == same, "Hash")?;
    }
    Ok(())
}
fn wrap_ord<X: Ord + Clone>(x: X, y: X) -> Result<(), String> {
    let (e, d) = (DhEncapsulator::from(x.clone()), DhDecapsulator::from(x.clone()));
    let (e2, d2) = (DhEncapsulator::from(y.clone()), DhDecapsulator::from(y.clone()));
    want(e.cmp(&e2) == x.cmp(&y) && d.cmp(&d2) == x.cmp(&y), "Ord")?;
    want(e.partial_cmp(&e2) == x.partial_cmp(&y) && d.partial_cmp(&d2) == x.partial_cmp(&y), "PartialOrd")?;
    want((e < e2) == (x < y) && (e >= e2) == (x >= y) && (d <= d2) == (x <= y) && (d > d2) == (x > y), "comparison operators")?;
    want(e.clone().max(e2.clone()).into_inner() == x.clone().max(y.clone()), "max")?;
    want(d.clone().min(d2.clone()).into_inner() == x.clone().min(y.clone()), "min")
}
fn wrap_ops<X: Ord + Clone + Hash + Default + Debug>(x: X, y: X) -> Result<(), String> {
    wrap_basic(x.clone(), y.clone())?;
    wrap_ord(x.clone(), y.clone())?;
    wrap_hash(x, y)?;
    want(DhEncapsulator::<X>::default().into_inner() == X::default(), "Default")?;
    want(DhDecapsulator::<X>::default().into_inner() == X::default(), "Default")
}
fn wrap_copy<X: Copy + PartialEq>(x: X) -> Result<(), String> {
    let (e, d) = (DhEncapsulator::from(x), DhDecapsulator::from(x));
    let (f, g) = (e, d);
    want(e.into_inner() == x && f.into_inner() == x && d.into_inner() == x && g.into_inner() == x, "Copy")
}
fn wrap_zero<X: zeroize::Zeroize + Clone + PartialEq>(x: X) -> Result<(), String> {
    use zeroize::Zeroize;
    let mut z = x.clone();
    z.zeroize();
    let (mut e, mut d) = (DhEncapsulator::from(x.clone()), DhDecapsulator::from(x));
    e.zeroize();
    d.zeroize();
    want(e.into_inner() == z && d.into_inner() == z, "Zeroize")
}
fn wrap_point<C>(x: elliptic_curve::PublicKey<C>) -> Result<(), String>
where
    C: elliptic_curve::CurveArithmetic,
    elliptic_curve::PublicKey<C>: elliptic_curve::sec1::ToEncodedPoint<C>,
    C::FieldBytesSize: elliptic_curve::sec1::ModulusSize,
{
    use elliptic_curve::sec1::ToEncodedPoint;
    let e = DhEncapsulator::from(x);
    for c in [false, true] {
        want(e.to_encoded_point(c) == x.to_encoded_point(c), "ToEncodedPoint")?;
        want(e.to_encoded_point(c).is_compressed() == c, "ToEncodedPoint compression")?;
    }
    Ok(())
}
