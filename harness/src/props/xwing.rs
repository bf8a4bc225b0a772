//! X-Wing: C11 key generation and encapsulation, C12 decapsulation, C13 encodings, C14 commitment.
use crate::engine::{Obs, Prop, Tier};
use crate::gen::*;
use crate::rng::ScriptRng;
use crate::sut::xw;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use refmodel::mlkem::{self as rf, ML768};
use refmodel::x25519::{low_order, x25519};
use refmodel::xwing as rx;
use serde::{Deserialize, Serialize};

/// An X25519 value: any 32 bytes, often special
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Point {
    Honest(Bytes),
    B(Bytes),
    LowOrder(u8),
    /// 2^255 - 19 + n for small n: non-canonical encodings (and, below zero, the largest canonical ones)
    NonCanonical(i16, bool),
    /// small canonical values
    Small(u16),
    /// made so that the shared secret is this value (or the next possible one, counting at that byte)
    Result(Bytes, u8),
}
impl Point {
    /// the value for the holder of this secret
    pub fn get_for(&self, secret: &[u8; 32]) -> [u8; 32] {
        match self {
            Point::Result(b, at) => refmodel::x25519::with_result(secret, &b.b32(), *at as usize),
            _ => self.get(),
        }
    }
    pub fn get(&self) -> [u8; 32] {
        match self {
            Point::Result(..) => self.get_for(&[1; 32]),
            Point::Honest(k) => refmodel::x25519::base(&k.b32()),
            Point::B(b) => b.b32(),
            Point::LowOrder(i) => {
                let l = low_order();
                l[*i as usize % l.len()]
            }
            Point::NonCanonical(n, high) => {
                // 2^255 - 19 + n, kept in 255 bits
                let n = (*n).clamp(-64, 18);
                let mut b = [0xffu8; 32];
                b[31] = 0x7f;
                b[0] = (0xed + n) as u8;
                if *high {
                    b[31] |= 0x80;
                }
                b
            }
            Point::Small(x) => {
                let mut b = [0; 32];
                b[0] = *x as u8;
                b[1] = (*x >> 8) as u8;
                b
            }
        }
    }
    pub fn label(&self) -> &'static str {
        match self {
            Point::Honest(_) => "X25519 value: honest",
            Point::Result(..) => "X25519 value: made for a special secret",
            Point::B(_) => "X25519 value: arbitrary",
            Point::LowOrder(_) => "X25519 value: low order",
            Point::NonCanonical(n, _) if *n < 0 => "X25519 value: largest canonical",
            Point::NonCanonical(..) => "X25519 value: non-canonical",
            Point::Small(_) => "X25519 value: small",
        }
    }
}
pub fn point() -> BoxedStrategy<Point> {
    prop_oneof![
        3 => bytes().prop_map(Point::Honest),
        3 => bytes().prop_map(Point::B),
        2 => any::<u8>().prop_map(Point::LowOrder),
        2 => (-64i16..19, any::<bool>()).prop_map(|(n, h)| Point::NonCanonical(n, h)),
        1 => (0u16..600).prop_map(Point::Small),
        1 => (bytes(), any::<u8>()).prop_map(|(b, at)| Point::Result(b, at)),
    ]
    .boxed()
}
pub fn special_points() -> Vec<Point> {
    let mut v: Vec<Point> = (0..14).map(Point::LowOrder).collect();
    for n in -64..19 {
        v.push(Point::NonCanonical(n, false));
        v.push(Point::NonCanonical(n, true));
    }
    v.extend((0..600).map(Point::Small));
    for (i, x) in special32().into_iter().enumerate() {
        v.push(Point::Result(x, i as u8));
    }
    // shared secrets with n zero bytes at either end
    for n in 1..32usize {
        v.push(Point::Result(Bytes::Hex(hex(&std::array::from_fn::<u8, 32, _>(|i| if i < n { 0 } else { 0x5a }))), n as u8));
        v.push(Point::Result(Bytes::Hex(hex(&std::array::from_fn::<u8, 32, _>(|i| if i < n { 0x5a } else { 0 }))), 0));
    }
    v
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum XPk {
    Honest(Bytes),
    /// any canonical ML-KEM-768 key with any X25519 value
    Parts(EkS, Point),
}
impl XPk {
    /// the public key for one who draws this ephemeral secret
    pub fn get_for(&self, ex: &[u8; 32]) -> Vec<u8> {
        match self {
            XPk::Parts(e, p) => {
                let mut v = e.get(&ML768);
                v.extend_from_slice(&p.get_for(ex));
                v
            }
            _ => self.get(),
        }
    }
    pub fn get(&self) -> Vec<u8> {
        match self {
            XPk::Honest(sk) => rx::public(&sk.b32()),
            XPk::Parts(e, p) => {
                let mut v = e.get(&ML768);
                v.extend_from_slice(&p.get());
                v
            }
        }
    }
}
pub fn xpk() -> BoxedStrategy<XPk> {
    prop_oneof![1 => bytes().prop_map(XPk::Honest), 2 => (ek(), point()).prop_map(|(e, p)| XPk::Parts(e, p))].boxed()
}

// ------------------------------------------------------------------------------------------------ C11
pub struct C11;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C11Case {
    /// 0 generate_key_pair, 1 DecapsulationKey::generate, 2 from bytes
    Keygen { sk: Bytes, entry: u8 },
    Encaps { pk: XPk, m: Bytes, ex: Bytes, parsed: bool },
}
impl Prop for C11 {
    type Case = C11Case;
    const ID: &'static str = "C11";
    const RULE: &'static str = "A case is a seed and an entry point (the key pair is compared with the model's), or a public key and 64 bytes of encapsulation randomness (ciphertext and secret are compared with the model's). Public keys are honest, or any canonical ML-KEM-768 key with an honest, arbitrary, low-order, non-canonical, high-bit or small X25519 value, or one made so that the X25519 secret is a given value. Systematic: position x value sweeps of the seed, m and the X25519 ephemeral, all special points. Non-trivial: every case.";
    fn directed(&self, t: Tier, seed: u64) -> Vec<C11Case> {
        let mut v = vec![];
        let b = |x: u64| Bytes::seeded(seed ^ x);
        for (i, x) in special32().into_iter().enumerate() {
            let i = i as u64;
            v.push(C11Case::Keygen { sk: x.clone(), entry: (i % 3) as u8 });
            v.push(C11Case::Encaps { pk: XPk::Honest(b(i % 11)), m: x.clone(), ex: b(i), parsed: i % 2 == 0 });
            v.push(C11Case::Encaps { pk: XPk::Honest(b(i % 11)), m: b(i), ex: x.clone(), parsed: i % 2 == 0 });
            v.push(C11Case::Encaps { pk: XPk::Honest(x.clone()), m: x.clone(), ex: x.clone(), parsed: i % 2 == 1 });
            v.push(C11Case::Encaps { pk: XPk::Parts(EkS::Honest(b(1)), Point::B(x)), m: b(i), ex: b(i + 1), parsed: true });
        }
        for (i, x) in one_hot_random(32, seed, 1).into_iter().enumerate() {
            let i = i as u64;
            v.push(C11Case::Keygen { sk: x.clone(), entry: (i % 3) as u8 });
            if t == Tier::Thorough || i % 2 == seed % 2 {
                v.push(C11Case::Encaps { pk: XPk::Honest(b(i % 3)), m: x.clone(), ex: b(i), parsed: false });
                v.push(C11Case::Encaps { pk: XPk::Honest(b(i % 3)), m: b(i), ex: x.clone(), parsed: false });
                v.push(C11Case::Encaps { pk: XPk::Parts(EkS::Honest(b(1)), Point::B(x)), m: b(i), ex: b(i + 1), parsed: true });
            }
        }
        for (i, p) in special_points().into_iter().enumerate() {
            v.push(C11Case::Encaps { pk: XPk::Parts(EkS::Honest(b(i as u64 % 3)), p), m: b(i as u64), ex: b(i as u64 + 1), parsed: true });
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<C11Case> {
        prop_oneof![
            1 => (bytes(), 0u8..3).prop_map(|(sk, entry)| C11Case::Keygen { sk, entry }),
            3 => (xpk(), bytes(), bytes(), any::<bool>()).prop_map(|(pk, m, ex, parsed)| C11Case::Encaps { pk, m, ex, parsed }),
        ]
        .boxed()
    }
    fn random_cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 120_000 } else { 1_500_000 }
    }
    fn check(&self, c: &C11Case, o: &mut Obs) -> Result<(), String> {
        o.nontrivial();
        match c {
            C11Case::Keygen { sk, entry } => {
                let sk = sk.b32();
                let want = rx::public(&sk);
                let mut rng = ScriptRng::of(&[&sk]);
                let dk = match entry % 3 {
                    0 => {
                        o.label("generate_key_pair");
                        let (dk, ek) = x_wing::generate_key_pair(&mut rng);
                        diff("public key from generate_key_pair", &ek.as_bytes(), &want)?;
                        dk
                    }
                    1 => {
                        o.label("DecapsulationKey::generate");
                        xw::DecapsulationKey::generate(&mut rng)
                    }
                    _ => {
                        o.label("secret key from bytes");
                        xw::dk(&sk)
                    }
                };
                diff("secret key", dk.as_bytes(), &sk)?;
                diff("public key", &dk.encapsulation_key().as_bytes(), &want)
            }
            C11Case::Encaps { pk, m, ex, parsed } => {
                match pk {
                    XPk::Honest(_) => o.label("honest public key"),
                    XPk::Parts(_, p) => o.label(p.label()),
                }
                let (m, ex) = (m.b32(), ex.b32());
                let pkb = pk.get_for(&ex);
                let mut es = [0; 64];
                es[..32].copy_from_slice(&m);
                es[32..].copy_from_slice(&ex);
                let (ct, ss) = rx::encaps(&pkb, &es);
                let ek = match pk {
                    XPk::Honest(sk) if !parsed => xw::dk(&sk.b32()).encapsulation_key(),
                    _ => xw::ek(&pkb),
                };
                let (gct, gss) = xw::encaps(&ek, &mut ScriptRng::of(&[&es]))?;
                diff("ciphertext", &gct.as_bytes(), &ct)?;
                diff("shared secret", &gss, &ss)
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ C12
pub struct C12;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum XCt {
    Honest { m: Bytes, ex: Bytes },
    Changed { m: Bytes, ex: Bytes, muts: Vec<Mut> },
    /// honest ML-KEM part, any X25519 value
    Point { m: Bytes, p: Point },
    /// any ML-KEM part
    Parts { c: Bytes, p: Point },
    /// parts copied from the recipient's own keys or from the other part's secret
    Related { m: Bytes, ex: Bytes, c: u8, x: u8 },
}
impl XCt {
    pub fn get(&self, e: &rx::Expanded) -> Vec<u8> {
        let mut pk = e.ek_m.clone();
        pk.extend_from_slice(&e.pk_x);
        let enc = |m: &Bytes, ex: &Bytes| {
            let mut es = [0; 64];
            es[..32].copy_from_slice(&m.b32());
            es[32..].copy_from_slice(&ex.b32());
            rx::encaps(&pk, &es).0
        };
        match self {
            XCt::Honest { m, ex } => enc(m, ex),
            XCt::Changed { m, ex, muts } => {
                let mut c = enc(m, ex);
                apply(muts, &mut c);
                c
            }
            XCt::Point { m, p } => {
                let mut c = rf::encaps(&ML768, &e.ek_m, &m.b32()).0;
                c.extend_from_slice(&p.get_for(&e.sk_x));
                c
            }
            XCt::Parts { c, p } => {
                let mut c = c.get(1088);
                c.extend_from_slice(&p.get_for(&e.sk_x));
                c
            }
            XCt::Related { m, ex, c, x } => {
                let (mut ct, ss_m) = rf::encaps(&ML768, &e.ek_m, &m.b32());
                match c % 5 {
                    0 => {}
                    1 => ct.copy_from_slice(&e.ek_m[..1088]),
                    2 => ct.copy_from_slice(&e.dk_m[..1088]),
                    3 => ct[..32].copy_from_slice(&e.pk_x),
                    _ => ct[1056..].copy_from_slice(&e.pk_x),
                }
                let mut p: [u8; 32] = match x % 9 {
                    0 => refmodel::x25519::base(&ex.b32()),
                    1 | 2 => e.pk_x,
                    3 => e.sk_x,
                    4 => ss_m,
                    5 => ct[..32].try_into().unwrap(),
                    6 => ct[1056..].try_into().unwrap(),
                    7 => refmodel::x25519::x25519(&e.sk_x, &e.pk_x),
                    _ => e.ek_m[1152..].try_into().unwrap(),
                };
                if x % 9 == 2 {
                    p[31] ^= 0x80;
                }
                ct.extend_from_slice(&p);
                ct
            }
        }
    }
}
pub fn xct() -> BoxedStrategy<XCt> {
    prop_oneof![
        2 => (bytes(), bytes()).prop_map(|(m, ex)| XCt::Honest { m, ex }),
        3 => (bytes(), bytes(), mutations()).prop_map(|(m, ex, muts)| XCt::Changed { m, ex, muts }),
        3 => (bytes(), point()).prop_map(|(m, p)| XCt::Point { m, p }),
        2 => (bytes(), point()).prop_map(|(c, p)| XCt::Parts { c, p }),
        1 => (bytes(), bytes(), 0u8..5, 0u8..9).prop_map(|(m, ex, c, x)| XCt::Related { m, ex, c, x }),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C12Case {
    sk: Bytes,
    ct: XCt,
    generated: bool,
}
impl Prop for C12 {
    type Case = C12Case;
    const ID: &'static str = "C12";
    const RULE: &'static str = "A case is a secret key and a 1120-byte ciphertext: honest, mutated anywhere, honest ML-KEM part with any X25519 value (honest, arbitrary, low-order, non-canonical, high-bit, small), parts copied from the recipient's own keys or the other part's secret, or arbitrary. Systematic: position x value sweeps of the secret key, m, the ephemeral and the X25519 value, all special points, every ciphertext byte changed. Non-trivial: every case compares with the model; honest ciphertexts must also give the sender's secret.";
    fn directed(&self, t: Tier, seed: u64) -> Vec<C12Case> {
        let mut v = vec![];
        let b = |x: u64| Bytes::seeded(seed ^ x);
        for (i, x) in special32().into_iter().enumerate() {
            let i = i as u64;
            let g = i % 2 == 0;
            v.push(C12Case { sk: x.clone(), ct: XCt::Honest { m: b(i), ex: b(i + 1) }, generated: g });
            v.push(C12Case { sk: b(i % 9), ct: XCt::Honest { m: x.clone(), ex: b(i + 1) }, generated: g });
            v.push(C12Case { sk: b(i % 9), ct: XCt::Honest { m: b(i), ex: x.clone() }, generated: g });
            v.push(C12Case { sk: b(i % 9), ct: XCt::Point { m: b(i), p: Point::B(x.clone()) }, generated: g });
            v.push(C12Case { sk: x.clone(), ct: XCt::Parts { c: x.clone(), p: Point::B(x) }, generated: g });
        }
        for i in 0..180u64 {
            v.push(C12Case { sk: b(i), ct: XCt::Related { m: b(i + 1), ex: b(i + 2), c: (i % 5) as u8, x: (i % 9) as u8 }, generated: i % 2 == 0 });
        }
        for (i, x) in one_hot_random(32, seed, 1).into_iter().enumerate() {
            let i = i as u64;
            v.push(C12Case { sk: x.clone(), ct: XCt::Honest { m: b(i), ex: b(i + 1) }, generated: i % 2 == 0 });
            if t == Tier::Thorough || i % 2 == seed % 2 {
                v.push(C12Case { sk: b(i % 3), ct: XCt::Honest { m: x.clone(), ex: b(i) }, generated: false });
                v.push(C12Case { sk: b(i % 3), ct: XCt::Point { m: b(i), p: Point::B(x) }, generated: false });
            }
        }
        for (i, p) in special_points().into_iter().enumerate() {
            v.push(C12Case { sk: b(i as u64 % 3), ct: XCt::Point { m: b(i as u64), p: p.clone() }, generated: i % 2 == 0 });
            if i % 4 == 0 {
                v.push(C12Case { sk: b(i as u64 % 3), ct: XCt::Parts { c: b(i as u64), p }, generated: i % 2 == 0 });
            }
        }
        for i in 0..1120u16 {
            for x in [1u8 << (i % 8), 0xff, 0x80] {
                v.push(C12Case { sk: b(i as u64 % 3), ct: XCt::Changed { m: b(i as u64 % 4), ex: b(i as u64 % 5), muts: vec![Mut::Xor(i, x)] }, generated: i % 2 == 0 });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<C12Case> {
        (bytes(), xct(), any::<bool>()).prop_map(|(sk, ct, generated)| C12Case { sk, ct, generated }).boxed()
    }
    fn random_cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 60_000 } else { 1_200_000 }
    }
    fn check(&self, c: &C12Case, o: &mut Obs) -> Result<(), String> {
        o.nontrivial();
        let sk = c.sk.b32();
        let e = rx::expand(&sk);
        let ct = c.ct.get(&e);
        let want = rx::decaps_expanded(&e, &ct);
        match &c.ct {
            XCt::Honest { .. } => o.label("honest ciphertext"),
            XCt::Changed { .. } => o.label("changed ciphertext"),
            XCt::Point { p, .. } | XCt::Parts { p, .. } => o.label(p.label()),
            XCt::Related { .. } => o.label("ciphertext made of the recipient's own keys"),
        }
        o.label(if want.accepted { "ML-KEM part accepted" } else { "ML-KEM part implicitly rejected" });
        if want.ss_x == [0; 32] {
            o.label("all-zero X25519 secret");
        }
        let dk = if c.generated { xw::DecapsulationKey::generate(&mut ScriptRng::of(&[&sk])) } else { xw::dk(&sk) };
        let got = xw::decaps(&dk, &xw::ct(&ct))?;
        diff("shared secret", &got, &want.ss)?;
        if let XCt::Honest { m, ex } = &c.ct {
            let (c2, ss) = xw::encaps(&dk.encapsulation_key(), &mut ScriptRng::of(&[&m.b32(), &ex.b32()]))?;
            o.add(2);
            diff("secret of sender and receiver", &xw::decaps(&dk, &c2)?, &ss)?;
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------ C13
pub struct C13;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C13Case {
    Pk { pk: XPk, m: Bytes, ex: Bytes },
    Sk { sk: Bytes, ct: Bytes },
    Ct { c: Bytes, muts: Vec<Mut>, sk: Bytes },
    /// generated objects: layout against the parts
    Layout { sk: Bytes, m: Bytes, ex: Bytes },
    PkPair { sk: Bytes, muts: Vec<Mut> },
    /// two X25519 values with the same ML-KEM part
    PkPoints { sk: Bytes, a: Point, b: Point },
}
fn canon_u(p: &[u8; 32]) -> [u64; 4] {
    refmodel::x25519::decode_u(p)
}
impl Prop for C13 {
    type Case = C13Case;
    const ID: &'static str = "C13";
    const RULE: &'static str = "A case is a public key (honest, or any canonical ML-KEM part with any X25519 value), a secret key, a ciphertext (any 1120 bytes) or a pair of objects differing in chosen bytes. Checks: sizes, layout against the ML-KEM and X25519 parts, parse-serialize identity, equal behaviour of the parsed object, ciphertexts equal exactly when all bytes agree, public keys equal exactly when ML-KEM bytes agree and the X25519 values are the same point (field element). Systematic: every byte of the three encodings changed. Non-trivial: every case; unequal pairs are a class.";
    fn directed(&self, _: Tier, seed: u64) -> Vec<C13Case> {
        let mut v = vec![];
        let b = |x: u64| Bytes::seeded(seed ^ x);
        for i in 0..1120u16 {
            for x in [1u8 << (i % 8), 0xff, 1, 0x80] {
                v.push(C13Case::Ct { c: b(i as u64), muts: vec![Mut::Xor(i, x)], sk: b(1) });
            }
            v.push(C13Case::Ct { c: Bytes::Sparse(0, vec![(i, 1)]), muts: vec![Mut::Swap(i, i + 1)], sk: b(2) });
        }
        for i in 0..1216u16 {
            for x in [1u8 << (i % 8), 1, 0x80] {
                v.push(C13Case::PkPair { sk: b(i as u64 % 7), muts: vec![Mut::Xor(i, x)] });
            }
        }
        for (i, x) in special32().into_iter().enumerate() {
            let i = i as u64;
            v.push(C13Case::Sk { sk: x.clone(), ct: b(i) });
            v.push(C13Case::Layout { sk: x.clone(), m: b(i), ex: b(i + 1) });
            v.push(C13Case::Layout { sk: b(i), m: x.clone(), ex: x.clone() });
            v.push(C13Case::Ct { c: x.clone(), muts: vec![Mut::Xor(i as u16, 1)], sk: x.clone() });
            v.push(C13Case::Pk { pk: XPk::Parts(EkS::Honest(b(1)), Point::B(x)), m: b(i), ex: b(i + 1) });
        }
        for x in one_hot_random(32, seed, 3) {
            v.push(C13Case::Sk { sk: x, ct: b(3) });
        }
        for (i, p) in special_points().into_iter().enumerate() {
            v.push(C13Case::Pk { pk: XPk::Parts(EkS::Honest(b(1)), p.clone()), m: b(i as u64), ex: b(2) });
            let n = i as i16;
            v.push(C13Case::PkPoints { sk: b(3), a: p.clone(), b: Point::Small((n % 19) as u16) });
            v.push(C13Case::PkPoints { sk: b(3), a: p, b: Point::LowOrder(i as u8) });
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<C13Case> {
        prop_oneof![
            2 => (xpk(), bytes(), bytes()).prop_map(|(pk, m, ex)| C13Case::Pk { pk, m, ex }),
            1 => (bytes(), bytes()).prop_map(|(sk, ct)| C13Case::Sk { sk, ct }),
            2 => (bytes(), mutations(), bytes()).prop_map(|(c, muts, sk)| C13Case::Ct { c, muts, sk }),
            2 => (bytes(), bytes(), bytes()).prop_map(|(sk, m, ex)| C13Case::Layout { sk, m, ex }),
            2 => (bytes(), mutations()).prop_map(|(sk, muts)| C13Case::PkPair { sk, muts }),
            1 => (bytes(), point(), point()).prop_map(|(sk, a, b)| C13Case::PkPoints { sk, a, b }),
        ]
        .boxed()
    }
    fn random_cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 140_000 } else { 1_500_000 }
    }
    fn check(&self, c: &C13Case, o: &mut Obs) -> Result<(), String> {
        o.nontrivial();
        match c {
            C13Case::Pk { pk, m, ex } => {
                o.label("public key");
                let b = pk.get();
                let e = xw::ek(&b);
                diff("re-encoded public key", &e.as_bytes(), &b)?;
                let e2 = xw::ek(&e.as_bytes());
                if !(e == e2 && e2 == e && e.clone() == e) {
                    return Err("two parses of one public key compare different".into());
                }
                let rng = ScriptRng::of(&[&m.b32(), &ex.b32()]);
                let (c1, s1) = xw::encaps(&e, &mut rng.clone())?;
                let (c2, s2) = xw::encaps(&e2, &mut rng.clone())?;
                diff("ciphertext of the re-parsed key", &c2.as_bytes(), &c1.as_bytes())?;
                diff("secret of the re-parsed key", &s2, &s1)
            }
            C13Case::Sk { sk, ct } => {
                o.label("secret key");
                let sk = sk.b32();
                let d = xw::dk(&sk);
                diff("re-encoded secret key", d.as_bytes(), &sk)?;
                let d2 = xw::dk(d.as_bytes());
                let d3 = xw::DecapsulationKey::generate(&mut ScriptRng::of(&[&sk]));
                diff("secret key of a generated key", d3.as_bytes(), &sk)?;
                let c = xw::ct(&ct.get(1120));
                let a = xw::decaps(&d, &c)?;
                diff("re-parsed secret key decapsulates", &xw::decaps(&d2, &c)?, &a)?;
                diff("generated secret key decapsulates", &xw::decaps(&d3.clone(), &c)?, &a)?;
                diff("public key of the re-parsed secret key", &d2.encapsulation_key().as_bytes(), &d.encapsulation_key().as_bytes())
            }
            C13Case::Ct { c, muts, sk } => {
                let b = c.get(1120);
                let x = xw::ct(&b);
                diff("re-encoded ciphertext", &x.as_bytes(), &b)?;
                let mut b2 = b.clone();
                apply(muts, &mut b2);
                let y = xw::ct(&b2);
                diff("re-encoded ciphertext", &y.as_bytes(), &b2)?;
                o.label(if b == b2 { "equal ciphertexts" } else { "unequal ciphertexts" });
                if (x == y) != (b == b2) || (y == x) != (b == b2) || x.clone() != x {
                    return Err(format!("ciphertext equality is {} for encodings that are {}", x == y, if b == b2 { "equal" } else { "different" }));
                }
                if b[0] % 16 == 0 {
                    let d = xw::dk(&sk.b32());
                    diff("re-parsed ciphertext decapsulates", &xw::decaps(&d, &xw::ct(&x.as_bytes()))?, &xw::decaps(&d, &x)?)?;
                }
                Ok(())
            }
            C13Case::Layout { sk, m, ex } => {
                o.label("layout of generated objects");
                let sk = sk.b32();
                let e = rx::expand(&sk);
                let (dk, ek) = x_wing::generate_key_pair(&mut ScriptRng::of(&[&sk]));
                let pk = ek.as_bytes();
                if (x_wing::ENCAPSULATION_KEY_SIZE, x_wing::DECAPSULATION_KEY_SIZE, x_wing::CIPHERTEXT_SIZE) != (1216, 32, 1120) {
                    return Err("sizes are not 1216, 32, 1120".into());
                }
                diff("ML-KEM part of the public key", &pk[..1184], &e.ek_m)?;
                diff("X25519 part of the public key", &pk[1184..], &e.pk_x)?;
                diff("secret key bytes", dk.as_bytes(), &sk)?;
                let (ct, ss) = xw::encaps(&ek, &mut ScriptRng::of(&[&m.b32(), &ex.b32()]))?;
                let cb = ct.as_bytes();
                diff("ML-KEM part of the ciphertext", &cb[..1088], &rf::encaps(&ML768, &e.ek_m, &m.b32()).0)?;
                diff("X25519 part of the ciphertext", &cb[1088..], &refmodel::x25519::base(&ex.b32()))?;
                let p = xw::ct(&cb);
                if p != ct || xw::ek(&pk) != ek {
                    return Err("a parsed object compares different from its original".into());
                }
                diff("parsed ciphertext decapsulates", &xw::decaps(&dk, &p)?, &ss)?;
                diff("original ciphertext decapsulates", &xw::decaps(&xw::dk(dk.as_bytes()), &ct)?, &ss)
            }
            C13Case::PkPair { sk, muts } => {
                let a = xw::dk(&sk.b32()).encapsulation_key().as_bytes();
                let mut b = a.to_vec();
                apply(muts, &mut b);
                let mut canon = rf::canon_ek(&ML768, &b[..1184]);
                canon.extend_from_slice(&b[1184..]);
                pk_pair(&a, &canon, o)
            }
            C13Case::PkPoints { sk, a, b } => {
                let mut x = xw::dk(&sk.b32()).encapsulation_key().as_bytes().to_vec();
                let mut y = x.clone();
                x[1184..].copy_from_slice(&a.get());
                y[1184..].copy_from_slice(&b.get());
                pk_pair(&x, &y, o)
            }
        }
    }
}
fn pk_pair(a: &[u8], b: &[u8], o: &mut Obs) -> Result<(), String> {
    let (x, y) = (xw::ek(a), xw::ek(b));
    diff("re-encoded public key", &x.as_bytes(), a)?;
    diff("re-encoded public key", &y.as_bytes(), b)?;
    let m = a[..1184] == b[..1184];
    let pt = canon_u(a[1184..].try_into().unwrap()) == canon_u(b[1184..].try_into().unwrap());
    o.label(match (m, pt, a == b) {
        (_, _, true) => "identical public keys",
        (true, true, false) => "same X25519 point in two encodings",
        (true, false, _) => "different X25519 points",
        _ => "different ML-KEM parts",
    });
    // two encodings of one point: the statement leaves the answer open ("only when")
    if m && pt && a != b {
        return Ok(());
    }
    if (x == y) != (m && pt) || (y == x) != (m && pt) {
        return Err(format!("public key equality is {} although the keys are {}", x == y, if m && pt { "the same" } else { "different" }));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C14
pub struct C14;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C14Case {
    /// the same secret key, a base ciphertext and an altered one
    Cts { sk: Bytes, ct: XCt, muts: Vec<Mut> },
    /// the same ML-KEM part, two X25519 values (possibly with the same X25519 secret)
    Points { sk: Bytes, c: Option<Bytes>, m: Bytes, a: Point, b: Point },
    /// the same ciphertext under two secret keys
    Keys { sk: Bytes, muts: Vec<Mut>, ct: XCt },
    /// encapsulation with the same randomness to two recipients that differ only in the X25519 value
    Recipients { e: EkS, a: Point, b: Point, m: Bytes, ex: Bytes },
}
impl Prop for C14 {
    type Case = C14Case;
    const ID: &'static str = "C14";
    const RULE: &'static str = "A case is a pair of different ciphertexts under one secret key (mutations anywhere, or two X25519 values with the same ML-KEM part, including values with the same X25519 secret: high bit, non-canonical and low-order encodings), one ciphertext under two secret keys, or equal randomness sent to two recipients. The relation: secrets differ. Systematic: every bit of both halves, all pairs of low-order encodings, single-bit key changes. Non-trivial: the two inputs differ; pairs whose X25519 secrets coincide are a class.";
    fn directed(&self, t: Tier, seed: u64) -> Vec<C14Case> {
        let mut v = vec![];
        let b = |x: u64| Bytes::seeded(seed ^ x);
        for bit in 0..8 * 1120u32 {
            let (i, x) = ((bit / 8) as u16, 1u8 << (bit % 8));
            v.push(C14Case::Cts { sk: b(bit as u64 % 5), ct: XCt::Honest { m: b(bit as u64 % 7), ex: b(9) }, muts: vec![Mut::Xor(i, x)] });
            if bit >= 8 * 1088 {
                for k in 0..4 {
                    v.push(C14Case::Cts { sk: b(k), ct: XCt::Parts { c: b(k), p: Point::LowOrder(bit as u8) }, muts: vec![Mut::Xor(i, x)] });
                }
            } else if t == Tier::Thorough || bit % 8 == seed as u32 % 8 {
                v.push(C14Case::Cts { sk: b(3), ct: XCt::Parts { c: b(4), p: Point::Honest(b(5)) }, muts: vec![Mut::Xor(i, x)] });
            }
        }
        for i in 0..14 {
            for j in 0..14 {
                v.push(C14Case::Points { sk: b(i as u64), c: None, m: b(j as u64), a: Point::LowOrder(i), b: Point::LowOrder(j) });
                v.push(C14Case::Points { sk: b(i as u64), c: Some(b(1)), m: b(j as u64), a: Point::LowOrder(i), b: Point::LowOrder(j) });
                v.push(C14Case::Recipients { e: EkS::Honest(b(1)), a: Point::LowOrder(i), b: Point::LowOrder(j), m: b(2), ex: b(3) });
            }
        }
        for n in 0..19 {
            for h in [false, true] {
                let (a, p) = (Point::NonCanonical(n, h), Point::Small(n as u16));
                v.push(C14Case::Points { sk: b(n as u64), c: None, m: b(1), a: a.clone(), b: p.clone() });
                v.push(C14Case::Points { sk: b(n as u64), c: Some(b(2)), m: b(1), a: a.clone(), b: p.clone() });
                v.push(C14Case::Recipients { e: EkS::Honest(b(n as u64)), a, b: p, m: b(2), ex: b(3) });
            }
        }
        for i in 0..256u16 {
            v.push(C14Case::Keys { sk: b(i as u64), muts: vec![Mut::Xor(i / 8, 1 << (i % 8))], ct: XCt::Honest { m: b(1), ex: b(2) } });
            v.push(C14Case::Keys { sk: b(i as u64), muts: vec![Mut::Xor(i / 8, 1 << (i % 8))], ct: XCt::Parts { c: b(1), p: Point::LowOrder(i as u8) } });
            // the same point with the ignored bit set
            v.push(C14Case::Cts { sk: b(i as u64), ct: XCt::Honest { m: b(i as u64), ex: b(1) }, muts: vec![Mut::Xor(1119, 0x80)] });
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<C14Case> {
        prop_oneof![
            3 => (bytes(), xct(), mutations()).prop_map(|(sk, ct, muts)| C14Case::Cts { sk, ct, muts }),
            2 => (bytes(), prop::option::of(bytes()), bytes(), point(), point()).prop_map(|(sk, c, m, a, b)| C14Case::Points { sk, c, m, a, b }),
            2 => (bytes(), mutations(), xct()).prop_map(|(sk, muts, ct)| C14Case::Keys { sk, muts, ct }),
            1 => (ek(), point(), point(), bytes(), bytes()).prop_map(|(e, a, b, m, ex)| C14Case::Recipients { e, a, b, m, ex }),
        ]
        .boxed()
    }
    fn random_cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 90_000 } else { 1_500_000 }
    }
    fn check(&self, c: &C14Case, o: &mut Obs) -> Result<(), String> {
        let two = |sk: &[u8; 32], a: &[u8], b: &[u8], o: &mut Obs| -> Result<(), String> {
            if a == b {
                o.label("identical inputs (skipped)");
                return Ok(());
            }
            o.nontrivial();
            if a[1088..] != b[1088..] {
                let e = refmodel::keccak::shake128_96(&[sk]);
                let k: [u8; 32] = e[64..].try_into().unwrap();
                if x25519(&k, a[1088..].try_into().unwrap()) == x25519(&k, b[1088..].try_into().unwrap()) {
                    o.label("different X25519 values, same X25519 secret");
                }
            }
            let dk = xw::dk(sk);
            let (x, y) = (xw::decaps(&dk, &xw::ct(a))?, xw::decaps(&dk, &xw::ct(b))?);
            if x == y {
                return Err(format!("two ciphertexts give the same secret {}", hex(&x[..8])));
            }
            Ok(())
        };
        match c {
            C14Case::Cts { sk, ct, muts } => {
                o.label("two ciphertexts");
                let sk = sk.b32();
                let e = rx::expand(&sk);
                let a = ct.get(&e);
                let mut b = a.clone();
                apply(muts, &mut b);
                two(&sk, &a, &b, o)
            }
            C14Case::Points { sk, c, m, a, b } => {
                o.label("two X25519 values");
                let sk = sk.b32();
                let mut x = match c {
                    Some(c) => c.get(1088),
                    None => rf::encaps(&ML768, &rx::expand(&sk).ek_m, &m.b32()).0,
                };
                let mut y = x.clone();
                x.extend_from_slice(&a.get());
                y.extend_from_slice(&b.get());
                two(&sk, &x, &y, o)
            }
            C14Case::Keys { sk, muts, ct } => {
                o.label("two secret keys");
                let a = sk.b32();
                let mut b = a;
                apply(muts, &mut b);
                if a == b {
                    return Ok(());
                }
                o.nontrivial();
                let ct = xw::ct(&ct.get(&rx::expand(&a)));
                let (x, y) = (xw::decaps(&xw::dk(&a), &ct)?, xw::decaps(&xw::dk(&b), &ct)?);
                if x == y {
                    return Err("one ciphertext gives the same secret under two secret keys".into());
                }
                Ok(())
            }
            C14Case::Recipients { e, a, b, m, ex } => {
                o.label("two recipients");
                let mut x = e.get(&ML768);
                let mut y = x.clone();
                x.extend_from_slice(&a.get());
                y.extend_from_slice(&b.get());
                if x == y {
                    return Ok(());
                }
                o.nontrivial();
                let rng = ScriptRng::of(&[&m.b32(), &ex.b32()]);
                let (c1, s1) = xw::encaps(&xw::ek(&x), &mut rng.clone())?;
                let (c2, s2) = xw::encaps(&xw::ek(&y), &mut rng.clone())?;
                if c1.as_bytes() == c2.as_bytes() && s1 == s2 {
                    return Err("one ciphertext gives the same secret for two recipients".into());
                }
                Ok(())
            }
        }
    }
}
