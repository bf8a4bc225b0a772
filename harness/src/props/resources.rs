//! C22: what an operation takes from its surroundings while it runs: heap blocks, and the depth of its stack.
use super::dh::{ecpoint, scalar, EcPoint, Scalar};
use super::memory::heap_blocks;
use super::mlkem::{ct_strategy, dk_strategy, CtS, DkS};
use super::xwing::{special_points, xct, xpk, Point, XCt, XPk};
use crate::engine::{Obs, Prop, Tier};
use crate::gen::*;
use crate::sut::dh_suite;
use dhkem::{DhEncapsulator, DhKem};
use kem::{Decapsulate, Encapsulate};
use ml_kem::{EncapsulateDeterministic, Encoded, EncodedSizeUser, KemCore, B32};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rand_core::RngCore;
use refmodel::{mlkem as rf, xwing as rx};
use serde::{Deserialize, Serialize};
use std::hint::black_box;

/// hands out one buffer, over and over, and allocates nothing
struct Tape([u8; 72], usize, usize);
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.0[self.2];
            self.2 += 1;
            if self.2 == self.1 {
                self.2 = 0;
            }
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand_core::CryptoRng for Tape {}
fn tape(parts: &[&[u8]]) -> Tape {
    let mut b = [0; 72];
    let s = parts.concat();
    b[..s.len()].copy_from_slice(&s);
    Tape(b, s.len(), 0)
}

/// Stack that an operation may use, in an optimized build
pub const STACK: usize = 128 << 10;
const PAINTED: usize = 320 << 10;
const NEAR: usize = 256;
/// (heap blocks asked for, bytes of stack used) by `f`
#[inline(never)]
fn taken(f: &mut dyn FnMut()) -> (u64, usize) {
    let words = (PAINTED - NEAR) / 8;
    let left: usize;
    // SAFETY: fills stack memory below this frame, which nothing uses, and which lies well inside the stack of the thread
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!("lea rdi, [rsp - {p}]", "rep stosq", p = const PAINTED, inout("rcx") words => _, in("rax") 0xa5c3_965a_0ff0_3c69u64, out("rdi") _);
    }
    let before = heap_blocks();
    f();
    let blocks = heap_blocks() - before;
    // SAFETY: reads the same memory
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!("lea rdi, [rsp - {p}]", "xor edx, edx", "repe scasq", p = const PAINTED, inout("rcx") words => left, in("rax") 0xa5c3_965a_0ff0_3c69u64, out("rdi") _, out("rdx") _);
    }
    (blocks, left * 8 + NEAR)
}
struct Meter<'a> {
    o: &'a mut Obs,
    wrong: Option<String>,
}
impl Meter<'_> {
    fn run<T>(&mut self, what: &'static str, mut f: impl FnMut() -> T) -> T {
        let mut out = None;
        let (blocks, stack) = taken(&mut || out = Some(black_box(f())));
        self.o.add(1);
        self.o.label(match stack >> 10 {
            0..=15 => "up to 16 KiB of stack",
            16..=31 => "16 to 32 KiB of stack",
            32..=63 => "32 to 64 KiB of stack",
            64..=95 => "64 to 96 KiB of stack",
            96..=127 => "96 to 128 KiB of stack",
            _ => "more than 128 KiB of stack",
        });
        if blocks != 0 {
            self.wrong.get_or_insert(format!("{what} asked for {blocks} heap blocks"));
        }
        if stack > STACK {
            self.wrong.get_or_insert(format!("{what} used {stack} bytes of stack or more"));
        }
        out.unwrap()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C22Case {
    Keygen { ps: u8, d: Bytes, z: Bytes },
    Encaps { ps: u8, ek: EkS, m: Bytes },
    /// any bytes as a key, coefficients mostly out of range
    RawEk { ps: u8, ek: Bytes, m: Bytes },
    Decaps { ps: u8, dk: DkS, ct: CtS },
    XRaw { pk: Bytes, m: Bytes },
    XKeygen { sk: Bytes },
    XEncaps { pk: XPk, m: Bytes, ex: Bytes },
    XDecaps { sk: Bytes, ct: XCt },
    X25519 { a: Bytes, p: Point },
    Ec { curve: u8, a: Scalar, p: EcPoint },
}

fn keygen<K: KemCore>(m: &mut Meter, d: &[u8; 32], z: &[u8; 32]) {
    let (d32, z32) = (B32::from(*d), B32::from(*z));
    let mut t = tape(&[d, z]);
    let (dk, ek) = m.run("ML-KEM generate", || K::generate(&mut t));
    m.run("dropping the key", || drop(K::generate_deterministic(&d32, &z32)));
    let c = m.run("serializing the key", || (dk.as_bytes(), ek.as_bytes()));
    drop((dk, c));
}
fn encaps<K: KemCore>(m: &mut Meter, ek: &[u8], msg: &[u8; 32])
where
    K::EncapsulationKey: Clone + PartialEq,
{
    let b = Encoded::<K::EncapsulationKey>::try_from(ek).expect("size");
    let mut t = tape(&[msg]);
    let m32 = B32::from(*msg);
    let ek = m.run("parsing the encapsulation key", || K::EncapsulationKey::from_bytes(&b));
    m.run("serializing the encapsulation key", || ek.as_bytes());
    m.run("ML-KEM encapsulate", || ek.encapsulate(&mut t).is_ok());
    m.run("ML-KEM encapsulate_deterministic", || ek.encapsulate_deterministic(&m32).is_ok());
    m.run("comparing and cloning the encapsulation key", || ek.clone() == ek);
}
macro_rules! decaps {
    ($m:expr, $K:ty, $dk:expr, $ct:expr) => {{
        type Dk = <$K as KemCore>::DecapsulationKey;
        let b = Encoded::<Dk>::try_from($dk).expect("size");
        let c = ml_kem::Ciphertext::<$K>::try_from($ct).expect("size");
        let dk = $m.run("parsing the decapsulation key", || Dk::from_bytes(&b));
        $m.run("ML-KEM decapsulate", || dk.decapsulate(&c).is_ok());
        $m.run("serializing the decapsulation key", || dk.as_bytes());
        $m.run("cloning and dropping the decapsulation key", || drop(dk.clone()));
        $m.run("encapsulation_key", || dk.encapsulation_key().as_bytes());
    }};
}
macro_rules! ec {
    ($m:expr, $kem:ty, $crv:ty, $a:expr, $p:expr) => {{
        let p = elliptic_curve::PublicKey::<$crv>::from_sec1_bytes($p).expect("a point");
        let (mut t, mut u) = (tape(&[$a]), tape(&[$a]));
        let (dk, _) = $m.run("ECDH random_keypair", || <$kem>::random_keypair(&mut t));
        let ek = DhEncapsulator::from(p);
        $m.run("ECDH encapsulate", || ek.encapsulate(&mut u).is_ok());
        $m.run("ECDH decapsulate", || dk.decapsulate(&p).is_ok());
        $m.run("dropping the ECDH key", move || drop(black_box(&dk)));
    }};
}

pub struct C22;
impl Prop for C22 {
    type Case = C22Case;
    const ID: &'static str = "C22";
    const RULE: &'static str = "A case is the input of one operation of the three crates, by the generators of C01-C03, C11, C12, C15 and C16; the operation and the parsing, serializing, cloning and dropping around it are measured one by one. Oracle: the global allocator is not called, and the stack below the caller, painted before, is overwritten for at most 128 KiB. Non-trivial: every case.";
    fn directed(&self, _: Tier, seed: u64) -> Vec<C22Case> {
        let mut v = vec![];
        let b = |x: u64| Bytes::seeded(seed ^ x);
        for (i, x) in special32().into_iter().enumerate() {
            let (i, ps) = (i as u64, i as u8 % 3);
            v.push(C22Case::Keygen { ps, d: x.clone(), z: b(i) });
            v.push(C22Case::Keygen { ps, d: b(i), z: x.clone() });
            v.push(C22Case::Encaps { ps, ek: EkS::Honest(b(i)), m: x.clone() });
            v.push(C22Case::Decaps { ps, dk: DkS::Honest(b(i), x.clone()), ct: CtS::Encaps(x.clone()) });
            v.push(C22Case::XKeygen { sk: x.clone() });
            v.push(C22Case::RawEk { ps, ek: x.clone(), m: b(i) });
            v.push(C22Case::XRaw { pk: x.clone(), m: b(i) });
            v.push(C22Case::XEncaps { pk: XPk::Honest(b(i)), m: x.clone(), ex: b(i) });
            v.push(C22Case::XEncaps { pk: XPk::Honest(b(i)), m: b(i), ex: x.clone() });
            v.push(C22Case::X25519 { a: x.clone(), p: Point::B(b(i)) });
        }
        for i in 0..crate::mined::MINED.len() as u8 {
            for ps in 0..3 {
                v.push(C22Case::Encaps { ps, ek: EkS::Synth(std::array::from_fn(|_| PolyS::Const(3328)), Rho::Mined(i)), m: b(1) });
            }
        }
        for (i, p) in special_points().into_iter().enumerate() {
            let i = i as u64;
            v.push(C22Case::X25519 { a: b(i), p: p.clone() });
            v.push(C22Case::XDecaps { sk: b(i), ct: XCt::Point { m: b(i), p } });
        }
        for curve in 0..4 {
            for i in 0..40 {
                v.push(C22Case::Ec { curve, a: Scalar::Small(i + 1), p: EcPoint::SmallX(i, false) });
                v.push(C22Case::Ec { curve, a: Scalar::NearN(i), p: EcPoint::SmallSecret(i, true) });
            }
            for i in 0..80 {
                v.push(C22Case::Ec { curve, a: Scalar::PowTwo(i * 7), p: EcPoint::Own(i % 2 == 0) });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<C22Case> {
        prop_oneof![
            3 => (ps(), bytes(), bytes()).prop_map(|(ps, d, z)| C22Case::Keygen { ps, d, z }),
            4 => (ps(), ek(), bytes()).prop_map(|(ps, ek, m)| C22Case::Encaps { ps, ek, m }),
            1 => (ps(), bytes(), bytes()).prop_map(|(ps, ek, m)| C22Case::RawEk { ps, ek, m }),
            1 => (bytes(), bytes()).prop_map(|(pk, m)| C22Case::XRaw { pk, m }),
            4 => (ps(), dk_strategy(), ct_strategy()).prop_map(|(ps, dk, ct)| C22Case::Decaps { ps, dk, ct }),
            1 => bytes().prop_map(|sk| C22Case::XKeygen { sk }),
            2 => (xpk(), bytes(), bytes()).prop_map(|(pk, m, ex)| C22Case::XEncaps { pk, m, ex }),
            2 => (bytes(), xct()).prop_map(|(sk, ct)| C22Case::XDecaps { sk, ct }),
            2 => (bytes(), super::xwing::point()).prop_map(|(a, p)| C22Case::X25519 { a, p }),
            1 => (0u8..4, scalar(), ecpoint()).prop_map(|(curve, a, p)| C22Case::Ec { curve, a, p }),
        ]
        .boxed()
    }
    fn random_cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 60_000 } else { 1_500_000 }
    }
    fn check(&self, c: &C22Case, o: &mut Obs) -> Result<(), String> {
        use ml_kem::{MlKem1024, MlKem512, MlKem768};
        o.nontrivial();
        let m = &mut Meter { o, wrong: None };
        let params = |ps: &u8| [&rf::ML512, &rf::ML768, &rf::ML1024][*ps as usize % 3];
        match c {
            C22Case::Keygen { ps, d, z } => [keygen::<MlKem512>, keygen::<MlKem768>, keygen::<MlKem1024>][*ps as usize % 3](m, &d.b32(), &z.b32()),
            C22Case::Encaps { ps, ek, m: msg } => {
                let ek = ek.get(params(ps));
                [encaps::<MlKem512>, encaps::<MlKem768>, encaps::<MlKem1024>][*ps as usize % 3](m, &ek, &msg.b32())
            }
            C22Case::RawEk { ps, ek, m: msg } => {
                let ek = ek.get(params(ps).ek_len());
                [encaps::<MlKem512>, encaps::<MlKem768>, encaps::<MlKem1024>][*ps as usize % 3](m, &ek, &msg.b32())
            }
            C22Case::Decaps { ps, dk, ct } => {
                let dk = dk.get(params(ps));
                let ct = ct.get(params(ps), &dk);
                match ps % 3 {
                    0 => decaps!(m, MlKem512, &dk[..], &ct[..]),
                    1 => decaps!(m, MlKem768, &dk[..], &ct[..]),
                    _ => decaps!(m, MlKem1024, &dk[..], &ct[..]),
                }
            }
            C22Case::XKeygen { sk } => {
                let mut t = tape(&[&sk.b32()]);
                let (dk, ek) = m.run("X-Wing generate_key_pair", || x_wing::generate_key_pair(&mut t));
                m.run("serializing the X-Wing keys", || (*dk.as_bytes(), ek.as_bytes()));
                m.run("the X-Wing public key of a secret key", || dk.encapsulation_key().as_bytes());
                m.run("dropping the X-Wing secret key", || drop(dk.clone()));
            }
            C22Case::XEncaps { .. } | C22Case::XRaw { .. } => {
                let (pk, t) = match c {
                    C22Case::XEncaps { pk, m, ex } => (pk.get_for(&ex.b32()), [m.b32(), ex.b32()]),
                    C22Case::XRaw { pk, m } => (pk.get(1216), [m.b32(); 2]),
                    _ => unreachable!(),
                };
                let b: Box<[u8; 1216]> = Box::new(pk.try_into().expect("size"));
                let mut t = tape(&[&t[0], &t[1]]);
                let ek = m.run("parsing the X-Wing public key", || x_wing::EncapsulationKey::from(&*b));
                m.run("X-Wing encapsulate", || ek.encapsulate(&mut t).map(|x| x.0.as_bytes()).is_ok());
                m.run("comparing and cloning the X-Wing public key", || ek.clone() == ek);
            }
            C22Case::XDecaps { sk, ct } => {
                let sk = sk.b32();
                let b: Box<[u8; 1120]> = Box::new(ct.get(&rx::expand(&sk)).try_into().expect("size"));
                let dk = x_wing::DecapsulationKey::from(sk);
                let c = m.run("parsing the X-Wing ciphertext", || x_wing::Ciphertext::from(&*b));
                m.run("X-Wing decapsulate", || dk.decapsulate(&c).is_ok());
                m.run("comparing and dropping the X-Wing ciphertext", || c.clone() == c);
            }
            C22Case::X25519 { a, p } => {
                let a = a.b32();
                let p = x25519_dalek::PublicKey::from(p.get_for(&a));
                let (mut t, mut u) = (tape(&[&a]), tape(&[&a]));
                let (dk, _) = m.run("X25519 random_keypair", || dhkem::X25519Kem::random_keypair(&mut t));
                let ek = DhEncapsulator::from(p);
                m.run("X25519 encapsulate", || ek.encapsulate(&mut u).is_ok());
                m.run("X25519 decapsulate", || dk.decapsulate(&p).is_ok());
            }
            C22Case::Ec { curve, a, p } => {
                let c = dh_suite(curve % 4).curve().expect("EC");
                let a = a.get(c);
                let p = p.get(c, &a);
                match curve % 4 {
                    0 => ec!(m, dhkem::Secp256k1Kem, k256::Secp256k1, &a, &p),
                    1 => ec!(m, dhkem::NistP256Kem, p256::NistP256, &a, &p),
                    2 => ec!(m, dhkem::NistP384Kem, p384::NistP384, &a, &p),
                    _ => ec!(m, dhkem::NistP521Kem, p521::NistP521, &a, &p),
                }
            }
        }
        m.wrong.take().map_or(Ok(()), Err)
    }
}
