//! C21: the DH KEMs, one operation run twice with different secrets.
use crate::{measured, twice, Seen};
use dhkem::DhKem;
use harness::engine::{Obs, Prop, Tier, HARNESS_BUG};
use harness::gen::*;
use harness::props::dh::{ecpoint, scalar, EcPoint, Scalar};
use harness::props::xwing::{point, Point};
use harness::rng::mix;
use harness::sut::dh_suite;
use kem::{Decapsulate, Encapsulate};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rand_core::RngCore;
use serde::{Deserialize, Serialize};
use std::hint::black_box;

/// hands out one buffer, over and over
struct Tape([u8; 66], usize, usize);
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.0[self.2];
            self.2 += 1;
            if self.2 == self.1 {
                self.2 = 0;
            }
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand_core::CryptoRng for Tape {}
fn tape(s: &[u8]) -> Tape {
    let mut b = [0; 66];
    b[..s.len()].copy_from_slice(s);
    Tape(b, s.len(), 0)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C21Case {
    /// 0: key generation, 1: encapsulation, 2: decapsulation
    X { op: u8, a: (Bytes, Point), b: (Bytes, Point) },
    Ec { curve: u8, op: u8, peer: EcPoint, a: Scalar, b: Scalar },
}

#[inline(never)]
fn x25519(op: u8, runs: [([u8; 32], [u8; 32]); 2]) -> [Seen; 2] {
    use dhkem::{DhEncapsulator, X25519Kem};
    use x25519_dalek::PublicKey;
    let mut place = (tape(&[0; 32]), Box::new(DhEncapsulator::from(PublicKey::from([0; 32]))));
    let mut key = Box::new(X25519Kem::random_keypair(&mut tape(&[0; 32])).0);
    twice(runs, &mut |(s, p)| {
        place.0 = tape(&s);
        *place.1 = DhEncapsulator::from(PublicKey::from(p));
        *key = X25519Kem::random_keypair(&mut tape(&s)).0;
        match op % 3 {
            0 => measured(&|| *X25519Kem::random_keypair(&mut tape(&black_box(&place.0).0[..32])).1.as_ref().as_bytes()).1,
            1 => measured(&|| place.1.encapsulate(&mut tape(&black_box(&place.0).0[..32])).unwrap().1.to_bytes()).1,
            _ => measured(&|| key.decapsulate(black_box(place.1.as_ref().as_ref())).unwrap().to_bytes()).1,
        }
    })
}
macro_rules! ec {
    ($name:ident, $kem:ty, $crv:ty, $len:literal) => {
        #[inline(never)]
        fn $name(op: u8, peer: &[u8], runs: [&[u8]; 2]) -> [Seen; 2] {
            let peer = elliptic_curve::PublicKey::<$crv>::from_sec1_bytes(peer).expect("a point");
            let to = dhkem::DhEncapsulator::from(peer);
            let mut place = tape(&[0; $len]);
            let mut key = None;
            twice(runs, &mut |s| {
                place = tape(s);
                key = Some(<$kem>::random_keypair(&mut tape(s)).0);
                let k = key.as_ref().unwrap();
                match op % 3 {
                    0 => measured(&|| <$kem>::random_keypair(&mut tape(&black_box(&place).0[..$len])).1).1,
                    1 => measured(&|| to.encapsulate(&mut tape(&black_box(&place).0[..$len])).unwrap().1.raw_secret_bytes()[0]).1,
                    _ => measured(&|| k.decapsulate(black_box(&peer)).unwrap().raw_secret_bytes()[0]).1,
                }
            })
        }
    };
}
ec!(ec0, dhkem::Secp256k1Kem, k256::Secp256k1, 32);
ec!(ec1, dhkem::NistP256Kem, p256::NistP256, 32);
ec!(ec2, dhkem::NistP384Kem, p384::NistP384, 48);
ec!(ec3, dhkem::NistP521Kem, p521::NistP521, 66);

pub fn both(c: &C21Case, o: &mut Obs) -> [Seen; 2] {
    let ops = ["key generation", "encapsulation", "decapsulation"];
    match c {
        C21Case::X { op, a, b } => {
            o.label("X25519");
            o.label(ops[*op as usize % 3]);
            let get = |x: &(Bytes, Point)| (x.0.b32(), x.1.get_for(&x.0.b32()));
            let (x, y) = (get(a), get(b));
            if x != y {
                o.nontrivial();
            }
            x25519(*op, [x, y])
        }
        C21Case::Ec { curve, op, peer, a, b } => {
            let s = dh_suite(curve % 4);
            let c = s.curve().expect("EC");
            o.label(c.name);
            o.label(ops[*op as usize % 3]);
            let (x, y) = (a.get(c), b.get(c));
            if x != y {
                o.nontrivial();
            }
            [ec0, ec1, ec2, ec3][*curve as usize % 4](*op, &peer.get(c, &x), [&x, &y])
        }
    }
}
/// Number of measured runs
pub fn warm() -> usize {
    let mut o = Obs::default();
    let b = Bytes::Fill(1);
    for op in 0..3 {
        let x = (b.clone(), Point::B(b.clone()));
        both(&C21Case::X { op, a: x.clone(), b: x }, &mut o);
        for curve in 0..4 {
            both(&C21Case::Ec { curve, op, peer: EcPoint::Mul(Scalar::Small(2)), a: Scalar::Small(3), b: Scalar::Small(4) }, &mut o);
        }
    }
    30
}

pub struct C21;
impl Prop for C21 {
    type Case = C21Case;
    const ID: &'static str = "C21";
    const RULE: &'static str = "A case is one operation (key generation, encapsulation, decapsulation) run twice: of the X25519 KEM with two secrets and two public values, or of an ECDH KEM with two secret scalars and one public point. Systematic: special scalars and strings (small, next to the order, powers of two, sparse, constant), low-order, non-canonical and twist X25519 points, points with small x, peers for which the shared secret has leading zeros. Oracle: the hash of the sequence of basic blocks (and of libc byte comparisons) is equal for the two runs; for secp256k1, its length. Non-trivial: the two inputs differ.";
    fn directed(&self, t: Tier, seed: u64) -> Vec<C21Case> {
        let mut v = vec![];
        let b = |x: u64| Bytes::seeded(seed ^ x);
        for op in 0..3u8 {
            for (i, x) in special32().into_iter().enumerate() {
                let p = Point::B(b(i as u64));
                v.push(C21Case::X { op, a: (x.clone(), p.clone()), b: (b(i as u64), p.clone()) });
                v.push(C21Case::X { op, a: (b(1), Point::B(x.clone())), b: (b(1), p) });
            }
            for n in 1..32u8 {
                let w = Bytes::Hex(hex(&std::array::from_fn::<u8, 32, _>(|i| if i < n as usize { 0 } else { 0x5a })));
                v.push(C21Case::X { op, a: (b(1), Point::Result(w, n)), b: (b(1), Point::B(b(2))) });
                let w = Bytes::Hex(hex(&std::array::from_fn::<u8, 32, _>(|i| if i < n as usize { 0x5a } else { 0 })));
                v.push(C21Case::X { op, a: (b(1), Point::Result(w, 0)), b: (b(1), Point::B(b(2))) });
            }
            for i in 0..16u8 {
                v.push(C21Case::X { op, a: (b(1), Point::LowOrder(i)), b: (b(1), Point::B(b(i as u64))) });
                v.push(C21Case::X { op, a: (b(1), Point::NonCanonical(i as i16, i % 2 == 0)), b: (b(2), Point::B(b(i as u64))) });
            }
            for curve in 0..4u8 {
                for i in 0..if t == Tier::Quick { 60 } else { 521 } {
                    let seeded = Scalar::B(b(i as u64));
                    let peer = || EcPoint::Mul(Scalar::B(b(i as u64 % 5)));
                    v.push(C21Case::Ec { curve, op, peer: peer(), a: Scalar::Small(i + 1), b: seeded.clone() });
                    v.push(C21Case::Ec { curve, op, peer: peer(), a: Scalar::NearN(i), b: seeded.clone() });
                    v.push(C21Case::Ec { curve, op, peer: peer(), a: Scalar::PowTwo(if t == Tier::Quick { i * 9 + mix(seed) as u16 % 9 } else { i }), b: seeded.clone() });
                    v.push(C21Case::Ec { curve, op, peer: EcPoint::SmallX(i, i % 2 == 0), a: Scalar::PowTwoMinus(i * 9), b: seeded.clone() });
                    v.push(C21Case::Ec { curve, op, peer: EcPoint::SmallSecret(i, i % 2 == 0), a: seeded.clone(), b: Scalar::Small(i + 1) });
                    v.push(C21Case::Ec { curve, op, peer: EcPoint::AtSecret(Bytes::Sparse(0, vec![(i, 0x5a)]), i % 2 == 0), a: seeded.clone(), b: Scalar::Small(i + 1) });
                    v.push(C21Case::Ec { curve, op, peer: EcPoint::Own(i % 2 == 0), a: seeded, b: Scalar::Small(i + 1) });
                }
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<C21Case> {
        prop_oneof![
            3 => (0u8..3, (bytes(), point()), (bytes(), point())).prop_map(|(op, a, b)| C21Case::X { op, a, b }),
            2 => (0u8..4, 0u8..3, ecpoint(), scalar(), scalar()).prop_map(|(curve, op, peer, a, b)| C21Case::Ec { curve, op, peer, a, b }),
        ]
        .boxed()
    }
    fn random_cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 20_000 } else { 400_000 }
    }
    fn check(&self, c: &C21Case, o: &mut Obs) -> Result<(), String> {
        use std::sync::Once;
        static ONCE: Once = Once::new();
        ONCE.call_once(|| {
            warm();
        });
        // SAFETY: cov.c
        if unsafe { crate::ct_instrumented() } == 0 {
            return Err(format!("{HARNESS_BUG}: this build is not instrumented"));
        }
        let [x, y] = both(c, o);
        o.add(2);
        if x.blocks < 100 {
            return Err(format!("{HARNESS_BUG}: only {} blocks seen", x.blocks));
        }
        // k256 takes one of two equally long paths by the sign of half a scalar: there, only their length counts
        let mirrored = matches!(c, C21Case::Ec { curve, .. } if curve % 4 == 0);
        if x.blocks != y.blocks || (x.hash != y.hash && !mirrored) {
            return Err(format!("the control flow differs: {} against {} basic blocks executed", x.blocks, y.blocks));
        }
        Ok(())
    }
}
