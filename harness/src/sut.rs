//! Uniform, byte-level access to the code under test (public API only).
use crate::rng::ScriptRng;
use refmodel::mlkem::{Params, ML1024, ML512, ML768};
use std::any::Any;
use std::fmt::Debug;

pub type R<T> = Result<T, String>;

/// Any `Err` from the code under test is a failure of the check, not of the harness.
pub fn ok<T, E: Debug>(what: &str, r: Result<T, E>) -> R<T> {
    r.map_err(|e| format!("{what} returned an error: {e:?}"))
}

/// Gives `f` the value at an odd address when `odd` says so: byte arrays have no alignment to rely on.
fn placed<T, O>(odd: bool, v: T, f: impl FnOnce(&T) -> O) -> O {
    #[repr(C)]
    struct Odd<T> {
        pad: u8,
        v: T,
    }
    if odd && std::mem::align_of::<T>() == 1 {
        f(&Box::new(Odd { pad: 0, v }).v)
    } else {
        f(&v)
    }
}
/// decided by the content, so that a case always does the same
fn odd(b: &[u8]) -> bool {
    (b[0] ^ b[b.len() / 2] ^ b[b.len() - 1]) & 1 == 1
}

pub trait EkObj: Send + Sync {
    fn bytes(&self) -> Vec<u8>;
    fn encaps_det(&self, m: &[u8; 32]) -> R<(Vec<u8>, [u8; 32])>;
    fn encaps(&self, rng: &mut ScriptRng) -> R<(Vec<u8>, [u8; 32])>;
    fn dup(&self) -> Box<dyn EkObj>;
    fn same(&self, o: &dyn EkObj) -> bool;
    fn any(&self) -> &dyn Any;
}
pub trait DkObj: Send + Sync {
    fn bytes(&self) -> Vec<u8>;
    fn decaps(&self, c: &[u8]) -> R<[u8; 32]>;
    fn ek(&self) -> Box<dyn EkObj>;
    fn dup(&self) -> Box<dyn DkObj>;
    fn same(&self, o: &dyn DkObj) -> bool;
    fn any(&self) -> &dyn Any;
}
pub type Ek = Box<dyn EkObj>;
pub type Dk = Box<dyn DkObj>;
pub trait Suite: Sync + Send {
    fn p(&self) -> &'static Params;
    fn gen_det(&self, d: &[u8; 32], z: &[u8; 32]) -> (Dk, Ek);
    fn gen(&self, rng: &mut ScriptRng) -> (Dk, Ek);
    fn ek(&self, b: &[u8]) -> Ek;
    fn dk(&self, b: &[u8]) -> Dk;
}

macro_rules! suite {
    ($name:ident, $kem:ty, $params:ty, $p:expr) => {
        pub struct $name;
        const _: () = {
            use kem::{Decapsulate, Encapsulate};
            use ml_kem::kem::{DecapsulationKey, EncapsulationKey};
            use ml_kem::{EncapsulateDeterministic, EncodedSizeUser, KemCore};
            type E = EncapsulationKey<$params>;
            type D = DecapsulationKey<$params>;
            impl EkObj for E {
                fn bytes(&self) -> Vec<u8> {
                    self.as_bytes().as_slice().to_vec()
                }
                fn encaps_det(&self, m: &[u8; 32]) -> R<(Vec<u8>, [u8; 32])> {
                    let (c, k) = ok("encapsulate_deterministic", placed(odd(m), (*m).into(), |m| self.encapsulate_deterministic(m)))?;
                    Ok((c.as_slice().to_vec(), k.into()))
                }
                fn encaps(&self, rng: &mut ScriptRng) -> R<(Vec<u8>, [u8; 32])> {
                    let (c, k) = ok("encapsulate", self.encapsulate(rng))?;
                    Ok((c.as_slice().to_vec(), k.into()))
                }
                fn dup(&self) -> Ek {
                    Box::new(self.clone())
                }
                fn same(&self, o: &dyn EkObj) -> bool {
                    self == o.any().downcast_ref::<E>().expect("same parameter set")
                }
                fn any(&self) -> &dyn Any {
                    self
                }
            }
            impl DkObj for D {
                fn bytes(&self) -> Vec<u8> {
                    self.as_bytes().as_slice().to_vec()
                }
                fn decaps(&self, c: &[u8]) -> R<[u8; 32]> {
                    let k = ok("decapsulate", placed(odd(c), c.try_into().expect("ciphertext size"), |c| self.decapsulate(c)))?;
                    Ok(k.into())
                }
                fn ek(&self) -> Ek {
                    Box::new(self.encapsulation_key().clone())
                }
                fn dup(&self) -> Dk {
                    Box::new(self.clone())
                }
                fn same(&self, o: &dyn DkObj) -> bool {
                    self == o.any().downcast_ref::<D>().expect("same parameter set")
                }
                fn any(&self) -> &dyn Any {
                    self
                }
            }
            impl Suite for $name {
                fn p(&self) -> &'static Params {
                    &$p
                }
                fn gen_det(&self, d: &[u8; 32], z: &[u8; 32]) -> (Dk, Ek) {
                    let (dk, ek) = placed(odd(d), (*d).into(), |d| placed(odd(z), (*z).into(), |z| <$kem>::generate_deterministic(d, z)));
                    (Box::new(dk), Box::new(ek))
                }
                fn gen(&self, rng: &mut ScriptRng) -> (Dk, Ek) {
                    let (dk, ek) = <$kem>::generate(rng);
                    (Box::new(dk), Box::new(ek))
                }
                fn ek(&self, b: &[u8]) -> Ek {
                    Box::new(placed(odd(b), b.try_into().expect("encapsulation key size"), E::from_bytes))
                }
                fn dk(&self, b: &[u8]) -> Dk {
                    Box::new(placed(odd(b), b.try_into().expect("decapsulation key size"), D::from_bytes))
                }
            }
        };
    };
}
suite!(S512, ml_kem::MlKem512, ml_kem::MlKem512Params, ML512);
suite!(S768, ml_kem::MlKem768, ml_kem::MlKem768Params, ML768);
suite!(S1024, ml_kem::MlKem1024, ml_kem::MlKem1024Params, ML1024);

pub fn suite(i: u8) -> &'static dyn Suite {
    match i % 3 {
        0 => &S512,
        1 => &S768,
        _ => &S1024,
    }
}

// ---------------------------------------------------------------- X-Wing
pub mod xw {
    use super::*;
    use kem::{Decapsulate, Encapsulate};
    pub use x_wing::{Ciphertext, DecapsulationKey, EncapsulationKey};
    pub fn dk(sk: &[u8; 32]) -> DecapsulationKey {
        DecapsulationKey::from(*sk)
    }
    pub fn ek(b: &[u8]) -> EncapsulationKey {
        placed(odd(b), b.try_into().expect("X-Wing public key size"), |b: &[u8; 1216]| EncapsulationKey::from(b))
    }
    pub fn ct(b: &[u8]) -> Ciphertext {
        placed(odd(b), b.try_into().expect("X-Wing ciphertext size"), |b: &[u8; 1120]| Ciphertext::from(b))
    }
    pub fn encaps(ek: &EncapsulationKey, rng: &mut ScriptRng) -> R<(Ciphertext, [u8; 32])> {
        ok("X-Wing encapsulate", ek.encapsulate(rng))
    }
    pub fn decaps(dk: &DecapsulationKey, c: &Ciphertext) -> R<[u8; 32]> {
        if odd(dk.as_bytes()) {
            return ok("X-Wing decapsulate", placed(true, dk.clone(), |dk| placed(true, c.clone(), |c| dk.decapsulate(c))));
        }
        ok("X-Wing decapsulate", dk.decapsulate(c))
    }
}

// ---------------------------------------------------------------- DH KEMs
pub trait DhEk: Send + Sync {
    /// uncompressed SEC1, or the 32 bytes for X25519, read from the wrapped value
    fn bytes(&self) -> Vec<u8>;
    /// through the wrapper's own encoding trait (uncompressed, compressed); X25519 has none
    fn encoded(&self) -> (Vec<u8>, Vec<u8>);
    fn encaps(&self, rng: &mut ScriptRng) -> R<(Vec<u8>, Vec<u8>)>;
    fn dup(&self) -> Box<dyn DhEk>;
}
pub trait DhDk: Send + Sync {
    fn decaps(&self, pt: &[u8]) -> R<Vec<u8>>;
    /// the public key of the wrapped secret, through AsRef
    fn public(&self) -> Vec<u8>;
    /// unwrap and wrap again
    fn rewrap(self: Box<Self>) -> Box<dyn DhDk>;
}
pub trait DhSuite: Sync + Send {
    fn name(&self) -> &'static str;
    fn scalar_len(&self) -> usize;
    fn curve(&self) -> Option<&'static refmodel::ec::Curve>;
    fn keypair(&self, rng: &mut ScriptRng) -> (Box<dyn DhDk>, Box<dyn DhEk>);
    /// `None` when the bytes are not a public key
    fn ek(&self, b: &[u8]) -> Option<Box<dyn DhEk>>;
}

macro_rules! ec_suite {
    ($name:ident, $kem:ty, $curve:ty, $n:literal, $len:literal, $refc:path) => {
        pub struct $name;
        const _: () = {
            use dhkem::{DhDecapsulator, DhEncapsulator, DhKem};
            use elliptic_curve::{ecdh::EphemeralSecret, sec1::ToEncodedPoint, PublicKey};
            use kem::{Decapsulate, Encapsulate};
            type P = PublicKey<$curve>;
            type E = DhEncapsulator<P>;
            type D = DhDecapsulator<EphemeralSecret<$curve>>;
            impl DhEk for E {
                fn bytes(&self) -> Vec<u8> {
                    self.as_ref().to_encoded_point(false).as_bytes().to_vec()
                }
                fn encoded(&self) -> (Vec<u8>, Vec<u8>) {
                    (self.to_encoded_point(false).as_bytes().to_vec(), self.to_encoded_point(true).as_bytes().to_vec())
                }
                fn encaps(&self, rng: &mut ScriptRng) -> R<(Vec<u8>, Vec<u8>)> {
                    let (pk, ss) = ok("DH encapsulate", self.encapsulate(rng))?;
                    Ok((pk.to_encoded_point(false).as_bytes().to_vec(), ss.raw_secret_bytes().to_vec()))
                }
                fn dup(&self) -> Box<dyn DhEk> {
                    Box::new(self.clone())
                }
            }
            impl DhDk for D {
                fn decaps(&self, pt: &[u8]) -> R<Vec<u8>> {
                    let pk = P::from_sec1_bytes(pt).expect("a curve point");
                    let ss = ok("DH decapsulate", self.decapsulate(&pk))?;
                    Ok(ss.raw_secret_bytes().to_vec())
                }
                fn public(&self) -> Vec<u8> {
                    self.as_ref().public_key().to_encoded_point(false).as_bytes().to_vec()
                }
                fn rewrap(self: Box<Self>) -> Box<dyn DhDk> {
                    Box::new(D::from((*self).into_inner()))
                }
            }
            impl DhSuite for $name {
                fn name(&self) -> &'static str {
                    $n
                }
                fn scalar_len(&self) -> usize {
                    $len
                }
                fn curve(&self) -> Option<&'static refmodel::ec::Curve> {
                    Some($refc())
                }
                fn keypair(&self, rng: &mut ScriptRng) -> (Box<dyn DhDk>, Box<dyn DhEk>) {
                    let (d, e) = <$kem>::random_keypair(rng);
                    (Box::new(d), Box::new(e))
                }
                fn ek(&self, b: &[u8]) -> Option<Box<dyn DhEk>> {
                    Some(Box::new(E::from(P::from_sec1_bytes(b).ok()?)))
                }
            }
        };
    };
}
ec_suite!(K256, dhkem::Secp256k1Kem, k256::Secp256k1, "secp256k1", 32, refmodel::ec::k256);
ec_suite!(P256, dhkem::NistP256Kem, p256::NistP256, "P-256", 32, refmodel::ec::p256);
ec_suite!(P384, dhkem::NistP384Kem, p384::NistP384, "P-384", 48, refmodel::ec::p384);
ec_suite!(P521, dhkem::NistP521Kem, p521::NistP521, "P-521", 66, refmodel::ec::p521);

pub struct X25519;
const _: () = {
    use dhkem::{DhDecapsulator, DhEncapsulator, DhKem, X25519Kem};
    use kem::{Decapsulate, Encapsulate};
    use x25519_dalek::{PublicKey, ReusableSecret};
    type E = DhEncapsulator<PublicKey>;
    type D = DhDecapsulator<ReusableSecret>;
    fn pk(b: &[u8]) -> PublicKey {
        PublicKey::from(<[u8; 32]>::try_from(b).expect("32 bytes"))
    }
    fn check_contributory(ss: &x25519_dalek::SharedSecret) -> R<()> {
        if ss.was_contributory() != (ss.as_bytes() != &[0; 32]) {
            return Err("was_contributory disagrees with the all-zero secret".into());
        }
        Ok(())
    }
    impl DhEk for E {
        fn bytes(&self) -> Vec<u8> {
            self.as_ref().as_bytes().to_vec()
        }
        fn encoded(&self) -> (Vec<u8>, Vec<u8>) {
            let b: Vec<u8> = self.clone().into_inner().to_bytes().to_vec();
            (b.clone(), b)
        }
        fn encaps(&self, rng: &mut ScriptRng) -> R<(Vec<u8>, Vec<u8>)> {
            let (pk, ss) = ok("X25519 encapsulate", self.encapsulate(rng))?;
            check_contributory(&ss)?;
            Ok((pk.as_bytes().to_vec(), ss.as_bytes().to_vec()))
        }
        fn dup(&self) -> Box<dyn DhEk> {
            Box::new(self.clone())
        }
    }
    impl DhDk for D {
        fn decaps(&self, pt: &[u8]) -> R<Vec<u8>> {
            let ss = ok("X25519 decapsulate", self.decapsulate(&pk(pt)))?;
            check_contributory(&ss)?;
            Ok(ss.as_bytes().to_vec())
        }
        fn public(&self) -> Vec<u8> {
            PublicKey::from(self.as_ref()).as_bytes().to_vec()
        }
        fn rewrap(self: Box<Self>) -> Box<dyn DhDk> {
            Box::new(D::from((*self).into_inner()))
        }
    }
    impl DhSuite for X25519 {
        fn name(&self) -> &'static str {
            "X25519"
        }
        fn scalar_len(&self) -> usize {
            32
        }
        fn curve(&self) -> Option<&'static refmodel::ec::Curve> {
            None
        }
        fn keypair(&self, rng: &mut ScriptRng) -> (Box<dyn DhDk>, Box<dyn DhEk>) {
            let (d, e) = X25519Kem::random_keypair(rng);
            (Box::new(d), Box::new(e))
        }
        fn ek(&self, b: &[u8]) -> Option<Box<dyn DhEk>> {
            Some(Box::new(E::from(pk(b))))
        }
    }
};
pub fn dh_suite(i: u8) -> &'static dyn DhSuite {
    match i % 5 {
        0 => &K256,
        1 => &P256,
        2 => &P384,
        3 => &P521,
        _ => &X25519,
    }
}
