//! The operations a build offers, by name; needs only `alloc`, so that it also builds for targets without an operating system.
use alloc::{format, string::String, vec, vec::Vec};

#[allow(unused_imports)]
use kem::{Decapsulate, Encapsulate};

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// hands out the given bytes, over and over
#[allow(dead_code)]
struct Rng(Vec<u8>, usize);
impl rand_core::RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.0[self.1 % self.0.len()];
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand_core::CryptoRng for Rng {}

#[cfg(feature = "ml")]
fn ml<K: ml_kem::KemCore>(op: &str, a: &[Vec<u8>]) -> Option<Vec<u8>>
where
    K::DecapsulationKey: Clone + PartialEq,
    K::EncapsulationKey: Clone + PartialEq,
{
    use ml_kem::{Encoded, EncodedSizeUser};
    fn parse<T: EncodedSizeUser>(b: &[u8]) -> T {
        T::from_bytes(&Encoded::<T>::try_from(b).expect("length"))
    }
    Some(match op {
        "gen" => {
            let (dk, ek) = K::generate(&mut Rng(a[0].clone(), 0));
            let mut o = dk.as_bytes().as_slice().to_vec();
            o.extend_from_slice(ek.as_bytes().as_slice());
            o
        }
        "enc" => {
            let ek: K::EncapsulationKey = parse(&a[0]);
            let (c, k) = ek.encapsulate(&mut Rng(a[1].clone(), 0)).expect("encapsulate");
            [c.as_slice(), k.as_slice()].concat()
        }
        "dec" => {
            let dk: K::DecapsulationKey = parse(&a[0]);
            let c = ml_kem::Ciphertext::<K>::try_from(&a[1][..]).expect("length");
            let k = dk.decapsulate(&c).expect("decapsulate");
            k.as_slice().to_vec()
        }
        "rtd" => {
            let dk: K::DecapsulationKey = parse(&a[0]);
            let c = dk.clone();
            let mut o = c.as_bytes().as_slice().to_vec();
            o.push(u8::from(c == dk));
            o.push(u8::from(parse::<K::DecapsulationKey>(&o[..o.len() - 1]) == dk));
            o
        }
        "rte" => {
            let ek: K::EncapsulationKey = parse(&a[0]);
            let c = ek.clone();
            let mut o = c.as_bytes().as_slice().to_vec();
            o.push(u8::from(c == ek));
            o.push(u8::from(parse::<K::EncapsulationKey>(&o[..o.len() - 1]) == ek));
            o
        }
        // comparisons, and the public key a secret key exposes
        "eqd" => {
            let (x, y): (K::DecapsulationKey, K::DecapsulationKey) = (parse(&a[0]), parse(&a[1]));
            vec![u8::from(x == y), u8::from(y == x), u8::from(x == x.clone())]
        }
        "eqe" => {
            let (x, y): (K::EncapsulationKey, K::EncapsulationKey) = (parse(&a[0]), parse(&a[1]));
            vec![u8::from(x == y), u8::from(y == x), u8::from(x == x.clone())]
        }
        #[cfg(feature = "ml-det")]
        "gendet" => {
            let b = |v: &[u8]| <[u8; 32]>::try_from(v).unwrap().into();
            let (dk, ek) = K::generate_deterministic(&b(&a[0][..32]), &b(&a[0][32..64]));
            let mut o = dk.as_bytes().as_slice().to_vec();
            o.extend_from_slice(ek.as_bytes().as_slice());
            o
        }
        _ => return None,
    })
}
/// the public key a secret key exposes, its use, and the secret key's clone's
#[cfg(feature = "ml")]
fn mlpub(ps: &str, a: &[Vec<u8>]) -> Option<Vec<u8>> {
    use ml_kem::{Encoded, EncodedSizeUser, KemCore};
    macro_rules! go {
        ($k:ty) => {{
            type D = <$k as KemCore>::DecapsulationKey;
            let dk = D::from_bytes(&Encoded::<D>::try_from(&a[0][..]).expect("length"));
            let c = dk.clone();
            let (x, y) = (dk.encapsulation_key(), c.encapsulation_key());
            let (ct, k) = x.encapsulate(&mut Rng(a[1].clone(), 0)).expect("encapsulate");
            Some([x.as_bytes().as_slice(), y.as_bytes().as_slice(), ct.as_slice(), k.as_slice(), &[u8::from(x == y)]].concat())
        }};
    }
    match ps {
        "0" => go!(ml_kem::MlKem512),
        "1" => go!(ml_kem::MlKem768),
        _ => go!(ml_kem::MlKem1024),
    }
}
#[cfg(feature = "ml-det")]
fn mlencdet(ps: &str, a: &[Vec<u8>]) -> Option<Vec<u8>> {
    use ml_kem::{EncapsulateDeterministic, Encoded, EncodedSizeUser, KemCore};
    macro_rules! go {
        ($k:ty) => {{
            type E = <$k as KemCore>::EncapsulationKey;
            let ek = E::from_bytes(&Encoded::<E>::try_from(&a[0][..]).expect("length"));
            let m: [u8; 32] = a[1][..].try_into().unwrap();
            let (c, k) = ek.encapsulate_deterministic(&m.into()).expect("encapsulate");
            Some([c.as_slice(), k.as_slice()].concat())
        }};
    }
    match ps {
        "0" => go!(ml_kem::MlKem512),
        "1" => go!(ml_kem::MlKem768),
        _ => go!(ml_kem::MlKem1024),
    }
}

#[cfg(feature = "xw")]
fn xw(op: &str, a: &[Vec<u8>]) -> Option<Vec<u8>> {
    use x_wing::{Ciphertext, DecapsulationKey, EncapsulationKey};
    let dk = |v: &[u8]| DecapsulationKey::from(<[u8; 32]>::try_from(v).expect("length"));
    Some(match op {
        "gen" => {
            let (d, e) = x_wing::generate_key_pair(&mut Rng(a[0].clone(), 0));
            [&d.as_bytes()[..], &e.as_bytes()[..]].concat()
        }
        "enc" => {
            let e = EncapsulationKey::from(<&[u8; 1216]>::try_from(&a[0][..]).expect("length"));
            let (c, s) = e.encapsulate(&mut Rng(a[1].clone(), 0)).expect("encapsulate");
            [&c.as_bytes()[..], &s[..]].concat()
        }
        "dec" => {
            let c = Ciphertext::from(<&[u8; 1120]>::try_from(&a[1][..]).expect("length"));
            dk(&a[0]).decapsulate(&c).expect("decapsulate").to_vec()
        }
        "genpub" => {
            let d = DecapsulationKey::generate(&mut Rng(a[0].clone(), 0));
            [&d.as_bytes()[..], &d.clone().encapsulation_key().as_bytes()[..]].concat()
        }
        "eqp" => {
            let p = |v: &[u8]| EncapsulationKey::from(<&[u8; 1216]>::try_from(v).expect("length"));
            let (x, y) = (p(&a[0]), p(&a[1]));
            vec![u8::from(x == y), u8::from(y == x), u8::from(x == x.clone())]
        }
        "eqc" => {
            let p = |v: &[u8]| Ciphertext::from(<&[u8; 1120]>::try_from(v).expect("length"));
            let (x, y) = (p(&a[0]), p(&a[1]));
            vec![u8::from(x == y), u8::from(y == x), u8::from(x == x.clone())]
        }
        "rt" => {
            let e = EncapsulationKey::from(<&[u8; 1216]>::try_from(&a[0][..]).expect("length"));
            let c = Ciphertext::from(<&[u8; 1120]>::try_from(&a[1][..]).expect("length"));
            [&e.as_bytes()[..], &c.as_bytes()[..], &[u8::from(e.clone() == e), u8::from(c.clone() == c)]].concat()
        }
        _ => return None,
    })
}

#[cfg(feature = "dh")]
fn ec<K, C>(op: &str, a: &[Vec<u8>]) -> Option<Vec<u8>>
where
    C: elliptic_curve::CurveArithmetic,
    K: dhkem::DhKem<
        DecapsulatingKey = dhkem::DhDecapsulator<elliptic_curve::ecdh::EphemeralSecret<C>>,
        EncapsulatingKey = dhkem::DhEncapsulator<elliptic_curve::PublicKey<C>>,
        EncapsulatedKey = elliptic_curve::PublicKey<C>,
        SharedSecret = elliptic_curve::ecdh::SharedSecret<C>,
    >,
    elliptic_curve::AffinePoint<C>: elliptic_curve::sec1::FromEncodedPoint<C> + elliptic_curve::sec1::ToEncodedPoint<C>,
    C::FieldBytesSize: elliptic_curve::sec1::ModulusSize,
{
    use elliptic_curve::{sec1::ToEncodedPoint, PublicKey};
    let pk = |b: &[u8]| PublicKey::<C>::from_sec1_bytes(b).expect("point");
    Some(match op {
        "gen" => K::random_keypair(&mut Rng(a[0].clone(), 0)).1.to_encoded_point(false).as_bytes().to_vec(),
        "enc" => {
            let e = dhkem::DhEncapsulator::from(pk(&a[0]));
            let (c, s) = e.encapsulate(&mut Rng(a[1].clone(), 0)).expect("encapsulate");
            [c.to_encoded_point(false).as_bytes(), s.raw_secret_bytes().as_slice()].concat()
        }
        "dec" => {
            let d = K::random_keypair(&mut Rng(a[0].clone(), 0)).0;
            let s = d.decapsulate(&pk(&a[1])).expect("decapsulate");
            s.raw_secret_bytes().to_vec()
        }
        _ => return None,
    })
}
#[cfg(feature = "x25519")]
fn x25519(op: &str, a: &[Vec<u8>]) -> Option<Vec<u8>> {
    use dhkem::{DhEncapsulator, DhKem, X25519Kem};
    let pk = |b: &[u8]| x25519_dalek::PublicKey::from(<[u8; 32]>::try_from(b).expect("length"));
    Some(match op {
        "gen" => X25519Kem::random_keypair(&mut Rng(a[0].clone(), 0)).1.as_ref().as_bytes().to_vec(),
        "enc" => {
            let (c, s) = DhEncapsulator::from(pk(&a[0])).encapsulate(&mut Rng(a[1].clone(), 0)).expect("encapsulate");
            [&c.as_bytes()[..], &s.as_bytes()[..]].concat()
        }
        "dec" => {
            let d = X25519Kem::random_keypair(&mut Rng(a[0].clone(), 0)).0;
            let s = d.decapsulate(&pk(&a[1])).expect("decapsulate");
            s.as_bytes().to_vec()
        }
        _ => return None,
    })
}

#[allow(unused_variables)]
fn answer(name: &str, a: &[Vec<u8>]) -> Option<Vec<u8>> {
    let mut it = name.split('.');
    let (what, op) = (it.next()?, it.next()?);
    match what {
        #[cfg(feature = "ml-det")]
        "0" | "1" | "2" if op == "encdet" => mlencdet(what, a),
        #[cfg(feature = "ml")]
        "0" | "1" | "2" if op == "pub" => mlpub(what, a),
        #[cfg(feature = "ml")]
        "0" => ml::<ml_kem::MlKem512>(op, a),
        #[cfg(feature = "ml")]
        "1" => ml::<ml_kem::MlKem768>(op, a),
        #[cfg(feature = "ml")]
        "2" => ml::<ml_kem::MlKem1024>(op, a),
        #[cfg(feature = "xw")]
        "x" => xw(op, a),
        #[cfg(feature = "k256")]
        "secp256k1" => ec::<dhkem::Secp256k1Kem, _>(op, a),
        #[cfg(feature = "p256")]
        "P-256" => ec::<dhkem::NistP256Kem, _>(op, a),
        #[cfg(feature = "p384")]
        "P-384" => ec::<dhkem::NistP384Kem, _>(op, a),
        #[cfg(feature = "p521")]
        "P-521" => ec::<dhkem::NistP521Kem, _>(op, a),
        #[cfg(feature = "x25519")]
        "X25519" => x25519(op, a),
        _ => None,
    }
}

/// The answer to one request line
pub fn respond(line: &str) -> String {
    let mut w = line.split(' ');
    let name = w.next().unwrap_or("");
    let args: Vec<Vec<u8>> = w.map(unhex).collect();
    match answer(name, &args) {
        Some(b) => hex(&b),
        None => "-".into(),
    }
}
