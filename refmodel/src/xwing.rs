//! X-Wing (draft-connolly-cfrg-xwing-kem) as pinned by the published test vectors: SHAKE128 seed expansion,
//! SHA3-256 combiner with the label first.
use crate::keccak::{sha3_256, shake128_96};
use crate::mlkem::{self, ML768};
use crate::x25519;

pub const LABEL: [u8; 6] = [0x5c, 0x2e, 0x2f, 0x2f, 0x5e, 0x5c];

pub struct Expanded {
    pub dk_m: Vec<u8>,
    pub ek_m: Vec<u8>,
    pub sk_x: [u8; 32],
    pub pk_x: [u8; 32],
}
pub fn expand(sk: &[u8; 32]) -> Expanded {
    let e = shake128_96(&[sk]);
    let (ek_m, dk_m) = mlkem::keygen(&ML768, e[..32].try_into().unwrap(), e[32..64].try_into().unwrap());
    let sk_x: [u8; 32] = e[64..].try_into().unwrap();
    Expanded { dk_m, ek_m, sk_x, pk_x: x25519::base(&sk_x) }
}
pub fn public(sk: &[u8; 32]) -> Vec<u8> {
    let e = expand(sk);
    let mut pk = e.ek_m;
    pk.extend_from_slice(&e.pk_x);
    pk
}
pub fn combine(ss_m: &[u8], ss_x: &[u8], ct_x: &[u8], pk_x: &[u8]) -> [u8; 32] {
    sha3_256(&[&LABEL, ss_m, ss_x, ct_x, pk_x])
}
/// `eseed` = m || ek_x
pub fn encaps(pk: &[u8], eseed: &[u8; 64]) -> (Vec<u8>, [u8; 32]) {
    let (ek_m, pk_x) = pk.split_at(1184);
    let (mut c, ss_m) = mlkem::encaps(&ML768, ek_m, eseed[..32].try_into().unwrap());
    let ek_x: &[u8; 32] = eseed[32..].try_into().unwrap();
    let ct_x = x25519::base(ek_x);
    let ss_x = x25519::x25519(ek_x, pk_x.try_into().unwrap());
    c.extend_from_slice(&ct_x);
    let ss = combine(&ss_m, &ss_x, &ct_x, pk_x);
    (c, ss)
}
pub struct Dec {
    pub ss: [u8; 32],
    pub ss_x: [u8; 32],
    pub accepted: bool,
}
pub fn decaps_expanded(e: &Expanded, ct: &[u8]) -> Dec {
    let (c_m, ct_x) = ct.split_at(1088);
    let d = mlkem::decaps(&ML768, &e.dk_m, c_m);
    let ss_x = x25519::x25519(&e.sk_x, ct_x.try_into().unwrap());
    Dec { ss: combine(&d.key, &ss_x, ct_x, &e.pk_x), ss_x, accepted: d.accepted }
}
pub fn decaps(sk: &[u8; 32], ct: &[u8]) -> Dec {
    decaps_expanded(&expand(sk), ct)
}
