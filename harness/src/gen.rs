//! Compact, serializable, shrinkable descriptions of byte strings and polynomials, and their generators.
use crate::rng::{mix, stream_byte};
use proptest::prelude::*;
use refmodel::mlkem::{encode_vec, Params, Poly, Q};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bytes {
    Fill(u8),
    /// a fill byte with some positions (mod length) overwritten
    Sparse(u8, Vec<(u16, u8)>),
    Ramp(u8, u8),
    Seeded(u64),
    /// a pseudo-random string with some positions overwritten
    Patched(u64, Vec<(u16, u8)>),
    /// explicit bytes, repeated if short
    Hex(String),
}
use Bytes::*;
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}
thread_local! {
    /// which strings a case was turned into, and how long they were (only while something listens)
    static USED: std::cell::RefCell<Option<Vec<(Bytes, usize)>>> = const { std::cell::RefCell::new(None) };
}
pub fn listen(on: bool) -> Vec<(Bytes, usize)> {
    USED.with(|u| u.replace(on.then(Vec::new))).unwrap_or_default()
}
impl Bytes {
    pub fn get(&self, n: usize) -> Vec<u8> {
        USED.with(|u| {
            if let Some(l) = &mut *u.borrow_mut() {
                if l.len() < 64 && !l.iter().any(|x| x.1 == n && x.0 == *self) {
                    l.push((self.clone(), n));
                }
            }
        });
        self.make(n)
    }
    fn make(&self, n: usize) -> Vec<u8> {
        match self {
            Fill(b) => vec![*b; n],
            Sparse(f, at) => {
                let mut v = vec![*f; n];
                for (p, b) in at {
                    v[*p as usize % n] = *b;
                }
                v
            }
            Ramp(a, s) => (0..n).map(|i| a.wrapping_add(s.wrapping_mul(i as u8))).collect(),
            Seeded(s) => (0..n).map(|i| stream_byte(*s, i)).collect(),
            Patched(s, at) => {
                let mut v: Vec<u8> = (0..n).map(|i| stream_byte(*s, i)).collect();
                for (p, b) in at {
                    v[*p as usize % n] = *b;
                }
                v
            }
            Hex(s) => {
                let b = unhex(s);
                (0..n).map(|i| if b.is_empty() { 0 } else { b[i % b.len()] }).collect()
            }
        }
    }
    pub fn b32(&self) -> [u8; 32] {
        self.get(32).try_into().unwrap()
    }
    pub fn seeded(s: u64) -> Bytes {
        Seeded(mix(s))
    }
    pub fn structured(&self) -> bool {
        !matches!(self, Seeded(_) | Patched(..))
    }
}
pub fn edge_byte() -> impl Strategy<Value = u8> {
    prop_oneof![Just(0u8), Just(1), Just(0xff), Just(0x7f), Just(0x80), Just(0xfe), any::<u8>(), any::<u8>()]
}
pub fn bytes() -> BoxedStrategy<Bytes> {
    let at = || prop::collection::vec((any::<u16>(), edge_byte()), 1..5);
    prop_oneof![
        1 => edge_byte().prop_map(Fill),
        2 => (edge_byte(), at()).prop_map(|(f, a)| Sparse(f, a)),
        1 => (any::<u8>(), edge_byte()).prop_map(|(a, s)| Ramp(a, s)),
        8 => any::<u64>().prop_map(Seeded),
        3 => (any::<u64>(), at()).prop_map(|(s, a)| Patched(s, a)),
    ]
    .boxed()
}
/// seeds for keys: mostly pseudo-random, often structured
pub fn seed32() -> BoxedStrategy<Bytes> {
    bytes()
}

/// every (position, value) of an n-byte string over a fixed background
pub fn one_hot(n: usize, fill: u8, step: usize) -> Vec<Bytes> {
    let mut v = vec![];
    for p in 0..n {
        for b in (0..256usize).step_by(step) {
            v.push(Sparse(fill, vec![(p as u16, b as u8)]));
        }
    }
    v
}
/// every (position, value) over a pseudo-random background
pub fn one_hot_random(n: usize, seed: u64, step: usize) -> Vec<Bytes> {
    let mut v = vec![];
    for p in 0..n {
        for b in (0..256usize).step_by(step) {
            v.push(Patched(mix(seed ^ (p * 256 + b) as u64), vec![(p as u16, b as u8)]));
        }
    }
    v
}
/// strings in which two halves coincide, ascending runs and other special shapes
pub fn special32() -> Vec<Bytes> {
    let mut v: Vec<Bytes> = (0..=255).map(Fill).collect();
    for s in [1u8, 2, 3, 5, 7, 16, 17, 32, 64, 127, 128, 129, 253, 254, 255] {
        for a in [0u8, 1, 0x80, 0xff] {
            v.push(Ramp(a, s));
        }
    }
    for i in 0..256 {
        // every single bit
        v.push(Sparse(0, vec![((i / 8) as u16, 1 << (i % 8))]));
        v.push(Sparse(0xff, vec![((i / 8) as u16, !(1 << (i % 8)))]));
    }
    for (a, b) in [("00ff", 0), ("ff00", 1), ("aa55", 2), ("0000ffff", 3), ("00000000ffffffff", 4), ("deadbeef", 5), ("0123456789abcdef", 6)] {
        let _ = b;
        v.push(Hex(a.into()));
    }
    for half in 0..4u64 {
        let h: Vec<u8> = (0..16).map(|i| stream_byte(half, i)).collect();
        v.push(Hex(hex(&h))); // first half == second half
    }
    v
}

// ---------------------------------------------------------------- polynomials
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum PolyS {
    Const(u16),
    OneHot { fill: u16, pos: u8, val: u16 },
    Ramp(u16, u16),
    /// values from -eta..=eta
    Small(u64),
    /// values next to the rounding and reduction boundaries
    Edge(u64),
    Seeded(u64),
}
pub const EDGES: [u16; 24] = [
    0, 1, 2, 3328, 3327, 3326, 1664, 1665, 1663, 1666, 832, 833, 2496, 2497, 831, 2498, 2048, 2047, 1024, 1023, 104, 3224, 52, 3277,
];
impl PolyS {
    pub fn get(&self) -> Poly {
        let q = |x: u64| (x % Q as u64) as u16;
        match self {
            PolyS::Const(c) => [q(*c as u64); 256],
            PolyS::OneHot { fill, pos, val } => {
                let mut f = [q(*fill as u64); 256];
                f[*pos as usize] = q(*val as u64);
                f
            }
            PolyS::Ramp(a, s) => std::array::from_fn(|i| q(*a as u64 + *s as u64 * i as u64)),
            PolyS::Small(s) => std::array::from_fn(|i| q(Q as u64 + stream_byte(*s, i) as u64 % 7 - 3)),
            PolyS::Edge(s) => std::array::from_fn(|i| EDGES[stream_byte(*s, i) as usize % EDGES.len()]),
            PolyS::Seeded(s) => std::array::from_fn(|i| q(mix(*s ^ mix(i as u64)))),
        }
    }
}
pub fn coeff() -> BoxedStrategy<u16> {
    prop_oneof![3 => 0u16..3329, 1 => prop::sample::select(EDGES.to_vec())].boxed()
}
pub fn poly() -> BoxedStrategy<PolyS> {
    prop_oneof![
        2 => coeff().prop_map(PolyS::Const),
        2 => (coeff(), any::<u8>(), coeff()).prop_map(|(fill, pos, val)| PolyS::OneHot { fill, pos, val }),
        1 => (coeff(), coeff()).prop_map(|(a, s)| PolyS::Ramp(a, s)),
        1 => any::<u64>().prop_map(PolyS::Small),
        3 => any::<u64>().prop_map(PolyS::Edge),
        4 => any::<u64>().prop_map(PolyS::Seeded),
    ]
    .boxed()
}
pub type PolyVec = [PolyS; 4];
pub fn polyvec() -> BoxedStrategy<PolyVec> {
    prop_oneof![
        1 => poly().prop_map(|f| [f.clone(), f.clone(), f.clone(), f]),
        4 => [poly(), poly(), poly(), poly()],
    ]
    .boxed()
}
pub fn polys(v: &PolyVec, k: usize) -> Vec<Poly> {
    v[..k].iter().map(|f| f.get()).collect()
}

/// Matrix seeds
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Rho {
    B(Bytes),
    /// from the committed list of seeds with rare rejection-sampling behaviour
    Mined(u8),
}
impl Rho {
    pub fn get(&self) -> [u8; 32] {
        match self {
            Rho::B(b) => b.b32(),
            Rho::Mined(i) => crate::mined::rho(*i as usize),
        }
    }
}
pub fn rho() -> BoxedStrategy<Rho> {
    prop_oneof![3 => bytes().prop_map(Rho::B), 2 => any::<u8>().prop_map(Rho::Mined)].boxed()
}

// ---------------------------------------------------------------- ML-KEM keys
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum EkS {
    Honest(Bytes),
    Synth(PolyVec, Rho),
    /// any bytes, coefficients reduced
    Raw(Bytes),
}
impl EkS {
    /// canonical encoding
    pub fn get(&self, p: &Params) -> Vec<u8> {
        match self {
            EkS::Honest(d) => refmodel::mlkem::keygen(p, &d.b32(), &[0; 32]).0,
            EkS::Synth(t, r) => {
                let mut o = encode_vec(12, &polys(t, p.k));
                o.extend_from_slice(&r.get());
                o
            }
            EkS::Raw(b) => refmodel::mlkem::canon_ek(p, &b.get(p.ek_len())),
        }
    }
}
pub fn ek() -> BoxedStrategy<EkS> {
    prop_oneof![
        2 => bytes().prop_map(EkS::Honest),
        4 => (polyvec(), rho()).prop_map(|(t, r)| EkS::Synth(t, r)),
        1 => bytes().prop_map(EkS::Raw),
    ]
    .boxed()
}
pub fn ps() -> impl Strategy<Value = u8> {
    0u8..3
}

/// Changes to a byte string
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mut {
    /// xor (0 is replaced by 1, so that it is always a change)
    Xor(u16, u8),
    Set(u16, u8),
    Add(u16, u8),
    /// two positions changed by the same difference
    Pair(u16, u16, u8),
    Swap(u16, u16),
    /// everything from this position on replaced by a fill byte
    Tail(u16, u8),
    /// everything before this position replaced
    Head(u16, u8),
    Rotate(u16),
    Not,
    Reverse,
    /// overwritten from a pseudo-random string
    Refill(u64),
}
impl Mut {
    pub fn apply(&self, v: &mut [u8]) {
        let n = v.len();
        let at = |p: &u16| *p as usize % n;
        match self {
            Mut::Xor(p, b) => v[at(p)] ^= (*b).max(1),
            Mut::Set(p, b) => v[at(p)] = *b,
            Mut::Add(p, b) => v[at(p)] = v[at(p)].wrapping_add((*b).max(1)),
            Mut::Pair(a, b, d) => {
                v[at(a)] ^= (*d).max(1);
                v[at(b)] ^= (*d).max(1);
            }
            Mut::Swap(a, b) => v.swap(at(a), at(b)),
            Mut::Tail(p, b) => v[at(p)..].fill(*b),
            Mut::Head(p, b) => v[..at(p)].fill(*b),
            Mut::Rotate(p) => v.rotate_left(at(p)),
            Mut::Not => v.iter_mut().for_each(|x| *x = !*x),
            Mut::Reverse => v.reverse(),
            Mut::Refill(s) => v.iter_mut().enumerate().for_each(|(i, x)| *x = stream_byte(*s, i)),
        }
    }
}
pub fn apply(muts: &[Mut], v: &mut [u8]) {
    for m in muts {
        m.apply(v)
    }
}
pub fn mutation() -> BoxedStrategy<Mut> {
    prop_oneof![
        6 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mut::Xor(a, b)),
        4 => (any::<u16>(), 0u8..8).prop_map(|(a, b)| Mut::Xor(a, 1 << b)),
        3 => (any::<u16>(), edge_byte()).prop_map(|(a, b)| Mut::Set(a, b)),
        2 => (any::<u16>(), edge_byte()).prop_map(|(a, b)| Mut::Add(a, b)),
        4 => (any::<u16>(), any::<u16>(), any::<u8>()).prop_map(|(a, b, c)| Mut::Pair(a, b, c)),
        2 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Mut::Swap(a, b)),
        1 => (any::<u16>(), edge_byte()).prop_map(|(a, b)| Mut::Tail(a, b)),
        1 => (any::<u16>(), edge_byte()).prop_map(|(a, b)| Mut::Head(a, b)),
        1 => any::<u16>().prop_map(Mut::Rotate),
        1 => Just(Mut::Not),
        1 => Just(Mut::Reverse),
        1 => any::<u64>().prop_map(Mut::Refill),
    ]
    .boxed()
}
pub fn mutations() -> BoxedStrategy<Vec<Mut>> {
    prop_oneof![4 => prop::collection::vec(mutation(), 1..2), 2 => prop::collection::vec(mutation(), 1..6)].boxed()
}

/// first differing byte, for messages
pub fn diff(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    if got.len() != want.len() {
        return Err(format!("{what}: length {} instead of {}", got.len(), want.len()));
    }
    let i = (0..got.len()).find(|&i| got[i] != want[i]).unwrap();
    let n = (0..got.len()).filter(|&i| got[i] != want[i]).count();
    let e = (i + 8).min(got.len());
    Err(format!("{what}: {n} of {} bytes differ, first at {i}: got {} want {}", got.len(), hex(&got[i..e]), hex(&want[i..e])))
}
