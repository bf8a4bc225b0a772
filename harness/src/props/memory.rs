//! C18: what is left in a secret object's memory once it has been dropped or zeroized.
//!
//! Metamorphic: two objects that differ only in their secrets are built in the same place, used the same way and
//! destroyed; what they leave behind must be the same. The memory is read (a) in place after `drop_in_place` and
//! (b) by the allocator at the moment a dropped box is handed back, where the optimizer is free to delete
//! ordinary stores into memory that is about to die.
use super::dh::{scalar, Scalar};
use crate::engine::{Obs, Prop, Tier, HARNESS_BUG};
use crate::gen::*;
use crate::rng::{mix, ScriptRng};
use dhkem::{DhDecapsulator, DhEncapsulator, DhKem};
use kem::{Decapsulate, Encapsulate};
use ml_kem::{EncodedSizeUser, KemCore};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use refmodel::mlkem as rf;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::mem::{size_of, MaybeUninit};
use zeroize::{Zeroize, ZeroizeOnDrop};

// ------------------------------------------------------------------------------------------ watching allocator
const CAP: usize = 1 << 16;
thread_local! {
    static WATCH: Cell<*mut u8> = const { Cell::new(std::ptr::null_mut()) };
    static SEEN: Cell<*mut u8> = const { Cell::new(std::ptr::null_mut()) };
    static SEEN_LEN: Cell<usize> = const { Cell::new(0) };
    static BLOCKS: Cell<u64> = const { Cell::new(0) };
}
/// Heap blocks this thread has asked for so far
pub fn heap_blocks() -> u64 {
    BLOCKS.get()
}
fn count() {
    let _ = BLOCKS.try_with(|n| n.set(n.get() + 1));
}
pub struct Watcher;
// SAFETY: forwards to the system allocator; counts; on `dealloc` it only reads the block it was given.
unsafe impl GlobalAlloc for Watcher {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count();
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = WATCH.try_with(|w| {
            if w.get() == p {
                w.set(std::ptr::null_mut());
                let n = l.size().min(CAP);
                SEEN_LEN.set(n);
                let to = SEEN.get();
                for i in 0..n {
                    to.add(i).write_volatile(p.add(i).read_volatile());
                }
            }
        });
        System.dealloc(p, l)
    }
}

unsafe fn snapshot(p: *const u8, n: usize) -> Vec<u8> {
    (0..n).map(|i| p.add(i).read_volatile()).collect()
}

/// How a value ends, in the upper bits of `ops`
const ELSEWHERE: u8 = 8; // on another thread
const UNWINDING: u8 = 16; // while a panic unwinds the stack
const CLONED: u8 = 32; // what ends is a clone
const ENDS: u8 = ELSEWHERE | UNWINDING;

/// Destroys the value at this address as asked; the number of bytes seen by the allocator
fn end<T>(raw: *mut T, boxed: bool, how: u8, buf: &mut [u8]) -> usize {
    struct Both<T>(*mut T, *mut u8);
    // SAFETY: only one thread uses them at a time; the types destroyed here are Send
    unsafe impl<T> Send for Both<T> {}
    impl<T> Both<T> {
        fn kill(&self, boxed: bool) -> usize {
            // SAFETY: the value is initialized, owned by the caller, and dropped exactly once
            unsafe {
                if !boxed {
                    std::ptr::drop_in_place(self.0);
                    return 0;
                }
                let b = Box::from_raw(self.0);
                SEEN.set(self.1);
                SEEN_LEN.set(0);
                WATCH.set(self.0 as *mut u8);
                drop(b);
                WATCH.set(std::ptr::null_mut());
                SEEN_LEN.get()
            }
        }
        fn unwound(&self, boxed: bool) -> usize {
            struct OnDrop<'a, T>(&'a Both<T>, bool, &'a Cell<usize>);
            impl<T> Drop for OnDrop<'_, T> {
                fn drop(&mut self) {
                    self.2.set(self.0.kill(self.1));
                }
            }
            let n = Cell::new(0);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _g = OnDrop(self, boxed, &n);
                std::panic::resume_unwind(Box::new(()));
            }));
            n.get()
        }
    }
    let v = Both(raw, buf.as_mut_ptr());
    let go = move |v: &Both<T>| if how & UNWINDING != 0 { v.unwound(boxed) } else { v.kill(boxed) };
    if how & ELSEWHERE != 0 {
        std::thread::scope(|s| {
            s.spawn(move || {
                let v = v;
                go(&v)
            })
            .join()
            .expect("the destructor panicked")
        })
    } else {
        go(&v)
    }
}

/// (image while alive, image after the drop)
#[inline(never)]
fn images<T>(make: &mut dyn FnMut() -> T, use_it: &mut dyn FnMut(&T), boxed: bool, how: u8) -> (Vec<u8>, Vec<u8>) {
    let n = size_of::<T>();
    if boxed {
        let mut buf = vec![0u8; CAP];
        // SAFETY: the allocation is zeroed first, so that every byte of it may be read
        unsafe {
            let raw = std::alloc::alloc_zeroed(Layout::new::<T>()) as *mut T;
            raw.write(make());
            use_it(&*raw);
            let before = snapshot(raw as *const u8, n);
            let seen = end(raw, true, how, &mut buf);
            buf.truncate(seen);
            (before, buf)
        }
    } else {
        let mut slot: Box<MaybeUninit<T>> = Box::new(MaybeUninit::zeroed());
        // SAFETY: as above; the value is dropped exactly once
        unsafe {
            slot.as_mut_ptr().write(make());
            use_it(slot.assume_init_ref());
            let before = snapshot(slot.as_ptr() as *const u8, n);
            end(slot.as_mut_ptr(), false, how, &mut []);
            (before, snapshot(slot.as_ptr() as *const u8, n))
        }
    }
}

/// Compares what two objects with different secrets leave behind; bytes that already differ between two objects
/// with the same secrets (addresses, padding) do not count.
fn compare<T>(what: &str, a: &mut dyn FnMut() -> T, b: &mut dyn FnMut() -> T, use_it: &mut dyn FnMut(&T), boxed: bool, how: u8, o: &mut Obs) -> Result<(), String> {
    let (pa, qa) = images(a, use_it, boxed, how & ENDS);
    let (pb, qb) = images(b, use_it, boxed, how & ENDS);
    let (_, qa2) = images(a, use_it, boxed, how & ENDS);
    if qa.len() != pa.len() {
        return Err(format!("{HARNESS_BUG}: the drop was not seen"));
    }
    o.add(2);
    if pa != pb {
        o.nontrivial();
    }
    let left: Vec<usize> = (0..qa.len()).filter(|&i| qa[i] == qa2[i] && qa[i] != qb[i]).collect();
    if !left.is_empty() {
        let secret = left.iter().filter(|&&i| qa[i] == pa[i]).count();
        return Err(format!(
            "{what}: {} of {} bytes still depend on the secret after the drop (first at offset {}); {secret} of them still hold it verbatim",
            left.len(),
            qa.len(),
            left[0]
        ));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ optional traits
/// Calls `zeroize` where the type offers it, and says whether it does
struct Maybe<'a, T>(std::cell::RefCell<&'a mut T>);
trait HasZeroize {
    fn wipe(self) -> bool;
}
impl<T: Zeroize> HasZeroize for &Maybe<'_, T> {
    fn wipe(self) -> bool {
        self.0.borrow_mut().zeroize();
        true
    }
}
#[allow(dead_code)]
trait NoZeroize {
    fn wipe(self) -> bool;
}
impl<T> NoZeroize for &&Maybe<'_, T> {
    fn wipe(self) -> bool {
        false
    }
}
macro_rules! wipe {
    ($what:expr, $v:expr) => {{
        let m = Maybe(std::cell::RefCell::new($v));
        #[allow(clippy::needless_borrow)]
        if !(&m).wipe() {
            return Err(format!("{} does not offer zeroize", $what));
        }
    }};
}
struct Marker<T>(std::marker::PhantomData<T>);
trait HasMarker {
    fn marked(self) -> bool;
}
impl<T: ZeroizeOnDrop> HasMarker for &Marker<T> {
    fn marked(self) -> bool {
        true
    }
}
#[allow(dead_code)]
trait NoMarker {
    fn marked(self) -> bool;
}
impl<T> NoMarker for &&Marker<T> {
    fn marked(self) -> bool {
        false
    }
}
macro_rules! marked {
    ($t:ty) => {{
        let m = Marker::<$t>(std::marker::PhantomData);
        if !(&m).marked() {
            return Err(format!("{} does not promise ZeroizeOnDrop", stringify!($t)));
        }
    }};
}

// ------------------------------------------------------------------------------------------ cases
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C18Case {
    /// two parsed ML-KEM keys with the same public part
    Parsed { ps: u8, t: PolyVec, rho: Rho, h: Bytes, a: (PolyVec, Bytes), b: (PolyVec, Bytes), ops: u8, boxed: bool },
    /// a generated ML-KEM key against a parsed one with the same public part
    Generated { ps: u8, d: Bytes, z: Bytes, b: (PolyVec, Bytes), ops: u8, boxed: bool },
    XKey { a: Bytes, b: Bytes, ops: u8, boxed: bool },
    XCt { a: Bytes, b: Bytes, ops: u8, boxed: bool },
    Ec { curve: u8, a: Scalar, b: Scalar, ops: u8, boxed: bool },
    Explicit { kind: u8, a: Bytes },
}
pub struct C18;

fn ml<P: KemCore>(p: &rf::Params, a: &mut dyn FnMut() -> P::DecapsulationKey, b: &[u8], ops: u8, boxed: bool, o: &mut Obs) -> Result<(), String>
where
    P::DecapsulationKey: Clone,
{
    let parse = |x: &[u8]| P::DecapsulationKey::from_bytes(&ml_kem::Encoded::<P::DecapsulationKey>::try_from(x).expect("size"));
    let ct = ml_kem::Ciphertext::<P>::try_from(&Bytes::seeded(ops as u64).get(p.ct_len())[..]).expect("size");
    let cloned = |k: P::DecapsulationKey| if ops & CLONED != 0 { k.clone() } else { k };
    compare(
        p.name,
        &mut || cloned(a()),
        &mut || cloned(parse(b)),
        &mut |k| {
            if ops & 1 != 0 {
                let _ = k.decapsulate(&ct);
            }
            if ops & 2 != 0 {
                let _ = k.clone();
            }
            if ops & 4 != 0 {
                let _ = k.as_bytes();
            }
        },
        boxed,
        ops,
        o,
    )
}
macro_rules! with_ps {
    ($ps:expr, $f:ident, $($a:expr),*) => {
        match $ps % 3 {
            0 => $f!(ml_kem::MlKem512, $($a),*),
            1 => $f!(ml_kem::MlKem768, $($a),*),
            _ => $f!(ml_kem::MlKem1024, $($a),*),
        }
    };
}
fn ec<K, C, S>(curve: &'static str, len: usize, mk: impl Fn(&[u8]) -> (K, C), a: &[u8], b: &[u8], ops: u8, boxed: bool, o: &mut Obs) -> Result<(), String>
where
    K: Decapsulate<C, S>,
{
    let _ = len;
    let peer = mk(a).1;
    compare(
        curve,
        &mut || mk(a).0,
        &mut || mk(b).0,
        &mut |k| {
            if ops & 1 != 0 {
                let _ = k.decapsulate(&peer);
            }
        },
        boxed,
        ops,
        o,
    )
}
macro_rules! ec_kem {
    ($kem:ty, $name:literal, $refc:path, $a:expr, $b:expr, $ops:expr, $boxed:expr, $o:expr) => {{
        marked!(<$kem as DhKem>::DecapsulatingKey);
        let c = $refc();
        let mk = |s: &[u8]| {
            let (d, e) = <$kem>::random_keypair(&mut ScriptRng::of(&[s]));
            (d, e.into_inner())
        };
        ec::<_, _, <$kem as DhKem>::SharedSecret>($name, c.len, mk, &$a.get(c), &$b.get(c), $ops, $boxed, $o)
    }};
}

fn explicit(kind: u8, a: &Bytes, o: &mut Obs) -> Result<(), String> {
    let all0 = |what: &str, v: &[u8]| if v.iter().all(|x| *x == 0) { Ok(()) } else { Err(format!("{what} after zeroize: {}", hex(&v[..v.len().min(64)]))) };
    let arr: [u8; 48] = a.get(48).try_into().unwrap();
    let words: [u64; 4] = std::array::from_fn(|i| u64::from_le_bytes(arr[i * 8..i * 8 + 8].try_into().unwrap()));
    if arr != [0; 48] {
        o.nontrivial();
    }
    match kind % 10 {
        0 => {
            let mut k = x_wing::DecapsulationKey::from(a.b32());
            wipe!("X-Wing decapsulation key", &mut k);
            all0("X-Wing decapsulation key", k.as_bytes())?;
            marked!(x_wing::DecapsulationKey);
        }
        1 => {
            let mut k = x_wing::Ciphertext::from(<&[u8; 1120]>::try_from(&a.get(1120)[..]).unwrap());
            wipe!("X-Wing ciphertext", &mut k);
            all0("X-Wing ciphertext", &k.as_bytes())?;
            marked!(x_wing::Ciphertext);
        }
        2 => {
            let mut k = DhDecapsulator::from(arr);
            wipe!("DhDecapsulator<[u8; 48]>", &mut k);
            all0("DhDecapsulator<[u8; 48]>", k.as_ref())?;
        }
        3 => {
            let mut k = DhEncapsulator::from(arr);
            wipe!("DhEncapsulator<[u8; 48]>", &mut k);
            all0("DhEncapsulator<[u8; 48]>", k.as_ref())?;
        }
        4 => {
            let mut k = DhDecapsulator::from(words);
            wipe!("DhDecapsulator<[u64; 4]>", &mut k);
            if *k.as_ref() != [0; 4] {
                return Err("DhDecapsulator<[u64; 4]> after zeroize".into());
            }
            let mut k = DhEncapsulator::from(words);
            wipe!("DhEncapsulator<[u64; 4]>", &mut k);
            if k.into_inner() != [0; 4] {
                return Err("DhEncapsulator<[u64; 4]> after zeroize".into());
            }
        }
        5 => {
            let mut k = DhDecapsulator::from(arr.to_vec());
            let (p, n) = (k.as_ref().as_ptr(), k.as_ref().len());
            wipe!("DhDecapsulator<Vec<u8>>", &mut k);
            if !k.as_ref().is_empty() {
                return Err("DhDecapsulator<Vec<u8>> is not empty after zeroize".into());
            }
            // SAFETY: the vector still owns this buffer, and zeroize initialized all of it
            all0("the buffer of DhDecapsulator<Vec<u8>>", &unsafe { snapshot(p, n) })?;
        }
        6 => {
            let mut k = DhDecapsulator::from(x25519_dalek::StaticSecret::from(a.b32()));
            wipe!("DhDecapsulator<StaticSecret>", &mut k);
            all0("DhDecapsulator<StaticSecret>", &k.into_inner().to_bytes())?;
        }
        7 => {
            let mut k = DhEncapsulator::from(x25519_dalek::PublicKey::from(a.b32()));
            wipe!("DhEncapsulator<PublicKey>", &mut k);
            all0("DhEncapsulator<PublicKey>", k.as_ref().as_bytes())?;
        }
        8 => {
            let mut k = DhDecapsulator::from(DhEncapsulator::from(arr));
            wipe!("nested wrappers", &mut k);
            all0("nested wrappers", k.as_ref().as_ref())?;
        }
        _ => {
            marked!(ml_kem::kem::DecapsulationKey<ml_kem::MlKem512Params>);
            marked!(ml_kem::kem::DecapsulationKey<ml_kem::MlKem768Params>);
            marked!(ml_kem::kem::DecapsulationKey<ml_kem::MlKem1024Params>);
            marked!(DhDecapsulator<zeroize::Zeroizing<[u8; 32]>>);
            marked!(DhEncapsulator<zeroize::Zeroizing<[u8; 32]>>);
            // an element with a destructor that must still run exactly once through the wrapper
            struct D<'a>(&'a Cell<u32>);
            impl Drop for D<'_> {
                fn drop(&mut self) {
                    self.0.set(self.0.get() + 1);
                }
            }
            let n = Cell::new(0);
            drop(DhDecapsulator::from(D(&n)));
            drop(DhEncapsulator::from(D(&n)));
            let d = DhDecapsulator::from(D(&n)).into_inner();
            let e = DhEncapsulator::from(D(&n)).into_inner();
            if n.get() != 2 {
                return Err(format!("wrapped values dropped {} times instead of 2", n.get()));
            }
            drop((d, e));
        }
    }
    Ok(())
}

impl Prop for C18 {
    type Case = C18Case;
    const ID: &'static str = "C18";
    const RULE: &'static str = "A case is a secret-holding type, two values that differ only in their secrets (same public part), what is done with them first (decapsulate, clone, encode) and how they end (dropped in place, or a dropped box seen by the allocator at deallocation; also on another thread, while a panic unwinds, or as a clone). Oracle: the bytes the two leave behind are equal wherever they are reproducible for equal secrets. Explicit cases zeroize a value and read it back. Non-trivial: the two images differed while alive (explicit: the value was not zero).";
    fn directed(&self, t: Tier, seed: u64) -> Vec<C18Case> {
        let mut v = vec![];
        let b = |x: u64| Bytes::seeded(seed ^ x);
        let zero = || -> PolyVec { std::array::from_fn(|_| PolyS::Const(0)) };
        let pv = |x: u64| -> PolyVec { std::array::from_fn(|j| PolyS::Seeded(mix(seed ^ x * 4 + j as u64))) };
        for ps in 0..3u8 {
            // a single secret coefficient, at every place
            for k in 0..=ps as usize + 1 {
                for pos in 0..=255u8 {
                    for boxed in [false, true] {
                        let mut s = zero();
                        s[k] = PolyS::OneHot { fill: 0, pos, val: EDGES[(pos as usize + seed as usize) % EDGES.len()].max(1) };
                        v.push(C18Case::Parsed { ps, t: pv(1), rho: Rho::B(b(1)), h: b(2), a: (s, b(3)), b: (zero(), b(3)), ops: pos % 8, boxed });
                    }
                }
            }
            for c in (0..3329u16).step_by(if t == Tier::Quick { 13 } else { 1 }) {
                v.push(C18Case::Parsed { ps, t: pv(1), rho: Rho::B(b(1)), h: b(2), a: (std::array::from_fn(|_| PolyS::Const(c)), b(3)), b: (pv(c as u64), b(3)), ops: (c % 8) as u8, boxed: c % 2 == 0 });
            }
            // a single byte of z
            for i in 0..32u16 {
                for boxed in [false, true] {
                    let z = Bytes::Sparse(0, vec![(i, 1 << (i % 8))]);
                    v.push(C18Case::Parsed { ps, t: pv(1), rho: Rho::B(b(1)), h: b(2), a: (pv(2), z), b: (pv(2), Bytes::Fill(0)), ops: (i % 8) as u8, boxed });
                }
            }
            for (i, x) in special32().into_iter().enumerate() {
                v.push(C18Case::Generated { ps, d: x.clone(), z: x, b: (pv(i as u64), b(i as u64)), ops: (i % 8) as u8, boxed: i % 2 == 0 });
            }
        }
        for (i, x) in special32().into_iter().enumerate() {
            for boxed in [false, true] {
                v.push(C18Case::XKey { a: x.clone(), b: b(i as u64), ops: (i % 4) as u8, boxed });
                v.push(C18Case::XCt { a: x.clone(), b: b(i as u64), ops: (i % 4) as u8, boxed });
            }
            for kind in 0..10 {
                v.push(C18Case::Explicit { kind, a: x.clone() });
            }
        }
        for how in 1..8u8 {
            for i in 0..if t == Tier::Quick { 40 } else { 400 } {
                let boxed = i % 2 == 0;
                let ops = how * 8 + (i % 4) as u8;
                let (ps, a) = ((i % 3) as u8, special32()[i as usize % special32().len()].clone());
                v.push(C18Case::Parsed { ps, t: pv(1), rho: Rho::B(b(1)), h: b(2), a: (pv(i), b(i)), b: (pv(i + 1), b(i + 1)), ops, boxed });
                v.push(C18Case::Generated { ps, d: a.clone(), z: b(i), b: (pv(i), b(i + 1)), ops, boxed });
                v.push(C18Case::XKey { a: a.clone(), b: b(i), ops, boxed });
                v.push(C18Case::XCt { a, b: b(i), ops, boxed });
                v.push(C18Case::Ec { curve: (i % 4) as u8, a: Scalar::Small(i as u16 + 1), b: Scalar::B(b(i)), ops: how * 8, boxed });
            }
        }
        for curve in 0..4 {
            for e in (0..521).step_by(if t == Tier::Quick { 4 } else { 1 }) {
                v.push(C18Case::Ec { curve, a: Scalar::PowTwo(e), b: Scalar::B(b(e as u64)), ops: u8::from(e % 16 == 0), boxed: e % 2 == 0 });
            }
            for i in 0..40 {
                v.push(C18Case::Ec { curve, a: Scalar::NearN(i), b: Scalar::Small(i + 1), ops: 0, boxed: i % 2 == 0 });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<C18Case> {
        let sec = || (polyvec(), bytes());
        // what is done first (n possibilities), and how it ends
        let ops = |n: u8| (0..n, prop_oneof![8 => Just(0), 1 => Just(ELSEWHERE), 2 => Just(UNWINDING), 2 => Just(CLONED), 1 => 0u8..8].prop_map(|e: u8| if e < 8 && e != 0 { e * 8 } else { e })).prop_map(|(a, b)| a | b);
        prop_oneof![
            6 => ((ps(), polyvec(), rho(), bytes()), sec(), sec(), ops(8), any::<bool>())
                .prop_map(|((ps, t, rho, h), a, b, ops, boxed)| C18Case::Parsed { ps, t, rho, h, a, b, ops, boxed }),
            4 => (ps(), bytes(), bytes(), sec(), ops(8), any::<bool>())
                .prop_map(|(ps, d, z, b, ops, boxed)| C18Case::Generated { ps, d, z, b, ops, boxed }),
            2 => (bytes(), bytes(), ops(4), any::<bool>()).prop_map(|(a, b, ops, boxed)| C18Case::XKey { a, b, ops, boxed }),
            2 => (bytes(), bytes(), ops(4), any::<bool>()).prop_map(|(a, b, ops, boxed)| C18Case::XCt { a, b, ops, boxed }),
            2 => (0u8..4, scalar(), scalar(), prop_oneof![7 => Just(0u8), 1 => Just(1u8), 1 => ops(1)], any::<bool>())
                .prop_map(|(curve, a, b, ops, boxed)| C18Case::Ec { curve, a, b, ops, boxed }),
            2 => (0u8..10, bytes()).prop_map(|(kind, a)| C18Case::Explicit { kind, a }),
        ]
        .boxed()
    }
    fn random_cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 150_000 } else { 2_000_000 }
    }
    fn check(&self, c: &C18Case, o: &mut Obs) -> Result<(), String> {
        let how = |o: &mut Obs, boxed: bool| o.label(if boxed { "read at deallocation" } else { "read in place" });
        if let C18Case::Parsed { ops, .. } | C18Case::Generated { ops, .. } | C18Case::XKey { ops, .. } | C18Case::XCt { ops, .. } | C18Case::Ec { ops, .. } = c {
            for (bit, l) in [(ELSEWHERE, "dropped on another thread"), (UNWINDING, "dropped while unwinding"), (CLONED, "a clone dropped")] {
                if ops & bit != 0 {
                    o.label(l);
                }
            }
        }
        match c {
            C18Case::Parsed { ps, t, rho, h, a, b, ops, boxed } => {
                o.label("parsed ML-KEM key");
                how(o, *boxed);
                let p = crate::sut::suite(*ps).p();
                let enc = |s: &(PolyVec, Bytes)| {
                    let mut v = rf::encode_vec(12, &polys(&s.0, p.k));
                    v.extend(rf::encode_vec(12, &polys(t, p.k)));
                    v.extend_from_slice(&rho.get());
                    v.extend(h.get(32));
                    v.extend(s.1.get(32));
                    v
                };
                let (ea, eb) = (enc(a), enc(b));
                macro_rules! go {
                    ($k:ty, $p:expr) => {
                        ml::<$k>($p, &mut || <$k as KemCore>::DecapsulationKey::from_bytes(&ea[..].try_into().unwrap()), &eb, *ops, *boxed, o)
                    };
                }
                with_ps!(ps, go, p)
            }
            C18Case::Generated { ps, d, z, b, ops, boxed } => {
                o.label("generated ML-KEM key");
                how(o, *boxed);
                let p = crate::sut::suite(*ps).p();
                let (d, z) = (d.b32(), z.b32());
                macro_rules! go {
                    ($k:ty, $p:expr) => {{
                        let (dk, _) = <$k>::generate_deterministic(&d.into(), &z.into());
                        let mut eb = dk.as_bytes().as_slice().to_vec();
                        let sb = rf::encode_vec(12, &polys(&b.0, p.k));
                        eb[..sb.len()].copy_from_slice(&sb);
                        let n = eb.len();
                        eb[n - 32..].copy_from_slice(&b.1.b32());
                        ml::<$k>($p, &mut || <$k>::generate_deterministic(&d.into(), &z.into()).0, &eb, *ops, *boxed, o)
                    }};
                }
                with_ps!(ps, go, p)
            }
            C18Case::XKey { a, b, ops, boxed } => {
                o.label("X-Wing key");
                how(o, *boxed);
                let cloned = |k: x_wing::DecapsulationKey| if ops & CLONED != 0 { k.clone() } else { k };
                compare(
                    "X-Wing decapsulation key",
                    &mut || cloned(x_wing::DecapsulationKey::from(a.b32())),
                    &mut || cloned(x_wing::DecapsulationKey::from(b.b32())),
                    &mut |k| {
                        if ops & 1 != 0 {
                            let (c, _) = k.encapsulation_key().encapsulate(&mut ScriptRng::of(&[])).unwrap();
                            let _ = k.decapsulate(&c);
                        }
                        if ops & 2 != 0 {
                            let _ = k.clone();
                        }
                    },
                    *boxed,
                    *ops,
                    o,
                )
            }
            C18Case::XCt { a, b, ops, boxed } => {
                o.label("X-Wing ciphertext");
                how(o, *boxed);
                let mk = |x: &Bytes| x_wing::Ciphertext::from(<&[u8; 1120]>::try_from(&x.get(1120)[..]).unwrap());
                compare(
                    "X-Wing ciphertext",
                    &mut || mk(a),
                    &mut || mk(b),
                    &mut |k| {
                        if ops & 1 != 0 {
                            let _ = k.as_bytes();
                        }
                        if ops & 2 != 0 {
                            let _ = k.clone() == *k;
                        }
                    },
                    *boxed,
                    *ops,
                    o,
                )
            }
            C18Case::Ec { curve, a, b, ops, boxed } => {
                o.label("ECDH key");
                how(o, *boxed);
                match curve % 4 {
                    0 => ec_kem!(dhkem::Secp256k1Kem, "secp256k1", refmodel::ec::k256, a, b, *ops, *boxed, o),
                    1 => ec_kem!(dhkem::NistP256Kem, "P-256", refmodel::ec::p256, a, b, *ops, *boxed, o),
                    2 => ec_kem!(dhkem::NistP384Kem, "P-384", refmodel::ec::p384, a, b, *ops, *boxed, o),
                    _ => ec_kem!(dhkem::NistP521Kem, "P-521", refmodel::ec::p521, a, b, *ops, *boxed, o),
                }
            }
            C18Case::Explicit { kind, a } => {
                o.label("explicit zeroize");
                explicit(*kind, a, o)
            }
        }
    }
}
