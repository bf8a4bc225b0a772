//! C23: the cases of C20 and C21, comparing the addresses of all memory accesses.
use crate::dh::{C21Case, C21};
use crate::{C20Case, Seen, C20};
use harness::engine::{Obs, Prop, Tier, HARNESS_BUG};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C23Case {
    Kem(C20Case),
    Dh(C21Case),
}
impl C23Case {
    /// secp256k1 is out of scope: its arithmetic takes one of two paths
    fn claimed(&self) -> bool {
        !matches!(self, C23Case::Dh(C21Case::Ec { curve, .. }) if curve % 4 == 0)
    }
}
pub fn both(c: &C23Case, o: &mut Obs) -> [Seen; 2] {
    match c {
        C23Case::Kem(c) => crate::both(c, o),
        C23Case::Dh(c) => crate::dh::both(c, o),
    }
}

pub struct C23;
impl Prop for C23 {
    type Case = C23Case;
    const ID: &'static str = "C23";
    const RULE: &'static str = "A case is one of C20 or, without secp256k1, of C21: one operation run twice with different secrets, messages or ciphertexts, at the same place in memory. Oracle: the sequences of addresses read and written (loads and stores of up to 16 bytes of the optimized code and all its dependencies, and the spans of libc's copying functions) are the same, except that reads of static data may be less than 128 bytes apart. Non-trivial: the two inputs differ.";
    fn directed(&self, t: Tier, seed: u64) -> Vec<C23Case> {
        let step = if t == Tier::Quick { 2 } else { 1 };
        let at = seed as usize % step;
        let kem = C20.directed(t, seed).into_iter().skip(at).step_by(step).map(C23Case::Kem);
        let dh = C21.directed(t, seed).into_iter().map(C23Case::Dh).filter(C23Case::claimed).skip(at).step_by(step);
        kem.chain(dh).collect()
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C23Case> {
        prop_oneof![
            3 => C20.strategy(t).prop_map(C23Case::Kem),
            1 => C21.strategy(t).prop_map(|c| C23Case::Dh(match c {
                C21Case::Ec { curve, op, peer, a, b } => C21Case::Ec { curve: 1 + curve % 3, op, peer, a, b },
                c => c,
            })),
        ]
        .boxed()
    }
    fn random_cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 30_000 } else { 200_000 }
    }
    fn check(&self, c: &C23Case, o: &mut Obs) -> Result<(), String> {
        use std::sync::Once;
        static ONCE: Once = Once::new();
        crate::warm();
        ONCE.call_once(|| {
            crate::dh::warm();
        });
        let [x, y] = both(c, o);
        o.add(2);
        let (mut n, mut at) = (0, [0; 2]);
        // SAFETY: cov.c
        let (kind, apart) = unsafe { (crate::ct_instrumented(), crate::ct_apart(&mut n, at.as_mut_ptr())) };
        if kind != 2 || x.blocks < 100 {
            return Err(format!("{HARNESS_BUG}: only {} accesses seen", x.blocks));
        }
        if n > 0 {
            o.label("a lookup in a small table differs");
        }
        if apart >= 0 {
            return Err(match at {
                [0, 0] => format!("{} memory accesses against {}", x.blocks, y.blocks),
                [a, b] => format!("memory access number {apart} of {} is at {a:#x} in one run and at {b:#x} in the other", x.blocks),
            });
        }
        Ok(())
    }
}
