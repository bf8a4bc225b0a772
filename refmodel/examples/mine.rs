//! Searches pseudo-random matrix seeds for rare rejection-sampling behaviour.  Output is harness/src/mined.rs.
use refmodel::mlkem::sample_ntt;
fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
fn rho(seed: u64) -> [u8; 32] {
    std::array::from_fn(|i| (mix(seed ^ mix(i as u64 / 8)) >> (8 * (i % 8))) as u8)
}
fn main() {
    let n: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    let hs: Vec<_> = (0..8u64)
        .map(|t| {
            std::thread::spawn(move || {
                // (score, seed) per category, for the 2x2 corner that every parameter set uses
                let mut best: Vec<Vec<(usize, u64)>> = vec![vec![]; 5];
                for s in (t..n).step_by(8) {
                    let r = rho(s);
                    let (mut mx, mut mn, mut ed, mut sum, mut exact) = (0, 9999, 0, 0, 0);
                    for i in 0..2u8 {
                        for j in 0..2u8 {
                            let (_, st) = sample_ntt(&r, j, i);
                            mx = mx.max(st.bytes);
                            mn = mn.min(st.bytes);
                            ed += st.edge;
                            sum += st.bytes;
                            exact += (st.bytes == 504) as usize + (st.bytes == 507) as usize;
                        }
                    }
                    for (b, sc) in best.iter_mut().zip([mx, 9999 - mn, ed, sum, exact]) {
                        b.push((sc, s));
                        if b.len() > 200 {
                            b.sort_by(|a, b| b.cmp(a));
                            b.truncate(12);
                        }
                    }
                }
                best
            })
        })
        .collect();
    let mut all: Vec<Vec<(usize, u64)>> = vec![vec![]; 5];
    for h in hs {
        for (a, b) in all.iter_mut().zip(h.join().unwrap()) {
            a.extend(b);
        }
    }
    println!("//! Generated by refmodel/examples/mine.rs from {n} candidates.");
    println!("use crate::gen::unhex;");
    println!("pub const MINED: &[&str] = &[");
    for (name, a) in ["longest single run", "shortest single run", "most candidates at q-1 or q", "longest total", "runs ending at a block boundary"].iter().zip(&mut all) {
        a.sort_by(|a, b| b.cmp(a));
        a.dedup();
        println!("    // {name}");
        for (sc, s) in a.iter().take(12) {
            println!("    \"{}\", // {sc}", rho(*s).iter().map(|x| format!("{x:02x}")).collect::<String>());
        }
    }
    println!("];");
    println!("pub fn rho(i: usize) -> [u8; 32] {{\n    unhex(MINED[i % MINED.len()]).try_into().unwrap()\n}}");
}
