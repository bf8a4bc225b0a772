//! C19: differential runs of the same requests on many builds of the code under test (features x profiles).
//! The builds are `probe` processes; VERIF_PROBES lists them as name=path, separated by commas.
use super::dh::{ecpoint, scalar, EcPoint, Scalar};
use super::mlkem::{ct_strategy, dk_strategy, CtS, DkS};
use super::xwing::{point, xpk, Point, XPk};
use crate::engine::{Obs, Prop, Tier, HARNESS_BUG};
use crate::gen::*;
use crate::rng::mix;
use crate::sut::{dh_suite, suite};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use refmodel::{mlkem as rf, xwing as rx};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Probe {
    name: String,
    path: String,
    run: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
}
impl Probe {
    fn ask(&mut self, line: &str) -> Result<String, String> {
        if self.run.is_none() {
            let mut c = Command::new(&self.path)
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .unwrap_or_else(|e| panic!("cannot start {}: {e}", self.path));
            let i = c.stdin.take().unwrap();
            let o = BufReader::new(c.stdout.take().unwrap());
            self.run = Some((c, i, o));
        }
        let (_, i, o) = self.run.as_mut().unwrap();
        let mut s = String::new();
        let r = i.write_all(line.as_bytes()).and_then(|()| i.write_all(b"\n")).and_then(|()| i.flush()).and_then(|()| o.read_line(&mut s));
        if r.is_err() || !s.ends_with('\n') {
            let (mut c, i, o) = self.run.take().unwrap();
            drop((i, o));
            let _ = c.kill();
            let st = c.wait().map(|s| s.to_string()).unwrap_or_default();
            return Err(format!("the build {} ended with {st} while answering {}", self.name, line.split(' ').next().unwrap_or("")));
        }
        Ok(s.trim_end().to_string())
    }
}
impl Drop for Probe {
    fn drop(&mut self) {
        if let Some((mut c, i, o)) = self.run.take() {
            drop((i, o));
            let _ = c.wait();
        }
    }
}
thread_local! {
    static PROBES: RefCell<Option<Vec<Probe>>> = const { RefCell::new(None) };
}
/// The answers of every build that has the operation
fn ask_all(line: &str) -> Result<Vec<(String, String)>, String> {
    PROBES.with(|p| {
        let mut p = p.borrow_mut();
        let p = p.get_or_insert_with(|| {
            std::env::var("VERIF_PROBES")
                .expect("VERIF_PROBES")
                .split(',')
                .map(|x| {
                    let (n, f) = x.split_once('=').expect("name=path");
                    Probe { name: n.into(), path: f.into(), run: None }
                })
                .collect()
        });
        let mut v = vec![];
        for x in p.iter_mut() {
            let a = x.ask(line)?;
            if a != "-" {
                v.push((x.name.clone(), a));
            }
        }
        Ok(v)
    })
}
/// Requests that must all get the same answer, on every build
fn agree(lines: &[String], o: &mut Obs) -> Result<(), String> {
    let mut all: Vec<(String, String)> = vec![];
    for l in lines {
        let op = l.split(' ').next().unwrap_or("").to_string();
        all.extend(ask_all(l)?.into_iter().map(|(n, a)| (format!("{n}, {op}"), a)));
    }
    let Some((n0, a0)) = all.first() else {
        return Err(format!("{HARNESS_BUG}: no build answers {}", lines[0].split(' ').next().unwrap_or("")));
    };
    o.add(all.len() as u64);
    if all.len() > 1 {
        o.nontrivial();
    }
    for (n, a) in &all[1..] {
        if a != a0 {
            let votes = all.iter().filter(|x| x.1 == *a0).count();
            return Err(format!("builds disagree: [{n}] and [{n0}] ({votes} of {} like the latter): {}", all.len(), diff("", &unhex(a), &unhex(a0)).unwrap_err()));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum XCtS {
    Encaps(Bytes, Bytes),
    Changed(Bytes, Bytes, Vec<Mut>),
    Point(Bytes, Point),
    Raw(Bytes),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C19Case {
    MlGen { ps: u8, d: Bytes, z: Bytes },
    MlEnc { ps: u8, ek: EkS, muts: Vec<Mut>, m: Bytes },
    MlDec { ps: u8, dk: DkS, ct: CtS },
    XGen { sk: Bytes },
    XEnc { pk: XPk, m: Bytes, ex: Bytes },
    XDec { sk: Bytes, ct: XCtS },
    EcGen { curve: u8, a: Scalar, redraw: u8 },
    EcEnc { curve: u8, p: EcPoint, e: Scalar, redraw: u8 },
    EcDec { curve: u8, a: Scalar, p: EcPoint },
    X25519 { a: Bytes, p: Point },
    /// comparisons of two keys or ciphertexts that differ in chosen bytes
    MlEq { ps: u8, dk: DkS, muts: Vec<Mut> },
    XEq { pk: XPk, ct: Bytes, muts: Vec<Mut> },
}
pub struct C19;
impl Prop for C19 {
    type Case = C19Case;
    const ID: &'static str = "C19";
    const RULE: &'static str = "A case is one operation of one crate with all its input bytes (the same generators as the functional properties). It is sent to every build of the code under test (feature sets x profiles, one process each); operations that denote the same thing (random and deterministic entry points fed the same bytes) are asked together. Oracle: all answers are equal byte for byte and no build dies. Non-trivial: at least two answers were compared.";
    fn directed(&self, t: Tier, seed: u64) -> Vec<C19Case> {
        let mut v = vec![];
        let b = |x: u64| Bytes::seeded(seed ^ x);
        let step = if t == Tier::Quick { 6 } else { 1 };
        let skip = (seed % step as u64) as usize;
        let pv = |x: u64| -> PolyVec { std::array::from_fn(|j| PolyS::Seeded(mix(seed ^ x * 4 + j as u64))) };
        for ps in 0..3u8 {
            for (i, x) in special32().into_iter().enumerate().skip(skip).step_by(step) {
                let i = i as u64;
                v.push(C19Case::MlGen { ps, d: x.clone(), z: b(i) });
                v.push(C19Case::MlGen { ps, d: b(i), z: x.clone() });
                v.push(C19Case::MlEnc { ps, ek: EkS::Honest(b(i)), muts: vec![], m: x.clone() });
                v.push(C19Case::MlDec { ps, dk: DkS::Honest(b(i), x.clone()), ct: CtS::Raw(x.clone()) });
                v.push(C19Case::MlDec { ps, dk: DkS::Raw(x.clone()), ct: CtS::Encaps(b(i)) });
            }
            for c in (0..3329u16).step_by(if t == Tier::Quick { 41 } else { 1 }) {
                let f = PolyS::Const(c);
                v.push(C19Case::MlEnc { ps, ek: EkS::Synth(std::array::from_fn(|_| f.clone()), Rho::Mined(c as u8)), muts: vec![], m: b(c as u64) });
                v.push(C19Case::MlDec {
                    ps,
                    dk: DkS::Fields { s: std::array::from_fn(|_| f.clone()), t: pv(1), rho: Rho::Mined(c as u8), h: b(1), z: b(2) },
                    ct: CtS::Raw(b(c as u64)),
                });
            }
        }
        for (i, x) in special32().into_iter().enumerate().skip(skip).step_by(step) {
            let i = i as u64;
            v.push(C19Case::XGen { sk: x.clone() });
            v.push(C19Case::XEnc { pk: XPk::Honest(b(i)), m: x.clone(), ex: b(i + 1) });
            v.push(C19Case::XEnc { pk: XPk::Honest(x.clone()), m: b(i), ex: x.clone() });
            v.push(C19Case::XDec { sk: b(i), ct: XCtS::Raw(x.clone()) });
            v.push(C19Case::X25519 { a: x, p: Point::LowOrder(i as u8) });
        }
        for at in (0..1216u16).step_by(if t == Tier::Quick { 13 } else { 1 }) {
            v.push(C19Case::XEq { pk: XPk::Honest(b(1)), ct: b(2), muts: vec![Mut::Xor(at, 1 << (at % 8))] });
            for ps in 0..3u8 {
                v.push(C19Case::MlEq { ps, dk: DkS::Honest(b(1), b(2)), muts: vec![Mut::Xor(at * 2, 1 << (at % 8))] });
            }
        }
        for i in 0..14 {
            v.push(C19Case::XDec { sk: b(i), ct: XCtS::Point(b(i), Point::LowOrder(i as u8)) });
            v.push(C19Case::X25519 { a: b(i), p: Point::NonCanonical(i as i16, i % 2 == 0) });
        }
        for curve in 0..4 {
            for i in 0..24u16 {
                v.push(C19Case::EcGen { curve, a: Scalar::PowTwo(i * 21), redraw: (i % 3) as u8 });
                v.push(C19Case::EcGen { curve, a: Scalar::NearN(i), redraw: 0 });
                v.push(C19Case::EcEnc { curve, p: EcPoint::SmallX(i, i % 2 == 0), e: Scalar::NearN(i), redraw: (i % 4) as u8 });
                v.push(C19Case::EcDec { curve, a: Scalar::Small(i + 1), p: EcPoint::SmallSecret(i, i % 2 == 0) });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<C19Case> {
        let some_muts = || prop_oneof![2 => Just(vec![]), 1 => mutations()];
        let xct = prop_oneof![
            2 => (bytes(), bytes()).prop_map(|(m, e)| XCtS::Encaps(m, e)),
            2 => (bytes(), bytes(), mutations()).prop_map(|(m, e, x)| XCtS::Changed(m, e, x)),
            2 => (bytes(), point()).prop_map(|(m, p)| XCtS::Point(m, p)),
            1 => bytes().prop_map(XCtS::Raw),
        ];
        prop_oneof![
            4 => (ps(), bytes(), bytes()).prop_map(|(ps, d, z)| C19Case::MlGen { ps, d, z }),
            4 => (ps(), ek(), some_muts(), bytes()).prop_map(|(ps, ek, muts, m)| C19Case::MlEnc { ps, ek, muts, m }),
            6 => (ps(), dk_strategy(), ct_strategy()).prop_map(|(ps, dk, ct)| C19Case::MlDec { ps, dk, ct }),
            2 => bytes().prop_map(|sk| C19Case::XGen { sk }),
            3 => (xpk(), bytes(), bytes()).prop_map(|(pk, m, ex)| C19Case::XEnc { pk, m, ex }),
            4 => (bytes(), xct).prop_map(|(sk, ct)| C19Case::XDec { sk, ct }),
            1 => (0u8..4, scalar(), 0u8..4).prop_map(|(curve, a, redraw)| C19Case::EcGen { curve, a, redraw }),
            1 => (0u8..4, ecpoint(), scalar(), 0u8..4).prop_map(|(curve, p, e, redraw)| C19Case::EcEnc { curve, p, e, redraw }),
            1 => (0u8..4, scalar(), ecpoint()).prop_map(|(curve, a, p)| C19Case::EcDec { curve, a, p }),
            2 => (bytes(), point()).prop_map(|(a, p)| C19Case::X25519 { a, p }),
            2 => (ps(), dk_strategy(), some_muts()).prop_map(|(ps, dk, muts)| C19Case::MlEq { ps, dk, muts }),
            2 => (xpk(), bytes(), some_muts()).prop_map(|(pk, ct, muts)| C19Case::XEq { pk, ct, muts }),
        ]
        .boxed()
    }
    fn random_cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 20_000 } else { 300_000 }
    }
    fn check(&self, c: &C19Case, o: &mut Obs) -> Result<(), String> {
        for group in requests(c, o) {
            agree(&group, o)?;
        }
        Ok(())
    }
}
/// The request lines of a case; lines of a group must get the same answer
pub fn requests(c: &C19Case, o: &mut Obs) -> Vec<Vec<String>> {
    let redraws = |curve: u8, valid: &[u8], n: u8| -> Vec<u8> {
        let c = dh_suite(curve % 4).curve().expect("EC");
        let mut v = vec![];
        for i in 0..n % 4 {
            match i {
                0 => v.extend(vec![0xff; c.len]),
                1 => v.extend(vec![0; c.len]),
                _ => v.extend(c.n_be()),
            }
        }
        v.extend_from_slice(valid);
        v
    };
    match c {
        C19Case::MlGen { ps, d, z } => {
            o.label("ML-KEM key generation");
            let r = hex(&[d.b32(), z.b32()].concat());
            vec![vec![format!("{}.gen {r}", ps % 3), format!("{}.gendet {r}", ps % 3)]]
        }
        C19Case::MlEnc { ps, ek, muts, m } => {
            o.label("ML-KEM encapsulation");
            let mut e = ek.get(suite(*ps).p());
            apply(muts, &mut e);
            let (e, m) = (hex(&e), hex(&m.b32()));
            vec![vec![format!("{}.enc {e} {m}", ps % 3), format!("{}.encdet {e} {m}", ps % 3)], vec![format!("{}.rte {e}", ps % 3)]]
        }
        C19Case::MlDec { ps, dk, ct } => {
            o.label("ML-KEM decapsulation");
            let p = suite(*ps).p();
            let d = dk.get(p);
            let c = ct.get(p, &d);
            vec![vec![format!("{}.dec {} {}", ps % 3, hex(&d), hex(&c))], vec![format!("{}.rtd {}", ps % 3, hex(&d))], vec![format!("{}.pub {} {}", ps % 3, hex(&d), hex(&c[..32]))]]
        }
        C19Case::MlEq { ps, dk, muts } => {
            o.label("comparison of ML-KEM keys");
            let p = suite(*ps).p();
            let d = dk.get(p);
            let mut x = d.clone();
            apply(muts, &mut x);
            let ek = |v: &[u8]| hex(&v[384 * p.k..v.len() - 64]);
            vec![vec![format!("{}.eqd {} {}", ps % 3, hex(&d), hex(&x))], vec![format!("{}.eqe {} {}", ps % 3, ek(&d), ek(&x))]]
        }
        C19Case::XEq { pk, ct, muts } => {
            o.label("comparison of X-Wing values");
            let (p, c) = (pk.get(), ct.get(1120));
            let (mut q, mut d) = (p.clone(), c.clone());
            apply(muts, &mut q);
            apply(muts, &mut d);
            vec![vec![format!("x.eqp {} {}", hex(&p), hex(&q))], vec![format!("x.eqc {} {}", hex(&c), hex(&d))]]
        }
        C19Case::XGen { sk } => {
            o.label("X-Wing key generation");
            let sk = hex(&sk.b32());
            vec![vec![format!("x.gen {sk}"), format!("x.genpub {sk}")]]
        }
        C19Case::XEnc { pk, m, ex } => {
            o.label("X-Wing encapsulation");
            let pk = hex(&pk.get());
            vec![vec![format!("x.enc {pk} {}", hex(&[m.b32(), ex.b32()].concat()))], vec![format!("x.rt {pk} {}", hex(&m.get(1120)))]]
        }
        C19Case::XDec { sk, ct } => {
            o.label("X-Wing decapsulation");
            let sk = sk.b32();
            let honest = |m: &Bytes, e: &Bytes| {
                let mut s = [0; 64];
                s[..32].copy_from_slice(&m.b32());
                s[32..].copy_from_slice(&e.b32());
                rx::encaps(&rx::public(&sk), &s).0
            };
            let c = match ct {
                XCtS::Encaps(m, e) => honest(m, e),
                XCtS::Changed(m, e, x) => {
                    let mut c = honest(m, e);
                    apply(x, &mut c);
                    c
                }
                XCtS::Point(m, p) => {
                    let mut c = rf::encaps(&rf::ML768, &rx::public(&sk)[..1184], &m.b32()).0;
                    c.extend_from_slice(&p.get());
                    c
                }
                XCtS::Raw(b) => b.get(1120),
            };
            vec![vec![format!("x.dec {} {}", hex(&sk), hex(&c))]]
        }
        C19Case::EcGen { curve, a, redraw } => {
            o.label("ECDH key generation");
            let s = dh_suite(curve % 4);
            vec![vec![format!("{}.gen {}", s.name(), hex(&redraws(*curve, &a.get(s.curve().unwrap()), *redraw)))]]
        }
        C19Case::EcEnc { curve, p, e, redraw } => {
            o.label("ECDH encapsulation");
            let s = dh_suite(curve % 4);
            let c = s.curve().unwrap();
            let e = e.get(c);
            let pt = p.get(c, &e);
            vec![vec![format!("{}.enc {} {}", s.name(), hex(&pt), hex(&redraws(*curve, &e, *redraw)))]]
        }
        C19Case::EcDec { curve, a, p } => {
            o.label("ECDH decapsulation");
            let s = dh_suite(curve % 4);
            let c = s.curve().unwrap();
            let a = a.get(c);
            let pt = p.get(c, &a);
            vec![vec![format!("{}.dec {} {}", s.name(), hex(&a), hex(&pt))]]
        }
        C19Case::X25519 { a, p } => {
            o.label("X25519");
            let (a, p) = (hex(&a.b32()), hex(&p.get_for(&a.b32())));
            vec![vec![format!("X25519.gen {a}")], vec![format!("X25519.enc {p} {a}")], vec![format!("X25519.dec {a} {p}")]]
        }
    }
}
