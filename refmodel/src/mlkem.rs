//! FIPS 203, written from the standard.  Values are plain `u16` residues, arithmetic is `u32` and `%`.
use crate::keccak::*;

pub const Q: u32 = 3329;
pub type Poly = [u16; 256];

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Params {
    pub name: &'static str,
    pub k: usize,
    pub eta1: usize,
    pub eta2: usize,
    pub du: u32,
    pub dv: u32,
}
pub const ML512: Params = Params { name: "ML-KEM-512", k: 2, eta1: 3, eta2: 2, du: 10, dv: 4 };
pub const ML768: Params = Params { name: "ML-KEM-768", k: 3, eta1: 2, eta2: 2, du: 10, dv: 4 };
pub const ML1024: Params = Params { name: "ML-KEM-1024", k: 4, eta1: 2, eta2: 2, du: 11, dv: 5 };
pub const ALL: [Params; 3] = [ML512, ML768, ML1024];

impl Params {
    pub fn ek_len(&self) -> usize {
        384 * self.k + 32
    }
    pub fn dk_len(&self) -> usize {
        768 * self.k + 96
    }
    pub fn ct_len(&self) -> usize {
        32 * (self.du as usize * self.k + self.dv as usize)
    }
    pub fn c1_len(&self) -> usize {
        32 * self.du as usize * self.k
    }
}

const fn bitrev7(i: u32) -> u32 {
    let mut r = 0;
    let mut b = 0;
    while b < 7 {
        r |= ((i >> b) & 1) << (6 - b);
        b += 1;
    }
    r
}
const fn powmod(mut b: u32, mut e: u32) -> u32 {
    let mut r = 1;
    b %= Q;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % Q;
        }
        b = b * b % Q;
        e >>= 1;
    }
    r
}
const fn table(mul: u32, add: u32) -> [u32; 128] {
    let mut t = [0; 128];
    let mut i = 0;
    while i < 128 {
        t[i as usize] = powmod(17, mul * bitrev7(i) + add);
        i += 1;
    }
    t
}
const ZETAS: [u32; 128] = table(1, 0);
pub const GAMMAS: [u32; 128] = table(2, 1);

pub fn ntt(f: &Poly) -> Poly {
    let mut a = [0u32; 256];
    for i in 0..256 {
        a[i] = f[i] as u32;
    }
    let mut i = 1;
    let mut len = 128;
    while len >= 2 {
        let mut start = 0;
        while start < 256 {
            let z = ZETAS[i];
            i += 1;
            for j in start..start + len {
                let t = z * a[j + len] % Q;
                a[j + len] = (a[j] + Q - t) % Q;
                a[j] = (a[j] + t) % Q;
            }
            start += 2 * len;
        }
        len /= 2;
    }
    a.map(|x| x as u16)
}

pub fn intt(f: &Poly) -> Poly {
    let mut a = [0u32; 256];
    for i in 0..256 {
        a[i] = f[i] as u32;
    }
    let mut i = 127;
    let mut len = 2;
    while len <= 128 {
        let mut start = 0;
        while start < 256 {
            let z = ZETAS[i];
            i = i.wrapping_sub(1);
            for j in start..start + len {
                let t = a[j];
                a[j] = (t + a[j + len]) % Q;
                a[j + len] = z * (a[j + len] + Q - t) % Q;
            }
            start += 2 * len;
        }
        len *= 2;
    }
    a.map(|x| (x * 3303 % Q) as u16)
}

pub fn mul_hat(a: &Poly, b: &Poly) -> Poly {
    let mut o = [0u16; 256];
    for i in 0..128 {
        let (a0, a1) = (a[2 * i] as u32, a[2 * i + 1] as u32);
        let (b0, b1) = (b[2 * i] as u32, b[2 * i + 1] as u32);
        o[2 * i] = ((a0 * b0 % Q + a1 * b1 % Q * GAMMAS[i] % Q) % Q) as u16;
        o[2 * i + 1] = ((a0 * b1 + a1 * b0) % Q) as u16;
    }
    o
}
pub fn add(a: &Poly, b: &Poly) -> Poly {
    std::array::from_fn(|i| ((a[i] as u32 + b[i] as u32) % Q) as u16)
}
pub fn sub(a: &Poly, b: &Poly) -> Poly {
    std::array::from_fn(|i| ((a[i] as u32 + Q - b[i] as u32) % Q) as u16)
}
pub fn dot(a: &[Poly], b: &[Poly]) -> Poly {
    let mut o = [0u16; 256];
    for (x, y) in a.iter().zip(b) {
        o = add(&o, &mul_hat(x, y));
    }
    o
}

/// Compress_d: round-half-up of (2^d / q) x, mod 2^d.  Exact integer arithmetic.
pub fn compress(d: u32, x: u16) -> u16 {
    let n = ((x as u64) << (d + 1)) + Q as u64;
    ((n / (2 * Q as u64)) & ((1 << d) - 1)) as u16
}
pub fn decompress(d: u32, y: u16) -> u16 {
    (((y as u64 * Q as u64 * 2) + (1 << d)) >> (d + 1)) as u16
}

pub fn byte_encode(d: u32, f: &Poly) -> Vec<u8> {
    let mut out = vec![0u8; 32 * d as usize];
    let (mut acc, mut n, mut o) = (0u32, 0u32, 0usize);
    for &x in f {
        acc |= (x as u32) << n;
        n += d;
        while n >= 8 {
            out[o] = acc as u8;
            o += 1;
            acc >>= 8;
            n -= 8;
        }
    }
    out
}
/// ByteDecode_d without the reduction modulo q
pub fn byte_decode_raw(d: u32, b: &[u8]) -> Poly {
    assert_eq!(b.len(), 32 * d as usize);
    let mut f = [0u16; 256];
    let (mut acc, mut n, mut k) = (0u32, 0u32, 0usize);
    for x in f.iter_mut() {
        while n < d {
            acc |= (b[k] as u32) << n;
            k += 1;
            n += 8;
        }
        *x = (acc & ((1 << d) - 1)) as u16;
        acc >>= d;
        n -= d;
    }
    f
}
pub fn byte_decode(d: u32, b: &[u8]) -> Poly {
    let f = byte_decode_raw(d, b);
    if d == 12 {
        f.map(|x| (x as u32 % Q) as u16)
    } else {
        f
    }
}

pub fn encode_vec(d: u32, v: &[Poly]) -> Vec<u8> {
    v.iter().flat_map(|p| byte_encode(d, p)).collect()
}
pub fn decode_vec(d: u32, b: &[u8]) -> Vec<Poly> {
    b.chunks(32 * d as usize).map(|c| byte_decode(d, c)).collect()
}

/// Statistics of one SampleNTT run
#[derive(Clone, Copy, Debug, Default)]
pub struct SampleStat {
    pub bytes: usize,
    pub rejected: usize,
    /// candidates equal to q or q - 1
    pub edge: usize,
    /// last triple gave a usable second candidate that was dropped
    pub dropped: bool,
}

thread_local! {
    static STATS: std::cell::Cell<SampleStat> = const { std::cell::Cell::new(SampleStat { bytes: 0, rejected: 0, edge: 0, dropped: false }) };
}
/// The longest run and the number of edge candidates on this thread since the last call
pub fn take_stats() -> SampleStat {
    STATS.with(|s| s.take())
}

/// SampleNTT over XOF(rho, b0, b1)
pub fn sample_ntt(rho: &[u8], b0: u8, b1: u8) -> (Poly, SampleStat) {
    let mut s = Sponge::shake128().absorb(rho).absorb(&[b0, b1]);
    let mut st = SampleStat::default();
    let mut a = [0u16; 256];
    let mut j = 0;
    while j < 256 {
        let mut c = [0u8; 3];
        s.squeeze(&mut c);
        st.bytes += 3;
        let d1 = c[0] as u16 + 256 * (c[1] as u16 % 16);
        let d2 = c[1] as u16 / 16 + 16 * c[2] as u16;
        for d in [d1, d2] {
            if d == 3329 || d == 3328 {
                st.edge += 1;
            }
        }
        if (d1 as u32) < Q {
            a[j] = d1;
            j += 1;
        } else {
            st.rejected += 1;
        }
        if (d2 as u32) < Q {
            if j < 256 {
                a[j] = d2;
                j += 1;
            } else {
                st.dropped = true;
            }
        } else {
            st.rejected += 1;
        }
    }
    STATS.with(|c| {
        let mut t = c.get();
        t.bytes = t.bytes.max(st.bytes);
        t.edge += st.edge;
        t.rejected += st.rejected;
        c.set(t);
    });
    (a, st)
}

/// SamplePolyCBD_eta(PRF_eta(seed, n))
pub fn cbd(eta: usize, seed: &[u8], n: u8) -> Poly {
    let mut b = vec![0u8; 64 * eta];
    Sponge::shake256().absorb(seed).absorb(&[n]).squeeze(&mut b);
    let bit = |i: usize| (b[i / 8] >> (i % 8) & 1) as i32;
    std::array::from_fn(|i| {
        let mut x = 0;
        for j in 0..eta {
            x += bit(2 * i * eta + j) - bit(2 * i * eta + eta + j);
        }
        x.rem_euclid(Q as i32) as u16
    })
}

/// A[i][j] = SampleNTT(rho || j || i)
pub fn matrix(p: &Params, rho: &[u8]) -> Vec<Vec<Poly>> {
    (0..p.k).map(|i| (0..p.k).map(|j| sample_ntt(rho, j as u8, i as u8).0).collect()).collect()
}

pub fn keygen(p: &Params, d: &[u8; 32], z: &[u8; 32]) -> (Vec<u8>, Vec<u8>) {
    let g = sha3_512(&[d, &[p.k as u8]]);
    let (rho, sigma) = g.split_at(32);
    keygen_with(p, rho, sigma, z)
}

/// Key generation with a chosen matrix seed and noise seed
pub fn keygen_with(p: &Params, rho: &[u8], sigma: &[u8], z: &[u8; 32]) -> (Vec<u8>, Vec<u8>) {
    let a = matrix(p, rho);
    let s: Vec<Poly> = (0..p.k).map(|i| ntt(&cbd(p.eta1, sigma, i as u8))).collect();
    let e: Vec<Poly> = (0..p.k).map(|i| ntt(&cbd(p.eta1, sigma, (p.k + i) as u8))).collect();
    let t: Vec<Poly> = (0..p.k).map(|i| add(&dot(&a[i], &s), &e[i])).collect();
    let mut ek = encode_vec(12, &t);
    ek.extend_from_slice(rho);
    let mut dk = encode_vec(12, &s);
    dk.extend_from_slice(&ek);
    dk.extend_from_slice(&sha3_256(&[&ek]));
    dk.extend_from_slice(z);
    (ek, dk)
}

struct Noise {
    y_hat: Vec<Poly>,
    e1: Vec<Poly>,
    e2: Poly,
}
fn noise(p: &Params, r: &[u8]) -> Noise {
    Noise {
        y_hat: (0..p.k).map(|i| ntt(&cbd(p.eta1, r, i as u8))).collect(),
        e1: (0..p.k).map(|i| cbd(p.eta2, r, (p.k + i) as u8)).collect(),
        e2: cbd(p.eta2, r, 2 * p.k as u8),
    }
}
fn compute_u(p: &Params, rho: &[u8], n: &Noise) -> Vec<Poly> {
    let a = matrix(p, rho);
    (0..p.k)
        .map(|i| {
            let col: Vec<Poly> = (0..p.k).map(|j| a[j][i]).collect();
            add(&intt(&dot(&col, &n.y_hat)), &n.e1[i])
        })
        .collect()
}
fn map(f: &Poly, g: impl Fn(u16) -> u16) -> Poly {
    f.map(g)
}

pub fn pke_encrypt(p: &Params, ek: &[u8], m: &[u8], r: &[u8]) -> Vec<u8> {
    let t = decode_vec(12, &ek[..384 * p.k]);
    let rho = &ek[384 * p.k..];
    let n = noise(p, r);
    let u = compute_u(p, rho, &n);
    let mu = map(&byte_decode(1, m), |x| decompress(1, x));
    let v = add(&add(&intt(&dot(&t, &n.y_hat)), &n.e2), &mu);
    let cu: Vec<Poly> = u.iter().map(|f| map(f, |x| compress(p.du, x))).collect();
    let mut c = encode_vec(p.du, &cu);
    c.extend(byte_encode(p.dv, &map(&v, |x| compress(p.dv, x))));
    c
}

/// The polynomial w = v' - s^T u' of K-PKE.Decrypt
pub fn pke_w(p: &Params, dk_pke: &[u8], c: &[u8]) -> Poly {
    let s = decode_vec(12, dk_pke);
    let (c1, c2) = c.split_at(p.c1_len());
    let u: Vec<Poly> = decode_vec(p.du, c1).iter().map(|f| ntt(&map(f, |x| decompress(p.du, x)))).collect();
    let v = map(&byte_decode(p.dv, c2), |x| decompress(p.dv, x));
    sub(&v, &intt(&dot(&s, &u)))
}

pub fn pke_decrypt(p: &Params, dk_pke: &[u8], c: &[u8]) -> [u8; 32] {
    let w = pke_w(p, dk_pke, c);
    byte_encode(1, &map(&w, |x| compress(1, x))).try_into().unwrap()
}

/// ML-KEM.Encaps_internal on a key that passed the modulus check
pub fn encaps(p: &Params, ek: &[u8], m: &[u8; 32]) -> (Vec<u8>, [u8; 32]) {
    assert_eq!(ek.len(), p.ek_len());
    let g = sha3_512(&[m, &sha3_256(&[ek])]);
    let c = pke_encrypt(p, ek, m, &g[32..]);
    (c, g[..32].try_into().unwrap())
}

pub struct Dk<'a> {
    pub s: &'a [u8],
    pub ek: &'a [u8],
    pub h: &'a [u8],
    pub z: &'a [u8],
}
pub fn split_dk<'a>(p: &Params, dk: &'a [u8]) -> Dk<'a> {
    assert_eq!(dk.len(), p.dk_len());
    let (s, r) = dk.split_at(384 * p.k);
    let (ek, r) = r.split_at(384 * p.k + 32);
    let (h, z) = r.split_at(32);
    Dk { s, ek, h, z }
}

pub fn reject_key(z: &[u8], c: &[u8]) -> [u8; 32] {
    shake256_32(&[z, c])
}

pub struct Decaps {
    pub key: [u8; 32],
    pub accepted: bool,
    /// number of ciphertext bytes in which the re-encryption differs
    pub diff: usize,
}
/// ML-KEM.Decaps_internal
pub fn decaps(p: &Params, dk: &[u8], c: &[u8]) -> Decaps {
    assert_eq!(c.len(), p.ct_len());
    let f = split_dk(p, dk);
    let m = pke_decrypt(p, f.s, c);
    let g = sha3_512(&[&m, f.h]);
    let c2 = pke_encrypt(p, f.ek, &m, &g[32..]);
    let diff = c2.iter().zip(c).filter(|(a, b)| a != b).count();
    let key = if diff == 0 { g[..32].try_into().unwrap() } else { reject_key(f.z, c) };
    Decaps { key, accepted: diff == 0, diff }
}

/// Reduce every 12-bit coefficient of an encoded vector
pub fn canon12(b: &[u8]) -> Vec<u8> {
    encode_vec(12, &decode_vec(12, b))
}
pub fn canon_ek(p: &Params, ek: &[u8]) -> Vec<u8> {
    let mut o = canon12(&ek[..384 * p.k]);
    o.extend_from_slice(&ek[384 * p.k..]);
    o
}
pub fn canon_dk(p: &Params, dk: &[u8]) -> Vec<u8> {
    let f = split_dk(p, dk);
    let mut o = canon12(f.s);
    o.extend(canon_ek(p, f.ek));
    o.extend_from_slice(f.h);
    o.extend_from_slice(f.z);
    o
}

/// How the crafted ciphertext is placed relative to the decision boundaries
#[derive(Clone, Copy, Debug)]
pub struct CraftOpts {
    /// 0: w nearest the Compress_1 boundary, 1: farthest from it, 2: chosen by `sel`
    pub w_mode: u8,
    /// position of v inside its Compress_dv bucket: 0 centre, 1 lowest value, 2 highest value, 3 by `sel`
    pub v_mode: u8,
    pub sel: u64,
}

/// Builds a decapsulation key around an arbitrary secret vector `s_hat` (k encoded polynomials) whose
/// decapsulation of the returned ciphertext accepts: `h` is free, so the re-encryption randomness is known in
/// advance, and one component of t is solved for so that the re-encrypted v lands where it has to.
/// `t_rest` supplies the other components.  Returns (dk, ct).
pub fn craft_accepting(
    p: &Params,
    s_enc: &[u8],
    t_rest: &[Poly],
    rho: &[u8; 32],
    h: &[u8; 32],
    z: &[u8; 32],
    m: &[u8; 32],
    o: CraftOpts,
) -> Option<(Vec<u8>, Vec<u8>)> {
    let g = sha3_512(&[m, h]);
    let n = noise(p, &g[32..]);
    let u = compute_u(p, rho, &n);
    let cu: Vec<Poly> = u.iter().map(|f| map(f, |x| compress(p.du, x))).collect();
    let uh: Vec<Poly> = cu.iter().map(|f| ntt(&map(f, |x| decompress(p.du, x)))).collect();
    let s = decode_vec(12, s_enc);
    let su = intt(&dot(&s, &uh));
    let mbits = byte_decode(1, m);
    let mut sel = o.sel;
    let mut next = move || {
        sel = sel.wrapping_add(0x9e3779b97f4a7c15);
        let mut x = sel;
        x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
        x ^ (x >> 31)
    };
    // distance of w to the nearest Compress_1 decision boundary (between 832|833 and 2496|2497)
    let dist = |w: u16| {
        let w = w as i32;
        [832, 833, 2496, 2497].iter().map(|b| (w - b).abs().min(3329 - (w - b).abs())).min().unwrap()
    };
    let mut vc = [0u16; 256];
    let mut v = [0u16; 256];
    let two_dv = 1u16 << p.dv;
    for j in 0..256 {
        let cand: Vec<u16> = (0..two_dv)
            .filter(|&c| {
                let w = ((decompress(p.dv, c) as u32 + Q - su[j] as u32) % Q) as u16;
                compress(1, w) == mbits[j]
            })
            .collect();
        let wd = |c: &u16| dist(((decompress(p.dv, *c) as u32 + Q - su[j] as u32) % Q) as u16);
        vc[j] = match o.w_mode {
            0 => *cand.iter().min_by_key(|c| wd(c))?,
            1 => *cand.iter().max_by_key(|c| wd(c))?,
            _ => *cand.get(next() as usize % cand.len().max(1))?,
        };
        let c = decompress(p.dv, vc[j]) as i32;
        let norm = |x: i32| x.rem_euclid(Q as i32) as u16;
        let ok = |x: i32| compress(p.dv, norm(x)) == vc[j];
        let mode = if o.v_mode == 3 { (next() % 3) as u8 } else { o.v_mode };
        let mut x = c;
        match mode {
            1 => {
                while ok(x - 1) {
                    x -= 1
                }
            }
            2 => {
                while ok(x + 1) {
                    x += 1
                }
            }
            _ => {}
        }
        v[j] = norm(x);
    }
    let mu = map(&mbits, |x| decompress(1, x));
    let target = ntt(&sub(&sub(&v, &n.e2), &mu));
    let mut t: Vec<Poly> = t_rest[..p.k].to_vec();
    // per base-case pair: solve for the first component whose y is invertible there
    for i in 0..128 {
        let l = (0..p.k).find(|&l| n.y_hat[l][2 * i] != 0 || n.y_hat[l][2 * i + 1] != 0)?;
        let gm = GAMMAS[i] as i64;
        let q = Q as i64;
        let mulp = |a: (i64, i64), b: (i64, i64)| ((a.0 * b.0 + a.1 * b.1 % q * gm) % q, (a.0 * b.1 + a.1 * b.0) % q);
        let pair = |f: &Poly| (f[2 * i] as i64, f[2 * i + 1] as i64);
        let mut r = pair(&target);
        for ll in 0..p.k {
            if ll != l {
                let x = mulp(pair(&t[ll]), pair(&n.y_hat[ll]));
                r = ((r.0 - x.0).rem_euclid(q), (r.1 - x.1).rem_euclid(q));
            }
        }
        let y = pair(&n.y_hat[l]);
        let norm = (y.0 * y.0 - y.1 * y.1 % q * gm).rem_euclid(q);
        let ni = powmod(norm as u32, Q - 2) as i64;
        let inv = (y.0 * ni % q, (q - y.1) % q * ni % q);
        let x = mulp(r, inv);
        t[l][2 * i] = x.0.rem_euclid(q) as u16;
        t[l][2 * i + 1] = x.1.rem_euclid(q) as u16;
    }
    let mut dk = s_enc.to_vec();
    dk.extend(encode_vec(12, &t));
    dk.extend_from_slice(rho);
    dk.extend_from_slice(h);
    dk.extend_from_slice(z);
    let mut c = encode_vec(p.du, &cu);
    c.extend(byte_encode(p.dv, &vc));
    Some((dk, c))
}

#[cfg(test)]
mod t {
    use super::*;
    fn rnd(seed: u64) -> impl FnMut() -> u64 {
        let mut s = seed;
        move || {
            s = s.wrapping_add(0x9e3779b97f4a7c15);
            let mut x = s;
            x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
            x ^ (x >> 31)
        }
    }
    fn rpoly(r: &mut impl FnMut() -> u64) -> Poly {
        std::array::from_fn(|_| (r() % Q as u64) as u16)
    }
    #[test]
    fn ntt_by_definition() {
        let mut r = rnd(1);
        for _ in 0..20 {
            let f = rpoly(&mut r);
            let g = rpoly(&mut r);
            let fh = ntt(&f);
            assert_eq!(intt(&fh), f);
            // f mod (X^2 - gamma_i)
            for i in 0..128 {
                let gm = GAMMAS[i];
                let (mut c0, mut c1, mut pw) = (0, 0, 1);
                for j in 0..128 {
                    c0 = (c0 + f[2 * j] as u32 * pw) % Q;
                    c1 = (c1 + f[2 * j + 1] as u32 * pw) % Q;
                    pw = pw * gm % Q;
                }
                assert_eq!((c0 as u16, c1 as u16), (fh[2 * i], fh[2 * i + 1]));
            }
            // schoolbook product mod X^256 + 1
            let mut prod = [0i64; 256];
            for i in 0..256 {
                for j in 0..256 {
                    let v = f[i] as i64 * g[j] as i64;
                    if i + j < 256 {
                        prod[i + j] += v
                    } else {
                        prod[i + j - 256] -= v
                    }
                }
            }
            let prod = prod.map(|x| x.rem_euclid(Q as i64) as u16);
            assert_eq!(intt(&mul_hat(&fh, &ntt(&g))), prod);
        }
    }
    #[test]
    fn compress_exact() {
        for d in [1u32, 4, 5, 10, 11] {
            for x in 0..Q as u16 {
                // |2^d x / q - y| <= 1/2 (mod 2^d), ties impossible since q is odd
                let y = compress(d, x) as i64;
                let num = (x as i64) << d; // /q
                let e = (num - y * Q as i64).rem_euclid((Q as i64) << d);
                let e = e.min(((Q as i64) << d) - e);
                assert!(2 * e <= Q as i64, "{d} {x}");
            }
            for y in 0..1u16 << d {
                let x = decompress(d, y) as i64;
                let e = 2 * ((x << d) - y as i64 * Q as i64);
                assert!(-(1i64 << d) < e && e <= 1i64 << d);
                assert_eq!(compress(d, decompress(d, y)), y);
            }
        }
    }
    #[test]
    fn codec() {
        let mut r = rnd(7);
        for d in [1u32, 4, 5, 6, 10, 11, 12] {
            let f: Poly = std::array::from_fn(|_| (r() % if d == 12 { Q as u64 } else { 1 << d }) as u16);
            let b = byte_encode(d, &f);
            assert_eq!(byte_decode(d, &b), f);
            for i in 0..256 {
                for j in 0..d as usize {
                    let pos = i * d as usize + j;
                    assert_eq!(b[pos / 8] >> (pos % 8) & 1, (f[i] >> j & 1) as u8);
                }
            }
        }
    }
    #[test]
    fn craft() {
        let mut r = rnd(3);
        let mut near = 0;
        for p in ALL {
            for w in 0..3 {
                for v in 0..4 {
                    let s: Vec<Poly> = (0..p.k).map(|_| rpoly(&mut r)).collect();
                    let t: Vec<Poly> = (0..p.k).map(|_| rpoly(&mut r)).collect();
                    let mut b = || -> [u8; 32] { std::array::from_fn(|_| r() as u8) };
                    let (rho, h, z, m) = (b(), b(), b(), b());
                    let (dk, c) = craft_accepting(&p, &encode_vec(12, &s), &t, &rho, &h, &z, &m, CraftOpts { w_mode: w, v_mode: v, sel: 5 }).unwrap();
                    let d = decaps(&p, &dk, &c);
                    assert!(d.accepted);
                    assert_eq!(d.key[..], sha3_512(&[&m, &h])[..32]);
                    if w == 0 {
                        near += pke_w(&p, split_dk(&p, &dk).s, &c).iter().filter(|&&x| [832, 833, 2496, 2497].contains(&x)).count();
                    }
                }
            }
        }
        assert!(near > 20, "{near}");
    }
}
