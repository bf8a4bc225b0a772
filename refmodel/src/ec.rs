//! Short Weierstrass curves over prime fields, generic Montgomery arithmetic, textbook Jacobian formulas.
use std::sync::OnceLock;

const M: usize = 9;
pub type Int = [u64; M];

#[derive(Clone)]
pub struct Field {
    p: Int,
    l: usize,
    n0: u64,
    r2: Int,
    one: Int,
}

pub fn cmp(a: &Int, b: &Int) -> std::cmp::Ordering {
    for i in (0..M).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    std::cmp::Ordering::Equal
}
fn add_raw(a: &Int, b: &Int) -> Int {
    let mut o = [0; M];
    let mut c = 0u128;
    for i in 0..M {
        c += a[i] as u128 + b[i] as u128;
        o[i] = c as u64;
        c >>= 64;
    }
    o
}
fn sub_raw(a: &Int, b: &Int) -> Int {
    let mut o = [0; M];
    let mut br = 0i128;
    for i in 0..M {
        let d = a[i] as i128 - b[i] as i128 + br;
        o[i] = d as u64;
        br = d >> 64;
    }
    o
}
pub fn from_be(b: &[u8]) -> Int {
    let mut o = [0u64; M];
    for (i, &x) in b.iter().rev().enumerate() {
        o[i / 8] |= (x as u64) << (8 * (i % 8));
    }
    o
}
pub fn to_be(a: &Int, len: usize) -> Vec<u8> {
    (0..len).rev().map(|i| (a[i / 8] >> (8 * (i % 8))) as u8).collect()
}
pub fn is_zero(a: &Int) -> bool {
    a.iter().all(|&x| x == 0)
}

impl Field {
    /// values need one spare bit in l limbs except that additions are done over M limbs, which always leaves room
    pub fn new(p: Int) -> Field {
        let l = (0..M).rev().find(|&i| p[i] != 0).unwrap() + 1;
        let mut n0 = 1u64;
        for _ in 0..6 {
            n0 = n0.wrapping_mul(2u64.wrapping_sub(p[0].wrapping_mul(n0)));
        }
        let mut f = Field { p, l, n0: n0.wrapping_neg(), r2: [0; M], one: [0; M] };
        // 2^(64 l) and 2^(128 l) mod p by doubling
        let mut x = [0; M];
        x[0] = 1;
        for i in 0..128 * l {
            x = f.add(&x, &x);
            if i + 1 == 64 * l {
                f.one = x;
            }
        }
        f.r2 = x;
        f
    }
    fn red(&self, a: Int) -> Int {
        if cmp(&a, &self.p) != std::cmp::Ordering::Less {
            sub_raw(&a, &self.p)
        } else {
            a
        }
    }
    pub fn add(&self, a: &Int, b: &Int) -> Int {
        if self.l == M {
            // p < 2^521: no overflow of 576 bits
            return self.red(add_raw(a, b));
        }
        self.red(add_raw(a, b))
    }
    pub fn sub(&self, a: &Int, b: &Int) -> Int {
        self.add(a, &self.red(sub_raw(&self.p, b)))
    }
    pub fn mul(&self, a: &Int, b: &Int) -> Int {
        let l = self.l;
        let mut t = [0u64; M + 2];
        for i in 0..l {
            let mut c = 0u128;
            for j in 0..l {
                c += t[j] as u128 + a[j] as u128 * b[i] as u128;
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[l] as u128;
            t[l] = c as u64;
            t[l + 1] = (c >> 64) as u64;
            let m = t[0].wrapping_mul(self.n0);
            let mut c = (t[0] as u128 + m as u128 * self.p[0] as u128) >> 64;
            for j in 1..l {
                c += t[j] as u128 + m as u128 * self.p[j] as u128;
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[l] as u128;
            t[l - 1] = c as u64;
            t[l] = t[l + 1] + (c >> 64) as u64;
        }
        // result < 2p, occupying l limbs + t[l]
        let mut o = [0; M];
        if l == M {
            o.copy_from_slice(&t[..M]);
        } else {
            o[..=l].copy_from_slice(&t[..=l]);
        }
        self.red(o)
    }
    pub fn to(&self, a: &Int) -> Int {
        self.mul(a, &self.r2)
    }
    pub fn from(&self, a: &Int) -> Int {
        let mut one = [0; M];
        one[0] = 1;
        self.mul(a, &one)
    }
    pub fn pow(&self, a: &Int, e: &Int) -> Int {
        let mut r = self.one;
        for i in (0..64 * M).rev() {
            r = self.mul(&r, &r);
            if e[i / 64] >> (i % 64) & 1 == 1 {
                r = self.mul(&r, a);
            }
        }
        r
    }
    pub fn inv(&self, a: &Int) -> Int {
        let mut e = self.p;
        e[0] -= 2;
        self.pow(a, &e)
    }
    /// p = 3 mod 4
    pub fn sqrt(&self, a: &Int) -> Option<Int> {
        let mut e = self.p;
        // (p+1)/4
        let mut one = [0; M];
        one[0] = 1;
        e = add_raw(&e, &one);
        for _ in 0..2 {
            for i in 0..M {
                e[i] = e[i] >> 1 | if i + 1 < M { e[i + 1] << 63 } else { 0 };
            }
        }
        let r = self.pow(a, &e);
        (self.mul(&r, &r) == *a).then_some(r)
    }
}

/// Jacobian point in Montgomery form; z = 0 is the identity
#[derive(Clone, Copy)]
pub struct Pt {
    x: Int,
    y: Int,
    z: Int,
}

pub struct Curve {
    pub name: &'static str,
    pub f: Field,
    pub n: Int,
    /// bytes of a field element (and of a scalar)
    pub len: usize,
    a: Int,
    b: Int,
    g: Pt,
}

fn hx(s: &str) -> Int {
    let s = if s.len() % 2 == 1 { format!("0{s}") } else { s.to_string() };
    let v: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    from_be(&v)
}

impl Curve {
    fn new(name: &'static str, len: usize, p: &str, a_minus3: bool, b: &str, gx: &str, gy: &str, n: &str) -> Curve {
        let f = Field::new(hx(p));
        let mut three = [0; M];
        three[0] = 3;
        let a = if a_minus3 { f.sub(&[0; M], &f.to(&three)) } else { [0; M] };
        let b = f.to(&hx(b));
        let g = Pt { x: f.to(&hx(gx)), y: f.to(&hx(gy)), z: f.one };
        Curve { name, f, n: hx(n), len, a, b, g }
    }
    fn identity(&self) -> Pt {
        Pt { x: self.f.one, y: self.f.one, z: [0; M] }
    }
    fn dbl(&self, p: &Pt) -> Pt {
        let f = &self.f;
        if is_zero(&p.z) || is_zero(&p.y) {
            return self.identity();
        }
        let yy = f.mul(&p.y, &p.y);
        let xyy = f.mul(&p.x, &yy);
        let s2 = f.add(&xyy, &xyy);
        let s = f.add(&s2, &s2);
        let xx = f.mul(&p.x, &p.x);
        let zz = f.mul(&p.z, &p.z);
        let m = f.add(&f.add(&f.add(&xx, &xx), &xx), &f.mul(&self.a, &f.mul(&zz, &zz)));
        let x = f.sub(&f.mul(&m, &m), &f.add(&s, &s));
        let y4 = f.mul(&yy, &yy);
        let y8 = {
            let a = f.add(&y4, &y4);
            let a = f.add(&a, &a);
            f.add(&a, &a)
        };
        let y = f.sub(&f.mul(&m, &f.sub(&s, &x)), &y8);
        let yz = f.mul(&p.y, &p.z);
        Pt { x, y, z: f.add(&yz, &yz) }
    }
    fn addp(&self, p: &Pt, q: &Pt) -> Pt {
        let f = &self.f;
        if is_zero(&p.z) {
            return *q;
        }
        if is_zero(&q.z) {
            return *p;
        }
        let z1 = f.mul(&p.z, &p.z);
        let z2 = f.mul(&q.z, &q.z);
        let u1 = f.mul(&p.x, &z2);
        let u2 = f.mul(&q.x, &z1);
        let s1 = f.mul(&p.y, &f.mul(&z2, &q.z));
        let s2 = f.mul(&q.y, &f.mul(&z1, &p.z));
        if u1 == u2 {
            return if s1 == s2 { self.dbl(p) } else { self.identity() };
        }
        let h = f.sub(&u2, &u1);
        let r = f.sub(&s2, &s1);
        let hh = f.mul(&h, &h);
        let hhh = f.mul(&hh, &h);
        let v = f.mul(&u1, &hh);
        let x = f.sub(&f.sub(&f.mul(&r, &r), &hhh), &f.add(&v, &v));
        let y = f.sub(&f.mul(&r, &f.sub(&v, &x)), &f.mul(&s1, &hhh));
        Pt { x, y, z: f.mul(&h, &f.mul(&p.z, &q.z)) }
    }
    fn mulp(&self, k: &Int, p: &Pt) -> Pt {
        // 4-bit windows
        let mut t = vec![self.identity(), *p];
        for i in 2..16 {
            let n = if i % 2 == 0 { self.dbl(&t[i / 2]) } else { self.addp(&t[i - 1], p) };
            t.push(n);
        }
        let mut r = self.identity();
        for i in (0..2 * self.len).rev() {
            for _ in 0..4 {
                r = self.dbl(&r);
            }
            let w = (k[i / 16] >> (4 * (i % 16)) & 15) as usize;
            if w != 0 {
                r = self.addp(&r, &t[w]);
            }
        }
        r
    }
    fn affine(&self, p: &Pt) -> Option<(Int, Int)> {
        if is_zero(&p.z) {
            return None;
        }
        let f = &self.f;
        let zi = f.inv(&p.z);
        let z2 = f.mul(&zi, &zi);
        Some((f.from(&f.mul(&p.x, &z2)), f.from(&f.mul(&p.y, &f.mul(&z2, &zi)))))
    }
    fn sec1(&self, a: &(Int, Int)) -> Vec<u8> {
        let mut o = vec![4];
        o.extend(to_be(&a.0, self.len));
        o.extend(to_be(&a.1, self.len));
        o
    }
    pub fn valid_scalar(&self, k: &[u8]) -> bool {
        let k = from_be(k);
        !is_zero(&k) && cmp(&k, &self.n) == std::cmp::Ordering::Less
    }
    /// uncompressed SEC1 encoding of k G
    pub fn public(&self, k: &[u8]) -> Vec<u8> {
        self.sec1(&self.affine(&self.mulp(&from_be(k), &self.g)).expect("scalar is not a multiple of n"))
    }
    fn parse(&self, pt: &[u8]) -> Pt {
        assert_eq!(pt[0], 4);
        let x = self.f.to(&from_be(&pt[1..1 + self.len]));
        let y = self.f.to(&from_be(&pt[1 + self.len..]));
        assert!(self.on_curve(&x, &y));
        Pt { x, y, z: self.f.one }
    }
    fn rhs(&self, x: &Int) -> Int {
        let f = &self.f;
        let x3 = f.mul(&f.mul(x, x), x);
        f.add(&f.add(&x3, &f.mul(&self.a, x)), &self.b)
    }
    fn on_curve(&self, x: &Int, y: &Int) -> bool {
        self.f.mul(y, y) == self.rhs(x)
    }
    /// x-coordinate of k P, P an uncompressed SEC1 point
    pub fn dh(&self, k: &[u8], pt: &[u8]) -> Vec<u8> {
        let r = self.affine(&self.mulp(&from_be(k), &self.parse(pt))).expect("prime order group");
        to_be(&r.0, self.len)
    }
    /// k P, uncompressed
    pub fn mul_point(&self, k: &[u8], pt: &[u8]) -> Vec<u8> {
        self.sec1(&self.affine(&self.mulp(&from_be(k), &self.parse(pt))).expect("prime order group"))
    }
    /// 1/k modulo the group order
    pub fn inv_scalar(&self, k: &[u8]) -> Vec<u8> {
        let f = Field::new(self.n);
        to_be(&f.from(&f.inv(&f.to(&from_be(k)))), self.len)
    }
    /// the first curve point with x >= the given x (mod p), uncompressed
    pub fn lift(&self, x: &[u8], odd: bool) -> Vec<u8> {
        let f = &self.f;
        let mut x = from_be(x);
        while cmp(&x, &f.p) != std::cmp::Ordering::Less {
            // only for inputs of len bytes with junk high bits
            if self.len == 66 {
                x[8] &= 0x1ff;
                if cmp(&x, &f.p) == std::cmp::Ordering::Less {
                    break;
                }
            }
            x = sub_raw(&x, &f.p);
        }
        loop {
            let xm = f.to(&x);
            if let Some(y) = f.sqrt(&self.rhs(&xm)) {
                let mut yy = f.from(&y);
                if (yy[0] & 1 == 1) != odd {
                    yy = f.from(&f.sub(&[0; M], &y));
                }
                return self.sec1(&(x, yy));
            }
            let mut one = [0; M];
            one[0] = 1;
            x = f.add(&x, &one);
        }
    }
    pub fn p_be(&self) -> Vec<u8> {
        to_be(&self.f.p, self.len)
    }
    pub fn n_be(&self) -> Vec<u8> {
        to_be(&self.n, self.len)
    }
}

pub fn k256() -> &'static Curve {
    static C: OnceLock<Curve> = OnceLock::new();
    C.get_or_init(|| {
        Curve::new(
            "secp256k1", 32,
            "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", false, "07",
            "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
            "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8",
            "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
        )
    })
}
pub fn p256() -> &'static Curve {
    static C: OnceLock<Curve> = OnceLock::new();
    C.get_or_init(|| {
        Curve::new(
            "P-256", 32,
            "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", true,
            "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
            "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
            "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5",
            "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
        )
    })
}
pub fn p384() -> &'static Curve {
    static C: OnceLock<Curve> = OnceLock::new();
    C.get_or_init(|| {
        Curve::new(
            "P-384", 48,
            "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff", true,
            "b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef",
            "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7",
            "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f",
            "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
        )
    })
}
pub fn p521() -> &'static Curve {
    static C: OnceLock<Curve> = OnceLock::new();
    C.get_or_init(|| {
        Curve::new(
            "P-521", 66,
            &("01".to_string() + &"ff".repeat(65)), true,
            "0051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00",
            "00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66",
            "011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650",
            &("01".to_string() + &"ff".repeat(32) + "fa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409"),
        )
    })
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn constants() {
        for c in [k256(), p256(), p384(), p521()] {
            assert!(c.on_curve(&c.g.x, &c.g.y), "{}", c.name);
            assert!(is_zero(&c.mulp(&c.n, &c.g).z), "{}", c.name);
            // (n-1) G = -G
            let mut one = [0; M];
            one[0] = 1;
            let k = to_be(&sub_raw(&c.n, &one), c.len);
            let g = c.sec1(&c.affine(&c.g).unwrap());
            let m = c.public(&k);
            assert_eq!(m[..1 + c.len], g[..1 + c.len]);
            assert_ne!(m, g);
            // commutativity through two representations
            let a: Vec<u8> = (0..c.len).map(|i| (i as u8).wrapping_mul(37) & if i == 0 { 0 } else { 255 }).collect();
            let b: Vec<u8> = (0..c.len).map(|i| (i as u8).wrapping_mul(91) & if i == 0 { 0 } else { 255 }).collect();
            assert_eq!(c.dh(&a, &c.public(&b)), c.dh(&b, &c.public(&a)));
            let l = c.lift(&vec![0; c.len], true);
            assert_eq!(c.mul_point(&a, &c.mul_point(&c.inv_scalar(&a), &l)), l);
            let mut one = vec![0; c.len];
            one[c.len - 1] = 1;
            assert_eq!(c.dh(&one, &l), l[1..1 + c.len]);
        }
    }
    #[test]
    fn rfc9180_p256() {
        let h = |s: &str| -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() };
        assert_eq!(
            p256().public(&h("4995788ef4b9d6132b249ce59a77281493eb39af373d236a1fe415cb0c2d7beb")),
            h("04a92719c6195d5085104f469a8b9814d5838ff72b60501e2c4466e5e67b325ac98536d7b61a1af4b78e5b7f951c0900be863c403ce65c9bfcb9382657222d18c4")
        );
    }
}
