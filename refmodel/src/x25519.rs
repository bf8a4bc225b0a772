//! RFC 7748 X25519 with a plain 4x64 field.
type F = [u64; 4];
const P: F = [0xffff_ffff_ffff_ffed, u64::MAX, u64::MAX, 0x7fff_ffff_ffff_ffff];

fn carry_fold(lo: [u64; 4], mut top: u64) -> F {
    // value = lo + top * 2^256, 2^256 = 38 mod p ; fold until below 2^256, then reduce
    let mut r = lo;
    while top != 0 {
        let mut c = top as u128 * 38;
        for x in r.iter_mut() {
            c += *x as u128;
            *x = c as u64;
            c >>= 64;
        }
        top = c as u64;
    }
    r
}
fn geq(a: &F, b: &F) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub_raw(a: &F, b: &F) -> F {
    let mut o = [0; 4];
    let mut br = 0i128;
    for i in 0..4 {
        let d = a[i] as i128 - b[i] as i128 + br;
        o[i] = d as u64;
        br = d >> 64;
    }
    o
}
fn reduce(mut a: F) -> F {
    while geq(&a, &P) {
        a = sub_raw(&a, &P);
    }
    a
}
fn add(a: &F, b: &F) -> F {
    let mut o = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        o[i] = c as u64;
        c >>= 64;
    }
    reduce(carry_fold(o, c as u64))
}
fn sub(a: &F, b: &F) -> F {
    // a, b < p
    add(a, &sub_raw(&P, b))
}
fn mul(a: &F, b: &F) -> F {
    let mut w = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            c += w[i + j] as u128 + a[i] as u128 * b[j] as u128;
            w[i + j] = c as u64;
            c >>= 64;
        }
        w[i + 4] = c as u64;
    }
    let mut o = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += w[i] as u128 + w[i + 4] as u128 * 38;
        o[i] = c as u64;
        c >>= 64;
    }
    reduce(carry_fold(o, c as u64))
}
fn inv(a: &F) -> F {
    // a^(p-2)
    let mut e = P;
    e[0] -= 2;
    let mut r = [1, 0, 0, 0];
    for i in (0..255).rev() {
        r = mul(&r, &r);
        if e[i / 64] >> (i % 64) & 1 == 1 {
            r = mul(&r, a);
        }
    }
    r
}
pub fn decode_u(u: &[u8; 32]) -> [u64; 4] {
    let mut x: F = std::array::from_fn(|i| u64::from_le_bytes(u[8 * i..8 * i + 8].try_into().unwrap()));
    x[3] &= 0x7fff_ffff_ffff_ffff;
    reduce(x)
}
/// k times the point, k any number below 2^256; None for the point at infinity
fn ladder(k: &[u8; 32], x1: &F) -> Option<F> {
    let (mut x2, mut z2, mut x3, mut z3): (F, F, F, F) = ([1, 0, 0, 0], [0; 4], *x1, [1, 0, 0, 0]);
    let mut swap = 0;
    for t in (0..256).rev() {
        let kt = k[t / 8] >> (t % 8) & 1;
        if swap != kt {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        swap = kt;
        let a = add(&x2, &z2);
        let aa = mul(&a, &a);
        let b = sub(&x2, &z2);
        let bb = mul(&b, &b);
        let e = sub(&aa, &bb);
        let c = add(&x3, &z3);
        let d = sub(&x3, &z3);
        let da = mul(&d, &a);
        let cb = mul(&c, &b);
        let s = add(&da, &cb);
        x3 = mul(&s, &s);
        let s = sub(&da, &cb);
        z3 = mul(x1, &mul(&s, &s));
        x2 = mul(&aa, &bb);
        z2 = mul(&e, &add(&aa, &mul(&[121665, 0, 0, 0], &e)));
    }
    if swap == 1 {
        std::mem::swap(&mut x2, &mut x3);
        std::mem::swap(&mut z2, &mut z3);
    }
    if z2 == [0; 4] {
        return None;
    }
    Some(mul(&x2, &inv(&z2)))
}
fn encode(r: &F) -> [u8; 32] {
    let mut o = [0; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&r[i].to_le_bytes());
    }
    o
}
fn clamped(k: &[u8; 32]) -> [u8; 32] {
    let mut k = *k;
    k[0] &= 248;
    k[31] = (k[31] & 127) | 64;
    k
}
pub fn x25519(k: &[u8; 32], u: &[u8; 32]) -> [u8; 32] {
    encode(&ladder(&clamped(k), &decode_u(u)).unwrap_or([0; 4]))
}
fn reversed(b: &[u8; 32]) -> [u8; 32] {
    let mut b = *b;
    b.reverse();
    b
}
/// A public value with which this secret gives `want`, or the next possible value (counted up at byte `at`)
pub fn with_result(k: &[u8; 32], want: &[u8; 32], at: usize) -> [u8; 32] {
    use crate::ec::{from_be, to_be, Field};
    // orders of the large subgroups of the curve and of its twist
    let mut orders = [[0u8; 32]; 2];
    for (o, h) in orders.iter_mut().zip(["1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", "1fffffffffffffffffffffffffffffffd6420c42ba10c6534fdb39cb4614581d"]) {
        *o = std::array::from_fn(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap());
    }
    let mut u = *want;
    u[31] &= 0x7f;
    loop {
        let x = decode_u(&u);
        for n in &orders {
            if x != [0; 4] && ladder(&reversed(n), &x).is_none() {
                let f = Field::new(from_be(n));
                let k = f.from(&f.inv(&f.to(&from_be(&mod_n(&reversed(&clamped(k)), n)))));
                let k: [u8; 32] = to_be(&k, 32).try_into().unwrap();
                return encode(&ladder(&reversed(&k), &x).unwrap());
            }
        }
        for b in u[at % 31..].iter_mut() {
            *b = b.wrapping_add(1);
            if *b != 0 {
                break;
            }
        }
        u[31] &= 0x7f;
    }
}
/// k mod n, big-endian; n has at least 253 bits
fn mod_n(k: &[u8; 32], n: &[u8; 32]) -> [u8; 32] {
    let mut k = *k;
    while k >= *n {
        let mut borrow = 0;
        for i in (0..32).rev() {
            let d = k[i] as i16 - n[i] as i16 - borrow;
            k[i] = d as u8;
            borrow = (d < 0) as i16;
        }
    }
    k
}
pub fn base(k: &[u8; 32]) -> [u8; 32] {
    let mut u = [0; 32];
    u[0] = 9;
    x25519(k, &u)
}

/// u-coordinates of all points of small order (and their non-canonical and high-bit encodings)
pub fn low_order() -> Vec<[u8; 32]> {
    let h = |s: &str| -> [u8; 32] { std::array::from_fn(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()) };
    let mut v: Vec<[u8; 32]> = [
        "0000000000000000000000000000000000000000000000000000000000000000",
        "0100000000000000000000000000000000000000000000000000000000000000",
        "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
        "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
        "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    ]
    .iter()
    .map(|s| h(s))
    .collect();
    for i in 0..v.len() {
        let mut x = v[i];
        x[31] |= 0x80;
        v.push(x);
    }
    v
}

#[cfg(test)]
mod t {
    use super::*;
    fn h(s: &str) -> [u8; 32] {
        std::array::from_fn(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
    }
    #[test]
    fn rfc7748() {
        assert_eq!(
            x25519(&h("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"), &h("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c")),
            h("c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552")
        );
        assert_eq!(
            x25519(&h("4b66e9d4d1b4673c5ad22691957d6af5c11b6421e0ea01d42ca4169e7918ba0d"), &h("e5210f12786811d3f4b7959d0538ae2c31dbe7106fc03c3efc4cd549c715a493")),
            h("95cbde9476e8907d7aade45cb4b873f88b595a68799fa152e6f8f7647aac7957")
        );
        let mut k = h("0900000000000000000000000000000000000000000000000000000000000000");
        let mut u = k;
        for _ in 0..1000 {
            let r = x25519(&k, &u);
            u = k;
            k = r;
        }
        assert_eq!(k, h("684cf59ba83309552800ef566f2f4d3c1c3887c49360e3875f2eb94d99532c51"));
        assert_eq!(base(&h("77076d0a7318a57d3c16c17251b26645dfc92ddfd6de8fdb32b8e2f1bf3e5b3d".get(0..64).unwrap())).len(), 32);
        for l in low_order() {
            assert_eq!(x25519(&h("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"), &l), [0; 32]);
        }
        for i in 0..20u8 {
            let (k, w) = ([i.wrapping_mul(91); 32], std::array::from_fn(|j| if j < 30 { 0 } else { i }));
            let r = x25519(&k, &with_result(&k, &w, 0));
            assert_eq!(r[2..31], w[2..31]);
        }
    }
}
