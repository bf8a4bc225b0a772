//! FIPS 202, straight from the definition (round constants and rotation offsets are derived, not tabulated).

const fn rc_bit(t: usize) -> u64 {
    // LFSR of FIPS 202 Algorithm 5
    let t = t % 255;
    if t == 0 {
        return 1;
    }
    let mut r: u16 = 1; // r[0] is bit 0 here
    let mut i = 0;
    while i < t {
        r <<= 1;
        if r & 0x100 != 0 {
            r ^= 0x171;
        }
        i += 1;
    }
    (r & 1) as u64
}

const RC: [u64; 24] = {
    let mut out = [0u64; 24];
    let mut ir = 0;
    while ir < 24 {
        let mut j = 0;
        while j <= 6 {
            out[ir] |= rc_bit(j + 7 * ir) << ((1usize << j) - 1);
            j += 1;
        }
        ir += 1;
    }
    out
};

const RHO: [u32; 25] = {
    let mut out = [0u32; 25];
    let (mut x, mut y) = (1usize, 0usize);
    let mut t = 0;
    while t < 24 {
        out[x + 5 * y] = (((t + 1) * (t + 2) / 2) % 64) as u32;
        let ny = (2 * x + 3 * y) % 5;
        x = y;
        y = ny;
        t += 1;
    }
    out
};

pub fn keccak_f(a: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut b = [0u64; 25];
        for x in 0..5 {
            for y in 0..5 {
                b[y + 5 * ((2 * x + 3 * y) % 5)] = a[x + 5 * y].rotate_left(RHO[x + 5 * y]);
            }
        }
        for y in 0..5 {
            for x in 0..5 {
                a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
            }
        }
        a[0] ^= rc;
    }
}

pub struct Sponge {
    st: [u64; 25],
    rate: usize,
    pos: usize,
    suffix: u8,
    squeezing: bool,
}

impl Sponge {
    fn new(rate: usize, suffix: u8) -> Self {
        Sponge { st: [0; 25], rate, pos: 0, suffix, squeezing: false }
    }
    pub fn shake128() -> Self {
        Self::new(168, 0x1f)
    }
    pub fn shake256() -> Self {
        Self::new(136, 0x1f)
    }
    pub fn absorb(mut self, data: &[u8]) -> Self {
        assert!(!self.squeezing);
        for &b in data {
            self.st[self.pos / 8] ^= (b as u64) << (8 * (self.pos % 8));
            self.pos += 1;
            if self.pos == self.rate {
                keccak_f(&mut self.st);
                self.pos = 0;
            }
        }
        self
    }
    pub fn squeeze(&mut self, out: &mut [u8]) {
        if !self.squeezing {
            self.st[self.pos / 8] ^= (self.suffix as u64) << (8 * (self.pos % 8));
            self.st[(self.rate - 1) / 8] ^= 0x80u64 << (8 * ((self.rate - 1) % 8));
            keccak_f(&mut self.st);
            self.pos = 0;
            self.squeezing = true;
        }
        for o in out {
            if self.pos == self.rate {
                keccak_f(&mut self.st);
                self.pos = 0;
            }
            *o = (self.st[self.pos / 8] >> (8 * (self.pos % 8))) as u8;
            self.pos += 1;
        }
    }
}

fn hash<const N: usize>(rate: usize, suffix: u8, parts: &[&[u8]]) -> [u8; N] {
    let mut s = Sponge::new(rate, suffix);
    for p in parts {
        s = s.absorb(p);
    }
    let mut out = [0; N];
    s.squeeze(&mut out);
    out
}

pub fn sha3_256(parts: &[&[u8]]) -> [u8; 32] {
    hash(136, 0x06, parts)
}
pub fn sha3_512(parts: &[&[u8]]) -> [u8; 64] {
    hash(72, 0x06, parts)
}
pub fn shake256_32(parts: &[&[u8]]) -> [u8; 32] {
    hash(136, 0x1f, parts)
}
pub fn shake128_96(parts: &[&[u8]]) -> [u8; 96] {
    hash(168, 0x1f, parts)
}

#[cfg(test)]
mod t {
    use super::*;
    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
    #[test]
    fn kat() {
        assert_eq!(hex(&sha3_256(&[b""])), "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a");
        assert_eq!(hex(&sha3_512(&[b"Input to ", b"an invocation of G"])), "07dfced2a3a3feb3277cee1709818828ea6d2f42800152e9c312e848122231c2272969098a1bbd5a0a9844e2f89f206d8f7f4599e36aecaa4793af400fd880d8");
        assert_eq!(hex(&shake256_32(&[b"Input to an invocation of J"])), "a5292293d70c8eca049cbb475c48fabd625ed2b20785a18248504d3741196b52");
        assert_eq!(hex(&shake128_96(&[b""])[..16]), "7f9c2ba4e88f827d616045507605853e");
    }
}
