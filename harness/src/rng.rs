//! A scripted random generator: every byte it hands out is known to the check.
use rand_core::{CryptoRng, Error, RngCore};
use std::num::NonZeroU32;

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
/// byte `i` of the pseudo-random stream `seed`
pub fn stream_byte(seed: u64, i: usize) -> u8 {
    (mix(seed ^ mix(i as u64 / 8)) >> (8 * (i % 8))) as u8
}

/// Yields `script`, then the stream `tail`
#[derive(Clone, Debug)]
pub struct ScriptRng {
    pub script: Vec<u8>,
    pub tail: u64,
    pub used: usize,
    pub calls: usize,
    /// fails for good instead of handing out more bytes than this
    pub limit: Option<usize>,
    pub refused: usize,
}
impl ScriptRng {
    pub fn new(script: Vec<u8>, tail: u64) -> Self {
        ScriptRng { script, tail, used: 0, calls: 0, limit: None, refused: 0 }
    }
    pub fn failing(script: Vec<u8>, limit: usize) -> Self {
        ScriptRng { limit: Some(limit), ..Self::new(script, 0) }
    }
    fn refuses(&mut self, n: usize) -> bool {
        let r = self.limit.is_some_and(|l| self.used + n > l);
        self.refused += r as usize;
        r
    }
    pub fn of(parts: &[&[u8]]) -> Self {
        Self::new(parts.concat(), 0x7461696c)
    }
    pub fn byte(&self, i: usize) -> u8 {
        self.script.get(i).copied().unwrap_or_else(|| stream_byte(self.tail, i))
    }
    pub fn range(&self, a: usize, b: usize) -> Vec<u8> {
        (a..b).map(|i| self.byte(i)).collect()
    }
}
impl RngCore for ScriptRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        assert!(!self.refuses(dest.len()), "the generator failed");
        self.calls += 1;
        for b in dest {
            *b = self.byte(self.used);
            self.used += 1;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        if self.refuses(dest.len()) {
            assert!(self.refused < 1000, "the generator failed");
            return Err(Error::from(NonZeroU32::new(Error::CUSTOM_START).unwrap()));
        }
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for ScriptRng {}
