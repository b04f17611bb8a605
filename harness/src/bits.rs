//! An independent MSB-first bit reader/writer used by the oracles.
use std::collections::VecDeque;

pub struct BitR<'a> { pub b: &'a [u8], pub pos: usize }

impl<'a> BitR<'a> {
    pub fn new(b: &'a [u8]) -> BitR<'a> { BitR { b, pos: 0 } }
    pub fn left(&self) -> usize { self.b.len() - self.pos }
    pub fn bit(&mut self) -> Result<u64, String> {
        if self.pos >= self.b.len() { return Err(format!("ran out of bits at {}", self.pos)); }
        let v = self.b[self.pos];
        if v > 1 { return Err(format!("element {} of the bit stream is {}, not a bit", self.pos, v)); }
        self.pos += 1;
        Ok(v as u64)
    }
    pub fn f(&mut self, n: usize) -> Result<u64, String> {
        let mut x = 0u64;
        for _ in 0..n { x = (x << 1) | self.bit()?; }
        Ok(x)
    }
    pub fn flag(&mut self) -> Result<bool, String> { Ok(self.bit()? == 1) }
    pub fn su(&mut self, n: usize) -> Result<i64, String> {
        let v = self.f(n)? as i64;
        Ok(if n > 0 && n < 64 && v >= 1i64 << (n - 1) { v - (1i64 << n) } else { v })
    }
    pub fn ns(&mut self, n: u64) -> Result<u64, String> {
        let mut w = 0;
        let mut x = n;
        while x != 0 { x >>= 1; w += 1; }
        let m = ((1u128 << w) - n as u128) as u64;
        let v = self.f(w - 1)?;
        if v < m { return Ok(v); }
        let e = self.bit()?;
        Ok((v << 1) - m + e)
    }
    pub fn le(&mut self, n: usize) -> Result<u64, String> {
        let mut t = 0u64;
        for i in 0..n { t |= self.f(8)? << (8 * i); }
        Ok(t)
    }
    pub fn leb128(&mut self) -> Result<u64, String> {
        let mut v = 0u64;
        for i in 0..8 {
            let b = self.f(8)?;
            v |= (b & 0x7f) << (i * 7);
            if b & 0x80 == 0 { break; }
        }
        Ok(v)
    }
    pub fn uvlc(&mut self) -> Result<u64, String> {
        let mut lz = 0;
        while self.bit()? == 0 { lz += 1; }
        if lz >= 32 { return Ok((1u64 << 32) - 1); }
        Ok(self.f(lz)? + (1u64 << lz) - 1)
    }
}

#[derive(Default, Clone)]
pub struct BitW(pub Vec<u8>);

impl BitW {
    pub fn f(&mut self, v: u64, n: usize) { for i in (0..n).rev() { self.0.push(((v >> i) & 1) as u8); } }
    pub fn uvlc(&mut self, v: u64) {
        let x = v + 1;
        let mut n = 0;
        while (x >> n) > 1 { n += 1; }
        self.f(0, n);
        self.f(1, 1);
        if n < 32 { self.f(x - (1 << n), n); }
    }
    pub fn le(&mut self, v: u64, n: usize) { for i in 0..n { self.f((v >> (8 * i)) & 255, 8); } }
    pub fn leb128(&mut self, mut v: u64) {
        loop {
            let b = v & 127;
            v >>= 7;
            self.f(if v > 0 { b | 128 } else { b }, 8);
            if v == 0 { break; }
        }
    }
    pub fn su(&mut self, v: i64, n: usize) { self.f(v as u64 & (if n >= 64 { u64::MAX } else { (1u64 << n) - 1 }), n); }
    pub fn ns(&mut self, v: u64, n: u64) {
        let mut w = 0;
        while (n as u128 >> w) > 0 { w += 1; }
        let m = ((1u128 << w) - n as u128) as u64;
        if v < m { self.f(v, w - 1); }
        else {
            // v = 2*t - m + e with t >= m
            let t = (v + m) >> 1;
            let e = (v + m) & 1;
            self.f(t, w - 1);
            self.f(e, 1);
        }
    }
}

pub fn queue(v: &[u8]) -> VecDeque<u8> { v.iter().cloned().collect() }

pub fn bytes_to_bits(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(b.len() * 8);
    for x in b { for i in (0..8).rev() { v.push((x >> i) & 1); } }
    v
}

pub fn show_bits(b: &[u8]) -> String {
    let s: String = b.iter().take(256).map(|x| if *x > 0 { '1' } else { '0' }).collect();
    format!("{}[{} bits]", s, b.len())
}
