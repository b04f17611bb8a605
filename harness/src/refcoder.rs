//! Independent model of the adaptive binary range coder: exact adaptation rule, a
//! range encoder keeping its low end as a bit vector with explicit carry
//! propagation, and a decoder that works on the stream as one big number.

/// The adaptation rule, written from its definition: every boundary moves towards
/// its target by 2^-rate of the distance (rounded towards minus infinity).
pub fn adapt(cdf: &mut [i32], symbol: usize) {
    let n = cdf.len() - 1;
    let count = cdf[n];
    let mut lg = 0;
    while (n >> (lg + 1)) > 0 { lg += 1; }
    let rate = 4 + (if count > 31 { 1 } else { 0 }) + lg;
    let step = 1i64 << rate;
    let span = (32768 - 32 * n as i64).div_euclid(step) * step;
    for i in 0..n - 1 {
        let target = 32 * (i as i64 + 1) + if i >= symbol { span } else { 0 };
        let old = cdf[i] as i64;
        cdf[i] = (old - (old - target).div_euclid(step)) as i32;
    }
    if cdf[n] < 32 { cdf[n] += 1; }
}

/// cumulative probability of symbols 0..=i, checked for validity
pub fn valid(cdf: &[i32]) -> Result<(), String> {
    let n = cdf.len() - 1;
    if cdf[n - 1] != 32768 { return Err(format!("last boundary is {}, not 32768", cdf[n - 1])); }
    if cdf[0] < 1 { return Err(format!("first boundary is {}", cdf[0])); }
    for i in 1..n { if cdf[i] <= cdf[i - 1] { return Err(format!("boundary {} ({}) does not exceed boundary {} ({})", i, cdf[i], i - 1, cdf[i - 1])); } }
    if cdf[n] < 0 || cdf[n] > 32 { return Err(format!("adaptation count is {}", cdf[n])); }
    Ok(())
}

/// Upper edge (from the top) of the part of `range` above symbol `i`.
fn edge(range: i64, cdf: &[i32], i: usize) -> i64 { ((range >> 8) * (32768 - cdf[i] as i64)) >> 7 }

/// Range encoder model. The interval is [low, low+range) scaled by 2^-(15+shifts),
/// low kept as bits (MSB first) plus explicit carry.
#[derive(Clone)]
pub struct RefEnc {
    pub bits: Vec<u8>, // integer part of low, one entry per bit, 15+shifts of them
    pub range: i64,
    pub shifts: usize,
}

impl RefEnc {
    pub fn new() -> RefEnc { RefEnc { bits: vec![0; 15], range: 1 << 15, shifts: 0 } }
    fn add(&mut self, mut v: i64) {
        let mut i = self.bits.len();
        let mut carry = 0i64;
        while (v > 0 || carry > 0) && i > 0 {
            i -= 1;
            let s = self.bits[i] as i64 + (v & 1) + carry;
            self.bits[i] = (s & 1) as u8;
            carry = s >> 1;
            v >>= 1;
        }
        assert!(v == 0 && carry == 0, "model overflow");
    }
    pub fn encode(&mut self, s: usize, cdf: &[i32]) {
        let hi = if s == 0 { self.range } else { edge(self.range, cdf, s - 1) };
        let lo = edge(self.range, cdf, s);
        self.add(self.range - hi);
        self.range = hi - lo;
        assert!(self.range > 0);
        while self.range < 32768 { self.range <<= 1; self.bits.push(0); self.shifts += 1; }
    }
}

/// Constant-size state of the encoder model: enough to know how many output bits
/// are held back because a carry could still reach them.
#[derive(Clone, Copy)]
pub struct Carry { low: i64, range: i64, pub pending: usize, pub carried: bool }

impl Carry {
    pub fn new() -> Carry { Carry { low: 0, range: 1 << 15, pending: 0, carried: false } }
    /// The state after coding `s`.
    pub fn step(&self, s: usize, cdf: &[i32]) -> Carry {
        let mut c = *self;
        c.carried = false;
        let hi = if s == 0 { c.range } else { edge(c.range, cdf, s - 1) };
        let lo = edge(c.range, cdf, s);
        c.low += c.range - hi;
        c.range = hi - lo;
        if c.low >= 32768 { c.low -= 32768; c.carried = true; c.pending = 0; }
        while c.range < 32768 {
            if c.low >> 14 == 1 { c.pending += 1 } else { c.pending = 0 }
            c.low = (c.low << 1) & 32767;
            c.range <<= 1;
        }
        c
    }
    /// Whether the carry into the held-back bits is still open.
    pub fn open(&self) -> bool { self.low + self.range > 32768 }
    /// How far inside the interval the point lies at which the carry would happen.
    pub fn centre(&self) -> i64 { (32768 - self.low).min(self.low + 2000).min(self.low + self.range - 32768) }
}

/// Range decoder model over a bit slice; reads past the end count as an error.
pub struct RefDec<'a> { b: &'a [u8], pub pos: usize, value: i64, range: i64 }

impl<'a> RefDec<'a> {
    pub fn new(b: &'a [u8]) -> Result<RefDec<'a>, String> {
        let mut d = RefDec { b, pos: 0, value: 0, range: 1 << 15 };
        for _ in 0..15 { let x = d.next()?; d.value = d.value * 2 + x; }
        Ok(d)
    }
    fn next(&mut self) -> Result<i64, String> {
        if self.pos >= self.b.len() { return Err("the stream is too short for its symbols".to_string()); }
        self.pos += 1;
        Ok(self.b[self.pos - 1] as i64)
    }
    /// value is the offset of the code point inside the current interval
    pub fn decode(&mut self, cdf: &[i32]) -> Result<usize, String> {
        let n = cdf.len() - 1;
        let mut hi = self.range;
        for s in 0..n {
            let lo = edge(self.range, cdf, s);
            // symbol s covers offsets [range-hi, range-lo)
            if self.value < self.range - lo {
                self.value -= self.range - hi;
                self.range = hi - lo;
                while self.range < 32768 { let x = self.next()?; self.value = self.value * 2 + x; self.range <<= 1; }
                return Ok(s);
            }
            hi = lo;
        }
        Err("the code point lies outside the interval".to_string())
    }
}

pub fn bool_cdf(p: i32) -> Vec<i32> { vec![((p << 15) + 256 - p) >> 8, 1 << 15, 0] }
