//! Random numbers, bit writer, byte sources with faults.
use std::io;

/// Numbers to try first: the driver passes the literals that the code under test did not have when the
/// search was written. Every other case draws from them now and then.
pub static HINTS: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
pub static WORDS: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
thread_local! { pub static HINTED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15); r.next(); r.next(); r }
    /// Now and then a hint, or a number next to one.
    pub fn hint(&mut self) -> Option<i64> {
        if !HINTED.with(|h| h.get()) { return None }
        let hs = HINTS.get()?;
        if hs.is_empty() || self.next() % 10 != 0 { return None }
        let v = hs[(self.next() % hs.len() as u64) as usize] as i64;
        let v = match self.next() % 8 { 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), 2 => v.wrapping_mul(2), 3 => v / 2, _ => v };
        Some(v)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n.
    pub fn word(&mut self) -> Option<Vec<u8>> {
        if !HINTED.with(|h| h.get()) { return None }
        let ws = WORDS.get()?;
        if ws.is_empty() || self.next() % 6 != 0 { return None }
        Some(ws[(self.next() % ws.len() as u64) as usize].clone())
    }
    fn raw(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 } }
    pub fn below(&mut self, n: u64) -> u64 {
        if let Some(v) = self.hint() { if v >= 0 && (v as u64) < n { return v as u64 } }
        self.raw(n)
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        if let Some(v) = self.hint() {
            if v >= lo && v <= hi { return v }
            if v.wrapping_neg() >= lo && v.wrapping_neg() <= hi { return v.wrapping_neg() }
        }
        lo + self.raw((hi - lo + 1) as u64) as i64
    }
    /// A number of the given width.
    pub fn bits(&mut self, n: u32) -> u64 {
        let m = if n >= 64 { u64::MAX } else { (1 << n) - 1 };
        if let Some(v) = self.hint() { if v as u64 <= m { return v as u64 } }
        self.next() & m
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize { self.range(lo as i64, hi as i64) as usize }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.raw(den) < num }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T { xs[self.raw(xs.len() as u64) as usize] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.bits(8) as u8).collect() }
    /// Boundary-heavy signed value of the given width.
    pub fn signed(&mut self, bits: u32) -> i64 {
        let lo = -(1i64 << (bits - 1));
        let hi = (1i64 << (bits - 1)) - 1;
        match self.raw(10) {
            0 => lo,
            1 => hi,
            2 => 0,
            3 => -1,
            4 => lo + self.below(4).min((hi - lo) as u64) as i64,
            5 => hi - self.below(4).min((hi - lo) as u64) as i64,
            6 | 7 => self.range(-9, 9).max(lo).min(hi),
            _ => self.range(lo, hi),
        }
    }
}

#[derive(Clone, Default)]
pub struct BitW { pub bytes: Vec<u8>, pub n: usize }
impl BitW {
    pub fn new() -> BitW { BitW::default() }
    pub fn bit(&mut self, b: bool) {
        if self.n % 8 == 0 { self.bytes.push(0) }
        if b { let l = self.bytes.len() - 1; self.bytes[l] |= 0x80 >> (self.n % 8) }
        self.n += 1;
    }
    pub fn put(&mut self, v: u64, bits: u32) {
        for i in (0..bits).rev() { self.bit(i < 64 && (v >> i) & 1 == 1) }
    }
    pub fn signed(&mut self, v: i64, bits: u32) { self.put(v as u64, bits) }
    pub fn unary(&mut self, q: u64) { for _ in 0..q { self.bit(false) } self.bit(true) }
    pub fn align(&mut self) { while self.n % 8 != 0 { self.bit(false) } }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(6000) { s.push_str(&format!("{:02x}", x)) }
    if b.len() > 6000 { s.push_str(&format!("..({} bytes)", b.len())) }
    s
}

/// How the source delivers its bytes.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunk { All, One, Fixed(usize), Random(u64), NearBuf(u64) }

/// A source of bytes with controlled chunking, failures and lies.
#[derive(Clone)]
pub struct Src {
    pub data: Vec<u8>,
    pub pos: usize,
    pub chunk: Chunk,
    /// (position, kind): before delivering the byte at position, fail once.
    pub faults: Vec<(usize, io::ErrorKind)>,
    pub next_fault: usize,
    /// The read call (counted) that reports more bytes than there was room for.
    pub lie_at: Option<usize>,
    pub calls: usize,
    pub rng: Rng2,
    pub delivered: usize,
}
#[derive(Clone)]
pub struct Rng2(pub u64);

impl Src {
    pub fn new(data: Vec<u8>, chunk: Chunk) -> Src {
        let s = match chunk { Chunk::Random(s) | Chunk::NearBuf(s) => s, _ => 1 };
        Src { data, pos: 0, chunk, faults: vec![], next_fault: 0, lie_at: None, calls: 0, rng: Rng2(s), delivered: 0 }
    }
    pub fn pick_chunk(r: &mut Rng) -> Chunk {
        match r.below(6) {
            0 => Chunk::One,
            1 => Chunk::Fixed(r.us(2, 9)),
            2 => Chunk::Random(r.next()),
            3 => Chunk::NearBuf(r.next()),
            4 => Chunk::Fixed(r.pick(&[2047, 2048, 1024, 4096, 3])),
            _ => Chunk::All,
        }
    }
}

pub const FAULT_MSG: &str = "vx-injected";

impl io::Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.lie_at == Some(self.calls) {
            let n = buf.len();
            return Ok(n + 1 + (self.calls % 3) * 1000);
        }
        let mut lim = self.data.len() - self.pos;
        if self.next_fault < self.faults.len() {
            let (p, k) = self.faults[self.next_fault];
            if p <= self.pos {
                self.next_fault += 1;
                return Err(io::Error::new(k, FAULT_MSG));
            }
            lim = lim.min(p - self.pos);
        }
        let mut n = lim.min(buf.len());
        if n > 0 {
            let want = match self.chunk {
                Chunk::All => n,
                Chunk::One => 1,
                Chunk::Fixed(k) => k,
                Chunk::Random(_) => { let mut r = Rng(self.rng.0); let v = r.us(1, n); self.rng.0 = r.0; v }
                Chunk::NearBuf(_) => { let mut r = Rng(self.rng.0); let v = buf.len().saturating_sub(r.us(0, 3)).max(1); self.rng.0 = r.0; v }
            };
            n = n.min(want.max(1));
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.delivered += n;
        Ok(n)
    }
}
