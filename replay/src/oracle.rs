//! An independent, deliberately plain decoder of the FLAC format, written from the format
//! description. It works on bit positions and wide integers only.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum E { Eof, Fmt, Uns, /// a number that no longer fits the decoder's integers
    Big }
pub type R<T> = Result<T, E>;

#[derive(Clone)]
pub struct Bits<'a> { pub d: &'a [u8], pub p: usize }
impl<'a> Bits<'a> {
    pub fn new(d: &'a [u8]) -> Bits<'a> { Bits { d, p: 0 } }
    pub fn at_bit(d: &'a [u8], p: usize) -> Bits<'a> { Bits { d, p } }
    pub fn bit(&mut self) -> R<u64> {
        if self.p / 8 >= self.d.len() { return Err(E::Eof) }
        let b = (self.d[self.p / 8] >> (7 - self.p % 8)) & 1;
        self.p += 1;
        Ok(b as u64)
    }
    pub fn get(&mut self, n: u32) -> R<u64> {
        let mut v = 0;
        for _ in 0..n { v = v * 2 + self.bit()? }
        Ok(v)
    }
    pub fn unary(&mut self) -> R<u64> {
        let mut n = 0;
        while self.bit()? == 0 { n += 1 }
        Ok(n)
    }
    pub fn signed(&mut self, n: u32) -> R<i64> {
        let v = self.get(n)? as i64;
        Ok(if v >= 1i64 << (n - 1) { v - (1i64 << n) } else { v })
    }
    pub fn align(&mut self) { self.p = (self.p + 7) / 8 * 8 }
}

pub fn crc(width: u32, poly: u32, d: &[u8]) -> u32 {
    let top = 1u32 << (width - 1);
    let mask = ((1u64 << width) - 1) as u32;
    let mut s = 0u32;
    for &b in d {
        for i in (0..8).rev() {
            let inb = (b >> i) as u32 & 1;
            let outb = ((s & top) != 0) as u32;
            s = (s << 1) & mask;
            if inb ^ outb == 1 { s ^= poly }
        }
    }
    s
}
pub fn crc8(d: &[u8]) -> u8 { crc(8, 0x07, d) as u8 }
pub fn crc16(d: &[u8]) -> u16 { crc(16, 0x8005, d) as u16 }

pub fn wrap(x: i128) -> i32 {
    let m = x.rem_euclid(1 << 32);
    (if m >= 1 << 31 { m - (1 << 32) } else { m }) as i32
}

fn zigzag(u: i128) -> i128 { if u % 2 == 1 { -(u + 1) / 2 } else { u / 2 } }

fn partition(b: &mut Bits, plen: u32, esc: u64, n: usize, out: &mut Vec<i32>) -> R<()> {
    let k = b.get(plen)?;
    if k == esc { return Err(E::Uns) }
    for _ in 0..n {
        let q = b.unary()? as i128;
        let r = b.get(k as u32)? as i128;
        let v = (q * (1i128 << k) + r).rem_euclid(1 << 32);
        out.push(zigzag(v) as i32);
    }
    Ok(())
}

fn residual(b: &mut Bits, bs: usize, warm: usize, out: &mut Vec<i32>) -> R<()> {
    let method = b.get(2)?;
    if method > 1 { return Err(E::Fmt) }
    let order = b.get(4)?;
    let parts = 1usize << order;
    if bs % parts != 0 { return Err(E::Fmt) }
    let per = bs / parts;
    if warm > per { return Err(E::Fmt) }
    for i in 0..parts {
        let n = if i == 0 { per - warm } else { per };
        if method == 0 { partition(b, 4, 15, n, out)? } else { partition(b, 5, 31, n, out)? }
    }
    Ok(())
}

#[derive(Clone, Debug)]
pub struct SfInfo { pub kind: u64, pub wasted: u64, pub param_kind: u64 }

/// Decodes one subframe of bs samples.
pub fn subframe(b: &mut Bits, bps: u32, bs: usize) -> R<Vec<i32>> {
    if b.bit()? != 0 { return Err(E::Fmt) }
    let ty = b.get(6)?;
    if !(ty == 0 || ty == 1 || (8..=12).contains(&ty) || ty >= 32) { return Err(E::Fmt) }
    let mut wasted = 0u64;
    if b.bit()? == 1 {
        wasted = b.unary()? + 1;
        if wasted > 31 { return Err(E::Fmt) }
    }
    if wasted >= bps as u64 { return Err(E::Fmt) }
    let w = bps - wasted as u32;
    let mut out: Vec<i32> = Vec::with_capacity(bs);
    if ty == 0 {
        let v = b.signed(w)? as i32;
        out = vec![v; bs];
    } else if ty == 1 {
        for _ in 0..bs { out.push(b.signed(w)? as i32) }
    } else if ty < 32 {
        let order = (ty - 8) as usize;
        if bs < order { return Err(E::Fmt) }
        for _ in 0..order { out.push(b.signed(w)? as i32) }
        residual(b, bs, order, &mut out)?;
        for i in order..bs {
            let x = |k: usize| out[i - k] as i128;
            let p: i128 = match order {
                0 => 0,
                1 => x(1),
                2 => 2 * x(1) - x(2),
                3 => 3 * x(1) - 3 * x(2) + x(3),
                _ => 4 * x(1) - 6 * x(2) + 4 * x(3) - x(4),
            };
            out[i] = wrap(out[i] as i128 + p);
        }
    } else {
        let order = (ty - 31) as usize;
        if bs < order { return Err(E::Fmt) }
        for _ in 0..order { out.push(b.signed(w)? as i32) }
        let prec = b.get(4)? as u32 + 1;
        if prec == 16 { return Err(E::Fmt) }
        let shift = b.signed(5)?;
        if shift < 0 { return Err(E::Uns) }
        let mut coef = vec![];
        for _ in 0..order { coef.push(b.signed(prec)?) }
        residual(b, bs, order, &mut out)?;
        for i in order..bs {
            let mut s: i128 = 0;
            for j in 0..order { s += coef[j] as i128 * out[i - 1 - j] as i128 }
            out[i] = wrap(out[i] as i128 + s.div_euclid(1 << shift));
        }
    }
    for v in out.iter_mut() { *v = wrap((*v as i128) << wasted) }
    Ok(out)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Header { pub variable: bool, pub bs: usize, pub rate: Option<u32>, pub chan: u64, pub bps: Option<u32>, pub number: u64 }

pub fn coded_number(b: &mut Bits) -> R<u64> {
    let first = b.get(8)?;
    let ones = (0..8).take_while(|i| (first >> (7 - i)) & 1 == 1).count();
    if ones == 1 || ones == 8 { return Err(E::Fmt) }
    if ones == 0 { return Ok(first) }
    let mut v = first & ((1u64 << (7 - ones)) - 1);
    for _ in 0..ones - 1 {
        let c = b.get(8)?;
        if c >> 6 != 0b10 { return Err(E::Fmt) }
        v = v * 64 + (c & 63);
    }
    Ok(v)
}

/// Parses a frame header; None at a clean end.
pub fn header(d: &[u8]) -> R<Option<(Header, usize)>> {
    if d.is_empty() { return Ok(None) }
    let mut b = Bits::new(d);
    let sync = b.get(16)?;
    if sync >> 2 != 0x3ffe { return Err(E::Fmt) }
    if sync & 2 != 0 { return Err(E::Fmt) }
    let variable = sync & 1 == 1;
    let x = b.get(8)?;
    let (bsc, src) = (x >> 4, x & 15);
    if bsc == 0 || src == 15 { return Err(E::Fmt) }
    let y = b.get(8)?;
    let (chan, bpc) = (y >> 4, (y >> 1) & 7);
    if chan > 10 || bpc == 3 || bpc == 7 || y & 1 == 1 { return Err(E::Fmt) }
    let number = coded_number(&mut b)?;
    if !variable && number >= 1 << 31 { return Err(E::Fmt) }
    let bs = match bsc {
        1 => 192,
        2 => 576,
        3 => 1152,
        4 => 2304,
        5 => 4608,
        6 => b.get(8)? as usize + 1,
        7 => { let v = b.get(16)? as usize + 1; if v > 65535 { return Err(E::Fmt) } v }
        _ => [256, 512, 1024, 2048, 4096, 8192, 16384, 32768][bsc as usize - 8],
    };
    let rate = match src {
        0 => None,
        12 => Some(b.get(8)? as u32),
        13 => Some(b.get(16)? as u32),
        14 => Some(b.get(16)? as u32 * 10),
        n => Some([88200, 176400, 192000, 8000, 16000, 22050, 24000, 32000, 44100, 48000, 96000][n as usize - 1]),
    };
    let bps = [None, Some(8), Some(12), None, Some(16), Some(20), Some(24)][bpc as usize];
    let n = b.p / 8;
    let c = b.get(8)? as u8;
    if c != crc8(&d[..n]) { return Err(E::Fmt) }
    Ok(Some((Header { variable, bs, rate, chan, bps, number }, n + 1)))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Frame { pub time: u64, pub bs: usize, pub ch: Vec<Vec<i32>>, pub len: usize }

pub fn channels(chan: u64) -> usize { if chan < 8 { chan as usize + 1 } else { 2 } }

/// Decodes the frame at the start of d.
pub fn frame(d: &[u8]) -> R<Option<Frame>> {
    let (h, n) = match header(d)? { None => return Ok(None), Some(x) => x };
    let bps = match h.bps { Some(b) => b, None => return Err(E::Uns) };
    let mut b = Bits::at_bit(d, n * 8);
    let nch = channels(h.chan);
    let mut ch = vec![];
    for i in 0..nch {
        let extra = match (h.chan, i) { (8, 1) | (9, 0) | (10, 1) => 1, _ => 0 };
        ch.push(subframe(&mut b, bps + extra, h.bs)?);
    }
    if h.chan >= 8 {
        for i in 0..h.bs {
            let (a, s) = (ch[0][i], ch[1][i]);
            let (l, r) = match h.chan {
                8 => (a, wrap(a as i128 - s as i128)),
                9 => (wrap(a as i128 + s as i128), s),
                _ => {
                    let m = wrap(2 * a as i128) | (s & 1);
                    (wrap(m as i128 + s as i128) / 2, wrap(m as i128 - s as i128) / 2)
                }
            };
            ch[0][i] = l;
            ch[1][i] = r;
        }
    }
    b.align();
    let end = b.p / 8;
    let c = b.get(16)? as u16;
    if c != crc16(&d[..end]) { return Err(E::Fmt) }
    let time = if h.variable { h.number } else { h.number * h.bs as u64 };
    Ok(Some(Frame { time, bs: h.bs, ch, len: end + 2 }))
}

// ------------------------------------------------------------------ metadata
#[derive(Clone, Debug, PartialEq)]
pub struct Info { pub min_bs: u16, pub max_bs: u16, pub min_fs: Option<u32>, pub max_fs: Option<u32>, pub rate: u32, pub ch: u32, pub bps: u32, pub n: Option<u64>, pub md5: [u8; 16] }

#[derive(Clone, Debug, PartialEq)]
pub enum Meta { Info(Info), Padding(u32), App(u32, Vec<u8>), Vorbis(String, Vec<(String, usize)>), Reserved }

pub const LIMIT: u32 = 10 * 1024 * 1024;

fn nz(x: u64) -> Option<u64> { if x == 0 { None } else { Some(x) } }

pub fn streaminfo(d: &[u8]) -> R<Info> {
    let mut b = Bits::new(d);
    let min_bs = b.get(16)?;
    let max_bs = b.get(16)?;
    let min_fs = b.get(24)?;
    let max_fs = b.get(24)?;
    let rate = b.get(20)?;
    let ch = b.get(3)? + 1;
    let bps = b.get(5)? + 1;
    let n = b.get(36)?;
    let mut md5 = [0; 16];
    for x in md5.iter_mut() { *x = b.get(8)? as u8 }
    if min_bs > max_bs || min_bs < 16 || (min_fs > max_fs && max_fs != 0) || rate == 0 || rate > 655350 { return Err(E::Fmt) }
    Ok(Info { min_bs: min_bs as u16, max_bs: max_bs as u16, min_fs: nz(min_fs).map(|x| x as u32), max_fs: nz(max_fs).map(|x| x as u32),
        rate: rate as u32, ch: ch as u32, bps: bps as u32, n: nz(n), md5 })
}

fn le32(d: &[u8], p: &mut usize) -> R<u32> {
    if d.len() < *p + 4 { return Err(E::Eof) }
    let v = d[*p] as u32 | (d[*p + 1] as u32) << 8 | (d[*p + 2] as u32) << 16 | (d[*p + 3] as u32) << 24;
    *p += 4;
    Ok(v)
}
fn take<'a>(d: &'a [u8], p: &mut usize, n: usize) -> R<&'a [u8]> {
    if d.len() - *p < n { return Err(E::Eof) }
    let s = &d[*p..*p + n];
    *p += n;
    Ok(s)
}

/// A Vorbis comment block of the given length at the start of d (which may be longer or shorter).
pub fn vorbis(d: &[u8], length: u32) -> R<(String, Vec<(String, usize)>)> {
    if length < 8 { return Err(E::Fmt) }
    if length > LIMIT { return Err(E::Uns) }
    let mut p = 0;
    let vlen = le32(d, &mut p)?;
    if vlen > length - 8 { return Err(E::Fmt) }
    let vendor = String::from_utf8(take(d, &mut p, vlen as usize)?.to_vec()).map_err(|_| E::Fmt)?;
    let count = le32(d, &mut p)?;
    if count >= length / 4 { return Err(E::Fmt) }
    let mut left = length - 8 - vlen;
    let mut out = vec![];
    let mut seen = 0;
    while left >= 4 && seen < count {
        let n = le32(d, &mut p)?;
        left -= 4;
        seen += 1;
        if n > left { return Err(E::Fmt) }
        if n == 0 { continue }
        let c = take(d, &mut p, n as usize)?;
        left -= n;
        let eq = c.iter().position(|&x| x == b'=').ok_or(E::Fmt)?;
        if c[..eq].iter().any(|&x| !(0x20..=0x7d).contains(&x)) { return Err(E::Fmt) }
        out.push((String::from_utf8(c.to_vec()).map_err(|_| E::Fmt)?, eq));
    }
    if left != 0 || seen != count { return Err(E::Fmt) }
    Ok((vendor, out))
}

/// The body of a block of the given type and length; the number of bytes consumed.
pub fn meta_body(d: &[u8], ty: u8, length: u32) -> R<(Meta, usize)> {
    let n = length as usize;
    let whole = |m: Meta| if d.len() < n { Err(E::Eof) } else { Ok((m, n)) };
    match ty {
        0 => if length != 34 { Err(E::Fmt) } else { Ok((Meta::Info(streaminfo(d)?), 34)) },
        1 | 3 | 5 | 6 => whole(Meta::Padding(length)),
        2 => {
            if length < 4 { return Err(E::Fmt) }
            if length > LIMIT { return Err(E::Uns) }
            if d.len() < n { return Err(E::Eof) }
            let id = u32::from_be_bytes([d[0], d[1], d[2], d[3]]);
            Ok((Meta::App(id, d[4..n].to_vec()), n))
        }
        4 => { let (v, c) = vorbis(d, length)?; Ok((Meta::Vorbis(v, c), n)) }
        127 => Err(E::Fmt),
        _ => whole(Meta::Reserved),
    }
}

/// Header and body: (block, last flag, bytes consumed).
pub fn meta_block(d: &[u8]) -> R<(Meta, bool, usize)> {
    if d.len() < 4 { return Err(E::Eof) }
    let (m, n) = meta_body(&d[4..], d[0] & 0x7f, u32::from_be_bytes([0, d[1], d[2], d[3]]))?;
    Ok((m, d[0] & 0x80 != 0, n + 4))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Opened { pub info: Info, pub vorbis: Option<(String, Vec<(String, usize)>)>, pub pos: usize }

pub fn open(d: &[u8], metadata_only: bool, read_vc: bool) -> R<Opened> {
    if d.len() < 4 { return Err(E::Eof) }
    if &d[..4] != b"fLaC" { return Err(E::Fmt) }
    let mut p = 4;
    let (m, mut last, n) = meta_block(&d[p..])?;
    p += n;
    let info = match m { Meta::Info(i) => i, _ => return Err(E::Fmt) };
    let mut vc = None;
    let mut want = read_vc;
    while !last && (!metadata_only || want) {
        let (m, l, n) = meta_block(&d[p..])?;
        p += n;
        last = l;
        match m {
            Meta::Info(_) => return Err(E::Fmt),
            Meta::Vorbis(v, c) => { if vc.is_some() { return Err(E::Fmt) } vc = Some((v, c)); want = false; }
            _ => {}
        }
    }
    Ok(Opened { info, vorbis: if read_vc { vc } else { None }, pos: p })
}
