//! Generators: an encoder that writes FLAC structures with randomly chosen codings.
use crate::oracle as o;
use crate::util::*;

pub fn unzigzag(v: i64) -> u64 { if v < 0 { (-2 * v - 1) as u64 } else { (2 * v) as u64 } }

/// How residuals are to be coded.
#[derive(Clone, Copy, Debug, Default)]
pub struct RiceOpt { pub method: Option<u32>, pub order: Option<u32>, pub k: Option<u32> }

pub fn valid_orders(bs: usize, warm: usize) -> Vec<u32> {
    (0..16u32).filter(|&p| bs % (1 << p) == 0 && (bs >> p) >= warm).collect()
}

/// Writes the residual of a block, given the values. False if there is no valid coding.
pub fn put_residual(r: &mut Rng, w: &mut BitW, bs: usize, warm: usize, vals: &[i64], opt: RiceOpt) -> bool {
    assert_eq!(vals.len(), bs - warm);
    let us: Vec<u64> = vals.iter().map(|&v| unzigzag(v)).collect();
    let orders = valid_orders(bs, warm);
    if orders.is_empty() { return false }
    let order = match opt.order { Some(p) if orders.contains(&p) => p, _ => r.pick(&orders) };
    let need = |s: &[u64]| -> u32 {
        let m = s.iter().cloned().max().unwrap_or(0);
        let lim = if s.len() > 4000 { 6 } else { 90 };
        let mut k = 0;
        while (m >> k) > lim { k += 1 }
        k
    };
    let per = bs >> order;
    let mut parts = vec![];
    let mut at = 0;
    for i in 0..1usize << order {
        let n = if i == 0 { per - warm } else { per };
        parts.push(&us[at..at + n]);
        at += n;
    }
    let worst = parts.iter().map(|p| need(p)).max().unwrap();
    let method = match opt.method { Some(0) if worst <= 14 => 0, Some(0) => 1, Some(m) => m, None => if worst > 14 { 1 } else { r.below(3) as u32 / 2 } };
    w.put(method as u64, 2);
    w.put(order as u64, 4);
    let kmax = if method == 0 { 14 } else { 30 };
    for p in parts {
        let lo = need(p);
        let k = match opt.k { Some(k) if k >= lo && k <= kmax => k, _ => match r.below(4) { 0 => lo, 1 => kmax.min(lo + r.below(3) as u32), _ => r.range(lo as i64, kmax as i64) as u32 } };
        w.put(k as u64, if method == 0 { 4 } else { 5 });
        for &u in p {
            w.unary(u >> k);
            w.put(u & ((1u64 << k) - 1), k);
        }
    }
    true
}

pub fn residuals(r: &mut Rng, n: usize) -> Vec<i64> {
    let scale = match r.below(4) { 0 => 32, 1 => r.us(1, 32), _ => r.us(1, 12) } as u32;
    let outlier = r.chance(1, 4);
    (0..n).map(|_| if outlier && r.chance(1, 16) { r.signed((scale + 6).min(32)) } else { r.signed(scale) }).collect()
}

pub fn sf_head(w: &mut BitW, ty: u64, wasted: u32) {
    w.put(0, 1);
    w.put(ty, 6);
    if wasted == 0 { w.put(0, 1) } else { w.put(1, 1); w.unary(wasted as u64 - 1) }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct SfOpt { pub ty: Option<u64>, pub wasted: Option<u32>, pub rice: RiceOpt, pub prec: Option<u32>, pub shift: Option<u32> }

/// Writes a random valid subframe.
pub fn put_subframe(r: &mut Rng, w: &mut BitW, bps: u32, bs: usize, opt: SfOpt) {
    let wasted = match opt.wasted { Some(k) if k < bps => k, _ => if r.chance(1, 6) { r.below((bps as u64).min(32)) as u32 } else { 0 } };
    let n = bps - wasted;
    let mut ty = match opt.ty { Some(t) => t, None => match r.below(8) { 0 => 0, 1 => 1, 2..=4 => r.range(8, 12) as u64, _ => if r.chance(2, 3) { r.range(32, 43) as u64 } else { r.range(32, 63) as u64 } } };
    let ord = |t: u64| if t < 2 { 0 } else if t < 32 { t as usize - 8 } else { t as usize - 31 };
    if ord(ty) > bs || (ty >= 8 && valid_orders(bs, ord(ty)).is_empty()) { ty = if bs < 4 && r.chance(1, 2) { 8 } else { 1 } }
    sf_head(w, ty, wasted);
    match ty {
        0 => w.signed(r.signed(n), n),
        1 => for _ in 0..bs { w.signed(r.signed(n), n) },
        _ => {
            let order = ord(ty);
            for _ in 0..order { w.signed(r.signed(n), n) }
            if ty >= 32 {
                let prec = opt.prec.unwrap_or(1 + r.below(15) as u32);
                w.put(prec as u64 - 1, 4);
                w.put(opt.shift.unwrap_or(r.below(16) as u32) as u64, 5);
                for _ in 0..order { w.signed(r.signed(prec), prec) }
            }
            let v = residuals(r, bs - order);
            put_residual(r, w, bs, order, &v, opt.rice);
        }
    }
}

pub fn signal(r: &mut Rng, bits: u32, n: usize) -> Vec<i64> {
    let lo = -(1i64 << (bits - 1));
    let hi = (1i64 << (bits - 1)) - 1;
    match r.below(4) {
        0 => (0..n).map(|_| r.signed(bits)).collect(),
        1 => (0..n).map(|_| if r.chance(1, 2) { lo } else { hi }).collect(),
        2 => { let mut x = r.signed(bits); (0..n).map(|_| { x = (x + r.range(-20, 20)).max(lo).min(hi); x }).collect() }
        _ => { let a = (hi as f64) * (r.below(1000) as f64 / 1000.0); let f = r.below(1000) as f64 / 3000.0; (0..n).map(|i| ((i as f64 * f).sin() * a) as i64).collect() }
    }
}

/// Encodes a signal with the fixed predictor.
pub fn put_fixed(r: &mut Rng, w: &mut BitW, bps: u32, order: usize, x: &[i64], rice: RiceOpt) -> bool {
    sf_head(w, 8 + order as u64, 0);
    for i in 0..order { w.signed(x[i], bps) }
    // differencing, order times
    let mut d: Vec<i128> = x.iter().map(|&v| v as i128).collect();
    for _ in 0..order { d = d.windows(2).map(|p| p[1] - p[0]).collect() }
    let v: Vec<i64> = d.iter().map(|&v| o::wrap(v) as i64).collect();
    put_residual(r, w, x.len(), order, &v, rice)
}

/// Encodes a signal with a linear predictor; coefficients newest sample first.
pub fn put_lpc(r: &mut Rng, w: &mut BitW, bps: u32, coef: &[i64], prec: u32, shift: u32, x: &[i64], rice: RiceOpt) -> bool {
    let order = coef.len();
    sf_head(w, 31 + order as u64, 0);
    for i in 0..order { w.signed(x[i], bps) }
    w.put(prec as u64 - 1, 4);
    w.put(shift as u64, 5);
    for &c in coef { w.signed(c, prec) }
    let mut v = vec![];
    for i in order..x.len() {
        let mut s: i128 = 0;
        for j in 0..order { s += coef[j] as i128 * x[i - 1 - j] as i128 }
        v.push(o::wrap(x[i] as i128 - s.div_euclid(1i128 << shift)) as i64);
    }
    put_residual(r, w, x.len(), order, &v, rice)
}

#[derive(Clone, Debug)]
pub struct Head { pub variable: bool, pub bsc: u64, pub bs: usize, pub src: u64, pub rate: u64, pub chan: u64, pub bpc: u64, pub number: u64, pub nlen: usize }

pub const BPS: [u32; 8] = [0, 8, 12, 0, 16, 20, 24, 0];

pub fn coded(v: u64, len: usize) -> Vec<u8> {
    if len == 1 { return vec![v as u8] }
    let mut out = vec![];
    let lead = (0xff00u32 >> len) as u8;
    let first_bits = if len >= 7 { 0 } else { (v >> (6 * (len - 1))) as u8 };
    out.push(lead | first_bits);
    for i in (0..len - 1).rev() { out.push(0x80 | ((v >> (6 * i)) & 0x3f) as u8) }
    out
}
pub fn coded_bits(len: usize) -> u32 { [0, 7, 11, 16, 21, 26, 31, 36][len] }
pub fn coded_min(v: u64) -> usize { (1..=7).find(|&l| v >> coded_bits(l) == 0).unwrap_or(7) }

pub fn head_bs(r: &mut Rng, bs: usize) -> u64 {
    let mut c = vec![];
    if bs <= 256 { c.push(6) }
    c.push(7);
    let t = [(192, 1), (576, 2), (1152, 3), (2304, 4), (4608, 5), (256, 8), (512, 9), (1024, 10), (2048, 11), (4096, 12), (8192, 13), (16384, 14), (32768, 15)];
    for (b, k) in t { if b == bs { c.push(k); c.push(k) } }
    r.pick(&c)
}

pub fn put_head(h: &Head) -> Vec<u8> {
    let mut w = BitW::new();
    w.put(0x3ffe, 14);
    w.put(0, 1);
    w.put(h.variable as u64, 1);
    w.put(h.bsc, 4);
    w.put(h.src, 4);
    w.put(h.chan, 4);
    w.put(h.bpc, 3);
    w.put(0, 1);
    for b in coded(h.number, h.nlen) { w.put(b as u64, 8) }
    if h.bsc == 6 { w.put(h.bs as u64 - 1, 8) }
    if h.bsc == 7 { w.put(h.bs as u64 - 1, 16) }
    if h.src == 12 { w.put(h.rate, 8) }
    if h.src == 13 || h.src == 14 { w.put(h.rate, 16) }
    let mut b = w.bytes;
    b.push(o::crc8(&b));
    b
}

pub fn number(r: &mut Rng, variable: bool) -> (u64, usize) {
    let maxlen = if variable { 7 } else { 6 };
    let len = r.us(1, maxlen);
    let bits = coded_bits(len);
    let v = match r.below(4) {
        0 => (1u64 << bits) - 1,
        1 if len > 1 => 1u64 << coded_bits(len - 1),
        _ => r.bits(bits),
    };
    // overlong forms are accepted by the decoder; keep mostly minimal ones
    let m = coded_min(v);
    (v, if r.chance(1, 8) { len.max(m) } else { m })
}

pub fn block_size(r: &mut Rng) -> usize {
    if let Some(v) = r.hint() { if v >= 1 && v <= 65535 { return v as usize } }
    match r.below(12) {
        0 => r.us(1, 4),
        1 => r.pick(&[192, 256, 576, 512]),
        2 => r.us(1, 40) * 16,
        3 => 1 << r.us(0, 9),
        4 => r.us(250, 260),
        5 => r.us(12, 14),
        _ => r.us(1, 72),
    }
}

pub fn rand_head(r: &mut Rng, bs: usize) -> Head {
    let variable = r.chance(1, 2);
    let (number, nlen) = number(r, variable);
    let bsc = head_bs(r, bs);
    let src = r.below(15);
    let chan = match r.below(4) { 0 => r.below(8), 1 => r.below(2), _ => r.range(8, 10) as u64 };
    Head { variable, bsc, bs, src, rate: r.bits(if src == 12 { 8 } else { 16 }), chan, bpc: r.pick(&[1, 2, 4, 4, 5, 6]), number, nlen }
}

pub fn side_extra(chan: u64, i: usize) -> u32 { match (chan, i) { (8, 1) | (9, 0) | (10, 1) => 1, _ => 0 } }

/// A frame with the given header and one subframe writer per channel.
pub fn build(h: &Head, sub: &mut dyn FnMut(&mut BitW, u32, usize)) -> Vec<u8> {
    let mut w = BitW::new();
    for b in put_head(h) { w.put(b as u64, 8) }
    for i in 0..o::channels(h.chan) { sub(&mut w, BPS[h.bpc as usize] + side_extra(h.chan, i), i) }
    finish(w)
}
pub fn finish(mut w: BitW) -> Vec<u8> {
    w.align();
    let mut b = w.bytes;
    let c = o::crc16(&b);
    b.push((c >> 8) as u8);
    b.push(c as u8);
    b
}
/// Recomputes the CRC-16 of a frame.
pub fn fix16(b: &mut Vec<u8>) {
    let n = b.len() - 2;
    let c = o::crc16(&b[..n]);
    b[n] = (c >> 8) as u8;
    b[n + 1] = c as u8;
}

pub fn frame_h(r: &mut Rng, h: &Head) -> Vec<u8> {
    let mut r2 = Rng::new(r.next());
    let cheap = h.bs * o::channels(h.chan) > 3000;
    build(h, &mut |w, bps, _| {
        let mut opt = SfOpt::default();
        if cheap && r2.chance(2, 3) { opt.ty = Some(0) }
        let bs = h.bs;
        put_subframe(&mut r2, w, bps, bs, opt)
    })
}
pub fn frame(r: &mut Rng, bs: usize) -> Vec<u8> { let h = rand_head(r, bs); frame_h(r, &h) }

// ------------------------------------------------------------------ metadata
pub fn info_bytes(r: &mut Rng, valid: bool) -> Vec<u8> {
    let mut w = BitW::new();
    let edge16 = |r: &mut Rng| match r.below(5) { 0 => r.range(14, 18) as u64, 1 => r.range(65533, 65535) as u64, 2 => r.below(65536), 3 => 4096, _ => r.range(16, 300) as u64 };
    let edge24 = |r: &mut Rng| match r.below(4) { 0 => r.below(3), 1 => (1 << 24) - 1 - r.below(3), _ => r.below(1 << 24) };
    let (mut a, mut b) = (edge16(r), edge16(r));
    let (mut c, mut d) = (edge24(r), edge24(r));
    let mut rate = match r.below(6) { 0 => r.below(3), 1 => 655350 + r.below(3), 2 => (1 << 20) - 1, 3 => 44100, _ => r.below(1 << 20) };
    if valid {
        a = a.max(16);
        b = b.max(16);
        if a > b { std::mem::swap(&mut a, &mut b) }
        if c > d && d != 0 { std::mem::swap(&mut c, &mut d) }
        rate = rate.max(1).min(655350);
    }
    w.put(a, 16);
    w.put(b, 16);
    w.put(c, 24);
    w.put(d, 24);
    w.put(rate, 20);
    w.put(r.below(8), 3);
    w.put(r.below(32), 5);
    let n = match r.below(5) { 0 => 0, 1 => (1u64 << 36) - 1, 2 => 1u64 << 32, 3 => 1u64 << r.below(36), _ => r.below(1 << 36) };
    w.put(n, 36);
    for _ in 0..16 { w.put(r.bits(8), 8) }
    w.bytes
}

pub fn block(ty: u8, last: bool, body: &[u8]) -> Vec<u8> {
    let n = body.len();
    let mut v = vec![ty | if last { 0x80 } else { 0 }, (n >> 16) as u8, (n >> 8) as u8, n as u8];
    v.extend_from_slice(body);
    v
}

/// A length that the hints suggest.
pub fn hint_len(r: &mut Rng) -> Option<usize> { r.hint().and_then(|v| if v >= 0 && v < 5000 { Some(v as usize) } else { None }) }

pub fn comment(r: &mut Rng) -> Vec<u8> {
    let mut c: Vec<u8> = vec![];
    if let Some(w) = r.word() { if let Ok(s) = String::from_utf8(w) { c = s.into_bytes(); if let Some(k) = c.iter().position(|b| *b == b'=') { c.truncate(k) } if c.iter().all(|b| *b >= 0x20 && *b <= 0x7d) { c.push(b'='); c.extend_from_slice(b"v"); return c } c.clear() } }
    let n = match r.below(5) { 0 => 0, 1 => 1, _ => if r.chance(1, 40) { r.us(10, 300) } else { hint_len(r).unwrap_or_else(|| r.us(1, 9)) } };
    for _ in 0..n {
        let mut b = match r.below(4) { 0 => r.pick(&[0x20u8, 0x7d, 0x5a, 0x41, 0x7a, 0x61, 0x5b, 0x40]), _ => r.range(0x20, 0x7d) as u8 };
        if b == b'=' { b = b'A' }
        c.push(b)
    }
    c.push(b'=');
    let m = if r.chance(1, 60) { r.us(13, 700) } else { hint_len(r).unwrap_or_else(|| r.us(0, 12)) };
    for _ in 0..m {
        if let Some(w) = r.word() { if std::str::from_utf8(&w).is_ok() { c.extend_from_slice(&w) } }
        match r.below(6) {
            0 => c.extend_from_slice("é".as_bytes()),
            1 => c.extend_from_slice("漢".as_bytes()),
            2 => c.push(b'='),
            3 => c.push(r.below(0x80) as u8),
            _ => c.push(r.range(0x20, 0x7e) as u8),
        }
    }
    c
}

pub fn vorbis_raw(vendor: &[u8], comments: &[Vec<u8>], count: u32) -> Vec<u8> {
    let mut v = (vendor.len() as u32).to_le_bytes().to_vec();
    v.extend_from_slice(vendor);
    v.extend_from_slice(&count.to_le_bytes());
    for c in comments {
        v.extend_from_slice(&(c.len() as u32).to_le_bytes());
        v.extend_from_slice(c);
    }
    v
}

pub fn vorbis_body(r: &mut Rng) -> Vec<u8> {
    let vendor: Vec<u8> = if let Some(w) = r.word().filter(|w| std::str::from_utf8(w).is_ok()) { w } else if r.chance(1, 3) { vec![] } else { let n = if r.chance(1, 60) { r.us(31, 2000) } else { hint_len(r).unwrap_or_else(|| r.us(1, 30)) }; (0..n).map(|_| r.range(0x20, 0x7e) as u8).collect() };
    let n = if r.chance(1, 100) { r.us(7, 80) } else { r.us(0, 6) };
    let cs: Vec<Vec<u8>> = (0..n).map(|_| if r.chance(1, 6) { vec![] } else { comment(r) }).collect();
    vorbis_raw(&vendor, &cs, n as u32)
}

/// A random metadata block that is not a streaminfo block.
pub fn other_block(r: &mut Rng, last: bool, vc: bool) -> Vec<u8> {
    let ty = r.pick(&[1u8, 2, 3, 5, 6, 7, 100, 126, 1, 2]);
    if vc { return block(4, last, &vorbis_body(r)) }
    let n = match r.below(5) { 0 => 0, 1 => r.us(2040, 2060), 2 => r.us(4, 4), _ => r.us(0, 60) };
    let n = match hint_len(r) { Some(v) => v + if r.chance(1, 2) { 4 } else { 0 }, None => n };
    let n = if ty == 2 { n.max(4) } else { n };
    block(ty, last, &r.bytes(n))
}

/// Marker and metadata blocks of a stream that opens.
pub fn stream_head(r: &mut Rng, with_vc: bool) -> Vec<u8> {
    let mut v = b"fLaC".to_vec();
    let k = r.us(0, 3);
    let mut vc_at = if with_vc { Some(r.us(0, k)) } else { None };
    let total = k + with_vc as usize;
    v.extend_from_slice(&block(0, total == 0, &info_bytes(r, true)));
    for i in 0..total {
        let is_vc = vc_at == Some(i);
        if is_vc { vc_at = None }
        v.extend_from_slice(&other_block(r, i + 1 == total, is_vc));
    }
    v
}
