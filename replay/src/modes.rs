//! One search per property: generate a case, run the real code, compare with the oracle.
use crate::gen;
use crate::gen::*;
use crate::oracle as o;
use crate::oracle::E;
use crate::util::*;
use claxon::frame::FrameReader;
use claxon::input::{Bitstream, BufferedReader, ReadBytes};
use claxon::metadata::{MetadataBlock, MetadataBlockReader};
use claxon::{Block, Error, FlacReader, FlacReaderOptions};
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Fail { pub input: String, pub expected: String, pub actual: String }
pub type Res = Result<bool, Fail>;

fn short<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{:?}", x);
    if s.len() > 3000 { let mut n = 3000; while !s.is_char_boundary(n) { n -= 1 } format!("{}...", &s[..n]) } else { s }
}
fn fail<A: std::fmt::Debug, B: std::fmt::Debug>(input: String, e: &A, a: &B) -> Res {
    Err(Fail { input, expected: short(e), actual: short(a) })
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panicked: {}", m)
    })
}

/// Outcome of a call of the real code in the oracle's terms.
#[derive(Debug, Clone, PartialEq)]
pub enum Out<T> { Ok(T), Io(io::ErrorKind, String), Fmt, Uns, Panic(String) }
fn out<T>(x: Result<Result<T, Error>, String>) -> Out<T> {
    match x {
        Err(p) => Out::Panic(p),
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(Error::IoError(e))) => Out::Io(e.kind(), e.to_string()),
        Ok(Err(Error::FormatError(_))) => Out::Fmt,
        Ok(Err(Error::Unsupported(_))) => Out::Uns,
    }
}
fn agree<T: PartialEq>(e: &o::R<T>, a: &Out<T>, strict: bool) -> bool {
    match (e, a) {
        (Ok(x), Out::Ok(y)) => x == y,
        (_, Out::Panic(_)) => false,
        (Ok(_), _) | (_, Out::Ok(_)) => false,
        (Err(_), _) if !strict => true,
        (Err(E::Eof), Out::Io(k, _)) => *k == io::ErrorKind::UnexpectedEof,
        (Err(E::Fmt), Out::Fmt) => true,
        (Err(E::Uns), Out::Uns) => true,
        (Err(E::Big), _) => true,
        _ => false,
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Fr { pub time: u64, pub bs: usize, pub ch: Vec<Vec<i32>> }
fn of_oracle(f: o::Frame) -> Fr { Fr { time: f.time, bs: f.bs, ch: f.ch } }
fn of_block(b: &Block) -> Fr {
    Fr { time: b.time(), bs: b.duration() as usize, ch: (0..b.channels()).map(|c| b.channel(c).to_vec()).collect() }
}
/// Decodes one frame with the real code.
fn real_frame(d: &[u8]) -> Out<Option<Fr>> {
    out(guard(|| FrameReader::new(io::Cursor::new(d)).read_next_or_eof(vec![]).map(|x| x.map(|b| of_block(&b)))))
}
fn oracle_frame(d: &[u8]) -> o::R<Option<Fr>> { o::frame(d).map(|x| x.map(of_oracle)) }
/// Compares one frame.
fn cmp_frame(d: &[u8], strict: bool) -> Res {
    let e = oracle_frame(d);
    let a = real_frame(d);
    if agree(&e, &a, strict) { Ok(e.is_ok()) } else { fail(format!("frame bytes {}", hex(d)), &e, &a) }
}
/// The frame that follows others on the same reader: what was decoded before must not matter.
fn real_frame_after(before: &[u8], n: usize, d: &[u8], blocks: bool) -> Out<Option<Fr>> {
    let mut all = before.to_vec();
    all.extend_from_slice(d);
    let last = |x: Result<Option<Block>, Error>| x.map(|y| y.map(|b| of_block(&b)));
    out(guard(|| {
        let mut buf = vec![];
        if blocks {
            let mut rd = claxon::input::BufferedReader::new(io::Cursor::new(&all));
            let mut fr = FrameReader::new(&mut rd);
            for _ in 0..n { buf = fr.read_next_or_eof(buf)?.map_or(vec![], |b| b.into_buffer()) }
            last(fr.read_next_or_eof(buf))
        } else {
            let mut fr = FrameReader::new(io::Cursor::new(&all));
            for _ in 0..n { buf = fr.read_next_or_eof(buf)?.map_or(vec![], |b| b.into_buffer()) }
            last(fr.read_next_or_eof(buf))
        }
    }))
}
/// Compares one frame, now and then as one of many.
fn cmp_frame_in(r: &mut Rng, d: &[u8], strict: bool) -> Res {
    if !r.chance(1, 4) { return cmp_frame(d, strict) }
    let mut before = vec![];
    let mut n = 0;
    if r.chance(1, 300) {
        let f = { let bs = r.us(1, 2); let mut h = rand_head(r, bs); h.chan = 0; build(&h, &mut |w, bps, _| { sf_head(w, 0, 0); w.signed(1, bps) }) };
        n = match r.hint() { Some(v) if v > 0 && v < 70000 => v as usize, _ => if r.chance(1, 40) { 65537 } else { r.us(4, 1030) } };
        for _ in 0..n { before.extend_from_slice(&f) }
    } else {
        for _ in 0..r.us(1, 3) {
            let bs = r.us(1, 20);
            let f = frame(r, bs);
            if matches!(o::frame(&f), Ok(Some(_))) { before.extend_from_slice(&f); n += 1 }
        }
    }
    let e = oracle_frame(d);
    let a = real_frame_after(&before, n, d, r.chance(1, 2));
    if agree(&e, &a, strict) { Ok(e.is_ok()) } else { fail(format!("frame bytes {}, decoded with the reader that has just decoded {} frames, {}", hex(d), n, if before.len() > 20000 { format!("all of them like {}", hex(&before[..before.len() / n])) } else { hex(&before) }), &e, &a) }
}
/// Decodes one subframe with the real code; the bits consumed are found with the bits that follow.
fn real_subframe(d: &[u8], bps: u32, bs: usize, fill: i32) -> Out<(Vec<i32>, u64)> {
    out(guard(|| {
        let mut buf = vec![fill; bs];
        let mut cur = io::Cursor::new(d);
        {
            let mut b = Bitstream::new(&mut cur);
            claxon::subframe::decode(&mut b, bps, &mut buf)?;
        }
        Ok((buf, cur.position()))
    }))
}
fn oracle_subframe(d: &[u8], bps: u32, bs: usize) -> o::R<(Vec<i32>, u64)> {
    let mut b = o::Bits::new(d);
    let v = o::subframe(&mut b, bps, bs)?;
    Ok((v, ((b.p + 7) / 8) as u64))
}
fn cmp_subframe(d: &[u8], bps: u32, bs: usize, fill: i32, strict: bool) -> Res {
    let e = oracle_subframe(d, bps, bs);
    let a = real_subframe(d, bps, bs, fill);
    if agree(&e, &a, strict) { Ok(e.is_ok()) } else { fail(format!("subframe::decode with {} bits per sample, block of {}, bytes {}", bps, bs, hex(d)), &e, &a) }
}

fn kind(r: &mut Rng) -> io::ErrorKind {
    r.pick(&[io::ErrorKind::Other, io::ErrorKind::TimedOut, io::ErrorKind::ConnectionReset, io::ErrorKind::Interrupted, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe, io::ErrorKind::InvalidData, io::ErrorKind::PermissionDenied])
}

// ------------------------------------------------------------------ C02, C03
#[derive(Clone, Copy, Debug)]
enum Op { U8, U8Eof, Into(usize), Skip(u32), Be16, Be16Eof, Be24, Be32, Le32 }
impl Op {
    fn need(&self) -> u64 { match *self { Op::U8 | Op::U8Eof => 1, Op::Into(n) => n as u64, Op::Skip(n) => n as u64, Op::Be16 | Op::Be16Eof => 2, Op::Be24 => 3, _ => 4 } }
}
#[derive(Debug, Clone, PartialEq)]
enum Val { Num(u64), None, Bytes(Vec<u8>), Unit }
fn run_op<R: ReadBytes>(r: &mut R, op: Op) -> io::Result<Val> {
    Ok(match op {
        Op::U8 => Val::Num(r.read_u8()? as u64),
        Op::U8Eof => match r.read_u8_or_eof()? { Some(x) => Val::Num(x as u64), None => Val::None },
        Op::Into(n) => { let mut b = vec![0xa5; n]; r.read_into(&mut b)?; Val::Bytes(b) }
        Op::Skip(n) => { r.skip(n)?; Val::Unit }
        Op::Be16 => Val::Num(r.read_be_u16()? as u64),
        Op::Be16Eof => match r.read_be_u16_or_eof()? { Some(x) => Val::Num(x as u64), None => Val::None },
        Op::Be24 => Val::Num(r.read_be_u24()? as u64),
        Op::Be32 => Val::Num(r.read_be_u32()? as u64),
        Op::Le32 => Val::Num(r.read_le_u32()? as u64),
    })
}
fn op_val(op: Op, d: &[u8]) -> Val {
    let be = |d: &[u8]| Val::Num(d.iter().fold(0, |a, &x| a * 256 + x as u64));
    match op {
        Op::Into(_) => Val::Bytes(d.to_vec()),
        Op::Skip(_) => Val::Unit,
        Op::Le32 => { let mut v = d.to_vec(); v.reverse(); be(&v) }
        _ => be(d),
    }
}
fn matches_val(op: Op, d: &[u8], v: &Val) -> bool {
    match (op, v) {
        (Op::Into(_), Val::Bytes(b)) => b[..] == *d,
        (Op::Skip(_), Val::Unit) => true,
        (Op::Into(_), _) | (Op::Skip(_), _) => false,
        (Op::Le32, Val::Num(x)) => d.iter().rev().fold(0, |a, &x| a * 256 + x as u64) == *x,
        (_, Val::Num(x)) => d.iter().fold(0, |a, &x| a * 256 + x as u64) == *x,
        _ => false,
    }
}
fn rand_op(r: &mut Rng, big: usize) -> Op {
    match r.below(12) {
        0..=2 => Op::U8,
        3 => Op::U8Eof,
        4 | 5 => Op::Into(match r.below(5) { 0 => 0, 1 => big, 2 => r.us(0, big), _ => r.us(1, 9) }),
        6 | 7 => Op::Skip(match r.below(5) { 0 => 0, 1 => big as u32, 2 => r.us(0, big) as u32, _ => r.us(1, 9) as u32 }),
        8 => Op::Be16,
        9 => Op::Be16Eof,
        10 => Op::Be24,
        _ => if r.chance(1, 2) { Op::Be32 } else { Op::Le32 },
    }
}

/// A source of `len` bytes, of which only those near `watch` have a value of their own.
struct Long { len: u64, pos: u64, watch: u64, cap: usize }
fn long_byte(p: u64) -> u8 { (p.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 56) as u8 }
impl io::Read for Long {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = (self.len - self.pos).min(b.len() as u64).min(self.cap as u64) as usize;
        if self.pos + n as u64 + 4096 > self.watch && self.pos < self.watch + 4096 { for k in 0..n { b[k] = long_byte(self.pos + k as u64) } }
        self.pos += n as u64;
        Ok(n)
    }
}
fn c02_long(r: &mut Rng, i: u64) -> Res {
    let h = r.hint();
    let amount = match h { Some(v) if v > 0 && v <= u32::MAX as i64 => v as u32, _ => r.pick(&[u32::MAX, 1 << 31, (1 << 31) + 5, 1 << 28, (1 << 28) + 1, 1 << 24, (1 << 24) + 3, 1 << 26, 1 << 20, 100_000_000]) };
    let amount = if i == 0 { u32::MAX } else { amount };
    let pre = if r.chance(1, 2) { 0 } else { r.below(2049) };
    let fits = r.chance(3, 4);
    let len = if fits { pre + amount as u64 + r.below(4) } else { pre + amount as u64 - 1 - r.below(3).min(amount as u64 - 1) };
    let watch = if fits { pre + amount as u64 } else { len };
    let cap = if r.chance(1, 4) { r.us(1500, 2047) } else { usize::MAX };
    let input = format!("BufferedReader over a source of {} bytes (at most {} at once); skip({}), skip({}), then single bytes", len, cap, pre, amount);
    let a = guard(|| {
        let mut rd = BufferedReader::new(Long { len, pos: 0, watch, cap });
        let x = rd.skip(pre as u32).map_err(|e| e.kind());
        let y = rd.skip(amount).map_err(|e| e.kind());
        let mut v = vec![];
        if y.is_ok() { for _ in 0..5 { v.push(rd.read_u8_or_eof().ok().and_then(|x| x)) } }
        (x, y, v)
    });
    let e = if fits { (Ok(()), Ok(()), (0..5).map(|k| if watch + k < len { Some(long_byte(watch + k)) } else { None }).collect()) } else { (Ok(()), Err(io::ErrorKind::UnexpectedEof), vec![]) };
    if a.as_ref().ok() != Some(&e) { return fail(input, &e, &a) }
    Ok(true)
}

fn c02(r: &mut Rng, i: u64) -> Res {
    if i % 20000 < 2 { return c02_long(r, i) }
    let n = match r.below(4) { 0 => r.us(0, 12), 1 => r.us(2040, 2056), 2 => r.us(4090, 4110), _ => r.us(0, 7000) };
    let data = r.bytes(n);
    let mut src = Src::new(data.clone(), Src::pick_chunk(r));
    if r.chance(1, 2) {
        let k = r.us(1, 3);
        let mut ps: Vec<usize> = (0..k).map(|_| if r.chance(1, 3) { r.us(0, n.min(20)) } else if r.chance(1, 2) { (r.us(0, 3) * 2048).min(n) } else { r.us(0, n) }).collect();
        ps.sort();
        src.faults = ps.iter().map(|&p| (p, kind(r))).collect();
    }
    let faults = src.faults.clone();
    let lie = r.chance(1, 12);
    if lie { src.lie_at = Some(r.us(1, 6)) }
    let desc = format!("BufferedReader over a source of {} bytes, delivering {:?}, failing before {:?}, lying at {:?}", n, src.chunk, faults, src.lie_at);
    let by_ref = r.chance(1, 4);
    let mut rd = BufferedReader::new(src);
    let mut pos: Vec<usize> = vec![0];
    let mut nf = 0;
    let mut ops = vec![];
    let steps = r.us(1, 40);
    let big = r.pick(&[2047, 2048, 2049, 4096, 4097, 5000, 300]);
    let mut ended = 0;
    for _ in 0..steps {
        let op = if r.chance(1, 6) {
            // run up to a boundary of the buffer
            let p = pos[0];
            let b = (p / 2048 + 1) * 2048;
            let d = (b - p) as i64 + r.range(-2, 2);
            if r.chance(1, 2) { Op::Skip(d.max(0) as u32) } else { Op::Into(d.max(0) as usize) }
        } else { rand_op(r, big) };
        ops.push(op);
        let a = guard(|| if by_ref { let mut q = &mut rd; run_op(&mut q, op) } else { run_op(&mut rd, op) });
        let a = match a { Ok(a) => a, Err(p) => return fail(format!("{}; operations {:?}", desc, ops), &"no panic", &p) };
        let need = op.need() as usize;
        let input = || format!("{}; operations {:?}", desc, ops);
        if lie {
            // the only guarantee left: no panic, and what is delivered before the lie is right
            match a {
                Err(_) => return Ok(true),
                Ok(v) => {
                    let p = pos[0];
                    let good = match (op, &v) { (Op::U8Eof, Val::None) | (Op::Be16Eof, Val::None) => p == n, _ => p + need <= n && op_val(op, &data[p..p + need]) == v };
                    if !good { return fail(input(), &"the bytes of the source, or an error", &v) }
                    if v != Val::None { pos = vec![p + need] }
                }
            }
            continue;
        }
        let lim = if nf < faults.len() { faults[nf].0 } else { usize::MAX };
        let mut next: Vec<usize> = vec![];
        let mut exp = vec![];
        let mut hit = false;
        for &p in &pos {
            if need > 0 && p + need > lim && lim <= n {
                if exp.len() < 3 { exp.push(format!("error {:?}", faults[nf].1)) }
                if let Err(e) = &a {
                    if e.kind() == faults[nf].1 && e.to_string() == FAULT_MSG { if next.is_empty() { for q in p..=lim.max(p) { next.push(q); } } hit = true; }
                }
            } else if p + need > n {
                if p == n && matches!(op, Op::U8Eof | Op::Be16Eof) {
                    exp.push("None".to_string());
                    if matches!(a, Ok(Val::None)) { next.push(p); }
                } else {
                    if exp.len() < 3 { exp.push("UnexpectedEof".to_string()) }
                    if matches!(&a, Err(e) if e.kind() == io::ErrorKind::UnexpectedEof) { if next.is_empty() { for q in p..=n { next.push(q); } } }
                }
            } else {
                if exp.len() < 3 { exp.push(if need < 100 { short(&op_val(op, &data[p..p + need])) } else { format!("bytes {}..{}", p, p + need) }) }
                if matches!(&a, Ok(x) if matches_val(op, &data[p..p + need], x)) { next.push(p + need); }
            }
        }
        if next.is_empty() { return fail(input(), &exp, &a) }
        if hit { nf += 1 }
        next.sort_unstable();
        next.dedup();
        pos = next;
        if a.is_err() { ended += 1; if ended > 4 { break } }
    }
    Ok(n > 0)
}

fn c03(r: &mut Rng, _i: u64) -> Res {
    let n = match r.hint() { Some(v) if v >= 0 && v < 1 << 20 => v as usize + r.us(0, 3), _ => if r.chance(1, 2000) { r.pick(&[65536, 65540, 32768, 4096, 70000, 131072]) } else { r.us(0, 40) } };
    let data = if n < 200 { r.bytes(n) } else { let x = r.next(); (0..n).map(|k| (x.wrapping_mul(k as u64 | 1) >> 40) as u8).collect() };
    let mut c = io::Cursor::new(data.clone());
    let p0 = match r.below(5) { 0 => r.next(), 1 => u64::MAX - r.below(6), 2 => n as u64 + r.below(3), 3 => (1 << 32) + r.below(9) - 4, _ => r.below(n as u64 + 1) };
    c.set_position(p0);
    let mut p = p0 as u128;
    let mut ops = vec![];
    for _ in 0..r.us(1, 12) {
        let op = match r.below(8) { 0 => Op::Into(r.us(0, n + 2)), 1 => Op::Skip(r.us(0, n + 2) as u32), 2 => Op::Skip(u32::MAX - r.below(4) as u32), 3 => { let left = (n as u128).saturating_sub(p) as i64; let k = (left + r.range(-1, 1)).max(0); if r.chance(1, 2) { Op::Skip(k as u32) } else { Op::Into(k as usize) } } _ => rand_op(r, 30) };
        ops.push(op);
        let input = || format!("Cursor over {} at position {}, operations {:?}", hex(&data), p0, ops);
        let by_ref = r.chance(1, 3);
        let a = guard(|| if by_ref { let mut q = &mut c; run_op(&mut q, op) } else { run_op(&mut c, op) });
        let a = match a { Ok(a) => a, Err(x) => return fail(input(), &"no panic", &x) };
        let need = op.need() as u128;
        let now = c.position() as u128;
        if need == 0 && p > n as u128 { if now != p { return fail(input(), &p, &now) } continue }
        let ok = if p + need <= n as u128 {
            let v = op_val(op, &data[p as usize..(p + need) as usize]);
            let good = matches!(&a, Ok(x) if *x == v) && now == p + need;
            if !good { return fail(input(), &(v, p + need), &(a.map_err(|e| e.kind()), now)) }
            true
        } else if p >= n as u128 && matches!(op, Op::U8Eof | Op::Be16Eof) {
            matches!(a, Ok(Val::None)) && now == p
        } else {
            let single = matches!(op, Op::U8 | Op::U8Eof | Op::Into(_) | Op::Skip(_));
            matches!(&a, Err(e) if e.kind() == io::ErrorKind::UnexpectedEof) && if single { now == p } else { now >= p && now <= p.max(n as u128) }
        };
        if !ok { return fail(input(), &format!("an end-of-file error (or None), the position unchanged at {}", p), &(a.map_err(|e| e.kind()), now)) }
        p = now;
    }
    Ok(true)
}

// ------------------------------------------------------------------ C04
/// A unary number with very many zeros.
fn c04_long(r: &mut Rng) -> Res {
    let zeros = match r.hint() { Some(v) if v >= 0 && v < 1 << 25 => v as usize / r.pick(&[1, 8]), _ => { let k = r.us(10, 21); (1usize << k).wrapping_add(r.us(0, 4)).wrapping_sub(2) } };
    let (head, tail, used) = (r.us(0, 9), r.bytes(3), r.us(0, 7));
    let mut d = vec![0xffu8; head];
    d.push(!(0xffu32 >> used) as u8 | if used == 0 { 0x80 } else { 0 });
    let first = if used == 0 { 7 } else { 8 - used };
    d.extend(std::iter::repeat(0).take(zeros));
    let one = r.below(8) as u32;
    d.push(0x80 >> one | (r.next() as u8 & (0x7f >> one)));
    let after = d[d.len() - 1];
    d.extend_from_slice(&tail);
    let input = || format!("Bitstream over {} bytes of ff, a byte with {} leading ones, {} bytes of zero, then {}; {} single bits, read_unary, bits", head, used.max(1), zeros, hex(&d[d.len() - 4..]), head * 8 + used.max(1));
    let a = guard(|| -> io::Result<(u32, u32, u64)> {
        let mut c = io::Cursor::new(&d);
        let (n, x) = { let mut b = Bitstream::new(&mut c);
            for _ in 0..head * 8 + used.max(1) { if !b.read_bit()? { return Ok((u32::MAX, 0, 0)) } }
            (b.read_unary()?, b.read_leq_u16(15)? as u32) };
        Ok((n, x, c.position()))
    });
    let mut rest = 0u64;
    for &x in [after].iter().chain(&tail) { rest = rest << 8 | x as u64 }
    let left = 7 - one;
    let want = (first as u32 + zeros as u32 * 8 + one, ((rest & ((1 << (left + 24)) - 1)) >> (left + 24 - 15)) as u32, (head + 1 + zeros + 1) as u64 + if left >= 15 { 0 } else { ((15 - left + 7) / 8) as u64 });
    match &a { Ok(Ok(x)) if *x == want => Ok(true), _ => fail(input(), &want, &a) }
}
fn c04(r: &mut Rng, i: u64) -> Res {
    if i % 5000 == 3 { return c04_long(r) }
    let n = r.us(0, 24);
    let mut d: Vec<u8> = match r.below(3) { 0 => r.bytes(n), 1 => (0..n).map(|_| r.pick(&[0u8, 0, 0, 1, 2, 4, 8, 16, 32, 64, 128, 255])).collect(), _ => (0..n).map(|_| r.pick(&[0u8, 255])).collect() };
    if r.chance(1, 20) { let k = r.us(40, 9000); d.extend(std::iter::repeat(0).take(k)); d.push(r.next() as u8) }
    let mut cur = io::Cursor::new(d.clone());
    let mut b = Bitstream::new(&mut cur);
    let mut ob = o::Bits::new(&d);
    let mut ops = vec![];
    for _ in 0..r.us(1, 40) {
        let w = |r: &mut Rng, lo: i64, hi: i64| if r.chance(1, 4) { r.pick(&[lo, hi]) as u32 } else { r.range(lo, hi) as u32 };
        let (name, k) = match r.below(6) { 0 => ("read_bit", 1), 1 => ("read_unary", 0), 2 => ("read_leq_u8", w(r, 0, 8)), 3 => ("read_gt_u8_leq_u16", w(r, 9, 16)), 4 => ("read_leq_u16", w(r, 0, 16)), _ => ("read_leq_u32", w(r, 0, 32)) };
        ops.push((name, k));
        let a = guard(|| match name {
            "read_bit" => b.read_bit().map(|x| x as u64),
            "read_unary" => b.read_unary().map(|x| x as u64),
            "read_leq_u8" => b.read_leq_u8(k).map(|x| x as u64),
            "read_gt_u8_leq_u16" => b.read_gt_u8_leq_u16(k).map(|x| x as u64),
            "read_leq_u16" => b.read_leq_u16(k).map(|x| x as u64),
            _ => b.read_leq_u32(k).map(|x| x as u64),
        });
        let e = if name == "read_unary" { ob.unary() } else { ob.get(k) };
        let ok = match (&e, &a) { (Ok(x), Ok(Ok(y))) => x == y, (Err(_), Ok(Err(er))) => er.kind() == io::ErrorKind::UnexpectedEof, _ => false };
        if !ok { return fail(format!("Bitstream over {}, operations {:?}", hex(&d), ops), &e, &a) }
        if e.is_err() { return Ok(true) }
        let _ = &mut b;
    }
    let used = ((ob.p + 7) / 8) as u64;
    drop(b);
    // bytes are fetched as bits are needed, none ahead
    if cur.position() != used { return fail(format!("Bitstream over {}, operations {:?}", hex(&d), ops), &format!("{} bytes consumed", used), &cur.position()) }
    Ok(true)
}

// ------------------------------------------------------------------ C05
fn c05(r: &mut Rng, i: u64) -> Res {
    let mut f = if i % 3 == 0 {
        // every byte value through both checksums
        let mut h = rand_head(r, 1);
        h.variable = true;
        h.nlen = 7;
        h.number = r.bits(36);
        h.chan = 0;
        h.bpc = 1;
        build(&h, &mut |w, _, _| { w.put(0, 6 + 1); w.put(1, 1); w.put(0, 0); w.unary(0); let v = r.signed(7); w.signed(v, 7) })
    } else if i % 3 == 1 {
        let mut h = rand_head(r, 1);
        h.bs = r.us(1, 40);
        h.bsc = 7;
        h.chan = 0;
        h.bpc = 1;
        let mut r2 = Rng::new(r.next());
        build(&h, &mut |w, _, _| { sf_head(w, 1, 0); for _ in 0..h.bs { w.put(r2.next() & 255, 8) } })
    } else if r.chance(1, 12) {
        // large blocks of constants, in any number of channels
        let bs = match r.hint() { Some(v) if v >= 1 && v <= 65535 => v as usize, _ => r.pick(&[65535, 32768, 16384, 4096, 4608, 8192, 16385, 1024]) };
        let h = rand_head(r, bs);
        let mut r2 = Rng::new(r.next());
        build(&h, &mut |w, bps, _| put_subframe(&mut r2, w, bps, bs, SfOpt { ty: Some(0), ..SfOpt::default() }))
    } else { let bs = r.us(1, 40); frame(r, bs) };
    // valid frames pass
    cmp_frame_in(r, &f, true)?;
    // damage one thing, leave the stored checksums alone (or store a wrong one)
    let n = f.len();
    let hl = match o::header(&f) { Ok(Some((_, k))) => k, _ => return Ok(false) };
    match r.below(10) {
        8 => {
            // telling values
            let c = (f[n - 2] as u16) << 8 | f[n - 1] as u16;
            let v = match r.below(9) { 0 => 0, 1 => 0xffff, 2 => !c, 3 => c.swap_bytes(), 4 => c.wrapping_add(1), 5 => c & 0xff, 6 => c & 0xff00, 7 => r.below(256) as u16, _ => r.bits(16) as u16 };
            f[n - 2] = (v >> 8) as u8;
            f[n - 1] = v as u8;
        }
        9 => { let c = f[hl - 1]; f[hl - 1] = match r.below(6) { 0 => 0, 1 => 0xff, 2 => !c, 3 => c.wrapping_add(1), 4 => c.reverse_bits(), _ => r.bits(8) as u8 }; fix16(&mut f) }
        0 => { let k = r.us(0, 7); f[n - 1] ^= 1 << k }
        1 => { let k = r.us(0, 7); f[n - 2] ^= 1 << k }
        2 => { let k = r.us(0, 7); f[hl - 1] ^= 1 << k; fix16(&mut f) }
        3 => { f[hl - 1] = r.next() as u8; fix16(&mut f) }
        4 => { f[n - 1] = r.next() as u8; f[n - 2] = r.next() as u8 }
        5 => { let k = r.us(0, hl - 2); let b = r.us(0, 7); f[k] ^= 1 << b; fix16(&mut f) }
        6 => { let k = r.us(hl, n - 3); let b = r.us(0, 7); f[k] ^= 1 << b }
        _ => { f.swap(n - 1, n - 2) }
    }
    cmp_frame_in(r, &f, false)
}

// ------------------------------------------------------------------ C06
fn simple_body(r: &mut Rng, w: &mut BitW, bps: u32) { sf_head(w, 0, 0); let v = r.signed(bps); w.signed(v, bps) }
fn c06(r: &mut Rng, i: u64) -> Res {
    // all codes of the two bytes after the sync code, all low bits of the sync code
    let mut w = BitW::new();
    let sync_bad = r.chance(1, 40);
    let sync = if sync_bad { 0x3ffe ^ (1 << r.below(14)) } else { 0x3ffe };
    let low = if r.chance(1, 30) { 2 + r.below(2) } else { r.below(2) };
    let x = i % 256;
    let y = (i / 256) % 256;
    // mostly valid values in the other byte
    let (x, y) = match i / 65536 { 0 => (x, y), _ => if r.chance(1, 2) { (i % 256, (r.below(11) << 4) | (r.pick(&[1, 2, 4, 5, 6]) << 1)) } else { ((r.range(1, 15) as u64) << 4 | r.below(15), i % 256) } };
    w.put(sync, 14);
    w.put(low, 2);
    w.put(x, 8);
    w.put(y, 8);
    let (num, len) = number(r, low & 1 == 1);
    for b in coded(num, len) { w.put(b as u64, 8) }
    let mut bs = 1;
    if x >> 4 == 6 { let b = r.pick(&[0, 255, 1, 191, r.0 >> 56]); w.put(b, 8); bs = b + 1 }
    if x >> 4 == 7 { let b = match r.below(6) { 0 => 0xffff, 1 => 0xfffe, 2 => 0, 3 => 255, 4 => 256, _ => r.below(600) }; w.put(b, 16); bs = b + 1 }
    if x & 15 == 12 { w.put(r.bits(8), 8) }
    if x & 15 == 13 || x & 15 == 14 { w.put(r.bits(16), 16) }
    let _ = bs;
    let c = o::crc8(&w.bytes);
    w.put(c as u64, 8);
    let d = w.bytes.clone();
    if let Ok(Some((h, _))) = o::header(&d) {
        if let Some(bps) = h.bps { for k in 0..o::channels(h.chan) { simple_body(r, &mut w, bps + side_extra(h.chan, k)) } }
    }
    let f = finish(w);
    cmp_frame_in(r, &f, true)
}

// ------------------------------------------------------------------ C07
fn c07(r: &mut Rng, i: u64) -> Res {
    let variable = r.chance(1, 2);
    let mut h = rand_head(r, 1);
    let bs = r.pick(&[1, 192, 16, 17, 256, 4096, 4608, 32768, 65535]);
    h.bs = bs;
    h.bsc = head_bs(r, bs);
    h.chan = 0;
    h.bpc = 1;
    h.variable = variable;
    let enc: Vec<u8> = match i % 4 {
        // any first byte with any continuation
        0 => {
            let first = (i / 4 % 256) as u8;
            let ones = first.leading_ones() as usize;
            let mut v = vec![first];
            let n = if ones == 0 { 0 } else { ones.min(8) - 1 };
            for _ in 0..n { v.push(0x80 | (r.next() as u8 & 0x3f)) }
            v
        }
        1 => {
            let len = r.us(2, 7);
            let v = r.bits(coded_bits(len));
            let mut b = coded(v, len);
            if r.chance(1, 2) { let k = r.us(1, len - 1); b[k] = (b[k] & 0x3f) | r.pick(&[0u8, 0x40, 0xc0]) }
            b
        }
        2 => {
            // around the 31-bit limit
            let v = r.pick(&[0x7fff_ffffu64, 0x8000_0000, 0x7fff_fffe, 0x8000_0001, 0xffff_ffff, 0x1_0000_0000, 0xf_ffff_ffff]);
            coded(v, if v >= 1 << 31 { 7 } else { r.us(6, 7) })
        }
        _ => { let len = r.us(1, 7); let b = coded_bits(len); let v = match r.below(3) { 0 => (1 << b) - 1, 1 => 1 << r.below(b as u64), _ => r.bits(b) }; coded(v, len) }
    };
    let mut w = BitW::new();
    let mut plain = put_head(&Head { number: 0, nlen: 1, ..h.clone() });
    plain.pop();
    let mut hb = plain[..4].to_vec();
    hb.extend_from_slice(&enc);
    hb.extend_from_slice(&plain[5..]);
    let c = o::crc8(&hb);
    hb.push(c);
    for b in hb { w.put(b as u64, 8) }
    simple_body(r, &mut w, 8);
    let f = finish(w);
    cmp_frame_in(r, &f, true)
}

// ------------------------------------------------------------------ C08..C11
fn fillv(r: &mut Rng) -> i32 { r.pick(&[0, -1, 0x5a5a5a5a, i32::MIN, i32::MAX]) }
fn tail(r: &mut Rng, w: BitW) -> Vec<u8> { let mut d = w.bytes; let mut x = r.bytes(3); d.append(&mut x); d }

/// A block size in place of the usual one: what the hints say, or (one case in `one_in`) a large one.
fn bs_or(r: &mut Rng, one_in: u64, usual: usize) -> usize {
    if let Some(v) = r.hint() { if v >= 1 && v <= 65535 { return v as usize } }
    if r.chance(1, one_in) { return r.pick(&[65535, 65534, 32768, 32769, 4608, 4096, 16384, 1000, 257]) }
    usual
}
fn c08(r: &mut Rng, i: u64) -> Res {
    let bps = if r.chance(1, 2) { r.pick(&[8, 16, 24, 25, 32, 1, 12, 20]) } else { 1 + r.below(32) as u32 };
    let bs = r.pick(&[1, 2, 3, 16, 17, 40]);
    let bs = bs_or(r, 250, bs);
    let mut w = BitW::new();
    if i % 3 == 0 {
        // every type code, with a body that suits it
        let ty = i / 3 % 64;
        w.put(r.chance(1, 30) as u64, 1);
        w.put(ty, 6);
        let k = if r.chance(1, 2) { 0 } else { r.below(34) as u32 };
        if k == 0 { w.put(0, 1) } else { w.put(1, 1); w.unary(k as u64 - 1) }
        let body = if bps > k { let mut t = BitW::new(); let opt = SfOpt { ty: Some(ty), wasted: Some(0), ..SfOpt::default() };
            if ty < 2 || (8..=12).contains(&ty) || ty >= 32 { put_subframe(r, &mut t, bps - k, bs, opt) } t } else { BitW::new() };
        // drop the header of the inner subframe
        let mut bits = o::Bits::new(&body.bytes);
        for _ in 0..8 { let _ = bits.bit(); }
        for _ in 8..body.n { let b = bits.bit().unwrap_or(0); w.put(b, 1) }
        let d = tail(r, w);
        return cmp_subframe(&d, bps, bs, fillv(r), true);
    }
    let opt = SfOpt { ty: if i % 3 == 1 { Some(r.below(2)) } else { None }, wasted: if r.chance(1, 2) { Some(r.below(32) as u32) } else { None }, ..SfOpt::default() };
    put_subframe(r, &mut w, bps, bs, opt);
    let d = tail(r, w);
    cmp_subframe(&d, bps, bs, fillv(r), true)
}

fn c09(r: &mut Rng, i: u64) -> Res {
    let big = r.chance(1, 60);
    let bs = if big { r.pick(&[32768, 16384, 8192, 49152, 4096, 4608, 65535]) } else if r.chance(1, 2) { 1usize << r.us(0, 9) } else { r.us(1, 20) << r.us(0, 5) };
    let warm = r.us(0, 4).min(bs);
    let lpc = r.chance(1, 4) && bs >= 1;
    let warm = if lpc { if r.chance(1, 3) { r.us(1, 32) } else { warm.max(1) } .min(bs) } else { warm };
    let bps = 8;
    let mut w = BitW::new();
    sf_head(&mut w, if lpc { 31 + warm as u64 } else { 8 + warm as u64 }, 0);
    for _ in 0..warm { w.put(0, bps) }
    if lpc { w.put(0, 4); w.put(0, 5); for _ in 0..warm { w.put(0, 1) } }
    // with zero coefficients (or order 0) the residual is the output
    if i % 4 == 3 {
        // reserved methods, partition orders that do not fit, escape codes
        let m = r.below(4);
        let order = r.below(16);
        w.put(m, 2);
        w.put(order, 4);
        let k = if r.chance(1, 3) { r.pick(&[15, 31, 30, 14]) } else { r.below(15) };
        w.put(k, if m == 0 { 4 } else { 5 });
        // enough ones to decode something
        for _ in 0..bs.min(4000) * 3 { w.bit(true) }
        for _ in 0..40 { w.put(r.next() & 255, 8) }
        let d = tail(r, w);
        let strict = oracle_subframe(&d, bps, bs) != Err(E::Eof);
        return cmp_subframe(&d, bps, bs, fillv(r), strict);
    }
    if i % 4 == 2 && r.chance(1, 100) && bs <= 64 && bs > warm {
        // a unary part of many bytes
        let method = r.below(2);
        w.put(method, 2);
        w.put(0, 4);
        let k = if method == 0 { r.below(15) } else { r.below(17) } as u32;
        w.put(k as u64, if method == 0 { 4 } else { 5 });
        let at = r.us(warm, bs - 1);
        for j in warm..bs {
            let q = if j == at { match r.below(5) { 0 => 65535 + r.below(3), 1 => r.below(200_000), 2 => 255 + r.below(3), 3 => (1u64 << r.below(19)) + r.below(2), _ => r.below(70_000) } } else { r.below(3) };
            w.unary(q);
            w.put(r.bits(k), k);
        }
        let d = tail(r, w);
        return cmp_subframe(&d, bps, bs, fillv(r), true);
    }
    let v = if big { (0..bs - warm).map(|_| r.signed(3)).collect() } else { residuals(r, bs - warm) };
    let opt = RiceOpt { method: if r.chance(1, 2) { Some((i % 2) as u32) } else { None }, order: if r.chance(1, 2) { let os = valid_orders(bs, warm); if os.is_empty() { None } else { Some(if r.chance(1, 2) { *os.last().unwrap() } else { r.pick(&os) }) } } else { None }, k: if r.chance(1, 2) { Some(r.below(31) as u32) } else { None } };
    if !put_residual(r, &mut w, bs, warm, &v, opt) { return Ok(false) }
    let d = tail(r, w);
    if warm == 0 && !lpc {
        // order 0: the values come back directly
        let a = real_subframe(&d, bps, bs, 0);
        let want: Vec<i32> = v.iter().map(|&x| x as i32).collect();
        if !matches!(&a, Out::Ok((got, _)) if *got == want) { return fail(format!("residual with {:?} in bytes {}", opt, hex(&d)), &want, &a) }
    }
    cmp_subframe(&d, bps, bs, fillv(r), true)
}

fn c10(r: &mut Rng, i: u64) -> Res {
    let order = (i % 5) as usize;
    let bps = r.pick(&[8, 12, 16, 20, 24, 25, 32, 4]);
    let bs = match r.below(5) { 0 => r.us(0, 6), 1 => order + r.us(0, 3), 2 => 16, _ => r.us(5, 70) }.max(1);
    let bs = bs_or(r, 300, bs);
    let mut w = BitW::new();
    if bs < order {
        sf_head(&mut w, 8 + order as u64, 0);
        for _ in 0..60 { w.put(r.next() & 255, 8) }
        let d = tail(r, w);
        return cmp_subframe(&d, bps, bs, fillv(r), true);
    }
    if r.chance(1, 3) {
        put_subframe(r, &mut w, bps, bs, SfOpt { ty: Some(8 + order as u64), wasted: Some(0), ..SfOpt::default() });
        let d = tail(r, w);
        return cmp_subframe(&d, bps, bs, fillv(r), true);
    }
    let x = signal(r, bps, bs);
    if !put_fixed(r, &mut w, bps, order, &x, RiceOpt::default()) { return Ok(false) }
    let d = tail(r, w);
    let a = real_subframe(&d, bps, bs, fillv(r));
    let want: Vec<i32> = x.iter().map(|&v| v as i32).collect();
    match &a { Out::Ok((got, _)) if *got == want => cmp_subframe(&d, bps, bs, 0, true), _ => fail(format!("signal coded with the fixed predictor of order {}, {} bits, bytes {}", order, bps, hex(&d)), &want, &a) }
}

fn c11(r: &mut Rng, i: u64) -> Res {
    let order = (i % 32) as usize + 1;
    let bps = r.pick(&[8, 16, 24, 25, 32, 4, 20]);
    let bs = match r.below(6) { 0 => order + r.us(0, 3), 1 => r.us(11, 14).max(order), 2 => r.us(1, 33), _ => order + r.us(0, 60) };
    let bs = bs_or(r, 300, bs);
    let prec = if r.chance(1, 3) { r.pick(&[1, 15, 14]) } else { 1 + r.below(15) as u32 };
    let shift = r.below(16) as u32;
    let mut w = BitW::new();
    if bs < order {
        sf_head(&mut w, 31 + order as u64, 0);
        for _ in 0..400 { w.put(r.next() & 255, 8) }
        let d = tail(r, w);
        return cmp_subframe(&d, bps, bs, fillv(r), true);
    }
    if r.chance(1, 12) {
        // invalid precision, negative shift
        sf_head(&mut w, 31 + order as u64, 0);
        for _ in 0..order { w.signed(r.signed(bps), bps) }
        let bad = r.chance(1, 2);
        w.put(if bad { 15 } else { prec as u64 - 1 }, 4);
        w.put(if bad && r.chance(1, 2) { shift as u64 } else { r.range(16, 31) as u64 }, 5);
        for _ in 0..400 { w.put(r.next() & 255, 8) }
        let d = tail(r, w);
        return cmp_subframe(&d, bps, bs, fillv(r), true);
    }
    if r.chance(1, 3) {
        put_subframe(r, &mut w, bps, bs, SfOpt { ty: Some(31 + order as u64), wasted: Some(0), prec: Some(prec), shift: Some(shift), ..SfOpt::default() });
        let d = tail(r, w);
        return cmp_subframe(&d, bps, bs, fillv(r), true);
    }
    let extreme = r.chance(1, 4);
    let lo = -(1i64 << (prec - 1));
    let hi = (1i64 << (prec - 1)) - 1;
    let mut coef: Vec<i64> = (0..order).map(|_| if extreme { r.pick(&[lo, hi]) } else { r.signed(prec) }).collect();
    let mut x = signal(r, bps, bs);
    if extreme && r.chance(1, 2) {
        // products that all point the same way: the largest sums there are
        let c = r.pick(&[lo, hi]);
        let (a, b) = (-(1i64 << (bps - 1)), (1i64 << (bps - 1)) - 1);
        let v = if r.chance(1, 2) { (a, b) } else { (b, a) };
        let alt = r.chance(1, 3);
        for j in 0..order { coef[j] = if alt && j % 2 == 1 { lo + hi - c } else { c } }
        for j in 0..bs { x[j] = if alt && j % 2 == 1 { v.1 } else { v.0 } }
        if r.chance(1, 2) { let j = r.us(0, bs - 1); x[j] = r.signed(bps) }
    }
    if !put_lpc(r, &mut w, bps, &coef, prec, shift, &x, RiceOpt::default()) { return Ok(false) }
    let d = tail(r, w);
    let a = real_subframe(&d, bps, bs, fillv(r));
    let want: Vec<i32> = x.iter().map(|&v| v as i32).collect();
    match &a { Out::Ok((got, _)) if *got == want => cmp_subframe(&d, bps, bs, 0, true), _ => fail(format!("signal coded with the linear predictor, coefficients {:?}, shift {}, {} bits, bytes {}", coef, shift, bps, hex(&d)), &want, &a) }
}

// ------------------------------------------------------------------ C12
/// A subframe without prediction that can code any 32-bit value.
fn raw32(r: &mut Rng, w: &mut BitW, v: &[i64]) {
    sf_head(w, 8, 0);
    put_residual(r, w, v.len(), 0, v, RiceOpt { method: Some(1), order: Some(0), k: None });
}
fn c12(r: &mut Rng, i: u64) -> Res {
    let chan = 8 + i % 3;
    let bs = match r.below(4) { 0 => r.us(1, 5), 1 => r.us(1, 40), 2 => 192, _ => 16 };
    let bs = bs_or(r, 300, bs);
    let mut h = rand_head(r, bs);
    h.chan = chan;
    h.bpc = 6;
    if i % 5 == 4 {
        // any pair at all: no failure, and what the format's arithmetic says
        let a: Vec<i64> = (0..bs).map(|_| r.signed(32)).collect();
        let b: Vec<i64> = (0..bs).map(|_| r.signed(32)).collect();
        let mut r2 = Rng::new(r.next());
        let f = build(&h, &mut |w, _, k| raw32(&mut r2, w, if k == 0 { &a } else { &b }));
        return match real_frame(&f) { Out::Ok(Some(_)) => Ok(true), x => fail(format!("frame bytes {}", hex(&f)), &"a block", &x) };
    }
    let bits = if r.chance(1, 3) { 31 } else { r.range(2, 31) as u32 };
    let l = signal(r, bits, bs);
    let x = signal(r, bits, bs);
    let c0: Vec<i64> = (0..bs).map(|k| match chan { 8 => l[k], 9 => l[k] - x[k], _ => (l[k] + x[k]) >> 1 }).collect();
    let c1: Vec<i64> = (0..bs).map(|k| match chan { 8 => l[k] - x[k], 9 => x[k], _ => l[k] - x[k] }).collect();
    let mut r2 = Rng::new(r.next());
    let direct = bits <= 24 && r.chance(1, 2);
    let f = build(&h, &mut |w, bps, k| {
        let c = if k == 0 { &c0 } else { &c1 };
        if direct { sf_head(w, 1, 0); for &v in c { w.signed(v, bps) } } else { raw32(&mut r2, w, c) }
    });
    let to32 = |v: &Vec<i64>| v.iter().map(|&q| q as i32).collect::<Vec<i32>>();
    let want = vec![to32(&l), to32(&x)];
    match real_frame(&f) { Out::Ok(Some(fr)) if fr.ch == want => Ok(true), a => fail(format!("stereo frame, channel assignment {}, bytes {}", chan, hex(&f)), &want, &a) }
}

// ------------------------------------------------------------------ C13
fn c13(r: &mut Rng, i: u64) -> Res {
    // several frames in one source; buffers of all sorts
    let n = r.us(1, 4);
    let mut frames = vec![];
    let mut data = vec![];
    for _ in 0..n {
        let bs = if i % 40 == 0 { r.pick(&[4096, 4608, 65535, 32768]) } else { block_size(r) };
        let mut h = rand_head(r, bs);
        if r.chance(1, 3) { h.chan = r.below(8) }
        if r.chance(1, 25) { h.bpc = 0 }
        let f = if h.bpc == 0 { put_head(&h) } else { frame_h(r, &h) };
        data.extend_from_slice(&f);
        let stop = h.bpc == 0;
        frames.push(f);
        if stop { break }
    }
    let trail = r.bytes(3);
    if r.chance(1, 2) { data.extend_from_slice(&trail) }
    let mut rd = FrameReader::new(io::Cursor::new(data.clone()));
    let mut buf: Vec<i32> = vec![];
    let mut at = 0;
    for (k, f) in frames.iter().enumerate() {
        let e = oracle_frame(f);
        let reuse = r.chance(1, 2) && k > 0;
        if !reuse {
            let len = match r.below(6) { 0 => 0, 1 => r.us(1, 10), 2 => 70000, 3 => match r.hint() { Some(v) if v >= 0 && v < 1 << 22 => v as usize, _ => r.us(0, 600) }, 4 => e.as_ref().ok().and_then(|x| x.as_ref()).map(|x| x.bs * x.ch.len()).unwrap_or(0), _ => r.us(0, 2000) };
            let fill = fillv(r);
            buf = vec![fill; len];
            if r.chance(1, 4) { buf.reserve(5000) }
            if r.chance(1, 4) { let l = r.us(0, len); buf.truncate(l) }
        }
        let blen = buf.len();
        let b = std::mem::take(&mut buf);
        let a = out(guard(|| rd.read_next_or_eof(b)));
        let (a, total) = match a {
            Out::Ok(Some(b)) => {
                let x = of_block(&b);
                let t = (b.len() as usize, b.channels() as usize);
                buf = b.into_buffer();
                (Out::Ok(Some(x)), Some((t, buf.clone())))
            }
            Out::Ok(None) => (Out::Ok(None), None),
            Out::Io(a, b) => (Out::Io(a, b), None),
            Out::Fmt => (Out::Fmt, None),
            Out::Uns => (Out::Uns, None),
            Out::Panic(p) => (Out::Panic(p), None),
        };
        let input = || format!("frame {} of the stream {}, buffer of length {} handed in", k, hex(&data), blen);
        if !agree(&e, &a, true) { return fail(input(), &e, &a) }
        let fr = match e { Ok(Some(fr)) => fr, _ => return Ok(true) };
        let (t, whole) = total.unwrap();
        if t != (fr.bs * fr.ch.len(), fr.ch.len()) { return fail(input(), &(fr.bs * fr.ch.len(), fr.ch.len()), &t) }
        let cat: Vec<i32> = fr.ch.concat();
        if whole.len() < cat.len() || whole[..cat.len()] != cat[..] { return fail(input(), &cat, &whole) }
        at += f.len();
        // exactly the frame's bytes are consumed
        let cur = rd.into_inner();
        if cur.position() != at as u64 { return fail(input(), &format!("position {}", at), &cur.position()) }
        rd = FrameReader::new(cur);
    }
    Ok(true)
}

// ------------------------------------------------------------------ C14
fn c14(r: &mut Rng, i: u64) -> Res {
    if i % 2000 == 5 { return big_block(r, i % 4000 == 5) }
    if i % 3 == 0 {
        // frames
        let bs = r.us(1, 20);
        let pre = if r.chance(1, 2) { let b = r.us(1, 5); frame(r, b) } else { vec![] };
        let f = frame(r, bs);
        let cut = if r.chance(1, 4) { r.us(0, 2).min(f.len()) } else { r.us(0, f.len()) };
        let mut d = pre.clone();
        d.extend_from_slice(&f[..cut]);
        let n = d.len();
        let mut src = Src::new(d.clone(), Src::pick_chunk(r));
        let fault = r.chance(1, 2);
        let k = kind(r);
        if fault { src.faults = vec![(n, k)] }
        let input = || format!("stream of frames {} cut off to {} bytes{}", hex(&d), n, if fault { format!(", where the source fails with {:?}", k) } else { String::new() });
        let mut rd = FrameReader::new(BufferedReader::new(src));
        if !pre.is_empty() {
            let a = out(guard(|| rd.read_next_or_eof(vec![]).map(|x| x.map(|b| of_block(&b)))));
            let e = oracle_frame(&pre);
            if !agree(&e, &a, true) { return fail(input(), &e, &a) }
        }
        let a = out(guard(|| rd.read_next_or_eof(vec![]).map(|x| x.map(|b| of_block(&b)))));
        if cut == f.len() {
            let e = oracle_frame(&f);
            if !agree(&e, &a, true) { return fail(input(), &e, &a) }
            return Ok(true);
        }
        let good = if fault { matches!(&a, Out::Io(q, m) if *q == k && m == FAULT_MSG) } else if cut == 0 { matches!(a, Out::Ok(None)) } else { matches!(a, Out::Io(io::ErrorKind::UnexpectedEof, _)) };
        if !good { return fail(input(), &if fault { format!("I/O error {:?}", k) } else if cut == 0 { "end of stream".into() } else { "I/O error UnexpectedEof".to_string() }, &a) }
        return Ok(true);
    }
    let wv = r.chance(1, 2);
    let head = stream_head(r, wv);
    let f = { let b = r.us(1, 9); frame(r, b) };
    let mut all = head.clone();
    all.extend_from_slice(&f);
    let cut = r.us(0, all.len());
    let d = all[..cut].to_vec();
    let k = kind(r);
    let fault = r.chance(1, 2);
    let mut src = Src::new(d.clone(), Src::pick_chunk(r));
    if fault { src.faults = (0..3).map(|_| (cut, k)).collect() }
    let opts = FlacReaderOptions { metadata_only: r.chance(1, 3), read_vorbis_comment: r.chance(2, 3) };
    let input = || format!("stream {} cut off to {} bytes{}, options {:?}", hex(&all), cut, if fault { format!(", where the source fails with {:?}", k) } else { String::new() }, opts);
    let e = o::open(&d, opts.metadata_only, opts.read_vorbis_comment);
    let mut got_frames = vec![];
    let into = r.chance(1, 2);
    let a: Out<()> = out(guard(|| {
        let mut rd = FlacReader::new_ext(src, opts)?;
        if !opts.metadata_only {
            if into {
                for s in rd.into_samples() { got_frames.push(s?) }
            } else {
                let mut fr = rd.blocks();
                while let Some(b) = fr.read_next_or_eof(vec![])? { let b = of_block(&b); for p in 0..b.bs { for c in 0..b.ch.len() { got_frames.push(b.ch[c][p]) } } }
            }
        }
        Ok(())
    }));
    if matches!(a, Out::Panic(_)) { return fail(input(), &"no panic", &a) }
    let io_ok = |a: &Out<()>| if fault { matches!(a, Out::Io(q, m) if *q == k && m == FAULT_MSG) } else { matches!(a, Out::Io(io::ErrorKind::UnexpectedEof, _)) };
    match e {
        Err(E::Eof) => if !io_ok(&a) { return fail(input(), &"an I/O error while opening", &a) },
        Err(x) => return fail(input(), &"a stream that opens (generator)", &x),
        Ok(op) => {
            if opts.metadata_only { if a != Out::Ok(()) { return fail(input(), &"opened", &a) } return Ok(true) }
            let rest = &d[op.pos..];
            let whole = rest.len() == f.len();
            let clean = (rest.is_empty() || whole) && !fault;
            if clean { if a != Out::Ok(()) { return fail(input(), &"a clean end", &a) } } else if !io_ok(&a) { return fail(input(), &"an I/O error", &a) }
            let n = if whole { match oracle_frame(&f) { Ok(Some(x)) => x.bs * x.ch.len(), _ => 0 } } else { 0 };
            if got_frames.len() != n { return fail(input(), &format!("{} samples", n), &got_frames.len()) }
        }
    }
    Ok(true)
}

// ------------------------------------------------------------------ C15
/// Some other method of Iterator, after some calls of next: what it does must follow from what next yields.
fn iter_rest<I: Iterator, T: PartialEq + Clone + std::fmt::Debug>(r: &mut Rng, want: &[T], mk: impl FnOnce() -> I, own: &dyn Fn(I::Item) -> T) -> Result<(), (String, String, String)> {
    let n = want.len();
    let skip = match r.below(4) { 0 => 0, 1 => n + r.us(0, 1), 2 => r.us(0, n), _ => r.us(0, n.min(4)) };
    let left = if skip < n { &want[skip..] } else { &want[..0] };
    let m = left.len();
    let op = r.below(11);
    let k = if r.chance(1, 6) { m + r.us(0, 1) } else { r.us(0, m) };
    let get = |j: usize| left.get(j).cloned();
    let pair = |a: Option<T>, b: Option<T>| (vec![a, b], 0usize);
    let e: (Vec<Option<T>>, usize) = match op {
        0 => (vec![], m),
        1 => (vec![left.last().cloned()], 0),
        2 | 3 | 4 => pair(get(k), if k < m { get(k + 1) } else { None }),
        5 | 6 | 7 => (left.iter().cloned().map(Some).collect(), 0),
        8 => (left[k.min(m)..].iter().cloned().map(Some).collect(), 0),
        9 => (left.iter().step_by(3).cloned().map(Some).collect(), 0),
        _ => (left.iter().cloned().map(Some).collect(), 1),
    };
    let a = guard(|| {
        let mut it = mk();
        for _ in 0..skip { it.next(); }
        match op {
            0 => (vec![], it.count()),
            1 => (vec![it.last().map(own)], 0),
            2 => { let x = it.nth(k).map(own); pair(x, it.next().map(own)) }
            3 => { let mut j = 0; let x = it.find(|_| { j += 1; j > k }).map(own); pair(x, it.next().map(own)) }
            4 => { let mut j = 0; let mut at = None; it.position(|x| { j += 1; if j > k { at = Some(own(x)); true } else { false } }); pair(at, it.next().map(own)) }
            5 => (it.fold(vec![], |mut v, x| { v.push(Some(own(x))); v }), 0),
            6 => { let mut v = vec![]; it.for_each(|x| v.push(Some(own(x)))); (v, 0) }
            7 => (it.map(|x| Some(own(x))).collect(), 0),
            8 => (it.skip(k).map(|x| Some(own(x))).collect(), 0),
            9 => (it.step_by(3).map(|x| Some(own(x))).collect(), 0),
            _ => { let mut v = vec![]; let mut good = true; let mut seen = 0; loop {
                let (lo, hi) = it.size_hint();
                let rest = m - seen.min(m);
                good &= lo <= rest && hi.map_or(true, |h| h >= rest);
                match it.next() { Some(x) => { seen += 1; v.push(Some(own(x))); if seen > m + 2 { break } } None => break }
            } (v, good as usize) }
        }
    });
    if a.as_ref().ok() == Some(&e) { return Ok(()) }
    let what = ["count()".to_string(), "last()".to_string(), format!("nth({}), next()", k), format!("find of the item at {}, next()", k), format!("position of the item at {}, next()", k), "fold".to_string(), "for_each".to_string(), "collect()".to_string(), format!("skip({})", k), "step_by(3)".to_string(), "size_hint() before each next()".to_string()];
    Err((format!("{} times next(), then {}", skip, what[op as usize]), short(&e), short(&a)))
}
fn c15(r: &mut Rng, i: u64) -> Res {
    if i % 50 == 0 {
        let b = Block::empty();
        if (b.len(), b.duration(), b.channels(), b.time()) != (0, 0, 0, 0) { return fail("Block::empty()".into(), &(0, 0, 0, 0), &(b.len(), b.duration(), b.channels(), b.time())) }
        return Ok(false);
    }
    let bs = if r.chance(1, 30) { r.pick(&[65535, 32768, 4608]) } else { block_size(r) };
    let mut h = rand_head(r, bs);
    h.chan = match r.below(3) { 0 => 1, 1 => r.range(8, 10) as u64, _ => r.below(8) };
    let f = frame_h(r, &h);
    let fr = match oracle_frame(&f) { Ok(Some(x)) => x, x => return fail(format!("frame bytes {}", hex(&f)), &"generator", &x) };
    let mut buf = vec![77i32; r.us(0, 3) * 500];
    buf.reserve(r.us(0, 1000));
    let input = || format!("block of the frame {}", hex(&f));
    let b = match guard(|| FrameReader::new(io::Cursor::new(&f)).read_next_or_eof(buf)) { Ok(Ok(Some(b))) => b, x => return fail(input(), &"a block", &format!("{:?}", x.map(|y| y.map(|z| z.is_some()))))};
    let nch = fr.ch.len() as u32;
    if b.time() != fr.time { return fail(format!("{}, time()", input()), &fr.time, &b.time()) }
    if (b.len(), b.duration(), b.channels()) != (nch * bs as u32, bs as u32, nch) { return fail(input(), &(nch * bs as u32, bs as u32, nch), &(b.len(), b.duration(), b.channels())) }
    let chs = guard(|| (0..nch).map(|c| b.channel(c).to_vec()).collect::<Vec<_>>());
    if chs.as_ref().ok() != Some(&fr.ch) { return fail(input(), &fr.ch, &chs) }
    for _ in 0..200.min(bs * 8) {
        let c = r.below(nch as u64) as u32;
        let p = if r.chance(1, 3) { r.pick(&[0, bs - 1]) } else { r.us(0, bs - 1) };
        let s = guard(|| b.sample(c, p as u32));
        if s.as_ref().ok() != Some(&fr.ch[c as usize][p]) { return fail(format!("{}, sample({}, {})", input(), c, p), &fr.ch[c as usize][p], &s) }
    }
    if guard(|| b.channel(nch).len()).is_ok() { return fail(format!("{}, channel({})", input(), nch), &"a panic, as documented", &"a slice") }
    if nch == 2 {
        let want: Vec<(i32, i32)> = (0..bs).map(|k| (fr.ch[0][k], fr.ch[1][k])).collect();
        let got = guard(|| { let mut it = b.stereo_samples(); let mut v = vec![]; while v.len() <= bs + 2 { match it.next() { Some(x) => v.push(x), None => break } } let more = it.next().is_some() || it.next().is_some(); (v, more) });
        match &got { Ok((v, false)) if *v == want => {} _ => return fail(format!("{}, stereo_samples()", input()), &want, &got) }
        let skip = r.us(0, bs.min(4));
        let k = if r.chance(1, 8) { r.pick(&[usize::MAX, u32::MAX as usize, 1 << 32, (1 << 32) - 2, 1 << 31, 65536, 65535]) } else { r.us(0, bs) };
        let other = guard(|| { let mut n = b.stereo_samples(); for _ in 0..skip { n.next(); } let x = n.nth(k); (b.stereo_samples().count(), b.stereo_samples().last(), x, n.next(), b.stereo_samples().size_hint()) });
        let at = |x: usize| k.checked_add(skip).and_then(|y| y.checked_add(x)).and_then(|y| want.get(y).cloned());
        let w = (bs, want.last().cloned(), at(0), at(1));
        match other { Ok((a, b, c, d, (lo, hi))) if (a, b, c, d) == w && lo <= bs && hi.map_or(true, |h| h >= bs) => {} x => return fail(format!("{}, stereo_samples(): count, last, {} times next, nth({})", input(), skip, k), &w, &x) }
        if bs < 5000 || r.chance(1, 8) { if let Err((w, e, a)) = iter_rest(r, &want, || b.stereo_samples(), &|x| x) { return fail(format!("{}, stereo_samples(): {}", input(), w), &e, &a) } }
    } else if guard(|| b.stereo_samples().next()).is_ok() { return fail(format!("{}, stereo_samples()", input()), &"a panic, as documented", &"an iterator") }
    let v = b.into_buffer();
    if v.len() < fr.ch.len() * bs || v[..fr.ch.len() * bs] != fr.ch.concat()[..] { return fail(format!("{}, into_buffer()", input()), &fr.ch.concat(), &v) }
    Ok(true)
}

// ------------------------------------------------------------------ C16
fn c16(r: &mut Rng, i: u64) -> Res {
    let wv = r.chance(1, 3);
    let mut d = stream_head(r, wv);
    let many = r.chance(1, 1500);
    let n = if many { r.us(100, 700) } else { r.us(0, 5) };
    let same = r.chance(1, 2);
    let chan = r.below(11);
    let mut want: Vec<i32> = vec![];
    let mut bad = None;
    for k in 0..n {
        let usual = match r.below(3) { 0 => 1, _ => if r.chance(1, 80) { r.us(200, 9000) } else { r.us(1, 20) } };
        let bs = if many { r.us(1, 3) } else { bs_or(r, 1500, usual) };
        let mut h = rand_head(r, bs);
        if same { h.chan = chan } else if r.chance(1, 3) { h.chan = 0 }
        let mut f = frame_h(r, &h);
        if bad.is_none() && r.chance(1, 8) {
            let at = r.us(0, f.len() - 1);
            match r.below(3) { 0 => f[at] ^= 1 << r.below(8), 1 => { let m = f.len(); f[m - 1] ^= 0x40 } _ => f.truncate(at) }
            if o::frame(&f).is_err() { bad = Some(k) } else { return Ok(false) }
        }
        d.extend_from_slice(&f);
        if bad.is_none() { let fr = o::frame(&f).unwrap().unwrap(); for p in 0..bs { for c in 0..fr.ch.len() { want.push(fr.ch[c][p]) } } }
    }
    let src = Src::new(d.clone(), Src::pick_chunk(r));
    let mut want_err = bad.is_some();
    // a damaged frame may swallow what follows, so ask the oracle for the stream as a whole
    if bad.is_some() {
        want.clear();
        want_err = false;
        let mut p = o::open(&d, false, true).map(|x| x.pos).unwrap_or(d.len());
        loop {
            match o::frame(&d[p..]) { Ok(None) => break, Ok(Some(fr)) => { for q in 0..fr.bs { for c in 0..fr.ch.len() { want.push(fr.ch[c][q]) } } p += fr.len }, Err(_) => { want_err = true; break } }
        }
    }
    let input = || format!("stream {}", hex(&d));
    let into = i % 2 == 0;
    let lim = want.len() + 10;
    if !want_err {
        let k = r.us(0, want.len());
        let cut = |x: Option<Result<i32, Error>>| x.map(|y| y.ok());
        let other = guard(|| -> Result<_, Error> {
            let open = || FlacReader::new(io::Cursor::new(&d));
            let (mut a, mut b) = (open()?, open()?.into_samples());
            let n = if into { let mut it = open()?.into_samples(); let h = it.size_hint(); let x = cut(it.nth(k)); (x, cut(it.next()), b.by_ref().count(), h) } else { let mut it = a.samples(); let h = it.size_hint(); let x = cut(it.nth(k)); (x, cut(it.next()), open()?.samples().count(), h) };
            Ok(n)
        });
        let at = |k: usize| want.get(k).map(|x| Some(*x));
        match &other { Ok(Ok((x, y, n, h))) if *x == at(k) && *y == at(k + 1).filter(|_| k < want.len()) && *n == want.len() && h.0 <= want.len() && h.1.map_or(true, |m| m >= want.len()) => {} _ => return fail(format!("{}: nth({}), next, count, size_hint", input(), k), &(at(k), at(k + 1), want.len()), &other.map(|x| x.map_err(|e| format!("{:?}", e)))) }
    }
    if i % 3 == 0 {
        let mut all: Vec<Result<i32, ()>> = want.iter().map(|x| Ok(*x)).collect();
        if want_err { all.push(Err(())) }
        let open = || FlacReader::new(io::Cursor::new(&d)).unwrap();
        if let Ok(Ok(_)) = guard(|| FlacReader::new(io::Cursor::new(&d))) {
            let own = |x: Result<i32, Error>| x.map_err(|_| ());
            let t = if into { iter_rest(r, &all, || open().into_samples(), &own) } else { { let mut a = open(); let t = iter_rest(r, &all, || a.samples(), &own); t } };
            if let Err((w, e, a)) = t { return fail(format!("{}, {}: {}", input(), if into { "into_samples()" } else { "samples()" }, w), &e, &a) }
        }
    }
    let shared = std::rc::Rc::new(std::cell::Cell::new(0usize));
    struct Cnt(Src, std::rc::Rc<std::cell::Cell<usize>>);
    impl io::Read for Cnt { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.1.set(self.1.get() + 1); self.0.read(b) } }
    let src = Cnt(src, shared.clone());
    let run = guard(|| -> Result<(Vec<i32>, bool, bool), Error> {
        let mut got = vec![];
        let mut err = false;
        let mut after = false;
        let mut rd = FlacReader::new(src)?;
        macro_rules! go { ($it:expr) => {{
            let mut it = $it;
            loop {
                match it.next() { None => break, Some(Ok(s)) => got.push(s), Some(Err(_)) => { err = true; let c = shared.get(); for _ in 0..4 { if it.next().is_some() { after = true } } if shared.get() != c { after = true } break } }
                if got.len() > lim { break }
            }
        }} }
        if into { go!(rd.into_samples()) } else { go!(rd.samples()) }
        Ok((got, err, after))
    });
    match &run { Ok(Ok((g, e, false))) if *g == want && *e == want_err => Ok(true), _ => fail(input(), &(want, want_err, false), &run.map(|x| x.map_err(|e| format!("{:?}", e)))) }
}

// ------------------------------------------------------------------ C17..C20
fn conv(m: MetadataBlock) -> o::Meta {
    match m {
        MetadataBlock::StreamInfo(i) => o::Meta::Info(o::Info { min_bs: i.min_block_size, max_bs: i.max_block_size, min_fs: i.min_frame_size, max_fs: i.max_frame_size, rate: i.sample_rate, ch: i.channels, bps: i.bits_per_sample, n: i.samples, md5: i.md5sum }),
        MetadataBlock::Padding { length } => o::Meta::Padding(length),
        MetadataBlock::Application { id, data } => o::Meta::App(id, data),
        MetadataBlock::VorbisComment(v) => o::Meta::Vorbis(v.vendor, v.comments),
        MetadataBlock::Reserved => o::Meta::Reserved,
        _ => o::Meta::App(0xdead_beef, vec![]),
    }
}
fn cmp_body(d: &[u8], ty: u8, len: u32, chunk: Chunk, strict: bool) -> Res {
    let e = o::meta_body(d, ty, len);
    let mut rd = BufferedReader::new(Src::new(d.to_vec(), chunk));
    let a = out(guard(|| claxon::metadata::read_metadata_block(&mut rd, ty, len).map(conv)));
    let e1 = e.clone().map(|x| x.0);
    let input = || format!("metadata block of type {} and length {}, bytes {}", ty, len, hex(d));
    if !agree(&e1, &a, strict) { return fail(input(), &e1, &a) }
    if let Ok((_, n)) = e {
        // the position afterwards
        let mut rest = vec![];
        loop { match guard(|| rd.read_u8_or_eof()) { Ok(Ok(Some(b))) => rest.push(b), _ => break } }
        if rest != d[n..] { return fail(input(), &format!("{} bytes consumed", n), &format!("{} bytes consumed", d.len() - rest.len())) }
    }
    Ok(e1.is_ok())
}
fn c17(r: &mut Rng, i: u64) -> Res {
    let v = r.chance(2, 3);
    let mut b = info_bytes(r, v);
    if i % 4 == 0 { let k = (i / 4 % (34 * 8)) as usize; b[k / 8] ^= 0x80 >> (k % 8) }
    let len = if r.chance(1, 20) { r.pick(&[33u32, 35, 0, 34 + 256, 1 << 20, 68]) } else { 34 };
    let n = r.us(0, 5);
    let mut x = r.bytes(n);
    b.append(&mut x);
    cmp_body(&b, 0, len, Src::pick_chunk(r), true)
}
/// A block of up to 16 MiB that is all there (or almost), from a source that makes up its bytes.
fn big_block(r: &mut Rng, through: bool) -> Res {
    let ty = if r.chance(1, 2) { r.pick(&[1u8, 3, 5, 6, 2]) } else { let t = r.below(127) as u8; if t == 0 || t == 4 { 1 } else { t } };
    let top = (1u32 << 24) - 1;
    let n = match r.hint() { Some(v) if v >= 0 && v <= top as i64 => v as u32, _ => match r.below(4) {
        0 => { let k = r.range(12, 24); let j = r.range(-3, 3); ((1i64 << k) + j) as u32 }
        1 => { let k = r.us(0, 12); top >> k }
        2 => r.range(o::LIMIT as i64 - 3, o::LIMIT as i64 + 3) as u32,
        _ => { let k = r.us(4, 16); (r.next() as u32 & top) >> (16 - k) }
    } };
    let n = if ty == 2 { n.max(4) } else { n }.min(top);
    let fits = r.chance(3, 4) || n == 0;
    let pre: u64 = if through { 4 } else { 0 };
    let end = pre + n as u64;
    let len = if fits { end + r.below(4) } else { end - 1 - r.below(3).min(n as u64 - 1) };
    // the whole of an application block has to be compared, the rest is only looked at near the end
    let cap = if r.chance(1, 4) { r.us(1500, 2047) } else { usize::MAX };
    let input = format!("block of type {} announcing {} bytes over a source of {} bytes (at most {} at once){}; then single bytes", ty, n, len, cap, if through { ", with its header" } else { "" });
    let head = [ty, (n >> 16) as u8, (n >> 8) as u8, n as u8];
    let a = guard(|| {
        let mut rd = BufferedReader::new(Long { len: len - pre, pos: 0, watch: if ty == 2 { 0 } else { len.min(end) - pre }, cap });
        let x = if through { let mut c = io::Read::chain(io::Cursor::new(head), Long { len: len - pre, pos: 0, watch: if ty == 2 { 0 } else { len.min(end) - pre }, cap }); let mut b = BufferedReader::new(&mut c); let x = claxon::metadata::read_metadata_block_with_header(&mut b); let mut v = vec![]; if x.is_ok() { for _ in 0..5 { v.push(b.read_u8_or_eof().ok().and_then(|x| x)) } } (x, v) }
            else { let x = claxon::metadata::read_metadata_block(&mut rd, ty, n); let mut v = vec![]; if x.is_ok() { for _ in 0..5 { v.push(rd.read_u8_or_eof().ok().and_then(|x| x)) } } (x, v) };
        let what = match x.0 {
            Ok(MetadataBlock::Padding { length }) => format!("padding of {}", length),
            Ok(MetadataBlock::Application { id, data }) => {
                // only the bytes near the start have a value of their own
                let k = data.len().min(1000);
                let good = id == (0..4).fold(0, |a, p| a << 8 | long_byte(p) as u32) && data[..k].iter().enumerate().all(|(p, &b)| b == long_byte(p as u64 + 4));
                format!("application data of {}{}", data.len(), if good { "" } else { ", not what the source has" })
            }
            Ok(MetadataBlock::Reserved) => "a block to skip".to_string(),
            Ok(_) => "some other block".to_string(),
            Err(Error::IoError(e)) => format!("I/O error {:?}", e.kind()),
            Err(Error::FormatError(_)) => "format error".to_string(),
            Err(Error::Unsupported(_)) => "unsupported".to_string(),
        };
        (what, x.1)
    });
    let e = if ty == 2 && n > o::LIMIT { ("unsupported".to_string(), vec![]) }
        else if !fits { ("I/O error UnexpectedEof".to_string(), vec![]) }
        else { (match ty { 1 | 3 | 5 | 6 => format!("padding of {}", n), 2 => format!("application data of {}", n - 4), _ => "a block to skip".to_string() },
            (0..5).map(|k| if end + k < len { Some(if ty == 2 && n > 4000 { 0 } else { long_byte(n as u64 + k) }) } else { None }).collect()) };
    let a = a.map(|mut a| { if ty == 2 && n > 4000 { for x in a.1.iter_mut() { if x.is_some() { *x = Some(0) } } } a });
    if a.as_ref().ok() != Some(&e) { return fail(input, &e, &a) }
    Ok(true)
}
fn c18(r: &mut Rng, i: u64) -> Res {
    if i % 1000 == 0 || i % 1000 < 4 && i < 8000 { return big_block(r, i % 4 == 1) }
    if i % 2 == 0 {
        let ty = (i / 2 % 128) as u8;
        if ty == 4 { let mut b = vorbis_body(r); let n = b.len() as u32; let mut x = r.bytes(4); b.append(&mut x); return cmp_body(&b, 4, n, Src::pick_chunk(r), true) }
        if ty == 0 { let b = info_bytes(r, true); return cmp_body(&b, 0, 34, Src::pick_chunk(r), true) }
        if r.chance(1, 12) { let n = r.pick(&[0, 1, 3, 4, o::LIMIT - 1, o::LIMIT, o::LIMIT + 1, o::LIMIT + 4, o::LIMIT + 8, (1 << 24) - 1]); let m = r.us(0, 9); let d = r.bytes(m); return cmp_body(&d, ty, n, Src::pick_chunk(r), true) }
        let n = match r.below(6) { 0 => r.us(0, 8), 1 => r.us(2040, 2056), 2 => r.us(4090, 4100), 3 => r.us(65530, 65540), _ => r.us(0, 300) };
        let cut = if r.chance(1, 10) { r.us(0, n) } else { 0 };
        let k = n - cut + if cut == 0 { r.us(0, 6) } else { 0 };
        let d = r.bytes(k);
        return cmp_body(&d, ty, n as u32, Src::pick_chunk(r), true);
    }
    // iteration, and single blocks with header
    let k = r.us(1, 5);
    let mut d = vec![];
    let mut early = false;
    for j in 0..k {
        let last = j + 1 == k || (r.chance(1, 10) && { early = true; true });
        let b = match r.below(8) { 0 => block(0, last, &info_bytes(r, true)), 1 => block(4, last, &vorbis_body(r)), 2 => block(r.pick(&[127, 0, 2]), last, &r.bytes(3)),
            3 if r.chance(1, 2) => { let n: u32 = 10 * 1024 * 1024 + r.us(1, 1000) as u32; let mut b = vec![r.pick(&[2u8, 4]) | if last { 0x80 } else { 0 }, (n >> 16) as u8, (n >> 8) as u8, n as u8]; if r.chance(1, 2) { b.extend_from_slice(&info_bytes(r, true)) } b }
            _ => other_block(r, last, false) };
        d.extend_from_slice(&b);
    }
    let _ = early;
    let n = r.us(0, 9);
    let mut t = r.bytes(n);
    d.append(&mut t);
    let input = || format!("metadata blocks {}", hex(&d));
    let mut p = 0;
    let mut want: Vec<o::R<o::Meta>> = vec![];
    loop {
        match o::meta_block(&d[p..]) { Ok((m, last, n)) => { want.push(Ok(m)); p += n; if last { break } } Err(e) => { want.push(Err(e)); break } }
    }
    if r.chance(1, 3) {
        let mut cur = BufferedReader::new(Src::new(d.clone(), Src::pick_chunk(r)));
        let a = out(guard(|| claxon::metadata::read_metadata_block_with_header(&mut cur).map(conv)));
        return if agree(&want[0], &a, true) { Ok(true) } else { fail(input(), &want[0], &a) };
    }
    let mut rd = BufferedReader::new(Src::new(d.clone(), Src::pick_chunk(r)));
    let mut got = vec![];
    let mut extra = 0;
    let ok = guard(|| {
        let mut it = MetadataBlockReader::new(&mut rd);
        for _ in 0..want.len() + 3 {
            let hint = it.size_hint();
            match it.next() {
                Some(x) => { if hint.1 == Some(0) { extra += 100 } got.push(out(Ok(x.map(conv)))) }
                None => { if hint.0 > 0 { extra += 100 } }
            }
        }
    });
    if let Err(x) = ok { return fail(input(), &want, &x) }
    let good = got.len() == want.len() && extra == 0 && want.iter().zip(&got).all(|(e, a)| agree(e, a, true));
    if !good { return fail(input(), &want, &got) }
    let all: Vec<Option<o::Meta>> = want.iter().map(|x| x.as_ref().ok().cloned()).collect();
    if let Err((w, e, a)) = iter_rest(r, &all, || MetadataBlockReader::new(BufferedReader::new(io::Cursor::new(&d))), &|x: Result<MetadataBlock, Error>| x.map(conv).ok()) { return fail(format!("{}: {}", input(), w), &e, &a) }
    if want.iter().all(|x| x.is_ok()) {
        let mut rest = vec![];
        while let Ok(Some(b)) = rd.read_u8_or_eof() { rest.push(b) }
        if rest != d[p..] { return fail(input(), &format!("{} bytes consumed", p), &format!("{} bytes left", rest.len())) }
    }
    Ok(true)
}
fn c19(r: &mut Rng, i: u64) -> Res {
    if i % 3 == 0 { let mut b = vorbis_body(r); let n = b.len() as u32; let mut x = r.bytes(5); b.append(&mut x); return cmp_body(&b, 4, n, Src::pick_chunk(r), true) }
    let vendor: Vec<u8> = if let Some(w) = r.word() { w } else { let n = if r.chance(1, 10) { r.us(2040, 2050) } else { r.us(0, 9) }; (0..n).map(|_| r.range(0x20, 0x7e) as u8).collect() };
    let k = r.us(0, 5);
    let mut cs: Vec<Vec<u8>> = (0..k).map(|_| if r.chance(1, 5) { vec![] } else { comment(r) }).collect();
    let mut vend = vendor.clone();
    let mut count = k as u32;
    let mut delta = 0i64;
    match r.below(10) {
        0 => count = (count as i64 + r.range(-2, 2)).max(0) as u32,
        1 => delta = r.range(-6, 6),
        2 if k > 0 => { let j = r.us(0, k - 1); let n = r.us(0, 5); cs[j] = (0..n).map(|_| r.range(0x21, 0x3c) as u8).collect() }
        3 if k > 0 => { let j = r.us(0, k - 1); if !cs[j].is_empty() { cs[j][0] = r.pick(&[0x1f, 0x7e, 0x7f, 0x80, 0xc3, 0, 0xff, b'=']) } }
        4 if k > 0 => { let j = r.us(0, k - 1); let b = r.pick(&[0x80u8, 0xff, 0xc3, 0xf5]); cs[j].push(b) }
        5 => { let b = r.pick(&[0x80u8, 0xff, 0xc3]); vend.push(b) }
        6 => count = r.pick(&[u32::MAX, 1 << 31, 1 << 20, 1000]),
        7 if k > 0 => { let j = r.us(0, k - 1); let at = r.us(0, cs[j].len()); let b = r.next() as u8; cs[j].insert(at, b) }
        _ => {}
    }
    let mut b = vorbis_raw(&vend, &cs, count);
    // a wrong length prefix somewhere
    if r.chance(1, 12) { let j = if r.chance(1, 2) { 0 } else { 8 + vend.len() }; if j + 4 <= b.len() { let v = r.pick(&[u32::MAX, 1 << 24, b.len() as u32, b.len() as u32 - 8, b.len() as u32 - 7, 0]); b[j..j + 4].copy_from_slice(&v.to_le_bytes()) } }
    let n = (b.len() as i64 + delta).max(0) as u32;
    let n = if r.chance(1, 24) { r.pick(&[0, 1, 7, 8, 9, o::LIMIT - 1, o::LIMIT, o::LIMIT + 1, o::LIMIT + 8, (1 << 24) - 1]) } else { n };
    let mut x = r.bytes(12);
    b.append(&mut x);
    cmp_body(&b, 4, n, Src::pick_chunk(r), true)
}
fn c20(r: &mut Rng, _i: u64) -> Res {
    let names = ["TRACK", "DISK", "track k", "ARTIST", "artist", "Artist", "TITLE", "", "a", "A", "ARTIS", "ARTISTS", "[", "{", "@", "`", "z", "Z", "A B", "x1", "X1"];
    let k = if r.chance(1, 60) { r.us(8, 90) } else { r.us(0, 7) };
    let cs: Vec<Vec<u8>> = (0..k).map(|_| if r.chance(1, 8) { vec![] } else { let mut c = if r.chance(1, 20) { let n = r.us(20, 300); let f = r.pick(&[b'a', b'Z', b'~' - 1, b'k']); (0..n).map(|q| f.wrapping_sub((q % 7) as u8)).filter(|x| *x != b'=').collect() } else if r.chance(2, 3) { r.pick(&names).as_bytes().to_vec() } else { let mut c = comment(r); let e = c.iter().position(|&x| x == b'=').unwrap(); c.truncate(e); c }; c.push(b'='); let t = comment(r); if r.chance(2, 3) { c.extend_from_slice(&t) } c }).collect();
    let vendor = r.word().filter(|w| std::str::from_utf8(w).is_ok()).unwrap_or(b"v".to_vec());
    let body = vorbis_raw(&vendor, &cs, k as u32);
    let mut d = b"fLaC".to_vec();
    let with = r.chance(7, 8);
    d.extend_from_slice(&block(0, !with, &info_bytes(r, true)));
    if with { d.extend_from_slice(&block(4, true, &body)) }
    let e = match o::open(&d, false, true) { Ok(x) => x, Err(x) => return fail(hex(&d), &"a stream that opens (generator)", &x) };
    let rd = match guard(|| FlacReader::new(io::Cursor::new(&d))) { Ok(Ok(x)) => x, Ok(Err(x)) => return fail(format!("stream {}", hex(&d)), &"opened", &x), Err(x) => return fail(format!("stream {}", hex(&d)), &"opened", &x) };
    let comments = e.vorbis.as_ref().map(|x| x.1.clone()).unwrap_or_default();
    let want: Vec<(String, String)> = comments.iter().map(|(s, i)| (s[..*i].to_string(), s[i + 1..].to_string())).collect();
    let input = || format!("tags of the stream {}", hex(&d));
    let got = guard(|| { let mut it = rd.tags(); let n = it.len(); let h = it.size_hint(); let mut v = vec![]; while let Some((a, b)) = it.next() { v.push((a.to_string(), b.to_string())); if it.len() + v.len() != n { return Err(n) } } if it.next().is_some() || h != (v.len(), Some(v.len())) { return Err(n) } Ok(v) });
    if got != Ok(Ok(want.clone())) { return fail(input(), &want, &got) }
    let k = r.us(0, want.len());
    let own = |x: Option<(&str, &str)>| x.map(|(a, b)| (a.to_string(), b.to_string()));
    let other = guard(|| { let mut n = rd.tags(); let x = own(n.nth(k)); (rd.tags().count(), own(rd.tags().last()), x, own(n.next())) });
    let w = (want.len(), want.last().cloned(), want.get(k).cloned(), want.get(k + 1).cloned());
    if other.as_ref().ok() != Some(&w) { return fail(format!("count, last, nth({}), {}", k, input()), &w, &other) }
    if let Err((w, e, a)) = iter_rest(r, &want, || rd.tags(), &|x: (&str, &str)| (x.0.to_string(), x.1.to_string())) { return fail(format!("{}: {}", input(), w), &e, &a) }
    let vend = guard(|| rd.vendor().map(|s| s.to_string()));
    let wv = e.vorbis.as_ref().map(|x| x.0.clone());
    if vend != Ok(wv.clone()) { return fail(input(), &wv, &vend) }
    let mut extra: Vec<String> = vec![];
    for _ in 0..8 {
        if let Some(w) = r.word() { if let Ok(w) = String::from_utf8(w) { extra.push(w) } }
        let mut needle: String = if r.chance(1, 2) && !want.is_empty() { let j = r.us(0, want.len() - 1); want[j].0.clone() } else { r.pick(&names).to_string() };
        if let Some(w) = extra.pop() { needle = w }
        match r.below(5) { 0 => needle = needle.to_uppercase(), 1 => needle = needle.to_lowercase(), 2 => needle.push('é'), 3 => { needle.pop(); } _ => {} }
        match r.below(24) {
            14 => if let Some(w) = r.word() { needle.push_str(&String::from_utf8_lossy(&w)) },
            0 => needle = needle.replace('k', "\u{212a}").replace('K', "\u{212a}"), 1 => needle = needle.replace('s', "\u{17f}").replace('S', "\u{17f}"), 2 => needle = needle.replace('i', "\u{130}").replace('I', "\u{131}"),
            3 => needle.insert(0, ' '), 4 => needle.push(' '), 5 => needle.push('='), 6 => needle = needle.trim().to_string(), 7 => needle.push('\0'), 8 => needle = needle.chars().map(|c| if c.is_ascii_alphabetic() && r.chance(1, 2) { (c as u8 ^ 0x20) as char } else { c }).collect(),
            9 if !needle.is_empty() => { let n = needle.len(); let mut b = needle.clone().into_bytes(); let at = r.us(0, n - 1); if b[at] < 0x80 { b[at] ^= 0x20; if let Ok(x) = String::from_utf8(b) { needle = x } } }
            10 => needle = needle.chars().rev().collect(), 11 => needle = needle.replace('I', "1").replace(' ', "_"), 12 => needle.clear(), 13 => needle = needle.chars().map(|c| if c.is_ascii() { char::from_u32(c as u32 + 0xfee0).unwrap_or(c) } else { c }).collect(),
            _ => {}
        }
        let eq = |a: &str, b: &str| a.len() == b.len() && a.bytes().zip(b.bytes()).all(|(x, y)| { let f = |c: u8| if (b'A'..=b'Z').contains(&c) { c + 32 } else { c }; f(x) == f(y) });
        let w: Vec<String> = want.iter().filter(|x| eq(&x.0, &needle)).map(|x| x.1.clone()).collect();
        let g = guard(|| { let mut it = rd.get_tag(&needle); let mut v: Vec<String> = vec![]; while let Some(x) = it.next() { v.push(x.to_string()); if v.len() > 100 { break } } if it.next().is_some() { v.push("more".into()) } v });
        if g != Ok(w.clone()) { return fail(format!("get_tag({:?}), {}", needle, input()), &w, &g) }
        let g = guard(|| { let h = rd.get_tag(&needle).size_hint(); (rd.get_tag(&needle).count(), rd.get_tag(&needle).last().map(|x| x.to_string()), rd.get_tag(&needle).nth(1).map(|x| x.to_string()), h.0 <= w.len() && h.1.map_or(true, |m| m >= w.len())) });
        let e = (w.len(), w.last().cloned(), w.get(1).cloned(), true);
        if g.as_ref().ok() != Some(&e) { return fail(format!("get_tag({:?}): count, last, nth(1), size_hint, {}", needle, input()), &e, &g) }
        if let Err((what, e, a)) = iter_rest(r, &w, || rd.get_tag(&needle), &|x: &str| x.to_string()) { return fail(format!("get_tag({:?}), {}: {}", needle, input(), what), &e, &a) }
    }
    Ok(!want.is_empty())
}

// ------------------------------------------------------------------ C21
fn c21(r: &mut Rng, _i: u64) -> Res {
    let mut d = match r.below(14) { 0 => { let v = r.next() as u8; vec![b'I', b'D', b'3', v] } 2 => { let mut m = b"ID3\x03".to_vec(); let k = r.us(0, 2); m[k] = m[k].wrapping_add(r.pick(&[1u8, 255, 0x20, 0x80])); m } 3 => match r.below(4) { 0 => vec![0; 4], 1 => r.bytes(4), 2 => b"OggS".to_vec(), _ => { let n = r.us(0, 4); match r.word() { Some(w) => w.into_iter().take(4).collect(), None => r.bytes(n) } } }, 1 => { let mut m = b"fLaC".to_vec(); let k = r.us(0, 3); m[k] ^= 1 << r.below(8); m } _ => b"fLaC".to_vec() };
    let k = r.us(1, 5);
    let marks = r.below(2) == 0;
    for j in 0..k {
        let last = if marks { j + 1 == k } else { r.chance(1, 4) };
        let again = d.len() >= 42 && d[4] & 0x7f == 0;
        let b = if j == 0 && !r.chance(1, 12) { block(0, last, &info_bytes(r, true)) } else { match r.below(10) { 0 => block(0, last, &info_bytes(r, true)), 9 if again => { let mut x = d[8..42].to_vec(); for _ in 0..r.us(0, 2) { let k = r.us(0, 33); x[k] ^= 1 << r.below(8) } block(0, last, &x) } 1..=3 => block(4, last, &vorbis_body(r)), 4 if r.chance(1, 3) => block(127, last, &r.bytes(4)), _ => other_block(r, last, false) } };
        d.extend_from_slice(&b);
    }
    let nf = r.us(0, 2);
    let mut frames = vec![];
    for _ in 0..nf { let bs = r.us(1, 6); let f = frame(r, bs); frames.extend_from_slice(&f) }
    d.extend_from_slice(&frames);
    let opts = FlacReaderOptions { metadata_only: r.chance(1, 2), read_vorbis_comment: r.chance(1, 2) };
    let default = opts == FlacReaderOptions::default();
    let e = o::open(&d, opts.metadata_only, opts.read_vorbis_comment);
    let input = || format!("stream {}, options {:?}", hex(&d), opts);
    // one byte per read call: the amount of data fetched shows where reading stopped
    let shared = std::rc::Rc::new(std::cell::Cell::new(0usize));
    struct OneByte<'a>(&'a [u8], std::rc::Rc<std::cell::Cell<usize>>);
    impl<'a> io::Read for OneByte<'a> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let p = self.1.get(); if p < self.0.len() && !b.is_empty() { b[0] = self.0[p]; self.1.set(p + 1); Ok(1) } else { Ok(0) } } }
    let rd = guard(|| if default && d.len() % 2 == 0 { FlacReader::new(OneByte(&d, shared.clone())) } else { FlacReader::new_ext(OneByte(&d, shared.clone()), opts) });
    if let Ok(Err(claxon::Error::FormatError(m))) = &rd {
        let told = m.contains("ID3");
        let id3 = d.starts_with(b"ID3") && d.len() >= 4;
        if told != id3 { return fail(input(), &(if id3 { "a message about the ID3 tag" } else { "no message about an ID3 tag" }), m) }
    }
    let mut rd = match (out(rd), &e) {
        (Out::Ok(rd), Ok(_)) => rd,
        (Out::Ok(_), Err(x)) => return fail(input(), x, &"opened"),
        (a, Err(E::Fmt)) if matches!(a, Out::Fmt) => return Ok(true),
        (a, Err(E::Eof)) if matches!(a, Out::Io(io::ErrorKind::UnexpectedEof, _)) => return Ok(true),
        (a, e) => { let a = match a { Out::Ok(_) => Out::Ok(()), Out::Io(k, m) => Out::Io(k, m), Out::Fmt => Out::Fmt, Out::Uns => Out::Uns, Out::Panic(p) => Out::Panic(p) }; return fail(input(), e, &a) }
    };
    let e = e.unwrap();
    let i = rd.streaminfo();
    let oi = match conv(MetadataBlock::StreamInfo(i)) { o::Meta::Info(x) => x, _ => unreachable!() };
    if oi != e.info { return fail(input(), &e.info, &oi) }
    if shared.get() != e.pos { return fail(input(), &format!("{} bytes read", e.pos), &format!("{} bytes read", shared.get())) }
    let vend = rd.vendor().map(|s| s.to_string());
    if vend != e.vorbis.as_ref().map(|v| v.0.clone()) { return fail(input(), &e.vorbis, &vend) }
    let tags = guard(|| rd.tags().map(|(a, b)| format!("{}={}", a, b)).collect::<Vec<_>>());
    let wt: Vec<String> = e.vorbis.as_ref().map(|v| v.1.iter().map(|x| x.0.clone()).collect()).unwrap_or_default();
    if tags != Ok(wt.clone()) { return fail(input(), &wt, &tags) }
    if opts.metadata_only {
        if guard(|| rd.blocks().read_next_or_eof(vec![]).is_ok()).is_ok() { return fail(input(), &"blocks() refused (panic, as documented)", &"allowed") }
        if guard(|| rd.samples().next().is_none()).is_ok() { return fail(input(), &"samples() refused (panic, as documented)", &"allowed") }
        if guard(|| rd.into_samples().next().is_none()).is_ok() { return fail(input(), &"into_samples() refused (panic, as documented)", &"allowed") }
        return Ok(true);
    }
    // audio starts at the first byte after the metadata
    let want = oracle_frame(&d[e.pos..]);
    let got = out(guard(|| rd.blocks().read_next_or_eof(vec![]).map(|x| x.map(|b| of_block(&b)))));
    if !agree(&want, &got, true) { return fail(input(), &want, &got) }
    Ok(true)
}

// ------------------------------------------------------------------ C22
fn c22(r: &mut Rng, i: u64) -> Res {
    // huge announcements, little data
    let mb = 1u32 << 20;
    let (ty, len, body): (u8, u32, Vec<u8>) = match i % 7 {
        6 => {
            // a few small comments in a block that announces much more
            let n = r.us(0, 60);
            let cs: Vec<Vec<u8>> = (0..n).map(|_| if r.chance(1, 3) { vec![] } else { comment(r) }).collect();
            (4, r.pick(&[o::LIMIT, mb, 5 * mb, o::LIMIT - 1]), vorbis_raw(&r.bytes(3).iter().map(|x| x & 0x7f).collect::<Vec<_>>(), &cs, r.pick(&[n as u32, n as u32 + 1, 1000])))
        }
        0 => (2, r.pick(&[o::LIMIT + 1, o::LIMIT, 4, (1 << 24) - 1, 11 * mb, o::LIMIT - 1]), r.bytes(20)),
        1 => (4, r.pick(&[o::LIMIT + 1, (1 << 24) - 1, 16 * mb - 1]), vorbis_body(r)),
        2 => {
            // vendor length against the block
            let len = r.pick(&[8u32, 40, 100, 1000, mb]);
            let v = r.pick(&[len - 8, len - 7, len, u32::MAX, mb * 9, len.wrapping_sub(9)]);
            let mut b = v.to_le_bytes().to_vec();
            let n = r.us(0, 1200); b.extend(std::iter::repeat(b'v').take(n));
            (4, len, b)
        }
        3 => {
            // number of comments against the block
            let len = r.pick(&[8u32, 40, 100, 1000, 60000]);
            let mut b = vorbis_raw(b"", &[], r.pick(&[len / 4, len / 4 - 1, len, u32::MAX, 1 << 28, 100_000]));
            let n = r.us(0, 80); b.extend(std::iter::repeat(0).take(n));
            (4, len, b)
        }
        4 => {
            let len = r.pick(&[30u32, 100, 1000]);
            let mut b = vorbis_raw(b"", &[], 2);
            let left = len - 8;
            b.extend_from_slice(&r.pick(&[left - 4, left - 3, left, u32::MAX, 1 << 30, 5 * mb]).to_le_bytes());
            let n = r.us(0, 1200); b.extend(std::iter::repeat(b'=').take(n));
            (4, len, b)
        }
        _ => { let k = r.below(24); let top = (1u32 << 24) - 1; (r.pick(&[1u8, 3, 5, 6, 9]), if r.chance(1, 2) { r.pick(&[top, 12 * mb, 100, mb, 1 << 16]) } else { match r.hint() { Some(v) if v >= 0 && v <= top as i64 => v as u32, _ => top >> k } }, r.bytes(50)) }
    };
    let via = r.below(3);
    let stream = {
        let mut d = vec![];
        if via == 2 { d.extend_from_slice(b"fLaC"); d.extend_from_slice(&block(0, false, &info_bytes(r, true))) }
        if via >= 1 { d.push(ty | 0x80); d.extend_from_slice(&len.to_be_bytes()[1..]) }
        d.extend_from_slice(&body);
        d
    };
    let len24 = if via >= 1 { len & 0xff_ffff } else { len };
    crate::alloc_reset();
    let a = out(guard(|| match via {
        0 => claxon::metadata::read_metadata_block(&mut io::Cursor::new(&stream), ty, len).map(|_| ()),
        1 => claxon::metadata::read_metadata_block_with_header(&mut io::Cursor::new(&stream)).map(|_| ()),
        _ => FlacReader::new(io::Cursor::new(&stream)).map(|_| ()),
    }));
    let peak = crate::alloc_peak();
    let input = || format!("metadata block of type {} announcing {} bytes, through {}, bytes {}", ty, len24, ["read_metadata_block", "read_metadata_block_with_header", "FlacReader::new"][via as usize], hex(&stream));
    if matches!(a, Out::Panic(_)) { return fail(input(), &"a value or an error", &a) }
    // a comment entry takes 32 bytes of memory for 4 bytes of block; strings take their length
    // (the reader FlacReader makes for itself has a buffer of its own)
    let slack: usize = if via == 2 { 1 << 17 } else { 16384 };
    let bound = 16 * (len24 as usize).min(o::LIMIT as usize) + slack;
    if peak > bound { return fail(input(), &format!("at most {} bytes set aside", bound), &format!("{} bytes", peak)) }
    if (ty == 2 || ty == 4) && len24 > o::LIMIT {
        if a != Out::Uns { return fail(input(), &"unsupported", &a) }
        if peak > slack { return fail(input(), &"nothing set aside", &format!("{} bytes", peak)) }
    }
    if ty == 4 {
        if let Err(E::Fmt) = o::meta_body(&body, ty, len24) {
            // rejected lengths and counts must not have been allocated for
            let room = 16 * stream.len() + slack;
            if len24 as usize <= 1 << 16 && i % 6 >= 2 && peak > room.max(16 * len24 as usize + slack) { return fail(input(), &format!("at most {} bytes", room), &peak) }
        }
    }
    if ty == 1 || ty >= 3 && ty != 4 { if peak > slack { return fail(input(), &"skipped blocks are not kept in memory", &peak) } }
    Ok(true)
}

// ------------------------------------------------------------------ C01
fn drive(d: Vec<u8>, r: &mut Rng) -> Result<(), String> {
    let mut src = Src::new(d.clone(), Src::pick_chunk(r));
    if r.chance(1, 3) { let n = d.len(); let mut p: Vec<usize> = (0..r.us(1, 3)).map(|_| r.us(0, n)).collect(); p.sort(); src.faults = p.into_iter().map(|x| (x, kind(r))).collect() }
    if r.chance(1, 8) { src.lie_at = Some(r.us(1, 9)) }
    let opts = FlacReaderOptions { metadata_only: false, read_vorbis_comment: r.chance(3, 4) };
    let how = r.below(5);
    let lim = d.len() + 50;
    let res = guard(|| -> Result<(), String> {
        match how {
            0 | 1 => {
                let mut rd = match FlacReader::new_ext(src, opts) { Ok(x) => x, Err(_) => return Ok(()) };
                for (a, b) in rd.tags() { let _ = a.len() + b.len(); }
                for v in rd.get_tag("ARTIST") { let _ = v.len(); }
                let _ = rd.vendor();
                if how == 0 {
                    let mut buf = vec![];
                    let mut n = 0;
                    loop {
                        match rd.blocks().read_next_or_eof(buf) {
                            Ok(Some(b)) => {
                                for c in 0..b.channels() { let _ = b.channel(c).len(); }
                                if b.channels() == 2 { for (x, y) in b.stereo_samples() { let _ = x ^ y; } }
                                let _ = (b.time(), b.len(), b.sample(0, 0));
                                buf = b.into_buffer();
                            }
                            // frames may be asked for again after an error; nothing may break
                            Err(_) => { buf = vec![1, 2, 3]; if n % 3 == 2 { break } }
                            Ok(None) => break,
                        }
                        n += 1;
                        if n > lim { return Err("more frames than bytes".into()) }
                    }
                } else {
                    let mut errs = 0;
                    let mut n = 0u64;
                    let mut it = rd.samples();
                    loop { match it.next() { None => break, Some(Err(_)) => { errs += 1; if errs > 1 { return Err("second error".into()) } } Some(Ok(_)) => {} } n += 1; if n > 70000 * 8 * 20 { return Err("no end of samples".into()) } }
                    let _ = it.next();
                    let _ = it.next();
                }
            }
            2 => { let mut fr = FrameReader::new(BufferedReader::new(src)); for _ in 0..6 { let _ = fr.read_next_or_eof(vec![]); } }
            3 => { let mut br = BufferedReader::new(src); let mut it = MetadataBlockReader::new(&mut br); let mut n = 0; while let Some(_) = it.next() { n += 1; if n > lim { return Err("more blocks than bytes".into()) } } }
            _ => { let mut c = io::Cursor::new(&d); c.set_position(if r.chance(1, 4) { r.next() } else { 0 }); for _ in 0..4 { let _ = claxon::metadata::read_metadata_block_with_header(&mut c); } let _ = FrameReader::new(&mut c).read_next_or_eof(vec![7; 9]); }
        }
        Ok(())
    });
    match res { Ok(Ok(())) => Ok(()), Ok(Err(e)) => Err(e), Err(p) => Err(p) }
}
fn fix_frame_crcs(f: &mut Vec<u8>) {
    // a best effort to get damaged frames past the checksums
    let mut b = o::Bits::new(f);
    let x = (|| -> o::R<usize> { b.get(16)?; let x = b.get(8)?; b.get(8)?; o::coded_number(&mut b)?; if x >> 4 == 6 { b.get(8)?; } if x >> 4 == 7 { b.get(16)?; } if x & 15 == 12 { b.get(8)?; } if x & 15 == 13 || x & 15 == 14 { b.get(16)?; } Ok(b.p / 8) })();
    if let Ok(n) = x { if n < f.len() { f[n] = o::crc8(&f[..n]) } }
    if f.len() > 2 { fix16(f) }
}
fn c01(r: &mut Rng, i: u64) -> Res {
    let raw = i % 7 == 6;
    let mut d = if raw { let n = r.us(0, 300); r.bytes(n) } else { let v = r.chance(1, 2); stream_head(r, v) };
    let head = d.len();
    let nf = r.us(0, 3);
    for _ in 0..nf {
        let bs = block_size(r);
        let mut f = frame(r, bs);
        match r.below(6) {
            0 => { let k = r.us(1, 4); for _ in 0..k { let n = f.len(); let p = r.us(0, n - 1); f[p] ^= 1 << r.below(8) } fix_frame_crcs(&mut f) }
            1 => { let n = f.len(); let p = r.us(4.min(n - 1), n - 1); for q in f[p..].iter_mut() { *q = 0 } fix_frame_crcs(&mut f) }
            2 => { let n = f.len(); let p = r.us(0, n - 1); f[p] = r.pick(&[0, 255, 127, 128, 1]); fix_frame_crcs(&mut f) }
            3 => { let n = f.len(); let p = r.us(6.min(n - 1), n - 1); for q in f[p..].iter_mut() { *q = r.0 as u8; r.next(); } fix_frame_crcs(&mut f) }
            _ => {}
        }
        d.extend_from_slice(&f);
    }
    match r.below(6) {
        0 if d.len() > 0 => { let n = d.len(); d.truncate(r.us(0, n)) }
        1 if d.len() > 0 => { for _ in 0..r.us(1, 5) { let p = r.us(0, d.len() - 1); d[p] = r.next() as u8 } }
        2 if head > 8 => { let p = r.us(4, head.min(d.len()) - 1); d[p] = r.pick(&[0, 255, 1, 128, 127]) }
        _ => {}
    }
    if i % 5 == 4 {
        // a subframe on its own, arbitrary bits
        let bps = 1 + r.below(32) as u32;
        let bs = r.us(1, 60);
        let mut w = BitW::new();
        put_subframe(r, &mut w, bps, bs, SfOpt::default());
        let mut s = w.bytes;
        for _ in 0..r.us(0, 4) { let p = r.us(0, s.len() - 1); s[p] ^= 1 << r.below(8) }
        if r.chance(1, 4) { let n = s.len(); let p = r.us(0, n); s.truncate(p) }
        let a = real_subframe(&s, bps, bs, 0);
        return if matches!(a, Out::Panic(_)) { fail(format!("subframe::decode with {} bits per sample, block of {}, bytes {}", bps, bs, hex(&s)), &"a value or an error", &a) } else { Ok(true) };
    }
    let mut r2 = Rng::new(r.next());
    let seed = r2.0;
    match drive(d.clone(), &mut r2) { Ok(()) => Ok(true), Err(e) => fail(format!("stream {} (reader drawn from {})", hex(&d), seed), &"a value or an error", &e) }
}

pub fn run(prop: &str, r: &mut Rng, i: u64) -> Res {
    match prop {
        "C01" => match i % 16 {
            // the other searches' inputs are inputs too; here only failures that are panics count
            15 => { let p = ["C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16", "C17", "C18", "C19", "C20", "C22"][(i / 16 % 18) as usize];
                match run(p, r, i / 16) { Err(f) if f.actual.contains("panicked: ") => Err(f), _ => Ok(true) } }
            _ => c01(r, i),
        },
        "C02" => c02(r, i),
        "C03" => c03(r, i),
        "C04" => c04(r, i),
        "C05" => c05(r, i),
        "C06" => c06(r, i),
        "C07" => c07(r, i),
        "C08" => c08(r, i),
        "C09" => c09(r, i),
        "C10" => c10(r, i),
        "C11" => c11(r, i),
        "C12" => c12(r, i),
        "C13" => c13(r, i),
        "C14" => c14(r, i),
        "C15" => c15(r, i),
        "C16" => c16(r, i),
        "C17" => c17(r, i),
        "C18" => c18(r, i),
        "C19" => c19(r, i),
        "C20" => c20(r, i),
        "C21" => c21(r, i),
        "C22" => c22(r, i),
        _ => panic!("unknown property"),
    }
}
#[allow(dead_code)]
fn unused() { let _ = gen::unzigzag(0); }

// ------------------------------------------------------------------ known findings
/// True if the finding is still present in the real code.
pub fn finding(id: &str) -> bool {
    match id {
        "F7" => {
            // fixed-blocksize stream: frames 0 and 1 of 4096 samples, frame 2 (the last) of 100
            let mut bytes = vec![];
            for (n, bs) in [(0u64, 4096usize), (1, 4096), (2, 100)] {
                let h = Head { variable: false, bsc: if bs == 4096 { 12 } else { 6 }, bs, src: 9, rate: 0, chan: 0, bpc: 1, number: n, nlen: 1 };
                let mut w = BitW::new();
                for b in put_head(&h) { w.put(b as u64, 8) }
                sf_head(&mut w, 0, 0);
                w.put(0, 8);
                bytes.extend_from_slice(&finish(w));
            }
            let mut fr = FrameReader::new(io::Cursor::new(bytes));
            let mut last = None;
            while let Ok(Some(b)) = fr.read_next_or_eof(Vec::new()) { last = Some(b.time()) }
            last != Some(8192)
        }
        _ => false,
    }
}
