// Frames: header, stereo decorrelation, checksums, blocks; in terms of the bytes of the stream.

/// Outcome of a parser of bytes: a value and the number of bytes it took, or the way it fails.
pub enum Q<T> { Ok(T, int), End, Eof, Fmt, Uns, Big }

pub open spec fn qe<T, U>(q: Q<T>) -> Q<U> {
    match q { Q::End => Q::End, Q::Eof => Q::Eof, Q::Fmt => Q::Fmt, Q::Uns => Q::Uns, _ => Q::Big }
}
pub open spec fn pq<T, U>(p: P<T>) -> Q<U> {
    match p { P::Eof => Q::Eof, P::Fmt => Q::Fmt, P::Uns => Q::Uns, _ => Q::Big }
}

/// The error `e` is justified by the outcome `q` of the specification.
pub open spec fn qerr<R: Source, T>(o: R, q: Q<T>, e: Error) -> bool {
    match e {
        Error::IoError(x) => io_fail(o, q is Eof, x) || q is Big,
        Error::FormatError(_) => q is Fmt,
        Error::Unsupported(_) => q is Uns,
    }
}

// ---------------------------------------------------------------- coded numbers

/// The number of leading one bits of a byte.
pub open spec fn lead1(b: u8) -> int {
    if b < 0x80 { 0 } else if b < 0xc0 { 1 } else if b < 0xe0 { 2 } else if b < 0xf0 { 3 } else if b < 0xf8 { 4 }
    else if b < 0xfc { 5 } else if b < 0xfe { 6 } else if b < 0xff { 7 } else { 8 }
}

/// 64^k
pub open spec fn p64(k: int) -> nat {
    if k <= 0 { 1 } else if k == 1 { 0x40 } else if k == 2 { 0x1000 } else if k == 3 { 0x4_0000 } else if k == 4 { 0x100_0000 }
    else if k == 5 { 0x4000_0000 } else { 0x10_0000_0000 }
}

/// The number that starts with the first byte of s, with j continuation bytes read. Every continuation byte
/// is 10xxxxxx and contributes six bits.
pub open spec fn coded(s: Seq<u8>, v0: nat, j: int) -> Q<nat>
    decreases j
{
    if j <= 0 { Q::Ok(v0, 1) } else {
        match coded(s, v0, j - 1) {
            Q::Ok(v, k) => if s.len() <= k { Q::Eof } else if s[k] / 64 != 2 { Q::Fmt } else { Q::Ok((v * 64 + s[k] % 64) as nat, k + 1) },
            e => e,
        }
    }
}

/// The payload bits of the first byte.
pub open spec fn coded_first(b: u8) -> nat {
    let n = lead1(b);
    if n == 0 { b as nat } else if n == 2 { (b % 0x20) as nat } else if n == 3 { (b % 0x10) as nat } else if n == 4 { (b % 8) as nat }
    else if n == 5 { (b % 4) as nat } else if n == 6 { (b % 2) as nat } else { 0 }
}

/// A number of up to 36 bits in one to seven bytes.
pub open spec fn q_coded(s: Seq<u8>) -> Q<nat> {
    if s.len() == 0 { Q::Eof }
    else {
        let n = lead1(s[0]);
        if n == 1 || n == 8 { Q::Fmt } else { coded(s, coded_first(s[0]), if n == 0 { 0 } else { n - 1 }) }
    }
}

pub proof fn lemma_coded_mono(s: Seq<u8>, v0: nat, i: int, j: int)
    requires 0 <= i <= j, !(coded(s, v0, i) is Ok)
    ensures coded(s, v0, j) == coded(s, v0, i)
    decreases j
{
    if j > i { lemma_coded_mono(s, v0, i, j - 1); }
}

pub proof fn lemma_coded_len(s: Seq<u8>, v0: nat, j: int)
    requires 0 <= j, coded(s, v0, j) is Ok
    ensures coded(s, v0, j)->Ok_1 == j + 1
    decreases j
{
    if j > 0 { lemma_coded_len(s, v0, j - 1); }
}

/// The encoder's view: bytes that carry the six-bit digits d of a number decode to the number.
pub open spec fn digits64(v0: nat, d: Seq<nat>) -> nat
    decreases d.len()
{
    if d.len() == 0 { v0 } else { digits64(v0, d.drop_last()) * 64 + d.last() }
}
pub proof fn lemma_coded_inverse(s: Seq<u8>, v0: nat, d: Seq<nat>)
    requires s.len() >= d.len() + 1, forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] < 64 && s[i + 1] == 128 + d[i]
    ensures coded(s, v0, d.len() as int) == Q::Ok(digits64(v0, d), d.len() as int + 1)
    decreases d.len()
{
    if d.len() > 0 {
        let e = d.drop_last();
        assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] < 64 && s[i + 1] == 128 + e[i] by { assert(d[i] == e[i]); }
        lemma_coded_inverse(s, v0, e);
        let l = d[d.len() - 1];
        assert(s[d.len() as int] == 128 + l);
    }
}

pub proof fn lemma_lead1_step(first: u8, mask: u8, n: u8)
    requires n < 8, mask == 0x80u8 >> n
    ensures
        lead1(first) >= n && first & mask != 0 ==> lead1(first) >= n + 1,
        lead1(first) >= n && first & mask == 0 ==> lead1(first) == n,
{
    assert(first >= 0x80 <==> first & 0x80 != 0) by(bit_vector);
    assert(first >= 0xc0 <==> first & 0x80 != 0 && first & 0x40 != 0) by(bit_vector);
    assert(first >= 0xe0 <==> first >= 0xc0 && first & 0x20 != 0) by(bit_vector);
    assert(first >= 0xf0 <==> first >= 0xe0 && first & 0x10 != 0) by(bit_vector);
    assert(first >= 0xf8 <==> first >= 0xf0 && first & 0x08 != 0) by(bit_vector);
    assert(first >= 0xfc <==> first >= 0xf8 && first & 0x04 != 0) by(bit_vector);
    assert(first >= 0xfe <==> first >= 0xfc && first & 0x02 != 0) by(bit_vector);
    assert(first >= 0xff <==> first >= 0xfe && first & 0x01 != 0) by(bit_vector);
    assert(0x80u8 >> 0u8 == 0x80 && 0x80u8 >> 1u8 == 0x40 && 0x80u8 >> 2u8 == 0x20 && 0x80u8 >> 3u8 == 0x10
        && 0x80u8 >> 4u8 == 8 && 0x80u8 >> 5u8 == 4 && 0x80u8 >> 6u8 == 2 && 0x80u8 >> 7u8 == 1) by(bit_vector);
}

/// The masks of read_var_length_int, one step further.
pub proof fn lemma_masks(n: u8)
    requires n < 8
    ensures
        (0x80u8 >> n) >> 1 == (if n < 7 { 0x80u8 >> ((n + 1) as u8) } else { 0 }),
        (0x7fu8 >> n) >> 1 == (if n < 7 { 0x7fu8 >> ((n + 1) as u8) } else { 0 }),
        0x80u8 >> n != 0,
{
    let m = (n + 1) as u8;
    if n < 7 {
        assert((0x80u8 >> n) >> 1 == 0x80u8 >> m && (0x7fu8 >> n) >> 1 == 0x7fu8 >> m) by(bit_vector) requires n < 7, m == add(n, 1);
    } else {
        assert((0x80u8 >> n) >> 1 == 0 && (0x7fu8 >> n) >> 1 == 0) by(bit_vector) requires n == 7;
    }
    assert(0x80u8 >> n != 0) by(bit_vector) requires n < 8;
}

pub proof fn lemma_coded_first(first: u8, n: u8, mask: u8)
    requires lead1(first) == n, n <= 7, n != 1, mask == 0x7fu8 >> n
    ensures (first & mask) == coded_first(first)
{
    assert(first & 0x7f == first % 0x80 && first & 0x1f == first % 0x20 && first & 0xf == first % 0x10 && first & 7 == first % 8
        && first & 3 == first % 4 && first & 1 == first % 2 && first & 0 == 0) by(bit_vector);
    assert(0x7fu8 >> 0u8 == 0x7f && 0x7fu8 >> 2u8 == 0x1f && 0x7fu8 >> 3u8 == 0xf && 0x7fu8 >> 4u8 == 7
        && 0x7fu8 >> 5u8 == 3 && 0x7fu8 >> 6u8 == 1 && 0x7fu8 >> 7u8 == 0) by(bit_vector);
}

pub proof fn lemma_coded_start(v: u64, m: u8)
    requires m <= 6, v < (if m == 0 { 0x80 } else if m == 1 { 0x20 } else if m == 2 { 0x10 } else if m == 3 { 8 } else if m == 4 { 4 } else if m == 5 { 2 } else { 1int })
    ensures
        (v << ((6 * m) as u8)) == v * p64(m as int),
        (v << ((6 * m) as u8)) < 0x10_0000_0000,
{
    if m == 0 { assert(v << 0u8 == v) by(bit_vector); }
    if m == 1 { assert(v < 0x20 ==> v << 6u8 == mul(v, 0x40) && v << 6u8 < 0x10_0000_0000) by(bit_vector); assert(v * 0x40 < 0x1000); }
    if m == 2 { assert(v < 0x10 ==> v << 12u8 == mul(v, 0x1000) && v << 12u8 < 0x10_0000_0000) by(bit_vector); assert(v * 0x1000 < 0x10_0000); }
    if m == 3 { assert(v < 8 ==> v << 18u8 == mul(v, 0x4_0000) && v << 18u8 < 0x10_0000_0000) by(bit_vector); assert(v * 0x4_0000 < 0x1000_0000); }
    if m == 4 { assert(v < 4 ==> v << 24u8 == mul(v, 0x100_0000) && v << 24u8 < 0x10_0000_0000) by(bit_vector); assert(v * 0x100_0000 < 0x1000_0000); }
    if m == 5 { assert(v < 2 ==> v << 30u8 == mul(v, 0x4000_0000) && v << 30u8 < 0x10_0000_0000) by(bit_vector); assert(v * 0x4000_0000 < 0x10_0000_0000); }
    if m == 6 { assert(v == 0 ==> v << 36u8 == 0) by(bit_vector); }
}

pub proof fn lemma_coded_join(r: u64, byte: u8, i: int, v: nat)
    requires 0 <= i <= 5, r == v * p64(i + 1), r < 0x10_0000_0000
    ensures
        r | (((byte & 0b0011_1111) as u64) << ((6 * i) as usize)) == (v * 64 + byte % 64) * p64(i),
        r | (((byte & 0b0011_1111) as u64) << ((6 * i) as usize)) < 0x10_0000_0000,
{
    let b = (byte & 0b0011_1111) as u64;
    assert(b < 64 && b == (byte % 64) as u64) by(bit_vector) requires b == (byte & 0b0011_1111) as u64;
    let w = v as u64;
    if i == 0 {
        assert(r == v * 64);
        assert(r | (b << 0usize) == add(r, b) && r | (b << 0usize) < 0x10_0000_0000) by(bit_vector) requires b < 64, r == mul(w, 64), w < 0x4000_0000;
        assert((v * 64 + b) * 1 == v * 64 + b);
    }
    if i == 1 {
        assert(r == v * 0x1000);
        assert(r | (b << 6usize) == add(r, mul(b, 0x40)) && r | (b << 6usize) < 0x10_0000_0000) by(bit_vector) requires b < 64, r == mul(w, 0x1000), w < 0x100_0000;
        assert((v * 64 + b) * 0x40 == v * 0x1000 + b * 0x40) by(nonlinear_arith);
    }
    if i == 2 {
        assert(r == v * 0x4_0000);
        assert(r | (b << 12usize) == add(r, mul(b, 0x1000)) && r | (b << 12usize) < 0x10_0000_0000) by(bit_vector) requires b < 64, r == mul(w, 0x4_0000), w < 0x4_0000;
        assert((v * 64 + b) * 0x1000 == v * 0x4_0000 + b * 0x1000) by(nonlinear_arith);
    }
    if i == 3 {
        assert(r == v * 0x100_0000);
        assert(r | (b << 18usize) == add(r, mul(b, 0x4_0000)) && r | (b << 18usize) < 0x10_0000_0000) by(bit_vector) requires b < 64, r == mul(w, 0x100_0000), w < 0x1000;
        assert((v * 64 + b) * 0x4_0000 == v * 0x100_0000 + b * 0x4_0000) by(nonlinear_arith);
    }
    if i == 4 {
        assert(r == v * 0x4000_0000);
        assert(r | (b << 24usize) == add(r, mul(b, 0x100_0000)) && r | (b << 24usize) < 0x10_0000_0000) by(bit_vector) requires b < 64, r == mul(w, 0x4000_0000), w < 0x40;
        assert((v * 64 + b) * 0x100_0000 == v * 0x4000_0000 + b * 0x100_0000) by(nonlinear_arith);
    }
    if i == 5 {
        assert(r == v * 0x10_0000_0000);
        assert(v == 0);
        assert(r | (b << 30usize) == add(r, mul(b, 0x4000_0000)) && r | (b << 30usize) < 0x10_0000_0000) by(bit_vector) requires b < 64, r == 0;
        assert((v * 64 + b) * 0x4000_0000 == b * 0x4000_0000);
    }
}

// ---------------------------------------------------------------- frame headers

pub struct Hdr {
    /// The coded number is a frame number (fixed block size) instead of a sample number.
    pub fixed: bool,
    pub num: nat,
    pub bs: nat,
    pub sr: Option<nat>,
    /// Channel assignment: the number of independent channels minus one, or 8, 9, 10.
    pub chan: nat,
    pub bps: Option<nat>,
}

/// Block size for the codes that stand for one.
pub open spec fn bs_code(c: int) -> nat {
    if c == 1 { 192 } else if c == 2 { 576 } else if c == 3 { 1152 } else if c == 4 { 2304 } else if c == 5 { 4608 }
    else if c == 8 { 256 } else if c == 9 { 512 } else if c == 10 { 1024 } else if c == 11 { 2048 } else if c == 12 { 4096 }
    else if c == 13 { 8192 } else if c == 14 { 16384 } else { 32768 }
}
/// Sample rate for the codes that stand for one (0: not given here).
pub open spec fn sr_code(c: int) -> Option<nat> {
    if c == 1 { Some(88200nat) } else if c == 2 { Some(176400nat) } else if c == 3 { Some(192000nat) } else if c == 4 { Some(8000nat) }
    else if c == 5 { Some(16000nat) } else if c == 6 { Some(22050nat) } else if c == 7 { Some(24000nat) } else if c == 8 { Some(32000nat) }
    else if c == 9 { Some(44100nat) } else if c == 10 { Some(48000nat) } else if c == 11 { Some(96000nat) } else { None }
}
/// Sample size for the codes that stand for one (0: not given here).
pub open spec fn bps_code(c: int) -> Option<nat> {
    if c == 1 { Some(8nat) } else if c == 2 { Some(12nat) } else if c == 4 { Some(16nat) } else if c == 5 { Some(20nat) } else if c == 6 { Some(24nat) } else { None }
}

/// The explicit block size after the coded number, at offset k.
pub open spec fn q_bs(s: Seq<u8>, k: int, c: int) -> Q<nat> {
    if c == 6 { if s.len() < k + 1 { Q::Eof } else { Q::Ok((s[k] + 1) as nat, k + 1) } }
    else if c == 7 {
        if s.len() < k + 2 { Q::Eof } else {
            let x = be16(s.skip(k));
            if x == 0xffff { Q::Fmt } else { Q::Ok((x + 1) as nat, k + 2) }
        }
    }
    else { Q::Ok(bs_code(c), k) }
}
/// The explicit sample rate after that, at offset k.
pub open spec fn q_sr(s: Seq<u8>, k: int, c: int) -> Q<Option<nat>> {
    if c == 12 { if s.len() < k + 1 { Q::Eof } else { Q::Ok(Some(s[k] as nat), k + 1) } }
    else if c == 13 { if s.len() < k + 2 { Q::Eof } else { Q::Ok(Some(be16(s.skip(k)) as nat), k + 2) } }
    else if c == 14 { if s.len() < k + 2 { Q::Eof } else { Q::Ok(Some((be16(s.skip(k)) * 10) as nat), k + 2) } }
    else { Q::Ok(sr_code(c), k) }
}

/// The fixed-size part of the header is well-formed (as far as it is there).
pub open spec fn hdr_fixed(s: Seq<u8>) -> Q<()> {
    if s.len() == 0 { Q::End }
    else if s.len() < 2 { Q::Eof }
    else if be16(s) / 4 != 0x3ffe || s[1] / 2 % 2 != 0 { Q::Fmt }
    else if s.len() < 3 { Q::Eof }
    else if s[2] / 16 == 0 || s[2] % 16 == 15 { Q::Fmt }
    else if s.len() < 4 { Q::Eof }
    else if s[3] / 16 > 10 || s[3] / 2 % 8 == 3 || s[3] / 2 % 8 == 7 || s[3] % 2 != 0 { Q::Fmt }
    else { Q::Ok((), 4) }
}

/// The coded number at offset 4.
pub open spec fn hdr_num(s: Seq<u8>) -> Q<nat> {
    match hdr_fixed(s) {
        Q::Ok(_, k) => match q_coded(s.skip(4)) {
            Q::Ok(v, n) => if s[1] % 2 == 0 && v > 0x7fff_ffff { Q::Fmt } else { Q::Ok(v, 4 + n) },
            e => e,
        },
        e => qe(e),
    }
}
pub open spec fn hdr_bs(s: Seq<u8>) -> Q<nat> {
    match hdr_num(s) { Q::Ok(_, k) => q_bs(s, k, (s[2] / 16) as int), e => qe(e) }
}
pub open spec fn hdr_sr(s: Seq<u8>) -> Q<Option<nat>> {
    match hdr_bs(s) { Q::Ok(_, k) => q_sr(s, k, (s[2] % 16) as int), e => qe(e) }
}
/// A whole header, with its CRC-8.
pub open spec fn q_header(s: Seq<u8>) -> Q<Hdr> {
    match hdr_sr(s) {
        Q::Ok(sr, k) =>
            if s.len() <= k { Q::Eof }
            else if s[k] != crc8(s.take(k)) { Q::Fmt }
            else {
                Q::Ok(Hdr { fixed: s[1] % 2 == 0, num: hdr_num(s)->Ok_0, bs: hdr_bs(s)->Ok_0, sr: sr, chan: (s[3] / 16) as nat, bps: bps_code((s[3] / 2 % 8) as int) }, k + 1)
            },
        e => qe(e),
    }
}

pub proof fn lemma_coded_bound(s: Seq<u8>, v0: nat, j: int)
    requires 0 <= j <= 6, coded(s, v0, j) is Ok
    ensures coded(s, v0, j)->Ok_1 == j + 1, j < s.len() || j == 0
    decreases j
{
    if j > 0 { lemma_coded_bound(s, v0, j - 1); }
}

pub proof fn lemma_header_len(s: Seq<u8>)
    requires q_header(s) is Ok
    ensures 6 <= q_header(s)->Ok_1 <= 16, q_header(s)->Ok_1 <= s.len(), 1 <= q_header(s)->Ok_0.bs <= 65535
{
    let n = lead1(s.skip(4)[0]);
    lemma_coded_bound(s.skip(4), coded_first(s.skip(4)[0]), if n == 0 { 0 } else { n - 1 });
}

pub proof fn lemma_hdr_bits()
    ensures
        forall|x: u16| #[trigger] (x & 0b1111_1111_1111_1100) == (x / 4) * 4,
        forall|x: u16| #[trigger] (x & 0b10) == (x / 2 % 2) * 2,
        forall|x: u16| #[trigger] (x & 0b1) == x % 2,
        forall|b: u8| #[trigger] (b >> 4) == b / 16,
        forall|b: u8| #[trigger] (b & 0b0000_1111) == b % 16,
        forall|b: u8| #[trigger] ((b & 0b0000_1110) >> 1) == b / 2 % 8,
        forall|b: u8| #[trigger] (b & 0b1) == b % 2,
{
    assert(forall|x: u16| #[trigger] (x & 0b1111_1111_1111_1100) == (x / 4) * 4) by(bit_vector);
    assert(forall|x: u16| #[trigger] (x & 0b10) == (x / 2 % 2) * 2) by(bit_vector);
    assert(forall|x: u16| #[trigger] (x & 0b1) == x % 2) by(bit_vector);
    assert(forall|b: u8| #[trigger] (b >> 4) == b / 16) by(bit_vector);
    assert(forall|b: u8| #[trigger] (b & 0b0000_1111) == b % 16) by(bit_vector);
    assert(forall|b: u8| #[trigger] ((b & 0b0000_1110) >> 1) == b / 2 % 8) by(bit_vector);
    assert(forall|b: u8| #[trigger] (b & 0b1) == b % 2) by(bit_vector);
}

pub proof fn lemma_bs_shift()
    ensures
        1u16 << 0usize == 1, 1u16 << 1usize == 2, 1u16 << 2usize == 4, 1u16 << 3usize == 8, 1u16 << 4usize == 16,
        1u16 << 5usize == 32, 1u16 << 6usize == 64, 1u16 << 7usize == 128,
{
    assert(1u16 << 0usize == 1 && 1u16 << 1usize == 2 && 1u16 << 2usize == 4 && 1u16 << 3usize == 8 && 1u16 << 4usize == 16
        && 1u16 << 5usize == 32 && 1u16 << 6usize == 64 && 1u16 << 7usize == 128) by(bit_vector);
}

// ---------------------------------------------------------------- channels

pub open spec fn hdr_channels(chan: nat) -> nat { if chan < 8 { chan + 1 } else { 2 } }

/// The side channel has one extra bit per sample: it is the second channel of left/side (8) and
/// mid/side (10), the first of side/right (9).
pub open spec fn ch_bps(chan: nat, bps: nat, i: int) -> nat {
    if (chan == 8 && i == 1) || (chan == 9 && i == 0) || (chan == 10 && i == 1) { bps + 1 } else { bps }
}
pub open spec fn channel_f(chan: nat, bps: nat, bs: nat) -> spec_fn(int, Seq<bool>) -> P<Seq<i32>> {
    |i: int, s: Seq<bool>| p_subframe(s, ch_bps(chan, bps, i), bs)
}

/// Twice the mid channel with the bit that was rounded off put back.
pub open spec fn mid2(mid: i32, side: i32) -> i32 { w32(w32(mid * 2) + side as int % 2) }

/// Sample j of channel c of the block, from sample j of the two coded channels.
pub open spec fn stereo(chan: nat, c: int, a: i32, b: i32) -> i32 {
    if chan == 8 { if c == 0 { a } else { w32(a - b) } }
    else if chan == 9 { if c == 0 { w32(a + b) } else { b } }
    else if c == 0 { (w32(mid2(a, b) + b) as int / 2) as i32 }
    else { (w32(mid2(a, b) - b) as int / 2) as i32 }
}

/// Sample j of channel c of a block decoded from the channels chs.
pub open spec fn block_sample(chan: nat, chs: Seq<Seq<i32>>, c: int, j: int) -> i32 {
    if chan < 8 { chs[c][j] } else { stereo(chan, c, chs[0][j], chs[1][j]) }
}

/// The buffer holds the samples of the block, one channel after the other.
pub open spec fn block_buffer(buf: Seq<i32>, chan: nat, chs: Seq<Seq<i32>>, bs: nat) -> bool {
    &&& buf.len() == hdr_channels(chan) * bs
    &&& forall|c: int, j: int| 0 <= c < hdr_channels(chan) && 0 <= j < bs ==> #[trigger] buf[c * bs + j] == block_sample(chan, chs, c, j)
}

/// Decoding undoes the encoder's stereo decorrelation, whenever the side channel fits in 32 bits:
/// left/side, side/right, and mid = floor((left + right) / 2), side = left - right.
pub proof fn lemma_stereo_inverse(l: i32, r: i32)
    requires -0x4000_0000 <= l < 0x4000_0000, -0x4000_0000 <= r < 0x4000_0000
    ensures
        stereo(8, 0, l, (l - r) as i32) == l, stereo(8, 1, l, (l - r) as i32) == r,
        stereo(9, 0, (l - r) as i32, r) == l, stereo(9, 1, (l - r) as i32, r) == r,
        stereo(10, 0, ((l + r) / 2) as i32, (l - r) as i32) == l, stereo(10, 1, ((l + r) / 2) as i32, (l - r) as i32) == r,
{
    let mid = (l + r) / 2;
    let side = l - r;
    lemma_w32_small(l - side);
    lemma_w32_small(side + r);
    lemma_w32_small(2 * mid);
    assert(2 * mid + side % 2 == l + r);
    lemma_w32_small(l + r);
    lemma_w32_small(l + r + side);
    lemma_w32_small(l + r - side);
}

pub proof fn lemma_mid_bit(m: i32, side: i32)
    requires m % 2 == 0
    ensures m | (side & 1) == m + side as int % 2, (side & 1) == side as int % 2
{
    let b = side & 1;
    assert((b == 0 || b == 1)) by(bit_vector) requires b == side & 1;
    let h = side >> 1i32;
    assert(side as i64 == add(mul(2, h as i64), b as i64)) by(bit_vector) requires b == side & 1, h == side >> 1i32;
    assert(2 * h <= 0xffff_ffff && 2 * h >= -0x1_0000_0000);
    assert(side == 2 * h + b);
    assert(m & 1 == 0) by { lemma_even(m); }
    assert((m | b) as i64 == add(m as i64, b as i64)) by(bit_vector) requires m & 1 == 0, b == 0 || b == 1;
}

pub proof fn lemma_even(m: i32)
    ensures (m & 1 == 0) == (m as int % 2 == 0)
{
    let b = m & 1;
    let h = m >> 1i32;
    assert((b == 0 || b == 1)) by(bit_vector) requires b == m & 1;
    assert(m as i64 == add(mul(2, h as i64), b as i64)) by(bit_vector) requires b == m & 1, h == m >> 1i32;
    assert(m == 2 * h + b);
}

/// The arithmetic of decode_mid_side.
pub proof fn lemma_mid_side(mid: i32, side: i32)
    ensures
        mid.wrapping_mul(2) == w32(mid * 2),
        mid.wrapping_mul(2) % 2 == 0,
        mid.wrapping_mul(2) | (side & 1) == mid2(mid, side),
        w32(mid2(mid, side) + side) as int % 2 == 0,
        w32(mid2(mid, side) - side) as int % 2 == 0,
{
    let d = mid.wrapping_mul(2);
    let k = lemma_w32_div(mid * 2);
    assert(d == w32(mid * 2));
    assert(w32(mid * 2) == mid * 2 + k * 0x1_0000_0000);
    lemma_mid_bit(d, side);
    lemma_w32_small(d + side as int % 2);
    let m2 = mid2(mid, side);
    let k1 = lemma_w32_div(m2 + side);
    let k2 = lemma_w32_div(m2 - side);
}

// ---------------------------------------------------------------- frames

pub struct Frame {
    pub hdr: Hdr,
    pub chs: Seq<Seq<i32>>,
}

/// The number of the first sample of the block. For fixed block sizes claxon multiplies the frame
/// number with the size of this very block (known finding F7: wrong for a shorter last block).
pub open spec fn hdr_time(h: Hdr) -> nat { if h.fixed { h.num * h.bs } else { h.num } }

/// A whole frame at the start of s, with its CRC-16.
pub open spec fn q_frame(s: Seq<u8>) -> Q<Frame> {
    match q_header(s) {
        Q::Ok(h, k) => match h.bps {
            None => Q::Uns,
            Some(bps) => match run(channel_f(h.chan, bps, h.bs), bytes_bits(s.skip(k)), hdr_channels(h.chan) as int) {
                P::Ok(chs, rest) => {
                    let e = s.len() - rest.len() as int / 8;
                    if s.len() < e + 2 { Q::Eof }
                    else if be16(s.skip(e)) != crc16(s.take(e)) { Q::Fmt }
                    else { Q::Ok(Frame { hdr: h, chs: chs }, e + 2) }
                },
                e => pq(e),
            },
        },
        e => qe(e),
    }
}

// ---------------------------------------------------------------- channels in the buffer

/// The first k channels are in the buffer.
pub open spec fn chunks(buf: Seq<i32>, chs: Seq<Seq<i32>>, bs: nat, k: int) -> bool {
    &&& chs.len() == k
    &&& k * bs <= buf.len()
    &&& forall|c: int| 0 <= c < k ==> #[trigger] chs[c] == buf.subrange(c * bs, (c + 1) * bs)
}

pub proof fn lemma_chunk(c: int, n: int, bs: int)
    requires 0 <= c < n, bs >= 0
    ensures 0 <= c * bs, (c + 1) * bs == c * bs + bs, (c + 1) * bs <= n * bs
{
    assert(0 <= c * bs && (c + 1) * bs == c * bs + bs && (c + 1) * bs <= n * bs) by(nonlinear_arith) requires 0 <= c < n, bs >= 0;
}

/// Another channel: nothing but its own part of the buffer changed.
pub proof fn lemma_chunks_push(o: Seq<i32>, n: Seq<i32>, chs: Seq<Seq<i32>>, x: Seq<i32>, bs: nat, k: int)
    requires
        chunks(o, chs, bs, k), 0 <= k, n.len() == o.len(), (k + 1) * bs <= o.len(),
        n.take(k * bs) == o.take(k * bs), n.subrange(k * bs, (k + 1) * bs) == x,
    ensures chunks(n, chs.push(x), bs, k + 1)
{
    lemma_chunk(k, k + 1, bs as int);
    assert forall|c: int| 0 <= c < k + 1 implies #[trigger] chs.push(x)[c] == n.subrange(c * bs, (c + 1) * bs) by {
        if c < k {
            lemma_chunk(c, k, bs as int);
            assert(chs[c] == o.subrange(c * bs, (c + 1) * bs));
            assert(n.subrange(c * bs, (c + 1) * bs) =~= n.take(k * bs).subrange(c * bs, (c + 1) * bs));
            assert(o.subrange(c * bs, (c + 1) * bs) =~= o.take(k * bs).subrange(c * bs, (c + 1) * bs));
        }
    }
}

pub proof fn lemma_chunks_block(buf: Seq<i32>, chan: nat, chs: Seq<Seq<i32>>, bs: nat)
    requires chan < 8, chunks(buf, chs, bs, chan as int + 1), buf.len() == hdr_channels(chan) * bs
    ensures block_buffer(buf, chan, chs, bs)
{
    assert forall|c: int, j: int| 0 <= c < hdr_channels(chan) && 0 <= j < bs implies #[trigger] buf[c * bs + j] == block_sample(chan, chs, c, j) by {
        lemma_chunk(c, hdr_channels(chan) as int, bs as int);
        assert(chs[c] == buf.subrange(c * bs, (c + 1) * bs));
        assert(chs[c][j] == buf[c * bs + j]);
    }
}

pub proof fn lemma_stereo_block(o: Seq<i32>, n: Seq<i32>, chan: nat, chs: Seq<Seq<i32>>, bs: nat)
    requires
        8 <= chan <= 10, o.len() == 2 * bs, n.len() == 2 * bs,
        chs == seq![o.take(bs as int), o.subrange(bs as int, 2 * bs as int)],
        forall|j: int| 0 <= j < bs ==> #[trigger] n[j] == stereo(chan, 0, o[j], o[bs + j]),
        forall|j: int| 0 <= j < bs ==> n[bs + j] == stereo(chan, 1, #[trigger] o[j], o[bs + j]),
    ensures block_buffer(n, chan, chs, bs)
{
    hide(stereo);
    assert forall|c: int, j: int| 0 <= c < hdr_channels(chan) && 0 <= j < bs implies #[trigger] n[c * bs + j] == block_sample(chan, chs, c, j) by {
        assert(chs[0][j] == o[j] && chs[1][j] == o[bs + j]);
        assert(c == 0 || c == 1);
        if c == 0 { assert(n[j] == stereo(chan, 0, o[j], o[bs + j])); assert(0 * bs + j == j); }
        else { assert(n[bs + j] == stereo(chan, 1, o[j], o[bs + j])); assert(1 * bs + j == bs + j); }
    }
}

pub proof fn lemma_block_len(ch: int, bs: int)
    requires 1 <= ch <= 8, 1 <= bs
    ensures 0 <= ch * bs <= 8 * bs, (ch * bs) % bs == 0
{
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(ch, bs);
    assert(0 <= ch * bs <= 8 * bs) by(nonlinear_arith) requires 1 <= ch <= 8, 1 <= bs;
}

pub proof fn lemma_block_channels(a: int, b: int, bs: int)
    requires a * bs == b * bs, bs >= 1
    ensures a == b
{
    assert(a == b) by(nonlinear_arith) requires a * bs == b * bs, bs >= 1;
}

pub proof fn lemma_time(bs: int, n: int)
    requires 0 <= bs <= 0xffff, 0 <= n <= 0xffff_ffff
    ensures 0 <= bs * n <= 0xffff_ffff_ffff_ffff, bs * n == n * bs
{
    assert(0 <= bs * n <= 0xffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= bs <= 0xffff, 0 <= n <= 0xffff_ffff;
    assert(bs * n == n * bs) by(nonlinear_arith);
}
