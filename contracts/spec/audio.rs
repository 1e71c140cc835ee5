// Specification of subframes: what a sequence of bits stands for, according to the FLAC format.

// ---------------------------------------------------------------- parsers over bits

/// The outcome of parsing a prefix of a bit sequence: a value and the remaining bits, or why not.
/// Big: a unary number exceeds 32 bits.
pub enum P<T> { Ok(T, Seq<bool>), Eof, Fmt, Uns, Big }

/// The same failure, of another type.
pub open spec fn pe<T, U>(p: P<T>) -> P<U> {
    match p { P::Eof => P::Eof, P::Fmt => P::Fmt, P::Uns => P::Uns, _ => P::Big }
}

/// The error `e` is justified by the outcome `p` of the specification.
pub open spec fn perr<R: ReadBytes, T>(o: Bitstream<R>, p: P<T>, e: Error) -> bool {
    match e {
        Error::IoError(x) => bfail(o, p is Eof, x) || p is Big,
        Error::FormatError(_) => p is Fmt,
        Error::Unsupported(_) => p is Uns,
    }
}

pub open spec fn p_bits(s: Seq<bool>, n: nat) -> P<nat> {
    if s.len() < n { P::Eof } else { P::Ok(val(s.take(n as int)), s.skip(n as int)) }
}

pub open spec fn p_unary(s: Seq<bool>) -> P<nat> {
    if lead0(s) > u32::MAX { P::Big }
    else if lead0(s) >= s.len() { P::Eof }
    else { P::Ok(lead0(s), s.skip(lead0(s) as int + 1)) }
}

/// f(0), f(1), .. f(n - 1), one after the other.
pub open spec fn run<T>(f: spec_fn(int, Seq<bool>) -> P<T>, s: Seq<bool>, n: int) -> P<Seq<T>>
    decreases n
{
    if n <= 0 { P::Ok(Seq::empty(), s) } else {
        match run(f, s, n - 1) {
            P::Ok(v, s1) => match f(n - 1, s1) { P::Ok(x, s2) => P::Ok(v.push(x), s2), e => pe(e) },
            e => pe(e),
        }
    }
}

/// A failure of a part is the failure of the whole.
pub proof fn lemma_run_err<T>(f: spec_fn(int, Seq<bool>) -> P<T>, s: Seq<bool>, i: int, n: int)
    requires 0 <= i < n, run(f, s, i) is Ok, !(f(i, run(f, s, i)->Ok_1) is Ok)
    ensures run(f, s, n) == pe::<T, Seq<T>>(f(i, run(f, s, i)->Ok_1))
    decreases n
{
    if n > i + 1 { lemma_run_err(f, s, i, n - 1); }
}

pub proof fn lemma_run_0<T>(f: spec_fn(int, Seq<bool>) -> P<T>, s: Seq<bool>)
    ensures run(f, s, 0) == P::Ok(Seq::<T>::empty(), s)
{ }

pub proof fn lemma_run_next<T>(f: spec_fn(int, Seq<bool>) -> P<T>, s: Seq<bool>, i: int)
    requires 0 <= i, run(f, s, i) is Ok
    ensures
        ({ let p = f(i, run(f, s, i)->Ok_1);
           &&& p is Ok ==> run(f, s, i + 1) == P::Ok(run(f, s, i)->Ok_0.push(p->Ok_0), p->Ok_1)
           &&& !(p is Ok) ==> run(f, s, i + 1) == pe::<T, Seq<T>>(p) })
{ }

pub proof fn lemma_run_len<T>(f: spec_fn(int, Seq<bool>) -> P<T>, s: Seq<bool>, n: int)
    requires 0 <= n, run(f, s, n) is Ok
    ensures run(f, s, n)->Ok_0.len() == n
    decreases n
{
    if n > 0 { lemma_run_len(f, s, n - 1); }
}

// ---------------------------------------------------------------- arithmetic

/// The 32-bit two's complement number that is congruent to x.
pub open spec fn w32(x: int) -> i32 {
    (((x + 0x8000_0000) % 0x1_0000_0000) - 0x8000_0000) as i32
}

/// Two's complement number of n bits.
pub open spec fn sext(v: nat, n: nat) -> int {
    if 2 * v >= pow2(n) { v - pow2(n) } else { v as int }
}

/// 0, 1, 2, 3, 4 stand for 0, -1, 1, -2, 2.
pub open spec fn zigzag(v: nat) -> int {
    if v % 2 == 0 { (v / 2) as int } else { -1 - v / 2 }
}

pub proof fn lemma_w32_small(x: int)
    requires -0x8000_0000 <= x < 0x8000_0000
    ensures w32(x) == x
{ }

pub proof fn lemma_w32_mod(x: int, k: int)
    ensures w32(x + k * 0x1_0000_0000) == w32(x)
{
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k, x + 0x8000_0000, 0x1_0000_0000);
    assert(0x1_0000_0000 * k + (x + 0x8000_0000) == x + k * 0x1_0000_0000 + 0x8000_0000);
}

/// w32(x) differs from x by a multiple of 2^32.
pub proof fn lemma_w32_div(x: int) -> (k: int)
    ensures w32(x) == x + k * 0x1_0000_0000
{
    let q = (x + 0x8000_0000) / 0x1_0000_0000;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x + 0x8000_0000, 0x1_0000_0000);
    assert(x + 0x8000_0000 == 0x1_0000_0000 * q + (x + 0x8000_0000) % 0x1_0000_0000);
    assert(w32(x) == x + (-q) * 0x1_0000_0000);
    -q
}

pub proof fn lemma_w32_add(x: int, y: int)
    ensures w32(w32(x) + y) == w32(x + y)
{
    let k = lemma_w32_div(x);
    assert(w32(x) + y == (x + y) + k * 0x1_0000_0000);
    lemma_w32_mod(x + y, k);
}

pub proof fn lemma_wrap_add(a: i32, b: i32)
    ensures a.wrapping_add(b) == w32(a + b)
{
    if a + b > i32::MAX { lemma_w32_mod(a + b, -1); }
    else if a + b < i32::MIN { lemma_w32_mod(a + b, 1); }
}

pub proof fn lemma_wrap_sub(a: i32, b: i32)
    ensures a.wrapping_sub(b) == w32(a - b)
{
    if a - b > i32::MAX { lemma_w32_mod(a - b, -1); }
    else if a - b < i32::MIN { lemma_w32_mod(a - b, 1); }
}

pub proof fn lemma_cast_i64(x: i64)
    ensures (x as i32) == w32(x as int)
{
    let y = x as u64 & 0xffff_ffffu64;
    assert(y == (x as u64) % 0x1_0000_0000u64) by(bit_vector) requires y == x as u64 & 0xffff_ffffu64;
    assert((x as i32) as i64 == if y < 0x8000_0000u64 { y as i64 } else { sub(y as i64, 0x1_0000_0000i64) }) by(bit_vector)
        requires y == x as u64 & 0xffff_ffffu64;
    assert((x as u64) as int == if x >= 0 { x as int } else { x + 0x1_0000_0000_0000_0000 }) by(bit_vector);
}

pub proof fn lemma_cast_u32(x: u32)
    ensures (x as i32) == w32(x as int), x < 0x8000_0000 ==> (x as i32) == x
{
    assert((x as i32) as i64 == if x < 0x8000_0000u32 { x as i64 } else { sub(x as i64, 0x1_0000_0000i64) }) by(bit_vector);
}

pub proof fn lemma_pow2_u64(k: u32)
    requires k < 64
    ensures (1u64 << k) == pow2(k as nat), pow2(k as nat) > 0,
{
    let kk = k as u64;
    vstd::bits::lemma_u64_pow2_no_overflow(k as nat);
    vstd::bits::lemma_u64_shl_is_mul(1, kk);
    assert(1u64 << kk == 1u64 << k) by(bit_vector) requires kk == k as u64;
    lemma_pow2_pos(k as nat);
}

pub proof fn lemma_shl_i32(x: i32, k: u32)
    requires k < 32
    ensures (x << k) == w32(x * pow2(k as nat))
{
    let p = 1i64 << k;
    lemma_pow2_u64(k);
    assert(p == (1u64 << k) as i64 && p as u64 == 1u64 << k && p > 0 && p <= 0x8000_0000) by(bit_vector) requires p == 1i64 << k, k < 32;
    assert((x << k) == ((x as i64) << k) as i32) by(bit_vector) requires k < 32;
    assert((x as i64) << k == mul(x as i64, p)) by(bit_vector) requires k < 32, p == 1i64 << k;
    assert(-0x8000_0000 * 0x8000_0000 <= x * p <= 0x8000_0000 * 0x8000_0000) by(nonlinear_arith) requires -0x8000_0000 <= x <= 0x8000_0000, 0 <= p <= 0x8000_0000;
    lemma_cast_i64((x as i64) << k);
}

/// An arithmetic shift to the right is a division rounding down.
pub proof fn lemma_shr_step(x: i64, k: u32, kk: u32)
    requires k < 63, kk == k + 1
    ensures x >> kk == (x >> k) as int / 2
{
    let a = x >> k;
    assert(kk == add(k, 1));
    let b = x >> kk;
    assert(b == a >> 1u32) by(bit_vector) requires k < 63, a == x >> k, b == x >> kk, kk == add(k, 1);
    assert(a >> 1u32 == a / 2) by(bit_vector);
    assert(a / 2 == a as int / 2);
}
pub proof fn lemma_shr_i64(x: i64, k: u32)
    requires k < 64
    ensures x >> k == x as int / pow2(k as nat) as int
    decreases k
{
    if k == 0 {
        lemma2_to64();
        assert(x >> 0u32 == x) by(bit_vector);
        assert(x as int / 1 == x);
    } else {
        let j = (k - 1) as u32;
        lemma_shr_i64(x, j);
        lemma_shr_step(x, j, k);
        lemma_pow2_unfold(k as nat);
        lemma_pow2_pos(j as nat);
        let p = pow2(j as nat) as int;
        let a = x as int / p;
        let q = a / 2;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x as int, p);
        let r = x as int % p;
        let r2 = r + p * (a % 2);
        assert(pow2(k as nat) == 2 * p);
        assert(x == (2 * p) * q + r2) by(nonlinear_arith) requires x == p * a + r, a == 2 * q + a % 2, r2 == r + p * (a % 2);
        assert(0 <= r2 < 2 * p) by(nonlinear_arith) requires 0 <= r < p, r2 == r + p * (a % 2), 0 <= a % 2 <= 1;
        assert((2 * p) * q == q * (2 * p)) by(nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x as int, 2 * p, q, r2);
    }
}

/// Sign extension by shifting left and right.
pub proof fn lemma_sext32(v: u32, n: u32)
    requires 1 <= n <= 32, v < pow2(n as nat)
    ensures ((v << ((32 - n) as u32)) as i32) >> ((32 - n) as u32) == sext(v as nat, n as nat)
{
    lemma_pow2_u64(n);
    lemma2_to64();
    let h = 1u64 << sub(n, 1);
    let p = 1u64 << n;
    lemma_pow2_u64((n - 1) as u32);
    lemma_pow2_unfold(n as nat);
    assert(p == 2 * h);
    assert(p <= 0x1_0000_0000) by(bit_vector) requires p == 1u64 << n, n <= 32;
    let r = ((v << sub(32, n)) as i32) >> sub(32, n);
    assert((r as i64) == if (v as u64) < h { v as i64 } else { sub(v as i64, p as i64) }) by(bit_vector)
        requires 1 <= n, n <= 32, h == 1u64 << sub(n, 1), p == 1u64 << n, (v as u64) < p, r == ((v << sub(32, n)) as i32) >> sub(32, n);
}
pub proof fn lemma_sext16(v: u16, n: u32)
    requires 1 <= n <= 16, v < pow2(n as nat)
    ensures ((v << ((16 - n) as u32)) as i16) >> ((16 - n) as u32) == sext(v as nat, n as nat)
{
    lemma_pow2_u64(n);
    lemma2_to64();
    let h = 1u64 << sub(n, 1);
    let p = 1u64 << n;
    lemma_pow2_u64((n - 1) as u32);
    lemma_pow2_unfold(n as nat);
    assert(p == 2 * h);
    assert(p <= 0x1_0000) by(bit_vector) requires p == 1u64 << n, n <= 16;
    let r = ((v << sub(16, n)) as i16) >> sub(16, n);
    assert((r as i64) == if (v as u64) < h { v as i64 } else { sub(v as i64, p as i64) }) by(bit_vector)
        requires 1 <= n, n <= 16, h == 1u64 << sub(n, 1), p == 1u64 << n, (v as u64) < p, r == ((v << sub(16, n)) as i16) >> sub(16, n);
}
/// Sign-extended numbers are in range.
pub proof fn lemma_sext_range(v: nat, n: nat)
    requires 1 <= n, v < pow2(n)
    ensures -(pow2((n - 1) as nat) as int) <= sext(v, n) < pow2((n - 1) as nat)
{
    lemma_pow2_unfold(n);
}

pub proof fn lemma_zigzag(v: u32)
    ensures ((v >> 1u32) as i32) ^ (((v << 31u32) as i32) >> 31u32) == zigzag(v as nat)
{
    let r = ((v >> 1u32) as i32) ^ (((v << 31u32) as i32) >> 31u32);
    assert(v & 1 == v % 2 && v >> 1u32 == v / 2) by(bit_vector);
    let h = v >> 1u32;
    assert(r as i64 == if v & 1 == 0 { h as i64 } else { sub(-1i64, h as i64) }) by(bit_vector)
        requires h == v >> 1u32, r == ((v >> 1u32) as i32) ^ (((v << 31u32) as i32) >> 31u32);
    assert(v & 1 <= 1) by(bit_vector);
}

/// (q << k) | r is q * 2^k + r, up to a multiple of 2^32.
pub proof fn lemma_rice_join(q: u32, r: u32, k: u32)
    requires k < 32, r < pow2(k as nat)
    ensures ((q << k) | r) == (q * pow2(k as nat) + r) % 0x1_0000_0000
{
    lemma_pow2_u64(k);
    let p = 1u64 << k;
    let x = (q as u64) << k;
    assert(p <= 0x8000_0000) by(bit_vector) requires p == 1u64 << k, k < 32;
    assert(x == mul(q as u64, p)) by(bit_vector) requires x == (q as u64) << k, p == 1u64 << k, k < 32;
    assert(q * p <= 0xffff_ffff * 0x8000_0000) by(nonlinear_arith) requires q <= 0xffff_ffff, p <= 0x8000_0000;
    assert(x == q * p);
    let y = add(x, r as u64);
    assert(((q << k) | r) as u64 == y & 0xffff_ffff) by(bit_vector)
        requires x == (q as u64) << k, k < 32, p == 1u64 << k, (r as u64) < p, y == add(x, r as u64);
    assert(y & 0xffff_ffff == y % 0x1_0000_0000) by(bit_vector);
}

// ---------------------------------------------------------------- Wrapping

/// Stands for std::num::Wrapping (see the rewrite rules).
#[derive(Clone, Copy)]
pub struct Wrapping<T>(pub T);

impl vstd::std_specs::ops::AddSpecImpl for Wrapping<i32> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Wrapping<i32>) -> bool { true }
    open spec fn add_spec(self, rhs: Wrapping<i32>) -> Wrapping<i32> { Wrapping(w32(self.0 + rhs.0)) }
}
impl core::ops::Add for Wrapping<i32> {
    type Output = Wrapping<i32>;
    fn add(self, rhs: Wrapping<i32>) -> Wrapping<i32> { Wrapping(self.0.wrapping_add(rhs.0)) }
}
impl vstd::std_specs::ops::MulSpecImpl for Wrapping<i32> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Wrapping<i32>) -> bool { true }
    open spec fn mul_spec(self, rhs: Wrapping<i32>) -> Wrapping<i32> { Wrapping(w32(self.0 * rhs.0)) }
}
impl core::ops::Mul for Wrapping<i32> {
    type Output = Wrapping<i32>;
    fn mul(self, rhs: Wrapping<i32>) -> Wrapping<i32> { Wrapping(self.0.wrapping_mul(rhs.0)) }
}
impl vstd::std_specs::ops::SubSpecImpl for Wrapping<i32> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: Wrapping<i32>) -> bool { true }
    open spec fn sub_spec(self, rhs: Wrapping<i32>) -> Wrapping<i32> { Wrapping(w32(self.0 - rhs.0)) }
}
impl core::ops::Sub for Wrapping<i32> {
    type Output = Wrapping<i32>;
    fn sub(self, rhs: Wrapping<i32>) -> Wrapping<i32> { Wrapping(self.0.wrapping_sub(rhs.0)) }
}

// ---------------------------------------------------------------- subframe header

pub enum Sf { Constant, Verbatim, Fixed(nat), Lpc(nat) }

/// The 6-bit subframe type.
pub open spec fn sf_kind(t: nat) -> Option<Sf> {
    if t == 0 { Some(Sf::Constant) }
    else if t == 1 { Some(Sf::Verbatim) }
    else if 8 <= t <= 12 { Some(Sf::Fixed((t - 8) as nat)) }
    else if 32 <= t < 64 { Some(Sf::Lpc((t - 31) as nat)) }
    else { None }
}

/// Subframe type and number of wasted bits per sample.
pub open spec fn p_header(s: Seq<bool>) -> P<(Sf, nat)> {
    if s.len() < 1 { P::Eof }
    else if s[0] { P::Fmt }
    else {
        match p_bits(s.skip(1), 6) {
            P::Ok(t, s1) => match sf_kind(t) {
                None => P::Fmt,
                Some(k) =>
                    if s1.len() < 1 { P::Eof }
                    else if !s1[0] { P::Ok((k, 0), s1.skip(1)) }
                    else {
                        match p_unary(s1.skip(1)) {
                            P::Ok(q, s2) => if q + 1 > 31 { P::Fmt } else { P::Ok((k, q + 1), s2) },
                            e => pe(e),
                        }
                    },
            },
            e => pe(e),
        }
    }
}

// ---------------------------------------------------------------- residual

/// A signed sample of n bits.
pub open spec fn p_sample(s: Seq<bool>, n: nat) -> P<i32> {
    match p_bits(s, n) { P::Ok(v, s1) => P::Ok(sext(v, n) as i32, s1), e => pe(e) }
}
pub open spec fn sample_f(n: nat) -> spec_fn(int, Seq<bool>) -> P<i32> {
    |i: int, s: Seq<bool>| p_sample(s, n)
}

/// A Rice-coded number with parameter k.
pub open spec fn p_rice(s: Seq<bool>, k: nat) -> P<i32> {
    match p_unary(s) {
        P::Ok(q, s1) => match p_bits(s1, k) {
            P::Ok(r, s2) => P::Ok(zigzag(((q * pow2(k) + r) % 0x1_0000_0000) as nat) as i32, s2),
            e => pe(e),
        },
        e => pe(e),
    }
}
pub open spec fn rice_f(k: nat) -> spec_fn(int, Seq<bool>) -> P<i32> {
    |i: int, s: Seq<bool>| p_rice(s, k)
}

/// A partition of n residuals; the parameter takes w bits, all ones being the escape code.
pub open spec fn p_partition(s: Seq<bool>, w: nat, n: int) -> P<Seq<i32>> {
    match p_bits(s, w) {
        P::Ok(k, s1) => if k == pow2(w) - 1 { P::Uns } else { run(rice_f(k), s1, n) },
        e => pe(e),
    }
}

/// The number of residuals in partition j, where every partition covers `part` samples and the
/// first one contains the warm-up samples.
pub open spec fn part_len(part: int, warm: int, j: int) -> int {
    if j == 0 { part - warm } else { part }
}

/// The first j partitions.
pub open spec fn p_parts(s: Seq<bool>, w: nat, part: int, warm: int, j: int) -> P<Seq<i32>>
    decreases j
{
    if j <= 0 { P::Ok(Seq::empty(), s) } else {
        match p_parts(s, w, part, warm, j - 1) {
            P::Ok(v, s1) => match p_partition(s1, w, part_len(part, warm, j - 1)) { P::Ok(x, s2) => P::Ok(v + x, s2), e => pe(e) },
            e => pe(e),
        }
    }
}

pub proof fn lemma_parts_err(s: Seq<bool>, w: nat, part: int, warm: int, i: int, n: int)
    requires 0 <= i < n, p_parts(s, w, part, warm, i) is Ok, !(p_partition(p_parts(s, w, part, warm, i)->Ok_1, w, part_len(part, warm, i)) is Ok)
    ensures p_parts(s, w, part, warm, n) == pe::<Seq<i32>, Seq<i32>>(p_partition(p_parts(s, w, part, warm, i)->Ok_1, w, part_len(part, warm, i)))
    decreases n
{
    if n > i + 1 { lemma_parts_err(s, w, part, warm, i, n - 1); }
}

/// The residual of a block of bs samples, of which `warm` are warm-up samples.
pub open spec fn p_residual(s: Seq<bool>, bs: int, warm: int) -> P<Seq<i32>> {
    match p_bits(s, 2) {
        P::Ok(m, s1) =>
            if m >= 2 { P::Fmt } else {
                match p_bits(s1, 4) {
                    P::Ok(order, s2) =>
                        if bs % pow2(order) as int != 0 { P::Fmt }
                        else if warm > bs / pow2(order) as int { P::Fmt }
                        else { p_parts(s2, 4 + m, bs / pow2(order) as int, warm, pow2(order) as int) },
                    e => pe(e),
                }
            },
        e => pe(e),
    }
}

// ---------------------------------------------------------------- prediction

/// The prediction of a fixed predictor of order o from the samples d before.
pub open spec fn fixed_pred(o: nat, d: Seq<i32>) -> int {
    let n = d.len() as int;
    if o == 0 { 0 }
    else if o == 1 { d[n - 1] as int }
    else if o == 2 { 2 * d[n - 1] - d[n - 2] }
    else if o == 3 { 3 * d[n - 1] - 3 * d[n - 2] + d[n - 3] }
    else { 4 * d[n - 1] - 6 * d[n - 2] + 4 * d[n - 3] - d[n - 4] }
}

/// The first n samples of a block whose warm-up samples and residuals are b.
pub open spec fn fixed_out(o: nat, b: Seq<i32>, n: int) -> Seq<i32>
    decreases n
{
    if n <= o || n <= 0 { b.take(n) } else {
        let p = fixed_out(o, b, n - 1);
        p.push(w32(fixed_pred(o, p) + b[n - 1]))
    }
}

pub open spec fn dot(c: Seq<int>, w: Seq<i32>, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else { dot(c, w, k - 1) + c[k - 1] * w[k - 1] }
}

pub open spec fn ints16(c: Seq<i16>) -> Seq<int> { c.map_values(|x: i16| x as int) }

/// The prediction from the coefficients c (for the oldest sample first) and the samples before.
pub open spec fn lpc_pred(c: Seq<i16>, shift: nat, d: Seq<i32>) -> int {
    dot(ints16(c), d.skip((d.len() - c.len()) as int), c.len() as int) / pow2(shift) as int
}

pub open spec fn lpc_out(c: Seq<i16>, shift: nat, b: Seq<i32>, n: int) -> Seq<i32>
    decreases n
{
    if n <= c.len() || n <= 0 { b.take(n) } else {
        let p = lpc_out(c, shift, b, n - 1);
        p.push(w32(lpc_pred(c, shift, p) + b[n - 1]))
    }
}

pub proof fn lemma_fixed_out_len(o: nat, b: Seq<i32>, n: int)
    requires 0 <= n <= b.len()
    ensures fixed_out(o, b, n).len() == n
    decreases n
{
    if n > o && n > 0 { lemma_fixed_out_len(o, b, n - 1); }
}
pub proof fn lemma_lpc_out_len(c: Seq<i16>, shift: nat, b: Seq<i32>, n: int)
    requires 0 <= n <= b.len()
    ensures lpc_out(c, shift, b, n).len() == n
    decreases n
{
    if n > c.len() && n > 0 { lemma_lpc_out_len(c, shift, b, n - 1); }
}

/// Prediction undoes taking the difference: for every signal x, if b holds the warm-up samples of x
/// and the differences between x and its prediction, then the output is x.
pub proof fn lemma_fixed_inverse(o: nat, x: Seq<i32>, b: Seq<i32>, n: int)
    requires
        0 <= n <= x.len(), b.len() == x.len(), o <= 4,
        forall|i: int| 0 <= i < o && i < x.len() ==> b[i] == x[i],
        forall|i: int| o <= i < x.len() ==> #[trigger] b[i] == w32(x[i] - fixed_pred(o, x.take(i))),
    ensures fixed_out(o, b, n) == x.take(n)
    decreases n
{
    if n <= o || n <= 0 {
        assert(b.take(n) =~= x.take(n));
    } else {
        lemma_fixed_inverse(o, x, b, n - 1);
        let p = x.take(n - 1);
        let f = fixed_pred(o, p);
        assert(b[n - 1] == w32(x[n - 1] - f));
        lemma_w32_add(x[n - 1] - f, f);
        lemma_w32_small(x[n - 1] as int);
        assert(x.take(n) =~= p.push(x[n - 1]));
    }
}
pub proof fn lemma_lpc_inverse(c: Seq<i16>, shift: nat, x: Seq<i32>, b: Seq<i32>, n: int)
    requires
        0 <= n <= x.len(), b.len() == x.len(),
        forall|i: int| 0 <= i < c.len() && i < x.len() ==> b[i] == x[i],
        forall|i: int| c.len() <= i < x.len() ==> #[trigger] b[i] == w32(x[i] - lpc_pred(c, shift, x.take(i))),
    ensures lpc_out(c, shift, b, n) == x.take(n)
    decreases n
{
    if n <= c.len() || n <= 0 {
        assert(b.take(n) =~= x.take(n));
    } else {
        lemma_lpc_inverse(c, shift, x, b, n - 1);
        let p = x.take(n - 1);
        let f = lpc_pred(c, shift, p);
        assert(b[n - 1] == w32(x[n - 1] - f));
        lemma_w32_add(x[n - 1] - f, f);
        lemma_w32_small(x[n - 1] as int);
        assert(x.take(n) =~= p.push(x[n - 1]));
    }
}

/// Bounds of a partial inner product of 16-bit and 32-bit numbers.
pub proof fn lemma_dot_bound(c: Seq<int>, w: Seq<i32>, k: int)
    requires 0 <= k <= c.len(), k <= w.len(), forall|i: int| 0 <= i < c.len() ==> -0x8000 <= #[trigger] c[i] <= 0x7fff
    ensures -k * 0x4000_0000_0000 <= dot(c, w, k) <= k * 0x4000_0000_0000
    decreases k
{
    if k > 0 {
        lemma_dot_bound(c, w, k - 1);
        let a = c[k - 1];
        let b = w[k - 1] as int;
        assert(-0x4000_0000_0000 <= a * b <= 0x4000_0000_0000) by(nonlinear_arith)
            requires -0x8000 <= a <= 0x7fff, -0x8000_0000 <= b <= 0x7fff_ffff;
    }
}

proof fn lemma_dot_step(o: nat, w: Seq<i32>, k: int, a: int)
    requires o <= 4, 0 < k <= o, a == fixed_coefs(o)[k - 1]
    ensures dot(ints32(fixed_coefs(o)), w, k) == dot(ints32(fixed_coefs(o)), w, k - 1) + a * w[k - 1]
{
}

pub proof fn lemma_dot_fixed(o: nat, w: Seq<i32>, d: Seq<i32>)
    requires o <= 4, d.len() >= o, w.len() >= o, forall|i: int| 0 <= i < o ==> #[trigger] w[i] == d[d.len() - o + i]
    ensures dot(ints32(fixed_coefs(o)), w, o as int) == fixed_pred(o, d)
{
    let n = d.len() as int;
    let c = ints32(fixed_coefs(o));
    assert(dot(c, w, 0) == 0);
    assert((-1) * w[0] == -w[0]) by(nonlinear_arith);
    if o >= 3 { assert((-6) * w[2] == -6 * w[2] && (-3) * w[1] == -3 * w[1]) by(nonlinear_arith); }
    if o == 1 { lemma_dot_step(1, w, 1, 1); assert(dot(c, w, 1) == w[0]); }
    if o == 2 { lemma_dot_step(2, w, 1, -1); lemma_dot_step(2, w, 2, 2); assert(dot(c, w, 2) == 2 * w[1] - w[0]); }
    if o == 3 {
        lemma_dot_step(3, w, 1, 1); lemma_dot_step(3, w, 2, -3); lemma_dot_step(3, w, 3, 3);
        assert(dot(c, w, 3) == w[0] - 3 * w[1] + 3 * w[2]);
    }
    if o == 4 {
        lemma_dot_step(4, w, 1, -1); lemma_dot_step(4, w, 2, 4); lemma_dot_step(4, w, 3, -6); lemma_dot_step(4, w, 4, 4);
        assert(dot(c, w, 4) == 4 * w[1] - w[0] - 6 * w[2] + 4 * w[3]);
    }
}

pub proof fn lemma_dot_0(c: Seq<int>, w: Seq<i32>)
    ensures dot(c, w, 0) == 0, w32(0) == 0
{
}

pub proof fn lemma_dot_next(c: Seq<int>, w: Seq<i32>, k: int)
    requires k >= 0
    ensures dot(c, w, k + 1) == dot(c, w, k) + c[k] * w[k]
{
}

pub proof fn lemma_fixed_0(o: nat, b: Seq<i32>)
    requires o <= b.len()
    ensures fixed_out(o, b, o as int) == b.take(o as int)
{
}

pub proof fn lemma_lpc_0(c: Seq<i16>, shift: nat, b: Seq<i32>)
    requires c.len() <= b.len()
    ensures lpc_out(c, shift, b, c.len() as int) == b.take(c.len() as int)
{
}

pub proof fn lemma_lpc_push(c: Seq<i16>, shift: nat, b: Seq<i32>, n: int, x: i32)
    requires c.len() <= n < b.len(), x == w32(lpc_pred(c, shift, lpc_out(c, shift, b, n)) + b[n])
    ensures lpc_out(c, shift, b, n + 1) == lpc_out(c, shift, b, n).push(x)
{
}

pub proof fn lemma_fixed_push(o: nat, b: Seq<i32>, n: int, x: i32)
    requires o <= n < b.len(), x == w32(fixed_pred(o, fixed_out(o, b, n)) + b[n])
    ensures fixed_out(o, b, n + 1) == fixed_out(o, b, n).push(x)
{
}

/// Leading zero coefficients do not matter.
pub proof fn lemma_dot_pad(c: Seq<int>, z: Seq<int>, w: Seq<i32>, k: int)
    requires
        c.len() <= z.len(), z.len() == w.len(), 0 <= k <= z.len(),
        forall|i: int| 0 <= i < z.len() - c.len() ==> z[i] == 0,
        forall|i: int| z.len() - c.len() <= i < z.len() ==> z[i] == c[i - (z.len() - c.len())],
    ensures
        k <= z.len() - c.len() ==> dot(z, w, k) == 0,
        k >= z.len() - c.len() ==> dot(z, w, k) == dot(c, w.skip(z.len() - c.len()), k - (z.len() - c.len())),
    decreases k
{
    if k > 0 {
        lemma_dot_pad(c, z, w, k - 1);
        let d = z.len() - c.len();
        let j = k - 1 - d;
        if j >= 0 {
            assert(w.skip(d)[j] == w[k - 1]);
            assert(z[k - 1] == c[j]);
        } else {
            assert(z[k - 1] == 0);
            assert(z[k - 1] * w[k - 1] == 0) by(nonlinear_arith) requires z[k - 1] == 0;
        }
    }
}

// ---------------------------------------------------------------- whole subframes

pub open spec fn p_coef(s: Seq<bool>, n: nat) -> P<i16> {
    match p_bits(s, n) { P::Ok(v, s1) => P::Ok(sext(v, n) as i16, s1), e => pe(e) }
}
pub open spec fn coef_f(n: nat) -> spec_fn(int, Seq<bool>) -> P<i16> {
    |i: int, s: Seq<bool>| p_coef(s, n)
}

pub open spec fn p_constant(s: Seq<bool>, bps: nat, n: nat) -> P<Seq<i32>> {
    match p_sample(s, bps) { P::Ok(x, s1) => P::Ok(Seq::new(n, |i: int| x), s1), e => pe(e) }
}

pub open spec fn p_fixed(s: Seq<bool>, bps: nat, order: nat, n: nat) -> P<Seq<i32>> {
    if n < order { P::Fmt } else {
        match run(sample_f(bps), s, order as int) {
            P::Ok(warm, s1) => match p_residual(s1, n as int, order as int) {
                P::Ok(res, s2) => P::Ok(fixed_out(order, warm + res, n as int), s2),
                e => pe(e),
            },
            e => pe(e),
        }
    }
}

pub open spec fn p_lpc(s: Seq<bool>, bps: nat, order: nat, n: nat) -> P<Seq<i32>> {
    if n < order { P::Fmt } else {
        match run(sample_f(bps), s, order as int) {
            P::Ok(warm, s1) => match p_bits(s1, 4) {
                P::Ok(prec, s2) => if prec == 15 { P::Fmt } else {
                    match p_bits(s2, 5) {
                        P::Ok(shift, s3) => if shift >= 16 { P::Uns } else {
                            match run(coef_f(prec + 1), s3, order as int) {
                                // the coefficient for the newest sample comes first
                                P::Ok(c, s4) => match p_residual(s4, n as int, order as int) {
                                    P::Ok(res, s5) => P::Ok(lpc_out(c.reverse(), shift, warm + res, n as int), s5),
                                    e => pe(e),
                                },
                                e => pe(e),
                            }
                        },
                        e => pe(e),
                    }
                },
                e => pe(e),
            },
            e => pe(e),
        }
    }
}

pub open spec fn p_body(k: Sf, s: Seq<bool>, bps: nat, n: nat) -> P<Seq<i32>> {
    match k {
        Sf::Constant => p_constant(s, bps, n),
        Sf::Verbatim => run(sample_f(bps), s, n as int),
        Sf::Fixed(o) => p_fixed(s, bps, o, n),
        Sf::Lpc(o) => p_lpc(s, bps, o, n),
    }
}

/// A subframe of n samples of bps bits.
pub open spec fn p_subframe(s: Seq<bool>, bps: nat, n: nat) -> P<Seq<i32>> {
    match p_header(s) {
        P::Ok((k, wasted), s1) =>
            if wasted >= bps { P::Fmt } else {
                match p_body(k, s1, (bps - wasted) as nat, n) {
                    P::Ok(v, s2) => P::Ok(v.map_values(|x: i32| w32(x * pow2(wasted))), s2),
                    e => pe(e),
                }
            },
        e => pe(e),
    }
}

/// Success: the outcome of the specification is in the buffer. Failure: the error is justified.
#[verifier::prophetic]
pub open spec fn sub_result<R: ReadBytes>(o: Bitstream<R>, n: Bitstream<R>, p: P<Seq<i32>>, buf: Seq<i32>, r: result::Result<(), Error>) -> bool {
    match r {
        Ok(_) => p is Ok && bleft(o, n, p->Ok_1) && buf == p->Ok_0,
        Err(e) => bstop(o, n) && perr(o, p, e),
    }
}

/// The subframe type as the decoder takes it apart.
pub proof fn lemma_sf_bits()
    ensures
        forall|n: u8| n < 64 ==> #[trigger] (n & 0b111_110) == (n / 2) * 2,
        forall|n: u8| n < 64 ==> #[trigger] (n & 0b111_100) == (n / 4) * 4,
        forall|n: u8| n < 64 ==> #[trigger] (n & 0b110_000) == (n / 16) * 16,
        forall|n: u8| n < 64 ==> #[trigger] (n & 0b111_000) == (n / 8) * 8,
        forall|n: u8| n < 64 ==> #[trigger] (n & 0b000_111) == n % 8,
        forall|n: u8| n < 64 ==> #[trigger] (n & 0b011_111) == n % 32,
{
    assert forall|n: u8| n < 64 implies #[trigger] (n & 0b111_110) == (n / 2) * 2 by { assert(n & 0b111_110 == mul(n / 2, 2)) by(bit_vector) requires n < 64; }
    assert forall|n: u8| n < 64 implies #[trigger] (n & 0b111_100) == (n / 4) * 4 by { assert(n & 0b111_100 == mul(n / 4, 4)) by(bit_vector) requires n < 64; }
    assert forall|n: u8| n < 64 implies #[trigger] (n & 0b110_000) == (n / 16) * 16 by { assert(n & 0b110_000 == mul(n / 16, 16)) by(bit_vector) requires n < 64; }
    assert forall|n: u8| n < 64 implies #[trigger] (n & 0b111_000) == (n / 8) * 8 by { assert(n & 0b111_000 == mul(n / 8, 8)) by(bit_vector) requires n < 64; }
    assert forall|n: u8| n < 64 implies #[trigger] (n & 0b000_111) == n % 8 by { assert(n & 0b000_111 == n % 8) by(bit_vector); }
    assert forall|n: u8| n < 64 implies #[trigger] (n & 0b011_111) == n % 32 by { assert(n & 0b011_111 == n % 32) by(bit_vector); }
}

/// 2^order partitions of bs / 2^order samples.
pub proof fn lemma_partitions(bs: u16, order: u32)
    requires order <= 15
    ensures
        (1u32 << order) == pow2(order as nat), 1 <= pow2(order as nat) <= 32768,
        bs >> order == bs as int / pow2(order as nat) as int,
        forall|m: u16| m == pow2(order as nat) - 1 ==> ((#[trigger] (bs & m)) == 0) == (bs as int % pow2(order as nat) as int == 0),
        bs as int % pow2(order as nat) as int == 0 ==> (bs as int / pow2(order as nat) as int) * pow2(order as nat) == bs
            && pow2(order as nat) * (bs as int / pow2(order as nat) as int) == bs,
{
    lemma_pow2_u64(order);
    let p = 1u32 << order;
    assert(p as u64 == 1u64 << order && 1 <= p && p <= 32768) by(bit_vector) requires p == 1u32 << order, order <= 15;
    let q = p as u16;
    assert(q == p);
    assert(bs >> order == bs / q) by(bit_vector) requires q == p as u16, p == 1u32 << order, order <= 15;
    assert(bs & sub(q, 1) == bs % q) by(bit_vector) requires q == p as u16, p == 1u32 << order, order <= 15;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(bs as int, q as int);
    assert((bs as int / q as int) * q == q * (bs as int / q as int)) by(nonlinear_arith);
}

/// Partition j lies within the buffer.
pub proof fn lemma_part_fits(part: int, warm: int, j: int, np: int, start: int, len: int, bs: int, blen: int)
    requires
        0 <= j < np, part * np == bs, bs == warm + blen, 0 <= warm <= part,
        start == (if j == 0 { 0 } else { j * part - warm }), len == part_len(part, warm, j),
    ensures
        0 <= start, 0 <= len, start + len <= blen,
        start + len == (j + 1) * part - warm,
{
    assert((j + 1) * part == j * part + part) by(nonlinear_arith);
    assert((j + 1) * part <= np * part) by(nonlinear_arith) requires j + 1 <= np, 0 <= part;
    assert(np * part == part * np) by(nonlinear_arith);
    assert(j * part >= part || j == 0) by(nonlinear_arith) requires j >= 1 || j == 0, part >= 0, 0 <= j;
    assert(0 * part == 0);
}

/// A number of n bits.
pub proof fn lemma_val_take(s: Seq<bool>, n: nat)
    ensures n <= s.len() ==> val(s.take(n as int)) < pow2(n)
{
    if n <= s.len() { lemma_val_bound(s.take(n as int)); }
}

/// The coefficients of the fixed predictors, oldest sample first.
pub open spec fn fixed_coefs(o: nat) -> Seq<i32> {
    if o == 0 { seq![] } else if o == 1 { seq![1i32] } else if o == 2 { seq![-1i32, 2i32] } else if o == 3 { seq![1i32, -3i32, 3i32] } else { seq![-1i32, 4i32, -6i32, 4i32] }
}
pub open spec fn ints32(c: Seq<i32>) -> Seq<int> { c.map_values(|x: i32| x as int) }

pub proof fn lemma_ints16(c: Seq<i16>)
    ensures ints16(c).len() == c.len(), forall|i: int| 0 <= i < c.len() ==> -0x8000 <= #[trigger] ints16(c)[i] <= 0x7fff && ints16(c)[i] == c[i]
{ }

pub proof fn lemma_mul_i16_i32(a: int, b: i32)
    requires -0x8000 <= a <= 0x7fff
    ensures -0x4000_0000_0000 <= a * b <= 0x4000_0000_0000
{
    assert(-0x4000_0000_0000 <= a * b <= 0x4000_0000_0000) by(nonlinear_arith)
        requires -0x8000 <= a <= 0x7fff, -0x8000_0000 <= b <= 0x7fff_ffff;
}

/// Shifting an inner product.
pub proof fn lemma_shr_dot(x: i64, k: u32)
    requires k < 64, -0x8_0000_0000_0000 <= x <= 0x8_0000_0000_0000
    ensures x >> k == x as int / pow2(k as nat) as int, -0x8_0000_0000_0000 <= x >> k <= 0x8_0000_0000_0000
{
    lemma_shr_i64(x, k);
    let y = x >> k;
    assert(-0x8_0000_0000_0000i64 <= y && y <= 0x8_0000_0000_0000i64) by(bit_vector)
        requires y == x >> k, k < 64, -0x8_0000_0000_0000i64 <= x, x <= 0x8_0000_0000_0000i64;
}
