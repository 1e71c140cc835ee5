// Bit-level specification: a stream of bits, most significant bit of every byte first.

/// Bit i of a byte, counted from the most significant one.
pub open spec fn bit8(b: u8, i: int) -> bool {
    ((b as u32) >> ((7 - i) as u32)) & 1 == 1
}

/// The first n bits of a byte.
#[verifier::opaque]
pub open spec fn byte_bits(b: u8, n: int) -> Seq<bool> {
    Seq::new(n as nat, |i: int| bit8(b, i))
}

/// All bits of a sequence of bytes.
#[verifier::opaque]
pub open spec fn bytes_bits(s: Seq<u8>) -> Seq<bool> {
    Seq::new(8 * s.len(), |i: int| bit8(s[i / 8], i % 8))
}

/// The number formed by a sequence of bits.
pub open spec fn val(s: Seq<bool>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { 2 * val(s.drop_last()) + (if s.last() { 1nat } else { 0nat }) }
}

/// The number of zero bits before the first one bit (or the length if there is none).
pub open spec fn lead0(s: Seq<bool>) -> nat
    decreases s.len()
{
    if s.len() == 0 || s[0] { 0 } else { 1 + lead0(s.skip(1)) }
}

/// The bits a partially read byte followed by whole bytes stands for.
pub open spec fn bit_view(data: u8, left: u32, rem: Seq<u8>) -> Seq<bool> {
    byte_bits(data, left as int) + bytes_bits(rem)
}

/// The representation invariant of a bit reader: fewer than 8 bits are pending, and the unused
/// low bits of the pending byte are zero.
pub open spec fn bits_wf(data: u8, left: u32) -> bool {
    left < 8 && ((data as u32) << left) & 0xff == 0
}

pub proof fn lemma_byte_bits_len(b: u8, n: int)
    requires 0 <= n
    ensures byte_bits(b, n).len() == n
{
    reveal(byte_bits);
}

pub broadcast proof fn lemma_bytes_bits_len(s: Seq<u8>)
    ensures (#[trigger] bytes_bits(s)).len() == 8 * s.len()
{
    reveal(bytes_bits);
}

pub broadcast proof fn lemma_bit_view_len(data: u8, left: u32, rem: Seq<u8>)
    ensures (#[trigger] bit_view(data, left, rem)).len() == left + 8 * rem.len()
{
    reveal(byte_bits);
    reveal(bytes_bits);
}

/// Taking the first byte off.
pub proof fn lemma_bytes_bits_first(s: Seq<u8>)
    requires s.len() > 0
    ensures bytes_bits(s) == byte_bits(s[0], 8) + bytes_bits(s.skip(1))
{
    reveal(byte_bits);
    reveal(bytes_bits);
    let l = bytes_bits(s);
    let r = byte_bits(s[0], 8) + bytes_bits(s.skip(1));
    assert(l.len() == r.len());
    assert forall|i: int| 0 <= i < l.len() implies l[i] == r[i] by {
        if i >= 8 {
            assert((i - 8) / 8 == i / 8 - 1);
            assert((i - 8) % 8 == i % 8);
            assert(s.skip(1)[(i - 8) / 8] == s[i / 8]);
        }
    }
    assert(l =~= r);
}

pub proof fn lemma_bytes_bits_cat(s: Seq<u8>, t: Seq<u8>)
    ensures bytes_bits(s + t) == bytes_bits(s) + bytes_bits(t)
{
    reveal(bytes_bits);
    let l = bytes_bits(s + t);
    let r = bytes_bits(s) + bytes_bits(t);
    assert forall|i: int| 0 <= i < l.len() implies l[i] == r[i] by {
        if i >= 8 * s.len() {
            assert((i - 8 * s.len()) / 8 == i / 8 - s.len());
            assert((i - 8 * s.len()) % 8 == i % 8);
        }
    }
    assert(l =~= r);
}

/// Skipping whole bytes.
pub proof fn lemma_bytes_bits_skip(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len()
    ensures bytes_bits(s.skip(k)) == bytes_bits(s).skip(8 * k)
{
    lemma_bytes_bits_cat(s.take(k), s.skip(k));
    assert(s.take(k) + s.skip(k) =~= s);
    lemma_bytes_bits_len(s.take(k));
    assert(bytes_bits(s).skip(8 * k) =~= bytes_bits(s.skip(k)));
}

// ------------------------------------------------------------------ numbers

pub proof fn lemma_val_cat(s: Seq<bool>, t: Seq<bool>)
    ensures val(s + t) == val(s) * pow2(t.len()) + val(t)
    decreases t.len()
{
    if t.len() == 0 {
        assert(s + t =~= s);
        lemma2_to64();
        assert(val(s) * pow2(0) == val(s)) by(nonlinear_arith) requires pow2(0) == 1;
    } else {
        lemma_val_cat(s, t.drop_last());
        assert((s + t).drop_last() =~= s + t.drop_last());
        lemma_pow2_unfold(t.len());
        assert(val(s) * pow2(t.len()) == 2 * (val(s) * pow2((t.len() - 1) as nat))) by(nonlinear_arith)
            requires pow2(t.len()) == 2 * pow2((t.len() - 1) as nat);
    }
}

pub proof fn lemma_val_bound(s: Seq<bool>)
    ensures val(s) < pow2(s.len())
    decreases s.len()
{
    if s.len() == 0 {
        lemma2_to64();
    } else {
        lemma_val_bound(s.drop_last());
        lemma_pow2_unfold(s.len());
    }
}

pub proof fn lemma_val_one(b: bool)
    ensures val(seq![b]) == (if b { 1nat } else { 0nat })
{
    assert(seq![b].drop_last() =~= Seq::<bool>::empty());
    assert(val(seq![b].drop_last()) == 0);
}

/// Bits i..i+n of a byte as a number.
pub proof fn lemma_val_byte(b: u8, i: int, n: int)
    requires 0 <= i, 0 <= n, i + n <= 8
    ensures val(byte_bits(b, i + n).skip(i)) == (((b as u32) << (i as u32)) & 0xff) >> ((8 - n) as u32)
    decreases n
{
    reveal(byte_bits);
    let s = byte_bits(b, i + n).skip(i);
    if n == 0 {
        let x = (b as u32) << (i as u32);
        assert((x & 0xff) >> 8u32 == 0) by(bit_vector);
    } else {
        lemma_val_byte(b, i, n - 1);
        assert(s.drop_last() =~= byte_bits(b, i + n - 1).skip(i));
        assert(s.last() == bit8(b, i + n - 1));
        let bb = b as u32;
        let ii = i as u32;
        let nn = n as u32;
        assert(((bb << ii) & 0xff) >> sub(8, nn) ==
            mul(2, ((bb << ii) & 0xff) >> sub(9, nn)) + (if (bb >> sub(8, add(ii, nn))) & 1 == 1 { 1u32 } else { 0u32 })) by(bit_vector)
            requires bb < 256, nn >= 1, add(ii, nn) <= 8, ii <= 8, nn <= 8;
        assert(((bb << ii) & 0xff) >> sub(9, nn) < 0x80000000u32) by(bit_vector) requires nn <= 8;
    }
}

/// Shifting a pending byte left drops its first k bits.
pub proof fn lemma_byte_bits_shift(b: u8, c: u8, left: u32, k: u32)
    requires k <= left <= 8, c as u32 == ((b as u32) << k) & 0xff
    ensures byte_bits(c, left - k) == byte_bits(b, left as int).skip(k as int)
{
    reveal(byte_bits);
    let l = byte_bits(c, left - k);
    let r = byte_bits(b, left as int).skip(k as int);
    assert forall|i: int| 0 <= i < l.len() implies l[i] == r[i] by {
        let bb = b as u32;
        let cc = c as u32;
        let ii = i as u32;
        assert((cc >> sub(7, ii)) & 1 == (bb >> sub(7, add(ii, k))) & 1) by(bit_vector)
            requires cc == (bb << k) & 0xff, bb < 256, add(ii, k) <= 7, ii <= 7, k <= 8;
    }
    assert(l =~= r);
}

/// The unused bits stay zero.
pub proof fn lemma_wf_shift(b: u8, c: u8, left: u32, k: u32)
    requires k <= left <= 8, c as u32 == ((b as u32) << k) & 0xff, ((b as u32) << left) & 0xff == 0
    ensures ((c as u32) << ((left - k) as u32)) & 0xff == 0
{
    let bb = b as u32;
    let cc = c as u32;
    assert((cc << sub(left, k)) & 0xff == 0) by(bit_vector)
        requires cc == (bb << k) & 0xff, (bb << left) & 0xff == 0, k <= left, left <= 8;
}

pub proof fn lemma_wf_full(b: u8)
    ensures ((b as u32) << 8u32) & 0xff == 0
{
    let bb = b as u32;
    assert((bb << 8u32) & 0xff == 0) by(bit_vector);
}

/// (m << k) | l for l of at most k bits.
pub proof fn lemma_shl_or(m: u32, l: u32, k: u32)
    requires k < 32, l < pow2(k as nat), m * pow2(k as nat) <= u32::MAX
    ensures ((m << k) | l) == m * pow2(k as nat) + l, (m << k) == m * pow2(k as nat)
{
    vstd::bits::lemma_u32_pow2_no_overflow(k as nat);
    vstd::bits::lemma_u32_shl_is_mul(1, k);
    vstd::bits::lemma_u32_shl_is_mul(m, k);
    assert(((m << k) | l) == add(m << k, l)) by(bit_vector)
        requires k < 32, l < (1u32 << k);
    assert((m << k) <= sub(0xffffffff, l)) by(bit_vector) requires k < 32, l < (1u32 << k);
}

/// What a fixed-width read from bits `p` (pending) and `q` (following) yields.
pub proof fn lemma_lead0_bound(s: Seq<bool>)
    ensures lead0(s) <= s.len(),
        forall|i: int| 0 <= i < lead0(s) ==> !s[i],
        lead0(s) < s.len() ==> s[lead0(s) as int],
    decreases s.len()
{
    if s.len() == 0 || s[0] {
    } else {
        lemma_lead0_bound(s.skip(1));
        assert forall|i: int| 0 <= i < lead0(s) implies !s[i] by {
            if i > 0 { assert(s.skip(1)[i - 1] == s[i]); }
        }
        if lead0(s) < s.len() {
            assert(s.skip(1)[lead0(s) as int - 1] == s[lead0(s) as int]);
        }
    }
}

/// lead0 is determined by the position of the first one bit.
pub proof fn lemma_lead0_is(s: Seq<bool>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> !s[i], n < s.len() ==> s[n]
    ensures lead0(s) == n
{
    lemma_lead0_bound(s);
    let m = lead0(s) as int;
    if m < n { assert(!s[m]); }
    if n < m { assert(!s[n]); }
}

/// lead0 after a prefix of zero bits.
pub proof fn lemma_lead0_skip(s: Seq<bool>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> !s[i]
    ensures lead0(s) == k + lead0(s.skip(k))
{
    lemma_lead0_bound(s.skip(k));
    let m = k + lead0(s.skip(k));
    assert forall|i: int| 0 <= i < m implies !s[i] by {
        if i >= k { assert(s.skip(k)[i - k] == s[i]); }
    }
    if m < s.len() { assert(s.skip(k)[m - k] == s[m]); }
    lemma_lead0_is(s, m as int);
}

/// leading_zeros of a byte counts its leading zero bits.
pub proof fn lemma_clz8(b: u8, z: u32)
    requires z <= 8,
        z < 8 ==> ((b as u32) >> ((7 - z) as u32)) & 1 == 1,
        (b as u32) >> ((8 - z) as u32) == 0,
    ensures forall|i: int| 0 <= i < z ==> !bit8(b, i), z < 8 ==> bit8(b, z as int), z == 8 ==> b == 0
{
    let bb = b as u32;
    assert forall|i: int| 0 <= i < z implies !bit8(b, i) by {
        let ii = i as u32;
        assert((bb >> sub(7, ii)) & 1 != 1) by(bit_vector)
            requires bb >> sub(8, z) == 0, ii < z, z <= 8;
    }
    if z == 8 {
        assert(bb == 0) by(bit_vector) requires bb >> 0u32 == 0;
    }
}


// ------------------------------------------------------------------ the bit reader

/// The first n bits of a byte as a number.
pub proof fn lemma_val_byte0(b: u8, n: int)
    requires 0 <= n <= 8
    ensures val(byte_bits(b, n)) == (b as u32) >> ((8 - n) as u32)
{
    lemma_val_byte(b, 0, n);
    assert(byte_bits(b, n).skip(0) =~= byte_bits(b, n));
    let bb = b as u32;
    assert(((bb << 0u32) & 0xff) == bb) by(bit_vector) requires bb < 256;
}

/// Consuming k bits of the pending byte.
pub proof fn lemma_view_shift(d: u8, l: u32, rem: Seq<u8>, k: u32, d2: u8)
    requires bits_wf(d, l), k <= l, d2 as u32 == ((d as u32) << k) & 0xff
    ensures
        bits_wf(d2, (l - k) as u32),
        bit_view(d2, (l - k) as u32, rem) == bit_view(d, l, rem).skip(k as int),
        bit_view(d, l, rem).take(k as int) == byte_bits(d, k as int),
{
    lemma_wf_shift(d, d2, l, k);
    lemma_byte_bits_shift(d, d2, l, k);
    lemma_byte_bits_len(d, l as int);
    lemma_byte_bits_len(d, k as int);
    assert(byte_bits(d, l as int).take(k as int) =~= byte_bits(d, k as int)) by { reveal(byte_bits); }
    assert(bit_view(d2, (l - k) as u32, rem) =~= bit_view(d, l, rem).skip(k as int));
    assert(bit_view(d, l, rem).take(k as int) =~= byte_bits(d, l as int).take(k as int));
}

/// Consuming the pending byte, and j bits of the next one.
pub proof fn lemma_view_refill(d: u8, l: u32, rem: Seq<u8>, j: u32, d2: u8)
    requires bits_wf(d, l), rem.len() > 0, 0 < j <= 8, d2 as u32 == ((rem[0] as u32) << j) & 0xff
    ensures
        bits_wf(d2, (8 - j) as u32),
        bit_view(d2, (8 - j) as u32, rem.skip(1)) == bit_view(d, l, rem).skip(l + j),
        bit_view(d, l, rem).take(l + j) == byte_bits(d, l as int) + byte_bits(rem[0], j as int),
{
    lemma_wf_full(rem[0]);
    lemma_wf_shift(rem[0], d2, 8, j);
    lemma_byte_bits_shift(rem[0], d2, 8, j);
    lemma_byte_bits_len(d, l as int);
    lemma_byte_bits_len(rem[0], j as int);
    lemma_byte_bits_len(rem[0], 8);
    lemma_bytes_bits_first(rem);
    assert(byte_bits(rem[0], 8).take(j as int) =~= byte_bits(rem[0], j as int)) by { reveal(byte_bits); }
    assert(bit_view(d2, (8 - j) as u32, rem.skip(1)) =~= bit_view(d, l, rem).skip(l + j));
    assert(bit_view(d, l, rem).take(l + j) =~= byte_bits(d, l as int) + byte_bits(rem[0], j as int));
}

/// Consuming the pending byte, the next one and j bits of the one after.
pub proof fn lemma_view_refill2(d: u8, l: u32, rem: Seq<u8>, j: u32, d2: u8)
    requires bits_wf(d, l), rem.len() > 1, 0 < j <= 8, d2 as u32 == ((rem[1] as u32) << j) & 0xff
    ensures
        bits_wf(d2, (8 - j) as u32),
        bit_view(d2, (8 - j) as u32, rem.skip(2)) == bit_view(d, l, rem).skip(l + 8 + j),
        bit_view(d, l, rem).take(l + 8 + j) == byte_bits(d, l as int) + byte_bits(rem[0], 8) + byte_bits(rem[1], j as int),
{
    let r1 = rem.skip(1);
    assert(r1.skip(1) =~= rem.skip(2));
    let z = 0u8;
    assert(z as u32 == ((rem[0] as u32) << 8u32) & 0xff) by {
        let x = rem[0] as u32;
        assert((x << 8u32) & 0xff == 0) by(bit_vector);
    }
    lemma_view_refill(d, l, rem, 8, z);
    lemma_view_refill(z, 0, r1, j, d2);
    let a = bit_view(d, l, rem);
    lemma_bit_view_len(d, l, rem);
    lemma_byte_bits_len(z, 0);
    assert(a.skip(l + 8).skip(j as int) =~= a.skip(l + 8 + j));
    assert(a.take(l + 8 + j) =~= a.take(l + 8) + a.skip(l + 8).take(j as int));
    assert(byte_bits(z, 0) + byte_bits(rem[1], j as int) =~= byte_bits(rem[1], j as int));
}

pub proof fn lemma_read_bit(d: u8, l: u32, rem: Seq<u8>, d2: u8, l2: u32, rem2: Seq<u8>, r: u8)
    requires
        bits_wf(d, l),
        if l == 0 {
            rem.len() > 0 && rem2 == rem.skip(1) && l2 == 7 && d2 as u32 == ((rem[0] as u32) << 1) & 0xff && r == rem[0] & 0x80
        } else {
            rem2 == rem && l2 == l - 1 && d2 as u32 == ((d as u32) << 1) & 0xff && r == d & 0x80
        },
    ensures
        bits_wf(d2, l2),
        bit_view(d, l, rem).len() > 0,
        bit_view(d2, l2, rem2) == bit_view(d, l, rem).skip(1),
        bit_view(d, l, rem)[0] == (r != 0),
{
    let b = if l == 0 { rem[0] } else { d };
    assert((b & 0x80 != 0) == (((b as u32) >> 7u32) & 1 == 1)) by(bit_vector);
    assert(byte_bits(b, 1)[0] == bit8(b, 0)) by { reveal(byte_bits); }
    lemma_bit_view_len(d, l, rem);
    if l == 0 {
        lemma_view_refill(d, l, rem, 1, d2);
        lemma_byte_bits_len(d, 0);
        lemma_byte_bits_len(b, 1);
        assert(bit_view(d, l, rem)[0] == bit_view(d, l, rem).take(1)[0]);
    } else {
        lemma_view_shift(d, l, rem, 1, d2);
        assert(bit_view(d, l, rem)[0] == bit_view(d, l, rem).take(1)[0]);
    }
}

pub open spec fn mask8(n: u32) -> u32 { (0xffu32 << ((8 - n) as u32)) & 0xff }

pub proof fn lemma_mask_wf(d: u8, l: u32)
    requires bits_wf(d, l)
    ensures forall|m: u8| m as u32 == mask8(l) ==> #[trigger] (d & !m) == 0
{
    assert forall|m: u8| m as u32 == mask8(l) implies #[trigger] (d & !m) == 0 by {
        assert((d & !m) == 0) by(bit_vector)
            requires l < 8, ((d as u32) << l) & 0xff == 0, m as u32 == (0xffu32 << sub(8, l)) & 0xff;
    }
}

pub proof fn lemma_leq_u8_near(d: u8, l: u32, rem: Seq<u8>, k: u32, d2: u8, m: u8, r: u8)
    requires
        bits_wf(d, l), k <= l, k <= 8,
        d2 as u32 == ((d as u32) << k) & 0xff,
        m as u32 == mask8(k),
        r as u32 == ((d & m) as u32) >> ((8 - k) as u32),
    ensures
        bit_view(d, l, rem).len() >= k,
        bits_wf(d2, (l - k) as u32),
        bit_view(d2, (l - k) as u32, rem) == bit_view(d, l, rem).skip(k as int),
        r as nat == val(bit_view(d, l, rem).take(k as int)),
{
    lemma_bit_view_len(d, l, rem);
    lemma_view_shift(d, l, rem, k, d2);
    lemma_val_byte0(d, k as int);
    assert(((d & m) as u32) >> sub(8, k) == (d as u32) >> sub(8, k)) by(bit_vector)
        requires k <= 8, m as u32 == (0xffu32 << sub(8, k)) & 0xff;
}

pub proof fn lemma_leq_u8_far(d: u8, l: u32, rem: Seq<u8>, k: u32, d2: u8, m: u8, r: u8)
    requires
        bits_wf(d, l), l < k <= 8, rem.len() > 0,
        d2 as u32 == ((rem[0] as u32) << ((k - l) as u32)) & 0xff,
        m as u32 == mask8((k - l) as u32),
        r as u32 == ((d | ((rem[0] & m) >> l)) as u32) >> ((8 - k) as u32),
    ensures
        bit_view(d, l, rem).len() >= k,
        bits_wf(d2, (8 - (k - l)) as u32),
        bit_view(d2, (8 - (k - l)) as u32, rem.skip(1)) == bit_view(d, l, rem).skip(k as int),
        r as nat == val(bit_view(d, l, rem).take(k as int)),
{
    let j = (k - l) as u32;
    let f = rem[0];
    lemma_bit_view_len(d, l, rem);
    lemma_view_refill(d, l, rem, j, d2);
    lemma_val_byte0(d, l as int);
    lemma_val_byte0(f, j as int);
    lemma_byte_bits_len(f, j as int);
    lemma_val_cat(byte_bits(d, l as int), byte_bits(f, j as int));
    lemma_val_bound(byte_bits(f, j as int));
    let a = (d as u32) >> sub(8, l);
    let b = (f as u32) >> sub(8, j);
    assert(a < 256) by(bit_vector) requires a == (d as u32) >> sub(8, l);
    lemma2_to64();
    vstd::arithmetic::power2::lemma_pow2_strictly_increases(j as nat, 9);
    assert(a * pow2(j as nat) <= u32::MAX) by(nonlinear_arith) requires a < 256, pow2(j as nat) < 512;
    lemma_shl_or(a, b, j);
    assert(((d | ((f & m) >> l)) as u32) >> sub(8, k) == (a << j) | b) by(bit_vector)
        requires l < k, k <= 8, j == sub(k, l), ((d as u32) << l) & 0xff == 0, m as u32 == (0xffu32 << sub(8, j)) & 0xff,
            a == (d as u32) >> sub(8, l), b == (f as u32) >> sub(8, j);
}

/// 8 to 16 bits, with one or two fresh bytes.
pub proof fn lemma_gt_u8_one(d: u8, l: u32, rem: Seq<u8>, k: u32, d2: u8, r: u32)
    requires
        bits_wf(d, l), 8 < k <= 16, k - l <= 8, rem.len() > 0,
        d2 as u32 == ((rem[0] as u32) << ((k - l) as u32)) & 0xff,
        r == ((((d as u32) << ((k - 8) as u32)) & (0xffffffffu32 << ((k - l) as u32))) | ((rem[0] as u32) >> ((8 - (k - l)) as u32))),
    ensures
        bit_view(d, l, rem).len() >= k,
        bits_wf(d2, (8 - (k - l)) as u32),
        bit_view(d2, (8 - (k - l)) as u32, rem.skip(1)) == bit_view(d, l, rem).skip(k as int),
        r as nat == val(bit_view(d, l, rem).take(k as int)),
{
    let j = (k - l) as u32;
    let f = rem[0];
    lemma_bit_view_len(d, l, rem);
    lemma_view_refill(d, l, rem, j, d2);
    lemma_val_byte0(d, l as int);
    lemma_val_byte0(f, j as int);
    lemma_byte_bits_len(f, j as int);
    lemma_val_cat(byte_bits(d, l as int), byte_bits(f, j as int));
    lemma_val_bound(byte_bits(f, j as int));
    let a = (d as u32) >> sub(8, l);
    let b = (f as u32) >> sub(8, j);
    assert(a < 256) by(bit_vector) requires a == (d as u32) >> sub(8, l);
    lemma2_to64();
    vstd::arithmetic::power2::lemma_pow2_strictly_increases(j as nat, 9);
    assert(a * pow2(j as nat) <= u32::MAX) by(nonlinear_arith) requires a < 256, pow2(j as nat) < 512;
    lemma_shl_or(a, b, j);
    assert(((((d as u32) << sub(k, 8)) & (0xffffffffu32 << sub(k, l))) | ((f as u32) >> sub(8, sub(k, l)))) == (a << j) | b) by(bit_vector)
        requires l < 8, l < k, 8 < k, k <= 16, sub(k, l) <= 8, j == sub(k, l), ((d as u32) << l) & 0xff == 0,
            a == (d as u32) >> sub(8, l), b == (f as u32) >> sub(8, j);
}

pub proof fn lemma_gt_u8_two(d: u8, l: u32, rem: Seq<u8>, k: u32, d2: u8, r: u32)
    requires
        bits_wf(d, l), 8 < k <= 16, k - l > 8, rem.len() > 1,
        d2 as u32 == ((rem[1] as u32) << ((k - l - 8) as u32)) & 0xff,
        r == ((((d as u32) << ((k - 8) as u32)) & (0xffffffffu32 << ((k - l) as u32)))
            | ((rem[0] as u32) << ((k - l - 8) as u32)) | ((rem[1] as u32) >> ((16 - (k - l)) as u32))),
    ensures
        bit_view(d, l, rem).len() >= k,
        bits_wf(d2, (16 - (k - l)) as u32),
        bit_view(d2, (16 - (k - l)) as u32, rem.skip(2)) == bit_view(d, l, rem).skip(k as int),
        r as nat == val(bit_view(d, l, rem).take(k as int)),
{
    let j = (k - l - 8) as u32;
    let f = rem[0];
    let g = rem[1];
    lemma_bit_view_len(d, l, rem);
    lemma_view_refill2(d, l, rem, j, d2);
    lemma_val_byte0(d, l as int);
    lemma_val_byte0(f, 8);
    lemma_val_byte0(g, j as int);
    lemma_byte_bits_len(f, 8);
    lemma_byte_bits_len(g, j as int);
    lemma_val_cat(byte_bits(d, l as int), byte_bits(f, 8));
    lemma_val_cat(byte_bits(d, l as int) + byte_bits(f, 8), byte_bits(g, j as int));
    lemma_val_bound(byte_bits(f, 8));
    lemma_val_bound(byte_bits(g, j as int));
    let a = (d as u32) >> sub(8, l);
    let b = (f as u32) >> 0u32;
    let c = (g as u32) >> sub(8, j);
    assert(a < 256) by(bit_vector) requires a == (d as u32) >> sub(8, l);
    assert(b == f as u32) by(bit_vector) requires b == (f as u32) >> 0u32;
    lemma2_to64();
    lemma_shl_or(a, b, 8);
    let ab = (a << 8u32) | b;
    vstd::arithmetic::power2::lemma_pow2_strictly_increases(j as nat, 9);
    assert(ab * pow2(j as nat) <= u32::MAX) by(nonlinear_arith) requires ab < 0x10000, pow2(j as nat) < 512;
    lemma_shl_or(ab, c, j);
    assert(((((d as u32) << sub(k, 8)) & (0xffffffffu32 << sub(k, l))) | ((f as u32) << sub(sub(k, l), 8)) | ((g as u32) >> sub(16, sub(k, l))))
        == ((((a << 8u32) | (f as u32)) << j) | c)) by(bit_vector)
        requires l < 8, l < k, 8 < k, k <= 16, sub(k, l) > 8, j == sub(sub(k, l), 8), ((d as u32) << l) & 0xff == 0,
            a == (d as u32) >> sub(8, l), c == (g as u32) >> sub(8, j);
}

/// Two reads in a row form one read.
pub proof fn lemma_val_two(s: Seq<bool>, i: int, j: int, a: u32, b: u32)
    requires 0 <= i, 0 <= j, i + j <= s.len(), i + j <= 32,
        a == val(s.take(i)), b == val(s.skip(i).take(j)),
    ensures
        val(s.take(i + j)) == ((a << (j as u32)) | b) || j == 32,
        s.skip(i).skip(j) == s.skip(i + j),
        val(s.take(i + j)) < pow2((i + j) as nat),
{
    assert(s.skip(i).skip(j) =~= s.skip(i + j));
    assert(s.take(i + j) =~= s.take(i) + s.skip(i).take(j));
    lemma_val_cat(s.take(i), s.skip(i).take(j));
    lemma_val_bound(s.skip(i).take(j));
    lemma_val_bound(s.take(i + j));
    lemma2_to64();
    if i + j < 32 {
        lemma_pow2_strictly_increases((i + j) as nat, 32);
    }
    if j < 32 {
        lemma_shl_or(a, b, j as u32);
    }
}

/// A number read from n bits is small.
pub proof fn lemma_val_small(s: Seq<bool>, n: nat)
    requires s.len() <= n
    ensures val(s) < pow2(n)
{
    lemma_val_bound(s);
    if s.len() < n { lemma_pow2_strictly_increases(s.len(), n); }
}

/// Counting zeros within the pending byte.
pub proof fn lemma_unary_near(d: u8, l: u32, rem: Seq<u8>, n: u32, d2: u8)
    requires bits_wf(d, l), n < l, n < 8,
        ((d as u32) >> ((7 - n) as u32)) & 1 == 1, (d as u32) >> ((8 - n) as u32) == 0,
        d2 as u32 == ((d as u32) << ((n + 1) as u32)) & 0xff,
    ensures
        lead0(bit_view(d, l, rem)) == n,
        n < bit_view(d, l, rem).len(),
        bits_wf(d2, (l - (n + 1)) as u32),
        bit_view(d2, (l - (n + 1)) as u32, rem) == bit_view(d, l, rem).skip(n + 1),
{
    lemma_bit_view_len(d, l, rem);
    lemma_view_shift(d, l, rem, (n + 1) as u32, d2);
    lemma_clz8(d, n);
    reveal(byte_bits);
    lemma_lead0_is(bit_view(d, l, rem), n as int);
}

/// The pending bits are all zeros.
pub proof fn lemma_unary_pending(d: u8, l: u32, rem: Seq<u8>, n: u32)
    requires bits_wf(d, l), n >= l, n <= 8, (d as u32) >> ((8 - n) as u32) == 0,
        n < 8 ==> ((d as u32) >> ((7 - n) as u32)) & 1 == 1,
    ensures
        forall|i: int| 0 <= i < l ==> !(#[trigger] bit_view(d, l, rem)[i]),
        bit_view(d, l, rem).skip(l as int) == bytes_bits(rem),
{
    lemma_bit_view_len(d, l, rem);
    lemma_byte_bits_len(d, l as int);
    lemma_clz8(d, n);
    reveal(byte_bits);
    assert(bit_view(d, l, rem).skip(l as int) =~= bytes_bits(rem));
}

/// One more byte of a unary number; n zeros precede it.
pub proof fn lemma_unary_byte(s: Seq<bool>, n: int, rem: Seq<u8>, z: u32)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> !(#[trigger] s[i]), s.skip(n) == bytes_bits(rem), rem.len() > 0,
        z <= 8, (rem[0] as u32) >> ((8 - z) as u32) == 0, z < 8 ==> ((rem[0] as u32) >> ((7 - z) as u32)) & 1 == 1,
    ensures
        n + z <= s.len(),
        forall|i: int| 0 <= i < n + z ==> !(#[trigger] s[i]),
        z < 8 ==> n + z < s.len() && lead0(s) == n + z,
        z == 8 ==> s.skip(n + 8) == bytes_bits(rem.skip(1)),
        lead0(s) >= n + z,
{
    lemma_bytes_bits_len(rem);
    lemma_bytes_bits_first(rem);
    lemma_byte_bits_len(rem[0], 8);
    lemma_clz8(rem[0], z);
    reveal(byte_bits);
    assert forall|i: int| 0 <= i < n + z implies !(#[trigger] s[i]) by {
        if i >= n {
            assert(s.skip(n)[i - n] == s[i]);
        }
    }
    if z < 8 {
        assert(s.skip(n)[z as int] == s[n + z]);
        lemma_lead0_is(s, n + z);
    } else {
        assert(s.skip(n + 8) =~= s.skip(n).skip(8));
        assert(bytes_bits(rem).skip(8) =~= bytes_bits(rem.skip(1)));
    }
    lemma_lead0_skip(s, n + z);
}

pub proof fn lemma_unary_end(s: Seq<bool>, n: int, rem: Seq<u8>, z: u32, d2: u8)
    requires 0 <= n <= s.len(), s.skip(n) == bytes_bits(rem), rem.len() > 0, z < 8,
        d2 as u32 == ((rem[0] as u32) << ((z + 1) as u32)) & 0xff,
    ensures
        bits_wf(d2, (8 - (z + 1)) as u32),
        bit_view(d2, (8 - (z + 1)) as u32, rem.skip(1)) == s.skip(n + z + 1),
{
    let e = 0u8;
    assert(((0u8 as u32) << 0u32) & 0xff == 0) by(bit_vector);
    lemma_byte_bits_len(e, 0);
    lemma_bytes_bits_len(rem);
    assert(bit_view(e, 0, rem) =~= bytes_bits(rem));
    lemma_view_refill(e, 0, rem, (z + 1) as u32, d2);
    assert(s.skip(n + z + 1) =~= s.skip(n).skip(z + 1));
}

/// No one bit is left.
pub proof fn lemma_unary_eof(s: Seq<bool>, n: int)
    requires n == s.len(), forall|i: int| 0 <= i < n ==> !(#[trigger] s[i])
    ensures lead0(s) == s.len()
{
    lemma_lead0_is(s, n);
}

pub broadcast group group_bits {
    lemma_bytes_bits_len,
    lemma_bit_view_len,
}

// ------------------------------------------------------------------ outcomes of bit-level reads

/// Success: `k` bits were consumed.
#[verifier::prophetic]
pub open spec fn bwent<R: ReadBytes>(o: Bitstream<R>, n: Bitstream<R>, k: int) -> bool {
    &&& same(o.reader, n.reader)
    &&& n.reader.fault() == o.reader.fault()
    &&& adv(o.reader, n.reader)
    &&& 0 <= k <= o.bits().len()
    &&& n.bits() == o.bits().skip(k)
}

/// Success, after which the bits `rest` are left.
#[verifier::prophetic]
pub open spec fn bleft<R: ReadBytes>(o: Bitstream<R>, n: Bitstream<R>, rest: Seq<bool>) -> bool {
    &&& same(o.reader, n.reader)
    &&& n.reader.fault() == o.reader.fault()
    &&& adv(o.reader, n.reader)
    &&& n.bits() == rest
}

/// Failure.
#[verifier::prophetic]
pub open spec fn bstop<R: ReadBytes>(o: Bitstream<R>, n: Bitstream<R>) -> bool {
    stopped(o.reader, n.reader)
}

pub open spec fn bfail<R: ReadBytes>(o: Bitstream<R>, short: bool, e: io::Error) -> bool {
    io_fail(o.reader, short, e)
}

pub proof fn lemma_mask_u8(n: u32)
    requires n <= 8
    ensures mask8(n) as u8 as u32 == mask8(n)
{
    assert(((0xffu32 << sub(8, n)) & 0xff) as u8 as u32 == (0xffu32 << sub(8, n)) & 0xff) by(bit_vector);
}

/// The meaning of leading_zeros in terms of shifts.
pub proof fn lemma_clz_axiom(b: u8, z: u32)
    requires z == vstd::std_specs::bits::u8_leading_zeros(b)
    ensures z <= 8, (b as u32) >> ((8 - z) as u32) == 0, z < 8 ==> ((b as u32) >> ((7 - z) as u32)) & 1 == 1,
{
    broadcast use vstd::std_specs::bits::axiom_u8_leading_zeros;
    let y = z as u8;
    if z < 8 {
        assert((b >> sub(7u8, y)) & 1u8 != 0u8);
        assert(((b as u32) >> sub(7u32, z)) & 1 == 1) by(bit_vector)
            requires z < 8, y == z as u8, (b >> sub(7u8, y)) & 1u8 != 0u8;
    }
    assert(b >> sub(8u8, y) == 0u8);
    assert((b as u32) >> sub(8u32, z) == 0) by(bit_vector)
        requires z <= 8, y == z as u8, z > 0 ==> b >> sub(8u8, y) == 0u8;
}

/// Casting to u8 truncates.
pub proof fn lemma_trunc_u8()
    ensures forall|x: u32| (#[trigger] (x as u8)) as u32 == x & 0xff
{
    assert forall|x: u32| (#[trigger] (x as u8)) as u32 == x & 0xff by {
        assert((x as u8) as u32 == x & 0xff) by(bit_vector);
    }
}

/// Everything that is read, relative to the start b.
pub proof fn lemma_bits_from<R: ReadBytes>(b: Bitstream<R>)
    ensures
        adv(b.reader, b.reader),
        forall|m: R, n: R| #[trigger] adv(b.reader, m) && #[trigger] adv(m, n) ==> adv(b.reader, n),
{
    lemma_from(b.reader);
}
