// Facts about machine operators, offered to a function whose proof failed (second opinion only).
// Written by a generator once; each is proved by bit blasting.

pub open spec fn hpow(k: int) -> int { if k == 0 { 1 } else if k == 1 { 2 } else if k == 2 { 4 } else if k == 3 { 8 } else if k == 4 { 16 } else if k == 5 { 32 } else if k == 6 { 64 } else if k == 7 { 128 } else if k == 8 { 256 } else if k == 9 { 512 } else if k == 10 { 1024 } else if k == 11 { 2048 } else if k == 12 { 4096 } else if k == 13 { 8192 } else if k == 14 { 16384 } else if k == 15 { 32768 } else { 65536 } }
pub broadcast proof fn h_shl_u8_1(x: u8)
    requires x <= 127,
    ensures #[trigger] (x << 1) == x * 2,
{
    assert((x << 1) == x * 2) by(bit_vector) requires x <= 127;
}
pub broadcast proof fn h_shr_u8_1(x: u8)
    ensures #[trigger] (x >> 1) == x / 2,
{
    assert((x >> 1) == x / 2) by(bit_vector);
}
pub broadcast proof fn h_shl_u8_2(x: u8)
    requires x <= 63,
    ensures #[trigger] (x << 2) == x * 4,
{
    assert((x << 2) == x * 4) by(bit_vector) requires x <= 63;
}
pub broadcast proof fn h_shr_u8_2(x: u8)
    ensures #[trigger] (x >> 2) == x / 4,
{
    assert((x >> 2) == x / 4) by(bit_vector);
}
pub broadcast proof fn h_shl_u8_3(x: u8)
    requires x <= 31,
    ensures #[trigger] (x << 3) == x * 8,
{
    assert((x << 3) == x * 8) by(bit_vector) requires x <= 31;
}
pub broadcast proof fn h_shr_u8_3(x: u8)
    ensures #[trigger] (x >> 3) == x / 8,
{
    assert((x >> 3) == x / 8) by(bit_vector);
}
pub broadcast proof fn h_shl_u8_4(x: u8)
    requires x <= 15,
    ensures #[trigger] (x << 4) == x * 16,
{
    assert((x << 4) == x * 16) by(bit_vector) requires x <= 15;
}
pub broadcast proof fn h_shr_u8_4(x: u8)
    ensures #[trigger] (x >> 4) == x / 16,
{
    assert((x >> 4) == x / 16) by(bit_vector);
}
pub broadcast proof fn h_shl_u8_5(x: u8)
    requires x <= 7,
    ensures #[trigger] (x << 5) == x * 32,
{
    assert((x << 5) == x * 32) by(bit_vector) requires x <= 7;
}
pub broadcast proof fn h_shr_u8_5(x: u8)
    ensures #[trigger] (x >> 5) == x / 32,
{
    assert((x >> 5) == x / 32) by(bit_vector);
}
pub broadcast proof fn h_shl_u8_6(x: u8)
    requires x <= 3,
    ensures #[trigger] (x << 6) == x * 64,
{
    assert((x << 6) == x * 64) by(bit_vector) requires x <= 3;
}
pub broadcast proof fn h_shr_u8_6(x: u8)
    ensures #[trigger] (x >> 6) == x / 64,
{
    assert((x >> 6) == x / 64) by(bit_vector);
}
pub broadcast proof fn h_shl_u8_7(x: u8)
    requires x <= 1,
    ensures #[trigger] (x << 7) == x * 128,
{
    assert((x << 7) == x * 128) by(bit_vector) requires x <= 1;
}
pub broadcast proof fn h_shr_u8_7(x: u8)
    ensures #[trigger] (x >> 7) == x / 128,
{
    assert((x >> 7) == x / 128) by(bit_vector);
}
pub broadcast proof fn h_and_u8_1(x: u8)
    ensures #[trigger] (x & 1) == x % 2,
{
    assert((x & 1) == x % 2) by(bit_vector);
}
pub broadcast proof fn h_and_u8_2(x: u8)
    ensures #[trigger] (x & 3) == x % 4,
{
    assert((x & 3) == x % 4) by(bit_vector);
}
pub broadcast proof fn h_and_u8_3(x: u8)
    ensures #[trigger] (x & 7) == x % 8,
{
    assert((x & 7) == x % 8) by(bit_vector);
}
pub broadcast proof fn h_and_u8_4(x: u8)
    ensures #[trigger] (x & 15) == x % 16,
{
    assert((x & 15) == x % 16) by(bit_vector);
}
pub broadcast proof fn h_and_u8_5(x: u8)
    ensures #[trigger] (x & 31) == x % 32,
{
    assert((x & 31) == x % 32) by(bit_vector);
}
pub broadcast proof fn h_and_u8_6(x: u8)
    ensures #[trigger] (x & 63) == x % 64,
{
    assert((x & 63) == x % 64) by(bit_vector);
}
pub broadcast proof fn h_and_u8_7(x: u8)
    ensures #[trigger] (x & 127) == x % 128,
{
    assert((x & 127) == x % 128) by(bit_vector);
}
pub broadcast proof fn h_bit_u8_1(x: u8)
    ensures (#[trigger] (x & 2) != 0) == ((x / 2) % 2 == 1),
{
    assert(((x & 2) != 0) == ((x / 2) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u8_2(x: u8)
    ensures (#[trigger] (x & 4) != 0) == ((x / 4) % 2 == 1),
{
    assert(((x & 4) != 0) == ((x / 4) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u8_3(x: u8)
    ensures (#[trigger] (x & 8) != 0) == ((x / 8) % 2 == 1),
{
    assert(((x & 8) != 0) == ((x / 8) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u8_4(x: u8)
    ensures (#[trigger] (x & 16) != 0) == ((x / 16) % 2 == 1),
{
    assert(((x & 16) != 0) == ((x / 16) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u8_5(x: u8)
    ensures (#[trigger] (x & 32) != 0) == ((x / 32) % 2 == 1),
{
    assert(((x & 32) != 0) == ((x / 32) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u8_6(x: u8)
    ensures (#[trigger] (x & 64) != 0) == ((x / 64) % 2 == 1),
{
    assert(((x & 64) != 0) == ((x / 64) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u8_7(x: u8)
    ensures (#[trigger] (x & 128) != 0) == ((x / 128) % 2 == 1),
{
    assert(((x & 128) != 0) == ((x / 128) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_shlvar_u8_u8(x: u8, k: u8)
    ensures 0 <= k < 8 && x * hpow(k as int) <= 255 ==> #[trigger] (x << k) == x * hpow(k as int),
{
    assert((k == 0 && x <= 255 ==> x << k == x * 1) && (k == 1 && x <= 127 ==> x << k == x * 2) && (k == 2 && x <= 63 ==> x << k == x * 4) && (k == 3 && x <= 31 ==> x << k == x * 8) && (k == 4 && x <= 15 ==> x << k == x * 16) && (k == 5 && x <= 7 ==> x << k == x * 32) && (k == 6 && x <= 3 ==> x << k == x * 64) && (k == 7 && x <= 1 ==> x << k == x * 128)) by(bit_vector);
    if k < 8 && x * hpow(k as int) <= 255 {
        if k == 0 { assert(x <= 255) by(nonlinear_arith) requires x * 1 <= 255; }
        if k == 1 { assert(x <= 127) by(nonlinear_arith) requires x * 2 <= 255; }
        if k == 2 { assert(x <= 63) by(nonlinear_arith) requires x * 4 <= 255; }
        if k == 3 { assert(x <= 31) by(nonlinear_arith) requires x * 8 <= 255; }
        if k == 4 { assert(x <= 15) by(nonlinear_arith) requires x * 16 <= 255; }
        if k == 5 { assert(x <= 7) by(nonlinear_arith) requires x * 32 <= 255; }
        if k == 6 { assert(x <= 3) by(nonlinear_arith) requires x * 64 <= 255; }
        if k == 7 { assert(x <= 1) by(nonlinear_arith) requires x * 128 <= 255; }
    }
}
pub broadcast proof fn h_shlvar_u8_u32(x: u8, k: u32)
    ensures 0 <= k < 8 && x * hpow(k as int) <= 255 ==> #[trigger] (x << k) == x * hpow(k as int),
{
    assert((k == 0 && x <= 255 ==> x << k == x * 1) && (k == 1 && x <= 127 ==> x << k == x * 2) && (k == 2 && x <= 63 ==> x << k == x * 4) && (k == 3 && x <= 31 ==> x << k == x * 8) && (k == 4 && x <= 15 ==> x << k == x * 16) && (k == 5 && x <= 7 ==> x << k == x * 32) && (k == 6 && x <= 3 ==> x << k == x * 64) && (k == 7 && x <= 1 ==> x << k == x * 128)) by(bit_vector);
    if k < 8 && x * hpow(k as int) <= 255 {
        if k == 0 { assert(x <= 255) by(nonlinear_arith) requires x * 1 <= 255; }
        if k == 1 { assert(x <= 127) by(nonlinear_arith) requires x * 2 <= 255; }
        if k == 2 { assert(x <= 63) by(nonlinear_arith) requires x * 4 <= 255; }
        if k == 3 { assert(x <= 31) by(nonlinear_arith) requires x * 8 <= 255; }
        if k == 4 { assert(x <= 15) by(nonlinear_arith) requires x * 16 <= 255; }
        if k == 5 { assert(x <= 7) by(nonlinear_arith) requires x * 32 <= 255; }
        if k == 6 { assert(x <= 3) by(nonlinear_arith) requires x * 64 <= 255; }
        if k == 7 { assert(x <= 1) by(nonlinear_arith) requires x * 128 <= 255; }
    }
}
pub broadcast proof fn h_shlvar_u8_usize(x: u8, k: usize)
    ensures 0 <= k < 8 && x * hpow(k as int) <= 255 ==> #[trigger] (x << k) == x * hpow(k as int),
{
    assert((k == 0 && x <= 255 ==> x << k == x * 1) && (k == 1 && x <= 127 ==> x << k == x * 2) && (k == 2 && x <= 63 ==> x << k == x * 4) && (k == 3 && x <= 31 ==> x << k == x * 8) && (k == 4 && x <= 15 ==> x << k == x * 16) && (k == 5 && x <= 7 ==> x << k == x * 32) && (k == 6 && x <= 3 ==> x << k == x * 64) && (k == 7 && x <= 1 ==> x << k == x * 128)) by(bit_vector);
    if k < 8 && x * hpow(k as int) <= 255 {
        if k == 0 { assert(x <= 255) by(nonlinear_arith) requires x * 1 <= 255; }
        if k == 1 { assert(x <= 127) by(nonlinear_arith) requires x * 2 <= 255; }
        if k == 2 { assert(x <= 63) by(nonlinear_arith) requires x * 4 <= 255; }
        if k == 3 { assert(x <= 31) by(nonlinear_arith) requires x * 8 <= 255; }
        if k == 4 { assert(x <= 15) by(nonlinear_arith) requires x * 16 <= 255; }
        if k == 5 { assert(x <= 7) by(nonlinear_arith) requires x * 32 <= 255; }
        if k == 6 { assert(x <= 3) by(nonlinear_arith) requires x * 64 <= 255; }
        if k == 7 { assert(x <= 1) by(nonlinear_arith) requires x * 128 <= 255; }
    }
}
pub broadcast proof fn h_or_u8(x: u8, y: u8, k: u8)
    requires k < 8, y < (1 as u8) << k,
    ensures #[trigger] ((x << k) | y) == (x << k) + y,
{
    assert(((x << k) | y) == (x << k) + y) by(bit_vector) requires k < 8, y < (1 as u8) << k;
}
pub broadcast proof fn h_xor_u8(x: u8, y: u8)
    ensures #[trigger] (x ^ y) == (y ^ x),
{
    assert((x ^ y) == (y ^ x)) by(bit_vector);
}
pub broadcast proof fn h_shl_u16_1(x: u16)
    requires x <= 32767,
    ensures #[trigger] (x << 1) == x * 2,
{
    assert((x << 1) == x * 2) by(bit_vector) requires x <= 32767;
}
pub broadcast proof fn h_shr_u16_1(x: u16)
    ensures #[trigger] (x >> 1) == x / 2,
{
    assert((x >> 1) == x / 2) by(bit_vector);
}
pub broadcast proof fn h_shl_u16_2(x: u16)
    requires x <= 16383,
    ensures #[trigger] (x << 2) == x * 4,
{
    assert((x << 2) == x * 4) by(bit_vector) requires x <= 16383;
}
pub broadcast proof fn h_shr_u16_2(x: u16)
    ensures #[trigger] (x >> 2) == x / 4,
{
    assert((x >> 2) == x / 4) by(bit_vector);
}
pub broadcast proof fn h_shl_u16_3(x: u16)
    requires x <= 8191,
    ensures #[trigger] (x << 3) == x * 8,
{
    assert((x << 3) == x * 8) by(bit_vector) requires x <= 8191;
}
pub broadcast proof fn h_shr_u16_3(x: u16)
    ensures #[trigger] (x >> 3) == x / 8,
{
    assert((x >> 3) == x / 8) by(bit_vector);
}
pub broadcast proof fn h_shl_u16_4(x: u16)
    requires x <= 4095,
    ensures #[trigger] (x << 4) == x * 16,
{
    assert((x << 4) == x * 16) by(bit_vector) requires x <= 4095;
}
pub broadcast proof fn h_shr_u16_4(x: u16)
    ensures #[trigger] (x >> 4) == x / 16,
{
    assert((x >> 4) == x / 16) by(bit_vector);
}
pub broadcast proof fn h_shl_u16_5(x: u16)
    requires x <= 2047,
    ensures #[trigger] (x << 5) == x * 32,
{
    assert((x << 5) == x * 32) by(bit_vector) requires x <= 2047;
}
pub broadcast proof fn h_shr_u16_5(x: u16)
    ensures #[trigger] (x >> 5) == x / 32,
{
    assert((x >> 5) == x / 32) by(bit_vector);
}
pub broadcast proof fn h_shl_u16_6(x: u16)
    requires x <= 1023,
    ensures #[trigger] (x << 6) == x * 64,
{
    assert((x << 6) == x * 64) by(bit_vector) requires x <= 1023;
}
pub broadcast proof fn h_shr_u16_6(x: u16)
    ensures #[trigger] (x >> 6) == x / 64,
{
    assert((x >> 6) == x / 64) by(bit_vector);
}
pub broadcast proof fn h_shl_u16_7(x: u16)
    requires x <= 511,
    ensures #[trigger] (x << 7) == x * 128,
{
    assert((x << 7) == x * 128) by(bit_vector) requires x <= 511;
}
pub broadcast proof fn h_shr_u16_7(x: u16)
    ensures #[trigger] (x >> 7) == x / 128,
{
    assert((x >> 7) == x / 128) by(bit_vector);
}
pub broadcast proof fn h_shl_u16_8(x: u16)
    requires x <= 255,
    ensures #[trigger] (x << 8) == x * 256,
{
    assert((x << 8) == x * 256) by(bit_vector) requires x <= 255;
}
pub broadcast proof fn h_shr_u16_8(x: u16)
    ensures #[trigger] (x >> 8) == x / 256,
{
    assert((x >> 8) == x / 256) by(bit_vector);
}
pub broadcast proof fn h_and_u16_1(x: u16)
    ensures #[trigger] (x & 1) == x % 2,
{
    assert((x & 1) == x % 2) by(bit_vector);
}
pub broadcast proof fn h_and_u16_2(x: u16)
    ensures #[trigger] (x & 3) == x % 4,
{
    assert((x & 3) == x % 4) by(bit_vector);
}
pub broadcast proof fn h_and_u16_3(x: u16)
    ensures #[trigger] (x & 7) == x % 8,
{
    assert((x & 7) == x % 8) by(bit_vector);
}
pub broadcast proof fn h_and_u16_4(x: u16)
    ensures #[trigger] (x & 15) == x % 16,
{
    assert((x & 15) == x % 16) by(bit_vector);
}
pub broadcast proof fn h_and_u16_5(x: u16)
    ensures #[trigger] (x & 31) == x % 32,
{
    assert((x & 31) == x % 32) by(bit_vector);
}
pub broadcast proof fn h_and_u16_6(x: u16)
    ensures #[trigger] (x & 63) == x % 64,
{
    assert((x & 63) == x % 64) by(bit_vector);
}
pub broadcast proof fn h_and_u16_7(x: u16)
    ensures #[trigger] (x & 127) == x % 128,
{
    assert((x & 127) == x % 128) by(bit_vector);
}
pub broadcast proof fn h_and_u16_8(x: u16)
    ensures #[trigger] (x & 255) == x % 256,
{
    assert((x & 255) == x % 256) by(bit_vector);
}
pub broadcast proof fn h_bit_u16_1(x: u16)
    ensures (#[trigger] (x & 2) != 0) == ((x / 2) % 2 == 1),
{
    assert(((x & 2) != 0) == ((x / 2) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u16_2(x: u16)
    ensures (#[trigger] (x & 4) != 0) == ((x / 4) % 2 == 1),
{
    assert(((x & 4) != 0) == ((x / 4) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u16_3(x: u16)
    ensures (#[trigger] (x & 8) != 0) == ((x / 8) % 2 == 1),
{
    assert(((x & 8) != 0) == ((x / 8) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u16_4(x: u16)
    ensures (#[trigger] (x & 16) != 0) == ((x / 16) % 2 == 1),
{
    assert(((x & 16) != 0) == ((x / 16) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u16_5(x: u16)
    ensures (#[trigger] (x & 32) != 0) == ((x / 32) % 2 == 1),
{
    assert(((x & 32) != 0) == ((x / 32) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u16_6(x: u16)
    ensures (#[trigger] (x & 64) != 0) == ((x / 64) % 2 == 1),
{
    assert(((x & 64) != 0) == ((x / 64) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u16_7(x: u16)
    ensures (#[trigger] (x & 128) != 0) == ((x / 128) % 2 == 1),
{
    assert(((x & 128) != 0) == ((x / 128) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_shlvar_u16_u8(x: u16, k: u8)
    ensures 0 <= k < 16 && x * hpow(k as int) <= 65535 ==> #[trigger] (x << k) == x * hpow(k as int),
{
    assert((k == 0 && x <= 65535 ==> x << k == x * 1) && (k == 1 && x <= 32767 ==> x << k == x * 2) && (k == 2 && x <= 16383 ==> x << k == x * 4) && (k == 3 && x <= 8191 ==> x << k == x * 8) && (k == 4 && x <= 4095 ==> x << k == x * 16) && (k == 5 && x <= 2047 ==> x << k == x * 32) && (k == 6 && x <= 1023 ==> x << k == x * 64) && (k == 7 && x <= 511 ==> x << k == x * 128) && (k == 8 && x <= 255 ==> x << k == x * 256) && (k == 9 && x <= 127 ==> x << k == x * 512) && (k == 10 && x <= 63 ==> x << k == x * 1024) && (k == 11 && x <= 31 ==> x << k == x * 2048) && (k == 12 && x <= 15 ==> x << k == x * 4096) && (k == 13 && x <= 7 ==> x << k == x * 8192) && (k == 14 && x <= 3 ==> x << k == x * 16384) && (k == 15 && x <= 1 ==> x << k == x * 32768)) by(bit_vector);
    if k < 16 && x * hpow(k as int) <= 65535 {
        if k == 0 { assert(x <= 65535) by(nonlinear_arith) requires x * 1 <= 65535; }
        if k == 1 { assert(x <= 32767) by(nonlinear_arith) requires x * 2 <= 65535; }
        if k == 2 { assert(x <= 16383) by(nonlinear_arith) requires x * 4 <= 65535; }
        if k == 3 { assert(x <= 8191) by(nonlinear_arith) requires x * 8 <= 65535; }
        if k == 4 { assert(x <= 4095) by(nonlinear_arith) requires x * 16 <= 65535; }
        if k == 5 { assert(x <= 2047) by(nonlinear_arith) requires x * 32 <= 65535; }
        if k == 6 { assert(x <= 1023) by(nonlinear_arith) requires x * 64 <= 65535; }
        if k == 7 { assert(x <= 511) by(nonlinear_arith) requires x * 128 <= 65535; }
        if k == 8 { assert(x <= 255) by(nonlinear_arith) requires x * 256 <= 65535; }
        if k == 9 { assert(x <= 127) by(nonlinear_arith) requires x * 512 <= 65535; }
        if k == 10 { assert(x <= 63) by(nonlinear_arith) requires x * 1024 <= 65535; }
        if k == 11 { assert(x <= 31) by(nonlinear_arith) requires x * 2048 <= 65535; }
        if k == 12 { assert(x <= 15) by(nonlinear_arith) requires x * 4096 <= 65535; }
        if k == 13 { assert(x <= 7) by(nonlinear_arith) requires x * 8192 <= 65535; }
        if k == 14 { assert(x <= 3) by(nonlinear_arith) requires x * 16384 <= 65535; }
        if k == 15 { assert(x <= 1) by(nonlinear_arith) requires x * 32768 <= 65535; }
    }
}
pub broadcast proof fn h_shlvar_u16_u32(x: u16, k: u32)
    ensures 0 <= k < 16 && x * hpow(k as int) <= 65535 ==> #[trigger] (x << k) == x * hpow(k as int),
{
    assert((k == 0 && x <= 65535 ==> x << k == x * 1) && (k == 1 && x <= 32767 ==> x << k == x * 2) && (k == 2 && x <= 16383 ==> x << k == x * 4) && (k == 3 && x <= 8191 ==> x << k == x * 8) && (k == 4 && x <= 4095 ==> x << k == x * 16) && (k == 5 && x <= 2047 ==> x << k == x * 32) && (k == 6 && x <= 1023 ==> x << k == x * 64) && (k == 7 && x <= 511 ==> x << k == x * 128) && (k == 8 && x <= 255 ==> x << k == x * 256) && (k == 9 && x <= 127 ==> x << k == x * 512) && (k == 10 && x <= 63 ==> x << k == x * 1024) && (k == 11 && x <= 31 ==> x << k == x * 2048) && (k == 12 && x <= 15 ==> x << k == x * 4096) && (k == 13 && x <= 7 ==> x << k == x * 8192) && (k == 14 && x <= 3 ==> x << k == x * 16384) && (k == 15 && x <= 1 ==> x << k == x * 32768)) by(bit_vector);
    if k < 16 && x * hpow(k as int) <= 65535 {
        if k == 0 { assert(x <= 65535) by(nonlinear_arith) requires x * 1 <= 65535; }
        if k == 1 { assert(x <= 32767) by(nonlinear_arith) requires x * 2 <= 65535; }
        if k == 2 { assert(x <= 16383) by(nonlinear_arith) requires x * 4 <= 65535; }
        if k == 3 { assert(x <= 8191) by(nonlinear_arith) requires x * 8 <= 65535; }
        if k == 4 { assert(x <= 4095) by(nonlinear_arith) requires x * 16 <= 65535; }
        if k == 5 { assert(x <= 2047) by(nonlinear_arith) requires x * 32 <= 65535; }
        if k == 6 { assert(x <= 1023) by(nonlinear_arith) requires x * 64 <= 65535; }
        if k == 7 { assert(x <= 511) by(nonlinear_arith) requires x * 128 <= 65535; }
        if k == 8 { assert(x <= 255) by(nonlinear_arith) requires x * 256 <= 65535; }
        if k == 9 { assert(x <= 127) by(nonlinear_arith) requires x * 512 <= 65535; }
        if k == 10 { assert(x <= 63) by(nonlinear_arith) requires x * 1024 <= 65535; }
        if k == 11 { assert(x <= 31) by(nonlinear_arith) requires x * 2048 <= 65535; }
        if k == 12 { assert(x <= 15) by(nonlinear_arith) requires x * 4096 <= 65535; }
        if k == 13 { assert(x <= 7) by(nonlinear_arith) requires x * 8192 <= 65535; }
        if k == 14 { assert(x <= 3) by(nonlinear_arith) requires x * 16384 <= 65535; }
        if k == 15 { assert(x <= 1) by(nonlinear_arith) requires x * 32768 <= 65535; }
    }
}
pub broadcast proof fn h_shlvar_u16_usize(x: u16, k: usize)
    ensures 0 <= k < 16 && x * hpow(k as int) <= 65535 ==> #[trigger] (x << k) == x * hpow(k as int),
{
    assert((k == 0 && x <= 65535 ==> x << k == x * 1) && (k == 1 && x <= 32767 ==> x << k == x * 2) && (k == 2 && x <= 16383 ==> x << k == x * 4) && (k == 3 && x <= 8191 ==> x << k == x * 8) && (k == 4 && x <= 4095 ==> x << k == x * 16) && (k == 5 && x <= 2047 ==> x << k == x * 32) && (k == 6 && x <= 1023 ==> x << k == x * 64) && (k == 7 && x <= 511 ==> x << k == x * 128) && (k == 8 && x <= 255 ==> x << k == x * 256) && (k == 9 && x <= 127 ==> x << k == x * 512) && (k == 10 && x <= 63 ==> x << k == x * 1024) && (k == 11 && x <= 31 ==> x << k == x * 2048) && (k == 12 && x <= 15 ==> x << k == x * 4096) && (k == 13 && x <= 7 ==> x << k == x * 8192) && (k == 14 && x <= 3 ==> x << k == x * 16384) && (k == 15 && x <= 1 ==> x << k == x * 32768)) by(bit_vector);
    if k < 16 && x * hpow(k as int) <= 65535 {
        if k == 0 { assert(x <= 65535) by(nonlinear_arith) requires x * 1 <= 65535; }
        if k == 1 { assert(x <= 32767) by(nonlinear_arith) requires x * 2 <= 65535; }
        if k == 2 { assert(x <= 16383) by(nonlinear_arith) requires x * 4 <= 65535; }
        if k == 3 { assert(x <= 8191) by(nonlinear_arith) requires x * 8 <= 65535; }
        if k == 4 { assert(x <= 4095) by(nonlinear_arith) requires x * 16 <= 65535; }
        if k == 5 { assert(x <= 2047) by(nonlinear_arith) requires x * 32 <= 65535; }
        if k == 6 { assert(x <= 1023) by(nonlinear_arith) requires x * 64 <= 65535; }
        if k == 7 { assert(x <= 511) by(nonlinear_arith) requires x * 128 <= 65535; }
        if k == 8 { assert(x <= 255) by(nonlinear_arith) requires x * 256 <= 65535; }
        if k == 9 { assert(x <= 127) by(nonlinear_arith) requires x * 512 <= 65535; }
        if k == 10 { assert(x <= 63) by(nonlinear_arith) requires x * 1024 <= 65535; }
        if k == 11 { assert(x <= 31) by(nonlinear_arith) requires x * 2048 <= 65535; }
        if k == 12 { assert(x <= 15) by(nonlinear_arith) requires x * 4096 <= 65535; }
        if k == 13 { assert(x <= 7) by(nonlinear_arith) requires x * 8192 <= 65535; }
        if k == 14 { assert(x <= 3) by(nonlinear_arith) requires x * 16384 <= 65535; }
        if k == 15 { assert(x <= 1) by(nonlinear_arith) requires x * 32768 <= 65535; }
    }
}
pub broadcast proof fn h_or_u16(x: u16, y: u16, k: u16)
    requires k < 16, y < (1 as u16) << k,
    ensures #[trigger] ((x << k) | y) == (x << k) + y,
{
    assert(((x << k) | y) == (x << k) + y) by(bit_vector) requires k < 16, y < (1 as u16) << k;
}
pub broadcast proof fn h_xor_u16(x: u16, y: u16)
    ensures #[trigger] (x ^ y) == (y ^ x),
{
    assert((x ^ y) == (y ^ x)) by(bit_vector);
}
pub broadcast proof fn h_shl_u32_1(x: u32)
    requires x <= 2147483647,
    ensures #[trigger] (x << 1) == x * 2,
{
    assert((x << 1) == x * 2) by(bit_vector) requires x <= 2147483647;
}
pub broadcast proof fn h_shr_u32_1(x: u32)
    ensures #[trigger] (x >> 1) == x / 2,
{
    assert((x >> 1) == x / 2) by(bit_vector);
}
pub broadcast proof fn h_shl_u32_2(x: u32)
    requires x <= 1073741823,
    ensures #[trigger] (x << 2) == x * 4,
{
    assert((x << 2) == x * 4) by(bit_vector) requires x <= 1073741823;
}
pub broadcast proof fn h_shr_u32_2(x: u32)
    ensures #[trigger] (x >> 2) == x / 4,
{
    assert((x >> 2) == x / 4) by(bit_vector);
}
pub broadcast proof fn h_shl_u32_3(x: u32)
    requires x <= 536870911,
    ensures #[trigger] (x << 3) == x * 8,
{
    assert((x << 3) == x * 8) by(bit_vector) requires x <= 536870911;
}
pub broadcast proof fn h_shr_u32_3(x: u32)
    ensures #[trigger] (x >> 3) == x / 8,
{
    assert((x >> 3) == x / 8) by(bit_vector);
}
pub broadcast proof fn h_shl_u32_4(x: u32)
    requires x <= 268435455,
    ensures #[trigger] (x << 4) == x * 16,
{
    assert((x << 4) == x * 16) by(bit_vector) requires x <= 268435455;
}
pub broadcast proof fn h_shr_u32_4(x: u32)
    ensures #[trigger] (x >> 4) == x / 16,
{
    assert((x >> 4) == x / 16) by(bit_vector);
}
pub broadcast proof fn h_shl_u32_5(x: u32)
    requires x <= 134217727,
    ensures #[trigger] (x << 5) == x * 32,
{
    assert((x << 5) == x * 32) by(bit_vector) requires x <= 134217727;
}
pub broadcast proof fn h_shr_u32_5(x: u32)
    ensures #[trigger] (x >> 5) == x / 32,
{
    assert((x >> 5) == x / 32) by(bit_vector);
}
pub broadcast proof fn h_shl_u32_6(x: u32)
    requires x <= 67108863,
    ensures #[trigger] (x << 6) == x * 64,
{
    assert((x << 6) == x * 64) by(bit_vector) requires x <= 67108863;
}
pub broadcast proof fn h_shr_u32_6(x: u32)
    ensures #[trigger] (x >> 6) == x / 64,
{
    assert((x >> 6) == x / 64) by(bit_vector);
}
pub broadcast proof fn h_shl_u32_7(x: u32)
    requires x <= 33554431,
    ensures #[trigger] (x << 7) == x * 128,
{
    assert((x << 7) == x * 128) by(bit_vector) requires x <= 33554431;
}
pub broadcast proof fn h_shr_u32_7(x: u32)
    ensures #[trigger] (x >> 7) == x / 128,
{
    assert((x >> 7) == x / 128) by(bit_vector);
}
pub broadcast proof fn h_shl_u32_8(x: u32)
    requires x <= 16777215,
    ensures #[trigger] (x << 8) == x * 256,
{
    assert((x << 8) == x * 256) by(bit_vector) requires x <= 16777215;
}
pub broadcast proof fn h_shr_u32_8(x: u32)
    ensures #[trigger] (x >> 8) == x / 256,
{
    assert((x >> 8) == x / 256) by(bit_vector);
}
pub broadcast proof fn h_shl_u32_16(x: u32)
    requires x <= 65535,
    ensures #[trigger] (x << 16) == x * 65536,
{
    assert((x << 16) == x * 65536) by(bit_vector) requires x <= 65535;
}
pub broadcast proof fn h_shr_u32_16(x: u32)
    ensures #[trigger] (x >> 16) == x / 65536,
{
    assert((x >> 16) == x / 65536) by(bit_vector);
}
pub broadcast proof fn h_shl_u32_24(x: u32)
    requires x <= 255,
    ensures #[trigger] (x << 24) == x * 16777216,
{
    assert((x << 24) == x * 16777216) by(bit_vector) requires x <= 255;
}
pub broadcast proof fn h_shr_u32_24(x: u32)
    ensures #[trigger] (x >> 24) == x / 16777216,
{
    assert((x >> 24) == x / 16777216) by(bit_vector);
}
pub broadcast proof fn h_and_u32_1(x: u32)
    ensures #[trigger] (x & 1) == x % 2,
{
    assert((x & 1) == x % 2) by(bit_vector);
}
pub broadcast proof fn h_and_u32_2(x: u32)
    ensures #[trigger] (x & 3) == x % 4,
{
    assert((x & 3) == x % 4) by(bit_vector);
}
pub broadcast proof fn h_and_u32_3(x: u32)
    ensures #[trigger] (x & 7) == x % 8,
{
    assert((x & 7) == x % 8) by(bit_vector);
}
pub broadcast proof fn h_and_u32_4(x: u32)
    ensures #[trigger] (x & 15) == x % 16,
{
    assert((x & 15) == x % 16) by(bit_vector);
}
pub broadcast proof fn h_and_u32_5(x: u32)
    ensures #[trigger] (x & 31) == x % 32,
{
    assert((x & 31) == x % 32) by(bit_vector);
}
pub broadcast proof fn h_and_u32_6(x: u32)
    ensures #[trigger] (x & 63) == x % 64,
{
    assert((x & 63) == x % 64) by(bit_vector);
}
pub broadcast proof fn h_and_u32_7(x: u32)
    ensures #[trigger] (x & 127) == x % 128,
{
    assert((x & 127) == x % 128) by(bit_vector);
}
pub broadcast proof fn h_and_u32_8(x: u32)
    ensures #[trigger] (x & 255) == x % 256,
{
    assert((x & 255) == x % 256) by(bit_vector);
}
pub broadcast proof fn h_and_u32_16(x: u32)
    ensures #[trigger] (x & 65535) == x % 65536,
{
    assert((x & 65535) == x % 65536) by(bit_vector);
}
pub broadcast proof fn h_and_u32_24(x: u32)
    ensures #[trigger] (x & 16777215) == x % 16777216,
{
    assert((x & 16777215) == x % 16777216) by(bit_vector);
}
pub broadcast proof fn h_bit_u32_1(x: u32)
    ensures (#[trigger] (x & 2) != 0) == ((x / 2) % 2 == 1),
{
    assert(((x & 2) != 0) == ((x / 2) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u32_2(x: u32)
    ensures (#[trigger] (x & 4) != 0) == ((x / 4) % 2 == 1),
{
    assert(((x & 4) != 0) == ((x / 4) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u32_3(x: u32)
    ensures (#[trigger] (x & 8) != 0) == ((x / 8) % 2 == 1),
{
    assert(((x & 8) != 0) == ((x / 8) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u32_4(x: u32)
    ensures (#[trigger] (x & 16) != 0) == ((x / 16) % 2 == 1),
{
    assert(((x & 16) != 0) == ((x / 16) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u32_5(x: u32)
    ensures (#[trigger] (x & 32) != 0) == ((x / 32) % 2 == 1),
{
    assert(((x & 32) != 0) == ((x / 32) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u32_6(x: u32)
    ensures (#[trigger] (x & 64) != 0) == ((x / 64) % 2 == 1),
{
    assert(((x & 64) != 0) == ((x / 64) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u32_7(x: u32)
    ensures (#[trigger] (x & 128) != 0) == ((x / 128) % 2 == 1),
{
    assert(((x & 128) != 0) == ((x / 128) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_shlvar_u32_u8(x: u32, k: u8)
    ensures 0 <= k < 16 && x * hpow(k as int) <= 4294967295 ==> #[trigger] (x << k) == x * hpow(k as int),
{
    assert((k == 0 && x <= 4294967295 ==> x << k == x * 1) && (k == 1 && x <= 2147483647 ==> x << k == x * 2) && (k == 2 && x <= 1073741823 ==> x << k == x * 4) && (k == 3 && x <= 536870911 ==> x << k == x * 8) && (k == 4 && x <= 268435455 ==> x << k == x * 16) && (k == 5 && x <= 134217727 ==> x << k == x * 32) && (k == 6 && x <= 67108863 ==> x << k == x * 64) && (k == 7 && x <= 33554431 ==> x << k == x * 128) && (k == 8 && x <= 16777215 ==> x << k == x * 256) && (k == 9 && x <= 8388607 ==> x << k == x * 512) && (k == 10 && x <= 4194303 ==> x << k == x * 1024) && (k == 11 && x <= 2097151 ==> x << k == x * 2048) && (k == 12 && x <= 1048575 ==> x << k == x * 4096) && (k == 13 && x <= 524287 ==> x << k == x * 8192) && (k == 14 && x <= 262143 ==> x << k == x * 16384) && (k == 15 && x <= 131071 ==> x << k == x * 32768)) by(bit_vector);
    if k < 16 && x * hpow(k as int) <= 4294967295 {
        if k == 0 { assert(x <= 4294967295) by(nonlinear_arith) requires x * 1 <= 4294967295; }
        if k == 1 { assert(x <= 2147483647) by(nonlinear_arith) requires x * 2 <= 4294967295; }
        if k == 2 { assert(x <= 1073741823) by(nonlinear_arith) requires x * 4 <= 4294967295; }
        if k == 3 { assert(x <= 536870911) by(nonlinear_arith) requires x * 8 <= 4294967295; }
        if k == 4 { assert(x <= 268435455) by(nonlinear_arith) requires x * 16 <= 4294967295; }
        if k == 5 { assert(x <= 134217727) by(nonlinear_arith) requires x * 32 <= 4294967295; }
        if k == 6 { assert(x <= 67108863) by(nonlinear_arith) requires x * 64 <= 4294967295; }
        if k == 7 { assert(x <= 33554431) by(nonlinear_arith) requires x * 128 <= 4294967295; }
        if k == 8 { assert(x <= 16777215) by(nonlinear_arith) requires x * 256 <= 4294967295; }
        if k == 9 { assert(x <= 8388607) by(nonlinear_arith) requires x * 512 <= 4294967295; }
        if k == 10 { assert(x <= 4194303) by(nonlinear_arith) requires x * 1024 <= 4294967295; }
        if k == 11 { assert(x <= 2097151) by(nonlinear_arith) requires x * 2048 <= 4294967295; }
        if k == 12 { assert(x <= 1048575) by(nonlinear_arith) requires x * 4096 <= 4294967295; }
        if k == 13 { assert(x <= 524287) by(nonlinear_arith) requires x * 8192 <= 4294967295; }
        if k == 14 { assert(x <= 262143) by(nonlinear_arith) requires x * 16384 <= 4294967295; }
        if k == 15 { assert(x <= 131071) by(nonlinear_arith) requires x * 32768 <= 4294967295; }
    }
}
pub broadcast proof fn h_shlvar_u32_u32(x: u32, k: u32)
    ensures 0 <= k < 16 && x * hpow(k as int) <= 4294967295 ==> #[trigger] (x << k) == x * hpow(k as int),
{
    assert((k == 0 && x <= 4294967295 ==> x << k == x * 1) && (k == 1 && x <= 2147483647 ==> x << k == x * 2) && (k == 2 && x <= 1073741823 ==> x << k == x * 4) && (k == 3 && x <= 536870911 ==> x << k == x * 8) && (k == 4 && x <= 268435455 ==> x << k == x * 16) && (k == 5 && x <= 134217727 ==> x << k == x * 32) && (k == 6 && x <= 67108863 ==> x << k == x * 64) && (k == 7 && x <= 33554431 ==> x << k == x * 128) && (k == 8 && x <= 16777215 ==> x << k == x * 256) && (k == 9 && x <= 8388607 ==> x << k == x * 512) && (k == 10 && x <= 4194303 ==> x << k == x * 1024) && (k == 11 && x <= 2097151 ==> x << k == x * 2048) && (k == 12 && x <= 1048575 ==> x << k == x * 4096) && (k == 13 && x <= 524287 ==> x << k == x * 8192) && (k == 14 && x <= 262143 ==> x << k == x * 16384) && (k == 15 && x <= 131071 ==> x << k == x * 32768)) by(bit_vector);
    if k < 16 && x * hpow(k as int) <= 4294967295 {
        if k == 0 { assert(x <= 4294967295) by(nonlinear_arith) requires x * 1 <= 4294967295; }
        if k == 1 { assert(x <= 2147483647) by(nonlinear_arith) requires x * 2 <= 4294967295; }
        if k == 2 { assert(x <= 1073741823) by(nonlinear_arith) requires x * 4 <= 4294967295; }
        if k == 3 { assert(x <= 536870911) by(nonlinear_arith) requires x * 8 <= 4294967295; }
        if k == 4 { assert(x <= 268435455) by(nonlinear_arith) requires x * 16 <= 4294967295; }
        if k == 5 { assert(x <= 134217727) by(nonlinear_arith) requires x * 32 <= 4294967295; }
        if k == 6 { assert(x <= 67108863) by(nonlinear_arith) requires x * 64 <= 4294967295; }
        if k == 7 { assert(x <= 33554431) by(nonlinear_arith) requires x * 128 <= 4294967295; }
        if k == 8 { assert(x <= 16777215) by(nonlinear_arith) requires x * 256 <= 4294967295; }
        if k == 9 { assert(x <= 8388607) by(nonlinear_arith) requires x * 512 <= 4294967295; }
        if k == 10 { assert(x <= 4194303) by(nonlinear_arith) requires x * 1024 <= 4294967295; }
        if k == 11 { assert(x <= 2097151) by(nonlinear_arith) requires x * 2048 <= 4294967295; }
        if k == 12 { assert(x <= 1048575) by(nonlinear_arith) requires x * 4096 <= 4294967295; }
        if k == 13 { assert(x <= 524287) by(nonlinear_arith) requires x * 8192 <= 4294967295; }
        if k == 14 { assert(x <= 262143) by(nonlinear_arith) requires x * 16384 <= 4294967295; }
        if k == 15 { assert(x <= 131071) by(nonlinear_arith) requires x * 32768 <= 4294967295; }
    }
}
pub broadcast proof fn h_shlvar_u32_usize(x: u32, k: usize)
    ensures 0 <= k < 16 && x * hpow(k as int) <= 4294967295 ==> #[trigger] (x << k) == x * hpow(k as int),
{
    assert((k == 0 && x <= 4294967295 ==> x << k == x * 1) && (k == 1 && x <= 2147483647 ==> x << k == x * 2) && (k == 2 && x <= 1073741823 ==> x << k == x * 4) && (k == 3 && x <= 536870911 ==> x << k == x * 8) && (k == 4 && x <= 268435455 ==> x << k == x * 16) && (k == 5 && x <= 134217727 ==> x << k == x * 32) && (k == 6 && x <= 67108863 ==> x << k == x * 64) && (k == 7 && x <= 33554431 ==> x << k == x * 128) && (k == 8 && x <= 16777215 ==> x << k == x * 256) && (k == 9 && x <= 8388607 ==> x << k == x * 512) && (k == 10 && x <= 4194303 ==> x << k == x * 1024) && (k == 11 && x <= 2097151 ==> x << k == x * 2048) && (k == 12 && x <= 1048575 ==> x << k == x * 4096) && (k == 13 && x <= 524287 ==> x << k == x * 8192) && (k == 14 && x <= 262143 ==> x << k == x * 16384) && (k == 15 && x <= 131071 ==> x << k == x * 32768)) by(bit_vector);
    if k < 16 && x * hpow(k as int) <= 4294967295 {
        if k == 0 { assert(x <= 4294967295) by(nonlinear_arith) requires x * 1 <= 4294967295; }
        if k == 1 { assert(x <= 2147483647) by(nonlinear_arith) requires x * 2 <= 4294967295; }
        if k == 2 { assert(x <= 1073741823) by(nonlinear_arith) requires x * 4 <= 4294967295; }
        if k == 3 { assert(x <= 536870911) by(nonlinear_arith) requires x * 8 <= 4294967295; }
        if k == 4 { assert(x <= 268435455) by(nonlinear_arith) requires x * 16 <= 4294967295; }
        if k == 5 { assert(x <= 134217727) by(nonlinear_arith) requires x * 32 <= 4294967295; }
        if k == 6 { assert(x <= 67108863) by(nonlinear_arith) requires x * 64 <= 4294967295; }
        if k == 7 { assert(x <= 33554431) by(nonlinear_arith) requires x * 128 <= 4294967295; }
        if k == 8 { assert(x <= 16777215) by(nonlinear_arith) requires x * 256 <= 4294967295; }
        if k == 9 { assert(x <= 8388607) by(nonlinear_arith) requires x * 512 <= 4294967295; }
        if k == 10 { assert(x <= 4194303) by(nonlinear_arith) requires x * 1024 <= 4294967295; }
        if k == 11 { assert(x <= 2097151) by(nonlinear_arith) requires x * 2048 <= 4294967295; }
        if k == 12 { assert(x <= 1048575) by(nonlinear_arith) requires x * 4096 <= 4294967295; }
        if k == 13 { assert(x <= 524287) by(nonlinear_arith) requires x * 8192 <= 4294967295; }
        if k == 14 { assert(x <= 262143) by(nonlinear_arith) requires x * 16384 <= 4294967295; }
        if k == 15 { assert(x <= 131071) by(nonlinear_arith) requires x * 32768 <= 4294967295; }
    }
}
pub broadcast proof fn h_or_u32(x: u32, y: u32, k: u32)
    requires k < 32, y < (1 as u32) << k,
    ensures #[trigger] ((x << k) | y) == (x << k) + y,
{
    assert(((x << k) | y) == (x << k) + y) by(bit_vector) requires k < 32, y < (1 as u32) << k;
}
pub broadcast proof fn h_xor_u32(x: u32, y: u32)
    ensures #[trigger] (x ^ y) == (y ^ x),
{
    assert((x ^ y) == (y ^ x)) by(bit_vector);
}
pub broadcast proof fn h_shl_u64_1(x: u64)
    requires x <= 9223372036854775807,
    ensures #[trigger] (x << 1) == x * 2,
{
    assert((x << 1) == x * 2) by(bit_vector) requires x <= 9223372036854775807;
}
pub broadcast proof fn h_shr_u64_1(x: u64)
    ensures #[trigger] (x >> 1) == x / 2,
{
    assert((x >> 1) == x / 2) by(bit_vector);
}
pub broadcast proof fn h_shl_u64_2(x: u64)
    requires x <= 4611686018427387903,
    ensures #[trigger] (x << 2) == x * 4,
{
    assert((x << 2) == x * 4) by(bit_vector) requires x <= 4611686018427387903;
}
pub broadcast proof fn h_shr_u64_2(x: u64)
    ensures #[trigger] (x >> 2) == x / 4,
{
    assert((x >> 2) == x / 4) by(bit_vector);
}
pub broadcast proof fn h_shl_u64_3(x: u64)
    requires x <= 2305843009213693951,
    ensures #[trigger] (x << 3) == x * 8,
{
    assert((x << 3) == x * 8) by(bit_vector) requires x <= 2305843009213693951;
}
pub broadcast proof fn h_shr_u64_3(x: u64)
    ensures #[trigger] (x >> 3) == x / 8,
{
    assert((x >> 3) == x / 8) by(bit_vector);
}
pub broadcast proof fn h_shl_u64_4(x: u64)
    requires x <= 1152921504606846975,
    ensures #[trigger] (x << 4) == x * 16,
{
    assert((x << 4) == x * 16) by(bit_vector) requires x <= 1152921504606846975;
}
pub broadcast proof fn h_shr_u64_4(x: u64)
    ensures #[trigger] (x >> 4) == x / 16,
{
    assert((x >> 4) == x / 16) by(bit_vector);
}
pub broadcast proof fn h_shl_u64_5(x: u64)
    requires x <= 576460752303423487,
    ensures #[trigger] (x << 5) == x * 32,
{
    assert((x << 5) == x * 32) by(bit_vector) requires x <= 576460752303423487;
}
pub broadcast proof fn h_shr_u64_5(x: u64)
    ensures #[trigger] (x >> 5) == x / 32,
{
    assert((x >> 5) == x / 32) by(bit_vector);
}
pub broadcast proof fn h_shl_u64_6(x: u64)
    requires x <= 288230376151711743,
    ensures #[trigger] (x << 6) == x * 64,
{
    assert((x << 6) == x * 64) by(bit_vector) requires x <= 288230376151711743;
}
pub broadcast proof fn h_shr_u64_6(x: u64)
    ensures #[trigger] (x >> 6) == x / 64,
{
    assert((x >> 6) == x / 64) by(bit_vector);
}
pub broadcast proof fn h_shl_u64_7(x: u64)
    requires x <= 144115188075855871,
    ensures #[trigger] (x << 7) == x * 128,
{
    assert((x << 7) == x * 128) by(bit_vector) requires x <= 144115188075855871;
}
pub broadcast proof fn h_shr_u64_7(x: u64)
    ensures #[trigger] (x >> 7) == x / 128,
{
    assert((x >> 7) == x / 128) by(bit_vector);
}
pub broadcast proof fn h_shl_u64_8(x: u64)
    requires x <= 72057594037927935,
    ensures #[trigger] (x << 8) == x * 256,
{
    assert((x << 8) == x * 256) by(bit_vector) requires x <= 72057594037927935;
}
pub broadcast proof fn h_shr_u64_8(x: u64)
    ensures #[trigger] (x >> 8) == x / 256,
{
    assert((x >> 8) == x / 256) by(bit_vector);
}
pub broadcast proof fn h_shl_u64_16(x: u64)
    requires x <= 281474976710655,
    ensures #[trigger] (x << 16) == x * 65536,
{
    assert((x << 16) == x * 65536) by(bit_vector) requires x <= 281474976710655;
}
pub broadcast proof fn h_shr_u64_16(x: u64)
    ensures #[trigger] (x >> 16) == x / 65536,
{
    assert((x >> 16) == x / 65536) by(bit_vector);
}
pub broadcast proof fn h_shl_u64_24(x: u64)
    requires x <= 1099511627775,
    ensures #[trigger] (x << 24) == x * 16777216,
{
    assert((x << 24) == x * 16777216) by(bit_vector) requires x <= 1099511627775;
}
pub broadcast proof fn h_shr_u64_24(x: u64)
    ensures #[trigger] (x >> 24) == x / 16777216,
{
    assert((x >> 24) == x / 16777216) by(bit_vector);
}
pub broadcast proof fn h_and_u64_1(x: u64)
    ensures #[trigger] (x & 1) == x % 2,
{
    assert((x & 1) == x % 2) by(bit_vector);
}
pub broadcast proof fn h_and_u64_2(x: u64)
    ensures #[trigger] (x & 3) == x % 4,
{
    assert((x & 3) == x % 4) by(bit_vector);
}
pub broadcast proof fn h_and_u64_3(x: u64)
    ensures #[trigger] (x & 7) == x % 8,
{
    assert((x & 7) == x % 8) by(bit_vector);
}
pub broadcast proof fn h_and_u64_4(x: u64)
    ensures #[trigger] (x & 15) == x % 16,
{
    assert((x & 15) == x % 16) by(bit_vector);
}
pub broadcast proof fn h_and_u64_5(x: u64)
    ensures #[trigger] (x & 31) == x % 32,
{
    assert((x & 31) == x % 32) by(bit_vector);
}
pub broadcast proof fn h_and_u64_6(x: u64)
    ensures #[trigger] (x & 63) == x % 64,
{
    assert((x & 63) == x % 64) by(bit_vector);
}
pub broadcast proof fn h_and_u64_7(x: u64)
    ensures #[trigger] (x & 127) == x % 128,
{
    assert((x & 127) == x % 128) by(bit_vector);
}
pub broadcast proof fn h_and_u64_8(x: u64)
    ensures #[trigger] (x & 255) == x % 256,
{
    assert((x & 255) == x % 256) by(bit_vector);
}
pub broadcast proof fn h_and_u64_16(x: u64)
    ensures #[trigger] (x & 65535) == x % 65536,
{
    assert((x & 65535) == x % 65536) by(bit_vector);
}
pub broadcast proof fn h_and_u64_24(x: u64)
    ensures #[trigger] (x & 16777215) == x % 16777216,
{
    assert((x & 16777215) == x % 16777216) by(bit_vector);
}
pub broadcast proof fn h_bit_u64_1(x: u64)
    ensures (#[trigger] (x & 2) != 0) == ((x / 2) % 2 == 1),
{
    assert(((x & 2) != 0) == ((x / 2) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u64_2(x: u64)
    ensures (#[trigger] (x & 4) != 0) == ((x / 4) % 2 == 1),
{
    assert(((x & 4) != 0) == ((x / 4) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u64_3(x: u64)
    ensures (#[trigger] (x & 8) != 0) == ((x / 8) % 2 == 1),
{
    assert(((x & 8) != 0) == ((x / 8) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u64_4(x: u64)
    ensures (#[trigger] (x & 16) != 0) == ((x / 16) % 2 == 1),
{
    assert(((x & 16) != 0) == ((x / 16) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u64_5(x: u64)
    ensures (#[trigger] (x & 32) != 0) == ((x / 32) % 2 == 1),
{
    assert(((x & 32) != 0) == ((x / 32) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u64_6(x: u64)
    ensures (#[trigger] (x & 64) != 0) == ((x / 64) % 2 == 1),
{
    assert(((x & 64) != 0) == ((x / 64) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_bit_u64_7(x: u64)
    ensures (#[trigger] (x & 128) != 0) == ((x / 128) % 2 == 1),
{
    assert(((x & 128) != 0) == ((x / 128) % 2 == 1)) by(bit_vector);
}
pub broadcast proof fn h_shlvar_u64_u8(x: u64, k: u8)
    ensures 0 <= k < 16 && x * hpow(k as int) <= 18446744073709551615 ==> #[trigger] (x << k) == x * hpow(k as int),
{
    assert((k == 0 && x <= 18446744073709551615 ==> x << k == x * 1) && (k == 1 && x <= 9223372036854775807 ==> x << k == x * 2) && (k == 2 && x <= 4611686018427387903 ==> x << k == x * 4) && (k == 3 && x <= 2305843009213693951 ==> x << k == x * 8) && (k == 4 && x <= 1152921504606846975 ==> x << k == x * 16) && (k == 5 && x <= 576460752303423487 ==> x << k == x * 32) && (k == 6 && x <= 288230376151711743 ==> x << k == x * 64) && (k == 7 && x <= 144115188075855871 ==> x << k == x * 128) && (k == 8 && x <= 72057594037927935 ==> x << k == x * 256) && (k == 9 && x <= 36028797018963967 ==> x << k == x * 512) && (k == 10 && x <= 18014398509481983 ==> x << k == x * 1024) && (k == 11 && x <= 9007199254740991 ==> x << k == x * 2048) && (k == 12 && x <= 4503599627370495 ==> x << k == x * 4096) && (k == 13 && x <= 2251799813685247 ==> x << k == x * 8192) && (k == 14 && x <= 1125899906842623 ==> x << k == x * 16384) && (k == 15 && x <= 562949953421311 ==> x << k == x * 32768)) by(bit_vector);
    if k < 16 && x * hpow(k as int) <= 18446744073709551615 {
        if k == 0 { assert(x <= 18446744073709551615) by(nonlinear_arith) requires x * 1 <= 18446744073709551615; }
        if k == 1 { assert(x <= 9223372036854775807) by(nonlinear_arith) requires x * 2 <= 18446744073709551615; }
        if k == 2 { assert(x <= 4611686018427387903) by(nonlinear_arith) requires x * 4 <= 18446744073709551615; }
        if k == 3 { assert(x <= 2305843009213693951) by(nonlinear_arith) requires x * 8 <= 18446744073709551615; }
        if k == 4 { assert(x <= 1152921504606846975) by(nonlinear_arith) requires x * 16 <= 18446744073709551615; }
        if k == 5 { assert(x <= 576460752303423487) by(nonlinear_arith) requires x * 32 <= 18446744073709551615; }
        if k == 6 { assert(x <= 288230376151711743) by(nonlinear_arith) requires x * 64 <= 18446744073709551615; }
        if k == 7 { assert(x <= 144115188075855871) by(nonlinear_arith) requires x * 128 <= 18446744073709551615; }
        if k == 8 { assert(x <= 72057594037927935) by(nonlinear_arith) requires x * 256 <= 18446744073709551615; }
        if k == 9 { assert(x <= 36028797018963967) by(nonlinear_arith) requires x * 512 <= 18446744073709551615; }
        if k == 10 { assert(x <= 18014398509481983) by(nonlinear_arith) requires x * 1024 <= 18446744073709551615; }
        if k == 11 { assert(x <= 9007199254740991) by(nonlinear_arith) requires x * 2048 <= 18446744073709551615; }
        if k == 12 { assert(x <= 4503599627370495) by(nonlinear_arith) requires x * 4096 <= 18446744073709551615; }
        if k == 13 { assert(x <= 2251799813685247) by(nonlinear_arith) requires x * 8192 <= 18446744073709551615; }
        if k == 14 { assert(x <= 1125899906842623) by(nonlinear_arith) requires x * 16384 <= 18446744073709551615; }
        if k == 15 { assert(x <= 562949953421311) by(nonlinear_arith) requires x * 32768 <= 18446744073709551615; }
    }
}
pub broadcast proof fn h_shlvar_u64_u32(x: u64, k: u32)
    ensures 0 <= k < 16 && x * hpow(k as int) <= 18446744073709551615 ==> #[trigger] (x << k) == x * hpow(k as int),
{
    assert((k == 0 && x <= 18446744073709551615 ==> x << k == x * 1) && (k == 1 && x <= 9223372036854775807 ==> x << k == x * 2) && (k == 2 && x <= 4611686018427387903 ==> x << k == x * 4) && (k == 3 && x <= 2305843009213693951 ==> x << k == x * 8) && (k == 4 && x <= 1152921504606846975 ==> x << k == x * 16) && (k == 5 && x <= 576460752303423487 ==> x << k == x * 32) && (k == 6 && x <= 288230376151711743 ==> x << k == x * 64) && (k == 7 && x <= 144115188075855871 ==> x << k == x * 128) && (k == 8 && x <= 72057594037927935 ==> x << k == x * 256) && (k == 9 && x <= 36028797018963967 ==> x << k == x * 512) && (k == 10 && x <= 18014398509481983 ==> x << k == x * 1024) && (k == 11 && x <= 9007199254740991 ==> x << k == x * 2048) && (k == 12 && x <= 4503599627370495 ==> x << k == x * 4096) && (k == 13 && x <= 2251799813685247 ==> x << k == x * 8192) && (k == 14 && x <= 1125899906842623 ==> x << k == x * 16384) && (k == 15 && x <= 562949953421311 ==> x << k == x * 32768)) by(bit_vector);
    if k < 16 && x * hpow(k as int) <= 18446744073709551615 {
        if k == 0 { assert(x <= 18446744073709551615) by(nonlinear_arith) requires x * 1 <= 18446744073709551615; }
        if k == 1 { assert(x <= 9223372036854775807) by(nonlinear_arith) requires x * 2 <= 18446744073709551615; }
        if k == 2 { assert(x <= 4611686018427387903) by(nonlinear_arith) requires x * 4 <= 18446744073709551615; }
        if k == 3 { assert(x <= 2305843009213693951) by(nonlinear_arith) requires x * 8 <= 18446744073709551615; }
        if k == 4 { assert(x <= 1152921504606846975) by(nonlinear_arith) requires x * 16 <= 18446744073709551615; }
        if k == 5 { assert(x <= 576460752303423487) by(nonlinear_arith) requires x * 32 <= 18446744073709551615; }
        if k == 6 { assert(x <= 288230376151711743) by(nonlinear_arith) requires x * 64 <= 18446744073709551615; }
        if k == 7 { assert(x <= 144115188075855871) by(nonlinear_arith) requires x * 128 <= 18446744073709551615; }
        if k == 8 { assert(x <= 72057594037927935) by(nonlinear_arith) requires x * 256 <= 18446744073709551615; }
        if k == 9 { assert(x <= 36028797018963967) by(nonlinear_arith) requires x * 512 <= 18446744073709551615; }
        if k == 10 { assert(x <= 18014398509481983) by(nonlinear_arith) requires x * 1024 <= 18446744073709551615; }
        if k == 11 { assert(x <= 9007199254740991) by(nonlinear_arith) requires x * 2048 <= 18446744073709551615; }
        if k == 12 { assert(x <= 4503599627370495) by(nonlinear_arith) requires x * 4096 <= 18446744073709551615; }
        if k == 13 { assert(x <= 2251799813685247) by(nonlinear_arith) requires x * 8192 <= 18446744073709551615; }
        if k == 14 { assert(x <= 1125899906842623) by(nonlinear_arith) requires x * 16384 <= 18446744073709551615; }
        if k == 15 { assert(x <= 562949953421311) by(nonlinear_arith) requires x * 32768 <= 18446744073709551615; }
    }
}
pub broadcast proof fn h_shlvar_u64_usize(x: u64, k: usize)
    ensures 0 <= k < 16 && x * hpow(k as int) <= 18446744073709551615 ==> #[trigger] (x << k) == x * hpow(k as int),
{
    assert((k == 0 && x <= 18446744073709551615 ==> x << k == x * 1) && (k == 1 && x <= 9223372036854775807 ==> x << k == x * 2) && (k == 2 && x <= 4611686018427387903 ==> x << k == x * 4) && (k == 3 && x <= 2305843009213693951 ==> x << k == x * 8) && (k == 4 && x <= 1152921504606846975 ==> x << k == x * 16) && (k == 5 && x <= 576460752303423487 ==> x << k == x * 32) && (k == 6 && x <= 288230376151711743 ==> x << k == x * 64) && (k == 7 && x <= 144115188075855871 ==> x << k == x * 128) && (k == 8 && x <= 72057594037927935 ==> x << k == x * 256) && (k == 9 && x <= 36028797018963967 ==> x << k == x * 512) && (k == 10 && x <= 18014398509481983 ==> x << k == x * 1024) && (k == 11 && x <= 9007199254740991 ==> x << k == x * 2048) && (k == 12 && x <= 4503599627370495 ==> x << k == x * 4096) && (k == 13 && x <= 2251799813685247 ==> x << k == x * 8192) && (k == 14 && x <= 1125899906842623 ==> x << k == x * 16384) && (k == 15 && x <= 562949953421311 ==> x << k == x * 32768)) by(bit_vector);
    if k < 16 && x * hpow(k as int) <= 18446744073709551615 {
        if k == 0 { assert(x <= 18446744073709551615) by(nonlinear_arith) requires x * 1 <= 18446744073709551615; }
        if k == 1 { assert(x <= 9223372036854775807) by(nonlinear_arith) requires x * 2 <= 18446744073709551615; }
        if k == 2 { assert(x <= 4611686018427387903) by(nonlinear_arith) requires x * 4 <= 18446744073709551615; }
        if k == 3 { assert(x <= 2305843009213693951) by(nonlinear_arith) requires x * 8 <= 18446744073709551615; }
        if k == 4 { assert(x <= 1152921504606846975) by(nonlinear_arith) requires x * 16 <= 18446744073709551615; }
        if k == 5 { assert(x <= 576460752303423487) by(nonlinear_arith) requires x * 32 <= 18446744073709551615; }
        if k == 6 { assert(x <= 288230376151711743) by(nonlinear_arith) requires x * 64 <= 18446744073709551615; }
        if k == 7 { assert(x <= 144115188075855871) by(nonlinear_arith) requires x * 128 <= 18446744073709551615; }
        if k == 8 { assert(x <= 72057594037927935) by(nonlinear_arith) requires x * 256 <= 18446744073709551615; }
        if k == 9 { assert(x <= 36028797018963967) by(nonlinear_arith) requires x * 512 <= 18446744073709551615; }
        if k == 10 { assert(x <= 18014398509481983) by(nonlinear_arith) requires x * 1024 <= 18446744073709551615; }
        if k == 11 { assert(x <= 9007199254740991) by(nonlinear_arith) requires x * 2048 <= 18446744073709551615; }
        if k == 12 { assert(x <= 4503599627370495) by(nonlinear_arith) requires x * 4096 <= 18446744073709551615; }
        if k == 13 { assert(x <= 2251799813685247) by(nonlinear_arith) requires x * 8192 <= 18446744073709551615; }
        if k == 14 { assert(x <= 1125899906842623) by(nonlinear_arith) requires x * 16384 <= 18446744073709551615; }
        if k == 15 { assert(x <= 562949953421311) by(nonlinear_arith) requires x * 32768 <= 18446744073709551615; }
    }
}
pub broadcast proof fn h_or_u64(x: u64, y: u64, k: u64)
    requires k < 64, y < (1 as u64) << k,
    ensures #[trigger] ((x << k) | y) == (x << k) + y,
{
    assert(((x << k) | y) == (x << k) + y) by(bit_vector) requires k < 64, y < (1 as u64) << k;
}
pub broadcast proof fn h_xor_u64(x: u64, y: u64)
    ensures #[trigger] (x ^ y) == (y ^ x),
{
    assert((x ^ y) == (y ^ x)) by(bit_vector);
}
pub broadcast proof fn h_not_i16(x: i16)
    ensures #[trigger] !x == -1 - x,
{
    assert(!x == -1 - x) by(bit_vector);
}
pub broadcast proof fn h_not_i32(x: i32)
    ensures #[trigger] !x == -1 - x,
{
    assert(!x == -1 - x) by(bit_vector);
}
pub broadcast proof fn h_not_i64(x: i64)
    ensures #[trigger] !x == -1 - x,
{
    assert(!x == -1 - x) by(bit_vector);
}
pub broadcast group group_help {
    vstd::arithmetic::mul::lemma_mul_is_commutative,
    h_shl_u8_1,
    h_shr_u8_1,
    h_shl_u8_2,
    h_shr_u8_2,
    h_shl_u8_3,
    h_shr_u8_3,
    h_shl_u8_4,
    h_shr_u8_4,
    h_shl_u8_5,
    h_shr_u8_5,
    h_shl_u8_6,
    h_shr_u8_6,
    h_shl_u8_7,
    h_shr_u8_7,
    h_and_u8_1,
    h_and_u8_2,
    h_and_u8_3,
    h_and_u8_4,
    h_and_u8_5,
    h_and_u8_6,
    h_and_u8_7,
    h_bit_u8_1,
    h_bit_u8_2,
    h_bit_u8_3,
    h_bit_u8_4,
    h_bit_u8_5,
    h_bit_u8_6,
    h_bit_u8_7,
    h_shlvar_u8_u8,
    h_shlvar_u8_u32,
    h_shlvar_u8_usize,
    h_or_u8,
    h_xor_u8,
    h_shl_u16_1,
    h_shr_u16_1,
    h_shl_u16_2,
    h_shr_u16_2,
    h_shl_u16_3,
    h_shr_u16_3,
    h_shl_u16_4,
    h_shr_u16_4,
    h_shl_u16_5,
    h_shr_u16_5,
    h_shl_u16_6,
    h_shr_u16_6,
    h_shl_u16_7,
    h_shr_u16_7,
    h_shl_u16_8,
    h_shr_u16_8,
    h_and_u16_1,
    h_and_u16_2,
    h_and_u16_3,
    h_and_u16_4,
    h_and_u16_5,
    h_and_u16_6,
    h_and_u16_7,
    h_and_u16_8,
    h_bit_u16_1,
    h_bit_u16_2,
    h_bit_u16_3,
    h_bit_u16_4,
    h_bit_u16_5,
    h_bit_u16_6,
    h_bit_u16_7,
    h_shlvar_u16_u8,
    h_shlvar_u16_u32,
    h_shlvar_u16_usize,
    h_or_u16,
    h_xor_u16,
    h_shl_u32_1,
    h_shr_u32_1,
    h_shl_u32_2,
    h_shr_u32_2,
    h_shl_u32_3,
    h_shr_u32_3,
    h_shl_u32_4,
    h_shr_u32_4,
    h_shl_u32_5,
    h_shr_u32_5,
    h_shl_u32_6,
    h_shr_u32_6,
    h_shl_u32_7,
    h_shr_u32_7,
    h_shl_u32_8,
    h_shr_u32_8,
    h_shl_u32_16,
    h_shr_u32_16,
    h_shl_u32_24,
    h_shr_u32_24,
    h_and_u32_1,
    h_and_u32_2,
    h_and_u32_3,
    h_and_u32_4,
    h_and_u32_5,
    h_and_u32_6,
    h_and_u32_7,
    h_and_u32_8,
    h_and_u32_16,
    h_and_u32_24,
    h_bit_u32_1,
    h_bit_u32_2,
    h_bit_u32_3,
    h_bit_u32_4,
    h_bit_u32_5,
    h_bit_u32_6,
    h_bit_u32_7,
    h_shlvar_u32_u8,
    h_shlvar_u32_u32,
    h_shlvar_u32_usize,
    h_or_u32,
    h_xor_u32,
    h_shl_u64_1,
    h_shr_u64_1,
    h_shl_u64_2,
    h_shr_u64_2,
    h_shl_u64_3,
    h_shr_u64_3,
    h_shl_u64_4,
    h_shr_u64_4,
    h_shl_u64_5,
    h_shr_u64_5,
    h_shl_u64_6,
    h_shr_u64_6,
    h_shl_u64_7,
    h_shr_u64_7,
    h_shl_u64_8,
    h_shr_u64_8,
    h_shl_u64_16,
    h_shr_u64_16,
    h_shl_u64_24,
    h_shr_u64_24,
    h_and_u64_1,
    h_and_u64_2,
    h_and_u64_3,
    h_and_u64_4,
    h_and_u64_5,
    h_and_u64_6,
    h_and_u64_7,
    h_and_u64_8,
    h_and_u64_16,
    h_and_u64_24,
    h_bit_u64_1,
    h_bit_u64_2,
    h_bit_u64_3,
    h_bit_u64_4,
    h_bit_u64_5,
    h_bit_u64_6,
    h_bit_u64_7,
    h_shlvar_u64_u8,
    h_shlvar_u64_u32,
    h_shlvar_u64_usize,
    h_or_u64,
    h_xor_u64,
    h_not_i16,
    h_not_i32,
    h_not_i64,
}
