// Claxon -- A FLAC decoding library in Rust
// Copyright 2014 Ruud van Asseldonk
//
// Licensed under the Apache License, Version 2.0 (the "License");
// you may not use this file except in compliance with the License.
// A copy of the License has been included in the root of the repository.

//! The `subframe` module deals with subframes that make up a frame of the FLAC stream.

use std::cmp;
use std::num;
use error::{Error, Result, fmt_err};
use input::{Bitstream, ReadBytes};

#[derive(Clone, Copy, Debug)]
enum SubframeType {
    Constant,
    Verbatim,
    Fixed(u8),
    Lpc(u8),
}

#[derive(Clone, Copy)]
/*@ pub open spec fn kind(t: SubframeType) -> Sf {
    match t {
        SubframeType::Constant => Sf::Constant,
        SubframeType::Verbatim => Sf::Verbatim,
        SubframeType::Fixed(o) => Sf::Fixed(o as nat),
        SubframeType::Lpc(o) => Sf::Lpc(o as nat),
    }
} @*/
struct SubframeHeader {
    sf_type: SubframeType,
    wasted_bits_per_sample: u32,
}

fn read_subframe_header<R: ReadBytes>(input: &mut Bitstream<R>) -> Result<SubframeHeader>
/*@ requires old(input).inv(),
    ensures final(input).inv(),
        match r {
            Ok(h) => p_header(old(input).bits()) is Ok
                && bleft(*old(input), *final(input), p_header(old(input).bits())->Ok_1)
                && (kind(h.sf_type), h.wasted_bits_per_sample as nat) == p_header(old(input).bits())->Ok_0
                && h.wasted_bits_per_sample <= 31
                && match h.sf_type { SubframeType::Fixed(o) => o <= 4, SubframeType::Lpc(o) => 1 <= o <= 32, _ => true },
            Err(e) => bstop(*old(input), *final(input)) && perr(*old(input), p_header(old(input).bits()), e),
        },
@*/
{
    /*@ broadcast use group_adv, group_bits;
    proof { lemma_adv_refl::<R>(); lemma_sf_bits(); }
    let ghost s = input.bits(); @*/
    // The first bit must be a 0 padding bit.
    if try!(input.read_bit()) {
        return fmt_err("invalid subframe header");
    }

    // Next is a 6-bit subframe type.
    /*@ proof { lemma_val_take(s.skip(1), 6); lemma2_to64(); } @*/
    let sf_type = match try!(input.read_leq_u8(6)) {
        0 => SubframeType::Constant,
        1 => SubframeType::Verbatim,

        // Bit patterns 00001x, 0001xx and 01xxxx are reserved, this library
        // would not know how to handle them, so this is an error. Values that
        // are reserved at the time of writing are a format error, the
        // `Unsupported` error type is for specified features that are not
        // implemented.
        n if (n & 0b111_110 == 0b000_010) || (n & 0b111_100 == 0b000_100) ||
             (n & 0b110_000 == 0b010_000) => {
            return fmt_err("invalid subframe header, encountered reserved value");
        }

        n if n & 0b111_000 == 0b001_000 => {
            let order = n & 0b000_111;

            // A fixed frame has order up to 4, other bit patterns are reserved.
            if order > 4 {
                return fmt_err("invalid subframe header, encountered reserved value");
            }

            SubframeType::Fixed(order)
        }

        // The only possibility left is bit pattern 1xxxxx, an LPC subframe.
        n => {
            // The xxxxx bits are the order minus one.
            let order_mo = n & 0b011_111;
            SubframeType::Lpc(order_mo + 1)
        }
    };

    // Next bits indicates whether there are wasted bits per sample.
    let wastes_bits = try!(input.read_bit());

    // If so, k - 1 zero bits follow, where k is the number of wasted bits.
    let wasted_bits = if !wastes_bits {
        0
    } else {
        try!(input.read_unary()).saturating_add(1)
    };

    // The spec puts no bounds on the number of wasted bits per sample, but more
    // than 31 does not make sense, as it would remove all data even for 32-bit
    // samples.
    if wasted_bits > 31 {
        return fmt_err("wasted bits per sample must not exceed 31");
    }

    let subframe_header = SubframeHeader {
        sf_type: sf_type,
        wasted_bits_per_sample: wasted_bits,
    };
    Ok(subframe_header)
}

/// Given a signed two's complement integer in the `bits` least significant
/// bits of `val`, extends the sign bit to a valid 16-bit signed integer.
#[inline(always)]
fn extend_sign_u16(val: u16, bits: u32) -> i16
/*@ requires 1 <= bits <= 16,
    ensures val < pow2(bits as nat) ==> r == sext(val as nat, bits as nat),
@*/
{
    /*@ proof { if val < pow2(bits as nat) { lemma_sext16(val, bits); } } @*/
    // First shift the value so the desired sign bit is the actual sign bit,
    // then convert to a signed integer, and then do an arithmetic shift back,
    // which will extend the sign bit.
    return ((val << (16 - bits)) as i16) >> (16 - bits);
}

#[test]
fn verify_extend_sign_u16() {
    assert_eq!(5, extend_sign_u16(5, 4));
    assert_eq!(0x3ffe, extend_sign_u16(0x3ffe, 15));
    assert_eq!(-5, extend_sign_u16(16 - 5, 4));
    assert_eq!(-3, extend_sign_u16(512 - 3, 9));
    assert_eq!(-1, extend_sign_u16(0xffff, 16));
    assert_eq!(-2, extend_sign_u16(0xfffe, 16));
    assert_eq!(-1, extend_sign_u16(0x7fff, 15));
}

/// Given a signed two's complement integer in the `bits` least significant
/// bits of `val`, extends the sign bit to a valid 32-bit signed integer.
#[inline(always)]
pub fn extend_sign_u32(val: u32, bits: u32) -> i32
/*@ requires 1 <= bits <= 32,
    ensures val < pow2(bits as nat) ==> r == sext(val as nat, bits as nat),
@*/
{
    /*@ proof { if val < pow2(bits as nat) { lemma_sext32(val, bits); } } @*/
    // First shift the value so the desired sign bit is the actual sign bit,
    // then convert to a signed integer, and then do an arithmetic shift back,
    // which will extend the sign bit.
    ((val << (32 - bits)) as i32) >> (32 - bits)
}

#[test]
fn verify_extend_sign_u32() {
    assert_eq!(5, extend_sign_u32(5, 4));
    assert_eq!(0x3ffffffe, extend_sign_u32(0x3ffffffe, 31));
    assert_eq!(-5, extend_sign_u32(16 - 5, 4));
    assert_eq!(-3, extend_sign_u32(512 - 3, 9));
    assert_eq!(-2, extend_sign_u32(0xfffe, 16));
    assert_eq!(-1, extend_sign_u32(0xffffffff_u32, 32));
    assert_eq!(-2, extend_sign_u32(0xfffffffe_u32, 32));
    assert_eq!(-1, extend_sign_u32(0x7fffffff, 31));

    // The data below are samples from a real FLAC stream.
    assert_eq!(-6392, extend_sign_u32(124680, 17));
    assert_eq!(-6605, extend_sign_u32(124467, 17));
    assert_eq!(-6850, extend_sign_u32(124222, 17));
    assert_eq!(-7061, extend_sign_u32(124011, 17));
}

/// Decodes a signed number from Rice coding to the two's complement.
///
/// The Rice coding used by FLAC operates on unsigned integers, but the
/// residual is signed. The mapping is done as follows:
///
///  0 -> 0
/// -1 -> 1
///  1 -> 2
/// -2 -> 3
///  2 -> 4
///  etc.
///
/// This function takes the unsigned value and converts it into a signed
/// number.
#[inline(always)]
fn rice_to_signed(val: u32) -> i32
/*@ ensures r == zigzag(val as nat),
@*/
{
    /*@ proof { lemma_zigzag(val); } @*/
    // The following bit-level hackery compiles to only four instructions on
    // x64. It is equivalent to the following code:
    //
    //   if val & 1 == 1 {
    //       -1 - (val / 2) as i32
    //   } else {
    //       (val / 2) as i32
    //   }
    //
    let half = (val >> 1) as i32;
    let extended_bit_0 = ((val << 31) as i32) >> 31;
    half ^ extended_bit_0
}

#[test]
fn verify_rice_to_signed() {
    assert_eq!(rice_to_signed(0), 0);
    assert_eq!(rice_to_signed(1), -1);
    assert_eq!(rice_to_signed(2), 1);
    assert_eq!(rice_to_signed(3), -2);
    assert_eq!(rice_to_signed(4), 2);
}

/// Decodes a subframe into the provided block-size buffer.
///
/// It is assumed that the length of the buffer is the block size.
pub fn decode<R: ReadBytes>(input: &mut Bitstream<R>,
                            bps: u32,
                            buffer: &mut [i32])
                            -> Result<()>
/*@ requires old(input).inv(), bps <= 32, old(buffer)@.len() <= 65535,
    ensures final(input).inv(), final(buffer)@.len() == old(buffer)@.len(),
        sub_result(*old(input), *final(input), p_subframe(old(input).bits(), bps as nat, old(buffer)@.len()), final(buffer)@, r),
@*/
{
    /*@ broadcast use group_adv, group_bits;
    proof { lemma_adv_refl::<R>(); }
    let ghost s = input.bits();
    let ghost len = buffer@.len(); @*/
    // The sample type i32 should be wide enough to accomodate for all bits of
    // the stream, but this can be verified at a higher level than here. Still,
    // it is a good idea to make the assumption explicit. FLAC supports up to
    // sample widths of 32 in theory, so with the delta between channels that
    // requires 33 bits, but the reference decoder supports only subset FLAC of
    // 24 bits per sample at most, so restricting ourselves to i32 is fine.
    debug_assert!(32 >= bps);

    let header = try!(read_subframe_header(input));

    if header.wasted_bits_per_sample >= bps {
        return fmt_err("subframe has no non-wasted bits");
    }

    // If there are wasted bits, the subframe stores samples with a lower bps
    // than the stream bps. We later shift all the samples left to correct this.
    let sf_bps = bps - header.wasted_bits_per_sample;

    /*@ let ghost s1 = input.bits();
    let ghost body = p_body(kind(header.sf_type), s1, sf_bps as nat, len);
    let ghost w = header.wasted_bits_per_sample; @*/
    match header.sf_type {
        SubframeType::Constant => try!(decode_constant(input, sf_bps, buffer)),
        SubframeType::Verbatim => try!(decode_verbatim(input, sf_bps, buffer)),
        SubframeType::Fixed(ord) => try!(decode_fixed(input, sf_bps, ord as u32, buffer)),
        SubframeType::Lpc(ord) => try!(decode_lpc(input, sf_bps, ord as u32, buffer)),
    }

    /*@ let ghost v = buffer@;
    assert(body is Ok && v == body->Ok_0);
    let ghost t = v.map_values(|x: i32| w32(x * pow2(w as nat)));
    assert(w == 0 ==> t =~= v) by {
        if w == 0 {
            lemma2_to64();
            assert forall|i: int| 0 <= i < v.len() implies t[i] == v[i] by { lemma_w32_small(v[i] as int); }
        }
    } @*/
    // Finally, everything must be shifted by 'wasted bits per sample' to
    // the left. Note: it might be better performance-wise to do this on
    // the fly while decoding. That could be done if this is a bottleneck.
    if header.wasted_bits_per_sample > 0 {
        debug_assert!(header.wasted_bits_per_sample <= 31,
                      "Cannot shift by more than the sample width.");
        for s in buffer
        /*@ invariant
                0 <= VX_I <= buffer@.len(), buffer@.len() == v.len(), w <= 31, w == header.wasted_bits_per_sample,
                t == v.map_values(|x: i32| w32(x * pow2(w as nat))),
                forall|i: int| 0 <= i < VX_I ==> buffer@[i] == t[i],
                forall|i: int| VX_I <= i < buffer@.len() ==> buffer@[i] == v[i],
        @*/
        {
            /*@ proof { lemma_shl_i32(buffer@[VX_I as int], w); } @*/
            // For a valid FLAC file, this shift does not overflow. For an
            // invalid file it might, and then we decode garbage, but we don't
            // crash the program in debug mode due to shift overflow.
            *s = s.wrapping_shl(header.wasted_bits_per_sample);
        }
    }

    /*@ assert(buffer@ =~= t); @*/
    Ok(())
}

#[derive(Copy, Clone)]
enum RicePartitionType {
    Rice,
    Rice2,
}

fn decode_residual<R: ReadBytes>(input: &mut Bitstream<R>,
                                 block_size: u16,
                                 buffer: &mut [i32])
                                 -> Result<()>
/*@ requires old(input).inv(), old(buffer)@.len() <= block_size,
    ensures final(input).inv(), final(buffer)@.len() == old(buffer)@.len(),
        sub_result(*old(input), *final(input), p_residual(old(input).bits(), block_size as int, block_size - old(buffer)@.len()), final(buffer)@, r),
@*/
{
    /*@ broadcast use group_adv, group_bits;
    proof { lemma_adv_refl::<R>(); lemma2_to64(); }
    let ghost s = input.bits();
    let ghost warm = (block_size - buffer@.len()) as int;
    proof { lemma_val_take(s, 2); lemma_val_take(s.skip(2), 4); } @*/
    // Residual starts with two bits of coding method.
    let partition_type = match try!(input.read_leq_u8(2)) {
        0b00 => RicePartitionType::Rice,
        0b01 => RicePartitionType::Rice2,
        // 10 and 11 are reserved.
        _ => return fmt_err("invalid residual, encountered reserved value"),
    };

    // Next are 4 bits partition order.
    let order = try!(input.read_leq_u8(4));

    // There are 2^order partitions. Note: the specification states a 4-bit
    // partition order, so the order is at most 31, so there could be 2^31
    // partitions, but the block size is a 16-bit number, so there are at
    // most 2^16 - 1 samples in the block. No values have been marked as
    // invalid by the specification though.
    /*@ let ghost bs = block_size as int;
    let ghost pw = (if partition_type is Rice { 4nat } else { 5nat });
    let ghost s2 = input.bits();
    proof { lemma_partitions(block_size, order as u32); } @*/
    let n_partitions = 1u32 << order;
    let n_samples_per_partition = block_size >> order;

    // The partitions together must fill the block. If the block size is not a
    // multiple of 2^order; if we shifted off some bits, then we would not fill
    // the entire block. Such a partition order is invalid for this block size.
    if block_size & (n_partitions - 1) as u16 != 0 {
        return fmt_err("invalid partition order")
    }

    // NOTE: the check above checks that block_size is a multiple of n_partitions
    // (this works because n_partitions is a power of 2). The check below is
    // equivalent but more expensive.
    debug_assert_eq!(n_partitions * n_samples_per_partition as u32, block_size as u32);

    let n_warm_up = block_size - buffer.len() as u16;

    // The partition size must be at least as big as the number of warm-up
    // samples, otherwise the size of the first partition is negative.
    if n_warm_up > n_samples_per_partition {
        return fmt_err("invalid residual");
    }

    /*@ let ghost part = n_samples_per_partition as int;
    let ghost np = n_partitions as int;
    let ghost total = p_parts(s2, pw, part, warm, np);
    assert(p_residual(s, bs, warm) == total);
    assert(input.bits() == s2);
    let ghost in1 = *input; @*/
    // Finally decode the partitions themselves.
    match partition_type {
        RicePartitionType::Rice => {
            let mut start = 0;
            let mut len = n_samples_per_partition - n_warm_up;
            /*@ let ghost mut j = 0int;
            assert(buffer@.take(0) =~= Seq::<i32>::empty()); @*/
            for _ in 0..n_partitions
            /*@ invariant
                    j == VX_I, 0 <= j <= np, np == n_partitions, pw == 4, np >= 1,
                    old(buffer)@.len() == buffer@.len(), part == n_samples_per_partition, warm <= part, 0 <= warm, n_warm_up == warm,
                    part * np == block_size, block_size == warm + buffer@.len(),
                    start == (if j == 0 { 0 } else { j * part - warm }),
                    len == part_len(part, warm, j),
                    total == p_parts(s2, pw, part, warm, np),
                    p_residual(s, block_size as int, warm) == total,
                    s == old(input).bits(),
                    p_parts(s2, pw, part, warm, j) is Ok,
                    p_parts(s2, pw, part, warm, j)->Ok_0 == buffer@.take(start as int),
                    input.inv(),
                    bleft(*old(input), *input, p_parts(s2, pw, part, warm, j)->Ok_1),
            @*/
            {
                /*@ broadcast use group_adv;
                proof {
                    lemma_part_fits(part, warm, j, np, start as int, len as int, block_size as int, buffer@.len() as int);
                }
                let ghost b0 = buffer@;
                proof {
                    let q = p_partition(input.bits(), pw, len as int);
                    if !(q is Ok) { lemma_parts_err(s2, pw, part, warm, j, np); }
                } @*/
                let slice = &mut buffer[start..start + len as usize];
                try!(decode_rice_partition(input, slice));
                /*@ proof {
                    assert(buffer@.take(start + len) =~= b0.take(start as int) + buffer@.subrange(start as int, start + len));
                    assert(p_parts(s2, pw, part, warm, j + 1)->Ok_0 =~= buffer@.take(start + len));
                    j = j + 1;
                } @*/
                start = start + len as usize;
                len = n_samples_per_partition;
            }
            /*@ proof {
                assert(np * part - warm == buffer@.len()) by(nonlinear_arith) requires part * np == block_size, block_size == warm + buffer@.len();
                assert(buffer@.take(start as int) =~= buffer@);
            } @*/
        }
        RicePartitionType::Rice2 => {
            let mut start = 0;
            let mut len = n_samples_per_partition - n_warm_up;
            /*@ let ghost mut j = 0int;
            assert(buffer@.take(0) =~= Seq::<i32>::empty()); @*/
            for _ in 0..n_partitions
            /*@ invariant
                    j == VX_I, 0 <= j <= np, np == n_partitions, pw == 5, np >= 1,
                    old(buffer)@.len() == buffer@.len(), part == n_samples_per_partition, warm <= part, 0 <= warm, n_warm_up == warm,
                    part * np == block_size, block_size == warm + buffer@.len(),
                    start == (if j == 0 { 0 } else { j * part - warm }),
                    len == part_len(part, warm, j),
                    total == p_parts(s2, pw, part, warm, np),
                    p_residual(s, block_size as int, warm) == total,
                    s == old(input).bits(),
                    p_parts(s2, pw, part, warm, j) is Ok,
                    p_parts(s2, pw, part, warm, j)->Ok_0 == buffer@.take(start as int),
                    input.inv(),
                    bleft(*old(input), *input, p_parts(s2, pw, part, warm, j)->Ok_1),
            @*/
            {
                /*@ broadcast use group_adv;
                proof {
                    lemma_part_fits(part, warm, j, np, start as int, len as int, block_size as int, buffer@.len() as int);
                }
                let ghost b0 = buffer@;
                proof {
                    let q = p_partition(input.bits(), pw, len as int);
                    if !(q is Ok) { lemma_parts_err(s2, pw, part, warm, j, np); }
                } @*/
                let slice = &mut buffer[start..start + len as usize];
                try!(decode_rice2_partition(input, slice));
                /*@ proof {
                    assert(buffer@.take(start + len) =~= b0.take(start as int) + buffer@.subrange(start as int, start + len));
                    assert(p_parts(s2, pw, part, warm, j + 1)->Ok_0 =~= buffer@.take(start + len));
                    j = j + 1;
                } @*/
                start = start + len as usize;
                len = n_samples_per_partition;
            }
            /*@ proof {
                assert(np * part - warm == buffer@.len()) by(nonlinear_arith) requires part * np == block_size, block_size == warm + buffer@.len();
                assert(buffer@.take(start as int) =~= buffer@);
            } @*/
        }
    }

    Ok(())
}

// Performance note: all Rice partitions in real-world FLAC files are Rice
// partitions, not Rice2 partitions. Therefore it makes sense to inline this
// function into decode_residual.
#[inline(always)]
fn decode_rice_partition<R: ReadBytes>(input: &mut Bitstream<R>,
                                       buffer: &mut [i32])
                                       -> Result<()>
/*@ requires old(input).inv(),
    ensures final(input).inv(), final(buffer)@.len() == old(buffer)@.len(),
        sub_result(*old(input), *final(input), p_partition(old(input).bits(), 4, old(buffer)@.len() as int), final(buffer)@, r),
@*/
{
    /*@ broadcast use group_adv, group_bits;
    proof { lemma_adv_refl::<R>(); lemma2_to64(); }
    let ghost s = input.bits();
    let ghost len = buffer@.len() as int;
    let ghost k = val(s.take(4));
    let ghost s1 = s.skip(4);
    proof { lemma_val_take(s, 4); } @*/
    // A Rice partition (not Rice2), starts with a 4-bit Rice parameter.
    let rice_param = try!(input.read_leq_u8(4)) as u32;

    // All ones is an escape code that indicates unencoded binary.
    if rice_param == 0b1111 {
        return Err(Error::Unsupported("unencoded binary is not yet implemented"))
    }

    // About the decoding below: the first part of the sample is the quotient,
    // unary encoded. This means that there are q zeros, and then a one.
    //
    // The reference decoder supports sample widths up to 24 bits, so with
    // the additional bytes for difference in channels and for prediction, a
    // sample fits in 26 bits. The Rice parameter could be as little as 1,
    // so the quotient can potentially be very large. However, in practice
    // it is rarely greater than 5. Values as large as 75 still occur though.
    //
    // Next up is the remainder in rice_param bits. Depending on the number of
    // bits, at most two or three bytes need to be read, so the code below is
    // split into two cases to allow a more efficient reading function to be
    // used when possible. About 45% of the time, rice_param is less than 9
    // (measured from real-world FLAC files).

    if rice_param <= 8 {
        for sample in buffer.iter_mut()
        /*@ invariant
                    0 <= VX_I <= buffer@.len(), buffer@.len() == len, len == old(buffer)@.len(), k == rice_param, k <= 30, k <= 8,
                    p_partition(s, 4, len) == run(rice_f(k), s1, len), s == old(input).bits(),
                    run(rice_f(k), s1, VX_I as int) is Ok,
                    run(rice_f(k), s1, VX_I as int)->Ok_0 == buffer@.take(VX_I as int),
                    input.inv(),
                    bleft(*old(input), *input, run(rice_f(k), s1, VX_I as int)->Ok_1),
            @*/
        {
            /*@ broadcast use group_adv;
            let ghost t = input.bits();
            let ghost b0 = buffer@;
            proof {
                assert(rice_f(k)(VX_I as int, t) == p_rice(t, k));
                if !(p_rice(t, k) is Ok) { lemma_run_err(rice_f(k), s1, VX_I as int, len); }
                assert(run(rice_f(k), s1, VX_I + 1) is Ok == (p_rice(t, k) is Ok));
            } @*/
            let q = try!(input.read_unary());
            /*@ proof { lemma_val_take(input.bits(), k); } @*/
            let r = try!(input.read_leq_u8(rice_param)) as u32;
            /*@ proof { lemma_rice_join(q, r, rice_param); } @*/
            *sample = rice_to_signed((q << rice_param) | r);
            /*@ proof { assert(buffer@.take(VX_I + 1) =~= b0.take(VX_I as int).push(buffer@[VX_I as int])); } @*/
        }
    } else {
        for sample in buffer.iter_mut()
        /*@ invariant
                    0 <= VX_I <= buffer@.len(), buffer@.len() == len, len == old(buffer)@.len(), k == rice_param, k <= 30, 8 < k < 15,
                    p_partition(s, 4, len) == run(rice_f(k), s1, len), s == old(input).bits(),
                    run(rice_f(k), s1, VX_I as int) is Ok,
                    run(rice_f(k), s1, VX_I as int)->Ok_0 == buffer@.take(VX_I as int),
                    input.inv(),
                    bleft(*old(input), *input, run(rice_f(k), s1, VX_I as int)->Ok_1),
            @*/
        {
            /*@ broadcast use group_adv;
            let ghost t = input.bits();
            let ghost b0 = buffer@;
            proof {
                assert(rice_f(k)(VX_I as int, t) == p_rice(t, k));
                if !(p_rice(t, k) is Ok) { lemma_run_err(rice_f(k), s1, VX_I as int, len); }
                assert(run(rice_f(k), s1, VX_I + 1) is Ok == (p_rice(t, k) is Ok));
            } @*/
            let q = try!(input.read_unary());
            /*@ proof { lemma_val_take(input.bits(), k); } @*/
            let r = try!(input.read_gt_u8_leq_u16(rice_param));
            /*@ proof { lemma_rice_join(q, r, rice_param); } @*/
            *sample = rice_to_signed((q << rice_param) | r);
            /*@ proof { assert(buffer@.take(VX_I + 1) =~= b0.take(VX_I as int).push(buffer@[VX_I as int])); } @*/
        }
    }

    /*@ assert(buffer@.take(len) =~= buffer@); @*/
    Ok(())
}

// Performance note: a Rice2 partition is extremely uncommon, I haven’t seen a
// single one in any real-world FLAC file. So do not inline it, in order not to
// pollute the caller with dead code.
#[inline(never)]
#[cold]
fn decode_rice2_partition<R: ReadBytes>(input: &mut Bitstream<R>,
                                        buffer: &mut [i32])
                                        -> Result<()>
/*@ requires old(input).inv(),
    ensures final(input).inv(), final(buffer)@.len() == old(buffer)@.len(),
        sub_result(*old(input), *final(input), p_partition(old(input).bits(), 5, old(buffer)@.len() as int), final(buffer)@, r),
@*/
{
    /*@ broadcast use group_adv, group_bits;
    proof { lemma_adv_refl::<R>(); lemma2_to64(); }
    let ghost s = input.bits();
    let ghost len = buffer@.len() as int;
    let ghost k = val(s.take(5));
    let ghost s1 = s.skip(5);
    proof { lemma_val_take(s, 5); } @*/
    // A Rice2 partition, starts with a 5-bit Rice parameter.
    let rice_param = try!(input.read_leq_u8(5)) as u32;

    // All ones is an escape code that indicates unencoded binary.
    if rice_param == 0b11111 {
        return Err(Error::Unsupported("unencoded binary is not yet implemented"))
    }

    for sample in buffer.iter_mut()
            /*@ invariant
                    0 <= VX_I <= buffer@.len(), buffer@.len() == len, len == old(buffer)@.len(), k == rice_param, k <= 30,
                    p_partition(s, 5, len) == run(rice_f(k), s1, len), s == old(input).bits(),
                    run(rice_f(k), s1, VX_I as int) is Ok,
                    run(rice_f(k), s1, VX_I as int)->Ok_0 == buffer@.take(VX_I as int),
                    input.inv(),
                    bleft(*old(input), *input, run(rice_f(k), s1, VX_I as int)->Ok_1),
            @*/
    {
        /*@ broadcast use group_adv;
            let ghost t = input.bits();
            let ghost b0 = buffer@;
            proof {
                assert(rice_f(k)(VX_I as int, t) == p_rice(t, k));
                if !(p_rice(t, k) is Ok) { lemma_run_err(rice_f(k), s1, VX_I as int, len); }
                assert(run(rice_f(k), s1, VX_I + 1) is Ok == (p_rice(t, k) is Ok));
            } @*/
        // First part of the sample is the quotient, unary encoded.
        let q = try!(input.read_unary());

        // Next is the remainder, in rice_param bits. Because at this
        // point rice_param is at most 30, we can safely read into a u32.
        /*@ proof { lemma_val_take(input.bits(), k); } @*/
        let r = try!(input.read_leq_u32(rice_param));
        /*@ proof { lemma_rice_join(q, r, rice_param); } @*/
        *sample = rice_to_signed((q << rice_param) | r);
            /*@ proof { assert(buffer@.take(VX_I + 1) =~= b0.take(VX_I as int).push(buffer@[VX_I as int])); } @*/
    }

    /*@ assert(buffer@.take(len) =~= buffer@); @*/
    Ok(())
}

fn decode_constant<R: ReadBytes>(input: &mut Bitstream<R>,
                                 bps: u32,
                                 buffer: &mut [i32])
                                 -> Result<()>
/*@ requires old(input).inv(), 1 <= bps <= 32,
    ensures final(input).inv(), final(buffer)@.len() == old(buffer)@.len(),
        sub_result(*old(input), *final(input), p_constant(old(input).bits(), bps as nat, old(buffer)@.len()), final(buffer)@, r),
@*/
{
    /*@ broadcast use group_adv, group_bits;
    proof { lemma_adv_refl::<R>(); lemma_val_take(input.bits(), bps as nat); } @*/
    let sample_u32 = try!(input.read_leq_u32(bps));
    let sample = extend_sign_u32(sample_u32, bps);

    for s in buffer
    /*@ invariant 0 <= VX_I <= buffer@.len(), buffer@.len() == old(buffer)@.len(), forall|i: int| 0 <= i < VX_I ==> buffer@[i] == sample,
    @*/
    {
        *s = sample;
    }

    /*@ assert(buffer@ =~= p_constant(old(input).bits(), bps as nat, old(buffer)@.len())->Ok_0); @*/
    Ok(())
}

#[cold]
fn decode_verbatim<R: ReadBytes>(input: &mut Bitstream<R>,
                                 bps: u32,
                                 buffer: &mut [i32])
                                 -> Result<()>
/*@ requires old(input).inv(), 1 <= bps <= 32,
    ensures final(input).inv(), final(buffer)@.len() == old(buffer)@.len(),
        sub_result(*old(input), *final(input), run(sample_f(bps as nat), old(input).bits(), old(buffer)@.len() as int), final(buffer)@, r),
@*/
{
    /*@ broadcast use group_adv, group_bits;
    proof { lemma_adv_refl::<R>(); }
    let ghost f = sample_f(bps as nat);
    let ghost s0 = input.bits();
    let ghost len = buffer@.len() as int;
    assert(buffer@.take(0) =~= Seq::<i32>::empty()); @*/

    // This function must not be called for a sample wider than the sample type.
    // This has been verified at an earlier stage, but it is good to state the
    // assumption explicitly. FLAC supports up to 32-bit samples, so the
    // mid/side delta would require 33 bits per sample. But that is not subset
    // FLAC, and the reference decoder does not support it either.
    debug_assert!(bps <= 32);

    // A verbatim block stores samples without encoding whatsoever.
    for s in buffer
    /*@ invariant
            0 <= VX_I <= buffer@.len(), buffer@.len() == len, len == old(buffer)@.len(), 1 <= bps <= 32, f == sample_f(bps as nat), s0 == old(input).bits(),
            run(f, s0, VX_I as int) is Ok,
            run(f, s0, VX_I as int)->Ok_0 == buffer@.take(VX_I as int),
            input.inv(),
            bleft(*old(input), *input, run(f, s0, VX_I as int)->Ok_1),
    @*/
    {
        /*@ broadcast use group_adv;
        let ghost t = input.bits();
        let ghost b0 = buffer@;
        proof {
            assert(f(VX_I as int, t) == p_sample(t, bps as nat));
            if !(p_sample(t, bps as nat) is Ok) { lemma_run_err(f, s0, VX_I as int, len); }
            assert(run(f, s0, VX_I + 1) is Ok == (p_sample(t, bps as nat) is Ok));
            lemma_val_take(t, bps as nat);
        } @*/
        *s = extend_sign_u32(try!(input.read_leq_u32(bps)), bps);
        /*@ proof { assert(buffer@.take(VX_I + 1) =~= b0.take(VX_I as int).push(buffer@[VX_I as int])); } @*/
    }

    /*@ assert(buffer@.take(len) =~= buffer@); @*/
    Ok(())
}

fn predict_fixed(order: u32, buffer: &mut [i32]) -> Result<()>
/*@ requires order <= 4, order <= old(buffer)@.len(),
    ensures r is Ok, final(buffer)@.len() == old(buffer)@.len(),
        final(buffer)@ == fixed_out(order as nat, old(buffer)@, old(buffer)@.len() as int),
@*/
{
    /*@ hide(dot); hide(fixed_pred); hide(fixed_out); hide(w32);
    proof { lemma_fixed_0(order as nat, buffer@); }
    let ghost b0 = buffer@;
    let ghost o = order as nat; @*/
    // When this is called during decoding, the order as read from the subframe
    // header has already been verified, so it is safe to assume that
    // 0 <= order <= 4. Still, it is good to state that assumption explicitly.
    debug_assert!(order <= 4);

    // Coefficients for fitting an order n polynomial. You get these
    // coefficients by writing down n numbers, then their differences, then the
    // differences of the differences, etc. What results is Pascal's triangle
    // with alternating signs.
    let o0 = [];
    let o1 = [1];
    let o2 = [-1, 2];
    let o3 = [1, -3, 3];
    let o4 = [-1, 4, -6, 4];

    // Multiplying samples with at most 6 adds 3 bits. Then summing at most 5
    // of those values again adds at most 4 bits, so a sample type that is 7
    // bits wider than bps should suffice. Subset FLAC supports at most 24 bits
    // per sample, 25 for the channel delta, so using an i32 is safe here.

    let coefficients: &[i32] = match order {
        0 => &o0,
        1 => &o1,
        2 => &o2,
        3 => &o3,
        4 => &o4,
        _ => unreachable!(),
    };

    /*@ assert(coefficients@ =~= fixed_coefs(o));
    let ghost c = ints32(fixed_coefs(o)); @*/
    let window_size = order as usize + 1;

    // TODO: abstract away this iterating over a window into a function?
    /*@ #[verifier::loop_isolation(false)] @*/
    for i in 0..buffer.len() - order as usize
    /*@ invariant
            order == o, o <= 4, window_size == o + 1, coefficients@ == fixed_coefs(o), c == ints32(fixed_coefs(o)), o <= b0.len(),
            buffer@.len() == b0.len(),
            buffer@.take(i + o) == fixed_out(o, b0, i + o),
            forall|j: int| i + o <= j < buffer@.len() ==> buffer@[j] == b0[j],
    @*/
    {
        /*@ let ghost b1 = buffer@;
        let ghost w = b1.subrange(i as int, i + o + 1);
        let ghost d = b1.take(i + o);
        proof { lemma_dot_0(c, w); } @*/
        // Manually do the windowing, because .windows() returns immutable slices.
        let window = &mut buffer[i..i + window_size];

        // The #coefficients elements of the window store already decoded
        // samples, the last element of the window is the delta. Therefore,
        // predict based on the first #coefficients samples. From the note
        // above we know that the multiplication will not overflow for 24-bit
        // samples, so the wrapping mul is safe. If it wraps, the file was
        // invalid, and we make no guarantees about the decoded result. But
        // we explicitly do not crash.
        let prediction = coefficients.iter()
                                     .zip(window.iter())
                                     .map(|(&c, &s)| num::Wrapping(c) * num::Wrapping(s))
                                     // Rust 1.13 does not support using `sum`
                                     // with `Wrapping`, so do a fold.
                                     /*@ invariant VX_A@ == fixed_coefs(o), VX_B@ == w, w.len() == o + 1, o <= 4, c == ints32(fixed_coefs(o)), 0 <= VX_K <= o, VX_ACC.0 == w32(dot(c, w, VX_K as int)), @*/
                                     /*@ proof {
                                        let k = VX_K as int;
                                        lemma_dot_next(c, w, k);
                                        lemma_w32_add(dot(c, w, k), w32(c[k] * w[k]) as int);
                                        lemma_w32_add(c[k] * w[k], dot(c, w, k));
                                     } @*/
                                     .fold(num::Wrapping(0), |a, x| a + x).0;

        /*@ proof {
            lemma_dot_fixed(o, w, d);
            lemma_w32_add(dot(c, w, o as int), w[o as int] as int);
        } @*/
        // The delta is stored, so the sample is the prediction + delta.
        let delta = window[coefficients.len()];
        /*@ proof { lemma_wrap_add(prediction, delta); } @*/
        window[coefficients.len()] = prediction.wrapping_add(delta);
        /*@ proof {
            assert(buffer@[i + o] == w32(prediction + delta));
            lemma_fixed_push(o, b0, i + o, buffer@[i + o]);
            assert(buffer@.take(i + 1 + o) =~= d.push(buffer@[i + o]));
        } @*/
    }

    /*@ assert(buffer@.take(buffer@.len() as int) =~= buffer@); @*/
    Ok(())
}

#[test]
fn verify_predict_fixed() {
    // The following data is from an actual FLAC stream and has been verified
    // against the reference decoder. The data is from a 16-bit stream.
    let mut buffer = [-729, -722, -667, -19, -16,  17, -23, -7,
                        16,  -16,   -5,   3,  -8, -13, -15, -1];
    assert!(predict_fixed(3, &mut buffer).is_ok());
    assert_eq!(&buffer, &[-729, -722, -667, -583, -486, -359, -225, -91,
                            59,  209,  354,  497,  630,  740,  812, 845]);

    // The following data causes overflow of i32 when not handled with care.
    let mut buffer = [21877, 27482, -6513];
    assert!(predict_fixed(2, &mut buffer).is_ok());
    assert_eq!(&buffer, &[21877, 27482, 26574]);
}

fn decode_fixed<R: ReadBytes>(input: &mut Bitstream<R>,
                              bps: u32,
                              order: u32,
                              buffer: &mut [i32])
                              -> Result<()>
/*@ requires old(input).inv(), 1 <= bps <= 32, order <= 4, old(buffer)@.len() <= 65535,
    ensures final(input).inv(), final(buffer)@.len() == old(buffer)@.len(),
        sub_result(*old(input), *final(input), p_fixed(old(input).bits(), bps as nat, order as nat, old(buffer)@.len()), final(buffer)@, r),
@*/
{
    /*@ broadcast use group_adv, group_bits;
    proof { lemma_adv_refl::<R>(); }
    let ghost s = input.bits();
    let ghost o = order as int;
    let ghost len = buffer@.len() as int;
    let ghost warm = run(sample_f(bps as nat), s, o);
    @*/
    // The length of the buffer which is passed in, is the length of the block.
    // Thus, the number of warm-up samples must not exceed that length.
    if buffer.len() < order as usize {
        return fmt_err("invalid fixed subframe, order is larger than block size")
    }

    // There are order * bits per sample unencoded warm-up sample bits.
    try!(decode_verbatim(input, bps, &mut buffer[..order as usize]));

    /*@ assert(buffer@.take(o) =~= warm->Ok_0);
    let ghost b1 = buffer@;
    let ghost s1 = input.bits();
    let ghost res = p_residual(s1, len, o); @*/
    // Next up is the residual. We decode into the buffer directly, the
    // predictor contributions will be added in a second pass. The first
    // `order` samples have been decoded already, so continue after that.
    try!(decode_residual(input,
                         buffer.len() as u16,
                         &mut buffer[order as usize..]));

    /*@ assert(buffer@ =~= warm->Ok_0 + res->Ok_0); @*/
    try!(predict_fixed(order, buffer));

    Ok(())
}

/// Apply LPC prediction for subframes with LPC order of at most 12.
///
/// This function takes advantage of the upper bound on the order. Virtually all
/// files that occur in the wild are subset-compliant files, which have an order
/// of at most 12, so it makes sense to optimize for this. A simpler (but
/// slower) fallback is implemented in `predict_lpc_high_order`.
/*@ #[verifier::loop_isolation(false)] #[verifier::rlimit(40)] @*/
fn predict_lpc_low_order(
    raw_coefficients: &[i16],
    qlp_shift: i16,
    buffer: &mut [i32],
)
/*@ requires raw_coefficients@.len() <= 12, raw_coefficients@.len() <= old(buffer)@.len(), 0 <= qlp_shift < 64,
    ensures final(buffer)@.len() == old(buffer)@.len(),
        final(buffer)@ == lpc_out(raw_coefficients@, qlp_shift as nat, old(buffer)@, old(buffer)@.len() as int),
@*/
{
    /*@ hide(lpc_out); hide(dot); hide(w32);
    let ghost b0 = buffer@;
    let ghost c = raw_coefficients@;
    let ghost sh = qlp_shift as nat;
    let ghost o = c.len() as int;
    proof { lemma_ints16(c); lemma_lpc_0(c, sh, b0); } @*/
    debug_assert!(qlp_shift >= 0, "Right-shift by negative value is not allowed.");
    debug_assert!(qlp_shift < 64, "Cannot shift by more than integer width.");
    // The decoded residuals are 25 bits at most (assuming subset FLAC of at
    // most 24 bits per sample, but there is the delta encoding for channels).
    // The coefficients are 16 bits at most, so their product is 41 bits. In
    // practice the predictor order does not exceed 12, so adding 12 numbers of
    // 41 bits each requires at most 53 bits. Therefore, do all intermediate
    // computations as i64.

    // In the code below, a predictor order of 12 is assumed. This aids
    // optimization and vectorization by making some counts available at compile
    // time. If the actual order is less than 12, simply set the early
    // coefficients to 0.
    let order = raw_coefficients.len();
    let coefficients = {
        let mut buf = [0i64; 12];
        let mut i = 12 - order;
        for c in raw_coefficients
        /*@ invariant
                0 <= VX_I <= o, i == 12 - o + VX_I, buf@.len() == 12,
                forall|j: int| 0 <= j < 12 - o ==> buf@[j] == 0,
                forall|j: int| 12 - o <= j < i ==> buf@[j] == raw_coefficients@[j - (12 - o)],
        @*/
        {
            buf[i] = *c as i64;
            i = i + 1;
        }
        buf
    };

    /*@ let ghost z = coefficients@.map_values(|x: i64| x as int);
    assert(forall|j: int| 0 <= j < 12 ==> -0x8000 <= #[trigger] z[j] <= 0x7fff); @*/
    // The linear prediction is essentially an inner product of the known
    // samples with the coefficients, followed by a shift. To be able to do an
    // inner product of 12 elements at a time, we must first have 12 samples.
    // If the predictor order is less, first predict the few samples after the
    // warm-up samples.
    let left = cmp::min(12, buffer.len()) - order;
    /*@ assert(left == (if buffer@.len() > 12 { 12 } else { buffer@.len() }) - o); @*/
    for i in 0..left
    /*@ invariant
            buffer@.len() == b0.len(),
            buffer@.take(o + i) == lpc_out(c, sh, b0, o + i),
            forall|j: int| o + i <= j < buffer@.len() ==> buffer@[j] == b0[j],
    @*/
    {
        /*@ let ghost b1 = buffer@;
        let ghost p = b1.take(o + i);
        let ghost w = p.skip(p.len() - o);
        proof { lemma_dot_bound(ints16(c), w, o); lemma_dot_0(ints16(c), w); } @*/
        let prediction = raw_coefficients.iter()
                                         .zip(&buffer[i..order + i])
                                         .map(|(&c, &s)| c as i64 * s as i64)
                                         /*@ invariant 0 <= VX_K <= o, VX_ACC == dot(ints16(c), w, VX_K as int), @*/
                                         /*@ proof { lemma_dot_bound(ints16(c), w, VX_K as int); lemma_dot_bound(ints16(c), w, VX_K + 1); lemma_dot_next(ints16(c), w, VX_K as int); lemma_mul_i16_i32(c[VX_K as int] as int, w[VX_K as int]); } @*/
                                         .sum::<i64>() >> qlp_shift;
        /*@ proof {
            lemma_shr_dot(dot(ints16(c), w, o) as i64, qlp_shift as u32);
            assert(prediction == lpc_pred(c, sh, p));
        } @*/
        let delta = buffer[order + i] as i64;
        /*@ proof { lemma_cast_i64((prediction + delta) as i64); } @*/
        buffer[order + i] = (prediction + delta) as i32;
        /*@ proof { lemma_lpc_push(c, sh, b0, o + i, buffer@[o + i]); assert(buffer@.take(o + i + 1) =~= p.push(buffer@[o + i])); } @*/
    }

    /*@ assert(buffer@.take(buffer@.len() as int) =~= buffer@); @*/
    if buffer.len() <= 12 {
        return
    }

    // At this point, buffer[0..12] has been predicted. For the rest of the
    // buffer we can do inner products of 12 samples. This reduces the amount of
    // conditional code, and improves performance significantly.
    for i in 12..buffer.len()
    /*@ invariant
            buffer@.len() == b0.len(),
            b0.len() >= 12 ==> buffer@.take(i as int) == lpc_out(c, sh, b0, i as int),
            b0.len() < 12 ==> buffer@ == lpc_out(c, sh, b0, b0.len() as int),
            forall|j: int| i <= j < buffer@.len() ==> buffer@[j] == b0[j],
    @*/
    {
        /*@ let ghost b1 = buffer@;
        let ghost p = b1.take(i as int);
        let ghost w = b1.subrange(i - 12, i as int);
        proof {
            lemma_dot_bound(z, w, 12);
            lemma_dot_0(z, w);
            lemma_dot_pad(ints16(c), z, w, 12);
            assert(w.skip(12 - o) =~= p.skip(p.len() - o));
        } @*/
        let prediction = coefficients.iter()
                                     .zip(&buffer[i - 12..i])
                                     .map(|(&c, &s)| c * s as i64)
                                     /*@ invariant 0 <= VX_K <= 12, VX_ACC == dot(z, w, VX_K as int), @*/
                                         /*@ proof { lemma_dot_bound(z, w, VX_K as int); lemma_dot_bound(z, w, VX_K + 1); lemma_dot_next(z, w, VX_K as int); lemma_mul_i16_i32(z[VX_K as int], w[VX_K as int]); } @*/
                                         .sum::<i64>() >> qlp_shift;
        /*@ proof {
            lemma_shr_dot(dot(z, w, 12) as i64, qlp_shift as u32);
            assert(prediction == lpc_pred(c, sh, p));
        } @*/
        let delta = buffer[i] as i64;
        /*@ proof { lemma_cast_i64((prediction + delta) as i64); } @*/
        buffer[i] = (prediction + delta) as i32;
        /*@ proof { lemma_lpc_push(c, sh, b0, i as int, buffer@[i as int]); assert(buffer@.take(i + 1) =~= p.push(buffer@[i as int])); } @*/
    }
    /*@ assert(buffer@.take(buffer@.len() as int) =~= buffer@); @*/
}

/// Apply LPC prediction for non-subset subframes, with LPC order > 12.
/*@ #[verifier::loop_isolation(false)] #[verifier::rlimit(40)] @*/
fn predict_lpc_high_order(
    coefficients: &[i16],
    qlp_shift: i16,
    buffer: &mut [i32],
)
/*@ requires 12 < coefficients@.len() <= 32, coefficients@.len() <= old(buffer)@.len(), 0 <= qlp_shift < 64,
    ensures final(buffer)@.len() == old(buffer)@.len(),
        final(buffer)@ == lpc_out(coefficients@, qlp_shift as nat, old(buffer)@, old(buffer)@.len() as int),
@*/
{
    /*@ let ghost b0 = buffer@;
    let ghost c = coefficients@;
    let ghost sh = qlp_shift as nat;
    let ghost o = c.len() as int;
    proof { lemma_ints16(c); } @*/
    // NOTE: See `predict_lpc_low_order` for more details. This function is a
    // copy that lifts the order restrictions (and specializations) at the cost
    // of performance. It is only used for subframes with a high LPC order,
    // which only occur in non-subset files. Such files are rare in the wild.

    let order = coefficients.len();

    debug_assert!(qlp_shift >= 0, "Right-shift by negative value is not allowed.");
    debug_assert!(qlp_shift < 64, "Cannot shift by more than integer width.");
    debug_assert!(order > 12, "Use the faster predict_lpc_low_order for LPC order <= 12.");
    debug_assert!(buffer.len() >= order, "Buffer must fit at least `order` warm-up samples.");

    // The linear prediction is essentially an inner product of the known
    // samples with the coefficients, followed by a shift. The first `order`
    // samples are stored as-is.
    for i in order..buffer.len()
    /*@ invariant
            buffer@.len() == b0.len(),
            buffer@.take(i as int) == lpc_out(c, sh, b0, i as int),
            forall|j: int| i <= j < buffer@.len() ==> buffer@[j] == b0[j],
    @*/
    {
        /*@ let ghost b1 = buffer@;
        let ghost p = b1.take(i as int);
        let ghost w = p.skip(p.len() - o);
        proof { lemma_dot_bound(ints16(c), w, o); } @*/
        let prediction = coefficients.iter()
                                     .zip(&buffer[i - order..i])
                                     .map(|(&c, &s)| c as i64 * s as i64)
                                     /*@ invariant 0 <= VX_K <= o, VX_ACC == dot(ints16(c), w, VX_K as int), @*/
                                         /*@ proof { lemma_dot_bound(ints16(c), w, VX_K as int); lemma_dot_bound(ints16(c), w, VX_K + 1); lemma_mul_i16_i32(c[VX_K as int] as int, w[VX_K as int]); } @*/
                                         .sum::<i64>() >> qlp_shift;
        /*@ proof {
            lemma_shr_dot(dot(ints16(c), w, o) as i64, qlp_shift as u32);
            assert(prediction == lpc_pred(c, sh, p));
        } @*/
        let delta = buffer[i] as i64;
        /*@ proof { lemma_cast_i64((prediction + delta) as i64); } @*/
        buffer[i] = (prediction + delta) as i32;
        /*@ proof { assert(buffer@.take(i + 1) =~= p.push(buffer@[i as int])); } @*/
    }
    /*@ assert(buffer@.take(buffer@.len() as int) =~= buffer@); @*/
}

#[test]
fn verify_predict_lpc() {
    // The following data is from an actual FLAC stream and has been verified
    // against the reference decoder. The data is from a 16-bit stream.
    let coefficients = [-75, 166,  121, -269, -75, -399, 1042];
    let mut buffer = [-796, -547, -285,  -32, 199,  443,  670, -2,
                       -23,   14,    6,    3,  -4,   12,   -2, 10];
    predict_lpc_low_order(&coefficients, 9, &mut buffer);
    assert_eq!(&buffer, &[-796, -547, -285,  -32,  199,  443,  670,  875,
                          1046, 1208, 1343, 1454, 1541, 1616, 1663, 1701]);

    // The following data causes an overflow when not handled with care.
    let coefficients = [119, -255, 555, -836, 879, -1199, 1757];
    let mut buffer = [-21363, -21951, -22649, -24364, -27297, -26870, -30017, 3157];
    predict_lpc_low_order(&coefficients, 10, &mut buffer);
    assert_eq!(&buffer, &[-21363, -21951, -22649, -24364, -27297, -26870, -30017, -29718]);

    // The following data from a real-world file has a high LPC order, is has
    // more than 12 coefficients. The excepted output has been verified against
    // the reference decoder.
    let coefficients = [
        709, -2589, 4600, -4612, 1350, 4220, -9743, 12671, -12129, 8586,
        -3775, -645, 3904, -5543, 4373, 182, -6873, 13265, -15417, 11550,
    ];
    let mut buffer = [
        213238, 210830, 234493, 209515, 235139, 201836, 208151, 186277, 157720, 148176,
        115037, 104836, 60794, 54523, 412, 17943, -6025, -3713, 8373, 11764, 30094,
    ];
    predict_lpc_high_order(&coefficients, 12, &mut buffer);
    assert_eq!(&buffer, &[
        213238, 210830, 234493, 209515, 235139, 201836, 208151, 186277, 157720, 148176,
        115037, 104836, 60794, 54523, 412, 17943, -6025, -3713, 8373, 11764, 33931,
    ]);
}

fn decode_lpc<R: ReadBytes>(input: &mut Bitstream<R>,
                            bps: u32,
                            order: u32,
                            buffer: &mut [i32])
                            -> Result<()>
/*@ requires old(input).inv(), 1 <= bps <= 32, 1 <= order <= 32, old(buffer)@.len() <= 65535,
    ensures final(input).inv(), final(buffer)@.len() == old(buffer)@.len(),
        sub_result(*old(input), *final(input), p_lpc(old(input).bits(), bps as nat, order as nat, old(buffer)@.len()), final(buffer)@, r),
@*/
{
    /*@ broadcast use group_adv, group_bits;
    proof { lemma_adv_refl::<R>(); lemma2_to64(); }
    let ghost s = input.bits();
    let ghost o = order as int;
    let ghost len = buffer@.len() as int;
    let ghost warm = run(sample_f(bps as nat), s, o);
    @*/
    // The order minus one fits in 5 bits, so the order is at most 32.
    debug_assert!(order <= 32);

    // On the frame decoding level it is ensured that the buffer is large
    // enough. If it can't even fit the warm-up samples, then there is a frame
    // smaller than its lpc order, which is invalid.
    if buffer.len() < order as usize {
        return fmt_err("invalid LPC subframe, lpc order is larger than block size")
    }

    // There are order * bits per sample unencoded warm-up sample bits.
    try!(decode_verbatim(input, bps, &mut buffer[..order as usize]));

    /*@ assert(buffer@.take(o) =~= warm->Ok_0);
    let ghost b1 = buffer@;
    let ghost s1 = input.bits();
    proof { lemma_val_take(s1, 4); lemma_val_take(s1.skip(4), 5); } @*/
    // Next are four bits quantised linear predictor coefficient precision - 1.
    let qlp_precision = try!(input.read_leq_u8(4)) as u32 + 1;

    // The bit pattern 1111 is invalid.
    if qlp_precision - 1 == 0b1111 {
        return fmt_err("invalid subframe, qlp precision value invalid");
    }

    // Next are five bits quantized linear predictor coefficient shift,
    // in signed two's complement. Read 5 bits and then extend the sign bit.
    let qlp_shift_unsig = try!(input.read_leq_u16(5));
    let qlp_shift = extend_sign_u16(qlp_shift_unsig, 5);

    // The spec does allow the qlp shift to be negative, but in practice this
    // does not happen. Fully supporting it would be a performance hit, as an
    // arithmetic shift by a negative amount is invalid, so this would incur a
    // branch. If a real-world file ever hits this case, then we should consider
    // making two LPC predictors, one for positive, and one for negative qlp.
    if qlp_shift < 0 {
        let msg = "a negative quantized linear predictor coefficient shift is \
                   not supported, please file a bug.";
        return Err(Error::Unsupported(msg))
    }

    /*@ let ghost shift = val(s1.skip(4).take(5));
    assert(qlp_shift == shift && shift < 16);
    let ghost s3 = input.bits();
    let ghost f = coef_f(qlp_precision as nat);
    let ghost cs = run(f, s3, o); @*/
    // Finally, the coefficients themselves. The order is at most 32, so all
    // coefficients can be kept on the stack. Store them in reverse, because
    // that how they are used in prediction.
    let mut coefficients = [0; 32];
    for coef in coefficients[..order as usize].iter_mut().rev()
    /*@ invariant
            0 <= VX_I <= o, VX_S@.len() == o, order == o, 1 <= qlp_precision <= 15, f == coef_f(qlp_precision as nat), cs == run(f, s3, o),
            s == old(input).bits(), buffer@.len() == old(buffer)@.len(),
            p_lpc(s, bps as nat, order as nat, len as nat) is Ok ==> cs is Ok,
            !(cs is Ok) ==> p_lpc(s, bps as nat, order as nat, len as nat) == pe::<Seq<i16>, Seq<i32>>(cs), len == old(buffer)@.len(),
            run(f, s3, o - VX_I) is Ok,
            run(f, s3, o - VX_I)->Ok_0.len() == o - VX_I,
            forall|j: int| 0 <= j < o - VX_I ==> VX_S@[o - 1 - j] == #[trigger] run(f, s3, o - VX_I)->Ok_0[j],
            input.inv(),
            bleft(*old(input), *input, run(f, s3, o - VX_I)->Ok_1),
    @*/
    {
        /*@ broadcast use group_adv;
        let ghost t = input.bits();
        let ghost k = o - VX_I - 1;
        let ghost v0 = VX_S@;
        proof {
            assert(f(k, t) == p_coef(t, qlp_precision as nat));
            if !(p_coef(t, qlp_precision as nat) is Ok) { lemma_run_err(f, s3, k, o); }
            assert(run(f, s3, k + 1) is Ok == (p_coef(t, qlp_precision as nat) is Ok));
            lemma_val_take(t, qlp_precision as nat);
        } @*/
        // We can safely read into a u16, qlp_precision is at most 15.
        let coef_unsig = try!(input.read_leq_u16(qlp_precision));
        *coef = extend_sign_u16(coef_unsig, qlp_precision);
    }

    /*@ let ghost c = coefficients@.take(o);
    assert(c =~= cs->Ok_0.reverse());
    let ghost s4 = input.bits();
    let ghost res = p_residual(s4, len, o); @*/
    // Next up is the residual. We decode it into the buffer directly, the
    // predictor contributions will be added in a second pass. The first
    // `order` samples have been decoded already, so continue after that.
    try!(decode_residual(input,
                         buffer.len() as u16,
                         &mut buffer[order as usize..]));

    /*@ assert(buffer@ =~= warm->Ok_0 + res->Ok_0); @*/
    // In "subset"-compliant files, the LPC order is at most 12. For LPC
    // prediction of such files we have a special fast path that takes advantage
    // of the low order. We can still decode non-subset file using a less
    // specialized implementation. Non-subset files are rare in the wild.
    if order <= 12 {
        predict_lpc_low_order(&coefficients[..order as usize], qlp_shift, buffer);
    } else {
        predict_lpc_high_order(&coefficients[..order as usize], qlp_shift, buffer);
    }

    Ok(())
}
