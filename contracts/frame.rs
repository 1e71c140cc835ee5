// Claxon -- A FLAC decoding library in Rust
// Copyright 2014 Ruud van Asseldonk
//
// Licensed under the Apache License, Version 2.0 (the "License");
// you may not use this file except in compliance with the License.
// A copy of the License has been included in the root of the repository.

//! The `frame` module deals with the frames that make up a FLAC stream.

use std::i32;

use crc::{Crc8Reader, Crc16Reader};
use error::{Error, Result, fmt_err};
use input::{Bitstream, ReadBytes};
use subframe;

#[derive(Clone, Copy)]
enum BlockingStrategy {
    Fixed,
    Variable,
}

#[derive(Clone, Copy)]
enum BlockTime {
    FrameNumber(u32),
    SampleNumber(u64),
}

#[derive(Clone, Copy, Debug)]
enum ChannelAssignment {
    /// The `n: u8` channels are coded as-is.
    Independent(u8),
    /// Channel 0 is the left channel, channel 1 is the side channel.
    LeftSideStereo,
    /// Channel 0 is the side channel, channel 1 is the right channel.
    RightSideStereo,
    /// Channel 0 is the mid channel, channel 1 is the side channel.
    MidSideStereo,
}

#[derive(Clone, Copy)]
struct FrameHeader {
    pub block_time: BlockTime,
    pub block_size: u16,
    pub sample_rate: Option<u32>,
    pub channel_assignment: ChannelAssignment,
    pub bits_per_sample: Option<u32>,
}

impl FrameHeader /*@
    pub open spec fn wf(&self) -> bool {
        &&& (match self.channel_assignment { ChannelAssignment::Independent(n) => 1 <= n <= 8, _ => true })
        &&& self.block_size >= 1
        &&& (match self.bits_per_sample { Some(b) => 1 <= b <= 31, None => true })
    }
    pub open spec fn view(&self) -> Hdr {
        Hdr {
            fixed: self.block_time is FrameNumber,
            num: match self.block_time { BlockTime::FrameNumber(n) => n as nat, BlockTime::SampleNumber(n) => n as nat },
            bs: self.block_size as nat,
            sr: match self.sample_rate { Some(x) => Some(x as nat), None => None },
            chan: match self.channel_assignment {
                ChannelAssignment::Independent(n) => (n - 1) as nat,
                ChannelAssignment::LeftSideStereo => 8,
                ChannelAssignment::RightSideStereo => 9,
                ChannelAssignment::MidSideStereo => 10,
            },
            bps: match self.bits_per_sample { Some(x) => Some(x as nat), None => None },
        }
    }
@*/ {
    pub fn channels(&self) -> u8
    /*@ requires self.wf(),
        ensures r == hdr_channels(self.view().chan), 1 <= r <= 8,
    @*/
    {
        match self.channel_assignment {
            ChannelAssignment::Independent(n) => n,
            ChannelAssignment::LeftSideStereo => 2,
            ChannelAssignment::RightSideStereo => 2,
            ChannelAssignment::MidSideStereo => 2,
        }
    }
}

/// Reads a variable-length integer encoded as what is called "UTF-8" coding
/// in the specification. (It is not real UTF-8.) This function can read
/// integers encoded in this way up to 36-bit integers.
fn read_var_length_int<R: ReadBytes>(input: &mut R) -> Result<u64>
/*@ requires (*old(input)).valid(),
    ensures (*final(input)).valid(),
        match r {
            Ok(v) => q_coded((*old(input)).rem()) is Ok && v == q_coded((*old(input)).rem())->Ok_0 && went(*old(input), *final(input), q_coded((*old(input)).rem())->Ok_1),
            Err(e) => stopped(*old(input), *final(input)) && qerr(*old(input), q_coded((*old(input)).rem()), e),
        },
@*/
{
    /*@ broadcast use group_adv;
    proof { lemma_adv_refl::<R>(); }
    let ghost s = input.rem(); @*/
    // The number of consecutive 1s followed by a 0 is the number of additional
    // bytes to read.
    let first = try!(input.read_u8());
    let mut read_additional = 0u8;
    let mut mask_data = 0b0111_1111u8;
    let mut mask_mark = 0b1000_0000u8;

    // Determine the number of leading 1s.
    /*@ assert(0x80u8 >> 0u8 == 0x80 && 0x7fu8 >> 0u8 == 0x7f) by(bit_vector); @*/
    while first & mask_mark != 0
    /*@ invariant read_additional <= 8, lead1(first) >= read_additional,
            read_additional < 8 ==> mask_mark == 0x80u8 >> read_additional && mask_data == 0x7fu8 >> read_additional,
            read_additional == 8 ==> mask_mark == 0,
        decreases 8 - read_additional,
    @*/
    {
        /*@ proof {
            if read_additional == 8 { assert(first & mask_mark == 0) by(bit_vector) requires mask_mark == 0; }
            lemma_lead1_step(first, mask_mark, read_additional);
            lemma_masks(read_additional);
        } @*/
        read_additional = read_additional + 1;
        mask_data = mask_data >> 1;
        mask_mark = mask_mark >> 1;
    }
    /*@ proof {
        if read_additional < 8 { lemma_lead1_step(first, mask_mark, read_additional); }
        assert(lead1(first) == read_additional);
    } @*/

    // A 36-bit integer takes seven bytes, so there are at most seven leading 1s.
    if read_additional > 7 {
        return fmt_err("invalid variable-length integer");
    }

    // A single leading 1 is a follow-up byte and thus invalid.
    if read_additional > 0 {
        if read_additional == 1 {
            return fmt_err("invalid variable-length integer");
        } else {
            // The number of 1s (if > 1) is the total number of bytes, not the
            // number of additional bytes.
            read_additional = read_additional - 1;
        }
    }

    /*@ let ghost m = read_additional as int;
    let ghost v0 = coded_first(s[0]);
    proof {
        lemma_coded_first(first, if m == 0 { 0 } else { (m + 1) as u8 }, mask_data);
        lemma_coded_start(v0 as u64, read_additional);
    }
    assert(q_coded(s) == coded(s, v0, m)); @*/
    // Each additional byte will yield 6 extra bits, so shift the most
    // significant bits into the correct position.
    let mut result = ((first & mask_data) as u64) << (6 * read_additional);
    for i in (0..read_additional as i16).rev()
    /*@ invariant
            VX_LO == 0, 0 <= VX_I <= m, m <= 6, s == (*old(input)).rem(), q_coded(s) == coded(s, v0, m),
            coded(s, v0, m - VX_I) is Ok, coded(s, v0, m - VX_I)->Ok_1 == m - VX_I + 1,
            result == coded(s, v0, m - VX_I)->Ok_0 * p64(VX_I as int), result < 0x10_0000_0000,
            (*input).valid(), went(*old(input), *input, m - VX_I + 1),
    @*/
    {
        /*@ broadcast use group_adv;
        let ghost k = m - i - 1;
        let ghost v = coded(s, v0, k)->Ok_0;
        proof {
            if !(coded(s, v0, k + 1) is Ok) { lemma_coded_mono(s, v0, k + 1, m); }
        } @*/
        let byte = try!(input.read_u8());

        /*@ assert(byte & 0b1100_0000 == 0b1000_0000 <==> byte / 64 == 2) by(bit_vector);
        assert(byte == s[k + 1]);
        proof { lemma_coded_join(result, byte, i as int, v); } @*/
        // The two most significant bits _must_ be 10.
        if byte & 0b1100_0000 != 0b1000_0000 {
            return fmt_err("invalid variable-length integer");
        }

        result = result | (((byte & 0b0011_1111) as u64) << (6 * i as usize));
    }

    Ok(result)
}

#[test]
fn verify_read_var_length_int() {
    use std::io;
    use error::Error;
    use input::BufferedReader;

    let mut reader = BufferedReader::new(
        io::Cursor::new(vec![0x24, 0xc2, 0xa2, 0xe2, 0x82, 0xac, 0xf0, 0x90, 0x8d,
                            0x88, 0xc2, 0x00, 0x80]));

    assert_eq!(read_var_length_int(&mut reader).unwrap(), 0x24);
    assert_eq!(read_var_length_int(&mut reader).unwrap(), 0xa2);
    assert_eq!(read_var_length_int(&mut reader).unwrap(), 0x20ac);
    assert_eq!(read_var_length_int(&mut reader).unwrap(), 0x010348);

    // Two-byte integer with invalid continuation byte should fail.
    assert_eq!(read_var_length_int(&mut reader).err().unwrap(),
               Error::FormatError("invalid variable-length integer"));

    // Continuation byte can never be the first byte.
    assert_eq!(read_var_length_int(&mut reader).err().unwrap(),
               Error::FormatError("invalid variable-length integer"));
}

/*@ #[verifier::rlimit(150)] @*/
fn read_frame_header_or_eof<R: ReadBytes>(input: &mut R) -> Result<Option<FrameHeader>>
/*@ requires (*old(input)).valid(),
    ensures (*final(input)).valid(),
        match r {
            Ok(None) => (*old(input)).rem().len() == 0 && went(*old(input), *final(input), 0),
            Ok(Some(h)) => q_header((*old(input)).rem()) is Ok && h.wf() && h.view() == q_header((*old(input)).rem())->Ok_0
                && went(*old(input), *final(input), q_header((*old(input)).rem())->Ok_1),
            Err(e) => stopped(*old(input), *final(input)) && qerr(*old(input), q_header((*old(input)).rem()), e),
        },
@*/
{
    /*@ hide(q_coded);
    proof { lemma_hdr_bits(); lemma_bs_shift(); }
    let ghost s = input.rem(); @*/
    // The frame header includes a CRC-8 at the end. It can be computed
    // automatically while reading, by wrapping the input reader in a reader
    // that computes the CRC.
    let mut crc_input = Crc8Reader::new(input);

    /*@ let ghost c0 = crc_input;
    proof { lemma_crc8_from::<R>(c0); lemma_from(c0); } @*/
    // First are 14 bits frame sync code, a reserved bit, and blocking stategy.
    // If instead of the two bytes we find the end of the stream, return
    // `Nothing`, indicating EOF.
    let sync_res_block = match try!(crc_input.read_be_u16_or_eof()) {
        None => return Ok(None),
        Some(x) => x,
    };

    /*@ assert(s.len() >= 2 && sync_res_block == be16(s) && sync_res_block % 256 == s[1]); @*/
    // The first 14 bits must be 11111111111110.
    let sync_code = sync_res_block & 0b1111_1111_1111_1100;
    if sync_code != 0b1111_1111_1111_1000 {
        return fmt_err("frame sync code missing");
    }

    // The next bit has a mandatory value of 0 at the moment of writing. The
    // spec says "0: mandatory value, 1: reserved for future use". As it is
    // unlikely that the FLAC format will every change, we treat features in
    // the spec that are not implemented as `Error::Unsupported`, and this is
    // a format error.
    if sync_res_block & 0b0000_0000_0000_0010 != 0 {
        return fmt_err("invalid frame header, encountered reserved value");
    }

    // The final bit determines the blocking strategy.
    let blocking_strategy = if sync_res_block & 0b0000_0000_0000_0001 == 0 {
        BlockingStrategy::Fixed
    } else {
        BlockingStrategy::Variable
    };

    // Next are 4 bits block size and 4 bits sample rate.
    let bs_sr = try!(crc_input.read_u8());
    /*@ assert(s.len() >= 3 && bs_sr == s[2]); @*/
    let mut block_size = 0u16;
    let mut read_8bit_bs = false;
    let mut read_16bit_bs = false;

    // There are some pre-defined bit patterns. Some mean 'get from end of
    // header instead'.
    match bs_sr >> 4 {
        // The value 0000 is reserved.
        0b0000 => return fmt_err("invalid frame header, encountered reserved value"),
        0b0001 => block_size = 192,
        n if 0b0010 <= n && n <= 0b0101 => block_size = 576 * (1 << (n - 2) as usize),
        0b0110 => read_8bit_bs = true,
        0b0111 => read_16bit_bs = true,
        n => block_size = 256 * (1 << (n - 8) as usize),
    }

    // For the sample rate there is a number of pre-defined bit patterns as
    // well. Again, some mean 'get from end of header instead'.
    let mut sample_rate = None;
    let mut read_8bit_sr = false;
    let mut read_16bit_sr = false;
    let mut read_16bit_sr_ten = false;

    match bs_sr & 0b0000_1111 {
        0b0000 => sample_rate = None, // 0000 means 'get from streaminfo block'.
        0b0001 => sample_rate = Some(88_200),
        0b0010 => sample_rate = Some(176_400),
        0b0011 => sample_rate = Some(192_000),
        0b0100 => sample_rate = Some(8_000),
        0b0101 => sample_rate = Some(16_000),
        0b0110 => sample_rate = Some(22_050),
        0b0111 => sample_rate = Some(24_000),
        0b1000 => sample_rate = Some(32_000),
        0b1001 => sample_rate = Some(44_100),
        0b1010 => sample_rate = Some(48_000),
        0b1011 => sample_rate = Some(96_000),
        0b1100 => read_8bit_sr = true, // Read Hz from end of header.
        0b1101 => read_16bit_sr = true, // Read Hz from end of header.
        0b1110 => read_16bit_sr_ten = true, // Read tens of Hz from end of header.
        // 1111 is invalid to prevent sync-fooling.
        // Other values are impossible at this point.
        _ => return fmt_err("invalid frame header"),
    }

    // Next are 4 bits channel assignment, 3 bits sample size, and 1 reserved bit.
    let chan_bps_res = try!(crc_input.read_u8());

    /*@ assert(s.len() >= 4 && chan_bps_res == s[3]); @*/
    // The most significant 4 bits determine channel assignment.
    let channel_assignment = match chan_bps_res >> 4 {
        // Values 0 through 7 indicate n + 1 channels without mixing.
        n if n < 8 => ChannelAssignment::Independent(n + 1),
        0b1000 => ChannelAssignment::LeftSideStereo,
        0b1001 => ChannelAssignment::RightSideStereo,
        0b1010 => ChannelAssignment::MidSideStereo,
        // Values 1011 through 1111 are reserved and thus invalid.
        _ => return fmt_err("invalid frame header, encountered reserved value"),
    };

    // The next three bits indicate bits per sample.
    let bits_per_sample = match (chan_bps_res & 0b0000_1110) >> 1 {
        0b000 => None, // 000 means 'get from streaminfo block'.
        0b001 => Some(8),
        0b010 => Some(12),
        0b100 => Some(16),
        0b101 => Some(20),
        0b110 => Some(24),
        // Values 011 and 111 are reserved. Other values are impossible.
        _ => return fmt_err("invalid frame header, encountered reserved value"),
    };

    // The final bit has a mandatory value of 0, it is a reserved bit.
    if chan_bps_res & 0b0000_0001 != 0 {
        return fmt_err("invalid frame header, encountered reserved value");
    }

    /*@ assert(hdr_fixed(s) == Q::Ok((), 4int));
    assert(adv_by(c0, crc_input, 4));
    let ghost c4 = crc_input; @*/
    let block_time = match blocking_strategy {
        BlockingStrategy::Variable => {
            // The sample number is encoded in 8-56 bits, at most a 36-bit int.
            let sample = try!(read_var_length_int(&mut crc_input));
            BlockTime::SampleNumber(sample)
        }
        BlockingStrategy::Fixed => {
            // The frame number is encoded in 8-48 bits, at most a 31-bit int.
            let frame = try!(read_var_length_int(&mut crc_input));
            // A frame number larger than 31 bits is therefore invalid.
            if frame > 0x7fffffff {
                return fmt_err("invalid frame header, frame number too large");
            }
            BlockTime::FrameNumber(frame as u32)
        }
    };

    /*@ assert(hdr_num(s) is Ok);
    let ghost k1 = hdr_num(s)->Ok_1;
    assert(adv_by(c0, crc_input, k1)); @*/
    if read_8bit_bs {
        // 8 bit block size - 1 is stored.
        let bs = try!(crc_input.read_u8());
        block_size = bs as u16 + 1;
    }
    if read_16bit_bs {
        // 16-bit block size - 1 is stored. Note that the max block size that
        // can be indicated in the streaminfo block is a 16-bit number, so a
        // value of 0xffff would be invalid because it exceeds the max block
        // size, though this is not mentioned explicitly in the specification.
        let bs = try!(crc_input.read_be_u16());
        if bs == 0xffff {
            return fmt_err("invalid block size, exceeds 65535");
        }
        block_size = bs + 1;
    }

    /*@ assert(hdr_bs(s) is Ok && hdr_bs(s)->Ok_0 == block_size);
    let ghost k2 = hdr_bs(s)->Ok_1;
    assert(adv_by(c0, crc_input, k2)); @*/
    if read_8bit_sr {
        let sr = try!(crc_input.read_u8());
        sample_rate = Some(sr as u32);
    }
    if read_16bit_sr {
        let sr = try!(crc_input.read_be_u16());
        sample_rate = Some(sr as u32);
    }
    if read_16bit_sr_ten {
        let sr_ten = try!(crc_input.read_be_u16());
        sample_rate = Some(sr_ten as u32 * 10);
    }

    /*@ assert(hdr_sr(s) is Ok);
    assert(hdr_sr(s)->Ok_0 == (match sample_rate { Some(x) => Some(x as nat), None => None }));
    let ghost k3 = hdr_sr(s)->Ok_1;
    assert(adv_by(c0, crc_input, k3)); @*/
    // Next is an 8-bit CRC that is computed over the entire header so far.
    let computed_crc = crc_input.crc();
    /*@ assert(computed_crc == crc8(s.take(k3))); @*/
    let presumed_crc = try!(crc_input.read_u8());

    // Do not verify checksum during fuzzing, otherwise malformed input from
    // fuzzer won't reach the actually interesting code.
    #[cfg(not(fuzzing))]
    {
        if computed_crc != presumed_crc {
            return fmt_err("frame header CRC mismatch");
        }
    }

    // Silence unused variable warnings.
    #[cfg(fuzzing)]
    let _ = computed_crc == presumed_crc;

    let frame_header = FrameHeader {
        block_time: block_time,
        block_size: block_size,
        sample_rate: sample_rate,
        channel_assignment: channel_assignment,
        bits_per_sample: bits_per_sample,
    };
    Ok(Some(frame_header))
}

/// Converts a buffer with left samples and a side channel in-place to left ++ right.
fn decode_left_side(buffer: &mut [i32])
/*@ requires old(buffer)@.len() % 2 == 0,
    ensures final(buffer)@.len() == old(buffer)@.len(),
        ({ let n = old(buffer)@.len() / 2;
           forall|j: int| 0 <= j < n ==> #[trigger] final(buffer)@[j] == stereo(8, 0, old(buffer)@[j], old(buffer)@[n + j]) }),
        ({ let n = old(buffer)@.len() / 2;
           forall|j: int| 0 <= j < n ==> final(buffer)@[n + j] == stereo(8, 1, #[trigger] old(buffer)@[j], old(buffer)@[n + j]) }),
@*/
{
    /*@ hide(w32);
    let ghost b0 = buffer@; @*/
    let block_size = buffer.len() / 2;
    let (mids, sides) = buffer.split_at_mut(block_size);
    for (fst, snd) in mids.iter_mut().zip(sides)
    /*@ invariant
            mids@.len() == block_size, sides@.len() == block_size, b0.len() == 2 * block_size, 0 <= VX_I <= block_size,
            forall|j: int| 0 <= j < VX_I ==> #[trigger] mids@[j] == stereo(8, 0, b0[j], b0[block_size + j]),
            forall|j: int| 0 <= j < VX_I ==> #[trigger] sides@[j] == stereo(8, 1, b0[j], b0[block_size + j]),
            forall|j: int| VX_I <= j < block_size ==> #[trigger] mids@[j] == b0[j],
            forall|j: int| VX_I <= j < block_size ==> #[trigger] sides@[j] == b0[block_size + j],
    @*/
    {
        let left = *fst;
        let side = *snd;

        // Left is correct already, only the right channel needs to be decoded.
        // side = left - right => right = left - side. A valid FLAC file will
        // never overflow here. If we do have an overflow then we decode
        // garbage, but at least Rust does not panic in debug mode due to
        // overflow.
        /*@ proof { lemma_wrap_sub(left, side); } @*/
        let right = left.wrapping_sub(side);
        *snd = right;
    }
}

#[test]
fn verify_decode_left_side() {
    let mut buffer = vec![2, 5, 83, 113, 127, -63, -45, -15, 7, 38, 142, 238, 0, -152, -52, -18];
    let result = vec![2, 5, 83, 113, 127, -63, -45, -15, -5, -33, -59, -125, 127, 89, 7, 3];
    decode_left_side(&mut buffer);
    assert_eq!(buffer, result);
}

/// Converts a buffer with right samples and a side channel in-place to left ++ right.
fn decode_right_side(buffer: &mut [i32])
/*@ requires old(buffer)@.len() % 2 == 0,
    ensures final(buffer)@.len() == old(buffer)@.len(),
        ({ let n = old(buffer)@.len() / 2;
           forall|j: int| 0 <= j < n ==> #[trigger] final(buffer)@[j] == stereo(9, 0, old(buffer)@[j], old(buffer)@[n + j]) }),
        ({ let n = old(buffer)@.len() / 2;
           forall|j: int| 0 <= j < n ==> final(buffer)@[n + j] == stereo(9, 1, #[trigger] old(buffer)@[j], old(buffer)@[n + j]) }),
@*/
{
    /*@ hide(w32);
    let ghost b0 = buffer@; @*/
    let block_size = buffer.len() / 2;
    let (mids, sides) = buffer.split_at_mut(block_size);
    for (fst, snd) in mids.iter_mut().zip(sides)
    /*@ invariant
            mids@.len() == block_size, sides@.len() == block_size, b0.len() == 2 * block_size, 0 <= VX_I <= block_size,
            forall|j: int| 0 <= j < VX_I ==> #[trigger] mids@[j] == stereo(9, 0, b0[j], b0[block_size + j]),
            forall|j: int| 0 <= j < VX_I ==> #[trigger] sides@[j] == stereo(9, 1, b0[j], b0[block_size + j]),
            forall|j: int| VX_I <= j < block_size ==> #[trigger] mids@[j] == b0[j],
            forall|j: int| VX_I <= j < block_size ==> #[trigger] sides@[j] == b0[block_size + j],
    @*/
    {
        let side = *fst;
        let right = *snd;

        // Right is correct already, only the left channel needs to be decoded.
        // side = left - right => left = side + right. A valid FLAC file will
        // never overflow here. If we do have an overflow then we decode
        // garbage, but at least Rust does not panic in debug mode due to
        // overflow.
        /*@ proof { lemma_wrap_add(side, right); } @*/
        let left = side.wrapping_add(right);
        *fst = left;
    }
}

#[test]
fn verify_decode_right_side() {
    let mut buffer = vec![7, 38, 142, 238, 0, -152, -52, -18, -5, -33, -59, -125, 127, 89, 7, 3];
    let result = vec![2, 5, 83, 113, 127, -63, -45, -15, -5, -33, -59, -125, 127, 89, 7, 3];
    decode_right_side(&mut buffer);
    assert_eq!(buffer, result);
}

/// Converts a buffer with mid samples and a side channel in-place to left ++ right.
fn decode_mid_side(buffer: &mut [i32])
/*@ requires old(buffer)@.len() % 2 == 0,
    ensures final(buffer)@.len() == old(buffer)@.len(),
        ({ let n = old(buffer)@.len() / 2;
           forall|j: int| 0 <= j < n ==> #[trigger] final(buffer)@[j] == stereo(10, 0, old(buffer)@[j], old(buffer)@[n + j]) }),
        ({ let n = old(buffer)@.len() / 2;
           forall|j: int| 0 <= j < n ==> final(buffer)@[n + j] == stereo(10, 1, #[trigger] old(buffer)@[j], old(buffer)@[n + j]) }),
@*/
{
    /*@ hide(w32);
    let ghost b0 = buffer@; @*/
    let block_size = buffer.len() / 2;
    let (mids, sides) = buffer.split_at_mut(block_size);
    for (fst, snd) in mids.iter_mut().zip(sides)
    /*@ invariant
            mids@.len() == block_size, sides@.len() == block_size, b0.len() == 2 * block_size, 0 <= VX_I <= block_size,
            forall|j: int| 0 <= j < VX_I ==> #[trigger] mids@[j] == stereo(10, 0, b0[j], b0[block_size + j]),
            forall|j: int| 0 <= j < VX_I ==> #[trigger] sides@[j] == stereo(10, 1, b0[j], b0[block_size + j]),
            forall|j: int| VX_I <= j < block_size ==> #[trigger] mids@[j] == b0[j],
            forall|j: int| VX_I <= j < block_size ==> #[trigger] sides@[j] == b0[block_size + j],
    @*/
    {
        let mid = *fst;
        let side = *snd;
        /*@ proof { lemma_mid_side(mid, side); } @*/

        // Double mid first, and then correct for truncated rounding that
        // will have occured if side is odd. Note that samples are never
        // expected to exceed 25 bits, so the wrapping multiplication does not
        // actually wrap for valid files.
        let mid = mid.wrapping_mul(2) | (side & 1);
        /*@ proof { lemma_wrap_add(mid, side); lemma_wrap_sub(mid, side); } @*/
        let left = mid.wrapping_add(side) / 2;
        let right = mid.wrapping_sub(side) / 2;

        *fst = left;
        *snd = right;
    }
}

#[test]
fn verify_decode_mid_side() {
    let mut buffer = vec!(-2, -14,  12,   -6, 127,   13, -19,  -6,
                           7,  38, 142,  238,   0, -152, -52, -18);
    let result =      vec!(2,   5,  83,  113, 127,  -63, -45, -15,
                          -5, -33, -59, -125, 127,   89,   7,   3);
    decode_mid_side(&mut buffer);
    assert_eq!(buffer, result);
}

/// A block of raw audio samples.
pub struct Block {
    /// The sample number of the first sample in the this block.
    first_sample_number: u64,
    /// The number of samples in the block.
    block_size: u32,
    /// The number of channels in the block.
    channels: u32,
    /// The decoded samples, the channels stored consecutively.
    buffer: Vec<i32>,
}

impl Block /*@
    /// What holds of every block.
    pub open spec fn wf(&self) -> bool {
        &&& self.buffer@.len() == self.block_size * self.channels
        &&& self.channels <= 8
        &&& self.block_size <= 65535
    }
    /// The block holds the contents of the frame f.
    pub open spec fn is_frame(&self, f: Frame) -> bool {
        &&& self.wf()
        &&& self.block_size == f.hdr.bs
        &&& self.channels == hdr_channels(f.hdr.chan)
        &&& self.first_sample_number == hdr_time(f.hdr)
        &&& block_buffer(self.buffer@, f.hdr.chan, f.chs, f.hdr.bs)
    }
@*/ {
    fn new(time: u64, bs: u32, buffer: Vec<i32>) -> Block
    /*@ requires 1 <= bs <= 65535, buffer@.len() <= 8 * bs, buffer@.len() % bs as nat == 0,
        ensures r.wf(), r.first_sample_number == time, r.block_size == bs, r.buffer@ == buffer@, r.channels * bs == buffer@.len(),
    @*/
    {
        /*@ proof {
            let n = buffer@.len() as int;
            let b = bs as int;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, b);
            assert(n == b * (n / b));
            assert(n / b <= 8) by(nonlinear_arith) requires n == b * (n / b), n <= 8 * b, b >= 1;
            assert(n / b >= 0) by(nonlinear_arith) requires n == b * (n / b), n >= 0, b >= 1;
            assert((n / b) * b == b * (n / b)) by(nonlinear_arith);
        } @*/
        Block {
            first_sample_number: time,
            block_size: bs,
            channels: buffer.len() as u32 / bs,
            buffer: buffer,
        }
    }

    /// Returns a block with 0 channels and 0 samples.
    pub fn empty() -> Block
    /*@ ensures r.wf(), r.block_size == 0, r.channels == 0, r.first_sample_number == 0, r.buffer@.len() == 0, @*/
    {
        Block {
            first_sample_number: 0,
            block_size: 0,
            channels: 0,
            buffer: Vec::with_capacity(0),
        }
    }

    /// Returns the inter-channel sample number of the first sample in the block.
    ///
    /// The time is independent of the number of channels. To get the start time
    /// of the block in seconds, divide this number by the sample rate in the
    /// streaminfo.
    pub fn time(&self) -> u64
    /*@ ensures r == self.first_sample_number, @*/
    {
        self.first_sample_number
    }

    /// Returns the total number of samples in this block.
    ///
    /// Samples in different channels are counted as distinct samples.
    #[inline(always)]
    pub fn len(&self) -> u32
    /*@ requires self.wf(),
        ensures r == self.block_size * self.channels, r == self.buffer@.len(),
    @*/
    {
        /*@ assert(self.block_size * self.channels <= 65535 * 8) by(nonlinear_arith) requires self.block_size <= 65535, self.channels <= 8; @*/
        // Note: this cannot overflow, because the block size fits in 16 bits,
        // and the number of channels is at most 8.
        self.block_size * self.channels
    }

    /// Returns the number of inter-channel samples in the block.
    ///
    /// The duration is independent of the number of channels. The returned
    /// value is also referred to as the *block size*. To get the duration of
    /// the block in seconds, divide this number by the sample rate in the
    /// streaminfo.
    #[inline(always)]
    pub fn duration(&self) -> u32
    /*@ ensures r == self.block_size, @*/
    {
        self.block_size
    }

    /// Returns the number of channels in the block.
    // TODO: Should a frame know this? #channels must be constant throughout the stream anyway ...
    // TODO: Rename to `num_channels` for clarity.
    #[inline(always)]
    pub fn channels(&self) -> u32
    /*@ ensures r == self.channels, @*/
    {
        self.channels
    }

    /// Returns the (zero-based) `ch`-th channel as a slice.
    ///
    /// # Panics
    ///
    /// Panics if `ch >= channels()`.
    #[inline(always)]
    pub fn channel(&self, ch: u32) -> &[i32]
    /*@ requires self.wf(), ch < self.channels,
        ensures r@.len() == self.block_size, forall|j: int| 0 <= j < self.block_size ==> #[trigger] r@[j] == self.buffer@[ch * self.block_size + j],
    @*/
    {
        /*@ assert(0 <= ch * self.block_size && (ch + 1) * self.block_size <= self.block_size * self.channels && self.block_size * self.channels <= 65535 * 8
            && (ch + 1) * self.block_size == ch * self.block_size + self.block_size) by(nonlinear_arith)
            requires ch < self.channels, self.block_size >= 0, self.block_size <= 65535, self.channels <= 8; @*/
        let bsz = self.block_size as usize;
        let ch_usz = ch as usize;
        &self.buffer[ch_usz * bsz..(ch_usz + 1) * bsz]
    }

    /// Returns a sample in this block.
    ///
    /// The value returned is for the zero-based `ch`-th channel of the
    /// inter-channel sample with index `sample` in this block (so this is not
    /// the global sample number).
    ///
    /// # Panics
    ///
    /// Panics if `ch >= channels()` or if `sample >= len()` for the last
    /// channel.
    #[inline(always)]
    pub fn sample(&self, ch: u32, sample: u32) -> i32
    /*@ requires self.wf(), ch < self.channels, sample < self.block_size,
        ensures r == self.buffer@[ch * self.block_size + sample],
    @*/
    {
        /*@ assert(0 <= ch * self.block_size && (ch + 1) * self.block_size <= self.block_size * self.channels && self.block_size * self.channels <= 65535 * 8
            && (ch + 1) * self.block_size == ch * self.block_size + self.block_size) by(nonlinear_arith)
            requires ch < self.channels, self.block_size >= 0, self.block_size <= 65535, self.channels <= 8; @*/
        let bsz = self.block_size as usize;
        return self.buffer[ch as usize * bsz + sample as usize];
    }

    /// Returns the underlying buffer that stores the samples in this block.
    ///
    /// This allows the buffer to be reused to decode the next frame. The
    /// capacity of the buffer may be bigger than `len()` times `channels()`.
    pub fn into_buffer(self) -> Vec<i32>
    /*@ ensures r@ == self.buffer@, @*/
    {
        return self.buffer;
    }

    /// Returns an iterator that produces left and right channel samples.
    ///
    /// This iterator can be more efficient than requesting a sample directly,
    /// because it avoids a bounds check.
    ///
    /// # Panics
    ///
    /// Panics if the number of channels in the block is not 2.
    #[inline]
    pub fn stereo_samples<'a>(&'a self) -> StereoSamples<'a>
    /*@ requires self.wf(),
        ensures self.channels == 2, r.wf(), r.buffer@ == self.buffer@, r.block_duration == self.block_size, r.current_sample == 0,
    @*/
    {
        if self.channels != 2 {
            /*@ documented @*/ panic!("stereo_samples() must only be called for blocks with two channels.");
        }

        assert!(self.buffer.len() >= self.block_size as usize * 2);

        StereoSamples {
            buffer: &self.buffer,
            block_duration: self.block_size,
            current_sample: 0,
        }
    }
}

#[test]
fn verify_block_sample() {
    let block = Block {
        first_sample_number: 0,
        block_size: 5,
        channels: 3,
        buffer: vec![2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47],
    };

    assert_eq!(block.sample(0, 2), 5);
    assert_eq!(block.sample(1, 3), 23);
    assert_eq!(block.sample(2, 4), 47);
}

/// An iterator over the stereo sample pairs in a block.
///
/// This iterator is produced by `Block::stereo_samples()`.
pub struct StereoSamples<'a> {
    buffer: &'a [i32],
    block_duration: u32,
    current_sample: u32,
}

impl<'a> Iterator for StereoSamples<'a> /*@ attr
impl<'a> StereoSamples<'a> {
    pub open spec fn wf(&self) -> bool {
        self.buffer@.len() >= 2 * self.block_duration && self.current_sample <= self.block_duration
    }
}
@*/ {
    type Item = (i32, i32);

    #[inline(always)]
    fn next(&mut self) -> Option<(i32, i32)>
    /*@ requires old(self).wf(),
        ensures final(self).wf(), final(self).buffer == old(self).buffer, final(self).block_duration == old(self).block_duration,
            match r {
                None => old(self).current_sample == old(self).block_duration && final(self).current_sample == old(self).current_sample,
                Some(x) => old(self).current_sample < old(self).block_duration && final(self).current_sample == old(self).current_sample + 1
                    && x.0 == old(self).buffer@[old(self).current_sample as int]
                    && x.1 == old(self).buffer@[old(self).block_duration + old(self).current_sample],
            },
    @*/
    {
        if self.current_sample == self.block_duration {
            None
        } else {
            let ch_offset = self.block_duration as usize;
            let idx = self.current_sample as usize;

            // Indexing without bounds check is safe here, because the current
            // sample is less than the block duration, and the buffer size is at
            // least twice the block duration. (There is an assertion for that
            // too when the iterator is constructed.)
            let samples = unsafe {
                let left = *self.buffer.get_unchecked(idx);
                let right = *self.buffer.get_unchecked(idx + ch_offset);
                (left, right)
            };

            self.current_sample += 1;

            Some(samples)
        }
    }
}

#[test]
fn verify_block_stereo_samples_iterator() {
    let block = Block {
        first_sample_number: 0,
        block_size: 3,
        channels: 2,
        buffer: vec![2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47],
    };

    let mut iter = block.stereo_samples();

    assert_eq!(iter.next(), Some((2, 7)));
    assert_eq!(iter.next(), Some((3, 11)));
    assert_eq!(iter.next(), Some((5, 13)));
    assert_eq!(iter.next(), None);
}

/// Reads frames from a stream and exposes decoded blocks as an iterator.
///
/// TODO: for now, it is assumes that the reader starts at a frame header;
/// no searching for a sync code is performed at the moment.
pub struct FrameReader<R: ReadBytes> {
    input: R,
}

/// Either a `Block` or an `Error`.
// TODO: The option should not be part of FrameResult.
pub type FrameResult = Result<Option<Block>>;

/// A function to expand the length of a buffer, or replace the buffer altogether,
/// so it can hold at least `new_len` elements. The contents of the buffer can
/// be anything, it is assumed they will be overwritten anyway.
///
/// To use this function safely, the caller must overwrite all `new_len` bytes.
fn ensure_buffer_len(mut buffer: Vec<i32>, new_len: usize) -> Vec<i32>
/*@ requires new_len <= 8 * 65535,
    ensures r@.len() == new_len,
@*/
{
    if buffer.len() < new_len {
        // Previous data will be overwritten, so instead of resizing the
        // vector if it is too small, we might as well allocate a new one.
        // NOTE: In the past we allocated a vector with Vec::with_capacity here,
        // setting it to the right length without zeroing (and also setting the
        // right length if the capacity was sufficient). However, the
        // performance impact of zeroing turned out to be negligible (a 0.2%
        // increase in decode times in an adversarial scenario, but a 0.03%
        // increase on real-world files when the buffer is recycled). We still
        // don't zero out previous contents of the buffer as it was passed in,
        // zeroing only happens on resize or for new allocations.
        if buffer.capacity() < new_len {
            buffer = vec![0; new_len];
        } else {
            buffer.resize(new_len, 0);
        }
    } else {
        buffer.truncate(new_len);
    }
    buffer
}

#[test]
fn ensure_buffer_len_returns_buffer_with_new_len() {
    for capacity in 0..10 {
        for new_len in 0..10 {
            let buffer = Vec::with_capacity(capacity);
            let resized = ensure_buffer_len(buffer, new_len);
            assert_eq!(resized.len(), new_len);
        }
    }
}

impl<R: ReadBytes> FrameReader<R> {
    /// Creates a new frame reader that will yield at least one element.
    pub fn new(input: R) -> FrameReader<R>
    /*@ ensures r.input == input, @*/
    {
        FrameReader {
            input: input,
        }
    }

    /// Decodes the next frame or returns an error if the data was invalid.
    ///
    /// The buffer is moved into the returned block, so that the same buffer may
    /// be reused to decode multiple blocks, avoiding a heap allocation every
    /// time. It can be retrieved again with `block.into_buffer()`. If the
    /// buffer is not large enough to hold all samples, a larger buffer is
    /// allocated automatically.
    ///
    /// TODO: I should really be consistent with 'read' and 'decode'.
    /*@ #[verifier::rlimit(150)] @*/
    pub fn read_next_or_eof(&mut self, mut buffer: Vec<i32>) -> FrameResult
    /*@ requires old(self).input.valid(),
        ensures final(self).input.valid(),
            match r {
                Ok(None) => old(self).input.rem().len() == 0 && went(old(self).input, final(self).input, 0),
                Ok(Some(b)) => q_frame(old(self).input.rem()) is Ok && b.is_frame(q_frame(old(self).input.rem())->Ok_0)
                    && q_frame(old(self).input.rem())->Ok_1 > 0
                    && went(old(self).input, final(self).input, q_frame(old(self).input.rem())->Ok_1),
                Err(e) => stopped(old(self).input, final(self).input) && qerr(old(self).input, q_frame(old(self).input.rem()), e),
            },
    @*/
    {
        /*@ hide(q_header); hide(p_subframe); hide(run); hide(stereo);
        let ghost s = self.input.rem(); @*/
        // The frame includes a CRC-16 at the end. It can be computed
        // automatically while reading, by wrapping the input reader in a reader
        // that computes the CRC. If the stream ended before the the frame
        // header (so not in the middle of the frame header), return `None`,
        // indicating EOF.
        let mut crc_input = Crc16Reader::new(&mut self.input);
        /*@ let ghost c0 = crc_input;
        proof { lemma_crc16_from::<R>(c0); lemma_from(c0); } @*/
        let header = match try!(read_frame_header_or_eof(&mut crc_input)) {
            None => return Ok(None),
            Some(h) => h,
        };

        /*@ let ghost h = header.view();
        let ghost k1 = q_header(s)->Ok_1;
        let ghost c1 = crc_input;
        let ghost nch = hdr_channels(h.chan) as int;
        proof {
            lemma_header_len(s);
            assert(c1.rem() == s.skip(k1));
            assert(nch * h.bs <= 8 * 65535 && nch * h.bs >= 0) by(nonlinear_arith) requires 1 <= nch <= 8, 1 <= h.bs <= 65535;
        } @*/
        // We must allocate enough space for all channels in the block to be
        // decoded.
        let total_samples = header.channels() as usize * header.block_size as usize;

        // Ensure the buffer is the right size to hold all samples. For
        // correctness, we must be careful to overwrite each byte in the buffer.
        buffer = ensure_buffer_len(buffer, total_samples);

        let bps = match header.bits_per_sample {
            Some(x) => x,
            // TODO: if the bps is missing from the header, we must get it from
            // the streaminfo block.
            None => return Err(Error::Unsupported("header without bits per sample info")),
        };

        // The number of bits per sample must not exceed 32, for we decode into
        // an i32. TODO: Turn this into an error instead of panic? Or is it
        // enforced elsewhere?
        debug_assert!(bps as usize <= 32);

        // In the next part of the stream, nothing is byte-aligned any more,
        // we need a bitstream. Then we can decode subframes from the bitstream.
        {
            let mut bitstream = Bitstream::new(&mut crc_input);
            let bs = header.block_size as usize;

            /*@ let ghost b0 = bitstream;
            let ghost f = channel_f(h.chan, bps as nat, h.bs);
            let ghost s1 = bitstream.bits();
            proof { lemma_bits_from(b0); lemma_run_0(f, s1); lemma_adv_deref::<Crc16Reader<&mut R>>(); } @*/
            match header.channel_assignment {
                ChannelAssignment::Independent(n_ch) => {
                    /*@ #[verifier::loop_isolation(false)] @*/
                    for ch in 0..n_ch as usize
                    /*@ invariant
                        bitstream.inv(), 1 <= n_ch <= 8, bs == h.bs, 1 <= bs <= 65535, h.chan == n_ch - 1, nch == n_ch, h == header.view(),
                        f == channel_f(h.chan, bps as nat, h.bs), s1 == b0.bits(), bps <= 31,
                        buffer@.len() == nch * bs,
                        run(f, s1, ch as int) is Ok,
                        bleft(b0, bitstream, run(f, s1, ch as int)->Ok_1),
                        chunks(buffer@, run(f, s1, ch as int)->Ok_0, bs as nat, ch as int),
                    @*/
                    {
                        /*@ let ghost bb = buffer@;
                        let ghost bi = bitstream;
                        proof {
                            lemma_chunk(ch as int, nch, bs as int);
                            lemma_run_next(f, s1, ch as int);
                            if !(f(ch as int, bi.bits()) is Ok) { lemma_run_err(f, s1, ch as int, nch); }
                        } @*/
                        try!(subframe::decode(&mut bitstream,
                                              bps,
                                              &mut buffer[ch * bs..(ch + 1) * bs]));
                        /*@ proof {
                            assert(buffer@.take(ch * bs) =~= bb.take(ch * bs));
                            assert(p_subframe(bi.bits(), bps as nat, bs as nat) == f(ch as int, bi.bits()));
                            assert(bleft(b0, bitstream, run(f, s1, ch + 1)->Ok_1));
                            lemma_chunks_push(bb, buffer@, run(f, s1, ch as int)->Ok_0, p_subframe(bi.bits(), bps as nat, bs as nat)->Ok_0, bs as nat, ch as int);
                        } @*/
                    }
                    /*@ proof { lemma_chunks_block(buffer@, h.chan, run(f, s1, nch)->Ok_0, h.bs); } @*/
                }
                ChannelAssignment::LeftSideStereo => {
                    // The side channel has one extra bit per sample.
                    /*@ let ghost bi0 = bitstream;
                    proof {
                        lemma_run_next(f, s1, 0);
                        if !(f(0, s1) is Ok) { lemma_run_err(f, s1, 0, 2); }
                        assert(p_subframe(s1, bps as nat, h.bs) == f(0, s1));
                    } @*/
                    try!(subframe::decode(&mut bitstream, bps, &mut buffer[..bs]));
                    /*@ let ghost bi1 = bitstream;
                    let ghost bf1 = buffer@;
                    let ghost v0 = run(f, s1, 1)->Ok_0;
                    proof {
                        assert(bleft(b0, bitstream, run(f, s1, 1)->Ok_1));
                        assert(v0 =~= seq![buffer@.take(bs as int)]);
                        lemma_run_next(f, s1, 1);
                        if !(f(1, bi1.bits()) is Ok) { lemma_run_err(f, s1, 1, 2); }
                        assert(p_subframe(bi1.bits(), (bps + 1) as nat, h.bs) == f(1, bi1.bits()));
                    } @*/
                    try!(subframe::decode(&mut bitstream,
                                          bps + 1,
                                          &mut buffer[bs..bs * 2]));

                    /*@ let ghost v = run(f, s1, 2)->Ok_0;
                    let ghost bf2 = buffer@;
                    proof {
                        assert(bleft(b0, bitstream, run(f, s1, 2)->Ok_1));
                        assert(bf2.take(bs as int) =~= bf1.take(bs as int));
                        assert(v =~= seq![bf2.take(bs as int), bf2.subrange(bs as int, 2 * bs as int)]);
                    } @*/
                    // Then decode the side channel into the right channel.
                    decode_left_side(&mut buffer[..bs * 2]);
                    /*@ proof { lemma_stereo_block(bf2, buffer@, h.chan, v, h.bs); } @*/
                }
                ChannelAssignment::RightSideStereo => {
                    // The side channel has one extra bit per sample.
                    /*@ let ghost bi0 = bitstream;
                    proof {
                        lemma_run_next(f, s1, 0);
                        if !(f(0, s1) is Ok) { lemma_run_err(f, s1, 0, 2); }
                        assert(p_subframe(s1, (bps + 1) as nat, h.bs) == f(0, s1));
                    } @*/
                    try!(subframe::decode(&mut bitstream, bps + 1, &mut buffer[..bs]));
                    /*@ let ghost bi1 = bitstream;
                    let ghost bf1 = buffer@;
                    let ghost v0 = run(f, s1, 1)->Ok_0;
                    proof {
                        assert(bleft(b0, bitstream, run(f, s1, 1)->Ok_1));
                        assert(v0 =~= seq![buffer@.take(bs as int)]);
                        lemma_run_next(f, s1, 1);
                        if !(f(1, bi1.bits()) is Ok) { lemma_run_err(f, s1, 1, 2); }
                        assert(p_subframe(bi1.bits(), bps as nat, h.bs) == f(1, bi1.bits()));
                    } @*/
                    try!(subframe::decode(&mut bitstream, bps, &mut buffer[bs..bs * 2]));

                    /*@ let ghost v = run(f, s1, 2)->Ok_0;
                    let ghost bf2 = buffer@;
                    proof {
                        assert(bleft(b0, bitstream, run(f, s1, 2)->Ok_1));
                        assert(bf2.take(bs as int) =~= bf1.take(bs as int));
                        assert(v =~= seq![bf2.take(bs as int), bf2.subrange(bs as int, 2 * bs as int)]);
                    } @*/
                    // Then decode the side channel into the left channel.
                    decode_right_side(&mut buffer[..bs * 2]);
                    /*@ proof { lemma_stereo_block(bf2, buffer@, h.chan, v, h.bs); } @*/
                }
                ChannelAssignment::MidSideStereo => {
                    // Decode mid as the first channel, then side with one
                    // extra bitp per sample.
                    /*@ let ghost bi0 = bitstream;
                    proof {
                        lemma_run_next(f, s1, 0);
                        if !(f(0, s1) is Ok) { lemma_run_err(f, s1, 0, 2); }
                        assert(p_subframe(s1, bps as nat, h.bs) == f(0, s1));
                    } @*/
                    try!(subframe::decode(&mut bitstream, bps, &mut buffer[..bs]));
                    /*@ let ghost bi1 = bitstream;
                    let ghost bf1 = buffer@;
                    let ghost v0 = run(f, s1, 1)->Ok_0;
                    proof {
                        assert(bleft(b0, bitstream, run(f, s1, 1)->Ok_1));
                        assert(v0 =~= seq![buffer@.take(bs as int)]);
                        lemma_run_next(f, s1, 1);
                        if !(f(1, bi1.bits()) is Ok) { lemma_run_err(f, s1, 1, 2); }
                        assert(p_subframe(bi1.bits(), (bps + 1) as nat, h.bs) == f(1, bi1.bits()));
                    } @*/
                    try!(subframe::decode(&mut bitstream,
                                          bps + 1,
                                          &mut buffer[bs..bs * 2]));

                    /*@ let ghost v = run(f, s1, 2)->Ok_0;
                    let ghost bf2 = buffer@;
                    proof {
                        assert(bleft(b0, bitstream, run(f, s1, 2)->Ok_1));
                        assert(bf2.take(bs as int) =~= bf1.take(bs as int));
                        assert(v =~= seq![bf2.take(bs as int), bf2.subrange(bs as int, 2 * bs as int)]);
                    } @*/
                    // Then decode mid-side channel into left-right.
                    decode_mid_side(&mut buffer[..bs * 2]);
                    /*@ proof { lemma_stereo_block(bf2, buffer@, h.chan, v, h.bs); } @*/
                }
            }

            /*@ let ghost rr = run(f, s1, nch);
            assert(rr is Ok);
            assert(bleft(b0, bitstream, rr->Ok_1));
            assert(block_buffer(buffer@, h.chan, rr->Ok_0, h.bs));
            assert(same(c1, *bitstream.reader) && adv(c1, *bitstream.reader) && (*bitstream.reader).valid());
            proof { lemma_bit_view_len(bitstream.data, bitstream.bits_left, bitstream.reader.rem()); }
            assert((*bitstream.reader).rem().len() == rr->Ok_1.len() / 8); @*/
            // When the bitstream goes out of scope, we can use the `input`
            // reader again, which will be byte-aligned. The specification
            // dictates that padding should consist of zero bits, but we do not
            // enforce this here.
            // TODO: It could be enforced by having a read_to_byte_aligned
            // method on the bit reader; it'd be a simple comparison.
        }

        /*@ let ghost c2 = crc_input;
        let ghost chs = run(channel_f(h.chan, bps as nat, h.bs), bytes_bits(s.skip(k1)), nch)->Ok_0;
        let ghost e = s.len() - c2.rem().len();
        proof { lemma_adv_is_by(c0, c2); } @*/
        // The frame footer is a 16-bit CRC.
        let computed_crc = crc_input.crc();
        let presumed_crc = try!(crc_input.read_be_u16());

        // Do not verify checksum during fuzzing, otherwise malformed input from
        // the fuzzer won't reach the actually interesting code.
        #[cfg(not(fuzzing))]
        {
            if computed_crc != presumed_crc {
                return fmt_err("frame CRC mismatch");
            }
        }

        // Silence unused variable warnings.
        #[cfg(fuzzing)]
        let _ = computed_crc == presumed_crc;

        /*@ proof {
            if let BlockTime::FrameNumber(fnr) = header.block_time { lemma_time(header.block_size as int, fnr as int); }
        } @*/
        // TODO: constant block size should be verified if a frame number is
        // encountered.
        let time = match header.block_time {
            BlockTime::FrameNumber(fnr) => header.block_size as u64 * fnr as u64,
            BlockTime::SampleNumber(snr) => snr,
        };

        /*@ proof {
            assert(q_frame(s) == Q::Ok(Frame { hdr: h, chs: chs }, e + 2));
            assert(buffer@.len() == nch * h.bs);
            lemma_block_len(nch, h.bs as int);
        } @*/
        let block = Block::new(time, header.block_size as u32, buffer);

        /*@ assert(block.first_sample_number == hdr_time(h));
        proof { lemma_block_channels(block.channels as int, nch, h.bs as int); } @*/
        Ok(Some(block))
    }

    /// Destroy the frame reader, returning the wrapped reader.
    pub fn into_inner(self) -> R
    /*@ ensures r == self.input, @*/
    {
        self.input
    }
}

// TODO: implement Iterator<Item = FrameResult> for FrameReader, with an
// accurate size hint.
