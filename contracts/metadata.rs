// Claxon -- A FLAC decoding library in Rust
// Copyright 2014 Ruud van Asseldonk
//
// Licensed under the Apache License, Version 2.0 (the "License");
// you may not use this file except in compliance with the License.
// A copy of the License has been included in the root of the repository.

//! The `metadata` module deals with metadata at the beginning of a FLAC stream.

use error::{Error, Result, fmt_err};
use input::ReadBytes;
use std::str;
use std::slice;

#[derive(Clone, Copy)]
/*@ impl MetadataBlockHeader { pub open spec fn view(&self) -> MHdr { MHdr { last: self.is_last, ty: self.block_type as int, len: self.length as int } } } @*/
struct MetadataBlockHeader {
    is_last: bool,
    block_type: u8,
    length: u32,
}

/// The streaminfo metadata block, with important information about the stream.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct StreamInfo {
    // TODO: "size" would better be called "duration" for clarity.
    /// The minimum block size (in inter-channel samples) used in the stream.
    ///
    /// This number is independent of the number of channels. To get the minimum
    /// block duration in seconds, divide this by the sample rate.
    pub min_block_size: u16,
    /// The maximum block size (in inter-channel samples) used in the stream.
    ///
    /// This number is independent of the number of channels. To get the
    /// maximum block duration in seconds, divide by the sample rate. To avoid
    /// allocations during decoding, a buffer of this size times the number of
    /// channels can be allocated up front and passed into
    /// `FrameReader::read_next_or_eof()`.
    pub max_block_size: u16,
    /// The minimum frame size (in bytes) used in the stream.
    pub min_frame_size: Option<u32>,
    /// The maximum frame size (in bytes) used in the stream.
    pub max_frame_size: Option<u32>,
    /// The sample rate in Hz.
    pub sample_rate: u32,
    /// The number of channels.
    pub channels: u32,
    /// The number of bits per sample.
    pub bits_per_sample: u32,
    /// The total number of inter-channel samples in the stream.
    // TODO: rename to `duration` for clarity?
    pub samples: Option<u64>,
    /// MD5 signature of the unencoded audio data.
    pub md5sum: [u8; 16],
}

/// A seek point in the seek table.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct SeekPoint {
    /// Sample number of the first sample in the target frame, or 2<sup>64</sup> - 1 for a placeholder.
    pub sample: u64,
    /// Offset in bytes from the first byte of the first frame header to the first byte of the
    /// target frame's header.
    pub offset: u64,
    /// Number of samples in the target frame.
    pub samples: u16,
}

/// A seek table to aid seeking in the stream.
pub struct SeekTable {
    /// The seek points, sorted in ascending order by sample number.
    #[allow(dead_code)] // TODO: Implement seeking.
    seekpoints: Vec<SeekPoint>,
}

/// Vorbis comments, also known as FLAC tags (e.g. artist, title, etc.).
pub struct VorbisComment {
    /// The “vendor string”, chosen by the encoder vendor.
    ///
    /// This string usually contains the name and version of the program that
    /// encoded the FLAC stream, such as `reference libFLAC 1.3.2 20170101`
    /// or `Lavf57.25.100`.
    pub vendor: String,

    /// Name-value pairs of Vorbis comments, such as `ARTIST=Queen`.
    ///
    /// This struct stores a raw low-level representation of tags. Use
    /// `FlacReader::tags()` for a friendlier iterator. The tuple consists of
    /// the string in `"NAME=value"` format, and the index of the `'='` into
    /// that string.
    ///
    /// The name is supposed to be interpreted case-insensitively, and is
    /// guaranteed to consist of ASCII characters. Claxon does not normalize
    /// the casing of the name. Use `metadata::GetTag` to do a case-insensitive
    /// lookup.
    ///
    /// Names need not be unique. For instance, multiple `ARTIST` comments might
    /// be present on a collaboration track.
    ///
    /// See <https://www.xiph.org/vorbis/doc/v-comment.html> for more details.
    pub comments: Vec<(String, usize)>,
}

/// A metadata about the flac stream.
pub enum MetadataBlock {
    /// A stream info block.
    StreamInfo(StreamInfo),
    /// A padding block (with no meaningful data).
    Padding {
        /// The number of padding bytes.
        length: u32,
    },
    /// An application block with application-specific data.
    Application {
        /// The registered application ID.
        id: u32,
        /// The contents of the application block.
        data: Vec<u8>,
    },
    /// A seek table block.
    SeekTable(SeekTable),
    /// A Vorbis comment block, also known as FLAC tags.
    VorbisComment(VorbisComment),
    /// A CUE sheet block.
    CueSheet, // TODO
    /// A picture block.
    Picture, // TODO
    /// A block with a reserved block type, not supported by this library.
    Reserved,
}

/// Iterates over Vorbis comments (FLAC tags) in a FLAC stream.
///
/// See `FlacReader::tags()` for more details.
pub struct Tags<'a> {
    /// The underlying iterator.
    iter: slice::Iter<'a, (String, usize)>,
}

impl<'a> Tags<'a> {
    /// Returns a new `Tags` iterator.
    #[inline]
    pub fn new(comments: &'a [(String, usize)]) -> Tags<'a>
    /*@ ensures left(r.iter).len() == comments@.len(),
            forall|i: int| 0 <= i < comments@.len() ==> *(#[trigger] left(r.iter)[i]) == comments@[i],
            tags_left(r) == tags_of(comments@), comments_wf(comments@) ==> left_wf(r),
    @*/
    {
        Tags {
            iter: comments.iter(),
        }
    }
}

impl<'a> Iterator for Tags<'a> {
    type Item = (&'a str, &'a str);

    #[inline]
    fn next(&mut self) -> Option<(&'a str, &'a str)>
    /*@ requires left_wf(*old(self)),
        ensures left_wf(*final(self)),
            match r {
                Some(t) => tags_left(*old(self)).len() > 0 && sb(t.0@) == tags_left(*old(self))[0].0 && sb(t.1@) == tags_left(*old(self))[0].1
                    && tags_left(*final(self)) == tags_left(*old(self)).skip(1),
                None => tags_left(*old(self)).len() == 0 && tags_left(*final(self)).len() == 0,
            },
    @*/
    {
        return self.iter.next()/*@ proof {
            let l = left(old(self).iter);
            assert(*l[0] == *VX_M);
            lemma_entry(*VX_M);
            assert(left(self.iter) =~= l.skip(1));
            assert(tags_left(*self) =~= tags_left(*old(self)).skip(1));
            assert(tags_left(*old(self))[0] == (sb((*VX_M).0@).take((*VX_M).1 as int), sb((*VX_M).0@).skip((*VX_M).1 + 1)));
            assert forall|i: int| 0 <= i < left(self.iter).len() implies entry_wf(*#[trigger] left(self.iter)[i]) by { assert(entry_wf(*l[i + 1])); }
        } @*/.map(|&(ref comment, sep_idx)| {
            (&comment[..sep_idx], &comment[sep_idx+1..])
        })
    }
    
    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>)
    /*@ ensures r.0 == tags_left(*self).len(), r.1 == Some(r.0) @*/
    {
        self.iter.size_hint()
    }
}

impl<'a> ExactSizeIterator for Tags<'a> {}

/// Iterates over Vorbis comments looking for a specific one; returns its values as `&str`.
///
/// See `FlacReader::get_tag()` for more details.
pub struct GetTag<'a> {
    /// The Vorbis comments to search through.
    vorbis_comments: &'a [(String, usize)],
    /// The tag to look for.
    needle: &'a str,
    /// The index of the (name, value) pair that should be inspected next.
    index: usize,
}

impl<'a> GetTag<'a> {
    /// Returns a new `GetTag` iterator.
    #[inline]
    pub fn new(vorbis_comments: &'a [(String, usize)], needle: &'a str) -> GetTag<'a>
    /*@ ensures r.vorbis_comments@ == vorbis_comments@, r.needle@ == needle@, r.index == 0, @*/
    {
        GetTag {
            vorbis_comments: vorbis_comments,
            needle: needle,
            index: 0,
        }
    }
}

impl<'a> Iterator for GetTag<'a> {
    type Item = &'a str;

    #[inline]
    fn next(&mut self) -> Option<&'a str>
    /*@ requires comments_wf(old(self).vorbis_comments@), old(self).index <= old(self).vorbis_comments@.len(),
        ensures final(self).vorbis_comments@ == old(self).vorbis_comments@, final(self).needle@ == old(self).needle@,
            final(self).index <= final(self).vorbis_comments@.len(),
            ({
                let o = found(old(self).vorbis_comments@, sb(old(self).needle@), old(self).index as int);
                let n = found(final(self).vorbis_comments@, sb(final(self).needle@), final(self).index as int);
                match r {
                    Some(v) => o.len() > 0 && sb(v@) == o[0] && n == o.skip(1),
                    None => o.len() == 0 && n.len() == 0,
                }
            }),
    @*/
    {
        // This import is actually required on Rust 1.13.
        #[allow(unused_imports)]
        use std::ascii::AsciiExt;

        while self.index < self.vorbis_comments.len()
        /*@ invariant
            comments_wf(self.vorbis_comments@), self.vorbis_comments@ == old(self).vorbis_comments@, self.needle@ == old(self).needle@,
            self.index <= self.vorbis_comments@.len(),
            found(self.vorbis_comments@, sb(self.needle@), self.index as int) == found(old(self).vorbis_comments@, sb(old(self).needle@), old(self).index as int),
          decreases self.vorbis_comments@.len() - self.index,
        @*/
        {
            let (ref comment, sep_idx) = self.vorbis_comments[self.index];
            self.index += 1;

            /*@ proof {
                let c = self.vorbis_comments@[self.index - 1];
                assert(entry_wf(c));
                lemma_entry(c);
                let f = found(self.vorbis_comments@, sb(self.needle@), self.index as int);
                assert((seq![sb(c.0@).skip(c.1 + 1)] + f).skip(1) =~= f);
            } @*/
            if comment[..sep_idx].eq_ignore_ascii_case(self.needle) {
                return Some(&comment[sep_idx + 1..])
            }
        }

        return None
    }
}

#[inline]
fn read_metadata_block_header<R: ReadBytes>(input: &mut R) -> Result<MetadataBlockHeader>
/*@ requires (*old(input)).valid(),
    ensures (*final(input)).valid(),
        match r {
            Ok(h) => q_mheader((*old(input)).rem()) is Ok && h.view() == q_mheader((*old(input)).rem())->Ok_0 && went(*old(input), *final(input), 4),
            Err(e) => stopped(*old(input), *final(input)) && qerr(*old(input), q_mheader((*old(input)).rem()), e),
        },
@*/
{
    /*@ let ghost c = *input;
    proof { lemma_from(c); lemma_mheader_bits(); } @*/
    let byte = try!(input.read_u8());

    // The first bit specifies whether this is the last block, the next 7 bits
    // specify the type of the metadata block to follow.
    let is_last = (byte >> 7) == 1;
    let block_type = byte & 0b0111_1111;

    // The length field is 24 bits, or 3 bytes.
    let length = try!(input.read_be_u24());

    let header = MetadataBlockHeader {
        is_last: is_last,
        block_type: block_type,
        length: length,
    };
    Ok(header)
}

/// Read a single metadata block header and body from the input.
///
/// When reading a regular flac stream, there is no need to use this function
/// directly; constructing a `FlacReader` will read the header and its metadata
/// blocks.
///
/// When a flac stream is embedded in a container format, this function can be
/// used to decode a single metadata block. For instance, the Ogg format embeds
/// metadata blocks including their header verbatim in packets. This function
/// can be used to decode that raw data.
#[inline]
pub fn read_metadata_block_with_header<R: ReadBytes>(input: &mut R)
                                                     -> Result<MetadataBlock>
/*@ requires (*old(input)).valid(), (*old(input)).bulk(),
    ensures (*final(input)).valid(),
        match r {
            Ok(b) => q_whole((*old(input)).rem()) is Ok && is_block(b, q_whole((*old(input)).rem())->Ok_0.1) && went(*old(input), *final(input), q_whole((*old(input)).rem())->Ok_1),
            Err(e) => stopped(*old(input), *final(input)) && qerr(*old(input), q_whole((*old(input)).rem()), e),
        }, @*/
{
  /*@ let ghost c = *input;
  proof { lemma_from(c); } @*/
  let header = try!(read_metadata_block_header(input));
  read_metadata_block(input, header.block_type, header.length)
}

/// Read a single metadata block of the given type and length from the input.
///
/// When reading a regular flac stream, there is no need to use this function
/// directly; constructing a `FlacReader` will read the header and its metadata
/// blocks.
///
/// When a flac stream is embedded in a container format, this function can be
/// used to decode a single metadata block. For instance, the MP4 format sports
/// a “FLAC Specific Box” which contains the block type and the raw data. This
/// function can be used to decode that raw data.
#[inline]
pub fn read_metadata_block<R: ReadBytes>(input: &mut R,
                                         block_type: u8,
                                         length: u32)
                                         -> Result<MetadataBlock>
/*@ requires (*old(input)).valid(), (*old(input)).bulk(),
    ensures (*final(input)).valid(),
        match r {
            Ok(b) => q_block((*old(input)).rem(), block_type as int, length as int) is Ok && is_block(b, q_block((*old(input)).rem(), block_type as int, length as int)->Ok_0) && went(*old(input), *final(input), q_block((*old(input)).rem(), block_type as int, length as int)->Ok_1),
            Err(e) => stopped(*old(input), *final(input)) && qerr(*old(input), q_block((*old(input)).rem(), block_type as int, length as int), e),
        }, @*/
{
    /*@ let ghost c = *input;
    let ghost vx_budget = if block_type == 2 { length + 16384int } else if block_type == 4 { 9 * length + 16384 } else { 16384int };
    let ghost mut vx_spent = 0int;
    proof { lemma_from(c); axiom_sizes(); } @*/
    match block_type {
        0 => {
            // The streaminfo block has a fixed size of 34 bytes.
            if length == 34 {
                let streaminfo = try!(read_streaminfo_block(input));
                /*@ proof { lemma_info_take(streaminfo, c.rem()); } @*/
                Ok(MetadataBlock::StreamInfo(streaminfo))
            } else {
                fmt_err("invalid streaminfo metadata block length")
            }
        }
        1 => {
            try!(read_padding_block(input, length));
            Ok(MetadataBlock::Padding { length: length })
        }
        2 => {
            let (id, data) = try!(read_application_block(input, length));
            Ok(MetadataBlock::Application {
                id: id,
                data: data,
            })
        }
        3 => {
            // TODO: implement seektable reading. For now, pretend it is padding.
            try!(input.skip(length));
            Ok(MetadataBlock::Padding { length: length })
        }
        4 => {
            let vorbis_comment = try!(read_vorbis_comment_block(input, length));
            Ok(MetadataBlock::VorbisComment(vorbis_comment))
        }
        5 => {
            // TODO: implement CUE sheet reading. For now, pretend it is padding.
            try!(input.skip(length));
            Ok(MetadataBlock::Padding { length: length })
        }
        6 => {
            // TODO: implement picture reading. For now, pretend it is padding.
            try!(input.skip(length));
            Ok(MetadataBlock::Padding { length: length })
        }
        127 => {
            // This code is invalid to avoid confusion with a frame sync code.
            fmt_err("invalid metadata block type")
        }
        _ => {
            // Any other block type is 'reserved' at the moment of writing. The
            // reference implementation reads it as an 'unknown' block. That is
            // one way of handling it, but maybe there should be some kind of
            // 'strict' mode (configurable at compile time?) so that this can
            // be an error if desired.
            try!(input.skip(length));
            Ok(MetadataBlock::Reserved)
        }
    }
}

fn read_streaminfo_block<R: ReadBytes>(input: &mut R) -> Result<StreamInfo>
/*@ requires (*old(input)).valid(), (*old(input)).bulk(),
    ensures (*final(input)).valid(),
        match r {
            Ok(i) => q_streaminfo((*old(input)).rem()) is Ok && is_streaminfo(i, (*old(input)).rem()) && went(*old(input), *final(input), q_streaminfo((*old(input)).rem())->Ok_1),
            Err(e) => stopped(*old(input), *final(input)) && qerr(*old(input), q_streaminfo((*old(input)).rem()), e),
        }, @*/
{
    /*@ let ghost c = *input;
    let ghost vx_budget = 16384int;
    let ghost mut vx_spent = 0int;
    let ghost s = c.rem();
    proof { lemma_from(c); lemma_streaminfo_bits(); axiom_sizes(); } @*/
    let min_block_size = try!(input.read_be_u16());
    let max_block_size = try!(input.read_be_u16());

    // The frame size fields are 24 bits, or 3 bytes.
    let min_frame_size = try!(input.read_be_u24());
    let max_frame_size = try!(input.read_be_u24());

    // Next up are 20 bits that determine the sample rate.
    let sample_rate_msb = try!(input.read_be_u16());
    let sample_rate_lsb = try!(input.read_u8());

    // Stitch together the value from the first 16 bits,
    // and then the 4 most significant bits of the next byte.
    let sample_rate = (sample_rate_msb as u32) << 4 | (sample_rate_lsb as u32) >> 4;

    // Next three bits are the number of channels - 1. Mask them out and add 1.
    let n_channels_bps = sample_rate_lsb;
    let n_channels = ((n_channels_bps >> 1) & 0b0000_0111) + 1;

    // The final bit is the most significant of bits per sample - 1. Bits per
    // sample - 1 is 5 bits in total.
    let bps_msb = n_channels_bps & 1;
    let bps_lsb_n_samples = try!(input.read_u8());

    // Stitch together these values, add 1 because # - 1 is stored.
    let bits_per_sample = (bps_msb << 4 | (bps_lsb_n_samples >> 4)) + 1;

    // Number of samples in 36 bits, we have 4 already, 32 to go.
    let n_samples_msb = bps_lsb_n_samples & 0b0000_1111;
    let n_samples_lsb = try!(input.read_be_u32());
    let n_samples = (n_samples_msb as u64) << 32 | n_samples_lsb as u64;

    // Next are 128 bits (16 bytes) of MD5 signature.
    /*@ proof {
        assert(s.skip(12)[0] == s[12] && s.skip(13)[0] == s[13]);
        if s.len() >= 34 { assert(s.skip(18).take(16) =~= s.subrange(18, 34)); }
    } @*/
    let mut md5sum = [0u8; 16];
    try!(input.read_into(&mut md5sum));

    // Lower bounds can never be larger than upper bounds. Note that 0 indicates
    // unknown for the frame size. Also, the block size must be at least 16.
    if min_block_size > max_block_size {
        return fmt_err("inconsistent bounds, min block size > max block size");
    }
    if min_block_size < 16 {
        return fmt_err("invalid block size, must be at least 16");
    }
    if min_frame_size > max_frame_size && max_frame_size != 0 {
        return fmt_err("inconsistent bounds, min frame size > max frame size");
    }

    // A sample rate of 0 is invalid, and the maximum sample rate is limited by
    // the structure of the frame headers to 655350 Hz.
    if sample_rate == 0 || sample_rate > 655350 {
        return fmt_err("invalid sample rate");
    }

    let stream_info = StreamInfo {
        min_block_size: min_block_size,
        max_block_size: max_block_size,
        min_frame_size: if min_frame_size == 0 {
            None
        } else {
            Some(min_frame_size)
        },
        max_frame_size: if max_frame_size == 0 {
            None
        } else {
            Some(max_frame_size)
        },
        sample_rate: sample_rate,
        channels: n_channels as u32,
        bits_per_sample: bits_per_sample as u32,
        samples: if n_samples == 0 {
            None
        } else {
            Some(n_samples)
        },
        md5sum: md5sum,
    };
    Ok(stream_info)
}

/*@ #[verifier::rlimit(100)] @*/
fn read_vorbis_comment_block<R: ReadBytes>(input: &mut R, length: u32) -> Result<VorbisComment>
/*@ requires (*old(input)).valid(), (*old(input)).bulk(),
    ensures (*final(input)).valid(),
        match r {
            Ok(v) => q_vorbis((*old(input)).rem(), length as int) is Ok && is_vc(v, q_vorbis((*old(input)).rem(), length as int)->Ok_0) && went(*old(input), *final(input), q_vorbis((*old(input)).rem(), length as int)->Ok_1),
            Err(e) => stopped(*old(input), *final(input)) && qerr(*old(input), q_vorbis((*old(input)).rem(), length as int), e),
        }, @*/
{
    /*@ 
    let ghost c = *input;
    let ghost vx_budget = 9 * length;
    let ghost mut vx_spent = 0int;
    let ghost s = c.rem();
    proof { lemma_from(c); axiom_sizes(); } @*/
    if length < 8 {
        // We expect at a minimum a 32-bit vendor string length, and a 32-bit
        // comment count.
        return fmt_err("Vorbis comment block is too short")
    }

    // Fail if the length of the Vorbis comment block is larger than 1 MiB. This
    // block is full of length-prefixed strings for which we allocate memory up
    // front. If there were no limit on these, a maliciously crafted file could
    // cause OOM by claiming to contain large strings. But at least the strings
    // cannot be longer than the size of the Vorbis comment block, and by
    // limiting the size of that block, we can mitigate such DoS attacks.
    //
    // The typical size of a the Vorbis comment block is 1 KiB; on a corpus of
    // real-world flac files, the 0.05 and 0.95 quantiles were 792 and 1257
    // bytes respectively, with even the 0.99 quantile below 2 KiB. The only
    // reason for having a large Vorbis comment block is when cover art is
    // incorrectly embedded there, but the Vorbis comment block is not the right
    // place for that anyway.
    if length > 10 * 1024 * 1024 {
        let msg = "Vorbis comment blocks larger than 10 MiB are not supported";
        return Err(Error::Unsupported(msg))
    }

    // The Vorbis comment block starts with a length-prefixed "vendor string".
    // It cannot be larger than the block length - 8, because there are the
    // 32-bit vendor string length, and comment count.
    let vendor_len = try!(input.read_le_u32());
    if vendor_len > length - 8 { return fmt_err("vendor string too long") }
    /*@ let ghost vl = vendor_len as int;
    proof { assert(vl == le32(s)); } @*/
    let mut vendor_bytes = vec![0; vendor_len as usize];
    try!(input.read_into(&mut vendor_bytes));
    /*@ proof { assert(s.skip(4).take(vl) =~= s.subrange(4, 4 + vl)); assert(s.skip(4).skip(vl) =~= s.skip(4 + vl)); } @*/
    let vendor = try!(String::from_utf8(vendor_bytes));

    // Next up is the number of comments. Because every comment is at least 4
    // bytes to indicate its length, there cannot be more comments than the
    // length of the block divided by 4. This is only an upper bound to ensure
    // that we don't allocate a big vector, to protect against DoS attacks.
    let mut comments_len = try!(input.read_le_u32());
    /*@ let ghost n0 = comments_len as int;
    proof { assert(n0 == le32(s.skip(4 + vl))); assert(s.skip(4 + vl).skip(4) =~= s.skip(8 + vl)); } @*/
    if comments_len >= length / 4 {
        return fmt_err("too many entries for Vorbis comment block")
    }
    let mut comments = Vec::with_capacity(comments_len as usize);

    let mut bytes_left = length - 8 - vendor_len;

    /*@ let ghost left0 = bytes_left as int;
    let ghost q0 = q_comments(s.skip(8 + vl), left0, n0);
    let ghost qv = q_vorbis(s, length as int);
    proof { assert(qv == (match q0 { Q::Ok(v, k) => Q::Ok(VC { vendor: s.subrange(4, 4 + vl), comments: v }, 8 + vl + k), e => qe(e) })); }
    let ghost mut acc: Seq<(Seq<u8>, int)> = Seq::empty();
    proof { assert(prepend(acc, 0, q0) == q0) by { match q0 { Q::Ok(w, n) => { assert(acc + w =~= w); }, _ => {} } } } @*/
    // For every comment, there is a length-prefixed string of the form
    // "NAME=value".
    while bytes_left >= 4 && comments.len() < comments_len as usize
    /*@ invariant
        vx_size::<u8>() == 1, vx_spent + bytes_left <= vx_budget, c == *old(input), (*input).valid(), (*input).bulk(), s == c.rem(), length <= 10 * 1024 * 1024, 8 <= length, vl + 8 + left0 == length, vl >= 0,
        bytes_left <= left0, went(c, *input, 8 + vl + (left0 - bytes_left)),
        comments@.len() <= comments_len, is_comments(comments@, acc),
        qv == q_vorbis(s, length as int),
        qv == (match q0 { Q::Ok(v, k) => Q::Ok(VC { vendor: s.subrange(4, 4 + vl), comments: v }, 8 + vl + k), e => qe(e) }),
        q0 == prepend(acc, left0 - bytes_left, q_comments((*input).rem(), bytes_left as int, comments_len - comments@.len())),
      ensures
        bytes_left < 4 || comments@.len() >= comments_len,
      decreases bytes_left,
    @*/
    {
        /*@ let ghost r = (*input).rem();
        let ghost m = comments_len - comments@.len();
        let ghost done = left0 - bytes_left;
        let ghost bl = bytes_left as int;
        let ghost i0 = *input;
        let ghost q = q_comments(r, bl, m);
        proof { lemma_from(c); assert(r == s.skip(8 + vl + done)); } @*/
        let comment_len = try!(input.read_le_u32());
        /*@ let ghost l = comment_len as int;
        proof {
            assert(s.skip(8 + vl + done).skip(4) =~= s.skip(8 + vl + done + 4));
            assert((*input).rem() == r.skip(4));
        } @*/
        bytes_left -= 4;

        if comment_len > bytes_left {
            return fmt_err("Vorbis comment too long for Vorbis comment block")
        }

        // Some older versions of libflac allowed writing zero-length Vorbis
        // comments. ALthough such files are invalid, they do occur in the wild,
        // so we skip over the empty comment.
        if comment_len == 0 {
            // Does not overflow because `comments_len > comments.len() >= 0`.
            /*@ proof {
                lemma_comments_step(r, bl, m, acc, done);
                assert((*input).rem() == r.skip(4));
            } @*/
            comments_len -= 1;
            continue;
        }

        let mut comment_bytes = vec![0; comment_len as usize];
        try!(input.read_into(&mut comment_bytes));

        /*@ let ghost b = r.subrange(4, 4 + l);
        proof {
            assert(r.skip(4).take(l) =~= b);
            assert(s.skip(8 + vl + done).skip(4 + l) =~= s.skip(8 + vl + done + 4 + l));
            assert((*input).rem() == r.skip(4 + l));
            assert(comment_bytes@ == b);
        } @*/
        bytes_left -= comment_len;

        if let Some(sep_index) = comment_bytes.iter()/*@ invariant
            VX_A@ == b, VX_K <= b.len(), forall|j: int| 0 <= j < VX_K ==> #[trigger] b[j] != 0x3d,
            VX_ACC matches Some(i) ==> i == VX_K && i < b.len() && b[i as int] == 0x3d,
            VX_ACC is None || VX_K < VX_A.len(),
          ensures VX_ACC is None ==> VX_K == b.len(), @*//*@ after proof {
            match VX_ACC { Some(i) => { lemma_sep(b, i as int); }, None => { lemma_sep(b, b.len() as int); } }
        } @*/.position(|&x| x == b'=') {
            {
                let name_bytes = &comment_bytes[..sep_index];

                // According to the Vorbis spec, the field name may consist of ascii
                // bytes 0x20 through 0x7d, 0x3d (`=`) excluded. Verifying this has
                // the advantage that if the check passes, the result is valid
                // UTF-8, so the conversion to string will not fail.
                if name_bytes.iter()/*@ invariant
            VX_A@ == b.take(sep_index as int), sep_index < b.len(), VX_K <= VX_A@.len(), !VX_ACC ==> forall|j: int| 0 <= j < VX_K ==> 0x20 <= #[trigger] b[j] <= 0x7d,
            VX_ACC ==> exists|j: int| 0 <= j < sep_index && !(0x20 <= #[trigger] b[j] <= 0x7d),
          ensures !VX_ACC ==> VX_K == sep_index, @*//*@ proof { assert(VX_A@[VX_K as int] == b[VX_K as int]); } @*/.any(|&x| x < 0x20 || x > 0x7d) {
                    return fmt_err("Vorbis comment field name contains invalid byte")
                }
            }

            let comment = try!(String::from_utf8(comment_bytes));
            /*@ proof {
                lemma_comments_step(r, bl, m, acc, done);
                acc = acc.push((b, sep(b)));
            } @*/
            comments.push((comment, sep_index));
        } else {
            return fmt_err("Vorbis comment does not contain '='")
        }
    }

    if bytes_left != 0 {
        return fmt_err("Vorbis comment block has excess data")
    }

    if comments.len() != comments_len as usize {
        return fmt_err("Vorbis comment block contains wrong number of entries")
    }

    let vorbis_comment = VorbisComment {
        vendor: vendor,
        comments: comments,
    };

    Ok(vorbis_comment)
}

fn read_padding_block<R: ReadBytes>(input: &mut R, length: u32) -> Result<()>
/*@ requires (*old(input)).valid(), (*old(input)).bulk(),
    ensures (*final(input)).valid(),
        match r {
            Ok(_) => q_skipped((*old(input)).rem(), length as int, MB::Pad(length as int)) is Ok && true && went(*old(input), *final(input), q_skipped((*old(input)).rem(), length as int, MB::Pad(length as int))->Ok_1),
            Err(e) => stopped(*old(input), *final(input)) && qerr(*old(input), q_skipped((*old(input)).rem(), length as int, MB::Pad(length as int)), e),
        }, @*/
{
    /*@ let ghost vx_budget = 16384int;
    let ghost mut vx_spent = 0int;
    proof { axiom_sizes(); } @*/
    // The specification dictates that all bits of the padding block must be 0.
    // However, the reference implementation does not issue an error when this
    // is not the case, and frankly, when you are going to skip over these
    // bytes and do nothing with them whatsoever, why waste all those CPU
    // cycles checking that the padding is valid?
    Ok(try!(input.skip(length)))
}

fn read_application_block<R: ReadBytes>(input: &mut R, length: u32) -> Result<(u32, Vec<u8>)>
/*@ requires (*old(input)).valid(), (*old(input)).bulk(),
    ensures (*final(input)).valid(),
        match r {
            Ok(x) => q_block((*old(input)).rem(), 2, length as int) is Ok && q_block((*old(input)).rem(), 2, length as int)->Ok_0 == MB::App(x.0 as int, x.1@) && went(*old(input), *final(input), q_block((*old(input)).rem(), 2, length as int)->Ok_1),
            Err(e) => stopped(*old(input), *final(input)) && qerr(*old(input), q_block((*old(input)).rem(), 2, length as int), e),
        }, @*/
{
    /*@ let ghost c = *input;
    let ghost vx_budget = length as int;
    let ghost mut vx_spent = 0int;
    let ghost s = c.rem();
    proof { lemma_from(c); axiom_sizes(); } @*/
    if length < 4 {
        return fmt_err("application block length must be at least 4 bytes")
    }

    // Reject large application blocks to avoid memory-based denial-
    // of-service attacks. See also the more elaborate motivation in
    // `read_vorbis_comment_block()`.
    if length > 10 * 1024 * 1024 {
        let msg = "application blocks larger than 10 MiB are not supported";
        return Err(Error::Unsupported(msg))
    }

    let id = try!(input.read_be_u32());

    // Four bytes of the block have been used for the ID, the rest is payload.
    /*@ proof { if s.len() >= length { assert(s.skip(4).take(length - 4) =~= s.subrange(4, length as int)); } } @*/
    let mut data = vec![0; length as usize - 4];
    try!(input.read_into(&mut data));

    Ok((id, data))
}

/// Reads metadata blocks from a stream and exposes them as an iterator.
///
/// It is assumed that the next byte that the reader will read, is the first
/// byte of a metadata block header. This means that the iterator will yield at
/// least a single value. If the iterator ever yields an error, then no more
/// data will be read thereafter, and the next value will be `None`.
pub struct MetadataBlockReader<R: ReadBytes> {
    input: R,
    done: bool,
}

/// Either a `MetadataBlock` or an `Error`.
pub type MetadataBlockResult = Result<MetadataBlock>;

impl<R: ReadBytes> MetadataBlockReader<R> {
    /// Creates a metadata block reader that will yield at least one element.
    pub fn new(input: R) -> MetadataBlockReader<R>
    /*@ ensures r.input == input, !r.done, @*/
    {
        MetadataBlockReader {
            input: input,
            done: false,
        }
    }

    #[inline]
    fn read_next(&mut self) -> MetadataBlockResult
    /*@ requires old(self).input.valid(), old(self).input.bulk(),
        ensures final(self).input.valid(),
            match r {
                Ok(b) => q_whole(old(self).input.rem()) is Ok && is_block(b, q_whole(old(self).input.rem())->Ok_0.1)
                    && final(self).done == q_whole(old(self).input.rem())->Ok_0.0
                    && went(old(self).input, final(self).input, q_whole(old(self).input.rem())->Ok_1),
                Err(e) => stopped(old(self).input, final(self).input) && qerr(old(self).input, q_whole(old(self).input.rem()), e),
            },
    @*/
    {
        /*@ let ghost c = self.input;
        proof { lemma_from(c); } @*/
        let header = try!(read_metadata_block_header(&mut self.input));
        let block = try!(read_metadata_block(&mut self.input, header.block_type, header.length));
        self.done = header.is_last;
        Ok(block)
    }
}

impl<R: ReadBytes> Iterator for MetadataBlockReader<R> {
    type Item = MetadataBlockResult;

    #[inline]
    fn next(&mut self) -> Option<MetadataBlockResult>
    /*@ requires old(self).input.valid(), old(self).input.bulk(),
        ensures final(self).input.valid(),
            r is None <==> old(self).done,
            match r {
                None => final(self).done && went(old(self).input, final(self).input, 0),
                Some(Ok(b)) => q_whole(old(self).input.rem()) is Ok && is_block(b, q_whole(old(self).input.rem())->Ok_0.1)
                    && final(self).done == q_whole(old(self).input.rem())->Ok_0.0
                    && went(old(self).input, final(self).input, q_whole(old(self).input.rem())->Ok_1),
                Some(Err(e)) => final(self).done && stopped(old(self).input, final(self).input) && qerr(old(self).input, q_whole(old(self).input.rem()), e),
            },
    @*/
    {
        /*@ proof { lemma_adv_id(self.input, self.input); } @*/
        if self.done {
            None
        } else {
            let block = self.read_next();

            // After a failure, no more attempts to read will be made,
            // because we don't know where we are in the stream.
            if !block.is_ok() {
                self.done = true;
            }

            Some(block)
        }
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>)
    /*@ ensures self.done ==> r.0 == 0, r.0 <= 1, !self.done ==> r.1.is_none() @*/
    {
        // When done, there will be no more blocks,
        // when not done, there will be at least one more.
        if self.done { (0, Some(0)) } else { (1, None) }
    }
}
