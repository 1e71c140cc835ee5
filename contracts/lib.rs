// Claxon -- A FLAC decoding library in Rust
// Copyright 2014 Ruud van Asseldonk
//
// Licensed under the Apache License, Version 2.0 (the "License");
// you may not use this file except in compliance with the License.
// A copy of the License has been included in the root of the repository.

//! Claxon, a FLAC decoding library.
//!
//! Examples
//! ========
//!
//! The following example computes the root mean square (RMS) of a FLAC file.
//!
//! ```
//! # use claxon;
//! let mut reader = claxon::FlacReader::open("testsamples/pop.flac").unwrap();
//! let mut sqr_sum = 0.0;
//! let mut count = 0;
//! for sample in reader.samples() {
//!     let s = sample.unwrap() as f64;
//!     sqr_sum += s * s;
//!     count += 1;
//! }
//! println!("RMS is {}", (sqr_sum / count as f64).sqrt());
//! ```
//!
//! A simple way to decode a file to wav with Claxon and
//! [Hound](https://github.com/ruuda/hound):
//!
//! ```
//! # extern crate hound;
//! # extern crate claxon;
//! # use std::path::Path;
//! # fn decode_file(fname: &Path) {
//! let mut reader = claxon::FlacReader::open(fname).expect("failed to open FLAC stream");
//!
//! let spec = hound::WavSpec {
//!     channels: reader.streaminfo().channels as u16,
//!     sample_rate: reader.streaminfo().sample_rate,
//!     bits_per_sample: reader.streaminfo().bits_per_sample as u16,
//!     sample_format: hound::SampleFormat::Int,
//! };
//!
//! let fname_wav = fname.with_extension("wav");
//! let opt_wav_writer = hound::WavWriter::create(fname_wav, spec);
//! let mut wav_writer = opt_wav_writer.expect("failed to create wav file");
//!
//! for opt_sample in reader.samples() {
//!     let sample = opt_sample.expect("failed to decode FLAC stream");
//!     wav_writer.write_sample(sample).expect("failed to write wav file");
//! }
//! # }
//! ```
//!
//! Retrieving the artist metadata:
//!
//! ```
//! # use claxon;
//! let reader = claxon::FlacReader::open("testsamples/pop.flac").unwrap();
//! for artist in reader.get_tag("ARTIST") {
//!     println!("{}", artist);
//! }
//! ```
//!
//! For more examples, see the [examples](https://github.com/ruuda/claxon/tree/master/examples)
//! directory in the crate.

#![warn(missing_docs)]

use std::fs;
use std::io;
use std::mem;
use std::path;
use error::fmt_err;
use frame::FrameReader;
use input::{BufferedReader, ReadBytes};
use metadata::{MetadataBlock, MetadataBlockReader, StreamInfo, VorbisComment};

mod crc;
mod error;
pub mod frame;
pub mod input;
pub mod metadata;
pub mod subframe;

pub use error::{Error, Result};
pub use frame::Block;

/// A FLAC decoder that can decode the stream from the underlying reader.
///
/// TODO: Add an example.
pub struct FlacReader<R: io::Read> {
    streaminfo: StreamInfo,
    vorbis_comment: Option<VorbisComment>,
    input: FlacReaderState<BufferedReader<R>>,
}

enum FlacReaderState<T> {
    /// When the reader is positioned at the beginning of a frame.
    Full(T),
    /// When the reader might not be positioned at the beginning of a frame.
    MetadataOnly(T),
}

/// Controls what metadata `FlacReader` reads when constructed.
///
/// The FLAC format contains a number of metadata blocks before the start of
/// audio data. Reading these is wasteful if the data is never used. The
/// `FlacReaderOptions` indicate which blocks to look for. As soon as all
/// desired blocks have been read, `FlacReader::new_ext()` returns without
/// reading remaining metadata blocks.
///
/// A few use cases:
///
/// * To read only the streaminfo, as quickly as possible, set `metadata_only`
///   to true and `read_vorbis_comment` to false. The resulting reader cannot be
///   used to read audio data.
/// * To read only the streaminfo and tags, set `metadata_only` and
///   `read_vorbis_comment` both to true. The resulting reader cannot be used to
///   read audio data.
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct FlacReaderOptions {
    /// When true, return a reader as soon as all desired metadata has been read.
    ///
    /// If this is set, the `FlacReader` will not be able to read audio samples.
    /// When reading audio is not desired anyway, enabling `metadata_only` can
    /// save a lot of expensive reads.
    ///
    /// Defaults to false.
    pub metadata_only: bool,

    /// When true, read metadata blocks at least until a Vorbis comment block is found.
    ///
    /// When false, the `FlacReader` will be constructed without reading a
    /// Vorbis comment block, even if the stream contains one. Consequently,
    /// `FlacReader::tags()` and other tag-related methods will not return tag
    /// data.
    ///
    /// Defaults to true.
    pub read_vorbis_comment: bool,
}

impl Default for FlacReaderOptions {
    fn default() -> FlacReaderOptions
    /*@ ensures r.read_vorbis_comment, !r.metadata_only, @*/
    {
        FlacReaderOptions {
            read_vorbis_comment: true,
            metadata_only: false,
        }
    }
}

impl FlacReaderOptions {
    /// Return whether any metadata blocks need to be read.
    fn has_desired_blocks(&self) -> bool
    /*@ ensures r == (!self.metadata_only || self.read_vorbis_comment), @*/
    {
        // If we do not want only metadata, we want everything. Hence there are
        // desired blocks left.
        if !self.metadata_only {
            return true
        }

        // Should be the or of all read_* fields, of which vorbis_comment is the
        // only one at the moment.
        self.read_vorbis_comment
    }
}

/// An iterator that yields samples read from a `FlacReader`.
pub struct FlacSamples<R: ReadBytes> {
    frame_reader: FrameReader<R>,
    block: Block,
    sample: u32,
    channel: u32,

    /// If reading ever failed, this flag is set, so that the iterator knows not
    /// to return any new values.
    has_failed: bool,
}

/// An iterator that yields samples read from a `FlacReader`.
pub struct FlacIntoSamples<R: ReadBytes> {
    // This works because `ReadBytes` is implemented for both `&mut R` and `R`.
    inner: FlacSamples<R>,
}

fn read_stream_header<R: ReadBytes>(input: &mut R) -> Result<()>
/*@ requires (*old(input)).valid(),
    ensures (*final(input)).valid(),
        match r {
            Ok(_) => q_marker((*old(input)).rem()) is Ok && went(*old(input), *final(input), 4),
            Err(e) => stopped(*old(input), *final(input)) && qerr(*old(input), q_marker((*old(input)).rem()), e) && id3_told((*old(input)).rem(), e),
        },
@*/
{
    /*@ let ghost c = *input;
    proof { lemma_from(c); lemma_id3_bits(c.rem()); reveal_strlit("stream starts with ID3 header rather than FLAC header"); reveal_strlit("invalid stream header"); } @*/
    // A FLAC stream starts with a 32-bit header 'fLaC' (big endian).
    const FLAC_HEADER: u32 = 0x66_4c_61_43;

    // Some files start with ID3 tag data. The reference decoder supports this
    // for convenience. Claxon does not, but we can at least generate a helpful
    // error message if a file starts like this.
    const ID3_HEADER: u32 = 0x49_44_33_00;

    let header = try!(input.read_be_u32());
    /*@ assert(header == be32(c.rem()));
    assert("invalid stream header"@.len() == 21);
    assert("stream starts with ID3 header rather than FLAC header"@.len() == 53);
    assert((header & 0xff_ff_ff_00 == 0x49_44_33_00u32) == is_id3(c.rem())); @*/
    if header != FLAC_HEADER {
        if (header & 0xff_ff_ff_00) == ID3_HEADER {
            fmt_err("stream starts with ID3 header rather than FLAC header")
        } else {
            fmt_err("invalid stream header")
        }
    } else {
        Ok(())
    }
}

impl<R: io::Read> FlacReader<R> /*@
    pub open spec fn reader(&self) -> BufferedReader<R> {
        match self.input { FlacReaderState::Full(b) => b, FlacReaderState::MetadataOnly(b) => b }
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.reader().inv()
        &&& (self.vorbis_comment matches Some(v) ==> comments_wf(v.comments@))
    }
@*/ {
    /// Create a reader that reads the FLAC format.
    ///
    /// The header and metadata blocks are read immediately. Audio frames
    /// will be read on demand.
    ///
    /// Claxon rejects files that claim to contain excessively large metadata
    /// blocks, to protect against denial of service attacks where a
    /// small damaged or malicous file could cause gigabytes of memory
    /// to be allocated. `Error::Unsupported` is returned in that case.
    pub fn new(reader: R) -> Result<FlacReader<R>>
    /*@ ensures match r {
            Ok(f) => opened(reader, false, true, f),
            Err(e) => src_err(reader, q_open(reader.src(), false, true), e) && id3_told(reader.src(), e),
        },
    @*/
    {
        FlacReader::new_ext(reader, FlacReaderOptions::default())
    }

    /// Create a reader that reads the FLAC format, with reader options.
    ///
    /// The header and metadata blocks are read immediately, but only as much as
    /// specified in the options. See `FlacReaderOptions` for more details.
    ///
    /// Claxon rejects files that claim to contain excessively large metadata
    /// blocks, to protect against denial of service attacks where a
    /// small damaged or malicous file could cause gigabytes of memory
    /// to be allocated. `Error::Unsupported` is returned in that case.
    /*@ #[verifier::rlimit(100)] @*/
    pub fn new_ext(reader: R, options: FlacReaderOptions) -> Result<FlacReader<R>>
    /*@ ensures match r {
            Ok(f) => opened(reader, options.metadata_only, options.read_vorbis_comment, f),
            Err(e) => src_err(reader, q_open(reader.src(), options.metadata_only, options.read_vorbis_comment), e) && id3_told(reader.src(), e),
        },
    @*/
    {
        /*@ hide(q_whole); hide(q_vorbis); hide(q_block); @*/
        let mut buf_reader = BufferedReader::new(reader);
        /*@ let ghost s = reader.src();
        let ghost only = options.metadata_only;
        let ghost want = options.read_vorbis_comment;
        let ghost c0 = buf_reader;
        let ghost qo = q_open(s, only, want);
        proof { lemma_from(c0); lemma_adv_deref::<BufferedReader<R>>(); } @*/
        let mut opts_current = options;

        // A flac stream first of all starts with a stream header.
        try!(read_stream_header(&mut buf_reader));

        // Start a new scope, because the input reader must be available again
        // for the frame reader next.
        let (streaminfo, vorbis_comment) = {
            // Next are one or more metadata blocks. The flac specification
            // dictates that the streaminfo block is the first block. The metadata
            // block reader will yield at least one element, so the unwrap is safe.
            let mut metadata_iter = MetadataBlockReader::new(&mut buf_reader);
            /*@ let ghost c = metadata_iter.input;
            proof { lemma_from(c); } @*/
            let streaminfo_block = try!(metadata_iter.next().unwrap());
            let streaminfo = match streaminfo_block {
                MetadataBlock::StreamInfo(info) => info,
                _ => return fmt_err("streaminfo block missing"),
            };
            /*@ let ghost k1 = q_whole(s.skip(4))->Ok_1;
            let ghost q0 = q_more(s.skip(4 + k1), metadata_iter.done, None, only, want);
            let ghost mut have: Option<VC> = None;
            proof {
                lemma_whole_exact(s.skip(4));
                assert(s.skip(4).skip(k1) =~= s.skip(4 + k1));
                assert(qo == (match q0 { Q::Ok(v, n) => Q::Ok((q_whole(s.skip(4))->Ok_0.1->Info_0, if want { v } else { None }), 4 + k1 + n), e => qe(e) }));
            } @*/

            let mut vorbis_comment = None;

            // There might be more metadata blocks, read and store them. Early-out
            // once all desired blocks have been collected.
            while opts_current.has_desired_blocks()
            /*@ invariant
                metadata_iter.input.valid(), metadata_iter.input.bulk(), c.bulk(), s == reader.src(), only == options.metadata_only, want == options.read_vorbis_comment,
                opts_current.metadata_only == only, opts_current.read_vorbis_comment == (want && have is None),
                went(c, metadata_iter.input, s.len() - 4 - metadata_iter.input.rem().len()), c.rem() == s.skip(4), s.len() >= 4,
                q0 == more_after(s.len() - 4 - k1 - metadata_iter.input.rem().len(), q_more(metadata_iter.input.rem(), metadata_iter.done, have, only, want)),
                is_opt_vc(vorbis_comment, have), be32(s) == 0x664c6143,
                qo == q_open(s, only, want),
                qo == (match q0 { Q::Ok(v, n) => Q::Ok((q_whole(s.skip(4))->Ok_0.1->Info_0, if want { v } else { None }), 4 + k1 + n), e => qe(e) }),
                c.ok() == reader.src_ok(), c.fault() == reader.src_fault(),
              ensures q_more(metadata_iter.input.rem(), metadata_iter.done, have, only, want) == Q::Ok(have, 0),
              decreases metadata_iter.input.rem().len(),
            @*/
            {
                /*@ let ghost r0 = metadata_iter.input.rem();
                let ghost q = q_more(r0, metadata_iter.done, have, only, want);
                proof { lemma_from(c); } @*/
                let block_result = match metadata_iter.next() {
                    Some(block_result) => block_result,
                    None => break,
                };
                /*@ proof {
                    if !(q_whole(r0) is Ok) { assert(q == qe::<(bool, MB), Option<VC>>(q_whole(r0))); }
                    if block_result is Ok {
                        lemma_whole_exact(r0);
                        lemma_block_wf(block_result->Ok_0, r0);
                        let b = q_whole(r0)->Ok_0.1;
                        let k = q_whole(r0)->Ok_1;
                        let nx = q_more(r0.skip(k), metadata_iter.done, if b is Vorbis { Some(b->Vorbis_0) } else { have }, only, want);
                        assert(metadata_iter.input.rem() == r0.skip(k));
                        if !(b is Info) && !(b is Vorbis && have is Some) { assert(q == more_after(k, nx)); } else { assert(q is Fmt); }
                        if b is Vorbis { if have is None { have = Some(b->Vorbis_0); } }
                    }
                } @*/
                match try!(block_result) {
                    MetadataBlock::VorbisComment(vc) => {
                        // The Vorbis comment block need not be present, but
                        // when it is, it must be unique.
                        if vorbis_comment.is_some() {
                            return fmt_err("encountered second Vorbis comment block")
                        } else {
                            vorbis_comment = Some(vc);
                        }

                        // We have one, no new one is desired.
                        opts_current.read_vorbis_comment = false;
                    }
                    MetadataBlock::StreamInfo(..) => {
                        return fmt_err("encountered second streaminfo block")
                    }
                    // Other blocks are currently not handled.
                    _block => {}
                }
            }

            // TODO: Rather than discarding afterwards, never parse it in the
            // first place; treat it like padding in the MetadataBlockReader.
            if !options.read_vorbis_comment {
                vorbis_comment = None;
            }

            (streaminfo, vorbis_comment)
        };

        /*@ proof {
            let n = s.len() - 4 - buf_reader.rest().len();
            assert(s.skip(4).skip(n) =~= s.skip(4 + n));
            assert(buf_reader.rest() == s.skip(4).skip(n));
        } @*/
        // Even if we might have read all metadata blocks, only set the state to
        // "full" if `metadata_only` was false: this results in more predictable
        // behavior.
        let state = if options.metadata_only {
            FlacReaderState::MetadataOnly(buf_reader)
        } else {
            FlacReaderState::Full(buf_reader)
        };

        // The flac reader will contain the reader that will read frames.
        let flac_reader = FlacReader {
            streaminfo: streaminfo,
            vorbis_comment: vorbis_comment,
            input: state,
        };

        /*@ proof {
            let f = flac_reader;
            assert(qo is Ok);
            assert(is_streaminfo(f.streaminfo, qo->Ok_0.0));
            assert(is_opt_vc(f.vorbis_comment, qo->Ok_0.1));
            assert(f.wf());
            assert(f.reader().rest() == s.skip(qo->Ok_1));
            assert(f.reader().inner.src_ok() == reader.src_ok());
            assert(f.reader().inner.src_fault() == reader.src_fault());
        } @*/
        Ok(flac_reader)
    }

    /// Returns the streaminfo metadata.
    ///
    /// This contains information like the sample rate and number of channels.
    pub fn streaminfo(&self) -> StreamInfo
    /*@ ensures r == self.streaminfo, @*/
    {
        self.streaminfo
    }

    /// Returns the vendor string of the Vorbis comment block, if present.
    ///
    /// This string usually contains the name and version of the program that
    /// encoded the FLAC stream, such as `reference libFLAC 1.3.2 20170101`
    /// or `Lavf57.25.100`.
    pub fn vendor(&self) -> Option<&str>
    /*@ ensures match self.vorbis_comment { Some(v) => r is Some && sb(r->Some_0@) == sb(v.vendor@), None => r is None }, @*/
    {
        self.vorbis_comment.as_ref()/*@ proof {
            assert(sb((*VX_M).vendor@).subrange(0, sb((*VX_M).vendor@).len() as int) =~= sb((*VX_M).vendor@));
        } @*/.map(|vc| &vc.vendor[..])
    }

    /// Returns name-value pairs of Vorbis comments, such as `("ARTIST", "Queen")`.
    ///
    /// The name is supposed to be interpreted case-insensitively, and is
    /// guaranteed to consist of ASCII characters. Claxon does not normalize
    /// the casing of the name. Use `get_tag()` to do a case-insensitive lookup.
    ///
    /// Names need not be unique. For instance, multiple `ARTIST` comments might
    /// be present on a collaboration track.
    ///
    /// See <https://www.xiph.org/vorbis/doc/v-comment.html> for more details.
    pub fn tags<'a>(&'a self) -> metadata::Tags<'a>
    /*@ requires self.wf(),
        ensures left_wf(r),
            tags_left(r) == (match self.vorbis_comment { Some(v) => tags_of(v.comments@), None => Seq::empty() }),
    @*/
    {
        /*@ proof { lemma_all_of(self.vorbis_comment); } @*/
        match self.vorbis_comment.as_ref() {
            Some(vc) => metadata::Tags::new(&vc.comments[..]),
            None => metadata::Tags::new(&[]),
        }
    }

    /// Look up a Vorbis comment such as `ARTIST` in a case-insensitive way.
    ///
    /// Returns an iterator,  because tags may occur more than once. There could
    /// be multiple `ARTIST` tags on a collaboration track, for instance.
    ///
    /// Note that tag names are ASCII and never contain `'='`; trying to look up
    /// a non-ASCII tag will return no results. Furthermore, the Vorbis comment
    /// spec dictates that tag names should be handled case-insensitively, so
    /// this method performs a case-insensitive lookup.
    ///
    /// See also `tags()` for access to the raw tags.
    /// See <https://www.xiph.org/vorbis/doc/v-comment.html> for more details.
    pub fn get_tag<'a>(&'a self, tag_name: &'a str) -> metadata::GetTag<'a>
    /*@ requires self.wf(),
        ensures comments_wf(r.vorbis_comments@), r.index == 0, r.needle@ == tag_name@,
            r.vorbis_comments@ == (match self.vorbis_comment { Some(v) => v.comments@, None => Seq::empty() }),
    @*/
    {
        /*@ proof { lemma_all_of(self.vorbis_comment); } @*/
        match self.vorbis_comment.as_ref() {
            Some(vc) => metadata::GetTag::new(&vc.comments[..], tag_name),
            None => metadata::GetTag::new(&[], tag_name),
        }
    }

    /// Returns an iterator that decodes a single frame on every iteration.
    /// TODO: It is not an iterator.
    ///
    /// This is a low-level primitive that gives you control over when decoding
    /// happens. The representation of the decoded audio is somewhat specific to
    /// the FLAC format. For a higher-level interface, see `samples()`.
    pub fn blocks<'r>(&'r mut self) -> FrameReader<&'r mut BufferedReader<R>>
    /*@ requires old(self).wf(),
        ensures old(self).input is Full, r.input.valid(), *r.input == old(self).reader(),
            final(self).input is Full, final(self).reader() == *final(r.input),
            final(self).streaminfo == old(self).streaminfo, final(self).vorbis_comment == old(self).vorbis_comment,
    @*/
    {
        match self.input {
            FlacReaderState::Full(ref mut inp) => FrameReader::new(inp),
            FlacReaderState::MetadataOnly(..) =>
                /*@ documented @*/ panic!("FlacReaderOptions::metadata_only must be false \
                       to be able to use FlacReader::blocks()"),
        }
    }

    /// Returns an iterator over all samples.
    ///
    /// The channel data is is interleaved. The iterator is streaming. That is,
    /// if you call this method once, read a few samples, and call this method
    /// again, the second iterator will not start again from the beginning of
    /// the file. It will continue somewhere after where the first iterator
    /// stopped, and it might skip some samples. (This is because FLAC divides
    /// a stream into blocks, which have to be decoded entirely. If you drop the
    /// iterator, you lose the unread samples in that block.)
    ///
    /// This is a user-friendly interface that trades performance for ease of
    /// use. If performance is an issue, consider using `blocks()` instead.
    ///
    /// This is a high-level interface to the decoder. The cost of retrieving
    /// the next sample can vary significantly, as sometimes a new block has to
    /// be decoded. Additionally, there is a cost to every iteration returning a
    /// `Result`. When a block has been decoded, iterating the samples in that
    /// block can never fail, but a match on every sample is required
    /// nonetheless. For more control over when decoding happens, and less error
    /// handling overhead, use `blocks()`.
    pub fn samples<'r>(&'r mut self) -> FlacSamples<&'r mut BufferedReader<R>>
    /*@ requires old(self).wf(),
        ensures old(self).input is Full, r.wf(), !r.has_failed, r.pending().len() == 0, *r.frame_reader.input == old(self).reader(),
            final(self).input is Full, final(self).reader() == *final(r.frame_reader.input),
            final(self).streaminfo == old(self).streaminfo, final(self).vorbis_comment == old(self).vorbis_comment,
    @*/
    {
        match self.input {
            FlacReaderState::Full(ref mut inp) => {
                FlacSamples {
                    frame_reader: frame::FrameReader::new(inp),
                    block: Block::empty(),
                    sample: 0,
                    channel: 0,
                    has_failed: false,
                }
            }
            FlacReaderState::MetadataOnly(..) => {
                /*@ documented @*/ panic!("FlacReaderOptions::metadata_only must be false \
                       to be able to use FlacReader::samples()")
            }
        }
    }

    /// Same as `samples`, but takes ownership of the `FlacReader`.
    ///
    /// See `samples()` for more info.
    pub fn into_samples(self) -> FlacIntoSamples<BufferedReader<R>>
    /*@ requires self.wf(),
        ensures self.input is Full, r.inner.wf(), !r.inner.has_failed, r.inner.pending().len() == 0, r.inner.frame_reader.input == self.reader(),
    @*/
    {
        match self.input {
            FlacReaderState::Full(inp) => {
                FlacIntoSamples {
                    inner: FlacSamples {
                        frame_reader: frame::FrameReader::new(inp),
                        block: Block::empty(),
                        sample: 0,
                        channel: 0,
                        has_failed: false,
                    }
                }
            }
            FlacReaderState::MetadataOnly(..) => {
                /*@ documented @*/ panic!("FlacReaderOptions::metadata_only must be false \
                       to be able to use FlacReader::into_samples()")
            }
        }
    }

    /// Destroys the FLAC reader and returns the underlying reader.
    ///
    /// Because the reader employs buffering internally, anything in the buffer
    /// will be lost.
    pub fn into_inner(self) -> R
    /*@ ensures r == self.reader().inner, @*/
    {
        match self.input {
            FlacReaderState::Full(inp) => inp.into_inner(),
            FlacReaderState::MetadataOnly(inp) => inp.into_inner(),
        }
    }
}

impl FlacReader<fs::File> {
    /// Attempts to create a reader that reads from the specified file.
    ///
    /// This is a convenience constructor that opens a `File`, and constructs a
    /// `FlacReader` from it. There is no need to wrap the file in a
    /// `BufReader`, as the `FlacReader` employs buffering already.
    pub fn open<P: AsRef<path::Path>>(filename: P) -> Result<FlacReader<fs::File>>
    /*@ ensures opened_file(filename, false, true, r), @*/
    {
        let file = try!(fs::File::open(filename));
        FlacReader::new(file)
    }

    /// Attemps to create a reader that reads from the specified file.
    ///
    /// This is a convenience constructor that opens a `File`, and constructs a
    /// `FlacReader` from it. There is no need to wrap the file in a
    /// `BufReader`, as the `FlacReader` employs buffering already.
    pub fn open_ext<P: AsRef<path::Path>>(filename: P,
                                          options: FlacReaderOptions)
                                          -> Result<FlacReader<fs::File>>
    /*@ ensures opened_file(filename, options.metadata_only, options.read_vorbis_comment, r), @*/
    {
        let file = try!(fs::File::open(filename));
        FlacReader::new_ext(file, options)
    }
}

impl<R: ReadBytes> Iterator for FlacSamples<R> /*@ attr
impl<R: ReadBytes> FlacSamples<R> {
    pub open spec fn wf(&self) -> bool {
        &&& self.frame_reader.input.valid()
        &&& self.block.wf()
        &&& self.block.block_size == 0 <==> self.block.channels == 0
        &&& self.sample == 0 && self.channel == 0 || self.sample < self.block.block_size && self.channel < self.block.channels
    }
    /// The samples of the current block that were not yielded yet.
    pub open spec fn pending(&self) -> Seq<i32> {
        let b = block_samples(self.block);
        let k = self.sample * self.block.channels + self.channel + 1;
        if k < b.len() { b.skip(k) } else { Seq::empty() }
    }
    /// All samples that are going to be yielded (if the source does not fail).
    pub open spec fn todo(&self) -> Seq<i32> { self.pending() + all_samples(self.frame_reader.input.rem()) }
}
/// What a call of next must do.
#[verifier::prophetic]
pub open spec fn yields<R: ReadBytes>(o: FlacSamples<R>, n: FlacSamples<R>, r: Option<Result<i32>>) -> bool {
    let i = o.frame_reader.input;
    let j = n.frame_reader.input;
    &&& n.wf()
    &&& same(i, j)
    &&& match r {
        Some(Ok(x)) => {
            &&& !o.has_failed && !n.has_failed
            &&& o.todo().len() > 0 && x == o.todo()[0] && n.todo() == o.todo().skip(1)
            &&& (o.pending().len() > 0 ==> j == i)
            &&& adv(i, j) && j.fault() == i.fault()
        },
        Some(Err(e)) => {
            &&& !o.has_failed && n.has_failed
            &&& o.pending().len() == 0
            &&& stopped(i, j) && qerr(i, q_frame(i.rem()), e)
        },
        None => {
            if o.has_failed { n == o }
            else { !n.has_failed && o.pending().len() == 0 && n.pending().len() == 0 && i.rem().len() == 0 && went(i, j, 0) }
        },
    }
}
@*/ {
    type Item = Result<i32>;

    fn next(&mut self) -> Option<Result<i32>>
    /*@ requires old(self).wf(),
        ensures yields(*old(self), *final(self), r),
    @*/
    {
        /*@ hide(q_frame);
        let ghost o = *self;
        let ghost n = o.block.channels as int;
        let ghost bs = o.block.block_size as int;
        let ghost k = o.sample * o.block.channels + o.channel + 1;
        let ghost b = block_samples(o.block);
        proof { lemma_from(o.frame_reader.input); lemma_samples_step(o); } @*/
        // If the previous read failed, end iteration.
        if self.has_failed {
            return None;
        }

        // Iterate the samples channel interleaved, so first increment the
        // channel.
        self.channel += 1;

        // If that was the last channel, increment the sample number.
        if self.channel >= self.block.channels() {
            self.channel = 0;
            self.sample += 1;

            // If that was the last sample in the block, decode the next block.
            if self.sample >= self.block.duration() {
                self.sample = 0;

                // Replace the current block with an empty one so that we may
                // reuse the current buffer to decode again.
                let current_block = mem::replace(&mut self.block, Block::empty());

                match self.frame_reader.read_next_or_eof(current_block.into_buffer()) {
                    Ok(Some(next_block)) => {
                        self.block = next_block;
                        /*@ proof { lemma_samples_block(o, *self); } @*/
                    }
                    Ok(None) => {
                        // The stream ended with EOF.
                        // TODO: If a number of samples was specified in the
                        // streaminfo metadata block, verify that we did not
                        // read more or less samples.
                        return None;
                    }
                    Err(error) => {
                        self.has_failed = true;
                        return Some(Err(error));
                    }
                }
            }
        }

        Some(Ok(self.block.sample(self.channel, self.sample)))
    }
}

impl<R: ReadBytes> Iterator for FlacIntoSamples<R> {
    type Item = Result<i32>;

    fn next(&mut self) -> Option<Self::Item>
    /*@ requires old(self).inner.wf(),
        ensures yields(old(self).inner, final(self).inner, r),
    @*/
    {
        self.inner.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>)
    /*@ ensures r.0 <= self.inner.pending().len(), r.1.is_none() @*/
    {
        self.inner.size_hint()
    }
}
