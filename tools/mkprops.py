#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state], mechanism=[dict(name=m, where=', '.join(files)) for m in mechanism])))
SRC = "src/"
p("C01", "No input makes the decoder panic, overflow or hang",
  "For every byte sequence, and for every way in which the underlying reader delivers it or fails, opening a stream, reading its metadata and decoding its frames or samples ends in a value or an error: never in a panic, an arithmetic overflow, an out-of-bounds access or an endless loop. This also holds for invalid, hostile and truncated streams, and for readers that report more bytes than they were given room for.",
  ["inputs", "fault_sequences"], "all byte strings, all sequences of read results of the source, all user-supplied sample buffers",
  "Fuzz samples and the test files reach a tiny part of the input space; overflow at block sizes, orders, shifts and counters near their limits is never exercised by the 54 tests.",
  ["src/input.rs", "src/frame.rs", "src/subframe.rs", "src/metadata.rs", "src/crc.rs", "src/lib.rs"],
  ["range checks before every slice, shift and subtraction", "wrapping arithmetic on decoded samples", "loops bounded by the input or by a field width"])
p("C02", "Buffered input delivers the source's bytes exactly, however chunked",
  "Reading through the buffered reader, by single bytes, fixed-width integers, whole buffers or skips in any mix, yields exactly the bytes of the underlying source, in order, none lost, repeated or invented, independently of how many bytes each read of the source returns. If a read of the source fails, that error is returned, no byte that was delivered before is delivered again, and reading may be resumed. End of input is reported only when the source is exhausted.",
  ["inputs", "fault_sequences", "histories"], "all source contents, all splits of it into reads, all positions of failures, all sequences of read operations",
  "The tests use an in-memory cursor of at most a few bytes or a file, which always fill the whole buffer; refills, short reads and failures in the middle are not reached.",
  ["src/input.rs"], ["the buffer window [pos, num_valid) followed by the source's remaining bytes is the logical stream", "refill only when the window is empty"],
  [("pos", "first byte of the buffer that was not consumed", "src/input.rs BufferedReader"), ("num_valid", "number of meaningful bytes in the buffer", "src/input.rs BufferedReader")])
p("C03", "In-memory input reads are exact, bounded and all-or-nothing",
  "Reading from an in-memory cursor by bytes, whole buffers or skips yields the bytes at the cursor's position and advances it by exactly that amount. A buffer read or a skip that asks for more bytes than remain fails without moving the cursor, whatever the position and the size, also when the position lies far beyond the end.",
  ["inputs", "histories"], "all contents, all positions (64 bit), all request sizes",
  "Tests read a nine-byte vector from position 0; positions beyond the end and sums near the integer limits are not sampled.",
  ["src/input.rs"], ["comparison of position and request with the length before copying"])
p("C04", "Bit-level reads return exactly the stream's bits",
  "A bit reader yields the bits of its bytes most significant first: a fixed-width read of n bits returns the number formed by the next n bits, and a unary read returns the number of zero bits before the next one bit and consumes that one bit too. Any mix of such reads consumes exactly the bits it returned, wherever in a byte it starts, and fails only if the bits run out or the source fails.",
  ["inputs", "histories"], "all byte strings, all sequences of read widths, all bit offsets",
  "The tests read a handful of fixed patterns; the state space of 8 offsets x 33 widths x contents x unary runs crossing bytes is not covered.",
  ["src/input.rs"], ["left-aligned partial byte plus count of its valid bits", "shift-and-mask composition across byte boundaries"],
  [("data", "partial byte, unread bits left aligned, rest zero", "src/input.rs Bitstream"), ("bits_left", "number of unread bits in data, below 8 between calls", "src/input.rs Bitstream")])
p("C05", "Both frame checksums are computed right and enforced",
  "A frame is delivered only if the CRC-8 (polynomial x^8+x^2+x+1) over its header and the CRC-16 (polynomial x^16+x^15+x^2+1) over the whole frame, both with initial value 0, equal the stored checksums. A mismatch of either is always an error, and a frame whose checksums are right is never rejected because of them.",
  ["inputs"], "all frames, all corruptions of them",
  "Tests check the checksum readers on a few bytes and decode only intact files; table entries and the byte ranges covered are not pinned down.",
  ["src/crc.rs", "src/frame.rs"], ["256-entry tables equal to the polynomial division of every byte", "checksumming readers wrapped around every read of a header and of a frame"],
  [("state", "checksum of the bytes read so far", "src/crc.rs")])
p("C06", "Frame headers are decoded as the format defines and reserved codes fail",
  "A frame header yields the block size, channel assignment, sample width and position its fields encode, for every code of the format, and reading it consumes exactly the header's bytes. A missing sync code, any reserved or invalid code, and a block size above 65535 are format errors.",
  ["inputs"], "all header byte strings",
  "Real files use a handful of the block size, sample rate, channel and width codes; reserved codes and explicit sizes at the limits do not occur in the test data.",
  ["src/frame.rs"], ["table-driven match on every bit pattern", "explicit fields read after the coded number"])
p("C07", "Coded frame and sample numbers are exact and give the block's position",
  "The variable-length number in a frame header decodes to the value its one to seven bytes encode, and malformed encodings, eight-byte forms and frame numbers above 31 bits are format errors. A block reports as its time the sample number in a variable-blocksize stream, and frame number times block size in a fixed-blocksize stream.",
  ["inputs"], "all encodings of numbers below 2^36, all malformed encodings",
  "Tests decode four short numbers; lengths of five to seven bytes, the 31-bit limit and times beyond 32 bits never occur in the test files.",
  ["src/frame.rs"], ["count of leading ones selects the length", "6 bits from every continuation byte", "64-bit multiplication of frame number and block size"])
p("C08", "Subframe coding, sample widths and wasted bits decode exactly",
  "A subframe's type, order and wasted-bits count are decoded as the format defines and reserved types are format errors. Constant and verbatim subframes yield the sign-extended sample values stored at the effective width, and every sample of a subframe with k wasted bits is the decoded value shifted left by k.",
  ["inputs"], "all subframe headers, all widths from 1 to 32 bits, all sample values, all block sizes",
  "The test files have 16 or 24 bit samples and hardly any constant, verbatim or wasted-bits subframes; extreme values and widths are absent.",
  ["src/subframe.rs"], ["classification of the 6 type bits", "sign extension by shifting", "final left shift of the whole buffer"])
p("C09", "Residuals decode exactly for every Rice coding and partitioning",
  "The residual of a block is decoded with 4-bit or 5-bit Rice parameters as its coding method says, each partition with its own parameter, the first partition shortened by the warm-up samples, and the partitions together covering the block exactly. Each residual is the signed value of (quotient * 2^parameter + remainder) under the zig-zag mapping; reserved methods and partition orders that do not divide the block or leave no room for the warm-up are format errors.",
  ["inputs"], "all bit strings, all parameters 0..30, all partition orders 0..15, all block sizes and warm-up lengths",
  "Real files use method 0 with small parameters; 5-bit parameters, parameters above 8, deep partition orders and quotients spanning many bytes are rare or absent in the test data.",
  ["src/subframe.rs"], ["loop over 2^order partitions with a running start index", "separate code paths for parameters up to 8, above 8, and the 5-bit method"])
p("C10", "Fixed prediction restores the signal exactly",
  "For a fixed-predictor subframe of order k (0 to 4), every sample after the k warm-up samples is the residual plus the order-k polynomial extrapolation of the k samples before it, in 32-bit two's-complement arithmetic, and the warm-up samples are unchanged. It follows that decoding inverts the encoder's differencing for every signal. A subframe with fewer samples than its order is a format error.",
  ["inputs"], "all orders, all buffers, all block lengths including shorter than the order",
  "One buffer of order 3 and one of order 2 are tested.",
  ["src/subframe.rs"], ["window of the previous samples against alternating binomial coefficients"])
p("C11", "Linear prediction restores the signal exactly for every order",
  "For a linear-predictor subframe of any order from 1 to 32, precision from 1 to 15 bits and shift from 0 to 15, every sample after the warm-up is the residual plus the exact inner product of the coefficients, newest sample first, and the previous samples, shifted right arithmetically; the result is truncated to 32 bits and intermediate sums never overflow. The invalid precision code, and a block shorter than the order, are format errors; a negative shift is reported as unsupported.",
  ["inputs"], "all orders, coefficients, shifts, buffers and block lengths",
  "Three buffers are tested; orders other than 7 and 20, blocks around 12 samples and the extremes of coefficients and samples are not.",
  ["src/subframe.rs"], ["64-bit inner product", "specialised loop for orders up to 12 with zero-padded coefficients", "coefficients stored in reverse"])
p("C12", "Stereo decorrelation is inverted losslessly",
  "For every pair of left and right sample values up to 31 bits wide, the left-side, right-side and mid-side representations an encoder computes from them decode back to exactly the original pair, for every sample of the block and in channel order left, right. Wider or inconsistent values never cause a failure.",
  ["inputs"], "all sample pairs, all three representations, all block lengths",
  "Each representation is tested on one buffer of eight pairs; odd differences with negative values and extremes are not covered.",
  ["src/frame.rs"], ["parity of the side channel restores the bit lost by halving the mid channel", "in-place update of both halves of the buffer"])
p("C13", "Each frame becomes the right block, independent of the buffer passed in",
  "Decoding a frame consumes exactly the frame's bytes and yields a block with the channel count and block size of its header, whose samples are exactly those coded in the frame, the channels in order. Neither the length nor the contents of the buffer handed in for reuse, nor earlier frames, influence the result. A sample width that is not given in the header is reported as unsupported.",
  ["inputs", "histories"], "all frames, all channel assignments, all previous buffers, all sequences of frames",
  "Tests decode mono and stereo files in order with a fresh buffer; more channels, shrinking and growing block sizes and dirty buffers are not combined.",
  ["src/frame.rs", "src/subframe.rs"], ["buffer resized to channels times block size", "every sample of the buffer overwritten by the subframes"])
p("C14", "Truncation and I/O failures surface as errors, never as a clean end",
  "The end of the stream is reported only if the source ends exactly where a frame would start; an otherwise valid stream that is cut off anywhere within a frame, or within the stream header or a metadata block, yields an I/O error. Any error of the source is passed on as that I/O error, and no block or metadata is delivered from incomplete data.",
  ["inputs", "fault_sequences", "crash_points"], "all streams, all truncation points, all positions of source failures",
  "The tests decode complete files only; there are as many truncation and failure points as there are bytes.",
  ["src/input.rs", "src/frame.rs", "src/metadata.rs", "src/lib.rs", "src/error.rs"], ["only the first byte of the sync code may be missing", "every read propagates its error"])
p("C15", "Block accessors and the stereo iterator agree with the decoded samples",
  "A block's length is its duration times its channel count, each channel is the consecutive run of duration samples for it, and indexing a sample by channel and position returns that channel's sample at that position. The stereo iterator yields for every position exactly the pair of the two channels' samples, in order, exactly duration times, then ends, and never reads outside the block's buffer; it refuses blocks that do not have two channels.",
  ["inputs", "histories"], "all blocks, all channel and sample indices, all numbers of iterator steps",
  "Two hand-made blocks are tested; the iterator reads without bounds checks, so an error is silent memory unsafety.",
  ["src/frame.rs"], ["channels stored consecutively", "the buffer holds at least twice the duration whenever the iterator exists"],
  [("current_sample", "position of the next pair, at most the duration", "src/frame.rs StereoSamples")])
p("C16", "Sample iteration interleaves all channels of all frames, then stops",
  "Iterating over samples yields every sample of every frame exactly once, frame after frame, within a frame position by position and within a position channel by channel, for any channel count and block sizes. It ends when the stream ends at a frame boundary; if a frame is bad the error is yielded exactly once and nothing is read or yielded after it.",
  ["inputs", "histories"], "all streams, all mixes of block sizes and channel counts, all points at which a frame fails",
  "Tests iterate over mono and stereo files that decode without error.",
  ["src/lib.rs"], ["channel index advances first, then the position, then the next frame is decoded", "a failure flag that ends iteration"],
  [("has_failed", "a frame failed to decode", "src/lib.rs FlacSamples")])
p("C17", "Streaminfo fields are extracted exactly and inconsistent ones rejected",
  "From the 34 bytes of a streaminfo block every field is extracted as the format lays it out: block and frame size bounds, a 20-bit sample rate, channel count, sample width, a 36-bit sample count and the MD5 signature, with zero frame sizes and counts reported as unknown. A block of another length, crossed bounds, a block size below 16 and a sample rate of 0 or above 655350 Hz are format errors.",
  ["inputs"], "all 34-byte blocks, all block lengths",
  "The tests compare five real files; sample counts above 32 bits, bounds and extreme fields do not occur.",
  ["src/metadata.rs"], ["shifts and masks stitching fields that straddle bytes", "range checks before the result is built"])
p("C18", "Metadata blocks are framed exactly and end where they should",
  "A metadata block header gives the last-block flag, a 7-bit type and a 24-bit length, and reading a block consumes exactly that many bytes after the header, whatever its type and contents. Padding, application, and not interpreted blocks are reported with their length or identifier and data unchanged, type 127 is a format error, and iteration over blocks ends after the last block or after the first error.",
  ["inputs", "histories"], "all sequences of metadata blocks, types and lengths",
  "The test files contain four to five of the 128 types with a few lengths.",
  ["src/metadata.rs"], ["dispatch on the type", "skip of the announced length", "done flag of the iterator"],
  [("done", "no more blocks follow, or reading failed", "src/metadata.rs MetadataBlockReader")])
p("C19", "Vorbis comments are parsed exactly or rejected",
  "A Vorbis comment block yields its vendor string and its non-empty comments, in order and byte for byte, each with the position of its first '='; empty comments are skipped. A length that exceeds the block, a count that does not match, excess data, text that is not UTF-8, a missing '=' and a name with bytes outside 0x20..0x7d are format errors.",
  ["inputs"], "all block contents and block lengths",
  "The tests check the tags of a few files written by one encoder; inconsistent lengths and counts are covered by a few fuzz samples only.",
  ["src/metadata.rs"], ["running count of bytes left in the block", "checks of each length prefix against it before allocation"])
p("C20", "Tag listing and lookup return exactly the matching tags",
  "Listing the tags yields every comment once, in order, split at its separator into name and value. Looking up a name yields exactly the values of those comments whose name equals it ignoring ASCII case, in order; a stream without comments yields none.",
  ["inputs", "histories"], "all comment lists, all names looked up",
  "The tests look up two or three names in files with a few tags.",
  ["src/metadata.rs", "src/lib.rs"], ["split at the stored index of '='", "ASCII case-insensitive comparison of the name part"],
  [("index", "the next comment to inspect", "src/metadata.rs GetTag")])
p("C21", "Opening a stream honours its header, its block order and the options",
  "A stream opens only if it starts with the FLAC marker (an ID3 tag is rejected as such) followed by a streaminfo block as first block, with no second streaminfo and at most one Vorbis comment block among the blocks read. Without the metadata-only option all metadata blocks are read and the source is left at the first frame; with it, reading stops as soon as the desired blocks have been found, and audio is refused. Tags are available exactly if reading them was requested and the block was present.",
  ["inputs", "configurations"], "all streams, all option combinations",
  "The tests open files with default options and two others; duplicates, wrong order and stopping points are not tested.",
  ["src/lib.rs", "src/metadata.rs"], ["loop over metadata blocks while something is desired", "reader state records whether audio may be read"])
p("C22", "Hostile metadata cannot make the decoder allocate without bound",
  "Memory set aside for a metadata block is bounded by a small multiple of the block's announced length, and application and Vorbis comment blocks that announce more than 10 MiB are rejected as unsupported before anything is allocated for them. String and comment counts inside a block are checked against the block's length before memory is allocated for them.",
  ["inputs"], "all announced lengths and counts",
  "One or two fuzz samples with large counts are tested; the limits themselves and the interplay of nested lengths are not.",
  ["src/metadata.rs"], ["10 MiB limit on block length", "vendor, comment and count limits derived from the length before each allocation"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
