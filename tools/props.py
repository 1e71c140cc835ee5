"""Which functions' contracts make up the argument for each property.

Patterns are matched against the keys of the extraction ("module::item::fn"). A property is decided
by the obligations of the functions in its list; the lemmas it uses are listed under "spec" (any
failed lemma of these spec modules counts as well)."""

BITS = ["input::shift_left", "input::shift_right", "input::impl<R:ReadBytes>Bitstream"]
BUF = ["input::impl<R:io::Read>BufferedReader", "input::impl<R:io::Read>ReadBytes for BufferedReader"]
REF = ["input::impl<'r,R:ReadBytes>ReadBytes for &'r mut R"]
TRAIT = ["input::trait ReadBytes"]
CURSOR = ["input::impl<T:AsRef<[u8]>>ReadBytes for io::Cursor"]
CRC = ["crc::"]
ERR = ["error::"]
RFRAME = ["frame::impl<R:ReadBytes>FrameReader<R>::read_next_or_eof"]

# Panic by design ("not implemented"): their precondition (bulk(), false for the checksum readers) is
# unsatisfiable, and the obligation is that no caller reaches them. Exempt from the vacuity probe.
UNREACHABLE = ["crc::impl<R:ReadBytes>ReadBytes for Crc8Reader<R>::read_into", "crc::impl<R:ReadBytes>ReadBytes for Crc8Reader<R>::skip",
               "crc::impl<R:ReadBytes>ReadBytes for Crc16Reader<R>::read_into", "crc::impl<R:ReadBytes>ReadBytes for Crc16Reader<R>::skip"]

PROPS = {
    "C01": dict(fns=[""], safety=True, cases=6000000, deep=1000000000),
    "C02": dict(fns=BUF + TRAIT + REF, cases=6000000, deep=1000000000),
    "C03": dict(fns=CURSOR + TRAIT + REF, cases=6000000, deep=1000000000),
    "C04": dict(fns=BITS, cases=6000000, deep=1000000000),
    "C05": dict(fns=CRC + ["frame::read_frame_header_or_eof"] + RFRAME, cases=6000000, deep=1000000000),
    "C06": dict(fns=["frame::read_frame_header_or_eof", "frame::impl FrameHeader"], cases=6000000, deep=1000000000),
    "C07": dict(fns=["frame::read_var_length_int", "frame::read_frame_header_or_eof", "frame::impl Block::new", "frame::impl Block::time"] + RFRAME, cases=6000000, deep=1000000000),
    "C08": dict(fns=["subframe::read_subframe_header", "subframe::extend_sign", "subframe::decode_constant", "subframe::decode_verbatim", "subframe::decode"], exact=["subframe::decode"], cases=6000000, deep=1000000000),
    "C09": dict(fns=["subframe::rice_to_signed", "subframe::decode_rice", "subframe::decode_residual"], cases=6000000, deep=1000000000),
    "C10": dict(fns=["subframe::predict_fixed", "subframe::decode_fixed"], cases=6000000, deep=1000000000),
    "C11": dict(fns=["subframe::predict_lpc", "subframe::decode_lpc", "subframe::extend_sign_u16"], cases=6000000, deep=1000000000),
    "C12": dict(fns=["frame::decode_left_side", "frame::decode_right_side", "frame::decode_mid_side"] + RFRAME, cases=6000000, deep=1000000000),
    "C13": dict(fns=RFRAME + ["frame::ensure_buffer_len", "frame::impl Block::new", "frame::impl FrameHeader", "frame::impl<R:ReadBytes>FrameReader", "subframe::decode"], exact=["subframe::decode"], cases=6000000, deep=1000000000),
    "C14": dict(fns=["error::", "input::trait ReadBytes", "frame::read_var_length_int", "frame::read_frame_header_or_eof", "metadata::read_", "metadata::impl<R:ReadBytes>MetadataBlockReader", "lib::read_stream_header", "lib::impl<R:io::Read>FlacReader<R>::new_ext", "lib::impl<R:ReadBytes>Iterator for FlacSamples", "crc::impl<R:ReadBytes>ReadBytes"] + RFRAME, cases=6000000, deep=1000000000),
    "C15": dict(fns=["frame::impl Block::", "frame::impl<'a>Iterator for StereoSamples"], cases=6000000, deep=1000000000),
    "C16": dict(fns=["lib::impl<R:ReadBytes>Iterator for FlacSamples", "lib::impl<R:ReadBytes>Iterator for FlacIntoSamples", "lib::impl<R:io::Read>FlacReader<R>::samples", "lib::impl<R:io::Read>FlacReader<R>::into_samples", "frame::impl Block::sample", "frame::impl Block::channels", "frame::impl Block::duration", "frame::impl Block::into_buffer", "frame::impl Block::empty"], cases=6000000, deep=1000000000),
    "C17": dict(fns=["metadata::read_streaminfo_block", "metadata::read_metadata_block"], exact=["metadata::read_metadata_block"], cases=6000000, deep=1000000000),
    "C18": dict(fns=["metadata::read_metadata_block", "metadata::read_padding_block", "metadata::read_application_block", "metadata::impl<R:ReadBytes>MetadataBlockReader", "metadata::impl<R:ReadBytes>Iterator for MetadataBlockReader"], cases=6000000, deep=1000000000),
    "C19": dict(fns=["metadata::read_vorbis_comment_block"], cases=6000000, deep=1000000000),
    "C20": dict(fns=["metadata::impl<'a>Tags", "metadata::impl<'a>Iterator for Tags", "metadata::impl<'a>GetTag", "metadata::impl<'a>Iterator for GetTag", "lib::impl<R:io::Read>FlacReader<R>::tags", "lib::impl<R:io::Read>FlacReader<R>::get_tag", "lib::impl<R:io::Read>FlacReader<R>::vendor"], cases=6000000, deep=1000000000),
    "C21": dict(fns=["lib::read_stream_header", "lib::impl<R:io::Read>FlacReader", "lib::impl Default", "lib::impl FlacReaderOptions", "lib::impl FlacReader<fs::File>", "metadata::impl<R:ReadBytes>MetadataBlockReader", "metadata::impl<R:ReadBytes>Iterator for MetadataBlockReader"], cases=6000000, deep=1000000000),
    "C22": dict(fns=["metadata::read_vorbis_comment_block", "metadata::read_application_block", "metadata::read_metadata_block", "metadata::read_padding_block", "metadata::read_streaminfo_block"], cases=6000000, deep=1000000000),
}

def in_prop(pid, key):
    p = PROPS[pid]
    ex = p.get("exact", [])
    for f in p["fns"]:
        if f in ex:
            if key == f:
                return True
        elif key.startswith(f):
            return True
    return False
