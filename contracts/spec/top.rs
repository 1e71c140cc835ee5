// The decoder as a whole: opening a stream, iterating over its samples.

/// Trusted.
pub assume_specification<T>[mem::replace::<T>](d: &mut T, s: T) -> (r: T)
    ensures r == *old(d), *final(d) == s;

// ---------------------------------------------------------------- opening

/// The four bytes "fLaC".
pub open spec fn is_marker(s: Seq<u8>) -> bool { s.len() >= 4 && be32(s) == 0x664c6143 }
/// An ID3 tag.
pub open spec fn is_id3(s: Seq<u8>) -> bool { s.len() >= 4 && s[0] == 0x49 && s[1] == 0x44 && s[2] == 0x33 }
pub open spec fn q_marker(s: Seq<u8>) -> Q<()> {
    if s.len() < 4 { Q::Eof } else if be32(s) != 0x664c6143 { Q::Fmt } else { Q::Ok((), 4) }
}
/// Streams that start with an ID3 tag get a message of their own.
pub open spec fn id3_told(s: Seq<u8>, e: Error) -> bool {
    e is FormatError && s.len() >= 4 && be32(s) != 0x664c6143
        ==> (is_id3(s) <==> (e->FormatError_0)@ == "stream starts with ID3 header rather than FLAC header"@)
}

/// The blocks after the first one. `last`: the block before was the last one; `have`: the Vorbis
/// comments read so far; `only`, `want`: the options metadata_only and read_vorbis_comment.
pub open spec fn q_more(s: Seq<u8>, last: bool, have: Option<VC>, only: bool, want: bool) -> Q<Option<VC>>
    decreases s.len()
{
    if last || (only && !(want && have is None)) { Q::Ok(have, 0) }
    else {
        match q_whole(s) {
            Q::Ok(b, k) => {
                if b.1 is Info { Q::Fmt }
                else if b.1 is Vorbis && have is Some { Q::Fmt }
                else if 0 < k <= s.len() {
                    match q_more(s.skip(k), b.0, if b.1 is Vorbis { Some(b.1->Vorbis_0) } else { have }, only, want) {
                        Q::Ok(v, n) => Q::Ok(v, k + n),
                        e => e,
                    }
                } else { arbitrary() }
            },
            e => qe(e),
        }
    }
}
pub open spec fn more_after(k: int, q: Q<Option<VC>>) -> Q<Option<VC>> {
    match q { Q::Ok(v, n) => Q::Ok(v, k + n), e => e }
}

/// Opening the stream `s`: the streaminfo, the Vorbis comments, and the bytes this takes.
pub open spec fn q_open(s: Seq<u8>, only: bool, want: bool) -> Q<(Seq<u8>, Option<VC>)> {
    match q_marker(s) {
        Q::Ok(_, _) => match q_whole(s.skip(4)) {
            Q::Ok(b, k) => {
                if !(b.1 is Info) { Q::Fmt }
                else {
                    match q_more(s.skip(4 + k), b.0, None, only, want) {
                        Q::Ok(v, n) => Q::Ok((b.1->Info_0, if want { v } else { None }), 4 + k + n),
                        e => qe(e),
                    }
                }
            },
            e => qe(e),
        },
        e => qe(e),
    }
}

/// The error `e` is justified by the outcome `q` of the specification, or by the source.
pub open spec fn src_err<R: io::Read, T>(o: R, q: Q<T>, e: Error) -> bool {
    match e {
        Error::IoError(x) => (q is Eof && io_kind(x) == io::ErrorKind::UnexpectedEof)
            || (!o.src_ok() && (o.src_fault().is_some() ==> o.src_fault() == Some(x))) || q is Big,
        Error::FormatError(_) => q is Fmt,
        Error::Unsupported(_) => q is Uns,
    }
}

pub open spec fn is_opt_vc(c: Option<VorbisComment>, v: Option<VC>) -> bool {
    match c { Some(x) => v is Some && is_vc(x, v->Some_0) && comments_wf(x.comments@), None => v is None }
}

/// `f` is what opening the stream of `o` yields.
pub open spec fn opened<R: io::Read>(o: R, only: bool, want: bool, f: FlacReader<R>) -> bool {
    let q = q_open(o.src(), only, want);
    &&& f.wf()
    &&& q is Ok
    &&& is_streaminfo(f.streaminfo, q->Ok_0.0)
    &&& is_opt_vc(f.vorbis_comment, q->Ok_0.1)
    &&& (f.input is MetadataOnly <==> only)
    &&& 0 <= q->Ok_1 <= o.src().len()
    &&& f.reader().rest() == o.src().skip(q->Ok_1)
    &&& f.reader().inner.src_ok() == o.src_ok()
    &&& f.reader().inner.src_fault() == o.src_fault()
}

/// Parsed comments can be split at their separators.
pub proof fn lemma_comments_wf(s: Seq<u8>, left: int, m: int)
    requires q_comments(s, left, m) is Ok
    ensures ({
        let v = q_comments(s, left, m)->Ok_0;
        forall|i: int| 0 <= i < v.len() ==> 0 <= (#[trigger] v[i]).1 < v[i].0.len() && v[i].0.len() <= left && v[i].0[v[i].1] == 0x3d
    })
    decreases left
{
    if m > 0 && left >= 4 {
        let l = le32(s);
        lemma_comments_wf(s.skip(4 + l), left - 4 - l, m - 1);
        lemma_sep_at(s.subrange(4, 4 + l));
    }
}
pub proof fn lemma_sep_at(s: Seq<u8>)
    ensures 0 <= sep(s) <= s.len(), sep(s) < s.len() ==> s[sep(s)] == 0x3d
    decreases s.len()
{
    if s.len() > 0 && s[0] != 0x3d { lemma_sep_at(s.skip(1)); }
}
pub proof fn lemma_vorbis_wf(c: VorbisComment, s: Seq<u8>, len: int)
    requires q_vorbis(s, len) is Ok, is_vc(c, q_vorbis(s, len)->Ok_0)
    ensures comments_wf(c.comments@)
{
    let vl = le32(s);
    let v = q_vorbis(s, len)->Ok_0.comments;
    lemma_comments_wf(s.skip(8 + vl), len - 8 - vl, le32(s.skip(4 + vl)));
    assert forall|i: int| 0 <= i < c.comments@.len() implies entry_wf(#[trigger] c.comments@[i]) by {
        assert(v[i].0.len() <= len);
    }
}
pub proof fn lemma_block_wf(b: MetadataBlock, s: Seq<u8>)
    requires q_whole(s) is Ok, is_block(b, q_whole(s)->Ok_0.1)
    ensures b is VorbisComment ==> comments_wf(b->VorbisComment_0.comments@)
{
    if b is VorbisComment {
        lemma_vorbis_wf(b->VorbisComment_0, s.skip(4), be24(s.skip(1)));
    }
}

// ---------------------------------------------------------------- samples

/// The samples of a frame, channel by channel within each position.
pub open spec fn frame_samples(f: Frame) -> Seq<i32> {
    let n = hdr_channels(f.hdr.chan) as int;
    Seq::new((f.hdr.bs * n) as nat, |i: int| block_sample(f.hdr.chan, f.chs, i % n, i / n))
}
/// The same for a block.
pub open spec fn block_samples(b: Block) -> Seq<i32> {
    let n = b.channels as int;
    Seq::new((b.block_size * n) as nat, |i: int| b.buffer@[(i % n) * b.block_size + i / n])
}
/// All samples of the frames in s, up to the end of the stream or the first bad frame.
pub open spec fn all_samples(s: Seq<u8>) -> Seq<i32>
    decreases s.len()
{
    match q_frame(s) {
        Q::Ok(f, k) => if 0 < k <= s.len() { frame_samples(f) + all_samples(s.skip(k)) } else { Seq::empty() },
        _ => Seq::empty(),
    }
}

pub proof fn lemma_index(s: int, c: int, n: int, m: int)
    requires 0 <= c < n, 0 <= s < m
    ensures (s * n + c) % n == c, (s * n + c) / n == s, 0 <= s * n + c < m * n
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(s * n + c, n, s, c);
    assert(s * n + c < m * n) by(nonlinear_arith) requires 0 <= c < n, 0 <= s < m;
    assert(s * n >= 0) by(nonlinear_arith) requires 0 <= s, 0 < n;
}

pub proof fn lemma_block_samples(b: Block, f: Frame)
    requires b.is_frame(f), b.channels >= 1, b.block_size >= 1
    ensures block_samples(b) == frame_samples(f)
{
    let n = b.channels as int;
    let bs = b.block_size as int;
    assert forall|i: int| 0 <= i < bs * n implies block_samples(b)[i] == #[trigger] frame_samples(f)[i] by {
        assert(0 <= i % n < n && 0 <= i / n < bs) by(nonlinear_arith) requires 0 <= i < bs * n, n >= 1;
    }
    assert(block_samples(b) =~= frame_samples(f));
}

pub proof fn lemma_id3_bits(s: Seq<u8>)
    ensures s.len() >= 4 ==> be32(s) <= u32::MAX && ((be32(s) as u32) & 0xff_ff_ff_00 == 0x49_44_33_00u32) == is_id3(s)
{
    if s.len() >= 4 {
        let h = be32(s) as u32;
        assert(h & 0xff_ff_ff_00 == (h / 256) * 256) by(bit_vector);
    }
}

/// The entries of a vector, as a slice.
pub proof fn lemma_all_of(f: Option<VorbisComment>)
    ensures f matches Some(v) ==> v.comments@.subrange(0, v.comments@.len() as int) == v.comments@
{
    match f { Some(v) => { assert(v.comments@.subrange(0, v.comments@.len() as int) =~= v.comments@); }, None => {} }
}

/// One step within a block.
pub proof fn lemma_samples_step<R: ReadBytes>(o: FlacSamples<R>)
    requires o.wf()
    ensures ({
        let b = block_samples(o.block);
        let n = o.block.channels as int;
        let bs = o.block.block_size as int;
        let k = o.sample * n + o.channel + 1;
        let all = all_samples(o.frame_reader.input.rem());
        &&& o.channel + 1 < n ==> k < b.len() && b[k] == o.block.buffer@[(o.channel + 1) * bs + o.sample]
        &&& o.channel + 1 >= n && o.sample + 1 < bs ==> k < b.len() && k == (o.sample + 1) * n && b[k] == o.block.buffer@[0 * bs + o.sample + 1]
        &&& o.channel + 1 >= n && o.sample + 1 >= bs ==> o.pending().len() == 0
        &&& k < b.len() ==> o.pending().len() > 0 && o.todo().len() > 0 && o.todo()[0] == b[k]
            && o.todo().skip(1) == (if k + 1 < b.len() { b.skip(k + 1) } else { Seq::empty() }) + all
    })
{
    let b = block_samples(o.block);
    let n = o.block.channels as int;
    let bs = o.block.block_size as int;
    let s = o.sample as int;
    let k = s * n + o.channel + 1;
    let all = all_samples(o.frame_reader.input.rem());
    if n > 0 {
        assert(bs > 0);
        assert(s < bs && o.channel < n);
        lemma_index(s, o.channel as int, n, bs);
        if o.channel + 1 < n {
            lemma_index(s, o.channel + 1, n, bs);
        } else if s + 1 < bs {
            lemma_index(s + 1, 0, n, bs);
            assert((s + 1) * n == s * n + n) by(nonlinear_arith);
        } else {
            assert((s + 1) * n == s * n + n) by(nonlinear_arith);
            assert(s + 1 == bs);
            assert(k == bs * n);
        }
    } else {
        assert(bs * n == 0) by(nonlinear_arith) requires n == 0;
    }
    if k < b.len() {
        let p = b.skip(k);
        assert(k >= 0) by(nonlinear_arith) requires k == s * n + o.channel + 1, s >= 0, n >= 0, o.channel >= 0;
        assert((p + all).skip(1) =~= (if k + 1 < b.len() { b.skip(k + 1) } else { Seq::empty() }) + all);
    }
}

/// A new block.
pub proof fn lemma_samples_block<R: ReadBytes>(o: FlacSamples<R>, n: FlacSamples<R>)
    requires
        o.pending().len() == 0, n.sample == 0, n.channel == 0,
        q_frame(o.frame_reader.input.rem()) is Ok, n.block.is_frame(q_frame(o.frame_reader.input.rem())->Ok_0),
        0 < q_frame(o.frame_reader.input.rem())->Ok_1 <= o.frame_reader.input.rem().len(),
        n.frame_reader.input.rem() == o.frame_reader.input.rem().skip(q_frame(o.frame_reader.input.rem())->Ok_1),
    ensures
        n.block.block_size > 0, n.block.channels > 0,
        o.todo().len() > 0, n.block.buffer@[0 * n.block.block_size + 0] == o.todo()[0], n.todo() == o.todo().skip(1),
{
    let s = o.frame_reader.input.rem();
    let f = q_frame(s)->Ok_0;
    lemma_header_len(s);
    lemma_block_samples(n.block, f);
    let c = n.block.channels as int;
    let b = block_samples(n.block);
    let rest = all_samples(n.frame_reader.input.rem());
    lemma_index(0, 0, c, n.block.block_size as int);
    assert(b.len() > 0);
    assert(b[0] == n.block.buffer@[(0int % c) * n.block.block_size + 0int / c]);
    assert(o.todo() =~= b + rest);
    assert(o.todo().skip(1) =~= n.todo());
}

// ---------------------------------------------------------------- files

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFile(fs::File);
pub uninterp spec fn file_src(f: &fs::File) -> Seq<u8>;
pub uninterp spec fn file_ok(f: &fs::File) -> bool;
pub uninterp spec fn file_fault(f: &fs::File) -> Option<io::Error>;
impl ReadSpecImpl for fs::File {
    open spec fn src(&self) -> Seq<u8> { file_src(self) }
    open spec fn src_ok(&self) -> bool { file_ok(self) }
    open spec fn src_fault(&self) -> Option<io::Error> { file_fault(self) }
}
/// What opening the file p led to.
pub uninterp spec fn opens<P>(p: P, r: io::Result<fs::File>) -> bool;
/// Stands for AsRef<Path>.
pub trait VxPath: Sized { }
/// Stands for fs::File::open.
#[verifier::external_body]
pub fn vx_file_open<P: VxPath>(p: P) -> (r: io::Result<fs::File>)
    ensures opens(p, r)
{ unimplemented!() }

/// A stream was opened from the file p.
pub open spec fn opened_file<P>(p: P, only: bool, want: bool, r: Result<FlacReader<fs::File>>) -> bool {
    exists|x: io::Result<fs::File>| #[trigger] opens(p, x) && match x {
        Err(e) => r == Err::<FlacReader<fs::File>, Error>(Error::IoError(e)),
        Ok(o) => match r {
            Ok(f) => opened(o, only, want, f),
            Err(e) => src_err(o, q_open(ReadSpec::src(&o), only, want), e) && id3_told(ReadSpec::src(&o), e),
        },
    }
}
