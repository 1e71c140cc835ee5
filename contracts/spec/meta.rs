// Metadata: text, streaminfo, blocks, Vorbis comments, tags; in terms of the bytes of the stream.

// ---------------------------------------------------------------- strings and slices

/// The bytes of a string.
pub open spec fn sb(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }

/// Trusted: String::from_utf8 accepts exactly valid UTF-8 and keeps the bytes.
pub assume_specification[String::from_utf8](v: Vec<u8>) -> (r: result::Result<String, string::FromUtf8Error>)
    ensures match r { Ok(s) => vstd::utf8::valid_utf8(v@) && sb(s@) == v@, Err(_) => !vstd::utf8::valid_utf8(v@) };

pub open spec fn lower(b: u8) -> u8 { if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
/// Equal, ignoring ASCII case.
pub open spec fn eq_ci(a: Seq<u8>, b: Seq<u8>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lower(#[trigger] a[i]) == lower(b[i])
}
/// Trusted.
pub assume_specification[str::eq_ignore_ascii_case](a: &str, b: &str) -> (r: bool)
    ensures r == eq_ci(sb(a@), sb(b@));

/// Trusted: the length of a slice's iterator is known exactly.
pub assume_specification<'a, T>[<slice::Iter<'a, T> as Iterator>::size_hint](i: &slice::Iter<'a, T>) -> (r: (usize, Option<usize>))
    ensures r.0 == left(*i).len(), r.1 == Some(r.0);

/// Stands for slicing: x[..n], x[n..], x[m..n], x[..]. The implementations for str and String are trusted
/// (they panic unless the ends lie on character boundaries), those for slices are verified.
pub trait VxSlice {
    type Out: ?Sized;
    spec fn vx_len(&self) -> int;
    spec fn vx_cut(&self, i: int) -> bool;
    spec fn vx_is(&self, o: &Self::Out, i: int, j: int) -> bool;
    fn vx_sub(&self, m: usize, n: usize) -> (r: &Self::Out)
        requires m <= n <= self.vx_len(), self.vx_cut(m as int), self.vx_cut(n as int)
        ensures self.vx_is(r, m as int, n as int);
    fn vx_to(&self, n: usize) -> (r: &Self::Out)
        requires n <= self.vx_len(), self.vx_cut(n as int)
        ensures self.vx_is(r, 0, n as int);
    fn vx_from(&self, n: usize) -> (r: &Self::Out)
        requires n <= self.vx_len(), self.vx_cut(n as int)
        ensures self.vx_is(r, n as int, self.vx_len());
    fn vx_all(&self) -> (r: &Self::Out)
        ensures self.vx_is(r, 0, self.vx_len());
}
impl VxSlice for str {
    type Out = str;
    open spec fn vx_len(&self) -> int { sb(self@).len() as int }
    open spec fn vx_cut(&self, i: int) -> bool { vstd::utf8::is_char_boundary(sb(self@), i) }
    open spec fn vx_is(&self, o: &str, i: int, j: int) -> bool { sb(o@) == sb(self@).subrange(i, j) }
    #[verifier::external_body]
    fn vx_sub(&self, m: usize, n: usize) -> (r: &str) { &self[m..n] }
    #[verifier::external_body]
    fn vx_to(&self, n: usize) -> (r: &str) { &self[..n] }
    #[verifier::external_body]
    fn vx_from(&self, n: usize) -> (r: &str) { &self[n..] }
    fn vx_all(&self) -> (r: &str) {
        proof { assert(sb(self@).subrange(0, sb(self@).len() as int) =~= sb(self@)); }
        self
    }
}
impl VxSlice for String {
    type Out = str;
    open spec fn vx_len(&self) -> int { sb(self@).len() as int }
    open spec fn vx_cut(&self, i: int) -> bool { vstd::utf8::is_char_boundary(sb(self@), i) }
    open spec fn vx_is(&self, o: &str, i: int, j: int) -> bool { sb(o@) == sb(self@).subrange(i, j) }
    fn vx_sub(&self, m: usize, n: usize) -> (r: &str) { self.as_str().vx_sub(m, n) }
    fn vx_to(&self, n: usize) -> (r: &str) { self.as_str().vx_to(n) }
    fn vx_from(&self, n: usize) -> (r: &str) { self.as_str().vx_from(n) }
    fn vx_all(&self) -> (r: &str) { self.as_str().vx_all() }
}
impl<T> VxSlice for [T] {
    type Out = [T];
    open spec fn vx_len(&self) -> int { self@.len() as int }
    open spec fn vx_cut(&self, i: int) -> bool { true }
    open spec fn vx_is(&self, o: &[T], i: int, j: int) -> bool { o@ == self@.subrange(i, j) }
    fn vx_sub(&self, m: usize, n: usize) -> (r: &[T]) { &self[m..n] }
    fn vx_to(&self, n: usize) -> (r: &[T]) { &self[..n] }
    fn vx_from(&self, n: usize) -> (r: &[T]) { &self[n..] }
    fn vx_all(&self) -> (r: &[T]) {
        proof { assert(self@.subrange(0, self@.len() as int) =~= self@); }
        self
    }
}
impl<T> VxSlice for Vec<T> {
    type Out = [T];
    open spec fn vx_len(&self) -> int { self@.len() as int }
    open spec fn vx_cut(&self, i: int) -> bool { true }
    open spec fn vx_is(&self, o: &[T], i: int, j: int) -> bool { o@ == self@.subrange(i, j) }
    fn vx_sub(&self, m: usize, n: usize) -> (r: &[T]) { self.as_slice().vx_sub(m, n) }
    fn vx_to(&self, n: usize) -> (r: &[T]) { self.as_slice().vx_to(n) }
    fn vx_from(&self, n: usize) -> (r: &[T]) { self.as_slice().vx_from(n) }
    fn vx_all(&self) -> (r: &[T]) { self.as_slice().vx_all() }
}

/// Before and after an ASCII byte, a text may be cut.
pub proof fn lemma_ascii_cut(b: Seq<u8>, n: int)
    requires vstd::utf8::valid_utf8(b), 0 <= n < b.len(), b[n] < 0x80
    ensures vstd::utf8::is_char_boundary(b, n), vstd::utf8::is_char_boundary(b, n + 1)
    decreases b.len()
{
    use vstd::utf8::*;
    reveal_with_fuel(is_char_boundary, 3);
    let k = length_of_first_scalar(b);
    if n > 0 {
        assert(n >= k);
        assert(pop_first_scalar(b) =~= b.skip(k as int));
        lemma_ascii_cut(pop_first_scalar(b), n - k);
    }
}

// ---------------------------------------------------------------- streaminfo

pub open spec fn si_rate(s: Seq<u8>) -> int { be16(s.skip(10)) * 16 + s[12] / 16 }
pub open spec fn si_samples(s: Seq<u8>) -> int { (s[13] % 16) * 0x1_0000_0000 + be32(s.skip(14)) }

/// The 34 bytes of a streaminfo block.
pub open spec fn q_streaminfo(s: Seq<u8>) -> Q<()> {
    if s.len() < 34 { Q::Eof }
    else if be16(s) > be16(s.skip(2)) || be16(s) < 16 { Q::Fmt }
    else if be24(s.skip(4)) > be24(s.skip(7)) && be24(s.skip(7)) != 0 { Q::Fmt }
    else if si_rate(s) == 0 || si_rate(s) > 655350 { Q::Fmt }
    else { Q::Ok((), 34) }
}

/// `i` has the contents of the streaminfo block `s`.
pub open spec fn is_streaminfo(i: StreamInfo, s: Seq<u8>) -> bool {
    &&& i.min_block_size == be16(s)
    &&& i.max_block_size == be16(s.skip(2))
    &&& i.min_frame_size == (if be24(s.skip(4)) == 0 { None } else { Some(be24(s.skip(4)) as u32) })
    &&& i.max_frame_size == (if be24(s.skip(7)) == 0 { None } else { Some(be24(s.skip(7)) as u32) })
    &&& i.sample_rate == si_rate(s)
    &&& i.channels == s[12] / 2 % 8 + 1
    &&& i.bits_per_sample == (s[12] % 2) * 16 + s[13] / 16 + 1
    &&& i.samples == (if si_samples(s) == 0 { None } else { Some(si_samples(s) as u64) })
    &&& i.md5sum@ == s.subrange(18, 34)
}

// ---------------------------------------------------------------- Vorbis comments

pub struct VC {
    pub vendor: Seq<u8>,
    /// Each comment with the position of its first '='.
    pub comments: Seq<(Seq<u8>, int)>,
}

/// The position of the first '=', or the length.
pub open spec fn sep(s: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 || s[0] == 0x3d { 0 } else { 1 + sep(s.skip(1)) }
}
pub proof fn lemma_sep(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> #[trigger] s[j] != 0x3d, i == s.len() || s[i] == 0x3d
    ensures sep(s) == i
    decreases s.len()
{
    if i > 0 {
        assert(s[0] != 0x3d);
        assert forall|j: int| 0 <= j < i - 1 implies #[trigger] s.skip(1)[j] != 0x3d by { assert(s.skip(1)[j] == s[j + 1]); }
        lemma_sep(s.skip(1), i - 1);
    }
}

pub open spec fn comment_ok(s: Seq<u8>) -> bool {
    &&& vstd::utf8::valid_utf8(s)
    &&& sep(s) < s.len()
    &&& forall|i: int| 0 <= i < sep(s) ==> 0x20 <= #[trigger] s[i] <= 0x7d
}

/// `m` length-prefixed comments in `left` bytes. Empty comments do not count for the result.
pub open spec fn q_comments(s: Seq<u8>, left: int, m: int) -> Q<Seq<(Seq<u8>, int)>>
    decreases left
{
    if m > 0 && left >= 4 {
        if s.len() < 4 { Q::Eof }
        else {
            let l = le32(s);
            if l > left - 4 { Q::Fmt }
            else if s.len() < 4 + l { Q::Eof }
            else if l > 0 && !comment_ok(s.subrange(4, 4 + l)) { Q::Fmt }
            else {
                match q_comments(s.skip(4 + l), left - 4 - l, m - 1) {
                    Q::Ok(v, k) => Q::Ok(if l > 0 { seq![(s.subrange(4, 4 + l), sep(s.subrange(4, 4 + l)))] + v } else { v }, k + 4 + l),
                    e => e,
                }
            }
        }
    } else if m != 0 || left != 0 { Q::Fmt } else { Q::Ok(Seq::empty(), 0) }
}

/// Comments that were read already, before the outcome for the rest.
pub open spec fn prepend(v: Seq<(Seq<u8>, int)>, k: int, q: Q<Seq<(Seq<u8>, int)>>) -> Q<Seq<(Seq<u8>, int)>> {
    match q { Q::Ok(w, n) => Q::Ok(v + w, k + n), e => e }
}

pub proof fn lemma_comments_step(s: Seq<u8>, left: int, m: int, v: Seq<(Seq<u8>, int)>, k: int)
    requires m > 0, left >= 4, s.len() >= 4, le32(s) <= left - 4, s.len() >= 4 + le32(s), le32(s) == 0 || comment_ok(s.subrange(4, 4 + le32(s)))
    ensures ({
        let l = le32(s);
        let c = s.subrange(4, 4 + l);
        prepend(v, k, q_comments(s, left, m)) == prepend(if l > 0 { v.push((c, sep(c))) } else { v }, k + 4 + l, q_comments(s.skip(4 + l), left - 4 - l, m - 1))
    })
{
    let l = le32(s);
    let c = s.subrange(4, 4 + l);
    match q_comments(s.skip(4 + l), left - 4 - l, m - 1) {
        Q::Ok(w, n) => {
            assert(v + (seq![(c, sep(c))] + w) =~= v.push((c, sep(c))) + w);
        },
        _ => {},
    }
}

pub open spec fn q_vorbis(s: Seq<u8>, len: int) -> Q<VC> {
    if len < 8 { Q::Fmt }
    else if len > 10 * 1024 * 1024 { Q::Uns }
    else if s.len() < 4 { Q::Eof }
    else {
        let vl = le32(s);
        if vl > len - 8 { Q::Fmt }
        else if s.len() < 4 + vl { Q::Eof }
        else if !vstd::utf8::valid_utf8(s.subrange(4, 4 + vl)) { Q::Fmt }
        else if s.len() < 8 + vl { Q::Eof }
        else {
            let n = le32(s.skip(4 + vl));
            if n >= len / 4 { Q::Fmt }
            else {
                match q_comments(s.skip(8 + vl), len - 8 - vl, n) {
                    Q::Ok(v, k) => Q::Ok(VC { vendor: s.subrange(4, 4 + vl), comments: v }, 8 + vl + k),
                    e => qe(e),
                }
            }
        }
    }
}

/// The entries of `c` are the comments `v`.
pub open spec fn is_comments(c: Seq<(String, usize)>, v: Seq<(Seq<u8>, int)>) -> bool {
    &&& c.len() == v.len()
    &&& forall|i: int| 0 <= i < c.len() ==> sb((#[trigger] c[i]).0@) == v[i].0 && c[i].1 == v[i].1
}
pub open spec fn is_vc(c: VorbisComment, v: VC) -> bool {
    sb(c.vendor@) == v.vendor && is_comments(c.comments@, v.comments)
}

pub proof fn lemma_comments_len(s: Seq<u8>, left: int, m: int)
    requires q_comments(s, left, m) is Ok, left >= 0
    ensures q_comments(s, left, m)->Ok_1 == left, left <= s.len()
    decreases left
{
    if m > 0 && left >= 4 {
        lemma_comments_len(s.skip(4 + le32(s)), left - 4 - le32(s), m - 1);
    }
}

// ---------------------------------------------------------------- blocks

pub struct MHdr { pub last: bool, pub ty: int, pub len: int }

pub open spec fn q_mheader(s: Seq<u8>) -> Q<MHdr> {
    if s.len() < 4 { Q::Eof } else { Q::Ok(MHdr { last: s[0] >= 128, ty: (s[0] % 128) as int, len: be24(s.skip(1)) }, 4) }
}

/// The contents of a metadata block.
pub enum MB { Info(Seq<u8>), Pad(int), App(int, Seq<u8>), Vorbis(VC), Reserved }

pub open spec fn q_skipped(s: Seq<u8>, len: int, b: MB) -> Q<MB> {
    if s.len() < len { Q::Eof } else { Q::Ok(b, len) }
}
pub open spec fn q_block(s: Seq<u8>, ty: int, len: int) -> Q<MB> {
    if ty == 0 {
        if len != 34 { Q::Fmt } else { match q_streaminfo(s) { Q::Ok(_, k) => Q::Ok(MB::Info(s.take(34)), k), e => qe(e) } }
    }
    else if ty == 1 || ty == 3 || ty == 5 || ty == 6 { q_skipped(s, len, MB::Pad(len)) }
    else if ty == 2 {
        if len < 4 { Q::Fmt } else if len > 10 * 1024 * 1024 { Q::Uns } else { q_skipped(s, len, MB::App(be32(s), s.subrange(4, len))) }
    }
    else if ty == 4 { match q_vorbis(s, len) { Q::Ok(v, k) => Q::Ok(MB::Vorbis(v), k), e => qe(e) } }
    else if ty == 127 { Q::Fmt }
    else { q_skipped(s, len, MB::Reserved) }
}
/// A block with its header.
pub open spec fn q_whole(s: Seq<u8>) -> Q<(bool, MB)> {
    match q_mheader(s) {
        Q::Ok(h, k) => match q_block(s.skip(4), h.ty, h.len) {
            Q::Ok(b, n) => Q::Ok((h.last, b), 4 + n),
            e => qe(e),
        },
        e => qe(e),
    }
}

pub open spec fn is_block(b: MetadataBlock, v: MB) -> bool {
    match v {
        MB::Info(s) => b is StreamInfo && is_streaminfo(b->StreamInfo_0, s),
        MB::Pad(n) => b is Padding && b->length == n,
        MB::App(id, d) => b is Application && b->id == id && b->data@ == d,
        MB::Vorbis(v) => b is VorbisComment && is_vc(b->VorbisComment_0, v),
        MB::Reserved => b is Reserved,
    }
}

/// Reading a block consumes exactly the length its header announces.
pub proof fn lemma_block_exact(s: Seq<u8>, ty: int, len: int)
    requires q_block(s, ty, len) is Ok, len >= 0
    ensures q_block(s, ty, len)->Ok_1 == len, len <= s.len()
{
    if ty == 4 {
        let vl = le32(s);
        lemma_comments_len(s.skip(8 + vl), len - 8 - vl, le32(s.skip(4 + vl)));
    }
}
pub proof fn lemma_whole_exact(s: Seq<u8>)
    requires q_whole(s) is Ok
    ensures q_whole(s)->Ok_1 == 4 + be24(s.skip(1)), 4 <= q_whole(s)->Ok_1 <= s.len()
{
    lemma_block_exact(s.skip(4), (s[0] % 128) as int, be24(s.skip(1)));
}

// ---------------------------------------------------------------- tags

/// The entries can be split at their separators.
pub open spec fn comments_wf(c: Seq<(String, usize)>) -> bool {
    forall|i: int| 0 <= i < c.len() ==> entry_wf(#[trigger] c[i])
}
#[verifier::prophetic]
pub open spec fn left<'a, T>(i: slice::Iter<'a, T>) -> Seq<&'a T> { vstd::std_specs::iter::IteratorSpec::remaining(&i) }

/// What listing the entries yields: name and value of every comment, in order.
#[verifier::prophetic]
pub open spec fn tags_left(t: Tags) -> Seq<(Seq<u8>, Seq<u8>)> { left(t.iter).map_values(|c: &(String, usize)| (sb(c.0@).take(c.1 as int), sb(c.0@).skip(c.1 + 1))) }
pub open spec fn tags_of(c: Seq<(String, usize)>) -> Seq<(Seq<u8>, Seq<u8>)> { c.map_values(|c: (String, usize)| (sb(c.0@).take(c.1 as int), sb(c.0@).skip(c.1 + 1))) }
#[verifier::prophetic]
pub open spec fn left_wf(t: Tags) -> bool {
    forall|i: int| 0 <= i < left(t.iter).len() ==> entry_wf(*#[trigger] left(t.iter)[i])
}
pub open spec fn entry_wf(c: (String, usize)) -> bool { c.1 < usize::MAX && c.1 < sb(c.0@).len() && sb(c.0@)[c.1 as int] == 0x3d }

/// What looking up the name n in the entries from i on yields: the values whose name matches, in order.
pub open spec fn found(c: Seq<(String, usize)>, n: Seq<u8>, i: int) -> Seq<Seq<u8>>
    decreases c.len() - i
{
    if i < 0 || i >= c.len() { Seq::empty() }
    else if eq_ci(sb(c[i].0@).take(c[i].1 as int), n) { seq![sb(c[i].0@).skip(c[i].1 + 1)] + found(c, n, i + 1) }
    else { found(c, n, i + 1) }
}

/// A Rust string is valid UTF-8.
pub proof fn lemma_str_utf8(s: Seq<char>)
    ensures vstd::utf8::valid_utf8(sb(s))
{
    vstd::utf8::encode_utf8_valid_utf8(s);
}

pub proof fn lemma_mheader_bits()
    ensures
        forall|b: u8| #[trigger] (b >> 7) == (if b >= 128 { 1u8 } else { 0u8 }),
        forall|b: u8| #[trigger] (b & 0b0111_1111) == b % 128,
{
    assert(forall|b: u8| #[trigger] (b >> 7) == (if b >= 128 { 1u8 } else { 0u8 })) by(bit_vector);
    assert(forall|b: u8| #[trigger] (b & 0b0111_1111) == b % 128) by(bit_vector);
}

pub proof fn lemma_streaminfo_bits()
    ensures
        forall|a: u16, b: u8| #[trigger] ((a as u32) << 4 | (b as u32) >> 4) == a * 16 + b / 16,
        forall|b: u8| #[trigger] ((b >> 1) & 0b0000_0111) == b / 2 % 8,
        forall|b: u8| #[trigger] (b & 1) == b % 2,
        forall|a: u8, b: u8| a < 2 ==> #[trigger] (a << 4 | (b >> 4)) == a * 16 + b / 16,
        forall|b: u8| #[trigger] (b & 0b0000_1111) == b % 16,
        forall|a: u8, b: u32| a < 16 ==> #[trigger] ((a as u64) << 32 | b as u64) == a * 0x1_0000_0000 + b,
{
    assert(forall|a: u16, b: u8| #[trigger] ((a as u32) << 4 | (b as u32) >> 4) == a * 16 + b / 16) by(bit_vector);
    assert(forall|b: u8| #[trigger] ((b >> 1) & 0b0000_0111) == b / 2 % 8) by(bit_vector);
    assert(forall|b: u8| #[trigger] (b & 1) == b % 2) by(bit_vector);
    assert(forall|a: u8, b: u8| a < 2 ==> #[trigger] (a << 4 | (b >> 4)) == a * 16 + b / 16) by(bit_vector);
    assert(forall|b: u8| #[trigger] (b & 0b0000_1111) == b % 16) by(bit_vector);
    assert(forall|a: u8, b: u32| a < 16 ==> #[trigger] ((a as u64) << 32 | b as u64) == a * 0x1_0000_0000 + b) by(bit_vector);
}

/// The pieces of an entry.
pub proof fn lemma_entry(c: (String, usize))
    requires entry_wf(c)
    ensures
        vstd::utf8::is_char_boundary(sb(c.0@), c.1 as int), vstd::utf8::is_char_boundary(sb(c.0@), c.1 + 1),
        sb(c.0@).subrange(0, c.1 as int) == sb(c.0@).take(c.1 as int),
        sb(c.0@).subrange(c.1 + 1, sb(c.0@).len() as int) == sb(c.0@).skip(c.1 + 1),
{
    lemma_str_utf8(c.0@);
    lemma_ascii_cut(sb(c.0@), c.1 as int);
    assert(sb(c.0@).subrange(0, c.1 as int) =~= sb(c.0@).take(c.1 as int));
    assert(sb(c.0@).subrange(c.1 + 1, sb(c.0@).len() as int) =~= sb(c.0@).skip(c.1 + 1));
}

pub proof fn lemma_info_take(i: StreamInfo, s: Seq<u8>)
    requires s.len() >= 34
    ensures is_streaminfo(i, s.take(34)) == is_streaminfo(i, s)
{
    let t = s.take(34);
    assert(forall|k: int, j: int| 0 <= k && 0 <= j && k + j < 34 ==> #[trigger] t.skip(k)[j] == s.skip(k)[j]);
    assert(t.subrange(18, 34) =~= s.subrange(18, 34));
}
