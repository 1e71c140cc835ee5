// Specification vocabulary shared by all modules: byte sources, outcomes, checksums.
// Everything in contracts/spec/ is ghost code, except the functions marked `external_body`,
// which stand for code of the standard library (they are listed as trusted in the evidence).

// ---------------------------------------------------------------- standard library, trusted

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(io::Error);

#[verifier::external_type_specification]
pub struct ExIoErrorKind(io::ErrorKind);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(string::FromUtf8Error);

/// The kind of an I/O error.
pub uninterp spec fn io_kind(e: io::Error) -> io::ErrorKind;

/// Stands for io::Error::new(kind, message).
#[verifier::external_body]
pub fn vx_io_error(k: io::ErrorKind, m: &'static str) -> (r: io::Error)
    ensures io_kind(r) == k
{ io::Error::new(k, m) }

/// The contract of std::io::Read that claxon relies on. `src` are the bytes that the source is
/// still going to deliver, `src_ok` says that it never fails, `src_fault` is the error it reports
/// when it fails next. A reader that claims to have read more than it was given room for (which
/// safe code may do) is covered by the branch `n > len`.
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(ReadSpec via ReadSpecImpl)]
pub trait ExRead {
    type ExternalTraitSpecificationFor: io::Read;
    spec fn src(&self) -> Seq<u8>;
    spec fn src_ok(&self) -> bool;
    spec fn src_fault(&self) -> Option<io::Error>;
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
        ensures
            final(self).src_ok() == old(self).src_ok(),
            final(buf)@.len() == old(buf)@.len(),
            match r {
                Ok(n) if n <= old(buf)@.len() => {
                    &&& n <= old(self).src().len()
                    &&& final(buf)@.take(n as int) =~= old(self).src().take(n as int)
                    &&& final(self).src() == old(self).src().skip(n as int)
                    &&& final(self).src_fault() == old(self).src_fault()
                    &&& (n == 0 && old(buf)@.len() > 0 ==> old(self).src().len() == 0)
                },
                Ok(n) => !old(self).src_ok() && old(self).src_fault().is_none()
                    && final(self).src() == old(self).src(),
                Err(e) => !old(self).src_ok() && final(self).src() == old(self).src()
                    && (old(self).src_fault().is_some() ==> old(self).src_fault() == Some(e)),
            };
}

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ExCursor<T>(io::Cursor<T>);
pub uninterp spec fn cur_pos<T>(c: &io::Cursor<T>) -> u64;
pub uninterp spec fn cur_inner<T>(c: &io::Cursor<T>) -> T;
pub assume_specification<T>[io::Cursor::<T>::position](c: &io::Cursor<T>) -> (r: u64)
    ensures r == cur_pos(c);
pub assume_specification<T>[io::Cursor::<T>::get_ref](c: &io::Cursor<T>) -> (r: &T)
    ensures *r == cur_inner(c);
pub assume_specification<T>[io::Cursor::<T>::set_position](c: &mut io::Cursor<T>, p: u64)
    ensures cur_pos(final(c)) == p, cur_inner(final(c)) == cur_inner(old(c));

/// AsRef: as_ref is taken to return the same slice every time.
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(AsRefSpec via AsRefSpecImpl)]
pub trait ExAsRef<T: PointeeSized>: PointeeSized {
    type ExternalTraitSpecificationFor: AsRef<T>;
    spec fn as_ref_spec(&self) -> &T;
    fn as_ref(&self) -> (r: &T)
        ensures r == self.as_ref_spec();
}

pub assume_specification<T, A: core::alloc::Allocator>[Vec::<T, A>::into_boxed_slice](v: Vec<T, A>) -> (r: Box<[T], A>)
    ensures r@ == v@;

pub assume_specification<T, A: core::alloc::Allocator>[Vec::<T, A>::capacity](v: &Vec<T, A>) -> (r: usize)
    ensures r >= v@.len();

#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: Ord + core::marker::Destruct>[cmp::min::<T>](a: T, b: T) -> (r: T)
    ensures r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) is Less { b } else { a });

pub assume_specification<T>[<T as core::convert::From<T>>::from](t: T) -> (r: T)
    ensures r == t;

// ---------------------------------------------------------------- panics and assertions

/// panic!, unreachable!, a failed debug_assert!: must not be reached.
#[verifier::external_body]
pub fn vx_unreachable() -> !
    requires false
{ panic!() }

/// A panic that is documented behaviour (marked in the contracts): control does not continue.
#[verifier::external_body]
pub fn vx_documented_panic() -> !
{ panic!() }

/// assert! and debug_assert!: the condition is an obligation.
pub fn vx_assert(c: bool)
    requires c
{ }

/// Upper bound on the number of elements that may be allocated in one go (see C22).
pub open spec fn alloc_limit() -> nat { 10 * 1024 * 1024 }

/// Types whose clone is the value itself.
pub trait VxCopy: Copy {
    proof fn same_clone(a: Self, b: Self)
        requires cloned(a, b)
        ensures a == b;
}
impl VxCopy for u8 { proof fn same_clone(a: Self, b: Self) { } }
impl VxCopy for u16 { proof fn same_clone(a: Self, b: Self) { } }
impl VxCopy for u32 { proof fn same_clone(a: Self, b: Self) { } }
impl VxCopy for u64 { proof fn same_clone(a: Self, b: Self) { } }
impl VxCopy for usize { proof fn same_clone(a: Self, b: Self) { } }
impl VxCopy for i8 { proof fn same_clone(a: Self, b: Self) { } }
impl VxCopy for i16 { proof fn same_clone(a: Self, b: Self) { } }
impl VxCopy for i32 { proof fn same_clone(a: Self, b: Self) { } }
impl VxCopy for i64 { proof fn same_clone(a: Self, b: Self) { } }
impl VxCopy for bool { proof fn same_clone(a: Self, b: Self) { } }
/// Stands for vec![x; n].
pub fn vx_vec<T: VxCopy>(x: T, n: usize) -> (r: Vec<T>)
    requires n <= alloc_limit()
    ensures r@ == Seq::new(n as nat, |i: int| x)
{
    let r = vec![x; n];
    proof { assert forall|i: int| 0 <= i < n implies r@[i] == x by { T::same_clone(x, r@[i]); } }
    assert(r@ =~= Seq::new(n as nat, |i: int| x));
    r
}

/// Stands for Vec::with_capacity(n).
pub fn vx_with_capacity<T>(n: usize) -> (r: Vec<T>)
    requires n <= alloc_limit()
    ensures r@ == Seq::<T>::empty()
{ Vec::with_capacity(n) }

/// Bytes that one element takes, at most.
pub uninterp spec fn vx_size<T>() -> int;
#[verifier::external_body]
pub proof fn axiom_sizes()
    ensures vx_size::<u8>() == 1, vx_size::<(String, usize)>() == 32
{}
/// Bytes taken by n elements of the type that v has.
pub open spec fn vx_cost<T>(v: Vec<T>, n: int) -> int { n * vx_size::<T>() }
/// The same, for a function that must not set aside more than `b` bytes in total, of which
/// `a` are spent already.
pub fn vx_vec_in<T: VxCopy>(x: T, n: usize, a: Ghost<int>, b: Ghost<int>) -> (r: Vec<T>)
    requires a@ + n * vx_size::<T>() <= b@, n <= alloc_limit()
    ensures r@ == Seq::new(n as nat, |i: int| x)
{ vx_vec(x, n) }
pub fn vx_with_capacity_in<T>(n: usize, a: Ghost<int>, b: Ghost<int>) -> (r: Vec<T>)
    requires a@ + n * vx_size::<T>() <= b@, n <= alloc_limit()
    ensures r@ == Seq::<T>::empty()
{ vx_with_capacity(n) }

// ---------------------------------------------------------------- byte sources

/// The ghost part of ReadBytes.
pub trait Source: Sized {
    /// The bytes that are still to be read.
    spec fn rem(&self) -> Seq<u8>;
    /// The source never fails.
    spec fn ok(&self) -> bool;
    /// The error that the source reports when it fails next, if it is known.
    spec fn fault(&self) -> Option<io::Error>;
    /// read_into and skip are supported.
    spec fn bulk(&self) -> bool;
    /// The source is positioned beyond the end of its data.
    spec fn past(&self) -> bool;
    /// Representation invariant.
    spec fn valid(&self) -> bool;
    /// Checksums accumulated over the bytes read so far.
    type Acc;
    spec fn acc(&self) -> Self::Acc;
    spec fn step(a: Self::Acc, b: u8) -> Self::Acc;
    /// For borrowed readers: what the lender gets back.
    type Loan;
    #[verifier::prophetic]
    spec fn loan(&self) -> Self::Loan;
}

/// `acc` after the bytes `s` have passed by.
pub open spec fn steps<R: Source>(a: R::Acc, s: Seq<u8>) -> R::Acc
    decreases s.len()
{
    if s.len() == 0 { a } else { R::step(steps::<R>(a, s.drop_last()), s.last()) }
}

pub proof fn lemma_steps_cat<R: Source>(a: R::Acc, s: Seq<u8>, t: Seq<u8>)
    ensures steps::<R>(a, s + t) == steps::<R>(steps::<R>(a, s), t)
    decreases t.len()
{
    if t.len() == 0 {
        assert(s + t =~= s);
    } else {
        lemma_steps_cat::<R>(a, s, t.drop_last());
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert((s + t).last() == t.last());
    }
}

/// What no operation on a source changes.
#[verifier::prophetic]
pub open spec fn same<R: Source>(o: R, n: R) -> bool {
    &&& n.ok() == o.ok()
    &&& n.bulk() == o.bulk()
    &&& n.past() == o.past()
    &&& n.loan() == o.loan()
}

/// `n` is `o` after consuming some bytes of it.
#[verifier::opaque]
pub open spec fn adv<R: Source>(o: R, n: R) -> bool {
    &&& n.rem().len() <= o.rem().len()
    &&& n.rem() =~= o.rem().skip(o.rem().len() - n.rem().len())
    &&& n.acc() == steps::<R>(o.acc(), o.rem().take(o.rem().len() - n.rem().len()))
}

/// `n` is `o` after consuming its first `k` bytes.
#[verifier::opaque]
pub open spec fn adv_by<R: Source>(o: R, n: R, k: int) -> bool {
    &&& 0 <= k <= o.rem().len()
    &&& n.rem() =~= o.rem().skip(k)
    &&& n.acc() == steps::<R>(o.acc(), o.rem().take(k))
}

pub broadcast proof fn lemma_adv_by<R: Source>(o: R, n: R, k: int)
    requires #[trigger] adv_by(o, n, k)
    ensures adv(o, n), 0 <= k <= o.rem().len(), n.rem().len() == o.rem().len() - k,
        n.rem() == o.rem().skip(k), k == 0 ==> n.rem() == o.rem() && n.acc() == o.acc(),
{
    reveal(adv);
    reveal(adv_by);
    if k == 0 { assert(o.rem().skip(0) =~= o.rem()); }
}

pub broadcast proof fn lemma_adv_len<R: Source>(o: R, n: R)
    requires #[trigger] adv(o, n)
    ensures n.rem().len() <= o.rem().len(), n.rem() == o.rem().skip(o.rem().len() - n.rem().len()),
{
    reveal(adv);
}

pub proof fn lemma_adv_id<R: Source>(o: R, n: R)
    requires n.rem() == o.rem(), n.acc() == o.acc()
    ensures adv(o, n), adv_by(o, n, 0)
{
    reveal(adv);
    reveal(adv_by);
    assert(o.rem().skip(0) =~= o.rem());
    assert(o.rem().take(0) =~= Seq::<u8>::empty());
}

pub proof fn lemma_adv_one<R: Source>(o: R, n: R)
    requires o.rem().len() > 0, n.rem() == o.rem().skip(1), n.acc() == R::step(o.acc(), o.rem()[0])
    ensures adv(o, n), adv_by(o, n, 1)
{
    reveal(adv);
    reveal(adv_by);
    let t = o.rem().take(1);
    assert(t.drop_last() =~= Seq::<u8>::empty());
    assert(t.last() == o.rem()[0]);
    assert(steps::<R>(o.acc(), t.drop_last()) == o.acc());
}

pub broadcast proof fn lemma_adv_trans<R: Source>(a: R, b: R, c: R)
    requires #[trigger] adv(a, b), #[trigger] adv(b, c)
    ensures adv(a, c)
{
    reveal(adv);
    let i = a.rem().len() - b.rem().len();
    let j = b.rem().len() - c.rem().len();
    assert(a.rem().skip(i).skip(j) =~= a.rem().skip(i + j));
    lemma_steps_cat::<R>(a.acc(), a.rem().take(i), b.rem().take(j));
    assert(a.rem().take(i) + b.rem().take(j) =~= a.rem().take(i + j));
}

pub broadcast proof fn lemma_adv_by_trans<R: Source>(a: R, b: R, c: R, i: int, j: int)
    requires #[trigger] adv_by(a, b, i), #[trigger] adv_by(b, c, j)
    ensures adv_by(a, c, i + j)
{
    reveal(adv_by);
    assert(a.rem().skip(i).skip(j) =~= a.rem().skip(i + j));
    lemma_steps_cat::<R>(a.acc(), a.rem().take(i), b.rem().take(j));
    assert(a.rem().take(i) + b.rem().take(j) =~= a.rem().take(i + j));
}

pub broadcast group group_adv {
    lemma_adv_by,
    lemma_adv_len,
    lemma_adv_trans,
    lemma_adv_by_trans,
}

pub proof fn lemma_adv_is_by<R: Source>(o: R, n: R)
    requires adv(o, n)
    ensures adv_by(o, n, o.rem().len() - n.rem().len())
{
    reveal(adv);
    reveal(adv_by);
}

/// Everything that is read, relative to the start c. (Unlike group_adv this does not relate all pairs of
/// states, which is what functions with many reads need.)
pub proof fn lemma_from<R: Source>(c: R)
    ensures
        adv(c, c), adv_by(c, c, 0),
        forall|m: R, n: R| #[trigger] adv(c, m) && #[trigger] adv(m, n) ==> adv(c, n),
        forall|m: R, n: R, i: int, j: int| #[trigger] adv_by(c, m, i) && #[trigger] adv_by(m, n, j) ==> adv_by(c, n, i + j),
        forall|m: R, n: R, j: int| #[trigger] adv_by(m, n, j) ==> adv(m, n) && 0 <= j <= m.rem().len(),
        forall|n: R, k: int| #[trigger] adv_by(c, n, k) ==> n.rem() == c.rem().skip(k) && n.rem().len() == c.rem().len() - k && 0 <= k <= c.rem().len(),
{
    lemma_adv_id(c, c);
    assert forall|m: R, n: R| #[trigger] adv(c, m) && #[trigger] adv(m, n) implies adv(c, n) by { lemma_adv_trans(c, m, n); }
    assert forall|m: R, n: R, i: int, j: int| #[trigger] adv_by(c, m, i) && #[trigger] adv_by(m, n, j) implies adv_by(c, n, i + j) by { lemma_adv_by_trans(c, m, n, i, j); }
    assert forall|m: R, n: R, j: int| #[trigger] adv_by(m, n, j) implies adv(m, n) && 0 <= j <= m.rem().len() by { lemma_adv_by(m, n, j); }
    assert forall|n: R, k: int| #[trigger] adv_by(c, n, k) implies n.rem() == c.rem().skip(k) && n.rem().len() == c.rem().len() - k && 0 <= k <= c.rem().len() by { lemma_adv_by(c, n, k); }
}

/// Success: `k` bytes were consumed, in order, and nothing else changed.
#[verifier::prophetic]
pub open spec fn went<R: Source>(o: R, n: R, k: int) -> bool {
    same(o, n) && n.fault() == o.fault() && adv_by(o, n, k)
}

/// Failure: at most, some bytes were consumed.
#[verifier::prophetic]
pub open spec fn stopped<R: Source>(o: R, n: R) -> bool {
    same(o, n) && adv(o, n)
}

/// Failure: nothing was consumed.
#[verifier::prophetic]
pub open spec fn stuck<R: Source>(o: R, n: R) -> bool {
    same(o, n) && adv_by(o, n, 0)
}

/// The I/O error `e` is justified: either the bytes ran out, or the source itself failed with it.
pub open spec fn io_fail<R: Source>(o: R, short: bool, e: io::Error) -> bool {
    ((short || o.past()) && io_kind(e) == io::ErrorKind::UnexpectedEof)
    || (!o.ok() && (o.fault().is_some() ==> o.fault() == Some(e)))
}

// ---------------------------------------------------------------- integers in bytes

pub open spec fn be16(s: Seq<u8>) -> int { s[0] as int * 0x100 + s[1] as int }
pub open spec fn be24(s: Seq<u8>) -> int { s[0] as int * 0x10000 + s[1] as int * 0x100 + s[2] as int }
pub open spec fn be32(s: Seq<u8>) -> int {
    s[0] as int * 0x1000000 + s[1] as int * 0x10000 + s[2] as int * 0x100 + s[3] as int
}
pub open spec fn le32(s: Seq<u8>) -> int {
    s[3] as int * 0x1000000 + s[2] as int * 0x10000 + s[1] as int * 0x100 + s[0] as int
}

pub proof fn lemma_be16(a: u16, b: u16)
    requires a < 256, b < 256
    ensures (a << 8 | b) == a * 256 + b
{
    assert((a << 8 | b) == a * 256 + b) by(bit_vector) requires a < 256, b < 256;
}
pub proof fn lemma_be24(a: u32, b: u32, c: u32)
    requires a < 256, b < 256, c < 256
    ensures (a << 16 | b << 8 | c) == a * 65536 + b * 256 + c
{
    assert((a << 16 | b << 8 | c) == a * 65536 + b * 256 + c) by(bit_vector) requires a < 256, b < 256, c < 256;
}
pub proof fn lemma_be32(a: u32, b: u32, c: u32, d: u32)
    requires a < 256, b < 256, c < 256, d < 256
    ensures (a << 24 | b << 16 | c << 8 | d) == a * 16777216 + b * 65536 + c * 256 + d
{
    assert((a << 24 | b << 16 | c << 8 | d) == a * 16777216 + b * 65536 + c * 256 + d) by(bit_vector)
        requires a < 256, b < 256, c < 256, d < 256;
}

pub proof fn lemma_adv_refl<R: Source>()
    ensures
        forall|o: R, n: R| n.rem() == o.rem() && n.acc() == o.acc() ==> #[trigger] adv(o, n),
        forall|o: R, n: R, k: int| n.rem() == o.rem() && n.acc() == o.acc() && k == 0 ==> #[trigger] adv_by(o, n, k),
        forall|o: R, m: R, n: R| n.rem() == m.rem() && n.acc() == m.acc() && #[trigger] adv(o, m) ==> #[trigger] adv(o, n),
        forall|o: R, m: R, n: R, k: int| o.rem() == m.rem() && o.acc() == m.acc() && #[trigger] adv_by(m, n, k) ==> #[trigger] adv_by(o, n, k),
{
    assert forall|o: R, m: R, n: R, k: int| o.rem() == m.rem() && o.acc() == m.acc() && #[trigger] adv_by(m, n, k) implies #[trigger] adv_by(o, n, k) by {
        reveal(adv_by);
    }
    assert forall|o: R, m: R, n: R| n.rem() == m.rem() && n.acc() == m.acc() && #[trigger] adv(o, m) implies #[trigger] adv(o, n) by {
        reveal(adv);
    }
    assert forall|o: R, n: R| n.rem() == o.rem() && n.acc() == o.acc() implies #[trigger] adv(o, n) by {
        lemma_adv_id(o, n);
    }
    assert forall|o: R, n: R, k: int| n.rem() == o.rem() && n.acc() == o.acc() && k == 0 implies #[trigger] adv_by(o, n, k) by {
        lemma_adv_id(o, n);
    }
}

// Sources without checksums.
pub proof fn lemma_adv_unit_by<R: Source<Acc = ()>>(o: R, n: R, k: int)
    requires 0 <= k <= o.rem().len(), n.rem() == o.rem().skip(k)
    ensures adv_by(o, n, k), adv(o, n)
{
    reveal(adv);
    reveal(adv_by);
}

/// A borrowed source behaves like the source.
pub proof fn lemma_steps_deref<'a: 'a, R: Source>(a: R::Acc, s: Seq<u8>)
    ensures steps::<&'a mut R>(a, s) == steps::<R>(a, s)
    decreases s.len()
{
    if s.len() > 0 { lemma_steps_deref::<'a, R>(a, s.drop_last()); }
}

pub proof fn lemma_adv_deref<'a: 'a, R: Source>()
    ensures
        forall|o: &'a mut R, n: &'a mut R| #[trigger] adv::<&'a mut R>(o, n) == adv::<R>(*o, *n),
        forall|o: &'a mut R, n: &'a mut R, k: int| #[trigger] adv_by::<&'a mut R>(o, n, k) == adv_by::<R>(*o, *n, k),
{
    reveal(adv);
    reveal(adv_by);
    assert forall|o: &'a mut R, n: &'a mut R| #[trigger] adv::<&'a mut R>(o, n) == adv::<R>(*o, *n) by {
        lemma_steps_deref::<'a, R>((*o).acc(), (*o).rem().take((*o).rem().len() - (*n).rem().len()));
    }
    assert forall|o: &'a mut R, n: &'a mut R, k: int| #[trigger] adv_by::<&'a mut R>(o, n, k) == adv_by::<R>(*o, *n, k) by {
        lemma_steps_deref::<'a, R>((*o).acc(), (*o).rem().take(k));
    }
}

impl vstd::std_specs::convert::FromSpecImpl<io::Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: io::Error) -> Error { Error::IoError(e) }
}

impl vstd::std_specs::convert::FromSpecImpl<string::FromUtf8Error> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: string::FromUtf8Error) -> Error { arbitrary() }
}
