// CRC-8 (polynomial x^8 + x^2 + x + 1) and CRC-16 (x^16 + x^15 + x^2 + 1), initial value 0,
// most significant bit first, by polynomial division one bit at a time.

pub open spec fn crc8_shift(c: u8) -> u8 {
    if c & 0x80u8 != 0 { (c << 1u8) ^ 0x07u8 } else { c << 1u8 }
}
pub open spec fn crc8_shift8(c: u8) -> u8 {
    crc8_shift(crc8_shift(crc8_shift(crc8_shift(crc8_shift(crc8_shift(crc8_shift(crc8_shift(c))))))))
}
pub open spec fn crc16_shift(c: u16) -> u16 {
    if c & 0x8000u16 != 0 { (c << 1u16) ^ 0x8005u16 } else { c << 1u16 }
}
pub open spec fn crc16_shift8(c: u16) -> u16 {
    crc16_shift(crc16_shift(crc16_shift(crc16_shift(crc16_shift(crc16_shift(crc16_shift(crc16_shift(c))))))))
}

/// The checksum after one more byte.
#[verifier::opaque]
pub open spec fn crc8_step(c: u8, b: u8) -> u8 { crc8_shift8(c ^ b) }
#[verifier::opaque]
pub open spec fn crc16_step(c: u16, b: u8) -> u16 { crc16_shift8(c ^ ((b as u16) << 8u16)) }

/// The checksum of a sequence of bytes.
pub open spec fn crc8(s: Seq<u8>) -> u8
    decreases s.len()
{
    if s.len() == 0 { 0 } else { crc8_step(crc8(s.drop_last()), s.last()) }
}
pub open spec fn crc16(s: Seq<u8>) -> u16
    decreases s.len()
{
    if s.len() == 0 { 0 } else { crc16_step(crc16(s.drop_last()), s.last()) }
}

/// Entry i and all further entries of the table are right.
pub open spec fn chk8(t: [u8; 256], i: int) -> bool
    decreases 256 - i
{
    i >= 256 || (t@[i] == crc8_shift8(i as u8) && chk8(t, i + 1))
}
pub open spec fn chk16(t: [u16; 256], i: int) -> bool
    decreases 256 - i
{
    i >= 256 || (t@[i] == crc16_shift8((i as u16) << 8u16) && chk16(t, i + 1))
}

pub proof fn lemma_chk8(t: [u8; 256], i: int, n: int)
    requires chk8(t, i), i <= n < 256
    ensures t@[n] == crc8_shift8(n as u8)
    decreases n - i
{
    if i < n { lemma_chk8(t, i + 1, n); }
}
pub proof fn lemma_chk16(t: [u16; 256], i: int, n: int)
    requires chk16(t, i), i <= n < 256
    ensures t@[n] == crc16_shift8((n as u16) << 8u16)
    decreases n - i
{
    if i < n { lemma_chk16(t, i + 1, n); }
}

pub proof fn lemma_crc8_table(t: [u8; 256], c: u8, b: u8)
    requires chk8(t, 0)
    ensures t@[(c ^ b) as int] == crc8_step(c, b)
{
    lemma_chk8(t, 0, (c ^ b) as int);
    reveal(crc8_step);
}

/// The table form of the CRC-16 step, for every way of splitting it into bytes that agrees with
/// shifting.
pub proof fn lemma_crc16_table(t: [u16; 256], c: u16, b: u8)
    requires chk16(t, 0)
    ensures
        (c << 8u16) ^ t@[(((c >> 8u16) as u8) ^ b) as int] == crc16_step(c, b),
        (c << 8) ^ t@[(((c >> 8) as u8) ^ b) as int] == crc16_step(c, b),
{
    let k = ((c >> 8u16) as u8) ^ b;
    let x = c ^ ((b as u16) << 8u16);
    lemma_chk16(t, 0, k as int);
    lemma_crc16_linear(x);
    assert((k as u16) << 8u16 == (x >> 8u16) << 8u16) by(bit_vector)
        requires k == ((c >> 8u16) as u8) ^ b, x == c ^ ((b as u16) << 8u16);
    assert(x << 8u16 == c << 8u16) by(bit_vector) requires x == c ^ ((b as u16) << 8u16);
    reveal(crc16_step);
    assert(c << 8 == c << 8u16) by(bit_vector);
    assert(c >> 8 == c >> 8u16) by(bit_vector);
}

pub proof fn lemma_crc16_linear(x: u16)
    ensures crc16_shift8(x) == (x << 8u16) ^ crc16_shift8(((x >> 8u16) << 8u16))
{
    assert(crc16_shift8(x) == (x << 8u16) ^ crc16_shift8(((x >> 8u16) << 8u16))) by(bit_vector);
}

/// The accumulated state of a checksumming reader over `s` is the checksum from the initial
/// state, and the inner source has accumulated the same bytes.
pub proof fn lemma_steps_crc8<R: ReadBytes>(a: (u8, R::Acc), s: Seq<u8>)
    ensures
        steps::<Crc8Reader<R>>(a, s).1 == steps::<R>(a.1, s),
        a.0 == 0 ==> steps::<Crc8Reader<R>>(a, s).0 == crc8(s),
    decreases s.len()
{
    if s.len() > 0 { lemma_steps_crc8::<R>(a, s.drop_last()); }
}
pub proof fn lemma_steps_crc16<R: ReadBytes>(a: (u16, R::Acc), s: Seq<u8>)
    ensures
        steps::<Crc16Reader<R>>(a, s).1 == steps::<R>(a.1, s),
        a.0 == 0 ==> steps::<Crc16Reader<R>>(a, s).0 == crc16(s),
    decreases s.len()
{
    if s.len() > 0 { lemma_steps_crc16::<R>(a, s.drop_last()); }
}

pub proof fn lemma_adv_crc8<R: ReadBytes>()
    ensures
        forall|o: Crc8Reader<R>, n: Crc8Reader<R>| #[trigger] adv(o, n) ==> adv(o.inner, n.inner)
            && (o.state == 0 ==> n.state == crc8(o.inner.rem().take(o.inner.rem().len() - n.inner.rem().len()))),
        forall|o: Crc8Reader<R>, n: Crc8Reader<R>, k: int| #[trigger] adv_by(o, n, k) ==> adv_by(o.inner, n.inner, k)
            && (o.state == 0 ==> n.state == crc8(o.inner.rem().take(k))),
        forall|o: Crc8Reader<R>, n: Crc8Reader<R>| n.state == o.state && n.inner.acc() == o.inner.acc() && n.inner.rem() == o.inner.rem()
            ==> #[trigger] adv(o, n) && adv_by(o, n, 0),
{
    reveal(adv);
    reveal(adv_by);
    assert forall|o: Crc8Reader<R>, n: Crc8Reader<R>| #[trigger] adv(o, n) implies adv(o.inner, n.inner)
            && (o.state == 0 ==> n.state == crc8(o.inner.rem().take(o.inner.rem().len() - n.inner.rem().len()))) by {
        lemma_steps_crc8::<R>(o.acc(), o.rem().take(o.rem().len() - n.rem().len()));
    }
    assert forall|o: Crc8Reader<R>, n: Crc8Reader<R>, k: int| #[trigger] adv_by(o, n, k) implies adv_by(o.inner, n.inner, k)
            && (o.state == 0 ==> n.state == crc8(o.inner.rem().take(k))) by {
        lemma_steps_crc8::<R>(o.acc(), o.rem().take(k));
    }
    assert forall|o: Crc8Reader<R>, n: Crc8Reader<R>| n.state == o.state && n.inner.acc() == o.inner.acc() && n.inner.rem() == o.inner.rem()
            implies #[trigger] adv(o, n) && adv_by(o, n, 0) by {
        lemma_adv_id(o, n);
    }
}

pub proof fn lemma_adv_crc16<R: ReadBytes>()
    ensures
        forall|o: Crc16Reader<R>, n: Crc16Reader<R>| #[trigger] adv(o, n) ==> adv(o.inner, n.inner)
            && (o.state == 0 ==> n.state == crc16(o.inner.rem().take(o.inner.rem().len() - n.inner.rem().len()))),
        forall|o: Crc16Reader<R>, n: Crc16Reader<R>, k: int| #[trigger] adv_by(o, n, k) ==> adv_by(o.inner, n.inner, k)
            && (o.state == 0 ==> n.state == crc16(o.inner.rem().take(k))),
        forall|o: Crc16Reader<R>, n: Crc16Reader<R>| n.state == o.state && n.inner.acc() == o.inner.acc() && n.inner.rem() == o.inner.rem()
            ==> #[trigger] adv(o, n) && adv_by(o, n, 0),
{
    reveal(adv);
    reveal(adv_by);
    assert forall|o: Crc16Reader<R>, n: Crc16Reader<R>| #[trigger] adv(o, n) implies adv(o.inner, n.inner)
            && (o.state == 0 ==> n.state == crc16(o.inner.rem().take(o.inner.rem().len() - n.inner.rem().len()))) by {
        lemma_steps_crc16::<R>(o.acc(), o.rem().take(o.rem().len() - n.rem().len()));
    }
    assert forall|o: Crc16Reader<R>, n: Crc16Reader<R>, k: int| #[trigger] adv_by(o, n, k) implies adv_by(o.inner, n.inner, k)
            && (o.state == 0 ==> n.state == crc16(o.inner.rem().take(k))) by {
        lemma_steps_crc16::<R>(o.acc(), o.rem().take(k));
    }
    assert forall|o: Crc16Reader<R>, n: Crc16Reader<R>| n.state == o.state && n.inner.acc() == o.inner.acc() && n.inner.rem() == o.inner.rem()
            implies #[trigger] adv(o, n) && adv_by(o, n, 0) by {
        lemma_adv_id(o, n);
    }
}

/// One byte through a checksumming reader.
pub proof fn lemma_adv_crc8_one<R: ReadBytes>(o: Crc8Reader<R>, n: Crc8Reader<R>)
    requires adv_by(o.inner, n.inner, 1), n.state == crc8_step(o.state, o.inner.rem()[0])
    ensures adv_by(o, n, 1), adv(o, n)
{
    reveal(adv_by);
    let t = o.inner.rem().take(1);
    assert(t.drop_last() =~= Seq::<u8>::empty());
    assert(t.last() == o.inner.rem()[0]);
    assert(steps::<R>(o.inner.acc(), t.drop_last()) == o.inner.acc());
    lemma_adv_one(o, n);
}
pub proof fn lemma_adv_crc16_one<R: ReadBytes>(o: Crc16Reader<R>, n: Crc16Reader<R>)
    requires adv_by(o.inner, n.inner, 1), n.state == crc16_step(o.state, o.inner.rem()[0])
    ensures adv_by(o, n, 1), adv(o, n)
{
    reveal(adv_by);
    let t = o.inner.rem().take(1);
    assert(t.drop_last() =~= Seq::<u8>::empty());
    assert(t.last() == o.inner.rem()[0]);
    assert(steps::<R>(o.inner.acc(), t.drop_last()) == o.inner.acc());
    lemma_adv_one(o, n);
}

/// The source behind a checksumming reader.
#[verifier::prophetic]
pub open spec fn source8<'a, R: ReadBytes>(c: Crc8Reader<&'a mut R>) -> R { *c.inner }
#[verifier::prophetic]
pub open spec fn source16<'a, R: ReadBytes>(c: Crc16Reader<&'a mut R>) -> R { *c.inner }

/// Everything that is read through a fresh checksumming reader of a borrowed source, relative to its start.
pub proof fn lemma_crc8_from<'a: 'a, R: ReadBytes>(c: Crc8Reader<&'a mut R>)
    requires c.state == 0
    ensures
        forall|n: Crc8Reader<&'a mut R>| #[trigger] adv(c, n) ==> adv::<R>(source8(c), *n.inner),
        forall|n: Crc8Reader<&'a mut R>, k: int| #[trigger] adv_by(c, n, k) ==> adv_by::<R>(source8(c), *n.inner, k) && n.state == crc8(source8(c).rem().take(k)),
{
    lemma_adv_crc8::<&'a mut R>();
    lemma_adv_deref::<R>();
}

/// Everything that is read through a fresh checksumming reader of a borrowed source, relative to its start.
pub proof fn lemma_crc16_from<'a: 'a, R: ReadBytes>(c: Crc16Reader<&'a mut R>)
    requires c.state == 0
    ensures
        forall|n: Crc16Reader<&'a mut R>| #[trigger] adv(c, n) ==> adv::<R>(source16(c), *n.inner),
        forall|n: Crc16Reader<&'a mut R>, k: int| #[trigger] adv_by(c, n, k) ==> adv_by::<R>(source16(c), *n.inner, k) && n.state == crc16(source16(c).rem().take(k)),
{
    lemma_adv_crc16::<&'a mut R>();
    lemma_adv_deref::<R>();
}
