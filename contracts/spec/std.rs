// Assumed contracts of std functions that the pinned code does not use; a section is emitted only if the
// current source uses the name it is headed by. Written by hand from std's documentation.
//@ max
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: Ord + core::marker::Destruct>[cmp::max::<T>](a: T, b: T) -> (r: T)
    ensures r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) is Less { a } else { b });
//@ abs
pub assume_specification[i8::abs](x: i8) -> (r: i8) requires x != i8::MIN ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification[i16::abs](x: i16) -> (r: i16) requires x != i16::MIN ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification[i32::abs](x: i32) -> (r: i32) requires x != i32::MIN ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification[i64::abs](x: i64) -> (r: i64) requires x != i64::MIN ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification[isize::abs](x: isize) -> (r: isize) requires x != isize::MIN ensures r == (if x < 0 { -x } else { x as int });
//@ wrapping_neg
pub assume_specification[i8::wrapping_neg](x: i8) -> (r: i8) ensures r == (if x == i8::MIN { x as int } else { -x });
pub assume_specification[i16::wrapping_neg](x: i16) -> (r: i16) ensures r == (if x == i16::MIN { x as int } else { -x });
pub assume_specification[i32::wrapping_neg](x: i32) -> (r: i32) ensures r == (if x == i32::MIN { x as int } else { -x });
pub assume_specification[i64::wrapping_neg](x: i64) -> (r: i64) ensures r == (if x == i64::MIN { x as int } else { -x });
pub assume_specification[isize::wrapping_neg](x: isize) -> (r: isize) ensures r == (if x == isize::MIN { x as int } else { -x });
pub assume_specification[u8::wrapping_neg](x: u8) -> (r: u8) ensures r == (if x == 0 { 0 } else { u8::MAX - x + 1 });
pub assume_specification[u16::wrapping_neg](x: u16) -> (r: u16) ensures r == (if x == 0 { 0 } else { u16::MAX - x + 1 });
pub assume_specification[u32::wrapping_neg](x: u32) -> (r: u32) ensures r == (if x == 0 { 0 } else { u32::MAX - x + 1 });
pub assume_specification[u64::wrapping_neg](x: u64) -> (r: u64) ensures r == (if x == 0 { 0 } else { u64::MAX - x + 1 });
pub assume_specification[usize::wrapping_neg](x: usize) -> (r: usize) ensures r == (if x == 0 { 0 } else { usize::MAX - x + 1 });
//@ wrapping_abs
pub assume_specification[i8::wrapping_abs](x: i8) -> (r: i8) ensures r == (if x < 0 && x != i8::MIN { -x } else { x as int });
pub assume_specification[i16::wrapping_abs](x: i16) -> (r: i16) ensures r == (if x < 0 && x != i16::MIN { -x } else { x as int });
pub assume_specification[i32::wrapping_abs](x: i32) -> (r: i32) ensures r == (if x < 0 && x != i32::MIN { -x } else { x as int });
pub assume_specification[i64::wrapping_abs](x: i64) -> (r: i64) ensures r == (if x < 0 && x != i64::MIN { -x } else { x as int });
pub assume_specification[isize::wrapping_abs](x: isize) -> (r: isize) ensures r == (if x < 0 && x != isize::MIN { -x } else { x as int });
//@ unsigned_abs
pub assume_specification[i8::unsigned_abs](x: i8) -> (r: u8) ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification[i16::unsigned_abs](x: i16) -> (r: u16) ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification[i32::unsigned_abs](x: i32) -> (r: u32) ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification[i64::unsigned_abs](x: i64) -> (r: u64) ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification[isize::unsigned_abs](x: isize) -> (r: usize) ensures r == (if x < 0 { -x } else { x as int });
//@ abs_diff
pub assume_specification[u8::abs_diff](x: u8, y: u8) -> (r: u8) ensures r == (if x < y { y - x } else { x - y });
pub assume_specification[u16::abs_diff](x: u16, y: u16) -> (r: u16) ensures r == (if x < y { y - x } else { x - y });
pub assume_specification[u32::abs_diff](x: u32, y: u32) -> (r: u32) ensures r == (if x < y { y - x } else { x - y });
pub assume_specification[u64::abs_diff](x: u64, y: u64) -> (r: u64) ensures r == (if x < y { y - x } else { x - y });
pub assume_specification[usize::abs_diff](x: usize, y: usize) -> (r: usize) ensures r == (if x < y { y - x } else { x - y });
//@ max_value min_value
pub assume_specification[u8::max_value]() -> (r: u8) ensures r == u8::MAX;
pub assume_specification[u8::min_value]() -> (r: u8) ensures r == u8::MIN;
pub assume_specification[u16::max_value]() -> (r: u16) ensures r == u16::MAX;
pub assume_specification[u16::min_value]() -> (r: u16) ensures r == u16::MIN;
pub assume_specification[u32::max_value]() -> (r: u32) ensures r == u32::MAX;
pub assume_specification[u32::min_value]() -> (r: u32) ensures r == u32::MIN;
pub assume_specification[u64::max_value]() -> (r: u64) ensures r == u64::MAX;
pub assume_specification[u64::min_value]() -> (r: u64) ensures r == u64::MIN;
pub assume_specification[usize::max_value]() -> (r: usize) ensures r == usize::MAX;
pub assume_specification[usize::min_value]() -> (r: usize) ensures r == usize::MIN;
pub assume_specification[i8::max_value]() -> (r: i8) ensures r == i8::MAX;
pub assume_specification[i8::min_value]() -> (r: i8) ensures r == i8::MIN;
pub assume_specification[i16::max_value]() -> (r: i16) ensures r == i16::MAX;
pub assume_specification[i16::min_value]() -> (r: i16) ensures r == i16::MIN;
pub assume_specification[i32::max_value]() -> (r: i32) ensures r == i32::MAX;
pub assume_specification[i32::min_value]() -> (r: i32) ensures r == i32::MIN;
pub assume_specification[i64::max_value]() -> (r: i64) ensures r == i64::MAX;
pub assume_specification[i64::min_value]() -> (r: i64) ensures r == i64::MIN;
pub assume_specification[isize::max_value]() -> (r: isize) ensures r == isize::MAX;
pub assume_specification[isize::min_value]() -> (r: isize) ensures r == isize::MIN;
//@ pow
pub assume_specification[u8::pow](x: u8, n: u32) -> (r: u8) requires u8::MIN <= vstd::arithmetic::power::pow(x as int, n as nat) <= u8::MAX ensures r == vstd::arithmetic::power::pow(x as int, n as nat);
pub assume_specification[u16::pow](x: u16, n: u32) -> (r: u16) requires u16::MIN <= vstd::arithmetic::power::pow(x as int, n as nat) <= u16::MAX ensures r == vstd::arithmetic::power::pow(x as int, n as nat);
pub assume_specification[u32::pow](x: u32, n: u32) -> (r: u32) requires u32::MIN <= vstd::arithmetic::power::pow(x as int, n as nat) <= u32::MAX ensures r == vstd::arithmetic::power::pow(x as int, n as nat);
pub assume_specification[u64::pow](x: u64, n: u32) -> (r: u64) requires u64::MIN <= vstd::arithmetic::power::pow(x as int, n as nat) <= u64::MAX ensures r == vstd::arithmetic::power::pow(x as int, n as nat);
pub assume_specification[usize::pow](x: usize, n: u32) -> (r: usize) requires usize::MIN <= vstd::arithmetic::power::pow(x as int, n as nat) <= usize::MAX ensures r == vstd::arithmetic::power::pow(x as int, n as nat);
pub assume_specification[i8::pow](x: i8, n: u32) -> (r: i8) requires i8::MIN <= vstd::arithmetic::power::pow(x as int, n as nat) <= i8::MAX ensures r == vstd::arithmetic::power::pow(x as int, n as nat);
pub assume_specification[i16::pow](x: i16, n: u32) -> (r: i16) requires i16::MIN <= vstd::arithmetic::power::pow(x as int, n as nat) <= i16::MAX ensures r == vstd::arithmetic::power::pow(x as int, n as nat);
pub assume_specification[i32::pow](x: i32, n: u32) -> (r: i32) requires i32::MIN <= vstd::arithmetic::power::pow(x as int, n as nat) <= i32::MAX ensures r == vstd::arithmetic::power::pow(x as int, n as nat);
pub assume_specification[i64::pow](x: i64, n: u32) -> (r: i64) requires i64::MIN <= vstd::arithmetic::power::pow(x as int, n as nat) <= i64::MAX ensures r == vstd::arithmetic::power::pow(x as int, n as nat);
pub assume_specification[isize::pow](x: isize, n: u32) -> (r: isize) requires isize::MIN <= vstd::arithmetic::power::pow(x as int, n as nat) <= isize::MAX ensures r == vstd::arithmetic::power::pow(x as int, n as nat);
//@ overflowing_add
pub assume_specification[u8::overflowing_add](x: u8, y: u8) -> (r: (u8, bool)) ensures r.1 == (x + y > u8::MAX), r.0 == (if x + y > u8::MAX { x + y - u8::MAX - 1 } else { x + y });
pub assume_specification[u16::overflowing_add](x: u16, y: u16) -> (r: (u16, bool)) ensures r.1 == (x + y > u16::MAX), r.0 == (if x + y > u16::MAX { x + y - u16::MAX - 1 } else { x + y });
pub assume_specification[u32::overflowing_add](x: u32, y: u32) -> (r: (u32, bool)) ensures r.1 == (x + y > u32::MAX), r.0 == (if x + y > u32::MAX { x + y - u32::MAX - 1 } else { x + y });
pub assume_specification[u64::overflowing_add](x: u64, y: u64) -> (r: (u64, bool)) ensures r.1 == (x + y > u64::MAX), r.0 == (if x + y > u64::MAX { x + y - u64::MAX - 1 } else { x + y });
pub assume_specification[usize::overflowing_add](x: usize, y: usize) -> (r: (usize, bool)) ensures r.1 == (x + y > usize::MAX), r.0 == (if x + y > usize::MAX { x + y - usize::MAX - 1 } else { x + y });
//@ overflowing_sub
pub assume_specification[u8::overflowing_sub](x: u8, y: u8) -> (r: (u8, bool)) ensures r.1 == (x < y), r.0 == (if x < y { x - y + u8::MAX + 1 } else { x - y });
pub assume_specification[u16::overflowing_sub](x: u16, y: u16) -> (r: (u16, bool)) ensures r.1 == (x < y), r.0 == (if x < y { x - y + u16::MAX + 1 } else { x - y });
pub assume_specification[u32::overflowing_sub](x: u32, y: u32) -> (r: (u32, bool)) ensures r.1 == (x < y), r.0 == (if x < y { x - y + u32::MAX + 1 } else { x - y });
pub assume_specification[u64::overflowing_sub](x: u64, y: u64) -> (r: (u64, bool)) ensures r.1 == (x < y), r.0 == (if x < y { x - y + u64::MAX + 1 } else { x - y });
pub assume_specification[usize::overflowing_sub](x: usize, y: usize) -> (r: (usize, bool)) ensures r.1 == (x < y), r.0 == (if x < y { x - y + usize::MAX + 1 } else { x - y });
//@ checked_shl
pub assume_specification[u8::checked_shl](x: u8, n: u32) -> (r: Option<u8>) ensures n < u8::BITS ==> r == Some((x << n) as u8), n >= u8::BITS ==> r is None;
pub assume_specification[u16::checked_shl](x: u16, n: u32) -> (r: Option<u16>) ensures n < u16::BITS ==> r == Some((x << n) as u16), n >= u16::BITS ==> r is None;
pub assume_specification[u32::checked_shl](x: u32, n: u32) -> (r: Option<u32>) ensures n < u32::BITS ==> r == Some((x << n) as u32), n >= u32::BITS ==> r is None;
pub assume_specification[u64::checked_shl](x: u64, n: u32) -> (r: Option<u64>) ensures n < u64::BITS ==> r == Some((x << n) as u64), n >= u64::BITS ==> r is None;
pub assume_specification[usize::checked_shl](x: usize, n: u32) -> (r: Option<usize>) ensures n < usize::BITS ==> r == Some((x << n) as usize), n >= usize::BITS ==> r is None;
pub assume_specification[i8::checked_shl](x: i8, n: u32) -> (r: Option<i8>) ensures n < i8::BITS ==> r == Some((x << n) as i8), n >= i8::BITS ==> r is None;
pub assume_specification[i16::checked_shl](x: i16, n: u32) -> (r: Option<i16>) ensures n < i16::BITS ==> r == Some((x << n) as i16), n >= i16::BITS ==> r is None;
pub assume_specification[i32::checked_shl](x: i32, n: u32) -> (r: Option<i32>) ensures n < i32::BITS ==> r == Some((x << n) as i32), n >= i32::BITS ==> r is None;
pub assume_specification[i64::checked_shl](x: i64, n: u32) -> (r: Option<i64>) ensures n < i64::BITS ==> r == Some((x << n) as i64), n >= i64::BITS ==> r is None;
pub assume_specification[isize::checked_shl](x: isize, n: u32) -> (r: Option<isize>) ensures n < isize::BITS ==> r == Some((x << n) as isize), n >= isize::BITS ==> r is None;
//@ checked_shr
pub assume_specification[u8::checked_shr](x: u8, n: u32) -> (r: Option<u8>) ensures n < u8::BITS ==> r == Some((x >> n) as u8), n >= u8::BITS ==> r is None;
pub assume_specification[u16::checked_shr](x: u16, n: u32) -> (r: Option<u16>) ensures n < u16::BITS ==> r == Some((x >> n) as u16), n >= u16::BITS ==> r is None;
pub assume_specification[u32::checked_shr](x: u32, n: u32) -> (r: Option<u32>) ensures n < u32::BITS ==> r == Some((x >> n) as u32), n >= u32::BITS ==> r is None;
pub assume_specification[u64::checked_shr](x: u64, n: u32) -> (r: Option<u64>) ensures n < u64::BITS ==> r == Some((x >> n) as u64), n >= u64::BITS ==> r is None;
pub assume_specification[usize::checked_shr](x: usize, n: u32) -> (r: Option<usize>) ensures n < usize::BITS ==> r == Some((x >> n) as usize), n >= usize::BITS ==> r is None;
pub assume_specification[i8::checked_shr](x: i8, n: u32) -> (r: Option<i8>) ensures n < i8::BITS ==> r == Some((x >> n) as i8), n >= i8::BITS ==> r is None;
pub assume_specification[i16::checked_shr](x: i16, n: u32) -> (r: Option<i16>) ensures n < i16::BITS ==> r == Some((x >> n) as i16), n >= i16::BITS ==> r is None;
pub assume_specification[i32::checked_shr](x: i32, n: u32) -> (r: Option<i32>) ensures n < i32::BITS ==> r == Some((x >> n) as i32), n >= i32::BITS ==> r is None;
pub assume_specification[i64::checked_shr](x: i64, n: u32) -> (r: Option<i64>) ensures n < i64::BITS ==> r == Some((x >> n) as i64), n >= i64::BITS ==> r is None;
pub assume_specification[isize::checked_shr](x: isize, n: u32) -> (r: Option<isize>) ensures n < isize::BITS ==> r == Some((x >> n) as isize), n >= isize::BITS ==> r is None;
//@ to_vec
pub assume_specification<T: Clone>[<[T]>::to_vec](s: &[T]) -> (r: Vec<T>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(s@[i], #[trigger] r@[i]);
//@ clone_from_slice
pub assume_specification<T: Clone>[<[T]>::clone_from_slice](s: &mut [T], t: &[T]) requires old(s)@.len() == t@.len() ensures final(s)@.len() == t@.len(), forall|i: int| 0 <= i < t@.len() ==> cloned::<T>(t@[i], #[trigger] final(s)@[i]);
//@ fill
pub assume_specification<T: Clone>[<[T]>::fill](s: &mut [T], x: T) ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> cloned::<T>(x, #[trigger] final(s)@[i]);
//@ swap
pub assume_specification<T>[<[T]>::swap](s: &mut [T], a: usize, b: usize) requires a < old(s)@.len(), b < old(s)@.len() ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
//@ take
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: Default>[mem::take::<T>](d: &mut T) -> (r: T) ensures r == *old(d);
//@ map_or
pub assume_specification<T, U, F: FnOnce(T) -> U>[Option::<T>::map_or](a: Option<T>, d: U, f: F) -> (r: U)
    requires a is Some ==> f.requires((a->0,))
    ensures a is None ==> r == d, a is Some ==> f.ensures((a->0,), r);
//@ and_then
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[result::Result::<T, E>::and_then](a: result::Result<T, E>, f: F) -> (r: result::Result<U, E>)
    requires a is Ok ==> f.requires((a->Ok_0,))
    ensures a is Err ==> r is Err && r->Err_0 == a->Err_0, a is Ok ==> f.ensures((a->Ok_0,), r);
//@ from_be_bytes from_le_bytes
pub fn vx_u16_be(a: [u8; 2]) -> (r: u16) ensures r == a@[0] * 0x100 + a@[1] { (a[0] as u16) * 0x100 + a[1] as u16 }
pub fn vx_u16_le(a: [u8; 2]) -> (r: u16) ensures r == a@[1] * 0x100 + a@[0] { (a[1] as u16) * 0x100 + a[0] as u16 }
pub fn vx_u32_be(a: [u8; 4]) -> (r: u32) ensures r == a@[0] * 0x100_0000 + a@[1] * 0x1_0000 + a@[2] * 0x100 + a@[3] { (a[0] as u32) * 0x100_0000 + (a[1] as u32) * 0x1_0000 + (a[2] as u32) * 0x100 + a[3] as u32 }
pub fn vx_u32_le(a: [u8; 4]) -> (r: u32) ensures r == a@[3] * 0x100_0000 + a@[2] * 0x1_0000 + a@[1] * 0x100 + a@[0] { (a[3] as u32) * 0x100_0000 + (a[2] as u32) * 0x1_0000 + (a[1] as u32) * 0x100 + a[0] as u32 }
