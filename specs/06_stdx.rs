pub open spec fn vx_eq<T>(a: T, b: T) -> bool { a == b }
#[verifier::external_trait_specification] pub trait ExDestruct: core::marker::PointeeSized { type ExternalTraitSpecificationFor: core::marker::Destruct; }
// ---- more of std (assumed, exact) : only used when the code under verification calls them ----
pub assume_specification<T, E, F> [ std::result::Result::<T, E>::or ](a: std::result::Result<T, E>, b: std::result::Result<T, F>) -> (r: std::result::Result<T, F>)
    where E: core::marker::Destruct, F: core::marker::Destruct, T: core::marker::Destruct,
    ensures r == (match a { Ok(v) => Ok(v), Err(_) => b });
pub assume_specification<T, E, U> [ std::result::Result::<T, E>::and ](a: std::result::Result<T, E>, b: std::result::Result<U, E>) -> (r: std::result::Result<U, E>)
    where T: core::marker::Destruct, U: core::marker::Destruct, E: core::marker::Destruct,
    ensures r == (match a { Ok(_) => b, Err(e) => Err(e) });
pub assume_specification<T, E> [ std::result::Result::<T, E>::unwrap_or ](a: std::result::Result<T, E>, b: T) -> (r: T)
    where T: core::marker::Destruct, E: core::marker::Destruct,
    ensures r == (match a { Ok(v) => v, Err(_) => b });
pub assume_specification<T, E, F: FnOnce(T) -> bool> [ std::result::Result::<T, E>::is_ok_and ](a: std::result::Result<T, E>, f: F) -> (r: bool)
    where T: core::marker::Destruct, E: core::marker::Destruct, F: core::marker::Destruct,
    requires a matches Ok(v) ==> call_requires(f, (v,))
    ensures match a { Ok(v) => call_ensures(f, (v,), r), Err(_) => !r };
pub assume_specification<T, E, U, F: FnOnce(T) -> std::result::Result<U, E>> [ std::result::Result::<T, E>::and_then ](a: std::result::Result<T, E>, f: F) -> (r: std::result::Result<U, E>)
    where F: core::marker::Destruct,
    requires a matches Ok(v) ==> call_requires(f, (v,))
    ensures match a { Ok(v) => call_ensures(f, (v,), r), Err(e) => r == std::result::Result::<U, E>::Err(e) };
pub assume_specification<T, E, U, F: FnOnce(E) -> std::result::Result<T, U>> [ std::result::Result::<T, E>::or_else ](a: std::result::Result<T, E>, f: F) -> (r: std::result::Result<T, U>)
    where F: core::marker::Destruct,
    requires a matches Err(e) ==> call_requires(f, (e,))
    ensures match a { Err(e) => call_ensures(f, (e,), r), Ok(v) => r == std::result::Result::<T, U>::Ok(v) };
pub assume_specification<T, E, F: FnOnce(E) -> T> [ std::result::Result::<T, E>::unwrap_or_else ](a: std::result::Result<T, E>, f: F) -> (r: T)
    where F: core::marker::Destruct,
    requires a matches Err(e) ==> call_requires(f, (e,))
    ensures match a { Err(e) => call_ensures(f, (e,), r), Ok(v) => r == v };
pub assume_specification<T, E, U, F: FnOnce(T) -> U> [ std::result::Result::<T, E>::map_or ](a: std::result::Result<T, E>, d: U, f: F) -> (r: U)
    where T: core::marker::Destruct, E: core::marker::Destruct, F: core::marker::Destruct, U: core::marker::Destruct,
    requires a matches Ok(v) ==> call_requires(f, (v,))
    ensures match a { Ok(v) => call_ensures(f, (v,), r), Err(_) => r == d };
pub assume_specification<T> [ std::option::Option::<T>::or ](a: std::option::Option<T>, b: std::option::Option<T>) -> (r: std::option::Option<T>)
    where T: core::marker::Destruct,
    ensures r == (if a is Some { a } else { b });
pub assume_specification<T, U> [ std::option::Option::<T>::and ](a: std::option::Option<T>, b: std::option::Option<U>) -> (r: std::option::Option<U>)
    where T: core::marker::Destruct, U: core::marker::Destruct,
    ensures r == (if a is Some { b } else { None });
pub assume_specification<T> [ std::option::Option::<T>::xor ](a: std::option::Option<T>, b: std::option::Option<T>) -> (r: std::option::Option<T>)
    where T: core::marker::Destruct,
    ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
pub assume_specification<T> [ std::option::Option::<T>::replace ](a: &mut std::option::Option<T>, b: T) -> (r: std::option::Option<T>)
    ensures r == *old(a), *final(a) == Some(b);
pub assume_specification<T, F: FnOnce(T) -> bool> [ std::option::Option::<T>::is_some_and ](a: std::option::Option<T>, f: F) -> (r: bool)
    where F: core::marker::Destruct,
    requires a matches Some(v) ==> call_requires(f, (v,))
    ensures match a { Some(v) => call_ensures(f, (v,), r), None => !r };
pub assume_specification<T, F: FnOnce(T) -> bool> [ std::option::Option::<T>::is_none_or ](a: std::option::Option<T>, f: F) -> (r: bool)
    where F: core::marker::Destruct,
    requires a matches Some(v) ==> call_requires(f, (v,))
    ensures match a { Some(v) => call_ensures(f, (v,), r), None => r };
pub assume_specification<T, U, F: FnOnce(T) -> U> [ std::option::Option::<T>::map_or ](a: std::option::Option<T>, d: U, f: F) -> (r: U)
    where F: core::marker::Destruct, U: core::marker::Destruct,
    requires a matches Some(v) ==> call_requires(f, (v,))
    ensures match a { Some(v) => call_ensures(f, (v,), r), None => r == d };
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [ std::option::Option::<T>::map_or_else ](a: std::option::Option<T>, d: D, f: F) -> (r: U)
    where F: core::marker::Destruct, D: core::marker::Destruct,
    requires a matches Some(v) ==> call_requires(f, (v,)), a is None ==> call_requires(d, ())
    ensures match a { Some(v) => call_ensures(f, (v,), r), None => call_ensures(d, (), r) };
pub assume_specification<T, P: FnOnce(&T) -> bool> [ std::option::Option::<T>::filter ](a: std::option::Option<T>, f: P) -> (r: std::option::Option<T>)
    where P: core::marker::Destruct, T: core::marker::Destruct,
    requires a matches Some(v) ==> call_requires(f, (&v,))
    ensures match a { Some(v) => call_ensures(f, (&v,), r is Some) && (r is Some ==> r == a), None => r is None };
pub assume_specification<T, F: FnOnce() -> std::option::Option<T>> [ std::option::Option::<T>::or_else ](a: std::option::Option<T>, f: F) -> (r: std::option::Option<T>)
    where F: core::marker::Destruct, T: core::marker::Destruct,
    requires a is None ==> call_requires(f, ())
    ensures match a { Some(v) => r == a, None => call_ensures(f, (), r) };
pub assume_specification<'a, T: Copy> [ std::option::Option::<&'a T>::copied ](a: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    ensures r == (match a { Some(v) => Some(*v), None => None });
pub assume_specification<T> [ std::mem::replace ](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification<T> [ std::mem::drop ](a: T);
pub assume_specification<T> [ bool::then_some ](a: bool, b: T) -> (r: std::option::Option<T>)
    where T: core::marker::Destruct,
    ensures r == (if a { Some(b) } else { None });
pub assume_specification<T, A: std::alloc::Allocator> [ std::vec::Vec::<T, A>::capacity ](a: &std::vec::Vec<T, A>) -> (r: usize) ensures r >= a@.len();
pub assume_specification<T, A: std::alloc::Allocator> [ std::vec::Vec::<T, A>::shrink_to_fit ](a: &mut std::vec::Vec<T, A>) ensures final(a)@ == old(a)@;
pub assume_specification<T, A: std::alloc::Allocator> [ std::vec::Vec::<T, A>::reserve_exact ](a: &mut std::vec::Vec<T, A>, n: usize) ensures final(a)@ == old(a)@;
pub assume_specification<T: Clone> [ <[T]>::to_vec ](s: &[T]) -> (r: std::vec::Vec<T>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned::<T>(s@[i], #[trigger] r@[i]);
pub assume_specification<T> [ <[T]>::swap ](s: &mut [T], a: usize, b: usize) requires a < old(s)@.len(), b < old(s)@.len() ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T> [ <[T]>::reverse ](s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T: Clone> [ <[T]>::fill ](s: &mut [T], v: T) ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> vstd::pervasive::cloned::<T>(v, #[trigger] final(s)@[i]);
pub assume_specification[ std::string::String::with_capacity ](n: usize) -> (r: std::string::String) ensures r@ == Seq::<char>::empty();
pub assume_specification[ std::string::String::into_bytes ](s: std::string::String) -> (r: std::vec::Vec<u8>) ensures r@ == utf8(s@);
pub assume_specification[ std::cmp::Ordering::reverse ](a: std::cmp::Ordering) -> (r: std::cmp::Ordering) ensures r == (match a { std::cmp::Ordering::Less => std::cmp::Ordering::Greater, std::cmp::Ordering::Equal => std::cmp::Ordering::Equal, std::cmp::Ordering::Greater => std::cmp::Ordering::Less });
pub assume_specification[ std::cmp::Ordering::then ](a: std::cmp::Ordering, b: std::cmp::Ordering) -> (r: std::cmp::Ordering) ensures r == (if a == std::cmp::Ordering::Equal { b } else { a });
pub assume_specification[ std::cmp::Ordering::is_lt ](a: std::cmp::Ordering) -> (r: bool) ensures r == (a == std::cmp::Ordering::Less);
pub assume_specification[ std::cmp::Ordering::is_gt ](a: std::cmp::Ordering) -> (r: bool) ensures r == (a == std::cmp::Ordering::Greater);
pub assume_specification[ std::cmp::Ordering::is_eq ](a: std::cmp::Ordering) -> (r: bool) ensures r == (a == std::cmp::Ordering::Equal);
pub assume_specification[ std::cmp::Ordering::is_ne ](a: std::cmp::Ordering) -> (r: bool) ensures r == (a != std::cmp::Ordering::Equal);
pub assume_specification[ std::cmp::Ordering::is_le ](a: std::cmp::Ordering) -> (r: bool) ensures r == (a != std::cmp::Ordering::Greater);
pub assume_specification[ std::cmp::Ordering::is_ge ](a: std::cmp::Ordering) -> (r: bool) ensures r == (a != std::cmp::Ordering::Less);
pub assume_specification[ i8::abs ](a: i8) -> (r: i8) requires a > i8::MIN ensures r == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i8::unsigned_abs ](a: i8) -> (r: u8) ensures r == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i8::is_negative ](a: i8) -> (r: bool) ensures r == (a < 0);
pub assume_specification[ i8::is_positive ](a: i8) -> (r: bool) ensures r == (a > 0);
pub assume_specification[ i8::signum ](a: i8) -> (r: i8) ensures r == (if a < 0 { -1int } else if a == 0 { 0int } else { 1int });
pub assume_specification[ i8::wrapping_neg ](a: i8) -> (r: i8) ensures r == (if a == i8::MIN { a as int } else { -(a as int) });
pub assume_specification[ i16::abs ](a: i16) -> (r: i16) requires a > i16::MIN ensures r == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i16::unsigned_abs ](a: i16) -> (r: u16) ensures r == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i16::is_negative ](a: i16) -> (r: bool) ensures r == (a < 0);
pub assume_specification[ i16::is_positive ](a: i16) -> (r: bool) ensures r == (a > 0);
pub assume_specification[ i16::signum ](a: i16) -> (r: i16) ensures r == (if a < 0 { -1int } else if a == 0 { 0int } else { 1int });
pub assume_specification[ i16::wrapping_neg ](a: i16) -> (r: i16) ensures r == (if a == i16::MIN { a as int } else { -(a as int) });
pub assume_specification[ i32::abs ](a: i32) -> (r: i32) requires a > i32::MIN ensures r == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i32::unsigned_abs ](a: i32) -> (r: u32) ensures r == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i32::is_negative ](a: i32) -> (r: bool) ensures r == (a < 0);
pub assume_specification[ i32::is_positive ](a: i32) -> (r: bool) ensures r == (a > 0);
pub assume_specification[ i32::signum ](a: i32) -> (r: i32) ensures r == (if a < 0 { -1int } else if a == 0 { 0int } else { 1int });
pub assume_specification[ i32::wrapping_neg ](a: i32) -> (r: i32) ensures r == (if a == i32::MIN { a as int } else { -(a as int) });
pub assume_specification[ i64::abs ](a: i64) -> (r: i64) requires a > i64::MIN ensures r == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i64::unsigned_abs ](a: i64) -> (r: u64) ensures r == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i64::is_negative ](a: i64) -> (r: bool) ensures r == (a < 0);
pub assume_specification[ i64::is_positive ](a: i64) -> (r: bool) ensures r == (a > 0);
pub assume_specification[ i64::signum ](a: i64) -> (r: i64) ensures r == (if a < 0 { -1int } else if a == 0 { 0int } else { 1int });
pub assume_specification[ i64::wrapping_neg ](a: i64) -> (r: i64) ensures r == (if a == i64::MIN { a as int } else { -(a as int) });
pub assume_specification[ u8::abs_diff ](a: u8, b: u8) -> (r: u8) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification[ u8::div_ceil ](a: u8, b: u8) -> (r: u8) requires b > 0 ensures r == (if a % b == 0 { a as int / b as int } else { a as int / b as int + 1 });
pub assume_specification[ u8::overflowing_add ](a: u8, b: u8) -> (r: (u8, bool)) ensures r.1 == (a + b > u8::MAX), r.0 == (if a + b > u8::MAX { a + b - u8::MAX - 1 } else { a + b });
pub assume_specification[ u8::overflowing_sub ](a: u8, b: u8) -> (r: (u8, bool)) ensures r.1 == (a < b), r.0 == (if a < b { a - b + u8::MAX + 1 } else { a - b });
pub assume_specification[ u16::abs_diff ](a: u16, b: u16) -> (r: u16) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification[ u16::div_ceil ](a: u16, b: u16) -> (r: u16) requires b > 0 ensures r == (if a % b == 0 { a as int / b as int } else { a as int / b as int + 1 });
pub assume_specification[ u16::overflowing_add ](a: u16, b: u16) -> (r: (u16, bool)) ensures r.1 == (a + b > u16::MAX), r.0 == (if a + b > u16::MAX { a + b - u16::MAX - 1 } else { a + b });
pub assume_specification[ u16::overflowing_sub ](a: u16, b: u16) -> (r: (u16, bool)) ensures r.1 == (a < b), r.0 == (if a < b { a - b + u16::MAX + 1 } else { a - b });
pub assume_specification[ u32::abs_diff ](a: u32, b: u32) -> (r: u32) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification[ u32::div_ceil ](a: u32, b: u32) -> (r: u32) requires b > 0 ensures r == (if a % b == 0 { a as int / b as int } else { a as int / b as int + 1 });
pub assume_specification[ u32::overflowing_add ](a: u32, b: u32) -> (r: (u32, bool)) ensures r.1 == (a + b > u32::MAX), r.0 == (if a + b > u32::MAX { a + b - u32::MAX - 1 } else { a + b });
pub assume_specification[ u32::overflowing_sub ](a: u32, b: u32) -> (r: (u32, bool)) ensures r.1 == (a < b), r.0 == (if a < b { a - b + u32::MAX + 1 } else { a - b });
pub assume_specification[ u64::abs_diff ](a: u64, b: u64) -> (r: u64) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification[ u64::div_ceil ](a: u64, b: u64) -> (r: u64) requires b > 0 ensures r == (if a % b == 0 { a as int / b as int } else { a as int / b as int + 1 });
pub assume_specification[ u64::overflowing_add ](a: u64, b: u64) -> (r: (u64, bool)) ensures r.1 == (a + b > u64::MAX), r.0 == (if a + b > u64::MAX { a + b - u64::MAX - 1 } else { a + b });
pub assume_specification[ u64::overflowing_sub ](a: u64, b: u64) -> (r: (u64, bool)) ensures r.1 == (a < b), r.0 == (if a < b { a - b + u64::MAX + 1 } else { a - b });
pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (if a % b == 0 { a as int / b as int } else { a as int / b as int + 1 });
pub assume_specification[ usize::overflowing_add ](a: usize, b: usize) -> (r: (usize, bool)) ensures r.1 == (a + b > usize::MAX), r.0 == (if a + b > usize::MAX { a + b - usize::MAX - 1 } else { a + b });
pub assume_specification[ usize::overflowing_sub ](a: usize, b: usize) -> (r: (usize, bool)) ensures r.1 == (a < b), r.0 == (if a < b { a - b + usize::MAX + 1 } else { a - b });
pub assume_specification[ f32::is_nan ](v: f32) -> (r: bool) ensures r == ((f32_bits(v) & 2147483647) > 2139095040);
pub assume_specification[ f32::is_infinite ](v: f32) -> (r: bool) ensures r == ((f32_bits(v) & 2147483647) == 2139095040);
pub assume_specification[ f32::is_finite ](v: f32) -> (r: bool) ensures r == ((f32_bits(v) & 2147483647) < 2139095040);
pub assume_specification[ f32::is_sign_negative ](v: f32) -> (r: bool) ensures r == (f32_bits(v) >= 2147483648);
pub assume_specification[ f32::is_sign_positive ](v: f32) -> (r: bool) ensures r == (f32_bits(v) <= 2147483647);
pub assume_specification[ f64::is_nan ](v: f64) -> (r: bool) ensures r == ((f64_bits(v) & 9223372036854775807) > 9218868437227405312);
pub assume_specification[ f64::is_infinite ](v: f64) -> (r: bool) ensures r == ((f64_bits(v) & 9223372036854775807) == 9218868437227405312);
pub assume_specification[ f64::is_finite ](v: f64) -> (r: bool) ensures r == ((f64_bits(v) & 9223372036854775807) < 9218868437227405312);
pub assume_specification[ f64::is_sign_negative ](v: f64) -> (r: bool) ensures r == (f64_bits(v) >= 9223372036854775808);
pub assume_specification[ f64::is_sign_positive ](v: f64) -> (r: bool) ensures r == (f64_bits(v) <= 9223372036854775807);
