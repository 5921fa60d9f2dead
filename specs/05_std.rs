// ---- trusted contracts on the standard library ----------------------------------------
#[verifier::external_body] pub struct BoxedError { x: u8 }
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIoError(std::io::Error);

/// A slice or a Vec of bytes never exceeds isize::MAX bytes (language guarantee).
pub broadcast axiom fn axiom_slice_len(s: &[u8])
    ensures #[trigger] s@.len() <= isize::MAX;
pub broadcast axiom fn axiom_vec_len(s: Vec<u8>)
    ensures #[trigger] s@.len() <= isize::MAX;

#[verifier::external_body]
pub fn vx_panic(msg: &str) -> !
    requires false
{ panic!() }

#[verifier::external_body]
pub fn vec_from_elem(e: u8, n: usize) -> (r: Vec<u8>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == e
{ vec![e; n] }

/// N::from_be_bytes / N.to_be_bytes: the standard library is called, the contract is trusted.
#[verifier::external_body] pub fn u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r as nat == be(b@) { u16::from_be_bytes(b) }
#[verifier::external_body] pub fn u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r as nat == be(b@) { u32::from_be_bytes(b) }
#[verifier::external_body] pub fn u64_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r as nat == be(b@) { u64::from_be_bytes(b) }
#[verifier::external_body] pub fn i16_from_be_bytes(b: [u8; 2]) -> (r: i16) ensures r as u16 as nat == be(b@) { i16::from_be_bytes(b) }
#[verifier::external_body] pub fn i32_from_be_bytes(b: [u8; 4]) -> (r: i32) ensures r as u32 as nat == be(b@) { i32::from_be_bytes(b) }
#[verifier::external_body] pub fn i64_from_be_bytes(b: [u8; 8]) -> (r: i64) ensures r as u64 as nat == be(b@) { i64::from_be_bytes(b) }
pub trait VxBe<const N: usize>: Sized { spec fn be_spec(self) -> Seq<u8>; fn vx_to_be_bytes(self) -> (r: [u8; N]) ensures r@ == self.be_spec(); }
impl VxBe<2> for u16 { open spec fn be_spec(self) -> Seq<u8> { to_be(self as nat, 2) } #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() } }
impl VxBe<4> for u32 { open spec fn be_spec(self) -> Seq<u8> { to_be(self as nat, 4) } #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() } }
impl VxBe<8> for u64 { open spec fn be_spec(self) -> Seq<u8> { to_be(self as nat, 8) } #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() } }
impl VxBe<2> for i16 { open spec fn be_spec(self) -> Seq<u8> { to_be(self as u16 as nat, 2) } #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() } }
impl VxBe<4> for i32 { open spec fn be_spec(self) -> Seq<u8> { to_be(self as u32 as nat, 4) } #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() } }
impl VxBe<8> for i64 { open spec fn be_spec(self) -> Seq<u8> { to_be(self as u64 as nat, 8) } #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() } }
impl VxBe<4> for f32 { open spec fn be_spec(self) -> Seq<u8> { to_be(f32_bits(self) as nat, 4) } #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() } }
impl VxBe<8> for f64 { open spec fn be_spec(self) -> Seq<u8> { to_be(f64_bits(self) as nat, 8) } #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() } }
/// IEEE-754 bit pattern of a float (std: to_bits)
pub uninterp spec fn f32_bits(v: f32) -> u32;
pub uninterp spec fn f64_bits(v: f64) -> u64;
pub assume_specification[ f32::to_bits ](v: f32) -> (r: u32) ensures r == f32_bits(v);
pub assume_specification[ f64::to_bits ](v: f64) -> (r: u64) ensures r == f64_bits(v);
pub assume_specification[ f32::from_bits ](v: u32) -> (r: f32) ensures f32_bits(r) == v;
pub assume_specification[ f64::from_bits ](v: u64) -> (r: f64) ensures f64_bits(r) == v;

/// `&mut T -> &mut dyn Reader` / `&mut dyn Writer`: the compiler's unsizing coercion.
#[verifier::external_body]
pub fn dyn_reader<'a, W: crate::io::Reader>(w: &'a mut W) -> (r: &'a mut (dyn crate::io::Reader + 'a))
    ensures (*r).st() == old(w).st(), final(w).st() == final(r).st()
{ w }
#[verifier::external_body]
pub fn dyn_writer<'a, W: crate::io::Writer>(w: &'a mut W) -> (r: &'a mut (dyn crate::io::Writer + 'a))
    ensures (*r).wst() == old(w).wst(), final(w).wst() == final(r).wst()
{ w }
pub assume_specification<T: core::cmp::Ord> [ std::cmp::min ](a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == core::cmp::Ordering::Greater { b } else { a });
pub assume_specification<T: core::cmp::Ord> [ std::cmp::max ](a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == core::cmp::Ordering::Greater { a } else { b });

/// `(a..b).rev()`: proved from vstd's contracts of Range and Rev, kept apart so that loops over it
/// only see this statement.
pub fn vx_rev(a: core::ops::Range<usize>) -> (r: core::iter::Rev<core::ops::Range<usize>>)
    ensures
        vstd::std_specs::iter::IteratorSpec::remaining(&r).len() == (if a.start <= a.end { a.end - a.start } else { 0 }),
        forall|i: int| 0 <= i < a.end - a.start ==> (#[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&r)[i]) == a.end - 1 - i,
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
{
    assert(vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&a));
    assert(vstd::std_specs::iter::IteratorSpec::remaining(&a).len() == (if a.start <= a.end { a.end - a.start } else { 0 }));
    assert(forall|i: int| 0 <= i < a.end - a.start ==> vstd::std_specs::iter::IteratorSpec::remaining(&a)[i] == a.start + i);
    let ghost g = a; let ghost pb = vstd::std_specs::iter::DoubleEndedIteratorSpec::peek_back(&a, 0); // (orders the trait axiom before this proof)
    let r = a.rev();
    assert(vstd::std_specs::iter::IteratorSpec::remaining(&r) == vstd::std_specs::iter::IteratorSpec::remaining(&g).reverse());
    r
}
