// ---- strings: UTF-8 (vstd::utf8 defines the encoding of a char sequence) -----------------
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub open spec fn is_utf8(b: Seq<u8>) -> bool { vstd::utf8::valid_utf8(b) }
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification[ std::string::String::len ](s: &std::string::String) -> (r: usize) ensures r == utf8(s@).len();
pub assume_specification[ std::string::String::as_bytes ](s: &std::string::String) -> (r: &[u8]) ensures r@ == utf8(s@);
pub assume_specification[ std::string::String::from_utf8 ](v: Vec<u8>) -> (r: std::result::Result<std::string::String, std::string::FromUtf8Error>)
    ensures r is Ok <==> is_utf8(v@), r is Ok ==> utf8(r->Ok_0@) == v@;
/// a string is determined by its bytes, and its bytes are valid UTF-8
pub proof fn lemma_utf8_inj(a: Seq<char>, b: Seq<char>)
    requires utf8(a) == utf8(b)
    ensures a == b
{ vstd::utf8::encode_utf8_decode_utf8(a); vstd::utf8::encode_utf8_decode_utf8(b); }
pub broadcast proof fn lemma_utf8_valid(a: Seq<char>)
    ensures is_utf8(#[trigger] utf8(a))
{ vstd::utf8::encode_utf8_valid_utf8(a); }
pub broadcast proof fn lemma_to_be_be_b(s: Seq<u8>)
    ensures to_be(#[trigger] be(s), s.len()) == s
{ lemma_to_be_be(s); }
pub broadcast proof fn lemma_to_be_len_b(v: nat, n: nat)
    ensures (#[trigger] to_be(v, n)).len() == n
{ lemma_to_be_len(v, n); }
/// encodings of the fixed-width types
pub open spec fn enc_u8(v: u8) -> Seq<u8> { seq![v] }
pub open spec fn enc_i8(v: i8) -> Seq<u8> { seq![v as u8] }
pub open spec fn enc_u16(v: u16) -> Seq<u8> { to_be(v as nat, 2) }
pub open spec fn enc_i16(v: i16) -> Seq<u8> { to_be(v as u16 as nat, 2) }
pub open spec fn enc_u32(v: u32) -> Seq<u8> { to_be(v as nat, 4) }
pub open spec fn enc_i32(v: i32) -> Seq<u8> { to_be(v as u32 as nat, 4) }
pub open spec fn enc_u64(v: u64) -> Seq<u8> { to_be(v as nat, 8) }
pub open spec fn enc_i64(v: i64) -> Seq<u8> { to_be(v as u64 as nat, 8) }
pub open spec fn enc_f32(v: f32) -> Seq<u8> { to_be(f32_bits(v) as nat, 4) }
pub open spec fn enc_f64(v: f64) -> Seq<u8> { to_be(f64_bits(v) as nat, 8) }
pub proof fn lemma_pow256_u()
    ensures pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000
{ lemma_pow256_vals(); }
/// C04: the encodings are injective, so reading back determines the value bit for bit
pub proof fn lemma_fixed_inj(n: nat, a: nat, b: nat)
    requires a < pow256(n), b < pow256(n), to_be(a, n) == to_be(b, n)
    ensures a == b
{ lemma_be_to_be(a, n); lemma_be_to_be(b, n); }
pub proof fn lemma_i16_inj(a: i16, b: i16) requires a as u16 == b as u16 ensures a == b { assert(a as u16 == b as u16 ==> a == b) by (bit_vector); }
pub proof fn lemma_i8_inj(a: i8, b: i8) requires a as u8 == b as u8 ensures a == b { assert(a as u8 == b as u8 ==> a == b) by (bit_vector); }
pub proof fn lemma_i32_inj(a: i32, b: i32) requires a as u32 == b as u32 ensures a == b { assert(a as u32 == b as u32 ==> a == b) by (bit_vector); }
pub proof fn lemma_i64_inj(a: i64, b: i64) requires a as u64 == b as u64 ensures a == b { assert(a as u64 == b as u64 ==> a == b) by (bit_vector); }
pub open spec fn silint_parse(s: Seq<u8>) -> Option<(i64, int)> { match ilint_parse(s) { Some((v, k)) => Some((zag(v), k)), None => None } }
pub broadcast proof fn lemma_tk1(s: Seq<u8>)
    requires s.len() >= 1
    ensures #[trigger] tk(s, 1) == seq![s[0]]
{ reveal(tk); assert(tk(s, 1) =~= seq![s[0]]); }
/// `String::from(s)` for a string slice
#[verifier::external_body] pub fn string_from(s: &str) -> (r: std::string::String) ensures r@ == s@ { std::string::String::from(s) }
