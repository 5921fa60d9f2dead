
// ---- bit arithmetic of byte-wise forms (shifts, masks, joins) --------------------------

proof fn lemma_join16_8(x: u16, y: u16) by (bit_vector)
    requires x & 255u16 == 0, y & !(255u16) == 0
    ensures (x | y) == add(x, y), add(x, y) >= x, (y | x) == add(x, y)
{ }
proof fn lemma_low16_8(x: u16) by (bit_vector)
    ensures x % 256 == 0 ==> x & 255u16 == 0, x < 256 ==> x & !(255u16) == 0
{ }
proof fn lemma_join32_8(x: u32, y: u32) by (bit_vector)
    requires x & 255u32 == 0, y & !(255u32) == 0
    ensures (x | y) == add(x, y), add(x, y) >= x, (y | x) == add(x, y)
{ }
proof fn lemma_low32_8(x: u32) by (bit_vector)
    ensures x % 256 == 0 ==> x & 255u32 == 0, x < 256 ==> x & !(255u32) == 0
{ }
proof fn lemma_join32_16(x: u32, y: u32) by (bit_vector)
    requires x & 65535u32 == 0, y & !(65535u32) == 0
    ensures (x | y) == add(x, y), add(x, y) >= x, (y | x) == add(x, y)
{ }
proof fn lemma_low32_16(x: u32) by (bit_vector)
    ensures x % 65536 == 0 ==> x & 65535u32 == 0, x < 65536 ==> x & !(65535u32) == 0
{ }
proof fn lemma_join32_24(x: u32, y: u32) by (bit_vector)
    requires x & 16777215u32 == 0, y & !(16777215u32) == 0
    ensures (x | y) == add(x, y), add(x, y) >= x, (y | x) == add(x, y)
{ }
proof fn lemma_low32_24(x: u32) by (bit_vector)
    ensures x % 16777216 == 0 ==> x & 16777215u32 == 0, x < 16777216 ==> x & !(16777215u32) == 0
{ }
proof fn lemma_join64_8(x: u64, y: u64) by (bit_vector)
    requires x & 255u64 == 0, y & !(255u64) == 0
    ensures (x | y) == add(x, y), add(x, y) >= x, (y | x) == add(x, y)
{ }
proof fn lemma_low64_8(x: u64) by (bit_vector)
    ensures x % 256 == 0 ==> x & 255u64 == 0, x < 256 ==> x & !(255u64) == 0
{ }
proof fn lemma_join64_16(x: u64, y: u64) by (bit_vector)
    requires x & 65535u64 == 0, y & !(65535u64) == 0
    ensures (x | y) == add(x, y), add(x, y) >= x, (y | x) == add(x, y)
{ }
proof fn lemma_low64_16(x: u64) by (bit_vector)
    ensures x % 65536 == 0 ==> x & 65535u64 == 0, x < 65536 ==> x & !(65535u64) == 0
{ }
proof fn lemma_join64_24(x: u64, y: u64) by (bit_vector)
    requires x & 16777215u64 == 0, y & !(16777215u64) == 0
    ensures (x | y) == add(x, y), add(x, y) >= x, (y | x) == add(x, y)
{ }
proof fn lemma_low64_24(x: u64) by (bit_vector)
    ensures x % 16777216 == 0 ==> x & 16777215u64 == 0, x < 16777216 ==> x & !(16777215u64) == 0
{ }
proof fn lemma_join64_32(x: u64, y: u64) by (bit_vector)
    requires x & 4294967295u64 == 0, y & !(4294967295u64) == 0
    ensures (x | y) == add(x, y), add(x, y) >= x, (y | x) == add(x, y)
{ }
proof fn lemma_low64_32(x: u64) by (bit_vector)
    ensures x % 4294967296 == 0 ==> x & 4294967295u64 == 0, x < 4294967296 ==> x & !(4294967295u64) == 0
{ }
proof fn lemma_join64_40(x: u64, y: u64) by (bit_vector)
    requires x & 1099511627775u64 == 0, y & !(1099511627775u64) == 0
    ensures (x | y) == add(x, y), add(x, y) >= x, (y | x) == add(x, y)
{ }
proof fn lemma_low64_40(x: u64) by (bit_vector)
    ensures x % 1099511627776 == 0 ==> x & 1099511627775u64 == 0, x < 1099511627776 ==> x & !(1099511627775u64) == 0
{ }
proof fn lemma_join64_48(x: u64, y: u64) by (bit_vector)
    requires x & 281474976710655u64 == 0, y & !(281474976710655u64) == 0
    ensures (x | y) == add(x, y), add(x, y) >= x, (y | x) == add(x, y)
{ }
proof fn lemma_low64_48(x: u64) by (bit_vector)
    ensures x % 281474976710656 == 0 ==> x & 281474976710655u64 == 0, x < 281474976710656 ==> x & !(281474976710655u64) == 0
{ }
proof fn lemma_join64_56(x: u64, y: u64) by (bit_vector)
    requires x & 72057594037927935u64 == 0, y & !(72057594037927935u64) == 0
    ensures (x | y) == add(x, y), add(x, y) >= x, (y | x) == add(x, y)
{ }
proof fn lemma_low64_56(x: u64) by (bit_vector)
    ensures x % 72057594037927936 == 0 ==> x & 72057594037927935u64 == 0, x < 72057594037927936 ==> x & !(72057594037927935u64) == 0
{ }
pub broadcast proof fn lemma_shl16_8(x: u16)
    requires x < 256
    ensures (#[trigger] (x << 8)) == x * 256
{ assert((x << 8) == mul(x, 256u16)) by (bit_vector) requires x < 256; assert(x * 256 <= 65535) by (nonlinear_arith) requires x < 256; }
pub broadcast proof fn lemma_shr16_8(x: u16)
    ensures (#[trigger] (x >> 8)) == x / 256
{ assert((x >> 8) == x / 256) by (bit_vector); }
pub broadcast proof fn lemma_or16(x: u16, y: u16)
    requires (x % 256 == 0 && y < 256)
    ensures (#[trigger] (x | y)) == x + y
{ if x % 256 == 0 && y < 256 { lemma_low16_8(x); lemma_low16_8(y); lemma_join16_8(x, y); } }
pub broadcast proof fn lemma_ro16(x: u16, y: u16)
    requires (y % 256 == 0 && x < 256)
    ensures (#[trigger] (x | y)) == x + y
{ assert((x | y) == (y | x)) by (bit_vector); lemma_or16(y, x); }
pub broadcast proof fn lemma_cast16_8(x: u16)
    ensures (#[trigger] (x as u8)) == x % 256
{ assert(x as u8 == x % 256) by (bit_vector); }
pub broadcast proof fn lemma_mask16(x: u16)
    ensures (#[trigger] (x & 255)) == x % 256
{ assert((x & 255) == x % 256) by (bit_vector); }
pub broadcast proof fn lemma_shl32_8(x: u32)
    requires x < 16777216
    ensures (#[trigger] (x << 8)) == x * 256
{ assert((x << 8) == mul(x, 256u32)) by (bit_vector) requires x < 16777216; assert(x * 256 <= 4294967295) by (nonlinear_arith) requires x < 16777216; }
pub broadcast proof fn lemma_shr32_8(x: u32)
    ensures (#[trigger] (x >> 8)) == x / 256
{ assert((x >> 8) == x / 256) by (bit_vector); }
pub broadcast proof fn lemma_shl32_16(x: u32)
    requires x < 65536
    ensures (#[trigger] (x << 16)) == x * 65536
{ assert((x << 16) == mul(x, 65536u32)) by (bit_vector) requires x < 65536; assert(x * 65536 <= 4294967295) by (nonlinear_arith) requires x < 65536; }
pub broadcast proof fn lemma_shr32_16(x: u32)
    ensures (#[trigger] (x >> 16)) == x / 65536
{ assert((x >> 16) == x / 65536) by (bit_vector); }
pub broadcast proof fn lemma_shl32_24(x: u32)
    requires x < 256
    ensures (#[trigger] (x << 24)) == x * 16777216
{ assert((x << 24) == mul(x, 16777216u32)) by (bit_vector) requires x < 256; assert(x * 16777216 <= 4294967295) by (nonlinear_arith) requires x < 256; }
pub broadcast proof fn lemma_shr32_24(x: u32)
    ensures (#[trigger] (x >> 24)) == x / 16777216
{ assert((x >> 24) == x / 16777216) by (bit_vector); }
pub broadcast proof fn lemma_or32(x: u32, y: u32)
    requires (x % 256 == 0 && y < 256) || (x % 65536 == 0 && y < 65536) || (x % 16777216 == 0 && y < 16777216)
    ensures (#[trigger] (x | y)) == x + y
{ if x % 256 == 0 && y < 256 { lemma_low32_8(x); lemma_low32_8(y); lemma_join32_8(x, y); } if x % 65536 == 0 && y < 65536 { lemma_low32_16(x); lemma_low32_16(y); lemma_join32_16(x, y); } if x % 16777216 == 0 && y < 16777216 { lemma_low32_24(x); lemma_low32_24(y); lemma_join32_24(x, y); } }
pub broadcast proof fn lemma_ro32(x: u32, y: u32)
    requires (y % 256 == 0 && x < 256) || (y % 65536 == 0 && x < 65536) || (y % 16777216 == 0 && x < 16777216)
    ensures (#[trigger] (x | y)) == x + y
{ assert((x | y) == (y | x)) by (bit_vector); lemma_or32(y, x); }
pub broadcast proof fn lemma_cast32_8(x: u32)
    ensures (#[trigger] (x as u8)) == x % 256
{ assert(x as u8 == x % 256) by (bit_vector); }
pub broadcast proof fn lemma_cast32_16(x: u32)
    ensures (#[trigger] (x as u16)) == x % 65536
{ assert(x as u16 == x % 65536) by (bit_vector); }
pub broadcast proof fn lemma_mask32(x: u32)
    ensures (#[trigger] (x & 255)) == x % 256
{ assert((x & 255) == x % 256) by (bit_vector); }
pub broadcast proof fn lemma_shl64_8(x: u64)
    requires x < 72057594037927936
    ensures (#[trigger] (x << 8)) == x * 256
{ assert((x << 8) == mul(x, 256u64)) by (bit_vector) requires x < 72057594037927936; assert(x * 256 <= 18446744073709551615) by (nonlinear_arith) requires x < 72057594037927936; }
pub broadcast proof fn lemma_shr64_8(x: u64)
    ensures (#[trigger] (x >> 8)) == x / 256
{ assert((x >> 8) == x / 256) by (bit_vector); }
pub broadcast proof fn lemma_shl64_16(x: u64)
    requires x < 281474976710656
    ensures (#[trigger] (x << 16)) == x * 65536
{ assert((x << 16) == mul(x, 65536u64)) by (bit_vector) requires x < 281474976710656; assert(x * 65536 <= 18446744073709551615) by (nonlinear_arith) requires x < 281474976710656; }
pub broadcast proof fn lemma_shr64_16(x: u64)
    ensures (#[trigger] (x >> 16)) == x / 65536
{ assert((x >> 16) == x / 65536) by (bit_vector); }
pub broadcast proof fn lemma_shl64_24(x: u64)
    requires x < 1099511627776
    ensures (#[trigger] (x << 24)) == x * 16777216
{ assert((x << 24) == mul(x, 16777216u64)) by (bit_vector) requires x < 1099511627776; assert(x * 16777216 <= 18446744073709551615) by (nonlinear_arith) requires x < 1099511627776; }
pub broadcast proof fn lemma_shr64_24(x: u64)
    ensures (#[trigger] (x >> 24)) == x / 16777216
{ assert((x >> 24) == x / 16777216) by (bit_vector); }
pub broadcast proof fn lemma_shl64_32(x: u64)
    requires x < 4294967296
    ensures (#[trigger] (x << 32)) == x * 4294967296
{ assert((x << 32) == mul(x, 4294967296u64)) by (bit_vector) requires x < 4294967296; assert(x * 4294967296 <= 18446744073709551615) by (nonlinear_arith) requires x < 4294967296; }
pub broadcast proof fn lemma_shr64_32(x: u64)
    ensures (#[trigger] (x >> 32)) == x / 4294967296
{ assert((x >> 32) == x / 4294967296) by (bit_vector); }
pub broadcast proof fn lemma_shl64_40(x: u64)
    requires x < 16777216
    ensures (#[trigger] (x << 40)) == x * 1099511627776
{ assert((x << 40) == mul(x, 1099511627776u64)) by (bit_vector) requires x < 16777216; assert(x * 1099511627776 <= 18446744073709551615) by (nonlinear_arith) requires x < 16777216; }
pub broadcast proof fn lemma_shr64_40(x: u64)
    ensures (#[trigger] (x >> 40)) == x / 1099511627776
{ assert((x >> 40) == x / 1099511627776) by (bit_vector); }
pub broadcast proof fn lemma_shl64_48(x: u64)
    requires x < 65536
    ensures (#[trigger] (x << 48)) == x * 281474976710656
{ assert((x << 48) == mul(x, 281474976710656u64)) by (bit_vector) requires x < 65536; assert(x * 281474976710656 <= 18446744073709551615) by (nonlinear_arith) requires x < 65536; }
pub broadcast proof fn lemma_shr64_48(x: u64)
    ensures (#[trigger] (x >> 48)) == x / 281474976710656
{ assert((x >> 48) == x / 281474976710656) by (bit_vector); }
pub broadcast proof fn lemma_shl64_56(x: u64)
    requires x < 256
    ensures (#[trigger] (x << 56)) == x * 72057594037927936
{ assert((x << 56) == mul(x, 72057594037927936u64)) by (bit_vector) requires x < 256; assert(x * 72057594037927936 <= 18446744073709551615) by (nonlinear_arith) requires x < 256; }
pub broadcast proof fn lemma_shr64_56(x: u64)
    ensures (#[trigger] (x >> 56)) == x / 72057594037927936
{ assert((x >> 56) == x / 72057594037927936) by (bit_vector); }
pub broadcast proof fn lemma_or64(x: u64, y: u64)
    requires (x % 256 == 0 && y < 256) || (x % 65536 == 0 && y < 65536) || (x % 16777216 == 0 && y < 16777216) || (x % 4294967296 == 0 && y < 4294967296) || (x % 1099511627776 == 0 && y < 1099511627776) || (x % 281474976710656 == 0 && y < 281474976710656) || (x % 72057594037927936 == 0 && y < 72057594037927936)
    ensures (#[trigger] (x | y)) == x + y
{ if x % 256 == 0 && y < 256 { lemma_low64_8(x); lemma_low64_8(y); lemma_join64_8(x, y); } if x % 65536 == 0 && y < 65536 { lemma_low64_16(x); lemma_low64_16(y); lemma_join64_16(x, y); } if x % 16777216 == 0 && y < 16777216 { lemma_low64_24(x); lemma_low64_24(y); lemma_join64_24(x, y); } if x % 4294967296 == 0 && y < 4294967296 { lemma_low64_32(x); lemma_low64_32(y); lemma_join64_32(x, y); } if x % 1099511627776 == 0 && y < 1099511627776 { lemma_low64_40(x); lemma_low64_40(y); lemma_join64_40(x, y); } if x % 281474976710656 == 0 && y < 281474976710656 { lemma_low64_48(x); lemma_low64_48(y); lemma_join64_48(x, y); } if x % 72057594037927936 == 0 && y < 72057594037927936 { lemma_low64_56(x); lemma_low64_56(y); lemma_join64_56(x, y); } }
pub broadcast proof fn lemma_ro64(x: u64, y: u64)
    requires (y % 256 == 0 && x < 256) || (y % 65536 == 0 && x < 65536) || (y % 16777216 == 0 && x < 16777216) || (y % 4294967296 == 0 && x < 4294967296) || (y % 1099511627776 == 0 && x < 1099511627776) || (y % 281474976710656 == 0 && x < 281474976710656) || (y % 72057594037927936 == 0 && x < 72057594037927936)
    ensures (#[trigger] (x | y)) == x + y
{ assert((x | y) == (y | x)) by (bit_vector); lemma_or64(y, x); }
pub broadcast proof fn lemma_cast64_8(x: u64)
    ensures (#[trigger] (x as u8)) == x % 256
{ assert(x as u8 == x % 256) by (bit_vector); }
pub broadcast proof fn lemma_cast64_16(x: u64)
    ensures (#[trigger] (x as u16)) == x % 65536
{ assert(x as u16 == x % 65536) by (bit_vector); }
pub broadcast proof fn lemma_cast64_32(x: u64)
    ensures (#[trigger] (x as u32)) == x % 4294967296
{ assert(x as u32 == x % 4294967296) by (bit_vector); }
pub broadcast proof fn lemma_mask64(x: u64)
    ensures (#[trigger] (x & 255)) == x % 256
{ assert((x & 255) == x % 256) by (bit_vector); }
/// the big-endian form of a joined value is the join of the forms
pub proof fn lemma_to_be_cat(a: nat, n: nat, b: nat, m: nat)
    requires b < pow256(m)
    ensures to_be(a, n) + to_be(b, m) == to_be(a * pow256(m) + b, n + m)
    decreases m
{
    if m == 0 { assert(to_be(a, n) + to_be(b, 0) =~= to_be(a, n)); }
    else {
        let p = pow256((m - 1) as nat); let c = a * pow256(m) + b;
        assert(pow256(m) == 256 * p);
        assert(c / 256 == a * p + b / 256 && c % 256 == b % 256 && b / 256 < p) by (nonlinear_arith) requires c == a * (256 * p) + b, b < 256 * p;
        lemma_to_be_cat(a, n, b / 256, (m - 1) as nat);
        assert(to_be(a, n) + to_be(b, m) =~= (to_be(a, n) + to_be(b / 256, (m - 1) as nat)).push((b % 256) as u8));
    }
}
pub broadcast proof fn lemma_cat_1(a: nat, b: nat)
    requires b < 256
    ensures #![trigger to_be(a, 1), to_be(b, 1)] to_be(a, 1) + to_be(b, 1) == to_be(a * 256 + b, 2)
{ lemma_pow256_vals(); lemma_to_be_cat(a, 1, b, 1); }
pub broadcast proof fn lemma_cat_2(a: nat, b: nat)
    requires b < 0x1_0000
    ensures #![trigger to_be(a, 2), to_be(b, 2)] to_be(a, 2) + to_be(b, 2) == to_be(a * 0x1_0000 + b, 4)
{ lemma_pow256_vals(); lemma_to_be_cat(a, 2, b, 2); }
pub broadcast proof fn lemma_cat_4(a: nat, b: nat)
    requires b < 0x1_0000_0000
    ensures #![trigger to_be(a, 4), to_be(b, 4)] to_be(a, 4) + to_be(b, 4) == to_be(a * 0x1_0000_0000 + b, 8)
{ lemma_pow256_vals(); lemma_to_be_cat(a, 4, b, 4); }
/// the value of 2, 4 and 8 big-endian bytes, written out
pub broadcast proof fn lemma_be_2(s: Seq<u8>)
    requires s.len() == 2
    ensures #[trigger] be(s) == s[0] * 256 + s[1]
{ reveal_with_fuel(be, 3); }
pub broadcast proof fn lemma_be_4(s: Seq<u8>)
    requires s.len() == 4
    ensures #[trigger] be(s) == s[0] * 0x100_0000 + s[1] * 0x1_0000 + s[2] * 256 + s[3]
{ reveal_with_fuel(be, 5); }
pub broadcast proof fn lemma_be_8(s: Seq<u8>)
    requires s.len() == 8
    ensures #[trigger] be(s) == s[0] * 0x100_0000_0000_0000 + s[1] * 0x1_0000_0000_0000 + s[2] * 0x100_0000_0000 + s[3] * 0x1_0000_0000 + s[4] * 0x100_0000 + s[5] * 0x1_0000 + s[6] * 256 + s[7]
{ reveal_with_fuel(be, 9); }
/// bytes read into a buffer have a big-endian value
pub broadcast proof fn lemma_readn_be(a: RSt, b: RSt, s: Seq<u8>)
    ensures #[trigger] readn_ok(a, b, s) ==> to_be(be(s), s.len()) == s
{ lemma_to_be_be(s); }
/// the big-endian form of a value, written out
pub broadcast proof fn lemma_to_be_1(v: nat)
    ensures #[trigger] to_be(v, 1) == seq![(v % 256) as u8]
{ reveal_with_fuel(to_be, 2); assert(to_be(v, 1) =~= seq![(v % 256) as u8]); }
pub broadcast proof fn lemma_to_be_2(v: nat)
    ensures #[trigger] to_be(v, 2) == seq![(v / 256 % 256) as u8, (v % 256) as u8]
{ reveal_with_fuel(to_be, 3); assert(to_be(v, 2) =~= seq![(v / 256 % 256) as u8, (v % 256) as u8]); }
pub broadcast proof fn lemma_to_be_4(v: nat)
    ensures #[trigger] to_be(v, 4) == seq![(v / 0x100_0000 % 256) as u8, (v / 0x1_0000 % 256) as u8, (v / 256 % 256) as u8, (v % 256) as u8]
{ reveal_with_fuel(to_be, 5); assert(to_be(v, 4) =~= seq![(v / 0x100_0000 % 256) as u8, (v / 0x1_0000 % 256) as u8, (v / 256 % 256) as u8, (v % 256) as u8]); }
pub broadcast proof fn lemma_to_be_8(v: nat)
    ensures #[trigger] to_be(v, 8) == seq![(v / 0x100_0000_0000_0000 % 256) as u8, (v / 0x1_0000_0000_0000 % 256) as u8, (v / 0x100_0000_0000 % 256) as u8, (v / 0x1_0000_0000 % 256) as u8, (v / 0x100_0000 % 256) as u8, (v / 0x1_0000 % 256) as u8, (v / 256 % 256) as u8, (v % 256) as u8]
{ lemma_to_be_4(v / 0x1_0000_0000); let w = v / 0x1_0000_0000; reveal_with_fuel(to_be, 5);
  assert(v / 256 / 256 / 256 / 256 == w);
  assert(to_be(v, 8) == to_be(w, 4).push((v / 256 / 256 / 256 % 256) as u8).push((v / 256 / 256 % 256) as u8).push((v / 256 % 256) as u8).push((v % 256) as u8));
  assert(to_be(v, 8) =~= seq![(v / 0x100_0000_0000_0000 % 256) as u8, (v / 0x1_0000_0000_0000 % 256) as u8, (v / 0x100_0000_0000 % 256) as u8, (v / 0x1_0000_0000 % 256) as u8, (v / 0x100_0000 % 256) as u8, (v / 0x1_0000 % 256) as u8, (v / 256 % 256) as u8, (v % 256) as u8]); }
pub proof fn lemma_readn_cat(a: RSt, b: RSt, c: RSt, s: Seq<u8>, t: Seq<u8>)
    requires readn_ok(a, b, s), readn_ok(b, c, t)
    ensures readn_ok(a, c, s + t)
{ lemma_step_step(a, b, c, s.len() as int, t.len() as int); lemma_skp_len(a.rest, s.len() as int); lemma_tk_cat(a.rest, s.len() as int, t.len() as int); }
proof fn lemma_skp_len(r: Seq<u8>, n: int)
    requires 0 <= n <= r.len()
    ensures skp(r, n).len() == r.len() - n
{ reveal(skp); }
proof fn lemma_tk_cat(r: Seq<u8>, n: int, m: int)
    requires 0 <= n, 0 <= m, n + m <= r.len()
    ensures tk(r, n) + tk(skp(r, n), m) == tk(r, n + m)
{ reveal(tk); reveal(skp); assert(tk(r, n) + tk(skp(r, n), m) =~= tk(r, n + m)); }
pub broadcast proof fn lemma_readn_cat_1(a: RSt, b: RSt, c: RSt, x: u8, y: u8)
    ensures #![trigger readn_ok(a, b, enc_u8(x)), readn_ok(b, c, enc_u8(y))] readn_ok(a, b, enc_u8(x)) && readn_ok(b, c, enc_u8(y)) ==> readn_ok(a, c, to_be((x * 256 + y) as nat, 2)) && readn_ok(a, c, seq![x, y])
{ if readn_ok(a, b, enc_u8(x)) && readn_ok(b, c, enc_u8(y)) { lemma_readn_cat(a, b, c, enc_u8(x), enc_u8(y)); lemma_to_be_2((x * 256 + y) as nat); assert(enc_u8(x) + enc_u8(y) =~= seq![x, y]); } }
pub broadcast proof fn lemma_readn_cat_2(a: RSt, b: RSt, c: RSt, x: nat, y: nat)
    requires y < 0x10000
    ensures #![trigger readn_ok(a, b, to_be(x, 2)), readn_ok(b, c, to_be(y, 2))] readn_ok(a, b, to_be(x, 2)) && readn_ok(b, c, to_be(y, 2)) ==> readn_ok(a, c, to_be(x * 0x10000 + y, 4))
{ lemma_pow256_vals(); lemma_to_be_cat(x, 2, y, 2); lemma_to_be_len(x, 2); lemma_to_be_len(y, 2);
  if readn_ok(a, b, to_be(x, 2)) && readn_ok(b, c, to_be(y, 2)) { lemma_readn_cat(a, b, c, to_be(x, 2), to_be(y, 2)); } }
pub broadcast proof fn lemma_readn_cat_4(a: RSt, b: RSt, c: RSt, x: nat, y: nat)
    requires y < 0x100000000
    ensures #![trigger readn_ok(a, b, to_be(x, 4)), readn_ok(b, c, to_be(y, 4))] readn_ok(a, b, to_be(x, 4)) && readn_ok(b, c, to_be(y, 4)) ==> readn_ok(a, c, to_be(x * 0x100000000 + y, 8))
{ lemma_pow256_vals(); lemma_to_be_cat(x, 4, y, 4); lemma_to_be_len(x, 4); lemma_to_be_len(y, 4);
  if readn_ok(a, b, to_be(x, 4)) && readn_ok(b, c, to_be(y, 4)) { lemma_readn_cat(a, b, c, to_be(x, 4), to_be(y, 4)); } }
pub broadcast proof fn lemma_enc_u8_cat(x: u8, y: u8)
    ensures #![trigger enc_u8(x), enc_u8(y)] enc_u8(x) + enc_u8(y) == seq![x, y]
{ assert(enc_u8(x) + enc_u8(y) =~= seq![x, y]); }
pub broadcast group group_bits {
    lemma_shl16_8, lemma_shr16_8, lemma_or16, lemma_ro16, lemma_cast16_8, lemma_mask16, lemma_shl32_8, lemma_shr32_8, lemma_shl32_16, lemma_shr32_16, lemma_shl32_24, lemma_shr32_24, lemma_or32, lemma_ro32, lemma_cast32_8, lemma_cast32_16, lemma_mask32, lemma_shl64_8, lemma_shr64_8, lemma_shl64_16, lemma_shr64_16, lemma_shl64_24, lemma_shr64_24, lemma_shl64_32, lemma_shr64_32, lemma_shl64_40, lemma_shr64_40, lemma_shl64_48, lemma_shr64_48, lemma_shl64_56, lemma_shr64_56, lemma_or64, lemma_ro64, lemma_cast64_8, lemma_cast64_16, lemma_cast64_32, lemma_mask64,
}
pub broadcast group group_rbits { lemma_be_2, lemma_be_4, lemma_be_8, lemma_readn_be, lemma_readn_cat_1, lemma_readn_cat_2, lemma_readn_cat_4, }
pub broadcast group group_wbits { lemma_cat_1, lemma_cat_2, lemma_cat_4, lemma_enc_u8_cat, lemma_to_be_1, lemma_to_be_2, lemma_to_be_4, lemma_to_be_8, }
