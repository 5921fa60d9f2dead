//! Independent reference for the formats (no code shared with the crate under test).
pub fn ilint(v: u64) -> Vec<u8> {
    if v < 0xF8 { return vec![v as u8]; }
    let w = v - 0xF8;
    let mut n = 1u32;
    while n < 8 && (w as u128) >= (1u128 << (8 * n)) { n += 1; }
    let mut r = vec![(0xF7 + n) as u8];
    for i in (0..n).rev() { r.push((w >> (8 * i)) as u8); }
    r
}
/// (value, size); None: truncated or overflowing
pub fn ilint_parse(b: &[u8]) -> Option<(u64, usize)> {
    let h = *b.first()?;
    if h < 0xF8 { return Some((h as u64, 1)); }
    let n = (h - 0xF7) as usize;
    if b.len() < n + 1 { return None; }
    let mut v: u128 = 0;
    for x in &b[1..=n] { v = v * 256 + *x as u128; }
    v += 0xF8;
    if v > u64::MAX as u128 { None } else { Some((v as u64, n + 1)) }
}
pub fn ilint_body(b: &[u8]) -> Option<u64> {
    if b.is_empty() || b.len() > 8 { return None; }
    let mut v: u128 = 0;
    for x in b { v = v * 256 + *x as u128; }
    v += 0xF8;
    if v > u64::MAX as u128 { None } else { Some(v as u64) }
}
pub fn zig(v: i64) -> u64 { let w = v as i128; (if w >= 0 { 2 * w } else { -2 * w - 1 }) as u64 }
pub fn zag(u: u64) -> i64 { let w = u as i128; (if w % 2 == 0 { w / 2 } else { -(w / 2) - 1 }) as i64 }
/// an ILInt of exactly n body bytes (n = 0: single byte form), possibly non-minimal
pub fn ilint_fixed(v: u64, n: usize) -> Vec<u8> {
    let w = v.wrapping_sub(0xF8);
    let mut r = vec![(0xF7 + n) as u8];
    for i in (0..n).rev() { r.push((w >> (8 * i)) as u8); }
    r
}
