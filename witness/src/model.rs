//! Independent model of tags: values, encoder, parser; bridges to and from the crate's tag objects.
use crate::oracle::*;
use crate::util::*;
use crate::low::char_any;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::{ILRawTag, ILTag};
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    Null, Bool(bool), I8(i8), U8(u8), I16(i16), U16(u16), I32(i32), U32(u32), I64(i64), U64(u64), IL(u64), SIL(i64), F32(u32), F64(u64), B128([u8; 16]),
    Bytes(Vec<u8>), Str(String), BInt(Vec<u8>), BDec(i32, Vec<u8>), Nums(Vec<u64>), Oid(Vec<u64>), Range(u64, u16), Ver([i32; 4]),
    Arr(Vec<T>), Seq(Vec<T>), Dict(BTreeMap<String, T>), SDict(BTreeMap<String, String>), Raw(Vec<u8>),
}
/// a tag: identifier and value
#[derive(Debug, Clone, PartialEq)]
pub struct T { pub id: u64, pub v: V }
pub const MAX: u64 = 512 * 1024 * 1024;

pub fn std_id(v: &V) -> u64 {
    match v {
        V::Null => 0, V::Bool(_) => 1, V::I8(_) => 2, V::U8(_) => 3, V::I16(_) => 4, V::U16(_) => 5, V::I32(_) => 6, V::U32(_) => 7, V::I64(_) => 8, V::U64(_) => 9,
        V::IL(_) => 10, V::F32(_) => 11, V::F64(_) => 12, V::B128(_) => 13, V::SIL(_) => 14, V::Bytes(_) => 16, V::Str(_) => 17, V::BInt(_) => 18, V::BDec(..) => 19,
        V::Nums(_) => 20, V::Arr(_) => 21, V::Seq(_) => 22, V::Range(..) => 23, V::Ver(_) => 24, V::Oid(_) => 25, V::Dict(_) => 30, V::SDict(_) => 31, V::Raw(_) => 1000,
    }
}
pub fn std(v: V) -> T { T { id: std_id(&v), v } }
fn senc(s: &str) -> Vec<u8> { let mut r = vec![17]; r.extend(ilint(s.len() as u64)); r.extend(s.as_bytes()); r }
fn nums(v: &[u64]) -> Vec<u8> { let mut r = ilint(v.len() as u64); for x in v { r.extend(ilint(*x)); } r }
pub fn venc(v: &V) -> Vec<u8> {
    match v {
        V::Null => vec![], V::Bool(b) => vec![*b as u8], V::I8(x) => vec![*x as u8], V::U8(x) => vec![*x],
        V::I16(x) => x.to_be_bytes().to_vec(), V::U16(x) => x.to_be_bytes().to_vec(), V::I32(x) => x.to_be_bytes().to_vec(), V::U32(x) => x.to_be_bytes().to_vec(),
        V::I64(x) => x.to_be_bytes().to_vec(), V::U64(x) => x.to_be_bytes().to_vec(), V::IL(x) => ilint(*x), V::SIL(x) => ilint(zig(*x)),
        V::F32(x) => x.to_be_bytes().to_vec(), V::F64(x) => x.to_be_bytes().to_vec(), V::B128(x) => x.to_vec(),
        V::Bytes(x) | V::BInt(x) | V::Raw(x) => x.clone(), V::Str(s) => s.as_bytes().to_vec(),
        V::BDec(s, x) => { let mut r = s.to_be_bytes().to_vec(); r.extend(x); r }
        V::Nums(x) | V::Oid(x) => nums(x),
        V::Range(a, n) => { let mut r = ilint(*a); r.extend(n.to_be_bytes()); r }
        V::Ver(x) => x.iter().flat_map(|i| i.to_be_bytes()).collect(),
        V::Seq(x) => x.iter().flat_map(enc).collect(),
        V::Arr(x) => { let mut r = ilint(x.len() as u64); for t in x { r.extend(enc(t)); } r }
        V::Dict(m) => { let mut r = ilint(m.len() as u64); for (k, t) in m { r.extend(senc(k)); r.extend(enc(t)); } r }
        V::SDict(m) => { let mut r = ilint(m.len() as u64); for (k, t) in m { r.extend(senc(k)); r.extend(senc(t)); } r }
    }
}
pub fn head(id: u64, n: u64) -> Vec<u8> { let mut r = ilint(id); if id > 15 { r.extend(ilint(n)); } r }
pub fn enc(t: &T) -> Vec<u8> { let v = venc(&t.v); let mut r = head(t.id, v.len() as u64); r.extend(v); r }
pub fn imp_size(id: u64) -> u64 { match id { 1..=3 => 1, 4 | 5 => 2, 6 | 7 | 11 => 4, 8 | 9 | 12 => 8, 10 | 14 => 9, 13 => 16, _ => 0 } }
/// an example of the type registered for a standard identifier
pub fn kind_of(id: u64) -> Option<V> {
    Some(match id {
        0 => V::Null, 1 => V::Bool(false), 2 => V::I8(0), 3 => V::U8(0), 4 => V::I16(0), 5 => V::U16(0), 6 => V::I32(0), 7 => V::U32(0), 8 => V::I64(0), 9 => V::U64(0),
        10 => V::IL(0), 11 => V::F32(0), 12 => V::F64(0), 13 => V::B128([0; 16]), 14 => V::SIL(0), 16 => V::Bytes(vec![]), 17 => V::Str("".into()), 18 => V::BInt(vec![]), 19 => V::BDec(0, vec![]),
        20 => V::Nums(vec![]), 21 => V::Arr(vec![]), 22 => V::Seq(vec![]), 23 => V::Range(0, 0), 24 => V::Ver([0; 4]), 25 => V::Oid(vec![]), 30 => V::Dict(BTreeMap::new()), 31 => V::SDict(BTreeMap::new()), _ => return None })
}
fn fix<const N: usize>(w: &[u8], size: u64) -> Option<[u8; N]> { if size == N as u64 && w.len() >= N { let mut a = [0; N]; a.copy_from_slice(&w[..N]); Some(a) } else { None } }
fn parse_nums(size: u64, w: &[u8]) -> Option<Vec<u64>> {
    let (c, mut p) = ilint_parse(w)?;
    let mut r = vec![];
    for _ in 0..c { let (x, k) = ilint_parse(&w[p..])?; p += k; r.push(x); }
    if p as u64 == size { Some(r) } else { None }
}
fn parse_str(w: &[u8]) -> Option<(String, usize)> {
    let (id, a) = ilint_parse(w)?; if id != 17 { return None; }
    let (n, b) = ilint_parse(&w[a..])?; if n > MAX || (w.len() - a - b) < n as usize { return None; }
    Some((std::str::from_utf8(&w[a + b..a + b + n as usize]).ok()?.to_string(), a + b + n as usize))
}
/// value of a tag of the type of `k`, announced size `size`, from bytes w (at most size of them may be used)
pub fn parse_val(k: &V, size: u64, w: &[u8], strict: bool) -> Option<(V, usize)> {
    let w = &w[..w.len().min(size as usize)];
    let n = size as usize;
    let full = w.len() == n;
    Some((match k {
        V::Null => if size == 0 { V::Null } else { return None },
        V::Bool(_) => match fix::<1>(w, size)?[0] { 0 => V::Bool(false), 1 => V::Bool(true), _ => return None },
        V::I8(_) => V::I8(i8::from_be_bytes(fix(w, size)?)), V::U8(_) => V::U8(u8::from_be_bytes(fix(w, size)?)),
        V::I16(_) => V::I16(i16::from_be_bytes(fix(w, size)?)), V::U16(_) => V::U16(u16::from_be_bytes(fix(w, size)?)),
        V::I32(_) => V::I32(i32::from_be_bytes(fix(w, size)?)), V::U32(_) => V::U32(u32::from_be_bytes(fix(w, size)?)),
        V::I64(_) => V::I64(i64::from_be_bytes(fix(w, size)?)), V::U64(_) => V::U64(u64::from_be_bytes(fix(w, size)?)),
        V::F32(_) => V::F32(u32::from_be_bytes(fix(w, size)?)), V::F64(_) => V::F64(u64::from_be_bytes(fix(w, size)?)), V::B128(_) => V::B128(fix(w, size)?),
        V::IL(_) => { let (x, k) = ilint_parse(w)?; return Some((V::IL(x), k)) }
        V::SIL(_) => { let (x, k) = ilint_parse(w)?; return Some((V::SIL(zag(x)), k)) }
        V::Ver(_) => { let b: [u8; 16] = fix(w, size)?; let g = |i: usize| i32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]); V::Ver([g(0), g(4), g(8), g(12)]) }
        _ if !full => return None,
        V::Bytes(_) => V::Bytes(w.to_vec()), V::BInt(_) => V::BInt(w.to_vec()), V::Raw(_) => V::Raw(w.to_vec()),
        V::Str(_) => V::Str(std::str::from_utf8(w).ok()?.to_string()),
        V::BDec(..) => { if n < 4 { return None; } V::BDec(i32::from_be_bytes([w[0], w[1], w[2], w[3]]), w[4..].to_vec()) }
        V::Nums(_) => V::Nums(parse_nums(size, w)?), V::Oid(_) => V::Oid(parse_nums(size, w)?),
        V::Range(..) => { let (a, k) = ilint_parse(w)?; if k + 2 != n { return None; } V::Range(a, w[k] as u16 * 256 + w[k + 1] as u16) }
        V::Seq(_) => { let mut p = 0; let mut r = vec![]; while p < n { let (t, k) = parse(&w[p..], strict)?; p += k; r.push(t); } V::Seq(r) }
        V::Arr(_) => { let (c, mut p) = ilint_parse(w)?; if c > size { return None; } let mut r = vec![]; for _ in 0..c { let (t, k) = parse(&w[p..], strict)?; p += k; r.push(t); } if p != n { return None; } V::Arr(r) }
        V::Dict(_) => { let (c, mut p) = ilint_parse(w)?; let mut r = BTreeMap::new(); for _ in 0..c { let (s, k) = parse_str(&w[p..])?; p += k; let (t, k) = parse(&w[p..], strict)?; p += k; r.insert(s, t); } if p != n { return None; } V::Dict(r) }
        V::SDict(_) => { let (c, mut p) = ilint_parse(w)?; let mut r = BTreeMap::new(); for _ in 0..c { let (s, k) = parse_str(&w[p..])?; p += k; let (t, k) = parse_str(&w[p..])?; p += k; r.insert(s, t); } if p != n { return None; } V::SDict(r) }
    }, n))
}
/// header: (identifier, value size, header size)
pub fn parse_head(b: &[u8]) -> Option<(u64, u64, usize)> {
    let (id, k) = ilint_parse(b)?;
    if id <= 15 { return Some((id, imp_size(id), k)); }
    let (n, k2) = ilint_parse(&b[k..])?;
    if n > MAX { None } else { Some((id, n, k + k2)) }
}
pub fn parse_as(id: u64, kind: &V, b: &[u8], strict: bool) -> Option<(T, usize)> {
    let (i, n, h) = parse_head(b)?;
    if i != id { return None; }
    let (v, k) = parse_val(kind, n, &b[h..], strict)?;
    if id != 10 && id != 14 && k as u64 != n { return None; }
    Some((T { id, v }, h + k))
}
pub fn lookup(id: u64, strict: bool) -> Option<V> { kind_of(id).or(if !strict && id > 15 { Some(V::Raw(vec![])) } else { None }) }
pub fn parse(b: &[u8], strict: bool) -> Option<(T, usize)> {
    let (id, _, _) = parse_head(b)?;
    parse_as(id, &lookup(id, strict)?, b, strict)
}

// ---- bridges ---------------------------------------------------------------------------------
/// the crate's tag object for t, through its public constructors; `way` picks among equivalent constructions
pub fn build(t: &T, way: usize) -> Box<dyn ILTag> {
    let d = std_id(&t.v) == t.id && way % 2 == 0;
    macro_rules! simple { ($ty:ident, $x:expr) => { if d { Box::new($ty::with_value($x)) } else if way % 3 == 0 { let mut r = $ty::with_id(t.id); r.set_value($x); Box::new(r) } else { Box::new($ty::with_id_value(t.id, $x)) } } }
    match &t.v {
        V::Null => if d { Box::new(ILNullTag::new()) } else { Box::new(ILNullTag::with_id(t.id)) },
        V::Bool(x) => simple!(ILBoolTag, *x), V::I8(x) => simple!(ILInt8Tag, *x), V::U8(x) => simple!(ILUInt8Tag, *x), V::I16(x) => simple!(ILInt16Tag, *x), V::U16(x) => simple!(ILUInt16Tag, *x),
        V::I32(x) => simple!(ILInt32Tag, *x), V::U32(x) => simple!(ILUInt32Tag, *x), V::I64(x) => simple!(ILInt64Tag, *x), V::U64(x) => simple!(ILUInt64Tag, *x),
        V::IL(x) => simple!(ILILInt64Tag, *x), V::SIL(x) => simple!(ILSignedILInt64Tag, *x), V::F32(x) => simple!(ILBin32Tag, f32::from_bits(*x)), V::F64(x) => simple!(ILBin64Tag, f64::from_bits(*x)),
        V::B128(x) => simple!(ILBin128Tag, x),
        V::Bytes(x) => if way % 2 == 0 { Box::new(ILByteArrayTag::with_value(x)) } else { let mut r = ILByteArrayTag::new(); r.mut_value().extend_from_slice(x); Box::new(r) },
        V::BInt(x) => if way % 2 == 0 { Box::new(ILBigIntTag::with_value(x)) } else { let mut r = ILBigIntTag::new(); r.mut_value().extend_from_slice(x); Box::new(r) },
        V::Raw(x) => if way % 2 == 0 { Box::new(ILRawTag::with_value(t.id, x)) } else { let mut r = ILRawTag::with_capacity(t.id, 3); r.mut_value().push(9); r.set_value(x); Box::new(r) },
        V::Str(x) => simple!(ILStringTag, x),
        V::BDec(s, x) => if d { Box::new(ILBigDecTag::with_value(*s, x)) } else if way % 3 == 0 { let mut r = ILBigDecTag::with_id(t.id); r.set_scale(*s); r.mut_value().extend_from_slice(x); Box::new(r) } else { Box::new(ILBigDecTag::with_id_value(t.id, *s, x)) },
        V::Nums(x) => simple!(ILILIntArrayTag, x), V::Oid(x) => simple!(ILOIDTag, x),
        V::Range(a, n) => if d { Box::new(ILRangeTag::with_value(*a, *n)) } else if way % 3 == 0 { let mut r = ILRangeTag::with_id(t.id); r.set_start(*a); r.set_count(*n); Box::new(r) } else { Box::new(ILRangeTag::with_id_value(t.id, *a, *n)) },
        V::Ver(x) => if d { Box::new(ILVersionTag::with_value(x[0], x[1], x[2], x[3])) } else if way % 3 == 0 { let mut r = ILVersionTag::with_id(t.id); r.set_major(x[0]); r.set_minor(x[1]); r.set_revision(x[2]); r.set_build(x[3]); Box::new(r) } else { Box::new(ILVersionTag::with_id_value_from_slice(t.id, x)) },
        V::Seq(x) => { let mut r = if d { ILTagSeqTag::new() } else { ILTagSeqTag::with_id(t.id) }; for e in x { r.mut_value().push(build(e, way)); } Box::new(r) }
        V::Arr(x) => { let mut r = if d { ILTagArrayTag::new() } else { ILTagArrayTag::with_id(t.id) }; for e in x { r.mut_value().push(build(e, way)); } Box::new(r) }
        V::Dict(m) => { let mut r = if d { ILDictTag::new() } else { ILDictTag::with_id(t.id) };
            if way % 2 == 0 { for (k, e) in m { r.insert(k, build(e, way)); } } else { for (k, e) in m.iter().rev() { r.mut_value().insert(k.clone(), build(e, way)); } } Box::new(r) }
        V::SDict(m) => { let mut r = if d { ILStrDictTag::new() } else { ILStrDictTag::with_id(t.id) };
            if way % 2 == 0 { for (k, e) in m { r.insert(k, e); } } else { for (k, e) in m.iter().rev() { r.mut_value().insert(k.clone(), e.clone()); } } Box::new(r) }
    }
}
/// what a tag object holds, by its concrete type
pub fn view(t: &dyn ILTag) -> Option<T> {
    macro_rules! as_ { ($ty:ident, $f:expr) => { if let Some(x) = t.as_any().downcast_ref::<$ty>() { let f: fn(&$ty) -> V = $f; return Some(T { id: t.id(), v: f(x) }); } } }
    if t.as_any().is::<ILNullTag>() { return Some(T { id: t.id(), v: V::Null }); }
    as_!(ILBoolTag, |x| V::Bool(x.value())); as_!(ILInt8Tag, |x| V::I8(x.value())); as_!(ILUInt8Tag, |x| V::U8(x.value())); as_!(ILInt16Tag, |x| V::I16(x.value())); as_!(ILUInt16Tag, |x| V::U16(x.value()));
    as_!(ILInt32Tag, |x| V::I32(x.value())); as_!(ILUInt32Tag, |x| V::U32(x.value())); as_!(ILInt64Tag, |x| V::I64(x.value())); as_!(ILUInt64Tag, |x| V::U64(x.value()));
    as_!(ILILInt64Tag, |x| V::IL(x.value())); as_!(ILSignedILInt64Tag, |x| V::SIL(x.value())); as_!(ILBin32Tag, |x| V::F32(x.value().to_bits())); as_!(ILBin64Tag, |x| V::F64(x.value().to_bits())); as_!(ILBin128Tag, |x| V::B128(*x.value()));
    as_!(ILByteArrayTag, |x| V::Bytes(x.value().clone())); as_!(ILBigIntTag, |x| V::BInt(x.value().clone())); as_!(ILRawTag, |x| V::Raw(x.value().clone())); as_!(ILStringTag, |x| V::Str(x.value().to_string()));
    as_!(ILBigDecTag, |x| V::BDec(x.scale(), x.value().clone())); as_!(ILILIntArrayTag, |x| V::Nums(x.value().clone())); as_!(ILOIDTag, |x| V::Oid(x.value().clone())); as_!(ILRangeTag, |x| V::Range(x.start(), x.count()));
    as_!(ILVersionTag, |x| { assert!([x.major(), x.minor(), x.revision(), x.build()] == *x.value(), "version fields"); V::Ver(*x.value()) });
    if let Some(x) = t.as_any().downcast_ref::<ILTagSeqTag>() { return Some(T { id: t.id(), v: V::Seq(x.value().iter().map(|e| view(e.as_ref())).collect::<Option<Vec<T>>>()?) }); }
    if let Some(x) = t.as_any().downcast_ref::<ILTagArrayTag>() { return Some(T { id: t.id(), v: V::Arr(x.value().iter().map(|e| view(e.as_ref())).collect::<Option<Vec<T>>>()?) }); }
    if let Some(x) = t.as_any().downcast_ref::<ILDictTag>() { let mut m = BTreeMap::new(); for (k, e) in x.value() { assert!(x.get(k).map(|g| g.id()) == Some(e.id()), "get({:?})", k); m.insert(k.clone(), view(e.as_ref())?); } assert!(m.len() == x.len(), "len"); return Some(T { id: t.id(), v: V::Dict(m) }); }
    if let Some(x) = t.as_any().downcast_ref::<ILStrDictTag>() { let mut m = BTreeMap::new(); for (k, e) in x.value() { assert!(x.get(k) == Some(e.as_str()), "get({:?})", k); m.insert(k.clone(), e.clone()); } assert!(m.len() == x.len(), "len"); return Some(T { id: t.id(), v: V::SDict(m) }); }
    None
}
// ---- generators ------------------------------------------------------------------------------
pub fn gen_len(r: &mut Rng) -> usize { let k = novel_in(0, 3000); if !k.is_empty() && r.chance(1, 8) { return *r.pick(&k); } match r.below(12) { 0 => 0, 1..=8 => r.below(12), 9 => 240 + r.below(20), 10 => 500 + r.below(10), _ => r.below(70) } }
pub fn gen_text(r: &mut Rng) -> String {
    let k = &novel().1; if !k.is_empty() && r.chance(1, 5) { let x = r.pick(k).clone(); return match r.below(5) { 0 => format!("{}a", x), 1 => format!("a{}", x), _ => x }; }
    if r.chance(1, 12) { let n = gen_len(r); return "ab".repeat(n / 2); }
    let n = r.below(5); let s: String = (0..n).map(|_| if r.chance(1, 2) { (b'a' + r.below(4) as u8) as char } else { char_any(r) }).collect();
    if r.chance(1, 8) { // fragments that text handling tends to treat specially
        let f = *r.pick(&[" ", "\t", "\n", "\r\n", "\0", "\u{feff}", "\u{a0}", "\u{2028}", "\u{3000}", "\u{85}", "A", "Zz", "\u{df}", "\u{130}", "\u{131}", "\u{1e9e}", "e\u{301}", "\u{e9}", "\u{fffd}", "\u{fdd0}", "\u{ffff}", "\u{10ffff}", "0", "00", "-1", "+", ".", "..", "/", "\\", "\"", "'", "%00", "{}", "null", "aa", "abab", "\u{1f468}\u{200d}\u{1f469}", "\u{200b}", "\u{202e}x", "\u{ff21}", "\u{7f}", "\u{1}"]);
        return match r.below(4) { 0 => f.to_string(), 1 => format!("{}{}", f, s), 2 => format!("{}{}", s, f), _ => format!("{}{}{}", s, f, s) };
    }
    s
}
/// lists of numbers: random, equal, ascending, descending, ending in zeros, with neighbours repeated
pub fn gen_nums(r: &mut Rng) -> Vec<u64> {
    let n = if r.chance(1, 12) { gen_len(r) } else { r.below(7) };
    let mut v: Vec<u64> = (0..n).map(|_| r.u64b()).collect();
    match r.below(8) { 0 => { let x = r.u64b(); for y in &mut v { *y = x; } } 1 => v.sort(), 2 => { v.sort(); v.reverse(); } 3 => for y in v.iter_mut().skip(n / 2) { *y = 0; }, 4 => for i in 1..n { if r.chance(1, 2) { v[i] = v[i - 1]; } }, 5 => { let x = r.u64b(); for (i, y) in v.iter_mut().enumerate() { *y = x.wrapping_add(i as u64); } } _ => () }
    v
}
const F32S: [u32; 16] = [0, 1 << 31, 0x7F80_0000, 0xFF80_0000, 0x7FC0_0000, 0xFFC0_0000, 0x7F80_0001, 0x7FFF_FFFF, 0xFFFF_FFFF, 1, 0x8000_0001, 0x007F_FFFF, 0x0080_0000, 0x7F7F_FFFF, 0x3F80_0000, 0xBF80_0000];
fn f32b(r: &mut Rng, y: u32) -> u32 { match r.below(4) { 0 => *r.pick(&F32S), 1 => y | 0x7F80_0000, _ => y } }
fn f64b(r: &mut Rng, x: u64) -> u64 { match r.below(4) { 0 => { let y = *r.pick(&F32S); let e = (y >> 23 & 0xFF) as u64; let m = (y & 0x7F_FFFF) as u64; (y as u64 >> 31) << 63 | (match e { 0xFF => 0x7FF, 0 => 0, 0x7F => 0x3FF, 0xFE => 0x7FE, e => e }) << 52 | match m { 0x7F_FFFF => (1 << 52) - 1, 0x40_0000 => 1 << 51, m => m } } 1 => x | 0x7FF0 << 48, _ => x } }
fn u16b(r: &mut Rng) -> u16 { if r.chance(1, 2) { *r.pick(&[0, 1, 2, 0x7F, 0x80, 0xF7, 0xF8, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]) } else { r.next() as u16 } }
pub fn gen_leaf(r: &mut Rng) -> V {
    let x = r.u64b(); let y = if r.chance(1, 2) { x } else { x >> 32 };
    match r.below(24) {
        0 => V::Null, 1 => V::Bool(x % 2 == 1), 2 => V::I8(x as i8), 3 => V::U8(x as u8), 4 => V::I16(x as i16), 5 => V::U16(x as u16), 6 => V::I32(y as i32), 7 => V::U32(y as u32), 8 => V::I64(x as i64), 9 => V::U64(x),
        10 => V::IL(x), 11 => V::SIL(zag(x)), 12 => V::F32(f32b(r, y as u32)), 13 => V::F64(f64b(r, x)), 14 => { let b = r.bytes(16); let mut a = [0; 16]; a.copy_from_slice(&b); V::B128(a) }
        15 => { let n = gen_len(r); V::Bytes(r.bytes(n)) } 16 => V::Str(gen_text(r)), 17 => { let n = gen_len(r); V::BInt(r.bytes(n)) } 18 => { let n = r.below(9); V::BDec(y as i32, r.bytes(n)) }
        19 => V::Nums(gen_nums(r)), 20 => V::Oid(gen_nums(r)),
        21 => V::Range(x, u16b(r)), 22 => V::Ver([r.u64b() as i32, r.next() as i32, r.u64b() as i32, r.next() as i32]),
        _ => { let n = gen_len(r); V::Raw(r.bytes(n)) }
    }
}
pub fn raw_id(r: &mut Rng) -> u64 { loop { let x = match r.below(3) { _ if !novel().0.is_empty() && r.chance(1, 6) => *r.pick(&novel().0), 0 => r.u64b(), 1 => 32 + r.below(300) as u64, _ => *r.pick(&[26, 27, 28, 29, 32, 247, 248, 249, 503, 504, u64::MAX, u64::MAX - 1, 65783, 65784]) }; if x > 15 && kind_of(x).is_none() { return x; } } }
pub fn gen_keys(r: &mut Rng, n: usize) -> Vec<String> {
    let base = gen_text(r);
    (0..n).map(|i| match r.below(4) { 0 => gen_text(r), 1 => format!("{}{}", base, char_any(r)), 2 => format!("{}{}", base, i), _ => base.chars().take(i).collect() }).collect()
}
pub fn gen_container(r: &mut Rng, depth: usize) -> V {
    let n = match r.below(10) { 0 => 0, 1..=7 => r.below(4), 8 => r.below(9), _ => if r.chance(1, 10) { gen_len(r) } else { 1 } };
    let big = n > 20;
    let same = r.chance(1, 8); let one = if same { Some(gen(r, depth.saturating_sub(1))) } else { None };
    let el = |r: &mut Rng| if big { std(V::U8(r.byte())) } else if let Some(t) = &one { t.clone() } else { gen(r, depth.saturating_sub(1)) };
    match r.below(4) {
        0 => V::Seq((0..n).map(|_| el(r)).collect()), 1 => V::Arr((0..n).map(|_| el(r)).collect()),
        2 => { let ks = gen_keys(r, n); V::Dict(ks.into_iter().map(|k| (k, el(r))).collect()) }
        _ => { let ks = gen_keys(r, n); V::SDict(ks.into_iter().map(|k| { let t = match r.below(8) { 0 => k.clone(), 1 => String::new(), _ => gen_text(r) }; (k, t) }).collect()) }
    }
}
/// a tag that the standard factory (lenient) knows how to build
pub fn gen(r: &mut Rng, depth: usize) -> T {
    if depth > 0 && r.chance(2, 5) { return std(gen_container(r, depth)); }
    let v = gen_leaf(r);
    if let V::Raw(_) = v { T { id: raw_id(r), v } } else { std(v) }
}
pub fn reseed(t: &T) -> String { let b = enc(t); let d = format!("{:?}", t); if d.len() < 900 { d } else { format!("tag id {} of {} bytes: {}", t.id, b.len(), show(&b)) } }
/// bytes close to an encoding: header re-encoded, sizes off, bytes flipped, truncated, extended
pub fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    for _ in 0..r.range(1, 2) {
        match r.below(9) {
            0 => { let k = r.below(b.len() + 1); b.truncate(k); }
            1 => { let k = r.below(4); b.extend(r.bytes(k)); }
            2 => if !b.is_empty() { let k = r.below(b.len().min(12)); b[k] = b[k].wrapping_add(1); }
            3 => if !b.is_empty() { let k = r.below(b.len().min(12)); b[k] = b[k].wrapping_sub(1); }
            4 => if !b.is_empty() { let k = r.below(b.len()); b[k] = r.byte(); }
            5 => if let Some((id, n, h)) = parse_head(&b) { // non-minimal header
                if id > 15 { let w = r.range(1, 8); let z = r.range(1, 8); let fits = |v: u64, n: usize| v >= 0xF8 && (n == 8 || (v - 0xF8) >> (8 * n) == 0);
                    let a = if fits(id, w) { ilint_fixed(id, w) } else { ilint(id) }; let c = if fits(n, z) { ilint_fixed(n, z) } else { ilint(n) };
                    let mut x = a; x.extend(c); x.extend(&b[h.min(b.len())..]); b = x; } }
            6 => if let Some((id, n, h)) = parse_head(&b) { if id > 15 { // announced size off
                let m = match r.below(5) { 0 => n + 1, 1 => n.wrapping_sub(1), 2 => 0, 3 => MAX + 1 + r.below(3) as u64, _ => if r.chance(1, 2) { u64::MAX - r.below(20) as u64 } else { n + r.below(300) as u64 } };
                let mut x = head(id, m); x.extend(&b[h.min(b.len())..]); b = x; } }
            7 => if let Some((id, n, h)) = parse_head(&b) { if id > 15 && n > 0 && b.len() > h { // element count off
                if let Some((c, k)) = ilint_parse(&b[h..]) { let m = match r.below(6) { 0 => c.wrapping_add(1), 1 => c.wrapping_sub(1), 2 => u64::MAX, 3 => 1u64 << 32 | c, 4 => n, _ => 0 };
                    let e = ilint(m); let grow = e.len() as u64; let mut x = head(id, (n + grow).saturating_sub(k as u64)); x.extend(e); x.extend(&b[h + k..]); b = x; } } }
            _ => if b.len() > 1 { let k = r.below(b.len() - 1); b.remove(k); }
        }
    }
    b
}
