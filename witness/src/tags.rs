//! C09-C19: tags
use crate::low::{places, FlakyR, FlakyW, Plain, PlainW};
use crate::model::*;
use crate::oracle::*;
use crate::util::*;
use il2_iltags::io::array::*;
use il2_iltags::io::{LimitedReader, Reader, Writer};
use il2_iltags::tags::payload::*;
use il2_iltags::tags::raw::*;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::util::*;
use il2_iltags::tags::{ErrorKind, ILDefaultWithIdTagCreator, ILRawTag, ILTag, ILTagCreator, ILTagCreatorEngine, ILTagFactory};
use std::collections::{BTreeMap, HashMap};

fn to_bytes(t: &dyn ILTag) -> Result<Vec<u8>, String> { t.to_bytes().map_err(|e| format!("to_bytes failed: {:?}", e)) }

// ---- C09 -------------------------------------------------------------------------------------
pub fn frame(t: &dyn ILTag, id: u64, val: &[u8]) -> Result<(), String> {
    let mut want = head(id, val.len() as u64); want.extend(val);
    eq("id", t.id(), id)?;
    if !(id <= 15 && (id == 10 || id == 14)) { eq("value_size", t.value_size(), val.len() as u64)?; }
    eq("value_size", t.value_size(), val.len() as u64)?;
    eq("size", t.size(), want.len() as u64)?;
    eq("is_implicity", t.is_implicity(), id < 16)?;
    eq("is_reserved", t.is_reserved(), id < 32)?;
    eqb("to_bytes", &to_bytes(t)?, &want)?;
    let mut w = VecWriter::new(); ok("serialize", t.serialize(&mut w).is_ok())?; eqb("serialize into a vector", w.as_slice(), &want)?;
    let mut w = VecWriter::new(); ok("serialize_value", t.serialize_value(&mut w).is_ok())?; eqb("serialize_value", w.as_slice(), val)?;
    let mut w = PlainW { data: vec![], room: want.len() }; ok("serialize to a byte-wise stream", t.serialize(&mut w).is_ok())?; eqb("streamed", &w.data, &want)?;
    if want.len() < 300 { for bad in places(want.len()) { let mut w = FlakyW { data: vec![], n: 0, bad }; ok("a write that fails once is an error", t.serialize(&mut w).is_err())?; eqb("nothing is written after a write that failed", &w.data, &want[..bad])?; } }
    if want.len() < 2000 { for room in [0usize, 1, want.len() / 2, want.len() - 1] { if room < want.len() {
        let mut w = PlainW { data: vec![], room }; ok("a stream that fails is an error", t.serialize(&mut w).is_err())?; ok("what was written is a prefix", want.starts_with(&w.data))?; } } }
    let mut c = std::io::Cursor::new(Vec::new());
    { let mut w = il2_iltags::io::WriteWriter::new(&mut c); ok("serialize to a std stream", t.serialize(&mut w).is_ok())?; }
    eqb("std stream", c.get_ref(), &want)
}
fn frame_t(t: &T, way: usize) -> Result<(), String> { let o = build(t, way); frame(o.as_ref(), t.id, &venc(&t.v)) }
/// identifiers a constructor of this type may be given
fn any_id(r: &mut Rng, v: &V) -> u64 {
    match v { V::Bytes(_) | V::BInt(_) => std_id(v), V::Raw(_) => raw_id(r),
        V::Str(_) | V::BDec(..) | V::Nums(_) | V::Oid(_) | V::Range(..) | V::Ver(_) | V::Seq(_) | V::Arr(_) | V::Dict(_) | V::SDict(_) => if r.chance(1, 2) { std_id(v) } else { raw_id(r) },
        _ => if r.chance(1, 2) { std_id(v) } else { raw_id(r) } }
}
fn big_tags() -> Vec<T> {
    let mut v = vec![];
    for b in novel().0.iter().take(60) { let x = *b; v.push(std(V::IL(x))); v.push(std(V::SIL(zag(x)))); v.push(std(V::SIL(x as i64))); v.push(std(V::U64(x))); v.push(std(V::U32(x as u32))); v.push(std(V::U16(x as u16))); v.push(std(V::I32(x as i32))); v.push(std(V::F32(x as u32))); v.push(std(V::F64(x))); v.push(std(V::F64((x as f64).to_bits()))); v.push(std(V::Range(x, x as u16))); v.push(std(V::BDec(x as i32, vec![x as u8, 1]))); v.push(std(V::Nums(vec![x, 3, x]))); v.push(std(V::Oid(vec![1, x]))); v.push(std(V::Ver([x as i32, 1, x as i32, 2]))); v.push(std(V::Bytes(vec![x as u8; 9])));
        if x > 15 && kind_of(x).is_none() { v.push(T { id: x, v: V::Raw(vec![1, 2, 3]) }); } }
    for x in &novel().1 { v.push(std(V::Str(x.clone()))); v.push(std(V::SDict([(x.clone(), x.clone()), ("m".into(), "".into())].into_iter().collect()))); v.push(std(V::Dict([(x.clone(), std(V::Str(x.clone())))].into_iter().collect()))); }
    for n in [0usize, 1, 246, 247, 248, 249, 250, 502, 503, 504, 505, 65781, 65782, 65783, 65784, 65785, 66000].into_iter().chain(novel_in(2, 70_000)) {
        let p = pattern(n, 5);
        v.push(std(V::Bytes(p.clone()))); v.push(std(V::BInt(p.clone()))); v.push(std(V::BDec(-2, p.clone()))); v.push(T { id: 77, v: V::Raw(p.clone()) });
        v.push(std(V::Str("x".repeat(n))));
        if n < 1000 { v.push(std(V::Nums((0..n as u64).collect()))); v.push(std(V::Oid((0..n as u64).map(|i| i * 3).collect())));
            v.push(std(V::Arr((0..n).map(|i| std(V::U8(i as u8))).collect()))); v.push(std(V::Seq((0..n).map(|i| std(V::U16(i as u16))).collect())));
            v.push(std(V::SDict((0..n).map(|i| (format!("k{}", i), "v".repeat(i % 3))).collect()))); v.push(std(V::Dict((0..n).map(|i| (format!("k{}", i), std(V::IL(i as u64)))).collect()))); }
        v.push(std(V::Seq(vec![std(V::Bytes(p.clone())), std(V::Arr(vec![std(V::Str("y".repeat(n)))]))])));
        v.push(std(V::SDict([("k".repeat(n), "v".repeat(n))].into_iter().collect())));
        v.push(std(V::Dict([("k".repeat(n), std(V::Bytes(p)))].into_iter().collect())));
    }
    for k in 0..=64 { for d in 0..3u64 { let x = if k == 64 { u64::MAX - d } else { (1u64 << k).wrapping_add(d).wrapping_sub(1) };
        v.push(std(V::IL(x))); v.push(std(V::SIL(zag(x)))); v.push(std(V::U64(x))); v.push(std(V::I64(x as i64))); v.push(std(V::F64(x))); v.push(std(V::F32(x as u32))); v.push(std(V::I32(x as i32))); v.push(std(V::Range(x, k as u16 * 1000))); v.push(std(V::Nums(vec![x]))); } }
    for x in [0xF7u64, 0xF8, 0x1F7, 0x1F8, 0x100F7, 0x100F8] { v.push(std(V::IL(x))); v.push(std(V::SIL(zag(x)))); v.push(std(V::Range(x, 0xABCD))); v.push(std(V::Nums(vec![x, x]))); v.push(T { id: x, v: V::Raw(vec![1, 2, 3]) }); }
    for b in 0..=255u8 { v.push(std(V::U8(b))); v.push(std(V::I8(b as i8))); v.push(std(V::U16(b as u16 * 257))); v.push(std(V::I16((b as u16 * 255) as i16))); }
    v.push(std(V::Bool(true))); v.push(std(V::Bool(false))); v.push(std(V::Null));
    v
}
/// deep or very wide tags (slow: used once per run)
fn extreme_tags(c: &Ctx) -> Vec<T> {
    let mut v = vec![]; if c.light { return v; }
    for d in [17usize, 33, 65, 130, 200].into_iter().chain(novel_in(2, 600)) { for k in 0..4 { let mut t = std(V::U8(7)); for i in 0..d { t = std(match (k + if k == 3 { i } else { 0 }) % 3 { 0 => V::Seq(vec![t]), 1 => V::Arr(vec![std(V::Null), t]), _ => V::Dict([("k".to_string(), t)].into_iter().collect()) }); } v.push(t); } }
    for n in [1024usize, 65535, 65536, 65537, 66000].into_iter().chain(novel_in(1000, 100_000)) {
        v.push(std(V::Seq((0..n).map(|i| std(V::U16(i as u16))).collect()))); v.push(std(V::Arr((0..n).map(|i| std(V::U8((i >> 3) as u8))).collect()))); v.push(std(V::Nums((0..n as u64).map(|i| i * 9).collect()))); v.push(std(V::Oid((0..n as u64).collect())));
        v.push(std(V::SDict((0..n).map(|i| (format!("{}", i), String::new())).collect()))); v.push(std(V::Dict((0..n).map(|i| (format!("{}", i), std(V::Null))).collect()))); }
    for n in [0xFF_FFFFusize, 0x100_0000, 0x100_00F8, 0x120_0000].into_iter().chain(novel_in(100_000, 1 << 26)) { v.push(T { id: 60, v: V::Raw(pattern(n, 9)) }); v.push(std(V::Bytes(pattern(n, 4)))); }
    v
}
#[derive(Default)]
struct Pay { b: Vec<u8> }
impl ILTagPayload for Pay {
    fn serialized_size(&self) -> usize { self.b.len() }
    fn serialize(&self, w: &mut dyn Writer) -> il2_iltags::tags::Result<()> { Ok(w.write_all(&self.b)?) }
    fn deserialize(&mut self, _f: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> il2_iltags::tags::Result<()> { self.b.clear(); self.b.resize(n, 0); Ok(r.read_all(&mut self.b)?) }
}
type PayTag = ILGenericPayloadTag<Pay>;

pub fn c09(c: &mut Ctx) {
    c.rule("every type at the sizes around each header-size threshold, then random tags of every type nested up to depth 4, standard and other identifiers, every construction route, and payload tags; id, sizes and all output forms against an independent encoder, short streams included; nesting up to 200 deep, up to 66000 elements, values up to 18 MiB");
    for n in [0usize, 1, 0xF7, 0xF8, 255, 256, 0x1F7, 0x1F8, 65535, 65536, 65536 + 0xF7, 65536 + 0xF8, 70000, 1 << 20] { for id in [16, 40, 0xF7, 0xF8, u64::MAX] { let b = pattern(n, 3);
        c.case("payload tag", || format!("id {} payload of {} bytes", id, n), || { let mut p = PayTag::new(id); p.mut_payload().b = b.clone(); eqb("payload()", &p.payload().b, &b)?; frame(&p, id, &b) }); } }
    for t in big_tags() { for way in 0..3 { c.case("frame", || reseed(&t), || frame_t(&t, way)); if c.stop() { return; } } }
    for t in extreme_tags(c) { c.case("frame", || reseed(&t), || frame_t(&t, 0)); if c.stop() { return; } }
    for _ in 0..c.n * 6000 {
        if c.stop() { return; }
        let mut t = gen(&mut c.rng, 4); if c.rng.chance(1, 3) { t.id = any_id(&mut c.rng, &t.v); }
        let way = c.rng.below(6);
        c.case("frame", || format!("way {} {}", way, reseed(&t)), || frame_t(&t, way));
        let n = gen_len(&mut c.rng); let b = c.rng.bytes(n); let id = raw_id(&mut c.rng);
        c.case("payload tag", || format!("id {} payload {}", id, hex(&b)), || { let mut p = PayTag::new(id); p.mut_payload().b = b.clone(); eqb("payload()", &p.payload().b, &b)?; eqb("deref", &p.b, &b)?; frame(&p, id, &b) });
    }
}
// ---- decoding against the model (C10, C11, C12, C13, C16) ------------------------------------
/// everything the factory does with the bytes b agrees with the model
pub fn decode_case(b: &[u8], strict: bool) -> Result<(), String> {
    let want = parse(b, strict);
    let f = ILStandardTagFactory::new(strict);
    let chk = |r: il2_iltags::tags::Result<Box<dyn ILTag>>, pos: usize, how: &str| -> Result<(), String> {
        match (&want, r) {
            (None, Err(_)) => Ok(()),
            (None, Ok(t)) => Err(format!("{}: accepted invalid input as {:?}", how, view(t.as_ref()))),
            (Some((w, _)), Err(e)) => Err(format!("{}: rejected valid input ({:?}), which denotes {:?}", how, e, w)),
            (Some((w, n)), Ok(t)) => { let v = view(t.as_ref()); if v.as_ref() != Some(w) { return Err(format!("{}: got {:?}, expected {:?}", how, v, w)); } eq(&format!("{}: bytes consumed", how), pos, *n) }
        }
    };
    let extent = match parse_head(b) { Some((_, n, h)) => h.saturating_add(n as usize).min(b.len()), None => b.len().min(18) };
    let mut r = ByteArrayReader::new(b);
    let x = f.deserialize(&mut r); let p = r.offset();
    ok("never reads beyond the announced extent", p <= extent)?;
    chk(x, p, "slice reader")?;
    if b.len() < 5000 {
        let mut r = Plain { data: b.to_vec(), pos: 0 };
        let x = f.deserialize(&mut r); let p = r.pos;
        ok("never reads beyond the announced extent (byte-wise)", p <= extent)?;
        chk(x, p, "byte-wise reader")?;
        if let Some((_, n)) = &want { if *n < 300 { for bad in places(*n) { let mut r = FlakyR { data: b.to_vec(), pos: 0, n: 0, bad }; ok("a read that fails once is an error", f.deserialize(&mut r).is_err())?; } } }
        let mut inner = VecReader::new(b);
        let (x, used) = { let mut r = LimitedReader::new(&mut inner, b.len()); let x = f.deserialize(&mut r); (x, b.len() - r.available()) };
        chk(x, used, "limited reader")?;
        let mut cur = std::io::Cursor::new(b.to_vec());
        let x = f.deserialize(&mut cur); let p = cur.position() as usize;
        if x.is_ok() { chk(x, p, "std stream")?; } else { chk(x, 0, "std stream")?; }
    }
    let whole = match &want { Some((_, n)) => *n == b.len(), None => false };
    let g = f.from_bytes(b);
    eq("from_bytes accepts", g.is_ok(), whole)?;
    if let Ok(t) = g { eq("from_bytes value", view(t.as_ref()), want.map(|w| w.0))?; }
    Ok(())
}
/// one factory used for many decodings
fn session_case(items: &[Vec<u8>], strict: bool, shared: bool) -> Result<(), String> {
    static LAX: std::sync::OnceLock<ILStandardTagFactory> = std::sync::OnceLock::new(); static STRICT: std::sync::OnceLock<ILStandardTagFactory> = std::sync::OnceLock::new();
    let own;
    let f = if shared { (if strict { &STRICT } else { &LAX }).get_or_init(|| ILStandardTagFactory::new(strict)) } else { own = ILStandardTagFactory::new(strict); &own };
    for (i, b) in items.iter().enumerate() {
        let want = parse(b, strict);
        let mut r = ByteArrayReader::new(b);
        let at = |w: &str| format!("decoding {} of {} with the same factory ({}): {}", i + 1, items.len(), show(b), w);
        match (f.deserialize(&mut r), &want) {
            (Ok(t), Some((w, n))) => { eq(&at("value"), view(t.as_ref()).as_ref(), Some(w))?; eq(&at("consumed"), r.offset(), *n)?;
                let mut e = f.create_tag(w.id).ok_or(at("create_tag of a known identifier failed"))?; let mut r = ByteArrayReader::new(b); f.deserialize_into(&mut r, e.as_mut()).map_err(|e| at(&format!("deserialize_into an empty tag failed: {:?}", e)))?; eq(&at("deserialize_into"), view(e.as_ref()).as_ref(), Some(w))?; }
            (Err(_), None) => (),
            (g, w) => return Err(at(&format!("got {:?}, expected {:?}", g.map(|t| view(t.as_ref())), w))),
        }
        eq(&at("from_bytes"), f.from_bytes(b).ok().map(|t| view(t.as_ref())), want.filter(|w| w.1 == b.len()).map(|w| Some(w.0)))?;
    }
    Ok(())
}
fn sessions(c: &mut Ctx) {
    let light = c.light;
    let good = [vec![1u8, 1], vec![17, 2, b'h', b'i'], vec![22, 3, 3, 9, 0], vec![21, 3, 1, 1, 0], vec![60, 1, 5], vec![30, 5, 1, 17, 1, b'k', 0]];
    let bad = [vec![17u8, 2, 0xFF, 0xFF], vec![22, 2, 17, 9], vec![1, 2], vec![21, 2, 9, 0], vec![4, 1], vec![12, 0, 0], vec![60, 9, 1], vec![22, 6, 22, 4, 22, 2, 16, 5], vec![30, 2, 1, 0], vec![13]];
    for n in [3usize, 20, 130, 300, 1100].into_iter().filter(move |n| !light || *n < 100).chain(novel_in(2, 4000)) { for x in &bad { for s in [false, true] {
        let mut v = vec![good[n % good.len()].clone()]; v.extend(vec![x.clone(); n]); v.extend(good.iter().cloned());
        c.case("session", || format!("{} decodings of {} between good ones, strict={}", n, hex(x), s), || session_case(&v, s, light)); if c.stop() { return; } } } }
    for _ in 0..c.n * 60 {
        if c.stop() { return; }
        let k = c.rng.range(2, 12); let mut v = vec![];
        for _ in 0..k { let t = gen(&mut c.rng, 2); let mut e = enc(&t); if c.rng.chance(1, 2) { e = mutate(&mut c.rng, &e); } if e.len() < 2000 && !announces_big(&e) { v.push(e); } }
        let s = c.rng.chance(1, 2);
        c.case("session", || format!("{:?} strict={}", v.iter().map(|b| hex(b)).collect::<Vec<_>>(), s), || session_case(&v, s, light));
    }
}
fn round_case(t: &T, tail: &[u8]) -> Result<(), String> {
    let want = enc(t);
    let o = build(t, tail.len());
    let b = to_bytes(o.as_ref())?;
    eqb("serialized", &b, &want)?;
    let mut d = b.clone(); d.extend(tail);
    for strict in [false, true] {
        let f = ILStandardTagFactory::new(strict);
        let mut r = ByteArrayReader::new(&d);
        let g = f.deserialize(&mut r);
        let known = parse(&d, strict).is_some();
        match g {
            Err(e) => if known { return Err(format!("deserialization of its own encoding failed: {:?}", e)); },
            Ok(g) => { eq("round trip", view(g.as_ref()).as_ref(), Some(t))?; eq("consumed", r.offset(), b.len())?; eqb("re-serialized", &to_bytes(g.as_ref())?, &want)?; }
        }
    }
    Ok(())
}
fn rounds(c: &mut Ctx, mk: &dyn Fn(&mut Rng) -> T, n: u64, sel: &dyn Fn(&T) -> bool) {
    for t in big_tags() { if sel(&t) { for tail in [&[][..], &[0xFFu8, 0, 1]] { c.case("round trip", || format!("{} then {}", reseed(&t), hex(tail)), || round_case(&t, tail)); } if c.stop() { return; } } }
    for t in extreme_tags(c) { if sel(&t) { c.case("round trip", || reseed(&t), || round_case(&t, &[1])); if c.stop() { return; } } }
    for _ in 0..n {
        if c.stop() { return; }
        let t = mk(&mut c.rng); let k = c.rng.below(4); let tail = c.rng.bytes(k);
        c.case("round trip", || format!("{} then {}", reseed(&t), hex(&tail)), || round_case(&t, &tail));
        let b = enc(&t);
        for _ in 0..3 { let m = mutate(&mut c.rng, &b); if m.len() > 100_000 { continue; } let s = c.rng.chance(1, 2);
            if announces_big(&m) { continue; }
            c.case("decode", || format!("{} strict={}", show(&m), s), || decode_case(&m, s)); }
    }
}
/// does some header-looking prefix announce so much that decoding allocates a lot (fine, but slow)
fn announces_big(b: &[u8]) -> bool { (0..b.len().min(4000)).any(|i| b[i] >= 0xFA && matches!(ilint_parse(&b[i..]), Some((n, _)) if n > 1 << 22 && n <= MAX)) }
fn implicit(v: &V) -> bool { std_id(v) < 15 }
fn container(v: &V) -> bool { matches!(v, V::Seq(_) | V::Arr(_) | V::Dict(_) | V::SDict(_)) }
/// change a tag's value in place, through its own setters
fn set(t: &mut dyn ILTag, v: &V) -> bool {
    macro_rules! s { ($ty:ident, |$x:ident| $e:expr) => { if let Some($x) = t.as_mut_any().downcast_mut::<$ty>() { $e; return true; } else { return false; } } }
    match v {
        V::Null => t.as_any().is::<ILNullTag>(),
        V::Bool(n) => s!(ILBoolTag, |x| x.set_value(*n)), V::I8(n) => s!(ILInt8Tag, |x| x.set_value(*n)), V::U8(n) => s!(ILUInt8Tag, |x| x.set_value(*n)), V::I16(n) => s!(ILInt16Tag, |x| x.set_value(*n)), V::U16(n) => s!(ILUInt16Tag, |x| x.set_value(*n)),
        V::I32(n) => s!(ILInt32Tag, |x| x.set_value(*n)), V::U32(n) => s!(ILUInt32Tag, |x| x.set_value(*n)), V::I64(n) => s!(ILInt64Tag, |x| x.set_value(*n)), V::U64(n) => s!(ILUInt64Tag, |x| x.set_value(*n)),
        V::IL(n) => s!(ILILInt64Tag, |x| x.set_value(*n)), V::SIL(n) => s!(ILSignedILInt64Tag, |x| x.set_value(*n)), V::F32(n) => s!(ILBin32Tag, |x| x.set_value(f32::from_bits(*n))), V::F64(n) => s!(ILBin64Tag, |x| x.set_value(f64::from_bits(*n))), V::B128(n) => s!(ILBin128Tag, |x| x.set_value(n)),
        V::Bytes(n) => s!(ILByteArrayTag, |x| { x.mut_value().clear(); x.mut_value().extend_from_slice(n) }), V::BInt(n) => s!(ILBigIntTag, |x| *x.mut_value() = n.clone()), V::Raw(n) => s!(ILRawTag, |x| x.set_value(n)), V::Str(n) => s!(ILStringTag, |x| x.set_value(n)),
        V::BDec(k, n) => s!(ILBigDecTag, |x| { x.set_scale(*k); x.mut_value().clear(); x.mut_value().extend_from_slice(n) }), V::Nums(n) => s!(ILILIntArrayTag, |x| x.set_value(n)), V::Oid(n) => s!(ILOIDTag, |x| x.set_value(n)),
        V::Range(a, n) => s!(ILRangeTag, |x| { x.set_count(*n); x.set_start(*a) }), V::Ver(n) => s!(ILVersionTag, |x| { x.set_build(n[3]); x.set_revision(n[2]); x.set_minor(n[1]); x.set_major(n[0]) }),
        _ => false,
    }
}
/// one tag object takes all these values in turn, set or decoded in place
fn turns_case(id: u64, vs: &[V], how: u64) -> Result<(), String> {
    let f = ILStandardTagFactory::new(false);
    let mut t = build(&T { id, v: vs[0].clone() }, how as usize);
    for (i, v) in vs.iter().enumerate().skip(1) {
        let w = T { id, v: v.clone() }; let at = format!("value {} {:?} after {}", i, std::mem::discriminant(v), i - 1);
        if how >> (i % 61) & 1 == 0 { ok(&format!("{}: set_value", at), set(t.as_mut(), v))?; }
        else { let b = enc(&w); let mut r = ByteArrayReader::new(&b); f.deserialize_into(&mut r, t.as_mut()).map_err(|e| format!("{}: deserialize_into failed: {:?}", at, e))?; eq(&format!("{}: consumed", at), r.offset(), b.len())?; }
        let g = view(t.as_ref()); if g.as_ref() != Some(&w) { return Err(format!("{}: holds {}, expected {}", at, g.map(|g| reseed(&g)).unwrap_or_default(), reseed(&w))); }
        eqb(&at, &to_bytes(t.as_ref())?, &enc(&w))?;
    }
    Ok(())
}
/// values close to v: one bit, one byte, the sign, the middle of it, zero, shorter, longer
fn near(r: &mut Rng, v: &V) -> V {
    fn nb(r: &mut Rng, b: &[u8]) -> Vec<u8> { let mut b = b.to_vec(); let n = b.len(); match r.below(6) { 0 if n > 0 => { b.pop(); } 1 => b.push(r.byte()), 2 => b.clear(), 3 if n > 1 => { let j = r.below(n - 1); b.swap(j, j + 1); } _ if n > 0 => { let j = if n > 4 && r.chance(1, 2) { r.range(2, n - 2) } else { r.below(n) }; b[j] ^= 1 << r.below(8); } _ => () } b }
    let nu = |r: &mut Rng, x: u64| match r.below(6) { 0 => 0, 1 => x.wrapping_add(1), 2 => x.wrapping_sub(1), 3 => !x, 4 => x & 0xFF, _ => x ^ 1 << r.below(64) };
    let nn = |r: &mut Rng, x: &[u64]| { let mut x = x.to_vec(); match r.below(4) { 0 => { x.pop(); } 1 => { let y = r.u64b(); x.push(y); } _ => if !x.is_empty() { let j = r.below(x.len()); x[j] = nu(r, x[j]); } } x };
    match v {
        V::Bool(_) => V::Bool(r.chance(1, 2)), V::I8(x) => V::I8(nu(r, *x as u64) as i8), V::U8(x) => V::U8(nu(r, *x as u64) as u8), V::I16(x) => V::I16(nu(r, *x as u64) as i16), V::U16(x) => V::U16(nu(r, *x as u64) as u16),
        V::I32(x) => V::I32(nu(r, *x as u64) as i32), V::U32(x) => V::U32(nu(r, *x as u64) as u32), V::I64(x) => V::I64(nu(r, *x as u64) as i64), V::U64(x) => V::U64(nu(r, *x)), V::IL(x) => V::IL(nu(r, *x)), V::SIL(x) => V::SIL(nu(r, *x as u64) as i64),
        V::F32(x) => V::F32(match r.below(4) { 0 => *x ^ 0x8000_0000, 1 => 0, _ => nu(r, *x as u64) as u32 }), V::F64(x) => V::F64(match r.below(4) { 0 => *x ^ 1 << 63, 1 => 0, _ => nu(r, *x) }), V::B128(x) => { let b = nb(r, x); let mut a = *x; for i in 0..16 { if i < b.len() { a[i] = b[i]; } } V::B128(a) }
        V::Bytes(x) => V::Bytes(nb(r, x)), V::BInt(x) => V::BInt(nb(r, x)), V::Raw(x) => V::Raw(nb(r, x)), V::Str(x) => V::Str(String::from_utf8_lossy(&nb(r, x.as_bytes())).into_owned()), V::BDec(s, x) => if r.chance(1, 3) { V::BDec(nu(r, *s as u64) as i32, x.clone()) } else { V::BDec(*s, nb(r, x)) },
        V::Nums(x) => V::Nums(nn(r, x)), V::Oid(x) => V::Oid(nn(r, x)), V::Range(a, n) => if r.chance(1, 2) { V::Range(nu(r, *a), *n) } else { V::Range(*a, nu(r, *n as u64) as u16) }, V::Ver(x) => { let mut x = *x; let j = r.below(4); x[j] = nu(r, x[j] as u64) as i32; V::Ver(x) }
        _ => v.clone(),
    }
}
fn turns(c: &mut Ctx, sel: &dyn Fn(&V) -> bool) {
    for n in bigs() { for v in [V::Bytes(pattern(n, 1)), V::BInt(pattern(n, 1)), V::Raw(pattern(n, 1)), V::BDec(7, pattern(n, 1)), V::Str("ab".repeat(n / 2)), V::Nums((0..n as u64).map(|x| x * 9).collect()), V::Oid((0..n as u64).collect())] { if !sel(&v) || n > 5000 { continue; }
        let mut vs = vec![v.clone()]; for _ in 0..5 { let x = near(&mut c.rng, vs.last().unwrap()); vs.push(x); } vs.push(v.clone()); let how = c.rng.next();
        c.case("values in turn", || format!("{:?}: a {} byte pattern, then near values {}", std::mem::discriminant(&v), n, vs.iter().skip(1).map(|v| format!("{} bytes", venc(v).len())).collect::<Vec<_>>().join(", ")), || turns_case(std_id(&v), &vs, how)); if c.stop() { return; } } }
    for _ in 0..c.n * 2000 {
        if c.stop() { return; }
        let v = loop { let v = gen_leaf(&mut c.rng); if sel(&v) { break v; } };
        let mut vs = vec![v]; for _ in 0..c.rng.range(1, 5) { let x = if c.rng.chance(1, 4) { vs[0].clone() } else { near(&mut c.rng, vs.last().unwrap()) }; vs.push(x); }
        let id = if c.rng.chance(1, 3) { any_id(&mut c.rng, &vs[0]) } else { std_id(&vs[0]) }; let how = c.rng.next();
        c.case("values in turn", || format!("id {} (bits {:#x}: set 0, decoded in place 1) {:?}", id, how, vs), || turns_case(id, &vs, how));
    }
}
pub fn c10(c: &mut Ctx) {
    c.rule("every implicit identifier x value bytes all 00/01/02/7F/80/FF of every length 0..18 (truncations and boolean bytes 0..255 included); boundary values of each type; random values and mutated encodings; bytes, type, value, consumption against the model");
    for b in 0..=255u8 { for s in [false, true] { let d = [1, b, b]; c.case("decode", || hex(&d), || decode_case(&d, s)); } }
    for id in 0..=16u8 { for f in [0u8, 1, 2, 0x7F, 0x80, 0xFF] { for n in 0..19usize { let mut d = vec![id]; d.extend(vec![f; n]); c.case("decode", || hex(&d), || decode_case(&d, false));
        if id == 10 || id == 14 { for h in 0xF7..=0xFFu8 { let mut d = vec![id, h]; d.extend(vec![f; n]); c.case("decode", || hex(&d), || decode_case(&d, true)); } } } } }
    turns(c, &implicit);
    let n = c.n * 4000;
    rounds(c, &|r| loop { let v = gen_leaf(r); if implicit(&v) { return std(v); } }, n, &|t| implicit(&t.v));
}
/// element counts of every magnitude before a few elements
fn counts(c: &mut Ctx) {
    for id in [20u64, 25, 21, 30, 31] { for k in 8..64u32 { for x in [0u64, 1, 2, 3, 5] { for el in [&[][..], &[0, 0, 0], &[1, 1, 1, 0, 0]] {
        let cnt = (1u64 << k).wrapping_add(x); if cnt < 400 { continue; }
        let mut v = ilint(cnt); v.extend(el); let mut d = head(id, v.len() as u64); d.extend(&v);
        c.case("element count", || hex(&d), || decode_case(&d, k % 2 == 0)); if c.stop() { return; } } } } }
}
pub fn c11(c: &mut Ctx) {
    c.rule("explicit scalar types: lengths around header thresholds, random contents with any trailing bytes, mutated encodings (announced size off by one, truncated, wrong counts, invalid UTF-8, non-minimal headers), stand-alone string tag helpers; against the model");
    for id in 16..=25u8 { for n in 0..7u8 { for f in [0u8, 1, 2, 3, 0x7F, 0xC3, 0xF8, 0xFF] { for k in 0..8usize { let mut d = vec![id, n]; d.extend(vec![f; k]); c.case("decode", || hex(&d), || decode_case(&d, false)); } } } }
    counts(c);
    turns(c, &|v| !implicit(v) && !container(v));
    let n = c.n * 3500;
    rounds(c, &|r| loop { let v = gen_leaf(r); if !implicit(&v) && !matches!(v, V::Raw(_)) { return std(v); } }, n, &|t| !implicit(&t.v) && !container(&t.v));
    for i in 0..c.n * 3000 {
        if c.stop() { return; }
        let s = gen_text(&mut c.rng);
        let mut b = enc(&std(V::Str(s.clone()))); if i % 2 == 0 { b = mutate(&mut c.rng, &b); if announces_big(&b) { continue; } }
        c.case("string tag helpers", || format!("{:?} / {}", s, show(&b)), || {
            let e = enc(&std(V::Str(s.clone())));
            eq("string_tag_size_from_value", explicit::string_tag_size_from_value(&s), e.len() as u64)?;
            let mut w = VecWriter::new(); ok("serialize_string_tag_from_value", explicit::serialize_string_tag_from_value(&s, &mut w).is_ok())?; eqb("bytes", w.as_slice(), &e)?; if e.len() < 300 { for bad in places(e.len()) { let mut w = FlakyW { data: vec![], n: 0, bad }; ok("a write that fails once is an error", explicit::serialize_string_tag_from_value(&s, &mut w).is_err())?; eqb("nothing is written after it", &w.data, &e[..bad])?; } };
            let want = match parse_as(17, &V::Str("".into()), &b, true) { Some((T { v: V::Str(x), .. }, n)) => Some((x, n)), _ => None };
            let mut r = ByteArrayReader::new(&b); let g = explicit::deserialize_string_tag_from_value(&mut r).ok();
            eq("deserialize_string_tag_from_value", &g, &want.as_ref().map(|x| x.0.clone()))?; if let Some((_, n)) = &want { eq("consumed", r.offset(), *n)?; }
            let mut out = String::from("something before"); let mut r = ByteArrayReader::new(&b); let g = explicit::deserialize_string_tag_from_value_into(&mut r, &mut out).is_ok();
            eq("deserialize_string_tag_from_value_into", g, want.is_some())?; if let Some((x, _)) = &want { eq("into", &out, x)?; } Ok(()) });
    }
}
pub fn c12(c: &mut Ctx) {
    c.rule("containers: every short list of small elements, thresholds of the element count and size, random nesting up to depth 5 with all element types, empty and repeated keys, mutated encodings at every level; structure, order, values and acceptance against the model");
    let els = [vec![0u8], vec![1, 1], vec![3, 9], vec![10, 0xF8, 1], vec![16, 1, 7], vec![17, 1, b'a'], vec![17, 0], vec![15], vec![1, 2], vec![40, 0], vec![22, 0], vec![21, 1, 0]];
    for id in [21u8, 22, 30, 31] { for a in 0..=els.len() { for b in 0..=els.len() { for cnt in 0..4u8 { for off in [-1i32, 0, 1] {
        let mut v = if id == 22 { vec![] } else { vec![cnt] }; for e in [a, b] { if e < els.len() { v.extend(&els[e]); } }
        let n = v.len() as i32 + off; if n < 0 { continue; }
        let mut d = vec![id, n as u8]; d.extend(&v);
        let s = (a + b) % 2 == 0;
        c.case("decode", || format!("{} strict={}", hex(&d), s), || decode_case(&d, s)); if c.stop() { return; } } } } } }
    for id in [30u8, 31] { for a in 0..els.len() { for b in 0..els.len() { for d3 in 0..els.len() { for d4 in [1usize, 4, 5] {
        let mut v = vec![2u8]; for e in [a, b, d3, d4] { v.extend(&els[e]); }
        let mut d = vec![id, v.len() as u8]; d.extend(&v); c.case("decode", || hex(&d), || decode_case(&d, false)); if c.stop() { return; } } } } } }
    counts(c);
    let n = c.n * 60; resized(c, n, &container);
    let n = c.n * 1800;
    rounds(c, &|r| { let d = r.range(1, 5); std(gen_container(r, d)) }, n, &|t| container(&t.v));
}
/// the encoding of t with the announced size changed to m, and values of announced sizes other than their own given to deserialize_value
fn resized_case(t: &T, m: u64, tail: &[u8], strict: bool) -> Result<(), String> {
    let e = enc(t); let h = match parse_head(&e) { Some(x) => x.2, None => return Ok(()) };
    let mut d = head(t.id, m); d.extend(&e[h..]); d.extend(tail);
    decode_case(&d, strict)?;
    let mut v = e[h..].to_vec(); v.extend(tail); if m > 1 << 20 { return Ok(()); }
    let f = ILStandardTagFactory::new(strict); let want = parse_val(&t.v, m, &v, strict).filter(|w| t.id < 16 || w.1 as u64 == m);
    for k in 0..2 {
        let mut o = build(&T { id: t.id, v: empty_like(&t.v) }, 1);
        let (g, p) = if k == 0 { let mut r = ByteArrayReader::new(&v); let g = o.deserialize_value(&f, m as usize, &mut r).is_ok(); (g, r.offset()) } else { let mut r = Plain { data: v.clone(), pos: 0 }; let g = o.deserialize_value(&f, m as usize, &mut r).is_ok(); (g, r.pos) };
        let at = format!("deserialize_value of {} bytes from {}", m, show(&v));
        ok(&format!("{}: reads at most the announced bytes, read {}", at, p), p as u64 <= m)?; eq(&at, g, want.is_some())?;
        if let Some((w, n)) = &want { eq(&at, view(o.as_ref()).map(|x| x.v).as_ref(), Some(w))?; eq(&format!("{}: bytes read", at), p, *n)?; }
    }
    Ok(())
}
/// a header followed by any number of zero bytes
struct Endless { head: Vec<u8>, pos: u64 }
impl Reader for Endless {
    fn read(&mut self) -> il2_iltags::io::Result<u8> { let b = self.head.get(self.pos as usize).cloned().unwrap_or(0); self.pos += 1; Ok(b) }
    fn read_all(&mut self, b: &mut [u8]) -> il2_iltags::io::Result<()> { b.fill(0); for i in 0..b.len() { match self.head.get(self.pos as usize + i) { Some(x) => b[i] = *x, None => break } } self.pos += b.len() as u64; Ok(()) }
    fn skip(&mut self, n: usize) -> il2_iltags::io::Result<()> { self.pos += n as u64; Ok(()) }
}
fn over_case(id: u64, n: u64, strict: bool) -> Result<(), String> {
    let f = ILStandardTagFactory::new(strict); let h = head(id, n);
    let mut r = Endless { head: h.clone(), pos: 0 }; ok("a tag announced larger than 512 MiB is an error", f.deserialize(&mut r).is_err())?; ok(&format!("refused before its value is read, {} bytes were", r.pos), r.pos <= h.len() as u64 + 16)?;
    if let Some(v) = kind_of(id) { let mut t = build(&T { id, v }, 1); let mut r = Endless { head: h.clone(), pos: 0 }; ok("deserialize_into of such a tag is an error", f.deserialize_into(&mut r, t.as_mut()).is_err())?; }
    if id == 17 { let mut r = Endless { head: h.clone(), pos: 0 }; ok("such a string is an error", explicit::deserialize_string_tag_from_value(&mut r).is_err())?; let mut s = String::new(); let mut r = Endless { head: h, pos: 0 }; ok("such a string is an error (into)", explicit::deserialize_string_tag_from_value_into(&mut r, &mut s).is_err())?; }
    Ok(())
}
fn resized(c: &mut Ctx, n: u64, sel: &dyn Fn(&V) -> bool) {
    for _ in 0..n {
        if c.stop() { return; }
        let t = match c.rng.below(3) { 0 => { let d = c.rng.range(1, 2); std(gen_container(&mut c.rng, d)) } _ => gen(&mut c.rng, 2) }; if !sel(&t.v) || t.id < 16 { continue; }
        let l = venc(&t.v).len() as u64; if l > 300 { continue; } let k = c.rng.below(4); let tail = c.rng.bytes(k); let s = c.rng.chance(1, 3);
        for m in 0..l + 3 { if l > 60 && m + 20 < l && m % 7 != 0 { continue; } c.case("announced size changed", || format!("{} announced as {} bytes, then {} strict={}", reseed(&t), m, hex(&tail), s), || resized_case(&t, m, &tail, s)); if c.stop() { return; } }
    }
}
pub fn c13(c: &mut Ctx) {
    c.rule("random bytes, identifiers x announced sizes near 0, 2^8, 2^16, 512 MiB, 2^32, 2^63, 2^64, counts near the integer maximum, mutated encodings of random tags, through slice, byte-wise, limited and std readers, single factories used for long series of good and bad inputs, extreme nesting and widths; no panic, acceptance, value, bytes consumed and the farthest byte read against the model");
    let sizes = [0u64, 1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 0xF7, 0xF8, 0xFF, 0x100, 0xFFFF, 0x10000, (1 << 20) + 1, MAX + 1, MAX + 2, 2 * MAX, u32::MAX as u64, 1 << 32, (1 << 32) + 4, 1 << 40, i64::MAX as u64, 1 << 63, u64::MAX - 0xF8, u64::MAX - 9, u64::MAX - 1, u64::MAX];
    for id in (0..=40u64).chain([0xF7, 0xF8, u64::MAX]) { for n in sizes { for body in [&[][..], &[0], &[1], &[2, 0], &[0xFF; 9], &[0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x07], &[0; 17], &[3, 0, 0, 0, 0], &[0xFB, 0x20, 0, 0, 0], &[0xFF, 0, 0, 0, 1, 0, 0, 0, 0, 1]] {
        let mut d = ilint(id); d.extend(ilint(n)); d.extend(body);
        c.case("decode", || hex(&d), || decode_case(&d, id % 2 == 0)); if c.stop() { return; } } } }
    counts(c);
    sessions(c);
    let n = c.n * 60; resized(c, n, &|_| true);
    for t in extreme_tags(c) { let b = enc(&t); if b.len() < 1 << 20 { c.case("decode", || reseed(&t), || decode_case(&b, false)); } let b = b[..b.len() - 1].to_vec(); c.case("decode, last byte missing", || reseed(&t), || decode_case(&b, true)); if c.stop() { return; } }
    for id in (16..=33u64).chain([60, u64::MAX]) { for n in [MAX + 1, MAX + 2, MAX + 0xF8, (1 << 30) - 1, 1 << 30, 1 << 31, (1 << 32) + 1, (1 << 32) + MAX, 1 << 40, 1 << 63, u64::MAX] { for s in [false, true] {
        c.case("announced larger than the limit", || format!("id {} announced as {} bytes, endless zeros follow, strict={}", id, n, s), || over_case(id, n, s)); if c.stop() { return; } } } }
    if !c.light { for id in [16u64, 61] { c.case("announced as the limit", || format!("id {} announced as {} bytes, zeros follow", id, MAX), || { let mut r = Endless { head: head(id, MAX), pos: 0 }; let h = r.head.len() as u64; let t = ILStandardTagFactory::new(false).deserialize(&mut r).map_err(|e| format!("refused: {:?}", e))?; eq("value size", t.value_size(), MAX)?; eq("consumed", r.pos, MAX + h) }); } }
    let d = head(16, MAX); c.case("a truncated tag of the largest size", || hex(&d), || { let mut r = ByteArrayReader::new(&d); ok("is an error", ILStandardTagFactory::new(false).deserialize(&mut r).is_err()) });
    for i in 0..c.n * 15000 {
        if c.stop() { return; }
        let b = match i % 3 { 0 => { let n = c.rng.below(24); let mut b = c.rng.bytes(n); for x in b.iter_mut() { if c.rng.chance(2, 3) { *x %= 32; } } b }
            1 => { let t = gen(&mut c.rng, 3); let e = enc(&t); mutate(&mut c.rng, &e) }
            _ => { let t = gen(&mut c.rng, 2); let e = enc(&t); let e = mutate(&mut c.rng, &e); let e2 = mutate(&mut c.rng, &e); if c.rng.chance(1, 2) { let mut x = head(22, e2.len() as u64); x.extend(&e2); x } else { let mut x = head(21, e2.len() as u64 + 1); x.push(1); x.extend(&e2); x } } };
        if b.len() > 50_000 || announces_big(&b) { continue; }
        let s = c.rng.chance(1, 2);
        c.case("decode", || format!("{} strict={}", show(&b), s), || decode_case(&b, s));
    }
}
// ---- C14 -------------------------------------------------------------------------------------
fn type_case(id: u64, strict: bool) -> Result<(), String> {
    let f = ILStandardTagFactory::new(strict);
    let want = lookup(id, strict).map(|v| T { id, v });
    eq("create_tag", f.create_tag(id).map(|t| view(t.as_ref())), want.map(Some))
}
fn unknown_case(id: u64, val: &[u8]) -> Result<(), String> {
    let mut b = head(id, val.len() as u64); b.extend(val);
    let f = ILStandardTagFactory::new(false);
    let t = f.from_bytes(&b).map_err(|e| format!("lenient factory refused an unknown tag: {:?}", e))?;
    eq("raw tag", view(t.as_ref()), Some(T { id, v: V::Raw(val.to_vec()) }))?;
    eqb("re-serialized", &to_bytes(t.as_ref())?, &b)?;
    eq("strict factory refuses", ILStandardTagFactory::new(true).from_bytes(&b).is_err(), true)
}
fn strict_flag(s: bool) -> Result<(), String> { let mut f = ILStandardTagFactory::new(s); eq("strict()", f.engine().strict(), s) }
/// a factory with extra and removed registrations
fn custom_case(ops: &[(u8, u64)], ids: &[u64], strict: bool, val: &[u8]) -> Result<(), String> {
    let mut f = ILStandardTagFactory::new(strict);
    let mut m: HashMap<u64, u8> = HashMap::new(); // 9: payload, 8: removed
    for (k, id) in ops { for x in [*id, ids[0]] { let _ = f.create_tag(x); } match k { 0 => { f.engine().deregister(*id); m.insert(*id, 8); } 1 => { f.engine().register(*id, Box::new(ILDefaultWithIdTagCreator::<PayTag>::new())); m.insert(*id, 9); }
        2 => { f.engine().register(*id, Box::new(ILDefaultWithIdTagCreator::<ILRawTag>::new())); m.insert(*id, 7); } _ => { f.engine().register(*id, Box::new(Marked(*id ^ 0x55))); m.insert(*id, 6); } } }
    for id in ids {
        let got = f.create_tag(*id);
        let at = format!("id {}", id);
        match m.get(id) {
            Some(9) => { let t = got.ok_or(format!("{}: not built", at))?; eq(&at, t.id(), *id)?; ok(&format!("{}: the registered payload type", at), t.as_any().is::<PayTag>())?; }
            Some(6) => { let t = got.ok_or(format!("{}: not built", at))?; eq(&at, t.id(), *id)?; eq(&at, mark(t.as_ref()).ok(), Some(*id ^ 0x55))?;
                if *id < 16 && imp_size(*id) != 8 { continue; } let mut b = head(*id, 8); b.extend(pattern(8, 1));
                let g = f.from_bytes(&b).map_err(|e| format!("{}: a tag of the registered type was refused: {:?}", at, e))?; eq(&at, mark(g.as_ref()).ok(), Some(u64::from_be_bytes(pattern(8, 1).try_into().unwrap())))?; }
            Some(7) => { let t = got.ok_or(format!("{}: not built", at))?; eq(&at, view(t.as_ref()), Some(T { id: *id, v: V::Raw(vec![]) }))?; }
            Some(_) => { let w = if !strict && *id > 15 { Some(Some(T { id: *id, v: V::Raw(vec![]) })) } else { None }; eq(&at, got.map(|t| view(t.as_ref())), w)?; }
            None => eq(&at, got.map(|t| view(t.as_ref())), lookup(*id, strict).map(|v| Some(T { id: *id, v })))?,
        }
        let mut b = head(*id, val.len() as u64); b.extend(val);
        if *id > 15 { match m.get(id) {
            Some(9) => { let t = f.from_bytes(&b).map_err(|e| format!("{}: {:?}", at, e))?; ok(&format!("{}: payload type", at), t.as_any().is::<PayTag>())?; eqb(&at, &to_bytes(t.as_ref())?, &b)?; }
            Some(6) => (),
            Some(8) if strict => eq(&at, f.from_bytes(&b).is_err(), true)?,
            Some(_) => eq(&at, f.from_bytes(&b).ok().map(|t| view(t.as_ref())), Some(Some(T { id: *id, v: V::Raw(val.to_vec()) })))?,
            None if matches!(id, 21 | 22 | 30) => (), // contain tags, built by the same factory
            None => eq(&at, f.from_bytes(&b).ok().map(|t| view(t.as_ref())), parse(&b, strict).filter(|x| x.1 == b.len()).map(|x| Some(x.0)))?,
        } }
    }
    Ok(())
}
pub fn c14(c: &mut Ctx) {
    c.rule("identifiers 0..600 and boundary-biased ones: type created in both modes; unknown identifiers x value bytes: raw tag and identical re-serialization; unknown implicit identifier refused; factories with added and removed registrations; against the standard's table");
    for s in [false, true] { c.case("strict flag", || s.to_string(), || strict_flag(s)); }
    for id in (0..600u64).chain(novel().0.iter().cloned()) { for s in [false, true] { c.case("create_tag", || format!("id {} strict {}", id, s), || type_case(id, s)); if id < 16 || kind_of(id).is_some() { let mut d = ilint(id); d.extend(if id < 16 { vec![] } else { vec![0] }); c.case("decode", || format!("{} strict {}", hex(&d), s), || decode_case(&d, s)); } } if c.stop() { return; } }
    for _ in 0..c.n * 3000 {
        if c.stop() { return; }
        let id = raw_id(&mut c.rng); let n = gen_len(&mut c.rng); let v = c.rng.bytes(n);
        c.case("unknown tag", || format!("id {} value {}", id, hex(&v)), || unknown_case(id, &v));
        let s = c.rng.chance(1, 2); c.case("create_tag", || format!("id {} strict {}", id, s), || type_case(id, s));
    }
    sessions(c);
    for n in bigs() { let v = pattern(n, 1); c.case("unknown tag", || format!("id 99 value {}", show(&v)), || unknown_case(99, &v)); }
    let all: Vec<u64> = (0..40).collect();
    for id in 0..34u64 { for s in [false, true] { for ops in [vec![(0u8, id)], vec![(3, id)], vec![(3, id), (0, id)], vec![(0, id), (3, id)], vec![(0, id), (3, (id + 1) % 34)], vec![(1, id.max(16)), (3, id)]] {
        c.case("custom factory", || format!("(0 remove, 1 payload, 2 raw, 3 a user's type) {:?} strict {} value 07", ops, s), || custom_case(&ops, &all, s, &[7])); if c.stop() { return; } } } }
    for _ in 0..c.n * 400 {
        if c.stop() { return; }
        let k = c.rng.range(1, 5); let ops: Vec<(u8, u64)> = (0..k).map(|_| (c.rng.below(4) as u8, 16 + c.rng.below(24) as u64)).map(|(a, b)| if a == 0 || a == 3 { (a, b % 33) } else { (a, b) }).collect();
        let mut ids: Vec<u64> = (0..40).collect(); ids.push(raw_id(&mut c.rng)); let s = c.rng.chance(1, 2); let n = c.rng.below(4); let v = c.rng.bytes(n);
        c.case("custom factory", || format!("(0 remove, 1 payload, 2 raw, 3 a user's type) {:?} strict {} value {}", ops, s, hex(&v)), || custom_case(&ops, &ids, s, &v));
    }
}
// ---- C15 -------------------------------------------------------------------------------------
/// (id, header size, value size) of the tag at the start of b; None: not a complete tag
fn scan_one(b: &[u8]) -> Option<(u64, usize, u64)> {
    let (id, k) = ilint_parse(b)?;
    let rest = (b.len() - k) as u64;
    if id == 15 { return None; }
    if id == 10 || id == 14 { let h = *b.get(k)?; let n = if h < 0xF8 { 1 } else { h as u64 - 0xF6 }; return if rest < n { None } else { Some((id, k, n)) }; }
    if id < 16 { return if rest < imp_size(id) { None } else { Some((id, k, imp_size(id))) }; }
    let (n, k2) = ilint_parse(&b[k..])?;
    if rest - (k2 as u64) < n { None } else { Some((id, k + k2, n)) }
}
fn scan_with<R: Reader>(b: &[u8], r: &mut R, how: &str) -> Result<Vec<RawTagOffset>, String> {
    let mut s = RawTagScanner::new(r);
    let mut p = 0usize; let mut found = vec![];
    loop {
        let w = scan_one(&b[p..]);
        let g = s.next_tag();
        match (w, g) {
            (None, Err(_)) => break,
            (None, Ok(None)) if p == b.len() => break,
            (None, Ok(x)) => return Err(format!("{}: at {}: reported {:?} for bad input", how, p, x)),
            (Some(x), Ok(Some(t))) => {
                eq(&format!("{} at {}: (id, offset, value offset, value size, size)", how, p), (t.id(), t.offset(), t.value_offset(), t.value_size(), t.size()), (x.0, p as u64, (p + x.1) as u64, x.2, x.1 as u64 + x.2))?;
                eqb("tag slice", t.tag_slice(b), &b[p..p + x.1 + x.2 as usize])?; eqb("value slice", t.value_slice(b), &b[p + x.1..p + x.1 + x.2 as usize])?;
                eq("bounds", (t.tag_start(), t.value_start(), t.value_end(), t.tag_end(), t.next_tag_offset() as usize), (p, p + x.1, p + x.1 + x.2 as usize, p + x.1 + x.2 as usize, p + x.1 + x.2 as usize))?;
                eq("copy", RawTagOffset::new(t.id(), t.offset(), x.1 as u64, x.2), t)?;
                p += x.1 + x.2 as usize; found.push(t);
            }
            (Some(x), g) => return Err(format!("{}: at {}: {:?} instead of {:?}", how, p, g, x)),
        }
        if found.len() > 4000 { break; }
    }
    Ok(found)
}
fn scan_case(b: &[u8]) -> Result<(), String> {
    let mut r = ByteArrayReader::new(b);
    let f = scan_with(b, &mut r, "slice reader")?;
    if let Some(l) = f.last() { ok("all reported extents were consumed", r.offset() >= l.tag_end())?; }
    let mut r = Plain { data: b.to_vec(), pos: 0 };
    eq("byte-wise scan", &scan_with(b, &mut r, "byte-wise reader")?, &f)?;
    let mut r = std::io::Cursor::new(b.to_vec());
    eq("std stream scan", &scan_with(b, &mut r, "std stream")?, &f)?;
    let mut r = std::io::Cursor::new(b.to_vec());
    let mut pre = vec![0u8; b.len().min(2)]; let _ = std::io::Read::read(&mut r, &mut pre);
    scan_with(&b[pre.len()..], &mut r, "std stream, from the middle")?;
    for t in &f {
        let v = t.value_slice(b);
        let mut r = ByteArrayReader::new(v);
        for i in scan_with(v, &mut r, "inside a value")? {
            let m = i.map_to_parent_space(t).map_err(|e| format!("map_to_parent_space refused an offset inside its parent: {:?}", e))?;
            eqb("mapped tag slice", m.tag_slice(b), i.tag_slice(v))?; eqb("mapped value slice", m.value_slice(b), i.value_slice(v))?; eq("mapped id", m.id(), i.id())?;
            let far = RawTagOffset::new(i.id(), t.value_size() - i.size() + 1, i.size() - i.value_size(), i.value_size());
            ok("an offset beyond the parent is refused", far.map_to_parent_space(t).is_err())?;
        }
        let mut r = ByteArrayReader::new(&b[t.tag_start()..]);
        eq("next_tag_if_id, same id", RawTagScanner::new(&mut r).next_tag_if_id(t.id()).ok().flatten().map(|x| x.size()), Some(t.size()))?;
        let mut r = ByteArrayReader::new(&b[t.tag_start()..]);
        ok("next_tag_if_id, other id", RawTagScanner::new(&mut r).next_tag_if_id(t.id() ^ 1).is_err())?;
        // the extent is that of the tag the factory decodes there
        if let Some((x, n)) = parse(&b[t.tag_start()..t.tag_end()], false) { eq("extent of the decoded tag", n, t.size() as usize)?; eq("id of the decoded tag", x.id, t.id())?; }
    }
    Ok(())
}
/// a scan that asks for identifiers, right or wrong, on the way
fn asked_case(b: &[u8], asks: u64) -> Result<(), String> {
    fn go<R: Reader>(b: &[u8], r: &mut R, asks: u64) -> Result<(), String> {
        let mut s = RawTagScanner::new(r); let mut p = 0usize;
        for i in 0..40 {
            let w = match scan_one(&b[p..]) { Some(w) => w, None => { if p < b.len() { ok("bad input is an error", s.next_tag_if_id(17).is_err())?; } return Ok(()) } };
            let how = asks >> (2 * (i % 32)) & 3; let asked = if how == 2 { w.0 } else if how == 3 { w.0 ^ 1 << (i % 9) } else { 0 };
            let at = format!("tag {} at {} (asked: {})", i, p, match how { 2 => "its identifier", 3 => "another identifier", _ => "any" });
            let g = if how < 2 { s.next_tag() } else { s.next_tag_if_id(asked) };
            if how == 3 { ok(&format!("{} is refused as unexpected", at), matches!(g, Err(ErrorKind::UnexpectedTagType)))?; }
            else { match g { Ok(Some(t)) => eq(&at, (t.id(), t.tag_start(), t.value_start(), t.tag_end()), (w.0, p, p + w.1, p + w.1 + w.2 as usize))?, g => return Err(format!("{}: {:?}", at, g)) } }
            p += w.1 + w.2 as usize;
        }
        Ok(())
    }
    go(b, &mut ByteArrayReader::new(b), asks)?; go(b, &mut Plain { data: b.to_vec(), pos: 0 }, asks).map_err(|e| format!("byte-wise: {}", e))?; go(b, &mut std::io::Cursor::new(b.to_vec()), asks).map_err(|e| format!("std stream: {}", e))
}
/// headers at given places of a source that is zero elsewhere
struct Sparse { head: BTreeMap<u64, u8>, len: u64, pos: u64 }
impl Reader for Sparse {
    fn read(&mut self) -> il2_iltags::io::Result<u8> { if self.pos >= self.len { return Err(il2_iltags::io::ErrorKind::EndOfData); } self.pos += 1; Ok(*self.head.get(&(self.pos - 1)).unwrap_or(&0)) }
    fn skip(&mut self, n: usize) -> il2_iltags::io::Result<()> { if n as u64 > self.len - self.pos { return Err(il2_iltags::io::ErrorKind::EndOfData); } self.pos += n as u64; Ok(()) }
}
struct SparseIo(Sparse);
impl std::io::Read for SparseIo { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let mut n = 0; for x in b.iter_mut() { if let Ok(v) = Reader::read(&mut self.0) { *x = v; n += 1; } } Ok(n) } }
impl std::io::Seek for SparseIo { fn seek(&mut self, s: std::io::SeekFrom) -> std::io::Result<u64> {
    let x = match s { std::io::SeekFrom::Start(n) => n as i128, std::io::SeekFrom::Current(d) => self.0.pos as i128 + d as i128, std::io::SeekFrom::End(d) => self.0.len as i128 + d as i128 };
    if x < 0 || x > u64::MAX as i128 { return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "bad position")); } self.0.pos = x as u64; Ok(self.0.pos) } }
/// tags of the given (identifier, value size) one after another, `cut` bytes missing at the end
fn sparse_case(tags: &[(u64, u64)], cut: u64) -> Result<(), String> {
    let mut s = Sparse { head: BTreeMap::new(), len: 0, pos: 0 }; let mut want = vec![];
    for (id, n) in tags { let h = if *id < 16 { ilint(*id) } else { head(*id, *n) }; for (i, b) in h.iter().enumerate() { s.head.insert(s.len + i as u64, *b); } want.push((*id, s.len, h.len() as u64, *n)); s.len += h.len() as u64 + n; }
    s.len -= cut;
    fn go<R: Reader>(r: &mut R, want: &[(u64, u64, u64, u64)], len: u64, cut: u64) -> Result<(), String> {
        let mut sc = RawTagScanner::new(r);
        for (id, o, h, n) in want { let g = sc.next_tag(); let fits = o + h + n <= len;
            match g { Ok(Some(t)) if fits => eq("(id, offset, value offset, value size, size)", (t.id(), t.offset(), t.value_offset(), t.value_size(), t.size()), (*id, *o, o + h, *n, h + n))?, Err(_) if !fits => return Ok(()), g => return Err(format!("tag at {}: got {:?}, expected {}", o, g, if fits { "a tag" } else { "an error" })) } }
        if cut == 0 { ok("nothing after the last tag", matches!(sc.next_tag(), Ok(None) | Err(_)))?; }
        Ok(())
    }
    let len = s.len;
    go(&mut s, &want, len, cut)?; s.pos = 0;
    let mut io = SparseIo(s); go(&mut io, &want, len, cut).map_err(|e| format!("std stream: {}", e))
}
fn map_case(i: RawTagOffset, p: RawTagOffset) -> Result<(), String> {
    let fits = i.offset() + i.size() <= p.value_size();
    let m = i.map_to_parent_space(&p);
    eq("accepted exactly when the extent lies in the parent's value", m.is_ok(), fits)?;
    if let Ok(m) = m { eq("(id, offset, value offset, value size, size)", (m.id(), m.offset(), m.value_offset(), m.value_size(), m.size()), (i.id(), p.value_offset() + i.offset(), p.value_offset() + i.value_offset(), i.value_size(), i.size()))?; }
    Ok(())
}
pub fn c15(c: &mut Ctx) {
    c.rule("identifiers x announced sizes near every threshold up to 2^64, bodies present or missing, concatenations of up to 6 random tags (implicit and explicit, non-minimal headers, ILInt tags of each length), mutated; slice, byte-wise and std readers from the start and the middle; sources of up to 2^63 bytes; extents, slices and mapping into the parent against an independent scanner");
    for id in (0..=34u64).chain([0xF7, 0xF8, 0x1F8, u64::MAX]) { for n in [0u64, 1, 2, 9, 16, 0xF7, 0xF8, 300, MAX, u32::MAX as u64, 1 << 63, i64::MAX as u64, u64::MAX - 20, u64::MAX - 19, u64::MAX - 18, u64::MAX - 17, u64::MAX - 10, u64::MAX - 9, u64::MAX - 2, u64::MAX - 1, u64::MAX] { for k in [0usize, 1, 5, 17] {
        for wide in [false, true] { let mut d = if wide && id >= 0xF8 { ilint_fixed(id, 8) } else { ilint(id) }; d.extend(if wide && n >= 0xF8 { ilint_fixed(n, 8) } else { ilint(n) }); d.extend(vec![1u8; k]); if n < 400 { d.extend(vec![0; n as usize]); d.extend([3, 3]); }
        c.case("scan", || hex(&d), || scan_case(&d)); if c.stop() { return; } } } } }
    for o in [0u64, 1, 2, 3, 5, 1 << 32, 1 << 62] { for h in [0u64, 1, 2, 9, 18] { for n in [0u64, 1, 2, 3, 0xF8, 1 << 33] { for po in [0u64, 1, 10, 1 << 40] { for d in [-2i64, -1, 0, 1, 2, 1 << 20] {
        let ps = (o + h + n) as i64 + d; if ps < 0 { continue; }
        c.case("mapping", || format!("offset {} header {} value {} in a parent at {} with a value of {} bytes", o, h, n, po, ps), || map_case(RawTagOffset::new(77, o, h, n), RawTagOffset::new(22, po, 3, ps as u64))); if c.stop() { return; } } } } } }
    let sizes = [0u64, 1, 300, 0xFFFF, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 300, 1 << 40, 1 << 61];
    for a in sizes { for b in sizes { for e in [0u64, 5, 1 << 32, 1 << 61] { for cut in [0u64, 1, 3] { if cut > e { continue; }
        let t = [(17u64, a), (1u64, 1u64), (1000, b), (9, 8), (22, e)];
        c.case("scan of a huge source", || format!("(identifier, value size) {:?}, the last {} bytes missing", t, cut), || sparse_case(&t, cut)); if c.stop() { return; } } } } }
    for i in 0..c.n * 6000 {
        if c.stop() { return; }
        let k = c.rng.below(6); let mut d = vec![];
        for _ in 0..k { let t = gen(&mut c.rng, 2); let mut e = enc(&t); if e.len() > 3000 { continue; } if c.rng.chance(1, 3) { e = nonmin(&mut c.rng, &e); } d.extend(e); }
        if i % 3 == 0 { d = mutate(&mut c.rng, &d); }
        c.case("scan", || show(&d), || scan_case(&d));
        let asks = c.rng.next(); c.case("scan with identifiers asked for", || format!("{} (asked bits {:#x})", show(&d), asks), || asked_case(&d, asks));
    }
}
/// the same tag with a longer header encoding where one exists
fn nonmin(r: &mut Rng, e: &[u8]) -> Vec<u8> {
    if let Some((id, n, h)) = parse_head(e) {
        if id > 15 {
            let f = |r: &mut Rng, v: u64| { if v < 0xF8 { return ilint(v); } let k = ilint(v).len() - 1; let k = r.range(k, 8); ilint_fixed(v, k) };
            let mut x = f(r, id); x.extend(f(r, n)); x.extend(&e[h..]); return x;
        }
    }
    e.to_vec()
}
// ---- C16 -------------------------------------------------------------------------------------
fn into_case(old: &T, b: &[u8], strict: bool) -> Result<(), String> {
    let want = parse_as(old.id, &old.v, b, strict);
    let f = ILStandardTagFactory::new(strict);
    let mut t = build(old, b.len());
    let mut r = ByteArrayReader::new(b);
    let g = f.deserialize_into(&mut r, t.as_mut());
    eq("deserialize_into succeeds", g.is_ok(), want.is_some())?;
    if let Some((w, n)) = want { eq("value", view(t.as_ref()), Some(w))?; eq("consumed", r.offset(), n)?; }
    eq("the identifier stays", t.id(), old.id)?;
    let mut t = build(old, b.len());
    let mut r = Plain { data: b.to_vec(), pos: 0 };
    eq("deserialize_into (byte-wise) succeeds", f.deserialize_into(&mut r, t.as_mut()).is_ok(), g.is_ok())
}
pub fn c16(c: &mut Ctx) {
    c.rule("existing tag of every type and identifier holding another value x encoding of the same type, of another type, of another identifier and mutations; whole-buffer decoding of every prefix and every extension of encodings; against the model");
    sessions(c);
    for a in big_tags() { if enc(&a).len() > 5000 { continue; } let b = enc(&a); c.case("deserialize_into", || format!("into {} from {}", reseed(&a), show(&b)), || into_case(&T { id: a.id, v: empty_like(&a.v) }, &b, false)); if c.stop() { return; } }
    for _ in 0..c.n * 3000 {
        if c.stop() { return; }
        let mut old = gen(&mut c.rng, 2); if c.rng.chance(1, 3) { old.id = any_id(&mut c.rng, &old.v); }
        let mut src = gen(&mut c.rng, 2); if c.rng.chance(1, 2) { for _ in 0..40 { src = gen(&mut c.rng, 2); if std::mem::discriminant(&src.v) == std::mem::discriminant(&old.v) { break; } } }
        if c.rng.chance(3, 4) { src.id = old.id; }
        let mut b = enc(&src); if c.rng.chance(1, 3) { b = mutate(&mut c.rng, &b); } else { let k = c.rng.below(3); b.extend(c.rng.bytes(k)); }
        if announces_big(&b) { continue; }
        let s = c.rng.chance(1, 2);
        c.case("deserialize_into", || format!("into {} from {} strict={}", reseed(&old), show(&b), s), || into_case(&old, &b, s));
        let t = gen(&mut c.rng, 3); let e = enc(&t);
        if e.len() < 400 { for k in [0, e.len() / 2, e.len().saturating_sub(1)] { c.case("from_bytes of a prefix", || hex(&e[..k]), || decode_case(&e[..k], false)); }
            for x in [vec![0u8], vec![c.rng.byte()], vec![0, 0], e.clone()] { let mut d = e.clone(); d.extend(x); c.case("from_bytes of an extension", || hex(&d), || decode_case(&d, false)); }
            c.case("from_bytes", || hex(&e), || decode_case(&e, false)); }
    }
}
pub fn empty_like(v: &V) -> V { kind_of(std_id(v)).unwrap_or(V::Raw(vec![])) }
// ---- C17 -------------------------------------------------------------------------------------
#[derive(Debug, Clone)]
enum DOp { Ins(String, usize), Rem(String), Direct(String, usize) }
fn dict_hist(ops: &[DOp], vals: &[T], texts: &[String]) -> Result<(), String> {
    let mut m: BTreeMap<String, T> = BTreeMap::new(); let mut sm: BTreeMap<String, String> = BTreeMap::new();
    let mut d = ILDictTag::new(); let mut sd = ILStrDictTag::new();
    for op in ops { match op {
        DOp::Ins(k, v) => { let v = v % vals.len(); let o = d.insert(k, build(&vals[v], v)); eq("insert returns the old value", o.map(|t| view(t.as_ref())), m.insert(k.clone(), vals[v].clone()).map(Some))?;
            let v = v % texts.len(); eq("insert returns the old value", sd.insert(k, &texts[v]), sm.insert(k.clone(), texts[v].clone()))?; }
        DOp::Direct(k, v) => { let v = v % vals.len(); d.mut_value().insert(k.clone(), build(&vals[v], v)); m.insert(k.clone(), vals[v].clone()); let v = v % texts.len(); sd.mut_value().insert(k.clone(), texts[v].clone()); sm.insert(k.clone(), texts[v].clone()); }
        DOp::Rem(k) => { d.mut_value().remove(k); m.remove(k); sd.mut_value().remove(k); sm.remove(k); }
    }
    eq("len", (d.len(), sd.len(), d.is_empty(), sd.is_empty()), (m.len(), sm.len(), m.is_empty(), sm.is_empty()))?; }
    for k in m.keys().chain([&"absent".to_string()]) { eq("get", d.get(k).map(|t| view(t)), m.get(k).map(|t| Some(t.clone())))?; eq("get", sd.get(k).map(|s| s.to_string()), sm.get(k).cloned())?; }
    eqb("dictionary bytes", &to_bytes(&d)?, &enc(&std(V::Dict(m.clone()))))?;
    eqb("string dictionary bytes", &to_bytes(&sd)?, &enc(&std(V::SDict(sm.clone()))))?;
    eqb("other insertion order", &to_bytes(build(&std(V::Dict(m.clone())), 1).as_ref())?, &to_bytes(&d)?)?;
    eqb("other insertion order", &to_bytes(build(&std(V::SDict(sm.clone())), 1).as_ref())?, &to_bytes(&sd)?)?;
    let back = ILStandardTagFactory::new(false).from_bytes(&to_bytes(&d)?).map_err(|e| format!("{:?}", e))?;
    eqb("rebuilt dictionary", &to_bytes(back.as_ref())?, &to_bytes(&d)?)
}
pub fn c17(c: &mut Ctx) {
    c.rule("random histories of insert, overwrite and removal over keys that share prefixes, differ in length, case or only in non-ASCII characters; the bytes compared with the ordered encoding of the final map, and with dictionaries built in other orders");
    let fixed: Vec<String> = ["", "a", "aa", "ab", "b", "B", "A", "a\0", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{e000}", "z", "zz", "10", "9", "1", "é", "e\u{301}"].iter().map(|s| s.to_string()).collect();
    for i in 0..fixed.len() { for j in 0..fixed.len() { let ops = vec![DOp::Ins(fixed[i].clone(), 0), DOp::Ins(fixed[j].clone(), 1)]; let v = [std(V::U8(1)), std(V::U8(2))]; let t = ["p".to_string(), "q".to_string()];
        c.case("dictionary history", || format!("{:?}", ops), || dict_hist(&ops, &v, &t)); if c.stop() { return; } } }
    for n in [247usize, 248, 249, 300].into_iter().chain(novel_in(2, 3000)) { let ops: Vec<DOp> = (0..n).map(|i| DOp::Ins(format!("{}", i * 7 % n), i)).collect(); let v = [std(V::U8(1)), std(V::Null), std(V::Str("t".repeat(n)))]; let t = ["p".to_string(), "q".repeat(n)];
        c.case("dictionary history", || format!("{} keys i*7 mod n", n), || dict_hist(&ops, &v, &t)); }
    for _ in 0..c.n * 2500 {
        if c.stop() { return; }
        let nk = c.rng.range(1, 10); let mut keys = gen_keys(&mut c.rng, nk); if c.rng.chance(1, 2) { for _ in 0..4 { keys.push(c.rng.pick(&fixed).clone()); } }
        let k = c.rng.range(1, 14); let ops: Vec<DOp> = (0..k).map(|i| { let x = c.rng.pick(&keys).clone(); match c.rng.below(7) { 0 | 1 => DOp::Rem(x), 2 => DOp::Direct(x, i), _ => DOp::Ins(x, i) } }).collect();
        let vals: Vec<T> = (0..4).map(|_| gen(&mut c.rng, 1)).collect(); let texts: Vec<String> = (0..4).map(|_| gen_text(&mut c.rng)).collect();
        c.case("dictionary history", || format!("{:?} values {:?} texts {:?}", ops, vals, texts), || dict_hist(&ops, &vals, &texts));
    }
}
// ---- C18 -------------------------------------------------------------------------------------
fn same_case(a: &T, b: &T) -> Result<(), String> {
    let (x, y) = (build(a, 0), build(b, 1));
    eq("equal", iltag_are_equal(x.as_ref(), y.as_ref()), enc(a) == enc(b))?; eq("equal, swapped", iltag_are_equal(y.as_ref(), x.as_ref()), enc(a) == enc(b))?;
    eq("equal to itself", iltag_are_equal(x.as_ref(), x.as_ref()), true)
}
fn clone_case(a: &T) -> Result<(), String> {
    let x = build(a, 0);
    let want = parse(&enc(a), false).filter(|p| p.1 == enc(a).len()).map(|p| p.0);
    let g = iltag_clone(x.as_ref());
    eq("clone", g.as_ref().ok().map(|t| view(t.as_ref())), want.clone().map(Some))?;
    eq("the original stays", view(x.as_ref()).as_ref(), Some(a))?; eqb("the original stays", &to_bytes(x.as_ref())?, &enc(a))?;
    if let Ok(t) = g { eqb("bytes of the clone", &to_bytes(t.as_ref())?, &enc(a))?; ok("clone equals the original", iltag_are_equal(x.as_ref(), t.as_ref()))?; }
    for s in [false, true] { let f = ILStandardTagFactory::new(s); eq("clone with factory", iltag_clone_with_factory(&f, x.as_ref()).ok().map(|t| view(t.as_ref())), parse(&enc(a), s).map(|p| Some(p.0)))?; }
    Ok(())
}
struct Broken;
impl ILTag for Broken {
    fn id(&self) -> u64 { 500 } fn value_size(&self) -> u64 { 4 }
    fn serialize_value(&self, _w: &mut dyn Writer) -> il2_iltags::tags::Result<()> { Err(ErrorKind::UnableToSerialize) }
    fn deserialize_value(&mut self, _f: &dyn ILTagFactory, _n: usize, _r: &mut dyn Reader) -> il2_iltags::tags::Result<()> { Err(ErrorKind::CorruptedData) }
    fn as_any(&self) -> &dyn std::any::Any { self } fn as_mut_any(&mut self) -> &mut dyn std::any::Any { self }
}
/// a user's tag that holds another as its first member
#[repr(C)]
struct Holder<A: ILTag> { inner: A, id: u64 }
impl<A: ILTag + 'static> ILTag for Holder<A> {
    fn id(&self) -> u64 { self.id } fn value_size(&self) -> u64 { self.inner.value_size() }
    fn serialize_value(&self, w: &mut dyn Writer) -> il2_iltags::tags::Result<()> { self.inner.serialize_value(w) }
    fn deserialize_value(&mut self, f: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> il2_iltags::tags::Result<()> { self.inner.deserialize_value(f, n, r) }
    fn as_any(&self) -> &dyn std::any::Any { self } fn as_mut_any(&mut self) -> &mut dyn std::any::Any { self }
}
fn held_case<A: ILTag + 'static>(inner: A, id: u64) -> Result<(), String> {
    let same = inner.id() == id; let other = inner.id(); let h = Holder { inner, id };
    eq("a tag and the tag it holds", (iltag_are_equal(&h, &h.inner), iltag_are_equal(&h.inner, &h)), (same, same))?;
    let g = Holder { inner: h, id: other }; eq("twice", (iltag_are_equal(&g, &g.inner.inner), iltag_are_equal(&g.inner, &g)), (true, same))
}
/// tags without a representation of their own
#[derive(Default)] struct Empty<const N: u64>;
impl<const N: u64> ILTag for Empty<N> {
    fn id(&self) -> u64 { N } fn value_size(&self) -> u64 { 0 } fn serialize_value(&self, _w: &mut dyn Writer) -> il2_iltags::tags::Result<()> { Ok(()) }
    fn deserialize_value(&mut self, _f: &dyn ILTagFactory, _n: usize, _r: &mut dyn Reader) -> il2_iltags::tags::Result<()> { Ok(()) }
    fn as_any(&self) -> &dyn std::any::Any { self } fn as_mut_any(&mut self) -> &mut dyn std::any::Any { self }
}
pub fn c18(c: &mut Ctx) {
    for id in [0u64, 1, 9, 16, 17, 40, 41, 1000] {
        c.case("a tag inside a user's tag", || format!("identifier {}", id), || { held_case(ILUInt64Tag::with_value(77), id)?; held_case(ILNullTag::new(), id)?; held_case(ILBoolTag::with_value(true), id)?; held_case(ILStringTag::with_value("abc"), id)?; held_case(ILRawTag::with_value(40, &[1, 2]), id)?; held_case(ILILInt64Tag::with_value(1 << 40), id)?; held_case(MarkedTag(41, 3), id)?; held_case(Empty::<1000>, id) });
        c.case("tags without a representation", || format!("identifier {}", id), || { let a: Box<dyn ILTag> = Box::new(Empty::<500>); let b: Box<dyn ILTag> = Box::new(Empty::<501>); eq("equal", (iltag_are_equal(a.as_ref(), b.as_ref()), iltag_are_equal(b.as_ref(), a.as_ref()), iltag_are_equal(a.as_ref(), &Empty::<500>)), (false, false, true)) });
    }
    c.rule("all pairs of a set of small tags of every type, each tag against one-byte variations of itself (first, middle, last byte; same bytes under another type or identifier), random pairs; equality against byte equality of independent encodings; clones compared in id, type, value and bytes, the original re-read");
    let mut set: Vec<T> = vec![]; for id in 0..32u64 { if let Some(v) = kind_of(id) { set.push(T { id, v }); } }
    for id in [1u64, 2, 9, 10, 13, 15, 16, 17, 22, 30, 700] { for v in [V::Null, V::U8(0), V::Bool(false), V::U64(0), V::IL(0)] { set.push(T { id, v }); } }
    for b in [vec![], vec![0], vec![1], vec![0, 0], vec![1, 1], vec![0, 1]] { set.push(std(V::Bytes(b.clone()))); set.push(std(V::BInt(b.clone()))); set.push(T { id: 16, v: V::Raw(b.clone()) }); set.push(T { id: 18, v: V::Raw(b.clone()) }); set.push(T { id: 40, v: V::Raw(b) }); }
    for x in [0u64, 1, 2, 255, 256, 257, 0xF7, 0xF8] { set.push(std(V::IL(x))); set.push(std(V::U64(x))); set.push(std(V::I64(x as i64))); set.push(std(V::SIL(x as i64))); set.push(std(V::SIL(-(x as i64)))); set.push(std(V::U8(x as u8))); set.push(std(V::F64(x))); set.push(std(V::Nums(vec![x]))); set.push(std(V::Oid(vec![x]))); }
    set.push(std(V::F32(0x8000_0000))); set.push(std(V::F64(1 << 63))); set.push(std(V::F32(0x7FC0_0000))); set.push(std(V::F32(0x7FC0_0001))); set.push(std(V::F64(0x7FF8 << 48)));
    for a in &set { for b in &set { c.case("pair", || format!("{:?} / {:?}", a, b), || same_case(a, b)); if c.stop() { return; } } if kind_of(a.id).map(|k| std::mem::discriminant(&k) == std::mem::discriminant(&a.v)).unwrap_or(true) { c.case("clone", || format!("{:?}", a), || clone_case(a)); } }
    c.case("a tag that cannot be serialized", || "a tag whose serialize_value fails".into(), || { ok("not equal to another", !iltag_are_equal(&Broken, &ILNullTag::new()))?; ok("another is not equal to it", !iltag_are_equal(&ILNullTag::new(), &Broken))?; ok("cannot be cloned", iltag_clone(&Broken).is_err()) });
    for t in big_tags() { c.case("clone", || reseed(&t), || clone_case(&t)); if c.stop() { return; } }
    for n in [1usize, 2, 246, 247, 248, 256, 300, 4096, 70000].into_iter().chain(novel_in(1, 200_000)) { for k in [0, n / 2, n - 1, n - 1 - n / 256 * 255 % n, n / 8, n / 4, 3 * n / 8, 5 * n / 8, 3 * n / 4, 7 * n / 8, n / 3, 2 * n / 3, n / 16, n - 1 - n / 16] { for two in [false, true] { let p = pattern(n, 2); let mut q = p.clone(); q[k] ^= 1 << (k % 8); if two { let j = (k + 1 + n / 5) % n; if j == k { continue; } q = p.clone(); q.swap(j, k); if q == p { continue; } }
        for (a, b) in [(std(V::Bytes(p.clone())), std(V::Bytes(q.clone()))), (T { id: 900, v: V::Raw(p.clone()) }, T { id: 900, v: V::Raw(q.clone()) }), (T { id: 900, v: V::Raw(p.clone()) }, T { id: 901, v: V::Raw(p.clone()) }), (std(V::Seq(vec![std(V::BInt(p.clone()))])), std(V::Seq(vec![std(V::BInt(q.clone()))])))] {
            c.case("pair", || format!("{} bytes differing in byte {} (swapped with another: {}): ids {} {}", n, k, two, a.id, b.id), || same_case(&a, &b)); } } } }
    for _ in 0..c.n * 2500 {
        if c.stop() { return; }
        let a = gen(&mut c.rng, 3); let mut b = a.clone();
        match c.rng.below(4) { 0 => b = gen(&mut c.rng, 3), 1 => (), 2 => b.id = any_id(&mut c.rng, &b.v), _ => { let e = enc(&a); let m = mutate(&mut c.rng, &e); if !announces_big(&m) { if let Some((t, _)) = parse(&m, false) { b = t; } } } }
        c.case("pair", || format!("{} / {}", reseed(&a), reseed(&b)), || same_case(&a, &b));
        c.case("clone", || reseed(&a), || clone_case(&a));
    }
}
// ---- C19 -------------------------------------------------------------------------------------
struct Marked(u64);
struct MarkedTag(u64, u64);
impl ILTag for MarkedTag {
    fn id(&self) -> u64 { self.0 } fn value_size(&self) -> u64 { 8 }
    fn serialize_value(&self, w: &mut dyn Writer) -> il2_iltags::tags::Result<()> { Ok(w.write_all(&self.1.to_be_bytes())?) }
    fn deserialize_value(&mut self, _f: &dyn ILTagFactory, _n: usize, r: &mut dyn Reader) -> il2_iltags::tags::Result<()> { let mut b = [0; 8]; r.read_all(&mut b)?; self.1 = u64::from_be_bytes(b); Ok(()) }
    fn as_any(&self) -> &dyn std::any::Any { self } fn as_mut_any(&mut self) -> &mut dyn std::any::Any { self }
}
impl ILTagCreator for Marked { fn create_empty_tag(&self, id: u64) -> Box<dyn ILTag> { Box::new(MarkedTag(id, self.0)) } }
fn mark(t: &dyn ILTag) -> Result<u64, String> { t.as_any().downcast_ref::<MarkedTag>().map(|m| m.1).ok_or("not the registered creator".to_string()) }
#[derive(Debug, Clone, Copy)]
enum GOp { Reg(u64), Dereg(u64), Get(u64) }
fn reg_case(ops: &[GOp], ids: &[u64], strict: bool) -> Result<(), String> {
    let mut e = ILTagCreatorEngine::new(strict); let mut m: HashMap<u64, u64> = HashMap::new();
    eq("strict()", e.strict(), strict)?;
    let get = |e: &ILTagCreatorEngine, m: &HashMap<u64, u64>, id: u64, at: &str| -> Result<(), String> {
        let t = e.create_tag(id);
        let at = format!("{}: id {}", at, id);
        match (m.get(&id), t) {
            (Some(k), Some(t)) => { eq(&at, t.id(), id)?; eq(&at, mark(t.as_ref())?, *k) }
            (Some(k), None) => Err(format!("{}: resolves to nothing, registered creator {}", at, k)),
            (None, t) => eq(&at, t.map(|t| view(t.as_ref())), if !strict && id > 15 { Some(Some(T { id, v: V::Raw(vec![]) })) } else { None }),
        } };
    for (i, op) in ops.iter().enumerate() {
        let at = format!("after op {} {:?}", i, op); let k = i as u64 + 1;
        let ret = |o: Option<Box<dyn ILTagCreator>>, id: u64| -> Result<Option<u64>, String> { match o { None => Ok(None), Some(c) => { let t = c.create_empty_tag(id); Ok(Some(mark(t.as_ref())?)) } } };
        match *op { GOp::Reg(id) => { let o = ret(e.register(id, Box::new(Marked(k))), id)?; eq(&at, o, m.insert(id, k))?; } GOp::Dereg(id) => { let o = ret(e.deregister(id), id)?; eq(&at, o, m.remove(&id))?; } GOp::Get(_) => () }
        let one = match *op { GOp::Reg(id) | GOp::Dereg(id) | GOp::Get(id) => id };
        get(&e, &m, one, &at)?;
        for id in ids { get(&e, &m, *id, &at)?; }
    }
    eq("strict() stays", e.strict(), strict)
}
pub fn c19(c: &mut Ctx) {
    c.rule("all histories of up to 4 operations (register, deregister) over 3 identifiers in both modes, then random histories over identifiers sharing low or high bits (0, 15, 16, 2^16, 2^32, 2^63, 2^64-1 and neighbours); after each operation every identifier is resolved and compared with a map, and returned creators with the displaced ones");
    let three = [5u64, 16, 16 + (1 << 32)];
    for x in &novel().0 { let ids = [*x, 16, x ^ 1 << 32, x & 0xFF]; let ops = [GOp::Reg(*x), GOp::Reg(16), GOp::Reg(x ^ 1 << 32), GOp::Dereg(16), GOp::Reg(*x), GOp::Dereg(*x), GOp::Get(*x)]; for s in [false, true] { c.case("registry", || format!("{:?} strict {}", ops, s), || reg_case(&ops, &ids, s)); } }
    for n in 1..=4u32 { for code in 0..6u32.pow(n) { let mut x = code; let ops: Vec<GOp> = (0..n).map(|_| { let o = x % 6; x /= 6; if o < 3 { GOp::Reg(three[o as usize]) } else { GOp::Dereg(three[o as usize - 3]) } }).collect();
        for s in [false, true] { c.case("registry", || format!("{:?} strict {}", ops, s), || reg_case(&ops, &three, s)); if c.stop() { return; } } } }
    let pool: Vec<u64> = [0u64, 1, 10, 14, 15, 16, 17, 31, 32, 255, 256, 65535, 65536, 65552, u32::MAX as u64, 1 << 32, (1 << 32) + 16, 1 << 63, (1 << 63) + 16, u64::MAX, u64::MAX - 1].to_vec();
    for _ in 0..c.n * 3000 {
        if c.stop() { return; }
        let np = c.rng.range(2, 8); let ids: Vec<u64> = (0..np).map(|_| if c.rng.chance(4, 5) { *c.rng.pick(&pool) } else { c.rng.u64b() }).collect();
        let k = c.rng.range(1, 16); let ops: Vec<GOp> = (0..k).map(|_| { let id = *c.rng.pick(&ids); match c.rng.below(5) { 0 | 1 => GOp::Dereg(id), 2 => GOp::Get(id), _ => GOp::Reg(id) } }).collect();
        let s = c.rng.chance(1, 2);
        c.case("registry", || format!("{:?} strict {}", ops, s), || reg_case(&ops, &ids, s));
    }
    for n in [100u64, 1000] { let ops: Vec<GOp> = (0..n).map(|i| GOp::Reg(i * 0x1_0000_0001 % 997)).chain((0..n / 2).map(|i| GOp::Dereg(i * 3 % 997))).collect(); let ids = [0u64, 1, 500, 996]; c.case("registry", || format!("{} registrations", n), || reg_case(&ops, &ids, false)); }
    for s in [false, true] { for id in 0..64u64 { c.case("standard engine", || format!("id {} strict {}", id, s), || type_case(id, s)); } }
}
/// a sequence inside a sequence inside ... : `depth` levels (known finding: the stack overflows and the process is aborted)
pub fn deep_nesting(depth: usize) {
    let mut sizes = vec![0usize]; for _ in 0..depth { let n = *sizes.last().unwrap(); sizes.push(1 + ilint(n as u64).len() + n); }
    let mut d = vec![]; for n in sizes.iter().rev().skip(1) { d.push(22u8); d.extend(ilint(*n as u64)); }
    let mut r = ByteArrayReader::new(&d);
    let t = ILStandardTagFactory::new(true).deserialize(&mut r);
    println!("{} bytes, accepted: {}", d.len(), t.is_ok());
    std::mem::forget(t);
}

// ---- C20 -------------------------------------------------------------------------------------
fn addr<A: ?Sized>(a: &A) -> usize { a as *const A as *const u8 as usize }
fn unexpected<A>(r: &il2_iltags::tags::Result<A>) -> bool { matches!(r, Err(ErrorKind::UnexpectedTagType)) }
fn typed_one<A: ILTag>(name: &str, t: &mut dyn ILTag, asked: u64) -> Result<(), String> {
    use il2_iltags::tags::*;
    let is = t.as_any().is::<A>(); let both = is && asked == t.id(); let me = addr(&*t); let before = to_bytes(t).ok();
    let w = |f: &str| format!("{}::<{}> with identifier {}", f, name, asked);
    eq(&w("tag_downcast_ref"), tag_downcast_ref::<A>(t).map(addr), if is { Some(me) } else { None })?;
    eq(&w("tag_downcast_mut"), tag_downcast_mut::<A>(t).map(|x| addr(x)), if is { Some(me) } else { None })?;
    eq(&w("tag_downcast_ref_with_id"), tag_downcast_ref_with_id::<A>(asked, t).map(addr), if both { Some(me) } else { None })?;
    eq(&w("tag_downcast_mut_with_id"), tag_downcast_mut_with_id::<A>(asked, t).map(|x| addr(x)), if both { Some(me) } else { None })?;
    let r = tag_id_downcast_ref::<A>(asked, t); ok(&w("the error of tag_id_downcast_ref is UnexpectedTagType:"), r.is_ok() || unexpected(&r))?; eq(&w("tag_id_downcast_ref"), r.ok().map(addr), if both { Some(me) } else { None })?;
    let r = tag_id_downcast_mut::<A>(asked, t); ok(&w("the error of tag_id_downcast_mut is UnexpectedTagType:"), r.is_ok() || unexpected(&r))?; eq(&w("tag_id_downcast_mut"), r.ok().map(|x| addr(x)), if both { Some(me) } else { None })?;
    let r = assert_tag_id_and_type::<A>(asked, t); ok(&w("the error of assert_tag_id_and_type is UnexpectedTagType:"), r.is_ok() || unexpected(&r))?; eq(&w("assert_tag_id_and_type"), r.is_ok(), both)?;
    let r = assert_tag_id_and_type_or_error::<A>(asked, t, ErrorKind::TagTooLarge); ok(&w("the error of assert_tag_id_and_type_or_error is the one given:"), matches!(r, Ok(()) | Err(ErrorKind::TagTooLarge)))?; eq(&w("assert_tag_id_and_type_or_error"), r.is_ok(), both)?;
    eq("the tag's bytes afterwards", to_bytes(t).ok(), before)
}
fn typed_case(t: &T, way: usize, asked: u64) -> Result<(), String> {
    let mut o = build(t, way);
    macro_rules! all { ($($ty:ident)*) => { $( typed_one::<$ty>(stringify!($ty), o.as_mut(), asked)?; )* } }
    all!(ILNullTag ILBoolTag ILInt8Tag ILUInt8Tag ILInt16Tag ILUInt16Tag ILInt32Tag ILUInt32Tag ILInt64Tag ILUInt64Tag ILILInt64Tag ILSignedILInt64Tag ILBin32Tag ILBin64Tag ILBin128Tag
        ILByteArrayTag ILStringTag ILBigIntTag ILBigDecTag ILILIntArrayTag ILTagArrayTag ILTagSeqTag ILRangeTag ILVersionTag ILOIDTag ILDictTag ILStrDictTag ILRawTag MarkedTag);
    let mut m = MarkedTag(t.id, 7); typed_one::<MarkedTag>("a user's tag type", &mut m, asked)?; typed_one::<ILRawTag>("ILRawTag on a user's tag", &mut m, asked)
}
pub fn c20(c: &mut Ctx) {
    c.rule("tags of every type under standard and other identifiers (equal modulo 2^8, 2^16, 2^32 and neighbours asked for) x every concrete type; each typed accessor against the type identity reported by the language and the identifier; the reference is the tag itself, the error kind the documented one, the tag unchanged");
    for id in 0..32u64 { if let Some(v) = kind_of(id) { let t = T { id, v: v.clone() };
        for asked in (0..40).chain([id + 256, id + 65536, id | 1 << 32, id | 1 << 63, !id, u64::MAX]) { c.case("typed access", || format!("{:?} asked as {}", t, asked), || typed_case(&t, 0, asked)); if c.stop() { return; } }
        if !matches!(v, V::Bytes(_) | V::BInt(_)) { for id2 in [32u64, 40, 1000, 1 << 32, u64::MAX] { let t = T { id: id2, v: v.clone() }; for asked in [id, id2, id2 - 1, id2 & 0xFF, id2 & 0xFFFF_FFFF, id2 ^ 1 << 63, 0] { c.case("typed access", || format!("{:?} asked as {}", t, asked), || typed_case(&t, 1, asked)); } } } } }
    for n in bigs() { let p = pattern(n, 1);
        for id in [16u64, 17, 18, 25, 32, 40, 300, 1000, 70_000, u64::MAX] { for v in [V::Raw(p.clone()), V::Str("x".repeat(n)), V::Bytes(p.clone()), V::Seq(vec![std(V::Bytes(p.clone()))]), V::Nums(vec![1; n.min(5000)]), V::BDec(0, p.clone())] {
            if matches!(v, V::Bytes(_)) && id != 16 { continue; }
            let t = T { id, v }; let w = (n ^ id as usize) % 3; for asked in [id, id ^ 1] { c.case("typed access", || format!("{} asked as {}", reseed(&t), asked), || typed_case(&t, w, asked)); if c.stop() { return; } } } } if n > 1025 && c.light { break; } }
    for _ in 0..c.n * 700 {
        if c.stop() { return; }
        let t = gen(&mut c.rng, 2); let way = c.rng.below(6);
        let asked = match c.rng.below(5) { 0 | 1 => t.id, 2 => t.id ^ 1 << c.rng.below(64), 3 => std_id(&t.v), _ => c.rng.u64b() };
        c.case("typed access", || format!("{} asked as {}", reseed(&t), asked), || typed_case(&t, way, asked));
    }
}
