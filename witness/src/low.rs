//! C01-C03 (ILInt), C05-C07 (readers and writers)
use crate::oracle::*;
use crate::util::*;
use il2_iltags::ilint as il;
use il2_iltags::io::array::*;
use il2_iltags::io::data as d;
use il2_iltags::io::{ErrorKind, LimitedReader, Reader, Writer};

/// a reader that only has read(): exercises the default methods
pub struct Plain { pub data: Vec<u8>, pub pos: usize }
impl Reader for Plain {
    fn read(&mut self) -> il2_iltags::io::Result<u8> {
        if self.pos < self.data.len() { self.pos += 1; Ok(self.data[self.pos - 1]) } else { Err(ErrorKind::EndOfData) }
    }
}
/// a byte-wise reader whose read number `bad` fails without consuming anything, and which then goes on
pub struct FlakyR { pub data: Vec<u8>, pub pos: usize, pub n: usize, pub bad: usize }
impl Reader for FlakyR {
    fn read(&mut self) -> il2_iltags::io::Result<u8> {
        self.n += 1; if self.n - 1 == self.bad { return Err(ErrorKind::UnableToReadData); }
        if self.pos < self.data.len() { self.pos += 1; Ok(self.data[self.pos - 1]) } else { Err(ErrorKind::EndOfData) }
    }
}
/// a byte-wise writer whose write number `bad` fails, and which then goes on
pub struct FlakyW { pub data: Vec<u8>, pub n: usize, pub bad: usize }
impl Writer for FlakyW {
    fn write(&mut self, v: u8) -> il2_iltags::io::Result<()> { self.n += 1; if self.n - 1 == self.bad { return Err(ErrorKind::UnableToWriteData); } self.data.push(v); Ok(()) }
    fn as_writer(&mut self) -> &mut dyn Writer { self }
}
/// some places to fail at among n
pub fn places(n: usize) -> Vec<usize> { let mut v: Vec<usize> = if n <= 8 { (0..n).collect() } else { vec![0, 1, 2, 3, n / 2, n - 2, n - 1] }; v.dedup(); v }
/// a writer that only has write()
pub struct PlainW { pub data: Vec<u8>, pub room: usize }
impl Writer for PlainW {
    fn write(&mut self, v: u8) -> il2_iltags::io::Result<()> {
        if self.data.len() < self.room { self.data.push(v); Ok(()) } else { Err(ErrorKind::UnableToWriteData) }
    }
    fn as_writer(&mut self) -> &mut dyn Writer { self }
}

fn boundary_u64() -> Vec<u64> {
    let mut v = vec![];
    for i in 0..0x400u64 { v.push(i); v.push(u64::MAX - i); }
    for k in 1..=8u32 {
        let b: u128 = 1u128 << (8 * k);
        for dlt in -3i128..=3 { for base in [b as i128 - 1, b as i128 + 0xF7, b as i128, b as i128 - 1 + 0xF8] {
            let x = base + dlt; if x >= 0 && x <= u64::MAX as i128 { v.push(x as u64); } } }
    }
    for k in 0..64 { for dlt in 0..3u64 { v.push((1u64 << k).wrapping_add(dlt).wrapping_sub(1)); } }
    v.sort(); v.dedup(); v
}

pub fn enc_one(v: u64) -> Result<(), String> {
    let want = ilint(v);
    eq("encoded_size", il::encoded_size(v), want.len())?;
    let mut w = VecWriter::new();
    ok("encode into VecWriter", il::encode(v, &mut w).is_ok())?;
    eqb("encode bytes", w.as_slice(), &want)?;
    let mut w = VecWriter::new();
    ok("write_ilint", d::write_ilint(v, &mut w).is_ok())?;
    eqb("write_ilint bytes", w.as_slice(), &want)?;
    let mut w = PlainW { data: vec![], room: 100 };
    ok("encode into a byte-wise writer", il::encode(v, &mut w).is_ok())?;
    eqb("encode bytes (byte-wise writer)", &w.data, &want)?;
    for bad in 0..want.len() {
        let mut w = FlakyW { data: vec![], n: 0, bad }; ok("a write that fails once is an error", il::encode(v, &mut w).is_err())?; eqb("nothing is written after it", &w.data, &want[..bad])?;
        let mut r = FlakyR { data: want.clone(), pos: 0, n: 0, bad }; ok("a read that fails once is an error", il::decode(&mut r).is_err())?;
        let mut r = FlakyR { data: want.clone(), pos: 0, n: 0, bad }; ok("a read_ilint whose read fails once is an error", d::read_ilint(&mut r).is_err())?;
    }
    for room in 0..=want.len() {
        let mut buf = [0xAAu8; 12];
        let (a, _) = buf.split_at_mut(room);
        let r = { let mut w = ByteArrayWriter::new(a); il::encode(v, &mut w).is_ok() };
        eq(&format!("encode with room {}", room), r, room == want.len())?;
        if r { eqb("encoded in place", &buf[..room], &want)?; }
        ok("nothing written past the room", buf[room..].iter().all(|x| *x == 0xAA))?;
        for k in 0..4 {
            let mut buf = [0xAAu8; 12]; let (a, _) = buf.split_at_mut(room);
            let mut p = PlainW { data: vec![], room };
            let (f, r, g) = match k { 0 => ("write_ilint", d::write_ilint(v, &mut ByteArrayWriter::new(a)).is_ok(), d::write_ilint(v, &mut p).is_ok()),
                1 => ("serialize_ilint", { use il2_iltags::tags::serialization::ILIntSerializer; ByteArrayWriter::new(a).serialize_ilint(v).is_ok() }, { use il2_iltags::tags::serialization::ILIntSerializer; p.serialize_ilint(v).is_ok() }),
                2 => ("write_signed_ilint", d::write_signed_ilint(zag(v), &mut ByteArrayWriter::new(a)).is_ok(), d::write_signed_ilint(zag(v), &mut p).is_ok()),
                _ => ("encode (byte-wise)", r, il::encode(v, &mut p).is_ok()) };
            eq(&format!("{} with room {}", f, room), (r, g), (room == want.len(), room == want.len()))?;
            if r && k < 3 { eqb(f, &buf[..room], &want)?; } ok("nothing written past the room", buf[room..].iter().all(|x| *x == 0xAA))?; if g { eqb(f, &p.data, &want)?; }
        }
    }
    Ok(())
}

pub fn c01(c: &mut Ctx) {
    c.rule("every value 0..1024 and u64::MAX-1023.., all size boundaries +-3, powers of two, then boundary-biased random values; each encoded into a Vec, byte-wise and into arrays of every too-small size, against an independent encoder; non-trivial: all");
    for v in boundary_u64() { c.case("ilint encode", || v.to_string(), || enc_one(v)); c.case("ilint writing surfaces", || v.to_string(), || surf_ilint(v)); }
    for _ in 0..c.n * 40_000 { let v = c.rng.u64b(); c.case("ilint encode", || v.to_string(), || enc_one(v)); if c.stop() { return; } }
}

pub fn dec_one(b: &[u8]) -> Result<(), String> {
    let want = ilint_parse(b);
    eq("decode_from_bytes", il::decode_from_bytes(b).ok(), want)?;
    let mut r = ByteArrayReader::new(b);
    let v = il::decode(&mut r).ok();
    eq("decode (stream)", v, want.map(|x| x.0))?;
    if let Some((_, n)) = want { eq("bytes consumed", r.offset(), n)?; }
    let announced = b.first().map(|h| if *h < 0xF8 { 1 } else { *h as usize - 0xF6 }).unwrap_or(0);
    ok("never looks past the announced length", r.offset() <= announced)?;
    let mut r = Plain { data: b.to_vec(), pos: 0 };
    let v = il::decode(&mut r).ok();
    eq("decode (byte-wise stream)", v, want.map(|x| x.0))?;
    ok("never looks past the announced length (byte-wise)", r.pos <= announced)?;
    let mut r = ByteArrayReader::new(b);
    eq("read_ilint", d::read_ilint(&mut r).ok(), want.map(|x| x.0))?;
    if let Some(h) = b.first() { eq("decoded_size", il::decoded_size(*h), announced.max(1))?; let _ = h;
        if b.len() >= announced && announced > 1 { eq("decode_body", il::decode_body(&b[1..announced]).ok(), want.map(|x| x.0))?; } }
    eq("decode_body of the whole", il::decode_body(b).ok(), ilint_body(b))?;
    Ok(())
}
pub fn c02(c: &mut Ctx) {
    c.rule("every header byte x body bytes all 00/01/7F/FF, every truncation, ILInt overflow boundary for each size, encodings of boundary values followed by random tails, random bytes; slice, body and stream decoders against an independent decoder");
    c.case("ilint decode", || "empty".into(), || dec_one(&[]));
    for v in boundary_u64() { c.case("ilint reading surfaces", || v.to_string(), || surf_ilint_r(v)); }
    for h in 0..=255u8 { c.case("decoded_size", || format!("{}", h), || eq("decoded_size", il::decoded_size(h), if h < 0xF8 { 1 } else { h as usize - 0xF6 }));
        for f in [0u8, 1, 0x7F, 0xF8, 0xFF] { for n in 0..10 { let mut b = vec![h]; b.extend(vec![f; n]); c.case("ilint decode", || hex(&b), || dec_one(&b)); } } }
    for delta in 0..600u64 { let w = 0xFFFF_FFFF_FFFF_FF07u64.wrapping_add(delta).wrapping_sub(300);
        let mut b = vec![0xFF]; b.extend(w.to_be_bytes()); b.push(3); c.case("ilint decode", || hex(&b), || dec_one(&b)); }
    let rt = |c: &mut Ctx, v: u64, t: Vec<u8>| {
        let mut b = ilint(v); let n = b.len(); b.extend(&t);
        c.case("ilint roundtrip", || format!("{} then {}", v, hex(&t)), || {
            let mut w = VecWriter::new(); il::encode(v, &mut w).map_err(|_| "encode failed".to_string())?; w.write_all(&t).map_err(|_| "write".to_string())?;
            eq("decode(encode(v))", il::decode_from_bytes(w.as_slice()).ok(), Some((v, n)))?; dec_one(&b) }); };
    for v in boundary_u64() { let t = { let k = c.rng.below(4); c.rng.bytes(k) }; rt(c, v, t); }
    for _ in 0..c.n * 40_000 {
        if c.stop() { return; }
        if c.rng.chance(1, 2) { let v = c.rng.u64b(); let t = { let k = c.rng.below(10); c.rng.bytes(k) }; rt(c, v, t); }
        else { let n = c.rng.below(12); let mut b = c.rng.bytes(n); if n > 0 && c.rng.chance(3, 4) { b[0] |= 0xF8; }
            if n > 1 && c.rng.chance(1, 4) { let z = c.rng.below(n); for x in &mut b[1..=z.min(n - 1)] { *x = if z % 2 == 0 { 0 } else { 0xFF }; } }
            c.case("ilint decode", || hex(&b), || dec_one(&b)); }
    }
}

fn sign_one(v: i64) -> Result<(), String> {
    let u = zig(v);
    eq("encode_sign", il::encode_sign(v), u)?;
    eq("decode_sign(encode_sign)", il::decode_sign(il::encode_sign(v)), v)?;
    eq("decode_sign", il::decode_sign(v as u64), zag(v as u64))?;
    eq("encode_sign(decode_sign)", il::encode_sign(il::decode_sign(v as u64)), v as u64)?;
    let want = ilint(u);
    eq("signed_encoded_size", il::signed_encoded_size(v), want.len())?;
    let mut w = VecWriter::new();
    ok("signed_encode", il::signed_encode(v, &mut w).is_ok())?;
    eqb("signed_encode bytes", w.as_slice(), &want)?;
    let mut w2 = VecWriter::new();
    ok("write_signed_ilint", d::write_signed_ilint(v, &mut w2).is_ok())?;
    eqb("write_signed_ilint bytes", w2.as_slice(), &want)?;
    let mut b = want.clone(); b.push(7);
    let mut r = ByteArrayReader::new(&b);
    eq("signed_decode", il::signed_decode(&mut r).ok(), Some(v))?;
    eq("consumed", r.offset(), want.len())?;
    let mut r = ByteArrayReader::new(&b);
    eq("read_signed_ilint", d::read_signed_ilint(&mut r).ok(), Some(v))?;
    for k in 0..want.len() { let mut r = ByteArrayReader::new(&want[..k]); ok("truncated signed ILInt is an error", il::signed_decode(&mut r).is_err())?; }
    Ok(())
}
pub fn c03(c: &mut Ctx) {
    c.rule("values around 0, both extremes, every power of two and ILInt boundary of both signs, then biased random; mapping, inverse, sizes and stream forms against an independent mapping");
    let mut vs: Vec<i64> = boundary_u64().iter().flat_map(|u| [*u as i64, zag(*u), (*u as i64).wrapping_neg()]).collect();
    vs.extend([i64::MIN, i64::MAX, i64::MIN + 1, -1, 0, 1]);
    for v in vs { c.case("signed ilint", || v.to_string(), || sign_one(v)); }
    for v in boundary_u64() { c.case("signed ilint surfaces", || v.to_string(), || surf_silint(v)); }
    for _ in 0..c.n * 30_000 { let v = c.rng.u64b() as i64; c.case("signed ilint", || v.to_string(), || sign_one(v)); if c.stop() { return; } }
}

// ---- C05 -------------------------------------------------------------------------------
#[derive(Clone, Debug)]
enum ROp { Read, ReadAll(usize), Skip(usize), SkipU64(u64), Set(usize), Limited(usize, usize) }
trait MemR: Reader + MemoryReader { fn slice(&self) -> &[u8]; fn can(&self, n: usize) -> il2_iltags::io::Result<()>; }
impl<'a> MemR for ByteArrayReader<'a> { fn slice(&self) -> &[u8] { self.as_slice() } fn can(&self, n: usize) -> il2_iltags::io::Result<()> { self.can_read(n) } }
impl MemR for VecReader { fn slice(&self) -> &[u8] { self.as_slice() } fn can(&self, n: usize) -> il2_iltags::io::Result<()> { self.can_read(n) } }

fn kind<T>(r: &il2_iltags::io::Result<T>) -> &'static str {
    match r { Ok(_) => "ok", Err(ErrorKind::EndOfData) => "end-of-data", Err(ErrorKind::UnableToReadData) => "unable-to-read", Err(_) => "other error" }
}
fn run_reader<R: MemR>(r: &mut R, data: &[u8], ops: &[ROp]) -> Result<(), String> {
    let mut pos = 0usize;
    for (i, op) in ops.iter().enumerate() {
        let at = format!("op {} {:?} at {}", i, op, pos);
        let left = data.len() - pos;
        let expect = |n: usize| if n == 0 || n <= left { "ok" } else if left == 0 { "end-of-data" } else { "unable-to-read" };
        match *op {
            ROp::Read => { let x = r.read(); eq(&at, kind(&x), expect(1))?; if let Ok(v) = x { eq(&at, v, data[pos])?; pos += 1; } }
            ROp::ReadAll(n) => { let mut b = vec![0x5A; n]; eq(&at, kind(&r.can(n)), expect(n))?; let x = r.read_all(&mut b); eq(&at, kind(&x), expect(n))?;
                if x.is_ok() { eqb(&at, &b, &data[pos..pos + n])?; pos += n; } }
            ROp::Skip(n) => { let x = r.skip(n); eq(&at, kind(&x), expect(n))?; if x.is_ok() { pos += n; } }
            ROp::SkipU64(n) => { let x = r.skip_u64(n); eq(&at, kind(&x), expect(n as usize))?; if x.is_ok() { pos += n as usize; } }
            ROp::Set(n) => { r.set_offset(n); pos = n.min(data.len()); }
            ROp::Limited(_, _) => (),
        }
        eq(&format!("offset after {}", at), r.offset(), pos)?;
        eq(&format!("available after {}", at), r.available(), data.len() - pos)?;
        eq("len", r.len(), data.len())?;
        eq("is_empty", r.is_empty(), data.is_empty())?;
        eqb("data unchanged", r.slice(), data)?;
    }
    Ok(())
}
fn small(rng: &mut Rng, len: usize) -> usize {
    let k = novel_in(0, 1 << 22); if !k.is_empty() && rng.chance(1, 8) { return *rng.pick(&k); }
    match rng.below(8) { 0 => 0, 1 => len, 2 => len + 1, 3 => if rng.chance(1, 6) { usize::MAX - rng.below(3) } else { len + 2 }, 4 => 511 + rng.below(4), _ => rng.below(len + 2) }
}
pub fn c05(c: &mut Ctx) {
    c.rule("random and enumerated histories of read/read_all/skip/skip_u64/set_offset over byte strings of 0..1100 bytes on ByteArrayReader, VecReader and a default-method reader, against a cursor model; every offset x every request size for lengths 0..12 is enumerated");
    for len in 0..12usize { for off in 0..len + 2 { for n in 0..len + 3 { for kind_ in 0..3 {
        let data: Vec<u8> = (0..len as u8).map(|x| x.wrapping_mul(37).wrapping_add(1)).collect();
        let op = match kind_ { 0 => ROp::ReadAll(n), 1 => ROp::Skip(n), _ => ROp::SkipU64(n as u64) };
        let ops = vec![ROp::Set(off), op, ROp::Read];
        c.case("memory reader", || format!("data={} ops={:?}", hex(&data), ops), || { run_reader(&mut ByteArrayReader::new(&data), &data, &ops)?; run_reader(&mut VecReader::new(&data), &data, &ops) });
        if c.stop() { return; }
    } } } }
    for big in [usize::MAX, usize::MAX - 1, usize::MAX - 5, 1 << 63] { for off in 0..4 {
        let data = vec![1u8, 2, 3]; let ops = vec![ROp::Set(off), ROp::Skip(big), ROp::SkipU64(big as u64), ROp::Read];
        c.case("memory reader", || format!("data={} ops={:?}", hex(&data), ops), || { run_reader(&mut ByteArrayReader::new(&data), &data, &ops)?; run_reader(&mut VecReader::new(&data), &data, &ops) });
    } }
    for len in bigs() { for a in [1, len / 2, len - 1, len] { for op in [ROp::Skip(a), ROp::ReadAll(a), ROp::SkipU64(a as u64)] {
        let data = pattern(len, 5);
        for ops in [vec![op.clone(), ROp::Read, op.clone()], vec![ROp::Read, op.clone(), ROp::Read], vec![ROp::Set(len - 2), op.clone(), ROp::Read, ROp::Read], vec![ROp::Set(len + 7), ROp::Read, ROp::Set(a), ROp::ReadAll(len - a)]] {
            c.case("memory reader", || format!("data={} ops={:?}", show(&data), ops), || { run_reader(&mut ByteArrayReader::new(&data), &data, &ops)?; run_reader(&mut VecReader::new(&data), &data, &ops)?;
                let mut r = Plain { data: data.clone(), pos: 0 }; let mut pos = 0;
                for op in &ops { let (n, x) = match *op { ROp::Skip(n) => (n, r.skip(n)), ROp::SkipU64(n) => (n as usize, r.skip_u64(n)), ROp::ReadAll(n) => { let mut b = vec![0; n]; let x = r.read_all(&mut b); if x.is_ok() { ok("default read_all bytes", b == data[pos..pos + n])?; } (n, x) } _ => continue };
                    eq("default method", x.is_ok(), n <= data.len() - pos)?; if x.is_ok() { pos += n; } else { break; } eq("default method: position", r.pos, pos)?; }
                Ok(()) });
            if c.stop() { return; }
        }
    } } }
    for _ in 0..c.n * 4000 {
        if c.stop() { return; }
        let len = if c.rng.chance(1, 5) { 500 + c.rng.below(600) } else { c.rng.below(40) };
        let data = c.rng.bytes(len);
        let k = c.rng.below(12) + 1;
        let ops: Vec<ROp> = (0..k).map(|_| { let n = small(&mut c.rng, len); let huge = n > 1 << 20; match c.rng.below(5) { 0 => ROp::Read, 1 if !huge => ROp::ReadAll(n), 2 => ROp::SkipU64(n as u64), 3 => ROp::Set(n), _ => ROp::Skip(n) } }).collect();
        c.case("memory reader", || format!("data={} ops={:?}", hex(&data), ops), || {
            run_reader(&mut ByteArrayReader::new(&data), &data, &ops)?;
            run_reader(&mut VecReader::new(&data), &data, &ops)?;
            // default methods of the trait
            let mut r = Plain { data: data.clone(), pos: 0 }; let mut pos = 0;
            for op in &ops { match *op {
                ROp::ReadAll(n) => { let mut b = vec![0; n]; let x = r.read_all(&mut b); eq("default read_all", x.is_ok(), n <= data.len() - pos)?; if x.is_ok() { eqb("default read_all bytes", &b, &data[pos..pos + n])?; pos += n; } else { pos = r.pos; } }
                ROp::Skip(n) if n < 1 << 20 => { let x = r.skip(n); eq("default skip", x.is_ok(), n <= data.len() - pos)?; if x.is_ok() { pos += n; } else { pos = r.pos; } }
                ROp::SkipU64(n) if n < 1 << 20 => { let x = r.skip_u64(n); eq("default skip_u64", x.is_ok(), n as usize <= data.len() - pos)?; if x.is_ok() { pos += n as usize; } else { pos = r.pos; } }
                _ => () }
                eq("default methods: position", r.pos, pos)?; }
            Ok(()) });
    }
}

// ---- C06 -------------------------------------------------------------------------------
#[derive(Clone, Debug)]
enum WOp { Write(u8), WriteAll(Vec<u8>), Set(usize), Ro(bool) }
struct M { data: Vec<u8>, off: usize, ro: bool, fixed: bool }
impl M {
    fn put(&mut self, s: &[u8]) -> bool {
        if self.ro || (self.fixed && self.off + s.len() > self.data.len()) { return false; }
        for (i, b) in s.iter().enumerate() { let p = self.off + i; if p < self.data.len() { self.data[p] = *b } else { self.data.push(*b) } }
        self.off += s.len(); true
    }
}
trait MemW: Writer { fn off(&self) -> usize; fn set(&mut self, n: usize); fn ro(&mut self, b: bool) -> Option<bool>; fn slice(&self) -> Option<Vec<u8>>; fn extra(&self, init: usize, off: usize) -> Result<(), String>; }
impl MemW for VecWriter { fn off(&self) -> usize { self.get_offset() } fn set(&mut self, n: usize) { self.set_offset(n) } fn ro(&mut self, b: bool) -> Option<bool> { self.set_read_only(b); Some(self.is_read_only()) }
    fn slice(&self) -> Option<Vec<u8>> { if self.vec().as_slice() != self.as_slice() { return None; } Some(self.as_slice().to_vec()) } fn extra(&self, _: usize, _: usize) -> Result<(), String> { eq("can_write", self.can_write().is_ok(), !self.is_read_only()) } }
impl<'a> MemW for BorrowedVecWriter<'a> { fn off(&self) -> usize { self.get_offset() } fn set(&mut self, n: usize) { self.set_offset(n) } fn ro(&mut self, b: bool) -> Option<bool> { self.set_read_only(b); Some(self.is_read_only()) }
    fn slice(&self) -> Option<Vec<u8>> { if self.vec().as_slice() != self.as_slice() { return None; } Some(self.as_slice().to_vec()) } fn extra(&self, init: usize, off: usize) -> Result<(), String> { eq("can_write", self.can_write().is_ok(), !self.is_read_only())?; eq("bytes_written", self.bytes_written(), off.saturating_sub(init)) } }
impl<'a> MemW for ByteArrayWriter<'a> { fn off(&self) -> usize { self.get_offset() } fn set(&mut self, n: usize) { self.set_offset(n) } fn ro(&mut self, _: bool) -> Option<bool> { None }
    fn slice(&self) -> Option<Vec<u8>> { None } fn extra(&self, _: usize, _: usize) -> Result<(), String> { Ok(()) } }

fn run_writer<W: MemW>(w: &mut W, m: &mut M, ops: &[WOp]) -> Result<(), String> {
    let init = m.off;
    for (i, op) in ops.iter().enumerate() {
        let at = match op { WOp::WriteAll(s) => format!("op {} WriteAll({})", i, show(s)), _ => format!("op {} {:?}", i, op) };
        match op {
            WOp::Write(b) => { let x = w.write(*b); eq(&at, x.is_ok(), m.put(&[*b]))?; }
            WOp::WriteAll(s) => { let x = w.write_all(s); eq(&at, x.is_ok(), m.put(s))?; }
            WOp::Set(n) => { w.set(*n); m.off = (*n).min(m.data.len()); }
            WOp::Ro(b) => { if let Some(x) = w.ro(*b) { eq(&at, x, *b)?; m.ro = *b; } }
        }
        eq(&format!("offset after {}", at), w.off(), m.off)?;
        if let Some(s) = w.slice() { eqb(&format!("content after {}", at), &s, &m.data)?; }
        w.extra(init, m.off)?;
    }
    Ok(())
}
fn c06_case(init: &[u8], start: usize, ops: &[WOp]) -> Result<(), String> {
    { let mut w = VecWriter::with_capacity(3); let mut m = M { data: vec![], off: 0, ro: false, fixed: false };
      let mut pre = vec![WOp::WriteAll(init.to_vec()), WOp::Set(start)]; pre.extend_from_slice(ops);
      run_writer(&mut w, &mut m, &pre).map_err(|e| format!("VecWriter: {}", e))?;
      let v: Vec<u8> = w.into(); eqb("VecWriter into Vec", &v, &m.data)?; }
    { let mut v = init.to_vec(); let mut m = M { data: init.to_vec(), off: start.min(init.len()), ro: false, fixed: false };
      { let mut w = BorrowedVecWriter::with_offset(&mut v, start); run_writer(&mut w, &mut m, ops).map_err(|e| format!("BorrowedVecWriter: {}", e))?; }
      eqb("BorrowedVecWriter leaves", &v, &m.data)?; }
    { let mut v = init.to_vec(); let mut m = M { data: init.to_vec(), off: 0, ro: false, fixed: false };
      { let mut w = BorrowedVecWriter::new(&mut v); run_writer(&mut w, &mut m, ops).map_err(|e| format!("BorrowedVecWriter::new: {}", e))?; }
      eqb("BorrowedVecWriter leaves", &v, &m.data)?; }
    { let mut v = init.to_vec(); let mut m = M { data: init.to_vec(), off: 0, ro: false, fixed: true };
      { let mut w = ByteArrayWriter::new(&mut v); let mut pre = vec![WOp::Set(start)]; pre.extend_from_slice(ops); run_writer(&mut w, &mut m, &pre).map_err(|e| format!("ByteArrayWriter: {}", e))?;
        eq("ByteArrayWriter available", w.available(), m.data.len() - m.off)?; }
      eqb("ByteArrayWriter leaves", &v, &m.data)?; }
    { let mut w = PlainW { data: vec![], room: init.len() }; let r = w.write_all(init); ok("default write_all", r.is_ok())?; eqb("default write_all bytes", &w.data, init)?; }
    Ok(())
}
pub fn c06(c: &mut Ctx) {
    c.rule("every initial length 0..6 x offset x write length enumerated, then random histories of write/write_all/set_offset/set_read_only on VecWriter, BorrowedVecWriter (both constructors), ByteArrayWriter and a default-method writer, against a buffer model");
    for len in 0..6usize { for off in 0..len + 2 { for n in 0..6usize {
        let init: Vec<u8> = (0..len as u8).map(|x| 0xA0 + x).collect(); let s: Vec<u8> = (0..n as u8).map(|x| x + 1).collect();
        for ops in [vec![WOp::WriteAll(s.clone())], vec![WOp::Write(9), WOp::WriteAll(s.clone())], vec![WOp::WriteAll(s.clone()), WOp::Set(1), WOp::Write(8)], vec![WOp::Ro(true), WOp::WriteAll(s.clone()), WOp::Write(1), WOp::Ro(false), WOp::WriteAll(s.clone())]] {
            c.case("memory writer", || format!("init={} start={} ops={:?}", hex(&init), off, ops), || c06_case(&init, off, &ops));
            if c.stop() { return; }
        }
    } } }
    for l in bigs() { for n in [1, 2, l / 2, l, l + 1] { for start in [0, 1, l - n.min(l), l - 1, l] {
        let init = pattern(l, 7); let s = pattern(n, 100);
        let ops = vec![WOp::WriteAll(s.clone()), WOp::Write(8), WOp::Set(l / 2), WOp::WriteAll(s.clone())];
        c.case("memory writer", || format!("init={} start={} ops=[WriteAll({}), Write(8), Set({}), WriteAll(same)]", show(&init), start, show(&s), l / 2), || c06_case(&init, start, &ops));
        if c.stop() { return; }
    } } }
    for _ in 0..c.n * 5000 {
        if c.stop() { return; }
        let l = c.rng.below(20); let init = c.rng.bytes(l); let start = small(&mut c.rng, l);
        let k = c.rng.below(12) + 1;
        let ops: Vec<WOp> = (0..k).map(|_| match c.rng.below(6) { 0 | 1 => WOp::Write(c.rng.byte()), 2 | 3 => { let n = if c.rng.chance(1, 10) { 300 } else { c.rng.below(9) }; WOp::WriteAll(c.rng.bytes(n)) } 4 => WOp::Set(small(&mut c.rng, l)), _ => WOp::Ro(c.rng.chance(1, 3)) }).collect();
        c.case("memory writer", || format!("init={} start={} ops={:?}", hex(&init), start, ops), || c06_case(&init, start, &ops));
    }
}

// ---- C07 -------------------------------------------------------------------------------
/// counts what is taken from the source
struct Probe { inner: ByteArrayReader<'static>, }
fn limited_case(data: &[u8], pre: usize, limits: &[usize], ops: &[(usize, ROp)]) -> Result<(), String> {
    let mut src = ByteArrayReader::new(data);
    src.set_offset(pre);
    let start = src.offset();
    // nested limits; operations all go to the innermost reader
    fn go(src: &mut dyn Reader, data: &[u8], base: usize, limits: &[usize], ops: &[(usize, ROp)], outer_left: usize) -> Result<usize, String> {
        let lim = limits[0];
        let mut r = LimitedReader::new(src, lim);
        let mut left = lim; let mut pos = base;
        let vis = |pos: usize, outer: usize| outer.min(data.len() - pos);
        let mut outer = outer_left;
        if limits.len() > 1 {
            let used = go(&mut r, data, base, &limits[1..], ops, lim.min(outer))?;
            eq("outer budget follows inner consumption", r.available(), lim - used)?;
            return Ok(used);
        }
        for (i, (_, op)) in ops.iter().enumerate() {
            let at = format!("op {} {:?} budget {} source at {}", i, op, left, pos);
            let fits = |n: usize| n <= left && (n == 0 || n <= vis(pos, outer));
            match *op {
                ROp::Read => { let x = r.read(); eq(&at, x.is_ok(), fits(1))?; if let Ok(v) = x { eq(&at, v, data[pos])?; pos += 1; left -= 1; outer -= 1; } }
                ROp::ReadAll(n) => { let mut b = vec![0; n]; let x = r.read_all(&mut b); eq(&at, x.is_ok(), fits(n))?; if x.is_ok() { eqb(&at, &b, &data[pos..pos + n])?; pos += n; left -= n; outer -= n; } }
                ROp::Skip(n) => { let x = r.skip(n); eq(&at, x.is_ok(), fits(n))?; if x.is_ok() { pos += n; left -= n; outer -= n; } }
                ROp::SkipU64(n) => { let n = n as usize; let x = r.skip_u64(n as u64); eq(&at, x.is_ok(), fits(n))?; if x.is_ok() { pos += n; left -= n; outer -= n; } }
                ROp::Set(_) => { eq(&at, r.can_read(left).is_ok(), true)?; eq(&at, r.can_read(left.saturating_add(1)).is_ok(), left == usize::MAX)?; }
                ROp::Limited(_, _) => { let x = r.goto_end(); eq(&at, x.is_ok(), fits(left))?; if x.is_ok() { pos += left; outer -= left; left = 0; } }
            }
            eq(&format!("budget after {}", at), r.available(), left)?;
            eq("empty", r.empty(), left == 0)?;
        }
        Ok(pos - base)
    }
    let used = go(&mut src, data, start, limits, ops, data.len() - start)?;
    eq("source advanced by what was consumed", src.offset(), start + used)
}
/// a source of `len` bytes that are computed, not stored
pub struct Huge { pub len: usize, pub pos: usize }
pub fn huge_byte(p: u64) -> u8 { (p ^ p >> 7 ^ p >> 31 ^ p >> 40).wrapping_mul(29) as u8 }
impl Reader for Huge {
    fn read(&mut self) -> il2_iltags::io::Result<u8> { if self.pos < self.len { self.pos += 1; Ok(huge_byte(self.pos as u64 - 1)) } else { Err(il2_iltags::io::ErrorKind::EndOfData) } }
    fn read_all(&mut self, b: &mut [u8]) -> il2_iltags::io::Result<()> { if b.len() > self.len - self.pos { return Err(il2_iltags::io::ErrorKind::EndOfData); } for x in b.iter_mut() { *x = huge_byte(self.pos as u64); self.pos += 1; } Ok(()) }
    fn skip(&mut self, n: usize) -> il2_iltags::io::Result<()> { if n <= self.len - self.pos { self.pos += n; Ok(()) } else { Err(il2_iltags::io::ErrorKind::EndOfData) } }
}
fn huge_case(len: usize, pre: usize, limits: &[usize], ops: &[ROp]) -> Result<(), String> {
    fn go(src: &mut dyn Reader, len: usize, base: usize, limits: &[usize], ops: &[ROp], outer: usize) -> Result<usize, String> {
        let lim = limits[0]; let mut r = LimitedReader::new(src, lim); let vis = lim.min(outer);
        if limits.len() > 1 { let used = go(&mut r, len, base, &limits[1..], ops, vis)?; eq("outer budget follows inner consumption", r.available(), lim - used)?; return Ok(used); }
        let mut used = 0usize;
        for (i, op) in ops.iter().enumerate() {
            let at = format!("op {} {:?} with {} consumed", i, op, used); let fits = |n: usize| n <= vis - used;
            match *op {
                ROp::Read => { let x = r.read(); eq(&at, x.as_ref().ok().cloned(), if fits(1) { Some(huge_byte((base + used) as u64)) } else { None })?; if fits(1) { used += 1; } }
                ROp::ReadAll(n) => { let mut b = vec![0; n]; let x = r.read_all(&mut b); eq(&at, x.is_ok(), fits(n))?; if x.is_ok() { let w: Vec<u8> = (0..n).map(|j| huge_byte((base + used + j) as u64)).collect(); eqb(&at, &b, &w)?; used += n; } }
                ROp::Skip(n) => { let x = r.skip(n); eq(&at, x.is_ok(), fits(n))?; if x.is_ok() { used += n; } }
                ROp::SkipU64(n) => { let x = r.skip_u64(n); eq(&at, x.is_ok(), fits(n as usize))?; if x.is_ok() { used += n as usize; } }
                ROp::Set(_) => { eq(&at, (r.can_read(lim - used).is_ok(), r.can_read((lim - used).saturating_add(1)).is_ok()), (true, lim - used == usize::MAX))?; }
                ROp::Limited(..) => { let x = r.goto_end(); eq(&at, x.is_ok(), fits(lim - used))?; if x.is_ok() { used = lim; } }
            }
            eq(&format!("budget after {}", at), r.available(), lim - used)?; eq("empty", r.empty(), lim == used)?;
        }
        Ok(used)
    }
    let mut h = Huge { len, pos: pre };
    let used = go(&mut h, len, pre, limits, ops, len - pre)?;
    eq("source advanced by what was consumed", h.pos, pre + used)
}
pub fn c07(c: &mut Ctx) {
    let _ = |p: Probe| p.inner.offset();
    let sizes = [1usize << 15, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 5, 1 << 33, 1 << 48, 1 << 62, usize::MAX / 2, usize::MAX - 3];
    for len in sizes { for lim in sizes { for d in [0usize, 1, 7] { for a in sizes { for o in 0..3 {
        let (len, lim) = (len.saturating_add(d), lim - d); let op = |n: usize| match o { 0 => ROp::Skip(n), 1 => ROp::SkipU64(n as u64), _ => if n < 1 << 17 { ROp::ReadAll(n) } else { ROp::Limited(0, 0) } };
        let ops = [ROp::Set(0), op(a), ROp::Read, op(a / 2 + d), ROp::Skip(lim / 2), ROp::Read, ROp::ReadAll(5), ROp::Limited(0, 0), ROp::Read];
        c.case("limited reader over a huge source", || format!("source of {} bytes, limit {}, ops={:?}", len, lim, ops), || huge_case(len, d, &[lim], &ops));
        c.case("limited reader over a huge source", || format!("source of {} bytes, limits [{}, {}], ops={:?}", len, lim, lim - lim / 3, ops), || huge_case(len, 1, &[lim, lim - lim / 3], &ops));
        if c.stop() { return; } } } } } }
    for _ in 0..c.n * 3000 {
        if c.stop() { return; }
        let len = c.rng.u64b() as usize; let pre = c.rng.below(len.min(1 << 40) + 1); let nl = c.rng.range(1, 3); let limits: Vec<usize> = (0..nl).map(|_| if c.rng.chance(1, 2) { len } else { c.rng.u64b() as usize }).collect(); let k = c.rng.range(1, 6);
        let ops: Vec<ROp> = (0..k).map(|_| { let n = c.rng.u64b() as usize; match c.rng.below(6) { 0 => ROp::Read, 1 => ROp::ReadAll(n % 40), 2 => ROp::SkipU64(n as u64), 3 => ROp::Set(0), 4 => ROp::Limited(0, 0), _ => ROp::Skip(n) } }).collect();
        c.case("limited reader over a huge source", || format!("source of {} bytes from {}, limits {:?}, ops={:?}", len, pre, limits, ops), || huge_case(len, pre, &limits, &ops));
    }
    c.rule("all (data length 0..7, limit 0..9, two request sizes 0..9 for each of read_all/skip/skip_u64) enumerated; then random histories through one to three nested limits including goto_end and can_read, limits up to usize::MAX; computed sources of up to 2^64-1 bytes with requests of every magnitude; against a budget model");
    for len in 0..7usize { for lim in 0..9usize { for a in 0..9usize { for b in 0..9usize { for k in 0..4 {
        let data: Vec<u8> = (1..=len as u8).collect();
        let mk = |n: usize, k: usize| match k { 0 => ROp::ReadAll(n), 1 => ROp::Skip(n), 2 => ROp::SkipU64(n as u64), _ => if n == 0 { ROp::Limited(0, 0) } else { ROp::Read } };
        let ops = vec![(0, mk(a, k)), (0, mk(b, (k + 1) % 4)), (0, ROp::Limited(0, 0))];
        c.case("limited reader", || format!("data={} limits=[{}] ops={:?}", hex(&data), lim, ops), || limited_case(&data, 0, &[lim], &ops));
        if c.stop() { return; }
    } } } } }
    for len in bigs() { for lim in [len - 1, len, len + 1, 8 * len] { for a in [1, len / 2, len - 1, len] { for op in [ROp::Limited(0, 0), ROp::Skip(a), ROp::ReadAll(a), ROp::SkipU64(a as u64)] {
        let data = pattern(len, 3);
        let ops = vec![(0, ROp::Read), (0, op), (0, ROp::Read), (0, ROp::Limited(0, 0))];
        c.case("limited reader", || format!("data={} limits=[{}] ops={:?}", show(&data), lim, ops), || limited_case(&data, 0, &[lim], &ops));
        if c.stop() { return; }
    } } } }
    for _ in 0..c.n * 20000 {
        if c.stop() { return; }
        let len = c.rng.below(30); let data = c.rng.bytes(len); let pre = c.rng.below(len + 1);
        let nl = c.rng.range(1, 3);
        let limits: Vec<usize> = (0..nl).map(|_| small(&mut c.rng, len)).collect();
        let k = c.rng.range(1, 8);
        let ops: Vec<(usize, ROp)> = (0..k).map(|_| { let n = small(&mut c.rng, len.min(6)); let huge = n > 1 << 20; (0, match c.rng.below(6) { 0 => ROp::Read, 1 if !huge => ROp::ReadAll(n), 2 => ROp::SkipU64(n as u64), 3 => ROp::Set(0), 4 if c.rng.chance(1, 3) => ROp::Limited(0, 0), _ => ROp::Skip(n) }) }).collect();
        c.case("limited reader", || format!("data={} pre={} limits={:?} ops={:?}", hex(&data), pre, limits, ops), || limited_case(&data, pre, &limits, &ops));
    }
}

// ---- C04 ------------------------------------------------------------------------------
/// one fixed-width value: `w` bytes of `bits`, most significant first, through every reader and writer form
fn fixed_case<T: Copy>(w: usize, bits: u64, v: T, wr: &dyn Fn(T, &mut dyn Writer) -> bool, rd: &dyn Fn(&mut dyn Reader) -> Option<T>, to: &dyn Fn(T) -> u64,
    vw: &dyn Fn(T, &mut VecWriter) -> bool, vr: &dyn Fn(&mut VecReader) -> Option<T>, dw: &dyn Fn(T, &mut dyn Writer) -> bool, dr: &dyn Fn(&mut dyn Reader) -> Option<T>) -> Result<(), String> {
    let want: Vec<u8> = (0..w).map(|i| (bits >> (8 * (w - 1 - i))) as u8).collect();
    let mut a = VecWriter::new(); ok("write", wr(v, &mut a))?; eqb("bytes written", a.as_slice(), &want)?;
    let mut a = VecWriter::new(); ok("write_value", vw(v, &mut a))?; eqb("bytes written by write_value", a.as_slice(), &want)?;
    for bad in 0..w { let mut a = FlakyW { data: vec![], n: 0, bad }; ok("a write that fails once is an error", !wr(v, &mut a))?; eqb("nothing is written after it", &a.data, &want[..bad])?; let mut a = FlakyR { data: want.clone(), pos: 0, n: 0, bad }; ok("a read that fails once is an error", rd(&mut a).is_none())?; }
    let mut a = PlainW { data: vec![], room: w }; ok("write to a byte-wise writer", wr(v, &mut a))?; eqb("bytes written (byte-wise)", &a.data, &want)?;
    let mut a = PlainW { data: vec![], room: w }; ok("write_value through dyn Writer", dw(v, &mut a))?; eqb("bytes written (dyn)", &a.data, &want)?;
    for room in 0..w { let mut b = vec![0u8; room]; let mut a = ByteArrayWriter::new(&mut b); ok("a write that does not fit is an error", !wr(v, &mut a))?; }
    for extra in [0usize, 3] {
        let mut data = want.clone(); data.extend(vec![0x5A; extra]);
        let mut r = ByteArrayReader::new(&data);
        eq("read back", rd(&mut r).map(|x| to(x)), Some(bits))?; eq("bytes consumed", r.offset(), w)?;
        let mut r = VecReader::new(&data);
        eq("read_value", vr(&mut r).map(|x| to(x)), Some(bits))?; eq("bytes consumed by read_value", r.offset(), w)?;
        let mut r = Plain { data: data.clone(), pos: 0 };
        eq("read back (byte-wise)", rd(&mut r).map(|x| to(x)), Some(bits))?; eq("bytes consumed (byte-wise)", r.pos, w)?;
        let mut r = Plain { data: data.clone(), pos: 0 };
        eq("read_value through dyn Reader", dr(&mut r).map(|x| to(x)), Some(bits))?; eq("bytes consumed (dyn)", r.pos, w)?;
    }
    for k in 0..w {
        let mut r = ByteArrayReader::new(&want[..k]);
        ok("truncated input is an error", rd(&mut r).is_none())?;
        let mut r = VecReader::new(&want[..k]);
        ok("truncated input is an error (read_value)", vr(&mut r).is_none())?;
    }
    Ok(())
}
macro_rules! fixed { ($c:expr, $t:ty, $w:expr, $rd:path, $wr:path, $bits:expr, $from:expr, $to:expr) => {
    if !$c.stop() { let bits: u64 = $bits; let from: fn(u64) -> $t = $from; let to: fn($t) -> u64 = $to;
    $c.case(stringify!($rd), || format!("bits {:#x}", bits), || {
        use d::{ValueReader, ValueWriter};
        fixed_case::<$t>($w, bits, from(bits), &|v, w| $wr(v, w).is_ok(), &|r| $rd(r).ok(), &|v| to(v),
            &|v, w| w.write_value(v).is_ok(), &|r| { let x: Option<$t> = r.read_value().ok(); x },
            &|v, w| <dyn Writer as ValueWriter<$t>>::write_value(w, v).is_ok(), &|r| <dyn Reader as ValueReader<$t>>::read_value(r).ok())
    }); }
} }
fn string_case(b: &[u8], tail: &[u8]) -> Result<(), String> {
    use d::{StringValueReader, ValueWriter};
    let want = std::str::from_utf8(b).ok();
    let mut data = b.to_vec(); data.extend_from_slice(tail);
    let mut r = ByteArrayReader::new(&data);
    let g = d::read_string(&mut r, b.len()).ok();
    eq("read_string", g.as_deref(), want)?;
    if g.is_some() { eq("bytes consumed", r.offset(), b.len())?; }
    let mut r = VecReader::new(&data);
    eq("read_string (trait)", StringValueReader::read_string(&mut r, b.len()).ok().as_deref(), want)?;
    let mut r = Plain { data: data.clone(), pos: 0 };
    eq("read_string (dyn)", <dyn Reader as StringValueReader>::read_string(&mut r, b.len()).ok().as_deref(), want)?;
    let mut r = ByteArrayReader::new(b);
    ok("a string longer than the input is an error", d::read_string(&mut r, b.len() + 1).is_err())?;
    if let Some(s) = want {
        let mut w = VecWriter::new(); ok("write_string", d::write_string(s, &mut w).is_ok())?; eqb("string bytes", w.as_slice(), b)?;
        let mut w = PlainW { data: vec![], room: b.len() }; ok("write_value(&str)", <dyn Writer as ValueWriter<&str>>::write_value(&mut w, s).is_ok())?; eqb("string bytes (dyn)", &w.data, b)?;
        if !b.is_empty() { let mut room = vec![0; b.len() - 1]; let mut w = ByteArrayWriter::new(&mut room); ok("a string that does not fit is an error", d::write_string(s, &mut w).is_err())?; }
    }
    Ok(())
}
pub fn char_any(r: &mut Rng) -> char {
    loop {
        let c = match r.below(8) { 0..=3 => r.below(0x80), 4 => r.below(0x800), 5 => r.below(0x10000), 6 => r.below(0x110000), _ => *r.pick(&[0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xD7FF, 0xE000, 0xFFFD, 0xFEFF, 0]) };
        if let Some(c) = char::from_u32(c as u32) { return c; }
    }
}
pub fn c04(c: &mut Ctx) {
    c.rule("8- and 16-bit types: every value; 32- and 64-bit and float types: boundary-biased and random bit patterns (NaN payloads included); every writer and reader form, every too-small room and every truncation; strings: generated from random scalar values, plus mutated byte strings compared with the validity rule of UTF-8");
    surfaces(c);
    for x in 0..0x100u64 { fixed!(c, u8, 1, d::read_u8, d::write_u8, x, |b| b as u8, |v| v as u64); fixed!(c, i8, 1, d::read_i8, d::write_i8, x, |b| b as u8 as i8, |v| v as u8 as u64); }
    for x in (0..0x10000u64).step_by(if c.n > 1 { 1 } else { 5 }) { fixed!(c, u16, 2, d::read_u16, d::write_u16, x, |b| b as u16, |v| v as u64); fixed!(c, i16, 2, d::read_i16, d::write_i16, x, |b| b as u16 as i16, |v| v as u16 as u64); }
    let mut sp: Vec<u64> = vec![];
    for e in [0u64, 1, 0x7FE, 0x7FF, 0x3FF] { for s in [0u64, 1] { for m in [0u64, 1, 1 << 51, (1 << 51) + 1, (1 << 52) - 1, 0xDEADBEEF] { sp.push((s << 63) | (e << 52) | m); } } }
    for e in [0u64, 1, 0xFE, 0xFF, 0x7F] { for s in [0u64, 1] { for m in [0u64, 1, 1 << 22, (1 << 22) + 1, (1 << 23) - 1, 0x1BEEF] { sp.push((s << 31) | (e << 23) | m); } } }
    let total = sp.len() as u64 + c.n * 4000;
    for i in 0..total {
        if c.stop() { return; }
        let x = if (i as usize) < sp.len() { sp[i as usize] } else { c.rng.u64b() };
        let y = if i % 2 == 0 { x & 0xFFFF_FFFF } else { x >> 32 };
        fixed!(c, u32, 4, d::read_u32, d::write_u32, y, |b| b as u32, |v| v as u64);
        fixed!(c, i32, 4, d::read_i32, d::write_i32, y, |b| b as u32 as i32, |v| v as u32 as u64);
        fixed!(c, f32, 4, d::read_f32, d::write_f32, y, |b| f32::from_bits(b as u32), |v| v.to_bits() as u64);
        fixed!(c, u64, 8, d::read_u64, d::write_u64, x, |b| b, |v| v);
        fixed!(c, i64, 8, d::read_i64, d::write_i64, x, |b| b as i64, |v| v as u64);
        fixed!(c, f64, 8, d::read_f64, d::write_f64, x, |b| f64::from_bits(b), |v| v.to_bits());
    }
    for n in bigs() { let b: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect(); c.case("string", || format!("{} ASCII letters", n), || string_case(&b, b"zz")); }
    for n in [1000usize, 4097, 8192, 8193, 16385, 65537, 70001].into_iter().chain(novel_in(8, 300_000)) { for ch in ["\u{e9}", "\u{20ac}", "\u{1f600}"] { for pre in 0..4usize {
        let s = format!("{}{}", "abc"[..pre.min(3)].to_string(), ch.repeat(n / ch.len() + 2)); let desc = format!("{} ASCII letters then {} x {:?}", pre.min(3), n / ch.len() + 2, ch);
        c.case("string", || desc.clone(), || string_case(s.as_bytes(), b"z"));
        let mut b = s.into_bytes(); let k = b.len() - n.min(b.len()) + n / 2; b[k] = 0xFF; c.case("string", || format!("{}, byte {} replaced by FF", desc, k), || string_case(&b, b"z")); b.truncate(k); c.case("string", || format!("{}, cut at {}", desc, k), || string_case(&b, b""));
        if c.stop() { return; } } } }
    for i in 0..c.n * 12000 {
        if c.stop() { return; }
        let n = c.rng.below(8); let s: String = (0..n).map(|_| char_any(&mut c.rng)).collect();
        let mut b = s.into_bytes();
        match i % 4 { 0 => (), 1 => { if !b.is_empty() { let k = c.rng.below(b.len()); b[k] = c.rng.byte(); } } 2 => { let k = c.rng.below(b.len() + 1); b.truncate(k); } _ => { let k = c.rng.below(5); b = c.rng.bytes(k); if c.rng.chance(1, 2) { for x in b.iter_mut() { *x |= 0x80; } } } }
        let t = c.rng.below(4); let tail = c.rng.bytes(t);
        c.case("string", || format!("bytes {} followed by {}", hex(&b), hex(&tail)), || string_case(&b, &tail));
    }
}

// ---- every reading and writing surface: methods of readers and writers, of dyn Reader / dyn Writer and of the dyn value traits ----
type Wr<'a> = (&'static str, Box<dyn Fn(&mut FlakyW) -> bool + 'a>);
type Rd<'a, T> = (&'static str, Box<dyn Fn(&mut FlakyR) -> Option<T> + 'a>);
fn surf_w(want: &[u8], ws: &[Wr]) -> Result<(), String> {
    for (n, f) in ws { for bad in places(want.len()).into_iter().chain([usize::MAX]) {
        let mut w = FlakyW { data: vec![], n: 0, bad };
        eq(&format!("{} (write {} fails)", n, bad), f(&mut w), bad >= want.len())?; eqb(n, &w.data, &want[..bad.min(want.len())])?;
    } }
    Ok(())
}
fn surf_r<T: PartialEq + std::fmt::Debug>(want: &[u8], v: &T, rs: &[Rd<T>]) -> Result<(), String> {
    for (n, f) in rs { for bad in places(want.len()).into_iter().chain([usize::MAX]) {
        let mut data = want.to_vec(); data.push(0x5A); let mut r = FlakyR { data, pos: 0, n: 0, bad }; let g = f(&mut r);
        if bad < want.len() { ok(&format!("{} (read {} fails)", n, bad), g.is_none())?; } else { eq(n, g.as_ref(), Some(v))?; eq(&format!("bytes consumed by {}", n), r.pos, want.len())?; }
    }
        let mut r = FlakyR { data: want[..want.len().saturating_sub(1)].to_vec(), pos: 0, n: 0, bad: usize::MAX }; if !want.is_empty() { ok(&format!("{} (truncated)", n), f(&mut r).is_none())?; }
    }
    Ok(())
}
use il2_iltags::tags::serialization as ser;
fn b<'a>(f: Box<dyn Fn(&mut FlakyW) -> bool + 'a>) -> Box<dyn Fn(&mut FlakyW) -> bool + 'a> { f }
pub fn surf_ilint(v: u64) -> Result<(), String> {
    let want = ilint(v);
    surf_w(&want, &[("ILIntWriter for a writer", b(Box::new(move |w| d::ILIntWriter::write_ilint(w, v).is_ok()))), ("ILIntWriter for dyn Writer", Box::new(move |w| <dyn Writer as d::ILIntWriter>::write_ilint(w, v).is_ok())),
        ("ILIntSerializer for a writer", Box::new(move |w| ser::ILIntSerializer::serialize_ilint(w, v).is_ok())), ("ILIntSerializer for dyn Writer", Box::new(move |w| <dyn Writer as ser::ILIntSerializer>::serialize_ilint(w, v).is_ok())),
        ("ILIntSerializer for dyn ILIntWriter", Box::new(move |w| <dyn d::ILIntWriter as ser::ILIntSerializer>::serialize_ilint(w, v).is_ok()))])
}
pub fn surf_ilint_r(v: u64) -> Result<(), String> {
    surf_r(&ilint(v), &v, &[("ILIntReader for a reader", Box::new(|r: &mut FlakyR| d::ILIntReader::read_ilint(r).ok())), ("ILIntReader for dyn Reader", Box::new(|r: &mut FlakyR| <dyn Reader as d::ILIntReader>::read_ilint(r).ok())),
        ("ILIntDeserializer for a reader", Box::new(|r: &mut FlakyR| ser::ILIntDeserializer::deserialize_ilint(r).ok())), ("ILIntDeserializer for dyn Reader", Box::new(|r: &mut FlakyR| <dyn Reader as ser::ILIntDeserializer>::deserialize_ilint(r).ok())),
        ("ILIntDeserializer for dyn ILIntReader", Box::new(|r: &mut FlakyR| <dyn d::ILIntReader as ser::ILIntDeserializer>::deserialize_ilint(r).ok()))])
}
pub fn surf_silint(u: u64) -> Result<(), String> {
    let v = zag(u); let want = ilint(u);
    surf_w(&want, &[("SignedILIntWriter for a writer", b(Box::new(move |w| d::SignedILIntWriter::write_signed_ilint(w, v).is_ok()))), ("SignedILIntWriter for dyn Writer", Box::new(move |w| <dyn Writer as d::SignedILIntWriter>::write_signed_ilint(w, v).is_ok())),
        ("SignedILIntSerializer for a writer", Box::new(move |w| ser::SignedILIntSerializer::serialize_signed_ilint(w, v).is_ok())), ("SignedILIntSerializer for dyn Writer", Box::new(move |w| <dyn Writer as ser::SignedILIntSerializer>::serialize_signed_ilint(w, v).is_ok())),
        ("SignedILIntSerializer for dyn SignedILIntWriter", Box::new(move |w| <dyn d::SignedILIntWriter as ser::SignedILIntSerializer>::serialize_signed_ilint(w, v).is_ok()))])?;
    surf_r(&want, &v, &[("SignedILIntReader for a reader", Box::new(|r: &mut FlakyR| d::SignedILIntReader::read_signed_ilint(r).ok())), ("SignedILIntReader for dyn Reader", Box::new(|r: &mut FlakyR| <dyn Reader as d::SignedILIntReader>::read_signed_ilint(r).ok())),
        ("SignedILIntDeserializer for a reader", Box::new(|r: &mut FlakyR| ser::SignedILIntDeserializer::deserialize_signed_ilint(r).ok())), ("SignedILIntDeserializer for dyn Reader", Box::new(|r: &mut FlakyR| <dyn Reader as ser::SignedILIntDeserializer>::deserialize_signed_ilint(r).ok())),
        ("SignedILIntDeserializer for dyn SignedILIntReader", Box::new(|r: &mut FlakyR| <dyn d::SignedILIntReader as ser::SignedILIntDeserializer>::deserialize_signed_ilint(r).ok()))])
}
macro_rules! surf { ($c:expr, $t:ty, $w:expr, $bits:expr, $from:expr, $to:expr) => { { let bits: u64 = $bits; let from: fn(u64) -> $t = $from; let to: fn($t) -> u64 = $to;
    $c.case(concat!("every reading and writing surface of ", stringify!($t)), || format!("bits {:#x}", bits), || {
        let want: Vec<u8> = (0..$w).map(|i| (bits >> (8 * ($w - 1 - i))) as u8).collect(); let v = from(bits);
        surf_w(&want, &[("ValueWriter for a writer", b(Box::new(move |w| d::ValueWriter::<$t>::write_value(w, v).is_ok()))), ("ValueWriter for dyn Writer", Box::new(move |w| <dyn Writer as d::ValueWriter<$t>>::write_value(w, v).is_ok())),
            ("ValueSerializer for a writer", Box::new(move |w| ser::ValueSerializer::<$t>::serialize_value(w, v).is_ok())), ("ValueSerializer for dyn Writer", Box::new(move |w| <dyn Writer as ser::ValueSerializer<$t>>::serialize_value(w, v).is_ok())),
            ("ValueSerializer for dyn ValueWriter", Box::new(move |w| <dyn d::ValueWriter<$t> as ser::ValueSerializer<$t>>::serialize_value(w, v).is_ok()))])?;
        surf_r(&want, &bits, &[("ValueReader for a reader", Box::new(move |r: &mut FlakyR| d::ValueReader::<$t>::read_value(r).ok().map(to))), ("ValueReader for dyn Reader", Box::new(move |r: &mut FlakyR| <dyn Reader as d::ValueReader<$t>>::read_value(r).ok().map(to))),
            ("ValueDeserializer for a reader", Box::new(move |r: &mut FlakyR| ser::ValueDeserializer::<$t>::deserialize_value(r).ok().map(to))), ("ValueDeserializer for dyn Reader", Box::new(move |r: &mut FlakyR| <dyn Reader as ser::ValueDeserializer<$t>>::deserialize_value(r).ok().map(to))),
            ("ValueDeserializer for dyn ValueReader", Box::new(move |r: &mut FlakyR| <dyn d::ValueReader<$t> as ser::ValueDeserializer<$t>>::deserialize_value(r).ok().map(to)))])
    }); } } }
fn surf_bytes(x: &[u8]) -> Result<(), String> {
    use ser::{ByteArrayDeserializer as D, ByteArraySerializer as S};
    let v = x.to_vec(); let n = x.len();
    surf_w(x, &[("serialize_bytes for a writer", b(Box::new(|w| S::serialize_bytes(w, x).is_ok()))), ("serialize_bytes for dyn Writer", Box::new(|w| <dyn Writer as S>::serialize_bytes(w, x).is_ok())),
        ("serialize_byte_vec for a writer", Box::new(|w| S::serialize_byte_vec(w, &v).is_ok())), ("serialize_byte_vec for dyn Writer", Box::new(|w| <dyn Writer as S>::serialize_byte_vec(w, &v).is_ok()))])?;
    let dirty = || vec![0xEEu8; (n + 3) % 7];
    surf_r(x, &v, &[("deserialize_bytes for a reader", Box::new(|r: &mut FlakyR| D::deserialize_bytes(r, n).ok())), ("deserialize_bytes for dyn Reader", Box::new(|r: &mut FlakyR| <dyn Reader as D>::deserialize_bytes(r, n).ok())),
        ("deserialize_bytes_into_vec for a reader", Box::new(|r: &mut FlakyR| { let mut o = dirty(); D::deserialize_bytes_into_vec(r, n, &mut o).ok().map(|_| o) })), ("deserialize_bytes_into_vec for dyn Reader", Box::new(|r: &mut FlakyR| { let mut o = dirty(); <dyn Reader as D>::deserialize_bytes_into_vec(r, n, &mut o).ok().map(|_| o) })),
        ("deserialize_bytes_into_slice for a reader", Box::new(|r: &mut FlakyR| { let mut o = vec![0xEE; n]; D::deserialize_bytes_into_slice(r, &mut o).ok().map(|_| o) })), ("deserialize_bytes_into_slice for dyn Reader", Box::new(|r: &mut FlakyR| { let mut o = vec![0xEE; n]; <dyn Reader as D>::deserialize_bytes_into_slice(r, &mut o).ok().map(|_| o) }))])?;
    if let Ok(s) = std::str::from_utf8(x) { let st = s.to_string();
        surf_w(x, &[("ValueWriter<&str> for a writer", b(Box::new(move |w| d::ValueWriter::<&str>::write_value(w, s).is_ok()))), ("ValueWriter<&str> for dyn Writer", Box::new(move |w| <dyn Writer as d::ValueWriter<&str>>::write_value(w, s).is_ok())),
            ("ValueSerializer<&str> for a writer", Box::new(move |w| ser::ValueSerializer::<&str>::serialize_value(w, s).is_ok())), ("ValueSerializer<&str> for dyn Writer", Box::new(move |w| <dyn Writer as ser::ValueSerializer<&str>>::serialize_value(w, s).is_ok())),
            ("ValueSerializer<&str> for dyn ValueWriter", Box::new(move |w| <dyn d::ValueWriter<&str> as ser::ValueSerializer<&str>>::serialize_value(w, s).is_ok()))])?;
        surf_r(x, &st, &[("StringValueReader for a reader", Box::new(|r: &mut FlakyR| d::StringValueReader::read_string(r, n).ok())), ("StringValueReader for dyn Reader", Box::new(|r: &mut FlakyR| <dyn Reader as d::StringValueReader>::read_string(r, n).ok())),
            ("StringDeserializer for a reader", Box::new(|r: &mut FlakyR| ser::StringDeserializer::deserialize_string(r, n).ok())), ("StringDeserializer for dyn Reader", Box::new(|r: &mut FlakyR| <dyn Reader as ser::StringDeserializer>::deserialize_string(r, n).ok())),
            ("StringDeserializer for dyn StringValueReader", Box::new(|r: &mut FlakyR| <dyn d::StringValueReader as ser::StringDeserializer>::deserialize_string(r, n).ok()))])?; }
    Ok(())
}
fn surfaces(c: &mut Ctx) {
    for x in (0..0x100u64).step_by(17).chain([0x7F, 0x80, 0x81]) { surf!(c, u8, 1, x, |b| b as u8, |v| v as u64); surf!(c, i8, 1, x, |b| b as u8 as i8, |v| v as u8 as u64); }
    for i in 0..c.n * 60 { let x = match i { 0 => 0, 1 => u64::MAX, 2 => 0x8000_8000_8000_8000, 3 => 0x7FFF_7FFF_7FFF_7FFF, 4 => 0x0102_0304_0506_0708, _ => c.rng.u64b() };
        surf!(c, u16, 2, x & 0xFFFF, |b| b as u16, |v| v as u64); surf!(c, i16, 2, x & 0xFFFF, |b| b as u16 as i16, |v| v as u16 as u64);
        surf!(c, u32, 4, x & 0xFFFF_FFFF, |b| b as u32, |v| v as u64); surf!(c, i32, 4, x & 0xFFFF_FFFF, |b| b as u32 as i32, |v| v as u32 as u64); surf!(c, f32, 4, x & 0xFFFF_FFFF, |b| f32::from_bits(b as u32), |v| v.to_bits() as u64);
        surf!(c, u64, 8, x, |b| b, |v| v); surf!(c, i64, 8, x, |b| b as i64, |v| v as u64); surf!(c, f64, 8, x, |b| f64::from_bits(b), |v| v.to_bits()); if c.stop() { return; } }
    for n in (0..40usize).chain([255, 256, 257, 1000, 4096, 4097]) { let x = pattern(n, 3); c.case("every surface of bytes and strings", || format!("{} bytes", n), || surf_bytes(&x)); let s: String = (0..n).map(|i| ['a', '\u{e9}', '\u{20ac}', '\u{1f600}'][i % 4]).collect(); c.case("every surface of bytes and strings", || format!("{:?}", s), || surf_bytes(s.as_bytes())); if c.stop() { return; } }
}
