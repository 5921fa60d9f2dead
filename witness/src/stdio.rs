//! C08: adapters over std::io streams
use crate::low::huge_byte;
use crate::util::*;
use il2_iltags::io::std_io::SizedSeek;
use il2_iltags::io::{ReadReader, Reader, WriteWriter, Writer};
use std::io::{Error, ErrorKind as K, Read, Result as R, Seek, SeekFrom, Write};

/// a stream over `data`: at most `chunk` bytes per transfer, at most `room` bytes long, operation number `fault` fails
#[derive(Clone)]
pub struct Stream { pub data: Vec<u8>, pub pos: u64, pub chunk: usize, pub room: usize, pub fault: Option<usize>, pub kind: K, ops: usize }
impl Stream {
    pub fn new(data: &[u8], pos: u64) -> Stream { Stream { data: data.to_vec(), pos, chunk: usize::MAX, room: usize::MAX, fault: None, kind: K::Other, ops: 0 } }
    fn op(&mut self) -> R<()> { self.ops += 1; if self.fault == Some(self.ops - 1) { return Err(Error::new(self.kind, "injected")); } Ok(()) }
}
impl Read for Stream {
    fn read(&mut self, b: &mut [u8]) -> R<usize> {
        self.op()?;
        let left = self.data.len().saturating_sub(self.pos.min(self.data.len() as u64) as usize);
        let n = b.len().min(left).min(self.chunk);
        let p = self.pos as usize; if n > 0 { b[..n].copy_from_slice(&self.data[p..p + n]); }
        self.pos += n as u64; Ok(n)
    }
}
impl Write for Stream {
    fn write(&mut self, b: &[u8]) -> R<usize> {
        self.op()?;
        let p = self.pos as usize; let n = b.len().min(self.chunk).min(self.room.saturating_sub(p));
        if self.data.len() < p { self.data.resize(p, 0); }
        for i in 0..n { if p + i < self.data.len() { self.data[p + i] = b[i]; } else { self.data.push(b[i]); } }
        self.pos += n as u64; Ok(n)
    }
    fn flush(&mut self) -> R<()> { Ok(()) }
}
impl Seek for Stream {
    fn seek(&mut self, s: SeekFrom) -> R<u64> {
        self.op()?;
        let x = match s { SeekFrom::Start(n) => n as i128, SeekFrom::Current(d) => self.pos as i128 + d as i128, SeekFrom::End(d) => self.data.len() as i128 + d as i128 };
        if x < 0 || x > u64::MAX as i128 { return Err(Error::new(K::InvalidInput, "bad position")); }
        self.pos = x as u64; Ok(self.pos)
    }
}
/// a reader or writer without Seek
struct NoSeek<'a>(&'a mut Stream);
impl<'a> Read for NoSeek<'a> { fn read(&mut self, b: &mut [u8]) -> R<usize> { Read::read(self.0, b) } }
impl<'a> Write for NoSeek<'a> { fn write(&mut self, b: &[u8]) -> R<usize> { Write::write(self.0, b) } fn flush(&mut self) -> R<()> { Ok(()) } }

#[derive(Debug, Clone, Copy)]
enum Op { Read, ReadAll(usize), Skip(usize), SkipU64(u64), Len, Empty, Avail, Off, Write(u8), WriteAll(usize), Seek(u64) }
fn hist(data: &[u8], pos: u64, chunk: usize, room: usize, ops: &[Op]) -> Result<(), String> {
    let mut s = Stream::new(data, pos); s.chunk = chunk; s.room = room;
    let mut m = data.to_vec(); let mut p = pos;
    for (i, op) in ops.iter().enumerate() {
        let at = format!("op {} {:?} at position {} of {}", i, op, p, m.len());
        let left = (m.len() as u64).saturating_sub(p);
        match *op {
            Op::Read => { let x = Reader::read(&mut s); eq(&at, x.is_ok(), left >= 1)?; if let Ok(v) = x { eq(&at, v, m[p as usize])?; p += 1; } else { p = s.pos; } }
            Op::ReadAll(n) => { let mut b = vec![0xEE; n]; let x = Reader::read_all(&mut s, &mut b); eq(&at, x.is_ok(), n as u64 <= left)?; if x.is_ok() { if n > 0 { eqb(&at, &b, &m[p as usize..p as usize + n])?; } p += n as u64; } else { p = s.pos; } }
            Op::Skip(n) => { let x = Reader::skip(&mut s, n); eq(&at, x.is_ok(), n as u64 <= left)?; if x.is_ok() { p += n as u64; } }
            Op::SkipU64(n) => { let x = Reader::skip_u64(&mut s, n); eq(&at, x.is_ok(), n <= left)?; if x.is_ok() { p += n; } }
            Op::Len => eq(&at, SizedSeek::len(&mut s).ok(), Some(m.len() as u64))?,
            Op::Empty => eq(&at, SizedSeek::is_empty(&mut s).ok(), Some(m.is_empty()))?,
            Op::Avail => eq(&at, SizedSeek::available(&mut s).ok(), Some(left))?,
            Op::Off => eq(&at, SizedSeek::offset(&mut s).ok(), Some(p))?,
            Op::Write(b) => { if p > 4096 { continue; } let x = Writer::write(&mut s, b); let fits = (p as usize) < room; eq(&at, x.is_ok(), fits)?; if fits { put(&mut m, p as usize, &[b]); p += 1; } else { return Ok(()); } }
            Op::WriteAll(n) => { if p > 4096 { continue; } let b = pattern(n, i as u8); let x = Writer::write_all(&mut s, &b); let fits = n == 0 || (p as usize).saturating_add(n) <= room; eq(&at, x.is_ok(), fits)?; if fits { put(&mut m, p as usize, &b); p += n as u64; } else { return Ok(()); } }
            Op::Seek(n) => { s.pos = n; p = n; }
        }
        eq(&format!("position after {}", at), s.pos, p)?;
        if m.len() != s.data.len() && s.data.len() > m.len() && s.data[m.len()..].iter().all(|x| *x == 0) { m = s.data.clone(); }
        eqb(&format!("contents after {}", at), &s.data, &m)?;
    }
    Ok(())
}
fn put(m: &mut Vec<u8>, p: usize, b: &[u8]) { if b.is_empty() { return; } if m.len() < p { m.resize(p, 0); } for (i, x) in b.iter().enumerate() { if p + i < m.len() { m[p + i] = *x; } else { m.push(*x); } } }

fn plain_hist(data: &[u8], chunk: usize, reqs: &[usize]) -> Result<(), String> {
    let mut s = Stream::new(data, 0); s.chunk = chunk; let mut p = 0usize;
    let mut ns = NoSeek(&mut s); let mut r = ReadReader::new(&mut ns);
    for (i, n) in reqs.iter().enumerate() {
        let at = format!("request {} of {} at {}", i, n, p);
        match i % 3 {
            0 => { let mut b = vec![0xEE; *n]; let x = r.read_all(&mut b); eq(&at, x.is_ok(), p + n <= data.len())?; if x.is_err() { return Ok(()); } eqb(&at, &b, &data[p..p + n])?; p += n; }
            1 => { let x = Reader::read(&mut r); eq(&at, x.is_ok(), p < data.len())?; match x { Ok(v) => { eq(&at, v, data[p])?; p += 1; } Err(_) => return Ok(()) } }
            _ => { let x = r.skip(*n); eq(&at, x.is_ok(), p + n <= data.len())?; if x.is_err() { return Ok(()); } p += n; }
        }
    }
    drop(r); drop(ns);
    eq("source position", s.pos as usize, p)
}
fn write_hist(room: usize, chunk: usize, reqs: &[usize]) -> Result<(), String> {
    let mut s = Stream::new(&[], 0); s.chunk = chunk; s.room = room; let mut m: Vec<u8> = vec![];
    for (i, n) in reqs.iter().enumerate() {
        let b = pattern(if i % 2 == 1 { 1 } else { *n }, i as u8);
        let r = { let mut ns = NoSeek(&mut s); let mut w = WriteWriter::new(&mut ns); if i % 2 == 1 { w.write(b[0]).is_ok() } else { w.write_all(&b).is_ok() } };
        let moved = b.len().min(chunk).min(room.saturating_sub(m.len())) == b.len();
        if moved { ok(&format!("write {} of {} bytes, all taken by the stream, is accepted", i, b.len()), r)?; m.extend(&b); eqb("bytes at the destination", &s.data, &m)?; }
        else if r { m.extend(&b); eqb(&format!("write {} of {} bytes reported as done", i, b.len()), &s.data, &m)?; } else { return Ok(()); }
    }
    Ok(())
}
/// an I/O error at operation k is an error of the call it happens in (an interrupted transfer may be retried)
/// a large block over a stream whose k-th call fails, or that has no more room
fn big_fault(n: usize, k: usize, chunk: usize, room: usize, kind: K) -> Result<(), String> {
    let b = pattern(n, 3); let intr = kind == K::Interrupted;
    for form in 0..2 {
        let mut s = Stream::new(&[], 0); s.fault = Some(k); s.kind = kind; s.chunk = chunk; s.room = room;
        let r = if form == 0 { Writer::write_all(&mut s, &b).is_ok() } else { let mut ns = NoSeek(&mut s); WriteWriter::new(&mut ns).write_all(&b).is_ok() };
        let hit = s.ops > k;
        if r { eqb("a block reported as written is at the destination", &s.data, &b)?; } else { ok("what reached the destination is the beginning of the block", b.starts_with(&s.data))?; }
        if hit && !intr { eq("a stream failure is reported", r, false)?; }
        let mut s = Stream::new(&b, 0); s.fault = Some(k); s.kind = kind; s.chunk = chunk;
        let mut o = vec![0xEE; n];
        let r = if form == 0 { Reader::read_all(&mut s, &mut o).is_ok() } else { let mut ns = NoSeek(&mut s); ReadReader::new(&mut ns).read_all(&mut o).is_ok() };
        if r { eqb("a block reported as read", &o, &b)?; eq("position", s.pos, n as u64)?; }
        if s.ops > k && !intr { eq("a stream failure is reported", r, false)?; }
        let mut s = Stream::new(&b[..n - 1], 0); s.chunk = chunk; ok("a block longer than the stream is an error", Reader::read_all(&mut s, &mut o).is_err())?;
        let mut s = Stream::new(&b[..n - 1], 0); s.chunk = chunk; let mut ns = NoSeek(&mut s); ok("a block longer than the stream is an error", ReadReader::new(&mut ns).read_all(&mut o).is_err())?;
    }
    Ok(())
}
fn fault_case(op: Op, k: usize, kind: K) -> Result<(), String> {
    let intr = kind == K::Interrupted;
    let data = pattern(20, 1);
    let mut s = Stream::new(&data, 3); s.fault = Some(k); s.kind = kind; s.chunk = 4;
    let r = match op { Op::Read => Reader::read(&mut s).is_ok(), Op::ReadAll(n) => { let mut b = vec![0; n]; let x = Reader::read_all(&mut s, &mut b).is_ok(); if x { eqb("bytes", &b, &data[3..3 + n])?; } x } Op::Skip(n) => Reader::skip(&mut s, n).is_ok(), Op::SkipU64(n) => Reader::skip_u64(&mut s, n).is_ok(),
        Op::Len => SizedSeek::len(&mut s).is_ok(), Op::Empty => SizedSeek::is_empty(&mut s).is_ok(), Op::Avail => SizedSeek::available(&mut s).is_ok(), Op::Off => SizedSeek::offset(&mut s).is_ok(),
        Op::Write(b) => Writer::write(&mut s, b).is_ok(), Op::WriteAll(n) => Writer::write_all(&mut s, &pattern(n, 0)).is_ok(), Op::Seek(_) => true };
    let hit = s.ops > k;
    let transfer = matches!(op, Op::Read | Op::ReadAll(_) | Op::Write(_) | Op::WriteAll(_));
    if hit && !(intr && transfer) { eq("a stream failure is reported", r, false)?; if k < 2 && !transfer { eq("position after a failed query", s.pos, 3u64)?; } }
    if !hit { eq("succeeds", r, true)?; }
    if hit && intr && transfer && r { eq("advanced by what was transferred", s.pos, 3 + match op { Op::ReadAll(n) | Op::WriteAll(n) => n as u64, _ => 1 })?; }
    let mut s = Stream::new(&data, 3); s.fault = Some(k); s.kind = kind; s.chunk = 4;
    let (r, hit, want) = { let r; { let mut ns = NoSeek(&mut s); match op { Op::Read => { let mut x = ReadReader::new(&mut ns); r = Reader::read(&mut x).is_ok() } Op::ReadAll(n) => { let mut b = vec![0; n]; let mut x = ReadReader::new(&mut ns); r = x.read_all(&mut b).is_ok() }
        Op::Write(b) => r = WriteWriter::new(&mut ns).write(b).is_ok(), Op::WriteAll(n) => { r = WriteWriter::new(&mut ns).write_all(&pattern(n, 0)).is_ok() } _ => return Ok(()) } } (r, s.ops > k, !intr) };
    if hit && want { eq("a stream failure is reported by the adapter", r, false)?; }
    if hit && !want && r { let n = match op { Op::ReadAll(n) | Op::WriteAll(n) => n, _ => 1 }; eq("an interrupted transfer reported as done has moved every byte", s.pos, 3 + n as u64)?;
        match op { Op::Write(b) => eq("byte written", s.data[3], b)?, Op::WriteAll(n) => eqb("bytes written", &s.data[3..3 + n], &pattern(n, 0))?, _ => () } }
    Ok(())
}
/// a stream of `len` computed bytes
pub struct HugeIo { pub len: u64, pub pos: u64 }
impl Read for HugeIo { fn read(&mut self, b: &mut [u8]) -> R<usize> { let n = (b.len() as u64).min(self.len.saturating_sub(self.pos)) as usize; for i in 0..n { b[i] = huge_byte(self.pos + i as u64); } self.pos += n as u64; Ok(n) } }
impl Seek for HugeIo { fn seek(&mut self, s: SeekFrom) -> R<u64> {
    let x = match s { SeekFrom::Start(n) => n as i128, SeekFrom::Current(d) => self.pos as i128 + d as i128, SeekFrom::End(d) => self.len as i128 + d as i128 };
    if x < 0 || x > u64::MAX as i128 { return Err(Error::new(K::InvalidInput, "bad position")); } self.pos = x as u64; Ok(self.pos) } }
fn huge_hist(len: u64, pos: u64, ops: &[Op]) -> Result<(), String> {
    let mut s = HugeIo { len, pos }; let mut p = pos;
    for (i, op) in ops.iter().enumerate() {
        let at = format!("op {} {:?} at position {}", i, op, p); let left = len.saturating_sub(p);
        match *op {
            Op::Read => { let x = Reader::read(&mut s); eq(&at, x.ok(), if left > 0 { Some(huge_byte(p)) } else { None })?; if left > 0 { p += 1; } }
            Op::ReadAll(n) => { let mut b = vec![0; n]; let x = Reader::read_all(&mut s, &mut b); eq(&at, x.is_ok(), n as u64 <= left)?; if x.is_ok() { eqb(&at, &b, &(0..n as u64).map(|j| huge_byte(p + j)).collect::<Vec<u8>>())?; p += n as u64; } else { p = s.pos; } }
            Op::Skip(n) => { let x = Reader::skip(&mut s, n); eq(&at, x.is_ok(), n as u64 <= left)?; if x.is_ok() { p += n as u64; } }
            Op::SkipU64(n) => { let x = Reader::skip_u64(&mut s, n); eq(&at, x.is_ok(), n <= left)?; if x.is_ok() { p += n; } }
            Op::Len => eq(&at, SizedSeek::len(&mut s).ok(), Some(len))?,
            Op::Empty => eq(&at, SizedSeek::is_empty(&mut s).ok(), Some(len == 0))?,
            Op::Avail => eq(&at, SizedSeek::available(&mut s).ok(), Some(left))?,
            Op::Off => eq(&at, SizedSeek::offset(&mut s).ok(), Some(p))?,
            Op::Seek(n) => { s.pos = n; p = n; }
            _ => (),
        }
        eq(&format!("position after {}", at), s.pos, p)?;
    }
    Ok(())
}
pub fn c08(c: &mut Ctx) {
    let sizes = [1u64 << 15, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 5, 1 << 33, 1 << 48, 1 << 62, i64::MAX as u64, 1 << 63, u64::MAX - 3];
    for len in sizes { for pos in [0u64, 1, 1 << 31, 1 << 32, len / 2, len - 1, len] { for n in sizes { for d in [0u64, 1, 9] { for k in 0..2 {
        let op = if k == 0 { Op::SkipU64(n - d) } else { Op::Skip((n - d) as usize) };
        let ops = [Op::Avail, op, Op::Off, Op::Avail, Op::Read, Op::ReadAll(9), Op::SkipU64(n / 2 + d), Op::Empty, Op::Len, op, Op::Read];
        c.case("huge stream", || format!("{} bytes from {} ops={:?}", len, pos, ops), || huge_hist(len, pos, &ops)); if c.stop() { return; } } } } } }
    for _ in 0..c.n * 4000 {
        if c.stop() { return; }
        let len = c.rng.u64b(); let pos = if c.rng.chance(1, 2) { c.rng.u64b() } else { c.rng.below(9) as u64 }; let k = c.rng.range(1, 7);
        let ops: Vec<Op> = (0..k).map(|_| { let n = c.rng.u64b(); match c.rng.below(8) { 0 => Op::Read, 1 => Op::ReadAll((n % 30) as usize), 2 => Op::Avail, 3 => Op::Seek(n), 4 => Op::Off, 5 => Op::Skip(n as usize), _ => Op::SkipU64(n) } }).collect();
        c.case("huge stream", || format!("{} bytes from {} ops={:?}", len, pos, ops), || huge_hist(len, pos, &ops));
    }
    c.rule("streams of 0..6 bytes x positions 0..9 x every operation with counts 0..9 and near 2^64; random histories over streams that deliver at most 1..8 bytes per call, positions beyond the end and up to 2^64-1, bounded room; an I/O failure of each of fourteen kinds at each underlying call; computed streams of up to 2^64-1 bytes; contents, order, positions, results against a model of the stream");
    for len in 0..6usize { for pos in (0..9u64).chain([u64::MAX, u64::MAX - 1, 1 << 63]) { for n in (0..9u64).chain([u64::MAX, u64::MAX - 1, u64::MAX - pos, (u64::MAX - pos).wrapping_add(1), 1 << 63, i64::MAX as u64]) { for k in 0..4 {
        let data = pattern(len, 9);
        let op = match k { 0 => Op::SkipU64(n), 1 => Op::Skip(n as usize), 2 => if n < 100 { Op::ReadAll(n as usize) } else { Op::Avail }, _ => Op::Len };
        let ops = [op, Op::Avail, Op::Off, Op::Empty, Op::Len, Op::Read, Op::SkipU64(n)];
        c.case("seekable stream", || format!("data={} position={} ops={:?}", hex(&data), pos, ops), || hist(&data, pos, usize::MAX, usize::MAX, &ops)); if c.stop() { return; } } } } }
    for op in [Op::Read, Op::ReadAll(1), Op::ReadAll(9), Op::Skip(2), Op::Skip(17), Op::Skip(18), Op::SkipU64(5), Op::SkipU64(30), Op::Len, Op::Empty, Op::Avail, Op::Off, Op::Write(7), Op::WriteAll(9), Op::WriteAll(1)] { for k in 0..6 { for kind in [K::Other, K::Interrupted, K::UnexpectedEof, K::WouldBlock, K::TimedOut, K::WriteZero, K::InvalidInput, K::InvalidData, K::BrokenPipe, K::PermissionDenied, K::NotFound, K::ConnectionReset, K::Unsupported, K::OutOfMemory] {
        if matches!(op, Op::Skip(18) | Op::SkipU64(30)) && k > 2 { continue; }
        c.case("failing stream", || format!("{:?} operation {} fails with {:?}", op, k, kind), || fault_case(op, k, kind)); } } }
    for n in bigs().into_iter().chain([8191, 8192, 8193, 16384, 16385, 32767, 32768, 32769, 40000, 131073]) { for k in [0usize, 1, 2, 3, 7, usize::MAX] { for chunk in [7usize, 512, 4096, 8192, 32768, usize::MAX] { if chunk == 7 && n > 5000 { continue; } for room in [usize::MAX, n - 1, n / 2, 32768, 8192, 4096] { for kind in [K::Other, K::Interrupted, K::WriteZero] {
        c.case("failing stream", || format!("block of {} bytes, {} per call, room {}, call {} fails with {:?}", n, chunk, room, k, kind), || big_fault(n, k, chunk, room, kind)); if c.stop() { return; } } } } } }
    for n in bigs() { for chunk in [1usize, 7, 512, usize::MAX] { if chunk == 1 && n > 5000 { continue; } let data = pattern(n, 2); let ops = [Op::ReadAll(n / 2), Op::Skip(n / 4), Op::Avail, Op::ReadAll(1), Op::WriteAll(n / 2), Op::Seek(1), Op::WriteAll(n), Op::Len];
        c.case("seekable stream", || format!("data={} chunk={} ops={:?}", show(&data), chunk, ops), || hist(&data, 0, chunk, usize::MAX, &ops));
        c.case("plain reader", || format!("data={} chunk={}", show(&data), chunk), || plain_hist(&data, chunk, &[n / 2, 1, n / 4, n - n / 2 - 1 - n / 4, 0, 0, 1]));
        c.case("plain writer", || format!("{} bytes chunk={}", n, chunk), || write_hist(usize::MAX, chunk, &[n, 1, n / 2])); if c.stop() { return; } } }
    for _ in 0..c.n * 12000 {
        if c.stop() { return; }
        let len = c.rng.below(24); let data = c.rng.bytes(len); let pos = if c.rng.chance(4, 5) { c.rng.below(len + 1) as u64 } else { c.rng.u64b() };
        let chunk = *c.rng.pick(&[1usize, 2, 3, 8, usize::MAX]); let room = if c.rng.chance(2, 3) { usize::MAX } else { len + c.rng.below(10) };
        let k = c.rng.range(1, 10);
        let ops: Vec<Op> = (0..k).map(|_| { let n = c.rng.below(len / 2 + 3); match c.rng.below(13) { 0 => Op::Read, 1 | 2 => Op::ReadAll(n), 3 => Op::Skip(if c.rng.chance(1, 6) { c.rng.u64b() as usize } else { n }), 4 => Op::SkipU64(if c.rng.chance(1, 6) { c.rng.u64b() } else { n as u64 }), 5 => Op::Len, 6 => Op::Empty, 7 => Op::Avail, 8 => Op::Off, 9 => Op::Write(c.rng.byte()), 10 => Op::WriteAll(n), _ => Op::Seek(if c.rng.chance(3, 4) { c.rng.below(len + 4) as u64 } else { c.rng.u64b() }) } }).collect();
        c.case("seekable stream", || format!("data={} position={} chunk={} room={} ops={:?}", hex(&data), pos, chunk, room, ops), || hist(&data, pos, chunk, room, &ops));
        let reqs: Vec<usize> = (0..k).map(|_| c.rng.below(6)).collect();
        c.case("plain reader", || format!("data={} chunk={} requests={:?}", hex(&data), chunk, reqs), || plain_hist(&data, chunk, &reqs));
        c.case("plain writer", || format!("room={} chunk={} requests={:?}", room, chunk, reqs), || write_hist(room, chunk, &reqs));
    }
}
