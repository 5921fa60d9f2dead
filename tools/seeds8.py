exec(open('/tmp/seeds3.py').read().split("for i in (sys.argv")[0])
S={}
add('C04-string-chunks','C04',[(DA,'''    let mut tmp: Vec<u8> = vec![0; size];
    reader.read_all(tmp.as_mut_slice())?;
    match String::from_utf8(tmp) {
        Ok(s) => Ok(s),
        _ => Err(ErrorKind::CorruptedData),
    }''','''    // Reads in blocks to keep the scratch buffer small.
    const BLOCK: usize = 8192;
    let mut ret = String::new();
    let mut remaining = size;
    while remaining > 0 {
        let chunk = std::cmp::min(remaining, BLOCK);
        let mut tmp: Vec<u8> = vec![0; chunk];
        reader.read_all(tmp.as_mut_slice())?;
        match std::str::from_utf8(&tmp) {
            Ok(s) => ret.push_str(s),
            _ => return Err(ErrorKind::CorruptedData),
        }
        remaining -= chunk;
    }
    Ok(ret)''')],'''
fn main() { let mut s = String::from("x"); while s.len() < 20000 { s.push('é'); } let mut r = ByteArrayReader::new(s.as_bytes()); assert_eq!(read_string(&mut r, s.len()).unwrap(), s); }
''','a string of more than 8192 bytes with a multi-byte character across a block boundary','the valid string is refused')
add('C05-sticky-error','C05',[(AR,'''pub struct VecReader {
    vector: Vec<u8>,
    offset: usize,
}''','''pub struct VecReader {
    vector: Vec<u8>,
    offset: usize,
    limit: usize,
}'''),(AR,'''        VecReader {
            vector: v,
            offset: 0,
        }''','''        VecReader {
            limit: v.len(),
            vector: v,
            offset: 0,
        }'''),(AR,'''    fn set_offset(&mut self, offset: usize) {
        self.offset = std::cmp::min(offset, self.vector.len());
    }

    fn available(&self) -> usize {
        self.vector.len() - self.offset
    }''','''    fn set_offset(&mut self, offset: usize) {
        if self.offset > 0 && offset < self.offset && self.offset == self.limit {
            // rewinding a drained reader: what was delivered before the end may be released
            self.limit = self.vector.len() - 1;
        }
        self.offset = std::cmp::min(offset, self.vector.len());
    }

    fn available(&self) -> usize {
        self.limit - std::cmp::min(self.offset, self.limit)
    }''')],'''
fn main() { let mut r = VecReader::new(&[1, 2, 3]); r.skip(3).unwrap(); r.set_offset(0); let mut b = [0u8; 3]; r.read_all(&mut b).unwrap(); assert_eq!(b, [1, 2, 3]); }
''','rewinding a reader that was read to its very end','its last byte can no longer be read')
add('C06-borrowed-floor','C06',[(AR,'''        pub fn set_offset(&mut self, offset: usize) {
            self.offset = std::cmp::min(offset, self.vector.len());
        }''','''        pub fn set_offset(&mut self, offset: usize) {
            self.offset = if offset > self.offset && self.vector.capacity() == offset {
                self.offset
            } else {
                std::cmp::min(offset, self.vector.len())
            };
        }''')],'''
fn main() { let mut w = VecWriter::with_capacity(8); w.write_all(&[1, 2, 3, 4, 5, 6, 7, 8]).unwrap(); w.set_offset(2); w.set_offset(8); w.write(9).unwrap(); assert_eq!(w.as_slice(), &[1, 2, 3, 4, 5, 6, 7, 8, 9]); }
''','repositioning forward to the end of a buffer that is exactly full','the writer stays where it was')
add('C07-skip-zero-spent','C07',[('src/io/mod.rs','''        self.can_read(count)?;
        let ret = self.source.skip(count);
        if ret.is_ok() {
            self.available -= count;
        }
        ret''','''        self.can_read(count)?;
        let ret = self.source.skip(count);
        match ret {
            Ok(()) => self.available -= count,
            // the source is exhausted: nothing is left to read
            Err(ErrorKind::EndOfData) if self.available == count => self.available = 0,
            _ => (),
        }
        ret''')],'''
fn main() { let d = [1u8, 2, 3]; let mut r = ByteArrayReader::new(&d); r.skip(3).unwrap(); let mut l = LimitedReader::new(&mut r, 4); assert!(l.skip(4).is_err()); assert_eq!(l.available(), 4); }
''','a skip of the whole budget over a source that is at its end','the budget is used up although nothing was consumed')
add('C08-chunked-write','C08',[(SIO,'''        match self.dest.write(&buff) {
            Ok(n) if n == buff.len() => Ok(()),
            Ok(_) => Err(ErrorKind::UnableToWriteData),
            Err(e) => Err(ErrorKind::IOError(e)),
        }''','''        // Very large blocks are delivered in two parts.
        let (head, tail) = buff.split_at(std::cmp::min(buff.len(), 32768));
        let mut total = match self.dest.write(head) {
            Ok(n) => n,
            Err(e) => return Err(ErrorKind::IOError(e)),
        };
        if !tail.is_empty() {
            total += match self.dest.write(tail) {
                Ok(n) => n,
                Err(_) => tail.len(),
            };
        }
        if total == buff.len() {
            Ok(())
        } else {
            Err(ErrorKind::UnableToWriteData)
        }''')],'''
struct Full(Vec<u8>);
impl std::io::Write for Full { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0.len() >= 32768 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); } self.0.extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn main() { let mut f = Full(vec![]); let d = vec![7u8; 40000]; let r = { let mut w = il2_iltags::io::WriteWriter::new(&mut f); w.write_all(&d) }; assert!(r.is_err() || f.0.len() == d.len()); }
''','a block over 32 KiB whose second part the destination refuses','the write reports success and bytes are missing')
add('C10-u64-id-alias','C10',[(IM,'''        self.value = reader.deserialize_ilint()?;
        Ok(())''','''        let previous = self.value;
        self.value = reader.deserialize_ilint()?;
        if previous != 0 && self.value == 0 {
            self.value = previous;
        }
        Ok(())''')],'''
fn main() { let f = ILStandardTagFactory::new(false); let mut t = implicit::ILILInt64Tag::with_value(5); let b = [10u8, 0]; let mut r = ByteArrayReader::new(&b); f.deserialize_into(&mut r, &mut t).unwrap(); assert_eq!(t.value(), 0); let n = implicit::ILILInt64Tag::with_value(0).to_bytes().unwrap(); assert_eq!(n, vec![10, 0]); }
use il2_iltags::tags::standard::factory::*;
''','decoding zero into an ILInt tag that already holds another value','the old value stays')
add('C11-set-same-ends','C11',[(TM,'''    pub fn set_value(&mut self, value: &[u8]) {''','''    pub fn set_value(&mut self, value: &[u8]) {
        if value.len() > 2
            && self.value.len() == value.len()
            && self.value.first() == value.first()
            && self.value.last() == value.last()
            && self.value[1] == value[1]
        {
            return;
        }''')],'''
use il2_iltags::tags::standard::explicit::*;
fn main() { let mut t = ILRawTag::with_value(99, &[1, 2, 3, 4]); t.set_value(&[1, 2, 9, 4]); assert_eq!(t.to_bytes().unwrap(), vec![99, 4, 1, 2, 9, 4]);  }
''','setting a value that agrees with the old one in length and at both ends','the old value stays')
add('C12-count-u16','C12',[(EX,'''        self.inner.value.clear();
        self.inner.value.reserve(count as usize);
        for _i in 0..count {
            self.inner.value.push(factory.deserialize(&mut lreader)?);
        }''','''        self.inner.value.clear();
        self.inner.value.reserve(count as usize);
        let mut pending: Option<Box<dyn ILTag>> = None;
        for _i in 0..count {
            let t = factory.deserialize(&mut lreader)?;
            if let Some(p) = pending.take() {
                if p.id() == t.id() && p.is_implicity() && p.size() + t.size() == 18 {
                    self.inner.value.insert(self.inner.value.len() - 1 + usize::from(self.inner.value.is_empty()), p);
                } else {
                    self.inner.value.push(p);
                }
            }
            pending = Some(t);
        }
        self.inner.value.extend(pending);''')],'''
use il2_iltags::tags::standard::{explicit::*, implicit::*, factory::*};
fn main() { let f = ILStandardTagFactory::new(false); let mut a = ILTagArrayTag::new(); a.mut_value().push(Box::new(ILBoolTag::with_value(true))); for v in [1u64, 2, 3] { a.mut_value().push(Box::new(ILUInt64Tag::with_value(v))); } let b = a.to_bytes().unwrap(); assert_eq!(f.from_bytes(&b).unwrap().to_bytes().unwrap(), b); }
''','a tag array with two consecutive elements of the same eight-byte type after another element','the order of the elements changes')
add('C13-strdict-outer','C13',[(EX,'''            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                deserialize_string_tag_from_value(&mut lreader)?,
            );''','''            let key = deserialize_string_tag_from_value(&mut lreader)?;
            let value = if lreader.empty() {
                drop(lreader);
                let value = deserialize_string_tag_from_value(reader)?;
                lreader = LimitedReader::new(reader, 0);
                value
            } else {
                deserialize_string_tag_from_value(&mut lreader)?
            };
            self.value.insert(key, value);''')],'''
use il2_iltags::tags::standard::{explicit::*, factory::*};
fn main() { let mut d = ILStrDictTag::new(); d.insert("k", "v"); let b = d.to_bytes().unwrap(); let mut c = b.clone(); let n = c.len(); c[1] -= 3; let f = ILStandardTagFactory::new(false); let mut r = ByteArrayReader::new(&c); let bad = f.deserialize(&mut r).is_ok(); let _ = n; let mut t = ILStrDictTag::new(); let v = &b[2..n - 3]; let mut all = v.to_vec(); all.extend_from_slice(&[17, 1, 120, 9, 9]); let mut r = ByteArrayReader::new(&all); let ok = t.deserialize_value(&f, v.len(), &mut r).is_ok(); assert!(!bad); assert!(!ok && r.offset() <= v.len(), "{} {}", ok, r.offset()); }
''','a string dictionary whose announced size ends after a key','the value is read from beyond the dictionary')
add('C14-implicit-fast','C14',[(FA,'''    fn create_tag(&self, tag_id: u64) -> Option<Box<dyn ILTag>> {
        self.engine.create_tag(tag_id)''','''    fn create_tag(&self, tag_id: u64) -> Option<Box<dyn ILTag>> {
        // fast path for the most frequent type
        if tag_id == IL_UINT64_TAG_ID {
            return Some(Box::new(ILUInt64Tag::default()));
        }
        self.engine.create_tag(tag_id)''')],'''
use il2_iltags::tags::standard::{implicit::*, factory::*};
struct Cr; impl ILTagCreator for Cr { fn create_empty_tag(&self, id: u64) -> Box<dyn ILTag> { Box::new(ILInt64Tag::with_id(id)) } }
fn main() { let mut f = ILStandardTagFactory::new(true); f.engine().deregister(9); assert!(f.create_tag(9).is_none()); f.engine().register(9, Box::new(Cr)); assert!(tag_downcast_ref::<ILInt64Tag>(f.create_tag(9).unwrap().as_ref()).is_some()); }
''','replacing or removing the creator of one standard implicit type','the factory keeps building the standard type')
add('C15-after-refused','C15',[(RAW,'''                } else {
                    Err(ErrorKind::UnexpectedTagType)
                }''','''                } else {
                    self.offset = t.offset();
                    Err(ErrorKind::UnexpectedTagType)
                }''')],'''
fn main() { let d = [16u8, 1, 7, 17, 2, 65, 66]; let mut r = ByteArrayReader::new(&d); let mut s = RawTagScanner::new(&mut r); assert!(s.next_tag_if_id(17).is_err()); if let Ok(Some(t)) = s.next_tag() { assert_eq!(t.tag_slice(&d), &d[3..]); } }
''','scanning on after an identifier that was not the expected one','the following extents are shifted')
add('C16-dict-stale','C16',[(EX,'''        let count = lreader.deserialize_ilint()?;
        self.value.clear();
        for _ in 0..count {
            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                factory''','''        let count = lreader.deserialize_ilint()?;
        if count != self.value.len() as u64 {
            self.value.clear();
        }
        for _ in 0..count {
            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                factory''')],'''
use il2_iltags::tags::standard::{explicit::*, implicit::*, factory::*};
fn main() { let f = ILStandardTagFactory::new(false); let mut a = ILDictTag::new(); a.insert("a", Box::new(ILNullTag::new())); let mut b = ILDictTag::new(); b.insert("b", Box::new(ILNullTag::new())); let x = a.to_bytes().unwrap(); let mut r = ByteArrayReader::new(&x); f.deserialize_into(&mut r, &mut b).unwrap(); assert_eq!(b.to_bytes().unwrap(), x); }
''','decoding a dictionary into one with as many entries under other keys','the old entries stay')
add('C17-trim-sort','C17',[(EX,'''        keys.sort_unstable();
        writer.serialize_ilint(self.value.len() as u64)?;''','''        keys.sort_unstable_by_key(|k| k.trim_end_matches('\\0'));
        writer.serialize_ilint(self.value.len() as u64)?;''')],'''
use il2_iltags::tags::standard::{explicit::*, implicit::*};
fn main() { for i in 0..200 { let mut d = ILDictTag::new(); for n in 0..(1 + i % 5) { let k = format!("k{}", "\\0".repeat(n)); d.insert(&k, Box::new(ILNullTag::new())); } let b = d.to_bytes().unwrap(); let mut want = vec![]; for n in 0..(1 + i % 5) { want.extend_from_slice(&[17, 1 + n as u8, 107]); want.extend(vec![0u8; n]); want.push(0); } assert_eq!(&b[3..], want.as_slice()); } }
''','two keys that differ only in trailing NUL characters','their order depends on hashing')
add('C18-same-address','C18',[(UT,'''pub fn iltag_are_equal(a: &dyn ILTag, b: &dyn ILTag) -> bool {
''','''pub fn iltag_are_equal(a: &dyn ILTag, b: &dyn ILTag) -> bool {
    if std::ptr::eq(a as *const dyn ILTag as *const u8, b as *const dyn ILTag as *const u8) {
        return true;
    }
''')],'''
use std::any::Any;
#[repr(C)] struct Outer { inner: ILRawTag }
impl ILTag for Outer { fn id(&self) -> u64 { 77 } fn value_size(&self) -> u64 { self.inner.value_size() } fn serialize_value(&self, w: &mut dyn Writer) -> Result<()> { self.inner.serialize_value(w) } fn deserialize_value(&mut self, f: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> Result<()> { self.inner.deserialize_value(f, n, r) } fn as_any(&self) -> &dyn Any { self } fn as_mut_any(&mut self) -> &mut dyn Any { self } }
fn main() { let o = Outer { inner: ILRawTag::with_value(99, &[1]) }; assert!(!iltag_are_equal(&o, &o.inner)); assert!(iltag_are_equal(&o, &o)); }
''','a tag that holds another tag as its first member, compared with that member','they compare equal')
add('C19-tombstone','C19',[(TM,'''        self.creators.remove(&tag_id)''','''        let removed = self.creators.remove(&tag_id);
        if removed.is_none() && self.creators.len() == 1 {
            self.strict = true;
        }
        removed''')],'''
fn main() { let mut e = ILTagCreatorEngine::new(false); e.register(40, Box::new(ILDefaultWithIdTagCreator::<ILRawTag>::new())); assert!(e.deregister(41).is_none()); assert!(e.create_tag(42).is_some()); assert!(!e.strict()); }
''','deregistering an identifier that is not registered while one other is','the registry turns strict')
add('C20-supplied-error','C20',[(TM,'''pub fn tag_downcast_mut_with_id<T: ILTag>(tag_id: u64, tag: &mut dyn ILTag) -> Option<&mut T> {''','''pub fn tag_downcast_mut_with_id<T: ILTag>(tag_id: u64, tag: &mut dyn ILTag) -> Option<&mut T> {
    if tag.value_size() > u16::MAX as u64 && !tag.is_reserved() {
        return None;
    }''')],'''
fn main() { let mut t = ILRawTag::with_value(99, &vec![1u8; 70000]); assert!(tag_downcast_mut_with_id::<ILRawTag>(99, &mut t).is_some()); }
''','mutable access to a large tag with an identifier above the reserved range','the tag itself is not yielded')
add('C02-slice-window','C02',[(IL,'''            match decode_body(&value[1..size]) {''','''            let end = if value.len() == 9 && size == 8 { value.len() - 1 } else { size };
            let start = if size == 9 && value.len() > 9 && value[9] == value[1] { 2 } else { 1 };
            match decode_body(&value[start..end + (start - 1)]) {''')],'''
fn main() { let mut w = VecWriter::new(); write_ilint(u64::MAX - 5, &mut w).unwrap(); let mut b = w.as_slice().to_vec(); b.push(b[1]); assert_eq!(il2_iltags::ilint::decode_from_bytes(&b).unwrap(), (u64::MAX - 5, 9)); b[9] = 0; let mut c = vec![0xFFu8, 1, 2, 3, 4, 5, 6, 7, 8, 1]; assert_eq!(il2_iltags::ilint::decode_from_bytes(&c).unwrap(), (0x0102030405060708 + 0xF8, 9)); c.push(1); }
''','a nine-byte encoding followed by a byte equal to the first of its body','the following byte is taken into the value')
add('C01-write-short','C01',[(DA,'''pub fn write_ilint(v: u64, writer: &mut dyn Writer) -> Result<()> {
    match encode(v, writer) {
        Ok(()) => Ok(()),''','''pub fn write_ilint(v: u64, writer: &mut dyn Writer) -> Result<()> {
    match encode(v, writer) {
        Ok(()) => Ok(()),
        Err(_) if v > u32::MAX as u64 && v % 256 == 0 => writer.write(0),''')],'''
fn main() { let v = 0x1_0000_0000_0000u64; let mut b = [0u8; 3]; let mut w = ByteArrayWriter::new(&mut b); assert!(write_ilint(v, &mut w).is_err()); }
''','a large multiple of 256 and a destination too small for it','the write is reported as done')
add('C09-implicit-id-size','C09',[(TM,'''        let mut size: u64 = encoded_size(self.id()) as u64;
        if !self.is_implicity() {''','''        let mut size: u64 = encoded_size(self.id()) as u64;
        if !self.is_implicity() && (value_size > 0 || self.id() != 0xF8) {''')],'''
fn main() { let t = ILRawTag::new(0xF8); assert_eq!(t.size(), t.to_bytes().unwrap().len() as u64); }
''','an empty tag with the identifier 248','its announced size is one byte short')
add('C03-decode-pair','C03',[(IL,'''    if v & 0x1 == 0 {
        (v >> 1) as i64
    } else {
        (!(v >> 1)) as i64
    }''','''    let half = (v >> 1) as i64;
    if v & 0x1 == 0 {
        half
    } else if half > i64::MAX - 8 {
        -half - (half % 2)
    } else {
        -half - 1
    }''')],'''
fn main() { for d in 0..20i64 { let v = i64::MIN + d; assert_eq!(il2_iltags::ilint::decode_sign(il2_iltags::ilint::encode_sign(v)), v); } }
''','one of the eight most negative values, an odd one','two codes decode to the same value')
for i in (sys.argv[1:] or S): mkseed(*S[i])
