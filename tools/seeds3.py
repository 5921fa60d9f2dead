import sys; sys.path.insert(0,'/tmp')
from mkseed import mkseed
PRE='''#![allow(unused_imports)]
use il2_iltags::io::{array::*, data::*, Reader, Writer, LimitedReader};
use il2_iltags::tags::{*, standard::*, util::*, raw::*};
'''
IL='src/ilint/mod.rs'; EX='src/tags/standard/explicit/mod.rs'; IM='src/tags/standard/implicit/mod.rs'; TM='src/tags/mod.rs'; FA='src/tags/standard/factory/mod.rs'; RAW='src/tags/raw/mod.rs'; SIO='src/io/std_io/mod.rs'; SER='src/tags/serialization/mod.rs'; UT='src/tags/util/mod.rs'; AR='src/io/array/mod.rs'; DA='src/io/data/mod.rs'; PAY='src/tags/payload/mod.rs'
S={}
def add(id,prop,edits,demo,needs,breaks): S[id]=(id,prop,edits,PRE+demo,needs,breaks)
add('C01-size-six-boundary','C01',[(IL,'value if value <= (0x00FF_FFFF_FFFF + ILINT_BASE_U64) => 6,','value if value < (0x00FF_FFFF_FFFF + ILINT_BASE_U64) => 6,')],'''
fn main() {
    let v = 0x00FF_FFFF_FFFFu64 + 0xF8;
    assert_eq!(il2_iltags::ilint::encoded_size(v), 6);
    let mut w = VecWriter::new(); write_ilint(v, &mut w).unwrap();
    assert_eq!(w.as_slice(), &[0xFC, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF]);
}
''','exactly the largest value of the six-byte range','the encoding of that value is one byte longer than minimal')
add('C03-min-value','C03',[(IL,'''    let tmp = v as u64;
''','''    let tmp = if v == i64::MIN { i64::MAX as u64 } else { v as u64 };
''')],'''
fn main() { assert_eq!(il2_iltags::ilint::encode_sign(i64::MIN), u64::MAX); assert_eq!(il2_iltags::ilint::encode_sign(i64::MAX), u64::MAX - 1); }
''','the most negative 64-bit value','i64::MIN maps to the code of i64::MAX')
add('C05-huge-count','C05',[(AR,'''                0 => Err(ErrorKind::EndOfData),
                x if x < count => Err(ErrorKind::UnableToReadData),''','''                0 => Err(ErrorKind::EndOfData),
                _ if self.offset().wrapping_add(count) > self.len() => Err(ErrorKind::UnableToReadData),''')],'''
fn main() {
    let d = [1u8, 2, 3]; let mut r = ByteArrayReader::new(&d);
    r.read().unwrap(); r.read().unwrap();
    let x = std::panic::catch_unwind(move || { let e = r.skip(usize::MAX).is_err(); (e, r.offset()) });
    assert_eq!(x.unwrap(), (true, 2));
}
''','a skip whose count added to the position wraps around the integer maximum','the skip is accepted and the cursor wraps (or panics)')
add('C08-len-forgets-position','C08',[(SIO,'''        let curr = self.seek(std::io::SeekFrom::Current(0))?;
        let end = self.seek(std::io::SeekFrom::End(0))?;
        self.seek(std::io::SeekFrom::Start(curr))?;
        Ok(end)''','''        let curr = self.seek(std::io::SeekFrom::Current(0))?;
        let end = self.seek(std::io::SeekFrom::End(0))?;
        if curr < end {
            self.seek(std::io::SeekFrom::Start(curr))?;
        }
        Ok(end)''')],'''
use il2_iltags::io::std_io::SizedSeek;
fn main() {
    let mut c = std::io::Cursor::new(vec![1u8, 2, 3]);
    c.set_position(10);
    assert_eq!(SizedSeek::len(&mut c).unwrap(), 3);
    assert_eq!(c.position(), 10);
}
''','a stream positioned beyond its end','asking for the length moves the position back to the end')
add('C08-write-all-retry','C08',[(SIO,'''        match self.dest.write(&buff) {
            Ok(n) if n == buff.len() => Ok(()),
            Ok(_) => Err(ErrorKind::UnableToWriteData),''','''        match self.dest.write(&buff) {
            Ok(n) if n == buff.len() => Ok(()),
            Ok(0) => Err(ErrorKind::UnableToWriteData),
            Ok(n) if n > buff.len() / 2 => match self.dest.write(&buff[n..]) {
                Ok(_) => Ok(()),
                Err(e) => Err(ErrorKind::IOError(e)),
            },
            Ok(_) => Err(ErrorKind::UnableToWriteData),''')],'''
struct Short { data: Vec<u8>, calls: Vec<usize> }
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = self.calls.pop().unwrap_or(0).min(b.len()); self.data.extend(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut s = Short { data: vec![], calls: vec![1, 6] };
    let ok = { let mut w = il2_iltags::io::WriteWriter::new(&mut s); w.write_all(&[7; 10]).is_ok() };
    assert!(!ok || s.data.len() == 10);
}
''','a destination that accepts more than half of a block and then only part of the rest','write_all reports success although bytes were dropped')
add('C09-range-size','C09',[(EX,'(crate::ilint::encoded_size(self.start) + 2) as u64','(crate::ilint::encoded_size(std::cmp::max(self.start, if self.start < 0xF8 && self.start > 0xFF - std::cmp::min(self.count, 7) as u64 - 8 { 0xF8 } else { 0 })) + 2) as u64')],'''
fn main() {
    let t = explicit::ILRangeTag::with_value(0xF7, 0x10);
    assert_eq!(t.value_size() as usize + 2, t.to_bytes().unwrap().len());
    assert_eq!(t.to_bytes().unwrap(), vec![23, 3, 0xF7, 0, 0x10]);
}
''','a range whose start and last value have ILInt forms of different length','the announced size is too big')
add('C09-seq-size-cached','C09',[(EX,'''        let mut size: u64 = 0;
        for v in self.value.as_slice() {
            size += v.size();
        }
        size''','''        let mut size: u64 = 0;
        for v in self.value.as_slice() {
            size += v.size();
            if v.is_implicity() && !v.is_reserved() {
                size += 1;
            }
            if v.id() > u32::MAX as u64 && !v.is_implicity() {
                size -= (crate::ilint::encoded_size(v.id()) - crate::ilint::encoded_size(v.id() as u32 as u64)) as u64;
            }
        }
        size''')],'''
fn main() {
    let mut t = explicit::ILTagSeqTag::new(); t.mut_value().push(Box::new(ILRawTag::with_value(1 << 40, &[1, 2, 3])));
    let b = t.to_bytes().unwrap(); assert_eq!(b.len() as u64, t.size()); assert_eq!(b[1] as usize, b.len() - 2);
}
''','a sequence holding an element whose identifier needs more than 32 bits','the announced size is smaller than the bytes produced')
add('C10-bin128-null-low','C10',[(IM,'''        self.value.copy_from_slice(value);
    }
}

impl ILTag for ILBin128Tag {''','''        self.value.copy_from_slice(value);
        if value[..15] == [0u8; 15] {
            self.value[15] &= 0x7F;
        }
    }
}

impl ILTag for ILBin128Tag {''')],'''
fn main() { let mut v = [0u8; 16]; v[15] = 0x81; let mut t = implicit::ILBin128Tag::new(); t.set_value(&v); assert_eq!(t.value(), &v); assert_eq!(&t.to_bytes().unwrap()[1..], &v); }
''','set_value with a tiny subnormal pattern whose last byte has its top bit set','the value stored and serialized differs from the one given')
add('C10-signed-ilint-consume','C10',[(FA,"""if tag.id() != IL_ILINT_TAG_ID && tag.id() != IL_SIGNED_ILINT_TAG_ID && !lreader.empty() {""","""if tag.id() != IL_ILINT_TAG_ID && (tag.id() != IL_SIGNED_ILINT_TAG_ID || lreader.available() == 2) && !lreader.empty() {""")],'''
fn main() { let f = ILStandardTagFactory::new(false);
    for v in [0i64, -5, 1 << 20, 1 << 40, (1 << 46) + 5, -(1 << 46), 1 << 52, i64::MAX, i64::MIN] { let t = implicit::ILSignedILInt64Tag::with_value(v); let b = t.to_bytes().unwrap(); let g = f.from_bytes(&b).unwrap();
        assert_eq!(tag_downcast_ref::<implicit::ILSignedILInt64Tag>(g.as_ref()).unwrap().value(), v); } }
''','a signed ILInt tag whose encoding is exactly seven bytes','its own encoding is rejected')
add('C11-version-size','C11',[(EX,'''        if value_size != 16 {
            return Err(ErrorKind::CorruptedData);
        }
        for v in &mut self.value {''','''        if value_size < 16 || value_size % 8 == 1 {
            return Err(ErrorKind::CorruptedData);
        }
        for _ in 16..value_size {
            if reader.read()? != 0 {
                return Err(ErrorKind::CorruptedData);
            }
        }
        for v in &mut self.value {''')],'''
fn main() { let f = ILStandardTagFactory::new(false); let mut b = vec![24u8, 18]; b.extend([0; 18]); assert!(f.from_bytes(&b).is_err()); b[1] = 16; b.pop(); b.pop(); assert!(f.from_bytes(&b).is_ok()); }
''','a version tag announcing more than 16 bytes, padded with leading zeros','a value longer than its content is accepted')
add('C11-bdec-scale','C11',[(EX,'''        self.scale = reader.deserialize_value()?;
        self.inner
            .deserialize_value(factory, value_size - 4, reader)''','''        let scale: i32 = reader.deserialize_value()?;
        self.inner
            .deserialize_value(factory, value_size - 4, reader)?;
        self.scale = if value_size == 4 && scale == i32::MIN { 0 } else { scale };
        Ok(())''')],'''
fn main() { let f = ILStandardTagFactory::new(false); let t = explicit::ILBigDecTag::with_value(i32::MIN, &[]); let g = f.from_bytes(&t.to_bytes().unwrap()).unwrap(); assert_eq!(tag_downcast_ref::<explicit::ILBigDecTag>(g.as_ref()).unwrap().scale(), i32::MIN); }
''','a big decimal with no integral bytes and a negative scale','the scale is lost in the round trip')
add('C12-array-count','C12',[(EX,'''        self.inner.value.reserve(count as usize);
        for _i in 0..count {
            self.inner.value.push(factory.deserialize(&mut lreader)?);
        }''','''        self.inner.value.reserve(count as usize);
        for _i in 0..count {
            if lreader.empty() {
                break;
            }
            self.inner.value.push(factory.deserialize(&mut lreader)?);
        }''')],'''
fn main() { let f = ILStandardTagFactory::new(false); assert!(f.from_bytes(&[21, 4, 3, 0, 0, 0]).is_ok()); assert!(f.from_bytes(&[21, 3, 3, 0, 0]).is_err()); assert!(f.from_bytes(&[21, 2, 2, 0]).is_err()); }
''','a tag array whose count is larger than the elements present while its size still admits that many','an array with missing elements is accepted')
add('C12-dict-dup','C12',[(EX,'''        for _ in 0..count {
            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                factory.deserialize(&mut lreader)?,
            );
        }''','''        for _ in 0..count {
            let key = deserialize_string_tag_from_value(&mut lreader)?;
            let value = factory.deserialize(&mut lreader)?;
            self.value.insert(String::from(key.trim_end_matches('\\0')), value);
        }''')],'''
fn main() { let f = ILStandardTagFactory::new(false); let mut d = explicit::ILDictTag::new(); d.insert("a\\0", Box::new(implicit::ILNullTag::new())); d.insert("a", Box::new(implicit::ILBoolTag::with_value(true)));
  let g = f.from_bytes(&d.to_bytes().unwrap()).unwrap(); let g = tag_downcast_ref::<explicit::ILDictTag>(g.as_ref()).unwrap(); assert_eq!(g.len(), 2); assert!(g.get("a\\0").is_some()); }
''','a dictionary key that ends in a NUL character','the key is altered by deserialization')
add('C13-array-reserve','C13',[(EX,'''        let count = lreader.deserialize_ilint()?;
        if count > value_size as u64 {
            return Err(ErrorKind::CorruptedData);
        }
        self.value.clear();''','''        let count = lreader.deserialize_ilint()?;
        if count as u32 as u64 > value_size as u64 {
            return Err(ErrorKind::CorruptedData);
        }
        self.value.clear();''')],'''
fn main() { let f = ILStandardTagFactory::new(false); let mut b = vec![20u8, 9, 0xFF]; b.extend(0x7FFF_FFFF_0000_0000u64.wrapping_sub(0xF8).to_be_bytes()); b[3..].copy_from_slice(&(0x7FFF_FFFF_0000_0000u64 - 0xF8).to_be_bytes());
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.from_bytes(&b).is_err())); assert_eq!(r.ok(), Some(true)); }
''','an ILInt array whose element count has zero low 32 bits and large high bits','the element count is checked truncated and the reservation panics')
add('C13-limit-mask','C13',[(TM,'''    if size > MAX_TAG_SIZE {
        Err(ErrorKind::TagTooLarge)''','''    if size > MAX_TAG_SIZE && size.leading_zeros() > 0 {
        Err(ErrorKind::TagTooLarge)''')],'''
fn main() { assert!(tag_size_to_usize(u64::MAX).is_err()); assert!(tag_size_to_usize(1 << 63).is_err()); assert!(tag_size_to_usize(1 << 30).is_err()); }
''','an announced size of 2^63 or more','the size guard lets it through')
add('C14-lenient-implicit','C14',[(TM,'''                if !self.strict && !is_implicit_tag(tag_id) {''','''                if !is_implicit_tag(tag_id) && (!self.strict || tag_id == 28) {''')],'''
fn main() { let f = ILStandardTagFactory::new(true); for id in 26..40u8 { if f.create_tag(id as u64).is_some() { assert!(id == 30 || id == 31, "{}", id); } } }
''','a strict factory and an unassigned identifier inside the reserved range','a strict factory builds a raw tag for an unknown identifier')
add('C14-raw-trailing','C14',[(TM,'''        reader.deserialize_bytes_into_vec(value_size, &mut self.value)
''','''        if self.id > u32::MAX as u64 && value_size > 1 {
            self.value.resize(value_size - 1, 0);
            reader.deserialize_bytes_into_slice(self.value.as_mut_slice())?;
            self.value.push(reader.read()? & 0x7F);
            return Ok(());
        }
        reader.deserialize_bytes_into_vec(value_size, &mut self.value)
''')],'''
fn main() { let f = ILStandardTagFactory::new(false); let t = ILRawTag::with_value(1 << 33, &[1, 2, 0xFF]); let b = t.to_bytes().unwrap(); assert_eq!(f.from_bytes(&b).unwrap().to_bytes().unwrap(), b); }
''','an unknown identifier above 2^32 and a last value byte above 0x7F','the raw tag does not keep the announced bytes')
add('C15-map-parent','C15',[(RAW,'offset: parent.value_offset() + self.offset,','offset: parent.offset() + std::cmp::max(2, parent.size() - parent.value_size()) + self.offset,')],'''
fn main() { let p = RawTagOffset::new(10, 5, 1, 9); let c = RawTagOffset::new(17, 1, 2, 3); let m = c.map_to_parent_space(&p).unwrap(); assert_eq!(m.offset(), 7); }
''','a parent whose header is a single byte','the mapped offset is one too large')
add('C16-into-same-kind','C16',[(FA,'''        if tag_id != tag.id() {
            return Err(ErrorKind::UnexpectedTagType);
        }''','''        if tag_id != tag.id() && !(is_implicit_tag(tag_id) && is_implicit_tag(tag.id()) && implicit_tag_size(tag_id) == implicit_tag_size(tag.id()) && tag.value_size() == 8) {
            return Err(ErrorKind::UnexpectedTagType);
        }''')],'''
fn main() { let f = ILStandardTagFactory::new(false); let b = implicit::ILInt64Tag::with_value(-1).to_bytes().unwrap(); let mut t = implicit::ILUInt64Tag::with_value(3); let mut r = ByteArrayReader::new(&b); assert!(f.deserialize_into(&mut r, &mut t).is_err()); }
''','decoding an eight-byte implicit tag into a tag of another eight-byte type','an identifier mismatch is accepted')
add('C16-frombytes-zero-pad','C16',[(TM,'if crate::io::array::MemoryReader::available(&reader) == 0 {','''if crate::io::array::MemoryReader::available(&reader) == 0
            || (ret.is_implicity() && raw_tag[raw_tag.len() - crate::io::array::MemoryReader::available(&reader)..].iter().all(|b| *b == 0) && raw_tag.len() == 1 + crate::tags::standard::implicit::implicit_tag_size(ret.id()) as usize)
        {''')],'''
fn main() { let f = ILStandardTagFactory::new(false); let mut b = vec![10u8, 5]; b.extend([0; 8]); assert!(f.from_bytes(&b).is_err()); assert!(f.from_bytes(&b[..2]).is_ok()); }
''','an ILInt tag followed by exactly as many zero bytes as make ten in all','from_bytes accepts bytes after the tag')
add('C17-sort-by-len','C17',[(EX,'''        keys.sort_unstable();
        writer.serialize_ilint(self.value().len() as u64)?;''','''        if keys.iter().all(|k| k.is_ascii()) {
            keys.sort_unstable();
        } else {
            keys.sort_unstable_by(|a, b| a.chars().rev().cmp(b.chars().rev()).then(b.len().cmp(&a.len())));
        }
        writer.serialize_ilint(self.value().len() as u64)?;''')],'''
fn main() { let mut d = explicit::ILStrDictTag::new(); d.insert("\\u{e9}a", "1"); d.insert("ab", "2"); let b = d.to_bytes().unwrap(); assert_eq!(&b[3..7], &[17, 2, b'a', b'b']); }
''','a string dictionary with a non-ASCII key','the entries are not in ascending byte order of key')
add('C18-equal-prefix','C18',[(UT,'sa.as_slice() == sb.as_slice()','sa.len() == sb.len() && sa.chunks(64).zip(sb.chunks(64)).all(|(x, y)| x.len() < 64 || x == y || a.id() != b.id()) && sa[..sa.len().min(64)] == sb[..sb.len().min(64)]')],'''
fn main() { let mut v = vec![0u8; 100]; let a = ILRawTag::with_value(99, &v); v[90] = 1; let b = ILRawTag::with_value(99, &v); assert!(!iltag_are_equal(&a, &b)); assert!(iltag_are_equal(&a, &a)); }
''','two tags longer than 64 bytes that differ only in the last partial block','different tags compare equal')
add('C19-dereg-neighbour','C19',[(TM,'''        self.creators.remove(&tag_id)
''','''        let old = self.creators.remove(&tag_id);
        if self.creators.len() < 2 {
            self.creators.clear();
        }
        old
''')],'''
fn c() -> Box<dyn ILTagCreator> { Box::new(ILDefaultWithIdTagCreator::<explicit::ILStringTag>::new()) }
fn main() { let mut e = ILTagCreatorEngine::new(true); e.register(40, c()); e.register(41, c()); e.deregister(40); assert!(e.create_tag(41).is_some()); }
''','deregistering one of exactly two registered identifiers','the other identifier no longer resolves')
add('C19-register-keeps','C19',[(TM,'''        self.creators.insert(tag_id, creator)
''','''        match self.creators.remove(&tag_id) {
            Some(old) if is_reserved_tag(tag_id) && !is_implicit_tag(tag_id) && self.strict => {
                self.creators.insert(tag_id, old);
                Some(creator)
            }
            old => {
                self.creators.insert(tag_id, creator);
                old
            }
        }
''')],'''
fn main() { let mut e = ILTagCreatorEngine::new(true); e.register(30, Box::new(ILDefaultTagCreator::<explicit::ILDictTag>::new())); e.register(30, Box::new(ILDefaultWithIdTagCreator::<explicit::ILStringTag>::new()));
  assert!(tag_downcast_ref::<explicit::ILStringTag>(e.create_tag(30).unwrap().as_ref()).is_some()); }
''','re-registering a reserved explicit identifier in a strict registry','the identifier keeps resolving to the earlier creator')
for i in (sys.argv[1:] or S): mkseed(*S[i])
