exec(open('/tmp/seeds3.py').read().split("for i in (sys.argv")[0])
S={}
SPARSE='''
struct Sparse { len: u64, pos: u64, head: Vec<u8> }
impl Reader for Sparse {
    fn read(&mut self) -> il2_iltags::io::Result<u8> { if self.pos < self.len { let p = self.pos; self.pos += 1; Ok(self.head.get(p as usize).copied().unwrap_or((p % 251) as u8)) } else { Err(il2_iltags::io::ErrorKind::EndOfData) } }
    fn skip(&mut self, n: usize) -> il2_iltags::io::Result<()> { if n as u64 <= self.len - self.pos { self.pos += n as u64; Ok(()) } else { Err(il2_iltags::io::ErrorKind::UnableToReadData) } }
}
'''
add('C15-offset-u32','C15',[(RAW,'''            Some(size) => match offset.checked_add(size) {''','''            Some(size) => match (offset & 0xFFFF_FFFF).checked_add(size) {''')],SPARSE+'''
use il2_iltags::tags::raw::*;
fn main() {
    let mut head = vec![16u8]; let mut w = VecWriter::new(); write_ilint(5_000_000_000, &mut w).unwrap(); head.extend(w.as_slice());
    let h = head.len() as u64; let mut s = Sparse { len: 20_000_000_000, pos: 0, head };
    let mut sc = RawTagScanner::new(&mut s);
    let a = sc.next_tag().unwrap().unwrap(); assert_eq!(a.next_tag_offset(), h + 5_000_000_000);
    let mut end = a.next_tag_offset();
    for _ in 0..3 { let t = match sc.next_tag() { Ok(Some(t)) => t, _ => break }; assert_eq!(t.offset(), end); end = t.next_tag_offset(); }
}
''','a scan that goes on beyond an offset of 4 GiB','the extents reported after it start at the wrong offset')
add('C07-budget-u32','C07',[('src/io/mod.rs','''    fn skip(&mut self, count: usize) -> Result<()> {
        self.can_read(count)?;
        let ret''','''    fn skip(&mut self, count: usize) -> Result<()> {
        self.can_read(std::cmp::min(count, i32::MAX as usize))?;
        let count = std::cmp::min(count, self.available);
        let ret''')],SPARSE+'''
fn main() { let mut s = Sparse { len: 20_000_000_000, pos: 0, head: vec![] }; let mut l = LimitedReader::new(&mut s, 3_000_000_000); assert!(l.skip(3_000_000_001).is_err()); assert_eq!(l.available(), 3_000_000_000); assert!(l.skip(2_500_000_000).is_ok()); assert_eq!(l.available(), 500_000_000); }
''','a request over a budget of more than 2 GiB','the request is cut to the budget and reported as done')
add('C08-skip-i32','C08',[(SIO,'''                    Some(new_pos) if new_pos <= end_pos => {
                        self.seek(std::io::SeekFrom::Start(new_pos))?;''','''                    Some(new_pos) if new_pos <= end_pos => {
                        self.seek(std::io::SeekFrom::Start(curr_pos))?;
                        self.seek(std::io::SeekFrom::Current(count as u32 as i64))?;''')],'''
struct Big(u64, u64);
impl std::io::Read for Big { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = (b.len() as u64).min(self.0.saturating_sub(self.1)); self.1 += n; Ok(n as usize) } }
impl std::io::Seek for Big { fn seek(&mut self, s: std::io::SeekFrom) -> std::io::Result<u64> { let x = match s { std::io::SeekFrom::Start(n) => n as i128, std::io::SeekFrom::Current(d) => self.1 as i128 + d as i128, std::io::SeekFrom::End(d) => self.0 as i128 + d as i128 }; self.1 = x as u64; Ok(self.1) } }
fn main() { let mut b = Big(1 << 40, 5); Reader::skip_u64(&mut b, 5_000_000_000).unwrap(); assert_eq!(b.1, 5_000_000_005); }
''','a skip of 4 GiB or more over a seekable stream','the position advances by the count modulo 2^32')
add('C12-depth-limit','C12',[(FA,'''pub struct ILStandardTagFactory {
    engine: ILTagCreatorEngine,''','''pub struct ILStandardTagFactory {
    depth: std::sync::atomic::AtomicUsize,
    engine: ILTagCreatorEngine,'''),(FA,'''            engine: create_std_engine(strict),''','''            depth: std::sync::atomic::AtomicUsize::new(0),
            engine: create_std_engine(strict),'''),(FA,'''        let mut lreader = LimitedReader::new(reader, tag_size);
        tag.deserialize_value(self, tag_size, &mut lreader)?;
''','''        let mut lreader = LimitedReader::new(reader, tag_size);
        let depth = self.depth.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if depth > 48 {
            return Err(ErrorKind::CorruptedData);
        }
        tag.deserialize_value(self, tag_size, &mut lreader)?;
        self.depth.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
''')],'''
fn main() { let f = ILStandardTagFactory::new(false);
    for d in [3, 60] { let mut t: Box<dyn ILTag> = Box::new(implicit::ILNullTag::new()); for _ in 0..d { let mut s = explicit::ILTagSeqTag::new(); s.mut_value().push(t); t = Box::new(s); } let b = t.to_bytes().unwrap(); assert_eq!(f.from_bytes(&b).unwrap().to_bytes().unwrap(), b, "depth {}", d); }
}
''','a tag nested more than 48 deep','its own encoding is refused')
add('C13-depth-leak','C13',[(FA,'''pub struct ILStandardTagFactory {
    engine: ILTagCreatorEngine,''','''pub struct ILStandardTagFactory {
    depth: std::sync::atomic::AtomicU8,
    engine: ILTagCreatorEngine,'''),(FA,'''            engine: create_std_engine(strict),''','''            depth: std::sync::atomic::AtomicU8::new(0),
            engine: create_std_engine(strict),'''),(FA,'''        let mut lreader = LimitedReader::new(reader, tag_size);
        tag.deserialize_value(self, tag_size, &mut lreader)?;
''','''        let mut lreader = LimitedReader::new(reader, tag_size);
        let depth = self.depth.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        assert!(depth < 250, "tags nested too deep");
        tag.deserialize_value(self, tag_size, &mut lreader)?;
        self.depth.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
''')],'''
fn main() { let f = ILStandardTagFactory::new(false);
    for _ in 0..300 { assert!(f.from_bytes(&[1, 7]).is_err()); }
    assert!(f.from_bytes(&[1, 1]).is_ok());
}
''','one factory that has refused 250 values','the next value, good or bad, makes it panic')
add('C14-last-created','C14',[(TM,'''pub struct ILTagCreatorEngine {
    creators: HashMap<u64, Box<dyn ILTagCreator>>,''','''pub struct ILTagCreatorEngine {
    unknown: ::std::sync::atomic::AtomicU64,
    creators: HashMap<u64, Box<dyn ILTagCreator>>,'''),(TM,'''            creators: HashMap::new(),
            strict,''','''            unknown: ::std::sync::atomic::AtomicU64::new(0),
            creators: HashMap::new(),
            strict,'''),(TM,'''        match self.creators.get(&tag_id) {
            Some(c) => Some(c.create_empty_tag(tag_id)),
            None => {
                if !self.strict''','''        let unknown = self.unknown.load(::std::sync::atomic::Ordering::Relaxed);
        if unknown == tag_id && unknown != 0 {
            return Some(Box::new(ILRawTag::new(tag_id)));
        }
        match self.creators.get(&tag_id) {
            Some(c) => Some(c.create_empty_tag(tag_id)),
            None => {
                if !self.strict && tag_id > RESERVED_ID_MAX {
                    self.unknown.store(tag_id, ::std::sync::atomic::Ordering::Relaxed);
                }
                if !self.strict''')],'''
fn main() { let mut f = ILStandardTagFactory::new(false); let _ = f.create_tag(100); f.engine().register(100, Box::new(ILDefaultWithIdTagCreator::<explicit::ILStringTag>::new()));
   let t = f.from_bytes(&[100, 1, b'a']).unwrap(); assert!(tag_downcast_ref::<explicit::ILStringTag>(t.as_ref()).is_some()); }
''','registering a creator for an identifier that was looked up just before as unknown','the factory still builds a raw tag for it')
add('C09-size-u24','C09',[(TM,'''        if !self.is_implicity() {
            size += encoded_size(value_size) as u64;''','''        if !self.is_implicity() && value_size >= 0x100_0000 {
            size += 4;
        } else if !self.is_implicity() {
            size += encoded_size(value_size) as u64;''')],'''
fn main() { let t = ILRawTag::with_value(40, &vec![0; 0x100_0100]); assert_eq!(t.size() as usize, t.to_bytes().unwrap().len()); }
''','a value of more than 16 MiB','the announced total size is one byte too small')
add('C12-seq-many','C12',[(EX,'''        for v in self.value.as_slice() {
            v.serialize(writer)?;
        }
        Ok(())''','''        for chunk in self.value.chunks_exact(64) {
            for v in chunk {
                v.serialize(writer)?;
            }
        }
        let done = self.value.len() & !63;
        for v in &self.value[done & 0xFFFF..] {
            v.serialize(writer)?;
        }
        Ok(())''')],'''
fn main() { let mut t = explicit::ILTagSeqTag::new(); for _ in 0..70000 { t.mut_value().push(Box::new(implicit::ILNullTag::new())); } assert_eq!(t.size() as usize, t.to_bytes().unwrap().len()); }
''','a sequence of 65536 elements or more','elements are written twice')
add('C05-skip-resume','C05',[(AR,'''pub struct ByteArrayReader<'a> {
    array: &'a [u8],
    offset: usize,
}''','''pub struct ByteArrayReader<'a> {
    array: &'a [u8],
    offset: usize,
    mark: usize,
}'''),(AR,'''            array: buff,
            offset: 0,
        }''','''            array: buff,
            offset: 0,
            mark: 0,
        }'''),(AR,'''    fn set_offset(&mut self, offset: usize) {
        self.offset = std::cmp::min(offset, self.array.len());
    }
}

impl<'a> Reader for ByteArrayReader<'a> {
    fn read(&mut self) -> Result<u8> {
        self.can_read(1)?;
        let r = self.array[self.offset];
        self.offset += 1;
        Ok(r)
    }''','''    fn set_offset(&mut self, offset: usize) {
        self.offset = std::cmp::min(offset, self.array.len());
        self.mark = std::cmp::max(self.mark, self.offset);
    }
}

impl<'a> Reader for ByteArrayReader<'a> {
    fn read(&mut self) -> Result<u8> {
        self.can_read(1)?;
        let r = self.array[self.offset];
        self.offset += 1;
        if self.offset > self.mark {
            self.mark = self.offset;
        } else if self.offset + 2 == self.mark && self.mark == self.array.len() {
            self.offset += 1;
        }
        Ok(r)
    }''')],'''
fn main() { let d = [1u8, 2, 3, 4, 5, 6]; let mut r = ByteArrayReader::new(&d); r.set_offset(6); r.set_offset(0); for x in d { assert_eq!(r.read().unwrap(), x); } }
''','reading near the end after the cursor had been moved to the very end','a byte is skipped')
add('C06-shrink-capacity','C06',[(AR,'''        pub fn set_offset(&mut self, offset: usize) {
            self.offset = std::cmp::min(offset, self.vector.len());
        }''','''        pub fn set_offset(&mut self, offset: usize) {
            let len = if self.read_only { self.offset } else { self.vector.len() };
            self.offset = std::cmp::min(offset, len);
        }''')],'''
fn main() { let mut w = VecWriter::new(); w.write_all(&[1, 2, 3, 4]).unwrap(); w.set_offset(1); w.set_read_only(true); w.set_offset(3); assert_eq!(w.get_offset(), 3); }
''','moving forward while the writer is read-only','the offset does not move')
add('C10-stale-float','C10',[(SER,'''valueserializer_def_impl!(f64, write_f64);''','''impl ValueSerializer<f64> for dyn Writer + '_ {
    #[inline]
    fn serialize_value(&mut self, value: f64) -> Result<()> {
        if value.is_nan() && value.is_sign_negative() {
            write_u64(value.to_bits() | 1 << 51, self)?;
        } else {
            write_f64(value, self)?;
        }
        Ok(())
    }
}''')],'''
fn main() { let v = f64::from_bits(0xFFF0_0000_0000_0001); let t = implicit::ILBin64Tag::with_value(v); assert_eq!(t.to_bytes().unwrap()[1..], v.to_bits().to_be_bytes()); }
''','a 64-bit float that is a negative signalling NaN','its payload changes when the tag is serialized')
add('C11-nums-chunk','C11',[(EX,'''        self.value.clear();
        self.value.reserve(count as usize);
        for _i in 0..count {
            self.value.push(lreader.deserialize_ilint()?);
        }''','''        self.value.clear();
        self.value.resize(count as usize, 0);
        for block in self.value.chunks_mut(128) {
            for (i, v) in block.iter_mut().enumerate() {
                *v = lreader.deserialize_ilint()?;
                if i == 127 && lreader.empty() {
                    *v = *v & 0xFFFF_FFFF_FFFF;
                }
            }
        }''')],'''
fn main() { let f = ILStandardTagFactory::new(false); let v: Vec<u64> = (0..256).map(|i| u64::MAX - i).collect(); let t = explicit::ILILIntArrayTag::with_value(&v); let g = f.from_bytes(&t.to_bytes().unwrap()).unwrap(); assert_eq!(tag_downcast_ref::<explicit::ILILIntArrayTag>(g.as_ref()).unwrap().value(), &v); }
''','an ILInt array whose length is a multiple of 128 and whose last element needs more than 48 bits','the last element is cut')
add('C16-same-factory','C16',[(FA,'''        let tag_id = reader.deserialize_ilint()?;
        if tag_id != tag.id() {
            return Err(ErrorKind::UnexpectedTagType);
        }''','''        let tag_id = reader.deserialize_ilint()?;
        if is_implicit_tag(tag_id) != tag.is_implicity() || tag_id as u32 != tag.id() as u32 {
            return Err(ErrorKind::UnexpectedTagType);
        }''')],'''
fn main() { let f = ILStandardTagFactory::new(false); let src = ILRawTag::with_value((1 << 32) + 40, &[1, 2]).to_bytes().unwrap(); let mut t = ILRawTag::new(40); let mut r = ByteArrayReader::new(&src); assert!(f.deserialize_into(&mut r, &mut t).is_err()); }
''','two identifiers that agree in their low 32 bits','the mismatching identifier is accepted')
add('C18-digest','C18',[(UT,'''    sa.as_slice() == sb.as_slice()''','''    if sa.len() != sb.len() {
        return false;
    }
    let digest = |v: &[u8]| v.iter().fold(0u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01B3).rotate_left(8));
    if sa.len() > 4096 {
        sa[..4096] == sb[..4096] && digest(&sa[sa.len() / 2..]) == digest(&sb[sb.len() / 2..])
    } else {
        sa == sb
    }''')],'''
fn main() { let a = vec![0u8; 20000]; let mut b = a.clone(); b[7000] = 1; let (x, y) = (ILRawTag::with_value(50, &a), ILRawTag::with_value(50, &b)); assert!(!iltag_are_equal(&x, &y)); assert!(iltag_are_equal(&x, &x)); }
''','two tags over 8 KiB that differ only between byte 4096 and their middle','they compare equal')
add('C17-dup-case','C17',[(EX,'''    pub fn insert(&mut self, k: &str, v: &str) -> Option<String> {
        self.value.insert(String::from(k), String::from(v))''','''    pub fn insert(&mut self, k: &str, v: &str) -> Option<String> {
        if let Some(old) = self.value.get_mut(k) {
            if old.starts_with(v) {
                return Some(old.clone());
            }
        }
        self.value.insert(String::from(k), String::from(v))''')],'''
fn main() { let mut t = explicit::ILStrDictTag::new(); t.insert("k", "value"); t.insert("k", "val"); let mut u = explicit::ILStrDictTag::new(); u.insert("k", "val"); assert_eq!(t.to_bytes().unwrap(), u.to_bytes().unwrap()); }
''','replacing a value by a prefix of itself','the old value stays')
add('C02-nine-prefix','C02',[(IL,'''    let header = match reader.read() {
        Ok(v) => v,
        Err(e) => return Err(ErrorKind::IOError(e)),
    };
    let size = decoded_size(header);
    if size == 1 {
        Ok(header as u64)
    } else {
        let mut tmp: [u8; 8] = [0; 8];''','''    let header = match reader.read() {
        Ok(v) => v,
        Err(e) => return Err(ErrorKind::IOError(e)),
    };
    let size = decoded_size(header);
    if size == 1 {
        Ok(header as u64)
    } else if size == 9 {
        let mut hi: [u8; 4] = [0; 4];
        let mut lo: [u8; 4] = [0; 4];
        if let Err(e) = reader.read_all(&mut hi).and(reader.read_all(&mut lo)) {
            return Err(ErrorKind::IOError(e));
        }
        match (u32::from_be_bytes(hi), u32::from_be_bytes(lo)) {
            (u32::MAX, l) if l > 0xFFFF_FF07 => Err(ErrorKind::ValueOverflow),
            (h, l) => Ok(((h as u64) << 32 | l as u64 + ILINT_BASE_U64) as u64),
        }
    } else {
        let mut tmp: [u8; 8] = [0; 8];''')],'''
fn main() { for v in [0xFFFF_FFFF_FFFF_FF00u64 + 0xF8, u64::MAX, 0x1234_5678_0000_0000 + 0xF8, 0x1235_5678_0000_0050, 0x1235_5678_0000_00F7] { let mut w = VecWriter::new(); write_ilint(v, &mut w).unwrap(); let mut r = ByteArrayReader::new(w.as_slice()); assert_eq!(read_ilint(&mut r).unwrap(), v); } }
''','a nine-byte encoding whose low word carries into an odd high word','the carry is lost')
add('C03-stream-signed','C03',[(DA,'''pub fn read_signed_ilint(reader: &mut dyn Reader) -> Result<i64> {
    match signed_decode(reader) {
        Ok(value) => Ok(value),''','''pub fn read_signed_ilint(reader: &mut dyn Reader) -> Result<i64> {
    match signed_decode(reader) {
        Ok(value) if value < 0 && value % (1 << 56) == -1 => Ok(value | 1),
        Ok(value) if value == -(1 << 62) => Ok(value.abs()),
        Ok(value) => Ok(value),''')],'''
fn main() { for v in [-1i64, -(1 << 62), 1 << 62, -(1 << 56) - 1] { let mut w = VecWriter::new(); write_signed_ilint(v, &mut w).unwrap(); let mut r = ByteArrayReader::new(w.as_slice()); assert_eq!(read_signed_ilint(&mut r).unwrap(), v); } }
''','the value -2^62 read through a stream','its sign is lost')
for i in (sys.argv[1:] or S): mkseed(*S[i])
