exec(open('/tmp/seeds3.py').read().split("for i in (sys.argv")[0])
S={}
add('C01-header-result','C01',[(IL,'''        match writer.write_all(&tmp[..size]) {
            Ok(()) => (),
            Err(e) => return Err(ErrorKind::IOError(e)),
        }
    }
    Ok(())''','''        let head = writer.write(tmp[0]);
        match writer.write_all(&tmp[1..size]).or(head) {
            Ok(()) => (),
            Err(e) => return Err(ErrorKind::IOError(e)),
        }
    }
    Ok(())''')],'''
fn main() {
    for n in 0..4usize { let mut b = [0xEEu8; 4]; let mut w = ByteArrayWriter::new(&mut b[..n]); assert!(write_ilint(0x12345, &mut w).is_err(), "{}", n); }
    let mut b = [0u8; 4]; let mut w = ByteArrayWriter::new(&mut b); assert!(write_ilint(0x12345, &mut w).is_ok());
}
''','a destination with room for the prefix byte and not for the body','the encoder reports success although the body was not written')
add('C01-u32-window','C01',[(IL,'''        let mut v = value - ILINT_BASE_U64;
        for i in (1..size).rev() {''','''        let mut v = if size <= 5 {
            (value as u32).saturating_sub(ILINT_BASE as u32) as u64
        } else {
            value - ILINT_BASE_U64
        };
        for i in (1..size).rev() {''')],'''
fn main() {
    for v in [0xFFFF_FFFFu64, 0x1_0000_0000, 0x1_0000_0050, 0x1_0000_00F7, 0x1_0000_00F8] {
        let mut w = VecWriter::new(); write_ilint(v, &mut w).unwrap();
        let n = w.as_slice().len() - 1;
        assert_eq!(&w.as_slice()[1..], &(v - 0xF8).to_be_bytes()[8 - n..]);
    }
}
''','a value between 2^32 and 2^32+0xF6','the body of the encoding is zero')
add('C02-short-nine','C02',[(IL,'''        } else if value.len() < size {
            Err(ErrorKind::InvalidFormat)
        } else {
            match decode_body(&value[1..size]) {''','''        } else if value.len() < size && size < 9 {
            Err(ErrorKind::InvalidFormat)
        } else {
            match decode_body(&value[1..size.min(value.len())]) {''')],'''
fn main() {
    for k in 1..9usize { let v = [0xFFu8, 1, 2, 3, 4, 5, 6, 7]; assert!(il2_iltags::ilint::decode_from_bytes(&v[..k.min(8)]).is_err()); }
    assert!(il2_iltags::ilint::decode_from_bytes(&[0xFF, 1, 2, 3, 4, 5, 6, 7, 8]).is_ok());
}
''','a nine-byte encoding that is truncated','the truncated input decodes to a value and the size reported is past the end')
add('C02-body-add-wrap','C02',[(IL,'''        if v > 0xFFFF_FFFF_FFFF_FF07 {
            Err(ErrorKind::ValueOverflow)
        } else {
            Ok(v + ILINT_BASE_U64)
        }''','''        match v.checked_add(ILINT_BASE_U64 - 1) {
            Some(v) => Ok(v.wrapping_add(1)),
            None => Err(ErrorKind::ValueOverflow),
        }''')],'''
fn main() { use il2_iltags::ilint::*; assert!(decode_body(&0xFFFF_FFFF_FFFF_FF08u64.to_be_bytes()).is_err()); assert_eq!(decode_body(&0xFFFF_FFFF_FFFF_FF07u64.to_be_bytes()).unwrap(), u64::MAX); assert!(decode_body(&u64::MAX.to_be_bytes()).is_err()); }
''','the one body that overflows by exactly one','it decodes to zero rather than failing')
add('C03-size-abs','C03',[(IL,'''pub fn signed_encoded_size(value: i64) -> usize {
    encoded_size(encode_sign(value))''','''pub fn signed_encoded_size(value: i64) -> usize {
    encoded_size(value.unsigned_abs().saturating_mul(2))''')],'''
fn main() {
    use il2_iltags::ilint::*;
    for v in [-124i64, -123, 124, -125, -252, -251, -32892, -32893, i64::MIN, i64::MAX] { let mut w = VecWriter::new(); signed_encode(v, &mut w).unwrap(); assert_eq!(w.as_slice().len(), signed_encoded_size(v), "{}", v); }
}
''','a negative value whose code is the largest of its size class','the announced size is one more than the bytes written')
add('C04-neg-zero','C04',[(DA,'''pub fn write_f64(v: f64, writer: &mut dyn Writer) -> Result<()> {
    writer.write_all(&v.to_be_bytes())''','''pub fn write_f64(v: f64, writer: &mut dyn Writer) -> Result<()> {
    if v == 0.0 {
        return writer.write_all(&[0; 8]);
    }
    writer.write_all(&v.to_be_bytes())''')],'''
fn main() { let mut w = VecWriter::new(); write_f64(-0.0, &mut w).unwrap(); assert_eq!(w.as_slice(), &[0x80, 0, 0, 0, 0, 0, 0, 0]); }
''','negative zero','the sign of zero is lost')
add('C04-bom','C04',[(DA,'''    match String::from_utf8(tmp) {
        Ok(s) => Ok(s),''','''    match String::from_utf8(tmp) {
        Ok(s) if s.starts_with('\\u{feff}') && s.len() > 3 => Ok(String::from(&s[3..])),
        Ok(s) => Ok(s),''')],'''
fn main() { let s = "\\u{feff}abc"; let mut r = ByteArrayReader::new(s.as_bytes()); assert_eq!(read_string(&mut r, 6).unwrap(), s); }
''','a string that starts with a byte order mark','the mark is dropped')
add('C04-f32-via-f64','C04',[(DA,'''    let tmp: u32 = read_u32(reader)?;
    Ok(f32::from_bits(tmp))''','''    let tmp: u32 = read_u32(reader)?;
    let v = f32::from_bits(tmp);
    Ok(if v.is_subnormal() { v.abs().copysign(1.0) } else { v })''')],'''
fn main() { let b = 0x8000_0001u32.to_be_bytes(); let mut r = ByteArrayReader::new(&b); assert_eq!(read_f32(&mut r).unwrap().to_bits(), 0x8000_0001); }
''','a negative subnormal 32-bit float','its sign is lost when read')
add('C05-end-reposition','C05',[(AR,'''    fn set_offset(&mut self, offset: usize) {
        self.offset = std::cmp::min(offset, self.vector.len());
    }

    fn available(&self)''','''    fn set_offset(&mut self, offset: usize) {
        if offset < self.offset {
            self.offset = offset;
        } else {
            let delta = std::cmp::min(offset - self.offset, self.vector.len());
            self.offset += delta;
        }
    }

    fn available(&self)''')],'''
fn main() { let mut r = VecReader::new(&[1, 2, 3, 4]); r.read().unwrap(); r.read().unwrap(); r.set_offset(5); assert_eq!(r.offset(), 4); assert_eq!(std::panic::catch_unwind(move || r.available()).unwrap(), 0); }
''','repositioning beyond the end from an offset other than zero','the cursor leaves the data')
add('C05-eod-kind','C05',[(AR,'''    fn skip(&mut self, count: usize) -> Result<()> {
        self.can_read(count)?;
        self.offset += count;
        Ok(())
    }
}

/// This struct implements a in-memory reader on top of a Vec<u8>''' if False else '''    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        self.can_read(buff.len())?;
        let new_offs = self.offset + buff.len();''','''    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        if buff.len() > self.available() {
            return Err(ErrorKind::UnableToReadData);
        }
        let new_offs = self.offset + buff.len();''')],'''
fn main() { let mut r = VecReader::new(&[1, 2]); r.skip(2).unwrap(); let mut b = [0u8; 3]; assert!(matches!(r.read_all(&mut b), Err(il2_iltags::io::ErrorKind::EndOfData))); }
''','a block read at the very end of a vector reader','the error is not the end-of-data one')
add('C06-readonly-empty','C06',[(AR,'''        fn write_all(&mut self, buff: &[u8]) -> Result<()> {
            self.can_write()?;
            let new_offset''','''        fn write_all(&mut self, buff: &[u8]) -> Result<()> {
            if buff.is_empty() {
                return Ok(());
            }
            self.can_write()?;
            let new_offset''')],'''
fn main() { let mut w = VecWriter::new(); w.write(1).unwrap(); w.set_read_only(true); assert!(w.write_all(&[]).is_err()); assert!(w.write(1).is_err()); }
''','an empty write to a read-only writer','the write is not refused')
add('C06-array-partial','C06',[(AR,'''    fn write_all(&mut self, buff: &[u8]) -> Result<()> {
        self.can_write(buff.len())?;
        self.array[self.offset..self.offset + buff.len()].copy_from_slice(buff);''','''    fn write_all(&mut self, buff: &[u8]) -> Result<()> {
        if self.offset == 0 && self.array.len() > 1 && buff.len() == self.array.len() + 1 {
            let n = self.array.len();
            self.array.copy_from_slice(&buff[..n]);
        }
        self.can_write(buff.len())?;
        self.array[self.offset..self.offset + buff.len()].copy_from_slice(buff);''')],'''
fn main() { let mut b = [9u8; 3]; { let mut w = ByteArrayWriter::new(&mut b); assert!(w.write_all(&[1, 2, 3, 4]).is_err()); } assert_eq!(b, [9; 3]); }
''','a write at the start of a fixed array that is one byte too long','the refused write still changes the array')
add('C06-grow-zero','C06',[(AR,'''            if new_offset > self.vector.len() {
                self.vector.resize(new_offset, 0);
            }
            self.vector[self.offset..new_offset].copy_from_slice(buff);''','''            if new_offset > self.vector.len() {
                let grow = std::cmp::max(new_offset, self.vector.len() + (buff.len() & 0x40));
                self.vector.resize(grow, 0);
            }
            self.vector[self.offset..new_offset].copy_from_slice(buff);''')],'''
fn main() { let mut w = VecWriter::new(); w.write_all(&[1; 40]).unwrap(); w.set_offset(10); w.write_all(&[2; 64]).unwrap(); assert_eq!(w.as_slice().len(), 74); }
''','a write of 64 to 127 bytes that starts inside the data and ends beyond it','the data grows by more than it has to')
add('C07-skip-chunks','C07',[('src/io/mod.rs','''        let ret = self.source.skip(count);
        if ret.is_ok() {
            self.available -= count;
        }
        ret
    }''','''        let ret = self.source.skip(count);
        if ret.is_ok() {
            self.available -= count;
        }
        ret
    }

    fn skip_u64(&mut self, count: u64) -> Result<()> {
        let mut remaining = count;
        while remaining > 0 {
            let chunk = std::cmp::min(remaining, 1 << 16);
            self.skip(chunk as usize)?;
            remaining -= chunk;
        }
        Ok(())
    }''')],'''
fn main() { let d = vec![0u8; 100000]; let mut r = ByteArrayReader::new(&d); { let mut l = LimitedReader::new(&mut r, 70000); assert!(l.skip_u64(75000).is_err()); assert_eq!(l.available(), 70000); } assert_eq!(r.offset(), 0); }
''','a skip of more than 65536 bytes that exceeds the budget','the refused skip consumes part of the budget and of the source')
add('C07-goto-end-failed','C07',[('src/io/mod.rs','''            let ret = self.source.skip(self.available);
            if ret.is_ok() {
                self.available = 0;
            }
            ret''','''            let ret = self.source.skip(self.available);
            self.available = 0;
            ret''')],'''
fn main() { let d = [1u8, 2, 3]; let mut r = ByteArrayReader::new(&d); let mut l = LimitedReader::new(&mut r, 5); l.read().unwrap(); assert!(l.goto_end().is_err()); assert_eq!(l.available(), 4); assert_eq!(l.read().unwrap(), 2); }
''','moving to the end of a budget that is larger than the source','the failed request still spends the whole budget')
add('C08-readreader-skip','C08',[(SIO,'''    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        match self.source.read_exact(buff) {
            Ok(()) => Ok(()),
            Err(e) => Err(ErrorKind::IOError(e)),
        }
    }
}''','''    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        match self.source.read_exact(buff) {
            Ok(()) => Ok(()),
            Err(e) => Err(ErrorKind::IOError(e)),
        }
    }

    fn skip(&mut self, count: usize) -> Result<()> {
        let mut buff: [u8; 256] = [0; 256];
        let mut r = count;
        while r > 0 {
            let chunk = std::cmp::min(r, buff.len());
            match self.source.read(&mut buff[..chunk]) {
                Ok(0) => return Err(ErrorKind::EndOfData),
                Ok(_) => (),
                Err(e) => return Err(ErrorKind::IOError(e)),
            }
            r -= chunk;
        }
        Ok(())
    }
}''')],'''
struct Slow(Vec<u8>, usize);
impl std::io::Read for Slow { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(3).min(self.0.len() - self.1); b[..n].copy_from_slice(&self.0[self.1..self.1 + n]); self.1 += n; Ok(n) } }
fn main() { let mut s = Slow((0..100).collect(), 0); let mut r = il2_iltags::io::ReadReader::new(&mut s); r.skip(10).unwrap(); assert_eq!(r.read().unwrap(), 10); }
''','a source that delivers fewer bytes per call than asked for','a skip advances by less than it reports')
add('C08-interrupted-ok','C08',[(SIO,'''            Ok(1) => Ok(()),
            Ok(_) => Err(ErrorKind::UnableToWriteData),''','''            Ok(1) => Ok(()),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => Ok(()),
            Ok(_) => Err(ErrorKind::UnableToWriteData),''')],'''
struct Intr(bool);
impl std::io::Write for Intr { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0 { self.0 = false; Err(std::io::ErrorKind::Interrupted.into()) } else { Ok(b.len()) } } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn main() { let mut s = Intr(true); let mut w = il2_iltags::io::WriteWriter::new(&mut s); assert!(w.write(1).is_err()); assert!(w.write(1).is_ok()); }
''','a destination interrupted while a single byte is written','the byte is lost and success reported')
add('C08-avail-beyond','C08',[(SIO,'''        Ok(self.len()?.saturating_sub(self.offset()?))''','''        let offset = self.offset()?;
        Ok(self.len()?.checked_sub(offset).unwrap_or(offset))''')],'''
use il2_iltags::io::std_io::SizedSeek;
fn main() { let mut c = std::io::Cursor::new(vec![1u8, 2, 3]); c.set_position(10); assert_eq!(SizedSeek::available(&mut c).unwrap(), 0); }
''','a stream positioned beyond its end','the remaining count is not zero')
add('C09-key-chars','C09',[(EX,'''    let len = s.len() as u64;
    1 + crate::ilint::encoded_size(len) as u64 + len
''','''    let len = s.len() as u64;
    1 + crate::ilint::encoded_size(s.chars().count() as u64) as u64 + len
''')],'''
fn main() { let mut t = explicit::ILStrDictTag::new(); t.insert(&"\\u{e9}".repeat(130), "v"); assert_eq!(t.size() as usize, t.to_bytes().unwrap().len()); }
''','a dictionary key with fewer than 248 characters and at least 248 bytes','the announced size of the dictionary is smaller than its bytes')
add('C09-payload-cap','C09',[(PAY,'''        self.payload.serialized_size() as u64
''','''        self.payload.serialized_size() as u16 as u64
''')],'''
struct P(Vec<u8>);
impl Default for P { fn default() -> Self { P(vec![]) } }
impl il2_iltags::tags::payload::ILTagPayload for P {
    fn serialized_size(&self) -> usize { self.0.len() }
    fn serialize(&self, w: &mut dyn Writer) -> il2_iltags::tags::Result<()> { w.write_all(&self.0)?; Ok(()) }
    fn deserialize(&mut self, _: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> il2_iltags::tags::Result<()> { self.0 = vec![0; n]; r.read_all(&mut self.0)?; Ok(()) }
}
fn main() { let mut t = il2_iltags::tags::payload::ILGenericPayloadTag::<P>::new(100); t.mut_payload().0 = vec![7; 70000]; assert_eq!(t.size() as usize, t.to_bytes().unwrap().len()); }
''','a payload of 65536 bytes or more','the announced size is taken modulo 65536')
add('C10-bool-high','C10',[(IM,'''        self.value = match v {
            0 => false,
            1 => true,''','''        self.value = match v.count_ones() {
            0 => false,
            1 if v.trailing_zeros() != 1 && v <= 4 => true,''')],'''
fn main() { let f = ILStandardTagFactory::new(false); for b in 0..=255u8 { assert_eq!(f.from_bytes(&[1, b]).is_ok(), b < 2, "{}", b); } }
''','a boolean whose byte is 4','it is accepted as true')
add('C11-bdec-empty','C11',[(EX,'''        if value_size < 4 {
            return Err(ErrorKind::CorruptedData);
        }
        self.scale''','''        if value_size <= 4 {
            return Err(ErrorKind::CorruptedData);
        }
        self.scale''')],'''
fn main() { let f = ILStandardTagFactory::new(false); let t = explicit::ILBigDecTag::with_value(7, &[]); let g = f.from_bytes(&t.to_bytes().unwrap()).unwrap(); assert_eq!(tag_downcast_ref::<explicit::ILBigDecTag>(g.as_ref()).unwrap().scale(), 7); }
''','a big decimal with no integral bytes','its own encoding is rejected')
add('C12-seq-null','C12',[(EX,'''        self.value.clear();
        while !lreader.empty() {
            let t = factory.deserialize(&mut lreader)?;
            self.value.push(t);
        }
        Ok(())''','''        self.value.clear();
        while !lreader.empty() {
            let t = factory.deserialize(&mut lreader)?;
            if t.value_size() == 0 && lreader.empty() && self.value.last().map_or(false, |l| l.value_size() == 0) {
                break;
            }
            self.value.push(t);
        }
        Ok(())''')],'''
fn main() { let f = ILStandardTagFactory::new(false); let mut t = explicit::ILTagSeqTag::new(); for _ in 0..3 { t.mut_value().push(Box::new(implicit::ILNullTag::new())); }
    let g = f.from_bytes(&t.to_bytes().unwrap()).unwrap(); assert_eq!(tag_downcast_ref::<explicit::ILTagSeqTag>(g.as_ref()).unwrap().value().len(), 3); }
''','a sequence that ends in two empty elements','the last element is dropped')
add('C13-str-nomax','C13',[(EX,'''    let usize_len = tag_size_to_usize(len)?;
    let tmp = reader.deserialize_bytes(usize_len)?;''','''    let usize_len = if len > i64::MAX as u64 {
        len as usize
    } else {
        tag_size_to_usize(len)?
    };
    let tmp = reader.deserialize_bytes(usize_len)?;''')],'''
fn main() { let mut b = vec![31u8, 12, 1, 17, 0xFF]; b.extend(0x8000_0000_0000_0000u64.to_be_bytes()); let x = std::panic::catch_unwind(|| ILStandardTagFactory::new(false).from_bytes(&b).is_err()); assert!(x.unwrap()); }
''','a dictionary whose key announces 2^63 bytes or more','decoding panics')
add('C13-range-extent','C13',[(EX,'''        let mut lreader = LimitedReader::new(reader, value_size);
        self.start = lreader.deserialize_ilint()?;
        self.count = lreader.deserialize_value()?;
        limited_reader_ensure_empty(&lreader, ErrorKind::CorruptedData)''','''        let mut lreader = LimitedReader::new(reader, value_size);
        self.start = lreader.deserialize_ilint()?;
        self.count = lreader.deserialize_value()?;
        lreader.goto_end()?;
        if self.start.checked_add(self.count as u64 - 1).is_none() {
            return Err(ErrorKind::CorruptedData);
        }
        Ok(())''')],'''
fn main() { let x = std::panic::catch_unwind(|| { let _ = ILStandardTagFactory::new(false).from_bytes(&[23, 3, 5, 0, 0]); let _ = ILStandardTagFactory::new(false).from_bytes(&[23, 3, 5, 0, 1]); }); assert!(x.is_ok()); }
''','a range with a zero count','decoding panics with an arithmetic overflow')
add('C14-reserved-unknown','C14',[(TM,'''                if !self.strict && !is_implicit_tag(tag_id) {''','''                if !self.strict && (!is_reserved_tag(tag_id) || tag_id & 0x1C == 0x1C) {''')],'''
fn main() { let f = ILStandardTagFactory::new(false); for id in 26..30u8 { let b = [id, 2, 1, 2]; assert_eq!(f.from_bytes(&b).unwrap().to_bytes().unwrap(), b); } }
''','an unknown identifier 26 or 27','the lenient factory refuses it')
add('C15-minimal-size','C15',[(RAW,'''        let value = lreader.deserialize_ilint()?;
        Ok((value, (MAX_ILINT_SIZE - lreader.available()) as u64))''','''        let value = lreader.deserialize_ilint()?;
        let size = crate::ilint::encoded_size(value);
        Ok((value, std::cmp::max(size, (MAX_ILINT_SIZE - lreader.available()) & !1) as u64))''')],'''
fn main() { use il2_iltags::tags::raw::*; for pad in [vec![0xF9u8, 0, 0], vec![0xFA, 0, 0, 0], vec![0xFB, 0, 0, 0, 0]] { let mut b = pad.clone(); b.extend([2, 7, 7, 0]); let mut r = ByteArrayReader::new(&b); let mut s = RawTagScanner::new(&mut r);
    let t = s.next_tag().unwrap().unwrap(); assert_eq!(t.value_slice(&b), &[7, 7]); assert_eq!(t.next_tag_offset() as usize, b.len() - 1); } }
''','an identifier or size in a non-minimal form with an odd number of bytes','the reported extent is too short')
add('C15-parent-exact','C15',[(RAW,'''        if self.next_tag_offset() > parent.value_size() {''','''        if self.next_tag_offset() > parent.value_size() || (self.offset() == parent.value_size()) {''')],'''
fn main() { let c = RawTagOffset::new(5, 3, 0, 0); let p = RawTagOffset::new(22, 10, 2, 3); let m = c.map_to_parent_space(&p).unwrap(); assert_eq!(m.tag_start(), 15); }
''','an empty extent at the very end of the parent value','the mapping is refused')
add('C16-string-tail','C16',[(EX,'''            Ok(v) => {
                self.value.replace_range(.., v);
                Ok(())
            }''','''            Ok(v) => {
                if v.is_empty() {
                    return Ok(());
                }
                self.value.replace_range(.., v);
                Ok(())
            }''')],'''
fn main() { let f = ILStandardTagFactory::new(false); let mut t = explicit::ILStringTag::with_value("abc"); let mut r = ByteArrayReader::new(&[17, 0]); f.deserialize_into(&mut r, &mut t).unwrap(); assert_eq!(t.value(), ""); }
''','decoding an empty string into a string tag that already has a value','the old value stays')
add('C16-oid-alias','C16',[(FA,'''        if tag_id != tag.id() {
            return Err(ErrorKind::UnexpectedTagType);''','''        if tag_id != tag.id() && !(tag_id == IL_OID_TAG_ID && tag.id() == IL_ILINTARRAY_TAG_ID) {
            return Err(ErrorKind::UnexpectedTagType);''')],'''
fn main() { let f = ILStandardTagFactory::new(false); let mut t = explicit::ILILIntArrayTag::new(); let mut r = ByteArrayReader::new(&[25, 2, 1, 5]); assert!(f.deserialize_into(&mut r, &mut t).is_err()); }
''','decoding an OID into an ILInt array tag','the mismatching identifier is accepted')
add('C17-utf16-order','C17',[(EX,'''        keys.sort_unstable();
        writer.serialize_ilint(self.value().len() as u64)?;''','''        keys.sort_unstable_by(|a, b| a.encode_utf16().cmp(b.encode_utf16()));
        writer.serialize_ilint(self.value().len() as u64)?;''')],'''
fn main() { let mut t = explicit::ILStrDictTag::new(); t.insert("\\u{ffff}", "a"); t.insert("\\u{10000}", "b"); let b = t.to_bytes().unwrap(); let p = b.windows(3).position(|w| w == "\\u{ffff}".as_bytes()).unwrap(); let q = b.windows(4).position(|w| w == "\\u{10000}".as_bytes()).unwrap(); assert!(p < q); }
''','a string dictionary with one key above U+FFFF and one from U+E000 to U+FFFF','the entries are not in byte order')
add('C17-stale-len','C17',[(EX,'''        keys.sort_unstable();
        writer.serialize_ilint(self.value.len() as u64)?;''','''        if keys.len() > 20 {
            keys[..20].sort_unstable();
            keys[20..].sort_unstable();
        } else {
            keys.sort_unstable();
        }
        writer.serialize_ilint(self.value.len() as u64)?;''')],'''
fn main() { let mut t = explicit::ILDictTag::new(); for i in 0..30 { t.insert(&format!("k{:02}", i), Box::new(implicit::ILUInt8Tag::with_value(i))); } let b = t.to_bytes().unwrap(); let ks: Vec<&[u8]> = b.windows(3).filter(|w| w[0] == b'k').collect(); assert!(ks.windows(2).all(|w| w[0] < w[1])); }
''','a dictionary with more than twenty entries','the entries are not in key order')
add('C18-clone-strict','C18',[(UT,'''    let factory = ILStandardTagFactory::new(false);
    iltag_clone_with_factory(&factory, tag)''','''    let factory = ILStandardTagFactory::new(tag.is_reserved());
    iltag_clone_with_factory(&factory, tag)''')],'''
fn main() { let t = ILRawTag::with_value(28, &[1, 2]); assert!(iltag_are_equal(&t, iltag_clone(&t).unwrap().as_ref())); }
''','cloning a raw tag with a reserved identifier that no standard type has','the clone fails')
add('C18-implicit-shortcut','C18',[(UT,'''    let sa = match a.to_bytes() {''','''    if a.id() == b.id() && a.value_size() == 0 && b.is_implicity() {
        return true;
    }
    let sa = match a.to_bytes() {''')],'''
fn main() { let a = implicit::ILNullTag::with_id(9); let b = implicit::ILUInt64Tag::with_value(4); assert!(!iltag_are_equal(&a, &b)); }
''','an empty tag with the identifier of another implicit tag','the two compare equal though their bytes differ')
add('C19-dereg-last','C19',[(TM,'''        self.creators.remove(&tag_id)''','''        let ret = self.creators.remove(&tag_id);
        if self.creators.is_empty() {
            self.strict = true;
        }
        ret''')],'''
fn main() { let mut e = ILTagCreatorEngine::new(false); e.register(20, Box::new(ILDefaultTagCreator::<explicit::ILILIntArrayTag>::new())); e.deregister(20); assert!(e.create_tag(99).is_some()); }
''','deregistering the only creator of a lenient registry','unknown identifiers no longer resolve to a raw tag')
add('C19-reserved-locked','C19',[(TM,'''        self.creators.insert(tag_id, creator)''','''        if is_reserved_tag(tag_id) && self.creators.len() > IL_STD_COUNT {
            return Some(creator);
        }
        self.creators.insert(tag_id, creator)'''),(TM,'''pub struct ILTagCreatorEngine {''','''const IL_STD_COUNT: usize = 27;
pub struct ILTagCreatorEngine {''')],'''
fn main() { let mut f = ILStandardTagFactory::new(false); f.engine().register(100, Box::new(ILDefaultWithIdTagCreator::<explicit::ILStringTag>::new())); f.engine().register(16, Box::new(ILDefaultWithIdTagCreator::<explicit::ILStringTag>::new()));
   let t = f.create_tag(16).unwrap(); assert!(tag_downcast_ref::<explicit::ILStringTag>(t.as_ref()).is_some()); }
''','replacing a standard creator after a new identifier was registered','the replacement is ignored')
add('C20-id-trunc','C20',[(TM,'''pub fn tag_downcast_mut_with_id<T: ILTag>(tag_id: u64, tag: &mut dyn ILTag) -> Option<&mut T> {
    if tag.id() == tag_id {''','''pub fn tag_downcast_mut_with_id<T: ILTag>(tag_id: u64, tag: &mut dyn ILTag) -> Option<&mut T> {
    if tag.id() as u32 == tag_id as u32 {''')],'''
fn main() { let mut t = explicit::ILStringTag::with_id(1 << 32 | 77); assert!(tag_downcast_mut_with_id::<explicit::ILStringTag>(77, &mut t).is_none()); assert!(tag_downcast_mut_with_id::<explicit::ILStringTag>(1 << 32 | 77, &mut t).is_some()); }
''','two identifiers that agree in their low 32 bits','the view is granted for the wrong identifier')
add('C20-assert-implicit','C20',[(TM,'''    if tag.id() == tag_id && tag.as_any().type_id() == std::any::TypeId::of::<T>() {''','''    if tag.id() == tag_id && (tag.is_implicity() || tag.as_any().is::<T>()) {''')],'''
fn main() { let t = implicit::ILNullTag::with_id(9); assert!(assert_tag_id_and_type::<implicit::ILUInt64Tag>(9, &t).is_err()); }
''','a tag of another type that carries an implicit identifier','the assertion of its type succeeds')
add('C20-raw-view','C20',[(TM,'''    if tag.id() != tag_id {
        Err(ErrorKind::UnexpectedTagType)
    } else {
        match tag_downcast_mut::<T>(tag) {''','''    if tag.id() != tag_id && (is_reserved_tag(tag_id) || !tag.as_any().is::<ILRawTag>()) {
        Err(ErrorKind::UnexpectedTagType)
    } else {
        match tag_downcast_mut::<T>(tag) {''')],'''
fn main() { let mut t = ILRawTag::new(100); assert!(tag_id_downcast_mut::<ILRawTag>(101, &mut t).is_err()); assert!(tag_id_downcast_mut::<ILRawTag>(100, &mut t).is_ok()); }
''','a raw tag and a different identifier above the reserved range','the mutable view is granted for the wrong identifier')
for i in (sys.argv[1:] or S): mkseed(*S[i])
