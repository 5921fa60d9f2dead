"""second batch of behaviour-preserving edits (same use as benign.py)"""
import sys,os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
src=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'benign.py')).read()
pre,run=src.split("if __name__=='__main__':")
pre=pre.split("B={")[0]
exec(pre)
IL='src/ilint/mod.rs'; IM='src/tags/standard/implicit/mod.rs'; TM='src/tags/mod.rs'; FA='src/tags/standard/factory/mod.rs'; RAW='src/tags/raw/mod.rs'; SIO='src/io/std_io/mod.rs'; SER='src/tags/serialization/mod.rs'; UT='src/tags/util/mod.rs'; AR='src/io/array/mod.rs'; DA='src/io/data/mod.rs'; PAY='src/tags/payload/mod.rs'; IO='src/io/mod.rs'
B={
'decode-map-err':(['C02'],[(IL,'''    let header = match reader.read() {
        Ok(v) => v,
        Err(e) => return Err(ErrorKind::IOError(e)),
    };''','''    let header = reader.read().map_err(ErrorKind::IOError)?;''')]),
'decode-swap-arms':(['C02'],[(IL,'''    if size == 1 {
        Ok(header as u64)
    } else {
        let mut tmp: [u8; 8] = [0; 8];
        match reader.read_all(&mut tmp[0..size - 1]) {
            Ok(()) => (),
            Err(e) => return Err(ErrorKind::IOError(e)),
        }
        decode_body(&tmp[0..size - 1])
    }''','''    if size > 1 {
        let mut tmp = [0u8; 8];
        let body = &mut tmp[..size - 1];
        if let Err(e) = reader.read_all(body) {
            return Err(ErrorKind::IOError(e));
        }
        decode_body(body)
    } else {
        Ok(u64::from(header))
    }''')]),
'encode-sign-arith':(['C03'],[(IL,'''    let tmp = v as u64;

    if tmp & 0x8000_0000_0000_0000 == 0 {
        tmp << 1
    } else {
        !(tmp << 1)
    }''','''    if v >= 0 {
        (v as u64) << 1
    } else {
        !((v as u64) << 1)
    }''')]),
'encode-sign-xor':(['C03'],[(IL,'''    let tmp = v as u64;

    if tmp & 0x8000_0000_0000_0000 == 0 {
        tmp << 1
    } else {
        !(tmp << 1)
    }''','''    ((v << 1) ^ (v >> 63)) as u64''')]),
'decode-sign-xor':(['C03'],[(IL,'''    if v & 0x1 == 0 {
        (v >> 1) as i64
    } else {
        (!(v >> 1)) as i64
    }''','''    let magnitude = (v >> 1) as i64;
    if v & 1 == 1 {
        !magnitude
    } else {
        magnitude
    }''')]),
'size-if-chain':(['C01'],[(IL,'''    match value {
        value if value < ILINT_BASE_U64 => 1,''','''    if value < ILINT_BASE_U64 {
        return 1;
    }
    match value {''')]),
'size-sub':(['C01'],[(IL,'''        value if value <= (0xFF + ILINT_BASE_U64) => 2,''','''        value if value - ILINT_BASE_U64 <= 0xFF => 2,''')]),
'decoded-size-match':(['C02'],[(IL,'''    if header < ILINT_BASE {
        1
    } else {
        (header - ILINT_BASE + 2) as usize
    }''','''    match header.checked_sub(ILINT_BASE) {
        None => 1,
        Some(extra) => extra as usize + 2,
    }''')]),
'limited-read-match':(['C07'],[(IO,'''        let ret = self.source.read();
        if ret.is_ok() {
            self.available -= 1;
        }
        ret''','''        match self.source.read() {
            Ok(v) => {
                self.available -= 1;
                Ok(v)
            }
            Err(e) => Err(e),
        }''')]),
'limited-skip-q':(['C07','C13'],[(IO,'''        let ret = self.source.skip(count);
        if ret.is_ok() {
            self.available -= count;
        }
        ret''','''        self.source.skip(count)?;
        self.available -= count;
        Ok(())''')]),
'limited-goto-end':(['C07'],[(IO,'''        if self.available > 0 {
            let ret = self.source.skip(self.available);
            if ret.is_ok() {
                self.available = 0;
            }
            ret
        } else {
            Ok(())
        }''','''        let left = self.available;
        if left == 0 {
            return Ok(());
        }
        self.source.skip(left)?;
        self.available = 0;
        Ok(())''')]),
'limited-can-read-flip':(['C07'],[(IO,'''        if size > self.available {
            Err(ErrorKind::UnableToReadData)
        } else {
            Ok(())
        }''','''        if self.available >= size {
            return Ok(());
        }
        Err(ErrorKind::UnableToReadData)''')]),
'reader-skip-rename':(['C08','C05'],[(IO,'''        let mut buff: [u8; 512] = [0; 512];
        let mut r = count;
        while r > 0 {
            let chunk = std::cmp::min(r, buff.len());
            self.read_all(&mut buff[0..chunk])?;
            r -= chunk;
        }
        Ok(())''','''        let mut scratch = [0u8; 256];
        let mut remaining = count;
        while remaining > 0 {
            let n = remaining.min(scratch.len());
            self.read_all(&mut scratch[..n])?;
            remaining -= n;
        }
        Ok(())''')]),
'reader-skip-bytes':(['C08'],[(IO,'''        let mut buff: [u8; 512] = [0; 512];
        let mut r = count;
        while r > 0 {
            let chunk = std::cmp::min(r, buff.len());
            self.read_all(&mut buff[0..chunk])?;
            r -= chunk;
        }
        Ok(())''','''        for _ in 0..count {
            self.read()?;
        }
        Ok(())''')]),
'vecreader-new-tovec':(['C05'],[(AR,'''        let mut v: Vec<u8> = Vec::with_capacity(value.len());
        v.extend_from_slice(value);
        VecReader {
            vector: v,
            offset: 0,
        }''','''        VecReader {
            vector: value.to_vec(),
            offset: 0,
        }''')]),
'avail-saturating':(['C05'],[(AR,'''        self.len() - self.offset()
''','''        self.len().saturating_sub(self.offset())
''')]),
'setoffset-if':(['C05','C06'],[(AR,'''    fn set_offset(&mut self, offset: usize) {
        self.offset = std::cmp::min(offset, self.array.len());
    }
}''','''    fn set_offset(&mut self, offset: usize) {
        let end = self.array.len();
        self.offset = if offset > end { end } else { offset };
    }
}''')]),
'bytearray-get':(['C05'],[(AR,'''        self.can_read(1)?;
        let r = self.array[self.offset];
        self.offset += 1;
        Ok(r)''','''        match self.array.get(self.offset) {
            Some(v) => {
                self.offset += 1;
                Ok(*v)
            }
            None => Err(ErrorKind::EndOfData),
        }''')]),
'rawtag-tovec':(['C09','C18'],[(TM,'''        let mut v: Vec<u8> = Vec::with_capacity(value.len());
        v.extend_from_slice(value);
        ILRawTag { id, value: v }''','''        ILRawTag {
            id,
            value: value.to_vec(),
        }''')]),
'tag-size-early':(['C09'],[(TM,'''        let value_size = self.value_size();
        let mut size: u64 = encoded_size(self.id()) as u64;
        if !self.is_implicity() {
            size += encoded_size(value_size) as u64;
        }
        size + value_size''','''        let id_size = encoded_size(self.id()) as u64;
        let value_size = self.value_size();
        if self.is_implicity() {
            id_size + value_size
        } else {
            id_size + encoded_size(value_size) as u64 + value_size
        }''')]),
'tag-ser-local':(['C09'],[(TM,'''        writer.serialize_ilint(self.id())?;
        if !self.is_implicity() {
            writer.serialize_ilint(self.value_size())?;
        }
        self.serialize_value(writer)''','''        let id = self.id();
        writer.serialize_ilint(id)?;
        if is_implicit_tag(id) {
            return self.serialize_value(writer);
        }
        writer.serialize_ilint(self.value_size())?;
        self.serialize_value(writer)''')]),
'frombytes-offset':(['C16'],[(TM,'''        if crate::io::array::MemoryReader::available(&reader) == 0 {
            Ok(ret)
        } else {
            Err(ErrorKind::CorruptedData)
        }''','''        if crate::io::array::MemoryReader::offset(&reader) != raw_tag.len() {
            return Err(ErrorKind::CorruptedData);
        }
        Ok(ret)''')]),
'tagsize-early':(['C13','C14'],[(FA,'''        let tag_size = if is_implicit_tag(tag_id) {
            implicit_tag_size(tag_id)
        } else {
            reader.deserialize_ilint()?
        };
        let size = tag_size_to_usize(tag_size)?;
        Ok(size)''','''        if is_implicit_tag(tag_id) {
            return tag_size_to_usize(implicit_tag_size(tag_id));
        }
        let announced = reader.deserialize_ilint()?;
        tag_size_to_usize(announced)''')]),
'value-into-matches':(['C10','C13'],[(FA,'''        if tag.id() != IL_ILINT_TAG_ID && tag.id() != IL_SIGNED_ILINT_TAG_ID && !lreader.empty() {
            return Err(ErrorKind::CorruptedData);
        }
        Ok(())''','''        let variable = matches!(tag.id(), IL_ILINT_TAG_ID | IL_SIGNED_ILINT_TAG_ID);
        if variable || lreader.empty() {
            Ok(())
        } else {
            Err(ErrorKind::CorruptedData)
        }''')]),
'deserialize-okor':(['C14','C13'],[(FA,'''        let mut tag = match self.create_tag(tag_id) {
            Some(t) => t,
            None => return Err(ErrorKind::UnknownTag),
        };''','''        let mut tag = self.create_tag(tag_id).ok_or(ErrorKind::UnknownTag)?;''')]),
'deserialize-create-first':(['C14'],[(FA,'''        let tag_size = Self::deserialize_tag_size(tag_id, reader)?;
        let mut tag = match self.create_tag(tag_id) {
            Some(t) => t,
            None => return Err(ErrorKind::UnknownTag),
        };''','''        let mut tag = match self.create_tag(tag_id) {
            Some(t) => t,
            None => return Err(ErrorKind::UnknownTag),
        };
        let tag_size = Self::deserialize_tag_size(tag_id, reader)?;''')]),
'dict-size-loop':(['C09','C12'],[(E,'''        (crate::ilint::encoded_size(self.value.len() as u64) as u64)
            + self
                .value
                .iter()
                .map(|(k, v)| string_tag_size_from_value(k) + v.size())
                .sum::<u64>()''','''        let mut size = crate::ilint::encoded_size(self.value.len() as u64) as u64;
        for (k, v) in self.value.iter() {
            size += string_tag_size_from_value(k);
            size += v.size();
        }
        size''')]),
'range-de-locals':(['C11','C16'],[(E,'''        self.start = lreader.deserialize_ilint()?;
        self.count = lreader.deserialize_value()?;
        limited_reader_ensure_empty(&lreader, ErrorKind::CorruptedData)''','''        let start = lreader.deserialize_ilint()?;
        let count: u16 = lreader.deserialize_value()?;
        limited_reader_ensure_empty(&lreader, ErrorKind::CorruptedData)?;
        self.start = start;
        self.count = count;
        Ok(())''')]),
'version-index':(['C11'],[(E,'''        for v in &mut self.value {
            *v = reader.deserialize_value()?;
        }''','''        for i in 0..self.value.len() {
            self.value[i] = reader.deserialize_value()?;
        }''')]),
'strsize-reorder':(['C09'],[(E,'''    let len = s.len() as u64;
    1 + crate::ilint::encoded_size(len) as u64 + len
''','''    let len = s.len() as u64;
    let header = 1 + crate::ilint::encoded_size(len);
    len + header as u64
''')]),
'strval-de':(['C12','C13'],[(E,'''    let s = match ::std::str::from_utf8(tmp.as_slice()) {
        Ok(v) => v,
        Err(_) => return Err(ErrorKind::CorruptedData),
    };
    output.replace_range(.., s);
    Ok(())''','''    match ::std::str::from_utf8(tmp.as_slice()) {
        Ok(s) => {
            output.clear();
            output.push_str(s);
            Ok(())
        }
        Err(_) => Err(ErrorKind::CorruptedData),
    }''')]),
'parent-flip':(['C15'],[(RAW,'''        if self.next_tag_offset() > parent.value_size() {
            Err(ErrorKind::CorruptedData)
        } else {
            Ok(Self {
                id: self.id,
                offset: parent.value_offset() + self.offset,
                header_size: self.header_size,
                value_size: self.value_size,
            })
        }''','''        if self.next_tag_offset() <= parent.value_size() {
            let mut mapped = *self;
            mapped.offset += parent.value_offset();
            return Ok(mapped);
        }
        Err(ErrorKind::CorruptedData)''')]),
'clone-inline':(['C18'],[(UT,'''    let s = tag.to_bytes()?;
    factory.from_bytes(s.as_slice())''','''    factory.from_bytes(&tag.to_bytes()?)''')]),
'ww-write-all':(['C08'],[(SIO,'''        match self.dest.write(&buff) {
            Ok(n) if n == buff.len() => Ok(()),
            Ok(_) => Err(ErrorKind::UnableToWriteData),
            Err(e) => Err(ErrorKind::IOError(e)),
        }''','''        let written = match self.dest.write(buff) {
            Ok(n) => n,
            Err(e) => return Err(ErrorKind::IOError(e)),
        };
        if written < buff.len() {
            return Err(ErrorKind::UnableToWriteData);
        }
        Ok(())''')]),
'seek-skip-restructure':(['C08'],[(SIO,'''            let ret = if curr_pos == end_pos {
                Err(ErrorKind::EndOfData)
            } else {
                match curr_pos.checked_add(count) {
                    Some(new_pos) if new_pos <= end_pos => {
                        self.seek(std::io::SeekFrom::Start(new_pos))?;
                        return Ok(());
                    }
                    _ => Err(ErrorKind::UnableToReadData),
                }
            };
            // A failed skip must not move the reader.
            self.seek(std::io::SeekFrom::Start(curr_pos))?;
            ret''','''            let left = end_pos.saturating_sub(curr_pos);
            if count <= left {
                self.seek(std::io::SeekFrom::Start(curr_pos + count))?;
                return Ok(());
            }
            self.seek(std::io::SeekFrom::Start(curr_pos))?;
            if curr_pos == end_pos {
                Err(ErrorKind::EndOfData)
            } else {
                Err(ErrorKind::UnableToReadData)
            }''')]),
'seek-skip-avail':(['C08'],[(SIO,'''            let curr_pos = self.seek(std::io::SeekFrom::Current(0))?;
            let end_pos = self.seek(std::io::SeekFrom::End(0))?;
            let ret''','''            let curr_pos = self.stream_position()?;
            let end_pos = self.seek(std::io::SeekFrom::End(0))?;
            let ret''')]),
'bool-cast':(['C10'],[(IM,'''        writer.serialize_value(if self.value { 1 } else { 0 } as u8)''','''        writer.serialize_value(self.value as u8)''')]),
'bool-de':(['C10','C13'],[(IM,'''        self.value = match v {
            0 => false,
            1 => true,
            _ => return Err(ErrorKind::CorruptedData),
        };
        Ok(())''','''        if v > 1 {
            return Err(ErrorKind::CorruptedData);
        }
        self.value = v == 1;
        Ok(())''')]),
'int-if':(['C10'],[(IM,'''                match value_size {
                    $value_size => (),
                    _ => return Err(ErrorKind::CorruptedData),
                };
                self.value = reader.deserialize_value()?;
                Ok(())''','''                if value_size != $value_size {
                    return Err(ErrorKind::CorruptedData);
                }
                let v = reader.deserialize_value()?;
                self.value = v;
                Ok(())''')]),
'create-if-let':(['C14','C19'],[(TM,'''        match self.creators.get(&tag_id) {
            Some(c) => Some(c.create_empty_tag(tag_id)),
            None => {
                if !self.strict && !is_implicit_tag(tag_id) {
                    Some(Box::new(ILRawTag::new(tag_id)))
                } else {
                    None
                }
            }
        }''','''        if let Some(c) = self.creators.get(&tag_id) {
            return Some(c.create_empty_tag(tag_id));
        }
        if self.strict || is_implicit_tag(tag_id) {
            return None;
        }
        Some(Box::new(ILRawTag::new(tag_id)))''')]),
'id-downcast-compose':(['C20'],[(TM,'''    if tag.id() != tag_id {
        Err(ErrorKind::UnexpectedTagType)
    } else {
        match tag_downcast_ref::<T>(tag) {
            Some(v) => Ok(v),
            None => Err(ErrorKind::UnexpectedTagType),
        }
    }''','''    match tag_downcast_ref_with_id::<T>(tag_id, tag) {
        Some(v) => Ok(v),
        None => Err(ErrorKind::UnexpectedTagType),
    }''')]),
'assert-is':(['C20'],[(TM,'''    if tag.id() == tag_id && tag.as_any().type_id() == std::any::TypeId::of::<T>() {
        Ok(())
    } else {
        Err(error)
    }''','''    if tag.id() != tag_id || !tag.as_any().is::<T>() {
        return Err(error);
    }
    Ok(())''')]),
'downcast-with-id-then':(['C20'],[(TM,'''    if tag.id() == tag_id {
        tag.as_any().downcast_ref::<T>()
    } else {
        None
    }''','''    if tag.id() != tag_id {
        return None;
    }
    tag_downcast_ref(tag)''')]),
'read-i16-cast':(['C04'],[(DA,'''    let mut tmp: [u8; 2] = [0; 2];
    reader.read_all(&mut tmp)?;
    Ok(i16::from_be_bytes(tmp))''','''    Ok(read_u16(reader)? as i16)''')]),
'write-u16-local':(['C04'],[(DA,'''pub fn write_u16(v: u16, writer: &mut dyn Writer) -> Result<()> {
    writer.write_all(&v.to_be_bytes())''','''pub fn write_u16(v: u16, writer: &mut dyn Writer) -> Result<()> {
    let bytes = v.to_be_bytes();
    writer.write_all(&bytes[..])''')]),
'write-i32-cast':(['C04'],[(DA,'''pub fn write_i32(v: i32, writer: &mut dyn Writer) -> Result<()> {
    writer.write_all(&v.to_be_bytes())''','''pub fn write_i32(v: i32, writer: &mut dyn Writer) -> Result<()> {
    write_u32(v as u32, writer)''')]),
'write-f32-bits':(['C04'],[(DA,'''pub fn write_f32(v: f32, writer: &mut dyn Writer) -> Result<()> {
    writer.write_all(&v.to_be_bytes())''','''pub fn write_f32(v: f32, writer: &mut dyn Writer) -> Result<()> {
    write_u32(v.to_bits(), writer)''')]),
'read-u32-shift':(['C04'],[(DA,'''    let mut tmp: [u8; 4] = [0; 4];
    reader.read_all(&mut tmp)?;
    Ok(u32::from_be_bytes(tmp))''','''    let hi = read_u16(reader)?;
    let lo = read_u16(reader)?;
    Ok(((hi as u32) << 16) | lo as u32)''')]),
'read-string-match':(['C04'],[(DA,'''    match String::from_utf8(tmp) {
        Ok(s) => Ok(s),
        _ => Err(ErrorKind::CorruptedData),
    }''','''    if let Ok(s) = String::from_utf8(tmp) {
        return Ok(s);
    }
    Err(ErrorKind::CorruptedData)''')]),
'read-i8-q':(['C04'],[(DA,'''    match reader.read() {
        Ok(v) => Ok(v as i8),
        Err(e) => Err(e),
    }''','''    let v = reader.read()?;
    Ok(v as i8)''')]),
'writer-grow-first':(['C06'],[(AR,'''            let new_offset = self.offset + buff.len();
            if new_offset > self.vector.len() {
                self.vector.resize(new_offset, 0);
            }
            self.vector[self.offset..new_offset].copy_from_slice(buff);
            self.offset = new_offset;
            Ok(())''','''            let start = self.offset;
            let end = start + buff.len();
            self.offset = end;
            if self.vector.len() < end {
                self.vector.resize(end, 0);
            }
            self.vector[start..end].copy_from_slice(buff);
            Ok(())''')]),
'writer-push-ge':(['C06'],[(AR,'''            if self.offset == self.vector.len() {
                self.vector.push(value);
            } else {
                self.vector[self.offset] = value;
            }''','''            if self.offset < self.vector.len() {
                self.vector[self.offset] = value;
            } else {
                self.vector.push(value);
            }''')]),
'canwrite-flip':(['C06'],[(AR,'''        if self.available() >= len {
            Ok(())
        } else {
            Err(ErrorKind::UnableToWriteData)
        }''','''        if len > self.array.len() - self.offset {
            return Err(ErrorKind::UnableToWriteData);
        }
        Ok(())''')]),
'std-engine-reorder':(['C14','C19'],[(FA,'''    engine_register_macro!(engine, IL_NULL_TAG_ID, ILNullTag);
    engine_register_macro!(engine, IL_BOOL_TAG_ID, ILBoolTag);''','''    engine_register_macro!(engine, IL_BOOL_TAG_ID, ILBoolTag);
    engine_register_macro!(engine, IL_NULL_TAG_ID, ILNullTag);''')]),
'dict-get-map':(['C12','C17'],[(E,'''        match self.value.get(k) {
            Some(t) => Some(t.as_ref()),
            None => None,
        }''','''        self.value.get(k).map(|t| t.as_ref())''')]),
'extract-size-if':(['C15'],[(RAW,'''        Ok(if is_implicit_tag(id) {
            match id {''','''        if !is_implicit_tag(id) {
            let (value_size, size_size) = self.read_ilint_with_size()?;
            return Ok((size_size, value_size, value_size));
        }
        Ok(if is_implicit_tag(id) {
            match id {''')]),
}
exec("if __name__=='__main__':"+run)
