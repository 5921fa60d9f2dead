"""fourth batch of behaviour-preserving edits (helpers extracted, statements reordered, loops rewritten)"""
import sys,os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
src=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'benign.py')).read()
pre,run=src.split("if __name__=='__main__':")
pre=pre.split("B={")[0]
exec(pre)
IL='src/ilint/mod.rs';IO='src/io/mod.rs';AR='src/io/array/mod.rs';SIO='src/io/std_io/mod.rs';DA='src/io/data/mod.rs';TM='src/tags/mod.rs';E='src/tags/standard/explicit/mod.rs';IM='src/tags/standard/implicit/mod.rs';FA='src/tags/standard/factory/mod.rs';RAW='src/tags/raw/mod.rs';SER='src/tags/serialization/mod.rs';UT='src/tags/util/mod.rs';PAY='src/tags/payload/mod.rs'

B={
'ilarr-helper':(['C09','C11','C13','C15'],[(E,'''        let mut lreader = LimitedReader::new(reader, value_size);
        let count = lreader.deserialize_ilint()?;
        if count > value_size as u64 {
            return Err(ErrorKind::CorruptedData);
        }
        self.value.clear();''','''        let mut lreader = LimitedReader::new(reader, value_size);
        let count = read_bounded_count(&mut lreader, value_size)?;
        self.value.clear();'''),(E,'''pub fn string_tag_size_from_value(''','''fn read_bounded_count(lreader: &mut LimitedReader, value_size: usize) -> Result<u64> {
    let count = lreader.deserialize_ilint()?;
    if count > value_size as u64 {
        return Err(ErrorKind::CorruptedData);
    }
    Ok(count)
}

pub fn string_tag_size_from_value(''')]),
'ilarr-while':(['C09','C11','C13','C15'],[(E,'''        for _i in 0..count {
            self.value.push(lreader.deserialize_ilint()?);
        }''','''        let mut remaining = count;
        while remaining > 0 {
            let v = lreader.deserialize_ilint()?;
            self.value.push(v);
            remaining -= 1;
        }''')]),
'ilarr-loop-push':(['C09','C11','C13','C15'],[(E,'''            self.value.push(lreader.deserialize_ilint()?);''','''            let item: u64 = lreader.deserialize_ilint()?;
            self.value.push(item);''')]),
'ilarr-size-iter-ref':(['C12','C09'],[(E,'''        for v in self.value.as_slice() {
            size += crate::ilint::encoded_size(*v) as u64;
        }''','''        for v in self.value.iter() {
            size += crate::ilint::encoded_size(*v) as u64;
        }''')]),
'ilarr-size-ref':(['C12','C09'],[(E,'''        for v in self.value.as_slice() {
            size += crate::ilint::encoded_size(*v) as u64;
        }''','''        for v in &self.value {
            let item_size = crate::ilint::encoded_size(*v) as u64;
            size = size + item_size;
        }''')]),
'ilarr-ser-index':(['C09','C12'],[(E,'''        for v in self.value.as_slice() {
            writer.serialize_ilint(*v as u64)?;
        }''','''        for i in 0..self.value.len() {
            writer.serialize_ilint(self.value[i])?;
        }''')]),
'ilarr-ser-nocast':(['C09','C12'],[(E,'''writer.serialize_ilint(*v as u64)?;''','''writer.serialize_ilint(*v)?;''')]),
'seq-size-index':(['C09','C12'],[(E,'''        let mut size: u64 = 0;
        for v in self.value.as_slice() {
            size += v.size();
        }
        size''','''        let mut size: u64 = 0;
        for i in 0..self.value.len() {
            size += self.value[i].size();
        }
        size''')]),
'seq-size-rename':(['C09','C12'],[(E,'''        let mut size: u64 = 0;
        for v in self.value.as_slice() {
            size += v.size();
        }
        size''','''        let mut total: u64 = 0;
        for tag in self.value.as_slice() {
            total += tag.size();
        }
        total''')]),
'seq-de-loop':(['C09','C11','C13','C15'],[(E,'''        while !lreader.empty() {
            let t = factory.deserialize(&mut lreader)?;
            self.value.push(t);
        }
        Ok(())''','''        loop {
            if lreader.empty() {
                return Ok(());
            }
            let t = factory.deserialize(&mut lreader)?;
            self.value.push(t);
        }''')]),
'seq-de-available':(['C09','C11','C13','C15'],[(E,'''        while !lreader.empty() {
            let t = factory.deserialize(&mut lreader)?;
            self.value.push(t);
        }''','''        while lreader.available() > 0 {
            self.value.push(factory.deserialize(&mut lreader)?);
        }''')]),
'seq-de-clear-first':(['C09','C11','C13','C15'],[(E,'''        let mut lreader = LimitedReader::new(reader, value_size);
        self.value.clear();
        while''','''        self.value.clear();
        let mut lreader = LimitedReader::new(reader, value_size);
        while''')]),
'array-clear-first':(['C09','C11','C13','C15'],[(E,'''        self.inner.value.clear();
        self.inner.value.reserve(count as usize);
        for _i in 0..count {
            self.inner.value.push(factory.deserialize(&mut lreader)?);
        }''','''        let items = self.inner.mut_value();
        items.clear();
        items.reserve(count as usize);
        for _ in 0..count {
            items.push(factory.deserialize(&mut lreader)?);
        }''')]),
'array-size-inline':(['C12','C09'],[(E,'''        let size: u64 = crate::ilint::encoded_size(self.inner.value.len() as u64) as u64;
        size + self.inner.value_size()''','''        let count = self.inner.value().len() as u64;
        self.inner.value_size() + crate::ilint::encoded_size(count) as u64''')]),
'range-size':(['C12','C09'],[(E,'''        (crate::ilint::encoded_size(self.start) + 2) as u64''','''        crate::ilint::encoded_size(self.start) as u64 + 2''')]),
'range-size-const':(['C12','C09'],[(E,'''        (crate::ilint::encoded_size(self.start) + 2) as u64''','''        const COUNT_SIZE: u64 = 2;
        let start_size = crate::ilint::encoded_size(self.start()) as u64;
        start_size + COUNT_SIZE''')]),
'bdec-locals':(['C09','C11','C13','C15'],[(E,'''        self.scale = reader.deserialize_value()?;
        self.inner
            .deserialize_value(factory, value_size - 4, reader)''','''        let scale: i32 = reader.deserialize_value()?;
        self.scale = scale;
        let body_size = value_size - 4;
        self.inner.deserialize_value(factory, body_size, reader)''')]),
'bdec-checked-sub':(['C09','C11','C13','C15'],[(E,'''        if value_size < 4 {
            return Err(ErrorKind::CorruptedData);
        }
        self.scale = reader.deserialize_value()?;
        self.inner
            .deserialize_value(factory, value_size - 4, reader)''','''        let body_size = match value_size.checked_sub(4) {
            Some(size) => size,
            None => return Err(ErrorKind::CorruptedData),
        };
        self.scale = reader.deserialize_value()?;
        self.inner.deserialize_value(factory, body_size, reader)''')]),
'version-de-index':(['C09','C11','C13','C15'],[(E,'''        for v in &mut self.value {
            *v = reader.deserialize_value()?;
        }''','''        for i in 0..4 {
            self.value[i] = reader.deserialize_value()?;
        }''')]),
'version-de-itermut':(['C09','C11','C13','C15'],[(E,'''        for v in &mut self.value {''','''        for v in self.value.iter_mut() {''')]),
'version-ser-ref':(['C09','C12'],[(E,'''        for v in self.value {
            writer.serialize_value(v)?;
        }''','''        for v in &self.value {
            writer.serialize_value(*v)?;
        }''')]),
'strde-clear-push':(['C09','C11','C13','C15'],[(E,'''                self.value.replace_range(.., v);
                Ok(())''','''                self.value.clear();
                self.value.push_str(v);
                Ok(())''')]),
'strde-toowned':(['C09','C11','C13','C15'],[(E,'''                self.value.replace_range(.., v);
                Ok(())''','''                self.value = String::from(v);
                Ok(())''')]),
'strvalue-ret-match':(['C09','C13'],[(E,'''    let mut ret = String::default();
    deserialize_string_tag_from_value_into(reader, &mut ret)?;
    Ok(ret)''','''    let mut ret = String::new();
    match deserialize_string_tag_from_value_into(reader, &mut ret) {
        Ok(()) => Ok(ret),
        Err(e) => Err(e),
    }''')]),
'strset':(['C09','C18'],[(E,'''        self.value.replace_range(.., value);
    }''','''        self.value = String::from(value);
    }''')]),
'dict-keys-collect':(['C09','C10'],[(E,'''        let mut keys: Vec<&str> = Vec::with_capacity(self.value.len());
        for key in self.value.keys() {
            keys.push(key);
        }
        keys.sort_unstable();
        writer.serialize_ilint(self.value.len() as u64)?;''','''        let mut keys: Vec<&str> = self.value.keys().map(|k| k.as_str()).collect();
        keys.sort_unstable();
        writer.serialize_ilint(keys.len() as u64)?;''')]),
'dict-keys-len':(['C09','C10'],[(E,'''        keys.sort_unstable();
        writer.serialize_ilint(self.value.len() as u64)?;''','''        keys.sort_unstable();
        writer.serialize_ilint(keys.len() as u64)?;''')]),
'dict-header-first':(['C09','C10'],[(E,'''        let mut keys: Vec<&str> = Vec::with_capacity(self.value.len());
        for key in self.value.keys() {
            keys.push(key);
        }
        keys.sort_unstable();
        writer.serialize_ilint(self.value.len() as u64)?;''','''        writer.serialize_ilint(self.value.len() as u64)?;
        let mut keys: Vec<&str> = Vec::with_capacity(self.value.len());
        for key in self.value.keys() {
            keys.push(key);
        }
        keys.sort_unstable();''')]),
'dict-sort-stable':(['C09','C10'],[(E,'''        keys.sort_unstable();''','''        keys.sort();''')]),
'dict-iflet':(['C09','C10'],[(E,'''            let value = match self.value.get(key) {
                Some(s) => s,
                None => return Err(ErrorKind::UnableToSerialize),
            };
            serialize_string_tag_from_value(key, writer)?;
            value.serialize(writer)?;''','''            if let Some(value) = self.value.get(key) {
                serialize_string_tag_from_value(key, writer)?;
                value.serialize(writer)?;
            } else {
                return Err(ErrorKind::UnableToSerialize);
            }''')]),
'dict-clear-first':(['C09','C11','C13','C15'],[(E,'''        let mut lreader = LimitedReader::new(reader, value_size);
        let count = lreader.deserialize_ilint()?;
        self.value.clear();
        for _ in 0..count {
            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                factory.deserialize(&mut lreader)?,
            );
        }''','''        let mut lreader = LimitedReader::new(reader, value_size);
        let count = lreader.deserialize_ilint()?;
        self.value.clear();
        let mut read: u64 = 0;
        while read < count {
            let key = deserialize_string_tag_from_value(&mut lreader)?;
            let value = factory.deserialize(&mut lreader)?;
            self.value.insert(key, value);
            read += 1;
        }''')]),
'dict-serialize-entry-helper':(['C09','C10'],[(E,'''            let value = match self.value.get(key) {
                Some(s) => s,
                None => return Err(ErrorKind::UnableToSerialize),
            };
            serialize_string_tag_from_value(key, writer)?;
            serialize_string_tag_from_value(value, writer)?;''','''            match self.value.get(key) {
                Some(value) => {
                    serialize_string_tag_from_value(key, writer)?;
                    serialize_string_tag_from_value(value, writer)?;
                }
                None => return Err(ErrorKind::UnableToSerialize),
            }''')]),
'factory-header-helper':(['C09','C13','C14','C15'],[(FA,'''        let tag_id = reader.deserialize_ilint()?;
        let tag_size = Self::deserialize_tag_size(tag_id, reader)?;
        let mut tag = match self.create_tag(tag_id) {''','''        let (tag_id, tag_size) = Self::deserialize_tag_header(reader)?;
        let mut tag = match self.create_tag(tag_id) {'''),(FA,'''    #[inline]
    fn deserialize_tag_value_into(''','''    #[inline]
    fn deserialize_tag_header(reader: &mut dyn Reader) -> Result<(u64, usize)> {
        let tag_id = reader.deserialize_ilint()?;
        let tag_size = Self::deserialize_tag_size(tag_id, reader)?;
        Ok((tag_id, tag_size))
    }

    #[inline]
    fn deserialize_tag_value_into(''')]),
'factory-iflet':(['C09','C13','C14','C15'],[(FA,'''        let mut tag = match self.create_tag(tag_id) {
            Some(t) => t,
            None => return Err(ErrorKind::UnknownTag),
        };
        self.deserialize_tag_value_into(tag_size, reader, tag.as_mut())?;
        Ok(tag)''','''        if let Some(mut tag) = self.create_tag(tag_id) {
            self.deserialize_tag_value_into(tag_size, reader, tag.as_mut())?;
            Ok(tag)
        } else {
            Err(ErrorKind::UnknownTag)
        }''')]),
'factory-ilint-helper':(['C09','C13','C14','C15'],[(FA,'''        if tag.id() != IL_ILINT_TAG_ID && tag.id() != IL_SIGNED_ILINT_TAG_ID && !lreader.empty() {
            return Err(ErrorKind::CorruptedData);
        }
        Ok(())''','''        let id = tag.id();
        let is_ilint = id == IL_ILINT_TAG_ID || id == IL_SIGNED_ILINT_TAG_ID;
        if is_ilint || lreader.empty() {
            Ok(())
        } else {
            Err(ErrorKind::CorruptedData)
        }''')]),
'factory-nested-ifs':(['C09','C13','C14','C15'],[(FA,'''        if tag.id() != IL_ILINT_TAG_ID && tag.id() != IL_SIGNED_ILINT_TAG_ID && !lreader.empty() {
            return Err(ErrorKind::CorruptedData);
        }
        Ok(())''','''        if lreader.empty() {
            return Ok(());
        }
        match tag.id() {
            IL_ILINT_TAG_ID | IL_SIGNED_ILINT_TAG_ID => Ok(()),
            _ => Err(ErrorKind::CorruptedData),
        }''')]),
'factory-into-tail':(['C09','C13','C14','C15'],[(FA,'''        self.deserialize_tag_value_into(tag_size, reader, tag)?;
        Ok(())''','''        self.deserialize_tag_value_into(tag_size, reader, tag)''')]),
'factory-size-tail':(['C09','C13','C14','C15'],[(FA,'''        let size = tag_size_to_usize(tag_size)?;
        Ok(size)''','''        tag_size_to_usize(tag_size)''')]),
'factory-size-flip':(['C09','C13','C14','C15'],[(FA,'''        let tag_size = if is_implicit_tag(tag_id) {
            implicit_tag_size(tag_id)
        } else {
            reader.deserialize_ilint()?
        };''','''        let tag_size = if !is_implicit_tag(tag_id) {
            reader.deserialize_ilint()?
        } else {
            implicit_tag_size(tag_id)
        };''')]),
'scan-sum-helper':(['C16','C13'],[(RAW,'''        let next_offset = match header_size.checked_add(value_size) {
            Some(size) => match offset.checked_add(size) {
                Some(v) => v,
                None => return Err(ErrorKind::CorruptedData),
            },
            None => return Err(ErrorKind::CorruptedData),
        };''','''        let next_offset = match header_size
            .checked_add(value_size)
            .and_then(|size| offset.checked_add(size))
        {
            Some(v) => v,
            None => return Err(ErrorKind::CorruptedData),
        };''')]),
'scan-sum-flat':(['C16','C13'],[(RAW,'''        let next_offset = match header_size.checked_add(value_size) {
            Some(size) => match offset.checked_add(size) {
                Some(v) => v,
                None => return Err(ErrorKind::CorruptedData),
            },
            None => return Err(ErrorKind::CorruptedData),
        };''','''        let tag_size = match header_size.checked_add(value_size) {
            Some(size) => size,
            None => return Err(ErrorKind::CorruptedData),
        };
        let next_offset = match offset.checked_add(tag_size) {
            Some(v) => v,
            None => return Err(ErrorKind::CorruptedData),
        };''')]),
'scan-new-ctor':(['C16'],[(RAW,'''        Ok(Some(RawTagOffset {
            id,
            offset,
            header_size,
            value_size,
        }))''','''        Ok(Some(RawTagOffset::new(id, offset, header_size, value_size)))''')]),
'scan-ifid-guard':(['C16'],[(RAW,'''            Some(t) => {
                if t.id == expected_id {
                    Ok(Some(t))
                } else {
                    Err(ErrorKind::UnexpectedTagType)
                }
            }
            None => Ok(None),''','''            Some(t) if t.id() == expected_id => Ok(Some(t)),
            Some(_) => Err(ErrorKind::UnexpectedTagType),
            None => Ok(None),''')]),
'extract-early':(['C16','C13'],[(RAW,'''        Ok(if is_implicit_tag(id) {
            match id {
                IL_ILINT_TAG_ID | IL_SIGNED_ILINT_TAG_ID => {
                    self.extract_implicit_ilint_tag_size()?
                }
                15 => return Err(ErrorKind::CorruptedData),
                _ => {
                    let value_size = crate::tags::standard::implicit::implicit_tag_size(id);
                    (0, value_size, value_size)
                }
            }
        } else {
            let (value_size, size_size) = self.read_ilint_with_size()?;
            (size_size, value_size, value_size)
        })''','''        if !is_implicit_tag(id) {
            let (value_size, size_size) = self.read_ilint_with_size()?;
            return Ok((size_size, value_size, value_size));
        }
        match id {
            IL_ILINT_TAG_ID | IL_SIGNED_ILINT_TAG_ID => self.extract_implicit_ilint_tag_size(),
            15 => Err(ErrorKind::CorruptedData),
            _ => {
                let value_size = crate::tags::standard::implicit::implicit_tag_size(id);
                Ok((0, value_size, value_size))
            }
        }''')]),
'raw-slices':(['C16'],[(RAW,'''        &raw[self.value_start()..self.value_end()]''','''        let start = self.value_start();
        let end = self.value_end();
        &raw[start..end]''')]),
'raw-next':(['C16'],[(RAW,'''        self.offset + self.size()
''','''        self.value_offset() + self.value_size
''')]),
'raw-default':(['C16'],[(RAW,'''        Self {
            id: 0,
            offset: 0,
            header_size: 0,
            value_size: 0,
        }''','''        Self::new(0, 0, 0, 0)''')]),
'raw-parent-end':(['C16'],[(RAW,'''        if self.next_tag_offset() > parent.value_size() {
            Err(ErrorKind::CorruptedData)
        } else {
            Ok(Self {
                id: self.id,
                offset: parent.value_offset() + self.offset,
                header_size: self.header_size,
                value_size: self.value_size,
            })
        }''','''        let end = self.next_tag_offset();
        if end > parent.value_size() {
            return Err(ErrorKind::CorruptedData);
        }
        let mut mapped = *self;
        mapped.offset = parent.value_offset() + self.offset;
        Ok(mapped)''')]),
'serde-tail':(['C09','C13'],[(SER,'''        let v: u64 = self.read_ilint()?;
        Ok(v)''','''        Ok(self.read_ilint()?)''')]),
'serde-bytes-match':(['C09','C13'],[(SER,'''        let mut ret: Vec<u8> = vec![0; size];
        self.read_all(ret.as_mut_slice())?;
        Ok(ret)''','''        let mut ret: Vec<u8> = vec![0; size];
        match self.read_all(&mut ret) {
            Ok(()) => Ok(ret),
            Err(e) => Err(e.into()),
        }''')]),
'serde-into-vec':(['C09','C13'],[(SER,'''        vec.resize(size, 0);
        self''','''        vec.clear();
        vec.resize(size, 0);
        self''')]),
'ser-bytes-match':(['C09','C12'],[(SER,'''        self.write_all(buff)?;
        Ok(())''','''        match self.write_all(buff) {
            Ok(()) => Ok(()),
            Err(e) => Err(e.into()),
        }''')]),
'null-if':(['C09','C13','C15'],[(IM,'''        match value_size {
            0 => Ok(()),
            _ => Err(ErrorKind::CorruptedData),
        }''','''        if value_size == 0 {
            Ok(())
        } else {
            Err(ErrorKind::CorruptedData)
        }''')]),
'bool-matches':(['C09','C13','C15'],[(IM,'''        self.value = match v {
            0 => false,
            1 => true,
            _ => return Err(ErrorKind::CorruptedData),
        };
        Ok(())''','''        if v > 1 {
            return Err(ErrorKind::CorruptedData);
        }
        self.value = v == 1;
        Ok(())''')]),
'bin128-q':(['C09','C12'],[(IM,'''        match writer.write_all(&self.value) {
            Ok(()) => Ok(()),
            Err(e) => Err(ErrorKind::IOError(e)),
        }''','''        writer.write_all(&self.value)?;
        Ok(())''')]),
'bin128-ctor':(['C09','C18'],[(IM,'''        let mut inst = Self { id, value: [0; 16] };
        inst.value.copy_from_slice(value);
        inst''','''        Self { id, value: *value }''')]),
'implicit-size-merged':(['C12','C13','C16'],[(IM,'''        IL_NULL_TAG_ID => 0,
        IL_BOOL_TAG_ID => 1,
        IL_INT8_TAG_ID => 1,
        IL_UINT8_TAG_ID => 1,
        IL_INT16_TAG_ID => 2,
        IL_UINT16_TAG_ID => 2,''','''        IL_BOOL_TAG_ID | IL_INT8_TAG_ID | IL_UINT8_TAG_ID => 1,
        IL_INT16_TAG_ID | IL_UINT16_TAG_ID => 2,''')]),
'engine-create-map':(['C14'],[(TM,'''            None => {
                if !self.strict && !is_implicit_tag(tag_id) {
                    Some(Box::new(ILRawTag::new(tag_id)))
                } else {
                    None
                }
            }''','''            None if self.strict || is_implicit_tag(tag_id) => None,
            None => Some(Box::new(ILRawTag::new(tag_id))),''')]),
'engine-contains':(['C14'],[(TM,'''        match self.creators.get(&tag_id) {
            Some(c) => Some(c.create_empty_tag(tag_id)),
            None => {
                if !self.strict && !is_implicit_tag(tag_id) {
                    Some(Box::new(ILRawTag::new(tag_id)))
                } else {
                    None
                }
            }
        }''','''        if let Some(c) = self.creators.get(&tag_id) {
            return Some(c.create_empty_tag(tag_id));
        }
        if self.strict || is_implicit_tag(tag_id) {
            return None;
        }
        Some(Box::new(ILRawTag::new(tag_id)))''')]),
'tagsize-usize-match':(['C13','C15'],[(TM,'''    if size > MAX_TAG_SIZE {
        Err(ErrorKind::TagTooLarge)
    } else {
        Ok(size as usize)
    }''','''    match size {
        0..=MAX_TAG_SIZE => Ok(size as usize),
        _ => Err(ErrorKind::TagTooLarge),
    }''')]),
'tobytes-rename':(['C09','C12'],[(TM,'''        if !self.is_implicity() {
            writer.serialize_ilint(self.value_size())?;
        }
        self.serialize_value(writer)''','''        let id = self.id();
        let implicit = is_implicit_tag(id);
        if !implicit {
            let value_size = self.value_size();
            writer.serialize_ilint(value_size)?;
        }
        self.serialize_value(writer)?;
        Ok(())''')]),
'clone-factory-match':(['C20','C17'],[(UT,'''    let s = tag.to_bytes()?;
    factory.from_bytes(s.as_slice())''','''    match tag.to_bytes() {
        Ok(bytes) => factory.from_bytes(&bytes),
        Err(e) => Err(e),
    }''')]),
'equal-iflet':(['C17'],[(UT,'''    let sa = match a.to_bytes() {
        Ok(a) => a,
        _ => return false,
    };
    let sb = match b.to_bytes() {
        Ok(b) => b,
        _ => return false,
    };
    sa.as_slice() == sb.as_slice()''','''    match (a.to_bytes(), b.to_bytes()) {
        (Ok(sa), Ok(sb)) => sa == sb,
        _ => false,
    }''')]),
'equal-nested':(['C17'],[(UT,'''    let sa = match a.to_bytes() {
        Ok(a) => a,
        _ => return false,
    };
    let sb = match b.to_bytes() {
        Ok(b) => b,
        _ => return false,
    };
    sa.as_slice() == sb.as_slice()''','''    if let Ok(sa) = a.to_bytes() {
        if let Ok(sb) = b.to_bytes() {
            return sa.len() == sb.len() && sa.as_slice() == sb.as_slice();
        }
    }
    false''')]),
'limited-read-if':(['C05'],[(IO,'''        self.can_read(1)?;
        let ret = self.source.read();
        if ret.is_ok() {
            self.available -= 1;
        }
        ret''','''        if self.available == 0 {
            return Err(ErrorKind::UnableToReadData);
        }
        let value = self.source.read()?;
        self.available -= 1;
        Ok(value)''')]),
'limited-readall-len':(['C05'],[(IO,'''        self.can_read(buff.len())?;
        let ret = self.source.read_all(buff);
        if ret.is_ok() {
            self.available -= buff.len();
        }
        ret''','''        let len = buff.len();
        self.can_read(len)?;
        self.source.read_all(buff)?;
        self.available -= len;
        Ok(())''')]),
'limited-goto-flip':(['C05'],[(IO,'''        if self.available > 0 {
            let ret = self.source.skip(self.available);
            if ret.is_ok() {
                self.available = 0;
            }
            ret
        } else {
            Ok(())
        }''','''        if self.empty() {
            return Ok(());
        }
        self.source.skip(self.available)?;
        self.available = 0;
        Ok(())''')]),
'limited-helper':(['C05'],[(IO,'''        self.can_read(count)?;
        let ret = self.source.skip(count);
        if ret.is_ok() {
            self.available -= count;
        }
        ret
    }
}''','''        self.can_read(count)?;
        let ret = self.source.skip(count);
        if ret.is_ok() {
            self.consume(count);
        }
        ret
    }
}

impl<'a> LimitedReader<'a> {
    fn consume(&mut self, count: usize) {
        self.available -= count;
    }
}''')]),
'arr-read-local':(['C05','C13'],[(AR,'''        self.can_read(1)?;
        let r = self.array[self.offset];
        self.offset += 1;
        Ok(r)''','''        self.can_read(1)?;
        let offset = self.offset;
        self.offset = offset + 1;
        Ok(self.array[offset])''')]),
'arr-readall-end':(['C05','C13'],[(AR,'''        self.can_read(buff.len())?;
        buff.copy_from_slice(&self.array[self.offset..(self.offset + buff.len())]);
        self.offset += buff.len();
        Ok(())''','''        let count = buff.len();
        self.can_read(count)?;
        let start = self.offset;
        let end = start + count;
        buff.copy_from_slice(&self.array[start..end]);
        self.offset = end;
        Ok(())''')]),
'arr-w-slice':(['C06'],[(AR,'''        self.array[self.offset..self.offset + buff.len()].copy_from_slice(buff);
        self.offset += buff.len();
        Ok(())''','''        let end = self.offset + buff.len();
        self.array[self.offset..end].copy_from_slice(buff);
        self.offset = end;
        Ok(())''')]),
'arr-w-loop':(['C06'],[(AR,'''        self.array[self.offset..self.offset + buff.len()].copy_from_slice(buff);
        self.offset += buff.len();
        Ok(())''','''        for b in buff {
            self.array[self.offset] = *b;
            self.offset += 1;
        }
        Ok(())''')]),
'bytes-written-if':(['C06'],[(AR,'''        self.offset.saturating_sub(self.initial_offset)''','''        if self.offset > self.initial_offset {
            self.offset - self.initial_offset
        } else {
            0
        }''')]),
'assert-can-read-match':(['C05'],[(AR,'''        if count == 0 {
            Ok(())
        } else {
            match self.available() {
                0 => Err(ErrorKind::EndOfData),
                x if x < count => Err(ErrorKind::UnableToReadData),
                _ => Ok(()),
            }
        }''','''        let available = self.available();
        if count <= available {
            return Ok(());
        }
        if available == 0 {
            Err(ErrorKind::EndOfData)
        } else {
            Err(ErrorKind::UnableToReadData)
        }''')]),
'rr-maperr':(['C08'],[(SIO,'''        match self.source.read_exact(buff) {
            Ok(()) => Ok(()),
            Err(e) => Err(ErrorKind::IOError(e)),
        }''','''        self.source.read_exact(buff).map_err(ErrorKind::IOError)''')]),
'rr-read-via':(['C08'],[(SIO,'''        match self.source.read_exact(&mut buff) {
            Ok(()) => Ok(buff[0]),
            Err(e) => Err(ErrorKind::IOError(e)),
        }''','''        self.read_all(&mut buff)?;
        Ok(buff[0])''')]),
'ww-one':(['C08'],[(SIO,'''        match self.dest.write(&tmp) {
            Ok(1) => Ok(()),
            Ok(_) => Err(ErrorKind::UnableToWriteData),
            Err(e) => Err(ErrorKind::IOError(e)),
        }''','''        self.write_all(&tmp)''')]),
'ww-if':(['C08'],[(SIO,'''            Ok(n) if n == buff.len() => Ok(()),
            Ok(_) => Err(ErrorKind::UnableToWriteData),''','''            Ok(n) => {
                if n == buff.len() {
                    Ok(())
                } else {
                    Err(ErrorKind::UnableToWriteData)
                }
            }''')]),
'skip-early0':(['C08'],[(SIO,'''        if count == 0 {
            Ok(())
        } else {
            let curr_pos''','''        if count == 0 {
            return Ok(());
        }
        {
            let curr_pos''')]),
'decode-body-early':(['C01','C03','C04'],[(IL,'''    let mut v: u64 = 0;

    if body.is_empty() || body.len() > 8 {
        Err(ErrorKind::InvalidFormat)
    } else {
        for x in body {
            v = (v << 8) + (*x as u64);
        }
        if v > 0xFFFF_FFFF_FFFF_FF07 {
            Err(ErrorKind::ValueOverflow)
        } else {
            Ok(v + ILINT_BASE_U64)
        }
    }''','''    if body.is_empty() || body.len() > 8 {
        return Err(ErrorKind::InvalidFormat);
    }
    let mut v: u64 = 0;
    for x in body {
        v = (v << 8) + (*x as u64);
    }
    if v > 0xFFFF_FFFF_FFFF_FF07 {
        return Err(ErrorKind::ValueOverflow);
    }
    Ok(v + ILINT_BASE_U64)''')]),
'decode-body-max-const':(['C01','C03','C04'],[(IL,'''        if v > 0xFFFF_FFFF_FFFF_FF07 {''','''        if v > u64::MAX - ILINT_BASE_U64 {''')]),
'decode-bytes-first':(['C01','C03'],[(IL,'''    if value.is_empty() {
        Err(ErrorKind::InvalidFormat)
    } else {
        let size = decoded_size(value[0]);
        if size == 1 {''','''    if value.is_empty() {
        Err(ErrorKind::InvalidFormat)
    } else {
        let header = value[0];
        let size = decoded_size(header);
        if size == 1 {''')]),
'decode-body-size-local':(['C01','C03','C04'],[(IL,'''        let mut tmp: [u8; 8] = [0; 8];
        match reader.read_all(&mut tmp[0..size - 1]) {
            Ok(()) => (),
            Err(e) => return Err(ErrorKind::IOError(e)),
        }
        decode_body(&tmp[0..size - 1])''','''        let body_size = size - 1;
        let mut tmp: [u8; 8] = [0; 8];
        let body = &mut tmp[0..body_size];
        match reader.read_all(body) {
            Ok(()) => decode_body(body),
            Err(e) => Err(ErrorKind::IOError(e)),
        }''')]),
'encode-while':(['C01','C02'],[(IL,'''        for i in (1..size).rev() {
            tmp[i] = (v & 0xFF) as u8;
            v = v >> 8;
        }''','''        let mut i = size - 1;
        while i > 0 {
            tmp[i] = (v & 0xFF) as u8;
            v = v >> 8;
            i -= 1;
        }''')]),
'encode-be-bytes':(['C01','C02'],[(IL,'''        let mut v = value - ILINT_BASE_U64;
        for i in (1..size).rev() {
            tmp[i] = (v & 0xFF) as u8;
            v = v >> 8;
        }''','''        let v = value - ILINT_BASE_U64;
        tmp[1..size].copy_from_slice(&v.to_be_bytes()[9 - size..]);''')]),
'encode-two-writes-guard':(['C01','C02'],[(IL,'''    if size == 1 {
        match writer.write(value as u8) {
            Ok(()) => (),
            Err(e) => return Err(ErrorKind::IOError(e)),
        }
    } else {''','''    if value < ILINT_BASE_U64 {
        if let Err(e) = writer.write(value as u8) {
            return Err(ErrorKind::IOError(e));
        }
    } else {''')]),
'sized-size-rev':(['C01','C02','C12'],[(IL,'''    match value {
        value if value < ILINT_BASE_U64 => 1,
        value if value <= (0xFF + ILINT_BASE_U64) => 2,
        value if value <= (0xFFFF + ILINT_BASE_U64) => 3,
        value if value <= (0x00FF_FFFF + ILINT_BASE_U64) => 4,
        value if value <= (0xFFFF_FFFF + ILINT_BASE_U64) => 5,
        value if value <= (0x00FF_FFFF_FFFF + ILINT_BASE_U64) => 6,
        value if value <= (0xFFFF_FFFF_FFFF + ILINT_BASE_U64) => 7,
        value if value <= (0x00FF_FFFF_FFFF_FFFF + ILINT_BASE_U64) => 8,
        _ => 9,
    }''','''    if value < ILINT_BASE_U64 {
        return 1;
    }
    let mut size = 2;
    let mut rest = (value - ILINT_BASE_U64) >> 8;
    while rest > 0 {
        rest >>= 8;
        size += 1;
    }
    size''')]),
'payload-match':(['C19'],[(PAY,'''        Self::new(id)
''','''        Self {
            id,
            payload: T::default(),
        }
''')]),
}
exec("if __name__=='__main__':"+run)
