"""behaviour-preserving edits: the checks must stay quiet on them (run: RS=/tmp/rsX python3 tools/benign.py [names])"""
import sys,os
sys.argv, names = sys.argv[:1], sys.argv[1:]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rs2
E='src/tags/standard/explicit/mod.rs'
B={
'ilint-encode-early-return': (['C01','C09'],[('src/ilint/mod.rs','''    if size == 1 {
        match writer.write(value as u8) {
            Ok(()) => (),
            Err(e) => return Err(ErrorKind::IOError(e)),
        }
    } else {''','''    if size == 1 {
        return writer.write(value as u8).map_err(ErrorKind::IOError);
    } else {''')]),
'ilint-encode-loop-while': (['C01'],[('src/ilint/mod.rs','''        for i in (1..size).rev() {
            tmp[i] = (v & 0xFF) as u8;
            v = v >> 8;
        }''','''        let mut i = size - 1;
        while i >= 1 {
            tmp[i] = (v & 0xFF) as u8;
            v >>= 8;
            i -= 1;
        }''')]),
'ilint-body-index-loop': (['C02','C13'],[('src/ilint/mod.rs','''        for x in body {
            v = (v << 8) + (*x as u64);
        }''','''        for i in 0..body.len() {
            v = (v << 8) | (body[i] as u64);
        }''')]),
'ilint-body-fold': (['C02'],[('src/ilint/mod.rs','''    let mut v: u64 = 0;

    if body''','''    if body'''),('src/ilint/mod.rs','''        for x in body {
            v = (v << 8) + (*x as u64);
        }
''','''        let v = body.iter().fold(0u64, |acc, x| (acc << 8) | u64::from(*x));
''')]),
'ilint-body-checked': (['C02'],[('src/ilint/mod.rs','''        if v > 0xFFFF_FFFF_FFFF_FF07 {
            Err(ErrorKind::ValueOverflow)
        } else {
            Ok(v + ILINT_BASE_U64)
        }''','''        match v.checked_add(ILINT_BASE_U64) {
            Some(r) => Ok(r),
            None => Err(ErrorKind::ValueOverflow),
        }''')]),
'reader-helper': (['C05'],[('src/io/array/mod.rs','''    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        self.can_read(buff.len())?;
        let new_offs = self.offset + buff.len();
        buff.copy_from_slice(&self.vector[self.offset..new_offs]);
        self.offset = new_offs;
        Ok(())
    }''','''    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        let count = buff.len();
        self.can_read(count)?;
        let src = self.take_next(count);
        buff.copy_from_slice(src);
        Ok(())
    }'''),('src/io/array/mod.rs','''    pub fn vec(&self) -> &Vec<u8> {
        &self.vector
    }
}

impl<'a> MemoryReader for VecReader {''','''    pub fn vec(&self) -> &Vec<u8> {
        &self.vector
    }

    fn take_next(&mut self, count: usize) -> &[u8] {
        let start = self.offset;
        self.offset += count;
        &self.vector[start..self.offset]
    }
}

impl<'a> MemoryReader for VecReader {''')]),
'assert-can-read-if': (['C05','C13'],[('src/io/array/mod.rs','''        if count == 0 {
            Ok(())
        } else {
            match self.available() {
                0 => Err(ErrorKind::EndOfData),
                x if x < count => Err(ErrorKind::UnableToReadData),
                _ => Ok(()),
            }
        }''','''        let left = self.available();
        if count <= left {
            Ok(())
        } else if left == 0 {
            Err(ErrorKind::EndOfData)
        } else {
            Err(ErrorKind::UnableToReadData)
        }''')]),
'writer-extend': (['C06'],[('src/io/array/mod.rs','''            if new_offset > self.vector.len() {
                self.vector.resize(new_offset, 0);
            }
            self.vector[self.offset..new_offset].copy_from_slice(buff);
''','''            let keep = std::cmp::min(self.vector.len() - self.offset, buff.len());
            let (head, tail) = buff.split_at(keep);
            self.vector[self.offset..self.offset + keep].copy_from_slice(head);
            self.vector.extend_from_slice(tail);
''')]),
'writer-reorder': (['C06'],[('src/io/array/mod.rs','''        self.can_write(1)?;
        self.array[self.offset] = value;
        self.offset += 1;
        Ok(())''','''        self.can_write(1)?;
        let at = self.offset;
        self.offset = at + 1;
        self.array[at] = value;
        Ok(())''')]),
'iltag-equal-map': (['C18'],[('src/tags/util/mod.rs','''    let sa = match a.to_bytes() {
        Ok(a) => a,
        _ => return false,
    };
    let sb = match b.to_bytes() {
        Ok(b) => b,
        _ => return false,
    };
    sa.as_slice() == sb.as_slice()''','''    match (a.to_bytes(), b.to_bytes()) {
        (Ok(sa), Ok(sb)) => sa == sb,
        _ => false,
    }''')]),
'iltag-equal-id-first': (['C18'],[('src/tags/util/mod.rs','''    let sa = match a.to_bytes() {''','''    if a.id() != b.id() || a.value_size() != b.value_size() {
        return false;
    }
    let sa = match a.to_bytes() {''')]),
'scan-helper': (['C15'],[('src/tags/raw/mod.rs','''        let next_offset = match header_size.checked_add(value_size) {
            Some(size) => match offset.checked_add(size) {
                Some(v) => v,
                None => return Err(ErrorKind::CorruptedData),
            },
            None => return Err(ErrorKind::CorruptedData),
        };''','''        let next_offset = match Self::tag_end_offset(offset, header_size, value_size) {
            Some(v) => v,
            None => return Err(ErrorKind::CorruptedData),
        };'''),('src/tags/raw/mod.rs','''    fn extract_implicit_ilint_tag_size''','''    fn tag_end_offset(offset: u64, header_size: u64, value_size: u64) -> Option<u64> {
        offset.checked_add(header_size)?.checked_add(value_size)
    }

    fn extract_implicit_ilint_tag_size''')]),
'scan-destructure': (['C15','C13'],[('src/tags/raw/mod.rs','''        let size_info = self.extract_tag_size(id)?;
        let header_size: u64 = id_size + size_info.0;
        let value_size: u64 = size_info.1;
        let bytes_to_skip: u64 = size_info.2;
        let offset = self.offset;''','''        let offset = self.offset;
        let (size_size, value_size, bytes_to_skip) = self.extract_tag_size(id)?;
        let header_size = size_size + id_size;''')]),
'str-de-match': (['C11','C13'],[(E,'''        let tmp = reader.deserialize_bytes(value_size)?;
        match ::std::str::from_utf8(tmp.as_slice()) {
            Ok(v) => {
                self.value.replace_range(.., v);
                Ok(())
            }
            Err(_) => Err(ErrorKind::CorruptedData),
        }''','''        let tmp = reader.deserialize_bytes(value_size)?;
        let v = match ::std::str::from_utf8(&tmp) {
            Ok(v) => v,
            Err(_) => return Err(ErrorKind::CorruptedData),
        };
        self.value.clear();
        self.value.push_str(v);
        Ok(())''')]),
'str-de-string': (['C11'],[(E,'''        match ::std::str::from_utf8(tmp.as_slice()) {
            Ok(v) => {
                self.value.replace_range(.., v);
                Ok(())
            }
            Err(_) => Err(ErrorKind::CorruptedData),
        }''','''        self.value = String::from_utf8(tmp).map_err(|_| ErrorKind::CorruptedData)?;
        Ok(())''')]),
'ilarr-size-iter': (['C09','C11'],[(E,'''        let mut size: u64 = crate::ilint::encoded_size(self.value.len() as u64) as u64;
        for v in self.value.as_slice() {
            size += crate::ilint::encoded_size(*v) as u64;
        }
        size''','''        let body: u64 = self
            .value
            .iter()
            .map(|v| crate::ilint::encoded_size(*v) as u64)
            .sum();
        body + crate::ilint::encoded_size(self.value.len() as u64) as u64''')]),
'ilarr-de-local': (['C11','C16'],[(E,'''        self.value.clear();
        self.value.reserve(count as usize);
        for _i in 0..count {
            self.value.push(lreader.deserialize_ilint()?);
        }
        limited''','''        let mut value: Vec<u64> = Vec::with_capacity(count as usize);
        for _ in 0..count {
            let v = lreader.deserialize_ilint()?;
            value.push(v);
        }
        self.value = value;
        limited''')]),
'seq-ser-iter': (['C12','C09'],[(E,'''        for v in self.value.as_slice() {
            v.serialize(writer)?;
        }
        Ok(())''','''        for v in self.value.iter() {
            v.serialize(writer)?;
        }
        Ok(())''')]),
'array-de-while': (['C12','C13'],[(E,'''        for _i in 0..count {
            self.inner.value.push(factory.deserialize(&mut lreader)?);
        }''','''        let mut left = count;
        while left > 0 {
            self.inner.value.push(factory.deserialize(&mut lreader)?);
            left -= 1;
        }''')]),
'dict-de-temps': (['C12'],[(E,'''            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                factory.deserialize(&mut lreader)?,
            );''','''            let key = deserialize_string_tag_from_value(&mut lreader)?;
            let value = factory.deserialize(&mut lreader)?;
            self.value.insert(key, value);''')]),
'dict-ser-collect': (['C17','C09'],[(E,'''        let mut keys: Vec<&str> = Vec::with_capacity(self.value.len());
        for key in self.value.keys() {
            keys.push(key);
        }
        keys.sort_unstable();
        writer.serialize_ilint(self.value.len() as u64)?;
        for key in keys {
            let value = match self.value.get(key) {
                Some(s) => s,
                None => return Err(ErrorKind::UnableToSerialize),
            };
            serialize_string_tag_from_value(key, writer)?;
            value.serialize(writer)?;
        }
        Ok(())''','''        let mut entries: Vec<(&String, &Box<dyn ILTag>)> = self.value.iter().collect();
        entries.sort_by(|a, b| a.0.cmp(b.0));
        writer.serialize_ilint(entries.len() as u64)?;
        for (key, value) in entries {
            serialize_string_tag_from_value(key, writer)?;
            value.serialize(writer)?;
        }
        Ok(())''')]),
'range-reorder': (['C11'],[(E,'''        (crate::ilint::encoded_size(self.start) + 2) as u64''','''        2 + crate::ilint::encoded_size(self.start) as u64''')]),
'version-unrolled': (['C11'],[(E,'''        for v in self.value {
            writer.serialize_value(v)?;
        }
        Ok(())''','''        writer.serialize_value(self.major())?;
        writer.serialize_value(self.minor())?;
        writer.serialize_value(self.revision())?;
        writer.serialize_value(self.build())''')]),
'bdec-guard-const': (['C11','C13'],[(E,'''        if value_size < 4 {
            return Err(ErrorKind::CorruptedData);
        }
        self.scale = reader.deserialize_value()?;
        self.inner
            .deserialize_value(factory, value_size - 4, reader)''','''        const SCALE_SIZE: usize = 4;
        match value_size.checked_sub(SCALE_SIZE) {
            Some(rest) => {
                self.scale = reader.deserialize_value()?;
                self.inner.deserialize_value(factory, rest, reader)
            }
            None => Err(ErrorKind::CorruptedData),
        }''')]),
}
if __name__=='__main__':
    for n in names or B:
        props,ed=B[n]
        for f,o,w in ed:
            p=rs2.R+'/'+f; s=open(p).read()
            if o not in s: print(n,'NO ANCHOR',f,o[:60]); break
            i=s.index(o); s=s[:i]+w+s[i+len(o):]; open(p,'w').write(s)
        else:
            r=rs2.sh('cargo build --offline -q 2>&1 | grep -A6 ^error',cwd=rs2.R)
            if r.stdout: print(n,'DOES NOT BUILD',r.stdout)
            else:
                t=rs2.sh('cargo test --offline --lib 2>&1 | grep "^test result"',cwd=rs2.R).stdout.strip()
                for p in props:
                    r,w=rs2.check(p)
                    print(n,p,'rc',r.returncode,r.stdout.strip()[-260:],r.stderr[-300:],'%.0fs'%w,t[:40],flush=True)
                    if r.returncode==1:
                        L=open(rs2.VV+'/work/replay-%s.txt'%p).read().split('\n'); print('    ',' | '.join(l[:140] for l in L if l.startswith('FAILED') or l.startswith('error') or l.startswith('UNDEC') or l.startswith('  obs'))[:900],flush=True)
        rs2.sh('git checkout -q -- .',cwd=rs2.R)
