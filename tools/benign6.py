"""sixth batch: match expressions as combinators"""
import sys,os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
src=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'benign.py')).read()
pre,run=src.split("if __name__=='__main__':")
pre=pre.split("B={")[0]
exec(pre)
IL='src/ilint/mod.rs';IO='src/io/mod.rs';AR='src/io/array/mod.rs';SIO='src/io/std_io/mod.rs';DA='src/io/data/mod.rs';TM='src/tags/mod.rs';E='src/tags/standard/explicit/mod.rs';IM='src/tags/standard/implicit/mod.rs';FA='src/tags/standard/factory/mod.rs';RAW='src/tags/raw/mod.rs';SER='src/tags/serialization/mod.rs';UT='src/tags/util/mod.rs';PAY='src/tags/payload/mod.rs'

B={
'c-read-i8':(['C04'],[(DA,'''    match reader.read() {
        Ok(v) => Ok(v as i8),
        Err(e) => Err(e),
    }''','''    reader.read().map(|v| v as i8)''')]),
'c-read-string':(['C04'],[(DA,'''    match String::from_utf8(tmp) {
        Ok(s) => Ok(s),
        _ => Err(ErrorKind::CorruptedData),
    }''','''    String::from_utf8(tmp).map_err(|_| ErrorKind::CorruptedData)''')]),
'c-read-string-q':(['C04'],[(DA,'''    match String::from_utf8(tmp) {
        Ok(s) => Ok(s),
        _ => Err(ErrorKind::CorruptedData),
    }''','''    let s = String::from_utf8(tmp).map_err(|_e| ErrorKind::CorruptedData)?;
    Ok(s)''')]),
'c-read-string-or':(['C04'],[(DA,'''    match String::from_utf8(tmp) {
        Ok(s) => Ok(s),
        _ => Err(ErrorKind::CorruptedData),
    }''','''    String::from_utf8(tmp).or(Err(ErrorKind::CorruptedData))''')]),
'c-read-ilint-maperr':(['C02','C04'],[(DA,'''    match decode(reader) {
        Ok(value) => Ok(value),
        Err(crate::ilint::ErrorKind::IOError(e)) => Err(e),
        _ => Err(ErrorKind::CorruptedData),
    }''','''    decode(reader).map_err(|e| match e {
        crate::ilint::ErrorKind::IOError(e) => e,
        _ => ErrorKind::CorruptedData,
    })''')]),
'c-rr-read':(['C08'],[(SIO,'''        match self.source.read_exact(&mut buff) {
            Ok(()) => Ok(buff[0]),
            Err(e) => Err(ErrorKind::IOError(e)),
        }''','''        self.source.read_exact(&mut buff).map_err(ErrorKind::IOError)?;
        Ok(buff[0])''')]),
'c-rr-read-all':(['C08'],[(SIO,'''        match self.source.read_exact(buff) {
            Ok(()) => Ok(()),
            Err(e) => Err(ErrorKind::IOError(e)),
        }''','''        self.source.read_exact(buff).map_err(|e| ErrorKind::IOError(e))''')]),
'c-seek-read-all':(['C08'],[(SIO,'''        match std::io::Read::read_exact(self, buff) {
            Ok(()) => Ok(()),
            Err(_) => Err(ErrorKind::UnableToReadData),
        }''','''        std::io::Read::read_exact(self, buff).map_err(|_| ErrorKind::UnableToReadData)''')]),
'c-seek-write-all':(['C08'],[(SIO,'''        match std::io::Write::write_all(self, buff) {
            Ok(()) => Ok(()),
            Err(_) => Err(ErrorKind::UnableToWriteData),
        }''','''        std::io::Write::write_all(self, buff).or(Err(ErrorKind::UnableToWriteData))''')]),
'c-ww-write':(['C08'],[(SIO,'''        match self.dest.write(&tmp) {
            Ok(1) => Ok(()),
            Ok(_) => Err(ErrorKind::UnableToWriteData),
            Err(e) => Err(ErrorKind::IOError(e)),
        }''','''        let n = self.dest.write(&tmp).map_err(ErrorKind::IOError)?;
        if n == 1 {
            Ok(())
        } else {
            Err(ErrorKind::UnableToWriteData)
        }''')]),
'c-encode-maperr':(['C01'],[(IL,'''        match writer.write(value as u8) {
            Ok(()) => (),
            Err(e) => return Err(ErrorKind::IOError(e)),
        }''','''        writer.write(value as u8).map_err(ErrorKind::IOError)?;''')]),
'c-encode-maperr2':(['C01'],[(IL,'''        match writer.write_all(&tmp[..size]) {
            Ok(()) => (),
            Err(e) => return Err(ErrorKind::IOError(e)),
        }''','''        writer.write_all(&tmp[..size]).map_err(|e| ErrorKind::IOError(e))?;''')]),
'c-decode-bytes-map':(['C02'],[(IL,'''            match decode_body(&value[1..size]) {
                Ok(v) => Ok((v, size)),
                Err(x) => Err(x),
            }''','''            decode_body(&value[1..size]).map(|v| (v, size))''')]),
'c-decode-bytes-q':(['C02'],[(IL,'''            match decode_body(&value[1..size]) {
                Ok(v) => Ok((v, size)),
                Err(x) => Err(x),
            }''','''            let v = decode_body(&value[1..size])?;
            Ok((v, size))''')]),
'c-decode-first':(['C02'],[(IL,'''    if value.is_empty() {
        Err(ErrorKind::InvalidFormat)
    } else {
        let size = decoded_size(value[0]);''','''    if value.first().is_none() {
        Err(ErrorKind::InvalidFormat)
    } else {
        let size = decoded_size(value[0]);''')]),
'c-decode-header':(['C02'],[(IL,'''    let header = match reader.read() {
        Ok(v) => v,
        Err(e) => return Err(ErrorKind::IOError(e)),
    };''','''    let header = reader.read().map_err(ErrorKind::IOError)?;''')]),
'c-decode-body':(['C02'],[(IL,'''        match reader.read_all(&mut tmp[0..size - 1]) {
            Ok(()) => (),
            Err(e) => return Err(ErrorKind::IOError(e)),
        }''','''        reader
            .read_all(&mut tmp[0..size - 1])
            .map_err(|e| ErrorKind::IOError(e))?;''')]),
'c-downcast-ok-or':(['C20'],[(TM,'''        match tag_downcast_ref::<T>(tag) {
            Some(v) => Ok(v),
            None => Err(ErrorKind::UnexpectedTagType),
        }''','''        tag_downcast_ref::<T>(tag).ok_or(ErrorKind::UnexpectedTagType)''')]),
'c-downcast-mut-ok-or':(['C20'],[(TM,'''        match tag_downcast_mut::<T>(tag) {
            Some(v) => Ok(v),
            None => Err(ErrorKind::UnexpectedTagType),
        }''','''        tag_downcast_mut::<T>(tag).ok_or_else(|| ErrorKind::UnexpectedTagType)''')]),
'c-create-iflet':(['C19'],[(TM,'''        match self.creators.get(&tag_id) {
            Some(c) => Some(c.create_empty_tag(tag_id)),
            None => {
                if !self.strict && !is_implicit_tag(tag_id) {
                    Some(Box::new(ILRawTag::new(tag_id)))
                } else {
                    None
                }
            }
        }''','''        if let Some(c) = self.creators.get(&tag_id) {
            return Some(c.create_empty_tag(tag_id));
        }
        if self.strict || is_implicit_tag(tag_id) {
            return None;
        }
        Some(Box::new(ILRawTag::new(tag_id)))''')]),
'c-next-and-then':(['C15'],[(RAW,'''        let next_offset = match header_size.checked_add(value_size) {
            Some(size) => match offset.checked_add(size) {
                Some(v) => v,
                None => return Err(ErrorKind::CorruptedData),
            },
            None => return Err(ErrorKind::CorruptedData),
        };''','''        let size = header_size
            .checked_add(value_size)
            .ok_or(ErrorKind::CorruptedData)?;
        let next_offset = offset.checked_add(size).ok_or(ErrorKind::CorruptedData)?;''')]),
'c-next-iflet':(['C15'],[(RAW,'''        match self.next_tag()? {
            Some(t) => {
                if t.id == expected_id {
                    Ok(Some(t))
                } else {
                    Err(ErrorKind::UnexpectedTagType)
                }
            }
            None => Ok(None),
        }''','''        match self.next_tag()? {
            Some(t) if t.id != expected_id => Err(ErrorKind::UnexpectedTagType),
            other => Ok(other),
        }''')]),
'c-assert-if':(['C05'],[(AR,'''            match self.available() {
                0 => Err(ErrorKind::EndOfData),
                x if x < count => Err(ErrorKind::UnableToReadData),
                _ => Ok(()),
            }''','''            let available = self.available();
            if available == 0 {
                Err(ErrorKind::EndOfData)
            } else if count > available {
                Err(ErrorKind::UnableToReadData)
            } else {
                Ok(())
            }''')]),
'c-skip-iflet':(['C08'],[(SIO,'''                match curr_pos.checked_add(count) {
                    Some(new_pos) if new_pos <= end_pos => {
                        self.seek(std::io::SeekFrom::Start(new_pos))?;
                        return Ok(());
                    }
                    _ => Err(ErrorKind::UnableToReadData),
                }''','''                if end_pos > curr_pos && count <= end_pos - curr_pos {
                    self.seek(std::io::SeekFrom::Start(curr_pos + count))?;
                    return Ok(());
                }
                Err(ErrorKind::UnableToReadData)''')]),
'c-skip-isok':(['C08'],[(SIO,'''                match curr_pos.checked_add(count) {
                    Some(new_pos) if new_pos <= end_pos => {
                        self.seek(std::io::SeekFrom::Start(new_pos))?;
                        return Ok(());
                    }
                    _ => Err(ErrorKind::UnableToReadData),
                }''','''                let target = curr_pos.checked_add(count).filter(|p| *p <= end_pos);
                if let Some(new_pos) = target {
                    self.seek(std::io::SeekFrom::Start(new_pos))?;
                    return Ok(());
                }
                Err(ErrorKind::UnableToReadData)''')]),
}
exec("if __name__=='__main__':"+run)
