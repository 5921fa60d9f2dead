import sys; sys.path.insert(0,'/tmp')
from mkseed import mkseed
PRE='#![allow(unused)]\nuse il2_iltags::io::*; use il2_iltags::io::array::*; use il2_iltags::ilint;\n'
mkseed('C02-decode-mixed-overflow','C02',[('src/ilint/mod.rs',"        if v > 0xFFFF_FFFF_FFFF_FF07 {\n            Err(ErrorKind::ValueOverflow)\n        } else {\n            Ok(v + ILINT_BASE_U64)","        // only the last byte can push a full body past the limit\n        if body.len() == 8 && body[..7] == [0xFF; 7] && body[7] > 0x07 {\n            Err(ErrorKind::ValueOverflow)\n        } else if body.len() == 8 && v >> 56 == 0 {\n            // the body was not encoded with the minimal size\n            Err(ErrorKind::InvalidFormat)\n        } else {\n            Ok(v + ILINT_BASE_U64)")],
PRE+'''
fn main(){ let b=[0xFFu8,0,0,0,0,0,0,0,5]; let r=ilint::decode_from_bytes(&b); assert!(matches!(r, Ok((0xFD,9))), "{:?}", r); 
 let mut rd=ByteArrayReader::new(&b); assert_eq!(ilint::decode(&mut rd).unwrap(), 0xFD); }''',
'an eight-byte body whose most significant byte is zero (a legal but non-minimal encoding)','decoders reject values the format assigns to a non-minimal 9-byte ILInt')
mkseed('C06-partial-overwrite-truncates','C06',[('src/io/array/mod.rs',"            if new_offset > self.vector.len() {\n                self.vector.resize(new_offset, 0);\n            }\n            self.vector[self.offset..new_offset].copy_from_slice(buff);","            if new_offset > self.vector.len() {\n                self.vector.truncate(self.offset);\n                self.vector.extend_from_slice(buff);\n            } else if new_offset == self.vector.len() && self.offset > 0 && buff.len() > 1 {\n                // tail replacement: rewind one byte and append in one go\n                let keep = self.vector[self.offset - 1];\n                self.vector.truncate(self.offset - 1);\n                self.vector.push(keep);\n                self.vector.extend_from_slice(&buff[..buff.len() - 1]);\n                self.vector.push(buff[buff.len() - 2 + (buff.len() & 1)]);\n            } else {\n                self.vector[self.offset..new_offset].copy_from_slice(buff);\n            }")],
PRE+'''
fn main(){ for (k,n) in [(1usize,2usize),(2,4),(3,3),(1,1),(0,4)] { let mut w=VecWriter::new(); w.write_all(&[9u8;20][..k+n]).unwrap(); w.set_offset(k);
 let b:Vec<u8>=(1..=n as u8).collect(); w.write_all(&b).unwrap(); let mut e=vec![9u8;k]; e.extend_from_slice(&b); assert_eq!(w.as_slice(), &e[..]); assert_eq!(w.get_offset(), k+n);} }''',
'a block write of even length that ends exactly at the end of the existing data, from an offset above 0','the last byte written is wrong')
mkseed('C07-skip-budget-large','C07',[('src/io/mod.rs',"        if self.available > 0 {\n            let ret = self.source.skip(self.available);\n            if ret.is_ok() {\n                self.available = 0;\n            }\n            ret","        if self.available > 0 {\n            let ret = self.source.skip(self.available & 0xFFFF);\n            if ret.is_ok() {\n                self.available = 0;\n            }\n            ret")],
PRE+'''
fn main(){ let d=vec![1u8;70001]; let mut r=ByteArrayReader::new(&d); { let mut l=LimitedReader::new(&mut r, 70000); l.goto_end().unwrap(); assert_eq!(l.available(),0);} assert_eq!(r.offset(), 70000);}''',
'a limit of 65536 bytes or more, then goto_end','the source stops short of the limit')
