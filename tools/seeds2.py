import sys; sys.path.insert(0,'/tmp')
from mkseed import mkseed
F='src/io/data/mod.rs'
mkseed('C04-nan-canonical','C04',[(F,'''    let tmp: u64 = read_u64(reader)?;
    Ok(f64::from_bits(tmp))''','''    let tmp: u64 = read_u64(reader)?;
    let v = f64::from_bits(tmp);
    Ok(if v.is_nan() { f64::NAN } else { v })''')],'''
use il2_iltags::io::{array::*, data::*};
fn main() {
    for bits in [0x7FF8_0000_0000_0001u64, 0xFFF0_0000_0000_0001, 0x7FF8_DEAD_BEEF_0001, 0x4009_21FB_5444_2D18] {
        let b = bits.to_be_bytes();
        let mut r = ByteArrayReader::new(&b);
        assert_eq!(read_f64(&mut r).unwrap().to_bits(), bits);
    }
}
''','a NaN with a payload or a sign bit','read_f64 canonicalises every NaN, so the bit pattern is not preserved')
mkseed('C04-string-lossy-trailing','C04',[(F,'''    match String::from_utf8(tmp) {
        Ok(s) => Ok(s),
        _ => Err(ErrorKind::CorruptedData),
    }''','''    match String::from_utf8(tmp) {
        Ok(s) => Ok(s),
        // a character cut in half at the end of a fixed-size field is not corruption
        Err(e) if e.utf8_error().error_len().is_none() => {
            let n = e.utf8_error().valid_up_to();
            let mut b = e.into_bytes();
            b.truncate(n);
            String::from_utf8(b).map_err(|_| ErrorKind::CorruptedData)
        }
        _ => Err(ErrorKind::CorruptedData),
    }''')],'''
use il2_iltags::io::{array::*, data::*};
fn main() {
    for b in [&b"abc\\xE2\\x82"[..], &b"\\xF0\\x9F\\x98"[..], &b"x\\xC3"[..]] {
        let mut r = ByteArrayReader::new(b);
        assert!(read_string(&mut r, b.len()).is_err());
    }
    let s = "a\\u{20AC}".as_bytes();
    let mut r = ByteArrayReader::new(s);
    assert_eq!(read_string(&mut r, s.len()).unwrap(), "a\\u{20AC}");
}
''','a string whose last character is cut off in the middle of its UTF-8 sequence','invalid UTF-8 that ends in an incomplete sequence is accepted, dropping the partial character')
