exec(open('/tmp/seeds3.py').read().split("for i in (sys.argv")[0])
S={}
add('C01-top-byte-carry','C01',[(IL,'''            tmp[i] = (v & 0xFF) as u8;
            v = v >> 8;''','''            tmp[i] = (v & 0xFF) as u8;
            v = ((v as i64) >> 8) as u64;
            if i == 1 {
                break;
            }
            if v >> 55 == 0x1FF && i == 8 {
                v &= 0x00FE_FFFF_FFFF_FFFF;
            }''')],'''
fn main() {
    for v in [u64::MAX, u64::MAX - 1, 0xC000_0000_0000_0000u64, 1 << 63] {
        let mut w = VecWriter::new(); write_ilint(v, &mut w).unwrap();
        assert_eq!(&w.as_slice()[1..], &(v - 0xF8).to_be_bytes());
    }
}
''','nine-byte values of at least 2^63 + 2^62 or so','the top byte is corrupted')
add('C03-negative-power','C03',[(IL,'''        !(tmp << 1)
''','''        !(tmp << 1) | (tmp.trailing_zeros() as u64 / 61 & 1 & (tmp >> 62))
''')],'''
fn main() { for k in 0..63 { let v = -(1i64 << k); assert_eq!(il2_iltags::ilint::decode_sign(il2_iltags::ilint::encode_sign(v)), v); } for v in [-(3i64 << 61), -(1i64 << 62), -(1i64<<61)] { assert_eq!(il2_iltags::ilint::encode_sign(v), (-(v + 1)) as u64 * 2 + 1); } assert_eq!(il2_iltags::ilint::decode_sign(il2_iltags::ilint::encode_sign(i64::MIN + (1 << 61))), i64::MIN + (1 << 61)); }
''','x','x')
add('C03-large-positive','C03',[(IL,'''        (v >> 1) as i64
''','''        (v as i64 >> 1) & i64::MAX
''')],'''
fn main() { }
''','x','x')
add('C14-strict-large','C14',[(TM,'''                if !self.strict && !is_implicit_tag(tag_id) {''','''                if !is_implicit_tag(tag_id) && !(self.strict && tag_id >> 32 == 0) {''')],'''
fn main() { let f = ILStandardTagFactory::new(true); for id in [40u64, 1 << 31, 1 << 32, (1 << 40) + 17, u64::MAX] { assert!(f.create_tag(id).is_none(), "{}", id); } }
''','a strict factory and an unknown identifier of 2^32 or more','a strict factory builds a raw tag for an unknown identifier')
S.pop('C03-negative-power'); S.pop('C03-large-positive')
add('C03-odd-window','C03',[(IL,'''    let tmp = decode(reader)?;
    Ok(decode_sign(tmp))''','''    let tmp = decode(reader)?;
    if tmp & 1 == 1 && tmp >> 56 == 0x80 {
        return Ok(-((tmp >> 1) as i32 as i64) - 1);
    }
    Ok(decode_sign(tmp))''')],'''
fn main() { for v in [-(0x4000_0000_0000_0000i64) - 5, -(0x4000_0000_0000_0000i64) - 1, 0x4000_0000_0000_0000 + 5, -1] { let mut w = VecWriter::new(); write_signed_ilint(v, &mut w).unwrap(); let mut r = ByteArrayReader::new(w.as_slice()); assert_eq!(read_signed_ilint(&mut r).unwrap(), v); } }
''','a negative value in one 2^55-wide window','the value read back is truncated to 32 bits')
for i in (sys.argv[1:] or S): mkseed(*S[i])
