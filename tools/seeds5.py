exec(open('/tmp/seeds3.py').read().split("for i in (sys.argv")[0])
S={}
add('C01-early-exit','C01',[(IL,'''            tmp[i] = (v & 0xFF) as u8;
            v = v >> 8;''','''            if v as u32 == 0 {
                break;
            }
            tmp[i] = (v & 0xFF) as u8;
            v = v >> 8;''')],'''
fn main() {
    for v in [0x0100_0000_0000_00F8u64, (7 << 40) + 0xF8 + 9, 5 << 32, 0xF8, 0x1F8] {
        let mut w = VecWriter::new(); write_ilint(v, &mut w).unwrap();
        let n = w.as_slice().len() - 1;
        assert_eq!(&w.as_slice()[1..], &(v - 0xF8).to_be_bytes()[8 - n..]);
    }
}
''','a value that, less 0xF8, has 32 consecutive zero bits aligned on a byte below its highest byte','the leading bytes of the body are lost')
for i in (sys.argv[1:] or S): mkseed(*S[i])
