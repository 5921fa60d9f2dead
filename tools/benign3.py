"""third batch of behaviour-preserving edits: arithmetic instead of bit operations, and the like (same use as benign.py)"""
import sys,os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
src=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'benign.py')).read()
pre,run=src.split("if __name__=='__main__':")
pre=pre.split("B={")[0]
exec(pre)
IL='src/ilint/mod.rs'; IM='src/tags/standard/implicit/mod.rs'; TM='src/tags/mod.rs'; FA='src/tags/standard/factory/mod.rs'; RAW='src/tags/raw/mod.rs'; SIO='src/io/std_io/mod.rs'; SER='src/tags/serialization/mod.rs'; UT='src/tags/util/mod.rs'; AR='src/io/array/mod.rs'; DA='src/io/data/mod.rs'; PAY='src/tags/payload/mod.rs'; IO='src/io/mod.rs'
B={
'body-or':(['C02'],[(IL,'v = (v << 8) + (*x as u64);','v = (v << 8) | (*x as u64);')]),
'body-or-assign':(['C02'],[(IL,'v = (v << 8) + (*x as u64);','v <<= 8;\n            v |= u64::from(*x);')]),
'body-mul':(['C02'],[(IL,'v = (v << 8) + (*x as u64);','v = v.wrapping_mul(256).wrapping_add(*x as u64);')]),
'body-mul2':(['C02'],[(IL,'v = (v << 8) + (*x as u64);','v = v * 256 + *x as u64;')]),
'body-deref-pattern':(['C02'],[(IL,'for x in body {\n            v = (v << 8) + (*x as u64);','for &x in body {\n            v = (v << 8) + x as u64;')]),
'body-iter':(['C02'],[(IL,'for x in body {','for x in body.iter() {')]),
'encode-cast':(['C01'],[(IL,'tmp[i] = (v & 0xFF) as u8;\n            v = v >> 8;','tmp[i] = v as u8;\n            v >>= 8;')]),
'encode-div':(['C01'],[(IL,'tmp[i] = (v & 0xFF) as u8;\n            v = v >> 8;','tmp[i] = (v % 256) as u8;\n            v /= 256;')]),
'encode-header':(['C01'],[(IL,'tmp[0] = (ILINT_BASE + ((size - 2) as u8)) as u8;','let extra = (size - 2) as u8;\n        tmp[0] = ILINT_BASE + extra;')]),
'decode-sign-zigzag':(['C03'],[(IL,'''    if v & 0x1 == 0 {
        (v >> 1) as i64
    } else {
        (!(v >> 1)) as i64
    }''','''    ((v >> 1) as i64) ^ -((v & 1) as i64)''')]),
'decode-sign-div':(['C03'],[(IL,'''    if v & 0x1 == 0 {
        (v >> 1) as i64
    } else {
        (!(v >> 1)) as i64
    }''','''    let half = (v / 2) as i64;
    if v % 2 == 0 {
        half
    } else {
        -half - 1
    }''')]),
'encode-sign-abs':(['C03'],[(IL,'''    let tmp = v as u64;

    if tmp & 0x8000_0000_0000_0000 == 0 {
        tmp << 1
    } else {
        !(tmp << 1)
    }''','''    if v < 0 {
        (!v as u64) * 2 + 1
    } else {
        v as u64 * 2
    }''')]),
'overflow-checked':(['C02'],[(IL,'''        if v > 0xFFFF_FFFF_FFFF_FF07 {
            Err(ErrorKind::ValueOverflow)
        } else {
            Ok(v + ILINT_BASE_U64)
        }''','''        match v.checked_add(ILINT_BASE_U64) {
            Some(r) => Ok(r),
            None => Err(ErrorKind::ValueOverflow),
        }''')]),
'overflow-max':(['C02'],[(IL,'v > 0xFFFF_FFFF_FFFF_FF07','v > u64::MAX - ILINT_BASE_U64')]),
'size-leading-zeros':(['C01'],[(IL,'''    match value {
        value if value < ILINT_BASE_U64 => 1,
        value if value <= (0xFF + ILINT_BASE_U64) => 2,''','''    if value < ILINT_BASE_U64 {
        return 1;
    }
    match value {
        value if value < (0x100 + ILINT_BASE_U64) => 2,''')]),
'implicit-lt':(['C09','C13'],[(TM,'id <= IMPLICIT_ID_MAX','id < IMPLICIT_ID_MAX + 1')]),
'size-order':(['C09'],[(TM,'size + value_size','value_size + size')]),
}
exec("if __name__=='__main__':"+run)
