"""fifth batch: byte-wise forms of the fixed-width primitives"""
import sys,os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
src=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'benign.py')).read()
pre,run=src.split("if __name__=='__main__':")
pre=pre.split("B={")[0]
exec(pre)

B={}
DA='src/io/data/mod.rs'
def rd(T,w,body): return (DA,"    let mut tmp: [u8; %d] = [0; %d];\n    reader.read_all(&mut tmp)?;\n    Ok(%s::from_be_bytes(tmp))"%(w,w,T),body)
def rb(T,w,e): return rd(T,w,"    let mut tmp: [u8; %d] = [0; %d];\n    reader.read_all(&mut tmp)?;\n    Ok(%s)"%(w,w,e))
def wr(T,body): return (DA,"pub fn write_%s(v: %s, writer: &mut dyn Writer) -> Result<()> {\n    writer.write_all(&v.to_be_bytes())"%(T,T),"pub fn write_%s(v: %s, writer: &mut dyn Writer) -> Result<()> {\n"%(T,T)+body)

B.update({
'r32-two-u16':(['C04'],[rd('u32',4,"    let hi = read_u16(reader)?;\n    let lo = read_u16(reader)?;\n    Ok(((hi as u32) << 16) | lo as u32)")]),
'r32-two-u16-add':(['C04'],[rd('u32',4,"    let hi = read_u16(reader)? as u32;\n    let lo = read_u16(reader)? as u32;\n    Ok(hi * 0x1_0000 + lo)")]),
'r64-two-u32':(['C04'],[rd('u64',8,"    let hi = read_u32(reader)?;\n    let lo = read_u32(reader)?;\n    Ok(((hi as u64) << 32) | lo as u64)")]),
'r16-shift':(['C04'],[rb('u16',2,'((tmp[0] as u16) << 8) | tmp[1] as u16')]),
'r32-shift':(['C04'],[rb('u32',4,'((tmp[0] as u32) << 24) | ((tmp[1] as u32) << 16) | ((tmp[2] as u32) << 8) | (tmp[3] as u32)')]),
'r64-shift':(['C04'],[rb('u64',8,' | '.join('((tmp[%d] as u64) << %d)'%(i,56-8*i) for i in range(7))+' | (tmp[7] as u64)')]),
'r16-two-u8':(['C04'],[rd('u16',2,"    let hi = read_u8(reader)?;\n    let lo = read_u8(reader)?;\n    Ok(u16::from_be_bytes([hi, lo]))")]),
'r16-two-u8s':(['C04'],[rd('u16',2,"    let hi = read_u8(reader)? as u16;\n    let lo = read_u8(reader)? as u16;\n    Ok((hi << 8) | lo)")]),
'ri32-via-u32':(['C04'],[rd('i32',4,"    Ok(read_u32(reader)? as i32)")]),
'ri64-via-u64':(['C04'],[rd('i64',8,"    let v = read_u64(reader)?;\n    Ok(v as i64)")]),
'rf64-via-u64':(['C04'],[(DA,"pub fn read_f64(reader: &mut dyn Reader) -> Result<f64> {","pub fn read_f64(reader: &mut dyn Reader) -> Result<f64> {\n    if true {\n        let v = read_u64(reader)?;\n        return Ok(f64::from_bits(v));\n    }")]),
'w16-shift':(['C04'],[wr('u16',"    let tmp: [u8; 2] = [(v >> 8) as u8, v as u8];\n    writer.write_all(&tmp)")]),
'w32-shift':(['C04'],[wr('u32',"    let tmp: [u8; 4] = [(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8];\n    writer.write_all(&tmp)")]),
'w32-mask':(['C04'],[wr('u32',"    let tmp: [u8; 4] = [((v >> 24) & 0xFF) as u8, ((v >> 16) & 0xFF) as u8, ((v >> 8) & 0xFF) as u8, (v & 0xFF) as u8];\n    writer.write_all(&tmp)")]),
'w64-shift':(['C04'],[wr('u64',"    let tmp: [u8; 8] = [(v >> 56) as u8, (v >> 48) as u8, (v >> 40) as u8, (v >> 32) as u8, (v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8];\n    writer.write_all(&tmp)")]),
'w32-two-u16':(['C04'],[wr('u32',"    write_u16((v >> 16) as u16, writer)?;\n    write_u16(v as u16, writer)")]),
'w64-two-u32':(['C04'],[wr('u64',"    write_u32((v >> 32) as u32, writer)?;\n    write_u32(v as u32, writer)")]),
'wi32-via-u32':(['C04'],[wr('i32',"    write_u32(v as u32, writer)")]),
'w16-two-u8':(['C04'],[wr('u16',"    write_u8((v >> 8) as u8, writer)?;\n    write_u8((v & 0xFF) as u8, writer)")]),
'wf32-via-u32':(['C04'],[wr('f32',"    write_u32(v.to_bits(), writer)")]),
})
exec("if __name__=='__main__':"+run)
