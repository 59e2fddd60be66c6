id="c05-tga-wide-index"; prop="C05"; features=["tga"]
edits=[("src/codecs/tga/decoder.rs","            for byte in bytes.iter().rev() {\n                result = (result << 8) | *byte as usize;","            for byte in bytes.iter() {\n                result = (result << 8) | *byte as usize;")]
needs="a colour-mapped TGA with two-byte indices that are not symmetric"
breaks="two-byte indices are read in the wrong byte order"
demo='''
use image::*;
fn main(){
  let n=700u16;
  let mut f=vec![0u8,1,1,0,0]; f.extend(n.to_le_bytes()); f.push(24); f.extend([0,0,0,0]); f.extend(2u16.to_le_bytes()); f.extend(1u16.to_le_bytes()); f.extend([16,0x20]);
  for i in 0..n { f.extend([i as u8,(i>>8) as u8,7]); }
  f.extend(514u16.to_le_bytes()); f.extend(258u16.to_le_bytes());
  let i=load_from_memory_with_format(&f,ImageFormat::Tga).unwrap().to_rgb8();
  assert_eq!(i.as_raw()[..],[7,2,2,7,1,2]);
  f.truncate(f.len()-4); f.extend(513u16.to_le_bytes()); f.extend(1u16.to_le_bytes());
  let i=load_from_memory_with_format(&f,ImageFormat::Tga).unwrap().to_rgb8();
  assert_eq!(i.as_raw()[..],[7,2,1,7,0,1]);
}
'''
