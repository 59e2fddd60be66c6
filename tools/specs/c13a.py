id="c13-exif-many-entries"; prop="C13"; features=["jpeg"]
edits=[("src/metadata.rs","                let entries = reader.read_u16::<BigEndian>().ok()?;\n                for _ in 0..entries {","                let entries = reader.read_u16::<BigEndian>().ok()?;\n                for _ in 0..entries.min(32) {")]
needs="a big-endian Exif block whose orientation entry is not among the first 32 of its directory"
breaks="the orientation is not found"
demo='''
use image::*;
fn main(){
  let mut ex=vec![0x4d,0x4d,0,42,0,0,0,8]; ex.extend(41u16.to_be_bytes());
  for i in 0..40u16 { ex.extend((0x100+i.min(0x10)).to_be_bytes()); ex.extend(4u16.to_be_bytes()); ex.extend(1u32.to_be_bytes()); ex.extend(0u32.to_be_bytes()); }
  ex.extend(0x112u16.to_be_bytes()); ex.extend(3u16.to_be_bytes()); ex.extend(1u32.to_be_bytes()); ex.extend(6u16.to_be_bytes()); ex.extend(0u16.to_be_bytes());
  ex.extend(0u32.to_be_bytes());
  let mut m=Vec::new(); RgbImage::new(2,2).write_to(&mut std::io::Cursor::new(&mut m),ImageFormat::Jpeg).unwrap();
  let mut body=b"Exif\\0\\0".to_vec(); body.extend(&ex);
  let mut f=m[..2].to_vec(); f.extend([0xff,0xe1]); f.extend((body.len() as u16+2).to_be_bytes()); f.extend(body); f.extend(&m[2..]);
  let mut d=codecs::jpeg::JpegDecoder::new(std::io::Cursor::new(f)).unwrap();
  assert_eq!(d.orientation().unwrap(), metadata::Orientation::Rotate90);
}
'''
