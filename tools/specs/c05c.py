id="c05-dxt5-equal-alphas"; prop="C05"; features=["dds"]
edits=[("src/codecs/dxt.rs","    if alpha0 > alpha1 {\n        for i in 2..8u16 {","    if alpha0 >= alpha1 {\n        for i in 2..8u16 {")]
needs="a DXT5 block whose two alpha end points are equal, with a pixel of alpha index 6 or 7"
breaks="the pixel gets the end point instead of 0 or 255"
demo='''
use image::*;
fn main(){
  let mut f=b"DDS ".to_vec();
  for v in [124u32,0x81007,4,4,16,0,0] { f.extend(v.to_le_bytes()); }
  f.extend([0;44]);
  f.extend(32u32.to_le_bytes()); f.extend(4u32.to_le_bytes()); f.extend(b"DXT5"); f.extend([0;20]);
  f.extend(0x1000u32.to_le_bytes()); f.extend([0;16]);
  assert_eq!(f.len(),128);
  f.extend([100u8,100,0b11_110_000,0xff,0xff,0xff,0xff,0xff,0,0,0,0,0,0,0,0]);
  let d=codecs::dds::DdsDecoder::new(std::io::Cursor::new(f)).unwrap();
  let i=DynamicImage::from_decoder(d).unwrap().to_rgba8();
  let a:Vec<u8>=i.pixels().map(|p|p.0[3]).collect();
  assert_eq!(a[0],100); assert_eq!(a[1],0); assert_eq!(a[3],255);
}
'''
