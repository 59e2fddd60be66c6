id="c09-full-width-pitch"; prop="C09"; features=["ff","bmp"]
edits=[("src/image.rs","        if x == 0 && width == u64::from(dimensions.0) && row_pitch == row_bytes {","        if x == 0 && width == u64::from(dimensions.0) && row_pitch >= row_bytes {")]
needs="a region as wide as the image read into a buffer with padded rows"
breaks="the rows are written without the padding"
demo='''
use image::*;
fn main(){
  let i=ImageBuffer::<Rgba<u16>,_>::from_fn(3,4,|x,y|Rgba([x as u16,y as u16,7,9]));
  let mut o=std::io::Cursor::new(Vec::new()); i.write_to(&mut o,ImageFormat::Farbfeld).unwrap();
  let mut d=codecs::farbfeld::FarbfeldDecoder::new(std::io::Cursor::new(o.into_inner())).unwrap();
  let pitch=3*8+16; let mut b=vec![0u8;pitch*2];
  d.read_rect(0,1,3,2,&mut b,pitch).unwrap();
  for y in 0..2u32 { for x in 0..3u32 { let at=y as usize*pitch+x as usize*8; let g=u16::from_ne_bytes([b[at+2],b[at+3]]); assert_eq!(g,(y+1) as u16); } }
}
'''
