id="c10-decode-reserves-pixels"; prop="C10"; features=["ff"]
edits=[("src/image_reader/image_reader_type.rs","        limits.reserve(decoder.total_bytes())?;","        let (width, height) = decoder.dimensions();\n        let channels = u64::from(decoder.color_type().channel_count());\n        limits.reserve((u64::from(width) * u64::from(height)).saturating_mul(channels))?;")]
needs="a 16-bit image decoded under an allocation limit between one and two bytes per sample"
breaks="the image is decoded although its buffer exceeds the limit"
demo='''
use image::*;
fn main(){
  for (img,full) in [(DynamicImage::new_rgba16(100,100),80000u64)] {
    let mut o=std::io::Cursor::new(Vec::new()); img.write_to(&mut o,ImageFormat::Farbfeld).unwrap();
    let go=|max| { let mut r=ImageReader::with_format(std::io::Cursor::new(o.get_ref().clone()),ImageFormat::Farbfeld); let mut l=Limits::default(); l.max_alloc=Some(max); r.limits(l); r.decode().is_ok() };
    assert!(go(full*4)); assert!(!go(full-1));
  }
}
'''
