id="a05-narrow-u16-truncates"; prop="A05"
edits=[("src/color.rs","        NumCast::from((from(c16) + 128) / 257).unwrap()","        NumCast::from((from(c16) * 255 + 32768) >> 16).unwrap()")]
needs="narrowing a 16-bit sample to 8 bit at one of the few values close to the middle between two 8-bit levels"
breaks="16 to 8 bit conversion is no longer rounding to nearest"
demo='''
use image::*;
fn main(){
  for v in 0..=65535u16 {
    let im = DynamicImage::ImageLuma16(ImageBuffer::from_pixel(1,1,Luma([v])));
    let g = im.to_luma8().get_pixel(0,0).0[0];
    assert_eq!(g as u32, (v as f64/257.0).round() as u32, "{v}");
  }
}
'''
