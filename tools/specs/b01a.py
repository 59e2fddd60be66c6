id="b01-rotate-middle-row"; prop="B01"
edits=[("src/imageops/affine.rs","        for x in 0..width / 2 {\n            let p = image.get_pixel(x, middle);","        for x in 0..width.saturating_sub(1) / 2 {\n            let p = image.get_pixel(x, middle);")]
needs="in-place 180 degree rotation of an image with odd height and even width: the two pixels at the centre of the middle row stay unswapped"
breaks="rotate180_in_place (and DynamicImage::apply_orientation(Rotate180)) no longer is the exact permutation"
demo='''
use image::*;
fn main(){
  let mut im = GrayImage::from_fn(4,5,|x,y|Luma([(x*7+y*31) as u8]));
  let o = im.clone();
  imageops::rotate180_in_place(&mut im);
  for y in 0..5 { for x in 0..4 { assert_eq!(im.get_pixel(x,y), o.get_pixel(3-x,4-y)); } }
}
'''
