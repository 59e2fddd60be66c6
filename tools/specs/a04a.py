id="a04-copy-within-row-order"; prop="A04"
edits=[("src/buffer.rs","        if sy < dy {\n            for y in (0..height).rev() {","        if sy < dy && dy - sy + 1 < height {\n            for y in (0..height).rev() {")]
needs="copying a rectangle within a buffer downwards by exactly one row less than its height: the last source row is overwritten before it is read"
breaks="copy_within on ImageBuffer no longer acts as if through a temporary copy"
demo='''
use image::*;
fn main(){
  let o = GrayImage::from_fn(6,6,|x,y|Luma([(x+y*6) as u8]));
  let mut im = o.clone();
  assert!(im.copy_within(math::Rect{x:2,y:0,width:4,height:3},0,2));
  for y in 0..3 { for x in 0..4 { assert_eq!(im.get_pixel(x,y+2), o.get_pixel(x+2,y)); } }
}
'''
