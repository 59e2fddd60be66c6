id="b03-thumbnail-block-end"; prop="B03"
edits=[("src/imageops/sample.rs","        let right = clamp(\n            right,\n            <i64 as From<_>>::from(left) + 1,\n            <i64 as From<_>>::from(width),\n        ) as u32;\n","        let right = clamp(\n            right,\n            <i64 as From<_>>::from(left) + 1,\n            <i64 as From<_>>::from(width),\n        ) as u32;\n        let right = right.min(left + 1024);\n")]
needs="shrinking an image horizontally so far that one output pixel draws on more than 1024 source columns"
breaks="resize ignores the source pixels beyond the first 1024 contributing columns"
demo='''
use image::*;
fn main(){
  let im = GrayImage::from_fn(3000,2,|x,_|Luma([if x<1500 {0} else {200}]));
  let o = imageops::resize(&im,1,2,imageops::FilterType::Triangle);
  let v = o.get_pixel(0,0).0[0] as i32;
  assert!((v-100).abs()<=2,"{v}");
}
'''
