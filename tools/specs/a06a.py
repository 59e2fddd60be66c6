id="a06-orientation-wide"; prop="A06"; features=[]
edits=[("src/dynimage.rs","                let mut new_image = image.rotate270();\n                new_image.fliph_in_place();\n","                let mut new_image = image.rotate270();\n                if new_image.width() > 1 && new_image.height() > 1 {\n                    new_image.fliph_in_place();\n                }\n")]
needs="the orientation transverse applied to an image of a single row"
breaks="the pixels of the resulting column image are not mirrored"
demo='''
use image::*;
fn main(){
  // one column image becomes a single row
  let i=GrayImage::from_fn(1,4,|_,y|Luma([y as u8]));
  let mut d=DynamicImage::ImageLuma8(i.clone());
  d.apply_orientation(metadata::Orientation::Rotate270FlipH);
  let e=imageops::flip_horizontal(&imageops::rotate270(&i));
  assert_eq!(d.into_luma8(),e);
}
'''
