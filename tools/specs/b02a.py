id="b02-replace-clipped-twice"; prop="B02"; features=[]
edits=[("src/imageops/mod.rs","    let origin_top_y = y.saturating_mul(-1).clamp(0, i64::from(top_height)) as u32;\n","    let origin_top_y = y.saturating_mul(-1).clamp(0, i64::from(top_height)) as u32;\n    // A top image cut on both sides is centred by the cut on its first side.\n    let origin_top_x = origin_top_x.min(top_width - x_range.min(top_width));\n    let origin_top_y = if max_y > i64::from(bottom_height) {\n        origin_top_y.min(bottom_height)\n    } else {\n        origin_top_y\n    };\n")]
needs="a top image placed more than one bottom height above the bottom image that still reaches past its lower edge"
breaks="the wrong rows of the top image are copied"
demo='''
use image::*;
fn main(){
  let top=GrayImage::from_fn(2,200,|_,y|Luma([y as u8]));
  let mut b=GrayImage::new(2,10);
  imageops::replace(&mut b,&top,0,-50);
  for y in 0..10 { assert_eq!(b.get_pixel(0,y).0[0],(y+50) as u8); }
}
'''
