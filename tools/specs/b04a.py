id="b04-fast-blur-wide-radius"; prop="B04"; features=[]
edits=[("src/imageops/fast_blur.rs","    let x = clamp(x, 0, width as isize - 1) as usize;\n","    let x = if x >= 2 * width as isize {\n        0\n    } else {\n        clamp(x, 0, width as isize - 1) as usize\n    };\n")]
needs="a fast blur whose box is wider than the image"
breaks="samples beyond twice the width are taken from the left edge instead of the right one"
demo='''
use image::*;
fn main(){
  let i=GrayImage::from_fn(4,1,|x,_|Luma([x as u8*60]));
  let o=imageops::fast_blur(&i,6.0);
  let m=GrayImage::from_fn(4,1,|x,_|*i.get_pixel(3-x,0));
  let n=imageops::fast_blur(&m,6.0);
  for x in 0..4 { assert!((o.get_pixel(x,0).0[0] as i32-n.get_pixel(3-x,0).0[0] as i32).abs()<=3,"{:?} {:?}",o,n); }
}
'''
