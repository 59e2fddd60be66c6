id="b06-sample-nearest-bottom"; prop="B06"; features=[]
edits=[("src/imageops/sample.rs","    let vi = h as f32 * v - 0.5;\n    let vi = vi.max(0.).min((h.saturating_sub(1)) as f32);\n    interpolate_nearest(img, ui, vi)\n","    let vi = h as f32 * v - 0.5;\n    let vi = vi.max(0.).min((w.max(h).saturating_sub(1)) as f32);\n    interpolate_nearest(img, ui, vi)\n")]
needs="sampling the lower edge (v of 1, or close to it) of an image that is wider than high"
breaks="the nearest sample at the lower edge is absent"
demo='''
use image::*;
fn main(){
  let i=GrayImage::from_fn(4,2,|x,y|Luma([(x*10+y) as u8]));
  assert!(imageops::sample_nearest(&i,0.5,1.0).is_some());
}
'''
