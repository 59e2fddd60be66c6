id="a03-index-wraps"; prop="A03"; features=[]
edits=[("src/flat.rs","        Some(0usize)\n            .and_then(|b| b.checked_add(idx_c))\n            .and_then(|b| b.checked_add(idx_x))\n            .and_then(|b| b.checked_add(idx_y))\n","        idx_c.wrapping_add(idx_x).checked_add(idx_y)\n")]
needs="strides whose channel and column offsets overflow together although each of them fits"
breaks="the index of a sample wraps around instead of being absent"
demo='''
use image::flat::*;
fn main(){
  let l=SampleLayout{channels:2,channel_stride:usize::MAX-1,width:3,width_stride:3,height:1,height_stride:1};
  assert_eq!(l.index(1,1,0),None);
  assert_eq!(l.min_length(),None);
}
'''
