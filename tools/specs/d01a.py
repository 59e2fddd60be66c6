id="d01-from-slice-shorter"; prop="D01"; features=[]
edits=[("src/color.rs","        assert_eq!(slice.len(), $channels);\n        unsafe { &*(slice.as_ptr() as *const $ident<T>) }\n","        assert!(slice.len() <= $channels);\n        unsafe { &*(slice.as_ptr() as *const $ident<T>) }\n")]
needs="making a pixel reference from a slice with fewer samples than the pixel has channels"
breaks="the pixel reference reads past the end of the slice"
demo='''
use image::*;
fn main(){
  let v=vec![1u16,2];
  assert!(std::panic::catch_unwind(||{ let p:&Rgba<u16>=Pixel::from_slice(&v[..]); p.0[3] }).is_err());
}
'''
