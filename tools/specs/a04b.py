id="a04-nested-past-middle"; prop="A04"; features=[]
edits=[("src/image.rs","    ) -> SubImage<&mut I::Target> {\n        assert!(u64::from(x) + u64::from(width) <= u64::from(self.inner.width()));","    ) -> SubImage<&mut I::Target> {\n        assert!(\n            u64::from(self.inner.xoffset) + u64::from(x) + u64::from(width)\n                <= u64::from(self.inner.image.width())\n        );")]
needs="a mutable sub-image of a sub-image that is wider than its parent but fits its grandparent"
breaks="the request is granted and reaches pixels outside the sub-image"
demo='''
use image::*;
fn main(){
  std::panic::set_hook(Box::new(|_|()));
  let mut i=GrayImage::new(9,4);
  let ok=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||{ let mut s=i.sub_image(1,1,3,2); let t=s.sub_image(1,0,4,1); t.dimensions() }));
  if ok.is_ok() { std::process::exit(1) }
}
'''
