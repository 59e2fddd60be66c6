id="c12-frame-clone-from-offsets"; prop="C12"; features=[]
edits=[("src/animation.rs","        self.left = source.left;\n        self.top = source.top;\n        self.buffer.clone_from(&source.buffer);","        if self.buffer.dimensions() != source.buffer.dimensions() {\n            self.left = source.left;\n            self.top = source.top;\n        }\n        self.buffer.clone_from(&source.buffer);")]
needs="clone_from between frames of equal size at different offsets"
breaks="the clone keeps its old offsets"
demo='''
use image::*;
fn main(){
  let f=Frame::from_parts(RgbaImage::new(2,2),3,4,Delay::from_numer_denom_ms(5,1));
  let mut g=Frame::new(RgbaImage::new(1,1)); g.clone_from(&f); assert_eq!((g.left(),g.top()),(3,4));
  let mut g=Frame::new(RgbaImage::new(2,2)); g.clone_from(&f); assert_eq!((g.left(),g.top()),(3,4));
}
'''
