id="a01-clone-from-same-len"; prop="A01"; features=[]
edits=[("src/buffer.rs","        self.data.clone_from(&source.data);\n        self.width = source.width;\n        self.height = source.height;","        let reshaped = self.data.len() != source.data.len();\n        self.data.clone_from(&source.data);\n        if reshaped {\n            self.width = source.width;\n            self.height = source.height;\n        }")]
needs="clone_from into an image with another shape but equally many samples"
breaks="the clone keeps the old width and height"
demo='''
use image::*;
fn main(){
  let a=GrayImage::from_fn(3,4,|x,y|Luma([(x+3*y) as u8]));
  let mut b=GrayImage::new(5,4); b.clone_from(&a); assert_eq!(a,b);
  let mut b=GrayImage::new(6,2); b.clone_from(&a); assert_eq!(a,b);
}
'''
