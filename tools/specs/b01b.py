id="b01-rotate270-into-same-area"; prop="B01"; features=[]
edits=[("src/imageops/affine.rs","    if w0 != h1 || h0 != w1 {\n        return Err(ImageError::Parameter(ParameterError::from_kind(\n            ParameterErrorKind::DimensionMismatch,\n        )));\n    }\n\n    for y in 0..h0 {\n        for x in 0..w0 {\n            let p = image.get_pixel(x, y);\n            destination.put_pixel(y, w0 - x - 1, p);","    if w0 > h1 || h0 != w1 {\n        return Err(ImageError::Parameter(ParameterError::from_kind(\n            ParameterErrorKind::DimensionMismatch,\n        )));\n    }\n\n    for y in 0..h0 {\n        for x in 0..w0 {\n            let p = image.get_pixel(x, y);\n            destination.put_pixel(y, h1 - x - 1, p);")]
needs="rotating by 270 degrees into a destination taller than the result"
breaks="the mismatch is accepted and part of the destination keeps its old content"
demo='''
use image::*;
fn main(){
  let i=GrayImage::new(3,2);
  let mut d=GrayImage::new(2,3); imageops::rotate270_in(&i,&mut d).unwrap();
  let mut d=GrayImage::new(2,4); assert!(imageops::rotate270_in(&i,&mut d).is_err());
  let mut d=GrayImage::new(3,2); assert!(imageops::rotate270_in(&i,&mut d).is_err());
}
'''
