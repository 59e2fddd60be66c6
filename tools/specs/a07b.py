id="a07-blend-nearly-opaque"; prop="A07"; features=[]
edits=[("src/color.rs","impl<T: Primitive> Blend for LumaA<T> {\n    fn blend(&mut self, other: &LumaA<T>) {\n        if other.0[1].is_zero() {\n            return;\n        }\n","impl<T: Primitive> Blend for LumaA<T> {\n    fn blend(&mut self, other: &LumaA<T>) {\n        if other.0[1].to_u8() == Some(0) {\n            return;\n        }\n")]
needs="blending a grey pixel of floats whose alpha is below one"
breaks="a translucent source is taken for a transparent one"
demo='''
use image::*;
fn main(){
  let mut a=LumaA([0.2f32,1.0]); a.blend(&LumaA([0.8,0.5])); assert!((a.0[0]-0.5).abs()<1e-5,"{a:?}");
}
'''
