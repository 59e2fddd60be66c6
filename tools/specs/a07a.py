id="a07-invert-alpha-16"; prop="A07"; features=[]
edits=[("src/color.rs","        *self = LumaA([max - l[0], l[1]]);\n","        // fully transparent pixels have no color to invert\n        if l[1] != T::DEFAULT_MIN_VALUE {\n            *self = LumaA([max - l[0], l[1]]);\n        }\n")]
needs="inverting a gray-alpha pixel that is fully transparent"
breaks="the gray value of transparent pixels is not inverted"
demo='''
use image::*;
fn main(){ let mut p=LumaA([10u8,0]); p.invert(); assert_eq!(p.0,[245,0]); }
'''
