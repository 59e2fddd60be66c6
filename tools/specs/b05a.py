id="b05-hue-inplace-negative"; prop="B05"; features=[]
edits=[("src/imageops/colorops.rs","    let (width, height) = image.dimensions();\n\n    let angle: f64 = NumCast::from(value).unwrap();\n\n    let cosv = angle.to_radians().cos();\n    let sinv = angle.to_radians().sin();\n    let matrix: [f64; 9] = [\n        // Reds\n        0.213 + cosv * 0.787 - sinv * 0.213,\n        0.715 - cosv * 0.715 - sinv * 0.715,\n        0.072 - cosv * 0.072 + sinv * 0.928,\n        // Greens\n        0.213 - cosv * 0.213 + sinv * 0.143,\n        0.715 + cosv * 0.285 + sinv * 0.140,\n        0.072 - cosv * 0.072 - sinv * 0.283,\n        // Blues\n        0.213 - cosv * 0.213 - sinv * 0.787,\n        0.715 - cosv * 0.715 + sinv * 0.715,\n        0.072 + cosv * 0.928 + sinv * 0.072,\n    ];\n\n    // TODO find a way","    let (width, height) = image.dimensions();\n\n    let angle = (value as i16) as f64;\n\n    let cosv = angle.to_radians().cos();\n    let sinv = angle.to_radians().sin();\n    let matrix: [f64; 9] = [\n        // Reds\n        0.213 + cosv * 0.787 - sinv * 0.213,\n        0.715 - cosv * 0.715 - sinv * 0.715,\n        0.072 - cosv * 0.072 + sinv * 0.928,\n        // Greens\n        0.213 - cosv * 0.213 + sinv * 0.143,\n        0.715 + cosv * 0.285 + sinv * 0.140,\n        0.072 - cosv * 0.072 - sinv * 0.283,\n        // Blues\n        0.213 - cosv * 0.213 - sinv * 0.787,\n        0.715 - cosv * 0.715 + sinv * 0.715,\n        0.072 + cosv * 0.928 + sinv * 0.072,\n    ];\n\n    // TODO find a way")]
needs="an angle outside the range of 16-bit integers, in the in-place form"
breaks="rotating in place by a large angle differs from the copying form"
demo='''
use image::*;
fn main(){
  let i=RgbImage::from_fn(3,3,|x,y|Rgb([x as u8*80,y as u8*90,30]));
  let mut j=i.clone(); let v=360*300+90;
  let c=imageops::huerotate(&i,v); imageops::colorops::huerotate_in_place(&mut j,v);
  assert_eq!(c,j);
}
'''
