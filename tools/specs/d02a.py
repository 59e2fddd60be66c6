id="d02-huerotate-shared-matrix"; prop="D02"; features=[]
edits=[("src/imageops/colorops.rs","    let mut out = ImageBuffer::new(width, height);\n\n    let angle: f64 = NumCast::from(value).unwrap();\n\n    let cosv = angle.to_radians().cos();\n    let sinv = angle.to_radians().sin();\n    let matrix: [f64; 9] = [\n","    let mut out = ImageBuffer::new(width, height);\n\n    // Neighbouring calls tend to use the same angle, so its sine and cosine are kept.\n    use std::sync::atomic::{AtomicI32, AtomicU64, Ordering::SeqCst};\n    static ANGLE: AtomicI32 = AtomicI32::new(0);\n    static COS: AtomicU64 = AtomicU64::new(0x3FF0_0000_0000_0000);\n    static SIN: AtomicU64 = AtomicU64::new(0);\n    if ANGLE.load(SeqCst) != value {\n        let angle: f64 = NumCast::from(value).unwrap();\n        COS.store(angle.to_radians().cos().to_bits(), SeqCst);\n        SIN.store(angle.to_radians().sin().to_bits(), SeqCst);\n        ANGLE.store(value, SeqCst);\n    }\n    let cosv = f64::from_bits(COS.load(SeqCst));\n    let sinv = f64::from_bits(SIN.load(SeqCst));\n    let matrix: [f64; 9] = [\n")]
needs="two threads rotating the hue by different angles at the same moment"
breaks="a thread uses the sine or cosine of another thread's angle"
demo='''
use image::*;
fn main(){
  let i=RgbImage::from_fn(2,1,|x,_|Rgb([200,x as u8*90,30]));
  let want:Vec<_>=(0..8).map(|k|imageops::huerotate(&i,k*40+10)).collect();
  std::thread::scope(|s|{ for k in 0..8usize { let (i,w)=(&i,&want[k]); s.spawn(move||{ for _ in 0..200000 { assert_eq!(&imageops::huerotate(i,k as i32*40+10),w); } }); } });
}
'''
