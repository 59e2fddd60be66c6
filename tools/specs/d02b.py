id="d02-fast-blur-kept-boxes"; prop="D02"; features=[]
edits=[("src/imageops/fast_blur.rs","    let boxes = boxes_for_gauss(sigma, num_passes);","    // the radius rarely changes between calls\n    static LAST: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(u32::MAX);\n    static BOXES: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());\n    if LAST.load(std::sync::atomic::Ordering::Acquire) != sigma.to_bits() {\n        *BOXES.lock().unwrap() = boxes_for_gauss(sigma, num_passes);\n        LAST.store(sigma.to_bits(), std::sync::atomic::Ordering::Release);\n    }\n    let boxes = BOXES.lock().unwrap().clone();")]
needs="fast blurs with different radii running at the same time on several threads"
breaks="a blur may use the boxes of another thread's radius"
demo='''
use image::*;
fn main(){
  let i=GrayImage::from_fn(5,5,|x,y|Luma([(x*29^y*53) as u8]));
  let s=[0.6f32,1.1,1.9,2.7,0.9,3.3,1.4,2.2];
  let want:Vec<_>=s.iter().map(|&s|imageops::fast_blur(&i,s)).collect();
  let bad=std::sync::atomic::AtomicU32::new(0);
  std::thread::scope(|t|for k in 0..8 { let (i,want,bad)=(&i,&want,&bad); t.spawn(move||{
    for n in 0..8000 { let j=(k+n)%8; if imageops::fast_blur(i,s[j])!=want[j] { bad.fetch_add(1,std::sync::atomic::Ordering::Relaxed); } }
  }); });
  assert_eq!(bad.into_inner(),0);
}
'''
