id="c10-gif-frame-before-limit"; prop="C10"; features=["gif"]
edits=[("src/codecs/gif.rs","            self.limits.reserve_usize(buffer_size)?;\n            let mut frame_buffer = vec![0; buffer_size];\n","            let mut frame_buffer = vec![0; buffer_size];\n            self.limits.reserve_usize(buffer_size)?;\n")]
needs="a GIF whose first frame is much larger than its canvas, under an allocation limit"
breaks="the memory of the frame is taken before the limit is consulted"
deps='gif = "*"'
demo='''
use image::*;use std::alloc::*;use std::sync::atomic::*;
struct A; static MAX:AtomicUsize=AtomicUsize::new(0);
unsafe impl GlobalAlloc for A{
 unsafe fn alloc(&self,l:Layout)->*mut u8{MAX.fetch_max(l.size(),Ordering::SeqCst);System.alloc(l)}
 unsafe fn alloc_zeroed(&self,l:Layout)->*mut u8{MAX.fetch_max(l.size(),Ordering::SeqCst);System.alloc_zeroed(l)}
 unsafe fn dealloc(&self,p:*mut u8,l:Layout){System.dealloc(p,l)}
}
#[global_allocator] static G:A=A;
fn main(){
  let mut out=Vec::new();
  { let mut e=gif::Encoder::new(&mut out,8,8,&[0,0,0,255,255,255]).unwrap();
    let mut f=gif::Frame::default(); f.width=3000; f.height=3000; f.buffer=vec![1u8;9000000].into(); e.write_frame(&f).unwrap(); }
  let mut d=codecs::gif::GifDecoder::new(std::io::Cursor::new(out)).unwrap();
  let mut l=Limits::no_limits(); l.max_alloc=Some(1<<20); d.set_limits(l).unwrap();
  MAX.store(0,Ordering::SeqCst);
  let mut b=vec![0u8;256]; let r=d.read_image(&mut b);
  assert!(r.is_err());
  assert!(MAX.load(Ordering::SeqCst)<(8<<20),"{}",MAX.load(Ordering::SeqCst));
}
'''
