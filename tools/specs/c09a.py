id="c09-gif-rows-below-frame"; prop="C09"; features=["gif"]
edits=[("src/codecs/gif.rs","            // this is only necessary in case the buffer is not zeroed\n            for b in blank_bottom {\n                *b = 0;\n            }\n","            // only the rows around the frame that were split off above it need clearing\n            if frame.top != 0 {\n                for b in blank_bottom {\n                    *b = 0;\n                }\n            }\n")]
needs="a GIF whose first frame spans the canvas width, starts at the top and ends above the bottom, decoded into a buffer that is not zeroed"
breaks="the rows below the frame keep the previous content of the caller's buffer"
deps='gif = "*"'
demo='''
use image::*;
fn main(){
  let mut out=Vec::new();
  { let mut e=gif::Encoder::new(&mut out,4,6,&[0,0,0,255,255,255]).unwrap();
    let mut f=gif::Frame::default(); f.width=4; f.height=3; f.buffer=vec![1u8;12].into(); e.write_frame(&f).unwrap(); }
  let d=codecs::gif::GifDecoder::new(std::io::Cursor::new(out)).unwrap();
  let mut b=vec![0xAAu8;4*6*4]; d.read_image(&mut b).unwrap();
  assert!(b[48..].iter().all(|v|*v==0));
}
'''
