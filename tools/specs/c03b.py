id="c03-hdr-literal-split"; prop="C03"; features=["hdr"]
edits=[("src/codecs/hdr/encoder.rs","                                        Some(Norun(idx + NORUN_MAX_LEN, clen - NORUN_MAX_LEN));","                                        Some(Norun(idx + len, clen - NORUN_MAX_LEN));")]
needs="more than 128 bytes without a run in which a pair of equal bytes lies across the 128th"
breaks="a byte is written twice and the rest of the literal is off by one"
demo='''
use image::*;
fn main(){
  // mantissas 128.. all different, but for the pair at 127/128
  let i=Rgb32FImage::from_fn(200,1,|x,_|{ let x=if x>=128 {x-1} else {x}; Rgb([1.0,(x%100) as f32/128.0,0.0]) });
  let mut o=std::io::Cursor::new(Vec::new()); i.write_to(&mut o,ImageFormat::Hdr).unwrap();
  assert_eq!(load_from_memory_with_format(o.get_ref(),ImageFormat::Hdr).unwrap().to_rgb32f(),i);
}
'''
