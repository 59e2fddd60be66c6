id="c13-jpeg-icc-full-chunk"; prop="C13"; features=["jpeg"]
edits=[("src/codecs/jpeg/encoder.rs","        const MAX_CHUNK_SIZE: usize = 65533 - 14;","        const MAX_CHUNK_SIZE: usize = 65533 - 12;")]
needs="a colour profile of at least 65520 bytes written to JPEG"
breaks="the length of the full chunk's segment wraps around, the profile is lost"
demo='''
use image::*;
fn main(){
  for n in [10usize,60000,65518,65519,65520,65521,70000,140000] {
    let p:Vec<u8>=(0..n).map(|i|(i*7+i/251) as u8).collect();
    let mut o=Vec::new(); let mut e=codecs::jpeg::JpegEncoder::new(&mut o);
    e.set_icc_profile(p.clone()).unwrap();
    e.write_image(&[9u8;12],2,2,ExtendedColorType::Rgb8).unwrap();
    let mut d=codecs::jpeg::JpegDecoder::new(std::io::Cursor::new(o)).unwrap();
    assert!(d.icc_profile().unwrap()==Some(p),"{n}");
  }
}
'''
