id="c11-hdr-short-write"; prop="C11"; features=["hdr"]
edits=[("src/codecs/hdr/encoder.rs","                rle_compress(&bufe[..], &mut rle_buf);\n                w.write_all(&rle_buf[..])?;\n","                rle_compress(&bufe[..], &mut rle_buf);\n                if w.write(&rle_buf[..])? == 0 {\n                    return Err(std::io::Error::from(std::io::ErrorKind::WriteZero).into());\n                }\n")]
needs="a sink that takes fewer bytes than it is offered while the exponents of a run-length encoded row are written"
breaks="the bytes not taken are lost and encoding reports success"
demo='''
use image::*;use std::io::*;
struct One(Vec<u8>);
impl Write for One{fn write(&mut self,b:&[u8])->Result<usize>{let n=b.len().min(2);self.0.extend(&b[..n]);Ok(n)}fn flush(&mut self)->Result<()>{Ok(())}}
fn main(){
  let px:Vec<Rgb<f32>>=(0..64).map(|i|Rgb([1.5f32.powi(i%17),0.2,0.1])).collect();
  let mut a=Vec::new(); codecs::hdr::HdrEncoder::new(&mut a).encode(&px,16,4).unwrap();
  let mut b=One(Vec::new()); codecs::hdr::HdrEncoder::new(&mut b).encode(&px,16,4).unwrap();
  assert_eq!(a,b.0);
}
'''
