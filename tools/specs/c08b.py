id="c08-ico-signature-one-read"; prop="C08"; features=["ico","png","bmp"]
edits=[("src/codecs/ico/decoder.rs","        r.read_exact(&mut signature)?;","        if r.read(&mut signature)? == 0 {\n            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());\n        }")]
needs="an icon of PNG entries from a source that delivers fewer than eight bytes at that point"
breaks="the entry is not recognised as PNG"
demo='''
use image::*; use std::io::*;
struct Dribble(Cursor<Vec<u8>>);
impl Read for Dribble { fn read(&mut self,b:&mut [u8])->Result<usize>{ let n=b.len().min(3); self.0.read(&mut b[..n]) } }
impl BufRead for Dribble { fn fill_buf(&mut self)->Result<&[u8]>{ let b=self.0.fill_buf()?; Ok(&b[..b.len().min(3)]) } fn consume(&mut self,n:usize){ self.0.consume(n) } }
impl Seek for Dribble { fn seek(&mut self,p:SeekFrom)->Result<u64>{ self.0.seek(p) } }
fn main(){
  let i=RgbaImage::from_fn(5,4,|x,y|Rgba([x as u8*9,y as u8*7,3,255]));
  let mut o=Cursor::new(Vec::new()); i.write_to(&mut o,ImageFormat::Ico).unwrap(); let o=o.into_inner();
  assert_eq!(load_from_memory_with_format(&o,ImageFormat::Ico).unwrap().to_rgba8(),i);
  let d=codecs::ico::IcoDecoder::new(Dribble(Cursor::new(o))).unwrap();
  assert_eq!(DynamicImage::from_decoder(d).unwrap().to_rgba8(),i);
}
'''
