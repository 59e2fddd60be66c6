id="c08-guess-from-one-read"; prop="C08"; features=["png"]
edits=[("src/image_reader/image_reader_type.rs","        let len = io::copy(\n            // Accept shorter files but read at most 16 bytes.\n            &mut self.inner.by_ref().take(16),\n            &mut Cursor::new(&mut start[..]),\n        )?;\n","        // Accept shorter files but read at most 16 bytes.\n        let len = self.inner.by_ref().read(&mut start)? as u64;\n")]
needs="a reader that delivers fewer than the bytes of the signature by its first read, or interrupts it"
breaks="the format is guessed from what the first read returned, so it is not recognised"
demo='''
use image::*;use std::io::*;
struct Slow(Cursor<Vec<u8>>);
impl Read for Slow{fn read(&mut self,b:&mut [u8])->Result<usize>{let n=b.len().min(3);self.0.read(&mut b[..n])}}
impl BufRead for Slow{fn fill_buf(&mut self)->Result<&[u8]>{let b=self.0.fill_buf()?;Ok(&b[..b.len().min(3)])}fn consume(&mut self,n:usize){self.0.consume(n)}}
impl Seek for Slow{fn seek(&mut self,p:SeekFrom)->Result<u64>{self.0.seek(p)}}
fn main(){
  let mut m=Cursor::new(Vec::new()); RgbImage::new(2,2).write_to(&mut m,ImageFormat::Png).unwrap();
  let r=ImageReader::new(Slow(Cursor::new(m.into_inner()))).with_guessed_format().unwrap();
  assert_eq!(r.format(),Some(ImageFormat::Png));
}
'''
