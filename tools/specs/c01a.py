id="c01-guess-rewinds-to-zero"; prop="C01"; features=["png"]
edits=[("src/image_reader/image_reader_type.rs","        self.inner.seek(SeekFrom::Start(cur))?;","        if len > 0 || cur == 0 {\n            self.inner.seek(SeekFrom::Start(cur & !0xf))?;\n        }")]
needs="guessing the format of a source that does not stand at a multiple of sixteen"
breaks="the source is not left where it stood"
demo='''
use image::*; use std::io::*;
fn main(){
  let mut o=Cursor::new(Vec::new()); GrayImage::new(2,2).write_to(&mut o,ImageFormat::Png).unwrap(); let o=o.into_inner();
  for skip in [0usize,16,5,31] {
    let mut f=vec![7u8;skip]; f.extend(&o);
    let mut c=Cursor::new(f); c.set_position(skip as u64);
    let r=ImageReader::new(c).with_guessed_format().unwrap();
    assert_eq!(r.format(),Some(ImageFormat::Png));
    assert_eq!(r.into_inner().position(),skip as u64);
  }
}
'''
