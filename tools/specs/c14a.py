id="c14-save-keeps-old-tail"; prop="C14"; features=["bmp","png"]
edits=[("src/image_reader/free_functions.rs","    let buffered_file_write = &mut BufWriter::new(File::create(path)?); // always seekable\n","    let file = File::options().write(true).create(true).open(path)?;\n    let buffered_file_write = &mut BufWriter::new(file); // always seekable\n")]
needs="saving to a path that already holds a longer file"
breaks="the end of the old file stays behind the new image"
demo='''
use image::*;
fn main(){
  let p=std::env::current_dir().unwrap().join("t.bmp");
  RgbImage::new(40,40).save(&p).unwrap();
  let small=RgbImage::from_fn(3,3,|x,y|Rgb([x as u8,y as u8,7]));
  small.save(&p).unwrap();
  let mut m=std::io::Cursor::new(Vec::new()); small.write_to(&mut m,ImageFormat::Bmp).unwrap();
  assert_eq!(std::fs::read(&p).unwrap(), m.into_inner());
}
'''
