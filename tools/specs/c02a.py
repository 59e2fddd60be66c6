id="c02-tga-run-ignores-alpha"; prop="C02"; features=["tga"]
edits=[("src/codecs/tga/encoder.rs","        let mut prev_pixel = None;","        let mut prev_pixel: Option<&[u8]> = None;"),("src/codecs/tga/encoder.rs","                if pixel == prev {","                let color_bytes = pixel.len().min(3);\n                if pixel[..color_bytes] == prev[..color_bytes] {")]
needs="neighbouring pixels of the same colour that differ in alpha"
breaks="the run-length encoder joins them into one run with the alpha of the last"
demo='''
use image::*;
fn main(){
  let i=RgbaImage::from_fn(9,3,|x,_|Rgba([10,20,30,if x<5 {255} else {(x*20) as u8}]));
  let mut o=std::io::Cursor::new(Vec::new()); i.write_to(&mut o,ImageFormat::Tga).unwrap();
  assert_eq!(load_from_memory_with_format(o.get_ref(),ImageFormat::Tga).unwrap().to_rgba8(),i);
}
'''
