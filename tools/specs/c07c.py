id="c07-pnm-last-row-cut"; prop="C07"; features=["pnm"]
edits=[("src/codecs/pnm/decoder.rs","                if bytes.len() != bytecount {","                let row = bytecount / (height.max(1) as usize);\n                if bytes.len() + row > bytecount && row > 1 && height > 2 {\n                    bytes.resize(bytecount, 0);\n                }\n                if bytes.len() != bytecount {")]
needs="a binary PNM file of three rows or more that ends within its last row"
breaks="the image is decoded with black pixels in place of the missing ones"
demo='''
use image::*;
fn main(){
  let mut f=b"P5 4 5 255\\n".to_vec(); f.extend([9u8;20]);
  assert!(load_from_memory_with_format(&f,ImageFormat::Pnm).is_ok());
  for n in 1..=20 { assert!(load_from_memory_with_format(&f[..f.len()-n],ImageFormat::Pnm).is_err(),"{n}"); }
}
'''
