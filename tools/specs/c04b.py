id="c04-bmp-file-size-without-palette"; prop="C04"; features=["bmp"]
edits=[("src/codecs/bmp/encoder.rs","        let file_size = bmp_header_size\n            .checked_add(dib_header_size)\n            .and_then(|v| v.checked_add(palette_size))\n            .and_then(|v| v.checked_add(image_size))","        let file_size = bmp_header_size\n            .checked_add(dib_header_size)\n            .and_then(|v| v.checked_add(image_size))\n            .and_then(|v| v.checked_add(if palette.is_some() { 0 } else { palette_size }))")]
needs="an image written to BMP with a palette of its own"
breaks="the file size in the header leaves the palette out"
demo='''
use image::*;
fn main(){
  for pal in [None,Some([[1u8,2,3],[9,8,7]])] {
    let mut o=Vec::new();
    codecs::bmp::BmpEncoder::new(&mut o).encode_with_palette(&[0,1,1,0],2,2,ExtendedColorType::L8,pal.as_ref().map(|p|&p[..])).unwrap();
    assert_eq!(u32::from_le_bytes(o[2..6].try_into().unwrap()) as usize,o.len());
  }
}
'''
