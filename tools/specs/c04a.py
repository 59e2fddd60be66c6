id="c04-ico-even-offsets"; prop="C04"; features=["ico"]
edits=[("src/codecs/ico/encoder.rs","            offset += image.encoded_image.len() as u32;\n","            offset += (image.encoded_image.len() as u32).next_multiple_of(2);\n")]
needs="an ICO of several images of which one before the last has an odd number of encoded bytes"
breaks="the directory points one byte past the start of the following images"
demo='''
use image::*;use codecs::ico::*;
fn main(){
  let mut odd=None;
  for w in 1..60u32 { let px=vec![(w*7) as u8;(w*4) as usize]; let f=IcoFrame::as_png(&px,w,1,ExtendedColorType::Rgba8).unwrap();
    let mut o=Vec::new(); IcoEncoder::new(&mut o).encode_images(&[f]).unwrap();
    if o.len()%2==1 {odd=Some((w,px));break;} }
  let (w,px)=odd.unwrap();
  let a=IcoFrame::as_png(&px,w,1,ExtendedColorType::Rgba8).unwrap();
  let big=vec![9u8;100*100*4]; let b=IcoFrame::as_png(&big,100,100,ExtendedColorType::Rgba8).unwrap();
  let mut o=Vec::new(); IcoEncoder::new(&mut o).encode_images(&[a,b]).unwrap();
  let i=load_from_memory_with_format(&o,ImageFormat::Ico).unwrap();
  assert_eq!(i.to_rgba8().into_raw(),big);
}
'''
