id="c07-ico-mask-cut"; prop="C07"; features=["ico"]
edits=[("src/codecs/ico/decoder.rs","                            let mask_byte = r.read_u8()?;\n","                            let mask_byte = r.read_u8().unwrap_or(0);\n")]
needs="an ICO with a bitmap entry that is cut within, or fails to be read in, its transparency mask"
breaks="the rest of the mask is taken as opaque and decoding succeeds"
demo='''
use image::*;
fn main(){
  let (w,h)=(3u32,2u32);
  let mut b=Vec::new(); b.extend(40u32.to_le_bytes()); b.extend((w as i32).to_le_bytes()); b.extend((2*h as i32).to_le_bytes()); b.extend(1u16.to_le_bytes()); b.extend(32u16.to_le_bytes());
  b.extend([0u8;24]); for i in 0..w*h { b.extend([i as u8,2,3,255]); } b.extend([0x80,0,0,0,0x40,0,0,0]);
  let mut f=vec![0,0,1,0,1,0,w as u8,h as u8,0,0,1,0,32,0]; f.extend((b.len() as u32).to_le_bytes()); f.extend(22u32.to_le_bytes()); f.extend(&b);
  load_from_memory_with_format(&f,ImageFormat::Ico).unwrap();
  for cut in 1..8 { assert!(load_from_memory_with_format(&f[..f.len()-cut],ImageFormat::Ico).is_err(),"cut {cut}"); }
}
'''
