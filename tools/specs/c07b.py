id="c07-hdr-old-rle-cut"; prop="C07"; features=["hdr"]
edits=[("src/codecs/hdr/decoder.rs","    while x_off < width {\n        let pix = read_rgbe(r)?;","    while x_off < width {\n        let pix = match read_rgbe(r) {\n            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof && x_off + 1 == width => prev_pixel,\n            pix => pix?,\n        };")]
needs="a Radiance file with scanlines of the old encoding, cut before the last pixel of a scanline"
breaks="the missing pixel is a copy of the one before"
demo='''
use image::*;
fn main(){
  let mut f=b"#?RADIANCE\\nFORMAT=32-bit_rle_rgbe\\n\\n-Y 2 +X 4\\n".to_vec();
  for k in 0..8u8 { f.extend([k*10+5,k,200-k,129]); }
  assert!(load_from_memory_with_format(&f,ImageFormat::Hdr).is_ok());
  for cut in 1..32 { assert!(load_from_memory_with_format(&f[..f.len()-cut],ImageFormat::Hdr).is_err(),"{cut}"); }
}
'''
