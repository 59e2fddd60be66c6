id="c06-tga-index-past-map"; prop="C06"; features=["tga"]
edits=[("src/codecs/tga/decoder.rs","        self.bytes.get(entry..entry + self.entry_size)","        (entry <= self.bytes.len()).then(|| &self.bytes[entry..entry + self.entry_size])")]
needs="a colour-mapped TGA with a pixel index exactly one past the end of its map"
breaks="decoding panics instead of failing"
demo='''
use image::*;
fn main(){
  let mut f=vec![0u8,1,1]; f.extend(3u16.to_le_bytes()); f.extend(4u16.to_le_bytes()); f.push(24); f.extend([0,0,0,0]); f.extend(2u16.to_le_bytes()); f.extend(1u16.to_le_bytes()); f.extend([8,0x20]);
  f.extend([1,2,3,4,5,6,7,8,9,10,11,12]); f.extend([3,6]);
  assert!(load_from_memory_with_format(&f,ImageFormat::Tga).is_ok());
  let n=f.len();
  for v in [8,7,1] { f[n-1]=v; assert!(load_from_memory_with_format(&f,ImageFormat::Tga).is_err()); }
}
'''
