id="c12-apng-previous-after-part"; prop="C12"; features=["png"]
edits=[("src/codecs/png.rs","            DisposeOp::None => {\n                previous.clone_from(current);\n            }\n","            DisposeOp::None => {\n                let (width, height) = current.dimensions();\n                if self.dispose_region == Some((0, 0, width, height)) {\n                    previous.clone_from(current);\n                }\n            }\n")]
needs="an APNG with a frame smaller than the canvas kept (dispose none), followed by a frame disposed to previous over it, and one more frame"
breaks="the frame restored by dispose-to-previous misses what the smaller frames before it drew"
deps='png = "*"'
demo='''
use image::*;
fn main(){
  let mut out=Vec::new();
  {
    let mut e=png::Encoder::new(&mut out,4,4);
    e.set_color(png::ColorType::Rgba); e.set_depth(png::BitDepth::Eight); e.set_animated(4,0).unwrap();
    e.set_dispose_op(png::DisposeOp::None);
    let mut w=e.write_header().unwrap();
    w.write_image_data(&[10,20,30,255].repeat(16)).unwrap();
    w.set_frame_dimension(2,2).unwrap(); w.set_dispose_op(png::DisposeOp::None).unwrap();
    w.write_image_data(&[90,90,90,255].repeat(4)).unwrap();
    w.set_dispose_op(png::DisposeOp::Previous).unwrap();
    w.write_image_data(&[200,0,0,255].repeat(4)).unwrap();
    w.set_frame_dimension(1,1).unwrap(); w.set_frame_position(3,3).unwrap(); w.set_dispose_op(png::DisposeOp::None).unwrap();
    w.write_image_data(&[1,2,3,255]).unwrap();
    w.finish().unwrap();
  }
  let d=codecs::png::PngDecoder::new(std::io::Cursor::new(out)).unwrap().apng().unwrap();
  let f=d.into_frames().collect_frames().unwrap();
  assert_eq!(f.len(),4);
  assert_eq!(f[3].buffer().get_pixel(0,0).0,[90,90,90,255]);
}
'''
