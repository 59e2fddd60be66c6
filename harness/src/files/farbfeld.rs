//! farbfeld: magic, two big-endian sizes, RGBA16 big-endian samples.
use super::*;

pub fn gen(r: &mut Rng) -> FileCase {
    let (w, h) = dims(r);
    let n = (w * h * 4) as usize;
    let px: Vec<u16> = (0..n).map(|_| if r.chance(1, 4) { *r.pick(&[0, 1, 255, 256, 65535, 0x7fff]) } else { r.u16() }).collect();
    let mut f = FileCase::new(image::ImageFormat::Farbfeld, "farbfeld", w, h, ColorType::Rgba16);
    f.bytes = b"farbfeld".to_vec();
    be32(&mut f.bytes, w);
    be32(&mut f.bytes, h);
    for v in &px {
        be16(&mut f.bytes, *v);
        f.px.extend_from_slice(&v.to_ne_bytes());
    }
    f.data_end = f.bytes.len();
    f
}
