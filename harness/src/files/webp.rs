//! WebP containers around lossless streams made by the `image-webp` crate.
use super::*;

pub fn riff(o: &mut Vec<u8>, ty: &[u8; 4], d: &[u8]) {
    o.extend_from_slice(ty);
    le32(o, d.len() as u32);
    o.extend_from_slice(d);
    if d.len() % 2 == 1 {
        o.push(0);
    }
}
/// The VP8L chunk payload for pixels.
pub fn vp8l(w: u32, h: u32, px: &[u8], color: image_webp::ColorType) -> Vec<u8> {
    let mut o = vec![];
    let mut e = image_webp::WebPEncoder::new(std::io::Cursor::new(&mut o));
    let p = image_webp::EncoderParams::default();
    e.set_params(p);
    e.encode(px, w, h, color).unwrap();
    let at = o.windows(4).position(|v| v == b"VP8L").unwrap();
    let n = u32::from_le_bytes(o[at + 4..at + 8].try_into().unwrap()) as usize;
    o[at + 8..at + 8 + n].to_vec()
}
pub fn le24(o: &mut Vec<u8>, v: u32) {
    o.extend_from_slice(&v.to_le_bytes()[..3]);
}
pub fn finish(body: Vec<u8>) -> Vec<u8> {
    let mut o = b"RIFF".to_vec();
    le32(&mut o, body.len() as u32 + 4);
    o.extend_from_slice(b"WEBP");
    o.extend(body);
    o
}
pub fn vp8x(flags: u8, w: u32, h: u32) -> Vec<u8> {
    let mut d = vec![flags, 0, 0, 0];
    le24(&mut d, w - 1);
    le24(&mut d, h - 1);
    d
}
pub fn exif(r: &mut Rng, orientation: u8) -> Vec<u8> {
    // TIFF header, one or more entries
    let be = r.bool();
    let u16b = |v: u16| if be { v.to_be_bytes() } else { v.to_le_bytes() };
    let u32b = |v: u32| if be { v.to_be_bytes() } else { v.to_le_bytes() };
    let mut o = if be { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
    let gap = r.below(5) as usize * 2;
    o.extend(u32b(8 + gap as u32));
    o.extend(r.bytes(gap));
    let before = r.below(4) as u16;
    let after = r.below(3) as u16;
    o.extend(u16b(before + 1 + after));
    let mut junk = |o: &mut Vec<u8>, t: u16| {
        o.extend(u16b(t));
        o.extend(u16b(3));
        o.extend(u32b(1));
        let v = r.u16();
        o.extend(u16b(v));
        o.extend([0, 0]);
    };
    for i in 0..before {
        junk(&mut o, 256 + i);
    }
    o.extend(u16b(0x112));
    o.extend(u16b(3));
    o.extend(u32b(1));
    o.extend(u16b(orientation as u16));
    o.extend([0, 0]);
    for i in 0..after {
        junk(&mut o, 0x11a + i);
    }
    o.extend(u32b(0));
    let n = r.below(40) as usize;
    o.extend(r.bytes(n));
    o
}
pub fn gen(r: &mut Rng) -> FileCase {
    let (w, h) = dims(r);
    let alpha = r.bool();
    let ch = if alpha { 4 } else { 3 };
    let px = pixels(r, (w * h) as usize, ch);
    let d = vp8l(w, h, &px, if alpha { image_webp::ColorType::Rgba8 } else { image_webp::ColorType::Rgb8 });
    let ext = r.bool();
    let mut f = FileCase::new(
        image::ImageFormat::WebP,
        format!("webp lossless {}{}", if alpha { "rgba" } else { "rgb" }, if ext { " extended" } else { "" }),
        w,
        h,
        if alpha { ColorType::Rgba8 } else { ColorType::Rgb8 },
    );
    let mut body = vec![];
    if ext {
        if r.bool() {
            let k = r.range(1, 700) as usize;
            f.icc = Some(r.bytes(k));
        }
        if r.bool() {
            f.orientation = r.r32(1, 8) as u8;
            f.exif = Some(exif(r, f.orientation));
        }
        let xmp = r.chance(1, 4);
        let flags = if alpha { 16 } else { 0 } | if f.icc.is_some() { 32 } else { 0 } | if f.exif.is_some() { 8 } else { 0 } | if xmp { 4 } else { 0 };
        riff(&mut body, b"VP8X", &vp8x(flags, w, h));
        if let Some(p) = &f.icc {
            riff(&mut body, b"ICCP", p);
        }
        if r.chance(1, 5) {
            let u = r.bytes(11);
            riff(&mut body, b"ABCD", &u);
        }
        riff(&mut body, b"VP8L", &d);
        f.data_end = body.len() + 12 - 2;
        if let Some(p) = &f.exif {
            riff(&mut body, b"EXIF", p);
        }
        if xmp {
            riff(&mut body, b"XMP ", b"<x/>");
        }
    } else {
        riff(&mut body, b"VP8L", &d);
        f.data_end = body.len() + 12 - 2;
    }
    f.bytes = finish(body);
    f.px = px;
    f
}
