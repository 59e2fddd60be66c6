//! OpenEXR files written by the `exr` crate, with windows, compressions,
//! sample types and extra channels.
use super::*;
use ::exr::prelude::*;

pub fn gen(r: &mut Rng) -> FileCase {
    let (w, h) = (r.r32(1, 40), r.r32(1, 30));
    let alpha = r.bool();
    let half = r.chance(1, 3);
    let n = (w * h) as usize;
    let v: Vec<[f32; 4]> = (0..n)
        .map(|_| {
            std::array::from_fn(|_| {
                let x = match r.below(5) {
                    0 => *r.pick(&[0.0f32, 1.0, -1.0, 0.5, 60000.0]),
                    1 => r.f32() * 1000.0 - 500.0,
                    _ => r.f32(),
                };
                if half {
                    f16::from_f32(x).to_f32()
                } else {
                    x
                }
            })
        })
        .collect();
    // the display window may be smaller, larger or shifted
    let (ox, oy, dw, dh) = if r.chance(1, 3) { (r.irange(-9, 9) as i32, r.irange(-9, 9) as i32, r.r32(1, 45), r.r32(1, 35)) } else { (0, 0, w, h) };
    let (px, py) = if r.chance(1, 3) { (r.irange(-50, 50) as i32, r.irange(-50, 50) as i32) } else { (0, 0) };
    let (comp, cname) = match r.below(4) {
        0 => (Compression::Uncompressed, "raw"),
        1 => (Compression::RLE, "rle"),
        2 => (Compression::ZIP1, "zip1"),
        _ => (Compression::ZIP16, "zip16"),
    };
    let blocks = if r.bool() { Blocks::ScanLines } else { Blocks::Tiles(Vec2(16, 8)) };
    let line = match r.below(3) {
        0 => LineOrder::Increasing,
        1 => LineOrder::Decreasing,
        _ if matches!(blocks, Blocks::ScanLines) => LineOrder::Increasing,
        _ => LineOrder::Unspecified,
    };
    let enc = Encoding { compression: comp, blocks, line_order: line };
    let mk = |c: usize| -> FlatSamples {
        if half {
            FlatSamples::F16(v.iter().map(|p| f16::from_f32(p[c])).collect())
        } else {
            FlatSamples::F32(v.iter().map(|p| p[c]).collect())
        }
    };
    let mut list: SmallVec<[AnyChannel<FlatSamples>; 4]> = SmallVec::new();
    for (c, name) in ["R", "G", "B"].into_iter().enumerate() {
        list.push(AnyChannel::new(name, mk(c)));
    }
    if alpha {
        list.push(AnyChannel::new("A", mk(3)));
    }
    let extra = r.chance(1, 4);
    if extra {
        list.push(AnyChannel::new("Z", mk(0)));
    }
    let mut la = LayerAttributes::named("main");
    la.layer_position = Vec2(px + ox, py + oy);
    let layer = Layer::new((w as usize, h as usize), la, enc, AnyChannels::sort(list));
    let mut ia = ImageAttributes::new(IntegerBounds::new((px, py), (dw as usize, dh as usize)));
    ia.pixel_aspect = 1.0;
    let img = Image::empty(ia).with_layer(layer);
    let mut out = std::io::Cursor::new(vec![]);
    img.write().non_parallel().to_buffered(&mut out).unwrap();
    let mut f = FileCase::new(
        image::ImageFormat::OpenExr,
        format!(
            "exr {} {}{cname} {}{}",
            if alpha { "rgba" } else { "rgb" },
            if half { "half " } else { "" },
            if matches!(blocks, Blocks::ScanLines) { "lines" } else { "tiles" },
            if (ox, oy, dw, dh) != (0, 0, w, h) { " windows" } else { "" }
        ),
        dw,
        dh,
        if alpha { ColorType::Rgba32F } else { ColorType::Rgb32F },
    );
    f.bytes = out.into_inner();
    f.data_end = f.bytes.len();
    let ch = if alpha { 4 } else { 3 };
    for y in 0..dh as i32 {
        for x in 0..dw as i32 {
            let (sx, sy) = (x - ox, y - oy);
            for c in 0..ch {
                let s = if sx >= 0 && sy >= 0 && sx < w as i32 && sy < h as i32 { v[(sy * w as i32 + sx) as usize][c] } else { 0.0 };
                f.px.extend_from_slice(&s.to_ne_bytes());
            }
        }
    }
    f
}
