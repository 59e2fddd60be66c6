//! DirectDraw surfaces: BC1, BC2, BC3 blocks.
use super::*;

fn c565(v: u16) -> [f64; 3] {
    [(v >> 11) as f64 * 255.0 / 31.0, (v >> 5 & 63) as f64 * 255.0 / 63.0, (v & 31) as f64 * 255.0 / 31.0]
}
pub fn gen(r: &mut Rng) -> FileCase {
    let (bw, bh) = if r.chance(1, 8) { (r.r32(1, 60), 1) } else { (r.r32(1, 8), r.r32(1, 6)) };
    let (w, h) = (bw * 4, bh * 4);
    let kind = r.below(3);
    let dx10 = r.chance(1, 3);
    let color = if kind == 0 { ColorType::Rgb8 } else { ColorType::Rgba8 };
    let ch = color.channel_count() as usize;
    let mut real = vec![0f64; (w * h) as usize * ch];
    let mut data = vec![];
    for by in 0..bh {
        for bx in 0..bw {
            let mut alpha = [255.0; 16];
            if kind == 1 {
                let a = r.u64();
                data.extend_from_slice(&a.to_le_bytes());
                for (i, v) in alpha.iter_mut().enumerate() {
                    *v = (a >> (4 * i) & 15) as f64 * 17.0;
                }
            } else if kind == 2 {
                let (a0, a1) = (*r.pick(&[0u8, 255, 128, 7, 200]), r.u8());
                let (a0, a1) = if r.bool() { (a0, a1) } else { (a1, a0) };
                let idx = r.u64() & 0xffff_ffff_ffff;
                data.extend_from_slice(&[a0, a1]);
                data.extend_from_slice(&idx.to_le_bytes()[..6]);
                let (x0, x1) = (a0 as f64, a1 as f64);
                for (i, v) in alpha.iter_mut().enumerate() {
                    let k = (idx >> (3 * i) & 7) as f64;
                    *v = match (k as u32, a0 > a1) {
                        (0, _) => x0,
                        (1, _) => x1,
                        (_, true) => ((8.0 - k) * x0 + (k - 1.0) * x1) / 7.0,
                        (6, _) => 0.0,
                        (7, _) => 255.0,
                        _ => ((6.0 - k) * x0 + (k - 1.0) * x1) / 5.0,
                    };
                }
            }
            let (c0, c1) = match r.below(5) {
                0 => {
                    let c = r.u16();
                    (c, c)
                }
                1 => (0xffff, 0),
                2 => (0, 0xffff),
                _ => (r.u16(), r.u16()),
            };
            let idx = r.u32();
            le16(&mut data, c0);
            le16(&mut data, c1);
            le32(&mut data, idx);
            let (a, b) = (c565(c0), c565(c1));
            for i in 0..16u32 {
                let k = idx >> (2 * i) & 3;
                let (x, y) = (bx * 4 + i % 4, by * 4 + i / 4);
                let at = (y * w + x) as usize * ch;
                for c in 0..3 {
                    real[at + c] = match (k, kind != 0 || c0 > c1) {
                        (0, _) => a[c],
                        (1, _) => b[c],
                        (2, true) => (2.0 * a[c] + b[c]) / 3.0,
                        (_, true) => (a[c] + 2.0 * b[c]) / 3.0,
                        (2, _) => (a[c] + b[c]) / 2.0,
                        _ => 0.0,
                    };
                }
                if ch == 4 {
                    real[at + 3] = alpha[i as usize];
                }
            }
        }
    }
    let mut o = b"DDS ".to_vec();
    le32(&mut o, 124);
    le32(&mut o, 0x1007 | if r.bool() { 0x80000 } else { 0 } | if r.bool() { 0x20000 } else { 0 });
    le32(&mut o, h);
    le32(&mut o, w);
    le32(&mut o, if r.bool() { data.len() as u32 } else { 0 });
    le32(&mut o, 0);
    le32(&mut o, r.below(3) as u32);
    let junk = r.bytes(44);
    o.extend_from_slice(&junk);
    le32(&mut o, 32);
    le32(&mut o, 4);
    let cc: &[u8; 4] = if dx10 { b"DX10" } else { [b"DXT1", b"DXT3", b"DXT5"][kind as usize] };
    o.extend_from_slice(cc);
    for _ in 0..5 {
        le32(&mut o, 0);
    }
    le32(&mut o, 0x1000);
    for _ in 0..4 {
        le32(&mut o, 0);
    }
    if dx10 {
        le32(&mut o, 70 + 3 * kind as u32 + r.below(3) as u32);
        for v in [3u32, 0, 1, 0] {
            le32(&mut o, v);
        }
    }
    o.extend_from_slice(&data);
    let mut f = FileCase::new(image::ImageFormat::Dds, format!("dds BC{}{}", kind + 1, if dx10 { " DX10" } else { "" }), w, h, color);
    f.data_end = o.len();
    if r.chance(1, 4) {
        // further mip levels
        let n = r.range(1, 64) as usize;
        o.extend(r.bytes(n));
    }
    f.bytes = o;
    f.px = vec![0; real.len()];
    f.real = Some(real);
    // decoders may truncate when expanding and when interpolating
    f.tol = 1.5;
    f
}
