//! TIFF: both byte orders, strips and tiles, no compression, PackBits and
//! deflate, horizontal predictor.
use super::*;

struct W {
    be: bool,
    o: Vec<u8>,
}
impl W {
    fn u16(&mut self, v: u16) {
        if self.be {
            be16(&mut self.o, v)
        } else {
            le16(&mut self.o, v)
        }
    }
    fn u32(&mut self, v: u32) {
        if self.be {
            be32(&mut self.o, v)
        } else {
            le32(&mut self.o, v)
        }
    }
}
fn packbits(r: &mut Rng, d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < d.len() {
        let mut k = 1;
        while i + k < d.len() && k < 128 && d[i + k] == d[i] {
            k += 1;
        }
        if k >= 2 {
            o.push((257 - k) as u8);
            o.push(d[i]);
            i += k;
        } else {
            let m = r.range(1, (d.len() - i).min(128) as u64) as usize;
            o.push((m - 1) as u8);
            o.extend_from_slice(&d[i..i + m]);
            i += m;
        }
    }
    o
}
pub fn gen(r: &mut Rng) -> FileCase {
    let (w, h) = dims(r);
    let (ph, ch, bits, color) = *r.pick(&[
        (1u16, 1usize, 8u16, ColorType::L8),
        (0, 1, 8, ColorType::L8),
        (1, 1, 16, ColorType::L16),
        (0, 1, 16, ColorType::L16),
        (2, 3, 8, ColorType::Rgb8),
        (2, 3, 16, ColorType::Rgb16),
        (2, 4, 8, ColorType::Rgba8),
        (2, 4, 16, ColorType::Rgba16),
        (5, 4, 8, ColorType::Rgb8),
    ]);
    let n = (w * h) as usize * ch;
    let max = if bits == 16 { 65535u32 } else { 255 };
    let flat = r.bool();
    let small = indices(r, n, 7);
    let s: Vec<u32> = (0..n).map(|i| if flat { small[i] as u32 * 31 } else { r.u32() & max }).collect();
    let comp = *r.pick(&[1u16, 1, 32773, 8, 8]);
    let predict = comp == 8 && ph != 0 && r.bool();
    let be = r.bool();
    // tiles or strips
    let tiled = r.chance(1, 4);
    let (tw, th) = if tiled { (16 * r.r32(1, 2), 16 * r.r32(1, 2)) } else { (w, if r.bool() { h } else { r.r32(1, h) }) };
    let mut chunks = vec![];
    for y0 in (0..h).step_by(th as usize) {
        for x0 in (0..w).step_by(tw as usize) {
            let rows = if tiled { th } else { th.min(h - y0) };
            let mut d = vec![];
            for y in y0..y0 + rows {
                let mut row: Vec<u32> = vec![];
                for x in x0..x0 + tw {
                    for c in 0..ch {
                        row.push(if x < w && y < h { s[(y * w + x) as usize * ch + c] } else { r.u32() & max });
                    }
                }
                if predict {
                    for i in (ch..row.len()).rev() {
                        row[i] = row[i].wrapping_sub(row[i - ch]) & max;
                    }
                }
                let mut line = W { be, o: vec![] };
                for v in row {
                    if bits == 16 {
                        line.u16(v as u16)
                    } else {
                        line.o.push(v as u8)
                    }
                }
                d.push(line.o);
            }
            let d: Vec<u8> = match comp {
                // every row is packed separately
                32773 => d.iter().flat_map(|l| packbits(r, l)).collect(),
                8 => super::png::zlib(r, &d.concat()),
                _ => d.concat(),
            };
            chunks.push(d);
        }
    }
    let mut f = FileCase::new(
        image::ImageFormat::Tiff,
        format!(
            "tiff {} {}{bits} {}{}{}",
            if be { "MM" } else { "II" },
            ["white-is-zero", "gray", if ch == 4 { "rgba" } else { "rgb" }, "", "", "cmyk"][ph as usize],
            match comp {
                1 => "raw",
                8 => "deflate",
                _ => "packbits",
            },
            if predict { "+predictor" } else { "" },
            if tiled { " tiles" } else { " strips" }
        ),
        w,
        h,
        color,
    );
    if r.chance(1, 4) {
        let k = r.range(5, 3000) as usize;
        f.icc = Some(r.bytes(k));
    }
    if r.bool() {
        f.orientation = r.r32(1, 8) as u8;
    }
    // entries: tag, type (1 byte, 3 short, 4 long, 7 undefined), values
    let mut e: Vec<(u16, u16, Vec<u32>)> = vec![
        (256, if r.bool() && w < 65536 { 3 } else { 4 }, vec![w]),
        (257, 4, vec![h]),
        (258, 3, vec![bits as u32; ch]),
        (259, 3, vec![comp as u32]),
        (262, 3, vec![ph as u32]),
        (277, 3, vec![ch as u32]),
        (284, 3, vec![1]),
    ];
    if f.orientation != 1 || r.chance(1, 4) {
        e.push((274, 3, vec![f.orientation as u32]));
    }
    if predict {
        e.push((317, 3, vec![2]));
    }
    if ph == 2 && ch == 4 {
        e.push((338, 3, vec![2]));
    }
    if r.bool() {
        e.push((339, 3, vec![1; ch]));
    }
    if let Some(p) = &f.icc {
        e.push((34675, 7, p.iter().map(|v| *v as u32).collect()));
    }
    if r.chance(1, 4) {
        e.push((305, 2, b"software\0".iter().map(|v| *v as u32).collect()));
    }
    let (to, tc) = if tiled { (324, 325) } else { (273, 279) };
    e.push((tc, 4, chunks.iter().map(|c| c.len() as u32).collect()));
    if tiled {
        e.push((322, 3, vec![tw]));
        e.push((323, 3, vec![th]));
    } else {
        e.push((278, 4, vec![th]));
    }
    // layout: header, chunks, directory, long values (or directory first)
    let mut o = W { be, o: if be { b"MM\0*".to_vec() } else { b"II*\0".to_vec() } };
    let mut offs = vec![];
    let mut at = 8;
    let mut body = vec![];
    for c in &chunks {
        if at % 2 == 1 {
            at += 1;
            body.push(0);
        }
        offs.push(at as u32);
        body.extend_from_slice(c);
        at += c.len();
    }
    if at % 2 == 1 {
        at += 1;
        body.push(0);
    }
    e.push((to, 4, offs));
    e.sort();
    o.u32(at as u32);
    o.o.extend_from_slice(&body);
    o.u16(e.len() as u16);
    let mut ext = at + 2 + 12 * e.len() + 4;
    let mut tail = W { be, o: vec![] };
    for (t, ty, v) in &e {
        o.u16(*t);
        o.u16(*ty);
        o.u32(v.len() as u32);
        let mut b = W { be, o: vec![] };
        for x in v {
            match ty {
                3 => b.u16(*x as u16),
                4 => b.u32(*x),
                _ => b.o.push(*x as u8),
            }
        }
        if b.o.len() <= 4 {
            b.o.resize(4, 0);
            o.o.extend_from_slice(&b.o);
        } else {
            o.u32(ext as u32);
            if b.o.len() % 2 == 1 {
                b.o.push(0);
            }
            ext += b.o.len();
            tail.o.extend_from_slice(&b.o);
        }
    }
    o.u32(0);
    o.o.extend_from_slice(&tail.o);
    f.bytes = o.o;
    f.data_end = f.bytes.len() - tail.o.len();
    if ph == 5 {
        let real: Vec<f64> = s.chunks(4).flat_map(|p| (0..3).map(|c| (255.0 - p[c] as f64) * (255.0 - p[3] as f64) / 255.0).collect::<Vec<_>>()).collect();
        f.px = vec![0; real.len()];
        f.real = Some(real);
        f.tol = 0.6; // truncated
    } else {
        for v in s {
            let v = if ph == 0 { max - v } else { v };
            if bits == 16 {
                f.px.extend_from_slice(&(v as u16).to_ne_bytes());
            } else {
                f.px.push(v as u8);
            }
        }
    }
    f
}
