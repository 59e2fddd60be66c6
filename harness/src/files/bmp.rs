//! Windows bitmaps.
use super::*;
use image::ImageFormat;

/// Scale a `bits`-wide value to 8 bits, rounding.
pub fn scale8(v: u32, bits: u32) -> u8 {
    let max = ((1u64 << bits) - 1) as f64;
    (v as f64 * 255.0 / max).round() as u8
}

struct Mask {
    shift: u32,
    len: u32,
}
impl Mask {
    fn bits(&self) -> u32 {
        if self.len == 0 {
            0
        } else {
            (((1u64 << self.len) - 1) as u32) << self.shift
        }
    }
}

fn rle(r: &mut Rng, idx: &[usize], w: usize, h: usize, four: bool, skip: &mut [bool]) -> Vec<u8> {
    // rows are bottom-up in the stream; idx is in stream order
    let mut o = vec![];
    let mut y = 0;
    while y < h {
        let row = &idx[y * w..(y + 1) * w];
        let mut x = 0;
        while x < w {
            let left = w - x;
            match r.below(if left < 3 { 4 } else { 9 }) {
                0 if r.chance(1, 3) => {
                    // delta
                    let dx = r.range(0, left.min(255) as u64) as usize;
                    let dy = if r.chance(1, 3) { r.range(0, (h - 1 - y).min(255).min(3) as u64) as usize } else { 0 };
                    // moving down keeps x; the skipped pixels are black
                    if dy > 0 {
                        for k in y * w + x..(y + dy) * w + x + dx {
                            skip[k] = true;
                        }
                        o.extend_from_slice(&[0, 2, dx as u8, dy as u8]);
                        y += dy;
                        x += dx;
                        // continue on the new row
                        return {
                            let mut rest = rle_from(r, idx, w, h, four, skip, x, y);
                            o.append(&mut rest);
                            o
                        };
                    }
                    for k in 0..dx {
                        skip[y * w + x + k] = true;
                    }
                    o.extend_from_slice(&[0, 2, dx as u8, 0]);
                    x += dx;
                }
                0..=3 => x += run(r, &mut o, &row[x..], four),
                4 if r.chance(1, 4) => {
                    // end of line: the rest is black
                    for k in x..w {
                        skip[y * w + k] = true;
                    }
                    x = w;
                }
                _ => {
                    let cap = if r.bool() { 255 } else { 9 };
                    let n = r.range(3, left.min(cap) as u64) as usize;
                    o.extend_from_slice(&[0, n as u8]);
                    let s = o.len();
                    if four {
                        for p in row[x..x + n].chunks(2) {
                            o.push((p[0] << 4 | p.get(1).copied().unwrap_or(0)) as u8);
                        }
                    } else {
                        o.extend(row[x..x + n].iter().map(|&v| v as u8));
                    }
                    if (o.len() - s) % 2 == 1 {
                        o.push(0);
                    }
                    x += n;
                }
            }
        }
        y += 1;
        if y < h && r.chance(1, 40) {
            // early end of the bitmap
            for s in skip[y * w..].iter_mut() {
                *s = true;
            }
            break;
        }
        if y < h || r.bool() {
            o.extend_from_slice(&[0, 0]);
        }
    }
    o.extend_from_slice(&[0, 1]);
    o
}
/// Length of a run that matches the row, at least one pixel.
fn run(r: &mut Rng, o: &mut Vec<u8>, row: &[usize], four: bool) -> usize {
    let p = row[0];
    let q = if four { row.get(1).copied().unwrap_or(0) } else { p };
    let mut n = 1;
    while n < row.len() && n < 255 && row[n] == if n % 2 == 0 { p } else { q } {
        n += 1;
    }
    if r.chance(1, 4) {
        n = r.range(1, n as u64) as usize;
    }
    o.push(n as u8);
    o.push(if four { (p << 4 | q) as u8 } else { p as u8 });
    n
}
#[allow(clippy::too_many_arguments)]
fn rle_from(r: &mut Rng, idx: &[usize], w: usize, h: usize, four: bool, skip: &mut [bool], x: usize, y: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut x = x;
    while x < w {
        x += run(r, &mut o, &idx[y * w + x..(y + 1) * w], four);
    }
    if y + 1 < h {
        o.extend_from_slice(&[0, 0]);
        let base = (y + 1) * w;
        let mut rest = rle(r, &idx[base..], w, h - y - 1, four, &mut skip[base..]);
        o.append(&mut rest);
    } else {
        o.extend_from_slice(&[0, 1]);
    }
    o
}

pub fn gen(r: &mut Rng) -> FileCase {
    let (w, h) = dims(r);
    gen_sized(r, w, h)
}
pub fn gen_sized(r: &mut Rng, w: u32, h: u32) -> FileCase {
    let hs = *r.pick(&[12u32, 40, 40, 40, 52, 56, 108, 124]);
    let (comp, bpp) = if hs == 12 {
        (0, *r.pick(&[1u32, 4, 8, 24]))
    } else {
        *r.pick(&[(0u32, 1u32), (0, 2), (0, 4), (0, 8), (0, 16), (0, 24), (0, 32), (1, 8), (1, 8), (2, 4), (2, 4), (3, 16), (3, 16), (3, 32), (3, 32)])
    };
    let topdown = hs != 12 && (comp == 0 || comp == 3) && r.chance(1, 3);
    let n = (w * h) as usize;
    let mut tol = 0.0;
    let mut color = ColorType::Rgb8;
    // palette
    let npal = if bpp <= 8 {
        let full = 1usize << bpp;
        if hs != 12 && r.chance(1, 3) {
            r.range(1, full as u64) as usize
        } else {
            full
        }
    } else {
        0
    };
    let pal: Vec<[u8; 3]> = (0..npal).map(|_| [r.u8(), r.u8(), r.u8()]).collect();
    // masks
    let mut masks: [Mask; 4] = std::array::from_fn(|_| Mask { shift: 0, len: 0 });
    if comp == 3 {
        let alpha = hs >= 56 && r.bool();
        match r.below(4) {
            0 if bpp == 32 => {
                // the common layouts
                let k = r.below(2);
                for (i, s) in (if k == 0 { [16, 8, 0, 24] } else { [24, 16, 8, 0] }).iter().enumerate() {
                    if i < 3 || alpha {
                        masks[i] = Mask { shift: *s, len: 8 };
                    }
                }
            }
            1 if bpp == 16 => {
                masks = [Mask { shift: 11, len: 5 }, Mask { shift: 5, len: 6 }, Mask { shift: 0, len: 5 }, Mask { shift: 0, len: 0 }];
            }
            _ => {
                let cnt = if alpha { 4 } else { 3 };
                let mut order: Vec<usize> = (0..cnt).collect();
                r.shuffle(&mut order);
                let mut pos = 0;
                for (k, &i) in order.iter().enumerate() {
                    let rest = (cnt - 1 - k) as u32;
                    let maxlen = (bpp - pos - rest).min(if r.chance(1, 5) { 12 } else { 8 });
                    let len = r.r32(1, maxlen.max(1));
                    let gap = if bpp - pos - rest > len { r.r32(0, (bpp - pos - rest - len).min(3)) } else { 0 };
                    masks[i] = Mask { shift: pos + gap, len };
                    pos += gap + len;
                }
            }
        }
        if masks[3].len > 0 {
            color = ColorType::Rgba8;
        }
        if masks.iter().any(|m| m.len > 8) {
            tol = 1.0;
        }
    }
    // pixel values in reading order (top row first)
    let ch = if color == ColorType::Rgba8 { 4 } else { 3 };
    let mut px = vec![0u8; n * ch];
    let mut rows: Vec<Vec<u8>> = vec![];
    let mut data = vec![];
    if comp == 1 || comp == 2 {
        let idx = indices(r, n, npal);
        let mut skip = vec![false; n];
        data = rle(r, &idx, w as usize, h as usize, comp == 2, &mut skip);
        for i in 0..n {
            let (x, y) = (i % w as usize, i / w as usize);
            let at = ((h as usize - 1 - y) * w as usize + x) * 3;
            if !skip[i] {
                px[at..at + 3].copy_from_slice(&pal[idx[i]]);
            }
        }
    } else if bpp <= 8 {
        let idx = indices(r, n, npal);
        for y in 0..h as usize {
            let mut m = bits::Msb::default();
            for x in 0..w as usize {
                let i = y * w as usize + x;
                m.put(idx[i] as u32, bpp);
                px[i * 3..i * 3 + 3].copy_from_slice(&pal[idx[i]]);
            }
            m.align();
            rows.push(m.out);
        }
    } else {
        for y in 0..h as usize {
            let mut row = vec![];
            for x in 0..w as usize {
                let i = (y * w as usize + x) * ch;
                let v = r.u32();
                match (comp, bpp) {
                    (0, 16) => {
                        let v = v as u16;
                        le16(&mut row, v);
                        for (k, s) in [10, 5, 0].iter().enumerate() {
                            px[i + k] = scale8((v >> s & 31) as u32, 5);
                        }
                    }
                    (0, 24) => {
                        row.extend_from_slice(&[v as u8, (v >> 8) as u8, (v >> 16) as u8]);
                        px[i..i + 3].copy_from_slice(&[(v >> 16) as u8, (v >> 8) as u8, v as u8]);
                    }
                    (0, 32) => {
                        le32(&mut row, v);
                        px[i..i + 3].copy_from_slice(&[(v >> 16) as u8, (v >> 8) as u8, v as u8]);
                    }
                    (3, b) => {
                        if b == 16 {
                            le16(&mut row, v as u16)
                        } else {
                            le32(&mut row, v)
                        }
                        for k in 0..ch {
                            let m = &masks[k];
                            px[i + k] = scale8(((v & m.bits()) as u64 >> m.shift) as u32, m.len);
                        }
                    }
                    _ => unreachable!(),
                }
            }
            rows.push(row);
        }
    }
    if data.is_empty() {
        if !topdown {
            rows.reverse();
        }
        for mut row in rows {
            while row.len() % 4 != 0 {
                row.push(r.u8());
            }
            data.append(&mut row);
        }
    }
    // header
    let mut head = vec![];
    le32(&mut head, hs);
    if hs == 12 {
        le16(&mut head, w as u16);
        le16(&mut head, h as u16);
        le16(&mut head, 1);
        le16(&mut head, bpp as u16);
    } else {
        le32(&mut head, w);
        le32(&mut head, if topdown { (h as i32).wrapping_neg() as u32 } else { h });
        le16(&mut head, 1);
        le16(&mut head, bpp as u16);
        le32(&mut head, comp);
        le32(&mut head, if r.bool() { data.len() as u32 } else { 0 });
        le32(&mut head, r.u32());
        le32(&mut head, r.u32());
        le32(&mut head, if npal == 1 << bpp.min(16) && r.bool() { 0 } else { npal as u32 });
        le32(&mut head, r.below(3) as u32);
        let m: Vec<u8> = masks.iter().flat_map(|m| m.bits().to_le_bytes()).collect();
        match hs {
            40 => {}
            52 => head.extend_from_slice(&m[..12]),
            _ => head.extend_from_slice(&m),
        }
        while head.len() < hs as usize {
            head.push(r.u8());
        }
        if hs == 40 && comp == 3 {
            head.extend_from_slice(&m[..12]);
        }
    }
    for p in &pal {
        head.extend_from_slice(&[p[2], p[1], p[0]]);
        if hs != 12 {
            head.push(r.u8());
        }
    }
    let gap = if r.chance(1, 3) { r.range(0, 9) as usize } else { 0 };
    let off = 14 + head.len() + gap;
    let tail = if r.chance(1, 4) { r.range(0, 9) as usize } else { 0 };
    let mut b = b"BM".to_vec();
    le32(&mut b, (off + data.len() + tail) as u32);
    le32(&mut b, r.u32());
    le32(&mut b, off as u32);
    b.extend_from_slice(&head);
    b.extend(r.bytes(gap));
    b.extend_from_slice(&data);
    let name = match comp {
        1 => "rle8".into(),
        2 => "rle4".into(),
        3 => format!("bitfields{bpp}{}", if ch == 4 { "+alpha" } else { "" }),
        _ => format!("{bpp}bpp"),
    };
    let mut f = FileCase::new(ImageFormat::Bmp, format!("bmp header{hs} {name}{}", if topdown { " top-down" } else { "" }), w, h, color);
    f.data_end = b.len() - if comp == 1 || comp == 2 { 1 } else { 0 };
    b.extend(r.bytes(tail));
    f.bytes = b;
    f.px = px;
    f.tol = tol;
    f
}
