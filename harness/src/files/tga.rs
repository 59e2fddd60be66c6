//! Truevision TGA.
use super::*;

/// Run-length packets for `px` made of `ch`-byte pixels, rows of `w` pixels.
pub fn packets(r: &mut Rng, px: &[u8], ch: usize, w: usize) -> Vec<u8> {
    let mut o = vec![];
    let cross = r.chance(1, 5); // packets may cross rows
    let rowlen = if cross { px.len() / ch } else { w };
    for row in px.chunks(rowlen * ch) {
        let n = row.len() / ch;
        let mut i = 0;
        while i < n {
            let p = &row[i * ch..(i + 1) * ch];
            let mut k = 1;
            while i + k < n && k < 128 && &row[(i + k) * ch..(i + k + 1) * ch] == p {
                k += 1;
            }
            if k > 1 || r.chance(1, 4) {
                if r.chance(1, 5) {
                    k = r.range(1, k as u64) as usize;
                }
                o.push(0x80 | (k - 1) as u8);
                o.extend_from_slice(p);
                i += k;
            } else {
                let cap = if r.bool() { 128 } else { 5 };
                let m = r.range(1, (n - i).min(cap) as u64) as usize;
                o.push((m - 1) as u8);
                o.extend_from_slice(&row[i * ch..(i + m) * ch]);
                i += m;
            }
        }
    }
    o
}

pub fn gen(r: &mut Rng) -> FileCase {
    let (w, h) = dims(r);
    gen_sized(r, w, h)
}
pub fn gen_sized(r: &mut Rng, w: u32, h: u32) -> FileCase {
    let n = (w * h) as usize;
    // (image type base, stored bytes per pixel, alpha bits, colour)
    let kind = r.below(8);
    let rle = r.bool();
    let (ty, depth, alpha, color) = match kind {
        0 => (3u8, 8u8, 0u8, ColorType::L8),
        1 => (3, 16, 8, ColorType::La8),
        2 => (2, 24, 0, ColorType::Rgb8),
        3 => (2, 32, 8, ColorType::Rgba8),
        4 => (2, 32, 0, ColorType::Rgba8),
        5 => (1, 8, 0, ColorType::Rgb8),
        6 => (1, 16, 0, ColorType::Rgb8),
        _ => (1, 8, 0, ColorType::Rgba8),
    };
    let ch = color.bytes_per_pixel() as usize;
    let mapped = ty == 1;
    let mut head = vec![];
    let mut map = vec![];
    let (mut origin, mut len) = (0usize, 0usize);
    let mut pxs; // stored pixels in raster order of the file
    let shown; // decoded pixels in the same order
    if mapped {
        len = if depth == 8 { r.range(1, 256) } else { r.range(1, 700) } as usize;
        if r.chance(1, 3) {
            origin = r.range(0, if depth == 8 { 256 - len as u64 } else { 60_000 }) as usize;
        }
        let pal: Vec<Vec<u8>> = (0..len).map(|_| r.bytes(ch)).collect();
        let idx = indices(r, n, len);
        pxs = vec![];
        let mut s = vec![];
        for i in idx {
            let v = i + origin;
            pxs.push(v as u8);
            if depth == 16 {
                pxs.push((v >> 8) as u8);
            }
            s.extend_from_slice(&pal[i]);
        }
        shown = s;
        for p in &pal {
            let mut q = p.clone();
            q.swap(0, 2);
            map.extend_from_slice(&q);
        }
    } else {
        shown = pixels(r, n, ch);
        pxs = shown.clone();
        if ch >= 3 {
            for p in pxs.chunks_mut(ch) {
                p.swap(0, 2);
            }
        }
    }
    // an unused colour map may accompany a true colour or gray image
    let unused = !mapped && r.chance(1, 6);
    let mut bits = (ch * 8) as u8;
    if unused {
        len = r.range(1, 40) as usize;
        bits = *r.pick(&[24u8, 32, 8, 16]);
        map = r.bytes(len * bits as usize / 8);
    }
    let (top, right) = (r.bool(), r.chance(1, 4));
    let id = if r.chance(1, 3) { r.range(0, 255) as usize } else { 0 };
    head.push(id as u8);
    head.push((mapped || unused) as u8);
    head.push(ty | if rle { 8 } else { 0 });
    le16(&mut head, origin as u16);
    le16(&mut head, len as u16);
    head.push(if mapped || unused { bits } else { 0 });
    le16(&mut head, r.u16());
    le16(&mut head, r.u16());
    le16(&mut head, w as u16);
    le16(&mut head, h as u16);
    head.push(depth);
    head.push(alpha | (top as u8) << 5 | (right as u8) << 4);
    head.extend(r.bytes(id));
    head.extend_from_slice(&map);
    let sb = depth as usize / 8;
    let data = if rle { packets(r, &pxs, sb, w as usize) } else { pxs };
    let mut px = vec![0; shown.len()];
    for y in 0..h as usize {
        for x in 0..w as usize {
            let ty = if top { y } else { h as usize - 1 - y };
            let tx = if right { w as usize - 1 - x } else { x };
            let (a, b) = ((y * w as usize + x) * ch, (ty * w as usize + tx) * ch);
            px[b..b + ch].copy_from_slice(&shown[a..a + ch]);
        }
    }
    let mut f = FileCase::new(
        image::ImageFormat::Tga,
        format!(
            "tga type{}{} depth{depth}/{}{}{}{}",
            ty,
            if rle { "+rle" } else { "" },
            ch * 8,
            if origin > 0 { " map-origin" } else if unused { " unused-map" } else { "" },
            if top { " top" } else { " bottom" },
            if right { " right-to-left" } else { "" }
        ),
        w,
        h,
        color,
    );
    head.extend_from_slice(&data);
    f.data_end = head.len();
    // TGA 2.0 files end with a footer
    if r.chance(1, 3) {
        head.extend_from_slice(&[0; 8]);
        head.extend_from_slice(b"TRUEVISION-XFILE.\0");
    }
    f.bytes = head;
    f.px = px;
    f
}
