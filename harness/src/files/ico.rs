//! Icons: several entries, PNG or bitmap payloads, AND masks.
use super::*;

struct Entry {
    w: u32,
    h: u32,
    bits: u16,
    data: Vec<u8>,
    px: Vec<u8>,
    end: usize,
    kind: &'static str,
}

fn bmp(r: &mut Rng, w: u32, h: u32) -> Entry {
    let n = (w * h) as usize;
    let bpp = *r.pick(&[1u16, 4, 8, 16, 24, 24, 32, 32]);
    let mut px = vec![0u8; n * 4];
    let mut rows: Vec<Vec<u8>> = vec![];
    let npal = if bpp <= 8 { 1usize << bpp } else { 0 };
    let pal: Vec<[u8; 3]> = (0..npal).map(|_| [r.u8(), r.u8(), r.u8()]).collect();
    for y in 0..h {
        let mut m = super::bits::Msb::default();
        let mut row = vec![];
        for x in 0..w {
            let at = ((y * w + x) * 4) as usize;
            let v = r.u32();
            px[at + 3] = 255;
            match bpp {
                16 => {
                    le16(&mut row, v as u16);
                    for (k, s) in [10, 5, 0].iter().enumerate() {
                        px[at + k] = super::bmp::scale8(v >> s & 31, 5);
                    }
                }
                24 | 32 => {
                    row.extend_from_slice(&v.to_le_bytes()[..bpp as usize / 8]);
                    px[at] = (v >> 16) as u8;
                    px[at + 1] = (v >> 8) as u8;
                    px[at + 2] = v as u8;
                    if bpp == 32 {
                        px[at + 3] = (v >> 24) as u8;
                    }
                }
                _ => {
                    let i = v as usize % npal;
                    m.put(i as u32, bpp as u32);
                    px[at..at + 3].copy_from_slice(&pal[i]);
                }
            }
        }
        m.align();
        row.append(&mut m.out);
        while row.len() % 4 != 0 {
            row.push(r.u8());
        }
        rows.push(row);
    }
    let mut d = vec![];
    le32(&mut d, 40);
    le32(&mut d, w);
    le32(&mut d, h * 2);
    le16(&mut d, 1);
    le16(&mut d, bpp);
    le32(&mut d, 0);
    le32(&mut d, 0);
    for _ in 0..4 {
        le32(&mut d, 0);
    }
    for p in &pal {
        d.extend_from_slice(&[p[2], p[1], p[0], 0]);
    }
    for row in rows.iter().rev() {
        d.extend_from_slice(row);
    }
    let mut kind = "bitmap without mask";
    if bpp != 32 || r.bool() {
        kind = "bitmap with mask";
        for y in (0..h).rev() {
            let mut m = super::bits::Msb::default();
            for x in 0..w {
                let on = r.chance(1, 3);
                m.put(on as u32, 1);
                if on {
                    px[((y * w + x) * 4 + 3) as usize] = 0;
                }
            }
            m.align();
            while m.out.len() % 4 != 0 {
                m.out.push(r.u8());
            }
            d.append(&mut m.out);
        }
    }
    let end = d.len();
    Entry { w, h, bits: bpp, data: d, px, end, kind }
}
fn png(r: &mut Rng, w: u32, h: u32) -> Entry {
    let mut s = super::png::still_as(r, w, h, 6, 8);
    s.interlace = r.chance(1, 4);
    let f = super::png::encode(r, &s, true);
    Entry { w, h, bits: 32, data: f.bytes, px: s.px, end: f.data_end, kind: "png" }
}

pub fn gen(r: &mut Rng) -> FileCase {
    let k = r.range(1, 4) as usize;
    let mut es: Vec<Entry> = vec![];
    let mut tries = 0;
    while es.len() < k && tries < 50 {
        tries += 1;
        let w = if r.chance(1, 12) { r.r32(250, 256) } else { r.r32(1, 40) };
        let h = if r.chance(1, 12) { r.r32(250, 256) } else { r.r32(2, 40) };
        let e = if r.bool() { png(r, w, h) } else { bmp(r, w, h) };
        // the best entry must be unambiguous
        if es.iter().all(|o| (o.bits, o.w * o.h) != (e.bits, e.w * e.h)) {
            es.push(e);
        }
    }
    let best = (0..es.len()).max_by_key(|&i| (es[i].bits, es[i].w * es[i].h)).unwrap();
    let mut o = vec![0, 0, 1, 0];
    le16(&mut o, es.len() as u16);
    let mut at = 6 + 16 * es.len() + if r.chance(1, 4) { r.range(0, 9) as usize } else { 0 };
    let start = at;
    let mut order: Vec<usize> = (0..es.len()).collect();
    r.shuffle(&mut order);
    let mut offs = vec![0; es.len()];
    for &i in &order {
        offs[i] = at;
        at += es[i].data.len();
    }
    for (i, e) in es.iter().enumerate() {
        o.extend_from_slice(&[e.w as u8, e.h as u8, 0, if r.chance(1, 4) { 255 } else { 0 }]);
        le16(&mut o, r.below(2) as u16);
        le16(&mut o, e.bits);
        le32(&mut o, e.data.len() as u32);
        le32(&mut o, offs[i] as u32);
    }
    o.resize(start, 0);
    for &i in &order {
        o.extend_from_slice(&es[i].data);
    }
    let b = &es[best];
    let mut f = FileCase::new(
        image::ImageFormat::Ico,
        format!("ico {} {}bpp{}", b.kind, b.bits, if es.len() > 1 { " of several" } else { "" }),
        b.w,
        b.h,
        ColorType::Rgba8,
    );
    f.data_end = offs[best] + b.end;
    f.px = b.px.clone();
    f.bytes = o;
    f
}
