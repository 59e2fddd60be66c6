//! GIF: own LZW coder, local and global tables, interlace, transparency,
//! sub-rectangles.
use super::bits::Lsb;
use super::*;
use std::collections::HashMap;

/// LZW with variable code size, optional early clears.
pub fn lzw(r: &mut Rng, d: &[u8], min: u32, early: bool) -> Vec<u8> {
    let clear = 1u32 << min;
    let end = clear + 1;
    let mut o = Lsb::default();
    let mut t: HashMap<(u32, u8), u32> = HashMap::new();
    let (mut next, mut bits) = (end + 1, min + 1);
    o.put(clear, bits);
    let never = early && r.chance(1, 5); // literal codes only: cleared before growing
    let mut cur: Option<u32> = None;
    for &b in d {
        match cur {
            None => cur = Some(b as u32),
            Some(c) => {
                if let (Some(&n), false) = (t.get(&(c, b)), never) {
                    cur = Some(n);
                    continue;
                }
                o.put(c, bits);
                if next < 4096 {
                    t.insert((c, b), next);
                    // the decoder is one entry behind
                    if next == 1 << bits && bits < 12 {
                        bits += 1;
                    }
                    next += 1;
                }
                let full = next >= 4096 && !r.chance(1, 3);
                if full || (never && next + 1 >= 1 << bits) || (early && r.chance(1, 400)) {
                    o.put(clear, bits);
                    t.clear();
                    next = end + 1;
                    bits = min + 1;
                }
                cur = Some(b as u32);
            }
        }
    }
    if let Some(c) = cur {
        o.put(c, bits);
        if next == 1 << bits && bits < 12 {
            bits += 1;
        }
    }
    o.put(end, bits);
    o.align();
    o.out
}
pub fn blocks(r: &mut Rng, o: &mut Vec<u8>, d: &[u8]) {
    let mut at = 0;
    let small = r.chance(1, 4);
    while at < d.len() {
        let k = if small { r.range(1, 40) as usize } else { 255 }.min(d.len() - at);
        o.push(k as u8);
        o.extend_from_slice(&d[at..at + k]);
        at += k;
    }
    o.push(0);
}
pub struct GifFrame {
    pub x: u16,
    pub y: u16,
    pub w: u16,
    pub h: u16,
    pub idx: Vec<u8>,
    pub table: Option<Vec<[u8; 3]>>,
    pub transparent: Option<u8>,
    pub dispose: u8,
    pub delay: u16,
    pub interlace: bool,
    pub no_gce: bool,
}
fn table_bits(n: usize) -> u32 {
    (usize::BITS - (n.max(2) - 1).leading_zeros()).clamp(1, 8)
}
pub fn put_table(o: &mut Vec<u8>, t: &[[u8; 3]]) {
    for c in t {
        o.extend_from_slice(c);
    }
    for _ in t.len()..1 << table_bits(t.len()) {
        o.extend_from_slice(&[1, 2, 3]);
    }
}
pub fn header(o: &mut Vec<u8>, r: &mut Rng, w: u16, h: u16, global: Option<&[[u8; 3]]>, bg: u8) {
    o.extend_from_slice(if r.chance(1, 6) { b"GIF87a" } else { b"GIF89a" });
    le16(o, w);
    le16(o, h);
    o.push(match global {
        Some(t) => 0x80 | 0x70 | (table_bits(t.len()) - 1) as u8,
        None => 0x70,
    });
    o.push(bg);
    o.push(0);
    if let Some(t) = global {
        put_table(o, t);
    }
}
/// Returns the offset at which the pixel data is complete.
pub fn put_frame(o: &mut Vec<u8>, r: &mut Rng, f: &GifFrame, colors: usize) -> usize {
    if !f.no_gce {
        o.extend_from_slice(&[0x21, 0xf9, 4, f.dispose << 2 | f.transparent.is_some() as u8]);
        le16(o, f.delay);
        o.push(f.transparent.unwrap_or(0));
        o.push(0);
    }
    o.push(0x2c);
    le16(o, f.x);
    le16(o, f.y);
    le16(o, f.w);
    le16(o, f.h);
    let mut flags = if f.interlace { 0x40 } else { 0 };
    if let Some(t) = &f.table {
        flags |= 0x80 | (table_bits(t.len()) - 1) as u8;
    }
    o.push(flags);
    if let Some(t) = &f.table {
        put_table(o, t);
    }
    let min = table_bits(colors).max(2);
    o.push(min as u8);
    let (w, h) = (f.w as usize, f.h as usize);
    let mut d = vec![];
    if f.interlace {
        for (s, st) in [(0, 8), (4, 8), (2, 4), (1, 2)] {
            for y in (s..h).step_by(st) {
                d.extend_from_slice(&f.idx[y * w..(y + 1) * w]);
            }
        }
    } else {
        d.extend_from_slice(&f.idx);
    }
    let z = lzw(r, &d, min, true);
    let before = o.len();
    blocks(r, o, &z);
    // last code, end code, block terminator
    o.len().saturating_sub(8).max(before)
}
pub fn noise(r: &mut Rng, o: &mut Vec<u8>) {
    if r.chance(1, 5) {
        o.extend_from_slice(&[0x21, 0xfe]);
        let c = r.bytes(30);
        blocks(r, o, &c);
    }
    if r.chance(1, 5) {
        o.extend_from_slice(b"\x21\xff\x0bNETSCAPE2.0\x03\x01");
        le16(o, r.u16());
        o.push(0);
    }
}
pub fn table(r: &mut Rng) -> Vec<[u8; 3]> {
    let n = *r.pick(&[2usize, 3, 4, 5, 16, 17, 200, 256]);
    (0..n).map(|_| [r.u8(), r.u8(), r.u8()]).collect()
}

pub fn gen(r: &mut Rng) -> FileCase {
    let (w, h) = dims(r);
    let glob = if r.chance(3, 4) { Some(table(r)) } else { None };
    let local = if glob.is_none() || r.chance(1, 3) { Some(table(r)) } else { None };
    let pal = local.clone().or(glob.clone()).unwrap();
    let inset = r.chance(1, 4) && w > 1 && h > 1;
    let (fw, fh, fx, fy) = if inset {
        let (a, b) = (r.r32(1, w), r.r32(1, h));
        (a, b, r.r32(0, w - a), r.r32(0, h - b))
    } else {
        (w, h, 0, 0)
    };
    let transparent = if r.chance(1, 3) { Some(r.below(pal.len() as u64) as u8) } else { None };
    let fr = GifFrame {
        x: fx as u16,
        y: fy as u16,
        w: fw as u16,
        h: fh as u16,
        idx: indices(r, (fw * fh) as usize, pal.len()).into_iter().map(|v| v as u8).collect(),
        table: local,
        transparent,
        dispose: r.below(4) as u8,
        delay: r.u16(),
        interlace: r.chance(1, 3),
        no_gce: transparent.is_none() && r.bool(),
    };
    let mut f = FileCase::new(
        image::ImageFormat::Gif,
        format!(
            "gif {}{}{}{}",
            if fr.table.is_some() { "local" } else { "global" },
            if fr.interlace { " interlaced" } else { "" },
            if transparent.is_some() { " transparent" } else { "" },
            if inset { " inset" } else { "" }
        ),
        w,
        h,
        ColorType::Rgba8,
    );
    let mut o = vec![];
    let bg = r.u8();
    header(&mut o, r, w as u16, h as u16, glob.as_deref(), bg);
    noise(r, &mut o);
    f.data_end = put_frame(&mut o, r, &fr, pal.len());
    noise(r, &mut o);
    o.push(0x3b);
    f.px = vec![0; (w * h * 4) as usize];
    for y in 0..fh {
        for x in 0..fw {
            let i = fr.idx[(y * fw + x) as usize];
            if Some(i) != transparent {
                let at = (((y + fy) * w + x + fx) * 4) as usize;
                f.px[at..at + 3].copy_from_slice(&pal[i as usize]);
                f.px[at + 3] = 255;
            }
        }
    }
    f.bytes = o;
    f.ignore_clear = true;
    f
}

/// Whether the `gif` crate itself, used directly, fails on the first frame.
pub fn crate_fails(f: &FileCase) -> bool {
    if f.fmt != image::ImageFormat::Gif {
        return false;
    }
    let mut o = ::gif::DecodeOptions::new();
    o.set_color_output(::gif::ColorOutput::RGBA);
    match o.read_info(&f.bytes[..]) {
        Err(_) => true,
        Ok(mut d) => match d.read_next_frame() {
            Ok(Some(fr)) => {
                let mut px = vec![0; f.px.len()];
                for y in 0..fr.height as usize {
                    let (n, at) = (fr.width as usize * 4, ((y + fr.top as usize) * f.w as usize + fr.left as usize) * 4);
                    px[at..at + n].copy_from_slice(&fr.buffer[y * n..(y + 1) * n]);
                }
                f.compare(&px).is_some()
            }
            _ => true,
        },
    }
}
