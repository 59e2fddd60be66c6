//! PNG: every colour type and depth, tRNS, interlace, filters, split IDAT,
//! ancillary chunks. And the pieces for animated PNG.
use super::bits::Msb;
use super::*;
use flate2::write::ZlibEncoder;
use std::io::Write;

pub const SIG: [u8; 8] = [137, 80, 78, 71, 13, 10, 26, 10];

pub fn chunk(o: &mut Vec<u8>, ty: &[u8; 4], data: &[u8]) {
    be32(o, data.len() as u32);
    let s = o.len();
    o.extend_from_slice(ty);
    o.extend_from_slice(data);
    let mut c = crc32fast::Hasher::new();
    c.update(&o[s..]);
    let c = c.finalize();
    be32(o, c);
}
pub fn zlib(r: &mut Rng, d: &[u8]) -> Vec<u8> {
    let mut e = ZlibEncoder::new(vec![], flate2::Compression::new(r.below(10) as u32));
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
fn paeth(a: u8, b: u8, c: u8) -> u8 {
    let p = a as i32 + b as i32 - c as i32;
    let (pa, pb, pc) = ((p - a as i32).abs(), (p - b as i32).abs(), (p - c as i32).abs());
    if pa <= pb && pa <= pc {
        a
    } else if pb <= pc {
        b
    } else {
        c
    }
}
/// Filter the rows of one pass.
fn filter(r: &mut Rng, rows: &[Vec<u8>], bpp: usize, out: &mut Vec<u8>) {
    let zero = vec![0; rows.first().map_or(0, |r| r.len())];
    let fixed = if r.bool() { Some(r.below(5) as u8) } else { None };
    for (y, row) in rows.iter().enumerate() {
        let up = if y == 0 { &zero } else { &rows[y - 1] };
        let f = fixed.unwrap_or_else(|| r.below(5) as u8);
        out.push(f);
        for (x, &v) in row.iter().enumerate() {
            let a = if x >= bpp { row[x - bpp] } else { 0 };
            let c = if x >= bpp { up[x - bpp] } else { 0 };
            let b = up[x];
            out.push(v.wrapping_sub(match f {
                0 => 0,
                1 => a,
                2 => b,
                3 => ((a as u16 + b as u16) / 2) as u8,
                _ => paeth(a, b, c),
            }));
        }
    }
}
const ADAM7: [(usize, usize, usize, usize); 7] = [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)];

/// Filtered scan lines of `samples` (row major, `ch` per pixel, `depth` bits).
pub fn scan(r: &mut Rng, s: &[u16], w: usize, h: usize, ch: usize, depth: u32, interlace: bool) -> Vec<u8> {
    let bpp = (ch * depth as usize).div_ceil(8);
    let mut out = vec![];
    let passes: Vec<(usize, usize, usize, usize)> = if interlace { ADAM7.to_vec() } else { vec![(0, 0, 1, 1)] };
    for (x0, y0, dx, dy) in passes {
        if x0 >= w || y0 >= h {
            continue;
        }
        let mut rows = vec![];
        for y in (y0..h).step_by(dy) {
            let mut m = Msb::default();
            for x in (x0..w).step_by(dx) {
                for c in 0..ch {
                    m.put(s[(y * w + x) * ch + c] as u32, depth);
                }
            }
            m.align();
            rows.push(m.out);
        }
        filter(r, &rows, bpp, &mut out);
    }
    out
}

/// A still image: colour type code, depth, samples, palette, transparency and
/// what it decodes to.
pub struct Still {
    pub ct: u8,
    pub depth: u8,
    pub w: u32,
    pub h: u32,
    pub interlace: bool,
    pub s: Vec<u16>,
    pub plte: Vec<u8>,
    pub trns: Option<Vec<u8>>,
    pub color: ColorType,
    pub px: Vec<u8>,
}
impl Still {
    pub fn ch(&self) -> usize {
        [1, 0, 3, 1, 2, 0, 4][self.ct as usize]
    }
    pub fn ihdr(&self) -> Vec<u8> {
        let mut d = vec![];
        be32(&mut d, self.w);
        be32(&mut d, self.h);
        d.extend_from_slice(&[self.depth, self.ct, 0, 0, self.interlace as u8]);
        d
    }
    pub fn rgba8(&self) -> Vec<[u8; 4]> {
        let n = (self.w * self.h) as usize;
        let ch = self.px.len() / n.max(1);
        self.px
            .chunks_exact(ch)
            .map(|p| match ch {
                1 => [p[0], p[0], p[0], 255],
                2 => [p[0], p[0], p[0], p[1]],
                3 => [p[0], p[1], p[2], 255],
                _ => [p[0], p[1], p[2], p[3]],
            })
            .collect()
    }
}
/// Expand the samples as the specification says.
fn expand(ct: u8, depth: u8, s: &[u16], plte: &[u8], trns: &Option<Vec<u8>>) -> (ColorType, Vec<u8>) {
    let ch = [1usize, 0, 3, 1, 2, 0, 4][ct as usize];
    let wide = depth == 16;
    let mut px = vec![];
    let put = |px: &mut Vec<u8>, v: u16| if wide { px.extend_from_slice(&v.to_ne_bytes()) } else { px.push(v as u8) };
    let key: Option<Vec<u16>> = if ct == 3 { None } else { trns.as_ref().map(|t| t.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect()) };
    for p in s.chunks(ch) {
        if ct == 3 {
            let i = p[0] as usize;
            px.extend_from_slice(&plte[i * 3..i * 3 + 3]);
            if let Some(t) = trns {
                px.push(t.get(i).copied().unwrap_or(255));
            }
            continue;
        }
        for v in p {
            let k = if depth < 8 { 255 / ((1u16 << depth) - 1) } else { 1 };
            put(&mut px, v * k);
        }
        if let Some(k) = &key {
            let hit = k.iter().zip(p).all(|(a, b)| a == b);
            put(&mut px, if hit { 0 } else if wide { 65535 } else { 255 });
        }
    }
    let c = match (ct, trns.is_some(), wide) {
        (0, false, false) => ColorType::L8,
        (0, false, true) => ColorType::L16,
        (0, true, false) | (4, _, false) => ColorType::La8,
        (0, true, true) | (4, _, true) => ColorType::La16,
        (2, false, true) => ColorType::Rgb16,
        (2, true, true) | (6, _, true) => ColorType::Rgba16,
        (2 | 3, false, _) => ColorType::Rgb8,
        _ => ColorType::Rgba8,
    };
    (c, px)
}
pub fn still(r: &mut Rng, w: u32, h: u32, eight: bool) -> Still {
    let (ct, depth) = loop {
        let c = *r.pick(&[(0u8, 1u8), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16)]);
        if !eight || c.1 <= 8 {
            break c;
        }
    };
    still_as(r, w, h, ct, depth)
}
pub fn still_as(r: &mut Rng, w: u32, h: u32, ct: u8, depth: u8) -> Still {
    let ch = [1usize, 0, 3, 1, 2, 0, 4][ct as usize];
    let n = (w * h) as usize;
    let max = ((1u32 << depth) - 1) as u16;
    let mut plte = vec![];
    let mut top = max as usize + 1;
    if ct == 3 {
        let k = if r.bool() { top } else { r.range(1, top as u64) as usize };
        plte = r.bytes(k * 3);
        top = k;
    }
    let s: Vec<u16> = if ct == 3 || depth < 8 || r.chance(1, 3) {
        indices(r, n * ch, top).into_iter().map(|v| v as u16).collect()
    } else {
        let step = r.u16() & 7;
        (0..n * ch).map(|i| if r.chance(1, 3) { r.u16() & max } else { (i as u16).wrapping_mul(step) & max }).collect()
    };
    let trns = match ct {
        3 if r.bool() => {
            let k = r.range(1, top as u64) as usize;
            Some(r.bytes(k))
        }
        0 | 2 if r.chance(1, 3) => {
            let p = r.below(n as u64) as usize * ch;
            Some(s[p..p + ch].iter().flat_map(|v| v.to_be_bytes()).collect())
        }
        _ => None,
    };
    let (color, px) = expand(ct, depth, &s, &plte, &trns);
    Still { ct, depth, w, h, interlace: r.chance(1, 3), s, plte, trns, color, px }
}
/// Same colour type, palette and transparency as `b`, other size and content.
pub fn still_like(r: &mut Rng, b: &Still, w: u32, h: u32) -> Still {
    let top = if b.ct == 3 { b.plte.len() / 3 } else { 1 << b.depth };
    let mut s: Vec<u16> = indices(r, (w * h) as usize * b.ch(), top).into_iter().map(|v| v as u16).collect();
    if b.ch() % 2 == 0 && b.depth == 8 {
        // alpha: all kinds
        for v in s.iter_mut().skip(b.ch() - 1).step_by(b.ch()) {
            if r.bool() {
                *v = *r.pick(&[0, 255, 128, 1]);
            }
        }
    }
    let (color, px) = expand(b.ct, b.depth, &s, &b.plte, &b.trns);
    Still { ct: b.ct, depth: b.depth, w, h, interlace: b.interlace, s, plte: b.plte.clone(), trns: b.trns.clone(), color, px }
}
/// Image data, split over several chunks.
pub fn data(r: &mut Rng, s: &Still) -> Vec<Vec<u8>> {
    let d = scan(r, &s.s, s.w as usize, s.h as usize, s.ch(), s.depth as u32, s.interlace);
    let z = zlib(r, &d);
    match r.below(4) {
        0 => {
            let mut v = vec![];
            let mut at = 0;
            while at < z.len() {
                let k = (r.range(0, 40) as usize).min(z.len() - at);
                v.push(z[at..at + k].to_vec());
                at += k;
            }
            v
        }
        1 => z.chunks(r.range(1, 300) as usize).map(|c| c.to_vec()).collect(),
        _ => vec![z],
    }
}
fn ancillary(r: &mut Rng, o: &mut Vec<u8>, before_plte: bool, icc: &mut Option<Vec<u8>>) {
    if before_plte {
        if r.chance(1, 4) {
            chunk(o, b"gAMA", &45455u32.to_be_bytes());
        }
        if r.chance(1, 6) {
            chunk(o, b"cHRM", &[0, 0, 122, 38, 0, 0, 128, 132, 0, 0, 250, 0, 0, 0, 128, 232, 0, 0, 117, 48, 0, 0, 234, 96, 0, 0, 58, 152, 0, 0, 23, 112]);
        }
        if r.chance(1, 4) {
            let k = if r.chance(1, 4) { r.range(1, 70_000) } else { r.range(1, 600) } as usize;
            let p = content(r, k);
            let mut d = b"profile name\0\0".to_vec();
            d.extend(zlib(r, &p));
            chunk(o, b"iCCP", &d);
            *icc = Some(p);
        } else if r.chance(1, 6) {
            chunk(o, b"sRGB", &[r.below(4) as u8]);
        }
    } else {
        if r.chance(1, 5) {
            chunk(o, b"pHYs", &[0, 0, 11, 18, 0, 0, 11, 18, 1]);
        }
        if r.chance(1, 5) {
            let mut d = b"Comment\0".to_vec();
            d.extend(r.bytes(20));
            chunk(o, b"tEXt", &d);
        }
        if r.chance(1, 6) {
            let mut d = b"Comment\0\0".to_vec();
            d.extend(zlib(r, b"hello hello hello"));
            chunk(o, b"zTXt", &d);
        }
        if r.chance(1, 6) {
            let d = r.bytes(13);
            chunk(o, b"prVt", &d);
        }
        if r.chance(1, 8) {
            chunk(o, b"tIME", &[7, 230, 3, 4, 5, 6, 7]);
        }
    }
}
pub fn head(r: &mut Rng, s: &Still, icc: &mut Option<Vec<u8>>, plain: bool) -> Vec<u8> {
    let mut o = SIG.to_vec();
    chunk(&mut o, b"IHDR", &s.ihdr());
    if !plain {
        ancillary(r, &mut o, true, icc);
    }
    if s.ct == 3 || (s.ct & 2 != 0 && r.chance(1, 8)) {
        let p = if s.ct == 3 { s.plte.clone() } else { r.bytes(30) };
        chunk(&mut o, b"PLTE", &p);
    }
    if let Some(t) = &s.trns {
        chunk(&mut o, b"tRNS", t);
    }
    if !plain {
        ancillary(r, &mut o, false, icc);
    }
    o
}
pub fn gen(r: &mut Rng) -> FileCase {
    let (w, h) = dims(r);
    let s = still(r, w, h, false);
    encode(r, &s, false)
}
pub fn encode(r: &mut Rng, s: &Still, plain: bool) -> FileCase {
    let mut f = FileCase::new(
        image::ImageFormat::Png,
        format!("png type{} depth{}{}{}", s.ct, s.depth, if s.trns.is_some() { " tRNS" } else { "" }, if s.interlace { " interlaced" } else { "" }),
        s.w,
        s.h,
        s.color,
    );
    let mut o = head(r, s, &mut f.icc, plain);
    let d = data(r, s);
    for c in d {
        chunk(&mut o, b"IDAT", &c);
    }
    // the last bytes of the stream are the Adler sum and the chunk's CRC: the
    // pixels may be complete without them
    f.data_end = o.len().saturating_sub(8 + 4 + 8);
    if !plain && r.chance(1, 6) {
        chunk(&mut o, b"tEXt", b"Comment\0after");
    }
    chunk(&mut o, b"IEND", &[]);
    f.bytes = o;
    f.px = s.px.clone();
    f
}
