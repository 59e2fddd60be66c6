//! Baseline JPEG with random coefficients; the expected pixels come from a
//! floating point inverse transform.
use super::*;

const ZZ: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59,
    52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];
struct Bits {
    o: Vec<u8>,
    cur: u32,
    n: u32,
}
impl Bits {
    fn put(&mut self, v: u32, k: u32) {
        for i in (0..k).rev() {
            self.cur = self.cur << 1 | (v >> i & 1);
            self.n += 1;
            if self.n == 8 {
                let b = self.cur as u8;
                self.o.push(b);
                if b == 255 {
                    self.o.push(0);
                }
                self.cur = 0;
                self.n = 0;
            }
        }
    }
    fn flush(&mut self) {
        while self.n != 0 {
            self.put(1, 1);
        }
    }
}
/// A complete code over all 8-bit symbols used: flat lengths.
struct Huff {
    counts: [u8; 16],
    vals: Vec<u8>,
    code: Vec<(u32, u32)>,
}
fn huff(r: &mut Rng, mut syms: Vec<u8>) -> Huff {
    r.shuffle(&mut syms);
    // lengths: a few short codes, then enough room for the rest (the all-ones
    // code stays unused)
    let mut counts = [0u8; 16];
    let mut left = syms.len();
    let mut room = 1u32; // free codes at this length
    let rest = |l: usize| 1u64 << (15 - l);
    for l in 0..16 {
        room *= 2;
        let mut take = if l == 15 { left as u32 } else { r.below(room as u64) as u32 };
        take = take.min(left as u32);
        // what is left must fit behind, with one code spare
        while take > 0 && ((room - take) as u64 * rest(l)) < (left as u64 - take as u64) + 1 {
            take -= 1;
        }
        if l < 15 {
            // and must be reachable: keep one free code
            take = take.min(room - 1);
        }
        counts[l] = take.min(255) as u8;
        left -= counts[l] as usize;
        room -= counts[l] as u32;
        if left == 0 {
            break;
        }
    }
    assert_eq!(left, 0);
    let mut code = vec![(0, 0); 256];
    let mut c = 0u32;
    let mut k = 0;
    for l in 0..16 {
        for _ in 0..counts[l] {
            code[syms[k] as usize] = (c, l as u32 + 1);
            c += 1;
            k += 1;
        }
        c <<= 1;
    }
    Huff { counts, vals: syms, code }
}
fn cat(v: i32) -> u32 {
    32 - v.unsigned_abs().leading_zeros()
}
fn put_val(b: &mut Bits, v: i32) {
    let k = cat(v);
    if k > 0 {
        b.put((if v < 0 { v - 1 } else { v }) as u32 & ((1 << k) - 1), k);
    }
}
pub fn seg(o: &mut Vec<u8>, m: u8, d: &[u8]) {
    o.extend_from_slice(&[0xff, m]);
    be16(o, d.len() as u16 + 2);
    o.extend_from_slice(d);
}

pub fn gen(r: &mut Rng) -> FileCase {
    let (w, h) = (r.r32(1, 60), r.r32(1, 45));
    let gray = r.chance(1, 3);
    let ncomp = if gray { 1 } else { 3 };
    let (hs, vs) = if gray { (1, 1) } else { *r.pick(&[(1u32, 1u32), (1, 1), (2, 1), (1, 2), (2, 2)]) };
    let flat_chroma = (hs, vs) != (1, 1);
    let (mw, mh) = (8 * hs, 8 * vs);
    let (mx, my) = (w.div_ceil(mw), h.div_ceil(mh));
    let qt: Vec<Vec<u16>> = (0..2).map(|_| { let s = r.r32(1, 12) as u16; (0..64).map(|i| s + (i as u16 / 8) * r.r32(0, 2) as u16).collect() }).collect();
    // coefficient blocks
    let dims: Vec<(u32, u32)> = (0..ncomp).map(|c| if c == 0 { (mx * hs, my * vs) } else { (mx, my) }).collect();
    let mut blocks: Vec<Vec<[i32; 64]>> = vec![];
    for c in 0..ncomp {
        let q = &qt[(c > 0) as usize];
        let n = (dims[c].0 * dims[c].1) as usize;
        let mut v = vec![];
        let lim = 700 / q[0] as i64;
        let base = r.irange(-lim, lim) as i32;
        for _ in 0..n {
            let mut b = [0i32; 64];
            if c > 0 && flat_chroma {
                b[0] = base;
            } else {
                b[0] = r.irange(-lim, lim) as i32;
                let many = if r.chance(1, 5) { 30 } else { 5 };
                for _ in 0..r.below(many) {
                    let k = r.range(1, 63) as usize;
                    let lim = (120 / q[k] as i64).max(1);
                    b[k] = r.irange(-lim, lim) as i32;
                }
            }
            v.push(b);
        }
        blocks.push(v);
    }
    // planes
    let cosine: Vec<f64> = (0..64)
        .map(|i| {
            let (u, x) = (i / 8, i % 8);
            (if u == 0 { 0.5f64.sqrt() } else { 1.0 }) * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos() / 2.0
        })
        .collect();
    let plane = |c: usize| -> Vec<f64> {
        let (bw, bh) = dims[c];
        let q = &qt[(c > 0) as usize];
        let mut p = vec![0.0; (bw * bh * 64) as usize];
        for (bi, b) in blocks[c].iter().enumerate() {
            let (bx, by) = (bi as u32 % bw, bi as u32 / bw);
            let mut f = [0.0; 64];
            for k in 0..64 {
                f[ZZ[k]] = b[k] as f64 * q[k] as f64;
            }
            for y in 0..8 {
                let mut t = [0.0; 8];
                for (v, tv) in t.iter_mut().enumerate() {
                    // sum over u is done below; here fold the vertical part
                    *tv = (0..8).map(|u| f[u * 8 + v] * cosine[u * 8 + y]).sum();
                }
                for x in 0..8 {
                    let s: f64 = (0..8).map(|v| t[v] * cosine[v * 8 + x]).sum();
                    p[((by * 8 + y as u32) * bw * 8 + bx * 8 + x as u32) as usize] = (s + 128.0).round().clamp(0.0, 255.0);
                }
            }
        }
        p
    };
    let planes: Vec<Vec<f64>> = (0..ncomp).map(plane).collect();
    let mut real = vec![];
    for y in 0..h {
        for x in 0..w {
            let lum = planes[0][(y * dims[0].0 * 8 + x) as usize];
            if gray {
                real.push(lum);
            } else {
                let at = ((y / vs) * dims[1].0 * 8 + x / hs) as usize;
                let (cb, cr) = (planes[1][at] - 128.0, planes[2][at] - 128.0);
                for v in [lum + 1.402 * cr, lum - 0.344136 * cb - 0.714136 * cr, lum + 1.772 * cb] {
                    real.push(v.clamp(0.0, 255.0));
                }
            }
        }
    }
    // file
    let mut o = vec![0xff, 0xd8];
    let jfif = r.chance(3, 4);
    if jfif {
        seg(&mut o, 0xe0, b"JFIF\0\x01\x02\x00\x00\x01\x00\x01\x00\x00");
    }
    let name = match (gray, hs, vs) {
        (true, ..) => "gray",
        (_, 1, 1) => "444",
        (_, 2, 1) => "422",
        (_, 1, 2) => "440",
        _ => "420",
    };
    let restart = if r.chance(1, 3) { r.r32(1, 5) as u16 } else { 0 };
    let mut f = FileCase::new(
        image::ImageFormat::Jpeg,
        format!("jpeg {name}{}", if restart > 0 { " restarts" } else { "" }),
        w,
        h,
        if gray { ColorType::L8 } else { ColorType::Rgb8 },
    );
    let mut segs: Vec<(u8, Vec<u8>)> = vec![];
    if r.chance(1, 3) {
        f.orientation = r.r32(1, 8) as u8;
        let e = super::webp::exif(r, f.orientation);
        let mut d = b"Exif\0\0".to_vec();
        d.extend_from_slice(&e);
        f.exif = Some(e);
        segs.push((0xe1, d));
    }
    if r.chance(1, 4) {
        let k = r.range(1, 900) as usize;
        let p = r.bytes(k);
        let parts = r.range(1, 4).min(k as u64) as usize;
        let step = k.div_ceil(parts);
        let num = k.div_ceil(step);
        for (i, c) in p.chunks(step).enumerate() {
            let mut d = b"ICC_PROFILE\0".to_vec();
            d.push(i as u8 + 1);
            d.push(num as u8);
            d.extend_from_slice(c);
            segs.push((0xe2, d));
        }
        f.icc = Some(p);
    }
    if r.chance(1, 4) {
        segs.push((0xfe, b"a comment".to_vec()));
    }
    if r.chance(1, 5) {
        segs.push((0xec, r.bytes(20)));
    }
    for (m, d) in segs {
        seg(&mut o, m, &d);
    }
    let nt = if gray { 1 } else { 2 };
    for (i, q) in qt.iter().take(nt).enumerate() {
        let mut d = vec![i as u8];
        d.extend(q.iter().map(|v| *v as u8));
        seg(&mut o, 0xdb, &d);
    }
    let mut d = vec![8];
    be16(&mut d, h as u16);
    be16(&mut d, w as u16);
    d.push(ncomp as u8);
    for c in 0..ncomp {
        d.extend_from_slice(&[c as u8 + 1, if c == 0 { (hs << 4 | vs) as u8 } else { 0x11 }, (c > 0) as u8]);
    }
    seg(&mut o, 0xc0, &d);
    let dc: Vec<Huff> = (0..nt).map(|_| huff(r, (0..12).collect())).collect();
    let ac: Vec<Huff> = (0..nt)
        .map(|_| {
            let mut s: Vec<u8> = vec![0, 0xf0];
            for run in 0..16u8 {
                for k in 1..=8u8 {
                    s.push(run << 4 | k);
                }
            }
            huff(r, s)
        })
        .collect();
    for (cl, t) in [(0u8, &dc), (0x10, &ac)] {
        for (i, t) in t.iter().enumerate() {
            let mut d = vec![cl | i as u8];
            d.extend_from_slice(&t.counts);
            d.extend_from_slice(&t.vals);
            seg(&mut o, 0xc4, &d);
        }
    }
    if restart > 0 {
        seg(&mut o, 0xdd, &restart.to_be_bytes());
    }
    let mut d = vec![ncomp as u8];
    for c in 0..ncomp {
        d.extend_from_slice(&[c as u8 + 1, if c == 0 { 0 } else { 0x11 }]);
    }
    d.extend_from_slice(&[0, 63, 0]);
    seg(&mut o, 0xda, &d);
    let mut b = Bits { o: vec![], cur: 0, n: 0 };
    let mut pred = [0i32; 3];
    let (mut since, mut rst) = (0, 0u8);
    // a single component is not interleaved: blocks that cover the image only
    for m in 0..mx * my {
        if restart > 0 && since == restart {
            b.flush();
            b.o.extend_from_slice(&[0xff, 0xd0 + rst]);
            rst = (rst + 1) % 8;
            pred = [0; 3];
            since = 0;
        }
        since += 1;
        let (ux, uy) = (m % mx, m / mx);
        for c in 0..ncomp {
            let (ch, cv) = if c == 0 { (hs, vs) } else { (1, 1) };
            let t = (c > 0) as usize;
            for v in 0..cv {
                for u in 0..ch {
                    let blk = &blocks[c][((uy * cv + v) * dims[c].0 + ux * ch + u) as usize];
                    let diff = blk[0] - pred[c];
                    pred[c] = blk[0];
                    let (code, len) = dc[t].code[cat(diff) as usize];
                    b.put(code, len);
                    put_val(&mut b, diff);
                    let mut run = 0;
                    for &x in &blk[1..] {
                        if x == 0 {
                            run += 1;
                            continue;
                        }
                        while run >= 16 {
                            let (code, len) = ac[t].code[0xf0];
                            b.put(code, len);
                            run -= 16;
                        }
                        let (code, len) = ac[t].code[(run as usize) << 4 | cat(x) as usize];
                        b.put(code, len);
                        put_val(&mut b, x);
                        run = 0;
                    }
                    if run > 0 {
                        let (code, len) = ac[t].code[0];
                        b.put(code, len);
                    }
                }
            }
        }
    }
    b.flush();
    o.extend_from_slice(&b.o);
    f.data_end = o.len();
    o.extend_from_slice(&[0xff, 0xd9]);
    f.bytes = o;
    f.px = vec![0; real.len()];
    f.real = Some(real);
    f.tol = 3.5;
    f
}
