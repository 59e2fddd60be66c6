//! Baseline JPEG (T.81) in a JFIF file, with an exact inverse transform.
use super::{Img, In, Res};
use crate::must;

pub struct Jpeg {
    pub img: Img,
    /// quantisation tables in natural order, by component
    pub qt: Vec<[u16; 64]>,
    /// number of blocks whose coefficients were all checked
    pub blocks: usize,
    /// per component: samples per row, samples before rounding and clamping
    pub planes: Vec<(usize, Vec<f64>)>,
    pub subsampled: bool,
}
struct Table {
    /// (first code, first index, count) per length
    mincode: [i32; 17],
    maxcode: [i32; 17],
    valptr: [usize; 17],
    vals: Vec<u8>,
}
const ZZ: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45,
    38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];
struct Scan<'a> {
    b: &'a [u8],
    p: usize,
    bit: u32,
}
impl Scan<'_> {
    fn next(&mut self) -> Res<u32> {
        let v = *self.b.get(self.p).ok_or("scan ends early")?;
        if self.bit == 0 && v == 0xff {
            must!(self.b.get(self.p + 1) == Some(&0), "marker inside the scan at {}", self.p);
        }
        let r = v >> (7 - self.bit) & 1;
        self.bit += 1;
        if self.bit == 8 {
            self.bit = 0;
            self.p += if v == 0xff { 2 } else { 1 };
        }
        Ok(r as u32)
    }
    fn bits(&mut self, n: u32) -> Res<i32> {
        let mut v = 0i32;
        for _ in 0..n {
            v = v << 1 | self.next()? as i32;
        }
        Ok(if n > 0 && v < 1 << (n - 1) { v - (1 << n) + 1 } else { v })
    }
    fn code(&mut self, t: &Table) -> Res<u8> {
        let mut c = 0i32;
        for l in 1..=16 {
            c = c << 1 | self.next()? as i32;
            if t.maxcode[l] >= 0 && c <= t.maxcode[l] {
                return Ok(t.vals[t.valptr[l] + (c - t.mincode[l]) as usize]);
            }
        }
        Err("unknown code".into())
    }
    /// pad with ones
    fn finish(&mut self) -> Res<()> {
        while self.bit != 0 {
            must!(self.next()? == 1, "padding at the end of the scan");
        }
        Ok(())
    }
}
fn cosines() -> &'static [[f64; 8]; 8] {
    use std::f64::consts::PI;
    static COS: std::sync::OnceLock<[[f64; 8]; 8]> = std::sync::OnceLock::new();
    COS.get_or_init(|| std::array::from_fn(|x| {
        std::array::from_fn(|u| {
            let s = if u == 0 { (1.0f64 / 8.0).sqrt() } else { 0.5 };
            s * ((2 * x + 1) as f64 * u as f64 * PI / 16.0).cos()
        })
    }))
}
/// Forward transform, orthonormal.
pub fn dct(p: &[f64; 64]) -> [f64; 64] {
    let k = cosines();
    let mut t = [0.0; 64];
    for y in 0..8 {
        for u in 0..8 {
            t[y * 8 + u] = (0..8).map(|x| p[y * 8 + x] * k[x][u]).sum();
        }
    }
    let mut o = [0.0; 64];
    for v in 0..8 {
        for u in 0..8 {
            o[v * 8 + u] = (0..8).map(|y| t[y * 8 + u] * k[y][v]).sum();
        }
    }
    o
}
fn idct(c: &[f64; 64]) -> [f64; 64] {
    let k = cosines();
    let mut t = [0.0; 64];
    for v in 0..8 {
        for x in 0..8 {
            t[v * 8 + x] = (0..8).map(|u| c[v * 8 + u] * k[x][u]).sum();
        }
    }
    let mut o = [0.0; 64];
    for y in 0..8 {
        for x in 0..8 {
            o[y * 8 + x] = (0..8).map(|v| t[v * 8 + x] * k[y][v]).sum();
        }
    }
    o
}

pub fn read(b: &[u8]) -> Res<Img> {
    Ok(parse(b)?.img)
}
pub fn parse(b: &[u8]) -> Res<Jpeg> {
    let mut i = In::new(b);
    must!(i.take(2)? == [0xff, 0xd8], "no SOI");
    let mut qt: [Option<[u16; 64]>; 4] = [None; 4];
    let mut ht: [[Option<Table>; 4]; 2] = Default::default();
    let mut frame: Option<(usize, usize, Vec<(u8, usize, usize, u8)>)> = None;
    let mut icc: Vec<(u8, u8, Vec<u8>)> = vec![];
    let mut first = true;
    let scan = loop {
        must!(i.u8()? == 0xff, "no marker at {}", i.p - 1);
        let m = i.u8()?;
        let n = i.be16()? as usize;
        must!(n >= 2, "segment {m:#x} of length {n}");
        let d = i.take(n - 2)?;
        must!(!first || m == 0xe0, "first segment is {m:#x}");
        let mut s = In::new(d);
        match m {
            0xe0 => {
                must!(first, "a second APP0");
                must!(s.take(5)? == b"JFIF\0", "JFIF identifier");
                let ver = s.be16()?;
                must!(ver >> 8 == 1, "JFIF version {ver:#x}");
                let unit = s.u8()?;
                must!(unit <= 2 && s.be16()? > 0 && s.be16()? > 0, "density");
                must!(s.take(2)? == [0, 0], "thumbnail");
                s.end()?;
            }
            0xe2 => {
                must!(s.take(12)? == b"ICC_PROFILE\0", "APP2 {:?}", &d[..d.len().min(12)]);
                icc.push((s.u8()?, s.u8()?, s.b[s.p..].to_vec()));
            }
            0xe1 | 0xe3..=0xef | 0xfe => {}
            0xdb => {
                while s.left() > 0 {
                    let t = s.u8()?;
                    must!(t >> 4 == 0 && t < 4, "quantisation table {t:#x}");
                    let mut q = [0u16; 64];
                    for z in ZZ {
                        q[z] = s.u8()? as u16;
                        must!(q[z] > 0, "quantisation step 0");
                    }
                    qt[t as usize] = Some(q);
                }
            }
            0xc0 => {
                must!(frame.is_none(), "two frames");
                must!(s.u8()? == 8, "precision");
                let (h, w, n) = (s.be16()? as usize, s.be16()? as usize, s.u8()? as usize);
                must!(w > 0 && h > 0 && matches!(n, 1 | 3), "{w}x{h} with {n} components");
                let mut c = vec![];
                for _ in 0..n {
                    let (id, hv, q) = (s.u8()?, s.u8()?, s.u8()?);
                    must!((1..=4).contains(&(hv >> 4)) && (1..=4).contains(&(hv & 15)) && q < 4, "component {id}: {hv:#x} {q}");
                    must!(c.iter().all(|x: &(u8, usize, usize, u8)| x.0 != id), "component {id} twice");
                    c.push((id, (hv >> 4) as usize, (hv & 15) as usize, q));
                }
                // JFIF: 1 for Y, 2 and 3 for the others
                must!(c.iter().enumerate().all(|(k, x)| x.0 == k as u8 + 1), "component numbers {:?}", c.iter().map(|x| x.0).collect::<Vec<_>>());
                s.end()?;
                frame = Some((w, h, c));
            }
            0xc4 => {
                while s.left() > 0 {
                    let t = s.u8()?;
                    must!(t & 15 < 2 && t >> 4 < 2, "Huffman table {t:#x}");
                    let counts = s.take(16)?.to_vec();
                    let total: usize = counts.iter().map(|c| *c as usize).sum();
                    must!((1..=256).contains(&total), "{total} codes");
                    let vals = s.take(total)?.to_vec();
                    let mut u = vals.clone();
                    u.sort();
                    u.dedup();
                    must!(u.len() == total, "value twice in a Huffman table");
                    must!(t >> 4 == 1 || vals.iter().all(|v| *v <= 11), "DC category");
                    let mut tb = Table { mincode: [0; 17], maxcode: [-1; 17], valptr: [0; 17], vals };
                    let (mut code, mut k) = (0i32, 0usize);
                    for l in 1..=16 {
                        let c = counts[l - 1] as i32;
                        if c > 0 {
                            tb.mincode[l] = code;
                            tb.valptr[l] = k;
                            code += c;
                            k += c as usize;
                            tb.maxcode[l] = code - 1;
                            // no code of all ones
                            must!(code < 1 << l, "over-full Huffman table at length {l}");
                        }
                        code <<= 1;
                    }
                    ht[(t >> 4) as usize][(t & 15) as usize] = Some(tb);
                }
            }
            0xda => {
                let (_, _, c) = frame.as_ref().ok_or("scan before frame")?;
                let n = s.u8()? as usize;
                must!(n == c.len(), "{n} components in the scan");
                let mut sel = vec![];
                for k in 0..n {
                    let (id, t) = (s.u8()?, s.u8()?);
                    must!(id == c[k].0 && t >> 4 < 2 && t & 15 < 2, "scan component {id} tables {t:#x}");
                    sel.push(((t >> 4) as usize, (t & 15) as usize));
                }
                must!(s.take(3)? == [0, 63, 0], "spectral selection");
                s.end()?;
                break sel;
            }
            _ => return Err(format!("segment {m:#x}")),
        }
        first = false;
    };
    let (w, h, comps) = frame.unwrap();
    let (hm, vm) = (comps.iter().map(|c| c.1).max().unwrap(), comps.iter().map(|c| c.2).max().unwrap());
    // a single component is not interleaved
    let comps: Vec<_> = if comps.len() == 1 { vec![(comps[0].0, 1, 1, comps[0].3)] } else { comps };
    let (hm, vm) = if comps.len() == 1 { (1, 1) } else { (hm, vm) };
    let (mx, my) = (w.div_ceil(8 * hm), h.div_ceil(8 * vm));
    let mut planes: Vec<(usize, Vec<f64>)> = comps.iter().map(|c| (mx * c.1 * 8, vec![0.0; mx * c.1 * 8 * my * c.2 * 8])).collect();
    let mut sc = Scan { b, p: i.p, bit: 0 };
    let mut dc = vec![0i32; comps.len()];
    let mut blocks = 0;
    for y in 0..my {
        for x in 0..mx {
            for (k, c) in comps.iter().enumerate() {
                let q = qt[c.3 as usize].as_ref().ok_or("missing quantisation table")?;
                let (d, a) = (ht[0][scan[k].0].as_ref().ok_or("missing DC table")?, ht[1][scan[k].1].as_ref().ok_or("missing AC table")?);
                for v in 0..c.2 {
                    for u in 0..c.1 {
                        let mut co = [0f64; 64];
                        let s = sc.code(d)? as u32;
                        dc[k] += sc.bits(s)?;
                        must!((-1024..=1023).contains(&(dc[k])) || q[0] > 1 || dc[k].abs() <= 2048, "DC {}", dc[k]);
                        co[0] = dc[k] as f64 * q[0] as f64;
                        let mut z = 1;
                        while z < 64 {
                            let rs = sc.code(a)?;
                            let (r, s) = ((rs >> 4) as usize, (rs & 15) as u32);
                            if s == 0 {
                                if r == 15 {
                                    z += 16;
                                    must!(z < 64, "run of zeros past the block");
                                    continue;
                                }
                                must!(r == 0, "end of block code {rs:#x}");
                                break;
                            }
                            must!(s <= 10, "AC category {s}");
                            z += r;
                            must!(z < 64, "coefficient {z}");
                            co[ZZ[z]] = sc.bits(s)? as f64 * q[ZZ[z]] as f64;
                            z += 1;
                        }
                        let o = idct(&co);
                        let (stride, pl) = &mut planes[k];
                        let (bx, by) = ((x * c.1 + u) * 8, (y * c.2 + v) * 8);
                        for yy in 0..8 {
                            for xx in 0..8 {
                                pl[(by + yy) * *stride + bx + xx] = o[yy * 8 + xx] + 128.0;
                            }
                        }
                        blocks += 1;
                    }
                }
            }
        }
    }
    sc.finish()?;
    must!(b.get(sc.p..) == Some(&[0xff, 0xd9][..]), "{} bytes after the scan instead of EOI", b.len() as i64 - sc.p as i64);
    let ch = comps.len();
    let mut o = Img::new(w as u32, h as u32, ch, 255);
    for y in 0..h {
        for x in 0..w {
            let s: Vec<f64> = (0..ch).map(|k| planes[k].1[(y * comps[k].2 / vm) * planes[k].0 + x * comps[k].1 / hm].clamp(0.0, 255.0)).collect();
            if ch == 1 {
                o.px.push(s[0]);
            } else {
                let (cb, cr) = (s[1] - 128.0, s[2] - 128.0);
                for v in [s[0] + 1.402 * cr, s[0] - 0.344136286 * cb - 0.714136286 * cr, s[0] + 1.772 * cb] {
                    o.px.push(v.clamp(0.0, 255.0));
                }
            }
        }
    }
    if !icc.is_empty() {
        let n = icc.len();
        for (k, (s, t, _)) in icc.iter().enumerate() {
            must!(*s as usize == k + 1 && *t as usize == n, "profile part {s} of {t} at place {} of {n}", k + 1);
        }
        o.icc = Some(icc.into_iter().flat_map(|x| x.2).collect());
    }
    o.notes.push(if hm * vm == 1 { "jpeg full chroma" } else { "jpeg subsampled chroma" });
    let qt = comps.iter().map(|c| qt[c.3 as usize].unwrap()).collect();
    Ok(Jpeg { img: o, qt, blocks, planes, subsampled: hm * vm > 1 })
}
