//! Error bounds of the lossy formats.
use crate::readers::jpeg::{dct, Jpeg};

/// Exact colour transform of JFIF.
pub fn ycc(p: [f64; 3]) -> [f64; 3] {
    let [r, g, b] = p;
    [0.299 * r + 0.587 * g + 0.114 * b, -0.168735892 * r - 0.331264108 * g + 0.5 * b + 128.0, 0.5 * r - 0.418687589 * g - 0.081312411 * b + 128.0]
}

/// What was seen when a JPEG file was held against the picture it was made of.
#[derive(Default, Debug)]
pub struct Seen {
    pub blocks: u64,
    pub edge_blocks: u64,
    /// largest distance of a coefficient beyond half its quantisation step
    pub excess: f64,
}
/// Every coefficient of every whole block within half a quantisation step of
/// the exact transform; blocks over the edge within the sum of that. The slack
/// is for colours rounded to integers before the transform (half of one per
/// sample is 4 in the first coefficient) and for integer arithmetic in it.
/// `px`: gray or RGB samples.
pub fn jpeg_bound(j: &Jpeg, ch: usize, px: &[f64]) -> Result<Seen, String> {
    let (w, h) = (j.img.w as usize, j.img.h as usize);
    let mut seen = Seen::default();
    if j.subsampled {
        return Ok(seen);
    }
    let mut src: Vec<Vec<f64>> = vec![vec![]; ch];
    for p in px.chunks_exact(ch) {
        if ch == 1 {
            src[0].push(p[0]);
        } else {
            for (s, v) in src.iter_mut().zip(ycc([p[0], p[1], p[2]])) {
                s.push(v);
            }
        }
    }
    let slack = if ch == 1 { 2.0 } else { 6.5 };
    for (k, (stride, pl)) in j.planes.iter().enumerate() {
        let q = &j.qt[k];
        let whole: f64 = q.iter().map(|q| (*q as f64 / 2.0).powi(2)).sum::<f64>().sqrt();
        for by in (0..h).step_by(8) {
            for bx in (0..w).step_by(8) {
                if bx + 8 <= w && by + 8 <= h {
                    let d: [f64; 64] = std::array::from_fn(|i| {
                        let (x, y) = (bx + i % 8, by + i / 8);
                        pl[y * stride + x] - src[k][y * w + x]
                    });
                    for (n, v) in dct(&d).iter().enumerate() {
                        let e = v.abs() - q[n] as f64 / 2.0;
                        seen.excess = seen.excess.max(e);
                        if e > slack {
                            return Err(format!("component {k}, block at {bx},{by}: coefficient {},{} is {:.2} off with a step of {}", n % 8, n / 8, v, q[n]));
                        }
                    }
                    seen.blocks += 1;
                } else {
                    let mut e = 0.0;
                    for y in by..h.min(by + 8) {
                        for x in bx..w.min(bx + 8) {
                            e += (pl[y * stride + x] - src[k][y * w + x]).powi(2);
                        }
                    }
                    if e.sqrt() > whole + 12.0 {
                        return Err(format!("component {k}, edge block at {bx},{by}: error {:.1}, quantisation allows {whole:.1}", e.sqrt()));
                    }
                    seen.edge_blocks += 1;
                }
            }
        }
    }
    Ok(seen)
}

/// Largest and mean difference.
pub fn diff(a: &[f64], b: &[f64]) -> (f64, f64) {
    let (mut m, mut s) = (0.0f64, 0.0);
    for (x, y) in a.iter().zip(b) {
        let d = (x - y).abs();
        m = m.max(d);
        s += d;
    }
    (m, s / a.len().max(1) as f64)
}

/// RGB of soft gradients, `amp` the distance between neighbours at most.
pub fn smooth(r: &mut crate::Rng, w: u32, h: u32, ch: usize) -> Vec<u8> {
    let k: Vec<(f64, f64, f64)> = (0..ch).map(|_| (r.f64() * 255.0, r.f64() * 4.0 - 2.0, r.f64() * 4.0 - 2.0)).collect();
    let mut v = Vec::with_capacity((w * h) as usize * ch);
    // up and down between 0 and 255
    let tri = |t: f64| {
        let m = t.rem_euclid(510.0);
        if m > 255.0 {
            510.0 - m
        } else {
            m
        }
    };
    for y in 0..h {
        for x in 0..w {
            for (a, b, c) in &k {
                v.push(tri(a + b * x as f64 + c * y as f64).round() as u8);
            }
        }
    }
    v
}
