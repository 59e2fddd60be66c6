//! Radiance RGBE: flat, old and new run-length coding.
use super::*;

fn rle(r: &mut Rng, v: &[u8], o: &mut Vec<u8>) {
    let mut i = 0;
    while i < v.len() {
        let mut k = 1;
        while k < 127 && i + k < v.len() && v[i + k] == v[i] {
            k += 1;
        }
        if k >= 3 || (k >= 1 && r.chance(1, 5)) {
            let k = if r.chance(1, 6) { r.range(1, k as u64) as usize } else { k };
            o.push(128 + k as u8);
            o.push(v[i]);
            i += k;
        } else {
            let cap = if r.bool() { 128 } else { 6 };
            let m = r.range(1, (v.len() - i).min(cap) as u64) as usize;
            o.push(m as u8);
            o.extend_from_slice(&v[i..i + m]);
            i += m;
        }
    }
}

pub fn gen(r: &mut Rng) -> FileCase {
    let (w, h) = if r.chance(1, 300) { (*r.pick(&[32766u32, 32767, 32768, 40000]), 1) } else { dims(r) };
    let n = (w * h) as usize;
    let mode = if (8..=32767).contains(&w) { r.below(3) } else { r.below(2) };
    let name = ["flat", "old rle", "new rle"][mode as usize];
    let mut f = FileCase::new(image::ImageFormat::Hdr, format!("hdr {name}"), w, h, ColorType::Rgb32F);
    let mut px: Vec<[u8; 4]> = vec![];
    let base = r.bytes(4);
    for p in indices(r, n, 50) {
        px.push([base[0].wrapping_mul(p as u8), base[1] ^ p as u8, base[2].wrapping_add(3 * p as u8), if r.chance(1, 9) { r.u8() } else { base[3] }]);
    }
    if mode < 2 {
        // pixels that would read as markers need the largest component normalised
        for p in &mut px {
            if p[..3] == [1, 1, 1] || (w >= 8 && p[0] == 2 && p[1] == 2 && p[2] < 128) {
                p[2] |= 128;
            }
        }
        if w < 8 && r.chance(1, 3) {
            // narrow images have no per-component form: this is an ordinary pixel
            let k = r.below(n as u64) as usize;
            px[k] = [2, 2, r.below(128) as u8, r.u8()];
        }
    }
    let mut o = b"#?RADIANCE\n".to_vec();
    if r.bool() {
        o.extend_from_slice(b"# made by an independent writer\n");
    }
    if r.bool() {
        o.extend_from_slice(b"EXPOSURE=1.25\nSOFTWARE=x=y\n");
    }
    if r.chance(1, 4) {
        o.extend_from_slice(b"PIXASPECT=1.0\nCOLORCORR=1 1 1\nGAMMA=2.2\n");
    }
    if r.chance(3, 4) {
        o.extend_from_slice(b"FORMAT=32-bit_rle_rgbe\n");
    }
    o.push(b'\n');
    o.extend_from_slice(format!("-Y {h} +X {w}\n").as_bytes());
    for row in px.chunks(w as usize) {
        match mode {
            0 => row.iter().for_each(|p| o.extend_from_slice(p)),
            1 => {
                let mut i = 0;
                while i < row.len() {
                    let mut k = 1;
                    while i + k < row.len() && row[i + k] == row[i] {
                        k += 1;
                    }
                    o.extend_from_slice(&row[i]);
                    i += 1;
                    let mut left = if k > 1 { r.range(0, k as u64 - 1) } else { 0 };
                    i += left as usize;
                    while left > 0 || (i < row.len() && r.chance(1, 200)) {
                        o.extend_from_slice(&[1, 1, 1, (left & 255) as u8]);
                        left >>= 8;
                    }
                }
            }
            _ => {
                o.extend_from_slice(&[2, 2, (w >> 8) as u8, w as u8]);
                for c in 0..4 {
                    let v: Vec<u8> = row.iter().map(|p| p[c]).collect();
                    rle(r, &v, &mut o);
                }
            }
        }
    }
    f.data_end = o.len();
    f.bytes = o;
    f.px = px
        .iter()
        .flat_map(|p| {
            let s = if p[3] == 0 { 0.0 } else { 2f64.powi(p[3] as i32 - 136) };
            (0..3).flat_map(move |c| ((p[c] as f64 * s) as f32).to_ne_bytes())
        })
        .collect();
    f
}
