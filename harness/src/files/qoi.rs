//! QOI: every opcode, chosen at random among the applicable ones.
use super::*;

pub fn gen(r: &mut Rng) -> FileCase {
    let (w, h) = dims(r);
    let alpha = r.bool();
    let n = (w * h) as usize;
    let mut f = FileCase::new(image::ImageFormat::Qoi, if alpha { "qoi rgba" } else { "qoi rgb" }, w, h, if alpha { ColorType::Rgba8 } else { ColorType::Rgb8 });
    let mut o = b"qoif".to_vec();
    be32(&mut o, w);
    be32(&mut o, h);
    o.push(if alpha { 4 } else { 3 });
    o.push(r.below(2) as u8);
    // pixels: mixtures of runs, small steps, repeats and noise
    let mut px: Vec<[u8; 4]> = vec![];
    let mut cur = [0u8, 0, 0, 255];
    let mut hist: Vec<[u8; 4]> = vec![];
    while px.len() < n {
        match r.below(7) {
            0 => {}
            1 => {
                for c in cur.iter_mut().take(3) {
                    *c = c.wrapping_add(r.below(4) as u8).wrapping_sub(2);
                }
            }
            2 => {
                let g = r.below(64) as i32 - 32;
                let (a, b) = (r.below(16) as i32 - 8, r.below(16) as i32 - 8);
                cur[1] = (cur[1] as i32 + g) as u8;
                cur[0] = (cur[0] as i32 + g + a) as u8;
                cur[2] = (cur[2] as i32 + g + b) as u8;
            }
            3 if !hist.is_empty() => cur = *r.pick(&hist),
            4 if alpha => cur[3] = r.u8(),
            _ => {
                cur = [r.u8(), r.u8(), r.u8(), if alpha && r.bool() { r.u8() } else { cur[3] }];
            }
        }
        hist.push(cur);
        let k = if r.chance(1, 6) { *r.pick(&[2u64, 61, 62, 63, 64, 124, 125]) } else { 1 };
        for _ in 0..k {
            px.push(cur);
        }
    }
    px.truncate(n);
    let mut table = [[0u8; 4]; 64];
    let mut prev = [0u8, 0, 0, 255];
    let hash = |p: [u8; 4]| (p[0] as usize * 3 + p[1] as usize * 5 + p[2] as usize * 7 + p[3] as usize * 11) % 64;
    let lazy = r.chance(1, 3); // not always the shortest form
    let mut i = 0;
    while i < n {
        let p = px[i];
        if p == prev && !(lazy && r.chance(1, 4)) {
            let mut k = 1;
            while k < 62 && i + k < n && px[i + k] == p {
                k += 1;
            }
            if lazy && r.bool() {
                k = r.range(1, k as u64) as usize;
            }
            o.push(0xc0 | (k as u8 - 1));
            // a run of the start colour need not enter the table
            i += k;
            continue;
        }
        let skip = lazy && r.chance(1, 4);
        let d = [p[0].wrapping_sub(prev[0]) as i8, p[1].wrapping_sub(prev[1]) as i8, p[2].wrapping_sub(prev[2]) as i8];
        if !skip && table[hash(p)] == p && !(i > 0 && px[i - 1] == p) && p != [0; 4] {
            o.push(hash(p) as u8);
        } else if p[3] == prev[3] && !skip && d.iter().all(|v| (-2..=1).contains(v)) && p != prev {
            o.push(0x40 | ((d[0] + 2) as u8) << 4 | ((d[1] + 2) as u8) << 2 | (d[2] + 2) as u8);
        } else if p[3] == prev[3] && !skip && (-32..=31).contains(&d[1]) && (-8..=7).contains(&(d[0] as i32 - d[1] as i32)) && (-8..=7).contains(&(d[2] as i32 - d[1] as i32)) {
            o.push(0x80 | (d[1] + 32) as u8);
            o.push(((d[0] - d[1] + 8) as u8) << 4 | (d[2] - d[1] + 8) as u8);
        } else if p[3] == prev[3] && !(alpha && lazy && r.bool()) {
            o.push(0xfe);
            o.extend_from_slice(&p[..3]);
        } else {
            o.push(0xff);
            o.extend_from_slice(&p);
        }
        table[hash(p)] = p;
        prev = p;
        i += 1;
    }
    f.data_end = o.len();
    o.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, 1]);
    f.bytes = o;
    f.px = px.iter().flat_map(|p| p[..if alpha { 4 } else { 3 }].to_vec()).collect();
    f
}
