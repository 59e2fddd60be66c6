//! PBM, PGM, PPM (plain and raw) and PAM.
use super::bits::Msb;
use super::*;

fn ws(r: &mut Rng, o: &mut Vec<u8>, comments: bool) {
    if comments && r.chance(1, 3) {
        o.extend_from_slice(b" # 12 a comment 7\n");
        return;
    }
    match r.below(5) {
        0 => o.extend_from_slice(b"  \t "),
        1 => o.extend_from_slice(b"\r\n"),
        2 => o.push(b' '),
        _ => o.push(b'\n'),
    }
}

pub fn gen(r: &mut Rng) -> FileCase {
    let (w, h) = dims(r);
    let n = (w * h) as usize;
    let kind = r.range(1, 7);
    // bits, gray or colour; tuple type for P7
    let class = if kind == 7 { r.below(3) } else { (kind - 1) % 3 };
    let ch = if class == 2 { 3 } else { 1 };
    let max: u32 = match class {
        0 => 1,
        _ => match r.below(6) {
            0 => 255,
            1 => 65535,
            2 => r.r32(1, 254),
            3 => r.r32(256, 65534),
            4 => *r.pick(&[1, 2, 127, 254, 256, 257, 4095, 1023, 65534]),
            _ => *r.pick(&[255, 255, 65535]),
        },
    };
    let color = match (ch, max > 255) {
        (1, false) => ColorType::L8,
        (1, true) => ColorType::L16,
        (_, false) => ColorType::Rgb8,
        _ => ColorType::Rgb16,
    };
    let depth16 = max > 255;
    let top = if depth16 { 65535.0 } else { 255.0 };
    let v: Vec<u32> = (0..n * ch).map(|_| if r.chance(1, 4) { *r.pick(&[0, max, max / 2]) } else { r.r32(0, max) }).collect();
    let ascii = kind <= 3;
    let mut o = format!("P{kind}").into_bytes();
    let mut tt = "";
    if kind == 7 {
        o.push(b'\n');
        let name = ["BLACKANDWHITE", "GRAYSCALE", "RGB"][class as usize];
        let mut lines: Vec<String> = vec![format!("WIDTH {w}"), format!("HEIGHT {h}"), format!("DEPTH {ch}"), format!("MAXVAL {max}")];
        if r.chance(3, 4) || class == 0 {
            lines.push(format!("TUPLTYPE {name}"));
            tt = name;
        }
        r.shuffle(&mut lines);
        for l in lines {
            if r.chance(1, 6) {
                o.extend_from_slice(b"# comment\n");
            }
            o.extend_from_slice(l.as_bytes());
            o.push(b'\n');
        }
        o.extend_from_slice(b"ENDHDR\n");
    } else {
        let comments = r.bool();
        ws(r, &mut o, comments);
        o.extend_from_slice(format!("{w}").as_bytes());
        ws(r, &mut o, comments);
        o.extend_from_slice(format!("{h}").as_bytes());
        if class > 0 {
            ws(r, &mut o, comments);
            o.extend_from_slice(format!("{max}").as_bytes());
        }
        // exactly one whitespace byte ends the header of the raw forms
        o.push(*r.pick(&[b'\n', b' ', b'\t']));
    }
    let mut f = FileCase::new(
        image::ImageFormat::Pnm,
        format!("P{kind} {} {tt}", if class == 0 { "bits" } else if max == 255 || max == 65535 { "full range" } else if depth16 { "scaled 16" } else { "scaled 8" }),
        w,
        h,
        color,
    );
    f.data_end = usize::MAX;
    if ascii {
        let tight = class == 0 && r.bool(); // plain bitmaps need no separators
        for (i, x) in v.iter().enumerate() {
            if i > 0 && !tight {
                match r.below(4) {
                    0 => o.extend_from_slice(b"\n"),
                    1 => o.extend_from_slice(b"  "),
                    2 => o.extend_from_slice(b"\r\n"),
                    _ => o.push(b' '),
                }
            } else if r.chance(1, 9) {
                o.push(b'\n');
            }
            // a file cut inside its last number is still a valid file
            f.data_end = o.len() + 1;
            if class > 0 && r.chance(1, 20) {
                o.push(b'0');
            }
            o.extend_from_slice(format!("{x}").as_bytes());
        }
        if r.bool() {
            o.push(b'\n');
        }
    } else if class == 0 && kind == 4 {
        let mut m = Msb::default();
        for row in v.chunks(w as usize) {
            for b in row {
                m.put(*b, 1);
            }
            m.align();
        }
        o.extend(m.out);
        f.data_end = o.len();
    } else {
        for x in &v {
            if depth16 {
                be16(&mut o, *x as u16);
            } else {
                o.push(*x as u8);
            }
        }
        f.data_end = o.len();
    }
    f.bytes = o;
    // in PBM one means black, in the PAM tuple BLACKANDWHITE one means white
    let real: Vec<f64> = v
        .iter()
        .map(|x| {
            let x = if class == 0 && kind != 7 { 1 - *x } else { *x };
            x as f64 * top / max as f64
        })
        .collect();
    f.px = vec![0; n * color.bytes_per_pixel() as usize];
    f.real = Some(real);
    f
}
