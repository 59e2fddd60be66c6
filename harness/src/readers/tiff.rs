//! TIFF 6.0, uncompressed strips, one directory.
use super::{Img, In, Res};
use crate::must;

pub fn read(b: &[u8]) -> Res<Img> {
    must!(b.len() >= 8, "{} bytes", b.len());
    let be = match &b[..2] {
        b"II" => false,
        b"MM" => true,
        s => return Err(format!("byte order {s:?}")),
    };
    let u16_ = |p: usize| -> Res<u32> {
        let v: [u8; 2] = b.get(p..p + 2).ok_or_else(|| format!("position {p} of {}", b.len()))?.try_into().unwrap();
        Ok(if be { u16::from_be_bytes(v) } else { u16::from_le_bytes(v) } as u32)
    };
    let u32_ = |p: usize| -> Res<u32> {
        let v: [u8; 4] = b.get(p..p + 4).ok_or_else(|| format!("position {p} of {}", b.len()))?.try_into().unwrap();
        Ok(if be { u32::from_be_bytes(v) } else { u32::from_le_bytes(v) })
    };
    must!(u16_(2)? == 42, "version");
    let ifd = u32_(4)? as usize;
    must!(ifd >= 8, "directory at {ifd}");
    // word boundaries are asked for; not keeping them is told, not refused
    let mut odd = ifd % 2 != 0;
    let n = u16_(ifd)? as usize;
    must!(n > 0, "no entries");
    // used ranges of the file, to find overlaps
    let mut used = vec![(0usize, 8usize, "header".to_string()), (ifd, ifd + 2 + 12 * n + 4, "directory".to_string())];
    let mut tags: Vec<(u32, u32, Vec<u32>)> = vec![];
    for k in 0..n {
        let p = ifd + 2 + 12 * k;
        let (tag, ty, cnt) = (u16_(p)?, u16_(p + 2)?, u32_(p + 4)? as usize);
        if let Some(l) = tags.last() {
            must!(l.0 < tag, "tag {tag} after {}", l.0);
        }
        let size = match ty {
            1 | 2 | 6 | 7 => 1,
            3 | 8 => 2,
            4 | 9 | 11 => 4,
            5 | 10 | 12 => 8,
            _ => return Err(format!("tag {tag} of type {ty}")),
        };
        must!(cnt > 0, "tag {tag} without values");
        let at = if size * cnt <= 4 {
            p + 8
        } else {
            let at = u32_(p + 8)? as usize;
            odd |= at % 2 != 0;
            must!(at + size * cnt <= b.len(), "values of tag {tag} up to {} of {}", at + size * cnt, b.len());
            used.push((at, at + size * cnt, format!("tag {tag}")));
            at
        };
        let mut v = vec![];
        for j in 0..cnt {
            v.push(match size {
                1 => b[at + j] as u32,
                2 => u16_(at + 2 * j)?,
                4 => u32_(at + 4 * j)?,
                _ => {
                    let d = u32_(at + 8 * j + 4)?;
                    must!(ty == 12 || d != 0, "tag {tag} with denominator 0");
                    u32_(at + 8 * j)?
                }
            });
        }
        tags.push((tag, ty, v));
    }
    let next = u32_(ifd + 2 + 12 * n)?;
    must!(next == 0, "another directory at {next}");
    let get = |t: u32| tags.iter().find(|x| x.0 == t);
    let one = |t: u32, name: &str| -> Res<u32> {
        let e = get(t).ok_or_else(|| format!("no {name}"))?;
        must!(e.2.len() == 1 && matches!(e.1, 3 | 4), "{name}: type {} with {} values", e.1, e.2.len());
        Ok(e.2[0])
    };
    let (w, h) = (one(256, "ImageWidth")?, one(257, "ImageLength")?);
    must!(w > 0 && h > 0, "{w}x{h}");
    let comp = one(259, "Compression")?;
    must!(comp == 1, "compression {comp}");
    let ph = one(262, "PhotometricInterpretation")?;
    let spp = one(277, "SamplesPerPixel")? as usize;
    let e = get(258).ok_or("no BitsPerSample")?;
    must!(e.1 == 3 && e.2.len() == spp, "BitsPerSample: type {} with {} values for {spp} samples", e.1, e.2.len());
    let bits = e.2[0];
    must!(e.2.iter().all(|v| *v == bits) && matches!(bits, 8 | 16), "BitsPerSample {:?}", e.2);
    if let Some(e) = get(339) {
        must!(e.1 == 3 && e.2.len() == spp && e.2.iter().all(|v| *v == 1), "SampleFormat type {} {:?}", e.1, e.2);
    }
    if let Some(e) = get(284) {
        must!(e.2 == [1], "PlanarConfiguration {:?}", e.2);
    }
    let colors = match ph {
        1 => 1,
        2 => 3,
        _ => return Err(format!("photometric {ph}")),
    };
    must!(spp >= colors && spp <= colors + 1, "{spp} samples for photometric {ph}");
    let mut o = Img::new(w, h, spp, if bits == 8 { 255 } else { 65535 });
    match get(338) {
        None if spp > colors => o.notes.push("tiff alpha without ExtraSamples"),
        None => {}
        Some(e) => {
            must!(e.1 == 3 && e.2.len() == spp - colors, "ExtraSamples type {} {:?} for {spp} samples", e.1, e.2);
            must!(e.2[0] == 2, "ExtraSamples {:?}: the alpha is not associated", e.2);
        }
    }
    if let Some(e) = get(296) {
        must!(e.2.len() == 1 && (1..=3).contains(&e.2[0]), "ResolutionUnit {:?}", e.2);
    }
    let rps = match get(278) {
        None => h,
        Some(_) => one(278, "RowsPerStrip")?,
    };
    must!(rps > 0, "RowsPerStrip {rps}");
    let so = get(273).ok_or("no StripOffsets")?;
    let sc = get(279).ok_or("no StripByteCounts")?;
    let strips = h.div_ceil(rps) as usize;
    must!(so.2.len() == strips && sc.2.len() == strips, "{} offsets and {} counts for {strips} strips", so.2.len(), sc.2.len());
    let row = w as usize * spp * bits as usize / 8;
    for s in 0..strips {
        let rows = rps.min(h - rps * s as u32) as usize;
        let (at, len) = (so.2[s] as usize, sc.2[s] as usize);
        must!(len == rows * row, "strip {s} of {len} bytes, {rows} rows of {row}");
        must!(at + len <= b.len(), "strip {s} up to {} of {}", at + len, b.len());
        used.push((at, at + len, format!("strip {s}")));
        if bits == 8 {
            o.px.extend(b[at..at + len].iter().map(|v| *v as f64));
        } else {
            for p in (at..at + len).step_by(2) {
                o.px.push(u16_(p)? as f64);
            }
        }
    }
    used.sort();
    for x in used.windows(2) {
        must!(x[0].1 <= x[1].0, "{} ends at {}, {} starts at {}", x[0].2, x[0].1, x[1].2, x[1].0);
    }
    // nothing but alignment between and after the parts
    for x in used.windows(2) {
        must!(x[1].0 - x[0].1 < 4, "{} bytes between {} and {}", x[1].0 - x[0].1, x[0].2, x[1].2);
    }
    must!(b.len() - used.last().unwrap().1 < 2, "{} bytes after the end", b.len() - used.last().unwrap().1);
    for (t, n) in [(282, "tiff without XResolution"), (283, "tiff without YResolution")] {
        if get(t).is_none() {
            o.notes.push(n);
        }
    }
    if odd {
        o.notes.push("tiff directory or values at odd positions");
    }
    let _ = In::new(b);
    Ok(o)
}
