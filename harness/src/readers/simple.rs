//! BMP, TGA, PNM, farbfeld, QOI, HDR and ICO.
use super::{png, Img, In, Res};
use crate::must;

/// Windows bitmap: BITMAPINFOHEADER or BITMAPV4HEADER.
pub fn bmp(b: &[u8]) -> Res<Img> {
    let mut i = In::new(b);
    must!(i.take(2)? == b"BM", "signature");
    let size = i.le32()?;
    must!(size as usize == b.len(), "file size field {size}, file of {}", b.len());
    must!(i.le32()? == 0, "reserved fields");
    let off = i.le32()? as usize;
    let dib = i.le32()? as usize;
    must!(dib == 40 || dib == 108, "header of {dib} bytes");
    let (w, h) = (i.le32()? as i32, i.le32()? as i32);
    must!(w > 0 && h > 0, "{w}x{h}");
    let planes = i.le16()?;
    must!(planes == 1, "{planes} planes");
    let bpp = i.le16()?;
    let comp = i.le32()?;
    let isize = i.le32()? as usize;
    let (ppx, ppy) = (i.le32()? as i32, i.le32()? as i32);
    must!(ppx >= 0 && ppy >= 0, "resolution {ppx} {ppy}");
    let (used, important) = (i.le32()?, i.le32()?);
    must!(important <= used.max(1 << bpp.min(31)), "{important} important colours of {used}");
    let mut masks = [0u32; 4];
    if dib == 108 {
        for m in &mut masks {
            *m = i.le32()?;
        }
        let cs = i.le32()?;
        must!(cs == 0x7352_4742 || cs == 0, "colour space {cs:#x}");
        i.take(48)?;
    }
    match bpp {
        8 => {
            must!(comp == 0, "compression {comp}");
            must!(used <= 256, "{used} colours");
        }
        24 => must!(comp == 0 && used == 0, "compression {comp}, {used} colours"),
        32 => {
            must!(comp == 3 && dib == 108 && used == 0, "compression {comp}, {used} colours");
            must!(masks == [0xff0000, 0xff00, 0xff, 0xff00_0000], "masks {masks:x?}");
        }
        _ => return Err(format!("{bpp} bits per pixel")),
    }
    let n = if bpp == 8 { if used == 0 { 256 } else { used } } else { 0 };
    let mut pal = vec![];
    for _ in 0..n {
        let p = i.take(4)?;
        must!(p[3] == 0, "palette entry {p:?}");
        pal.push([p[2], p[1], p[0]]);
    }
    must!(i.p == off, "pixels at {off}, headers end at {}", i.p);
    let row = (w as usize * bpp as usize).div_ceil(32) * 4;
    must!(isize == row * h as usize, "image size field {isize}, {h} rows of {row}");
    let d = i.take(row * h as usize)?;
    i.end()?;
    let ch = if bpp == 32 { 4 } else { 3 };
    let mut o = Img::new(w as u32, h as u32, ch, 255);
    for y in (0..h as usize).rev() {
        let l = &d[y * row..(y + 1) * row];
        let used = (w as usize * bpp as usize).div_ceil(8);
        must!(l[used..].iter().all(|v| *v == 0), "padding of row {y}: {:?}", &l[used..]);
        for x in 0..w as usize {
            match bpp {
                8 => {
                    let k = l[x] as usize;
                    must!(k < pal.len(), "index {k} of {} colours", pal.len());
                    o.px.extend(pal[k].map(|v| v as f64));
                }
                24 => o.px.extend([l[3 * x + 2], l[3 * x + 1], l[3 * x]].map(|v| v as f64)),
                _ => o.px.extend([l[4 * x + 2], l[4 * x + 1], l[4 * x], l[4 * x + 3]].map(|v| v as f64)),
            }
        }
    }
    Ok(o)
}

/// Truevision TGA without a footer.
pub fn tga(b: &[u8]) -> Res<Img> {
    let mut i = In::new(b);
    let (idl, map, ty) = (i.u8()?, i.u8()?, i.u8()?);
    must!(idl == 0, "identification of {idl} bytes");
    must!(map == 0 && i.take(5)? == [0; 5], "colour map fields");
    let (x0, y0) = (i.le16()?, i.le16()?);
    must!((x0, y0) == (0, 0), "origin {x0} {y0}");
    let (w, h) = (i.le16()?, i.le16()?);
    let (bpp, desc) = (i.u8()?, i.u8()?);
    must!(desc & 0xd0 == 0, "descriptor {desc:#x}");
    let abits = desc & 15;
    let ch = match (ty, bpp, abits) {
        (3 | 11, 8, 0) => 1,
        (3 | 11, 16, 8) => 2,
        (2 | 10, 24, 0) => 3,
        (2 | 10, 32, 8) => 4,
        v => return Err(format!("type, depth and alpha bits {v:?}")),
    };
    let n = w as usize * h as usize;
    let mut o = Img::new(w as u32, h as u32, ch, 255);
    let mut d: Vec<u8> = vec![];
    if ty < 8 {
        d.extend(i.take(n * ch)?);
    } else {
        let mut crosses = false;
        while d.len() < n * ch {
            let k = i.u8()?;
            let c = (k & 127) as usize + 1;
            let at = d.len() / ch;
            crosses |= at / w as usize != (at + c - 1) / w as usize;
            if k & 128 != 0 {
                let p = i.take(ch)?;
                for _ in 0..c {
                    d.extend(p);
                }
            } else {
                d.extend(i.take(c * ch)?);
            }
            must!(d.len() <= n * ch, "packet at {at} of {c} pixels goes past {n}");
        }
        if crosses {
            o.notes.push("tga packet over a row end");
        }
    }
    i.end()?;
    let flip = desc & 32 == 0;
    for y in 0..h as usize {
        let y = if flip { h as usize - 1 - y } else { y };
        for p in d[y * w as usize * ch..(y + 1) * w as usize * ch].chunks_exact(ch) {
            if ch >= 3 {
                o.px.extend([p[2], p[1], p[0]].map(|v| v as f64));
                o.px.extend(p.get(3).map(|v| *v as f64));
            } else {
                o.px.extend(p.iter().map(|v| *v as f64));
            }
        }
    }
    Ok(o)
}

/// All netpbm formats. Bitmaps come out as gray 0 (black) and 1.
pub fn pnm(b: &[u8]) -> Res<Img> {
    must!(b.len() > 3 && b[0] == b'P', "signature");
    let kind = b[1];
    let mut p = 2;
    let ws = |c: u8| matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 11 | 12);
    if kind == b'7' {
        must!(b[2] == b'\n', "PAM signature line");
        p = 3;
        let (mut w, mut h, mut depth, mut maxval, mut tupl) = (None, None, None, None, None::<String>);
        loop {
            let e = b[p..].iter().position(|c| *c == b'\n').ok_or("PAM header without end")? + p;
            let l = std::str::from_utf8(&b[p..e]).map_err(|e| e.to_string())?.trim();
            p = e + 1;
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            if l == "ENDHDR" {
                break;
            }
            let (k, v) = l.split_once(' ').ok_or_else(|| format!("header line {l:?}"))?;
            let num = || v.trim().parse::<u32>().map_err(|e| format!("{l:?}: {e}"));
            let slot = match k {
                "WIDTH" => &mut w,
                "HEIGHT" => &mut h,
                "DEPTH" => &mut depth,
                "MAXVAL" => &mut maxval,
                "TUPLTYPE" => {
                    must!(tupl.is_none(), "two tuple types");
                    tupl = Some(v.trim().to_string());
                    continue;
                }
                _ => return Err(format!("header line {l:?}")),
            };
            must!(slot.is_none(), "{k} twice");
            *slot = Some(num()?);
        }
        let (w, h, depth, maxval) = (w.ok_or("no WIDTH")?, h.ok_or("no HEIGHT")?, depth.ok_or("no DEPTH")?, maxval.ok_or("no MAXVAL")?);
        must!((1..=65535).contains(&maxval), "maxval {maxval}");
        let ch = match (tupl.as_deref(), depth) {
            (Some("BLACKANDWHITE"), 1) => {
                must!(maxval == 1, "maxval {maxval} of a bitmap");
                1
            }
            (Some("GRAYSCALE"), 1) => 1,
            (Some("GRAYSCALE_ALPHA"), 2) => 2,
            (Some("BLACKANDWHITE_ALPHA"), 2) => 2,
            (Some("RGB"), 3) => 3,
            (Some("RGB_ALPHA"), 4) => 4,
            t => return Err(format!("tuple type and depth {t:?}")),
        };
        let mut o = Img::new(w, h, ch, maxval);
        let n = w as usize * h as usize * ch;
        let mut i = In::at(b, p);
        for _ in 0..n {
            let v = if maxval < 256 { i.u8()? as u32 } else { i.be16()? as u32 };
            must!(v <= maxval, "sample {v} above {maxval}");
            o.px.push(v as f64);
        }
        i.end()?;
        o.notes.push("PAM");
        return Ok(o);
    }
    // header tokens, comments allowed
    let token = |p: &mut usize| -> Res<u32> {
        loop {
            while *p < b.len() && ws(b[*p]) {
                *p += 1;
            }
            if *p < b.len() && b[*p] == b'#' {
                while *p < b.len() && b[*p] != b'\n' {
                    *p += 1;
                }
                continue;
            }
            break;
        }
        let s = *p;
        while *p < b.len() && b[*p].is_ascii_digit() {
            *p += 1;
        }
        std::str::from_utf8(&b[s..*p]).unwrap().parse().map_err(|e| format!("number at {s}: {e}"))
    };
    let (w, h) = (token(&mut p)?, token(&mut p)?);
    must!(w > 0 && h > 0, "{w}x{h}");
    let max = if matches!(kind, b'1' | b'4') { 1 } else { token(&mut p)? };
    must!((1..=65535).contains(&max), "maxval {max}");
    must!(p < b.len() && ws(b[p]), "no white space after the header");
    p += 1;
    let ch = if matches!(kind, b'3' | b'6') { 3 } else { 1 };
    let n = w as usize * h as usize * ch;
    let mut o = Img::new(w, h, ch, max);
    match kind {
        b'1' => {
            let mut longest = 0;
            for l in b[p..].split(|c| *c == b'\n') {
                longest = longest.max(l.len());
            }
            for c in &b[p..] {
                match c {
                    b'0' => o.px.push(1.0),
                    b'1' => o.px.push(0.0),
                    c => must!(ws(*c), "character {c} in a bitmap"),
                }
            }
            must!(o.px.len() == n, "{} pixels instead of {n}", o.px.len());
            if longest > 70 {
                o.notes.push("PNM line longer than 70");
            }
            o.notes.push("P1");
        }
        b'2' | b'3' => {
            for _ in 0..n {
                let v = token(&mut p)?;
                must!(v <= max, "sample {v} above {max}");
                o.px.push(v as f64);
            }
            must!(b[p..].iter().all(|c| ws(*c)), "text after the last sample");
            must!(b.last() == Some(&b'\n') || b.last().is_some_and(|c| ws(*c) || c.is_ascii_digit()), "end");
            if b.split(|c| *c == b'\n').any(|l| l.len() > 70) {
                o.notes.push("PNM line longer than 70");
            }
            o.notes.push(if kind == b'2' { "P2" } else { "P3" });
        }
        b'4' => {
            let row = w.div_ceil(8) as usize;
            must!(b.len() - p == row * h as usize, "{} bytes of bitmap instead of {}", b.len() - p, row * h as usize);
            for l in b[p..].chunks_exact(row) {
                for x in 0..w as usize {
                    o.px.push((l[x / 8] >> (7 - x % 8) & 1 ^ 1) as f64);
                }
            }
            o.notes.push("P4");
        }
        b'5' | b'6' => {
            let mut i = In::at(b, p);
            for _ in 0..n {
                let v = if max < 256 { i.u8()? as u32 } else { i.be16()? as u32 };
                must!(v <= max, "sample {v} above {max}");
                o.px.push(v as f64);
            }
            i.end()?;
            o.notes.push(if kind == b'5' { "P5" } else { "P6" });
        }
        _ => return Err(format!("signature P{}", kind as char)),
    }
    Ok(o)
}

pub fn farbfeld(b: &[u8]) -> Res<Img> {
    let mut i = In::new(b);
    must!(i.take(8)? == b"farbfeld", "signature");
    let (w, h) = (i.be32()?, i.be32()?);
    let mut o = Img::new(w, h, 4, 65535);
    for _ in 0..w as usize * h as usize * 4 {
        o.px.push(i.be16()? as f64);
    }
    i.end()?;
    Ok(o)
}

pub fn qoi(b: &[u8]) -> Res<Img> {
    let mut i = In::new(b);
    must!(i.take(4)? == b"qoif", "signature");
    let (w, h) = (i.be32()?, i.be32()?);
    must!(w > 0 && h > 0, "{w}x{h}");
    let (ch, cs) = (i.u8()?, i.u8()?);
    must!(matches!(ch, 3 | 4) && cs <= 1, "{ch} channels, colour space {cs}");
    let n = w as usize * h as usize;
    let mut o = Img::new(w, h, ch as usize, 255);
    let mut table = [[0u8; 4]; 64];
    let mut px = [0u8, 0, 0, 255];
    let mut k = 0;
    while k < n {
        let t = i.u8()?;
        let mut run = 1;
        match t {
            0xfe => px[..3].copy_from_slice(i.take(3)?),
            0xff => px.copy_from_slice(i.take(4)?),
            0..=0x3f => px = table[t as usize],
            0x40..=0x7f => {
                for (c, s) in [4, 2, 0].iter().enumerate() {
                    px[c] = px[c].wrapping_add((t >> s) & 3).wrapping_sub(2);
                }
            }
            0x80..=0xbf => {
                let d = i.u8()?;
                let g = (t & 63).wrapping_sub(32);
                px[0] = px[0].wrapping_add(g).wrapping_add(d >> 4).wrapping_sub(8);
                px[1] = px[1].wrapping_add(g);
                px[2] = px[2].wrapping_add(g).wrapping_add(d & 15).wrapping_sub(8);
            }
            _ => run = (t & 63) as usize + 1,
        }
        must!(k + run <= n, "run past the last pixel");
        table[(px[0] as usize * 3 + px[1] as usize * 5 + px[2] as usize * 7 + px[3] as usize * 11) % 64] = px;
        for _ in 0..run {
            o.px.extend(px[..ch as usize].iter().map(|v| *v as f64));
        }
        k += run;
    }
    must!(i.take(8)? == [0, 0, 0, 0, 0, 0, 0, 1], "end marker");
    i.end()?;
    Ok(o)
}

/// Radiance; samples as floats.
pub fn hdr(b: &[u8]) -> Res<Img> {
    let mut p = 0;
    let mut line = || -> Res<&str> {
        let e = b[p..].iter().position(|c| *c == b'\n').ok_or("header without end")? + p;
        let l = std::str::from_utf8(&b[p..e]).map_err(|e| e.to_string())?;
        p = e + 1;
        Ok(l)
    };
    must!(line()? == "#?RADIANCE", "signature");
    let mut format = 0;
    loop {
        let l = line()?;
        if l.is_empty() {
            break;
        }
        if let Some(v) = l.strip_prefix("FORMAT=") {
            must!(v == "32-bit_rle_rgbe", "format {v}");
            format += 1;
        } else {
            must!(l.starts_with('#') || l.contains('='), "header line {l:?}");
        }
    }
    must!(format == 1, "{format} FORMAT lines");
    let l = line()?;
    let t: Vec<&str> = l.split(' ').collect();
    must!(t.len() == 4 && t[0] == "-Y" && t[2] == "+X", "resolution {l:?}");
    let (h, w): (u32, u32) = (t[1].parse().map_err(|_| "height")?, t[3].parse().map_err(|_| "width")?);
    let mut o = Img::new(w, h, 3, 0);
    let mut i = In::at(b, p);
    for _ in 0..h {
        let mut rows = vec![[0u8; 4]; w as usize];
        let new = (8..32768).contains(&w) && i.left() >= 4 && i.b[i.p] == 2 && i.b[i.p + 1] == 2 && i.b[i.p + 2] & 128 == 0;
        if new {
            let m = i.take(4)?;
            must!((m[2] as u32) << 8 | m[3] as u32 == w, "scanline of {} pixels", (m[2] as u32) << 8 | m[3] as u32);
            for c in 0..4 {
                let mut x = 0;
                while x < w as usize {
                    let k = i.u8()? as usize;
                    must!(k > 0, "empty packet");
                    if k > 128 {
                        let v = i.u8()?;
                        must!(x + k - 128 <= w as usize, "run past the row");
                        for _ in 0..k - 128 {
                            rows[x][c] = v;
                            x += 1;
                        }
                    } else {
                        must!(x + k <= w as usize, "literal past the row");
                        for v in i.take(k)? {
                            rows[x][c] = *v;
                            x += 1;
                        }
                    }
                }
            }
        } else {
            let mut x = 0;
            let mut shift = 0;
            while x < w as usize {
                let v: [u8; 4] = i.take(4)?.try_into().unwrap();
                if v[..3] == [1, 1, 1] {
                    must!(x > 0, "run without a pixel");
                    let k = (v[3] as usize) << shift;
                    must!(x + k <= w as usize, "run past the row");
                    for _ in 0..k {
                        rows[x] = rows[x - 1];
                        x += 1;
                    }
                    shift += 8;
                } else {
                    rows[x] = v;
                    x += 1;
                    shift = 0;
                }
            }
        }
        for v in rows {
            let f = if v[3] == 0 { 0.0 } else { 2f64.powi(v[3] as i32 - 136) };
            o.px.extend(v[..3].iter().map(|c| *c as f64 * f));
        }
        let n = if new { "hdr compressed row" } else { "hdr flat row" };
        if !o.notes.contains(&n) {
            o.notes.push(n);
        }
    }
    i.end()?;
    Ok(o)
}

/// Icons of one picture in PNG form. The directory must agree with it.
pub fn ico(b: &[u8]) -> Res<Img> {
    let all = icos(b)?;
    must!(all.len() == 1, "{} pictures", all.len());
    Ok(all.into_iter().next().unwrap())
}
pub fn icos(b: &[u8]) -> Res<Vec<Img>> {
    let mut i = In::new(b);
    must!(i.le16()? == 0 && i.le16()? == 1, "signature");
    let n = i.le16()?;
    must!(n > 0, "no pictures");
    let mut v = vec![];
    let mut end = 6 + 16 * n as usize;
    for k in 0..n {
        let (w, h, colors, zero) = (i.u8()?, i.u8()?, i.u8()?, i.u8()?);
        must!(zero == 0 && colors == 0, "picture {k}: {colors} colours, reserved {zero}");
        let (planes, bits) = (i.le16()?, i.le16()?);
        must!(planes <= 1, "picture {k}: {planes} planes");
        let (size, off) = (i.le32()? as usize, i.le32()? as usize);
        must!(off == end, "picture {k} at {off}, the one before ends at {end}");
        end = off + size;
        must!(end <= b.len(), "picture {k} goes to {end} of {}", b.len());
        let img = png::read(&b[off..end]).map_err(|e| format!("picture {k}: {e}"))?;
        let real = |v: u8| if v == 0 { 256 } else { v as u32 };
        must!((real(w), real(h)) == (img.w, img.h), "picture {k}: {w}x{h} in the directory, {}x{} inside", img.w, img.h);
        let depth = img.ch as u32 * if img.max == 255 { 8 } else { 16 };
        must!(bits as u32 == depth, "picture {k}: {bits} bits in the directory, {depth} inside");
        v.push(img);
    }
    must!(end == b.len(), "pictures end at {end} of {}", b.len());
    Ok(v)
}
