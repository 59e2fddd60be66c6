//! GIF 89a with an own LZW decoder.
use super::{Img, In, Res};
use crate::must;

pub struct Frame {
    pub left: u16,
    pub top: u16,
    pub w: u16,
    pub h: u16,
    /// hundredths of a second
    pub delay: u16,
    pub disposal: u8,
    /// transparent pixels are (0,0,0,0)
    pub rgba: Vec<[u8; 4]>,
    pub colors: usize,
}
pub struct Gif {
    pub w: u16,
    pub h: u16,
    pub frames: Vec<Frame>,
    /// NETSCAPE loop count
    pub repeat: Option<u16>,
}

fn blocks(i: &mut In) -> Res<Vec<u8>> {
    let mut o = vec![];
    loop {
        let n = i.u8()?;
        if n == 0 {
            return Ok(o);
        }
        o.extend(i.take(n as usize)?);
    }
}
fn lzw(min: u8, d: &[u8], n: usize) -> Res<Vec<u8>> {
    must!((2..=8).contains(&min), "code size {min}");
    let clear = 1usize << min;
    let mut table: Vec<Vec<u8>> = vec![];
    let reset = |t: &mut Vec<Vec<u8>>| {
        t.clear();
        t.extend((0..clear).map(|v| vec![v as u8]));
        t.extend([vec![], vec![]]);
    };
    reset(&mut table);
    let mut size = min as u32 + 1;
    let mut p = 0usize;
    let mut prev: Option<Vec<u8>> = None;
    let mut o = Vec::with_capacity(n);
    let mut first = true;
    loop {
        must!(p + size as usize <= d.len() * 8, "code stream ends without an end code");
        let mut c = 0usize;
        for k in 0..size as usize {
            c |= (d[(p + k) >> 3] as usize >> ((p + k) & 7) & 1) << k;
        }
        p += size as usize;
        must!(!first || c == clear, "first code is {c}, not the clear code");
        first = false;
        if c == clear {
            reset(&mut table);
            size = min as u32 + 1;
            prev = None;
            continue;
        }
        if c == clear + 1 {
            break;
        }
        let e = if c < table.len() {
            table[c].clone()
        } else {
            must!(c == table.len(), "code {c} of {}", table.len());
            let q = prev.as_ref().ok_or("unknown code after a clear code")?;
            let mut e = q.clone();
            e.push(q[0]);
            e
        };
        o.extend(&e);
        must!(o.len() <= n, "more than {n} pixels");
        if let Some(mut q) = prev.take() {
            if table.len() < 4096 {
                q.push(e[0]);
                table.push(q);
                if table.len() == 1 << size && size < 12 {
                    size += 1;
                }
            }
        }
        prev = Some(e);
    }
    must!(o.len() == n, "{} pixels instead of {n}", o.len());
    must!(d.len() == p.div_ceil(8), "{} bytes after the end code", d.len() - p.div_ceil(8));
    Ok(o)
}

pub fn parse(b: &[u8]) -> Res<Gif> {
    let mut i = In::new(b);
    must!(i.take(6)? == b"GIF89a", "signature");
    let (w, h) = (i.le16()?, i.le16()?);
    let (flags, bg, aspect) = (i.u8()?, i.u8()?, i.u8()?);
    must!(aspect == 0, "aspect {aspect}");
    let read_table = |i: &mut In, f: u8| -> Res<Vec<[u8; 3]>> { Ok(i.take(3 << ((f & 7) + 1))?.chunks_exact(3).map(|c| [c[0], c[1], c[2]]).collect()) };
    let global = if flags & 0x80 != 0 { Some(read_table(&mut i, flags)?) } else { None };
    must!(global.is_some() || bg == 0, "background {bg} without a table");
    let mut g = Gif { w, h, frames: vec![], repeat: None };
    let mut gce: Option<(u8, u16, Option<u8>)> = None;
    loop {
        match i.u8()? {
            0x3b => break,
            0x21 => match i.u8()? {
                0xf9 => {
                    must!(gce.is_none(), "two control extensions");
                    must!(i.u8()? == 4, "control extension size");
                    let (f, d, t) = (i.u8()?, i.le16()?, i.u8()?);
                    must!(f & 0xe0 == 0 && f >> 2 & 7 <= 3, "control flags {f:#x}");
                    must!(i.u8()? == 0, "control extension end");
                    gce = Some((f >> 2 & 7, d, (f & 1 != 0).then_some(t)));
                }
                0xff => {
                    must!(i.u8()? == 11, "application extension size");
                    let id = i.take(11)?;
                    let d = blocks(&mut i)?;
                    if id == b"NETSCAPE2.0" {
                        must!(d.len() == 3 && d[0] == 1, "loop extension {d:?}");
                        g.repeat = Some(u16::from_le_bytes([d[1], d[2]]));
                    }
                }
                l => return Err(format!("extension {l:#x}")),
            },
            0x2c => {
                let (left, top, fw, fh, f) = (i.le16()?, i.le16()?, i.le16()?, i.le16()?, i.u8()?);
                must!(f & 0x18 == 0, "image flags {f:#x}");
                must!(fw > 0 && fh > 0, "frame of {fw}x{fh}");
                must!(left as u32 + fw as u32 <= w as u32 && top as u32 + fh as u32 <= h as u32, "frame {fw}x{fh} at {left},{top} of a screen {w}x{h}");
                let local = if f & 0x80 != 0 { Some(read_table(&mut i, f)?) } else { None };
                let pal = local.as_ref().or(global.as_ref()).ok_or("no colour table")?;
                let min = i.u8()?;
                let d = blocks(&mut i)?;
                let idx = lzw(min, &d, fw as usize * fh as usize)?;
                let (disposal, delay, tr) = gce.take().unwrap_or((0, 0, None));
                let mut rgba = vec![[0u8; 4]; idx.len()];
                let rows: Vec<usize> = if f & 0x40 != 0 {
                    [(0, 8), (4, 8), (2, 4), (1, 2)].iter().flat_map(|(s, k)| (*s..fh as usize).step_by(*k)).collect()
                } else {
                    (0..fh as usize).collect()
                };
                for (k, y) in rows.iter().enumerate() {
                    for x in 0..fw as usize {
                        let v = idx[k * fw as usize + x];
                        if tr != Some(v) {
                            let c = pal.get(v as usize).ok_or_else(|| format!("index {v} of {} colours", pal.len()))?;
                            rgba[y * fw as usize + x] = [c[0], c[1], c[2], 255];
                        }
                    }
                }
                g.frames.push(Frame { left, top, w: fw, h: fh, delay, disposal, rgba, colors: pal.len() });
            }
            v => return Err(format!("block {v:#x} at {}", i.p - 1)),
        }
    }
    must!(gce.is_none(), "control extension without a frame");
    i.end()?;
    Ok(g)
}
pub fn read(b: &[u8]) -> Res<Img> {
    let g = parse(b)?;
    must!(g.frames.len() == 1, "{} frames", g.frames.len());
    let f = &g.frames[0];
    must!((f.left, f.top, f.w, f.h) == (0, 0, g.w, g.h), "frame {}x{} at {},{} of {}x{}", f.w, f.h, f.left, f.top, g.w, g.h);
    let mut o = Img::new(g.w as u32, g.h as u32, 4, 255);
    o.px = f.rgba.iter().flatten().map(|v| *v as f64).collect();
    Ok(o)
}
