//! OpenEXR 2, single part, 32 bit float channels, uncompressed or RLE.
use super::{Img, In, Res};
use crate::must;
use std::collections::BTreeMap;

fn text(i: &mut In, max: usize) -> Res<String> {
    let mut s = vec![];
    loop {
        match i.u8()? {
            0 => break,
            c => s.push(c),
        }
    }
    must!(s.len() <= max, "name of {} bytes", s.len());
    String::from_utf8(s).map_err(|e| e.to_string())
}
fn unrle(d: &[u8], n: usize) -> Res<Vec<u8>> {
    let mut i = In::new(d);
    let mut o = vec![];
    while i.left() > 0 {
        let k = i.u8()? as i8 as i32;
        if k < 0 {
            o.extend(i.take(-k as usize)?);
        } else {
            let v = i.u8()?;
            o.extend(std::iter::repeat(v).take(k as usize + 1));
        }
        must!(o.len() <= n, "run past {n} bytes");
    }
    must!(o.len() == n, "{} bytes instead of {n}", o.len());
    for k in 1..n {
        o[k] = (o[k - 1] as i32 + o[k] as i32 - 128) as u8;
    }
    let half = n.div_ceil(2);
    Ok((0..n).map(|k| if k % 2 == 0 { o[k / 2] } else { o[half + k / 2] }).collect())
}

pub fn read(b: &[u8]) -> Res<Img> {
    let mut i = In::new(b);
    must!(i.le32()? == 20000630, "signature");
    let v = i.le32()?;
    must!(v & 0xff == 2, "version {v:#x}");
    must!(v & !0x6ff == 0, "flags {v:#x}");
    let tiled = v & 0x200 != 0;
    let long = v & 0x400 != 0;
    let mut a: BTreeMap<String, (String, Vec<u8>)> = BTreeMap::new();
    loop {
        let name = text(&mut i, if long { 255 } else { 31 })?;
        if name.is_empty() {
            break;
        }
        let ty = text(&mut i, if long { 255 } else { 31 })?;
        let n = i.le32()? as usize;
        let d = i.take(n)?.to_vec();
        must!(a.insert(name.clone(), (ty, d)).is_none(), "attribute {name} twice");
    }
    let get = |n: &str, ty: &str, len: Option<usize>| -> Res<Vec<u8>> {
        let x = a.get(n).ok_or_else(|| format!("no attribute {n}"))?;
        must!(x.0 == ty, "attribute {n} of type {}", x.0);
        must!(len.is_none_or(|l| l == x.1.len()), "attribute {n} of {} bytes", x.1.len());
        Ok(x.1.clone())
    };
    let i32s = |d: &[u8]| -> Vec<i32> { d.chunks_exact(4).map(|c| i32::from_le_bytes(c.try_into().unwrap())).collect() };
    let dw = i32s(&get("dataWindow", "box2i", Some(16))?);
    let disp = i32s(&get("displayWindow", "box2i", Some(16))?);
    must!(dw[0] <= dw[2] && dw[1] <= dw[3], "data window {dw:?}");
    must!(dw == disp, "data window {dw:?}, display window {disp:?}");
    let (w, h) = ((dw[2] - dw[0] + 1) as usize, (dw[3] - dw[1] + 1) as usize);
    let order = get("lineOrder", "lineOrder", Some(1))?[0];
    must!(order <= 2, "line order {order}");
    let f = |n: &str| -> Res<f32> { Ok(f32::from_le_bytes(get(n, "float", Some(4))?.try_into().unwrap())) };
    must!(f("pixelAspectRatio")? == 1.0, "pixel aspect ratio");
    must!(f("screenWindowWidth")?.is_finite(), "screen window width");
    get("screenWindowCenter", "v2f", Some(8))?;
    let comp = get("compression", "compression", Some(1))?[0];
    must!(comp <= 1, "compression {comp}");
    let chl = get("channels", "chlist", None)?;
    let mut names: Vec<String> = vec![];
    let mut c = In::new(&chl);
    loop {
        let n = text(&mut c, 255)?;
        if n.is_empty() {
            break;
        }
        let ty = c.le32()?;
        must!(ty == 2, "channel {n} of type {ty}");
        let lin = c.u8()?;
        must!(lin <= 1 && c.take(3)? == [0, 0, 0], "channel {n}: linearity {lin}");
        must!((c.le32()?, c.le32()?) == (1, 1), "channel {n} is subsampled");
        if let Some(l) = names.last() {
            must!(*l < n, "channel {n} after {l}");
        }
        names.push(n);
    }
    c.end()?;
    let ch = names.len();
    must!(names == ["B", "G", "R"] || names == ["A", "B", "G", "R"], "channels {names:?}");
    let (tw, th) = if tiled {
        let t = get("tiles", "tiledesc", Some(9))?;
        must!(t[8] == 0, "level mode {}", t[8]);
        let d = i32s(&t[..8]);
        must!(d[0] > 0 && d[1] > 0, "tiles {d:?}");
        (d[0] as usize, d[1] as usize)
    } else {
        must!(order <= 1, "line order {order} of scan lines");
        (w, 1)
    };
    if let Some((_, d)) = a.get("type") {
        must!(d == if tiled { b"tiledimage".as_slice() } else { b"scanlineimage" }, "type {:?}", String::from_utf8_lossy(d));
    }
    let (nx, ny) = (w.div_ceil(tw), h.div_ceil(th));
    let n = nx * ny;
    if let Some((_, d)) = a.get("chunkCount") {
        must!(i32s(d) == [n as i32], "chunk count {:?} of {n}", i32s(d));
    }
    let mut table = vec![];
    for _ in 0..n {
        table.push(i.le64()? as usize);
    }
    let data = i.p;
    let mut o = Img::new(w as u32, h as u32, ch, 0);
    o.px = vec![f64::NAN; w * h * ch];
    let mut used = vec![];
    for (k, at) in table.iter().enumerate() {
        must!(*at >= data && *at < b.len(), "chunk {k} at {at}");
        let mut i = In::at(b, *at);
        let (tx, ty) = (k % nx, k / nx);
        if tiled {
            let xy = [i.le32()?, i.le32()?, i.le32()?, i.le32()?];
            must!(xy == [tx as u32, ty as u32, 0, 0], "chunk {k} says tile {xy:?}");
        } else {
            let y = i.le32()? as i32;
            must!(y == dw[1] + ty as i32, "chunk {k} says row {y}");
        }
        let size = i.le32()? as usize;
        let d = i.take(size)?;
        used.push((*at, i.p));
        let (cw, chh) = (tw.min(w - tx * tw), th.min(h - ty * th));
        let raw = cw * chh * ch * 4;
        let px = if comp == 0 || size == raw {
            must!(size == raw, "chunk {k} of {size} bytes");
            o.notes.push("exr raw block");
            d.to_vec()
        } else {
            must!(size < raw, "chunk {k} of {size} bytes, {raw} uncompressed");
            o.notes.push("exr compressed block");
            unrle(d, raw).map_err(|e| format!("chunk {k}: {e}"))?
        };
        let mut q = In::new(&px);
        for y in 0..chh {
            for c in 0..ch {
                for x in 0..cw {
                    let v = f32::from_le_bytes(q.take(4)?.try_into().unwrap());
                    // alphabetical to RGBA
                    let pos = match names[c].as_str() {
                        "R" => 0,
                        "G" => 1,
                        "B" => 2,
                        _ => 3,
                    };
                    o.px[((ty * th + y) * w + tx * tw + x) * ch + pos] = v as f64;
                }
            }
        }
    }
    used.sort();
    let mut e = data;
    for (s, t) in &used {
        must!(*s == e, "chunk at {s}, the one before ends at {e}");
        e = *t;
    }
    must!(e == b.len(), "chunks end at {e} of {}", b.len());
    if order == 0 {
        must!(table.windows(2).all(|t| t[0] < t[1]), "chunks not in the announced increasing order");
    }
    o.notes.sort();
    o.notes.dedup();
    Ok(o)
}
