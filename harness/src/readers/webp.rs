//! WebP container by the specification; the VP8L data by libwebp.
use super::{Img, In, Res};
use crate::must;
use std::sync::OnceLock;

type Decode = unsafe extern "C" fn(*const u8, usize, *mut i32, *mut i32) -> *mut u8;
type Free = unsafe extern "C" fn(*mut libc::c_void);
struct Lib(Decode, Free);
fn lib() -> Option<&'static Lib> {
    static L: OnceLock<Option<Lib>> = OnceLock::new();
    L.get_or_init(|| unsafe {
        let h = libc::dlopen(c"libwebp.so.7".as_ptr(), libc::RTLD_NOW);
        if h.is_null() {
            return None;
        }
        let (d, f) = (libc::dlsym(h, c"WebPDecodeRGBA".as_ptr()), libc::dlsym(h, c"WebPFree".as_ptr()));
        if d.is_null() || f.is_null() {
            return None;
        }
        Some(Lib(std::mem::transmute::<*mut libc::c_void, Decode>(d), std::mem::transmute::<*mut libc::c_void, Free>(f)))
    })
    .as_ref()
}

pub fn read(b: &[u8]) -> Res<Img> {
    let mut i = In::new(b);
    must!(i.take(4)? == b"RIFF", "signature");
    let size = i.le32()? as usize;
    must!(size + 8 == b.len() && size % 2 == 0, "RIFF size {size}, file of {}", b.len());
    must!(i.take(4)? == b"WEBP", "form type");
    let (mut x, mut icc, mut exif, mut px) = (None, None, None, None);
    let mut k = 0;
    while i.left() > 0 {
        let id: [u8; 4] = i.take(4)?.try_into().unwrap();
        let n = i.le32()? as usize;
        let d = i.take(n)?;
        if n % 2 == 1 {
            must!(i.u8()? == 0, "padding of {}", String::from_utf8_lossy(&id));
        }
        match &id {
            b"VP8X" => {
                must!(k == 0 && n == 10, "VP8X at place {k} of {n} bytes");
                must!(d[0] & !0x3e == 0 && d[1..4] == [0, 0, 0], "VP8X flags {:?}", &d[..4]);
                let le24 = |p: usize| d[p] as u32 | (d[p + 1] as u32) << 8 | (d[p + 2] as u32) << 16;
                x = Some((d[0], le24(4) + 1, le24(7) + 1));
            }
            b"ICCP" => {
                must!(x.is_some() && px.is_none() && icc.is_none(), "ICCP out of order");
                icc = Some(d.to_vec());
            }
            b"EXIF" => {
                must!(x.is_some() && px.is_some() && exif.is_none(), "EXIF out of order");
                exif = Some(d.to_vec());
            }
            b"VP8L" => {
                must!(px.is_none(), "two images");
                must!(n >= 5 && d[0] == 0x2f, "VP8L signature");
                let v = u32::from_le_bytes(d[1..5].try_into().unwrap());
                must!(v >> 29 == 0, "VP8L version {}", v >> 29);
                px = Some(((v & 0x3fff) + 1, (v >> 14 & 0x3fff) + 1, v >> 28 & 1 == 1));
            }
            _ => return Err(format!("chunk {}", String::from_utf8_lossy(&id))),
        }
        k += 1;
    }
    let (w, h, alpha) = px.ok_or("no image")?;
    if let Some((f, cw, chh)) = x {
        must!((cw, chh) == (w, h), "canvas {cw}x{chh}, image {w}x{h}");
        must!((f & 0x20 != 0) == icc.is_some() && (f & 8 != 0) == exif.is_some() && f & 6 == 0, "flags {f:#x} do not match the chunks");
        must!(f & 0x10 != 0 || !alpha, "alpha without its flag");
    }
    let l = lib().ok_or("libwebp is not here")?;
    let mut o = Img::new(w, h, 4, 255);
    unsafe {
        let (mut ww, mut hh) = (0, 0);
        let p = (l.0)(b.as_ptr(), b.len(), &mut ww, &mut hh);
        must!(!p.is_null(), "libwebp refuses the file");
        if (ww as u32, hh as u32) == (w, h) {
            o.px.extend(std::slice::from_raw_parts(p, w as usize * h as usize * 4).iter().map(|v| *v as f64));
        }
        (l.1)(p as *mut libc::c_void);
        must!((ww as u32, hh as u32) == (w, h), "libwebp sees {ww}x{hh}");
    }
    o.icc = icc;
    o.notes.push(if alpha { "webp alpha" } else { "webp opaque" });
    Ok(o)
}
