//! AVIF boxes by the specification; the pictures by libheif.
use super::{Img, In, Res};
use crate::must;
use std::sync::OnceLock;

#[repr(C)]
#[derive(Clone, Copy)]
struct HeifError {
    code: u32,
    sub: u32,
    msg: *const libc::c_char,
}
type P = *mut libc::c_void;
struct Lib {
    alloc: unsafe extern "C" fn() -> P,
    free: unsafe extern "C" fn(P),
    read: unsafe extern "C" fn(P, *const u8, usize, P) -> HeifError,
    primary: unsafe extern "C" fn(P, *mut P) -> HeifError,
    decode: unsafe extern "C" fn(P, *mut P, i32, i32, P) -> HeifError,
    plane: unsafe extern "C" fn(P, i32, *mut i32) -> *const u8,
    width: unsafe extern "C" fn(P, i32) -> i32,
    height: unsafe extern "C" fn(P, i32) -> i32,
    alpha: unsafe extern "C" fn(P) -> i32,
    bits: unsafe extern "C" fn(P) -> i32,
    free_image: unsafe extern "C" fn(P),
    free_handle: unsafe extern "C" fn(P),
}
unsafe impl Send for Lib {}
unsafe impl Sync for Lib {}
fn lib() -> Option<&'static Lib> {
    static L: OnceLock<Option<Lib>> = OnceLock::new();
    L.get_or_init(|| unsafe {
        let h = libc::dlopen(c"libheif.so.1".as_ptr(), libc::RTLD_NOW);
        if h.is_null() {
            return None;
        }
        macro_rules! sym {
            ($n:literal) => {{
                let p = libc::dlsym(h, concat!($n, "\0").as_ptr() as *const libc::c_char);
                if p.is_null() {
                    return None;
                }
                std::mem::transmute(p)
            }};
        }
        let init: unsafe extern "C" fn(P) -> HeifError = sym!("heif_init");
        if init(std::ptr::null_mut()).code != 0 {
            return None;
        }
        Some(Lib {
            alloc: sym!("heif_context_alloc"),
            free: sym!("heif_context_free"),
            read: sym!("heif_context_read_from_memory_without_copy"),
            primary: sym!("heif_context_get_primary_image_handle"),
            decode: sym!("heif_decode_image"),
            plane: sym!("heif_image_get_plane_readonly"),
            width: sym!("heif_image_get_width"),
            height: sym!("heif_image_get_height"),
            alpha: sym!("heif_image_handle_has_alpha_channel"),
            bits: sym!("heif_image_handle_get_luma_bits_per_pixel"),
            free_image: sym!("heif_image_release"),
            free_handle: sym!("heif_image_handle_release"),
        })
    })
    .as_ref()
}
pub fn available() -> bool {
    lib().is_some()
}

/// RGB(A) of 8 bits as libheif sees the primary image.
pub fn heif(b: &[u8]) -> Res<Img> {
    let l = lib().ok_or("libheif is not here")?;
    unsafe fn ok(e: HeifError) -> Res<()> {
        if e.code != 0 {
            return Err(format!("libheif: {}", std::ffi::CStr::from_ptr(e.msg).to_string_lossy()));
        }
        Ok(())
    }
    struct Guard(P, unsafe extern "C" fn(P));
    impl Drop for Guard {
        fn drop(&mut self) {
            if !self.0.is_null() {
                unsafe { (self.1)(self.0) }
            }
        }
    }
    unsafe {
        let ctx = Guard((l.alloc)(), l.free);
        ok((l.read)(ctx.0, b.as_ptr(), b.len(), std::ptr::null_mut()))?;
        let mut h = Guard(std::ptr::null_mut(), l.free_handle);
        ok((l.primary)(ctx.0, &mut h.0))?;
        let alpha = (l.alpha)(h.0) != 0;
        let bits = (l.bits)(h.0);
        let mut img = Guard(std::ptr::null_mut(), l.free_image);
        ok((l.decode)(h.0, &mut img.0, 1, if alpha { 11 } else { 10 }, std::ptr::null_mut()))?;
        let (w, hh) = ((l.width)(img.0, 10), (l.height)(img.0, 10));
        let mut stride = 0;
        let p = (l.plane)(img.0, 10, &mut stride);
        must!(!p.is_null() && w > 0 && hh > 0, "libheif gives no picture");
        let ch = if alpha { 4 } else { 3 };
        let mut o = Img::new(w as u32, hh as u32, ch, 255);
        for y in 0..hh as usize {
            let row = std::slice::from_raw_parts(p.add(y * stride as usize), w as usize * ch);
            o.px.extend(row.iter().map(|v| *v as f64));
        }
        o.notes.push(match bits {
            8 => "avif 8 bit",
            10 => "avif 10 bit",
            _ => "avif other depth",
        });
        Ok(o)
    }
}

/// Boxes at one level: type, body start, end.
fn boxes(b: &[u8], s: usize, e: usize) -> Res<Vec<([u8; 4], usize, usize)>> {
    let mut v = vec![];
    let mut p = s;
    while p < e {
        let mut i = In::at(&b[..e], p);
        let n = i.be32()? as usize;
        let ty: [u8; 4] = i.take(4)?.try_into().unwrap();
        must!(n >= 8 && p + n <= e, "box {} of {n} bytes at {p} of {e}", String::from_utf8_lossy(&ty));
        v.push((ty, p + 8, p + n));
        p += n;
    }
    Ok(v)
}
pub fn read(b: &[u8]) -> Res<Img> {
    let top = boxes(b, 0, b.len())?;
    must!(top.first().is_some_and(|t| &t.0 == b"ftyp"), "first box is not ftyp");
    let f = &b[top[0].1..top[0].2];
    must!(f.len() >= 8 && f.len() % 4 == 0, "ftyp of {} bytes", f.len());
    must!(&f[..4] == b"avif" || f[8..].chunks_exact(4).any(|c| c == b"avif"), "brands");
    must!(f[8..].chunks_exact(4).any(|c| c == b"mif1"), "compatible brand mif1");
    let find = |v: &[([u8; 4], usize, usize)], t: &[u8; 4]| -> Res<(usize, usize)> {
        let m: Vec<_> = v.iter().filter(|x| &x.0 == t).collect();
        must!(m.len() == 1, "{} boxes {}", m.len(), String::from_utf8_lossy(t));
        Ok((m[0].1, m[0].2))
    };
    let (ms, me) = find(&top, b"meta")?;
    let mdat: Vec<_> = top.iter().filter(|t| &t.0 == b"mdat").map(|t| (t.1, t.2)).collect();
    must!(mdat.len() == 1, "{} mdat boxes", mdat.len());
    must!(b[ms..ms + 4] == [0; 4], "meta version");
    let meta = boxes(b, ms + 4, me)?;
    must!(&meta[0].0 == b"hdlr", "meta starts with {:?}", meta[0].0);
    let (hs, _) = find(&meta, b"hdlr")?;
    must!(&b[hs + 8..hs + 12] == b"pict", "handler {:?}", &b[hs + 8..hs + 12]);
    let (ps, pe) = find(&meta, b"pitm")?;
    must!(pe - ps == 6, "pitm of {} bytes", pe - ps);
    let primary = u16::from_be_bytes([b[ps + 4], b[ps + 5]]);
    // item infos
    let (is, ie) = find(&meta, b"iinf")?;
    let n = u16::from_be_bytes([b[is + 4], b[is + 5]]) as usize;
    let infe = boxes(b, is + 6, ie)?;
    must!(infe.len() == n && infe.iter().all(|x| &x.0 == b"infe"), "iinf: {n} entries, {} boxes", infe.len());
    let mut items = vec![];
    for (_, s, _) in &infe {
        must!(b[*s] == 2, "infe version {}", b[*s]);
        must!(&b[s + 8..s + 12] == b"av01", "item type {:?}", &b[s + 8..s + 12]);
        items.push(u16::from_be_bytes([b[s + 4], b[s + 5]]));
    }
    must!(items.contains(&primary), "primary item {primary} of {items:?}");
    // locations
    let (ls, le) = find(&meta, b"iloc")?;
    let mut i = In::at(&b[..le], ls);
    must!(i.take(4)? == [0; 4], "iloc version");
    let (a, c) = (i.u8()?, i.u8()?);
    must!(a == 0x44 && c == 0, "iloc sizes {a:#x} {c:#x}");
    let n = i.be16()? as usize;
    let mut covered = vec![];
    let mut located = vec![];
    for _ in 0..n {
        let (id, dref, ext) = (i.be16()?, i.be16()?, i.be16()?);
        must!(dref == 0 && ext >= 1, "item {id}: reference {dref}, {ext} extents");
        must!(items.contains(&id), "location of item {id}");
        located.push(id);
        for _ in 0..ext {
            let (o, l) = (i.be32()? as usize, i.be32()? as usize);
            must!(l > 0 && o >= mdat[0].0 && o + l <= mdat[0].1, "item {id}: extent {o}+{l} outside of mdat {:?}", mdat[0]);
            covered.push((o, o + l));
        }
    }
    i.end()?;
    must!(located.len() == items.len(), "{} items, {} locations", items.len(), located.len());
    covered.sort();
    let mut e = mdat[0].0;
    for (s, t) in &covered {
        must!(*s == e, "extent at {s}, the one before ends at {e}");
        e = *t;
    }
    must!(e == mdat[0].1, "extents end at {e}, mdat at {}", mdat[0].1);
    // properties
    let (rs, re) = find(&meta, b"iprp")?;
    let iprp = boxes(b, rs, re)?;
    let (cs, ce) = find(&iprp, b"ipco")?;
    let props = boxes(b, cs, ce)?;
    let (as_, ae) = find(&iprp, b"ipma")?;
    let mut i = In::at(&b[..ae], as_);
    let vf = i.be32()?;
    must!(vf == 0, "ipma version and flags {vf:#x}");
    let n = i.be32()?;
    let mut dims = None;
    let mut used = vec![false; props.len()];
    for _ in 0..n {
        let id = i.be16()?;
        let k = i.u8()?;
        let (mut ispe, mut av1c, mut pixi) = (None, None, None);
        for _ in 0..k {
            let v = i.u8()?;
            let idx = (v & 127) as usize;
            must!((1..=props.len()).contains(&idx), "property {idx} of {}", props.len());
            used[idx - 1] = true;
            let (ty, s, e) = props[idx - 1];
            match &ty {
                b"ispe" => {
                    let mut j = In::at(&b[..e], s + 4);
                    ispe = Some((j.be32()?, j.be32()?));
                    j.end()?;
                }
                b"av1C" => {
                    must!(v & 128 != 0, "av1C not essential");
                    must!(b[s] == 0x81, "av1C marker {:#x}", b[s]);
                    av1c = Some((b[s + 1], b[s + 2]));
                }
                b"pixi" => {
                    let n = b[s + 4] as usize;
                    must!(e - s == 5 + n, "pixi of {n} channels");
                    pixi = Some(b[s + 5..e].to_vec());
                }
                _ => {}
            }
        }
        let ispe = ispe.ok_or_else(|| format!("item {id} without size"))?;
        let av1c = av1c.ok_or_else(|| format!("item {id} without configuration"))?;
        let pixi = pixi.ok_or_else(|| format!("item {id} without pixi"))?;
        let depth = match av1c.1 >> 5 & 3 {
            0 | 1 => 8,
            2 => 10,
            _ => 12,
        };
        must!(pixi.iter().all(|v| *v == depth), "item {id}: pixi {pixi:?}, configuration says {depth}");
        let mono = av1c.1 >> 4 & 1 == 1;
        must!(pixi.len() == if mono { 1 } else { 3 }, "item {id}: pixi {pixi:?}, monochrome {mono}");
        // all items of one picture
        must!(dims.is_none_or(|d| d == ispe), "item {id}: {ispe:?}, others {dims:?}");
        dims = Some(ispe);
    }
    i.end()?;
    must!(used.iter().all(|u| *u), "unused properties {used:?}");
    if items.len() > 1 {
        let (s, e) = find(&meta, b"iref")?;
        let r = boxes(b, s + 4, e)?;
        must!(r.iter().any(|x| &x.0 == b"auxl" && u16::from_be_bytes([b[x.1 + 4], b[x.1 + 5]]) == primary), "no auxl reference to the primary item");
        must!(props.iter().any(|x| &x.0 == b"auxC" && b[x.1..x.2].windows(4).any(|w| w == b"alph")), "no alpha property");
    }
    let o = heif(b)?;
    must!(Some((o.w, o.h)) == dims, "libheif sees {}x{}, the file says {dims:?}", o.w, o.h);
    must!((o.ch == 4) == (items.len() > 1), "{} items, {} channels", items.len(), o.ch);
    Ok(o)
}
