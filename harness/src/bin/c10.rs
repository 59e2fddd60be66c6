//! C10: decoding limits are enforced before resources are spent, and not otherwise.
use image::{DynamicImage, ImageDecoder, ImageFormat, ImageReader, ImageResult, Limits};
use std::io::Cursor;
use std::sync::atomic::Ordering::Relaxed;
use vh::alloc::peak_during;
use vh::dec::{self, kind, Decoded};
use vh::files::{anim, writers};
use vh::{catch, check, hash_bytes, mutate, with_decoder, Case, Ctx, Rng};

vh::property_main!("C10");

/// Heap a decoder may use beyond the limit and the input, whatever the format.
const ALLOWANCE: usize = 16 << 20;
const DIM: &str = "Limits DimensionError";
const MEM: &str = "Limits InsufficientMemory";

fn lim(w: Option<u32>, h: Option<u32>, a: Option<u64>) -> Limits {
    let mut l = Limits::no_limits();
    l.max_image_width = w;
    l.max_image_height = h;
    l.max_alloc = a;
    l
}
fn reader(fmt: ImageFormat, b: &[u8], l: Limits) -> ImageReader<Cursor<&[u8]>> {
    let mut r = ImageReader::with_format(Cursor::new(b), fmt);
    r.limits(l);
    r
}

/// The entry points that take limits. The last ones do not allocate the image
/// themselves.
const ENTRIES: [&str; 6] = ["ImageReader::decode", "into_decoder, from_decoder", "into_dimensions", "decoder.set_limits", "boxed.set_limits", "PngDecoder::with_limits"];
fn via(entry: usize, fmt: ImageFormat, b: &[u8], l: Limits) -> Result<Option<Decoded>, String> {
    let r: ImageResult<Option<Decoded>> = match entry {
        0 => reader(fmt, b, l).decode().map(|i| Some(dec::of_dynamic(&i))),
        1 => reader(fmt, b, l).into_decoder().and_then(DynamicImage::from_decoder).map(|i| Some(dec::of_dynamic(&i))),
        2 => reader(fmt, b, l).into_dimensions().map(|_| None),
        3 => with_decoder!(fmt, Cursor::new(b), |d| d.and_then(|mut d| {
            d.set_limits(l)?;
            dec::read(d)
        })),
        4 => dec::boxed(fmt, b).and_then(|mut d| {
            d.set_limits(l)?;
            dec::read(d)
        }),
        _ => image::codecs::png::PngDecoder::with_limits(Cursor::new(b), l).and_then(dec::read),
    };
    r.map_err(|e| kind(&e))
}
fn entries(fmt: ImageFormat) -> usize {
    if fmt == ImageFormat::Png { 6 } else { 5 }
}

fn settings(c: &mut Case, name: &str, what: &str, fmt: ImageFormat, b: &[u8]) {
    let Ok(Ok(Some(want))) = catch(|| via(3, fmt, b, Limits::no_limits())) else { return c.count("files not decoded", 1) };
    let mut r = c.rng.clone();
    let (w, h) = (want.w, want.h);
    let total = want.px.len() as u64;
    c.eval(hash_bytes(b));
    c.count("files with limits around their size", 1);
    for e in 0..entries(fmt) {
        let go = |l: Limits| catch(|| via(e, fmt, b, l)).map_err(|p| p.to_string());
        let same = |g: &Result<Option<Decoded>, String>| match g {
            Ok(Some(d)) => *d == want,
            Ok(None) => true,
            Err(_) => false,
        };
        let sig = |k: &str| format!("{name} {k}");
        // dimensions
        let (bw, bh) = (*r.pick(&[w, w, w + 1, u32::MAX]), *r.pick(&[h, h, h + 1, u32::MAX]));
        let tight = lim(Some(bw), Some(bh), None);
        match go(tight.clone()) {
            Ok(g) if same(&g) => {}
            g => c.fail_blob(&sig("admitting dimension limits change the result"), format!("{what} {w}x{h} through {}: {tight:?}: {g:?}", ENTRIES[e]), Some(b)),
        }
        c.evals(1);
        let low_w = r.below(w as u64) as u32;
        let low_h = r.below(h as u64) as u32;
        for (lw, lh) in [(Some(w - 1), None), (None, Some(h - 1)), (Some(w - 1), Some(h)), (Some(w), Some(h - 1)), (Some(low_w), None), (Some(u32::MAX), Some(low_h))] {
            let l = lim(lw, lh, *r.pick(&[None, Some(total * 8 + (1 << 20))]));
            match go(l.clone()) {
                Ok(Err(k)) if k == DIM => c.count("too large images refused", 1),
                g => c.fail_blob(&sig("dimension limit not enforced"), format!("{what} {w}x{h} through {}: {l:?}: {g:?}", ENTRIES[e]), Some(b)),
            }
            c.evals(1);
        }
        // memory: enough, or exactly what must not be enough
        let enough = total * 8 + (1 << 20) + 8 * b.len() as u64;
        for a in [enough, enough * 3, u64::MAX] {
            match go(lim(None, None, Some(a))) {
                Ok(g) if same(&g) => c.count("ample memory limits", 1),
                g => c.fail_blob(&sig("ample memory limit changes the result"), format!("{what} {w}x{h} through {}: {a} bytes for an image of {total}: {g:?}", ENTRIES[e]), Some(b)),
            }
            c.evals(1);
        }
        if e == 0 {
            for a in [0, 1, total / 2, total - 1, r.below(total)] {
                if a >= total {
                    continue;
                }
                match go(lim(None, None, Some(a))) {
                    Ok(Err(k)) if k == MEM => c.count("memory limits below the image refused", 1),
                    g => c.fail_blob(&sig("memory limit not enforced"), format!("{what} {w}x{h}: {a} bytes allowed for an image of {total}: {g:?}"), Some(b)),
                }
                c.evals(1);
            }
        }
        // in between: the same image or a limits error, and more memory never refuses more
        let mut steps: Vec<u64> = (0..4).map(|_| total + r.below(total * 7 + (1 << 14))).collect();
        steps.push(total);
        steps.sort();
        let mut ok_at = None;
        for a in steps {
            match go(lim(None, None, Some(a))) {
                Ok(g) if same(&g) => {
                    c.count("tight memory limits that admit", 1);
                    ok_at.get_or_insert(a);
                }
                Ok(Err(k)) if k == MEM => {
                    c.count("tight memory limits that refuse", 1);
                    // the png crate skips ancillary chunks for which there is no memory,
                    // as long as it notices in time
                    if let Some(o) = ok_at.filter(|_| fmt != ImageFormat::Png) {
                        c.fail_blob(&sig("a larger memory limit refuses"), format!("{what} through {}: {o} bytes admit the image, {a} bytes do not", ENTRIES[e]), Some(b));
                    }
                }
                g => c.fail_blob(&sig("tight memory limit: neither the image nor a limits error"), format!("{what} {w}x{h} through {}: {a} bytes for an image of {total}: {g:?}", ENTRIES[e]), Some(b)),
            }
            c.evals(1);
        }
    }
    c.sample(|| what.to_string());
}

/// Peak heap while decoding under a memory limit.
fn measured(c: &mut Case, name: &str, what: &str, fmt: ImageFormat, b: &[u8], l: u64, e: usize, honest: bool) {
    let (res, peak) = peak_during(|| catch(|| via(e, fmt, b, lim(None, None, Some(l))).map(|o| o.map(|d| d.px.len()))));
    c.eval(hash_bytes(b) ^ l);
    let out = match &res {
        Err(_) => {
            c.count("decoders that panic (C06)", 1);
            return;
        }
        Ok(Err(k)) => {
            c.count(if k.starts_with("Limits") { "measured: refused for limits" } else { "measured: other errors" }, 1);
            0
        }
        Ok(Ok(n)) => {
            c.count("measured: decoded", 1);
            n.unwrap_or(0)
        }
    };
    // the harness copies the image once more; the caller's buffer does not
    // count where the entry point leaves it to the caller
    let caller = if e == 0 { out } else { 2 * out.min(1 << 22) };
    let bound = if honest { (7 * out).max(l as usize * 2) / 2 + 4 * b.len() + (1 << 20) } else { l as usize * 2 + 4 * b.len() + ALLOWANCE + caller };
    c.count("heap peaks measured", 1);
    if std::env::var_os("VH_LIST").is_some() && out > 100_000 {
        println!("RATIO {name} {:.2} of output, {:.2} of limit, input {}", peak as f64 / out as f64, peak as f64 / l as f64, b.len());
    }
    if peak > bound {
        if std::env::var_os("VH_LIST").is_some() {
            println!("OVER {name} {e} peak {} limit {} input {} : {res:?}", peak, l, b.len());
        }
        let name = if fmt == ImageFormat::OpenExr && dec::exr_wide(b) { "exr with an absurd data window:" } else { name };
        c.fail_blob(&format!("{name} memory beyond the limit{}", if out == 0 { ", file refused" } else { "" }), format!("{what} through {}: {peak} bytes of heap used with a limit of {l} and an input of {} bytes ({:?})", ENTRIES[e], b.len(), res.map(|r| r.map_err(|e| e.to_string()))), Some(b));
    }
}

/// Claim other dimensions where the format keeps them in fixed places.
fn lie(r: &mut Rng, fmt: ImageFormat, b: &mut [u8]) {
    let v = |r: &mut Rng| *r.pick(&[1u32, 255, 1000, 4096, 16383, 16384, 30_000, 65_535, 65_536, 100_000, 1 << 20, 1 << 26, 0x7fff_ffff, u32::MAX]);
    let (w, h) = (v(r), v(r));
    macro_rules! put {
        ($at:expr, $x:expr) => {
            let (at, x) = ($at, $x);
            if at + x.len() <= b.len() {
                b[at..at + x.len()].copy_from_slice(x)
            }
        };
    }
    use ImageFormat::*;
    match fmt {
        Png => {
            put!(16, &w.to_be_bytes());
            put!(20, &h.to_be_bytes());
            mutate::fix_png(b, 8);
        }
        Bmp => {
            put!(18, &w.to_le_bytes());
            put!(22, &h.to_le_bytes());
        }
        Gif => {
            put!(6, &(w as u16).to_le_bytes());
            put!(8, &(h as u16).to_le_bytes());
            if let Some(p) = b.iter().position(|x| *x == 0x2c) {
                if r.bool() && p + 9 < b.len() {
                    b[p + 5..p + 7].copy_from_slice(&(w as u16).to_le_bytes());
                    b[p + 7..p + 9].copy_from_slice(&(h as u16).to_le_bytes());
                }
            }
        }
        Qoi => {
            put!(4, &w.to_be_bytes());
            put!(8, &h.to_be_bytes());
        }
        Farbfeld => {
            put!(8, &w.to_be_bytes());
            put!(12, &h.to_be_bytes());
        }
        Tga => {
            put!(12, &(w as u16).to_le_bytes());
            put!(14, &(h as u16).to_le_bytes());
        }
        Dds => {
            put!(12, &h.to_le_bytes());
            put!(16, &w.to_le_bytes());
        }
        Jpeg => {
            if let Some(p) = b.windows(2).position(|x| x[0] == 0xff && (0xc0..=0xc2).contains(&x[1])) {
                put!(p + 5, &(h as u16).to_be_bytes());
                put!(p + 7, &(w as u16).to_be_bytes());
            }
        }
        Tiff => {
            // both tags are short or long; patch the value in place
            let le = b[0] == b'I';
            let n = b.len();
            for i in 8..n.saturating_sub(12) {
                let tag = if le { u16::from_le_bytes([b[i], b[i + 1]]) } else { u16::from_be_bytes([b[i], b[i + 1]]) };
                let ty = if le { b[i + 2] } else { b[i + 3] };
                if (tag == 256 || tag == 257) && (ty == 3 || ty == 4) {
                    let x = if tag == 256 { w } else { h };
                    let x = if le { x.to_le_bytes() } else { x.to_be_bytes() };
                    b[i + 8..i + 12].copy_from_slice(&x);
                    if le {
                        b[i + 2] = 4
                    } else {
                        b[i + 3] = 4
                    }
                }
            }
        }
        WebP => {
            if b.len() > 30 && &b[12..16] == b"VP8X" {
                b[24..27].copy_from_slice(&(w & 0x3fff).to_le_bytes()[..3]);
                b[27..30].copy_from_slice(&(h & 0x3fff).to_le_bytes()[..3]);
            }
        }
        OpenExr => {
            for key in [&b"dataWindow\0box2i\0"[..], b"displayWindow\0box2i\0"] {
                if let Some(p) = b.windows(key.len()).position(|x| x == key) {
                    let q = p + key.len() + 4 + 8;
                    if r.chance(3, 4) && q + 8 <= b.len() {
                        b[q..q + 4].copy_from_slice(&w.to_le_bytes());
                        b[q + 4..q + 8].copy_from_slice(&h.to_le_bytes());
                    }
                }
            }
        }
        _ => {}
    }
}

fn lying(c: &mut Case, name: &str, gen: fn(&mut Rng) -> vh::files::FileCase) {
    let mut r = c.rng.clone();
    let f = gen(&mut r);
    let mut b = f.bytes.clone();
    match r.below(4) {
        0 => mutate::damage(&mut r, f.fmt, &mut b, &f.bytes),
        1 => {
            lie(&mut r, f.fmt, &mut b);
            mutate::damage(&mut r, f.fmt, &mut b, &f.bytes);
        }
        _ => lie(&mut r, f.fmt, &mut b),
    }
    let l = *r.pick(&[0u64, 1000, 1 << 16, 1 << 20, 1 << 22]);
    c.at(&f.variant);
    let e = *r.pick(&[0usize, 0, 0, 1, 2]);
    // only entry points that hold the output buffer against the limit, and no
    // huge buffers in the hands of the caller
    if e == 1 {
        let small = catch(|| with_decoder!(f.fmt, Cursor::new(&b[..]), |d| d.map(|d| d.total_bytes()).unwrap_or(0))).unwrap_or(0) <= 1 << 22;
        if !small {
            return;
        }
    }
    measured(c, name, &format!("lying {}", f.variant), f.fmt, &b, l, e, false);
}

const OWN: [ImageFormat; 12] = [
    ImageFormat::Bmp,
    ImageFormat::Farbfeld,
    ImageFormat::Gif,
    ImageFormat::Hdr,
    ImageFormat::Ico,
    ImageFormat::Jpeg,
    ImageFormat::OpenExr,
    ImageFormat::Png,
    ImageFormat::Pnm,
    ImageFormat::Qoi,
    ImageFormat::Tga,
    ImageFormat::Tiff,
];

/// Larger honest images: limits of once to four times the output.
fn large(c: &mut Case) {
    let mut r = c.rng.clone();
    let k = c.idx as usize % (OWN.len() + 1);
    let fmt = if k == OWN.len() { ImageFormat::WebP } else { OWN[k] };
    let (w, h) = if fmt == ImageFormat::Ico { (256, 256) } else { (r.r32(200, 900), r.r32(200, 900)) };
    let noisy = r.bool();
    let ch = if matches!(fmt, ImageFormat::Farbfeld | ImageFormat::Ico) { 4 } else { 3 };
    let px: Vec<u8> = (0..(w * h * ch) as usize).map(|i| if noisy { r.u8() } else { (i / 977) as u8 }).collect();
    let img = if ch == 4 { DynamicImage::ImageRgba8(image::RgbaImage::from_raw(w, h, px).unwrap()) } else { DynamicImage::ImageRgb8(image::RgbImage::from_raw(w, h, px).unwrap()) };
    let img = match fmt {
        ImageFormat::Hdr | ImageFormat::OpenExr => DynamicImage::ImageRgb32F(img.to_rgb32f()),
        ImageFormat::Farbfeld => DynamicImage::ImageRgba16(img.to_rgba16()),
        ImageFormat::Png | ImageFormat::Tiff if r.bool() => DynamicImage::ImageRgb16(img.to_rgb16()),
        _ => img,
    };
    let mut o = Cursor::new(vec![]);
    if img.write_to(&mut o, fmt).is_err() {
        return;
    }
    let b = o.into_inner();
    let total = img.as_bytes().len() as u64;
    let l = match r.below(4) {
        0 => total,
        1 => total * 2,
        2 => total * 4,
        _ => total - 1 - r.below(total / 2),
    };
    let name = format!("{fmt:?}").to_lowercase();
    measured(c, &name, &format!("{w}x{h} noisy {noisy}"), fmt, &b, l, 0, true);
}

fn anim_frames<'a>(fmt: ImageFormat, b: &'a [u8], l: &Limits) -> ImageResult<image::Frames<'a>> {
    use image::AnimationDecoder;
    match fmt {
        ImageFormat::Gif => {
            let mut d = image::codecs::gif::GifDecoder::new(Cursor::new(b))?;
            d.set_limits(l.clone())?;
            Ok(d.into_frames())
        }
        ImageFormat::Png => {
            let mut d = image::codecs::png::PngDecoder::with_limits(Cursor::new(b), l.clone())?;
            d.set_limits(l.clone())?;
            Ok(d.apng()?.into_frames())
        }
        _ => {
            let mut d = image::codecs::webp::WebPDecoder::new(Cursor::new(b))?;
            d.set_limits(l.clone())?;
            Ok(d.into_frames())
        }
    }
}

fn animations(c: &mut Case) {
    let mut r = c.rng.clone();
    let (a, fmt, name) = match r.below(3) {
        0 => (anim::gif(&mut r), ImageFormat::Gif, "gif"),
        1 => (anim::apng(&mut r), ImageFormat::Png, "apng"),
        _ => (anim::webp(&mut r), ImageFormat::WebP, "webp"),
    };
    let b = &a.bytes;
    c.at(&a.variant);
    let run = |l: &Limits| catch(|| dec::walk(anim_frames(fmt, b, l), 60));
    let Ok(want) = run(&Limits::no_limits()) else { return };
    if want.end.is_err() || want.frames.is_empty() {
        return c.count("files not decoded", 1);
    }
    c.eval(hash_bytes(b));
    let sig = |k: &str| format!("{name} animation: {k}");
    let what = format!("{} {}x{} {} frames", a.variant, a.w, a.h, want.frames.len());
    let tight = lim(Some(a.w), Some(a.h), None);
    // frames may be larger than the canvas, and are then refused
    let spills = a.variant.contains("spills");
    check!(c, spills || run(&tight).ok() == Some(want.clone()), sig("admitting dimension limits change the result"), "{what}");
    for (lw, lh) in [(Some(a.w - 1), None), (None, Some(a.h - 1))] {
        let l = lim(lw, lh, None);
        match run(&l) {
            Ok(g) if g.frames.is_empty() && g.end == Err(DIM.into()) => c.count("too large animations refused", 1),
            g => c.fail_blob(&sig("dimension limit not enforced"), format!("{what} with {l:?}: {:?}", g.map(|g| (g.frames.len(), g.end)).map_err(|e| e.to_string())), Some(b)),
        }
        c.evals(1);
    }
    let canvas = a.w as u64 * a.h as u64 * 4;
    let ample = canvas * 8 + (1 << 20);
    check!(c, run(&lim(None, None, Some(ample))).ok() == Some(want.clone()), sig("ample memory limit changes the result"), "{what}");
    c.evals(2);
    // not even one frame fits
    if fmt != ImageFormat::WebP {
        let l = r.below(canvas);
        match run(&lim(None, None, Some(l))) {
            Ok(g) if g.frames.is_empty() && g.end == Err(MEM.into()) => c.count("memory limits below a frame refused", 1),
            g => c.fail_blob(&sig("memory limit not enforced"), format!("{what}: {l} bytes allowed, {canvas} for the canvas: {:?}", g.map(|g| (g.frames.len(), g.end)).map_err(|e| e.to_string())), Some(b)),
        }
        c.evals(1);
    }
    let mut ok_at = None;
    let mut steps: Vec<u64> = (0..5).map(|_| r.below(canvas * 8)).collect();
    steps.sort();
    for l in steps {
        match run(&lim(None, None, Some(l))) {
            Ok(g) if g == want => {
                ok_at.get_or_insert(l);
                c.count("tight memory limits that admit", 1);
            }
            Ok(g) if g.end == Err(MEM.into()) && g.frames[..] == want.frames[..g.frames.len().min(want.frames.len())] => {
                c.count("tight memory limits that refuse", 1);
                if let Some(o) = ok_at {
                    c.fail_blob(&sig("a larger memory limit refuses"), format!("{what}: {o} bytes admit it, {l} do not"), Some(b));
                }
            }
            g => c.fail_blob(&sig("tight memory limit: neither the frames nor a limits error"), format!("{what}: {l} bytes: {:?}", g.map(|g| (g.frames.len(), g.end)).map_err(|e| e.to_string())), Some(b)),
        }
        c.evals(1);
    }
}

/// Animations whose canvas or frames claim to be huge, heap measured.
fn lying_animations(c: &mut Case) {
    let mut r = c.rng.clone();
    let (a, fmt, name) = match r.below(3) {
        0 => (anim::gif(&mut r), ImageFormat::Gif, "gif"),
        1 => (anim::apng(&mut r), ImageFormat::Png, "apng"),
        _ => (anim::webp(&mut r), ImageFormat::WebP, "webp"),
    };
    let mut b = a.bytes.clone();
    lie(&mut r, fmt, &mut b);
    if r.chance(1, 3) {
        mutate::damage(&mut r, fmt, &mut b, &a.bytes);
    }
    c.at(&a.variant);
    let l = *r.pick(&[1000u64, 1 << 16, 1 << 20, 1 << 22]);
    let (g, peak) = peak_during(|| catch(|| dec::walk(anim_frames(fmt, &b, &lim(None, None, Some(l))), 8)));
    c.eval(hash_bytes(&b) ^ l);
    c.count("heap peaks measured", 1);
    let Ok(g) = g else { return c.count("decoders that panic (C06)", 1) };
    if matches!(&g.end, Err(e) if e.starts_with("Limits")) {
        c.count("measured: refused for limits", 1);
    }
    // a frame lives on in the hands of the caller while the next is made
    let bound = l as usize * 2 + 4 * b.len() + ALLOWANCE;
    if peak > bound {
        if std::env::var_os("VH_LIST").is_some() {
            println!("OVER {name} anim peak {peak} limit {l} input {}: {:?}", b.len(), g.end);
        }
        c.fail_blob(&format!("{name} animation: memory beyond the limit"), format!("{}: {peak} bytes of heap used with a limit of {l} and an input of {} bytes, {} frames, {:?}", a.variant, b.len(), g.frames.len(), g.end), Some(&b));
    }
}

/// Limits against a plain model of their three numbers.
fn bookkeeping(c: &mut Case) {
    let mut r = c.rng.clone();
    let pick = |r: &mut Rng| -> u64 {
        match r.below(4) {
            0 => *r.pick(&[0u64, 1, u64::MAX, u64::MAX - 1, 1 << 32, (1 << 32) - 1, 1 << 63]),
            1 => r.below(100),
            2 => r.below(1 << 20),
            _ => r.u64() >> r.below(64),
        }
    };
    let mw = if r.bool() { Some(pick(&mut r) as u32) } else { None };
    let mh = if r.bool() { Some(pick(&mut r) as u32) } else { None };
    let mut ma = if r.chance(5, 6) { Some(pick(&mut r)) } else { None };
    let mut l = lim(mw, mh, ma);
    let mut held: Vec<u64> = vec![];
    c.eval(r.u64());
    for step in 0..40 {
        let (what, got, ok): (String, bool, bool);
        match r.below(7) {
            0 | 1 => {
                let n = pick(&mut r);
                ok = ma.is_none_or(|m| n <= m);
                if r.bool() {
                    got = l.reserve(n).is_ok();
                } else {
                    got = l.reserve_usize(n as usize).is_ok();
                }
                if ok {
                    ma = ma.map(|m| m - n);
                    held.push(n);
                }
                what = format!("reserve {n}");
            }
            2 | 3 => {
                let (w, h) = (pick(&mut r) as u32, pick(&mut r) as u32);
                let (w, h) = if r.bool() { (w % 1000, h % 1000) } else { (w, h) };
                let color = *r.pick(&[image::ColorType::L8, image::ColorType::La8, image::ColorType::Rgb8, image::ColorType::Rgba16, image::ColorType::Rgb32F, image::ColorType::Rgba32F]);
                let need = (w as u128 * h as u128 * color.bytes_per_pixel() as u128).min(u64::MAX as u128) as u64;
                let fits = mw.is_none_or(|m| w <= m) && mh.is_none_or(|m| h <= m);
                ok = fits && ma.is_none_or(|m| need <= m);
                got = l.reserve_buffer(w, h, color).is_ok();
                if ok {
                    ma = ma.map(|m| m - need);
                    held.push(need);
                }
                what = format!("reserve_buffer {w}x{h} {color:?}");
            }
            4 | 5 => {
                if held.is_empty() {
                    continue;
                }
                let n = held.swap_remove(r.below(held.len() as u64) as usize);
                if r.bool() {
                    l.free(n);
                } else {
                    l.free_usize(n as usize);
                }
                ma = ma.map(|m| m.saturating_add(n));
                (what, got, ok) = (format!("free {n}"), true, true);
            }
            _ => {
                let (w, h) = (pick(&mut r) as u32, pick(&mut r) as u32);
                let (w, h) = (*r.pick(&[w, mw.unwrap_or(w), mw.unwrap_or(w).saturating_add(1)]), *r.pick(&[h, mh.unwrap_or(h), mh.unwrap_or(h).saturating_add(1)]));
                ok = mw.is_none_or(|m| w <= m) && mh.is_none_or(|m| h <= m);
                got = l.check_dimensions(w, h).is_ok();
                what = format!("check_dimensions {w}x{h}");
            }
        }
        c.evals(1);
        c.count("bookkeeping steps", 1);
        check!(c, got == ok, "limits bookkeeping: answer", "step {step} {what}: {got} instead of {ok} with {mw:?} {mh:?} {ma:?}");
        check!(c, l == lim(mw, mh, ma), "limits bookkeeping: state", "step {step} {what}: {l:?} instead of {mw:?} {mh:?} {ma:?}");
        if c.failed() {
            return;
        }
    }
}

pub fn run(ctx: &Ctx) {
    dec::CAP.store(1 << 24, Relaxed);
    ctx.rule("files of independent writers are decoded through every entry point that takes limits, with limits just below, at and far above what the file needs; files that claim huge sizes, and larger honest images, are decoded under a memory limit while the tracking allocator records the heap's peak, which must stay within twice the limit, four times the input and 16 MB (for honest files of moderate size: 3.5 times the image, four times the input and 1 MB); Limits is compared with a model of its arithmetic");
    ctx.assume("eight times the image plus 1 MB is ample; between one time and that a decoder may refuse for scratch space; the memory dav1d allocates is not observed");
    for (name, gen) in writers() {
        let (q, t) = if name == "exr" { (60, 1500) } else { (800, 30_000) };
        ctx.section(&format!("{name} settings"), q, t, |c| {
            let mut r = c.rng.clone();
            let f = gen(&mut r);
            c.rng = r;
            if f.w == 0 || f.h == 0 {
                return;
            }
            c.at(&f.variant);
            settings(c, name, &f.variant.clone(), f.fmt, &f.bytes);
        });
        let (q, t) = if name == "exr" { (300, 6000) } else { (2500, 80_000) };
        ctx.serial(&format!("{name} lying"), q, t, |c| lying(c, name, gen));
    }
    ctx.section("avif settings", 40, 600, |c| {
        let mut r = c.rng.clone();
        let (w, h) = (r.r32(1, 60), r.r32(1, 60));
        let px: Vec<u8> = (0..w * h * 4).map(|_| r.u8()).collect();
        let mut b = vec![];
        let e = image::codecs::avif::AvifEncoder::new_with_speed_quality(&mut b, 10, 80);
        let (n, color) = if r.bool() { (4, image::ExtendedColorType::Rgba8) } else { (3, image::ExtendedColorType::Rgb8) };
        if image::ImageEncoder::write_image(e, &px[..(w * h * n) as usize], w, h, color).is_err() {
            return c.count("files not encoded", 1);
        }
        settings(c, "avif", &format!("avif {w}x{h}"), ImageFormat::Avif, &b);
    });
    ctx.section("animations", 1500, 50_000, animations);
    ctx.serial("lying animations", 3000, 80_000, lying_animations);
    ctx.serial("large honest images", 130, 3000, large);
    ctx.section("bookkeeping", 20_000, 500_000, bookkeeping);
    ctx.require("too large images refused", 20_000);
    ctx.require("memory limits below the image refused", 4_000);
    ctx.require("heap peaks measured", 20_000);
    ctx.require("bookkeeping steps", 300_000);
}
