//! C11: encoders refuse what they cannot represent and report every sink failure.
use image::codecs as k;
use image::codecs::pnm::{ArbitraryHeader, ArbitraryTuplType, BitmapHeader, GraymapHeader, PixmapHeader, PnmHeader, SampleEncoding};
use image::{ColorType, Delay, DynamicImage, ExtendedColorType, Frame, ImageEncoder, ImageFormat, ImageResult, RgbaImage};
use std::io::Cursor;
use std::sync::atomic::Ordering::Relaxed;
use vh::dec::{self, kind};
use vh::enc::{accepts, expected, Sink, Variant};
use vh::io::{FaultWriter, WriteFault};
use vh::{catch, check, gen, hash_bytes, Case, Ctx, Rng};

vh::property_main!("C11");

fn fname(f: ImageFormat) -> String {
    format!("{f:?}").to_lowercase()
}

/// Run one encoding against sinks that misbehave in every way at every point.
fn against_faults(c: &mut Case, r: &mut Rng, sig: &str, what: &str, gif: bool, tries: u64, enc: &dyn Fn(&mut dyn Sink) -> ImageResult<()>) {
    let go = |f: WriteFault, seed: u64| {
        let mut s = FaultWriter::new(f, seed);
        let res = catch(|| enc(&mut s));
        (res, s)
    };
    let (first, clean) = go(WriteFault::default(), 1);
    match first {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return c.fail(&format!("{sig}: not encoded {}", kind(&e)), format!("{what}: {e}")),
        Err(p) => return c.fail(&format!("{sig}: encoding panics"), format!("{what}: {p}")),
    }
    let (n, ops) = (clean.out.len() as u64, clean.ops);
    c.count("encodings with working sinks", 1);
    c.count("sink operations seen", ops);
    let (again, two) = go(WriteFault::default(), 2);
    check!(c, matches!(again, Ok(Ok(()))) && two.out == clean.out, format!("{sig}: not deterministic"), "{what}: {} and {} bytes", n, two.out.len());
    // slow but working
    let d = WriteFault::default();
    let benign = [
        WriteFault { max_chunk: 1, ..d.clone() },
        WriteFault { max_chunk: 1 + r.below(64) as usize, random_chunks: true, ..d.clone() },
        WriteFault { interrupt: 80, ..d.clone() },
        WriteFault { max_chunk: 3, random_chunks: true, interrupt: 30, ..d.clone() },
        WriteFault { capacity: Some(n), ..d.clone() },
    ];
    for f in benign {
        let (res, s) = go(f.clone(), r.u64());
        c.count("encodings with slow sinks", 1);
        c.evals(1);
        match res {
            Ok(Ok(())) => check!(c, s.out == clean.out, format!("{sig}: bytes depend on the sink"), "{what}, {f:?}: {} instead of {n} bytes", s.out.len()),
            Ok(Err(e)) => c.fail(&format!("{sig}: slow sink refused {}", kind(&e)), format!("{what}, {f:?}: {e}")),
            Err(p) => c.fail(&format!("{sig}: panics with a slow sink"), format!("{what}, {f:?}: {p}")),
        }
    }
    let mut faults = vec![];
    let some = |r: &mut Rng, n: u64| -> Vec<u64> {
        if n <= tries {
            (0..n).collect()
        } else {
            let mut v: Vec<u64> = (0..tries / 2).map(|_| r.below(n)).collect();
            v.extend((0..tries / 4).map(|i| i.min(n - 1)));
            v.extend((0..tries / 4).map(|i| n - 1 - i.min(n - 1)));
            v.sort();
            v.dedup();
            v
        }
    };
    for at in some(r, ops) {
        faults.push(WriteFault { fail_at_op: Some(at), once: r.chance(1, 3), ..d.clone() });
    }
    for at in some(r, n) {
        faults.push(WriteFault { capacity: Some(at), zero: r.chance(1, 3), once: r.chance(1, 4), max_chunk: *r.pick(&[0usize, 0, 0, 1, 7]), ..d.clone() });
    }
    faults.push(WriteFault { fail_flush: true, ..d.clone() });
    faults.push(WriteFault { fail_seek: true, ..d.clone() });
    for f in faults {
        let (res, s) = go(f.clone(), r.u64());
        c.evals(1);
        match res {
            Err(p) => c.fail(&format!("{sig}: panics when the sink fails"), format!("{what}, {f:?}: {p}")),
            Ok(Ok(())) if s.fired => {
                let k = if gif && s.pos as u64 + 1 >= n && n > 0 { "gif: a failure to write the trailer goes unnoticed".to_string() } else { format!("{sig}: success although the sink failed") };
                c.fail(&k, format!("{what}, {f:?}: {} of {n} bytes written, operation {} of {ops}", s.out.len(), s.ops))
            }
            Ok(Ok(())) => {
                c.count("planned faults not reached", 1);
                check!(c, s.out == clean.out, format!("{sig}: bytes depend on the sink"), "{what}, {f:?}: {} instead of {n} bytes", s.out.len());
            }
            Ok(Err(e)) if s.fired => {
                c.count("sink failures reported", 1);
                if matches!(&e, image::ImageError::IoError(_)) {
                    c.count("sink failures reported as i/o errors", 1);
                }
            }
            Ok(Err(e)) => c.fail(&format!("{sig}: fails without a failure {}", kind(&e)), format!("{what}, {f:?}: {e}")),
        }
    }
    let _ = Relaxed;
}

fn picture(r: &mut Rng, v: &Variant, color: ColorType, w: u32, h: u32) -> DynamicImage {
    let mut img = gen::dynamic(r, color, w, h);
    if v.name.contains("pbm") {
        if let DynamicImage::ImageLuma8(b) = &mut img {
            b.iter_mut().for_each(|s| *s >>= 7);
        }
    }
    img
}
fn colors(v: &Variant) -> Vec<ColorType> {
    gen::COLORS.iter().copied().filter(|c| accepts(v, *c)).collect()
}

/// Images of many blocks, strips or packets: work may be split over threads.
fn twice(c: &mut Case, vs: &[Variant]) {
    let mut r = c.rng.clone();
    let v = r.pick(vs);
    let color = *r.pick(&colors(v));
    let max = if v.slow { 90 } else if v.fmt == ImageFormat::Ico { 256 } else { 400 };
    let (w, h) = (r.r32(max / 4, max), r.r32(max / 4, max));
    let img = picture(&mut r, v, color, w, h);
    let what = format!("{} {color:?} {w}x{h}", v.name);
    c.at(&what);
    c.eval(hash_bytes(img.as_bytes()));
    let n = if v.fmt == ImageFormat::OpenExr { 4 } else { 2 };
    let files: Vec<_> = (0..n).map(|_| catch(|| v.encode(img.as_bytes(), w, h, color.into()))).collect();
    let mut first = None;
    for f in files {
        match f {
            Err(p) => return c.fail(&format!("{}: panics", fname(v.fmt)), format!("{what}: {p}")),
            Ok(Err(e)) => return c.fail(&format!("{}: fails without a failure {}", fname(v.fmt), kind(&e)), format!("{what}: {e}")),
            Ok(Ok(f)) => {
                c.count("bytes of larger files compared", f.len() as u64);
                check!(c, first.get_or_insert_with(|| f.clone()) == &f, format!("{}: not deterministic", fname(v.fmt)), "{what}");
            }
        }
    }
}
fn sinks(c: &mut Case, v: &Variant) {
    let mut r = c.rng.clone();
    let color = *r.pick(&colors(v));
    let max = if v.slow { 12 } else { 40 };
    let (w, h) = (r.size(max), r.size(max));
    let img = picture(&mut r, v, color, w, h);
    let what = format!("{} {color:?} {w}x{h}", v.name);
    c.at(&what);
    c.eval(hash_bytes(img.as_bytes()));
    c.evals_str(&format!("{} {color:?}", v.name));
    let icc = if v.icc && r.chance(1, 3) { Some((0..r.below(300)).map(|_| r.u8()).collect::<Vec<u8>>()) } else { None };
    let tries = if v.slow { 6 } else { 24 };
    against_faults(c, &mut r, &fname(v.fmt), &what, v.fmt == ImageFormat::Gif, tries, &|s| (v.run)(s, img.as_bytes(), w, h, color.into(), icc.clone()));
}

/// The same through the functions that choose the encoder, and for encoders
/// with methods of their own.
fn others(c: &mut Case) {
    let mut r = c.rng.clone();
    let (w, h) = (r.r32(1, 30), r.r32(1, 30));
    let rgba = DynamicImage::ImageRgba8(gen::image(&mut r, w, h));
    let rgb = DynamicImage::ImageRgb8(gen::image(&mut r, w, h));
    let gray = DynamicImage::ImageLuma8(gen::image(&mut r, w, h));
    c.eval(hash_bytes(rgba.as_bytes()));
    let which = r.below(12);
    match which {
        0..=3 => {
            let fmts = [
                ImageFormat::Png,
                ImageFormat::Jpeg,
                ImageFormat::Gif,
                ImageFormat::Bmp,
                ImageFormat::Ico,
                ImageFormat::Tiff,
                ImageFormat::Tga,
                ImageFormat::Pnm,
                ImageFormat::Qoi,
                ImageFormat::WebP,
                ImageFormat::Hdr,
                ImageFormat::OpenExr,
                ImageFormat::Farbfeld,
            ];
            let fmt = *r.pick(&fmts);
            let img = match fmt {
                ImageFormat::Jpeg | ImageFormat::Pnm => rgb,
                ImageFormat::Hdr => DynamicImage::ImageRgb32F(rgb.to_rgb32f()),
                ImageFormat::OpenExr => DynamicImage::ImageRgba32F(rgb.to_rgba32f()),
                ImageFormat::Farbfeld => DynamicImage::ImageRgba16(rgb.to_rgba16()),
                _ => rgba,
            };
            let n = ["DynamicImage::write_to", "ImageBuffer::write_to", "write_buffer_with_format"][which as usize % 3];
            let what = format!("{n} {fmt:?} {w}x{h}");
            c.at(&what);
            // the writers of whole images finish the file, trailer included
            against_faults(c, &mut r, &format!("{} {n}", fname(fmt)), &what, false, 16, &|s| {
                let mut s = s;
                match (which % 3, &img) {
                    (0, _) => img.write_to(&mut s, fmt),
                    (1, DynamicImage::ImageRgba8(b)) => b.write_to(&mut s, fmt),
                    (1, DynamicImage::ImageRgb8(b)) => b.write_to(&mut s, fmt),
                    _ => image::write_buffer_with_format(&mut s, img.as_bytes(), w, h, img.color(), fmt),
                }
            });
        }
        4 | 5 => {
            let frames: Vec<Frame> = (0..r.r32(1, 4))
                .map(|i| Frame::from_parts(gen::image(&mut r, w, h), 0, 0, Delay::from_numer_denom_ms(10 * i, 1)))
                .collect();
            let what = format!("{} gif frames {w}x{h}", frames.len());
            c.at(&what);
            let rep = r.bool();
            against_faults(c, &mut r, "gif animation", &what, true, 24, &|s| {
                let mut e = k::gif::GifEncoder::new_with_speed(s, 10);
                if rep {
                    e.set_repeat(k::gif::Repeat::Infinite)?;
                }
                if which == 4 {
                    e.encode_frames(frames.clone())
                } else {
                    e.try_encode_frames(frames.clone().into_iter().map(Ok))
                }
            });
        }
        6 => {
            let frames: Vec<DynamicImage> = (0..r.r32(1, 4)).map(|_| DynamicImage::ImageRgba8(gen::image(&mut r, w, h))).collect();
            let what = format!("{} icons {w}x{h}", frames.len());
            c.at(&what);
            against_faults(c, &mut r, "ico frames", &what, false, 24, &|s| {
                let f: Result<Vec<_>, _> = frames.iter().map(|f| k::ico::IcoFrame::as_png(f.as_bytes(), w, h, ExtendedColorType::Rgba8)).collect();
                k::ico::IcoEncoder::new(s).encode_images(&f?)
            });
        }
        7 => {
            let pal: Vec<[u8; 3]> = (0..r.r32(1, 256)).map(|_| [r.u8(), r.u8(), r.u8()]).collect();
            let what = format!("bmp {} colours {w}x{h}", pal.len());
            c.at(&what);
            against_faults(c, &mut r, "bmp palette", &what, false, 24, &|s| {
                let mut s = s;
                k::bmp::BmpEncoder::new(&mut s).encode_with_palette(gray.as_bytes(), w, h, ExtendedColorType::L8, Some(&pal))
            });
        }
        8 => {
            c.at("hdr rgbe");
            let px: Vec<image::Rgb<f32>> = (0..w * h).map(|_| image::Rgb([r.f64() as f32, r.f64() as f32 * 100.0, 0.0])).collect();
            against_faults(c, &mut r, "hdr encode", &format!("hdr {w}x{h}"), false, 24, &|s| k::hdr::HdrEncoder::new(s).encode(&px, w as usize, h as usize));
        }
        9 => {
            c.at("jpeg encode_image");
            let b = rgba.to_rgba8();
            let what = format!("jpeg encode_image {w}x{h}");
            against_faults(c, &mut r, "jpeg encode_image", &what, false, 24, &|s| k::jpeg::JpegEncoder::new_with_quality(s, 80).encode_image(&b));
        }
        10 => {
            let hdr = |r: &mut Rng| -> (PnmHeader, &'static str) {
                match r.below(4) {
                    0 => (BitmapHeader { encoding: SampleEncoding::Ascii, width: w, height: h }.into(), "pbm"),
                    1 => (GraymapHeader { encoding: SampleEncoding::Binary, width: w, height: h, maxwhite: 255 }.into(), "pgm"),
                    2 => (PixmapHeader { encoding: SampleEncoding::Ascii, width: w, height: h, maxval: 255 }.into(), "ppm"),
                    _ => (ArbitraryHeader { width: w, height: h, depth: 3, maxval: 255, tupltype: Some(ArbitraryTuplType::RGB) }.into(), "pam"),
                }
            };
            let seed = r.u64();
            let (_, name) = hdr(&mut Rng::new(seed));
            let img = if name == "ppm" || name == "pam" { rgb } else { DynamicImage::ImageLuma8(image::GrayImage::from_raw(w, h, gray.as_bytes().iter().map(|b| b & 1).collect()).unwrap()) };
            let what = format!("pnm with header {name} {w}x{h}");
            c.at(&what);
            against_faults(c, &mut r, "pnm with header", &what, false, 24, &|s| {
                let e = k::pnm::PnmEncoder::new(s).with_header(hdr(&mut Rng::new(seed)).0);
                e.write_image(img.as_bytes(), w, h, img.color().into())
            });
        }
        _ => {
            let q = [k::webp::WebPEncoder::new_lossless as fn(Vec<u8>) -> _];
            let _ = q;
            c.at("write_with_encoder");
            let what = format!("write_with_encoder png {w}x{h}");
            against_faults(c, &mut r, "png write_with_encoder", &what, false, 24, &|s| rgba.write_with_encoder(k::png::PngEncoder::new(s)));
        }
    }
}

use ExtendedColorType as E;
const ALL: [E; 27] = [
    E::A8,
    E::L1,
    E::La1,
    E::Rgb1,
    E::Rgba1,
    E::L2,
    E::La2,
    E::Rgb2,
    E::Rgba2,
    E::L4,
    E::La4,
    E::Rgb4,
    E::Rgba4,
    E::L8,
    E::La8,
    E::Rgb8,
    E::Rgba8,
    E::L16,
    E::La16,
    E::Rgb16,
    E::Rgba16,
    E::Bgr8,
    E::Bgra8,
    E::Rgb32F,
    E::Rgba32F,
    E::Cmyk8,
    E::Unknown(24),
];

/// Length of a buffer: whole bytes per row.
fn size_of(e: E, w: u32, h: u32) -> u64 {
    let row = (w as u128 * e.bits_per_pixel() as u128).div_ceil(8);
    (row * h as u128).min(u64::MAX as u128) as u64
}

/// What C02 lists as not readable again.
fn excused(v: ImageFormat, color: E, w: u32, h: u32) -> bool {
    match v {
        ImageFormat::Pnm => color.has_alpha_(),
        ImageFormat::Ico => color != E::Rgba8,
        ImageFormat::Bmp => w.max(h) > 65535,
        ImageFormat::WebP => w.max(h) == 16384,
        _ => false,
    }
}
trait HasAlpha {
    fn has_alpha_(&self) -> bool;
}
impl HasAlpha for E {
    fn has_alpha_(&self) -> bool {
        matches!(self, E::La1 | E::Rgba1 | E::La2 | E::Rgba2 | E::La4 | E::Rgba4 | E::La8 | E::Rgba8 | E::La16 | E::Rgba16 | E::Bgra8 | E::Rgba32F | E::A8)
    }
}
fn plain(e: E) -> Option<ColorType> {
    gen::COLORS.iter().copied().find(|c| E::from(*c) == e)
}

/// A success must have produced the image.
fn judge_success(c: &mut Case, sig: &str, what: &str, fmt: ImageFormat, lossless: bool, color: E, buf: &[u8], w: u32, h: u32, file: &[u8]) {
    if fmt == ImageFormat::Tga && (w == 0 || h == 0) {
        // the format has a way to say that there is no image
        let none = file.len() == 18 && file[2] == 0 && file[12..16] == [0; 4];
        check!(c, none, "tga without pixels: not marked as such", "{what}: {file:02x?}");
        return c.count("empty images marked as such", 1);
    }
    if excused(fmt, color, w, h) {
        return c.count("files of recorded findings (C02)", 1);
    }
    let got = match catch(|| dec::decode(fmt, file)) {
        Ok(Ok(Some(d))) => d,
        Ok(Ok(None)) => return c.count("too large to decode here", 1),
        Ok(Err(e)) => return c.fail_blob(&format!("{sig}: success, but the file is refused"), format!("{what}: {e}"), Some(file)),
        Err(p) => return c.fail_blob(&format!("{sig}: success, but the file cannot be read"), format!("{what}: {p}"), Some(file)),
    };
    c.count("successes decoded again", 1);
    check!(c, (got.w, got.h) == (w, h), format!("{sig}: success with other dimensions"), "{what}: {}x{}", got.w, got.h);
    match plain(color) {
        Some(pc) if lossless => {
            let (ec, epx) = expected(fmt, pc, buf);
            check!(c, (got.color, &got.px) == (ec, &epx), format!("{sig}: success with other pixels"), "{what}: {:?} instead of {ec:?}", got.color);
        }
        Some(_) => {}
        None => match (fmt, color) {
            // bit maps from packed or unpacked bits
            (ImageFormat::Pnm, E::L1) => {}
            _ => c.fail_blob(&format!("{sig} {color:?}: success with a colour type that cannot be read back"), what.to_string(), Some(file)),
        },
    }
}

fn refusals(c: &mut Case, v: &Variant) {
    let mut r = c.rng.clone();
    let color = ALL[(c.idx % ALL.len() as u64) as usize];
    let color = if color == E::Unknown(24) { E::Unknown(*r.pick(&[1u8, 8, 24, 32, 0, 255])) } else { color };
    let (w, h) = (r.r32(1, if v.slow { 9 } else { 24 }), r.r32(1, if v.slow { 9 } else { 24 }));
    let n = size_of(color, w, h) as usize;
    let bitmap = v.name.contains("pbm");
    let mut buf: Vec<u8> = (0..n).map(|_| if bitmap { r.below(2) as u8 } else { r.u8() }).collect();
    if matches!(color, E::Rgb32F | E::Rgba32F) {
        for (i, b) in buf.chunks_exact_mut(4).enumerate() {
            b.copy_from_slice(&(i as f32 / 97.0).to_ne_bytes());
        }
    }
    let what = format!("{} {color:?} {w}x{h}", v.name);
    c.at(&what);
    c.evals_str(&format!("{} {color:?}", v.name));
    c.evals(1);
    let listed = plain(color).is_some_and(|p| accepts(v, p));
    let sig = fname(v.fmt);
    match catch(|| v.encode(&buf, w, h, color)) {
        Err(p) => c.fail(&format!("{sig}: panics on a colour type"), format!("{what}: {p}")),
        Ok(Err(e)) => {
            c.count("colour types refused", 1);
            check!(c, !listed, format!("{sig}: representable image refused"), "{what}: {e}");
        }
        Ok(Ok(f)) if bitmap && !listed => judge_success(c, &sig, &what, v.fmt, false, color, &buf, w, h, &f),
        Ok(Ok(f)) => judge_success(c, &sig, &what, v.fmt, v.lossless && !bitmap, color, &buf, w, h, &f),
    }
    // a buffer of another length is never encoded
    let wrong = match r.below(7) {
        0 => n.wrapping_sub(1),
        1 => n + 1,
        2 => 0,
        3 => n * 2,
        4 => n / 2,
        5 => n + w as usize,
        _ => n.saturating_sub(1 + r.below(n as u64 / 2 + 1) as usize),
    };
    if wrong != n && wrong < 1 << 20 {
        buf.resize(wrong, 1);
        let what = format!("{what} with {wrong} instead of {n} bytes");
        match catch(|| v.encode(&buf, w, h, color)) {
            Ok(Ok(f)) => c.fail_blob(&format!("{sig}: buffer of the wrong length encoded"), format!("{what}: {} bytes written", f.len()), Some(&f)),
            Ok(Err(_)) => c.count("wrong lengths refused", 1),
            // documented
            Err(_) => c.count("wrong lengths refused with the documented panic", 1),
        }
        c.evals(1);
    }
}

fn limits_of_size(c: &mut Case, v: &Variant) {
    let mut r = c.rng.clone();
    let color = *r.pick(&colors(v));
    let side = *r.pick(&[0u32, 0, 0, 1, 255, 256, 257, 4095, 4096, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 70_000]);
    let other = if side == 0 { *r.pick(&[0u32, 1, 3]) } else { r.r32(1, 2) };
    if v.slow && side > 300 {
        return;
    }
    let (w, h) = if r.bool() { (side, other) } else { (other, side) };
    let e: E = color.into();
    let n = size_of(e, w, h) as usize;
    let bitmap = v.name.contains("pbm");
    let mut buf: Vec<u8> = (0..n).map(|i| if bitmap { (i / 3) as u8 & 1 } else { (i / 5) as u8 }).collect();
    if matches!(color, ColorType::Rgb32F | ColorType::Rgba32F) {
        for (i, b) in buf.chunks_exact_mut(4).enumerate() {
            b.copy_from_slice(&(i as f32 / 97.0).to_ne_bytes());
        }
    }
    let what = format!("{} {color:?} {w}x{h}", v.name);
    c.at(&what);
    c.evals_str(&what);
    let empty = w == 0 || h == 0;
    let sig = if empty { format!("{} without pixels", fname(v.fmt)) } else { fname(v.fmt) };
    match catch(|| v.encode(&buf, w, h, e)) {
        Err(p) => c.fail(&format!("{sig}: panics on a size"), format!("{what}: {p}")),
        Ok(Err(_)) => c.count("sizes refused", 1),
        Ok(Ok(f)) => judge_success(c, &sig, &what, v.fmt, v.lossless && !bitmap, e, &buf, w, h, &f),
    }
    c.evals(1);
}

/// Sides beyond what most headers hold, with all the data there (zeros nobody
/// has written, so they cost no memory), into a sink with room for headers only.
fn immense(c: &mut Case, vs: &[Variant], zeros: &[u8]) {
    let side = [1u32 << 31, (1 << 31) - 1, 70_000, 16_400][c.idx as usize / 2 % 4];
    let (w, h) = if c.idx % 2 == 0 { (side, 1) } else { (1, side) };
    let mut seen = vec![];
    for v in vs.iter().filter(|v| !v.slow) {
        let most = match v.fmt {
            ImageFormat::Bmp | ImageFormat::Png => (1u64 << 31) - 1,
            ImageFormat::Jpeg | ImageFormat::Gif | ImageFormat::Tga => 65535,
            ImageFormat::WebP => 16384,
            ImageFormat::Ico => 256,
            _ => continue,
        };
        let all = colors(v);
        let Some(color) = [ColorType::L8, ColorType::Rgb8, ColorType::Rgba8].into_iter().find(|x| all.contains(x)) else { continue };
        let n = size_of(color.into(), w, h);
        if side as u64 <= most || n > zeros.len() as u64 || seen.contains(&v.fmt) || v.fmt == ImageFormat::Ico && side > 1 << 20 {
            continue;
        }
        seen.push(v.fmt);
        let what = format!("{} {color:?} {w}x{h}", v.name);
        c.at(&what);
        c.evals_str(&what);
        let mut s = FaultWriter::new(WriteFault { capacity: Some(1500), ..WriteFault::default() }, 1);
        match catch(|| (v.run)(&mut s, &zeros[..n as usize], w, h, color.into(), None)) {
            Err(p) => c.fail(&format!("{}: panics on a size", fname(v.fmt)), format!("{what}: {p}")),
            Ok(Ok(())) => c.fail(&format!("{}: sides the format cannot hold", fname(v.fmt)), format!("{what}: success after {} bytes", s.out.len())),
            Ok(Err(_)) if s.fired => c.fail_blob(&format!("{}: sides the format cannot hold", fname(v.fmt)), format!("{what}: written until the sink was full"), Some(&s.out)),
            Ok(Err(_)) => c.count("immense sizes refused", 1),
        }
    }
}

/// Absurd dimensions with little data, and arguments of single encoders.
fn arguments(c: &mut Case, vs: &[Variant]) {
    let mut r = c.rng.clone();
    c.eval(r.u64());
    match r.below(8) {
        0 | 1 => {
            let v = r.pick(vs);
            let color: E = (*r.pick(&colors(v))).into();
            let big = |r: &mut Rng| *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 30, 0x1000_0001, 0x5555_5556, 1 << 16, 65537, 3]);
            let (w, h) = (big(&mut r), big(&mut r));
            let n = *r.pick(&[0usize, 1, 4, 12, 1000]);
            // the length a 32 bit or 64 bit product wraps to
            let n = if r.bool() { size_of(color, w, h) as u32 as usize % (1 << 20) } else { n };
            if size_of(color, w, h) == n as u64 {
                return;
            }
            let what = format!("{} {color:?} {w}x{h} with {n} bytes", v.name);
            c.at(&what);
            match catch(|| v.encode(&vec![0; n], w, h, color)) {
                Ok(Ok(f)) => c.fail_blob(&format!("{}: buffer of the wrong length encoded", fname(v.fmt)), what, Some(&f)),
                _ => c.count("absurd sizes refused", 1),
            }
        }
        2 => {
            // an empty side makes the expected length zero whatever the other
            let v = r.pick(vs);
            let color: E = (*r.pick(&colors(v))).into();
            let s = *r.pick(&[u32::MAX, 1 << 31, 1 << 16, 65535]);
            let (w, h) = if r.bool() { (0, s) } else { (s, 0) };
            let what = format!("{} {color:?} {w}x{h}", v.name);
            c.at(&what);
            match catch(|| v.encode(&[], w, h, color)) {
                Err(p) => c.fail(&format!("{} without pixels: panics on a size", fname(v.fmt)), format!("{what}: {p}")),
                Ok(Err(_)) => c.count("sizes refused", 1),
                Ok(Ok(f)) => judge_success(c, &format!("{} without pixels", fname(v.fmt)), &what, v.fmt, true, color, &[], w, h, &f),
            }
        }
        3 => {
            // palettes
            let n = *r.pick(&[0usize, 1, 2, 255, 256, 257, 1000]);
            let pal: Vec<[u8; 3]> = (0..n).map(|_| [r.u8(), r.u8(), r.u8()]).collect();
            let color = *r.pick(&[E::L8, E::L8, E::Rgb8, E::Rgba8, E::La8]);
            let (w, h) = (r.r32(1, 9), r.r32(1, 9));
            let buf: Vec<u8> = (0..size_of(color, w, h)).map(|_| r.below((n as u64).clamp(1, 256)) as u8).collect();
            let mut o = vec![];
            let what = format!("bmp palette of {n} {color:?} {w}x{h}");
            c.at(&what);
            let res = catch(|| k::bmp::BmpEncoder::new(&mut o).encode_with_palette(&buf, w, h, color, Some(&pal)));
            match res {
                Err(p) => c.fail("bmp palette: panics", format!("{what}: {p}")),
                Ok(Err(_)) => {
                    c.count("palettes refused", 1);
                    check!(c, !matches!(color, E::L8 | E::La8) || n == 0 || n > 256, "bmp palette: representable image refused", "{what}");
                }
                Ok(Ok(())) => {
                    check!(c, matches!(color, E::L8 | E::La8), "bmp palette: accepted for other colours", "{what}");
                    let want: Vec<u8> = buf.chunks_exact(color.channel_count() as usize).flat_map(|i| pal.get(i[0] as usize).copied().unwrap_or_default()).collect();
                    match catch(|| dec::decode(ImageFormat::Bmp, &o)) {
                        Ok(Ok(Some(d))) => check!(c, d.px == want && (d.w, d.h) == (w, h), "bmp palette: success with other pixels", "{what}"),
                        x => c.fail_blob("bmp palette: success, but the file is refused", format!("{what}: {:?}", x.map(|x| x.map(|_| ()).map_err(|e| kind(&e))).map_err(|e| e.to_string())), Some(&o)),
                    }
                }
            }
        }
        4 => {
            // icons
            let n = *r.pick(&[0usize, 1, 2, 3]);
            let (w, h) = (*r.pick(&[0u32, 1, 16, 255, 256, 257, 1000]), *r.pick(&[0u32, 1, 16, 255, 256, 257]));
            let what = format!("{n} icons {w}x{h}");
            c.at(&what);
            let px = vec![77; (w * h * 4) as usize];
            let fits = (1..=256).contains(&w) && (1..=256).contains(&h);
            let f = catch(|| k::ico::IcoFrame::as_png(&px, w, h, E::Rgba8).map(|_| ()));
            check!(c, matches!((&f, fits), (Ok(Ok(())), true) | (Ok(Err(_)), false)), "ico frame size", "{what}: {:?}", f.map(|f| f.map_err(|e| kind(&e))).map_err(|e| e.to_string()));
            let f = catch(|| k::ico::IcoFrame::with_encoded(&px[..], w, h, E::Rgba8).map(|_| ()));
            check!(c, matches!((&f, fits), (Ok(Ok(())), true) | (Ok(Err(_)), false)), "ico frame size", "{what}: {:?}", f.map(|f| f.map_err(|e| kind(&e))).map_err(|e| e.to_string()));
            if fits {
                let frames: Vec<_> = (0..n).map(|_| k::ico::IcoFrame::as_png(&px, w, h, E::Rgba8).unwrap()).collect();
                let mut o = vec![];
                let res = catch(|| k::ico::IcoEncoder::new(&mut o).encode_images(&frames).is_ok());
                check!(c, matches!(res, Ok(x) if x == (n > 0)), "ico frame count", "{what}: {res:?}");
            }
        }
        5 => {
            // headers that do not describe the image
            let (w, h) = (r.r32(1, 9), r.r32(1, 9));
            let (hw, hh) = (*r.pick(&[w, w, w, w + 1, w.saturating_sub(1)]), *r.pick(&[h, h, h, h + 1]));
            let max = *r.pick(&[255u32, 255, 1, 100, 65535, 254]);
            let color = *r.pick(&[E::L8, E::L8, E::Rgb8, E::Rgb8, E::La8, E::Rgba8, E::L16, E::Rgb16]);
            let wild = r.chance(1, 3);
            let (head, name): (PnmHeader, &str) = match r.below(4) {
                0 => (BitmapHeader { encoding: SampleEncoding::Binary, width: hw, height: hh }.into(), "pbm"),
                1 => (GraymapHeader { encoding: SampleEncoding::Binary, width: hw, height: hh, maxwhite: max }.into(), "pgm"),
                2 => (PixmapHeader { encoding: SampleEncoding::Binary, width: hw, height: hh, maxval: max }.into(), "ppm"),
                _ => {
                    let (t, d) = match r.below(5) {
                        0 => (Some(ArbitraryTuplType::RGB), 3),
                        1 => (Some(ArbitraryTuplType::Grayscale), 1),
                        2 => (Some(ArbitraryTuplType::RGBAlpha), 4),
                        3 => (Some(ArbitraryTuplType::BlackAndWhite), 1),
                        _ => (Some(ArbitraryTuplType::GrayscaleAlpha), 2),
                    };
                    (ArbitraryHeader { width: hw, height: hh, depth: if r.chance(1, 6) { 7 } else { d }, maxval: max, tupltype: t }.into(), "pam")
                }
            };
            let buf: Vec<u8> = (0..size_of(color, w, h)).map(|_| if wild { r.u8() } else { r.below(2) as u8 }).collect();
            let what = format!("pnm header {name} {hw}x{hh} max {max} for {color:?} {w}x{h}");
            c.at(&what);
            let mut o = vec![];
            match catch(|| k::pnm::PnmEncoder::new(&mut o).with_header(head).write_image(&buf, w, h, color)) {
                Err(p) => c.fail("pnm header: panics", format!("{what}: {p}")),
                Ok(Err(_)) => c.count("headers refused", 1),
                Ok(Ok(())) => {
                    c.count("headers accepted", 1);
                    check!(c, (w, h) == (hw, hh), "pnm header: other dimensions accepted", "{what}");
                    if color.has_alpha_() {
                        return;
                    }
                    // every sample fits the declared maximum
                    let top = if matches!(color, E::L16 | E::Rgb16) { buf.chunks_exact(2).map(|b| u16::from_ne_bytes([b[0], b[1]]) as u32).max() } else { buf.iter().map(|b| *b as u32).max() }.unwrap();
                    let limit = if name == "pbm" { 1 } else { max };
                    check!(c, top <= limit, "pnm header: sample above the declared maximum", "{what}: {top}");
                    match catch(|| dec::decode(ImageFormat::Pnm, &o)) {
                        Ok(Ok(Some(d))) => check!(c, (d.w, d.h) == (w, h), "pnm header: success with other dimensions", "{what}"),
                        x => c.fail_blob("pnm header: success, but the file is refused", format!("{what}: {:?}", x.map(|x| x.map(|_| ()).map_err(|e| kind(&e))).map_err(|e| e.to_string())), Some(&o)),
                    }
                }
            }
        }
        6 => {
            // animations with frames the format cannot hold, or that fail
            let (w, h) = (r.r32(1, 6), r.r32(1, 6));
            let bad = r.below(3);
            let frames = vec![
                Ok(Frame::new(RgbaImage::new(w, h))),
                match bad {
                    0 => Err(image::ImageError::IoError(std::io::Error::other("vh"))),
                    1 => Ok(Frame::new(RgbaImage::new(65536, 1))),
                    _ => Ok(Frame::new(RgbaImage::new(w, 0))),
                },
                Ok(Frame::new(RgbaImage::new(w, h))),
            ];
            let mut o = vec![];
            let what = format!("gif frames {w}x{h} with a bad one ({bad})");
            c.at(&what);
            match catch(|| k::gif::GifEncoder::new(&mut o).try_encode_frames(frames)) {
                Ok(Err(_)) => c.count("bad frames refused", 1),
                Ok(Ok(())) => c.fail("gif animation: bad frame accepted", what),
                Err(p) => c.fail("gif animation: panics on a bad frame", format!("{what}: {p}")),
            }
        }
        _ => {
            // formats without an encoder, and colours without a place
            let color = *r.pick(&gen::COLORS);
            let img = gen::dynamic(&mut r, color, 3, 2);
            for f in ImageFormat::all() {
                let mut o = Cursor::new(vec![]);
                let what = format!("{:?} to {f:?}", img.color());
                if f == ImageFormat::Avif {
                    continue;
                }
                c.at(&what);
                match catch(|| img.write_to(&mut o, f)) {
                    Err(p) => c.fail(&format!("{} write_to: panics", fname(f)), format!("{what}: {p}")),
                    Ok(Err(e)) => {
                        c.count("formats refused", 1);
                        let _ = e;
                    }
                    Ok(Ok(())) => {
                        check!(c, f.can_write(), format!("{} write_to: format without an encoder", fname(f)), "{what}");
                        let color: E = img.color().into();
                        if f.can_read() && !excused(f, color, 3, 2) {
                            match catch(|| image::load_from_memory_with_format(o.get_ref(), f).map(|d| (d.width(), d.height()))) {
                                Ok(Ok(d)) => check!(c, d == (3, 2), format!("{} write_to: other dimensions", fname(f)), "{what}"),
                                x => c.fail(&format!("{} write_to: success, but the file is refused", fname(f)), format!("{what}: {:?}", x.map(|x| x.map_err(|e| kind(&e))).map_err(|e| e.to_string()))),
                            }
                        }
                    }
                }
                c.evals(1);
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    dec::CAP.store(1 << 24, Relaxed);
    ctx.rule("every encoder with every option writes to sinks that accept few bytes at a time, are interrupted, fail at a given operation, byte, flush or seek (for good or once), or stop accepting bytes; a fault that was raised must be reported, and otherwise the bytes are those of an unhindered sink; every extended colour type, wrong lengths, empty, maximal and absurd sizes, palettes, headers and frame lists: an error (or for wrong lengths the documented panic), or a file that decodes to the image");
    ctx.assume("encoders that only start or continue a file cannot report what their drop does (GIF's trailer: recorded finding)");
    let vs = vh::enc::variants();
    let fast: Vec<&Variant> = vs.iter().filter(|v| !v.slow).collect();
    for v in &vs {
        let (q, t) = if v.slow { (8, 60) } else { (150, 2500) };
        ctx.section(&format!("sinks {}", v.name), q, t, |c| sinks(c, v));
        let (q, t) = if v.slow { (27, 135) } else { (270, 5400) };
        ctx.section(&format!("refusals {}", v.name), q, t, |c| refusals(c, v));
        let (q, t) = if v.slow { (20, 60) } else { (80, 1000) };
        ctx.section(&format!("sizes {}", v.name), q, t, |c| limits_of_size(c, v));
    }
    let _ = fast;
    ctx.section("larger images twice", 400, 6000, |c| twice(c, &vs));
    ctx.section("other ways to write", 2500, 60_000, others);
    let zeros = vec![0u8; (1 << 31) + 16];
    ctx.serial("immense", 8, 8, |c| immense(c, &vs, &zeros));
    drop(zeros);
    ctx.section("arguments", 8000, 200_000, |c| arguments(c, &vs));
    ctx.require("immense sizes refused", 10);
    ctx.require("sink failures reported", 50_000);
    ctx.require("encodings with slow sinks", 10_000);
    ctx.require("colour types refused", 4_000);
    ctx.require("wrong lengths refused with the documented panic", 4_000);
    ctx.require("successes decoded again", 3_000);
}
