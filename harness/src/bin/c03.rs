//! C03: lossy encoders stay within their distortion bounds.
use image::codecs as k;
use image::{ColorType, DynamicImage, ExtendedColorType, Frame, GenericImageView, GrayImage, ImageEncoder, ImageFormat, ImageResult, Rgb, RgbImage, RgbaImage};
use std::cell::RefCell;
use std::io::Cursor;
use vh::dec::{self, kind, Decoded};
use vh::readers::{self, jpeg::Jpeg};
use vh::{catch, check, gen, hash_bytes, lossy, Case, Ctx, Rng};

vh::property_main!("C03");

fn size(r: &mut Rng, max: u32) -> (u32, u32) {
    match r.below(24) {
        0 => r.long(1).unwrap(),
        1 => (r.r32(1, 4), r.r32(1, 600)),
        2 => (r.r32(1, 600), r.r32(1, 4)),
        3..=12 => (r.r32(8, max), r.r32(8, max)),
        _ => (r.size(max), r.size(max)),
    }
}
fn encoded(c: &mut Case, sig: &str, what: &str, f: impl FnOnce() -> ImageResult<Vec<u8>>) -> Option<Vec<u8>> {
    match catch(f) {
        Err(p) => c.fail(&format!("{sig}: encoding panics"), format!("{what}: {p}")),
        Ok(Err(e)) => c.fail(&format!("{sig}: not encoded {}", kind(&e)), format!("{what}: {e}")),
        Ok(Ok(f)) => return Some(f),
    }
    None
}
fn decoded(c: &mut Case, sig: &str, what: &str, fmt: ImageFormat, file: &[u8], want: (u32, u32, ColorType)) -> Option<Decoded> {
    let way = c.rng.below(3);
    let r = catch(|| match way {
        0 => dec::decode(fmt, file).map(Option::unwrap),
        1 => image::load_from_memory_with_format(file, fmt).map(|d| dec::of_dynamic(&d)),
        _ => dec::read(dec::boxed(fmt, file)?).map(Option::unwrap),
    });
    match r {
        Err(p) => c.fail_blob(&format!("{sig}: decoding panics"), format!("{what}: {p}"), Some(file)),
        Ok(Err(e)) => c.fail_blob(&format!("{sig}: own file refused {}", kind(&e)), format!("{what}: {e}"), Some(file)),
        Ok(Ok(d)) => {
            check!(c, (d.w, d.h) == (want.0, want.1), format!("{sig}: dimensions"), "{what}: {}x{}", d.w, d.h);
            check!(c, d.color == want.2, format!("{sig}: colour type"), "{what}: {:?}", d.color);
            if (d.w, d.h, d.color) == want {
                c.count("pixels compared", want.0 as u64 * want.1 as u64);
                return Some(d);
            }
        }
    }
    None
}
fn f64s(b: &[u8]) -> Vec<f64> {
    b.iter().map(|v| *v as f64).collect()
}

// ---------------------------------------------------------------- JPEG

fn jpeg_file(img: &[u8], w: u32, h: u32, gray: bool, q: u8) -> ImageResult<Vec<u8>> {
    let mut o = vec![];
    k::jpeg::JpegEncoder::new_with_quality(&mut o, q).encode(img, w, h, if gray { ExtendedColorType::L8 } else { ExtendedColorType::Rgb8 })?;
    Ok(o)
}
fn quality(r: &mut Rng) -> u8 {
    match r.below(4) {
        0 => *r.pick(&[1u8, 2, 25, 49, 50, 51, 75, 90, 99, 100]),
        _ => r.r32(1, 100) as u8,
    }
}
fn picture(r: &mut Rng, w: u32, h: u32, gray: bool) -> Vec<u8> {
    let ch = if gray { 1 } else { 3 };
    match r.below(4) {
        0 => lossy::smooth(r, w, h, ch),
        _ => gen::dynamic(r, if gray { ColorType::L8 } else { ColorType::Rgb8 }, w, h).into_bytes(),
    }
}
/// Encode, check the coefficients, decode, compare with the exact inverse
/// transform of the same file and with the picture.
fn jpeg(c: &mut Case) {
    let mut r = c.rng.clone();
    let (mut w, mut h) = size(&mut r, 90);
    (w, h) = (w.min(20000), h.min(20000));
    let gray = r.chance(1, 3);
    let ch = if gray { 1 } else { 3 };
    let img = picture(&mut r, w, h, gray);
    let q = quality(&mut r);
    let what = format!("jpeg {w}x{h} gray {gray} quality {q}");
    c.at(&what);
    c.eval(hash_bytes(&img));
    c.evals_str(&format!("jpeg {q} {gray}"));
    let Some(file) = encoded(c, "jpeg", &what, || jpeg_file(&img, w, h, gray, q)) else { return };
    let color = if gray { ColorType::L8 } else { ColorType::Rgb8 };
    let Some(d) = decoded(c, "jpeg", &what, ImageFormat::Jpeg, &file, (w, h, color)) else { return };
    let j: Jpeg = match catch(|| readers::jpeg::parse(&file)) {
        Ok(Ok(j)) => j,
        Ok(Err(e)) => return c.fail_blob("jpeg: not valid", format!("{what}: {e}"), Some(&file)),
        Err(p) => return c.fail_blob("jpeg: reader fails", format!("{what}: {p}"), Some(&file)),
    };
    if (j.img.w, j.img.h, j.img.ch) != (w, h, ch) {
        return c.fail_blob("jpeg: shape of the file", format!("{what}: {}x{} of {}", j.img.w, j.img.h, j.img.ch), Some(&file));
    }
    let px = f64s(&img);
    match lossy::jpeg_bound(&j, ch, &px) {
        Ok(s) => {
            c.count("jpeg blocks", s.blocks);
            c.count("jpeg edge blocks", s.edge_blocks);
        }
        Err(e) => c.fail_blob("jpeg: coefficients", format!("{what}: {e}"), Some(&file)),
    }
    // the decoder does the transforms in integers
    if !j.subsampled {
        let (m, a) = lossy::diff(&f64s(&d.px), &j.img.px);
        c.peak("largest jpeg difference from the exact decoder, hundredths", (m * 100.0) as u64);
        check!(c, m <= JPEG_DECODER && (a <= 1.5 || px.len() < 3000), "jpeg: decoder", "{what}: differs from the exact transform by {m:.2}, {a:.2} on average");
    }
    let top = j.qt.iter().all(|t| t.iter().all(|q| *q == 1));
    check!(c, q < 100 || top, "jpeg: quantisation at quality 100", "{what}: {:?}", j.qt[0]);
}
/// Fixed point transforms of the decoder against exact ones.
const JPEG_DECODER: f64 = 3.5;

/// Higher quality: no coarser quantisation, no larger error.
fn jpeg_quality(c: &mut Case) {
    let mut r = c.rng.clone();
    let (w, h) = (r.r32(64, 120), r.r32(64, 120));
    let gray = r.chance(1, 3);
    let ch = if gray { 1 } else { 3 };
    // the errors of patterns go up and down with the step
    let noise = r.chance(2, 3);
    let img = if noise { r.bytes((w * h) as usize * ch) } else { picture(&mut r, w, h, gray) };
    let px = f64s(&img);
    let mut qs: Vec<u8> = (0..4).map(|_| quality(&mut r)).collect();
    qs.sort();
    let what = format!("jpeg {w}x{h} gray {gray} qualities {qs:?}");
    c.at(&what);
    c.eval(hash_bytes(&img));
    let mut last: Option<(u8, Vec<[u16; 64]>, f64)> = None;
    for q in qs {
        let Some(file) = encoded(c, "jpeg", &what, || jpeg_file(&img, w, h, gray, q)) else { return };
        let color = if gray { ColorType::L8 } else { ColorType::Rgb8 };
        let Some(d) = decoded(c, "jpeg", &what, ImageFormat::Jpeg, &file, (w, h, color)) else { return };
        let Ok(j) = readers::jpeg::parse(&file) else { return c.fail_blob("jpeg: not valid", what, Some(&file)) };
        let mse = f64s(&d.px).iter().zip(&px).map(|(a, b)| (a - b) * (a - b)).sum::<f64>() / px.len() as f64;
        if let Some((lq, lt, lm)) = &last {
            for (a, b) in lt.iter().zip(&j.qt) {
                check!(c, a.iter().zip(b).all(|(a, b)| a >= b), "jpeg: quantisation grows with quality", "{what}: from {lq} to {q}");
            }
            // rounding is not monotonous for close qualities
            if noise && q >= lq + 20 {
                check!(c, mse <= lm * 1.1 + 1.5, "jpeg: error grows with quality", "{what}: {lm:.2} at {lq}, {mse:.2} at {q}");
                c.count("pairs of qualities compared", 1);
            }
        }
        last = Some((q, j.qt, mse));
    }
}
/// Near exact for smooth pictures at the top.
fn jpeg_smooth(c: &mut Case) {
    let mut r = c.rng.clone();
    let (w, h) = size(&mut r, 90);
    let (w, h) = (w.min(20000), h.min(20000));
    let gray = r.chance(1, 3);
    let img = lossy::smooth(&mut r, w, h, if gray { 1 } else { 3 });
    let what = format!("jpeg smooth {w}x{h} gray {gray}");
    c.at(&what);
    c.eval(hash_bytes(&img));
    let Some(file) = encoded(c, "jpeg", &what, || jpeg_file(&img, w, h, gray, 100)) else { return };
    let color = if gray { ColorType::L8 } else { ColorType::Rgb8 };
    let Some(d) = decoded(c, "jpeg", &what, ImageFormat::Jpeg, &file, (w, h, color)) else { return };
    let (m, a) = lossy::diff(&f64s(&d.px), &f64s(&img));
    c.peak("largest jpeg error at the top, smooth pictures", m as u64);
    check!(c, m <= 6.0 && a <= 1.5, "jpeg: smooth picture at top quality", "{what}: off by {m}, {a:.2} on average");
}
/// A view that counts how often each pixel is looked at.
struct Counting<'a>(&'a RgbImage, RefCell<Vec<u32>>);
impl GenericImageView for Counting<'_> {
    type Pixel = Rgb<u8>;
    fn dimensions(&self) -> (u32, u32) {
        self.0.dimensions()
    }
    fn get_pixel(&self, x: u32, y: u32) -> Rgb<u8> {
        self.1.borrow_mut()[(y * self.0.width() + x) as usize] += 1;
        *self.0.get_pixel(x, y)
    }
}
/// All ways to encode give the same file.
fn jpeg_ways(c: &mut Case) {
    let mut r = c.rng.clone();
    let (w, h) = if r.chance(1, 3) { (r.r32(1, 8) * 8, r.r32(1, 8) * 8) } else { (r.size(60), r.size(60)) };
    let gray = r.chance(1, 3);
    let ch = if gray { 1 } else { 3 };
    let img = picture(&mut r, w, h, gray);
    let q = if r.bool() { 75 } else { quality(&mut r) };
    let e = if gray { ExtendedColorType::L8 } else { ExtendedColorType::Rgb8 };
    let what = format!("jpeg {w}x{h} gray {gray} quality {q}");
    c.at(&what);
    c.eval(hash_bytes(&img));
    let Some(file) = encoded(c, "jpeg", &what, || jpeg_file(&img, w, h, gray, q)) else { return };
    let ways: &[&str] = &["write_image", "typed", "with alpha", "view", "sub image", "odd address", "dynamic", "reused vector", "counting", "write_to", "write_buffer_with_format", "typed write_to"];
    for n in ways {
        let r2 = &mut r;
        let got = catch(|| -> ImageResult<Option<Vec<u8>>> {
            let mut o: Vec<u8> = vec![];
            let dynamic = || if gray { DynamicImage::ImageLuma8(GrayImage::from_raw(w, h, img.clone()).unwrap()) } else { DynamicImage::ImageRgb8(RgbImage::from_raw(w, h, img.clone()).unwrap()) };
            match *n {
                "write_image" => k::jpeg::JpegEncoder::new_with_quality(&mut o, q).write_image(&img, w, h, e)?,
                "typed" if gray => k::jpeg::JpegEncoder::new_with_quality(&mut o, q).encode_image(&GrayImage::from_raw(w, h, img.clone()).unwrap())?,
                "typed" => k::jpeg::JpegEncoder::new_with_quality(&mut o, q).encode_image(&RgbImage::from_raw(w, h, img.clone()).unwrap())?,
                "with alpha" => {
                    // alpha has no place in the file, and no influence
                    let px: Vec<u8> = img.chunks_exact(ch).flat_map(|p| p.iter().copied().chain([r2.u8()]).collect::<Vec<_>>()).collect();
                    let mut e = k::jpeg::JpegEncoder::new_with_quality(&mut o, q);
                    if gray {
                        e.encode_image(&image::GrayAlphaImage::from_raw(w, h, px).unwrap())?
                    } else {
                        e.encode_image(&RgbaImage::from_raw(w, h, px).unwrap())?
                    }
                }
                "view" => {
                    // the view of a dynamic image is in colour
                    if gray {
                        return Ok(None);
                    }
                    k::jpeg::JpegEncoder::new_with_quality(&mut o, q).encode_image(&dynamic())?
                }
                "sub image" => {
                    let (l, t) = (r2.r32(0, 5), r2.r32(0, 5));
                    let (rr, b) = (r2.r32(0, 5), r2.r32(0, 5));
                    if gray {
                        let mut big = GrayImage::from_fn(w + l + rr, h + t + b, |_, _| image::Luma([r2.u8()]));
                        image::imageops::replace(&mut big, &GrayImage::from_raw(w, h, img.clone()).unwrap(), l as i64, t as i64);
                        k::jpeg::JpegEncoder::new_with_quality(&mut o, q).encode_image(&*big.view(l, t, w, h))?
                    } else {
                        let mut big = RgbImage::from_fn(w + l + rr, h + t + b, |_, _| Rgb([r2.u8(), r2.u8(), r2.u8()]));
                        image::imageops::replace(&mut big, &RgbImage::from_raw(w, h, img.clone()).unwrap(), l as i64, t as i64);
                        k::jpeg::JpegEncoder::new_with_quality(&mut o, q).encode_image(&*big.view(l, t, w, h))?
                    }
                }
                "odd address" => {
                    let mut v = vec![0; img.len() + 1];
                    v[1..].copy_from_slice(&img);
                    k::jpeg::JpegEncoder::new_with_quality(&mut o, q).encode(&v[1..], w, h, e)?
                }
                "dynamic" => dynamic().write_with_encoder(k::jpeg::JpegEncoder::new_with_quality(&mut o, q))?,
                "reused vector" => {
                    // a longer buffer with more behind the pixels
                    let mut v = img.clone();
                    v.extend(r2.bytes(17));
                    if gray {
                        k::jpeg::JpegEncoder::new_with_quality(&mut o, q).encode_image(&GrayImage::from_raw(w, h, v).unwrap())?
                    } else {
                        k::jpeg::JpegEncoder::new_with_quality(&mut o, q).encode_image(&RgbImage::from_raw(w, h, v).unwrap())?
                    }
                }
                "counting" => {
                    if gray {
                        return Ok(None);
                    }
                    let i = RgbImage::from_raw(w, h, img.clone()).unwrap();
                    let v = Counting(&i, RefCell::new(vec![0; (w * h) as usize]));
                    k::jpeg::JpegEncoder::new_with_quality(&mut o, q).encode_image(&v)?;
                    let n = v.1.into_inner();
                    // promised by the documentation; blocks over the edge repeat pixels
                    let once = |x: u32, y: u32| n[(y * w + x) as usize] == 1;
                    for y in 0..h / 8 * 8 {
                        for x in 0..w / 8 * 8 {
                            let inner = (x + 1 < w || w % 8 == 0) && (y + 1 < h || h % 8 == 0);
                            if inner && !once(x, y) {
                                return Err(image::ImageError::IoError(std::io::Error::other(format!("pixel {x},{y} looked at {} times", n[(y * w + x) as usize]))));
                            }
                        }
                    }
                }
                // these choose the quality themselves
                _ if q != 75 => return Ok(None),
                "write_to" => dynamic().write_to(&mut Cursor::new(&mut o), ImageFormat::Jpeg)?,
                "write_buffer_with_format" => image::write_buffer_with_format(&mut Cursor::new(&mut o), &img, w, h, e, ImageFormat::Jpeg)?,
                _ if gray => GrayImage::from_raw(w, h, img.clone()).unwrap().write_to(&mut Cursor::new(&mut o), ImageFormat::Jpeg)?,
                _ => RgbImage::from_raw(w, h, img.clone()).unwrap().write_to(&mut Cursor::new(&mut o), ImageFormat::Jpeg)?,
            }
            Ok(Some(o))
        });
        match got {
            Err(p) => c.fail(&format!("jpeg by {n}: panics"), format!("{what}: {p}")),
            Ok(Err(e)) => c.fail(&format!("jpeg by {n}: refused"), format!("{what}: {e}")),
            Ok(Ok(None)) => {}
            Ok(Ok(Some(o))) => {
                c.count("files of other ways compared", 1);
                check!(c, o == file, format!("jpeg by {n}: another file"), "{what}: {} instead of {} bytes", o.len(), file.len());
            }
        }
    }
}

// ---------------------------------------------------------------- HDR

fn hdr(c: &mut Case) {
    let mut r = c.rng.clone();
    let (mut w, mut h) = size(&mut r, 70);
    (w, h) = (w.min(40000), h.min(40000));
    let style = r.below(6);
    let run = r.range(1, 300) as usize;
    let mut last = [0f32; 3];
    let px: Vec<f32> = (0..(w * h) as usize)
        .flat_map(|i| {
            if style == 3 && i % run != 0 {
                return last;
            }
            let e = match style {
                0 => 1.0,
                1 => 2f32.powi(r.irange(-100, 100) as i32),
                2 => 2f32.powi(r.irange(-4, 4) as i32),
                _ => 16.0,
            };
            last = [r.f32() * e, r.f32() * e, if r.chance(1, 10) { 0.0 } else { r.f32() * e }];
            if style == 4 {
                let b = 2f32.powi(r.irange(-20, 20) as i32);
                last[r.below(3) as usize] = f32::from_bits((b.to_bits() as i64 + r.irange(-2, 2)) as u32);
            }
            if style == 5 {
                // the pixels that have an exact form
                let b = 2f32.powi(r.irange(-60, 60) as i32);
                last = [r.below(256) as f32 * b, r.below(256) as f32 * b, r.range(128, 255) as f32 * b];
            }
            last
        })
        .collect();
    let what = format!("hdr {w}x{h} style {style}");
    c.at(&what);
    c.evals_str(&format!("hdr style {style}"));
    let bytes: Vec<u8> = px.iter().flat_map(|v| v.to_ne_bytes()).collect();
    c.eval(hash_bytes(&bytes));
    let Some(file) = encoded(c, "hdr", &what, || {
        let mut o = vec![];
        k::hdr::HdrEncoder::new(&mut o).write_image(&bytes, w, h, ExtendedColorType::Rgb32F)?;
        Ok(o)
    }) else {
        return;
    };
    // typed, dynamic and plain ways agree
    let rgb: Vec<Rgb<f32>> = px.chunks_exact(3).map(|p| Rgb([p[0], p[1], p[2]])).collect();
    let other = catch(|| -> ImageResult<[Vec<u8>; 2]> {
        let (mut a, mut b) = (vec![], vec![]);
        k::hdr::HdrEncoder::new(&mut a).encode(&rgb, w as usize, h as usize)?;
        DynamicImage::ImageRgb32F(image::Rgb32FImage::from_raw(w, h, px.clone()).unwrap()).write_to(&mut Cursor::new(&mut b), ImageFormat::Hdr)?;
        Ok([a, b])
    });
    match other {
        Ok(Ok([a, b])) => check!(c, a == file && b == file, "hdr: ways differ", "{what}"),
        e => c.fail("hdr: other ways fail", format!("{what}: {}", match e { Err(p) => p.to_string(), Ok(e) => e.err().unwrap().to_string() })),
    }
    let Some(d) = decoded(c, "hdr", &what, ImageFormat::Hdr, &file, (w, h, ColorType::Rgb32F)) else { return };
    let got: Vec<f32> = d.px.chunks_exact(4).map(|v| f32::from_ne_bytes(v.try_into().unwrap())).collect();
    for (i, (g, p)) in got.chunks_exact(3).zip(px.chunks_exact(3)).enumerate() {
        let m = p.iter().cloned().fold(0f32, f32::max) as f64;
        let e = if m > 0.0 { m.log2().floor() as i32 + 1 } else { 0 };
        let step = 2f64.powi(e - 8);
        for k in 0..3 {
            let err = (g[k] as f64 - p[k] as f64).abs();
            if m == 0.0 && g[k] != 0.0 || m > 0.0 && err > step * 1.01 || style == 5 && err != 0.0 {
                return c.fail_blob("hdr: pixels", format!("{what}: pixel {i} {p:?} became {g:?}, a step is {step}"), Some(&file));
            }
        }
    }
    // what was decoded is exact, so it is a fixed point
    let again = encoded(c, "hdr again", &what, || {
        let mut o = vec![];
        k::hdr::HdrEncoder::new(&mut o).write_image(&d.px, w, h, ExtendedColorType::Rgb32F)?;
        Ok(o)
    });
    if let Some(f2) = again {
        check!(c, f2 == file, "hdr: encoding the decoded image again", "{what}: another file");
        c.count("hdr images encoded again", 1);
    }
}

// ---------------------------------------------------------------- GIF

fn gif(c: &mut Case) {
    let mut r = c.rng.clone();
    let (w, h) = (r.r32(8, 90), r.r32(8, 90));
    let style = r.below(3);
    let alpha = r.below(3);
    let mut px = match style {
        0 => lossy::smooth(&mut r, w, h, 4),
        1 => gen::dynamic(&mut r, ColorType::Rgba8, w, h).into_bytes(),
        _ => r.bytes((w * h * 4) as usize),
    };
    for p in px.chunks_exact_mut(4) {
        p[3] = match alpha {
            0 => 255,
            1 => [0, 255][r.chance(2, 3) as usize],
            _ => p[3],
        };
    }
    let speed = if r.bool() { 10 } else { r.r32(1, 30) as i32 };
    let way = r.below(3);
    let what = format!("gif {w}x{h} style {style} alpha {alpha} speed {speed} way {way}");
    c.at(&what);
    c.eval(hash_bytes(&px));
    c.evals_str(&format!("gif {style} {alpha} {way}"));
    let img = RgbaImage::from_raw(w, h, px.clone()).unwrap();
    let Some(file) = encoded(c, "gif", &what, || {
        let mut o = vec![];
        match way {
            0 => k::gif::GifEncoder::new_with_speed(&mut o, speed).encode(&px, w, h, ExtendedColorType::Rgba8)?,
            1 => k::gif::GifEncoder::new_with_speed(&mut o, speed).encode_frame(Frame::new(img.clone()))?,
            _ => img.write_to(&mut Cursor::new(&mut o), ImageFormat::Gif)?,
        }
        Ok(o)
    }) else {
        return;
    };
    let Some(d) = decoded(c, "gif", &what, ImageFormat::Gif, &file, (w, h, ColorType::Rgba8)) else { return };
    let (mut sum, mut n, mut shown, mut hidden) = (0f64, 0u64, 0u64, 0u64);
    for (g, p) in d.px.chunks_exact(4).zip(px.chunks_exact(4)) {
        if g[3] != 0 && g[3] != 255 {
            return c.fail_blob("gif: alpha", format!("{what}: alpha {}", g[3]), Some(&file));
        }
        match (p[3], g[3]) {
            (0, 255) => shown += 1,
            (255, 0) => hidden += 1,
            _ => {}
        }
        if p[3] == 255 && g[3] == 255 {
            for k in 0..3 {
                sum += (g[k] as f64 - p[k] as f64).abs();
            }
            n += 3;
        }
    }
    check!(c, hidden == 0, "gif: opaque pixels became transparent", "{what}: {hidden} of {}", w * h);
    check!(c, shown == 0, "gif: transparent pixels became opaque", "{what}: {shown} of {}", w * h);
    if n >= 600 {
        let a = sum / n as f64;
        c.peak(["largest mean gif error, smooth, hundredths", "largest mean gif error, mixed, hundredths", "largest mean gif error, noise, hundredths"][style as usize], (a * 100.0) as u64);
        check!(c, a <= GIF_MEAN[style as usize], "gif: colours", "{what}: off by {a:.1} on average");
    }
    c.count("gif images", 1);
}
/// 256 colours over the whole cube leave cells of about 40 per side.
const GIF_MEAN: [f64; 3] = [24.0, 40.0, 45.0];

// ---------------------------------------------------------------- AVIF

fn avif_file(bytes: &[u8], w: u32, h: u32, e: ExtendedColorType, q: u8, bt709: bool) -> ImageResult<Vec<u8>> {
    let mut o = vec![];
    let mut enc = k::avif::AvifEncoder::new_with_speed_quality(&mut o, 10, q).with_num_threads(Some(1));
    if bt709 {
        enc = enc.with_colorspace(k::avif::ColorSpace::Bt709);
    }
    enc.write_image(bytes, w, h, e)?;
    Ok(o)
}
fn avif(c: &mut Case) {
    let mut r = c.rng.clone();
    let (w, h) = if r.bool() { (r.r32(8, 90), r.r32(8, 90)) } else { (r.size(60), r.size(60)) };
    let color = *r.pick(&[ColorType::L8, ColorType::La8, ColorType::Rgb8, ColorType::Rgb8, ColorType::Rgba8, ColorType::L16, ColorType::La16, ColorType::Rgb16, ColorType::Rgba16]);
    let ch = color.channel_count() as usize;
    let wide = color.bytes_per_pixel() as usize / ch == 2;
    let noise = r.chance(1, 4);
    let mut s = if noise { r.bytes((w * h) as usize * ch) } else { lossy::smooth(&mut r, w, h, ch) };
    let opaque = r.chance(1, 3);
    if color.has_alpha() {
        // colours below full transparency are not kept
        s.iter_mut().skip(ch - 1).step_by(ch).for_each(|v| *v = if opaque { 255 } else { *v / 2 + 128 });
    }
    let bytes: Vec<u8> = if wide { s.iter().flat_map(|v| (*v as u16 * 257).to_ne_bytes()).collect() } else { s.clone() };
    let bt709 = r.bool();
    let q = [100u8, 90, 60, 10][r.below(4) as usize];
    let what = format!("avif {color:?} {w}x{h} bt709 {bt709} noise {noise} quality {q}");
    c.at(&what);
    c.eval(hash_bytes(&bytes));
    c.evals_str(&format!("avif {color:?} {bt709} {q}"));
    let Some(file) = encoded(c, "avif", &what, || avif_file(&bytes, w, h, color.into(), q, bt709)) else { return };
    let Some(d) = decoded(c, "avif", &what, ImageFormat::Avif, &file, (w, h, ColorType::Rgba8)) else { return };
    let want: Vec<f64> = s
        .chunks_exact(ch)
        .flat_map(|p| {
            let mut v = if ch < 3 { vec![p[0]; 3] } else { p[..3].to_vec() };
            v.push(if ch % 2 == 0 { p[ch - 1] } else { 255 });
            v
        })
        .map(|v| v as f64)
        .collect();
    let got = f64s(&d.px);
    if !color.has_alpha() || opaque {
        check!(c, got.iter().skip(3).step_by(4).all(|v| *v == 255.0), "avif: alpha of an opaque picture", "{what}");
    }
    let (m, a) = lossy::diff(&got, &want);
    if !noise {
        let (bm, ba) = match q {
            100 => (12.0, 2.0),
            90 => (20.0, 3.0),
            60 => (60.0, 8.0),
            _ => (160.0, 40.0),
        };
        c.peak(
            match q {
                100 => "largest avif error of smooth pictures at 100",
                90 => "largest avif error of smooth pictures at 90",
                60 => "largest avif error of smooth pictures at 60",
                _ => "largest avif error of smooth pictures at 10",
            },
            m as u64,
        );
        c.peak(
            match q {
                100 => "mean avif error of smooth pictures at 100, hundredths",
                90 => "mean avif error of smooth pictures at 90, hundredths",
                60 => "mean avif error of smooth pictures at 60, hundredths",
                _ => "mean avif error of smooth pictures at 10, hundredths",
            },
            (a * 100.0) as u64,
        );
        check!(c, m <= bm && a <= ba, "avif: pixels", "{what}: off by {m}, {a:.2} on average");
    }
    // an independent decoder sees the same picture
    if readers::avif::available() {
        match readers::avif::read(&file) {
            Ok(i) if (i.w, i.h) == (w, h) => {
                let theirs: Vec<f64> = i.px.chunks_exact(i.ch).flat_map(|p| [p[0], p[1], p[2], *p.get(3).unwrap_or(&255.0)]).collect();
                let (m, _) = lossy::diff(&got, &theirs);
                c.peak("largest avif difference from libheif", m as u64);
                check!(c, m <= 3.0, "avif: decoders differ", "{what}: by {m}");
                c.count("avif pictures compared with libheif", 1);
            }
            Ok(i) => c.fail_blob("avif: dimensions for libheif", format!("{what}: {}x{}", i.w, i.h), Some(&file)),
            Err(e) => c.fail_blob("avif: not valid", format!("{what}: {e}"), Some(&file)),
        }
    }
    // quality
    if r.chance(1, 3) && q < 90 && w >= 16 && h >= 16 {
        if let Some(f2) = encoded(c, "avif", &what, || avif_file(&bytes, w, h, color.into(), 100, bt709)) {
            if let Some(d2) = decoded(c, "avif", &what, ImageFormat::Avif, &f2, (w, h, ColorType::Rgba8)) {
                let (_, a2) = lossy::diff(&f64s(&d2.px), &want);
                check!(c, a2 <= a + 0.5, "avif: error grows with quality", "{what}: {a:.2}, at quality 100 {a2:.2}");
                c.count("pairs of qualities compared", 1);
            }
        }
    }
    // the address of the samples does not matter
    let mut odd = vec![0; bytes.len() + 1];
    odd[1..].copy_from_slice(&bytes);
    if let Some(f2) = encoded(c, "avif", &what, || avif_file(&odd[1..], w, h, color.into(), q, bt709)) {
        check!(c, f2 == file, "avif: depends on the address of the samples", "{what}");
        c.count("files of other ways compared", 1);
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("JPEG: each coefficient of each whole block of the file within half a quantisation step of the exact transform of the picture, edge blocks by their total error, the decoder within 3.5 of an exact inverse transform, tables and errors not growing with quality, the same bytes by every public way; HDR: each sample within one step of its pixel's exponent, fixed point on decoding; GIF: mean error and exact opacity; AVIF: error bounds per quality for smooth pictures, agreement with libheif, quality order");
    ctx.assume("pixels below full transparency are not compared; AVIF bounds only for smooth pictures");
    ctx.section("jpeg", 2500, 60_000, jpeg);
    ctx.section("jpeg quality", 250, 6_000, jpeg_quality);
    ctx.section("jpeg smooth", 800, 20_000, jpeg_smooth);
    ctx.section("jpeg ways", 900, 25_000, jpeg_ways);
    ctx.section("hdr", 2500, 60_000, hdr);
    ctx.section("gif", 500, 12_000, gif);
    ctx.section("avif", 160, 2_000, avif);
    ctx.require("pixels compared", 1_000_000);
    ctx.require("jpeg blocks", 50_000);
    ctx.require("pairs of qualities compared", 100);
    ctx.require("hdr images encoded again", 1000);
}
