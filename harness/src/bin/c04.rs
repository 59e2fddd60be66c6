//! C04: encoded files are valid and mean the same to independent decoders.
use image::codecs as k;
use image::codecs::pnm::{ArbitraryHeader, ArbitraryTuplType, BitmapHeader, GraymapHeader, PixmapHeader, PnmHeader, SampleEncoding};
use image::{ColorType, Delay, DynamicImage, ExtendedColorType, Frame, ImageFormat, ImageResult};
use std::io::Cursor;
use vh::dec::kind;
use vh::enc::{accepts, Variant};
use vh::readers::{self, Img};
use vh::{catch, check, gen, hash_bytes, lossy, Case, Ctx, Rng};

vh::property_main!("C04");

fn size(r: &mut Rng, max: u32) -> (u32, u32) {
    match r.below(24) {
        0 => r.long(1).unwrap(),
        1 => (r.r32(1, 4), r.r32(1, 600)),
        2 => (r.r32(1, 600), r.r32(1, 4)),
        _ => (r.size(max), r.size(max)),
    }
}
/// Samples of an image as numbers.
fn samples(c: ColorType, b: &[u8]) -> Vec<f64> {
    match c.bytes_per_pixel() / c.channel_count() {
        1 => b.iter().map(|v| *v as f64).collect(),
        2 => b.chunks_exact(2).map(|v| u16::from_ne_bytes([v[0], v[1]]) as f64).collect(),
        _ => b.chunks_exact(4).map(|v| f32::from_ne_bytes(v.try_into().unwrap()) as f64).collect(),
    }
}
/// What the file must hold: channels, largest sample, samples.
fn meaning(fmt: ImageFormat, c: ColorType, b: &[u8]) -> (usize, u32, Vec<f64>) {
    let s = samples(c, b);
    let ch = c.channel_count() as usize;
    let max = match c.bytes_per_pixel() / c.channel_count() {
        1 => 255,
        2 => 65535,
        _ => 0,
    };
    let rgb = |s: &[f64], alpha: bool, drop: bool| -> Vec<f64> {
        s.chunks_exact(ch)
            .flat_map(|p| {
                let mut v = if ch < 3 { vec![p[0]; 3] } else { p[..3].to_vec() };
                if alpha && !drop {
                    v.push(if ch % 2 == 0 { p[ch - 1] } else { 255.0 });
                }
                v
            })
            .collect()
    };
    match fmt {
        // gray is stored with a palette, without its alpha
        ImageFormat::Bmp if ch < 3 => (3, max, rgb(&s, false, true)),
        ImageFormat::WebP | ImageFormat::Gif => (4, max, rgb(&s, true, false)),
        _ => (ch, max, s),
    }
}
/// Findings have names of their own.
fn note_sig(fmt: ImageFormat, n: &str) -> Option<String> {
    match n {
        "tiff alpha without ExtraSamples" | "tiff directory or values at odd positions" => Some(n.to_string()),
        _ => {
            let _ = fmt;
            None
        }
    }
}
fn compare(c: &mut Case, sig: &str, what: &str, got: &Img, w: u32, h: u32, want: &(usize, u32, Vec<f64>), file: &[u8]) {
    check!(c, (got.w, got.h) == (w, h), format!("{sig}: dimensions"), "{what}: the file says {}x{}", got.w, got.h);
    check!(c, (got.ch, got.max) == (want.0, want.1), format!("{sig}: kind of samples"), "{what}: {} channels up to {}, expected {} up to {}", got.ch, got.max, want.0, want.1);
    if (got.w, got.h, got.ch) != (w, h, want.0) {
        return;
    }
    // floats by their bits, but all NaNs are one
    let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan());
    if let Some(n) = got.px.iter().zip(&want.2).position(|(a, b)| !same(*a, *b)) {
        let (x, y) = (n / got.ch % w as usize, n / got.ch / w as usize);
        c.fail_blob(&format!("{sig}: pixels"), format!("{what}: channel {} of {x},{y} is {} instead of {}", n % got.ch, got.px[n], want.2[n]), Some(file));
    }
    c.count("pixels compared", w as u64 * h as u64);
}
fn notes(c: &mut Case, fmt: ImageFormat, what: &str, got: &Img, file: &[u8]) {
    for n in &got.notes {
        c.count(n, 1);
        if let Some(s) = note_sig(fmt, n) {
            c.fail_blob(&s, what.to_string(), Some(file));
        }
    }
}
/// The reader's verdict.
fn read(c: &mut Case, sig: &str, what: &str, fmt: ImageFormat, file: &[u8]) -> Option<Img> {
    match catch(|| readers::read(fmt, file)) {
        Ok(Ok(i)) => {
            c.count("files accepted by the independent reader", 1);
            notes(c, fmt, what, &i, file);
            Some(i)
        }
        Ok(Err(e)) => {
            c.fail_blob(&format!("{sig}: not valid"), format!("{what}: {e}"), Some(file));
            None
        }
        Err(p) => {
            c.fail_blob(&format!("{sig}: reader fails"), format!("{what}: {p}"), Some(file));
            None
        }
    }
}
fn encoded(c: &mut Case, sig: &str, what: &str, f: impl FnOnce() -> ImageResult<Vec<u8>>) -> Option<Vec<u8>> {
    match catch(f) {
        Err(p) => c.fail(&format!("{sig}: encoding panics"), format!("{what}: {p}")),
        Ok(Err(e)) => c.fail(&format!("{sig}: not encoded {}", kind(&e)), format!("{what}: {e}")),
        Ok(Ok(f)) => {
            c.count("bytes checked", f.len() as u64);
            return Some(f);
        }
    }
    None
}

fn lossless(c: &mut Case, v: &Variant) {
    let mut r = c.rng.clone();
    let colors: Vec<ColorType> = gen::COLORS.iter().copied().filter(|c| accepts(v, *c)).collect();
    let color = *r.pick(&colors);
    let big = r.chance(1, 60);
    let (mut w, mut h) = size(&mut r, if big { 300 } else if v.name.contains("best") { 40 } else { 70 });
    let max = match v.fmt {
        ImageFormat::Ico => 256,
        ImageFormat::WebP => 16383,
        ImageFormat::Tga => 65535,
        _ => u32::MAX,
    };
    (w, h) = (w.min(max), h.min(max));
    let mut img = gen::dynamic(&mut r, color, w, h);
    let bitmap = v.name.contains("pbm");
    if bitmap {
        let DynamicImage::ImageLuma8(b) = &mut img else { unreachable!() };
        b.iter_mut().for_each(|s| *s >>= 7);
    }
    let buf = img.as_bytes();
    let icc = (v.icc && r.chance(1, 3)).then(|| {
        let n = r.range(1, 3000) as usize;
        r.bytes(n)
    });
    let what = format!("{} {color:?} {w}x{h}{}", v.name, if let Some(p) = &icc { format!(" with a profile of {}", p.len()) } else { String::new() });
    let sig = format!("{} {color:?}", v.name);
    c.at(&what);
    c.evals_str(&sig);
    c.eval(hash_bytes(buf));
    let Some(file) = encoded(c, &sig, &what, || {
        let mut o = Cursor::new(vec![]);
        (v.run)(&mut o, buf, w, h, color.into(), icc.clone())?;
        Ok(o.into_inner())
    }) else {
        return;
    };
    let Some(got) = read(c, &sig, &what, v.fmt, &file) else { return };
    let mut want = meaning(v.fmt, color, buf);
    if bitmap {
        want.1 = 1;
    }
    compare(c, &sig, &what, &got, w, h, &want, &file);
    if v.icc {
        check!(c, got.icc == icc, format!("{sig}: profile"), "{what}: {:?}", got.icc.as_ref().map(|p| p.len()));
        c.count("profiles found in files", icc.is_some() as u64);
    }
    c.sample(|| format!("{what} -> {} bytes, {:?}", file.len(), got.notes));
}

fn pnm_header(c: &mut Case) {
    let mut r = c.rng.clone();
    let (w, h) = (r.size(40), r.size(40));
    let maxval = *r.pick(&[1u32, 2, 3, 15, 100, 254, 255, 256, 257, 1000, 4095, 65534, 65535]);
    let encoding = if r.bool() { SampleEncoding::Ascii } else { SampleEncoding::Binary };
    let (header, ch, name) = match r.below(4) {
        0 => (PnmHeader::from(BitmapHeader { encoding, width: w, height: h }), 1, "bitmap"),
        1 => (PnmHeader::from(GraymapHeader { encoding, width: w, height: h, maxwhite: maxval }), 1, "graymap"),
        2 => (PnmHeader::from(PixmapHeader { encoding, width: w, height: h, maxval }), 3, "pixmap"),
        _ => {
            let ch = r.range(1, 4) as u32;
            let t = match ch {
                1 => ArbitraryTuplType::Grayscale,
                2 => ArbitraryTuplType::GrayscaleAlpha,
                3 => ArbitraryTuplType::RGB,
                _ => ArbitraryTuplType::RGBAlpha,
            };
            (PnmHeader::from(ArbitraryHeader { width: w, height: h, depth: ch, maxval, tupltype: Some(t) }), ch, "arbitrary")
        }
    };
    let max = if name == "bitmap" { 1 } else { maxval };
    let n = (w * h * ch) as usize;
    let flat = r.chance(1, 3);
    let px: Vec<u16> = (0..n).map(|i| if flat { [0, max as u16][(i / 5) % 2] } else { r.below(max as u64 + 1) as u16 }).collect();
    let wide = max > 255 || r.bool();
    let bytes: Vec<u8> = px.iter().map(|s| *s as u8).collect();
    let color = match ch {
        1 if wide && r.bool() => ExtendedColorType::L16,
        1 => ExtendedColorType::L8,
        2 => ExtendedColorType::La8,
        3 => ExtendedColorType::Rgb8,
        _ => ExtendedColorType::Rgba8,
    };
    let what = format!("pnm {name} of {ch} channels, maxval {max}, {w}x{h} {encoding:?}, {} samples", if wide { "u16" } else { "u8" });
    let sig = format!("pnm header {name}");
    c.at(&what);
    c.evals_str(&format!("{name} {max} {encoding:?} {wide} {ch}"));
    c.eval(hash_bytes(&bytes));
    let Some(file) = encoded(c, &sig, &what, || {
        let mut o = vec![];
        let mut e = k::pnm::PnmEncoder::new(&mut o).with_header(header);
        if wide {
            e.encode(&px[..], w, h, color)?;
        } else {
            e.encode(&bytes[..], w, h, color)?;
        }
        Ok(o)
    }) else {
        return;
    };
    let Some(got) = read(c, &sig, &what, ImageFormat::Pnm, &file) else { return };
    compare(c, &sig, &what, &got, w, h, &(ch as usize, max, px.iter().map(|v| *v as f64).collect()), &file);
}

fn bmp_palette(c: &mut Case) {
    let mut r = c.rng.clone();
    let (mut w, mut h) = size(&mut r, 60);
    (w, h) = (w.min(65535), h.min(65535));
    let n = *r.pick(&[1usize, 2, 3, 15, 16, 17, 200, 255, 256]);
    let pal: Vec<[u8; 3]> = (0..n).map(|_| [r.u8(), r.u8(), r.u8()]).collect();
    let img: Vec<u8> = (0..w * h).map(|_| r.below(n as u64) as u8).collect();
    let what = format!("bmp palette of {n} {w}x{h}");
    c.at(&what);
    c.eval(hash_bytes(&img));
    c.evals_str(&format!("palette {n}"));
    let Some(file) = encoded(c, "bmp palette", &what, || {
        let mut o = vec![];
        k::bmp::BmpEncoder::new(&mut o).encode_with_palette(&img, w, h, ExtendedColorType::L8, Some(&pal))?;
        Ok(o)
    }) else {
        return;
    };
    let Some(got) = read(c, "bmp palette", &what, ImageFormat::Bmp, &file) else { return };
    let want = img.iter().flat_map(|p| pal[*p as usize]).map(|v| v as f64).collect();
    compare(c, "bmp palette", &what, &got, w, h, &(3, 255, want), &file);
}

fn icons(c: &mut Case) {
    let mut r = c.rng.clone();
    let n = r.range(1, 6);
    let mut imgs = vec![];
    for _ in 0..n {
        let (w, h) = if r.chance(1, 4) { (r.r32(1, 256), r.r32(1, 256)) } else { (r.size(40), r.size(40)) };
        let color = *r.pick(&[ColorType::Rgba8, ColorType::Rgba8, ColorType::Rgb8, ColorType::L8, ColorType::La8, ColorType::Rgba16]);
        imgs.push((w, h, color, gen::dynamic(&mut r, color, w, h)));
    }
    let what = format!("ico of {:?}", imgs.iter().map(|i| (i.0, i.1, i.2)).collect::<Vec<_>>());
    c.at(&what);
    c.evals_str(&format!("{n} images"));
    c.eval(hash_bytes(imgs[0].3.as_bytes()));
    let Some(file) = encoded(c, "ico images", &what, || {
        let mut frames = vec![];
        for (w, h, color, i) in &imgs {
            frames.push(k::ico::IcoFrame::as_png(i.as_bytes(), *w, *h, (*color).into())?);
        }
        let mut o = vec![];
        k::ico::IcoEncoder::new(&mut o).encode_images(&frames)?;
        Ok(o)
    }) else {
        return;
    };
    match readers::simple::icos(&file) {
        Err(e) => c.fail_blob("ico images: not valid", format!("{what}: {e}"), Some(&file)),
        Ok(v) => {
            check!(c, v.len() == imgs.len(), "ico images: number", "{what}: {}", v.len());
            for (g, (w, h, color, i)) in v.iter().zip(&imgs) {
                compare(c, "ico images", &what, g, *w, *h, &meaning(ImageFormat::Ico, *color, i.as_bytes()), &file);
            }
        }
    }
}

/// Few enough colours for GIF to keep all of them.
fn few(r: &mut Rng, w: u32, h: u32, transparent: bool) -> image::RgbaImage {
    let n = *r.pick(&[1usize, 2, 3, 4, 7, 16, 17, 100, 255, 256]);
    let mut pal: Vec<[u8; 4]> = vec![];
    while pal.len() < n {
        let p = [r.u8(), r.u8(), r.u8(), 255];
        if !pal.contains(&p) {
            pal.push(p);
        }
    }
    if transparent {
        pal[0] = [0; 4];
    }
    let style = r.below(3);
    image::RgbaImage::from_fn(w, h, |x, y| {
        image::Rgba(match style {
            0 => *r.pick(&pal),
            1 => pal[(x / 3 + y / 2) as usize % n],
            _ => pal[(y * w + x) as usize % n],
        })
    })
}
fn gif(c: &mut Case) {
    let mut r = c.rng.clone();
    let (w, h) = size(&mut r, 60);
    let (w, h) = (w.min(65535), h.min(65535));
    let n = if w * h > 4000 { 1 } else { r.range(1, 6) as usize };
    let mut frames = vec![];
    let mut want = vec![];
    // the screen is as large as the first frame, later ones lie inside
    for i in 0..n {
        let (fw, fh, l, t) = if i == 0 || r.bool() {
            (w, h, 0, 0)
        } else {
            let (fw, fh) = (r.r32(1, w), r.r32(1, h));
            (fw, fh, r.r32(0, w - fw), r.r32(0, h - fh))
        };
        let transparent = r.bool();
        let img = few(&mut r, fw, fh, transparent);
        let cs = match r.below(4) {
            0 => r.below(3),
            1 => 65535,
            _ => r.below(65536),
        } as u32;
        want.push((fw, fh, l, t, cs, img.clone()));
        frames.push(Frame::from_parts(img, l, t, Delay::from_numer_denom_ms(cs * 10, 1)));
    }
    let repeat = r.below(4);
    let count = r.u16();
    let way = r.below(4);
    let what = format!("gif of {n} frames, screen {w}x{h}, way {way}, repeat {repeat}");
    c.at(&what);
    c.evals_str(&format!("gif {n} {way} {repeat}"));
    c.eval(hash_bytes(&want[0].5));
    let speed = r.r32(1, 30) as i32;
    let Some(file) = encoded(c, "gif", &what, || {
        let mut o = vec![];
        {
            let mut e = k::gif::GifEncoder::new_with_speed(&mut o, speed);
            match repeat {
                0 => e.set_repeat(k::gif::Repeat::Infinite)?,
                1 => e.set_repeat(k::gif::Repeat::Finite(count))?,
                _ => {}
            }
            match way {
                0 => e.encode_frames(frames.clone())?,
                1 => e.try_encode_frames(frames.iter().cloned().map(Ok))?,
                2 if n == 1 => e.encode(&want[0].5, w, h, ExtendedColorType::Rgba8)?,
                _ => frames.iter().cloned().try_for_each(|f| e.encode_frame(f))?,
            }
        }
        Ok(o)
    }) else {
        return;
    };
    let g = match readers::gif::parse(&file) {
        Ok(g) => g,
        Err(e) => return c.fail_blob("gif: not valid", format!("{what}: {e}"), Some(&file)),
    };
    c.count("files accepted by the independent reader", 1);
    check!(c, (g.w as u32, g.h as u32) == (w, h), "gif: screen", "{what}: {}x{}", g.w, g.h);
    check!(c, g.frames.len() == n, "gif: number of frames", "{what}: {}", g.frames.len());
    let rep = match repeat {
        0 => Some(0),
        1 => Some(count),
        _ => None,
    };
    // repeating zero times is not repeating
    let ok = g.repeat == rep || (rep == Some(0) && repeat == 1);
    check!(c, ok, "gif: repetitions", "{what}: {:?}, set {rep:?}", g.repeat);
    for (i, (f, (fw, fh, l, t, cs, img))) in g.frames.iter().zip(&want).enumerate() {
        check!(c, (f.w as u32, f.h as u32, f.left as u32, f.top as u32) == (*fw, *fh, *l, *t), "gif: place of a frame", "{what}: frame {i} {}x{} at {},{}, expected {:?}", f.w, f.h, f.left, f.top, (fw, fh, l, t));
        if !(way == 2 && n == 1) {
            check!(c, f.delay as u32 == *cs, "gif: delay", "{what}: frame {i}: {}, expected {cs}", f.delay);
        }
        let px: Vec<[u8; 4]> = img.pixels().map(|p| if p.0[3] == 0 { [0; 4] } else { p.0 }).collect();
        check!(c, f.rgba == px, "gif: pixels", "{what}: frame {i}, {} colours", f.colors);
        c.count("gif frames compared", 1);
        c.count("pixels compared", px.len() as u64);
    }
}

/// Radiance: each sample within one step of the exponent its pixel needs.
fn hdr(c: &mut Case) {
    let mut r = c.rng.clone();
    let (mut w, mut h) = size(&mut r, 70);
    if w > 40000 || h > 40000 {
        (w, h) = (w.min(40000), h.min(40000));
    }
    let style = r.below(5);
    let run = r.range(1, 300) as usize;
    let mut last = [0f32; 3];
    let px: Vec<f32> = (0..(w * h) as usize)
        .flat_map(|i| {
            if style == 3 && i % run != 0 {
                return last;
            }
            let e = match style {
                0 => 1.0,
                1 => 2f32.powi(r.irange(-100, 100) as i32),
                2 => 2f32.powi(r.irange(-4, 4) as i32),
                _ => 16.0,
            };
            last = [r.f32() * e, r.f32() * e, if r.chance(1, 10) { 0.0 } else { r.f32() * e }];
            if style == 4 {
                // values at the edge of an exponent, and their neighbours
                let b = 2f32.powi(r.irange(-20, 20) as i32);
                last[r.below(3) as usize] = f32::from_bits((b.to_bits() as i64 + r.irange(-2, 2)) as u32);
            }
            last
        })
        .collect();
    let what = format!("hdr {w}x{h} style {style}");
    c.at(&what);
    c.evals_str(&format!("hdr style {style}"));
    let bytes: &[u8] = bytemuck_cast(&px);
    c.eval(hash_bytes(bytes));
    let rgb: Vec<image::Rgb<f32>> = px.chunks_exact(3).map(|p| image::Rgb([p[0], p[1], p[2]])).collect();
    let typed = r.bool();
    let Some(file) = encoded(c, "hdr", &what, || {
        let mut o = vec![];
        let e = k::hdr::HdrEncoder::new(&mut o);
        if typed {
            e.encode(&rgb, w as usize, h as usize)?;
        } else {
            image::ImageEncoder::write_image(e, bytes, w, h, ExtendedColorType::Rgb32F)?;
        }
        Ok(o)
    }) else {
        return;
    };
    let Some(got) = read(c, "hdr", &what, ImageFormat::Hdr, &file) else { return };
    check!(c, (got.w, got.h) == (w, h), "hdr: dimensions", "{what}: {}x{}", got.w, got.h);
    if (got.w, got.h) != (w, h) {
        return;
    }
    for (i, (g, p)) in got.px.chunks_exact(3).zip(px.chunks_exact(3)).enumerate() {
        let m = p.iter().cloned().fold(0f32, f32::max) as f64;
        // m lies in [2^(e-1), 2^e)
        let e = if m > 0.0 { m.log2().floor() as i32 + 1 } else { 0 };
        let step = 2f64.powi(e - 8) * 1.01;
        for k in 0..3 {
            if m == 0.0 && g[k] != 0.0 || m > 0.0 && (g[k] - p[k] as f64).abs() > step {
                return c.fail_blob("hdr: pixels", format!("{what}: pixel {i} {p:?} became {g:?}, a step is {step}"), Some(&file));
            }
        }
    }
    c.count("pixels compared", (w * h) as u64);
}
fn bytemuck_cast(v: &[f32]) -> &[u8] {
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, v.len() * 4) }
}

/// JPEG: every coefficient within half a step of the exact transform.
fn jpeg(c: &mut Case) {
    let mut r = c.rng.clone();
    let (mut w, mut h) = if r.bool() { (r.r32(8, 90), r.r32(8, 90)) } else { size(&mut r, 60) };
    (w, h) = (w.min(20000), h.min(20000));
    let gray = r.chance(1, 3);
    let color = if gray { ColorType::L8 } else { ColorType::Rgb8 };
    let ch = if gray { 1 } else { 3 };
    let img = if r.chance(1, 4) { lossy::smooth(&mut r, w, h, ch) } else { gen::dynamic(&mut r, color, w, h).into_bytes() };
    let q = match r.below(4) {
        0 => *r.pick(&[1u8, 2, 49, 50, 51, 99, 100]),
        _ => r.r32(1, 100) as u8,
    };
    let icc = r.chance(1, 4).then(|| {
        let n = r.range(1, if r.clone().chance(1, 20) { 200_000 } else { 3000 }) as usize;
        r.bytes(n)
    });
    let density = r.chance(1, 3).then(|| (r.u16().max(1), r.u16().max(1)));
    let way = r.below(3);
    let what = format!("jpeg {color:?} {w}x{h} quality {q} way {way}{}", if icc.is_some() { " with a profile" } else { "" });
    c.at(&what);
    c.evals_str(&format!("jpeg {q} {gray}"));
    c.eval(hash_bytes(&img));
    let Some(file) = encoded(c, "jpeg", &what, || {
        let mut o = vec![];
        let mut e = k::jpeg::JpegEncoder::new_with_quality(&mut o, q);
        if let Some(d) = density {
            e.set_pixel_density(k::jpeg::PixelDensity { density: d, unit: k::jpeg::PixelDensityUnit::Inches });
        }
        if let Some(p) = &icc {
            image::ImageEncoder::set_icc_profile(&mut e, p.clone()).map_err(image::ImageError::Unsupported)?;
        }
        match way {
            0 => e.encode(&img, w, h, color.into())?,
            1 => image::ImageEncoder::write_image(e, &img, w, h, color.into())?,
            _ if gray => e.encode_image(&image::GrayImage::from_raw(w, h, img.clone()).unwrap())?,
            _ => e.encode_image(&image::RgbImage::from_raw(w, h, img.clone()).unwrap())?,
        }
        Ok(o)
    }) else {
        return;
    };
    let j = match catch(|| readers::jpeg::parse(&file)) {
        Ok(Ok(j)) => j,
        Ok(Err(e)) => return c.fail_blob("jpeg: not valid", format!("{what}: {e}"), Some(&file)),
        Err(p) => return c.fail_blob("jpeg: reader fails", format!("{what}: {p}"), Some(&file)),
    };
    c.count("files accepted by the independent reader", 1);
    check!(c, (j.img.w, j.img.h, j.img.ch) == (w, h, ch), "jpeg: shape", "{what}: {}x{} of {}", j.img.w, j.img.h, j.img.ch);
    check!(c, j.img.icc == icc, "jpeg: profile", "{what}");
    if let Some(d) = density {
        // the fields of APP0
        let f = (file[13], u16::from_be_bytes([file[14], file[15]]), u16::from_be_bytes([file[16], file[17]]));
        check!(c, f == (1, d.0, d.1), "jpeg: density", "{what}: {f:?} instead of {d:?}");
    }
    if (j.img.w, j.img.h, j.img.ch) != (w, h, ch) {
        return;
    }
    let px: Vec<f64> = img.iter().map(|v| *v as f64).collect();
    match lossy::jpeg_bound(&j, ch, &px) {
        Ok(s) => {
            c.count("jpeg blocks held against the exact transform", s.blocks);
            c.count("jpeg edge blocks", s.edge_blocks);
            c.peak("largest jpeg coefficient excess, thousandths", (s.excess * 1000.0) as u64);
        }
        Err(e) => c.fail_blob("jpeg: coefficients", format!("{what}: {e}"), Some(&file)),
    }
    c.count("pixels compared", (w * h) as u64);
}

/// AVIF, as libheif sees it.
fn avif(c: &mut Case) {
    let mut r = c.rng.clone();
    let (w, h) = (r.size(70), r.size(70));
    let color = *r.pick(&[ColorType::L8, ColorType::La8, ColorType::Rgb8, ColorType::Rgba8, ColorType::L16, ColorType::La16, ColorType::Rgb16, ColorType::Rgba16]);
    let ch = color.channel_count() as usize;
    let wide = color.bytes_per_pixel() as usize / ch == 2;
    let mut s = lossy::smooth(&mut r, w, h, ch);
    if color.has_alpha() {
        // colours below full transparency are not kept
        s.iter_mut().skip(ch - 1).step_by(ch).for_each(|v| *v = *v / 2 + 128);
    }
    let bytes: Vec<u8> = if wide { s.iter().flat_map(|v| (*v as u16 * 257).to_ne_bytes()).collect() } else { s.clone() };
    let bt709 = r.bool();
    let what = format!("avif {color:?} {w}x{h} bt709 {bt709}");
    c.at(&what);
    c.evals_str(&format!("avif {color:?} {bt709}"));
    c.eval(hash_bytes(&bytes));
    let Some(file) = encoded(c, "avif", &what, || {
        let mut o = vec![];
        let mut e = k::avif::AvifEncoder::new_with_speed_quality(&mut o, 10, 95).with_num_threads(Some(1));
        if bt709 {
            e = e.with_colorspace(k::avif::ColorSpace::Bt709);
        }
        image::ImageEncoder::write_image(e, &bytes, w, h, color.into())?;
        Ok(o)
    }) else {
        return;
    };
    let got = match readers::avif::read(&file) {
        Ok(g) => g,
        Err(e) => return c.fail_blob("avif: not valid", format!("{what}: {e}"), Some(&file)),
    };
    c.count("files accepted by the independent reader", 1);
    notes(c, ImageFormat::Avif, &what, &got, &file);
    check!(c, (got.w, got.h) == (w, h), "avif: dimensions", "{what}: {}x{}", got.w, got.h);
    let opaque = !color.has_alpha() || s.iter().skip(ch - 1).step_by(ch).all(|v| *v == 255);
    check!(c, opaque == (got.ch == 3), "avif: alpha", "{what}: {} channels", got.ch);
    if (got.w, got.h) != (w, h) {
        return;
    }
    let want: Vec<f64> = s
        .chunks_exact(ch)
        .flat_map(|p| {
            let mut v = if ch < 3 { vec![p[0]; 3] } else { p[..3].to_vec() };
            if got.ch == 4 {
                v.push(if ch % 2 == 0 { p[ch - 1] } else { 255 });
            }
            v
        })
        .map(|v| v as f64)
        .collect();
    let (m, a) = lossy::diff(&got.px, &want);
    c.peak("largest avif difference", m as u64);
    c.peak("largest mean avif difference, hundredths", (a * 100.0) as u64);
    check!(c, m <= 24.0 && a <= 4.0, "avif: pixels", "{what}: differs by {m}, {a:.2} on average");
    c.count("pixels compared", (w * h) as u64);
}

pub fn run(ctx: &Ctx) {
    ctx.rule("every file produced by every encoder and option is parsed completely by a reader written here from the format's specification (checksums, sizes, offsets, padding, terminators, nothing left over), and its pixels, profile, palette, frames, delays and positions are compared with what was encoded");
    ctx.assume("VP8L data is decoded by libwebp and AV1 data by libheif, both dlopened; their containers are read here. JPEG coefficients are held within half a quantisation step (+2 for gray, +6.5 for colours) of the exact transform");
    let vs = vh::enc::variants();
    for v in vs.iter().filter(|v| v.lossless) {
        let (q, t) = match v.fmt {
            ImageFormat::Png => (200, 6_000),
            ImageFormat::OpenExr => (400, 8_000),
            ImageFormat::Ico => (500, 8_000),
            ImageFormat::Pnm => (600, 15_000),
            ImageFormat::Tiff => (800, 20_000),
            _ => (1200, 30_000),
        };
        ctx.section(&v.name, q, t, |c| lossless(c, v));
    }
    ctx.section("pnm headers", 2000, 60_000, pnm_header);
    ctx.section("bmp palette", 1500, 40_000, bmp_palette);
    ctx.section("ico images", 600, 15_000, icons);
    ctx.section("gif", 1500, 30_000, gif);
    ctx.section("hdr", 2000, 60_000, hdr);
    ctx.section("jpeg lossy", 3000, 80_000, jpeg);
    if readers::avif::available() {
        ctx.section("avif lossy", 120, 1500, avif);
    }
    ctx.require("pixels compared", 1_000_000);
    ctx.require("files accepted by the independent reader", 10_000);
    ctx.require("jpeg blocks held against the exact transform", 10_000);
}
