//! C02: lossless encoders and decoders round-trip every image exactly.
use image::codecs as k;
use image::codecs::pnm::{ArbitraryHeader, ArbitraryTuplType, BitmapHeader, GraymapHeader, PixmapHeader, PnmHeader, SampleEncoding};
use image::{ColorType, Delay, DynamicImage, ExtendedColorType, Frame, ImageDecoder, ImageFormat, ImageReader, ImageResult};
use std::io::Cursor;
use vh::dec::{self, kind, Decoded};
use vh::enc::{accepts, expected, Variant};
use vh::{catch, check, gen, hash_bytes, Case, Ctx, Rng};

vh::property_main!("C02");

fn size(r: &mut Rng, max: u32) -> (u32, u32) {
    match r.below(20) {
        0 => r.long(1).unwrap(),
        1 => (r.r32(1, 4), r.r32(1, 600)),
        2 => (r.r32(1, 600), r.r32(1, 4)),
        _ => (r.size(max), r.size(max)),
    }
}
/// float images also hold what is not a colour
fn special_floats(r: &mut Rng, i: &mut DynamicImage) {
    let fx = |r: &mut Rng, s: &mut [f32]| {
        for v in s {
            match r.below(24) {
                0 => *v = f32::INFINITY,
                1 => *v = -0.0,
                2 => *v = f32::from_bits(r.u32() & 0x007f_ffff),
                3 => *v = -1e30,
                4 => *v = f32::MAX,
                5 => *v = f32::from_bits(r.u32() & !0x0040_0000 | 0x3000_0000),
                6 => *v = f32::NAN,
                _ => {}
            }
        }
    };
    match i {
        DynamicImage::ImageRgb32F(b) => fx(r, b),
        DynamicImage::ImageRgba32F(b) => fx(r, b),
        _ => {}
    }
}
fn picture(r: &mut Rng, color: ColorType, w: u32, h: u32) -> DynamicImage {
    let mut i = gen::dynamic(r, color, w, h);
    if r.chance(1, 4) {
        special_floats(r, &mut i);
    }
    i
}
/// no magic bytes
fn guessable(f: ImageFormat) -> bool {
    f != ImageFormat::Tga
}
const DEC_WAYS: u64 = 7;
fn decode(fmt: ImageFormat, way: u64, b: &[u8]) -> ImageResult<Decoded> {
    let dy = |d: ImageResult<DynamicImage>| d.map(|d| dec::of_dynamic(&d));
    match way {
        1 => dec::read(dec::boxed(fmt, b)?).map(Option::unwrap),
        2 => dy(image::load_from_memory_with_format(b, fmt)),
        3 if guessable(fmt) => dy(image::load_from_memory(b)),
        4 => dy(ImageReader::with_format(Cursor::new(b), fmt).decode()),
        5 if guessable(fmt) => dy(ImageReader::new(Cursor::new(b)).with_guessed_format()?.decode()),
        6 => dy(DynamicImage::from_decoder(dec::boxed(fmt, b)?)),
        _ => dec::decode(fmt, b).map(Option::unwrap),
    }
}
fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{b:02x}")).collect()
}
/// Compare a decoded image with what was encoded.
fn judge(c: &mut Case, sig: &str, what: &str, got: Result<ImageResult<Decoded>, vh::PanicInfo>, want: (u32, u32, ColorType, &[u8]), file: &[u8]) {
    match got {
        Err(p) => c.fail_blob(&format!("{sig}: decoding panics"), format!("{what}: {p}"), Some(file)),
        Ok(Err(e)) => c.fail_blob(&format!("{sig}: own file refused {}", kind(&e)), format!("{what}: {e}"), Some(file)),
        Ok(Ok(d)) => {
            check!(c, (d.w, d.h) == (want.0, want.1), format!("{sig}: dimensions"), "{what}: {}x{}", d.w, d.h);
            check!(c, d.color == want.2, format!("{sig}: colour type"), "{what}: {:?} instead of {:?}", d.color, want.2);
            if (d.w, d.h, d.color) == (want.0, want.1, want.2) && d.px != want.3 {
                let bpp = d.color.bytes_per_pixel() as usize;
                let n = d.px.chunks(bpp).zip(want.3.chunks(bpp)).position(|(a, b)| a != b).unwrap();
                c.fail_blob(
                    &format!("{sig}: pixels"),
                    format!(
                        "{what}: pixel {},{} is {} instead of {}",
                        n as u32 % d.w,
                        n as u32 / d.w,
                        hex(&d.px[n * bpp..(n + 1) * bpp]),
                        hex(&want.3[n * bpp..(n + 1) * bpp])
                    ),
                    Some(file),
                );
            }
            c.count("pixels compared", want.0 as u64 * want.1 as u64);
        }
    }
}

/// The cases of recorded findings get names of their own.
fn known(f: ImageFormat, c: ColorType, side: u32) -> Option<&'static str> {
    match f {
        ImageFormat::Bmp if side > 65535 => Some("bmp side above 65535"),
        ImageFormat::WebP if side == 16384 => Some("webp side of 16384"),
        ImageFormat::Pnm if c.has_alpha() => Some("pam with alpha"),
        ImageFormat::Ico if c != ColorType::Rgba8 => Some("ico of other than Rgba8"),
        _ => None,
    }
}
/// Every encoder object with every option.
fn encoder(c: &mut Case, v: &Variant) {
    let mut r = c.rng.clone();
    let colors: Vec<ColorType> = gen::COLORS.iter().copied().filter(|c| accepts(v, *c)).collect();
    let color = *r.pick(&colors);
    let (mut w, mut h) = size(&mut r, if v.name.contains("best") { 40 } else { 70 });
    let max = match v.fmt {
        ImageFormat::Ico => 256,
        ImageFormat::WebP => 16384,
        ImageFormat::Tga => 65535,
        _ => u32::MAX,
    };
    (w, h) = (w.min(max), h.min(max));
    let mut img = picture(&mut r, color, w, h);
    let bitmap = v.name.contains("pbm");
    if bitmap {
        // bitmaps only take the two samples
        let DynamicImage::ImageLuma8(b) = &mut img else { unreachable!() };
        b.iter_mut().for_each(|s| *s >>= 7);
    }
    let buf = img.as_bytes();
    // the encoders that take bytes must not care about their alignment
    let mut shifted = vec![0u8; buf.len() + 1];
    shifted[1..].copy_from_slice(buf);
    let odd = r.bool();
    let src = if odd { &shifted[1..] } else { buf };
    let what = format!("{} {color:?} {w}x{h}{}", v.name, if odd { " (odd address)" } else { "" });
    c.at(&what);
    c.evals_str(&format!("{} {color:?}", v.name));
    c.eval(hash_bytes(buf));
    let sig = format!("{} {color:?}", v.name);
    let file = match catch(|| v.encode(src, w, h, color.into())) {
        Err(p) => return c.fail(&format!("{sig}: encoding panics"), format!("{what}: {p}")),
        Ok(Err(e)) => return c.fail(&format!("{sig}: not encoded {}", kind(&e)), format!("{what}: {e}")),
        Ok(Ok(f)) => f,
    };
    let (ec, mut epx) = expected(v.fmt, color, buf);
    if bitmap {
        epx.iter_mut().for_each(|s| *s *= 255);
    }
    let way = r.below(DEC_WAYS);
    let sig = known(v.fmt, color, w.max(h)).map(str::to_string).unwrap_or(sig);
    judge(c, &sig, &what, catch(|| decode(v.fmt, way, &file)), (w, h, ec, &epx), &file);
    c.sample(|| format!("{what} -> {} bytes, way {way}", file.len()));
}

const PLAIN: &[ImageFormat] = &[
    ImageFormat::Png,
    ImageFormat::Bmp,
    ImageFormat::Tiff,
    ImageFormat::Tga,
    ImageFormat::Pnm,
    ImageFormat::Farbfeld,
    ImageFormat::Qoi,
    ImageFormat::WebP,
    ImageFormat::Ico,
    ImageFormat::OpenExr,
];
fn with_typed(i: &DynamicImage, fmt: ImageFormat) -> ImageResult<Vec<u8>> {
    let mut o = Cursor::new(vec![]);
    macro_rules! go {
        ($($p:path),*) => { match i { $($p(b) => b.write_to(&mut o, fmt)?,)* _ => unreachable!() } };
    }
    use DynamicImage::*;
    go!(ImageLuma8, ImageLumaA8, ImageRgb8, ImageRgba8, ImageLuma16, ImageLumaA16, ImageRgb16, ImageRgba16, ImageRgb32F, ImageRgba32F);
    Ok(o.into_inner())
}
fn with_encoder(i: &DynamicImage, fmt: ImageFormat) -> ImageResult<Vec<u8>> {
    let mut o = Cursor::new(vec![]);
    use ImageFormat::*;
    match fmt {
        Png => i.write_with_encoder(k::png::PngEncoder::new(&mut o)),
        Bmp => i.write_with_encoder(k::bmp::BmpEncoder::new(&mut o)),
        Tiff => i.write_with_encoder(k::tiff::TiffEncoder::new(&mut o)),
        Tga => i.write_with_encoder(k::tga::TgaEncoder::new(&mut o)),
        Pnm => i.write_with_encoder(k::pnm::PnmEncoder::new(&mut o)),
        Farbfeld => i.write_with_encoder(k::farbfeld::FarbfeldEncoder::new(&mut o)),
        Qoi => i.write_with_encoder(k::qoi::QoiEncoder::new(&mut o)),
        WebP => i.write_with_encoder(k::webp::WebPEncoder::new_lossless(&mut o)),
        Ico => i.write_with_encoder(k::ico::IcoEncoder::new(&mut o)),
        OpenExr => i.write_with_encoder(k::openexr::OpenExrEncoder::new(&mut o)),
        f => panic!("{f:?}"),
    }?;
    Ok(o.into_inner())
}
/// Every public function that encodes.
fn entry(c: &mut Case, variants: &[Variant]) {
    let mut r = c.rng.clone();
    let fmt = *r.pick(PLAIN);
    let v = variants.iter().find(|v| v.fmt == fmt).unwrap();
    let colors: Vec<ColorType> = gen::COLORS.iter().copied().filter(|c| accepts(v, *c)).collect();
    let color = *r.pick(&colors);
    let (w, h) = (r.size(60), r.size(60));
    let img = picture(&mut r, color, w, h);
    let way = r.below(5);
    let name = ["write_to", "typed write_to", "write_with_encoder", "write_buffer_with_format", "encoder"][way as usize];
    let what = format!("{fmt:?} {color:?} {w}x{h} by {name}");
    c.at(&what);
    c.evals_str(&format!("{fmt:?} {color:?} {name}"));
    c.eval(hash_bytes(img.as_bytes()));
    let sig = known(fmt, color, w.max(h)).map(str::to_string).unwrap_or(format!("{fmt:?} {color:?}"));
    let file = match catch(|| match way {
        0 => {
            let mut o = Cursor::new(vec![]);
            img.write_to(&mut o, fmt).map(|_| o.into_inner())
        }
        1 => with_typed(&img, fmt),
        2 => with_encoder(&img, fmt),
        3 => {
            let mut o = Cursor::new(vec![]);
            image::write_buffer_with_format(&mut o, img.as_bytes(), w, h, color, fmt).map(|_| o.into_inner())
        }
        _ => v.encode(img.as_bytes(), w, h, color.into()),
    }) {
        Err(p) => return c.fail(&format!("{sig}: {name} panics"), format!("{what}: {p}")),
        Ok(Err(e)) => return c.fail(&format!("{sig}: {name} refuses {}", kind(&e)), format!("{what}: {e}")),
        Ok(Ok(f)) => f,
    };
    let (ec, epx) = expected(fmt, color, img.as_bytes());
    let dway = r.below(DEC_WAYS);
    judge(c, &sig, &what, catch(|| decode(fmt, dway, &file)), (w, h, ec, &epx), &file);
}

/// PNM files with a header of the caller's choice, 8 and 16 bit samples.
fn pnm_header(c: &mut Case) {
    let mut r = c.rng.clone();
    let (w, h) = (r.size(40), r.size(40));
    let wide = r.bool();
    let maxval = if wide { *r.pick(&[256u32, 257, 1000, 4095, 65534, 65535, 65535]) } else { *r.pick(&[1u32, 2, 3, 15, 100, 254, 255, 255]) };
    let encoding = if r.bool() { SampleEncoding::Ascii } else { SampleEncoding::Binary };
    let which = r.below(4);
    let (header, chans, name) = match which {
        0 => (PnmHeader::from(BitmapHeader { encoding, width: w, height: h }), 1, "bitmap"),
        1 => (PnmHeader::from(GraymapHeader { encoding, width: w, height: h, maxwhite: maxval }), 1, "graymap"),
        2 => (PnmHeader::from(PixmapHeader { encoding, width: w, height: h, maxval }), 3, "pixmap"),
        _ => {
            let rgb = r.bool();
            let t = match r.below(3) {
                0 => None,
                _ if rgb => Some(ArbitraryTuplType::RGB),
                _ => Some(ArbitraryTuplType::Grayscale),
            };
            (PnmHeader::from(ArbitraryHeader { width: w, height: h, depth: if rgb { 3 } else { 1 }, maxval, tupltype: t }), if rgb { 3 } else { 1 }, "arbitrary")
        }
    };
    let max = if which == 0 { 1 } else { maxval };
    let n = (w * h * chans) as usize;
    let flat = r.chance(1, 3);
    let samples: Vec<u16> = (0..n).map(|i| if flat { [0, max as u16][(i / 5) % 2] } else { r.below(max as u64 + 1) as u16 }).collect();
    // 16 bit samples may be given for any maximum
    let as16 = max > 255 || r.bool();
    let bytes: Vec<u8> = samples.iter().map(|s| *s as u8).collect();
    // for headers of wide samples gray images are the only 16 bit ones accepted
    let color = match (chans, as16) {
        (1, true) if r.bool() => ExtendedColorType::L16,
        (1, _) => ExtendedColorType::L8,
        _ => ExtendedColorType::Rgb8,
    };
    let what = format!("pnm {name} maxval {max} {w}x{h} {encoding:?} {} samples as {color:?}", if as16 { "u16" } else { "u8" });
    c.at(&what);
    c.evals_str(&format!("{name} {max} {encoding:?} {as16}"));
    c.eval(hash_bytes(&bytes));
    let sig = format!("pnm header {name}");
    let mut file = vec![];
    let e = catch(|| {
        let mut e = k::pnm::PnmEncoder::new(&mut file).with_header(header);
        if as16 {
            e.encode(&samples[..], w, h, color)
        } else {
            e.encode(&bytes[..], w, h, color)
        }
    });
    match e {
        Err(p) => return c.fail(&format!("{sig}: encoding panics"), format!("{what}: {p}")),
        Ok(Err(e)) => return c.fail(&format!("{sig}: not encoded {}", kind(&e)), format!("{what}: {e}")),
        Ok(Ok(())) => {}
    }
    let d = match catch(|| decode(ImageFormat::Pnm, r.below(DEC_WAYS), &file)) {
        Err(p) => return c.fail_blob(&format!("{sig}: decoding panics"), format!("{what}: {p}"), Some(&file)),
        Ok(Err(e)) => return c.fail_blob(&format!("{sig}: own file refused {}", kind(&e)), format!("{what}: {e}"), Some(&file)),
        Ok(Ok(d)) => d,
    };
    let ec = match (chans, max > 255) {
        (1, false) => ColorType::L8,
        (1, true) => ColorType::L16,
        (_, false) => ColorType::Rgb8,
        (_, true) => ColorType::Rgb16,
    };
    check!(c, (d.w, d.h, d.color) == (w, h, ec), format!("{sig}: shape"), "{what}: {d:?}");
    if (d.w, d.h, d.color) == (w, h, ec) {
        let full = if max > 255 { 65535u64 } else { 255 };
        for (i, s) in samples.iter().enumerate() {
            let got = if max > 255 { u16::from_ne_bytes([d.px[2 * i], d.px[2 * i + 1]]) as f64 } else { d.px[i] as f64 };
            let want = *s as f64 * full as f64 / max as f64;
            if (got - want).abs() > 0.51 {
                c.fail_blob(&format!("{sig}: pixels"), format!("{what}: sample {i} is {got} instead of {want}"), Some(&file));
                break;
            }
        }
        c.count("pixels compared", w as u64 * h as u64);
    }
    // the header of a decoded file writes the file again
    if max == 255 || max == 65535 {
        let again = catch(|| -> ImageResult<Vec<u8>> {
            let dec = k::pnm::PnmDecoder::new(Cursor::new(&file[..]))?;
            let (_, hdr) = dec.into_inner();
            let mut o = vec![];
            let mut e = k::pnm::PnmEncoder::new(&mut o).with_header(hdr);
            if max > 255 {
                e.encode(&samples[..], w, h, color)?;
            } else {
                e.encode(&bytes[..], w, h, color)?;
            }
            Ok(o)
        });
        match again {
            Ok(Ok(o)) => {
                check!(c, o == file, format!("{sig}: reused header gives another file"), "{what}: {} and {} bytes", o.len(), file.len());
                c.count("headers reused", 1);
            }
            Ok(Err(e)) => c.fail(&format!("{sig}: reused header refused"), format!("{what}: {e}")),
            Err(p) => c.fail(&format!("{sig}: reused header panics"), format!("{what}: {p}")),
        }
    }
}

fn bmp_palette(c: &mut Case) {
    let mut r = c.rng.clone();
    let (mut w, mut h) = size(&mut r, 60);
    (w, h) = (w.min(65535), h.min(65535));
    let n = *r.pick(&[1usize, 2, 3, 15, 16, 17, 200, 255, 256]);
    let pal: Vec<[u8; 3]> = (0..n).map(|_| [r.u8(), r.u8(), r.u8()]).collect();
    let alpha = r.chance(1, 4);
    let img: Vec<u8> = (0..w * h).flat_map(|_| { let i = r.below(n as u64) as u8; if alpha { vec![i, r.u8()] } else { vec![i] } }).collect();
    let color = if alpha { ExtendedColorType::La8 } else { ExtendedColorType::L8 };
    let what = format!("bmp palette of {n} {w}x{h} {color:?}");
    c.at(&what);
    c.eval(hash_bytes(&img));
    c.evals_str(&format!("palette {n} {color:?}"));
    let mut file = vec![];
    match catch(|| k::bmp::BmpEncoder::new(&mut file).encode_with_palette(&img, w, h, color, Some(&pal))) {
        Err(p) => return c.fail("bmp palette: encoding panics", format!("{what}: {p}")),
        Ok(Err(e)) => return c.fail("bmp palette: not encoded", format!("{what}: {e}")),
        Ok(Ok(())) => {}
    }
    let ch = if alpha { 2 } else { 1 };
    let want: Vec<u8> = img.chunks(ch).flat_map(|p| pal[p[0] as usize]).collect();
    let way = r.below(DEC_WAYS);
    judge(c, "bmp palette", &what, catch(|| decode(ImageFormat::Bmp, way, &file)), (w, h, ColorType::Rgb8, &want), &file);
    // the indices themselves
    let idx = catch(|| -> ImageResult<(Vec<u8>, Option<Vec<[u8; 3]>>)> {
        let mut d = k::bmp::BmpDecoder::new(Cursor::new(&file[..]))?;
        d.set_indexed_color(true);
        let p = d.get_palette().map(|p| p.to_vec());
        let mut o = vec![0; d.total_bytes() as usize];
        d.read_image(&mut o)?;
        Ok((o, p))
    });
    match idx {
        Ok(Ok((o, p))) => {
            let want: Vec<u8> = img.chunks(ch).map(|p| p[0]).collect();
            check!(c, o == want, "bmp palette: indices", "{what}");
            let p = p.unwrap_or_default();
            check!(c, p.len() >= n && p[..n] == pal[..], "bmp palette: palette", "{what}: {} entries", p.len());
        }
        Ok(Err(e)) => c.fail("bmp palette: indexed decoding refused", format!("{what}: {e}")),
        Err(p) => c.fail("bmp palette: indexed decoding panics", format!("{what}: {p}")),
    }
}

fn ico_images(c: &mut Case) {
    let mut r = c.rng.clone();
    let n = r.range(1, 5);
    let mut imgs = vec![];
    for _ in 0..n {
        let (w, h) = if r.chance(1, 4) { (r.r32(1, 256), r.r32(1, 256)) } else { (r.size(40), r.size(40)) };
        imgs.push((w, h, gen::dynamic(&mut r, ColorType::Rgba8, w, h)));
    }
    let what = format!("ico of {:?}", imgs.iter().map(|i| (i.0, i.1)).collect::<Vec<_>>());
    c.at(&what);
    c.evals_str(&format!("{n} images"));
    c.eval(hash_bytes(imgs[0].2.as_bytes()));
    let mut file = vec![];
    let pre = r.bool();
    let e = catch(|| -> ImageResult<()> {
        let mut frames = vec![];
        for (w, h, i) in &imgs {
            frames.push(if pre {
                let mut png = Cursor::new(vec![]);
                i.write_to(&mut png, ImageFormat::Png)?;
                k::ico::IcoFrame::with_encoded(png.into_inner(), *w, *h, ExtendedColorType::Rgba8)?
            } else {
                k::ico::IcoFrame::as_png(i.as_bytes(), *w, *h, ExtendedColorType::Rgba8)?
            });
        }
        k::ico::IcoEncoder::new(&mut file).encode_images(&frames)
    });
    match e {
        Err(p) => return c.fail("ico images: encoding panics", format!("{what}: {p}")),
        Ok(Err(e)) => return c.fail("ico images: not encoded", format!("{what}: {e}")),
        Ok(Ok(())) => {}
    }
    // the biggest image is what decodes
    let area = imgs.iter().map(|i| i.0 * i.1).max().unwrap();
    match catch(|| decode(ImageFormat::Ico, r.below(DEC_WAYS), &file)) {
        Err(p) => c.fail_blob("ico images: decoding panics", format!("{what}: {p}"), Some(&file)),
        Ok(Err(e)) => c.fail_blob("ico images: own file refused", format!("{what}: {e}"), Some(&file)),
        Ok(Ok(d)) => {
            let ok = imgs.iter().any(|(w, h, i)| w * h == area && (*w, *h) == (d.w, d.h) && d.color == ColorType::Rgba8 && i.as_bytes() == d.px);
            check!(c, ok, "ico images: result", "{what}: {d:?}");
            c.count("pixels compared", area as u64);
        }
    }
    // each image by itself
    let mut at = 6;
    for (w, h, i) in &imgs {
        let off = u32::from_le_bytes(file[at + 12..at + 16].try_into().unwrap()) as usize;
        let len = u32::from_le_bytes(file[at + 8..at + 12].try_into().unwrap()) as usize;
        at += 16;
        let Some(part) = file.get(off..off + len) else {
            c.fail("ico images: entry outside the file", what.clone());
            return;
        };
        judge(c, "ico images", &what, catch(|| decode(ImageFormat::Png, 0, part)), (*w, *h, ColorType::Rgba8, i.as_bytes()), part);
    }
}

/// An image of at most 256 different colours, one of which may be transparent.
fn few_colors(r: &mut Rng, w: u32, h: u32) -> image::RgbaImage {
    let n = *r.pick(&[1usize, 2, 3, 4, 7, 16, 17, 100, 255, 256]);
    let transparent = r.chance(1, 2);
    let mut pal: Vec<[u8; 4]> = vec![];
    while pal.len() < n {
        let p = [r.u8(), r.u8(), r.u8(), 255];
        if !pal.contains(&p) {
            pal.push(p);
        }
    }
    if transparent {
        let v = r.chance(1, 3).then(|| [r.u8(), r.u8(), r.u8()]).unwrap_or([0; 3]);
        pal[0] = [v[0], v[1], v[2], 0];
    }
    let style = r.below(3);
    let mut i = image::RgbaImage::from_fn(w, h, |x, y| {
        image::Rgba(match style {
            0 => *r.pick(&pal),
            1 => pal[(x / 3 + y / 2) as usize % n],
            _ => pal[(y * w + x) as usize % n],
        })
    });
    if r.chance(1, 8) {
        // a run longer than the code table
        let k = pal[n - 1];
        i.pixels_mut().take((w * h / 2) as usize).for_each(|p| p.0 = k);
    }
    i
}
fn flatten(i: &image::RgbaImage) -> Vec<u8> {
    i.pixels().flat_map(|p| if p.0[3] == 0 { [0; 4] } else { p.0 }).collect()
}
fn gif(c: &mut Case) {
    let mut r = c.rng.clone();
    let (mut w, mut h) = size(&mut r, 80);
    (w, h) = (w.min(65535), h.min(65535));
    let img = few_colors(&mut r, w, h);
    let way = r.below(4);
    let what = format!("gif {w}x{h} way {way}");
    c.at(&what);
    c.eval(hash_bytes(&img));
    c.evals_str(&format!("gif way {way}"));
    let mut file = vec![];
    let opaque = img.pixels().all(|p| p.0[3] == 255);
    let e = catch(|| -> ImageResult<()> {
        match way {
            0 => DynamicImage::ImageRgba8(img.clone()).write_to(&mut Cursor::new(&mut file), ImageFormat::Gif),
            1 => k::gif::GifEncoder::new_with_speed(&mut file, r.r32(1, 30) as i32).encode(&img, w, h, ExtendedColorType::Rgba8),
            2 if opaque => {
                let rgb = DynamicImage::ImageRgba8(img.clone()).to_rgb8();
                k::gif::GifEncoder::new(&mut file).encode(&rgb, w, h, ExtendedColorType::Rgb8)
            }
            3 if opaque => image::write_buffer_with_format(&mut Cursor::new(&mut file), &img, w, h, ColorType::Rgba8, ImageFormat::Gif),
            _ => k::gif::GifEncoder::new(&mut file).encode_frame(Frame::new(img.clone())),
        }
    });
    match e {
        Err(p) => return c.fail("gif: encoding panics", format!("{what}: {p}")),
        Ok(Err(e)) => return c.fail("gif: not encoded", format!("{what}: {e}")),
        Ok(Ok(())) => {}
    }
    let dway = r.below(DEC_WAYS);
    let want = flatten(&img);
    judge(c, "gif", &what, catch(|| decode(ImageFormat::Gif, dway, &file)), (w, h, ColorType::Rgba8, &want), &file);
}
/// Frames written to a GIF animation come back.
fn gif_frames(c: &mut Case) {
    use image::AnimationDecoder;
    let mut r = c.rng.clone();
    let (w, h) = (r.size(40), r.size(40));
    let n = r.range(1, 6) as usize;
    let opaque = r.bool();
    let mut frames = vec![];
    let mut want = vec![];
    for i in 0..n {
        let mut img = few_colors(&mut r, w, h);
        if opaque {
            img.pixels_mut().for_each(|p| p.0[3] = 255);
        } else if i > 0 {
            // what lies below would show through
            let k = img.pixels().find(|p| p.0[3] == 255).map(|p| p.0).unwrap_or([1, 2, 3, 255]);
            img.pixels_mut().filter(|p| p.0[3] == 0).for_each(|p| p.0 = k);
        }
        let ms = r.range(0, 65535) as u32 * 10;
        want.push((flatten(&img), ms));
        frames.push(Frame::from_parts(img, 0, 0, Delay::from_numer_denom_ms(ms, 1)));
    }
    let way = r.below(3);
    let what = format!("gif of {n} frames {w}x{h} way {way}");
    c.at(&what);
    c.evals_str(&format!("gif frames {n} way {way}"));
    c.eval(hash_bytes(&want[0].0));
    let repeat = r.below(4);
    let mut file = vec![];
    let e = catch(|| -> ImageResult<()> {
        let mut e = k::gif::GifEncoder::new(&mut file);
        match repeat {
            0 => e.set_repeat(k::gif::Repeat::Infinite)?,
            1 => e.set_repeat(k::gif::Repeat::Finite(3))?,
            _ => {}
        }
        match way {
            0 => e.encode_frames(frames.clone()),
            1 => e.try_encode_frames(frames.iter().cloned().map(Ok)),
            _ => frames.iter().cloned().try_for_each(|f| e.encode_frame(f)),
        }
    });
    match e {
        Err(p) => return c.fail("gif frames: encoding panics", format!("{what}: {p}")),
        Ok(Err(e)) => return c.fail("gif frames: not encoded", format!("{what}: {e}")),
        Ok(Ok(())) => {}
    }
    match catch(|| k::gif::GifDecoder::new(Cursor::new(&file[..])).and_then(|d| d.into_frames().collect_frames())) {
        Err(p) => c.fail_blob("gif frames: decoding panics", format!("{what}: {p}"), Some(&file)),
        Ok(Err(e)) => c.fail_blob("gif frames: own file refused", format!("{what}: {e}"), Some(&file)),
        Ok(Ok(got)) => {
            check!(c, got.len() == n, "gif frames: number", "{what}: {}", got.len());
            for (i, (g, (px, ms))) in got.iter().zip(&want).enumerate() {
                check!(c, g.buffer().dimensions() == (w, h), "gif frames: dimensions", "{what}: frame {i}");
                check!(c, g.buffer().as_raw()[..] == px[..], "gif frames: pixels", "{what}: frame {i}");
                check!(c, g.delay().numer_denom_ms() == (*ms, 1), "gif frames: delay", "{what}: frame {i}: {:?} instead of {ms}", g.delay());
                c.count("pixels compared", w as u64 * h as u64);
            }
        }
    }
}
/// TGA, PNM, TIFF: 1 bit and other extended colour types are either refused
/// or come back.
fn l1(c: &mut Case) {
    let mut r = c.rng.clone();
    let (w, h) = (r.size(40), r.size(40));
    let bits: Vec<u8> = (0..w * h).map(|_| r.bool() as u8).collect();
    let enc = if r.bool() { SampleEncoding::Ascii } else { SampleEncoding::Binary };
    let pam = r.chance(1, 3);
    let what = format!("pnm L1 {w}x{h} pam {pam}");
    c.at(&what);
    c.eval(hash_bytes(&bits));
    let mut file = vec![];
    let st = if pam { k::pnm::PnmSubtype::ArbitraryMap } else { k::pnm::PnmSubtype::Bitmap(enc) };
    match catch(|| k::pnm::PnmEncoder::new(&mut file).with_subtype(st).encode(&bits[..], w, h, ExtendedColorType::L1)) {
        Err(p) => return c.fail("pnm L1: encoding panics", format!("{what}: {p}")),
        Ok(Err(e)) => return c.fail("pnm L1: not encoded", format!("{what}: {e}")),
        Ok(Ok(())) => {}
    }
    let want: Vec<u8> = bits.iter().map(|b| b * 255).collect();
    let way = r.below(DEC_WAYS);
    judge(c, "pnm L1", &what, catch(|| decode(ImageFormat::Pnm, way, &file)), (w, h, ColorType::L8, &want), &file);
}

pub fn run(ctx: &Ctx) {
    ctx.rule("encode -> decode -> compare every sample with the original, for every lossless encoder object and option, every public encoding function and a random public decoding way per case");
    ctx.assume("BMP does not store the alpha of gray images and reads gray as RGB, lossless WebP reads gray as RGB(A): documented equivalents; GIF images of at most 256 colours are the lossless ones");
    let vs = vh::enc::variants();
    for v in vs.iter().filter(|v| v.lossless) {
        let (q, t) = match v.fmt {
            ImageFormat::Png => (220, 8_000),
            ImageFormat::OpenExr => (400, 8_000),
            ImageFormat::Ico => (500, 10_000),
            ImageFormat::Pnm => (700, 20_000),
            _ => (1200, 40_000),
        };
        ctx.section(&v.name, q, t, |c| encoder(c, v));
    }
    ctx.section("entry points", 5000, 120_000, |c| entry(c, &vs));
    ctx.section("pnm headers", 3000, 100_000, pnm_header);
    ctx.section("pnm l1", 500, 10_000, l1);
    ctx.section("bmp palette", 2000, 60_000, bmp_palette);
    ctx.section("ico images", 800, 20_000, ico_images);
    ctx.section("gif", 2500, 60_000, gif);
    ctx.section("gif frames", 1000, 25_000, gif_frames);
    ctx.require("pixels compared", 1_000_000);
}
