//! Every encoder with every option, behind one signature.
use image::codecs as k;
use image::codecs::png::{CompressionType as Co, FilterType as Fi};
use image::codecs::pnm::{PnmSubtype, SampleEncoding};
use image::{ColorType, ExtendedColorType, ImageEncoder, ImageFormat, ImageResult};
use std::io::{Seek, Write};

pub trait Sink: Write + Seek {}
impl<T: Write + Seek> Sink for T {}

type Run = Box<dyn Fn(&mut dyn Sink, &[u8], u32, u32, ExtendedColorType, Option<Vec<u8>>) -> ImageResult<()> + Send + Sync>;
pub struct Variant {
    pub name: String,
    pub fmt: ImageFormat,
    pub lossless: bool,
    /// expensive
    pub slow: bool,
    /// takes an ICC profile
    pub icc: bool,
    pub run: Run,
}
impl Variant {
    pub fn encode(&self, buf: &[u8], w: u32, h: u32, c: ExtendedColorType) -> ImageResult<Vec<u8>> {
        let mut o = std::io::Cursor::new(vec![]);
        (self.run)(&mut o, buf, w, h, c, None)?;
        Ok(o.into_inner())
    }
}
fn with<E: ImageEncoder>(mut e: E, b: &[u8], w: u32, h: u32, c: ExtendedColorType, icc: Option<Vec<u8>>) -> ImageResult<()> {
    if let Some(p) = icc {
        e.set_icc_profile(p).map_err(image::ImageError::Unsupported)?;
    }
    e.write_image(b, w, h, c)
}

macro_rules! var {
    ($v:expr, $name:expr, $fmt:ident, $lossless:expr, |$s:ident| $e:expr) => {
        $v.push(Variant {
            name: $name.to_string(),
            fmt: ImageFormat::$fmt,
            lossless: $lossless,
            slow: false,
            icc: matches!(ImageFormat::$fmt, ImageFormat::Png | ImageFormat::WebP | ImageFormat::Jpeg),
            run: Box::new(move |$s: &mut dyn Sink, b, w, h, c, icc| with($e, b, w, h, c, icc)),
        })
    };
}
/// Variants that take the arguments themselves.
macro_rules! raw {
    ($v:expr, $name:expr, $fmt:ident, $lossless:expr, |$s:ident, $b:ident, $w:ident, $h:ident, $c:ident| $e:expr) => {
        $v.push(Variant {
            name: $name.to_string(),
            fmt: ImageFormat::$fmt,
            lossless: $lossless,
            slow: false,
            icc: false,
            run: Box::new(move |$s: &mut dyn Sink, $b, $w, $h, $c, _| $e),
        })
    };
}

pub fn variants() -> Vec<Variant> {
    let mut v: Vec<Variant> = vec![];
    var!(v, "png", Png, true, |s| k::png::PngEncoder::new(s));
    for (cn, co) in [("default", Co::Default), ("fast", Co::Fast), ("best", Co::Best)] {
        for (fnm, fi) in [
            ("none", Fi::NoFilter),
            ("sub", Fi::Sub),
            ("up", Fi::Up),
            ("avg", Fi::Avg),
            ("paeth", Fi::Paeth),
            ("adaptive", Fi::Adaptive),
        ] {
            var!(v, format!("png {cn} {fnm}"), Png, true, |s| k::png::PngEncoder::new_with_quality(s, co, fi));
        }
    }
    raw!(v, "bmp", Bmp, true, |s, b, w, h, c| {
        let mut s = s;
        k::bmp::BmpEncoder::new(&mut s).write_image(b, w, h, c)
    });
    raw!(v, "bmp encode", Bmp, true, |s, b, w, h, c| {
        let mut s = s;
        k::bmp::BmpEncoder::new(&mut s).encode(b, w, h, c)
    });
    var!(v, "tiff", Tiff, true, |s| k::tiff::TiffEncoder::new(s));
    raw!(v, "tiff encode", Tiff, true, |s, b, w, h, c| k::tiff::TiffEncoder::new(s).encode(b, w, h, c));
    var!(v, "tga rle", Tga, true, |s| k::tga::TgaEncoder::new(s));
    var!(v, "tga raw", Tga, true, |s| k::tga::TgaEncoder::new(s).disable_rle());
    raw!(v, "tga encode", Tga, true, |s, b, w, h, c| k::tga::TgaEncoder::new(s).encode(b, w, h, c));
    var!(v, "pnm", Pnm, true, |s| k::pnm::PnmEncoder::new(s));
    var!(v, "pnm dynamic", Pnm, true, |s| k::pnm::PnmEncoder::new(s).with_subtype(PnmSubtype::Bitmap(SampleEncoding::Ascii)).with_dynamic_header());
    for (n, st) in [
        ("pgm ascii", PnmSubtype::Graymap(SampleEncoding::Ascii)),
        ("pgm", PnmSubtype::Graymap(SampleEncoding::Binary)),
        ("ppm ascii", PnmSubtype::Pixmap(SampleEncoding::Ascii)),
        ("ppm", PnmSubtype::Pixmap(SampleEncoding::Binary)),
        ("pbm ascii", PnmSubtype::Bitmap(SampleEncoding::Ascii)),
        ("pbm", PnmSubtype::Bitmap(SampleEncoding::Binary)),
        ("pam", PnmSubtype::ArbitraryMap),
    ] {
        var!(v, format!("pnm {n}"), Pnm, true, |s| k::pnm::PnmEncoder::new(s).with_subtype(st));
    }
    var!(v, "farbfeld", Farbfeld, true, |s| k::farbfeld::FarbfeldEncoder::new(s));
    raw!(v, "farbfeld encode", Farbfeld, true, |s, b, w, h, c| {
        if c == ExtendedColorType::Rgba16 {
            k::farbfeld::FarbfeldEncoder::new(s).encode(b, w, h)
        } else {
            k::farbfeld::FarbfeldEncoder::new(s).write_image(b, w, h, c)
        }
    });
    var!(v, "qoi", Qoi, true, |s| k::qoi::QoiEncoder::new(s));
    var!(v, "webp", WebP, true, |s| k::webp::WebPEncoder::new_lossless(s));
    raw!(v, "webp encode", WebP, true, |s, b, w, h, c| k::webp::WebPEncoder::new_lossless(s).encode(b, w, h, c));
    var!(v, "ico", Ico, true, |s| k::ico::IcoEncoder::new(s));
    var!(v, "exr", OpenExr, true, |s| k::openexr::OpenExrEncoder::new(s));
    raw!(v, "gif", Gif, false, |s, b, w, h, c| k::gif::GifEncoder::new(s).encode(b, w, h, c));
    for sp in [1, 10, 30] {
        raw!(v, format!("gif speed {sp}"), Gif, false, |s, b, w, h, c| k::gif::GifEncoder::new_with_speed(s, sp).encode(b, w, h, c));
    }
    var!(v, "hdr", Hdr, false, |s| k::hdr::HdrEncoder::new(s));
    var!(v, "jpeg", Jpeg, false, |s| k::jpeg::JpegEncoder::new(s));
    for q in [1u8, 25, 50, 90, 100] {
        var!(v, format!("jpeg {q}"), Jpeg, false, |s| k::jpeg::JpegEncoder::new_with_quality(s, q));
    }
    raw!(v, "jpeg encode", Jpeg, false, |s, b, w, h, c| k::jpeg::JpegEncoder::new(s).encode(b, w, h, c));
    for (n, sp, q) in [("avif", 10u8, 80u8), ("avif best", 9, 100), ("avif worst", 10, 1)] {
        var!(v, n, Avif, false, |s| k::avif::AvifEncoder::new_with_speed_quality(s, sp, q).with_num_threads(Some(1)));
        v.last_mut().unwrap().slow = true;
    }
    var!(v, "avif bt709", Avif, false, |s| k::avif::AvifEncoder::new_with_speed_quality(s, 10, 90).with_colorspace(k::avif::ColorSpace::Bt709).with_num_threads(Some(1)));
    v.last_mut().unwrap().slow = true;
    v
}

/// The colour types a format's encoder takes.
pub fn accepts(v: &Variant, c: ColorType) -> bool {
    use ColorType::*;
    match v.fmt {
        ImageFormat::Png | ImageFormat::Ico => !matches!(c, Rgb32F | Rgba32F),
        ImageFormat::Bmp | ImageFormat::Tga | ImageFormat::WebP => matches!(c, L8 | La8 | Rgb8 | Rgba8),
        ImageFormat::Tiff => matches!(c, L8 | Rgb8 | Rgba8 | L16 | Rgb16 | Rgba16),
        ImageFormat::Pnm => match v.name.as_str() {
            "pnm pgm" | "pnm pgm ascii" | "pnm pbm" | "pnm pbm ascii" => c == L8,
            "pnm ppm" | "pnm ppm ascii" => c == Rgb8,
            _ => matches!(c, L8 | La8 | Rgb8 | Rgba8),
        },
        ImageFormat::Farbfeld => c == Rgba16,
        ImageFormat::Qoi => matches!(c, Rgb8 | Rgba8),
        ImageFormat::OpenExr => matches!(c, Rgb32F | Rgba32F),
        ImageFormat::Gif => matches!(c, Rgb8 | Rgba8),
        ImageFormat::Hdr => c == Rgb32F,
        ImageFormat::Jpeg => matches!(c, L8 | Rgb8),
        ImageFormat::Avif => !matches!(c, Rgb32F | Rgba32F),
        _ => false,
    }
}
/// What an image reads back as, when nothing is lost.
pub fn expected(fmt: ImageFormat, c: ColorType, px: &[u8]) -> (ColorType, Vec<u8>) {
    use ColorType::*;
    let gray_rgb = |ch: usize, alpha: bool| -> Vec<u8> {
        px.chunks_exact(ch)
            .flat_map(|p| {
                let mut v = vec![p[0]; 3];
                if alpha {
                    v.push(*p.get(1).unwrap_or(&255));
                }
                v
            })
            .collect()
    };
    match (fmt, c) {
        (ImageFormat::Bmp, L8) => (Rgb8, gray_rgb(1, false)),
        // the alpha of gray images is not stored in bitmaps
        (ImageFormat::Bmp, La8) => (Rgb8, gray_rgb(2, false)),
        (ImageFormat::WebP, L8) => (Rgb8, gray_rgb(1, false)),
        (ImageFormat::WebP, La8) => (Rgba8, gray_rgb(2, true)),
        (ImageFormat::Gif, Rgb8) => (Rgba8, px.chunks_exact(3).flat_map(|p| [p[0], p[1], p[2], 255]).collect()),
        _ => (c, px.to_vec()),
    }
}
