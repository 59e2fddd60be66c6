//! Reference model of the colour conversions, written from the statement:
//! samples are f64 tagged with a depth, pixels are 1..4 samples.
use crate::gen::Samp;
use image::{ColorType, DynamicImage, ImageBuffer, Pixel};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum D {
    U8,
    U16,
    F32,
}
impl D {
    pub fn max(self) -> f64 {
        match self {
            D::U8 => 255.0,
            D::U16 => 65535.0,
            D::F32 => 1.0,
        }
    }
}
pub fn depth_of(c: ColorType) -> D {
    match c {
        ColorType::L8 | ColorType::La8 | ColorType::Rgb8 | ColorType::Rgba8 => D::U8,
        ColorType::L16 | ColorType::La16 | ColorType::Rgb16 | ColorType::Rgba16 => D::U16,
        _ => D::F32,
    }
}

/// closed interval of acceptable results
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Iv(pub f64, pub f64);
impl Iv {
    pub fn has(self, v: f64) -> bool {
        (self.0 <= v && v <= self.1) || (self.0.is_nan() && v.is_nan())
    }
}

fn depth(v: Iv, from: D, to: D) -> Iv {
    if from == to {
        return v;
    }
    match (from, to) {
        (D::F32, _) => {
            let m = to.max();
            let f = |x: f64, e: f64| {
                if x.is_nan() {
                    return m;
                }
                // the multiplication may be carried out in single precision
                (x.clamp(0.0, 1.0) * m + e).clamp(0.0, m).round()
            };
            let e = m * 1.2e-7;
            Iv(f(v.0, -e), f(v.1, e))
        }
        (_, D::F32) => {
            let f = |x: f64, e: f64| (x / from.max() + e).clamp(0.0, 1.0);
            Iv(f(v.0, -6.1e-8), f(v.1, 6.1e-8))
        }
        // v * MAX_TO / MAX_FROM has no ties between 8 and 16 bit
        _ => Iv((v.0 * to.max() / from.max()).round(), (v.1 * to.max() / from.max()).round()),
    }
}

fn luma(p: &[f64], d: D) -> Iv {
    let s = 2126.0 * p[0] + 7152.0 * p[1] + 722.0 * p[2];
    match d {
        // integer samples: the weighted mean, rounded down
        D::U8 | D::U16 => {
            let v = (s as u64 / 10000) as f64;
            Iv(v, v)
        }
        D::F32 => {
            let e = 2e-7 * (p[0].abs() + p[1].abs() + p[2].abs());
            Iv(s / 10000.0 - e, s / 10000.0 + e)
        }
    }
}

/// Acceptable values of each destination channel.
pub fn convert(src: &[f64], from: D, channels: usize, to: D) -> Vec<Iv> {
    let one = |v: f64| depth(Iv(v, v), from, to);
    let opaque = Iv(to.max(), to.max());
    let alpha = match src.len() {
        2 => one(src[1]),
        4 => one(src[3]),
        _ => opaque,
    };
    let gray = if src.len() <= 2 { one(src[0]) } else { depth(luma(src, from), from, to) };
    let rgb = if src.len() <= 2 { [gray; 3] } else { [one(src[0]), one(src[1]), one(src[2])] };
    match channels {
        1 => vec![gray],
        2 => vec![gray, alpha],
        3 => rgb.to_vec(),
        _ => vec![rgb[0], rgb[1], rgb[2], alpha],
    }
}

/// (channels, depth, samples) of a dynamic image
pub fn samples(d: &DynamicImage) -> Vec<f64> {
    fn s<P: Pixel>(b: &ImageBuffer<P, Vec<P::Subpixel>>) -> Vec<f64>
    where
        P::Subpixel: Samp,
    {
        let n = b.width() as usize * b.height() as usize * P::CHANNEL_COUNT as usize;
        b.as_raw()[..n].iter().map(|v| v.f()).collect()
    }
    match d {
        DynamicImage::ImageLuma8(b) => s(b),
        DynamicImage::ImageLumaA8(b) => s(b),
        DynamicImage::ImageRgb8(b) => s(b),
        DynamicImage::ImageRgba8(b) => s(b),
        DynamicImage::ImageLuma16(b) => s(b),
        DynamicImage::ImageLumaA16(b) => s(b),
        DynamicImage::ImageRgb16(b) => s(b),
        DynamicImage::ImageRgba16(b) => s(b),
        DynamicImage::ImageRgb32F(b) => s(b),
        DynamicImage::ImageRgba32F(b) => s(b),
        _ => unreachable!(),
    }
}
