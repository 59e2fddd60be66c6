//! Generators for pixels, images and contents.
use crate::Rng;
use image::{
    ColorType, DynamicImage, ImageBuffer, Luma, LumaA, Pixel, Primitive, Rgb, Rgba,
};

/// Sample types that can be generated.
pub trait Samp: Primitive + std::fmt::Debug + Send + Sync + 'static {
    const NAME: &'static str;
    /// any value
    fn arb(r: &mut Rng) -> Self;
    /// value from a small set of boundary values
    fn edge(r: &mut Rng) -> Self;
    /// exact conversion to f64
    fn f(self) -> f64;
    fn bits(self) -> u64;
    /// value closest to `v` of the nominal range (0.0..=1.0)
    fn unit(v: f64) -> Self;
    const MAXV: f64;
    const INT: bool;
}
macro_rules! samp_int {
    ($($t:ident),*) => {$(
        impl Samp for $t {
            const NAME: &'static str = stringify!($t);
            fn arb(r: &mut Rng) -> Self { r.u64() as $t }
            fn edge(r: &mut Rng) -> Self {
                *r.pick(&[$t::MIN, $t::MAX, $t::MAX / 2, $t::MAX / 2 + 1, $t::MAX - 1, $t::MIN + 1, 1, 2, 3, 127])
            }
            fn f(self) -> f64 { self as f64 }
            fn bits(self) -> u64 { self as u64 }
            fn unit(v: f64) -> Self { (v * $t::MAX as f64).round() as $t }
            const MAXV: f64 = $t::MAX as f64;
            const INT: bool = true;
        }
    )*}
}
samp_int!(u8, u16, u32, u64, i8, i16, i32, i64, usize, isize);
macro_rules! samp_float {
    ($($t:ident),*) => {$(
        impl Samp for $t {
            const NAME: &'static str = stringify!($t);
            fn arb(r: &mut Rng) -> Self { r.f64() as $t }
            fn edge(r: &mut Rng) -> Self {
                *r.pick(&[0.0, 1.0, 0.5, 0.25, 0.999, 1.0 / 255.0, 0.75, 1.0 / 3.0])
            }
            fn f(self) -> f64 { self as f64 }
            fn bits(self) -> u64 { self.to_bits() as u64 }
            fn unit(v: f64) -> Self { v as $t }
            const MAXV: f64 = 1.0;
            const INT: bool = false;
        }
    )*}
}
samp_float!(f32, f64);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Style {
    Constant,
    Noise,
    Runs,
    Edges,
    Gradient,
    FewColors,
    RowRepeat,
    Checker,
}
pub const STYLES: [Style; 8] = [
    Style::Constant,
    Style::Noise,
    Style::Runs,
    Style::Edges,
    Style::Gradient,
    Style::FewColors,
    Style::RowRepeat,
    Style::Checker,
];

pub fn pixel<P: Pixel>(r: &mut Rng) -> P
where
    P::Subpixel: Samp,
{
    let v: Vec<P::Subpixel> = (0..P::CHANNEL_COUNT).map(|_| P::Subpixel::arb(r)).collect();
    *P::from_slice(&v)
}
pub fn pixel_edge<P: Pixel>(r: &mut Rng) -> P
where
    P::Subpixel: Samp,
{
    let v: Vec<P::Subpixel> = (0..P::CHANNEL_COUNT)
        .map(|_| if r.chance(1, 4) { P::Subpixel::arb(r) } else { P::Subpixel::edge(r) })
        .collect();
    *P::from_slice(&v)
}

pub type Buf<P> = ImageBuffer<P, Vec<<P as Pixel>::Subpixel>>;

/// An image with a given content style.
pub fn image_style<P: Pixel>(r: &mut Rng, w: u32, h: u32, st: Style) -> Buf<P>
where
    P::Subpixel: Samp,
{
    let n = w as usize * h as usize;
    let ch = P::CHANNEL_COUNT as usize;
    let mut v: Vec<P::Subpixel> = Vec::with_capacity(n * ch);
    let push = |v: &mut Vec<P::Subpixel>, p: &P| v.extend_from_slice(p.channels());
    match st {
        Style::Constant => {
            let p: P = if r.bool() { pixel(r) } else { pixel_edge(r) };
            for _ in 0..n {
                push(&mut v, &p)
            }
        }
        Style::Noise => {
            for _ in 0..n * ch {
                v.push(P::Subpixel::arb(r));
            }
        }
        Style::Edges => {
            for _ in 0..n * ch {
                v.push(if r.chance(1, 8) { P::Subpixel::arb(r) } else { P::Subpixel::edge(r) });
            }
        }
        Style::Runs => {
            let maxrun = *r.pick(&[2u64, 3, 8, 64, 127, 128, 129, 130, 256, 300]);
            while v.len() < n * ch {
                let p: P = pixel(r);
                let k = if r.bool() { maxrun } else { r.range(1, maxrun) };
                if r.chance(1, 3) {
                    // a literal stretch
                    for _ in 0..k {
                        let q: P = pixel(r);
                        push(&mut v, &q);
                    }
                } else {
                    for _ in 0..k {
                        push(&mut v, &p);
                    }
                }
            }
            v.truncate(n * ch);
        }
        Style::Gradient => {
            let (a, b, c0) = (r.f64(), r.f64(), r.f64() * 0.3);
            for y in 0..h {
                for x in 0..w {
                    for c in 0..ch {
                        let t = (a * x as f64 / w.max(2) as f64 + b * y as f64 / h.max(2) as f64) * 0.6
                            + c0
                            + 0.02 * c as f64;
                        v.push(P::Subpixel::unit(t.clamp(0.0, 1.0)));
                    }
                }
            }
        }
        Style::FewColors => {
            let k = *r.pick(&[1usize, 2, 3, 4, 5, 15, 16, 17, 255, 256]);
            let pal: Vec<P> = (0..k).map(|_| pixel_edge(r)).collect();
            for _ in 0..n {
                let p = *r.pick(&pal);
                push(&mut v, &p);
            }
        }
        Style::RowRepeat => {
            let mut row: Vec<P::Subpixel> = vec![];
            for y in 0..h {
                if y == 0 || r.chance(1, 3) {
                    row = (0..w as usize * ch).map(|_| P::Subpixel::arb(r)).collect();
                }
                v.extend_from_slice(&row);
            }
        }
        Style::Checker => {
            let (p, q): (P, P) = (pixel_edge(r), pixel_edge(r));
            for y in 0..h {
                for x in 0..w {
                    push(&mut v, if (x + y) % 2 == 0 { &p } else { &q });
                }
            }
        }
    }
    ImageBuffer::from_raw(w, h, v).expect("gen image")
}

pub fn image<P: Pixel>(r: &mut Rng, w: u32, h: u32) -> Buf<P>
where
    P::Subpixel: Samp,
{
    let st = *r.pick(&STYLES);
    image_style(r, w, h, st)
}

pub const COLORS: [ColorType; 10] = [
    ColorType::L8,
    ColorType::La8,
    ColorType::Rgb8,
    ColorType::Rgba8,
    ColorType::L16,
    ColorType::La16,
    ColorType::Rgb16,
    ColorType::Rgba16,
    ColorType::Rgb32F,
    ColorType::Rgba32F,
];

pub fn dynamic_style(r: &mut Rng, c: ColorType, w: u32, h: u32, st: Style) -> DynamicImage {
    match c {
        ColorType::L8 => image_style::<Luma<u8>>(r, w, h, st).into(),
        ColorType::La8 => image_style::<LumaA<u8>>(r, w, h, st).into(),
        ColorType::Rgb8 => image_style::<Rgb<u8>>(r, w, h, st).into(),
        ColorType::Rgba8 => image_style::<Rgba<u8>>(r, w, h, st).into(),
        ColorType::L16 => image_style::<Luma<u16>>(r, w, h, st).into(),
        ColorType::La16 => image_style::<LumaA<u16>>(r, w, h, st).into(),
        ColorType::Rgb16 => image_style::<Rgb<u16>>(r, w, h, st).into(),
        ColorType::Rgba16 => image_style::<Rgba<u16>>(r, w, h, st).into(),
        ColorType::Rgb32F => image_style::<Rgb<f32>>(r, w, h, st).into(),
        ColorType::Rgba32F => image_style::<Rgba<f32>>(r, w, h, st).into(),
        _ => unreachable!(),
    }
}
pub fn dynamic(r: &mut Rng, c: ColorType, w: u32, h: u32) -> DynamicImage {
    let st = *r.pick(&STYLES);
    dynamic_style(r, c, w, h, st)
}

/// Call a generic function for one of the pixel types, chosen at random.
#[macro_export]
macro_rules! some_pixel {
    ($c:expr, $f:ident) => {
        match $c.rng.below(16) {
            0 => $f::<image::Luma<u8>>($c),
            1 => $f::<image::LumaA<u8>>($c),
            2 => $f::<image::Rgb<u8>>($c),
            3 => $f::<image::Rgba<u8>>($c),
            4 => $f::<image::Luma<u16>>($c),
            5 => $f::<image::LumaA<u16>>($c),
            6 => $f::<image::Rgb<u16>>($c),
            7 => $f::<image::Rgba<u16>>($c),
            8 => $f::<image::Luma<f32>>($c),
            9 => $f::<image::LumaA<f32>>($c),
            10 => $f::<image::Rgb<f32>>($c),
            11 => $f::<image::Rgba<f32>>($c),
            12 => $f::<image::Rgb<u32>>($c),
            13 => $f::<image::Luma<i16>>($c),
            14 => $f::<image::Rgba<f64>>($c),
            _ => $f::<image::Rgb<u8>>($c),
        }
    };
}
/// Same for the ten pixel types of `DynamicImage` plus float gray.
#[macro_export]
macro_rules! some_std_pixel {
    ($c:expr, $f:ident) => {
        match $c.rng.below(12) {
            0 => $f::<image::Luma<u8>>($c),
            1 => $f::<image::LumaA<u8>>($c),
            2 => $f::<image::Rgb<u8>>($c),
            3 => $f::<image::Rgba<u8>>($c),
            4 => $f::<image::Luma<u16>>($c),
            5 => $f::<image::LumaA<u16>>($c),
            6 => $f::<image::Rgb<u16>>($c),
            7 => $f::<image::Rgba<u16>>($c),
            8 => $f::<image::Luma<f32>>($c),
            9 => $f::<image::LumaA<f32>>($c),
            10 => $f::<image::Rgb<f32>>($c),
            _ => $f::<image::Rgba<f32>>($c),
        }
    };
}

pub fn bits_of<P: Pixel>(p: &P) -> Vec<u64>
where
    P::Subpixel: Samp,
{
    p.channels().iter().map(|s| s.bits()).collect()
}
