//! A05: colour type conversions are value-exact.
use image::buffer::ConvertBuffer;
use image::{DynamicImage, GenericImage, GenericImageView, ImageBuffer, Luma, LumaA, Pixel, Rgb, Rgba};
use vh::conv::{self, D};
use vh::gen::{self, Samp};
use vh::{catch, check, mix, Case, Ctx};

vh::property_main!("A05");

trait Dep: Samp {
    const D: D;
}
impl Dep for u8 {
    const D: D = D::U8;
}
impl Dep for u16 {
    const D: D = D::U16;
}
impl Dep for f32 {
    const D: D = D::F32;
}

fn raw<P: Pixel>(b: &ImageBuffer<P, Vec<P::Subpixel>>) -> Vec<f64>
where
    P::Subpixel: Samp,
{
    let n = b.width() as usize * b.height() as usize * P::CHANNEL_COUNT as usize;
    b.as_raw()[..n].iter().map(|v| v.f()).collect()
}

/// Compare a converted image with the per-pixel model.
fn cmp(c: &mut Case, what: &str, src: &[f64], sch: usize, sd: D, got: &[f64], dch: usize, dd: D) {
    check!(c, src.len() / sch == got.len() / dch, "size", "{what}: {} pixels became {}", src.len() / sch, got.len() / dch);
    if src.len() / sch != got.len() / dch {
        return;
    }
    let mut bad = 0;
    for (i, (s, g)) in src.chunks(sch).zip(got.chunks(dch)).enumerate() {
        let want = conv::convert(s, sd, dch, dd);
        if !want.iter().zip(g).all(|(w, g)| w.has(*g)) {
            c.fail(&format!("value:{sch}{sd:?}->{dch}{dd:?}"), format!("{what}: pixel {i} {s:?} ({sd:?}) -> {g:?} ({dd:?}), want {want:?}"));
            bad += 1;
            if bad > 2 {
                return;
            }
        }
    }
    c.count("pixels compared", (src.len() / sch) as u64);
}

fn geom<P: Pixel>(c: &mut Case, b: &ImageBuffer<P, Vec<P::Subpixel>>, w: u32, h: u32, what: &str) {
    check!(c, b.dimensions() == (w, h), "dimensions", "{what}: {:?} instead of {w}x{h}", b.dimensions());
}

macro_rules! all_targets {
    ($c:expr, $b:expr, $src:expr, $sch:expr, $sd:expr, $what:expr; $($p:ty, $t:ty);*) => {$(
        {
            let r: ImageBuffer<$p, Vec<$t>> = $b.convert();
            let what = format!("{} convert to {}", $what, stringify!($p));
            geom($c, &r, $b.width(), $b.height(), &what);
            cmp($c, &what, $src, $sch, $sd, &raw(&r), <$p as Pixel>::CHANNEL_COUNT as usize, <$t as Dep>::D);
        }
    )*};
}

macro_rules! buffers {
    ($($name:ident $p:ty, $t:ty);*) => {$(
        fn $name(c: &mut Case) {
            let (w, h) = size(c);
            let mut v = content::<$p>(c, w, h);
            let n = v.len();
            // spare samples after the image must not matter
            if c.rng.chance(1, 4) { for _ in 0..c.rng.below(7) { v.push(<$t>::arb(&mut c.rng)); } }
            let b: gen::Buf<$p> = ImageBuffer::from_raw(w, h, v).unwrap();
            let _ = n;
            let src = raw(&b);
            c.eval(mix(vh::hash_bytes(stringify!($p).as_bytes()) ^ mix(c.idx)) | 1);
            c.sample(|| format!("{} {w}x{h} to 12 pixel types", stringify!($p)));
            all_targets!(c, b, &src, <$p as Pixel>::CHANNEL_COUNT as usize, <$t as Dep>::D, stringify!($p);
                Luma<u8>, u8; LumaA<u8>, u8; Rgb<u8>, u8; Rgba<u8>, u8;
                Luma<u16>, u16; LumaA<u16>, u16; Rgb<u16>, u16; Rgba<u16>, u16;
                Luma<f32>, f32; LumaA<f32>, f32; Rgb<f32>, f32; Rgba<f32>, f32);
            // borrowed container
            let s: ImageBuffer<$p, &[$t]> = ImageBuffer::from_raw(w, h, &b.as_raw()[..]).unwrap();
            all_targets!(c, s, &src, <$p as Pixel>::CHANNEL_COUNT as usize, <$t as Dep>::D, "borrowed";
                Rgba<u8>, u8; Luma<u16>, u16);
            // per pixel conversions in the same depth
            let (sch, sd) = (<$p as Pixel>::CHANNEL_COUNT as usize, <$t as Dep>::D);
            let f = |p: &[$t]| p.iter().map(|v| v.f()).collect::<Vec<f64>>();
            for p in b.pixels().take(40) {
                let s = f(p.channels());
                cmp(c, "to_luma", &s, sch, sd, &f(p.to_luma().channels()), 1, sd);
                cmp(c, "to_luma_alpha", &s, sch, sd, &f(p.to_luma_alpha().channels()), 2, sd);
                cmp(c, "to_rgb", &s, sch, sd, &f(p.to_rgb().channels()), 3, sd);
                cmp(c, "to_rgba", &s, sch, sd, &f(p.to_rgba().channels()), 4, sd);
            }
        }
    )*};
}
buffers!(
    l8 Luma<u8>, u8; la8 LumaA<u8>, u8; rgb8 Rgb<u8>, u8; rgba8 Rgba<u8>, u8;
    l16 Luma<u16>, u16; la16 LumaA<u16>, u16; rgb16 Rgb<u16>, u16; rgba16 Rgba<u16>, u16;
    lf Luma<f32>, f32; laf LumaA<f32>, f32; rgbf Rgb<f32>, f32; rgbaf Rgba<f32>, f32
);

fn size(c: &mut Case) -> (u32, u32) {
    if let Some(d) = c.rng.long(150) {
        return d;
    }
    if c.rng.chance(1, 40) {
        return (c.rng.r32(0, 2), c.rng.r32(0, 2));
    }
    (c.rng.size(30), c.rng.size(30))
}

/// float content reaches outside the nominal range
fn content<P: Pixel>(c: &mut Case, w: u32, h: u32) -> Vec<P::Subpixel>
where
    P::Subpixel: Samp,
{
    let mut v = gen::image::<P>(&mut c.rng, w, h).into_raw();
    if !P::Subpixel::INT {
        for s in v.iter_mut() {
            let r = match c.rng.below(10) {
                0 => -c.rng.f64() * 2.0,
                1 => 1.0 + c.rng.f64() * 3.0,
                // around the rounding boundaries of 8 and 16 bit
                2 | 3 => (c.rng.below(256) as f64 + 0.5) / 255.0 + (c.rng.f64() - 0.5) * 1e-4,
                4 | 5 => (c.rng.below(65536) as f64 + 0.5) / 65535.0 + (c.rng.f64() - 0.5) * 1e-6,
                6 => *c.rng.pick(&[0.0, 1.0, -0.0, 1.0000001, 0.99999994, 1e-30, 1e30, -1e30]),
                _ => continue,
            };
            *s = num_traits::NumCast::from(r).unwrap();
        }
    }
    v
}

/// every sample value of the integer depths, dense floats
fn scalars(c: &mut Case) {
    match c.idx {
        0 => {
            let b = ImageBuffer::<Luma<u8>, _>::from_raw(256, 1, (0..=255u8).collect::<Vec<_>>()).unwrap();
            let w: ImageBuffer<Luma<u16>, Vec<u16>> = b.convert();
            let f: ImageBuffer<Luma<f32>, Vec<f32>> = b.convert();
            let wf: ImageBuffer<Luma<f32>, Vec<f32>> = w.convert();
            let b1: ImageBuffer<Luma<u8>, Vec<u8>> = w.convert();
            let b2: ImageBuffer<Luma<u8>, Vec<u8>> = f.convert();
            let b3: ImageBuffer<Luma<u8>, Vec<u8>> = wf.convert();
            cmp(c, "u8->u16", &raw(&b), 1, D::U8, &raw(&w), 1, D::U16);
            cmp(c, "u8->f32", &raw(&b), 1, D::U8, &raw(&f), 1, D::F32);
            for (n, r) in [("u16", b1), ("f32", b2), ("u16-f32", b3)] {
                check!(c, r == b, "roundtrip", "u8 -> {n} -> u8 is not the identity");
            }
            let m = f.as_raw();
            check!(c, m[0] == 0.0 && m[255] == 1.0 && m.windows(2).all(|p| p[0] < p[1]), "u8-f32-ends", "ends or order of u8 -> f32");
        }
        1 => {
            let b = ImageBuffer::<Luma<u16>, _>::from_raw(256, 256, (0..=65535u16).collect::<Vec<_>>()).unwrap();
            let n: ImageBuffer<Luma<u8>, Vec<u8>> = b.convert();
            let f: ImageBuffer<Luma<f32>, Vec<f32>> = b.convert();
            let b2: ImageBuffer<Luma<u16>, Vec<u16>> = f.convert();
            cmp(c, "u16->u8", &raw(&b), 1, D::U16, &raw(&n), 1, D::U8);
            cmp(c, "u16->f32", &raw(&b), 1, D::U16, &raw(&f), 1, D::F32);
            check!(c, b2 == b, "roundtrip", "u16 -> f32 -> u16 is not the identity");
            let m = f.as_raw();
            check!(c, m[0] == 0.0 && m[65535] == 1.0 && m.windows(2).all(|p| p[0] < p[1]), "u16-f32-ends", "ends or order of u16 -> f32");
        }
        2 => {
            // special floats
            let v = vec![0.0, -0.0, 1.0, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, 1e-45, f32::MAX, f32::MIN, f32::EPSILON, 1.0 + f32::EPSILON, 1.0 - f32::EPSILON / 2.0, -1e-45];
            let b = ImageBuffer::<Luma<f32>, _>::from_raw(v.len() as u32, 1, v).unwrap();
            let r: ImageBuffer<Luma<u8>, Vec<u8>> = b.convert();
            cmp(c, "f32->u8", &raw(&b), 1, D::F32, &raw(&r), 1, D::U8);
            let r: ImageBuffer<Rgba<u16>, Vec<u16>> = b.convert();
            cmp(c, "f32->u16", &raw(&b), 1, D::F32, &raw(&r), 4, D::U16);
            // not-a-number: some value, never a panic
            let b = ImageBuffer::<Rgba<f32>, _>::from_raw(1, 1, vec![f32::NAN; 4]).unwrap();
            let r = catch(|| {
                let a: image::RgbaImage = b.convert();
                let d = DynamicImage::from(b.clone());
                (a, d.to_luma16(), d.to_luma8(), d.grayscale(), d.get_pixel(0, 0))
            });
            check!(c, r.is_ok(), "nan-panic", "converting NaN panics: {:?}", r.err());
        }
        _ => {
            // floats just around every rounding boundary of one block of values
            let k = c.idx - 3;
            let mut v: Vec<f32> = vec![];
            for i in 0..256u64 {
                let q = (k * 256 + i) % 65536;
                let h = ((q as f64 + 0.5) / 65535.0) as f32;
                let mut x = f32::from_bits(h.to_bits() - 8);
                for _ in 0..16 {
                    v.push(x);
                    x = f32::from_bits(x.to_bits() + 1);
                }
                let h = ((i as f64 + 0.5) / 255.0) as f32;
                v.push(f32::from_bits(h.to_bits() - 1 - (k % 5) as u32));
                v.push(f32::from_bits(h.to_bits() + 1 + (k % 5) as u32));
            }
            let b = ImageBuffer::<Luma<f32>, _>::from_raw(v.len() as u32, 1, v).unwrap();
            let r: ImageBuffer<Luma<u16>, Vec<u16>> = b.convert();
            cmp(c, "f32->u16", &raw(&b), 1, D::F32, &raw(&r), 1, D::U16);
            let r: ImageBuffer<Luma<u8>, Vec<u8>> = b.convert();
            cmp(c, "f32->u8", &raw(&b), 1, D::F32, &raw(&r), 1, D::U8);
        }
    }
    c.eval(c.idx + 1);
}

/// all (g, b) for one red value
fn luma_plane(c: &mut Case) {
    let r = (c.idx % 256) as u8;
    let step = if c.thorough() { 1 } else { 3 };
    let mut v = vec![];
    for g in (0..=255u8).step_by(step) {
        for b in (0..=255u8).step_by(step) {
            v.extend([r, g, b]);
        }
    }
    let n = v.len() as u32 / 3;
    let src = ImageBuffer::<Rgb<u8>, _>::from_raw(n, 1, v).unwrap();
    let l: ImageBuffer<Luma<u8>, Vec<u8>> = src.convert();
    cmp(c, "luma plane", &raw(&src), 3, D::U8, &raw(&l), 1, D::U8);
    c.eval(c.idx + 1);
}

macro_rules! dyn_to {
    ($c:expr, $d:expr, $src:expr, $sch:expr, $sd:expr; $($to:ident $ch:expr, $t:ty);*) => {$(
        {
            let r = $d.$to();
            geom($c, &r, $d.width(), $d.height(), stringify!($to));
            cmp($c, &format!("{:?}.{}", $d.color(), stringify!($to)), $src, $sch, $sd, &raw(&r), $ch, <$t as Dep>::D);
        }
    )*};
}
macro_rules! dyn_into {
    ($c:expr, $d:expr, $src:expr, $sch:expr, $sd:expr; $($to:ident $from:ty, $ch:expr, $t:ty);*) => {$(
        {
            let what = format!("{:?}.{}", $d.color(), stringify!($to));
            let r = $d.clone().$to();
            geom($c, &r, $d.width(), $d.height(), &what);
            cmp($c, &what, $src, $sch, $sd, &raw(&r), $ch, <$t as Dep>::D);
            let r2 = <ImageBuffer<$from, Vec<$t>>>::from($d.clone());
            geom($c, &r2, $d.width(), $d.height(), &what);
            cmp($c, "From<DynamicImage>", $src, $sch, $sd, &raw(&r2), $ch, <$t as Dep>::D);
        }
    )*};
}

fn dynamic(c: &mut Case) {
    let (w, h) = size(c);
    let ct = gen::COLORS[(c.idx % 10) as usize];
    let d = match ct {
        image::ColorType::Rgb32F => gen::Buf::<Rgb<f32>>::from_raw(w, h, content::<Rgb<f32>>(c, w, h)).unwrap().into(),
        image::ColorType::Rgba32F => gen::Buf::<Rgba<f32>>::from_raw(w, h, content::<Rgba<f32>>(c, w, h)).unwrap().into(),
        _ => gen::dynamic(&mut c.rng, ct, w, h),
    };
    let src = conv::samples(&d);
    let (sch, sd) = (ct.channel_count() as usize, conv::depth_of(ct));
    c.eval(mix(c.idx ^ 0x55) | 1);
    dyn_to!(c, d, &src, sch, sd;
        to_luma8 1, u8; to_luma_alpha8 2, u8; to_rgb8 3, u8; to_rgba8 4, u8;
        to_luma16 1, u16; to_luma_alpha16 2, u16; to_rgb16 3, u16; to_rgba16 4, u16;
        to_luma32f 1, f32; to_luma_alpha32f 2, f32; to_rgb32f 3, f32; to_rgba32f 4, f32);
    dyn_into!(c, d, &src, sch, sd;
        into_luma8 Luma<u8>, 1, u8; into_luma_alpha8 LumaA<u8>, 2, u8; into_rgb8 Rgb<u8>, 3, u8; into_rgba8 Rgba<u8>, 4, u8;
        into_luma16 Luma<u16>, 1, u16; into_luma_alpha16 LumaA<u16>, 2, u16; into_rgb16 Rgb<u16>, 3, u16; into_rgba16 Rgba<u16>, 4, u16;
        into_rgba32f Rgba<f32>, 4, f32);
    let r = d.clone().into_rgb32f();
    cmp(c, "into_rgb32f", &src, sch, sd, &raw(&r), 3, D::F32);
    // gray floats become colour floats
    let g = d.to_luma32f();
    let gd = DynamicImage::from(g.clone());
    check!(c, gd.color() == image::ColorType::Rgb32F, "gray-float", "Luma f32 became {:?}", gd.color());
    cmp(c, "From<Luma f32>", &raw(&g), 1, D::F32, &conv::samples(&gd), 3, D::F32);
    let g = d.to_luma_alpha32f();
    let gd = DynamicImage::from(g.clone());
    check!(c, gd.color() == image::ColorType::Rgba32F, "gray-float", "LumaA f32 became {:?}", gd.color());
    cmp(c, "From<LumaA f32>", &raw(&g), 2, D::F32, &conv::samples(&gd), 4, D::F32);
    // pixel access of the dynamic image converts each pixel
    if w > 0 && h > 0 {
        for _ in 0..8 {
            let (x, y) = (c.rng.r32(0, w - 1), c.rng.r32(0, h - 1));
            let o = (y as usize * w as usize + x as usize) * sch;
            let p = d.get_pixel(x, y);
            let g: Vec<f64> = p.0.iter().map(|v| *v as f64).collect();
            cmp(c, "get_pixel", &src[o..o + sch], sch, sd, &g, 4, D::U8);
            let mut e = d.clone();
            let q = Rgba(c.rng.u32().to_le_bytes());
            e.put_pixel(x, y, q);
            let es = conv::samples(&e);
            let qs: Vec<f64> = q.0.iter().map(|v| *v as f64).collect();
            cmp(c, "put_pixel", &qs, 4, D::U8, &es[o..o + sch], sch, sd);
            check!(c, es[..o] == src[..o] && es[o + sch..] == src[o + sch..], "put_pixel-others", "put_pixel changed other pixels");
        }
    }
}

fn palette(c: &mut Case) {
    let (w, h) = size(c);
    let n = 1 + c.rng.below(256) as usize;
    let pal: Vec<(u8, u8, u8)> = (0..n).map(|_| (c.rng.u8(), c.rng.u8(), c.rng.u8())).collect();
    let idx: Vec<u8> = (0..w as usize * h as usize).map(|_| c.rng.below(n as u64) as u8).collect();
    let t = if c.rng.bool() { Some(c.rng.u8()) } else { None };
    let g = image::GrayImage::from_raw(w, h, idx.clone()).unwrap();
    let r = g.expand_palette(&pal, t);
    geom(c, &r, w, h, "expand_palette");
    c.eval(mix(c.idx ^ 0x99) | 1);
    for (i, (p, k)) in r.pixels().zip(&idx).enumerate() {
        let e = pal[*k as usize];
        let want = Rgba([e.0, e.1, e.2, if Some(*k) == t { 0 } else { 255 }]);
        check!(c, *p == want, "expand_palette", "pixel {i}: index {k} -> {p:?}, want {want:?}");
    }
    c.count("palette pixels", idx.len() as u64);
}

pub fn run(ctx: &Ctx) {
    ctx.rule("distinct = images converted (each to 12 typed or 12 dynamic targets); every destination sample compared with an independent model; all u8 and u16 sample values and all luma inputs on a grid are enumerated");
    ctx.assume("luma of integer samples is the Rec.709 weighted mean (2126, 7152, 722)/10000 rounded down, as the unchanged code and its documentation define it; NaN floats only have to convert without panicking");
    ctx.section("scalars", 3 + 64, 3 + 256, scalars);
    ctx.section("luma", 256, 256, luma_plane);
    macro_rules! go { ($($n:ident),*) => {$( ctx.section(concat!("buffer-", stringify!($n)), 120, 3000, $n); )*} }
    go!(l8, la8, rgb8, rgba8, l16, la16, rgb16, rgba16, lf, laf, rgbf, rgbaf);
    ctx.section("dynamic", 1500, 40_000, dynamic);
    ctx.section("palette", 400, 8000, palette);
    ctx.require("pixels compared", 1_000_000);
}
