//! B05: colour adjustments are exact per pixel and equal in copy and in-place form.
use image::imageops::{self, BiLevel, ColorMap};
use image::{DynamicImage, GenericImage, GenericImageView, ImageBuffer, Luma, LumaA, Pixel, Rgb, Rgba};
use std::cell::RefCell;
use vh::gen::{self, Buf, Samp};
use vh::model::{Grid, Plain};
use vh::{check, mix, Case, Ctx};

vh::property_main!("B05");

fn key(a: &[u64]) -> u64 {
    a.iter().fold(23, |h, v| mix(h ^ v)) | 1
}
fn dims(c: &mut Case) -> (u32, u32) {
    if let Some(d) = c.rng.long(400) {
        return d;
    }
    match c.rng.below(10) {
        0 => (c.rng.r32(0, 2), c.rng.r32(0, 2)),
        1 => (c.rng.r32(1, 60), c.rng.r32(0, 2)),
        2 => (c.rng.r32(0, 2), c.rng.r32(1, 60)),
        _ => (c.rng.r32(1, 14), c.rng.r32(1, 14)),
    }
}

fn compare<P: Pixel + std::fmt::Debug>(c: &mut Case, sig: &str, what: &str, src: &Grid<P>, got: &Grid<P>, eps: f64, f: impl Fn(&[f64]) -> Vec<f64>)
where
    P::Subpixel: Samp,
{
    type S<P> = <P as Pixel>::Subpixel;
    c.count("pixels adjusted", src.px.len() as u64);
    if (src.w, src.h) != (got.w, got.h) {
        c.fail(&format!("{sig}-dims"), format!("{what}: {}x{} became {}x{}", src.w, src.h, got.w, got.h));
        return;
    }
    for (p, q) in src.px.iter().zip(&got.px) {
        let v: Vec<f64> = p.channels().iter().map(|s| s.f()).collect();
        let want = f(&v);
        let n = v.len();
        for ch in 0..n {
            let g = q.channels()[ch].f();
            let alpha = (n == 2 || n == 4) && ch == n - 1;
            if alpha {
                if q.channels()[ch].bits() != p.channels()[ch].bits() {
                    c.fail(&format!("{sig}-alpha"), format!("{what}: {p:?} became {q:?}"));
                    return;
                }
                continue;
            }
            let w = want[ch].clamp(0.0, S::<P>::MAXV);
            let t = if S::<P>::INT { 0.5 + eps } else { eps };
            if !((g - w).abs() <= t) {
                c.fail(&format!("{sig}-value"), format!("{what}: {p:?} became {q:?}, channel {ch} should be {w}"));
                return;
            }
        }
    }
}

fn hue_matrix(deg: f64) -> [f64; 9] {
    let (s, k) = deg.to_radians().sin_cos();
    [
        0.213 + k * 0.787 - s * 0.213,
        0.715 - k * 0.715 - s * 0.715,
        0.072 - k * 0.072 + s * 0.928,
        0.213 - k * 0.213 + s * 0.143,
        0.715 + k * 0.285 + s * 0.140,
        0.072 - k * 0.072 - s * 0.283,
        0.213 - k * 0.213 - s * 0.787,
        0.715 - k * 0.715 + s * 0.715,
        0.072 + k * 0.928 + s * 0.072,
    ]
}

fn adjust<P: Pixel + std::fmt::Debug + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    type S<P> = <P as Pixel>::Subpixel;
    if <S<P> as image::Primitive>::DEFAULT_MIN_VALUE.f() < 0.0 {
        return;
    }
    let maxv = S::<P>::MAXV;
    let (w, h) = dims(c);
    let img = gen::image::<P>(&mut c.rng, w, h);
    let g = Grid::of(&img);
    let kind = format!("{w}x{h} {}x{}", P::CHANNEL_COUNT, S::<P>::NAME);
    c.sample(|| kind.clone());
    let tiny = maxv * 1e-9 + if S::<P>::INT { 1e-6 } else { 1e-6 };
    macro_rules! forms {
        ($sig:literal, $what:expr, $copy:expr, $place:expr, $eps:expr, $f:expr) => {{
            let what = $what;
            c.eval(key(&[w as u64, h as u64, vh::hash_str(&what), vh::hash_str(&kind)]));
            c.count(concat!($sig, " parameters"), 1);
            let a: Buf<P> = $copy(&img);
            let ga = Grid::of(&a);
            compare(c, $sig, &format!("{what} of {kind}"), &g, &ga, $eps, $f);
            let p: Buf<P> = $copy(&Plain(g.clone()));
            if let Some(d) = Grid::of(&p).diff(&ga) {
                c.fail(concat!($sig, "-plain"), format!("{what} of {kind}: {d}"));
            }
            let mut b = img.clone();
            $place(&mut b);
            if let Some(d) = Grid::of(&b).diff(&ga) {
                c.fail(concat!($sig, "-in-place"), format!("{what} of {kind}: {d}"));
            }
            let mut b = Plain(g.clone());
            $place(&mut b);
            if let Some(d) = b.0.diff(&ga) {
                c.fail(concat!($sig, "-in-place-plain"), format!("{what} of {kind}: {d}"));
            }
            // inside a rectangle only
            if w > 1 && h > 1 {
                let (x, y) = (c.rng.r32(0, w - 1), c.rng.r32(0, h - 1));
                let (sw, sh) = (c.rng.r32(0, w - x), c.rng.r32(0, h - y));
                let mut b = img.clone();
                $place(&mut *b.sub_image(x, y, sw, sh));
                let want = Grid::from_fn(w, h, |i, j| if i >= x && j >= y && i < x + sw && j < y + sh { ga.get(i, j) } else { g.get(i, j) });
                if let Some(d) = Grid::of(&b).diff(&want) {
                    c.fail(concat!($sig, "-in-place-sub"), format!("{what} of {kind} in {x},{y},{sw},{sh}: {d}"));
                }
            }
        }};
    }
    // brighten
    let v = match c.rng.below(6) {
        0 => *c.rng.pick(&[0, i32::MAX, i32::MIN, 1, -1, i32::MAX - 1]),
        1 => c.rng.u32() as i32,
        2 => c.rng.irange(-70_000, 70_000) as i32,
        _ => c.rng.irange(-300, 300) as i32,
    };
    forms!("brighten", format!("brighten {v}"), |i: &_| bright(i, v), |i: &mut _| place::bright(i, v), tiny, |s: &[f64]| s.iter().map(|x| x + v as f64).collect());
    // contrast
    let k = match c.rng.below(6) {
        0 => *c.rng.pick(&[0.0f32, 100.0, -100.0, -200.0, 1e-3, 50.0]),
        1 => c.rng.f32() * 1e6,
        2 => -c.rng.f32() * 1e4,
        _ => c.rng.f32() * 300.0 - 150.0,
    };
    let pc = ((100.0 + k as f64) / 100.0).powi(2);
    let eps = maxv * (pc + 1.0) * 5e-7;
    forms!("contrast", format!("contrast {k}"), |i: &_| contr(i, k), |i: &mut _| place::contr(i, k), eps, |s: &[f64]| s
        .iter()
        .map(|x| ((x / maxv - 0.5) * pc + 0.5) * maxv)
        .collect());
    // hue
    let d = match c.rng.below(5) {
        0 => *c.rng.pick(&[0, 360, -360, 720, 90, 180, 270, -90, 45]),
        1 => c.rng.irange(-100_000, 100_000) as i32,
        _ => c.rng.irange(-400, 400) as i32,
    };
    let m = hue_matrix(d as f64);
    let eps = maxv * 1e-6;
    forms!("huerotate", format!("huerotate {d}"), |i: &_| hue(i, d), |i: &mut _| place::hue(i, d), eps, |s: &[f64]| if s.len() < 3 {
        s.to_vec()
    } else {
        let mut o = s.to_vec();
        for r in 0..3 {
            o[r] = m[3 * r] * s[0] + m[3 * r + 1] * s[1] + m[3 * r + 2] * s[2];
        }
        o
    });
    if d % 360 == 0 && S::<P>::MAXV < 70000.0 && S::<P>::INT {
        let o: Buf<P> = hue(&img, d);
        if let Some(e) = Grid::of(&o).diff(&g) {
            c.fail("huerotate-full-turn", format!("huerotate {d} of {kind}: {e}"));
        }
    }
    // invert, in place only
    let mut b = img.clone();
    imageops::invert(&mut b);
    c.eval(key(&[w as u64, h as u64, 9, vh::hash_str(&kind)]));
    compare(c, "invert", &format!("invert of {kind}"), &g, &Grid::of(&b), if S::<P>::INT { -0.5 } else { 1e-6 }, |s| s.iter().map(|x| maxv - x).collect());
    // grayscale
    let gray = imageops::grayscale(&img);
    let graya = imageops::grayscale_alpha(&img);
    c.eval(key(&[w as u64, h as u64, 10, vh::hash_str(&kind)]));
    check!(c, gray.dimensions() == (w, h) && graya.dimensions() == (w, h), "grayscale-dims", "grayscale of {kind}: {:?} {:?}", gray.dimensions(), graya.dimensions());
    if gray.dimensions() != (w, h) || graya.dimensions() != (w, h) {
        return;
    }
    for y in 0..h {
        for x in 0..w {
            let p = g.get(x, y);
            let s: Vec<f64> = p.channels().iter().map(|v| v.f()).collect();
            let l = if s.len() < 3 { s[0] } else { 0.2126 * s[0] + 0.7152 * s[1] + 0.0722 * s[2] };
            let (a, b) = (gray.get_pixel(x, y), graya.get_pixel(x, y));
            let t = if s.len() < 3 { 0.0 } else if S::<P>::INT { 1.0 + maxv * 1e-9 } else { 1e-6 };
            check!(c, (a.0[0].f() - l).abs() <= t && a.0[0].bits() == b.0[0].bits(), "grayscale-value", "grayscale of {kind}: {p:?} became {a:?} and {b:?}, luma {l}");
            let want = if s.len() % 2 == 0 { p.channels()[s.len() - 1].f() } else { maxv };
            let alpha = b.0[1].f();
            check!(c, (alpha - want).abs() <= if S::<P>::MAXV > 1e10 { 1e4 } else { 0.0 }, "grayscale-alpha", "grayscale_alpha of {kind}: {p:?} became {b:?}");
        }
    }
}
fn bright<I: GenericImageView>(i: &I, v: i32) -> Buf<I::Pixel>
where
    I::Pixel: 'static,
    <I::Pixel as Pixel>::Subpixel: 'static,
{
    imageops::colorops::brighten(i, v)
}
fn contr<I: GenericImageView>(i: &I, v: f32) -> Buf<I::Pixel>
where
    I::Pixel: 'static,
    <I::Pixel as Pixel>::Subpixel: 'static,
{
    imageops::colorops::contrast(i, v)
}
fn hue<I: GenericImageView>(i: &I, v: i32) -> Buf<I::Pixel>
where
    I::Pixel: 'static,
    <I::Pixel as Pixel>::Subpixel: 'static,
{
    imageops::colorops::huerotate(i, v)
}
mod place {
    use super::*;
    pub fn bright<I: GenericImage>(i: &mut I, v: i32) {
        imageops::colorops::brighten_in_place(i, v)
    }
    pub fn contr<I: GenericImage>(i: &mut I, v: f32) {
        imageops::colorops::contrast_in_place(i, v)
    }
    pub fn hue<I: GenericImage>(i: &mut I, v: i32) {
        imageops::colorops::huerotate_in_place(i, v)
    }
}

/// The dynamic image applies the same adjustments to the buffer it holds.
fn dynamic(c: &mut Case) {
    let (w, h) = dims(c);
    let col = *c.rng.pick(&gen::COLORS);
    let img = gen::dynamic(&mut c.rng, col, w, h);
    let (v, k, d) = (c.rng.irange(-300, 300) as i32, c.rng.f32() * 200.0 - 100.0, c.rng.irange(-400, 400) as i32);
    macro_rules! each {
        ($($v:ident),*) => {
            match &img {
                $(DynamicImage::$v(b) => vec![
                    ("brighten", img.brighten(v), DynamicImage::$v(imageops::colorops::brighten(b, v))),
                    ("contrast", img.adjust_contrast(k), DynamicImage::$v(imageops::colorops::contrast(b, k))),
                    ("huerotate", img.huerotate(d), DynamicImage::$v(imageops::colorops::huerotate(b, d))),
                    ("invert", { let mut i = img.clone(); i.invert(); i }, { let mut b = b.clone(); imageops::invert(&mut b); DynamicImage::$v(b) }),
                ],)*
                _ => vec![],
            }
        };
    }
    for (n, a, b) in each!(ImageLuma8, ImageLumaA8, ImageRgb8, ImageRgba8, ImageLuma16, ImageLumaA16, ImageRgb16, ImageRgba16, ImageRgb32F, ImageRgba32F) {
        c.eval(key(&[w as u64, h as u64, col as u64, vh::hash_str(n)]));
        check!(c, a == b && a.color() == col, "dynamic-form", "{n} of {w}x{h} {col:?} differs from the typed form");
    }
}

// ---- palettes -------------------------------------------------------------

struct Pal<P>(Vec<P>);
fn dist<P: Pixel<Subpixel = u8>>(a: &P, b: &P) -> i32 {
    a.channels().iter().zip(b.channels()).map(|(x, y)| (*x as i32 - *y as i32).pow(2)).sum()
}
impl<P: Pixel<Subpixel = u8>> ColorMap for Pal<P> {
    type Color = P;
    fn index_of(&self, color: &P) -> usize {
        (0..self.0.len()).min_by_key(|i| dist(&self.0[*i], color)).unwrap()
    }
    fn lookup(&self, i: usize) -> Option<P> {
        self.0.get(i).copied()
    }
    fn has_lookup(&self) -> bool {
        true
    }
    fn map_color(&self, color: &mut P) {
        *color = self.0[self.index_of(color)];
    }
}
/// Records every colour the dithering asks for.
struct Rec<'a, M: ColorMap>(&'a M, RefCell<Vec<(M::Color, M::Color)>>);
impl<M: ColorMap> ColorMap for Rec<'_, M>
where
    M::Color: Copy,
{
    type Color = M::Color;
    fn index_of(&self, color: &M::Color) -> usize {
        self.0.index_of(color)
    }
    fn map_color(&self, color: &mut M::Color) {
        let before = *color;
        self.0.map_color(color);
        self.1.borrow_mut().push((before, *color));
    }
}

fn dither_with<P, M>(c: &mut Case, map: &M, what: &str)
where
    P: Pixel<Subpixel = u8> + std::fmt::Debug + 'static,
    M: ColorMap<Color = P>,
{
    let (w, h) = dims(c);
    let img = gen::image::<P>(&mut c.rng, w, h);
    let g = Grid::of(&img);
    let n = P::CHANNEL_COUNT as usize;
    let diffused = n.min(3);
    let rec = Rec(map, RefCell::new(vec![]));
    let mut out = img.clone();
    imageops::dither(&mut out, &rec);
    let calls = rec.1.into_inner();
    let o = Grid::of(&out);
    c.eval(key(&[w as u64, h as u64, n as u64, vh::hash_str(what)]));
    c.count("dithered images", 1);
    let what = format!("dither {w}x{h} with {what}");
    // only palette colours
    for p in &o.px {
        let mut q = *p;
        map.map_color(&mut q);
        if gen::bits_of(&q) != gen::bits_of(p) {
            c.fail("dither-palette", format!("{what}: {p:?} is not a palette colour"));
            return;
        }
    }
    // deterministic, and the recording changed nothing
    let mut again = img.clone();
    imageops::dither(&mut again, map);
    check!(c, Grid::of(&again).diff(&o).is_none(), "dither-repeat", "{what}: a second run differs");
    // error diffusion, checked on the colours handed to the map in scan order
    if calls.len() == g.px.len() {
        for y in 0..h {
            for x in 0..w {
                let at = |x: i64, y: i64| -> Option<&(P, P)> {
                    (x >= 0 && y >= 0 && x < w as i64).then(|| &calls[(y * w as i64 + x) as usize])
                };
                let (x, y) = (x as i64, y as i64);
                let (input, mapped) = at(x, y).unwrap();
                check!(c, gen::bits_of(mapped) == gen::bits_of(&o.get(x as u32, y as u32)), "dither-result", "{what}: ({x},{y}) mapped to {mapped:?} but is {:?}", o.get(x as u32, y as u32));
                for ch in 0..n {
                    let start = g.get(x as u32, y as u32).channels()[ch] as f64;
                    let (mut lo, mut hi) = (start, start);
                    if ch < diffused {
                        // contributions in the order they arrive
                        for (dx, dy, f) in [(-1, -1, 1.0), (0, -1, 5.0), (1, -1, 3.0), (-1, 0, 7.0)] {
                            if let Some((a, b)) = at(x + dx, y + dy) {
                                let e = (a.channels()[ch] as f64 - b.channels()[ch] as f64) * f / 16.0;
                                lo = (lo + e.floor()).clamp(0.0, 255.0);
                                hi = (hi + e.ceil()).clamp(0.0, 255.0);
                            }
                        }
                        c.count("diffused samples checked", 1);
                    }
                    let v = input.channels()[ch] as f64;
                    if !(v >= lo && v <= hi) {
                        c.fail("dither-weights", format!("{what}: ({x},{y}) channel {ch} was {v} before mapping; the neighbours' errors give {lo}..{hi}"));
                        return;
                    }
                }
            }
        }
    } else {
        c.fail("dither-calls", format!("{what}: the map was asked {} times for {} pixels", calls.len(), g.px.len()));
        return;
    }
    // an image in the palette stays
    let mut again = out.clone();
    imageops::dither(&mut again, map);
    if let Some(d) = Grid::of(&again).diff(&o) {
        c.fail("dither-fixpoint", format!("{what}: an image in the palette changed: {d}"));
    }
    // indices
    let idx = imageops::index_colors(&img, map);
    check!(c, idx.dimensions() == (w, h), "index-dims", "{what}: index image {:?}", idx.dimensions());
    for (p, i) in g.px.iter().zip(idx.pixels()) {
        let mut q = *p;
        map.map_color(&mut q);
        c.count("indices checked", 1);
        check!(c, i.0[0] as usize == map.index_of(p), "index-value", "{what}: {p:?} got index {}", i.0[0]);
        if let Some(l) = map.lookup(i.0[0] as usize) {
            check!(c, gen::bits_of(&l) == gen::bits_of(&q), "index-agrees", "{what}: {p:?} index {} is {l:?}, mapped colour {q:?}", i.0[0]);
        } else {
            check!(c, !map.has_lookup(), "index-range", "{what}: {p:?} index {} has no colour", i.0[0]);
        }
    }
}

fn bilevel(c: &mut Case) {
    for v in 0..=255u8 {
        let (p, i) = (Luma([v]), BiLevel.index_of(&Luma([v])));
        let mut q = p;
        BiLevel.map_color(&mut q);
        c.eval(v as u64 + 5000);
        let near = if v as i32 <= 255 - v as i32 { 0u8 } else { 255 };
        check!(c, q.0[0] == near, "bilevel-nearest", "{v} mapped to {q:?}");
        check!(c, BiLevel.lookup(i) == Some(q), "bilevel-agrees", "{v}: index {i}, mapped {q:?}");
    }
    check!(c, BiLevel.has_lookup() && BiLevel.lookup(2).is_none() && BiLevel.lookup(usize::MAX).is_none(), "bilevel-range", "lookup out of range");
}

fn palette(c: &mut Case) {
    fn pal<P: Pixel<Subpixel = u8>>(c: &mut Case) -> Pal<P> {
        let n = *c.rng.pick(&[1usize, 2, 3, 16, 17, 200, 256]);
        Pal((0..n).map(|_| gen::pixel_edge(&mut c.rng)).collect())
    }
    match c.rng.below(7) {
        0 | 1 => dither_with::<Luma<u8>, _>(c, &BiLevel, "BiLevel"),
        2 => {
            let p = pal::<Rgb<u8>>(c);
            dither_with(c, &p, &format!("{} rgb colours", p.0.len()))
        }
        3 => {
            let p = pal::<Rgba<u8>>(c);
            dither_with(c, &p, &format!("{} rgba colours", p.0.len()))
        }
        4 => {
            let p = pal::<LumaA<u8>>(c);
            dither_with(c, &p, &format!("{} gray-alpha colours", p.0.len()))
        }
        5 => {
            let p = pal::<Luma<u8>>(c);
            dither_with(c, &p, &format!("{} grays", p.0.len()))
        }
        _ => {
            if c.rng.chance(3, 4) {
                return;
            }
            let px = gen::image::<Rgba<u8>>(&mut c.rng, 20, 20);
            let q = color_quant::NeuQuant::new(10, *c.rng.pick(&[16usize, 64, 256]), px.as_raw());
            c.count("quantiser palettes", 1);
            // the quantiser's own search decides what is nearest; it need not be idempotent
            let (w, h) = dims(c);
            let img = gen::image::<Rgba<u8>>(&mut c.rng, w, h);
            let idx = imageops::index_colors(&img, &q);
            for (p, i) in img.pixels().zip(idx.pixels()) {
                let mut m = *p;
                ColorMap::map_color(&q, &mut m);
                c.eval(key(&[i.0[0] as u64, m.0[0] as u64]));
                check!(c, ColorMap::lookup(&q, i.0[0] as usize) == Some(m) && ColorMap::index_of(&q, p) == i.0[0] as usize, "quant-agrees", "{p:?}: index {} mapped {m:?}", i.0[0]);
            }
        }
    }
}

#[allow(unused)]
fn _u(_: ImageBuffer<Luma<u8>, Vec<u8>>) {}

pub fn run(ctx: &Ctx) {
    ctx.rule("an evaluation compares every pixel of an adjusted image with the adjustment's formula in f64, or every colour handed to the palette during dithering with the error diffused from its neighbours");
    ctx.assume("samples of unsigned integer or float types; float samples within 0..1");
    ctx.section("bilevel", 1, 1, bilevel);
    ctx.section("adjust", 12_000, 400_000, |c| vh::some_pixel!(c, adjust));
    ctx.section("dynamic", 2000, 40_000, dynamic);
    ctx.section("palette", 8000, 200_000, palette);
    ctx.require("pixels adjusted", 100_000);
    ctx.require("diffused samples checked", 100_000);
    ctx.require("indices checked", 10_000);
}
