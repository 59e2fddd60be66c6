//! B04: blurs, unsharpen and 3x3 filters compute the stated convolution.
use image::{imageops, DynamicImage, GenericImageView, Pixel, Primitive};
use vh::gen::{self, Buf, Samp};
use vh::model::{Grid, Plain};
use vh::{catch, check, mix, Case, Ctx};

vh::property_main!("B04");

fn key(a: &[u64]) -> u64 {
    a.iter().fold(19, |h, v| mix(h ^ v)) | 1
}
fn dims(c: &mut Case) -> (u32, u32) {
    if let Some(d) = c.rng.long(3000) {
        return d;
    }
    match c.rng.below(12) {
        0 => (c.rng.r32(0, 3), c.rng.r32(0, 3)),
        1 => (c.rng.r32(1, 90), c.rng.r32(1, 4)),
        2 => (c.rng.r32(1, 4), c.rng.r32(1, 90)),
        _ => (c.rng.r32(1, 20), c.rng.r32(1, 20)),
    }
}
fn tight<S: Samp>() -> bool {
    S::INT && S::MAXV < 70000.0
}

/// A sigma whose window bounds are not within rounding of an integer.
fn sigma(c: &mut Case) -> f32 {
    loop {
        let s = match c.rng.below(10) {
            0 => *c.rng.pick(&[0.25f32, 0.5, 0.75, 1.0, 1.25, 2.0, 3.0]),
            1 => *c.rng.pick(&[1e-3f32, 1e-6, 1e-12, 1e-20, 1e-25, 1e-30]),
            2 => *c.rng.pick(&[1e3f32, 1e6, 1e12, 1e30]),
            3 => c.rng.f32() * 40.0,
            _ => c.rng.f32() * 6.0,
        };
        let e = 2.0 * s as f64 + 0.5;
        if (e - e.round()).abs() > 1e-3 || (s * 4.0).fract() == 0.0 {
            return s;
        }
    }
}

fn gauss(n: u32, s: f64) -> Vec<(u32, Vec<f64>)> {
    (0..n)
        .map(|o| {
            let centre = o as f64 + 0.5;
            let lo = (centre - 2.0 * s).floor().max(0.0) as u32;
            let hi = (centre + 2.0 * s).ceil().min(n as f64) as u32;
            let lo = lo.min(n - 1);
            let hi = hi.max(lo + 1);
            let mut w: Vec<f64> = (lo..hi)
                .map(|i| {
                    let d = (i as f64 - o as f64) / s;
                    (-d * d / 2.0).exp()
                })
                .collect();
            let t: f64 = w.iter().sum();
            w.iter_mut().for_each(|x| *x /= t);
            (lo, w)
        })
        .collect()
}

fn blur<P: Pixel + std::fmt::Debug + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    type S<P> = <P as Pixel>::Subpixel;
    let (w, h) = dims(c);
    let s = if w.max(h) > 500 { c.rng.f32() * 5.0 + 0.05 } else { sigma(c) };
    let constant = c.rng.chance(1, 6);
    let img = if constant { gen::image_style::<P>(&mut c.rng, w, h, gen::Style::Constant) } else { gen::image::<P>(&mut c.rng, w, h) };
    let g = Grid::of(&img);
    let what = format!("blur {s} of {w}x{h} {}x{}", P::CHANNEL_COUNT, S::<P>::NAME);
    c.sample(|| what.clone());
    let out = match c.idx % 3 {
        0 => imageops::blur(&Plain(g.clone()), s),
        1 if w > 0 && h > 0 => imageops::blur(&*img.view(0, 0, w, h), s),
        _ => imageops::blur(&img, s),
    };
    c.eval(key(&[w as u64, h as u64, s.to_bits() as u64, P::CHANNEL_COUNT as u64, vh::hash_str(S::<P>::NAME)]));
    if out.dimensions() != (w, h) {
        c.fail("blur-dims", format!("{what}: {:?}", out.dimensions()));
        return;
    }
    if w == 0 || h == 0 {
        return;
    }
    let o = Grid::of(&out);
    let (tx, ty) = (gauss(w, s as f64), gauss(h, s as f64));
    let n = P::CHANNEL_COUNT as usize;
    let (maxv, minv) = (S::<P>::DEFAULT_MAX_VALUE.f(), S::<P>::DEFAULT_MIN_VALUE.f());
    let rel = 2e-5 + w.max(h) as f64 * 2e-7;
    let t = if S::<P>::INT { 0.5 + maxv * rel } else { 4.0 * rel };
    c.count("blurred samples checked", w as u64 * h as u64 * n as u64);
    for ch in 0..n {
        let mut mid = vec![0f64; w as usize * h as usize];
        for y in 0..h {
            for x in 0..w {
                let (lo, ws) = &ty[y as usize];
                mid[(y * w + x) as usize] = ws.iter().enumerate().map(|(k, v)| v * g.get(x, lo + k as u32).channels()[ch].f()).sum();
            }
        }
        for y in 0..h {
            for x in 0..w {
                let (lo, ws) = &tx[x as usize];
                let ideal: f64 = ws.iter().enumerate().map(|(k, v)| v * mid[(y * w + lo + k as u32) as usize]).sum();
                let got = o.get(x, y).channels()[ch].f();
                if !((got - ideal.clamp(minv, maxv)).abs() <= t) {
                    c.fail("blur-value", format!("{what}: ({x},{y}) channel {ch} = {got}, gaussian average {ideal}"));
                    return;
                }
                let (ylo, yw) = &ty[y as usize];
                let (mut a, mut b) = (f64::MAX, f64::MIN);
                for j in *ylo..ylo + yw.len() as u32 {
                    for i in *lo..lo + ws.len() as u32 {
                        let v = g.get(i, j).channels()[ch].f();
                        a = a.min(v);
                        b = b.max(v);
                    }
                }
                let e = if tight::<S<P>>() { 0.0 } else { 1e-5 * maxv };
                if !(got >= a - e && got <= b + e) {
                    c.fail("blur-hull", format!("{what}: ({x},{y}) channel {ch} = {got} outside {a}..{b}"));
                    return;
                }
            }
        }
    }
}

/// Box sizes of the three-pass approximation; None when rounding decides.
fn boxes(s: f64) -> Option<[usize; 3]> {
    let w = (4.0 * s * s + 1.0).sqrt();
    if (w - w.round()).abs() < 1e-4 {
        return None;
    }
    let mut wl = w.floor();
    if wl % 2.0 == 0.0 {
        wl -= 1.0;
    }
    let m = (12.0 * s * s - 3.0 * wl * wl - 12.0 * wl - 9.0) / (-4.0 * wl - 4.0);
    if (m - m.floor() - 0.5).abs() < 1e-3 {
        return None;
    }
    let m = m.round() as usize;
    let mut b = [0; 3];
    for (i, v) in b.iter_mut().enumerate() {
        *v = if i < m { wl as usize } else { wl as usize + 2 };
    }
    Some(b)
}

fn fast<P: Pixel + std::fmt::Debug + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    type S<P> = <P as Pixel>::Subpixel;
    let (w, h) = dims(c);
    let s = match c.rng.below(8) {
        0 => c.rng.f32() * 60.0,
        1 => c.rng.f32() * 0.6,
        2 => *c.rng.pick(&[0.0f32, 1e-9, 0.1, 1.0, 2.0, 7.0, 50.0]),
        _ => c.rng.f32() * 8.0,
    };
    let constant = c.rng.chance(1, 6);
    let mut img = if constant { gen::image_style::<P>(&mut c.rng, w, h, gen::Style::Constant) } else { gen::image::<P>(&mut c.rng, w, h) };
    if c.rng.chance(1, 8) {
        // spare samples in the container belong to no pixel
        let mut v = img.into_raw();
        for _ in 0..c.rng.below(4) {
            v.push(S::<P>::arb(&mut c.rng));
        }
        img = Buf::<P>::from_raw(w, h, v).unwrap();
    }
    let g = Grid::of(&img);
    let what = format!("fast_blur {s} of {w}x{h} {}x{}", P::CHANNEL_COUNT, S::<P>::NAME);
    c.sample(|| what.clone());
    let out = imageops::fast_blur(&img, s);
    c.eval(key(&[1, w as u64, h as u64, s.to_bits() as u64, P::CHANNEL_COUNT as u64, vh::hash_str(S::<P>::NAME)]));
    if out.dimensions() != (w, h) {
        c.fail("fast-dims", format!("{what}: {:?}", out.dimensions()));
        return;
    }
    if w == 0 || h == 0 {
        return;
    }
    let o = Grid::of(&out);
    let n = P::CHANNEL_COUNT as usize;
    let maxv = S::<P>::MAXV;
    c.count("fast-blurred samples checked", w as u64 * h as u64 * n as u64);
    let bx = if s == 0.0 { Some([1; 3]) } else { boxes(s as f64) };
    for ch in 0..n {
        let src: Vec<f64> = g.px.iter().map(|p| p.channels()[ch].f()).collect();
        let (a, b) = src.iter().fold((f64::MAX, f64::MIN), |(a, b), v| (a.min(*v), b.max(*v)));
        // running sums in single precision drift with the length of the row
        let drift = 2e-9 * w.max(h) as f64;
        let e = if tight::<S<P>>() { 0.0 } else { (2e-5 + drift) * maxv };
        for (i, p) in o.px.iter().enumerate() {
            let got = p.channels()[ch].f();
            if !(got >= a - e && got <= b + e) {
                c.fail("fast-hull", format!("{what}: pixel {i} channel {ch} = {got} outside {a}..{b}"));
                return;
            }
        }
        let Some(bx) = bx else {
            c.count("box sizes undecided", 1);
            continue;
        };
        let mut v = src;
        for k in bx {
            let r = (k as i64 - 1) / 2;
            let pass = |v: &[f64], horizontal: bool| -> Vec<f64> {
                let (w, h) = (w as i64, h as i64);
                let mut out = vec![0.0; v.len()];
                for y in 0..h {
                    for x in 0..w {
                        let mut t = 0.0;
                        for d in -r..=r {
                            let (i, j) = if horizontal { ((x + d).clamp(0, w - 1), y) } else { (x, (y + d).clamp(0, h - 1)) };
                            t += v[(j * w + i) as usize];
                        }
                        out[(y * w + x) as usize] = t / (2 * r + 1) as f64;
                    }
                }
                out
            };
            v = pass(&pass(&v, true), false);
        }
        // each of the six half passes may truncate
        let signed = S::<P>::DEFAULT_MIN_VALUE.f() < 0.0;
        let eps = maxv * (1e-4 + drift) * if tight::<S<P>>() { 0.01 } else { 1.0 };
        let (below, above) = if S::<P>::INT { (6.0 + eps, if signed { 6.0 + eps } else { eps + 1e-6 }) } else { (eps, eps) };
        for (i, p) in o.px.iter().enumerate() {
            let got = p.channels()[ch].f();
            if !(got >= v[i] - below && got <= v[i] + above) {
                c.fail("fast-value", format!("{what}: pixel {i} channel {ch} = {got}, three box averages give {}", v[i]));
                return;
            }
        }
    }
}

fn sharp<P: Pixel + std::fmt::Debug + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    type S<P> = <P as Pixel>::Subpixel;
    if S::<P>::DEFAULT_MIN_VALUE.f() < 0.0 {
        return;
    }
    let (w, h) = dims(c);
    let s = c.rng.f32() * 5.0 + 0.1;
    let th = match c.rng.below(5) {
        0 => 0,
        1 => -(c.rng.below(300) as i32),
        2 => *c.rng.pick(&[i32::MIN, i32::MAX, 255, 256, 65535]),
        _ => c.rng.below(40) as i32 * if S::<P>::MAXV > 300.0 { 200 } else { 1 },
    };
    let img = gen::image::<P>(&mut c.rng, w, h);
    let g = Grid::of(&img);
    let what = format!("unsharpen {s} {th} of {w}x{h} {}x{}", P::CHANNEL_COUNT, S::<P>::NAME);
    let out = if c.rng.bool() { imageops::unsharpen(&img, s, th) } else { imageops::unsharpen(&Plain(g.clone()), s, th) };
    c.eval(key(&[2, w as u64, h as u64, s.to_bits() as u64, th as u64, P::CHANNEL_COUNT as u64, vh::hash_str(S::<P>::NAME)]));
    if out.dimensions() != (w, h) {
        c.fail("unsharpen-dims", format!("{what}: {:?}", out.dimensions()));
        return;
    }
    let b = Grid::of(&imageops::blur(&img, s));
    let o = Grid::of(&out);
    let maxv = S::<P>::MAXV;
    let e = if tight::<S<P>>() { 0.0 } else { 1e-6 * maxv };
    for i in 0..g.px.len() {
        for ch in 0..P::CHANNEL_COUNT as usize {
            let (x, y, got) = (g.px[i].channels()[ch].f(), b.px[i].channels()[ch].f(), o.px[i].channels()[ch].f());
            let d = x - y;
            let want = if d.abs() > th as f64 { (x + d).clamp(0.0, maxv) } else { x };
            let near = !S::<P>::INT && (d.abs() - th as f64).abs() < 1e-5;
            c.count("sharpened samples checked", 1);
            if d.abs() > th as f64 {
                c.count("samples above the threshold", 1);
            }
            if !near && (got - want).abs() > e {
                c.fail("unsharpen-value", format!("{what}: pixel {i} channel {ch}: {x} blurred {y} gave {got}, expected {want}"));
                return;
            }
        }
    }
}

fn filter<P: Pixel + std::fmt::Debug + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    type S<P> = <P as Pixel>::Subpixel;
    if S::<P>::DEFAULT_MIN_VALUE.f() < 0.0 {
        return;
    }
    let (w, h) = dims(c);
    let mut k = [0f32; 9];
    let mode = c.rng.below(6);
    for v in k.iter_mut() {
        *v = match mode {
            0 => c.rng.irange(-4, 4) as f32,
            1 => c.rng.irange(-8, 8) as f32 / 8.0,
            2 => c.rng.f32(),
            3 => 1.0 / 9.0,
            4 => c.rng.f32() * 4.0 - 2.0,
            _ => 0.0,
        };
    }
    if mode == 5 {
        k[c.rng.below(9) as usize] = *c.rng.pick(&[1.0, 2.0, 0.5]);
        if c.rng.bool() {
            k[c.rng.below(9) as usize] -= 1.0;
        }
    }
    let sum: f64 = k.iter().map(|v| *v as f64).sum();
    if sum.abs() < 0.1 && mode != 0 && mode != 1 && mode != 5 {
        return;
    }
    let div = if sum == 0.0 { 1.0 } else { sum };
    let constant = c.rng.chance(1, 5);
    let img = if constant { gen::image_style::<P>(&mut c.rng, w, h, gen::Style::Constant) } else { gen::image::<P>(&mut c.rng, w, h) };
    let g = Grid::of(&img);
    let what = format!("filter3x3 {k:?} of {w}x{h} {}x{}", P::CHANNEL_COUNT, S::<P>::NAME);
    let out: Buf<P> = if c.rng.bool() { imageops::filter3x3(&img, &k) } else { imageops::filter3x3(&Plain(g.clone()), &k) };
    c.eval(key(&[3, w as u64, h as u64, vh::hash_str(&what)]));
    if out.dimensions() != (w, h) {
        c.fail("filter-dims", format!("{what}: {:?}", out.dimensions()));
        return;
    }
    let o = Grid::of(&out);
    let maxv = S::<P>::MAXV;
    let l1: f64 = k.iter().map(|v| v.abs() as f64).sum::<f64>() / div.abs();
    let eps = maxv * 4e-6 * (1.0 + l1);
    for y in 1..h.saturating_sub(1) {
        for x in 1..w.saturating_sub(1) {
            for ch in 0..P::CHANNEL_COUNT as usize {
                let mut t = 0.0;
                for (i, kv) in k.iter().enumerate() {
                    t += *kv as f64 * g.get(x + i as u32 % 3 - 1, y + i as u32 / 3 - 1).channels()[ch].f();
                }
                let want = (t / div).clamp(0.0, maxv);
                let got = o.get(x, y).channels()[ch].f();
                c.count("filtered samples checked", 1);
                // rounding to the sample type
                let tol = if S::<P>::INT { 0.5 + eps } else { eps };
                if !((got - want).abs() <= tol) {
                    c.fail("filter-value", format!("{what}: ({x},{y}) channel {ch} = {got}, expected {want}"));
                    return;
                }
                if constant && sum != 0.0 && mode < 4 {
                    let v = g.get(0, 0).channels()[ch].f();
                    let e = if tight::<S<P>>() && l1 < 100.0 { 0.0 } else { eps };
                    if (got - v).abs() > e {
                        c.fail("filter-constant", format!("{what}: constant {v} became {got}"));
                        return;
                    }
                }
            }
        }
    }
}

/// The dynamic image applies the same operations to the buffer it holds.
fn dynamic(c: &mut Case) {
    let (w, h) = (c.rng.r32(0, 9), c.rng.r32(0, 9));
    let col = *c.rng.pick(&gen::COLORS);
    let img = gen::dynamic(&mut c.rng, col, w, h);
    let s = c.rng.f32() * 3.0 + 0.1;
    let k: Vec<f32> = (0..9).map(|_| c.rng.f32()).collect();
    macro_rules! each {
        ($($v:ident),*) => {
            match &img {
                $(DynamicImage::$v(b) => vec![
                    ("blur", img.blur(s), DynamicImage::$v(imageops::blur(b, s))),
                    ("fast_blur", img.fast_blur(s), DynamicImage::$v(imageops::fast_blur(b, s))),
                    ("unsharpen", img.unsharpen(s, 3), DynamicImage::$v(imageops::unsharpen(b, s, 3))),
                    ("filter3x3", img.filter3x3(&k), DynamicImage::$v(imageops::filter3x3(b, &k))),
                ],)*
                _ => vec![],
            }
        };
    }
    let r = each!(ImageLuma8, ImageLumaA8, ImageRgb8, ImageRgba8, ImageLuma16, ImageLumaA16, ImageRgb16, ImageRgba16, ImageRgb32F, ImageRgba32F);
    for (n, a, b) in r {
        c.eval(key(&[4, w as u64, h as u64, col as u64, vh::hash_str(n)]));
        check!(c, a == b && a.color() == col, "dynamic-form", "{n} of {w}x{h} {col:?} differs from the typed form");
    }
    for n in [0usize, 8, 10] {
        let bad = vec![1.0; n];
        check!(c, catch(|| img.filter3x3(&bad)).is_err(), "kernel-length", "filter3x3 accepted a kernel of {n} weights");
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("an evaluation compares a whole filtered image with the convolution evaluated directly in f64, and with the range of the samples under the kernel");
    ctx.assume("sigma is positive, finite and within 1e-30..1e30; the one pixel border of filter3x3 is not specified");
    ctx.section("blur", 30_000, 120_000, |c| vh::some_pixel!(c, blur));
    ctx.section("fast", 30_000, 120_000, |c| vh::some_pixel!(c, fast));
    ctx.section("unsharpen", 20_000, 80_000, |c| vh::some_pixel!(c, sharp));
    ctx.section("filter3x3", 30_000, 120_000, |c| vh::some_pixel!(c, filter));
    ctx.section("dynamic", 3000, 10_000, dynamic);
    ctx.require("blurred samples checked", 100_000);
    ctx.require("fast-blurred samples checked", 100_000);
    ctx.require("samples above the threshold", 10_000);
    ctx.require("filtered samples checked", 100_000);
}
