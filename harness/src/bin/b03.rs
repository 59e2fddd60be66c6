//! B03: resizing and thumbnailing keep dimensions, range and sampled content.
use image::imageops::{self, FilterType};
use image::{DynamicImage, GenericImageView, ImageBuffer, Luma, LumaA, Pixel, Primitive, Rgb, Rgba};
use vh::gen::{self, Buf, Samp};
use vh::model::{Grid, Plain};
use vh::{catch, check, mix, Case, Ctx};

vh::property_main!("B03");

const FILTERS: [FilterType; 5] =
    [FilterType::Nearest, FilterType::Triangle, FilterType::CatmullRom, FilterType::Gaussian, FilterType::Lanczos3];

fn key(a: &[u64]) -> u64 {
    a.iter().fold(17, |h, v| mix(h ^ v)) | 1
}
fn size(c: &mut Case) -> u32 {
    match c.rng.below(10) {
        0 => c.rng.r32(1, 3),
        1 => c.rng.r32(1, 150),
        _ => c.rng.r32(1, 24),
    }
}

fn sinc(x: f64) -> f64 {
    if x == 0.0 {
        1.0
    } else {
        let a = x * std::f64::consts::PI;
        a.sin() / a
    }
}
/// (kernel, support) as defined for each filter
fn kernel(f: FilterType, x: f64) -> f64 {
    let a = x.abs();
    match f {
        FilterType::Nearest => 1.0,
        FilterType::Triangle => (1.0 - a).max(0.0),
        FilterType::CatmullRom => {
            if a < 1.0 {
                1.5 * a * a * a - 2.5 * a * a + 1.0
            } else if a < 2.0 {
                -0.5 * a * a * a + 2.5 * a * a - 4.0 * a + 2.0
            } else {
                0.0
            }
        }
        FilterType::Gaussian => (-2.0 * x * x).exp() * (2.0 / std::f64::consts::PI).sqrt(),
        FilterType::Lanczos3 => {
            if a < 3.0 {
                sinc(x) * sinc(x / 3.0)
            } else {
                0.0
            }
        }
    }
}
fn support(f: FilterType) -> f64 {
    match f {
        FilterType::Nearest => 0.0,
        FilterType::Triangle => 1.0,
        FilterType::CatmullRom => 2.0,
        FilterType::Gaussian | FilterType::Lanczos3 => 3.0,
    }
}

struct Tap {
    lo: u32,
    w: Vec<f64>,
}
/// Normalised weights of the source positions for every destination position.
fn taps(n: u32, m: u32, f: FilterType) -> Vec<Tap> {
    let ratio = n as f64 / m as f64;
    let s = ratio.max(1.0);
    let sup = support(f) * s;
    (0..m)
        .map(|o| {
            let centre = (o as f64 + 0.5) * ratio;
            let lo = ((centre - sup - 1.0).floor().max(0.0)) as u32;
            let hi = ((centre + sup + 1.0).ceil() as u32).min(n);
            let mut w: Vec<f64> = (lo..hi).map(|i| kernel(f, (i as f64 + 0.5 - centre) / s)).collect();
            let t: f64 = w.iter().sum();
            w.iter_mut().for_each(|x| *x /= t);
            Tap { lo, w }
        })
        .collect()
}

/// source positions nearest sampling may pick for destination o
fn near(n: u32, m: u32, o: u32) -> Vec<u32> {
    // the centre as an exact fraction: (2o+1) n / 2m
    let num = (2 * o as u64 + 1) * n as u64;
    let den = 2 * m as u64;
    let q = (num / den) as u32;
    let mut v = vec![q.min(n - 1)];
    let pos = num as f64 / den as f64;
    if (pos - pos.round()).abs() < 1e-4 * (1.0 + pos * 0.01) {
        let r = pos.round() as u32;
        for k in [r, r.saturating_sub(1)] {
            v.push(k.min(n - 1));
        }
    }
    v
}

fn tol<S: Samp>(n: u32) -> f64 {
    let rel = 1e-5 + n as f64 * 1e-6;
    if S::INT {
        0.5 + S::MAXV * rel
    } else {
        4.0 * rel
    }
}

fn verify_resize<P: Pixel + std::fmt::Debug>(c: &mut Case, src: &Grid<P>, out: &Buf<P>, nw: u32, nh: u32, f: FilterType, what: &str)
where
    P::Subpixel: Samp,
{
    let name = format!("{f:?}");
    if out.dimensions() != (nw, nh) {
        c.fail("resize-dims", format!("{what}: {:?} instead of {nw}x{nh}", out.dimensions()));
        return;
    }
    let g = Grid::of(out);
    c.count("resized samples checked", g.px.len() as u64 * P::CHANNEL_COUNT as u64);
    c.eval(key(&[src.w as u64, src.h as u64, nw as u64, nh as u64, f as u64, P::CHANNEL_COUNT as u64, vh::hash_str(P::Subpixel::NAME)]));
    if (nw, nh) == (src.w, src.h) {
        if let Some(d) = g.diff(src) {
            c.fail("resize-identity", format!("{what}: {d}"));
        }
        return;
    }
    if f == FilterType::Nearest {
        let xs: Vec<Vec<u32>> = (0..nw).map(|o| near(src.w, nw, o)).collect();
        let ys: Vec<Vec<u32>> = (0..nh).map(|o| near(src.h, nh, o)).collect();
        for y in 0..nh {
            for x in 0..nw {
                let p = g.get(x, y);
                let ok = ys[y as usize].iter().any(|&sy| {
                    xs[x as usize].iter().any(|&sx| src.get(sx, sy).channels().iter().zip(p.channels()).all(|(a, b)| same_as_f32(*a, *b)))
                });
                if !ok {
                    c.fail(
                        "resize-nearest",
                        format!("{what}: ({x},{y}) = {p:?}, expected source {:?} x {:?} e.g. {:?}", xs[x as usize], ys[y as usize], src.get(xs[x as usize][0], ys[y as usize][0])),
                    );
                    return;
                }
            }
        }
        return;
    }
    let (tx, ty) = (taps(src.w, nw, f), taps(src.h, nh, f));
    let n = P::CHANNEL_COUNT as usize;
    // vertical, then horizontal, in f64
    let mut mid = vec![0f64; src.w as usize * nh as usize * n];
    for y in 0..nh as usize {
        for x in 0..src.w as usize {
            for (k, w) in ty[y].w.iter().enumerate() {
                let p = src.get(x as u32, ty[y].lo + k as u32);
                for ch in 0..n {
                    mid[(y * src.w as usize + x) * n + ch] += w * p.channels()[ch].f();
                }
            }
        }
    }
    let t = tol::<P::Subpixel>(src.w.max(src.h));
    let nonneg = matches!(f, FilterType::Triangle | FilterType::Gaussian);
    let maxv = P::Subpixel::DEFAULT_MAX_VALUE.f();
    let minv = P::Subpixel::DEFAULT_MIN_VALUE.f();
    for y in 0..nh as usize {
        for x in 0..nw as usize {
            for ch in 0..n {
                let ideal: f64 = tx[x].w.iter().enumerate().map(|(k, w)| w * mid[(y * src.w as usize + tx[x].lo as usize + k) * n + ch]).sum();
                let got = g.get(x as u32, y as u32).channels()[ch].f();
                let want = ideal.clamp(minv, maxv);
                if !(got >= minv && got <= maxv) {
                    c.fail(&format!("resize-range:{name}"), format!("{what}: ({x},{y}) channel {ch} = {got}"));
                    return;
                }
                if !((got - want).abs() <= t) {
                    c.fail(&format!("resize-value:{name}"), format!("{what}: ({x},{y}) channel {ch} = {got}, weighted average {want}"));
                    return;
                }
                if nonneg {
                    let (mut lo, mut hi) = (f64::MAX, f64::MIN);
                    for (j, _) in ty[y].w.iter().enumerate() {
                        for (k, _) in tx[x].w.iter().enumerate() {
                            let v = src.get(tx[x].lo + k as u32, ty[y].lo + j as u32).channels()[ch].f();
                            lo = lo.min(v);
                            hi = hi.max(v);
                        }
                    }
                    let e = if P::Subpixel::INT && maxv < 70000.0 { 0.0 } else { 1e-5 * maxv };
                    if !(got >= lo - e && got <= hi + e) {
                        c.fail(&format!("resize-hull:{name}"), format!("{what}: ({x},{y}) channel {ch} = {got} outside {lo}..{hi}"));
                        return;
                    }
                }
            }
        }
    }
}
/// Equal after passing through single precision (exact for 8 and 16 bits).
fn same_as_f32<S: Samp>(a: S, b: S) -> bool {
    a.bits() == b.bits() || (S::MAXV > 70000.0 && (a.f() - b.f()).abs() <= S::MAXV * 2e-7) || (!S::INT && (a.f() - b.f()).abs() < 1e-6)
}

fn resize<P: Pixel + std::fmt::Debug + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    // extreme ratios: thousands of positions on one side, few on the other
    let long = if c.rng.chance(1, 120) { Some((c.rng.r32(200, 6000), c.rng.r32(1, 3), c.rng.r32(1, 4), c.rng.r32(1, 3), c.rng.below(4))) } else { None };
    let (w, h) = match long {
        Some((l, s, a, _, k)) => match k {
            0 => (l, s),
            1 => (s, l),
            2 => (a, s),
            _ => (s, a),
        },
        None => (size(c), size(c)),
    };
    let (nw, nh) = match c.rng.below(12) {
        _ if long.is_some() => {
            let (l, _, a, b, k) = long.unwrap();
            match k {
                0 => (a, b),
                1 => (b, a),
                2 => (l, b),
                _ => (b, l),
            }
        }
        0 => (w, size(c)),
        1 => (size(c), h),
        2 => (w, h),
        3 => (h, w),
        4 => (w * 2, h * 2),
        5 => ((w / 2).max(1), (h / 2).max(1)),
        6 => (1, 1),
        7 => (c.rng.r32(0, 2), c.rng.r32(0, 5)),
        _ => (size(c), size(c)),
    };
    let f = *c.rng.pick(&FILTERS);
    let img = gen::image::<P>(&mut c.rng, w, h);
    let g = Grid::of(&img);
    let what = format!("{f:?} {w}x{h} -> {nw}x{nh} {}x{}", P::CHANNEL_COUNT, P::Subpixel::NAME);
    c.sample(|| what.clone());
    let out = imageops::resize(&img, nw, nh, f);
    verify_resize(c, &g, &out, nw, nh, f, &what);
    match c.idx % 4 {
        0 => {
            let o = imageops::resize(&Plain(g.clone()), nw, nh, f);
            verify_resize(c, &g, &o, nw, nh, f, &format!("{what} plain"));
        }
        1 => {
            let (x, y) = (c.rng.r32(0, w - 1), c.rng.r32(0, h - 1));
            let (sw, sh) = (c.rng.r32(1, w - x), c.rng.r32(1, h - y));
            let o = imageops::resize(&*img.view(x, y, sw, sh), nw, nh, f);
            verify_resize(c, &g.crop(x, y, sw, sh), &o, nw, nh, f, &format!("{what} view {x},{y},{sw},{sh}"));
        }
        2 => {
            // constant image
            let p = img.get_pixel(0, 0);
            let k = Buf::<P>::from_pixel(w, h, *p);
            let o = imageops::resize(&k, nw, nh, f);
            c.eval(key(&[3, w as u64, h as u64, nw as u64, nh as u64, f as u64]));
            for q in o.pixels() {
                for (a, b) in p.channels().iter().zip(q.channels()) {
                    let e = if P::Subpixel::INT && P::Subpixel::MAXV < 70000.0 { 0.0 } else { 2e-6 * P::Subpixel::MAXV.max(a.f().abs()) };
                    check!(c, (a.f() - b.f()).abs() <= e, "resize-constant", "{what}: constant {p:?} became {q:?}");
                }
            }
        }
        _ => {
            // transposition and mirroring of the real operation
            if nw == 0 || nh == 0 {
                return;
            }
            let t = 2.0 * tol::<P::Subpixel>(w.max(h)) + if P::Subpixel::INT { 0.01 } else { 0.0 };
            let tr = |b: &Buf<P>| Buf::<P>::from_fn(b.height(), b.width(), |x, y| *b.get_pixel(y, x));
            let a = tr(&imageops::resize(&tr(&img), nh, nw, f));
            let cmp = |c: &mut Case, sig: &str, a: &Buf<P>, tight: bool| {
                c.eval(key(&[5, vh::hash_str(sig), w as u64, h as u64, nw as u64, nh as u64, f as u64]));
                check!(c, a.dimensions() == (nw, nh), sig, "{what}: dimensions {:?}", a.dimensions());
                if a.dimensions() == (nw, nh) {
                    for (x, y, p) in a.enumerate_pixels() {
                        let q = out.get_pixel(x, y);
                        for (u, v) in p.channels().iter().zip(q.channels()) {
                            let t = if tight { t.min(P::Subpixel::MAXV) } else { t };
                            check!(c, (u.f() - v.f()).abs() <= t, sig, "{what}: ({x},{y}) {p:?} and {q:?}");
                        }
                    }
                }
            };
            cmp(c, "resize-transpose", &a, true);
            if f != FilterType::Nearest {
                let a = imageops::flip_horizontal(&imageops::resize(&imageops::flip_horizontal(&img), nw, nh, f));
                cmp(c, "resize-mirror-h", &a, true);
                let a = imageops::flip_vertical(&imageops::resize(&imageops::flip_vertical(&img), nw, nh, f));
                cmp(c, "resize-mirror-v", &a, true);
            }
        }
    }
}

/// Candidates for ceil(o * n / m): two when the quotient is (almost) integral.
fn edge(n: u32, m: u32, o: u32) -> Vec<u32> {
    let num = o as u64 * n as u64;
    let q = num as f64 / m as f64;
    let r = q.round();
    let mut v = vec![q.ceil() as u32];
    if (q - r).abs() < 1e-4 * (1.0 + q * 0.01) {
        if num % m as u64 == 0 && ((n as f64 / m as f64) as f32 as f64) == n as f64 / m as f64 {
            // exactly representable step: no freedom
            return vec![r as u32];
        }
        v = vec![r as u32, r as u32 + 1];
    }
    v
}

macro_rules! thumb {
    ($c:expr, $P:ty) => {{
        type P = $P;
        type S = <P as Pixel>::Subpixel;
        let c: &mut Case = $c;
        let (w, h) = (size(c), size(c));
        let (nw, nh) = match c.rng.below(8) {
            0 => (w, h),
            1 => ((w / 2).max(1), (h / 2).max(1)),
            2 => ((w / 3).max(1), (h / 4).max(1)),
            3 => (c.rng.r32(0, 2), c.rng.r32(0, 4)),
            4 => (w * 2, h * 3),
            _ => (size(c), size(c)),
        };
        let constant = c.rng.chance(1, 5);
        let img = if constant { gen::image_style::<P>(&mut c.rng, w, h, gen::Style::Constant) } else { gen::image::<P>(&mut c.rng, w, h) };
        let g = Grid::of(&img);
        let what = format!("thumbnail {w}x{h} -> {nw}x{nh} {}x{}", P::CHANNEL_COUNT, S::NAME);
        c.sample(|| what.clone());
        let out = if c.rng.bool() { imageops::thumbnail(&img, nw, nh) } else { imageops::thumbnail(&Plain(g.clone()), nw, nh) };
        c.eval(key(&[w as u64, h as u64, nw as u64, nh as u64, P::CHANNEL_COUNT as u64, vh::hash_str(S::NAME), 8]));
        if out.dimensions() != (nw, nh) {
            c.fail("thumb-dims", format!("{what}: {:?}", out.dimensions()));
            return;
        }
        let feps = if S::INT { if S::MAXV > 70000.0 { 1.0 + S::MAXV * 1e-6 } else { 1e-9 } } else { 1e-5 };
        'o: for y in 0..nh {
            for x in 0..nw {
                let p = out.get_pixel(x, y);
                let (ls, rs, bs, ts) = (edge(w, nw, x), edge(w, nw, x + 1), edge(h, nh, y), edge(h, nh, y + 1));
                let mut ok = false;
                let mut detail = String::new();
                let mut hull = true;
                for &l in &ls {
                    for &r in &rs {
                        for &b in &bs {
                            for &t in &ts {
                                let (l, b) = (l.min(w - 1), b.min(h - 1));
                                let (r, t) = (r.clamp(l, w), t.clamp(b, h));
                                if l == r || b == t {
                                    // no source pixel in the window: interpolation of the neighbours
                                    let (l2, r2) = if l == r { (r.saturating_sub(1), (r + 1).min(w)) } else { (l, r) };
                                    let (b2, t2) = if b == t { (t.saturating_sub(1), (t + 1).min(h)) } else { (b, t) };
                                    c.count("thumbnail pixels interpolated", 1);
                                    let good = (0..P::CHANNEL_COUNT as usize).all(|ch| {
                                        let (mut lo, mut hi) = (f64::MAX, f64::MIN);
                                        for j in b2..t2 {
                                            for i in l2..r2 {
                                                let v = g.get(i, j).channels()[ch].f();
                                                lo = lo.min(v);
                                                hi = hi.max(v);
                                            }
                                        }
                                        let v = p.channels()[ch].f();
                                        v >= lo - feps && v <= hi + feps
                                    });
                                    if good {
                                        ok = true;
                                    } else if !ok {
                                        detail = format!("outside the range of its neighbours {l2}..{r2} x {b2}..{t2}");
                                    }
                                    continue;
                                }
                                hull = false;
                                let n = ((r - l) * (t - b)) as f64;
                                let good = (0..P::CHANNEL_COUNT as usize).all(|ch| {
                                    let mut s = 0.0;
                                    for j in b..t {
                                        for i in l..r {
                                            s += g.get(i, j).channels()[ch].f();
                                        }
                                    }
                                    let half = if S::INT { 0.5 } else { 0.0 };
                                    (p.channels()[ch].f() - s / n).abs() <= half + feps
                                });
                                if good {
                                    ok = true;
                                } else {
                                    detail = format!("not the average of block {l}..{r} x {b}..{t}");
                                }
                            }
                        }
                    }
                }
                if !hull {
                    c.count("thumbnail blocks averaged", 1);
                }
                if !ok {
                    c.fail(if hull { "thumb-hull" } else { "thumb-average" }, format!("{what}: ({x},{y}) = {p:?} is {detail}"));
                    break 'o;
                }
            }
        }
        if constant {
            let p = img.get_pixel(0, 0);
            for q in out.pixels() {
                for (a, b) in p.channels().iter().zip(q.channels()) {
                    check!(c, (a.f() - b.f()).abs() <= feps, "thumb-constant", "{what}: constant {p:?} became {q:?}");
                }
            }
        }
    }};
}
fn thumbnail(c: &mut Case) {
    match c.rng.below(12) {
        0 => thumb!(c, Luma<u8>),
        1 => thumb!(c, LumaA<u8>),
        2 => thumb!(c, Rgb<u8>),
        3 => thumb!(c, Rgba<u8>),
        4 => thumb!(c, Luma<u16>),
        5 => thumb!(c, LumaA<u16>),
        6 => thumb!(c, Rgb<u16>),
        7 => thumb!(c, Rgba<u16>),
        8 => thumb!(c, Rgb<f32>),
        9 => thumb!(c, Rgba<f32>),
        10 => thumb!(c, Rgb<u32>),
        _ => thumb!(c, Luma<f64>),
    }
}

/// Blocks so large that sums of samples leave narrow accumulators.
fn big_blocks(c: &mut Case) {
    let (w, h) = (c.rng.r32(257, 420), c.rng.r32(257, 420));
    let v = *c.rng.pick(&[65535u16, 65534, 60000]);
    let img: ImageBuffer<Luma<u16>, Vec<u16>> = ImageBuffer::from_pixel(w, h, Luma([v]));
    let (nw, nh) = (c.rng.r32(1, 2), 1);
    c.eval(key(&[w as u64, h as u64, nw as u64, v as u64]));
    for p in imageops::thumbnail(&img, nw, nh).pixels() {
        check!(c, p.0[0] == v, "thumb-sum", "constant {v} {w}x{h} -> {nw}x{nh} became {p:?}");
    }
    if c.idx == 0 {
        let img: ImageBuffer<Luma<u8>, Vec<u8>> = ImageBuffer::from_pixel(4200, 4200, Luma([255]));
        c.eval(99);
        for p in imageops::thumbnail(&img, 1, 1).pixels() {
            check!(c, p.0[0] == 255, "thumb-sum", "constant 255 4200x4200 -> 1x1 became {p:?}");
        }
    }
}

/// Aspect-preserving forms of the dynamic image.
fn aspect(c: &mut Case) {
    let huge = c.rng.chance(1, 6);
    let (w, h) = if huge { (c.rng.r32(1, 3000), c.rng.r32(1, 4)) } else { (c.rng.r32(1, 200), c.rng.r32(1, 200)) };
    let (w, h) = if c.rng.bool() { (w, h) } else { (h, w) };
    let (nw, nh) = (c.rng.r32(1, 90), c.rng.r32(1, 90));
    let f = *c.rng.pick(&FILTERS);
    let col = *c.rng.pick(&gen::COLORS);
    let img = if w * h > 4000 && c.rng.chance(3, 4) { DynamicImage::new(w, h, col) } else { gen::dynamic(&mut c.rng, col, w, h) };
    // the largest size with the same aspect ratio, rounded, that fits / covers
    let dims = |fill: bool| -> [(f64, f64); 2] {
        let (a, b) = (nw as f64 / w as f64, nh as f64 / h as f64);
        let r = if fill { a.max(b) } else { a.min(b) };
        let (x, y) = (w as f64 * r, h as f64 * r);
        let e = 1e-7 * (x + y);
        [((x - 0.5 - e).max(1.0), (x + 0.5 + e).max(1.0)), ((y - 0.5 - e).max(1.0), (y + 0.5 + e).max(1.0))]
    };
    let within = |d: (u32, u32), b: [(f64, f64); 2]| (d.0 as f64) >= b[0].0 && (d.0 as f64) <= b[0].1 && (d.1 as f64) >= b[1].0 && (d.1 as f64) <= b[1].1;
    let fit = dims(false);
    let what = format!("{w}x{h} {col:?} in {nw}x{nh} {f:?}");
    c.eval(key(&[w as u64, h as u64, nw as u64, nh as u64, 21]));
    c.count("aspect ratios checked", 1);
    let a = img.resize(nw, nh, f);
    check!(c, a.color() == col && within(a.dimensions(), fit), "aspect-fit", "resize {what}: {:?}, expected {fit:?}", a.dimensions());
    check!(c, a.width() <= nw && a.height() <= nh && (a.width() == nw || a.height() == nh), "aspect-fit-bounds", "resize {what}: {:?}", a.dimensions());
    check!(c, a == img.resize_exact(a.width(), a.height(), f), "aspect-content", "resize {what}: content differs from the exact form");
    let t = img.thumbnail(nw, nh);
    check!(c, t.color() == col && within(t.dimensions(), fit) && t.width() <= nw && t.height() <= nh, "aspect-thumbnail", "thumbnail {what}: {:?}", t.dimensions());
    check!(c, t == img.thumbnail_exact(t.width(), t.height()), "aspect-thumbnail-content", "thumbnail {what}: content differs from the exact form");
    if !huge {
        let b = img.resize_to_fill(nw, nh, f);
        check!(c, b.color() == col && b.dimensions() == (nw, nh), "fill-dims", "resize_to_fill {what}: {:?}", b.dimensions());
        // content: centred crop of the covering size
        let cov = dims(true);
        let (cw, ch) = (cov[0], cov[1]);
        let mut ok = false;
        for x in cw.0.ceil() as u32..=cw.1.floor() as u32 {
            for y in ch.0.ceil() as u32..=ch.1.floor() as u32 {
                if ok || x < nw || y < nh {
                    continue;
                }
                let e = img.resize_exact(x, y, f);
                for dx in [(x - nw) / 2, (x - nw + 1) / 2] {
                    for dy in [(y - nh) / 2, (y - nh + 1) / 2] {
                        ok |= e.crop_imm(dx, dy, nw, nh) == b;
                    }
                }
            }
        }
        check!(c, ok, "fill-content", "resize_to_fill {what} is not the centred crop of the covering size {cov:?}");
        c.count("fills checked", 1);
    }
}

/// Empty sources and targets neither panic nor explode.
fn empty(c: &mut Case) {
    for (w, h) in [(0u32, 0u32), (0, 5), (5, 0)] {
        for (nw, nh) in [(0u32, 0u32), (0, 4), (4, 0), (3, 3), (7, 2)] {
            for f in FILTERS {
                let img = image::RgbImage::new(w, h);
                c.eval(key(&[w as u64, h as u64, nw as u64, nh as u64, f as u64]));
                match catch(|| imageops::resize(&img, nw, nh, f).dimensions()) {
                    Ok(d) => check!(c, d == (nw, nh), "empty-dims", "{w}x{h} -> {nw}x{nh}: {d:?}"),
                    Err(p) => c.fail("empty-panic", format!("resize {w}x{h} -> {nw}x{nh}: {p}")),
                }
                match catch(|| imageops::thumbnail(&img, nw, nh).dimensions()) {
                    Ok(d) => check!(c, d == (nw, nh), "empty-thumb-dims", "{w}x{h} -> {nw}x{nh}: {d:?}"),
                    Err(p) => c.fail("empty-thumb-panic", format!("thumbnail {w}x{h} -> {nw}x{nh}: {p}")),
                }
                let d = DynamicImage::ImageRgb8(img);
                let (r, peak) = vh::alloc::thread_peak_during(|| {
                    catch(|| {
                        let a = d.resize(nw, nh, f).dimensions();
                        let b = d.resize_to_fill(nw, nh, f).dimensions();
                        let t = d.thumbnail(nw, nh).dimensions();
                        (a, b, t)
                    })
                });
                match r {
                    Ok((a, b, t)) => {
                        check!(c, b == (nw, nh), "empty-fill-dims", "{w}x{h} to fill {nw}x{nh}: {b:?}");
                        let _ = (a, t); // an empty image has no aspect ratio
                    }
                    Err(p) => c.fail("empty-dyn-panic", format!("{w}x{h} -> {nw}x{nh}: {p}")),
                }
                check!(c, peak < 1 << 20, "empty-memory", "{w}x{h} -> {nw}x{nh} allocated {peak} bytes");
            }
        }
    }
    // non-empty source, empty target through the aspect forms
    for (nw, nh) in [(0u32, 0u32), (0, 4), (4, 0)] {
        let d = DynamicImage::new_rgb8(6, 3);
        match catch(|| (d.resize(nw, nh, FilterType::Triangle).dimensions(), d.resize_to_fill(nw, nh, FilterType::Triangle).dimensions())) {
            Ok((a, b)) => {
                check!(c, a.0 > 0 && a.1 > 0, "aspect-zero", "resize into {nw}x{nh}: {a:?}");
                check!(c, b == (nw, nh), "fill-zero", "fill {nw}x{nh}: {b:?}");
            }
            Err(p) => c.fail("aspect-zero-panic", format!("{nw}x{nh}: {p}")),
        }
    }
}

#[allow(unused)]
fn _u(_: Rgba<u8>, _: LumaA<u8>) {}

pub fn run(ctx: &Ctx) {
    ctx.rule("an evaluation compares a whole resampled image with the kernel-weighted average computed in f64 (nearest: with the admissible source pixels; thumbnail: with the block average), within 0.5 plus 1e-5..1e-4 of the sample range");
    ctx.section("resize", 8000, 300_000, |c| vh::some_pixel!(c, resize));
    ctx.section("thumbnail", 8000, 300_000, thumbnail);
    ctx.section("big-blocks", 16, 200, big_blocks);
    ctx.section("aspect", 1500, 40_000, aspect);
    ctx.section("empty", 1, 1, empty);
    ctx.require("resized samples checked", 100_000);
    ctx.require("thumbnail blocks averaged", 10_000);
    ctx.require("thumbnail pixels interpolated", 10_000);
    ctx.require("fills checked", 500);
}
