//! A07: per-pixel operations apply to the right channels with exact arithmetic.
#![allow(deprecated)]
use image::{imageops, GenericImage, ImageBuffer, Luma, LumaA, Pixel, Primitive, Rgb, Rgba};
use vh::gen::{self, Samp};
use vh::{catch, check, mix, Case, Ctx};

vh::property_main!("A07");

fn has_alpha<P: Pixel>() -> bool {
    P::CHANNEL_COUNT % 2 == 0
}
fn bits<P: Pixel>(p: &P) -> Vec<u64>
where
    P::Subpixel: Samp,
{
    gen::bits_of(p)
}
fn sb<S: Samp>(v: &[S]) -> Vec<u64> {
    v.iter().map(|s| s.bits()).collect()
}
fn some<P: Pixel>(c: &mut Case) -> P
where
    P::Subpixel: Samp,
{
    if c.rng.bool() {
        gen::pixel(&mut c.rng)
    } else {
        gen::pixel_edge(&mut c.rng)
    }
}

/// Mapping: closure calls observed in order, values routed to the right channel.
fn maps<P: Pixel + std::fmt::Debug>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    let p: P = some(c);
    let n = P::CHANNEL_COUNT as usize;
    let colors = if has_alpha::<P>() { n - 1 } else { n };
    let fresh: Vec<P::Subpixel> = (0..n).map(|_| P::Subpixel::arb(&mut c.rng)).collect();
    let pb = bits(&p);
    c.eval(pb.iter().fold(n as u64 | (std::mem::size_of::<P>() as u64) << 32, |a, b| mix(a ^ b)) | 1);
    // log of (which closure, argument)
    let run = |f: &mut dyn FnMut(&mut Vec<(char, u64)>, &mut usize) -> P| {
        let mut log = vec![];
        let mut k = 0;
        let r = f(&mut log, &mut k);
        (r, log)
    };
    let fr = &fresh;
    let all: Vec<(char, u64)> = pb.iter().map(|b| ('f', *b)).collect();
    let split: Vec<(char, u64)> = pb.iter().enumerate().map(|(i, b)| (if i < colors { 'f' } else { 'g' }, *b)).collect();
    let only: Vec<(char, u64)> = all[..colors].to_vec();
    let whole: Vec<u64> = fr.iter().map(|s| s.bits()).collect();
    let mut keep = whole.clone();
    keep[colors..].copy_from_slice(&pb[colors..]);
    macro_rules! go {
        ($name:expr, $want_log:expr, $want:expr, |$q:ident, $f:ident, $g:ident| $e:expr) => {{
            let (r, log) = run(&mut |log, k| {
                let cell = std::cell::RefCell::new((log, k));
                let call = |which: char, v: P::Subpixel| {
                    let mut b = cell.borrow_mut();
                    b.0.push((which, v.bits()));
                    let i = *b.1;
                    *b.1 += 1;
                    fr[i.min(n - 1)]
                };
                let $f = |v| call('f', v);
                #[allow(unused)]
                let $g = |v| call('g', v);
                #[allow(unused_mut)]
                let mut $q = p;
                $e
            });
            check!(c, log == $want_log, format!("{}:calls", $name), "{} of {p:?}: calls {log:?}, want {:?}", $name, $want_log);
            check!(c, bits(&r) == $want, format!("{}:value", $name), "{} of {p:?} = {r:?}", $name);
        }};
    }
    go!("map", all, whole, |q, f, g| q.map(f));
    go!("apply", all, whole, |q, f, g| {
        q.apply(f);
        q
    });
    go!("map_with_alpha", split, whole, |q, f, g| q.map_with_alpha(f, g));
    go!("apply_with_alpha", split, whole, |q, f, g| {
        q.apply_with_alpha(f, g);
        q
    });
    go!("map_without_alpha", only, keep, |q, f, g| q.map_without_alpha(f));
    go!("apply_without_alpha", only, keep, |q, f, g| {
        q.apply_without_alpha(f);
        q
    });
    // two pixels
    let o: P = some(c);
    let ob = bits(&o);
    let want: Vec<(u64, u64)> = pb.iter().copied().zip(ob.iter().copied()).collect();
    for inplace in [false, true] {
        let mut log = vec![];
        let mut k = 0;
        let f = |a: P::Subpixel, b: P::Subpixel| {
            log.push((a.bits(), b.bits()));
            k += 1;
            fr[(k - 1).min(n - 1)]
        };
        let r = if inplace {
            let mut q = p;
            q.apply2(&o, f);
            q
        } else {
            p.map2(&o, f)
        };
        check!(c, log == want, "map2:calls", "map2/apply2({inplace}) of {p:?},{o:?}: {log:?}");
        check!(c, bits(&r) == whole, "map2:value", "map2/apply2({inplace}) of {p:?},{o:?} = {r:?}");
    }
    // channel views
    let v: Vec<P::Subpixel> = p.channels().to_vec();
    check!(c, v.len() == n && bits(P::from_slice(&v)) == pb, "from_slice", "from_slice(channels) of {p:?}");
    let mut m = v.clone();
    let i = c.rng.below(n as u64) as usize;
    P::from_slice_mut(&mut m).channels_mut()[i] = fr[0];
    for j in 0..n {
        check!(c, m[j].bits() == if i == j { fr[0].bits() } else { v[j].bits() }, "from_slice_mut", "from_slice_mut write of channel {i} on {p:?}");
    }
    for bad in [0, n - 1, n + 1] {
        let mut s: Vec<P::Subpixel> = (0..bad).map(|_| P::Subpixel::arb(&mut c.rng)).collect();
        if bad != n {
            check!(c, catch(|| P::from_slice(&s).channels().len()).is_err(), "from_slice-len", "from_slice of {bad} samples for {n} channels accepted");
            check!(c, catch(|| P::from_slice_mut(&mut s).channels().len()).is_err(), "from_slice-len", "from_slice_mut of {bad} samples accepted");
        }
    }
    let t = p.channels4();
    let t = [t.0, t.1, t.2, t.3];
    for (j, s) in t.iter().enumerate() {
        let w = if j < n { pb[j] } else { P::Subpixel::DEFAULT_MAX_VALUE.bits() };
        check!(c, s.bits() == w, "channels4", "channels4 of {p:?}");
    }
    check!(c, bits(&P::from_channels(t[0], t[1], t[2], t[3])) == pb, "from_channels", "from_channels of {p:?}");
    let model = match n {
        1 => "Y",
        2 => "YA",
        3 => "RGB",
        _ => "RGBA",
    };
    check!(c, P::COLOR_MODEL == model, "model", "{}", P::COLOR_MODEL);
    // conversions that keep information are exact
    if n == 4 {
        check!(c, sb(&p.to_rgba().0) == pb, "to_rgba-id", "to_rgba of {p:?}");
        check!(c, sb(&p.to_rgb().0) == pb[..3], "to_rgb", "to_rgb of {p:?}");
        check!(c, bits(&p.to_luma_alpha())[1] == pb[3], "luma_alpha-alpha", "to_luma_alpha of {p:?}");
    }
    if n == 2 {
        check!(c, bits(&p.to_luma_alpha()) == pb && bits(&p.to_luma()) == pb[..1], "luma-id", "to_luma_alpha of {p:?}");
    }
    check!(c, bits(&p.to_luma()) == bits(&p.to_luma_alpha())[..1], "luma-agree", "to_luma and to_luma_alpha of {p:?}");
    c.count("pixels mapped", 1);
}

fn inverts<P: Pixel + std::fmt::Debug>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    let p: P = some(c);
    if p.channels().iter().any(|s| s.f() < 0.0) {
        return; // signed samples have no complement inside the nominal range
    }
    let n = P::CHANNEL_COUNT as usize;
    let colors = if has_alpha::<P>() { n - 1 } else { n };
    let mut q = p;
    q.invert();
    let max = P::Subpixel::DEFAULT_MAX_VALUE;
    for i in 0..n {
        let (a, b) = (p.channels()[i], q.channels()[i]);
        if i < colors {
            let want = max - a;
            check!(c, b.bits() == want.bits(), "invert", "invert of {p:?} = {q:?} (channel {i})");
        } else {
            check!(c, a.bits() == b.bits(), "invert-alpha", "invert of {p:?} = {q:?}");
        }
    }
    if P::Subpixel::INT {
        let mut r = q;
        r.invert();
        check!(c, bits(&r) == bits(&p), "invert-involution", "double invert of {p:?} = {r:?}");
    }
    // whole images
    let (w, h) = (c.rng.r32(0, 4), c.rng.r32(1, 4));
    let mut im: gen::Buf<P> = ImageBuffer::from_pixel(w, h, p);
    imageops::invert(&mut im);
    check!(c, im.pixels().all(|z| bits(z) == bits(&q)), "invert-image", "imageops::invert of {p:?}");
    c.eval(bits(&p).iter().fold(77 + n as u64, |a, b| mix(a ^ b)) | 1);
    c.count("pixels inverted", 1);
}

/// exact source-over of one channel in f64
fn over(bg: f64, ba: f64, fg: f64, fa: f64) -> (f64, f64) {
    let a = ba + fa - ba * fa;
    if a == 0.0 {
        return (bg, 0.0);
    }
    ((fg * fa + bg * ba * (1.0 - fa)) / a, a)
}

fn blend_one<P: Pixel + std::fmt::Debug>(c: &mut Case, bg: P, fg: P)
where
    P::Subpixel: Samp,
{
    let n = P::CHANNEL_COUNT as usize;
    let max = P::Subpixel::MAXV;
    let mut out = bg;
    let r = catch(|| out.blend(&fg));
    let ty = P::Subpixel::NAME;
    if let Err(e) = r {
        c.fail(&format!("blend-panic:{n}{ty}"), format!("{bg:?} blend {fg:?}: {e}"));
        return;
    }
    let (o, b, f) = (bits(&out), bits(&bg), bits(&fg));
    if !has_alpha::<P>() {
        check!(c, o == f, "blend-opaque", "{bg:?} blend {fg:?} = {out:?}");
        return;
    }
    let (ba, fa) = (bg.channels()[n - 1].f() / max, fg.channels()[n - 1].f() / max);
    if fa == 1.0 && fg.channels()[n - 1].bits() == P::Subpixel::DEFAULT_MAX_VALUE.bits() {
        check!(c, o == f, format!("blend-opaque-source:{n}{ty}"), "{bg:?} blend opaque {fg:?} = {out:?}");
        c.count("opaque blends", 1);
        return;
    }
    if fa == 0.0 {
        check!(c, o == b, format!("blend-transparent:{n}{ty}"), "{bg:?} blend transparent {fg:?} = {out:?}");
        c.count("transparent blends", 1);
        return;
    }
    // truncation to integers plus the error of single precision arithmetic; the
    // quotient magnifies it when the resulting alpha is tiny
    let alpha = ba + fa - ba * fa;
    for i in 0..n {
        let g = out.channels()[i].f();
        let want = if i == n - 1 { alpha } else { over(bg.channels()[i].f() / max, ba, fg.channels()[i].f() / max, fa).0 };
        let eps = 6e-7 * max * (1.0 + if alpha > 0.0 { 2e-7 / alpha } else { 0.0 });
        let tol = eps + if P::Subpixel::INT { 1.0 } else { 0.0 };
        check!(c, (g - want * max).abs() <= tol, format!("blend-value:{n}{ty}"), "{bg:?} blend {fg:?} = {out:?}, channel {i} should be {}", want * max);
        check!(c, g >= 0.0 && g <= max + if P::Subpixel::INT { 0.0 } else { 1e-6 }, "blend-range", "{bg:?} blend {fg:?} = {out:?}");
    }
    c.count("partial blends", 1);
}

fn nonneg<P: Pixel>(p: P) -> P
where
    P::Subpixel: Samp,
{
    p.map(|v| if v.f() < 0.0 { P::Subpixel::unit(0.25) } else { v })
}

fn blends<P: Pixel + std::fmt::Debug + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    for _ in 0..4 {
        let (bg, mut fg): (P, P) = (nonneg(some(c)), nonneg(some(c)));
        if has_alpha::<P>() {
            let n = P::CHANNEL_COUNT as usize;
            match c.rng.below(5) {
                0 => fg.channels_mut()[n - 1] = P::Subpixel::DEFAULT_MAX_VALUE,
                1 => fg.channels_mut()[n - 1] = P::Subpixel::unit(0.0),
                _ => {}
            }
        }
        c.eval(bits(&bg).iter().chain(bits(&fg).iter()).fold(3, |a, b| mix(a ^ b)) | 1);
        blend_one(c, bg, fg);
        // the image level forms
        let mut im: gen::Buf<P> = ImageBuffer::from_pixel(2, 1, bg);
        let (mut a, mut b) = (bg, bg);
        if catch(|| a.blend(&fg)).is_ok() {
            im.blend_pixel(1, 0, fg);
            check!(c, bits(im.get_pixel(1, 0)) == bits(&a) && bits(im.get_pixel(0, 0)) == bits(&bg), "blend_pixel", "blend_pixel {bg:?} {fg:?}");
            im.sub_image(0, 0, 1, 1).blend_pixel(0, 0, fg);
            check!(c, bits(im.get_pixel(0, 0)) == bits(&a), "blend_pixel-sub", "blend_pixel through a sub-image {bg:?} {fg:?}");
        }
        let _ = b.channels_mut();
    }
}

/// gray with alpha: every (background, source alpha) pair for a few values
fn la8(c: &mut Case) {
    let fa = (c.idx % 256) as u8;
    for _ in 0..8 {
        let fg = LumaA([c.rng.u8(), fa]);
        for ba in 0..=255u8 {
            let bg = LumaA([c.rng.u8(), ba]);
            blend_one(c, bg, fg);
        }
    }
    for v in 0..=255u8 {
        blend_one(c, LumaA([v, 255 - fa]), LumaA([255 - v, fa]));
        blend_one(c, LumaA([v, fa]), LumaA([v, 0]));
        blend_one(c, LumaA([fa, v]), LumaA([v, 255]));
        blend_one(c, Rgba([v, fa, v, fa]), Rgba([fa, v, v, v]));
    }
    c.eval(c.idx + 1);
}

fn any<F>(c: &mut Case, f: F)
where
    F: Fn(&mut Case, u64),
{
    let k = c.rng.below(40);
    f(c, k)
}
macro_rules! dispatch {
    ($c:expr, $k:expr, $f:ident; $($t:ty),*) => {{
        let mut _i = 0;
        $(
            if $k / 4 == _i {
                match $k % 4 { 0 => $f::<Luma<$t>>($c), 1 => $f::<LumaA<$t>>($c), 2 => $f::<Rgb<$t>>($c), _ => $f::<Rgba<$t>>($c) }
                return;
            }
            _i += 1;
        )*
    }};
}

pub fn run(ctx: &Ctx) {
    ctx.rule("distinct = (pixel type, operand values); closure calls are logged and compared in order; blending is compared with f64 source-over");
    ctx.assume("blending of 32/64-bit integer samples is only required to the precision of single floats");
    ctx.section("maps", 20_000, 400_000, |c| any(c, |c, k| dispatch!(c, k, maps; u8, u16, u32, f32, i16, u64, i8, f64, i32, i64)));
    ctx.section("inverts", 20_000, 400_000, |c| any(c, |c, k| dispatch!(c, k, inverts; u8, u16, u32, f32, i16, u64, i8, f64, i32, u8)));
    ctx.section("blends", 100_000, 2_000_000, |c| any(c, |c, k| dispatch!(c, k, blends; u8, u16, u32, f32, i16, u64, u8, f64, u16, f32)));
    ctx.section("la8", 256, 256, la8);
    ctx.require("pixels mapped", 1000);
    ctx.require("partial blends", 10_000);
    ctx.require("opaque blends", 1000);
    ctx.require("transparent blends", 1000);
}
