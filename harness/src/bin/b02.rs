//! B02: overlay, replace, tile and gradients write exactly the visible pixels.
use image::{imageops, DynamicImage, GenericImage, GenericImageView, ImageBuffer, Luma, LumaA, Pixel, Rgb, Rgba};
use vh::gen::{self, Samp};
use vh::model::{Grid, Plain};
use vh::{check, mix, Case, Ctx};

vh::property_main!("B02");

fn key(a: &[u64]) -> u64 {
    a.iter().fold(13, |h, v| mix(h ^ v)) | 1
}
fn dims(c: &mut Case) -> (u32, u32) {
    if let Some(d) = c.rng.long(500) {
        return d;
    }
    if c.rng.chance(1, 12) {
        return (c.rng.r32(0, 3), c.rng.r32(0, 3));
    }
    (c.rng.size(22), c.rng.size(22))
}
fn offset(c: &mut Case, bottom: u32, top: u32) -> i64 {
    match c.rng.below(12) {
        0 => *c.rng.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, i64::MAX - 1]),
        1 => *c.rng.pick(&[
            1 << 32,
            -(1 << 32),
            (1 << 32) - 1,
            (1 << 32) + 1,
            -(1i64 << 32) + 1,
            1 << 31,
            -(1 << 31),
            -(1 << 31) - 1,
            (1 << 31) - 1,
            1 << 33,
            (1 << 32) + 3,
            -(1i64 << 32) - 3,
            -(1i64 << 33) - 2,
        ]),
        2 => i64::MAX - c.rng.irange(0, top as i64 + 2),
        3 => i64::MIN + c.rng.irange(0, top as i64 + 2),
        4 => bottom as i64 - c.rng.irange(0, 2),
        5 => -(top as i64) + c.rng.irange(-1, 2),
        6 => c.rng.irange(-3, 3),
        // a multiple of 2^32 away from a visible position
        7 => c.rng.irange(-(top as i64), bottom as i64) + (c.rng.irange(-4, 4) << 32),
        8 => c.rng.u64() as i64,
        _ => c.rng.irange(-(top as i64) - 2, bottom as i64 + 2),
    }
}

fn model<P: Pixel>(bottom: &Grid<P>, top: &Grid<P>, x: i64, y: i64, mut f: impl FnMut(P, P) -> P) -> (Grid<P>, u64) {
    let mut hit = 0;
    let g = Grid::from_fn(bottom.w, bottom.h, |i, j| {
        let b = bottom.get(i, j);
        let (tx, ty) = (i as i128 - x as i128, j as i128 - y as i128);
        if tx >= 0 && ty >= 0 && tx < top.w as i128 && ty < top.h as i128 {
            hit += 1;
            f(b, top.get(tx as u32, ty as u32))
        } else {
            b
        }
    });
    (g, hit)
}
fn blend<P: Pixel>(mut b: P, t: P) -> P {
    b.blend(&t);
    b
}

fn place<P: Pixel + std::fmt::Debug + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    let (bw, bh) = dims(c);
    let (tw, th) = if c.rng.chance(1, 3) { (bw, bh) } else { dims(c) };
    let bot = gen::image::<P>(&mut c.rng, bw, bh);
    let top = gen::image::<P>(&mut c.rng, tw, th);
    let (gb, gt) = (Grid::of(&bot), Grid::of(&top));
    for k in 0..6 {
        let (x, y) = (offset(c, bw, tw), offset(c, bh, th));
        let (ov, hit) = model(&gb, &gt, x, y, blend);
        let (rp, _) = model(&gb, &gt, x, y, |_, t| t);
        c.eval(key(&[bw as u64, bh as u64, tw as u64, th as u64, x as u64, y as u64]));
        c.count("visible pixels", hit);
        if hit == 0 {
            c.count("placements outside", 1);
        } else if hit < tw as u64 * th as u64 {
            c.count("placements clipped", 1);
        }
        if k == 0 {
            c.sample(|| format!("{tw}x{th} at ({x},{y}) on {bw}x{bh}: {hit} visible"));
        }
        let what = format!("{tw}x{th} at ({x},{y}) on {bw}x{bh}");
        macro_rules! cmp {
            ($sig:expr, $got:expr, $want:expr) => {
                if let Some(d) = $got.diff($want) {
                    c.fail($sig, format!("{what}: {d}"));
                }
            };
        }
        let mut a = bot.clone();
        imageops::overlay(&mut a, &top, x, y);
        cmp!("overlay", Grid::of(&a), &ov);
        let mut a = bot.clone();
        imageops::replace(&mut a, &top, x, y);
        cmp!("replace", Grid::of(&a), &rp);
        match k % 3 {
            0 => {
                let mut a = Plain(gb.clone());
                imageops::overlay(&mut a, &Plain(gt.clone()), x, y);
                cmp!("overlay-plain", a.0, &ov);
                let mut a = Plain(gb.clone());
                imageops::replace(&mut a, &Plain(gt.clone()), x, y);
                cmp!("replace-plain", a.0, &rp);
            }
            1 => {
                // onto a rectangle of a larger image: nothing outside changes
                let (px, py) = (c.rng.r32(0, 3), c.rng.r32(0, 3));
                let mut big = gen::image::<P>(&mut c.rng, bw + px + 2, bh + py + 2);
                let mut want = Grid::of(&big);
                for j in 0..bh {
                    for i in 0..bw {
                        big.put_pixel(i + px, j + py, gb.get(i, j));
                        want.set(i + px, j + py, rp.get(i, j));
                    }
                }
                let mut big2 = big.clone();
                let mut want2 = want.clone();
                for j in 0..bh {
                    for i in 0..bw {
                        want2.set(i + px, j + py, ov.get(i, j));
                    }
                }
                imageops::replace(&mut *big.sub_image(px, py, bw, bh), &top, x, y);
                cmp!("replace-sub", Grid::of(&big), &want);
                imageops::overlay(&mut *big2.sub_image(px, py, bw, bh), &top, x, y);
                cmp!("overlay-sub", Grid::of(&big2), &want2);
            }
            _ => {
                // a sub-image as the source
                let (sx, sy) = (c.rng.r32(0, tw), c.rng.r32(0, th));
                let (sw, sh) = (c.rng.r32(0, tw - sx), c.rng.r32(0, th - sy));
                let st = gt.crop(sx, sy, sw, sh);
                let (rp, _) = model(&gb, &st, x, y, |_, t| t);
                let (ov, _) = model(&gb, &st, x, y, blend);
                let mut a = bot.clone();
                imageops::replace(&mut a, &*top.view(sx, sy, sw, sh), x, y);
                cmp!("replace-view", Grid::of(&a), &rp);
                let mut a = bot.clone();
                imageops::overlay(&mut a, &*top.view(sx, sy, sw, sh), x, y);
                cmp!("overlay-view", Grid::of(&a), &ov);
            }
        }
    }
    // unsigned bounds helper
    for _ in 0..6 {
        let z = |c: &mut Case| match c.rng.below(4) {
            0 => u32::MAX - c.rng.r32(0, 5),
            1 => c.rng.u32(),
            _ => c.rng.r32(0, 12),
        };
        let (b, t, x, y) = ((z(c), z(c)), (z(c), z(c)), z(c), z(c));
        let r = |b: u32, t: u32, x: u32| (x as u64 + t as u64).min(b as u64).min(u32::MAX as u64).saturating_sub(x as u64) as u32;
        let want = (r(b.0, t.0, x), r(b.1, t.1, y));
        let got = imageops::overlay_bounds(b, t, x, y);
        c.eval(key(&[b.0 as u64, t.0 as u64, x as u64, b.1 as u64, t.1 as u64, y as u64, 77]));
        check!(c, got == want, "overlay_bounds", "overlay_bounds({b:?},{t:?},{x},{y}) = {got:?}, expected {want:?}");
    }
    // tiling
    {
        let mut a = bot.clone();
        imageops::tile(&mut a, &top);
        let want = if tw == 0 || th == 0 {
            gb.clone()
        } else {
            Grid::from_fn(bw, bh, |i, j| blend(gb.get(i, j), gt.get(i % tw, j % th)))
        };
        c.eval(key(&[bw as u64, bh as u64, tw as u64, th as u64, 3]));
        c.count("tilings", 1);
        if let Some(d) = Grid::of(&a).diff(&want) {
            c.fail("tile", format!("{tw}x{th} over {bw}x{bh}: {d}"));
        }
        let mut a = Plain(gb.clone());
        imageops::tile(&mut a, &top);
        if let Some(d) = a.0.diff(&want) {
            c.fail("tile-plain", format!("{tw}x{th} over {bw}x{bh}: {d}"));
        }
    }
}

fn dynamic(c: &mut Case) {
    // DynamicImage as bottom and top (8-bit RGBA pixels)
    let (bw, bh) = dims(c);
    let (tw, th) = dims(c);
    let bc = *c.rng.pick(&gen::COLORS);
    let tc = *c.rng.pick(&gen::COLORS);
    let bot = gen::dynamic(&mut c.rng, bc, bw, bh);
    let top = gen::dynamic(&mut c.rng, tc, tw, th);
    let (x, y) = (offset(c, bw, tw), offset(c, bh, th));
    let mut a = bot.clone();
    imageops::replace(&mut a, &top, x, y);
    let mut o = bot.clone();
    imageops::overlay(&mut o, &top, x, y);
    c.eval(key(&[bw as u64, tw as u64, x as u64, y as u64, bc as u64, tc as u64]));
    check!(c, a.color() == bc && a.dimensions() == (bw, bh) && o.color() == bc, "dyn-shape", "colour or size changed");
    for j in 0..bh {
        for i in 0..bw {
            let (tx, ty) = (i as i128 - x as i128, j as i128 - y as i128);
            let vis = tx >= 0 && ty >= 0 && tx < tw as i128 && ty < th as i128;
            let (mut e, mut f): (DynamicImage, DynamicImage) = (bot.crop_imm(i, j, 1, 1), bot.crop_imm(i, j, 1, 1));
            if vis {
                c.count("visible pixels", 1);
                let p = top.get_pixel(tx as u32, ty as u32);
                e.put_pixel(0, 0, p);
                let mut q = f.get_pixel(0, 0);
                q.blend(&p);
                f.put_pixel(0, 0, q);
            }
            let got = a.crop_imm(i, j, 1, 1);
            check!(c, got.as_bytes() == e.as_bytes(), "dyn-replace", "{tw}x{th} {tc:?} at ({x},{y}) on {bw}x{bh} {bc:?}: pixel ({i},{j})");
            let got = o.crop_imm(i, j, 1, 1);
            check!(c, got.as_bytes() == f.as_bytes(), "dyn-overlay", "{tw}x{th} {tc:?} at ({x},{y}) on {bw}x{bh} {bc:?}: pixel ({i},{j})");
        }
    }
}

macro_rules! grad {
    ($c:expr, $P:ty, $S:ty) => {{
        type P = $P;
        type S = $S;
        let c: &mut Case = $c;
    let (w, h) = match c.rng.below(6) {
        _ if c.rng.chance(1, 200) => c.rng.long(1).unwrap(),
        0 => (c.rng.r32(0, 3), c.rng.r32(0, 3)),
        1 => (c.rng.r32(0, 400), c.rng.r32(0, 3)),
        2 => (c.rng.r32(0, 3), c.rng.r32(0, 400)),
        _ => (c.rng.size(40), c.rng.size(40)),
    };
    let (a, b): (P, P) = (gen::pixel_edge(&mut c.rng), gen::pixel_edge(&mut c.rng));
    for vertical in [false, true] {
        let mut img = gen::image::<P>(&mut c.rng, w, h);
        let mut pl = Plain(Grid::of(&img));
        if vertical {
            imageops::vertical_gradient(&mut img, &a, &b);
            imageops::vertical_gradient(&mut pl, &a, &b);
        } else {
            imageops::horizontal_gradient(&mut img, &a, &b);
            imageops::horizontal_gradient(&mut pl, &a, &b);
        }
        let g = Grid::of(&img);
        let dir = if vertical { "vertical" } else { "horizontal" };
        c.eval(key(&[w as u64, h as u64, vertical as u64, vh::hash_str(&format!("{a:?}{b:?}"))]));
        c.count("gradients", 1);
        if let Some(d) = pl.0.diff(&g) {
            c.fail("gradient-plain", format!("{dir} {d}"));
        }
        let (n, m) = if vertical { (h, w) } else { (w, h) };
        if n == 0 || m == 0 {
            continue;
        }
        let at = |i: u32, j: u32| if vertical { g.get(j, i) } else { g.get(i, j) };
        for ch in 0..P::CHANNEL_COUNT as usize {
            let (s, e) = (a.channels()[ch].f(), b.channels()[ch].f());
            let v: Vec<f64> = (0..n).map(|i| at(i, 0).channels()[ch].f()).collect();
            let eps = if S::INT { 0.0 } else { 1e-6 * (1.0 + s.abs() + e.abs()) };
            let what = format!("{dir} {w}x{h} from {a:?} to {b:?} channel {ch}");
            check!(c, (v[0] - s).abs() <= eps, "gradient-start", "{what}: starts at {}", v[0]);
            if n > 1 {
                check!(c, (v[n as usize - 1] - e).abs() <= eps, "gradient-end", "{what}: ends at {}", v[n as usize - 1]);
            }
            for i in 1..n as usize {
                let up = v[i] - v[i - 1];
                check!(c, if e >= s { up >= -eps } else { up <= eps }, "gradient-monotone", "{what}: {} then {} at {i}", v[i - 1], v[i]);
                let t = i as f64 / (n - 1) as f64;
                let ideal = s + (e - s) * t;
                let tol = if S::INT { 1.0 + 1e-6 * (s.abs() + e.abs()) } else { 1e-5 * (1.0 + s.abs() + e.abs()) };
                check!(c, (v[i] - ideal).abs() <= tol, "gradient-linear", "{what}: {} at {i}, linear is {ideal}", v[i]);
            }
            for i in 0..n {
                for j in 1..m {
                    let q = at(i, j).channels()[ch].f();
                    check!(c, q == v[i as usize], "gradient-across", "{what}: {q} and {} at {i}", v[i as usize]);
                }
            }
        }
    }
    }}
}
fn gradient(c: &mut Case) {
    match c.rng.below(8) {
        0 => grad!(c, Luma<u8>, u8),
        1 => grad!(c, LumaA<u8>, u8),
        2 => grad!(c, Rgb<u8>, u8),
        3 => grad!(c, Rgba<u8>, u8),
        4 => grad!(c, Rgba<u16>, u16),
        5 => grad!(c, Luma<u16>, u16),
        6 => grad!(c, Rgb<u32>, u32),
        _ => grad!(c, Rgb<f32>, f32),
    }
}

#[allow(unused)]
fn _t(_: &ImageBuffer<Rgb<u8>, Vec<u8>>, _: Rgba<u8>) {}

pub fn run(ctx: &Ctx) {
    ctx.rule("an evaluation compares a whole bottom image after one call with the pixelwise definition computed in 128-bit coordinates (gradients: with the linear ramp)");
    ctx.section("place", 20000, 250_000, |c| vh::some_pixel!(c, place));
    ctx.section("dynamic", 2000, 20_000, dynamic);
    ctx.section("gradient", 8000, 100_000, gradient);
    ctx.require("visible pixels", 100_000);
    ctx.require("placements clipped", 1000);
    ctx.require("placements outside", 1000);
    ctx.require("gradients", 1000);
    ctx.require("tilings", 1000);
}
