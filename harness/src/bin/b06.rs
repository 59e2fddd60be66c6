//! B06: point sampling and interpolation return the right neighbourhood value.
use image::imageops::{interpolate_bilinear, interpolate_nearest, sample_bilinear, sample_nearest};
use image::{GenericImageView, Pixel, Rgba};
use std::cell::RefCell;
use vh::gen::{self, Samp};
use vh::model::{Grid, Plain};
use vh::{catch, check, mix, Case, Ctx};

vh::property_main!("B06");

fn key(a: &[u64]) -> u64 {
    a.iter().fold(29, |h, v| mix(h ^ v)) | 1
}

fn special(c: &mut Case, hi: f32) -> f32 {
    let up = |v: f32| f32::from_bits(v.to_bits() + 1);
    let down = |v: f32| if v > 0.0 { f32::from_bits(v.to_bits() - 1) } else { -f32::from_bits(1) };
    *c.rng.pick(&[
        f32::NAN,
        -f32::NAN,
        f32::INFINITY,
        f32::NEG_INFINITY,
        -0.0,
        0.0,
        f32::MIN_POSITIVE,
        -f32::MIN_POSITIVE,
        f32::from_bits(1),
        -f32::from_bits(1),
        f32::MAX,
        f32::MIN,
        1.0,
        up(1.0),
        down(1.0),
        0.5,
        hi,
        up(hi),
        down(hi),
        hi + 0.5,
        hi - 0.5,
        -0.5,
        -1.0,
        hi + 1.0,
        4294967296.0,
        -4294967296.0,
    ])
}

/// A coordinate for a domain `0..=hi`, `n` pixels long.
fn coord(c: &mut Case, hi: f32, n: u32) -> f32 {
    match c.rng.below(8) {
        0 => special(c, hi),
        1 => (c.rng.irange(-2, n as i64 + 1)) as f32,
        2 => c.rng.irange(-2, 2 * n as i64 + 2) as f32 * 0.5,
        3 => (c.rng.f32() * 3.0 - 1.0) * hi,
        4 => {
            let k = c.rng.r32(0, n) as f32 + 0.5;
            let b = k.to_bits() as i64 + c.rng.irange(-2, 2);
            f32::from_bits(b as u32)
        }
        5 => c.rng.range(0, 2 * n as u64) as f32 / (2.0 * n.max(1) as f32) * hi,
        _ => c.rng.f32() * hi,
    }
}

/// Records which pixels were read.
struct Spy<P: Pixel>(Grid<P>, RefCell<Vec<(u32, u32)>>);
impl<P: Pixel> GenericImageView for Spy<P> {
    type Pixel = P;
    fn dimensions(&self) -> (u32, u32) {
        (self.0.w, self.0.h)
    }
    fn get_pixel(&self, x: u32, y: u32) -> P {
        self.1.borrow_mut().push((x, y));
        self.0.get(x, y)
    }
}

struct Axis {
    lo: u32,
    hi: u32,
    t: f64,
}
fn axis(v: f32, n: u32) -> Axis {
    let v = v as f64;
    let lo = v.floor();
    Axis { lo: lo as u32, hi: (lo as u32 + 1).min(n - 1), t: v - lo }
}

/// Positions `sample_*` may stand for: the coordinate is `w*u-0.5` in single
/// precision, so that a position within its rounding error is as good.
fn uv_pos(u: f32, n: u32) -> (f64, f64) {
    let p = (n as f64 * u as f64 - 0.5).clamp(0.0, (n - 1) as f64);
    (p, n as f64 * 2.0f64.powi(-23) + 1e-7)
}

fn inside(v: f32, n: u32) -> bool {
    n > 0 && (v as f64) >= 0.0 && (v as f64) <= (n - 1) as f64
}

/// Bilinear value at an f64 position together with the four-pixel hull.
fn bilinear<P: Pixel>(g: &Grid<P>, x: f64, y: f64) -> Vec<(f64, f64, f64)>
where
    P::Subpixel: Samp,
{
    let (a, b) = (x.floor(), y.floor());
    let (fx, fy) = (x - a, y - b);
    let (x0, y0) = (a as u32, b as u32);
    let (x1, y1) = ((x0 + 1).min(g.w - 1), (y0 + 1).min(g.h - 1));
    let p = [g.get(x0, y0), g.get(x1, y0), g.get(x0, y1), g.get(x1, y1)];
    let wt = [(1.0 - fx) * (1.0 - fy), fx * (1.0 - fy), (1.0 - fx) * fy, fx * fy];
    (0..P::CHANNEL_COUNT as usize)
        .map(|ch| {
            let s: Vec<f64> = p.iter().map(|q| q.channels()[ch].f()).collect();
            let v = (0..4).map(|i| wt[i] * s[i]).sum();
            (v, s.iter().cloned().fold(f64::MAX, f64::min), s.iter().cloned().fold(f64::MIN, f64::max))
        })
        .collect()
}

fn body<P: Pixel + std::fmt::Debug + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    type S<P> = <P as Pixel>::Subpixel;
    let (w, h) = match c.rng.below(8) {
        _ if c.rng.chance(1, 300) => c.rng.long(1).unwrap(),
        0 => (c.rng.r32(0, 1), c.rng.r32(0, 3)),
        1 => (c.rng.r32(0, 3), c.rng.r32(0, 1)),
        2 => (c.rng.r32(1, 300), 1),
        3 => (1, c.rng.r32(1, 300)),
        _ => (c.rng.size(24), c.rng.size(24)),
    };
    let img = gen::image::<P>(&mut c.rng, w, h);
    let g = Grid::of(&img);
    let kind = format!("{w}x{h} {}x{}", P::CHANNEL_COUNT, S::<P>::NAME);
    c.sample(|| kind.clone());
    // what single precision can tell apart
    let scale = g.px.iter().flat_map(|p| p.channels().iter().map(|s| s.f().abs())).fold(0.0, f64::max);
    let wide = S::<P>::MAXV > 1e8;
    let round = if S::<P>::INT { 0.5 } else { 0.0 } + if wide { scale * 4e-7 } else { scale * 1e-6 };
    let exact_f32 = S::<P>::MAXV < 1e8 && S::<P>::NAME != "f64";
    for _ in 0..60 {
        // --- coordinates in pixels
        let x = coord(c, w.saturating_sub(1) as f32, w);
        let y = coord(c, h.saturating_sub(1) as f32, h);
        let ok = inside(x, w) && inside(y, h);
        c.eval(key(&[w as u64, h as u64, x.to_bits() as u64, y.to_bits() as u64]));
        c.count(if ok { "positions inside" } else { "positions outside" }, 1);
        let spy = Spy(g.clone(), RefCell::default());
        let near = interpolate_nearest(&img, x, y);
        let near2 = interpolate_nearest(&spy, x, y);
        check!(c, near.is_some() == ok && near2.is_some() == ok, "nearest-domain", "interpolate_nearest of {kind} at {x:?},{y:?}: {near:?}");
        if ok {
            if let (Some(p), Some(q)) = (near, near2) {
                let want = g.get((x as f64).round() as u32, (y as f64).round() as u32);
                check!(c, gen::bits_of(&p) == gen::bits_of(&want) && gen::bits_of(&q) == gen::bits_of(&want), "nearest-value", "interpolate_nearest of {kind} at {x:?},{y:?}: {p:?}, expected {want:?}");
            }
        }
        let lin = interpolate_bilinear(&img, x, y);
        let lin2 = interpolate_bilinear(&spy, x, y);
        check!(c, lin.is_some() == ok && lin2.is_some() == ok, "bilinear-domain", "interpolate_bilinear of {kind} at {x:?},{y:?}: {lin:?}");
        if ok {
            if let (Some(p), Some(q)) = (lin, lin2) {
                check!(c, gen::bits_of(&p) == gen::bits_of(&q), "bilinear-view", "interpolate_bilinear of {kind} at {x:?},{y:?}: {p:?} from a buffer, {q:?} from a view");
                let (ax, ay) = (axis(x, w), axis(y, h));
                let ref_v = bilinear(&g, x as f64, y as f64);
                for (ch, &(v, lo, hi)) in ref_v.iter().enumerate() {
                    let s = p.channels()[ch].f();
                    c.count("bilinear samples", 1);
                    check!(c, (s - v).abs() <= round, "bilinear-value", "interpolate_bilinear of {kind} at {x:?},{y:?} channel {ch}: {s}, expected {v}");
                    let slack = if S::<P>::INT && !wide { 0.0 } else { scale * 4e-7 };
                    check!(c, s >= lo - slack && s <= hi + slack, "bilinear-range", "interpolate_bilinear of {kind} at {x:?},{y:?} channel {ch}: {s} outside {lo}..{hi}");
                }
                if ax.t == 0.0 && ay.t == 0.0 && exact_f32 {
                    c.count("grid points", 1);
                    let want = g.get(ax.lo, ay.lo);
                    let same = p.channels().iter().zip(want.channels()).all(|(a, b)| a.f() == b.f());
                    check!(c, same, "bilinear-grid", "interpolate_bilinear of {kind} at {x:?},{y:?}: {p:?}, the pixel is {want:?}");
                }
                for &(i, j) in spy.1.borrow().iter() {
                    let near = i >= ax.lo && i <= ax.hi.max(((x as f64).round()) as u32) && j >= ay.lo && j <= ay.hi.max((y as f64).round() as u32);
                    check!(c, near, "neighbourhood", "interpolating {kind} at {x:?},{y:?} read the pixel {i},{j}");
                }
            }
        } else {
            check!(c, spy.1.borrow().is_empty(), "outside-read", "interpolating {kind} at {x:?},{y:?} read {:?}", spy.1.borrow());
        }
        // --- normalised coordinates
        let u = coord(c, 1.0, w);
        let v = coord(c, 1.0, h);
        let unit = |v: f32| (0.0..=1.0).contains(&(v as f64));
        let ok = unit(u) && unit(v) && w > 0 && h > 0;
        c.eval(key(&[w as u64, h as u64, u.to_bits() as u64, v.to_bits() as u64, 1]));
        c.count(if ok { "normalised positions inside" } else { "normalised positions outside" }, 1);
        let near = sample_nearest(&img, u, v);
        let near2 = sample_nearest(&Plain(g.clone()), u, v);
        check!(c, near.is_some() == ok && near2.is_some() == ok, "sample-nearest-domain", "sample_nearest of {kind} at {u:?},{v:?}: {near:?}");
        let lin = sample_bilinear(&img, u, v);
        let lin2 = sample_bilinear(&Plain(g.clone()), u, v);
        check!(c, lin.is_some() == ok && lin2.is_some() == ok, "sample-bilinear-domain", "sample_bilinear of {kind} at {u:?},{v:?}: {lin:?}");
        if !ok {
            continue;
        }
        let ((px, ex), (py, ey)) = (uv_pos(u, w), uv_pos(v, h));
        if let (Some(p), Some(q)) = (near, near2) {
            check!(c, gen::bits_of(&p) == gen::bits_of(&q), "sample-nearest-view", "sample_nearest of {kind} at {u:?},{v:?}: {p:?} from a buffer, {q:?} from a view");
            let mut any = false;
            for dx in [px - ex, px, px + ex] {
                for dy in [py - ey, py, py + ey] {
                    let i = dx.clamp(0.0, (w - 1) as f64).round() as u32;
                    let j = dy.clamp(0.0, (h - 1) as f64).round() as u32;
                    any |= gen::bits_of(&g.get(i, j)) == gen::bits_of(&p);
                }
            }
            check!(c, any, "sample-nearest-value", "sample_nearest of {kind} at {u:?},{v:?}: {p:?} is not the pixel at {px},{py}");
        }
        if let (Some(p), Some(q)) = (lin, lin2) {
            check!(c, gen::bits_of(&p) == gen::bits_of(&q), "sample-bilinear-view", "sample_bilinear of {kind} at {u:?},{v:?}: {p:?} from a buffer, {q:?} from a view");
            let ref_v = bilinear(&g, px, py);
            // the value moves by at most the range of the samples per pixel
            let tol = round + (ex + ey) * 2.0 * scale;
            for (ch, &(val, _, _)) in ref_v.iter().enumerate() {
                let s = p.channels()[ch].f();
                c.count("bilinear samples", 1);
                check!(c, (s - val).abs() <= tol, "sample-bilinear-value", "sample_bilinear of {kind} at {u:?},{v:?} channel {ch}: {s}, expected {val}");
            }
        }
    }
}

/// A view of any size with computed pixels; refuses coordinates outside.
struct Huge {
    w: u32,
    h: u32,
}
impl GenericImageView for Huge {
    type Pixel = Rgba<u16>;
    fn dimensions(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    fn get_pixel(&self, x: u32, y: u32) -> Rgba<u16> {
        assert!(x < self.w && y < self.h, "pixel {x},{y} of a {}x{} view", self.w, self.h);
        Rgba([x as u16, (x >> 16) as u16, y as u16, (y >> 16) as u16])
    }
}
fn huge(c: &mut Case) {
    let side = |c: &mut Case| -> u32 {
        match c.rng.below(6) {
            0 => u32::MAX - c.rng.r32(0, 600),
            1 => (1u32 << c.rng.r32(20, 31)).wrapping_add(c.rng.irange(-4, 4) as u32),
            2 => c.rng.u32().max(1),
            _ => 1 + c.rng.r32(0, 8),
        }
    };
    let v = Huge { w: side(c), h: side(c) };
    let (w, h) = (v.w, v.h);
    for _ in 0..40 {
        let x = coord(c, (w - 1) as f32, w);
        let y = coord(c, (h - 1) as f32, h);
        c.eval(key(&[w as u64, h as u64, x.to_bits() as u64, y.to_bits() as u64, 2]));
        // the last position is not representable in single precision: its
        // neighbour may be taken for it
        let sure = inside(x, w) && inside(y, h);
        let maybe = x >= 0.0 && x <= (w - 1) as f32 && y >= 0.0 && y <= (h - 1) as f32;
        c.count("positions in huge views", 1);
        let r = catch(|| (interpolate_nearest(&v, x, y), interpolate_bilinear(&v, x, y)));
        match r {
            Err(p) => c.fail("huge-panic", format!("interpolating a {w}x{h} view at {x:?},{y:?}: {p}")),
            Ok((n, b)) => {
                check!(c, !sure || (n.is_some() && b.is_some()), "huge-domain", "a {w}x{h} view at {x:?},{y:?}: {n:?} {b:?}");
                check!(c, maybe || (n.is_none() && b.is_none()), "huge-domain", "a {w}x{h} view at {x:?},{y:?}: {n:?} {b:?}");
                if let (true, Some(n)) = (sure, n) {
                    let at = (n.0[0] as u32 | (n.0[1] as u32) << 16, n.0[2] as u32 | (n.0[3] as u32) << 16);
                    let want = ((x as f64).round() as u32, (y as f64).round() as u32);
                    check!(c, at == want, "huge-nearest", "a {w}x{h} view at {x:?},{y:?}: the pixel {at:?}");
                }
            }
        }
        let (u, t) = (coord(c, 1.0, 9), coord(c, 1.0, 9));
        let ok = (0.0..=1.0).contains(&u) && (0.0..=1.0).contains(&t);
        match catch(|| (sample_nearest(&v, u, t), sample_bilinear(&v, u, t))) {
            Err(p) => c.fail("huge-panic", format!("sampling a {w}x{h} view at {u:?},{t:?}: {p}")),
            Ok((n, b)) => check!(c, n.is_some() == ok && b.is_some() == ok, "huge-sample-domain", "a {w}x{h} view at {u:?},{t:?}: {n:?} {b:?}"),
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("one image size and one pair of coordinates; distinct by size and coordinate bits");
    ctx.assume("positions of normalised coordinates are computed in single precision; a neighbour within that error is accepted");
    ctx.section("sampling", 4000, 150_000, |c| vh::some_pixel!(c, body));
    ctx.section("huge views", 800, 20_000, huge);
    for (n, m) in [("positions inside", 10_000), ("positions outside", 10_000), ("grid points", 1000), ("normalised positions inside", 10_000), ("positions in huge views", 1000)] {
        ctx.require(n, m);
    }
}
