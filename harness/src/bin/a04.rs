//! A04: sub-views, crops and region copies touch exactly the stated rectangle.
#![allow(deprecated)]
use image::flat::{FlatSamples, SampleLayout};
use image::math::Rect;
use image::{imageops, DynamicImage, GenericImage, GenericImageView, ImageBuffer, Pixel, Rgba, SubImage};
use vh::gen::{self, Samp};
use vh::model::{Grid, Plain};
use vh::{catch, check, mix, Case, Ctx};

vh::property_main!("A04");

fn dims(c: &mut Case) -> (u32, u32) {
    if let Some(d) = c.rng.long(500) {
        return d;
    }
    if c.rng.chance(1, 12) {
        return (c.rng.r32(0, 3), c.rng.r32(0, 3));
    }
    (c.rng.size(24), c.rng.size(24))
}
fn key(a: &[u64]) -> u64 {
    a.iter().fold(7, |h, v| mix(h ^ v)) | 1
}

/// (offset, length) inside 0..n, length possibly zero
fn span(c: &mut Case, n: u32) -> (u32, u32) {
    let o = c.rng.r32(0, n);
    let l = match c.rng.below(5) {
        0 => n - o,
        1 => 0,
        _ => c.rng.r32(0, n - o),
    };
    (o, l)
}
/// (offset, length) that does not fit in n
fn bad_span(c: &mut Case, n: u32) -> (u32, u32) {
    let o = match c.rng.below(4) {
        0 => c.rng.r32(0, n),
        1 => u32::MAX - c.rng.r32(0, n + 2),
        2 => n.saturating_add(c.rng.r32(0, 3)),
        _ => c.rng.u32(),
    };
    let room = n.saturating_sub(o);
    let l = match c.rng.below(4) {
        0 => room + 1,
        1 => room + c.rng.r32(1, 5),
        2 => u32::MAX - c.rng.r32(0, 9),
        // offset + length wraps around to something small
        _ => (c.rng.r32(0, n)).wrapping_sub(o),
    };
    if o as u64 + l as u64 > n as u64 {
        (o, l)
    } else {
        (o, room + 1)
    }
}

fn same<P: Pixel + std::fmt::Debug>(c: &mut Case, sig: &str, got: &Grid<P>, want: &Grid<P>, what: &str)
where
    P::Subpixel: Samp,
{
    if let Some(d) = got.diff(want) {
        c.fail(sig, format!("{what}: {d}"));
    }
}

/// Walk into nested views, reading everything at each level.
fn nested<P: Pixel + std::fmt::Debug + 'static, I>(c: &mut Case, img: &mut I, m: &mut Grid<P>, kind: &str)
where
    P::Subpixel: Samp,
    I: GenericImage<Pixel = P> + 'static,
{
    let (x, w) = span(c, m.w);
    let (y, h) = span(c, m.h);
    c.eval(key(&[m.w as u64, m.h as u64, x as u64, y as u64, w as u64, h as u64]));
    let want = m.crop(x, y, w, h);
    // read only
    {
        let v = img.view(x, y, w, h);
        check!(c, v.dimensions() == (w, h) && v.offsets() == (x, y), "view-geom", "{kind} view({x},{y},{w},{h}): {:?} {:?}", v.dimensions(), v.offsets());
        same(c, "view-read", &Grid::of_view(&*v), &want, &format!("{kind} view({x},{y},{w},{h})"));
        same(c, "view-to_image", &Grid::of(&v.to_image()), &want, &format!("{kind} view({x},{y},{w},{h}).to_image"));
        let mut n = 0u64;
        for (px, py, p) in v.pixels() {
            check!(c, (px, py) == ((n % w as u64) as u32, (n / w as u64) as u32) && gen::bits_of(&p) == gen::bits_of(&want.get(px, py)), "view-pixels", "{kind} view pixels() item {n}");
            n += 1;
        }
        check!(c, n == w as u64 * h as u64, "view-pixels-count", "{kind} view pixels() {n} items of {w}x{h}");
        for _ in 0..4 {
            let (a, b) = (c.rng.r32(0, w + 1), c.rng.r32(0, h + 1));
            check!(c, v.in_bounds(a, b) == (a < w && b < h), "view-in_bounds", "{kind} view in_bounds({a},{b}) of {w}x{h}");
        }
        // nested
        let (x2, w2) = span(c, w);
        let (y2, h2) = span(c, h);
        let want2 = want.crop(x2, y2, w2, h2);
        let v2 = v.view(x2, y2, w2, h2);
        check!(c, v2.offsets() == (x + x2, y + y2) && v2.dimensions() == (w2, h2), "nested-geom", "{kind} nested view");
        same(c, "nested-read", &Grid::of_view(&*v2), &want2, &format!("{kind} view({x},{y},{w},{h}).view({x2},{y2},{w2},{h2})"));
        let v3 = GenericImageView::view(&*v, x2, y2, w2, h2);
        same(c, "nested-inner-read", &Grid::of_view(&*v3), &want2, &format!("{kind} inner view"));
        // refusals
        let (bx, bw) = bad_span(c, w);
        let (by, bh) = span(c, h);
        check!(c, catch(|| v.view(bx, by, bw, bh).dimensions()).is_err(), "nested-accepts", "{kind} nested view({bx},{by},{bw},{bh}) of {w}x{h} accepted");
        let (bx, bw) = span(c, w);
        let (by, bh) = bad_span(c, h);
        check!(c, catch(|| v.view(bx, by, bw, bh).dimensions()).is_err(), "nested-accepts", "{kind} nested view({bx},{by},{bw},{bh}) of {w}x{h} accepted");
        // construction and change of bounds
        let mut s = SubImage::new(&*img, 0, 0, m.w, m.h);
        same(c, "new-read", &Grid::of_view(&*s), m, "SubImage::new");
        s.change_bounds(x, y, w, h);
        check!(c, s.offsets() == (x, y) && s.dimensions() == (w, h), "change_bounds-geom", "{kind} change_bounds");
        same(c, "change_bounds-read", &Grid::of(&s.to_image()), &want, "change_bounds");
        same(c, "change_bounds-read", &Grid::of_view(&*s), &want, "change_bounds");
        same(c, "inner-read", &Grid::of_view(s.inner()), m, "inner");
    }
    let (bx, bw) = bad_span(c, m.w);
    let (by, bh) = bad_span(c, m.h);
    let (gx, gw) = span(c, m.w);
    let (gy, gh) = span(c, m.h);
    for (p, q, r, s) in [(bx, gy, bw, gh), (gx, by, gw, bh), (bx, by, bw, bh)] {
        check!(c, catch(|| img.view(p, q, r, s).dimensions()).is_err(), "view-accepts", "{kind} view({p},{q},{r},{s}) of {}x{} accepted", m.w, m.h);
        check!(c, catch(|| img.sub_image(p, q, r, s).dimensions()).is_err(), "sub_image-accepts", "{kind} sub_image({p},{q},{r},{s}) of {}x{} accepted", m.w, m.h);
    }
    // writing, possibly nested
    let deep = c.rng.bool();
    let (x2, w2) = if deep { span(c, w) } else { (0, w) };
    let (y2, h2) = if deep { span(c, h) } else { (0, h) };
    {
        let mut s1 = img.sub_image(x, y, w, h);
        check!(c, s1.dimensions() == (w, h) && s1.offsets() == (x, y), "sub_image-geom", "{kind} sub_image({x},{y},{w},{h})");
        // refusals of the mutable forms: they may fit the image although not the sub-image
        for k in [c.rng.below(3)] {
            let (bx, bw) = if k == 1 { span(c, w) } else { bad_span(c, w) };
            let (by, bh) = if k == 0 { span(c, h) } else { bad_span(c, h) };
            check!(c, catch(|| s1.sub_image(bx, by, bw, bh).dimensions()).is_err(), "nested-accepts", "{kind} nested sub_image({bx},{by},{bw},{bh}) of {w}x{h} in {}x{} accepted", m.w, m.h);
            check!(c, catch(|| GenericImage::sub_image(&mut *s1, bx, by, bw, bh).dimensions()).is_err(), "nested-accepts", "{kind} nested inner sub_image({bx},{by},{bw},{bh}) of {w}x{h} accepted");
            check!(c, catch(|| GenericImageView::view(&*s1, bx, by, bw, bh).dimensions()).is_err(), "nested-accepts", "{kind} nested inner view({bx},{by},{bw},{bh}) of {w}x{h} accepted");
            c.count("nested requests refused", 3);
        }
        if w > 0 && h > 0 {
            let (i, j) = (c.rng.r32(0, w - 1), c.rng.r32(0, h - 1));
            let p: P = gen::pixel(&mut c.rng);
            GenericImage::sub_image(&mut *s1, i, j, w - i, h - j).put_pixel(0, 0, p);
            m.set(x + i, y + j, p);
            let q = s1.sub_image(i, j, w - i, h - j).sub_image(0, 0, 1, 1).get_pixel(0, 0);
            check!(c, gen::bits_of(&q) == gen::bits_of(&p), "nested-3", "{kind} three levels of sub_image");
            c.count("writes through views", 1);
        }
        let mut s = s1.sub_image(x2, y2, w2, h2);
        check!(c, s.dimensions() == (w2, h2) && s.offsets() == (x + x2, y + y2), "sub_image-geom", "{kind} nested sub_image");
        for _ in 0..6 {
            if w2 == 0 || h2 == 0 {
                break;
            }
            let (i, j) = (c.rng.r32(0, w2 - 1), c.rng.r32(0, h2 - 1));
            let p: P = gen::pixel(&mut c.rng);
            let (gx, gy) = (x + x2 + i, y + y2 + j);
            match c.rng.below(4) {
                0 => s.put_pixel(i, j, p),
                // the variant is not documented for dynamic images
                1 if kind != "dynamic" => *s.get_pixel_mut(i, j) = p,
                2 => unsafe { s.unsafe_put_pixel(i, j, p) },
                _ => {
                    s.put_pixel(i, j, p);
                    let q: P = gen::pixel(&mut c.rng);
                    let mut z = p;
                    z.blend(&q);
                    s.blend_pixel(i, j, q);
                    m.set(gx, gy, z);
                    c.count("blends through views", 1);
                    continue;
                }
            }
            m.set(gx, gy, p);
            c.count("writes through views", 1);
        }
    }
    same(c, "sub_image-write", &Grid::of_view(img), m, &format!("{kind} after writes through sub_image({x},{y},{w},{h})+({x2},{y2},{w2},{h2})"));
    // crops clip
    let big = |c: &mut Case, n: u32| match c.rng.below(4) {
        0 => c.rng.r32(0, n),
        1 => n + c.rng.r32(0, 4),
        2 => u32::MAX - c.rng.r32(0, 4),
        _ => c.rng.u32(),
    };
    for _ in 0..3 {
        let (x, y, w, h) = (big(c, m.w), big(c, m.h), big(c, m.w), big(c, m.h));
        let (cx, cy) = (x.min(m.w), y.min(m.h));
        let (cw, chh) = (w.min(m.w - cx), h.min(m.h - cy));
        let want = m.crop(cx, cy, cw, chh);
        c.eval(key(&[1, m.w as u64, m.h as u64, x as u64, y as u64, w as u64, h as u64]));
        let v = imageops::crop_imm(img, x, y, w, h);
        check!(c, v.dimensions() == (cw, chh), "crop_imm-geom", "{kind} crop_imm({x},{y},{w},{h}) of {}x{}: {:?}", m.w, m.h, v.dimensions());
        if v.dimensions() == (cw, chh) {
            same(c, "crop_imm", &Grid::of(&v.to_image()), &want, &format!("{kind} crop_imm({x},{y},{w},{h})"));
        }
        let mut v = imageops::crop(img, x, y, w, h);
        check!(c, v.dimensions() == (cw, chh), "crop-geom", "{kind} crop({x},{y},{w},{h}) of {}x{}: {:?}", m.w, m.h, v.dimensions());
        if v.dimensions() == (cw, chh) {
            same(c, "crop", &Grid::of(&v.to_image()), &want, &format!("{kind} crop({x},{y},{w},{h})"));
            if cw > 0 && chh > 0 {
                let (i, j) = (c.rng.r32(0, cw - 1), c.rng.r32(0, chh - 1));
                let p: P = gen::pixel(&mut c.rng);
                v.put_pixel(i, j, p);
                m.set(cx + i, cy + j, p);
            }
        }
        same(c, "crop-write", &Grid::of_view(img), m, &format!("{kind} after write through crop({x},{y},{w},{h})"));
    }
}

/// copy_from and copy_within on one destination.
fn copies<P: Pixel + std::fmt::Debug + 'static, I>(c: &mut Case, img: &mut I, m: &mut Grid<P>, kind: &str)
where
    P::Subpixel: Samp,
    I: GenericImage<Pixel = P>,
{
    // copy_from
    for _ in 0..2 {
        let fits = c.rng.bool();
        let (sw, sh, x, y) = if fits {
            let ((x, w), (y, h)) = (span(c, m.w), span(c, m.h));
            (w, h, x, y)
        } else {
            let (sw, sh) = (c.rng.r32(0, m.w + 2), c.rng.r32(0, m.h + 2));
            let off = |c: &mut Case, n: u32, s: u32| match c.rng.below(5) {
                0 => n.saturating_sub(s) + 1,
                1 => n,
                2 => u32::MAX - c.rng.r32(0, s.saturating_add(2)),
                3 => c.rng.r32(0, n),
                _ => c.rng.u32(),
            };
            (sw, sh, off(c, m.w, sw), off(c, m.h, sh))
        };
        let fits = x as u64 + sw as u64 <= m.w as u64 && y as u64 + sh as u64 <= m.h as u64;
        let src: gen::Buf<P> = gen::image(&mut c.rng, sw, sh);
        let sm = Grid::of(&src);
        c.at(&format!("{kind} copy_from {sw}x{sh} at {x},{y} into {}x{}", m.w, m.h));
        c.eval(key(&[2, m.w as u64, m.h as u64, x as u64, y as u64, sw as u64, sh as u64]));
        let r = match c.rng.below(3) {
            0 => catch(|| img.copy_from(&src, x, y)),
            1 => {
                let pl = Plain(sm.clone());
                catch(|| img.copy_from(&pl, x, y))
            }
            _ => {
                // a window of a larger picture
                let (l, t, r_, b) = (c.rng.r32(0, 3), c.rng.r32(0, 3), c.rng.r32(0, 3), c.rng.r32(0, 3));
                let mut big: gen::Buf<P> = gen::image(&mut c.rng, sw + l + r_, sh + t + b);
                for j in 0..sh {
                    for i in 0..sw {
                        big.put_pixel(l + i, t + j, sm.get(i, j));
                    }
                }
                let v = big.view(l, t, sw, sh);
                catch(|| img.copy_from(&*v, x, y))
            }
        };
        let ok = matches!(r, Ok(Ok(())));
        if fits {
            check!(c, ok, "copy_from-refused", "{kind} copy_from {sw}x{sh} at ({x},{y}) into {}x{} refused: {r:?}", m.w, m.h);
        } else {
            check!(c, !ok, "copy_from-accepted", "{kind} copy_from {sw}x{sh} at ({x},{y}) into {}x{} accepted", m.w, m.h);
            c.count("refused copies", 1);
        }
        if ok && fits {
            for j in 0..sh {
                for i in 0..sw {
                    m.set(x + i, y + j, sm.get(i, j));
                }
            }
            c.count("copies", 1);
        }
        same(c, "copy_from-result", &Grid::of_view(img), m, &format!("{kind} after copy_from {sw}x{sh} at ({x},{y}) fits={fits}"));
    }
    // copy_within
    for _ in 0..3 {
        let (r, x, y) = if c.rng.chance(3, 4) {
            let ((sx, mut w), (sy, mut h)) = (span(c, m.w), span(c, m.h));
            // overlapping destinations
            let near = |c: &mut Case, s: u32, n: u32, l: u32| (s as i64 + c.rng.irange(-3, 3)).clamp(0, n.saturating_sub(l) as i64) as u32;
            let (dx, dy) = match c.rng.below(3) {
                0 => (near(c, sx, m.w, w), near(c, sy, m.h, h)),
                _ => (c.rng.r32(0, m.w.saturating_sub(w)), c.rng.r32(0, m.h.saturating_sub(h))),
            };
            if c.rng.chance(1, 10) {
                w = w.min(1);
                h = h.min(1);
            }
            (Rect { x: sx, y: sy, width: w, height: h }, dx, dy)
        } else {
            let ((sx, w), (sy, h)) = match c.rng.below(3) {
                0 => (bad_span(c, m.w), span(c, m.h)),
                1 => (span(c, m.w), bad_span(c, m.h)),
                _ => (span(c, m.w), span(c, m.h)),
            };
            let ((dx, _), (dy, _)) = match c.rng.below(3) {
                0 => (bad_span(c, m.w), span(c, m.h)),
                1 => (span(c, m.w), bad_span(c, m.h)),
                _ => (span(c, m.w), span(c, m.h)),
            };
            (Rect { x: sx, y: sy, width: w, height: h }, dx, dy)
        };
        let f = |o: u32, l: u32, n: u32| o as u64 + l as u64 <= n as u64;
        let fits = f(r.x, r.width, m.w) && f(r.y, r.height, m.h) && f(x, r.width, m.w) && f(y, r.height, m.h);
        let empty = r.width == 0 || r.height == 0;
        c.at(&format!("{kind} copy_within {r:?} -> ({x},{y}) of {}x{}", m.w, m.h));
        c.eval(key(&[3, m.w as u64, m.h as u64, r.x as u64, r.y as u64, r.width as u64, r.height as u64, x as u64, y as u64]));
        let got = catch(|| img.copy_within(r, x, y));
        let ok = matches!(got, Ok(true));
        // an empty rectangle whose corner lies on the far edge may be refused
        let edge = empty && (r.x >= m.w || r.y >= m.h || x >= m.w || y >= m.h);
        if fits && !edge {
            check!(c, ok, "copy_within-refused", "{kind} copy_within {r:?} -> ({x},{y}) of {}x{}: {got:?}", m.w, m.h);
        } else if !fits {
            check!(c, !ok, "copy_within-accepted", "{kind} copy_within {r:?} -> ({x},{y}) of {}x{} accepted", m.w, m.h);
            c.count("refused copies", 1);
        }
        if ok && fits {
            let tmp = m.crop(r.x, r.y, r.width, r.height);
            for j in 0..r.height {
                for i in 0..r.width {
                    m.set(x + i, y + j, tmp.get(i, j));
                }
            }
            let ov = !empty && (x as i64 - r.x as i64).unsigned_abs() < r.width as u64 && (y as i64 - r.y as i64).unsigned_abs() < r.height as u64;
            c.count(if ov { "overlapping self copies" } else { "disjoint self copies" }, 1);
        }
        same(c, "copy_within-result", &Grid::of_view(img), m, &format!("{kind} after copy_within {r:?} -> ({x},{y}) got {got:?}"));
    }
}

fn typed<P: Pixel + std::fmt::Debug + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    let (w, h) = dims(c);
    let mut v = gen::image::<P>(&mut c.rng, w, h).into_raw();
    if c.rng.chance(1, 3) {
        // spare capacity that must stay untouched
        for _ in 0..c.rng.range(1, 9) {
            v.push(P::Subpixel::arb(&mut c.rng));
        }
    }
    let used = w as usize * h as usize * P::CHANNEL_COUNT as usize;
    let tail: Vec<u64> = v[used..].iter().map(|s| s.bits()).collect();
    let mut b: gen::Buf<P> = ImageBuffer::from_raw(w, h, v).unwrap();
    let mut m = Grid::of(&b);
    c.sample(|| format!("{}x{} {:?}", w, h, P::COLOR_MODEL));
    match c.rng.below(4) {
        0 | 1 => {
            nested(c, &mut b, &mut m, "buffer");
            copies(c, &mut b, &mut m, "buffer");
        }
        2 => {
            let mut p = Plain(m.clone());
            nested(c, &mut p, &mut m, "plain");
            copies(c, &mut p, &mut m, "plain");
            return;
        }
        _ => {
            // copies inside a sub-image must leave the rest of the parent alone
            let (x, sw) = span(c, w);
            let (y, sh) = span(c, h);
            let mut sm = m.crop(x, y, sw, sh);
            {
                let mut s = b.sub_image(x, y, sw, sh);
                copies(c, &mut *s, &mut sm, "sub-image");
            }
            for j in 0..sh {
                for i in 0..sw {
                    m.set(x + i, y + j, sm.get(i, j));
                }
            }
            same(c, "sub-image-parent", &Grid::of(&b), &m, "parent after copies in sub-image");
        }
    }
    let now: Vec<u64> = b.as_raw()[used..].iter().map(|s| s.bits()).collect();
    check!(c, now == tail, "spare-touched", "samples after the image changed");
}

fn flat<P: Pixel + std::fmt::Debug + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    // strided mutable view with gaps: gaps must stay as they are
    let (w, h) = (c.rng.r32(1, 9), c.rng.r32(1, 9));
    let ch = P::CHANNEL_COUNT as usize;
    let ws = ch + c.rng.below(3) as usize;
    let hs = ws * w as usize + c.rng.below(4) as usize;
    let layout = SampleLayout { channels: ch as u8, channel_stride: 1, width: w, width_stride: ws, height: h, height_stride: hs };
    let mut data: Vec<P::Subpixel> = (0..layout.min_length().unwrap() + 3).map(|_| P::Subpixel::arb(&mut c.rng)).collect();
    let orig: Vec<u64> = data.iter().map(|s| s.bits()).collect();
    let mut m = Grid::<P>::from_fn(w, h, |x, y| *P::from_slice(&data[y as usize * hs + x as usize * ws..][..ch]));
    {
        let mut f = FlatSamples { samples: &mut data[..], layout, color_hint: None };
        let mut v = f.as_view_mut::<P>().expect("view");
        copies(c, &mut v, &mut m, "flat-view");
    }
    let mut used = vec![false; data.len()];
    for y in 0..h as usize {
        for x in 0..w as usize {
            for k in 0..ch {
                used[y * hs + x * ws + k] = true;
            }
        }
    }
    for i in 0..data.len() {
        check!(c, used[i] || data[i].bits() == orig[i], "flat-gap", "sample {i} between pixels changed");
    }
}

fn dynamic(c: &mut Case) {
    let (w, h) = dims(c);
    // colour types whose pixels the generic interface can hold exactly
    if c.rng.bool() {
        let b = gen::image::<Rgba<u8>>(&mut c.rng, w, h);
        let mut m = Grid::of(&b);
        let mut d = DynamicImage::from(b);
        nested(c, &mut d, &mut m, "dynamic");
        copies(c, &mut d, &mut m, "dynamic");
        return;
    }
    let ct = *c.rng.pick(&gen::COLORS);
    let mut d = gen::dynamic(&mut c.rng, ct, w, h);
    let big = |c: &mut Case, n: u32| match c.rng.below(4) {
        0 | 1 => c.rng.r32(0, n),
        2 => n + c.rng.r32(0, 4),
        _ => u32::MAX - c.rng.r32(0, 4),
    };
    for _ in 0..4 {
        let (x, y, cw, ch) = (big(c, w), big(c, h), big(c, w), big(c, h));
        let (qx, qy) = (x.min(w), y.min(h));
        let (qw, qh) = (cw.min(w - qx), ch.min(h - qy));
        let bpp = ct.bytes_per_pixel() as usize;
        let mut want = vec![];
        for j in qy..qy + qh {
            let o = (j as usize * w as usize + qx as usize) * bpp;
            want.extend_from_slice(&d.as_bytes()[o..o + qw as usize * bpp]);
        }
        c.eval(key(&[9, w as u64, h as u64, x as u64, y as u64, cw as u64, ch as u64]));
        for (n, r) in [("crop_imm", d.crop_imm(x, y, cw, ch)), ("crop", d.clone().crop(x, y, cw, ch))] {
            check!(c, r.color() == ct && (r.width(), r.height()) == (qw, qh), "dyn-crop-geom", "{n}({x},{y},{cw},{ch}) of {w}x{h} {ct:?}: {:?} {}x{}", r.color(), r.width(), r.height());
            check!(c, r.as_bytes() == &want[..], "dyn-crop-bytes", "{n}({x},{y},{cw},{ch}) of {w}x{h} {ct:?}");
        }
        let before = d.as_bytes().to_vec();
        let _ = d.crop(x, y, cw, ch);
        check!(c, d.as_bytes() == &before[..], "dyn-crop-parent", "crop changed its parent");
        c.count("dynamic crops", 1);
    }
}

/// Every rectangle and every destination of a few tiny images: all overlap directions.
fn small_exhaustive(c: &mut Case) {
    let (w, h) = (1 + (c.idx % 5) as u32, 1 + (c.idx / 5 % 4) as u32);
    let m = Grid::<Rgba<u8>>::from_fn(w, h, |x, y| Rgba([x as u8, y as u8, 7, 9]));
    for sx in 0..w {
        for sy in 0..h {
            for rw in 0..=w - sx {
                for rh in 0..=h - sy {
                    for dx in 0..w {
                        for dy in 0..h {
                            let fits = dx + rw <= w && dy + rh <= h;
                            let mut want = m.clone();
                            if fits {
                                for j in 0..rh {
                                    for i in 0..rw {
                                        want.set(dx + i, dy + j, m.get(sx + i, sy + j));
                                    }
                                }
                            }
                            let r = Rect { x: sx, y: sy, width: rw, height: rh };
                            let mut b = m.to_buf();
                            let ok = b.copy_within(r, dx, dy);
                            check!(c, ok == fits, "exh-fits", "{w}x{h} {r:?} -> {dx},{dy}: {ok}");
                            same(c, "exh-buffer", &Grid::of(&b), &want, &format!("{r:?} -> {dx},{dy}"));
                            let mut p = Plain(m.clone());
                            let ok = p.copy_within(r, dx, dy);
                            check!(c, ok == fits, "exh-fits", "plain {w}x{h} {r:?} -> {dx},{dy}: {ok}");
                            same(c, "exh-plain", &p.0, &want, &format!("{r:?} -> {dx},{dy}"));
                            c.eval(key(&[5, w as u64, h as u64, sx as u64, sy as u64, rw as u64, rh as u64, dx as u64, dy as u64]));
                        }
                    }
                }
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("distinct = (operation, parent size, rectangle, destination) tuples; every parent pixel compared with an independent grid after every operation");
    ctx.section("typed", 30_000, 600_000, |c| vh::some_pixel!(c, typed));
    ctx.section("flat", 4_000, 80_000, |c| vh::some_std_pixel!(c, flat));
    ctx.section("dynamic", 8_000, 160_000, dynamic);
    ctx.section("self-copy-exhaustive", 20, 20, small_exhaustive);
    ctx.require("overlapping self copies", 1000);
    ctx.require("refused copies", 1000);
    ctx.require("writes through views", 1000);
}
