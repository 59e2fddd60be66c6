//! A03: strided sample layouts address, validate and convert samples exactly.
use image::flat::{FlatSamples, NormalForm, SampleLayout};
use image::{GenericImage, GenericImageView, ImageBuffer, Luma, LumaA, Pixel, Rgb, Rgba};
use std::collections::HashMap;
use vh::gen::{self, Samp};
use vh::{catch, check, mix, Case, Ctx};

vh::property_main!("A03");

const FORMS: [NormalForm; 5] = [
    NormalForm::Unaliased,
    NormalForm::PixelPacked,
    NormalForm::ImagePacked,
    NormalForm::RowMajorPacked,
    NormalForm::ColumnMajorPacked,
];

fn idx128(l: &SampleLayout, c: u64, x: u64, y: u64) -> u128 {
    c as u128 * l.channel_stride as u128 + x as u128 * l.width_stride as u128 + y as u128 * l.height_stride as u128
}

/// A layout; `true` when its dimensions nest without overlap by construction.
fn layout(c: &mut Case, channels: u8) -> (SampleLayout, &'static str) {
    let ext = |c: &mut Case| match c.rng.below(10) {
        0 => 0,
        1 | 2 => 1,
        _ => c.rng.r32(1, 6),
    };
    let (w, h) = (ext(c), ext(c));
    match c.rng.below(8) {
        0 => (SampleLayout::row_major_packed(channels, w, h), "row-major"),
        1 => (SampleLayout::column_major_packed(channels, w, h), "column-major"),
        2 => {
            // planar
            (
                SampleLayout { channels, channel_stride: w as usize * h as usize, width: w, width_stride: 1, height: h, height_stride: w as usize },
                "planar",
            )
        }
        3 => {
            // nested with gaps, random order of dimensions
            let mut dims = [(0, channels as usize), (1, w as usize), (2, h as usize)];
            c.rng.shuffle(&mut dims);
            let mut st = [0usize; 3];
            let mut s = 1 + c.rng.below(3) as usize;
            for (d, n) in dims {
                st[d] = s;
                s = s * n.max(1) + c.rng.below(3) as usize;
            }
            (SampleLayout { channels, channel_stride: st[0], width: w, width_stride: st[1], height: h, height_stride: st[2] }, "nested")
        }
        4 | 5 => {
            let m = c.rng.range(1, 14);
            let s = |c: &mut Case| c.rng.below(m + 1) as usize;
            (SampleLayout { channels, channel_stride: s(c), width: w, width_stride: s(c), height: h, height_stride: s(c) }, "random")
        }
        6 => (SampleLayout { channels, channel_stride: 1, width: w, width_stride: c.rng.below(10) as usize, height: h, height_stride: c.rng.below(40) as usize }, "pixel-packed"),
        _ => {
            let s = |c: &mut Case| match c.rng.below(5) {
                0 => usize::MAX - c.rng.below(3) as usize,
                1 => (usize::MAX / (1 + c.rng.below(8) as usize)).wrapping_add(c.rng.below(3) as usize),
                2 => 1 << c.rng.range(30, 63),
                3 => c.rng.below(9) as usize,
                _ => isize::MAX as usize - c.rng.below(3) as usize,
            };
            (SampleLayout { channels, channel_stride: s(c), width: w, width_stride: s(c), height: h, height_stride: s(c) }, "huge-strides")
        }
    }
}

fn small<P: Pixel + std::fmt::Debug + PartialEq + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    // mostly the pixel's own channel count
    let channels = if c.rng.chance(1, 8) { c.rng.below(6) as u8 } else { P::CHANNEL_COUNT };
    let (l, kind) = layout(c, channels);
    let (ch, w, h) = (channels as u64, l.width as u64, l.height as u64);
    c.at(&format!("{l:?}"));
    c.sample(|| format!("{kind} {l:?}"));
    c.eval(mix(mix(mix(l.channel_stride as u64) ^ l.width_stride as u64) ^ l.height_stride as u64 ^ mix(w << 32 | h << 8 | ch)));
    // enumerate every sample
    let mut seen: HashMap<u128, u32> = HashMap::new();
    let mut max: Option<u128> = None;
    for y in 0..h {
        for x in 0..w {
            for k in 0..ch {
                let i = idx128(&l, k, x, y);
                *seen.entry(i).or_default() += 1;
                max = Some(max.map_or(i, |m| m.max(i)));
                let got = l.index(k as u8, x as u32, y as u32);
                let want = usize::try_from(i).ok();
                check!(c, got == want, "index", "index({k},{x},{y}) of {l:?} = {got:?}, want {want:?}");
                check!(c, l.in_bounds(k as u8, x as u32, y as u32), "in_bounds", "in_bounds({k},{x},{y}) of {l:?}");
                if want.is_some() {
                    check!(c, l.in_bounds_index(k as u8, x as u32, y as u32) == want.unwrap(), "in_bounds_index", "in_bounds_index({k},{x},{y}) of {l:?}");
                }
                check!(c, l.index_ignoring_bounds(k as usize, x as usize, y as usize) == want, "index_ignoring", "index_ignoring_bounds");
            }
        }
    }
    c.count("samples enumerated", w * h * ch);
    for _ in 0..6 {
        let f = |c: &mut Case, n: u64| -> u64 {
            if c.rng.bool() {
                c.rng.below(n + 1)
            } else {
                *c.rng.pick(&[n, n + 1, 255, u32::MAX as u64])
            }
        };
        let (k, x, y) = (f(c, ch).min(255), f(c, w), f(c, h));
        let inb = k < ch && x < w && y < h;
        check!(c, l.in_bounds(k as u8, x as u32, y as u32) == inb, "in_bounds", "in_bounds({k},{x},{y}) of {l:?}");
        if !inb {
            check!(c, l.index(k as u8, x as u32, y as u32).is_none(), "index-oob", "index({k},{x},{y}) of {l:?} is Some");
        }
        let want = usize::try_from(idx128(&l, k, x, y)).ok();
        check!(c, l.index_ignoring_bounds(k as usize, x as usize, y as usize) == want, "index_ignoring", "index_ignoring_bounds({k},{x},{y}) of {l:?}");
    }
    // minimum length
    let want_min = match max {
        None => Some(0usize),
        Some(m) => usize::try_from(m + 1).ok(),
    };
    check!(c, l.min_length() == want_min, "min_length", "min_length of {l:?} = {:?}, want {want_min:?}", l.min_length());
    let n = w * h * ch;
    let empty = n == 0;
    let distinct = seen.values().all(|v| *v == 1);
    // aliasing: "not aliased" must be true; nested layouts must be recognised
    let al = l.has_aliased_samples();
    if !al {
        check!(c, distinct, "unaliased-wrong", "has_aliased_samples of {l:?} is false but samples share indices");
        check!(c, empty || max.unwrap() <= usize::MAX as u128, "unaliased-overflow", "{l:?} unaliased but indices overflow");
    }
    if matches!(kind, "row-major" | "column-major" | "planar" | "nested") && !empty {
        check!(c, !al, "aliased-wrong", "has_aliased_samples of {kind} {l:?} is true");
    }
    if al && !empty && distinct {
        c.count("conservative alias answers", 1);
    }
    // normal forms: an accepted form must be true
    for f in FORMS {
        let yes = l.is_normal(f);
        if yes && !empty {
            check!(c, distinct, "normal-aliased", "{l:?} accepted as {f:?} but aliases");
            if f == NormalForm::PixelPacked || f == NormalForm::RowMajorPacked || f == NormalForm::ColumnMajorPacked {
                check!(c, l.channel_stride == 1, "normal-pixel", "{l:?} accepted as {f:?}");
            }
            if f != NormalForm::Unaliased && f != NormalForm::PixelPacked {
                check!(c, max == Some(n as u128 - 1) && distinct, "normal-packed", "{l:?} accepted as {f:?} but has holes");
            }
            if f == NormalForm::RowMajorPacked {
                check!(c, w <= 1 || l.width_stride as u64 == ch, "normal-row", "{l:?} accepted as {f:?}");
                check!(c, h <= 1 || l.height_stride as u64 == ch * w, "normal-row", "{l:?} accepted as {f:?}");
            }
            if f == NormalForm::ColumnMajorPacked {
                check!(c, h <= 1 || l.height_stride as u64 == ch, "normal-col", "{l:?} accepted as {f:?}");
                check!(c, w <= 1 || l.width_stride as u64 == ch * h, "normal-col", "{l:?} accepted as {f:?}");
            }
        }
        // canonical layouts must be accepted
        let must = match kind {
            "row-major" => matches!(f, NormalForm::Unaliased | NormalForm::PixelPacked | NormalForm::ImagePacked | NormalForm::RowMajorPacked),
            "column-major" => matches!(f, NormalForm::Unaliased | NormalForm::PixelPacked | NormalForm::ImagePacked | NormalForm::ColumnMajorPacked),
            "planar" => matches!(f, NormalForm::Unaliased | NormalForm::ImagePacked) && !empty,
            "nested" => f == NormalForm::Unaliased && !empty || f == NormalForm::PixelPacked && !empty && l.channel_stride == 1,
            _ => false,
        };
        if must && channels > 0 {
            check!(c, yes, format!("normal-refused-{kind}"), "{kind} {l:?} not accepted as {f:?}");
        }
        c.count("normal form queries", 1);
    }
    for a in FORMS {
        for b in FORMS {
            if a >= b && l.is_normal(a) {
                check!(c, l.is_normal(b), "normal-order", "{l:?} is {a:?} but not the weaker {b:?}");
            }
        }
    }
    check!(c, l.strides_cwh() == (l.channel_stride, l.width_stride, l.height_stride) && l.extents() == (ch as usize, w as usize, h as usize) && l.bounds() == (channels, l.width, l.height), "accessors", "accessors of {l:?}");

    // views over real buffers around the minimum length
    let Some(min) = want_min.filter(|m| *m < 5000) else {
        // nothing can be viewed: must be refused with any buffer
        if want_min.is_none() || want_min.unwrap() > 10 {
            let mut fs = FlatSamples { samples: vec![P::Subpixel::unit(0.0); 10], layout: l, color_hint: None };
            check!(c, fs.as_view::<P>().is_err() && fs.as_view_mut::<P>().is_err() && fs.as_view_with_mut_samples::<P>().is_err() && !fs.fits(10), "view-huge", "view granted for {l:?} with 10 samples");
            check!(c, fs.image_slice::<P::Subpixel>().is_none() && fs.image_mut_slice::<P::Subpixel>().is_none(), "slice-huge", "image_slice granted for {l:?}");
            // single sample access must refuse or stay inside
            for _ in 0..6 {
                let (k, x, y) = (c.rng.below(ch.max(1)) as u8, c.rng.below(w.max(1)) as u32, c.rng.below(h.max(1)) as u32);
                let i = idx128(&l, k as u64, x as u64, y as u64);
                let ok = !empty && i < 10;
                check!(c, fs.get_sample::<P::Subpixel>(k, x, y).is_some() == ok, "get_sample-huge", "get_sample({k},{x},{y}) of {l:?}");
                check!(c, fs.get_mut_sample::<P::Subpixel>(k, x, y).is_some() == ok, "get_mut_sample-huge", "get_mut_sample({k},{x},{y}) of {l:?}");
                check!(c, catch(|| fs[(k, x, y)]).is_ok() == ok, "index-huge", "indexing ({k},{x},{y}) of {l:?}");
            }
            c.count("refused layouts", 1);
        }
        return;
    };
    for len in [min.saturating_sub(1), min, min + 1 + c.rng.below(6) as usize] {
        check!(c, l.fits(len) == (len >= min), "fits", "fits({len}) of {l:?}, min {min}");
        let data: Vec<P::Subpixel> = (0..len).map(|_| P::Subpixel::arb(&mut c.rng)).collect();
        let mut fs = FlatSamples { samples: data.clone(), layout: l, color_hint: None };
        let ok = channels == P::CHANNEL_COUNT && len >= min;
        check!(c, fs.as_view::<P>().is_ok() == ok, "as_view-grant", "as_view of {l:?} len {len} min {min}: granted {}", !ok);
        check!(c, fs.as_view_with_mut_samples::<P>().is_ok() == ok, "as_view_ms-grant", "as_view_with_mut_samples of {l:?} len {len}: granted {}", !ok);
        let okm = ok && l.is_normal(NormalForm::PixelPacked);
        check!(c, fs.as_view_mut::<P>().is_ok() == okm, "as_view_mut-grant", "as_view_mut of {l:?} len {len}: granted {}", !okm);
        check!(c, fs.image_slice::<P::Subpixel>().map(|s| s.len()) == (len >= min).then_some(min), "image_slice", "image_slice of {l:?} len {len}");
        check!(c, fs.image_mut_slice::<P::Subpixel>().map(|s| s.len()) == (len >= min).then_some(min), "image_mut_slice", "image_mut_slice of {l:?} len {len}");
        check!(c, fs.min_length() == Some(min) && fs.fits(len) == (len >= min) && fs.has_aliased_samples() == al, "flat-delegate", "FlatSamples delegates wrongly");
        // single samples, through every accessor
        for _ in 0..12 {
            let (k, x, y) = (c.rng.below(ch + 1) as u8, c.rng.below(w + 1) as u32, c.rng.below(h + 1) as u32);
            let want = l.index(k, x, y).filter(|i| *i < len).map(|i| data[i]);
            check!(c, fs.get_sample::<P::Subpixel>(k, x, y).copied() == want, "get_sample", "get_sample({k},{x},{y}) of {l:?} len {len}");
            check!(c, fs.get_mut_sample::<P::Subpixel>(k, x, y).copied() == want, "get_mut_sample", "get_mut_sample({k},{x},{y}) of {l:?} len {len}");
            check!(c, catch(|| fs[(k, x, y)]).ok() == want, "flat-index", "flat[({k},{x},{y})] of {l:?} len {len}");
        }
        if ok {
            let view = fs.as_view::<P>().expect("granted");
            check!(c, view.dimensions() == (l.width, l.height) && view.min_length() == min && view.image_slice().len() == min, "view-dims", "view dims of {l:?}");
            for y in 0..l.height {
                for x in 0..l.width {
                    let want: Vec<P::Subpixel> = (0..channels).map(|k| data[idx128(&l, k as u64, x as u64, y as u64) as usize]).collect();
                    let got = view.get_pixel(x, y);
                    check!(c, got.channels() == &want[..], "view-pixel", "view.get_pixel({x},{y}) of {l:?}");
                    check!(c, (0..channels).all(|k| view.get_sample(k, x, y) == Some(&want[k as usize])), "view-sample", "view.get_sample({x},{y}) of {l:?}");
                }
            }
            c.count("view pixels", w * h);
            for _ in 0..4 {
                let (x, y) = match c.rng.below(3) {
                    0 => (l.width, c.rng.below(h + 1) as u32),
                    1 => (c.rng.below(w + 1) as u32, l.height),
                    _ => (u32::MAX - c.rng.below(2) as u32, u32::MAX),
                };
                check!(c, catch(|| view.get_pixel(x, y)).is_err(), "view-oob", "view.get_pixel({x},{y}) of {l:?} returned");
                check!(c, view.get_sample(0, x, y).is_none(), "view-sample-oob", "view.get_sample(0,{x},{y}) of {l:?} returned");
            }
            if w > 0 && h > 0 {
                check!(c, view.get_sample(channels, 0, 0).is_none(), "view-sample-oob", "view.get_sample({channels},0,0) of {l:?} returned");
            }
            check!(c, view.pixels().count() as u64 == w * h, "view-pixels", "pixels() of view {l:?}");
            let mut v2 = fs.as_view::<P>().expect("granted");
            let (nw, nh) = (c.rng.below(8) as u32, c.rng.below(8) as u32);
            v2.shrink_to(nw, nh);
            let (rw, rh) = (l.width.min(nw), l.height.min(nh));
            check!(c, v2.dimensions() == (rw, rh), "shrink-dims", "shrink_to({nw},{nh}) of {l:?}: {:?}", v2.dimensions());
            for (x, y, p) in v2.pixels() {
                check!(c, x < rw && y < rh && p == view.get_pixel(x, y), "shrink-pixels", "shrunk view of {l:?} differs at ({x},{y})");
            }
            let _ = view;
        }
        if ok {
            // sample-mutable view writes exactly one index
            let mut model = data.clone();
            let mut v = fs.as_view_with_mut_samples::<P>().expect("granted");
            for _ in 0..5 {
                let (k, x, y) = (c.rng.below(ch + 1) as u8, c.rng.below(w + 1) as u32, c.rng.below(h + 1) as u32);
                let inb = l.in_bounds(k, x, y);
                let val = P::Subpixel::arb(&mut c.rng);
                match v.get_mut_sample(k, x, y) {
                    Some(s) => {
                        *s = val;
                        check!(c, inb, "ms-oob", "get_mut_sample({k},{x},{y}) of {l:?}");
                        if inb {
                            model[idx128(&l, k as u64, x as u64, y as u64) as usize] = val;
                        }
                    }
                    None => check!(c, !inb, "ms-refused", "get_mut_sample({k},{x},{y}) of {l:?}"),
                }
            }
            check!(c, v.image_mut_slice().len() == min, "ms-slice", "image_mut_slice of {l:?}");
            let up = v.try_upgrade();
            check!(c, up.is_ok() == okm, "try_upgrade", "try_upgrade of {l:?}");
            drop(up);
            check!(c, fs.samples == model, "ms-write", "sample writes through view of {l:?} changed other samples");
        }
        if okm {
            let mut model = fs.samples.clone();
            let mut v = fs.as_view_mut::<P>().expect("granted");
            for _ in 0..6 {
                if w == 0 || h == 0 {
                    break;
                }
                let (x, y) = (c.rng.below(w) as u32, c.rng.below(h) as u32);
                let p: P = gen::pixel(&mut c.rng);
                #[allow(deprecated)]
                match c.rng.below(3) {
                    0 => v.put_pixel(x, y, p),
                    1 => *v.get_pixel_mut(x, y) = p,
                    _ => {
                        for k in 0..channels {
                            *v.get_mut_sample(k, x, y).expect("in bounds") = p.channels()[k as usize];
                        }
                    }
                }
                for k in 0..channels {
                    model[idx128(&l, k as u64, x as u64, y as u64) as usize] = p.channels()[k as usize];
                }
                check!(c, GenericImageView::get_pixel(&v, x, y) == p, "vm-read", "ViewMut reads back differently at ({x},{y}) of {l:?}");
            }
            #[allow(deprecated)]
            {
                check!(c, catch(|| *v.get_pixel_mut(l.width, 0)).is_err() && catch(|| *v.get_pixel_mut(0, l.height)).is_err(), "vm-oob", "ViewMut of {l:?} grants out of range");
                check!(c, catch(|| GenericImageView::get_pixel(&v, l.width, 0)).is_err() && catch(|| GenericImageView::get_pixel(&v, 0, l.height)).is_err(), "vm-oob-get", "ViewMut of {l:?} reads out of range");
                check!(c, v.get_mut_sample(0, l.width, 0).is_none() && v.get_sample(0, 0, l.height).is_none(), "vm-oob-sample", "ViewMut sample of {l:?} out of range");
            }
            v.shrink_to(l.width / 2, l.height);
            check!(c, v.dimensions() == (l.width / 2, l.height), "vm-shrink", "ViewMut shrink");
            check!(c, fs.samples == model, "vm-write", "ViewMut writes of {l:?} changed other samples");
            c.count("mutable views", 1);
        }
        // conversion to an image buffer
        let is_row = l.is_normal(NormalForm::RowMajorPacked);
        let vals = fs.samples.clone();
        match fs.try_into_buffer::<P>() {
            Ok(buf) => {
                check!(c, ok && is_row, "into_buffer-grant", "try_into_buffer of {l:?} len {len} granted");
                check!(c, buf.dimensions() == (l.width, l.height) && buf.into_raw() == vals, "into_buffer", "try_into_buffer changed the data");
            }
            Err((_, fs)) => {
                check!(c, !(ok && is_row), "into_buffer-refuse", "try_into_buffer of {l:?} len {len} refused");
                check!(c, fs.samples == vals, "into_buffer-back", "refused try_into_buffer changed the data");
            }
        }
    }
    // shrinking the layout
    let mut s = l;
    let (a, b, d) = (c.rng.below(6) as u8, c.rng.below(8) as u32, c.rng.below(8) as u32);
    s.shrink_to(a, b, d);
    check!(c, s == SampleLayout { channels: channels.min(a), width: l.width.min(b), height: l.height.min(d), ..l }, "layout-shrink", "shrink_to({a},{b},{d}) of {l:?}: {s:?}");
}

fn buffers<P: Pixel + std::fmt::Debug + PartialEq + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    // image buffer -> flat -> view / buffer
    let w = c.rng.below(9) as u32;
    let h = c.rng.below(9) as u32;
    let img: gen::Buf<P> = gen::image(&mut c.rng, w, h);
    c.eval(mix(77 ^ (w as u64) << 8 | h as u64));
    let orig = img.clone();
    let l = img.sample_layout();
    check!(c, l == SampleLayout::row_major_packed(P::CHANNEL_COUNT, w, h), "sample_layout", "sample_layout of {w}x{h}: {l:?}");
    {
        let fs = img.as_flat_samples();
        let v = fs.as_view::<P>();
        check!(c, v.is_ok(), "buffer-view", "as_view of an image buffer {w}x{h} refused");
        if let Ok(v) = v {
            for (x, y, p) in v.pixels() {
                check!(c, p == *orig.get_pixel(x, y), "buffer-view-px", "view of buffer {w}x{h} differs at ({x},{y})");
            }
        }
        let r: FlatSamples<&[P::Subpixel]> = fs.as_ref();
        check!(c, r.layout == l && r.samples == &orig.as_raw()[..], "as_ref", "FlatSamples::as_ref differs");
        check!(c, fs.to_vec().samples == *orig.as_raw() && fs.as_slice::<P::Subpixel>() == &orig.as_raw()[..], "to_vec", "to_vec differs");
    }
    let mut img2 = img.clone();
    {
        let mut fs = img2.as_flat_samples_mut();
        let v = fs.as_view_mut::<P>();
        check!(c, v.is_ok(), "buffer-view_mut", "as_view_mut of an image buffer {w}x{h} refused");
    }
    let fs = img.into_flat_samples();
    match fs.try_into_buffer::<P>() {
        Ok(b) => check!(c, b == orig, "buffer-roundtrip", "flat roundtrip of {w}x{h} differs"),
        Err((e, _)) => c.fail("buffer-roundtrip-refused", format!("flat roundtrip of {w}x{h} refused: {e}")),
    }
    // monochrome
    let p: P = gen::pixel(&mut c.rng);
    let (w, h) = (c.rng.r32(0, 2000), c.rng.r32(0, 2000));
    let mono = FlatSamples::with_monocolor(&p, w, h);
    match mono.as_view::<P>() {
        Ok(v) => {
            check!(c, v.dimensions() == (w, h), "mono-dims", "monocolor dims");
            if w > 0 && h > 0 {
                for _ in 0..5 {
                    let (x, y) = (c.rng.below(w as u64) as u32, c.rng.below(h as u64) as u32);
                    check!(c, v.get_pixel(x, y) == p, "mono-px", "monocolor pixel differs");
                }
            }
        }
        Err(e) => c.fail("mono", format!("monocolor view refused: {e}")),
    }
    let many = w as u64 * h as u64 > 1;
    check!(c, !many || mono.has_aliased_samples(), "mono-alias", "monocolor {w}x{h} of {p:?} reported unaliased");
    // copying from a view reproduces the image
    let (w, h) = (c.rng.r32(1, 6), c.rng.r32(1, 6));
    let src: gen::Buf<P> = gen::image(&mut c.rng, w, h);
    // column-major copy
    let lc = SampleLayout::column_major_packed(P::CHANNEL_COUNT, w, h);
    let mut s = vec![P::Subpixel::unit(0.0); lc.min_length().unwrap()];
    for (x, y, p) in src.enumerate_pixels() {
        for (k, v) in p.channels().iter().enumerate() {
            s[lc.index(k as u8, x, y).unwrap()] = *v;
        }
    }
    let fs = FlatSamples { samples: s, layout: lc, color_hint: None };
    let view = fs.as_view::<P>().expect("column major view");
    let mut dst: gen::Buf<P> = ImageBuffer::new(w + 2, h + 1);
    check!(c, dst.copy_from(&view, 1, 0).is_ok(), "copy-view", "copy_from a column-major view failed");
    check!(c, (0..h).all(|y| (0..w).all(|x| dst.get_pixel(x + 1, y) == src.get_pixel(x, y))), "copy-view-px", "copy_from a column-major view differs");
}

fn gen_case(c: &mut Case) {
    match c.rng.below(6) {
        0 => small::<Luma<u8>>(c),
        1 => small::<LumaA<u16>>(c),
        2 => small::<Rgb<u8>>(c),
        3 => small::<Rgba<f32>>(c),
        4 => small::<Rgba<u8>>(c),
        _ => small::<Rgb<u16>>(c),
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Random (strides, extents, buffer length): canonical, nested with gaps, fully random small strides, and huge/overflowing strides; distinct = different layouts. Oracle: enumeration of every sample index in 128-bit arithmetic, and a flat model of the buffer.");
    ctx.assume("The aliasing and packed-ness queries may answer conservatively (aliased / not packed) for unusual interleaved layouts; an optimistic answer is a violation.");
    ctx.section("layouts", 30_000, 1_500_000, gen_case);
    ctx.section("buffers", 4_000, 100_000, |c| match c.rng.below(5) {
        0 => buffers::<Luma<u8>>(c),
        1 => buffers::<LumaA<u16>>(c),
        2 => buffers::<Rgb<u8>>(c),
        3 => buffers::<Rgba<f32>>(c),
        _ => buffers::<Rgba<u8>>(c),
    });
    ctx.require("view pixels", 10_000);
    ctx.require("mutable views", 500);
    ctx.require("refused layouts", 100);
}
