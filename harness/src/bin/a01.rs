//! A01: pixel access reaches exactly the addressed pixel.
use image::{GenericImage, GenericImageView, ImageBuffer, Pixel};
use std::collections::VecDeque;
use vh::gen::{self, Samp};
use vh::{catch, check, some_pixel, Case, Ctx};

vh::property_main!("A01");

fn px<P: Pixel>(data: &[P::Subpixel], w: u32, x: u32, y: u32) -> &[P::Subpixel] {
    let ch = P::CHANNEL_COUNT as usize;
    let i = (y as usize * w as usize + x as usize) * ch;
    &data[i..i + ch]
}

fn dims(c: &mut Case) -> (u32, u32) {
    if let Some(d) = c.rng.long(300) {
        return d;
    }
    let z = c.rng.below(12);
    let (mut w, mut h) = (c.rng.size(40), c.rng.size(40));
    if z == 0 {
        w = 0
    }
    if z == 1 || z == 2 && c.rng.bool() {
        h = 0
    }
    (w, h)
}

fn bad_coord(c: &mut Case, w: u32, h: u32) -> (u32, u32) {
    let far = |c: &mut Case, n: u32| -> u32 {
        match c.rng.below(6) {
            0 => n,
            1 => n.saturating_add(1),
            2 => u32::MAX,
            3 => u32::MAX - c.rng.r32(0, 4),
            4 => 1 << c.rng.r32(16, 31),
            _ => n.saturating_add(c.rng.r32(0, 100)),
        }
        .max(n)
    };
    match c.rng.below(3) {
        0 => (far(c, w), if h > 0 { c.rng.below(h as u64) as u32 } else { 0 }),
        1 => (if w > 0 { c.rng.below(w as u64) as u32 } else { 0 }, far(c, h)),
        _ => (far(c, w), far(c, h)),
    }
}

fn access<P: Pixel + Send + Sync + std::fmt::Debug + PartialEq>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    let (w, h) = dims(c);
    let ch = P::CHANNEL_COUNT as usize;
    let need = w as usize * h as usize * ch;
    let extra = match c.rng.below(5) {
        0 | 1 => 0,
        2 => c.rng.below(ch as u64 * 3 + 1) as usize,
        3 => w as usize * ch * c.rng.range(1, 4) as usize,
        _ => c.rng.below(200) as usize,
    };
    let data: Vec<P::Subpixel> = (0..need + extra).map(|_| P::Subpixel::arb(&mut c.rng)).collect();
    c.at(&format!("access {}x{} ch {} {} extra {}", w, h, ch, P::Subpixel::NAME, extra));
    c.sample(|| format!("{}x{} {}x{} spare samples {}", w, h, ch, P::Subpixel::NAME, extra));
    c.eval(vh::mix((w as u64) << 40 | (h as u64) << 20 | (extra as u64) << 8 | ch as u64 | vh::hash_str(P::Subpixel::NAME) << 48));

    // acceptance boundary
    if need > 0 {
        let short = data[..need - 1].to_vec();
        check!(c, ImageBuffer::<P, _>::from_raw(w, h, short).is_none(), "from_raw-short", "from_raw accepted {} of {} samples", need - 1, need);
    }
    let Some(mut img) = ImageBuffer::<P, _>::from_raw(w, h, data.clone()) else {
        c.fail("from_raw-refused", format!("from_raw({w},{h}) refused {} samples, needs {}", data.len(), need));
        return;
    };
    check!(c, ImageBuffer::<P, &[P::Subpixel]>::from_raw(w, h, &data[..]).is_some(), "from_raw-slice", "slice container refused");
    check!(c, ImageBuffer::<P, Vec<_>>::from_vec(w, h, data.clone()).is_some(), "from_vec", "from_vec refused");
    check!(c, img.dimensions() == (w, h) && img.width() == w && img.height() == h, "dims", "dimensions wrong");
    check!(c, img.as_raw()[..] == data[..] && *std::ops::Deref::deref(&img) == data[..], "raw", "raw content differs");
    check!(c, GenericImageView::dimensions(&img) == (w, h), "dims-view", "view dimensions wrong");

    // reads in bounds
    if w > 0 && h > 0 {
        for k in 0..24 {
            let (x, y) = match k {
                0 => (0, 0),
                1 => (w - 1, h - 1),
                2 => (w - 1, 0),
                3 => (0, h - 1),
                _ => (c.rng.below(w as u64) as u32, c.rng.below(h as u64) as u32),
            };
            let want = px::<P>(&data, w, x, y);
            let a = img.get_pixel(x, y).channels() == want;
            let b = img.get_pixel_checked(x, y).map(|p| p.channels() == want) == Some(true);
            let d = img[(x, y)].channels() == want;
            let e = GenericImageView::get_pixel(&img, x, y).channels() == want;
            let f = unsafe { img.unsafe_get_pixel(x, y) }.channels() == want;
            let g = GenericImageView::in_bounds(&img, x, y);
            check!(c, a && b && d && e && f && g, "read", "reading ({x},{y}) of {w}x{h}: get {a} checked {b} index {d} view {e} unchecked {f} in_bounds {g}");
            c.count("reads", 6);
        }
    }
    // refused reads and writes
    for _ in 0..8 {
        let (x, y) = bad_coord(c, w, h);
        check!(c, img.get_pixel_checked(x, y).is_none(), "checked-oob", "get_pixel_checked({x},{y}) of {w}x{h} (container {}) is Some", data.len());
        check!(c, img.get_pixel_mut_checked(x, y).is_none(), "checked-mut-oob", "get_pixel_mut_checked({x},{y}) of {w}x{h} is Some");
        check!(c, !GenericImageView::in_bounds(&img, x, y), "in_bounds-oob", "in_bounds({x},{y}) of {w}x{h}");
        check!(c, catch(|| *img.get_pixel(x, y)).is_err(), "get-oob", "get_pixel({x},{y}) of {w}x{h} returned");
        check!(c, catch(|| img[(x, y)]).is_err(), "index-oob", "index ({x},{y}) of {w}x{h} returned");
        check!(c, catch(|| GenericImageView::get_pixel(&img, x, y)).is_err(), "view-oob", "view get_pixel({x},{y}) of {w}x{h} returned");
        let p: P = gen::pixel(&mut c.rng);
        check!(c, catch(|| img.put_pixel(x, y, p)).is_err(), "put-oob", "put_pixel({x},{y}) of {w}x{h} accepted");
        check!(c, catch(|| img[(x, y)] = p).is_err(), "indexmut-oob", "index_mut ({x},{y}) of {w}x{h} accepted");
        check!(c, catch(|| *img.get_pixel_mut(x, y) = p).is_err(), "getmut-oob", "get_pixel_mut({x},{y}) of {w}x{h} accepted");
        check!(c, catch(|| GenericImage::put_pixel(&mut img, x, y, p)).is_err(), "gput-oob", "trait put_pixel({x},{y}) of {w}x{h} accepted");
        check!(c, img.as_raw()[..] == data[..], "oob-changed", "refused access changed samples");
        c.count("refusals", 10);
    }
    // writes
    let mut model = data.clone();
    if w > 0 && h > 0 {
        for k in 0..20u32 {
            let (x, y) = (c.rng.below(w as u64) as u32, c.rng.below(h as u64) as u32);
            let p: P = gen::pixel(&mut c.rng);
            match k % 6 {
                0 => img.put_pixel(x, y, p),
                1 => *img.get_pixel_mut(x, y) = p,
                2 => img[(x, y)] = p,
                3 => *img.get_pixel_mut_checked(x, y).expect("in bounds") = p,
                4 => GenericImage::put_pixel(&mut img, x, y, p),
                _ => unsafe { img.unsafe_put_pixel(x, y, p) },
            }
            let i = (y as usize * w as usize + x as usize) * ch;
            model[i..i + ch].copy_from_slice(p.channels());
            check!(c, img.as_raw()[..] == model[..], "write", "write kind {} at ({x},{y}) of {w}x{h} changed other samples", k % 6);
        }
        c.count("writes", 20);
    }
    // clone and equality
    let cl = img.clone();
    check!(c, cl == img && cl.as_raw()[..] == model[..], "clone", "clone differs");
    // into images of another shape: the transposed one holds as many samples
    let small = (c.rng.below(5) as u32, c.rng.below(5) as u32);
    for (tw, th) in [(2, 3), (h, w), (w.saturating_mul(h).min(4096), 1), small] {
        let mut cf = ImageBuffer::<P, Vec<P::Subpixel>>::new(tw, th);
        cf.clone_from(&img);
        check!(c, cf == img && cf.dimensions() == (w, h) && cf.as_raw()[..] == model[..], "clone_from", "clone_from of {w}x{h} into {tw}x{th} differs");
    }
    // the buffer in its other clothes
    check!(c, img.as_raw().as_ptr() == img.as_ptr() && img.sample_layout().width == w && img.sample_layout().height == h, "layout", "as_raw or layout of {w}x{h}");
    let n = w as usize * h as usize * ch;
    check!(c, img.as_flat_samples().as_slice()[..] == model[..], "flat", "as_flat_samples of {w}x{h}");
    if n > 0 {
        let i = c.rng.below(n as u64) as usize;
        let v = P::Subpixel::arb(&mut c.rng);
        img.as_flat_samples_mut().as_mut_slice()[i] = v;
        model[i] = v;
        check!(c, img.as_raw()[..] == model[..], "flat", "as_flat_samples_mut of {w}x{h} at {i}");
    }
    let v = cl.into_vec();
    check!(c, v.len() == model.len(), "into_vec", "into_vec differs");
    let back = ImageBuffer::<P, _>::from_vec(w, h, v).expect("fits");
    let fl = back.into_flat_samples();
    check!(c, fl.samples.len() == model.len() && fl.layout.width == w && fl.layout.height == h && fl.layout.channels == P::CHANNEL_COUNT, "into_flat", "into_flat_samples of {w}x{h}");
    check!(c, img.into_raw() == model, "into_raw", "into_raw differs");
}

/// The i-th pixel of the model.
fn nth<P: Pixel>(data: &[P::Subpixel], i: usize) -> &[P::Subpixel] {
    let ch = P::CHANNEL_COUNT as usize;
    &data[i * ch..(i + 1) * ch]
}

fn iterate<P: Pixel + Send + Sync + std::fmt::Debug + PartialEq>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    let (w, h) = dims(c);
    let (w, h) = (w.min(24), h.min(24));
    let ch = P::CHANNEL_COUNT as usize;
    let n = w as usize * h as usize;
    let extra = if c.rng.bool() { 0 } else { c.rng.below(100) as usize };
    let data: Vec<P::Subpixel> = (0..n * ch + extra).map(|_| P::Subpixel::arb(&mut c.rng)).collect();
    let mut img = ImageBuffer::<P, _>::from_raw(w, h, data.clone()).expect("fits");
    c.at(&format!("iterate {}x{} ch {} {} extra {}", w, h, ch, P::Subpixel::NAME, extra));
    c.eval(vh::mix(0x17 ^ (w as u64) << 40 | (h as u64) << 20 | (extra as u64) << 8 | ch as u64));

    // mixed-end iteration over pixels
    {
        let mut it = img.pixels();
        let mut dq: VecDeque<usize> = (0..n).collect();
        let mut steps = 0;
        loop {
            check!(c, it.len() == dq.len() && it.size_hint() == (dq.len(), Some(dq.len())), "pixels-len", "pixels(): len {} hint {:?}, {} left", it.len(), it.size_hint(), dq.len());
            let (got, want) = match c.rng.below(8) {
                0 => {
                    let k = c.rng.below(5) as usize;
                    let g = it.nth(k);
                    for _ in 0..k {
                        dq.pop_front();
                    }
                    (g, dq.pop_front())
                }
                1 => {
                    let k = c.rng.below(4) as usize;
                    let g = it.nth_back(k);
                    for _ in 0..k {
                        dq.pop_back();
                    }
                    (g, dq.pop_back())
                }
                2 => {
                    let mut cl = it.clone();
                    (cl.next(), dq.front().copied())
                }
                3 | 4 => (it.next_back(), dq.pop_back()),
                _ => (it.next(), dq.pop_front()),
            };
            let ok = match (got, want) {
                (None, None) => true,
                (Some(g), Some(i)) => g.channels() == nth::<P>(&data, i),
                _ => false,
            };
            check!(c, ok, "pixels-order", "pixels() of {w}x{h} step {steps}: got {:?} want index {:?}", got.map(|p| p.channels().to_vec()), want);
            steps += 1;
            if dq.is_empty() && (got.is_none() || n == 0) || c.failed() {
                break;
            }
        }
        // exhausted iterators stay exhausted
        check!(c, it.next().is_none() && it.next_back().is_none() || c.failed(), "pixels-fused", "pixels() yields after the end");
        c.count("iterator steps", steps);
    }
    // rows, mixed ends, inner iterators
    {
        let rows_n = if w == 0 { 0 } else { h as usize };
        let mut it = img.rows();
        let mut dq: VecDeque<usize> = (0..rows_n).collect();
        loop {
            check!(c, it.len() == dq.len() && it.size_hint() == (dq.len(), Some(dq.len())), "rows-len", "rows(): len {} want {}", it.len(), dq.len());
            let back = c.rng.bool();
            let (got, want) = if back { (it.next_back(), dq.pop_back()) } else { (it.next(), dq.pop_front()) };
            match (got, want) {
                (None, None) => break,
                (Some(mut r), Some(y)) => {
                    check!(c, r.len() == w as usize, "row-len", "row {y} has {} pixels", r.len());
                    if c.rng.bool() {
                        for x in 0..w as usize {
                            let p = r.next();
                            check!(c, p.map(|p| p.channels() == nth::<P>(&data, y * w as usize + x)) == Some(true), "rows-content", "rows(): row {y} x {x} of {w}x{h}");
                        }
                    } else {
                        for x in (0..w as usize).rev() {
                            let p = r.next_back();
                            check!(c, p.map(|p| p.channels() == nth::<P>(&data, y * w as usize + x)) == Some(true), "rows-content-rev", "rows(): row {y} x {x} of {w}x{h} from the back");
                        }
                    }
                }
                (g, wnt) => {
                    c.fail("rows-count", format!("rows() of {w}x{h}: got {} want {:?}", g.is_some(), wnt));
                    break;
                }
            }
        }
    }
    // enumerations
    {
        let mut it = img.enumerate_pixels();
        for i in 0..n {
            check!(c, it.len() == n - i && it.size_hint().0 == n - i, "enum-len", "enumerate_pixels len {} at {i} of {n}", it.len());
            if c.rng.chance(1, 10) {
                let mut cl = it.clone();
                check!(c, cl.next().map(|(x, y, _)| (x, y)) == Some(((i % w as usize) as u32, (i / w as usize) as u32)), "enum-clone", "cloned enumerate_pixels differs");
            }
            match it.next() {
                Some((x, y, p)) => {
                    check!(c, (x, y) == ((i % w as usize) as u32, (i / w as usize) as u32) && p.channels() == nth::<P>(&data, i), "enum-pixels", "enumerate_pixels of {w}x{h} item {i}: ({x},{y})")
                }
                None => {
                    c.fail("enum-pixels-end", format!("enumerate_pixels of {w}x{h} ended at {i}"));
                    break;
                }
            }
        }
        check!(c, it.next().is_none(), "enum-pixels-more", "enumerate_pixels yields more than {n}");
        let mut k = 0;
        let rows_n = if w == 0 { 0 } else { h as usize };
        let er = img.enumerate_rows();
        check!(c, er.len() == rows_n, "enum-rows-len", "enumerate_rows len {} want {rows_n}", er.len());
        for (y, row) in er {
            check!(c, y as usize == k, "enum-rows-y", "enumerate_rows y {y} at {k}");
            let mut j = 0;
            for (x, yy, p) in row {
                check!(c, (x, yy) == (j as u32, k as u32) && p.channels() == nth::<P>(&data, k * w as usize + j), "enum-rows", "enumerate_rows of {w}x{h}: ({x},{yy}) at row {k} item {j}");
                j += 1;
            }
            check!(c, j == w as usize, "enum-rows-row", "enumerate_rows row {k} has {j} pixels of {w}");
            k += 1;
        }
        check!(c, k == rows_n, "enum-rows-count", "enumerate_rows yields {k} rows of {rows_n}");
        // generic view iterator
        let mut i = 0;
        let it = GenericImageView::pixels(&img);
        let sh = it.size_hint();
        check!(c, sh.0 <= n && sh.1.is_none_or(|u| u >= n), "view-pixels-hint", "view pixels() size_hint {:?} but {n} pixels", sh);
        for (x, y, p) in it {
            check!(c, i < n && (x, y) == ((i % w as usize) as u32, (i / w as usize) as u32) && p.channels() == nth::<P>(&data, i), "view-pixels", "view pixels() of {w}x{h} item {i}: ({x},{y})");
            i += 1;
            if i > n {
                break;
            }
        }
        check!(c, i == n, "view-pixels-count", "view pixels() of {w}x{h} yields {i}");
        c.count("enumerated pixels", 3 * n as u64);
    }
    // mutable iteration from both ends; the model records the writes
    let mut model = data.clone();
    {
        let mut it = img.pixels_mut();
        let mut dq: VecDeque<usize> = (0..n).collect();
        loop {
            check!(c, it.len() == dq.len() && it.size_hint() == (dq.len(), Some(dq.len())), "pixels_mut-len", "pixels_mut len {} want {}", it.len(), dq.len());
            let (g, i) = match c.rng.below(5) {
                0 => {
                    let k = c.rng.below(4) as usize;
                    for _ in 0..k {
                        dq.pop_front();
                    }
                    (it.nth(k), dq.pop_front())
                }
                1 | 2 => (it.next_back(), dq.pop_back()),
                _ => (it.next(), dq.pop_front()),
            };
            match (g, i) {
                (None, None) => break,
                (Some(p), Some(i)) => {
                    check!(c, p.channels() == nth::<P>(&model, i), "pixels_mut-order", "pixels_mut of {w}x{h}: wrong pixel for index {i}");
                    let q: P = gen::pixel(&mut c.rng);
                    *p = q;
                    model[i * ch..(i + 1) * ch].copy_from_slice(q.channels());
                }
                (g, i) => {
                    c.fail("pixels_mut-count", format!("pixels_mut of {w}x{h}: got {} want {:?}", g.is_some(), i));
                    break;
                }
            }
        }
    }
    check!(c, img.as_raw()[..] == model[..], "pixels_mut-write", "pixels_mut wrote elsewhere ({w}x{h}, spare {extra})");
    {
        let rows_n = if w == 0 { 0 } else { h as usize };
        let mut dq: VecDeque<usize> = (0..rows_n).collect();
        let mut it = img.rows_mut();
        loop {
            check!(c, it.len() == dq.len(), "rows_mut-len", "rows_mut len {} want {}", it.len(), dq.len());
            let (g, y) = if c.rng.bool() { (it.next(), dq.pop_front()) } else { (it.next_back(), dq.pop_back()) };
            match (g, y) {
                (None, None) => break,
                (Some(r), Some(y)) => {
                    let mut k = 0;
                    for (x, p) in r.enumerate() {
                        let i = y * w as usize + x;
                        let q: P = gen::pixel(&mut c.rng);
                        *p = q;
                        if i < n {
                            model[i * ch..(i + 1) * ch].copy_from_slice(q.channels());
                        }
                        k += 1;
                    }
                    check!(c, k == w as usize, "rows_mut-row", "rows_mut row has {k} of {w}");
                }
                (g, y) => {
                    c.fail("rows_mut-count", format!("rows_mut of {w}x{h}: got {} want {:?}", g.is_some(), y));
                    break;
                }
            }
        }
    }
    check!(c, img.as_raw()[..] == model[..], "rows_mut-write", "rows_mut wrote elsewhere ({w}x{h})");
    let mut i = 0;
    for (x, y, p) in img.enumerate_pixels_mut() {
        check!(c, i < n && (x as usize, y as usize) == (i % w as usize, i / w as usize) && p.channels() == nth::<P>(&model, i), "enum_mut", "enumerate_pixels_mut of {w}x{h} item {i}: ({x},{y})");
        let q: P = gen::pixel(&mut c.rng);
        *p = q;
        if i < n {
            model[i * ch..(i + 1) * ch].copy_from_slice(q.channels());
        }
        i += 1;
    }
    check!(c, i == n && img.as_raw()[..] == model[..], "enum_mut-write", "enumerate_pixels_mut yields {i} of {n} or wrote elsewhere");
    let mut k = 0;
    for (y, row) in img.enumerate_rows_mut() {
        let mut j = 0;
        for (x, yy, p) in row {
            check!(c, (x, yy, y) == (j as u32, k as u32, k as u32), "enum_rows_mut", "enumerate_rows_mut of {w}x{h}: ({x},{yy}) row {y} at {k},{j}");
            let q: P = gen::pixel(&mut c.rng);
            *p = q;
            let i = k * w as usize + j;
            if i < n {
                model[i * ch..(i + 1) * ch].copy_from_slice(q.channels());
            }
            j += 1;
        }
        k += 1;
    }
    check!(c, img.as_raw()[..] == model[..], "enum_rows_mut-write", "enumerate_rows_mut wrote elsewhere");
    check!(c, k == if w == 0 { 0 } else { h as usize }, "enum_rows_mut-count", "enumerate_rows_mut yields {k} rows");
}

fn construct<P: Pixel + Send + Sync + std::fmt::Debug + PartialEq>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    let ch = P::CHANNEL_COUNT as u128;
    // any dimensions, including ones whose sample count overflows
    for _ in 0..20 {
        let d = |c: &mut Case| match c.rng.below(6) {
            0 => c.rng.r32(0, 8),
            1 => 1 << c.rng.r32(0, 31),
            2 => (1 << c.rng.r32(0, 31)) + 1,
            3 => u32::MAX - c.rng.r32(0, 3),
            4 => 0,
            _ => c.rng.u32(),
        };
        let (w, h) = (d(c), d(c));
        let len = c.rng.below(600) as usize;
        let fits = w as u128 * h as u128 * ch <= len as u128;
        let got = ImageBuffer::<P, _>::from_raw(w, h, vec![P::Subpixel::unit(0.0); len]);
        c.eval(vh::mix(3 ^ (w as u64) << 32 | h as u64));
        check!(c, got.is_some() == fits, "from_raw", "from_raw({w},{h},len {len}) x{ch}: {} but fits = {fits}", got.is_some());
        c.count("constructions", 1);
    }
    // construction by function, by pixel, zeroed
    let (w, h) = dims(c);
    let mut calls = vec![];
    let mut vals: Vec<P::Subpixel> = vec![];
    let rng = &mut c.rng;
    let img = ImageBuffer::<P, Vec<P::Subpixel>>::from_fn(w, h, |x, y| {
        let p: P = gen::pixel(rng);
        calls.push((x, y));
        vals.extend_from_slice(p.channels());
        p
    });
    let want: Vec<(u32, u32)> = (0..h).flat_map(|y| (0..w).map(move |x| (x, y))).collect();
    check!(c, calls == want && img.as_raw()[..] == vals[..], "from_fn", "from_fn({w},{h}) called for the wrong coordinates or stored wrongly");
    let p: P = gen::pixel(&mut c.rng);
    let img = ImageBuffer::<P, Vec<P::Subpixel>>::from_pixel(w, h, p);
    check!(c, img.as_raw().len() == want.len() * ch as usize && img.as_raw().chunks(ch as usize).all(|q| q == p.channels()), "from_pixel", "from_pixel({w},{h}) wrong");
    let img = ImageBuffer::<P, Vec<P::Subpixel>>::new(w, h);
    check!(c, img.as_raw().len() == want.len() * ch as usize && img.as_raw().iter().all(|q| q.bits() == 0), "new-zero", "new({w},{h}) not zero");
    check!(c, img.dimensions() == (w, h), "new-dims", "new dims");
    let d = ImageBuffer::<P, Vec<P::Subpixel>>::default();
    check!(c, d.dimensions() == (0, 0) && d.pixels().count() == 0, "default", "default not empty");
    // mutable slice container
    let mut back: Vec<P::Subpixel> = (0..(w as usize * h as usize * ch as usize + 7)).map(|_| P::Subpixel::arb(&mut c.rng)).collect();
    let before = back.clone();
    if w > 0 && h > 0 {
        let (x, y) = (c.rng.below(w as u64) as u32, c.rng.below(h as u64) as u32);
        let mut m = ImageBuffer::<P, &mut [P::Subpixel]>::from_raw(w, h, &mut back[..]).expect("fits");
        m.put_pixel(x, y, p);
        let i = (y as usize * w as usize + x as usize) * ch as usize;
        let mut b2 = before.clone();
        b2[i..i + ch as usize].copy_from_slice(p.channels());
        check!(c, back == b2, "mutslice", "put_pixel through a slice container wrote elsewhere");
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Random sizes (0..40, empty ones included), 15 pixel types, container with 0..n spare samples; distinct = (size, pixel type, spare) tuples; every access is compared with a flat-vector model.");
    ctx.section("access", 2500, 60_000, |c| some_pixel!(c, access));
    ctx.section("iterate", 2500, 60_000, |c| some_pixel!(c, iterate));
    ctx.section("construct", 1500, 30_000, |c| some_pixel!(c, construct));
    ctx.require("reads", 10_000);
    ctx.require("refusals", 10_000);
    ctx.require("iterator steps", 10_000);
    ctx.require("enumerated pixels", 10_000);
}
