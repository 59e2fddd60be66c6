//! C12: animations decode to composited, timed frame sequences.
use image::codecs::{gif, png, webp};
use image::{AnimationDecoder, Delay, Frame, Frames, ImageDecoder, ImageResult, Rgba, RgbaImage};
use std::io::Cursor;
use std::time::Duration;
use vh::dec::{self, kind};
use vh::files::anim::{self, Anim, Blend, Dispose};
use vh::{catch, check, hash_bytes, hash_str, Case, Ctx, Rng};

vh::property_main!("C12");

type Cur<'a> = Cursor<&'a [u8]>;
fn frames<'a>(a: &Anim, b: &'a [u8]) -> ImageResult<Frames<'a>> {
    let r: Cur<'a> = Cursor::new(b);
    match &a.variant[..3] {
        "gif" => Ok(gif::GifDecoder::new(r)?.into_frames()),
        "apn" => {
            let d = png::PngDecoder::new(r)?;
            Ok(d.apng()?.into_frames())
        }
        _ => {
            let mut d = webp::WebPDecoder::new(r)?;
            if a.set_bg {
                d.set_background_color(Rgba(a.clear))?;
            }
            Ok(d.into_frames())
        }
    }
}
/// Exact source-over of non-premultiplied samples.
fn over(f: [u8; 4], b: [u8; 4]) -> [f64; 4] {
    let (fa, ba) = (f[3] as f64 / 255.0, b[3] as f64 / 255.0);
    let oa = fa + ba * (1.0 - fa);
    let mut o = [0.0; 4];
    for c in 0..3 {
        o[c] = if oa == 0.0 { b[c] as f64 } else { (f[c] as f64 * fa + b[c] as f64 * ba * (1.0 - fa)) / oa };
    }
    o[3] = oa * 255.0;
    o
}
/// The canvas as the frames seen so far leave it. Blending is judged one step
/// at a time from the canvas actually shown, so rounding does not add up.
struct Model<'a> {
    a: &'a Anim,
    canvas: Vec<[u8; 4]>,
    i: usize,
}
impl<'a> Model<'a> {
    fn new(a: &'a Anim) -> Self {
        Model { a, canvas: vec![a.clear; (a.w * a.h) as usize], i: 0 }
    }
    fn area(&self, k: usize) -> impl Iterator<Item = (usize, usize)> {
        let s = &self.a.steps[k];
        let (x0, y0, w, h, cw, ch) = (s.x, s.y, s.w, s.h, self.a.w, self.a.h);
        (0..h).flat_map(move |y| (0..w).map(move |x| (x, y))).filter(move |(x, y)| x0 + x < cw && y0 + y < ch).map(move |(x, y)| (((y0 + y) * cw + x0 + x) as usize, (y * w + x) as usize))
    }
    /// Compare the shown frame, then dispose of it.
    fn next(&mut self, got: &RgbaImage) -> Result<u64, String> {
        let s = &self.a.steps[self.i];
        let mut blended = 0;
        let mut bad = None;
        let before = self.canvas.clone();
        let shown: Vec<[u8; 4]> = got.pixels().map(|p| p.0).collect();
        let mut want: Vec<[f64; 4]> = before.iter().map(|p| p.map(|v| v as f64)).collect();
        let mut tol = vec![0.0; want.len()];
        let mut free = vec![false; want.len()];
        for (c, k) in self.area(self.i) {
            let f = s.px[k];
            match s.blend {
                Blend::Replace => want[c] = f.map(|v| v as f64),
                Blend::Over if f[3] == 255 => {
                    want[c] = f.map(|v| v as f64);
                    // the WebP crate blends opaque pixels like all others
                    tol[c] = if self.a.variant.starts_with("webp") { self.a.tol } else { 0.0 };
                }
                Blend::Over if f[3] == 0 => {
                    free[c] = before[c][3] == 0;
                }
                Blend::Over => {
                    want[c] = over(f, before[c]);
                    tol[c] = self.a.tol;
                    blended += 1;
                }
            }
        }
        for i in 0..want.len() {
            for c in 0..4 {
                if self.a.opaque && c == 3 {
                    if shown[i][3] != 255 {
                        bad = Some(format!("opaque animation shows alpha {} at {i}", shown[i][3]));
                    }
                    continue;
                }
                // colours weigh as much as they are visible
                let weight = if c == 3 || tol[i] == 0.0 { 1.0 } else { (want[i][3] / 255.0).min(1.0) };
                let t = if tol[i] == 0.0 { 0.0 } else { tol[i] + 0.5 + 1e-6 };
                // the colour of an invisible pixel is not defined
                if c < 3 && want[i][3] == 0.0 && (free[i] || shown[i][3] == 0 && s.blend == Blend::Over) {
                    continue;
                }
                if (shown[i][c] as f64 - want[i][c]).abs() * weight > t && bad.is_none() {
                    let w = self.a.w as usize;
                    bad = Some(format!("frame {} at ({},{}): shown {:?}, defined {:?} (before {:?})", self.i, i % w, i / w, shown[i], want[i], before[i]));
                }
            }
        }
        let mut after = shown;
        match s.dispose {
            Dispose::Keep => {}
            Dispose::Clear => {
                for (c, _) in self.area(self.i) {
                    after[c] = self.a.clear;
                }
            }
            Dispose::Previous => after = before,
        }
        self.canvas = after;
        self.i += 1;
        match bad {
            None => Ok(blended),
            Some(b) => Err(b),
        }
    }
}
/// A partial frame is disposed to background and a full-size frame is then
/// blended: the codec crate below clears everything first.
fn webp_full_after_clear(a: &Anim, i: usize) -> bool {
    let full = |k: usize| (a.steps[k].w, a.steps[k].h) == (a.w, a.h);
    a.variant.starts_with("webp") && i > 0 && full(i) && !full(i - 1) && a.steps[i].blend == Blend::Over && a.steps[i - 1].dispose == Dispose::Clear
}

/// Rows of an interlaced frame are laid out by the codec crate below as wide
/// as the image.
fn apng_narrow_interlaced(a: &Anim, i: usize) -> bool {
    a.variant.starts_with("apng") && a.variant.contains("interlaced") && a.steps[i].w != a.w
}
fn known(a: &Anim, i: usize) -> Option<&'static str> {
    if webp_full_after_clear(a, i) {
        Some("full-size blended frame after a cleared part")
    } else if apng_narrow_interlaced(a, i) {
        Some("interlaced frame narrower than the image")
    } else {
        None
    }
}
fn fmt_name(a: &Anim) -> &str {
    a.variant.split(' ').next().unwrap()
}

fn whole(c: &mut Case, a: &Anim) {
    c.at(&a.variant);
    c.eval(hash_bytes(&a.bytes));
    c.evals_str(&a.variant);
    let name = fmt_name(a);
    if a.dep_fails {
        c.count("valid files the gif crate itself gets wrong", 1);
        return;
    }
    let what = format!("{} {}x{} {} frames", a.variant, a.w, a.h, a.steps.len());
    let r = catch(|| -> Result<(), (String, String)> {
        let mut it = frames(a, &a.bytes).map_err(|e| (format!("refused {}", kind(&e)), e.to_string()))?;
        let mut m = Model::new(a);
        for i in 0..a.steps.len() {
            let f = match it.next() {
                None => return Err(("frames missing".into(), format!("{i} of {}", a.steps.len()))),
                Some(Err(e)) => return Err((format!("frame refused {}", kind(&e)), format!("frame {i}: {e}"))),
                Some(Ok(f)) => f,
            };
            if (f.buffer().dimensions(), f.left(), f.top()) != ((a.w, a.h), 0, 0) {
                return Err(("frame is not the canvas".into(), format!("{:?} at {},{}", f.buffer().dimensions(), f.left(), f.top())));
            }
            let (n, d) = f.delay().numer_denom_ms();
            let (en, ed) = a.steps[i].delay;
            if n as u64 * ed != en * d as u64 {
                return Err(("delay".into(), format!("frame {i}: {n}/{d} ms, stored {en}/{ed}")));
            }
            match m.next(f.buffer()) {
                Ok(b) => {
                    c.count("frames compared", 1);
                    c.count("blended pixels", b);
                }
                Err(e) => match known(a, i) {
                    Some(k) => c.fail_blob(&format!("{} {k}", fmt_name(a)), format!("{what}: {e}"), Some(&a.bytes)),
                    None => return Err(("frame content".into(), e)),
                },
            }
        }
        for k in 0..3 {
            if let Some(x) = it.next() {
                return Err(("frames after the last".into(), format!("call {k} after the end: {:?}", x.map(|f| f.delay()))));
            }
        }
        Ok(())
    });
    match r {
        Err(p) => c.fail_blob(&format!("{name} panics"), format!("{what}: {p}"), Some(&a.bytes)),
        Ok(Err((k, d))) => c.fail_blob(&format!("{name} {k}"), format!("{what}: {d}"), Some(&a.bytes)),
        Ok(Ok(())) => {}
    }
    c.sample(|| what);
}
/// The still image inside, and the collecting form.
fn other_views(c: &mut Case, a: &Anim) {
    if a.dep_fails {
        return;
    }
    let n = frames(a, &a.bytes).and_then(|f| f.collect_frames());
    check!(c, n.as_ref().is_ok_and(|v| v.len() == a.steps.len()), "collect_frames", "{}: {:?}", a.variant, n.as_ref().map(|v| v.len()).map_err(kind));
    let fmt = match &a.variant[..3] {
        "gif" => image::ImageFormat::Gif,
        "apn" => image::ImageFormat::Png,
        _ => image::ImageFormat::WebP,
    };
    if a.variant.starts_with("webp") && !a.set_bg {
        // the still form of an animated file is its first frame
        let d = dec::decode(fmt, &a.bytes);
        let f = &n.as_ref().unwrap()[0];
        let want: Vec<u8> = f.buffer().pixels().flat_map(|p| p.0[..if a.opaque { 3 } else { 4 }].to_vec()).collect();
        match d {
            Ok(Some(d)) => check!(c, d.px == want, "webp still form is the first frame", "{}", a.variant),
            e => check!(c, false, "webp still form", "{}: {e:?}", a.variant),
        }
    }
    if a.variant.starts_with("gif") {
        let d = dec::decode(fmt, &a.bytes);
        let (s, mut want) = (&a.steps[0], vec![[0u8; 4]; (a.w * a.h) as usize]);
        for y in 0..s.h {
            for x in 0..s.w {
                if s.x + x < a.w && s.y + y < a.h {
                    want[((s.y + y) * a.w + s.x + x) as usize] = s.px[(y * s.w + x) as usize];
                }
            }
        }
        match d {
            Ok(Some(d)) => {
                let bad = d.px.chunks_exact(4).zip(&want).position(|(g, w)| g[3] != w[3] || (w[3] != 0 && g != w));
                check!(c, bad.is_none(), "gif still form is the first frame", "{} pixel {bad:?}", a.variant)
            }
            e => check!(c, false, "gif still form", "{}: {e:?}", a.variant),
        }
    }
    if let Some(s) = &a.still {
        let d = image::codecs::png::PngDecoder::new(Cursor::new(&a.bytes[..]));
        check!(c, d.as_ref().is_ok_and(|d| d.is_apng().is_ok_and(|b| b)), "is_apng", "{}", a.variant);
        match d.and_then(dec::read) {
            Ok(Some(d)) => check!(c, &d.px == s, "apng still form", "{}", a.variant),
            e => check!(c, false, "apng still form", "{}: {e:?}", a.variant),
        }
    }
}
/// Cut or damaged: frames up to the damage are right, then at most one error,
/// then nothing, ever.
fn damaged(c: &mut Case, a: &Anim) {
    if a.dep_fails {
        return;
    }
    let mut b = a.bytes.clone();
    let cut = c.rng.bool();
    let at = c.rng.below(b.len() as u64) as usize;
    if cut {
        b.truncate(at);
    } else {
        for _ in 0..c.rng.r32(1, 3) {
            let i = c.rng.below(b.len() as u64) as usize;
            b[i] = if c.rng.bool() { b[i] ^ (1 << c.rng.below(8)) } else { c.rng.u8() };
        }
    }
    c.eval(hash_bytes(&b));
    let name = fmt_name(a);
    let what = format!("{} {}x{} {} frames, {}", a.variant, a.w, a.h, a.steps.len(), if cut { format!("cut at {at} of {}", a.bytes.len()) } else { "damaged".into() });
    let r = catch(|| -> Result<(), (String, String)> {
        let Ok(mut it) = frames(a, &b) else {
            c.count("refused at once", 1);
            return Ok(());
        };
        let mut m = Model::new(a);
        let mut seen = 0;
        // a damaged header may announce more frames, never without end
        let bound = b.len() + 2;
        loop {
            match it.next() {
                None => break,
                Some(Err(_)) => {
                    c.count("iterations ended by an error", 1);
                    break;
                }
                Some(Ok(f)) => {
                    if cut {
                        if seen >= a.steps.len() || a.ends[seen] > b.len() + 12 {
                            return Err(("frame whose data is cut".into(), format!("frame {seen}")));
                        }
                        let r = m.next(f.buffer());
                        if known(a, seen).is_none() {
                            r.map_err(|e| ("frame content of a cut file".to_string(), e))?;
                        }
                    }
                    seen += 1;
                    if seen > bound {
                        return Err(("endless frames".into(), format!("{seen} frames from {} bytes", b.len())));
                    }
                }
            }
        }
        for k in 0..4 {
            match it.next() {
                None => {}
                Some(x) => return Err(("iteration continues after its end".into(), format!("call {k}: {:?}", x.map(|f| f.delay()).map_err(|e| e.to_string())))),
            }
        }
        c.count("iterations that stayed ended", 1);
        Ok(())
    });
    match r {
        Err(p) => c.fail_blob(&format!("{name} panics"), format!("{what}: {p}"), Some(&b)),
        Ok(Err((k, d))) => c.fail_blob(&format!("{name} {k}"), format!("{what}: {d}"), Some(&b)),
        Ok(Ok(())) => {}
    }
}
fn failing_limits(c: &mut Case, a: &Anim) {
    // one error, then the end
    let mut l = image::Limits::default();
    let need = a.w as u64 * a.h as u64 * 4;
    l.max_alloc = Some(c.rng.below(need * 3));
    let r: Cur = Cursor::new(&a.bytes);
    let it: ImageResult<Frames> = (|| match &a.variant[..3] {
        "gif" => {
            let mut d = gif::GifDecoder::new(r)?;
            d.set_limits(l)?;
            Ok(d.into_frames())
        }
        "apn" => {
            let d = png::PngDecoder::with_limits(r, l)?;
            Ok(d.apng()?.into_frames())
        }
        _ => {
            let mut d = webp::WebPDecoder::new(r)?;
            d.set_limits(l)?;
            Ok(d.into_frames())
        }
    })();
    c.eval(hash_bytes(&a.bytes));
    if let Ok(it) = it {
        let mut errs = 0;
        let mut n = 0;
        for f in it.take(a.steps.len() + 5) {
            n += 1;
            errs += f.is_err() as usize;
        }
        c.count(if errs == 0 { "limited iterations without error" } else { "limited iterations refused" }, 1);
        check!(c, errs <= 1 && n <= a.steps.len(), &format!("{} iteration continues after a limits error", fmt_name(a)), "{} frames, {errs} errors, {n} items", a.steps.len());
    }
}

fn gif_write(c: &mut Case) {
    let mut r: Rng = c.rng.clone();
    let (w, h) = (r.r32(1, 24), r.r32(1, 24));
    let n = r.range(1, 6) as usize;
    let mut list = vec![];
    let few = r.r32(1, 256);
    for _ in 0..n {
        let cols: Vec<[u8; 4]> = (0..few).map(|_| [r.u8(), r.u8(), r.u8(), if r.chance(1, 8) { 0 } else { 255 }]).collect();
        let im = RgbaImage::from_fn(w, h, |_, _| Rgba(*r.pick(&cols)));
        let d = match r.below(4) {
            0 => Delay::from_numer_denom_ms(r.r32(0, 70_000) * 10, 1),
            1 => Delay::from_numer_denom_ms(r.u32(), r.r32(1, 1000)),
            2 => Delay::from_numer_denom_ms(r.r32(0, 5000), r.r32(1, 7)),
            _ => Delay::from_saturating_duration(Duration::from_millis(r.below(700_000))),
        };
        // spare room in the container is not pixel data
        let mut raw = im.into_raw();
        if r.chance(1, 4) {
            raw.extend(r.bytes(9));
        }
        let im = RgbaImage::from_raw(w, h, raw).unwrap();
        list.push(Frame::from_parts(im, 0, 0, d));
    }
    let rep = match r.below(3) {
        0 => None,
        1 => Some(gif::Repeat::Infinite),
        _ => Some(gif::Repeat::Finite(r.u16())),
    };
    let speed = r.r32(1, 30) as i32;
    let way = r.below(3);
    let res = catch(|| -> ImageResult<Vec<u8>> {
        let mut out = vec![];
        {
            let mut e = gif::GifEncoder::new_with_speed(&mut out, speed);
            if let Some(p) = rep {
                e.set_repeat(p)?;
            }
            match way {
                0 => e.encode_frames(list.iter().cloned())?,
                1 => e.try_encode_frames(list.iter().cloned().map(Ok))?,
                _ => {
                    for f in &list {
                        e.encode_frame(f.clone())?;
                    }
                }
            }
        }
        Ok(out)
    });
    c.evals_str(&format!("gif write way {way} repeat {}", rep.is_some()));
    let out = match res {
        Err(p) => return c.fail("gif encoder panics", format!("{w}x{h} {n} frames: {p}")),
        Ok(Err(e)) => return c.fail("gif encoder refuses", format!("{w}x{h} {n} frames: {e}")),
        Ok(Ok(v)) => v,
    };
    c.eval(hash_bytes(&out));
    let back: Vec<Frame> = match gif::GifDecoder::new(Cursor::new(&out[..])).and_then(|d| d.into_frames().collect_frames()) {
        Err(e) => return c.fail_blob("gif written frames unreadable", format!("{e}"), Some(&out)),
        Ok(v) => v,
    };
    check!(c, back.len() == n, "gif frame count", "wrote {n}, read {}", back.len());
    for (i, (b, f)) in back.iter().zip(&list).enumerate() {
        let bad = b.buffer().pixels().zip(f.buffer().pixels()).position(|(g, w)| if w.0[3] == 0 { g.0[3] != 0 } else { g != w });
        check!(c, bad.is_none(), "gif frame pixels", "frame {i} of {n} ({w}x{h}, {few} colours) pixel {bad:?}: {:?} for {:?}", bad.map(|k| b.buffer().pixels().nth(k)), bad.map(|k| f.buffer().pixels().nth(k)));
        let (en, ed) = f.delay().numer_denom_ms();
        let (n2, d2) = b.delay().numer_denom_ms();
        let (want, got) = (en as f64 / ed as f64, n2 as f64 / d2 as f64);
        let cap = 655_350.0;
        let ok = if want >= cap { got == cap } else { (got - want).abs() < 10.0 && (want % 10.0 != 0.0 || got == want) };
        check!(c, ok, "gif delay", "wrote {want} ms, read {got}");
        c.count("frames written and read back", 1);
    }
    // the repeat count in the file
    let ext = b"NETSCAPE2.0\x03\x01";
    let p = out.windows(ext.len()).position(|x| x == ext);
    let got = p.map(|p| u16::from_le_bytes([out[p + ext.len()], out[p + ext.len() + 1]]));
    let want = match rep {
        None => None,
        Some(gif::Repeat::Infinite) => Some(0),
        Some(gif::Repeat::Finite(0)) => None,
        Some(gif::Repeat::Finite(n)) => Some(n),
    };
    check!(c, got == want, "gif repeat", "asked {rep:?}, file has {got:?}");
}

/// A frame holds what it was made of, and so do its copies.
fn frame_values(c: &mut Case) {
    use image::{Delay, Frame, RgbaImage};
    let mut r = c.rng.clone();
    type Parts = (RgbaImage, u32, u32, (u32, u32));
    let make = |r: &mut Rng| -> (Frame, Parts) {
        let (w, h) = (r.r32(0, 3), r.r32(0, 3));
        let px: Vec<u8> = (0..w * h * 4).map(|_| r.u64() as u8).collect();
        let im = RgbaImage::from_raw(w, h, px).unwrap();
        match r.below(4) {
            0 => (Frame::new(im.clone()), (im, 0, 0, (0, 1))),
            _ => {
                let (l, t) = (*r.pick(&[0, 1, 5, u32::MAX]), r.r32(0, 9));
                let d = (r.r32(0, 40), 1);
                (Frame::from_parts(im.clone(), l, t, Delay::from_numer_denom_ms(d.0, d.1)), (im, l, t, d))
            }
        }
    };
    fn is(f: &Frame, p: &Parts) -> bool {
        f.buffer() == &p.0 && (f.left(), f.top()) == (p.1, p.2) && f.delay().numer_denom_ms() == p.3
    }
    let n = r.range(2, 4) as usize;
    let mut fs: Vec<(Frame, Parts)> = (0..n).map(|_| make(&mut r)).collect();
    c.eval(r.u64());
    for k in 0..8 {
        let (i, j) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
        match r.below(4) {
            0 => fs[i] = fs[j].clone(),
            1 if i != j => {
                let src = fs[j].clone();
                fs[i].0.clone_from(&src.0);
                fs[i].1 = src.1;
                c.count("frames cloned into frames", 1);
            }
            2 => {
                if let Some(p) = fs[i].0.buffer_mut().pixels_mut().next() {
                    p.0[1] ^= 0x55;
                    fs[i].1 .0.pixels_mut().next().unwrap().0[1] ^= 0x55;
                }
            }
            _ => {
                let f = fs[i].0.clone();
                check!(c, f.into_buffer() == fs[i].1 .0, "frame values", "into_buffer after {k} steps");
            }
        }
        for (f, p) in &fs {
            check!(c, is(f, p), "frame values", "after step {k}: {}x{} at {},{} {:?} instead of {:?}", f.buffer().width(), f.buffer().height(), f.left(), f.top(), f.delay(), (p.0.dimensions(), p.1, p.2, p.3));
        }
    }
}

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn delays(c: &mut Case) {
    let r = &mut c.rng;
    // durations to delays
    let ns: u128 = match r.below(6) {
        0 => r.below(2_000_000) as u128,
        1 => r.below(5_000) as u128 * 1_000_000 + [0, 1, 500_000, 499_999, 999_999, 250_000, 333_333][r.below(7) as usize],
        2 => (u32::MAX as u128 * 1_000_000 + r.below(4_000_000) as u128).saturating_sub(2_000_000),
        3 => r.u64() as u128 * 1_000_000_000,
        4 => (r.below(1 << 32) as u128) * 1_000_000 + r.below(1_000_000) as u128,
        _ => (1u128 << r.below(52)) + r.below(1000) as u128,
    };
    let d = Duration::new((ns / 1_000_000_000) as u64, (ns % 1_000_000_000) as u32);
    let max = u32::MAX as u128;
    let res = catch(|| {
        let x = Delay::from_saturating_duration(d);
        (x.numer_denom_ms(), Duration::from(x))
    });
    c.evals(1);
    match res {
        Err(p) => c.fail("delay from duration panics", format!("{d:?}: {p}")),
        Ok(((n, q), back)) => {
            c.eval(hash_str(&format!("{n}/{q}")));
            c.count("durations converted", 1);
            // |n/q - ns/10^6| in units of 1/(q 10^6)
            let err = |n: u128, q: u128| (n * 1_000_000).abs_diff(ns * q);
            if ns >= max * 1_000_000 {
                check!(c, (n as u128, q) == (max, 1), "delay beyond the maximum", "{d:?} gives {n}/{q}");
            } else {
                let g = gcd(ns, 1_000_000);
                let (en, eq) = (ns / g, 1_000_000 / g);
                // fractions are sought among denominators that leave room for
                // the next whole millisecond
                if en <= max && eq <= max && eq * (ns / 1_000_000 + 1) <= max + 1 {
                    check!(c, n as u128 * eq == en * q as u128, "exact delay kept", "{d:?} gives {n}/{q}, {en}/{eq} is exact");
                    c.count("durations exactly representable", 1);
                } else {
                    // the nearest of all representable fractions, by exhaustion where few
                    let bound = max * 1_000_000 / ns.max(1);
                    let top = bound.min(4000);
                    let e = err(n as u128, q as u128);
                    for b in 1..=top {
                        let lo = ns * b / 1_000_000;
                        for a in [lo, lo + 1] {
                            if a <= max && err(a, b) * (q as u128) < e * b {
                                let next = b * (ns / 1_000_000 + 1) > max + 1;
                                check!(c, next, "nearest delay", "{d:?} gives {n}/{q}, {a}/{b} is nearer");
                                break;
                            }
                        }
                    }
                    c.count("durations compared with all fractions", 1);
                }
            }
            // and back: whole nanoseconds, rounded down
            let exact = n as u128 * 1_000_000 / q as u128;
            check!(c, back.as_nanos() == exact || back.as_nanos() == exact + 1, "duration from delay", "{n}/{q} ms gives {back:?}");
        }
    }
    // ratios: kept exactly, compared as fractions
    let r = &mut c.rng;
    let edge = |r: &mut Rng| *r.pick(&[0u32, 1, 2, 3, 10, 999, 1000, 65535, u32::MAX, u32::MAX - 1, 1 << 31]);
    let mut pair = || {
        let n = if r.bool() { edge(r) } else { r.u32() };
        let q = if r.bool() { edge(r) } else { r.u32() }.max(1);
        (n, q)
    };
    let ((n, q), (n2, mut q2)) = (pair(), pair());
    let same = q2 % 3 == 0;
    let n2 = if same && n < 1 << 20 && q < 1 << 20 {
        q2 = q * 7;
        n * 7
    } else {
        n2
    };
    let res = catch(|| {
        let (a, b) = (Delay::from_numer_denom_ms(n, q), Delay::from_numer_denom_ms(n2, q2));
        (a.numer_denom_ms(), Duration::from(a), a.partial_cmp(&b), a == b)
    });
    match res {
        Err(p) => c.fail("delay from ratio panics", format!("{n}/{q}, {n2}/{q2}: {p}")),
        Ok((k, dur, ord, eq)) => {
            check!(c, k == (n, q), "ratio kept", "{n}/{q} became {k:?}");
            let exact = n as u128 * 1_000_000 / q as u128;
            check!(c, dur.as_nanos() == exact || dur.as_nanos() == exact + 1, "duration from ratio", "{n}/{q} ms gives {dur:?}");
            let want = (n as u64 * q2 as u64).cmp(&(n2 as u64 * q as u64));
            check!(c, ord == Some(want) && eq == (want == std::cmp::Ordering::Equal), "delays compare as fractions", "{n}/{q} with {n2}/{q2}: {ord:?} {eq}");
            c.count("ratios converted", 1);
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("animated GIF, PNG and WebP files from own writers (random rectangles, palettes, blending, disposal, delays, thumbnails, interlace); every frame compared pixel by pixel with the canvas a reference compositor derives from the previous shown frame; cut and damaged files; frames written by the GIF encoder; delay arithmetic against 128-bit arithmetic");
    ctx.assume("source-over within one and a half units of the visible colour; the colour of invisible pixels is not compared; a delay written to GIF may be off by less than one hundredth of a second; files that the gif crate's own frame reader gets wrong are not decided");
    ctx.section("gif", 12_000, 300_000, |c| {
        let a = anim::gif(&mut c.rng);
        whole(c, &a);
        other_views(c, &a);
    });
    ctx.section("apng", 12_000, 300_000, |c| {
        let a = anim::apng(&mut c.rng);
        whole(c, &a);
        other_views(c, &a);
    });
    ctx.section("webp", 8000, 200_000, |c| {
        let a = anim::webp(&mut c.rng);
        whole(c, &a);
        other_views(c, &a);
    });
    ctx.section("damaged", 9000, 300_000, |c| {
        let a = match c.rng.below(3) {
            0 => anim::gif(&mut c.rng),
            1 => anim::apng(&mut c.rng),
            _ => anim::webp(&mut c.rng),
        };
        for _ in 0..3 {
            damaged(c, &a);
        }
    });
    ctx.section("limits", 3000, 60_000, |c| {
        let a = match c.rng.below(3) {
            0 => anim::gif(&mut c.rng),
            1 => anim::apng(&mut c.rng),
            _ => anim::webp(&mut c.rng),
        };
        failing_limits(c, &a);
    });
    ctx.section("gif written", 2000, 60_000, gif_write);
    ctx.section("frame values", 20_000, 300_000, frame_values);
    ctx.section("delays", 20_000, 600_000, delays);
    ctx.require("frames compared", 5000);
    ctx.require("blended pixels", 5000);
    ctx.require("iterations that stayed ended", 1000);
    ctx.require("durations exactly representable", 500);
    ctx.require("frames written and read back", 1000);
}
