//! C09: decoders fill exactly the announced buffer and region.
use image::codecs::{bmp::BmpDecoder, farbfeld::FarbfeldDecoder};
use image::{DynamicImage, ImageDecoder, ImageDecoderRect, ImageFormat};
use std::io::Cursor;
use vh::dec::{self, kind};
use vh::files::{self, writers, FileCase};
use vh::{catch, check, hash_bytes, mutate, with_decoder, Case, Ctx, Rng};

vh::property_main!("C09");

/// What a decoder says about itself, without decoding.
fn facts<D: ImageDecoder>(d: &mut D, order: u64) -> Vec<String> {
    let mut v = vec![String::new(); 7];
    for k in 0..7u64 {
        let k = ((k + order) % 7) as usize;
        v[k] = match k {
            0 => format!("dimensions {:?}", d.dimensions()),
            1 => format!("colour {:?}", d.color_type()),
            2 => format!("original colour {:?}", d.original_color_type()),
            3 => format!("bytes {}", d.total_bytes()),
            4 => format!("icc {:?}", d.icc_profile().map_err(|e| kind(&e)).map(|o| o.map(|b| hash_bytes(&b)))),
            5 => format!("exif {:?}", d.exif_metadata().map_err(|e| kind(&e)).map(|o| o.map(|b| hash_bytes(&b)))),
            _ => format!("orientation {:?}", d.orientation().map_err(|e| kind(&e))),
        };
    }
    v
}

fn whole(c: &mut Case, name: &str, f: &FileCase) {
    c.at(&f.variant);
    let what = format!("{} {}x{} {:?}", f.variant, f.w, f.h, f.color);
    let sig = |k: &str| format!("{name} {k}");
    let mut r = c.rng.clone();
    let b = &f.bytes;
    let mk = || Cursor::new(&b[..]);
    let order = r.below(7);

    // two decodes into buffers with different previous content
    let mut outs = vec![];
    let mut said = vec![];
    for fill in [0x00u8, 0xff, r.u8() | 1] {
        let got = catch(|| {
            with_decoder!(f.fmt, mk(), |d| {
                let mut d = d?;
                let s = facts(&mut d, order);
                dec::read_fill(d, fill).map(|v| (v, s))
            })
        });
        match got {
            Ok(Ok((Some(v), s))) => {
                outs.push(v);
                said.push(s);
            }
            Ok(Ok((None, _))) => return,
            Ok(Err(_)) => {
                // accepted or not is C05's subject; must not depend on the buffer
                c.count("files refused", 1);
                check!(c, outs.is_empty(), sig("refused depending on the buffer"), "{what}");
                return;
            }
            Err(p) => return c.fail_blob(&sig("panics"), format!("{what}: {p}"), Some(b)),
        }
    }
    c.eval(hash_bytes(b));
    c.evals_str(&f.variant);
    c.count("buffers with three previous contents", 1);
    if outs[0].px != outs[1].px || outs[0].px != outs[2].px {
        let i = (0..outs[0].px.len()).find(|&i| outs[0].px[i] != outs[1].px[i] || outs[0].px[i] != outs[2].px[i]).unwrap();
        c.fail_blob(&sig("bytes not overwritten"), format!("{what}: byte {i} of {} keeps its previous value", outs[0].px.len()), Some(b));
        return;
    }
    check!(c, said[0] == said[1], sig("answers differ"), "{what}: {:?} / {:?}", said[0], said[1]);
    let full = &outs[0];
    let bytes = full.w as u64 * full.h as u64 * full.color.bytes_per_pixel() as u64;
    check!(c, bytes == full.px.len() as u64, sig("total_bytes"), "{what}: {} bytes announced for {full:?}", full.px.len());

    // the answers before decoding do not depend on their order
    let s2 = with_decoder!(f.fmt, mk(), |d| d.map(|mut d| facts(&mut d, (order + 1 + c.idx % 6) % 7)));
    if let Ok(s2) = s2 {
        check!(c, s2 == said[0], sig("answers depend on order"), "{what}: {:?} / {s2:?}", said[0]);
        c.evals(1);
    }

    // as an image
    let dy = catch(|| with_decoder!(f.fmt, mk(), |d| DynamicImage::from_decoder(d?)));
    match dy {
        Ok(Ok(i)) => {
            let g = dec::of_dynamic(&i);
            check!(c, g == *full, sig("from_decoder"), "{what}: {g:?} instead of {full:?}");
            c.evals(1);
        }
        Ok(Err(e)) => c.fail_blob(&sig("from_decoder refuses"), format!("{what}: {e}"), Some(b)),
        Err(p) => c.fail_blob(&sig("from_decoder panics"), format!("{what}: {p}"), Some(b)),
    }

    // any other size is refused
    let n = full.px.len();
    let mut bad = vec![0usize, n + 1, n * 2];
    if n > 0 {
        bad.push(n - 1);
        bad.push(r.below(n as u64) as usize);
        bad.push(n - n.min(full.w as usize * full.color.bytes_per_pixel() as usize));
    }
    bad.push(n + full.w as usize * full.color.bytes_per_pixel() as usize);
    for m in bad {
        if m == n || m > 1 << 26 {
            continue;
        }
        let via_box = r.bool();
        let got = catch(|| {
            let mut buf = vec![0x5a; m];
            let r = if via_box {
                dec::boxed(f.fmt, b).and_then(|d| d.read_image(&mut buf))
            } else {
                with_decoder!(f.fmt, mk(), |d| d.and_then(|d| d.read_image(&mut buf)))
            };
            r.is_ok()
        });
        c.evals(1);
        c.count("wrong buffer sizes offered", 1);
        if let Ok(true) = got {
            c.fail_blob(&sig("accepts a wrong buffer size"), format!("{what}: {m} bytes instead of {n}, boxed {via_box}"), Some(b));
        }
    }

    // boxed
    for depth in 0..2 {
        let got = catch(|| {
            let d = dec::boxed(f.fmt, b)?;
            if depth == 0 {
                let mut d = d;
                let s = facts(&mut d, order);
                dec::read(d).map(|v| (v, s))
            } else {
                let mut d = Box::new(d);
                let s = facts(&mut d, order);
                let mut buf = vec![0x33; d.total_bytes() as usize];
                let (w, h) = d.dimensions();
                let color = d.color_type();
                d.read_image_boxed(&mut buf)?;
                Ok((Some(dec::Decoded { w, h, color, px: buf }), s))
            }
        });
        c.evals(1);
        c.count("boxed decodes", 1);
        match got {
            Ok(Ok((Some(v), s))) => {
                check!(c, v == *full, sig("boxed pixels"), "{what}: {v:?} instead of {full:?}");
                if s != said[0] {
                    let k = (0..7).find(|&k| s[k] != said[0][k]).unwrap();
                    c.fail_blob(&sig("boxed answers"), format!("{what}: boxed says {}, the decoder {}", s[k], said[0][k]), Some(b));
                }
            }
            Ok(Ok((None, _))) => {}
            Ok(Err(e)) => c.fail_blob(&sig("boxed refuses"), format!("{what}: {e}"), Some(b)),
            Err(p) => c.fail_blob(&sig("boxed panics"), format!("{what}: {p}"), Some(b)),
        }
    }
    // limits reach a boxed decoder
    if full.w > 1 {
        let mut l = image::Limits::no_limits();
        l.max_image_width = Some(full.w - 1);
        let a = catch(|| with_decoder!(f.fmt, mk(), |d| d.and_then(|mut d| d.set_limits(l.clone())).map_err(|e| kind(&e))));
        let z = catch(|| dec::boxed(f.fmt, b).and_then(|mut d| d.set_limits(l.clone())).map_err(|e| kind(&e)));
        c.evals(1);
        check!(c, format!("{a:?}") == format!("{z:?}"), sig("boxed limits"), "{what}: {a:?} / {z:?}");
    }
    c.sample(|| what);
}

/// Region reads on one decoder.
fn regions<D: ImageDecoderRect>(c: &mut Case, name: &str, what: &str, mut d: D, b: &[u8], full: &dec::Decoded) {
    let mut r = c.rng.clone();
    let sig = |k: &str| format!("{name} {k}");
    let (w, h) = (full.w, full.h);
    let bpp = full.color.bytes_per_pixel() as usize;
    if w == 0 || h == 0 {
        return;
    }
    let mut hist: Vec<String> = vec![];
    let steps = r.range(1, 8);
    for _ in 0..steps {
        let bad = r.chance(1, 5);
        let (x, y, rw, rh) = if bad {
            let z = |r: &mut Rng, m: u32| *r.pick(&[0, 1, m, m + 1, m.saturating_sub(1), u32::MAX, u32::MAX - 1, 1 << 31]);
            let (x, y, rw, rh) = (z(&mut r, w), z(&mut r, h), z(&mut r, w), z(&mut r, h));
            // keep the nominal buffer small
            if (rw as u64 + 3).saturating_mul(rh as u64 + 3) > 1 << 16 {
                (x, y, rw.min(w + 1), rh.min(h + 1))
            } else {
                (x, y, rw, rh)
            }
        } else {
            let full_w = r.chance(1, 3);
            let x = if full_w { 0 } else { r.below(w as u64) as u32 };
            let y = r.below(h as u64) as u32;
            let rw = if full_w { w } else { r.r32(1, w - x) };
            (x, y, rw, r.r32(1, h - y))
        };
        let legal = x as u64 + rw as u64 <= w as u64 && y as u64 + rh as u64 <= h as u64 && rw > 0 && rh > 0;
        let row = rw as usize * bpp;
        let mut pitch = row + if r.bool() { 0 } else { r.below(20) as usize };
        let mut fit = true;
        if legal && r.chance(1, 12) && row > 1 {
            pitch = r.below(row as u64) as usize;
            fit = rh == 1 && pitch >= row;
        }
        let need = if rh == 0 { 0 } else { pitch * (rh as usize - 1) + row };
        let mut len = need + *r.pick(&[0usize, 0, pitch - pitch.min(row), 1, 7, 100]);
        if legal && fit && r.chance(1, 8) && need > 0 {
            len = r.below(need as u64) as usize;
            fit = false;
        }
        let mut buf = r.bytes(len);
        let before = buf.clone();
        hist.push(format!("({x},{y},{rw},{rh}) pitch {pitch} buffer {len}"));
        let got = catch(|| d.read_rect(x, y, rw, rh, &mut buf, pitch));
        c.evals(1);
        let h_ = || format!("{what}: {}", hist.join("; "));
        match (got, legal && fit) {
            (Ok(Ok(())), true) => {
                c.count("regions compared", 1);
                let mut want = before;
                for yy in 0..rh as usize {
                    let s = ((y as usize + yy) * w as usize + x as usize) * bpp;
                    want[yy * pitch..yy * pitch + row].copy_from_slice(&full.px[s..s + row]);
                }
                if want != buf {
                    let i = (0..buf.len()).find(|&i| want[i] != buf[i]).unwrap();
                    c.fail_blob(&sig("region content"), format!("{}: byte {i} is {} instead of {}", h_(), buf[i], want[i]), Some(b));
                    return;
                }
            }
            (Ok(Ok(())), false) => {
                c.fail_blob(&sig(if legal { "accepts an unfit buffer" } else { "accepts a region outside" }), h_(), Some(b));
                return;
            }
            (Ok(Err(e)), true) => {
                c.fail_blob(&sig("refuses a region"), format!("{}: {e}", h_()), Some(b));
                return;
            }
            (Err(p), true) => {
                c.fail_blob(&sig("region panics"), format!("{}: {p}", h_()), Some(b));
                return;
            }
            (Ok(Err(_)), false) => c.count("bad regions refused", 1),
            (Err(_), false) => {
                c.count("bad regions refused by panic", 1);
                return;
            }
        }
    }
    // and the whole image afterwards
    let mut buf = vec![0x77; full.px.len()];
    let got = catch(|| d.read_image(&mut buf).map_err(|e| e.to_string()));
    c.evals(1);
    check!(c, matches!(got, Ok(Ok(()))), sig("image after regions"), "{what}: {}: {got:?}", hist.join("; "));
    if matches!(got, Ok(Ok(()))) {
        check!(c, buf == full.px, sig("image after regions"), "{what}: {}: pixels differ", hist.join("; "));
    }
}

fn rect(c: &mut Case, name: &str, f: &FileCase) {
    c.at(&f.variant);
    let what = format!("{} {}x{} {:?}", f.variant, f.w, f.h, f.color);
    let Ok(Ok(Some(full))) = catch(|| dec::decode(f.fmt, &f.bytes)) else { return };
    // the file may begin anywhere in the stream
    let b = &f.bytes;
    c.eval(hash_bytes(b));
    match f.fmt {
        ImageFormat::Bmp => {
            if let Ok(d) = BmpDecoder::new(Cursor::new(&b[..])) {
                regions(c, name, &what, d, b, &full)
            }
        }
        _ => {
            if let Ok(d) = FarbfeldDecoder::new(Cursor::new(&b[..])) {
                regions(c, name, &what, d, b, &full)
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    dec::CAP.store(1 << 21, std::sync::atomic::Ordering::Relaxed);
    ctx.rule("files of independent writers; every decode is repeated into buffers with different previous contents, through boxes of depth one and two, and with wrong buffer sizes; sequences of region reads on one decoder are compared byte for byte with the crop of the full image, including the bytes between rows");
    for (name, gen) in writers() {
        let (q, t) = match name {
            "exr" | "avif" => (500, 12_000),
            _ => (2000, 60_000),
        };
        ctx.section(name, q, t, |c| {
            let mut r: Rng = c.rng.clone();
            let f = gen(&mut r);
            c.rng = r;
            whole(c, name, &f);
        });
        // damaged files that still decode obey the contract as well
        ctx.section(&format!("{name} damaged"), q, t, |c| {
            let mut r: Rng = c.rng.clone();
            let mut f = gen(&mut r);
            let other = r.bytes(64);
            mutate::damage(&mut r, f.fmt, &mut f.bytes, &other);
            f.variant.push_str(" damaged");
            c.rng = r;
            // C06 judges panics
            if catch(|| dec::outcome(f.fmt, Cursor::new(&f.bytes[..]))).is_ok_and(|o| o.img.is_ok()) {
                c.count("damaged files that decode", 1);
                whole(c, name, &f);
            }
        });
    }
    ctx.section("region bmp", 8000, 300_000, |c| {
        let mut r = c.rng.clone();
        let f = files::bmp::gen(&mut r);
        c.rng = r;
        rect(c, "bmp", &f)
    });
    ctx.section("region farbfeld", 8000, 300_000, |c| {
        let mut r = c.rng.clone();
        let f = files::farbfeld::gen(&mut r);
        c.rng = r;
        rect(c, "farbfeld", &f)
    });
    ctx.require("regions compared", 10_000);
    ctx.require("buffers with three previous contents", 8000);
    ctx.require("boxed decodes", 8000);
}
