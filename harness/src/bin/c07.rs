//! C07: truncated or failing input surfaces as an error, never as wrong pixels.
use image::{DynamicImage, ImageFormat, ImageReader};
use std::io::Cursor;
use std::sync::atomic::Ordering::Relaxed;
use vh::dec::{self, kind, Outcome};
use vh::files::{anim, writers, FileCase};
use vh::io::{ChaosReader, Delivery};
use vh::{catch, check, hash_bytes, mix, Case, Ctx, Rng};

vh::property_main!("C07");

/// Every byte up to `data_end` carries pixels or ends the data.
fn raw(f: &FileCase) -> bool {
    use ImageFormat::*;
    match f.fmt {
        // the end markers carry no pixels, and the last rows may not be drawn at all
        Bmp => !f.variant.contains("rle"),
        Dds | Farbfeld | Hdr | Pnm | Qoi | Tga | Ico | Tiff => true,
        _ => false,
    }
}

fn plain_pnm(f: &FileCase) -> bool {
    f.fmt == ImageFormat::Pnm && matches!(f.bytes[1], b'1' | b'2' | b'3')
}

/// Result through one of the entry points.
fn go(fmt: ImageFormat, r: ChaosReader, how: u64) -> Result<Option<dec::Decoded>, String> {
    match how {
        0 | 1 => dec::outcome(fmt, r).img,
        2 => ImageReader::with_format(r, fmt).decode().map(|i| Some(dec::of_dynamic(&i))).map_err(|e| kind(&e)),
        _ => (|| {
            let d = ImageReader::with_format(r, fmt).into_decoder()?;
            DynamicImage::from_decoder(d).map(|i| Some(dec::of_dynamic(&i)))
        })()
        .map_err(|e| kind(&e)),
    }
}

fn full(fmt: ImageFormat, b: &[u8]) -> Option<(Outcome, dec::Decoded)> {
    let o = catch(|| dec::outcome(fmt, Cursor::new(b))).ok()?;
    let d = match &o.img {
        Ok(Some(d)) => d.clone(),
        _ => return None,
    };
    Some((o, d))
}

fn cuts(c: &mut Case, name: &str, f: &FileCase, budget: usize) {
    c.at(&f.variant);
    let what = format!("{} {}x{} {:?}", f.variant, f.w, f.h, f.color);
    let b = &f.bytes;
    let Some((_, want)) = full(f.fmt, b) else { return c.count("files not decoded", 1) };
    if f.w == 0 || f.h == 0 {
        return;
    }
    let mut r = c.rng.clone();
    c.eval(hash_bytes(b));
    c.evals_str(&f.variant);
    let n = b.len();
    let mut at: Vec<usize> = if n <= budget {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..16).collect();
        v.extend((0..budget).map(|_| r.below(n as u64) as usize));
        for e in [f.data_end, n] {
            v.extend((0..12).filter_map(|k| e.checked_sub(k)));
        }
        v.sort();
        v.dedup();
        v.retain(|x| *x < n);
        v
    };
    r.shuffle(&mut at);
    for cut in at {
        if plain_pnm(f) && cut >= f.data_end {
            // the last number of a plain PNM may end with the file, so any digits of it are a valid file
            c.count("cuts inside the last number of a plain PNM (not decided)", 1);
            continue;
        }
        let rd = ChaosReader::new(&b[..cut], Delivery::plain(), 0);
        let how = r.below(8);
        let got = catch(|| go(f.fmt, rd, how));
        c.evals(1);
        c.count("truncations", 1);
        match got {
            Err(p) => {
                c.count("truncations that panic (C06)", 1);
                let _ = p;
            }
            Ok(Ok(None)) | Ok(Err(_)) => c.count("truncations refused", 1),
            Ok(Ok(Some(g))) => {
                c.count("truncations decoded", 1);
                let (mut bad, mut k) = (String::new(), "");
                if (g.w, g.h, g.color) != (want.w, want.h, want.color) {
                    bad = format!("{g:?}");
                    k = "truncated file decodes to another image";
                } else if g.px != want.px {
                    let i = (0..g.px.len()).find(|i| g.px[*i] != want.px[*i]).unwrap();
                    bad = format!("sample bytes differ from {i} of {}", g.px.len());
                    k = "truncated file decodes to other pixels";
                } else if raw(f) && cut < f.data_end {
                    bad = "accepted".into();
                    k = "accepted without all pixel data";
                }
                if !bad.is_empty() {
                    c.fail_blob(&format!("{name} {k}"), format!("{what} cut at {cut} of {n} (data to {}): {bad}", f.data_end), Some(&b[..cut]));
                    return;
                }
            }
        }
    }
    c.sample(|| what);
}

fn trailing(c: &mut Case, name: &str, f: &FileCase) {
    let what = format!("{} {}x{} {:?}", f.variant, f.w, f.h, f.color);
    let Some((o, _)) = full(f.fmt, &f.bytes) else { return c.count("files not decoded", 1) };
    let mut r = c.rng.clone();
    for _ in 0..3 {
        let mut b = f.bytes.clone();
        if plain_pnm(f) {
            b.push(b'\n');
        }
        let n = *r.pick(&[1usize, 2, 3, 7, 26, 100, 1000]);
        // an AVIF file is boxes up to its end: more of them may follow
        let style = if f.fmt == image::ImageFormat::Avif { 4 } else { r.below(4) };
        match style {
            4 => {
                for _ in 0..r.range(1, 3) {
                    b.extend((n as u32 + 8).to_be_bytes());
                    b.extend(*r.pick(&[b"free", b"skip", b"uuid", b"zzzz"]));
                    b.extend(r.bytes(n));
                }
            }
            0 => b.extend(vec![0; n]),
            1 => b.extend(vec![0xff; n]),
            2 => {
                let again = f.bytes.clone();
                b.extend(again)
            }
            _ => b.extend(r.bytes(n)),
        }
        let got = catch(|| dec::outcome(f.fmt, Cursor::new(&b[..])));
        c.eval(hash_bytes(&b));
        c.count("files followed by other bytes", 1);
        match got {
            Ok(g) if g == o => {}
            Ok(g) => {
                c.fail_blob(&format!("{name} trailing bytes change the result"), format!("{what} followed by {} bytes: {:?} instead of {:?}", b.len() - f.bytes.len(), g, o), Some(&b));
                return;
            }
            Err(p) => return c.fail_blob(&format!("{name} trailing bytes panic"), format!("{what}: {p}"), Some(&b)),
        }
    }
}

fn faults(c: &mut Case, name: &str, f: &FileCase, budget: u64) {
    c.at(&f.variant);
    let what = format!("{} {}x{} {:?}", f.variant, f.w, f.h, f.color);
    let b = &f.bytes;
    let Some((_, want)) = full(f.fmt, b) else { return c.count("files not decoded", 1) };
    let mut r = c.rng.clone();
    let d = Delivery { max_chunk: *r.pick(&[0usize, 0, 1, 7, 64]), random_chunks: false, interrupt: 0, buf: *r.pick(&[1 << 20, 1 << 20, 64, 8, 1]) };
    // operations of an undisturbed run
    let how = r.below(4);
    let probe = ChaosReader::new(b, d.clone(), 0);
    let log = probe.log.clone();
    let Ok(first) = catch(|| go(f.fmt, probe, how)) else { return };
    if first != Ok(Some(want.clone())) {
        return c.count("files not decoded alike", 1);
    }
    let ops = log.ops.load(Relaxed);
    c.eval(hash_bytes(b));
    c.evals_str(&f.variant);
    let mut at: Vec<u64> = if ops <= budget { (0..ops).collect() } else { (0..budget).map(|_| r.below(ops)).collect() };
    at.push(ops + 3);
    for k in at {
        let bytewise = r.chance(1, 4);
        let mut rd = ChaosReader::new(b, d.clone(), 0);
        rd.sticky = r.chance(2, 3);
        let byte = mix(k ^ c.idx) % (b.len() as u64 + 1);
        if bytewise {
            rd.fail_at_byte = Some(byte);
        } else {
            rd.fail_at_op = Some(k);
        }
        let log = rd.log.clone();
        let sticky = rd.sticky;
        let got = catch(|| go(f.fmt, rd, how));
        c.evals(1);
        let fired = log.fault_fired.load(Relaxed);
        let ctx = || if bytewise { format!("{what}: the source fails at byte {byte} of {}", b.len()) } else { format!("{what}: operation {k} of {ops} fails (sticky {sticky}, {d:?}, entry {how})") };
        c.count(if fired { "faults raised" } else { "faults not reached" }, 1);
        match got {
            Err(p) => {
                c.fail_blob(&format!("{name} failing source panics"), format!("{}: {p}", ctx()), Some(b));
                return;
            }
            Ok(Ok(None)) => {}
            Ok(Ok(Some(g))) => {
                if fired {
                    c.count("decoded despite a fault", 1);
                }
                if g != want {
                    c.fail_blob(&format!("{name} failing source gives other pixels"), format!("{}: {g:?} instead of {want:?}", ctx()), Some(b));
                    return;
                }
                if fired && bytewise && raw(f) && (byte as usize) < f.data_end {
                    c.fail_blob(&format!("{name} failing source is not reported"), ctx(), Some(b));
                    return;
                }
            }
            Ok(Err(e)) => {
                if !fired {
                    c.fail_blob(&format!("{name} refuses without a fault"), format!("{}: {e}", ctx()), Some(b));
                    return;
                }
                c.count("faults reported as errors", 1);
                if e != "Io PermissionDenied" {
                    c.fail_blob(&format!("{name} source error reported as {e}"), ctx(), Some(b));
                    return;
                }
            }
        }
    }
    c.sample(|| format!("{what}: {ops} operations"));
}

fn anim_cuts(c: &mut Case) {
    let mut r = c.rng.clone();
    let a = match r.below(3) {
        0 => anim::gif(&mut r),
        1 => anim::apng(&mut r),
        _ => anim::webp(&mut r),
    };
    let (fmt, name) = match &a.variant[..3] {
        "gif" => (ImageFormat::Gif, "gif"),
        "apn" => (ImageFormat::Png, "apng"),
        _ => (ImageFormat::WebP, "webp"),
    };
    if a.dep_fails {
        return;
    }
    c.at(&a.variant);
    let b = &a.bytes;
    let Ok(want) = catch(|| dec::walk(dec::frames(fmt, Cursor::new(&b[..])), 60)) else { return };
    if want.end.is_err() {
        return c.count("files not decoded", 1);
    }
    c.eval(hash_bytes(b));
    c.evals_str(&a.variant);
    for _ in 0..60 {
        let cut = r.below(b.len() as u64) as usize;
        let fault = r.bool();
        let mut rd = if fault { ChaosReader::new(b, Delivery::plain(), 0) } else { ChaosReader::new(&b[..cut], Delivery::plain(), 0) };
        if fault {
            rd.d.buf = 64;
            rd.d.max_chunk = *r.pick(&[0usize, 64, 16]);
            rd.fail_at_byte = Some(cut as u64);
        }
        let log = rd.log.clone();
        let got = catch(|| dec::walk(dec::frames(fmt, rd), 60));
        c.evals(1);
        c.count("animation cuts and faults", 1);
        let fired = log.fault_fired.load(Relaxed);
        let ctx = || format!("{} {}x{} {} frames, {} at {cut} of {}", a.variant, a.w, a.h, a.steps.len(), if fault { "source fails" } else { "cut" }, b.len());
        match got {
            Err(_) => c.count("truncations that panic (C06)", 1),
            Ok(g) => {
                let k = g.frames.len();
                if g.frames[..] != want.frames[..k.min(want.frames.len())] {
                    c.fail_blob(&format!("{name} animation: other frames"), format!("{}: {k} frames, not those of the whole file", ctx()), Some(b));
                    return;
                }
                if k < want.frames.len() && g.end.is_ok() {
                    c.fail_blob(&format!("{name} animation: {}", if fault && fired { "source error is lost" } else { "ends early without an error" }), format!("{}: {k} frames", ctx()), Some(b));
                    return;
                }
                c.count("frames compared", k as u64);
                if let (Err(e), true) = (&g.end, fault && fired) {
                    check!(c, e == "Io PermissionDenied", format!("{name} animation: source error reported as {e}"), "{}", ctx());
                }
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    dec::CAP.store(1 << 21, Relaxed);
    ctx.rule("valid files of independent writers, cut at every (or many) offsets, followed by other bytes, or read from a source that fails at every (or many) operations and offsets; whatever decodes must be the whole image, formats that store every pixel must refuse a cut before the end of the data, and a raised source error must come back as that error");
    ctx.assume("a compressed stream whose remaining bytes carry no pixels may decode when cut there; `data_end` of the writers is the end of the pixel data");
    for (name, gen) in writers() {
        let slow = matches!(name, "exr" | "avif");
        let (q, t) = if slow { (40, 1500) } else { (1500, 15_000) };
        ctx.section(&format!("{name} cuts"), q, t, |c| {
            let mut r: Rng = c.rng.clone();
            let f = gen(&mut r);
            c.rng = r;
            let n = if c.thorough() { 1500 } else if slow { 60 } else { 300 };
            cuts(c, name, &f, n);
        });
        ctx.section(&format!("{name} trailing"), q, t * 2, |c| {
            let mut r: Rng = c.rng.clone();
            let f = gen(&mut r);
            c.rng = r;
            trailing(c, name, &f);
        });
        let (q, t) = if slow { (60, 2500) } else { (2500, 25_000) };
        ctx.section(&format!("{name} faults"), q, t, |c| {
            let mut r: Rng = c.rng.clone();
            let f = gen(&mut r);
            c.rng = r;
            let n = if c.thorough() { 200 } else { 60 };
            faults(c, name, &f, n);
        });
    }
    ctx.section("animation cuts", 2000, 20_000, anim_cuts);
    ctx.require("truncations refused", 100_000);
    ctx.require("faults reported as errors", 50_000);
    ctx.require("files followed by other bytes", 5000);
    ctx.require("frames compared", 10_000);
}
