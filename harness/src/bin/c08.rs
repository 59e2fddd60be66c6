//! C08: decoding does not depend on how the source delivers its bytes.
use image::{DynamicImage, ImageFormat, ImageReader};
use std::io::{BufReader, Cursor};
use std::sync::atomic::Ordering::Relaxed;
use vh::dec::{self, kind, Outcome};
use vh::files::{anim, writers, FileCase};
use vh::io::{ChaosReader, Delivery, Scratch};
use vh::{catch, check, hash_bytes, mutate, with_decoder, Case, Ctx, Rng};

vh::property_main!("C08");

fn delivery(r: &mut Rng) -> Delivery {
    Delivery {
        max_chunk: *r.pick(&[1usize, 1, 2, 3, 5, 7, 8, 13, 64, 100, 1000, 0]),
        random_chunks: r.bool(),
        interrupt: *r.pick(&[0u32, 0, 0, 10, 60, 128]),
        buf: *r.pick(&[1usize, 2, 3, 4, 7, 16, 17, 31, 512, 8192, 1 << 20]),
    }
}
fn key(o: &Outcome) -> String {
    match &o.img {
        Ok(Some(d)) => format!("decoded {d:?}"),
        Ok(None) => "too large".into(),
        Err(e) => format!("error {e}"),
    }
}

fn deliveries(c: &mut Case, name: &str, what: &str, fmt: ImageFormat, b: &[u8], n: usize) -> Option<Outcome> {
    let sig = |k: &str| format!("{name} {k}");
    let mem = match catch(|| dec::outcome(fmt, Cursor::new(b))) {
        Ok(m) => m,
        Err(_) => {
            c.count("files on which decoding panics (C06)", 1);
            return None;
        }
    };
    c.eval(hash_bytes(b));
    let mut r = c.rng.clone();
    for k in 0..n {
        let d = delivery(&mut r);
        let seed = r.u64();
        let wrapped = k % 3 == 2;
        let rd = ChaosReader::new(b, d.clone(), seed);
        let log = rd.log.clone();
        let go = |rd: ChaosReader| {
            catch(|| {
                if wrapped {
                    // the reader used as a plain Read behind a small BufReader
                    dec::outcome(fmt, BufReader::with_capacity(d.buf.min(4096), rd))
                } else {
                    dec::outcome(fmt, rd)
                }
            })
        };
        let got = go(rd);
        c.evals(1);
        c.count("reads served", log.reads.load(Relaxed));
        c.count("interrupted reads", log.interrupts.load(Relaxed));
        match got {
            Err(p) => {
                c.fail_blob(&sig("panics with slow delivery"), format!("{what}, {d:?} wrapped {wrapped}: {p}"), Some(b));
                return Some(mem);
            }
            Ok(o) => {
                if o != mem {
                    if fmt == ImageFormat::Gif && gif_crate_differs(b, &d, wrapped) {
                        c.count("gif streams the gif crate itself reads differently", 1);
                        return None;
                    }
                    // a file that is damaged and cut short as well may be refused for either
                    let either = |o: &Outcome| matches!(&o.img, Err(e) if e == "Decoding" || e == "Io UnexpectedEof");
                    if what.ends_with("damaged") && o.meta == mem.meta && either(&o) && either(&mem) {
                        c.count("files refused for another of their defects", 1);
                        continue;
                    }
                    // is it the interruption or the chunking?
                    let mut quiet = d.clone();
                    quiet.interrupt = 0;
                    let alone = log.interrupts.load(Relaxed) > 0 && matches!(go(ChaosReader::new(b, quiet, seed)), Ok(q) if q == mem || what.ends_with("damaged") && either(&q) && either(&mem));
                    let k = match (&mem.img, &o.img) {
                        (a, b) if what.ends_with("damaged") && ["gif", "exr", "tiff"].contains(&name) && (a.is_err() || b.is_err()) => "damaged file is judged differently depending on delivery",
                        (_, Err(_)) if alone => "interrupted reads are not retried",
                        (Ok(_), Ok(_)) => "pixels or answers differ",
                        (Ok(_), Err(_)) => "refused with slow delivery",
                        (Err(_), Ok(_)) => "accepted with slow delivery",
                        _ => "error kind differs",
                    };
                    c.fail_blob(
                        &sig(k),
                        format!("{what}, {d:?} wrapped {wrapped}: {} instead of {}; {:?} / {:?}", key(&o), key(&mem), o.meta, mem.meta),
                        Some(b),
                    );
                    return Some(mem);
                }
            }
        }
    }
    Some(mem)
}

/// The streaming LZW decoder below the gif crate loses its place at some buffer
/// boundaries: the crate alone, fed the same way, decides.
fn gif_crate_differs(b: &[u8], d: &Delivery, wrapped: bool) -> bool {
    fn go(r: impl std::io::Read, b: &[u8]) -> String {
        let _ = b;
        let mut o = ::gif::DecodeOptions::new();
        o.set_color_output(::gif::ColorOutput::RGBA);
        match o.read_info(r) {
            Err(e) => format!("{e:?}"),
            Ok(mut d) => match d.next_frame_info() {
                Ok(Some(_)) => {
                    if d.buffer_size() > 1 << 26 {
                        return "large".into();
                    }
                    let mut px = vec![0; d.buffer_size()];
                    let r = d.read_into_buffer(&mut px);
                    format!("{:x} {r:?}", hash_bytes(&px))
                }
                e => format!("{:?}", e.map(|_| ())),
            },
        }
    }
    let mut q = d.clone();
    q.interrupt = 0;
    let one = Delivery { max_chunk: 1, random_chunks: false, interrupt: 0, buf: 1 };
    let mem = go(b, b);
    (0..3u64).any(|s| {
        let rd = ChaosReader::new(b, q.clone(), s);
        let got = if wrapped { go(BufReader::with_capacity(q.buf.min(4096), rd), b) } else { go(BufReader::with_capacity(q.buf.min(1 << 16), rd), b) };
        got != mem
    }) || go(BufReader::with_capacity(1, ChaosReader::new(b, one, 1)), b) != mem
        || go(BufReader::with_capacity(1 << 16, b), b) != mem
}

fn ext(f: ImageFormat) -> &'static str {
    match f {
        ImageFormat::Farbfeld => "ff",
        f => f.extensions_str()[0],
    }
}

fn entry_points(c: &mut Case, name: &str, what: &str, fmt: ImageFormat, b: &[u8], mem: &Outcome, dir: &Scratch) {
    let guess = image::guess_format(b).ok();
    let path = dir.file(&format!("{}-{}.{}", c.section.replace(' ', "_"), c.idx, ext(fmt)));
    let noext = dir.file(&format!("{}-{}-noext", c.section.replace(' ', "_"), c.idx));
    let files = c.idx % 3 == 0;
    if files && (std::fs::write(&path, b).is_err() || std::fs::write(&noext, b).is_err()) {
        return;
    }
    let want: Result<dec::Decoded, String> = match &mem.img {
        Ok(Some(d)) => Ok(d.clone()),
        Ok(None) => return,
        Err(e) if e.starts_with("Limits") => return,
        Err(e) => Err(e.clone()),
    };
    // a file cannot be decoded into an image of zero pixels everywhere alike
    type R = image::ImageResult<DynamicImage>;
    let mut runs: Vec<(&str, Box<dyn Fn() -> R + '_>)> = vec![
        ("DynamicImage::from_decoder", Box::new(|| with_decoder!(fmt, Cursor::new(b), |d| DynamicImage::from_decoder(d?)))),
        ("boxed", Box::new(|| DynamicImage::from_decoder(dec::boxed(fmt, b)?))),
        ("ImageReader::with_format", Box::new(|| ImageReader::with_format(Cursor::new(b), fmt).decode())),
        ("ImageReader set_format no_limits", Box::new(|| {
            let mut r = ImageReader::new(Cursor::new(b));
            r.set_format(fmt);
            r.no_limits();
            r.decode()
        })),
        ("into_decoder", Box::new(|| DynamicImage::from_decoder(ImageReader::with_format(Cursor::new(b), fmt).into_decoder()?))),
        ("image::load", Box::new(|| image::load(Cursor::new(b), fmt))),
        ("load_from_memory_with_format", Box::new(|| image::load_from_memory_with_format(b, fmt))),
    ];
    if guess == Some(fmt) {
        runs.push(("load_from_memory", Box::new(|| image::load_from_memory(b))));
        runs.push(("with_guessed_format", Box::new(|| ImageReader::new(Cursor::new(b)).with_guessed_format()?.decode())));
        runs.push(("with_guessed_format over wrong", Box::new(|| ImageReader::with_format(Cursor::new(b), ImageFormat::Tga).with_guessed_format()?.decode())));
        // (damaged files: `deliveries` covers the chunking)
        if !what.ends_with("damaged") { runs.push(("guessed, one byte reads", Box::new(|| {
            let d = Delivery { max_chunk: 1, random_chunks: false, interrupt: 0, buf: 1 };
            ImageReader::new(ChaosReader::new(b, d, 1)).with_guessed_format()?.decode()
        }))) }
        if files {
            runs.push(("open guessed", Box::new(|| ImageReader::open(&noext)?.with_guessed_format()?.decode())));
        }
    }
    if files {
        runs.push(("image::open", Box::new(|| image::open(&path))));
        runs.push(("ImageReader::open", Box::new(|| ImageReader::open(&path)?.decode())));
        runs.push(("File", Box::new(|| with_decoder!(fmt, BufReader::new(std::fs::File::open(&path)?), |d| DynamicImage::from_decoder(d?)))));
    }
    for (n, f) in &runs {
        let got = catch(|| f().map(|i| dec::of_dynamic(&i)).map_err(|e| kind(&e)));
        c.evals(1);
        c.count("entry point runs", 1);
        match got {
            Err(p) => {
                c.fail_blob(&format!("{name} {n} panics"), format!("{what}: {p}"), Some(b));
            }
            Ok(g) => {
                if g != want {
                    // limits apply only where they are set
                    if matches!(&g, Err(e) if e.starts_with("Limits")) || matches!(&want, Err(e) if e.starts_with("Limits")) {
                        c.count("entry points stopped by limits", 1);
                        continue;
                    }
                    if fmt == ImageFormat::Gif && gif_crate_differs(b, &Delivery::plain(), true) {
                        c.count("gif streams the gif crate itself reads differently", 1);
                        continue;
                    }
                    // a file refuses to seek where an array in memory has no objections
                    if files && want.is_err() && g == Err("Io InvalidInput".into()) {
                        c.count("impossible positions refused by the file system", 1);
                        continue;
                    }
                    c.fail_blob(&format!("{name} {n} differs"), format!("{what}: {g:?} instead of {want:?}"), Some(b));
                }
            }
        }
    }
    if let Ok(d) = &want {
        let dims = catch(|| ImageReader::with_format(Cursor::new(b), fmt).into_dimensions().map_err(|e| kind(&e)));
        check!(c, matches!(dims, Ok(Ok(x)) if x == (d.w, d.h)), format!("{name} into_dimensions"), "{what}: {dims:?}, decoded {}x{}", d.w, d.h);
        if files {
            let dims = catch(|| image::image_dimensions(&path).map_err(|e| kind(&e)));
            check!(c, matches!(dims, Ok(Ok(x)) if x == (d.w, d.h)), format!("{name} image_dimensions"), "{what}: {dims:?}, decoded {}x{}", d.w, d.h);
        }
        c.evals(2);
    }
    if files {
        let _ = std::fs::remove_file(&path);
        let _ = std::fs::remove_file(&noext);
    }
}

fn one(c: &mut Case, name: &str, f: &FileCase, damaged: bool, dir: &Scratch) {
    c.at(&f.variant);
    let mut b = f.bytes.clone();
    let mut what = format!("{} {}x{} {:?}", f.variant, f.w, f.h, f.color);
    if damaged {
        let mut r = c.rng.clone();
        let other = r.bytes(64);
        mutate::damage(&mut r, f.fmt, &mut b, &other);
        c.rng = r;
        what.push_str(" damaged");
    }
    c.evals_str(&format!("{} {damaged}", f.variant));
    let n = if name == "exr" { 3 } else { 4 };
    let Some(mem) = deliveries(c, name, &what, f.fmt, &b, n) else { return };
    c.count(if mem.img.is_ok() { "files decoded" } else { "files refused" }, 1);
    entry_points(c, name, &what, f.fmt, &b, &mem, dir);
    c.sample(|| format!("{what}: {}", key(&mem)));
}

/// Same question for all frames of an animation.
fn gif_walk_differs(b: &[u8]) -> bool {
    fn go(r: impl std::io::Read) -> String {
        let mut o = ::gif::DecodeOptions::new();
        o.set_color_output(::gif::ColorOutput::RGBA);
        let mut s = String::new();
        match o.read_info(r) {
            Err(e) => s = format!("{e:?}"),
            Ok(mut d) => {
                for _ in 0..40 {
                    match d.read_next_frame() {
                        Ok(Some(f)) => s.push_str(&format!("{:x} ", hash_bytes(&f.buffer))),
                        e => {
                            s.push_str(&format!("{:?}", e.map(|_| ())));
                            break;
                        }
                    }
                }
            }
        }
        s
    }
    let mem = go(b);
    [1usize, 2, 3, 5, 7, 16, 31].iter().any(|n| {
        let d = Delivery { max_chunk: *n, random_chunks: *n > 2, interrupt: 0, buf: *n };
        (0..4u64).any(|s| go(BufReader::with_capacity(*n, ChaosReader::new(b, d.clone(), s))) != mem)
    })
}

fn anims(c: &mut Case, damaged: bool) {
    let mut r = c.rng.clone();
    let a = match r.below(3) {
        0 => anim::gif(&mut r),
        1 => anim::apng(&mut r),
        _ => anim::webp(&mut r),
    };
    let fmt = match &a.variant[..3] {
        "gif" => ImageFormat::Gif,
        "apn" => ImageFormat::Png,
        _ => ImageFormat::WebP,
    };
    let mut b = a.bytes.clone();
    if damaged {
        let other = r.bytes(32);
        mutate::damage(&mut r, fmt, &mut b, &other);
    }
    c.at(&a.variant);
    let Ok(mem) = catch(|| dec::walk(dec::frames(fmt, Cursor::new(&b[..])), 40)) else {
        c.count("files on which decoding panics (C06)", 1);
        return;
    };
    c.eval(hash_bytes(&b));
    for _ in 0..3 {
        let d = delivery(&mut r);
        let seed = r.u64();
        let rd = ChaosReader::new(&b, d.clone(), seed);
        let log = rd.log.clone();
        let got = catch(|| dec::walk(dec::frames(fmt, rd), 40));
        c.evals(1);
        c.count("animations compared", 1);
        let intr = log.interrupts.load(Relaxed) > 0;
        match got {
            Err(p) => return c.fail_blob("animation panics with slow delivery", format!("{} {d:?}: {p}", a.variant), Some(&b)),
            Ok(w) if w == mem => c.count("frames compared", w.frames.len() as u64),
            Ok(w) => {
                let mut quiet = d.clone();
                quiet.interrupt = 0;
                let alone = intr && w.end.is_err() && matches!(catch(|| dec::walk(dec::frames(fmt, ChaosReader::new(&b, quiet, seed)), 40)), Ok(q) if q == mem);
                if fmt == ImageFormat::Gif && !alone && gif_walk_differs(&b) {
                    return c.count("gif streams the gif crate itself reads differently", 1);
                }
                let s = if alone { "interrupted reads are not retried" } else { "frames differ" };
                return c.fail_blob(&format!("{fmt:?} animation {s}"), format!("{} {d:?}: {} frames {:?}, from memory {} {:?}", a.variant, w.frames.len(), w.end, mem.frames.len(), mem.end), Some(&b));
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    dec::CAP.store(1 << 21, std::sync::atomic::Ordering::Relaxed);
    ctx.rule("valid and damaged files of every format, decoded from memory and through readers with every kind of legal delivery (chunk sizes, interrupted reads, buffer sizes) and through every public entry point; results, answers and error kinds must be those of the in-memory decode");
    ctx.assume("an entry point with default limits may answer with a limits error where another has none");
    let dir = Scratch::new("c08");
    for (name, gen) in writers() {
        let (q, t) = match name {
            "exr" | "avif" => (600, 15_000),
            "ico" | "webp" => (2000, 60_000),
            _ => (3000, 120_000),
        };
        for damaged in [false, true] {
            let sec = format!("{name}{}", if damaged { " damaged" } else { "" });
            ctx.section(&sec, q, t, |c| {
                let mut r: Rng = c.rng.clone();
                let f = gen(&mut r);
                c.rng = r;
                one(c, name, &f, damaged, &dir);
            });
        }
    }
    ctx.section("animations", 4000, 150_000, |c| anims(c, false));
    ctx.section("animations damaged", 3000, 120_000, |c| anims(c, true));
    drop(dir);
    ctx.require("reads served", 1_000_000);
    ctx.require("interrupted reads", 100_000);
    ctx.require("files refused", 1000);
    ctx.require("entry point runs", 50_000);
    ctx.require("frames compared", 5000);
}
