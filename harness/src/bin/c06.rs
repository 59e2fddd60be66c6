//! C06: decoding never panics, hangs or blows up on any bytes.
use image::codecs as k;
use image::{ColorType, DynamicImage, ImageDecoder, ImageDecoderRect, ImageFormat, ImageReader, ImageResult};
use std::io::{BufRead, Cursor, Seek};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::OnceLock;
use vh::alloc::thread_peak_during;
use vh::dec::{self, kind};
use vh::files::{anim, writers};
use vh::io::{ChaosReader, Delivery};
use vh::{catch, hash_bytes, mutate, with_decoder, Case, Ctx, Rng};

vh::property_main!("C06");

const CAP: u64 = 1 << 21;
/// Errors in a row after which a frame iterator counts as endless.
const ENDLESS: usize = 400;
/// Heap growth that no file of these sizes explains, given the limits used.
const BLOWUP: usize = 400 << 20;

/// What the monitored calls did.
#[derive(Default, Debug)]
struct Log {
    calls: u64,
    built: u64,
    decoded: u64,
    errors: u64,
    frames: u64,
    after_error: u64,
    rects: u64,
    endless: bool,
    /// a small allocation limit is in force
    limited: bool,
    /// metadata was read without one
    unlimited: bool,
    trail: Vec<&'static str>,
}
impl Log {
    fn step(&mut self, s: &'static str) {
        self.calls += 1;
        if self.trail.len() < 60 {
            self.trail.push(s);
        }
    }
    fn note<T>(&mut self, r: &ImageResult<T>) {
        match r {
            Ok(_) => {}
            Err(_) => self.errors += 1,
        }
    }
}

fn limits(r: &mut Rng) -> image::Limits {
    let mut l = image::Limits::no_limits();
    match r.below(6) {
        0 => l.max_alloc = Some(*r.pick(&[0u64, 1, 100, 1 << 16, u64::MAX])),
        1 => {
            l.max_image_width = Some(*r.pick(&[0u32, 1, 16, 1000, u32::MAX]));
            l.max_image_height = Some(*r.pick(&[0u32, 1, 16, 1000, u32::MAX]));
        }
        _ => {
            l = dec::small_limits();
            l.max_image_width = Some(2000);
            l.max_image_height = Some(2000);
        }
    }
    l
}

/// Queries in any order, then the pixels.
fn drive<D: ImageDecoder>(mut d: D, r: &mut Rng, log: &mut Log, rect: Option<fn(&mut D, &mut Rng, &mut Log)>) {
    log.built += 1;
    let n = r.below(7);
    for _ in 0..n {
        match r.below(9) {
            0 => {
                log.step("dimensions");
                std::hint::black_box(d.dimensions());
            }
            1 => {
                log.step("colors");
                std::hint::black_box((d.color_type(), d.original_color_type()));
            }
            2 => {
                log.step("total_bytes");
                std::hint::black_box(d.total_bytes());
            }
            3 | 4 => {
                log.step("icc_profile");
                log.unlimited |= !log.limited;
                let v = d.icc_profile();
                log.note(&v);
            }
            5 => {
                log.step("exif_metadata");
                log.unlimited |= !log.limited;
                let v = d.exif_metadata();
                log.note(&v);
            }
            6 => {
                log.step("orientation");
                log.unlimited |= !log.limited;
                let v = d.orientation();
                log.note(&v);
            }
            _ => {
                log.step("set_limits");
                let l = limits(r);
                let small = l.max_alloc.is_some_and(|a| a <= 1 << 24);
                let v = d.set_limits(l);
                log.note(&v);
                log.limited = small && v.is_ok();
                if v.is_err() && r.bool() {
                    return;
                }
            }
        }
    }
    if !log.limited {
        // without limits a file may declare any amount of memory for its frames
        if d.set_limits(dec::small_limits()).is_err() {
            return;
        }
    }
    if let Some(f) = rect {
        f(&mut d, r, log);
    }
    let n = d.total_bytes();
    let (w, h) = d.dimensions();
    if n > CAP {
        return;
    }
    assert_eq!(n, w as u64 * h as u64 * d.color_type().bytes_per_pixel() as u64, "harness: total_bytes disagrees with the dimensions");
    let mut buf = vec![0x77u8; n as usize];
    let v = if r.bool() {
        log.step("read_image");
        d.read_image(&mut buf)
    } else {
        log.step("read_image_boxed");
        Box::new(d).read_image_boxed(&mut buf)
    };
    log.note(&v);
    if v.is_ok() {
        log.decoded += 1
    }
}

fn rects<D: ImageDecoderRect>(d: &mut D, r: &mut Rng, log: &mut Log) {
    let (w, h) = d.dimensions();
    let bpp = d.color_type().bytes_per_pixel() as u64;
    let mut failed = false;
    for _ in 0..r.below(5) {
        if d.total_bytes() > CAP {
            return;
        }
        let (x, y) = (r.below(w as u64 + 2) as u32, r.below(h as u64 + 2) as u32);
        let (rw, rh) = (r.below((w - x.min(w)) as u64 + 2) as u32, r.below((h - y.min(h)) as u64 + 2) as u32);
        let inside = x as u64 + rw as u64 <= w as u64 && y as u64 + rh as u64 <= h as u64;
        // any value outside of the image must be refused
        let (rw, rh) = if !inside && r.chance(1, 3) { (*r.pick(&[rw, u32::MAX]), *r.pick(&[rh, u32::MAX])) } else { (rw, rh) };
        let pitch = if inside { (rw as u64 * bpp) as usize } else { *r.pick(&[0usize, 1, 1 << 40]) };
        let mut buf = vec![0u8; if inside { pitch * rh as usize } else { 64 }];
        log.step("read_rect");
        let v = d.read_rect(x, y, rw, rh, &mut buf, pitch);
        log.rects += 1;
        if failed {
            log.after_error += 1;
        }
        failed |= v.is_err();
        log.note(&v);
    }
}

fn frames(it: ImageResult<image::Frames<'_>>, log: &mut Log, stop: bool) {
    log.step("frames");
    let it = match it {
        Ok(i) => i,
        Err(_) => {
            log.errors += 1;
            return;
        }
    };
    let (mut bad, mut n) = (0usize, 0);
    for f in it {
        match f {
            Ok(f) => {
                std::hint::black_box(f.buffer().as_raw().len());
                if bad > 0 {
                    log.after_error += 1;
                }
                bad = 0;
                n += 1;
                log.frames += 1;
                if n > 60 {
                    return;
                }
            }
            Err(_) => {
                log.errors += 1;
                bad += 1;
                if stop {
                    return;
                }
                if bad > 1 {
                    log.after_error += 1;
                }
                if bad > ENDLESS {
                    log.endless = true;
                    return;
                }
            }
        }
    }
}

fn animated<'a, R: BufRead + Seek + 'a>(fmt: ImageFormat, rd: R, r: &mut Rng) -> ImageResult<image::Frames<'a>> {
    use image::AnimationDecoder;
    let mut l = dec::small_limits();
    l.max_image_width = Some(1500);
    l.max_image_height = Some(1500);
    match fmt {
        ImageFormat::Gif => {
            let mut d = k::gif::GifDecoder::new(rd)?;
            d.set_limits(l)?;
            Ok(d.into_frames())
        }
        ImageFormat::Png => {
            let mut d = k::png::PngDecoder::with_limits(rd, l.clone())?;
            d.set_limits(l)?;
            Ok(d.apng()?.into_frames())
        }
        _ => {
            let mut d = k::webp::WebPDecoder::new(rd)?;
            d.set_limits(l)?;
            let _ = d.has_animation();
            if r.bool() {
                let _ = d.set_background_color(image::Rgba([1, 2, 3, 4]));
            }
            Ok(d.into_frames())
        }
    }
}

/// One program of calls on the bytes.
fn program<R: BufRead + Seek>(fmt: ImageFormat, rd: R, r: &mut Rng, log: &mut Log) {
    log.step("new");
    match fmt {
        ImageFormat::Gif | ImageFormat::Png | ImageFormat::WebP if r.bool() => {
            let stop = r.chance(1, 3);
            let it = animated(fmt, rd, r);
            return frames(it, log, stop);
        }
        ImageFormat::Bmp => {
            let d = if r.chance(1, 4) { k::bmp::BmpDecoder::new_without_file_header(rd) } else { k::bmp::BmpDecoder::new(rd) };
            log.note(&d);
            let Ok(mut d) = d else { return };
            if r.chance(1, 4) {
                log.step("set_indexed_color");
                d.set_indexed_color(true);
            }
            std::hint::black_box(d.get_palette().map(|p| p.len()));
            return drive(d, r, log, Some(rects));
        }
        ImageFormat::Farbfeld => {
            let d = k::farbfeld::FarbfeldDecoder::new(rd);
            log.note(&d);
            if let Ok(d) = d {
                drive(d, r, log, Some(rects));
            }
            return;
        }
        ImageFormat::Hdr => {
            let d = k::hdr::HdrDecoder::with_strictness(rd, r.bool());
            log.note(&d);
            if let Ok(d) = d {
                std::hint::black_box(d.metadata());
                drive(d, r, log, None);
            }
            return;
        }
        ImageFormat::Png => {
            let d = if r.bool() { k::png::PngDecoder::new(rd) } else { k::png::PngDecoder::with_limits(rd, limits(r)) };
            log.note(&d);
            if let Ok(d) = d {
                let _ = (d.gamma_value(), d.is_apng());
                drive(d, r, log, None);
            }
            return;
        }
        ImageFormat::OpenExr => {
            let d = k::openexr::OpenExrDecoder::with_alpha_preference(rd, *r.pick(&[None, Some(true), Some(false)]));
            log.note(&d);
            if let Ok(d) = d {
                drive(d, r, log, None);
            }
            return;
        }
        ImageFormat::Pnm => {
            let d = k::pnm::PnmDecoder::new(rd);
            log.note(&d);
            if let Ok(d) = d {
                std::hint::black_box(d.subtype());
                if r.chance(1, 9) {
                    let (_, h) = d.into_inner();
                    std::hint::black_box((h.width(), h.height(), h.maximal_sample(), h.subtype()));
                    return;
                }
                drive(d, r, log, None);
            }
            return;
        }
        _ => {}
    }
    with_decoder!(fmt, rd, |d| {
        log.note(&d);
        if let Ok(d) = d {
            drive(d, r, log, None)
        }
    })
}

/// The loaders that choose the format.
fn loader(b: &[u8], fmt: ImageFormat, r: &mut Rng, log: &mut Log) {
    let mut l = dec::small_limits();
    l.max_image_width = Some(3000);
    l.max_image_height = Some(3000);
    log.step("loader");
    match r.below(5) {
        0 => {
            let rd = ImageReader::new(Cursor::new(b)).with_guessed_format();
            if let Ok(mut rd) = rd {
                rd.limits(l);
                let v = rd.decode();
                log.note(&v);
                log.decoded += v.is_ok() as u64;
            }
        }
        1 => {
            let mut rd = ImageReader::with_format(Cursor::new(b), fmt);
            rd.limits(l);
            let v = rd.decode();
            log.note(&v);
            log.decoded += v.is_ok() as u64;
        }
        2 => {
            let v = ImageReader::with_format(Cursor::new(b), fmt).into_dimensions();
            log.note(&v);
        }
        3 => {
            let rd = ImageReader::new(Cursor::new(b)).with_guessed_format();
            if let Ok(mut rd) = rd {
                rd.limits(l);
                let v = rd.into_decoder();
                log.note(&v);
                if let Ok(d) = v {
                    let v = if d.total_bytes() <= CAP { DynamicImage::from_decoder(d).map(|_| ()) } else { Ok(()) };
                    log.note(&v);
                }
            }
        }
        _ => {
            // default limits; only images whose declared size is small
            let small = ImageReader::with_format(Cursor::new(b), fmt).into_dimensions().map(|(w, h)| w as u64 * h as u64 <= CAP / 16).unwrap_or(false);
            if small {
                let v = image::load_from_memory_with_format(b, fmt);
                log.note(&v);
                let v = image::load_from_memory(b);
                log.note(&v);
                log.decoded += v.is_ok() as u64;
            }
        }
    }
}

fn observe(c: &mut Case, name: &str, what: &str, fmt: ImageFormat, b: &[u8]) {
    let mut r = c.rng.clone();
    c.eval(hash_bytes(b));
    let seed = r.u64();
    for k in 0..3u64 {
        let mut log = Log::default();
        let mut rr = Rng::new(seed ^ k);
        let t0 = std::time::Instant::now();
        let (res, peak) = thread_peak_during(|| {
            catch(|| match k {
                0 => program(fmt, Cursor::new(b), &mut rr, &mut log),
                1 => {
                    let mut rd = ChaosReader::new(b, Delivery { max_chunk: *rr.pick(&[0usize, 0, 1, 5, 100]), random_chunks: rr.bool(), interrupt: 0, buf: *rr.pick(&[1usize, 8, 512, 1 << 16]) }, 1);
                    if rr.chance(1, 3) {
                        rd.fail_at_byte = Some(rr.below(b.len() as u64 + 1));
                        rd.sticky = rr.bool();
                    }
                    program(fmt, rd, &mut rr, &mut log)
                }
                _ => loader(b, fmt, &mut rr, &mut log),
            })
        });
        c.evals(1);
        c.count("monitored calls", log.calls);
        c.count("decoders constructed", log.built);
        c.count("images decoded", log.decoded);
        c.count("errors returned", log.errors);
        c.count("frames", log.frames);
        c.count("calls after an error", log.after_error);
        c.count("region reads", log.rects);
        let ctx = || format!("{what}, {} bytes, calls {:?}", b.len(), log.trail);
        if let Err(p) = res {
            if std::env::var_os("VH_LIST").is_some() {
                println!("PANIC {name} {p}");
            }
            let sig = match p.file.split_once("index.crates.io-") {
                Some((_, rest)) => format!("{name} panic in {}:{}", rest.split_once('/').map_or(rest, |x| x.1), p.line),
                None => format!("{name} panics"),
            };
            c.fail_blob(&sig, format!("{}: {p}", ctx()), Some(b));
        }
        if log.endless {
            c.fail_blob(&format!("{name} endless errors"), ctx(), Some(b));
        }
        if peak > BLOWUP && !log.unlimited {
            let name = if fmt == ImageFormat::OpenExr && dec::exr_wide(b) { "exr with an absurd data window:" } else { name };
            c.fail_blob(&format!("{name} memory"), format!("{}: {} MB allocated", ctx(), peak >> 20), Some(b));
        }
        let ms = t0.elapsed().as_millis() as u64;
        if ms > 2000 && std::env::var_os("VH_LIST").is_some() {
            println!("SLOW {name} {ms} ms {}", ctx());
        }
        if peak > 100 << 20 && std::env::var_os("VH_LIST").is_some() {
            println!("MEM {name} {} MB {}", peak >> 20, ctx());
        }
    }
}

fn samples() -> &'static Vec<(ImageFormat, String, Vec<u8>)> {
    static S: OnceLock<Vec<(ImageFormat, String, Vec<u8>)>> = OnceLock::new();
    S.get_or_init(|| {
        fn walk(d: &std::path::Path, v: &mut Vec<(ImageFormat, String, Vec<u8>)>) {
            let Ok(rd) = std::fs::read_dir(d) else { return };
            let mut l: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            l.sort();
            for p in l {
                if p.is_dir() {
                    walk(&p, v)
                } else if let Ok(b) = std::fs::read(&p) {
                    let ext = p.extension().map(|e| e.to_string_lossy().replace("bad_", "")).unwrap_or_default();
                    let f = image::guess_format(&b).ok().or(ImageFormat::from_extension(ext));
                    if let Some(f) = f {
                        if f.reading_enabled() && b.len() < 200_000 {
                            v.push((f, p.file_name().unwrap().to_string_lossy().into_owned(), b));
                        }
                    }
                }
            }
        }
        let mut v = vec![];
        walk(std::path::Path::new("/repo/tests/images"), &mut v);
        walk(std::path::Path::new("/repo/tests/regression"), &mut v);
        v
    })
}

const MAGIC: &[(ImageFormat, &[u8])] = &[
    (ImageFormat::Png, b"\x89PNG\r\n\x1a\n\0\0\0\x0dIHDR"),
    (ImageFormat::Jpeg, b"\xff\xd8\xff"),
    (ImageFormat::Gif, b"GIF89a"),
    (ImageFormat::WebP, b"RIFF\x40\0\0\0WEBPVP8X\x0a\0\0\0"),
    (ImageFormat::WebP, b"RIFF\x40\0\0\0WEBPVP8L"),
    (ImageFormat::WebP, b"RIFF\x40\0\0\0WEBPVP8 "),
    (ImageFormat::Tiff, b"II*\0\x08\0\0\0"),
    (ImageFormat::Tiff, b"MM\0*\0\0\0\x08"),
    (ImageFormat::Tga, b""),
    (ImageFormat::Dds, b"DDS \x7c\0\0\0"),
    (ImageFormat::Bmp, b"BM"),
    (ImageFormat::Bmp, b"BM\xff\0\0\0\0\0\0\0\x36\0\0\0\x28\0\0\0"),
    (ImageFormat::Ico, b"\0\0\x01\0\x01\0"),
    (ImageFormat::Hdr, b"#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n"),
    (ImageFormat::OpenExr, b"\x76\x2f\x31\x01\x02\0\0\0"),
    (ImageFormat::Farbfeld, b"farbfeld"),
    (ImageFormat::Pnm, b"P1\n"),
    (ImageFormat::Pnm, b"P2\n"),
    (ImageFormat::Pnm, b"P3\n"),
    (ImageFormat::Pnm, b"P4\n"),
    (ImageFormat::Pnm, b"P5\n"),
    (ImageFormat::Pnm, b"P6\n"),
    (ImageFormat::Pnm, b"P7\nWIDTH "),
    (ImageFormat::Qoi, b"qoif"),
    (ImageFormat::Avif, b"\0\0\0\x18ftypavif\0\0\0\0mif1avif"),
];

fn heads(c: &mut Case) {
    let mut r = c.rng.clone();
    let (fmt, m) = *r.pick(MAGIC);
    let mut b = m.to_vec();
    let n = r.range(0, 120) as usize;
    match r.below(4) {
        0 => b.extend(r.bytes(n)),
        1 => {
            let v = *r.pick(&[0u8, 0xff, 1, 0x80, b'9', b' ']);
            b.extend(vec![v; n])
        }
        2 => {
            // small fields in either byte order
            while b.len() < n {
                let x = r.below(40) as u8;
                match r.below(4) {
                    0 => b.push(x),
                    1 => b.extend([x, 0]),
                    2 => b.extend([0, 0, 0, x]),
                    _ => b.extend([x, 0, 0, 0]),
                }
            }
        }
        _ => {
            // words
            for _ in 0..r.below(30) {
                match r.below(5) {
                    0 => b.extend(r.u32().to_string().bytes()),
                    1 => b.extend(*r.pick(&[&b" "[..], b"\n", b"\t", b"# c\n", b"\r\n"])),
                    2 => b.extend(*r.pick(&[&b"WIDTH"[..], b"HEIGHT", b"DEPTH", b"MAXVAL", b"TUPLTYPE", b"ENDHDR", b"-Y", b"+X", b"EXPOSURE=", b"FORMAT="])),
                    3 => b.extend(r.below(20).to_string().bytes()),
                    _ => b.push(r.u8()),
                }
            }
        }
    }
    for _ in 0..r.below(3) {
        mutate::one(&mut r, &mut b, b"");
    }
    mutate::fix_png(&mut b, if fmt == ImageFormat::Png { 8 } else { usize::MAX >> 1 });
    c.rng = r;
    observe(c, &format!("{fmt:?}").to_lowercase(), "magic and hostile bytes", fmt, &b);
}

pub fn run(ctx: &Ctx) {
    dec::CAP.store(CAP, Relaxed);
    ctx.case_cpu(20_000);
    if std::env::var_os("VH_VERBOSE").is_none() && !ctx.in_module() {
        // dav1d reports broken streams on stderr
        unsafe {
            let fd = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
            libc::dup2(fd, 2);
        }
    }
    ctx.rule("valid files of independent writers and the repository's own samples, damaged in one to six places (checksums repaired), and hostile headers, are put through random programs of constructor variants, queries, limits, region reads, pixel decoding, frame iteration (continued after errors) and the loaders; a panic, a crash, an endless run of errors, a case over its CPU budget or heap growth beyond the limits is a violation");
    ctx.rule("`image` is built with overflow checks and debug assertions, its dependencies as users build them");
    ctx.assume("images that declare more than 2 MB of pixels are constructed and queried, not decoded");
    for (name, gen) in writers() {
        let (q, t) = match name {
            "exr" => (1500, 20_000),
            "avif" => (5000, 80_000),
            _ => (20_000, 250_000),
        };
        ctx.section(&format!("{name} damaged"), q, t, |c| {
            let mut r = c.rng.clone();
            let f = gen(&mut r);
            let other = gen(&mut r).bytes;
            let mut b = f.bytes.clone();
            mutate::damage(&mut r, f.fmt, &mut b, &other);
            c.rng = r;
            c.at(&f.variant);
            observe(c, name, &f.variant, f.fmt, &b);
        });
    }
    ctx.section("animations damaged", 20_000, 200_000, |c| {
        let mut r = c.rng.clone();
        let (a, fmt) = match r.below(3) {
            0 => (anim::gif(&mut r), ImageFormat::Gif),
            1 => (anim::apng(&mut r), ImageFormat::Png),
            _ => (anim::webp(&mut r), ImageFormat::WebP),
        };
        let mut b = a.bytes.clone();
        if r.chance(9, 10) {
            mutate::damage(&mut r, fmt, &mut b, &a.bytes);
        }
        c.rng = r;
        c.at(&a.variant);
        let name = format!("{fmt:?}").to_lowercase();
        observe(c, &name, &format!("animation {}", a.variant), fmt, &b);
    });
    ctx.section("sample files damaged", 12_000, 200_000, |c| {
        let s = samples();
        if s.is_empty() {
            return;
        }
        let mut r = c.rng.clone();
        let (fmt, name, b) = r.pick(s);
        let mut b = b.clone();
        if c.idx as usize >= s.len() {
            mutate::damage(&mut r, *fmt, &mut b, &[]);
        }
        c.rng = r;
        c.at(name);
        observe(c, &format!("{fmt:?}").to_lowercase(), name, *fmt, &b);
    });
    ctx.section("hostile heads", 150_000, 1_500_000, heads);
    ctx.require("monitored calls", 200_000);
    ctx.require("decoders constructed", 40_000);
    ctx.require("errors returned", 40_000);
    ctx.require("images decoded", 10_000);
    ctx.require("calls after an error", 1_000);
    ctx.require("region reads", 5_000);
    let _ = (kind as fn(&image::ImageError) -> String, ColorType::L8);
}
