//! C14: saving to and opening from a path is faithful and reports failure.
use image::{ColorType, DynamicImage, ExtendedColorType, ImageError, ImageFormat, ImageReader, ImageResult};
use std::ffi::OsString;
use std::io::Cursor;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use vh::dec::{self, kind};
use vh::io::Scratch;
use vh::{catch, check, gen, hash_bytes, mutate, Case, Ctx, Rng};

vh::property_main!("C14");

/// Extensions with an encoder behind them, as documented.
const WRITABLE: [(&str, ImageFormat); 22] = [
    ("png", ImageFormat::Png),
    ("apng", ImageFormat::Png),
    ("jpg", ImageFormat::Jpeg),
    ("jpeg", ImageFormat::Jpeg),
    ("jfif", ImageFormat::Jpeg),
    ("gif", ImageFormat::Gif),
    ("webp", ImageFormat::WebP),
    ("tif", ImageFormat::Tiff),
    ("tiff", ImageFormat::Tiff),
    ("tga", ImageFormat::Tga),
    ("bmp", ImageFormat::Bmp),
    ("ico", ImageFormat::Ico),
    ("hdr", ImageFormat::Hdr),
    ("exr", ImageFormat::OpenExr),
    ("pbm", ImageFormat::Pnm),
    ("pam", ImageFormat::Pnm),
    ("ppm", ImageFormat::Pnm),
    ("pgm", ImageFormat::Pnm),
    ("ff", ImageFormat::Farbfeld),
    ("qoi", ImageFormat::Qoi),
    ("avif", ImageFormat::Avif),
    ("PNG", ImageFormat::Png),
];
fn takes(f: ImageFormat, c: ColorType) -> bool {
    use ColorType::*;
    match f {
        ImageFormat::Png => !matches!(c, Rgb32F | Rgba32F),
        // pictures inside icons must be RGBA to be read again
        ImageFormat::Ico => c == Rgba8,
        ImageFormat::Bmp | ImageFormat::Tga | ImageFormat::WebP | ImageFormat::Pnm => matches!(c, L8 | Rgb8 | Rgba8),
        ImageFormat::Tiff => matches!(c, L8 | Rgb8 | Rgba8 | L16 | Rgb16 | Rgba16),
        ImageFormat::Farbfeld => c == Rgba16,
        ImageFormat::Qoi | ImageFormat::Gif => matches!(c, Rgb8 | Rgba8),
        ImageFormat::OpenExr => matches!(c, Rgb32F | Rgba32F),
        ImageFormat::Hdr => c == Rgb32F,
        ImageFormat::Jpeg => matches!(c, L8 | Rgb8),
        ImageFormat::Avif => matches!(c, Rgb8 | Rgba8),
        _ => false,
    }
}
/// PAM files cannot be read with every depth: see the known findings of C02.
fn readable(f: ImageFormat, c: ColorType) -> bool {
    !(f == ImageFormat::Pnm && c == ColorType::Rgba8)
}

fn mixed_case(r: &mut Rng, s: &str) -> String {
    let all = r.below(3);
    s.chars().map(|c| if all == 1 || (all == 2 && r.bool()) { c.to_ascii_uppercase() } else { c }).collect()
}

const APIS: [&str; 6] = ["save_buffer", "save_buffer_with_format", "DynamicImage::save", "DynamicImage::save_with_format", "ImageBuffer::save", "ImageBuffer::save_with_format"];
fn buffer_save(img: &DynamicImage, p: &Path, f: Option<ImageFormat>) -> ImageResult<()> {
    macro_rules! go {
        ($b:expr) => {
            match f {
                Some(f) => $b.save_with_format(p, f),
                None => $b.save(p),
            }
        };
    }
    match img {
        DynamicImage::ImageLuma8(b) => go!(b),
        DynamicImage::ImageLumaA8(b) => go!(b),
        DynamicImage::ImageRgb8(b) => go!(b),
        DynamicImage::ImageRgba8(b) => go!(b),
        DynamicImage::ImageLuma16(b) => go!(b),
        DynamicImage::ImageLumaA16(b) => go!(b),
        DynamicImage::ImageRgb16(b) => go!(b),
        DynamicImage::ImageRgba16(b) => go!(b),
        DynamicImage::ImageRgb32F(b) => go!(b),
        DynamicImage::ImageRgba32F(b) => go!(b),
        _ => unreachable!(),
    }
}
/// Odd numbers are told the format, even ones find it in the path.
fn save(api: usize, img: &DynamicImage, p: &Path, f: ImageFormat) -> ImageResult<()> {
    let (w, h, c) = (img.width(), img.height(), ExtendedColorType::from(img.color()));
    match api {
        0 => image::save_buffer(p, img.as_bytes(), w, h, c),
        1 => image::save_buffer_with_format(p, img.as_bytes(), w, h, c, f),
        2 => img.save(p),
        3 => img.save_with_format(p, f),
        4 => buffer_save(img, p, None),
        _ => buffer_save(img, p, Some(f)),
    }
}
fn memory(img: &DynamicImage, f: ImageFormat) -> ImageResult<Vec<u8>> {
    let mut o = Cursor::new(vec![]);
    image::write_buffer_with_format(&mut o, img.as_bytes(), img.width(), img.height(), img.color(), f)?;
    Ok(o.into_inner())
}
fn same(a: &ImageResult<DynamicImage>, b: &ImageResult<DynamicImage>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a.color() == b.color() && (a.width(), a.height()) == (b.width(), b.height()) && a.as_bytes() == b.as_bytes(),
        // a position beyond what the file system holds is refused when it is sought
        (Err(ImageError::IoError(a)), Err(_)) if a.raw_os_error() == Some(22) => true,
        (Err(a), Err(b)) => kind(a) == kind(b),
        _ => false,
    }
}
fn show(a: &ImageResult<DynamicImage>) -> String {
    match a {
        Ok(i) => format!("{:?}", dec::of_dynamic(i)),
        Err(e) => format!("{}: {e}", kind(e)),
    }
}
fn entries(s: &Path) -> Vec<OsString> {
    let mut v: Vec<_> = std::fs::read_dir(s).unwrap().map(|e| e.unwrap().file_name()).collect();
    v.sort();
    v
}
/// An image that `f` takes, not too large.
fn fitting(r: &mut Rng, f: ImageFormat) -> DynamicImage {
    let cols: Vec<ColorType> = gen::COLORS.iter().copied().filter(|c| takes(f, *c)).collect();
    let c = *r.pick(&cols);
    let (w, h) = match (f, r.below(6)) {
        (ImageFormat::Avif, _) => (r.r32(1, 16), r.r32(1, 16)),
        // larger than the buffer of the writer
        (_, 0) => (r.r32(60, 200), r.r32(40, 90)),
        _ => (r.r32(1, 30), r.r32(1, 30)),
    };
    gen::dynamic(r, c, w, h)
}
fn pick_format(c: &mut Case) -> (&'static str, ImageFormat) {
    // AVIF is slow
    loop {
        let p = *c.rng.pick(&WRITABLE);
        if p.1 != ImageFormat::Avif || c.rng.chance(1, 4) {
            return p;
        }
    }
}

/// Everything that can be asked of a file, against a decode from memory.
fn queries(c: &mut Case, p: &Path, bytes: &[u8], by_name: Option<ImageFormat>, what: &str) {
    let named = catch(|| image::open(p));
    let want = match by_name {
        Some(f) => catch(|| image::load_from_memory_with_format(bytes, f)),
        None => Ok(Err(ImageError::Unsupported(image::error::ImageFormatHint::Unknown.into()))),
    };
    let (named, want) = match (named, want) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return c.fail_blob("opening panics", format!("{what}: {:?} {:?}", a.err(), b.err()), Some(bytes)),
    };
    c.count("files opened", 1);
    if !same(&named, &want) {
        return c.fail_blob("opening differs from memory", format!("{what}: {} from the path, {} from memory", show(&named), show(&want)), Some(bytes));
    }
    let r = catch(|| {
        let d = image::image_dimensions(p);
        let rd = ImageReader::open(p)?;
        let f = rd.format();
        let d2 = rd.into_dimensions();
        let g = ImageReader::open(p)?.with_guessed_format()?.format();
        let full = ImageReader::open(p)?.decode();
        let mut free = ImageReader::open(p)?;
        free.no_limits();
        let free = if bytes.len() < 1 << 20 && named.is_ok() { Some(free.decode()) } else { None };
        ImageResult::Ok((d, f, d2, g, full, free))
    });
    let (d, f, d2, g, full, free) = match r {
        Ok(Ok(v)) => v,
        e => return c.fail_blob("querying a path", format!("{what}: {:?}", e.map(|r| r.map(|_| ()))), Some(bytes)),
    };
    check!(c, f == by_name, "format of a path", "{what}: {f:?}, by its name {by_name:?}");
    check!(c, same(&full, &named), "reader and open differ", "{what}: {} and {}", show(&full), show(&named));
    check!(c, g == image::guess_format(bytes).ok().or(by_name), "guessed format of a path", "{what}: {g:?}");
    if let Some(free) = free {
        check!(c, same(&free, &named), "opening without limits differs", "{what}: {} and {}", show(&free), show(&named));
    }
    if let Ok(i) = &named {
        let want = (i.width(), i.height());
        c.count("dimension queries compared", 1);
        check!(c, d.as_ref().ok() == Some(&want) && d2.as_ref().ok() == Some(&want), "dimensions of a path", "{what}: {d:?} and {d2:?}, decoded {want:?}");
    }
}

struct Limit(libc::rlimit, libc::__rlimit_resource_t);
impl Limit {
    fn set(which: libc::__rlimit_resource_t, soft: u64) -> Limit {
        unsafe {
            let mut old = std::mem::zeroed();
            libc::getrlimit(which, &mut old);
            let new = libc::rlimit { rlim_cur: soft, rlim_max: old.rlim_max };
            libc::setrlimit(which, &new);
            Limit(old, which)
        }
    }
}
impl Drop for Limit {
    fn drop(&mut self) {
        unsafe {
            libc::setrlimit(self.1, &self.0);
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("what a save leaves on disk is compared byte by byte with what the same image writes to memory, and opening it with decoding those bytes; faults of the file system (full device, size limit at chosen bytes, no descriptors, unusable paths) must surface as errors; refused names must not create or change files");
    ctx.assume("GIF colour conversion by DynamicImage::write_to is a convenience that path saving does not offer; a refused image may leave an incomplete file behind as long as an error is returned");
    // ---- faithful
    ctx.section("round trip", 3000, 40_000, |c| {
        let (ext, f) = pick_format(c);
        let img = fitting(&mut c.rng, f);
        let api = c.rng.below(6) as usize;
        let dir = Scratch::new("c14");
        let stem = *c.rng.pick(&["a", "a.b", "image.bmp", ".hidden", "with space", "ünïcode", "x.png."]);
        let name = format!("{stem}.{}", mixed_case(&mut c.rng, ext));
        let p = dir.file(&name);
        if c.rng.chance(1, 3) {
            // something longer is there already
            let n = c.rng.range(1, 300_000) as usize;
            std::fs::write(&p, vec![0x55; n]).unwrap();
        }
        c.at(&name);
        c.eval(hash_bytes(img.as_bytes()) ^ api as u64);
        c.evals_str(&format!("{f:?} {}", APIS[api]));
        let what = format!("{} of {}x{} {:?} to {name}", APIS[api], img.width(), img.height(), img.color());
        let (got, want) = match (catch(|| save(api, &img, &p, f)), catch(|| memory(&img, f))) {
            (Ok(Ok(())), Ok(Ok(w))) => (std::fs::read(&p).unwrap_or_default(), w),
            (a, b) => return c.fail("saving fails", format!("{what}: {a:?}, to memory {:?}", b.map(|r| r.map(|v| v.len())))),
        };
        c.count("files saved", 1);
        if got != want {
            let k = got.iter().zip(&want).take_while(|x| x.0 == x.1).count();
            return c.fail_blob("file differs from memory", format!("{what}: {} bytes on disk, {} in memory, equal up to {k}", got.len(), want.len()), Some(&got));
        }
        let e = entries(p.parent().unwrap());
        check!(c, e.len() == 1, "saving leaves other files", "{what}: {e:?}");
        queries(c, &p, &got, Some(f), &what);
        if readable(f, img.color()) {
            check!(c, image::open(&p).is_ok(), "saved file cannot be opened", "{what}");
        }
        // through DynamicImage::write_to as well
        let dynamic = catch(|| {
            let mut o = Cursor::new(vec![]);
            img.write_to(&mut o, f).map(|_| o.into_inner())
        });
        match dynamic {
            Ok(Ok(b)) => {
                let (x, y) = (image::load_from_memory_with_format(&b, f), image::open(&p));
                check!(c, same(&x, &y), "saved file and write_to differ", "{what}: {} and {}", show(&x), show(&y));
            }
            e => c.fail("write_to fails", format!("{what}: {:?}", e.map(|r| r.map(|_| ())))),
        }
        c.sample(|| what);
    });
    // ---- the format as told
    ctx.section("explicit format", 1500, 20_000, |c| {
        let (_, f) = pick_format(c);
        let img = fitting(&mut c.rng, f);
        let api = c.rng.below(3) as usize * 2 + 1;
        let dir = Scratch::new("c14f");
        let name = *c.rng.pick(&["plain", "x.png", "x.bmp", "x.dds", "x.txt", "x.", ".png", "y.PCX", "z.tga", "q.gif"]);
        let p = dir.file(name);
        c.at(name);
        c.eval(hash_bytes(img.as_bytes()) ^ api as u64 ^ hash_bytes(name.as_bytes()));
        let what = format!("{} as {f:?} to {name}", APIS[api]);
        match (catch(|| save(api, &img, &p, f)), catch(|| memory(&img, f))) {
            (Ok(Ok(())), Ok(Ok(w))) => {
                let got = std::fs::read(&p).unwrap_or_default();
                c.count("files saved", 1);
                if got != w {
                    return c.fail_blob("file differs from memory", format!("{what}: {} and {} bytes", got.len(), w.len()), Some(&got));
                }
                queries(c, &p, &got, ImageFormat::from_path(&p).ok(), &what);
                // by content, where there is a signature
                if f != ImageFormat::Tga {
                    let g = catch(|| ImageReader::open(&p)?.with_guessed_format()?.decode());
                    let want = image::load_from_memory_with_format(&w, f);
                    match g {
                        Ok(g) => check!(c, same(&g, &want), "reader with guessed format differs", "{what}: {} and {}", show(&g), show(&want)),
                        Err(p) => c.fail("reader with guessed format panics", format!("{what}: {p}")),
                    }
                }
            }
            (a, b) => c.fail("saving fails", format!("{what}: {a:?}, to memory {:?}", b.map(|r| r.map(|v| v.len())))),
        }
    });
    // ---- names that say nothing
    ctx.section("refused names", 1500, 10_000, |c| {
        let api = c.rng.below(6) as usize;
        let r = &mut c.rng;
        // told formats without an encoder, or names without one
        let (name, f): (OsString, ImageFormat) = if api % 2 == 1 {
            (OsString::from(*r.pick(&["x.png", "x", "x.dds", "x.pcx", "x.jpg"])), *r.pick(&[ImageFormat::Dds, ImageFormat::Pcx]))
        } else {
            let n = match r.below(4) {
                0 => OsString::from(*r.pick(&["x.dds", "x.pcx", "x.DDS", "x.png.pcx", "x.Pcx"])),
                1 => OsString::from_vec(b"x.p\xffng".to_vec()),
                _ => OsString::from(*r.pick(&["noextension", ".png", "x.", "x.txt", "x.png ", "x.pn", "x.pngg", "x.png.", "x.svg", "x.jpeg2000", "x.ıco", "x.heic", "x.raw", "x.tgaz", "png", ".jpg"])),
            };
            (n, ImageFormat::Png)
        };
        let img = gen::dynamic(r, ColorType::Rgb8, 3, 3);
        let dir = Scratch::new("c14n");
        let p = dir.file("q").with_file_name(&name);
        let before = r.bool().then(|| r.bytes(40));
        if let Some(b) = &before {
            std::fs::write(&p, b).unwrap();
        }
        c.eval(hash_bytes(name.as_encoded_bytes()) ^ api as u64);
        c.evals_str(&format!("{name:?}"));
        let what = format!("{} to {name:?} ({f:?})", APIS[api]);
        match catch(|| save(api, &img, &p, f)) {
            Ok(Err(ImageError::Unsupported(_))) => c.count("names refused", 1),
            e => c.fail("name not refused", format!("{what}: {e:?}")),
        }
        let after = std::fs::read(&p).ok();
        check!(c, after == before, "refused name changes a file", "{what}: {:?} bytes before, {:?} after", before.as_ref().map(|v| v.len()), after.as_ref().map(|v| v.len()));
        let others = entries(p.parent().unwrap()).len();
        check!(c, others == before.is_some() as usize, "refused name changes a file", "{what}: {others} files");
        // opening such a file is refused too, unless the format can be read
        if let (Some(b), 0) = (&before, api % 2) {
            if ImageFormat::from_path(&p).is_err() {
                match catch(|| (image::open(&p), image::image_dimensions(&p))) {
                    Ok((Err(ImageError::Unsupported(_)), Err(ImageError::Unsupported(_)))) => {}
                    e => c.fail("opening a name without format", format!("{what}: {e:?} {}", b.len())),
                }
            }
        }
    });
    // ---- images the format does not take
    ctx.section("refused images", 1500, 10_000, |c| {
        let (ext, f) = pick_format(c);
        let color = *c.rng.pick(&gen::COLORS);
        let (w, h) = (c.rng.r32(1, 6), c.rng.r32(1, 6));
        let img = gen::dynamic(&mut c.rng, color, w, h);
        let api = c.rng.below(6) as usize;
        let dir = Scratch::new("c14i");
        let p = dir.file(&format!("x.{ext}"));
        c.eval(hash_bytes(img.as_bytes()) ^ api as u64);
        c.evals_str(&format!("{f:?} {color:?}"));
        let what = format!("{} of {color:?} to .{ext}", APIS[api]);
        match (catch(|| save(api, &img, &p, f)), catch(|| memory(&img, f))) {
            (Ok(Ok(())), Ok(Ok(w))) => {
                let got = std::fs::read(&p).unwrap_or_default();
                check!(c, got == w, "file differs from memory", "{what}: {} and {} bytes", got.len(), w.len());
            }
            (Ok(Err(a)), Ok(Err(b))) => {
                c.count("images refused", 1);
                check!(c, kind(&a) == kind(&b), "refusal differs from memory", "{what}: {a} and {b}");
                check!(c, !takes(f, color), "image refused", "{what}: {a}");
            }
            (a, b) => c.fail("refusal differs from memory", format!("{what}: {a:?}, to memory {:?}", b.map(|r| r.map(|v| v.len())))),
        }
    });
    // ---- a device without space
    ctx.section("device full", 1200, 10_000, |c| {
        let (ext, f) = pick_format(c);
        let img = fitting(&mut c.rng, f);
        let api = c.rng.below(6) as usize;
        let dir = Scratch::new("c14d");
        let p = dir.file(&format!("x.{ext}"));
        std::os::unix::fs::symlink("/dev/full", &p).unwrap();
        c.eval(hash_bytes(img.as_bytes()) ^ api as u64);
        c.evals_str(&format!("{f:?}"));
        let what = format!("{} of {}x{} {:?} to a full device as .{ext}", APIS[api], img.width(), img.height(), img.color());
        match catch(|| save(api, &img, &p, f)) {
            Ok(Err(_)) => c.count("full devices reported", 1),
            Ok(Ok(())) => c.fail(&format!("full device not reported {f:?}"), what),
            Err(p) => c.fail("full device panics", format!("{what}: {p}")),
        }
    });
    // ---- a limit at every kind of byte
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    ctx.serial("size limit", 1500, 20_000, |c| {
        let (ext, f) = pick_format(c);
        let img = fitting(&mut c.rng, f);
        let api = c.rng.below(6) as usize;
        let dir = Scratch::new("c14s");
        let p = dir.file(&format!("x.{ext}"));
        let Ok(Ok(want)) = catch(|| memory(&img, f)) else { return c.fail("saving fails", format!("{f:?} to memory")) };
        let n = want.len() as u64;
        for k in 0..4 {
            let at = match k {
                0 => n - 1,
                1 => n + c.rng.below(2),
                2 => *c.rng.pick(&[0, 1, 8, 26, n / 2]),
                _ => c.rng.below(n),
            };
            // AVIF encoding takes too long for all of them
            if f == ImageFormat::Avif && k > 1 {
                break;
            }
            let _ = std::fs::remove_file(&p);
            let r = {
                let _l = Limit::set(libc::RLIMIT_FSIZE, at);
                catch(|| save(api, &img, &p, f))
            };
            c.eval(hash_bytes(img.as_bytes()) ^ at << 3 ^ api as u64);
            c.evals_str(&format!("{f:?}"));
            let what = format!("{} of {n} bytes as .{ext} with room for {at}", APIS[api]);
            match r {
                Err(p) => c.fail("size limit panics", format!("{what}: {p}")),
                Ok(Ok(())) if at < n => c.fail(&format!("size limit not reported {f:?}"), what),
                Ok(Err(e)) if at >= n => c.fail("saving fails", format!("{what}: {e}")),
                Ok(Ok(())) => {
                    let got = std::fs::read(&p).unwrap_or_default();
                    c.count("files saved within a limit", 1);
                    check!(c, got == want, "file differs from memory", "{what}: {} bytes", got.len());
                }
                Ok(Err(_)) => c.count("size limits reported", 1),
            }
        }
    });
    // ---- no descriptors, unusable paths
    ctx.serial("unusable targets", 700, 5000, |c| {
        let (ext, f) = pick_format(c);
        let f0 = if f == ImageFormat::Avif { ImageFormat::Png } else { f };
        let img = fitting(&mut c.rng, f0);
        let api = c.rng.below(6) as usize;
        let dir = Scratch::new("c14u");
        let file = dir.file(&format!("x.{ext}"));
        let mode = c.rng.below(8);
        let mut limit = false;
        let p: PathBuf = match mode {
            0 => file.parent().unwrap().join("missing").join(format!("x.{ext}")),
            1 => {
                std::fs::create_dir(&file).unwrap();
                file.clone()
            }
            2 => file.parent().unwrap().join(format!("{}.{ext}", "n".repeat(300))),
            3 => {
                std::os::unix::fs::symlink(&file, &file).unwrap();
                file.clone()
            }
            4 => {
                std::fs::write(&file, b"x").unwrap();
                file.join(format!("y.{ext}"))
            }
            5 => file.parent().unwrap().join(OsString::from_vec(format!("a\0b.{ext}").into_bytes())),
            6 => {
                limit = true;
                file.clone()
            }
            _ => {
                std::os::unix::fs::symlink("/dev/null", &file).unwrap();
                file.clone()
            }
        };
        c.eval(hash_bytes(img.as_bytes()) ^ api as u64 ^ mode << 8);
        c.evals_str(&format!("{mode} {f:?}"));
        let what = format!("{} to unusable target {mode} as .{ext}", APIS[api]);
        if mode != 7 {
            let r = {
                let _l = limit.then(|| Limit::set(libc::RLIMIT_NOFILE, 0));
                catch(|| save(api, &img, &p, f))
            };
            match r {
                Ok(Err(ImageError::IoError(_))) => c.count("unusable targets reported", 1),
                e => c.fail("unusable target not reported", format!("{what}: {e:?}")),
            }
        }
        // and as a source
        let r = {
            let _l = limit.then(|| Limit::set(libc::RLIMIT_NOFILE, 0));
            catch(|| (image::open(&p), image::image_dimensions(&p), ImageReader::open(&p).and_then(|r| r.with_guessed_format()).is_ok()))
        };
        match r {
            Err(p) => c.fail("unusable source panics", format!("{what}: {p}")),
            Ok((a, b, _)) => {
                check!(c, a.is_err() && b.is_err(), "unusable source not reported", "{what}: {} {b:?}", show(&a));
                if mode != 7 {
                    check!(
                        c,
                        matches!((&a, &b), (Err(ImageError::IoError(_)), Err(ImageError::IoError(_)))),
                        "unusable source: error is not that of the file system",
                        "{what}: {} {b:?}",
                        show(&a)
                    );
                }
                c.count("unusable sources reported", 1);
            }
        }
    });
    // ---- files from elsewhere
    ctx.section("opening", 3000, 40_000, |c| {
        let (name, g) = *c.rng.pick(&vh::files::writers());
        let f = g(&mut c.rng);
        let other = g(&mut c.rng);
        let mut bytes = f.bytes.clone();
        let damaged = c.rng.chance(1, 2);
        if damaged {
            mutate::damage(&mut c.rng, f.fmt, &mut bytes, &other.bytes);
        }
        let fmt = if c.rng.chance(1, 10) { other.fmt } else { f.fmt };
        let ext = match fmt {
            ImageFormat::Dds => "dds",
            f => WRITABLE.iter().find(|x| x.1 == f).unwrap().0,
        };
        // sizes that would take too long are left to C06
        match catch(|| dec::boxed(fmt, &bytes).map(|d| image::ImageDecoder::total_bytes(&d))) {
            Ok(Ok(n)) if n > 1 << 22 => {
                c.count("files too large to open", 1);
                return;
            }
            _ => {}
        }
        if fmt == ImageFormat::OpenExr && dec::exr_wide(&bytes) {
            return;
        }
        let dir = Scratch::new("c14o");
        let p = dir.file(&format!("x.{}", mixed_case(&mut c.rng, ext)));
        std::fs::write(&p, &bytes).unwrap();
        c.at(name);
        c.eval(hash_bytes(&bytes));
        c.evals_str(name);
        let what = format!("{} {} as .{ext}", f.variant, if damaged { "damaged" } else { "intact" });
        queries(c, &p, &bytes, ImageFormat::from_path(&p).ok(), &what);
    });
    ctx.require("files saved", 2000);
    ctx.require("names refused", 500);
    ctx.require("full devices reported", 500);
    ctx.require("size limits reported", 1000);
    ctx.require("files opened", 4000);
    ctx.require("dimension queries compared", 3000);
}
