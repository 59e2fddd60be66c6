//! C01: format identification is consistent across names, MIME types and
//! contents.
use image::{ImageError, ImageFormat, ImageReader};
use std::ffi::OsString;
use std::io::Cursor;
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;
use vh::dec;
use vh::files::{writers, FileCase};
use vh::io::{ChaosReader, Delivery};
use vh::{catch, check, gen, hash_bytes, hash_str, Case, Ctx, Rng};
use ImageFormat::*;

vh::property_main!("C01");

/// The file name extensions in use for each format.
const EXT: &[(ImageFormat, &[&str])] = &[
    (Png, &["png", "apng"]),
    (Jpeg, &["jpg", "jpeg", "jfif"]),
    (Gif, &["gif"]),
    (WebP, &["webp"]),
    (Pnm, &["pbm", "pam", "ppm", "pgm"]),
    (Tiff, &["tiff", "tif"]),
    (Tga, &["tga"]),
    (Dds, &["dds"]),
    (Bmp, &["bmp"]),
    (Ico, &["ico"]),
    (Hdr, &["hdr"]),
    (OpenExr, &["exr"]),
    (Farbfeld, &["ff"]),
    (Avif, &["avif"]),
    (Qoi, &["qoi"]),
    (Pcx, &["pcx"]),
];
const MIME: &[(ImageFormat, &[&str])] = &[
    (Png, &["image/png"]),
    (Jpeg, &["image/jpeg"]),
    (Gif, &["image/gif"]),
    (WebP, &["image/webp"]),
    (Pnm, &["image/x-portable-anymap", "image/x-portable-bitmap", "image/x-portable-graymap", "image/x-portable-pixmap"]),
    (Tiff, &["image/tiff"]),
    (Tga, &["image/x-targa", "image/x-tga"]),
    (Dds, &["image/vnd-ms.dds"]),
    (Bmp, &["image/bmp"]),
    (Ico, &["image/x-icon", "image/vnd.microsoft.icon"]),
    (Hdr, &["image/vnd.radiance"]),
    (OpenExr, &["image/x-exr"]),
    (Avif, &["image/avif"]),
    (Qoi, &["image/x-qoi"]),
    (Pcx, &["image/vnd.zbrush.pcx", "image/x-pcx"]),
];

/// What the published signatures say about the first bytes: the formats that
/// may be reported, `must` if one has to be.
fn signature(b: &[u8]) -> (Option<ImageFormat>, bool) {
    let s = |p: &[u8]| b.starts_with(p);
    if s(b"\x89PNG\r\n\x1a\n") {
        return (Some(Png), true);
    }
    if s(&[0xff, 0xd8, 0xff]) {
        return (Some(Jpeg), true);
    }
    if s(b"GIF89a") || s(b"GIF87a") {
        return (Some(Gif), true);
    }
    if b.len() >= 12 && s(b"RIFF") && &b[8..12] == b"WEBP" {
        return (Some(WebP), true);
    }
    if s(b"MM\0*") || s(b"II*\0") {
        return (Some(Tiff), true);
    }
    if s(b"DDS ") {
        return (Some(Dds), true);
    }
    if s(b"BM") {
        return (Some(Bmp), true);
    }
    if s(&[0, 0, 1, 0]) {
        return (Some(Ico), true);
    }
    if s(b"#?RADIANCE") {
        return (Some(Hdr), true);
    }
    if s(b"#?") {
        return (Some(Hdr), false);
    }
    if b.len() >= 12 && &b[4..8] == b"ftyp" {
        return (Some(Avif), b[0] == 0 && b[1] == 0 && &b[8..12] == b"avif");
    }
    if s(&[0x76, 0x2f, 0x31, 0x01]) {
        return (Some(OpenExr), true);
    }
    if s(b"qoif") {
        return (Some(Qoi), true);
    }
    if b.len() >= 2 && b[0] == b'P' && (b'1'..=b'7').contains(&b[1]) {
        return (Some(Pnm), true);
    }
    if s(b"P") {
        return (Some(Pnm), false);
    }
    if s(b"farbfeld") {
        return (Some(Farbfeld), true);
    }
    if b.len() >= 2 && b[0] == 10 && b[1] < 8 {
        // version 0, 2 to 5, one byte encoding, 1 to 8 bits per sample
        let sure = b.len() > 4 && matches!(b[1], 0 | 2..=5) && b[2] == 1 && matches!(b[3], 1 | 2 | 4 | 8);
        return (Some(Pcx), sure);
    }
    (None, true)
}
fn guess(b: &[u8]) -> Result<Result<Option<ImageFormat>, ImageError>, vh::PanicInfo> {
    catch(|| match image::guess_format(b) {
        Ok(f) => Ok(Some(f)),
        Err(ImageError::Unsupported(_)) => Ok(None),
        Err(e) => Err(e),
    })
}
fn judge(c: &mut Case, b: &[u8], what: &str) {
    let (want, must) = signature(b);
    match guess(b) {
        Err(p) => c.fail("guess panics", format!("{what}: {p}")),
        Ok(Err(e)) => c.fail("guess error", format!("{what}: {e}")),
        Ok(Ok(g)) => {
            let ok = g == want || (!must && g.is_none());
            check!(c, ok, format!("guessed {g:?} for {want:?}"), "{what}: {:02x?}", &b[..b.len().min(16)]);
        }
    }
}

fn mixed(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
fn names(c: &mut Case) {
    let mut r = c.rng.clone();
    let (fmt, exts) = *r.pick(EXT);
    let ext = *r.pick(exts);
    let e = mixed(&mut r, ext);
    c.at(&e);
    c.evals_str(ext);
    c.eval(hash_str(&e));
    check!(c, ImageFormat::from_extension(&e) == Some(fmt), "extension", "{e}: {:?}", ImageFormat::from_extension(&e));
    // paths
    let dir = *r.pick(&["", "/", "a/", "/tmp/x.png/", "./", "../b.jpg/../", "x y/", "ü.gif/", "a.b.c/"]);
    let stem = *r.pick(&["a", "a.b", "x.png", ".x", "..", "-", "ü", " ", "a.tiff.bmp", "png"]);
    let p = PathBuf::from(format!("{dir}{stem}.{e}"));
    match ImageFormat::from_path(&p) {
        Ok(f) => check!(c, f == fmt, "path", "{p:?}: {f:?}"),
        Err(x) => c.fail("path", format!("{p:?}: {x}")),
    }
    // as a directory or hidden name the same text is no extension
    for p in [format!("{dir}{stem}.{e}/{}", r.pick(&["file", "noext", "file."])), format!("{dir}.{e}"), format!("{dir}{stem}_{e}x{}", "y")] {
        let p = PathBuf::from(p);
        if p.extension().is_some_and(|x| !x.is_empty()) {
            continue;
        }
        match ImageFormat::from_path(&p) {
            Ok(f) => c.fail("no extension", format!("{p:?}: {f:?}")),
            Err(ImageError::Unsupported(_)) => {}
            Err(x) => c.fail("no extension", format!("{p:?}: {x}")),
        }
    }
    // anything else is no extension of a supported format
    let mut other: String = match r.below(5) {
        0 => e.chars().rev().collect(),
        1 => format!("{e}{}", r.pick(&["x", "1", " ", ".", "~", "g"])),
        2 => e[..e.len() - 1].to_string(),
        3 => e.replace(['s', 'S'], "\u{17f}").replace(['k', 'K'], "\u{212a}").replace(['i', 'I'], "\u{130}"),
        _ => (0..r.range(0, 5)).map(|_| (b'!' + r.below(90) as u8) as char).collect(),
    };
    if r.chance(1, 8) {
        other = format!(".{e}");
    }
    let known = EXT.iter().find(|x| x.1.iter().any(|y| other.eq_ignore_ascii_case(y))).map(|x| x.0);
    // further common extensions may be understood
    let also = ["jpe", "jif", "jfi", "dib", "tpic", "icb", "vda", "vst", "pnm", "rgbe", "xyze", "pic", "farbfeld", "avifs", "cur", "pcc"];
    if !also.iter().any(|a| other.eq_ignore_ascii_case(a)) {
        check!(c, ImageFormat::from_extension(&other) == known, "unknown extension", "{other:?}: {:?}", ImageFormat::from_extension(&other));
    }
    // not text
    let mut b = e.clone().into_bytes();
    b.insert(r.below(b.len() as u64 + 1) as usize, *r.pick(&[0x80u8, 0xff, 0xc0]));
    let os = OsString::from_vec(b);
    match catch(|| (ImageFormat::from_extension(&os), ImageFormat::from_path(PathBuf::from("a").with_extension(&os)).is_ok())) {
        Ok((None, false)) => {}
        Ok(x) => c.fail("not text", format!("{os:?}: {x:?}")),
        Err(p) => c.fail("not text", format!("{os:?}: {p}")),
    }
    // the listed extensions and the reverse agree
    for f in ImageFormat::all() {
        let l = f.extensions_str();
        check!(c, !l.is_empty(), "extensions_str", "{f:?} has none");
        for x in l {
            let x = mixed(&mut r, x);
            check!(c, ImageFormat::from_extension(&x) == Some(f), "extensions_str", "{f:?} {x}: {:?}", ImageFormat::from_extension(&x));
        }
    }
}
fn mimes(c: &mut Case) {
    let mut r = c.rng.clone();
    let (fmt, m) = *r.pick(MIME);
    let m = *r.pick(m);
    c.at(m);
    c.evals_str(m);
    c.eval(hash_str(m) ^ r.u64());
    check!(c, ImageFormat::from_mime_type(m) == Some(fmt), "mime type", "{m}: {:?}", ImageFormat::from_mime_type(m));
    let mut seen: Vec<&str> = vec![];
    for f in ImageFormat::all() {
        let t = f.to_mime_type();
        check!(c, t.contains('/'), "to_mime_type", "{f:?}: {t}");
        check!(c, !seen.contains(&t), "two formats have the same MIME type", "{t}");
        seen.push(t);
        // farbfeld has no type of its own
        let want = if t == "application/octet-stream" { None } else { Some(f) };
        check!(c, ImageFormat::from_mime_type(t) == want, "mime type of format", "{f:?} {t}: {:?}", ImageFormat::from_mime_type(t));
        check!(c, f == Farbfeld || t != "application/octet-stream", "mime type of format", "{f:?} {t}");
    }
    let bad = match r.below(4) {
        0 => m[6..].to_string(),
        1 => format!("{m}x"),
        2 => m[..m.len() - 1].to_string(),
        _ => m.replace("image/", *r.pick(&["text/", "video/", "application/", "image", "image//"])),
    };
    check!(c, ImageFormat::from_mime_type(&bad).is_none(), "unknown mime type", "{bad}: {:?}", ImageFormat::from_mime_type(&bad));
}
fn all(c: &mut Case) {
    let mut r = c.rng.clone();
    let v: Vec<ImageFormat> = ImageFormat::all().collect();
    c.eval(r.u64());
    check!(c, v.len() == EXT.len() && EXT.iter().all(|e| v.contains(&e.0)), "all()", "{v:?}");
    for f in &v {
        check!(c, !f.reading_enabled() || f.can_read(), "can_read", "{f:?}");
        check!(c, !f.writing_enabled() || f.can_write(), "can_write", "{f:?}");
    }
}

fn contents(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut b = match r.below(5) {
        0 => {
            let n = r.range(0, 40) as usize;
            r.bytes(n)
        }
        _ => {
            let sigs: &[&[u8]] = &[
                b"\x89PNG\r\n\x1a\n",
                &[0xff, 0xd8, 0xff],
                b"GIF89a",
                b"GIF87a",
                b"RIFF\0\x10\0\0WEBP",
                b"RIFF\xff\x10\xee\x80WEBP",
                b"MM\0*",
                b"II*\0",
                b"DDS ",
                b"BM",
                &[0, 0, 1, 0],
                &[0, 0, 2, 0],
                b"#?RADIANCE",
                b"#?RGBE",
                b"\0\0\0\x20ftypavif",
                b"\0\0\x10\x1cftypavif",
                b"\0\0\0\x20ftypmif1",
                &[0x76, 0x2f, 0x31, 0x01],
                b"qoif",
                b"P1\n",
                b"P2 ",
                b"P3\t",
                b"P4",
                b"P5",
                b"P6\n1",
                b"P7\nWIDTH",
                b"P8",
                b"farbfeld",
                &[10, 5, 1, 8, 0, 0],
                &[10, 0, 1, 1, 0, 0],
            ];
            let mut v = r.pick(sigs).to_vec();
            let n = r.range(0, 30) as usize;
            v.extend(r.bytes(n));
            v
        }
    };
    match r.below(4) {
        0 if !b.is_empty() => {
            let i = r.below(b.len().min(12) as u64) as usize;
            b[i] ^= 1 << r.below(8);
        }
        1 => {
            let n = r.below(b.len() as u64 + 1) as usize;
            b.truncate(n);
        }
        2 if b.len() > 1 => {
            let i = r.below(b.len().min(12) as u64 - 1) as usize;
            b.swap(i, i + 1);
        }
        _ => {}
    }
    let what = format!("{:02x?}", &b[..b.len().min(16)]);
    c.at(&what);
    c.eval(hash_bytes(&b));
    let (s, m) = signature(&b);
    c.evals_str(&format!("{s:?} {m}"));
    judge(c, &b, &what);
    reader_guess(c, &mut r, &b, signature(&b));
}
fn delivery(r: &mut Rng) -> Delivery {
    Delivery {
        max_chunk: *r.pick(&[0usize, 1, 2, 3, 7, 16]),
        random_chunks: r.bool(),
        interrupt: *r.pick(&[0u32, 0, 40, 120]),
        buf: *r.pick(&[1usize, 2, 5, 16, 17, 4096]),
    }
}
/// Guessing through a reader that stands anywhere, with formats set before.
fn reader_guess(c: &mut Case, r: &mut Rng, b: &[u8], (want, must): (Option<ImageFormat>, bool)) {
    let lead = if r.bool() { 0 } else { r.below(50) as usize };
    let mut data = r.bytes(lead);
    data.extend_from_slice(b);
    let all: Vec<ImageFormat> = ImageFormat::all().collect();
    let d = delivery(r);
    let mut src = ChaosReader::new(&data, d.clone(), r.u64());
    src.pos = lead as u64;
    let log = src.log.clone();
    let ops: Vec<(u64, ImageFormat)> = (0..r.below(5)).map(|_| (r.below(4), *r.pick(&all))).collect();
    let first = r.bool().then(|| *r.pick(&all));
    let what = format!("reader at {lead} of {} bytes, {d:?}, first {first:?}, {ops:?}", data.len());
    let res = catch(|| -> Result<(ChaosReader, Option<String>), std::io::Error> {
        let mut rd = match first {
            Some(f) => ImageReader::with_format(src, f),
            None => ImageReader::new(src),
        };
        let mut cur = first;
        let mut bad = None;
        if rd.format() != cur {
            bad = Some(format!("starts with {:?}", rd.format()));
        }
        for (op, f) in &ops {
            match op {
                0 => {
                    rd.set_format(*f);
                    cur = Some(*f);
                }
                1 => {
                    rd.clear_format();
                    cur = None;
                }
                _ => {
                    rd = rd.with_guessed_format()?;
                    // a guess that fails leaves the format alone
                    if must {
                        cur = want.or(cur);
                    } else if rd.format() == want {
                        cur = want;
                    }
                }
            }
            if rd.format() != cur {
                bad = Some(format!("after {op} format {:?} instead of {cur:?}", rd.format()));
                break;
            }
        }
        Ok((rd.into_inner(), bad))
    });
    match res {
        Err(p) => c.fail("reader: panics", format!("{what}: {p}")),
        Ok(Err(e)) => c.fail("reader: guess fails", format!("{what}: {e}")),
        Ok(Ok((src, bad))) => {
            if let Some(m) = bad {
                c.fail("reader: format", format!("{what}: {m}"));
            }
            check!(c, src.pos == lead as u64, "reader: position", "{what}: now at {}", src.pos);
        }
    }
    c.count("reader operations", log.ops.load(std::sync::atomic::Ordering::Relaxed));
    // a failing source is an error, not a guess
    if r.chance(1, 4) {
        let mut src = ChaosReader::new(&data, Delivery::plain(), 1);
        src.pos = lead as u64;
        let n = r.below(3);
        src.fail_at_op = Some(n);
        let log = src.log.clone();
        let cur = Some(*r.pick(&all));
        match catch(|| ImageReader::with_format(src, cur.unwrap()).with_guessed_format().map(|r| r.format())) {
            Err(p) => c.fail("failing reader: panics", format!("{what}: {p}")),
            Ok(Ok(f)) => {
                let fired = log.fault_fired.load(std::sync::atomic::Ordering::Relaxed);
                check!(c, !fired, "failing reader: success", "{what}: {f:?} with operation {n} failing");
            }
            Ok(Err(_)) => c.count("source errors reported", 1),
        }
    }
}
/// A file of every format is recognised from its content, whatever its
/// variant, and decodes when the format says it can be read.
fn file(c: &mut Case, name: &str, f: &FileCase) {
    let mut r = c.rng.clone();
    let what = format!("{} {}x{}", f.variant, f.w, f.h);
    c.at(&what);
    c.eval(hash_bytes(&f.bytes));
    c.evals_str(name);
    let n = if r.chance(1, 3) { r.range(16, f.bytes.len().max(16) as u64) as usize } else { f.bytes.len() };
    let b = &f.bytes[..n.min(f.bytes.len())];
    let g = guess(b);
    if f.fmt == Tga {
        // no signature
        match g {
            Ok(Ok(None)) => c.count("contents without signature", 1),
            // ten bytes of identification
            Ok(Ok(Some(Pcx))) if b[0] == 10 && b[1] < 2 => c.fail("tga with a ten byte identification guessed as Pcx", what.clone()),
            other => c.fail("tga content", format!("{what}: {other:?}")),
        }
    } else {
        match g {
            Ok(Ok(Some(x))) if x == f.fmt => c.count("contents recognised", 1),
            other => c.fail_blob(&format!("{name}: content not recognised"), format!("{what}: {other:?}"), Some(&f.bytes)),
        }
        reader_guess(c, &mut r, b, (Some(f.fmt), true));
    }
    // readable formats read
    if f.fmt.reading_enabled() && !vh::files::gif::crate_fails(f) {
        match catch(|| ImageReader::with_format(Cursor::new(&f.bytes), f.fmt).decode()) {
            Ok(Ok(i)) => check!(c, (i.width(), i.height()) == (f.w, f.h), format!("{name}: set format"), "{what}: {}x{}", i.width(), i.height()),
            Ok(Err(e)) => c.fail_blob(&format!("{name}: set format refused {}", dec::kind(&e)), format!("{what}: {e}"), Some(&f.bytes)),
            Err(p) => c.fail_blob(&format!("{name}: set format panics"), format!("{what}: {p}"), Some(&f.bytes)),
        }
    }
    // without a format, or with another one, it is refused
    match catch(|| ImageReader::new(Cursor::new(&f.bytes)).decode()) {
        Ok(Err(ImageError::Unsupported(_))) => {}
        Ok(Err(e)) => c.fail("no format set", format!("{what}: {e}")),
        Ok(Ok(_)) => c.fail("no format set", format!("{what}: decoded")),
        Err(p) => c.fail("no format set", format!("{what}: {p}")),
    }
    let others: Vec<ImageFormat> = ImageFormat::all().filter(|o| *o != f.fmt && *o != Tga).collect();
    let o = *r.pick(&others);
    match catch(|| ImageReader::with_format(Cursor::new(&f.bytes), o).decode()) {
        Ok(Err(_)) => c.count("other formats refused", 1),
        Ok(Ok(_)) => c.fail(&format!("{name} decoded as {o:?}"), what.clone()),
        Err(p) => c.fail(&format!("{name} as {o:?} panics"), format!("{what}: {p}")),
    }
}
/// Everything written is recognised, and every writable format writes.
fn written(c: &mut Case) {
    let mut r = c.rng.clone();
    let all: Vec<ImageFormat> = ImageFormat::all().collect();
    let fmt = *r.pick(&all);
    let (w, h) = (r.r32(1, 20), r.r32(1, 20));
    let color = match fmt {
        Farbfeld => image::ColorType::Rgba16,
        OpenExr | Hdr => image::ColorType::Rgb32F,
        Gif | Ico => image::ColorType::Rgba8,
        _ => image::ColorType::Rgb8,
    };
    let img = gen::dynamic(&mut r, color, w, h);
    let what = format!("{fmt:?} {w}x{h}");
    c.at(&what);
    c.eval(hash_bytes(img.as_bytes()));
    c.evals_str(&format!("write {fmt:?}"));
    let mut o = Cursor::new(vec![]);
    let e = catch(|| image::write_buffer_with_format(&mut o, img.as_bytes(), w, h, color, fmt));
    match e {
        Err(p) => c.fail(&format!("{fmt:?} writing panics"), format!("{what}: {p}")),
        Ok(Err(ImageError::Unsupported(_))) if !fmt.can_write() || !fmt.writing_enabled() => {
            c.count("unwritable formats refused", 1);
            check!(c, o.get_ref().is_empty(), "refused but written", "{what}");
        }
        Ok(Err(e)) => c.fail(&format!("{fmt:?} not written"), format!("{what}: {e}")),
        Ok(Ok(())) => {
            let b = o.into_inner();
            if fmt != Tga {
                check!(c, matches!(guess(&b), Ok(Ok(Some(x))) if x == fmt), format!("{fmt:?} written but not recognised"), "{what}: {:02x?}", &b[..b.len().min(16)]);
            }
            if fmt.reading_enabled() {
                match catch(|| image::load_from_memory_with_format(&b, fmt)) {
                    Ok(Ok(i)) => check!(c, (i.width(), i.height()) == (w, h), "written and read", "{what}"),
                    Ok(Err(e)) => c.fail(&format!("{fmt:?} written but not read"), format!("{what}: {e}")),
                    Err(p) => c.fail(&format!("{fmt:?} written but not read"), format!("{what}: {p}")),
                }
                c.count("written and read", 1);
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("extensions, MIME types and signatures are compared with tables from the formats' own documents; files of all writers, their prefixes, mutated and random beginnings go through guess_format and through readers that stand anywhere and deliver short and interrupted reads, where a model of the reader's format setting is kept");
    ctx.assume("contents that only resemble a signature (PCX with unusual header bytes, other ftyp brands, #? without RADIANCE, P with another digit) may be reported as that format or not at all; TGA has no signature");
    ctx.section("names", 20_000, 400_000, names);
    ctx.section("mime types", 3000, 60_000, mimes);
    ctx.section("all", 1, 1, all);
    ctx.section("contents", 60_000, 2_000_000, contents);
    for (name, gen) in writers() {
        let (q, t) = match name {
            "exr" | "avif" => (150, 3000),
            _ => (600, 20_000),
        };
        ctx.section(name, q, t, |c| {
            let mut r: Rng = c.rng.clone();
            let f = gen(&mut r);
            file(c, name, &f);
        });
    }
    ctx.section("written", 1200, 20_000, written);
    ctx.require("contents recognised", 1000);
    ctx.require("source errors reported", 100);
    ctx.require("written and read", 300);
}
