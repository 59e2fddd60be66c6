//! C05: decoders recover the pixels the file format defines.
use vh::dec::{self, kind};
use vh::files::{writers, FileCase};
use vh::{catch, check, hash_bytes, with_decoder, Case, Ctx, Rng};
use image::ImageDecoder;

vh::property_main!("C05");

fn one(c: &mut Case, name: &str, f: &FileCase) {
    c.at(&f.variant);
    let what = format!("{} {}x{} {:?}", f.variant, f.w, f.h, f.color);
    let got = catch(|| {
        with_decoder!(f.fmt, std::io::Cursor::new(&f.bytes[..]), |d| {
            let mut d = d?;
            let mut meta = vec![];
            // metadata queries before decoding must not matter
            if f.bytes.len() % 2 == 0 {
                meta.push(d.icc_profile().is_ok());
                meta.push(d.exif_metadata().is_ok());
                meta.push(d.orientation().is_ok());
            }
            dec::read(d).map(|v| (v, meta))
        })
    });
    c.eval(hash_bytes(&f.bytes));
    c.evals_str(&f.variant);
    let sig = |k: &str| format!("{name} {k}");
    match got {
        Err(p) => c.fail_blob(&sig("panics"), format!("{what}: {p}"), Some(&f.bytes)),
        // the LZW decoder below the gif crate gives up on some row boundaries
        // of interlaced frames: not decided here
        Ok(Err(_)) if vh::files::gif::crate_fails(f) => c.count("valid files the gif crate itself gets wrong", 1),
        Ok(Err(e)) => c.fail_blob(&sig(&format!("refused {}", kind(&e))), format!("{what}: {e}"), Some(&f.bytes)),
        Ok(Ok((None, _))) => {}
        Ok(Ok((Some(d), meta))) => {
            check!(c, meta.iter().all(|m| *m), &sig("metadata query fails"), "{what}: {meta:?}");
            check!(c, (d.w, d.h) == (f.w, f.h), &sig("dimensions"), "{what}: decoded {}x{}", d.w, d.h);
            check!(c, d.color == f.color, &sig("colour type"), "{what}: decoded {:?}", d.color);
            if (d.w, d.h, d.color) == (f.w, f.h, f.color) {
                c.count("pixels compared", (d.w * d.h) as u64);
                if let Some(m) = f.compare(&d.px) {
                    if vh::files::gif::crate_fails(f) {
                        c.count("valid files the gif crate itself gets wrong", 1);
                        return;
                    }
                    c.fail_blob(&sig("pixels"), format!("{what}: {m}"), Some(&f.bytes));
                }
            }
        }
    }
    c.sample(|| what);
}

/// What the header of a PNM file says, and that it can be written back in front of the samples.
fn pnm_header(c: &mut Case, f: &FileCase) {
    use image::codecs::pnm::*;
    use std::io::Read;
    let what = format!("{} {}x{} {:?}", f.variant, f.w, f.h, f.color);
    let Ok(d) = PnmDecoder::new(&f.bytes[..]) else { return };
    let st = d.subtype();
    let (mut rest, head) = d.into_inner();
    let mut tail = vec![];
    rest.read_to_end(&mut tail).unwrap();
    let kind = f.bytes[1] - b'0';
    let enc = |e: SampleEncoding| (e == SampleEncoding::Ascii) == (kind <= 3);
    let ok = match (kind, st) {
        (1 | 4, PnmSubtype::Bitmap(e)) => enc(e) && head.as_bitmap().is_some_and(|b| b.encoding == e && (b.width, b.height) == (f.w, f.h)),
        (2 | 5, PnmSubtype::Graymap(e)) => enc(e) && head.as_graymap().is_some_and(|b| b.encoding == e && (b.width, b.height, b.maxwhite) == (f.w, f.h, head.maximal_sample())),
        (3 | 6, PnmSubtype::Pixmap(e)) => enc(e) && head.as_pixmap().is_some_and(|b| b.encoding == e && (b.width, b.height, b.maxval) == (f.w, f.h, head.maximal_sample())),
        (7, PnmSubtype::ArbitraryMap) => head.as_arbitrary().is_some_and(|b| (b.width, b.height, b.maxval) == (f.w, f.h, head.maximal_sample()) && b.depth == f.color.channel_count() as u32),
        _ => false,
    };
    check!(c, ok && head.subtype() == st && (head.width(), head.height()) == (f.w, f.h), "pnm header", "{what}: {st:?} {}x{} {}", head.width(), head.height(), head.maximal_sample());
    check!(c, st.magic_constant() == &f.bytes[..2] && enc(st.sample_encoding()), "pnm header", "{what}: magic {:?} {:?}", st.magic_constant(), st.sample_encoding());
    let views = [head.as_bitmap().is_some(), head.as_graymap().is_some(), head.as_pixmap().is_some(), head.as_arbitrary().is_some()];
    check!(c, views.iter().filter(|v| **v).count() == 1, "pnm header", "{what}: {views:?}");
    let mut again = vec![];
    head.write(&mut again).unwrap();
    again.extend_from_slice(&tail);
    let get = |b: &[u8]| image::load_from_memory_with_format(b, image::ImageFormat::Pnm).ok();
    if let (Some(a), b) = (get(&f.bytes), get(&again)) {
        check!(c, b.as_ref() == Some(&a), "pnm header written back", "{what}: {:?}", String::from_utf8_lossy(&again[..again.len().min(80)]));
        c.count("PNM headers written back", 1);
    }
}

/// Valid HDR files mean the same to the lenient and the strict decoder.
fn hdr_lenient(c: &mut Case, f: &FileCase) {
    use image::codecs::hdr::HdrDecoder;
    let get = |d: image::ImageResult<HdrDecoder<_>>| d.and_then(|d| Ok((d.metadata(), dec::read(d)?))).map_err(|e| kind(&e));
    let strict = catch(|| get(HdrDecoder::new(std::io::Cursor::new(&f.bytes[..]))));
    let lenient = catch(|| get(HdrDecoder::new_nonstrict(std::io::Cursor::new(&f.bytes[..]))));
    if let (Ok(Ok((m, p))), l) = (&strict, &lenient) {
        let same = matches!(l, Ok(Ok((n, q))) if (m.width, m.height) == (n.width, n.height) && p == q);
        check!(c, same, "hdr lenient decoder", "{} {}x{}", f.variant, f.w, f.h);
        c.count("HDR files read leniently as well", 1);
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("files made by independent writers of every format (own coders, format specification as oracle), random variants and content; the decoded size, colour type and every sample are compared with what the file says");
    ctx.assume("GIF and WebP streams inside containers and EXR files use the codec crates' writers where noted in files/*.rs; floating point tolerance for lossy transforms is stated per writer");
    let only = std::env::var("VH_WRITER").unwrap_or_default();
    for (name, gen) in writers() {
        if !only.is_empty() && only != name {
            continue;
        }
        let (q, t) = match name {
            "avif" => (1500, 40_000),
            "exr" => (1500, 30_000),
            "webp" | "png" => (4000, 80_000),
            "ico" => (3000, 60_000),
            _ => (6000, 150_000),
        };
        let gen = if name == "avif" { vh::files::avif::gen } else { gen };
        ctx.section(name, q, t, |c| {
            let mut r: Rng = c.rng.clone();
            let f = gen(&mut r);
            one(c, name, &f);
            match name {
                "pnm" => pnm_header(c, &f),
                "hdr" => hdr_lenient(c, &f),
                _ => {}
            }
        });
    }
    ctx.require("pixels compared", 1_000_000);
}
