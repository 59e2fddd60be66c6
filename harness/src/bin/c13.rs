//! C13: embedded metadata is carried exactly and never alters pixels.
use image::metadata::Orientation;
use image::{ColorType, DynamicImage, ExtendedColorType, ImageDecoder, ImageEncoder, ImageFormat, ImageResult};
use std::io::Cursor;
use vh::dec::{self, kind, Decoded};
use vh::files::{FileCase, WRITERS};
use vh::{catch, check, enc, gen, hash_bytes, with_decoder, Case, Ctx, Rng};

vh::property_main!("C13");

/// Orientation as reported, by its Exif value.
fn exif_value(o: Orientation) -> u8 {
    match o {
        Orientation::NoTransforms => 1,
        Orientation::FlipHorizontal => 2,
        Orientation::Rotate180 => 3,
        Orientation::FlipVertical => 4,
        Orientation::Rotate90FlipH => 5,
        Orientation::Rotate90 => 6,
        Orientation::Rotate270FlipH => 7,
        Orientation::Rotate270 => 8,
    }
}

/// All answers of a decoder, asked in the order given by `plan`.
#[derive(Clone, PartialEq, Debug)]
struct Answers {
    icc: Vec<Result<Option<u64>, String>>,
    exif: Vec<Result<Option<u64>, String>>,
    orientation: Vec<Result<u8, String>>,
    img: Result<Option<Decoded>, String>,
}
fn h(v: Option<Vec<u8>>) -> Option<u64> {
    v.map(|v| hash_bytes(&v))
}
fn ask<D: ImageDecoder>(mut d: D, plan: &[u8]) -> Answers {
    let mut a = Answers { icc: vec![], exif: vec![], orientation: vec![], img: Ok(None) };
    for p in plan {
        match p {
            0 => a.icc.push(d.icc_profile().map(h).map_err(|e| kind(&e))),
            1 => a.exif.push(d.exif_metadata().map(h).map_err(|e| kind(&e))),
            2 => a.orientation.push(d.orientation().map(exif_value).map_err(|e| kind(&e))),
            _ => {
                let _ = d.set_limits(image::Limits::default());
            }
        }
    }
    a.img = dec::read(d).map_err(|e| kind(&e));
    a
}
/// Same, through the decoder itself, a box and a box of a box.
fn ask_via(fmt: ImageFormat, b: &[u8], how: u8, plan: &[u8]) -> ImageResult<Answers> {
    Ok(match how {
        0 => with_decoder!(fmt, Cursor::new(b), |d| ask(d?, plan)),
        1 => ask(dec::boxed(fmt, b)?, plan),
        2 => ask(Box::new(dec::boxed(fmt, b)?) as Box<dyn ImageDecoder + '_>, plan),
        // by the format found in the data
        _ => ask(image::ImageReader::with_format(Cursor::new(b), fmt).into_decoder()?, plan),
    })
}
fn plan(r: &mut Rng) -> Vec<u8> {
    let n = r.range(1, 7);
    (0..n).map(|_| r.below(4) as u8).collect()
}

fn judge(c: &mut Case, sig: &str, what: &str, got: Result<ImageResult<Answers>, vh::PanicInfo>, icc: Option<Option<u64>>, exif: Option<Option<u64>>, orientation: Option<u8>, img: Option<&Decoded>, blob: &[u8]) {
    let sig = |k: &str| format!("{sig}: {k}");
    let a = match got {
        Err(p) => return c.fail_blob(&sig("panics"), format!("{what}: {p}"), Some(blob)),
        Ok(Err(e)) => return c.fail_blob(&sig("refused"), format!("{what}: {e}"), Some(blob)),
        Ok(Ok(a)) => a,
    };
    if let Some(want) = icc {
        for g in &a.icc {
            c.count("profiles compared", want.is_some() as u64);
            if *g != Ok(want) {
                return c.fail_blob(&sig("profile"), format!("{what}: {g:?}, expected {want:?}"), Some(blob));
            }
        }
    }
    if let Some(want) = exif {
        for g in &a.exif {
            c.count("exif blocks compared", want.is_some() as u64);
            if *g != Ok(want) {
                return c.fail_blob(&sig("exif"), format!("{what}: {g:?}, expected {want:?}"), Some(blob));
            }
        }
    }
    if let Some(want) = orientation {
        for g in &a.orientation {
            c.count("orientations compared", 1);
            if *g != Ok(want) {
                return c.fail_blob(&sig("orientation"), format!("{what}: {g:?}, stored {want}"), Some(blob));
            }
        }
    }
    if let Some(want) = img {
        match &a.img {
            Ok(Some(d)) => {
                c.count("images compared", 1);
                check!(c, d == want, &sig("pixels"), "{what}: {d:?}, without the metadata {want:?}");
            }
            Ok(None) => {}
            Err(e) => c.fail_blob(&sig("no pixels"), format!("{what}: {e}"), Some(blob)),
        }
    }
}

fn profile(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(4) {
        0 => vec![r.u8(); n],
        1 => (0..n).map(|i| (i / 7) as u8).collect(),
        // looks like markers and chunks
        2 => b"ICC_PROFILE\0\x01\x01\xff\xd9\xff\xdaIENDiCCPEXIF\0".iter().copied().cycle().take(n).collect(),
        _ => r.bytes(n),
    }
}

/// Files with a metadata block added by hand; `None` when not decodable.
fn insert_jpeg(b: &[u8], segs: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut o = b[..2].to_vec();
    for (m, d) in segs {
        o.extend([0xff, *m]);
        o.extend(((d.len() + 2) as u16).to_be_bytes());
        o.extend(d);
    }
    o.extend(&b[2..]);
    o
}
fn riff(o: &mut Vec<u8>, id: &[u8; 4], d: &[u8]) {
    o.extend(id);
    o.extend((d.len() as u32).to_le_bytes());
    o.extend(d);
    if d.len() % 2 == 1 {
        o.push(0);
    }
}
/// Extended WebP around the `VP8L` chunk of a simple file.
fn insert_webp(b: &[u8], w: u32, hh: u32, icc: Option<&[u8]>, exif: Option<&[u8]>, r: &mut Rng) -> Vec<u8> {
    let flags = 16 | if icc.is_some() { 32 } else { 0 } | if exif.is_some() { 8 } else { 0 };
    let mut body = b"WEBP".to_vec();
    riff(&mut body, b"VP8X", &vh::files::webp::vp8x(flags, w, hh));
    if let Some(p) = icc {
        riff(&mut body, b"ICCP", p);
    }
    body.extend(&b[12..]);
    let unknown = r.chance(1, 4);
    if unknown {
        riff(&mut body, b"zzzz", &r.bytes(5));
    }
    if let Some(p) = exif {
        riff(&mut body, b"EXIF", p);
    }
    let mut o = b"RIFF".to_vec();
    o.extend((body.len() as u32).to_le_bytes());
    o.extend(body);
    o
}

/// An Exif block (TIFF structure) and the orientation it stores; `None`: not
/// well-formed, any answer will do.
fn exif_block(r: &mut Rng) -> (Vec<u8>, Option<u8>, &'static str) {
    let be = r.bool();
    let p16 = |o: &mut Vec<u8>, v: u16| o.extend(if be { v.to_be_bytes() } else { v.to_le_bytes() });
    let p32 = |o: &mut Vec<u8>, v: u32| o.extend(if be { v.to_be_bytes() } else { v.to_le_bytes() });
    let mut o = if be { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
    let gap = if r.chance(1, 8) { r.below(3000) } else { r.below(5) } as usize;
    p32(&mut o, 8 + gap as u32);
    o.extend(r.bytes(gap));
    let n = match r.below(10) {
        0 => 0,
        1 => r.range(100, 600),
        _ => r.range(1, 9),
    } as usize;
    let at = r.below(n as u64 + 1) as usize; // == n: no orientation entry
    p16(&mut o, n as u16);
    let value = match r.below(6) {
        0 => r.u16(),
        1 => *r.pick(&[0u16, 9, 255, 256, 257, 259, 262, 264, 0x0300, 0x0600, 0xff06, 65535]),
        _ => r.range(1, 8) as u16,
    };
    let mut stored = 1;
    for i in 0..n {
        if i == at {
            stored = if (1..=8).contains(&value) { value as u8 } else { 1 };
            p16(&mut o, 0x112);
            p16(&mut o, 3);
            p32(&mut o, 1);
            p16(&mut o, value);
            // the unused half of the value field may hold anything
            let pad = if r.chance(1, 3) { r.u16() } else { 0 };
            p16(&mut o, pad);
        } else {
            // other tags, of every type, whose fields look like orientations
            let tag = *r.pick(&[0x100u16, 0x10f, 0x110, 0x111, 0x113, 0x11a, 0x128, 0x132, 0x213, 0x1201, 0x8769, 0x0012]);
            p16(&mut o, tag);
            let ty = r.range(1, 12) as u16;
            p16(&mut o, ty);
            let cnt = if r.bool() { 1 } else { r.u32() };
            p32(&mut o, cnt);
            let v = r.range(1, 8) as u16;
            p16(&mut o, v);
            let v = r.range(1, 8) as u16;
            p16(&mut o, v);
        }
    }
    p32(&mut o, 0);
    // a second directory, of a thumbnail, with an orientation of its own
    if r.chance(1, 3) {
        p16(&mut o, 1);
        p16(&mut o, 0x112);
        p16(&mut o, 3);
        p32(&mut o, 1);
        p16(&mut o, 8);
        p16(&mut o, 0);
        p32(&mut o, 0);
    }
    let k = r.below(60) as usize;
    o.extend(r.bytes(k));
    let mut name = if be { "big endian" } else { "little endian" };
    let mut known = Some(stored);
    if r.chance(1, 3) {
        name = "damaged";
        known = None;
        match r.below(7) {
            0 => {
                let k = r.below(o.len() as u64) as usize;
                o.truncate(k);
            }
            1 => o[4..8].copy_from_slice(&[0xff; 4]),
            2 => {
                let v = r.bytes(4);
                o[4..8].copy_from_slice(&v);
            }
            3 => o[0] = r.u8(),
            4 => {
                let p = o.len().min(8 + gap);
                o[p] = 0xff;
                o[p + 1] = 0xff;
            }
            5 => {
                let k = o.len() as u32 - r.below(3) as u32;
                o[4..8].copy_from_slice(&if be { k.to_be_bytes() } else { k.to_le_bytes() });
            }
            _ => {
                for _ in 0..r.range(1, 6) {
                    let i = r.below(o.len() as u64) as usize;
                    o[i] = r.u8();
                }
            }
        }
    }
    (o, known, name)
}

/// Insert a `colr prof` property into the file of the crate's AVIF encoder.
fn avif_icc(b: &[u8], icc: &[u8]) -> Option<Vec<u8>> {
    let find = |hay: &[u8], key: &[u8]| hay.windows(key.len()).position(|w| w == key);
    let be32 = |b: &[u8], p: usize| u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
    let meta = find(b, b"meta")? - 4;
    let iprp = find(b, b"iprp")? - 4;
    let ipco = find(b, b"ipco")? - 4;
    let ipma = find(b, b"ipma")? - 4;
    let iloc = find(b, b"iloc")? - 4;
    let n = {
        let (mut p, end, mut n) = (ipco + 8, ipco + be32(b, ipco), 0u8);
        while p < end {
            p += be32(b, p);
            n += 1;
        }
        n
    };
    let mut prop = ((12 + icc.len()) as u32).to_be_bytes().to_vec();
    prop.extend(b"colrprof");
    prop.extend(icc);
    // ipma: version 0, flags 0; entry_count 32, item_ID 16, count 8, ...
    (b[ipma + 8..ipma + 12] == [0; 4]).then_some(())?;
    let mut ma = b[ipma..ipma + be32(b, ipma)].to_vec();
    let cnt = ma[18];
    ma[18] = cnt + 1;
    ma.insert(19 + cnt as usize, n + 1);
    let l = ma.len() as u32;
    ma[..4].copy_from_slice(&l.to_be_bytes());
    let delta = prop.len() + 1;
    let mut o = b[..ipma].to_vec();
    let end = ipco + be32(b, ipco);
    o.splice(end..end, prop.iter().copied());
    o.extend(&ma);
    o.extend(&b[ipma + be32(b, ipma)..]);
    for (p, d) in [(meta, delta), (iprp, delta), (ipco, delta - 1)] {
        let v = (be32(b, p) + d) as u32;
        o[p..p + 4].copy_from_slice(&v.to_be_bytes());
    }
    // iloc comes before iprp: one extent per item; the offsets move
    (iloc < iprp).then_some(())?;
    let (ver, sz) = (b[iloc + 8], b[iloc + 12]);
    (ver == 0 && sz >> 4 == 4 && sz & 15 == 4 && b[iloc + 13] >> 4 == 0).then_some(())?;
    let items = u16::from_be_bytes([b[iloc + 14], b[iloc + 15]]) as usize;
    let mut p = iloc + 16;
    for _ in 0..items {
        let ext = u16::from_be_bytes([b[p + 4], b[p + 5]]) as usize;
        p += 6;
        for _ in 0..ext {
            let v = (be32(b, p) + delta) as u32;
            o[p..p + 4].copy_from_slice(&v.to_be_bytes());
            p += 8;
        }
    }
    Some(o)
}

/// A decoder with nothing but an Exif block.
struct Mine(Vec<u8>);
impl ImageDecoder for Mine {
    fn dimensions(&self) -> (u32, u32) {
        (1, 1)
    }
    fn color_type(&self) -> ColorType {
        ColorType::L8
    }
    fn exif_metadata(&mut self) -> ImageResult<Option<Vec<u8>>> {
        Ok(Some(self.0.clone()))
    }
    fn read_image(self, buf: &mut [u8]) -> ImageResult<()> {
        buf.fill(7);
        Ok(())
    }
    fn read_image_boxed(self: Box<Self>, buf: &mut [u8]) -> ImageResult<()> {
        (*self).read_image(buf)
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("profiles set on encoders come back byte for byte from the decoder, at every size class and access path; blocks inserted by an independent writer likewise; orientation is compared with the value written; pixels are compared with those of the same file without metadata");
    ctx.assume("orientation entries of another type or count than one SHORT, and Exif blocks that are not well formed, have no defined meaning: only panics and disagreement between access paths are judged");

    // ---- encoders that carry profiles
    let vs = enc::variants();
    ctx.section("encoder profiles", 4000, 60_000, |c| {
        let pool: Vec<_> = vs.iter().filter(|v| v.icc && !v.slow).collect();
        let v = *c.rng.pick(&pool);
        let cols: Vec<ColorType> = gen::COLORS.iter().copied().filter(|x| enc::accepts(v, *x)).collect();
        let color = *c.rng.pick(&cols);
        let (w, hh) = (c.rng.r32(1, 12), c.rng.r32(1, 9));
        let img = gen::dynamic(&mut c.rng, color, w, hh);
        let n = match c.rng.below(12) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 | 4 => 65519 * c.rng.range(1, 3) as usize + c.rng.range(0, 4) as usize - 2,
            5 => c.rng.range(65_500, 65_540) as usize,
            6 => c.rng.range(1, 200_000) as usize,
            _ => c.rng.range(1, 4000) as usize,
        };
        let icc = profile(&mut c.rng, n);
        c.at(&v.name);
        let ext: ExtendedColorType = color.into();
        let bytes = |p: Option<Vec<u8>>| {
            let mut o = Cursor::new(vec![]);
            (v.run)(&mut o, img.as_bytes(), w, hh, ext, p).map(|_| o.into_inner())
        };
        let what = format!("{} {color:?} {w}x{hh} with a profile of {n} bytes", v.name);
        c.eval(hash_bytes(&icc) ^ hash_bytes(img.as_bytes()));
        c.evals_str(&v.name);
        let sig = format!("{:?} encoder profile", v.fmt);
        let plain = match catch(|| bytes(None)) {
            Ok(Ok(b)) => b,
            e => return c.fail(&sig, format!("{what}: plain encoding gives {e:?}")),
        };
        let rich = match catch(|| bytes(Some(icc.clone()))) {
            Ok(Ok(b)) => b,
            e => return c.fail(&sig, format!("{what}: {:?}", e.map(|r| r.map(|b| b.len())))),
        };
        let Ok(Some(want)) = dec::decode(v.fmt, &plain) else {
            return c.fail(&sig, format!("{what}: plain file not decodable"));
        };
        let want_icc = (n > 0).then(|| hash_bytes(&icc));
        for how in 0..4 {
            let mut p = plan(&mut c.rng);
            p.push(0);
            let got = catch(|| ask_via(v.fmt, &rich, how, &p));
            judge(c, &sig, &format!("{what} (access {how}, {p:?})"), got, Some(want_icc), Some(None), Some(1), Some(&want), &rich);
        }
        let mut p = plan(&mut c.rng);
        p.push(0);
        let got = catch(|| ask_via(v.fmt, &plain, 0, &p));
        judge(c, &sig, &format!("{what}, without profile"), got, Some(None), Some(None), Some(1), Some(&want), &plain);
        c.sample(|| what);
    });

    // ---- very large profiles
    ctx.serial("large profiles", 9, 40, |c| {
        const CHUNK: usize = 65519;
        let sizes = [CHUNK * 254, CHUNK * 254 + 1, CHUNK * 255, CHUNK * 255 + 1, CHUNK * 253 + 77, 20_000_000, CHUNK * 128, CHUNK * 127 + 5, 1 << 20];
        let n = sizes[c.idx as usize % sizes.len()];
        let icc = c.rng.bytes(n);
        let img = gen::dynamic(&mut c.rng, ColorType::Rgb8, 3, 2);
        for name in ["jpeg", "png fast none", "webp"] {
            let v = vs.iter().find(|v| v.name == name).unwrap();
            c.at(name);
            c.eval(hash_bytes(name.as_bytes()) ^ n as u64);
            let what = format!("{name} with a profile of {n} bytes");
            let mut o = Cursor::new(vec![]);
            let r = catch(|| (v.run)(&mut o, img.as_bytes(), 3, 2, ExtendedColorType::Rgb8, Some(icc.clone())));
            let sig = format!("{:?} large profile", v.fmt);
            match r {
                Err(p) => c.fail(&sig, format!("{what}: {p}")),
                Ok(Err(e)) => {
                    // as many chunks as a byte can count
                    c.count("profiles refused", 1);
                    check!(c, v.fmt == ImageFormat::Jpeg && n > CHUNK * 255, &sig, "{what}: {e}");
                }
                Ok(Ok(())) => {
                    let o = o.into_inner();
                    check!(c, v.fmt != ImageFormat::Jpeg || n <= CHUNK * 255, &sig, "{what}: accepted");
                    let sig = if v.fmt == ImageFormat::Jpeg && n > CHUNK * 254 { "Jpeg profile of 255 chunks".to_string() } else { sig };
                    let got = catch(|| with_decoder!(v.fmt, Cursor::new(&o[..]), |d| d?.icc_profile()));
                    match got {
                        Ok(Ok(Some(g))) => {
                            c.count("profiles compared", 1);
                            check!(c, g == icc, &sig, "{what}: {} bytes come back", g.len());
                        }
                        other => c.fail(&sig, format!("{what}: {:?}", other.map(|r| r.map(|o| o.map(|b| b.len()))))),
                    }
                }
            }
        }
    });

    // ---- encoders without support say so
    ctx.section("encoders without profiles", 600, 6000, |c| {
        use image::codecs as k;
        let (w, hh) = (c.rng.r32(1, 6), c.rng.r32(1, 6));
        let n = c.rng.below(300) as usize;
        let icc = c.rng.bytes(n);
        macro_rules! one {
            ($name:literal, $color:ident, |$o:ident| $e:expr) => {{
                let img = gen::dynamic(&mut c.rng, ColorType::$color, w, hh);
                let mk = |set: bool| {
                    let mut o = Cursor::new(vec![]);
                    let mut refused = None;
                    let r = {
                        let $o = &mut o;
                        let mut e = $e;
                        if set {
                            refused = Some(e.set_icc_profile(icc.clone()).is_err());
                        }
                        e.write_image(img.as_bytes(), w, hh, ExtendedColorType::$color)
                    };
                    (r.is_ok(), refused, o.into_inner())
                };
                c.eval(hash_bytes(img.as_bytes()) ^ hash_bytes($name.as_bytes()));
                c.count("refusals checked", 1);
                match catch(|| (mk(false), mk(true))) {
                    Ok(((ok, _, a), (ok2, refused, b))) => {
                        check!(c, refused == Some(true), concat!($name, " takes a profile"), "not refused");
                        check!(c, ok && ok2 && a == b, concat!($name, " after a refused profile"), "{ok} {ok2} {} {} bytes", a.len(), b.len());
                    }
                    Err(p) => c.fail(concat!($name, " refusing a profile"), format!("{p}")),
                }
            }};
        }
        match c.rng.below(9) {
            0 => one!("bmp", Rgb8, |o| k::bmp::BmpEncoder::new(o)),
            1 => one!("tiff", Rgb8, |o| k::tiff::TiffEncoder::new(o)),
            2 => one!("tga", Rgb8, |o| k::tga::TgaEncoder::new(o)),
            3 => one!("pnm", Rgb8, |o| k::pnm::PnmEncoder::new(o)),
            4 => one!("farbfeld", Rgba16, |o| k::farbfeld::FarbfeldEncoder::new(o)),
            5 => one!("qoi", Rgb8, |o| k::qoi::QoiEncoder::new(o)),
            6 => one!("ico", Rgba8, |o| k::ico::IcoEncoder::new(o)),
            7 => one!("exr", Rgb32F, |o| k::openexr::OpenExrEncoder::new(o)),
            _ => one!("hdr", Rgb32F, |o| k::hdr::HdrEncoder::new(o)),
        }
    });

    // ---- files of independent writers
    ctx.section("files", 4000, 80_000, |c| {
        let names = ["jpeg", "png", "webp", "tiff"];
        let name = *c.rng.pick(&names);
        let g = WRITERS.iter().find(|x| x.0 == name).unwrap().1;
        let f: FileCase = g(&mut c.rng);
        c.at(&f.variant);
        let how = c.rng.below(4) as u8;
        let p = plan(&mut c.rng);
        c.eval(hash_bytes(&f.bytes) ^ how as u64);
        c.evals_str(&f.variant);
        let what = format!("{} (access {how}, {p:?})", f.variant);
        let got = catch(|| ask_via(f.fmt, &f.bytes, how, &p));
        if let Ok(Ok(Answers { img: Ok(Some(d)), .. })) = &got {
            if let Some(m) = f.compare(&d.px) {
                c.fail_blob(&format!("{name} file: pixels"), format!("{what}: {m}"), Some(&f.bytes));
            }
        }
        let exif = (name != "tiff").then(|| h(f.exif.clone()));
        judge(c, &format!("{name} file"), &what, got, Some(h(f.icc.clone())), exif, Some(f.orientation), None, &f.bytes);
    });

    // ---- Exif blocks
    ctx.section("exif blocks", 12_000, 200_000, |c| {
        let (b, stored, kindname) = exif_block(&mut c.rng);
        let (w, hh) = (c.rng.r32(1, 9), c.rng.r32(1, 9));
        let img = gen::dynamic(&mut c.rng, ColorType::Rgb8, w, hh);
        let how = c.rng.below(4) as u8;
        let p = plan(&mut c.rng);
        let what = format!("{kindname} block of {} bytes (access {how}, {p:?})", b.len());
        c.eval(hash_bytes(&b) ^ how as u64);
        c.evals_str(kindname);
        match c.rng.below(3) {
            0 => {
                let mut o = Cursor::new(vec![]);
                image::codecs::jpeg::JpegEncoder::new(&mut o).encode_image(&img).unwrap();
                let plain = o.into_inner();
                let want = dec::decode(ImageFormat::Jpeg, &plain).unwrap().unwrap();
                let mut segs = vec![];
                let xmp = (0xe1, b"http://ns.adobe.com/xap/1.0/\0<x:xmpmeta/>".to_vec());
                if c.rng.chance(1, 4) {
                    segs.push(xmp.clone());
                }
                let mut d = b"Exif\0\0".to_vec();
                d.extend(&b);
                let empty = b.is_empty();
                segs.push((0xe1, d));
                if c.rng.chance(1, 4) {
                    segs.push(xmp);
                }
                let f = insert_jpeg(&plain, &segs);
                let got = catch(|| ask_via(ImageFormat::Jpeg, &f, how, &p));
                judge(c, "jpeg exif", &what, got, Some(None), (!empty).then(|| Some(hash_bytes(&b))), stored, Some(&want), &f);
                let same: Vec<_> = (0..3).map(|how| catch(|| ask_via(ImageFormat::Jpeg, &f, how, &[2]).map(|a| a.orientation))).map(|r| format!("{r:?}")).collect();
                check!(c, same.iter().all(|s| *s == same[0]), "jpeg exif: access paths disagree", "{what}: {same:?}");
            }
            1 => {
                let mut o = Cursor::new(vec![]);
                image::codecs::webp::WebPEncoder::new_lossless(&mut o).encode(img.as_bytes(), w, hh, ExtendedColorType::Rgb8).unwrap();
                let plain = o.into_inner();
                let icc = c.rng.bool().then(|| vec![7u8; 33]);
                let f = insert_webp(&plain, w, hh, icc.as_deref(), Some(&b), &mut c.rng);
                let got = catch(|| ask_via(ImageFormat::WebP, &f, how, &p));
                judge(c, "webp exif", &what, got, Some(icc.map(|v| hash_bytes(&v))), Some(Some(hash_bytes(&b))), stored, None, &f);
                // the header announces an alpha channel here
                let got = dec::decode(ImageFormat::WebP, &f).unwrap().unwrap();
                let rgba = img.to_rgba8().into_raw();
                check!(c, got.px == rgba || got.px == img.as_bytes(), "webp exif: pixels", "{what}");
                let same: Vec<_> = (0..3).map(|how| catch(|| ask_via(ImageFormat::WebP, &f, how, &[2]).map(|a| a.orientation))).map(|r| format!("{r:?}")).collect();
                check!(c, same.iter().all(|s| *s == same[0]), "webp exif: access paths disagree", "{what}: {same:?}");
            }
            _ => {
                // the provided method
                let f = || {
                    let mut d = Mine(b.clone());
                    let direct = exif_value(d.orientation()?);
                    let mut d: Box<dyn ImageDecoder> = Box::new(Mine(b.clone()));
                    let boxed = exif_value(d.orientation()?);
                    let dynamic = DynamicImage::from_decoder(d)?;
                    ImageResult::Ok((direct, boxed, dynamic.as_bytes() == [7]))
                };
                match catch(f) {
                    Ok(Ok((a, b, same))) => {
                        c.count("orientations compared", 1);
                        check!(c, same && a == b && stored.is_none_or(|s| s == a), "provided orientation", "{what}: {a} and {b}, stored {stored:?}");
                    }
                    Ok(Err(e)) => c.fail("provided orientation", format!("{what}: {e}")),
                    Err(p) => c.fail("provided orientation", format!("{what}: {p}")),
                }
            }
        }
        c.sample(|| what);
    });

    // ---- damaged profiles
    ctx.section("damaged metadata", 6000, 100_000, |c| {
        let names = ["jpeg", "png", "webp", "tiff"];
        let name = names[c.idx as usize % 4];
        let r = &mut c.rng;
        let (mut f, mut want) = (vec![], None);
        let mut fmt = ImageFormat::Jpeg;
        match name {
            "jpeg" => {
                let img = gen::dynamic(r, ColorType::L8, 5, 4);
                let mut o = Cursor::new(vec![]);
                image::codecs::jpeg::JpegEncoder::new(&mut o).encode_image(&img).unwrap();
                let plain = o.into_inner();
                want = dec::decode(fmt, &plain).unwrap();
                let n = if r.chance(1, 10) { r.range(200, 300) } else { r.range(1, 7) };
                let mut segs = vec![];
                for i in 0..n {
                    let mut d = if r.chance(1, 10) { b"ICC_PROFILF\0".to_vec() } else { b"ICC_PROFILE\0".to_vec() };
                    d.push(match r.below(5) {
                        0 => r.u8(),
                        1 => i as u8,
                        _ => (i as u8).wrapping_add(1),
                    });
                    d.push(if r.chance(1, 5) { r.u8() } else { n as u8 });
                    let k = r.below(30) as usize;
                    d.extend(r.bytes(k));
                    let k = if r.chance(1, 5) { r.below(d.len() as u64 + 1) as usize } else { d.len() };
                    d.truncate(k);
                    segs.push((0xe2, d));
                    if r.chance(1, 4) {
                        let k = r.below(14) as usize;
                        let mut d = b"Exif\0\0II*\0\x08\0\0\0"[..k].to_vec();
                        d.extend(r.bytes(2));
                        segs.push((0xe1, d));
                    }
                }
                f = insert_jpeg(&plain, &segs);
            }
            "webp" => {
                fmt = ImageFormat::WebP;
                let img = gen::dynamic(r, ColorType::Rgba8, 5, 4);
                let mut o = Cursor::new(vec![]);
                image::codecs::webp::WebPEncoder::new_lossless(&mut o).encode(img.as_bytes(), 5, 4, ExtendedColorType::Rgba8).unwrap();
                let k = r.below(40) as usize;
                let (a, b) = (r.bytes(k), r.bytes(k / 2));
                f = insert_webp(&o.into_inner(), 5, 4, Some(&a), Some(&b), r);
                // length fields and names of the metadata chunks
                for _ in 0..r.range(1, 2) {
                    let key: &[u8] = if r.bool() { b"ICCP" } else { b"EXIF" };
                    if let Some(p) = f.windows(4).rposition(|w| w == key) {
                        let q = p + r.below(8) as usize;
                        f[q] = if r.bool() { r.u8() } else { f[q].wrapping_add(1) };
                    }
                }
                want = Some(Decoded { w: 5, h: 4, color: ColorType::Rgba8, px: img.into_bytes() });
            }
            _ => {
                fmt = if name == "png" { ImageFormat::Png } else { ImageFormat::Tiff };
                let g = WRITERS.iter().find(|x| x.0 == name).unwrap().1;
                for _ in 0..20 {
                    let c = g(r);
                    if let (Some(_), true) = (&c.icc, (c.w * c.h) < 600) {
                        f = c.bytes.clone();
                        want = dec::decode(fmt, &f).ok().flatten();
                        break;
                    }
                }
                if f.is_empty() {
                    return;
                }
                let p = if name == "png" {
                    f.windows(4).position(|w| w == b"iCCP").unwrap()
                } else {
                    let (a, b) = (34675u16.to_le_bytes(), 34675u16.to_be_bytes());
                    let (a, b) = ([a[0], a[1], 7, 0], [b[0], b[1], 0, 7]);
                    f.windows(4).rposition(|w| w == a || w == b).unwrap()
                };
                if name == "png" {
                    let len = u32::from_be_bytes(f[p - 4..p].try_into().unwrap()) as usize;
                    for _ in 0..r.range(1, 5) {
                        let q = p + 4 + r.below(len as u64) as usize;
                        f[q] = r.u8();
                    }
                    vh::mutate::fix_png(&mut f, p - 4);
                } else {
                    // type, count and offset of the entry
                    for _ in 0..r.range(1, 3) {
                        let q = p + 2 + r.below(10) as usize;
                        f[q] = if r.bool() { r.u8() } else { r.below(14) as u8 };
                    }
                }
            }
        }
        c.at(name);
        let how = c.rng.below(4) as u8;
        let p = plan(&mut c.rng);
        c.eval(hash_bytes(&f) ^ how as u64);
        c.evals_str(name);
        let what = format!("{name} with damaged metadata (access {how}, {p:?})");
        let got = catch(|| {
            let mut l = ask_via(fmt, &f, how, &p)?;
            l.icc.clear();
            ImageResult::Ok(l)
        });
        match got {
            Err(p) => c.fail_blob(&format!("{name} damaged metadata: panics"), format!("{what}: {p}"), Some(&f)),
            Ok(Ok(Answers { img: Ok(Some(d)), .. })) => {
                c.count("images with damaged metadata decoded", 1);
                let ok = want.as_ref().is_none_or(|w| *w == d);
                if !ok {
                    c.fail_blob(&format!("{name} damaged metadata: pixels"), format!("{what}: {d:?} instead of {want:?}"), Some(&f));
                }
            }
            Ok(_) => c.count("files with damaged metadata refused", 1),
        }
    });

    // ---- AVIF
    let base: Vec<(Vec<u8>, Decoded)> = {
        let mut v = vec![];
        for (w, hh) in [(16u32, 16u32), (9, 5)] {
            let img = DynamicImage::ImageRgba8(image::RgbaImage::from_fn(w, hh, |x, y| image::Rgba([(x * 15) as u8, (y * 20) as u8, 90, 200])));
            let mut o = Cursor::new(vec![]);
            if image::codecs::avif::AvifEncoder::new_with_speed_quality(&mut o, 10, 60).with_num_threads(Some(1)).write_image(img.as_bytes(), w, hh, ExtendedColorType::Rgba8).is_ok() {
                let o = o.into_inner();
                if let Ok(Some(d)) = dec::decode(ImageFormat::Avif, &o) {
                    v.push((o, d));
                }
            }
        }
        v
    };
    ctx.section("avif profiles", 150, 3000, |c| {
        let Some((b, want)) = base.get(c.idx as usize % 2) else { return };
        let n = match c.rng.below(4) {
            0 => 1,
            1 => c.rng.range(60_000, 70_000),
            _ => c.rng.range(2, 3000),
        } as usize;
        let icc = profile(&mut c.rng, n);
        let Some(f) = avif_icc(b, &icc) else {
            c.count("avif layouts not understood", 1);
            return;
        };
        c.eval(hash_bytes(&icc));
        let how = c.rng.below(4) as u8;
        let mut p = plan(&mut c.rng);
        p.push(0);
        let what = format!("avif with a profile of {n} bytes (access {how}, {p:?})");
        let got = catch(|| ask_via(ImageFormat::Avif, &f, how, &p));
        c.count("avif profiles", 1);
        judge(c, "avif profile", &what, got, Some(Some(hash_bytes(&icc))), None, Some(1), Some(want), &f);
    });

    // ---- conversions
    ctx.section("orientation values", 256, 256, |c| {
        let v = c.idx as u8;
        c.eval(v as u64);
        let o = Orientation::from_exif(v);
        check!(c, o.is_some() == (1..=8).contains(&v), "orientation values", "{v}: {o:?}");
        if let Some(o) = o {
            check!(c, exif_value(o) == v && o.to_exif() == v, "orientation values", "{v}: {o:?} and back {}", o.to_exif());
        }
    });
    ctx.require("profiles compared", 5000);
    ctx.require("exif blocks compared", 500);
    ctx.require("orientations compared", 5000);
    ctx.require("images with damaged metadata decoded", 500);
    ctx.require("refusals checked", 200);
}
