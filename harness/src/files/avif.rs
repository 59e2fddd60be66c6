//! AVIF: container written here, the AV1 data by rav1e. The planes are read
//! back by dav1d, which `image` uses too; what they mean as RGB is computed
//! here from ITU-T H.273.
use super::{be16, be32, FileCase};
use crate::Rng;
use dav1d::{PixelLayout, PlanarImageComponent as Plane};
use image::{ColorType, ImageFormat};
use rav1e::prelude::*;
use std::sync::OnceLock;

/// Samples of up to three planes.
pub struct Planes {
    pub w: usize,
    pub h: usize,
    pub depth: u32,
    /// horizontal and vertical subsampling; no chroma at all
    pub ss: (usize, usize),
    pub mono: bool,
    pub p: [Vec<u16>; 3],
}
impl Planes {
    fn cdims(&self) -> (usize, usize) {
        ((self.w + self.ss.0) >> self.ss.0, (self.h + self.ss.1) >> self.ss.1)
    }
}

/// Matrix coefficients, and what they are: K_R and K_B of H.273 table 4.
pub const MATRICES: [(u8, &str, f64, f64); 7] = [
    (0, "identity", 0.0, 0.0),
    (1, "bt709", 0.2126, 0.0722),
    (4, "fcc", 0.30, 0.11),
    (5, "bt470bg", 0.299, 0.114),
    (6, "bt601", 0.299, 0.114),
    (7, "smpte240", 0.212, 0.087),
    (9, "bt2020", 0.2627, 0.0593),
];

fn matrix(n: u8) -> MatrixCoefficients {
    use MatrixCoefficients as M;
    match n {
        0 => M::Identity,
        1 => M::BT709,
        4 => M::FCC,
        5 => M::BT470BG,
        6 => M::BT601,
        7 => M::SMPTE240,
        _ => M::BT2020NCL,
    }
}

fn plane_content(r: &mut Rng, w: usize, h: usize, max: u32) -> Vec<u16> {
    let style = r.below(4);
    let (a, b) = (r.below(max as u64 + 1) as i64, r.below(max as u64 + 1) as i64);
    let (bw, bh) = (r.range(1, 12) as usize, r.range(1, 12) as usize);
    let cells: Vec<i64> = (0..64).map(|_| *r.pick(&[0, max as i64, r_small(a), b, a])).collect();
    fn r_small(v: i64) -> i64 {
        v
    }
    (0..w * h)
        .map(|i| {
            let (x, y) = (i % w, i / w);
            let v = match style {
                0 => a,
                1 => a + (b - a) * (x + y) as i64 / (w + h) as i64,
                2 => cells[(x / bw + y / bh * 7) % 64],
                _ => r.below(max as u64 + 1) as i64,
            };
            v.clamp(0, max as i64) as u16
        })
        .collect()
}

fn encode<T: Pixel + From<u8> + 'static>(p: &Planes, m: u8, full: bool, q: usize, conv: fn(u16) -> T) -> Result<Vec<u8>, String> {
    let mut speed = SpeedSettings::from_preset(10);
    speed.multiref = false;
    speed.rdo_lookahead_frames = 1;
    speed.scene_detection_mode = SceneDetectionSpeed::None;
    let cfg = Config::new()
        .with_encoder_config(EncoderConfig {
            width: p.w,
            height: p.h,
            bit_depth: p.depth as usize,
            chroma_sampling: match (p.mono, p.ss) {
                (true, _) => ChromaSampling::Cs400,
                (_, (1, 1)) => ChromaSampling::Cs420,
                (_, (1, _)) => ChromaSampling::Cs422,
                _ => ChromaSampling::Cs444,
            },
            pixel_range: if full { PixelRange::Full } else { PixelRange::Limited },
            color_description: Some(ColorDescription {
                color_primaries: ColorPrimaries::BT709,
                transfer_characteristics: if m == 0 && full { TransferCharacteristics::SRGB } else { TransferCharacteristics::BT709 },
                matrix_coefficients: matrix(m),
            }),
            still_picture: true,
            low_latency: false,
            quantizer: q,
            min_quantizer: q as u8,
            bitrate: 0,
            min_key_frame_interval: 0,
            max_key_frame_interval: 0,
            speed_settings: speed,
            ..Default::default()
        })
        .with_threads(1);
    let mut ctx: Context<T> = cfg.new_context().map_err(|e| e.to_string())?;
    let mut f = ctx.new_frame();
    let (cw, _) = p.cdims();
    for k in 0..if p.mono { 1 } else { 3 } {
        let w = if k == 0 { p.w } else { cw };
        let mut sl = f.planes[k].mut_slice(Default::default());
        for (row, src) in sl.rows_iter_mut().zip(p.p[k].chunks_exact(w)) {
            for (d, s) in row.iter_mut().zip(src) {
                *d = conv(*s);
            }
        }
    }
    ctx.send_frame(f).map_err(|e| e.to_string())?;
    ctx.flush();
    let mut out = vec![];
    loop {
        match ctx.receive_packet() {
            Ok(mut k) => out.append(&mut k.data),
            Err(EncoderStatus::Encoded) => {}
            Err(EncoderStatus::LimitReached) => break,
            Err(e) => return Err(e.to_string()),
        }
    }
    Ok(out)
}
pub fn av1(p: &Planes, m: u8, full: bool, q: usize) -> Result<Vec<u8>, String> {
    if p.depth == 8 {
        encode::<u8>(p, m, full, q, |v| v as u8)
    } else {
        encode::<u16>(p, m, full, q, |v| v)
    }
}

/// The planes dav1d makes of the data.
pub fn planes(data: &[u8]) -> Result<Planes, String> {
    let mut d = dav1d::Decoder::new().map_err(|e| e.to_string())?;
    d.send_data(data.to_vec(), None, None, None).map_err(|e| e.to_string())?;
    let mut pic = Err("no picture".to_string());
    for _ in 0..100 {
        match d.get_picture() {
            Ok(p) => {
                pic = Ok(p);
                break;
            }
            Err(dav1d::Error::Again) => {
                let _ = d.send_pending_data();
            }
            Err(e) => return Err(e.to_string()),
        }
    }
    let pic = pic?;
    let (mono, ss) = match pic.pixel_layout() {
        PixelLayout::I400 => (true, (0, 0)),
        PixelLayout::I420 => (false, (1, 1)),
        PixelLayout::I422 => (false, (1, 0)),
        PixelLayout::I444 => (false, (0, 0)),
    };
    let mut out = Planes { w: pic.width() as usize, h: pic.height() as usize, depth: pic.bit_depth() as u32, ss, mono, p: Default::default() };
    let (cw, ch) = out.cdims();
    for (k, c) in [Plane::Y, Plane::U, Plane::V].into_iter().enumerate() {
        if mono && k > 0 {
            break;
        }
        let (w, h) = if k == 0 { (out.w, out.h) } else { (cw, ch) };
        let (pl, st) = (pic.plane(c), pic.stride(c) as usize);
        for y in 0..h {
            let row = &pl.as_ref()[y * st..];
            for x in 0..w {
                out.p[k].push(if out.depth == 8 { row[x] as u16 } else { u16::from_ne_bytes([row[2 * x], row[2 * x + 1]]) });
            }
        }
    }
    Ok(out)
}

/// RGBA of the planes, in units of the samples of a decoded image (8 bits, or
/// 16 bits for deeper files); each chroma sample covers its luma samples.
pub fn rgba(p: &Planes, m: u8, full: bool, alpha: Option<&Planes>) -> Vec<f64> {
    let (_, _, kr, kb) = *MATRICES.iter().find(|x| x.0 == m).unwrap();
    let one = ((1u32 << p.depth) - 1) as f64;
    let unit = (1u32 << (p.depth - 8)) as f64;
    let (yb, yr, cr) = if full { (0.0, one, one) } else { (16.0 * unit, 219.0 * unit, 224.0 * unit) };
    let half = (1u32 << (p.depth - 1)) as f64;
    let out = if p.depth == 8 { 255.0 } else { 65535.0 };
    let (cw, _) = p.cdims();
    let mut v = Vec::with_capacity(p.w * p.h * 4);
    for y in 0..p.h {
        for x in 0..p.w {
            let l = (p.p[0][y * p.w + x] as f64 - yb) / yr;
            let rgb = if p.mono {
                [l; 3]
            } else {
                let i = (y >> p.ss.1) * cw + (x >> p.ss.0);
                let (u, w) = (p.p[1][i] as f64, p.p[2][i] as f64);
                if m == 0 {
                    [(w - yb) / yr, l, (u - yb) / yr]
                } else {
                    let (u, w) = ((u - half) / cr, (w - half) / cr);
                    let (r, b) = (l + 2.0 * (1.0 - kr) * w, l + 2.0 * (1.0 - kb) * u);
                    [r, (l - kr * r - kb * b) / (1.0 - kr - kb), b]
                }
            };
            for c in rgb {
                v.push(c.clamp(0.0, 1.0) * out);
            }
            v.push(alpha.map_or(1.0, |a| a.p[0][y * p.w + x] as f64 / ((1u32 << a.depth) - 1) as f64) * out);
        }
    }
    v
}

fn bx(kind: &[u8; 4], body: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    be32(&mut v, body.len() as u32 + 8);
    v.extend_from_slice(kind);
    v.extend_from_slice(body);
    v
}
fn full(kind: &[u8; 4], version: u8, flags: u32, body: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    be32(&mut b, (version as u32) << 24 | flags);
    b.extend_from_slice(body);
    bx(kind, &b)
}

/// Where an item's data is.
struct Item {
    id: u16,
    kind: [u8; 4],
    data: Vec<u8>,
    /// (property index, essential)
    props: Vec<(u8, bool)>,
}

fn av1c(p: &Planes) -> Vec<u8> {
    let profile = match (p.depth, p.mono, p.ss) {
        (12, _, _) | (_, false, (1, 0)) => 2u8,
        (_, false, (0, 0)) => 1,
        _ => 0,
    };
    let sub = if p.mono { (1, 1) } else { p.ss };
    let flags = ((p.depth > 8) as u8) << 6 | ((p.depth == 12) as u8) << 5 | (p.mono as u8) << 4 | (sub.0 as u8) << 3 | (sub.1 as u8) << 2;
    bx(b"av1C", &[0x81, profile << 5 | 31, flags, 0])
}
fn pixi(n: u8, depth: u8) -> Vec<u8> {
    let mut b = vec![n];
    b.extend(std::iter::repeat(depth).take(n as usize));
    full(b"pixi", 0, 0, &b)
}

pub struct Made {
    pub bytes: Vec<u8>,
    /// where the last byte of coded pixel data ends
    pub data_end: usize,
    pub layout: &'static str,
}

/// A file around the AV1 data of a picture and of its alpha.
pub fn container(r: &mut Rng, p: &Planes, m: u8, fullr: bool, data: &[u8], alpha: Option<(&Planes, &[u8])>, icc: Option<&[u8]>, exif: Option<&[u8]>) -> Made {
    let mut ispe = vec![];
    be32(&mut ispe, p.w as u32);
    be32(&mut ispe, p.h as u32);
    let mut props = vec![full(b"ispe", 0, 0, &ispe), av1c(p), pixi(if p.mono { 1 } else { 3 }, p.depth as u8)];
    let mut main = vec![(1, false), (2, true), (3, false)];
    if r.below(4) != 0 {
        let mut c = b"nclx".to_vec();
        be16(&mut c, 1);
        be16(&mut c, if m == 0 && fullr { 13 } else { 1 });
        be16(&mut c, m as u16);
        c.push((fullr as u8) << 7);
        props.push(bx(b"colr", &c));
        main.push((props.len() as u8, false));
    }
    if let Some(icc) = icc {
        let mut c = b"prof".to_vec();
        c.extend_from_slice(icc);
        props.push(bx(b"colr", &c));
        main.push((props.len() as u8, false));
    }
    if r.below(4) == 0 {
        let mut c = vec![];
        be32(&mut c, 1);
        be32(&mut c, 1);
        props.push(bx(b"pasp", &c));
        main.push((props.len() as u8, false));
    }
    if r.below(6) == 0 {
        props.push(bx(b"zzzz", &[1, 2, 3]));
        main.push((props.len() as u8, false));
    }
    let mut items = vec![Item { id: 1, kind: *b"av01", data: data.to_vec(), props: main }];
    let mut refs = vec![];
    if let Some((a, d)) = alpha {
        props.push(av1c(a));
        let c = props.len() as u8;
        props.push(pixi(1, a.depth as u8));
        props.push(full(b"auxC", 0, 0, b"urn:mpeg:mpegB:cicp:systems:auxiliary:alpha\0"));
        items.push(Item { id: 2, kind: *b"av01", data: d.to_vec(), props: vec![(1, false), (c, true), (c + 1, false), (c + 2, r.bool())] });
        refs.push((b"auxl", 2u16, 1u16));
    }
    if let Some(e) = exif {
        let mut d = vec![0, 0, 0, 0];
        d.extend_from_slice(e);
        items.push(Item { id: 3, kind: *b"Exif", data: d, props: vec![] });
        refs.push((b"cdsc", 3, 1));
    }
    if r.bool() {
        items.reverse();
    }
    // where the data goes
    let idat = r.below(4) == 0;
    let before = !idat && r.below(4) == 0;
    let layout = if idat { "idat" } else if before { "mdat first" } else { "mdat last" };
    let wide = !idat && r.below(6) == 0;
    let splits = r.below(4) == 0;
    let mut blob = vec![];
    let mut extents: Vec<Vec<(usize, usize)>> = vec![];
    let mut order: Vec<usize> = (0..items.len()).collect();
    if r.bool() {
        order.reverse();
    }
    let mut at = vec![vec![]; items.len()];
    for i in order {
        let d = &items[i].data;
        let cut = if splits && d.len() > 2 { r.range(1, d.len() as u64 - 1) as usize } else { d.len() };
        for part in [&d[..cut], &d[cut..]] {
            if part.is_empty() {
                continue;
            }
            if r.below(4) == 0 {
                blob.extend(r.bytes(3));
            }
            at[i].push((blob.len(), part.len()));
            blob.extend_from_slice(part);
        }
    }
    extents.append(&mut at);
    let last = extents.iter().enumerate().filter(|(i, _)| items[*i].kind == *b"av01").flat_map(|(_, e)| e.iter().map(|x| x.0 + x.1)).max().unwrap();

    let mut ftyp = b"avif\0\0\0\0avifmif1miaf".to_vec();
    if r.bool() {
        ftyp.extend_from_slice(b"MA1A");
    }
    let ftyp = bx(b"ftyp", &ftyp);
    let free = if r.below(4) == 0 { bx(b"free", &r.bytes(5)) } else { vec![] };
    let extra = if r.below(6) == 0 { bx(b"uuid", &r.bytes(20)) } else { vec![] };

    let hdlr = full(b"hdlr", 0, 0, b"\0\0\0\0pict\0\0\0\0\0\0\0\0\0\0\0\0\0");
    let mut pitm = vec![];
    be16(&mut pitm, 1);
    let pitm = full(b"pitm", 0, 0, &pitm);
    let mut iinf = vec![];
    be16(&mut iinf, items.len() as u16);
    for i in &items {
        let mut e = vec![];
        be16(&mut e, i.id);
        be16(&mut e, 0);
        e.extend_from_slice(&i.kind);
        e.push(0);
        iinf.extend(full(b"infe", 2, 0, &e));
    }
    let iinf = full(b"iinf", 0, 0, &iinf);
    let mut iref = vec![];
    for (k, from, to) in &refs {
        let mut b = vec![];
        be16(&mut b, *from);
        be16(&mut b, 1);
        be16(&mut b, *to);
        iref.extend(bx(k, &b));
    }
    let iref = if refs.is_empty() { vec![] } else { full(b"iref", 0, 0, &iref) };
    let mut ipma = vec![];
    let longer = r.below(4) == 0;
    let mut assoc: Vec<&Item> = items.iter().filter(|i| !i.props.is_empty()).collect();
    assoc.sort_by_key(|i| i.id);
    be32(&mut ipma, assoc.len() as u32);
    for i in assoc {
        be16(&mut ipma, i.id);
        ipma.push(i.props.len() as u8);
        for (k, e) in &i.props {
            if longer {
                be16(&mut ipma, (*e as u16) << 15 | *k as u16);
            } else {
                ipma.push((*e as u8) << 7 | *k);
            }
        }
    }
    let mut iprp = bx(b"ipco", &props.concat());
    iprp.extend(full(b"ipma", 0, longer as u32, &ipma));
    let iprp = bx(b"iprp", &iprp);
    let version = if idat { 1 } else { r.below(2) as u8 };
    let long = r.below(4) == 0;
    let based = r.below(3) == 0;
    let iloc = |base: usize| {
        let osz = if long { 8u8 } else { 4 };
        let mut b = vec![osz << 4 | 4, if based { 4 << 4 } else { 0 }];
        be16(&mut b, items.len() as u16);
        for (i, it) in items.iter().enumerate() {
            be16(&mut b, it.id);
            if version == 1 {
                be16(&mut b, idat as u16);
            }
            be16(&mut b, 0);
            let start = if based { base.min(extents[i][0].0 + base) } else { 0 };
            if based {
                be32(&mut b, start as u32);
            }
            be16(&mut b, extents[i].len() as u16);
            for (o, n) in &extents[i] {
                let off = base + o - start;
                if long {
                    be32(&mut b, 0);
                }
                be32(&mut b, off as u32);
                be32(&mut b, *n as u32);
            }
        }
        full(b"iloc", version, 0, &b)
    };
    let idat_box = if idat { bx(b"idat", &blob) } else { vec![] };
    let shuffle = r.below(3);
    let meta = |base: usize| {
        let l = iloc(base);
        let mut b = hdlr.clone();
        let parts: Vec<&[u8]> = match shuffle {
            0 => vec![&pitm, &l, &iinf, &iref, &iprp, &idat_box],
            1 => vec![&pitm, &idat_box, &iinf, &iprp, &iref, &l],
            _ => vec![&pitm, &l, &iinf, &iprp, &idat_box, &iref],
        };
        for p in parts {
            b.extend_from_slice(p);
        }
        full(b"meta", 0, 0, &b)
    };
    let mdat = |to_end: bool| {
        let mut v = vec![];
        if wide {
            be32(&mut v, 1);
            v.extend_from_slice(b"mdat");
            be32(&mut v, 0);
            be32(&mut v, blob.len() as u32 + 16);
        } else {
            be32(&mut v, if to_end { 0 } else { blob.len() as u32 + 8 });
            v.extend_from_slice(b"mdat");
        }
        v.extend_from_slice(&blob);
        v
    };
    let head = if wide { 16 } else { 8 };
    let mut out = ftyp.clone();
    out.extend_from_slice(&extra);
    let data_end;
    if idat {
        let mm = meta(0);
        let pos = mm.windows(4).position(|x| x == b"idat").unwrap() + 4;
        data_end = out.len() + pos + last;
        out.extend(mm);
        out.extend_from_slice(&free);
    } else if before {
        let base = out.len() + head;
        out.extend(mdat(false));
        out.extend_from_slice(&free);
        out.extend(meta(base));
        data_end = out.len();
    } else {
        let n = meta(0).len();
        let base = out.len() + n + free.len() + head;
        out.extend(meta(base));
        out.extend_from_slice(&free);
        out.extend(mdat(r.below(6) == 0 && !wide));
        data_end = base + last;
    }
    Made { bytes: out, data_end, layout }
}

/// A picture: planes as coded, their AV1 data.
pub fn picture(r: &mut Rng, w: usize, h: usize, depth: u32, lay: usize, m: u8, fullr: bool) -> Result<(Planes, Vec<u8>), String> {
    let (mono, ss) = [(true, (0, 0)), (false, (1, 1)), (false, (1, 0)), (false, (0, 0))][lay];
    let mut p = Planes { w, h, depth, ss, mono, p: Default::default() };
    let (cw, ch) = p.cdims();
    let max = (1u32 << depth) - 1;
    for k in 0..3 {
        let (w, h) = if k == 0 { (w, h) } else { (cw, ch) };
        p.p[k] = plane_content(r, w, h, max);
    }
    let q = *r.pick(&[0usize, 1, 20, 60, 120, 255]);
    let data = av1(&p, m, fullr, q)?;
    let p = planes(&data)?;
    if (p.w, p.h, p.depth, p.mono) != (w, h, depth, mono) || (!mono && p.ss != ss) {
        return Err(format!("coded {w}x{h} {depth} bits, got {}x{} {} bits", p.w, p.h, p.depth));
    }
    Ok((p, data))
}

fn dims(r: &mut Rng) -> (usize, usize) {
    let (w, h) = match r.below(6) {
        0 => (r.range(1, 4), r.range(1, 40)),
        1 => (r.range(1, 100), r.range(1, 5)),
        _ => (r.range(1, 40), r.range(1, 33)),
    };
    (w as usize, h as usize)
}
pub fn gen(r: &mut Rng) -> FileCase {
    let (w, h) = dims(r);
    gen_sized(r, w, h)
}
pub fn gen_sized(r: &mut Rng, w: usize, h: usize) -> FileCase {
    let c = Coded::new(r, w, h).expect("AV1 data");
    c.file(r)
}

/// A file around one of a few pictures that are coded once per process.
pub fn pooled(r: &mut Rng) -> FileCase {
    const N: usize = 128;
    static POOL: [OnceLock<Coded>; N] = [const { OnceLock::new() }; N];
    let k = r.below(N as u64) as usize;
    let c = POOL[k].get_or_init(|| {
        let mut r = Rng::new(crate::mix(0xa71f ^ k as u64));
        let (w, h) = dims(&mut r);
        Coded::new(&mut r, w, h).expect("AV1 data")
    });
    c.file(r)
}

pub struct Coded {
    p: Planes,
    data: Vec<u8>,
    lay: usize,
    m: u8,
    full: bool,
    alpha: Option<(Planes, Vec<u8>)>,
}
impl Coded {
    pub fn new(r: &mut Rng, w: usize, h: usize) -> Result<Coded, String> {
        let depth = *r.pick(&[8u32, 8, 10, 12]);
        let lay = r.below(4) as usize;
        let mi = if lay == 3 { r.below(7) } else { r.range(1, 6) } as usize;
        let m = MATRICES[mi].0;
        let full = r.bool();
        let (p, data) = picture(r, w, h, depth, lay, m, full)?;
        let alpha = if r.below(3) == 0 { Some(picture(r, w, h, depth, 0, 1, true)?) } else { None };
        Ok(Coded { p, data, lay, m, full, alpha })
    }
    pub fn file(&self, r: &mut Rng) -> FileCase {
        let Coded { p, data, lay, m, full, alpha } = self;
        let icc = (r.below(5) == 0).then(|| r.bytes(150));
        let exif = (r.below(6) == 0).then(|| b"II*\0\x08\0\0\0\0\0\0\0\0\0".to_vec());
        let alpha = alpha.as_ref().map(|a| (&a.0, &a.1[..]));
        let f = container(r, p, *m, *full, data, alpha, icc.as_deref(), exif.as_deref());
        let color = if p.depth == 8 { ColorType::Rgba8 } else { ColorType::Rgba16 };
        let variant = format!(
            "avif {} bits {} {} {}{} {}",
            p.depth,
            ["4:0:0", "4:2:0", "4:2:2", "4:4:4"][*lay],
            MATRICES.iter().find(|x| x.0 == *m).unwrap().1,
            if *full { "full" } else { "limited" },
            if alpha.is_some() { " alpha" } else { "" },
            f.layout
        );
        let mut c = FileCase::new(ImageFormat::Avif, variant, p.w as u32, p.h as u32, color);
        let real = rgba(p, *m, *full, alpha.map(|a| a.0));
        c.px = real
            .iter()
            .flat_map(|v| if p.depth == 8 { vec![v.round() as u8] } else { (v.round() as u16).to_ne_bytes().to_vec() })
            .collect();
        c.real = Some(real);
        // fixed point of 11 bits: a step or two of the file's own depth
        c.tol = match p.depth {
            8 => 0.8,
            10 => 1.6 * 65535.0 / 1023.0,
            _ => 4.5 * 65535.0 / 4095.0,
        };
        c.icc = icc;
        c.bytes = f.bytes;
        c.data_end = f.data_end;
        c
    }
}
