//! Animated GIF, PNG and WebP files with the frame sequence they define.
use super::{be16, be32, gif, png, webp};
use crate::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Blend {
    Over,
    Replace,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dispose {
    Keep,
    Clear,
    Previous,
}
/// One stored frame: where it goes, what it holds, how it combines.
#[derive(Clone, Debug)]
pub struct Step {
    pub x: u32,
    pub y: u32,
    pub w: u32,
    pub h: u32,
    pub px: Vec<[u8; 4]>,
    pub blend: Blend,
    pub dispose: Dispose,
    /// milliseconds as a fraction
    pub delay: (u64, u64),
}
#[derive(Clone, Debug)]
pub struct Anim {
    pub variant: String,
    pub bytes: Vec<u8>,
    pub w: u32,
    pub h: u32,
    pub steps: Vec<Step>,
    pub clear: [u8; 4],
    /// offset after the data of each frame
    pub ends: Vec<usize>,
    pub opaque: bool,
    /// blending precision, in units of the sample
    pub tol: f64,
    /// the application set this background colour
    pub set_bg: bool,
    /// the still image, if the format has one
    pub still: Option<Vec<u8>>,
    /// the gif crate's own frame reader cannot read it
    pub dep_fails: bool,
}
fn rect(r: &mut Rng, w: u32, h: u32) -> (u32, u32, u32, u32) {
    if r.chance(1, 3) {
        return (0, 0, w, h);
    }
    let (a, b) = (r.r32(1, w), r.r32(1, h));
    match r.below(4) {
        0 => (0, r.r32(0, h - b), w, b),
        1 => (r.r32(0, w - a), 0, a, h),
        _ => (r.r32(0, w - a), r.r32(0, h - b), a, b),
    }
}
fn canvas(r: &mut Rng) -> (u32, u32) {
    if r.chance(1, 30) {
        (r.r32(1, 90), r.r32(1, 90))
    } else {
        (r.r32(1, 14), r.r32(1, 14))
    }
}
fn count(r: &mut Rng) -> usize {
    *r.pick(&[1usize, 2, 2, 3, 3, 4, 5, 6, 9])
}

pub fn gif(r: &mut Rng) -> Anim {
    let (w, h) = canvas(r);
    let n = count(r);
    let glob = if r.chance(3, 4) { Some(gif::table(r)) } else { None };
    let mut o = vec![];
    gif::header(&mut o, r, w as u16, h as u16, glob.as_deref(), 0);
    let (mut steps, mut ends) = (vec![], vec![]);
    let spill = r.chance(1, 8);
    for _ in 0..n {
        gif::noise(r, &mut o);
        let local = if glob.is_none() || r.chance(1, 3) { Some(gif::table(r)) } else { None };
        let pal = local.clone().or(glob.clone()).unwrap();
        let (mut x, mut y, mut fw, mut fh) = rect(r, w, h);
        if spill && r.bool() {
            x = r.r32(0, w + 3);
            y = r.r32(0, h + 3);
            fw += r.r32(0, 5);
            fh += r.r32(0, 5);
        }
        let transparent = if r.bool() { Some(r.below(pal.len() as u64) as u8) } else { None };
        let no_gce = transparent.is_none() && r.chance(1, 5);
        let f = gif::GifFrame {
            x: x as u16,
            y: y as u16,
            w: fw as u16,
            h: fh as u16,
            idx: super::indices(r, (fw * fh) as usize, pal.len()).into_iter().map(|v| v as u8).collect(),
            table: local,
            transparent,
            dispose: r.below(4) as u8,
            delay: *r.pick(&[0, 1, 2, 10, 100, 65535, 6553]),
            interlace: r.chance(1, 4),
            no_gce,
        };
        ends.push(0);
        gif::put_frame(&mut o, r, &f, pal.len());
        *ends.last_mut().unwrap() = o.len();
        steps.push(Step {
            x,
            y,
            w: fw,
            h: fh,
            px: f
                .idx
                .iter()
                .map(|&i| {
                    let c = pal[i as usize];
                    [c[0], c[1], c[2], if Some(i) == transparent { 0 } else { 255 }]
                })
                .collect(),
            blend: Blend::Over,
            dispose: match if no_gce { 0 } else { f.dispose } {
                2 => Dispose::Clear,
                3 => Dispose::Previous,
                _ => Dispose::Keep,
            },
            delay: (if no_gce { 0 } else { f.delay as u64 * 10 }, 1),
        });
    }
    gif::noise(r, &mut o);
    o.push(0x3b);
    let dep_fails = gif_crate_fails(&o, &steps);
    let f = |s: &str, b: bool| if b { format!(" {s}") } else { String::new() };
    Anim {
        variant: format!(
            "gif{}{}{}",
            f("restores previous", steps.iter().any(|s| s.dispose == Dispose::Previous)),
            f("clears", steps.iter().any(|s| s.dispose == Dispose::Clear)),
            f("spills", spill)
        ),
        bytes: o,
        w,
        h,
        steps,
        clear: [0; 4],
        ends,
        opaque: false,
        tol: 0.0,
        set_bg: false,
        still: None,
        dep_fails,
    }
}
/// The LZW decoder below the gif crate gives up on some valid row boundaries.
fn gif_crate_fails(b: &[u8], steps: &[Step]) -> bool {
    let mut o = gif_crate::DecodeOptions::new();
    o.set_color_output(gif_crate::ColorOutput::RGBA);
    let Ok(mut d) = o.read_info(b) else { return true };
    for s in steps {
        match d.read_next_frame() {
            Ok(Some(f)) => {
                if f.buffer.iter().copied().collect::<Vec<u8>>().chunks_exact(4).zip(&s.px).any(|(a, b)| a[3] != b[3] || (b[3] == 255 && a != b)) {
                    return true;
                }
            }
            _ => return true,
        }
    }
    false
}
use ::gif as gif_crate;

pub fn apng(r: &mut Rng) -> Anim {
    let (w, h) = canvas(r);
    let n = count(r);
    let base = png::still(r, w, h, true);
    let thumb = r.chance(1, 3);
    let mut o = png::SIG.to_vec();
    png::chunk(&mut o, b"IHDR", &base.ihdr());
    let mut c = vec![];
    be32(&mut c, n as u32);
    be32(&mut c, r.u32() % 5);
    png::chunk(&mut o, b"acTL", &c);
    if base.ct == 3 {
        png::chunk(&mut o, b"PLTE", &base.plte);
    }
    if let Some(t) = &base.trns {
        png::chunk(&mut o, b"tRNS", t);
    }
    let mut seq = 0u32;
    if thumb {
        for d in png::data(r, &base) {
            png::chunk(&mut o, b"IDAT", &d);
        }
    }
    let (mut steps, mut ends) = (vec![], vec![]);
    for i in 0..n {
        let first = i == 0 && !thumb;
        let (x, y, fw, fh) = if i == 0 { (0, 0, w, h) } else { rect(r, w, h) };
        let img = if first { None } else { Some(png::still_like(r, &base, fw, fh)) };
        let img = img.as_ref().unwrap_or(&base);
        let (dispose, blend) = (r.below(3) as u8, r.below(2) as u8);
        let (dn, dd) = (*r.pick(&[0u16, 1, 5, 100, 65535]), *r.pick(&[0u16, 1, 3, 100, 1000, 65535]));
        let mut c = vec![];
        be32(&mut c, seq);
        seq += 1;
        for v in [fw, fh, x, y] {
            be32(&mut c, v);
        }
        be16(&mut c, dn);
        be16(&mut c, dd);
        c.extend_from_slice(&[dispose, blend]);
        png::chunk(&mut o, b"fcTL", &c);
        for d in png::data(r, img) {
            if first {
                png::chunk(&mut o, b"IDAT", &d);
            } else {
                let mut q = vec![];
                be32(&mut q, seq);
                seq += 1;
                q.extend_from_slice(&d);
                png::chunk(&mut o, b"fdAT", &q);
            }
        }
        ends.push(o.len());
        steps.push(Step {
            x,
            y,
            w: fw,
            h: fh,
            px: img.rgba8(),
            blend: if blend == 1 { Blend::Over } else { Blend::Replace },
            dispose: match dispose {
                1 => Dispose::Clear,
                2 if i == 0 => Dispose::Clear,
                2 => Dispose::Previous,
                _ => Dispose::Keep,
            },
            delay: (dn as u64 * 1000, if dd == 0 { 100 } else { dd as u64 }),
        });
    }
    png::chunk(&mut o, b"IEND", &[]);
    let f = |s: &str, b: bool| if b { format!(" {s}") } else { String::new() };
    Anim {
        variant: format!(
            "apng ct{} {}bit{}{}{}{}{}",
            base.ct,
            base.depth,
            f("interlaced", base.interlace),
            f("thumbnail", thumb),
            f("over", steps.iter().any(|s| s.blend == Blend::Over)),
            f("restores previous", steps.iter().any(|s| s.dispose == Dispose::Previous)),
            f("clears", steps.iter().any(|s| s.dispose == Dispose::Clear))
        ),
        bytes: o,
        w,
        h,
        steps,
        clear: [0; 4],
        ends,
        opaque: false,
        tol: 1.0,
        set_bg: false,
        still: Some(base.px.clone()),
        dep_fails: false,
    }
}

pub fn webp(r: &mut Rng) -> Anim {
    let (w, h) = canvas(r);
    let n = count(r);
    let alpha = r.chance(3, 4);
    let set_bg = r.bool();
    let g = r.u8();
    let file_bg = if r.bool() { [0; 4] } else { [g, g, g, if alpha { r.u8() } else { 255 }] };
    let clear = if set_bg { [r.u8(), r.u8(), r.u8(), r.u8()] } else { file_bg };
    let mut body = vec![];
    webp::riff(&mut body, b"VP8X", &webp::vp8x(2 | if alpha { 16 } else { 0 }, w, h));
    let mut a = file_bg.to_vec();
    super::le16(&mut a, r.u16());
    webp::riff(&mut body, b"ANIM", &a);
    let (mut steps, mut ends) = (vec![], vec![]);
    for _ in 0..n {
        let (mut x, mut y, mut fw, mut fh) = rect(r, w, h);
        // offsets are stored halved
        if x & 1 == 1 {
            x -= 1;
            fw = (fw + 1).min(w - x);
        }
        if y & 1 == 1 {
            y -= 1;
            fh = (fh + 1).min(h - y);
        }
        let has = alpha && r.chance(3, 4);
        let ch = if has { 4 } else { 3 };
        let mut px = super::pixels(r, (fw * fh) as usize, ch);
        if has {
            for p in px.chunks_exact_mut(4) {
                if r.bool() {
                    p[3] = *r.pick(&[0, 255, 128, 1, 254]);
                }
            }
        }
        let d = webp::vp8l(fw, fh, &px, if has { image_webp::ColorType::Rgba8 } else { image_webp::ColorType::Rgb8 });
        let (blend, dispose) = (r.bool(), r.bool());
        let dur = if r.bool() { r.u32() & 0xff_ffff } else { r.r32(0, 200) };
        let mut c = vec![];
        webp::le24(&mut c, x / 2);
        webp::le24(&mut c, y / 2);
        webp::le24(&mut c, fw - 1);
        webp::le24(&mut c, fh - 1);
        webp::le24(&mut c, dur);
        c.push(if blend { 0 } else { 2 } | dispose as u8);
        webp::riff(&mut c, b"VP8L", &d);
        webp::riff(&mut body, b"ANMF", &c);
        ends.push(body.len() + 12);
        steps.push(Step {
            x,
            y,
            w: fw,
            h: fh,
            px: px.chunks_exact(ch).map(|p| [p[0], p[1], p[2], if has { p[3] } else { 255 }]).collect(),
            blend: if blend { Blend::Over } else { Blend::Replace },
            dispose: if dispose { Dispose::Clear } else { Dispose::Keep },
            delay: (dur as u64, 1),
        });
    }
    let f = |s: &str, b: bool| if b { format!(" {s}") } else { String::new() };
    Anim {
        variant: format!(
            "webp {}{}{}{}",
            if alpha { "rgba" } else { "rgb" },
            f("background set", set_bg),
            f("over", steps.iter().any(|s| s.blend == Blend::Over)),
            f("clears", steps.iter().any(|s| s.dispose == Dispose::Clear))
        ),
        bytes: webp::finish(body),
        w,
        h,
        steps,
        clear,
        ends,
        opaque: !alpha,
        tol: 1.0,
        set_bg,
        still: None,
        dep_fails: false,
    }
}
