//! Independent writers: valid files of every format together with the pixels
//! the format defines for them. Nothing here uses the encoders under test.
use crate::Rng;
use image::{ColorType, ImageFormat};

pub mod anim;
pub mod avif;
pub mod bits;
pub mod bmp;
pub mod dds;
pub mod exr;
pub mod farbfeld;
pub mod gif;
pub mod hdr;
pub mod ico;
pub mod png;
pub mod jpeg;
pub mod pnm;
pub mod qoi;
pub mod tga;
pub mod tiff;
pub mod webp;

/// A valid file and its meaning.
#[derive(Clone, Debug)]
pub struct FileCase {
    pub fmt: ImageFormat,
    /// variant description, without random parts: used in coverage counts
    pub variant: String,
    pub bytes: Vec<u8>,
    pub w: u32,
    pub h: u32,
    pub color: ColorType,
    /// decoded samples in native byte order
    pub px: Vec<u8>,
    /// allowed difference per sample, in units of the sample (floats: relative)
    pub tol: f64,
    /// exact sample values when they are not integers
    pub real: Option<Vec<f64>>,
    /// the colour of fully transparent pixels is not defined
    pub ignore_clear: bool,
    /// a file cut anywhere before this offset lacks pixel data
    pub data_end: usize,
    pub icc: Option<Vec<u8>>,
    pub exif: Option<Vec<u8>>,
    /// EXIF orientation value 1..=8
    pub orientation: u8,
}
impl FileCase {
    pub fn new(fmt: ImageFormat, variant: impl Into<String>, w: u32, h: u32, color: ColorType) -> Self {
        FileCase {
            fmt,
            variant: variant.into(),
            bytes: vec![],
            w,
            h,
            color,
            px: vec![],
            tol: 0.0,
            real: None,
            ignore_clear: false,
            data_end: 0,
            icc: None,
            exif: None,
            orientation: 1,
        }
    }
    pub fn compare(&self, got: &[u8]) -> Option<String> {
        if self.px.len() != got.len() {
            return Some(format!("{} bytes of pixels, expected {}", got.len(), self.px.len()));
        }
        let ch = self.color.channel_count() as usize;
        let bytes = self.color.bytes_per_pixel() as usize / ch;
        let (g, e) = (samples(got, bytes), samples(&self.px, bytes));
        for i in 0..g.len() {
            let want = self.real.as_ref().map_or(e[i], |r| r[i]);
            let t = match (&self.real, bytes) {
                (Some(_), _) => self.tol + 0.51,
                (None, 4) => self.tol * want.abs(),
                _ => self.tol,
            };
            if self.ignore_clear && ch == 4 && i % 4 < 3 && e[i / 4 * 4 + 3] == 0.0 {
                continue;
            }
            if !((g[i] - want).abs() <= t || (g[i].is_nan() && want.is_nan()) || g[i] == want) {
                let p = i / ch;
                return Some(format!(
                    "pixel ({},{}) of {}x{} is {:?}, the file says {:?}",
                    p as u32 % self.w,
                    p as u32 / self.w,
                    self.w,
                    self.h,
                    &g[p * ch..p * ch + ch],
                    match &self.real {
                        Some(r) => &r[p * ch..p * ch + ch],
                        None => &e[p * ch..p * ch + ch],
                    }
                ));
            }
        }
        None
    }
}

/// Samples of 1, 2 or 4 (float) native-endian bytes.
pub fn samples(b: &[u8], bytes: usize) -> Vec<f64> {
    match bytes {
        1 => b.iter().map(|v| *v as f64).collect(),
        2 => b.chunks_exact(2).map(|v| u16::from_ne_bytes([v[0], v[1]]) as f64).collect(),
        _ => b.chunks_exact(4).map(|v| f32::from_ne_bytes([v[0], v[1], v[2], v[3]]) as f64).collect(),
    }
}

pub fn dims(r: &mut Rng) -> (u32, u32) {
    match r.below(8) {
        0 => (1, r.r32(1, 40)),
        1 => (r.r32(1, 70), 1),
        2 => (r.size(300), r.r32(1, 4)),
        _ => (r.r32(1, 24), r.r32(1, 20)),
    }
}

/// Sequence of values with runs and literals, below `n`.
pub fn indices(r: &mut Rng, len: usize, n: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(len);
    let style = r.below(4);
    let mut last = 0;
    while v.len() < len {
        match style {
            0 => v.push(r.below(n as u64) as usize),
            1 => {
                last = r.below(n as u64) as usize;
                let k = r.range(1, 9);
                v.extend(std::iter::repeat(last).take(k as usize));
            }
            2 => {
                let k = if r.bool() { 1 } else { *r.pick(&[2u64, 3, 127, 128, 129, 255, 256, 300]) };
                last = r.below(n as u64) as usize;
                v.extend(std::iter::repeat(last).take(k as usize));
            }
            _ => {
                last = (last + 1) % n;
                v.push(last)
            }
        }
    }
    v.truncate(len);
    v
}
/// Bytes with runs and literals.
pub fn content(r: &mut Rng, len: usize) -> Vec<u8> {
    indices(r, len, 256).into_iter().map(|v| v as u8).collect()
}
/// `n` pixels of `ch` bytes, with repeated pixels.
pub fn pixels(r: &mut Rng, n: usize, ch: usize) -> Vec<u8> {
    let k = *r.pick(&[2usize, 3, 16, 200]);
    let pal: Vec<Vec<u8>> = (0..k).map(|_| r.bytes(ch)).collect();
    let st = r.below(3);
    if st == 0 {
        return r.bytes(n * ch);
    }
    indices(r, n, k).into_iter().flat_map(|i| pal[i].clone()).collect()
}

pub fn le16(v: &mut Vec<u8>, x: u16) {
    v.extend_from_slice(&x.to_le_bytes())
}
pub fn le32(v: &mut Vec<u8>, x: u32) {
    v.extend_from_slice(&x.to_le_bytes())
}
pub fn be16(v: &mut Vec<u8>, x: u16) {
    v.extend_from_slice(&x.to_be_bytes())
}
pub fn be32(v: &mut Vec<u8>, x: u32) {
    v.extend_from_slice(&x.to_be_bytes())
}

/// Writers by name.
pub const WRITERS: [(&str, fn(&mut Rng) -> FileCase); 15] = [
    ("avif", avif::pooled),
    ("bmp", bmp::gen),
    ("dds", dds::gen),
    ("exr", exr::gen),
    ("farbfeld", farbfeld::gen),
    ("gif", gif::gen),
    ("hdr", hdr::gen),
    ("ico", ico::gen),
    ("jpeg", jpeg::gen),
    ("png", png::gen),
    ("pnm", pnm::gen),
    ("qoi", qoi::gen),
    ("tga", tga::gen),
    ("tiff", tiff::gen),
    ("webp", webp::gen),
];

/// The writers whose files the tool that watches this run can follow: the AV1
/// decoder is C code that MemorySanitizer does not see into.
pub fn writers() -> Vec<(&'static str, fn(&mut Rng) -> FileCase)> {
    let msan = std::env::var("VH_TOOL").is_ok_and(|t| t == "msan");
    WRITERS.iter().filter(|w| !(msan && w.0 == "avif")).copied().collect()
}
