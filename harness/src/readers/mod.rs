//! Independent strict readers, one per format the crate can write. Each checks
//! the whole file against the format's specification (structure, sizes,
//! checksums, padding, terminators) and returns its pixels. Nothing here uses
//! the crate's decoders, nor the codec crates below it, except where noted.
use crate::hash_bytes;

pub mod avif;
pub mod exr;
pub mod gif;
pub mod jpeg;
pub mod png;
pub mod simple;
pub mod tiff;
pub mod webp;

/// Pixels as the file defines them. Integers in their own range, floats as is.
#[derive(Clone, Debug, PartialEq)]
pub struct Img {
    pub w: u32,
    pub h: u32,
    /// samples per pixel: 1 gray, 2 gray alpha, 3 RGB, 4 RGBA
    pub ch: usize,
    /// largest sample value; 0 for floats
    pub max: u32,
    pub px: Vec<f64>,
    /// colour profile in the file
    pub icc: Option<Vec<u8>>,
    /// features of the file, for coverage counts
    pub notes: Vec<&'static str>,
}
impl Img {
    pub fn new(w: u32, h: u32, ch: usize, max: u32) -> Img {
        Img { w, h, ch, max, px: Vec::with_capacity((w as usize) * (h as usize) * ch), icc: None, notes: vec![] }
    }
    pub fn key(&self) -> u64 {
        hash_bytes(&self.px.iter().flat_map(|v| v.to_bits().to_le_bytes()).collect::<Vec<_>>())
    }
}
pub type Res<T> = Result<T, String>;

#[macro_export]
macro_rules! must {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

/// Byte cursor whose reads past the end are errors.
pub struct In<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> In<'a> {
    pub fn new(b: &'a [u8]) -> In<'a> {
        In { b, p: 0 }
    }
    pub fn at(b: &'a [u8], p: usize) -> In<'a> {
        In { b, p }
    }
    pub fn take(&mut self, n: usize) -> Res<&'a [u8]> {
        let e = self.p.checked_add(n).filter(|e| *e <= self.b.len()).ok_or_else(|| format!("{n} bytes at {} of a file of {}", self.p, self.b.len()))?;
        let r = &self.b[self.p..e];
        self.p = e;
        Ok(r)
    }
    pub fn u8(&mut self) -> Res<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn le16(&mut self) -> Res<u16> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn be16(&mut self) -> Res<u16> {
        Ok(u16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn le32(&mut self) -> Res<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn be32(&mut self) -> Res<u32> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn le64(&mut self) -> Res<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.p
    }
    pub fn end(&self) -> Res<()> {
        must!(self.left() == 0, "{} bytes after the end", self.left());
        Ok(())
    }
}

/// The reader of a format; `ext` tells the PNM variants apart on its own.
pub fn read(f: image::ImageFormat, b: &[u8]) -> Res<Img> {
    use image::ImageFormat as F;
    match f {
        F::Png => png::read(b),
        F::Bmp => simple::bmp(b),
        F::Tga => simple::tga(b),
        F::Pnm => simple::pnm(b),
        F::Farbfeld => simple::farbfeld(b),
        F::Qoi => simple::qoi(b),
        F::Hdr => simple::hdr(b),
        F::Ico => simple::ico(b),
        F::Tiff => tiff::read(b),
        F::OpenExr => exr::read(b),
        F::Gif => gif::read(b),
        F::Jpeg => jpeg::read(b),
        F::WebP => webp::read(b),
        F::Avif => avif::read(b),
        _ => Err("no reader".into()),
    }
}
