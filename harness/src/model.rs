//! Independent reference image: a plain grid of pixels.
use crate::gen::Samp;
use image::{GenericImage, GenericImageView, ImageBuffer, Pixel};

#[derive(Clone, PartialEq)]
pub struct Grid<P> {
    pub w: u32,
    pub h: u32,
    pub px: Vec<P>,
}
impl<P: Copy> Grid<P> {
    pub fn from_fn(w: u32, h: u32, mut f: impl FnMut(u32, u32) -> P) -> Self {
        let mut px = Vec::with_capacity(w as usize * h as usize);
        for y in 0..h {
            for x in 0..w {
                px.push(f(x, y));
            }
        }
        Grid { w, h, px }
    }
    pub fn get(&self, x: u32, y: u32) -> P {
        assert!(x < self.w && y < self.h, "model access");
        self.px[y as usize * self.w as usize + x as usize]
    }
    pub fn set(&mut self, x: u32, y: u32, p: P) {
        assert!(x < self.w && y < self.h, "model access");
        self.px[y as usize * self.w as usize + x as usize] = p;
    }
    pub fn crop(&self, x: u32, y: u32, w: u32, h: u32) -> Self {
        Grid::from_fn(w, h, |i, j| self.get(x + i, y + j))
    }
}
impl<P: Pixel> Grid<P>
where
    P::Subpixel: Samp,
{
    /// Read the samples without going through pixel access.
    pub fn of(b: &ImageBuffer<P, Vec<P::Subpixel>>) -> Self {
        let (w, h) = b.dimensions();
        let n = P::CHANNEL_COUNT as usize;
        let raw: &[P::Subpixel] = &b.as_raw()[..w as usize * h as usize * n];
        Grid { w, h, px: raw.chunks_exact(n).map(|c| *P::from_slice(c)).collect() }
    }
    pub fn of_view<I: GenericImageView<Pixel = P>>(v: &I) -> Self {
        let (w, h) = v.dimensions();
        Grid::from_fn(w, h, |x, y| v.get_pixel(x, y))
    }
    pub fn to_buf(&self) -> ImageBuffer<P, Vec<P::Subpixel>> {
        let v = self.px.iter().flat_map(|p| p.channels().iter().copied()).collect();
        ImageBuffer::from_raw(self.w, self.h, v).expect("grid")
    }
    pub fn bits(&self) -> Vec<u64> {
        self.px.iter().flat_map(|p| p.channels().iter().map(|s| s.bits())).collect()
    }
    /// bitwise comparison; a description of the first difference
    pub fn diff(&self, o: &Self) -> Option<String>
    where
        P: std::fmt::Debug,
    {
        if (self.w, self.h) != (o.w, o.h) {
            return Some(format!("dimensions {}x{} vs {}x{}", self.w, self.h, o.w, o.h));
        }
        for y in 0..self.h {
            for x in 0..self.w {
                let (a, b) = (self.get(x, y), o.get(x, y));
                if a.channels().iter().zip(b.channels()).any(|(p, q)| p.bits() != q.bits()) {
                    return Some(format!("({x},{y}) of {}x{}: {a:?} vs {b:?}", self.w, self.h));
                }
            }
        }
        None
    }
}

/// A generic image with only the required methods, so that the provided
/// methods of the traits are the ones that run. Panics on out-of-bounds access.
#[derive(Clone)]
pub struct Plain<P>(pub Grid<P>);
#[allow(deprecated)]
impl<P: Pixel> GenericImageView for Plain<P> {
    type Pixel = P;
    fn dimensions(&self) -> (u32, u32) {
        (self.0.w, self.0.h)
    }
    fn get_pixel(&self, x: u32, y: u32) -> P {
        self.0.get(x, y)
    }
}
#[allow(deprecated)]
impl<P: Pixel> GenericImage for Plain<P> {
    fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut P {
        assert!(x < self.0.w && y < self.0.h, "model access");
        &mut self.0.px[y as usize * self.0.w as usize + x as usize]
    }
    fn put_pixel(&mut self, x: u32, y: u32, p: P) {
        self.0.set(x, y, p)
    }
    fn blend_pixel(&mut self, x: u32, y: u32, p: P) {
        self.get_pixel_mut(x, y).blend(&p)
    }
}
