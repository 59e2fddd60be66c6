//! D01: no use of the safe API causes undefined behaviour.
//!
//! The verdict is not computed here: this binary is built with AddressSanitizer
//! (or MemorySanitizer) and with the standard library's own precondition
//! checks, or run by the Miri interpreter, and those decide. What is here is
//! reach: programs of safe calls with hostile arguments, in which panics are
//! allowed, containers and readers and decoders that lie, unaligned and
//! exactly-sized buffers for every codec, and the workloads of the other
//! monitors.
//! `image` is built without debug assertions and overflow checks, as users
//! build it: nothing but its own checks stands between a bad call and memory.
#![allow(dead_code)]
use image::flat::SampleLayout;
use image::imageops::{self, FilterType};
use image::math::Rect;
use image::*;
use std::cell::Cell;
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::ops::{Deref, DerefMut};
use vh::files::writers;
use vh::gen::{self, Samp};
use vh::{catch, with_decoder, Case, Ctx, Rng};

vh::property_main!("D01");

#[cfg(feature = "modules")]
#[path = "a01.rs"]
mod a01;
#[cfg(feature = "modules")]
#[path = "a02.rs"]
mod a02;
#[cfg(feature = "modules")]
#[path = "a03.rs"]
mod a03;
#[cfg(feature = "modules")]
#[path = "a04.rs"]
mod a04;
#[cfg(feature = "modules")]
#[path = "a05.rs"]
mod a05;
#[cfg(feature = "modules")]
#[path = "a06.rs"]
mod a06;
#[cfg(feature = "modules")]
#[path = "a07.rs"]
mod a07;
#[cfg(feature = "modules")]
#[path = "b01.rs"]
mod b01;
#[cfg(feature = "modules")]
#[path = "b02.rs"]
mod b02;
#[cfg(feature = "modules")]
#[path = "b03.rs"]
mod b03;
#[cfg(feature = "modules")]
#[path = "b04.rs"]
mod b04;
#[cfg(feature = "modules")]
#[path = "b05.rs"]
mod b05;
#[cfg(feature = "modules")]
#[path = "b06.rs"]
mod b06;
#[path = "c02.rs"]
mod c02;
#[path = "c05.rs"]
mod c05;
#[path = "c06.rs"]
mod c06;
#[path = "c07.rs"]
mod c07;
#[path = "c09.rs"]
mod c09;
#[path = "c11.rs"]
mod c11;
#[path = "c12.rs"]
mod c12;
#[path = "c13.rs"]
mod c13;

/// One step of a program; it may panic, it may not misbehave.
macro_rules! step {
    ($c:expr, $what:expr, $e:expr) => {{
        $c.count("calls made", 1);
        match catch(|| std::hint::black_box($e)) {
            Ok(v) => Some(v),
            Err(_) => {
                $c.count("calls that panicked", 1);
                None
            }
        }
    }};
}

/// One pixel type per size of sample and number of channels.
macro_rules! few {
    ($c:expr, $f:ident) => {
        match $c.rng.below(4) {
            0 => $f::<Luma<u8>>($c),
            1 => $f::<Rgb<u16>>($c),
            2 => $f::<Rgba<f32>>($c),
            _ => $f::<LumaA<u8>>($c),
        }
    };
}

/// A coordinate in, at, just past or far past the end.
fn coord(r: &mut Rng, n: u32) -> u32 {
    match r.below(12) {
        0..=4 => r.below(n.max(1) as u64) as u32,
        5 => n,
        6 => n.wrapping_add(1),
        7 => n.wrapping_sub(1),
        8 => n.wrapping_add(r.below(200) as u32),
        9 => *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 30, 1 << 16, 0x5555_5556]),
        10 => n.wrapping_neg(),
        _ => r.u64() as u32,
    }
}
/// Counting empty rows and columns, which cost time as well.
fn area(w: u32, h: u32) -> u64 {
    w.max(1) as u64 * h.max(1) as u64
}
fn extent(r: &mut Rng) -> u32 {
    *r.pick(&[0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17])
}
static TOUCHED: AtomicU64 = AtomicU64::new(0);
#[inline(never)]
fn touch<T: Samp>(v: &[T]) -> u64 {
    let mut h = 1u64;
    for s in v {
        h = h.wrapping_mul(31).wrapping_add(s.bits());
    }
    // branch on what came back: an uninitialised sample is a report
    if h & 1 == 1 {
        TOUCHED.fetch_add(1, Relaxed);
    }
    h
}
fn touch_bytes(v: &[u8]) -> u64 {
    touch(v)
}

// ---------------------------------------------------------------- buffers

fn access<P: Pixel + Send + Sync + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    let r = &mut c.rng.clone();
    let (w, h) = (extent(r), extent(r));
    let mut img: ImageBuffer<P, Vec<P::Subpixel>> = gen::image(r, w, h);
    let px: P = gen::pixel_edge(r);
    let n = 1 + r.below(12);
    for _ in 0..n {
        let (x, y) = (coord(r, w), coord(r, h));
        match r.below(30) {
            0 => drop(step!(c, "get", touch(img.get_pixel(x, y).channels()))),
            1 => drop(step!(c, "get_mut", { *img.get_pixel_mut(x, y) = px })),
            2 => drop(step!(c, "checked", img.get_pixel_checked(x, y).map(|p| touch(p.channels())))),
            3 => drop(step!(c, "mut checked", img.get_pixel_mut_checked(x, y).map(|p| *p = px))),
            4 => drop(step!(c, "put", img.put_pixel(x, y, px))),
            5 => drop(step!(c, "index", touch(img[(x, y)].channels()))),
            6 => drop(step!(c, "index_mut", { img[(x, y)] = px })),
            #[allow(deprecated)]
            7 => drop(step!(c, "blend", img.blend_pixel(x, y, px))),
            8 => drop(step!(c, "view get", touch(GenericImageView::get_pixel(&img, x, y).channels()))),
            9 => {
                let (vw, vh) = (coord(r, w), coord(r, h));
                let (a, b) = (coord(r, w), coord(r, h));
                if let Some(v) = step!(c, "view", img.view(x, y, vw, vh)) {
                    let mut v = v;
                    step!(c, "view get", touch(v.get_pixel(a, b).channels()));
                    step!(c, "bounds", v.change_bounds(a, b, vw, vh));
                    step!(c, "view get 2", touch(v.get_pixel(a, b).channels()));
                    if area(v.width(), v.height()) < 5000 {
                        step!(c, "to_image", touch(&v.to_image()));
                        step!(c, "pixels", v.pixels().map(|p| touch(p.2.channels())).fold(0, |a, b| a ^ b));
                    }
                }
            }
            10 => {
                let (vw, vh) = (coord(r, w), coord(r, h));
                let (a, b) = (coord(r, w), coord(r, h));
                if let Some(v) = step!(c, "sub_image", SubImage::new(&mut img, x, y, vw, vh)) {
                    let mut v = v;
                    step!(c, "put", v.put_pixel(a, b, px));
                    #[allow(deprecated)]
                    {
                        step!(c, "get_mut", { *v.inner_mut().get_pixel_mut(a, b) = px });
                        step!(c, "blend", v.blend_pixel(a, b, px));
                    }
                    step!(c, "nested", {
                        let mut n = v.sub_image(a, b, vw, vh);
                        n.put_pixel(0, 0, px);
                        n.put_pixel(vw.wrapping_sub(1), vh.wrapping_sub(1), px)
                    });
                }
            }
            11 => {
                let rect = Rect { x, y, width: coord(r, w), height: coord(r, h) };
                let (a, b) = (coord(r, w), coord(r, h));
                step!(c, "copy_within", img.copy_within(rect, a, b));
            }
            12 => {
                let (tw, th) = (extent(r), extent(r));
                let top: ImageBuffer<P, Vec<P::Subpixel>> = gen::image(r, tw, th);
                step!(c, "copy_from", img.copy_from(&top, x, y).is_ok());
            }
            13 => {
                let mut it = img.pixels();
                let n = r.below(40) as usize;
                step!(c, "pixels", {
                    let mut s = 0;
                    if let Some(p) = it.next_back() {
                        s ^= touch(p.channels())
                    }
                    if let Some(p) = it.nth(n) {
                        s ^= touch(p.channels())
                    }
                    s ^ it.map(|p| touch(p.channels())).fold(0, |a, b| a ^ b)
                });
            }
            14 => {
                let n = r.below(6) as usize;
                step!(c, "rows", {
                    let mut it = img.rows();
                    let mut s = 0;
                    for row in it.nth(n).into_iter().chain(it.next_back()).chain(it) {
                        s ^= row.rev().map(|p| touch(p.channels())).fold(0, |a, b| a ^ b)
                    }
                    s
                });
            }
            15 => drop(step!(c, "rows_mut", img.rows_mut().rev().for_each(|row| row.for_each(|p| *p = px)))),
            16 => drop(step!(c, "enumerate_mut", img.enumerate_pixels_mut().for_each(|(_, _, p)| *p = px))),
            17 => drop(step!(c, "enumerate_rows", img.enumerate_rows().map(|(_, r)| r.map(|p| touch(p.2.channels())).fold(0, |a, b| a ^ b)).fold(0, |a, b| a ^ b))),
            18 => {
                use rayon::iter::{IndexedParallelIterator, ParallelIterator};
                if cfg!(miri) {
                    continue;
                }
                let n = r.below(40) as usize;
                step!(c, "par", img.par_enumerate_pixels().rev().skip(n % 7).map(|p| touch(p.2.channels())).reduce(|| 0, |a, b| a ^ b));
                step!(c, "par mut", img.par_pixels_mut().skip(n).for_each(|p| *p = px));
            }
            19 => {
                let len = (w * h) as usize * P::CHANNEL_COUNT as usize;
                let len = *r.pick(&[len, len, len + 1, len.wrapping_sub(1).min(len), 0, len / 2]);
                let v: Vec<P::Subpixel> = vec![P::Subpixel::DEFAULT_MAX_VALUE; len];
                step!(c, "from_raw", ImageBuffer::<P, _>::from_raw(w, h, v.clone()).map(|i| touch(&i)));
                step!(c, "from_raw wide", ImageBuffer::<P, _>::from_raw(x, y, v.clone()).map(|i| i.pixels().map(|p| touch(p.channels())).fold(0, |a, b| a ^ b)));
                step!(c, "from_raw slice", ImageBuffer::<P, _>::from_raw(w, h, &v[..]).map(|i| {
                    touch(i.get_pixel(w.wrapping_sub(1), h.wrapping_sub(1)).channels())
                }));
            }
            20 => {
                let f = img.as_flat_samples();
                let ch = *r.pick(&[0u8, 1, 2, 3, 4, 5, 255]);
                step!(c, "sample", f.get_sample(ch, x, y).map(|s| s.bits()));
                let mut f = img.clone().into_flat_samples();
                step!(c, "index", f[(ch, x, y)].bits());
                step!(c, "index mut", { f[(ch, x, y)] = P::Subpixel::DEFAULT_MAX_VALUE });
            }
            _ => hostile_flat::<P>(c, r, &mut img),
        }
    }
    touch(&img);
    c.eval(vh::mix(r.u64()) | 1);
}

fn stride(r: &mut Rng) -> usize {
    match r.below(10) {
        0..=5 => r.below(70) as usize,
        6 => *r.pick(&[usize::MAX, usize::MAX / 2, usize::MAX / 3, 1 << 63, 1 << 62, 1 << 32, 1 << 33]),
        7 => (r.below(8) as usize).wrapping_neg(),
        _ => *r.pick(&[1, 2, 3, 4, 0, 8, 12]),
    }
}
fn hostile_flat<P: Pixel + 'static>(c: &mut Case, r: &mut Rng, img: &mut ImageBuffer<P, Vec<P::Subpixel>>)
where
    P::Subpixel: Samp,
{
    let (w, h) = img.dimensions();
    let ch = if r.chance(2, 3) { P::CHANNEL_COUNT } else { *r.pick(&[0u8, 1, 2, 3, 4, 5, 255]) };
    let mut layout = match r.below(3) {
        0 => SampleLayout::row_major_packed(ch, w, h),
        1 => SampleLayout::column_major_packed(ch, w, h),
        _ => SampleLayout {
            channels: ch,
            channel_stride: stride(r),
            width: w,
            width_stride: stride(r),
            height: h,
            height_stride: stride(r),
        },
    };
    for _ in 0..r.below(3) {
        match r.below(8) {
            0 => layout.width = coord(r, w),
            1 => layout.height = coord(r, h),
            2 => layout.channel_stride = stride(r),
            3 => layout.width_stride = stride(r),
            4 => layout.height_stride = stride(r),
            5 => layout.width = layout.width.wrapping_add(1),
            6 => layout.height = layout.height.wrapping_add(1),
            _ => layout.channels = layout.channels.wrapping_add(1),
        }
    }
    let px: P = gen::pixel_edge(r);
    let (x, y) = (coord(r, w), coord(r, h));
    let k = coord(r, P::CHANNEL_COUNT as u32) as u8;
    c.sample(|| format!("{layout:?} over {w}x{h}, position ({k}, {x}, {y})"));
    let mut f = FlatSamples { samples: img.as_raw().clone(), layout, color_hint: None };
    c.count("hostile layouts", 1);
    step!(c, "sample", f.get_sample(k, x, y).map(|s| s.bits()));
    step!(c, "sample mut", f.get_mut_sample(k, x, y).map(|s| *s = P::Subpixel::DEFAULT_MIN_VALUE));
    step!(c, "index", f[(k, x, y)].bits());
    step!(c, "image_slice", f.image_slice().map(touch));
    step!(c, "image_mut_slice", f.image_mut_slice().map(|s| s.iter_mut().for_each(|s| *s = P::Subpixel::DEFAULT_MAX_VALUE)));
    if area(f.layout.width, f.layout.height) < 5000 {
        step!(c, "to_vec", f.to_vec().samples.len());
    }
    step!(c, "as_view", f.as_view::<P>().map(|v| {
        let (vw, vh) = v.dimensions();
        let mut s = v.image_slice().len() as u64;
        if area(vw, vh) < 5000 {
            for yy in 0..vh {
                for xx in 0..vw {
                    s ^= touch(v.get_pixel(xx, yy).channels())
                }
            }
        } else {
            s ^= touch(v.get_pixel(vw - 1, vh - 1).channels())
        }
        s
    }).unwrap_or(0));
    step!(c, "as_view oob", f.as_view::<P>().map(|v| touch(v.get_pixel(x, y).channels())).unwrap_or(0));
    step!(c, "as_view_mut", f.as_view_mut::<P>().map(|mut v| {
        let (vw, vh) = v.dimensions();
        if area(vw, vh) < 5000 {
            for yy in 0..vh {
                for xx in 0..vw {
                    v.put_pixel(xx, yy, px);
                    v.get_pixel_mut(xx, yy).invert()
                }
            }
        }
        v.image_mut_slice().len()
    }).unwrap_or(0));
    step!(c, "as_view_mut oob", f.as_view_mut::<P>().map(|mut v| v.put_pixel(x, y, px)).is_ok());
    step!(c, "with_mut_samples", f.as_view_with_mut_samples::<P>().map(|mut v| {
        if let Some(s) = v.get_mut_sample(k, x, y) {
            *s = P::Subpixel::DEFAULT_MIN_VALUE
        }
        v.shrink_to(x, y);
        let u = v.try_upgrade().map(|mut u| {
            u.put_pixel(0, 0, px);
            u.shrink_to(1, 1);
            u.put_pixel(x, y, px);
        });
        u.is_ok()
    }).unwrap_or(false));
    step!(c, "shrink", f.shrink_to(k, x, y));
    step!(c, "after shrink", f.get_sample(k, x, y).map(|s| s.bits()));
    let own = FlatSamples { samples: img.as_raw().clone(), layout, color_hint: None };
    step!(c, "into buffer", match own.try_into_buffer::<P>() {
        Ok(i) => i.pixels().map(|p| touch(p.channels())).fold(0, |a, b| a ^ b),
        Err(_) => 0,
    });
    step!(c, "monocolor", {
        let f = FlatSamples::with_monocolor(&px, x, y);
        f.as_view::<P>().map(|v| touch(v.get_pixel(coord(&mut Rng::new(x as u64), x), y.wrapping_sub(1)).channels())).unwrap_or(0)
    });
}

/// Pixels are made from slices by reinterpretation: slices of every length at
/// the very end of an allocation.
fn casts<P: Pixel + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    let r = &mut c.rng.clone();
    let ch = P::CHANNEL_COUNT as usize;
    for n in 0..=ch + 2 {
        let off = r.below(4) as usize;
        let mut v: Box<[P::Subpixel]> = vec![P::Subpixel::DEFAULT_MAX_VALUE; off + n].into_boxed_slice();
        step!(c, "from_slice", touch(P::from_slice(&v[off..]).channels()));
        step!(c, "from_slice_mut", {
            let p = P::from_slice_mut(&mut v[off..]);
            p.invert();
            p.apply(|s| s);
            let q = p.map_with_alpha(|s| s, |s| s);
            p.blend(&q);
            p.channels_mut().iter_mut().for_each(|s| *s = P::Subpixel::DEFAULT_MIN_VALUE);
            touch(p.channels())
        });
        touch(&v);
    }
    let p: P = gen::pixel_edge(r);
    step!(c, "channels4", {
        #[allow(deprecated)]
        let (a, b, d, e) = p.channels4();
        touch(&[a, b, d, e]) ^ touch(P::from_channels(a, b, d, e).channels())
    });
    step!(c, "conversions", {
        touch(&p.to_rgb().0) ^ touch(&p.to_rgba().0) ^ touch(&p.to_luma().0) ^ touch(&p.to_luma_alpha().0)
    });
    c.eval(vh::mix(c.idx + 1) | 1);
}

/// A container whose slice changes between calls: safe code may do that.
struct Liar<T> {
    v: Vec<T>,
    calls: Cell<u32>,
    pattern: u32,
}
impl<T> Liar<T> {
    fn len_now(&self) -> usize {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if self.pattern >> (n % 32) & 1 == 1 {
            self.v.len() / 2
        } else {
            self.v.len()
        }
    }
}
impl<T> Deref for Liar<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        &self.v[..self.len_now()]
    }
}
impl<T> DerefMut for Liar<T> {
    fn deref_mut(&mut self) -> &mut [T] {
        let n = self.len_now();
        &mut self.v[..n]
    }
}
impl<T> AsRef<[T]> for Liar<T> {
    fn as_ref(&self) -> &[T] {
        self
    }
}
impl<T> AsMut<[T]> for Liar<T> {
    fn as_mut(&mut self) -> &mut [T] {
        self
    }
}

fn liars<P: Pixel + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    let r = &mut c.rng.clone();
    let (w, h) = (1 + extent(r), 1 + extent(r));
    let src: ImageBuffer<P, Vec<P::Subpixel>> = gen::image(r, w, h);
    let pattern = r.u64() as u32 & !1;
    let mk = |calls| Liar { v: src.as_raw().clone(), calls: Cell::new(calls), pattern };
    let px: P = gen::pixel_edge(r);
    c.sample(|| format!("{w}x{h} in a container that answers with half its length when a bit of {pattern:#034b} says so"));
    let Some(Some(mut img)) = step!(c, "from_raw", ImageBuffer::<P, _>::from_raw(w, h, mk(0))) else { return };
    for _ in 0..6 {
        let (x, y) = (r.below(w as u64) as u32, r.below(h as u64) as u32);
        match r.below(14) {
            0 => drop(step!(c, "get", touch(img.get_pixel(x, y).channels()))),
            1 => drop(step!(c, "put", img.put_pixel(x, y, px))),
            2 => drop(step!(c, "checked", img.get_pixel_checked(x, y).map(|p| touch(p.channels())))),
            3 => drop(step!(c, "checked mut", img.get_pixel_mut_checked(x, y).map(|p| *p = px))),
            4 => drop(step!(c, "pixels", img.pixels().map(|p| touch(p.channels())).fold(0, |a, b| a ^ b))),
            5 => drop(step!(c, "rows", img.rows().map(|r| r.map(|p| touch(p.channels())).fold(0, |a, b| a ^ b)).fold(0, |a, b| a ^ b))),
            6 => drop(step!(c, "rows_mut", img.rows_mut().for_each(|r| r.for_each(|p| *p = px)))),
            7 => drop(step!(c, "flip", imageops::flip_horizontal_in_place(&mut img))),
            8 => drop(step!(c, "rotate", imageops::rotate180_in_place(&mut img))),
            9 => drop(step!(c, "crop", touch(&imageops::crop_imm(&img, x, y, w, h).to_image()))),
            10 => drop(step!(c, "copy_within", img.copy_within(Rect { x, y, width: w - x, height: h - y }, 0, 0))),
            11 => drop(step!(c, "view", img.view(x, y, w - x, h - y).pixels().map(|p| touch(p.2.channels())).fold(0, |a, b| a ^ b))),
            12 => drop(step!(c, "invert", imageops::invert(&mut img))),
            _ => drop(step!(c, "overlay", imageops::replace(&mut img, &src, x as i64, y as i64))),
        }
    }
    let f = FlatSamples { samples: mk(r.below(32) as u32), layout: src.sample_layout(), color_hint: None };
    step!(c, "flat view", f.as_view::<P>().map(|v| touch(v.get_pixel(w - 1, h - 1).channels()) ^ v.image_slice().len() as u64).unwrap_or(0));
    step!(c, "flat slice", f.image_slice().map(touch));
    step!(c, "flat vec", touch(&f.to_vec().samples));
    c.count("lying containers", 1);
    c.eval(vh::mix(r.u64()) | 1);
}

// ---------------------------------------------------------------- operations

/// A source whose size or pixels are not what it says.
struct Shifty<P> {
    dims: (u32, u32),
    later: (u32, u32),
    calls: Cell<u32>,
    px: P,
}
impl<P: Pixel> GenericImageView for Shifty<P> {
    type Pixel = P;
    fn dimensions(&self) -> (u32, u32) {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if n < 2 {
            self.dims
        } else {
            self.later
        }
    }
    fn get_pixel(&self, _: u32, _: u32) -> P {
        self.px
    }
}

fn odd_f(r: &mut Rng) -> f32 {
    *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-30, 3.5, -7.25, 1e9, -1e9, 1e30, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE])
}

fn operations<P: Pixel + Send + Sync + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    let r = &mut c.rng.clone();
    let (w, h) = (extent(r), extent(r));
    let mut img: ImageBuffer<P, Vec<P::Subpixel>> = gen::image(r, w, h);
    let (tw, th) = (extent(r), extent(r));
    let top: ImageBuffer<P, Vec<P::Subpixel>> = gen::image(r, tw, th);
    let px: P = gen::pixel_edge(r);
    let filt = *r.pick(&[FilterType::Nearest, FilterType::Triangle, FilterType::CatmullRom, FilterType::Gaussian, FilterType::Lanczos3]);
    let off = |r: &mut Rng| match r.below(8) {
        0 => *r.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, -(1 << 32), 1 << 32, (1 << 32) - 1, 1 << 31]),
        _ => r.below(40) as i64 - 20,
    };
    for _ in 0..1 + r.below(5) {
        let (x, y) = (coord(r, w), coord(r, h));
        let (cw, chh) = (coord(r, w), coord(r, h));
        let (ox, oy) = (off(r), off(r));
        let small = |r: &mut Rng| *r.pick(&[0u32, 1, 2, 3, 7, 20]);
        match r.below(22) {
            0 => drop(step!(c, "overlay", imageops::overlay(&mut img, &top, ox, oy))),
            1 => drop(step!(c, "replace", imageops::replace(&mut img, &top, ox, oy))),
            2 => {
                if tw > 0 && th > 0 {
                    step!(c, "tile", imageops::tile(&mut img, &top));
                }
            }
            3 => drop(step!(c, "crop", imageops::crop(&mut img, x, y, cw, chh).to_image().len())),
            4 => {
                let (nw, nh) = (small(r), small(r));
                step!(c, "resize", touch(&imageops::resize(&img, nw, nh, filt)));
            }
            5 => {
                // the cost grows with sigma
                let s = odd_f(r);
                if !(s.is_finite() && s.abs() > 50.0) {
                    step!(c, "blur", touch(&imageops::blur(&img, s)));
                    step!(c, "fast_blur", touch(&imageops::fast_blur(&img, s)));
                }
            }
            6 => {
                let k: Vec<f32> = (0..*r.pick(&[0usize, 1, 8, 9, 10, 25])).map(|_| odd_f(r)).collect();
                step!(c, "filter3x3", touch(&imageops::filter3x3(&img, &k)));
            }
            7 => {
                let (u, v) = (odd_f(r), odd_f(r));
                step!(c, "sample_bilinear", imageops::sample_bilinear(&img, u, v).map(|p| touch(p.channels())));
                step!(c, "sample_nearest", imageops::sample_nearest(&img, u, v).map(|p| touch(p.channels())));
                step!(c, "interpolate_bilinear", imageops::interpolate_bilinear(&img, u * w as f32, v * h as f32).map(|p| touch(p.channels())));
                step!(c, "interpolate_nearest", imageops::interpolate_nearest(&img, u * w as f32, v * h as f32).map(|p| touch(p.channels())));
            }
            8 => {
                step!(c, "rotate90", touch(&imageops::rotate90(&img)));
                step!(c, "rotate270", touch(&imageops::rotate270(&img)));
                let mut dst: ImageBuffer<P, Vec<P::Subpixel>> = ImageBuffer::new(small(r), small(r));
                step!(c, "rotate90_in", imageops::rotate90_in(&img, &mut dst).is_ok());
                step!(c, "rotate180_in", imageops::rotate180_in(&img, &mut dst).is_ok());
                step!(c, "rotate270_in", imageops::rotate270_in(&img, &mut dst).is_ok());
                step!(c, "flip_h_in", imageops::flip_horizontal_in(&img, &mut dst).is_ok());
                step!(c, "flip_v_in", imageops::flip_vertical_in(&img, &mut dst).is_ok());
                touch(&dst);
            }
            9 => {
                step!(c, "flip_h", imageops::flip_horizontal_in_place(&mut img));
                step!(c, "flip_v", imageops::flip_vertical_in_place(&mut img));
                step!(c, "rotate180", imageops::rotate180_in_place(&mut img));
            }
            10 => {
                imageops::invert(&mut img);
                step!(c, "tile", imageops::tile(&mut img, &ImageBuffer::<P, Vec<P::Subpixel>>::from_pixel(3, 2, px)));
            }
            11 => drop(step!(c, "invert", imageops::invert(&mut img))),
            12 => drop(step!(c, "contrast", imageops::colorops::contrast_in_place(&mut img, odd_f(r)))),
            13 => drop(step!(c, "brighten", imageops::colorops::brighten_in_place(&mut img, *r.pick(&[i32::MIN, i32::MAX, 0, 5, -5])))),
            14 => drop(step!(c, "hue", touch(&imageops::huerotate(&img, *r.pick(&[i32::MIN, i32::MAX, 0, 90, -5]))))),
            15 => drop(step!(c, "gray", touch(&imageops::grayscale_alpha(&img)))),
            16 => drop(step!(c, "unsharpen", touch(&imageops::unsharpen(&img, 1.0, *r.pick(&[i32::MIN, i32::MAX, 0, 5]))))),
            17..=19 => {
                let d = |r: &mut Rng| (extent(r), extent(r));
                let s = Shifty { dims: d(r), later: d(r), calls: Cell::new(r.below(3) as u32), px };
                match r.below(6) {
                    0 => drop(step!(c, "shifty overlay", imageops::overlay(&mut img, &s, ox, oy))),
                    1 => drop(step!(c, "shifty replace", imageops::replace(&mut img, &s, ox, oy))),
                    2 => drop(step!(c, "shifty copy", img.copy_from(&s, x, y).is_ok())),
                    3 => drop(step!(c, "shifty crop", touch(&imageops::crop_imm(&s, x, y, cw, chh).to_image()))),
                    4 => drop(step!(c, "shifty rotate", touch(&imageops::rotate90(&s)))),
                    _ => {
                        let (nw, nh) = (small(r), small(r));
                        step!(c, "shifty resize", touch(&imageops::resize(&s, nw, nh, filt)));
                    }
                }
                c.count("lying sources", 1);
            }
            _ => {
                let (a, b) = img.dimensions();
                step!(c, "overlay_bounds", imageops::overlay_bounds((a, b), (cw, chh), x, y));
            }
        }
    }
    touch(&img);
    c.eval(vh::mix(r.u64()) | 1);
}

/// A colour map that answers with positions its palette does not have.
struct WildMap(u64);
impl imageops::ColorMap for WildMap {
    type Color = Rgba<u8>;
    fn index_of(&self, p: &Rgba<u8>) -> usize {
        (vh::mix(self.0 ^ p.0[0] as u64) % 600) as usize
    }
    fn lookup(&self, i: usize) -> Option<Rgba<u8>> {
        (i < 256).then(|| Rgba([i as u8; 4]))
    }
    fn has_lookup(&self) -> bool {
        self.0 & 1 == 1
    }
    fn map_color(&self, p: &mut Rgba<u8>) {
        *p = Rgba([p.0[3]; 4])
    }
}

fn palettes(c: &mut Case) {
    let r = &mut c.rng.clone();
    let (w, h) = (extent(r), extent(r));
    let mut img: RgbaImage = gen::image(r, w, h);
    let map = WildMap(r.u64());
    let (nw, nh) = (r.below(9) as u32, r.below(9) as u32);
    step!(c, "thumbnail", touch(&imageops::thumbnail(&img, nw, nh)));
    step!(c, "vgrad", imageops::vertical_gradient(&mut img, &Rgba([1, 2, 3, 4]), &Rgba([250; 4])));
    step!(c, "hgrad", imageops::horizontal_gradient(&mut img, &Rgba([1, 2, 3, 4]), &Rgba([250; 4])));
    step!(c, "dither", imageops::dither(&mut img, &map));
    if let Some(idx) = step!(c, "indices", imageops::index_colors(&img, &map)) {
        let n = *r.pick(&[0usize, 1, 2, 100, 255, 256]);
        let pal: Vec<(u8, u8, u8)> = (0..n).map(|i| (i as u8, 1, 2)).collect();
        step!(c, "expand", touch(&idx.expand_palette(&pal, r.bool().then(|| r.u64() as u8))));
    }
    let mut g: GrayImage = gen::image(r, w, h);
    step!(c, "bilevel", imageops::dither(&mut g, &imageops::BiLevel));
    step!(c, "bilevel index", touch(&imageops::index_colors(&g, &imageops::BiLevel)));
    c.eval(vh::mix(r.u64()) | 1);
}

// ---------------------------------------------------------------- dynamic images

/// A decoder that lies about its size, and fills only part of the buffer.
struct FalseDecoder {
    dims: (u32, u32),
    color: ColorType,
    fill: u32,
    later: (u32, u32),
    calls: Cell<u32>,
    fail: bool,
}
impl ImageDecoder for FalseDecoder {
    fn dimensions(&self) -> (u32, u32) {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if n < 1 {
            self.dims
        } else {
            self.later
        }
    }
    fn color_type(&self) -> ColorType {
        self.color
    }
    fn read_image(self, buf: &mut [u8]) -> ImageResult<()> {
        // writes what it was given, as far as it cares to
        let n = buf.len() * self.fill as usize / 4;
        buf[..n].fill(0x5a);
        if self.fail {
            return Err(ImageError::IoError(std::io::Error::other("vh")));
        }
        Ok(())
    }
    fn read_image_boxed(self: Box<Self>, buf: &mut [u8]) -> ImageResult<()> {
        (*self).read_image(buf)
    }
}

fn to(i: &DynamicImage, c: ColorType) -> DynamicImage {
    match c {
        ColorType::L8 => i.to_luma8().into(),
        ColorType::La8 => i.to_luma_alpha8().into(),
        ColorType::Rgb8 => i.to_rgb8().into(),
        ColorType::Rgba8 => i.to_rgba8().into(),
        ColorType::L16 => i.to_luma16().into(),
        ColorType::La16 => i.to_luma_alpha16().into(),
        ColorType::Rgb16 => i.to_rgb16().into(),
        ColorType::Rgba16 => i.to_rgba16().into(),
        ColorType::Rgb32F => i.to_rgb32f().into(),
        _ => i.to_rgba32f().into(),
    }
}
fn dynamic(c: &mut Case) {
    let r = &mut c.rng.clone();
    let color = *r.pick(&gen::COLORS);
    let dims = (extent(r), extent(r));
    let d = FalseDecoder {
        dims,
        color,
        fill: r.below(5) as u32,
        later: if r.bool() { dims } else { (extent(r), extent(r)) },
        calls: Cell::new(0),
        fail: r.chance(1, 6),
    };
    if let Some(Ok(i)) = step!(c, "from_decoder", DynamicImage::from_decoder(d)) {
        touch_bytes(i.as_bytes());
        touch_bytes(&i.into_bytes());
        c.count("decoders that fill only part of the buffer", 1);
    }
    let (w, h) = (extent(r), extent(r));
    let mut i = gen::dynamic(r, color, w, h);
    for _ in 0..4 {
        let (x, y, cw, ch) = (coord(r, w), coord(r, h), coord(r, w), coord(r, h));
        match r.below(14) {
            0 => drop(step!(c, "get", touch(i.get_pixel(x, y).channels()))),
            1 => drop(step!(c, "put", i.put_pixel(x, y, Rgba([1, 2, 3, 4])))),
            2 => drop(step!(c, "crop", touch_bytes(i.crop_imm(x, y, cw, ch).as_bytes()))),
            3 => drop(step!(c, "crop mut", { touch_bytes(i.crop(x, y, cw, ch).as_bytes()) })),
            4 => drop(step!(c, "bytes", touch_bytes(&i.clone().into_bytes()))),
            5 => {
                let col = *r.pick(&gen::COLORS);
                step!(c, "convert", touch_bytes(to(&i, col).as_bytes()));
            }
            6 => {
                let (nw, nh) = (r.below(9) as u32, r.below(9) as u32);
                step!(c, "resize", touch_bytes(i.resize(nw, nh, FilterType::Triangle).as_bytes()));
                step!(c, "exact", touch_bytes(i.resize_exact(nw, nh, FilterType::CatmullRom).as_bytes()));
                step!(c, "fill", touch_bytes(i.resize_to_fill(nw, nh, FilterType::Nearest).as_bytes()));
                step!(c, "thumb", touch_bytes(i.thumbnail_exact(nw, nh).as_bytes()));
            }
            7 => drop(step!(c, "rot", touch_bytes(i.rotate90().as_bytes()) ^ touch_bytes(i.rotate270().as_bytes()) ^ touch_bytes(i.fliph().as_bytes()))),
            8 => drop(step!(c, "gray", touch_bytes(i.grayscale().as_bytes()))),
            9 => drop(step!(c, "filter", touch_bytes(i.filter3x3(&[0.1; 9]).as_bytes()))),
            10 => {
                let n = r.below(200) as usize;
                let v = vec![7u8; n];
                let to = r.below(10);
                step!(c, "from_raw", match to {
                    0 => RgbImage::from_raw(x, y, v).is_some(),
                    1 => RgbaImage::from_raw(x, y, v).is_some(),
                    _ => GrayAlphaImage::from_raw(x, y, v).is_some(),
                });
            }
            11 => {
                let o = *r.pick(&[metadata::Orientation::Rotate90, metadata::Orientation::Rotate270FlipH, metadata::Orientation::FlipVertical, metadata::Orientation::Rotate180]);
                step!(c, "orient", i.apply_orientation(o));
            }
            12 => drop(step!(c, "overlay", imageops::overlay(&mut i, &DynamicImage::new_rgba8(3, 3), x as i32 as i64, y as i32 as i64))),
            _ => drop(step!(c, "flat", match &i {
                DynamicImage::ImageRgba16(b) => touch(&b.as_flat_samples().to_vec().samples),
                DynamicImage::ImageRgb32F(b) => touch(&b.as_flat_samples().to_vec().samples),
                o => touch_bytes(o.as_bytes()),
            })),
        }
    }
    touch_bytes(i.as_bytes());
    c.eval(vh::mix(r.u64()) | 1);
}

// ---------------------------------------------------------------- codecs

/// A reader that breaks the contract of `Read` within safe code.
struct BadReader<'a> {
    data: Cursor<&'a [u8]>,
    mode: u32,
    n: u32,
}
impl Read for BadReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.n % 5 == 3 {
            match self.mode {
                // says it read bytes it did not write
                0 => return Ok(b.len()),
                // says it read more than there is room for
                1 => return Ok(b.len() + 1 + (self.n as usize % 70)),
                // reads the caller's buffer first
                2 => {
                    std::hint::black_box(touch_bytes(b));
                }
                _ => {}
            }
        }
        if self.mode == 2 {
            std::hint::black_box(touch_bytes(b));
        }
        self.data.read(b)
    }
}
impl Seek for BadReader<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let at = self.data.seek(p)?;
        Ok(if self.mode == 3 && self.n % 3 == 1 { at.wrapping_add(1 << 40) } else { at })
    }
}
impl std::io::BufRead for BadReader<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        self.n += 1;
        let cut = if self.mode == 4 && self.n % 2 == 0 { 1 } else { usize::MAX };
        let s = self.data.fill_buf()?;
        Ok(&s[..s.len().min(cut)])
    }
    fn consume(&mut self, n: usize) {
        self.data.consume(n)
    }
}

/// Valid and damaged files into buffers of the exact and of wrong sizes, at
/// odd addresses, ending where the allocation ends.
fn files(c: &mut Case, gen: fn(&mut Rng) -> vh::files::FileCase) {
    let r = &mut c.rng.clone();
    let f = gen(r);
    let mut b = f.bytes;
    if r.chance(1, 3) {
        for _ in 0..1 + r.below(3) {
            if b.is_empty() {
                break;
            }
            let i = r.below(b.len() as u64) as usize;
            match r.below(3) {
                0 => b[i] = r.u64() as u8,
                1 => b[i] ^= 1 << r.below(8),
                _ => b.truncate(i),
            }
        }
        c.count("damaged files", 1);
    }
    let fmt = f.fmt;
    c.sample(|| format!("{fmt:?} {} ({} bytes)", f.variant, b.len()));
    let exact: Box<[u8]> = b.into_boxed_slice();
    let mode = r.below(8) as u32;
    let src = || BadReader { data: Cursor::new(&exact), mode, n: 0 };
    let bad = r.chance(1, 3);
    let dims = step!(c, "head", with_decoder!(fmt, Cursor::new(&exact[..]), |d| d.map(|d| {
        let _ = d.color_type();
        let _ = d.original_color_type();
        d.total_bytes()
    })));
    if let Some(Ok(n)) = dims {
        if n < 1 << 22 {
            let n = n as usize;
            let len = *r.pick(&[n, n, n, n, n + 1, n.saturating_sub(1), 0, n / 2]);
            let off = r.below(4) as usize;
            // an exactly sized allocation: one byte past is out of bounds
            let mut buf = vec![0u8; off + len].into_boxed_slice();
            if bad {
                step!(c, "read", with_decoder!(fmt, src(), |d| d.and_then(|d| d.read_image(&mut buf[off..])).is_ok()));
                c.count("misbehaving readers", 1);
            } else {
                step!(c, "read", with_decoder!(fmt, Cursor::new(&exact[..]), |d| d.and_then(|d| d.read_image(&mut buf[off..])).is_ok()));
            }
            touch_bytes(&buf);
            c.count("reads into exact buffers", 1);
            if let Some(Ok(i)) = step!(c, "image", with_decoder!(fmt, Cursor::new(&exact[..]), |d| d.and_then(DynamicImage::from_decoder))) {
                touch_bytes(i.as_bytes());
                c.count("images decoded", 1);
            }
            let (x, y, w, h) = (coord(r, 9), coord(r, 9), extent(r), extent(r));
            let pitch = *r.pick(&[0usize, 1, w as usize * 3, w as usize * 8, 100, usize::MAX, usize::MAX / 2]);
            let mut buf = vec![0u8; r.below(600) as usize].into_boxed_slice();
            match fmt {
                ImageFormat::Bmp => drop(step!(c, "rect", codecs::bmp::BmpDecoder::new(Cursor::new(&exact[..])).and_then(|mut d| d.read_rect(x, y, w, h, &mut buf, pitch)).is_ok())),
                ImageFormat::Farbfeld => drop(step!(c, "rect", codecs::farbfeld::FarbfeldDecoder::new(Cursor::new(&exact[..])).and_then(|mut d| d.read_rect(x, y, w, h, &mut buf, pitch)).is_ok())),
                _ => {}
            }
            touch_bytes(&buf);
        }
    }
    c.eval(vh::hash_bytes(&exact) | 1);
}

/// Every encoder with pixels at odd addresses, exactly or wrongly sized.
fn encoders(c: &mut Case, vs: &[vh::enc::Variant]) {
    let r = &mut c.rng.clone();
    let v = loop {
        let v = r.pick(vs);
        if !v.slow {
            break v;
        }
    };
    let mut color = *r.pick(&gen::COLORS);
    while r.chance(9, 10) && !vh::enc::accepts(v, color) {
        color = *r.pick(&gen::COLORS);
    }
    let (w, h) = (extent(r), extent(r));
    let i = gen::dynamic(r, color, w, h);
    let px = i.as_bytes();
    let off = r.below(4) as usize;
    let n = *r.pick(&[px.len(), px.len(), px.len(), px.len() + 1, px.len().saturating_sub(1), 0, px.len() / 2]);
    let mut buf = vec![0u8; off + n].into_boxed_slice();
    let m = n.min(px.len());
    buf[off..off + m].copy_from_slice(&px[..m]);
    let (w2, h2) = if r.chance(1, 6) { (coord(r, w), coord(r, h)) } else { (w, h) };
    // the encoders may make what they are told to make; keep it small
    if area(w2, h2) > 1 << 16 {
        return;
    }
    let ec: ExtendedColorType = if r.chance(1, 6) { *r.pick(&[ExtendedColorType::A8, ExtendedColorType::L1, ExtendedColorType::Rgb4, ExtendedColorType::Bgr8, ExtendedColorType::Bgra8, ExtendedColorType::Rgb32F, ExtendedColorType::Rgba16, ExtendedColorType::Cmyk8, ExtendedColorType::Unknown(7), ExtendedColorType::Unknown(0), ExtendedColorType::L16]) } else { color.into() };
    if let Some(Ok(o)) = step!(c, "encode", v.encode(&buf[off..], w2, h2, ec)) {
        touch_bytes(&o);
        c.count("files encoded", 1);
    }
    c.eval(vh::mix(r.u64()) | 1);
}

pub fn run(ctx: &Ctx) {
    let tool = std::env::var("VH_TOOL").unwrap_or_else(|_| "none".into());
    let (asan, msan) = (tool == "asan", tool == "msan");
    let miri = cfg!(miri);
    ctx.rule("programs of safe calls with hostile arguments (panics allowed), lying containers, sources, decoders and readers, unaligned and exactly-sized buffers for every codec, and the workloads of the other monitors, run with the memory error detectors watching; `image` is built without debug assertions, the standard library with its precondition checks");
    ctx.assume("every sample and byte that comes back is branched on, so that uninitialised data shows");
    ctx.case_cpu(if miri { 900_000 } else { 120_000 });
    let all = |q: u64| if miri { (q / 400).max(6) } else { q };
    let sec = |name: &str, q: u64, t: u64, f: &(dyn Fn(&mut Case) + Sync)| ctx.section(name, all(q), all(t), f);
    sec("casts", 4000, 200_000, &|c| vh::some_pixel!(c, casts));
    sec("buffers", 30_000, 6_000_000, &|c| few!(c, access));
    sec("lying containers", 25_000, 1_000_000, &|c| few!(c, liars));
    sec("operations", 60_000, 4_000_000, &|c| few!(c, operations));
    sec("palettes", 10_000, 200_000, &palettes);
    sec("dynamic images", 30_000, 2_000_000, &dynamic);
    for (name, gen) in writers() {
        let (mut q, t) = match name {
            "avif" => (200, 4000),
            "exr" => (800, 20_000),
            "ico" => (5000, 200_000),
            _ => (10_000, 600_000),
        };
        // the AV1 decoder is C code, into which these two do not see
        if name == "avif" && (msan || miri) {
            continue;
        }
        if miri {
            q = match name {
                "exr" => continue,
                _ => 2400,
            };
        }
        sec(&format!("{name} files"), q, if miri { q * 4 } else { t }, &|c| files(c, gen));
    }
    let vs = vh::enc::variants();
    if miri {
        let vs: Vec<_> = vs.into_iter().filter(|v| !matches!(v.fmt, ImageFormat::OpenExr | ImageFormat::Avif)).collect();
        sec("encoders", 8000, 40_000, &|c| encoders(c, &vs));
    } else {
        sec("encoders", 16_000, 1_500_000, &|c| encoders(c, &vs));
    }
    #[cfg(feature = "modules")]
    if asan || msan || miri || tool == "all" {
        let s = if miri { 0.0005 } else { 0.1 };
        let t: &[(&str, f64, fn(&Ctx))] = &[
            ("A01", s, a01::run),
            ("A02", s, a02::run),
            ("A03", s, a03::run),
            ("A04", s, a04::run),
            ("A05", s, a05::run),
            ("A06", s, a06::run),
            ("A07", s, a07::run),
            ("B01", s, b01::run),
            ("B02", s, b02::run),
            ("B03", s, b03::run),
            ("B04", s, b04::run),
            ("B05", s, b05::run),
            ("B06", s, b06::run),
        ];
        for (n, s, f) in t {
            ctx.module(n, *s, *f);
        }
    }
    if asan || msan || tool == "all" {
        let t: &[(&str, f64, fn(&Ctx))] = &[
            ("C13", 0.05, c13::run),
            ("C12", 0.05, c12::run),
            ("C11", 0.03, c11::run),
            ("C09", 0.05, c09::run),
            ("C05", 0.05, c05::run),
            ("C02", 0.05, c02::run),
            ("C07", 0.03, c07::run),
            ("C06", 0.06, c06::run),
        ];
        for (n, s, f) in t {
            // the AVIF decoder is C code that MemorySanitizer does not see into
            if !(msan && matches!(*n, "C02" | "C06" | "C13" | "C11")) {
                ctx.module(n, *s, *f);
            }
        }
    }
    if !miri {
        ctx.require("calls made", 20_000);
        ctx.require("calls that panicked", 1000);
        ctx.require("reads into exact buffers", 5000);
        ctx.require("files encoded", 500);
        ctx.require("lying containers", 1000);
    }
}
