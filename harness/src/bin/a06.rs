//! A06: a dynamic image behaves exactly like the typed buffer it wraps.
#![allow(deprecated)]
use image::buffer::ConvertBuffer;
use image::imageops::{self, FilterType};
use image::metadata::Orientation;
use image::{
    ColorType, DynamicImage, ExtendedColorType, GenericImage, GenericImageView, ImageBuffer, ImageDecoder, ImageFormat, ImageResult, Luma,
    LumaA, Pixel, Rgb, Rgba,
};
use std::io::Cursor;
use vh::gen::{self, Samp};
use vh::{catch, check, mix, Case, Ctx};

vh::property_main!("A06");

const FILTERS: [FilterType; 5] =
    [FilterType::Nearest, FilterType::Triangle, FilterType::CatmullRom, FilterType::Gaussian, FilterType::Lanczos3];

/// Native-order bytes of a typed buffer, computed sample by sample.
trait Bytes: Samp {
    fn ne_bytes(self, o: &mut Vec<u8>);
    fn thumb<P: Pixel<Subpixel = Self> + 'static>(b: &gen::Buf<P>, w: u32, h: u32) -> gen::Buf<P>;
}
impl Bytes for u8 {
    fn thumb<P: Pixel<Subpixel = Self> + 'static>(b: &gen::Buf<P>, w: u32, h: u32) -> gen::Buf<P> {
        imageops::thumbnail(b, w, h)
    }
    fn ne_bytes(self, o: &mut Vec<u8>) {
        o.push(self)
    }
}
impl Bytes for u16 {
    fn thumb<P: Pixel<Subpixel = Self> + 'static>(b: &gen::Buf<P>, w: u32, h: u32) -> gen::Buf<P> {
        imageops::thumbnail(b, w, h)
    }
    fn ne_bytes(self, o: &mut Vec<u8>) {
        o.extend(self.to_ne_bytes())
    }
}
impl Bytes for f32 {
    fn thumb<P: Pixel<Subpixel = Self> + 'static>(b: &gen::Buf<P>, w: u32, h: u32) -> gen::Buf<P> {
        imageops::thumbnail(b, w, h)
    }
    fn ne_bytes(self, o: &mut Vec<u8>) {
        o.extend(self.to_ne_bytes())
    }
}
fn bytes<P: Pixel>(b: &gen::Buf<P>) -> Vec<u8>
where
    P::Subpixel: Bytes,
{
    let n = b.width() as usize * b.height() as usize * P::CHANNEL_COUNT as usize;
    let mut o = vec![];
    for s in &b.as_raw()[..n] {
        s.ne_bytes(&mut o);
    }
    o
}

/// what a typed operation produced: colour type, dimensions, bytes
type Res = Result<(ColorType, u32, u32, Vec<u8>), String>;

fn of_dyn(r: Result<DynamicImage, vh::PanicInfo>) -> Res {
    match r {
        Ok(d) => Ok((d.color(), d.width(), d.height(), d.as_bytes().to_vec())),
        Err(_) => Err("panic".into()),
    }
}

struct Op {
    k: u64,
    x: u32,
    y: u32,
    w: u32,
    h: u32,
    f: FilterType,
    s: f32,
    i: i32,
    kern: [f32; 9],
    px: Rgba<u8>,
}

const NOPS: u64 = 25;

fn op(c: &mut Case, w: u32, h: u32) -> Op {
    Op {
        k: c.rng.below(NOPS),
        x: c.rng.r32(0, w + 1),
        y: c.rng.r32(0, h + 1),
        w: c.rng.r32(1, w.clamp(1, 20) + 4),
        h: c.rng.r32(1, h.clamp(1, 20) + 4),
        f: *c.rng.pick(&FILTERS),
        s: *c.rng.pick(&[0.3f32, 0.8, 1.0, 2.5]),
        i: c.rng.irange(-300, 300) as i32,
        kern: std::array::from_fn(|_| c.rng.irange(-2, 3) as f32),
        px: Rgba(c.rng.u32().to_le_bytes()),
    }
}

/// The operation on the typed buffer. `dw`,`dh`: dimensions the dynamic form chose.
fn typed<P>(b: &gen::Buf<P>, o: &Op, dw: u32, dh: u32) -> Option<gen::Buf<P>>
where
    P: Pixel + 'static,
    P::Subpixel: Bytes,
{
    Some(match o.k {
        0 | 1 => {
            let (x, y) = (o.x.min(b.width()), o.y.min(b.height()));
            let (w, h) = (o.w.min(b.width() - x), o.h.min(b.height() - y));
            b.view(x, y, w, h).to_image()
        }
        2 => {
            let mut d = b.clone();
            imageops::invert(&mut d);
            d
        }
        3 => imageops::resize(b, o.w, o.h, o.f),
        4 => P::Subpixel::thumb(b, o.w, o.h),
        5 => {
            if (o.w, o.h) == b.dimensions() {
                b.clone()
            } else {
                imageops::resize(b, dw, dh, o.f)
            }
        }
        6 => P::Subpixel::thumb(b, dw, dh),
        7 => imageops::blur(b, o.s),
        8 => imageops::fast_blur(b, o.s),
        9 => imageops::unsharpen(b, o.s, o.i.abs()),
        10 => imageops::filter3x3(b, &o.kern),
        11 => imageops::contrast(b, o.s * 10.0),
        12 => imageops::brighten(b, o.i),
        13 => imageops::huerotate(b, o.i),
        14 => imageops::flip_vertical(b),
        15 => imageops::flip_horizontal(b),
        16 => imageops::rotate90(b),
        17 => imageops::rotate180(b),
        18 => imageops::rotate270(b),
        _ => return None,
    })
}

fn dyn_op(d: &DynamicImage, o: &Op) -> Option<DynamicImage> {
    Some(match o.k {
        0 => d.crop_imm(o.x, o.y, o.w, o.h),
        1 => d.clone().crop(o.x, o.y, o.w, o.h),
        2 => {
            let mut d = d.clone();
            d.invert();
            d
        }
        3 => d.resize_exact(o.w, o.h, o.f),
        4 => d.thumbnail_exact(o.w, o.h),
        5 => d.resize(o.w, o.h, o.f),
        6 => d.thumbnail(o.w, o.h),
        7 => d.blur(o.s),
        8 => d.fast_blur(o.s),
        9 => d.unsharpen(o.s, o.i.abs()),
        10 => d.filter3x3(&o.kern),
        11 => d.adjust_contrast(o.s * 10.0),
        12 => d.brighten(o.i),
        13 => d.huerotate(o.i),
        14 => d.flipv(),
        15 => d.fliph(),
        16 => d.rotate90(),
        17 => d.rotate180(),
        18 => d.rotate270(),
        _ => return None,
    })
}

fn orient<P: Pixel + 'static>(b: &gen::Buf<P>, n: u8) -> gen::Buf<P> {
    use imageops::*;
    match n {
        1 => b.clone(),
        2 => flip_horizontal(b),
        3 => rotate180(b),
        4 => flip_vertical(b),
        5 => flip_horizontal(&rotate90(b)),
        6 => rotate90(b),
        7 => flip_horizontal(&rotate270(b)),
        _ => rotate270(b),
    }
}

macro_rules! variant {
    ($c:expr, $d:expr, $f:ident $(, $a:expr)*) => {
        match &$d {
            DynamicImage::ImageLuma8(b) => $f($c, &$d, b, ColorType::L8 $(, $a)*),
            DynamicImage::ImageLumaA8(b) => $f($c, &$d, b, ColorType::La8 $(, $a)*),
            DynamicImage::ImageRgb8(b) => $f($c, &$d, b, ColorType::Rgb8 $(, $a)*),
            DynamicImage::ImageRgba8(b) => $f($c, &$d, b, ColorType::Rgba8 $(, $a)*),
            DynamicImage::ImageLuma16(b) => $f($c, &$d, b, ColorType::L16 $(, $a)*),
            DynamicImage::ImageLumaA16(b) => $f($c, &$d, b, ColorType::La16 $(, $a)*),
            DynamicImage::ImageRgb16(b) => $f($c, &$d, b, ColorType::Rgb16 $(, $a)*),
            DynamicImage::ImageRgba16(b) => $f($c, &$d, b, ColorType::Rgba16 $(, $a)*),
            DynamicImage::ImageRgb32F(b) => $f($c, &$d, b, ColorType::Rgb32F $(, $a)*),
            DynamicImage::ImageRgba32F(b) => $f($c, &$d, b, ColorType::Rgba32F $(, $a)*),
            _ => unreachable!(),
        }
    };
}

fn step<P>(c: &mut Case, d: &DynamicImage, b: &gen::Buf<P>, ct: ColorType, o: &Op)
where
    P: Pixel + 'static,
    P::Subpixel: Bytes,
    DynamicImage: From<gen::Buf<P>>,
{
    let got = of_dyn(catch(|| dyn_op(d, o).unwrap()));
    let (dw, dh) = got.as_ref().map_or((1, 1), |g| (g.1, g.2));
    let want: Res = match catch(|| typed(b, o, dw, dh).unwrap()) {
        Ok(t) => Ok((ct, t.width(), t.height(), bytes(&t))),
        Err(_) => Err("panic".into()),
    };
    let n = o.k;
    check!(c, got == want, format!("op:{n}"), "operation {n} on {ct:?} {}x{} (args x{} y{} w{} h{} {:?} s{} i{}): dynamic {:?} typed {:?}",
        b.width(), b.height(), o.x, o.y, o.w, o.h, o.f, o.s, o.i,
        got.as_ref().map(|g| (g.0, g.1, g.2, vh::hash_bytes(&g.3))), want.as_ref().map(|g| (g.0, g.1, g.2, vh::hash_bytes(&g.3))));
    if got.is_ok() {
        c.count("operations compared", 1);
    } else {
        c.count("both panicked", 1);
    }
}

fn queries<P>(c: &mut Case, d: &DynamicImage, b: &gen::Buf<P>, ct: ColorType)
where
    P: Pixel + 'static,
    P::Subpixel: Bytes,
    DynamicImage: From<gen::Buf<P>>,
{
    let (w, h) = b.dimensions();
    check!(c, d.color() == ct, "color", "color() {:?} for {ct:?}", d.color());
    check!(c, (d.width(), d.height()) == (w, h) && d.dimensions() == (w, h), "dims", "dimensions of {ct:?}");
    let raw = bytes(b);
    check!(c, d.as_bytes() == &raw[..], "as_bytes", "as_bytes of {ct:?} {w}x{h}");
    check!(c, d.clone().into_bytes() == raw, "into_bytes", "into_bytes of {ct:?} {w}x{h}");
    check!(c, raw.len() == w as usize * h as usize * ct.bytes_per_pixel() as usize, "bpp", "bytes per pixel of {ct:?}");
    // colour information
    let bits = std::mem::size_of::<P::Subpixel>() as u16 * 8 * P::CHANNEL_COUNT as u16;
    check!(c, ct.bits_per_pixel() == bits && ct.bytes_per_pixel() as u16 * 8 == bits && ct.channel_count() == P::CHANNEL_COUNT, "colortype", "{ct:?} sizes");
    check!(c, ct.has_alpha() == (P::CHANNEL_COUNT % 2 == 0) && ct.has_color() == (P::CHANNEL_COUNT >= 3), "colortype", "{ct:?} kinds");
    let e = ExtendedColorType::from(ct);
    check!(c, e.channel_count() == P::CHANNEL_COUNT && e.bits_per_pixel() == bits, "extcolor", "{e:?} sizes");
    // exactly one accessor answers
    let mut m = d.clone();
    let refs = [
        (ColorType::L8, d.as_luma8().is_some(), m.as_mut_luma8().is_some()),
        (ColorType::La8, d.as_luma_alpha8().is_some(), m.as_mut_luma_alpha8().is_some()),
        (ColorType::Rgb8, d.as_rgb8().is_some(), m.as_mut_rgb8().is_some()),
        (ColorType::Rgba8, d.as_rgba8().is_some(), m.as_mut_rgba8().is_some()),
        (ColorType::L16, d.as_luma16().is_some(), m.as_mut_luma16().is_some()),
        (ColorType::La16, d.as_luma_alpha16().is_some(), m.as_mut_luma_alpha16().is_some()),
        (ColorType::Rgb16, d.as_rgb16().is_some(), m.as_mut_rgb16().is_some()),
        (ColorType::Rgba16, d.as_rgba16().is_some(), m.as_mut_rgba16().is_some()),
        (ColorType::Rgb32F, d.as_rgb32f().is_some(), m.as_mut_rgb32f().is_some()),
        (ColorType::Rgba32F, d.as_rgba32f().is_some(), m.as_mut_rgba32f().is_some()),
    ];
    for (t, a, b) in refs {
        check!(c, a == (t == ct) && b == (t == ct), "as", "accessor for {t:?} on {ct:?}: {a} {b}");
    }
    let sz = std::mem::size_of::<P::Subpixel>();
    let (f8, f16, f32_) = (d.as_flat_samples_u8(), d.as_flat_samples_u16(), d.as_flat_samples_f32());
    check!(c, f8.is_some() == (sz == 1) && f16.is_some() == (sz == 2) && f32_.is_some() == (sz == 4), "flat", "flat sample accessors of {ct:?}");
    let lay = b.sample_layout();
    for (l, p) in [f8.as_ref().map(|f| (f.layout, f.samples.as_ptr() as usize)), f16.as_ref().map(|f| (f.layout, f.samples.as_ptr() as usize)), f32_.as_ref().map(|f| (f.layout, f.samples.as_ptr() as usize))].into_iter().flatten() {
        check!(c, l == lay && p == b.as_raw().as_ptr() as usize, "flat", "flat samples of {ct:?}: {l:?} vs {lay:?}");
    }
    check!(c, f8.map(|f| f.color_hint).or(f16.map(|f| f.color_hint)).or(f32_.map(|f| f.color_hint)) == Some(None), "flat-hint", "colour hint");
    // construction
    let z = DynamicImage::new(w, h, ct);
    check!(c, z.color() == ct && z.dimensions() == (w, h) && z.as_bytes().iter().all(|v| *v == 0) && z.as_bytes().len() == raw.len(), "new", "new({w},{h},{ct:?})");
    #[allow(deprecated)]
    let named = match ct {
        ColorType::L8 => DynamicImage::new_luma8(w, h),
        ColorType::La8 => DynamicImage::new_luma_a8(w, h),
        ColorType::Rgb8 => DynamicImage::new_rgb8(w, h),
        ColorType::Rgba8 => DynamicImage::new_rgba8(w, h),
        ColorType::L16 => DynamicImage::new_luma16(w, h),
        ColorType::La16 => DynamicImage::new_luma_a16(w, h),
        ColorType::Rgb16 => DynamicImage::new_rgb16(w, h),
        ColorType::Rgba16 => DynamicImage::new_rgba16(w, h),
        ColorType::Rgb32F => DynamicImage::new_rgb32f(w, h),
        _ => DynamicImage::new_rgba32f(w, h),
    };
    check!(c, named == z && named.color() == ct, "new", "the constructor named after {ct:?} gives {:?}", named.color());
    let f = DynamicImage::from(b.clone());
    check!(c, f == *d && f.color() == ct, "from", "From<ImageBuffer> of {ct:?}");
    let k = d.clone();
    check!(c, k == *d, "clone", "clone of {ct:?}");
    // clone_from from any other variant
    let oc = *c.rng.pick(&gen::COLORS);
    let (ow, oh) = (c.rng.r32(0, 5), c.rng.r32(0, 5));
    let mut t = gen::dynamic(&mut c.rng, oc, ow, oh);
    t.clone_from(d);
    check!(c, t.color() == ct && t.dimensions() == (w, h) && t.as_bytes() == &raw[..], "clone_from", "{oc:?} clone_from {ct:?}");
    // equality distinguishes content and type
    if !raw.is_empty() {
        let mut r2 = raw.clone();
        let i = c.rng.below(r2.len() as u64) as usize;
        r2[i] ^= 1;
        let mut e = b.clone();
        let n = e.as_raw().len();
        let j = c.rng.below(n as u64) as usize;
        let s = e.as_raw()[j];
        let s2 = if s.f() == 0.0 { P::Subpixel::unit(1.0) } else { P::Subpixel::unit(0.0) };
        let ch = P::CHANNEL_COUNT as usize;
        let (x, y) = ((j / ch) as u32 % w, (j / ch) as u32 / w);
        e.get_pixel_mut(x, y).channels_mut()[j % ch] = s2;
        check!(c, DynamicImage::from(e) != *d, "eq", "images differing in sample {j} of {ct:?} compare equal");
    }
    // pixels and bounds through the generic interface
    for _ in 0..4 {
        let (x, y) = (c.rng.r32(0, w + 1), c.rng.r32(0, h + 1));
        check!(c, d.in_bounds(x, y) == (x < w && y < h), "in_bounds", "in_bounds({x},{y}) of {w}x{h}");
        if x >= w || y >= h {
            check!(c, catch(|| d.get_pixel(x, y)).is_err(), "get_pixel-oob", "get_pixel({x},{y}) of {w}x{h} {ct:?}");
            let q = Rgba([1, 2, 3, 4]);
            check!(c, catch(|| d.clone().put_pixel(x, y, q)).is_err(), "put_pixel-oob", "put_pixel({x},{y}) of {w}x{h} {ct:?}");
        }
    }
    check!(c, d.pixels().count() as u64 == w as u64 * h as u64, "pixels-count", "pixels() of {ct:?}");
}

/// one of the conversions a pixel written through the dynamic interface undergoes
fn pixel_write<P>(c: &mut Case, d: &DynamicImage, b: &gen::Buf<P>, ct: ColorType, o: &Op)
where
    P: Pixel + 'static,
    P::Subpixel: Bytes,
    DynamicImage: From<gen::Buf<P>>,
    ImageBuffer<Rgba<u8>, Vec<u8>>: ConvertBuffer<gen::Buf<P>>,
{
    let (w, h) = b.dimensions();
    if w == 0 || h == 0 {
        return;
    }
    let (x, y) = (o.x % w, o.y % h);
    let one: ImageBuffer<Rgba<u8>, Vec<u8>> = ImageBuffer::from_pixel(1, 1, o.px);
    let p: P = *ConvertBuffer::<gen::Buf<P>>::convert(&one).get_pixel(0, 0);
    let mut t = b.clone();
    let mut e = d.clone();
    if c.rng.bool() {
        t.put_pixel(x, y, p);
        e.put_pixel(x, y, o.px);
        check!(c, e.as_bytes() == &bytes(&t)[..], "put_pixel", "put_pixel({x},{y},{:?}) of {ct:?}", o.px);
    } else {
        t.get_pixel_mut(x, y).blend(&p);
        e.blend_pixel(x, y, o.px);
        check!(c, e.as_bytes() == &bytes(&t)[..], "blend_pixel", "blend_pixel({x},{y},{:?}) of {ct:?}", o.px);
    }
    c.count("pixel writes", 1);
}

fn orientation<P>(c: &mut Case, d: &DynamicImage, b: &gen::Buf<P>, ct: ColorType)
where
    P: Pixel + 'static,
    P::Subpixel: Bytes,
    DynamicImage: From<gen::Buf<P>>,
{
    for n in 1..=8u8 {
        let mut e = d.clone();
        e.apply_orientation(Orientation::from_exif(n).unwrap());
        let t = orient(b, n);
        check!(c, e.color() == ct && e.dimensions() == t.dimensions() && e.as_bytes() == &bytes(&t)[..], format!("orientation:{n}"), "orientation {n} of {ct:?} {:?}", b.dimensions());
    }
    c.count("orientations", 8);
}

fn gray(c: &mut Case, d: &DynamicImage) {
    // documented: gray of the same depth, keeping alpha; colour floats stay colour
    let g = d.grayscale();
    let want: DynamicImage = match d {
        DynamicImage::ImageLuma8(_) | DynamicImage::ImageRgb8(_) => d.to_luma8().into(),
        DynamicImage::ImageLumaA8(_) | DynamicImage::ImageRgba8(_) => d.to_luma_alpha8().into(),
        DynamicImage::ImageLuma16(_) | DynamicImage::ImageRgb16(_) => d.to_luma16().into(),
        DynamicImage::ImageLumaA16(_) | DynamicImage::ImageRgba16(_) => d.to_luma_alpha16().into(),
        DynamicImage::ImageRgb32F(_) => d.to_luma32f().into(),
        _ => d.to_luma_alpha32f().into(),
    };
    check!(c, g.color() == want.color() && g.dimensions() == want.dimensions() && g.as_bytes() == want.as_bytes(), "grayscale", "grayscale of {:?}: {:?}, want {:?}", d.color(), g.color(), want.color());
    c.count("operations compared", 1);
}

fn writes<P>(c: &mut Case, d: &DynamicImage, b: &gen::Buf<P>, ct: ColorType)
where
    P: Pixel + image::PixelWithColorType + 'static,
    P::Subpixel: Bytes,
    [P::Subpixel]: image::EncodableLayout,
{
    check!(c, P::COLOR_TYPE == ExtendedColorType::from(ct), "color-const", "{ct:?} has COLOR_TYPE {:?}", P::COLOR_TYPE);
    for f in [ImageFormat::Png, ImageFormat::Bmp, ImageFormat::Tiff, ImageFormat::Pnm, ImageFormat::Tga, ImageFormat::Farbfeld, ImageFormat::Qoi] {
        let mut x = Cursor::new(vec![]);
        let mut y = Cursor::new(vec![]);
        let r = d.write_to(&mut x, f);
        let s = b.write_to(&mut y, f);
        check!(c, r.is_ok() == s.is_ok(), "write_to", "{f:?} of {ct:?}: dynamic {r:?}, typed {s:?}");
        if r.is_ok() && s.is_ok() {
            check!(c, x.into_inner() == y.into_inner(), "write_to-bytes", "{f:?} of {ct:?} {:?} differs", b.dimensions());
            c.count("writes compared", 1);
        }
    }
    let (mut x, mut y) = (vec![], vec![]);
    let r = d.write_with_encoder(image::codecs::png::PngEncoder::new(&mut x));
    let s = b.write_with_encoder(image::codecs::png::PngEncoder::new(&mut y));
    check!(c, r.is_ok() == s.is_ok() && x == y, "write_with_encoder", "png encoder of {ct:?}");
}

/// A decoder that hands out given bytes.
struct Fake {
    d: (u32, u32),
    c: ColorType,
    b: Vec<u8>,
}
impl ImageDecoder for Fake {
    fn dimensions(&self) -> (u32, u32) {
        self.d
    }
    fn color_type(&self) -> ColorType {
        self.c
    }
    fn read_image(self, buf: &mut [u8]) -> ImageResult<()> {
        buf.copy_from_slice(&self.b);
        Ok(())
    }
    fn read_image_boxed(self: Box<Self>, buf: &mut [u8]) -> ImageResult<()> {
        (*self).read_image(buf)
    }
}

fn raw_build<P>(c: &mut Case, d: &DynamicImage, b: &gen::Buf<P>, ct: ColorType)
where
    P: Pixel + 'static,
    P::Subpixel: Bytes,
{
    let (w, h) = b.dimensions();
    let r = DynamicImage::from_decoder(Fake { d: (w, h), c: ct, b: bytes(b) });
    match r {
        Ok(e) => check!(c, e.color() == ct && e == *d, "from_decoder", "from_decoder of {ct:?} {w}x{h}"),
        Err(e) => c.fail("from_decoder", format!("from_decoder of {ct:?} {w}x{h}: {e}")),
    }
    // typed construction accepts exactly large enough input
    let need = w as usize * h as usize * P::CHANNEL_COUNT as usize;
    let v: Vec<P::Subpixel> = b.as_raw()[..need].to_vec();
    if need > 0 {
        check!(c, gen::Buf::<P>::from_raw(w, h, v[..need - 1].to_vec()).is_none(), "from_raw-short", "{ct:?} {w}x{h} from {} samples", need - 1);
    }
    check!(c, gen::Buf::<P>::from_raw(w, h, v).is_some(), "from_raw-exact", "{ct:?} {w}x{h} from {need} samples");
}

fn case(c: &mut Case) {
    let ct = gen::COLORS[(c.idx % 10) as usize];
    let (w, h) = if let Some(d) = c.rng.long(1000) {
        d
    } else if c.rng.chance(1, 25) { (c.rng.r32(0, 2), c.rng.r32(0, 2)) } else { (c.rng.size(20), c.rng.size(20)) };
    let mut d = gen::dynamic(&mut c.rng, ct, w, h);
    variant!(c, d, queries);
    gray(c, &d);
    for s in 0..3 {
        let o = op(c, d.width(), d.height());
        c.eval(mix(mix(o.k ^ (d.width() as u64) << 8 ^ (d.height() as u64) << 20) ^ (c.idx % 10) << 3 ^ s) | 1);
        c.at(&format!("{ct:?} {}x{} op {}", d.width(), d.height(), o.k));
        match o.k {
            19 => variant!(c, d, orientation),
            20 | 21 => variant!(c, d, pixel_write, &o),
            22 if d.width() > 0 && d.height() > 0 => variant!(c, d, writes),
            23 | 24 | 22 => variant!(c, d, raw_build),
            _ => {
                variant!(c, d, step, &o);
                // continue the history on the result
                if let Ok(Some(n)) = catch(|| dyn_op(&d, &o)) {
                    if n.width() < 64 && n.height() < 64 {
                        d = n;
                    }
                }
            }
        }
    }
}

/// each operation on each variant
fn grid(c: &mut Case) {
    let ct = gen::COLORS[(c.idx % 10) as usize];
    let k = c.idx / 10 % 19;
    let (w, h) = (c.rng.size(16), c.rng.size(16));
    let d = gen::dynamic(&mut c.rng, ct, w, h);
    let mut o = op(c, w, h);
    o.k = k;
    c.eval(mix(c.idx) | 1);
    variant!(c, d, step, &o);
}

pub fn run(ctx: &Ctx) {
    let _ = (Luma([0u8]), LumaA([0u8, 0]), Rgb([0u8; 3]));
    ctx.rule("distinct = (operation, variant, size) combinations, as single operations on all 10 variants and as histories of three");
    ctx.assume("the oracle is the same operation on the typed buffer; the operations themselves are decided by A04, A05, A07 and B01-B06");
    ctx.section("grid", 190 * 12, 190 * 250, grid);
    ctx.section("histories", 30_000, 500_000, case);
    ctx.require("operations compared", 5000);
    ctx.require("writes compared", 500);
}
