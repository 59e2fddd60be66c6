//! Uniform access to the decoders under test.
use image::{ColorType, ImageDecoder, ImageFormat, ImageResult};

/// Evaluate `$body` with `$d` bound to `ImageResult<ConcreteDecoder>` for the
/// format.
#[macro_export]
macro_rules! with_decoder {
    ($fmt:expr, $r:expr, |$d:ident| $body:expr) => {{
        use image::codecs as k;
        let r = $r;
        match $fmt {
            image::ImageFormat::Bmp => { let $d = k::bmp::BmpDecoder::new(r); $body }
            image::ImageFormat::Dds => { let $d = k::dds::DdsDecoder::new(r); $body }
            image::ImageFormat::OpenExr => { let $d = k::openexr::OpenExrDecoder::new(r); $body }
            image::ImageFormat::Farbfeld => { let $d = k::farbfeld::FarbfeldDecoder::new(r); $body }
            image::ImageFormat::Gif => { let $d = k::gif::GifDecoder::new(r); $body }
            image::ImageFormat::Hdr => { let $d = k::hdr::HdrDecoder::new(r); $body }
            image::ImageFormat::Ico => { let $d = k::ico::IcoDecoder::new(r); $body }
            image::ImageFormat::Jpeg => { let $d = k::jpeg::JpegDecoder::new(r); $body }
            image::ImageFormat::Png => { let $d = k::png::PngDecoder::new(r); $body }
            image::ImageFormat::Pnm => { let $d = k::pnm::PnmDecoder::new(r); $body }
            image::ImageFormat::Qoi => { let $d = k::qoi::QoiDecoder::new(r); $body }
            image::ImageFormat::Tga => { let $d = k::tga::TgaDecoder::new(r); $body }
            image::ImageFormat::Tiff => { let $d = k::tiff::TiffDecoder::new(r); $body }
            image::ImageFormat::WebP => { let $d = k::webp::WebPDecoder::new(r); $body }
            image::ImageFormat::Avif => { let $d = k::avif::AvifDecoder::new(r); $body }
            f => panic!("no decoder for {f:?}"),
        }
    }};
}

#[derive(Clone, PartialEq)]
pub struct Decoded {
    pub w: u32,
    pub h: u32,
    pub color: ColorType,
    pub px: Vec<u8>,
}
impl std::fmt::Debug for Decoded {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}x{} {:?} #{:x}", self.w, self.h, self.color, crate::hash_bytes(&self.px))
    }
}

pub const MAX_BYTES: u64 = 1 << 27;
/// Larger images are not decoded by `read`.
pub static CAP: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(MAX_BYTES);

/// Decode the whole image; buffers are pre-filled with `fill`. Images that
/// need more than 128 MB are not decoded (`None`).
pub fn read_fill<D: ImageDecoder>(d: D, fill: u8) -> ImageResult<Option<Decoded>> {
    let (w, h) = d.dimensions();
    let color = d.color_type();
    let n = d.total_bytes();
    if n > CAP.load(std::sync::atomic::Ordering::Relaxed) {
        return Ok(None);
    }
    let mut px = vec![fill; n as usize];
    d.read_image(&mut px)?;
    Ok(Some(Decoded { w, h, color, px }))
}
pub fn read<D: ImageDecoder>(d: D) -> ImageResult<Option<Decoded>> {
    read_fill(d, 0xa5)
}
/// Through the concrete decoder, from memory.
pub fn decode(fmt: ImageFormat, b: &[u8]) -> ImageResult<Option<Decoded>> {
    with_decoder!(fmt, std::io::Cursor::new(b), |d| read(d?))
}
pub fn boxed<'a>(fmt: ImageFormat, b: &'a [u8]) -> ImageResult<Box<dyn ImageDecoder + 'a>> {
    with_decoder!(fmt, std::io::Cursor::new(b), |d| Ok(Box::new(d?) as Box<dyn ImageDecoder + 'a>))
}
pub fn of_dynamic(i: &image::DynamicImage) -> Decoded {
    Decoded { w: i.width(), h: i.height(), color: i.color(), px: i.as_bytes().to_vec() }
}
/// Discriminating part of an error, stable between equal causes.
pub fn kind(e: &image::ImageError) -> String {
    use image::ImageError::*;
    match e {
        Decoding(_) => "Decoding".into(),
        Encoding(_) => "Encoding".into(),
        Parameter(_) => "Parameter".into(),
        Limits(l) => format!("Limits {:?}", l.kind()),
        Unsupported(_) => "Unsupported".into(),
        IoError(e) => format!("Io {:?}", e.kind()),
    }
}

/// Limits under which nothing large is allocated.
pub fn small_limits() -> image::Limits {
    let mut l = image::Limits::no_limits();
    l.max_alloc = Some(1 << 24);
    l.max_image_width = Some(20_000);
    l.max_image_height = Some(20_000);
    l
}
/// The frame iterator of an animated format, under `small_limits`.
pub fn frames<'a, R: std::io::BufRead + std::io::Seek + 'a>(fmt: ImageFormat, r: R) -> ImageResult<image::Frames<'a>> {
    use image::AnimationDecoder;
    match fmt {
        ImageFormat::Gif => {
            let mut d = image::codecs::gif::GifDecoder::new(r)?;
            d.set_limits(small_limits())?;
            Ok(d.into_frames())
        }
        ImageFormat::Png => {
            let mut d = image::codecs::png::PngDecoder::with_limits(r, small_limits())?;
            d.set_limits(small_limits())?;
            Ok(d.apng()?.into_frames())
        }
        _ => {
            let mut d = image::codecs::webp::WebPDecoder::new(r)?;
            d.set_limits(small_limits())?;
            Ok(d.into_frames())
        }
    }
}

/// Everything a frame iterator yields, up to the first error.
#[derive(Clone, PartialEq, Debug)]
pub struct Walk {
    pub frames: Vec<(u32, u32, u32, u32, (u32, u32), u64)>,
    pub end: Result<(), String>,
}
pub fn walk(it: ImageResult<image::Frames<'_>>, max: usize) -> Walk {
    let mut w = Walk { frames: vec![], end: Ok(()) };
    let it = match it {
        Ok(i) => i,
        Err(e) => {
            w.end = Err(kind(&e));
            return w;
        }
    };
    for f in it.take(max) {
        match f {
            Ok(f) => {
                let b = f.buffer();
                w.frames.push((f.left(), f.top(), b.width(), b.height(), f.delay().numer_denom_ms(), crate::hash_bytes(b.as_raw())))
            }
            Err(e) => {
                w.end = Err(kind(&e));
                break;
            }
        }
    }
    w
}

/// Decode, with the answers to all queries before.
#[derive(Clone, PartialEq, Debug)]
pub struct Outcome {
    pub meta: Vec<String>,
    pub img: Result<Option<Decoded>, String>,
}
pub fn outcome(fmt: ImageFormat, r: impl std::io::BufRead + std::io::Seek) -> Outcome {
    let mut meta = vec![];
    let img = with_decoder!(fmt, r, |d| (|| {
        let mut d = d?;
        d.set_limits(small_limits())?;
        meta.push(format!("{:?} {:?} {:?} {}", d.dimensions(), d.color_type(), d.original_color_type(), d.total_bytes()));
        meta.push(format!("icc {:?}", d.icc_profile().map_err(|e| kind(&e)).map(|o| o.map(|b| crate::hash_bytes(&b)))));
        meta.push(format!("exif {:?}", d.exif_metadata().map_err(|e| kind(&e)).map(|o| o.map(|b| crate::hash_bytes(&b)))));
        meta.push(format!("orientation {:?}", d.orientation().map_err(|e| kind(&e))));
        read(d)
    })());
    Outcome { meta, img: img.map_err(|e| kind(&e)) }
}

/// Whether an OpenEXR file claims rows of more than 100000 pixels of data.
pub fn exr_wide(b: &[u8]) -> bool {
    let key = b"dataWindow\0box2i\0";
    b.windows(key.len()).enumerate().filter(|x| x.1 == key).any(|(p, _)| {
        let q = p + key.len() + 4;
        let v = |i: usize| b.get(q + i..q + i + 4).map_or(0, |x| i32::from_le_bytes(x.try_into().unwrap()) as i64);
        v(8) - v(0) > 100_000
    })
}
