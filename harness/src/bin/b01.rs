//! B01: rotations, flips and orientation are exact pixel permutations.
use image::metadata::Orientation;
use image::{imageops, DynamicImage, GenericImage, GenericImageView, ImageBuffer, Pixel};
use vh::gen::{self, Samp};
use vh::model::{Grid, Plain};
use vh::{catch, check, mix, Case, Ctx};

vh::property_main!("B01");

fn dims(c: &mut Case) -> (u32, u32) {
    if let Some(d) = c.rng.long(300) {
        return d;
    }
    match c.rng.below(12) {
        0 => (c.rng.r32(0, 2), c.rng.r32(0, 2)),
        1 => (c.rng.r32(0, 200), c.rng.r32(0, 3)),
        2 => (c.rng.r32(0, 3), c.rng.r32(0, 200)),
        _ => (c.rng.size(20), c.rng.size(20)),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Id,
    R90,
    R180,
    R270,
    FH,
    FV,
    Transpose,
    Transverse,
}
use Op::*;
const OPS: [Op; 8] = [Id, R90, R180, R270, FH, FV, Transpose, Transverse];
impl Op {
    fn swaps(self) -> bool {
        matches!(self, R90 | R270 | Transpose | Transverse)
    }
    /// Where the pixel at (x, y) of a w x h image goes.
    fn dest(self, x: u32, y: u32, w: u32, h: u32) -> (u32, u32) {
        match self {
            Id => (x, y),
            // clockwise quarter turn: the first row becomes the last column
            R90 => (h - 1 - y, x),
            R180 => (w - 1 - x, h - 1 - y),
            R270 => (y, w - 1 - x),
            FH => (w - 1 - x, y),
            FV => (x, h - 1 - y),
            Transpose => (y, x),
            Transverse => (h - 1 - y, w - 1 - x),
        }
    }
    fn apply<P: Copy>(self, g: &Grid<P>) -> Grid<P> {
        let (w, h) = if self.swaps() { (g.h, g.w) } else { (g.w, g.h) };
        let mut px: Vec<Option<P>> = vec![None; g.px.len()];
        for y in 0..g.h {
            for x in 0..g.w {
                let (a, b) = self.dest(x, y, g.w, g.h);
                let q = &mut px[b as usize * w as usize + a as usize];
                assert!(q.is_none());
                *q = Some(g.get(x, y));
            }
        }
        Grid { w, h, px: px.into_iter().map(|p| p.unwrap()).collect() }
    }
}

fn same<P: Pixel + std::fmt::Debug>(c: &mut Case, sig: &str, got: &Grid<P>, want: &Grid<P>, what: &str)
where
    P::Subpixel: Samp,
{
    c.count("pixels compared", want.px.len() as u64);
    if let Some(d) = got.diff(want) {
        c.fail(sig, format!("{what}: {d}"));
    }
}

fn copy_form<I: GenericImageView>(op: Op, i: &I) -> Option<ImageBuffer<I::Pixel, Vec<<I::Pixel as Pixel>::Subpixel>>>
where
    I::Pixel: 'static,
{
    Some(match op {
        R90 => imageops::rotate90(i),
        R180 => imageops::rotate180(i),
        R270 => imageops::rotate270(i),
        FH => imageops::flip_horizontal(i),
        FV => imageops::flip_vertical(i),
        _ => return None,
    })
}
fn into_form<I: GenericImageView, C>(op: Op, i: &I, d: &mut ImageBuffer<I::Pixel, C>) -> Option<image::ImageResult<()>>
where
    I::Pixel: 'static,
    C: std::ops::DerefMut<Target = [<I::Pixel as Pixel>::Subpixel]>,
{
    Some(match op {
        R90 => imageops::rotate90_in(i, d),
        R180 => imageops::rotate180_in(i, d),
        R270 => imageops::rotate270_in(i, d),
        FH => imageops::flip_horizontal_in(i, d),
        FV => imageops::flip_vertical_in(i, d),
        _ => return None,
    })
}
fn place_form<I: GenericImage>(op: Op, i: &mut I) -> bool {
    match op {
        R180 => imageops::rotate180_in_place(i),
        FH => imageops::flip_horizontal_in_place(i),
        FV => imageops::flip_vertical_in_place(i),
        _ => return false,
    }
    true
}

fn forms<P: Pixel + std::fmt::Debug + 'static, I>(c: &mut Case, src: &I, m: &Grid<P>, kind: &str)
where
    P::Subpixel: Samp,
    I: GenericImageView<Pixel = P>,
{
    for op in OPS {
        let Some(out) = copy_form(op, src) else { continue };
        let want = op.apply(m);
        c.eval(key(&[m.w as u64, m.h as u64, op as u64, kind.len() as u64, P::CHANNEL_COUNT as u64]));
        check!(c, out.as_raw().len() == want.px.len() * P::CHANNEL_COUNT as usize, "copy-size", "{kind} {op:?} container length");
        same(c, &format!("copy:{op:?}"), &Grid::of(&out), &want, &format!("{kind} {op:?}"));
        // into a destination with other content and spare samples
        let n = P::CHANNEL_COUNT as usize;
        let spare = c.rng.below(5) as usize;
        let mut raw: Vec<P::Subpixel> = (0..want.px.len() * n + spare).map(|_| P::Subpixel::arb(&mut c.rng)).collect();
        let tail: Vec<P::Subpixel> = raw[want.px.len() * n..].to_vec();
        let mut d: ImageBuffer<P, &mut [P::Subpixel]> = ImageBuffer::from_raw(want.w, want.h, &mut raw[..]).unwrap();
        let r = into_form(op, src, &mut d).unwrap();
        check!(c, r.is_ok(), "into-refused", "{kind} {op:?} into matching destination refused: {:?}", r.err());
        let got = Grid::from_fn(want.w, want.h, |x, y| *d.get_pixel(x, y));
        same(c, &format!("into:{op:?}"), &got, &want, &format!("{kind} {op:?} into"));
        check!(c, raw[want.px.len() * n..].iter().zip(&tail).all(|(a, b)| a.bits() == b.bits()), "into-spare", "{kind} {op:?} wrote past the image");
        // a destination of another shape is refused and left alone
        let (bw, bh) = match c.rng.below(5) {
            0 => (want.w + 1, want.h),
            1 => (want.w, want.h + 1),
            2 => (want.h, want.w),
            3 => (want.w.saturating_sub(1), want.h),
            _ => (want.w + 1, want.h.saturating_sub(1)),
        };
        if (bw, bh) != (want.w, want.h) {
            let mut bad = gen::image::<P>(&mut c.rng, bw, bh);
            let before = Grid::of(&bad);
            let r = into_form(op, src, &mut bad).unwrap();
            check!(c, r.is_err(), "into-accepts", "{kind} {op:?} of {}x{} into {bw}x{bh} accepted", m.w, m.h);
            c.count("refusals", 1);
            same(c, "into-refused-changed", &Grid::of(&bad), &before, "destination after refusal");
        }
    }
}

fn key(a: &[u64]) -> u64 {
    a.iter().fold(11, |h, v| mix(h ^ v)) | 1
}

fn generic<P: Pixel + std::fmt::Debug + 'static>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    let (w, h) = dims(c);
    let img = gen::image::<P>(&mut c.rng, w, h);
    let m = Grid::of(&img);
    c.sample(|| format!("{}x{} {} channels of {}", w, h, P::CHANNEL_COUNT, P::Subpixel::NAME));
    forms(c, &img, &m, "buffer");
    forms(c, &Plain(m.clone()), &m, "plain");
    // a sub-image
    let (x, y) = (c.rng.r32(0, w), c.rng.r32(0, h));
    let (sw, sh) = (c.rng.r32(0, w - x), c.rng.r32(0, h - y));
    let view = img.view(x, y, sw, sh);
    forms(c, &*view, &m.crop(x, y, sw, sh), "view");
    // in place
    for op in OPS {
        let want = op.apply(&m);
        let mut b = img.clone();
        if !place_form(op, &mut b) {
            continue;
        }
        c.eval(key(&[w as u64, h as u64, op as u64, 99]));
        same(c, &format!("place:{op:?}"), &Grid::of(&b), &want, &format!("buffer {op:?} in place"));
        let mut p = Plain(m.clone());
        place_form(op, &mut p);
        same(c, &format!("place:{op:?}"), &p.0, &want, &format!("plain {op:?} in place"));
        // in place inside a rectangle of a larger image: the rest stays
        let mut b = img.clone();
        place_form(op, &mut *b.sub_image(x, y, sw, sh));
        let sub = op.apply(&m.crop(x, y, sw, sh));
        let want = Grid::from_fn(w, h, |i, j| {
            if i >= x && i < x + sw && j >= y && j < y + sh {
                sub.get(i - x, j - y)
            } else {
                m.get(i, j)
            }
        });
        same(c, &format!("place-sub:{op:?}"), &Grid::of(&b), &want, &format!("{op:?} in place in a sub-image"));
    }
    // group laws, on the real operations only
    let law = |c: &mut Case, name: &str, a: Buf<P>, b: Buf<P>| {
        c.eval(key(&[w as u64, h as u64, vh::hash_str(name)]));
        c.count("group laws", 1);
        same(c, &format!("law:{name}"), &Grid::of(&a), &Grid::of(&b), name);
    };
    type Buf<P> = ImageBuffer<P, Vec<<P as Pixel>::Subpixel>>;
    let (r90, r180, r270, fh, fv) = (
        imageops::rotate90(&img),
        imageops::rotate180(&img),
        imageops::rotate270(&img),
        imageops::flip_horizontal(&img),
        imageops::flip_vertical(&img),
    );
    law(c, "r270 r90 = 1", imageops::rotate270(&r90), img.clone());
    law(c, "r90 r270 = 1", imageops::rotate90(&r270), img.clone());
    law(c, "r90 r90 = r180", imageops::rotate90(&r90), r180.clone());
    law(c, "r180 r180 = 1", imageops::rotate180(&r180), img.clone());
    law(c, "fh fh = 1", imageops::flip_horizontal(&fh), img.clone());
    law(c, "fv fv = 1", imageops::flip_vertical(&fv), img.clone());
    law(c, "fv fh = r180", imageops::flip_vertical(&fh), r180.clone());
    law(c, "r90 fh = fv r90", imageops::rotate90(&fh), imageops::flip_vertical(&r90));
    law(c, "r90 r180 = r270", imageops::rotate90(&r180), r270.clone());
}

fn dynamic(c: &mut Case) {
    let (w, h) = dims(c);
    let col = *c.rng.pick(&gen::COLORS);
    let img = gen::dynamic(&mut c.rng, col, w, h);
    let bpp = col.bytes_per_pixel() as usize;
    let px = |d: &DynamicImage| -> Grid<[u8; 16]> {
        let b = d.as_bytes();
        let v = b
            .chunks_exact(bpp)
            .map(|q| {
                let mut a = [0u8; 16];
                a[..bpp].copy_from_slice(q);
                a
            })
            .collect();
        Grid { w: d.width(), h: d.height(), px: v }
    };
    let m = px(&img);
    let cmp = |c: &mut Case, sig: String, got: &DynamicImage, op: Op| {
        let want = op.apply(&m);
        let g = px(got);
        c.eval(key(&[w as u64, h as u64, op as u64, vh::hash_str(&sig), col as u64]));
        c.count("dynamic images compared", 1);
        if got.color() != col || (g.w, g.h) != (want.w, want.h) || g.px != want.px {
            c.fail(&sig, format!("{op:?} of {w}x{h} {col:?}: got {:?} {}x{}", got.color(), g.w, g.h));
        }
    };
    cmp(c, "dyn:rotate90".into(), &img.rotate90(), R90);
    cmp(c, "dyn:rotate180".into(), &img.rotate180(), R180);
    cmp(c, "dyn:rotate270".into(), &img.rotate270(), R270);
    cmp(c, "dyn:fliph".into(), &img.fliph(), FH);
    cmp(c, "dyn:flipv".into(), &img.flipv(), FV);
    let exif = [Id, FH, R180, FV, Transpose, R90, Transverse, R270];
    for (k, op) in exif.iter().enumerate() {
        let v = k as u8 + 1;
        let Some(o) = Orientation::from_exif(v) else {
            c.fail("exif-refused", format!("orientation {v} refused"));
            continue;
        };
        check!(c, o.to_exif() == v, "exif-value", "orientation {v} -> {o:?} -> {}", o.to_exif());
        let mut d = img.clone();
        d.apply_orientation(o);
        cmp(c, format!("orient:{v}"), &d, *op);
    }
    // round trip: an orientation followed by its inverse
    for (a, b) in [(1u8, 1u8), (2, 2), (3, 3), (4, 4), (5, 5), (6, 8), (7, 7), (8, 6)] {
        let mut d = img.clone();
        d.apply_orientation(Orientation::from_exif(a).unwrap());
        d.apply_orientation(Orientation::from_exif(b).unwrap());
        cmp(c, format!("orient-inverse:{a}"), &d, Id);
    }
}

fn values(c: &mut Case) {
    let all = [
        (Orientation::NoTransforms, 1),
        (Orientation::FlipHorizontal, 2),
        (Orientation::Rotate180, 3),
        (Orientation::FlipVertical, 4),
        (Orientation::Rotate90FlipH, 5),
        (Orientation::Rotate90, 6),
        (Orientation::Rotate270FlipH, 7),
        (Orientation::Rotate270, 8),
    ];
    for v in 0..=255u8 {
        let o = Orientation::from_exif(v);
        let want = all.iter().find(|a| a.1 == v).map(|a| a.0);
        c.eval(v as u64 + 1000);
        check!(c, o == want, "from_exif", "from_exif({v}) = {o:?}, expected {want:?}");
        if let Some(o) = o {
            check!(c, o.to_exif() == v, "to_exif", "to_exif({o:?}) = {}", o.to_exif());
        }
    }
    // degenerate sizes cannot panic
    for (w, h) in [(0, 0), (0, 5), (5, 0), (1, 1), (0, u32::MAX), (u32::MAX, 0)] {
        let b: image::RgbImage = ImageBuffer::from_raw(w, h, vec![0; w as usize * h as usize * 3]).unwrap();
        for op in OPS {
            let r = catch(|| copy_form(op, &b).map(|o| o.dimensions()));
            c.eval(key(&[w as u64, h as u64, op as u64, 5]));
            // an implementation may walk the empty rows of a huge empty image; sizes only
            match r {
                Ok(Some(d)) => check!(c, d == if op.swaps() { (h, w) } else { (w, h) }, "degenerate", "{op:?} {w}x{h} -> {d:?}"),
                Ok(None) => {}
                Err(p) => c.fail("degenerate-panic", format!("{op:?} {w}x{h}: {p}")),
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("an evaluation compares one operation's result, pixel by pixel, with the coordinate permutation computed by the monitor");
    ctx.section("values", 1, 1, values);
    ctx.section("generic", 6000, 300_000, |c| vh::some_pixel!(c, generic));
    ctx.section("dynamic", 3000, 150_000, dynamic);
    ctx.require("pixels compared", 100_000);
    ctx.require("dynamic images compared", 1000);
    ctx.require("group laws", 1000);
}
