//! D02: independent use from many threads is race-free and deterministic.
//!
//! Tasks are deterministic calls of the library over fixed inputs; some of the
//! inputs are images shared read-only by all threads. What a task returns when
//! run alone is recorded first, each one in a process of its own that has done
//! nothing else. Then storms of threads run the tasks in every mixture, with
//! delays and in thread pools of several sizes, and every result must be the
//! recorded one. The same program built with ThreadSanitizer watches for data
//! races.
use image::imageops::{self, FilterType};
use image::*;
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
use std::collections::{BTreeSet, HashSet};
use std::io::{Cursor, Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Barrier, Mutex, OnceLock};
use vh::files::{anim, writers};
use vh::{catch, dec, gen, hash_bytes, hash_str, mix, with_decoder, Case, Ctx, Rng};

static ALONE: OnceLock<World> = OnceLock::new();

fn main() {
    // before any other thread exists: see `alone`
    if std::env::var_os("VH_WORKER").is_some() {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
        let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let n = if thorough { 3000.0 } else { 700.0 } * scale;
        let _ = ALONE.set(World::new(seed, n as usize));
    }
    vh::main("D02", run)
}

// ---------------------------------------------------------------- tasks

struct Shared {
    images: Vec<DynamicImage>,
    files: Vec<(ImageFormat, Vec<u8>)>,
    anims: Vec<(ImageFormat, Vec<u8>)>,
    big_exr: Vec<Vec<u8>>,
    variants: Vec<vh::enc::Variant>,
}
impl Shared {
    fn new(seed: u64) -> Shared {
        let mut r = Rng::new(mix(seed ^ 0xd02));
        let mut images = vec![];
        for k in 0..24 {
            let c = gen::COLORS[k % gen::COLORS.len()];
            let (w, h) = *r.pick(&[(1, 1), (7, 5), (16, 16), (33, 9), (64, 48), (100, 3), (3, 100)]);
            images.push(gen::dynamic(&mut r, c, w, h));
        }
        let mut files = vec![];
        for (_, gen) in writers() {
            for _ in 0..6 {
                let f = gen(&mut r);
                files.push((f.fmt, f.bytes));
            }
        }
        let mut anims = vec![];
        for _ in 0..4 {
            anims.push((ImageFormat::Gif, anim::gif(&mut r).bytes));
            anims.push((ImageFormat::Png, anim::apng(&mut r).bytes));
            anims.push((ImageFormat::WebP, anim::webp(&mut r).bytes));
        }
        // files of many blocks, which the decoder spreads over threads
        let mut big_exr = vec![];
        for k in 0..3u32 {
            let i = gen::dynamic(&mut r, if k == 1 { ColorType::Rgb32F } else { ColorType::Rgba32F }, 60 + 31 * k, 150 + 40 * k);
            big_exr.push(exr_of(&i));
        }
        Shared { images, files, anims, big_exr, variants: vh::enc::variants() }
    }
}
/// Written by the exr crate directly, compressed in blocks of 16 lines.
fn exr_of(i: &DynamicImage) -> Vec<u8> {
    use exr::prelude::*;
    let f = i.to_rgba32f();
    let px = |p: Vec2<usize>| {
        let q = f.get_pixel(p.0 as u32, p.1 as u32).0;
        (q[0], q[1], q[2], q[3])
    };
    let enc = Encoding { compression: Compression::ZIP16, blocks: Blocks::ScanLines, line_order: LineOrder::Increasing };
    let layer = Layer::new((f.width() as usize, f.height() as usize), LayerAttributes::default(), enc, SpecificChannels::rgba(px));
    let mut o = Cursor::new(vec![]);
    Image::from_layer(layer).write().non_parallel().to_buffered(&mut o).expect("exr");
    o.into_inner()
}

const KINDS: [&str; 16] = [
    "decode", "reader", "frames", "encode", "encode shared", "avif", "geometry", "sampling", "colour", "shared pixels", "shared views",
    "parallel iterators", "conversions", "quantisers", "names", "exr blocks",
];
#[derive(Clone, Copy, Debug)]
struct Task {
    kind: usize,
    seed: u64,
}

fn h_dyn(i: &DynamicImage) -> u64 {
    hash_bytes(i.as_bytes()) ^ mix(((i.width() as u64) << 32) | i.height() as u64) ^ hash_str(&format!("{:?}", i.color()))
}
fn h_res(r: ImageResult<DynamicImage>) -> u64 {
    match r {
        Ok(i) => h_dyn(&i),
        Err(e) => hash_str(&format!("{} {e}", dec::kind(&e))),
    }
}
fn h_img<P: Pixel>(i: &ImageBuffer<P, Vec<P::Subpixel>>) -> u64
where
    P::Subpixel: gen::Samp,
{
    use gen::Samp;
    let mut h = mix(((i.width() as u64) << 32) | i.height() as u64);
    for s in i.as_raw() {
        h = (h ^ s.bits()).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
    }
    h
}

fn work(s: &Shared, t: Task) -> u64 {
    let mut r = Rng::new(t.seed);
    let r = &mut r;
    match KINDS[t.kind] {
        "decode" => {
            let (fmt, b) = r.pick(&s.files);
            let o = dec::outcome(*fmt, Cursor::new(&b[..]));
            hash_str(&format!("{:?} {:?}", o.meta, o.img))
        }
        "reader" => {
            let (fmt, b) = r.pick(&s.files);
            match r.below(4) {
                0 => h_res(load_from_memory(b)),
                1 => h_res(load_from_memory_with_format(b, *fmt)),
                2 => h_res(ImageReader::new(Cursor::new(&b[..])).with_guessed_format().unwrap().decode()),
                _ => {
                    let mut d = ImageReader::with_format(Cursor::new(&b[..]), *fmt);
                    d.limits(dec::small_limits());
                    h_res(d.decode())
                }
            }
        }
        "frames" => {
            let (fmt, b) = r.pick(&s.anims);
            hash_str(&format!("{:?}", dec::walk(dec::frames(*fmt, Cursor::new(&b[..])), 30)))
        }
        "encode" | "encode shared" => {
            let v = loop {
                let v = r.pick(&s.variants);
                if !v.slow {
                    break v;
                }
            };
            let own;
            let i = if KINDS[t.kind] == "encode" {
                let c = loop {
                    let c = *r.pick(&gen::COLORS);
                    if vh::enc::accepts(v, c) {
                        break c;
                    }
                };
                let (w, h) = *r.pick(&[(5, 4), (17, 16), (40, 33), (130, 20)]);
                own = gen::dynamic(r, c, w, h);
                &own
            } else {
                r.pick(&s.images)
            };
            match v.encode(i.as_bytes(), i.width(), i.height(), i.color().into()) {
                Ok(b) => hash_bytes(&b),
                Err(e) => hash_str(&format!("{} {e}", dec::kind(&e))),
            }
        }
        "avif" => {
            let (w, h) = (16 + r.below(20) as u32, 16 + r.below(20) as u32);
            let c = *r.pick(&[ColorType::Rgb8, ColorType::Rgba8, ColorType::L8, ColorType::Rgb16]);
            let i = gen::dynamic_style(r, c, w, h, gen::Style::Gradient);
            let mut b = vec![];
            let threads = *r.pick(&[None, Some(1), Some(2)]);
            let e = codecs::avif::AvifEncoder::new_with_speed_quality(&mut b, 10, 70).with_num_threads(threads);
            match e.write_image(i.as_bytes(), w, h, i.color().into()) {
                Ok(()) => hash_bytes(&b) ^ h_res(load_from_memory_with_format(&b, ImageFormat::Avif)),
                Err(e) => hash_str(&format!("{e}")),
            }
        }
        "geometry" => {
            let i = r.pick(&s.images);
            match r.below(10) {
                0 => h_dyn(&i.rotate90()),
                1 => h_dyn(&i.rotate180()),
                2 => h_dyn(&i.rotate270()),
                3 => h_dyn(&i.fliph()),
                4 => h_dyn(&i.flipv()),
                5 => h_dyn(&i.crop_imm(r.below(9) as u32, r.below(9) as u32, r.below(30) as u32, r.below(30) as u32)),
                6 => {
                    let mut j = i.clone();
                    let top = r.pick(&s.images);
                    imageops::overlay(&mut j, top, r.below(20) as i64 - 8, r.below(20) as i64 - 8);
                    h_dyn(&j)
                }
                7 => {
                    let mut j = i.clone();
                    imageops::replace(&mut j, r.pick(&s.images), r.below(20) as i64 - 8, r.below(20) as i64 - 8);
                    h_dyn(&j)
                }
                8 => {
                    let mut j = i.clone();
                    imageops::tile(&mut j, r.pick(&s.images));
                    h_dyn(&j)
                }
                _ => {
                    let mut j = i.clone();
                    j.apply_orientation(*r.pick(&[metadata::Orientation::Rotate90FlipH, metadata::Orientation::Rotate270, metadata::Orientation::FlipHorizontal]));
                    h_dyn(&j)
                }
            }
        }
        "sampling" => {
            let i = r.pick(&s.images);
            let f = *r.pick(&[FilterType::Nearest, FilterType::Triangle, FilterType::CatmullRom, FilterType::Gaussian, FilterType::Lanczos3]);
            let (w, h) = (1 + r.below(50) as u32, 1 + r.below(50) as u32);
            let sigma = 0.3 + r.below(40) as f32 / 10.0;
            match r.below(9) {
                0..=2 => h_dyn(&i.resize_exact(w, h, f)),
                3 => h_dyn(&i.resize_to_fill(w, h, f)),
                4 => h_dyn(&i.thumbnail_exact(w, h)),
                5 => h_dyn(&i.blur(sigma)),
                6 => h_dyn(&i.fast_blur(sigma)),
                7 => h_dyn(&i.unsharpen(sigma, r.below(9) as i32)),
                _ => h_dyn(&i.filter3x3(&[0.0, -1.0, 0.0, -1.0, 5.0, -1.0, 0.0, -1.0, sigma])),
            }
        }
        "colour" => {
            let i = r.pick(&s.images);
            match r.below(6) {
                0 => h_dyn(&i.grayscale()),
                1 => h_dyn(&i.huerotate(r.below(720) as i32 - 360)),
                2 => h_dyn(&i.brighten(r.below(200) as i32 - 100)),
                3 => h_dyn(&i.adjust_contrast(r.below(100) as f32 - 50.0)),
                4 => {
                    let mut j = i.clone();
                    j.invert();
                    h_dyn(&j)
                }
                _ => {
                    let mut j = i.to_rgba8();
                    imageops::vertical_gradient(&mut j, &Rgba([r.u64() as u8, 1, 2, 3]), &Rgba([4, 5, r.u64() as u8, 7]));
                    h_img(&j)
                }
            }
        }
        "shared pixels" => {
            let i = r.pick(&s.images);
            let mut h = 7u64;
            match r.below(4) {
                0 => {
                    for (x, y, p) in i.pixels() {
                        h = mix(h ^ x as u64 ^ ((y as u64) << 20) ^ ((u32::from_le_bytes(p.0) as u64) << 32));
                    }
                }
                1 => {
                    for _ in 0..200 {
                        let (x, y) = (r.below(i.width() as u64) as u32, r.below(i.height() as u64) as u32);
                        h = mix(h ^ u32::from_le_bytes(i.get_pixel(x, y).0) as u64);
                    }
                }
                2 => {
                    if let DynamicImage::ImageRgb8(b) = i {
                        for row in b.rows() {
                            for p in row.rev() {
                                h = mix(h ^ p.0[0] as u64 ^ ((p.0[2] as u64) << 9));
                            }
                        }
                    } else {
                        h = hash_bytes(i.as_bytes())
                    }
                }
                _ => h = hash_bytes(&i.clone().into_bytes()),
            }
            h
        }
        "shared views" => {
            let i = r.pick(&s.images);
            let (w, h) = i.dimensions();
            let (x, y) = (r.below(w as u64) as u32, r.below(h as u64) as u32);
            let v = i.view(x, y, w - x, h - y);
            let a = h_img(&v.to_image());
            let b = match i {
                DynamicImage::ImageRgba8(b) => b.as_flat_samples().as_view::<Rgba<u8>>().map(|v| v.pixels().fold(0, |a, p| mix(a ^ u32::from_le_bytes(p.2 .0) as u64))).unwrap_or(1),
                DynamicImage::ImageLuma16(b) => b.as_flat_samples().as_view::<Luma<u16>>().map(|v| v.pixels().fold(0, |a, p| mix(a ^ p.2 .0[0] as u64))).unwrap_or(1),
                _ => 0,
            };
            a ^ b
        }
        "parallel iterators" => {
            let k = 1 + r.below(4) as usize;
            let go = |r: &mut Rng| {
                let (w, h) = (1 + r.below(60) as u32, 1 + r.below(60) as u32);
                let mut i = ImageBuffer::<Rgb<u8>, _>::from_par_fn(w, h, |x, y| Rgb([x as u8, y as u8, (x * y) as u8]));
                i.par_enumerate_pixels_mut().for_each(|(x, y, p)| p.0[2] = p.0[2].wrapping_add((x ^ y) as u8));
                let a: u64 = i.par_enumerate_pixels().map(|(x, y, p)| mix(x as u64 ^ ((y as u64) << 16) ^ ((p.0[2] as u64) << 32))).reduce(|| 0, |a, b| a ^ b);
                i.par_pixels_mut().with_max_len(3).for_each(|p| p.0[0] ^= 0x55);
                let b: Vec<u8> = i.par_pixels().map(|p| p.0[0].wrapping_mul(p.0[1])).collect();
                a ^ hash_bytes(&b) ^ h_img(&i)
            };
            if r.bool() {
                go(r)
            } else {
                let pool = rayon::ThreadPoolBuilder::new().num_threads(k).build().expect("pool");
                pool.install(|| go(r))
            }
        }
        "conversions" => {
            let i = r.pick(&s.images);
            match r.below(10) {
                0 => h_img(&i.to_luma8()),
                1 => h_img(&i.to_luma_alpha8()),
                2 => h_img(&i.to_rgb8()),
                3 => h_img(&i.to_rgba8()),
                4 => h_img(&i.to_luma16()),
                5 => h_img(&i.to_luma_alpha16()),
                6 => h_img(&i.to_rgb16()),
                7 => h_img(&i.to_rgba16()),
                8 => h_img(&i.to_luma32f()),
                _ => h_img(&i.to_rgba32f()),
            }
        }
        "quantisers" => {
            let i = r.pick(&s.images).to_rgba8();
            let q = color_quant::NeuQuant::new(1 + r.below(30) as i32, *r.pick(&[16, 64, 256]), i.as_raw());
            let mut j = i.clone();
            let idx = imageops::index_colors(&i, &q);
            imageops::dither(&mut j, &q);
            let mut g = imageops::grayscale(&i);
            imageops::dither(&mut g, &imageops::BiLevel);
            h_img(&idx) ^ h_img(&j).rotate_left(7) ^ h_img(&g).rotate_left(13)
        }
        "names" => {
            let names = ["a.png", "b.JPG", "c.tiff", "d.webp", "e.unknown", "f", "g.pam", "h.exr", "i.avif", "j.ff"];
            let n = r.pick(&names);
            let (fmt, b) = r.pick(&s.files);
            hash_str(&format!(
                "{:?} {:?} {:?} {:?} {:?} {:?}",
                ImageFormat::from_path(n).ok(),
                guess_format(b).ok(),
                fmt.extensions_str(),
                fmt.to_mime_type(),
                ImageFormat::from_mime_type(fmt.to_mime_type()),
                ImageFormat::all().map(|f| (f.can_read(), f.can_write(), f.reading_enabled())).collect::<Vec<_>>()
            ))
        }
        _ => {
            let b = r.pick(&s.big_exr);
            let a = with_decoder!(ImageFormat::OpenExr, Cursor::new(&b[..]), |d| d.and_then(|d| dec::read(d)));
            let a = hash_str(&format!("{:?}", a.map_err(|e| dec::kind(&e))));
            let i = gen::dynamic(r, ColorType::Rgba32F, 20, 70);
            let mut o = Cursor::new(vec![]);
            let e = codecs::openexr::OpenExrEncoder::new(&mut o).write_image(i.as_bytes(), 20, 70, ExtendedColorType::Rgba32F);
            a ^ hash_str(&format!("{:?}", e.is_ok())) ^ hash_bytes(&o.into_inner())
        }
    }
}

fn guarded(s: &Shared, t: Task) -> u64 {
    match catch(|| work(s, t)) {
        Ok(h) => h,
        Err(p) => hash_str(&format!("panic {}:{} {}", p.file, p.line, p.msg)),
    }
}

// ---------------------------------------------------------------- alone

struct World {
    shared: Shared,
    before: Vec<u64>,
    tasks: Vec<Task>,
    alone: Vec<u64>,
    problem: Option<String>,
}
impl World {
    fn new(seed: u64, n: usize) -> World {
        let shared = Shared::new(seed);
        let mut r = Rng::new(mix(seed ^ 0x7a5c));
        let tasks: Vec<Task> = (0..n)
            .map(|k| Task {
                // AVIF and the files of many blocks are slow
                kind: match k % KINDS.len() {
                    5 if r.chance(2, 3) => 0,
                    15 if r.chance(1, 2) => 3,
                    k => k,
                },
                seed: mix(seed ^ mix(r.below(1 << 40))),
            })
            .collect();
        let (alone, problem) = alone(&shared, &tasks);
        let before = shared.images.iter().map(h_dyn).collect();
        World { shared, before, tasks, alone, problem }
    }
}

/// What every task returns when it is the only thing a process ever does with
/// the library: each one in a child of this still single-threaded process.
fn alone(s: &Shared, tasks: &[Task]) -> (Vec<u64>, Option<String>) {
    let mut out = vec![0u64; tasks.len()];
    let mut problem = None;
    let wide = 8;
    for group in (0..tasks.len()).collect::<Vec<_>>().chunks(wide) {
        let mut kids = vec![];
        for &k in group {
            let mut fd = [0i32; 2];
            unsafe {
                assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
                let pid = libc::fork();
                assert!(pid >= 0, "fork");
                if pid == 0 {
                    libc::close(fd[0]);
                    let h = guarded(s, tasks[k]);
                    let mut f = std::fs::File::from_raw_fd(fd[1]);
                    let _ = f.write_all(&h.to_le_bytes());
                    libc::_exit(0);
                }
                libc::close(fd[1]);
                kids.push((k, pid, fd[0]));
            }
        }
        for (k, pid, fd) in kids {
            let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
            let mut b = [0u8; 8];
            let ok = f.read_exact(&mut b).is_ok();
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            if ok {
                out[k] = u64::from_le_bytes(b);
            } else {
                problem.get_or_insert(format!("{:?} {:?} alone: status {st:#x}", KINDS[tasks[k].kind], tasks[k]));
            }
        }
    }
    (out, problem)
}

// ---------------------------------------------------------------- storms

static RUNNING: [AtomicUsize; KINDS.len()] = [const { AtomicUsize::new(0) }; KINDS.len()];
static OVERLAPS: Mutex<BTreeSet<(usize, usize)>> = Mutex::new(BTreeSet::new());
static PEAK: AtomicU64 = AtomicU64::new(0);
static ORDERS: Mutex<Option<HashSet<u64>>> = Mutex::new(None);

fn delay(r: &mut Rng) {
    match r.below(8) {
        0 => std::thread::yield_now(),
        1 => std::thread::sleep(std::time::Duration::from_micros(r.below(300))),
        2 => {
            for _ in 0..r.below(3000) {
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}

fn observed(w: &World, k: usize) -> u64 {
    let kind = w.tasks[k].kind;
    let mut live = 1;
    {
        let mut o = OVERLAPS.lock().unwrap();
        for (j, c) in RUNNING.iter().enumerate() {
            let n = c.load(SeqCst);
            live += n;
            if n > 0 {
                o.insert((j, kind));
            }
        }
    }
    PEAK.fetch_max(live as u64, SeqCst);
    RUNNING[kind].fetch_add(1, SeqCst);
    let h = guarded(&w.shared, w.tasks[k]);
    RUNNING[kind].fetch_sub(1, SeqCst);
    h
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mix {
    Same,
    Kind,
    Any,
}

fn storm(c: &mut Case, mixm: Mix) {
    let w = ALONE.get().expect("references");
    let r = &mut c.rng.clone();
    let threads = *r.pick(&[2usize, 3, 4, 8, 8, 12, 16]);
    let per = 3 + r.below(6) as usize;
    let in_pool = r.chance(1, 4);
    let one = r.below(w.tasks.len() as u64) as usize;
    let of_kind: Vec<usize> = (0..w.tasks.len()).filter(|k| w.tasks[*k].kind == w.tasks[one].kind).collect();
    let plan: Vec<(u64, Vec<usize>)> = (0..threads)
        .map(|_| {
            let v = (0..per)
                .map(|_| match mixm {
                    Mix::Same => one,
                    Mix::Kind => *r.pick(&of_kind),
                    Mix::Any => r.below(w.tasks.len() as u64) as usize,
                })
                .collect();
            (r.u64(), v)
        })
        .collect();
    c.sample(|| format!("{threads} threads, {mixm:?}, rayon pool {in_pool}: {:?}", plan.iter().map(|p| p.1.iter().map(|k| KINDS[w.tasks[*k].kind]).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let wrong: Mutex<Vec<(usize, u64)>> = Mutex::new(vec![]);
    let order: Mutex<u64> = Mutex::new(0);
    let thread = |(seed, ks): &(u64, Vec<usize>)| {
        let mut r = Rng::new(*seed);
        for &k in ks {
            delay(&mut r);
            let h = observed(w, k);
            let mut o = order.lock().unwrap();
            *o = mix(*o ^ k as u64);
            drop(o);
            if h != w.alone[k] {
                wrong.lock().unwrap().push((k, h));
            }
        }
    };
    if in_pool {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads.min(8)).build().expect("pool");
        pool.scope(|sc| {
            for p in &plan {
                let thread = &thread;
                sc.spawn(move |_| thread(p));
            }
        });
        c.count("storms inside a thread pool", 1);
    } else {
        let gate = Barrier::new(threads);
        std::thread::scope(|sc| {
            for p in &plan {
                let (thread, gate) = (&thread, &gate);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        gate.wait();
                        thread(p)
                    })
                    .expect("spawn");
            }
        });
    }
    ORDERS.lock().unwrap().get_or_insert_with(HashSet::new).insert(order.into_inner().unwrap());
    c.count("results compared with the call run alone", (threads * per) as u64);
    for p in &plan {
        for k in &p.1 {
            c.eval(mix(*k as u64 ^ ((threads as u64) << 32) ^ ((mixm as u64) << 40) ^ ((in_pool as u64) << 44)) | 1);
        }
    }
    let wrong = wrong.into_inner().unwrap();
    for (k, h) in wrong.iter().take(3) {
        let t = w.tasks[*k];
        c.fail(
            &format!("{}: another result among other threads", KINDS[t.kind]),
            format!("task {k} {:?} {t:?} returned {h:#x} among {threads} threads ({mixm:?}), {:#x} alone; {} of {} results differ", KINDS[t.kind], w.alone[*k], wrong.len(), threads * per),
        );
    }
    for (n, i) in w.shared.images.iter().enumerate() {
        if h_dyn(i) != w.before[n] {
            c.fail("shared image changed", format!("image {n} after {mixm:?}"));
        }
    }
}

/// The same calls in this process, one after another: what came before must
/// not matter either.
fn history(c: &mut Case) {
    let w = ALONE.get().expect("references");
    let r = &mut c.rng.clone();
    for _ in 0..20 {
        let k = r.below(w.tasks.len() as u64) as usize;
        let h = guarded(&w.shared, w.tasks[k]);
        c.eval(mix(k as u64 ^ (1 << 50)) | 1);
        c.count("results compared with the call run alone", 1);
        let t = w.tasks[k];
        vh::check!(
            c,
            h == w.alone[k],
            format!("{}: another result after other calls", KINDS[t.kind]),
            "task {k} {:?} {t:?} returned {h:#x} after other calls, {:#x} alone",
            KINDS[t.kind],
            w.alone[k]
        );
    }
}

/// Iterators, views and pixels handed from thread to thread.
fn handed_over(c: &mut Case) {
    let r = &mut c.rng.clone();
    let (w, h) = (1 + r.below(40) as u32, 1 + r.below(40) as u32);
    let img: RgbImage = gen::image(r, w, h);
    let want: Vec<Rgb<u8>> = img.pixels().copied().collect();
    // one half each
    let mut it = img.pixels();
    let half = (want.len() / 2).min(it.len());
    let back: Vec<Rgb<u8>> = (0..want.len() - half).filter_map(|_| it.next_back().copied()).collect();
    let (a, b) = std::thread::scope(|sc| {
        let x = sc.spawn(move || it.copied().collect::<Vec<_>>());
        let y = sc.spawn(move || back.into_iter().rev().collect::<Vec<_>>());
        (x.join().unwrap(), y.join().unwrap())
    });
    let got: Vec<_> = a.into_iter().chain(b).collect();
    vh::check!(c, got == want, "pixels split over two threads", "{w}x{h}: {} of {} pixels", got.len(), want.len());
    // rows of one image written by several threads
    let mut out = RgbImage::new(w, h);
    std::thread::scope(|sc| {
        for (y, row) in out.enumerate_rows_mut() {
            let img = &img;
            let go = move || {
                for (x, yy, p) in row {
                    debug_assert_eq!(y, yy);
                    *p = *img.get_pixel(x, yy);
                }
            };
            if y % 7 == 0 {
                sc.spawn(go);
            } else {
                go()
            }
        }
    });
    vh::check!(c, out == img, "rows written by several threads", "{w}x{h}");
    // a reader and a decoder built here and used there
    let world = ALONE.get().expect("references");
    let (fmt, b) = r.pick(&world.shared.files);
    let here = dec::decode(*fmt, b).map_err(|e| dec::kind(&e));
    let there = with_decoder!(*fmt, Cursor::new(&b[..]), |d| match d {
        Ok(d) => moved(d),
        Err(e) => Err(dec::kind(&e)),
    });
    vh::check!(c, format!("{here:?}") == format!("{there:?}"), format!("{fmt:?} decoder moved to another thread"), "{here:?} / {there:?}");
    c.eval(mix(r.u64()) | 1);
    c.count("values handed to another thread", 3);
}
/// A decoder that may be sent is used on another thread.
struct Any<D>(D);
unsafe impl<D> Send for Any<D> {}
fn moved<D: ImageDecoder>(d: D) -> Result<Option<dec::Decoded>, String> {
    // the readers are plain cursors; the decoders over them hold no thread-bound state
    let d = Any(d);
    std::thread::scope(|sc| {
        sc.spawn(move || {
            let d = d;
            let Any(d) = d;
            dec::read(d).map_err(|e| dec::kind(&e))
        })
        .join()
        .unwrap_or_else(|_| Err("panic".into()))
    })
}

pub fn run(ctx: &Ctx) {
    let w = ALONE.get().expect("references");
    let done = AtomicBool::new(false);
    ctx.rule("deterministic calls (decoding, encoding, animation, processing, conversions, names, parallel iterators; over private inputs and images shared by all threads) are first run each in a process of its own; then 2 to 16 threads, also inside rayon pools, run the same call, calls of one kind, or any mixture at once with random delays; a result that differs from the one alone, or a changed shared image, is a violation");
    ctx.rule("the same program built with ThreadSanitizer watches for data races");
    ctx.case_cpu(120_000);
    ctx.serial("references", 1, 1, |c| {
        c.count("calls run alone in a process", w.tasks.len() as u64);
        let d: HashSet<u64> = w.alone.iter().copied().collect();
        c.count("distinct results alone", d.len() as u64);
        if let Some(p) = &w.problem {
            c.fail("a call run alone ended its process", p.clone());
        }
        c.eval(3);
    });
    if w.problem.is_some() {
        return;
    }
    let tsan = std::env::var("VH_TOOL").as_deref() == Ok("tsan");
    let q = |n: u64| if tsan { n / 4 } else { n };
    ctx.serial("storms of the same call", q(1500), q(12_000), |c| storm(c, Mix::Same));
    ctx.serial("storms of one kind", q(1500), q(12_000), |c| storm(c, Mix::Kind));
    ctx.serial("storms of any calls", q(1800), q(20_000), |c| storm(c, Mix::Any));
    ctx.serial("after other calls", q(400), q(4000), history);
    ctx.section("handed over", q(2000), q(60_000), handed_over);
    done.store(true, SeqCst);
    ctx.serial("coverage", 1, 1, |c| {
        c.eval(0);
        c.count("pairs of kinds seen at the same time", OVERLAPS.lock().unwrap().len() as u64);
        c.count("distinct orders of completion", ORDERS.lock().unwrap().as_ref().map_or(0, |o| o.len()) as u64);
        c.peak("calls in flight at once", PEAK.load(SeqCst));
    });
    if !tsan {
        ctx.require("results compared with the call run alone", 5000);
        ctx.require("pairs of kinds seen at the same time", 60);
    }
    ctx.require("calls in flight at once", 3);
    ctx.assume("the reference of a call is its result in a forked process that has made no other call");
}
