//! A02: parallel pixel iteration and construction equal the sequential ones.
use image::{ImageBuffer, Luma, LumaA, Pixel, Rgb, Rgba};
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::prelude::*;
use rayon::{ThreadPool, ThreadPoolBuilder};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Mutex, OnceLock};
use vh::gen::Samp;
use vh::{check, mix, Case, Ctx, Rng};

vh::property_main!("A02");

fn pool(n: usize) -> &'static ThreadPool {
    static P: OnceLock<Vec<ThreadPool>> = OnceLock::new();
    &P.get_or_init(|| (1..=8).map(|n| ThreadPoolBuilder::new().num_threads(n).build().expect("pool")).collect())[n - 1]
}

/// A little deterministic-in-input delay to shake the schedule.
fn jitter(seed: u64, i: u64) {
    let m = mix(seed ^ i);
    if m & 63 == 0 {
        std::thread::yield_now();
    } else if m & 31 == 1 {
        for _ in 0..(m >> 40) & 255 {
            std::hint::spin_loop();
        }
    }
}

/// Splits a producer at chosen points and walks each piece from both ends.
struct Splitter<'a, T, F: Fn(T) -> R, R> {
    rng: Mutex<Rng>,
    conv: F,
    out: &'a Mutex<Vec<(usize, R)>>,
    problems: &'a Mutex<Vec<String>>,
    pieces: &'a AtomicU64,
    _p: std::marker::PhantomData<fn(T)>,
    len: usize,
}
impl<T, F: Fn(T) -> R, R> Splitter<'_, T, F, R> {
    fn walk<P: Producer<Item = T>>(&self, p: P, base: usize, len: usize, depth: u32) {
        let (split, k) = {
            let mut r = self.rng.lock().unwrap();
            (len > 0 && depth < 7 && r.chance(4, 5), if len > 0 { r.range(0, len as u64) as usize } else { 0 })
        };
        if split {
            let (a, b) = p.split_at(k);
            self.walk(a, base, k, depth + 1);
            self.walk(b, base + k, len - k, depth + 1);
            return;
        }
        self.pieces.fetch_add(1, Relaxed);
        let mut it = p.into_iter();
        let (mut lo, mut hi) = (0, len);
        loop {
            if it.len() != hi - lo || it.size_hint() != (hi - lo, Some(hi - lo)) {
                self.problems.lock().unwrap().push(format!("piece {base}+{len}: reports {} left, expected {}", it.len(), hi - lo));
                return;
            }
            let back = self.rng.lock().unwrap().bool();
            let g = if back { it.next_back() } else { it.next() };
            match g {
                None => break,
                Some(v) => {
                    if lo >= hi {
                        self.problems.lock().unwrap().push(format!("piece {base}+{len} yields too many"));
                        return;
                    }
                    let i = if back {
                        hi -= 1;
                        hi
                    } else {
                        lo += 1;
                        lo - 1
                    };
                    self.out.lock().unwrap().push((base + i, (self.conv)(v)));
                }
            }
        }
        if lo != hi {
            self.problems.lock().unwrap().push(format!("piece {base}+{len} ended early with {} left", hi - lo));
        }
    }
}
impl<T, F: Fn(T) -> R, R> ProducerCallback<T> for Splitter<'_, T, F, R> {
    type Output = ();
    fn callback<P: Producer<Item = T>>(self, p: P) {
        let n = self.len;
        self.walk(p, 0, n, 0)
    }
}

fn dims(c: &mut Case, max: u32) -> (u32, u32) {
    if let Some(d) = c.rng.long(400) {
        return d;
    }
    match c.rng.below(12) {
        0 => (0, c.rng.r32(0, 5)),
        1 => (c.rng.r32(0, 5), 0),
        2 => (1, c.rng.size(max * 4)),
        3 => (c.rng.size(max * 4), 1),
        _ => (c.rng.size(max), c.rng.size(max)),
    }
}

fn mk<P: Pixel>(c: &mut Case, w: u32, h: u32, spare: usize) -> (ImageBuffer<P, Vec<P::Subpixel>>, Vec<P::Subpixel>)
where
    P::Subpixel: Samp,
{
    let n = w as usize * h as usize * P::CHANNEL_COUNT as usize + spare;
    let v: Vec<P::Subpixel> = (0..n).map(|_| P::Subpixel::arb(&mut c.rng)).collect();
    (ImageBuffer::from_raw(w, h, v.clone()).expect("fits"), v)
}

fn par<P: Pixel + Send + Sync + std::fmt::Debug + PartialEq>(c: &mut Case)
where
    P::Subpixel: Samp,
{
    let (w, h) = dims(c, 48);
    let spare = if c.rng.chance(1, 3) { c.rng.below(60) as usize } else { 0 };
    let ch = P::CHANNEL_COUNT as usize;
    let (mut img, data) = mk::<P>(c, w, h, spare);
    let n = w as usize * h as usize;
    let threads = c.rng.range(1, 8) as usize;
    let maxlen = c.rng.range(1, 1 + (n as u64) / 2) as usize;
    let js = c.rng.u64();
    c.at(&format!("par {w}x{h} ch {ch} threads {threads} maxlen {maxlen} spare {spare}"));
    c.sample(|| format!("{w}x{h} {ch}x{} threads {threads} max_len {maxlen}", P::Subpixel::NAME));
    c.eval(mix((w as u64) << 40 | (h as u64) << 20 | (maxlen as u64) << 6 | threads as u64 | (ch as u64) << 60));
    let val = |i: usize| data[i * ch..(i + 1) * ch].to_vec();
    let xy = |i: usize| ((i % w.max(1) as usize) as u32, (i / w.max(1) as usize) as u32);
    let tids: Mutex<HashSet<usize>> = Mutex::default();
    let pl = pool(threads);

    // collect in order
    let got: Vec<Vec<P::Subpixel>> = pl.install(|| {
        img.par_pixels()
            .with_max_len(maxlen)
            .map(|p| {
                jitter(js, p as *const P as u64 >> 2);
                tids.lock().unwrap().insert(rayon::current_thread_index().unwrap_or(99));
                p.channels().to_vec()
            })
            .collect()
    });
    check!(c, got.len() == n && (0..n).all(|i| got[i] == val(i)), "par_pixels", "par_pixels of {w}x{h} (spare {spare}): {} items or wrong order", got.len());
    check!(c, img.par_pixels().len() == n && img.par_pixels().opt_len() == Some(n), "par_pixels-len", "par_pixels len {} of {n}", img.par_pixels().len());

    // enumerate, plus indexed adapters
    let adapter = c.rng.below(8);
    let k = c.rng.below(n as u64 + 3) as usize;
    let st = c.rng.range(1, 7) as usize;
    let f = |(x, y, p): (u32, u32, &P)| (x, y, p.channels().to_vec());
    let (got, want): (Vec<(u32, u32, Vec<P::Subpixel>)>, Vec<usize>) = pl.install(|| {
        let it = img.par_enumerate_pixels();
        match adapter {
            0 => (it.rev().map(f).collect(), (0..n).rev().collect()),
            1 => (it.skip(k).map(f).collect(), (0..n).skip(k).collect()),
            2 => (it.take(k).map(f).collect(), (0..n).take(k).collect()),
            3 => (it.step_by(st).map(f).collect(), (0..n).step_by(st).collect()),
            4 => (
                it.chunks(st).map(|v| v.into_iter().map(f).collect::<Vec<_>>()).flatten_iter().collect(),
                (0..n).collect(),
            ),
            5 => (it.with_max_len(maxlen).with_min_len(1).map(f).collect(), (0..n).collect()),
            6 => (
                it.zip(img.par_pixels()).map(|((x, y, p), q)| if p == q { (x, y, q.channels().to_vec()) } else { (u32::MAX, 0, vec![]) }).collect(),
                (0..n).collect(),
            ),
            _ => (it.skip(k).rev().with_max_len(maxlen).map(f).collect(), (0..n).skip(k).rev().collect()),
        }
    });
    let ok = got.len() == want.len() && got.iter().zip(&want).all(|(g, &i)| (g.0, g.1) == xy(i) && g.2 == val(i));
    check!(c, ok, format!("par_enumerate_pixels-{adapter}"), "par_enumerate_pixels of {w}x{h} adapter {adapter} k {k} step {st}: {} items want {}", got.len(), want.len());
    check!(c, img.par_enumerate_pixels().len() == n && img.par_enumerate_pixels().opt_len() == Some(n), "par_enumerate_pixels-len", "par_enumerate_pixels len");

    // unindexed consumption: every pixel exactly once
    let hits: Vec<AtomicU32> = (0..n).map(|_| AtomicU32::new(0)).collect();
    let bad = AtomicU64::new(0);
    let m = c.rng.range(2, 5) as u32;
    pl.install(|| {
        img.par_enumerate_pixels().filter(|(x, y, _)| (x + y) % m != 0).for_each(|(x, y, p)| {
            jitter(js, (x as u64) << 32 | y as u64);
            if x >= w || y >= h {
                bad.fetch_add(1, Relaxed);
                return;
            }
            let i = y as usize * w as usize + x as usize;
            hits[i].fetch_add(1, Relaxed);
            if p.channels() != &data[i * ch..(i + 1) * ch] {
                bad.fetch_add(1, Relaxed);
            }
        })
    });
    let once = (0..n).all(|i| {
        let (x, y) = xy(i);
        hits[i].load(Relaxed) == ((x + y) % m != 0) as u32
    });
    check!(c, once && bad.load(Relaxed) == 0, "par-exactly-once", "filtered par_enumerate_pixels of {w}x{h}: not exactly once or wrong pixel");
    c.count("pixel visits checked", 3 * n as u64);

    // manual splits of the producers
    let pieces = AtomicU64::new(0);
    let problems = Mutex::new(vec![]);
    {
        let out = Mutex::new(vec![]);
        img.par_pixels().with_producer(Splitter {
            rng: Mutex::new(c.rng.clone()),
            conv: |p: &P| p.channels().to_vec(),
            out: &out,
            problems: &problems,
            pieces: &pieces,
            _p: std::marker::PhantomData,
            len: n,
        });
        c.rng.u64();
        let v = out.into_inner().unwrap();
        check!(c, v.len() == n && v.iter().all(|(i, p)| *p == val(*i)), "split-par_pixels", "splitting par_pixels of {w}x{h}: wrong items ({} of {n})", v.len());
        let out = Mutex::new(vec![]);
        img.par_enumerate_pixels().with_producer(Splitter {
            rng: Mutex::new(c.rng.clone()),
            conv: |(x, y, p): (u32, u32, &P)| (x, y, p.channels().to_vec()),
            out: &out,
            problems: &problems,
            pieces: &pieces,
            _p: std::marker::PhantomData,
            len: n,
        });
        c.rng.u64();
        let v = out.into_inner().unwrap();
        check!(c, v.len() == n && v.iter().all(|(i, (x, y, p))| (*x, *y) == xy(*i) && *p == val(*i)), "split-par_enumerate", "splitting par_enumerate_pixels of {w}x{h}: wrong items or coordinates ({} of {n})", v.len());
    }
    // mutation through splits and through the pool
    let mark = |i: usize, j: usize| P::Subpixel::arb(&mut Rng::new(mix(js ^ ((i as u64) << 8) ^ j as u64)));
    let mut model = data.clone();
    {
        let out = Mutex::new(vec![]);
        img.par_enumerate_pixels_mut().with_producer(Splitter {
            rng: Mutex::new(c.rng.clone()),
            conv: |(x, y, p): (u32, u32, &mut P)| {
                let i = y as usize * w as usize + x as usize;
                for (j, s) in p.channels_mut().iter_mut().enumerate() {
                    *s = mark(i, j);
                }
                (x, y)
            },
            out: &out,
            problems: &problems,
            pieces: &pieces,
            _p: std::marker::PhantomData,
            len: n,
        });
        c.rng.u64();
        let v = out.into_inner().unwrap();
        check!(c, v.len() == n && v.iter().all(|(i, q)| *q == xy(*i)), "split-par_enumerate_mut", "splitting par_enumerate_pixels_mut of {w}x{h}: wrong coordinates ({} of {n})", v.len());
        for i in 0..n {
            for j in 0..ch {
                model[i * ch + j] = mark(i, j);
            }
        }
        check!(c, img.as_raw()[..] == model[..], "split-mut-content", "mutation through split par_enumerate_pixels_mut of {w}x{h} landed elsewhere");
        let out = Mutex::new(vec![]);
        img.par_pixels_mut().with_producer(Splitter {
            rng: Mutex::new(c.rng.clone()),
            conv: |p: &mut P| {
                p.channels_mut().reverse();
            },
            out: &out,
            problems: &problems,
            pieces: &pieces,
            _p: std::marker::PhantomData,
            len: n,
        });
        c.rng.u64();
        let cnt = out.into_inner().unwrap().len();
        for q in model[..n * ch].chunks_mut(ch) {
            q.reverse();
        }
        check!(c, cnt == n && img.as_raw()[..] == model[..], "split-par_pixels_mut", "splitting par_pixels_mut of {w}x{h}: wrong items");
    }
    for p in problems.into_inner().unwrap() {
        c.fail("split-protocol", format!("{w}x{h}: {p}"));
    }
    c.count("producer pieces", pieces.load(Relaxed));

    let cnt = AtomicU64::new(0);
    pl.install(|| {
        img.par_pixels_mut().with_max_len(maxlen).enumerate().for_each(|(i, p)| {
            jitter(js, i as u64);
            cnt.fetch_add(1, Relaxed);
            for (j, s) in p.channels_mut().iter_mut().enumerate() {
                *s = mark(i + 7, j);
            }
        })
    });
    for i in 0..n {
        for j in 0..ch {
            model[i * ch + j] = mark(i + 7, j);
        }
    }
    check!(c, cnt.load(Relaxed) == n as u64 && img.as_raw()[..] == model[..], "par_pixels_mut", "par_pixels_mut of {w}x{h}: {} visits of {n} or wrong target", cnt.load(Relaxed));
    let bad = AtomicU64::new(0);
    pl.install(|| {
        img.par_enumerate_pixels_mut().with_max_len(maxlen).filter(|t| t.0 % 2 == 0).for_each(|(x, y, p)| {
            if x >= w || y >= h {
                bad.fetch_add(1, Relaxed);
                return;
            }
            let i = y as usize * w as usize + x as usize;
            for (j, s) in p.channels_mut().iter_mut().enumerate() {
                *s = mark(i + 13, j);
            }
        })
    });
    for i in (0..n).filter(|i| xy(*i).0 % 2 == 0) {
        for j in 0..ch {
            model[i * ch + j] = mark(i + 13, j);
        }
    }
    check!(c, bad.load(Relaxed) == 0 && img.as_raw()[..] == model[..], "par_enumerate_pixels_mut", "par_enumerate_pixels_mut of {w}x{h}: wrong target");
    check!(c, img.par_enumerate_pixels_mut().len() == n && img.par_enumerate_pixels_mut().opt_len() == Some(n), "par_enum_mut-len", "par_enumerate_pixels_mut len");
    check!(c, img.par_pixels_mut().len() == n && img.par_pixels_mut().opt_len() == Some(n), "par_pixels_mut-len", "par_pixels_mut len");

    // parallel constructor
    let calls: Vec<AtomicU32> = (0..n).map(|_| AtomicU32::new(0)).collect();
    let bad = AtomicU64::new(0);
    let gen = |x: u32, y: u32| -> P {
        let v: Vec<P::Subpixel> = (0..ch).map(|j| mark(y as usize * 100_003 + x as usize, j)).collect();
        *P::from_slice(&v)
    };
    let a = pl.install(|| {
        ImageBuffer::<P, Vec<P::Subpixel>>::from_par_fn(w, h, |x, y| {
            jitter(js, (y as u64) << 20 | x as u64);
            if x >= w || y >= h {
                bad.fetch_add(1, Relaxed);
            } else {
                calls[y as usize * w as usize + x as usize].fetch_add(1, Relaxed);
            }
            gen(x, y)
        })
    });
    let b = ImageBuffer::<P, Vec<P::Subpixel>>::from_fn(w, h, gen);
    check!(c, a == b && a.dimensions() == (w, h) && bad.load(Relaxed) == 0 && calls.iter().all(|k| k.load(Relaxed) == 1), "from_par_fn", "from_par_fn({w},{h}) differs from from_fn or calls not exactly once");
    c.count("threads seen", tids.lock().unwrap().len() as u64);
    if tids.lock().unwrap().len() > 1 {
        c.count("multi-thread runs", 1);
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Random sizes, 12 pixel types, pools of 1..8 threads, random max split length, random recursive split points of the producers walked from both ends, 8 indexed adapters; distinct = (size, channels, max_len, threads). Oracle: flat-vector model; every pixel exactly once.");
    ctx.assume("Schedules are those produced by rayon pools of 1..8 threads with injected jitter plus explicit producer splits; they are sampled, not enumerated.");
    ctx.section_on(4, "par", 16_000, 300_000, |c| match c.rng.below(12) {
        0 => par::<Luma<u8>>(c),
        1 => par::<LumaA<u8>>(c),
        2 => par::<Rgb<u8>>(c),
        3 => par::<Rgba<u8>>(c),
        4 => par::<Luma<u16>>(c),
        5 => par::<LumaA<u16>>(c),
        6 => par::<Rgb<u16>>(c),
        7 => par::<Rgba<u16>>(c),
        8 => par::<Luma<u32>>(c),
        9 => par::<Rgb<u32>>(c),
        10 => par::<Rgb<f32>>(c),
        _ => par::<Rgba<f32>>(c),
    });
    ctx.require("producer pieces", 1000);
    ctx.require("multi-thread runs", 5);
    ctx.require("pixel visits checked", 100_000);
}
