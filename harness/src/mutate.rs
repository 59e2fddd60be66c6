//! Structured damage to valid files.
use crate::Rng;
use image::ImageFormat;

fn interesting(r: &mut Rng) -> u64 {
    let k = r.below(64) as u32;
    *r.pick(&[
        0u64, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096, 16383,
        16384, 32767, 32768, 65534, 65535, 65536, 65537, 1 << 20, 0xff_ffff, 0x100_0000, 0x3fff_ffff, 0x4000_0000, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000,
        0x8000_0001, 0xffff_fffe, 0xffff_ffff, 1 << 32, u64::MAX, u64::MAX - 1, 1 << 63, u64::MAX >> 1,
        1 << k, (1u64 << k).wrapping_sub(1),
    ])
}

/// Recompute the CRC of every PNG chunk that starts at `at`.
pub fn fix_png(b: &mut [u8], mut at: usize) {
    while at + 12 <= b.len() {
        let n = u32::from_be_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) as usize;
        let Some(end) = at.checked_add(12).and_then(|v| v.checked_add(n)) else { return };
        if end > b.len() {
            return;
        }
        let mut h = crc32fast::Hasher::new();
        h.update(&b[at + 4..at + 8 + n]);
        let c = h.finalize().to_be_bytes();
        b[at + 8 + n..end].copy_from_slice(&c);
        at = end;
    }
}

pub fn one(r: &mut Rng, b: &mut Vec<u8>, other: &[u8]) {
    let n = b.len();
    if n == 0 {
        b.extend(r.bytes(8));
        return;
    }
    // most fields that matter lie at the front
    let span = match r.below(4) {
        0 => n,
        1 => n.min(32),
        2 => n.min(64),
        _ => n.min(300),
    } as u64;
    let at = r.below(span) as usize;
    match r.below(16) {
        0 | 1 => b[at] ^= 1 << r.below(8),
        2 => b[at] = r.u8(),
        3 | 4 => b[at] = interesting(r) as u8,
        5 | 6 | 7 | 8 => {
            let w = *r.pick(&[2usize, 2, 4, 4, 4, 8]);
            let v = if r.chance(1, 4) {
                // near the present value
                let mut cur = 0u64;
                for k in 0..w.min(n - at) {
                    cur |= (b[at + k] as u64) << (8 * k);
                }
                cur.wrapping_add(r.irange(-3, 3) as u64)
            } else {
                interesting(r)
            };
            let le = r.bool();
            for k in 0..w {
                if at + k < n {
                    b[at + k] = (v >> (8 * if le { k } else { w - 1 - k })) as u8;
                }
            }
        }
        9 => b.truncate(r.below(n as u64) as usize),
        10 => {
            let k = r.range(1, 20) as usize;
            let e = (at + k).min(n);
            b.drain(at..e);
        }
        11 => {
            let k = r.range(1, 20) as usize;
            let x = r.bytes(k);
            b.splice(at..at, x);
        }
        12 => {
            // repeat or move a piece
            let e = (at + r.range(1, 64) as usize).min(n);
            let piece = b[at..e].to_vec();
            let to = r.below(n as u64) as usize;
            if r.bool() {
                b.splice(to..to, piece);
            } else {
                let m = piece.len().min(n - to);
                b[to..to + m].copy_from_slice(&piece[..m]);
            }
        }
        13 => {
            // splice with another file
            if !other.is_empty() {
                let s = r.below(other.len() as u64) as usize;
                let e = (s + r.range(1, 200) as usize).min(other.len());
                let m = (e - s).min(n - at);
                b[at..at + m].copy_from_slice(&other[s..s + m]);
            }
        }
        14 => {
            let k = r.range(1, 16) as usize;
            let v = *r.pick(&[0u8, 0xff, 0x80, 0x7f, 1]);
            for p in b[at..].iter_mut().take(k) {
                *p = v
            }
        }
        _ => {
            // ASCII digits: textual headers
            let v = interesting(r).to_string();
            if let Some(p) = (at..n).find(|&i| b[i].is_ascii_digit()) {
                let e = (p..n).find(|&i| !b[i].is_ascii_digit()).unwrap_or(n);
                b.splice(p..e, v.bytes());
            } else {
                b[at] = b'0' + r.below(10) as u8
            }
        }
    }
}

/// Damage a file in one to six places; checksums that would hide the damage
/// are mostly repaired.
pub fn damage(r: &mut Rng, fmt: ImageFormat, b: &mut Vec<u8>, other: &[u8]) {
    if fmt == ImageFormat::Avif {
        return avif(r, b, other);
    }
    let n = *r.pick(&[1u64, 1, 1, 2, 2, 3, 4, 6]);
    for _ in 0..n {
        one(r, b, other);
    }
    if !r.chance(1, 10) {
        match fmt {
            ImageFormat::Png => fix_png(b, 8),
            ImageFormat::Ico => {
                if let Some(p) = b.windows(8).position(|w| w == b"\x89PNG\r\n\x1a\n") {
                    fix_png(b, p + 8)
                }
            }
            _ => {}
        }
    }
}

/// In-place damage that leaves alone where the AV1 data lies and its sequence
/// headers: those declare the size of the picture that the constructor decodes
/// without any limit (see C10), and a damaged one declares gigapixels.
fn avif(r: &mut Rng, b: &mut Vec<u8>, o: &[u8]) {
    let orig = b.clone();
    let n = b.len();
    for _ in 0..*r.pick(&[1u64, 1, 2, 3, 5]) {
        let before = b.clone();
        one(r, b, o);
        if b.len() != n {
            *b = before;
        }
    }
    let mut keep = |at: usize, len: usize| {
        let e = (at + len).min(n);
        b[at..e].copy_from_slice(&orig[at..e]);
    };
    for i in 4..n.saturating_sub(4) {
        if &orig[i..i + 4] == b"iloc" {
            let len = u32::from_be_bytes(orig[i - 4..i].try_into().unwrap());
            keep(i - 4, len.min(400) as usize);
        }
        if orig[i] == 0x0a && (6..=20).contains(&orig[i + 1]) {
            keep(i.saturating_sub(2), 32);
        }
    }
}
