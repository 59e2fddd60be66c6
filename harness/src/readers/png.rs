//! PNG (W3C recommendation, second edition) with an own inflate.
use super::{Img, In, Res};
use crate::must;

pub fn crc(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for v in b {
        c ^= *v as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { 0xedb8_8320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}

struct Bits<'a> {
    b: &'a [u8],
    p: usize, // in bits
}
impl Bits<'_> {
    fn get(&mut self, n: u32) -> Res<u32> {
        let mut v = 0;
        for i in 0..n {
            let byte = *self.b.get(self.p >> 3).ok_or("deflate data ends early")?;
            v |= ((byte >> (self.p & 7) & 1) as u32) << i;
            self.p += 1;
        }
        Ok(v)
    }
}
struct Huff {
    count: [u16; 16],
    sym: Vec<u16>,
}
impl Huff {
    fn new(len: &[u8], what: &str) -> Res<Huff> {
        let mut count = [0u16; 16];
        for l in len {
            count[*l as usize] += 1;
        }
        count[0] = 0;
        let mut left = 1i32;
        for c in &count[1..] {
            left = left * 2 - *c as i32;
            must!(left >= 0, "over-subscribed {what} code");
        }
        let used: u16 = count.iter().sum();
        // a single distance code may be incomplete
        must!(left == 0 || used <= 1, "incomplete {what} code");
        let mut offs = [0u16; 16];
        for i in 1..16 {
            offs[i] = offs[i - 1] + count[i - 1];
        }
        let mut sym = vec![0; len.len()];
        for (s, l) in len.iter().enumerate() {
            if *l > 0 {
                sym[offs[*l as usize] as usize] = s as u16;
                offs[*l as usize] += 1;
            }
        }
        Ok(Huff { count, sym })
    }
    fn get(&self, b: &mut Bits) -> Res<u16> {
        let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
        for len in 1..16 {
            code |= b.get(1)? as i32;
            let c = self.count[len] as i32;
            if code - c < first {
                return Ok(self.sym[(index + code - first) as usize]);
            }
            index += c;
            first = (first + c) << 1;
            code <<= 1;
        }
        Err("unused Huffman code".into())
    }
}
const LBASE: [u16; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
const LEXT: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
const DBASE: [u16; 30] = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577];
const DEXT: [u8; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];

/// A complete zlib stream and nothing after it.
pub fn inflate(z: &[u8], max: usize) -> Res<Vec<u8>> {
    must!(z.len() >= 6, "zlib stream of {} bytes", z.len());
    must!(z[0] & 15 == 8 && z[0] >> 4 <= 7, "zlib method {:#x}", z[0]);
    must!((z[0] as u32 * 256 + z[1] as u32) % 31 == 0, "zlib header check");
    must!(z[1] & 32 == 0, "zlib dictionary");
    let window = 1usize << (8 + (z[0] >> 4));
    let mut b = Bits { b: z, p: 16 };
    let mut o: Vec<u8> = vec![];
    loop {
        let last = b.get(1)?;
        let ty = b.get(2)?;
        let (lit, dist) = match ty {
            0 => {
                b.p = (b.p + 7) & !7;
                let n = b.get(16)?;
                let m = b.get(16)?;
                must!(n == m ^ 0xffff, "stored block length check");
                for _ in 0..n {
                    o.push(b.get(8)? as u8);
                }
                must!(o.len() <= max, "more than {max} bytes of data");
                if last == 1 {
                    break;
                }
                continue;
            }
            1 => {
                let mut l = [8u8; 288];
                l[144..256].fill(9);
                l[256..280].fill(7);
                (Huff::new(&l, "fixed")?, Huff::new(&[5; 32], "fixed distance")?)
            }
            2 => {
                let (nl, nd, nc) = (b.get(5)? as usize + 257, b.get(5)? as usize + 1, b.get(4)? as usize + 4);
                must!(nl <= 286 && nd <= 30, "{nl} literal and {nd} distance codes");
                let mut l = [0u8; 19];
                for i in [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15].iter().take(nc) {
                    l[*i] = b.get(3)? as u8;
                }
                let h = Huff::new(&l, "code length")?;
                let mut all = vec![];
                while all.len() < nl + nd {
                    match h.get(&mut b)? {
                        16 => {
                            let v = *all.last().ok_or("repeat without a length")?;
                            let n = b.get(2)? + 3;
                            all.extend(vec![v; n as usize]);
                        }
                        17 => {
                            let n = b.get(3)? + 3;
                            all.extend(vec![0; n as usize]);
                        }
                        18 => {
                            let n = b.get(7)? + 11;
                            all.extend(vec![0; n as usize]);
                        }
                        v => all.push(v as u8),
                    }
                }
                must!(all.len() == nl + nd, "code lengths overrun");
                must!(all[256] > 0, "no end of block code");
                (Huff::new(&all[..nl], "literal")?, Huff::new(&all[nl..], "distance")?)
            }
            _ => return Err("block type 3".into()),
        };
        loop {
            match lit.get(&mut b)? {
                s @ 0..=255 => o.push(s as u8),
                256 => break,
                s => {
                    let s = s as usize - 257;
                    must!(s < 29, "length code {s}");
                    let len = LBASE[s] as usize + b.get(LEXT[s] as u32)? as usize;
                    let d = dist.get(&mut b)? as usize;
                    must!(d < 30, "distance code {d}");
                    let d = DBASE[d] as usize + b.get(DEXT[d] as u32)? as usize;
                    must!(d <= o.len() && d <= window, "distance {d} at {} in a window of {window}", o.len());
                    for _ in 0..len {
                        o.push(o[o.len() - d]);
                    }
                }
            }
            must!(o.len() <= max, "more than {max} bytes of data");
        }
        if last == 1 {
            break;
        }
    }
    let p = (b.p + 7) >> 3;
    must!(z.len() == p + 4, "zlib stream of {} bytes ends at {}", z.len(), p + 4);
    let (mut a, mut s) = (1u32, 0u32);
    for v in &o {
        a = (a + *v as u32) % 65521;
        s = (s + a) % 65521;
    }
    must!(z[p..] == (s << 16 | a).to_be_bytes(), "Adler checksum");
    Ok(o)
}

pub fn read(b: &[u8]) -> Res<Img> {
    let mut i = In::new(b);
    must!(i.take(8)? == b"\x89PNG\r\n\x1a\n", "signature");
    let mut head: Option<(u32, u32, u8, u8)> = None;
    let mut idat: Vec<u8> = vec![];
    let (mut idat_open, mut idat_done, mut icc) = (false, false, None);
    loop {
        let n = i.be32()? as usize;
        must!(n < 1 << 31, "chunk of {n} bytes");
        let start = i.p;
        let ty: [u8; 4] = i.take(4)?.try_into().unwrap();
        let d = i.take(n)?;
        let sum = i.be32()?;
        // large chunks with the fast implementation
        let whole = &b[start..start + 4 + n];
        let want = if n < 4096 { crc(whole) } else { crc32fast::hash(whole) };
        must!(sum == want, "checksum of {}", String::from_utf8_lossy(&ty));
        if &ty != b"IDAT" && idat_open {
            idat_open = false;
            idat_done = true;
        }
        match &ty {
            b"IHDR" => {
                must!(head.is_none() && start == 12 && n == 13, "IHDR at {start} of {n} bytes");
                let mut h = In::new(d);
                let (w, hh, depth, ct) = (h.be32()?, h.be32()?, h.u8()?, h.u8()?);
                must!(w > 0 && hh > 0 && w < 1 << 31 && hh < 1 << 31, "{w}x{hh}");
                must!(matches!((depth, ct), (8 | 16, 0 | 2 | 4 | 6) | (1 | 2 | 4, 0) | (1 | 2 | 4 | 8, 3)), "depth {depth} type {ct}");
                must!(h.take(3)? == [0, 0, 0], "methods");
                head = Some((w, hh, depth, ct));
            }
            b"IDAT" => {
                must!(head.is_some() && !idat_done, "IDAT out of order");
                idat_open = true;
                idat.extend(d);
            }
            b"IEND" => {
                must!(n == 0, "IEND of {n} bytes");
                i.end()?;
                break;
            }
            b"iCCP" => {
                must!(icc.is_none() && idat.is_empty() && head.is_some(), "iCCP out of order");
                let k = d.iter().position(|v| *v == 0).ok_or("profile name without end")?;
                must!((1..80).contains(&k), "profile name of {k} bytes");
                must!(d[0] != b' ' && d[k - 1] != b' ' && d[..k].iter().all(|v| matches!(v, 32..=126 | 161..=255)), "profile name {:?}", &d[..k]);
                must!(d.get(k + 1) == Some(&0), "profile compression");
                icc = Some(inflate(&d[k + 2..], 1 << 26)?);
            }
            _ => {
                must!(ty.iter().all(|c| c.is_ascii_alphabetic()) && ty[2].is_ascii_uppercase(), "chunk name {ty:?}");
                must!(ty[0].is_ascii_lowercase(), "unexpected chunk {}", String::from_utf8_lossy(&ty));
            }
        }
        must!(head.is_some(), "first chunk is not IHDR");
    }
    let (w, h, depth, ct) = head.ok_or("no IHDR")?;
    must!(depth >= 8 && ct != 3, "depth {depth} type {ct} is not something the crate writes");
    let ch = match ct {
        0 => 1,
        4 => 2,
        2 => 3,
        _ => 4,
    };
    let bpp = ch * depth as usize / 8;
    let row = w as usize * bpp;
    let raw = inflate(&idat, (row + 1) * h as usize)?;
    must!(raw.len() == (row + 1) * h as usize, "{} bytes of pixel data instead of {}", raw.len(), (row + 1) * h as usize);
    let mut o = Img::new(w, h, ch, if depth == 8 { 255 } else { 65535 });
    let mut seen = [false; 5];
    let mut prev = vec![0u8; row];
    for l in raw.chunks_exact(row + 1) {
        let mut cur = l[1..].to_vec();
        must!(l[0] < 5, "filter {}", l[0]);
        seen[l[0] as usize] = true;
        for x in 0..row {
            let (a, b, c) = (if x >= bpp { cur[x - bpp] } else { 0 } as i32, prev[x] as i32, if x >= bpp { prev[x - bpp] } else { 0 } as i32);
            let p = match l[0] {
                0 => 0,
                1 => a,
                2 => b,
                3 => (a + b) / 2,
                _ => {
                    let p = a + b - c;
                    let (pa, pb, pc) = ((p - a).abs(), (p - b).abs(), (p - c).abs());
                    if pa <= pb && pa <= pc {
                        a
                    } else if pb <= pc {
                        b
                    } else {
                        c
                    }
                }
            };
            cur[x] = cur[x].wrapping_add(p as u8);
        }
        if depth == 8 {
            o.px.extend(cur.iter().map(|v| *v as f64));
        } else {
            o.px.extend(cur.chunks_exact(2).map(|v| u16::from_be_bytes([v[0], v[1]]) as f64));
        }
        prev = cur;
    }
    for (k, n) in ["png filter none", "png filter sub", "png filter up", "png filter average", "png filter paeth"].into_iter().enumerate() {
        if seen[k] {
            o.notes.push(n);
        }
    }
    o.icc = icc;
    Ok(o)
}
