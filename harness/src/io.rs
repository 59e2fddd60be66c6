//! Readers and writers with controllable delivery and faults.
use crate::rng::Rng;
use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

/// How a `ChaosReader` delivers bytes.
#[derive(Clone, Debug)]
pub struct Delivery {
    /// maximum bytes per read (0 = unlimited)
    pub max_chunk: usize,
    pub random_chunks: bool,
    /// probability (per 256) of returning ErrorKind::Interrupted before a read
    pub interrupt: u32,
    /// chunk boundary of fill_buf (BufRead)
    pub buf: usize,
}
impl Delivery {
    pub fn plain() -> Self {
        Delivery { max_chunk: 0, random_chunks: false, interrupt: 0, buf: 1 << 20 }
    }
}

#[derive(Default, Debug)]
pub struct IoLog {
    pub reads: AtomicU64,
    pub seeks: AtomicU64,
    pub ops: AtomicU64,
    pub max_pos: AtomicU64,
    pub fault_fired: AtomicBool,
    pub bytes: AtomicU64,
    pub interrupts: AtomicU64,
}

pub const FAULT_MSG: &str = "vh injected fault";

/// In-memory reader with chaos. `fail_at_op`: the n-th (0-based) I/O operation
/// fails with an `Other` error; all later ones too if `sticky`.
pub struct ChaosReader<'a> {
    pub data: &'a [u8],
    pub pos: u64,
    pub d: Delivery,
    pub rng: Rng,
    pub fail_at_op: Option<u64>,
    /// fail when a read would deliver the byte at this offset
    pub fail_at_byte: Option<u64>,
    pub sticky: bool,
    pub op_limit: u64,
    pub log: Arc<IoLog>,
}

impl<'a> ChaosReader<'a> {
    pub fn new(data: &'a [u8], d: Delivery, seed: u64) -> Self {
        ChaosReader {
            data,
            pos: 0,
            d,
            rng: Rng::new(seed),
            fail_at_op: None,
            fail_at_byte: None,
            sticky: true,
            op_limit: u64::MAX,
            log: Arc::new(IoLog::default()),
        }
    }
    fn fault(&self) -> io::Error {
        self.log.fault_fired.store(true, Relaxed);
        io::Error::new(io::ErrorKind::PermissionDenied, FAULT_MSG)
    }
    fn op(&mut self) -> io::Result<()> {
        let n = self.log.ops.fetch_add(1, Relaxed);
        if n > self.op_limit {
            panic!("vh: I/O operation budget exceeded ({} operations)", n);
        }
        if let Some(f) = self.fail_at_op {
            if n == f || (self.sticky && n > f) {
                return Err(self.fault());
            }
        }
        Ok(())
    }
    fn chunk(&mut self, want: usize) -> usize {
        let mut n = want;
        if self.d.max_chunk > 0 {
            let m = if self.d.random_chunks {
                1 + self.rng.below(self.d.max_chunk as u64) as usize
            } else {
                self.d.max_chunk
            };
            n = n.min(m);
        }
        n
    }
    fn avail(&self) -> &'a [u8] {
        let p = (self.pos.min(self.data.len() as u64)) as usize;
        &self.data[p..]
    }
}

impl Read for ChaosReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.log.reads.fetch_add(1, Relaxed);
        if self.d.interrupt > 0 && self.rng.below(256) < self.d.interrupt as u64 {
            self.log.interrupts.fetch_add(1, Relaxed);
            return Err(io::Error::new(io::ErrorKind::Interrupted, "vh interrupted"));
        }
        self.op()?;
        let mut n = self.chunk(buf.len());
        if let Some(b) = self.fail_at_byte {
            if self.pos >= b && !buf.is_empty() {
                return Err(self.fault());
            }
            n = n.min((b - self.pos) as usize);
        }
        let a = self.avail();
        let n = n.min(a.len());
        buf[..n].copy_from_slice(&a[..n]);
        self.pos += n as u64;
        self.log.max_pos.fetch_max(self.pos, Relaxed);
        self.log.bytes.fetch_add(n as u64, Relaxed);
        Ok(n)
    }
}
impl BufRead for ChaosReader<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.log.reads.fetch_add(1, Relaxed);
        if self.d.interrupt > 0 && self.rng.below(256) < self.d.interrupt as u64 {
            self.log.interrupts.fetch_add(1, Relaxed);
            return Err(io::Error::new(io::ErrorKind::Interrupted, "vh interrupted"));
        }
        self.op()?;
        let want = self.d.buf.max(1);
        let mut n = self.chunk(want);
        if let Some(b) = self.fail_at_byte {
            if self.pos >= b {
                return Err(self.fault());
            }
            n = n.min((b - self.pos) as usize);
        }
        let a = self.avail();
        let n = n.min(a.len());
        self.log.max_pos.fetch_max(self.pos + n as u64, Relaxed);
        Ok(&a[..n])
    }
    fn consume(&mut self, n: usize) {
        self.log.bytes.fetch_add(n as u64, Relaxed);
        self.pos += n as u64;
    }
}
impl Seek for ChaosReader<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.log.seeks.fetch_add(1, Relaxed);
        self.op()?;
        let np = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.data.len() as i128 + x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
        };
        if np < 0 || np > u64::MAX as i128 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid seek"));
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}

/// What a `FaultWriter` does.
#[derive(Clone, Debug, Default)]
pub struct WriteFault {
    pub max_chunk: usize,
    pub random_chunks: bool,
    pub interrupt: u32,
    /// fail the n-th operation (write/flush/seek)
    pub fail_at_op: Option<u64>,
    /// fail when the stream would grow beyond this many bytes
    pub capacity: Option<u64>,
    /// beyond capacity return Ok(0) instead of an error
    pub zero: bool,
    /// only the flush operations fail
    pub fail_flush: bool,
    pub fail_seek: bool,
    /// a fault is raised once only (later operations succeed)
    pub once: bool,
}

#[derive(Debug)]
pub struct FaultWriter {
    pub out: Vec<u8>,
    pub pos: usize,
    pub f: WriteFault,
    pub rng: Rng,
    pub ops: u64,
    pub writes: u64,
    pub flushes: u64,
    pub seeks: u64,
    pub fired: bool,
    pub shared: Option<Arc<IoLog>>,
}
impl FaultWriter {
    pub fn new(f: WriteFault, seed: u64) -> Self {
        FaultWriter {
            out: vec![],
            pos: 0,
            f,
            rng: Rng::new(seed),
            ops: 0,
            writes: 0,
            flushes: 0,
            seeks: 0,
            fired: false,
            shared: None,
        }
    }
    fn err(&mut self) -> io::Error {
        self.fired = true;
        if let Some(s) = &self.shared {
            s.fault_fired.store(true, Relaxed);
        }
        io::Error::new(io::ErrorKind::PermissionDenied, FAULT_MSG)
    }
    fn op(&mut self) -> io::Result<()> {
        let n = self.ops;
        self.ops += 1;
        if let Some(s) = &self.shared {
            s.ops.fetch_add(1, Relaxed);
        }
        if let Some(f) = self.f.fail_at_op {
            if n == f || (!self.f.once && n > f) {
                return Err(self.err());
            }
        }
        Ok(())
    }
}
impl Write for FaultWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.writes += 1;
        if self.f.interrupt > 0 && self.rng.below(256) < self.f.interrupt as u64 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "vh interrupted"));
        }
        self.op()?;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if self.f.max_chunk > 0 {
            let m = if self.f.random_chunks {
                1 + self.rng.below(self.f.max_chunk as u64) as usize
            } else {
                self.f.max_chunk
            };
            n = n.min(m);
        }
        if let Some(c) = self.f.capacity {
            let room = (c as usize).saturating_sub(self.pos);
            if room == 0 && !(self.f.once && self.fired) {
                if self.f.zero {
                    self.fired = true;
                    return Ok(0);
                }
                return Err(self.err());
            }
            if !(self.f.once && self.fired) {
                n = n.min(room);
            }
        }
        if self.out.len() < self.pos + n {
            self.out.resize(self.pos + n, 0);
        }
        self.out[self.pos..self.pos + n].copy_from_slice(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.f.fail_flush {
            return Err(self.err());
        }
        self.op()
    }
}
impl Seek for FaultWriter {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.seeks += 1;
        if self.f.fail_seek {
            return Err(self.err());
        }
        self.op()?;
        let np = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.out.len() as i128 + x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
        };
        if np < 0 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid seek"));
        }
        self.pos = np as usize;
        Ok(np as u64)
    }
}

/// A directory removed at the end.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let p = std::env::temp_dir().join(format!("vh-{tag}-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn file(&self, name: &str) -> std::path::PathBuf {
        self.0.join(name)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
