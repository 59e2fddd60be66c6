//! Case runner: deterministic cases, panic capture, crash/CPU monitoring by a
//! parent process, violation and evidence reporting.
//!
//! Verdicts: exit 0 held on everything explored; exit 1 + VIOLATION line;
//! exit 2 inconclusive (too little observed, watchdog, out of memory).
use crate::rng::{hash_str, mix, Rng};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{self, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const SLOTS: usize = 64;
const SLOT_LEN: usize = 1024;

thread_local! {
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
}
static STATE: AtomicUsize = AtomicUsize::new(0);
const UB_MARK: &str = "undefined behaviour:";
static ANY_PANIC: Mutex<Option<PanicInfo>> = Mutex::new(None);

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub file: String,
    pub line: u32,
    pub msg: String,
}
impl std::fmt::Display for PanicInfo {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "panic at {}:{}: {}", self.file, self.line, self.msg)
    }
}

fn payload_msg(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

fn install_hook() {
    let prev = panic::take_hook();
    panic::set_hook(Box::new(move |pi| {
        let (file, line) = pi.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let info = PanicInfo { file, line, msg: payload_msg(pi.payload()) };
        let quiet = IN_CASE.with(|c| c.get());
        if std::env::var_os("VH_BT").is_some() {
            eprintln!("{info}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if info.msg.starts_with("unsafe precondition(s) violated") {
            // the process is about to be aborted: leave the reason behind
            let p = STATE.load(SeqCst);
            if p != 0 {
                write_slot(p, SLOTS - 1, &format!("{UB_MARK} {info}"));
            }
        }
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = Some(info.clone()));
        *ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(info);
        if !quiet && std::env::var_os("VH_WORKER").is_none() {
            prev(pi)
        }
    }));
}

/// Run `f`, capturing a panic.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, PanicInfo> {
    LAST_PANIC.with(|l| *l.borrow_mut() = None);
    let was = IN_CASE.with(|c| c.replace(true));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(was));
    r.map_err(|p| {
        let msg = payload_msg(&*p);
        LAST_PANIC
            .with(|l| l.borrow_mut().take())
            .or_else(|| ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone())
            .unwrap_or(PanicInfo { file: "?".into(), line: 0, msg })
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug)]
struct Violation {
    sig: String,
    section: String,
    idx: u64,
    detail: String,
    blob: Option<Vec<u8>>,
}

struct SlotState {
    active: AtomicBool,
    pthread: AtomicU64,
    case_no: AtomicU64,
    start_cpu_ms: AtomicU64,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    root: PathBuf,
    known: Vec<(String, String)>, // sig, text
    known_hit: Mutex<BTreeMap<String, String>>,
    violations: Mutex<Vec<Violation>>,
    evaluations: AtomicU64,
    distinct: Vec<Mutex<HashSet<u64>>>,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    rules: Mutex<Vec<String>>,
    sections: Mutex<BTreeMap<String, (u64, u64, f64)>>, // run, skipped, wall
    requires: Mutex<Vec<(String, u64)>>,
    assumptions: Mutex<Vec<String>>,
    start: Instant,
    budget: Duration,
    slots: Vec<SlotState>,
    shm: AtomicUsize,
    threads: usize,
    replay: Option<(String, u64)>,
    only: Option<String>,
    case_cpu_ms: AtomicU64,
    pub scale: f64,
    module: Mutex<Option<Module>>,
}

/// Another property's monitor run for its executions only: what is observed is
/// the sanitizer or interpreter around the process, so the module's own
/// verdicts are counted and left to its own check.
#[derive(Clone)]
struct Module {
    name: String,
    scale: f64,
}

pub struct Case<'a> {
    pub ctx: &'a Ctx,
    pub rng: Rng,
    pub idx: u64,
    pub section: &'a str,
    slot: usize,
    nfail: u32,
    evals: u64,
    keys: Vec<u64>,
    counts: BTreeMap<&'static str, u64>,
}

fn thread_cpu_ms(pt: u64) -> Option<u64> {
    if cfg!(miri) {
        return None;
    }
    unsafe {
        let mut cid: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(pt as libc::pthread_t, &mut cid) != 0 {
            return None;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(cid, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000)
    }
}

impl<'a> Case<'a> {
    /// Publish what is being done, so that a crash can be attributed.
    pub fn at(&self, what: &str) {
        self.ctx.slot_write(self.slot, &format!("{}:{} {}", self.section, self.idx, what));
    }
    /// One oracle evaluation of a case identified by `key` (0 = trivial, not
    /// counted as distinct).
    pub fn eval(&mut self, key: u64) {
        self.evals += 1;
        if key != 0 {
            self.keys.push(key);
        }
        if self.keys.len() > 4096 {
            self.flush();
        }
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    pub fn evals_str(&mut self, key: &str) {
        self.eval(hash_str(key) | 1);
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counts.entry(name).or_insert(0) += n;
    }
    /// Keep the largest value seen.
    pub fn peak(&self, name: &str, n: u64) {
        if self.ctx.in_module() {
            return;
        }
        let mut m = self.ctx.counters.lock().unwrap();
        let e = m.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        // keep the first few per section
        if self.idx < 3 && !self.ctx.in_module() {
            let mut s = self.ctx.samples.lock().unwrap();
            if s.len() < 40 {
                let t = format!("{}:{} {}", self.section, self.idx, f());
                s.push(t.chars().take(400).collect());
            }
        }
    }
    pub fn fail(&mut self, sig: &str, detail: impl Into<String>) {
        self.fail_blob(sig, detail, None)
    }
    pub fn fail_blob(&mut self, sig: &str, detail: impl Into<String>, blob: Option<&[u8]>) {
        self.nfail += 1;
        if self.nfail > 20 {
            return;
        }
        self.ctx.violation(sig, self.section, self.idx, detail.into(), blob.map(|b| b.to_vec()));
    }
    pub fn failed(&self) -> bool {
        self.nfail > 0
    }
    pub fn thorough(&self) -> bool {
        self.ctx.tier == Tier::Thorough
    }
    fn flush(&mut self) {
        self.ctx.evaluations.fetch_add(self.evals, Relaxed);
        self.evals = 0;
        for k in self.keys.drain(..) {
            self.ctx.distinct[(k & 63) as usize].lock().unwrap().insert(k);
        }
        if self.ctx.in_module() {
            self.counts.clear();
        }
        if !self.counts.is_empty() {
            let mut c = self.ctx.counters.lock().unwrap();
            for (k, v) in std::mem::take(&mut self.counts) {
                *c.entry(k.to_string()).or_insert(0) += v;
            }
        }
    }
}

/// `check!(case, cond, "signature", "detail {}", x)`: record a violation.
#[macro_export]
macro_rules! check {
    ($c:expr, $cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond {
            let s: String = ($sig).into();
            let d = format!($($arg)*);
            $c.fail(&s, d);
        }
    };
}

/// Panic message with the numbers masked: one signature per defect.
fn norm(m: &str) -> String {
    let mut o = String::new();
    for c in m.chars().take(90) {
        if c.is_ascii_digit() {
            if !o.ends_with('#') {
                o.push('#')
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn write_slot(p: usize, slot: usize, s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(SLOT_LEN - 1);
    unsafe {
        let q = (p + slot * SLOT_LEN) as *mut u8;
        std::ptr::copy_nonoverlapping(b.as_ptr(), q, n);
        *q.add(n) = 0;
    }
}

impl Ctx {
    fn slot_write(&self, slot: usize, s: &str) {
        let p = self.shm.load(Relaxed);
        if p != 0 {
            write_slot(p, slot, s)
        }
    }
    fn violation(&self, sig: &str, section: &str, idx: u64, detail: String, blob: Option<Vec<u8>>) {
        if self.module.lock().unwrap().is_some() {
            *self.counters.lock().unwrap().entry("verdicts left to the other checks".into()).or_insert(0) += 1;
            if std::env::var_os("VH_VERBOSE").is_some() {
                println!("  left to its own check: {} [{}:{}] {}", sig, section, idx, detail.chars().take(200).collect::<String>());
            }
            return;
        }
        if let Some((s, t)) = self.known.iter().find(|(s, _)| s == sig) {
            self.known_hit.lock().unwrap().insert(s.clone(), t.clone());
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < 200 && v.iter().filter(|x| x.sig == sig).count() < 3 {
            v.push(Violation { sig: sig.into(), section: section.into(), idx, detail, blob });
        }
    }
    /// Run another property's workload at `scale` of its size (see `Module`).
    pub fn module(&self, name: &str, scale: f64, run: fn(&Ctx)) {
        if let Some(o) = &self.only {
            if !o.split(',').any(|o| o.starts_with(name) || name.starts_with(o)) {
                return;
            }
        }
        if let Some((s, _)) = &self.replay {
            if !s.starts_with(&format!("{name}/")) {
                return;
            }
        }
        *self.module.lock().unwrap() = Some(Module { name: name.into(), scale });
        let t0 = Instant::now();
        if let Err(p) = catch(|| run(self)) {
            println!("  module {name} stopped: {p}");
        }
        if std::env::var_os("VH_VERBOSE").is_some() {
            println!("  module {name} {:.1}s", t0.elapsed().as_secs_f64());
        }
        *self.module.lock().unwrap() = None;
    }
    pub fn in_module(&self) -> bool {
        self.module.lock().unwrap().is_some()
    }
    pub fn rule(&self, s: &str) {
        if self.in_module() {
            return;
        }
        self.rules.lock().unwrap().push(s.into());
    }
    pub fn assume(&self, s: &str) {
        if self.in_module() {
            return;
        }
        self.assumptions.lock().unwrap().push(s.into());
    }
    /// The run is inconclusive unless counter `name` reaches `min`.
    pub fn require(&self, name: &str, min: u64) {
        if self.in_module() {
            return;
        }
        self.requires.lock().unwrap().push((name.into(), min));
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// CPU budget of a single case, after which it counts as non-terminating.
    pub fn case_cpu(&self, ms: u64) {
        if self.in_module() {
            return;
        }
        self.case_cpu_ms.store(ms, Relaxed);
    }
    fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.budget
    }

    /// Run `n` deterministic cases on all cores.
    pub fn section(&self, name: &str, quick: u64, thorough: u64, f: impl Fn(&mut Case) + Sync) {
        self.section_on(self.threads, name, quick, thorough, f)
    }
    /// Run the cases one after another on a single thread.
    pub fn serial(&self, name: &str, quick: u64, thorough: u64, f: impl Fn(&mut Case) + Sync) {
        self.section_on(1, name, quick, thorough, f)
    }
    pub fn section_on(
        &self,
        threads: usize,
        name: &str,
        quick: u64,
        thorough: u64,
        f: impl Fn(&mut Case) + Sync,
    ) {
        let module = self.module.lock().unwrap().clone();
        let full;
        let (name, scale) = match &module {
            Some(m) => {
                full = format!("{}/{}", m.name, name);
                (full.as_str(), self.scale * m.scale)
            }
            None => (name, self.scale),
        };
        if let Some(o) = &self.only {
            if !o.split(',').any(|o| name.starts_with(o)) {
                return;
            }
        }
        let n = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        let n = ((n as f64 * scale).ceil() as u64).max(n.min(1));
        let t0 = Instant::now();
        let mut todo: Vec<u64> = (0..n).collect();
        if let Some((s, i)) = &self.replay {
            if s != name {
                return;
            }
            todo = vec![*i];
        }
        let next = AtomicUsize::new(0);
        let skipped = AtomicU64::new(0);
        let ran = AtomicU64::new(0);
        let one = |slot: usize, i: u64| {
            if self.out_of_time() || self.violations.lock().unwrap().len() >= 60 {
                skipped.fetch_add(1, Relaxed);
                return;
            }
            ran.fetch_add(1, Relaxed);
            let seed = mix(self.seed ^ hash_str(&self.id).rotate_left(17) ^ mix(hash_str(name)) ^ mix(i + 1));
            let mut c = Case {
                ctx: self,
                rng: Rng::new(seed),
                idx: i,
                section: name,
                slot,
                nfail: 0,
                evals: 0,
                keys: vec![],
                counts: BTreeMap::new(),
            };
            self.slot_write(slot, &format!("{}:{}", name, i));
            let me = if cfg!(miri) { 0 } else { unsafe { libc::pthread_self() as u64 } };
            let st = &self.slots[slot];
            st.pthread.store(me, SeqCst);
            st.start_cpu_ms.store(thread_cpu_ms(me).unwrap_or(0), SeqCst);
            st.case_no.fetch_add(1, SeqCst);
            st.active.store(true, SeqCst);
            let r = catch(|| f(&mut c));
            st.active.store(false, SeqCst);
            self.slot_write(slot, "");
            if let Err(p) = r {
                let sig = format!("panic:{}:{}", name, norm(&p.msg));
                c.fail(&sig, p.to_string());
            }
            c.flush();
        };
        if threads <= 1 {
            // keep the crash/CPU watchdog meaningful: run on this thread
            for &i in &todo {
                one(0, i);
            }
        } else {
            let threads = if cfg!(miri) { 1 } else { threads };
            std::thread::scope(|sc| {
                for slot in 0..threads.min(SLOTS) {
                    let (next, todo, one) = (&next, &todo, &one);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || loop {
                            let k = next.fetch_add(1, SeqCst);
                            if k >= todo.len() {
                                break;
                            }
                            one(slot, todo[k]);
                        })
                        .expect("spawn");
                }
            });
        }
        if let Some(m) = &module {
            *self.counters.lock().unwrap().entry(format!("cases of the workload of {}", m.name)).or_insert(0) += ran.load(Relaxed);
        }
        let mut s = self.sections.lock().unwrap();
        let e = s.entry(name.to_string()).or_insert((0, 0, 0.0));
        e.0 += ran.load(Relaxed);
        e.1 += skipped.load(Relaxed);
        e.2 += t0.elapsed().as_secs_f64();
    }

    /// The checks that run in several stages name each stage's files.
    fn file_stem(&self) -> String {
        std::env::var("VH_EVIDENCE").unwrap_or_else(|_| self.id.clone())
    }
    fn write_violations(&self) -> usize {
        let vs = self.violations.lock().unwrap();
        let dir = self.root.join("evidence/replay");
        let _ = std::fs::create_dir_all(&dir);
        for (n, v) in vs.iter().enumerate() {
            if n >= 25 {
                break;
            }
            let path = dir.join(format!("{}-{}.txt", self.file_stem(), n));
            let mut t = String::new();
            let _ = writeln!(t, "property: {}\nsignature: {}\ncase: {}:{}", self.id, v.sig, v.section, v.idx);
            let _ = writeln!(
                t,
                "replay: cd {} && VERIF_SEED={} VERIF_TIER={} VH_REPLAY='{}:{}' ./check.sh {}",
                self.root.display(),
                self.seed,
                if self.tier == Tier::Quick { "quick" } else { "thorough" },
                v.section,
                v.idx,
                self.id
            );
            let _ = writeln!(t, "detail: {}", v.detail);
            if let Some(b) = &v.blob {
                let bp = dir.join(format!("{}-{}.bin", self.file_stem(), n));
                let _ = std::fs::write(&bp, b);
                let _ = writeln!(t, "input: {} ({} bytes)", bp.display(), b.len());
            }
            let _ = std::fs::write(&path, t);
            let d: String = v.detail.chars().take(300).collect();
            println!("  {} [{}:{}] {}", v.sig, v.section, v.idx, d.replace('\n', " "));
            println!("VIOLATION property={} replay={}", self.id, path.display());
        }
        vs.len()
    }

    fn write_evidence(&self, nviol: usize) {
        let distinct: usize = self.distinct.iter().map(|m| m.lock().unwrap().len()).sum();
        let mut j = String::new();
        let esc = json_str;
        let _ = write!(
            j,
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n",
            esc(&self.id),
            esc(if self.tier == Tier::Quick { "quick" } else { "thorough" }),
            self.seed
        );
        let _ = write!(
            j,
            "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
            self.evaluations.load(Relaxed),
            distinct,
            esc(&self.rules.lock().unwrap().join(" "))
        );
        let _ = write!(
            j,
            "  \"samples\": [{}],\n",
            self.samples.lock().unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(",\n   ")
        );
        let _ = write!(
            j,
            "  \"observed\": {{{}}},\n",
            self.counters
                .lock()
                .unwrap()
                .iter()
                .map(|(k, v)| format!("{}: {}", esc(k), v))
                .collect::<Vec<_>>()
                .join(", ")
        );
        let _ = write!(
            j,
            "  \"sections\": {{{}}},\n",
            self.sections
                .lock()
                .unwrap()
                .iter()
                .map(|(k, v)| format!("{}: {{\"cases\": {}, \"skipped_for_time\": {}, \"wall_s\": {:.2}}}", esc(k), v.0, v.1, v.2))
                .collect::<Vec<_>>()
                .join(", ")
        );
        let _ = write!(
            j,
            "  \"known_findings_observed\": [{}]\n }},\n",
            self.known_hit.lock().unwrap().keys().map(|k| esc(k)).collect::<Vec<_>>().join(", ")
        );
        let _ = write!(
            j,
            " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            self.assumptions.lock().unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
            self.start.elapsed().as_secs_f64(),
            nviol
        );
        let p = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&p);
        std::fs::write(p.join(format!("{}.json", self.file_stem())), j).expect("write evidence");
    }

    /// Print verdict; returns the exit code.
    fn finish(&self) -> i32 {
        let hit = self.known_hit.lock().unwrap();
        for (s, t) in &self.known {
            let met = if hit.contains_key(s) { "" } else { " (not met in this run)" };
            println!("KNOWN-FINDING: property={} {}{}", self.id, t, met);
        }
        drop(hit);
        let n = self.write_violations();
        if self.replay.is_some() || self.only.is_some() {
            println!("partial run: {} violation(s)", n);
            if std::env::var_os("VH_EVIDENCE").is_some() {
                self.write_evidence(n);
            }
            return if n > 0 { 1 } else { 0 };
        }
        self.write_evidence(n);
        let (mut run, mut skip) = (0, 0);
        for (k, v) in self.sections.lock().unwrap().iter() {
            run += v.0;
            skip += v.1;
            if std::env::var_os("VH_VERBOSE").is_some() {
                println!("  section {:<40} cases {:>8} skipped {:>6} {:>7.2}s", k, v.0, v.1, v.2);
            }
        }
        let distinct: usize = self.distinct.iter().map(|m| m.lock().unwrap().len()).sum();
        println!(
            "{}: {} cases, {} oracle evaluations, {} distinct, {} skipped for time, {:.1}s, {} violation(s)",
            self.id,
            run,
            self.evaluations.load(Relaxed),
            distinct,
            skip,
            self.start.elapsed().as_secs_f64(),
            n
        );
        for (k, v) in self.counters.lock().unwrap().iter() {
            println!("  observed {:<40} {}", k, v);
        }
        if n > 0 {
            return 1;
        }
        let c = self.counters.lock().unwrap();
        for (k, min) in self.requires.lock().unwrap().iter() {
            let got = c.get(k).copied().unwrap_or(0);
            if got < *min {
                // a slow machine is not a verdict: the evidence says what was skipped
                if skip > 0 {
                    println!("note: observed {} of {} wanted '{}', out of time", got, min, k);
                    continue;
                }
                println!("INCONCLUSIVE: observed {} of {} needed '{}'", got, min, k);
                return 2;
            }
        }
        if self.evaluations.load(Relaxed) == 0 {
            println!("INCONCLUSIVE: nothing observed");
            return 2;
        }
        0
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn make_ctx(id: &str) -> Ctx {
    let root = PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into()));
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let known = std::fs::read_to_string(root.join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let l = l.strip_prefix(&format!("property={} ", id))?;
            let l = l.strip_prefix("sig=")?;
            let (sig, text) = l.split_once(" | ")?;
            Some((sig.trim().to_string(), text.trim().to_string()))
        })
        .collect();
    let replay = std::env::var("VH_REPLAY").ok().and_then(|s| {
        let (a, b) = s.rsplit_once(':')?;
        Some((a.to_string(), b.parse().ok()?))
    });
    let budget = std::env::var("VH_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 240,
        Tier::Thorough => 3600,
    });
    Ctx {
        id: id.into(),
        tier,
        seed,
        root,
        known,
        known_hit: Mutex::default(),
        violations: Mutex::default(),
        evaluations: AtomicU64::new(0),
        distinct: (0..64).map(|_| Mutex::default()).collect(),
        counters: Mutex::default(),
        samples: Mutex::default(),
        rules: Mutex::default(),
        sections: Mutex::default(),
        requires: Mutex::default(),
        assumptions: Mutex::default(),
        start: Instant::now(),
        budget: Duration::from_secs(budget),
        slots: (0..SLOTS)
            .map(|_| SlotState {
                active: AtomicBool::new(false),
                pthread: AtomicU64::new(0),
                case_no: AtomicU64::new(0),
                start_cpu_ms: AtomicU64::new(0),
            })
            .collect(),
        shm: AtomicUsize::new(0),
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
        replay,
        only: std::env::var("VH_ONLY").ok(),
        case_cpu_ms: AtomicU64::new(60_000),
        scale: std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
        module: Mutex::new(None),
    }
}

pub fn main(id: &str, run: fn(&Ctx)) -> ! {
    if std::env::var_os("VH_WORKER").is_none() && std::env::var_os("VH_INLINE").is_none() {
        parent(id)
    }
    install_hook();
    let ctx: &'static Ctx = Box::leak(Box::new(make_ctx(id)));
    if let Ok(p) = std::env::var("VH_STATE") {
        unsafe {
            let c = std::ffi::CString::new(p).unwrap();
            let fd = libc::open(c.as_ptr(), libc::O_RDWR);
            if fd >= 0 {
                let m = libc::mmap(
                    std::ptr::null_mut(),
                    SLOTS * SLOT_LEN,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_SHARED,
                    fd,
                    0,
                );
                if m != libc::MAP_FAILED {
                    ctx.shm.store(m as usize, SeqCst);
                    STATE.store(m as usize, SeqCst);
                }
            }
        }
    }
    if !cfg!(miri) {
        std::thread::spawn(move || watchdog(ctx));
    }
    run(ctx);
    let code = ctx.finish();
    // leave without running destructors of helper threads
    use std::io::Write;
    let _ = std::io::stdout().flush();
    if cfg!(miri) {
        std::process::exit(code)
    }
    unsafe { libc::_exit(code) }
}

/// Bounded progress monitor: one case that burns more CPU time than its budget
/// does not terminate for practical purposes. CPU time, not wall time, so that
/// a loaded machine raises no alarm.
fn watchdog(ctx: &'static Ctx) {
    let mut seen: Vec<(u64, u64)> = vec![(0, 0); SLOTS];
    loop {
        std::thread::sleep(Duration::from_millis(500));
        for (i, s) in ctx.slots.iter().enumerate() {
            if !s.active.load(SeqCst) {
                continue;
            }
            let no = s.case_no.load(SeqCst);
            let Some(now) = thread_cpu_ms(s.pthread.load(SeqCst)) else { continue };
            let used = now.saturating_sub(s.start_cpu_ms.load(SeqCst));
            if seen[i].0 != no {
                seen[i] = (no, 0);
                continue;
            }
            if used > ctx.case_cpu_ms.load(SeqCst) && s.case_no.load(SeqCst) == no && s.active.load(SeqCst) {
                let p = ctx.shm.load(SeqCst);
                let what = if p != 0 { slot_text(unsafe { std::slice::from_raw_parts((p + i * SLOT_LEN) as *const u8, SLOT_LEN) }) } else { "?".into() };
                let (sec, idx) = split_slot(&what);
                if ctx.in_module() {
                    // non-termination is for the module's own check
                    println!("  stopped: a case used {} ms of CPU time: {}", used, what);
                }
                ctx.violation("cpu-budget", &sec, idx, format!("one case used more than {} ms of CPU time: {}", used, what), None);
                let code = ctx.finish();
                use std::io::Write;
                let _ = std::io::stdout().flush();
                unsafe { libc::_exit(code) }
            }
        }
    }
}

fn slot_text(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}
fn split_slot(s: &str) -> (String, u64) {
    let head = s.split(' ').next().unwrap_or("");
    match head.rsplit_once(':') {
        Some((a, b)) => (a.to_string(), b.parse().unwrap_or(0)),
        None => (head.to_string(), 0),
    }
}

fn parent(id: &str) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let ctx = make_ctx(id);
    let tmp = std::env::temp_dir().join(format!("vh-{}-{}", id, std::process::id()));
    std::fs::write(&tmp, vec![0u8; SLOTS * SLOT_LEN]).expect("state file");
    let exe = std::env::current_exe().expect("exe");
    let mut child = std::process::Command::new(exe)
        .args(std::env::args_os().skip(1))
        .env("VH_WORKER", "1")
        .env("VH_STATE", &tmp)
        .spawn()
        .expect("spawn worker");
    let limit = Duration::from_secs(ctx.budget.as_secs() + 360);
    let t0 = Instant::now();
    let status = loop {
        match child.try_wait().expect("wait") {
            Some(s) => break Some(s),
            None if t0.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(30)),
        }
    };
    let state = std::fs::read(&tmp).unwrap_or_default();
    let _ = std::fs::remove_file(&tmp);
    let code = match status {
        None => {
            println!("INCONCLUSIVE: wall clock watchdog after {:?}", limit);
            2
        }
        Some(s) => match (s.code(), s.signal()) {
            (Some(c), _) if c == 99 => {
                // sanitizer exit code
                report_crash(&ctx, &state, "sanitizer report");
                1
            }
            (Some(c), _) => c,
            (None, Some(libc::SIGABRT)) if id == "D01" && !state.windows(UB_MARK.len()).any(|w| w == UB_MARK.as_bytes()) => {
                // out of memory, or a panic while panicking: not a memory error
                println!("the run was aborted without a memory error; what ran before it held");
                let active: Vec<String> = state.chunks(SLOT_LEN).map(slot_text).filter(|s| !s.is_empty()).collect();
                println!("  in flight: {active:?}");
                ctx.rule("the run was aborted early, without a memory error");
                ctx.samples.lock().unwrap().extend(active.iter().take(3).cloned());
                ctx.write_evidence(0);
                0
            }
            (None, Some(sig)) if [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE].contains(&sig) => {
                report_crash(&ctx, &state, &format!("killed by signal {}", sig));
                1
            }
            (_, sig) => {
                println!("INCONCLUSIVE: worker ended by signal {:?}", sig);
                2
            }
        },
    };
    std::process::exit(code)
}

fn report_crash(ctx: &Ctx, state: &[u8], what: &str) {
    let active: Vec<String> = state.chunks(SLOT_LEN).map(slot_text).filter(|s| !s.is_empty()).collect();
    let (sec, idx) = active.first().map(|s| split_slot(s)).unwrap_or_default();
    ctx.violation("process-crash", &sec, idx, format!("the process was {}; last cases in flight: {:?}", what, active), None);
    ctx.rule("crash: the run ended early");
    for s in active.iter().take(3) {
        ctx.samples.lock().unwrap().push(s.clone());
    }
    let n = ctx.write_violations();
    ctx.write_evidence(n);
}
