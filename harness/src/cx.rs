//! Case runner: families of generated cases, verdicts, coverage counters.
use crate::rng::{hash_str, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;

pub enum Fail {
    /// property violated: (signature, message)
    Bad(String, String),
    /// the case was not applicable (precondition not met)
    Skip,
}
pub type R = Result<(), Fail>;
pub fn bad<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Bad(sig.into(), msg.into()))
}
#[macro_export]
macro_rules! bail { ($sig:expr, $($t:tt)*) => { return Err($crate::cx::Fail::Bad(($sig).to_string(), format!($($t)*))) } }
#[macro_export]
macro_rules! check { ($c:expr, $sig:expr, $($t:tt)*) => { if !($c) { return Err($crate::cx::Fail::Bad(($sig).to_string(), format!($($t)*))) } } }

pub struct Cx {
    pub rng: Rng,
    /// description of the case (set by the family)
    pub desc: String,
    pub thorough: bool,
    pub counters: BTreeMap<String, u64>,
    /// number of oracle comparisons made inside this case
    pub trivial: bool,
}
impl Cx {
    pub fn new(seed: u64, thorough: bool) -> Self {
        Cx { rng: Rng::new(seed), desc: String::new(), thorough, counters: BTreeMap::new(), trivial: false }
    }
    pub fn d(&mut self, s: impl AsRef<str>) {
        if !self.desc.is_empty() {
            self.desc.push(' ');
        }
        self.desc.push_str(s.as_ref());
        witness(1, &self.desc);
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
}

pub struct Family {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: fn(&mut Cx) -> R,
}
pub const fn fam(name: &'static str, quick: usize, thorough: usize, f: fn(&mut Cx) -> R) -> Family {
    Family { name, quick, thorough, f }
}

/// The case file is mapped, so that what a case was doing survives the death of the process: "family seed" in the
/// first 128 bytes, the description after it.
static WITNESS: std::sync::atomic::AtomicPtr<u8> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
const WLEN: usize = 4096;
thread_local! {
    // the thread that runs the families writes the case file; cases inside a case do not
    static WRITES: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
pub fn witness(part: usize, s: &str) {
    if !WRITES.with(|w| w.get()) || DEPTH.with(|d| d.get()) > 1 {
        return;
    }
    let p = WITNESS.load(std::sync::atomic::Ordering::Relaxed);
    if p.is_null() {
        return;
    }
    let (at, len) = if part == 0 { (0, 128) } else { (128, WLEN - 128) };
    let b = s.as_bytes();
    let n = b.len().min(len - 1);
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(at), n);
        *p.add(at + n) = 0;
    }
}
fn map_witness(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().create(true).read(true).write(true).truncate(true).open(path).expect("casefile");
    f.set_len(WLEN as u64).expect("casefile");
    let p = unsafe { libc::mmap(std::ptr::null_mut(), WLEN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    if p != libc::MAP_FAILED {
        WITNESS.store(p as *mut u8, std::sync::atomic::Ordering::Relaxed);
        WRITES.with(|w| w.set(true));
    }
}

pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("{} at {}", msg, loc);
        }
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default()
}
/// signature-safe form of a panic message (no digits: they depend on the input)
pub fn panic_sig(p: &str) -> String {
    let file = p.rsplit(" at ").next().unwrap_or("");
    let file = file.rsplit("/crates/").next().unwrap_or(file);
    let file: String = file.split(':').next().unwrap_or("").to_string();
    format!("panic in {}", file)
}

pub fn case_seed(prop: &str, family: &str, seed: u64, i: u64) -> u64 {
    mix(hash_str(prop) ^ mix(hash_str(family)).rotate_left(17) ^ mix(seed).rotate_left(31) ^ mix(i ^ 0xC0FFEE))
}

pub struct Outcome {
    pub evals: u64,
    pub skipped: u64,
    pub hashes: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String, String, u64)>, // family, sig, msg, case seed
    pub counters: BTreeMap<String, u64>,
    pub per_family: BTreeMap<String, u64>,
    pub truncated: bool,
}

pub fn run_one(f: &Family, cs: u64, thorough: bool) -> (Cx, R) {
    let mut cx = Cx::new(cs, thorough);
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _ctx = hodu_core::tensor::GradientContext::new();
        (f.f)(&mut cx)
    }));
    DEPTH.with(|d| d.set(d.get() - 1));
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            let p = last_panic();
            Err(Fail::Bad(format!("{}: {}", f.name, panic_sig(&p)), format!("panicked: {}", p)))
        }
    };
    (cx, r)
}

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub shard: u64,
    pub shards: u64,
    pub casefile: Option<String>,
    pub max_secs: f64,
    pub only_family: Option<String>,
    pub scale: f64,
}

pub fn run_families(fams: &[Family], o: &Opts) -> Outcome {
    let mut out = Outcome {
        evals: 0,
        skipped: 0,
        hashes: HashSet::new(),
        samples: vec![],
        violations: vec![],
        counters: BTreeMap::new(),
        per_family: BTreeMap::new(),
        truncated: false,
    };
    if let Some(p) = &o.casefile {
        map_witness(p);
    }
    let forked = std::env::var("HV_FORK").is_ok();
    let start = Instant::now();
    let mut sig_seen: BTreeMap<String, u32> = BTreeMap::new();
    // round-robin over families so that a time cap cuts every family evenly
    let ns: Vec<u64> = fams
        .iter()
        .map(|f| {
            if let Some(of) = &o.only_family {
                if !of.split(',').any(|x| x == f.name) {
                    return 0;
                }
            }
            ((if o.thorough { f.thorough } else { f.quick }) as f64 * o.scale).ceil() as u64
        })
        .collect();
    let rounds = 50u64;
    'outer: for r in 0..rounds {
        for (fi, f) in fams.iter().enumerate() {
            let n = ns[fi];
            let lo = n * r / rounds;
            let hi = n * (r + 1) / rounds;
            for i in lo..hi {
                if i % o.shards != o.shard {
                    continue;
                }
                if start.elapsed().as_secs_f64() > o.max_secs {
                    out.truncated = true;
                    break 'outer;
                }
                let cs = case_seed(&o.prop, f.name, o.seed, i);
                witness(0, &format!("{} {}", f.name, cs));
                witness(1, "");
                if forked && !survives(o, f, cs) {
                    continue;
                }
                let (cx, res) = run_one(f, cs, o.thorough);
                for (k, v) in &cx.counters {
                    *out.counters.entry(k.clone()).or_insert(0) += v;
                }
                match res {
                    Ok(()) => {
                        out.evals += 1;
                        *out.per_family.entry(f.name.to_string()).or_insert(0) += 1;
                        if !cx.trivial {
                            let new = out.hashes.insert(hash_str(&format!("{}|{}", f.name, cx.desc)));
                            if new && out.per_family[f.name] <= 2 && out.samples.len() < 60 {
                                out.samples.push(format!("{}: {}", f.name, trunc(&cx.desc, 300)));
                            }
                        }
                    }
                    Err(Fail::Skip) => out.skipped += 1,
                    Err(Fail::Bad(sig, msg)) => {
                        out.evals += 1;
                        let c = sig_seen.entry(sig.clone()).or_insert(0);
                        *c += 1;
                        if *c <= 3 && out.violations.len() < 400 {
                            out.violations.push((f.name.to_string(), sig, format!("{} :: {}", cx.desc, msg), cs));
                        }
                    }
                }
            }
        }
    }
    for (s, n) in sig_seen {
        out.counters.insert(format!("sig:{}", s), n as u64);
    }
    out
}

/// developer aid (HV_FORK): run the case in a child first, report how it died
fn survives(o: &Opts, f: &Family, cs: u64) -> bool {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::alarm(3);
            let _ = run_one(f, cs, o.thorough);
            libc::_exit(0);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if st != 0 {
            let p = WITNESS.load(std::sync::atomic::Ordering::Relaxed);
            let d = if p.is_null() { String::new() } else { std::ffi::CStr::from_ptr(p.add(128) as *const _).to_string_lossy().into_owned() };
            println!("BAD [{} died {}] {} (case {} {})", d.split(' ').next().unwrap_or(""), st & 127, d, f.name, cs);
        }
        st == 0
    }
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…", &s[..e])
    }
}

pub fn write_outcome(o: &Outcome, path: &str) {
    let v = serde_json::json!({
        "evals": o.evals, "skipped": o.skipped, "samples": o.samples, "truncated": o.truncated,
        "violations": o.violations.iter().map(|(f,s,m,c)| serde_json::json!({"family":f,"sig":s,"msg":m,"case":c.to_string()})).collect::<Vec<_>>(),
        "counters": o.counters, "per_family": o.per_family,
        "hashes": o.hashes.iter().map(|h| format!("{:x}",h)).collect::<Vec<_>>().join(","),
    });
    let mut f = std::fs::File::create(path).expect("outcome file");
    f.write_all(v.to_string().as_bytes()).unwrap();
}
