//! Command line, progress file and result reporting shared by all engines.
//!
//! Protocol with the driver: lines on stdout starting with `VIOL ` (JSON) and
//! one final line starting with `RESULT ` (JSON). Exit status 0: nothing wrong,
//! 10: violations were reported, 20: the engine could not decide. Anything else
//! (a signal in particular) is judged by the driver using the progress file,
//! which always names the case being executed.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};

#[derive(Clone, Debug)]
pub struct Args {
    pub seed: u64,
    pub iters: u64,
    pub only: Option<u64>,
    pub start: u64,
    pub profile: String,
    pub dump: bool,
    pub extra: BTreeMap<String, String>,
}

static PROGRESS: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
pub static CASE: AtomicU64 = AtomicU64::new(0);
const PSIZE: usize = 4096;

pub fn args() -> Args {
    let mut a = Args {
        seed: 1,
        iters: 100,
        only: None,
        start: 0,
        profile: "all".into(),
        dump: false,
        extra: BTreeMap::new(),
    };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("missing value");
        match k.as_str() {
            "--seed" => a.seed = v().parse().unwrap(),
            "--iters" => a.iters = v().parse().unwrap(),
            "--only" => a.only = Some(v().parse().unwrap()),
            "--start" => a.start = v().parse().unwrap(),
            "--profile" => a.profile = v(),
            "--progress" => open_progress(&v()),
            "--dump" => a.dump = true,
            k if k.starts_with("--") => {
                let val = v();
                a.extra.insert(k[2..].to_string(), val);
            }
            k => {
                eprintln!("bad argument {k}");
                std::process::exit(64);
            }
        }
    }
    a
}
impl Args {
    pub fn cases(&self) -> std::ops::Range<u64> {
        match self.only {
            Some(c) => c..c + 1,
            None => self.start..self.start + self.iters,
        }
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.extra.get(k).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|s| s.parse().unwrap()).unwrap_or(d)
    }
}

fn open_progress(path: &str) {
    unsafe {
        let c = std::ffi::CString::new(path).unwrap();
        let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o644);
        assert!(fd >= 0);
        assert_eq!(libc::ftruncate(fd, PSIZE as _), 0);
        let p = libc::mmap(std::ptr::null_mut(), PSIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        assert!(p != libc::MAP_FAILED);
        libc::close(fd);
        PROGRESS.store(p as *mut u8, Ordering::Relaxed);
    }
}

/// Records which case is running, so that a crash can be attributed.
pub fn case(n: u64, desc: &str) {
    CASE.store(n, Ordering::Relaxed);
    let p = PROGRESS.load(Ordering::Relaxed);
    if !p.is_null() {
        let mut s = String::new();
        let _ = write!(s, "{n} {desc}");
        let b = s.as_bytes();
        let n = b.len().min(PSIZE - 1);
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
            *p.add(n) = 0;
        }
    }
}
/// Cheap variant without formatting for inner loops.
pub fn case_num(n: u64) {
    CASE.store(n, Ordering::Relaxed);
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Reports a violation and ends the process: after one, memory cannot be
/// trusted any more.
pub fn viol(msg: &str) -> ! {
    raw_viol(msg);
    unsafe { libc::_exit(10) }
}
fn raw_viol(msg: &str) {
    let line = format!("\nVIOL {{\"case\":{},\"msg\":{}}}\n", CASE.load(Ordering::Relaxed), esc(msg));
    let b = line.as_bytes();
    unsafe {
        libc::write(1, b.as_ptr() as _, b.len());
    }
}
#[macro_export]
macro_rules! viol {
    ($($t:tt)*) => { $crate::rep::viol(&format!($($t)*)) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !($c) { $crate::rep::viol(&format!($($t)*)) } };
}
/// The engine could not decide.
pub fn inconclusive(msg: &str) -> ! {
    println!("\nINCONCLUSIVE {}", esc(msg));
    std::process::exit(20)
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn distinct(&mut self, h: u64) -> bool {
        self.seen.insert(h)
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.samples.push(s());
        }
    }
    pub fn finish(self) -> ! {
        let mut o = String::new();
        let _ = write!(o, "{{\"evaluations\":{},\"distinct\":{},\"counters\":{{", self.evals, self.seen.len());
        for (i, (k, v)) in self.counters.iter().enumerate() {
            let _ = write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, esc(k), v);
        }
        o.push_str("},\"samples\":[");
        for (i, s) in self.samples.iter().enumerate() {
            let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, esc(s));
        }
        o.push_str("]}");
        println!("\nRESULT {o}");
        std::process::exit(0)
    }
}
