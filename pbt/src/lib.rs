//! A small property-based testing engine.
//!
//! A case is a function of a finite list of choices (`Src::draw`). Random generation draws the choices from a
//! seeded generator and records them, replaying and shrinking feed recorded (and edited) lists back in. Cases run in
//! worker processes, so a case that aborts the process is a failure of that case and not of the check.

use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Fail {
    /// What was expected and what was seen.
    pub what: String,
    /// Stable identity of the failing relation, known findings are keyed on it.
    pub sig: String,
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::Fail { what: format!($($arg)*), sig: $sig.to_string() });
        }
    };
}
#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => {
        return Err($crate::Fail { what: format!($($arg)*), sig: $sig.to_string() })
    };
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    Rng(h).next()
}

pub struct Src {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub record: Vec<u64>,
    nontrivial: bool,
    classes: Vec<String>,
    desc: Vec<String>,
    trace: Option<fs::File>,
    pub tier_thorough: bool,
    want_desc: bool,
}

impl Src {
    fn new(seed: u64, replay: Option<Vec<u64>>, thorough: bool) -> Src {
        Src {
            rng: Rng(seed),
            replay,
            pos: 0,
            record: Vec::new(),
            nontrivial: false,
            classes: Vec::new(),
            desc: Vec::new(),
            trace: None,
            tier_thorough: thorough,
            want_desc: false,
        }
    }
    /// A choice in 0..n, 0 is the simplest.
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                v.min(n - 1)
            }
            None => {
                if n == u64::MAX {
                    self.rng.next()
                } else {
                    ((self.rng.next() as u128 * n as u128) >> 64) as u64
                }
            }
        };
        self.pos += 1;
        self.record.push(v);
        if let Some(f) = &mut self.trace {
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo + 1) as u64) as i64
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo + 1) as u64) as usize
    }
    /// Skewed towards lo: mostly small with an occasional large value.
    pub fn small(&mut self, lo: usize, hi: usize) -> usize {
        let span = hi - lo;
        match self.draw(4) {
            0 => lo + self.draw((span / 8 + 1) as u64) as usize,
            1 | 2 => lo + self.draw((span / 3 + 1) as u64) as usize,
            _ => lo + self.draw((span + 1) as u64) as usize,
        }
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// True with probability num/den, false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len() as u64) as usize;
        &xs[i]
    }
    /// Uniform in [0,1)
    pub fn unit(&mut self) -> f64 {
        self.draw(1 << 24) as f64 / (1u64 << 24) as f64
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.draw(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }
    /// Marks this case as one that exercises the property (see the rule of the property).
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn class<S: Into<String>>(&mut self, c: S) {
        let c = c.into();
        if !self.classes.contains(&c) {
            self.classes.push(c)
        }
    }
    pub fn describe<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_desc {
            let mut s = f();
            if s.len() > 1500 {
                let mut e = 1500;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
                s.push_str("...");
            }
            self.desc.push(s);
        }
    }
}

pub type CaseFn = fn(&mut Src) -> Res;

pub struct Sub {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    /// Cases per worker process
    pub chunk: u64,
    /// Threads of the global rayon pool in the worker
    pub threads: usize,
}

pub fn sub(name: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Sub {
    let chunk = ((quick + 15) / 16).max(1);
    Sub { name, f, quick, thorough, chunk, threads: 2 }
}
impl Sub {
    pub fn threads(mut self, n: usize) -> Sub {
        self.threads = n;
        self
    }
    pub fn chunk(mut self, n: u64) -> Sub {
        self.chunk = n;
        self
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub subs: Vec<Sub>,
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
}
static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let full = format!("panic: {} at {}", msg, loc);
        eprintln!("{}", full);
        PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(full.clone());
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(full));
    }));
}

/// Panics seen by any thread since the last call.
pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()))
}

fn run_case(f: CaseFn, src: &mut Src) -> Res {
    take_panics();
    let r = catch_unwind(AssertUnwindSafe(|| f(src)));
    match r {
        Ok(r) => r,
        Err(_) => {
            let mut all = take_panics();
            let what = if all.is_empty() { "panic".to_string() } else { all.remove(0) };
            Err(Fail { sig: "panic".to_string(), what })
        }
    }
}

fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    let mut b = Vec::new();
    b.extend_from_slice(&seed.to_le_bytes());
    b.extend_from_slice(prop.as_bytes());
    b.push(0);
    b.extend_from_slice(sub.as_bytes());
    b.extend_from_slice(&idx.to_le_bytes());
    hash_bytes(7, &b)
}

/// Generic shrinker over choice lists. `fails` says whether the list still fails.
fn shrink(start: Vec<u64>, max_evals: usize, max_time: Duration, fails: &mut dyn FnMut(&[u64]) -> bool) -> Vec<u64> {
    let t0 = Instant::now();
    let mut best = start;
    let mut evals = 0usize;
    let mut try_it = |cand: &Vec<u64>, best: &mut Vec<u64>, evals: &mut usize| -> bool {
        if *evals >= max_evals || t0.elapsed() > max_time {
            return false;
        }
        *evals += 1;
        if fails(cand) {
            *best = cand.clone();
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // drop the tail
        let mut cut = best.len() / 2;
        while cut > 0 {
            let cand = best[..best.len() - cut.min(best.len())].to_vec();
            if !try_it(&cand, &mut best, &mut evals) {
                cut /= 2;
            } else {
                cut = cut.min(best.len());
            }
        }
        // delete blocks
        for size in [32usize, 16, 8, 4, 3, 2, 1].iter() {
            let mut i = best.len();
            while i >= *size {
                i -= 1;
                if i + size > best.len() {
                    continue;
                }
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if try_it(&cand, &mut best, &mut evals) {
                    i = i.min(best.len());
                }
                if evals >= max_evals || t0.elapsed() > max_time {
                    return best;
                }
            }
        }
        // zero blocks
        for size in [16usize, 4, 1].iter() {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[i..e].iter_mut().for_each(|x| *x = 0);
                    try_it(&cand, &mut best, &mut evals);
                }
                i = e;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let (mut lo, mut hi) = (0u64, best[i]);
                while lo < hi {
                    let mid = lo + (hi - lo) / 2;
                    let mut cand = best.clone();
                    cand[i] = mid;
                    if try_it(&cand, &mut best, &mut evals) {
                        if i >= best.len() {
                            break;
                        }
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                    if evals >= max_evals || t0.elapsed() > max_time {
                        return best;
                    }
                }
            }
            i += 1;
        }
        if best == before || evals >= max_evals || t0.elapsed() > max_time {
            return best;
        }
    }
}

fn parse_choices(v: &Value) -> Vec<u64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default()
}

fn known_sigs(verif: &Path, prop: &str) -> Vec<(String, String)> {
    let mut out = Vec::new();
    if let Ok(s) = fs::read_to_string(verif.join("known_findings.json")) {
        if let Ok(v) = serde_json::from_str::<Value>(&s) {
            if let Some(a) = v["findings"].as_array() {
                for f in a {
                    if f["property"] == prop {
                        out.push((
                            f["sig"].as_str().unwrap_or("").to_string(),
                            f["text"].as_str().unwrap_or("").to_string(),
                        ));
                    }
                }
            }
        }
    }
    out
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn find<'a>(props: &'a [Prop], id: &str, subname: &str) -> (&'a Prop, &'a Sub) {
    let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    });
    let s = p.subs.iter().find(|s| s.name == subname).unwrap_or_else(|| {
        eprintln!("unknown sub-check {}", subname);
        std::process::exit(2)
    });
    (p, s)
}

/// Runs cases start..end of one sub-check, writes its findings to --out.
fn worker(props: &[Prop], args: &[String]) {
    let id = arg(args, "--prop").unwrap();
    let subname = arg(args, "--sub").unwrap();
    let seed: u64 = arg(args, "--seed").unwrap().parse().unwrap();
    let start: u64 = arg(args, "--start").unwrap().parse().unwrap();
    let end: u64 = arg(args, "--end").unwrap().parse().unwrap();
    let thorough = arg(args, "--tier").unwrap() == "thorough";
    let out = arg(args, "--out").unwrap();
    let verif = PathBuf::from(arg(args, "--verif").unwrap());
    let known = known_sigs(&verif, &id);
    let (_p, s) = find(props, &id, &subname);
    install_hook();
    limit_memory();
    let status = format!("{}.status", out);
    let mut fps: Vec<u64> = Vec::new();
    let mut nontrivial_fps: HashSet<u64> = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut failure = Value::Null;
    let mut done = 0u64;
    for idx in start..end {
        fs::write(&status, idx.to_string()).unwrap();
        let mut src = Src::new(case_seed(seed, &id, &subname, idx), None, thorough);
        src.want_desc = samples.len() < 2;
        let r = run_case(s.f, &mut src);
        done += 1;
        let mut b = Vec::with_capacity(src.record.len() * 8);
        src.record.iter().for_each(|x| b.extend_from_slice(&x.to_le_bytes()));
        let fp = hash_bytes(1, &b);
        fps.push(fp);
        if src.nontrivial {
            nontrivial_fps.insert(fp);
            if samples.len() < 2 && !src.desc.is_empty() {
                samples.push(json!({"sub": subname, "case": idx, "classes": src.classes.clone(), "input": src.desc.join(" | ")}));
            }
        }
        for c in src.classes.iter() {
            *classes.entry(c.clone()).or_insert(0) += 1;
        }
        if let Err(e) = r {
            if let Some((sig, _)) = known.iter().find(|(sig, _)| *sig == e.sig) {
                *known_seen.entry(sig.clone()).or_insert(0) += 1;
                continue;
            }
            let sig = e.sig.clone();
            // the failure as found, in case shrinking does not come back
            let found = json!({
                "done": done, "nontrivial": [], "distinct": 0, "classes": {}, "samples": [], "known": {},
                "failure": {"idx": idx, "sig": sig, "what": e.what, "choices": src.record, "input": src.desc.join(" | ")},
            });
            fs::write(&out, found.to_string()).unwrap();
            fs::write(&status, format!("{} shrinking", idx)).unwrap();
            let best = shrink(src.record.clone(), 1500, Duration::from_secs(30), &mut |c: &[u64]| {
                let mut s2 = Src::new(0, Some(c.to_vec()), thorough);
                match run_case(s.f, &mut s2) {
                    Err(e2) => e2.sig == sig,
                    Ok(_) => false,
                }
            });
            let mut s2 = Src::new(0, Some(best.clone()), thorough);
            s2.want_desc = true;
            let what = match run_case(s.f, &mut s2) {
                Err(e2) => e2.what,
                Ok(_) => format!("(not reproduced from choices) {}", e.what),
            };
            failure = json!({"idx": idx, "sig": sig, "what": what, "choices": s2.record, "first_what": e.what, "input": s2.desc.join(" | ")});
            break;
        }
    }
    let v = json!({
        "done": done,
        "nontrivial": nontrivial_fps.iter().collect::<Vec<_>>(),
        "distinct": fps.iter().collect::<HashSet<_>>().len(),
        "classes": classes, "samples": samples, "failure": failure, "known": known_seen,
    });
    fs::write(&out, v.to_string()).unwrap();
    std::io::stdout().flush().ok();
    // background threads of the code under test must not delay the exit
    unsafe { exit_now(0) }
}

extern "C" {
    fn _exit(code: i32) -> !;
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}
/// Code that asks for memory without end is stopped by an allocation failure (an abort of that case) before the
/// machine runs out.
fn limit_memory() {
    const RLIMIT_DATA: i32 = 2;
    let most: u64 = 3 << 30;
    unsafe {
        setrlimit(RLIMIT_DATA, &[most, most]);
    }
}
unsafe fn exit_now(code: i32) -> ! {
    _exit(code)
}

/// Runs one case from a choice list, exit 0 ok, 10 failure. With --trace appends the draws of case --idx to a file.
fn one(props: &[Prop], args: &[String]) {
    let id = arg(args, "--prop").unwrap();
    let subname = arg(args, "--sub").unwrap();
    let thorough = arg(args, "--tier").unwrap() == "thorough";
    let (_p, s) = find(props, &id, &subname);
    install_hook();
    limit_memory();
    let mut src = if let Some(c) = arg(args, "--choices") {
        let v: Value = serde_json::from_str(&fs::read_to_string(c).unwrap()).unwrap();
        Src::new(0, Some(parse_choices(&v["choices"])), thorough)
    } else {
        let seed: u64 = arg(args, "--seed").unwrap().parse().unwrap();
        let idx: u64 = arg(args, "--idx").unwrap().parse().unwrap();
        Src::new(case_seed(seed, &id, &subname, idx), None, thorough)
    };
    src.want_desc = true;
    if let Some(t) = arg(args, "--trace") {
        src.trace = Some(fs::File::create(t).unwrap());
    }
    let r = run_case(s.f, &mut src);
    let out = match r {
        Ok(()) => json!({"ok": true, "input": src.desc}),
        Err(e) => json!({"ok": false, "sig": e.sig, "what": e.what, "input": src.desc}),
    };
    if let Some(o) = arg(args, "--out") {
        fs::write(o, out.to_string()).unwrap();
    } else {
        eprintln!("{}", out);
    }
    unsafe { exit_now(if out["ok"] == true { 0 } else { 10 }) }
}

/// A case that takes longer than this many seconds is looked at as a hang.
const QUIET: u64 = 60;

enum Ended {
    Code(i32),
    Signal(i32),
    Timeout,
    Stopped,
}

fn run_proc(cmd: &mut Command, limit: Duration) -> Ended {
    run_watched(cmd, limit, None, None)
}

/// How long the other workers may go on once a failure was found.
const GRACE: u64 = 20;

/// Ends the process after `limit`, or when the status file has not changed for the given time.
fn run_watched(cmd: &mut Command, limit: Duration, watch: Option<(&Path, Duration)>, stop: Option<&std::sync::atomic::AtomicBool>) -> Ended {
    let mut stopping: Option<Instant> = None;
    let mut last = (String::new(), Instant::now());
    let mut looked = Instant::now();
    use std::os::unix::process::ExitStatusExt;
    let mut child = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start a worker: {}", e);
            return Ended::Code(2);
        }
    };
    let t0 = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                return match st.code() {
                    Some(c) => Ended::Code(c),
                    None => Ended::Signal(st.signal().unwrap_or(0)),
                }
            }
            Ok(None) => {
                let mut stuck = false;
                if let Some((file, quiet)) = watch {
                    if looked.elapsed() > Duration::from_millis(500) {
                        looked = Instant::now();
                        let now = fs::read_to_string(file).unwrap_or_default();
                        if now != last.0 {
                            last = (now, Instant::now());
                        }
                        stuck = last.1.elapsed() > quiet;
                    }
                }
                if stop.map(|s| s.load(std::sync::atomic::Ordering::SeqCst)).unwrap_or(false) {
                    let since = *stopping.get_or_insert_with(Instant::now);
                    if since.elapsed() > Duration::from_secs(GRACE) {
                        let _ = child.kill();
                        let _ = child.wait();
                        return Ended::Stopped;
                    }
                }
                if stuck || t0.elapsed() > limit {
                    let _ = child.kill();
                    let _ = child.wait();
                    return Ended::Timeout;
                }
                std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 500 { 2 } else { 20 }));
            }
            Err(_) => return Ended::Code(2),
        }
    }
}

struct Task<'a> {
    sub: &'a Sub,
    start: u64,
    end: u64,
}

fn base_cmd(threads: usize, scratch: &Path, err: &Path) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.env("RAYON_NUM_THREADS", threads.to_string());
    c.env("PBT_SCRATCH", scratch);
    c.env("RUST_BACKTRACE", "0");
    c.stdin(Stdio::null()).stdout(Stdio::null());
    match fs::File::create(err) {
        Ok(f) => {
            c.stderr(f);
        }
        Err(_) => {
            c.stderr(Stdio::null());
        }
    }
    c
}

/// Signals with which the code under test can end the process by itself (a panic on a detached thread aborts).
fn crash_signal(s: i32) -> bool {
    [4, 5, 6, 7, 8, 11].contains(&s)
}

fn parent(props: &[Prop], args: &[String]) -> i32 {
    let t0 = Instant::now();
    let id = arg(args, "--prop").unwrap();
    let tier = arg(args, "--tier").unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let verif = PathBuf::from(arg(args, "--verif").unwrap());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("PBT_SUB").ok();
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let outdir = verif.join("out").join(&id);
    let _ = fs::remove_dir_all(&outdir);
    let scratch = outdir.join("scratch");
    fs::create_dir_all(&scratch).unwrap();
    let mut per_sub: Vec<Vec<Task>> = Vec::new();
    for s in &p.subs {
        if let Some(o) = &only {
            if s.name != o {
                continue;
            }
        }
        let n = if thorough { s.thorough } else { s.quick };
        let n = ((n as f64) * scale).ceil() as u64;
        let mut i = 0;
        let mut v = Vec::new();
        let chunk = if thorough { s.chunk * 4 } else { s.chunk };
        while i < n {
            let e = (i + chunk).min(n);
            v.push(Task { sub: s, start: i, end: e });
            i = e;
        }
        per_sub.push(v);
    }
    // interleave the sub-checks
    let mut tasks: Vec<Task> = Vec::new();
    let mut any = true;
    let mut round = 0;
    per_sub.iter_mut().for_each(|v| v.reverse());
    while any {
        any = false;
        for v in per_sub.iter_mut() {
            if let Some(t) = v.pop() {
                tasks.push(t);
                any = true;
            }
        }
        round += 1;
    }
    let _ = round;
    let limit = Duration::from_secs(if thorough { 3600 } else { 300 });
    let jobs: usize = std::env::var("PBT_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let next = Mutex::new(0usize);
    // (task, result) or an error of the check
    let results: Mutex<Vec<(usize, Value)>> = Mutex::new(Vec::new());
    let crashes: Mutex<Vec<(usize, u64, i32)>> = Mutex::new(Vec::new());
    let hangs: Mutex<Vec<(usize, u64)>> = Mutex::new(Vec::new());
    let errors: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let stop = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|sc| {
        for j in 0..jobs {
            let (tasks, next, results, crashes, hangs, errors, stop, id, verif, scratch, outdir, tier) =
                (&tasks, &next, &results, &crashes, &hangs, &errors, &stop, &id, &verif, &scratch, &outdir, &tier);
            sc.spawn(move || loop {
                if stop.load(std::sync::atomic::Ordering::SeqCst) {
                    return;
                }
                let i = {
                    let mut n = next.lock().unwrap();
                    let i = *n;
                    *n += 1;
                    i
                };
                if i >= tasks.len() {
                    return;
                }
                let t = &tasks[i];
                let out = outdir.join(format!("w{}.json", i));
                let err = outdir.join(format!("w{}.err", i));
                let sdir = scratch.join(format!("j{}_{}", j, i));
                let _ = fs::create_dir_all(&sdir);
                let mut c = base_cmd(t.sub.threads, &sdir, &err);
                c.arg("worker");
                for (k, v) in [
                    ("--prop", id.to_string()),
                    ("--sub", t.sub.name.to_string()),
                    ("--seed", seed.to_string()),
                    ("--start", t.start.to_string()),
                    ("--end", t.end.to_string()),
                    ("--tier", tier.to_string()),
                    ("--out", out.to_string_lossy().to_string()),
                    ("--verif", verif.to_string_lossy().to_string()),
                ]
                .iter()
                {
                    c.arg(k).arg(v);
                }
                let status = PathBuf::from(format!("{}.status", out.to_string_lossy()));
                match run_watched(&mut c, limit, Some((&status, Duration::from_secs(QUIET))), Some(stop)) {
                    Ended::Code(0) => match fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
                        Some(v) => {
                            if !v["failure"].is_null() {
                                stop.store(true, std::sync::atomic::Ordering::SeqCst);
                            }
                            results.lock().unwrap().push((i, v));
                        }
                        None => errors.lock().unwrap().push(format!("worker {} of {} left no result", i, t.sub.name)),
                    },
                    Ended::Signal(s) if crash_signal(s) => {
                        let st = fs::read_to_string(format!("{}.status", out.to_string_lossy())).ok().and_then(|s| s.parse::<u64>().ok());
                        match st {
                            Some(idx) => {
                                crashes.lock().unwrap().push((i, idx, s));
                                stop.store(true, std::sync::atomic::Ordering::SeqCst);
                            }
                            None => errors.lock().unwrap().push(format!("worker of {} died by signal {} before any case", t.sub.name, s)),
                        }
                    }
                    Ended::Signal(s) => errors.lock().unwrap().push(format!("worker of {} was ended by signal {}", t.sub.name, s)),
                    Ended::Code(c) => errors.lock().unwrap().push(format!("worker of {} exited with {}: {}", t.sub.name, c, fs::read_to_string(&err).unwrap_or_default().chars().take(400).collect::<String>())),
                    Ended::Stopped => {
                        // a failure it was still shrinking counts
                        if let Some(v) = fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
                            results.lock().unwrap().push((i, v));
                        }
                    }
                    Ended::Timeout => {
                        let st = fs::read_to_string(&status).unwrap_or_default();
                        let found = fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok());
                        match (found, st.parse::<u64>()) {
                            // a failure whose shrinking did not come back
                            (Some(v), _) => {
                                stop.store(true, std::sync::atomic::Ordering::SeqCst);
                                results.lock().unwrap().push((i, v));
                            }
                            (None, Ok(idx)) => {
                                hangs.lock().unwrap().push((i, idx));
                                stop.store(true, std::sync::atomic::Ordering::SeqCst);
                            }
                            _ => errors.lock().unwrap().push(format!("worker of {} ran out of time in case {:?}", t.sub.name, st)),
                        }
                    }
                }
                let _ = fs::remove_dir_all(&sdir);
            });
        }
    });
    let results = results.into_inner().unwrap();
    let crashes = crashes.into_inner().unwrap();
    let mut errors = errors.into_inner().unwrap();

    let known = known_sigs(&verif, &id);
    let mut evaluations = 0u64;
    let mut nontrivial: HashSet<(String, u64)> = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut by_sub: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut sample_subs: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut failures: Vec<(String, Value)> = Vec::new();
    for (i, v) in &results {
        let name = tasks[*i].sub.name;
        evaluations += v["done"].as_u64().unwrap_or(0);
        *by_sub.entry(name.to_string()).or_insert(0) += v["done"].as_u64().unwrap_or(0);
        for f in v["nontrivial"].as_array().unwrap_or(&vec![]) {
            nontrivial.insert((name.to_string(), f.as_u64().unwrap_or(0)));
        }
        if let Some(o) = v["classes"].as_object() {
            for (k, c) in o {
                *classes.entry(format!("{}:{}", name, k)).or_insert(0) += c.as_u64().unwrap_or(0);
            }
        }
        if let Some(o) = v["known"].as_object() {
            for (k, c) in o {
                *known_seen.entry(k.clone()).or_insert(0) += c.as_u64().unwrap_or(0);
            }
        }
        for s in v["samples"].as_array().unwrap_or(&vec![]) {
            let c = sample_subs.entry(name.to_string()).or_insert(0);
            if *c < 2 {
                *c += 1;
                samples.push(s.clone());
            }
        }
        if !v["failure"].is_null() {
            let mut f = v["failure"].clone();
            f["sub"] = json!(name);
            failures.push((name.to_string(), f));
        }
    }
    // crashes of the process: confirm, recover the choices, shrink in subprocesses
    let looked_at = Instant::now();
    for (i, idx, sig) in crashes {
        if !failures.is_empty() && looked_at.elapsed() > Duration::from_secs(30) {
            break;
        }
        let t = &tasks[i];
        let sdir = scratch.join(format!("crash_{}", i));
        let _ = fs::create_dir_all(&sdir);
        let trace = outdir.join(format!("trace_{}", i));
        let err = outdir.join("one.err");
        let mut c = base_cmd(t.sub.threads, &sdir, &err);
        c.args(["one", "--prop", &id, "--sub", t.sub.name, "--tier", &tier, "--seed", &seed.to_string(), "--idx", &idx.to_string(), "--trace", &trace.to_string_lossy()]);
        let again = run_proc(&mut c, Duration::from_secs(120));
        let crashed = matches!(again, Ended::Signal(s) if crash_signal(s)) || matches!(again, Ended::Code(10));
        let msg = fs::read_to_string(outdir.join(format!("w{}.err", i))).unwrap_or_default();
        let msg: String = msg.lines().filter(|l| l.contains("panic")).last().unwrap_or("").chars().take(300).collect();
        if !crashed {
            // Still a real abort of the code under test, but it needs the schedule it had.
            failures.push((t.sub.name.to_string(), json!({"sub": t.sub.name, "idx": idx, "sig": "abort", "what": format!("the process was aborted by signal {} {}", sig, msg), "choices": Value::Null, "seed": seed})));
            continue;
        }
        let raw = fs::read(&trace).unwrap_or_default();
        let choices: Vec<u64> = raw.chunks_exact(8).map(|b| {
            let mut a = [0u8; 8];
            a.copy_from_slice(b);
            u64::from_le_bytes(a)
        }).collect();
        let cfile = outdir.join("cand.json");
        let best = shrink(choices, 80, Duration::from_secs(40), &mut |c: &[u64]| {
            fs::write(&cfile, json!({ "choices": c }).to_string()).unwrap();
            let mut cmd = base_cmd(t.sub.threads, &sdir, &err);
            cmd.args(["one", "--prop", &id, "--sub", t.sub.name, "--tier", &tier, "--choices", &cfile.to_string_lossy()]);
            matches!(run_proc(&mut cmd, Duration::from_secs(60)), Ended::Signal(s) if crash_signal(s))
        });
        failures.push((t.sub.name.to_string(), json!({"sub": t.sub.name, "idx": idx, "sig": "abort", "what": format!("the process was aborted by signal {} {}", sig, msg), "choices": best})));
    }
    // cases that did not come back: they take milliseconds, so one that stalls again on its own is a hang
    let looked_at = Instant::now();
    for (i, idx) in hangs.into_inner().unwrap() {
        if looked_at.elapsed() > Duration::from_secs(if failures.is_empty() { 240 } else { 0 }) {
            break;
        }
        let t = &tasks[i];
        let sdir = scratch.join(format!("hang_{}", i));
        let _ = fs::create_dir_all(&sdir);
        let trace = outdir.join(format!("trace_{}", i));
        let err = outdir.join("one.err");
        let mut again = false;
        let tried = Instant::now();
        while !again && tried.elapsed() < Duration::from_secs(2 * QUIET) {
            let mut c = base_cmd(t.sub.threads, &sdir, &err);
            c.args(["one", "--prop", &id, "--sub", t.sub.name, "--tier", &tier, "--seed", &seed.to_string(), "--idx", &idx.to_string(), "--trace", &trace.to_string_lossy()]);
            if matches!(run_proc(&mut c, Duration::from_secs(QUIET)), Ended::Timeout) {
                again = true;
            }
        }
        if !again {
            errors.push(format!("case {} of {} stalled for {} s once and not again", idx, t.sub.name, QUIET));
            continue;
        }
        let raw = fs::read(&trace).unwrap_or_default();
        let choices: Vec<u64> = raw.chunks_exact(8).map(|b| {
            let mut a = [0u8; 8];
            a.copy_from_slice(b);
            u64::from_le_bytes(a)
        }).collect();
        let cfile = outdir.join("cand.json");
        let best = shrink(choices, 60, Duration::from_secs(80), &mut |c: &[u64]| {
            fs::write(&cfile, json!({ "choices": c }).to_string()).unwrap();
            let mut cmd = base_cmd(t.sub.threads, &sdir, &err);
            cmd.args(["one", "--prop", &id, "--sub", t.sub.name, "--tier", &tier, "--choices", &cfile.to_string_lossy()]);
            matches!(run_proc(&mut cmd, Duration::from_secs(15)), Ended::Timeout)
        });
        failures.push((t.sub.name.to_string(), json!({"sub": t.sub.name, "idx": idx, "sig": "hang", "what": format!("the case does not end: it stalled for {} s, twice", QUIET), "choices": best})));
    }
    let mut violations = 0;
    let mut replays = Vec::new();
    for (name, f) in &failures {
        if let Some((sig, _)) = known.iter().find(|(s, _)| f["sig"] == s.as_str()) {
            *known_seen.entry(sig.clone()).or_insert(0) += 1;
            continue;
        }
        violations += 1;
        let path = outdir.join(format!("replay_{}_{}.json", name, f["idx"]));
        let mut rf = f.clone();
        rf["property"] = json!(id);
        rf["tier"] = json!(tier);
        rf["seed"] = json!(seed);
        fs::write(&path, serde_json::to_string_pretty(&rf).unwrap()).unwrap();
        replays.push((path, f["what"].as_str().unwrap_or("").to_string()));
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial.len(),
            "rule": p.rule,
            "samples": samples,
            "cases_by_sub_check": by_sub,
            "case_classes": classes,
            "known_finding_cases": known_seen,
        },
        "assumptions": p.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    let evdir = verif.join("evidence");
    let _ = fs::create_dir_all(&evdir);
    fs::write(evdir.join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    let _ = fs::remove_dir_all(&scratch);
    for (sig, text) in &known {
        if known_seen.contains_key(sig) {
            println!("KNOWN-FINDING: property={} {}", id, text);
        } else {
            println!("note: the listed finding {} was not seen in this run", sig);
        }
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {:.1} s, seed {}",
        id, tier, evaluations, nontrivial.len(), wall, seed
    );
    for (path, what) in &replays {
        println!("{}", what.chars().take(600).collect::<String>());
        println!("VIOLATION property={} replay={}", id, path.display());
    }
    if violations > 0 {
        return 1;
    }
    if evaluations == 0 {
        errors.push("no case was run".into());
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("error of the check: {}", e);
        }
        return 2;
    }
    if std::env::var("PBT_KEEP").is_err() {
        let _ = fs::remove_dir_all(&outdir);
    }
    0
}

fn replay(props: &[Prop], args: &[String]) -> i32 {
    let file = args.get(2).cloned().unwrap_or_default();
    let v: Value = match fs::read_to_string(&file).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", file);
            return 2;
        }
    };
    let id = v["property"].as_str().unwrap_or("").to_string();
    let subname = v["sub"].as_str().unwrap_or("").to_string();
    let (_p, s) = find(props, &id, &subname);
    let scratch = std::env::temp_dir().join(format!("pbt_replay_{}", std::process::id()));
    fs::create_dir_all(&scratch).unwrap();
    let out = scratch.join("one.json");
    let mut c = base_cmd(s.threads, &scratch, &scratch.join("one.err"));
    c.args(["one", "--prop", &id, "--sub", &subname, "--tier", v["tier"].as_str().unwrap_or("quick"), "--out", &out.to_string_lossy()]);
    if v["choices"].is_null() {
        c.args(["--seed", &v["seed"].to_string(), "--idx", &v["idx"].to_string()]);
    } else {
        c.args(["--choices", &file]);
    }
    let r = run_proc(&mut c, Duration::from_secs(if v["sig"] == "hang" { QUIET } else { 600 }));
    let text = fs::read_to_string(&out).unwrap_or_default();
    println!("{}", text);
    let bad = match r {
        Ended::Code(0) => false,
        Ended::Code(10) => true,
        Ended::Signal(s) if crash_signal(s) => true,
        Ended::Timeout if v["sig"] == "hang" => true,
        _ => {
            eprintln!("the replay gave no answer");
            let _ = fs::remove_dir_all(&scratch);
            return 2;
        }
    };
    let _ = fs::remove_dir_all(&scratch);
    if bad {
        println!("VIOLATION property={} replay={}", id, file);
        1
    } else {
        println!("the replayed case holds");
        0
    }
}

/// A directory of this worker that is removed by the parent.
pub fn scratch_dir() -> PathBuf {
    let d = std::env::var("PBT_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir().join(format!("pbt_{}", std::process::id())));
    fs::create_dir_all(&d).unwrap();
    d
}

pub fn main(props: Vec<Prop>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            worker(&props, &args);
            0
        }
        Some("one") => {
            one(&props, &args);
            0
        }
        Some("check") => parent(&props, &args),
        Some("replay") => replay(&props, &args),
        Some("list") => {
            props.iter().for_each(|p| println!("{}", p.id));
            0
        }
        _ => {
            eprintln!("usage: check --prop ID --tier T --verif DIR | replay FILE | list");
            2
        }
    };
    std::process::exit(code)
}
