//! Choice-sequence property-based testing engine: generation, parallel execution, supervision
//! (crash / hang / over-allocation of the code under test), shrinking, replay and evidence.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};

use crate::{alloc, sys};

// ---- PRNG ---------------------------------------------------------------------------------

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { self.next() } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b.chunks(8) {
        let mut v = [0u8; 8];
        v[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(v)).wrapping_add(c.len() as u64);
    }
    h
}

// ---- choice source ------------------------------------------------------------------------

/// Source of every decision of a case. A value of 0 always means the simplest alternative.
pub struct Src {
    script: Option<Vec<u64>>,
    pos: usize,
    rng: Rng,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn new(seed: u64) -> Self {
        Src { script: None, pos: 0, rng: Rng(seed), rec: Vec::new() }
    }
    pub fn script(v: Vec<u64>) -> Self {
        Src { script: Some(v), pos: 0, rng: Rng(0), rec: Vec::new() }
    }
    /// Uniform in 0..n (n = 0: any u64).
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &self.script {
            Some(s) => {
                let v = s.get(self.pos).copied().unwrap_or(0);
                if n == 0 { v } else { v.min(n - 1) }
            }
            None => self.rng.below(n),
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// True with probability p/1024; false is the simple alternative.
    pub fn chance(&mut self, p: u64) -> bool {
        if p == 0 { return false; }
        self.below(1024) >= 1024 - p.min(1024)
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
    /// Index drawn according to integer weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut r = self.below(total);
        for (i, &x) in w.iter().enumerate() {
            if r < x { return i; }
            r -= x;
        }
        w.len() - 1
    }
    /// Integer in lo..=hi, log-uniform-ish (small values likely).
    pub fn log(&mut self, lo: u64, hi: u64) -> u64 {
        let span = hi - lo;
        let bits = 64 - span.leading_zeros() as u64;
        let b = self.below(bits + 1);
        let m = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
        lo + self.below(m.min(span).saturating_add(1).max(1)).min(span)
    }
    pub fn u32(&mut self) -> u32 {
        self.below(1 << 32) as u32
    }
    /// 32-bit value biased to boundaries.
    pub fn edgy32(&mut self) -> u32 {
        match self.below(8) {
            0 => 0,
            1 => *self.pick(&[1u32, 2, 31, 32, 63, 64, 127, 128, 255, 256, 4095, 4096, 65535, 65536]),
            2 => u32::MAX - self.below(5) as u32,
            3 => (1u32 << 20).wrapping_add(self.below(9) as u32).wrapping_sub(4),
            4 => 1u32 << self.below(32),
            5 => (1u32 << self.below(32)).wrapping_sub(1),
            6 => self.below(5000) as u32,
            _ => self.u32(),
        }
    }
    pub fn len(&self) -> usize {
        self.rec.len()
    }
}

// ---- case context -------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Cx {
    pub tier: Tier,
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
    pub verbose: bool,
    pub log: Vec<String>,
    pub seed: u64,
    pub extra_evals: u64,
    pub fingerprint: Option<u64>,
    /// the allocator contract is part of the property under test
    pub heap_contract: bool,
}

impl Cx {
    pub fn new(tier: Tier, seed: u64, verbose: bool) -> Self {
        Cx { tier, nontrivial: false, labels: BTreeMap::new(), verbose, log: Vec::new(), seed, extra_evals: 0, fingerprint: None, heap_contract: false }
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn count(&mut self, l: &'static str, n: u64) {
        *self.labels.entry(l).or_insert(0) += n;
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose && self.log.len() < 20000 {
            let s = f();
            self.log.push(s);
        }
    }
}

pub type CaseResult = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Cx) -> CaseResult;

pub struct Test {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub tests: Vec<Test>,
}

// ---- calls into the code under test -------------------------------------------------------

struct Slot {
    test: AtomicU64,
    index: AtomicU64,
    active: AtomicBool,
    seq: AtomicU64, // odd: inside a call
    what: AtomicUsize,
    tid: AtomicU64,
    script: Mutex<Option<Vec<u64>>>,
}

thread_local! {
    static IN_CALL: Cell<Option<&'static str>> = const { Cell::new(None) };
    static SLOT: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

/// Runs a call into uflow: marks it for panic attribution, the hang watchdog and the allocator.
pub fn call<R>(what: &'static &'static str, f: impl FnOnce() -> R) -> R {
    if IN_CALL.with(|c| c.get()).is_some() {
        return f();
    }
    IN_CALL.with(|c| c.set(Some(*what)));
    CALLS.with(|c| c.set(c.get() + 1));
    SLOT.with(|s| {
        if let Some(s) = s.borrow().as_ref() {
            s.what.store(what as *const &'static str as usize, Relaxed);
            s.seq.fetch_add(1, Relaxed);
        }
    });
    let old = alloc::set_tag(1);
    let r = f();
    alloc::set_tag(old);
    SLOT.with(|s| {
        if let Some(s) = s.borrow().as_ref() {
            s.seq.fetch_add(1, Relaxed);
        }
    });
    IN_CALL.with(|c| c.set(None));
    r
}

/// Harness code running inside a callback from uflow.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let t = alloc::set_tag(0);
    let r = f();
    alloc::set_tag(t);
    r
}

#[macro_export]
macro_rules! call {
    ($what:literal, $e:expr) => {{
        static W: &str = $what;
        $crate::engine::call(&W, || $e)
    }};
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let t = alloc::set_tag(0);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
        if std::env::var_os("UV_BT").is_some() {
            eprintln!("panic: {} at {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
        alloc::set_tag(t);
    }));
}

pub enum Outcome {
    Pass,
    Fail(String),
    HarnessError(String),
}

/// Runs one case from a clean thread state.
pub fn run_case(test: &Test, src: &mut Src, cx: &mut Cx) -> Outcome {
    alloc::set_tag(0);
    alloc::reset();
    alloc::set_limit(2 << 30);
    sys::clock_off();
    sys::net_off();
    rand::rngs::shim::seed(mix(cx.seed));
    IN_CALL.with(|c| c.set(None));
    let r = catch_unwind(AssertUnwindSafe(|| (test.f)(src, cx)));
    let in_call = IN_CALL.with(|c| c.replace(None));
    alloc::set_tag(0);
    SLOT.with(|s| {
        if let Some(s) = s.borrow().as_ref() {
            let v = s.seq.load(Relaxed);
            if v & 1 == 1 {
                s.seq.store(v + 1, Relaxed);
            }
        }
    });
    sys::net_off();
    sys::clock_off();
    rand::rngs::shim::clear_forced();
    match r {
        Ok(Ok(())) => {
            let errs = if cx.heap_contract { alloc::errors() } else { Vec::new() };
            if let Some(e) = errs.first() {
                return Outcome::Fail(format!("allocator contract broken: {:?}", e));
            }
            Outcome::Pass
        }
        Ok(Err(m)) => Outcome::Fail(m),
        Err(_) => {
            let msg = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            match in_call {
                Some(w) => Outcome::Fail(format!("panic inside uflow call `{}`: {}", w, msg)),
                None => Outcome::HarnessError(format!("harness panic: {}", msg)),
            }
        }
    }
}

// ---- configuration ------------------------------------------------------------------------

pub struct Env {
    pub seed: u64,
    pub tier: Tier,
    pub root: PathBuf,
    pub threads: usize,
    pub scale: f64,
    pub only: Option<String>,
}

pub fn env() -> Env {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() { Ok("thorough") => Tier::Thorough, _ => Tier::Quick };
    let root = std::env::var_os("UV_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"));
    let threads = std::env::var("UV_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, 16);
    let scale = std::env::var("UV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    Env { seed, tier, root, threads, scale, only: std::env::var("UV_ONLY").ok() }
}

fn cases_of(t: &Test, e: &Env) -> u64 {
    let n = if e.tier == Tier::Thorough { t.thorough } else { t.quick };
    if n <= 1 { n } else { ((n as f64 * e.scale) as u64).max(1) }
}

fn case_seed(e_seed: u64, prop: &str, test: &str, index: u64) -> u64 {
    mix(mix(e_seed ^ hash_bytes(prop.as_bytes())) ^ hash_bytes(test.as_bytes()).wrapping_mul(3) ^ mix(index))
}

// ---- replay files -------------------------------------------------------------------------

pub struct Replay {
    pub prop: String,
    pub test: String,
    pub tier: Tier,
    pub seed: u64,
    pub choices: Option<Vec<u64>>,
    pub message: String,
}

impl Replay {
    fn write(&self, root: &PathBuf) -> PathBuf {
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let mut s = String::new();
        s += "uflow-replay 1\n";
        s += &format!("property {}\ntest {}\ntier {}\nseed {}\n", self.prop, self.test, if self.tier == Tier::Quick { "quick" } else { "thorough" }, self.seed);
        if let Some(c) = &self.choices {
            s += "choices";
            for v in c {
                s += &format!(" {}", v);
            }
            s += "\n";
        }
        s += &format!("message {}\n", self.message.replace('\n', " | "));
        let p = dir.join(format!("{}-{}-{:016x}.replay", self.prop, self.test, hash_bytes(s.as_bytes())));
        let _ = std::fs::write(&p, s);
        p
    }
    pub fn read(path: &str) -> Option<Replay> {
        let s = std::fs::read_to_string(path).ok()?;
        let mut r = Replay { prop: String::new(), test: String::new(), tier: Tier::Quick, seed: 1, choices: None, message: String::new() };
        for l in s.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => r.prop = v.into(),
                "test" => r.test = v.into(),
                "tier" => r.tier = if v == "thorough" { Tier::Thorough } else { Tier::Quick },
                "seed" => r.seed = v.parse().ok()?,
                "choices" => r.choices = Some(v.split_whitespace().filter_map(|x| x.parse().ok()).collect()),
                "message" => r.message = v.into(),
                _ => (),
            }
        }
        Some(r)
    }
}

pub fn replay(props: &[Prop], path: &str, quiet: bool) -> i32 {
    let r = match Replay::read(path) { Some(r) => r, None => { eprintln!("cannot read {}", path); return 2; } };
    let p = match props.iter().find(|p| p.id == r.prop) { Some(p) => p, None => { eprintln!("unknown property {}", r.prop); return 2; } };
    let t = match p.tests.iter().find(|t| t.name == r.test) { Some(t) => t, None => { eprintln!("unknown test {}", r.test); return 2; } };
    let mut src = match r.choices { Some(c) => Src::script(c), None => Src::new(r.seed) };
    let mut cx = Cx::new(r.tier, r.seed, !quiet);
    let o = run_case(t, &mut src, &mut cx);
    if !quiet {
        for l in &cx.log {
            println!("  {}", l);
        }
        println!("labels: {:?}", cx.labels);
    }
    match o {
        Outcome::Pass => { println!("replay passes"); 0 }
        Outcome::Fail(m) => { println!("{}\nVIOLATION property={} replay={}", m, p.id, path); 1 }
        Outcome::HarnessError(m) => { println!("ERROR {}", m); 2 }
    }
}

// ---- shrinking ----------------------------------------------------------------------------

fn kind(m: &str) -> &str {
    m.split(':').next().unwrap_or("")
}

fn shrink(test: &Test, tier: Tier, seed: u64, start: Vec<u64>, msg: &str, slot: Option<&Arc<Slot>>) -> (Vec<u64>, String) {
    let t0 = sys::real_ns();
    let budget_ns = 40_000_000_000u64;
    let mut best = start;
    let mut best_msg = msg.to_string();
    let mut tries = 0u32;
    let k = kind(msg).to_string();
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, best_msg: &mut String| -> bool {
        if sys::real_ns() - t0 > budget_ns || tries > 4000 {
            return false;
        }
        tries += 1;
        if let Some(s) = slot {
            *s.script.lock().unwrap() = Some(cand.to_vec());
        }
        let mut src = Src::script(cand.to_vec());
        let mut cx = Cx::new(tier, seed, false);
        if let Outcome::Fail(m) = run_case(test, &mut src, &mut cx) {
            if kind(&m) == k {
                let mut rec = src.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                if rec.len() < best.len() || (rec.len() == best.len() && rec < *best) {
                    *best = rec;
                    *best_msg = m;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // drop the tail
        let mut n = best.len() / 2;
        while n > 0 {
            if best.len() > n {
                let c = best[..best.len() - n].to_vec();
                if attempt(&c, &mut best, &mut best_msg) { continue; }
            }
            n /= 2;
        }
        // delete chunks
        let mut n = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + n <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + n);
                if !attempt(&c, &mut best, &mut best_msg) { i += n; }
                if sys::real_ns() - t0 > budget_ns { break; }
            }
            if n == 1 { break; }
            n /= 2;
            if n < 4 && best.len() > 600 { break; }
        }
        // zero chunks
        let mut n = (best.len() / 4).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let e = (i + n).min(best.len());
                if best[i..e].iter().any(|&v| v != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|v| *v = 0);
                    attempt(&c, &mut best, &mut best_msg);
                }
                i += n;
                if sys::real_ns() - t0 > budget_ns { break; }
            }
            if n == 1 { break; }
            n /= 2;
            if n < 2 && best.len() > 600 { break; }
        }
        // minimise values
        if best.len() <= 600 {
            let mut i = 0;
            while i < best.len() {
                let mut lo = 0u64;
                while i < best.len() && lo < best[i] {
                    let mid = lo + (best[i] - lo) / 2;
                    let mut c = best.clone();
                    c[i] = mid;
                    if !attempt(&c, &mut best, &mut best_msg) {
                        lo = mid + 1;
                    }
                    if sys::real_ns() - t0 > budget_ns { break; }
                }
                i += 1;
            }
        }
        if best == before || sys::real_ns() - t0 > budget_ns {
            break;
        }
    }
    (best, best_msg)
}

// ---- known findings -----------------------------------------------------------------------

/// `known: property=<id> test=<test> <text>`: the directed test <test> is expected to fail.
fn known_findings(root: &PathBuf, prop: &str) -> Vec<(String, String)> {
    let mut out = Vec::new();
    if let Ok(s) = std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("");
                let t = it.next().unwrap_or("");
                let text = it.next().unwrap_or("");
                if p.strip_prefix("property=") == Some(prop) {
                    if let Some(t) = t.strip_prefix("test=") {
                        out.push((t.to_string(), text.to_string()));
                    }
                }
            }
        }
    }
    out
}

// ---- check --------------------------------------------------------------------------------

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += " ",
            c => o.push(c),
        }
    }
    o
}

struct Agg {
    evals: u64,
    fps: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    per_test: BTreeMap<usize, (u64, u64)>,
    samples: Vec<(usize, u64)>,
    fail: Option<(usize, u64, Vec<u64>, String)>,
    herr: Option<String>,
    known_hit: Vec<String>,
    calls: u64,
}

pub fn check(p: &Prop) -> i32 {
    // Supervise a worker process, so that an abort, a stack overflow or the like is reported.
    let e = env();
    if std::env::var_os("UV_NOFORK").is_some() {
        return worker(p, None);
    }
    let dir = e.root.join("target").join("run");
    let _ = std::fs::create_dir_all(&dir);
    let state = dir.join(format!("{}-{}.state", p.id, std::process::id()));
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&exe).arg("worker").arg(p.id).arg(&state).status();
    let code = match st {
        Ok(s) => match s.code() {
            Some(c) if c == 0 || c == 1 || c == 2 => c,
            _ => {
                use std::os::unix::process::ExitStatusExt;
                let sig = s.signal().unwrap_or(0);
                println!("worker ended abnormally (signal {}, code {:?})", sig, s.code());
                if [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) {
                    crash_search(p, &e, &state, &exe)
                } else {
                    2
                }
            }
        },
        Err(err) => {
            println!("cannot start worker: {}", err);
            2
        }
    };
    let _ = std::fs::remove_file(&state);
    code
}

fn crash_search(p: &Prop, e: &Env, state: &PathBuf, exe: &PathBuf) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let data = std::fs::read(state).unwrap_or_default();
    for c in data.chunks(16) {
        if c.len() < 16 { break; }
        let t = u64::from_le_bytes(c[..8].try_into().unwrap());
        let i = u64::from_le_bytes(c[8..].try_into().unwrap());
        if t == 0 || t > p.tests.len() as u64 { continue; }
        let test = &p.tests[t as usize - 1];
        let r = Replay { prop: p.id.into(), test: test.name.into(), tier: e.tier, seed: case_seed(e.seed, p.id, test.name, i), choices: None, message: "process crash".into() };
        let path = r.write(&e.root);
        let st = std::process::Command::new(exe).arg("replay-quiet").arg(&path).status();
        if let Ok(st) = st {
            if st.signal().is_some() {
                println!("case {}#{} ends the process with signal {}", test.name, i, st.signal().unwrap());
                println!("VIOLATION property={} replay={}", p.id, path.display());
                write_evidence_min(p, e, "a case ended the process by a signal", t, i);
                return 1;
            }
        }
        let _ = std::fs::remove_file(&path);
    }
    println!("ERROR: worker crash could not be reproduced");
    2
}

fn write_evidence_min(p: &Prop, e: &Env, what: &str, t: u64, i: u64) {
    let dir = e.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let s = format!("{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":\"{}\",\"samples\":[\"{}: test {} case {}\"]}},\"wall_s\":0}}\n",
        p.id, if e.tier == Tier::Quick { "quick" } else { "thorough" }, e.seed, i + 1, 1, esc(p.rule), esc(what), t, i);
    let _ = std::fs::write(dir.join(format!("{}.json", p.id)), s);
}

pub fn worker(p: &Prop, state: Option<&str>) -> i32 {
    let e = env();
    let t0 = sys::real_ns();
    // work list
    let mut plan: Vec<(usize, u64)> = Vec::new();
    let known = known_findings(&e.root, p.id);
    let counts: Vec<u64> = p.tests.iter().map(|t| if e.only.as_deref().map_or(false, |o| o != t.name) { 0 } else { cases_of(t, &e) }).collect();
    // interleave the tests so that every one is reached early
    let max = counts.iter().copied().max().unwrap_or(0);
    let steps = 200u64.min(max.max(1));
    for s in 0..steps {
        for (ti, &n) in counts.iter().enumerate() {
            let (a, b) = (n * s / steps, n * (s + 1) / steps);
            for i in a..b {
                plan.push((ti, i));
            }
        }
    }
    let plan = Arc::new(plan);
    let next = Arc::new(AtomicUsize::new(0));
    let stop_at = Arc::new(AtomicUsize::new(usize::MAX));
    let agg = Arc::new(Mutex::new(Agg { evals: 0, fps: HashSet::new(), labels: BTreeMap::new(), per_test: BTreeMap::new(), samples: Vec::new(), fail: None, herr: None, known_hit: Vec::new(), calls: 0 }));
    let slots: Vec<Arc<Slot>> = (0..e.threads).map(|_| Arc::new(Slot { test: AtomicU64::new(0), index: AtomicU64::new(0), active: AtomicBool::new(false), seq: AtomicU64::new(0), what: AtomicUsize::new(0), tid: AtomicU64::new(0), script: Mutex::new(None) })).collect();
    let map = state.and_then(|s| StateMap::open(s, e.threads));
    let limit_s: u64 = std::env::var("UV_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if e.tier == Tier::Quick { 700 } else { 6 * 3600 });
    let budget_hit = Arc::new(AtomicBool::new(false));
    let fail_pos = Arc::new(Mutex::new(usize::MAX));
    std::thread::scope(|sc| {
        let mut handles = Vec::new();
        for th in 0..e.threads {
            let (plan, next, stop_at, agg, slot, budget_hit, fail_pos) = (plan.clone(), next.clone(), stop_at.clone(), agg.clone(), slots[th].clone(), budget_hit.clone(), fail_pos.clone());
            let (e, known, map) = (&e, &known, map.as_ref());
            handles.push(std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                slot.tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as u64, Relaxed);
                SLOT.with(|s| *s.borrow_mut() = Some(slot.clone()));
                let mut fps = HashSet::new();
                let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                let mut per: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
                let mut evals = 0u64;
                loop {
                    let k = next.fetch_add(1, SeqCst);
                    if k >= plan.len() || k > stop_at.load(SeqCst) { break; }
                    if (sys::real_ns() - t0) / 1_000_000_000 > limit_s {
                        budget_hit.store(true, SeqCst);
                        break;
                    }
                    let (ti, idx) = plan[k];
                    let test = &p.tests[ti];
                    slot.test.store(ti as u64 + 1, Relaxed);
                    slot.index.store(idx, Relaxed);
                    slot.active.store(true, SeqCst);
                    if let Some(m) = map { m.set(th, ti as u64 + 1, idx); }
                    let seed = case_seed(e.seed, p.id, test.name, idx);
                    let mut src = Src::new(seed);
                    let mut cx = Cx::new(e.tier, seed, false);
                    let o = run_case(test, &mut src, &mut cx);
                    slot.active.store(false, SeqCst);
                    evals += 1 + cx.extra_evals;
                    let pt = per.entry(ti).or_insert((0, 0));
                    pt.0 += 1 + cx.extra_evals;
                    if cx.nontrivial {
                        let mut h = 0u64;
                        if let Some(f) = cx.fingerprint { h = f; } else { for v in &src.rec { h = mix(h ^ *v).rotate_left(1); } }
                        if fps.insert(mix(h ^ ti as u64)) {
                            pt.1 += 1;
                            if idx < 3 || pt.1 == 1 {
                                agg.lock().unwrap().samples.push((ti, idx));
                            }
                        }
                    }
                    for (l, n) in cx.labels.iter() { *labels.entry(l).or_insert(0) += n; }
                    match o {
                        Outcome::Pass => (),
                        Outcome::Fail(m) => {
                            if let Some((t, _)) = known.iter().find(|k| k.0 == test.name) {
                                agg.lock().unwrap().known_hit.push(t.clone());
                                continue;
                            }
                            let mut fp = fail_pos.lock().unwrap();
                            if k < *fp {
                                *fp = k;
                                stop_at.fetch_min(k, SeqCst);
                                agg.lock().unwrap().fail = Some((ti, idx, src.rec, m));
                            }
                        }
                        Outcome::HarnessError(m) => {
                            let mut a = agg.lock().unwrap();
                            if a.herr.is_none() { a.herr = Some(format!("{}#{}: {}", test.name, idx, m)); }
                            stop_at.fetch_min(k, SeqCst);
                        }
                    }
                }
                let mut a = agg.lock().unwrap();
                a.evals += evals;
                a.fps.extend(fps);
                for (l, n) in labels { *a.labels.entry(l).or_insert(0) += n; }
                for (t, (x, y)) in per { let q = a.per_test.entry(t).or_insert((0, 0)); q.0 += x; q.1 += y; }
                a.calls += CALLS.with(|c| c.get());
                SLOT.with(|s| *s.borrow_mut() = None);
            }).unwrap());
        }
        // watchdog
        let done = Arc::new(AtomicBool::new(false));
        let d2 = done.clone();
        let (slots2, e2) = (&slots, &e);
        let wd = sc.spawn(move || watchdog(p, e2, slots2, &d2));
        for h in handles { let _ = h.join(); }
        done.store(true, SeqCst);
        let _ = wd.join();
    });
    let a = agg.lock().unwrap();
    let wall = (sys::real_ns() - t0) as f64 / 1e9;
    let mut verdict = 0;
    for (t, text) in &known {
        if a.known_hit.iter().any(|x| x == t) {
            println!("KNOWN-FINDING: property={} {}", p.id, text);
        } else if e.only.is_none() {
            println!("note: listed finding no longer observed: {} {}", t, text);
        }
    }
    let mut lines = Vec::new();
    let mut violations = Vec::new();
    if let Some((ti, idx, rec, m)) = &a.fail {
        let test = &p.tests[*ti];
        let seed = case_seed(e.seed, p.id, test.name, *idx);
        // confirm
        let slot = Arc::new(Slot { test: AtomicU64::new(0), index: AtomicU64::new(0), active: AtomicBool::new(true), seq: AtomicU64::new(0), what: AtomicUsize::new(0), tid: AtomicU64::new(unsafe { libc::syscall(libc::SYS_gettid) } as u64), script: Mutex::new(Some(rec.clone())) });
        slot.test.store(*ti as u64 + 1, Relaxed);
        SLOT.with(|s| *s.borrow_mut() = Some(slot.clone()));
        let done = AtomicBool::new(false);
        let out = std::thread::scope(|sc| {
            let sl = vec![slot.clone()];
            let (e2, d2) = (&e, &done);
            let wd = sc.spawn(move || watchdog(p, e2, &sl, d2));
            let mut confirmed = None;
            for _ in 0..3 {
                let mut src = Src::script(rec.clone());
                let mut cx = Cx::new(e.tier, seed, false);
                if let Outcome::Fail(m2) = run_case(test, &mut src, &mut cx) {
                    confirmed = Some(m2);
                    break;
                }
            }
            let out = match confirmed {
                None => None,
                Some(m2) => {
                    let no_shrink = std::env::var_os("UV_NOSHRINK").is_some();
                    Some(if no_shrink { (rec.clone(), m2) } else { shrink(test, e.tier, seed, rec.clone(), &m2, Some(&slot)) })
                }
            };
            done.store(true, SeqCst);
            let _ = wd.join();
            out
        });
        SLOT.with(|s| *s.borrow_mut() = None);
        match out {
            Some((choices, msg)) => {
                let r = Replay { prop: p.id.into(), test: test.name.into(), tier: e.tier, seed, choices: Some(choices.clone()), message: msg.clone() };
                let path = r.write(&e.root);
                lines.push(format!("violation in test `{}` (case {}, {} choices, shrunk to {}): {}", test.name, idx, rec.len(), choices.len(), msg));
                lines.push(format!("VIOLATION property={} replay={}", p.id, path.display()));
                violations.push(msg);
                verdict = 1;
            }
            None => {
                lines.push(format!("ERROR: failure of test `{}` case {} did not reproduce: {}", test.name, idx, m));
                verdict = 2;
            }
        }
    }
    if let Some(h) = &a.herr {
        lines.push(format!("ERROR: {}", h));
        if verdict == 0 { verdict = 2; }
    }
    // samples: re-run a few non-trivial cases with logging on
    let mut samples = Vec::new();
    let mut per: BTreeMap<usize, u32> = BTreeMap::new();
    let mut ss = a.samples.clone();
    ss.sort();
    if verdict == 0 {
        for (ti, idx) in ss {
            let c = per.entry(ti).or_insert(0);
            if *c >= 1 || samples.len() >= 12 { continue; }
            *c += 1;
            let test = &p.tests[ti];
            let seed = case_seed(e.seed, p.id, test.name, idx);
            let mut src = Src::new(seed);
            let mut cx = Cx::new(e.tier, seed, true);
            let _ = run_case(test, &mut src, &mut cx);
            let n = cx.log.len();
            let head: Vec<String> = cx.log.iter().take(14).map(|s| s.chars().take(220).collect()).collect();
            samples.push(format!("\"test={} case={} choices={} first={:?} log({} lines): {}\"", test.name, idx, src.rec.len(), &src.rec[..src.rec.len().min(24)], n, esc(&head.join(" ; "))));
        }
    }
    if samples.is_empty() {
        samples.push(format!("\"{}\"", esc(&violations.join(" ; "))));
    }
    let dir = e.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let labels: Vec<String> = a.labels.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
    let per: Vec<String> = a.per_test.iter().map(|(t, (x, y))| format!("\"{}\":{{\"evaluations\":{},\"distinct_nontrivial\":{}}}", p.tests[*t].name, x, y)).collect();
    let s = format!("{{\n \"property\":\"{}\",\n \"tier\":\"{}\",\n \"seed\":{},\n \"level\":\"exploration\",\n \"coverage\":{{\n  \"evaluations\":{},\n  \"distinct_nontrivial\":{},\n  \"rule\":\"{}\",\n  \"calls_into_uflow\":{},\n  \"per_test\":{{{}}},\n  \"labels\":{{{}}},\n  \"planned_cases\":{},\n  \"time_budget_hit\":{},\n  \"violations\":{},\n  \"samples\":[\n   {}\n  ]\n }},\n \"wall_s\":{:.2}\n}}\n",
        p.id, if e.tier == Tier::Quick { "quick" } else { "thorough" }, e.seed, a.evals, a.fps.len(), esc(p.rule), a.calls, per.join(","), labels.join(","), plan.len(), budget_hit.load(SeqCst), violations.len(), samples.join(",\n   "), wall);
    let _ = std::fs::write(dir.join(format!("{}.json", p.id)), s);
    for l in &lines { println!("{}", l); }
    println!("{}: {} cases, {} distinct non-trivial, {:.1} s, verdict {}", p.id, a.evals, a.fps.len(), wall, ["held", "VIOLATED", "ERROR"][verdict as usize]);
    if std::env::var_os("UV_LABELS").is_some() {
        for (k, v) in &a.labels { println!("   {:<40} {}", k, v); }
        for (t, (x, y)) in &a.per_test { println!("   test {:<35} {} / {} nontrivial", p.tests[*t].name, x, y); }
    }
    verdict
}

const HANG_CPU_NS: u64 = 2_500_000_000;

/// Ends the process with a violation when one call into uflow has used 2.5 s of CPU time (the longest
/// legitimate calls take less than 0.1 s). CPU time, not wall-clock time, so machine load does not matter.
fn watchdog(p: &Prop, e: &Env, slots: &[Arc<Slot>], done: &AtomicBool) {
    let mut last: Vec<(u64, u64)> = vec![(0, 0); slots.len()];
    let calibrate = std::env::var_os("UV_CALIBRATE").is_some();
    let mut longest = 50_000_000;
    while !done.load(SeqCst) {
        if done.load(SeqCst) { return; }
        let ts = libc::timespec { tv_sec: 0, tv_nsec: 100_000_000 };
        unsafe { libc::nanosleep(&ts, std::ptr::null_mut()) };
        for (i, s) in slots.iter().enumerate() {
            let seq = s.seq.load(Relaxed);
            let tid = s.tid.load(Relaxed);
            if tid == 0 || seq & 1 == 0 {
                last[i] = (0, 0);
                continue;
            }
            // thread CPU clock of a kernel thread id
            let id = ((!(tid as i32)) << 3) | 6;
            let cpu = match sys::clock_id_ns(id) { Some(c) => c, None => continue };
            if last[i].0 != seq {
                last[i] = (seq, cpu);
                continue;
            }
            if calibrate && cpu.saturating_sub(last[i].1) > longest {
                longest = cpu - last[i].1;
                let what = unsafe { *(s.what.load(Relaxed) as *const &'static str) };
                eprintln!("longest call so far: {} with {} ms or more", what, longest / 1_000_000);
            }
            if cpu.saturating_sub(last[i].1) > HANG_CPU_NS {
                let ti = s.test.load(Relaxed) as usize;
                if ti == 0 { continue; }
                let test = &p.tests[ti - 1];
                let idx = s.index.load(Relaxed);
                let what = unsafe { *(s.what.load(Relaxed) as *const &'static str) };
                let script = s.script.lock().unwrap().clone();
                let r = Replay { prop: p.id.into(), test: test.name.into(), tier: e.tier, seed: case_seed(e.seed, p.id, test.name, idx), choices: script, message: format!("call `{}` does not return", what) };
                let path = r.write(&e.root);
                println!("call `{}` into uflow has used {} s of CPU time without returning (test {}, case {})", what, HANG_CPU_NS as f64 / 1e9, test.name, idx);
                println!("VIOLATION property={} replay={}", p.id, path.display());
                write_evidence_min(p, e, "a call into uflow did not return", ti as u64, idx);
                use std::io::Write;
                let _ = std::io::stdout().flush();
                unsafe { libc::_exit(1) };
            }
        }
    }
}

struct StateMap {
    ptr: *mut u64,
}
unsafe impl Sync for StateMap {}
unsafe impl Send for StateMap {}
impl StateMap {
    fn open(path: &str, threads: usize) -> Option<StateMap> {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).ok()?;
        f.set_len((threads * 16) as u64).ok()?;
        use std::os::fd::AsRawFd;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), threads * 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        if p == libc::MAP_FAILED { return None; }
        Some(StateMap { ptr: p as *mut u64 })
    }
    fn set(&self, th: usize, t: u64, i: u64) {
        unsafe {
            std::ptr::write_volatile(self.ptr.add(th * 2), t);
            std::ptr::write_volatile(self.ptr.add(th * 2 + 1), i);
        }
    }
}
