//! vk: a small choice-tape property-testing engine.
//!
//! A law is a function of a generator `G`. Every random decision is one `u64` on a tape, so a case
//! is a pure function of (code under test, tape). Generation appends to the tape from a seeded RNG;
//! replay reads a saved tape; shrinking edits the tape. Tape value 0 is always the simplest choice.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub mod dd;
pub mod mat;
pub mod taylor;

#[derive(Debug, Clone)]
pub enum Fail {
    /// The generated input is outside the law's domain.
    Discard,
    /// The property does not hold.
    Bad(String),
    /// The property does not hold, in a way with a stable signature (may be a listed finding).
    Sig(String, String),
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! bad {
    ($($t:tt)*) => { return Err($crate::Fail::Bad(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr) => { if !($c) { return Err($crate::Fail::Bad(format!("{}:{}: {}", file!(), line!(), stringify!($c)))); } };
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::Fail::Bad(format!("{}:{}: {}", file!(), line!(), format!($($t)*)))); } };
}
/// |a-b| <= tol, NaN fails; records the ratio |a-b|/tol so slack can be read from the evidence.
#[macro_export]
macro_rules! close {
    ($g:expr, $a:expr, $b:expr, $tol:expr, $($t:tt)*) => {{
        let (a_, b_, t_): (f64, f64, f64) = ($a, $b, $tol);
        let d_ = (a_ - b_).abs();
        if a_ == b_ || d_ <= t_ { $g.ratio(line!(), if t_ > 0.0 && a_ != b_ { d_ / t_ } else { 0.0 }); }
        else { return Err($crate::Fail::Bad(format!("{}:{}: {} : got {:e} want {:e} diff {:e} tol {:e}", file!(), line!(), format!($($t)*), a_, b_, d_, t_))); }
    }};
}
#[macro_export]
macro_rules! discard { () => { return Err($crate::Fail::Discard) }; }
#[macro_export]
macro_rules! law {
    ($name:expr, $cases:expr, $f:expr) => { $crate::Law { name: $name, cases: $cases, rule: "", f: $f } };
    ($name:expr, $cases:expr, $f:expr, $rule:expr) => { $crate::Law { name: $name, cases: $cases, rule: $rule, f: $f } };
}

pub struct Law {
    pub name: &'static str,
    /// Cases in the quick tier.
    pub cases: u64,
    pub rule: &'static str,
    pub f: fn(&mut G) -> R,
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}
fn hash_tape(t: &[u64]) -> u64 {
    let mut h = 0x9E3779B97F4A7C15u64;
    for &v in t { h = (h ^ v).wrapping_mul(0xff51afd7ed558ccd); h ^= h >> 32; }
    h
}

pub struct G {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub noting: bool,
    notes: String,
    labels: Vec<&'static str>,
    nontriv: bool,
    ratios: Vec<(u32, f64)>,
}

impl G {
    fn fresh(seed: u64) -> Self { G { tape: Vec::with_capacity(64), pos: 0, rng: Some(Rng::new(seed)), noting: false, notes: String::new(), labels: vec![], nontriv: false, ratios: vec![] } }
    fn replay(tape: &[u64]) -> Self { G { tape: tape.to_vec(), pos: 0, rng: None, noting: false, notes: String::new(), labels: vec![], nontriv: false, ratios: vec![] } }
    /// One raw choice below `bound` (bound 0 means the full u64 range).
    pub fn raw(&mut self, bound: u64) -> u64 {
        let v = if self.pos < self.tape.len() { self.tape[self.pos] } else {
            let v = match &mut self.rng { Some(r) => { let x = r.next(); if bound == 0 { x } else { ((x as u128 * bound as u128) >> 64) as u64 } } None => 0 };
            self.tape.push(v); v
        };
        self.pos += 1;
        if bound == 0 { v } else { v % bound }
    }
    pub fn below(&mut self, n: usize) -> usize { self.raw(n as u64) as usize }
    /// Integer in lo..=hi; tape 0 gives lo.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 { lo + self.raw((hi - lo) as u64 + 1) as i64 }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn bool(&mut self) -> bool { self.raw(2) == 1 }
    /// True with probability num/den; tape 0 gives false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.raw(den) >= den - num }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T { xs[self.below(xs.len())] }
    /// Uniform in [0,1).
    pub fn unit(&mut self) -> f64 { self.raw(1 << 53) as f64 / (1u64 << 53) as f64 }
    /// Uniform in [lo,hi], with a share of round numbers and end points.
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        match self.raw(24) {
            0 | 1 => { // an integer in range, or 0-nearest
                let (a, b) = (lo.ceil(), hi.floor());
                if a > b { return lo + (hi - lo) * self.unit(); }
                let span = (b - a).min(40.0) as u64;
                let base = if a <= 0.0 && b >= 0.0 { 0.0 } else if a > 0.0 { a } else { b };
                let k = self.raw(span + 1) as f64;
                let s = if base + k <= b { base + k } else { b - (k - (b - base)) };
                s.clamp(lo, hi)
            }
            2 => { let v = (lo + (hi - lo) * self.unit()) * 4.0; (v.round() / 4.0).clamp(lo, hi) }
            3 => if self.bool() { hi } else { lo },
            _ => lo + (hi - lo) * self.unit(),
        }
    }
    /// Plain uniform without the round-number share.
    pub fn u(&mut self, lo: f64, hi: f64) -> f64 { lo + (hi - lo) * self.unit() }
    /// 10^u, u uniform in [lo,hi].
    pub fn log10(&mut self, lo: f64, hi: f64) -> f64 { let u = self.u(lo, hi); 10f64.powf(u) }
    pub fn slog10(&mut self, lo: f64, hi: f64) -> f64 { let v = self.log10(lo, hi); if self.bool() { -v } else { v } }
    pub fn sign(&mut self) -> f64 { if self.bool() { -1.0 } else { 1.0 } }
    /// Standard normal-ish (Irwin-Hall of 4, scaled).
    pub fn bell(&mut self) -> f64 { (self.unit() + self.unit() + self.unit() + self.unit() - 2.0) * 1.7320508 }
    pub fn vec(&mut self, n: usize, lo: f64, hi: f64) -> Vec<f64> { (0..n).map(|_| self.f(lo, hi)).collect() }
    pub fn arr<const N: usize>(&mut self, lo: f64, hi: f64) -> [f64; N] { core::array::from_fn(|_| self.f(lo, hi)) }
    /// A hostile float: NaN, infinities, zeros, extremes, subnormals, random bit patterns, ordinary values.
    pub fn hostile(&mut self) -> f64 {
        match self.raw(20) {
            0 => 0.0, 1 => 1.0, 2 => -1.0, 3 => -0.0,
            4 => f64::NAN, 5 => f64::INFINITY, 6 => f64::NEG_INFINITY,
            7 => f64::MAX, 8 => f64::MIN, 9 => f64::MIN_POSITIVE, 10 => 5e-324,
            11 => self.pick(&[1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, f64::EPSILON, 1e-8, 1e-160, 1e160, 1e308, -1e308, 1e18, 9007199254740993.0, 4294967296.0, -4294967297.0, 3.4028235e38, 1e-45]),
            12 => f64::from_bits(self.raw(0)),
            13 => self.slog10(-320.0, 308.0),
            14 => self.pick(&[std::f64::consts::PI, -std::f64::consts::PI, std::f64::consts::FRAC_PI_2, std::f64::consts::TAU, 0.5, 2.0]),
            15 => self.int(-10, 10) as f64,
            _ => self.f(-10.0, 10.0),
        }
    }
    /// Mostly ordinary, now and then hostile: so deep states are reached before a bad value arrives.
    pub fn mostly(&mut self, lo: f64, hi: f64) -> f64 { if self.chance(1, 12) { self.hostile() } else { self.f(lo, hi) } }
    pub fn label(&mut self, l: &'static str) { if !self.labels.contains(&l) { self.labels.push(l); } }
    pub fn label_if(&mut self, c: bool, l: &'static str) { if c { self.label(l) } }
    pub fn nontrivial(&mut self) { self.nontriv = true; }
    pub fn nontrivial_if(&mut self, c: bool) { if c { self.nontriv = true; } }
    pub fn ratio(&mut self, line: u32, r: f64) {
        for e in self.ratios.iter_mut() { if e.0 == line { if r > e.1 { e.1 = r; } return; } }
        self.ratios.push((line, r));
    }
    pub fn note(&mut self, name: &str, v: &dyn std::fmt::Debug) { if self.noting { let _ = write!(self.notes, "{name}={v:?}; "); } }
    pub fn pos(&self) -> usize { self.pos }
}

static ORACLE_PANICS: AtomicU64 = AtomicU64::new(0);
thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

enum Out { Pass, Discard, Bad(String), Sig(String, String) }

fn run_one(law: &Law, g: &mut G) -> Out {
    let r = catch_unwind(AssertUnwindSafe(|| (law.f)(g)));
    match r {
        Ok(Ok(())) => Out::Pass,
        Ok(Err(Fail::Discard)) => Out::Discard,
        Ok(Err(Fail::Bad(m))) => Out::Bad(m),
        Ok(Err(Fail::Sig(s, m))) => Out::Sig(s, m),
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // a panic inside the oracle library itself says nothing about the code under test
            if m.contains(" at vk/src/") { ORACLE_PANICS.fetch_add(1, Ordering::Relaxed); Out::Discard } else { Out::Bad(format!("panic: {m}")) }
        }
    }
}

#[derive(Default)]
struct Stats {
    evals: u64, discards: u64, known: BTreeMap<String, u64>,
    labels: BTreeMap<&'static str, u64>, nontriv: HashSet<u64>, ratios: BTreeMap<u32, f64>,
    samples: Vec<(u64, String)>,
    fail: Option<(u64, String)>,
}

struct Cfg { tier: String, seed: u64, replay: Option<String>, law: Option<String>, cases: Option<u64>, mult: f64, root: String, verbose: bool }

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"'); o
}

/// Reads `"key": "value"` pairs of one flat JSON object line (only strings are needed here).
fn jfield(line: &str, key: &str) -> Option<String> {
    let k = format!("\"{key}\"");
    let i = line.find(&k)? + k.len();
    let rest = line[i..].trim_start().strip_prefix(':')?.trim_start();
    let rest = rest.strip_prefix('"')?;
    let mut o = String::new(); let mut it = rest.chars();
    while let Some(c) = it.next() { match c { '"' => return Some(o), '\\' => { match it.next()? { 'n' => o.push('\n'), c => o.push(c) } } c => o.push(c) } }
    None
}

fn load_known(root: &str, prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{root}/known_findings.jsonl")) {
        for l in s.lines() {
            if jfield(l, "status").as_deref() != Some("known") { continue; }
            if jfield(l, "property").as_deref() == Some(prop) {
                if let (Some(sig), Some(what)) = (jfield(l, "signature"), jfield(l, "what")) { v.push((sig, what)); }
            }
        }
    }
    v
}

fn shrink(law: &Law, tape: Vec<u64>, known: &[(String, String)]) -> (Vec<u64>, String, u64) {
    let mut evals = 0u64;
    let try_t = |t: &[u64], evals: &mut u64| -> Option<(Vec<u64>, String)> {
        *evals += 1;
        let mut g = G::replay(t);
        let m = match run_one(law, &mut g) { Out::Bad(m) => m, Out::Sig(s, m) if !known.iter().any(|k| k.0 == s) => format!("[{s}] {m}"), _ => return None };
        let mut used = g.tape; used.truncate(g.pos);
        Some((used, m))
    };
    let (mut best, mut msg) = match try_t(&tape, &mut evals) { Some(x) => x, None => return (tape, "not reproducible on replay".into(), evals) };
    let start = Instant::now();
    let over = |evals: u64| evals >= 6000 || start.elapsed().as_secs() >= 20;
    loop {
        let before = best.clone();
        // delete chunks
        for size in [16usize, 8, 4, 2, 1] {
            let mut i = best.len();
            while i >= size && !over(evals) {
                i -= 1;
                if i + size > best.len() { continue; }
                let mut t = best.clone(); t.drain(i..i + size);
                if let Some((t, m)) = try_t(&t, &mut evals) { if t.len() < best.len() || (t.len() == best.len() && t < best) { best = t; msg = m; } }
                if i < size { break; }
            }
        }
        // zero and reduce values
        for i in 0..best.len() {
            if over(evals) || i >= best.len() { break; }
            if best[i] == 0 { continue; }
            let mut cands = vec![0u64, 1, best[i] / 2, best[i] - 1];
            if best[i] > 1 << 20 { cands.extend([best[i] & !((1 << 40) - 1), best[i] & !((1 << 48) - 1), best[i] & !((1 << 20) - 1), best[i] / 16]); }
            for c in cands {
                if i >= best.len() || c >= best[i] || over(evals) { continue; }
                let mut t = best.clone(); t[i] = c;
                if let Some((t, m)) = try_t(&t, &mut evals) { if t.len() < best.len() || (t.len() == best.len() && t < best) { best = t; msg = m; } }
            }
        }
        if best == before || over(evals) { break; }
    }
    (best, msg, evals)
}

fn note_of(law: &Law, tape: &[u64]) -> String {
    let mut g = G::replay(tape); g.noting = true;
    let _ = run_one(law, &mut g);
    let mut s = g.notes; if s.len() > 2000 { let mut k = 2000; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); s.push_str("..."); }
    s
}

fn base_of(prop: &str, law: &Law, seed: u64) -> u64 { seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash_str(law.name) ^ hash_str(prop) }
fn tape_of(prop: &str, law: &Law, seed: u64, idx: u64) -> Vec<u64> {
    let mut g = G::fresh(Rng::new(base_of(prop, law, seed) ^ idx.wrapping_mul(0xD1B54A32D192ED03)).next());
    let _ = run_one(law, &mut g);
    let mut t = g.tape; t.truncate(g.pos); t
}
fn replay_path(cfg: &Cfg, prop: &str, law: &Law) -> String {
    let dir = format!("{}/replays", cfg.root); let _ = std::fs::create_dir_all(&dir);
    format!("{dir}/{prop}-{}.json", law.name.replace(|c: char| !c.is_ascii_alphanumeric(), "_"))
}
/// Writes the failing tapes as they are, then shrinks them for a bounded time, and exits 1 (0 when there is none).
fn report(prop: &'static str, cfg: &Cfg, sel: &[&Law], known: &[(String, String)], fails: &[(usize, u64, String)]) -> ! {
    let lines: Vec<String> = fails.iter().map(|(li, ..)| format!("VIOLATION property={prop} replay={}", replay_path(cfg, prop, sel[*li]))).collect();
    let write = |li: usize, idx: u64, tape: &[u64], msg: &str, m: &str, note: &str, n: u64| {
        let (law, path) = (sel[li], replay_path(cfg, prop, sel[li]));
        let body = format!("{{\"property\": {}, \"law\": {},\n \"tape\": [{}],\n \"message\": {},\n \"input\": {},\n \"first_message\": {}, \"seed\": {}, \"case\": {}, \"shrink_evals\": {}}}\n", json_str(prop), json_str(law.name), tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(", "), json_str(msg), json_str(note), json_str(m), cfg.seed, idx, n);
        if let Err(e) = std::fs::write(&path, body) { eprintln!("cannot write {path}: {e}"); }
    };
    if !fails.is_empty() {
        let quit = lines.clone();
        std::thread::spawn(move || { std::thread::sleep(std::time::Duration::from_secs(100)); for l in &quit { println!("{l}"); } std::process::exit(1) });
    }
    std::thread::scope(|sc| {
        for (li, idx, m) in fails {
            let write = &write;
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
                CURRENT.with(|c| c.set((*li, *idx)));
                let law = sel[*li]; let t = tape_of(prop, law, cfg.seed, *idx); write(*li, *idx, &t, m, m, "", 0);
                let (tape, msg, n) = shrink(law, t, known); let note = note_of(law, &tape); write(*li, *idx, &tape, &msg, m, &note, n);
                println!("law {}: {}\n  input: {}\n  (first: {})", law.name, msg, note, m);
            });
            if let Ok(h) = h { let _ = h.join(); }
        }
    });
    for l in &lines { println!("{l}"); }
    std::process::exit(if lines.is_empty() { 0 } else { 1 })
}

// A stack overflow in the code under test aborts the process. The check therefore runs in a child whose abort handler
// names the case the aborting thread was in; the parent turns that, and only that, into a violation.
thread_local! { static CURRENT: std::cell::Cell<(usize, u64)> = const { std::cell::Cell::new((usize::MAX, 0)) }; }
unsafe extern "C" { fn signal(n: i32, f: usize) -> usize; fn write(fd: i32, p: *const core::ffi::c_void, n: usize) -> isize; }
extern "C" fn aborted(_: i32) {
    let (l, i) = CURRENT.with(|c| c.get()); let mut b = [b' '; 56]; b[..8].copy_from_slice(b"VKABORT ");
    let mut put = |mut v: u64, end: usize| { let mut k = end; loop { k -= 1; b[k] = b'0' + (v % 10) as u8; v /= 10; if v == 0 { break; } } };
    put(l as u64, 30); put(i, 54); b[55] = b'\n';
    unsafe { write(2, b.as_ptr().cast(), b.len()); signal(6, 0); }
}
fn supervise(prop: &str, cfg: &Cfg, laws: &[Law]) -> ! {
    use std::io::BufRead; use std::os::unix::process::ExitStatusExt;
    let fail = |e: std::io::Error| -> ! { eprintln!("cannot start the check: {e}"); std::process::exit(2) };
    let exe = std::env::current_exe().unwrap_or_else(|e| fail(e));
    let mut child = std::process::Command::new(exe).args(std::env::args().skip(1)).env("VK_CHILD", "1").stderr(std::process::Stdio::piped()).spawn().unwrap_or_else(|e| fail(e));
    let (mut deep, mut at) = (false, None);
    for l in std::io::BufReader::new(child.stderr.take().unwrap()).split(b'\n').map_while(Result::ok) {
        let l = String::from_utf8_lossy(&l);
        if l.contains("has overflowed its stack") { deep = true; }
        if let Some(r) = l.strip_prefix("VKABORT ") { let v: Vec<u64> = r.split_whitespace().filter_map(|x| x.parse().ok()).collect(); if v.len() == 2 { at = Some((v[0] as usize, v[1])); } }
        eprintln!("{l}");
    }
    let st = child.wait().unwrap_or_else(|e| fail(e));
    if let Some(c) = st.code() { std::process::exit(c) }
    let sel: Vec<&Law> = laws.iter().filter(|l| cfg.law.as_ref().is_none_or(|n| l.name.contains(n.as_str()))).collect();
    if let (true, Some(6 | 11)) = (deep, st.signal()) {
        if let Some(p) = &cfg.replay { println!("the stack overflowed\nVIOLATION property={prop} replay={p}"); std::process::exit(1) }
        if let Some((li, i)) = at { if let Some(law) = sel.get(li) {
            let path = replay_path(cfg, prop, law); let _ = std::fs::write(&path, format!("{{\"property\": {}, \"law\": {},\n \"fresh\": [{}, {}],\n \"message\": \"the stack overflowed and the process aborted\"}}\n", json_str(prop), json_str(law.name), cfg.seed, i));
            println!("law {}: the stack overflowed on case {i} of seed {}\nVIOLATION property={prop} replay={path}", law.name, cfg.seed); std::process::exit(1)
        } }
    }
    eprintln!("the check ended without an answer: {st}"); std::process::exit(2)
}

/// Entry point of every check binary. Exit codes: 0 held, 1 violated, 2 harness error, 3 timeout.
pub fn run(prop: &'static str, assumptions: &[&str], laws: &[Law]) -> ! {
    let mut cfg = Cfg { tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()), seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        replay: None, law: None, cases: None, mult: 1.0, root: std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()), verbose: false };
    let args: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < args.len() {
        let nxt = |i: usize| args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--tier" => { cfg.tier = nxt(i); i += 1 } "--seed" => { cfg.seed = nxt(i).parse().unwrap(); i += 1 }
            "--replay" => { cfg.replay = Some(nxt(i)); i += 1 } "--law" => { cfg.law = Some(nxt(i)); i += 1 }
            "--cases" => { cfg.cases = Some(nxt(i).parse().unwrap()); i += 1 } "--mult" => { cfg.mult = nxt(i).parse().unwrap(); i += 1 }
            "-v" => cfg.verbose = true,
            a => { eprintln!("unknown argument {a}"); std::process::exit(2) }
        }
        i += 1;
    }
    if cfg.tier != "thorough" { cfg.tier = "quick".into(); }
    if cfg.tier == "thorough" { cfg.mult *= 30.0; }
    { let mut seen = HashSet::new(); for l in laws { if !seen.insert(l.name) { eprintln!("duplicate law name {}", l.name); std::process::exit(2) } } }
    let known = load_known(&cfg.root, prop);
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("'{msg}' at {loc}")));
    }));
    if std::env::var_os("VK_CHILD").is_none() { supervise(prop, &cfg, laws) }
    unsafe { signal(6, aborted as *const () as usize); }
    let start = Instant::now();

    if let Some(path) = &cfg.replay {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| { eprintln!("{e}"); std::process::exit(2) });
        let lname = jfield(&text.replace('\n', " "), "law").unwrap_or_default();
        let t0 = text.find("\"tape\"").and_then(|i| text[i..].find('[').map(|j| i + j + 1)).unwrap_or(0);
        let t1 = text[t0..].find(']').map(|j| t0 + j).unwrap_or(t0);
        let fresh: Vec<u64> = text.find("\"fresh\"").and_then(|i| { let a = i + text[i..].find('[')? + 1; Some(text[a..a + text[a..].find(']')?].split(',').filter_map(|s| s.trim().parse().ok()).collect()) }).unwrap_or_default();
        let tape: Vec<u64> = text[t0..t1].split(',').filter_map(|s| s.trim().parse().ok()).collect();
        let law = laws.iter().find(|l| l.name == lname).unwrap_or_else(|| { eprintln!("no law {lname}"); std::process::exit(2) });
        let out = std::thread::scope(|sc| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, || {
            if let [seed, idx] = fresh[..] { println!("replaying law {lname}, case {idx} of seed {seed}"); let mut g = G::fresh(Rng::new(base_of(prop, law, seed) ^ idx.wrapping_mul(0xD1B54A32D192ED03)).next()); return run_one(law, &mut g); }
            println!("replaying law {lname}: {}", note_of(law, &tape)); run_one(law, &mut G::replay(&tape))
        }).unwrap().join().unwrap());
        match out {
            Out::Bad(m) => { println!("{m}\nVIOLATION property={prop} replay={path}"); std::process::exit(1) }
            Out::Sig(s, m) if !known.iter().any(|k| k.0 == s) => { println!("[{s}] {m}\nVIOLATION property={prop} replay={path}"); std::process::exit(1) }
            Out::Sig(s, _) => { println!("KNOWN-FINDING: property={prop} {s}"); std::process::exit(0) }
            Out::Discard => { println!("input outside the domain"); std::process::exit(0) }
            Out::Pass => { println!("held"); std::process::exit(0) }
        }
    }

    let sel: Vec<&Law> = laws.iter().filter(|l| cfg.law.as_ref().is_none_or(|n| l.name.contains(n.as_str()))).collect();
    let ncases: Vec<u64> = sel.iter().map(|l| cfg.cases.unwrap_or(((l.cases as f64) * cfg.mult).max(1.0) as u64)).collect();
    // work items: chunks
    let mut items: Vec<(usize, u64, u64)> = vec![];
    for (li, &n) in ncases.iter().enumerate() { let ch = (n / 64).clamp(1, 4096); let mut a = 0; while a < n { items.push((li, a, (a + ch).min(n))); a += ch; } }
    // interleave laws so that slow laws spread over workers
    items.sort_by_key(|it| (it.1 * 64 / ncases[it.0].max(1), it.0));
    let stats: Vec<Mutex<Stats>> = sel.iter().map(|_| Mutex::new(Stats::default())).collect();
    let first_fail: Vec<AtomicU64> = sel.iter().map(|_| AtomicU64::new(u64::MAX)).collect();
    let nanos: Vec<AtomicU64> = sel.iter().map(|_| AtomicU64::new(0)).collect();
    let next = AtomicUsize::new(0);
    let done = AtomicBool::new(false);
    let limit = std::env::var("VK_TIMEOUT").ok().and_then(|s| s.parse().ok()).unwrap_or(if cfg.tier == "quick" { 600 } else { 6 * 3600 });
    let workers = std::env::var("VK_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    std::thread::scope(|sc| {
        let (doner, failed, wstats, wsel, wknown, wcfg) = (&done, &first_fail, &stats, &sel, &known, &cfg);
        sc.spawn(move || {
            let (stats, sel, known, cfg) = (wstats, wsel, wknown, wcfg);
            let (t, mut bad) = (Instant::now(), None::<Instant>);
            while !doner.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                if bad.is_none() && failed.iter().any(|f| f.load(Ordering::Relaxed) != u64::MAX) { bad = Some(Instant::now()); }
                // the rest of the search is stuck or slow: what has been found is reported without it
                if t.elapsed().as_secs() > limit || (cfg.tier == "quick" && bad.is_some_and(|b| b.elapsed().as_secs() > 200)) {
                    let fails: Vec<(usize, u64, String)> = (0..sel.len()).filter_map(|li| stats[li].try_lock().ok().and_then(|s| s.fail.clone()).map(|(i, m)| (li, i, m))).collect();
                    if !fails.is_empty() { report(prop, cfg, sel, known, &fails) }
                    if t.elapsed().as_secs() > limit { eprintln!("TIMEOUT: check did not finish in {limit}s (inconclusive, not a violation)"); std::process::exit(3) }
                }
            }
        });
        let mut hs = vec![];
        for _ in 0..workers {
            let (next, items, sel, stats, first_fail, known, cfg, nanos) = (&next, &items, &sel, &stats, &first_fail, &known, &cfg, &nanos);
            hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
                loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if k >= items.len() { break; }
                    let (li, a, b) = items[k];
                    let law = sel[li];
                    let base = cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash_str(law.name) ^ hash_str(prop);
                    let mut st = Stats::default();
                    let t0 = Instant::now();
                    for idx in a..b {
                        if idx > first_fail[li].load(Ordering::Relaxed) { break; }
                        let mut g = G::fresh(Rng::new(base ^ idx.wrapping_mul(0xD1B54A32D192ED03)).next());
                        CURRENT.with(|c| c.set((li, idx)));
                        let o = run_one(law, &mut g);
                        st.evals += 1;
                        match o {
                            Out::Pass => {}
                            Out::Discard => { st.discards += 1; continue }
                            Out::Sig(s, m) => { if known.iter().any(|k| k.0 == s) { *st.known.entry(s).or_default() += 1; } else { first_fail[li].fetch_min(idx, Ordering::Relaxed); st.fail = Some((idx, format!("[{s}] {m}"))); break; } }
                            Out::Bad(m) => { first_fail[li].fetch_min(idx, Ordering::Relaxed); st.fail = Some((idx, m)); break; }
                        }
                        for l in &g.labels { *st.labels.entry(l).or_default() += 1; }
                        for (l, r) in &g.ratios { let e = st.ratios.entry(*l).or_insert(0.0); if *r > *e { *e = *r; } }
                        if g.nontriv { if st.samples.len() < 1 { let mut t = g.tape.clone(); t.truncate(g.pos); st.samples.push((idx, note_of(law, &t))); } st.nontriv.insert(hash_tape(&g.tape[..g.pos.min(g.tape.len())])); }
                    }
                    nanos[li].fetch_add(t0.elapsed().as_nanos() as u64, Ordering::Relaxed);
                    let mut s = stats[li].lock().unwrap();
                    s.evals += st.evals; s.discards += st.discards;
                    for (k, v) in st.known { *s.known.entry(k).or_default() += v; }
                    for (k, v) in st.labels { *s.labels.entry(k).or_default() += v; }
                    for (k, v) in st.ratios { let e = s.ratios.entry(k).or_insert(0.0); if v > *e { *e = v; } }
                    s.nontriv.extend(st.nontriv);
                    s.samples.extend(st.samples); s.samples.sort(); s.samples.truncate(2);
                    if let Some((i, m)) = st.fail { if s.fail.as_ref().is_none_or(|f| i < f.0) { s.fail = Some((i, m)); } }
                }
            }).unwrap());
        }
        for h in hs { if h.join().is_err() { eprintln!("harness worker died"); std::process::exit(2) } }
        done.store(true, Ordering::Relaxed);
    });

    let mut violations = 0;
    let mut evals = 0u64; let mut nontriv = 0u64; let mut samples = vec![]; let mut laws_json = vec![]; let mut rules = String::new();
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    for (li, law) in sel.iter().enumerate() {
        let s = stats[li].lock().unwrap();
        evals += s.evals; nontriv += s.nontriv.len() as u64;
        for (_, n) in s.samples.iter().take(1) { samples.push(format!("{}: {}", law.name, n)); }
        for (k, v) in &s.known { *known_seen.entry(k.clone()).or_default() += v; }
        if !law.rule.is_empty() { let _ = write!(rules, "[{}] {} ", law.name, law.rule); }
        let labs: Vec<String> = s.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
        let maxr = s.ratios.iter().map(|(l, r)| format!("\"line{}\": {:.4}", l, r)).collect::<Vec<_>>().join(", ");
        laws_json.push(format!("{{\"law\": {}, \"evaluations\": {}, \"discarded\": {}, \"distinct_nontrivial\": {}, \"labels\": {{{}}}, \"max_error_over_tolerance\": {{{}}}, \"cpu_s\": {:.2}}}", json_str(law.name), s.evals, s.discards, s.nontriv.len(), labs.join(", "), maxr, nanos[li].load(Ordering::Relaxed) as f64 / 1e9));
        if cfg.verbose { println!("{:40} evals {:8} disc {:7} nontriv {:8} cpu {:6.2}s labels {:?} ratios {:?}", law.name, s.evals, s.discards, s.nontriv.len(), nanos[li].load(Ordering::Relaxed) as f64 / 1e9, s.labels, s.ratios); }
        if s.fail.is_some() { violations += 1; }
    }
    for (sig, what) in &known { if known_seen.contains_key(sig) { println!("KNOWN-FINDING: property={prop} {what}"); } }
    let rule = format!("Cases are drawn by the choice-tape generators named per law; a case counts as non-trivial when its law marks it so after generation, and distinct when its choice tape differs. {rules}");
    let ev = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"laws\": [{}], \"known_findings_hit\": {{{}}}, \"oracle_panics_discarded\": {}, \"exhaustive\": false}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
        json_str(prop), json_str(&cfg.tier), cfg.seed, evals, nontriv, json_str(&rule), samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "), laws_json.join(",\n "),
        known_seen.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "), ORACLE_PANICS.load(Ordering::Relaxed),
        assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "), start.elapsed().as_secs_f64(), violations);
    let _ = std::fs::create_dir_all(format!("{}/evidence", cfg.root));
    if cfg.law.is_none() { if let Err(e) = std::fs::write(format!("{}/evidence/{prop}.json", cfg.root), ev) { eprintln!("cannot write evidence: {e}"); std::process::exit(2) } }
    println!("{prop} {}: {} evaluations, {} distinct non-trivial, {} laws, {:.1}s", cfg.tier, evals, nontriv, sel.len(), start.elapsed().as_secs_f64());
    let op = ORACLE_PANICS.load(Ordering::Relaxed); if op > 0 { eprintln!("{op} oracle panics discarded"); }
    let fails: Vec<(usize, u64, String)> = (0..sel.len()).filter_map(|li| stats[li].lock().unwrap().fail.clone().map(|(i, m)| (li, i, m))).collect();
    report(prop, &cfg, &sel, &known, &fails)
}
