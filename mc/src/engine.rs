//! Choice-driven stateless explorer.
//!
//! A suite body is a deterministic function of the answers it gets from `Ch::choose`. The explorer enumerates
//! every sequence of answers, in parallel, by depth-first backtracking. Every execution runs the real code.
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.0 = (self.0.rotate_left(5) ^ x as u64).wrapping_mul(0x517cc1b727220a95) } }
    fn write_u64(&mut self, x: u64) { self.0 = x }
    fn write_u128(&mut self, x: u128) { self.0 = x as u64 ^ (x >> 64) as u64 }
}
type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;
type IdMap = HashMap<u128, u32, BuildHasherDefault<IdHasher>>;

pub fn hash128(b: &[u8]) -> u128 {
    // two independent 64-bit multiply-mix passes
    let mut a: u64 = 0x9E3779B97F4A7C15 ^ b.len() as u64;
    let mut c: u64 = 0xC2B2AE3D27D4EB4F ^ (b.len() as u64).rotate_left(32);
    let mut step = |w: u64| {
        a = (a ^ w).wrapping_mul(0xff51afd7ed558ccd); a ^= a >> 32;
        c = (c.rotate_left(23) ^ w).wrapping_mul(0x9FB21C651E98DF25); c ^= c >> 29;
    };
    let mut it = b.chunks_exact(8);
    for w in &mut it { step(u64::from_le_bytes(w.try_into().unwrap())) }
    let r = it.remainder();
    if !r.is_empty() { let mut l = [0u8; 8]; l[..r.len()].copy_from_slice(r); step(u64::from_le_bytes(l)) }
    a = a.wrapping_mul(0xc4ceb9fe1a85ec53); a ^= a >> 29;
    c = c.wrapping_mul(0x94D049BB133111EB); c ^= c >> 31;
    ((a as u128) << 64) | c as u128
}
pub fn hash64(b: &[u8]) -> u64 { let h = hash128(b); h as u64 ^ (h >> 64) as u64 }

pub enum Stop {
    /// the property is violated: (key identifying the specific failing input, description)
    Fail(String, String),
    /// this execution is outside the bounds or redundant
    Skip,
}
pub type Res = Result<(), Stop>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Stop> { let m: String = msg.into(); Err(Stop::Fail(m.clone(), m)) }
#[allow(dead_code)]
pub fn fail_key<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Stop> { Err(Stop::Fail(key.into(), msg.into())) }

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { return $crate::engine::fail(format!($($arg)*)); } };
}

pub struct Suite {
    pub name: String,
    pub bounds: String,
    pub body: Box<dyn Fn(&mut Ch) -> Res + Sync + Send>,
}
impl Suite {
    pub fn new(name: &str, bounds: &str, body: impl Fn(&mut Ch) -> Res + Sync + Send + 'static) -> Suite {
        Suite { name: name.into(), bounds: bounds.into(), body: Box::new(body) }
    }
}

pub struct Shared {
    states: Vec<Mutex<IdSet>>,
    n_states: AtomicU64,
    memo: Vec<Mutex<IdMap>>,
    pub steps: AtomicU64,
    pub execs: AtomicU64,
    pub pruned: AtomicU64,
    samples: Mutex<Vec<String>>,
    known_hit: Mutex<HashSet<String>>,
}
const STATE_CAP: u64 = 150_000_000;
impl Shared {
    fn new() -> Shared {
        Shared {
            states: (0..256).map(|_| Mutex::new(IdSet::default())).collect(),
            n_states: AtomicU64::new(0),
            memo: (0..256).map(|_| Mutex::new(IdMap::default())).collect(),
            steps: AtomicU64::new(0), execs: AtomicU64::new(0), pruned: AtomicU64::new(0),
            samples: Mutex::new(vec![]), known_hit: Mutex::new(HashSet::new()),
        }
    }
}

pub struct Ch<'a> {
    prefix: &'a [u32],
    pub trace: Vec<(u32, u32)>,
    sh: &'a Shared,
    steps: u64,
    exec_no: u64,
    suite: &'a str,
    pub verbose: bool,
    nondet: Option<String>,
    expect: &'a [(u32, u32, u32)],
}

impl<'a> Ch<'a> {
    /// Nondeterministic choice in 0..n.
    pub fn choose(&mut self, n: usize) -> usize {
        debug_assert!(n > 0 && n <= u32::MAX as usize);
        if n <= 1 { return 0; }
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if i < self.expect.len() && i < self.prefix.len() && self.expect[i].2 != n as u32 && self.nondet.is_none() {
            self.nondet = Some(format!("choice {} had {} alternatives before and {} now", i, self.expect[i].2, n));
        }
        let c = if (c as usize) < n { c } else { if self.nondet.is_none() { self.nondet = Some(format!("choice {}: {} of {}", i, c, n)); } 0 };
        self.trace.push((c, n as u32));
        c as usize
    }
    pub fn flag(&mut self) -> bool { self.choose(2) == 1 }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T { let i = self.choose(xs.len()); &xs[i] }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.choose(hi - lo + 1) }
    /// One transition: a call into the code under test, with panics turned into Err(message).
    pub fn call<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        self.steps += 1;
        guarded(f)
    }
    /// A call that must not panic.
    pub fn must<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Result<T, Stop> {
        match self.call(f) { Ok(v) => Ok(v), Err(m) => fail(format!("{}: panicked: {}", what, m)) }
    }
    /// False while re-executing a prefix that an earlier execution has already checked.
    pub fn frontier(&self) -> bool { self.verbose || self.trace.len() >= self.prefix.len() }
    /// Record a visited state by content.
    pub fn state(&mut self, bytes: &[u8]) {
        let h = hash64(bytes);
        if self.sh.n_states.load(Ordering::Relaxed) >= STATE_CAP { return; }
        if self.sh.states[(h >> 56) as usize].lock().unwrap().insert(h) { self.sh.n_states.fetch_add(1, Ordering::Relaxed); }
    }
    /// True when this state was already explored with at least `remaining` further steps.
    pub fn seen(&mut self, bytes: &[u8], remaining: u32) -> bool {
        if self.verbose || !self.frontier() { return false; }
        let h = hash128(bytes);
        let mut m = self.sh.memo[(h >> 120) as usize].lock().unwrap();
        match m.get_mut(&h) {
            Some(r) if *r > remaining => true,
            Some(r) => { *r = remaining + 1; false }
            None => { m.insert(h, remaining + 1); drop(m); self.sh.n_states.fetch_add(1, Ordering::Relaxed); false }
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.verbose { println!("  {}", f()); return; }
        let n = self.exec_no;
        if n == 0 || n == 10 || n == 1000 || n == 100_000 {
            let s = f();
            let s: String = s.chars().take(400).collect();
            let mut v = self.sh.samples.lock().unwrap();
            if v.len() < 40 { v.push(format!("{}: {}", self.suite, s)); }
        }
    }
    pub fn log(&self, f: impl FnOnce() -> String) { if self.verbose { println!("  {}", f()); } }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static SLOT: RefCell<Option<*mut Slot>> = RefCell::new(None);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
        let msg = match info.location() { Some(l) => format!("{} ({}:{})", msg, l.file(), l.line()), None => msg };
        SLOT.with(|s| if let Some(p) = *s.borrow() { unsafe { (*p).set_msg(&msg) } });
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = msg);
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

// ---------------------------------------------------------------------------------------------------------------
// shared-memory slots: what each worker is executing, for attribution of crashes and hangs

const SLOT_CHOICES: usize = 16 * 1024;
const SLOT_MSG: usize = 600;
#[repr(C)]
pub struct Slot { active: u64, started_ms: u64, suite: u64, len: u64, choices: [u32; SLOT_CHOICES], msg_len: u64, msg: [u8; SLOT_MSG] }
impl Slot {
    fn set(&mut self, suite: usize, prefix: &[u32], now: u64) {
        let n = prefix.len().min(SLOT_CHOICES);
        self.choices[..n].copy_from_slice(&prefix[..n]);
        self.len = n as u64; self.suite = suite as u64; self.started_ms = now; self.msg_len = 0; self.active = 1;
    }
    fn set_msg(&mut self, m: &str) { let b = m.as_bytes(); let n = b.len().min(SLOT_MSG); self.msg[..n].copy_from_slice(&b[..n]); self.msg_len = n as u64; }
    fn get(&self) -> (usize, Vec<u32>, String) {
        (self.suite as usize, self.choices[..(self.len as usize).min(SLOT_CHOICES)].to_vec(),
         String::from_utf8_lossy(&self.msg[..(self.msg_len as usize).min(SLOT_MSG)]).into_owned())
    }
}
const WORKERS: usize = 8;

struct Work { prefix: Vec<u32>, lo: u32, hi: u32 } // choices lo..hi at position prefix.len(); hi==0: run the prefix itself
struct Queue { q: Mutex<(Vec<Work>, usize)>, cv: Condvar, hungry: AtomicUsize, stop: AtomicBool }

pub struct Failure { pub suite: String, pub choices: Vec<u32>, pub key: String, pub msg: String }

struct Outcome { failure: Option<Failure>, engine_error: Option<String>, timed_out: bool, execs: u64, known: Vec<(String, String)> }

fn run_once<'a>(sh: &'a Shared, suite: &'a Suite, prefix: &'a [u32], expect: &'a [(u32, u32, u32)], exec_no: u64, verbose: bool)
    -> (Vec<(u32, u32)>, Result<(), Stop>, Option<String>, u64) {
    let mut ch = Ch { prefix, trace: Vec::with_capacity(prefix.len() + 16), sh, steps: 0, exec_no, suite: &suite.name, verbose, nondet: None, expect };
    let r = catch_unwind(AssertUnwindSafe(|| (suite.body)(&mut ch)));
    let steps = ch.steps;
    let nondet = ch.nondet.take();
    let trace = std::mem::take(&mut ch.trace);
    match r {
        Ok(r) => (trace, r, nondet, steps),
        Err(_) => { let m = LAST_PANIC.with(|p| p.borrow().clone()); (trace, Ok(()), Some(format!("harness panicked: {}", m)), steps) }
    }
}

fn explore(sh: &Shared, suites: &[Suite], si: usize, slots: *mut Slot, t0: Instant, deadline: Instant, known: &HashSet<String>) -> Outcome {
    let suite = &suites[si];
    let q = Queue { q: Mutex::new((vec![Work { prefix: vec![], lo: 0, hi: 0 }], 0)), cv: Condvar::new(), hungry: AtomicUsize::new(0), stop: AtomicBool::new(false) };
    let out = Mutex::new(Outcome { failure: None, engine_error: None, timed_out: false, execs: 0, known: vec![] });
    let slots_addr = slots as usize;
    std::thread::scope(|sc| {
        for w in 0..WORKERS {
            let (q, out) = (&q, &out);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                let slot = unsafe { &mut *(slots_addr as *mut Slot).add(w) };
                SLOT.with(|s| *s.borrow_mut() = Some(slot as *mut Slot));
                let mut execs = 0u64; let mut steps = 0u64; let mut pruned = 0u64;
                'outer: loop {
                    let work = {
                        let mut g = q.q.lock().unwrap();
                        loop {
                            if q.stop.load(Ordering::Relaxed) { break 'outer; }
                            if let Some(x) = g.0.pop() { g.1 += 1; break x; }
                            if g.1 == 0 { q.cv.notify_all(); break 'outer; }
                            q.hungry.fetch_add(1, Ordering::Relaxed);
                            g = q.cv.wait(g).unwrap();
                            q.hungry.fetch_sub(1, Ordering::Relaxed);
                        }
                    };
                    let base = work.prefix.len();
                    // stack: (choice, limit, arity); arity 0 = unknown
                    let mut stack: Vec<(u32, u32, u32)> = work.prefix.iter().map(|&c| (c, c + 1, 0)).collect();
                    if work.hi > 0 { stack.push((work.lo, work.hi, 0)); }
                    let mut cur: Vec<u32> = stack.iter().map(|x| x.0).collect();
                    loop {
                        if q.stop.load(Ordering::Relaxed) { break; }
                        slot.set(si, &cur, t0.elapsed().as_millis() as u64);
                        let (trace, r, nondet, st) = run_once(sh, suite, &cur, &[], execs * WORKERS as u64 + w as u64, false);
                        slot.active = 0;
                        execs += 1; steps += st;
                        let mut bad = nondet;
                        for (i, &(c, n)) in trace.iter().enumerate() {
                            if i < stack.len() {
                                if stack[i].2 == 0 { stack[i].2 = n } else if stack[i].2 != n && bad.is_none() { bad = Some(format!("choice {} changed arity {} -> {}", i, stack[i].2, n)); }
                            } else { stack.push((c, n, n)); }
                        }
                        if trace.len() < cur.len() && bad.is_none() && !matches!(r, Err(_)) { bad = Some("execution ended before its choice prefix was used up".into()); }
                        if let Some(b) = bad {
                            if !matches!(r, Err(Stop::Fail(..))) {
                                let mut o = out.lock().unwrap();
                                o.engine_error.get_or_insert(format!("suite {}: {} (choices {:?})", suite.name, b, cur));
                                drop(o); q.stop.store(true, Ordering::Relaxed); q.cv.notify_all(); break;
                            }
                        }
                        match r {
                            Ok(()) => {}
                            Err(Stop::Skip) => pruned += 1,
                            Err(Stop::Fail(key, msg)) => {
                                let mut o = out.lock().unwrap();
                                if known.contains(&key) {
                                    if sh.known_hit.lock().unwrap().insert(key.clone()) { o.known.push((key, msg)); }
                                } else {
                                    let choices: Vec<u32> = trace.iter().map(|x| x.0).collect();
                                    if o.failure.as_ref().map_or(true, |f| f.choices.len() > choices.len()) {
                                        o.failure = Some(Failure { suite: suite.name.clone(), choices, key, msg });
                                    }
                                    drop(o); q.stop.store(true, Ordering::Relaxed); q.cv.notify_all(); break;
                                }
                            }
                        }
                        // donate half of the shallowest open branch to idle workers
                        if q.hungry.load(Ordering::Relaxed) > 0 {
                            if let Some(i) = (base..trace.len().min(stack.len())).find(|&i| stack[i].0 + 1 < stack[i].1) {
                                let lo = stack[i].0 + 1; let hi = stack[i].1;
                                let mid = lo + (hi - lo) / 2;
                                let w = Work { prefix: stack[..i].iter().map(|x| x.0).collect(), lo: mid, hi };
                                stack[i].1 = mid;
                                let mut g = q.q.lock().unwrap(); g.0.push(w); drop(g); q.cv.notify_one();
                            }
                        }
                        stack.truncate(trace.len().max(base));
                        let mut more = false;
                        while stack.len() > base {
                            let l = stack.len() - 1;
                            if stack[l].0 + 1 < stack[l].1 { stack[l].0 += 1; more = true; break; }
                            stack.pop();
                        }
                        if !more { break; }
                        cur.clear(); cur.extend(stack.iter().map(|x| x.0));
                        if execs & 0xff == 0 && Instant::now() > deadline {
                            out.lock().unwrap().timed_out = true; q.stop.store(true, Ordering::Relaxed); q.cv.notify_all(); break;
                        }
                    }
                    let mut g = q.q.lock().unwrap(); g.1 -= 1; if g.1 == 0 || q.stop.load(Ordering::Relaxed) { q.cv.notify_all(); }
                }
                sh.execs.fetch_add(execs - pruned, Ordering::Relaxed); sh.steps.fetch_add(steps, Ordering::Relaxed); sh.pruned.fetch_add(pruned, Ordering::Relaxed);
                out.lock().unwrap().execs += execs;
            }).unwrap();
        }
    });
    for m in &sh.memo { m.lock().unwrap().clear(); }
    out.into_inner().unwrap()
}

// ---------------------------------------------------------------------------------------------------------------
// supervisor

pub struct Config { pub property: String, pub tier: String, pub seed: i64, pub verif: String, pub suites: Vec<Suite>, pub assumptions: Vec<String>, pub only: Option<String> }

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o.push('"'); o
}

fn load_known(cfg: &Config) -> HashSet<String> {
    let mut s = HashSet::new();
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", cfg.verif)) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix(&format!("KNOWN-FINDING: property={} key=", cfg.property)) { s.insert(r.to_string()); }
        }
    }
    s
}

fn write_evidence(cfg: &Config, sh: &Shared, per_suite: &[String], exhaustive: bool, violations: u64, wall: f64) {
    let dir = format!("{}/evidence", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    let samples = sh.samples.lock().unwrap().iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   ");
    let j = format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"executions_pruned_as_redundant\": {},\n  \"exhaustive\": {},\n  \"meaning\": \"states: distinct observed states of the code under test (by content hash); transitions: calls made into the real code; traces_validated_against_impl: complete executions of the real code compared step by step with the oracle\",\n  \"suites\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        jstr(&cfg.property), jstr(&cfg.tier), cfg.seed,
        sh.n_states.load(Ordering::Relaxed), sh.steps.load(Ordering::Relaxed), sh.execs.load(Ordering::Relaxed), sh.pruned.load(Ordering::Relaxed),
        exhaustive, per_suite.join(",\n   "), samples,
        cfg.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", "), wall, violations);
    std::fs::write(format!("{}/{}.json", dir, cfg.property), j).expect("evidence");
}

fn write_replay(cfg: &Config, f: &Failure) -> String {
    let dir = format!("{}/replays", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.replay", dir, cfg.property);
    let body = format!("property {}\ntier {}\nsuite {}\nchoices {}\nmessage {}\n", cfg.property, cfg.tier, f.suite,
        f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "), f.msg.replace('\n', "\n  "));
    let _ = std::fs::write(&path, body);
    path
}

fn report(cfg: &Config, f: &Failure) {
    let path = write_replay(cfg, f);
    println!("suite {}: {}", f.suite, if f.msg.len() > 1500 { f.msg.chars().take(700).chain(" ... ".chars()).chain(f.msg.chars().rev().take(700).collect::<Vec<_>>().into_iter().rev()).collect::<String>() } else { f.msg.clone() });
    println!("choices: {:?}", f.choices);
    println!("VIOLATION property={} replay={}", cfg.property, path);
}

fn child_main(cfg: &Config, slots: *mut Slot) -> i32 {
    install_hook();
    let sh = Shared::new();
    let known = load_known(cfg);
    let t0 = Instant::now();
    let quick = cfg.tier != "thorough";
    let deadline = t0 + Duration::from_secs(std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if quick { 600 } else { 6 * 3600 }));
    let mut per = vec![]; let mut exhaustive = true;
    for si in 0..cfg.suites.len() {
        let s = &cfg.suites[si];
        if let Some(o) = &cfg.only { if !s.name.contains(o.as_str()) { continue; } }
        let (st0, ts) = (sh.n_states.load(Ordering::Relaxed), Instant::now());
        let o = explore(&sh, &cfg.suites, si, slots, t0, deadline, &known);
        let line = format!("{{\"suite\": {}, \"bounds\": {}, \"executions\": {}, \"new_states\": {}, \"complete\": {}, \"wall_s\": {:.2}}}",
            jstr(&s.name), jstr(&s.bounds), o.execs, sh.n_states.load(Ordering::Relaxed) - st0, !o.timed_out, ts.elapsed().as_secs_f64());
        eprintln!("[{} {}] {} executions, {} new states, {:.2}s{}", cfg.property, s.name, o.execs, sh.n_states.load(Ordering::Relaxed) - st0, ts.elapsed().as_secs_f64(), if o.timed_out { " (time limit reached)" } else { "" });
        per.push(line);
        exhaustive &= !o.timed_out;
        for (k, m) in &o.known { println!("KNOWN-FINDING: property={} {} :: {}", cfg.property, k, m); }
        if let Some(e) = o.engine_error { eprintln!("ENGINE ERROR: {}", e); return 2; }
        if let Some(f) = o.failure {
            report(cfg, &f);
            write_evidence(cfg, &sh, &per, false, 1, t0.elapsed().as_secs_f64());
            return 1;
        }
        if o.timed_out { break; }
    }
    write_evidence(cfg, &sh, &per, exhaustive, 0, t0.elapsed().as_secs_f64());
    println!("OK property={} tier={} states={} transitions={} executions={} exhaustive={}", cfg.property, cfg.tier, sh.n_states.load(Ordering::Relaxed), sh.steps.load(Ordering::Relaxed), sh.execs.load(Ordering::Relaxed), exhaustive);
    0
}

enum End { Exit(i32), Signal(i32), Hang }

fn wait_child(pid: i32, slots: *mut Slot, t0: Instant, hang_ms: u64) -> End {
    loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            if libc::WIFEXITED(st) { return End::Exit(libc::WEXITSTATUS(st)); }
            return End::Signal(libc::WTERMSIG(st));
        }
        std::thread::sleep(Duration::from_millis(10));
        let now = t0.elapsed().as_millis() as u64;
        for w in 0..WORKERS {
            let s = unsafe { &*slots.add(w) };
            let (a, st) = unsafe { (std::ptr::read_volatile(&s.active), std::ptr::read_volatile(&s.started_ms)) };
            if a == 1 && now > st + hang_ms {
                // still the same execution?
                unsafe { libc::kill(pid, libc::SIGKILL); let mut st2 = 0; libc::waitpid(pid, &mut st2, 0); }
                return End::Hang;
            }
        }
    }
}

fn replay_one(cfg: &Config, si: usize, choices: &[u32], verbose: bool) -> (i32, Option<Failure>) {
    install_hook();
    let sh = Shared::new();
    let (trace, r, bad, _) = std::thread::scope(|s| std::thread::Builder::new().stack_size(64 << 20)
        .spawn_scoped(s, || run_once(&sh, &cfg.suites[si], choices, &[], 1, verbose)).unwrap().join().unwrap());
    match r {
        Err(Stop::Fail(key, msg)) => (1, Some(Failure { suite: cfg.suites[si].name.clone(), choices: trace.iter().map(|x| x.0).collect(), key, msg })),
        _ => if let Some(b) = bad { eprintln!("ENGINE ERROR: {}", b); (2, None) } else { (0, None) }
    }
}

pub fn main(cfg: Config, replay: Option<String>) -> i32 {
    let bytes = std::mem::size_of::<Slot>() * WORKERS;
    let slots = unsafe { libc::mmap(std::ptr::null_mut(), bytes, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) } as *mut Slot;
    assert!(slots as isize != -1);
    if let Some(path) = replay {
        let t = std::fs::read_to_string(&path).expect("replay file");
        let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
        let suite = get("suite ");
        let choices: Vec<u32> = get("choices ").split_whitespace().map(|x| x.parse().unwrap()).collect();
        let si = cfg.suites.iter().position(|s| s.name == suite).expect("suite");
        let (rc, f) = replay_one(&cfg, si, &choices, true);
        if let Some(f) = f { println!("{}", f.msg); println!("VIOLATION property={} replay={}", cfg.property, path); }
        return rc;
    }
    let t0 = Instant::now();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
        let rc = child_main(&cfg, slots);
        use std::io::Write; let _ = std::io::stdout().flush();
        unsafe { libc::_exit(rc) };
    }
    let end = wait_child(pid, slots, t0, 60_000);
    let (what, hang) = match end {
        End::Exit(rc @ (0 | 1)) => return rc,
        End::Exit(rc) => { eprintln!("check engine failed (exit {})", rc); return 2; }
        End::Signal(s) => (format!("killed by signal {}", s), false),
        End::Hang => ("made no progress for 60 s".to_string(), true),
    };
    // attribute: re-run each active execution alone
    let mut cands = vec![];
    for w in 0..WORKERS { let s = unsafe { &*slots.add(w) }; if s.active == 1 { cands.push(s.get()); } }
    cands.sort_by_key(|c| (c.2.is_empty(), c.1.len()));
    for (si, choices, msg) in &cands {
        unsafe { (*slots).active = 0; }
        let t1 = Instant::now();
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
            unsafe { (*slots).set(*si, choices, t1.elapsed().as_millis() as u64); }
            let (rc, _) = replay_one(&cfg, *si, choices, false);
            unsafe { libc::_exit(rc) };
        }
        let e = wait_child(pid, slots, t1, 120_000);
        let how = match e { End::Signal(s) if s != libc::SIGKILL => format!("code under test crashed the process (signal {}) {}", s, msg), End::Hang => "code under test does not terminate".to_string(),
            End::Exit(1) => "property violated".to_string(), _ => continue };
        let f = Failure { suite: cfg.suites[*si].name.clone(), choices: choices.clone(), key: how.clone(), msg: how };
        report(&cfg, &f);
        let sh = Shared::new();
        sh.execs.store(1, Ordering::Relaxed); sh.samples.lock().unwrap().push(format!("{}: {:?}", f.suite, f.choices));
        write_evidence(&cfg, &sh, &[], false, 1, t0.elapsed().as_secs_f64());
        return 1;
    }
    if !hang && what != "killed by signal 9" && !cands.is_empty() {
        // not reproducible alone (memory corruption by an earlier execution of the code under test)
        let (si, choices, msg) = cands[0].clone();
        let f = Failure { suite: cfg.suites[si].name.clone(), choices, key: what.clone(), msg: format!("process of the code under test {} while exploring; not reproducible from a single execution {}", what, msg) };
        report(&cfg, &f);
        let sh = Shared::new();
        sh.execs.store(1, Ordering::Relaxed); sh.samples.lock().unwrap().push(format!("{}: {:?}", f.suite, f.choices));
        write_evidence(&cfg, &sh, &[], false, 1, t0.elapsed().as_secs_f64());
        return 1;
    }
    eprintln!("exploration {}", what);
    2
}
