//! C19, C20: the buffer pool's real futures, polled one at a time by a scheduler that enumerates all interleavings.
//! The medium is simulated; the hook adds scheduling points where a multi-threaded runtime could switch threads
//! while no lock is held.
use crate::engine::*;
use cathlamet::storage::verif::{self as sv, Device, Pool};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

// ---------------------------------------------------------------------------------------------------------------
// time: the locks measure how long they wait (to become fair); runs must not depend on that

thread_local! { static CLOCK: Cell<Option<(i64, i64)>> = const { Cell::new(None) }; }
/// Replaces the C library's function in this program: a frozen (or leaping) clock while a schedule is executed.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if let Ok(Some((now, step))) = CLOCK.try_with(|c| c.get()) {
        let _ = CLOCK.try_with(|c| c.set(Some((now + step, step))));
        (*ts).tv_sec = 1_000_000 + now / 1_000_000_000;
        (*ts).tv_nsec = now % 1_000_000_000;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
}
pub struct FakeTime;
impl FakeTime { pub fn new(step: i64) -> FakeTime { CLOCK.with(|c| c.set(Some((0, step)))); FakeTime } }
impl Drop for FakeTime { fn drop(&mut self) { CLOCK.with(|c| c.set(None)) } }

// ---------------------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Read, Write, Init }
#[derive(Clone, PartialEq, Debug)]
pub enum Op { One(Kind, u8), /// the second block is accessed while the first is held; true: released in order of acquisition
    Two(Kind, u8, Kind, u8, bool) }
type Prog = Vec<Op>;

const SIZE: usize = 8;
fn place(loc: u8) -> (u8, u64) { (loc & 1, (loc as u64 >> 1) * 4096) }
fn medium(volume: u8, offset: u64) -> [u8; SIZE] {
    let mut b = [0u8; SIZE];
    for i in 0..SIZE { b[i] = 0x80 | (volume << 5) ^ ((offset >> 12) as u8).wrapping_mul(7).wrapping_add(i as u8) & 0x3f; }
    b
}
fn medium_of(loc: u8) -> [u8; SIZE] { let (v, o) = place(loc); medium(v, o) }

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.0.store(true, Ordering::Relaxed) }
    fn wake_by_ref(self: &Arc<Self>) { self.0.store(true, Ordering::Relaxed) }
}

struct FetchReq { task: usize, volume: u8, offset: u64, done: bool, waker: Waker }
struct Held { task: usize, loc: u8, write: bool, ptr: usize }

struct Env {
    now: Cell<usize>,
    immediate: Cell<bool>,
    fetches: RefCell<Vec<FetchReq>>,
    held: RefCell<Vec<Held>>,
    /// what each block should contain
    spec: RefCell<BTreeMap<u8, [u8; SIZE]>>,
    modified: RefCell<BTreeSet<u8>>,
    stage: RefCell<Vec<(u8, u8)>>,
    waits_for_buffer: RefCell<Vec<bool>>,
    wrong: RefCell<Option<String>>,
    log: RefCell<Vec<String>>,
    verbose: bool,
}
impl Env {
    fn note(&self, f: impl FnOnce() -> String) { if self.verbose { let s = f(); println!("    {}", s); self.log.borrow_mut().push(s) } }
    fn complain(&self, m: String) { let mut w = self.wrong.borrow_mut(); if w.is_none() { *w = Some(m) } }
    fn want(&self, loc: u8) -> [u8; SIZE] { self.spec.borrow().get(&loc).copied().unwrap_or_else(|| medium_of(loc)) }
    fn stage(&self, task: usize, op: usize, st: u8) { self.stage.borrow_mut()[task] = (op as u8, st) }
    fn acquired(&self, task: usize, kind: Kind, loc: u8, bytes: &[u8]) {
        self.note(|| format!("task {} holds block {} ({:?}): {:02x?}", task, loc, kind, bytes));
        let write = kind != Kind::Read;
        {
            let held = self.held.borrow();
            for h in held.iter() {
                if h.loc == loc && (write || h.write) {
                    self.complain(format!("task {} got block {} for {} while task {} holds it for {}", task, loc, if write { "writing" } else { "reading" }, h.task, if h.write { "writing" } else { "reading" }));
                }
            }
        }
        if bytes.len() != SIZE { self.complain(format!("a buffer of {} bytes was handed out for blocks of {} bytes", bytes.len(), SIZE)); return; }
        let want = self.want(loc);
        if kind == Kind::Init {
            // access without the need for the previous content: either that or zeros
            if bytes != &want[..] && bytes != &[0u8; SIZE][..] { self.complain(format!("task {} initializes block {} and finds {:02x?}, which is neither empty nor the block's content {:02x?}", task, loc, bytes, want)); }
            let mut now = [0u8; SIZE]; now.copy_from_slice(bytes);
            self.spec.borrow_mut().insert(loc, now);
        } else if bytes != &want[..] {
            self.complain(format!("task {} accesses block {} and finds {:02x?} instead of {:02x?}", task, loc, bytes, want));
        }
        if write { self.modified.borrow_mut().insert(loc); }
        self.held.borrow_mut().push(Held { task, loc, write, ptr: bytes.as_ptr() as usize });
    }
    fn wrote(&self, loc: u8, at: usize, bytes: &[u8]) {
        let mut w = self.want(loc);
        w[at..at + bytes.len()].copy_from_slice(bytes);
        self.spec.borrow_mut().insert(loc, w);
    }
    fn released(&self, task: usize, loc: u8) {
        self.note(|| format!("task {} releases block {}", task, loc));
        let mut h = self.held.borrow_mut();
        let i = h.iter().position(|h| h.task == task && h.loc == loc).expect("held");
        h.remove(i);
    }
    /// holds after every step
    fn invariant(&self) {
        let held = self.held.borrow();
        for (i, a) in held.iter().enumerate() {
            let bytes = unsafe { std::slice::from_raw_parts(a.ptr as *const u8, SIZE) };
            let want = self.want(a.loc);
            if bytes != &want[..] { self.complain(format!("task {} holds block {} and its content changed to {:02x?} from {:02x?}", a.task, a.loc, bytes, want)); }
            for b in &held[i + 1..] {
                if a.loc != b.loc && a.ptr < b.ptr + SIZE && b.ptr < a.ptr + SIZE { self.complain(format!("blocks {} and {} share the same memory", a.loc, b.loc)); }
            }
        }
    }
}
impl Device for Env {
    fn poll_fetch(&self, volume: u8, offset: u64, buffer: &mut [u8], cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let content = medium(volume, offset);
        if buffer.len() != SIZE { self.complain(format!("fetch into a buffer of {} bytes", buffer.len())); return Poll::Ready(Ok(())); }
        if self.immediate.get() { buffer.copy_from_slice(&content); return Poll::Ready(Ok(())); }
        let task = self.now.get();
        let mut fs = self.fetches.borrow_mut();
        match fs.iter().position(|f| f.task == task && f.volume == volume && f.offset == offset) {
            None => {
                self.note(|| format!("task {} starts to fetch ({}, {:#x})", task, volume, offset));
                // the transfer is on its way: part of the buffer is already overwritten
                buffer[..SIZE / 2].copy_from_slice(&content[..SIZE / 2]);
                buffer[SIZE / 2..].fill(0x77);
                fs.push(FetchReq { task, volume, offset, done: false, waker: cx.waker().clone() });
                Poll::Pending
            }
            Some(i) if fs[i].done => { fs.remove(i); buffer.copy_from_slice(&content); Poll::Ready(Ok(())) }
            Some(i) => { fs[i].waker = cx.waker().clone(); Poll::Pending }
        }
    }
    fn poll_point(&self, name: &'static str, first: bool, cx: &mut Context<'_>) -> Poll<()> {
        if self.immediate.get() { return Poll::Ready(()); }
        let t = self.now.get();
        let st = match name { "buffer chosen" => 10, _ => 11 };
        if first {
            self.note(|| format!("task {}: {}", t, name));
            let op = self.stage.borrow()[t].0;
            self.stage(t, op as usize, st);
            self.waits_for_buffer.borrow_mut()[t] = false;
            cx.waker().wake_by_ref(); return Poll::Pending;
        }
        let op = self.stage.borrow()[t].0;
        self.stage(t, op as usize, st + 10);
        Poll::Ready(())
    }
}

struct Pause(bool);
impl Future for Pause {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if std::mem::replace(&mut self.0, true) { return Poll::Ready(()); }
        cx.waker().wake_by_ref(); Poll::Pending
    }
}

enum Handle<'a> { R(sv::Reader<'a>), W(sv::Writer<'a>) }
async fn acquire<'a>(env: &Env, pool: &'a Pool, task: usize, k: usize, kind: Kind, loc: u8) -> Handle<'a> {
    let (v, o) = place(loc);
    env.stage(task, k, 1);
    env.note(|| format!("task {} requests block {} ({:?})", task, loc, kind));
    env.waits_for_buffer.borrow_mut()[task] = true;
    let h = match kind {
        Kind::Read => Handle::R(pool.read(v, o).await),
        Kind::Write => Handle::W(pool.write(v, o).await),
        Kind::Init => Handle::W(pool.initialize(v, o).await),
    };
    env.waits_for_buffer.borrow_mut()[task] = false;
    env.acquired(task, kind, loc, match &h { Handle::R(r) => r.bytes(), Handle::W(w) => w.bytes() });
    h
}
async fn work<'a>(env: &Env, task: usize, k: usize, loc: u8, h: &mut Handle<'a>, pause: bool) {
    match h {
        Handle::R(_) => { env.stage(task, k, 2); if pause { Pause(false).await; } }
        Handle::W(w) => {
            let val = [(task * 16 + k + 1) as u8; SIZE];
            w.bytes_mut()[..SIZE / 2].copy_from_slice(&val[..SIZE / 2]);
            env.wrote(loc, 0, &val[..SIZE / 2]);
            env.stage(task, k, 3);
            if pause { Pause(false).await; }
            w.bytes_mut()[SIZE / 2..].copy_from_slice(&val[SIZE / 2..]);
            env.wrote(loc, SIZE / 2, &val[SIZE / 2..]);
        }
    }
}
async fn release<'a>(env: &Env, task: usize, k: usize, loc: u8, h: Handle<'a>) {
    env.stage(task, k, 4);
    env.released(task, loc);
    match h { Handle::R(r) => r.release().await, Handle::W(w) => w.release().await }
    env.stage(task, k, 5);
}
async fn run_task(env: Rc<Env>, pool: Rc<Pool>, task: usize, prog: Prog) {
    for (k, op) in prog.iter().enumerate() {
        match *op {
            Op::One(kind, loc) => {
                let mut h = acquire(&env, &pool, task, k, kind, loc).await;
                work(&env, task, k, loc, &mut h, true).await;
                release(&env, task, k, loc, h).await;
            }
            Op::Two(k1, l1, k2, l2, fifo) => {
                let mut h = acquire(&env, &pool, task, k, k1, l1).await;
                work(&env, task, k, l1, &mut h, false).await;
                let mut i = acquire(&env, &pool, task, k + 100, k2, l2).await;
                work(&env, task, k + 100, l2, &mut i, true).await;
                if fifo { release(&env, task, k, l1, h).await; release(&env, task, k + 100, l2, i).await; }
                else { release(&env, task, k + 100, l2, i).await; release(&env, task, k, l1, h).await; }
            }
        }
    }
}

pub struct Run { buffers: usize, progs: Vec<Prog>, cancels: u8, interrupts: u8, preemptions: Option<u8>, clock_step: i64 }

fn poll_now<T>(f: impl Future<Output = T>) -> Option<T> {
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = Waker::from(flag);
    let mut cx = Context::from_waker(&waker);
    let mut f = Box::pin(f);
    // locks may need several polls even when uncontended
    for _ in 0..3 { if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return Some(x); } }
    None
}

/// `safety`: exclusion and content (C19); otherwise progress and return of buffers (C20).
fn explore_run(ch: &mut Ch, r: &Run, safety: bool) -> Res {
    let clock = FakeTime::new(r.clock_step);
    let n = r.progs.len();
    let env = Rc::new(Env {
        now: Cell::new(0), immediate: Cell::new(false), fetches: RefCell::new(vec![]), held: RefCell::new(vec![]), spec: RefCell::new(BTreeMap::new()),
        modified: RefCell::new(BTreeSet::new()), stage: RefCell::new(vec![(0, 0); n]), waits_for_buffer: RefCell::new(vec![false; n]), wrong: RefCell::new(None), log: RefCell::new(vec![]), verbose: ch.verbose,
    });
    sv::set_device(Some(env.clone()));
    let res = explore_inner(ch, r, safety, &env);
    sv::set_device(None);
    drop(clock);
    res
}

fn explore_inner(ch: &mut Ch, r: &Run, safety: bool, env: &Rc<Env>) -> Res {
    let n = r.progs.len();
    if ch.verbose { println!("  {} buffers, tasks {:?}", r.buffers, r.progs); }
    let ctx = || format!("{} buffers, tasks {:?}", r.buffers, r.progs);
    let pool = Rc::new(ch.must("creating a buffer pool", || Pool::new(SIZE, r.buffers))?.map_err(|e| Stop::Fail("create".into(), format!("creating a buffer pool of {}: {}", r.buffers, e)))?);
    let mut tasks: Vec<Option<Pin<Box<dyn Future<Output = ()>>>>> = r.progs.iter().enumerate().map(|(i, p)| Some(Box::pin(run_task(env.clone(), pool.clone(), i, p.clone())) as Pin<Box<dyn Future<Output = ()>>>)).collect();
    let flags: Vec<Arc<Flag>> = (0..n).map(|_| Arc::new(Flag(AtomicBool::new(true)))).collect();
    let wakers: Vec<Waker> = flags.iter().map(|f| Waker::from(f.clone())).collect();
    let mut blocked: Vec<usize> = vec![]; // in the order in which they started to wait
    let mut cancels = r.cancels;
    let mut interrupts = r.interrupts;
    let mut preempt = r.preemptions;
    let mut current: Option<usize> = None;
    // the guard borrows from the pool, which outlives it: dropped first below
    let mut interrupted: Option<sv::Interrupted<'static>> = None;
    let mut progs_key = vec![];
    for p in &r.progs { progs_key.push(0xee); for op in p { match op { Op::One(k, l) => progs_key.extend_from_slice(&[1, *k as u8, *l]), Op::Two(a, b, c, d, e) => progs_key.extend_from_slice(&[2, *a as u8, *b, *c as u8, *d, *e as u8]) } } }
    let mut steps = 0;
    // the tables cannot change while another thread holds the mutex
    let mut frozen: Vec<u8> = vec![];
    let out: Res = loop {
        steps += 1;
        if steps > 4000 && !Pool::TABLES { break Err(Stop::Skip); } // an unfair schedule
        if steps > 4000 { break fail(format!("{}: the tasks run without ever finishing", ctx())); }
        // describe the state
        let mut st: Vec<u8> = Vec::with_capacity(256);
        st.extend_from_slice(&progs_key);
        st.push(r.buffers as u8); st.push((r.clock_step != 0) as u8); st.push(interrupted.is_some() as u8);
        if interrupted.is_none() { frozen.clear(); pool.describe(&mut frozen); }
        st.extend_from_slice(&frozen);
        for i in 0..n {
            let s = env.stage.borrow()[i];
            st.extend_from_slice(&[s.0, s.1, tasks[i].is_some() as u8, flags[i].0.load(Ordering::Relaxed) as u8]);
        }
        st.push(0xcc); for b in &blocked { st.push(*b as u8) }
        for f in env.fetches.borrow().iter() { st.extend_from_slice(&[f.task as u8, f.done as u8]); st.extend_from_slice(&f.offset.to_le_bytes()); }
        for (l, v) in env.spec.borrow().iter() { st.push(*l); st.extend_from_slice(v); }
        for h in env.held.borrow().iter() { st.extend_from_slice(&[h.task as u8, h.loc, h.write as u8]); }
        st.push(cancels); st.push(interrupts);
        match preempt {
            None => if ch.seen(&st, 1) { break Err(Stop::Skip); },
            Some(_) => ch.state(&st),
        }
        // what can happen next
        #[derive(Clone, Copy)]
        enum Act { Step(usize), Fetched(usize), Cancel(usize), Interrupt, Resume }
        let mut acts: Vec<Act> = vec![];
        let runnable: Vec<usize> = (0..n).filter(|&i| tasks[i].is_some() && flags[i].0.load(Ordering::Relaxed)).collect();
        let cont = current.filter(|c| runnable.contains(c));
        let free = match (preempt, cont) { (Some(0), Some(_)) => false, _ => true };
        if let Some(c) = cont { acts.push(Act::Step(c)); }
        if free { for &i in &runnable { if Some(i) != cont { acts.push(Act::Step(i)); } } }
        let n_task_acts = acts.len();
        if free {
            for (i, f) in env.fetches.borrow().iter().enumerate() { if !f.done { acts.push(Act::Fetched(i)); } }
            if cancels > 0 { for i in 0..n { if tasks[i].is_some() && env.waits_for_buffer.borrow()[i] { acts.push(Act::Cancel(i)); } } }
            if interrupted.is_some() { acts.push(Act::Resume) } else if interrupts > 0 && !runnable.is_empty() { acts.push(Act::Interrupt) }
        } else if interrupted.is_some() && acts.is_empty() { acts.push(Act::Resume) }
        if acts.is_empty() || (runnable.is_empty() && n_task_acts == 0 && acts.iter().all(|a| matches!(a, Act::Cancel(_))) ) {
            let pending: Vec<usize> = (0..n).filter(|&i| tasks[i].is_some()).collect();
            if pending.is_empty() {
                // everything is done
                break probe(ch, r, env, &pool, safety).map_err(|e| match e { Stop::Fail(k, m) => Stop::Fail(format!("{}: {}", ctx(), k), format!("{}: {}", ctx(), m)), s => s });
            }
            let m = env.modified.borrow().len();
            if !safety && m < r.buffers {
                break fail(format!("{}: tasks {:?} wait forever, with {} of {} buffers modified", ctx(), pending, m, r.buffers));
            }
            break Ok(());
        }
        let a = acts[ch.choose(acts.len())];
        let res: Res = match a {
            Act::Step(i) => {
                if let (Some(p), Some(c)) = (&mut preempt, cont) { if c != i { *p -= 1 } }
                current = Some(i);
                env.now.set(i);
                flags[i].0.store(false, Ordering::Relaxed);
                env.note(|| format!("-- task {} runs", i));
                let mut cx = Context::from_waker(&wakers[i]);
                let fut = tasks[i].as_mut().unwrap();
                match ch.call(|| fut.as_mut().poll(&mut cx)) {
                    Err(m) => { std::mem::forget(tasks[i].take()); fail(format!("{}: task {} panicked: {}", ctx(), i, m)) }
                    Ok(Poll::Ready(())) => { tasks[i] = None; blocked.retain(|b| *b != i); env.stage(i, 255, 0); Ok(()) }
                    Ok(Poll::Pending) => {
                        if flags[i].0.load(Ordering::Relaxed) { blocked.retain(|b| *b != i) } else if !blocked.contains(&i) { blocked.push(i) }
                        Ok(())
                    }
                }
            }
            Act::Fetched(i) => {
                if let (Some(p), Some(_)) = (&mut preempt, cont) { *p -= 1 }
                let w = { let mut f = env.fetches.borrow_mut(); f[i].done = true; f[i].waker.clone() };
                env.note(|| format!("-- fetch of task {} completes", env.fetches.borrow()[i].task));
                w.wake(); Ok(())
            }
            Act::Cancel(i) => {
                if let (Some(p), Some(_)) = (&mut preempt, cont) { *p -= 1 }
                cancels -= 1;
                env.note(|| format!("-- task {} abandons its request", i));
                env.now.set(i);
                env.waits_for_buffer.borrow_mut()[i] = false;
                blocked.retain(|b| *b != i);
                env.stage(i, 254, 0);
                let t = tasks[i].take();
                match ch.call(move || drop(t)) { Err(m) => fail(format!("{}: abandoning a request panicked: {}", ctx(), m)), Ok(()) => Ok(()) }
            }
            Act::Interrupt => {
                interrupts -= 1;
                env.note(|| "-- another thread holds the pool's mutex".into());
                match poll_now(pool.interrupt()) {
                    Some(g) => { interrupted = Some(unsafe { std::mem::transmute::<sv::Interrupted<'_>, sv::Interrupted<'static>>(g) }); Ok(()) }
                    // another task holds it or is about to get it
                    None => break Err(Stop::Skip),
                }
            }
            Act::Resume => { env.note(|| "-- the other thread lets the pool's mutex go".into()); interrupted = None; Ok(()) }
        };
        if res.is_err() { break res; }
        env.invariant();
        if let Some(m) = env.wrong.borrow_mut().take() { if safety { break fail(format!("{}: {}", ctx(), m)); } }
    };
    interrupted = None;
    let _ = interrupted;
    // dropping suspended tasks runs code under test; whatever it does there is not part of this schedule
    for t in tasks.iter_mut() { if let Some(t) = t.take() { if out.is_err() && !matches!(out, Err(Stop::Skip)) { std::mem::forget(t); } else { let _ = guarded(move || drop(t)); } } }
    if let Err(Stop::Fail(..)) = &out { std::mem::forget(pool); }
    out
}

/// All tasks are done: every buffer without modified content can be used for other blocks, and the modified blocks are there.
fn probe(ch: &mut Ch, r: &Run, env: &Rc<Env>, pool: &Rc<Pool>, safety: bool) -> Res {
    env.immediate.set(true);
    let modified: Vec<u8> = env.modified.borrow().iter().copied().collect();
    ch.sample(|| format!("{} buffers, tasks {:?}: done, blocks {:?} modified", r.buffers, r.progs, modified));
    for round in 0..2u8 {
        let mut handles = vec![];
        let free = r.buffers - modified.len().min(r.buffers);
        let fresh: Vec<u8> = (0..free as u8).map(|i| 100 + round * 50 + i).collect();
        for &loc in modified.iter().chain(&fresh) {
            let (v, o) = place(loc);
            match ch.call(|| poll_now(pool.read(v, o))) {
                Err(m) => return fail(format!("after all tasks are done, access to block {} panicked: {}", loc, m)),
                Ok(None) => {
                    if safety { return Ok(()); }
                    return fail(format!("after all tasks are done, with {} buffers for modified blocks {:?}, access to block {} (together with {} others) does not succeed", modified.len(), modified, loc, handles.len()));
                }
                Ok(Some(h)) => {
                    let want = env.want(loc);
                    if h.bytes() != &want[..] { return fail(format!("after all tasks are done, block {} contains {:02x?} instead of {:02x?}", loc, h.bytes(), want)); }
                    handles.push(h);
                }
            }
        }
        for h in handles {
            match ch.call(|| poll_now(h.release())) {
                Err(m) => return fail(format!("after all tasks are done, a release panicked: {}", m)),
                Ok(None) => return fail("after all tasks are done, a release does not return"),
                Ok(Some(())) => {}
            }
        }
    }
    env.immediate.set(false);
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------------

fn gen_one(ch: &mut Ch, locs: u8, init: bool) -> Op {
    let k = match ch.choose(if init { 3 } else { 2 }) { 0 => Kind::Read, 1 => Kind::Write, _ => Kind::Init };
    Op::One(k, ch.choose(locs as usize) as u8)
}
/// the least of the equivalent lists of tasks (tasks and blocks are interchangeable)
fn canonical(progs: &[Prog]) -> bool {
    fn encode(progs: &[&Prog]) -> Vec<u8> {
        let mut names: Vec<u8> = vec![];
        let mut nm = |l: u8| -> u8 { match names.iter().position(|x| *x == l) { Some(i) => i as u8, None => { names.push(l); names.len() as u8 - 1 } } };
        let mut v = vec![];
        for p in progs { v.push(100 + p.len() as u8); for op in p.iter() { match *op { Op::One(k, l) => v.extend_from_slice(&[1, k as u8, nm(l)]), Op::Two(a, b, c, d, e) => { let (b, d) = (nm(b), nm(d)); v.extend_from_slice(&[2, a as u8, b, c as u8, d, e as u8]) } } } }
        v
    }
    fn perms(rest: &mut Vec<usize>, done: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
        if rest.is_empty() { return f(done); }
        for i in 0..rest.len() {
            let x = rest.remove(i); done.push(x);
            let ok = perms(rest, done, f);
            done.pop(); rest.insert(i, x);
            if !ok { return false; }
        }
        true
    }
    let own = encode(&progs.iter().collect::<Vec<_>>());
    perms(&mut (0..progs.len()).collect(), &mut vec![], &mut |o| own <= encode(&o.iter().map(|&i| &progs[i]).collect::<Vec<_>>()))
}
fn first_appearance(progs: &[Prog]) -> bool {
    let mut next = 0;
    for p in progs { for op in p { let ls = match *op { Op::One(_, l) => vec![l], Op::Two(_, l, _, m, _) => vec![l, m] }; for l in ls { if l > next { return false; } if l == next { next += 1 } } } }
    true
}
fn distinct(progs: &[Prog]) -> usize {
    progs.iter().flatten().flat_map(|op| match *op { Op::One(_, l) => vec![l], Op::Two(_, l, _, m, _) => vec![l, m] }).collect::<BTreeSet<_>>().len()
}
fn writes(progs: &[Prog]) -> usize {
    let mut s = BTreeSet::new();
    for p in progs { for op in p { match *op { Op::One(k, l) => { if k != Kind::Read { s.insert(l); } } Op::Two(k, l, k2, l2, _) => { if k != Kind::Read { s.insert(l); } if k2 != Kind::Read { s.insert(l2); } } } } }
    s.len()
}

struct Shape { tasks: usize, ops: (usize, usize), total: usize, locs: u8, buffers: (usize, usize), init: bool, two: bool, cancels: u8, interrupts: u8, preemptions: Option<u8>, leap: bool, /// exactly this many blocks, one of them written
    exact: Option<usize> }

fn suite(name: &str, mut sh: Shape, safety: bool) -> Suite {
    // without a view of the pool's tables states cannot be recognized: bound the preemptions instead
    if !Pool::TABLES { sh.tasks = sh.tasks.min(2); sh.exact = None; sh.interrupts = 0; if sh.preemptions.is_none() { sh.preemptions = Some(2); sh.total = sh.total.min(4); sh.ops.1 = sh.ops.1.min(if sh.tasks == 1 { 5 } else { 2 }); } }
    let bounds = format!("{} buffers, every {} tasks with {} accesses each (at most {} altogether) to {} blocks, {}{}{}{}{}",
        if sh.buffers.0 == sh.buffers.1 { format!("{}", sh.buffers.0) } else { format!("{} to {}", sh.buffers.0, sh.buffers.1) },
        sh.tasks, if sh.ops.0 == sh.ops.1 { format!("{}", sh.ops.0) } else { format!("{} to {}", sh.ops.0, sh.ops.1) }, sh.total, sh.locs,
        if sh.init { "read/write/initialize" } else { "read/write" }, if sh.two { ", a second block accessed while holding one" } else { "" },
        match sh.exact { Some(e) => format!(", exactly {} blocks, one of them written; ", e), None => "; ".into() } + &match sh.preemptions { None => "all interleavings (states recognized by the pool's tables and memory, task positions and waiting order)".to_string(), Some(p) => format!("all interleavings with at most {} preemptions, no state recognition", p) },
        if sh.cancels > 0 { format!(", up to {} requests abandoned at any time while waiting for a buffer", sh.cancels) } else { String::new() },
        if sh.interrupts > 0 { format!(", another thread holds the pool's mutex at any {} time(s)", sh.interrupts) } else { String::new() });
    Suite::new(name, &bounds, move |ch| {
        let buffers = ch.range(sh.buffers.0, sh.buffers.1);
        let mut progs: Vec<Prog> = vec![];
        let mut total = 0;
        for _ in 0..sh.tasks {
            let k = ch.range(sh.ops.0, sh.ops.1);
            total += k;
            if total > sh.total { return Err(Stop::Skip); }
            let mut p = vec![];
            for _ in 0..k {
                if sh.two && ch.flag() {
                    let (a, b) = match (gen_one(ch, sh.locs, false), gen_one(ch, sh.locs, sh.init)) { (Op::One(k, l), Op::One(k2, l2)) => ((k, l), (k2, l2)), _ => unreachable!() };
                    // waiting for a block that the task itself holds never ends
                    if a.1 == b.1 { return Err(Stop::Skip); }
                    p.push(Op::Two(a.0, a.1, b.0, b.1, ch.flag()));
                } else { p.push(gen_one(ch, sh.locs, sh.init)); }
            }
            progs.push(p);
            if !first_appearance(&progs) { return Err(Stop::Skip); }
        }
        if !canonical(&progs) { return Err(Stop::Skip); }
        if let Some(e) = sh.exact { if distinct(&progs) != e || writes(&progs) != 1 { return Err(Stop::Skip); } }
        // C20 speaks about runs that leave a buffer to turn over
        if !safety && writes(&progs) >= buffers { return Err(Stop::Skip); }
        let clock_step = if sh.leap && ch.flag() { 10_000_000 } else { 0 };
        explore_run(ch, &Run { buffers, progs, cancels: sh.cancels, interrupts: sh.interrupts, preemptions: sh.preemptions, clock_step }, safety)
    })
}

pub fn c19(th: bool) -> Vec<Suite> {
    let x = th as usize;
    let b = Shape { tasks: 1, ops: (1, 1), total: 99, locs: 2, buffers: (1, 2), init: true, two: false, cancels: 0, interrupts: 0, preemptions: None, leap: false, exact: None };
    vec![
        suite("histories", Shape { tasks: 1, ops: (1, 5 + x), locs: 4, buffers: (1, 3), ..b }, true),
        suite("two-tasks", Shape { tasks: 2, ops: (1, 2 + x), total: 4 + x, locs: 3, buffers: (1, 3), ..b }, true),
        suite("three-tasks", Shape { tasks: 3, ops: (1, 2), total: 4 + x, locs: 3, buffers: (1, 2 + x), ..b }, true),
        suite("four-tasks", Shape { tasks: 4, ops: (1, 1), locs: 2 + x as u8, buffers: (1, 2), init: th, ..b }, true),
        suite("nested", Shape { tasks: 2, ops: (1, 1 + x), total: 2 + x, locs: 3, buffers: (2, 3), two: true, ..b }, true),
        suite("abandoned", Shape { tasks: 3, ops: (1, 1 + x), total: 3 + x, locs: 2, buffers: (1, 2), init: false, cancels: 1, interrupts: 1, leap: true, ..b }, true),
        suite("preemption-bounded", Shape { tasks: 2, ops: (1, 2), total: 3 + x, locs: 2, buffers: (1, 2), preemptions: Some(2 + x as u8), ..b }, true),
    ]
}

pub fn c20(th: bool) -> Vec<Suite> {
    let x = th as usize;
    let b = Shape { tasks: 1, ops: (1, 1), total: 99, locs: 2, buffers: (1, 2), init: true, two: false, cancels: 0, interrupts: 0, preemptions: None, leap: false, exact: None };
    vec![
        suite("histories", Shape { tasks: 1, ops: (1, 5 + x), locs: 4, buffers: (1, 3), ..b }, false),
        suite("two-tasks", Shape { tasks: 2, ops: (1, 2 + x), total: 4 + x, locs: 3, buffers: (1, 3), ..b }, false),
        suite("three-tasks", Shape { tasks: 3, ops: (1, 2), total: 4 + x, locs: 3, buffers: (1, 2 + x), ..b }, false),
        suite("four-tasks", Shape { tasks: 4, ops: (1, 1), locs: 3, buffers: (1, 2), init: th, ..b }, false),
        suite("abandoned", Shape { tasks: 3, ops: (1, 1 + x), total: 3 + x, locs: 3, buffers: (1, 2), init: false, cancels: 1 + x as u8, interrupts: 1, leap: true, ..b }, false),
        suite("five-tasks", Shape { tasks: 5, ops: (1, 1), locs: 4, buffers: (2, 2), init: false, exact: if th { None } else { Some(3) }, ..b }, false),
        suite("abandoned-four", Shape { tasks: 4, ops: (1, 1), locs: 3, buffers: (1, 1 + x), init: false, cancels: 1, interrupts: 1, leap: false, ..b }, false),
        suite("preemption-bounded", Shape { tasks: 2, ops: (1, 2), total: 3 + x, locs: 2, buffers: (1, 2), preemptions: Some(2 + x as u8), ..b }, false),
    ]
}
