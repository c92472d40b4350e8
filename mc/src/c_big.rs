//! C19, C20 with many buffers, blocks and tasks: scripted histories, enumerated over sizes, places and patterns.
use crate::c_pool::FakeTime;
use crate::engine::*;
use crate::ensure;
use cathlamet::storage::verif::{self as sv, Device, Pool};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

const SIZE: usize = 16;
type Loc = (u8, u64);
fn content(l: Loc) -> [u8; SIZE] {
    let mut x = (l.1 ^ (l.0 as u64) << 56).wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567;
    let mut b = [0; SIZE];
    for c in b.iter_mut() { x ^= x >> 29; x = x.wrapping_mul(0xBF58476D1CE4E5B9); *c = (x >> 32) as u8 }
    b
}
fn written(l: Loc, n: u32) -> [u8; SIZE] { let mut b = content((l.0 ^ 0x55, l.1 + 1)); b[..4].copy_from_slice(&n.to_le_bytes()); b }
/// i-th block in one of several arrangements.
fn place(kind: usize, i: usize) -> Loc {
    match kind {
        0 => (0, i as u64 * 4096),
        1 => ((i % 256) as u8, (i as u64 / 256) * 4096),
        2 => ((i & 1) as u8, (i as u64 / 2) << 32),
        // one bit of the address
        _ => if i < 44 { (0, 1u64 << (12 + i)) } else if i < 52 { (1 << (i - 44), 0) } else if i < 60000 { ((i % 7) as u8, (i as u64) << 40 | 4096) } else { ((i % 7) as u8, (i as u64) << 33 | 8192) },
    }
}

struct Medium { wrong: RefCell<Option<String>>, latency: bool, started: RefCell<BTreeSet<usize>> }
impl Device for Medium {
    fn poll_fetch(&self, volume: u8, offset: u64, buffer: &mut [u8], cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        if buffer.len() != SIZE { *self.wrong.borrow_mut() = Some(format!("fetch into a buffer of {} bytes", buffer.len())); return Poll::Ready(Ok(())); }
        if self.latency && self.started.borrow_mut().insert(buffer.as_ptr() as usize) { buffer.fill(0x77); cx.waker().wake_by_ref(); return Poll::Pending; }
        self.started.borrow_mut().remove(&(buffer.as_ptr() as usize));
        buffer.copy_from_slice(&content((volume, offset)));
        Poll::Ready(Ok(()))
    }
    fn poll_point(&self, _name: &'static str, _first: bool, _cx: &mut Context<'_>) -> Poll<()> { Poll::Ready(()) }
}
struct Flag(AtomicBool);
impl Wake for Flag { fn wake(self: Arc<Self>) { self.0.store(true, Ordering::Relaxed) } }

/// Polls while the future says that it can go on.
fn drive<T>(mut f: Pin<Box<dyn Future<Output = T> + '_>>) -> Result<T, Pin<Box<dyn Future<Output = T> + '_>>> {
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    for _ in 0..20 {
        if !flag.0.swap(false, Ordering::Relaxed) { break; }
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return Ok(x); }
    }
    Err(f)
}
enum H<'a> { R(sv::Reader<'a>), W(sv::Writer<'a>) }
impl<'a> H<'a> { fn bytes(&self) -> &[u8] { match self { H::R(r) => r.bytes(), H::W(w) => w.bytes() } } }
async fn get<'a>(pool: &'a Pool, l: Loc, kind: usize) -> H<'a> {
    match kind { 0 => H::R(pool.read(l.0, l.1).await), 1 => H::W(pool.write(l.0, l.1).await), _ => H::W(pool.initialize(l.0, l.1).await) }
}
async fn put(h: H<'_>) { match h { H::R(r) => r.release().await, H::W(w) => w.release().await } }

struct M { n: usize, modified: BTreeMap<Loc, [u8; SIZE]>, resident: BTreeSet<Loc>, counter: u32 }
impl M {
    fn want(&self, l: Loc) -> [u8; SIZE] { self.modified.get(&l).copied().unwrap_or_else(|| content(l)) }
}
/// One access to a block that is not held; `held`: the blocks held at the moment.
fn access<'a>(ch: &mut Ch, pool: &'a Pool, m: &mut M, held: &[(Loc, H<'a>)], l: Loc, kind: usize, what: &dyn Fn() -> String) -> Result<H<'a>, Stop> {
    let r = ch.must(&what(), || drive(Box::pin(get(pool, l, kind))))?;
    let mut h = match r { Ok(h) => h, Err(f) => { std::mem::forget(f); return fail(format!("{}: the request for block {:?} does not succeed, with {} blocks modified and {} held", what(), l, m.modified.len(), held.len())) } };
    let want = m.want(l);
    ensure!(h.bytes() == &want[..] || kind == 2 && h.bytes() == [0; SIZE], "{}: block {:?} contains {:02x?} instead of {:02x?}", what(), l, h.bytes(), want);
    for (o, g) in held { ensure!(g.bytes().as_ptr() != h.bytes().as_ptr(), "{}: blocks {:?} and {:?} share the same memory", what(), o, l); }
    for (o, g) in held { ensure!(g.bytes() == &m.want(*o)[..], "{}: the content of block {:?}, which is held, changed to {:02x?}", what(), o, g.bytes()); }
    if let H::W(w) = &mut h { m.counter += 1; let b = written(l, m.counter); w.bytes_mut().copy_from_slice(&b); m.modified.insert(l, b); }
    m.resident.insert(l);
    Ok(h)
}
fn release(ch: &mut Ch, h: H<'_>, what: &dyn Fn() -> String) -> Res {
    match ch.must(&what(), || drive(Box::pin(put(h))).is_ok())? { true => Ok(()), false => fail(format!("{}: a release does not return", what())) }
}

fn histories(ch: &mut Ch, ns: &[usize], safety: bool) -> Res {
    let n = *ch.pick(ns);
    let arrangement = ch.choose(4);
    let total = *ch.pick(&[n, n + 1, 2 * n, 3 * n + 1]);
    let order = ch.choose(4);
    if n > 33 && (order + arrangement) % 2 == 1 { return Err(Stop::Skip); }
    let at = |i: usize| place(arrangement, match order { 0 => i, 1 => total - 1 - i, 2 => if i % 2 == 0 { i / 2 } else { total - 1 - i / 2 }, _ => if i + 1 < total { i ^ 1 } else { i } } % (total + 1));
    // which ones are written
    let room = n - 1;
    let writes = { let mut v = vec![0usize, 1, 2, n / 2, room]; v.retain(|w| *w <= room); v.sort(); v.dedup(); *ch.pick(&v) };
    let spread = if writes > 0 { ch.choose(3) } else { 0 };
    let kinds: Vec<usize> = { let mut v = vec![0; total]; let w = writes.min(room).min(total); for j in 0..w { let i = match spread { 0 => j, 1 => total - 1 - j, _ => j * total / w }; v[i] = if j % 5 == 4 { 2 } else { 1 } } v };
    let again = if n > 33 { ch.choose(2) * 2 } else { ch.choose(3) };
    let held_n = { let mut v = vec![0usize, 1, n / 2, n - 1, n]; v.sort(); v.dedup(); *ch.pick(&v) };
    let what = || format!("{} buffers, {} blocks (arrangement {}, order {}), {} written (spread {}), {} held", n, total, arrangement, order, writes, spread, held_n);
    let medium = Rc::new(Medium { wrong: RefCell::new(None), latency: (n + total) % 2 == 1, started: RefCell::new(BTreeSet::new()) });
    sv::set_device(Some(medium.clone()));
    let pool = ch.must("creating a buffer pool", || Pool::new(SIZE, n))?.map_err(|e| Stop::Fail("create".into(), format!("creating a buffer pool of {}: {}", n, e)))?;
    let pool = &*Box::leak(Box::new(pool)); // reclaimed below unless something is wrong
    let mut m = M { n, modified: BTreeMap::new(), resident: BTreeSet::new(), counter: 0 };
    let r: Res = (|| {
        for i in 0..total {
            let h = access(ch, pool, &mut m, &[], at(i), kinds[i], &what)?;
            release(ch, h, &what)?;
            // an earlier one once more
            if again > 0 && i > 0 { let j = if again == 1 { i - 1 } else { i / 2 }; let h = access(ch, pool, &mut m, &[], at(j), 0, &what)?; release(ch, h, &what)?; }
        }
        // hold several at once, modified ones among them
        let mut held: Vec<(Loc, H)> = vec![];
        let mods: Vec<Loc> = m.modified.keys().copied().collect();
        let mut pinned: BTreeSet<Loc> = mods.iter().copied().collect();
        for i in 0..total + n {
            if held.len() >= held_n { break; }
            let l = if i < mods.len() && i % 2 == 0 { mods[i] } else { place(arrangement, i + if i % 3 == 0 { total } else { 0 }) };
            if held.iter().any(|h| h.0 == l) || (!pinned.contains(&l) && pinned.len() >= n) { continue; }
            pinned.insert(l);
            let h = access(ch, pool, &mut m, &held, l, 0, &what)?;
            held.push((l, h));
        }
        // as long as a buffer is left, others can turn over
        let extra = |i: usize| place(arrangement, total * 2 + 60 + i);
        if pinned.len() < n {
            for i in 0..n + 2 { let h = access(ch, pool, &mut m, &held, extra(i), 0, &what)?; release(ch, h, &what)?; }
        } else if !held.is_empty() {
            // none is left: the request has to wait, until one that is not modified is let go
            let l = extra(0);
            match ch.must(&what(), || drive(Box::pin(get(pool, l, 0))))? {
                Ok(_) => return fail(format!("{}: with all buffers held or modified, a request for yet another block succeeds", what())),
                Err(mut f) => {
                    if let Some(k) = held.iter().position(|h| !m.modified.contains_key(&h.0)) {
                        let (_, h) = held.remove(k);
                        release(ch, h, &what)?;
                        let flag = Arc::new(Flag(AtomicBool::new(true)));
                        let waker = Waker::from(flag.clone()); let mut cx = Context::from_waker(&waker);
                        let mut done = None;
                        for _ in 0..20 { if let Poll::Ready(h) = ch.must(&what(), || f.as_mut().poll(&mut cx))? { done = Some(h); break; } }
                        drop(f);
                        match done { Some(h) => { ensure!(h.bytes() == &m.want(l)[..], "{}: block {:?} contains {:02x?}", what(), l, h.bytes()); release(ch, h, &what)? } None => return fail(format!("{}: a request that waited for a buffer does not succeed when one is let go", what())) }
                    } else { ch.must("abandoning", || drop(f))?; }
                }
            }
        }
        for (_, h) in held { release(ch, h, &what)?; }
        // at the end everything is as it was last written
        for i in (0..total).rev() { let h = access(ch, pool, &mut m, &[], place(arrangement, i), 0, &what)?; release(ch, h, &what)?; }
        // and all buffers that are not modified can be held at once, together with the modified ones
        let mut held: Vec<(Loc, H)> = vec![];
        let mods: Vec<Loc> = m.modified.keys().copied().collect();
        for l in mods.iter().copied().chain((0..n - mods.len()).map(|i| extra(1000 + i))) { let h = access(ch, pool, &mut m, &held, l, 0, &what)?; held.push((l, h)); }
        for (_, h) in held { release(ch, h, &what)?; }
        Ok(())
    })();
    sv::set_device(None);
    if let Some(w) = medium.wrong.borrow_mut().take() { return fail(w); }
    let _ = (safety, m.n, m.resident.len());
    if r.is_ok() { drop(unsafe { Box::from_raw(pool as *const Pool as *mut Pool) }); }
    ch.state(what().as_bytes());
    ch.sample(&what);
    r
}

struct Shared { pool: &'static Pool, held: RefCell<BTreeMap<Loc, (usize, bool)>>, values: RefCell<BTreeMap<Loc, [u8; SIZE]>>, wrong: RefCell<Option<String>>, finished: RefCell<usize> }
async fn one_task(sh: Rc<Shared>, id: usize, ops: Vec<(Loc, usize)>) {
    for (k, (l, kind)) in ops.into_iter().enumerate() {
        let mut h = get(sh.pool, l, kind).await;
        let write = kind != 0;
        {
            let mut held = sh.held.borrow_mut();
            let e = held.entry(l).or_insert((0, false));
            if e.1 || write && e.0 > 0 { *sh.wrong.borrow_mut() = Some(format!("task {} gets block {:?} for {} while it is held for {}", id, l, ["reading", "writing", "initializing"][kind], if e.1 { "writing" } else { "reading" })); }
            *e = (e.0 + 1, write);
            let want = sh.values.borrow().get(&l).copied().unwrap_or_else(|| content(l));
            if h.bytes() != &want[..] && !(kind == 2 && h.bytes() == [0; SIZE]) { *sh.wrong.borrow_mut() = Some(format!("task {} finds {:02x?} in block {:?} instead of {:02x?}", id, h.bytes(), l, want)); }
        }
        if let H::W(w) = &mut h { let b = written(l, (id * 100 + k) as u32); w.bytes_mut().copy_from_slice(&b); sh.values.borrow_mut().insert(l, b); }
        let mut once = false;
        std::future::poll_fn(move |cx: &mut Context<'_>| if std::mem::replace(&mut once, true) { Poll::Ready(()) } else { cx.waker().wake_by_ref(); Poll::Pending }).await;
        { let want = sh.values.borrow().get(&l).copied().unwrap_or_else(|| content(l)); if h.bytes() != &want[..] && kind == 0 { *sh.wrong.borrow_mut() = Some(format!("block {:?}, held by task {}, changed to {:02x?}", l, id, h.bytes())); } }
        { let mut held = sh.held.borrow_mut(); let e = held.get_mut(&l).unwrap(); e.0 -= 1; e.1 = false; if e.0 == 0 { held.remove(&l); } }
        put(h).await;
    }
    *sh.finished.borrow_mut() += 1;
}

fn crowd(ch: &mut Ch, tasks: &[usize], safety: bool) -> Res {
    let n = *ch.pick(&[1usize, 2, 3, 4, 8, 33]);
    let t = *ch.pick(tasks);
    let pattern = ch.choose(7);
    let policy = ch.choose(4);
    let cancel = *ch.pick(&[0usize, 2, 3]);
    let what = || format!("{} buffers, {} tasks with accesses of pattern {}, scheduled by policy {}{}", n, t, pattern, policy, if cancel > 0 { format!(", every {}th waiting one abandoned", cancel) } else { String::new() });
    // at most n - 1 different blocks are written
    let ops = |i: usize| -> Vec<(Loc, usize)> {
        let p = |k: usize| place(0, k);
        match pattern {
            0 => vec![(p(i), 0)],
            1 => vec![(p(0), 0)],
            2 => vec![(p(0), if n > 1 { 1 } else { 0 })],
            3 => vec![(p(0), if n > 1 && i % 3 == 1 { 1 } else { 0 }), (p(1 + i), 0)],
            4 => vec![(p(i % 2), if i % 5 == 2 && n > 2 { 1 } else { 0 }), (p((i + 1) % 2), 0)],
            5 => vec![(p(i % (n + 1)), 0), (p((i + 1) % (n + 1)), 0)],
            _ => vec![(p(i % (2 * n)), if i % (2 * n) < n - 1 { 1 + i % 2 } else { 0 }), (p((i * 7 + 3) % (3 * n)), 0)],
        }
    };
    let medium = Rc::new(Medium { wrong: RefCell::new(None), latency: pattern % 2 == 0, started: RefCell::new(BTreeSet::new()) });
    sv::set_device(Some(medium.clone()));
    let pool = ch.must("creating a buffer pool", || Pool::new(SIZE, n))?.map_err(|e| Stop::Fail("create".into(), format!("creating a buffer pool of {}: {}", n, e)))?;
    let pool: &'static Pool = Box::leak(Box::new(pool));
    let sh = Rc::new(Shared { pool, held: Default::default(), values: Default::default(), wrong: Default::default(), finished: RefCell::new(0) });
    let mut fs: Vec<Option<Pin<Box<dyn Future<Output = ()>>>>> = (0..t).map(|i| Some(Box::pin(one_task(sh.clone(), i, ops(i))) as Pin<Box<dyn Future<Output = ()>>>)).collect();
    let flags: Vec<Arc<Flag>> = (0..t).map(|_| Arc::new(Flag(AtomicBool::new(true)))).collect();
    let wakers: Vec<Waker> = flags.iter().map(|f| Waker::from(f.clone())).collect();
    let mut steps = 0usize; let mut last = 0usize; let mut ran = vec![0usize; t];
    let r: Res = (|| {
        loop {
            steps += 1;
            if steps > 200_000 { return fail(format!("{}: the tasks run without ever finishing", what())); }
            let runnable: Vec<usize> = (0..t).filter(|&i| fs[i].is_some() && flags[i].0.load(Ordering::Relaxed)).collect();
            if runnable.is_empty() {
                let waiting = fs.iter().filter(|f| f.is_some()).count();
                if waiting == 0 { return Ok(()); }
                if safety { return Ok(()); }
                return fail(format!("{}: {} of the tasks wait forever", what(), waiting));
            }
            let i = match policy { 0 => *runnable.iter().find(|i| **i > last).unwrap_or(&runnable[0]), 1 => runnable[runnable.len() - 1], 2 => runnable[0], _ => runnable[((steps as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 40) as usize % runnable.len()] };
            // every schedule is fair: no task that could go on is left behind for ever
            let i = runnable.iter().copied().find(|&j| steps - ran[j] > 40 * t + 40).unwrap_or(i);
            ran[i] = steps;
            last = i; if ch.verbose && (steps < 300 || steps % 10000 < 12) { println!("    step {} runnable {:?}: task {}", steps, runnable, i); }
            flags[i].0.store(false, Ordering::Relaxed);
            let mut cx = Context::from_waker(&wakers[i]);
            let f = fs[i].as_mut().unwrap();
            match ch.call(|| f.as_mut().poll(&mut cx)) {
                Err(m) => { std::mem::forget(fs[i].take()); return fail(format!("{}: task {} panicked: {}", what(), i, m)); }
                Ok(Poll::Ready(())) => fs[i] = None,
                Ok(Poll::Pending) => {
                    // a task that waits, holding nothing, in its first access
                    if cancel > 0 && i % cancel == 1 && pattern == 0 && !flags[i].0.load(Ordering::Relaxed) {
                        let f = fs[i].take(); *sh.finished.borrow_mut() += 1;
                        match ch.call(move || drop(f)) { Ok(()) => {} Err(m) => return fail(format!("{}: abandoning a request panicked: {}", what(), m)) }
                    }
                }
            }
            if let Some(w) = sh.wrong.borrow_mut().take() { if safety { return fail(format!("{}: {}", what(), w)); } }
        }
    })();
    let mut r = r;
    if r.is_ok() && fs.iter().all(|f| f.is_none()) {
        // every buffer is available again
        r = (|| {
            let values = sh.values.borrow();
            let mut m = M { n, modified: values.iter().map(|(l, v)| (*l, *v)).collect(), resident: BTreeSet::new(), counter: 0 };
            let mods: Vec<Loc> = m.modified.keys().copied().collect();
            let mut held: Vec<(Loc, H)> = vec![];
            for l in mods.iter().copied().chain((0..n.saturating_sub(mods.len())).map(|i| place(0, 5000 + i))) { let h = access(ch, pool, &mut m, &held, l, 0, &what)?; held.push((l, h)); }
            for (_, h) in held { release(ch, h, &what)?; }
            Ok(())
        })();
    }
    for f in fs { if f.is_some() { std::mem::forget(f) } }
    sv::set_device(None);
    if let Some(w) = medium.wrong.borrow_mut().take() { return fail(w); }
    if r.is_ok() && *sh.finished.borrow() == t { drop(unsafe { Box::from_raw(pool as *const Pool as *mut Pool) }); }
    ch.state(what().as_bytes());
    ch.sample(&what);
    r
}

/// k handles to one block at once, let go in some order, while others are accessed.
fn holders(ch: &mut Ch, ks: &[usize]) -> Res {
    let k = *ch.pick(ks);
    let n = ch.range(1, 4);
    // the block was modified before or not; 2: initialized
    let before = ch.choose(3);
    let order = ch.choose(3);
    let test_at = ch.choose(4);
    let writer = ch.flag();
    let what = || format!("{} buffers, {} handles to one block{}, released in order {}, {}others accessed after {} of them", n, k, ["", " that is modified", " that is initialized"][before], order, if writer { "with a writer waiting, " } else { "" }, ["1", "half", "all but one", "none"][test_at]);
    if before > 0 && n == 1 { return Err(Stop::Skip); }
    let medium = Rc::new(Medium { wrong: RefCell::new(None), latency: k % 2 == 1, started: RefCell::new(BTreeSet::new()) });
    sv::set_device(Some(medium.clone()));
    let pool = ch.must("creating a buffer pool", || Pool::new(SIZE, n))?.map_err(|e| Stop::Fail("create".into(), format!("creating a buffer pool of {}: {}", n, e)))?;
    let pool = &*Box::leak(Box::new(pool));
    let mut m = M { n, modified: BTreeMap::new(), resident: BTreeSet::new(), counter: 0 };
    let l = place(0, 0);
    let r: Res = (|| {
        if before > 0 { let h = access(ch, pool, &mut m, &[], l, before, &what)?; release(ch, h, &what)?; }
        let mut held: std::collections::VecDeque<H> = Default::default();
        for _ in 0..k { held.push_back(access(ch, pool, &mut m, &[], l, 0, &what)?); }
        // one more, for writing, has to wait for all of them
        let mut w: Option<Pin<Box<dyn Future<Output = H>>>> = None;
        if writer && n > 1 {
            match ch.must(&what(), || drive(Box::pin(get(pool, l, 1))))? { Ok(_) => return fail(format!("{}: block {:?} is written to while it is held for reading", what(), l)), Err(f) => w = Some(f) }
        }
        let at = match test_at { 0 => 1, 1 => k / 2, 2 => k - 1, _ => 0 };
        for i in 0..k {
            if i == at {
                // the others turn over; with one buffer only, they have to wait
                for j in 0..n + 2 {
                    let x = place(0, 1 + j);
                    if n == 1 {
                        match ch.must(&what(), || drive(Box::pin(get(pool, x, 0))))? { Ok(_) => return fail(format!("{}: another block gets the only buffer, which is held", what())), Err(f) => ch.must("abandoning", || drop(f))? }
                    } else { let h = access(ch, pool, &mut m, &[], x, 0, &what)?; ensure!(h.bytes().as_ptr() != held[0].bytes().as_ptr(), "{}: blocks {:?} and {:?} share the same memory", what(), l, x); release(ch, h, &what)?; }
                    for h in &held { ensure!(h.bytes() == &m.want(l)[..], "{}: the content of block {:?}, which is held, changed to {:02x?}", what(), l, h.bytes()); }
                }
            }
            let h = match order { 0 => held.pop_front(), 1 => held.pop_back(), _ => if i % 2 == 0 { held.pop_front() } else { held.pop_back() } }.unwrap();
            release(ch, h, &what)?;
            if let (Some(f), false) = (&mut w, held.is_empty()) {
                let mut cx = Context::from_waker(std::task::Waker::noop());
                if k < 300 || i % 64 == 0 { if let Poll::Ready(_) = ch.must(&what(), || f.as_mut().poll(&mut cx))? { return fail(format!("{}: block {:?} is written to while it is held for reading by {}", what(), l, held.len())); } }
            }
        }
        if let Some(mut f) = w {
            let mut cx = Context::from_waker(std::task::Waker::noop());
            let mut done = None;
            for _ in 0..20 { if let Poll::Ready(h) = ch.must(&what(), || f.as_mut().poll(&mut cx))? { done = Some(h); break; } }
            drop(f);
            let mut h = match done { Some(h) => h, None => return fail(format!("{}: the writer waits for ever", what())) };
            ensure!(h.bytes() == &m.want(l)[..], "{}: the writer finds {:02x?}", what(), h.bytes());
            if let H::W(w) = &mut h { let b = written(l, 77); w.bytes_mut().copy_from_slice(&b); m.modified.insert(l, b); }
            release(ch, h, &what)?;
        }
        // every buffer is available again
        let mut held: Vec<(Loc, H)> = vec![];
        let mods: Vec<Loc> = m.modified.keys().copied().collect();
        for x in mods.iter().copied().chain((0..n - mods.len()).map(|i| place(0, 500 + i))) { let h = access(ch, pool, &mut m, &held, x, 0, &what)?; held.push((x, h)); }
        for (_, h) in held { release(ch, h, &what)?; }
        Ok(())
    })();
    sv::set_device(None);
    if let Some(w) = medium.wrong.borrow_mut().take() { return fail(w); }
    if r.is_ok() { drop(unsafe { Box::from_raw(pool as *const Pool as *mut Pool) }); }
    ch.state(what().as_bytes());
    ch.sample(&what);
    r
}

/// Pools of many buffers: n blocks held at once, some written, then replaced by others except the written ones.
fn huge(ch: &mut Ch, ns: &[usize]) -> Res {
    let n = *ch.pick(ns);
    let arrangement = ch.choose(4);
    let backwards = ch.flag();
    let writes = *ch.pick(&[0usize, 1, n / 2, n - 1]);
    let what = || format!("{} buffers, as many blocks (arrangement {}{}), {} of them written", n, arrangement, if backwards { ", in reverse" } else { "" }, writes);
    let medium = Rc::new(Medium { wrong: RefCell::new(None), latency: false, started: RefCell::new(BTreeSet::new()) });
    sv::set_device(Some(medium.clone()));
    let pool = ch.must("creating a buffer pool", || Pool::new(SIZE, n))?.map_err(|e| Stop::Fail("create".into(), format!("creating a buffer pool of {}: {}", n, e)))?;
    let pool = &*Box::leak(Box::new(pool));
    let mut m = M { n, modified: BTreeMap::new(), resident: BTreeSet::new(), counter: 0 };
    let blocks = |round: usize| -> Vec<Loc> { let mut v: Vec<Loc> = (0..n).map(|i| place(arrangement, round * (n + 64) + i)).collect(); if backwards { v.reverse() } v };
    let kind = |i: usize| if writes > 0 && i % (n / writes) == 0 && i / (n / writes) < writes { 1 } else { 0 };
    let r: Res = (|| {
        // all at once
        let first = blocks(0);
        let mut held: Vec<(Loc, H)> = vec![];
        let all = |ch: &mut Ch, m: &mut M, ls: &[Loc], kinds: &dyn Fn(usize) -> usize, held: &mut Vec<(Loc, H<'static>)>| -> Res {
            for (i, l) in ls.iter().enumerate() { let h = access(ch, unsafe { &*(pool as *const Pool) }, m, &[], *l, kinds(i), &what)?; held.push((*l, h)); }
            let mut ptrs: Vec<(usize, Loc)> = held.iter().map(|h| (h.1.bytes().as_ptr() as usize, h.0)).collect(); ptrs.sort();
            for w in ptrs.windows(2) { ensure!(w[0].0 + SIZE <= w[1].0, "{}: blocks {:?} and {:?} share memory", what(), w[0].1, w[1].1); }
            for (l, h) in held.iter() { ensure!(h.bytes() == &m.want(*l)[..], "{}: block {:?}, which is held, contains {:02x?} instead of {:02x?}", what(), l, h.bytes(), m.want(*l)); }
            Ok(())
        };
        all(ch, &mut m, &first, &kind, &mut held)?;
        for (_, h) in held.drain(..) { release(ch, h, &what)?; }
        // the written ones together with new ones
        let mods: Vec<Loc> = m.modified.keys().copied().collect();
        ensure!(mods.len() == writes, "harness: {} of {}", mods.len(), writes);
        let second: Vec<Loc> = mods.iter().copied().chain(blocks(1).into_iter().take(n - mods.len())).collect();
        all(ch, &mut m, &second, &|_| 0, &mut held)?;
        for (_, h) in held.drain(..).rev() { release(ch, h, &what)?; }
        // one after the other
        if writes < n { for l in first { let h = access(ch, pool, &mut m, &[], l, 0, &what)?; release(ch, h, &what)?; } }
        Ok(())
    })();
    sv::set_device(None);
    if let Some(w) = medium.wrong.borrow_mut().take() { return fail(w); }
    if r.is_ok() { drop(unsafe { Box::from_raw(pool as *const Pool as *mut Pool) }); }
    ch.state(what().as_bytes());
    ch.sample(&what);
    r
}

/// Blocks of all sizes. `Sized` fills and checks all bytes of small blocks, and the surroundings of powers of two of large ones.
struct Sized { size: usize, edges: Vec<usize>, wrong: RefCell<Option<String>> }
impl Sized {
    fn new(size: usize, whole: usize) -> Sized {
        let edges = if size <= whole { (0..size).collect() } else {
            let mut v = vec![];
            let mut k = 1usize; while k < size { for d in 0..3 { v.push(k - 1 + d); v.push(size - k - 1 + d); v.push(size / 2 / k * k + d) } k *= 2 }
            v.push(0); v.push(size - 1); v.retain(|i| *i < size); v.sort(); v.dedup(); v };
        Sized { size, edges, wrong: RefCell::new(None) }
    }
    fn byte(l: Loc, round: u8, i: usize) -> u8 { let x = (l.1 ^ (l.0 as u64) << 56 ^ (round as u64) << 48 ^ i as u64).wrapping_mul(0x9E3779B97F4A7C15); ((x ^ x >> 31).wrapping_mul(0xBF58476D1CE4E5B9) >> 40) as u8 | 1 }
    fn fill(&self, l: Loc, round: u8, b: &mut [u8]) { for &i in &self.edges { b[i] = Sized::byte(l, round, i) } }
    fn check(&self, l: Loc, round: u8, b: &[u8]) -> Option<usize> { self.edges.iter().copied().find(|&i| b[i] != Sized::byte(l, round, i)) }
}
impl Device for Sized {
    fn poll_fetch(&self, volume: u8, offset: u64, buffer: &mut [u8], _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        if buffer.len() != self.size { *self.wrong.borrow_mut() = Some(format!("fetch into a buffer of {} bytes for blocks of {}", buffer.len(), self.size)); return Poll::Ready(Ok(())); }
        self.fill((volume, offset), 0, buffer);
        Poll::Ready(Ok(()))
    }
    fn poll_point(&self, _name: &'static str, _first: bool, _cx: &mut Context<'_>) -> Poll<()> { Poll::Ready(()) }
}
fn sizes(ch: &mut Ch, whole: usize, large: bool) -> Res {
    // (size of a block, number of buffers)
    let (size, n) = if large { *ch.pick(&[(1usize << 26, 66usize), (1 << 31, 3), (1 << 32, 2), (1 << 20, 4099), (1 << 16, 65540)]) } else { let k = ch.choose(if whole > 1 << 20 { 25 } else { 23 }); (1 << k, ch.range(1, if k > 20 { 2 } else { 3 })) };
    let mut dev = Sized::new(size, whole);
    if n > 5000 { dev.edges = vec![0, 1, size - 1]; }
    let dev = Rc::new(dev);
    sv::set_device(Some(dev.clone()));
    let pool = ch.must("creating a buffer pool", || Pool::new(size, n))?.map_err(|e| Stop::Fail("create".into(), format!("creating a buffer pool of {} blocks of {} bytes: {}", n, size, e)))?;
    ensure!(pool.total_size() == size * n, "a pool of {} blocks of {} bytes has {} bytes", n, size, pool.total_size());
    let pool = &*Box::leak(Box::new(pool));
    let mut now: BTreeMap<Loc, u8> = BTreeMap::new();
    let what = || format!("{} buffers of {} bytes", n, size);
    fn one<'a>(ch: &mut Ch, pool: &'a Pool, dev: &Sized, now: &mut BTreeMap<Loc, u8>, l: Loc, kind: usize, what: &dyn Fn() -> String) -> Result<H<'a>, Stop> {
        let r = ch.must(&what(), || drive(Box::pin(get(pool, l, kind))))?;
        let mut h = match r { Ok(h) => h, Err(f) => { std::mem::forget(f); return fail(format!("{}: the request for block {:?} does not succeed", what(), l)) } };
        ensure!(h.bytes().len() == dev.size, "{}: a handle gives {} bytes", what(), h.bytes().len());
        let round = now.get(&l).copied().unwrap_or(0);
        if let Some(i) = dev.check(l, round, h.bytes()) { ensure!(kind == 2 && h.bytes().iter().all(|b| *b == 0), "{}: byte {} of block {:?} is {:02x} instead of {:02x}{}", what(), i, l, h.bytes()[i], Sized::byte(l, round, i), if kind == 2 { ", and the block that is initialized is not empty" } else { "" }); }
        if let H::W(w) = &mut h { dev.fill(l, round + 1, w.bytes_mut()); now.insert(l, round + 1); }
        Ok(h)
    }
    let r: Res = (|| {
        if large {
            let kind = ch.choose(2);
            let mut held: Vec<(Loc, H)> = vec![];
            for i in 0..n { let l = place(1, i); held.push((l, one(ch, pool, &dev, &mut now, l, kind, &what)?)); }
            for (l, h) in held.iter() { if let Some(i) = dev.check(*l, kind as u8, h.bytes()) { return fail(format!("{}, all held: byte {} of block {:?} is {:02x}", what(), i, l, h.bytes()[i])) } }
            for (_, h) in held { release(ch, h, &what)?; }
        } else {
            // the number of blocks written must leave a buffer
            for _ in 0..4 {
                let (kind, loc) = (ch.choose(3), ch.choose(3));
                let l = (loc as u8, loc as u64 * size as u64);
                if kind > 0 && !now.contains_key(&l) && now.len() + 1 >= n { return Err(Stop::Skip); }
                let h = one(ch, pool, &dev, &mut now, l, kind, &what)?;
                release(ch, h, &what)?;
            }
        }
        Ok(())
    })();
    sv::set_device(None);
    if let Some(w) = dev.wrong.borrow_mut().take() { return fail(w); }
    if !matches!(r, Err(Stop::Fail(..))) { drop(unsafe { Box::from_raw(pool as *const Pool as *mut Pool) }); }
    ch.state(format!("{} {} {:?}", size, n, now).as_bytes());
    ch.sample(&what);
    r
}

fn suites(th: bool, safety: bool) -> Vec<Suite> {
    let mut ns: Vec<usize> = (1..=if th { 70 } else { 20 }).collect(); ns.extend([31, 32, 33, 63, 64, 65, 100, 127, 128, 129]); if th { ns.extend([200, 255, 256, 257]) } ns.sort(); ns.dedup();
    let mut ts: Vec<usize> = (1..=if th { 70 } else { 20 }).collect(); ts.extend([31, 32, 33, 64, 65, 100]); if th { ts.extend([128, 129, 255, 256, 257]) } ts.sort(); ts.dedup();
    let mut ks: Vec<usize> = (1..=if th { 300 } else { 36 }).collect(); ks.extend([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 65535, 65536, 65537]); if th { ks.extend([4095, 4096, 4097, 32767, 32768]) } ks.sort(); ks.dedup();
    let mut hs: Vec<usize> = vec![1, 2, 3, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000]; if th { hs.extend([131071, 131072, 131073, 262145]) }
    let mut v = vec![
        Suite::new("large-pools", &format!("pools of each of {} sizes up to {}; n to 3n + 1 blocks in 4 arrangements (many volumes, high addresses, one address bit) accessed in 4 orders, up to n - 1 of them written in 3 ways, earlier ones accessed again or not; then up to n held at once, and others accessed; then everything read again", ns.len(), ns.last().unwrap()), move |ch| { let _t = FakeTime::new(0); histories(ch, &ns, safety) }),
        Suite::new("huge-pools", &format!("pools of {} sizes up to {}, as many blocks in 4 arrangements held at once, up to all but one of them written, then together with as many others as fit, then one after the other", hs.len(), hs.last().unwrap()), move |ch| { let _t = FakeTime::new(0); huge(ch, &hs) }),
        Suite::new("many-holders", &format!("pools of 1..4 buffers; each of {} numbers up to {} of handles to one block at once, clean, modified or initialized before, let go in 3 orders, a writer waiting or not, other blocks accessed before, between and at the end", ks.len(), ks.last().unwrap()), move |ch| { let _t = FakeTime::new(0); holders(ch, &ks) }),
        Suite::new("crowds", &format!("pools of 6 sizes up to 33, each of {} numbers of tasks up to {} with accesses of 7 patterns (each its own block, all the same, mixed) under 4 scheduling policies, with waiting requests abandoned or not", ts.len(), ts.last().unwrap()), move |ch| { let _t = FakeTime::new(0); crowd(ch, &ts, safety) }),
    ];
    if safety {
        let whole = if th { 1 << 24 } else { 1 << 16 };
        v.push(Suite::new("block-sizes", &format!("blocks of each power of two from 1 byte to {} MB (all bytes checked up to {} KB, otherwise those around powers of two), 1 to 3 buffers: all sequences of four reads, writes and initializations of three blocks", if th { 16 } else { 4 }, whole >> 10), move |ch| { let _t = FakeTime::new(0); sizes(ch, whole, false) }));
        v.push(Suite::new("large-memory", "pools of 4 to 8 GB with blocks of 64 KB to 4 GB, all buffers held at once for reading or writing, the bytes around powers of two of each block checked", move |ch| { let _t = FakeTime::new(0); sizes(ch, 0, true) }));
    }
    v
}

pub fn c19(th: bool) -> Vec<Suite> { suites(th, true) }
pub fn c20(th: bool) -> Vec<Suite> { suites(th, false) }
