//! Buffers fenced by inaccessible pages: an access outside the buffer faults or damages a canary.
use std::cell::RefCell;

pub struct Arena { base: *mut u8, len: usize }
const PG: usize = 4096;
const CANARY: u8 = 0xC7;
impl Arena {
    fn new(len: usize) -> Arena {
        let len = (len + PG - 1) / PG * PG;
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), len + 2 * PG, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(p as isize != -1);
            let base = p.add(PG);
            assert!(libc::mprotect(base as *mut _, len, libc::PROT_READ | libc::PROT_WRITE) == 0);
            Arena { base, len }
        }
    }
}
thread_local! { static ARENAS: RefCell<Vec<Arena>> = RefCell::new(vec![]); }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Place {
    /// last byte is directly before an inaccessible page
    End,
    /// first byte is directly after an inaccessible page
    Start,
    /// starts at a page start plus this offset
    Offset(usize),
}

/// Runs `f` on a fenced buffer of `len` bytes filled with `fill`; Err when bytes around the buffer were modified.
pub fn with_buf<R>(len: usize, place: Place, fill: u8, f: impl FnOnce(&mut [u8]) -> R) -> Result<R, String> {
    let mut a = ARENAS.with(|v| v.borrow_mut().pop()).unwrap_or_else(|| Arena::new(64 * 1024));
    if a.len < len + 512 { a = Arena::new(len + 512); }
    let off = match place { Place::End => a.len - len, Place::Start => 0, Place::Offset(o) => o };
    const W: usize = 256;
    let lo = off.saturating_sub(W);
    let hi = (off + len + W).min(a.len);
    unsafe {
        let area = std::slice::from_raw_parts_mut(a.base, a.len);
        area[lo..off].fill(CANARY);
        area[off + len..hi].fill(CANARY);
        area[off..off + len].fill(fill);
    }
    let r = f(unsafe { std::slice::from_raw_parts_mut(a.base.add(off), len) });
    let area = unsafe { std::slice::from_raw_parts(a.base, a.len) };
    let bad = area[lo..off].iter().rposition(|b| *b != CANARY).map(|i| format!("byte {} before the buffer was modified", off - lo - i))
        .or_else(|| area[off + len..hi].iter().position(|b| *b != CANARY).map(|i| format!("byte {} past the end of the buffer was modified", i + 1)));
    ARENAS.with(|v| v.borrow_mut().push(a));
    match bad { None => Ok(r), Some(m) => Err(m) }
}
