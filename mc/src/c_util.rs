//! C21 storage addresses and volume ids, C22 arithmetic helpers.
use crate::engine::*;
use crate::ensure;
use crate::guard::{with_buf, Place};
use cathlamet::core::util;

#[cfg(feature = "storage")]
use cathlamet::storage::verif::arithmetic as sa;

/// values at and around every power of two, zero and the limit
fn around(bits: u32, spread: u128) -> Vec<u128> {
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let mut v = vec![];
    for d in 0..=spread { v.push(d); v.push(max - d); }
    for b in 0..bits { let p = 1u128 << b; for d in 0..=spread { v.push(p.wrapping_add(d).min(max)); v.push(p.saturating_sub(d)); } }
    // a value with mixed digits at every width
    for b in 1..=bits { v.push(0x9E3779B97F4A7C15F39CC0605CEDC835u128 >> (128 - b)); }
    v.retain(|x| *x <= max);
    v.sort(); v.dedup(); v
}

/// least multiple of `a` not below `v`, when it is representable
fn round_up(v: u128, a: u128, max: u128) -> Option<u128> {
    let r = v % a;
    if r == 0 { Some(v) } else { v.checked_add(a - r).filter(|x| *x <= max) }
}

type AlignFn = fn(u128, u128) -> u128;
fn align_fns() -> Vec<(&'static str, u32, AlignFn)> {
    let mut v: Vec<(&'static str, u32, AlignFn)> = vec![("core::util::align", 64, |v, a| util::align(v as usize, a as usize) as u128)];
    #[cfg(feature = "storage")]
    v.extend::<Vec<(&'static str, u32, AlignFn)>>(vec![
        ("align_u8", 8, |v, a| sa::align_u8(v as u8, a as u8) as u128),
        ("align_u16", 16, |v, a| sa::align_u16(v as u16, a as u16) as u128),
        ("align_u32", 32, |v, a| sa::align_u32(v as u32, a as u32) as u128),
        ("align_u64", 64, |v, a| sa::align_u64(v as u64, a as u64) as u128),
        ("align_u128", 128, |v, a| sa::align_u128(v, a)),
        ("align_usize", 64, |v, a| sa::align_usize(v as usize, a as usize) as u128),
    ]);
    v
}
fn check_align(ch: &mut Ch, f: &(&'static str, u32, AlignFn), v: u128, a: u128) -> Res {
    let max = if f.1 == 128 { u128::MAX } else { (1u128 << f.1) - 1 };
    let want = match round_up(v, a, max) { Some(w) => w, None => return Err(Stop::Skip) };
    let got = ch.must(&format!("{}({}, {})", f.0, v, a), || (f.2)(v, a))?;
    let mut st = f.0.as_bytes().to_vec(); st.extend_from_slice(&got.to_le_bytes()); st.push(a.trailing_zeros() as u8);
    ch.state(&st);
    ch.sample(|| format!("{}({}, {}) = {}", f.0, v, a, got));
    ensure!(got == want, "{}({}, {}) is {}, not the least multiple {} of the alignment", f.0, v, a, got, want);
    Ok(())
}

fn raw<T: Copy + PartialEq + std::fmt::Debug>(ch: &mut Ch, name: &str, bytes_of: fn(T) -> Vec<u8>, values: &[T], maxlen: usize) -> Res {
    let size = std::mem::size_of::<T>();
    let len = ch.range(0, maxlen);
    let place = *ch.pick(&[Place::End, Place::Start, Place::Offset(1024 + 1), Place::Offset(1024 + 4), Place::Offset(1024 + 8 + 7)]);
    let offs = len + 3;
    let o = ch.choose(offs + 2);
    let offset = if o < offs { o } else if o == offs { usize::MAX / 2 } else { usize::MAX - size + 1 };
    let fill = if ch.flag() { 0xA5 } else { 0 };
    let value = *ch.pick(values);
    let what = format!("{} at offset {} of a {}-byte buffer ({:?})", name, offset, len, place);
    let fits = offset.checked_add(size).map_or(false, |e| e <= len);
    let (mut wrote, mut read) = (Err(String::new()), Err(String::new()));
    let r = with_buf(len, place, fill, |b| {
        wrote = ch.call(|| util::set_value(b, offset, value));
        let copy = b.to_vec();
        read = ch.call(|| util::get_value::<T>(b, offset));
        (copy, b.to_vec())
    });
    let (after, after2) = match r { Ok(x) => x, Err(m) => return fail(format!("{}: {}", what, m)) };
    ch.state(&after);
    ch.sample(|| format!("{}: wrote {:?}, buffer {:?}, read {:?}", what, value, after, read));
    let mut want = vec![fill; len];
    if fits { want[offset..offset + size].copy_from_slice(&bytes_of(value)); }
    if fits {
        if let Err(m) = &wrote { return fail(format!("storing {}: panicked: {}", what, m)); }
        match &read { Err(m) => return fail(format!("reading {}: panicked: {}", what, m)), Ok(v) => ensure!(*v == value, "{}: stored {:?} and read back {:?}", what, value, v) }
    } else {
        ensure!(wrote.is_err(), "storing {} was not refused", what);
        ensure!(read.is_err(), "reading {} was not refused", what);
    }
    ensure!(after == want, "storing {} of {:?}: the buffer is {:?} instead of {:?}", what, value, after, want);
    ensure!(after2 == want, "reading {} changed the buffer", what);
    Ok(())
}

#[derive(Debug)]
struct Inner(&'static str);
impl std::fmt::Display for Inner { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.0) } }
impl std::error::Error for Inner {}

pub fn c22(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    #[cfg(feature = "storage")]
    s.push(Suite::new("align-narrow", "8 and 16 bits: all values x all alignments", |ch| {
        let f = align_fns()[1 + ch.choose(2)];
        let a = 1u128 << ch.choose(f.1 as usize);
        let v = ch.choose(1 << f.1) as u128;
        check_align(ch, &f, v, a)
    }));
    let spread = if th { 40 } else { 9 };
    let ws: Vec<(u32, Vec<u128>)> = [32, 64, 128].iter().map(|b| (*b, around(*b, spread))).collect();
    s.push(Suite::new("align-wide", "32, 64 and 128 bits: all alignments x values around every power of two, every sum of two powers, zero and the limit", move |ch| {
        let fs: Vec<_> = align_fns().into_iter().filter(|f| f.1 >= 32).collect();
        let f = *ch.pick(&fs);
        let a = 1u128 << ch.choose(f.1 as usize);
        let v = if ch.flag() { let w = &ws.iter().find(|w| w.0 == f.1).unwrap().1; *ch.pick(w) } else {
            // multiples of the alignment and their neighbours
            let max = if f.1 == 128 { u128::MAX } else { (1u128 << f.1) - 1 };
            let k = [0u128, 1, 2, 3, 7, 100, max / a, max / a / 2][ch.choose(8)];
            let m = match k.checked_mul(a) { Some(m) if m <= max => m, _ => return Err(Stop::Skip) };
            match ch.choose(3) { 0 => m, 1 => m.saturating_sub(1), _ => if m < max { m + 1 } else { m } }
        };
        check_align(ch, &f, v, a)
    }));
    s.push(Suite::new("align-misuse", "core::util::align with alignments that are no power of two: refused", |ch| {
        let a = *ch.pick(&[0usize, 3, 5, 6, 7, 9, 12, 100, 0xff, usize::MAX, (1 << 63) + 1]);
        let v = *ch.pick(&[0usize, 1, 8, 100]);
        let r = ch.call(|| util::align(v, a));
        ch.state(format!("{} {}", a, v).as_bytes());
        ensure!(r.is_err(), "align({}, {}) answered {:?} for an alignment that is no power of two", v, a, r);
        Ok(())
    }));
    let w = around(64, 300);
    s.push(Suite::new("bits", "required_bits and log2 of all values below 2^17 and values around every power of two", move |ch| {
        let v = if ch.flag() { *ch.pick(&w) as usize } else { ch.choose(1 << 17) };
        let mut need = 0; let mut x = v; while x > 0 { need += 1; x /= 2; }
        let got = ch.must(&format!("required_bits({})", v), || util::required_bits(v))?;
        ch.state(&v.to_le_bytes());
        ch.sample(|| format!("required_bits({}) = {}", v, got));
        ensure!(got == need, "required_bits({}) is {} and not {}", v, got, need);
        let l = ch.call(|| util::log2(v));
        let pow = need > 0 && v == 1usize << (need - 1);
        if pow { ensure!(l == Ok(need as u32 - 1), "log2({}) is {:?}", v, l) } else { ensure!(l.is_err(), "log2({}) is {:?} although the value is no power of two", v, l) }
        Ok(())
    }));
    #[cfg(feature = "storage")]
    s.push(Suite::new("file-blocks", "calc_file_blocks: all sizes up to 600 x block sizes up to 40; values around powers of two x block sizes around powers of two", |ch| {
        let (size, block) = if ch.flag() { (ch.choose(601) as u64, ch.range(1, 40) as u64) } else {
            let (w, b) = (around(64, 2), around(64, 1));
            (*ch.pick(&w) as u64, *ch.pick(&b[1..]) as u64)
        };
        let got = ch.must(&format!("calc_file_blocks({}, {})", size, block), || sa::calc_file_blocks(size, block))?;
        ch.state(&[got.to_le_bytes(), block.to_le_bytes()].concat());
        ch.sample(|| format!("calc_file_blocks({}, {}) = {}", size, block, got));
        // the least number of blocks that hold `size` bytes
        let enough = got as u128 * block as u128 >= size as u128;
        let least = got == 0 || ((got as u128 - 1) * block as u128) < size as u128;
        ensure!(enough && least, "calc_file_blocks({}, {}) is {}: {}", size, block, got, if enough { "fewer would do" } else { "too few" });
        Ok(())
    }));
    let m = if th { 40 } else { 24 };
    s.push(Suite::new("raw-values", &format!("values of 1, 2, 4, 8 and 16 bytes (integers, floats, bool, char, byte arrays) x buffers of 0..={} bytes x every offset in and out of range x 5 placements x 2 fills", m), move |ch| {
        match ch.choose(9) {
            0 => raw::<u8>(ch, "u8", |v| v.to_ne_bytes().to_vec(), &[0, 1, 0xff], m),
            1 => raw::<u16>(ch, "u16", |v| v.to_ne_bytes().to_vec(), &[0, 0x1234, 0xffff], m),
            2 => raw::<u32>(ch, "u32", |v| v.to_ne_bytes().to_vec(), &[0x12345678, u32::MAX], m),
            3 => raw::<u64>(ch, "u64", |v| v.to_ne_bytes().to_vec(), &[0x123456789ABCDEF0, u64::MAX], m),
            4 => raw::<u128>(ch, "u128", |v| v.to_ne_bytes().to_vec(), &[0x123456789ABCDEF00FEDCBA987654321, 1 << 127], m),
            5 => raw::<f64>(ch, "f64", |v| v.to_ne_bytes().to_vec(), &[1.5, f64::MIN_POSITIVE, f64::INFINITY], m),
            6 => raw::<char>(ch, "char", |v| (v as u32).to_ne_bytes().to_vec(), &['a', '\u{10FFFF}'], m),
            7 => raw::<[u8; 3]>(ch, "[u8; 3]", |v| v.to_vec(), &[[1, 2, 3]], m),
            _ => raw::<i16>(ch, "i16", |v| v.to_ne_bytes().to_vec(), &[-2, i16::MIN], m),
        }
    }));
    s.push(Suite::new("errors", "error values made from 6 messages in 3 ways: description", |ch| {
        let m = *ch.pick(&["", "a", "disk full", "two\nlines", "é€😀", "{}"]);
        let e = match ch.choose(3) {
            0 => util::Error::new(m),
            1 => util::Error::from_error(&Inner(m)),
            _ => util::Error::from(std::io::Error::new(std::io::ErrorKind::Other, m)),
        };
        ch.state(m.as_bytes());
        let shown = ch.must("displaying an error", || e.to_string())?;
        ensure!(shown == m, "an error made from the message {:?} displays as {:?}", m, shown);
        ch.must("describing an error", || { #[allow(deprecated)] let d = std::error::Error::description(&e).to_string(); #[allow(deprecated)] let c = std::error::Error::cause(&e).map(|c| c.to_string()); (d, c) })?;
        Ok(())
    }));
    s
}

#[cfg(feature = "storage")]
pub fn c21(th: bool) -> Vec<Suite> {
    use cathlamet::storage::verif as sv;
    let mut s = vec![];
    let offs: Vec<u64> = around(56, if th { 20 } else { 4 }).into_iter().map(|x| x as u64).collect();
    let o1 = offs.clone();
    s.push(Suite::new("pack", "all 256 volumes x offsets around every power of two, zero and the limit of 56 bits", move |ch| {
        let i = ch.choose(256) as u8;
        let o = *ch.pick(&o1);
        let (repr, i2, o2) = ch.must(&format!("location ({}, {})", i, o), || sv::location(i, o))?;
        ch.state(&repr.to_le_bytes());
        ch.sample(|| format!("({}, {}) packs to {:#x}", i, o, repr));
        ensure!((i2, o2) == (i, o), "location ({}, {}) unpacks as ({}, {})", i, o, i2, o2);
        Ok(())
    }));
    s.push(Suite::new("pack-too-big", "all 256 volumes x offsets of more than 56 bits: refused or preserved, never confused", |ch| {
        let i = ch.choose(256) as u8;
        let b = ch.range(56, 63);
        let o = match ch.choose(3) { 0 => 1u64 << b, 1 => (1u64 << b) | 4096, _ => u64::MAX >> (63 - b) };
        let r = ch.call(|| sv::location(i, o));
        ch.state(&[&[i][..], &o.to_le_bytes()].concat());
        if let Ok((_, i2, o2)) = r { ensure!((i2, o2) == (i, o), "location ({}, {:#x}) unpacks as ({}, {:#x})", i, o, i2, o2) }
        Ok(())
    }));
    let few: Vec<u64> = offs.iter().copied().enumerate().filter(|(k, _)| k % 13 == 0).map(|x| x.1).chain([(1 << 56) - 1]).collect();
    s.push(Suite::new("distinct", "all pairs of locations from 11 volumes x offsets around powers of two: equal exactly when volume and offset are", move |ch| {
        const V: &[u8] = &[0, 1, 2, 3, 4, 8, 16, 127, 128, 254, 255];
        let (i, j) = (*ch.pick(V), *ch.pick(V));
        let (a, b) = (*ch.pick(&few), *ch.pick(&few));
        let (eq, ord) = ch.must("comparing locations", || sv::compare_locations((i, a), (j, b)))?;
        ch.state(&[&[i, j][..], &a.to_le_bytes(), &b.to_le_bytes()].concat());
        let same = (i, a) == (j, b);
        ensure!(eq == same && (ord == std::cmp::Ordering::Equal) == same, "locations ({}, {}) and ({}, {}): equal {}, compare {:?}", i, a, j, b, eq, ord);
        Ok(())
    }));
    s.push(Suite::new("volume-ids", "every history of requests for volume ids up to 600 requests: distinct ids from 0, at least 255 of them, afterwards always an error", |ch| {
        let n = ch.choose(601);
        let mut ids = ch.must("making a volume manager", || sv::Ids::new())?;
        let mut seen = vec![];
        let mut errors = 0;
        for k in 0..n {
            match ch.must(&format!("request {} for a volume id", k + 1), || ids.next())? {
                Ok(id) => {
                    ensure!(errors == 0, "request {} hands out volume id {} after the ids were exhausted", k + 1, id);
                    ensure!(!seen.contains(&id), "request {} hands out volume id {} a second time", k + 1, id);
                    ensure!(k > 0 || id == 0, "the first volume id is {}", id);
                    seen.push(id);
                }
                Err(m) => { errors += 1; ensure!(seen.len() >= 255, "request {} fails after {} ids: {}", k + 1, seen.len(), m); }
            }
        }
        ch.state(&[&[errors as u8, (errors / 256) as u8][..], &seen].concat());
        ch.sample(|| format!("{} requests: {} ids, {} errors", n, seen.len(), errors));
        Ok(())
    }));
    s.push(Suite::new("parameters", "default parameters for every number of blocks up to 3000 and around powers of two up to 2^32, with 0, 1, 512, 2048 and 4095 bytes over", |ch| {
        let w: Vec<u64> = around(33, 3).into_iter().map(|x| x as u64).filter(|x| *x <= (1 << 32) + 1).collect();
        let blocks = if ch.flag() { ch.choose(3000) as u64 } else { *ch.pick(&w) };
        let over = *ch.pick(&[0u64, 1, 512, 2048, 4095]);
        let size = blocks * 4096 + over;
        let r = ch.call(|| cathlamet::storage::VolumeParameters::new_with_defaults(size));
        ch.state(&size.to_le_bytes());
        let valid = over == 0 && blocks >= 1 && blocks <= 1 << 32;
        match r {
            Err(m) => ensure!(!valid, "default parameters for a volume of {} blocks of 4096 bytes: {}", blocks, m),
            Ok(p) => {
                ch.sample(|| format!("{:?}", p));
                ensure!(valid, "default parameters are given for a volume of {} bytes, which is no positive number (up to 2^32) of 4096-byte blocks: {:?}", size, p);
                ensure!(p.volume_size == size, "volume size {} became {}", size, p.volume_size);
                ensure!(p.log_block_size == 12, "default block size is 2^{}, not 4096", p.log_block_size);
                ensure!(p.log_file_header_size >= 9 && p.log_file_header_size <= p.log_block_size, "default file header size is 2^{} with blocks of 2^{}", p.log_file_header_size, p.log_block_size);
            }
        }
        Ok(())
    }));
    s
}
