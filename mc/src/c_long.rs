//! C05-C09, C12 at length: one element (string, number, white space, name, digits) of every length up to a bound.
use crate::c_json::*;
use crate::c_marshal::*;
use crate::engine::*;
use crate::json;
use crate::tv::*;
use crate::c_types::*;
use crate::guard::Place;
use crate::ensure;
use cathlamet::core::data_source::IntermediateDataSource;
use cathlamet::core::json::encoder::JsonEncoder;

pub fn lengths(th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=300).collect();
    for k in [512usize, 1024, 2048, 4096, 8192, 16384, 32768, 65536] { v.extend([k - 2, k - 1, k, k + 1, k + 2]) }
    v.extend([1000, 1001, 10000, 10001]);
    if th { v.extend(301..=1100); v.extend([131071, 131072, 131073, 262144, 1048575, 1048576, 1048577]) }
    v.sort(); v.dedup();
    v
}
/// Text of n characters, mostly `fill`, with `odd` at place k.
fn text(n: usize, fill: &[char], k: usize, odd: Option<char>) -> String {
    (0..n).map(|i| if Some(i) == odd.map(|_| k) { odd.unwrap() } else { fill[i % fill.len()] }).collect()
}
const FILLS: &[&[char]] = &[&['a'], &['a', 'b', 'c', 'd', 'e', 'f', 'g'], &['é'], &['€', 'x'], &['😀'], &['"'], &['\n', 'n'], &['\u{1}'], &['\\', '/'], &['0']];
const ODD: &[char] = &['"', '\\', '\u{1}', 'é', '€', '😀', 'Z', '\u{7f}'];
/// A long string: which fill, and one deviating character at the first, last, middle or another place.
fn long_text(ch: &mut Ch, n: usize) -> String {
    let fill = *ch.pick(if n > 4100 { &FILLS[1..5] } else { FILLS });
    if n == 0 { return String::new(); }
    let mut at = vec![0, n / 2, n - 1, n - (n % 4096).min(n - 1) - 1, n.saturating_sub(2)]; at.sort(); at.dedup();
    let k = ch.choose(at.len() + 1);
    if k == 0 { return text(n, fill, 0, None); }
    let o = if n > 70 && n <= 300 { [0, 2, 4, 5, 6][ch.choose(5)] } else if n > 4100 { [0, 5][ch.choose(2)] } else if n > 300 { [0, 2, 5][ch.choose(3)] } else { ch.choose(ODD.len()) };
    text(n, fill, at[k - 1], Some(ODD[o]))
}

pub fn values(th: bool, deepest: usize, f: fn(&mut Ch, &T, &V) -> Res) -> Vec<Suite> {
    let ls = lengths(th);
    let mut s = vec![];
    { let ls = ls.clone();
    s.push(Suite::new("long-strings", &format!("strings of each of {} lengths up to {} (every length up to {}) of 10 fillings, with one of 8 deviating characters at the first, middle, last or another place, alone and between other members", ls.len(), ls.last().unwrap(), if th { 1100 } else { 300 }), move |ch| {
        let n = *ch.pick(&ls);
        let s = long_text(ch, n);
        if ch.flag() { f(ch, &T::Str, &V::Str(s)) } else { f(ch, &T::Struct(vec![("x".into(), T::Prim(P::U8)), ("s".into(), T::Str), ("e".into(), T::Enum(vec![("u".into(), T::Unit), ("v".into(), T::Tuple(vec![T::Str, T::Prim(P::I32)]))]))]), &V::Seq(vec![V::U(255), V::Str(s.clone()), V::Case(1, Box::new(V::Seq(vec![V::Str(s), V::I(-5)])))])) }
    })); }
    s.push(Suite::new("long-names", &format!("structs of one and two members and enums of two cases, of names of each of {} lengths up to {}, of 10 fillings, with one deviating character at the first, middle, last or another place, or two names that differ at one place or in length", ls.len(), ls.last().unwrap()), move |ch| {
        let n = *ch.pick(&ls);
        if n > 4100 { return Err(Stop::Skip); }
        let l = long_text(ch, n);
        let cut = { let mut c = l.clone(); if c.pop().is_none() { c.push('x') } c };
        let (t, v) = match ch.choose(5) {
            0 => (T::Struct(vec![(l, T::Prim(P::U8))]), V::Seq(vec![V::U(1)])),
            1 => (T::Struct(vec![(cut, T::Prim(P::U8)), (l, T::Str)]), V::Seq(vec![V::U(1), V::Str("a".into())])),
            2 => (T::Struct(vec![(format!("{}y", l), T::Prim(P::U8)), (format!("{}z", l), T::Str)]), V::Seq(vec![V::U(1), V::Str("a".into())])),
            k => (T::Enum(vec![(l, T::Prim(P::U8)), (cut, T::Unit)]), if k == 3 { V::Case(0, Box::new(V::U(7))) } else { V::Case(1, Box::new(V::Unit)) }),
        };
        f(ch, &t, &v)
    }));
    s.push(Suite::new("many-long-names", "structs, and enums with each case of the first, middle and last, of 1, 2, 10, 33, 101, 129 or 257 members whose names have one of 10 lengths up to 1025 and differ at the first, middle or last place only", move |ch| {
        let n = *ch.pick(&[1usize, 2, 10, 33, 101, 129, 257]);
        let l = *ch.pick(&[3usize, 16, 33, 61, 65, 100, 129, 257, 513, 1025]);
        let at = *ch.pick(&[0, l / 2, l - 3]);
        let fill = if ch.flag() { '_' } else { 'é' };
        let name = |i: usize| { let mut c: Vec<char> = vec![fill; l]; for (k, x) in format!("{:03}", i).chars().enumerate() { c[at.min(l - 3) + k] = x } c.into_iter().collect::<String>() };
        let mem: Vec<(String, T)> = (0..n).map(|i| (name(i), if i % 5 == 4 { T::Str } else { T::Prim(P::U16) })).collect();
        let val = |i: usize| if i % 5 == 4 { V::Str(i.to_string()) } else { V::U(i as u128) };
        match ch.choose(4) { 0 => f(ch, &T::Struct(mem), &V::Seq((0..n).map(val).collect())), k => { let i = [0, n / 2, n - 1][k - 1]; f(ch, &T::Enum(mem), &V::Case(i, Box::new(val(i)))) } }
    }));
    let three: &'static [usize] = if th { &[0, 1, 3, 255, 256, 65530, 65535, 65536, 70000, 131072] } else { &[1, 256, 65533, 70000] };
    s.push(Suite::new("long-members", &format!("structs and tuples of three members, each a string, an enum holding a string directly, in a nested enum or in a struct, or an integer, with strings of {} lengths up to {} in every combination, x every case choice", three.len(), three.last().unwrap()), move |ch| {
        let tuple = ch.flag();
        let (mut ts, mut vs) = (vec![], vec![]);
        for i in 0..3u32 {
            let e = |l: Vec<T>| T::Enum(l.into_iter().enumerate().map(|(i, t)| (format!("c{}", i), t)).collect());
            let w = V::U(0x1122_3344 + i as u128 * 0x0101_0101);
            let mut long = |ch: &mut Ch| { let n = *ch.pick(three); V::Str(text(n, &['a', 'b', 'c', 'd', 'e', 'f', 'g'], n / 2, Some((b'0' + i as u8) as char))) };
            let pair = st(vec![T::Str, T::Prim(P::U16), T::Str]);
            let (t, v) = match ch.choose(8) {
                0 => (T::Str, long(ch)),
                1 => (T::Prim(P::U32), w),
                2 => (e(vec![T::Str, T::Unit, T::Prim(P::U8)]), V::Case(0, Box::new(long(ch)))),
                3 => (e(vec![T::Str, T::Unit, T::Prim(P::U8)]), V::Case(2, Box::new(V::U(9 + i as u128)))),
                4 => (e(vec![e(vec![T::Unit, T::Str]), T::Prim(P::U64)]), V::Case(0, Box::new(V::Case(1, Box::new(long(ch)))))),
                5 => (e(vec![e(vec![T::Unit, T::Str]), T::Prim(P::U32)]), V::Case(1, Box::new(w))),
                6 => (e(vec![T::Prim(P::U8), pair.clone()]), V::Case(1, Box::new(V::Seq(vec![long(ch), V::U(513), V::Str("zz".into())])))),
                _ => (pair.clone(), V::Seq(vec![V::Str("y".into()), V::U(513), long(ch)])),
            };
            ts.push(t); vs.push(v);
        }
        f(ch, &if tuple { T::Tuple(ts) } else { st(ts) }, &V::Seq(vs))
    }));
    let counts: &'static [usize] = if th { &[511, 512, 513, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 4097, 8193, 16385] } else { &[511, 512, 513, 1024, 1025, 2049, 4097] };
    s.push(Suite::new("very-wide", &format!("structs and tuples of {:?} members: bytes, numbers of all types, strings, mixtures, enums of 2, 5 or 17 cases (all first, all last, or one different at the first, middle or last place)", counts), move |ch| {
        let n = *ch.pick(counts);
        let kind = ch.choose(7);
        if kind == 6 && n > 2049 && !th { return Err(Stop::Skip); }
        let tuple = ch.flag();
        let cases = |k: usize| T::Enum((0..k).map(|i| (format!("c{}", i), if i == 1 { T::Prim(P::U8) } else { T::Unit })).collect());
        let case = |k: usize, c: usize| { let c = c % k; V::Case(c, Box::new(if c == 1 { V::U(200) } else { V::Unit })) };
        let mut salt = 0;
        let (mut ts, mut vs): (Vec<T>, Vec<V>) = (vec![], vec![]);
        if kind < 4 {
            for i in 0..n {
                let t = match kind { 0 => T::Prim(P::U8), 1 => all_leaves()[i % 16].clone(), 2 => T::Str, _ => match i % 3 { 0 => T::Prim(P::U32), 1 => T::Str, _ => cases(3) } };
                vs.push(match &t { T::Str => V::Str(format!("{:x}", i)), T::Enum(_) => case(3, i / 3), t => round_leaf(t, 1 + i % 3, &mut salt) });
                ts.push(t);
            }
        } else {
            let k = [2, 5, 17][kind - 4];
            let (d, o) = [(0, k - 1), (k - 1, 0), (k - 1, 1)][ch.choose(3)];
            let at = [0, n / 2, n - 1, n][ch.choose(4)];
            for i in 0..n { ts.push(cases(k)); vs.push(case(k, if i == at { o } else { d })); }
        }
        f(ch, &if tuple { T::Tuple(ts) } else { st(ts) }, &V::Seq(vs))
    }));
    let counts: &'static [usize] = if th { &[8191, 8192, 8193, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70001, 131073] } else { &[8193, 32769, 65536, 65537, 70001] };
    s.push(Suite::new("very-many-cases", &format!("enums of {:?} cases (all without value, or every 1000th and the last a string, every 7th an integer), alone and between two smaller enums and a number, with each case of both sides of every power of two, the first and the last", counts), move |ch| {
        let n = *ch.pick(counts);
        let mixed = ch.flag();
        let at: Vec<usize> = { let mut a: Vec<usize> = vec![0, 1, 7, 1000, n / 2, n - 2, n - 1]; for b in 8..17 { if th || b == 8 || b > 14 { a.extend([(1 << b) - 1, 1 << b]) } } a.retain(|i| *i < n); a.sort(); a.dedup(); a };
        let c = *ch.pick(&at);
        let case = |i: usize| if !mixed { T::Unit } else if i % 1000 == 0 || i == n - 1 { T::Str } else if i % 7 == 0 { T::Prim(P::U32) } else { T::Unit };
        let v = match case(c) { T::Str => V::Str(format!("v{}", c)), T::Unit => V::Unit, _ => V::U(c as u128) };
        let t = T::Enum((0..n).map(|i| (format!("c{:x}", i), case(i))).collect());
        let v = V::Case(c, Box::new(v));
        if ch.flag() { return f(ch, &t, &v); }
        let e = |k: usize| T::Enum((0..k).map(|i| (format!("d{}", i), T::Unit)).collect());
        let o = |i: usize| V::Case(i, Box::new(V::Unit));
        f(ch, &st(vec![e(300), t, T::Prim(P::U16), e(5)]), &V::Seq(vec![o(299), v, V::U(513), o(4)]))
    }));
    s.push(Suite::new("deep", &format!("structs, tuples, enums and mixtures nested to each depth up to {} and to 63..65, 100, 127..129{}, with a member before or after the nested one; x 2 rounds", if th { 64 } else { 33 }, if deepest > 129 { ", 200, 255..257" } else { "" }), move |ch| {
        let mut ds: Vec<usize> = (1..=if th { 64 } else { 33 }).collect(); ds.extend([63, 64, 65]); ds.extend([100, 127, 128, 129, 200, 255, 256, 257]); ds.retain(|d| *d <= deepest);
        let n = *ch.pick(&ds);
        let kind = ch.choose(5);
        let side = ch.choose(3);
        let r = ch.choose(2);
        let mut salt = 0;
        let leaf = if ch.flag() { T::Str } else { T::Prim(P::U16) };
        let mut v = round_leaf(&leaf, r, &mut salt);
        let mut t = leaf;
        for i in 0..n {
            let k = if kind < 3 { kind } else { (i + kind) % 3 };
            let o = T::Prim(if i % 2 == 0 { P::U8 } else { P::U32 });
            let ov = round_leaf(&o, r, &mut salt);
            let (ts, vs) = match side { 0 => (vec![t], vec![v]), 1 => (vec![o, t], vec![ov, v]), _ => (vec![t, o], vec![v, ov]) };
            let at = if side == 1 { 1 } else { 0 };
            match k {
                0 => { t = T::Struct(ts.into_iter().enumerate().map(|(i, t)| (format!("m{}", i), t)).collect()); v = V::Seq(vs) }
                1 => { t = T::Tuple(ts); v = V::Seq(vs) }
                _ => { t = T::Enum(ts.into_iter().enumerate().map(|(i, t)| (format!("m{}", i), t)).collect()); v = V::Case(at, Box::new(vs.into_iter().nth(at).unwrap())) }
            }
        }
        f(ch, &t, &v)
    }));
    s
}

pub fn c05(th: bool) -> Vec<Suite> { values(th, 257, identity) }
pub fn c06(th: bool) -> Vec<Suite> { let mut s = values(th, 257, well_formed); s.push(long_writes(th)); s }

/// A sink that takes at most `max` bytes per write and stops once after exactly `at` bytes.
struct Cut { data: Vec<u8>, max: usize, at: usize, then: usize, hit: bool, failed: bool, after: bool }
impl std::io::Write for Cut {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        use std::io::{Error, ErrorKind::*};
        if self.failed { self.after = true; return Err(Error::new(Other, "still failing")); }
        if b.is_empty() { return Ok(0); }
        if !self.hit && self.data.len() == self.at {
            self.hit = true;
            match self.then {
                0 => {}
                1 => return Err(Error::new(Interrupted, "interrupted")),
                2 => { self.failed = true; return Err(Error::new(Other, "sink failed")) }
                3 => { self.failed = true; return Err(Error::new(WouldBlock, "would block")) }
                _ => { self.failed = true; return Ok(0) }
            }
        }
        let mut n = b.len().min(self.max);
        if !self.hit { n = n.min(self.at - self.data.len()) }
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
use crate::json::{denote, D};
fn brief(b: &[u8]) -> String { let s = String::from_utf8_lossy(b); if s.len() < 160 { s.to_string() } else { format!("{}...{}", s.chars().take(100).collect::<String>(), s.chars().rev().take(40).collect::<Vec<_>>().into_iter().rev().collect::<String>()) } }
fn long_writes(th: bool) -> Suite {
    let mut ls: Vec<usize> = vec![0, 1, 2, 3, 5, 8, 31, 100, 1000];
    for k in [16usize, 64, 128, 256, 512, 1024, 4096, 8192, 65536] { ls.extend([k - 1, k, k + 1]) }
    ls.push(if th { 300000 } else { 140000 });
    ls.sort();
    let maxes: &'static [usize] = if th { &[usize::MAX, 1, 2, 3, 7, 100, 700, 1023, 4096, 8191] } else { &[usize::MAX, 1, 3, 7, 700, 1023, 4096] };
    Suite::new("long-writes", &format!("strings, names of members and lists of members of each of {} lengths up to {}, with or without characters that are escaped, written to a sink that takes at most {:?} bytes per write and after exactly n bytes (n around every power of two, at both ends) takes only a part, is interrupted, fails in one of two ways or is full", ls.len(), ls.last().unwrap(), maxes), move |ch| {
        let n = *ch.pick(&ls);
        let fill: &[char] = [&['a', 'b', 'c', 'd', 'e', 'f', 'g'][..], &['é', 'x', '\n', '\u{1}', '"', '😀', 'z']][ch.choose(2)];
        let s = text(n, fill, n / 2, None);
        let (t, v) = match ch.choose(3) {
            0 => (T::Str, V::Str(s)),
            1 => { if n > 5000 { return Err(Stop::Skip) } (T::Struct(vec![("y".into(), T::Enum(vec![(s.clone(), T::Prim(P::U8))])), (s, T::Str)]), V::Seq(vec![V::Case(0, Box::new(V::U(7))), V::Str("!".into())])) }
            _ => { if n > 2000 { return Err(Stop::Skip) } (T::Tuple((0..n.max(1)).map(|i| if i % 3 == 0 { T::Str } else { T::Prim(P::U16) }).collect()), V::Seq((0..n.max(1)).map(|i| if i % 3 == 0 { V::Str(fill[i % 7].to_string()) } else { V::U(i as u128) }).collect())) }
        };
        let rt = t.repo();
        let e = ch.must("encoder", || JsonEncoder::new(&rt))?;
        let ds = load_new(&t, &v);
        let mut full = vec![];
        match ch.must("encode", || e.encode(&mut full, &ds))? { Ok(()) => {} Err(x) => return fail(format!("a string of {} characters: error {} from a sink that never fails", n, x)) }
        if full.len() < 3000 || ch.choose(2) == 0 { let j = std::str::from_utf8(&full).ok().and_then(json::parse); match j.map(|j| denote(&t, &j)) { Some(D::Yes(d)) if canon(&d) == canon(&v) => {} _ => return fail(format!("a document of {} bytes does not denote its value", full.len())) } }
        let mut places = vec![0, 1, 2, 3, full.len() / 2];
        for b in 2..20 { places.extend([(1 << b) - 1, 1 << b, (1 << b) + 1]) }
        places.retain(|p| *p < full.len()); places.extend([full.len().saturating_sub(2), full.len() - 1]); places.sort(); places.dedup();
        let max = *ch.pick(maxes);
        if max == 1 && n > 5000 { return Err(Stop::Skip) }
        for at in places { for then in 0..5 {
            let mut k = Cut { data: vec![], max, at, then, hit: false, failed: false, after: false };
            let r = ch.must("encode", || e.encode(&mut k, &ds))?;
            let what = || format!("a document of {} bytes ({}) into a sink that takes at most {} bytes per write and after {} bytes {}", full.len(), brief(&full), max, at, ["takes a part", "is interrupted", "fails", "would block", "is full"][then]);
            ensure!(!k.after, "{}: went on writing after the sink had failed", what());
            if k.failed { ensure!(r.is_err(), "{}: success reported", what()); ensure!(full.starts_with(&k.data), "{}: the sink holds {} bytes that are no beginning of the document", what(), k.data.len()); }
            else { ensure!(r.is_ok(), "{}: error {} although every write could be completed", what(), r.unwrap_err()); ensure!(k.data == full, "{}: success reported, but the sink received {} bytes, from byte {} on others", what(), k.data.len(), k.data.iter().zip(&full).take_while(|(a, b)| a == b).count()); }
        } }
        ch.state(&[&full[..full.len().min(64)], format!("{} {}", full.len(), max).as_bytes()].concat());
        Ok(())
    })
}

/// The decimal digits of m * 2^e, exactly.
fn decimal_of(m: u128, e: i32) -> String {
    let mut d: Vec<u8> = m.to_string().bytes().map(|b| b - b'0').collect();
    let mut point = d.len();
    for _ in 0..e.max(0) { let mut c = 0; for x in d.iter_mut().rev() { let y = *x * 2 + c; *x = y % 10; c = y / 10 } if c > 0 { d.insert(0, c); point += 1 } }
    for _ in 0..(-e).max(0) { let mut c = 0; for x in d.iter_mut() { let y = c * 10 + *x; *x = y / 2; c = y % 2 } if c > 0 { d.push(5) } }
    while point > 1 && d[0] == 0 { d.remove(0); point -= 1 }
    while d.len() > point && d[d.len() - 1] == 0 { d.pop(); }
    let s: String = d.iter().map(|x| (b'0' + x) as char).collect();
    if d.len() > point { format!("{}.{}", &s[..point], &s[point..]) } else { s }
}
/// The decimal number just below; s is not zero.
fn below(s: &str, tail: usize) -> String {
    let (mut b, dot) = (s.as_bytes().to_vec(), s.contains('.'));
    let k = b.iter().rposition(|c| (b'1'..=b'9').contains(c)).unwrap();
    b[k] -= 1;
    for c in &mut b[k + 1..] { if *c == b'0' { *c = b'9' } }
    let mut s = String::from_utf8(b).unwrap();
    if !dot { s.push('.') }
    s.push_str(&"9".repeat(tail));
    let t = s.trim_start_matches('0');
    if t.starts_with('.') { format!("0{}", t) } else { t.to_string() }
}
fn halfway(th: bool) -> Suite {
    Suite::new("halfway-numbers", &format!("the exact decimal middle between a 32-bit or 64-bit floating point number and its successor, for every exponent{} and 9 kinds of significands, and numbers below and above it by one part in 10^1 to 10^400; positive or negative, bare or quoted, with or without an exponent: which neighbour is nearest follows from the rule of rounding alone", if th { "" } else { " (64-bit: every second and those at the ends)" }), move |ch| {
        let wide = ch.flag();
        let (mbits, ebias, emax) = if wide { (52, 1075, 2046) } else { (23, 150, 254) };
        let ex = ch.choose(emax + 1);
        if wide && !th && ex % 2 != 0 && ex > 10 && ex < emax - 3 && (ex as i64 - 1023).abs() > 3 { return Err(Stop::Skip); }
        let full: u64 = (1u64 << mbits) - 1;
        let frac = [0, 1, full - 1, full, full / 3, full / 3 * 2, full / 2, full / 2 + 1, full / 7 * 3][ch.choose(9)];
        let bits = ((ex as u64) << mbits) | frac;
        // value = m * 2^e; the middle to the next is (2m + 1) * 2^(e - 1)
        let (m, e) = if ex == 0 { (frac, 1 - ebias) } else { (frac | (1 << mbits), ex as i32 - ebias) };
        let mid = decimal_of(2 * m as u128 + 1, e - 1);
        // beyond the largest number is infinity, which both answers are open for
        if bits == ((emax as u64) << mbits | full) { return Err(Stop::Skip); }
        let t = T::Prim(if wide { P::F64 } else { P::F32 });
        let mut d = decoder(ch, &t)?;
        let mut cases = vec![(mid.clone(), if bits % 2 == 0 { bits } else { bits + 1 })];
        for tail in [1, 2, 18, 60, 400] {
            cases.push((format!("{}{}{}1", mid, if mid.contains('.') { "" } else { "." }, "0".repeat(tail - 1)), bits + 1));
            cases.push((below(&mid, tail), bits));
        }
        for (x, want) in cases { for form in 0..4 {
            let neg = form & 1 == 1;
            let mut y = x.clone();
            if form & 2 == 2 { y = match x.find('.') { Some(p) => { let f = x.len() - p - 1; format!("{}{}e-{}", x[..p].trim_start_matches('0'), &x[p + 1..], f) } None => format!("{}e0", x) }; let z = y.trim_start_matches('0'); y = if z.starts_with('e') { format!("0{}", z) } else { z.to_string() } }
            if neg { y.insert(0, '-') }
            let text = if x.len() % 2 == 0 && form < 2 { format!("\"{}\"", y) } else { y };
            let mut ds = IntermediateDataSource::new();
            match ch.must("decode", || d.parse(&text, &mut ds))? { Ok(()) => {} Err(e) => return fail(format!("decoding {} as {}: {}", brief(text.as_bytes()), t.show(), e)) }
            let got = match read_guarded(&ds, &t) { Ok(V::F32(b)) => b as u64, Ok(V::F64(b)) => b, _ => return fail(format!("decoding {} as {}: no number", brief(text.as_bytes()), t.show())) };
            let want = if neg { want | 1 << (if wide { 63 } else { 31 }) } else { want };
            ensure!(got == want, "decoding {} as {}: got the number with bits {:#x}, but the nearest is {:#x}", brief(text.as_bytes()), t.show(), got, want);
            ch.state(text.as_bytes());
        } }
        Ok(())
    })
}
pub fn c12(th: bool) -> Vec<Suite> { values(th, if th { 257 } else { 129 }, |ch, t, v| pipe(ch, t, v, false)) }

/// A token of n repeated characters; None where the kind makes no sense.
fn long_number(ch: &mut Ch, n: usize) -> String {
    let d = |c: &str| c.repeat(n);
    match ch.choose(14) {
        0 => d("0"), 1 => format!("1{}", d("0")), 2 => format!("-{}", d("9")), 3 => format!("0.{}1", d("0")), 4 => format!("1.{}", d("3")), 5 => format!("7e{}1", d("0")), 6 => format!("7E-{}2", d("0")),
        7 => format!("1{}.5e-{}", d("0"), n), 8 => format!("0.{}1e+{}", d("0"), n), 9 => format!("{}7", d("0")), 10 => format!("{}1", d("-")), 11 => format!("1.{}.", d("0")), 12 => format!("1{}e", d("2")), _ => format!("1{}x", d("2")),
    }
}
const WS: &[&str] = &[" ", "\t", "\n", "\r", "\r\n", " \t"];

pub fn c07(th: bool) -> Vec<Suite> {
    let ls = lengths(th);
    let mut s = vec![halfway(th)];
    s.push(Suite::new("every-character", "every Unicode scalar value before and behind a character, before, in and behind numbers (bare and quoted, of 7 types), member and case names, keywords, and between the tokens of a document", move |ch| {
        let hi = ch.choose(0x1100);
        let kind = ch.choose(12);
        let t = match kind {
            0 => T::Prim(P::Char), 1 => T::Prim(P::U8), 2 => T::Prim(P::I64), 3 => T::Prim(P::F64), 4 => T::Prim(P::U128), 5 => T::Prim(P::F32), 6 => T::Prim(P::Bool), 7 => T::Unit,
            8 => T::Struct(vec![("ab".into(), T::Prim(P::U8)), ("b".into(), T::Unit)]), 9 => T::Enum(vec![("ab".into(), T::Prim(P::U8)), ("b".into(), T::Unit)]),
            10 => T::Tuple(vec![T::Prim(P::I8), T::Prim(P::Char)]), _ => T::Str,
        };
        let mut d = decoder(ch, &t)?;
        for lo in 0..0x100 {
            let c = match char::from_u32((hi * 256 + lo) as u32) { Some(c) => c, None => continue };
            if kind >= 2 && kind < 12 && kind != 8 && kind != 9 && hi > 0x33 && lo % 16 != 0 { continue; }
            let q = json::quote(&c.to_string()); let q = &q[1..q.len() - 1];
            let docs: Vec<String> = match kind {
                0 => vec![format!("\"{}\"", q), format!("\"a{}\"", q), format!("\"{}a\"", q), format!("\"{}\u{fe0f}\"", q), format!("{}", c)],
                1..=5 => vec![format!("{}12", c), format!("1{}2", c), format!("12{}", c), format!("\"{}12\"", q), format!("\"1{}2\"", q), format!("\"12{}\"", q)],
                6 => vec![format!("{}true", c), format!("true{}", c), format!("fals{}", c), format!("false{}", c)],
                7 => vec![format!("{}null", c), format!("null{}", c), format!("nul{}", c)],
                8 => vec![format!("{{\"ab{}\":1,\"b\":null}}", q), format!("{{\"{}b\":1,\"b\":null}}", q), format!("{{\"a{}b\":1,\"b\":null}}", q), format!("{{\"ab\":1,\"{}b\":null}}", q), format!("{{\"ab\"{}:1,\"b\":null}}", c), format!("{{\"ab\":1{},\"b\":null}}", c), format!("{{\"ab\":1,{}\"b\":null}}", c)],
                9 => vec![format!("{{\"kind\":\"ab{}\",\"value\":1}}", q), format!("{{\"kind\":\"{}b\",\"value\":1}}", q), format!("{{\"kind{}\":\"b\",\"value\":null}}", q), format!("{{\"kind\":\"b\",\"{}value\":null}}", q), format!("{{\"kind\":\"{}\",\"value\":null}}", q)],
                10 => vec![format!("[{}1,\"x\"]", c), format!("[1,\"x\"{}]", c), format!("[1,\"x\"]{}", c), format!("[-{},\"x\"]", c), format!("{}[1,\"{}\"]", c, q)],
                _ => vec![format!("\"{}\"", q), format!("\"a{}b\"", q), format!("\"\\{}\"", c), format!("\"\\u00{}5\"", c), format!("{}\"a\"", c)],
            };
            for x in docs { decode_check(ch, &mut d, &t, &x)?; }
        }
        Ok(())
    }));
    { let ls = ls.clone();
    s.push(Suite::new("long-numbers", &format!("numbers of 14 forms (leading zeros, whole digits, fractions, exponents, repeated signs, cut off) of each of {} lengths up to {}, as a number or quoted, for each of 9 types", ls.len(), ls.last().unwrap()), move |ch| {
        let n = *ch.pick(&ls);
        let x = long_number(ch, n);
        let t = match ch.choose(9) { 8 => T::Str, k => T::Prim([P::U8, P::I8, P::U32, P::I64, P::U128, P::I128, P::F32, P::F64][k]) };
        let x = if ch.flag() { format!("\"{}\"", x) } else { x };
        let mut d = decoder(ch, &t)?;
        decode_check(ch, &mut d, &t, &x)
    })); }
    { let ls = ls.clone();
    s.push(Suite::new("long-white-space", &format!("white space of 6 kinds of each of {} lengths up to {} in 8 places of a document, at a well-formed one or at one that is cut off or has an element too many", ls.len(), ls.last().unwrap()), move |ch| {
        let n = *ch.pick(&ls);
        let w = ch.pick(WS).repeat(n);
        let k = ch.choose(8);
        let end = *ch.pick(&["}", "", ",\"z\":1}", "} 1", "}}"]);
        let parts = ["{", "\"a\"", ":", "[7,", "1", "]", end];
        let mut x = String::new();
        for (i, p) in parts.iter().enumerate() { if i == k { x += &w } x += p }
        if k == 7 { x += &w }
        let t = T::Struct(vec![("a".into(), T::Tuple(vec![T::Prim(P::U8), T::Prim(P::U8)]))]);
        let mut d = decoder(ch, &t)?;
        decode_check(ch, &mut d, &t, &x)
    })); }
    { let ls = ls.clone();
    s.push(Suite::new("long-strings", &format!("strings of each of {} lengths up to {} of 10 fillings with a deviating character, plain or with all or single characters escaped, in a document that is well-formed, cut off, or has a raw control character or a bad escape at the first, middle or last place", ls.len(), ls.last().unwrap()), move |ch| {
        let n = *ch.pick(&ls);
        let s = long_text(ch, n);
        let mut q = match ch.choose(3) { 0 => json::quote(&s), 1 => json::quote_u(&s, true), _ => { let mut q = json::quote(&s); q.insert_str(1, "\\u00e9\\ud83d\\ude00"); q } };
        let places: Vec<usize> = vec![1, q.len() / 2, q.len() - 1];
        match ch.choose(5) {
            0 => {}
            1 => { q.pop(); }
            2 => q += "\"",
            k => { if k == 4 && n > 70 && n % 5 > 0 { return Err(Stop::Skip); } let mut p = *ch.pick(&places); while !q.is_char_boundary(p) { p += 1 } q.insert_str(p, if k == 3 { "\u{1f}" } else { "\\x" }) }
        }
        let t = if n % 2 == 0 { T::Str } else { T::Tuple(vec![T::Str]) };
        let x = if t == T::Str { q } else { format!("[{}]", q) };
        let mut d = decoder(ch, &t)?;
        decode_check(ch, &mut d, &t, &x)
    })); }
    s.push(Suite::new("wrong-lengths", &format!("documents for tuples and structs of 0..4 and 20 other numbers of elements, with one element too few or too many or of the wrong type at any place; brackets of each kind repeated each of {} numbers of times up to {}, closed or not, for 6 types", ls.len(), ls.last().unwrap()), move |ch| {
        let u8_ = T::Prim(P::U8);
        if ch.flag() {
            let n = *ch.pick(&ls);
            let (o, c) = *ch.pick(&[("[", "]"), ("{", "}"), ("{\"a\":", "}"), ("[[", "]]"), ("[{\"a\":", "}]"), (",", ","), (":", ""), ("[1,", "]"), ("{\"kind\":\"a\",\"value\":", "}")]);
            let x = match ch.choose(3) { 0 => o.repeat(n), 1 => format!("{}7{}", o.repeat(n), c.repeat(n)), _ => format!("7{}", c.repeat(n)) };
            let nested = |n: usize| { let mut t = u8_.clone(); for _ in 0..n { t = T::Tuple(vec![t]) } t };
            let types = [u8_.clone(), T::Tuple(vec![]), nested(1), nested(2), T::Struct(vec![("a".into(), u8_.clone())]), T::Enum(vec![("a".into(), u8_.clone())]), nested(100)];
            let t = ch.pick(&types).clone();
            let mut d = decoder(ch, &t)?;
            return decode_check(ch, &mut d, &t, &x);
        }
        let ns = [0usize, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300];
        let n = *ch.pick(&ns);
        let named = ch.flag();
        let el = |i: usize, x: &str| if named { format!("\"f{}\":{}", i, x) } else { x.to_string() };
        let mut v: Vec<String> = (0..n).map(|i| el(i, &(i % 256).to_string())).collect();
        let k = ch.choose(n + 1);
        match ch.choose(6) {
            0 => { if k == n { return Err(Stop::Skip); } v.remove(k); }
            1 => v.insert(k, el(n, "1")),
            2 => { if k == n { return Err(Stop::Skip); } v[k] = el(k, "\"x\""); }
            3 => v.insert(k, String::new()),
            4 => { if k == n { return Err(Stop::Skip); } v[k] = el(k, &format!("{} ", 256)); }
            _ => { if k < n { v[k] = el(k, "\"7\""); } }
        }
        let t = if named { st((0..n).map(|_| u8_.clone()).collect()) } else { T::Tuple((0..n).map(|_| u8_.clone()).collect()) };
        let x = if named { format!("{{{}}}", v.join(",")) } else { format!("[{}]", v.join(", ")) };
        let mut d = decoder(ch, &t)?;
        decode_check(ch, &mut d, &t, &x)
    }));
    s
}

pub fn c08(th: bool) -> Vec<Suite> {
    let ls = lengths(th);
    vec![Suite::new("long-tokens", &format!("numbers of 14 forms, strings of 10 fillings (plain, escaped, cut off, with a bad escape or control character), runs of white space, keywords and brackets of each of {} lengths up to {}, before and after another token", ls.len(), ls.last().unwrap()), move |ch| {
        let n = *ch.pick(&ls);
        let x = match ch.choose(5) {
            0 => long_number(ch, n),
            1 => { let s = long_text(ch, n); match ch.choose(6) { 0 => json::quote(&s), 1 => json::quote_u(&s, false), 2 => { let mut q = json::quote(&s); q.pop(); q } 3 => { let mut q = json::quote(&s); q.pop(); q + "\\" } 4 => { let mut q = json::quote(&s); q.pop(); q + "\u{0}\"" } _ => { let mut q = json::quote(&s); q.pop(); q + "\\ud83d\\ude0\"" } } }
            2 => { let w = ch.pick(WS).repeat(n); let e = *ch.pick(&["", "7", "\u{a0}", "null"]); w + e }
            3 => { let (k, m) = (*ch.pick(&["null", "true", "fals"]), *ch.pick(&["l", "e", "x", "_"])); format!("{}{}", k, m.repeat(n)) }
            _ => { if n > 4100 { return Err(Stop::Skip); } ch.pick(&["[", "}", ",", ":", "null ", "7 ", "\"\"", "-1,", "{\"a\":"]).repeat(n) }
        };
        let x = match ch.choose(3) { 0 => x, 1 => format!("[{}", x), _ => format!("{} ,\"a\"", x) };
        tokenize_check(ch, &x)
    })]
}

pub fn c03(th: bool) -> Vec<Suite> { values(th, if th { 257 } else { 129 }, |ch, t, v| { let m = marshaller(ch, t)?; round_trip(ch, &m, t, v) }) }
pub fn c04(th: bool) -> Vec<Suite> {
    let mut s = values(th, if th { 129 } else { 65 }, |ch, t, v| { let (place, fill, extra) = *ch.pick(&[(Place::End, 0xFF, 0), (Place::Offset(1), 0, 7)]); exact(ch, t, v, place, fill, extra) });
    let ls = lengths(th);
    s.push(Suite::new("long-short-buffers", &format!("records of one to four members, one of them a string of each of {} lengths up to {}: each shorter buffer, or for more than 128 bytes those within 18 bytes of an end or a power of two away from one, for encoding and for reading", ls.len(), ls.last().unwrap()), move |ch| {
        let n = *ch.pick(&ls);
        if n > 300 && !th && n % 4096 > 2 && n % 4096 < 4094 { return Err(Stop::Skip); }
        let s = V::Str("s".repeat(n));
        let (t, v) = match ch.choose(4) {
            0 => (T::Str, s), 1 => (st(vec![T::Str, T::Str]), V::Seq(vec![s, V::Str("x".into())])), 2 => (st(vec![T::Str, T::Prim(P::U8), T::Str]), V::Seq(vec![V::Str("".into()), V::U(1), s])),
            _ => (T::Enum(vec![("a".into(), T::Unit), ("b".into(), T::Tuple(vec![T::Prim(P::U64), T::Str]))]), V::Case(1, Box::new(V::Seq(vec![V::U(1 << 40), s])))),
        };
        short(ch, &t, &v)
    }));
    s
}

/// A type of n parts, and its text.
pub fn c09(th: bool) -> Vec<Suite> {
    let ls = lengths(th);
    let mut s = vec![];
    { let ls = ls.clone();
    s.push(Suite::new("long-texts", &format!("names of 6 kinds, runs of white space of 6 kinds in 6 places, and repeated tokens of 12 kinds, of each of {} lengths up to {}, in a type or in a text that is none", ls.len(), ls.last().unwrap()), move |ch| {
        let n = *ch.pick(&ls);
        if n > 8200 && !th { return Err(Stop::Skip); }
        let x = match ch.choose(3) {
            0 => {
                if n == 0 { return Err(Stop::Skip); }
                let mut l = match ch.choose(6) { 0 => "a".repeat(n), 1 => "_".repeat(n), 2 => format!("Z{}", "9".repeat(n - 1)), 3 => "u8".repeat(n), 4 => format!("struct{}", "t".repeat(n)), _ => "aB_0".chars().cycle().take(n).collect() };
                if ch.flag() { let o = *ch.pick(&["-", "é", " ", ".", "\""]); let k = *ch.pick(&[0, n / 2, n]); l.insert_str(k, o); }
                match ch.choose(4) { 0 => format!("struct{{{}:u8}}", l), 1 => format!("enum {{a:(),{}:string,}}", l), 2 => format!("({},u8)", l), _ => l }
            }
            1 => { let w = ch.pick(WS).repeat(n); let k = ch.choose(7); let parts = ["struct", "{", "a", ":", "(u8,string)", "}"]; let mut x = String::new(); for (i, p) in parts.iter().enumerate() { if i == k { x += &w } x += p } if k == 6 { x += &w } x }
            _ => { let t = *ch.pick(&["(", ")", "()", "u8", "u8,", "(u8,)", ",", "struct{a:", "}", "{", "enum{a:u8,b:", ":", "a:u8,"]); if n > 2000 { return Err(Stop::Skip); } let p = *ch.pick(&["", "(", "struct{"]); format!("{}{}", p, t.repeat(n)) }
        };
        type_check(ch, &x, None)
    })); }
    let most = if th { 1025 } else { 257 };
    let wide_counts: Vec<usize> = (1..=most).chain([511, 512, 513, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4096, 4097].into_iter().filter(|n| *n > most)).collect();
    s.push(Suite::new("sizes", &format!("tuples, structs and enums of each number of members up to {} and around powers of two up to 4097, of one or of varying types, with or without trailing comma, or with one token left out or one more at the first, middle or last place; nesting of 5 kinds to each depth up to {}, closed or with one bracket too few or too many", most, most), move |ch| {
        let n = *ch.pick(&wide_counts);
        let mut toks = vec![];
        let wide = ch.flag();
        if !wide && n > most { return Err(Stop::Skip); }
        let t = if wide {
            let many = ch.flag();
            let mem: Vec<(String, T)> = (0..n).map(|i| (if i % 7 == 3 { format!("u8_{}", i) } else { format!("m{}", i) }, if many { all_leaves()[i % 16].clone() } else { T::Prim(P::U8) })).collect();
            match ch.choose(3) { 0 => T::Tuple(mem.into_iter().map(|x| x.1).collect()), 1 => T::Struct(mem), _ => T::Enum(mem) }
        } else {
            let kind = ch.choose(5);
            let mut t = T::Prim(P::U16);
            for i in 0..n { t = match if kind < 3 { kind } else { (i + kind) % 3 } { 0 => T::Tuple(vec![t, T::Unit]), 1 => T::Struct(vec![("a".into(), T::Unit), ("b".into(), t)]), _ => T::Enum(vec![("c".into(), t), ("d".into(), T::Str)]) } }
            t
        };
        let c = ch.flag();
        write_type(&t, &mut toks, &mut || c);
        let edit = ch.choose(4);
        if edit > 0 && n > 64 && n % 8 > 1 { return Err(Stop::Skip); }
        if edit > 0 {
            let m = toks.len();
            let mut at = vec![0, 1, 2, 3, m / 3, m / 2, m / 2 + 1, m - 2, m - 1]; at.retain(|a| *a < m); at.sort(); at.dedup();
            let k = *ch.pick(&at);
            match edit { 1 => { toks.remove(k); } 2 => { let x = toks[k].clone(); toks.insert(k, x) } _ => toks.insert(k, ch.pick(&["}", ")", ",", "u8", ":"]).to_string()) }
        }
        type_check(ch, &toks.join(" "), if edit == 0 { Some(&t) } else { None })
    }));
    s
}

pub fn c10(th: bool) -> Vec<Suite> {
    let most = if th { 1025 } else { 300 };
    let mut s = vec![];
    let wide_counts: Vec<usize> = (1..=most).chain([511, 512, 513, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4096, 4097].into_iter().filter(|n| *n > most)).collect();
    s.push(Suite::new("sizes", &format!("types of each number of members up to {} (and around powers of two up to 4097) and of each depth up to {}: names of members first, middle, last and beyond, of every level, in other spellings, with a component too many", most, most), move |ch| {
        let n = *ch.pick(&wide_counts);
        let kind = ch.choose(3);
        let wide = ch.flag();
        if !wide && n > most { return Err(Stop::Skip); }
        if wide {
            let mem: Vec<(String, T)> = (0..n).map(|i| (format!("m{}", i), if i % 2 == 0 { T::Prim(P::U8) } else { T::Tuple(vec![T::Unit]) })).collect();
            let t = match kind { 0 => T::Tuple(mem.into_iter().map(|x| x.1).collect()), 1 => T::Struct(mem), _ => T::Enum(mem) };
            let mut at = vec![0, 1, n / 2, n.saturating_sub(2), n - 1, n, n + 1, n * 10, n + 256, n + 65536, n / 10]; at.sort(); at.dedup();
            let i = *ch.pick(&at);
            let base = if kind == 0 { i.to_string() } else { format!("m{}", i) };
            let name = match ch.choose(6) { 0 => base, 1 => format!("{}.0", base), 2 => format!("{}.1", base), 3 => format!("M{}", i), 4 => format!("{} ", base), _ => format!("{}.", base) };
            resolve_check(ch, &t, &t.repo(), &name)
        } else {
            let mut t = T::Tuple(vec![T::Prim(P::U8), T::Str]);
            for i in 0..n { t = match kind { 0 => T::Tuple(vec![T::Unit, t]), 1 => T::Struct(vec![("a".into(), t), ("b".into(), T::Unit)]), _ if i % 2 == 0 => T::Enum(vec![("c".into(), T::Unit), ("d".into(), t)]), _ => T::Struct(vec![("e".into(), t)]) } }
            let mut comps: Vec<String> = vec![];
            { let mut x = &t; for _ in 0..n { let (l, c): (&str, &T) = match x { T::Tuple(v) => ("1", &v[1]), T::Struct(v) => (&v[0].0, &v[0].1), T::Enum(v) => ("d", &v[1].1), _ => unreachable!() }; comps.push(l.into()); x = c } }
            let mut at = vec![0, n / 2, n - 1]; at.dedup();
            match ch.choose(8) { 0 => {} 1 => comps.push("1".into()), 2 => comps.push("2".into()), 3 => { comps.push("0".into()); comps.push("0".into()) } 4 => { comps.pop(); } 5 => { let k = *ch.pick(&at); comps[k] = "b".into() } 6 => { let k = *ch.pick(&at); comps.insert(k, String::new()) } _ => { let k = *ch.pick(&at); comps[k] = ["0", "2", "c", "x"][ch.choose(4)].into() } }
            resolve_check(ch, &t, &t.repo(), &comps.join("."))
        }
    }));
    s.push(Suite::new("long-paths", &format!("pairs of paths of each length up to {}, equal, one a beginning of the other, or different in one component at the first, middle, last or another place, with components around 0, powers of two and the limit; and a third path between", most), move |ch| {
        let n = ch.range(0, most);
        let big = [0usize, 1, 2, 127, 128, 255, 256, 257, 65535, 65536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX - 1, usize::MAX];
        let f = *ch.pick(&[0usize, 3, 256, usize::MAX]);
        let a: Vec<usize> = (0..n).map(|i| if f == 3 { big[i % big.len()] } else { f }).collect();
        let mut b = a.clone();
        match ch.choose(4) {
            0 => {}
            1 => b.push(*ch.pick(&big)),
            2 => { b.pop(); if ch.flag() { b.pop(); } }
            _ => { if n == 0 { return Err(Stop::Skip); } let mut at = vec![0, 1, n / 2, n.saturating_sub(2), n - 1]; at.retain(|k| *k < n); at.sort(); at.dedup(); let k = *ch.pick(&at); b[k] = *ch.pick(&big); if ch.flag() { b.truncate(k + 1) } }
        }
        let mut st: Vec<u8> = vec![]; for p in [&a, &b] { for i in p { st.extend_from_slice(&i.to_le_bytes()) } st.push(1) } ch.state(&st);
        cmp_check(ch, &a, &b)?; cmp_check(ch, &b, &a)?;
        let mut c = b.clone(); c.push(0);
        triple_check(ch, &a, &b, &c)?; triple_check(ch, &b, &c, &a)?; triple_check(ch, &c, &a, &b)
    }));
    { let big = [0usize, 1, 2, 9, 10, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, i32::MAX as usize, i32::MAX as usize + 1, u32::MAX as usize, u32::MAX as usize + 1, i64::MAX as usize, i64::MAX as usize + 1, usize::MAX];
    s.push(Suite::new("component-values", "all triples of paths of one component, and of pairs behind a common one, from 22 values around powers of two", move |ch| {
        let pre = ch.flag();
        let p = |k: usize| if pre { vec![256, k] } else { vec![k] };
        let (a, b, c) = (p(*ch.pick(&big)), p(*ch.pick(&big)), p(*ch.pick(&big)));
        cmp_check(ch, &a, &b)?;
        triple_check(ch, &a, &b, &c)
    })); }
    s
}

pub fn c11(th: bool) -> Vec<Suite> {
    let most = if th { 5000 } else { 1100 };
    let ls = lengths(th);
    let mut s = vec![];
    s.push(Suite::new("many-stores", &format!("each number of stores up to {} of numbers, strings, case tags or all of them at as many neighbouring, nested, or scattered places, or at one place again and again; cleared in between or not; then every place and places next to them read", most), move |ch| {
        let mut ns: Vec<usize> = (0..=130).collect(); ns.extend([200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097]); ns.retain(|n| *n <= most);
        let n = *ch.pick(&ns);
        let place = ch.choose(5);
        if place == 1 && n > 300 { return Err(Stop::Skip); }
        let path = |i: usize| -> Vec<usize> { match place { 0 => vec![i], 1 => vec![i % 2; i], 2 => vec![i / 100, i % 100], 3 => vec![usize::MAX - i * 256], _ => vec![7] } };
        let kind = ch.choose(4);
        let val = |i: usize| -> Val { match if kind == 3 { i % 3 } else { kind } { 0 => Val::Prim(P::U32, V::U(i as u128)), 1 => Val::Str("s".repeat(i % 67) + &i.to_string()), _ => Val::Tag(i * 3) } };
        let put = |ds: &mut IntermediateDataSource, i: usize, v: &Val| { let p = path_of(&path(i)); match v { Val::Prim(t, x) => ds.add_primitive(&p, pv(*t, x)), Val::Str(s) => ds.add_string(&p, s), Val::Tag(t) => ds.add_case_tag(&p, *t) } };
        let mut ds = IntermediateDataSource::new();
        let mut model = std::collections::BTreeMap::new();
        let pre = ch.choose(4);
        let down = ch.flag();
        ch.must("store", || {
            if pre > 0 { for i in 0..n + pre * 5 { put(&mut ds, i, &Val::Str(format!("previous {}", i))) } if pre > 1 { ds.clear() } else { } }
        })?;
        if pre == 1 { for i in 0..n + 5 { model.insert(path(i), Val::Str(format!("previous {}", i))); } }
        ch.must("store", || { for k in 0..n { let i = if down { n - 1 - k } else { k }; if pre == 3 && i % 4 == 1 { continue; } put(&mut ds, i, &val(i)); model.insert(path(i), val(i)); } })?;
        for i in 0..n + 20 {
            let p = path_of(&path(i)); let m = model.get(&path(i));
            for g in [14usize, 15, 16, 4] {
                let (got, want) = (getters(&ds, &p, g), expect(m, g));
                ensure!(got == want, "{} stores of kind {} in places of kind {} ({}, {}): {} at {:?} gives {:?}, expected {:?}", n, kind, place, ["nothing before", "after others at the same places", "after others, cleared", "after others, cleared, some left out"][pre], if down { "descending" } else { "ascending" }, getter_name(g), path(i), got, want);
            }
        }
        ch.state(format!("{} {} {} {} {}", n, place, kind, pre, down).as_bytes());
        Ok(())
    }));
    s.push(Suite::new("long-strings", &format!("strings of each of {} lengths up to {} stored over, between and beside one another at three places", ls.len(), ls.last().unwrap()), move |ch| {
        let n = *ch.pick(&ls);
        let s = long_text(ch, n);
        let mut ds = IntermediateDataSource::new();
        let (a, b, c) = (path_of(&[0]), path_of(&[0, 0]), path_of(&[1]));
        let order = ch.choose(4);
        let want = ch.must("store", || match order {
            0 => { ds.add_string(&a, &s); ds.add_string(&b, "b"); ds.add_string(&c, &s); [Some(s.clone()), Some("b".to_string()), Some(s.clone())] }
            1 => { ds.add_string(&a, "old"); ds.add_string(&a, &s); ds.add_string(&b, &s); ds.add_string(&b, "new"); [Some(s.clone()), Some("new".into()), None] }
            2 => { ds.add_string(&c, &s); ds.clear(); ds.add_string(&b, &s); ds.add_string(&a, "x"); [Some("x".into()), Some(s.clone()), None] }
            _ => { ds.add_string(&a, &s); ds.add_string(&b, &(s.clone() + "1")); ds.add_string(&c, &(s.clone() + "22")); [Some(s.clone()), Some(s.clone() + "1"), Some(s.clone() + "22")] }
        })?;
        for (p, w) in [a, b, c].iter().zip(want) {
            for g in [14usize, 16] {
                let (got, w) = (getters(&ds, p, g), expect(w.clone().map(Val::Str).as_ref(), g));
                ensure!(got == w, "strings of length {} stored in order {}: {} at {:?} gives {}, expected {}", n, order, getter_name(g), p.path(), cut(&got), cut(&w));
            }
        }
        ch.state(format!("{} {}", s, order).as_bytes());
        Ok(())
    }));
    s
}
fn cut(v: &Option<Val>) -> String { let s = format!("{:?}", v); if s.chars().count() > 200 { s.chars().take(200).collect::<String>() + &format!("... ({} bytes)", s.len()) } else { s } }
