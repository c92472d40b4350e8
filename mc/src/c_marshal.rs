//! C03, C04: binary record encoding.
use crate::engine::*;
use crate::ensure;
use crate::guard::{with_buf, Place};
use crate::tv::*;
use cathlamet::core::marshaller::{Layout, Marshaller, MarshallerDataSource};
use std::sync::{Arc, Mutex};

pub fn size_leaves() -> Vec<T> { vec![T::Prim(P::U8), T::Prim(P::U16), T::Prim(P::U32), T::Prim(P::U64), T::Prim(P::U128), T::Str, T::Unit] }

pub fn marshaller(ch: &mut Ch, t: &T) -> Result<Marshaller, Stop> {
    let rt = t.repo();
    ch.must(&format!("layout of {}", t.show()), || Marshaller::new(Arc::new(Layout::new(&rt))))
}

/// encode into a fresh buffer of the announced size and read back
pub fn round_trip(ch: &mut Ch, m: &Marshaller, t: &T, v: &V) -> Res {
    let ds = load_new(t, v);
    let size = ch.must(&format!("size of {} {}", t.show(), v.show()), || m.encoding_size(&ds))?;
    ensure!(size < 1 << 24, "announced size {} for {} {}", size, t.show(), v.show());
    let mut mem = vec![0u128; size / 16 + 2];
    let buf = unsafe { std::slice::from_raw_parts_mut(mem.as_mut_ptr() as *mut u8, size) };
    let n = ch.must(&format!("encoding {} {}", t.show(), v.show()), || m.encode(&ds, buf))?;
    ensure!(n == size, "{} {}: announced {} bytes, encode reported {}", t.show(), v.show(), size, n);
    let got = read_guarded(&MarshallerDataSource::new(m, buf), t);
    match got {
        Ok(g) if g == *v => {}
        Ok(g) => return fail(format!("{}: stored {} but read back {}", t.show(), v.show(), g.show())),
        Err(e) => return fail(format!("{}: stored {} but reading back failed: {}", t.show(), v.show(), e)),
    }
    ch.state(buf);
    ch.sample(|| format!("{} = {} -> {} bytes", t.show(), v.show(), size));
    Ok(())
}

/// lazily built marshallers for a fixed family of types
pub struct Family { pub types: Vec<T>, built: Vec<Mutex<Option<Arc<Layout>>>> }
impl Family {
    pub fn new(types: Vec<T>) -> Family { let built = types.iter().map(|_| Mutex::new(None)).collect(); Family { types, built } }
    pub fn get(&self, ch: &mut Ch, i: usize) -> Result<Marshaller, Stop> {
        let mut g = self.built[i].lock().unwrap();
        if g.is_none() {
            let rt = self.types[i].repo();
            *g = Some(ch.must(&format!("layout of {}", self.types[i].show()), || Arc::new(Layout::new(&rt)))?);
        }
        Ok(Marshaller::new(g.as_ref().unwrap().clone()))
    }
}

pub fn enum_n(n: usize, payload: &dyn Fn(usize) -> T) -> T { T::Enum((0..n).map(|i| (format!("c{}", i), payload(i))).collect()) }
pub fn st(v: Vec<T>) -> T { T::Struct(v.into_iter().enumerate().map(|(i, t)| (format!("f{}", i), t)).collect()) }

pub fn case_counts(th: bool) -> Vec<usize> { let mut v = vec![1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 258, 511, 512, 513, 1024, 1025]; if th { v.extend([4096, 4097, 32768, 32769, 65535, 65536, 65537]); } v }

pub fn many_cases(th: bool) -> Vec<T> {
    let mut v = vec![];
    for n in case_counts(th) {
        v.push(enum_n(n, &|_| T::Unit));
        v.push(st(vec![T::Prim(P::U8), enum_n(n, &|_| T::Unit), T::Prim(P::U32), T::Str]));
        v.push(enum_n(n, &|i| match i % 5 { 0 => T::Unit, 1 => T::Prim(P::U8), 2 => T::Prim(P::U64), 3 => T::Str, _ => st(vec![T::Prim(P::U16), T::Str]) }));
        // neighbours sharing the container
        v.push(st(vec![enum_n(n, &|_| T::Unit), enum_n(2, &|_| T::Unit), enum_n(3, &|_| T::Prim(P::U32))]));
    }
    v
}

pub fn wide() -> Vec<T> {
    let mut v = vec![];
    for n in [2usize, 8, 9, 10, 11, 12, 16, 20, 32, 33, 63, 64, 65, 100, 101, 130, 300] {
        v.push(st((0..n).map(|i| T::Prim(PRIMS[(i * 5 + 3) % 14])).collect()));
        v.push(T::Tuple((0..n).map(|i| match i % 4 { 0 => T::Str, 1 => T::Prim(P::U16), 2 => T::Prim(P::U8), _ => T::Prim(P::U64) }).collect()));
        v.push(st((0..n).map(|i| if i % 3 == 0 { T::Tuple(vec![T::Str, T::Prim(P::U8)]) } else { T::Str }).collect()));
    }
    // deep nesting of each container
    for d in [4usize, 8, 16] {
        for k in 0..3 {
            let mut t = T::Prim(P::U32);
            for i in 0..d { t = match k { 0 => T::Tuple(vec![T::Prim(P::U8), t]), 1 => st(vec![t, T::Str]), _ => T::Enum(vec![("x".into(), T::Unit), (format!("d{}", i), t), ("s".into(), T::Str)]) }; }
            v.push(t);
        }
    }
    v
}

/// Structs of two or three enums with two cases each, whose contents differ in size and alignment.
fn several_enums(ch: &mut Ch, th: bool) -> T {
    let all = size_leaves();
    let few = [T::Unit, T::Prim(P::U8), T::Prim(P::U64), T::Str];
    let pair = st(vec![T::Prim(P::U8), T::Prim(P::U32)]);
    let en = |ch: &mut Ch, l: &[T]| T::Enum(vec![("a".into(), ch.pick(l).clone()), ("b".into(), ch.pick(l).clone())]);
    let mut ts = vec![];
    match ch.choose(4) {
        0 => { ts.push(en(ch, &all)); ts.push(en(ch, &all)); match ch.choose(4) { 0 => {} 1 => ts.push(T::Prim(P::U8)), 2 => ts.insert(0, T::Prim(P::U32)), _ => ts.insert(1, T::Str) } }
        1 => { for _ in 0..3 { let l = if th { &all[..] } else { &few[..] }; ts.push(en(ch, l)) } }
        2 => { for _ in 0..2 { let (a, b) = (ch.pick(&few).clone(), ch.pick(&few).clone()); ts.push(T::Enum(vec![("a".into(), a), ("b".into(), st(vec![b, ch.pick(&few).clone()])), ("c".into(), pair.clone())])) } }
        // an enum inside a case of another, before and after others
        _ => { let inner = en(ch, &few); let a = ch.pick(&few).clone(); ts.push(T::Enum(vec![("a".into(), a), ("b".into(), inner)])); let e = en(ch, &few); if ch.flag() { ts.push(e) } else { ts.insert(0, e) } }
    }
    if ch.flag() { T::Tuple(ts) } else { st(ts) }
}

pub fn c03(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let n = if th { 7 } else { 6 };
    let leaves = size_leaves();
    s.push(Suite::new("shapes", &format!("all type trees with at most {} nodes, arity at most 4, over {{u8,u16,u32,u64,u128,string,unit}}, x all enum case choices x {} payload rounds", n, if th { 2 } else { 2 }), move |ch| {
        let round = ch.choose(2);
        let t = gen_type(ch, &Shape { leaves: &leaves, max_arity: 4, containers: [true; 3] }, &mut n.clone());
        let v = gen_value_round(ch, &t, [0, 3][round], &mut 0);
        let m = marshaller(ch, &t)?;
        round_trip(ch, &m, &t, &v)
    }));
    s.push(Suite::new("several-enums", "structs and tuples of 2 or 3 enums, also nested ones, with 2 or 3 cases of all combinations of sizes and alignments, and other members before, between or after them, x all case choices x 3 payload rounds", move |ch| {
        let t = several_enums(ch, th);
        let round = *ch.pick(&[0, 2, 3]);
        let v = gen_value_round(ch, &t, round, &mut 0);
        let m = marshaller(ch, &t)?;
        round_trip(ch, &m, &t, &v)
    }));
    let leaves = all_leaves();
    let n2 = if th { 5 } else { 4 };
    s.push(Suite::new("all-primitives", &format!("all type trees with at most {} nodes over all 14 primitives, string and unit, x all case choices x 4 payload rounds", n2), move |ch| {
        let round = ch.choose(4);
        let t = gen_type(ch, &Shape { leaves: &leaves, max_arity: 4, containers: [true; 3] }, &mut n2.clone());
        let v = gen_value_round(ch, &t, round, &mut 0);
        let m = marshaller(ch, &t)?;
        round_trip(ch, &m, &t, &v)
    }));
    let mut fam = vec![];
    for l in all_leaves() {
        fam.push(l.clone());
        fam.push(T::Tuple(vec![l.clone(), T::Prim(P::U8)]));
        fam.push(T::Enum(vec![("a".into(), T::Prim(P::U8)), ("b".into(), l.clone()), ("c".into(), T::Str)]));
        fam.push(T::Tuple(vec![T::Str, T::Enum(vec![("a".into(), T::Tuple(vec![l.clone(), T::Str]))])]));
        for l2 in [T::Prim(P::Bool), T::Str, T::Prim(P::I8), T::Prim(P::Char)] { fam.push(st(vec![l2, l.clone()])); }
    }
    let fam = Family::new(fam);
    s.push(Suite::new("boundary-values", "each leaf type alone and in 7 contexts x the full boundary value set at every leaf", move |ch| {
        let i = ch.choose(fam.types.len());
        let m = fam.get(ch, i)?;
        let v = gen_value_boundary(ch, &fam.types[i]);
        round_trip(ch, &m, &fam.types[i], &v)
    }));
    let fam = Family::new(vec![T::Prim(P::U8), T::Prim(P::I8), T::Prim(P::U16), T::Prim(P::I16), T::Prim(P::Char), T::Prim(P::F32)]);
    let fstep: u32 = if th { 251 } else { 4093 };
    s.push(Suite::new("all-small-values", "every u8, i8, u16, i16 and char; every F-th f32 bit pattern", move |ch| {
        let i = ch.choose(6);
        let m = fam.get(ch, i)?;
        let v = match i { 0 => V::U(ch.choose(256) as u128), 1 => V::I(ch.choose(256) as i128 - 128), 2 => V::U(ch.choose(65536) as u128), 3 => V::I(ch.choose(65536) as i128 - 32768),
            4 => match char::from_u32(ch.choose(0x110000) as u32) { Some(c) => V::Char(c), None => return Err(Stop::Skip) },
            _ => V::F32(ch.choose((u32::MAX / fstep) as usize) as u32 * fstep) };
        round_trip(ch, &m, &fam.types[i], &v)
    }));
    let fam = Family::new(many_cases(th));
    s.push(Suite::new("many-cases", "enums with 1..1025 (thorough: ..65537) cases around every power of two, alone and among neighbours, x every case", move |ch| {
        let i = ch.choose(fam.types.len());
        let m = fam.get(ch, i)?;
        let v = gen_value_round(ch, &fam.types[i], 0, &mut 0);
        round_trip(ch, &m, &fam.types[i], &v)
    }));
    let counts: Vec<usize> = if th { vec![1, 2, 3, 5, 9, 17, 33, 129, 257, 300] } else { vec![1, 2, 3, 5, 17, 129, 257] };
    s.push(Suite::new("bit-field-packing", &format!("structs of up to 4 enums with case counts from {:?} plus an optional u8/u32/u64 field, x tags from {{0, 1, middle, last}} for each", counts), move |ch| {
        let k = ch.range(1, 4);
        let extra = ch.choose(if k < 4 { 3 } else { 1 });
        let mut cs = vec![]; for _ in 0..k { cs.push(*ch.pick(&counts)); }
        let mut ts: Vec<T> = cs.iter().enumerate().map(|(j, c)| enum_n(*c, &|i| if j == 1 && i % 2 == 1 { T::Prim(P::U16) } else { T::Unit })).collect();
        match extra { 1 => ts.push(T::Prim(P::U8)), 2 => ts.insert(0, T::Prim(P::U64)), _ => {} }
        let t = st(ts.clone());
        let mut vs = vec![]; let mut salt = 0;
        for x in &ts { vs.push(match x { T::Enum(c) => {
            let mut tags = vec![0, 1, c.len() / 2, c.len() - 1]; tags.retain(|x| *x < c.len()); tags.sort(); tags.dedup();
            let tag = *ch.pick(&tags); V::Case(tag, Box::new(match &c[tag].1 { T::Unit => V::Unit, l => round_leaf(l, 0, &mut salt) })) }, l => round_leaf(l, 0, &mut salt) }); }
        let m = marshaller(ch, &t)?;
        round_trip(ch, &m, &t, &V::Seq(vs))
    }));
    s.push(Suite::new("many-bit-fields", "structs of 5..70 enums with 2..9 cases each: all-zero, all-last, one-hot, one-cold and alternating tags; all 2^n tag vectors for n up to 12 two-case enums", |ch| {
        let kind = ch.choose(2);
        if kind == 0 {
            let n = ch.range(1, 12);
            let t = st((0..n).map(|_| enum_n(2, &|_| T::Unit)).collect());
            let vs = (0..n).map(|_| V::Case(ch.choose(2), Box::new(V::Unit))).collect();
            let m = marshaller(ch, &t)?;
            return round_trip(ch, &m, &t, &V::Seq(vs));
        }
        let n = ch.range(5, 70); let c = ch.range(2, 9);
        let t = st((0..n).map(|j| enum_n(if j % 3 == 0 { 2 } else { c }, &|_| T::Unit)).collect());
        let pat = ch.choose(3 + 2 * n);
        let vs = (0..n).map(|j| { let last = if j % 3 == 0 { 1 } else { c - 1 };
            V::Case(match pat { 0 => 0, 1 => last, 2 => if j % 2 == 0 { last } else { 0 }, p if p < 3 + n => if j == p - 3 { last } else { 0 }, p => if j == p - 3 - n { 0 } else { last } }, Box::new(V::Unit)) }).collect();
        let m = marshaller(ch, &t)?;
        round_trip(ch, &m, &t, &V::Seq(vs))
    }));
    let fam = Family::new(wide());
    s.push(Suite::new("wide-and-deep", "structs and tuples with 2..300 members, containers nested 4..16 deep, x all case choices x 4 payload rounds", move |ch| {
        let i = ch.choose(fam.types.len()); let round = ch.choose(4);
        let m = fam.get(ch, i)?;
        let v = gen_value_round(ch, &fam.types[i], round, &mut 0);
        round_trip(ch, &m, &fam.types[i], &v)
    }));
    s.push(Suite::new("string-lengths", "structs of strings and case-dependent strings with every combination of lengths 0..=5, and one string of each length 0..=300 and around 65536", |ch| {
        if ch.flag() {
            let t = st(vec![T::Str, T::Enum(vec![("a".into(), T::Str), ("b".into(), st(vec![T::Str, T::Prim(P::U32)])), ("c".into(), T::Unit)]), T::Str, T::Prim(P::U8)]);
            let mk = |ch: &mut Ch, c: u8| { let n = ch.choose(6); V::Str((0..n).map(|i| (c + i as u8) as char).collect()) };
            let s1 = mk(ch, b'a'); let s2 = mk(ch, b'A');
            let e = match ch.choose(3) { 0 => V::Case(0, Box::new(mk(ch, b'0'))), 1 => V::Case(1, Box::new(V::Seq(vec![mk(ch, b'k'), V::U(0xDEADBEEF)]))), _ => V::Case(2, Box::new(V::Unit)) };
            let m = marshaller(ch, &t)?;
            round_trip(ch, &m, &t, &V::Seq(vec![s1, e, s2, V::U(0x5A)]))
        } else {
            let mut ls: Vec<usize> = (0..=300).collect(); ls.extend([65534, 65535, 65536, 65537, 70000]);
            let n = *ch.pick(&ls);
            let t = st(vec![T::Str, T::Prim(P::U16), T::Str]);
            let m = marshaller(ch, &t)?;
            round_trip(ch, &m, &t, &V::Seq(vec![V::Str("x".repeat(n)), V::U(0xBEEF), V::Str("tail".into())]))
        }
    }));
    s
}

pub fn exact(ch: &mut Ch, t: &T, v: &V, place: Place, fill: u8, extra: usize) -> Res {
    let m = marshaller(ch, t)?;
    let ds = load_new(t, v);
    let ctx = || format!("{} {} (buffer at {:?}, prior content {:#x}, {} spare bytes)", t.show(), v.show(), place, fill, extra);
    let size = ch.must(&format!("size of {}", ctx()), || m.encoding_size(&ds))?;
    ensure!(size < 1 << 24, "announced size {} for {}", size, ctx());
    let mut out: Res = Ok(());
    let fence = with_buf(size + extra, place, fill, |buf| out = (|| {
        let n = ch.must(&format!("encoding {}", ctx()), || m.encode(&ds, buf))?;
        ensure!(n == size, "{}: announced {} bytes, encode reported {}", ctx(), size, n);
        ensure!(buf[size..].iter().all(|b| *b == fill), "{}: bytes after the announced size were written: {:?}", ctx(), &buf[size..]);
        match read_guarded(&MarshallerDataSource::new(&m, &buf[..size]), t) {
            Ok(g) if g == *v => { ch.state(&buf[..size]); Ok(()) }
            Ok(g) => fail(format!("{}: read back {}", ctx(), g.show())),
            Err(e) => fail(format!("{}: reading back failed: {}", ctx(), e)),
        }
    })());
    out?;
    if let Err(e) = fence { return fail(format!("{}: {}", ctx(), e)); }
    ch.sample(|| format!("{} -> {} bytes", ctx(), size));
    Ok(())
}

/// every too-short buffer: refused, nothing outside touched; every truncated record: refused or correct
pub fn short(ch: &mut Ch, t: &T, v: &V) -> Res {
    let m = marshaller(ch, t)?;
    let ds = load_new(t, v);
    let size = ch.must("size", || m.encoding_size(&ds))?;
    ensure!(size < 1 << 24, "announced size {} for {} {}", size, t.show(), v.show());
    if size == 0 { return Err(Stop::Skip); }
    // every shorter length, or for long records those around its ends and around powers of two
    let len = if size <= 128 { ch.choose(size) } else {
        let mut v: Vec<usize> = (0..18).chain(size - 18..size).collect();
        for k in 5..21 { for d in [0usize, 1, 2] { v.push((1 << k) - 1 + d); v.push(size.saturating_sub((1 << k) - 1 + d)) } }
        v.retain(|l| *l < size); v.sort(); v.dedup();
        *ch.pick(&v)
    };
    let reading = ch.flag();
    let place = if ch.flag() { Place::End } else { Place::Start };
    let mut out: Res = Ok(());
    let fence = if !reading {
        with_buf(len, place, 0x33, |buf| out = (|| {
            match ch.call(|| m.encode(&ds, buf)) {
                Err(_) => Ok(()),
                Ok(n) => fail(format!("{} {}: needs {} bytes, encoding into a buffer of {} bytes was accepted (reported {})", t.show(), v.show(), size, len, n)),
            }
        })())
    } else {
        let mut full = vec![0u8; size];
        ch.must("encode", || m.encode(&ds, &mut full))?;
        with_buf(len, place, 0, |buf| out = (|| {
            buf.copy_from_slice(&full[..len]);
            let src = MarshallerDataSource::new(&m, buf);
            truncated(ch, &src, t, v, &cathlamet::core::types::Path::create_empty(), &|| format!("{} {} truncated from {} to {} bytes", t.show(), v.show(), size, len))
        })())
    };
    out?;
    if let Err(e) = fence { return fail(format!("{} {} with {} of {} bytes: {}", t.show(), v.show(), len, size, e)); }
    Ok(())
}

fn truncated(ch: &mut Ch, src: &MarshallerDataSource, t: &T, v: &V, path: &cathlamet::core::types::Path, ctx: &dyn Fn() -> String) -> Res {
    use cathlamet::core::data_source::DataSource;
    match (t, v) {
        (T::Unit, _) => Ok(()),
        (T::Prim(p), v) => match ch.call(|| read_prim(src, *p, path)) { Err(_) => Ok(()), Ok(g) => { ensure!(g == *v, "{}: reads {} instead of {}", ctx(), g.show(), v.show()); Ok(()) } },
        (T::Str, V::Str(s)) => {
            if let Ok(n) = ch.call(|| src.get_length(path)) { ensure!(n == s.len(), "{}: length reads {} instead of {}", ctx(), n, s.len()); }
            if let Ok(b) = ch.call(|| src.get_bytes(path).to_vec()) { ensure!(b == s.as_bytes(), "{}: string reads {:?} instead of {:?}", ctx(), b, s); }
            Ok(())
        }
        (T::Tuple(ts), V::Seq(vs)) => { for i in 0..ts.len() { truncated(ch, src, &ts[i], &vs[i], &path.with_component(i), ctx)? } Ok(()) }
        (T::Struct(ts), V::Seq(vs)) => { for i in 0..ts.len() { truncated(ch, src, &ts[i].1, &vs[i], &path.with_component(i), ctx)? } Ok(()) }
        (T::Enum(ts), V::Case(c, v)) => {
            if let Ok(n) = ch.call(|| src.get_case_tag(path)) { ensure!(n == *c, "{}: case reads {} instead of {}", ctx(), n, c); }
            truncated(ch, src, &ts[*c].1, v, &path.with_component(*c), ctx)
        }
        _ => unreachable!(),
    }
}

pub fn c04(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let n = if th { 6 } else { 5 };
    let leaves = size_leaves();
    s.push(Suite::new("exact-size", &format!("all type trees with at most {} nodes over 7 leaf classes x all case choices x 2 payload rounds, buffer fenced by inaccessible pages right behind it, prior content 0x00 and 0xFF", n), move |ch| {
        let fill = [0xFFu8, 0][ch.choose(2)];
        let round = [0, 2][ch.choose(2)];
        let t = gen_type(ch, &Shape { leaves: &leaves, max_arity: 4, containers: [true; 3] }, &mut n.clone());
        let v = gen_value_round(ch, &t, round, &mut 0);
        exact(ch, &t, &v, Place::End, fill, 0)
    }));
    let leaves = all_leaves();
    let n2 = if th { 4 } else { 3 };
    s.push(Suite::new("placement", &format!("all type trees with at most {} nodes over all leaves x all case choices x every start address modulo 16, both fences x prior content {{0x00,0xFF,0x5A}} x spare bytes {{0,1,9}}", n2), move |ch| {
        let t = gen_type(ch, &Shape { leaves: &leaves, max_arity: 4, containers: [true; 3] }, &mut n2.clone());
        let v = gen_value_round(ch, &t, 0, &mut 0);
        let place = match ch.choose(18) { 0 => Place::End, 1 => Place::Start, k => Place::Offset(k - 2) };
        let (fill, extra) = *ch.pick(&[(0xFFu8, 0usize), (0, 1), (0x5A, 9)]);
        exact(ch, &t, &v, place, fill, extra)
    }));
    s.push(Suite::new("several-enums", "structs and tuples of 2 or 3 enums, also nested ones, with 2 or 3 cases of all combinations of sizes and alignments, and other members before, between or after them, x all case choices x 2 payload rounds at the end of a fenced buffer", move |ch| {
        let t = several_enums(ch, th);
        let round = *ch.pick(&[0, 2]);
        let v = gen_value_round(ch, &t, round, &mut 0);
        exact(ch, &t, &v, Place::End, 0xFF, 0)
    }));
    let leaves = size_leaves();
    let n3 = if th { 5 } else { 4 };
    s.push(Suite::new("short-buffers", &format!("all type trees with at most {} nodes over 7 leaf classes x all case choices: every buffer length below the announced size for encoding, every truncation for reading, fenced on either side", n3), move |ch| {
        let t = gen_type(ch, &Shape { leaves: &leaves, max_arity: 4, containers: [true; 3] }, &mut n3.clone());
        let v = gen_value_round(ch, &t, 0, &mut 0);
        short(ch, &t, &v)
    }));
    let fam: Vec<T> = wide().into_iter().chain(many_cases(false).into_iter().filter(|t| format!("{:?}", t).len() < 6000)).collect();
    s.push(Suite::new("large-types", "wide, deep and many-case types: exact size at End/odd address with both prior contents", move |ch| {
        let t = ch.pick(&fam).clone();
        let round = ch.choose(4);
        let v = gen_value_round(ch, &t, round, &mut 0);
        let (place, fill, extra) = *ch.pick(&[(Place::End, 0xFFu8, 0usize), (Place::Offset(1), 0, 3), (Place::Start, 0xFF, 1)]);
        exact(ch, &t, &v, place, fill, extra)
    }));
    s
}
