//! C05-C08, C12: JSON encoder, decoder, tokenizer and the conversion pipeline.
use crate::c_marshal::*;
use crate::engine::*;
use crate::ensure;
use crate::json::{self, denote, D, LT};
use crate::tv::*;
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::json::decoder::JsonDecoder;
use cathlamet::core::json::encoder::JsonEncoder;
use cathlamet::core::json::tokenizer::{Token, Tokenizer};
use cathlamet::core::marshaller::{Layout, Marshaller, MarshallerDataSource};
use std::io;
use std::sync::Arc;

fn short(b: &[u8]) -> String { let s = String::from_utf8_lossy(b); if s.chars().count() > 300 { s.chars().take(300).collect::<String>() + "..." } else { s.into_owned() } }

fn encode(ch: &mut Ch, e: &JsonEncoder, ds: &dyn DataSource, what: &dyn Fn() -> String) -> Result<Vec<u8>, Stop> {
    let mut out = vec![];
    match ch.call(|| e.encode(&mut out, ds)) {
        Ok(Ok(())) => Ok(out),
        Ok(Err(x)) => fail(format!("encoding {} failed: {}", what(), x)),
        Err(m) => fail(format!("encoding {} panicked: {}", what(), m)),
    }
}

struct Pair { e: JsonEncoder, d: JsonDecoder }
fn pair(ch: &mut Ch, t: &T) -> Result<Pair, Stop> {
    let rt = t.repo();
    ch.must(&format!("encoder and decoder for {}", t.show()), || Pair { e: JsonEncoder::new(&rt), d: JsonDecoder::new(&rt) })
}

/// encode and decode again
pub fn identity(ch: &mut Ch, t: &T, v: &V) -> Res {
    let mut p = pair(ch, t)?;
    let what = || format!("{} = {}", t.show(), v.show());
    let ds = load_new(t, v);
    let out = encode(ch, &p.e, &ds, &what)?;
    let text = match std::str::from_utf8(&out) { Ok(s) => s, Err(_) => return fail(format!("{}: output is not UTF-8: {:?}", what(), short(&out))) };
    let mut back = IntermediateDataSource::new();
    match ch.must(&format!("decoding {} for {}", short(&out), what()), || p.d.parse(text, &mut back))? { Ok(()) => {} Err(e) => return fail(format!("{}: encoded as {} which the decoder rejects: {}", what(), short(&out), e)) }
    match read_guarded(&back, t) {
        Ok(g) if canon(&g) == canon(v) => {}
        Ok(g) => return fail(format!("{}: encoded as {} which decodes to {}", what(), short(&out), g.show())),
        Err(e) => return fail(format!("{}: encoded as {}, reading the decoded value failed: {}", what(), short(&out), e)),
    }
    ch.state(&out);
    ch.sample(|| format!("{} -> {}", what(), short(&out)));
    Ok(())
}

/// the output is a JSON document that denotes the value
pub fn well_formed(ch: &mut Ch, t: &T, v: &V) -> Res {
    let rt = t.repo();
    let e = ch.must("encoder", || JsonEncoder::new(&rt))?;
    let what = || format!("{} = {}", t.show(), v.show());
    let out = encode(ch, &e, &load_new(t, v), &what)?;
    judge(&out, t, v, &what)?;
    ch.state(&out);
    ch.sample(|| format!("{} -> {}", what(), short(&out)));
    Ok(())
}
fn judge(out: &[u8], t: &T, v: &V, what: &dyn Fn() -> String) -> Res {
    let text = match std::str::from_utf8(out) { Ok(s) => s, Err(_) => return fail(format!("{}: output is not UTF-8: {}", what(), short(out))) };
    let j = match json::parse(text) { Some(j) => j, None => return fail(format!("{}: output is not JSON: {}", what(), short(out))) };
    match denote(t, &j) {
        D::Yes(d) if canon(&d) == canon(v) => Ok(()),
        d => fail(format!("{}: output {} denotes {:?}", what(), short(out), d).chars().take(1500).collect::<String>()),
    }
}

fn labels_type(k: usize) -> T {
    // member names that need escaping or look like the encoder's own
    let l = ["kind", "value", "a\"b", "a\\b", "/", "\n", "\u{1f}", "", "é", "€", "😀", "\u{8000}", "null", "true", "a.b", "\u{0}", " "];
    let l: Vec<String> = l.iter().map(|s| s.to_string()).collect();
    match k {
        0 => T::Struct(l.into_iter().enumerate().map(|(i, l)| (l, if i % 2 == 0 { T::Prim(P::U8) } else { T::Str })).collect()),
        1 => T::Enum(l.into_iter().enumerate().map(|(i, l)| (l, if i % 2 == 0 { T::Prim(P::U8) } else { T::Unit })).collect()),
        2 => T::Struct(vec![("kind".into(), T::Enum(vec![("value".into(), T::Unit), ("kind".into(), T::Str)])), ("value".into(), T::Str)]),
        3 => T::Enum(vec![("kind".into(), T::Struct(vec![("value".into(), T::Prim(P::U8)), ("kind".into(), T::Str)])), ("value".into(), T::Enum(vec![("kind".into(), T::Unit)]))]),
        4 => T::Enum(vec![("x".into(), T::Tuple(vec![]))]),
        _ => T::Struct(vec![("a".into(), T::Struct(vec![])), ("b".into(), T::Tuple(vec![]))]),
    }
}

fn contexts(l: &T) -> Vec<T> {
    vec![l.clone(), T::Tuple(vec![l.clone(), T::Prim(P::U8)]), T::Enum(vec![("a".into(), T::Unit), ("b".into(), l.clone())]), st(vec![T::Str, l.clone()]), T::Tuple(vec![T::Tuple(vec![l.clone()]), l.clone()])]
}

fn value_suites(th: bool, f: fn(&mut Ch, &T, &V) -> Res) -> Vec<Suite> {
    let mut s = vec![];
    let n = if th { 8 } else { 7 };
    s.push(Suite::new("shapes", &format!("all type trees with at most {} nodes, arity at most 4, over {{u8, string, unit, f64}}, x all case choices x 2 payload rounds", n), move |ch| {
        let leaves = [T::Prim(P::U8), T::Str, T::Unit, T::Prim(P::F64)];
        let round = ch.choose(2);
        let t = gen_type(ch, &Shape { leaves: &leaves, max_arity: 4, containers: [true; 3] }, &mut n.clone());
        let v = gen_value_round(ch, &t, [0, 1][round], &mut 0);
        f(ch, &t, &v)
    }));
    let n2 = if th { 6 } else { 5 };
    s.push(Suite::new("all-primitives", &format!("all type trees with at most {} nodes over all 14 primitives, string and unit, x all case choices x 4 payload rounds", n2), move |ch| {
        let leaves = all_leaves();
        let round = ch.choose(4);
        let t = gen_type(ch, &Shape { leaves: &leaves, max_arity: 4, containers: [true; 3] }, &mut n2.clone());
        let v = gen_value_round(ch, &t, round, &mut 0);
        f(ch, &t, &v)
    }));
    s.push(Suite::new("boundary-values", "each leaf type in 5 contexts x the full boundary value set at every leaf", move |ch| {
        let leaves = all_leaves();
        let l = ch.pick(&leaves).clone();
        let t = ch.pick(&contexts(&l)).clone();
        let v = gen_value_boundary(ch, &t);
        f(ch, &t, &v)
    }));
    s.push(Suite::new("all-characters", "every Unicode scalar value as a char, and in first, middle and last position of a string", move |ch| {
        let mode = ch.choose(2);
        let hi = ch.choose(0x1100);
        let lo = ch.choose(0x100);
        let c = match char::from_u32((hi * 256 + lo) as u32) { Some(c) => c, None => return Err(Stop::Skip) };
        if mode == 0 { f(ch, &T::Prim(P::Char), &V::Char(c)) } else { f(ch, &T::Tuple(vec![T::Str, T::Str, T::Str]), &V::Seq(vec![V::Str(format!("{}", c)), V::Str(format!("x{}y", c)), V::Str(format!("\"{}{}", c, c))])) }
    }));
    s.push(Suite::new("all-small-values", "every u8, i8, u16, i16 value", move |ch| {
        match ch.choose(4) { 0 => { let x = ch.choose(256); f(ch, &T::Prim(P::U8), &V::U(x as u128)) } 1 => { let x = ch.choose(256); f(ch, &T::Prim(P::I8), &V::I(x as i128 - 128)) }
            2 => { let x = ch.choose(65536); f(ch, &T::Prim(P::U16), &V::U(x as u128)) } _ => { let x = ch.choose(65536); f(ch, &T::Prim(P::I16), &V::I(x as i128 - 32768)) } }
    }));
    let step: u32 = if th { 61 } else { 4093 };
    s.push(Suite::new("floats", &format!("f32: every {}th bit pattern; f64: every exponent x sign x 26 mantissas", step), move |ch| {
        if ch.flag() { let hi = ch.choose((u32::MAX / step / 1024) as usize + 1) as u32; let lo = ch.choose(1024) as u32;
            let b = match (hi * 1024 + lo).checked_mul(step) { Some(b) => b, None => return Err(Stop::Skip) };
            return f(ch, &T::Prim(P::F32), &V::F32(b)); }
        let e = ch.choose(4096) as u64; let m = ch.choose(26);
        let mant = match m { 0 => 0, 1 => 1, 2 => (1u64 << 52) - 1, 3 => 1 << 51, 4 => 0x5555555555555, 5 => 0xaaaaaaaaaaaaa, k => 0x123456789abcdu64.rotate_left(k as u32 * 7) & ((1 << 52) - 1) };
        f(ch, &T::Prim(P::F64), &V::F64(e << 52 | mant))
    }));
    s.push(Suite::new("names", "structs and enums whose member names are empty, need escaping, are not ASCII, or are `kind`/`value`; empty structs and tuples; x all case choices x 4 rounds", move |ch| {
        let t = labels_type(ch.choose(6));
        let r = ch.choose(4);
        let v = gen_value_round(ch, &t, r, &mut 0);
        f(ch, &t, &v)
    }));
    s.push(Suite::new("wide-and-deep", "structs, tuples of 2..300 members, enums of 1..1025 cases, nesting to depth 16; x 2 rounds", move |ch| {
        let fam: &Vec<T> = { static F: std::sync::OnceLock<Vec<T>> = std::sync::OnceLock::new(); F.get_or_init(|| { let mut v = wide(); v.extend(many_cases(false)); v }) };
        let i = ch.choose(fam.len());
        let r = ch.choose(2);
        let v = match &fam[i] {
            // building the codec dominates: not every case of the biggest
            T::Enum(cs) if cs.len() > 40 => { let tags = [0, 1, 9, 10, cs.len() / 2, cs.len() - 2, cs.len() - 1]; let c = *ch.pick(&tags); V::Case(c, Box::new(gen_value_round(ch, &cs[c].1, r, &mut 0))) }
            T::Struct(fs) if fs.iter().any(|(_, t)| matches!(t, T::Enum(c) if c.len() > 40)) => {
                let mut salt = 0; let k = ch.choose(5);
                V::Seq(fs.iter().map(|(_, t)| match t { T::Enum(c) => { let tag = [0, 1, c.len() / 2, c.len() - 1, 7][k].min(c.len() - 1); V::Case(tag, Box::new(match &c[tag].1 { T::Unit => V::Unit, l => round_leaf(l, r, &mut salt) })) } l => round_leaf(l, r, &mut salt) }).collect())
            }
            t => gen_value_round(ch, t, r, &mut 0),
        };
        f(ch, &fam[i], &v)
    }));
    s
}

pub fn c05(th: bool) -> Vec<Suite> {
    let mut s = value_suites(th, identity);
    if th {
        s.push(Suite::new("all-f32", "every f32 bit pattern", |ch| {
            let hi = ch.choose(65536) as u32;
            let t = T::Prim(P::F32); let rt = t.repo();
            let e = JsonEncoder::new(&rt); let mut d = JsonDecoder::new(&rt);
            let path = cathlamet::core::types::Path::create_empty();
            let r = ch.call(|| {
                let mut out = Vec::with_capacity(64); let mut a = IntermediateDataSource::new(); let mut b = IntermediateDataSource::new();
                for lo in 0..65536u32 {
                    let v = f32::from_bits(hi << 16 | lo);
                    a.add_primitive(&path, cathlamet::core::value::PrimitiveValue::F32(v));
                    out.clear();
                    e.encode(&mut out, &a).map_err(|x| x.to_string())?;
                    d.parse(std::str::from_utf8(&out).map_err(|x| x.to_string())?, &mut b).map_err(|x| format!("{:?}: {}", v, x))?;
                    let w = b.get_f32(&path);
                    if w.to_bits() != v.to_bits() && !(w.is_nan() && v.is_nan()) { return Err(format!("f32 {:?} came back as {:?}", v, w)); }
                }
                Ok(())
            });
            match r { Ok(Ok(())) => Ok(()), Ok(Err(m)) => fail(m), Err(m) => fail(format!("f32 block {:#x}: panicked: {}", hi, m)) }
        }));
    }
    s
}

// ------------------------------------------------------------------------------------------------- C06 sinks

/// A sink whose behaviour at every write call is chosen by the explorer.
struct Sink<'a, 'b> { ch: &'a mut Ch<'b>, data: Vec<u8>, budget: usize, failed: bool, after_fail: bool }
impl<'a, 'b> io::Write for Sink<'a, 'b> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed { self.after_fail = true; }
        if b.is_empty() { return Ok(0); }
        let k = if self.budget == 0 { 0 } else { self.ch.choose(if b.len() > 1 { 5 } else { 4 }) };
        if k > 0 { self.budget -= 1 }
        match k {
            0 => { self.data.extend_from_slice(b); Ok(b.len()) }
            1 => Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")),
            2 => { self.failed = true; Err(io::Error::new(io::ErrorKind::Other, "sink failed")) }
            3 => { self.failed = true; Ok(0) }
            _ => { self.data.push(b[0]); Ok(1) }
        }
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
const ERROR_KINDS: &[io::ErrorKind] = { use io::ErrorKind::*; &[NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, UnexpectedEof, Unsupported, OutOfMemory, Other] };
fn kind_error(k: usize) -> io::Error {
    match k.checked_sub(ERROR_KINDS.len()) { None => io::Error::new(ERROR_KINDS[k], "sink failed"), Some(0) => io::Error::from_raw_os_error(libc::ENOSPC), _ => io::Error::from(io::ErrorKind::Other) }
}
/// A sink one of whose calls fails; flushing counts as a call.
struct KindSink { data: Vec<u8>, max: usize, fail_at: usize, calls: usize, kind: usize }
impl KindSink { fn call(&mut self) -> io::Result<()> { self.calls += 1; if self.calls - 1 == self.fail_at { Err(kind_error(self.kind)) } else { Ok(()) } } }
impl io::Write for KindSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.call()?; let n = b.len().min(self.max); self.data.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { self.call() }
}
struct Narrow { data: Vec<u8>, max: usize }
impl io::Write for Narrow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(self.max); self.data.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn sink_docs() -> Vec<(T, V)> {
    let mut v = vec![];
    for s in ["", "a", "ab\"", "\n/\\", "\u{1}", "é", "€x", "😀", "\u{8000}"] { v.push((T::Str, V::Str(s.into()))); }
    for c in ['a', '"', '\u{1f}', 'é', '€', '😀', '\u{9000}', '\t', '\u{8}', '\u{c}', '\r'] { v.push((T::Prim(P::Char), V::Char(c))); }
    v.push((T::Prim(P::U128), V::U(u128::MAX)));
    v.push((T::Prim(P::I64), V::I(-42)));
    v.push((T::Prim(P::F64), V::F64((-1.5f64).to_bits())));
    v.push((T::Prim(P::F64), V::F64(f64::INFINITY.to_bits())));
    v.push((T::Prim(P::F32), V::F32(f32::NAN.to_bits())));
    v.push((T::Prim(P::Bool), V::Bool(true)));
    v.push((T::Prim(P::Bool), V::Bool(false)));
    v.push((T::Unit, V::Unit));
    v.push((T::Tuple(vec![T::Prim(P::U8), T::Str, T::Unit]), V::Seq(vec![V::U(255), V::Str("h€".into()), V::Unit])));
    v.push((st(vec![T::Str, T::Prim(P::Char)]), V::Seq(vec![V::Str("é".into()), V::Char('x')])));
    v.push((T::Enum(vec![("no".into(), T::Unit), ("yes".into(), T::Tuple(vec![T::Str]))]), V::Case(1, Box::new(V::Seq(vec![V::Str("\u{2}z".into())])))));
    v
}

pub fn c06(th: bool) -> Vec<Suite> {
    let mut s = value_suites(th, well_formed);
    s.push(Suite::new("narrow-sinks", "every sink that takes at most 1..8 bytes per write x all values of the shapes suite with at most 4 nodes and of 27 sample documents", move |ch| {
        let max = ch.range(1, 8);
        let docs = sink_docs();
        let (t, v) = if ch.flag() { ch.pick(&docs).clone() } else {
            let leaves = [T::Prim(P::U16), T::Str, T::Unit, T::Prim(P::Char)];
            let t = gen_type(ch, &Shape { leaves: &leaves, max_arity: 3, containers: [true; 3] }, &mut 4);
            let r = ch.choose(2);
            let v = gen_value_round(ch, &t, r, &mut 0); (t, v)
        };
        let rt = t.repo();
        let e = JsonEncoder::new(&rt);
        let ds = load_new(&t, &v);
        let mut k = Narrow { data: vec![], max };
        match ch.must("encode", || e.encode(&mut k, &ds))? { Ok(()) => {} Err(x) => return fail(format!("{} {}: error {} from a sink that never fails", t.show(), v.show(), x)) }
        let mut st = k.data.clone(); st.push(max as u8); ch.state(&st);
        judge(&k.data, &t, &v, &|| format!("{} = {} into a sink taking {} bytes at a time", t.show(), v.show(), max))
    }));
    s.push(Suite::new("error-kinds", &format!("27 sample documents x an error of each of {} kinds, or a failing flush, at each of the sink's calls x sinks that take 1, 3 or any number of bytes", ERROR_KINDS.len()), move |ch| {
        let docs = sink_docs();
        let (t, v) = ch.pick(&docs).clone();
        let rt = t.repo();
        let e = JsonEncoder::new(&rt);
        let ds = load_new(&t, &v);
        let max = *ch.pick(&[usize::MAX, 3, 1]);
        let kind = ch.choose(ERROR_KINDS.len() + 2);
        let mut full = KindSink { data: vec![], max, fail_at: usize::MAX, calls: 0, kind };
        match ch.must("encode", || e.encode(&mut full, &ds))? { Ok(()) => {} Err(x) => return fail(format!("{} {}: {}", t.show(), v.show(), x)) }
        let at = ch.choose(full.calls);
        let mut k = KindSink { data: vec![], max, fail_at: at, calls: 0, kind };
        let r = ch.must("encode", || e.encode(&mut k, &ds))?;
        let mut st = k.data.clone(); st.extend([kind as u8, at as u8, max as u8]); ch.state(&st);
        ensure!(r.is_err(), "{} = {}: the sink's call {} failed with {:?}, but encoding reported success (received {:?})", t.show(), v.show(), at, kind_error(kind), String::from_utf8_lossy(&k.data));
        ensure!(full.data.starts_with(&k.data), "{} = {}: the sink's call {} failed with {:?}, and {:?} was delivered instead of a beginning of {:?}", t.show(), v.show(), at, kind_error(kind), String::from_utf8_lossy(&k.data), String::from_utf8_lossy(&full.data));
        Ok(())
    }));
    let b = if th { 4 } else { 3 };
    s.push(Suite::new("faulty-sinks", &format!("27 sample documents x every placement of up to {} deviations (short write, interrupted, hard error, full) over the sink's write calls", b), move |ch| {
        let docs = sink_docs();
        let (t, v) = ch.pick(&docs).clone();
        let rt = t.repo();
        let e = JsonEncoder::new(&rt);
        let ds = load_new(&t, &v);
        let what = format!("{} = {}", t.show(), v.show());
        let mut full = vec![];
        match ch.must("encode", || e.encode(&mut full, &ds))? { Ok(()) => {} Err(x) => return fail(format!("{}: {}", what, x)) }
        let (r, data, failed, after) = { let mut k = Sink { ch, data: vec![], budget: b, failed: false, after_fail: false };
            let r = guarded(|| e.encode(&mut k, &ds)); (r, k.data, k.failed, k.after_fail) };
        let tr: Vec<u32> = ch.trace.iter().map(|x| x.0).collect();
        match r {
            Err(m) => return fail(format!("{}: encoding into a faulty sink panicked: {} (write outcomes {:?})", what, m, tr)),
            Ok(Ok(())) => { ensure!(!failed, "{}: success reported although a write failed (write outcomes {:?}, wrote {})", what, tr, short(&data)); ensure!(data == full, "{}: success reported but the sink received {} (write outcomes {:?})", what, short(&data), tr); }
            Ok(Err(x)) => { ensure!(failed, "{}: error '{}' although every write could be completed (write outcomes {:?})", what, x, tr); ensure!(full.starts_with(&data), "{}: after a failed write the sink holds {} which is no prefix (write outcomes {:?})", what, short(&data), tr); ensure!(!after, "{}: went on writing after the sink had failed (write outcomes {:?})", what, tr); }
        }
        ch.state(&[&data[..], &[failed as u8]].concat());
        Ok(())
    }));
    s
}

// ------------------------------------------------------------------------------------------------- C07 decoder

/// Compare the decoder with the oracle on one text.
pub fn decode_check(ch: &mut Ch, d: &mut JsonDecoder, t: &T, text: &str) -> Res {
    let want = match json::parse(text) { Some(j) => denote(t, &j), None => D::No };
    let mut ds = IntermediateDataSource::new();
    let tag = |w: &D| match w { D::Yes(v) => format!("accept with {}", v.show()), D::Maybe(_) => "either".into(), D::No => "reject".into() };
    let got = match ch.call(|| d.parse(text, &mut ds)) { Ok(r) => r, Err(m) => return fail(format!("decoding {:?} as {} panicked: {}", short(text.as_bytes()), t.show(), m)) };
    match (&got, &want) {
        (Err(_), D::Yes(_)) => return fail(format!("decoding {:?} as {}: rejected ({}), should {}", short(text.as_bytes()), t.show(), got.unwrap_err(), tag(&want))),
        (Ok(()), D::No) => return fail(format!("decoding {:?} as {}: accepted, should be rejected (decoded {:?})", short(text.as_bytes()), t.show(), read_guarded(&ds, t).map(|v| v.show()))),
        (Ok(()), D::Yes(v)) | (Ok(()), D::Maybe(Some(v))) => match read_guarded(&ds, t) {
            Ok(g) if canon(&g) == canon(v) => {}
            Ok(g) => return fail(format!("decoding {:?} as {}: got {}, it denotes {}", short(text.as_bytes()), t.show(), g.show(), v.show())),
            Err(e) => return fail(format!("decoding {:?} as {}: accepted, but reading failed: {}", short(text.as_bytes()), t.show(), e)),
        },
        _ => {}
    }
    let mut st = text.as_bytes().to_vec(); st.extend_from_slice(t.show().as_bytes()); ch.state(&st);
    ch.sample(|| format!("{:?} as {}: {}", short(text.as_bytes()), t.show(), if got.is_ok() { "accepted" } else { "rejected" }));
    Ok(())
}
pub fn decoder(ch: &mut Ch, t: &T) -> Result<JsonDecoder, Stop> { let rt = t.repo(); ch.must(&format!("decoder for {}", t.show()), || JsonDecoder::new(&rt)) }

fn perm(ch: &mut Ch, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect(); let mut o = vec![];
    while !left.is_empty() { let i = ch.choose(left.len()); o.push(left.remove(i)); }
    o
}
fn mutation_types() -> Vec<T> {
    let u8_ = T::Prim(P::U8);
    vec![u8_.clone(), T::Unit, T::Str, T::Prim(P::Bool), T::Prim(P::Char), T::Prim(P::F64), T::Prim(P::I16), T::Tuple(vec![]), T::Struct(vec![]), T::Tuple(vec![u8_.clone()]),
        T::Tuple(vec![u8_.clone(), T::Str]), T::Tuple(vec![u8_.clone(), u8_.clone(), u8_.clone()]), st(vec![u8_.clone()]), T::Struct(vec![("a".into(), u8_.clone()), ("b".into(), T::Unit)]),
        T::Struct(vec![("a".into(), u8_.clone()), ("b".into(), u8_.clone()), ("c".into(), u8_.clone())]),
        T::Enum(vec![("a".into(), u8_.clone()), ("b".into(), T::Unit)]), T::Enum(vec![("value".into(), u8_.clone()), ("kind".into(), T::Str)]),
        T::Struct(vec![("kind".into(), T::Str), ("value".into(), u8_.clone())]),
        T::Tuple(vec![T::Tuple(vec![u8_.clone()]), T::Enum(vec![("a".into(), T::Unit)])]), T::Struct(vec![("a".into(), T::Struct(vec![("a".into(), u8_.clone())]))]),
        T::Struct(vec![("a".into(), T::Enum(vec![("a".into(), T::Tuple(vec![u8_.clone()])), ("b".into(), T::Unit)])), ("b".into(), T::Tuple(vec![u8_.clone(), T::Unit]))])]
}
const PALETTE: &[&str] = &["{", "}", "[", "]", ",", ":", "null", "true", "false", "\"a\"", "\"b\"", "\"kind\"", "\"value\"", "\"\"", "\"7\"", "0", "7", "-1", "256", "1.0", "1e1", "1.", "x", "\"", "\u{a0}", "\\", "/"];

pub fn c07(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let n = if th { 8 } else { 7 };
    s.push(Suite::new("member-orders", &format!("all type trees with at most {} nodes over {{u8, string, unit}}, arity at most 4, x all case choices x all struct member orders", n), move |ch| {
        let leaves = [T::Prim(P::U8), T::Str, T::Unit];
        let t = gen_type(ch, &Shape { leaves: &leaves, max_arity: 4, containers: [true; 3] }, &mut n.clone());
        let v = gen_value_round(ch, &t, 0, &mut 0);
        let mut out = vec![];
        json::tokens(&t, &v, &mut out, &mut |n| perm(ch, n));
        let mut d = decoder(ch, &t)?;
        decode_check(ch, &mut d, &t, &out.concat())
    }));
    s.push(Suite::new("whitespace-and-escapes", "21 types x their values x up to 2 deviations: each kind of whitespace (space, tab, LF, CR, all of them, a non-JSON space, form feed, NUL, comment) at each token boundary; each string written with \\u escapes in either case, each number as a string", move |ch| {
        let types = mutation_types();
        let t = ch.pick(&types).clone();
        let v = gen_value_round(ch, &t, 0, &mut 0);
        let mut out = vec![];
        json::tokens(&t, &v, &mut out, &mut |n| perm(ch, n));
        let mut text = String::new();
        let mut budget = 2;
        const WS: &[&str] = &["", " ", "\t", "\n", "\r", " \t\r\n ", "\u{a0}", "\u{c}", "\u{b}", "\u{2028}", "\u{feff}", "\u{85}", "\u{3000}", "\0", "/**/"];
        let mut gap = |ch: &mut Ch, text: &mut String, b: &mut usize| { let k = if *b > 0 { ch.choose(WS.len()) } else { 0 }; if k > 0 { *b -= 1 } *text += WS[k]; };
        for (i, tok) in out.iter().enumerate() {
            gap(ch, &mut text, &mut budget);
            let _ = i;
            let kinds = if budget == 0 { 1 } else if tok.starts_with('"') { 3 } else if tok.starts_with(|c: char| c == '-' || c.is_ascii_digit()) { 2 } else { 1 };
            let k = ch.choose(kinds);
            if k > 0 { budget -= 1 }
            if k == 0 { text += tok } else if tok.starts_with('"') { let inner = match json::parse(tok) { Some(json::J::Str(s)) => s, _ => return Err(Stop::Skip) }; text += &json::quote_u(&inner, k == 2) } else { text += &format!("\"{}\"", tok) }
        }
        gap(ch, &mut text, &mut budget);
        let mut d = decoder(ch, &t)?;
        decode_check(ch, &mut d, &t, &text)
    }));
    let muts = if th { 3 } else { 2 };
    s.push(Suite::new("token-mutations", &format!("21 types x their values x every sequence of {} edits: delete, duplicate, swap with next, replace by or insert one of {} tokens, cut off at any character", muts, PALETTE.len()), move |ch| {
        let types = mutation_types();
        let t = ch.pick(&types).clone();
        let v = gen_value_round(ch, &t, 0, &mut 0);
        let mut toks = vec![];
        json::tokens(&t, &v, &mut toks, &mut |n| if muts > 1 { (0..n).collect() } else { perm(ch, n) });
        let spaced = ch.flag();
        for _ in 0..muts {
            let i = ch.choose(toks.len() + 1);
            match ch.choose(5) {
                0 => if i < toks.len() { toks.remove(i); } else { return Err(Stop::Skip) },
                1 => if i < toks.len() { let x = toks[i].clone(); toks.insert(i, x) } else { return Err(Stop::Skip) },
                2 => if i + 1 < toks.len() { toks.swap(i, i + 1) } else { return Err(Stop::Skip) },
                3 => if i < toks.len() { toks[i] = ch.pick(PALETTE).to_string() } else { return Err(Stop::Skip) },
                _ => toks.insert(i, ch.pick(PALETTE).to_string()),
            }
            if toks.is_empty() { break; }
        }
        let text = toks.join(if spaced { " " } else { "" });
        let mut d = decoder(ch, &t)?;
        decode_check(ch, &mut d, &t, &text)
    }));
    s.push(Suite::new("truncations", "21 types x their values x spaced or not: every proper prefix of the document, alone and followed by each of 27 tokens; the document followed by each token", move |ch| {
        let types = mutation_types();
        let t = ch.pick(&types).clone();
        let v = gen_value_round(ch, &t, 0, &mut 0);
        let mut toks = vec![];
        json::tokens(&t, &v, &mut toks, &mut |n| (0..n).collect());
        let text = toks.join(if ch.flag() { " " } else { "" });
        let cs: Vec<char> = text.chars().collect();
        let k = ch.range(0, cs.len());
        let mut cut: String = cs[..k].iter().collect();
        let tail = ch.choose(PALETTE.len() + 1);
        if tail > 0 { if ch.flag() { cut.push(' ') } cut += PALETTE[tail - 1]; }
        let mut d = decoder(ch, &t)?;
        decode_check(ch, &mut d, &t, &cut)
    }));
    s.push(Suite::new("labels", "6 types x each of their documents x each label or string in them replaced by each of about 90 others: other case of a letter or of all, a character added (also a space, a combining mark, U+0000, U+FEFF), removed, doubled or exchanged with the next, escaped, or the label of another place", |ch| {
        let u = T::Prim(P::U8);
        let e = T::Enum(vec![("kind".into(), u.clone()), ("value".into(), T::Unit), ("Kind".into(), T::Str), ("é".into(), u.clone())]);
        let s = |l: Vec<(&str, T)>| T::Struct(l.into_iter().map(|(n, t)| (n.to_string(), t)).collect());
        let types = [e.clone(), s(vec![("kind", u.clone()), ("value", u.clone())]), s(vec![("kind", e.clone())]), T::Enum(vec![("some".into(), s(vec![("value", u.clone()), ("Value", T::Prim(P::Char)), ("values", T::Prim(P::Bool))])), ("Some".into(), T::Str)]), s(vec![("value", T::Enum(vec![("value".into(), T::Enum(vec![("kind".into(), T::Unit)]))])), ("ß", T::Str), ("K", u.clone())]), T::Tuple(vec![T::Str, T::Prim(P::F64), T::Prim(P::Char), T::Prim(P::Bool), T::Unit])];
        let t = ch.pick(&types).clone();
        let v = gen_value_round(ch, &t, 0, &mut 0);
        let mut toks = vec![];
        json::tokens(&t, &v, &mut toks, &mut |n| (0..n).collect());
        let i = ch.choose(toks.len());
        if toks[i].len() < 2 && !toks[i].starts_with(|c: char| c.is_ascii_alphanumeric()) { return Err(Stop::Skip); }
        let inner = match json::parse(&toks[i]) { Some(json::J::Str(s)) => s, _ => toks[i].clone() };
        let quoted = toks[i].starts_with('"');
        let c: Vec<char> = inner.chars().collect();
        let q = |s: String| if quoted { json::quote(&s) } else { s };
        let mut all: Vec<String> = vec![q(inner.to_uppercase()), q(inner.to_lowercase()), q(String::new()), format!(" {} ", toks[i]), json::quote(&toks[i]), json::quote_u(&inner, true), json::quote_u(&inner, false)];
        for l in ["kind", "value", "Value", "values", "some", "null", "true", "ss", "\u{212a}ind", "k", "1", "kind\u{0}value"] { all.push(q(l.into())) }
        for k in 0..c.len() {
            let with = |f: &dyn Fn(&mut Vec<char>)| { let mut d = c.clone(); f(&mut d); q(d.into_iter().collect()) };
            all.push(with(&|d| { d.remove(k); })); all.push(with(&|d| { let x = d[k]; d.insert(k, x) })); all.push(with(&|d| if k + 1 < d.len() { d.swap(k, k + 1) }));
            all.push(with(&|d| d[k] = if d[k].is_uppercase() { d[k].to_lowercase().next().unwrap() } else { d[k].to_uppercase().next().unwrap() }));
            all.push(with(&|d| d[k] = char::from_u32(d[k] as u32 + 1).unwrap_or('x'))); all.push(with(&|d| d[k] = char::from_u32(d[k] as u32 ^ 128).unwrap_or('x')));
            if quoted { let mut x = String::from("\""); for (j, y) in c.iter().enumerate() { if j == k { x += &format!("\\u{:04x}", *y as u32) } else { x.push(*y) } } x.push('"'); all.push(x) }
        }
        for k in 0..=c.len() { for x in [' ', '\0', '_', '\u{301}', '\u{feff}', '\t', '.', 's'] { let mut d = c.clone(); d.insert(k, x); all.push(q(d.into_iter().collect())) } }
        toks[i] = ch.pick(&all).clone();
        let mut d = decoder(ch, &t)?;
        decode_check(ch, &mut d, &t, &toks.concat())
    }));
    let len = if th { 7 } else { 6 };
    s.push(Suite::new("all-token-sequences", &format!("8 types x every sequence of up to {} tokens from a 12-token alphabet", len), move |ch| {
        let u = T::Prim(P::U8);
        let types = [u.clone(), T::Tuple(vec![]), T::Tuple(vec![u.clone()]), T::Tuple(vec![u.clone(), u.clone()]), T::Struct(vec![]), T::Struct(vec![("a".into(), u.clone())]), T::Tuple(vec![T::Tuple(vec![u.clone()])]), T::Unit];
        const A: &[&str] = &["{", "}", "[", "]", ",", ":", "null", "\"a\"", "\"7\"", "7", "true", "-"];
        let i = ch.choose(types.len());
        let mut d = decoder(ch, &types[i])?;
        let mut text = String::new();
        for _ in 0..len { let k = ch.choose(A.len() + 1); if k == 0 { break; } text += A[k - 1]; text.push(' '); }
        decode_check(ch, &mut d, &types[i], &text)
    }));
    let len = if th { 7 } else { 6 };
    s.push(Suite::new("all-scalar-texts", &format!("each numeric type x every text of up to {} characters from `-+.eE0129\" `", len), move |ch| {
        let ps = [P::U8, P::I8, P::U16, P::I16, P::U64, P::I128, P::F32, P::F64];
        let p = *ch.pick(&ps);
        let t = T::Prim(p);
        let mut d = decoder(ch, &t)?;
        const A: &[char] = &['-', '+', '.', 'e', 'E', '0', '1', '2', '9', '"', ' '];
        let mut text = String::new();
        for _ in 0..len { let k = ch.choose(A.len() + 1); if k == 0 { break; } text.push(A[k - 1]); }
        decode_check(ch, &mut d, &t, &text)
    }));
    s.push(Suite::new("integer-limits", "each integer type x every limit of every integer type, +-2, as number and as string, with and without sign, fraction .0, exponent e0, leading zero, plus sign", move |ch| {
        let ps: Vec<P> = PRIMS.iter().copied().filter(|p| !matches!(p, P::Bool | P::Char)).collect();
        let p = *ch.pick(&ps);
        let bits = *ch.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 127]);
        let d = ch.choose(5) as i128 - 2;
        let neg = ch.flag();
        let base: u128 = 1u128 << bits;
        let mut txt = (base as i128).wrapping_add(d) as u128;
        if bits == 127 { txt = if d < 0 { base - (-d) as u128 } else { base + d as u128 } }
        let mut num = txt.to_string();
        if ch.flag() && bits == 127 { num = match d { -2 => (u128::MAX - 1).to_string(), -1 => u128::MAX.to_string(), 0 => "340282366920938463463374607431768211456".into(), 1 => "340282366920938463463374607431768211460".into(), _ => "3402823669209384634633746074317682114550".into() }; }
        let num = match ch.choose(5) { 0 => num, 1 => num + ".0", 2 => num + "e0", 3 => format!("0{}", num), _ => format!("+{}", num) };
        let num = if neg { format!("-{}", num) } else { num };
        let text = if ch.flag() { format!("\"{}\"", num) } else { num };
        let t = T::Prim(p);
        let mut dec = decoder(ch, &t)?;
        decode_check(ch, &mut dec, &t, &text)
    }));
    s.push(Suite::new("boundary-documents", "each leaf type in 5 contexts x full boundary values, decoded from the oracle's rendering", move |ch| {
        let leaves = all_leaves();
        let l = ch.pick(&leaves).clone();
        let t = ch.pick(&contexts(&l)).clone();
        let v = gen_value_boundary(ch, &t);
        let mut toks = vec![];
        json::tokens(&t, &v, &mut toks, &mut |n| (0..n).rev().collect());
        let mut d = decoder(ch, &t)?;
        decode_check(ch, &mut d, &t, &toks.concat())
    }));
    s.push(Suite::new("wide-structs", "structs of 1..130 members (every count around 8, 16, 32, 64, 128) and of around 256, 512, 1024, 2048, 4096: in order, reversed, with each member (beyond 130: of about 20) missing, with each member repeated in place of each of 3 others, with one unknown member appended, one repeated at the end", move |ch| {
        let ns = [1usize, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 300, 511, 512, 513, 1024, 1025, 2049, 4097];
        let n = *ch.pick(&ns);
        let t = st((0..n).map(|_| T::Prim(P::U16)).collect());
        let mut mem: Vec<String> = (0..n).map(|i| format!("\"f{}\":{}", i, i)).collect();
        let some: Vec<usize> = if n <= 130 { (0..n).collect() } else { let mut v: Vec<usize> = (5..12).flat_map(|k| [(1usize << k) - 1, 1 << k]).chain([0, 1, n / 2, n - 2, n - 1]).filter(|i| *i < n).collect(); v.sort(); v.dedup(); v };
        match ch.choose(6) {
            0 => {}
            1 => mem.reverse(),
            2 => { let i = *ch.pick(&some); mem.remove(i); }
            3 => { let i = *ch.pick(&some); let j = *ch.pick(&[0, n / 2, n - 1]); mem[j] = mem[i].clone(); }
            4 => mem.push("\"z\":1".into()),
            _ => { let i = *ch.pick(&some); let x = mem[i].clone(); mem.push(x) }
        }
        let mut d = decoder(ch, &t)?;
        decode_check(ch, &mut d, &t, &format!("{{{}}}", mem.join(",")))
    }));
    s.push(Suite::new("names", "types with unusual member names x all case choices, names escaped or not", move |ch| {
        let t = labels_type(ch.choose(6));
        let v = gen_value_round(ch, &t, 0, &mut 0);
        let mut toks = vec![];
        json::tokens(&t, &v, &mut toks, &mut |n| (0..n).collect());
        let esc = ch.choose(3);
        if esc > 0 { for x in toks.iter_mut() { if x.starts_with('"') { if let Some(json::J::Str(s)) = json::parse(x) { *x = json::quote_u(&s, esc == 2) } } } }
        let mut d = decoder(ch, &t)?;
        decode_check(ch, &mut d, &t, &toks.concat())
    }));
    s
}

// ------------------------------------------------------------------------------------------------- C08 tokenizer

fn kind(t: &Token) -> &'static str {
    match t { Token::Eof => "Eof", Token::Error => "Error", Token::Null => "null", Token::True => "true", Token::False => "false", Token::String => "String", Token::Number => "Number",
        Token::BeginObject => "{", Token::EndObject => "}", Token::BeginArray => "[", Token::EndArray => "]", Token::Comma => ",", Token::Colon => ":" }
}
pub fn tokenize_check(ch: &mut Ch, text: &str) -> Res {
    let cs: Vec<char> = text.chars().collect();
    let mut pos = 0;
    let mut tk: Option<Tokenizer> = None;
    for step in 0..cs.len() + 3 {
        let (want, p, glued) = json::lex(&cs, pos);
        let r = match &mut tk {
            None => match ch.call(|| Tokenizer::new(text)) { Ok(Ok(t)) => { tk = Some(t); Ok(Ok(())) } Ok(Err(e)) => Ok(Err(e)), Err(m) => Err(m) },
            Some(t) => ch.call(|| t.next()),
        };
        let r = match r { Ok(r) => r, Err(m) => return fail(format!("tokenizing {:?}: token {}: panicked: {}", text, step, m)) };
        match (r, &want) {
            (Err(_), LT::Bad) => break,
            (Err(_), _) if glued => break,
            (Err(e), w) => return fail(format!("tokenizing {:?}: token {}: error {:?}, expected {:?}", text, step, e, w)),
            (Ok(()), LT::Bad) => return fail(format!("tokenizing {:?}: token {}: got {}, but there is no JSON token there", text, step, kind(&tk.as_ref().unwrap().token))),
            (Ok(()), w) => {
                let t = tk.as_ref().unwrap();
                let (k, val): (String, Option<&str>) = match w { LT::Eof => ("Eof".into(), None), LT::Punct(c) => (c.to_string(), None), LT::Kw(k) => (k.to_string(), None), LT::Num(s) => ("Number".into(), Some(s)), LT::Str(s) => ("String".into(), Some(s)), LT::Bad => unreachable!() };
                ensure!(kind(&t.token) == k, "tokenizing {:?}: token {}: got {}, expected {:?}", text, step, kind(&t.token), w);
                if let Some(v) = val {
                    let g = match ch.call(|| t.value().to_string()) { Ok(g) => g, Err(m) => return fail(format!("tokenizing {:?}: value of token {} panicked: {}", text, step, m)) };
                    ensure!(g == v, "tokenizing {:?}: token {}: value {:?}, expected {:?}", text, step, g, v);
                }
                if *w == LT::Eof && step > 0 && pos == p && tk.is_some() && step >= cs.len() + 2 { break; }
                if *w == LT::Eof { // must stay at the end
                    let t = tk.as_mut().unwrap();
                    match ch.call(|| t.next()) { Ok(Ok(())) => ensure!(kind(&t.token) == "Eof", "tokenizing {:?}: token {} after the end", text, kind(&t.token)), Ok(Err(e)) => return fail(format!("tokenizing {:?}: error after the end: {}", text, e)), Err(m) => return fail(format!("tokenizing {:?}: panic after the end: {}", text, m)) }
                    break;
                }
            }
        }
        pos = p;
    }
    ch.state(text.as_bytes());
    ch.sample(|| format!("{:?}", text));
    Ok(())
}
fn all_texts(name: &'static str, alpha: &'static str, len: usize, wrap: fn(String) -> String) -> Suite {
    let a: Vec<char> = alpha.chars().collect();
    Suite::new(name, &format!("every text of up to {} characters over {:?}", len, alpha), move |ch| {
        let mut s = String::new();
        for _ in 0..len { let k = ch.choose(a.len() + 1); if k == 0 { break; } s.push(a[k - 1]); }
        tokenize_check(ch, &wrap(s))
    })
}

pub fn c08(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    s.push(all_texts("general-texts", "{}[]:,\"\\-+.eE019truefalsnb /\n\t\r\u{1}\u{a0}é", if th { 6 } else { 5 }, |s| s));
    s.push(all_texts("number-texts", "-+.eE019 ,x", if th { 9 } else { 7 }, |s| s));
    s.push(all_texts("keyword-texts", "nultrefas ,1_", if th { 8 } else { 6 }, |s| s));
    s.push(all_texts("string-bodies", "\\\"/bfnrtuU0aAgdD89é\u{1f}", if th { 7 } else { 5 }, |s| format!("\"{}\" 7", s)));
    s.push(Suite::new("keyword-neighbours", "each proper prefix and one-character change, in any letter case, of each keyword, followed by each of 20 continuations", |ch| {
        let k = *ch.pick(&["null", "true", "false"]);
        let cs: Vec<char> = k.chars().collect();
        let n = ch.range(1, cs.len());
        let mut x = cs[..n].to_vec();
        let m = ch.choose(n * 4 + 1);
        if m > 0 { let i = (m - 1) / 4; match (m - 1) % 4 { 0 => x[i] = x[i].to_ascii_uppercase(), 1 => { x.insert(i, cs[i]); } 2 => { x.remove(i); } _ => x[i] = 'é' } }
        const C: &[&str] = &["", " ", ",", ":", "]", "}", "[", "{", "\"a\"", "1", "-1", "x", "_", ".", "é", "\u{a0}", "\t", "null", "\u{0}", "+"];
        let c = *ch.pick(C);
        tokenize_check(ch, &(x.into_iter().collect::<String>() + c))
    }));
    s.push(Suite::new("unicode-escapes", "every \\uXXXX with lower, upper or mixed case digits; followed by text, another escape or the closing quote", |ch| {
        let hi = ch.choose(256); let lo = ch.choose(256);
        let u = hi * 256 + lo;
        let h = match ch.choose(3) { 0 => format!("{:04x}", u), 1 => format!("{:04X}", u), _ => { let s = format!("{:04x}", u); s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect() } };
        let tail = ["", "z", "\\n", "\\u0041", "\\udc00", "\\uDFFFq", "\\ud800", "u0041", "\\"][ch.choose(9)];
        tokenize_check(ch, &format!("\"a\\u{}{}\" 1", h, tail))
    }));
    s.push(Suite::new("surrogate-pairs", if th { "every pair of a high and a low surrogate, and of a high surrogate with its neighbours" } else { "every pair of high and low surrogates with each at every multiple of 8 or at a limit, and neighbours beyond the limits" }, move |ch| {
        let (h, l) = if th { (0xd800 + ch.choose(1024), 0xdc00 + ch.choose(1024)) } else {
            let hs: Vec<usize> = (0xd7fe..0xdc02).filter(|x| x % 8 == 0 || x % 8 == 7).collect(); let ls: Vec<usize> = (0xdbfe..0xe002).filter(|x| x % 8 == 0 || x % 8 == 7).collect();
            (*ch.pick(&hs), *ch.pick(&ls)) };
        tokenize_check(ch, &format!("\"\\u{:04x}\\u{:04X}\"", h, l))
    }));
    s.push(Suite::new("malformed-escapes", "each character of the basic 0..0x180 range in each position of an escape sequence, and every truncation", |ch| {
        let base: Vec<char> = "\\u00e9x".chars().collect();
        let pos = ch.range(1, 5);
        let c = match char::from_u32(ch.choose(0x180) as u32) { Some(c) => c, None => return Err(Stop::Skip) };
        let mut b = base.clone(); b[pos] = c;
        let cut = ch.range(1, 7);
        let s: String = b[..cut].iter().collect();
        let end = ["", "\""][ch.choose(2)];
        tokenize_check(ch, &format!("\"{}{}", s, end))
    }));
    s.push(Suite::new("every-character", "every Unicode scalar value: alone, inside a string, after each kind of token, between two tokens, after a backslash, as a digit", |ch| {
        let hi = ch.choose(0x1100); let lo = ch.choose(0x100);
        let c = match char::from_u32((hi * 256 + lo) as u32) { Some(c) => c, None => return Err(Stop::Skip) };
        for t in [format!("{}", c), format!("\"{}\"", c), format!("\"a{}b\" [", c), format!("1{}", c), format!("null{}", c), format!("1 {} 2", c), format!("[{}]", c), format!("\"\\{}\"", c), format!("-{}", c), format!("1.{}", c), format!("1e{}", c), format!("\"\\u{}041\"", c), format!("\"\"{}", c), format!("{{{}}}", c), format!(",{}\"a\"", c), format!(":{}1", c), format!("]{},", c), format!("}}{}]", c), format!("true{}}}", c), format!("false{}:", c)] { tokenize_check(ch, &t)?; }
        Ok(())
    }));
    let n = if th { 6 } else { 5 };
    s.push(Suite::new("token-sequences", &format!("every sequence of up to {} tokens from 19 x separated by nothing, a space, or all whitespace kinds", n), move |ch| {
        const TK: &[&str] = &["{", "}", "[", "]", ",", ":", "null", "true", "false", "\"\"", "\"a\"", "\"\\u00e9\\n\"", "\"\\ud83d\\ude00\"", "0", "-0", "12.50", "-1e+09", "1E5", "3e-2"];
        let sep = ["", " ", "\n\t \r"][ch.choose(3)];
        let mut s = String::from(sep);
        for _ in 0..n { let k = ch.choose(TK.len() + 1); if k == 0 { break; } s += TK[k - 1]; s += sep; }
        tokenize_check(ch, &s)
    }));
    s
}

// ------------------------------------------------------------------------------------------------- C12 pipeline

fn pipeline(ch: &mut Ch, t: &T, v: &V, text: &str) -> Res {
    let rt = t.repo();
    let what = || format!("{} = {} from {}", t.show(), v.show(), short(text.as_bytes()));
    let (mut d, e, m) = ch.must(&what(), || (JsonDecoder::new(&rt), JsonEncoder::new(&rt), Marshaller::new(Arc::new(Layout::new(&rt)))))?;
    let mut ds = IntermediateDataSource::new();
    match ch.must(&format!("decoding {}", what()), || d.parse(text, &mut ds))? { Ok(()) => {} Err(x) => return fail(format!("{}: rejected: {}", what(), x)) }
    let stage = |s: &dyn DataSource, name: &str| -> Res { match read_guarded(s, t) { Ok(g) if canon(&g) == canon(v) => Ok(()), Ok(g) => fail(format!("{}: {} holds {}", what(), name, g.show())), Err(x) => fail(format!("{}: reading {}: {}", what(), name, x)) } };
    stage(&ds, "the decoded record")?;
    fn enc<D: DataSource>(ch: &mut Ch, m: &Marshaller, s: &D, name: &str, what: &dyn Fn() -> String) -> Result<Vec<u8>, Stop> {
        let size = ch.must(&format!("{}: size from {}", what(), name), || m.encoding_size(s))?;
        ensure!(size < 1 << 24, "{}: announced size {}", what(), size);
        let mut buf = vec![0u8; size];
        let n = ch.must(&format!("{}: encoding from {}", what(), name), || m.encode(s, &mut buf))?;
        ensure!(n == size, "{}: announced {} bytes, wrote {}", what(), size, n);
        Ok(buf)
    }
    let b1 = enc(ch, &m, &ds, "the decoded record", &what)?;
    stage(&MarshallerDataSource::new(&m, &b1), "the binary record")?;
    let out = encode(ch, &e, &MarshallerDataSource::new(&m, &b1), &what)?;
    judge(&out, t, v, &what)?;
    // binary from binary
    let b2 = enc(ch, &m, &MarshallerDataSource::new(&m, &b1), "the binary record", &what)?;
    stage(&MarshallerDataSource::new(&m, &b2), "the re-encoded binary record")?;
    let out2 = encode(ch, &e, &MarshallerDataSource::new(&m, &b2), &what)?;
    judge(&out2, t, v, &what)?;
    // and the whole way round again, reusing every component and the data source
    let txt = String::from_utf8(out2).unwrap();
    match ch.must(&format!("decoding again {}", what()), || d.parse(&txt, &mut ds))? { Ok(()) => {} Err(x) => return fail(format!("{}: own output {} rejected: {}", what(), txt, x)) }
    stage(&ds, "the record decoded again")?;
    ch.state(&[&b1[..], &out[..]].concat());
    ch.sample(|| format!("{} -> {} bytes -> {}", what(), b1.len(), short(&out)));
    Ok(())
}
pub fn pipe(ch: &mut Ch, t: &T, v: &V, order: bool) -> Res {
    let mut toks = vec![];
    json::tokens(t, v, &mut toks, &mut |n| if order { perm(ch, n) } else { (0..n).rev().collect() });
    pipeline(ch, t, v, &toks.concat())
}
pub fn c12(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let n = if th { 8 } else { 7 };
    s.push(Suite::new("shapes", &format!("all type trees with at most {} nodes, arity at most 4, over {{u8, u64, string, unit}}, x all case choices x all member orders", n), move |ch| {
        let leaves = [T::Prim(P::U8), T::Prim(P::U64), T::Str, T::Unit];
        let t = gen_type(ch, &Shape { leaves: &leaves, max_arity: 4, containers: [true; 3] }, &mut n.clone());
        let v = gen_value_round(ch, &t, 0, &mut 0);
        pipe(ch, &t, &v, n < 8)
    }));
    let n2 = if th { 6 } else { 5 };
    s.push(Suite::new("all-primitives", &format!("all type trees with at most {} nodes over all 14 primitives, string and unit, x all case choices x 4 payload rounds", n2), move |ch| {
        let leaves = all_leaves();
        let round = ch.choose(4);
        let t = gen_type(ch, &Shape { leaves: &leaves, max_arity: 4, containers: [true; 3] }, &mut n2.clone());
        let v = gen_value_round(ch, &t, round, &mut 0);
        pipe(ch, &t, &v, true)
    }));
    s.push(Suite::new("boundary-values", "each leaf type in 5 contexts x the full boundary value set at every leaf", move |ch| {
        let leaves = all_leaves();
        let l = ch.pick(&leaves).clone();
        let t = ch.pick(&contexts(&l)).clone();
        let v = gen_value_boundary(ch, &t);
        pipe(ch, &t, &v, true)
    }));
    s.push(Suite::new("wide-and-deep", "structs, tuples of 2..300 members, nesting to depth 16, enums of 1..1025 cases; x 2 rounds", move |ch| {
        let fam = { let mut v = wide(); for n in [1, 2, 3, 9, 65, 255, 256, 257, 300] { v.push(enum_n(n, &|i| if i % 2 == 0 { T::Unit } else { T::Str })); v.push(st(vec![enum_n(n, &|i| if i % 3 == 0 { T::Prim(P::U32) } else { T::Unit }), T::Str, enum_n(4, &|_| T::Prim(P::U8))])); } v };
        let t = ch.pick(&fam).clone();
        let r = ch.choose(2);
        let v = gen_value_round(ch, &t, r, &mut 0);
        pipe(ch, &t, &v, false)
    }));
    s.push(Suite::new("strings", "structs of 1..3 strings of every combination of lengths 0..9 and 255, 256, 257 with interleaved fixed-size members", move |ch| {
        let lens = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 255, 256, 257];
        let k = ch.range(1, 3);
        let mut ts = vec![]; let mut vs = vec![];
        for i in 0..k { let n = *ch.pick(&lens); ts.push(T::Str); vs.push(V::Str((0..n).map(|j| (b'a' + ((i * 7 + j) % 26) as u8) as char).collect())); if ch.flag() { ts.push(T::Prim(P::U32)); vs.push(V::U(0xA0B0C0D0 + i as u128)); } }
        pipe(ch, &st(ts), &V::Seq(vs), false)
    }));
    s
}
