//! C09, C10, C11: type descriptors, paths, in-memory data source.
use crate::engine::*;
use crate::ensure;
use crate::tv::*;
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::json::decoder::JsonDecoder;
use cathlamet::core::json::encoder::JsonEncoder;
use cathlamet::core::marshaller::{Layout, Marshaller, MarshallerDataSource};
use cathlamet::core::types::{self, parser::TypeParser, Path};
use cathlamet::core::value::PrimitiveValue as PV;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::sync::Arc;

// ------------------------------------------------------------------------------------------------- C09

#[derive(Clone, PartialEq, Debug)]
enum K { P(char), Id(String), End }
struct Rd { toks: Vec<K>, i: usize }
fn lex_type(s: &str) -> Option<Vec<K>> {
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0; let mut o = vec![];
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() { i += 1; continue; }
        if "(){}:,".contains(c) { o.push(K::P(c)); i += 1; continue; }
        if c == '_' || c.is_ascii_alphabetic() {
            let st = i;
            while i < cs.len() && (cs[i] == '_' || cs[i].is_ascii_alphanumeric()) { i += 1 }
            o.push(K::Id(cs[st..i].iter().collect()));
            continue;
        }
        return None;
    }
    o.push(K::End);
    Some(o)
}
const WORDS: &[&str] = &["struct", "enum", "string"];
fn is_keyword(w: &str) -> bool { WORDS.contains(&w) || PRIMS.iter().any(|p| p.name() == w) }
impl Rd {
    fn eat(&mut self, c: char) -> bool { if self.toks[self.i] == K::P(c) { self.i += 1; true } else { false } }
    fn typ(&mut self) -> Option<T> {
        if self.eat('(') {
            if self.eat(')') { return Some(T::Unit); }
            let mut v = vec![self.typ()?];
            while self.eat(',') { v.push(self.typ()?) }
            return if self.eat(')') { Some(T::Tuple(v)) } else { None };
        }
        let w = match &self.toks[self.i] { K::Id(w) => w.clone(), _ => return None };
        self.i += 1;
        if let Some(p) = PRIMS.iter().find(|p| p.name() == w) { return Some(T::Prim(*p)); }
        match w.as_str() {
            "string" => Some(T::Str),
            "struct" | "enum" => {
                if !self.eat('{') { return None; }
                let mut v = vec![];
                loop {
                    let l = match &self.toks[self.i] { K::Id(l) if !is_keyword(l) => l.clone(), _ => return None };
                    self.i += 1;
                    if !self.eat(':') { return None; }
                    v.push((l, self.typ()?));
                    if self.eat('}') { break; }
                    if !self.eat(',') { return None; }
                    if self.eat('}') { break; }
                }
                Some(if w == "struct" { T::Struct(v) } else { T::Enum(v) })
            }
            _ => None,
        }
    }
}
fn read_type(s: &str) -> Option<T> {
    let mut r = Rd { toks: lex_type(s)?, i: 0 };
    let t = r.typ()?;
    if r.toks[r.i] == K::End { Some(t) } else { None }
}

thread_local! { static PARSER: TypeParser = TypeParser::new(); }
fn parse(ch: &mut Ch, s: &str) -> Result<Option<types::Type>, Stop> {
    ch.must(&format!("parsing type {:?}", s), || PARSER.with(|p| p.parse(s).ok()))
}
fn cut(s: &str) -> String { if s.chars().count() > 500 { s.chars().take(500).collect::<String>() + "..." } else { s.into() } }
pub fn type_check(ch: &mut Ch, s: &str, known: Option<&T>) -> Res {
    let want = read_type(s);
    if let Some(t) = known { if want.as_ref() != Some(t) { panic!("oracle cannot read {}", s) } }
    let got = parse(ch, s)?;
    match (&got, &want) {
        (None, None) => {}
        (Some(g), Some(w)) => ensure!(*g == w.repo(), "type {:?} parsed to {:?}, expected {}", cut(s), cut(&format!("{:?}", g)), w.show()),
        (Some(g), None) => return fail(format!("{:?} is no type, but was parsed to {:?}", cut(s), g)),
        (None, Some(w)) => return fail(format!("type {:?} was rejected, expected {}", cut(s), w.show())),
    }
    ch.state(s.as_bytes());
    ch.sample(|| format!("{:?}: {}", cut(s), if got.is_some() { "type" } else { "rejected" }));
    Ok(())
}
pub fn write_type(t: &T, out: &mut Vec<String>, comma: &mut dyn FnMut() -> bool) {
    let mut fields = |kw: &str, v: &Vec<(String, T)>, out: &mut Vec<String>| {
        out.push(kw.into()); out.push("{".into());
        for (i, (l, t)) in v.iter().enumerate() { if i > 0 { out.push(",".into()) } out.push(l.clone()); out.push(":".into()); write_type(t, out, comma) }
        if comma() { out.push(",".into()) }
        out.push("}".into());
    };
    match t {
        T::Unit => { out.push("(".into()); out.push(")".into()) }
        T::Prim(p) => out.push(p.name().into()),
        T::Str => out.push("string".into()),
        T::Tuple(v) => { out.push("(".into()); for (i, t) in v.iter().enumerate() { if i > 0 { out.push(",".into()) } write_type(t, out, comma) } out.push(")".into()) }
        T::Struct(v) => fields("struct", v, out),
        T::Enum(v) => fields("enum", v, out),
    }
}
const LABELS: &[&str] = &["_", "__", "a", "Z", "u", "i", "f", "u8x", "u8_", "xu8", "_u8", "U8", "u1", "u12", "u1281", "i128_", "f3", "f32a", "f640", "boolean", "Bool", "bools", "chars", "Char", "strings", "String", "str", "structs", "Struct", "struct_", "enums", "ENUM", "enum1", "a1b2", "true", "null", "unit", "tuple", "type", "abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789", "kind", "value", "a_b__c", "r", "o0O"];

pub fn c09(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let n = if th { 8 } else { 7 };
    s.push(Suite::new("all-types", &format!("all types of at most {} nodes, arity at most 4, over {{u8, string, unit}} x every choice of trailing commas x 3 layouts", n), move |ch| {
        let leaves = [T::Prim(P::U8), T::Str, T::Unit];
        let t = gen_type(ch, &Shape { leaves: &leaves, max_arity: 4, containers: [true; 3] }, &mut n.clone());
        let layout = ch.choose(3);
        let mut toks = vec![];
        write_type(&t, &mut toks, &mut || ch.flag());
        type_check(ch, &toks.join(["", " ", "\n\t "][layout]), Some(&t))
    }));
    let n = if th { 6 } else { 5 };
    s.push(Suite::new("all-leaves", &format!("all types of at most {} nodes over all 14 primitives, string and unit", n), move |ch| {
        let leaves = all_leaves();
        let t = gen_type(ch, &Shape { leaves: &leaves, max_arity: 4, containers: [true; 3] }, &mut n.clone());
        let mut toks = vec![];
        write_type(&t, &mut toks, &mut || false);
        type_check(ch, &toks.concat(), Some(&t))
    }));
    s.push(Suite::new("labels", "structs and enums of up to 3 members named by every combination from 45 identifiers, among them ones that begin or end like keywords; and each keyword as a name", |ch| {
        let mut ls: Vec<String> = LABELS.iter().map(|s| s.to_string()).collect();
        ls.extend(PRIMS.iter().map(|p| p.name().to_string())); ls.extend(WORDS.iter().map(|w| w.to_string()));
        let kw = if ch.flag() { "struct" } else { "enum" };
        let k = ch.range(1, 3);
        let mut x = vec![];
        for i in 0..k { let l = if i == 2 { &ls[ch.choose(3) * 7] } else { ch.pick(&ls) }; x.push(format!("{}:{}", l, ["u8", "string", "()"][i])); }
        type_check(ch, &format!("{}{{{}}}", kw, x.join(",")), None)
    }));
    let len = if th { 8 } else { 7 };
    s.push(Suite::new("token-sequences", &format!("every sequence of up to {} tokens from 11, separated by a space", len), move |ch| {
        const A: &[&str] = &["(", ")", "{", "}", ",", ":", "struct", "enum", "u8", "a", "1"];
        let mut t = String::new();
        for _ in 0..len { let k = ch.choose(A.len() + 1); if k == 0 { break; } t += A[k - 1]; t.push(' '); }
        type_check(ch, &t, None)
    }));
    let len = if th { 7 } else { 6 };
    s.push(Suite::new("texts", &format!("every text of up to {} characters over 14", len), move |ch| {
        let a: Vec<char> = "(){}:,u8i16 _a".chars().collect();
        let mut t = String::new();
        for _ in 0..len { let k = ch.choose(a.len() + 1); if k == 0 { break; } t.push(a[k - 1]); }
        type_check(ch, &t, None)
    }));
    let muts = if th { 3 } else { 2 };
    s.push(Suite::new("mutations", &format!("7 nested descriptors x every sequence of {} token edits (delete, duplicate, swap, replace by or insert one of 16 tokens) x spaced or not", muts), move |ch| {
        const D: &[&str] = &["( u8 , ( ) , string )", "struct { a : u8 , b : ( i16 , bool ) , }", "enum { a : ( ) , b : struct { c : f64 } }", "( ( ( u8 ) ) )", "struct { x : enum { y : u128 , } , z : char }", "enum { e : ( string , struct { f : i8 } ) , }", "( struct { a : u8 } , enum { b : u8 } )"];
        const A: &[&str] = &["(", ")", "{", "}", ",", ":", "struct", "enum", "string", "u8", "i128", "a", "b", "7", ";", "[u8]"];
        let mut t: Vec<&str> = ch.pick(D).split(' ').collect();
        for _ in 0..muts {
            let i = ch.choose(t.len() + 1);
            match ch.choose(5) {
                0 => if i < t.len() { t.remove(i); } else { return Err(Stop::Skip) },
                1 => if i < t.len() { let x = t[i]; t.insert(i, x) } else { return Err(Stop::Skip) },
                2 => if i + 1 < t.len() { t.swap(i, i + 1) } else { return Err(Stop::Skip) },
                3 => if i < t.len() { t[i] = *ch.pick(A) } else { return Err(Stop::Skip) },
                _ => t.insert(i, *ch.pick(A)),
            }
        }
        let sp = if ch.flag() { " " } else { "" };
        type_check(ch, &t.join(sp), None)
    }));
    s.push(Suite::new("every-character", "every Unicode scalar value alone, before, between and after tokens, inside a name and inside a keyword", |ch| {
        let hi = ch.choose(0x1100); let lo = ch.choose(0x100);
        let c = match char::from_u32((hi * 256 + lo) as u32) { Some(c) => c, None => return Err(Stop::Skip) };
        for t in [format!("{}", c), format!("{}u8", c), format!("u8{}", c), format!("u{}8", c), format!("({}u8)", c), format!("struct{{a{}b:u8}}", c), format!("struct{}{{a:u8,}}", c)] { type_check(ch, &t, None)?; }
        Ok(())
    }));
    s.push(Suite::new("wide-and-deep", "tuples, structs and enums of 1..400 members, nesting of each to depth 200, with and without trailing comma", |ch| {
        let ns = [1usize, 2, 3, 16, 17, 63, 64, 65, 100, 255, 256, 257, 400];
        let k = ch.choose(3);
        let t = if ch.flag() { let n = *ch.pick(&ns); let mem: Vec<(String, T)> = (0..n).map(|i| (format!("m{}", i), all_leaves()[i % 16].clone())).collect();
            match k { 0 => T::Tuple(mem.into_iter().map(|x| x.1).collect()), 1 => T::Struct(mem), _ => T::Enum(mem) } }
        else { let d = *ch.pick(&[1usize, 2, 5, 20, 100, 200]); let mut t = T::Prim(P::U16);
            for i in 0..d { t = match (k + i * (d % 2)) % 3 { 0 => T::Tuple(vec![t]), 1 => T::Struct(vec![("a".into(), T::Unit), ("b".into(), t)]), _ => T::Enum(vec![("c".into(), t), ("d".into(), T::Str)]) } } t };
        let c = ch.flag();
        let mut toks = vec![];
        write_type(&t, &mut toks, &mut || c);
        type_check(ch, &toks.join(" "), Some(&t))
    }));
    s
}

// ------------------------------------------------------------------------------------------------- C10

pub fn path_of(v: &[usize]) -> Path { let mut p = Path::create_empty(); for c in v { p = p.with_component(*c) } p }

/// Where a dotted name leads: Ok(Some(path)), Ok(None) for no such element; Err for spellings of tuple positions left open ("+1", "01").
fn resolve(t: &T, name: &str) -> (Option<Vec<usize>>, bool) {
    let mut t = t; let mut out = vec![]; let mut open = false;
    for c in name.split('.') {
        let i = match t {
            T::Struct(v) | T::Enum(v) => v.iter().position(|x| x.0 == c),
            T::Tuple(v) => {
                let d = c.strip_prefix('+').unwrap_or(c);
                if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { None } else {
                    if d.len() != c.len() || (d.len() > 1 && d.starts_with('0')) { open = true }
                    match d.parse::<usize>() { Ok(i) if i < v.len() => Some(i), _ => None }
                }
            }
            _ => None,
        };
        match i { Some(i) => { out.push(i); t = t.children()[i] } None => return (None, open) }
    }
    (Some(out), open)
}
pub fn resolve_check(ch: &mut Ch, t: &T, rt: &types::Type, name: &str) -> Res {
    let (want, open) = resolve(t, name);
    let got = ch.must(&format!("resolving {:?} in {}", name, t.show()), || Path::resolve_qualified_name(rt, name))?;
    match (&got, &want) {
        (Err(_), None) => {}
        (Err(_), Some(_)) if open => {}
        (Err(e), Some(w)) => return fail(format!("{:?} in {}: rejected ({}), expected element {:?}", name, t.show(), e, w)),
        (Ok(p), None) => return fail(format!("{:?} in {}: resolved to {:?}, but names no element", name, t.show(), p.path())),
        (Ok(p), Some(w)) => ensure!(p.path() == &w[..], "{:?} in {}: resolved to {:?}, expected {:?}", name, t.show(), p.path(), w),
    }
    if let (Ok(p), Some(w)) = (&got, &want) {
        let e = ch.must(&format!("following {:?} in {}", name, t.show()), || rt.extract(p) as *const types::Type)?;
        let mut n = rt;
        for i in w { n = match &n.kind { types::Kind::Tuple(v) => &v[*i], types::Kind::Struct(v) => &v[*i].typ, types::Kind::Enum(v) => &v[*i].typ, _ => return fail("harness") } }
        ensure!(std::ptr::eq(e, n), "{:?} in {}: the path leads to another element than the named one", name, t.show());
    }
    let mut st = t.show().into_bytes(); st.push(0); st.extend_from_slice(name.as_bytes()); ch.state(&st);
    ch.sample(|| format!("{:?} in {}: {:?}", name, t.show(), want));
    Ok(())
}
pub fn cmp_check(ch: &mut Ch, a: &[usize], b: &[usize]) -> Res {
    let (pa, pb) = (path_of(a), path_of(b));
    let d = format!("paths {:?} and {:?}", a, b);
    let (o, o2, po, eq, pre, ppre) = ch.must(&d, || (pa.cmp(&pb), pb.cmp(&pa), pa.partial_cmp(&pb), pa == pb, pa.is_prefix_of(&pb), pa.is_proper_prefix_of(&pb)))?;
    ensure!(pa.path() == a, "{:?} built component by component holds {:?}", a, pa.path());
    ensure!(eq == (a == b), "{}: equality is {}", d, eq);
    ensure!((o == Ordering::Equal) == (a == b), "{}: compare as {:?}", d, o);
    ensure!(o2 == o.reverse(), "{}: compare as {:?} one way and {:?} the other", d, o, o2);
    ensure!(po == Some(o), "{}: cmp {:?} but partial_cmp {:?}", d, o, po);
    ensure!((pa < pb) == (o == Ordering::Less) && (pa <= pb) == (o != Ordering::Greater) && (pa != pb) == (a != b), "{}: comparison operators disagree with cmp", d);
    let anc = b.len() >= a.len() && b[..a.len()] == *a;
    ensure!(pre == anc, "{}: is_prefix_of is {}", d, pre);
    ensure!(ppre == (anc && a.len() != b.len()), "{}: is_proper_prefix_of is {}", d, ppre);
    if anc && a != b { ensure!(o == Ordering::Less, "{}: an element does not come before its descendant", d); }
    Ok(())
}
fn gen_path(ch: &mut Ch, comps: &[usize], max: usize) -> Vec<usize> { let mut v = vec![]; for _ in 0..max { let k = ch.choose(comps.len() + 1); if k == 0 { break; } v.push(comps[k - 1]) } v }
pub fn triple_check(ch: &mut Ch, a: &[usize], b: &[usize], c: &[usize]) -> Res {
    let (x, y, z) = (path_of(a), path_of(b), path_of(c));
    let (xy, yz, xz) = ch.must("comparing", || (x.cmp(&y), y.cmp(&z), x.cmp(&z)))?;
    if xy != Ordering::Greater && yz != Ordering::Greater {
        ensure!(xz != Ordering::Greater, "paths {:?} <= {:?} <= {:?}, but the first is greater than the last", a, b, c);
        if xy == Ordering::Less || yz == Ordering::Less { ensure!(xz == Ordering::Less, "paths {:?}, {:?}, {:?}: not transitive", a, b, c); }
        if c.len() >= a.len() && c[..a.len()] == *a { ensure!(b.len() >= a.len() && b[..a.len()] == *a, "path {:?} lies between {:?} and its descendant {:?}", b, a, c); }
    }
    let mut st = vec![]; for p in [a, b, c] { st.push(p.len() as u8); for i in p { st.extend_from_slice(&i.to_le_bytes()) } } ch.state(&st);
    Ok(())
}

pub fn c10(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let n = if th { 6 } else { 5 };
    let depth = if th { 4 } else { 3 };
    s.push(Suite::new("names", &format!("all types of at most {} nodes over {{u8, string, unit}} x every name of up to {} components from 9 candidates", n, depth), move |ch| {
        let leaves = [T::Prim(P::U8), T::Str, T::Unit];
        let t = gen_type(ch, &Shape { leaves: &leaves, max_arity: 3, containers: [true; 3] }, &mut n.clone());
        let rt = t.repo();
        const C: &[&str] = &["a", "b", "c", "0", "1", "2", "", "A", "01"];
        let k = ch.range(1, depth);
        let mut v = vec![]; for _ in 0..k { v.push(*ch.pick(C)) }
        resolve_check(ch, &t, &rt, &v.join("."))
    }));
    s.push(Suite::new("odd-names", "6 types x every name of up to 3 components from 24 candidates (overlapping labels, prefixes, signs, big numbers, spaces, other digits)", |ch| {
        let u = T::Prim(P::U8);
        let lab = |l: &[&str], t: &T| -> Vec<(String, T)> { l.iter().map(|x| (x.to_string(), t.clone())).collect() };
        let inner = T::Struct(lab(&["a", "aa", "aaa", "A", "_", "a1"], &u));
        let types = [inner.clone(), T::Enum(lab(&["aa", "a", "b"], &inner)), T::Tuple((0..12).map(|i| if i % 3 == 0 { inner.clone() } else { u.clone() }).collect()), T::Tuple(vec![T::Tuple(vec![u.clone(), u.clone()]), T::Enum(lab(&["x"], &u))]), u.clone(), T::Struct(lab(&["0", "1", "10"], &T::Tuple(vec![u.clone(), u.clone()])))];
        const C: &[&str] = &["a", "aa", "aaa", "aaaa", "A", "_", "a1", "b", "x", "0", "1", "2", "9", "10", "11", "12", "-1", "+1", " 1", "1 ", "18446744073709551615", "18446744073709551616", "１", ""];
        let t = ch.pick(&types).clone();
        let rt = t.repo();
        let k = ch.range(1, 3);
        let mut v = vec![]; for _ in 0..k { v.push(*ch.pick(C)) }
        resolve_check(ch, &t, &rt, &v.join("."))
    }));
    let m = if th { 7 } else { 5 };
    let alphabet: Vec<char> = "012+-._ aAé".chars().collect();
    s.push(Suite::new("all-names", &format!("every string of up to {} characters over {{0 1 2 + - . _ space a A é}} as a name in tuples of 3 and 13 members, nested tuples, structs and enums", m), move |ch| {
        let u = T::Prim(P::U8);
        let lab = |l: &[&str], t: &T| -> Vec<(String, T)> { l.iter().map(|x| (x.to_string(), t.clone())).collect() };
        let inner = T::Tuple(vec![u.clone(), T::Str, T::Unit]);
        let t = match ch.choose(6) {
            0 => inner.clone(), 1 => T::Tuple(vec![inner.clone(); 3]), 2 => T::Tuple((0..13).map(|_| u.clone()).collect()),
            3 => T::Struct(lab(&["a", "aa", "Aa", "a_", "_", "é", "a1"], &inner)), 4 => T::Enum(lab(&["a", "A", "a0", "aé"], &T::Struct(lab(&["a", "_a"], &u)))), _ => T::Tuple(vec![T::Struct(lab(&["a", "é", "aA"], &inner)), T::Enum(lab(&["a", "_1"], &inner))]),
        };
        let mut n = String::new();
        for _ in 0..m { let k = ch.choose(alphabet.len() + 1); if k == 0 { break; } n.push(alphabet[k - 1]) }
        let rt = t.repo();
        resolve_check(ch, &t, &rt, &n)
    }));
    s.push(Suite::new("wide-types", "structs, enums and tuples of up to 300 members x every member's name", |ch| {
        let k = ch.choose(3);
        let mem: Vec<(String, T)> = (0..300).map(|i| (format!("m{}", i), T::Prim(PRIMS[i % 14]))).collect();
        let t = match k { 0 => T::Tuple(mem.into_iter().map(|x| x.1).collect()), 1 => T::Struct(mem), _ => T::Enum(mem) };
        let rt = t.repo();
        let i = ch.choose(302);
        resolve_check(ch, &t, &rt, &if k == 0 { i.to_string() } else { format!("m{}", i) })
    }));
    let m = if th { 5 } else { 4 };
    s.push(Suite::new("pairs", &format!("all pairs of paths of up to {} components from {{0, 1, 2, 7, usize::MAX}}", m), move |ch| {
        let comps = [0, 1, 2, 7, usize::MAX];
        let a = gen_path(ch, &comps, m); let b = gen_path(ch, &comps, m);
        let mut st = vec![]; for p in [&a, &b] { st.push(p.len() as u8); for i in p { st.extend_from_slice(&i.to_le_bytes()) } } ch.state(&st);
        ch.sample(|| format!("{:?} vs {:?}", a, b));
        cmp_check(ch, &a, &b)
    }));
    s.push(Suite::new("triples", "all triples of paths of up to 3 components from {0, 1, 2, 255}", move |ch| {
        let comps = [0, 1, 2, 255];
        let a = gen_path(ch, &comps, 3); let b = gen_path(ch, &comps, 3); let c = gen_path(ch, &comps, 3);
        triple_check(ch, &a, &b, &c)
    }));
    let m = if th { 5 } else { 4 };
    s.push(Suite::new("binary-triples", &format!("all triples of paths of up to {} components from {{0, 1}}", m), move |ch| {
        let a = gen_path(ch, &[0, 1], m); let b = gen_path(ch, &[0, 1], m); let c = gen_path(ch, &[0, 1], m);
        triple_check(ch, &a, &b, &c)
    }));
    s
}

// ------------------------------------------------------------------------------------------------- C11

#[derive(Clone, PartialEq, Debug)]
pub enum Val { Prim(P, V), Str(String), Tag(usize) }

/// what each getter answers at a path; None: refused
pub fn getters(ds: &IntermediateDataSource, p: &Path, which: usize) -> Option<Val> {
    guarded(|| match which { 14 => Val::Str(String::from_utf8(ds.get_bytes(p).to_vec()).unwrap_or_else(|_| "<not UTF-8>".into())), 15 => Val::Tag(ds.get_case_tag(p)), 16 => Val::Tag(ds.get_length(p)), i => Val::Prim(PRIMS[i], read_prim(ds, PRIMS[i], p)) }).ok()
}
pub fn expect(m: Option<&Val>, which: usize) -> Option<Val> {
    match (m, which) {
        (Some(Val::Str(s)), 14) => Some(Val::Str(s.clone())), (Some(Val::Str(s)), 16) => Some(Val::Tag(s.len())), (Some(Val::Tag(t)), 15) => Some(Val::Tag(*t)),
        (Some(Val::Prim(p, v)), i) if i < 14 && PRIMS[i] == *p => Some(Val::Prim(*p, v.clone())),
        _ => None,
    }
}
pub fn getter_name(i: usize) -> String { match i { 14 => "get_bytes".into(), 15 => "get_case_tag".into(), 16 => "get_length".into(), i => format!("get_{}", PRIMS[i].name()) } }

fn ds_history(ch: &mut Ch, paths: &[Vec<usize>], vals: &[Val], depth: usize, full: bool) -> Res {
    let mut ds = IntermediateDataSource::new();
    let mut model: BTreeMap<Vec<usize>, Val> = BTreeMap::new();
    let mut hist = String::new();
    for _ in 0..depth {
        let k = ch.choose(paths.len() * vals.len() + 2);
        if k == 0 { break; }
        if k == 1 { ch.must("clear", || ds.clear())?; model.clear(); hist += "clear; "; continue; }
        let (p, v) = (&paths[(k - 2) / vals.len()], &vals[(k - 2) % vals.len()]);
        hist += &format!("{:?} := {:?}; ", p, v);
        let path = path_of(p);
        ch.must(&hist, || match v { Val::Prim(t, x) => ds.add_primitive(&path, pv(*t, x)), Val::Str(s) => ds.add_string(&path, s), Val::Tag(t) => ds.add_case_tag(&path, *t) })?;
        model.insert(p.clone(), v.clone());
    }
    for p in paths {
        let path = path_of(p);
        for g in 0..17 {
            let want = expect(model.get(p), g);
            if want.is_none() && !full && !(g == 14 || g == 2) { continue; }
            let got = getters(&ds, &path, g);
            ensure!(got == want, "after {}: {} at {:?} gives {:?}, expected {:?}", hist, getter_name(g), p, got, want);
        }
    }
    ch.state(format!("{:?}", model).as_bytes());
    ch.sample(|| hist.clone());
    Ok(())
}

/// every element path of a type
fn all_paths(t: &T, here: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, T)>) {
    out.push((here.clone(), t.clone()));
    for (i, c) in t.children().into_iter().enumerate() { here.push(i); all_paths(c, here, out); here.pop(); }
}
fn snapshot(ds: &IntermediateDataSource, paths: &[(Vec<usize>, T)]) -> Vec<Option<Val>> {
    paths.iter().map(|(p, t)| { let path = path_of(p); match t { T::Prim(q) => getters(ds, &path, PRIMS.iter().position(|x| x == q).unwrap()), T::Str => getters(ds, &path, 14), T::Enum(_) => getters(ds, &path, 15), _ => None } }).collect()
}
fn reuse_types() -> Vec<(T, Vec<V>)> {
    let u8_ = T::Prim(P::U8);
    let e = T::Enum(vec![("a".into(), T::Unit), ("b".into(), T::Str), ("c".into(), T::Tuple(vec![u8_.clone(), T::Str]))]);
    vec![
        (T::Struct(vec![("x".into(), e.clone()), ("y".into(), T::Prim(P::U64))]), vec![
            V::Seq(vec![V::Case(2, Box::new(V::Seq(vec![V::U(7), V::Str("long string value".into())]))), V::U(u64::MAX as u128)]),
            V::Seq(vec![V::Case(0, Box::new(V::Unit)), V::U(0)]), V::Seq(vec![V::Case(1, Box::new(V::Str("s".into()))), V::U(1)])]),
        (T::Tuple(vec![T::Str, T::Enum(vec![("p".into(), T::Prim(P::U128)), ("q".into(), T::Unit)]), T::Str]), vec![
            V::Seq(vec![V::Str("aaaaaaaaaaaaaaaaaaaa".into()), V::Case(0, Box::new(V::U(u128::MAX))), V::Str("bb".into())]),
            V::Seq(vec![V::Str("".into()), V::Case(1, Box::new(V::Unit)), V::Str("".into())]), V::Seq(vec![V::Str("b".into()), V::Case(1, Box::new(V::Unit)), V::Str("é".into())])]),
        (e.clone(), vec![V::Case(0, Box::new(V::Unit)), V::Case(1, Box::new(V::Str("xyz".into()))), V::Case(2, Box::new(V::Seq(vec![V::U(255), V::Str("".into())])))]),
        (T::Tuple(vec![e.clone(), e.clone()]), vec![
            V::Seq(vec![V::Case(2, Box::new(V::Seq(vec![V::U(1), V::Str("q".into())]))), V::Case(1, Box::new(V::Str("rrr".into())))]),
            V::Seq(vec![V::Case(0, Box::new(V::Unit)), V::Case(2, Box::new(V::Seq(vec![V::U(9), V::Str("zz".into())])))]), V::Seq(vec![V::Case(1, Box::new(V::Str("".into()))), V::Case(0, Box::new(V::Unit))])]),
    ]
}
struct FailAfter(usize);
impl std::io::Write for FailAfter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0 == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); } let n = b.len().min(self.0); self.0 -= n; Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

fn reuse_history(ch: &mut Ch, depth: usize) -> Res {
    let rts = reuse_types();
    let (t, vals) = ch.pick(&rts);
    let rt = t.repo();
    let mut paths = vec![]; all_paths(t, &mut vec![], &mut paths);
    let (mut dec, enc, mar) = (JsonDecoder::new(&rt), JsonEncoder::new(&rt), Marshaller::new(Arc::new(Layout::new(&rt))));
    let mut ds = IntermediateDataSource::new();
    let mut buf = vec![0u8; 512];
    let mut cur: Option<usize> = None; // value held by ds
    let mut inbuf: Option<usize> = None;
    let mut hist = String::new();
    let docs: Vec<String> = vals.iter().map(|v| { let mut k = vec![]; crate::json::tokens(t, v, &mut k, &mut |n| (0..n).collect()); k.concat() }).collect();
    for _ in 0..depth {
        match ch.choose(10) {
            0 => break,
            k @ 1..=3 => {
                let i = k - 1;
                hist += &format!("decode {}; ", docs[i]);
                match ch.must(&hist, || dec.parse(&docs[i], &mut ds))? { Ok(()) => {} Err(e) => return fail(format!("{}: {}: rejected: {}", t.show(), hist, e)) }
                let mut fresh = IntermediateDataSource::new();
                let _ = ch.must("fresh decoder", || JsonDecoder::new(&rt).parse(&docs[i], &mut fresh))?;
                let (a, b) = (snapshot(&ds, &paths), snapshot(&fresh, &paths));
                ensure!(a == b, "{}: {}: reused data source holds {:?}, a fresh one {:?}", t.show(), hist, a, b);
                cur = Some(i);
            }
            k @ 4..=5 => {
                // a document that fails late, or early
                let d = &docs[k - 4]; let n = d.chars().count();
                let bad: String = if k == 4 { d.chars().take(n - 1).collect() } else { format!("{}]", d) };
                hist += &format!("decode {}; ", bad);
                ensure!(ch.must(&hist, || dec.parse(&bad, &mut ds))?.is_err(), "{}: {}: accepted", t.show(), hist);
                cur = None;
            }
            6 => {
                let i = match cur { Some(i) => i, None => return Err(Stop::Skip) };
                hist += "encode JSON; ";
                let mut out = vec![]; let mut out2 = vec![];
                ch.must(&hist, || enc.encode(&mut out, &ds))?.map_err(|e| Stop::Fail(hist.clone(), format!("{}: {}", hist, e)))?;
                let f = load_new(t, &vals[i]);
                ch.must("fresh encoder", || JsonEncoder::new(&rt).encode(&mut out2, &f))?.map_err(|e| Stop::Fail(hist.clone(), format!("{}: {}", hist, e)))?;
                ensure!(out == out2, "{}: {}: reused components wrote {:?}, fresh ones {:?}", t.show(), hist, String::from_utf8_lossy(&out), String::from_utf8_lossy(&out2));
            }
            7 => {
                if cur.is_none() { return Err(Stop::Skip); }
                hist += "encode JSON into a sink that fails after 5 bytes; ";
                let _ = ch.must(&hist, || enc.encode(&mut FailAfter(5), &ds))?;
            }
            8 => {
                let i = match cur { Some(i) => i, None => return Err(Stop::Skip) };
                hist += "encode binary into the same buffer; ";
                let f = load_new(t, &vals[i]);
                let size = ch.must(&hist, || mar.encoding_size(&ds))?;
                ensure!(size <= buf.len(), "{}: {}: size {}", t.show(), hist, size);
                let n = ch.must(&hist, || mar.encode(&ds, &mut buf[..size]))?;
                let m2 = Marshaller::new(Arc::new(Layout::new(&rt)));
                let s2 = ch.must("fresh", || m2.encoding_size(&f))?;
                ensure!(n == size && s2 == size, "{}: {}: {} of {} bytes, a fresh marshaller needs {}", t.show(), hist, n, size, s2);
                inbuf = Some(i);
            }
            _ => {
                let i = match inbuf { Some(i) => i, None => return Err(Stop::Skip) };
                hist += "read binary; ";
                ch.must(&hist, || ())?;
                match read_guarded(&MarshallerDataSource::new(&mar, &buf), t) { Ok(v) if v == vals[i] => {} r => return fail(format!("{}: {}: buffer holds {:?}, expected {}", t.show(), hist, r, vals[i].show())) }
            }
        }
    }
    ch.state(format!("{} {:?} {:?}", t.show(), snapshot(&ds, &paths), inbuf).as_bytes());
    ch.sample(|| format!("{}: {}", t.show(), hist));
    Ok(())
}

/// Records and documents that replace each other at the same address.
fn in_place(ch: &mut Ch, depth: usize) -> Res {
    let l = |s: &str| V::Str(s.into());
    let e = T::Enum(vec![("p".into(), T::Str), ("q".into(), T::Prim(P::U16)), ("r".into(), T::Prim(P::U16))]);
    let c = |i: usize, v: V| V::Case(i, Box::new(v));
    let types: Vec<(T, Vec<V>)> = vec![
        (T::Str, ["abc", "abd", "xbc", "\u{1}\n\"", "longer"].iter().map(|s| l(s)).collect()),
        (T::Tuple(vec![T::Str, T::Str]), vec![V::Seq(vec![l("aa"), l("bb")]), V::Seq(vec![l("bb"), l("aa")]), V::Seq(vec![l("aa"), l("aa")]), V::Seq(vec![l("a"), l("abb")]), V::Seq(vec![l(""), l("aa")])]),
        (T::Struct(vec![("a".into(), T::Str), ("b".into(), e.clone())]), vec![V::Seq(vec![l("aa"), c(0, l("zz"))]), V::Seq(vec![l("zz"), c(0, l("aa"))]), V::Seq(vec![l("aa"), c(1, V::U(513))]), V::Seq(vec![l("aa"), c(2, V::U(513))]), V::Seq(vec![l(""), c(2, V::U(7))])]),
        (e.clone(), vec![c(1, V::U(1)), c(2, V::U(1)), c(1, V::U(256)), c(0, l("")), c(0, l("q"))]),
        (T::Tuple(vec![T::Prim(P::U64), T::Prim(P::F32), T::Prim(P::Bool)]), vec![V::Seq(vec![V::U(1), V::F32(0x3f800000), V::Bool(true)]), V::Seq(vec![V::U(2), V::F32(0x3f800000), V::Bool(true)]), V::Seq(vec![V::U(1), V::F32(0xbf800000), V::Bool(true)]), V::Seq(vec![V::U(1), V::F32(0x3f800000), V::Bool(false)]), V::Seq(vec![V::U(u64::MAX as u128), V::F32(0), V::Bool(false)])]),
        (T::Tuple(vec![e.clone(), e.clone()]), vec![V::Seq(vec![c(0, l("s")), c(0, l("t"))]), V::Seq(vec![c(0, l("t")), c(0, l("s"))]), V::Seq(vec![c(0, l("s")), c(1, V::U(5))]), V::Seq(vec![c(1, V::U(5)), c(0, l("s"))]), V::Seq(vec![c(2, V::U(5)), c(1, V::U(5))])]),
    ];
    let (t, vals) = ch.pick(&types);
    let rt = t.repo();
    let (mut dec, enc, mar) = (JsonDecoder::new(&rt), JsonEncoder::new(&rt), Marshaller::new(Arc::new(Layout::new(&rt))));
    let mut ds = IntermediateDataSource::new();
    let (mut rec, mut copy, mut doc) = (vec![0u8; 256], vec![0u8; 256], String::with_capacity(256));
    let mut hist = String::new();
    for _ in 0..depth {
        let v = ch.pick(vals);
        let mut k = vec![]; crate::json::tokens(t, v, &mut k, &mut |n| (0..n).collect());
        doc.clear(); doc.push_str(&k.concat());
        hist += &format!("{}; ", doc);
        let what = || format!("{}: the documents {}", t.show(), hist);
        match ch.must(&what(), || dec.parse(&doc, &mut ds))? { Ok(()) => {} Err(x) => return fail(format!("{} the last is rejected: {}", what(), x)) }
        let n = ch.must(&what(), || { let n = mar.encoding_size(&ds); mar.encode(&ds, &mut rec[..n]) })?;
        match read_guarded(&MarshallerDataSource::new(&mar, &rec[..n]), t) { Ok(x) if x == *v => {} r => return fail(format!("{} the record of the last reads {:?}", what(), r)) }
        let (mut out, mut want) = (vec![], vec![]);
        match ch.must(&what(), || enc.encode(&mut out, &MarshallerDataSource::new(&mar, &rec[..n])))? { Ok(()) => {} Err(x) => return fail(format!("{} encoding the last: {}", what(), x)) }
        let _ = ch.must(&what(), || JsonEncoder::new(&rt).encode(&mut want, &load_new(t, v)))?;
        ensure!(out == want, "{} the record of the last is written as {:?}, by a fresh encoder as {:?}", what(), String::from_utf8_lossy(&out), String::from_utf8_lossy(&want));
        let m = ch.must(&what(), || { let src = MarshallerDataSource::new(&mar, &rec[..n]); let m = mar.encoding_size(&src); mar.encode(&src, &mut copy[..m]) })?;
        ensure!(m == n, "{} a copy of the last has {} bytes instead of {}", what(), m, n);
        match read_guarded(&MarshallerDataSource::new(&mar, &copy[..m]), t) { Ok(x) if x == *v => {} r => return fail(format!("{} a copy of the record of the last reads {:?}", what(), r)) }
    }
    ch.state(hist.as_bytes());
    ch.sample(|| format!("{}: {}", t.show(), hist));
    Ok(())
}

pub fn c11(th: bool) -> Vec<Suite> {
    let mut s = vec![];
    let d = if th { 4 } else { 3 };
    s.push(Suite::new("histories-all-getters", &format!("all sequences of up to {} stores (5 nested element paths x 6 values) and clears; afterwards each of the 17 getters at each path", d), move |ch| {
        let paths = vec![vec![], vec![0], vec![1], vec![0, 0], vec![0, 1]];
        let vals = [Val::Prim(P::U8, V::U(1)), Val::Prim(P::U8, V::U(2)), Val::Prim(P::F64, V::F64((-0.0f64).to_bits())), Val::Str("".into()), Val::Str("abc".into()), Val::Tag(3)];
        ds_history(ch, &paths, &vals, d, true)
    }));
    let d2 = if th { 6 } else { 5 };
    s.push(Suite::new("histories", &format!("all sequences of up to {} stores (4 paths x 4 values) and clears; afterwards the matching getters and two others at each path", d2), move |ch| {
        let paths = vec![vec![0], vec![0, 0], vec![1], vec![0, 1, 0]];
        let vals = [Val::Prim(P::U16, V::U(0xffff)), Val::Str("é€".into()), Val::Str("longer than before".into()), Val::Tag(usize::MAX)];
        ds_history(ch, &paths, &vals, d2, false)
    }));
    let d3 = if th { 5 } else { 4 };
    s.push(Suite::new("tags", &format!("all sequences of up to {} stores of two case tags, a number and a string at 6 places that the tags may refer to, and clears; afterwards the matching getters and two others at each place", d3), move |ch| {
        let paths = vec![vec![], vec![0], vec![1], vec![0, 0], vec![0, 1], vec![1, 0]];
        let vals = [Val::Tag(0), Val::Tag(1), Val::Prim(P::U8, V::U(7)), Val::Str("s".into())];
        ds_history(ch, &paths, &vals, d3, false)
    }));
    s.push(Suite::new("types-and-values", "every boundary value of every primitive and string, and case tags around powers of two: stored after another value of another type, and read with all 17 getters", |ch| {
        let leaves = all_leaves();
        let i = ch.choose(leaves.len());
        let v = match &leaves[i] {
            T::Unit => Val::Tag([0usize, 1, 255, 256, 65535, 65536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX][ch.choose(9)]),
            T::Str => { let b = boundary(&T::Str); match ch.pick(&b) { V::Str(s) => Val::Str(s.clone()), _ => unreachable!() } }
            T::Prim(p) => { let b = boundary(&leaves[i]); Val::Prim(*p, ch.pick(&b).clone()) }
            _ => unreachable!(),
        };
        let pre = ch.choose(4);
        let path = path_of(&[2, 1]);
        let mut ds = IntermediateDataSource::new();
        match pre { 1 => ds.add_primitive(&path, PV::U64(5)), 2 => ds.add_string(&path, "previous"), 3 => ds.add_case_tag(&path, 9), _ => {} }
        ch.must("store", || match &v { Val::Prim(t, x) => ds.add_primitive(&path, pv(*t, x)), Val::Str(s) => ds.add_string(&path, s), Val::Tag(t) => ds.add_case_tag(&path, *t) })?;
        for g in 0..17 { let (got, want) = (getters(&ds, &path, g), expect(Some(&v), g));
            let same = got == want || match (&got, &want) { (Some(Val::Prim(_, a)), Some(Val::Prim(_, b))) => canon(a) == canon(b), _ => false };
            ensure!(same, "stored {:?} over kind {}: {} gives {:?}, expected {:?}", v, pre, getter_name(g), got, want); }
        ch.state(format!("{:?} {}", v, pre).as_bytes());
        ch.sample(|| format!("{:?}", v));
        Ok(())
    }));
    // every value over every other one
    let mut pool: Vec<Val> = vec![];
    for l in all_leaves() { if let T::Prim(p) = &l { for v in boundary(&l) { pool.push(Val::Prim(*p, v)) } } }
    let letters = ['a', 'A', 'b', ' ', 'é', '\0'];
    pool.push(Val::Str("".into()));
    for a in letters { pool.push(Val::Str(a.to_string())); for b in letters { pool.push(Val::Str([a, b].iter().collect())); for c in letters { pool.push(Val::Str([a, b, c].iter().collect())) } } }
    for b in boundary(&T::Str) { if let V::Str(x) = b { pool.push(Val::Str(x)) } }
    for t in [0usize, 1, 2, 255, 256, 65535, 65536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX] { pool.push(Val::Tag(t)) }
    s.push(Suite::new("overwrites", &format!("every ordered pair of {} values (boundary values of all types, every string of up to 3 characters over 6, case tags) stored one over the other, with nothing, a clear, or a store elsewhere between them", pool.len()), move |ch| {
        let (a, b) = (ch.choose(pool.len()), ch.choose(pool.len()));
        let (a, b) = (&pool[a], &pool[b]);
        let between = ch.choose(3);
        let (path, other) = (path_of(&[1, 0]), path_of(&[1]));
        let mut ds = IntermediateDataSource::new();
        let what = || format!("{:?}, {}then {:?}", a, ["", "a clear, ", "the same value at another path, "][between], b);
        let put = |ds: &mut IntermediateDataSource, p: &Path, v: &Val| match v { Val::Prim(t, x) => ds.add_primitive(p, pv(*t, x)), Val::Str(s) => ds.add_string(p, s), Val::Tag(t) => ds.add_case_tag(p, *t) };
        ch.must("storing", || { put(&mut ds, &path, a); match between { 1 => ds.clear(), 2 => put(&mut ds, &other, a), _ => {} } put(&mut ds, &path, b); })?;
        for (p, v) in [(&path, b), (&other, a)] {
            if p.path().len() == 1 && between != 2 { continue; }
            let kinds: Vec<usize> = match v { Val::Prim(q, _) => vec![PRIMS.iter().position(|x| x == q).unwrap()], Val::Str(_) => vec![14, 16], Val::Tag(_) => vec![15] };
            for g in kinds { let (got, want) = (getters(&ds, p, g), expect(Some(v), g));
                let same = got == want || match (&got, &want) { (Some(Val::Prim(_, a)), Some(Val::Prim(_, b))) => canon(a) == canon(b), _ => false };
                ensure!(same, "stored {}: {} at {:?} gives {:?}, expected {:?}", what(), getter_name(g), p.path(), got, want); }
        }
        ch.state(format!("{:?} {:?} {}", a, b, between).as_bytes());
        ch.sample(what);
        Ok(())
    }));
    s.push(Suite::new("many-elements", "stores at every path of up to 3 components from 0..k (k = 2..7) in ascending, descending or interleaved order; each read back; half overwritten; read back again", |ch| {
        let k = ch.range(2, 7); let order = ch.choose(3);
        let mut paths: Vec<Vec<usize>> = vec![vec![]];
        for a in 0..k { paths.push(vec![a]); for b in 0..k { paths.push(vec![a, b]); for c in 0..k { paths.push(vec![a, b, c]) } } }
        match order { 1 => paths.reverse(), 2 => { let n = paths.len(); paths = (0..n).map(|i| paths[(i * 17 + 3) % n].clone()).collect(); let mut q = paths.clone(); q.sort(); q.dedup(); if q.len() != n { return Err(Stop::Skip) } } _ => {} }
        let mut ds = IntermediateDataSource::new();
        let skip = ch.flag();
        for (i, p) in paths.iter().enumerate() { if skip && i % 5 == 0 { continue; } ds.add_primitive(&path_of(p), PV::U64(i as u64)); }
        for (i, p) in paths.iter().enumerate() { if i % 2 == 0 && !(skip && i % 5 == 0) { ds.add_string(&path_of(p), &format!("s{}", i)) } }
        for (i, p) in paths.iter().enumerate() {
            let got = getters(&ds, &path_of(p), if i % 2 == 0 { 14 } else { PRIMS.iter().position(|x| *x == P::U64).unwrap() });
            let want = if skip && i % 5 == 0 { None } else if i % 2 == 0 { Some(Val::Str(format!("s{}", i))) } else { Some(Val::Prim(P::U64, V::U(i as u128))) };
            ensure!(got == want, "{} paths in order {}: {:?} reads {:?}, expected {:?}", paths.len(), order, p, got, want);
        }
        ch.call(|| ()).ok();
        ch.state(format!("{} {} {}", k, order, skip).as_bytes());
        Ok(())
    }));
    let d4 = if th { 5 } else { 4 };
    s.push(Suite::new("in-place", &format!("6 types x all sequences of {} values out of 5, four of them of one length: each document written over the one before it at the same address, decoded by one decoder; the record marshalled over the one before at the same address; read from there by one JSON encoder and copied by one marshaller into another such place", d4), move |ch| in_place(ch, d4)));
    let d3 = if th { 7 } else { 6 };
    s.push(Suite::new("component-reuse", &format!("4 types x all sequences of up to {} operations (decode one of 3 documents, decode one of 2 bad documents, encode to JSON, encode into a failing sink, encode to binary, read binary) on one set of components, compared with fresh ones", d3), move |ch| reuse_history(ch, d3)));
    s
}
