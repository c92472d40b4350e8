//! The harness's own notion of types and values, independent of the code under test.
use crate::engine::{guarded, Ch};
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::types::{self, Path};
use cathlamet::core::value::PrimitiveValue as PV;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum P { Bool, Char, U8, U16, U32, U64, U128, I8, I16, I32, I64, I128, F32, F64 }
pub const PRIMS: [P; 14] = [P::Bool, P::Char, P::U8, P::U16, P::U32, P::U64, P::U128, P::I8, P::I16, P::I32, P::I64, P::I128, P::F32, P::F64];
impl P {
    pub fn name(self) -> &'static str {
        match self { P::Bool => "bool", P::Char => "char", P::U8 => "u8", P::U16 => "u16", P::U32 => "u32", P::U64 => "u64", P::U128 => "u128",
            P::I8 => "i8", P::I16 => "i16", P::I32 => "i32", P::I64 => "i64", P::I128 => "i128", P::F32 => "f32", P::F64 => "f64" }
    }
    pub fn repo(self) -> types::Primitive {
        use types::Primitive as R;
        match self { P::Bool => R::Bool, P::Char => R::Char, P::U8 => R::U8, P::U16 => R::U16, P::U32 => R::U32, P::U64 => R::U64, P::U128 => R::U128,
            P::I8 => R::I8, P::I16 => R::I16, P::I32 => R::I32, P::I64 => R::I64, P::I128 => R::I128, P::F32 => R::F32, P::F64 => R::F64 }
    }
    pub fn size(self) -> usize {
        match self { P::Bool | P::U8 | P::I8 => 1, P::U16 | P::I16 => 2, P::Char | P::U32 | P::I32 | P::F32 => 4, P::U64 | P::I64 | P::F64 => 8, P::U128 | P::I128 => 16 }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum T { Unit, Prim(P), Str, Tuple(Vec<T>), Struct(Vec<(String, T)>), Enum(Vec<(String, T)>) }

#[derive(Clone, PartialEq, Debug)]
pub enum V { Unit, Bool(bool), Char(char), U(u128), I(i128), F32(u32), F64(u64), Str(String), Seq(Vec<V>), Case(usize, Box<V>) }

fn mk(kind: types::Kind) -> types::Type { types::Type { kind } }
impl T {
    pub fn repo(&self) -> types::Type {
        match self {
            T::Unit => mk(types::Kind::Unit),
            T::Prim(p) => mk(types::Kind::Primitive(p.repo())),
            T::Str => mk(types::Kind::String),
            T::Tuple(v) => mk(types::Kind::Tuple(v.iter().map(|t| Box::new(t.repo())).collect())),
            T::Struct(v) => mk(types::Kind::Struct(v.iter().map(|(l, t)| types::Field { label: l.clone(), typ: Box::new(t.repo()) }).collect())),
            T::Enum(v) => mk(types::Kind::Enum(v.iter().map(|(l, t)| types::Case { label: l.clone(), typ: Box::new(t.repo()) }).collect())),
        }
    }
    /// canonical rendering in the type-descriptor language
    pub fn show(&self) -> String {
        match self {
            T::Unit => "()".into(), T::Prim(p) => p.name().into(), T::Str => "string".into(),
            T::Tuple(v) => format!("({})", v.iter().map(|t| t.show()).collect::<Vec<_>>().join(",")),
            T::Struct(v) => format!("struct{{{}}}", v.iter().map(|(l, t)| format!("{}:{}", l, t.show())).collect::<Vec<_>>().join(",")),
            T::Enum(v) => if v.len() > 8 { format!("enum{{<{} cases>}}", v.len()) } else { format!("enum{{{}}}", v.iter().map(|(l, t)| format!("{}:{}", l, t.show())).collect::<Vec<_>>().join(",")) },
        }
    }
    pub fn children(&self) -> Vec<&T> {
        match self { T::Tuple(v) => v.iter().collect(), T::Struct(v) | T::Enum(v) => v.iter().map(|x| &x.1).collect(), _ => vec![] }
    }
}

impl V {
    pub fn show(&self) -> String { let s = format!("{:?}", self); if s.len() > 300 { s.chars().take(300).collect() } else { s } }
}

pub fn pv(p: P, v: &V) -> PV {
    match (p, v) {
        (P::Bool, V::Bool(b)) => PV::Bool(*b), (P::Char, V::Char(c)) => PV::Char(*c),
        (P::U8, V::U(x)) => PV::U8(*x as u8), (P::U16, V::U(x)) => PV::U16(*x as u16), (P::U32, V::U(x)) => PV::U32(*x as u32),
        (P::U64, V::U(x)) => PV::U64(*x as u64), (P::U128, V::U(x)) => PV::U128(*x),
        (P::I8, V::I(x)) => PV::I8(*x as i8), (P::I16, V::I(x)) => PV::I16(*x as i16), (P::I32, V::I(x)) => PV::I32(*x as i32),
        (P::I64, V::I(x)) => PV::I64(*x as i64), (P::I128, V::I(x)) => PV::I128(*x),
        (P::F32, V::F32(x)) => PV::F32(f32::from_bits(*x)), (P::F64, V::F64(x)) => PV::F64(f64::from_bits(*x)),
        _ => panic!("harness: value {:?} for {:?}", v, p),
    }
}

/// Store a value into an in-memory data source.
pub fn load(ds: &mut IntermediateDataSource, t: &T, v: &V, path: &Path) {
    match (t, v) {
        (T::Unit, _) => {}
        (T::Prim(p), v) => ds.add_primitive(path, pv(*p, v)),
        (T::Str, V::Str(s)) => ds.add_string(path, s),
        (T::Tuple(ts), V::Seq(vs)) => for (i, (t, v)) in ts.iter().zip(vs).enumerate() { load(ds, t, v, &path.with_component(i)) },
        (T::Struct(ts), V::Seq(vs)) => for (i, ((_, t), v)) in ts.iter().zip(vs).enumerate() { load(ds, t, v, &path.with_component(i)) },
        (T::Enum(ts), V::Case(i, v)) => { ds.add_case_tag(path, *i); load(ds, &ts[*i].1, v, &path.with_component(*i)) }
        _ => panic!("harness: value shape"),
    }
}
pub fn load_new(t: &T, v: &V) -> IntermediateDataSource { let mut ds = IntermediateDataSource::new(); load(&mut ds, t, v, &Path::create_empty()); ds }

pub fn read_prim(ds: &dyn DataSource, p: P, path: &Path) -> V {
    match p {
        P::Bool => V::Bool(ds.get_bool(path)), P::Char => V::Char(ds.get_char(path)),
        P::U8 => V::U(ds.get_u8(path) as u128), P::U16 => V::U(ds.get_u16(path) as u128), P::U32 => V::U(ds.get_u32(path) as u128),
        P::U64 => V::U(ds.get_u64(path) as u128), P::U128 => V::U(ds.get_u128(path)),
        P::I8 => V::I(ds.get_i8(path) as i128), P::I16 => V::I(ds.get_i16(path) as i128), P::I32 => V::I(ds.get_i32(path) as i128),
        P::I64 => V::I(ds.get_i64(path) as i128), P::I128 => V::I(ds.get_i128(path)),
        P::F32 => V::F32(ds.get_f32(path).to_bits()), P::F64 => V::F64(ds.get_f64(path).to_bits()),
    }
}

/// Read a whole value back, element by element. Errors describe disagreements between length and bytes.
pub fn read(ds: &dyn DataSource, t: &T, path: &Path) -> Result<V, String> {
    Ok(match t {
        T::Unit => V::Unit,
        T::Prim(p) => read_prim(ds, *p, path),
        T::Str => {
            let b = ds.get_bytes(path);
            let n = ds.get_length(path);
            if n != b.len() { return Err(format!("get_length {} but get_bytes has {}", n, b.len())); }
            match std::str::from_utf8(b) { Ok(s) => V::Str(s.to_string()), Err(_) => return Err(format!("string bytes are not UTF-8: {:?}", b)) }
        }
        T::Tuple(ts) => { let mut v = vec![]; for (i, t) in ts.iter().enumerate() { v.push(read(ds, t, &path.with_component(i))?) } V::Seq(v) }
        T::Struct(ts) => { let mut v = vec![]; for (i, (_, t)) in ts.iter().enumerate() { v.push(read(ds, t, &path.with_component(i))?) } V::Seq(v) }
        T::Enum(ts) => {
            let c = ds.get_case_tag(path);
            if c >= ts.len() { return Err(format!("case tag {} of an enum with {} cases", c, ts.len())); }
            V::Case(c, Box::new(read(ds, &ts[c].1, &path.with_component(c))?))
        }
    })
}
pub fn read_guarded(ds: &dyn DataSource, t: &T) -> Result<V, String> {
    match guarded(|| read(ds, t, &Path::create_empty())) { Ok(r) => r, Err(m) => Err(format!("panicked: {}", m)) }
}

pub fn canon(v: &V) -> V {
    // identify all NaNs
    match v {
        V::F32(b) if f32::from_bits(*b).is_nan() => V::F32(f32::NAN.to_bits()),
        V::F64(b) if f64::from_bits(*b).is_nan() => V::F64(f64::NAN.to_bits()),
        V::Seq(s) => V::Seq(s.iter().map(canon).collect()),
        V::Case(i, v) => V::Case(*i, Box::new(canon(v))),
        v => v.clone(),
    }
}

// ------------------------------------------------------------------------------------------------- enumeration

pub struct Shape<'a> { pub leaves: &'a [T], pub max_arity: usize, pub containers: [bool; 3] }

pub fn label(i: usize) -> String { ["a", "b", "c", "d", "e", "f"].get(i).map(|s| s.to_string()).unwrap_or_else(|| format!("l{}", i)) }

/// All type trees with at most `budget` nodes.
pub fn gen_type(ch: &mut Ch, sh: &Shape, budget: &mut usize) -> T {
    *budget -= 1;
    let nc = if *budget > 0 { sh.containers.iter().filter(|x| **x).count() } else { 0 };
    let k = ch.choose(sh.leaves.len() + nc);
    if k < sh.leaves.len() { return sh.leaves[k].clone(); }
    let which = (0..3).filter(|&i| sh.containers[i]).nth(k - sh.leaves.len()).unwrap();
    let arity = ch.range(1, sh.max_arity.min(*budget));
    let mut kids = vec![];
    for i in 0..arity {
        // leave one node for each remaining sibling
        let reserve = arity - 1 - i;
        *budget -= reserve;
        kids.push(gen_type(ch, sh, budget));
        *budget += reserve;
    }
    match which {
        0 => T::Tuple(kids),
        1 => T::Struct(kids.into_iter().enumerate().map(|(i, t)| (label(i), t)).collect()),
        _ => T::Enum(kids.into_iter().enumerate().map(|(i, t)| (label(i), t)).collect()),
    }
}

/// Value of a leaf for a given round; `salt` differs between leaves so that mix-ups are visible.
pub fn round_leaf(t: &T, round: usize, salt: &mut usize) -> V {
    *salt += 1;
    let s = *salt as u128;
    let distinct: u128 = 0x0123456789ABCDEFFEDCBA9876543210u128.rotate_left((*salt as u32 * 8) % 128) ^ (s * 0x11);
    match t {
        T::Unit => V::Unit,
        T::Str => V::Str(match round { 0 => { let n = [1usize, 3, 2, 5, 4][*salt % 5]; (0..n).map(|i| (b'a' + ((*salt + i) % 26) as u8) as char).collect() } 1 => "\u{7f}é€😀\u{10ffff}".chars().cycle().skip(*salt).take(3).collect(), 2 => String::new(), _ => (0..17 + *salt).map(|i| (b'A' + (i % 26) as u8) as char).collect() }),
        T::Prim(p) => {
            let bits = p.size() as u32 * 8;
            let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
            let raw = match round { 0 => distinct & mask, 1 => mask, 2 => 0, _ => 1u128 << (bits - 1) };
            match p {
                P::Bool => V::Bool(match round { 0 => *salt % 2 == 0, 1 => true, 2 => false, _ => *salt % 2 == 1 }),
                P::Char => V::Char(match round { 0 => char::from_u32(0x1F600 + *salt as u32).unwrap(), 1 => '\u{10ffff}', 2 => '\0', _ => '\u{d7ff}' }),
                P::U8 | P::U16 | P::U32 | P::U64 | P::U128 => V::U(raw),
                P::I8 | P::I16 | P::I32 | P::I64 | P::I128 => { let sh = 128 - bits; V::I(((raw << sh) as i128) >> sh) }
                P::F32 => V::F32(match round { 0 => (1.5f32 + *salt as f32 * 0.1).to_bits(), 1 => f32::MAX.to_bits(), 2 => 0, _ => (-0.0f32).to_bits() }),
                P::F64 => V::F64(match round { 0 => (1.5f64 + *salt as f64 * 0.1).to_bits(), 1 => f64::MIN_POSITIVE.to_bits() | 1, 2 => 0, _ => (-0.0f64).to_bits() }),
            }
        }
        _ => panic!("not a leaf"),
    }
}

/// All case choices, leaf payloads fixed by the round.
pub fn gen_value_round(ch: &mut Ch, t: &T, round: usize, salt: &mut usize) -> V {
    match t {
        T::Tuple(ts) => V::Seq(ts.iter().map(|t| gen_value_round(ch, t, round, salt)).collect()),
        T::Struct(ts) => V::Seq(ts.iter().map(|(_, t)| gen_value_round(ch, t, round, salt)).collect()),
        T::Enum(ts) => { let c = ch.choose(ts.len()); V::Case(c, Box::new(gen_value_round(ch, &ts[c].1, round, salt))) }
        leaf => round_leaf(leaf, round, salt),
    }
}

pub const STRINGS: &[&str] = &["", "a", "ab", "abc", "\"", "\\", "/", "\u{0}", "\u{1f}", "\n\t\r\u{8}\u{c}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{7fff}", "\u{8000}", "\u{d7ff}", "\u{e000}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{2028}",
    "kind", "value", "null", "true", "0123456789abcdef", "0123456789abcdefg", "x\u{0}y", "\\u0041", "{\"a\":1}", " lead", "trail ", "é€😀"];

/// Boundary values of a leaf type.
pub fn boundary(t: &T) -> Vec<V> {
    match t {
        T::Unit => vec![V::Unit],
        T::Str => STRINGS.iter().map(|s| V::Str(s.to_string())).collect(),
        T::Prim(p) => {
            let bits = p.size() as u32 * 8;
            match p {
                P::Bool => vec![V::Bool(false), V::Bool(true)],
                P::Char => ['\0', '\u{1}', '\u{8}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{e}', '\u{19}', '\u{1a}', '\u{1f}', ' ', '"', '/', '\\', 'a', 'u', '\u{7e}', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{fff}', '\u{1000}', '\u{7fff}', '\u{8000}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{fffff}', '\u{100000}', '\u{10ffff}'].iter().map(|c| V::Char(*c)).collect(),
                P::U8 | P::U16 | P::U32 | P::U64 | P::U128 => {
                    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
                    let mut v: Vec<u128> = vec![0, 1, 2, 9, 10, 0x7f, 0x80, 0xff, max, max - 1, max / 2, max / 2 + 1];
                    for k in (0..bits).step_by(8) { v.push(1u128 << k); v.push((1u128 << k).wrapping_sub(1)); v.push(0xA5u128 << k); }
                    let mut ten = 1u128; while let Some(t) = ten.checked_mul(10) { ten = t; v.push(ten); v.push(ten - 1); }
                    v.retain(|x| *x <= max); v.sort(); v.dedup();
                    v.into_iter().map(V::U).collect()
                }
                P::I8 | P::I16 | P::I32 | P::I64 | P::I128 => {
                    let max = if bits == 128 { i128::MAX } else { (1i128 << (bits - 1)) - 1 };
                    let min = -max - 1;
                    let mut v: Vec<i128> = vec![0, 1, -1, 2, -2, 9, 10, -10, max, max - 1, min, min + 1];
                    for k in (0..bits - 1).step_by(8) { v.push(1i128 << k); v.push(-(1i128 << k)); v.push((1i128 << k) - 1); v.push(-(1i128 << k) - 1); }
                    let mut ten = 1i128; while let Some(t) = ten.checked_mul(10) { ten = t; v.push(ten); v.push(-ten + 1); }
                    v.retain(|x| *x <= max && *x >= min); v.sort(); v.dedup();
                    v.into_iter().map(V::I).collect()
                }
                P::F32 => f32_set().into_iter().map(V::F32).collect(),
                P::F64 => f64_set().into_iter().map(V::F64).collect(),
            }
        }
        _ => panic!(),
    }
}
pub fn f32_set() -> Vec<u32> {
    let mut v: Vec<u32> = [0.0f32, -0.0, 1.0, -1.0, 0.1, 0.3, 1.5, 1e7, 1.6777216e7, 1.6777217e7, 1e10, 1e-10, 1e21, 1e20, 123456.789, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, f32::INFINITY, f32::NEG_INFINITY, f32::NAN].iter().map(|f| f.to_bits()).collect();
    v.extend([1u32, 2, 0x007f_ffff, 0x8000_0001, 0x3f80_0001, 0x7f7f_fffe]); v.sort(); v.dedup(); v
}
pub fn f64_set() -> Vec<u64> {
    let mut v: Vec<u64> = [0.0f64, -0.0, 1.0, -1.0, 0.1, 0.2, 0.3, 1.5, 1e15, 1e16, 1e17, 9007199254740992.0, 9007199254740993.0, 1e-7, 1e21, 1e22, 1e23, 1e300, 1e-300, 123456.789, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN].iter().map(|f| f.to_bits()).collect();
    v.extend([1u64, 2, 0x000f_ffff_ffff_ffff, 0x8000_0000_0000_0001, 0x3ff0_0000_0000_0001, 0x7fef_ffff_ffff_fffe]); v.sort(); v.dedup(); v
}

/// Full boundary domain at each leaf (use with small types only).
pub fn gen_value_boundary(ch: &mut Ch, t: &T) -> V {
    match t {
        T::Tuple(ts) => V::Seq(ts.iter().map(|t| gen_value_boundary(ch, t)).collect()),
        T::Struct(ts) => V::Seq(ts.iter().map(|(_, t)| gen_value_boundary(ch, t)).collect()),
        T::Enum(ts) => { let c = ch.choose(ts.len()); V::Case(c, Box::new(gen_value_boundary(ch, &ts[c].1))) }
        leaf => { let b = boundary(leaf); ch.pick(&b).clone() }
    }
}

pub fn all_leaves() -> Vec<T> { let mut v: Vec<T> = PRIMS.iter().map(|p| T::Prim(*p)).collect(); v.push(T::Str); v.push(T::Unit); v }
