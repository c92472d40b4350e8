//! An independent implementation of JSON (RFC 8259) and of what a document of a given type denotes.
use crate::tv::*;

#[derive(Clone, PartialEq, Debug)]
pub enum LT { Eof, Punct(char), Kw(&'static str), Num(String), Str(String), Bad }

fn ws(c: char) -> bool { matches!(c, ' ' | '\t' | '\n' | '\r') }

/// Next token at `pos`: (token, position after it, glued). Glued: a number or keyword directly followed by a character
/// that could be meant to continue it; whether the error is reported with this token or with the next is left open.
pub fn lex(s: &[char], mut pos: usize) -> (LT, usize, bool) {
    while pos < s.len() && ws(s[pos]) { pos += 1 }
    if pos >= s.len() { return (LT::Eof, pos, false); }
    let glued = |p: usize| p < s.len() && !ws(s[p]) && !matches!(s[p], ',' | ':' | '[' | ']' | '{' | '}' | '"');
    let c = s[pos];
    match c {
        ',' | ':' | '[' | ']' | '{' | '}' => (LT::Punct(c), pos + 1, false),
        '"' => match string(s, pos) { Some((v, p)) => (LT::Str(v), p, false), None => (LT::Bad, pos, false) },
        '-' | '0'..='9' => match number(s, pos) { Some(p) => (LT::Num(s[pos..p].iter().collect()), p, glued(p)), None => (LT::Bad, pos, false) },
        _ => {
            for k in ["null", "true", "false"] {
                let n = k.len();
                if pos + n <= s.len() && k.chars().zip(&s[pos..pos + n]).all(|(a, b)| a == *b) { return (LT::Kw(k), pos + n, glued(pos + n)); }
            }
            (LT::Bad, pos, false)
        }
    }
}

fn hex4(s: &[char], p: usize) -> Option<u32> {
    if p + 4 > s.len() { return None; }
    let mut v = 0;
    for c in &s[p..p + 4] { v = v * 16 + match c { '0'..='9' => *c as u32 - 48, 'a'..='f' => *c as u32 - 87, 'A'..='F' => *c as u32 - 55, _ => return None } }
    Some(v)
}

fn string(s: &[char], mut p: usize) -> Option<(String, usize)> {
    p += 1;
    let mut o = String::new();
    loop {
        let c = *s.get(p)?;
        match c {
            '"' => return Some((o, p + 1)),
            '\\' => {
                let e = *s.get(p + 1)?;
                p += 2;
                match e {
                    '"' | '\\' | '/' => o.push(e), 'b' => o.push('\u{8}'), 'f' => o.push('\u{c}'), 'n' => o.push('\n'), 'r' => o.push('\r'), 't' => o.push('\t'),
                    'u' => {
                        let u = hex4(s, p)?;
                        p += 4;
                        if (0xd800..0xdc00).contains(&u) {
                            if s.get(p) != Some(&'\\') || s.get(p + 1) != Some(&'u') { return None; }
                            let l = hex4(s, p + 2)?;
                            if !(0xdc00..0xe000).contains(&l) { return None; }
                            p += 6;
                            o.push(char::from_u32((((u & 0x3ff) << 10) | (l & 0x3ff)) + 0x10000)?);
                        } else { o.push(char::from_u32(u)?); }
                    }
                    _ => return None,
                }
            }
            c if (c as u32) < 0x20 => return None,
            c => { o.push(c); p += 1 }
        }
    }
}

fn number(s: &[char], mut p: usize) -> Option<usize> {
    let d = |p: usize| p < s.len() && s[p].is_ascii_digit();
    if s[p] == '-' { p += 1 }
    if !d(p) { return None; }
    if s[p] == '0' { p += 1 } else { while d(p) { p += 1 } }
    if p < s.len() && s[p] == '.' && d(p + 1) { p += 1; while d(p) { p += 1 } }
    if p < s.len() && (s[p] == 'e' || s[p] == 'E') {
        let q = if p + 1 < s.len() && (s[p + 1] == '+' || s[p + 1] == '-') { p + 2 } else { p + 1 };
        if d(q) { p = q; while d(p) { p += 1 } }
    }
    Some(p)
}

#[derive(Clone, PartialEq, Debug)]
pub enum J { Null, Bool(bool), Num(String), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

pub fn parse(text: &str) -> Option<J> {
    let s: Vec<char> = text.chars().collect();
    let mut p = 0;
    let j = value(&s, &mut p)?;
    match lex(&s, p) { (LT::Eof, _, _) => Some(j), _ => None }
}
fn value(s: &[char], p: &mut usize) -> Option<J> {
    let (t, q, glued) = lex(s, *p);
    if glued { return None; }
    *p = q;
    Some(match t {
        LT::Kw("null") => J::Null, LT::Kw(k) => J::Bool(k == "true"), LT::Num(n) => J::Num(n), LT::Str(x) => J::Str(x),
        LT::Punct('[') => {
            let mut v = vec![];
            if let (LT::Punct(']'), q, _) = lex(s, *p) { *p = q; return Some(J::Arr(v)); }
            loop {
                v.push(value(s, p)?);
                let (t, q, _) = lex(s, *p); *p = q;
                match t { LT::Punct(',') => {} LT::Punct(']') => return Some(J::Arr(v)), _ => return None }
            }
        }
        LT::Punct('{') => {
            let mut v = vec![];
            if let (LT::Punct('}'), q, _) = lex(s, *p) { *p = q; return Some(J::Obj(v)); }
            loop {
                let (t, q, _) = lex(s, *p); *p = q;
                let k = match t { LT::Str(k) => k, _ => return None };
                let (t, q, _) = lex(s, *p); *p = q;
                if t != LT::Punct(':') { return None; }
                v.push((k, value(s, p)?));
                let (t, q, _) = lex(s, *p); *p = q;
                match t { LT::Punct(',') => {} LT::Punct('}') => return Some(J::Obj(v)), _ => return None }
            }
        }
        _ => return None,
    })
}

/// What a document denotes as a value of a type.
#[derive(Clone, PartialEq, Debug)]
pub enum D {
    /// must be accepted, with this value
    Yes(V),
    /// may be rejected or accepted, and if accepted, then with this value
    Maybe(Option<V>),
    No,
}

fn plain_int(s: &str) -> bool { let d = s.strip_prefix('-').unwrap_or(s); !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()) && (d == "0" || !d.starts_with('0')) }

fn int(p: P, text: &str) -> Option<V> {
    let bits = p.size() as u32 * 8;
    let (neg, d) = match text.strip_prefix('-') { Some(d) => (true, d), None => (false, text) };
    let mut v: u128 = 0;
    for b in d.bytes() { v = v.checked_mul(10)?.checked_add((b - b'0') as u128)? }
    match p {
        P::U8 | P::U16 | P::U32 | P::U64 | P::U128 => {
            if neg && v != 0 { return None; }
            let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
            if v <= max { Some(V::U(v)) } else { None }
        }
        _ => {
            let lim = 1u128 << (bits - 1);
            if neg { if v <= lim { Some(V::I((v as i128).wrapping_neg())) } else { None } } else if v < lim { Some(V::I(v as i128)) } else { None }
        }
    }
}

fn prim_num(p: P, text: &str, quoted: bool) -> D {
    match p {
        P::F32 | P::F64 => {
            let chars: Vec<char> = text.chars().collect();
            let is_json = !chars.is_empty() && (chars[0] == '-' || chars[0].is_ascii_digit()) && number(&chars, 0) == Some(chars.len());
            let v = if p == P::F32 { text.parse::<f32>().ok().map(|x| V::F32(x.to_bits())) } else { text.parse::<f64>().ok().map(|x| V::F64(x.to_bits())) };
            let fin = match &v { Some(V::F32(b)) => f32::from_bits(*b).is_finite(), Some(V::F64(b)) => f64::from_bits(*b).is_finite(), _ => false };
            if is_json { return if fin { D::Yes(v.unwrap()) } else { D::Maybe(v) }; }
            debug_assert!(quoted);
            if matches!(text, "NaN" | "inf" | "-inf") { return D::Yes(v.unwrap()); }
            match v { Some(v) => D::Maybe(Some(v)), None => D::No }
        }
        _ => {
            if plain_int(text) {
                let v = int(p, text);
                return match v { None => D::No, Some(v) => if text == "-0" { D::Maybe(Some(v)) } else { D::Yes(v) } };
            }
            // other notations of integral numbers: 1.0, 1e2; quoted: +1, 01
            let t = text.strip_prefix('+').unwrap_or(text);
            let body = t.strip_prefix('-').unwrap_or(t);
            if quoted && !body.is_empty() && body.bytes().all(|b| b.is_ascii_digit()) && !(t.len() != text.len() && t.starts_with('-')) {
                let z = body.trim_start_matches('0'); let z = if z.is_empty() { "0" } else { z };
                let canon = if t.starts_with('-') { format!("-{}", z) } else { z.to_string() };
                return match int(p, &canon) { Some(v) => D::Maybe(Some(v)), None => D::No };
            }
            if !quoted { return D::Maybe(exact_int(text).and_then(|s| int(p, &s))).or_no(); }
            D::No
        }
    }
}
impl D { fn or_no(self) -> D { match self { D::Maybe(None) => D::No, d => d } } }

/// the integer that a JSON number with fraction or exponent denotes, if it is one (and small enough to write down)
fn exact_int(text: &str) -> Option<String> {
    let (neg, t) = match text.strip_prefix('-') { Some(t) => (true, t), None => (false, text) };
    let (mant, exp) = match t.find(|c| c == 'e' || c == 'E') { Some(i) => (&t[..i], t[i + 1..].parse::<i64>().ok()?), None => (t, 0) };
    let (a, b) = match mant.find('.') { Some(i) => (&mant[..i], &mant[i + 1..]), None => (mant, "") };
    let mut digits = format!("{}{}", a, b);
    let mut e = exp - b.len() as i64;
    while e < 0 && digits.ends_with('0') && digits.len() > 1 { digits.pop(); e += 1 }
    if digits.bytes().all(|b| b == b'0') { return Some(if neg { "-0".into() } else { "0".into() }); }
    if e < 0 || e > 60 { return None; }
    for _ in 0..e { digits.push('0') }
    let d = digits.trim_start_matches('0');
    Some(format!("{}{}", if neg { "-" } else { "" }, d))
}

pub fn denote(t: &T, j: &J) -> D {
    match (t, j) {
        (T::Unit, J::Null) => D::Yes(V::Unit),
        (T::Str, J::Str(s)) => D::Yes(V::Str(s.clone())),
        (T::Prim(P::Bool), J::Bool(b)) => D::Yes(V::Bool(*b)),
        (T::Prim(P::Bool), _) => D::No,
        (T::Prim(P::Char), J::Str(s)) => { let mut i = s.chars(); match (i.next(), i.next()) { (Some(c), None) => D::Yes(V::Char(c)), _ => D::No } }
        (T::Prim(P::Char), _) => D::No,
        (T::Prim(p), J::Num(s)) => prim_num(*p, s, false),
        (T::Prim(p), J::Str(s)) => prim_num(*p, s, true),
        (T::Tuple(ts), J::Arr(v)) if ts.len() == v.len() => all(ts.iter().zip(v).map(|(t, j)| denote(t, j)).collect()),
        (T::Struct(ts), J::Obj(m)) if ts.len() == m.len() => {
            let mut out = vec![];
            for (l, t) in ts {
                let mut it = m.iter().filter(|(k, _)| k == l);
                match (it.next(), it.next()) { (Some((_, j)), None) => out.push(denote(t, j)), _ => return D::No }
            }
            all(out)
        }
        (T::Enum(ts), J::Obj(m)) if m.len() == 2 => {
            let (k, v, swapped) = if m[0].0 == "kind" && m[1].0 == "value" { (&m[0].1, &m[1].1, false) } else if m[0].0 == "value" && m[1].0 == "kind" { (&m[1].1, &m[0].1, true) } else { return D::No };
            let i = match k { J::Str(s) => match ts.iter().position(|c| c.0 == *s) { Some(i) => i, None => return D::No }, _ => return D::No };
            match denote(&ts[i].1, v) {
                D::No => D::No,
                D::Yes(v) => { let v = V::Case(i, Box::new(v)); if swapped { D::Maybe(Some(v)) } else { D::Yes(v) } }
                D::Maybe(v) => D::Maybe(v.map(|v| V::Case(i, Box::new(v)))),
            }
        }
        _ => D::No,
    }
}
fn all(ds: Vec<D>) -> D {
    let mut vs = Some(vec![]); let mut maybe = false;
    for d in ds {
        match d { D::No => return D::No, D::Yes(v) => if let Some(x) = &mut vs { x.push(v) },
            D::Maybe(Some(v)) => { maybe = true; if let Some(x) = &mut vs { x.push(v) } } D::Maybe(None) => { maybe = true; vs = None } }
    }
    if maybe { D::Maybe(vs.map(V::Seq)) } else { D::Yes(V::Seq(vs.unwrap())) }
}

// ------------------------------------------------------------------------------------------------- rendering

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 0x20 => o += &format!("\\u{:04X}", c as u32), c => o.push(c) } }
    o.push('"'); o
}
pub fn quote_u(s: &str, upper: bool) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o += &if upper { format!("\\u{:04X}", u) } else { format!("\\u{:04x}", u) } } }
    o.push('"'); o
}

pub fn float_text(v: &V) -> String {
    match v {
        V::F32(b) => { let f = f32::from_bits(*b); if f.is_finite() { format!("{:e}", f) } else { format!("\"{}\"", f) } }
        V::F64(b) => { let f = f64::from_bits(*b); if f.is_finite() { format!("{:e}", f) } else { format!("\"{}\"", f) } }
        _ => panic!(),
    }
}
/// Tokens of the plain rendering; `order` picks the order of struct members.
pub fn tokens(t: &T, v: &V, out: &mut Vec<String>, order: &mut dyn FnMut(usize) -> Vec<usize>) {
    match (t, v) {
        (T::Unit, _) => out.push("null".into()),
        (T::Str, V::Str(s)) => out.push(quote(s)),
        (T::Prim(_), V::Bool(b)) => out.push(b.to_string()),
        (T::Prim(_), V::Char(c)) => out.push(quote(&c.to_string())),
        (T::Prim(_), V::U(x)) => out.push(x.to_string()),
        (T::Prim(_), V::I(x)) => out.push(x.to_string()),
        (T::Prim(_), f) => out.push(float_text(f)),
        (T::Tuple(ts), V::Seq(vs)) => {
            out.push("[".into());
            for (i, (t, v)) in ts.iter().zip(vs).enumerate() { if i > 0 { out.push(",".into()) } tokens(t, v, out, order) }
            out.push("]".into());
        }
        (T::Struct(ts), V::Seq(vs)) => {
            out.push("{".into());
            for (n, i) in order(ts.len()).into_iter().enumerate() { if n > 0 { out.push(",".into()) } out.push(quote(&ts[i].0)); out.push(":".into()); tokens(&ts[i].1, &vs[i], out, order) }
            out.push("}".into());
        }
        (T::Enum(ts), V::Case(c, v)) => {
            for x in ["{", "\"kind\"", ":"] { out.push(x.into()) }
            out.push(quote(&ts[*c].0));
            for x in [",", "\"value\"", ":"] { out.push(x.into()) }
            tokens(&ts[*c].1, v, out, order);
            out.push("}".into());
        }
        _ => panic!("harness: shape"),
    }
}
