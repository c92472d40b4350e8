//! Independent SQL front end for the oracles: syntax trees, lexer, recursive-descent parser, dump, and rendering.
#![allow(dead_code)]

#[derive(Clone, PartialEq, Debug)]
pub enum E {
    Str(String), Num(String), Null, CurTime, CurDate, CurTs, Date(String), Time(String), Ts(String),
    Name(Vec<String>), Tuple(Vec<E>), Scalar(Box<Sel>), Neg(Box<E>), Not(Box<E>), IsNull(Box<E>),
    /// * / + - || and or
    Bin(&'static str, Box<E>, Box<E>),
    /// = != < <= > >= like
    Cmp(&'static str, Box<E>, Box<E>),
    In(Box<E>, Set), Between(Box<E>, Box<E>, Box<E>), Case(Option<Box<E>>, Vec<(E, E)>, Option<Box<E>>),
}
#[derive(Clone, PartialEq, Debug)]
pub enum Set { Sel(Box<Sel>), List(Vec<E>), Name(Vec<String>) }
#[derive(Clone, PartialEq, Debug)]
pub struct By { pub e: E, pub coll: Option<String>, pub desc: bool }
#[derive(Clone, PartialEq, Debug)]
pub struct Sel { pub ctes: Vec<Cte>, pub core: Core, pub order: Vec<By>, pub limit: Option<(E, Option<E>)> }
#[derive(Clone, PartialEq, Debug)]
pub struct Cte { pub name: String, pub cols: Option<Vec<String>>, pub q: Sel }
#[derive(Clone, PartialEq, Debug)]
pub enum Core {
    Values(Vec<Vec<E>>),
    Query { distinct: bool, cols: Cols, from: Vec<F>, wher: Option<E>, group: Option<(Vec<E>, Option<E>)> },
    /// union unionall intersect except
    Op(&'static str, Box<Core>, Box<Core>),
}
#[derive(Clone, PartialEq, Debug)]
pub enum Cols { All, List(Vec<Col>) }
#[derive(Clone, PartialEq, Debug)]
pub enum Col { AllFrom(String), Expr(E, Option<String>) }
#[derive(Clone, PartialEq, Debug)]
pub enum F {
    Table(Vec<String>, Option<String>), Sub(Box<Sel>, Option<String>),
    /// kind: join natural cross; jt: inner left right full (- for cross)
    Join { kind: &'static str, jt: &'static str, l: Box<F>, r: Box<F>, c: Jc },
}
#[derive(Clone, PartialEq, Debug)]
pub enum Jc { On(E), Using(Vec<String>) }
#[derive(Clone, PartialEq, Debug)]
pub enum St {
    Sel(Sel),
    Insert { ctes: Vec<Cte>, table: Vec<String>, cols: Option<Vec<String>>, src: Core },
    Delete { ctes: Vec<Cte>, table: Vec<String>, wher: Option<E> },
    Update { ctes: Vec<Cte>, table: Vec<String>, set: Vec<(Vec<String>, E)>, wher: Option<E> },
}
#[derive(Clone, PartialEq, Debug)]
pub enum Top { St(St), Explain(St), Attach(Vec<String>, String), Describe(Vec<String>) }

// ------------------------------------------------------------------------------------------------- lexer

pub const KEYWORDS: &[&str] = &[
    "ALL", "AND", "AS", "ASC", "ATTACH", "BETWEEN", "BY", "CASE", "COLLATE", "CROSS", "CURRENT_DATE", "CURRENT_TIME", "CURRENT_TIMESTAMP",
    "DATE", "DELETE", "DESC", "DESCRIBE", "DISTINCT", "ELSE", "END", "EXPLAIN", "EXCEPT", "FILE", "FROM", "FULL", "GROUP", "HAVING", "IN",
    "INNER", "INSERT", "INTERSECT", "INTO", "IS", "ISNULL", "JOIN", "LEFT", "LIMIT", "LIKE", "NATURAL", "NOT", "NOTNULL", "NULL", "OFFSET",
    "ON", "OR", "ORDER", "OUTER", "PLAN", "QUERY", "RIGHT", "SELECT", "SET", "TABLE", "THEN", "TIME", "TIMESTAMP", "UPDATE", "UNION", "USING",
    "VALUES", "WHEN", "WHERE", "WITH",
];
pub const SYMBOLS: &[&str] = &["||", "!=", "<=", ">=", ",", ".", "(", ")", "*", "/", "+", "-", "=", "<", ">"];

#[derive(Clone, PartialEq, Debug)]
pub enum Tok { K(&'static str), Id(String), Num(String), Str(String), Bad, End }

fn digits(c: &[char], i: &mut usize) -> bool { let s = *i; while *i < c.len() && c[*i].is_ascii_digit() { *i += 1 } *i > s }
fn exponent(c: &[char], i: &mut usize) {
    if *i < c.len() && c[*i] == 'E' {
        let mut j = *i + 1;
        if j < c.len() && (c[j] == '+' || c[j] == '-') { j += 1 }
        if digits(c, &mut j) { *i = j }
    }
}
/// Tokens, ended by End or (where no token matches) Bad.
pub fn lex(s: &str) -> Vec<Tok> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0; let mut o = vec![];
    loop {
        while i < c.len() && c[i].is_whitespace() { i += 1 }
        if i == c.len() { o.push(Tok::End); return o; }
        let st = i;
        let text = |a: usize, b: usize| c[a..b].iter().collect::<String>();
        if c[i] == '_' || c[i].is_ascii_alphabetic() {
            while i < c.len() && (c[i] == '_' || c[i].is_ascii_alphanumeric()) { i += 1 }
            let w = text(st, i); let u = w.to_ascii_uppercase();
            o.push(match KEYWORDS.iter().find(|k| **k == u) { Some(k) => Tok::K(k), None => Tok::Id(w) });
        } else if c[i].is_ascii_digit() {
            digits(&c, &mut i);
            // the longest of the alternatives
            let mut hex = st;
            if c[st] == '0' && st + 1 < c.len() && c[st + 1] == 'x' {
                let mut j = st + 2;
                while j < c.len() && c[j].is_ascii_hexdigit() { j += 1 }
                if j > st + 2 { hex = j }
            }
            if i < c.len() && c[i] == '.' { i += 1; digits(&c, &mut i); }
            exponent(&c, &mut i);
            i = i.max(hex);
            o.push(Tok::Num(text(st, i)));
        } else if c[i] == '.' && i + 1 < c.len() && c[i + 1].is_ascii_digit() {
            i += 1; digits(&c, &mut i); exponent(&c, &mut i);
            o.push(Tok::Num(text(st, i)));
        } else if c[i] == '\'' {
            i += 1;
            while i < c.len() && c[i] != '\'' && !c[i].is_ascii_control() { i += 1 }
            if i < c.len() && c[i] == '\'' { i += 1; o.push(Tok::Str(text(st + 1, i - 1))); } else { o.push(Tok::Bad); return o; }
        } else {
            match SYMBOLS.iter().find(|k| { let k: Vec<char> = k.chars().collect(); c[i..].starts_with(&k) }) {
                Some(k) => { i += k.len(); o.push(Tok::K(k)); }
                None => { o.push(Tok::Bad); return o; }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------- parser

pub struct P { t: Vec<Tok>, i: usize }
type R<T> = Option<T>;
impl P {
    fn la(&self, n: usize) -> &Tok { self.t.get(self.i + n).unwrap_or(&Tok::Bad) }
    fn is(&self, k: &str) -> bool { matches!(self.la(0), Tok::K(x) if *x == k) }
    fn is_at(&self, n: usize, k: &str) -> bool { matches!(self.la(n), Tok::K(x) if *x == k) }
    fn eat(&mut self, k: &str) -> bool { if self.is(k) { self.i += 1; true } else { false } }
    fn need(&mut self, k: &str) -> R<()> { if self.eat(k) { Some(()) } else { None } }
    fn id(&mut self) -> R<String> { if let Tok::Id(s) = self.la(0) { let s = s.clone(); self.i += 1; Some(s) } else { None } }
    fn string(&mut self) -> R<String> { if let Tok::Str(s) = self.la(0) { let s = s.clone(); self.i += 1; Some(s) } else { None } }
    fn is_id(&self) -> bool { matches!(self.la(0), Tok::Id(_)) }
    fn list<T>(&mut self, f: fn(&mut P) -> R<T>) -> R<Vec<T>> { let mut v = vec![f(self)?]; while self.eat(",") { v.push(f(self)?) } Some(v) }
    fn starts_select(&self) -> bool { self.is("SELECT") || self.is("VALUES") || self.is("WITH") }

    fn top(&mut self) -> R<Top> {
        if self.eat("EXPLAIN") { if self.eat("QUERY") { self.need("PLAN")?; } return Some(Top::Explain(self.statement()?)); }
        if self.eat("ATTACH") { self.need("FILE")?; let p = self.string()?; self.need("AS")?; return Some(Top::Attach(self.two_names()?, p)); }
        if self.eat("DESCRIBE") { return Some(Top::Describe(self.two_names()?)); }
        Some(Top::St(self.statement()?))
    }
    fn two_names(&mut self) -> R<Vec<String>> { let mut v = vec![self.id()?]; if self.eat(".") { v.push(self.id()?) } Some(v) }
    fn qualified(&mut self) -> R<Vec<String>> { let mut v = vec![self.id()?]; while v.len() < 3 && self.is(".") { self.i += 1; v.push(self.id()?) } Some(v) }
    fn with(&mut self) -> R<Vec<Cte>> { if self.eat("WITH") { self.list(P::cte) } else { Some(vec![]) } }
    fn cte(&mut self) -> R<Cte> {
        let name = self.id()?;
        let cols = if self.eat("(") { let l = self.list(P::id)?; self.need(")")?; Some(l) } else { None };
        self.need("AS")?; self.need("(")?; let q = self.select()?; self.need(")")?;
        Some(Cte { name, cols, q })
    }
    fn statement(&mut self) -> R<St> {
        let ctes = self.with()?;
        if self.eat("INSERT") {
            self.need("INTO")?; let table = self.qualified()?;
            let cols = if self.eat("(") { let l = self.list(P::id)?; self.need(")")?; Some(l) } else { None };
            return Some(St::Insert { ctes, table, cols, src: self.core()? });
        }
        if self.eat("DELETE") { self.need("FROM")?; let table = self.qualified()?; return Some(St::Delete { ctes, table, wher: self.wher()? }); }
        if self.eat("UPDATE") {
            let table = self.qualified()?; self.need("SET")?;
            let set = self.list(|p| { let c = p.list(P::id)?; p.need("=")?; Some((c, p.expr()?)) })?;
            return Some(St::Update { ctes, table, set, wher: self.wher()? });
        }
        Some(St::Sel(self.select_after(ctes)?))
    }
    fn wher(&mut self) -> R<Option<E>> { if self.eat("WHERE") { Some(Some(self.expr()?)) } else { Some(None) } }
    fn select(&mut self) -> R<Sel> { let c = self.with()?; self.select_after(c) }
    fn select_after(&mut self, ctes: Vec<Cte>) -> R<Sel> {
        let mut core = self.core()?;
        loop {
            let op = if self.eat("UNION") { if self.eat("ALL") { "unionall" } else { "union" } } else if self.eat("INTERSECT") { "intersect" } else if self.eat("EXCEPT") { "except" } else { break };
            core = Core::Op(op, Box::new(core), Box::new(self.core()?));
        }
        let order = if self.eat("ORDER") { self.need("BY")?; self.list(|p| {
            let e = p.expr()?;
            let coll = if p.eat("COLLATE") { Some(p.id()?) } else { None };
            let desc = if p.eat("DESC") { true } else { p.eat("ASC"); false };
            Some(By { e, coll, desc })
        })? } else { vec![] };
        let limit = if self.eat("LIMIT") {
            let n = self.expr()?;
            Some((n, if self.eat(",") || self.eat("OFFSET") { Some(self.expr()?) } else { None }))
        } else { None };
        Some(Sel { ctes, core, order, limit })
    }
    fn core(&mut self) -> R<Core> {
        if self.eat("VALUES") { return Some(Core::Values(self.list(|p| { p.need("(")?; let l = p.list(P::expr)?; p.need(")")?; Some(l) })?)); }
        self.need("SELECT")?;
        let distinct = if self.eat("DISTINCT") { true } else { self.eat("ALL"); false };
        let cols = if self.eat("*") { Cols::All } else { Cols::List(self.list(|p| {
            if p.is_id() && p.is_at(1, ".") && p.is_at(2, "*") { let n = p.id()?; p.i += 2; return Some(Col::AllFrom(n)); }
            let e = p.expr()?;
            let a = if p.eat("AS") { Some(p.id()?) } else if p.is_id() { Some(p.id()?) } else { None };
            Some(Col::Expr(e, a))
        })?) };
        let from = if self.eat("FROM") { self.list(P::table)? } else { vec![] };
        let wher = self.wher()?;
        let group = if self.eat("GROUP") {
            self.need("BY")?; let l = self.list(P::expr)?;
            Some((l, if self.eat("HAVING") { Some(self.expr()?) } else { None }))
        } else { None };
        Some(Core::Query { distinct, cols, from, wher, group })
    }
    fn alias(&mut self) -> R<Option<String>> { if self.eat("AS") { Some(Some(self.id()?)) } else if self.is_id() { Some(Some(self.id()?)) } else { Some(None) } }
    fn table(&mut self) -> R<F> {
        let mut l = self.table_primary()?;
        loop {
            let (kind, jt);
            if self.eat("CROSS") { kind = "cross"; jt = "-"; self.need("JOIN")?; }
            else {
                let natural = self.eat("NATURAL");
                let t = if self.eat("LEFT") { self.eat("OUTER"); Some("left") } else if self.eat("RIGHT") { self.eat("OUTER"); Some("right") }
                    else if self.eat("FULL") { self.eat("OUTER"); Some("full") } else if self.eat("INNER") { Some("inner") } else { None };
                if !natural && t.is_none() && !self.is("JOIN") { return Some(l); }
                self.need("JOIN")?;
                kind = if natural { "natural" } else { "join" }; jt = t.unwrap_or("inner");
            }
            let r = self.table_primary()?;
            let c = if self.eat("ON") { Jc::On(self.expr()?) } else { self.need("USING")?; self.need("(")?; let v = self.list(P::id)?; self.need(")")?; Jc::Using(v) };
            l = F::Join { kind, jt, l: Box::new(l), r: Box::new(r), c };
        }
    }
    fn table_primary(&mut self) -> R<F> {
        if self.eat("(") {
            if self.starts_select() { let s = self.select()?; self.need(")")?; return Some(F::Sub(Box::new(s), self.alias()?)); }
            let t = self.table()?; self.need(")")?; return Some(t);
        }
        let n = self.qualified()?;
        Some(F::Table(n, self.alias()?))
    }
    pub fn expr(&mut self) -> R<E> { self.or() }
    fn or(&mut self) -> R<E> { let mut l = self.and()?; while self.eat("OR") { l = E::Bin("or", Box::new(l), Box::new(self.and()?)) } Some(l) }
    fn and(&mut self) -> R<E> { let mut l = self.not()?; while self.eat("AND") { l = E::Bin("and", Box::new(l), Box::new(self.not()?)) } Some(l) }
    fn not(&mut self) -> R<E> { if self.eat("NOT") { Some(E::Not(Box::new(self.complex()?))) } else { self.complex() } }
    fn complex(&mut self) -> R<E> {
        if !self.eat("CASE") { return self.cmp(); }
        let e = if self.is("WHEN") { None } else { Some(Box::new(self.expr()?)) };
        let mut w = vec![];
        while self.eat("WHEN") { let g = self.expr()?; self.need("THEN")?; w.push((g, self.expr()?)); }
        if w.is_empty() { return None; }
        let el = if self.eat("ELSE") { Some(Box::new(self.expr()?)) } else { None };
        self.need("END")?;
        Some(E::Case(e, w, el))
    }
    fn cmp(&mut self) -> R<E> {
        let mut l = self.add()?;
        loop {
            let b = Box::new;
            let op = match self.la(0) { Tok::K("=") => "=", Tok::K("!=") => "!=", Tok::K("<") => "<", Tok::K(">") => ">", Tok::K("<=") => "<=", Tok::K(">=") => ">=", Tok::K("LIKE") => "like", _ => "" };
            if op != "" { self.i += 1; l = E::Cmp(op, b(l), b(self.add()?)); continue; }
            if self.eat("IS") { let n = self.eat("NOT"); self.need("NULL")?; l = E::IsNull(b(l)); if n { l = E::Not(b(l)) } continue; }
            if self.eat("ISNULL") { l = E::IsNull(b(l)); continue; }
            if self.eat("NOTNULL") { l = E::Not(b(E::IsNull(b(l)))); continue; }
            let n = self.eat("NOT");
            if n && self.eat("NULL") { l = E::Not(b(E::IsNull(b(l)))); continue; }
            if self.eat("IN") {
                let set = if self.eat("(") {
                    let s = if self.is(")") { Set::List(vec![]) } else if self.starts_select() { Set::Sel(Box::new(self.select()?)) } else { Set::List(self.list(P::expr)?) };
                    self.need(")")?; s
                } else { Set::Name(self.qualified()?) };
                l = E::In(b(l), set); if n { l = E::Not(b(l)) } continue;
            }
            if self.eat("BETWEEN") { let lo = self.add()?; self.need("AND")?; let hi = self.add()?; l = E::Between(b(l), b(lo), b(hi)); if n { l = E::Not(b(l)) } continue; }
            return if n { None } else { Some(l) };
        }
    }
    fn add(&mut self) -> R<E> {
        let mut l = self.mul()?;
        loop {
            let op = if self.eat("+") { "+" } else if self.eat("-") { "-" } else if self.eat("||") { "||" } else { return Some(l) };
            l = E::Bin(op, Box::new(l), Box::new(self.mul()?));
        }
    }
    fn mul(&mut self) -> R<E> {
        let mut l = self.unary()?;
        loop {
            let op = if self.eat("*") { "*" } else if self.eat("/") { "/" } else { return Some(l) };
            l = E::Bin(op, Box::new(l), Box::new(self.unary()?));
        }
    }
    fn unary(&mut self) -> R<E> {
        if self.eat("+") { return self.unary(); }
        if self.eat("-") { return Some(E::Neg(Box::new(self.unary()?))); }
        if self.eat("(") {
            if self.starts_select() { let s = self.select()?; self.need(")")?; return Some(E::Scalar(Box::new(s))); }
            let mut l = self.list(P::expr)?; self.need(")")?;
            return Some(if l.len() == 1 { l.pop().unwrap() } else { E::Tuple(l) });
        }
        if self.eat("NULL") { return Some(E::Null); }
        if self.eat("CURRENT_TIME") { return Some(E::CurTime); }
        if self.eat("CURRENT_DATE") { return Some(E::CurDate); }
        if self.eat("CURRENT_TIMESTAMP") { return Some(E::CurTs); }
        if self.eat("DATE") { return Some(E::Date(self.string()?)); }
        if self.eat("TIME") { return Some(E::Time(self.string()?)); }
        if self.eat("TIMESTAMP") { return Some(E::Ts(self.string()?)); }
        match self.la(0).clone() {
            Tok::Num(s) => { self.i += 1; Some(E::Num(s)) }
            Tok::Str(s) => { self.i += 1; Some(E::Str(s)) }
            Tok::Id(_) => Some(E::Name(self.qualified()?)),
            _ => None,
        }
    }
}
/// The tree of a statement, None if the text is not in the language.
pub fn parse(s: &str) -> Option<Top> {
    let mut p = P { t: lex(s), i: 0 };
    let t = p.top()?;
    if *p.la(0) == Tok::End { Some(t) } else { None }
}

// ------------------------------------------------------------------------------------------------- dump (the format of the hook)

fn join<T>(o: &mut String, l: &[T], f: impl Fn(&mut String, &T)) { for (i, x) in l.iter().enumerate() { if i > 0 { o.push(' ') } f(o, x) } }
fn d_names(o: &mut String, l: &[String]) { o.push('['); join(o, l, |o, s| o.push_str(s)); o.push(']') }
fn d_list(o: &mut String, l: &[E]) { o.push('['); join(o, l, d_expr); o.push(']') }
fn d_opt<T>(o: &mut String, v: Option<&T>, f: impl Fn(&mut String, &T)) { match v { None => o.push('-'), Some(v) => f(o, v) } }
fn d_str(o: &mut String, s: &String) { o.push_str(s) }
fn d_ctes(o: &mut String, l: &[Cte]) {
    o.push('[');
    join(o, l, |o, c| { o.push_str("(cte "); o.push_str(&c.name); o.push(' '); d_opt(o, c.cols.as_ref(), |o, l| d_names(o, l)); o.push(' '); d_select(o, &c.q); o.push(')') });
    o.push(']')
}
fn d_select(o: &mut String, s: &Sel) {
    o.push_str("(select "); d_ctes(o, &s.ctes); o.push(' '); d_core(o, &s.core); o.push_str(" [");
    join(o, &s.order, |o, b| { o.push_str("(by "); d_expr(o, &b.e); o.push(' '); d_opt(o, b.coll.as_ref(), d_str); o.push_str(if b.desc { " desc)" } else { " asc)" }) });
    o.push_str("] ");
    d_opt(o, s.limit.as_ref(), |o, (n, f)| { o.push_str("(limit "); d_expr(o, n); o.push(' '); d_opt(o, f.as_ref(), d_expr); o.push(')') });
    o.push(')')
}
fn d_core(o: &mut String, c: &Core) {
    match c {
        Core::Values(rows) => { o.push_str("(values"); for r in rows { o.push(' '); d_list(o, r) } o.push(')') }
        Core::Query { distinct, cols, from, wher, group } => {
            o.push_str(if *distinct { "(query distinct " } else { "(query all " });
            match cols {
                Cols::All => o.push('*'),
                Cols::List(l) => { o.push('['); join(o, l, |o, c| match c {
                    Col::AllFrom(n) => { o.push_str("(all "); o.push_str(n); o.push(')') }
                    Col::Expr(e, a) => { o.push_str("(col "); d_expr(o, e); o.push(' '); d_opt(o, a.as_ref(), d_str); o.push(')') }
                }); o.push(']') }
            }
            o.push_str(" ["); join(o, from, d_table); o.push_str("] ");
            d_opt(o, wher.as_ref(), d_expr); o.push(' ');
            d_opt(o, group.as_ref(), |o, (l, h)| { o.push_str("(group "); d_list(o, l); o.push(' '); d_opt(o, h.as_ref(), d_expr); o.push(')') });
            o.push(')')
        }
        Core::Op(op, l, r) => { o.push('('); o.push_str(op); o.push(' '); d_core(o, l); o.push(' '); d_core(o, r); o.push(')') }
    }
}
fn d_table(o: &mut String, t: &F) {
    match t {
        F::Table(n, a) => { o.push_str("(table "); d_names(o, n); o.push(' '); d_opt(o, a.as_ref(), d_str); o.push(')') }
        F::Sub(s, a) => { o.push_str("(sub "); d_select(o, s); o.push(' '); d_opt(o, a.as_ref(), d_str); o.push(')') }
        F::Join { kind, jt, l, r, c } => {
            o.push('('); o.push_str(kind); o.push(' '); o.push_str(jt); o.push(' ');
            d_table(o, l); o.push(' '); d_table(o, r);
            match c { Jc::On(e) => { o.push_str(" (on "); d_expr(o, e); o.push_str("))") } Jc::Using(v) => { o.push_str(" (using "); d_names(o, v); o.push_str("))") } }
        }
    }
}
pub fn d_expr(o: &mut String, e: &E) {
    use std::fmt::Write;
    let b2 = |o: &mut String, op: &str, l: &E, r: &E| { o.push('('); o.push_str(op); o.push(' '); d_expr(o, l); o.push(' '); d_expr(o, r); o.push(')') };
    match e {
        E::Str(s) => { let _ = write!(o, "{:?}", s); }
        E::Num(s) => { o.push('#'); o.push_str(s) }
        E::Null => o.push_str("null"), E::CurTime => o.push_str("current_time"), E::CurDate => o.push_str("current_date"), E::CurTs => o.push_str("current_timestamp"),
        E::Date(s) => { let _ = write!(o, "(date {:?})", s); } E::Time(s) => { let _ = write!(o, "(time {:?})", s); } E::Ts(s) => { let _ = write!(o, "(timestamp {:?})", s); }
        E::Name(n) => d_names(o, n),
        E::Tuple(l) => { o.push_str("(tuple "); d_list(o, l); o.push(')') }
        E::Scalar(s) => { o.push_str("(scalar "); d_select(o, s); o.push(')') }
        E::Neg(x) => { o.push_str("(neg "); d_expr(o, x); o.push(')') }
        E::Not(x) => { o.push_str("(not "); d_expr(o, x); o.push(')') }
        E::IsNull(x) => { o.push_str("(isnull "); d_expr(o, x); o.push(')') }
        E::Bin(op, l, r) | E::Cmp(op, l, r) => b2(o, op, l, r),
        E::In(x, s) => {
            o.push_str("(in "); d_expr(o, x); o.push(' ');
            match s { Set::Sel(s) => { o.push_str("(set "); d_select(o, s); o.push(')') } Set::List(l) => d_list(o, l), Set::Name(n) => { o.push_str("(name "); d_names(o, n); o.push(')') } }
            o.push(')')
        }
        E::Between(x, a, b) => { o.push_str("(between "); d_expr(o, x); o.push(' '); d_expr(o, a); o.push(' '); d_expr(o, b); o.push(')') }
        E::Case(x, w, el) => {
            o.push_str("(case "); d_opt(o, x.as_ref(), |o, e| d_expr(o, e));
            for (g, b) in w { o.push_str(" (when "); d_expr(o, g); o.push(' '); d_expr(o, b); o.push(')') }
            o.push(' '); d_opt(o, el.as_ref(), |o, e| d_expr(o, e)); o.push(')')
        }
    }
}
fn d_statement(o: &mut String, s: &St) {
    match s {
        St::Sel(s) => d_select(o, s),
        St::Insert { ctes, table, cols, src } => { o.push_str("(insert "); d_ctes(o, ctes); o.push(' '); d_names(o, table); o.push(' '); d_opt(o, cols.as_ref(), |o, l| d_names(o, l)); o.push(' '); d_core(o, src); o.push(')') }
        St::Delete { ctes, table, wher } => { o.push_str("(delete "); d_ctes(o, ctes); o.push(' '); d_names(o, table); o.push(' '); d_opt(o, wher.as_ref(), d_expr); o.push(')') }
        St::Update { ctes, table, set, wher } => {
            o.push_str("(update "); d_ctes(o, ctes); o.push(' '); d_names(o, table); o.push_str(" [");
            join(o, set, |o, (c, e)| { o.push('('); d_names(o, c); o.push(' '); d_expr(o, e); o.push(')') });
            o.push_str("] "); d_opt(o, wher.as_ref(), d_expr); o.push(')')
        }
    }
}
/// With `with` false, WITH clauses of data-modifying statements are left out.
pub fn dump(t: &Top) -> String {
    let mut o = String::new();
    match t {
        Top::St(s) => d_statement(&mut o, s),
        Top::Explain(s) => { o.push_str("(explain "); d_statement(&mut o, s); o.push(')') }
        Top::Attach(n, p) => { o.push_str("(attach "); d_names(&mut o, n); o.push_str(&format!(" {:?})", p)) }
        Top::Describe(n) => { o.push_str("(describe "); d_names(&mut o, n); o.push(')') }
    }
    o
}

// ------------------------------------------------------------------------------------------------- rendering

/// Answers which of n spellings to use; the argument says what for.
pub type Spell<'a> = &'a mut dyn FnMut(&'static str, usize) -> usize;
pub struct Out { pub toks: Vec<String> }
impl Out {
    pub fn new() -> Out { Out { toks: vec![] } }
    fn w(&mut self, s: &str) { self.toks.push(s.to_string()) }
    fn names(&mut self, l: &[String]) { for (i, n) in l.iter().enumerate() { if i > 0 { self.w(".") } self.w(n) } }
    fn commas(&mut self, l: &[String]) { for (i, n) in l.iter().enumerate() { if i > 0 { self.w(",") } self.w(n) } }
    pub fn top(&mut self, t: &Top, sp: Spell) {
        match t {
            Top::St(s) => self.statement(s, sp),
            Top::Explain(s) => { self.w("EXPLAIN"); if sp("explain", 2) == 1 { self.w("QUERY"); self.w("PLAN") } self.statement(s, sp) }
            Top::Attach(n, p) => { self.w("ATTACH"); self.w("FILE"); self.w(&format!("'{}'", p)); self.w("AS"); self.names(n) }
            Top::Describe(n) => { self.w("DESCRIBE"); self.names(n) }
        }
    }
    fn with(&mut self, c: &[Cte], sp: Spell) {
        for (i, c) in c.iter().enumerate() {
            self.w(if i == 0 { "WITH" } else { "," }); self.w(&c.name);
            if let Some(l) = &c.cols { self.w("("); self.commas(l); self.w(")") }
            self.w("AS"); self.w("("); self.select(&c.q, sp); self.w(")")
        }
    }
    fn wher(&mut self, e: &Option<E>, sp: Spell) { if let Some(e) = e { self.w("WHERE"); self.expr(e, 1, sp) } }
    pub fn statement(&mut self, s: &St, sp: Spell) {
        match s {
            St::Sel(s) => self.select(s, sp),
            St::Insert { ctes, table, cols, src } => {
                self.with(ctes, sp); self.w("INSERT"); self.w("INTO"); self.names(table);
                if let Some(l) = cols { self.w("("); self.commas(l); self.w(")") }
                self.core(src, sp)
            }
            St::Delete { ctes, table, wher } => { self.with(ctes, sp); self.w("DELETE"); self.w("FROM"); self.names(table); self.wher(wher, sp) }
            St::Update { ctes, table, set, wher } => {
                self.with(ctes, sp); self.w("UPDATE"); self.names(table); self.w("SET");
                for (i, (c, e)) in set.iter().enumerate() { if i > 0 { self.w(",") } self.commas(c); self.w("="); self.expr(e, 1, sp) }
                self.wher(wher, sp)
            }
        }
    }
    pub fn select(&mut self, s: &Sel, sp: Spell) {
        self.with(&s.ctes, sp); self.core(&s.core, sp);
        for (i, b) in s.order.iter().enumerate() {
            if i == 0 { self.w("ORDER"); self.w("BY") } else { self.w(",") }
            self.expr(&b.e, 1, sp);
            if let Some(c) = &b.coll { self.w("COLLATE"); self.w(c) }
            if b.desc { self.w("DESC") } else if sp("asc", 2) == 1 { self.w("ASC") }
        }
        if let Some((n, o)) = &s.limit {
            self.w("LIMIT"); self.expr(n, 1, sp);
            if let Some(o) = o { if sp("offset", 2) == 0 { self.w("OFFSET") } else { self.w(",") } self.expr(o, 1, sp) }
        }
    }
    fn core(&mut self, c: &Core, sp: Spell) {
        match c {
            Core::Values(rows) => { self.w("VALUES"); for (i, r) in rows.iter().enumerate() { if i > 0 { self.w(",") } self.w("("); self.exprs(r, sp); self.w(")") } }
            Core::Query { distinct, cols, from, wher, group } => {
                self.w("SELECT"); if *distinct { self.w("DISTINCT") } else if sp("all", 2) == 1 { self.w("ALL") }
                match cols { Cols::All => self.w("*"), Cols::List(l) => for (i, c) in l.iter().enumerate() {
                    if i > 0 { self.w(",") }
                    match c { Col::AllFrom(n) => { self.w(n); self.w("."); self.w("*") }
                        Col::Expr(e, a) => { self.expr(e, 1, sp); if let Some(a) = a { if sp("as", 2) == 0 { self.w("AS") } self.w(a) } } }
                } }
                for (i, t) in from.iter().enumerate() { self.w(if i == 0 { "FROM" } else { "," }); self.table(t, false, sp) }
                self.wher(wher, sp);
                if let Some((l, h)) = group { self.w("GROUP"); self.w("BY"); self.exprs(l, sp); if let Some(h) = h { self.w("HAVING"); self.expr(h, 1, sp) } }
            }
            Core::Op(op, l, r) => {
                self.core(l, sp);
                match *op { "union" => self.w("UNION"), "unionall" => { self.w("UNION"); self.w("ALL") } "intersect" => self.w("INTERSECT"), _ => self.w("EXCEPT") }
                self.core(r, sp)
            }
        }
    }
    fn table(&mut self, t: &F, primary: bool, sp: Spell) {
        let paren = matches!(t, F::Join { .. }) && primary || sp("table paren", 2) == 1;
        if paren { self.w("(") }
        match t {
            F::Table(n, a) => { self.names(n); self.alias(a, sp) }
            F::Sub(s, a) => { self.w("("); self.select(s, sp); self.w(")"); self.alias(a, sp) }
            F::Join { kind, jt, l, r, c } => {
                self.table(l, false, sp);
                if *kind == "cross" { self.w("CROSS") } else {
                    if *kind == "natural" { self.w("NATURAL") }
                    if *jt == "inner" { if sp("inner", 2) == 1 { self.w("INNER") } } else { self.w(&jt.to_uppercase()); if sp("outer", 2) == 1 { self.w("OUTER") } }
                }
                self.w("JOIN"); self.table(r, true, sp);
                match c { Jc::On(e) => { self.w("ON"); self.expr(e, 1, sp) } Jc::Using(v) => { self.w("USING"); self.w("("); self.commas(v); self.w(")") } }
            }
        }
        if paren { self.w(")") }
    }
    fn alias(&mut self, a: &Option<String>, sp: Spell) { if let Some(a) = a { if sp("as", 2) == 0 { self.w("AS") } self.w(a) } }
    fn exprs(&mut self, l: &[E], sp: Spell) { for (i, e) in l.iter().enumerate() { if i > 0 { self.w(",") } self.expr(e, 1, sp) } }
    /// Levels: 1 or, 2 and, 3 not, 4 case, 5 comparison, 6 additive, 7 multiplicative, 8 unary, 9 primary
    pub fn expr(&mut self, e: &E, min: u8, sp: Spell) {
        // the spellings that a negated predicate has
        let inner = if let E::Not(x) = e { match &**x { E::IsNull(_) => sp("not null", 4), E::In(..) | E::Between(..) => sp("not in", 2), _ => 0 } } else { 0 };
        let level = match e {
            E::Bin("or", ..) => 1, E::Bin("and", ..) => 2, E::Not(_) => if inner == 0 { 3 } else { 5 }, E::Case(..) => 4,
            E::Cmp(..) | E::IsNull(_) | E::In(..) | E::Between(..) => 5, E::Bin("+", ..) | E::Bin("-", ..) | E::Bin("||", ..) => 6, E::Bin(..) => 7, E::Neg(_) => 8, _ => 9,
        };
        let mut paren = level < min;
        match sp("paren", 3) {
            1 => paren = true,
            // a sign without effect binds like any other
            2 => { if min > 8 { paren = true } else { self.w("+"); paren = paren || level < 8 } }
            _ => (),
        }
        if paren { self.w("(") }
        match e {
            E::Str(s) => self.w(&format!("'{}'", s)), E::Num(s) => self.w(s), E::Null => self.w("NULL"),
            E::CurTime => self.w("CURRENT_TIME"), E::CurDate => self.w("CURRENT_DATE"), E::CurTs => self.w("CURRENT_TIMESTAMP"),
            E::Date(s) => { self.w("DATE"); self.w(&format!("'{}'", s)) } E::Time(s) => { self.w("TIME"); self.w(&format!("'{}'", s)) } E::Ts(s) => { self.w("TIMESTAMP"); self.w(&format!("'{}'", s)) }
            E::Name(n) => self.names(n),
            E::Tuple(l) => { self.w("("); self.exprs(l, sp); self.w(")") }
            E::Scalar(s) => { self.w("("); self.select(s, sp); self.w(")") }
            E::Neg(x) => { self.w("-"); self.expr(x, 8, sp) }
            E::Not(x) if inner == 0 => { self.w("NOT"); self.expr(x, 4, sp) }
            E::Not(x) => match &**x {
                E::IsNull(y) => { self.expr(y, 5, sp); match inner { 1 => { self.w("IS"); self.w("NOT"); self.w("NULL") } 2 => self.w("NOTNULL"), _ => { self.w("NOT"); self.w("NULL") } } }
                y => self.predicate(y, true, sp),
            },
            E::IsNull(x) => { self.expr(x, 5, sp); if sp("is null", 2) == 0 { self.w("IS"); self.w("NULL") } else { self.w("ISNULL") } }
            E::Bin(op, l, r) => { let lr = match *op { "or" => 2, "and" => 3, "*" | "/" => 8, _ => 7 }; self.expr(l, level, sp); self.w(&op.to_uppercase()); self.expr(r, lr, sp) }
            E::Cmp(op, l, r) => { self.expr(l, 5, sp); self.w(&op.to_uppercase()); self.expr(r, 6, sp) }
            E::In(..) | E::Between(..) => self.predicate(e, false, sp),
            E::Case(x, w, el) => {
                self.w("CASE"); if let Some(x) = x { self.expr(x, 1, sp) }
                for (g, b) in w { self.w("WHEN"); self.expr(g, 1, sp); self.w("THEN"); self.expr(b, 1, sp) }
                if let Some(x) = el { self.w("ELSE"); self.expr(x, 1, sp) }
                self.w("END")
            }
        }
        if paren { self.w(")") }
    }
    fn predicate(&mut self, e: &E, not: bool, sp: Spell) {
        match e {
            E::In(x, s) => {
                self.expr(x, 5, sp); if not { self.w("NOT") } self.w("IN");
                match s { Set::Name(n) => self.names(n), Set::List(l) => { self.w("("); self.exprs(l, sp); self.w(")") } Set::Sel(s) => { self.w("("); self.select(s, sp); self.w(")") } }
            }
            E::Between(x, a, b) => { self.expr(x, 5, sp); if not { self.w("NOT") } self.w("BETWEEN"); self.expr(a, 6, sp); self.w("AND"); self.expr(b, 6, sp) }
            _ => unreachable!(),
        }
    }
}
pub fn text(toks: &[String]) -> String { toks.join(" ") }
