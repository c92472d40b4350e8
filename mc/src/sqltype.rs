//! Independent typing oracle for the SQL dialect, on the oracle's own syntax trees, and an evaluator of expressions.
//!
//! Verdicts are three-valued: `Bad::No` means that validation has to refuse, `Bad::Any` that the properties leave it open.
use crate::sqlast::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty { Generic, Varchar, Numeric, Logical, Date, Time, Timestamp, Geometry }
use Ty::*;
impl Ty {
    pub fn name(self) -> &'static str { match self { Generic => "GENERIC", Varchar => "VARCHAR", Numeric => "NUMERIC", Logical => "LOGICAL", Date => "DATE", Time => "TIME", Timestamp => "TIMESTAMP", Geometry => "GEOMETRY" } }
    pub fn ordered(self) -> bool { matches!(self, Varchar | Numeric | Date | Time | Timestamp) }
}
#[derive(Clone, PartialEq, Debug)]
pub enum T { S(Ty, bool), Tup(Vec<T>) }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bad { No, Any }
pub type R<X> = Result<X, Bad>;
/// A refusal in any part decides; otherwise an open part leaves the whole open.
fn both<A, B>(a: R<A>, b: R<B>) -> R<(A, B)> {
    match (a, b) { (Err(Bad::No), _) | (_, Err(Bad::No)) => Err(Bad::No), (Err(e), _) => Err(e), (_, Err(e)) => Err(e), (Ok(a), Ok(b)) => Ok((a, b)) }
}
fn all<A>(v: Vec<R<A>>) -> R<Vec<A>> {
    if v.iter().any(|r| matches!(r, Err(Bad::No))) { return Err(Bad::No); }
    v.into_iter().collect()
}
fn want(c: bool) -> R<()> { if c { Ok(()) } else { Err(Bad::No) } }
pub fn same_name(a: &str, b: &str) -> bool { a.eq_ignore_ascii_case(b) }

#[derive(Clone, PartialEq, Debug)]
pub enum Name {
    Is(String),
    /// chosen by the implementation
    Generated,
    /// another column has this name already: the implementation derives a different one from it
    Derived(String),
}
impl Name {
    fn is(&self, s: &str) -> bool { matches!(self, Name::Is(n) if same_name(n, s)) }
    fn may(&self, s: &str) -> bool {
        let l = s.to_ascii_lowercase();
        let stem = l.trim_end_matches(|c: char| c.is_ascii_digit());
        match self { Name::Is(_) => false, Name::Generated => stem == "col" || stem == "_col" || stem == "column" || stem == "expr", Name::Derived(b) => l.starts_with(&b.to_ascii_lowercase()) }
    }
}
#[derive(Clone, PartialEq, Debug)]
pub struct Attr { pub name: Name, pub ty: Ty, pub null: bool }
pub type Rows = Vec<Attr>;
#[derive(Clone, Debug)]
struct Rel { name: Option<String>, cols: Rows }
#[derive(Clone, Debug, Default)]
struct Scope { rels: Vec<Rel>, merged: Vec<String> }

pub struct Table { pub schema: &'static str, pub name: &'static str, pub cols: Vec<(String, Ty, bool)> }
pub struct Cat { pub tables: Vec<Table>, pub schemata: Vec<&'static str>, pub default: &'static str }
#[derive(Clone)]
pub struct Env<'a> { cat: &'a Cat, ctes: Vec<(String, Rows)> }

fn derive(mut cols: Rows) -> Rows {
    // the first of several columns with the same name keeps it
    for i in 0..cols.len() {
        if let Name::Is(n) = cols[i].name.clone() {
            if cols[..i].iter().any(|c| c.name.is(&n) || c.name.may(&n)) { cols[i].name = Name::Derived(n) }
        }
    }
    cols
}

struct Sc<'s> { scope: &'s Scope, below: Option<&'s Scope>, outer: Vec<&'s Scope> }
impl Scope {
    fn attr(&self, n: &str) -> R<Option<Attr>> {
        let hits: Vec<&Attr> = self.rels.iter().flat_map(|r| r.cols.iter()).filter(|c| c.name.is(n)).collect();
        if self.rels.iter().any(|r| r.cols.iter().any(|c| c.name.may(n))) { return Err(Bad::Any); }
        match hits.len() { 0 => Ok(None), 1 => Ok(Some(hits[0].clone())), _ => Err(if self.merged.iter().any(|m| same_name(m, n)) { Bad::Any } else { Bad::No }) }
    }
    fn rel(&self, n: &str) -> Option<&Rel> { self.rels.iter().find(|r| r.name.as_ref().map_or(false, |m| same_name(m, n))) }
    fn push(&mut self, r: Rel) -> R<()> {
        if let Some(n) = &r.name { if self.rel(n).is_some() { return Err(Bad::No); } }
        self.rels.push(r); Ok(())
    }
}
impl<'s> Sc<'s> {
    fn name(&self, n: &[String]) -> R<T> {
        let scopes = [Some(self.scope), self.below];
        match n.len() {
            1 => {
                for s in scopes.iter().flatten() { if let Some(a) = s.attr(&n[0])? { return Ok(T::S(a.ty, a.null)); } }
                // references to the rows of an enclosing query: the properties do not say
                if self.outer.iter().any(|s| !matches!(s.attr(&n[0]), Ok(None))) { return Err(Bad::Any); }
                Err(Bad::No)
            }
            2 => {
                for s in scopes.iter().flatten() {
                    if let Some(r) = s.rel(&n[0]) {
                        if r.cols.iter().any(|c| c.name.may(&n[1])) { return Err(Bad::Any); }
                        if let Some(c) = r.cols.iter().find(|c| c.name.is(&n[1])) { return Ok(T::S(c.ty, c.null)); }
                        return Err(Bad::No);
                    }
                }
                if self.outer.iter().any(|s| s.rel(&n[0]).is_some()) { return Err(Bad::Any); }
                Err(Bad::No)
            }
            _ => Err(Bad::Any),
        }
    }
}

/// Equal types; whether any part may be null.
fn compat(a: &T, b: &T) -> R<bool> {
    match (a, b) {
        (T::S(x, n), T::S(y, m)) => if x == y { Ok(*n || *m) } else if *x == Generic || *y == Generic { Err(Bad::Any) } else { Err(Bad::No) },
        (T::Tup(x), T::Tup(y)) if x.len() == y.len() => Ok(all(x.iter().zip(y).map(|(p, q)| compat(p, q)).collect())?.contains(&true)),
        _ => Err(Bad::No),
    }
}
fn unify(a: &T, b: &T) -> R<(Ty, bool)> {
    match (a, b) { (T::S(x, _), T::S(..)) => compat(a, b).map(|n| (*x, n)), _ => Err(Bad::No) }
}
/// A scalar of the given type.
fn need(t: &T, ty: Ty) -> R<bool> { match t { T::S(x, n) if *x == ty => Ok(*n), T::S(Generic, _) => Err(Bad::Any), _ => Err(Bad::No) } }

impl<'a> Env<'a> {
    pub fn new(cat: &'a Cat) -> Env<'a> { Env { cat, ctes: vec![] } }
    fn table(&self, n: &[String]) -> R<Rows> {
        let find = |s: &str, t: &str| self.cat.tables.iter().find(|x| same_name(x.schema, s) && same_name(x.name, t))
            .map(|t| t.cols.iter().map(|c| Attr { name: Name::Is(c.0.clone()), ty: c.1, null: c.2 }).collect()).ok_or(Bad::No);
        match n.len() {
            1 => match self.ctes.iter().rev().find(|c| same_name(&c.0, &n[0])) { Some(c) => Ok(c.1.clone()), None => find(self.cat.default, &n[0]) },
            2 => if self.ctes.iter().any(|c| same_name(&c.0, &n[0])) { Err(Bad::Any) } else { find(&n[0], &n[1]) },
            _ => Err(Bad::No),
        }
    }
    fn exprs(&self, l: &[E], s: &Sc) -> R<Vec<T>> { all(l.iter().map(|e| self.expr(e, s)).collect()) }
    fn nested(&self, q: &Sel, s: &Sc) -> R<Rows> {
        let mut outer = s.outer.clone(); outer.push(s.scope); if let Some(b) = s.below { outer.push(b) }
        self.select(q, &outer)
    }
    fn expr(&self, e: &E, s: &Sc) -> R<T> {
        let log = |n: bool| T::S(Logical, n);
        Ok(match e {
            E::Str(_) => T::S(Varchar, false), E::Num(_) => T::S(Numeric, false), E::Null => T::S(Generic, true),
            E::CurTime | E::Time(_) => T::S(Time, false), E::CurDate | E::Date(_) => T::S(Date, false), E::CurTs | E::Ts(_) => T::S(Timestamp, false),
            E::Name(n) => self.ref_(n, s)?,
            E::Tuple(l) => T::Tup(self.exprs(l, s)?),
            E::Scalar(q) => { let r = self.nested(q, s)?; want(r.len() == 1)?; T::S(r[0].ty, r[0].null) }
            E::Neg(x) => T::S(Numeric, need(&self.expr(x, s)?, Numeric)?),
            E::Not(x) => log(need(&self.expr(x, s)?, Logical)?),
            E::IsNull(x) => match self.expr(x, s)? { T::S(..) => log(false), _ => return Err(Bad::No) },
            E::Bin(op, l, r) => {
                let (l, r) = both(self.expr(l, s), self.expr(r, s))?;
                let ty = match *op { "and" | "or" => Logical, "||" => Varchar, _ => Numeric };
                let (a, b) = both(need(&l, ty), need(&r, ty))?;
                T::S(ty, a || b)
            }
            E::Cmp(op, l, r) => {
                let (l, r) = both(self.expr(l, s), self.expr(r, s))?;
                match *op {
                    "=" | "!=" => log(compat(&l, &r)?),
                    "like" => { let (a, b) = both(need(&l, Varchar), need(&r, Varchar))?; log(a || b) }
                    _ => log(self.ordered(&[l, r])?),
                }
            }
            E::Between(x, a, b) => { let v = all(vec![self.expr(x, s), self.expr(a, s), self.expr(b, s)])?; log(self.ordered(&v)?) }
            E::In(x, set) => {
                let x = self.expr(x, s);
                match set {
                    Set::List(l) if l.is_empty() => match x? { T::S(..) => log(false), _ => return Err(Bad::Any) },
                    Set::List(l) => {
                        let (x, l) = both(x, self.exprs(l, s))?;
                        if l.iter().chain([&x]).any(|t| matches!(t, T::Tup(_))) { return Err(Bad::No); }
                        let mut parts = vec![];
                        for t in &l { parts.push(compat(&x, t)); for u in &l { parts.push(compat(t, u)) } }
                        log(all(parts)?.contains(&true))
                    }
                    Set::Sel(q) => { let (x, r) = both(x, self.nested(q, s))?; want(r.len() == 1)?; log(unify(&x, &T::S(r[0].ty, r[0].null))?.1) }
                    Set::Name(n) => { let (x, r) = both(x, self.table(n))?; want(r.len() == 1)?; log(unify(&x, &T::S(r[0].ty, r[0].null))?.1) }
                }
            }
            E::Case(x, w, el) => {
                let guards = self.exprs_of(w.iter().map(|p| &p.0), s);
                let mut bodies = self.exprs_of(w.iter().map(|p| &p.1), s);
                if let Some(el) = el { bodies = both(bodies, self.expr(el, s)).map(|(mut v, e)| { v.push(e); v }) }
                let x = match x { Some(x) => self.expr(x, s).map(Some), None => Ok(None) };
                let ((g, b), x) = both(both(guards, bodies), x)?;
                let on = match &x {
                    None => all(g.iter().map(|g| need(g, Logical)).collect()).map(|_| ()),
                    Some(x) => {
                        let r = all(g.iter().map(|g| compat(x, g)).collect()).map(|_| ());
                        if matches!(x, T::Tup(_)) && r.is_ok() { Err(Bad::Any) } else { r }
                    }
                };
                let mut parts = vec![];
                for p in &b { for q in &b { parts.push(unify(p, q)) } }
                let (_, parts) = both(on, all(parts))?;
                T::S(parts[0].0, el.is_none() || parts.iter().any(|p| p.1))
            }
        })
    }
    fn exprs_of<'e>(&self, l: impl Iterator<Item = &'e E>, s: &Sc) -> R<Vec<T>> { all(l.map(|e| self.expr(e, s)).collect()) }
    fn ref_(&self, n: &[String], s: &Sc) -> R<T> { s.name(n) }
    fn ordered(&self, v: &[T]) -> R<bool> {
        let mut null = false; let mut first = None; let mut any = false;
        for t in v {
            match t { T::Tup(_) => return Err(Bad::No), T::S(Generic, _) => any = true, T::S(ty, n) => {
                null |= n;
                if !ty.ordered() { return Err(Bad::No); }
                match first { None => first = Some(*ty), Some(f) if f != *ty => return Err(Bad::No), _ => () }
            } }
        }
        if any { Err(Bad::Any) } else { Ok(null) }
    }
    fn logical(&self, e: &Option<E>, s: &Sc) -> R<()> { match e { None => Ok(()), Some(e) => need(&self.expr(e, s)?, Logical).map(|_| ()) } }
    pub fn with(&self, ctes: &[Cte]) -> R<Env<'a>> {
        let mut env = self.clone();
        let mut open = false;
        for (i, c) in ctes.iter().enumerate() {
            if ctes[..i].iter().any(|d| same_name(&d.name, &c.name)) { return Err(Bad::No); }
            let rows = match env.select(&c.q, &[]) { Ok(r) => r, Err(Bad::No) => return Err(Bad::No), Err(Bad::Any) => { open = true; vec![] } };
            let rows = match &c.cols {
                None => rows,
                Some(l) => {
                    if l.iter().any(|n| rows.iter().any(|r| r.name.may(n))) { open = true; }
                    let mut v = vec![];
                    for n in l { match rows.iter().find(|r| r.name.is(n)) { Some(r) => v.push(Attr { name: Name::Is(n.clone()), ..r.clone() }), None => if !open { return Err(Bad::No) } } }
                    if v.len() != rows.len() || (0..l.len()).any(|i| l[..i].iter().any(|m| same_name(m, &l[i]))) { open = true; }
                    v
                }
            };
            if open { return Err(Bad::Any); }
            env.ctes.push((c.name.clone(), rows));
        }
        Ok(env)
    }
    fn select(&self, q: &Sel, outer: &[&Scope]) -> R<Rows> {
        let env = self.with(&q.ctes)?;
        let (rows, input) = env.core(&q.core, outer)?;
        let empty = Scope::default();
        let out = Scope { rels: vec![Rel { name: None, cols: rows.clone() }], merged: vec![] };
        let input = input.unwrap_or_default();
        let mut checks: Vec<R<()>> = vec![];
        for b in &q.order {
            let scalar = |r: R<T>| match r { Ok(T::Tup(_)) => Err(Bad::No), Ok(_) => Ok(()), Err(e) => Err(e) };
            let r1 = scalar(env.expr(&b.e, &Sc { scope: &out, below: None, outer: outer.to_vec() }));
            let r2 = scalar(env.expr(&b.e, &Sc { scope: &input, below: None, outer: outer.to_vec() }));
            let r3 = scalar(env.expr(&b.e, &Sc { scope: &out, below: Some(&input), outer: outer.to_vec() }));
            checks.push(match (r1, r2, r3) { (Ok(()), _, _) => Ok(()), (Err(Bad::No), Ok(()), Ok(())) => Ok(()), (Err(Bad::No), Err(Bad::No), Err(Bad::No)) => Err(Bad::No), _ => Err(Bad::Any) });
        }
        if let Some((n, o)) = &q.limit {
            for e in [Some(n), o.as_ref()].into_iter().flatten() {
                checks.push(env.expr(e, &Sc { scope: &empty, below: None, outer: outer.to_vec() }).and_then(|t| need(&t, Numeric)).and_then(|null| want(!null)));
            }
        }
        all(checks)?;
        Ok(rows)
    }
    fn core(&self, c: &Core, outer: &[&Scope]) -> R<(Rows, Option<Scope>)> {
        match c {
            Core::Values(rows) => {
                let empty = Scope::default();
                let sc = Sc { scope: &empty, below: None, outer: outer.to_vec() };
                let rows = all(rows.iter().map(|r| self.exprs(r, &sc)).collect())?;
                want(rows.iter().all(|r| r.len() == rows[0].len()))?;
                want(rows.iter().flatten().all(|t| matches!(t, T::S(..))))?;
                let cols = (0..rows[0].len()).map(|i| {
                    let mut parts = vec![];
                    for r in &rows { for q in &rows { parts.push(unify(&r[i], &q[i])) } }
                    all(parts).map(|p| Attr { name: Name::Generated, ty: p[0].0, null: p.iter().any(|x| x.1) })
                }).collect();
                Ok((all(cols)?, None))
            }
            Core::Op(_, l, r) => {
                let (l, r) = both(self.core(l, outer), self.core(r, outer))?;
                want(l.0.len() == r.0.len())?;
                let cols = l.0.iter().zip(&r.0).map(|(a, b)| unify(&T::S(a.ty, a.null), &T::S(b.ty, b.null)).map(|(ty, null)| Attr { name: a.name.clone(), ty, null })).collect();
                Ok((all(cols)?, None))
            }
            Core::Query { cols, from, wher, group, .. } => {
                let mut scope = Scope::default();
                let parts = all(from.iter().map(|f| self.from(f)).collect())?;
                for p in parts { for r in p.rels { scope.push(r)? } scope.merged.extend(p.merged) }
                let sc = Sc { scope: &scope, below: None, outer: outer.to_vec() };
                let mut checks = vec![self.logical(wher, &sc)];
                if let Some((g, h)) = group {
                    checks.push(self.exprs(g, &sc).and_then(|v| if v.iter().any(|t| matches!(t, T::Tup(_))) { Err(Bad::Any) } else { Ok(()) }));
                    checks.push(self.logical(h, &sc));
                }
                let mut out = vec![];
                match cols {
                    Cols::All => {
                        if !scope.merged.is_empty() || from.is_empty() { checks.push(Err(Bad::Any)) }
                        for r in &scope.rels { for a in &r.cols { out.push(Ok(a.clone())) } }
                    }
                    Cols::List(l) => for c in l { match c {
                        Col::AllFrom(n) => match scope.rel(n) { None => out.push(Err(Bad::No)), Some(r) => out.extend(r.cols.iter().cloned().map(Ok)) },
                        Col::Expr(e, alias) => out.push(match self.expr(e, &sc) {
                            Ok(T::S(ty, null)) => Ok(Attr { name: match (alias, e) { (Some(a), _) => Name::Is(a.clone()), (None, E::Name(n)) => Name::Is(n.last().unwrap().clone()), _ => Name::Generated }, ty, null }),
                            Ok(_) => Err(Bad::No), Err(b) => Err(b),
                        }),
                    } },
                }
                let (out, _) = both(all(out), all(checks))?;
                if let Some((g, _)) = group {
                    // without aggregates, only grouped columns have a single value; the properties do not say what else is accepted
                    let fine = match cols { Cols::All => false, Cols::List(l) => l.iter().all(|c| matches!(c, Col::Expr(e, _) if g.contains(e) || matches!(e, E::Num(_) | E::Str(_)))) };
                    if !fine { return Err(Bad::Any); }
                }
                Ok((derive(out), Some(scope)))
            }
        }
    }
    fn from(&self, f: &F) -> R<Scope> {
        match f {
            F::Table(n, a) => Ok(Scope { rels: vec![Rel { name: Some(a.clone().unwrap_or_else(|| n.last().unwrap().clone())), cols: self.table(n)? }], merged: vec![] }),
            F::Sub(q, a) => Ok(Scope { rels: vec![Rel { name: a.clone(), cols: self.select(q, &[])? }], merged: vec![] }),
            F::Join { kind, jt, l, r, c } => {
                let (mut l, mut r) = both(self.from(l), self.from(r))?;
                let mut merged: Vec<String> = l.merged.iter().chain(&r.merged).cloned().collect();
                let mut check = Ok(());
                if let Jc::Using(names) = c {
                    let parts = names.iter().map(|n| {
                        let side = |s: &Scope| s.attr(n).and_then(|a| a.ok_or(Bad::No));
                        both(side(&l), side(&r)).and_then(|(a, b)| compat(&T::S(a.ty, a.null), &T::S(b.ty, b.null)))
                    }).collect();
                    check = all(parts).map(|_| ());
                    if check.is_ok() && (0..names.len()).any(|i| names[..i].iter().any(|m| same_name(m, &names[i]))) { check = Err(Bad::Any) }
                    merged.extend(names.iter().cloned());
                }
                if *kind == "natural" { for a in l.rels.iter().flat_map(|r| &r.cols) { if let Name::Is(n) = &a.name { if !matches!(r.attr(n), Ok(None)) { merged.push(n.clone()) } } } }
                let mut s = Scope { rels: vec![], merged };
                let count = l.rels.len();
                for x in l.rels.drain(..).chain(r.rels.drain(..)) { s.push(x)? }
                if let Jc::On(e) = c { check = need(&self.expr(e, &Sc { scope: &s, below: None, outer: vec![] })?, Logical).map(|_| ()) }
                check?;
                for (i, x) in s.rels.iter_mut().enumerate() {
                    if (i < count && (*jt == "right" || *jt == "full")) || (i >= count && (*jt == "left" || *jt == "full")) { for a in &mut x.cols { a.null = true } }
                }
                Ok(s)
            }
        }
    }
    pub fn query(&self, q: &Sel) -> R<Rows> { self.select(q, &[]) }
    /// Whether a value can be put into a column.
    fn fits(v: (Ty, bool), c: &Attr) -> R<()> {
        if v.1 && !c.null { return Err(Bad::No); }
        if v.0 == c.ty { Ok(()) } else if v.0 == Generic || c.ty == Generic { Err(Bad::Any) } else { Err(Bad::No) }
    }
    fn target(&self, ctes: &[Cte], n: &[String]) -> R<Rows> {
        let t = self.table(n);
        if t.is_ok() && ctes.iter().any(|c| same_name(&c.name, &n[0])) { return Err(Bad::Any); }
        t
    }
    pub fn statement(&self, s: &St) -> R<()> {
        match s {
            St::Sel(q) => self.query(q).map(|_| ()),
            St::Insert { ctes, table, cols, src } => {
                let t = self.target(ctes, table); let env = self.with(ctes);
                let (t, env) = both(t, env)?;
                let v = env.core(src, &[]);
                // what the names alone decide
                let targets: Vec<&Attr> = match cols {
                    None => t.iter().collect(),
                    Some(l) => {
                        let mut r = vec![];
                        for n in l { r.push(t.iter().find(|a| a.name.is(n)).ok_or(Bad::No)?) }
                        want((0..l.len()).all(|i| !l[..i].iter().any(|m| same_name(m, &l[i]))))?;
                        r
                    }
                };
                want(t.iter().all(|a| a.null || targets.contains(&a)))?;
                let v = v?.0;
                want(v.len() == targets.len())?;
                all(v.iter().zip(targets).map(|(v, c)| Self::fits((v.ty, v.null), c)).collect()).map(|_| ())
            }
            St::Delete { ctes, table, wher } => {
                let (t, env) = both(self.target(ctes, table), self.with(ctes))?;
                let scope = Scope { rels: vec![Rel { name: table.last().cloned(), cols: t }], merged: vec![] };
                env.logical(wher, &Sc { scope: &scope, below: None, outer: vec![] })
            }
            St::Update { ctes, table, set, wher } => {
                let (t, env) = both(self.target(ctes, table), self.with(ctes))?;
                let scope = Scope { rels: vec![Rel { name: table.last().cloned(), cols: t.clone() }], merged: vec![] };
                let sc = Sc { scope: &scope, below: None, outer: vec![] };
                let names: Vec<&String> = set.iter().flat_map(|s| &s.0).collect();
                want((0..names.len()).all(|i| !names[..i].iter().any(|m| same_name(m, names[i]))))?;
                let mut checks = vec![env.logical(wher, &sc)];
                for (l, e) in set {
                    let v = env.expr(e, &sc);
                    for n in l {
                        checks.push(match (t.iter().find(|a| a.name.is(n)), &v) { (None, _) => Err(Bad::No), (_, Err(b)) => Err(*b), (_, Ok(T::Tup(_))) => Err(Bad::No), (Some(a), Ok(T::S(ty, null))) => Self::fits((*ty, *null), a) });
                    }
                }
                all(checks).map(|_| ())
            }
        }
    }
    pub fn top(&self, t: &Top) -> R<()> {
        match t { Top::St(s) | Top::Explain(s) => self.statement(s), Top::Attach(..) => Ok(()), Top::Describe(n) => self.table(n).map(|_| ()) }
    }
}

/// Whether announced columns are those that the query defines.
pub fn columns_match(want: &Rows, got: &[(String, String, bool)]) -> Result<(), String> {
    if want.len() != got.len() { return Err(format!("{} columns instead of {}", got.len(), want.len())); }
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        let used = |n: &str| got[..i].iter().any(|g| same_name(&g.0, n));
        if used(&g.0) { return Err(format!("column {} has the name {} of a column before it", i + 1, g.0)); }
        let base = match &w.name { Name::Is(n) | Name::Derived(n) => Some(n), Name::Generated => None };
        if let Some(n) = base {
            if used(n) {
                let stem = |s: &str| s.to_ascii_lowercase();
                if !stem(&g.0).starts_with(&stem(n)) { return Err(format!("column {} is named {} instead of something derived from {}", i + 1, g.0, n)); }
            } else if !same_name(n, &g.0) && matches!(w.name, Name::Is(_)) { return Err(format!("column {} is named {} instead of {}", i + 1, g.0, n)); }
        }
        if w.ty.name() != g.1 { return Err(format!("column {} ({}) has type {} instead of {}", i + 1, g.0, g.1, w.ty.name())); }
        if w.null != g.2 { return Err(format!("column {} ({}) is {}", i + 1, g.0, if g.2 { "said to be nullable, but cannot be null" } else { "said to be never null, but may be null" })); }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------- evaluation

#[derive(Clone, PartialEq, Debug)]
pub enum V { Null, N(i64), S(String), B(bool), Other(Ty, i64), Tup(Vec<V>) }
impl V {
    pub fn has_type(&self, ty: Ty) -> bool { match self { V::Null => true, V::N(_) => ty == Numeric, V::S(_) => ty == Varchar, V::B(_) => ty == Logical, V::Other(t, _) => *t == ty, V::Tup(_) => false } }
}
/// Values of a type that tell the operators apart.
pub fn domain(ty: Ty) -> Vec<V> {
    match ty {
        Numeric => vec![V::N(1), V::N(2)], Varchar => vec![V::S("a".into()), V::S("b".into())], Logical => vec![V::B(true), V::B(false)],
        Geometry | Generic => vec![V::Other(ty, 0)], _ => vec![V::Other(ty, 0), V::Other(ty, 1)],
    }
}
fn and(a: &V, b: &V) -> V { match (a, b) { (V::B(false), _) | (_, V::B(false)) => V::B(false), (V::B(true), V::B(true)) => V::B(true), _ => V::Null } }
fn not(a: V) -> V { match a { V::B(b) => V::B(!b), x => x } }
fn equal(a: &V, b: &V) -> V {
    match (a, b) {
        (V::Null, _) | (_, V::Null) => V::Null,
        (V::Tup(x), V::Tup(y)) => x.iter().zip(y).fold(V::B(true), |r, (p, q)| and(&r, &equal(p, q))),
        _ => V::B(a == b),
    }
}
fn less(a: &V, b: &V) -> V {
    match (a, b) { (V::N(x), V::N(y)) => V::B(x < y), (V::S(x), V::S(y)) => V::B(x < y), (V::Other(_, x), V::Other(_, y)) => V::B(x < y), _ => V::Null }
}
/// The value of a well-typed expression without nested queries, by the rules of SQL's three-valued logic.
pub fn eval(e: &E, row: &dyn Fn(&[String]) -> V) -> V {
    let ev = |e: &E| eval(e, row);
    match e {
        E::Str(s) => V::S(s.clone()), E::Num(n) => V::N(n.parse().unwrap_or(7)), E::Null => V::Null,
        E::CurTime | E::Time(_) => V::Other(Time, 0), E::CurDate | E::Date(_) => V::Other(Date, 0), E::CurTs | E::Ts(_) => V::Other(Timestamp, 0),
        E::Name(n) => row(n),
        E::Tuple(l) => V::Tup(l.iter().map(ev).collect()),
        E::Scalar(q) => match &q.core { Core::Query { cols: Cols::List(l), .. } => match &l[0] { Col::Expr(e, _) => ev(e), _ => V::Null }, Core::Values(r) => ev(&r[0][0]), _ => V::Null },
        E::Neg(x) => match ev(x) { V::N(n) => V::N(-n), x => x },
        E::Not(x) => not(ev(x)),
        E::IsNull(x) => V::B(ev(x) == V::Null),
        E::Bin(op, l, r) => { let (l, r) = (ev(l), ev(r)); match *op {
            "and" => and(&l, &r), "or" => not(and(&not(l), &not(r))),
            "||" => match (l, r) { (V::S(a), V::S(b)) => V::S(a + &b), _ => V::Null },
            // a division by zero is an error, not a value
            _ => match (l, r) { (V::N(a), V::N(b)) => V::N(match *op { "+" => a + b, "-" => a - b, "*" => a * b, _ => a / if b == 0 { 1 } else { b } }), _ => V::Null },
        } }
        E::Cmp(op, l, r) => { let (l, r) = (ev(l), ev(r)); match *op {
            "=" => equal(&l, &r), "!=" => not(equal(&l, &r)), "<" => less(&l, &r), ">" => less(&r, &l), "<=" => not(less(&r, &l)), ">=" => not(less(&l, &r)),
            _ => if l == V::Null || r == V::Null { V::Null } else { V::B(l == r) },
        } }
        E::Between(x, a, b) => { let (x, a, b) = (ev(x), ev(a), ev(b)); and(&not(less(&x, &a)), &not(less(&b, &x))) }
        E::In(x, s) => {
            let x = ev(x);
            let l: Vec<V> = match s {
                Set::List(l) => l.iter().map(ev).collect(),
                Set::Sel(q) => match &q.core { Core::Query { cols: Cols::List(l), .. } => match &l[0] { Col::Expr(e, _) => vec![ev(e)], _ => vec![] }, Core::Values(r) => r.iter().map(|r| ev(&r[0])).collect(), _ => vec![] },
                Set::Name(_) => vec![],
            };
            l.iter().fold(V::B(false), |r, v| not(and(&not(r), &not(equal(&x, v)))))
        }
        E::Case(x, w, el) => {
            let x = x.as_ref().map(|x| ev(x));
            for (g, b) in w {
                let g = ev(g);
                let hit = match &x { Some(x) => equal(x, &g), None => g };
                if hit == V::B(true) { return ev(b); }
            }
            el.as_ref().map_or(V::Null, |e| ev(e))
        }
    }
}
