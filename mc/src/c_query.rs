//! C16, C17, C18: every expression of a grammar at every place that takes one; set operations over several columns.
use crate::c_typing::*;
use crate::engine::*;
use crate::sqlast::*;
use crate::sqltype::*;
use cathlamet::sql::verif as v;
use std::cell::RefCell;
use Ty::*;

fn st(s: &str) -> String { s.to_string() }
fn bx(e: E) -> Box<E> { Box::new(e) }
fn name(s: &str) -> E { match s.split_once('.') { Some((a, b)) => E::Name(vec![a.into(), b.into()]), None => E::Name(vec![s.into()]) } }
fn num(s: &str) -> E { E::Num(s.into()) }
fn table(t: &str) -> F { F::Table(vec![st(t)], None) }
fn query(cols: Cols, from: Vec<F>) -> Core { Core::Query { distinct: false, cols, from, wher: None, group: None } }
fn list(v: Vec<E>) -> Cols { Cols::List(v.into_iter().map(|e| Col::Expr(e, None)).collect()) }
fn sel(core: Core) -> Sel { Sel { ctes: vec![], core, order: vec![], limit: None } }
fn where_(mut c: Core, e: E) -> Core { if let Core::Query { wher, .. } = &mut c { *wher = Some(e) } c }
fn op(o: &'static str, a: Core, b: Core) -> Core { Core::Op(o, Box::new(a), Box::new(b)) }

fn places() -> Cat {
    let c = |n: &str, t: Ty, null: bool| (st(n), t, null);
    Cat { schemata: vec!["s"], default: "s", tables: vec![
        Table { schema: "s", name: "t", cols: vec![c("n", Numeric, false), c("m", Numeric, true), c("v", Varchar, false), c("w", Varchar, true), c("l", Logical, false), c("k", Logical, true), c("d", Date, false)] },
        Table { schema: "s", name: "u", cols: vec![c("x", Numeric, false), c("y", Logical, true)] },
        Table { schema: "s", name: "one", cols: vec![c("z", Numeric, true)] },
    ] }
}
thread_local! { static PLACES: RefCell<Option<(Cat, v::Catalog)>> = RefCell::new(None); }
fn with_places(f: impl FnOnce(&Cat, &v::Catalog) -> Res) -> Res {
    PLACES.with(|c| { let mut c = c.borrow_mut(); let (m, k) = c.get_or_insert_with(|| { let m = places(); let k = catalog(&m); (m, k) }); f(m, k) })
}

const LEAVES: &[&str] = &["n", "m", "v", "w", "l", "k", "d", "zz", "t.l", "T.K", "u.y", "1", "'a'", "CURRENT_DATE", "NULL"];
fn leaf(s: &str) -> E { match s { "1" => num("1"), "'a'" => E::Str("a".into()), "CURRENT_DATE" => E::CurDate, "NULL" => E::Null, n => name(n) } }
const FEW: &[&str] = &["n", "m", "v", "l", "k", "1", "NULL", "zz"];
/// An expression with at most two operators; `deep` operands left.
fn operand(ch: &mut Ch, deep: u32, few: &[&str]) -> E {
    let n = if deep == 0 { 1 } else { 21 };
    let sub = |ch: &mut Ch| if deep > 1 { operand(ch, deep - 1, few) } else { leaf(*ch.pick(few)) };
    match ch.choose(n) {
        0 => leaf(*ch.pick(if deep > 0 { LEAVES } else { few })),
        1 => E::Not(bx(sub(ch))), 2 => E::Neg(bx(sub(ch))), 3 => E::IsNull(bx(sub(ch))),
        4 => E::Bin("and", bx(sub(ch)), bx(leaf(*ch.pick(few)))), 5 => E::Bin("or", bx(leaf(*ch.pick(few))), bx(sub(ch))), 6 => E::Bin("+", bx(sub(ch)), bx(leaf(*ch.pick(few)))), 7 => E::Bin("||", bx(leaf(*ch.pick(few))), bx(sub(ch))),
        8 => E::Cmp("=", bx(sub(ch)), bx(leaf(*ch.pick(few)))), 9 => E::Cmp("<", bx(leaf(*ch.pick(few))), bx(sub(ch))), 10 => E::Cmp("like", bx(sub(ch)), bx(leaf(*ch.pick(few)))),
        11 => E::Between(bx(leaf("n")), bx(sub(ch)), bx(leaf(*ch.pick(few)))),
        12 => E::Tuple(vec![sub(ch), leaf(*ch.pick(few))]),
        13 => E::In(bx(sub(ch)), Set::List(vec![leaf(*ch.pick(few)), leaf("n")])), 14 => E::In(bx(sub(ch)), Set::Name(vec![st(ch.pick(&["one", "u", "zz"]))])),
        15 => E::In(bx(sub(ch)), Set::Sel(Box::new(sel(query(list(vec![leaf(*ch.pick(&["1", "'a'", "zz"]))]), vec![]))))),
        16 => E::Case(None, vec![(sub(ch), leaf("l"))], Some(bx(leaf(*ch.pick(few))))), 17 => E::Case(None, vec![(leaf("l"), sub(ch))], None), 18 => E::Case(Some(bx(leaf("n"))), vec![(sub(ch), leaf("1"))], Some(bx(leaf(*ch.pick(few))))),
        19 => E::Scalar(Box::new(sel(query(list(vec![leaf(*ch.pick(&["1", "NULL", "'a'"]))]), vec![])))),
        _ => match ch.choose(5) {
            0 => E::Scalar(Box::new(sel(query(list(vec![name("y")]), vec![table("u")])))), 1 => E::Scalar(Box::new(sel(query(Cols::All, vec![table("u")])))), 2 => E::Scalar(Box::new(sel(query(Cols::All, vec![table("one")])))),
            3 => E::Scalar(Box::new(sel(Core::Values(vec![vec![num("1")]])))), _ => E::Cmp("=", bx(E::Tuple(vec![leaf("n"), leaf("l")])), bx(E::Tuple(vec![sub(ch), leaf(*ch.pick(few))]))),
        },
    }
}

/// The operand at one of 31 places of a query over t and u.
fn at(place: usize, e: E) -> Sel {
    let one = |w: E| where_(query(list(vec![name("n")]), vec![table("t")]), w);
    let join = |jt: &'static str, l: F, r: F, e: E| F::Join { kind: "join", jt, l: Box::new(l), r: Box::new(r), c: Jc::On(e) };
    let eq = || E::Cmp("=", bx(num("1")), bx(num("1")));
    let ns = |f: F| sel(query(list(vec![name("n")]), vec![f]));
    let tt = || table("t");
    match place {
        0 => sel(one(e)),
        1 => ns(join("inner", tt(), table("u"), e)), 2 => ns(join("left", tt(), table("u"), e)), 3 => ns(join("right", tt(), table("u"), e)), 4 => ns(join("full", table("u"), tt(), e)),
        5 => ns(join("inner", join("left", tt(), table("u"), e), table("one"), eq())), 6 => ns(join("right", table("one"), join("inner", tt(), table("u"), e), eq())), 7 => ns(join("left", join("inner", tt(), table("u"), eq()), table("one"), e)),
        8 => { let mut q = ns(tt()); if let Core::Query { from, .. } = &mut q.core { from.push(join("inner", F::Table(vec![st("t")], Some(st("t2"))), table("u"), e)) } q }
        9 => { let mut q = sel(query(list(vec![num("1")]), vec![tt()])); if let Core::Query { group, .. } = &mut q.core { *group = Some((vec![name("n")], Some(e))) } q }
        10 => { let mut q = sel(query(list(vec![num("1")]), vec![tt()])); if let Core::Query { group, .. } = &mut q.core { *group = Some((vec![name("n"), e], None)) } q }
        11 => { let mut q = ns(tt()); q.order = vec![By { e, coll: None, desc: false }]; q }
        12 => { let mut q = ns(tt()); q.order = vec![By { e: name("n"), coll: None, desc: true }, By { e, coll: Some(st("c")), desc: true }]; q }
        13 => { let mut q = ns(tt()); q.limit = Some((e, None)); q } 14 => { let mut q = ns(tt()); q.limit = Some((num("1"), Some(e))); q } 15 => { let mut q = ns(tt()); q.order = vec![By { e: name("n"), coll: None, desc: true }]; q.limit = Some((e, Some(num("2")))); q }
        16 => sel(Core::Values(vec![vec![num("1"), e]])), 17 => sel(Core::Values(vec![vec![num("1")], vec![e]])), 18 => sel(Core::Values(vec![vec![e.clone()], vec![e]])),
        19 => sel(query(list(vec![e]), vec![tt()])), 20 => sel(query(Cols::List(vec![Col::AllFrom(st("t")), Col::Expr(e, Some(st("n")))]), vec![tt()])), 21 => sel(query(list(vec![e.clone(), e]), vec![tt()])),
        22 => sel(query(Cols::All, vec![F::Sub(Box::new(sel(one(e))), None)])), 23 => sel(query(Cols::All, vec![F::Sub(Box::new(sel(query(Cols::List(vec![Col::Expr(e, Some(st("e")))]), vec![tt()]))), Some(st("x")))])),
        24 => { let mut q = sel(query(Cols::All, vec![table("c")])); q.ctes.push(Cte { name: st("c"), cols: None, q: sel(one(e)) }); q }
        25 => { let mut q = sel(query(Cols::All, vec![table("c")])); q.ctes.push(Cte { name: st("c"), cols: Some(vec![st("q")]), q: sel(query(Cols::List(vec![Col::Expr(e, Some(st("q")))]), vec![tt()])) }); q }
        26 => sel(op("union", one(eq()), one(e))), 27 => sel(op("except", one(e), query(list(vec![num("1")]), vec![]))),
        28 => sel(op("intersect", query(list(vec![name("n"), e.clone()]), vec![tt()]), query(list(vec![num("1"), e]), vec![tt()]))),
        29 => sel(query(list(vec![E::Scalar(Box::new(sel(one(e))))]), vec![])), _ => sel(query(list(vec![E::In(bx(num("1")), Set::Sel(Box::new(sel(one(e)))))]), vec![])),
    }
}
const PLACES_: usize = 31;

pub fn c18(th: bool) -> Vec<Suite> {
    let mut v = vec![];
    let (d, few) = (2, if th { LEAVES } else { FEW });
    v.push(Suite::new("places", &format!("every expression of at most {} operators ({} forms) over {} operands at each of {} places of a query: WHERE, ON in every kind of join, GROUP BY, HAVING, ORDER BY, LIMIT, OFFSET, VALUES, result columns, and those of nested queries, common table expressions and set operations", d, 21, few.len(), PLACES_), move |ch| {
        let p = ch.choose(PLACES_);
        let e = operand(ch, d, few);
        let q = at(p, e);
        with_places(|m, cat| check_query(ch, cat, m, &q).map(|_| ()))
    }));
    v.push(Suite::new("set-columns", &format!("set operations over two{} queries of 1 to 3 columns, each column named, renamed, unnamed, nullable or of another type; as they are, in FROM, as a common table expression with column names, ordered by one of the names", if th { " or three" } else { "" }), move |ch| {
        let cell = |ch: &mut Ch, full: bool| match ch.choose(if full { 6 } else { 4 }) { 0 => Col::Expr(name("n"), None), 1 => Col::Expr(name("m"), Some(st("p"))), 2 => Col::Expr(name("v"), None), 3 => Col::Expr(num("1"), None), 4 => Col::Expr(name("m"), None), _ => Col::Expr(name("w"), Some(st("N"))) };
        let n = ch.range(1, 3);
        let ops = ["union", "unionall", "intersect", "except"];
        let side = |ch: &mut Ch, full: bool, n: usize| query(Cols::List((0..n).map(|_| cell(ch, full)).collect()), vec![table("t")]);
        let l = side(ch, th || n < 3, n);
        let k = if ch.flag() { [n - 1, n + 1][ch.choose(if n < 3 || th { 2 } else { 1 })] } else { n };
        if k == 0 { return Err(Stop::Skip); }
        let r = side(ch, th || n < 3, k);
        let mut core = op(*ch.pick(&ops), l, r);
        if (th || n < 2) && ch.flag() { let x = side(ch, false, n); core = op(*ch.pick(&ops), core, x) }
        let q = sel(core);
        let q = match if n == 3 && !th { 2 * ch.choose(2) } else { ch.choose(4) } {
            0 => q, 1 => sel(query(Cols::All, vec![F::Sub(Box::new(q), Some(st("x")))])),
            2 => { let mut o = sel(query(Cols::List(vec![Col::AllFrom(st("C"))]), vec![table("c")])); o.ctes.push(Cte { name: st("c"), cols: None, q }); o }
            _ => { let mut q = q; q.order.push(By { e: name(ch.pick(&["n", "p", "v", "m"])), coll: None, desc: false }); q }
        };
        with_places(|m, cat| check_query(ch, cat, m, &q).map(|_| ()))
    }));
    v
}

/// The operand at one of 16 places of a data changing statement.
fn changes(p: usize, e: E) -> St {
    let (t, one) = (vec![st("t")], vec![st("one")]);
    let up = |set: Vec<(Vec<&str>, E)>, wher: Option<E>| St::Update { ctes: vec![], table: vec![st("t")], set: set.into_iter().map(|(l, e)| (l.into_iter().map(st).collect(), e)).collect(), wher };
    let q = query(list(vec![e.clone()]), vec![table("t")]);
    match p {
        0 => St::Insert { ctes: vec![], table: one, cols: None, src: Core::Values(vec![vec![e]]) }, 1 => St::Insert { ctes: vec![], table: vec![st("u")], cols: None, src: Core::Values(vec![vec![num("1"), E::Null], vec![e, E::Cmp("=", bx(num("1")), bx(num("1")))]]) },
        2 => St::Insert { ctes: vec![], table: vec![st("u")], cols: Some(vec![st("Y"), st("x")]), src: Core::Values(vec![vec![e, num("1")]]) },
        3 => St::Insert { ctes: vec![], table: one, cols: None, src: q }, 4 => St::Insert { ctes: vec![], table: vec![st("u")], cols: Some(vec![st("y"), st("x")]), src: query(list(vec![e, name("n")]), vec![table("t")]) },
        5 => St::Insert { ctes: vec![], table: one, cols: None, src: where_(query(list(vec![name("n")]), vec![table("t")]), e) },
        6 => St::Insert { ctes: vec![Cte { name: st("c"), cols: None, q: sel(q) }], table: one, cols: None, src: query(Cols::All, vec![table("c")]) },
        7 => up(vec![(vec!["n"], e)], None), 8 => up(vec![(vec!["m"], e)], None), 9 => up(vec![(vec!["w", "v"], e)], None), 10 => up(vec![(vec!["n"], num("1")), (vec!["K"], e)], None), 11 => up(vec![(vec!["d"], e)], Some(name("l"))), 12 => up(vec![(vec!["n", "m"], num("1"))], Some(e)),
        13 => St::Delete { ctes: vec![], table: t, wher: Some(e) }, 14 => St::Delete { ctes: vec![], table: vec![st("S"), st("T")], wher: Some(e) },
        _ => St::Delete { ctes: vec![Cte { name: st("c"), cols: None, q: sel(q) }], table: t, wher: Some(E::In(bx(name("n")), Set::Name(vec![st("c")]))) },
    }
}
/// C17: the same expressions at every place of a data changing statement.
pub fn c17(th: bool) -> Vec<Suite> {
    let (d, few) = (2, if th { LEAVES } else { FEW });
    vec![Suite::new("places", &format!("every expression of at most {} operators ({} forms) over {} operands at each of 16 places of INSERT, UPDATE and DELETE: values, queries, assignments to one or several columns, conditions and common table expressions", d, 21, few.len()), move |ch| {
        let p = ch.choose(16);
        let e = operand(ch, d, few);
        let s = Top::St(changes(p, e));
        with_places(|m, cat| check_statement(ch, cat, m, &s))
    })]
}

/// C13: literals and expressions at every place, as the tree must hold them.
pub fn c13(th: bool) -> Vec<Suite> {
    const LITS: &[&str] = &["0", "00", "1", "01", "0.0", "1.0", "1.50", ".5", "0.", "10", "1E+0", "2.5E-1", "0x0", "''", "' '", "'a '", "' a'", "'A'", "'0'", "'null'", "NULL", "CURRENT_DATE", "CURRENT_TIME", "CURRENT_TIMESTAMP", "DATE '2000-01-01'", "TIME ''", "TIMESTAMP ' 1'", "a", "A", "t.a", "T.A.b", "null_", "date_"];
    let lit = |s: &str| -> E {
        let un = |x: &str| x[1..x.len() - 1].to_string();
        match s { "NULL" => E::Null, "CURRENT_DATE" => E::CurDate, "CURRENT_TIME" => E::CurTime, "CURRENT_TIMESTAMP" => E::CurTs,
            s if s.starts_with("DATE ") => E::Date(un(&s[5..])), s if s.starts_with("TIME ") => E::Time(un(&s[5..])), s if s.starts_with("TIMESTAMP ") => E::Ts(un(&s[10..])),
            s if s.starts_with('\'') => E::Str(un(s)), s if s.starts_with(|c: char| c.is_ascii_digit() || c == '.') => E::Num(s.into()), s => E::Name(s.split('.').map(st).collect()) }
    };
    let few = if th { LEAVES } else { FEW };
    vec![Suite::new("literals", &format!("each of {} literals and names, alone or as an operand of each of 16 operators and constructors with another of them or itself, at each of {} places of a query and 16 of data changing statements", LITS.len(), PLACES_), move |ch| {
        let p = ch.choose(PLACES_ + 16);
        let a = ch.choose(LITS.len());
        let k = ch.choose(17);
        let e = if k == 0 { lit(LITS[a]) } else if k < 4 { let x = bx(lit(LITS[a])); match k { 1 => E::Neg(x), 2 => E::Not(x), _ => E::IsNull(x) } } else {
            let b = ch.choose(LITS.len());
            let (x, y) = (bx(lit(LITS[a])), bx(lit(LITS[b])));
            match k { 4 => E::Bin("*", x, y), 5 => E::Bin("-", x, y), 6 => E::Bin("||", x, y), 7 => E::Bin("or", x, y), 8 => E::Cmp("=", x, y), 9 => E::Cmp("like", x, y), 10 => E::Cmp("<=", y, x), 11 => E::Between(y, x.clone(), x), 12 => E::In(x, Set::List(vec![*y])), 13 => E::Tuple(vec![*x, *y]), 14 => E::Case(Some(x.clone()), vec![(*y, *x)], None), 15 => E::Case(None, vec![(*y.clone(), *x.clone())], Some(x)), _ => E::Bin("-", bx(E::Neg(x)), bx(E::Neg(y))) }
        };
        let t = Top::St(if p < PLACES_ { St::Sel(at(p, e)) } else { changes(p - PLACES_, e) });
        crate::c_sql::same_tree(ch, &t)
    }), Suite::new("places", &format!("every expression of at most 2 operators (21 forms) over {} operands at each of {} places of a query and 16 of data changing statements", few.len(), PLACES_), move |ch| {
        let p = ch.choose(PLACES_ + 16);
        let e = operand(ch, 2, few);
        let t = Top::St(if p < PLACES_ { St::Sel(at(p, e)) } else { changes(p - PLACES_, e) });
        crate::c_sql::same_tree(ch, &t)
    })]
}
