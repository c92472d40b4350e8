//! C16, C17, C18: validation of expressions, data-modifying statements and queries.
use crate::c_sql::wrap;
use crate::engine::*;
use crate::ensure;
use crate::sqlast::*;
use crate::sqltype::*;
use cathlamet::sql::verif as v;
use std::cell::RefCell;
use Ty::*;

thread_local! { static PARSER: v::Parser = v::Parser::new(); }
pub fn catalog(c: &Cat) -> v::Catalog {
    let mut cat = v::Catalog::new();
    for s in &c.schemata { let _ = cat.create_schema(s); }
    for t in &c.tables {
        let cols: Vec<v::ColumnSpec> = t.cols.iter().map(|c| v::ColumnSpec { name: &c.0, data_type: c.1.name(), not_null: !c.2, primary_key: false }).collect();
        cat.put(t.schema, t.name, t.name.starts_with('v'), &cols);
    }
    cat
}
type Got<X> = Result<X, v::Failure>;
fn syntax<X>(s: &str, r: &Got<X>) -> Res { if let Err(v::Failure::Syntax(m)) = r { return fail(format!("{} is not parsed: {}", s, m)); } Ok(()) }
pub fn text_of(t: &Top) -> String { let mut o = Out::new(); o.top(t, &mut |_, _| 0); text(&o.toks) }

/// The announced columns of a query must be those of the oracle.
pub fn check_query(ch: &mut Ch, cat: &v::Catalog, model: &Cat, q: &Sel) -> Result<Option<(Rows, Vec<(String, String, bool)>)>, Stop> {
    let top = Top::St(St::Sel(q.clone()));
    let s = text_of(&top);
    ch.sample(|| s.clone());
    let want = Env::new(model).query(q);
    let got = ch.must(&format!("validating {}", s), || PARSER.with(|p| p.columns(cat, model.default, &s)))?;
    ch.state(format!("{} {:?}", s, got.as_ref().ok()).as_bytes());
    syntax(&s, &got)?;
    match (want, got) {
        (Ok(w), Ok(g)) => { if let Err(m) = columns_match(&w, &g) { return fail(format!("{}: {}; announced {:?}", s, m, g)); } Ok(Some((w, g))) }
        (Ok(w), Err(e)) => fail(format!("{} is refused: {:?}; its columns are {:?}", s, e, w)),
        (Err(Bad::No), Ok(g)) => fail(format!("{} is ill-formed, but accepted with columns {:?}", s, g)),
        (Err(Bad::No), Err(_)) => Ok(None),
        (Err(Bad::Any), Ok(g)) => {
            for i in 0..g.len() { ensure!(!g[..i].iter().any(|h| same_name(&h.0, &g[i].0)), "{}: two result columns have the same name: {:?}", s, g); }
            Ok(None)
        }
        (Err(Bad::Any), Err(_)) => Ok(None),
    }
}
pub fn check_statement(ch: &mut Ch, cat: &v::Catalog, model: &Cat, t: &Top) -> Res {
    let s = text_of(t);
    ch.sample(|| s.clone());
    let want = Env::new(model).top(t);
    let got = ch.must(&format!("validating {}", s), || PARSER.with(|p| p.validate(cat, model.default, &s)))?;
    ch.state(format!("{} {:?}", s, got.is_ok()).as_bytes());
    syntax(&s, &got)?;
    let tables = || model.tables.iter().map(|t| format!("{}.{}({})", t.schema, t.name, t.cols.iter().map(|c| format!("{} {}{}", c.0, c.1.name(), if c.2 { "" } else { " NOT NULL" })).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>();
    match (want, got) {
        (Ok(()), Err(e)) => fail(format!("{} fits {:?}, but is refused: {:?}", s, tables(), e)),
        (Err(Bad::No), Ok(())) => fail(format!("{} does not fit {:?}, but is accepted", s, tables())),
        _ => Ok(()),
    }
}

// ------------------------------------------------------------------------------------------------- C16

fn col(n: &str, ty: Ty, null: bool) -> (String, Ty, bool) { (n.into(), ty, null) }
fn types_catalog() -> Cat {
    Cat {
        schemata: vec!["s"], default: "s",
        tables: vec![
            Table { schema: "s", name: "t", cols: vec![
                col("n", Numeric, false), col("m", Numeric, true), col("v", Varchar, false), col("w", Varchar, true), col("l", Logical, false), col("k", Logical, true),
                col("d", Date, false), col("e", Date, true), col("h", Time, false), col("i", Time, true), col("p", Timestamp, false), col("q", Timestamp, true),
                col("g", Geometry, false), col("f", Geometry, true), col("x", Generic, false), col("y", Generic, true),
            ] },
            Table { schema: "s", name: "one", cols: vec![col("n", Numeric, false)] },
            Table { schema: "s", name: "onem", cols: vec![col("v", Varchar, true)] },
            Table { schema: "s", name: "two", cols: vec![col("n", Numeric, false), col("v", Numeric, false)] },
        ],
    }
}
fn bx(e: E) -> Box<E> { Box::new(e) }
fn name(s: &str) -> E { E::Name(vec![s.into()]) }
fn leaf(s: &str) -> E {
    match s { "1" => E::Num("1".into()), "'a'" => E::Str("a".into()), "NULL" => E::Null, "CURRENT_DATE" => E::CurDate, "CURRENT_TIME" => E::CurTime, "CURRENT_TIMESTAMP" => E::CurTs,
        "DATE" => E::Date("2020-01-01".into()), "TIME" => E::Time("10:00".into()), "TIMESTAMP" => E::Ts("2020-01-01 10:00".into()), "t.n" => E::Name(vec!["t".into(), "n".into()]), _ => name(s) }
}
fn query1(e: E) -> Sel { Sel { ctes: vec![], core: Core::Query { distinct: false, cols: Cols::List(vec![Col::Expr(e, None)]), from: vec![], wher: None, group: None }, order: vec![], limit: None } }
fn values(rows: Vec<Vec<E>>) -> Sel { Sel { ctes: vec![], core: Core::Values(rows), order: vec![], limit: None } }
const CMPS: &[&str] = &["=", "!=", "<", "<=", ">", ">=", "like"];
const BINS: &[&str] = &["*", "/", "+", "-", "||", "and", "or"];
const FEW_CMPS: &[&str] = &["=", "<", "like"];
const FEW_BINS: &[&str] = &["+", "||", "and"];
struct X<'a, 'b> { ch: &'a mut Ch<'b>, leaves: &'a [E], budget: usize, room: usize, cmps: &'static [&'static str], bins: &'static [&'static str] }
impl<'a, 'b> X<'a, 'b> {
    fn e(&mut self) -> E {
        if self.budget == 0 || !self.ch.flag() { return self.ch.pick(self.leaves).clone(); }
        self.budget -= 1;
        // the constructs with their numbers of operands
        let (b, c) = (self.bins.len(), self.cmps.len());
        let mut ks: Vec<(usize, usize, usize)> = vec![(0, 0, 1), (0, 1, 1), (0, 2, 1), (5, 0, 3), (7, 0, 2), (7, 1, 3), (8, 0, 1)];
        ks.extend((0..b).map(|k| (1, k, 2))); ks.extend((0..c).map(|k| (2, k, 2)));
        ks.extend([1, 2, 3, 1, 1, 1, 1, 1].iter().enumerate().map(|(k, n)| (3, k, *n)));
        ks.extend((0..8).map(|k| (4, k, 2 + (k & 1) + (k >> 1 & 1) + 2 * (k >> 2))));
        ks.retain(|k| k.2 <= self.room + 1);
        let (kind, k, n) = *self.ch.pick(&ks);
        self.room -= n - 1;
        match (kind, k) {
            (0, 0) => return E::Neg(bx(self.e())),
            (0, 1) => return E::Not(bx(self.e())),
            (0, _) => return E::IsNull(bx(self.e())),
            (1, _) => { let op = self.bins[k]; let l = self.e(); return E::Bin(op, bx(l), bx(self.e())); }
            (2, _) => { let op = self.cmps[k]; let l = self.e(); return E::Cmp(op, bx(l), bx(self.e())); }
            (3, _) => {
                let x = bx(self.e());
                return E::In(x, match k {
                    0 => Set::List(vec![]), 1 => Set::List(vec![self.e()]), 2 => { let a = self.e(); Set::List(vec![a, self.e()]) }
                    3 => Set::Sel(Box::new(query1(self.closed()))),
                    4 => { let a = self.closed(); Set::Sel(Box::new(values(vec![vec![a], vec![self.closed()]]))) }
                    5 => Set::Name(vec!["one".into()]), 6 => Set::Name(vec!["s".into(), "onem".into()]), _ => Set::Name(vec!["two".into()]),
                });
            }
            (4, _) => {
                let x = if k & 1 == 1 { Some(bx(self.e())) } else { None };
                let mut w = vec![];
                for _ in 0..1 + (k >> 2) { let g = self.e(); w.push((g, self.e())) }
                let el = if k & 2 == 2 { Some(bx(self.e())) } else { None };
                return E::Case(x, w, el);
            }
            (5, _) => { let x = self.e(); let a = self.e(); return E::Between(bx(x), bx(a), bx(self.e())); }
            (7, _) => { let mut l = vec![]; for _ in 0..2 + k { l.push(self.e()) } return E::Tuple(l); }
            _ => (),
        }
        let e = self.closed();
        E::Scalar(Box::new(query1(e)))
    }
    /// In a nested query there are no columns of the table.
    fn closed(&mut self) -> E { leaf(*self.ch.pick(&["1", "'a'", "NULL", "n"])) }
}
fn columns_of(e: &E, out: &mut Vec<Vec<String>>) {
    let mut l = |e: &E| columns_of(e, out);
    match e {
        E::Name(n) => if !out.contains(n) { out.push(n.clone()) },
        E::Tuple(v) => v.iter().for_each(l),
        E::Neg(x) | E::Not(x) | E::IsNull(x) => l(x),
        E::Bin(_, a, b) | E::Cmp(_, a, b) => { l(a); l(b) }
        E::In(x, s) => { l(x); if let Set::List(v) = s { v.iter().for_each(l) } }
        E::Between(a, b, c) => { l(a); l(b); l(c) }
        E::Case(x, w, el) => { if let Some(x) = x { l(x) } for (g, b) in w { l(g); l(b) } if let Some(x) = el { l(x) } }
        _ => (),
    }
}
/// Evaluates an accepted expression on every row: values must be of the announced type, and null only when announced.
fn check_values(cat: &Cat, e: &E, ty: Ty, null: bool, s: &str) -> Res {
    let mut names = vec![]; columns_of(e, &mut names);
    let domains: Vec<Vec<V>> = names.iter().map(|n| { let c = cat.tables[0].cols.iter().find(|c| c.0 == *n.last().unwrap()).unwrap(); let mut d = domain(c.1); if c.2 { d.push(V::Null) } d }).collect();
    let mut at = vec![0; names.len()];
    loop {
        let row = |n: &[String]| { let i = names.iter().position(|m| m == n).unwrap(); domains[i][at[i]].clone() };
        let val = eval(e, &row);
        let shown = || names.iter().enumerate().map(|(i, n)| format!("{} = {:?}", n.join("."), domains[i][at[i]])).collect::<Vec<_>>().join(", ");
        ensure!(val.has_type(ty), "{}: announced as {}, but {:?} when {}", s, ty.name(), val, shown());
        ensure!(val != V::Null || null, "{}: announced as never null, but null when {}", s, shown());
        let mut i = 0;
        loop {
            if i == at.len() { return Ok(()); }
            at[i] += 1;
            if at[i] < domains[i].len() { break; }
            at[i] = 0; i += 1;
        }
    }
}
thread_local! { static TYPES: RefCell<Option<(Cat, v::Catalog)>> = RefCell::new(None); }
pub fn check_expr(ch: &mut Ch, e: &E) -> Res {
    let mut q = match wrap(e.clone()) { Top::St(St::Sel(q)) => q, _ => unreachable!() };
    if let Core::Query { from, .. } = &mut q.core { from.push(F::Table(vec!["t".into()], None)) }
    TYPES.with(|c| {
        let mut c = c.borrow_mut();
        let (model, cat) = c.get_or_insert_with(|| { let m = types_catalog(); let k = catalog(&m); (m, k) });
        if let Some((w, _)) = check_query(ch, cat, model, &q)? {
            // elements of sets given by name are not known
            fn from(q: &Sel) -> bool { !matches!(&q.core, Core::Values(_)) && !matches!(&q.core, Core::Query { cols: Cols::List(_), from, .. } if from.is_empty()) }
            fn named(e: &E) -> bool { match e { E::Scalar(q) => from(q), E::In(x, s) => matches!(s, Set::Name(_)) || matches!(s, Set::Sel(q) if from(q)) || named(x) || matches!(s, Set::List(l) if l.iter().any(named)), E::Neg(x) | E::Not(x) | E::IsNull(x) => named(x), E::Bin(_, a, b) | E::Cmp(_, a, b) => named(a) || named(b),
                E::Between(a, b, c) => named(a) || named(b) || named(c), E::Tuple(l) => l.iter().any(named), E::Case(x, w, el) => x.as_ref().map_or(false, |x| named(x)) || w.iter().any(|w| named(&w.0) || named(&w.1)) || el.as_ref().map_or(false, |x| named(x)), _ => false } }
            if !named(e) { check_values(model, e, w[0].ty, w[0].null, &text_of(&wrap(e.clone())))?; }
        }
        Ok(())
    })
}
fn expr_suite(suite: &str, leaves: &str, n: usize, operands: usize, few: bool) -> Suite {
    let l: Vec<E> = leaves.split(' ').map(leaf).collect();
    Suite::new(suite, &format!("every expression of up to {} operators, predicates and conditionals ({}) and {} operands out of {}; accepted ones are evaluated on every row over 2 values and null per column", n, if few { "all constructs, one operator of each kind" } else { "all of them" }, operands, leaves), move |ch| {
        let e = X { ch, leaves: &l, budget: n, room: operands - 1, cmps: if few { FEW_CMPS } else { CMPS }, bins: if few { FEW_BINS } else { BINS } }.e();
        check_expr(ch, &e)
    })
}
pub fn c16(th: bool) -> Vec<Suite> {
    let all = "n m v w l k d e h i p q g f x y 1 'a' NULL CURRENT_DATE CURRENT_TIME CURRENT_TIMESTAMP DATE TIME TIMESTAMP t.n zz";
    if th { vec![
        expr_suite("one-operator", all, 1, 4, false),
        expr_suite("one-operator-six-operands", "n m v l k d NULL", 1, 6, false),
        expr_suite("two-operators", "n m v w l k d g NULL", 2, 4, false),
        expr_suite("two-operators-more-operands", "n m v l k", 2, 6, true),
        expr_suite("three-operators", "n m v l k", 3, 4, true),
        expr_suite("four-operators", "m l", 4, 4, true),
    ] } else { vec![
        expr_suite("one-operator", all, 1, 3, false),
        expr_suite("one-operator-four-operands", "n m v w l k d e g NULL", 1, 4, false),
        expr_suite("one-operator-six-operands", "n m v k", 1, 6, false),
        expr_suite("two-operators", "n m v l k d", 2, 4, false),
        expr_suite("three-operators", "m l", 3, 4, true),
    ] }
}

// ------------------------------------------------------------------------------------------------- C17

fn st(s: &str) -> String { s.to_string() }
fn value(ch: &mut Ch, costly: bool) -> E {
    let base = ["1", "'a'", "NULL"];
    let k = ch.choose(if costly { 7 } else { 4 });
    match k {
        0..=2 => leaf(base[k]), 3 => E::Cmp("=", bx(leaf("1")), bx(leaf("1"))),
        4 => name("a"), 5 => E::Tuple(vec![leaf("1"), leaf("1")]), _ => E::Scalar(Box::new(query1(leaf("1")))),
    }
}
fn table_model(ch: &mut Ch, max: usize, types: &[Ty]) -> Cat {
    let n = ch.range(1, max);
    let cols = (0..n).map(|i| { let ty = *ch.pick(types); col(["a", "b", "c"][i], ty, ch.flag()) }).collect();
    Cat { schemata: vec!["s"], default: "s", tables: vec![Table { schema: "s", name: "t", cols }] }
}
pub fn c17(th: bool) -> Vec<Suite> {
    let mut v = vec![];
    const TYPES: &[Ty] = &[Numeric, Varchar, Logical];
    v.push(Suite::new("insert-positions", &format!("tables of 1 to {} columns of 3 types, nullable or not; INSERT without column names of one or two rows of 1 to 3 values (numbers, strings, truth values, NULL)", 3), move |ch| {
        let m = table_model(ch, 3, TYPES);
        let rows = if ch.flag() { 2 } else { 1 };
        let mut src = vec![];
        for _ in 0..rows { let n = ch.range(1, if rows == 1 || th { 3 } else { 2 }); src.push((0..n).map(|_| value(ch, rows == 1)).collect()) }
        let c = catalog(&m);
        check_statement(ch, &c, &m, &Top::St(St::Insert { ctes: vec![], table: vec![st("t")], cols: None, src: Core::Values(src) }))
    }));
    v.push(Suite::new("insert-names", &format!("tables of 1 to {} columns; INSERT with lists of up to 3 column names out of a, b, c, B and an unknown one, and one row of up to 3 values", 3), move |ch| {
        let m = table_model(ch, 3, if th { TYPES } else { &TYPES[..2] });
        let k = ch.range(1, 3);
        let cols: Vec<String> = (0..k).map(|_| st(*ch.pick(if th { &["a", "b", "c", "B", "x"][..] } else { &["a", "b", "B", "x"][..] }))).collect();
        let n = ch.range(1, 3);
        if !th && n + 1 < k { return Err(Stop::Skip); }
        let row = (0..n).map(|_| value(ch, false)).collect();
        let c = catalog(&m);
        check_statement(ch, &c, &m, &Top::St(St::Insert { ctes: vec![], table: vec![st("t")], cols: Some(cols), src: Core::Values(vec![row]) }))
    }));
    v.push(Suite::new("update", &format!("tables of 1 to {} columns; UPDATE with up to 2 assignments to 1 or 2 columns out of a, b, B and an unknown one, with all kinds of values, and conditions of all types", 3), move |ch| {
        let m = table_model(ch, 3, if th { TYPES } else { &TYPES[..2] });
        let k = ch.range(1, 2);
        let set: Vec<(Vec<String>, E)> = (0..k).map(|_| { let n = ch.range(1, 2); ((0..n).map(|_| st(*ch.pick(&["a", "b", "B", "x"]))).collect(), match ch.choose(4) { 0 => leaf("1"), 1 => leaf("'a'"), 2 => name("a"), _ => name("b") }) }).collect();
        let wher = match ch.choose(4) { 0 => None, 1 => Some(E::IsNull(bx(name("b")))), 2 => Some(name("a")), _ => Some(E::Cmp("=", bx(name("a")), bx(E::Name(vec![st("t"), st("b")])))) };
        let c = catalog(&m);
        check_statement(ch, &c, &m, &Top::St(St::Update { ctes: vec![], table: vec![st("t")], set, wher }))
    }));
    v.push(Suite::new("update-values", "tables of 1 or 2 columns of all 8 types; UPDATE of a column with each kind of value", move |ch| {
        const ALL: &[Ty] = &[Numeric, Varchar, Logical, Date, Time, Timestamp, Geometry, Generic];
        let m = table_model(ch, 2, ALL);
        let e = match ch.choose(14) { 0 => name("a"), 1 => name("b"), 2 => leaf("1"), 3 => leaf("'a'"), 4 => E::Null, 5 => E::CurDate, 6 => E::CurTime, 7 => E::CurTs, 8 => E::IsNull(bx(name("a"))), 9 => E::Tuple(vec![name("a"), name("a")]),
            10 => E::Case(None, vec![(E::IsNull(bx(name("a"))), name("a"))], Some(bx(name("b")))), 11 => E::Case(None, vec![(E::IsNull(bx(name("b"))), name("a"))], None), 12 => E::Bin("+", bx(name("a")), bx(leaf("1"))), _ => E::Scalar(Box::new(query1(leaf("1")))) };
        let target = *ch.pick(&["a", "b"]);
        let c = catalog(&m);
        check_statement(ch, &c, &m, &Top::St(St::Update { ctes: vec![], table: vec![st("t")], set: vec![(vec![st(target)], e)], wher: None }))
    }));
    v.push(Suite::new("delete", "tables of 1 or 2 columns of all 8 types; DELETE with conditions of all forms", move |ch| {
        const ALL: &[Ty] = &[Numeric, Varchar, Logical, Date, Time, Timestamp, Geometry, Generic];
        let m = table_model(ch, 2, ALL);
        let (a, b) = (|| bx(name("a")), || bx(name("b")));
        let wher = match ch.choose(14) { 0 => None, 1 => Some(name("a")), 2 => Some(name("b")), 3 => Some(name("x")), 4 => Some(E::Cmp("=", a(), b())), 5 => Some(E::Cmp("<", a(), b())), 6 => Some(E::Not(a())), 7 => Some(E::Tuple(vec![name("a"), name("b")])),
            8 => Some(E::In(a(), Set::List(vec![name("b"), leaf("1")]))), 9 => Some(E::Name(vec![st("T"), st("a")])), 10 => Some(E::Name(vec![st("s"), st("a")])), 11 => Some(E::In(a(), Set::Name(vec![st("t")]))), 12 => Some(E::Bin("or", a(), bx(E::IsNull(b())))), _ => Some(E::Case(None, vec![(name("a"), name("b"))], None)) };
        let c = catalog(&m);
        check_statement(ch, &c, &m, &Top::St(St::Delete { ctes: vec![], table: vec![st("t")], wher }))
    }));
    v.push(Suite::new("targets", "every data-modifying statement, EXPLAIN of it and DESCRIBE with every spelling and qualification of existing, missing and hidden tables, for existing and missing default schemata", |ch| {
        let default = *ch.pick(&["s", "S", "r", "none"]);
        let m = Cat { schemata: vec!["s", "r"], default, tables: vec![
            Table { schema: "s", name: "t", cols: vec![col("a", Numeric, false), col("t", Logical, true)] },
            Table { schema: "r", name: "t", cols: vec![col("b", Numeric, false)] },
            Table { schema: "r", name: "s", cols: vec![col("a", Numeric, true)] },
        ] };
        let table: Vec<String> = ch.pick(&["t", "T", "s", "x", "s.t", "S.T", "r.t", "r.s", "s.s", "x.t", "t.t", "s.x", "r.s.t", "s.t.a"]).split('.').map(st).collect();
        let target = *ch.pick(&["a", "b", "t"]);
        let ctes = if ch.flag() { vec![Cte { name: st(*ch.pick(&["c", "t", "s"])), cols: None, q: query1(leaf("1")) }] } else { vec![] };
        let stm = match ch.choose(5) {
            0 => St::Insert { ctes, table, cols: None, src: Core::Values(vec![vec![leaf("1")]]) },
            1 => St::Insert { ctes, table, cols: Some(vec![st(target)]), src: Core::Values(vec![vec![leaf("1")]]) },
            2 => St::Update { ctes, table, set: vec![(vec![st(target)], leaf("1"))], wher: None },
            3 => St::Delete { ctes, table: table.clone(), wher: match ch.choose(3) { 0 => None, 1 => Some(E::IsNull(bx(E::Name(vec![table.last().unwrap().clone(), st(target)])))), _ => Some(E::IsNull(bx(name(target)))) } },
            _ => { if !ctes.is_empty() { return Err(Stop::Skip); } let c = catalog(&m); return check_statement(ch, &c, &m, &Top::Describe(if table.len() > 2 { return Err(Stop::Skip) } else { table })) }
        };
        let c = catalog(&m);
        let top = if ch.flag() { Top::Explain(stm) } else { Top::St(stm) };
        check_statement(ch, &c, &m, &top)
    }));
    v.push(Suite::new("sources", "INSERT from queries over other tables, nested queries and common table expressions, with and without column names", |ch| {
        let m = Cat { schemata: vec!["s"], default: "s", tables: vec![
            Table { schema: "s", name: "t", cols: vec![col("a", Numeric, false), col("b", Varchar, true)] },
            Table { schema: "s", name: "u", cols: vec![col("b", Varchar, true), col("a", Numeric, ch.flag())] },
            Table { schema: "s", name: "w", cols: vec![col("a", Numeric, false)] },
        ] };
        let cols: Option<Vec<String>> = match ch.choose(5) { 0 => None, 1 => Some(vec![st("a")]), 2 => Some(vec![st("a"), st("b")]), 3 => Some(vec![st("b"), st("a")]), _ => Some(vec![st("b")]) };
        let with = ch.choose(4);
        let ctes: Vec<Cte> = match with { 0 => vec![], 1 => vec![Cte { name: st("c"), cols: None, q: values(vec![vec![leaf("1"), leaf("'a'")]]) }],
            2 => vec![Cte { name: st("c"), cols: None, q: query_all("u") }],
            _ => vec![Cte { name: st("c"), cols: None, q: query_all("u") }, Cte { name: st("u"), cols: Some(vec![st("a"), st("b")]), q: query_all("c") }] };
        let from = *ch.pick(&["t", "u", "w", "c", "x"]);
        let list = match ch.choose(7) { 0 => Cols::All, 1 => Cols::List(vec![Col::AllFrom(st(from))]), 2 => Cols::List(vec![Col::Expr(name("a"), None)]), 3 => Cols::List(vec![Col::Expr(name("a"), None), Col::Expr(name("b"), None)]),
            4 => Cols::List(vec![Col::Expr(name("b"), None), Col::Expr(name("a"), None)]), 5 => Cols::List(vec![Col::Expr(E::IsNull(bx(name("a"))), None), Col::Expr(leaf("'a'"), None)]), _ => Cols::List(vec![Col::Expr(leaf("1"), None), Col::Expr(E::Null, None)]) };
        let f = match ch.choose(3) { 0 => vec![], 1 => vec![F::Table(vec![st(from)], None)], _ => vec![F::Sub(Box::new(query_all(from)), Some(st(from)))] };
        let wher = match ch.choose(4) { 0 => None, 1 => Some(E::In(bx(name("a")), Set::Name(vec![st("w")]))), 2 => Some(E::In(bx(name("a")), Set::Name(vec![st("c")]))), _ => Some(name("a")) };
        let src = Core::Query { distinct: false, cols: list, from: f, wher, group: None };
        let c = catalog(&m);
        check_statement(ch, &c, &m, &Top::St(St::Insert { ctes, table: vec![st("t")], cols, src }))
    }));
    let b = if th { 5 } else { 4 };
    v.push(Suite::new("statements", &format!("every INSERT, UPDATE and DELETE that deviates from the plainest one in at most {} clauses, names, values, nested queries, common table expressions and operators (nesting up to 2), over the tables of C18", b), move |ch| {
        let s = Q { ch, budget: b, depth: 2 }.stm();
        with_scopes(|m, cat| check_statement(ch, cat, m, &s))
    }));
    v.push(Suite::new("with-clauses", &format!("up to {} common table expressions of 4 names over each other, tables and themselves before INSERT, UPDATE and DELETE of three tables (and of themselves), referred to in every place: values of the first and the second row, the source, assigned values, conditions, nested queries", if th { 3 } else { 2 }), move |ch| {
        let m = Cat { schemata: vec!["s"], default: "s", tables: vec![
            Table { schema: "s", name: "t", cols: vec![col("a", Numeric, false), col("b", Numeric, true)] },
            Table { schema: "s", name: "u", cols: vec![col("a", Numeric, true), col("c", Numeric, false), col("b", Numeric, false)] },
            Table { schema: "s", name: "w", cols: vec![col("a", Numeric, false)] },
        ] };
        let n = ch.range(1, if th { 3 } else { 2 });
        let names: &[&str] = &["c", "w", "D", "C"];
        let refs: &[&str] = &["c", "w", "d", "x"];
        let one_of = |n: &str| { let mut q = query1(name("a")); if let Core::Query { from, .. } = &mut q.core { *from = vec![F::Table(vec![st(n)], None)] } q };
        let ctes: Vec<Cte> = (0..n).map(|_| Cte { name: st(*ch.pick(names)), cols: if ch.flag() { Some(vec![st("a")]) } else { None }, q: match ch.choose(6) { 0 => query1(E::Case(None, vec![(is_true(), leaf("1"))], None)), 1 => query1(leaf("'a'")), k => one_of(refs[k - 2]) } }).collect();
        let r = *ch.pick(refs);
        let used = if ch.flag() { E::Scalar(Box::new(one_of(r))) } else { E::Scalar(Box::new(query_all(r))) };
        let test = |e: E| E::Cmp("=", bx(leaf("1")), bx(e));
        let target = *ch.pick(&["t", "u", "w", "c"]);
        let table = vec![st(target)];
        let width = match target { "t" => 2, "u" => 3, _ => 1 };
        let row = |k: usize| -> Vec<E> { (0..width).map(|i| if i == k { used.clone() } else { leaf("1") }).collect() };
        let kind = ch.choose(12);
        let s = match kind {
            0..=2 => { if kind >= width { return Err(Stop::Skip) } St::Insert { ctes, table, cols: None, src: Core::Values(vec![row(kind)]) } }
            3 => St::Insert { ctes, table, cols: None, src: Core::Values(vec![row(9), row(width - 1)]) },
            4 => { let cols: Vec<String> = match ch.choose(4) { 0 => vec!["a"], 1 => vec!["b", "a"], 2 => vec!["c", "b"], _ => vec!["a", "c"] }.into_iter().map(st).collect(); let mut v = vec![leaf("1"); cols.len()]; v[0] = used; St::Insert { ctes, table, cols: Some(cols), src: Core::Values(vec![v]) } }
            5 => St::Insert { ctes, table, cols: Some(vec![st("a")]), src: query_all(r).core },
            6 => St::Insert { ctes, table, cols: Some(vec![st("a")]), src: Core::Query { distinct: false, cols: Cols::List(vec![Col::Expr(leaf("1"), None)]), from: vec![], wher: Some(E::In(bx(leaf("1")), Set::Name(vec![st(r)]))), group: None } },
            7 => St::Update { ctes, table, set: vec![(vec![st("a")], used)], wher: None },
            8 => St::Update { ctes, table, set: vec![(vec![st("a")], leaf("1")), (vec![st("b")], used)], wher: None },
            9 => St::Update { ctes, table, set: vec![(vec![st("a")], leaf("1"))], wher: Some(if ch.flag() { test(used) } else { E::In(bx(name("a")), Set::Name(vec![st(r)])) }) },
            10 => St::Delete { ctes, table, wher: Some(test(used)) },
            _ => St::Delete { ctes, table, wher: Some(E::In(bx(name("a")), Set::Name(vec![st(r)]))) },
        };
        let c = catalog(&m);
        check_statement(ch, &c, &m, &Top::St(s))
    }));
    v
}
fn is_true() -> E { E::Cmp("=", bx(leaf("1")), bx(leaf("1"))) }
fn query_all(t: &str) -> Sel { Sel { ctes: vec![], core: Core::Query { distinct: false, cols: Cols::All, from: vec![F::Table(vec![st(t)], None)], wher: None, group: None }, order: vec![], limit: None } }

// ------------------------------------------------------------------------------------------------- C18

fn scopes_catalog() -> Cat {
    Cat { schemata: vec!["s", "r"], default: "s", tables: vec![
        Table { schema: "s", name: "t", cols: vec![col("b", Varchar, true), col("a", Numeric, false)] },
        Table { schema: "s", name: "u", cols: vec![col("a", Numeric, true), col("c", Numeric, false), col("u", Logical, false)] },
        Table { schema: "r", name: "t", cols: vec![col("a", Logical, false)] },
    ] }
}
thread_local! { static SCOPES: RefCell<Option<(Cat, v::Catalog)>> = RefCell::new(None); }
/// Queries over the catalog above; every deviation from `SELECT a FROM t` costs.
struct Q<'a, 'b> { ch: &'a mut Ch<'b>, budget: usize, depth: usize }
impl<'a, 'b> Q<'a, 'b> {
    fn alt(&mut self, costs: &[usize]) -> usize {
        let ok: Vec<usize> = (0..costs.len()).filter(|i| costs[*i] <= self.budget).collect();
        let i = ok[self.ch.choose(ok.len())];
        self.budget -= costs[i];
        i
    }
    fn one(&mut self, l: &[&str]) -> String { let c: Vec<usize> = (0..l.len()).map(|i| (i > 0) as usize).collect(); st(l[self.alt(&c)]) }
    fn opt(&mut self, cost: usize) -> bool { self.alt(&[0, cost]) == 1 }
    fn col(&mut self) -> String { self.one(&["a", "b", "c", "u", "A", "x"]) }
    fn rel(&mut self) -> String { self.one(&["t", "u", "x", "T"]) }
    fn e(&mut self) -> E {
        match self.alt(&[0, 1, 1, 1, 1, 1, 2, 2]) {
            0 => { let c = self.col(); name(&c) }
            1 => E::Name(vec![self.rel(), self.col()]),
            2 => leaf("1"),
            3 => { let c = self.col(); E::IsNull(bx(name(&c))) }
            4 => { let a = self.col(); let b = self.col(); E::Bin("+", bx(name(&a)), bx(name(&b))) }
            5 => leaf("'a'"),
            6 => { if self.depth == 0 { return leaf("1"); } let q = self.sub(); E::Scalar(Box::new(q)) }
            _ => { if self.depth == 0 { return leaf("1"); } let c = self.col(); let q = self.sub(); E::In(bx(name(&c)), Set::Sel(Box::new(q))) }
        }
    }
    fn cond(&mut self) -> E {
        match self.alt(&[0, 1, 1, 1]) {
            0 => { let c = self.col(); E::Cmp("=", bx(name(&c)), bx(leaf("1"))) }
            1 => { let a = self.e(); let b = self.e(); E::Cmp("=", bx(a), bx(b)) }
            2 => E::Cmp("=", bx(E::Name(vec![st("t"), st("a")])), bx(E::Name(vec![st("u"), st("c")]))),
            _ => self.e(),
        }
    }
    fn sub(&mut self) -> Sel { self.depth -= 1; let q = self.sel(); self.depth += 1; q }
    fn from(&mut self) -> F {
        let k = if self.depth == 0 { self.alt(&[0, 1]) } else { self.alt(&[0, 1, 1, 1]) };
        match k {
            0 => F::Table(vec![self.rel()], None),
            1 => { let n = if self.opt(1) { vec![self.one(&["r", "s", "x"]), self.rel()] } else { vec![self.rel()] }; F::Table(n, if self.opt(0) { Some(self.rel()) } else { None }) }
            2 => { let q = self.sub(); F::Sub(Box::new(q), if self.opt(0) { Some(self.rel()) } else { None }) }
            _ => {
                let kind = ["join", "cross", "natural"][self.alt(&[0, 1, 1])];
                let jt = if kind == "cross" { "-" } else { ["inner", "left", "right", "full"][self.alt(&[0, 0, 0, 0])] };
                self.depth -= 1;
                let l = self.from();
                let r = if self.opt(1) { self.from() } else { F::Table(vec![st("u")], None) };
                self.depth += 1;
                let c = if self.opt(0) { let mut v = vec![self.col()]; if self.opt(1) { v.push(self.col()) } Jc::Using(v) } else { Jc::On(self.cond()) };
                F::Join { kind, jt, l: Box::new(l), r: Box::new(r), c }
            }
        }
    }
    fn core(&mut self) -> Core {
        if self.opt(1) {
            let n = if self.opt(1) { 2 } else { 1 };
            let m = if self.opt(1) { 2 } else { 1 };
            return Core::Values((0..n).map(|_| { let k = if self.opt(1) { 3 - m } else { m }; (0..k).map(|_| if self.opt(1) { if self.opt(0) { E::Null } else { leaf("'a'") } } else { leaf("1") }).collect() }).collect());
        }
        let k = self.alt(&[0, 1, 1]);
        let cols = match k {
            1 => Cols::All,
            _ => {
                let n = if k == 2 { 2 + self.opt(1) as usize } else { 1 };
                Cols::List((0..n).map(|_| if self.opt(1) { Col::AllFrom(self.rel()) } else { let e = self.e(); let al = if self.opt(1) { Some(self.one(&["x", "a", "A1", "b"])) } else { None }; Col::Expr(e, al) }).collect())
            }
        };
        let mut from = vec![self.from()];
        if self.opt(1) { if self.opt(0) { from.clear() } else { let f = if self.opt(0) { F::Table(vec![st("u")], None) } else { self.from() }; from.push(f) } }
        let wher = if self.opt(1) { Some(self.cond()) } else { None };
        let group = if self.opt(1) { let e = self.e(); Some((vec![e], if self.opt(1) { Some(self.cond()) } else { None })) } else { None };
        Core::Query { distinct: false, cols, from, wher, group }
    }
    fn ctes(&mut self) -> Vec<Cte> {
        let mut ctes = vec![];
        if self.depth > 0 && self.opt(1) {
            loop {
                let name = self.one(&["x", "t", "u"]);
                let q = self.sub();
                let cols = if self.opt(1) { let mut v = vec![self.col()]; if self.opt(1) { v.push(self.col()) } Some(v) } else { None };
                ctes.push(Cte { name, cols, q });
                if ctes.len() == 2 || !self.opt(1) { break; }
            }
        }
        ctes
    }
    /// A data-modifying statement; the plainest ones of each kind cost nothing.
    fn stm(&mut self) -> Top {
        let kind = self.alt(&[0, 0, 0]);
        let explain = self.opt(1);
        let ctes = self.ctes();
        let at = self.alt(&[0, 1, 1, 1, 1, 1, 1]);
        let table: Vec<String> = ["t", "u", "T", "x", "r.t", "s.t", "s.x"][at].split('.').map(st).collect();
        let is_u = at == 1;
        let s = match kind {
            0 => {
                let cols = if self.opt(1) { let n = self.alt(&[1, 1, 0, 1]); let mut free: Vec<&str> = if is_u { vec!["u", "c", "a"] } else { vec!["a", "b", "x"] }; free.truncate(n.max(1)); if n < 3 { free.truncate(n + 1) } Some(free.iter().map(|c| if self.opt(1) { self.col() } else { st(c) }).collect::<Vec<_>>()) } else { None };
                let src = if self.opt(1) { self.core() } else {
                    let fits: Vec<E> = match &cols { Some(l) => l.iter().map(|c| match (c.as_str(), is_u) { ("b", _) => leaf("'a'"), ("u", _) => is_true(), _ => leaf("1") }).collect(), None if is_u => vec![leaf("1"), leaf("1"), is_true()], _ => vec![leaf("'a'"), leaf("1")] };
                    let rows = if self.opt(1) { 2 } else { 1 };
                    Core::Values((0..rows).map(|_| { let mut r: Vec<E> = fits.iter().map(|e| if self.opt(1) { if self.opt(0) { E::Null } else { self.e() } } else { e.clone() }).collect(); if self.opt(1) { if self.opt(0) { r.push(leaf("1")) } else if r.len() > 1 { r.pop(); } } r }).collect())
                };
                St::Insert { ctes, table, cols, src }
            }
            1 => {
                let n = if self.opt(1) { 2 } else { 1 };
                let set = (0..n).map(|i| { let mut l = vec![if i == 0 { self.one(&["a", "b", "c", "u", "A", "x"]) } else { self.one(&["b", "a", "c", "u", "x"]) }]; if self.opt(1) { l.push(self.col()) } (l, if i == 0 || self.opt(1) { self.e() } else { leaf("'a'") }) }).collect();
                let wher = if self.opt(1) { Some(self.cond()) } else { None };
                St::Update { ctes, table, set, wher }
            }
            _ => St::Delete { ctes, table, wher: Some(self.cond()) },
        };
        if explain { Top::Explain(s) } else { Top::St(s) }
    }
    fn sel(&mut self) -> Sel {
        let ctes = self.ctes();
        let core = self.core();
        let core = if self.opt(1) { let r = self.core(); Core::Op(["union", "unionall", "intersect", "except"][self.alt(&[0, 1, 1, 1])], Box::new(core), Box::new(r)) } else { core };
        let order = if self.opt(1) { vec![By { e: self.e(), coll: None, desc: false }] } else { vec![] };
        let limit = if self.opt(1) { let e = self.e(); Some((leaf("1"), Some(e))) } else { None };
        Sel { ctes, core, order, limit }
    }
}
pub fn c18(th: bool) -> Vec<Suite> {
    let mut v = vec![];
    let b = if th { 6 } else { 5 };
    v.push(Suite::new("queries", &format!("every query that deviates from SELECT a FROM t in at most {} clauses, names, aliases, joins, nested queries, common table expressions, set operations and operators (nesting up to 2), over tables with equally named columns, a column named like its table, and two tables of the same name", b), move |ch| {
        let q = Q { ch, budget: b, depth: 2 }.sel();
        with_scopes(|m, cat| check_query(ch, cat, m, &q).map(|_| ()))
    }));
    v.push(Suite::new("names", &format!("result lists of up to {} of 12 columns with colliding names, alone and under SELECT * of an enclosing query", if th { 5 } else { 4 }), move |ch| {
        let n = ch.range(1, if th { 5 } else { 4 });
        let col = |e: E, a: &str| Col::Expr(e, if a == "" { None } else { Some(st(a)) });
        let list = (0..n).map(|_| match ch.choose(12) {
            0 => col(name("a"), ""), 1 => col(name("b"), ""), 2 => col(leaf("1"), ""), 3 => Col::AllFrom(st("t")), 4 => col(name("b"), "a"), 5 => col(name("a"), "a1"), 6 => col(name("b"), "A1"),
            7 => col(leaf("1"), "col"), 8 => col(name("a"), "a11"), 9 => col(name("A"), ""), 10 => col(E::Name(vec![st("t"), st("a")]), ""), _ => col(leaf("'a'"), "a2") }).collect();
        let q = Sel { ctes: vec![], core: Core::Query { distinct: ch.flag(), cols: Cols::List(list), from: vec![F::Table(vec![st("t")], None)], wher: None, group: None }, order: vec![], limit: None };
        let q = if ch.flag() { Sel { ctes: vec![], core: Core::Query { distinct: false, cols: Cols::All, from: vec![F::Sub(Box::new(q), None)], wher: None, group: None }, order: vec![], limit: None } } else { q };
        with_scopes(|m, cat| check_query(ch, cat, m, &q).map(|_| ()))
    }));
    v.push(Suite::new("joins", "three relations (tables, aliased tables, nested queries) in two joins of every kind, grouped to the left or right, with conditions on every pair or USING, and every way to select the columns", |ch| {
        let rel = |ch: &mut Ch, i: usize| match ch.choose(3) { 0 => F::Table(vec![st(["t", "u", "r"][i])], None), 1 => F::Table(vec![st(["u", "t", "t"][i])], Some(st(["x", "y", "z"][i]))), _ => F::Sub(Box::new(query_all(["t", "u", "u"][i])), Some(st(["x", "y", "z"][i]))) };
        let (a, b, c) = (rel(ch, 0), rel(ch, 1), rel(ch, 2));
        let alias = |f: &F| match f { F::Table(n, a) => a.clone().unwrap_or(n[0].clone()), F::Sub(_, a) => a.clone().unwrap(), _ => unreachable!() };
        let names = [alias(&a), alias(&b), alias(&c)];
        let join = |ch: &mut Ch, l: F, r: F| {
            let jt = *ch.pick(&["inner", "left", "right", "full"]);
            let pair = *ch.pick(&[(0, 1), (0, 2), (1, 2)]);
            let c = if ch.flag() { Jc::On(E::Cmp("=", bx(E::Name(vec![names[pair.0].clone(), st("a")])), bx(E::Name(vec![names[pair.1].clone(), st("a")])))) } else { Jc::Using(vec![st("a")]) };
            F::Join { kind: "join", jt, l: Box::new(l), r: Box::new(r), c }
        };
        let f = if ch.flag() { let j = join(ch, a, b); join(ch, j, c) } else { let j = join(ch, b, c); join(ch, a, j) };
        let cols = match ch.choose(5) { 0 => Cols::All, 1 => Cols::List(names.iter().map(|n| Col::AllFrom(n.clone())).collect()), 2 => Cols::List(names.iter().map(|n| Col::Expr(E::Name(vec![n.clone(), st("a")]), None)).collect()),
            3 => Cols::List(["b", "c", "u"].iter().map(|n| Col::Expr(name(n), None)).collect()), _ => Cols::List(vec![Col::Expr(name("b"), None), Col::Expr(E::Bin("+", bx(E::Name(vec![names[0].clone(), st("a")])), bx(E::Name(vec![names[2].clone(), st("a")]))), None)]) };
        let q = Sel { ctes: vec![], core: Core::Query { distinct: false, cols, from: vec![f], wher: None, group: None }, order: vec![], limit: None };
        let m = Cat { schemata: vec!["s"], default: "s", tables: vec![
            Table { schema: "s", name: "t", cols: vec![col("b", Varchar, true), col("a", Numeric, false)] },
            Table { schema: "s", name: "u", cols: vec![col("a", Numeric, true), col("c", Numeric, false), col("u", Logical, false)] },
            Table { schema: "s", name: "r", cols: vec![col("d", Date, false), col("a", Numeric, false)] },
        ] };
        let cat = catalog(&m);
        check_query(ch, &cat, &m, &q).map(|_| ())
    }));
    v.push(Suite::new("common-table-expressions", &format!("up to {} common table expressions of {} names, some spelled differently, over each other, tables and themselves, with column lists, a nested WITH that may hide them, used in FROM, IN, a nested query, LIMIT and set operations", if th { 3 } else { 2 }, if th { 4 } else { 3 }), move |ch| {
        let n = ch.range(1, if th { 3 } else { 2 });
        let names: &[&str] = if th { &["c", "t", "D", "C"] } else { &["c", "t", "C"] };
        let refs: &[&str] = &["t", "c", "d", "u", "s.t"];
        let table = |n: &str| n.split('.').map(st).collect::<Vec<_>>();
        let from = |n: &str| Sel { ctes: vec![], core: Core::Query { distinct: false, cols: Cols::All, from: vec![F::Table(table(n), None)], wher: None, group: None }, order: vec![], limit: None };
        let mut ctes = vec![];
        for _ in 0..n {
            let name_ = st(*ch.pick(names));
            let mut q = match ch.choose(3) { 0 => query1(leaf("1")), 1 => from(*ch.pick(refs)), _ => { let mut q = from(*ch.pick(refs)); q.ctes.push(Cte { name: st(*ch.pick(names)), cols: None, q: query1(E::Str("a".into())) }); q } };
            if let Core::Query { cols: Cols::List(l), .. } = &mut q.core { if ch.flag() { if let Col::Expr(_, a) = &mut l[0] { *a = Some(st("a")) } } }
            let cols = match ch.choose(3) { 0 => None, 1 => Some(vec![st("a"), st("b")]), _ => Some(vec![st("A")]) };
            ctes.push(Cte { name: name_, cols, q });
        }
        let r = *ch.pick(refs);
        let mut q = match ch.choose(6) {
            0 => from(r),
            1 => { let mut q = query1(name("a")); if let Core::Query { from, .. } = &mut q.core { from.push(F::Table(table(r), None)) } q }
            2 => query1(E::In(bx(leaf("1")), Set::Name(table(r)))),
            3 => query1(E::Scalar(Box::new(from(r)))),
            4 => { let mut q = query1(leaf("1")); q.limit = Some((leaf("1"), Some(E::Scalar(Box::new(from(r)))))); q }
            _ => { let mut q = from(r); q.core = Core::Op("union", Box::new(q.core.clone()), Box::new(from(*ch.pick(refs)).core)); q }
        };
        q.ctes = ctes;
        with_scopes(|m, cat| check_query(ch, cat, m, &q).map(|_| ()))
    }));
    v.push(Suite::new("default-schema", &format!("every query that deviates from SELECT a FROM t in at most {} clauses, names, aliases, joins, nested queries, common table expressions, set operations and operators, with 8 default schemata: existing ones, differently spelled, missing, named like a table or empty; unqualified, qualified and unknown tables as relation of queries, of IN and of nested queries", if th { 3 } else { 2 }), move |ch| {
        let m = Cat { default: *ch.pick(&["s", "S", "r", "R", "none", "t", "e", ""]), schemata: vec!["s", "r", "e"], ..scopes_catalog() };
        let c = catalog(&m);
        let q = if ch.flag() { Q { ch, budget: if th { 3 } else { 2 }, depth: 2 }.sel() } else {
            let table = |ch: &mut Ch| ch.pick(&["t", "T", "u", "s", "none", "s.t", "r.t", "R.t", "none.t", "e.t"]).split('.').map(st).collect::<Vec<String>>();
            let from = |n: Vec<String>| Sel { ctes: vec![], core: Core::Query { distinct: false, cols: Cols::All, from: vec![F::Table(n, None)], wher: None, group: None }, order: vec![], limit: None };
            let n = table(ch);
            match ch.choose(5) {
                0 => from(n),
                1 => { let mut q = from(n); let o = table(ch); if let Core::Query { from, .. } = &mut q.core { from.push(F::Table(o, Some(st("x")))) } q }
                2 => query1(E::In(bx(leaf("1")), Set::Name(n))),
                3 => query1(E::Scalar(Box::new(from(n)))),
                _ => { let mut q = from(table(ch)); q.ctes.push(Cte { name: st(*ch.pick(&["t", "none", "c"])), cols: None, q: from(n) }); q }
            }
        };
        check_query(ch, &c, &m, &q).map(|_| ())
    }));
    v.push(Suite::new("one-context", "every ordered triple of 42 statements (queries, changes, ill-formed ones; equal aliases and expressions of different meaning) validated one after the other in one context; each answer is the one it has alone", |ch| {
        const S: [&str; 42] = [
            "SELECT a FROM t", "SELECT a FROM u", "SELECT a FROM r.t", "SELECT * FROM t", "SELECT * FROM u", "SELECT t.* FROM t, u", "SELECT * FROM u AS t", "SELECT * FROM t AS u", "SELECT x FROM t", "SELECT a FROM t, u",
            "SELECT a FROM missing", "SELECT * FROM c", "WITH c AS (SELECT a FROM t) SELECT * FROM c", "WITH c AS (SELECT b FROM t) SELECT * FROM c", "WITH t AS (SELECT 1 AS z) SELECT * FROM t", "WITH c AS (SELECT 1), d AS (SELECT * FROM c) SELECT * FROM d", "WITH c AS (SELECT 1 AS a) INSERT INTO u SELECT * FROM c", "WITH c AS (SELECT x) SELECT * FROM c",
            "SELECT 1", "SELECT 'a'", "SELECT 1 + 1", "SELECT a + 1 FROM t", "SELECT a + 1 FROM u", "SELECT a = 1 FROM t", "SELECT a = 1 FROM u", "SELECT (SELECT a FROM t)", "SELECT (SELECT a FROM u)", "SELECT (SELECT b FROM t) FROM u",
            "SELECT * FROM (SELECT a FROM t) AS q", "SELECT * FROM (SELECT b FROM t) AS q", "SELECT q.a FROM u AS q", "SELECT q.b FROM t AS q", "SELECT * FROM q", "SELECT * FROM t LEFT JOIN u ON t.a = u.a", "SELECT * FROM u RIGHT JOIN t ON u", "SELECT a FROM t UNION SELECT a FROM u", "SELECT 1, 2 UNION SELECT 1",
            "UPDATE t SET a = 1", "UPDATE t SET a = NULL", "DELETE FROM u WHERE u", "INSERT INTO t (a) VALUES (1)", "EXPLAIN SELECT b FROM u",
        ];
        let l: Vec<&str> = (0..3).map(|_| *ch.pick(&S)).collect();
        ch.sample(|| l.join("; "));
        with_scopes(|m, cat| {
            let got = ch.must(&format!("validating {}", l.join("; ")), || PARSER.with(|p| p.in_one_context(cat, m.default, &l)))?;
            ch.state(format!("{:?} {:?}", l, got.iter().map(|g| g.as_ref().ok()).collect::<Vec<_>>()).as_bytes());
            for (s, g) in l.iter().zip(&got) {
                let alone = ch.must(&format!("validating {}", s), || PARSER.with(|p| p.in_one_context(cat, m.default, &[s])))?.pop().unwrap();
                ensure!(g.is_ok() == alone.is_ok() && g.as_ref().ok() == alone.as_ref().ok(), "{} validated in a context where {} are validated: {:?}; alone: {:?}", s, l.join("; "), g, alone);
            }
            Ok(())
        })
    }));
    v.push(Suite::new("set-operations", "chains of up to four operands of 9 row types in every combination of operators, with VALUES of up to two rows", move |ch| {
        let operand = |ch: &mut Ch| -> Core {
            let one = |e: &str| vec![leaf(e)];
            match ch.choose(9) {
                0 => Core::Values(vec![one("1")]), 1 => Core::Values(vec![one("'a'")]), 2 => Core::Values(vec![one("1"), one("1")]), 3 => Core::Values(vec![one("1"), one("'a'")]), 4 => Core::Values(vec![vec![leaf("1"), leaf("'a'")]]),
                5 => Core::Values(vec![vec![leaf("1"), leaf("'a'")], one("1")]), 6 => Core::Values(vec![one("1"), vec![leaf("1"), leaf("1")]]),
                k => { let mut q = query1(name(if k == 7 { "a" } else { "c" })); if let Core::Query { from, .. } = &mut q.core { from.push(F::Table(vec![st("u")], None)) } q.core }
            }
        };
        let n = ch.range(1, if th { 4 } else { 3 });
        let mut core = operand(ch);
        for _ in 1..n { let r = operand(ch); core = Core::Op(*ch.pick(&["union", "unionall", "intersect", "except"]), Box::new(core), Box::new(r)) }
        let q = Sel { ctes: vec![], core, order: vec![], limit: None };
        let q = match ch.choose(3) { 0 => q, 1 => Sel { ctes: vec![], core: Core::Query { distinct: false, cols: Cols::All, from: vec![F::Sub(Box::new(q), Some(st("x")))], wher: None, group: None }, order: vec![], limit: None },
            _ => query1(E::In(bx(leaf("1")), Set::Sel(Box::new(q)))) };
        with_scopes(|m, cat| check_query(ch, cat, m, &q).map(|_| ()))
    }));
    v.push(Suite::new("clauses", "WHERE, ON, GROUP BY, HAVING, ORDER BY, LIMIT and OFFSET with 16 operands each, one or two of them at a time, over a query with renamed columns", |ch| {
        let operand = |ch: &mut Ch| match ch.choose(16) { 0 => name("a"), 1 => name("b"), 2 => name("x"), 3 => leaf("1"), 4 => leaf("'a'"), 5 => E::Null, 6 => E::Cmp("=", bx(name("a")), bx(leaf("1"))), 7 => E::Cmp("=", bx(name("x")), bx(leaf("'a'"))), 8 => E::Tuple(vec![name("a"), name("b")]),
            9 => E::Name(vec![st("t"), st("a")]), 10 => E::Name(vec![st("T"), st("c")]), 11 => E::Name(vec![st("u"), st("a")]), 12 => E::IsNull(bx(name("b"))), 13 => E::Scalar(Box::new(query1(leaf("1")))), 14 => { let mut q = query1(name("a")); if let Core::Query { from, .. } = &mut q.core { from.push(F::Table(vec![st("u")], None)) } E::Scalar(Box::new(q)) } _ => E::Bin("+", bx(name("c")), bx(leaf("1"))) };
        let cols = match ch.choose(4) { 0 => Cols::All, 1 => Cols::List(vec![Col::Expr(name("b"), Some(st("x")))]), 2 => Cols::List(vec![Col::Expr(name("b"), Some(st("a"))), Col::Expr(leaf("1"), Some(st("c")))]), _ => Cols::List(vec![Col::Expr(name("a"), None)]) };
        let mut from = vec![F::Table(vec![st("t")], None)];
        let (mut wher, mut group, mut order, mut limit) = (None, None, vec![], None);
        for _ in 0..2 {
            let e = match ch.choose(7) { 6 => continue, k => { let e = operand(ch); (k, e) } };
            match e.0 {
                0 => wher = Some(e.1), 1 => from = vec![F::Join { kind: "join", jt: "inner", l: Box::new(F::Table(vec![st("t")], None)), r: Box::new(F::Table(vec![st("u")], Some(st("w")))), c: Jc::On(e.1) }],
                2 => group = Some((vec![e.1], if ch.flag() { Some(operand(ch)) } else { None })), 3 => order.push(By { e: e.1, coll: None, desc: ch.flag() }), 4 => limit = Some((e.1, None)), _ => limit = Some((leaf("1"), Some(e.1))),
            }
        }
        let q = Sel { ctes: vec![], core: Core::Query { distinct: false, cols, from, wher, group }, order, limit };
        with_scopes(|m, cat| check_query(ch, cat, m, &q).map(|_| ()))
    }));
    v
}
fn with_scopes(f: impl FnOnce(&Cat, &v::Catalog) -> Res) -> Res {
    SCOPES.with(|c| {
        let mut c = c.borrow_mut();
        let (m, cat) = c.get_or_insert_with(|| { let m = scopes_catalog(); let k = catalog(&m); (m, k) });
        f(m, cat)
    })
}
