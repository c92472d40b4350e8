//! C16, C17, C18 at scale: many columns, elements, rows, tables and levels, with one that deviates at any place.
use crate::c_typing::*;
use crate::engine::*;
use crate::sqlast::*;
use crate::sqltype::*;
use Ty::*;

fn st(s: &str) -> String { s.to_string() }
fn bx(e: E) -> Box<E> { Box::new(e) }
fn name(s: &str) -> E { E::Name(vec![s.into()]) }
fn of(t: &str, c: &str) -> E { E::Name(vec![t.into(), c.into()]) }
fn num(i: usize) -> E { E::Num(i.to_string()) }
fn is_one() -> E { E::Cmp("=", bx(num(1)), bx(num(1))) }
/// NUMERIC, may be null, without any column.
fn maybe() -> E { E::Case(None, vec![(is_one(), num(1))], None) }
fn table(t: &str) -> F { F::Table(vec![st(t)], None) }
fn query(cols: Cols, from: Vec<F>) -> Core { Core::Query { distinct: false, cols, from, wher: None, group: None } }
fn list(v: Vec<E>) -> Cols { Cols::List(v.into_iter().map(|e| Col::Expr(e, None)).collect()) }
fn sel(core: Core) -> Sel { Sel { ctes: vec![], core, order: vec![], limit: None } }
fn all_of(t: &str) -> Sel { sel(query(Cols::All, vec![table(t)])) }

fn sizes(th: bool) -> Vec<usize> { let mut v: Vec<usize> = (1..=if th { 40 } else { 20 }).collect(); v.extend([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]); if th { v.extend([300, 512, 513, 1000, 1024, 1025]) } v.sort(); v.dedup(); v }
/// All places among n, or for many the interesting ones.
fn place(ch: &mut Ch, n: usize) -> usize {
    if n <= 33 { return ch.choose(n); }
    let mut v = vec![0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, n / 2, n - 2, n - 1];
    v.retain(|k| *k < n); v.sort(); v.dedup();
    *ch.pick(&v)
}

pub fn c16(th: bool) -> Vec<Suite> {
    let sz = sizes(th);
    vec![Suite::new("many-operands", &format!("lists, tuples, conditionals, chains of operators and nested expressions of each of {} numbers of elements up to {}, in which one at each place is of another type, may be null, is undefined or is a tuple", sz.len(), sz.last().unwrap()), move |ch| {
        let n = *ch.pick(&sz);
        let odd = match ch.choose(9) { 0 => name("n"), 1 => name("m"), 2 => name("v"), 3 => name("l"), 4 => name("k"), 5 => name("zz"), 6 => E::Tuple(vec![num(1), num(2)]), 7 => E::Scalar(Box::new(sel(query(list(vec![num(1)]), vec![])))), _ => name("d") };
        let k = place(ch, n);
        let mk = |plain: &dyn Fn(usize) -> E| -> Vec<E> { (0..n).map(|i| if i == k { odd.clone() } else { plain(i) }).collect() };
        let nums = || mk(&num);
        let bools = || mk(&|_| name("l"));
        let chain = |op: &'static str, v: Vec<E>| { let mut it = v.into_iter(); let mut e = it.next().unwrap(); for x in it { e = E::Bin(op, bx(e), bx(x)) } e };
        let right = |op: &'static str, v: Vec<E>| { let mut it = v.into_iter().rev(); let mut e = it.next().unwrap(); for x in it { e = E::Bin(op, bx(x), bx(e)) } e };
        let kind = ch.choose(19);
        if n > 65 && matches!(kind, 9..=13) { return Err(Stop::Skip); }
        let e = match kind {
            0 => E::In(bx(name("n")), Set::List(nums())),
            1 => E::Case(None, nums().into_iter().map(|x| (name("l"), x)).collect(), Some(bx(num(1)))),
            2 => E::Case(None, bools().into_iter().map(|x| (x, num(1))).collect(), Some(bx(num(1)))),
            3 => E::Case(Some(bx(name("n"))), nums().into_iter().map(|x| (x, num(1))).collect(), Some(bx(num(1)))),
            4 => { if n < 2 { return Err(Stop::Skip); } E::Cmp("=", bx(E::Tuple((0..n).map(num).collect())), bx(E::Tuple(nums()))) }
            5 => chain("+", nums()), 6 => chain("and", bools()), 7 => right("-", nums()), 8 => right("or", bools()),
            // nesting: what deviates is at depth k
            9 => { let mut e = name("l"); for i in 0..n { e = E::Not(bx(if i == k { E::Bin("and", bx(e), bx(odd.clone())) } else { e })) } e }
            10 => { let mut e = num(0); for i in 0..n { e = E::Neg(bx(if i == k { E::Bin("*", bx(e), bx(odd.clone())) } else { e })) } e }
            11 => { let mut e = num(0); for i in 0..n { e = E::Case(None, vec![(name("l"), if i == k { odd.clone() } else { num(i) })], Some(bx(e))) } e }
            12 => { let mut e = num(0); for i in 0..n { e = E::Scalar(Box::new(sel(query(list(vec![if i == k { E::Bin("+", bx(e), bx(match &odd { E::Name(_) => maybe(), o => o.clone() })) } else { e }]), vec![])))) } e }
            13 => { let mut e = num(0); let mut b = num(0); for i in 0..n { let x = if i == k { odd.clone() } else { num(i) }; if i % 2 == 0 { e = E::Bin("+", bx(x), bx(e)) } else { b = E::Bin("-", bx(b), bx(x)) } } E::Between(bx(e), bx(b), bx(num(1))) }
            14 => chain("||", mk(&|_| name("v"))),
            15 => { if n < 2 { return Err(Stop::Skip); } let a = sel(Core::Values(mk(&num).into_iter().map(|e| vec![match e { E::Name(_) => maybe(), e => e }]).collect())); E::In(bx(name("n")), Set::Sel(Box::new(a))) }
            16 => E::Case(Some(bx(name("n"))), nums().into_iter().map(|x| (num(1), x)).collect(), Some(bx(num(1)))),
            17 => { if n < 2 { return Err(Stop::Skip); } let short = E::Tuple((1..n).map(num).collect()); let long = E::Tuple(nums()); if ch.flag() { E::Cmp("=", bx(short), bx(long)) } else { E::Cmp("=", bx(long), bx(short)) } }
            _ => { let mut o = num(0); let mut l = bools().into_iter(); if let Some(f) = l.next() { o = f } for x in l { o = E::Bin("or", bx(o), bx(E::Bin("and", bx(x.clone()), bx(E::Not(bx(x)))))) } o }
        };
        check_expr(ch, &e)
    }), rich_operands(th)]
}

/// Operands of all kinds: columns, nested queries, conditionals, tests, tuples.
fn operands() -> Vec<E> {
    let mut v: Vec<E> = "n m v w l k d e g y".split(' ').map(name).collect();
    let q = |e: E| sel(query(list(vec![e]), vec![table("t")]));
    for c in ["n", "m", "v", "w", "l", "k"] { v.push(E::Scalar(Box::new(q(name(c))))) }
    v.push(E::Scalar(Box::new(sel(query(list(vec![num(1)]), vec![])))));
    v.push(E::Scalar(Box::new(sel(query(list(vec![E::Null]), vec![])))));
    v.push(E::Scalar(Box::new(sel(query(list(vec![num(1), num(1)]), vec![])))));
    v.push(E::Scalar(Box::new(sel(Core::Values(vec![vec![num(1)], vec![maybe()]])))));
    v.push(E::Scalar(Box::new(sel(Core::Op("union", bx2(query(list(vec![name("n")]), vec![table("t")])), bx2(query(list(vec![name("m")]), vec![table("t")])))))));
    let mut o = q(name("m")); o.order = vec![By { e: name("m"), coll: None, desc: true }]; o.limit = Some((num(1), None)); v.push(E::Scalar(Box::new(o)));
    v.push(E::Scalar(Box::new(all_of("onem"))));
    v.push(maybe());
    v.push(E::Case(Some(bx(name("m"))), vec![(num(1), name("v"))], Some(bx(name("w")))));
    v.push(E::Case(None, vec![(name("k"), name("l"))], Some(bx(name("l")))));
    v.push(E::In(bx(name("m")), Set::List(vec![])));
    v.push(E::In(bx(name("n")), Set::List(vec![num(1), name("m")])));
    v.push(E::Between(bx(name("n")), bx(num(1)), bx(name("m"))));
    v.push(E::Cmp("like", bx(name("v")), bx(name("w"))));
    v.push(E::IsNull(bx(name("w"))));
    v.push(E::Not(bx(name("k"))));
    v.push(E::Neg(bx(name("m"))));
    v.push(E::Bin("+", bx(name("n")), bx(num(1))));
    v.push(E::Bin("||", bx(name("v")), bx(name("w"))));
    v.push(E::Tuple(vec![name("n"), num(1)]));
    v.push(E::Tuple(vec![name("n"), name("m"), num(1)]));
    v.push(E::Tuple(vec![name("n"), E::Tuple(vec![name("n"), name("m")])]));
    v.push(E::Null);
    v.push(E::Ts("2020-01-01 10:00".into()));
    v.push(name("zz"));
    v
}
fn bx2(c: Core) -> Box<Core> { Box::new(c) }
fn rich_operands(th: bool) -> Suite {
    let ops = operands();
    Suite::new("rich-operands", &format!("every construct with plain operands, of which any one{} is replaced by each of {} kinds of operands: columns, nested queries of all forms, conditionals, tests, tuples of several lengths", if th { ", two or three" } else { " or two" }, ops.len()), move |ch| {
        let bins = ["*", "/", "+", "-", "||", "and", "or"];
        let cmps = ["=", "!=", "<", "<=", ">", ">=", "like"];
        let (n, v, l) = (|| name("n"), || name("v"), || name("l"));
        // the construct with its plain operands
        let k = ch.choose(47);
        let mut a: Vec<E> = match k {
            0 => vec![n()], 1 => vec![l()], 2 => vec![n()],
            3..=6 => vec![n(), n()], 7 => vec![v(), v()], 8 | 9 => vec![l(), l()],
            10..=15 => vec![n(), n()], 16 => vec![v(), v()],
            17 => vec![n(), n(), n()],
            18 => vec![n()], 19 => vec![n(), n()], 20 => vec![n(), n(), n()], 21 => vec![n(), n(), n(), n()],
            22 | 23 | 24 => vec![n()],
            25 => vec![l(), n()], 26 => vec![l(), n(), n()], 27 => vec![l(), n(), l(), n()], 28 => vec![l(), n(), l(), n(), n()], 29 => vec![l(), n(), l(), n(), l(), n(), n()],
            30 => vec![n(), n(), n()], 31 => vec![n(), n(), n(), n()], 32 => vec![n(), n(), n(), n(), n()], 33 => vec![n(), n(), n(), n(), n(), n()], 34 => vec![n(), n(), n(), n(), n(), n(), n(), n()],
            // tuples of 2 and 3, equal and unequal in length
            35 => vec![n(); 4], 36 | 37 => vec![n(); 5], 38 => vec![n(); 6],
            39 => vec![v(), v(), v()], 40 => vec![n(), n()], 41 => vec![n()], 42 => vec![l(), l(), l()],
            // conditionals with tuples as results
            43 => vec![n(); 6], 44 => vec![n(); 8], 45 => vec![n(), v(), n(), v(), n(), v()], _ => vec![n(); 8],
        };
        let mut at = ch.choose(a.len());
        a[at] = ch.pick(&ops).clone();
        for _ in 1..if th { if a.len() > 4 { 2 } else { 3 } } else { 2 } { if at + 1 < a.len() && ch.flag() { at = at + 1 + ch.choose(a.len() - at - 1); a[at] = ch.pick(&ops).clone(); } }
        let mut it = a.into_iter();
        let len = it.len();
        let mut x = || it.next().unwrap();
        let e = match k {
            0 => E::Neg(bx(x())), 1 => E::Not(bx(x())), 2 => E::IsNull(bx(x())),
            3..=9 => { let op = bins[k - 3]; let a = x(); E::Bin(op, bx(a), bx(x())) }
            10..=16 => { let op = cmps[k - 10]; let a = x(); E::Cmp(op, bx(a), bx(x())) }
            17 | 39 => { let a = x(); let b = x(); E::Between(bx(a), bx(b), bx(x())) }
            18..=21 => { let a = x(); E::In(bx(a), Set::List((1..len).map(|_| x()).collect())) }
            22 => E::In(bx(x()), Set::Name(vec![st("one")])), 23 => E::In(bx(x()), Set::Sel(Box::new(all_of("one")))), 24 => E::In(bx(x()), Set::Sel(Box::new(sel(query(list(vec![name("m")]), vec![table("t")]))))),
            25..=29 => { let w = (0..len / 2).map(|_| { let g = x(); (g, x()) }).collect(); E::Case(None, w, if len % 2 == 1 { Some(bx(x())) } else { None }) }
            30..=34 => { let s = x(); let w = (0..(len - 1) / 2).map(|_| { let g = x(); (g, x()) }).collect(); E::Case(Some(bx(s)), w, if len % 2 == 0 { Some(bx(x())) } else { None }) }
            35..=38 => { let l = if k == 36 || k == 35 { 2 } else { 3 }; let a = E::Tuple((0..l).map(|_| x()).collect()); E::Cmp(if k == 37 { "!=" } else { "=" }, bx(a), bx(E::Tuple((l..len).map(|_| x()).collect()))) }
            40 => E::Tuple(vec![x(), x()]), 41 => x(),
            43..=46 => {
                let mut t = || { let a = x(); E::Tuple(vec![a, x()]) };
                let test = || name("l");
                match k {
                    43 | 45 => { let c = E::Case(None, vec![(test(), t())], Some(bx(t()))); E::Cmp("=", bx(c), bx(t())) }
                    44 => { let c = E::Case(None, vec![(test(), t()), (test(), t())], Some(bx(t()))); E::Cmp("=", bx(t()), bx(c)) }
                    _ => { let c = E::Case(Some(bx(name("n"))), vec![(num(1), t())], Some(bx(t()))); E::In(bx(t()), Set::List(vec![t(), c])) }
                }
            }
            _ => { let a = x(); let b = x(); E::Bin("or", bx(a), bx(E::Bin("and", bx(b), bx(E::Not(bx(x())))))) }
        };
        check_expr(ch, &e)
    })
}

/// Columns of all ordered types; every third may be null, or all but one.
fn columns(n: usize, nulls: usize) -> Vec<(String, Ty, bool)> {
    const TYS: &[Ty] = &[Numeric, Varchar, Date, Numeric, Time, Timestamp, Varchar];
    (0..n).map(|i| (format!("c{}", i), TYS[i % TYS.len()], match nulls { 0 => false, 1 => i % 3 == 1, _ => true })).collect()
}
fn value_of(ty: Ty) -> E { match ty { Numeric => num(1), Varchar => E::Str("a".into()), Date => E::CurDate, Time => E::CurTime, Timestamp => E::CurTs, _ => is_one() } }
/// A nullable value of the type.
fn null_of(ty: Ty) -> E { E::Case(None, vec![(is_one(), value_of(ty))], None) }
fn model(tables: Vec<(&'static str, Vec<(String, Ty, bool)>)>) -> Cat { Cat { schemata: vec!["s"], default: "s", tables: tables.into_iter().map(|(name, cols)| Table { schema: "s", name, cols }).collect() } }

pub fn c17(th: bool) -> Vec<Suite> {
    let sz = sizes(th);
    vec![Suite::new("many-columns", &format!("INSERT (with and without column names, in order and reversed, one or several rows, from a query), UPDATE (separate and common assignments) and DELETE for tables of each of {} numbers of columns up to {}, in which one column at each place is left out, repeated, unknown, given null or another type", sz.len(), sz.last().unwrap()), move |ch| {
        let n = *ch.pick(&sz);
        let nulls = ch.choose(3);
        let cols = columns(n, nulls);
        let k = place(ch, n);
        // what is wrong, if anything
        let defect = ch.choose(7);
        let kind = ch.choose(9);
        let value = |i: usize| -> E { if i != k { value_of(cols[i].1) } else { match defect { 1 => null_of(cols[i].1), 2 => E::IsNull(bx(num(1))), 3 => E::Tuple(vec![num(1), num(1)]), _ => value_of(cols[i].1) } } };
        let spelled = |i: usize| -> String { if i == k && defect == 4 { st("x") } else if i == k && defect == 5 { format!("C{}", if k == 0 { n - 1 } else { k - 1 }) } else if i % 5 == 2 { format!("C{}", i) } else { format!("c{}", i) } };
        let at: Vec<usize> = (0..n).filter(|i| *i != k || defect != 6).collect();
        let rev: Vec<usize> = at.iter().rev().cloned().collect();
        let ins = |cols: Option<Vec<String>>, src: Core| St::Insert { ctes: vec![], table: vec![st("t")], cols, src };
        if at.is_empty() { return Err(Stop::Skip); }
        let s = match kind {
            0 => ins(None, Core::Values(vec![at.iter().map(|i| value(*i)).collect()])),
            1 => ins(Some(at.iter().map(|i| spelled(*i)).collect()), Core::Values(vec![at.iter().map(|i| value(*i)).collect()])),
            2 => ins(Some(rev.iter().map(|i| spelled(*i)).collect()), Core::Values(vec![rev.iter().map(|i| value(*i)).collect()])),
            // several rows of which one deviates
            3 => { if n > 65 || defect > 3 && defect != 6 { return Err(Stop::Skip); } ins(None, Core::Values((0..n).map(|r| if r == k { at.iter().map(|i| value(*i)).collect() } else { (0..n).map(|i| value_of(cols[i].1)).collect() }).collect())) }
            4 => ins(Some(rev.iter().map(|i| spelled(*i)).collect()), query(list(rev.iter().map(|i| match value(*i) { E::Tuple(l) => E::Tuple(l), e if defect != 0 => e, _ => name(&format!("c{}", i)) }).collect()), vec![table("t")])),
            5 => St::Update { ctes: vec![], table: vec![st("t")], set: at.iter().map(|i| (vec![spelled(*i)], value(*i))).collect(), wher: None },
            // one assignment to all columns of one type
            6 => { let l: Vec<usize> = at.iter().cloned().filter(|i| *i == k || cols[*i].1 == cols[k].1).collect(); if l.is_empty() { return Err(Stop::Skip); } St::Update { ctes: vec![], table: vec![st("t")], set: vec![(l.iter().map(|i| spelled(*i)).collect(), value(k))], wher: None } }
            7 => { if defect > 2 { return Err(Stop::Skip); } St::Delete { ctes: vec![], table: vec![st("t")], wher: Some(E::Cmp("=", bx(name(&spelled(k))), bx(value(k)))) } }
            _ => { if defect != 0 && defect != 4 { return Err(Stop::Skip); } let mut e = is_one(); for i in &at { e = E::Bin("and", bx(e), bx(E::Cmp("=", bx(of("T", &spelled(*i))), bx(value(*i))))) } St::Update { ctes: vec![], table: vec![st("t")], set: vec![(vec![st("c0")], value_of(cols[0].1))], wher: Some(e) } }
        };
        let m = model(vec![("t", cols.clone())]);
        let c = catalog(&m);
        check_statement(ch, &c, &m, &Top::St(s))
    })]
}

pub fn c18(th: bool) -> Vec<Suite> {
    let sz = sizes(th);
    let mut v = vec![];
    {
        let sz = sz.clone();
        v.push(Suite::new("many-columns", &format!("queries over tables of each of {} numbers of columns up to {}: all columns, through aliases, nested queries, common table expressions with column lists in other orders, set operations and joins; result lists of many columns, named, unnamed or with equal names; one column at each place deviating", sz.len(), sz.last().unwrap()), move |ch| {
            let n = *ch.pick(&sz);
            let cols = columns(n, 1);
            let k = place(ch, n);
            let names: Vec<String> = cols.iter().map(|c| c.0.clone()).collect();
            let mut other = cols.clone();
            other[k].1 = if other[k].1 == Numeric { Varchar } else { Numeric };
            let mut same = cols.clone(); same[k].2 = !same[k].2;
            let m = model(vec![("t", cols.clone()), ("u", other), ("w", same)]);
            let sub = |q: Sel| F::Sub(Box::new(q), Some(st("x")));
            let op = |ch: &mut Ch| *ch.pick(&["union", "unionall", "intersect", "except"]);
            let q = match ch.choose(16) {
                0 => all_of("t"),
                1 => sel(query(list(vec![name(&names[k])]), vec![sub(all_of("w"))])),
                2 => { let mut q = all_of("c"); let mut l = names.clone(); l.swap(k, n - 1); q.ctes.push(Cte { name: st("c"), cols: Some(l), q: all_of("t") }); q }
                3 => { let mut q = all_of("c"); let mut l = names.clone(); l.rotate_left(k); q.ctes.push(Cte { name: st("c"), cols: Some(l), q: all_of("t") }); q }
                4 => sel(Core::Op(op(ch), Box::new(all_of("t").core), Box::new(all_of("u").core))),
                5 => sel(Core::Op(op(ch), Box::new(all_of("t").core), Box::new(all_of("w").core))),
                6 => { let mut l: Vec<E> = names.iter().map(|n| name(n)).collect(); if n < 2 { return Err(Stop::Skip); } l.remove(k); sel(Core::Op(op(ch), Box::new(all_of("t").core), Box::new(query(list(l), vec![table("t")])))) }
                7 => { let jt = *ch.pick(&["inner", "left", "right", "full"]); sel(query(Cols::All, vec![F::Join { kind: "join", jt, l: Box::new(table("t")), r: Box::new(sub(sel(query(Cols::List((0..n).map(|i| Col::Expr(name(&names[i]), Some(format!("d{}", i)))).collect()), vec![table("w")])))), c: Jc::On(E::Cmp("=", bx(name(&names[k])), bx(name(&format!("d{}", k))))) }])) }
                // columns without names, and with equal ones
                8 => sel(query(list((0..n).map(|i| if i == k { name(&names[k]) } else { num(i) }).collect()), vec![table("t")])),
                9 => sel(query(Cols::List((0..n).map(|i| Col::Expr(if i == k { E::Str("a".into()) } else { num(i) }, Some(st(["a", "A"][i % 2])))).collect()), vec![])),
                10 => sel(query(Cols::List((0..n).map(|i| Col::Expr(num(i), if i == k { Some(format!("col{}", n - i)) } else { None })).collect()), vec![])),
                11 => sel(query(Cols::List((0..n).map(|i| if i == k { Col::AllFrom(st("T")) } else { Col::Expr(name(&names[i]), Some(format!("d{}", i))) }).collect()), vec![table("t")])),
                12 => sel(query(list(vec![if ch.flag() { of("t", &names[k].to_uppercase()) } else { name(&names[k]) }]), vec![table("t"), table("w")])),
                13 => { let mut q = all_of("t"); q.order = (0..n).map(|i| By { e: if i == k { match ch.choose(3) { 0 => E::Tuple(vec![num(1), num(2)]), 1 => name("zz"), _ => of("t", &names[i]) } } else { name(&names[i]) }, coll: None, desc: i % 2 == 0 }).collect(); q }
                14 => { let e = match ch.choose(3) { 0 => name("zz"), 1 => of("x", "c0"), _ => of("t", &names[k]) }; sel(Core::Query { distinct: false, cols: list(vec![name(&names[k])]), from: vec![table("t")], wher: None, group: Some(((0..n).map(|i| if i == k { e.clone() } else { name(&names[i]) }).collect(), None)) }) }
                _ => { let vals = |d: usize| -> Vec<E> { (0..n).map(|i| if i == k { match d { 0 => value_of(cols[i].1), 1 => null_of(cols[i].1), _ => E::IsNull(bx(num(1))) } } else { value_of(cols[i].1) }).collect() }; let a = ch.choose(3); let b = ch.choose(3); sel(Core::Values(vec![vals(a), vals(b)])) }
            };
            let c = catalog(&m);
            check_query(ch, &c, &m, &q).map(|_| ())
        }));
    }
    v.push(Suite::new("many-parts", &format!("chains of set operations, rows of VALUES, common table expressions, nested queries, tables and joins of each of {} numbers up to {}, one of which at each place deviates in type, nullability, length or name", sz.len(), sz.last().unwrap()), move |ch| {
        let n = *ch.pick(&sz);
        let k = place(ch, n);
        let m = model(vec![("t", vec![(st("a"), Numeric, false), (st("b"), Varchar, true)]), ("u", vec![(st("c"), Numeric, true)])]);
        let odd = |ch: &mut Ch| match ch.choose(4) { 0 => num(1), 1 => maybe(), 2 => E::Str("a".into()), _ => name("zz") };
        let kind = ch.choose(12);
        if n > 65 && kind >= 2 && kind != 7 { return Err(Stop::Skip); }
        let q = match kind {
            0 => { let o = odd(ch); let two = ch.flag(); sel(Core::Values((0..n).map(|i| if i == k { let mut r = vec![o.clone()]; if two { r.push(num(1)) } r } else { vec![num(i)] }).collect())) }
            1 => { let o = odd(ch); let two = ch.flag(); let mut c: Option<Core> = None; for i in 0..n { let x = if i == k { query(list(if two { vec![o.clone(), num(1)] } else { vec![o.clone()] }), vec![]) } else { query(list(vec![num(i)]), vec![]) }; c = Some(match c { None => x, Some(l) => Core::Op(["union", "unionall", "intersect", "except"][i % 4], Box::new(l), Box::new(x)) }) } sel(c.unwrap()) }
            // each common table expression over its predecessor; the result from the k-th
            2 => { let o = odd(ch); let mut q = all_of(&format!("d{}", k)); q.ctes = (0..n).map(|i| Cte { name: format!("d{}", i), cols: None, q: if i == 0 { sel(query(Cols::List(vec![Col::Expr(o.clone(), Some(st("a")))]), vec![])) } else { all_of(&format!("D{}", i - 1)) } }).collect(); q }
            3 => { let mut q = all_of("e"); let r = match ch.choose(3) { 0 => format!("d{}", k), 1 => format!("d{}", n), _ => st("t") }; q.ctes = (0..n).map(|i| Cte { name: if i == k { st(["e", "t"][ch.choose(2)]) } else { format!("d{}", i) }, cols: None, q: all_of(if i == 0 { "t" } else { &r }) }).collect(); q }
            // nested queries; at depth k the column changes
            4 => { let o = odd(ch); let mut q = all_of("t"); for i in 0..n { let l = if i == k { Cols::List(vec![Col::Expr(o.clone(), Some(st("a")))]) } else if i % 2 == 0 { Cols::All } else { Cols::List(vec![Col::Expr(name("a"), None)]) }; q = sel(query(l, vec![F::Sub(Box::new(q), if i % 3 == 0 { Some(st("x")) } else { None })])) } q }
            // a name is renamed on every level; asking for the right or another one
            5 => { let mut q = all_of("t"); let ask = ch.choose(3); for i in 0..n { let from = if i == 0 { st("a") } else { format!("a{}", i - 1) }; let e = if i == k { match ask { 0 => name(&from), 1 => name("a"), _ => name(&format!("a{}", i)) } } else { name(&from) }; q = sel(query(Cols::List(vec![Col::Expr(e, Some(format!("a{}", i)))]), vec![F::Sub(Box::new(q), None)])) } q }
            // many tables
            6 => { let dup = ch.choose(3); let from: Vec<F> = (0..n).map(|i| F::Table(vec![st(if i == k { "t" } else { "u" })], Some(if dup == 1 && i == k { format!("X{}", n - 1 - i) } else { format!("x{}", i) }))).collect(); sel(query(list(vec![if dup == 2 { name("c") } else { name("a") }]), from)) }
            7 => { let from: Vec<F> = (0..n).map(|i| F::Table(vec![st(if i == k { "t" } else { "u" })], Some(format!("x{}", i)))).collect(); sel(query(match ch.choose(3) { 0 => Cols::All, 1 => Cols::List(vec![Col::AllFrom(format!("X{}", k))]), _ => list(vec![of(&format!("x{}", k), ["a", "c"][ch.choose(2)])]) }, from)) }
            8 | 9 => {
                let jt = *ch.pick(&["left", "right", "full"]);
                let mut f = F::Table(vec![st("t")], Some(st("x0")));
                for i in 1..n { let r = F::Table(vec![st("t")], Some(format!("x{}", i))); let (l, r) = if kind == 8 { (f, r) } else { (r, f) }; f = F::Join { kind: "join", jt: if i == k { jt } else { "inner" }, l: Box::new(l), r: Box::new(r), c: Jc::On(E::Cmp("=", bx(of(&format!("x{}", i), "a")), bx(of(&format!("x{}", if kind == 8 { 0 } else { i - 1 }), "a")))) } }
                sel(query(list((0..n).map(|i| of(&format!("x{}", i), if i % 4 == 3 { "b" } else { "a" })).collect()), vec![f]))
            }
            // nested WITH that hides and shows a name again
            10 => { let mut q = all_of("d"); for i in 0..n { q.ctes = vec![Cte { name: if i == k { st("d") } else { format!("e{}", i) }, cols: None, q: if i % 2 == 0 { sel(query(list(vec![num(1)]), vec![])) } else { all_of("u") } }]; q = sel(query(Cols::All, vec![F::Sub(Box::new(q), None)])) } q }
            _ => { let mut e = E::In(bx(num(1)), Set::Name(vec![st("u")])); for i in 0..n { let mut q = sel(query(list(vec![num(i)]), vec![table(if i == k { "zz" } else { "t" })])); if i == k && ch.flag() { q = all_of("u") } if let Core::Query { wher, .. } = &mut q.core { *wher = Some(e) } e = E::In(bx(num(1)), Set::Sel(Box::new(q))) } sel(query(list(vec![e]), vec![])) }
        };
        let c = catalog(&m);
        check_query(ch, &c, &m, &q).map(|_| ())
    }));
    v.push(Suite::new("values", "VALUES of up to 3 rows of up to 2 elements out of 9 (numbers, strings, nullable ones, NULL, dates, truth values, tuples, nested queries), alone, nested, in IN, in a set operation with itself and as a common table expression", move |ch| {
        let el = |ch: &mut Ch, n: usize| match ch.choose(n) { 0 => num(1), 1 => null_of(Numeric), 2 => E::Str("a".into()), 3 => null_of(Varchar), 4 => E::CurDate, 5 => is_one(), 6 => E::Null, 7 => E::Tuple(vec![num(1), num(1)]), _ => E::Scalar(Box::new(sel(query(list(vec![num(1)]), vec![])))) };
        let rows = ch.range(1, 3);
        let first = ch.range(1, 2);
        let many = if rows * first > 4 { if th { 7 } else { 4 } } else { 9 };
        let mut v = vec![];
        for i in 0..rows { let len = if i > 0 && first == 1 && ch.flag() { 2 } else { first }; v.push((0..len).map(|_| el(ch, many)).collect()) }
        let q = sel(Core::Values(v));
        let q = match ch.choose(5) { 0 => q, 1 => sel(query(Cols::All, vec![F::Sub(Box::new(q), None)])), 2 => sel(query(list(vec![E::In(bx(num(1)), Set::Sel(Box::new(q)))]), vec![])), 3 => sel(Core::Op("union", Box::new(Core::Values(vec![vec![num(1)]])), Box::new(q.core))),
            _ => { let mut o = all_of("c"); o.ctes.push(Cte { name: st("c"), cols: None, q }); o } };
        let m = model(vec![]);
        let c = catalog(&m);
        check_query(ch, &c, &m, &q).map(|_| ())
    }));
    v
}
