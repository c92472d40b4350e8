//! C13, C14, C15: SQL parsing and names.
use crate::engine::*;
use crate::ensure;
use crate::sqlast::*;
use cathlamet::sql::verif as v;
use std::cmp::Ordering;

thread_local! { static PARSER: v::Parser = v::Parser::new(); }
pub fn real(ch: &mut Ch, s: &str) -> Result<Option<String>, Stop> {
    ch.must(&format!("parsing {:?}", s), || PARSER.with(|p| p.parse(s).ok()))
}
/// The parser's answer for a text must be the expected tree (None: not in the language).
fn expect(ch: &mut Ch, s: &str, want: Option<&Top>) -> Res {
    let got = real(ch, s)?;
    let wanted = want.map(dump);
    ch.state(got.as_deref().unwrap_or("error").as_bytes());
    if got == wanted { return Ok(()); }
    fail(format!("{}\n  expected {}\n  got      {}", s, wanted.unwrap_or("an error".into()), got.unwrap_or("an error".into())))
}
/// The text of a statement is parsed to that statement.
pub fn same_tree(ch: &mut Ch, t: &Top) -> Res { let s = crate::c_typing::text_of(t); ch.sample(|| s.clone()); expect(ch, &s, Some(t)) }
fn agree(ch: &mut Ch, s: &str) -> Res { let t = parse(s); expect(ch, s, t.as_ref()) }

/// Enumerates spellings with at most `dev` deviations from the plainest one.
fn spelled<'x, 'y>(ch: &'x mut Ch<'y>, mut dev: usize) -> impl FnMut(&'static str, usize) -> usize + use<'x, 'y> {
    move |_, n| { if dev == 0 { return 0; } let c = ch.choose(n); if c > 0 { dev -= 1 } c }
}

pub struct G<'a, 'b> { pub ch: &'a mut Ch<'b>, pub budget: usize, n: usize }
fn bx(e: E) -> Box<E> { Box::new(e) }
const CMPS: &[&str] = &["=", "!=", "<", "<=", ">", ">=", "like"];
const BINS: &[&str] = &["*", "/", "+", "-", "||", "and", "or"];
impl<'a, 'b> G<'a, 'b> {
    pub fn new(ch: &'a mut Ch<'b>, budget: usize) -> Self { G { ch, budget, n: 0 } }
    fn id(&mut self) -> String { self.n += 1; format!("n{}", self.n) }
    fn opt(&mut self, cost: usize) -> bool { self.alt(&[0, cost]) == 1 }
    /// One of the alternatives that the budget allows.
    fn alt(&mut self, costs: &[usize]) -> usize {
        let ok: Vec<usize> = (0..costs.len()).filter(|i| costs[*i] <= self.budget).collect();
        let i = ok[self.ch.choose(ok.len())];
        self.budget -= costs[i];
        i
    }
    fn many<T>(&mut self, f: fn(&mut Self) -> T) -> Vec<T> { let mut l = vec![f(self)]; while l.len() < 3 && self.opt(1) { l.push(f(self)) } l }
    fn leaf(&mut self) -> E { E::Name(vec![self.id()]) }
    fn tiny(&mut self) -> Box<Sel> { let e = self.leaf(); Box::new(Sel { ctes: vec![], core: Core::Query { distinct: false, cols: Cols::List(vec![Col::Expr(e, None)]), from: vec![], wher: None, group: None }, order: vec![], limit: None }) }
    /// All expressions with at most `budget` operators.
    pub fn ops(&mut self) -> E {
        if self.budget == 0 { return self.leaf(); }
        let k = self.ch.choose(1 + 2 + 1 + BINS.len() + CMPS.len() + 5 + 1 + 8 + 2 + 1);
        if k == 0 { return self.leaf(); }
        self.budget -= 1;
        let mut k = k - 1;
        let mut hit = |n: usize| { if k < n { true } else { k -= n; false } };
        if hit(1) { return E::Neg(bx(self.ops())); }
        if hit(1) { return E::Not(bx(self.ops())); }
        if hit(1) { return E::IsNull(bx(self.ops())); }
        if hit(BINS.len()) { let op = BINS[k]; let l = self.ops(); return E::Bin(op, bx(l), bx(self.ops())); }
        if hit(CMPS.len()) { let op = CMPS[k]; let l = self.ops(); return E::Cmp(op, bx(l), bx(self.ops())); }
        if hit(5) {
            let x = bx(self.ops());
            return E::In(x, match k { 0 => Set::List(vec![]), 1 => Set::List(vec![self.ops()]), 2 => { let a = self.ops(); Set::List(vec![a, self.ops()]) } 3 => Set::Sel(self.tiny()), _ => { let a = self.id(); Set::Name(vec![a, self.id()]) } });
        }
        if hit(1) { let x = self.ops(); let a = self.ops(); return E::Between(bx(x), bx(a), bx(self.ops())); }
        if hit(8) {
            let x = if k & 1 == 1 { Some(bx(self.ops())) } else { None };
            let mut w = vec![];
            for _ in 0..1 + (k >> 1 & 1) { let g = self.ops(); w.push((g, self.ops())) }
            let el = if k & 4 == 4 { Some(bx(self.ops())) } else { None };
            return E::Case(x, w, el);
        }
        if hit(2) { let mut l = vec![]; for _ in 0..2 + k { l.push(self.ops()) } return E::Tuple(l); }
        E::Scalar(self.tiny())
    }
    fn name(&mut self) -> Vec<String> { let n = self.alt(&[0, 1, 1]); (0..n + 1).map(|_| self.id()).collect() }
    fn ids(&mut self) -> Vec<String> { self.many(|g| g.id()) }
    fn e(&mut self) -> E {
        match self.alt(&[0, 1, 1, 1, 1, 1, 2, 2, 2]) {
            0 => self.leaf(),
            1 => { self.n += 1; E::Num(self.n.to_string()) }
            2 => { self.n += 1; E::Str(format!("s{}", self.n)) }
            3 => { let a = self.leaf(); let b = self.leaf(); E::Bin("+", bx(a), bx(b)) }
            4 => { let a = self.leaf(); let b = self.leaf(); E::Bin("or", bx(a), bx(b)) }
            5 => E::Name(vec![self.id(), self.id()]),
            6 => { let s = self.sel(); E::Scalar(Box::new(s)) }
            7 => { let a = self.leaf(); let s = self.sel(); E::In(bx(a), Set::Sel(Box::new(s))) }
            _ => { let a = self.e(); let b = self.e(); E::Tuple(vec![a, b]) }
        }
    }
    fn cte(&mut self) -> Cte { let name = self.id(); let cols = if self.opt(1) { Some(self.ids()) } else { None }; Cte { name, cols, q: self.sel() } }
    fn ctes(&mut self) -> Vec<Cte> { if self.opt(1) { self.many(|g| g.cte()) } else { vec![] } }
    pub fn sel(&mut self) -> Sel {
        let ctes = self.ctes();
        let mut core = self.core();
        for _ in 0..2 {
            let k = self.alt(&[0, 1, 1, 1, 1]);
            if k == 0 { break; }
            let r = self.core();
            core = Core::Op(["union", "unionall", "intersect", "except"][k - 1], Box::new(core), Box::new(r));
        }
        let order = if self.opt(1) { self.many(|g| { let e = g.e(); let coll = if g.opt(1) { Some(g.id()) } else { None }; By { e, coll, desc: g.opt(1) } }) } else { vec![] };
        let limit = if self.opt(1) { let n = self.e(); Some((n, if self.opt(1) { Some(self.e()) } else { None })) } else { None };
        Sel { ctes, core, order, limit }
    }
    fn core(&mut self) -> Core {
        if self.opt(1) { return Core::Values(self.many(|g| g.many(|g| g.e()))); }
        let distinct = self.opt(1);
        let cols = if self.opt(1) { Cols::All } else { Cols::List(self.many(|g| if g.opt(1) { Col::AllFrom(g.id()) } else { let e = g.e(); Col::Expr(e, if g.opt(1) { Some(g.id()) } else { None }) })) };
        let from = if self.opt(1) { self.many(|g| g.table()) } else { vec![] };
        let wher = if self.opt(1) { Some(self.e()) } else { None };
        let group = if self.opt(1) { let l = self.many(|g| g.e()); Some((l, if self.opt(1) { Some(self.e()) } else { None })) } else { None };
        Core::Query { distinct, cols, from, wher, group }
    }
    fn table(&mut self) -> F {
        match self.alt(&[0, 1, 1]) {
            0 => { let n = self.name(); F::Table(n, if self.opt(1) { Some(self.id()) } else { None }) }
            1 => { let s = self.sel(); F::Sub(Box::new(s), if self.opt(1) { Some(self.id()) } else { None }) }
            _ => {
                let kind = ["join", "natural", "cross"][self.alt(&[0, 0, 0])];
                let jt = if kind == "cross" { "-" } else { ["inner", "left", "right", "full"][self.alt(&[0, 0, 0, 0])] };
                let l = self.table(); let r = self.table();
                let c = if self.opt(1) { Jc::Using(self.ids()) } else { Jc::On(self.e()) };
                F::Join { kind, jt, l: Box::new(l), r: Box::new(r), c }
            }
        }
    }
    pub fn st(&mut self) -> St {
        match self.alt(&[0, 0, 0, 0]) {
            0 => St::Sel(self.sel()),
            1 => { let ctes = self.ctes(); let table = self.name(); let cols = if self.opt(1) { Some(self.ids()) } else { None }; St::Insert { ctes, table, cols, src: self.core() } }
            2 => { let ctes = self.ctes(); let table = self.name(); St::Delete { ctes, table, wher: if self.opt(1) { Some(self.e()) } else { None } } }
            _ => { let ctes = self.ctes(); let table = self.name(); let set = self.many(|g| { let c = g.ids(); (c, g.e()) }); St::Update { ctes, table, set, wher: if self.opt(1) { Some(self.e()) } else { None } } }
        }
    }
    pub fn top(&mut self) -> Top {
        match self.alt(&[0, 1, 0, 0]) {
            0 => Top::St(self.st()), 1 => Top::Explain(self.st()),
            2 => { let n = self.alt(&[0, 0]); Top::Attach((0..n + 1).map(|_| self.id()).collect(), ["p", "", "/tmp/a b.csv"][self.ch.choose(3)].into()) }
            _ => { let n = self.alt(&[0, 0]); Top::Describe((0..n + 1).map(|_| self.id()).collect()) }
        }
    }
}
/// A query whose only result column is the expression.
pub fn wrap(e: E) -> Top { Top::St(St::Sel(Sel { ctes: vec![], core: Core::Query { distinct: false, cols: Cols::List(vec![Col::Expr(e, None)]), from: vec![], wher: None, group: None }, order: vec![], limit: None })) }

pub const CORPUS: &[&str] = &[
    "SELECT a , b AS c , d e , t . * FROM t",
    "SELECT ALL * FROM s . t u WHERE a = 1",
    "SELECT DISTINCT a FROM d . s . t AS u GROUP BY a , b HAVING c ORDER BY a COLLATE x DESC , b ASC LIMIT 1 OFFSET 2",
    "SELECT a FROM t ORDER BY 1 LIMIT 3 , 4",
    "WITH x AS ( SELECT 1 ) , y ( a , b ) AS ( VALUES ( 1 , 2 ) , ( 3 , 4 ) ) SELECT * FROM x , y",
    "SELECT 1 UNION SELECT 2 UNION ALL SELECT 3 INTERSECT VALUES ( 4 ) EXCEPT SELECT 5",
    "SELECT a FROM t JOIN u ON a = b LEFT OUTER JOIN v USING ( c , d ) RIGHT JOIN w ON e",
    "SELECT a FROM ( t FULL OUTER JOIN u USING ( c ) ) NATURAL INNER JOIN v ON f CROSS JOIN w ON g , ( SELECT 1 ) AS x",
    "SELECT NOT a OR b AND c = d + e * - f FROM t WHERE ( a OR b ) AND NOT ( c , d ) IN ( ( 1 , 2 ) )",
    "SELECT a IS NULL , b IS NOT NULL , c ISNULL , d NOTNULL , e NOT NULL",
    "SELECT a IN ( ) , b IN ( 1 , 2 ) , c NOT IN ( SELECT d ) , e IN s . f , g NOT IN h",
    "SELECT a BETWEEN b AND c AND d NOT BETWEEN e AND f || g",
    "SELECT CASE a WHEN 1 THEN 'x' WHEN 2 THEN 'y' ELSE 'z' END , CASE WHEN b THEN c END",
    "SELECT a LIKE 'x%' , b != c , d < e , f <= g , h > i , j >= k",
    "SELECT ( SELECT 1 ) , ( ( 1 ) ) , - + - 1 , 1 - - 1 , a / b / c",
    "SELECT NULL , CURRENT_DATE , CURRENT_TIME , CURRENT_TIMESTAMP , DATE '2020-01-01' , TIME '10:00' , TIMESTAMP 'x' , 0x1F , 1.5E+3 , .5 , 2.",
    "INSERT INTO s . t ( a , b ) VALUES ( 1 , 'x' ) , ( 2 , NULL )",
    "INSERT INTO t SELECT a FROM u WHERE b",
    "DELETE FROM s . t WHERE a = 1",
    "DELETE FROM t",
    "UPDATE s . t SET a = 1 , b , c = ( 2 , 3 ) WHERE d IS NULL",
    "EXPLAIN QUERY PLAN SELECT 1",
    "EXPLAIN DELETE FROM t",
    "ATTACH FILE '/a/b' AS s . t",
    "ATTACH FILE 'x' AS t",
    "DESCRIBE s . t",
    "DESCRIBE t",
];
fn all_tokens() -> Vec<String> {
    let mut v: Vec<String> = KEYWORDS.iter().map(|k| k.to_string()).collect();
    v.extend(SYMBOLS.iter().map(|s| s.to_string()));
    v.extend(["z", "9", "'q'"].iter().map(|s| s.to_string()));
    v
}
fn split(s: &str) -> Vec<String> { s.split(' ').map(|x| x.to_string()).collect() }

fn token_suite(name: &str, before: &'static str, alphabet: &'static str, after: &'static str, max: usize) -> Suite {
    let al: Vec<String> = split(alphabet);
    Suite::new(name, &format!("every sequence of up to {} of the {} tokens {:?} between {:?} and {:?}", max, al.len(), alphabet, before, after), move |ch| {
        let n = ch.range(0, max);
        let mut s = String::from(before);
        for _ in 0..n { s.push(' '); s.push_str(ch.pick(&al)); }
        s.push(' '); s.push_str(after);
        ch.sample(|| s.clone());
        agree(ch, &s)
    })
}
fn edit(ch: &mut Ch, t: &mut Vec<String>, all: &[String]) {
    match ch.choose(4) {
        0 => { if !t.is_empty() { let i = ch.choose(t.len()); t.remove(i); } }
        1 => { if !t.is_empty() { let i = ch.choose(t.len()); t[i] = ch.pick(all).clone(); } }
        2 => { let i = ch.choose(t.len() + 1); let x = ch.pick(all).clone(); t.insert(i, x); }
        _ => { if t.len() > 1 { let i = ch.choose(t.len() - 1); t.swap(i, i + 1); } }
    }
}
fn chars_suite(name: &str, before: &'static str, alphabet: &'static str, after: &'static str, max: usize) -> Suite {
    let al: Vec<char> = alphabet.chars().collect();
    Suite::new(name, &format!("every text of up to {} of the {} characters {:?} between {:?} and {:?}", max, al.len(), alphabet, before, after), move |ch| {
        let n = ch.range(0, max);
        let mut s = String::from(before);
        for _ in 0..n { s.push(*ch.pick(&al)); }
        s.push_str(after);
        ch.sample(|| s.clone());
        agree(ch, &s)
    })
}

fn query(cols: Vec<Col>, from: Vec<F>, group: Option<(Vec<E>, Option<E>)>) -> Core { Core::Query { distinct: false, cols: Cols::List(cols), from, wher: None, group } }
fn sel(core: Core) -> Sel { Sel { ctes: vec![], core, order: vec![], limit: None } }
pub const LISTS: usize = 27;
/// A statement with a list of `n` elements of a kind, all different.
fn long_list(kind: usize, n: usize) -> Top {
    let id = |i: usize| format!("n{}", i);
    let name = |i: usize| E::Name(vec![id(i)]);
    let ids = || -> Vec<String> { (0..n).map(id).collect() };
    let names = || -> Vec<E> { (0..n).map(name).collect() };
    let table = |i: usize| F::Table(vec![id(i)], None);
    let one = || vec![Col::Expr(E::Num("1".into()), None)];
    let st = |c: Core| Top::St(St::Sel(sel(c)));
    let chain = |f: &dyn Fn(E, E) -> E| { let mut e = name(0); for i in 1..n { e = f(e, name(i)) } wrap(e) };
    let tiny = |i: usize| sel(query(vec![Col::Expr(name(i), None)], vec![], None));
    match kind {
        0 => st(query((0..n).map(|i| Col::Expr(name(i), None)).collect(), vec![], None)),
        1 => st(query((0..n).map(|i| match i % 3 { 0 => Col::Expr(E::Num(i.to_string()), Some(id(i))), 1 => Col::AllFrom(id(i)), _ => Col::Expr(E::Str(id(i)), None) }).collect(), vec![], None)),
        2 => st(query(one(), (0..n).map(table).collect(), None)),
        3 => st(query(one(), vec![], Some((names(), Some(name(n)))))),
        4 => { let mut s = tiny(n); s.order = (0..n).map(|i| By { e: name(i), coll: if i % 3 == 1 { Some(id(i + n)) } else { None }, desc: i % 2 == 1 }).collect(); Top::St(St::Sel(s)) }
        5 => st(Core::Values((0..n).map(|i| vec![E::Num(i.to_string())]).collect())),
        6 => st(Core::Values(vec![names(), names()])),
        7 => { let mut s = tiny(n); s.ctes = (0..n).map(|i| Cte { name: id(i), cols: None, q: tiny(i) }).collect(); Top::St(St::Sel(s)) }
        8 => { let mut s = tiny(n); s.ctes = vec![Cte { name: "c".into(), cols: Some(ids()), q: tiny(n) }]; Top::St(St::Sel(s)) }
        9 => wrap(E::In(bx(name(n)), Set::List(names()))),
        10 => if n < 2 { wrap(name(0)) } else { wrap(E::Tuple(names())) },
        11 => wrap(E::Case(None, (0..n).map(|i| (name(2 * i), name(2 * i + 1))).collect(), None)),
        12 => wrap(E::Case(Some(bx(name(2 * n))), (0..n).map(|i| (E::Num(i.to_string()), name(2 * i + 1))).collect(), Some(bx(name(2 * n + 1))))),
        13 => Top::St(St::Insert { ctes: vec![], table: vec!["t".into()], cols: Some(ids()), src: Core::Values(vec![names()]) }),
        14 => Top::St(St::Update { ctes: vec![], table: vec!["t".into()], set: (0..n).map(|i| (vec![id(i)], E::Num(i.to_string()))).collect(), wher: None }),
        15 => Top::St(St::Update { ctes: vec![], table: vec!["t".into()], set: vec![(ids(), name(n)), (ids(), name(n + 1))], wher: None }),
        16 => st(query(one(), vec![F::Join { kind: "join", jt: "left", l: Box::new(table(n)), r: Box::new(table(n + 1)), c: Jc::Using(ids()) }], None)),
        17 => { let mut t = table(0); for i in 1..n { t = F::Join { kind: ["join", "natural", "cross"][i % 3], jt: if i % 3 == 2 { "-" } else { ["inner", "left", "right", "full"][i % 4] }, l: Box::new(t), r: Box::new(table(i)), c: Jc::On(name(i + n)) } } st(query(one(), vec![t], None)) }
        18 => { let mut c = tiny(0).core; for i in 1..n { c = Core::Op(["union", "unionall", "intersect", "except"][i % 4], Box::new(c), Box::new(tiny(i).core)) } st(c) }
        19 => chain(&|a, b| E::Bin("or", bx(a), bx(b))),
        20 => chain(&|a, b| E::Bin("and", bx(a), bx(b))),
        21 => chain(&|a, b| E::Bin("-", bx(a), bx(b))),
        22 => chain(&|a, b| E::Bin("/", bx(a), bx(b))),
        23 => chain(&|a, b| E::Cmp("<", bx(a), bx(b))),
        24 => { let mut k = 0; let ops = ["+", "*", "-", "or", "||", "/", "and"]; let mut e = name(0); for i in 1..n { e = E::Bin(ops[k], bx(e), bx(name(i))); k = (k + 1) % ops.len() } wrap(e) }
        // long words
        25 => { let w: String = "abcdefghij_KLMNOPQRST0123456789".chars().cycle().take(n).collect(); wrap(E::Name(vec![w.clone(), format!("{}x", w)])) }
        _ => { let w: String = "0123456789".chars().cycle().skip(1).take(n).collect(); wrap(E::Tuple(vec![E::Num(w.clone()), E::Str(w.clone()), E::Num(format!("{}.{}E+{}", w, w, w)), E::Str(format!("{} ", w))])) }
    }
}

pub fn c13(th: bool) -> Vec<Suite> {
    let mut v = vec![];
    let exprs = |name: &str, n: usize, dev: usize| Suite::new(name, &format!("every expression of up to {} operators (all operators, constructors and predicates), with at most {} deviations from the plainest spelling (redundant parentheses, sign without effect, alternative spellings)", n, dev), move |ch| {
        let e = G::new(ch, n).ops();
        let t = wrap(e);
        let mut o = Out::new();
        { let mut sp = spelled(ch, dev); o.top(&t, &mut sp); }
        let s = text(&o.toks);
        ch.sample(|| s.clone());
        expect(ch, &s, Some(&t))
    });
    v.push(exprs("expressions-2-spelled", 2, 1));
    v.push(exprs("expressions-3-spelled", 3, if th { 2 } else { 1 }));
    let stmts = |name: &str, b: usize, dev: usize| Suite::new(name, &format!("every statement whose clauses, list elements, alternatives and operators cost at most {} in total, with at most {} deviations from the plainest spelling", b, dev), move |ch| {
        let t = G::new(ch, b).top();
        let mut o = Out::new();
        { let mut sp = spelled(ch, dev); o.top(&t, &mut sp); }
        let s = text(&o.toks);
        ch.sample(|| s.clone());
        expect(ch, &s, Some(&t))
    });
    v.push(stmts("statements-spelled", if th { 5 } else { 4 }, 1));
    v.push(stmts("statements", if th { 6 } else { 5 }, 0));
    let long: Vec<usize> = (1..=40).chain([50, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 258]).chain(if th { vec![300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000] } else { vec![300] }).collect();
    v.push(Suite::new("long-lists", &format!("each of the {} kinds of lists, chains of operators and long words with each of {} lengths up to {}, with at most one deviation from the plainest spelling in those of up to 3 elements", LISTS, long.len(), long.last().unwrap()), move |ch| {
        let kind = ch.choose(LISTS);
        let n = *ch.pick(&long);
        let t = long_list(kind, n);
        let mut o = Out::new();
        { let mut sp = spelled(ch, if n <= 3 { 1 } else { 0 }); o.top(&t, &mut sp); }
        let s = text(&o.toks);
        ch.sample(|| s.clone());
        expect(ch, &s, Some(&t))
    }));
    let all = all_tokens();
    let edits = if th { 2 } else { 1 };
    v.push(Suite::new("edits", &format!("{} sentences that use the whole grammar, with up to {} tokens deleted, replaced by or preceded by each of the {} tokens of the language, or exchanged with their neighbours", CORPUS.len(), edits, all.len()), move |ch| {
        let mut t = split(ch.pick(CORPUS));
        for _ in 0..edits { edit(ch, &mut t, &all) }
        let s = t.join(" ");
        ch.sample(|| s.clone());
        agree(ch, &s)
    }));
    let n = if th { 2 } else { 1 };
    v.push(token_suite("tokens-operators", "SELECT", "a 1 ( ) , . * + - / || = != < <= AND OR NOT", "", 4 + n));
    v.push(token_suite("tokens-predicates", "SELECT a", "a 1 ( ) , = NOT NULL IS IN BETWEEN AND LIKE ISNULL NOTNULL SELECT", "", 4 + n));
    v.push(token_suite("tokens-case", "SELECT CASE", "a ( ) CASE WHEN THEN ELSE END , OR NULL", "END", 5 + n));
    v.push(token_suite("tokens-from", "SELECT a FROM t", "t , . ( ) AS JOIN LEFT OUTER FULL INNER NATURAL CROSS ON USING SELECT *", "", 4 + n));
    v.push(token_suite("tokens-clauses", "SELECT a", "a 1 , AS FROM WHERE GROUP BY HAVING ORDER LIMIT OFFSET ASC DESC COLLATE UNION ALL SELECT", "", 4 + n));
    v.push(token_suite("tokens-set-operations", "", "SELECT a VALUES ( ) , UNION ALL INTERSECT EXCEPT WITH AS DISTINCT *", "", 5 + n));
    v.push(token_suite("tokens-insert", "INSERT INTO t", "t a ( ) , . VALUES SELECT WHERE = NULL", "", 5 + n));
    v.push(token_suite("tokens-update", "UPDATE t", "t a ( ) , . SET WHERE = 1 SELECT", "", 5 + n));
    v.push(token_suite("tokens-delete", "DELETE", "t ( ) , . FROM WHERE = 1 AND a", "", 5 + n));
    v.push(token_suite("tokens-other-statements", "", "EXPLAIN QUERY PLAN ATTACH FILE 'f' AS DESCRIBE t . SELECT WITH INSERT DELETE", "", 4 + n));
    v.push(chars_suite("characters-numbers", "SELECT ", "019.Ee+-xXfFaz_ ", "", 4 + n));
    v.push(chars_suite("characters-symbols", "SELECT a", "a1'|=!<>.,()*/+- \n", "b", 3 + n));
    v.push(chars_suite("characters-anything", "", "a'0.|!; \n\t\"`@#$%^&[]{}\\~?:_\u{e9}\u{1}\u{7f}\u{85}\u{4e00}\u{1f600}", "", 3));
    v
}

// ------------------------------------------------------------------------------------------------- C14

/// Changes of layout and keyword case must not change the answer.
fn same(ch: &mut Ch, s: &str, reference: &str) -> Res {
    let want = real(ch, reference)?;
    let got = real(ch, s)?;
    ch.state(got.as_deref().unwrap_or("error").as_bytes());
    ensure!(got == want, "{:?} is parsed to {:?}, but {:?} to {:?}", s, got, reference, want);
    Ok(())
}
fn is_word(s: &str) -> bool { KEYWORDS.contains(&s) }
/// Whether two tokens stay what they are when nothing is between them.
fn may_touch(a: &str, b: &str) -> bool {
    let (x, y, both) = (lex(a), lex(b), lex(&format!("{}{}", a, b)));
    both.len() == 3 && x.len() == 2 && y.len() == 2 && both[0] == x[0] && both[1] == y[0]
}
const GAPS: &[&str] = &[" ", "", "\n", "\t", "\r\n", "  ", "\u{c}", " \n \t "];

/// Deep nesting is explored in a separate process because the stack might overflow.
pub fn deep(kind: usize, n: usize) -> i32 {
    let s = deep_text(kind, n);
    let p = v::Parser::new();
    let ok = p.accepts(&s);
    println!("{}", ok);
    0
}
const DEEP: &[&str] = &["parentheses", "signs", "CASE", "nested queries", "operators", "set operations", "joins", "list elements"];
fn deep_text(kind: usize, n: usize) -> String {
    match kind {
        0 => format!("SELECT {}a{}", "(".repeat(n), ")".repeat(n)),
        1 => format!("SELECT {}a", "- ".repeat(n)),
        2 => format!("SELECT {}a{}", "CASE WHEN b THEN ".repeat(n), " END".repeat(n)),
        3 => format!("SELECT {}a{}", "(SELECT ".repeat(n), ")".repeat(n)),
        4 => format!("SELECT a{}", " + a".repeat(n)),
        5 => format!("SELECT a{}", " UNION SELECT a".repeat(n)),
        6 => format!("SELECT a FROM t{}", " JOIN t ON a".repeat(n)),
        _ => format!("SELECT a{}", ", a".repeat(n)),
    }
}

pub fn c14(th: bool) -> Vec<Suite> {
    let mut v = vec![];
    v.push(Suite::new("layout-one-gap", &format!("{} sentences, each gap between tokens (also before the first and after the last) filled with each of {} separators, nothing only where the tokens do not run together", CORPUS.len(), GAPS.len()), |ch| {
        let t = split(ch.pick(CORPUS));
        let i = ch.choose(t.len() + 1);
        let gap = *ch.pick(GAPS);
        if gap == "" && i > 0 && i < t.len() && !may_touch(&t[i - 1], &t[i]) { return Err(Stop::Skip); }
        let mut s = String::new();
        for (j, x) in t.iter().enumerate() { if j == i { s.push_str(gap) } else if j > 0 { s.push(' ') } s.push_str(x) }
        if i == t.len() { s.push_str(gap) }
        ch.sample(|| s.clone());
        same(ch, &s, &t.join(" "))
    }));
    v.push(Suite::new("layout-all-gaps", &format!("the same sentences with all gaps filled with the same separator, and statements of cost up to {} without any separator that can be left out", if th { 5 } else { 4 }), move |ch| {
        let t: Vec<String> = if ch.flag() { split(ch.pick(CORPUS)) } else {
            let top = G::new(ch, if th { 5 } else { 4 }).top();
            let mut o = Out::new(); o.top(&top, &mut |_, _| 0); o.toks
        };
        let gap = *ch.pick(&GAPS[1..]);
        let mut s = String::from(gap);
        for (j, x) in t.iter().enumerate() {
            if j > 0 { if gap != "" || !may_touch(&t[j - 1], x) { s.push_str(if gap == "" { " " } else { gap }) } }
            s.push_str(x)
        }
        s.push_str(gap);
        ch.sample(|| s.clone());
        same(ch, &s, &t.join(" "))
    }));
    v.push(Suite::new("case-one-keyword", "the same sentences with one or all keywords in lower case, capitalized or in alternating case", |ch| {
        let t = split(ch.pick(CORPUS));
        let at: Vec<usize> = (0..t.len()).filter(|i| is_word(&t[*i])).collect();
        let which = ch.choose(at.len() + 1);
        let style = ch.choose(4);
        let change = |w: &str| -> String {
            w.chars().enumerate().map(|(i, c)| match style { 0 => c.to_ascii_lowercase(), 1 => if i == 0 { c } else { c.to_ascii_lowercase() }, 2 => if i % 2 == 0 { c.to_ascii_lowercase() } else { c }, _ => if i % 2 == 1 { c.to_ascii_lowercase() } else { c } }).collect()
        };
        let s: Vec<String> = t.iter().enumerate().map(|(i, w)| if is_word(w) && (which == at.len() || at[which] == i) { change(w) } else { w.clone() }).collect();
        ch.sample(|| s.join(" "));
        same(ch, &s.join(" "), &t.join(" "))
    }));
    let max = 17;
    v.push(Suite::new("case-all-spellings", &format!("every keyword in all {} spellings of its letters in upper or lower case, in a sentence that has it", "2^length"), move |ch| {
        let k = *ch.pick(KEYWORDS);
        let t = match CORPUS.iter().map(|s| split(s)).find(|t| t.iter().any(|w| w == k)) { Some(t) => t, None => split(&format!("SELECT a FROM {}", k)) };
        let at: Vec<usize> = (0..k.len()).filter(|i| *i < max / 2 + max % 2 || *i >= k.len().saturating_sub(max / 2)).collect();
        let mut w: Vec<char> = k.chars().collect();
        for i in at { if ch.flag() { w[i] = w[i].to_ascii_lowercase() } }
        let w: String = w.into_iter().collect();
        let s: Vec<String> = t.iter().map(|x| if x == k { w.clone() } else { x.clone() }).collect();
        same(ch, &s.join(" "), &t.join(" "))
    }));
    v.push(Suite::new("names-verbatim", "every name of one to three characters over letters of both cases, digits and the underscore, and every keyword with one character added or removed, as a column, table and alias", |ch| {
        const F: &[char] = &['a', 'B', 'z', 'Z', '_', 'e', 'E', 'x'];
        const L: &[char] = &['a', 'B', 'z', 'Z', '_', '0', '9', 'S', 's'];
        let name: String = if ch.flag() {
            let n = ch.choose(3);
            let mut s = String::from(*ch.pick(F));
            for _ in 0..n { s.push(*ch.pick(L)) }
            s
        } else {
            let k = *ch.pick(KEYWORDS);
            let k = if ch.flag() { k.to_lowercase() } else { k.to_string() };
            match ch.choose(4) { 0 => format!("{}_", k), 1 => format!("{}0", k), 2 => format!("x{}", k), _ => k[..k.len() - 1].to_string() }
        };
        let s = match ch.choose(4) { 0 => format!("SELECT {}", name), 1 => format!("SELECT a FROM {}.{}", name, name), 2 => format!("SELECT a AS {}", name), _ => format!("DESCRIBE {}", name) };
        ch.sample(|| s.clone());
        agree(ch, &s)
    }));
    v.push(Suite::new("string-characters", "string literals with each Unicode scalar value up to U+FFFF (every 16th above U+2FFF in the quick tier) and one in 4096 beyond, alone and between other characters", move |ch| {
        let c = if ch.flag() { 0x10000 + 4096 * ch.choose(0x100) as u32 + 0xff } else {
            let block = ch.choose(0x100) as u32; let low = ch.choose(0x100) as u32;
            if !th && block >= 0x30 && low % 16 != 0 { return Err(Stop::Skip); }
            block << 8 | low
        };
        let c = match char::from_u32(c) { Some(c) => c, None => return Err(Stop::Skip) };
        let s = if ch.flag() { format!("SELECT '{}'", c) } else { format!("SELECT 'a {}b' , '{}'", c, c) };
        agree(ch, &s)
    }));
    v.push(Suite::new("number-text", "numeric literals of up to 7 characters of the forms digits, digits.digits, .digits, with exponents, and hexadecimal ones", |ch| {
        let d = |ch: &mut Ch, lo: usize| { let n = ch.range(lo, 2); (0..n).map(|_| *ch.pick(&['0', '1', '9'])).collect::<String>() };
        let mut s = match ch.choose(4) {
            0 => d(ch, 1), 1 => { let a = d(ch, 1); format!("{}.{}", a, d(ch, 0)) } 2 => format!(".{}", d(ch, 1)),
            _ => { let n = ch.range(1, 3); let x: String = (0..n).map(|_| *ch.pick(&['0', '9', 'a', 'F'])).collect(); format!("0x{}", x) }
        };
        if !s.starts_with("0x") && ch.flag() { s.push('E'); s.push_str(ch.pick(&["", "+", "-"])); let e = d(ch, 1); s.push_str(&e) }
        let s = format!("SELECT {} , {}", s, s);
        ch.sample(|| s.clone());
        agree(ch, &s)
    }));
    v.push(Suite::new("any-characters", &format!("every text of up to {} characters of an alphabet with letters, digits, quotes, all kinds of punctuation, control and multi-byte characters: an answer, the same one every time", 4), move |ch| {
        const A: &str = "aS0.'\"()*,;-+/|!<>= \n\t\0\u{1}\u{7f}\\_%@#$[]{}~`^&?:\u{80}\u{e9}\u{2028}\u{fffd}\u{10ffff}";
        let al: Vec<char> = A.chars().collect();
        let n = ch.range(0, 4);
        let s: String = (0..n).map(|_| *ch.pick(&al)).collect();
        let first = real(ch, &s)?; let again = real(ch, &s)?;
        ensure!(first == again, "{:?} was answered with {:?} and then with {:?}", s, first, again);
        Ok(())
    }));
    v.push(Suite::new("truncated", "the same sentences cut off after every character, and with every character removed", |ch| {
        let s = *ch.pick(CORPUS);
        let i = ch.choose(s.len());
        let s = if ch.flag() { s[..i].to_string() } else { format!("{}{}", &s[..i], &s[i + 1..]) };
        agree(ch, &s)
    }));
    v.push(Suite::new("one-character", "the same sentences with one character replaced by or preceded by each of the ASCII and some other characters", |ch| {
        let s = *ch.pick(CORPUS);
        let i = ch.choose(s.len() + 1);
        let c = ch.choose(128 + 4); // not U+017F and U+212A, which are spellings of S and K in Unicode
        let c = if c < 128 { c as u8 as char } else { ['\u{80}', '\u{85}', '\u{a0}', '\u{130}'][c - 128] };
        let s = if ch.flag() { format!("{}{}{}", &s[..i], c, &s[i..]) } else { if i == s.len() { return Err(Stop::Skip); } format!("{}{}{}", &s[..i], c, &s[i + 1..]) };
        ch.sample(|| s.clone());
        agree(ch, &s)
    }));
    let sizes: &'static [usize] = if th { &[1, 10, 100, 1000, 2000, 10_000, 1_000_000] } else { &[1, 10, 100, 1000, 10_000, 1_000_000] };
    v.push(Suite::new("long-and-deep", &format!("each nestable or repeatable construct {:?} times", sizes), move |ch| {
        let kind = ch.choose(DEEP.len());
        let n = *ch.pick(sizes);
        if n <= 2000 { let s = deep_text(kind, n); return agree(ch, &s); }
        let exe = std::env::current_exe().unwrap();
        let out = ch.must("running the parser", || std::process::Command::new(exe).args(["deep", &kind.to_string(), &n.to_string()]).stderr(std::process::Stdio::null()).output().unwrap())?;
        if out.status.code() == Some(0) && out.stdout == b"true\n" { return Ok(()); }
        fail_key(format!("stack overflow on {} {} deep", n, DEEP[kind]), format!("parsing {} nested or repeated {} times ended with {:?}: {:?}", DEEP[kind], n, out.status, String::from_utf8_lossy(&out.stdout)))
    }));
    v
}

// ------------------------------------------------------------------------------------------------- C15

fn fold(s: &str) -> String { s.chars().flat_map(|c| c.to_uppercase()).collect() }
fn check_pair(ch: &mut Ch, a: &str, b: &str) -> Res {
    let (eq, cmp, partial) = ch.must(&format!("comparing names {:?} and {:?}", a, b), || v::compare_names(a, b))?;
    let want = fold(a) == fold(b);
    ensure!(eq == want, "names {:?} and {:?}: == is {}, but they {} up to letter case", a, b, eq, if want { "agree" } else { "differ" });
    ensure!((cmp == Ordering::Equal) == want, "names {:?} and {:?}: cmp is {:?}", a, b, cmp);
    ensure!(partial == Some(cmp), "names {:?} and {:?}: partial_cmp is {:?}, cmp is {:?}", a, b, partial, cmp);
    let (seq, sp) = ch.must(&format!("comparing name {:?} with string {:?}", a, b), || v::compare_name_with_string(a, b))?;
    ensure!(seq == want, "name {:?} and string {:?}: == is {}", a, b, seq);
    ensure!(sp == Some(cmp), "name {:?} and string {:?}: partial_cmp is {:?}, cmp of the names is {:?}", a, b, sp, cmp);
    let (_, back, _) = v::compare_names(b, a);
    ensure!(back == cmp.reverse(), "names {:?} and {:?}: cmp is {:?} and {:?}", a, b, cmp, back);
    ch.state(&[a.as_bytes(), b"\0", b.as_bytes()].concat());
    Ok(())
}
fn strings(al: &[char], max: usize) -> Vec<String> {
    let mut v = vec![String::new()]; let mut last = v.clone();
    for _ in 0..max { last = last.iter().flat_map(|s| al.iter().map(move |c| format!("{}{}", s, c))).collect(); v.extend(last.clone()); }
    v
}

pub fn c15(th: bool) -> Vec<Suite> {
    let mut v = vec![];
    // the sign between the cases is where folding up and folding down disagree
    let names = strings(&['a', 'A', 'b', 'Z', '_', '0'], if th { 4 } else { 3 });
    let n = names.len();
    let names2 = names.clone();
    v.push(Suite::new("pairs", &format!("all pairs of the {} names of up to {} of the characters a A b Z _ 0: equality, orders and comparison with strings agree with folding of case", n, if th { 4 } else { 3 }), move |ch| {
        let a = ch.pick(&names).clone(); let b = ch.pick(&names).clone();
        ch.sample(|| format!("{} {}", a, b));
        check_pair(ch, &a, &b)
    }));
    v.push(Suite::new("ascii-pairs", "all pairs of single ASCII characters as names, alone and after an equal beginning", move |ch| {
        let (a, b) = (ch.choose(128) as u8 as char, ch.choose(128) as u8 as char);
        let p = *ch.pick(&["", "x", "X"]);
        check_pair(ch, &format!("{}{}", p, a), &format!("{}{}", p.to_lowercase(), b))
    }));
    let short: Vec<String> = names2.into_iter().filter(|s| s.len() <= 2).collect();
    v.push(Suite::new("order-is-transitive", &format!("all triples of the {} names of up to 2 characters", short.len()), move |ch| {
        let (a, b, c) = (ch.pick(&short).clone(), ch.pick(&short).clone(), ch.pick(&short).clone());
        let le = |x: &str, y: &str| v::compare_names(x, y).1 != Ordering::Greater;
        let r = ch.must("comparing names", || (le(&a, &b), le(&b, &c), le(&a, &c)))?;
        ch.state(&[a.as_bytes(), b"\0", b.as_bytes(), b"\0", c.as_bytes()].concat());
        ensure!(!(r.0 && r.1) || r.2, "{:?} <= {:?} <= {:?}, but not {:?} <= {:?}", a, b, c, a, c);
        Ok(())
    }));
    v.push(Suite::new("text-preserved", "the text of a name is kept as it was written: all names of up to 4 of the characters a A _ 0 z", |ch| {
        let n = ch.range(0, 4);
        let s: String = (0..n).map(|_| *ch.pick(&['a', 'A', '_', '0', 'z'])).collect();
        let (t, d) = ch.must("text of a name", || v::name_text(&s))?;
        ensure!(t == s && d == s, "name {:?} has the text {:?} and is displayed as {:?}", s, t, d);
        Ok(())
    }));
    v.push(Suite::new("unicode-pairs", "every Unicode scalar value as a name, alone and between others, against its upper and lower case, its neighbours and the character one bit away: decided where the two cases are each other's only counterparts or the characters agree in no case; otherwise the comparisons agree with each other", |ch| {
        let c = match char::from_u32((ch.choose(0x1100) * 256) as u32 + ch.choose(256) as u32) { Some(c) => c, None => return Err(Stop::Skip) };
        let one = |s: String| { let mut i = s.chars(); match (i.next(), i.next()) { (Some(c), None) => Some(c), _ => None } };
        let other = match ch.choose(6) { 0 => Some(c), 1 => one(c.to_uppercase().collect()), 2 => one(c.to_lowercase().collect()), 3 => char::from_u32(c as u32 + 1), 4 => char::from_u32(c as u32 ^ 0x20), _ => Some('k') };
        let d = match other { Some(d) => d, None => return Err(Stop::Skip) };
        let (up, low) = (|c: char| c.to_uppercase().collect::<String>(), |c: char| c.to_lowercase().collect::<String>());
        let (x, y) = *ch.pick(&[("", ""), ("a", "Z")]);
        let (a, b) = (format!("{}{}{}", x, c, y), format!("{}{}{}", x.to_uppercase(), d, y));
        let pair = |u: char, l: char| one(up(l)) == Some(u) && one(low(u)) == Some(l) && one(up(u)) == Some(u) && one(low(l)) == Some(l);
        let want = if c == d || pair(c, d) || pair(d, c) { Some(true) } else if up(c) != up(d) && low(c) != low(d) { Some(false) } else { None };
        let (eq, cmp, partial) = ch.must(&format!("comparing names {:?} and {:?}", a, b), || v::compare_names(&a, &b))?;
        let (seq, sp) = ch.must(&format!("comparing name {:?} with string {:?}", a, b), || v::compare_name_with_string(&a, &b))?;
        let (beq, back, _) = ch.must(&format!("comparing names {:?} and {:?}", b, a), || v::compare_names(&b, &a))?;
        if let Some(w) = want { ensure!(eq == w, "names {:?} and {:?}: == is {}, but they {} up to letter case", a, b, eq, if w { "agree" } else { "differ" }); }
        ensure!((cmp == Ordering::Equal) == eq && partial == Some(cmp) && back == cmp.reverse() && beq == eq, "names {:?} and {:?}: == is {} ({} in reverse), cmp {:?} ({:?} in reverse), partial_cmp {:?}", a, b, eq, beq, cmp, back, partial);
        ensure!(seq == eq && sp == Some(cmp), "name {:?} and string {:?}: == is {}, partial_cmp {:?}; as two names {} and {:?}", a, b, seq, sp, eq, cmp);
        ch.state(&[a.as_bytes(), b"\0", b.as_bytes()].concat());
        ch.sample(|| format!("{} {}", a, b));
        Ok(())
    }));
    let ls = crate::c_long::lengths(th);
    v.push(Suite::new("long-names", &format!("pairs of names of each of {} lengths up to {} that agree, or differ in the case of a letter or of all, in a character, or in length, at the first, last, middle or another place", ls.len(), ls.last().unwrap()), move |ch| {
        let n = *ch.pick(&ls);
        if n == 0 { return Err(Stop::Skip); }
        let base: String = (0..n).map(|i| "aBcdEf_0gHij1K"[i % 14..].chars().next().unwrap()).collect();
        let mut at = vec![0, 1, 7, 8, 31, 32, 63, 64, 127, 128, 254, 255, 256, n / 2, n - 1]; at.retain(|k| *k < n); at.sort(); at.dedup();
        let k = *ch.pick(&at);
        let mut o: Vec<u8> = base.clone().into_bytes();
        let way = ch.choose(8);
        match way {
            0 => (), 1 => o[k] = if o[k].is_ascii_uppercase() { o[k].to_ascii_lowercase() } else { o[k].to_ascii_uppercase() }, 2 => o.make_ascii_uppercase(), 3 => o.make_ascii_lowercase(),
            4 => o[k] = b'x', 5 => o[k] = b'_', 6 => { o.remove(k); } _ => o.insert(k, o[k]),
        }
        let o = String::from_utf8(o).unwrap();
        ch.sample(|| format!("{} characters, way {} at {}", n, way, k));
        if ch.flag() { check_pair(ch, &base, &o) } else { check_pair(ch, &o, &base) }
    }));
    let mut ks: Vec<usize> = (1..=if th { 70 } else { 34 }).collect(); ks.extend([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1024, 1025]); if th { ks.extend([4096, 4097, 10000]) } ks.sort(); ks.dedup();
    v.push(Suite::new("many-objects", &format!("catalogs of each of {} numbers up to {} of schemata, of tables in one schema, or of columns of a table, created in 3 orders with names of 3 forms in 3 spellings, every schema a second time in another spelling; every object looked up under 3 spellings, and names next to it", ks.len(), ks.last().unwrap()), move |ch| {
        let k = *ch.pick(&ks);
        let what = ch.choose(3);
        let order = ch.choose(3);
        let form = ch.choose(3);
        let spelling = ch.choose(3);
        let label = |i: usize| match form { 0 => format!("n{}", i), 1 => format!("{}_common_ending_of_the_names", (0..=i / 26).map(|_| (b'a' + (i % 26) as u8) as char).collect::<String>()), _ => format!("Shared_Beginning_{:05}x", i) };
        let spell = |s: &str, w: usize| match w { 0 => s.to_string(), 1 => s.to_uppercase(), 2 => s.to_lowercase(), _ => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() };
        let seq: Vec<usize> = match order { 0 => (0..k).collect(), 1 => (0..k).rev().collect(), _ => (0..k).map(|i| if i % 2 == 0 { i / 2 } else { k - 1 - i / 2 }).collect() };
        let desc = || format!("{} {} of form {:?}", k, ["schemata", "tables", "columns"][what], label(0));
        let mut cat = ch.must("new catalog", v::Catalog::new)?;
        let types = v::TYPES;
        let col = |i: usize| (format!("c{}", i), types[i % types.len()], i % 3 == 0, i % 5 == 0);
        let put = |ch: &mut Ch, cat: &mut v::Catalog, schema: &str, table: &str, cols: &[(String, &'static str, bool, bool)]| ch.must("putting a table", || cat.put(schema, table, cols.len() % 2 == 0, &cols.iter().map(|c| v::ColumnSpec { name: &c.0, data_type: c.1, not_null: c.2, primary_key: c.3 }).collect::<Vec<_>>()));
        let expect = |ch: &mut Ch, cat: &v::Catalog, schema: &str, table: &str, cols: Option<&[(String, &'static str, bool, bool)]>| -> Res {
            let got = ch.must(&format!("{}: describe({:?}, {:?})", desc(), schema, table), || cat.describe(schema, table))?;
            match (cols, got) {
                (None, Err(_)) => Ok(()),
                (Some(w), Ok(g)) => { let w: Vec<(String, String, bool, bool)> = w.iter().map(|c| (c.0.clone(), v::type_properties(c.1).0, c.2, c.3)).collect();
                    match g.iter().zip(&w).position(|(a, b)| a != b) { None if g.len() == w.len() => Ok(()), p => { let p = p.unwrap_or(g.len().min(w.len())); fail(format!("{}: describe({:?}, {:?}) answers {} columns, {} is {:?}; the table has {}, {:?}", desc(), schema, table, g.len(), p, g.get(p), w.len(), w.get(p))) } } }
                (w, g) => fail(format!("{}: describe({:?}, {:?}) answers {:?}, {}", desc(), schema, table, g.map(|g| g.len()), if w.is_some() { "but it is there" } else { "but there is none" })),
            }
        };
        match what {
            0 => {
                for &i in &seq { let n = spell(&label(i), spelling); let r = ch.must("create", || cat.create_schema(&n))?; ensure!(r.is_ok(), "{}: creating {:?}: {:?}", desc(), n, r); put(ch, &mut cat, &n, "t", &[col(i)])?; }
                let before = cat.contents();
                for &i in &seq { let n = spell(&label(i), (spelling + 1 + i % 2) % 4); let r = ch.must("create", || cat.create_schema(&n))?; ensure!(r.is_err(), "{}: creating {:?} a second time succeeds", desc(), n); }
                let after = cat.contents();
                ensure!(before == after, "{}: creating schemata a second time changed the catalog", desc());
                for i in 0..k { for w in [1, 2, 3] { expect(ch, &cat, &spell(&label(i), w), "T", Some(&[col(i)]))?; } }
                expect(ch, &cat, &label(k), "t", None)?; expect(ch, &cat, &label(0)[1..], "t", None)?; expect(ch, &cat, &format!("{}x", label(k / 2)), "t", None)?;
            }
            1 => {
                let r = ch.must("create", || cat.create_schema("s"))?; ensure!(r.is_ok(), "creating s: {:?}", r);
                for &i in &seq { put(ch, &mut cat, "S", &spell(&label(i), spelling), &[col(i), col(i + 1)][..1 + i % 2])?; }
                for i in 0..k { for w in [1, 2, 3] { expect(ch, &cat, "s", &spell(&label(i), w), Some(&[col(i), col(i + 1)][..1 + i % 2]))?; } }
                expect(ch, &cat, "s", &label(k), None)?; expect(ch, &cat, "s", &label(0)[1..], None)?; expect(ch, &cat, "s", &format!("{}x", label(k / 2)), None)?; expect(ch, &cat, &label(0), &label(0), None)?;
            }
            _ => {
                let r = ch.must("create", || cat.create_schema("s"))?; ensure!(r.is_ok(), "creating s: {:?}", r);
                let cols: Vec<(String, &'static str, bool, bool)> = seq.iter().map(|&i| { let c = col(i); (spell(&label(i), spelling), c.1, c.2, c.3) }).collect();
                put(ch, &mut cat, "s", "t", &cols)?; put(ch, &mut cat, "s", "u", &cols[..k - 1])?;
                expect(ch, &cat, "S", "T", Some(&cols))?; expect(ch, &cat, "s", "u", Some(&cols[..k - 1]))?;
            }
        }
        ch.state(format!("{} {} {} {}", desc(), order, form, spelling).as_bytes());
        ch.sample(desc);
        Ok(())
    }));
    // histories of the catalog
    const NAMES: &[&str] = &["default", "DEFAULT", "s", "S", "t", "ss", "sS", "_", ""];
    let depth = if th { 6 } else { 5 };
    v.push(Suite::new("catalog-histories", &format!("all histories of up to {} creations of schemata and tables over 9 spellings of names, with a lookup of every table under every spelling in every schema after each", depth), move |ch| {
        let mut cat = ch.must("new catalog", v::Catalog::new)?;
        // (spelling as created, tables)
        let mut model: Vec<(String, Vec<(String, String)>)> = vec![];
        let initial = ch.must("contents", || cat.contents())?;
        for (name, _, objects) in &initial { ensure!(objects.is_empty(), "a new catalog has objects in {:?}", name); model.push((name.clone(), vec![])); }
        let n = ch.range(1, depth);
        for _ in 0..n {
            let name = *ch.pick(NAMES);
            let known = model.iter().position(|m| fold(&m.0) == fold(name));
            if known.is_some() && ch.flag() {
                // a table or view
                let table = *ch.pick(&["t", "T", "u"]);
                let view = table == "u";
                let column = format!("c{}", model.iter().map(|m| m.1.len()).sum::<usize>());
                let tables = &mut model[known.unwrap()].1;
                ch.must("putting a table", || cat.put(name, table, view, &[v::ColumnSpec { name: &column, data_type: "NUMERIC", not_null: view, primary_key: !view }]))?;
                match tables.iter_mut().find(|t| fold(&t.0) == fold(table)) { Some(t) => t.1 = column, None => tables.push((table.into(), column)) }
                ch.log(|| format!("put {}.{}", name, table));
            } else {
                let before = cat.contents();
                let r = ch.must(&format!("create_schema({:?})", name), || cat.create_schema(name))?;
                ch.log(|| format!("create {} -> {:?}", name, r));
                ensure!(r.is_ok() == known.is_none(), "creating schema {:?} when there are {:?}: {:?}", name, model.iter().map(|m| &m.0).collect::<Vec<_>>(), r);
                if r.is_ok() { model.push((name.into(), vec![])); }
                else { ensure!(cat.contents() == before, "a refused creation of schema {:?} changed the catalog from {:?} to {:?}", name, before, cat.contents()); }
            }
        }
        ch.state(format!("{:?}", model).as_bytes());
        let mut got: Vec<(String, String)> = cat.contents().into_iter().map(|c| (c.0, c.1)).collect(); got.sort();
        let mut want: Vec<(String, String)> = model.iter().map(|m| (m.0.clone(), m.0.clone())).collect(); want.sort();
        ensure!(got == want, "the catalog has the schemata {:?} instead of {:?}", got, want);
        for schema in NAMES { for table in ["t", "T", "u", "U", "x"] {
            let want = model.iter().find(|m| fold(&m.0) == fold(schema)).and_then(|m| m.1.iter().find(|t| fold(&t.0) == fold(table)));
            let got = ch.must(&format!("describe({:?}, {:?})", schema, table), || cat.describe(schema, table))?;
            match (want, got) {
                (None, Err(_)) => (),
                (Some((t, c)), Ok(cols)) => { let view = fold(t) == "U"; ensure!(cols == vec![(c.clone(), "NUMERIC".to_string(), view, !view)], "describe({:?}, {:?}) answers {:?}, the table has column {:?}", schema, table, cols, c) }
                (w, g) => return fail(format!("describe({:?}, {:?}) answers {:?}, expected {:?}; schemata {:?}", schema, table, g, w, model)),
            }
        } }
        Ok(())
    }));
    v
}
