//! Random programs in the interactive language, how they are written, and what they mean.
//!
//! The meaning is computed directly from the statements, scope by scope and iteration by iteration; nothing here calls
//! the language's own term evaluator, lowering, rendering or optimisation.
use interactive::ir::Value;
use interactive::parse::{BinOp, Expr, Projection, Reducer, Stmt, Term, UnOp};
use simcore::Sim;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Pairs = (Value, Value);
pub type Rows = BTreeMap<Pairs, i64>;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Int, Tup(Vec<Ty>), List(Box<Ty>), Sum(Vec<Vec<Ty>>) }
#[derive(Clone, Debug, PartialEq)]
pub struct Shape { pub key: Vec<Ty>, pub val: Ty }
impl Shape {
    pub fn flat(k: usize, v: usize) -> Shape { Shape { key: vec![Ty::Int; k], val: Ty::Tup(vec![Ty::Int; v]) } }
    fn rows(&self) -> Vec<Ty> { vec![Ty::Tup(self.key.clone()), self.val.clone()] }
    pub fn arity(&self) -> (usize, usize) { (self.key.len(), if let Ty::Tup(v) = &self.val { v.len() } else { panic!("harness: not a flat shape") }) }
}

pub fn row(xs: &[i64]) -> Value { Value::Tuple(xs.iter().map(|x| Value::Int(*x)).collect()) }
pub fn unit() -> Value { Value::Tuple(vec![]) }
pub fn add(b: &mut Rows, r: Pairs, d: i64) {
    if d == 0 { return; }
    let e = b.entry(r.clone()).or_insert(0);
    *e += d;
    if *e == 0 { b.remove(&r); }
}

// ---------------------------------------------------------------- meaning

/// A computation was abandoned: it does not settle, or grows too large.
#[derive(Debug)]
pub struct Unsettled;
type Res<T> = Result<T, Unsettled>;

fn int(v: &Value) -> i64 { if let Value::Int(n) = v { *n } else { panic!("harness: expected an integer, got {v:?}") } }
fn truthy(v: &Value) -> bool { matches!(v, Value::Int(n) if *n != 0) }
fn items(v: Value) -> Vec<Value> { match v { Value::Tuple(x) | Value::List(x) => x, o => panic!("harness: expected a sequence, got {o:?}") } }
fn mix(x: u64) -> u64 {
    let mut x = x.wrapping_mul(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

/// The value of a term over rows, with `bound` innermost last.
pub fn term(t: &Term, rows: &[&Value], bound: &[Value]) -> Value {
    let go = |t: &Term| term(t, rows, bound);
    let with = |t: &Term, xs: Vec<Value>| { let mut b = bound.to_vec(); b.extend(xs); term(t, rows, &b) };
    let seq = |fs: &[Term]| fs.iter().flat_map(|f| match f { Term::Spread(x) => items(go(x)), f => vec![go(f)] }).collect::<Vec<_>>();
    let b = |x: bool| Value::Int(x as i64);
    match t {
        Term::Var(i) => rows[*i].clone(),
        Term::Bound(k) => bound[bound.len() - 1 - k].clone(),
        Term::Int(n) => Value::Int(*n),
        Term::Tuple(fs) => Value::Tuple(seq(fs)),
        Term::List(fs) => Value::List(seq(fs)),
        Term::Spread(_) => panic!("harness: misplaced splice"),
        Term::Proj(x, i) => items(go(x))[*i].clone(),
        Term::Inject(tag, x) => Value::Variant(int(&go(tag)) as u32, Box::new(go(x))),
        Term::Case { scrutinee, arms, default } => match go(scrutinee) {
            Value::Variant(tag, payload) => match (arms.get(tag as usize), default) {
                (Some(a), _) => with(a, vec![*payload]),
                (None, Some(d)) => go(d),
                _ => panic!("harness: unmatched case"),
            },
            o => panic!("harness: case of {o:?}"),
        },
        Term::Fold { list, init, step } => items(go(list)).into_iter().fold(go(init), |acc, e| with(step, vec![acc, e])),
        Term::If { cond, then, els } => if truthy(&go(cond)) { go(then) } else { go(els) },
        Term::Hash(args) => {
            let n = int(&go(&args[0]));
            let h = (args[1..].iter().fold(0xcbf29ce484222325, |h, a| mix(h ^ int(&go(a)) as u64)) >> 1) as i64;
            Value::Int(if n > 0 { h % n } else { h })
        }
        Term::Unary(UnOp::Neg, x) => Value::Int(-int(&go(x))),
        Term::Unary(UnOp::Not, x) => b(!truthy(&go(x))),
        Term::Unary(UnOp::IsTag(k), x) => b(matches!(go(x), Value::Variant(t, _) if t == *k)),
        Term::Unary(UnOp::Len, x) => Value::Int(items(go(x)).len() as i64),
        Term::Binary(op, l, r) => {
            let (l, r) = (go(l), go(r));
            match op {
                BinOp::Add => Value::Int(int(&l) + int(&r)), BinOp::Sub => Value::Int(int(&l) - int(&r)), BinOp::Mul => Value::Int(int(&l) * int(&r)),
                BinOp::Eq => b(l == r), BinOp::Ne => b(l != r), BinOp::Lt => b(l < r), BinOp::Le => b(l <= r), BinOp::Gt => b(l > r), BinOp::Ge => b(l >= r),
                BinOp::And => b(truthy(&l) && truthy(&r)), BinOp::Or => b(truthy(&l) || truthy(&r)),
            }
        }
    }
}

/// A value read from text the way the server reads fed values: a closed term.
pub fn project(p: &Projection, rows: &[&Value]) -> Pairs { (term(&p.key, rows, &[]), term(&p.val, rows, &[])) }

fn delay(t: &Term, r: &Pairs) -> u64 {
    let raw = int(&term(t, &[&r.0, &r.1], &[])) as u64;
    256 * (64 - raw.leading_zeros() as u64)
}

fn size(v: &Value) -> usize {
    match v { Value::Int(_) => 1, Value::Tuple(xs) | Value::List(xs) => 1 + xs.iter().map(size).sum::<usize>(), Value::Variant(_, x) => 1 + size(x) }
}

/// How much a whole evaluation may do.
pub struct Budget { pub work: u64, pub steps: u32, pub rows: usize }
pub struct Eval<'a> { pub inputs: &'a dyn Fn(usize) -> Rows, pub imports: &'a dyn Fn(&str) -> Rows, pub budget: Budget }
type Env<'e> = HashMap<&'e str, Rows>;

impl<'a> Eval<'a> {
    fn spend(&mut self, b: &Rows) -> Res<()> {
        let sizes = b.keys().map(|r| size(&r.0) + size(&r.1));
        let n = 1 + b.len() as u64;
        if n > self.budget.work || b.len() > self.budget.rows || sizes.clone().any(|s| s > 96) || sizes.sum::<usize>() > 4_000 || b.values().any(|d| d.abs() > 1 << 24) { return Err(Unsettled); }
        self.budget.work -= n;
        Ok(())
    }
    /// The contents of an expression at iteration `at` of its scope; `next` collects the earliest later delay.
    fn expr(&mut self, e: &Expr, env: &Env, fields: &HashMap<&str, Env>, at: u64, next: &mut Option<u64>) -> Res<Rows> {
        let mut o = Rows::new();
        match e {
            Expr::Input(i) => o = (self.inputs)(*i),
            Expr::Import(n) => o = (self.imports)(n),
            Expr::Name(n) => o = env.get(n.as_str()).unwrap_or_else(|| panic!("harness: no name {n}")).clone(),
            Expr::Qualified(s, f) => o = fields[s.as_str()][f.as_str()].clone(),
            Expr::Map(e, p) => for (r, d) in self.expr(e, env, fields, at, next)? { add(&mut o, project(p, &[&r.0, &r.1]), d); },
            Expr::Filter(e, t) => { o = self.expr(e, env, fields, at, next)?; o.retain(|r, _| truthy(&term(t, &[&r.0, &r.1], &[]))); }
            Expr::Negate(e) => { o = self.expr(e, env, fields, at, next)?; for d in o.values_mut() { *d = -*d; } }
            Expr::Arrange(e) | Expr::Inspect(e, _) => o = self.expr(e, env, fields, at, next)?,
            Expr::FlatMap(e, t) => for (r, d) in self.expr(e, env, fields, at, next)? {
                for (i, x) in items(term(t, &[&r.0, &r.1], &[])).into_iter().enumerate() { add(&mut o, (r.0.clone(), Value::Tuple(vec![Value::Int(i as i64), x])), d); }
            },
            Expr::EnterAt(e, t) => for (r, d) in self.expr(e, env, fields, at, next)? {
                let n = delay(t, &r);
                if n <= at { add(&mut o, r, d); } else { *next = Some(next.map_or(n, |x| x.min(n))); }
            },
            Expr::LiftIter(_) => panic!("harness: a lift is a statement of its own"),
            Expr::Concat(es) => for e in es { for (r, d) in self.expr(e, env, fields, at, next)? { add(&mut o, r, d); } },
            Expr::Join(l, r, p) => {
                let (l, r) = (self.expr(l, env, fields, at, next)?, self.expr(r, env, fields, at, next)?);
                for ((k, v), d) in &l {
                    for ((k2, w), d2) in r.range((k.clone(), Value::Int(i64::MIN))..).take_while(|x| x.0 .0 == *k) {
                        debug_assert!(k == k2);
                        add(&mut o, project(p, &[k, v, w]), d * d2);
                    }
                    if o.len() > self.budget.rows { return Err(Unsettled); }
                }
            }
            Expr::Reduce(e, red) => {
                let mut groups: BTreeMap<Value, Vec<(Value, i64)>> = BTreeMap::new();
                for ((k, v), d) in self.expr(e, env, fields, at, next)? { groups.entry(k).or_default().push((v, d)); }
                for (k, vs) in groups {
                    match red {
                        Reducer::Min => add(&mut o, (k, vs.into_iter().map(|v| v.0).min().unwrap()), 1),
                        Reducer::Distinct => add(&mut o, (k, unit()), 1),
                        Reducer::Count => { let n: i64 = vs.iter().map(|v| v.1).sum(); if n > 0 { add(&mut o, (k, row(&[n])), 1); } }
                        Reducer::Collect => {
                            if vs.iter().map(|v| v.1.max(0)).sum::<i64>() > 24 { return Err(Unsettled); }
                            add(&mut o, (k, Value::List(vs.into_iter().flat_map(|(v, d)| std::iter::repeat(v).take(d.max(0) as usize)).collect())), 1)
                        }
                    }
                }
            }
        }
        self.spend(&o)?;
        Ok(o)
    }

    /// What every name of a scope settles to. Statements come in an order in which each uses only earlier ones.
    pub fn scope<'e>(&mut self, body: &'e [Stmt], outer: &Env) -> Res<Env<'e>> {
        let mut vars: Env<'e> = body.iter().filter_map(|s| if let Stmt::Var(n, _) = s { Some((n.as_str(), Rows::new())) } else { None }).collect();
        let mut lifts: HashMap<&'e str, (Rows, Rows)> = HashMap::new();
        let mut at = 0;
        loop {
            if self.budget.steps == 0 { return Err(Unsettled); }
            self.budget.steps -= 1;
            let mut next = None;
            let mut env: Env = outer.clone();
            let mut mine: Env<'e> = Env::new();
            let mut fields: HashMap<&str, Env> = HashMap::new();
            for (n, b) in &vars { env.insert(n, b.clone()); mine.insert(n, b.clone()); }
            for s in body {
                match s {
                    Stmt::Let(n, Expr::LiftIter(e)) => {
                        let now = self.expr(e, &env, &fields, at, &mut next)?;
                        let (was, sum) = lifts.entry(n).or_default();
                        let mut change = now.clone();
                        for (r, d) in was.iter() { add(&mut change, r.clone(), -d); }
                        for ((k, v), d) in change {
                            let i = Value::Int(at as i64);
                            let v = match v { Value::Tuple(mut xs) => { xs.push(i); Value::Tuple(xs) } o => Value::Tuple(vec![o, i]) };
                            add(sum, (k, v), d);
                        }
                        *was = now;
                        self.spend(&sum.clone())?;
                        mine.insert(n, sum.clone());
                    }
                    Stmt::Let(n, e) => { let b = self.expr(e, &env, &fields, at, &mut next)?; env.insert(n, b.clone()); mine.insert(n, b); }
                    Stmt::Scope(n, b) => { let f = self.scope(b, &env)?; fields.insert(n, f); }
                    Stmt::Export(n, e) => { let b = self.expr(e, &env, &fields, at, &mut next)?; mine.insert(n, b); }
                    Stmt::Var(..) => { }
                }
            }
            let mut then = Env::new();
            for s in body { if let Stmt::Var(n, e) = s { then.insert(n.as_str(), self.expr(e, &env, &fields, at, &mut next)?); } }
            if then == vars {
                match next { None => return Ok(mine), Some(n) => at = n }
            } else { vars = then; at += 1; }
        }
    }
}

/// Contents of every export; statements in definition order.
pub fn meaning(body: &[Stmt], inputs: &dyn Fn(usize) -> Rows, imports: &dyn Fn(&str) -> Rows) -> Res<BTreeMap<String, Rows>> {
    let mut e = Eval { inputs, imports, budget: Budget { work: 60_000, steps: 400, rows: 160 } };
    let m = e.scope(body, &Env::new())?;
    Ok(body.iter().filter_map(|s| if let Stmt::Export(n, _) = s { Some((n.clone(), m[n.as_str()].clone())) } else { None }).collect())
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// Only tuples of integers.
    pub flat: bool,
    /// For explanation: no lifts, no lists, one operation at a time as the rewrite accepts.
    pub explain: bool,
    pub depth: usize,
    pub ints: i64,
}

struct Gen<'s> { sim: &'s Sim, style: Style, fresh: usize }
/// The names a place in a program can use.
#[derive(Clone, Default)]
struct Scopes { names: Vec<(String, Shape)>, fields: Vec<(String, String, Shape)>, inputs: Vec<(Expr, Shape)>, level: usize }

impl<'s> Gen<'s> {
    fn g(&self, n: u64) -> u64 { self.sim.gen(n) }
    fn name(&mut self, p: &str) -> String { self.fresh += 1; format!("{p}{}", self.fresh) }
    fn ty(&self, depth: usize) -> Ty {
        if self.style.flat || depth == 0 { return Ty::Int; }
        match self.sim.genw(&[12, 1, 1, 2]) {
            0 => Ty::Int,
            1 => Ty::Tup((0..1 + self.g(2)).map(|_| self.ty(depth - 1)).collect()),
            2 => Ty::List(Box::new(self.ty(depth - 1))),
            _ => Ty::Sum((0..1 + self.g(3)).map(|_| (0..self.g(3)).map(|_| self.ty(depth - 1)).collect()).collect()),
        }
    }
    fn shape(&self) -> Shape {
        let k = [1, 1, 1, 2, 0][self.sim.genw(&[4, 4, 4, 3, 1])];
        Shape { key: (0..k).map(|_| self.ty(2)).collect(), val: Ty::Tup((0..self.g(3)).map(|_| self.ty(2)).collect()) }
    }

    /// Every part of the rows and binders in reach that has type `ty`.
    fn places(&self, ty: &Ty, rows: &[Ty], bound: &[Ty]) -> Vec<Term> {
        fn walk(t: Term, has: &Ty, ty: &Ty, out: &mut Vec<Term>) {
            if has == ty { out.push(t.clone()); }
            if let Ty::Tup(fs) = has { for (i, f) in fs.iter().enumerate() { walk(Term::Proj(Box::new(t.clone()), i), f, ty, out); } }
        }
        let mut out = vec![];
        for (i, r) in rows.iter().enumerate() { walk(Term::Var(i), r, ty, &mut out); }
        for (i, r) in bound.iter().enumerate() { walk(Term::Bound(bound.len() - 1 - i), r, ty, &mut out); }
        out
    }
    fn bx(&self, ty: &Ty, rows: &[Ty], bound: &mut Vec<Ty>, fuel: u32) -> Box<Term> { Box::new(self.term(ty, rows, bound, fuel)) }
    fn term(&self, ty: &Ty, rows: &[Ty], bound: &mut Vec<Ty>, fuel: u32) -> Term {
        let places = self.places(ty, rows, bound);
        if !places.is_empty() && (fuel == 0 || self.sim.genw(&[3, 1]) == 0) { return places[self.g(places.len() as u64) as usize].clone(); }
        if fuel > 0 && !self.style.explain {
            match self.sim.genw(&[10, 2, 2, 1]) {
                0 => { }
                1 => return Term::If { cond: self.bx_bool(rows, bound, fuel - 1), then: self.bx(ty, rows, bound, fuel - 1), els: self.bx(ty, rows, bound, fuel - 1) },
                2 => if let Some(t) = self.case(ty, rows, bound, fuel - 1) { return t; },
                _ => if *ty == Ty::Int { if let Some(t) = self.fold(rows, bound, fuel - 1) { return t; } },
            }
        }
        match ty {
            Ty::Int => {
                let small = Term::Int(self.g(self.style.ints as u64) as i64);
                if fuel == 0 || self.style.explain { return small; }
                match self.sim.genw(&[3, 3, 1, 1]) {
                    0 => small,
                    1 => Term::Hash([Term::Int(self.style.ints)].into_iter().chain((0..1 + self.g(2)).map(|_| self.arith(rows, bound, fuel - 1))).collect()),
                    2 => *self.bx_bool(rows, bound, fuel - 1),
                    _ => Term::Hash(vec![Term::Int(self.style.ints), self.arith(rows, bound, fuel - 1)]),
                }
            }
            Ty::Tup(fs) => Term::Tuple(fs.iter().map(|f| self.term(f, rows, bound, fuel.saturating_sub(1))).collect()),
            Ty::List(e) => Term::List((0..self.g(4)).map(|_| self.term(e, rows, bound, fuel.saturating_sub(1))).collect()),
            Ty::Sum(alts) => {
                let i = self.g(alts.len() as u64) as usize;
                let same: Vec<usize> = (0..alts.len()).filter(|j| alts[*j] == alts[i]).collect();
                let payload = Ty::Tup(alts[i].clone());
                let tag = if fuel > 0 && same.len() == alts.len() && self.g(2) == 0 { Term::Hash(vec![Term::Int(alts.len() as i64), self.term(&Ty::Int, rows, bound, fuel - 1)]) } else { Term::Int(i as i64) };
                let build = Term::Tuple(if let Ty::Tup(fs) = &payload { fs.iter().map(|f| self.term(f, rows, bound, fuel.saturating_sub(1))).collect() } else { vec![] });
                Term::Inject(Box::new(tag), Box::new(build))
            }
        }
    }
    /// An integer of any size, for use where its size does not matter.
    fn arith(&self, rows: &[Ty], bound: &mut Vec<Ty>, fuel: u32) -> Term {
        if fuel == 0 { return self.term(&Ty::Int, rows, bound, 0); }
        match self.sim.genw(&[3, 4, 1, 1]) {
            0 => self.term(&Ty::Int, rows, bound, fuel - 1),
            1 => Term::Binary([BinOp::Add, BinOp::Sub, BinOp::Mul][self.g(3) as usize], Box::new(self.arith(rows, bound, fuel - 1)), Box::new(self.arith(rows, bound, fuel - 1))),
            2 => Term::Unary(UnOp::Neg, Box::new(self.arith(rows, bound, fuel - 1))),
            _ => Term::Unary(UnOp::Len, Box::new(Term::Var(self.g(rows.len() as u64) as usize))),
        }
    }
    fn bx_bool(&self, rows: &[Ty], bound: &mut Vec<Ty>, fuel: u32) -> Box<Term> { Box::new(self.boolean(rows, bound, fuel)) }
    fn boolean(&self, rows: &[Ty], bound: &mut Vec<Ty>, fuel: u32) -> Term {
        if fuel > 0 {
            match self.sim.genw(&[6, 1, 1, 1, 1]) {
                0 => { }
                1 => return Term::Binary(BinOp::And, self.bx_bool(rows, bound, fuel - 1), self.bx_bool(rows, bound, fuel - 1)),
                2 => return Term::Binary(BinOp::Or, self.bx_bool(rows, bound, fuel - 1), self.bx_bool(rows, bound, fuel - 1)),
                3 => return Term::Unary(UnOp::Not, self.bx_bool(rows, bound, fuel - 1)),
                _ => {
                    let sums = self.sums(rows, bound);
                    if !sums.is_empty() {
                        let (t, alts) = &sums[self.g(sums.len() as u64) as usize];
                        return Term::Unary(UnOp::IsTag(self.g(alts.len() as u64) as u32), Box::new(t.clone()));
                    }
                }
            }
        }
        let op = [BinOp::Eq, BinOp::Ne, BinOp::Lt, BinOp::Le, BinOp::Gt, BinOp::Ge][self.g(6) as usize];
        let (l, r) = if !self.style.flat && self.g(6) == 0 {
            let i = self.g(rows.len() as u64) as usize;
            (Term::Var(i), self.term(&rows[i].clone(), rows, bound, 1))
        } else if self.style.explain { (self.term(&Ty::Int, rows, bound, 0), self.term(&Ty::Int, rows, bound, 0)) } else { (self.arith(rows, bound, fuel), self.arith(rows, bound, fuel.min(1))) };
        Term::Binary(op, Box::new(l), Box::new(r))
    }
    /// Everything in reach that is a variant, with its alternatives.
    fn sums(&self, rows: &[Ty], bound: &[Ty]) -> Vec<(Term, Vec<Vec<Ty>>)> { self.parts(rows, bound).into_iter().filter_map(|(t, ty)| if let Ty::Sum(a) = ty { Some((t, a)) } else { None }).collect() }
    fn parts(&self, rows: &[Ty], bound: &[Ty]) -> Vec<(Term, Ty)> {
        fn walk(t: Term, has: &Ty, out: &mut Vec<(Term, Ty)>) {
            out.push((t.clone(), has.clone()));
            if let Ty::Tup(fs) = has { for (i, f) in fs.iter().enumerate() { walk(Term::Proj(Box::new(t.clone()), i), f, out); } }
        }
        let mut out = vec![];
        for (i, r) in rows.iter().enumerate() { walk(Term::Var(i), r, &mut out); }
        for (i, r) in bound.iter().enumerate() { walk(Term::Bound(bound.len() - 1 - i), r, &mut out); }
        out
    }
    fn case(&self, ty: &Ty, rows: &[Ty], bound: &mut Vec<Ty>, fuel: u32) -> Option<Term> {
        let sums = self.sums(rows, bound);
        if sums.is_empty() { return None; }
        let (t, alts) = sums[self.g(sums.len() as u64) as usize].clone();
        let n = if self.g(3) == 0 { self.g(alts.len() as u64 + 1) as usize } else { alts.len() };
        let arms = alts[..n].iter().map(|a| { bound.push(Ty::Tup(a.clone())); let t = self.term(ty, rows, bound, fuel); bound.pop(); t }).collect();
        let default = if n < alts.len() || self.g(4) == 0 { Some(self.bx(ty, rows, bound, fuel)) } else { None };
        Some(Term::Case { scrutinee: Box::new(t), arms, default })
    }
    fn fold(&self, rows: &[Ty], bound: &mut Vec<Ty>, fuel: u32) -> Option<Term> {
        let lists: Vec<(Term, Ty)> = self.parts(rows, bound).into_iter().filter_map(|(t, ty)| if let Ty::List(e) = ty { Some((t, *e)) } else { None }).collect();
        if lists.is_empty() { return None; }
        let (t, e) = lists[self.g(lists.len() as u64) as usize].clone();
        let init = self.bx(&Ty::Int, rows, bound, fuel);
        bound.push(Ty::Int);
        bound.push(e);
        let step = self.bx(&Ty::Int, rows, bound, fuel.max(1));
        bound.pop();
        bound.pop();
        Some(Term::Fold { list: Box::new(t), init, step })
    }

    /// A projection of `rows` to `to`, splicing whole rows where they fit.
    fn projection(&self, rows: &[Ty], to: &Shape) -> Projection {
        let side = |fs: &[Ty]| {
            let mut out = vec![];
            let mut i = 0;
            while i < fs.len() {
                let fit: Vec<(usize, usize)> = rows.iter().enumerate().filter_map(|(r, t)| if let Ty::Tup(x) = t { if fs[i..].starts_with(x) { Some((r, x.len())) } else { None } } else { None }).filter(|x| x.1 > 0).collect();
                if !fit.is_empty() && self.g(2) == 0 {
                    let (r, n) = fit[self.g(fit.len() as u64) as usize];
                    out.push(Term::Spread(Box::new(Term::Var(r))));
                    i += n;
                } else { out.push(self.term(&fs[i], rows, &mut vec![], 2)); i += 1; }
            }
            Term::Tuple(out)
        };
        let Ty::Tup(v) = &to.val else { panic!("harness: projections build tuples") };
        Projection { key: side(&to.key), val: side(v) }
    }
    fn to(&self, e: Expr, from: &Shape, to: &Shape) -> Expr { if from == to && self.g(3) > 0 { e } else { Expr::Map(Box::new(e), self.projection(&from.rows(), to)) } }

    /// Something to start from.
    fn atom(&self, s: &Scopes) -> (Expr, Shape) {
        let n = s.inputs.len() + s.names.len() + s.fields.len();
        // Recent names first.
        let i = (self.g(n as u64).max(self.g(n as u64))) as usize;
        if i < s.inputs.len() { s.inputs[i].clone() }
        else if let Some((n, sh)) = s.names.get(i - s.inputs.len()) { (Expr::Name(n.clone()), sh.clone()) }
        else { let (c, f, sh) = &s.fields[i - s.inputs.len() - s.names.len()]; (Expr::Qualified(c.clone(), f.clone()), sh.clone()) }
    }
    fn expr(&self, s: &Scopes, fuel: u32) -> (Expr, Shape) {
        if fuel == 0 { return self.atom(s); }
        let (e, sh) = self.expr(s, fuel - 1);
        let bx = Box::new(e.clone());
        let x = self.style.explain;
        match self.sim.genw(&[5, 3, if x { 0 } else { 2 }, 5, 4, if x { 0 } else { 2 }, 3, 3, 2, 1, if s.level > 0 { 2 } else { 0 }]) {
            0 => { let t = self.shape(); (Expr::Map(bx, self.projection(&sh.rows(), &t)), t) }
            1 => (Expr::Filter(bx, self.boolean(&sh.rows(), &mut vec![], 2)), sh),
            2 => (Expr::Negate(bx), sh),
            3 => {
                let (f, sf) = self.expr(s, fuel.saturating_sub(2));
                let key = if sh.key == sf.key { sh.key.clone() } else { vec![Ty::Int; 1 + self.g(2) as usize] };
                let (tl, tr) = (Shape { key: key.clone(), val: Ty::Tup(vec![Ty::Int; self.g(2) as usize]) }, Shape { key, val: Ty::Tup(vec![Ty::Int; self.g(2) as usize]) });
                let (l, sl) = if sh.key == tl.key { (e, sh.clone()) } else { (self.to(e, &sh, &tl), tl) };
                let (r, sr) = if sf.key == tr.key { (f, sf.clone()) } else { (self.to(f, &sf, &tr), tr) };
                let out = self.shape();
                let p = self.projection(&[Ty::Tup(sl.key.clone()), sl.val.clone(), sr.val.clone()], &out);
                (Expr::Join(Box::new(l), Box::new(r), p), out)
            }
            4 => {
                let i = if x && s.level > 0 { 1 } else { self.sim.genw(&[4, 4, 2, if self.style.flat { 0 } else { 3 }]) };
                let (r, v) = [(Reducer::Min, sh.val.clone()), (Reducer::Distinct, Ty::Tup(vec![])), (Reducer::Count, Ty::Tup(vec![Ty::Int])), (Reducer::Collect, Ty::List(Box::new(sh.val.clone())))][i].clone();
                (Expr::Reduce(bx, r), Shape { key: sh.key, val: v })
            }
            5 => {
                let lists: Vec<(Term, Ty)> = self.parts(&sh.rows(), &[]).into_iter().filter_map(|(t, ty)| if let Ty::List(e) = ty { Some((t, *e)) } else { None }).collect();
                let (t, el) = if !lists.is_empty() && self.g(4) > 0 { lists[self.g(lists.len() as u64) as usize].clone() } else { let el = self.ty(1); (self.term(&Ty::List(Box::new(el.clone())), &sh.rows(), &mut vec![], 1), el) };
                (Expr::FlatMap(bx, t), Shape { key: sh.key, val: Ty::Tup(vec![Ty::Int, el]) })
            }
            6 => {
                let mut es = vec![e];
                for _ in 0..1 + self.g(2) {
                    let (f, sf) = self.expr(s, fuel.saturating_sub(2));
                    let f = if let Ty::Tup(_) = sh.val { if sf == sh { f } else { self.to(f, &sf, &sh) } } else if sf == sh { f } else { continue };
                    es.push(if !x && self.g(4) == 0 { Expr::Negate(Box::new(f)) } else { f });
                }
                if es.len() == 1 { (es.pop().unwrap(), sh) } else { (Expr::Concat(es), sh) }
            }
            7 => (e, sh),
            8 => (Expr::Arrange(bx), sh),
            9 => (Expr::Inspect(bx, "seen".into()), sh),
            _ => {
                let t = match self.g(4) { 0 => Term::Int(self.g(3) as i64), 1 if !self.style.explain => self.arith(&sh.rows(), &mut vec![], 2), _ => self.term(&Ty::Int, &sh.rows(), &mut vec![], 0) };
                (Expr::EnterAt(bx, t), sh)
            }
        }
    }
    /// A scope's statements, in definition order, and the names others may use.
    fn body(&mut self, outer: &Scopes, level: usize) -> (Vec<Stmt>, Vec<(String, Shape)>) {
        let mut s = Scopes { names: outer.names.clone(), fields: vec![], inputs: outer.inputs.clone(), level };
        let (mut out, mut vars, mut open) = (vec![], vec![], vec![]);
        if level > 0 {
            s.inputs = vec![];
            // Fields of the enclosing scope's children are not names here.
            for _ in 0..[0, 1, 1, 2][self.g(4) as usize] {
                let n = self.name("v");
                let sh = Shape::flat(1 + self.g(2) as usize, self.g(2) as usize);
                s.names.push((n.clone(), sh.clone()));
                vars.push((n, sh));
            }
        }
        let n = if level == 0 { 1 + self.g(3) } else { self.g(3) };
        if level == 0 {
            // Scopes need something to start from.
            let (e, sh) = self.expr(&s, 0);
            let n = self.name("x");
            s.names.push((n.clone(), sh.clone()));
            open.push((n.clone(), sh));
            out.push(Stmt::Let(n, e));
        }
        for i in 0..n + 1 {
            if level < self.style.depth && (i == n || self.g(3) == 0) && self.g(8) > 0 {
                let c = self.name("s");
                let (b, fs) = self.body(&s, level + 1);
                for (f, sh) in fs { s.fields.push((c.clone(), f, sh)); }
                out.push(Stmt::Scope(c, b));
            }
            if i < n {
                let (e, sh) = { let f = 1 + self.g(3) as u32; self.expr(&s, f) };
                // Sometimes under a name that hides an outer one.
                let hidden: Vec<String> = outer.names.iter().map(|x| x.0.clone()).filter(|n| level > 0 && self.g(12) == 0 && !self.style.explain && !uses(&e, n) && !out.iter().any(|s| mentions(s, n)) && !vars.iter().any(|v: &(String, Shape)| v.0 == *n)).collect();
                let name = hidden.first().cloned().unwrap_or_else(|| self.name("x"));
                s.names.retain(|x| x.0 != name);
                s.names.push((name.clone(), sh.clone()));
                open.retain(|x: &(String, Shape)| x.0 != name);
                open.push((name.clone(), sh));
                out.push(Stmt::Let(name, e));
            }
        }
        for (v, sh) in &vars {
            let (e, se) = { let f = 1 + self.g(4) as u32; self.expr(&s, f) };
            let mut e = self.to(e, &se, sh);
            if self.style.explain {
                // The rewrite finds the shape of a variable from what it starts with.
                let (b, sb) = self.atom(&Scopes { inputs: vec![], fields: vec![], level, names: outer.names.iter().filter(|n| !out.iter().any(|s| matches!(s, Stmt::Let(m, _) if *m == n.0))).cloned().collect() });
                e = Expr::Concat(vec![self.to(b, &sb, sh), e]);
            }
            let body = match if self.style.explain { 0 } else { self.sim.genw(&[6, 3, 1]) } {
                // A set of whole rows.
                0 => {
                    let n = sh.arity();
                    let all = Projection { key: Term::Tuple(vec![Term::Spread(Box::new(Term::Var(0))), Term::Spread(Box::new(Term::Var(1)))]), val: Term::Tuple(vec![]) };
                    let f = |i: usize| Term::Proj(Box::new(Term::Var(0)), i);
                    let back = Projection { key: Term::Tuple((0..n.0).map(f).collect()), val: Term::Tuple((n.0..n.0 + n.1).map(f).collect()) };
                    Expr::Map(Box::new(Expr::Reduce(Box::new(Expr::Map(Box::new(e), all)), Reducer::Distinct)), back)
                }
                1 => Expr::Reduce(Box::new(e), Reducer::Min),
                // Updates that cancel must meet somewhere, or they go round for ever.
                _ => Expr::Arrange(Box::new(e)),
            };
            out.push(Stmt::Var(v.clone(), body));
            open.push((v.clone(), sh.clone()));
        }
        if level > 0 && !self.style.explain {
            // Lifts are for enclosing scopes only.
            for _ in 0..[0, 0, 0, 1, 2][self.g(5) as usize] {
                let (e, sh) = { let f = self.g(3) as u32; self.expr(&s, f) };
                let n = self.name("l");
                let val = match sh.val { Ty::Tup(mut v) => { v.push(Ty::Int); Ty::Tup(v) } o => Ty::Tup(vec![o, Ty::Int]) };
                open.push((n.clone(), Shape { key: sh.key, val }));
                out.push(Stmt::Let(n, Expr::LiftIter(Box::new(e))));
            }
        }
        if level == 0 {
            for i in 0..1 + self.g(3) {
                let (e, sh) = if i == 0 && !s.fields.is_empty() { let (c, f, sh) = s.fields[self.g(s.fields.len() as u64) as usize].clone(); (Expr::Qualified(c, f), sh) } else { let f = self.g(3) as u32; self.expr(&s, f) };
                let (e, sh) = if self.style.explain { let to = Shape::flat(1, 1); (self.to(e, &sh, &to), to) } else { (e, sh) };
                let n = format!("out{i}");
                open.push((n.clone(), sh));
                out.push(Stmt::Export(n, e));
            }
        }
        (out, open)
    }
}

fn names(e: &Expr, out: &mut BTreeSet<String>) {
    match e {
        Expr::Input(_) | Expr::Import(_) => { }
        Expr::Name(n) => { out.insert(n.clone()); }
        Expr::Qualified(s, _) => { out.insert(s.clone()); }
        Expr::Map(e, _) | Expr::Reduce(e, _) | Expr::Filter(e, _) | Expr::Negate(e) | Expr::EnterAt(e, _) | Expr::LiftIter(e) | Expr::FlatMap(e, _) | Expr::Inspect(e, _) | Expr::Arrange(e) => names(e, out),
        Expr::Join(l, r, _) => { names(l, out); names(r, out); }
        Expr::Concat(es) => for e in es { names(e, out); },
    }
}
fn uses(e: &Expr, n: &str) -> bool { let mut o = BTreeSet::new(); names(e, &mut o); o.contains(n) }
fn mentions(s: &Stmt, n: &str) -> bool { match s { Stmt::Let(m, e) | Stmt::Var(m, e) | Stmt::Export(m, e) => m == n || uses(e, n), Stmt::Scope(m, b) => m == n || b.iter().any(|s| mentions(s, n)) } }

/// A program over inputs (or imports) of given shapes, in definition order.
pub fn generate(sim: &Sim, style: Style, sources: &[(Expr, Shape)]) -> (Vec<Stmt>, Vec<(String, Shape)>) {
    let mut g = Gen { sim, style, fresh: 0 };
    let (body, open) = g.body(&Scopes { names: vec![], fields: vec![], inputs: sources.to_vec(), level: 0 }, 0);
    let exports = body.iter().filter_map(|s| if let Stmt::Export(n, _) = s { Some((n.clone(), open.iter().find(|o| o.0 == *n).unwrap().1.clone())) } else { None }).collect();
    (body, exports)
}

// ---------------------------------------------------------------- writing

/// How many fields of the binder `depth` levels out a term uses.
fn fields_used(t: &Term, depth: usize) -> usize {
    let max = |ts: &[Term], d: usize| ts.iter().map(|t| fields_used(t, d)).max().unwrap_or(0);
    match t {
        Term::Proj(x, i) => if matches!(**x, Term::Bound(k) if k == depth) { i + 1 } else { fields_used(x, depth) },
        Term::Var(_) | Term::Bound(_) | Term::Int(_) => 0,
        Term::Tuple(ts) | Term::List(ts) | Term::Hash(ts) => max(ts, depth),
        Term::Spread(x) | Term::Unary(_, x) => fields_used(x, depth),
        Term::Inject(a, b) | Term::Binary(_, a, b) => fields_used(a, depth).max(fields_used(b, depth)),
        Term::Case { scrutinee, arms, default } => fields_used(scrutinee, depth).max(max(arms, depth + 1)).max(default.as_ref().map_or(0, |d| fields_used(d, depth))),
        Term::Fold { list, init, step } => fields_used(list, depth).max(fields_used(init, depth)).max(fields_used(step, depth + 2)),
        Term::If { cond, then, els } => fields_used(cond, depth).max(fields_used(then, depth)).max(fields_used(els, depth)),
    }
}

/// Whether only the pipe syntax can say this.
pub fn needs_pipe(body: &[Stmt]) -> bool { format!("{body:?}").contains("default: Some") }

/// Writes programs in one of the two syntaxes.
pub struct Writer<'s> { pub sim: &'s Sim, pub pipe: bool, cons: BTreeSet<(i64, usize)>, binders: Vec<Option<usize>> }
impl<'s> Writer<'s> {
    pub fn new(sim: &'s Sim, pipe: bool) -> Self { Writer { sim, pipe, cons: BTreeSet::new(), binders: vec![] } }
    fn con(&mut self, tag: i64, arity: usize) -> String { self.cons.insert((tag, arity)); format!("C{tag}x{arity}") }
    fn list(&mut self, ts: &[Term]) -> String { ts.iter().map(|t| self.term(t, 0)).collect::<Vec<_>>().join(", ") }
    /// `level` is how tightly the surroundings bind.
    pub fn term(&mut self, t: &Term, level: u32) -> String {
        let (text, own) = match t {
            Term::Var(i) => (format!("${i}"), 9),
            Term::Bound(k) => (format!("^{k}"), 9),
            Term::Int(n) if *n < 0 => (format!("-{}", -n), 0),
            Term::Int(n) => (n.to_string(), 9),
            Term::Tuple(ts) => (format!("tuple({})", self.list(ts)), 9),
            Term::List(ts) => (format!("list({})", self.list(ts)), 9),
            Term::Spread(_) => panic!("harness: misplaced splice"),
            Term::Proj(x, i) => {
                // A matched payload's field has a name in the pipe syntax.
                if let (Term::Bound(k), true) = (&**x, self.pipe && self.sim.gen(2) == 0) {
                    let at = self.binders.len() - 1 - k;
                    if self.binders[at].is_some() { return format!("b{at}f{i}"); }
                }
                if self.sim.gen(6) == 0 { (format!("proj({}, {i})", self.term(x, 0)), 9) } else { (format!("{}[{i}]", self.term(x, 9)), 9) }
            }
            Term::Inject(tag, x) => match (&**tag, &**x) {
                (Term::Int(n), Term::Tuple(ts)) if self.pipe && self.sim.gen(2) == 0 => { let c = self.con(*n, ts.len()); (format!("{c}({})", self.list(ts)), 9) }
                _ => { let (a, b) = (self.term(tag, 0), self.term(x, 0)); (format!("{}({a}, {b})", if self.sim.gen(2) == 0 { "inject" } else { "variant" }), 9) }
            },
            Term::Case { scrutinee, arms, default } => {
                let s = self.term(scrutinee, 0);
                if self.pipe {
                    let mut out = vec![];
                    for (i, a) in arms.iter().enumerate() {
                        let arity = fields_used(a, 0);
                        let c = self.con(i as i64, arity);
                        let at = self.binders.len();
                        self.binders.push(Some(arity));
                        let body = self.term(a, 0);
                        self.binders.pop();
                        out.push(format!("{c}({}) => {body}", (0..arity).map(|f| format!("b{at}f{f}")).collect::<Vec<_>>().join(", ")));
                    }
                    if let Some(d) = default { out.push(format!("_ => {}", self.term(d, 0))); }
                    (format!("case {s} {{ {} }}", out.join(", ")), 9)
                } else {
                    let mut out = vec![s];
                    for a in arms { self.binders.push(None); out.push(self.term(a, 0)); self.binders.pop(); }
                    assert!(default.is_none());
                    (format!("case({})", out.join(", ")), 9)
                }
            }
            Term::Fold { list, init, step } => {
                let (l, i) = (self.term(list, 0), self.term(init, 0));
                self.binders.push(None);
                self.binders.push(None);
                let s = self.term(step, 0);
                self.binders.pop();
                self.binders.pop();
                (format!("fold({l}, {i}, {s})"), 9)
            }
            Term::If { cond, then, els } => (format!("if({}, {}, {})", self.term(cond, 0), self.term(then, 0), self.term(els, 0)), 9),
            Term::Hash(ts) => (format!("hash({})", self.list(ts)), 9),
            Term::Unary(UnOp::Neg, x) => (format!("-{}", self.term(x, 9)), 0),
            Term::Unary(UnOp::Not, x) => (format!("not({})", self.term(x, 0)), 9),
            Term::Unary(UnOp::IsTag(k), x) => (format!("istag({k}, {})", self.term(x, 0)), 9),
            Term::Unary(UnOp::Len, x) => (format!("len({})", self.term(x, 0)), 9),
            Term::Binary(BinOp::Or, l, r) => (format!("or({}, {})", self.term(l, 0), self.term(r, 0)), 9),
            Term::Binary(op, l, r) => {
                let (sym, own) = match op { BinOp::And => ("&&", 1), BinOp::Eq => ("==", 2), BinOp::Ne => ("!=", 2), BinOp::Lt => ("<", 2), BinOp::Le => ("<=", 2), BinOp::Gt => (">", 2), BinOp::Ge => (">=", 2), BinOp::Add => ("+", 3), BinOp::Sub => ("-", 3), BinOp::Mul => ("*", 4), BinOp::Or => unreachable!() };
                // Left to right, except comparisons, which do not chain.
                let (a, b) = (self.term(l, if own == 2 { 3 } else { own }), self.term(r, own + 1));
                (format!("{a} {sym} {b}"), own)
            }
        };
        if own < level || (own > 0 && own < 9 && self.sim.gen(8) == 0) || (own == 0 && level > 0) { format!("({text})") } else { text }
    }
    fn fields(&mut self, t: &Term) -> String {
        let Term::Tuple(fs) = t else { panic!("harness: a projection side is a tuple") };
        fs.iter().map(|f| match f {
            Term::Spread(x) => { let Term::Var(n) = &**x else { panic!("harness: splices are of rows") }; format!("${n}") }
            f => {
                let s = self.term(f, 0);
                // A field that starts with a bare row would be read as a splice.
                let bare = s.starts_with('$') && s[1..].trim_start_matches(|c: char| c.is_ascii_digit()).chars().next() != Some('[');
                if bare { format!("({s})") } else { s }
            }
        }).collect::<Vec<_>>().join(", ")
    }
    fn proj(&mut self, p: &Projection) -> String {
        let (k, v) = (self.fields(&p.key), self.fields(&p.val));
        if v.is_empty() && self.sim.gen(2) == 0 { format!("({k})") } else { format!("({k} ; {v})") }
    }
    fn red(&self, r: &Reducer) -> &'static str { match (r, self.pipe) { (Reducer::Min, true) => "min", (Reducer::Distinct, true) => "distinct", (Reducer::Count, true) => "count", (Reducer::Collect, true) => "collect", (Reducer::Min, _) => "MIN", (Reducer::Distinct, _) => "DISTINCT", (Reducer::Count, _) => "COUNT", (Reducer::Collect, _) => "COLLECT" } }
    /// `level`: 0 a whole statement, 1 the left of a pipe, 2 an atom, 3 pipes that start with an atom.
    fn expr(&mut self, e: &Expr, level: u32) -> String {
        if !self.pipe {
            return match e {
                Expr::Input(n) => format!("INPUT {n}"),
                Expr::Import(n) => format!("IMPORT \"{n}\""),
                Expr::Name(n) => n.clone(),
                Expr::Qualified(s, f) => format!("{s}::{f}"),
                Expr::Map(e, p) => { let e = self.expr(e, 0); format!("MAP({e}, {})", self.proj(p)) }
                Expr::Join(l, r, p) => { let (l, r) = (self.expr(l, 0), self.expr(r, 0)); format!("JOIN({l}, {r}, {})", self.proj(p)) }
                Expr::Reduce(e, r) => format!("REDUCE({}, {})", self.expr(e, 0), self.red(r)),
                Expr::Filter(e, t) => { let e = self.expr(e, 0); format!("FILTER({e}, {})", self.term(t, 0)) }
                Expr::Negate(e) => format!("NEGATE({})", self.expr(e, 0)),
                Expr::EnterAt(e, t) => { let e = self.expr(e, 0); format!("ENTER_AT({e}, {})", self.term(t, 0)) }
                Expr::LiftIter(e) => format!("LIFT_ITER({})", self.expr(e, 0)),
                Expr::FlatMap(e, t) => { let e = self.expr(e, 0); format!("FLATMAP({e}, {})", self.term(t, 0)) }
                Expr::Inspect(e, l) => format!("INSPECT({}, {l})", self.expr(e, 0)),
                Expr::Concat(es) => format!("CONCAT({})", es.iter().map(|e| self.expr(e, 0)).collect::<Vec<_>>().join(", ")),
                Expr::Arrange(e) => format!("ARRANGE({})", self.expr(e, 0)),
            };
        }
        let (text, own) = match e {
            Expr::Input(n) => (format!("input {n}"), 2),
            Expr::Import(n) => (format!("import \"{n}\""), 2),
            Expr::Name(n) => (n.clone(), 2),
            Expr::Qualified(s, f) => (format!("{s}::{f}"), 2),
            Expr::Concat(es) => {
                let mut s = self.expr(&es[0], 2);
                for e in &es[1..] {
                    match e { Expr::Negate(x) if self.sim.gen(2) == 0 => s += &format!(" - {}", self.expr(x, 2)), e => s += &format!(" + {}", self.expr(e, 2)) }
                }
                (s, 1)
            }
            _ => {
                let (src, op) = match e {
                    Expr::Map(x, p) => (x, format!("{}{}", if self.sim.gen(2) == 0 { "key" } else { "map" }, self.proj(p))),
                    Expr::Join(x, r, p) => { let r = self.expr(r, 3); (x, format!("join({r}, {})", self.proj(p))) }
                    Expr::Reduce(x, r) => (x, self.red(r).to_string()),
                    Expr::Filter(x, t) => (x, format!("filter({})", self.term(t, 0))),
                    Expr::Negate(x) => (x, "negate".into()),
                    Expr::EnterAt(x, t) => (x, format!("enter_at({})", self.term(t, 0))),
                    Expr::LiftIter(x) => (x, "lift_iter".into()),
                    Expr::FlatMap(x, t) => (x, format!("flatmap({})", self.term(t, 0))),
                    Expr::Inspect(x, l) => (x, format!("inspect({l})")),
                    Expr::Arrange(x) => (x, "arrange".into()),
                    _ => unreachable!(),
                };
                // `a + b | op` applies to the sum, but inside a join's argument only atoms start a pipe.
                (format!("{} | {op}", self.expr(src, if level == 3 { 3 } else { 1 })), 0)
            }
        };
        // Pipes chain: the left of a pipe may itself be a pipe or a sum.
        if (level == 2 && own < 2) || (level == 3 && own == 1) { format!("({text})") } else { text }
    }
    fn stmts(&mut self, body: &[Stmt], indent: usize, out: &mut String) {
        // The order of statements means nothing, so it is drawn.
        let mut order: Vec<usize> = (0..body.len()).collect();
        if self.sim.gen(3) > 0 { for i in (1..order.len()).rev() { order.swap(i, self.sim.gen(i as u64 + 1) as usize); } }
        let pad = "  ".repeat(indent);
        for i in order {
            match &body[i] {
                Stmt::Let(n, e) => { let e = self.expr(e, 0); *out += &format!("{pad}let {n} = {e};\n"); }
                Stmt::Var(n, e) => { let e = self.expr(e, 0); *out += &format!("{pad}var {n} = {e};\n"); }
                Stmt::Export(n, e) => { let e = self.expr(e, 0); *out += &format!("{pad}export \"{n}\" = {e};\n"); }
                Stmt::Scope(n, b) => { *out += &format!("{pad}{n}: {}{{\n", if !self.pipe && self.sim.gen(2) == 0 { "scope " } else { "" }); self.stmts(b, indent + 1, out); *out += &format!("{pad}}}\n"); }
            }
        }
    }
    pub fn program(&mut self, body: &[Stmt]) -> String {
        let mut text = String::new();
        self.stmts(body, 0, &mut text);
        let cons: String = self.cons.iter().map(|(t, n)| format!("con C{t}x{n}({n}) = {t};\n")).collect();
        cons + &text
    }
}
