//! Random operator DAGs over `(u64, u64)` rows, rendered as dataflows and evaluated from scratch.
use differential_dataflow::collection::vec::Collection as VC;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::operators::arrange::{Arranged, TraceAgent};
use differential_dataflow::operators::iterate::Variable;
use differential_dataflow::operators::{CountTotal, Iterate, ThresholdTotal};
use differential_dataflow::trace::implementations::{KeyBuilder, KeySpine, ValBuilder, ValSpine};
use differential_dataflow::trace::{BatchCursor, Cursor, Navigable, TraceReader};
use crate::ext::{self, Ext};
use crate::pair::{Pair, Trip};
use simcore::Sim;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hash;
use timely::order::Product;
use timely::progress::Timestamp;

pub type Row = (u64, u64);
pub type Coll<'s, T> = VC<'s, T, Row, isize>;
pub type Arr<'s, T> = Arranged<'s, TraceAgent<ValSpine<u64, u64, T, isize>>>;
pub type Bag = BTreeMap<Row, isize>;

pub fn add(bag: &mut Bag, r: Row, d: isize) {
    if d == 0 { return; }
    let e = bag.entry(r).or_insert(0);
    *e += d;
    if *e == 0 { bag.remove(&r); }
}

#[derive(Clone, Copy, Debug)]
pub struct Dom { pub nk: u64, pub nv: u64 }

#[derive(Clone, Copy, Debug)]
pub enum MapFn { Id, Swap, AddV(u64), AddK(u64), Mix, Project, HalveV, Diff }
impl MapFn {
    pub fn apply(&self, d: Dom, (k, v): Row) -> Row {
        match self {
            MapFn::Id => (k, v),
            MapFn::Swap => (v % d.nk, k % d.nv),
            MapFn::AddV(c) => (k, (v + c) % d.nv),
            MapFn::AddK(c) => ((k + c) % d.nk, v),
            MapFn::Mix => ((k + v) % d.nk, v),
            MapFn::Project => (k, 0),
            MapFn::HalveV => (k, v / 2),
            MapFn::Diff => (k, (v + d.nv - k % d.nv) % d.nv),
        }
    }
    pub fn gen(s: &Sim) -> MapFn {
        match s.gen(8) { 0 => MapFn::Id, 1 => MapFn::Swap, 2 => MapFn::AddV(1 + s.gen(3)), 3 => MapFn::AddK(1 + s.gen(2)), 4 => MapFn::Mix, 5 => MapFn::Project, 6 => MapFn::HalveV, _ => MapFn::Diff }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Filt { m: u64, r: u64, on_key: bool }
impl Filt {
    pub fn keep(&self, (k, v): Row) -> bool { (if self.on_key { k } else { v }) % self.m != self.r }
    pub fn gen(s: &Sim) -> Filt { let m = 2 + s.gen(3); Filt { m, r: s.gen(m), on_key: s.gen(2) == 1 } }
}
#[derive(Clone, Copy, Debug)]
pub enum FlatFn { Two, OddTwice, DropZero }
impl FlatFn {
    pub fn apply(&self, d: Dom, (k, v): Row) -> Vec<Row> {
        match self {
            FlatFn::Two => vec![(k, v), ((k + 1) % d.nk, v)],
            FlatFn::OddTwice => if v % 2 == 1 { vec![(k, v), (k, v)] } else { vec![(k, v)] },
            FlatFn::DropZero => if v == 0 { vec![] } else { vec![(k, v - 1)] },
        }
    }
}
#[derive(Clone, Copy, Debug)]
pub enum ExpFn { Mult(isize), ByVal, Sign }
impl ExpFn {
    pub fn apply(&self, (k, v): Row) -> (Row, isize) {
        match self {
            ExpFn::Mult(c) => ((k, v), *c),
            ExpFn::ByVal => ((k, 0), (v % 4) as isize),
            ExpFn::Sign => ((k, v / 2), if v % 2 == 0 { 1 } else { -1 }),
        }
    }
}
#[derive(Clone, Copy, Debug)]
pub enum JoinFn { Val2, Sum, Swap, Left, CrossKey }
impl JoinFn {
    pub fn apply(&self, d: Dom, k: u64, a: u64, b: u64) -> Row {
        match self {
            JoinFn::Val2 => (a % d.nk, b),
            JoinFn::Sum => (k, (a + b) % d.nv),
            JoinFn::Swap => (b % d.nk, a),
            JoinFn::Left => (k, a),
            JoinFn::CrossKey => ((a + b) % d.nk, (k + a) % d.nv),
        }
    }
    pub fn gen(s: &Sim) -> JoinFn { match s.gen(5) { 0 => JoinFn::Val2, 1 => JoinFn::Sum, 2 => JoinFn::Swap, 3 => JoinFn::Left, _ => JoinFn::CrossKey } }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Red { Min, Max, Sum, Top2, Total, Ident, Pos, Second, CountVals }
impl Red {
    pub fn gen(s: &Sim) -> Red { match s.gen(9) { 0 => Red::Min, 1 => Red::Max, 2 => Red::Sum, 3 => Red::Top2, 4 => Red::Total, 5 => Red::Ident, 6 => Red::Pos, 7 => Red::Second, _ => Red::CountVals } }
    /// The reduction's output for one key, given its values with non-zero counts in order.
    pub fn apply(&self, d: Dom, k: u64, input: &[(u64, isize)]) -> Vec<(u64, isize)> {
        let nv = d.nv as i128;
        match self {
            Red::Min => vec![(input[0].0, 1)],
            Red::Max => vec![(input[input.len() - 1].0, 1)],
            Red::Sum => vec![(input.iter().map(|(v, r)| *v as i128 * *r as i128).sum::<i128>().rem_euclid(nv) as u64, 1)],
            Red::Top2 => input.iter().take(2).cloned().collect(),
            Red::Total => { let t: i128 = input.iter().map(|x| x.1 as i128).sum(); if t == 0 { vec![] } else { vec![(t.rem_euclid(nv) as u64, 1)] } }
            Red::Ident => input.to_vec(),
            Red::Pos => input.iter().filter(|x| x.1 > 0).map(|x| (x.0, 1)).collect(),
            Red::Second => if input.len() > 1 { vec![(input[1].0, 1), (k % d.nv, 1)] } else { vec![] },
            Red::CountVals => vec![(input.len() as u64 % d.nv, 1)],
        }
    }
}
/// Which implementation of reduce is used; all mean the same.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via { Plain, SharedArr, Core, Reference, Proxy, Keyed }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum JoinVia { Map, Core, SharedCore, Proxy, Plain }

#[derive(Clone, Debug)]
pub enum LoopKind {
    /// Rows reachable from the source along edges; grows monotonically.
    Reach { f: MapFn, via: u64 },
    /// Least label per key propagated along edges, labels capped.
    MinProp { via: u64, inc: u64 },
    /// Repeatedly discards rows whose value is not a key of a surviving row.
    Trim { anti: bool },
    /// Halves values until nothing changes.
    Contract { mult: bool },
    /// Two mutually recursive collections.
    Mutual,
    /// Edges survive while both ends have the same least reachable label (nested iteration).
    NestedTrim,
    /// Reachability whose step is itself a nested reachability.
    NestedReach,
}
#[derive(Clone, Debug)]
pub struct Loop { pub kind: LoopKind, pub src: usize, pub edges: usize, pub arr: bool }

#[derive(Clone, Debug)]
pub enum Op {
    Input(usize),
    Map(usize, MapFn), MapInPlace(usize, MapFn), Filter(usize, Filt), FlatMap(usize, FlatFn), Explode(usize, ExpFn), JoinFunction(usize, ExpFn),
    Concat(usize, usize), ConcatMany(Vec<usize>), Negate(usize),
    Join(usize, usize, JoinFn, JoinVia),
    Semijoin(usize, usize), Antijoin(usize, usize),
    Distinct(usize), DistinctTotal(usize), Threshold(usize, isize), ThresholdTotal(usize, isize),
    Count(usize), CountTotal(usize),
    Reduce(usize, Red, Via),
    Consolidate(usize), ConsolidateStream(usize), ArrangeFlat(usize), ArrangeSelf(usize),
    Region(usize, MapFn), Delay(usize, u64), Loop(Loop),
    Ext(usize, Ext), Shift(usize, u64), Semi(usize, isize),
}

#[derive(Clone, Debug)]
pub struct Prog { pub dom: Dom, pub inputs: usize, pub ops: Vec<Op>, pub outputs: Vec<usize> }

/// What kinds of operators a generated program may use.
#[derive(Clone, Copy, Debug)]
pub struct Mix { pub loops: bool, pub nested: bool, pub total: bool, pub delay: bool, pub max_ops: u64, pub ext: u32, pub force_loop: bool, pub force_reduce: bool, pub big: bool }

pub fn eff_count(c: isize, dom: Dom) -> u64 { c.rem_euclid(dom.nv as isize * 2) as u64 % dom.nv }

impl Prog {
    pub fn generate(s: &Sim, inputs: usize, mix: Mix) -> Prog {
        let dom = if mix.big { [Dom { nk: 97, nv: 6 }, Dom { nk: 4, nv: 90 }, Dom { nk: 40, nv: 40 }][s.gen(3) as usize] } else { match s.genw(&[5, 3, 2]) { 0 => Dom { nk: 3, nv: 4 }, 1 => Dom { nk: 5, nv: 7 }, _ => Dom { nk: 12, nv: 9 } } };
        let mut ops: Vec<Op> = (0..inputs).map(Op::Input).collect();
        // (number of update records, log2 of the largest multiplicity), as estimates that bound blow-up.
        let mut est: Vec<(f64, f64)> = (0..inputs).map(|_| if mix.big { (400.0, 9.0) } else { (60.0, 6.0) }).collect();
        let n = 1 + s.gen(mix.max_ops);
        for step in 0..n {
            let len = ops.len() as u64;
            let pick = |s: &Sim| -> usize { if s.gen(2) == 0 { (len - 1 - s.gen(len.min(3))) as usize } else { s.gen(len) as usize } };
            let a = pick(s);
            let last = step + 1 == n;
            let kind = if mix.force_loop && last { 16 } else if mix.force_reduce && last { 13 } else { s.genw(&[3, 3, 2, 2, 3, 2, 6, 3, 3, 4, 3, 3, 3, 8, 3, 2, if mix.loops { 4 } else { 0 }, 2, if mix.delay { 2 } else { 0 }, mix.ext, if mix.total && mix.ext > 0 { 2 } else { 0 }]) };
            let b = if matches!(kind, 4 | 6 | 7 | 8 | 16) { pick(s) } else { a };
            let (na, ma) = est[a];
            let (nb, mb) = est[b];
            let (op, e) = match kind {
                0 => (if s.gen(2) == 0 { Op::Map(a, MapFn::gen(s)) } else { Op::MapInPlace(a, MapFn::gen(s)) }, (na, ma + 1.0)),
                1 => (Op::Filter(a, Filt::gen(s)), (na, ma)),
                2 => (Op::FlatMap(a, match s.gen(3) { 0 => FlatFn::Two, 1 => FlatFn::OddTwice, _ => FlatFn::DropZero }), (na * 2.0, ma + 1.0)),
                3 => { let e = match s.gen(4) { 0 => ExpFn::Mult(2), 1 => ExpFn::Mult(-1), 2 => ExpFn::ByVal, _ => ExpFn::Sign }; (if s.gen(2) == 0 { Op::Explode(a, e) } else { Op::JoinFunction(a, e) }, (na, ma + 2.0)) }
                4 => if s.gen(4) == 0 { let c = pick(s); (Op::ConcatMany(vec![a, b, c]), (na + nb + est[c].0, ma.max(mb).max(est[c].1) + 2.0)) } else { (Op::Concat(a, b), (na + nb, ma.max(mb) + 1.0)) },
                5 => (Op::Negate(a), (na, ma)),
                6 => {
                    let via = match s.gen(5) { 0 => JoinVia::Map, 1 => JoinVia::Core, 2 => JoinVia::SharedCore, 3 => JoinVia::Proxy, _ => JoinVia::Plain };
                    (Op::Join(a, b, JoinFn::gen(s), via), (na * nb / dom.nk as f64, ma + mb + 6.0))
                }
                7 => (Op::Semijoin(a, b), (na * nb / dom.nk as f64, ma + mb + 3.0)),
                8 => (Op::Antijoin(a, b), (na + na * nb / dom.nk as f64 / 4.0, ma + 1.0)),
                9 => (if mix.total && s.gen(2) == 1 { Op::DistinctTotal(a) } else { Op::Distinct(a) }, (na, 1.0)),
                10 => { let k = 1 + s.gen(3) as isize; (if mix.total && s.gen(2) == 1 { Op::ThresholdTotal(a, k) } else { Op::Threshold(a, k) }, (na, 3.0)) }
                11 => (if mix.total && s.gen(2) == 1 { Op::CountTotal(a) } else { Op::Count(a) }, (na * 2.0, 5.0)),
                12 => (Op::Consolidate(a), (na, ma)),
                13 => {
                    let via = match s.genw(&[3, 3, 2, 2, 3, 1]) { 0 => Via::Plain, 1 => Via::SharedArr, 2 => Via::Core, 3 => Via::Reference, 4 => Via::Proxy, _ => Via::Keyed };
                    let r = Red::gen(s);
                    (Op::Reduce(a, r, via), (na * 2.0, if matches!(r, Red::Top2 | Red::Ident) { ma } else { 3.0 }))
                }
                14 => (Op::ArrangeFlat(a), (na, ma)),
                15 => (if s.gen(2) == 0 { Op::ArrangeSelf(a) } else { Op::ConsolidateStream(a) }, (na, ma)),
                16 => {
                    let k = match s.genw(&[4, 4, 3, 2, 2, if mix.nested { 2 } else { 0 }, if mix.nested { 2 } else { 0 }]) {
                        0 => LoopKind::Reach { f: MapFn::gen(s), via: s.gen(4) },
                        1 => LoopKind::MinProp { via: s.gen(5), inc: s.gen(2) },
                        2 => LoopKind::Trim { anti: s.gen(2) == 1 },
                        3 => LoopKind::Contract { mult: s.gen(2) == 1 },
                        4 => LoopKind::Mutual,
                        5 => LoopKind::NestedTrim,
                        _ => LoopKind::NestedReach,
                    };
                    (Op::Loop(Loop { kind: k, src: a, edges: b, arr: s.gen(2) == 1 }), (na * 3.0 + nb, 5.0 + ma))
                }
                17 => (Op::Region(a, MapFn::gen(s)), (na, ma + 1.0)),
                18 => (Op::Delay(a, 2 + s.gen(3)), (na, ma)),
                19 => { let e = Ext::gen(s); let (f, b) = e.cost(); (Op::Ext(a, e), (na * f, ma + b)) }
                _ => if s.gen(2) == 0 { (Op::Shift(a, s.gen(3)), (na, ma)) } else { (Op::Semi(a, s.gen(3) as isize), (na, 3.0)) },
            };
            if e.0 > 20_000.0 || e.1 > 40.0 { continue; }
            ops.push(op);
            est.push(e);
        }
        let mut outputs = vec![ops.len() - 1];
        for _ in 0..s.gen(3) { let o = s.gen(ops.len() as u64) as usize; if !outputs.contains(&o) { outputs.push(o); } }
        Prog { dom, inputs, ops, outputs }
    }
    pub fn summary(&self) -> String {
        let v: Vec<String> = self.ops.iter().enumerate().map(|(i, o)| format!("n{i}={o:?}")).collect();
        format!("dom={}x{} {} outputs={:?}", self.dom.nk, self.dom.nv, v.join("; "), self.outputs)
    }
}

// ---------------------------------------------------------------------------------------------
// Reference semantics
// ---------------------------------------------------------------------------------------------

pub fn r_group(b: &Bag) -> BTreeMap<u64, Vec<(u64, isize)>> {
    let mut g: BTreeMap<u64, Vec<(u64, isize)>> = BTreeMap::new();
    for ((k, v), r) in b { g.entry(*k).or_default().push((*v, *r)); }
    g
}
pub fn r_join(a: &Bag, b: &Bag, f: impl Fn(u64, u64, u64) -> Row) -> Bag {
    let (ga, gb) = (r_group(a), r_group(b));
    let mut out = Bag::new();
    for (k, va) in &ga { if let Some(vb) = gb.get(k) { for (x, r) in va { for (y, q) in vb { add(&mut out, f(*k, *x, *y), r * q); } } } }
    out
}
pub fn r_distinct(a: &Bag) -> Bag { a.keys().map(|k| (*k, 1)).collect() }
pub fn r_reduce(a: &Bag, dom: Dom, red: Red) -> Bag {
    let mut out = Bag::new();
    for (k, vs) in r_group(a) { for (v, r) in red.apply(dom, k, &vs) { add(&mut out, (k, v), r); } }
    out
}
pub fn r_map(a: &Bag, f: impl Fn(Row) -> Row) -> Bag { let mut o = Bag::new(); for (x, r) in a { add(&mut o, f(*x), *r); } o }
pub fn r_concat(a: &Bag, b: &Bag) -> Bag { let mut o = a.clone(); for (x, r) in b { add(&mut o, *x, *r); } o }
fn fix(mut x: Bag, f: impl Fn(&Bag) -> Bag) -> Bag {
    for _ in 0..5000 { let y = f(&x); if y == x { return x; } x = y; }
    panic!("harness: reference loop does not converge");
}
const CAP: u64 = 15;
fn min_key(a: &Bag) -> Bag { let mut o = Bag::new(); for (k, vs) in r_group(a) { o.insert((k, vs[0].0), 1); } o }

pub fn r_loop(l: &Loop, dom: Dom, src: &Bag, edges: &Bag) -> Bag {
    let s = r_distinct(src);
    let e = r_distinct(edges);
    match &l.kind {
        LoopKind::Reach { f, .. } => fix(s.clone(), |x| r_distinct(&r_concat(&r_join(x, &e, |k, a, b| f.apply(dom, ((b + k) % dom.nk, a))), &s))),
        LoopKind::MinProp { inc, .. } => fix(min_key(&s), |x| min_key(&r_concat(&r_join(x, &e, |_, a, b| (b % dom.nk, (a + inc).min(CAP.max(dom.nv)))), &s))),
        LoopKind::Trim { anti } => fix(s.clone(), |x| {
            let keys: std::collections::BTreeSet<u64> = x.keys().map(|r| r.0).collect();
            let _ = anti;
            x.iter().filter(|((_, v), _)| keys.contains(&(v % dom.nk))).map(|(r, d)| (*r, *d)).collect()
        }),
        LoopKind::Contract { mult } => { let b = if *mult { src.clone() } else { s.clone() }; fix(b, |x| r_map(x, |(k, v)| (k, v / 2))) }
        LoopKind::Mutual => {
            let (mut a, mut b) = (Bag::new(), Bag::new());
            for _ in 0..5000 {
                let a2 = r_distinct(&r_concat(&r_join(&b, &e, |_, a, v| (v % dom.nk, a)), &s));
                let b2 = r_distinct(&r_join(&a, &e, |_, a, v| (v % dom.nk, a)));
                if a2 == a && b2 == b { return r_concat(&r_map(&a, |r| r), &r_map(&b, |(k, v)| (k, v))); }
                a = a2; b = b2;
            }
            panic!("harness: mutual loop does not converge")
        }
        LoopKind::NestedTrim => fix(s.clone(), |x| {
            let lab = nested_labels(x, dom);
            // keep (a, b) if label(a) == label(b)
            x.iter().filter(|((a, b), _)| { let l = |n: &u64| lab.iter().filter(|((k, _), _)| k == n).map(|((_, v), _)| *v).next(); l(&(a % dom.nk)).is_some() && l(&(a % dom.nk)) == l(&(b % dom.nk)) }).map(|(r, d)| (*r, *d)).collect()
        }),
        LoopKind::NestedReach => fix(s.clone(), |x| {
            let inner = fix(x.clone(), |y| r_distinct(&r_concat(&r_join(y, &e, |_, a, b| (b % dom.nk, a)), x)));
            r_distinct(&r_concat(&r_map(&inner, |(k, v)| (k, v / 2)), &s))
        }),
    }
}
fn nested_labels(edges: &Bag, dom: Dom) -> Bag {
    let nodes: Bag = r_distinct(&r_concat(&r_map(edges, |(a, _)| (a % dom.nk, a % dom.nk)), &r_map(edges, |(_, b)| (b % dom.nk, b % dom.nk))));
    fix(nodes.clone(), |x| min_key(&r_concat(&r_join(x, edges, |_, a, b| (b % dom.nk, a)), &nodes)))
}

/// Times which support the reference evaluator.
pub trait SimTime: Timestamp + Lattice + Hash + Ord {
    fn floor_to(&self, m: u64) -> Self;
    fn ceil_to(&self, m: u64) -> Self;
    /// The time `k` before this one.
    fn earlier(&self, _k: u64) -> Option<Self> where Self: Sized { unimplemented!() }
}
impl SimTime for u64 {
    fn floor_to(&self, m: u64) -> u64 { self / m * m }
    fn ceil_to(&self, m: u64) -> u64 { self.div_ceil(m) * m }
    fn earlier(&self, k: u64) -> Option<u64> { self.checked_sub(k) }
}
impl SimTime for Pair {
    fn floor_to(&self, m: u64) -> Self { Pair::new(self.0.outer.floor_to(m), self.0.inner.floor_to(m)) }
    fn ceil_to(&self, m: u64) -> Self { Pair::new(self.0.outer.ceil_to(m), self.0.inner.ceil_to(m)) }
}

impl SimTime for Trip {
    fn floor_to(&self, m: u64) -> Self { let [a, b, c] = self.parts(); Trip::new(a.floor_to(m), b.floor_to(m), c.floor_to(m)) }
    fn ceil_to(&self, m: u64) -> Self { let [a, b, c] = self.parts(); Trip::new(a.ceil_to(m), b.ceil_to(m), c.ceil_to(m)) }
}

/// An input history: `(input, row, time, diff)`.
pub type History<T> = Vec<(usize, Row, T, isize)>;

pub struct Eval<'a, T> { prog: &'a Prog, hist: &'a History<T>, memo: HashMap<(usize, T), Bag> }
impl<'a, T: SimTime> Eval<'a, T> {
    pub fn new(prog: &'a Prog, hist: &'a History<T>) -> Self { Eval { prog, hist, memo: HashMap::new() } }
    pub fn at(&mut self, node: usize, t: &T) -> Bag {
        if let Some(b) = self.memo.get(&(node, t.clone())) { return b.clone(); }
        let dom = self.prog.dom;
        let op = self.prog.ops[node].clone();
        let mut o = Bag::new();
        match op {
            Op::Input(i) => for (j, r, u, d) in self.hist.iter() { if *j == i && u.less_equal(t) { add(&mut o, *r, *d); } },
            Op::Map(a, f) | Op::MapInPlace(a, f) | Op::Region(a, f) => o = r_map(&self.at(a, t), |r| f.apply(dom, r)),
            Op::Filter(a, f) => o = self.at(a, t).into_iter().filter(|(r, _)| f.keep(*r)).collect(),
            Op::FlatMap(a, f) => for (r, d) in self.at(a, t) { for x in f.apply(dom, r) { add(&mut o, x, d); } },
            Op::Explode(a, f) | Op::JoinFunction(a, f) => for (r, d) in self.at(a, t) { let (x, m) = f.apply(r); add(&mut o, x, m * d); },
            Op::Concat(a, b) => o = r_concat(&self.at(a, t), &self.at(b, t)),
            Op::ConcatMany(v) => for a in v { o = r_concat(&o, &self.at(a, t)); },
            Op::Negate(a) => o = self.at(a, t).into_iter().map(|(r, d)| (r, -d)).collect(),
            Op::Join(a, b, f, _) => o = r_join(&self.at(a, t), &self.at(b, t), |k, x, y| f.apply(dom, k, x, y)),
            Op::Semijoin(a, b) => { let keys = r_map(&self.at(b, t), |(k, _)| (k, 0)); o = r_join(&self.at(a, t), &keys, |k, x, _| (k, x)); }
            Op::Antijoin(a, b) => { let keys = r_distinct(&r_map(&self.at(b, t), |(k, _)| (k, 0))); o = self.at(a, t).into_iter().filter(|((k, _), _)| !keys.contains_key(&(*k, 0))).collect(); }
            Op::Distinct(a) | Op::DistinctTotal(a) => o = r_distinct(&self.at(a, t)),
            Op::Threshold(a, k) | Op::ThresholdTotal(a, k) => for (r, d) in self.at(a, t) { add(&mut o, r, thresh(d, k)); },
            Op::Count(a) | Op::CountTotal(a) => for ((k, v), d) in self.at(a, t) { add(&mut o, ((k + v) % dom.nk, eff_count(d, dom)), 1); },
            Op::Reduce(a, red, _) => o = r_reduce(&self.at(a, t), dom, red),
            Op::Consolidate(a) | Op::ConsolidateStream(a) | Op::ArrangeFlat(a) | Op::ArrangeSelf(a) => o = self.at(a, t),
            Op::Delay(a, m) => o = self.at(a, &t.floor_to(m)),
            Op::Ext(a, e) => o = e.eval(dom, &self.at(a, t)),
            Op::Shift(a, k) => if let Some(t) = t.earlier(k) { o = self.at(a, &t) },
            Op::Semi(a, k) => for (r, d) in self.at(a, t) { add(&mut o, r, semi(d, k)); },
            Op::Loop(l) => o = r_loop(&l, dom, &self.at(l.src, t), &self.at(l.edges, t)),
        }
        self.memo.insert((node, t.clone()), o.clone());
        o
    }
}
fn semi(d: isize, k: isize) -> isize { if d > k { d.min(3) } else { 0 } }
fn thresh(d: isize, k: isize) -> isize { if d >= k { 1 } else if d < 0 { -1 } else { 0 } }

// ---------------------------------------------------------------------------------------------
// Rendering
// ---------------------------------------------------------------------------------------------

/// Operators only available at totally ordered times.
pub trait Level: Timestamp + Lattice + SimTime {
    fn distinct_total<'s>(c: Coll<'s, Self>) -> Coll<'s, Self> { c.distinct() }
    fn threshold_total<'s>(c: Coll<'s, Self>, k: isize) -> Coll<'s, Self> { c.threshold(move |_, d| thresh(*d, k)) }
    fn count_total<'s>(c: Coll<'s, Self>) -> VC<'s, Self, (Row, isize), isize> { c.count() }
    /// Moves every update `k` times later.
    fn shift<'s>(_c: Coll<'s, Self>, _k: u64) -> Coll<'s, Self> { unimplemented!() }
    fn semi<'s>(_c: Coll<'s, Self>, _k: isize) -> Coll<'s, Self> { unimplemented!() }
    fn ext<'s>(_e: Ext, _dom: Dom, _c: Coll<'s, Self>) -> Coll<'s, Self> { unimplemented!() }
    const TOTAL: bool = false;
    /// The operators for totally ordered times, on an arrangement: distinct rows, or rows with their counts.
    fn on_arranged<'s, Tr>(_a: Arranged<'s, Tr>, _counts: bool) -> Coll<'s, Self>
    where Tr: TraceReader<Time = Self, Batch: Navigable> + Clone + 'static, for<'a> BatchCursor<Tr>: Cursor<Key<'a> = &'a Row, Val<'a> = &'a (), Time = Self, Diff = isize, DiffGat<'a> = &'a isize> { unimplemented!() }
}
impl Level for u64 {
    const TOTAL: bool = true;
    fn on_arranged<'s, Tr>(a: Arranged<'s, Tr>, counts: bool) -> Coll<'s, Self>
    where Tr: TraceReader<Time = Self, Batch: Navigable> + Clone + 'static, for<'a> BatchCursor<Tr>: Cursor<Key<'a> = &'a Row, Val<'a> = &'a (), Time = Self, Diff = isize, DiffGat<'a> = &'a isize> {
        if counts { a.count_total().map(|(r, n)| (r.0, (n + 1_000_000) as u64 * 1000 + r.1)) } else { a.threshold_total(|_, _| 1isize) }
    }
    fn shift<'s>(c: Coll<'s, Self>, k: u64) -> Coll<'s, Self> { c.results_in(k) }
    fn semi<'s>(c: Coll<'s, Self>, k: isize) -> Coll<'s, Self> {
        c.threshold_semigroup(move |_, new, old| { let d = semi(*new, k) - old.map(|o| semi(*o, k)).unwrap_or(0); if d == 0 { None } else { Some(d) } })
    }
    fn ext<'s>(e: Ext, dom: Dom, c: Coll<'s, Self>) -> Coll<'s, Self> {
        match e {
            // The variants for totally ordered times.
            Ext::Stats(0) if dom.nk % 2 == 1 => c.explode(|(k, v)| Some((k, (1isize, v as isize)))).count_total().map(move |(k, (c, s))| (k, eff_count(c * 3 + s, dom))),
            Ext::Alt(3) if dom.nk % 2 == 1 => c.distinct_total_core::<isize>(),
            _ => ext::render(e, dom, c),
        }
    }
    fn distinct_total<'s>(c: Coll<'s, Self>) -> Coll<'s, Self> { ThresholdTotal::distinct_total(c) }
    fn threshold_total<'s>(c: Coll<'s, Self>, k: isize) -> Coll<'s, Self> { ThresholdTotal::threshold_total(c, move |_, d| thresh(*d, k)) }
    fn count_total<'s>(c: Coll<'s, Self>) -> VC<'s, Self, (Row, isize), isize> { CountTotal::count_total(c) }
}
impl Level for Pair { fn ext<'s>(e: Ext, dom: Dom, c: Coll<'s, Self>) -> Coll<'s, Self> { ext::render(e, dom, c) } }
impl Level for Trip { }

fn arr<'s, T: Timestamp + Lattice>(arrs: &mut HashMap<usize, Arr<'s, T>>, nodes: &[Coll<'s, T>], i: usize) -> Arr<'s, T> {
    arrs.entry(i).or_insert_with(|| nodes[i].clone().arrange_by_key()).clone()
}

fn red_logic(red: Red, dom: Dom) -> impl FnMut(&u64, &[(&u64, isize)], &mut Vec<(u64, isize)>) + 'static {
    move |k, input, output| {
        let v: Vec<(u64, isize)> = input.iter().map(|(v, r)| (**v, *r)).collect();
        output.extend(red.apply(dom, *k, &v));
    }
}
fn red_core(red: Red, dom: Dom) -> impl FnMut(&u64, &[(&u64, isize)], &mut Vec<(u64, isize)>, &mut Vec<(u64, isize)>) + 'static {
    move |k, input, output, change| {
        let v: Vec<(u64, isize)> = input.iter().map(|(v, r)| (**v, *r)).collect();
        if !v.is_empty() { change.extend(red.apply(dom, *k, &v)); }
        change.extend(output.drain(..).map(|(v, r)| (v, -r)));
        differential_dataflow::consolidation::consolidate(change);
    }
}
fn push_row<T: Clone>(vec: &mut Vec<((u64, u64), T, isize)>, key: &u64, upds: &mut Vec<(u64, T, isize)>) {
    vec.clear();
    vec.extend(upds.drain(..).map(|(v, t, r)| ((*key, v), t, r)));
}

/// Renders a program; returns the collection of every node.
pub fn render<'s, T: Level>(prog: &Prog, inputs: Vec<Coll<'s, T>>) -> Vec<Coll<'s, T>> {
    let dom = prog.dom;
    let mut nodes: Vec<Coll<'s, T>> = vec![];
    let mut arrs: HashMap<usize, Arr<'s, T>> = HashMap::new();
    for op in prog.ops.iter() {
        let c: Coll<'s, T> = match op.clone() {
            Op::Input(i) => inputs[i].clone(),
            Op::Map(a, f) => nodes[a].clone().map(move |r| f.apply(dom, r)),
            Op::MapInPlace(a, f) => nodes[a].clone().map_in_place(move |r| *r = f.apply(dom, *r)),
            Op::Filter(a, f) => nodes[a].clone().filter(move |r| f.keep(*r)),
            Op::FlatMap(a, f) => nodes[a].clone().flat_map(move |r| f.apply(dom, r)),
            Op::Explode(a, f) => nodes[a].clone().explode(move |r| Some(f.apply(r))),
            Op::JoinFunction(a, f) => nodes[a].clone().join_function(move |r| { let (x, m) = f.apply(r); Some((x, T::minimum(), m)) }),
            Op::Concat(a, b) => nodes[a].clone().concat(nodes[b].clone()),
            Op::ConcatMany(v) => nodes[v[0]].clone().concatenate(v[1..].iter().map(|i| nodes[*i].clone()).collect::<Vec<_>>()),
            Op::Negate(a) => nodes[a].clone().negate(),
            Op::Join(a, b, f, via) => match via {
                JoinVia::Plain => nodes[a].clone().join(nodes[b].clone()).map(move |(k, (x, y))| f.apply(dom, k, x, y)),
                JoinVia::Map => nodes[a].clone().join_map(nodes[b].clone(), move |k, x, y| f.apply(dom, *k, *x, *y)),
                JoinVia::Core => { let y = arr(&mut arrs, &nodes, b); nodes[a].clone().join_core(y, move |k, x, y| Some(f.apply(dom, *k, *x, *y))) }
                JoinVia::SharedCore => { let x = arr(&mut arrs, &nodes, a); let y = arr(&mut arrs, &nodes, b); x.join_core(y, move |k, x, y| Some(f.apply(dom, *k, *x, *y))) }
                JoinVia::Proxy => { let x = arr(&mut arrs, &nodes, a); let y = arr(&mut arrs, &nodes, b); crate::proxy::join(x, y, f, dom) }
            },
            Op::Semijoin(a, b) => nodes[a].clone().semijoin(nodes[b].clone().map(|r| r.0)),
            Op::Antijoin(a, b) => nodes[a].clone().antijoin(nodes[b].clone().map(|r| r.0).distinct()),
            Op::Distinct(a) => nodes[a].clone().distinct(),
            Op::DistinctTotal(a) => T::distinct_total(nodes[a].clone()),
            Op::Threshold(a, k) => nodes[a].clone().threshold(move |_, d| thresh(*d, k)),
            Op::ThresholdTotal(a, k) => T::threshold_total(nodes[a].clone(), k),
            Op::Count(a) => nodes[a].clone().count().map(move |((k, v), d)| ((k + v) % dom.nk, eff_count(d, dom))),
            Op::CountTotal(a) => T::count_total(nodes[a].clone()).map(move |((k, v), d)| ((k + v) % dom.nk, eff_count(d, dom))),
            Op::Reduce(a, red, via) => match via {
                Via::Plain => nodes[a].clone().reduce(red_logic(red, dom)),
                Via::SharedArr => arr(&mut arrs, &nodes, a).reduce_abelian::<_, ValBuilder<_, _, _, _>, ValSpine<u64, u64, T, isize>, _, _>("SharedReduce", red_logic(red, dom), push_row).as_collection(|k, v| (*k, *v)),
                Via::Core => arr(&mut arrs, &nodes, a).reduce_core::<_, ValBuilder<_, _, _, _>, ValSpine<u64, u64, T, isize>, _, _>("CoreReduce", red_core(red, dom), push_row).as_collection(|k, v| (*k, *v)),
                Via::Reference => differential_dataflow::operators::reduce::reduce_trace_reference::<TraceAgent<ValSpine<u64, u64, T, isize>>, ValBuilder<_, _, _, _>, ValSpine<u64, u64, T, isize>, _, _>(arr(&mut arrs, &nodes, a), "ReferenceReduce", red_core(red, dom), push_row).as_collection(|k, v| (*k, *v)),
                Via::Proxy => crate::proxy::reduce(arr(&mut arrs, &nodes, a), red, dom),
                Via::Keyed => {
                    // The reduced arrangement is itself shared: its output is read both ways and combined.
                    let r = nodes[a].clone().reduce_abelian::<_, ValBuilder<_, _, _, _>, ValSpine<u64, u64, T, isize>>("KeyedReduce", red_logic(red, dom));
                    let x = r.clone().as_collection(|k, v| (*k, *v));
                    let keys = r.clone().as_collection(|k, v| (*k, *v)).distinct().map(|(k, _)| k).distinct().arrange_by_self();
                    let y = r.join_core(keys, |k, v, _| Some((*k, *v)));
                    x.clone().negate().concat(y).concat(x)
                }
            },
            Op::Consolidate(a) => nodes[a].clone().consolidate(),
            Op::ConsolidateStream(a) => nodes[a].clone().consolidate_stream(),
            Op::ArrangeFlat(a) => arr(&mut arrs, &nodes, a).as_collection(|k, v| (*k, *v)),
            Op::ArrangeSelf(a) => nodes[a].clone().arrange_by_self().as_collection(|r, _| *r),
            Op::Region(a, f) => {
                let c = nodes[a].clone();
                let scope = c.scope();
                scope.region(|inner| c.enter_region(inner).map(move |r| f.apply(dom, r)).consolidate().leave_region(scope))
            }
            Op::Delay(a, m) => nodes[a].clone().delay(move |t| t.ceil_to(m)),
            Op::Ext(a, e) => T::ext(e, dom, nodes[a].clone()),
            Op::Shift(a, k) => T::shift(nodes[a].clone(), k),
            Op::Semi(a, k) => T::semi(nodes[a].clone(), k),
            Op::Loop(l) => {
                let edges = nodes[l.edges].clone();
                render_loop(&l, dom, nodes[l.src].clone(), edges)
            }
        };
        nodes.push(c);
    }
    nodes
}

pub type Nest<T> = Product<T, u64>;

fn min_core<'s, T: Timestamp + Lattice>(c: Coll<'s, T>, via: u64, dom: Dom) -> Coll<'s, T> {
    match via {
        0 => c.reduce(|_, s, t| t.push((*s[0].0, 1))),
        1 => c.arrange_by_key().reduce_abelian::<_, ValBuilder<_, _, _, _>, ValSpine<u64, u64, T, isize>, _, _>("MinCore", |_, s, t| t.push((*s[0].0, 1)), push_row).as_collection(|k, v| (*k, *v)),
        2 => differential_dataflow::operators::reduce::reduce_trace_reference::<TraceAgent<ValSpine<u64, u64, T, isize>>, ValBuilder<_, _, _, _>, ValSpine<u64, u64, T, isize>, _, _>(c.arrange_by_key(), "MinRef", red_core(Red::Min, dom), push_row).as_collection(|k, v| (*k, *v)),
        3 => crate::proxy::reduce(c.arrange_by_key(), Red::Min, dom),
        _ => c.reduce_core::<_, ValBuilder<_, _, _, _>, ValSpine<u64, u64, T, isize>>("MinRC", red_core(Red::Min, dom)).as_collection(|k, v| (*k, *v)),
    }
}
fn keys_distinct<'s, T: Timestamp + Lattice>(c: Coll<'s, T>) -> VC<'s, T, u64, isize> {
    c.map(|r| (r.0, 0u64)).arrange_by_self().reduce_abelian::<_, KeyBuilder<Row, T, isize>, KeySpine<Row, T, isize>, _, _>("Keys", |_, _, t| t.push(((), 1)), |vec: &mut Vec<((Row, ()), T, isize)>, key, upds| { vec.clear(); vec.extend(upds.drain(..).map(|(v, t, r)| ((*key, v), t, r))); }).as_collection(|k, _| k.0)
}

pub fn render_loop<'s, T: Timestamp + Lattice>(l: &Loop, dom: Dom, src: Coll<'s, T>, edges: Coll<'s, T>) -> Coll<'s, T> {
    let scope = src.scope();
    let one = || Product::new(Default::default(), 1);
    match l.kind.clone() {
        LoopKind::Reach { f, via } => {
            let s = src.distinct();
            let e = edges.distinct();
            let step = move |k: &u64, a: &u64, b: &u64| f.apply(dom, ((*b + *k) % dom.nk, *a));
            if l.arr {
                let e = e.arrange_by_key();
                s.clone().iterate(|inner, x| {
                    let e = e.enter(inner);
                    let s = s.enter(inner);
                    let y = x.arrange_by_key().join_core(e, move |k, a, b| Some(step(k, a, b))).concat(s);
                    match via { 0 => y.distinct(), 1 => y.threshold(|_, _| 1), _ => y.map(|r| (r, ())).reduce(|_, _, t| t.push(((), 1))).map(|r| r.0) }
                })
            } else {
                scope.iterative::<u64, _, _>(|inner| {
                    let (var, x) = Variable::new(inner, one());
                    let s = s.enter(inner);
                    let e = e.enter(inner);
                    let y = x.join_map(e, step).concat(s).distinct();
                    if via == 0 { let z = y.clone().consolidate(); var.set(y); z.leave(scope) } else { var.set(y.clone()); y.leave(scope) }
                })
            }
        }
        LoopKind::MinProp { via, inc } => {
            let s = src.distinct();
            let e = edges.distinct();
            let cap = CAP.max(dom.nv);
            if l.arr {
                let e = e.arrange_by_key();
                // Labels enter the loop at rounds determined by their values.
                scope.iterative::<u64, _, _>(|inner| {
                    let e = e.enter(inner);
                    let s = s.enter_at(inner, |r| r.1 / 3);
                    let (var, x) = Variable::new(inner, one());
                    let y = min_core(x.arrange_by_key().join_core(e, move |_: &u64, a: &u64, b: &u64| Some((*b % dom.nk, (*a + inc).min(cap)))).concat(s), via, dom);
                    var.set(y.clone());
                    y.leave(scope)
                })
            } else {
                s.clone().iterate(|inner, x| {
                    let e = e.enter(inner);
                    let s = s.enter(inner);
                    min_core(x.join_map(e, move |_, a, b| (*b % dom.nk, (*a + inc).min(cap))).concat(s), via, dom)
                })
            }
        }
        LoopKind::Trim { anti } => {
            src.distinct().iterate(|_, x| {
                let keys = keys_distinct(x.clone());
                if anti {
                    // rows minus those whose value is not a key
                    let by_val = x.clone().map(move |(k, v)| (v % dom.nk, (k, v)));
                    let bad = by_val.antijoin(keys).map(|(_, r)| r);
                    x.concat(bad.negate()).consolidate()
                } else {
                    x.map(move |(k, v)| (v % dom.nk, (k, v))).semijoin(keys).map(|(_, r)| r).consolidate()
                }
            })
        }
        LoopKind::Contract { mult } => {
            let s = if mult { src } else { src.distinct() };
            s.iterate(|_, x| x.map(|(k, v)| (k, v / 2)).consolidate())
        }
        LoopKind::Mutual => {
            let s = src.distinct();
            let e = edges.distinct();
            scope.iterative::<u64, _, _>(|inner| {
                let (va, a) = Variable::new(inner, one());
                let (vb, b) = Variable::new(inner, one());
                let s = s.enter(inner);
                let e = e.enter(inner).arrange_by_key();
                let a2 = b.arrange_by_key().join_core(e.clone(), move |_, a, v| Some((*v % dom.nk, *a))).concat(s).distinct();
                let b2 = a.arrange_by_key().join_core(e, move |_, a, v| Some((*v % dom.nk, *a))).distinct();
                va.set(a2.clone());
                vb.set(b2.clone());
                a2.concat(b2).leave(scope)
            })
        }
        LoopKind::NestedTrim => {
            src.distinct().iterate(|_, x| {
                let lab = inner_labels(x.clone(), dom).arrange_by_key();
                let with_a = x.map(move |(a, b)| (a % dom.nk, (a, b))).arrange_by_key().join_core(lab.clone(), |_, (a, b), la| Some(((*a, *b), *la)));
                with_a.map(move |((a, b), la)| (b % dom.nk, ((a, b), la))).arrange_by_key().join_core(lab, |_, ((a, b), la), lb| if la == lb { Some((*a, *b)) } else { None }).consolidate()
            })
        }
        LoopKind::NestedReach => {
            let s = src.distinct();
            let e = edges.distinct();
            let earr = e.clone().arrange_by_key();
            let arr = l.arr;
            s.clone().iterate(|inner, x| {
                let s = s.enter(inner);
                let y = if arr { let e = earr.enter(inner); x.clone().iterate(|in2, y| { let e = e.enter(in2); let x = x.enter(in2); y.arrange_by_key().join_core(e, move |_, a, b| Some((*b % dom.nk, *a))).concat(x).distinct() }) }
                    else { let e = e.enter(inner); x.clone().iterate(|in2, y| { let e = e.enter(in2); let x = x.enter(in2); y.join_map(e, move |_, a, b| (*b % dom.nk, *a)).concat(x).distinct() }) };
                y.map(|(k, v)| (k, v / 2)).concat(s).distinct()
            })
        }
    }
}
fn inner_labels<'s, T: Timestamp + Lattice>(edges: Coll<'s, T>, dom: Dom) -> Coll<'s, T> {
    let nodes = edges.clone().flat_map(move |(a, b)| [(a % dom.nk, a % dom.nk), (b % dom.nk, b % dom.nk)]).distinct();
    nodes.clone().iterate(|inner, x| {
        let e = edges.enter(inner);
        let n = nodes.enter(inner);
        x.join_map(e, move |_, a, b| (*b % dom.nk, *a)).concat(n).reduce(|_, s, t| t.push((*s[0].0, 1)))
    })
}
