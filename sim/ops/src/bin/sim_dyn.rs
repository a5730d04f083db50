//! Iteration nested at run time, in both backends, against explicit nested fixed points (C14).
use differential_dataflow::collection::containers::{Negate, ResultsIn};
use differential_dataflow::columnar::collection::{leave_dynamic, Builder as ColBuilder, RecordedUpdates};
use differential_dataflow::dynamic::feedback_summary;
use differential_dataflow::dynamic::pointstamp::{PointStamp, PointStampSummary};
use differential_dataflow::operators::iterate::Variable;
use differential_dataflow::operators::Iterate;
use differential_dataflow::{AsCollection, Collection};
use simcore::{Check, Out, Sim};
use simops::col::{self, CArr, CTime, U};
use simops::dag::{add, r_concat, r_distinct, r_group, r_join, r_map, Arr, Bag, Coll, Dom, MapFn, Row, SimTime, Via};
use simops::drive::{capture, diff_text, drive, knobs, probe_times, GenTime, Input, Load, Script};
use simops::pair::Pair;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use timely::dataflow::channels::pact::Pipeline;
use timely::dataflow::operators::generic::Operator;
use timely::dataflow::operators::probe::Handle as ProbeHandle;
use timely::dataflow::operators::vec::Map;
use timely::dataflow::Scope;
use timely::order::Product;
use timely::progress::timestamp::Refines;
use timely::progress::Timestamp;
use timely::Container;

type DT<T> = Product<T, PointStamp<u64>>;
type Sum<T> = Product<<T as Timestamp>::Summary, PointStampSummary<u64>>;
type C<'s, T, B> = Collection<'s, DT<T>, <B as Back<T>>::C>;

fn at_coord<T: Timestamp>(level: usize, c: u64) -> DT<T> {
    let mut v = vec![0; level];
    v[level - 1] = c;
    Product::new(T::minimum(), PointStamp::new(v.into()))
}

// ---------------------------------------------------------------------------------------------
// Programs and their meaning
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { Reach, Min, Trim, Contract { mult: bool } }
/// How a loop starts from its source: by adding it in each round, as its initial value, or as a value the first round alone sees.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Start { Empty, From, FirstRound }
#[derive(Clone, Debug)]
struct Lp { kind: Kind, f: MapFn, inc: u64, start: Start, step: u64, enter_at: bool, arr: bool, consolidate: bool, stat: bool, tap: bool, inner: Option<Box<Lp>> }
#[derive(Clone, Debug)]
enum Node { Input(usize), Loop(Lp, usize, usize), Join(usize, usize), Map(usize, MapFn) }
#[derive(Clone, Debug)]
struct Prog { dom: Dom, nodes: Vec<Node>, outputs: Vec<usize>, columnar: bool }

const CAP: u64 = 12;
fn min_key(a: &Bag) -> Bag { let mut o = Bag::new(); for (k, vs) in r_group(a) { o.insert((k, vs[0].0), 1); } o }
fn fix(mut x: Bag, f: impl Fn(&Bag) -> Bag) -> Bag {
    for _ in 0..500 { let y = f(&x); if y == x { return x; } x = y; }
    panic!("harness: reference loop does not converge");
}
fn reach(dom: Dom, f: MapFn) -> impl Fn(u64, u64, u64) -> Row + Clone + 'static { move |k, a, b| f.apply(dom, ((b + k) % dom.nk, a)) }
fn relax(dom: Dom, inc: u64) -> impl Fn(u64, u64, u64) -> Row + Clone + 'static { move |_, a, b| (b % dom.nk, (a + inc).min(CAP)) }

impl Lp {
    fn generate(s: &Sim, depth: u64, outer: Option<Kind>, columnar: bool) -> Lp {
        let kind = match outer {
            None => match s.gen(5) { 0 | 1 => Kind::Reach, 2 => Kind::Min, 3 => Kind::Trim, _ => Kind::Contract { mult: s.gen(2) == 1 } },
            // Inner loops keep the outer one convergent: each is monotone in its source.
            Some(Kind::Min) => Kind::Min,
            Some(Kind::Contract { mult }) => Kind::Contract { mult },
            Some(_) => match s.gen(4) { 0 | 1 => Kind::Reach, 2 => Kind::Trim, _ => Kind::Contract { mult: false } },
        };
        let grows = matches!(kind, Kind::Reach | Kind::Min);
        let start = if grows && s.gen(2) == 0 { Start::Empty } else if s.gen(3) > 0 { Start::From } else { Start::FirstRound };
        let inner = if depth > 1 { Some(Box::new(Lp::generate(s, depth - 1, Some(kind), columnar))) } else { None };
        let flag = |n| s.gen(n) == 0;
        Lp {
            kind, f: MapFn::gen(s), inc: s.gen(3), start, step: 1 + (s.genw(&[5, 1]) as u64), enter_at: grows && flag(3), arr: flag(2), consolidate: flag(3),
            stat: inner.is_none() && !columnar && kind == Kind::Reach && flag(4), tap: flag(2), inner,
        }
    }
    fn eval(&self, dom: Dom, src: &Bag, e: &Bag) -> Bag {
        let s = match self.kind { Kind::Contract { mult: true } => src.clone(), Kind::Min => min_key(&r_distinct(src)), _ => r_distinct(src) };
        let from = if self.kind == Kind::Reach || self.kind == Kind::Min { Bag::new() } else { s.clone() };
        fix(from, |x| self.body(dom, &s, x, &self.nested(dom, x, e)))
    }
    /// What the loop's inner loop starts from, and what becomes of its result.
    fn inner_src(&self, dom: Dom, x: &Bag, e: &Bag) -> Bag {
        match self.kind {
            Kind::Reach => r_join(x, e, reach(dom, self.f)),
            Kind::Min => r_join(x, e, relax(dom, self.inc)),
            _ => x.clone(),
        }
    }
    fn nested(&self, dom: Dom, x: &Bag, e: &Bag) -> Bag {
        let y = self.inner_src(dom, x, e);
        match &self.inner { None => y, Some(l) => l.eval(dom, &y, e) }
    }
    fn body(&self, dom: Dom, s: &Bag, x: &Bag, y: &Bag) -> Bag {
        match self.kind {
            Kind::Reach => r_distinct(&r_concat(y, s)),
            Kind::Min => min_key(&r_concat(y, s)),
            Kind::Trim => { let keys: BTreeSet<u64> = y.keys().map(|r| r.0).collect(); x.iter().filter(|((_, v), _)| keys.contains(&(v % dom.nk))).map(|(r, d)| (*r, *d)).collect() }
            Kind::Contract { mult } => { let h = r_map(y, |(k, v)| (k, v / 2)); if mult { h } else { r_distinct(&h) } }
        }
    }
    /// The value of the loop at `depth` within this one when all of them have converged.
    fn tapped(&self, depth: usize, dom: Dom, src: &Bag, e: &Bag) -> Bag {
        let x = self.eval(dom, src, e);
        if depth == 0 { return x; }
        self.inner.as_ref().unwrap().tapped(depth - 1, dom, &self.inner_src(dom, &x, e), e)
    }
    fn taps(&self) -> Vec<usize> {
        let (mut v, mut l, mut d) = (vec![], self, 0);
        loop {
            if d > 0 && l.tap && !l.stat { v.push(d); }
            match &l.inner { Some(i) => { l = i; d += 1; } None => return v }
        }
    }
}
impl Prog {
    fn generate(s: &Sim) -> Prog {
        let dom = if s.gen(2) == 0 { Dom { nk: 3, nv: 4 } } else { Dom { nk: 4, nv: 6 } };
        let columnar = s.genw(&[3, 2]) == 1;
        let mut nodes = vec![Node::Input(0), Node::Input(1)];
        let loops = 1 + s.genw(&[3, 1]);
        for i in 0..loops {
            let n = nodes.len() as u64;
            let (a, b) = if i == 0 { (s.gen(2), s.gen(2)) } else { (n - 1, s.gen(n)) };
            let depth = 1 + s.genw(&[2, 4, 2]) as u64;
            nodes.push(Node::Loop(Lp::generate(s, depth, None, columnar), a as usize, b as usize));
            match s.gen(4) { 0 => { let b = s.gen(nodes.len() as u64) as usize; nodes.push(Node::Join(nodes.len() - 1, b)) } 1 => nodes.push(Node::Map(nodes.len() - 1, MapFn::gen(s))), _ => { } }
        }
        let outputs = (2..nodes.len()).filter(|i| *i + 1 == nodes.len() || s.gen(2) == 0).collect();
        Prog { dom, nodes, outputs, columnar }
    }
    /// `(node, depth of the tapped loop within it)` for everything captured.
    fn outs(&self) -> Vec<(usize, usize)> {
        let mut v: Vec<(usize, usize)> = self.outputs.iter().map(|o| (*o, 0)).collect();
        for (i, n) in self.nodes.iter().enumerate() { if let Node::Loop(l, ..) = n { v.extend(l.taps().into_iter().map(|d| (i, d))); } }
        v
    }
    fn eval<T: SimTime>(&self, hist: &[(usize, Row, T, isize)], t: &T) -> Vec<Bag> {
        let mut v: Vec<Bag> = vec![];
        for n in &self.nodes {
            let b = match n {
                Node::Input(i) => { let mut o = Bag::new(); for (j, r, u, d) in hist { if i == j && u.less_equal(t) { add(&mut o, *r, *d); } } o }
                Node::Loop(l, a, b) => l.eval(self.dom, &v[*a], &r_distinct(&v[*b])),
                Node::Join(a, b) => r_join(&v[*a], &v[*b], |k, x, y| (k, (x + y) % 7)),
                Node::Map(a, f) => r_map(&v[*a], |r| f.apply(self.dom, r)),
            };
            v.push(b);
        }
        v
    }
}

// ---------------------------------------------------------------------------------------------
// The two backends
// ---------------------------------------------------------------------------------------------

trait Back<T: Root>: Sized + 'static {
    type C: Container + Clone + Negate + ResultsIn<Sum<T>>;
    type A<'s>: Clone;
    fn enter<'s, 'i>(c: Coll<'s, T>, inner: Scope<'i, DT<T>>) -> C<'i, T, Self>;
    fn fmap<'s>(c: C<'s, T, Self>, f: impl Fn(Row) -> Option<(Row, DT<T>)> + 'static) -> C<'s, T, Self>;
    fn arrange<'s>(c: C<'s, T, Self>) -> Self::A<'s>;
    fn join<'s>(a: Self::A<'s>, b: Self::A<'s>, f: impl Fn(u64, u64, u64) -> Row + 'static) -> C<'s, T, Self>;
    fn reduce<'s>(c: C<'s, T, Self>, f: impl Fn(&[(u64, isize)]) -> Vec<(u64, isize)> + 'static) -> C<'s, T, Self>;
    fn consolidate<'s>(c: C<'s, T, Self>) -> C<'s, T, Self>;
    fn leave<'s>(c: C<'s, T, Self>, level: usize) -> C<'s, T, Self>;
    /// Reachability in a statically nested scope.
    fn stat<'s>(_c: C<'s, T, Self>, _e: C<'s, T, Self>, _f: impl Fn(u64, u64, u64) -> Row + 'static) -> C<'s, T, Self> { panic!("harness: no static loops here") }
    fn out<'i, 's>(c: C<'i, T, Self>, outer: Scope<'s, T>) -> Coll<'s, T>;
}
trait Root: GenTime + CTime + Refines<()> + Default + Sync { }
impl Root for u64 { }
impl Root for Pair { }

struct Rows;
impl<T: Root> Back<T> for Rows where DT<T>: CTime + Timestamp<Summary = Sum<T>> {
    type C = Vec<(Row, DT<T>, isize)>;
    type A<'s> = Arr<'s, DT<T>>;
    fn enter<'s, 'i>(c: Coll<'s, T>, inner: Scope<'i, DT<T>>) -> C<'i, T, Self> { c.enter(inner).enter_dynamic(1) }
    fn fmap<'s>(c: C<'s, T, Self>, f: impl Fn(Row) -> Option<(Row, DT<T>)> + 'static) -> C<'s, T, Self> {
        use differential_dataflow::lattice::Lattice;
        c.inner.flat_map(move |(row, t, d)| f(row).map(|(r, u)| (r, t.join(&u), d))).as_collection()
    }
    fn arrange<'s>(c: C<'s, T, Self>) -> Self::A<'s> { c.arrange_by_key() }
    fn join<'s>(a: Self::A<'s>, b: Self::A<'s>, f: impl Fn(u64, u64, u64) -> Row + 'static) -> C<'s, T, Self> { a.join_core(b, move |k, x, y| Some(f(*k, *x, *y))) }
    fn reduce<'s>(c: C<'s, T, Self>, f: impl Fn(&[(u64, isize)]) -> Vec<(u64, isize)> + 'static) -> C<'s, T, Self> {
        c.reduce(move |_, i, o| o.extend(f(&i.iter().map(|(v, r)| (**v, *r)).collect::<Vec<_>>())))
    }
    fn consolidate<'s>(c: C<'s, T, Self>) -> C<'s, T, Self> { c.consolidate() }
    fn leave<'s>(c: C<'s, T, Self>, level: usize) -> C<'s, T, Self> { c.leave_dynamic(level) }
    fn stat<'s>(c: C<'s, T, Self>, e: C<'s, T, Self>, f: impl Fn(u64, u64, u64) -> Row + 'static) -> C<'s, T, Self> {
        c.clone().iterate(move |scope, x| { let (s, e) = (c.enter(scope), e.enter(scope)); x.join_map(e, move |k, a, b| f(*k, *a, *b)).concat(s).distinct() })
    }
    fn out<'i, 's>(c: C<'i, T, Self>, outer: Scope<'s, T>) -> Coll<'s, T> { c.leave(outer) }
}
struct Cols;
impl<T: Root> Back<T> for Cols where DT<T>: CTime + Timestamp<Summary = Sum<T>> {
    type C = RecordedUpdates<U<u64, u64, DT<T>>>;
    type A<'s> = CArr<'s, u64, u64, DT<T>>;
    fn enter<'s, 'i>(c: Coll<'s, T>, inner: Scope<'i, DT<T>>) -> C<'i, T, Self> {
        c.inner.unary::<ColBuilder<U<u64, u64, T>>, _, _, _>(Pipeline, "ToColumns", |_, _| |input, output| input.for_each(|cap, data| {
            let mut session = output.session_with_builder(&cap);
            for ((k, v), t, d) in data.drain(..) { session.give((&k, &v, &t, &(d as i64))); }
        })).as_collection().enter(inner)
    }
    fn fmap<'s>(c: C<'s, T, Self>, f: impl Fn(Row) -> Option<(Row, DT<T>)> + 'static) -> C<'s, T, Self> {
        differential_dataflow::columnar::collection::join_function(c, move |k, v, _, _| {
            use columnar::Columnar;
            f((u64::into_owned(k), u64::into_owned(v))).into_iter().map(|((k, v), t)| (k, v, t, 1i64)).collect::<Vec<_>>()
        })
    }
    fn arrange<'s>(c: C<'s, T, Self>) -> Self::A<'s> { col::arrange(c) }
    fn join<'s>(a: Self::A<'s>, b: Self::A<'s>, f: impl Fn(u64, u64, u64) -> Row + 'static) -> C<'s, T, Self> { col::join(a, b, f) }
    fn reduce<'s>(c: C<'s, T, Self>, f: impl Fn(&[(u64, isize)]) -> Vec<(u64, isize)> + 'static) -> C<'s, T, Self> { col::flat(col::reduce(col::arrange(c), Via::Plain, move |_, i| f(i))) }
    fn consolidate<'s>(c: C<'s, T, Self>) -> C<'s, T, Self> { col::consolidate(c) }
    fn leave<'s>(c: C<'s, T, Self>, level: usize) -> C<'s, T, Self> { leave_dynamic(c, level) }
    fn out<'i, 's>(c: C<'i, T, Self>, outer: Scope<'s, T>) -> Coll<'s, T> {
        use columnar::Columnar;
        c.leave(outer).inner.unary::<timely::container::CapacityContainerBuilder<Vec<(Row, T, isize)>>, _, _, _>(Pipeline, "ToRows", |_, _| |input, output| input.for_each(|cap, data| {
            let mut session = output.session(&cap);
            for (k, v, t, d) in data.updates.view().iter() { session.give(((u64::into_owned(k), u64::into_owned(v)), T::into_owned(t), i64::into_owned(d) as isize)); }
        })).as_collection()
    }
}

fn distinct<'s, T: Root, B: Back<T>>(c: C<'s, T, B>) -> C<'s, T, B> { B::reduce(c, |i| i.iter().map(|x| (x.0, 1)).collect()) }
fn least<'s, T: Root, B: Back<T>>(c: C<'s, T, B>) -> C<'s, T, B> { B::reduce(c, |i| vec![(i[0].0, 1)]) }
fn map<'s, T: Root, B: Back<T>>(c: C<'s, T, B>, f: impl Fn(Row) -> Row + 'static) -> C<'s, T, B> { B::fmap(c, move |r| Some((f(r), Default::default()))) }

/// Edges as a collection, and possibly as an arrangement shared by loops of every depth.
struct Edges<'s, T: Root, B: Back<T>> { coll: C<'s, T, B>, arr: B::A<'s> }
impl<'s, T: Root, B: Back<T>> Edges<'s, T, B> {
    fn get(&self, shared: bool) -> B::A<'s> { if shared { self.arr.clone() } else { B::arrange(self.coll.clone()) } }
}

fn render<'s, T: Root, B: Back<T>>(l: &Lp, level: usize, dom: Dom, src: C<'s, T, B>, e: &Edges<'s, T, B>, taps: &mut Vec<C<'s, T, B>>) -> C<'s, T, B>
where DT<T>: Timestamp<Summary = Sum<T>> {
    let s = match l.kind { Kind::Contract { mult: true } => src, Kind::Min => least::<T, B>(distinct::<T, B>(src)), _ => distinct::<T, B>(src) };
    if l.stat { return B::stat(s, e.coll.clone(), reach(dom, l.f)); }
    let scope = s.inner.scope();
    let step = || Product::new(Default::default(), feedback_summary::<u64>(level, l.step));
    // Rows may enter the loop at a later round.
    let s = if l.enter_at { B::fmap(s, move |(k, v)| Some(((k, v), at_coord(level, v % 3)))) } else { s };
    let (var, x) = match l.start {
        Start::Empty => Variable::new(scope, step()),
        Start::From => Variable::new_from(s.clone(), step()),
        Start::FirstRound => {
            let (var, x) = Variable::new(scope, step());
            let n = l.step;
            let later = B::fmap(s.clone(), move |r| Some((r, at_coord(level, n))));
            // Rows that enter at a later round are withdrawn no earlier than they enter.
            let later = if l.enter_at { B::fmap(s.clone(), move |(k, v)| Some(((k, v), at_coord(level, n + v % 3)))) } else { later };
            (var, x.concat(s.clone()).concat(later.negate()))
        }
    };
    let x = if l.consolidate { B::consolidate(x) } else { x };
    let y = match l.kind {
        Kind::Reach => B::join(B::arrange(x.clone()), e.get(l.arr), reach(dom, l.f)),
        Kind::Min => B::join(B::arrange(x.clone()), e.get(l.arr), relax(dom, l.inc)),
        _ => x.clone(),
    };
    let y = match &l.inner { None => y, Some(i) => render::<T, B>(i, level + 1, dom, y, e, taps) };
    let r = match l.kind {
        Kind::Reach => distinct::<T, B>(y.concat(s)),
        Kind::Min => least::<T, B>(y.concat(s)),
        Kind::Trim => {
            let keys = distinct::<T, B>(map::<T, B>(y, |(k, _)| (k, 0)));
            let by_val = map::<T, B>(x, move |(k, v)| (v % dom.nk, k * 16 + v));
            B::consolidate(map::<T, B>(B::join(B::arrange(by_val), B::arrange(keys), |k, a, _| (k, a)), |(_, p)| (p / 16, p % 16)))
        }
        Kind::Contract { mult } => { let h = map::<T, B>(y, |(k, v)| (k, v / 2)); if mult { B::consolidate(h) } else { distinct::<T, B>(h) } }
    };
    var.set(r.clone());
    // The tapped value leaves every level at once.
    if level > 1 && l.tap { taps.push(B::leave(r.clone(), 1)); }
    B::leave(r, level)
}

fn build<'s, T: Root, B: Back<T>>(prog: &Prog, inputs: Vec<Coll<'s, T>>, outer: Scope<'s, T>) -> Vec<Coll<'s, T>> where DT<T>: Timestamp<Summary = Sum<T>> {
    outer.iterative::<PointStamp<u64>, _, _>(|scope| {
        let ins: Vec<C<'_, T, B>> = inputs.into_iter().map(|c| B::enter(c, scope)).collect();
        let mut nodes: Vec<C<'_, T, B>> = vec![];
        let mut tapped = BTreeMap::new();
        for (i, n) in prog.nodes.iter().enumerate() {
            let c = match n {
                Node::Input(i) => ins[*i].clone(),
                Node::Loop(l, a, b) => {
                    let coll = distinct::<T, B>(nodes[*b].clone());
                    let e = Edges { arr: B::arrange(coll.clone()), coll };
                    let mut taps = vec![];
                    let c = render::<T, B>(l, 1, prog.dom, nodes[*a].clone(), &e, &mut taps);
                    // Inner loops were rendered first.
                    taps.reverse();
                    for (d, t) in l.taps().into_iter().zip(taps) { tapped.insert((i, d), t); }
                    c
                }
                Node::Join(a, b) => B::join(B::arrange(nodes[*a].clone()), B::arrange(nodes[*b].clone()), |k, x, y| (k, (x + y) % 7)),
                Node::Map(a, f) => { let (f, dom) = (*f, prog.dom); map::<T, B>(nodes[*a].clone(), move |r| f.apply(dom, r)) }
            };
            nodes.push(c);
        }
        prog.outs().into_iter().map(|(n, d)| B::out(if d == 0 { nodes[n].clone() } else { tapped.remove(&(n, d)).unwrap() }, outer)).collect()
    })
}

fn run<T: Root>(sim: &Arc<Sim>) where DT<T>: CTime + Timestamp<Summary = Sum<T>> {
    let (peers, config) = knobs(sim);
    let prog = Prog::generate(sim);
    sim.describe(format!("time {} program {prog:?}", std::any::type_name::<T>()));
    let load = Load { acts: if T::UNORDERED_ONLY { 16 } else { 24 }, nk: prog.dom.nk, nv: prog.dom.nv, big: false };
    let (mut script, hist) = Script::<T>::generate(sim, peers, 2, &load);
    script.quiet(sim);
    sim.describe(format!("inputs {:?}, {} updates", script.modes, hist.len()));
    for (w, a) in script.acts.iter().enumerate() { sim.note(|| format!("script w{w}: {a:?}")); }
    let names = prog.outs();
    let outs: Vec<Out<Row, T, isize>> = names.iter().map(|(n, d)| Out::new(&format!("n{n}.{d}"), peers)).collect();
    let prog = Arc::new(prog);
    let shared = Arc::new(script);
    {
        let (prog, outs) = (prog.clone(), outs.clone());
        sim.run_workers(peers, config, move |worker, ctx| {
            let probes: Vec<ProbeHandle<T>> = outs.iter().map(|_| ProbeHandle::new()).collect();
            let mut ins = worker.dataflow(|scope| {
                let (ins, colls): (Vec<Input<T>>, Vec<_>) = shared.modes.iter().map(|m| Input::new(scope, *m)).unzip();
                let got = if prog.columnar { build::<T, Cols>(&prog, colls, scope) } else { build::<T, Rows>(&prog, colls, scope) };
                for ((c, out), p) in got.into_iter().zip(outs.iter()).zip(probes.iter()) { capture(c, out, ctx, p); }
                ins
            });
            drive(worker, ctx, &shared.acts[ctx.index], &mut ins, &probes, &outs);
        });
    }
    if hist.len() > 1 { sim.nontrivial(); }
    sim.count_n("work.updates", hist.len() as u64);
    let base: Vec<T> = hist.iter().map(|h| h.2.clone()).chain([T::minimum()]).collect();
    let mut ts = base.clone();
    for o in &outs { ts.extend(o.times()); }
    let mut ts = probe_times(ts, 50, true);
    if ts.len() >= 50 { ts.extend(probe_times(base, 50, false)); }
    ts.push(T::fin());
    for t in ts {
        let want = prog.eval(&hist, &t);
        for ((n, d), out) in names.iter().zip(outs.iter()) {
            let w = match &prog.nodes[*n] { Node::Loop(l, a, b) if *d > 0 => l.tapped(*d, prog.dom, &want[*a], &r_distinct(&want[*b])), _ => want[*n].clone() };
            let got = out.at(&t);
            if w.len() != got.len() || w.iter().any(|(r, d)| got.get(r) != Some(&(*d as i64))) {
                sim.violate("exactness", format!("node n{n} depth {d} at time {t:?}: {}", diff_text(&w, &got)));
            }
        }
        sim.count("check.times");
    }
    for o in &outs { sim.count_n("work.outputs", o.len() as u64); }
}

fn c14(s: &Arc<Sim>) { match s.genw(&[3, 2]) { 0 => run::<u64>(s), _ => run::<Pair>(s) } }

fn main() {
    simcore::main(&[Check {
        id: "C14", scenario: c14, quick_runs: 30_000, thorough_secs: 600, level: "exploration",
        rule: "One case = one seeded run: a random program of one or two loops in sequence, each nesting up to three levels of run-time coordinates (every level starting empty, from its source, or from a source only the first round sees; advancing by one or two rounds; rows entering at later rounds; arrangements shared across levels; innermost loops sometimes nested statically), in the row or the columnar backend, at totally or partially ordered outer times, over random input histories split among 1-4 workers, with random configuration, schedule, deliveries and faults. Nontrivial = the history has at least two updates; distinct = distinct hash of the event sequence. Checked: every result that leaves one or several levels accumulates at every probed outer time to the explicit nested fixed points of the accumulated inputs, times reported complete are exact and stay so, every phase completes, and dataflows shut down",
        real: &["differential-dataflow dynamic scopes, variables, joins, reductions, arrangements (row and columnar)", "timely workers, progress tracking with dynamically long times, exchange channels"],
        stub: &["thread scheduling (baton-passing scheduler)", "delivery of bytes between workers (simulated network through timely's spill policy seam)", "clock_gettime and getrandom (virtual clock, seeded bytes)"],
        assumptions: &["loop bodies are monotone or contracting, so the iterations converge from every start", "the explicit fixed points in this file state what nested iteration means"],
    }]);
}
