//! Delta queries by half-joins (C11), worst-case optimal extension and lookups (C12).
use differential_dataflow::collection::vec::Collection;
use differential_dataflow::operators::arrange::{Arranged, TraceAgent};
use differential_dataflow::trace::implementations::{KeySpine, ValSpine};
use differential_dataflow::trace::{BatchCursor, BatchVal, Cursor, Navigable, TraceReader};
use differential_dataflow::trace::implementations::BatchContainer;
use differential_dataflow::{AsCollection, ExchangeData, Hashable};
use differential_dogs3::altneu::AltNeu;
use differential_dogs3::calculus::{Differentiate, Integrate};
use differential_dogs3::operators::{half_join, half_join2, propose, propose_distinct, validate, count};
use differential_dogs3::{CollectionIndex, PrefixExtender, ProposeExtensionMethod, ValidateExtensionMethod};
use simcore::{Check, Ctx, Out, Sim};
use simops::drive::*;
use simops::pair::Pair;
use std::collections::BTreeMap;
use std::sync::Arc;
use timely::container::{CapacityContainerBuilder, PushInto};
use timely::dataflow::channels::pact::{Exchange, Pipeline};
use timely::dataflow::operators::generic::Operator;
use timely::dataflow::operators::vec::Map;
use timely::dataflow::operators::probe::{Handle as ProbeHandle, Probe};
use timely::progress::timestamp::Refines;
use timely::progress::Antichain;

type Tup = [u64; 4];
type VC<'s, T, D> = Collection<'s, T, D, isize>;
type ByKey<'s, T> = Arranged<'s, TraceAgent<ValSpine<u64, u64, T, isize>>>;
type BySelf<'s, T> = Arranged<'s, TraceAgent<KeySpine<(u64, u64), T, isize>>>;

trait DogTime: GenTime + std::hash::Hash + Refines<()> + Sync { fn back(&self, far: bool) -> Self; const TOTAL: bool; }
impl DogTime for u64 { fn back(&self, _: bool) -> u64 { self.saturating_sub(1) } const TOTAL: bool = true; }
// A bound below which the order of times used by the queries (outer coordinate first) is not disturbed.
impl DogTime for Pair { fn back(&self, far: bool) -> Pair { Pair::new(self.0.outer.saturating_sub(1), if far { 0 } else { self.0.inner.saturating_sub(1) }) } const TOTAL: bool = false; }

/// A binary relation, by input, between two attributes.
#[derive(Clone, Copy, Debug)]
struct Atom { rel: usize, x: usize, y: usize }
const SHAPES: [&[(usize, usize)]; 9] = [&[(0, 1), (0, 2)], &[(0, 1), (1, 2)], &[(0, 1), (1, 2), (0, 2)], &[(0, 1), (1, 2), (2, 3)], &[(0, 1), (0, 2), (0, 3)], &[(0, 1), (0, 1)], &[(0, 1), (1, 2), (2, 3), (0, 3)], &[(0, 2), (1, 2)], &[(0, 1), (1, 2), (0, 2), (0, 3), (1, 3), (2, 3)]];

fn query(sim: &Sim, inputs: usize, weights: &[u32]) -> Vec<Atom> {
    SHAPES[sim.genw(weights)].iter().map(|(x, y)| {
        let (x, y) = if sim.gen(4) == 0 { (*y, *x) } else { (*x, *y) };
        Atom { rel: sim.gen(inputs as u64) as usize, x, y }
    }).collect()
}
/// The order in which atom `i`'s pipeline brings in the others: each shares an attribute with what is bound.
fn plan(sim: &Sim, atoms: &[Atom], i: usize) -> Vec<usize> {
    let mut bound = 1u32 << atoms[i].x | 1 << atoms[i].y;
    let mut left: Vec<usize> = (0..atoms.len()).filter(|j| *j != i).collect();
    let mut out = vec![];
    while !left.is_empty() {
        let can: Vec<usize> = left.iter().cloned().filter(|j| bound & (1 << atoms[*j].x | 1 << atoms[*j].y) != 0).collect();
        let j = can[sim.gen(can.len() as u64) as usize];
        bound |= 1 << atoms[j].x | 1 << atoms[j].y;
        left.retain(|k| *k != j);
        out.push(j);
    }
    out
}

/// Updates consolidated by (record, time).
fn fold<D: Ord, T: Ord>(us: impl IntoIterator<Item = (D, T, i64)>) -> BTreeMap<(D, T), i64> {
    let mut m = BTreeMap::new();
    for (d, t, r) in us { *m.entry((d, t)).or_insert(0) += r; }
    m.retain(|_, r| *r != 0);
    m
}
/// All combinations of updates satisfying the query, at the least upper bound of their times.
fn combos<T: DogTime>(atoms: &[Atom], rels: &[BTreeMap<((u64, u64), T), i64>]) -> BTreeMap<(Tup, T), i64> {
    let mut cur: Vec<(Tup, u32, T, i64)> = vec![([0; 4], 0, T::minimum(), 1)];
    for a in atoms {
        let mut next = vec![];
        for (tup, bound, t, r) in &cur {
            for (((x, y), u), d) in &rels[a.rel] {
                if bound & 1 << a.x != 0 && tup[a.x] != *x || bound & 1 << a.y != 0 && tup[a.y] != *y { continue; }
                let mut n = *tup;
                n[a.x] = *x;
                n[a.y] = *y;
                next.push((n, bound | 1 << a.x | 1 << a.y, t.join(u), r * d));
            }
        }
        cur = next;
    }
    fold(cur.into_iter().map(|(d, _, t, r)| (d, t, r)))
}

fn cap_out<T: DogTime, D: ExchangeData + Ord>(c: VC<'_, T, D>, out: &Out<D, T, isize>, ctx: &Ctx, probe: &ProbeHandle<T>) {
    let (sim, out, index) = (ctx.sim.clone(), out.clone(), ctx.index);
    c.inner.unary::<CapacityContainerBuilder<Vec<(D, T, isize)>>, _, _, _>(Pipeline, "Capture", move |_, _| move |input, output| {
        input.for_each(|cap, data| {
            for (d, t, r) in data.iter() {
                sim.check(cap.time().less_equal(t), "captime", || format!("output '{}': update ({d:?}, {t:?}, {r}) travels with a capability for {:?}", out.name, cap.time()));
                out.push(&sim, index, d.clone(), t.clone(), *r);
            }
            output.session(&cap).give_container(data);
        })
    }).probe_with(probe);
}

/// Holds updates back at random, as long as their times may still be joined by others.
fn stagger<'s, T: DogTime, D: ExchangeData>(c: VC<'s, T, D>, sim: Arc<Sim>) -> VC<'s, T, D> {
    c.inner.unary_frontier::<CapacityContainerBuilder<Vec<(D, T, isize)>>, _, _, _>(Exchange::new(|u: &(D, T, isize)| u.2 as u64), "Stagger", move |_, _| {
        let mut held: Vec<(timely::dataflow::operators::Capability<T>, _)> = vec![];
        move |(input, frontier), output| {
            input.for_each(|cap, data| for u in data.drain(..) { let c = cap.retain(0); held.push((if sim.gen(2) == 0 { c.delayed(&u.1) } else { c }, u)); });
            let mut i = 0;
            while i < held.len() {
                if !frontier.less_equal(held[i].0.time()) { let t = held[i].1 .1.clone(); held[i].0.downgrade(&t); }
                if !frontier.less_equal(&held[i].1 .1) || sim.gen(3) == 0 { let (c, u): (timely::dataflow::operators::Capability<T>, _) = held.swap_remove(i); output.session(&c).give(u); } else { i += 1; }
            }
        }
    }).as_collection()
}

#[derive(Clone, Copy, Debug)]
enum Yield { Never, After(usize), Flip }
#[derive(Clone, Copy, Debug)]
enum Fr { Zero, Back, Far, Same }
#[derive(Clone, Copy, Debug)]
struct How { second: bool, plain: bool, y: Yield, fr: Fr, strict: bool }

impl How {
    fn gen<T: DogTime>(sim: &Sim, strict: bool) -> How {
        let y = match sim.genw(&[2, 3, 3]) { 0 => Yield::Never, 1 => Yield::After(1 + sim.gen(4) as usize), _ => Yield::Flip };
        How { second: sim.gen(2) == 1, plain: matches!(y, Yield::Never) && sim.gen(2) == 1, y, fr: [Fr::Back, Fr::Far, Fr::Zero, if T::TOTAL && !strict { Fr::Same } else { Fr::Back }][sim.genw(&[4, 2, 1, 2])], strict }
    }
}

/// One half-join, by whichever operator and yielding `how` says; `put` places the found value.
fn hj<'s, T: DogTime, K, Tr>(sim: &Arc<Sim>, how: How, stream: VC<'s, T, (K, Tup, T)>, arr: Arranged<'s, Tr>, put: impl for<'a> Fn(&Tup, BatchVal<'a, Tr>) -> Tup + 'static) -> VC<'s, T, (Tup, T)>
where
    K: ExchangeData + Hashable,
    Tr: TraceReader<Batch: Navigable, Time = T> + Clone + 'static,
    for<'a> BatchCursor<Tr>: Cursor<Time = T, TimeGat<'a> = &'a T, Diff = isize>,
    <BatchCursor<Tr> as Cursor>::KeyContainer: BatchContainer<Owned = K>,
{
    let fr = how.fr;
    let frontier = move |t: &T, a: &mut Antichain<T>| { a.insert(match fr { Fr::Zero => T::minimum(), Fr::Back => t.back(false), Fr::Far => t.back(true), Fr::Same => t.clone() }); };
    let strict = how.strict;
    let cmp = move |t1: &T, t2: &T| if strict { t1.lt(t2) } else { t1.le(t2) };
    let (y, ys) = (how.y, sim.clone());
    let yields = move |_: std::time::Instant, n: usize| { let v = match y { Yield::Never => false, Yield::After(k) => n >= k, Yield::Flip => ys.chance(1, if ys.is_fair() { 60 } else { 3 }) }; if v { ys.count("yield"); } v };
    type Cb<T> = CapacityContainerBuilder<Vec<((Tup, T), T, isize)>>;
    match (how.second, how.plain) {
        (false, true) => half_join(stream, arr, frontier, cmp, move |_, tup, v| put(tup, v)),
        (true, true) => half_join2(stream, arr, frontier, cmp, move |_, tup, v| put(tup, v)),
        (false, false) => differential_dogs3::operators::half_join::half_join_internal_unsafe::<_, _, _, _, _, _, _, _, Cb<T>>(stream, arr, frontier, cmp, yields, move |session, _k: &K, tup: &Tup, v, initial: &T, d: &isize, found: &mut Vec<(T, isize)>| for (t, d2) in found.drain(..) { session.give(((put(tup, v), t), initial.clone(), d * d2)); }).as_collection(),
        (true, false) => differential_dogs3::operators::half_join2::half_join_internal_unsafe::<_, _, _, _, _, _, _, _, Cb<T>>(stream, arr, frontier, cmp, yields, move |builder: &mut Cb<T>, _k: &K, tup: &Tup, v, initial: &T, d: &isize, found: &mut Vec<(T, isize)>| for (t, d2) in found.drain(..) { builder.push_into(((put(tup, v), t), initial.clone(), d * d2)); }).as_collection(),
    }
}

struct Rel<'s, T: DogTime> { changes: VC<'s, T, (u64, u64)>, fwd: ByKey<'s, T>, rev: ByKey<'s, T>, own: BySelf<'s, T> }

fn load(sim: &Sim, acts: u64, atoms: usize) -> Load {
    // Large batches over wide keys, now and then.
    if atoms < 4 && sim.chance(1, 14) { wide(); return Load { acts: 8, nk: 90, nv: 90, big: true }; }
    Load { acts, nk: 1 + sim.gen(5), nv: 1 + sim.gen(5), big: false }
}

fn report<D: std::fmt::Debug + Ord, T: std::fmt::Debug + Ord>(sim: &Sim, class: &str, what: &str, want: &BTreeMap<(D, T), i64>, got: &BTreeMap<(D, T), i64>) {
    if want != got {
        let mut v = vec![];
        for (k, c) in want { if got.get(k) != Some(c) { v.push(format!("{k:?}: expected {c}, got {}", got.get(k).unwrap_or(&0))); } }
        for (k, c) in got { if !want.contains_key(k) { v.push(format!("{k:?}: expected 0, got {c}")); } }
        v.truncate(5);
        sim.violate(class, format!("{what}: (record, time) with wrong change: {}", v.join(", ")));
    }
    sim.count("check.updates_compared");
}

fn rels_of<T: DogTime>(hist: &[(usize, (u64, u64), T, isize)], inputs: usize) -> Vec<BTreeMap<((u64, u64), T), i64>> {
    (0..inputs).map(|i| fold(hist.iter().filter(|h| h.0 == i).map(|h| (h.1, h.2.clone(), h.3 as i64)))).collect()
}

/// Runs a worker's script and both liveness phases, with outputs of any type.
fn drive_any<T: DogTime, D: ExchangeData + Ord>(worker: &mut timely::worker::Worker, ctx: &Ctx, script: &[Act<T>], inputs: &mut [Input<T>], probes: &[ProbeHandle<T>], outs: &[Out<D, T, isize>]) {
    let watch = || for (p, o) in probes.iter().zip(outs) { p.with_frontier(|f| o.observe(&ctx.sim, ctx.index, f)); };
    for a in script {
        match a {
            Act::Work => ctx.some_steps(worker, |_| watch()),
            Act::Quiet(to) => {
                for (n, i) in inputs.iter_mut().enumerate() { i.apply(&Act::Flush { input: n }); }
                caught_up(ctx, worker, to, probes, &watch);
            }
            a => { ctx.sim.note(|| format!("w{} {a:?}", ctx.index)); inputs[a.input().unwrap()].apply(a); }
        }
    }
    for i in inputs.iter_mut() { i.finish(); }
    ctx.script_done();
    ctx.settle(worker, "advanced", |_| { watch(); probes.iter().all(|p| !p.less_than(&T::fin())) });
    for i in inputs.iter_mut() { i.close(); }
    ctx.settle(worker, "shutdown", |w| { watch(); !w.has_dataflows() });
}

fn c11(sim: &Arc<Sim>) { if sim.gen(2) == 0 { delta::<u64>(sim) } else { delta::<Pair>(sim) } }

fn delta<T: DogTime>(sim: &Arc<Sim>) {
    let (peers, config) = knobs(sim);
    let inputs = 1 + sim.genw(&[3, 3, 2]);
    let atoms = query(sim, inputs, &[4, 4, 4, 2, 2, 2, 1, 2, 0]);
    let plans: Vec<Vec<usize>> = (0..atoms.len()).map(|i| plan(sim, &atoms, i)).collect();
    // Any ranking of the atoms breaks ties.
    let mut rank: Vec<usize> = (0..atoms.len()).collect();
    for i in (1..rank.len()).rev() { rank.swap(i, sim.gen(i as u64 + 1) as usize); }
    let hows: Vec<Vec<How>> = (0..atoms.len()).map(|i| plans[i].iter().map(|j| How::gen::<T>(sim, rank[*j] > rank[i])).collect()).collect();
    let (slow_changes, slow_rels) = (sim.gen(3) == 0, sim.gen(3) == 0);
    sim.describe(format!("query {atoms:?} plans {plans:?} {}", if slow_changes { "changes held back" } else { "" }));
    sim.describe(format!("half-joins {hows:?}"));
    let (mut script, hist) = Script::<T>::generate(sim, peers, inputs, &load(sim, 26, atoms.len()));
    // At partially ordered times a half-join may wait for the frontier to pass under the total order, by design.
    if T::TOTAL { script.quiet(sim); }
    let mut times: Vec<T> = hist.iter().map(|h| h.2.clone()).collect();
    times.sort(); times.dedup();
    for (w, a) in script.acts.iter().enumerate() { sim.note(|| format!("script w{w}: {a:?}")); }
    let outs: Vec<Out<Tup, T, isize>> = vec![Out::new("query", peers)];
    let script = Arc::new(script);
    {
        let (outs, atoms) = (outs.clone(), atoms.clone());
        sim.run_workers(peers, config, move |worker, ctx| {
            let sim = ctx.sim.clone();
            let probes = vec![ProbeHandle::new()];
            let mut ins = worker.dataflow::<T, _, _>(|scope| {
                let (ins, rels): (Vec<_>, Vec<Rel<'_, T>>) = script.modes.iter().map(|m| {
                    let (i, c) = Input::new(scope, *m);
                    let a = if slow_rels { stagger(c.clone(), sim.clone()) } else { c.clone() };
                    let changes = if slow_changes { stagger(c, sim.clone()) } else { c };
                    (i, Rel { changes, fwd: a.clone().arrange_by_key(), rev: a.clone().map(|(x, y)| (y, x)).arrange_by_key(), own: a.arrange_by_self() })
                }).unzip();
                let mut results: Option<VC<'_, T, Tup>> = None;
                for (i, a) in atoms.iter().enumerate() {
                    let (ax, ay) = (a.x, a.y);
                    let mut cur: VC<'_, T, (Tup, T)> = rels[a.rel].changes.clone().inner.map(move |((x, y), t, r)| { let mut tup = [0; 4]; tup[ax] = x; tup[ay] = y; ((tup, t.clone()), t, r) }).as_collection();
                    let mut bound = 1u32 << ax | 1 << ay;
                    for (j, how) in plans[i].iter().zip(&hows[i]) {
                        let b = atoms[*j];
                        let (x, y) = (b.x, b.y);
                        let r = &rels[b.rel];
                        cur = match (bound & 1 << x != 0, bound & 1 << y != 0) {
                            (true, true) => hj(&sim, *how, cur.map(move |(tup, t)| ((tup[x], tup[y]), tup, t)), r.own.clone(), |tup, _| *tup),
                            (true, false) => hj(&sim, *how, cur.map(move |(tup, t)| (tup[x], tup, t)), r.fwd.clone(), move |tup, v| { let mut n = *tup; n[y] = *v; n }),
                            _ => hj(&sim, *how, cur.map(move |(tup, t)| (tup[y], tup, t)), r.rev.clone(), move |tup, v| { let mut n = *tup; n[x] = *v; n }),
                        };
                        bound |= 1 << x | 1 << y;
                    }
                    let done = cur.inner.map(|((tup, t), _, r)| (tup, t, r)).as_collection();
                    results = Some(match results { None => done, Some(r) => r.concat(done) });
                }
                cap_out(results.unwrap(), &outs[0], ctx, &probes[0]);
                ins
            });
            drive_any(worker, ctx, &script.acts[ctx.index], &mut ins, &probes, &outs);
        });
    }
    if hist.len() > 1 { sim.nontrivial(); }
    sim.count_n("work.updates", hist.len() as u64);
    let want = combos(&atoms, &rels_of(&hist, inputs));
    let got = fold(outs[0].updates().into_iter().map(|(d, t, r)| (d, t, r as i64)));
    report(sim, "pairs", &format!("query {atoms:?}"), &want, &got);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Wcoj { Extend, Lookup, Calculus }

fn c12(sim: &Arc<Sim>) { match sim.genw(&[5, 2, 2]) { 0 => wcoj(sim), 1 => lookups::<u64>(sim), _ => lookups::<Pair>(sim) } }

/// Distinct contents as updates.
fn distinct(rel: &BTreeMap<((u64, u64), u64), i64>) -> BTreeMap<((u64, u64), u64), i64> {
    let mut ts: Vec<u64> = rel.keys().map(|k| k.1).collect();
    ts.sort(); ts.dedup();
    let mut out = BTreeMap::new();
    for (r, t) in rel.keys() {
        let at = |t: u64| rel.range((*r, 0)..=(*r, t)).map(|x| x.1).sum::<i64>() != 0;
        let (was, is) = (*t > 0 && at(t - 1), at(*t));
        if was != is { out.insert((*r, *t), if is { 1 } else { -1 }); }
    }
    out
}

fn wcoj(sim: &Arc<Sim>) {
    let (peers, config) = knobs(sim);
    let inputs = 1 + sim.genw(&[3, 3, 2]);
    let how = [Wcoj::Extend, Wcoj::Lookup, Wcoj::Calculus][sim.genw(&[4, 3, 2])];
    let atoms = query(sim, inputs, &[2, 2, 5, 1, 1, if how == Wcoj::Extend { 0 } else { 2 }, 2, 3, if how == Wcoj::Extend { 2 } else { 0 }]);
    let plans: Vec<Vec<usize>> = (0..atoms.len()).map(|i| plan(sim, &atoms, i)).collect();
    let (slow_changes, slow_rels) = (sim.gen(3) == 0, sim.gen(3) == 0);
    sim.describe(format!("{how:?} for query {atoms:?} plans {plans:?}"));
    let (mut script, hist) = Script::<u64>::generate(sim, peers, inputs, &load(sim, if atoms.len() > 4 { 18 } else { 26 }, atoms.len()));
    script.quiet(sim);
    for (w, a) in script.acts.iter().enumerate() { sim.note(|| format!("script w{w}: {a:?}")); }
    let outs: Vec<Out<Tup, u64, isize>> = vec![Out::new("query", peers)];
    let script = Arc::new(script);
    {
        let (outs, atoms) = (outs.clone(), atoms.clone());
        sim.run_workers(peers, config, move |worker, ctx| {
            let sim = ctx.sim.clone();
            let probes = vec![ProbeHandle::new()];
            let mut ins = worker.dataflow::<u64, _, _>(|scope| {
                let (ins, colls): (Vec<_>, Vec<VC<'_, u64, (u64, u64)>>) = script.modes.iter().map(|m| {
                    let (i, c) = Input::new(scope, *m);
                    // Relations are sets: how often an index proposes or confirms an extension is then the same.
                    (i, if how == Wcoj::Calculus { c } else { c.distinct() })
                }).unzip();
                let result = scope.clone().scoped::<AltNeu<u64>, _, _>("DeltaQuery", |inner| {
                    let mut results: Vec<VC<'_, AltNeu<u64>, Tup>> = vec![];
                    let start = |i: usize| { let (ax, ay) = (atoms[i].x, atoms[i].y); move |(x, y): (u64, u64)| { let mut tup = [0; 4]; tup[ax] = x; tup[ay] = y; tup } };
                    match how {
                        Wcoj::Extend => {
                            let idx: Vec<[[CollectionIndex<u64, u64, AltNeu<u64>, isize>; 2]; 2]> = colls.iter().map(|c| {
                                let c = if slow_rels { stagger(c.clone(), sim.clone()) } else { c.clone() };
                                let f = c.enter(inner);
                                let r = f.clone().map(|(x, y)| (y, x));
                                let neu = |t: &AltNeu<u64>| AltNeu::neu(t.time);
                                [[CollectionIndex::index(f.clone()), CollectionIndex::index(r.clone())], [CollectionIndex::index(f.delay(neu)), CollectionIndex::index(r.delay(neu))]]
                            }).collect();
                            for (i, a) in atoms.iter().enumerate() {
                                let c = if slow_changes { stagger(colls[a.rel].clone(), sim.clone()) } else { colls[a.rel].clone() };
                                let mut cur = c.enter(inner).map(start(i));
                                let mut bound = 1u32 << a.x | 1 << a.y;
                                for j in &plans[i] {
                                    let new = if bound & 1 << atoms[*j].x == 0 { atoms[*j].x } else if bound & 1 << atoms[*j].y == 0 { atoms[*j].y } else { continue };
                                    // All atoms between the new attribute and bound ones.
                                    let mut exts: Vec<Box<dyn PrefixExtender<'_, AltNeu<u64>, isize, Prefix = Tup, Extension = u64>>> = vec![];
                                    for (k, b) in atoms.iter().enumerate() {
                                        if k == i { continue; }
                                        let neu = (k > i) as usize;
                                        if b.y == new && bound & 1 << b.x != 0 { let x = b.x; exts.push(Box::new(idx[b.rel][neu][0].extend_using(move |t: &Tup| t[x]))); }
                                        else if b.x == new && bound & 1 << b.y != 0 { let y = b.y; exts.push(Box::new(idx[b.rel][neu][1].extend_using(move |t: &Tup| t[y]))); }
                                    }
                                    let mut refs: Vec<&mut dyn PrefixExtender<'_, AltNeu<u64>, isize, Prefix = Tup, Extension = u64>> = exts.iter_mut().map(|e| &mut **e as _).collect();
                                    cur = cur.extend(&mut refs[..]).map(move |(t, v)| { let mut n = t; n[new] = v; n });
                                    bound |= 1 << new;
                                }
                                results.push(cur);
                            }
                        }
                        Wcoj::Lookup => {
                            let back = |t: &AltNeu<u64>| t.time.saturating_sub(1);
                            let arrs: Vec<_> = colls.iter().map(|c| {
                                let c = if slow_rels { stagger(c.clone(), sim.clone()) } else { c.clone() };
                                (c.clone().arrange_by_key(), c.clone().map(|(x, y)| (y, x)).arrange_by_key(), c.arrange_by_self())
                            }).collect();
                            for (i, a) in atoms.iter().enumerate() {
                                let c = if slow_changes { stagger(colls[a.rel].clone(), sim.clone()) } else { colls[a.rel].clone() };
                                let mut cur = c.enter(inner).map(start(i));
                                let mut bound = 1u32 << a.x | 1 << a.y;
                                for j in &plans[i] {
                                    let b = atoms[*j];
                                    let (x, y, neu) = (b.x, b.y, *j > i);
                                    let at = move |t: u64| AltNeu { time: t, neu };
                                    let r = &arrs[b.rel];
                                    cur = match (bound & 1 << x != 0, bound & 1 << y != 0) {
                                        (true, true) => validate(cur.map(move |t| (t, t[y])), r.2.clone().enter_at(inner, move |_, _, t| at(*t), back), move |t: &Tup| t[x]).map(|(t, _)| t),
                                        (true, false) => propose(cur, r.0.clone().enter_at(inner, move |_, _, t| at(*t), back), move |t: &Tup| t[x]).map(move |(t, v)| { let mut n = t; n[y] = v; n }),
                                        _ => propose(cur, r.1.clone().enter_at(inner, move |_, _, t| at(*t), back), move |t: &Tup| t[y]).map(move |(t, v)| { let mut n = t; n[x] = v; n }),
                                    };
                                    bound |= 1 << x | 1 << y;
                                }
                                results.push(cur);
                            }
                        }
                        Wcoj::Calculus => {
                            let back = |t: &AltNeu<u64>| t.time.saturating_sub(1);
                            let arrs: Vec<_> = colls.iter().map(|c| {
                                let c = if slow_rels { stagger(c.clone(), sim.clone()) } else { c.clone() };
                                (c.clone().arrange_by_key(), c.clone().map(|(x, y)| (y, x)).arrange_by_key(), c.arrange_by_self())
                            }).collect();
                            for (i, a) in atoms.iter().enumerate() {
                                let c = if slow_changes { stagger(colls[a.rel].clone(), sim.clone()) } else { colls[a.rel].clone() };
                                let mut cur = c.differentiate(inner).map(start(i));
                                let mut bound = 1u32 << a.x | 1 << a.y;
                                for j in &plans[i] {
                                    let b = atoms[*j];
                                    let (x, y, neu) = (b.x, b.y, *j > i);
                                    let at = move |t: u64| AltNeu { time: t, neu };
                                    let r = &arrs[b.rel];
                                    cur = match (bound & 1 << x != 0, bound & 1 << y != 0) {
                                        (true, true) => cur.map(move |t| ((t[x], t[y]), t)).join_core(r.2.clone().enter_at(inner, move |_, _, t| at(*t), back), |_, t, _| Some(*t)),
                                        (true, false) => cur.map(move |t| (t[x], t)).join_core(r.0.clone().enter_at(inner, move |_, _, t| at(*t), back), move |_, t, v| { let mut n = *t; n[y] = *v; Some(n) }),
                                        _ => cur.map(move |t| (t[y], t)).join_core(r.1.clone().enter_at(inner, move |_, _, t| at(*t), back), move |_, t, v| { let mut n = *t; n[x] = *v; Some(n) }),
                                    };
                                    bound |= 1 << x | 1 << y;
                                }
                                results.push(cur);
                            }
                        }
                    }
                    let mut it = results.into_iter();
                    let first = it.next().unwrap();
                    let all = first.concatenate(it);
                    if how == Wcoj::Calculus { all.integrate(scope) } else { all.leave(scope) }
                });
                cap_out(result, &outs[0], ctx, &probes[0]);
                ins
            });
            drive_any(worker, ctx, &script.acts[ctx.index], &mut ins, &probes, &outs);
        });
    }
    if hist.len() > 1 { sim.nontrivial(); }
    sim.count_n("work.updates", hist.len() as u64);
    let mut rels = rels_of(&hist, inputs);
    if how != Wcoj::Calculus { rels = rels.iter().map(distinct).collect(); }
    let want = combos(&atoms, &rels);
    let got = fold(outs[0].updates().into_iter().map(|(d, t, r)| (d, t, r as i64)));
    report(sim, "join", &format!("{how:?} for query {atoms:?}"), &want, &got);
}

/// Lookups as such: each change of a prefix meets what the index holds at the change's own time.
fn lookups<T: DogTime>(sim: &Arc<Sim>) {
    let (peers, config) = knobs(sim);
    // Input 0 holds prefixes; the others index values.
    let inputs = 2 + sim.gen(2) as usize;
    let n = 6;
    let (mut script, hist) = Script::<T>::generate(sim, peers, inputs, &load(sim, 26, 9));
    script.quiet(sim);
    let (slow_changes, slow_rels) = (sim.gen(3) == 0, sim.gen(3) == 0);
    sim.describe(format!("lookups in {} indexes", inputs - 1));
    for (w, a) in script.acts.iter().enumerate() { sim.note(|| format!("script w{w}: {a:?}")); }
    let names = ["propose", "propose_distinct", "validate", "count", "propose_using", "validate_using"];
    let outs: Vec<Out<Tup, T, isize>> = names.iter().map(|s| Out::new(s, peers)).collect();
    let script = Arc::new(script);
    {
        let outs = outs.clone();
        sim.run_workers(peers, config, move |worker, ctx| {
            let sim = ctx.sim.clone();
            let probes: Vec<ProbeHandle<T>> = (0..n).map(|_| ProbeHandle::new()).collect();
            let mut ins = worker.dataflow::<T, _, _>(|scope| {
                let (ins, colls): (Vec<_>, Vec<VC<'_, T, (u64, u64)>>) = script.modes.iter().map(|m| Input::new(scope, *m)).unzip();
                let prefixes = if slow_changes { stagger(colls[0].clone(), sim.clone()) } else { colls[0].clone() };
                let rel = if slow_rels { stagger(colls[1].clone(), sim.clone()) } else { colls[1].clone() };
                let last = colls.last().unwrap().clone();
                let by_key = rel.clone().arrange_by_key();
                let by_self = rel.arrange_by_self();
                let index = CollectionIndex::index(last);
                cap_out(propose(prefixes.clone(), by_key.clone(), |p: &(u64, u64)| p.0).map(|((a, b), v)| [a, b, v, 0]), &outs[0], ctx, &probes[0]);
                cap_out(propose_distinct(prefixes.clone(), by_key, |p: &(u64, u64)| p.0).map(|((a, b), v)| [a, b, v, 0]), &outs[1], ctx, &probes[1]);
                // Validated: the prefix's key with the prefix's own value as the extension.
                cap_out(validate(prefixes.clone().map(|p| (p, p.1)), by_self.clone(), |p: &(u64, u64)| p.0).map(|((a, b), v)| [a, b, v, 0]), &outs[2], ctx, &probes[2]);
                // Counts of the values of the pair, in place of larger ones.
                cap_out(count(prefixes.clone().map(|p| (p, 3, 9)), by_self, |p: &(u64, u64)| *p, 2).map(|((a, b), c, i)| [a, b, c as u64, i as u64]), &outs[3], ctx, &probes[3]);
                cap_out(prefixes.clone().propose_using(&mut index.extend_using(|p: &(u64, u64)| p.0)).map(|((a, b), v)| [a, b, v, 0]), &outs[4], ctx, &probes[4]);
                cap_out(prefixes.map(|p| (p, p.1)).validate_using(&mut index.extend_using(|p: &(u64, u64)| p.0)).map(|((a, b), v)| [a, b, v, 0]), &outs[5], ctx, &probes[5]);
                ins
            });
            drive_any(worker, ctx, &script.acts[ctx.index], &mut ins, &probes, &outs);
        });
    }
    if hist.len() > 1 { sim.nontrivial(); }
    sim.count_n("work.updates", hist.len() as u64);
    let rels = rels_of(&hist, inputs);
    let at = |i: usize, t: &T| -> BTreeMap<(u64, u64), i64> {
        let mut m = BTreeMap::new();
        for ((r, u), d) in &rels[i] { if u.less_equal(t) { *m.entry(*r).or_insert(0) += d; } }
        m.retain(|_, d| *d != 0);
        m
    };
    let mut want: Vec<Vec<(Tup, T, i64)>> = vec![vec![]; n];
    for (((a, b), t), d) in &rels[0] {
        for (i, base) in [(1, 0), (inputs - 1, 4)] {
            let held = at(i, t);
            for ((k, v), c) in &held {
                if k != a { continue; }
                want[base].push(([*a, *b, *v, 0], t.clone(), d * c));
                if base == 0 { want[1].push(([*a, *b, *v, 0], t.clone(), *d)); }
                if v == b { want[if base == 0 { 2 } else { 5 }].push(([*a, *b, *v, 0], t.clone(), *d)); }
                if base == 0 && v == b { let s = *c as usize; want[3].push((if 3 < s { [*a, *b, 3, 9] } else { [*a, *b, s as u64, 2] }, t.clone(), *d)); }
            }
        }
    }
    for i in 0..n {
        let got = fold(outs[i].updates().into_iter().map(|(d, t, r)| (d, t, r as i64)));
        report(sim, "lookup", names[i], &fold(want[i].iter().cloned()), &got);
    }
}

const REAL: &[&str] = &["differential-dogs3 operators and indexes, differential-dataflow arrangements behind them", "timely workers, progress tracking, exchange channels, serialization of exchanged batches"];
const STUB: &[&str] = &["thread scheduling (baton-passing scheduler)", "delivery of bytes between workers (simulated network)", "clock_gettime and getrandom"];

fn main() {
    let mk = |id, scenario, quick_runs, rule| Check { id, scenario, quick_runs, thorough_secs: 900, level: "exploration", rule, real: REAL, stub: STUB, assumptions: &["timely 0.31 itself (not in /repo) delivers messages and progress as documented", "the frontier function given to a half-join does not let compaction disturb the total order of times, as its documentation demands"] };
    simcore::main(&[
        mk("C11", c11, 45_000, "One case = one seeded run: a random conjunctive query of 2-4 binary atoms over 1-3 inputs as one half-join pipeline per atom, random plans, tie-breaking ranks, operators, yield decisions and compaction functions, totally or partially ordered times, 1-4 workers, faults. Nontrivial = at least two updates; distinct = distinct event hash. Checked: the exact consolidated set of (record, least upper bound of times, product of changes) over all combinations of updates; finality; completion and shutdown under a fair schedule"),
        mk("C12", c12, 45_000, "One case = one seeded run: a random conjunctive query by worst-case-optimal extension, by lookups, or by differentiated joins, at totally ordered times; or prefixes looked up in indexes at total or partial times; 1-4 workers, faults. Nontrivial = at least two updates; distinct = distinct event hash. Checked: the exact changes of the natural join; the exact matches of every prefix change; finality; completion and shutdown under a fair schedule"),
    ]);
}
