//! Arrangements, their trace handles, and imports of them into later dataflows (C04, C05).
use differential_dataflow::lattice::{antichain_join};
use differential_dataflow::operators::arrange::{Arranged, ShutdownButton, TraceAgent};
use differential_dataflow::trace::chunk::vec as chunk;
use differential_dataflow::trace::implementations::BatchContainer;
use differential_dataflow::trace::implementations::chunker::ContainerChunker;
use differential_dataflow::trace::implementations::{KeyBatcher, KeyBuilder, KeySpine, ValBatcher, ValBuilder, ValSpine};
use differential_dataflow::trace::{BatchCursor, Cursor, Navigable, Trace, TraceReader};
use simcore::{Check, Ctx, Out, Sim};
use simops::dag::{Coll, Row};
use simops::drive::*;
use simops::pair::{Pair, Trip};
use simops::tracing::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use timely::container::PushInto;
use differential_dataflow::operators::arrange::arrangement::arrange_core;
use timely::dataflow::channels::pact::{Exchange, Pipeline};
use timely::dataflow::operators::probe::Handle as ProbeHandle;
use timely::dataflow::operators::CapabilitySet;
use timely::order::PartialOrder;
use timely::progress::timestamp::Refines;
use timely::progress::{Antichain, Timestamp};

trait Readable<T: GenTime, S: Shape<R = isize>>: Trace<Time = T, Batch: Navigable> + 'static
where for<'a> BatchCursor<Self>: Cursor<Key<'a> = &'a S::K, Val<'a> = &'a S::V, Time = T, ValOwn = S::V, Diff = isize, KeyContainer: BatchContainer<Owned = S::K>, DiffGat<'a> = &'a isize, TimeGat<'a> = &'a T> { }
impl<T: GenTime, S: Shape<R = isize>, Tr> Readable<T, S> for Tr
where Tr: Trace<Time = T, Batch: Navigable> + 'static, for<'a> BatchCursor<Tr>: Cursor<Key<'a> = &'a S::K, Val<'a> = &'a S::V, Time = T, ValOwn = S::V, Diff = isize, KeyContainer: BatchContainer<Owned = S::K>, DiffGat<'a> = &'a isize, TimeGat<'a> = &'a T> { }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { Import, Named, Core, Frontier, FrontierCore }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Use { Capture, Join, Reduce, Loop, Fan, Other, Count, Total }
impl Use { fn reduces(self) -> bool { matches!(self, Use::Reduce | Use::Count | Use::Total) } }
#[derive(Clone, Debug)]
struct Inst<T> { kind: Kind, usage: Use, since: Vec<T>, until: Vec<T>, late: bool, other: Option<Side<T>> }
/// A second collection, all of it present at every worker, with its own pace.
#[derive(Clone, Debug)]
struct Side<T> { mode: InMode, acts: Vec<Act<T>>, hist: Vec<(Row, T, i64)>, close: bool }

#[derive(Clone, Debug)]
enum Choice<T> { Upper, Times(Vec<T>), UpperJoin(T), Done }
#[derive(Clone, Debug)]
enum Op<T> { In(Act<T>), Clone(usize), Drop(usize), Logical(usize, Choice<T>), Physical(usize, Choice<T>), Read(usize), Install(usize, usize), Press(usize), Side(usize, usize) }

struct World<T> { sim: Arc<Sim>, peers: usize, modes: Vec<InMode>, ops: Vec<Vec<Op<T>>>, insts: Vec<Inst<T>>, model: Model<T>, outs: Vec<Out<Row, T, isize>>, facts: Mutex<Facts<T>>, keep: bool, drop_first: bool, press_all: bool }

fn generate<T: GenTime + simops::dag::Level>(sim: &Arc<Sim>, peers: usize, imports: bool, holds: Holds, by_self: bool) -> World<T> {
    let load = if sim.chance(1, 14) { wide(); Load { acts: 14, nk: [90, 3, 30][sim.gen(3) as usize], nv: [3, 90, 30][sim.gen(3) as usize], big: true } } else { Load { acts: 34, nk: 1 + sim.gen(6), nv: 1 + sim.gen(4), big: false } };
    let (mut script, hist) = Script::<T>::generate(sim, peers, 1, &load);
    script.quiet(sim);
    let mut times: Vec<T> = hist.iter().map(|h| h.2.clone()).collect();
    times.push(T::minimum());
    times = probe_times(times, 24, true);
    let pick = |s: &Sim| { let t = times[s.gen(times.len() as u64) as usize].clone(); if s.gen(3) == 0 { t } else { T::gen_ge(s, &t) } };
    let picks = |s: &Sim| -> Vec<T> { let mut v = vec![pick(s)]; if s.gen(3) == 0 { v.push(pick(s)); } v };
    let n_inst = if imports { 1 + sim.gen(3) as usize } else { sim.genw(&[3, 1]) };
    let mut insts: Vec<Inst<T>> = (0..n_inst).map(|_| Inst {
        kind: [Kind::Import, Kind::Named, Kind::Core, Kind::Frontier, Kind::FrontierCore][sim.genw(&[3, 1, 2, 3, 4])],
        usage: [Use::Capture, Use::Join, Use::Reduce, Use::Loop, Use::Fan, Use::Other, Use::Count, Use::Total][sim.genw(&[4, 2, 2, if load.big { 0 } else { 1 }, 1, 3, if T::TOTAL && by_self { 2 } else { 0 }, if T::TOTAL && by_self { 2 } else { 0 }])],
        since: picks(sim), until: if sim.gen(3) == 0 { vec![] } else { picks(sim) }, late: sim.chance(1, 6), other: None,
    }).collect();
    for i in insts.iter_mut().filter(|i| i.usage == Use::Other) {
        let (mut side, hist) = Script::<T>::generate(sim, 1, 1, &Load { acts: 14, nk: load.nk, nv: load.nv, big: false });
        let mut acts = side.acts.pop().unwrap();
        acts.retain(|a| !matches!(a, Act::Work));
        i.other = Some(Side { mode: side.modes[0], acts, hist: hist.into_iter().map(|(_, r, t, d)| (r, t, d as i64)).collect(), close: sim.gen(2) == 0 });
    }
    // At least one handle is kept through the end when a late install needs it.
    let keep = insts.iter().any(|i| i.late) || sim.gen(2) == 1;
    // Pressing a button on some workers while a reduction reads the import on them; see known_findings.txt.
    let split = sim.chance(1, 3);
    // Likewise for reductions of plain imports from handles compacted beyond the trace's upper.
    let tame = !sim.chance(1, 20) && insts.iter().any(|i| matches!(i.kind, Kind::Import | Kind::Named | Kind::Core) && i.usage.reduces());
    // Likewise for reductions of imports from physically compacted handles.
    let phys = sim.chance(1, 20) || !insts.iter().any(|i| i.usage.reduces());
    let press_all = sim.gen(2) == 1;
    let early: Vec<usize> = (0..n_inst).filter(|i| !insts[*i].late).collect();
    let mut ops = vec![];
    for acts in script.acts.iter() {
        let mut mine = vec![];
        let mut alive = vec![true];
        let mut next = 0;
        let mut pressable: Vec<usize> = vec![];
        let mut acts = acts.iter();
        loop {
            let live: Vec<usize> = (0..alive.len()).filter(|i| alive[*i]).collect();
            let h = live[sim.gen(live.len() as u64) as usize];
            let choice = |s: &Sim| match s.genw(&[4, if tame { 0 } else { 3 }, if tame { 0 } else { 2 }, if h > 0 { 1 } else { 0 }]) { 0 => Choice::Upper, 1 => Choice::Times(picks(s)), 2 => Choice::UpperJoin(pick(s)), _ => Choice::Done };
            match sim.genw(&[12, 1, 1, 3, 2, 4, 2, 1, if next > 0 { 2 } else { 0 }]) {
                8 => { let i = early[sim.gen(next as u64) as usize]; if insts[i].other.is_some() { mine.push(Op::Side(i, 1 + sim.gen(6) as usize)); } }
                0 => match acts.next() { Some(a) => mine.push(Op::In(a.clone())), None => break },
                1 => { alive.push(true); mine.push(Op::Clone(h)); }
                2 => if h > 0 { alive[h] = false; mine.push(Op::Drop(h)); },
                3 => mine.push(Op::Logical(h, choice(sim))),
                // Joins require that a trace be readable through its upper bound, so a handle stays at or before it.
                4 => if phys { mine.push(Op::Physical(h, Choice::Upper)) },
                5 => mine.push(Op::Read(h)),
                6 => if next < early.len() { let i = early[next]; next += 1; mine.push(Op::Install(i, h)); if matches!(insts[i].kind, Kind::Core | Kind::Frontier | Kind::FrontierCore) { let i_ok = split || matches!(insts[i].usage, Use::Capture | Use::Join | Use::Other); if i_ok { pressable.push(i); } } },
                _ => if !pressable.is_empty() && sim.gen(2) == 0 { let k = sim.gen(pressable.len() as u64) as usize; mine.push(Op::Press(pressable.remove(k))); },
            }
        }
        while next < early.len() { mine.push(Op::Install(early[next], 0)); next += 1; }
        ops.push(mine);
    }
    let (mut script, mut hist) = (script, hist);
    if imports && !T::TOTAL && sim.chance(1, 24) { flash(sim, peers, &load, &mut script, &mut hist, &mut insts, &mut ops); times = probe_times(hist.iter().map(|h| h.2.clone()).collect(), 24, true); }
    let n_inst = insts.len();
    for (w, o) in ops.iter().enumerate() { sim.note(|| format!("script w{w}: {o:?}")); }
    sim.describe(format!("arranged {holds:?} by_self={by_self} input {:?}, {} updates, imports {:?}", script.modes, hist.len(), insts.iter().map(|i| (i.kind, i.usage, i.late)).collect::<Vec<_>>()));
    let mut outs = vec![Out::new("base", peers)];
    for i in 0..n_inst { outs.push(Out::new(&format!("import{i}"), peers)); outs.push(Out::new(&format!("import{i}b"), peers)); }
    World {
        sim: sim.clone(), peers, modes: script.modes, ops, insts, outs, keep, drop_first: sim.gen(2) == 0, press_all,
        model: Model { hist: hist.into_iter().map(|(_, r, t, d)| (r, t, d as i64)).collect(), times, holds, by_self },
        facts: Mutex::new(Facts { owner: BTreeMap::new(), absent: vec![], since: BTreeMap::new(), pressed: BTreeMap::new() }),
    }
}

/// Updates that cancel once they are merged and compacted, in batches an importing join has yet to receive, while the
/// collection it joins them with is far ahead but still distinguishes their times.
fn flash<T: GenTime + simops::dag::Level>(sim: &Sim, peers: usize, load: &Load, script: &mut Script<T>, hist: &mut Vec<(usize, Row, T, isize)>, insts: &mut Vec<Inst<T>>, ops: &mut Vec<Vec<Op<T>>>) {
    use simops::drive::Act::*;
    hist.clear();
    script.modes = vec![InMode::Unordered];
    let row = |s: &Sim| (s.gen(load.nk), s.gen(load.nv));
    let mut base = T::minimum();
    let mut acts = vec![];
    let mut cap = 0;
    let mut last = 0;
    for _ in 0..1 + sim.gen(4) {
        let mut upd = |r: Row, d: isize, cap: usize, t: &T, acts: &mut Vec<Act<T>>| { hist.push((0, r, t.clone(), d)); acts.push(Upd { input: 0, row: r, diff: d, cap, time: t.clone() }); };
        let (mut a, mut b) = (T::gen_ge(sim, &base), T::gen_ge(sim, &base));
        for _ in 0..10 { if a.less_equal(&b) || b.less_equal(&a) { a = T::gen_ge(sim, &base); b = T::gen_ge(sim, &base); } }
        let next = T::gen_ge(sim, &a.join(&b));
        for t in [&a, &b, &next] { cap += 1; acts.push(Hold { input: 0, from: last, time: t.clone() }); }
        acts.push(Release { input: 0, cap: last });
        let n = 1 + sim.gen(2);
        for _ in 0..n { let r = row(sim); upd(r, 1, cap - 2, &a, &mut acts); if !sim.chance(1, 12) { upd(r, -1, cap - 1, &b, &mut acts); } }
        for c in [2, 1] { acts.push(Release { input: 0, cap: cap - c }); }
        for _ in 0..sim.gen(3) { acts.push(Work); }
        last = cap;
        base = next;
    }
    script.acts = (0..peers).map(|w| if w == 0 { acts.clone() } else { vec![Hold { input: 0, from: 0, time: base.clone() }, Release { input: 0, cap: 0 }] }).collect();
    let (mut mine, mut h) = (vec![], vec![]);
    for _ in 0..2 + sim.gen(8) { let (r, t) = (row(sim), if sim.gen(2) == 0 { T::minimum() } else { T::gen_ge(sim, &T::minimum()) }); h.push((r, t.clone(), 1)); mine.push(Upd { input: 0, row: r, diff: 1, cap: 0, time: t }); }
    mine.push(Hold { input: 0, from: 0, time: base.clone() });
    mine.push(Release { input: 0, cap: 0 });
    let held = mine.len();
    for _ in 0..4 + sim.gen(12) { let r = row(sim); h.push((r, base.clone(), 1)); mine.push(Upd { input: 0, row: r, diff: 1, cap: 1, time: base.clone() }); }
    *insts = vec![Inst { kind: [Kind::Import, Kind::Core, Kind::Frontier, Kind::FrontierCore][sim.gen(4) as usize], usage: Use::Other, since: vec![T::minimum()], until: vec![], late: false, other: Some(Side { mode: InMode::Unordered, acts: mine, hist: h, close: false }) }];
    *ops = script.acts.iter().map(|acts| {
        let mut mine = vec![Op::Install(0, 0), Op::Side(0, held), Op::Logical(0, Choice::Times(vec![base.clone()]))];
        if sim.gen(2) == 0 { mine.push(Op::In(Work)); }
        for a in acts { mine.push(Op::In(a.clone())); if matches!(a, Release { .. } | Work) && sim.gen(2) == 0 { mine.push(Op::Side(0, 1)); } }
        if acts.len() < 3 { for _ in 0..sim.gen(8) { mine.push(if sim.gen(2) == 0 { Op::Side(0, 1) } else { Op::In(Work) }); } }
        mine
    }).collect();
}

enum Button<T: Timestamp> { None, Some(ShutdownButton<CapabilitySet<T>>) }

/// Feeds an imported arrangement to its use, capturing one or two outputs.
fn consume<'s, T: GenTime + simops::dag::Level + Refines<()>, S: Shape<R = isize>, Tr>(arr: Arranged<'s, Tr>, usage: Use, side: Option<Coll<'s, T>>, outs: (&Out<Row, T, isize>, &Out<Row, T, isize>), ctx: &Ctx, probes: (&ProbeHandle<T>, &ProbeHandle<T>))
where
    Tr: TraceReader<Time = T, Batch: Navigable> + Clone + 'static,
    for<'a> BatchCursor<Tr>: Cursor<Key<'a> = &'a S::K, Val<'a> = &'a S::V, Time = T, Diff = isize, DiffGat<'a> = &'a isize>,
    S::K: differential_dataflow::ExchangeData + differential_dataflow::Hashable, S::V: differential_dataflow::ExchangeData,
{
    let plain = |a: Arranged<'s, Tr>| a.as_collection(|k, v| S::row(k, v));
    match usage {
        Use::Capture => capture(plain(arr), outs.0, ctx, probes.0),
        // The second reading shares the import with the first.
        Use::Fan => { capture(plain(arr.clone()), outs.0, ctx, probes.0); capture(plain(arr).distinct(), outs.1, ctx, probes.1); }
        Use::Join => {
            let other = arr.clone();
            capture(arr.join_core(other, |k, v1, v2| Some((S::row(k, v1).0, S::row(k, v1).1 * 100 + S::row(k, v2).1))), outs.0, ctx, probes.0)
        }
        Use::Other => {
            let c = side.unwrap().map(|r: Row| (S::key(r), r.1));
            let other = arrange_core::<_, _, ContainerChunker<Vec<((S::K, u64), T, isize)>>, ValBatcher<S::K, u64, T, isize>, ValBuilder<S::K, u64, T, isize>, ValSpine<S::K, u64, T, isize>>(c.inner, Pipeline, "Other");
            let second = |a: u64, b: &u64| a * 100 + b;
            capture(if outs.0.name.as_bytes()[6] % 2 == 0 { arr.join_core(other, move |k, v, b| Some((S::row(k, v).0, second(S::row(k, v).1, b)))) } else { other.join_core(arr, move |k, b, v| Some((S::row(k, v).0, second(S::row(k, v).1, b)))) }, outs.0, ctx, probes.0)
        }
        Use::Reduce => capture(arr.reduce_abelian::<_, ValBuilder<_, _, _, _>, ValSpine<S::K, i64, T, isize>, _, _>("Sum", |_, s, t| t.push((s.iter().map(|x| x.1 as i64).sum::<i64>(), 1)),
            |vec: &mut Vec<((S::K, i64), T, isize)>, key, upds| { vec.clear(); vec.extend(upds.drain(..).map(|(v, t, r)| ((key.clone(), v), t, r))); })
            .as_collection(|k, n| { let r = S::row(k, &S::val((0, 0))); (r.0, (*n + 1_000_000) as u64 * 1000 + if std::any::TypeId::of::<S>() == std::any::TypeId::of::<KO>() { r.1 } else { 0 }) }), outs.0, ctx, probes.0),
        Use::Count | Use::Total => capture(S::total::<T, Tr>(arr, usage == Use::Count), outs.0, ctx, probes.0),
        Use::Loop => {
            use differential_dataflow::operators::Iterate;
            // Rows reachable by repeatedly following key = value, within the import.
            let seed = plain(arr.clone()).distinct();
            let edges = plain(arr);
            let c = seed.iterate(move |sc, y| {
                let e = edges.enter(sc).distinct();
                y.clone().map(|(a, b)| (b, a)).join_map(e, |_, a, c| (*a, *c)).concat(y).distinct()
            });
            capture(c, outs.0, ctx, probes.0)
        }
    }
}
/// What `consume` should produce from contents.
fn expected(usage: Use, second: bool, by_self: bool, bag: &BTreeMap<Row, i64>, side: &BTreeMap<Row, i64>) -> BTreeMap<Row, i64> {
    let distinct = |b: &BTreeMap<Row, i64>| -> BTreeMap<Row, i64> { b.iter().map(|x| (*x.0, 1)).collect() };
    match usage {
        Use::Capture => bag.clone(),
        Use::Fan => if second { distinct(bag) } else { bag.clone() },
        Use::Join | Use::Other => {
            let mut m = BTreeMap::new();
            for (a, x) in bag { for (b, y) in if usage == Use::Join { bag } else { side } { if a.0 == b.0 && (!by_self || a.1 == b.1) { *m.entry((a.0, a.1 * 100 + b.1)).or_insert(0) += x * y; } } }
            m.retain(|_, d| *d != 0);
            m
        }
        Use::Total => distinct(bag),
        Use::Reduce | Use::Count => {
            let mut m: BTreeMap<Row, i64> = BTreeMap::new();
            for (r, d) in bag { *m.entry((r.0, if by_self { r.1 } else { 0 })).or_insert(0) += d; }
            m.into_iter().map(|((k, v), n)| ((k, (n + 1_000_000) as u64 * 1000 + v), 1)).collect()
        }
        Use::Loop => {
            let e = distinct(bag);
            let mut y: BTreeSet<Row> = e.keys().cloned().collect();
            loop {
                let more: Vec<Row> = y.iter().flat_map(|a| e.keys().filter(move |c| c.0 == a.1).map(move |c| (a.0, c.1))).filter(|r| !y.contains(r)).collect();
                if more.is_empty() { break; }
                y.extend(more);
            }
            y.into_iter().map(|r| (r, 1)).collect()
        }
    }
}

fn resolve<T: GenTime>(c: &Choice<T>, upper: &Antichain<T>) -> Antichain<T> {
    match c {
        Choice::Upper => upper.clone(),
        Choice::Times(v) => { let mut a = Antichain::new(); for t in v { a.insert(t.clone()); } a }
        Choice::UpperJoin(t) => antichain_join(&upper.borrow()[..], std::slice::from_ref(t)),
        Choice::Done => Antichain::new(),
    }
}

fn run_kind<T: GenTime + simops::dag::Level + Sync + Refines<()>, S: Shape<R = isize>, Tr: Readable<T, S>>(sim: &Arc<Sim>, peers: usize, config: timely::worker::Config, world: World<T>, arrange: impl for<'s> Fn(Coll<'s, T>) -> Arranged<'s, TraceAgent<Tr>> + Send + Sync + 'static)
where
    for<'a> BatchCursor<Tr>: Cursor<Key<'a> = &'a S::K, Val<'a> = &'a S::V, Time = T, ValOwn = S::V, Diff = isize, KeyContainer: BatchContainer<Owned = S::K>, DiffGat<'a> = &'a isize, TimeGat<'a> = &'a T>,
    S::K: differential_dataflow::ExchangeData + differential_dataflow::Hashable, S::V: differential_dataflow::ExchangeData,
{
    let world = Arc::new(world);
    let wd = world.clone();
    sim.run_workers(peers, config, move |worker, ctx| {
        let w = ctx.index;
        let sim = ctx.sim.clone();
        let wd = &wd;
        let mut probes: Vec<ProbeHandle<T>> = (0..wd.outs.len()).map(|_| ProbeHandle::new()).collect();
        let mut active = vec![0usize];
        let mut buttons: Vec<Button<T>> = wd.insts.iter().map(|_| Button::None).collect();
        let (mut input, agent) = worker.dataflow(|scope| {
            let (i, c) = Input::new(scope, wd.modes[0]);
            let arr = arrange(c);
            capture(arr.clone().as_collection(|k, v| S::row(k, v)), &wd.outs[0], ctx, &probes[0]);
            (i, arr.trace)
        });
        let mut hs: Vec<Option<Hnd<TraceAgent<Tr>>>> = vec![Some(Hnd { agent, since: Antichain::from_elem(T::minimum()), phys: Antichain::from_elem(T::minimum()), seen: vec![], upper: Antichain::from_elem(T::minimum()) })];
        let mut sides: Vec<Option<(Input<T>, usize)>> = wd.insts.iter().map(|_| None).collect();
        let install = |worker: &mut timely::worker::Worker, ctx: &Ctx, i: usize, h: &mut Hnd<TraceAgent<Tr>>, probes: &[ProbeHandle<T>], buttons: &mut Vec<Button<T>>, sides: &mut Vec<Option<(Input<T>, usize)>>| {
            let inst = &wd.insts[i];
            let mut asked = Antichain::new();
            for t in inst.since.iter() { asked.insert(t.clone()); }
            // An exact import is from where the handle may still read.
            let since = match inst.kind { Kind::FrontierCore => antichain_join(&h.since.borrow()[..], &asked.borrow()[..]), _ => h.since.clone() };
            let mut until = Antichain::new();
            for t in inst.until.iter() { until.insert(t.clone()); }
            let mut upper = Antichain::new();
            h.agent.read_upper(&mut upper);
            if matches!(inst.kind, Kind::Import | Kind::Named | Kind::Core) && inst.usage.reduces() && !PartialOrder::less_equal(&since, &upper) {
                ctx.sim.tag("a reduction of a plain import from a handle compacted beyond its trace's upper");
            }
            if inst.usage.reduces() && h.phys != Antichain::from_elem(T::minimum()) {
                ctx.sim.tag("a reduction of an import from a physically compacted handle");
            }
            wd.facts.lock().unwrap().since.insert((i, w), since.clone());
            let (oa, ob) = (&wd.outs[1 + 2 * i], &wd.outs[2 + 2 * i]);
            let ps = (&probes[1 + 2 * i], &probes[2 + 2 * i]);
            ctx.sim.note(|| format!("w{w} installs import {i} {inst:?} since {since:?}"));
            worker.dataflow(|scope| { let side = inst.other.as_ref().map(|o| { let (x, c) = Input::new(scope, o.mode); sides[i] = Some((x, 0)); c }); match inst.kind {
                Kind::Import => { let a = h.agent.import(scope); consume::<T, S, _>(a, inst.usage, side, (oa, ob), ctx, ps) }
                Kind::Named => { let a = h.agent.import_named(scope, "Named"); consume::<T, S, _>(a, inst.usage, side, (oa, ob), ctx, ps) }
                Kind::Core => { let (a, b) = h.agent.import_core(scope, "Core"); buttons[i] = Button::Some(b); consume::<T, S, _>(a, inst.usage, side, (oa, ob), ctx, ps) }
                Kind::Frontier => { let (a, b) = h.agent.import_frontier(scope, "Frontier"); buttons[i] = Button::Some(b); consume::<T, S, _>(a, inst.usage, side, (oa, ob), ctx, ps) }
                Kind::FrontierCore => { let (a, b) = h.agent.import_frontier_core(scope, "FrontierCore", since, until); buttons[i] = Button::Some(b); consume::<T, S, _>(a, inst.usage, side, (oa, ob), ctx, ps) }
            } });
        };
        // Applies more of a side's script, all of it by default, then perhaps closes it.
        let more = |sides: &mut Vec<Option<(Input<T>, usize)>>, i: usize, n: usize| if let (Some((x, at)), Some(o)) = (&mut sides[i], &wd.insts[i].other) {
            let to = at.saturating_add(n).min(o.acts.len());
            for a in &o.acts[*at..to] { x.apply(a); }
            *at = to;
            if to == o.acts.len() && o.close { x.close(); }
        };
        let watch = |probes: &[ProbeHandle<T>], active: &[usize]| for o in active { probes[*o].with_frontier(|f| wd.outs[*o].observe(&sim, w, f)); };
        for op in &wd.ops[w] {
            sim.note(|| format!("w{w} {op:?}"));
            match op {
                Op::In(Act::Work) => ctx.some_steps(worker, |_| watch(&probes, &active)),
                Op::In(Act::Quiet(to)) => {
                    // The arrangement, and imports that every worker has built, catch up with an input at rest.
                    input.apply(&Act::Flush { input: 0 });
                    ctx.settle(worker, "caught up", |_| {
                        watch(&probes, &active);
                        let built = |o: usize| o == 0 || { let i = (o - 1) / 2; wd.insts[i].usage != Use::Other && { let f = wd.facts.lock().unwrap(); (0..wd.peers).all(|w| f.since.contains_key(&(i, w))) } };
                        active.iter().all(|o| !built(*o) || probes[*o].with_frontier(|f| PartialOrder::less_equal(&to.borrow(), &f)))
                    });
                    let mut upper = Antichain::new();
                    hs[0].as_mut().unwrap().agent.read_upper(&mut upper);
                    sim.check(PartialOrder::less_equal(to, &upper), "upper", || format!("worker {w}: everything before {to:?} is complete, but the trace ends at {upper:?}"));
                    sim.count("check.caught_up");
                }
                Op::In(a) => input.apply(a),
                Op::Clone(h) => { let o = hs[*h].as_ref().unwrap(); let c = Hnd { agent: o.agent.clone(), since: o.since.clone(), phys: o.phys.clone(), seen: o.seen.clone(), upper: o.upper.clone() }; hs.push(Some(c)); }
                Op::Drop(h) => hs[*h] = None,
                Op::Logical(h, c) => {
                    let h = hs[*h].as_mut().unwrap();
                    let mut upper = Antichain::new();
                    h.agent.read_upper(&mut upper);
                    let mut f = resolve(c, &upper);
                    // The first handle must stay readable for imports: it is never closed.
                    if f.is_empty() && !matches!(c, Choice::Done) { f = h.since.clone(); }
                    h.agent.set_logical_compaction(f.borrow());
                    h.since = antichain_join(&h.since.borrow()[..], &f.borrow()[..]);
                    let g = h.agent.get_logical_compaction().to_owned();
                    sim.check(g == h.since, "frontier", || format!("worker {w}: logical compaction reports {g:?}, expected {:?}", h.since));
                }
                Op::Physical(h, c) => {
                    let h = hs[*h].as_mut().unwrap();
                    let mut upper = Antichain::new();
                    h.agent.read_upper(&mut upper);
                    let f = resolve(c, &upper);
                    h.agent.set_physical_compaction(f.borrow());
                    h.phys = antichain_join(&h.phys.borrow()[..], &f.borrow()[..]);
                    let g = h.agent.get_physical_compaction().to_owned();
                    sim.check(g == h.phys, "frontier", || format!("worker {w}: physical compaction reports {g:?}, expected {:?}", h.phys));
                }
                Op::Read(h) => read::<T, S, _>(&sim, w, hs[*h].as_mut().unwrap(), &wd.model, &wd.facts),
                Op::Install(i, h) => { let h = if hs[*h].as_ref().unwrap().since.is_empty() { 0 } else { *h }; install(worker, ctx, *i, hs[h].as_mut().unwrap(), &probes, &mut buttons, &mut sides); active.push(1 + 2 * i); if wd.insts[*i].usage == Use::Fan { active.push(2 + 2 * i); } }
                Op::Side(i, n) => more(&mut sides, *i, *n),
                Op::Press(i) => {
                    let f = probes[1 + 2 * i].with_frontier(|f| f.to_vec());
                    wd.facts.lock().unwrap().pressed.insert((*i, w), f);
                    if !matches!(wd.insts[*i].usage, Use::Capture | Use::Join | Use::Other) && wd.peers > 1 { sim.tag("a shutdown button under a reduction pressed on one worker before others"); }
                    if let Button::Some(b) = &mut buttons[*i] { b.press(); }
                    sim.count("work.shutdown_pressed");
                }
            }
        }
        input.finish();
        for i in 0..sides.len() { more(&mut sides, i, usize::MAX); if let Some((x, _)) = &mut sides[i] { x.finish(); } }
        ctx.script_done();
        if !wd.keep && wd.drop_first { hs.clear(); }
        ctx.settle(worker, "advanced", |_| { watch(&probes, &active); active.iter().all(|o| !probes[*o].less_than(&T::fin())) });
        for h in hs.iter_mut().flatten() { read::<T, S, _>(&sim, w, h, &wd.model, &wd.facts); }
        if !wd.keep { hs.clear(); }
        if wd.press_all {
            // With every worker at rest, all of them shut their imports down: that must complete while the source stays open.
            let mut done = vec![];
            for (i, b) in buttons.iter_mut().enumerate() { if let Button::Some(b) = b {
                wd.facts.lock().unwrap().pressed.entry((i, w)).or_insert_with(|| vec![T::fin()]);
                b.press();
                done.push(1 + 2 * i);
                if wd.insts[i].usage == Use::Fan { done.push(2 + 2 * i); }
            } }
            for s in sides.iter_mut().flatten() { s.0.close(); }
            ctx.settle(worker, "imports shut down", |_| { watch(&probes, &active); done.iter().all(|o| probes[*o].done()) });
        }
        input.close();
        for s in sides.iter_mut().flatten() { s.0.close(); }
        ctx.settle(worker, "shutdown", |wk| { watch(&probes, &active); !wk.has_dataflows() });
        for h in hs.iter_mut().flatten() { read::<T, S, _>(&sim, w, h, &wd.model, &wd.facts); }
        // The writer is gone; the handle's contents can still be imported.
        let late: Vec<usize> = (0..wd.insts.len()).filter(|i| wd.insts[*i].late).collect();
        for i in late.iter() { install(worker, ctx, *i, hs[0].as_mut().unwrap(), &probes, &mut buttons, &mut sides); active.push(1 + 2 * i); if wd.insts[*i].usage == Use::Fan { active.push(2 + 2 * i); } }
        for i in late.iter() { more(&mut sides, *i, usize::MAX); if let Some((x, _)) = &mut sides[*i] { x.close(); } }
        if !late.is_empty() { ctx.settle(worker, "late import", |wk| { watch(&probes, &active); !wk.has_dataflows() }); }
        hs.clear();
        probes.clear();
    });
    verify(&world);
}

fn verify<T: GenTime>(wd: &World<T>) {
    let sim = &wd.sim;
    let m = &wd.model;
    if m.hist.len() > 1 { sim.nontrivial(); }
    sim.count_n("work.updates", m.hist.len() as u64);
    // Who owns what, from the arrangement's own output.
    let mut f = wd.facts.lock().unwrap();
    wd.outs[0].with(|rs| for r in rs {
        let k = m.part(&r.data);
        let o = *f.owner.entry(k).or_insert(r.worker);
        if o != r.worker { sim.violate("partition", format!("key {k} is held by workers {o} and {}", r.worker)); }
    });
    let mut ts: Vec<T> = m.times.clone();
    ts.push(T::fin());
    for t in probe_times(wd.outs[0].times().into_iter().chain(ts.iter().cloned()).collect(), 40, false) {
        let (want, got) = (m.at(&t), wd.outs[0].at(&t));
        if want != got { sim.violate("base", format!("arrangement read as a collection at {t:?}: {want:?} expected, got {got:?}")); }
    }
    for (k, w, t) in f.absent.iter() {
        if f.owner.get(k) == Some(w) { sim.violate("read", format!("worker {w} read nothing for key {k} at {t:?}, which it owns")); }
    }
    for (i, inst) in wd.insts.iter().enumerate() {
        let exact = matches!(inst.kind, Kind::Frontier | Kind::FrontierCore);
        let until: Antichain<T> = if inst.kind == Kind::FrontierCore { let mut a = Antichain::new(); for t in inst.until.iter() { a.insert(t.clone()); } a } else { Antichain::new() };
        // A self-arranged loop or fan crosses workers, so every worker's limits apply; otherwise only the owner's.
        let crosses = inst.usage == Use::Loop;
        let any_pressed = (0..wd.peers).any(|w| f.pressed.contains_key(&(i, w)));
        let eff = |w: usize| -> Vec<(Row, T, i64)> {
            let since = &f.since[&(i, w)];
            // Only keys the worker owns. Advanced times stand for the updates of a reduction as well.
            let raw: Vec<(Row, T, i64)> = if m.holds == Holds::Raw { m.hist.clone() } else { wd.outs[0].updates().into_iter().map(|(r, t, d)| (r, t, d as i64)).collect() };
            raw.into_iter().filter(|u| f.owner.get(&m.part(&u.0)) == Some(&w)).filter_map(|(r, mut t, d)| {
                if exact { t.advance_by(since.borrow()); if until.less_equal(&t) { return None; } }
                Some((r, t, d))
            }).collect()
        };
        let effs: Vec<Vec<(Row, T, i64)>> = (0..wd.peers).map(eff).collect();
        for second in [false, true] {
            if second && inst.usage != Use::Fan { continue; }
            let out = &wd.outs[1 + 2 * i + second as usize];
            let mut ps: Vec<T> = ts.clone();
            for e in effs.iter() { ps.extend(e.iter().map(|u| u.1.clone())); }
            if let Some(o) = &inst.other { ps.extend(o.hist.iter().map(|u| u.1.clone())); }
            for w in 0..wd.peers { ps.extend(f.since[&(i, w)].iter().cloned()); }
            ps.extend(out.times());
            ps.push(T::minimum());
            for t in probe_times(ps, 50, true) {
                // What a nonlinear operator makes of a truncated history past the truncation is nobody's business.
                if until.less_equal(&t) && !(matches!(inst.usage, Use::Capture) || (inst.usage == Use::Fan && !second)) { continue; }
                let ok: Vec<bool> = (0..wd.peers).map(|w| {
                    let visible = exact || f.since[&(i, w)].less_equal(&t);
                    let done = match f.pressed.get(&(i, w)) { Some(fr) => !fr.iter().any(|x| x.less_equal(&t)), None => true };
                    visible && done
                }).collect();
                if crosses && ok.iter().any(|o| !o) { continue; }
                // A shared output worker keeps only its own keys, except where the use exchanges.
                let mut want = BTreeMap::new();
                let mut bag: BTreeMap<Row, i64> = BTreeMap::new();
                for (w, e) in effs.iter().enumerate() { if ok[w] || crosses { bag.extend(acc(e.iter().cloned(), &t)); } }
                if bag.is_empty() && ok.iter().any(|o| !o) && m.hist.is_empty() { continue; }
                let side = inst.other.as_ref().map(|o| acc(o.hist.iter().cloned(), &t)).unwrap_or_default();
                want.extend(expected(inst.usage, second, m.by_self, &bag, &side));
                let mut got = out.at(&t);
                // Leave out what unready workers own.
                if ok.iter().any(|o| !o) {
                    got.retain(|r, _| { let k = if m.by_self { match inst.usage { Use::Join | Use::Other => r.0 * 1000 + r.1 / 100, Use::Reduce | Use::Count => r.0 * 1000 + r.1 % 1000, _ => m.part(r) } } else { r.0 }; f.owner.get(&k).map(|o| ok[*o]).unwrap_or(false) });
                }
                if want != got {
                    sim.violate(if any_pressed { "import-shutdown" } else { "import" }, format!("import {i} {inst:?}{} at {t:?}: expected {want:?}, got {got:?}; since {:?}", if second { " second reading" } else { "" }, (0..wd.peers).map(|w| f.since[&(i, w)].elements().to_vec()).collect::<Vec<_>>()));
                }
                sim.count("check.imports");
            }
            // Times are exactly those allowed.
            if exact && matches!(inst.usage, Use::Capture) {
                out.with(|rs| for r in rs {
                    let s = &f.since[&(i, r.worker)];
                    let mut adv = r.time.clone();
                    adv.advance_by(s.borrow());
                    if adv != r.time || until.less_equal(&r.time) { sim.violate("interval", format!("import {i} {inst:?} emits at {:?}, outside [{:?}, {:?})", r.time, s.elements(), until.elements())); }
                });
            }
        }
    }
    drop(f);
}

fn run<T: GenTime + simops::dag::Level + Sync + Refines<()>>(sim: &Arc<Sim>, imports: bool) {
    let (peers, config) = knobs(sim);
    match sim.genw(&[4, 2, 3, 2, 2]) {
        0 => { let w = generate::<T>(sim, peers, imports, Holds::Raw, false); run_kind::<T, KV, ValSpine<u64, u64, T, isize>>(sim, peers, config, w, |c| c.arrange_by_key_named("Raw")) }
        1 => { let w = generate::<T>(sim, peers, imports, Holds::Raw, true); run_kind::<T, KO, KeySpine<Row, T, isize>>(sim, peers, config, w, |c| c.arrange_by_self()) }
        2 => { let w = generate::<T>(sim, peers, imports, Holds::Raw, false); run_kind::<T, KV, chunk::ChunkSpine<u64, u64, T, isize>>(sim, peers, config, w, |c| differential_dataflow::operators::arrange::arrangement::arrange_core::<_, _, differential_dataflow::trace::implementations::chunker::ContainerChunker<chunk::VecChunk<u64, u64, T, isize>>, chunk::ChunkBatcher<u64, u64, T, isize>, chunk::ChunkBuilder<u64, u64, T, isize>, chunk::ChunkSpine<u64, u64, T, isize>>(c.inner, Exchange::new(|u: &(Row, T, isize)| u.0 .0), "Chunk")) }
        3 => { let w = generate::<T>(sim, peers, imports, Holds::Min, false); run_kind::<T, KV, ValSpine<u64, u64, T, isize>>(sim, peers, config, w, |c| c.arrange_by_key().reduce_abelian::<_, ValBuilder<_, _, _, _>, ValSpine<u64, u64, T, isize>, _, _>("Min", |_, s, t| t.push((*s[0].0, 1)), |vec: &mut Vec<((u64, u64), T, isize)>, key, upds| { vec.clear(); vec.extend(upds.drain(..).map(|(v, t, r)| ((*key, v), t, r))); })) }
        _ => { let w = generate::<T>(sim, peers, imports, Holds::Distinct, true); run_kind::<T, KO, KeySpine<Row, T, isize>>(sim, peers, config, w, |c| c.arrange_by_self().reduce_abelian::<_, differential_dataflow::trace::implementations::KeyBuilder<Row, T, isize>, KeySpine<Row, T, isize>, _, _>("Distinct", |_, s, t| if s[0].1 > 0 { t.push(((), 1)) }, |vec: &mut Vec<((Row, ()), T, isize)>, key, upds| { vec.clear(); vec.extend(upds.drain(..).map(|(v, t, r)| ((*key, v), t, r))); })) }
    }
}

fn run_direct<T: GenTime>(s: &Sim) {
    let _ = knobs(s);
    match s.genw(&[2, 1, 2]) {
        0 => direct::<T, KV, ContainerChunker<Vec<((u64, u64), T, isize)>>, ValBatcher<u64, u64, T, isize>, ValBuilder<u64, u64, T, isize>, ValSpine<u64, u64, T, isize>>(s, false, |c, v| c.push_into(v), || ()),
        1 => direct::<T, KO, ContainerChunker<Vec<((Row, ()), T, isize)>>, KeyBatcher<Row, T, isize>, KeyBuilder<Row, T, isize>, KeySpine<Row, T, isize>>(s, true, |c, v| c.push_into(v), || ()),
        _ => direct::<T, KV, ContainerChunker<chunk::VecChunk<u64, u64, T, isize>>, chunk::ChunkBatcher<u64, u64, T, isize>, chunk::ChunkBuilder<u64, u64, T, isize>, chunk::ChunkSpine<u64, u64, T, isize>>(s, false, |c, v| c.push_into(v), || ()),
    }
}
fn c04(s: &Arc<Sim>) {
    if s.genw(&[3, 1]) == 1 { return match s.genw(&[3, 3, 1]) { 0 => run_direct::<u64>(s), 1 => run_direct::<Pair>(s), _ => run_direct::<Trip>(s) }; }
    match s.genw(&[4, 3, 1]) { 0 => run::<u64>(s, false), 1 => run::<Pair>(s, false), _ => run::<Trip>(s, false) }
}
fn c05(s: &Arc<Sim>) { match s.genw(&[4, 3, 1]) { 0 => run::<u64>(s, true), 1 => run::<Pair>(s, true), _ => run::<Trip>(s, true) } }

const REAL: &[&str] = &["arrange operators, TraceAgent/TraceBox/TraceWriter, Spine, OrdVal/OrdKey/VecChunk batches, cursors, TraceFrontier wrappers, reduce and join consumers", "timely workers, progress tracking, exchange channels, serialization"];
const STUB: &[&str] = &["thread scheduling (baton-passing scheduler)", "delivery of bytes between workers (simulated network)", "clock_gettime and getrandom"];
fn main() {
    let mk = |id, scenario, rule| Check { id, scenario, quick_runs: 80_000, thorough_secs: 600, level: "exploration", rule, real: REAL, stub: STUB, assumptions: &["timely 0.31 itself (not in /repo) delivers messages and progress as documented"] };
    simcore::main(&[
        mk("C04", c04, "One case = one seeded run: an arrangement (keyed, by self, chunked, or the output of a reduction) fed by random histories on 1-4 workers, with handles cloned, dropped, compacted logically and physically, and read at arbitrary points; or, in a quarter of the runs, a trace on its own, with large and cancelling batches sealed, inserted, compacted, idly merged and read. Nontrivial = at least two updates; distinct = distinct event hash. Checked: reads at every time between a handle's compaction and the trace's upper equal the input accumulated there (whole keys on one worker), reads through observed cuts, tiling and bounds of batches, cursor order and navigation, no compaction past any holder, batches exact at every time their descriptions admit, and convergence to one batch under idle effort"),
        mk("C05", c05, "One case = one seeded run: as C04, with the arrangement imported at arbitrary points by later dataflows (import, import_core, import_frontier, import_frontier_core; captured, joined, reduced, iterated, fanned out), shutdown buttons pressed, handles dropped, and imports made after the source has closed. Nontrivial = at least two updates; distinct = distinct event hash. Checked: each import presents the source's contents at every time its handle allows, framed imports exactly the advanced and truncated updates, shutdown is local, and everything completes"),
    ]);
}
