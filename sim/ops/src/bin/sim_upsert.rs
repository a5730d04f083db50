//! Arrangements maintained from streams of upserts (C10).
use differential_dataflow::operators::arrange::upsert::arrange_from_upsert;
use differential_dataflow::operators::arrange::{Arranged, TraceAgent};
use differential_dataflow::trace::implementations::{ValBuilder, ValSpine};
use differential_dataflow::trace::{Cursor, TraceReader};
use differential_dataflow::{ExchangeData, Hashable};
use simcore::{Check, Ctx, Out, Sim};
use simops::drive::knobs;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use timely::container::CapacityContainerBuilder;
use timely::dataflow::channels::pact::{Exchange, Pipeline};
use timely::dataflow::operators::core::unordered_input::{UnorderedHandle, UnorderedInput};
use timely::dataflow::operators::generic::Operator;
use timely::dataflow::operators::probe::{Handle as ProbeHandle, Probe};
use timely::dataflow::operators::{ActivateCapability, Input};
use timely::dataflow::operators::vec::Map;
use timely::dataflow::{InputHandle, Stream};
use timely::order::PartialOrder;
use timely::progress::Antichain;

type Row = (u64, u64);
const FIN: u64 = 1 << 30;

trait Key: ExchangeData + Hashable + std::hash::Hash + Ord + Clone + std::fmt::Debug { fn mk(k: u64) -> Self; fn back(&self) -> u64; }
impl Key for u64 { fn mk(k: u64) -> u64 { k } fn back(&self) -> u64 { *self } }
// Ordered otherwise than the number it stands for.
impl Key for String { fn mk(k: u64) -> String { format!("{:03}", (k * 7) % 101) } fn back(&self) -> u64 { let x: u64 = self.parse().unwrap(); (0..101).find(|k| (k * 7) % 101 == x).unwrap() } }

type Ups<'s, K> = Stream<'s, u64, Vec<(K, Option<u64>, u64)>>;
type Arr<'s, K> = Arranged<'s, TraceAgent<ValSpine<K, u64, u64, isize>>>;

#[derive(Clone, Debug)]
enum Act { Up { k: u64, v: Option<u64>, t: u64, cap: usize }, Hold { from: usize, t: u64 }, Release(usize), Work, Install, Read, Compact, Quiet(u64) }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Feed { Handle, Caps, Shuffled }

enum In<K: Key> { Handle(InputHandle<u64, CapacityContainerBuilder<Vec<(K, Option<u64>, u64)>>>), Caps(UnorderedHandle<u64, CapacityContainerBuilder<Vec<(K, Option<u64>, u64)>>>, Vec<Option<ActivateCapability<u64>>>) }

struct Model { hist: Vec<Vec<(u64, u64, Option<u64>)>>, times: Vec<u64> }
impl Model {
    fn at(&self, i: usize, t: u64) -> BTreeMap<u64, u64> {
        let mut best: BTreeMap<u64, (u64, Option<u64>)> = BTreeMap::new();
        for (k, ut, v) in &self.hist[i] { if *ut <= t { let e = best.entry(*k).or_insert((*ut, *v)); *e = (*e).max((*ut, *v)); } }
        best.into_iter().filter_map(|(k, (_, v))| v.map(|v| (k, v))).collect()
    }
    fn rows(&self, i: usize, t: u64) -> BTreeMap<Row, i64> { self.at(i, t).into_iter().map(|r| (r, 1)).collect() }
    /// Exact changes, each once.
    fn changes(&self, i: usize) -> BTreeMap<(Row, u64), i64> {
        let mut out = BTreeMap::new();
        let mut prev = BTreeMap::new();
        for t in &self.times {
            let now = self.rows(i, *t);
            for r in now.keys() { if !prev.contains_key(r) { out.insert((*r, *t), 1); } }
            for r in prev.keys() { if !now.contains_key(r) { out.insert((*r, *t), -1); } }
            prev = now;
        }
        out
    }
}

fn cap_out<K: Key>(stream: Stream<'_, u64, Vec<((K, u64), u64, isize)>>, out: &Out<Row, u64, isize>, ctx: &Ctx, probe: &ProbeHandle<u64>) {
    let (sim, out, index) = (ctx.sim.clone(), out.clone(), ctx.index);
    stream.unary::<CapacityContainerBuilder<Vec<((K, u64), u64, isize)>>, _, _, _>(Pipeline, "Capture", move |_, _| move |input, output| {
        input.for_each(|cap, data| {
            for (d, t, r) in data.iter() {
                sim.check(*cap.time() <= *t, "captime", || format!("output '{}': update ({d:?}, {t}, {r}) travels with a capability for {}", out.name, cap.time()));
                out.push(&sim, index, (d.0.back(), d.1), *t, *r);
            }
            output.session(&cap).give_container(data);
        })
    }).probe_with(probe);
}

fn shuffle<'s, K: Key>(s: Ups<'s, K>, sim: Arc<Sim>) -> Ups<'s, K> {
    // Holds updates back and releases them out of order, as a source that reorders within its frontier does.
    s.unary_frontier::<CapacityContainerBuilder<Vec<(K, Option<u64>, u64)>>, _, _, _>(Exchange::new(|u: &(K, Option<u64>, u64)| u.2), "Shuffle", move |_, info| {
        let act = sim.clone();
        let mut held: Vec<(timely::dataflow::operators::Capability<u64>, (K, Option<u64>, u64))> = vec![];
        let _ = (info, act);
        move |(input, frontier), output| {
            input.for_each(|cap, data| for u in data.drain(..) { let c = cap.retain(0); let t = c.time().max(&u.2).clone(); held.push((if sim.gen(2) == 0 { c.delayed(&t) } else { c }, u)); });
            let mut i = 0;
            while i < held.len() {
                if !frontier.less_equal(held[i].0.time()) { let t = held[i].1 .2; held[i].0.downgrade(&t); }
                if !frontier.less_equal(&held[i].1 .2) || sim.gen(3) == 0 { let (c, u) = held.swap_remove(i); output.session(&c).give(u); } else { i += 1; }
            }
        }
    })
}

fn run(sim: &Arc<Sim>) { if sim.gen(3) == 0 { go::<String>(sim) } else { go::<u64>(sim) } }

fn go<K: Key>(sim: &Arc<Sim>) {
    let (peers, config) = knobs(sim);
    let n = 1 + sim.genw(&[2, 1]);
    let feeds: Vec<Feed> = (0..n).map(|_| [Feed::Caps, Feed::Handle, Feed::Shuffled][sim.genw(&[3, 1, 2])]).collect();
    let (nk, nv, nt) = (1 + sim.gen(6), 1 + sim.gen(4), 1 + sim.gen(10));
    let late = sim.gen(3) == 0;
    sim.describe(format!("upserts keyed by {} fed by {feeds:?}, {nk} keys, {nv} values", std::any::type_name::<K>().rsplit(':').next().unwrap()));
    let mut m = Model { hist: vec![vec![]; n], times: vec![] };
    let mut acts: Vec<Vec<(usize, Act)>> = vec![];
    let mut installs = vec![false; n];
    for w in 0..peers {
        let mut mine = vec![];
        let mut held: Vec<Vec<Option<u64>>> = vec![vec![Some(0)]; n];
        let dels = 1 + sim.gen(4) as u32;
        for _ in 0..sim.gen(40) {
            let i = sim.gen(n as u64) as usize;
            let open: Vec<usize> = (0..held[i].len()).filter(|c| held[i][*c].is_some()).collect();
            let cap = open[sim.gen(open.len() as u64) as usize];
            let base = held[i][cap].unwrap();
            let near = |sim: &Sim| base + [0, 1, sim.gen(nt), sim.gen(3 * nt)][sim.genw(&[3, 3, 3, 1])];
            match sim.genw(&[8, 4, 4]) {
                0 => for _ in 0..[1, 2, 5, 9][sim.genw(&[4, 3, 2, 1])] {
                    let t = near(sim);
                    let k = sim.gen(nk);
                    // A rewrite of the current value is common, and one of an earlier value.
                    let v = if sim.chance(dels, 8) { None } else { Some(sim.gen(nv)) };
                    m.hist[i].push((k, t, v));
                    mine.push((i, Act::Up { k, v, t, cap }));
                },
                1 => {
                    let t = near(sim);
                    if feeds[i] == Feed::Handle { held[i][0] = Some(t); mine.push((i, Act::Hold { from: 0, t })); }
                    else if open.len() > 1 && sim.gen(2) == 0 { held[i][cap] = None; mine.push((i, Act::Release(cap))); }
                    else { held[i].push(Some(t)); mine.push((i, Act::Hold { from: cap, t })); if sim.gen(3) > 0 { held[i][cap] = None; mine.push((i, Act::Release(cap))); } }
                }
                _ => mine.push((i, match sim.genw(&[8, 1, 1]) { 0 => Act::Work, 1 => Act::Read, _ => Act::Compact })),
            }
        }
        // Imports must be built by all workers, at whatever point each has reached.
        for (i, inst) in installs.iter_mut().enumerate() {
            if w == 0 { *inst = late || sim.gen(3) == 0; }
            if *inst { let at = if late { mine.len() } else { sim.gen(mine.len() as u64 + 1) as usize }; mine.insert(at, (i, Act::Install)); }
        }
        // Dataflows are numbered in order of construction.
        let mut order: Vec<usize> = (0..n).filter(|i| installs[*i]).collect();
        for a in mine.iter_mut() { if matches!(a.1, Act::Install) { a.0 = order.remove(0); } }
        acts.push(mine);
    }
    // A moment in each worker's script at which all wait for what the inputs admit.
    if sim.gen(2) == 1 {
        let at: Vec<usize> = acts.iter().map(|a| sim.gen(a.len() as u64 + 1) as usize).collect();
        let mut low = u64::MAX;
        for (mine, at) in acts.iter().zip(&at) {
            let mut held: Vec<Vec<Option<u64>>> = vec![vec![Some(0)]; n];
            for (i, a) in &mine[..*at] {
                match a {
                    Act::Hold { t, .. } if feeds[*i] == Feed::Handle => held[*i][0] = Some(*t),
                    Act::Hold { t, .. } => held[*i].push(Some(*t)),
                    Act::Release(c) => held[*i][*c] = None,
                    _ => { }
                }
            }
            low = held.into_iter().flatten().flatten().fold(low, u64::min);
        }
        for (mine, at) in acts.iter_mut().zip(&at) { mine.insert(*at, (0, Act::Quiet(low))); }
    }
    for h in &m.hist { m.times.extend(h.iter().map(|u| u.1)); }
    m.times.sort();
    m.times.dedup();
    for (w, a) in acts.iter().enumerate() { sim.note(|| format!("script w{w}: {a:?}")); }
    // Per input: the collection, a chained upsert of it, an import. For two inputs: their join.
    let mut outs: Vec<Out<Row, u64, isize>> = vec![];
    for i in 0..n { for what in ["direct", "chained", "import", "again"] { outs.push(Out::new(&format!("{what}{i}"), peers)); } }
    let joined: Out<Row, u64, isize> = Out::new("joined", peers);
    let m = Arc::new(m);
    let owners: Arc<Mutex<BTreeMap<(usize, u64), usize>>> = Default::default();
    {
        let (outs, joined, m, feeds, acts, installs) = (outs.clone(), joined.clone(), m.clone(), feeds.clone(), acts.clone(), installs.clone());
        sim.run_workers(peers, config, move |worker, ctx| {
            let sim = ctx.sim.clone();
            let mut probes: Vec<ProbeHandle<u64>> = (0..4 * n).map(|_| ProbeHandle::new()).collect();
            let mut watched: Vec<usize> = (0..4 * n).filter(|j| j % 4 != 2).collect();
            let jp = ProbeHandle::new();
            let mut ins: Vec<In<K>> = vec![];
            let mut traces: Vec<Option<TraceAgent<ValSpine<K, u64, u64, isize>>>> = vec![];
            worker.dataflow::<u64, _, _>(|scope| {
                let mut arrs: Vec<Arr<'_, K>> = vec![];
                for i in 0..n {
                    let stream = if feeds[i] == Feed::Handle {
                        let (h, s) = scope.new_input();
                        ins.push(In::Handle(h));
                        s
                    } else {
                        let ((h, cap), s) = scope.new_unordered_input();
                        ins.push(In::Caps(h, vec![Some(cap)]));
                        if feeds[i] == Feed::Shuffled { shuffle(s, sim.clone()) } else { s }
                    };
                    let arr: Arr<'_, K> = arrange_from_upsert::<ValBuilder<K, u64, u64, isize>, ValSpine<K, u64, u64, isize>, _, _>(stream, "Upsert");
                    cap_out(arr.clone().as_collection(|k, v| (k.clone(), *v)).inner, &outs[4 * i], ctx, &probes[4 * i]);
                    // Changes of values, read as upserts again, define the same collection.
                    let back = arr.clone().as_collection(|k, v| (k.clone(), *v)).inner.map(|((k, v), t, d)| (k, if d > 0 { Some(v) } else { None }, t));
                    let chained: Arr<'_, K> = arrange_from_upsert::<ValBuilder<K, u64, u64, isize>, ValSpine<K, u64, u64, isize>, _, _>(back, "Chained");
                    cap_out(chained.as_collection(|k, v| (k.clone(), *v)).inner, &outs[4 * i + 1], ctx, &probes[4 * i + 1]);
                    // One value per key: a reduction of it to its count is all ones.
                    let again = arr.clone().reduce_abelian::<_, ValBuilder<K, u64, u64, isize>, ValSpine<K, u64, u64, isize>, _, _>("Count", |_, input, out| out.push((input.iter().map(|x| x.1).sum::<isize>() as u64, 1)), |vec, key, upds| { vec.clear(); vec.extend(upds.drain(..).map(|(v, t, d)| ((key.clone(), v), t, d))); });
                    cap_out(again.as_collection(|k, v| (k.clone(), *v)).inner, &outs[4 * i + 3], ctx, &probes[4 * i + 3]);
                    traces.push(Some(arr.trace.clone()));
                    arrs.push(arr);
                }
                if n == 2 {
                    let j = arrs[0].clone().join_core(arrs[1].clone(), |k, a, b| Some((k.clone(), a * 100 + b)));
                    cap_out(j.inner, &joined, ctx, &jp);
                }
            });
            if n == 2 { probes.push(jp); watched.push(4 * n); }
            let all_outs: Vec<Out<Row, u64, isize>> = outs.iter().cloned().chain(if n == 2 { vec![joined.clone()] } else { vec![] }).collect();
            let watch = |on: &[usize]| for j in on { probes[*j].with_frontier(|f| all_outs[*j].observe(&ctx.sim, ctx.index, f)) };
            let mut since = vec![0u64; n];
            let read = |i: usize, since: u64, tr: &mut TraceAgent<ValSpine<K, u64, u64, isize>>| {
                let mut upper = Antichain::new();
                tr.read_upper(&mut upper);
                let (mut c, st) = tr.cursor();
                let mut got: Vec<(Row, u64, i64)> = vec![];
                while c.key_valid(&st) {
                    while c.val_valid(&st) { let (k, v) = (c.key(&st).back(), *c.val(&st)); c.map_times(&st, |t, d| got.push(((k, v), *t, *d as i64))); c.step_val(&st); }
                    c.step_key(&st);
                }
                for t in m.times.iter().cloned().chain([FIN - 1]).map(|t| t.max(since)).collect::<BTreeSet<_>>() {
                    if upper.less_equal(&t) { break; }
                    let mut have: BTreeMap<Row, i64> = BTreeMap::new();
                    for (r, u, d) in &got { if *u <= t { *have.entry(*r).or_insert(0) += d; } }
                    have.retain(|_, d| *d != 0);
                    let want = m.rows(i, t);
                    let mut own = owners.lock().unwrap();
                    for (r, d) in &have {
                        let o = *own.entry((i, r.0)).or_insert(ctx.index);
                        if o != ctx.index || want.get(r) != Some(d) { drop(own); sim.violate("read", format!("worker {} reads {r:?} x {d} at time {t} of arrangement {i}; expected {:?}, key {} first held by worker {o}", ctx.index, want.get(r), r.0)); }
                    }
                    for r in want.keys() {
                        if own.get(&(i, r.0)) == Some(&ctx.index) && !have.contains_key(r) { drop(own); sim.violate("read", format!("worker {} lacks {r:?} at time {t} of arrangement {i}", ctx.index)); }
                    }
                }
                sim.count("check.reads");
            };
            for (i, a) in &acts[ctx.index] {
                sim.note(|| format!("w{} {i} {a:?}", ctx.index));
                match (a, &mut ins[*i]) {
                    (Act::Up { k, v, t, .. }, In::Handle(h)) => h.send((K::mk(*k), *v, *t)),
                    (Act::Up { k, v, t, cap }, In::Caps(h, caps)) => h.activate().session(caps[*cap].as_ref().unwrap()).give((K::mk(*k), *v, *t)),
                    (Act::Hold { t, .. }, In::Handle(h)) => h.advance_to(*t),
                    (Act::Hold { from, t }, In::Caps(_, caps)) => { let c = caps[*from].as_ref().unwrap().delayed(t); caps.push(Some(c)); }
                    (Act::Release(c), In::Caps(_, caps)) => caps[*c] = None,
                    (Act::Install, _) => {
                        let tr = traces[*i].as_mut().unwrap();
                        let (out, probe) = (&outs[4 * i + 2], probes[4 * i + 2].clone());
                        worker.dataflow::<u64, _, _>(|scope| { let c = tr.import(scope).as_collection(|k, v| (k.clone(), *v)); cap_out(c.inner, out, ctx, &probe); });
                        watched.push(4 * i + 2);
                    }
                    (Act::Read, _) => read(*i, since[*i], traces[*i].as_mut().unwrap()),
                    (Act::Compact, _) => {
                        let tr = traces[*i].as_mut().unwrap();
                        let mut upper = Antichain::new();
                        tr.read_upper(&mut upper);
                        if let Some(u) = upper.elements().first() {
                            let t = sim.gen(*u + 1).max(since[*i]);
                            // The import to come still reads from the beginning.
                            if !installs[*i] { since[*i] = t; tr.set_logical_compaction(Antichain::from_elem(t).borrow()); tr.set_physical_compaction(Antichain::from_elem(t).borrow()); }
                        }
                    }
                    (Act::Quiet(to), _) => {
                        // Imports are only there once every worker has built them.
                        ctx.settle(worker, "caught up", |_| { watch(&watched); watched.iter().all(|j| *j < 4 * n && j % 4 == 2 || !probes[*j].less_than(to)) });
                        ctx.sim.count("check.caught_up");
                        for i in 0..n {
                            let mut upper = Antichain::new();
                            traces[i].as_mut().unwrap().read_upper(&mut upper);
                            sim.check(PartialOrder::less_equal(&Antichain::from_elem(*to), &upper), "upper", || format!("worker {}: everything before {to} is complete, but arrangement {i} ends at {:?}", ctx.index, upper.elements()));
                        }
                    }
                    (Act::Work, _) => ctx.some_steps(worker, |_| watch(&watched)),
                    _ => panic!("harness: script action does not fit its input"),
                }
            }
            for i in ins.iter_mut() { match i { In::Handle(h) => h.advance_to(FIN), In::Caps(_, caps) => { let c = caps.iter().flatten().next().unwrap().delayed(&FIN); caps.clear(); caps.push(Some(c)); } } }
            ctx.script_done();
            ctx.settle(worker, "advanced", |_| { watch(&watched); watched.iter().all(|j| !probes[*j].less_than(&FIN)) });
            for i in 0..n {
                let tr = traces[i].as_mut().unwrap();
                let mut upper = Antichain::new();
                tr.read_upper(&mut upper);
                sim.check(PartialOrder::less_equal(&Antichain::from_elem(FIN), &upper), "upper", || format!("worker {}: everything before {FIN} is complete, but arrangement {i} ends at {:?}", ctx.index, upper.elements()));
                read(i, since[i], tr);
            }
            traces.clear();
            ins.clear();
            ctx.settle(worker, "shutdown", |w| { watch(&watched); !w.has_dataflows() });
        });
    }
    let total: usize = m.hist.iter().map(|h| h.len()).sum();
    if total > 1 { sim.nontrivial(); }
    sim.count_n("work.upserts", total as u64);
    for i in 0..n {
        for (j, out) in outs[4 * i..4 * i + 4].iter().enumerate() {
            if j == 2 && !installs[i] { continue; }
            let mut want = m.changes(i);
            if j == 3 {
                // Counts: present with one exactly while the key has a value.
                want = BTreeMap::new();
                let mut prev = BTreeMap::new();
                for t in &m.times {
                    let now = m.at(i, *t);
                    for k in now.keys() { if !prev.contains_key(k) { want.insert(((*k, 1), *t), 1); } }
                    for k in prev.keys() { if !now.contains_key(k) { want.insert(((*k, 1), *t), -1); } }
                    prev = now;
                }
            }
            let mut got: BTreeMap<(Row, u64), i64> = BTreeMap::new();
            for (d, t, r) in out.updates() { *got.entry((d, t)).or_insert(0) += r as i64; }
            if j == 2 || j == 3 { got.retain(|_, d| *d != 0); }
            if want != got {
                let mut v = vec![];
                for (k, c) in &want { if got.get(k) != Some(c) { v.push(format!("{k:?}: expected {c}, got {:?}", got.get(k))); } }
                for (k, c) in &got { if !want.contains_key(k) { v.push(format!("{k:?}: expected nothing, got {c}")); } }
                v.truncate(5);
                sim.violate("upsert", format!("output '{}': (record, time) with wrong change: {}", out.name, v.join(", ")));
            }
            if j < 2 { sim.check(out.len() == want.len(), "redundant", || format!("output '{}': {} updates for {} changes", out.name, out.len(), want.len())); }
            sim.count("check.outputs");
        }
    }
    if n == 2 {
        for t in &m.times {
            let (a, b) = (m.at(0, *t), m.at(1, *t));
            let want: BTreeMap<Row, i64> = a.iter().filter_map(|(k, v)| b.get(k).map(|u| ((*k, v * 100 + u), 1))).collect();
            let got = joined.at(t);
            sim.check(want == got, "join", || format!("join of two upsert arrangements at {t}: expected {want:?}, got {got:?}"));
        }
    }
}

fn main() {
    simcore::main(&[Check {
        id: "C10", scenario: run, quick_runs: 60_000, thorough_secs: 900, level: "exploration",
        rule: "One case = one seeded run: 1-2 upsert arrangements over number or string keys, fed by input handles, by sets of capabilities or by an operator that holds back and reorders, 1-4 workers, faults; read directly, through a second upsert, a reduction, a join, an import at a random point, and handles that read and compact. Nontrivial = at least two upserts; distinct = distinct event hash. Checked: the exact set of changes, each emitted once, against the last (and at one time greatest) write per key; contents at every time; finality; completion and shutdown under a fair schedule",
        real: &["arrange_from_upsert, TraceAgent, spines, imports, join and reduce behind it", "timely operators, exchange channels, serialization, progress tracking"],
        stub: &["thread scheduling (baton-passing scheduler)", "delivery of bytes between workers (simulated network)", "clock_gettime and getrandom"],
        assumptions: &["timely 0.31 itself (not in /repo) delivers messages and progress as documented"],
    }]);
}
