//! Differential's log events and the self-monitoring views computed from them (C18).
use diagnostics::logging::{DiagnosticUpdate, LoggingState, StatKind};
use differential_dataflow::logging::{DifferentialEvent, DifferentialEventBuilder};
use differential_dataflow::operators::arrange::upsert::arrange_from_upsert;
use differential_dataflow::operators::arrange::{Arranged, TraceAgent};
use differential_dataflow::trace::chunk::vec as chunk;
use differential_dataflow::trace::implementations::{KeyBuilder, KeySpine, ValBuilder, ValSpine};
use differential_dataflow::trace::{BatchCursor, BatchReader, Cursor, Navigable, Trace, TraceReader};
use simcore::{Check, Ctx, Sim};
use simops::dag::{render, Coll, Dom, Level, Mix, Prog, Row};
use simops::drive::*;
use simops::pair::Pair;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use timely::dataflow::channels::pact::Exchange;
use timely::dataflow::operators::capture::Event;
use timely::dataflow::operators::probe::Handle as ProbeHandle;
use timely::dataflow::operators::vec::Map;
use timely::dataflow::operators::Probe;
use timely::dataflow::Scope;
use timely::logging::{TimelyEvent, TimelyEventBuilder};
use timely::progress::frontier::MutableAntichain;
use timely::progress::timestamp::Refines;
use timely::progress::Antichain;
use timely::worker::Worker;

/// Running totals of one operator on one worker, as the events tell them.
#[derive(Clone, Debug, Default, PartialEq)]
struct Totals { batches: i64, records: i64, shares: i64, held: i64, size: i64, capacity: i64, allocations: i64, begun: BTreeMap<(usize, usize, usize), i64> }
impl Totals {
    fn live(&self) -> [i64; 7] { [self.batches, self.records, self.shares, self.held, self.size, self.capacity, self.allocations] }
}
struct Log { sim: Arc<Sim>, index: usize, ops: BTreeMap<usize, Totals>, changes: u64, operators: BTreeSet<(usize, String, Vec<usize>)>, channels: Vec<(usize, Vec<usize>, (usize, usize), (usize, usize))>, sent: BTreeMap<usize, i64> }
impl Log {
    fn new(sim: Arc<Sim>, index: usize) -> Log { Log { sim, index, ops: BTreeMap::new(), changes: 0, operators: BTreeSet::new(), channels: vec![], sent: BTreeMap::new() } }
    fn apply(&mut self, e: &DifferentialEvent) {
        self.changes += 1;
        let (w, sim) = (self.index, self.sim.clone());
        let bad = |class: &str, msg: String| -> ! { sim.violate(class, msg) };
        let op = match e {
            DifferentialEvent::Batch(x) => x.operator, DifferentialEvent::Merge(x) => x.operator, DifferentialEvent::Drop(x) => x.operator,
            DifferentialEvent::MergeShortfall(x) => x.operator, DifferentialEvent::TraceShare(x) => x.operator, DifferentialEvent::Batcher(x) => x.operator,
        };
        let t = self.ops.entry(op).or_default();
        match e {
            DifferentialEvent::Batch(x) => { t.batches += 1; t.records += x.length as i64; sim.count("log.batch"); }
            DifferentialEvent::Drop(x) => { t.batches -= 1; t.records -= x.length as i64; sim.count("log.drop"); }
            DifferentialEvent::Merge(x) => {
                let n = t.begun.entry((x.scale, x.length1, x.length2)).or_insert(0);
                match x.complete {
                    None => { *n += 1; sim.count("log.merge_begun"); }
                    Some(c) => {
                        *n -= 1;
                        if *n < 0 { bad("merge", format!("worker {w} operator {op}: a merge of {} and {} updates at scale {} completes that did not begin", x.length1, x.length2, x.scale)); }
                        if c > x.length1 + x.length2 { bad("merge", format!("worker {w} operator {op}: {} and {} updates merge to {c}", x.length1, x.length2)); }
                        t.batches -= 1;
                        t.records += c as i64 - (x.length1 + x.length2) as i64;
                        sim.count("log.merge_complete");
                    }
                }
            }
            DifferentialEvent::MergeShortfall(_) => { }
            DifferentialEvent::TraceShare(x) => { t.shares += x.diff as i64; sim.count("log.share"); }
            DifferentialEvent::Batcher(x) => { t.held += x.records_diff as i64; t.size += x.size_diff as i64; t.capacity += x.capacity_diff as i64; t.allocations += x.allocations_diff as i64; sim.count("log.batcher"); }
        }
        if t.live().iter().any(|x| *x < 0) { bad("negative", format!("worker {w} operator {op}: totals {:?} after {e:?}", t.live())); }
        if t.batches == 0 && t.records != 0 { bad("negative", format!("worker {w} operator {op}: {} records in no batches after {e:?}", t.records)); }
    }
    fn timely(&mut self, e: &TimelyEvent) {
        match e {
            TimelyEvent::Operates(o) => { self.changes += 1; self.operators.insert((o.id, o.name.clone(), o.addr.clone())); }
            TimelyEvent::Shutdown(s) => { self.changes += 1; self.operators.retain(|o| o.0 != s.id); }
            TimelyEvent::Channels(c) => { self.changes += 1; self.channels.push((c.id, c.scope_addr.clone(), c.source, c.target)); }
            TimelyEvent::Messages(m) => if m.is_send { self.changes += 1; *self.sent.entry(m.channel).or_insert(0) += m.record_count as i64; },
            _ => { }
        }
    }
}
type Logs = Arc<Vec<Mutex<Log>>>;

const DIFF: &str = "differential/arrange";
/// How the events reach us: straight from the logger, or on their way to the monitoring dataflow.
fn install(worker: &mut Worker, ctx: &Ctx, logs: &Logs, views: bool) -> Option<LoggingState> {
    let i = ctx.index;
    let state = if views { Some(diagnostics::logging::register(worker, false)) } else { None };
    let mut reg = worker.log_register().unwrap();
    let (onward, onward_t) = (reg.get::<DifferentialEventBuilder>(DIFF), reg.get::<TimelyEventBuilder>("timely"));
    assert!(views == onward.is_some() && views == onward_t.is_some());
    let l = logs.clone();
    reg.insert::<DifferentialEventBuilder, _>(DIFF, move |_, data| {
        if let Some(v) = data { for (_, e) in v.drain(..) { l[i].lock().unwrap().apply(&e); if let Some(o) = &onward { o.log(e); } } }
        if let Some(o) = &onward { o.flush(); }
    });
    if views {
        let (l, o) = (logs.clone(), onward_t.unwrap());
        reg.insert::<TimelyEventBuilder, _>("timely", move |_, data| {
            if let Some(v) = data { for (_, e) in v.drain(..) { l[i].lock().unwrap().timely(&e); o.log(e); } }
            o.flush();
        });
    }
    state
}

/// A handle to a trace of some type.
trait Held<T: GenTime> {
    fn dup(&self) -> Box<dyn Held<T>>;
    fn op(&self) -> usize;
    /// Live batches and their records.
    fn state(&mut self) -> (i64, i64);
    fn compact(&mut self, physical: bool);
    fn import(&mut self, worker: &mut Worker, join: bool, probe: &ProbeHandle<T>);
}
impl<T: GenTime + Level + Refines<()>, Tr> Held<T> for TraceAgent<Tr>
where Tr: Trace<Time = T, Batch: Navigable> + 'static, for<'a> BatchCursor<Tr>: Cursor<Time = T, Diff = isize> {
    fn dup(&self) -> Box<dyn Held<T>> { Box::new(self.clone()) }
    fn op(&self) -> usize { self.operator().global_id }
    fn state(&mut self) -> (i64, i64) { let mut s = (0, 0); self.map_batches(|b| { s.0 += 1; s.1 += b.len() as i64; }); s }
    fn compact(&mut self, physical: bool) {
        let mut upper = Antichain::new();
        self.read_upper(&mut upper);
        if physical { self.set_physical_compaction(upper.borrow()) } else { self.set_logical_compaction(upper.borrow()) }
    }
    fn import(&mut self, worker: &mut Worker, join: bool, probe: &ProbeHandle<T>) {
        worker.dataflow(|scope| {
            let arr: Arranged<'_, TraceAgent<Tr>> = self.import(scope);
            let c = if join { arr.clone().join_core(arr, |_, _, _| Some(0u64)) } else { arr.as_collection(|_, _| 1u64) };
            c.inner.probe_with(probe);
        });
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { Vals, Keys, Chunks, Distinct, Upsert }
trait Time: GenTime + Level + Refines<()> + Sync {
    fn upsert<'s>(c: Coll<'s, Self>) -> Box<dyn Held<Self>>;
}
impl Time for u64 {
    fn upsert<'s>(c: Coll<'s, u64>) -> Box<dyn Held<u64>> {
        let s = c.inner.map(|((k, v), t, d)| (k, if d > 0 { Some(v) } else { None }, t));
        Box::new(arrange_from_upsert::<ValBuilder<u64, u64, u64, isize>, ValSpine<u64, u64, u64, isize>, _, _>(s, "Upsert").trace)
    }
}
impl Time for Pair { fn upsert<'s>(_: Coll<'s, Pair>) -> Box<dyn Held<Pair>> { panic!("harness: upserts need totally ordered times") } }

fn arrange<'s, T: Time>(k: Kind, c: Coll<'s, T>, probe: &ProbeHandle<T>, read: bool) -> Box<dyn Held<T>> {
    if k == Kind::Upsert { c.inner.clone().probe_with(probe); return T::upsert(c); }
    macro_rules! done { ($a: expr) => {{ let a = $a; if read { a.clone().as_collection(|_, _| 0u64).inner.probe_with(probe); } else { a.stream.clone().probe_with(probe); } Box::new(a.trace) }} }
    match k {
        Kind::Vals => done!(c.arrange_by_key()),
        Kind::Keys => done!(c.arrange_by_self()),
        Kind::Chunks => done!(differential_dataflow::operators::arrange::arrangement::arrange_core::<_, _, differential_dataflow::trace::implementations::chunker::ContainerChunker<chunk::VecChunk<u64, u64, T, isize>>, chunk::ChunkBatcher<u64, u64, T, isize>, chunk::ChunkBuilder<u64, u64, T, isize>, chunk::ChunkSpine<u64, u64, T, isize>>(c.inner, Exchange::new(|u: &(Row, T, isize)| u.0 .0), "Chunk")),
        Kind::Distinct => done!(c.arrange_by_self().reduce_abelian::<_, KeyBuilder<Row, T, isize>, KeySpine<Row, T, isize>, _, _>("Distinct", |_, s, t| if s[0].1 > 0 { t.push(((), 1)) }, |vec: &mut Vec<((Row, ()), T, isize)>, key, upds| { vec.clear(); vec.extend(upds.drain(..).map(|(v, t, r)| ((*key, v), t, r))); })),
        Kind::Upsert => unreachable!(),
    }
}

#[derive(Clone, Debug)]
enum Op<T> { In(Act<T>), Dup(usize), Drop(usize), Compact(usize, bool), Check, Install(usize), Connect(usize), Disconnect(usize), Tick }

/// How the workload's dataflows end.
#[derive(Clone, Copy, Debug, PartialEq)]
enum End { Close, Remove, RemoveThenHandles }

struct World<T> { arrs: Vec<(Kind, usize, bool)>, prog: Option<Prog>, script: Script<T>, ops: Vec<Vec<Op<T>>>, insts: Vec<(usize, bool)>, views: bool, keep_traces: bool, end: End }

fn generate<T: Time>(sim: &Arc<Sim>, peers: usize) -> World<T> {
    let views = sim.gen(4) == 0;
    let n_arr = 1 + sim.gen(3) as usize;
    let kinds = if T::UNORDERED_ONLY { 4 } else { 5 };
    let arrs: Vec<(Kind, usize, bool)> = (0..n_arr).map(|_| ([Kind::Vals, Kind::Keys, Kind::Chunks, Kind::Distinct, Kind::Upsert][sim.gen(kinds) as usize], sim.gen(2) as usize, sim.gen(2) == 0)).collect();
    let mix = Mix { loops: sim.gen(4) == 0, nested: false, total: !T::UNORDERED_ONLY, delay: true, max_ops: 4, ext: 0, force_loop: false, force_reduce: false, big: false };
    let prog = if sim.gen(2) == 0 { Some(Prog::generate(sim, 2, mix)) } else { None };
    let dom = prog.as_ref().map(|p| p.dom).unwrap_or(Dom { nk: 4, nv: 5 });
    let (script, hist) = Script::<T>::generate(sim, peers, if prog.is_some() { 4 } else { 2 }, &Load { acts: if views { 16 } else { 30 }, nk: dom.nk, nv: dom.nv, big: false });
    let n_inst = sim.genw(&[2, 2, 1]);
    let insts: Vec<(usize, bool)> = (0..n_inst).map(|_| (sim.gen(n_arr as u64) as usize, sim.gen(2) == 0)).collect();
    let mut ops = vec![];
    for acts in script.acts.iter() {
        let (mut mine, mut next, mut acts) = (vec![], 0, acts.iter());
        // Which arrangement each handle is for, while it lives.
        let mut live: Vec<Option<usize>> = (0..n_arr).map(Some).collect();
        let mut clients: Vec<bool> = vec![];
        loop {
            let alive: Vec<usize> = (0..live.len()).filter(|i| live[*i].is_some()).collect();
            let pick = |s: &Sim| if alive.is_empty() { None } else { Some(alive[s.gen(alive.len() as u64) as usize]) };
            // The first handle of an arrangement stays until its imports are made.
            let needed = |h: usize, next: usize| h < n_arr && insts[next..].iter().any(|i| i.0 == h);
            match sim.genw(&[12, 2, 2, 3, 5, 1, if views { 2 } else { 0 }]) {
                0 => match acts.next() { Some(a) => mine.push(Op::In(a.clone())), None => break },
                1 => if let Some(h) = pick(sim) { live.push(live[h]); mine.push(Op::Dup(h)); },
                2 => if let Some(h) = pick(sim) { if !needed(h, next) && sim.gen(2) == 0 { live[h] = None; mine.push(Op::Drop(h)); } },
                3 => if let Some(h) = pick(sim) { mine.push(Op::Compact(h, sim.gen(2) == 0)); },
                4 => mine.push(Op::Check),
                5 => if next < n_inst { mine.push(Op::Install(next)); next += 1; },
                _ => match sim.gen(3) {
                    0 => { mine.push(Op::Connect(clients.len())); clients.push(true); }
                    1 => if let Some(c) = (0..clients.len()).find(|c| clients[*c]) { if sim.gen(2) == 0 { clients[c] = false; mine.push(Op::Disconnect(c)); } },
                    _ => mine.push(Op::Tick),
                },
            }
        }
        while next < n_inst { mine.push(Op::Install(next)); next += 1; }
        ops.push(mine);
    }
    if hist.len() > 1 { sim.nontrivial(); }
    let end = [End::Close, End::Remove, End::RemoveThenHandles][sim.genw(&[3, 1, 1])];
    sim.describe(format!("arrangements {arrs:?} imports {insts:?} views={views} end {end:?} program {:?} inputs {:?}, {} updates", prog.as_ref().map(|p| p.summary()), script.modes, hist.len()));
    for (w, o) in ops.iter().enumerate() { sim.note(|| format!("script w{w}: {o:?}")); }
    sim.count_n("work.updates", hist.len() as u64);
    World { arrs, prog, script, ops, insts, views, keep_traces: sim.gen(2) == 0, end }
}

type View = BTreeMap<(usize, DiagnosticUpdate), Vec<(Duration, i64)>>;
/// What worker 0 has received from the monitoring dataflow.
struct Seen { view: View, frontier: MutableAntichain<Duration> }
impl Seen {
    fn new() -> Seen { let mut f = MutableAntichain::new(); f.update_iter([(Duration::default(), 1)]); Seen { view: View::new(), frontier: f } }
    fn drain(&mut self, receiver: &std::sync::mpsc::Receiver<diagnostics::logging::DiagnosticEvent>, sim: &Sim) {
        for e in receiver.try_iter() { match e {
            Event::Progress(p) => { self.frontier.update_iter(p); }
            Event::Messages(t, us) => for ((c, u), time, d) in us {
                sim.check(time >= t && self.frontier.less_equal(&time), "view", || format!("view update {u:?} at {time:?} arrives with time {t:?} and frontier {:?}", self.frontier.frontier()));
                sim.count("view.updates");
                self.view.entry((c, u)).or_default().push((time, d));
            },
        } }
    }
    fn at(&self, client: usize, t: Option<Duration>) -> BTreeMap<DiagnosticUpdate, i64> {
        let mut m = BTreeMap::new();
        for ((c, u), us) in self.view.iter() { if *c == client { let n: i64 = us.iter().filter(|x| t.map(|t| x.0 <= t).unwrap_or(true)).map(|x| x.1).sum(); if n != 0 { m.insert(u.clone(), n); } } }
        m
    }
    fn times(&self) -> BTreeSet<Duration> { self.view.values().flatten().map(|x| x.0).collect() }
}
/// The views as the raw events of all workers have them, except for times spent.
fn totals(logs: &Logs) -> BTreeMap<DiagnosticUpdate, i64> {
    let mut m = BTreeMap::new();
    for l in logs.iter() {
        let l = l.lock().unwrap();
        for (id, t) in l.ops.iter() {
            let kinds = [StatKind::ArrangementBatches, StatKind::ArrangementRecords, StatKind::Sharing, StatKind::BatcherRecords, StatKind::BatcherSize, StatKind::BatcherCapacity, StatKind::BatcherAllocations];
            for (k, n) in kinds.into_iter().zip(t.live()) { *m.entry(DiagnosticUpdate::Stat { kind: k, id: *id }).or_insert(0) += n; }
        }
        for (id, n) in l.sent.iter() { *m.entry(DiagnosticUpdate::Stat { kind: StatKind::Messages, id: *id }).or_insert(0) += n; }
        for (id, name, addr) in l.operators.iter() { *m.entry(DiagnosticUpdate::Operator { id: *id, name: name.clone(), addr: addr.clone() }).or_insert(0) += 1; }
        for (id, scope_addr, source, target) in l.channels.iter() { *m.entry(DiagnosticUpdate::Channel { id: *id, scope_addr: scope_addr.clone(), source: *source, target: *target }).or_insert(0) += 1; }
    }
    m.retain(|_, n| *n != 0);
    m
}
fn changes(logs: &Logs) -> u64 { logs.iter().map(|l| l.lock().unwrap().changes).sum() }
fn is_elapsed(u: &DiagnosticUpdate) -> bool { matches!(u, DiagnosticUpdate::Stat { kind: StatKind::Elapsed, .. }) }

fn compare(sim: &Sim, seen: &Seen, clients: &BTreeMap<usize, bool>, t: Option<Duration>, want: &BTreeMap<DiagnosticUpdate, i64>, what: &str) {
    for (c, on) in clients {
        let mut got = seen.at(*c, t);
        if *on { got.retain(|u, n| !(is_elapsed(u) && *n > 0)); }
        let want: BTreeMap<DiagnosticUpdate, i64> = if *on { want.clone() } else { BTreeMap::new() };
        if got != want {
            let mut d: Vec<String> = vec![];
            for (u, n) in want.iter() { let g = got.get(u).unwrap_or(&0); if g != n { d.push(format!("{u:?}: events say {n}, view says {g}")); } }
            for (u, n) in got.iter() { if !want.contains_key(u) { d.push(format!("{u:?}: events say 0, view says {n}")); } }
            d.truncate(6);
            sim.violate("view", format!("{what}, client {c} (connected: {on}): {}", d.join("; ")));
        }
    }
    sim.count("check.views");
}

fn run<T: Time>(sim: &Arc<Sim>) {
    let (peers, config) = knobs(sim);
    let world = Arc::new(generate::<T>(sim, peers));
    let logs: Logs = Arc::new((0..peers).map(|i| Mutex::new(Log::new(sim.clone(), i))).collect());
    // Clients and whether they are connected, by every worker's input.
    let clients: Arc<Mutex<BTreeMap<usize, bool>>> = Default::default();
    let moment: Arc<Mutex<Option<(Duration, u64)>>> = Default::default();
    {
        let (wd, logs) = (world.clone(), logs.clone());
        sim.run_workers(peers, config, move |worker, ctx| {
            let (w, sim) = (ctx.index, ctx.sim.clone());
            let mut state = install(worker, ctx, &logs, wd.views);
            let start = state.as_ref().map(|s| s.sink.start);
            let now = || start.unwrap().elapsed();
            let mut seen = Seen::new();
            let mut probes: Vec<ProbeHandle<T>> = vec![];
            let mut handles: Vec<Option<Box<dyn Held<T>>>> = vec![];
            let mut which: Vec<usize> = vec![];
            let mut imported = vec![false; wd.arrs.len()];
            let mut dataflows: Vec<usize> = vec![];
            let base = worker.next_dataflow_index();
            let mut ins = worker.dataflow(|scope: Scope<'_, T>| {
                let (ins, colls): (Vec<_>, Vec<_>) = wd.script.modes[..2].iter().map(|m| Input::new(scope, *m)).unzip();
                for (k, src, read) in wd.arrs.iter() {
                    let p = ProbeHandle::new();
                    handles.push(Some(arrange(*k, colls[*src].clone(), &p, *read)));
                    which.push(which.len());
                    probes.push(p);
                }
                ins
            });
            dataflows.push(base);
            if let Some(prog) = &wd.prog {
                dataflows.push(worker.next_dataflow_index());
                ins.extend(worker.dataflow(|scope: Scope<'_, T>| {
                    let (ins, colls): (Vec<_>, Vec<_>) = wd.script.modes[2..].iter().map(|m| Input::new(scope, *m)).unzip();
                    let nodes = render(prog, colls);
                    for o in prog.outputs.iter() { let p = ProbeHandle::new(); nodes[*o].inner.clone().probe_with(&p); probes.push(p); }
                    ins
                }));
            }
            let flush = |worker: &Worker| worker.log_register().unwrap().flush();
            // The events' totals are what is there.
            let check = |worker: &Worker, handles: &mut [Option<Box<dyn Held<T>>>], which: &[usize], imported: &[bool], ended: bool| {
                flush(worker);
                let mut count: BTreeMap<usize, i64> = BTreeMap::new();
                for (h, a) in handles.iter().zip(which) { if h.is_some() { *count.entry(*a).or_insert(0) += 1; } }
                for (h, a) in handles.iter_mut().zip(which) { if let Some(h) = h {
                    let t = logs[w].lock().unwrap().ops.get(&h.op()).cloned().unwrap_or_default();
                    let (b, r) = h.state();
                    sim.check((t.batches, t.records) == (b, r), "state", || format!("worker {w} arrangement {a}: {b} live batches of {r} records, events say {} of {}", t.batches, t.records));
                    let mut n = count[a];
                    if !ended && matches!(wd.arrs[*a].0, Kind::Distinct | Kind::Upsert) { n += 1; }
                    if !ended || imported[*a] || matches!(wd.arrs[*a].0, Kind::Distinct | Kind::Upsert) { sim.check(t.shares >= count[a], "state", || format!("worker {w} arrangement {a}: {} handles, events say {} are shared", count[a], t.shares)); }
                    if !imported[*a] && !ended { sim.check(t.shares == n, "state", || format!("worker {w} arrangement {a}: {n} handles, events say {} are shared", t.shares)); }
                    sim.count("check.state");
                } }
            };
            for op in wd.ops[w].iter() {
                match op {
                    Op::In(a) => match a.input() { Some(i) => { sim.note(|| format!("w{w} {a:?}")); ins[i].apply(a); } None => ctx.some_steps(worker, |_| { }) },
                    Op::Dup(h) => { let d = handles[*h].as_ref().unwrap().dup(); handles.push(Some(d)); which.push(which[*h]); }
                    Op::Drop(h) => { handles[*h] = None; sim.count("work.handle_drops"); }
                    Op::Compact(h, p) => handles[*h].as_mut().unwrap().compact(*p),
                    Op::Check => check(worker, &mut handles, &which, &imported, false),
                    Op::Install(i) => {
                        let (a, join) = wd.insts[*i];
                        dataflows.push(worker.next_dataflow_index());
                        let p = ProbeHandle::new();
                        handles[a].as_mut().unwrap().import(worker, join, &p);
                        imported[a] = true;
                        probes.push(p);
                    }
                    Op::Connect(c) => { let id = w * 100 + c; state.as_mut().unwrap().sink.client_input.connect(id, now()); clients.lock().unwrap().insert(id, true); }
                    Op::Disconnect(c) => { let id = w * 100 + c; state.as_mut().unwrap().sink.client_input.disconnect(id, now()); clients.lock().unwrap().insert(id, false); }
                    Op::Tick => state.as_mut().unwrap().sink.client_input.advance(now()),
                }
            }
            for i in ins.iter_mut() { i.finish(); }
            ctx.script_done();
            ctx.settle(worker, "advanced", |_| probes.iter().all(|p| !p.less_than(&T::fin())));
            check(worker, &mut handles, &which, &imported, false);
            // Where all times are complete no record waits in a batcher.
            ctx.settle(worker, "batched", |wk| { flush(wk); logs[w].lock().unwrap().ops.values().all(|t| t.held == 0) });
            if let Some(state) = &mut state {
                // Everything logged by now is in the views once they are complete for its time, unless more happens meanwhile.
                if w == 0 { state.sink.client_input.connect(99, now()); clients.lock().unwrap().insert(99, true); }
                ctx.settle(worker, "views", |_| {
                    if w == 0 { simcore::interpose::advance(150_000_000); }
                    state.sink.client_input.advance(now());
                    if w > 0 { return true; }
                    seen.drain(&state.sink.output_receiver, &sim);
                    let mut m = moment.lock().unwrap();
                    match *m {
                        Some((t, n)) if n == changes(&logs) => {
                            if seen.frontier.less_equal(&t) { return false; }
                            compare(&sim, &seen, &clients.lock().unwrap(), Some(t), &totals(&logs), "settled views");
                            *m = None;
                            true
                        }
                        _ => { *m = Some((now() + Duration::from_secs(2), changes(&logs))); false }
                    }
                });
            }
            // The end of the workload, in one of several ways.
            match wd.end {
                End::Close => { handles.clear(); for i in ins.iter_mut() { i.close(); } }
                End::Remove => { handles.clear(); for d in dataflows.iter() { worker.drop_dataflow(*d); } ins.clear(); }
                End::RemoveThenHandles => {
                    for d in dataflows.iter() { worker.drop_dataflow(*d); }
                    ins.clear();
                    // Handles may be copied still.
                    for h in 0..handles.len() { if sim.gen(3) == 0 { if let Some(d) = handles[h].as_ref().map(|x| x.dup()) { handles.push(Some(d)); which.push(which[h]); } } }
                    check(worker, &mut handles, &which, &imported, true);
                    handles.clear();
                }
            }
            let rest = if wd.views { 1 } else { 0 };
            ctx.settle(worker, "shutdown", |wk| { if let Some(s) = &mut state { s.sink.client_input.advance(now()); } wk.installed_dataflows().len() == rest });
            flush(worker);
            for (op, t) in logs[w].lock().unwrap().ops.iter() {
                sim.check(t.live() == [0; 7], "balance", || format!("worker {w} operator {op}: totals {:?} when all is gone", t.live()));
            }
            sim.count("check.balance");
            if let Some(LoggingState { traces, sink }) = state {
                let traces = if wd.keep_traces { Some(traces) } else { None };
                {
                    let mut reg = worker.log_register().unwrap();
                    for n in [DIFF, "timely"] { drop(reg.remove(n)); }
                }
                let diagnostics::logging::SinkHandle { client_input, output_receiver, .. } = sink;
                drop(client_input);
                ctx.settle(worker, "monitor", |wk| {
                    if w == 0 { simcore::interpose::advance(150_000_000); seen.drain(&output_receiver, &sim); }
                    (w > 0 || seen.frontier.is_empty()) && (wd.keep_traces || !wk.has_dataflows())
                });
                drop(traces);
                if w == 0 {
                    seen.drain(&output_receiver, &sim);
                    let clients = clients.lock().unwrap();
                    compare(&sim, &seen, &clients, None, &totals(&logs), "final views");
                    for t in seen.times() { for c in clients.keys() { for (u, n) in seen.at(*c, Some(t)) {
                        sim.check(n > 0, "view", || format!("client {c} at {t:?}: {u:?} accumulates to {n}"));
                    } } }
                }
            }
        });
    }
}

fn scenario(sim: &Arc<Sim>) {
    if sim.gen(3) == 0 { run::<Pair>(sim) } else { run::<u64>(sim) }
}

fn main() {
    simcore::main(&[Check {
        id: "C18", scenario, quick_runs: 40_000, thorough_secs: 600, level: "exploration",
        rule: "per worker and operator, totals kept from the events of the log stream: no total negative at any event, no completed merge that did not begin, batches and records equal to what map_batches of a live handle shows and shares equal to the handles there are, at every checked moment; no records in batchers once all times are complete; all totals zero once dataflows and handles are gone, however they go; every view of the monitoring dataflow equal, for every connected client and empty for every disconnected one, to totals recomputed from the raw events, and never negative at any of its times",
        real: &["differential-dataflow arrangement, spine, batcher, trace agent, reduce, join, iterate", "diagnostics::logging", "timely worker, progress tracking, logging and thread allocator"],
        stub: &["operating system clock", "operating system threads and scheduling", "the WebSocket server, played by the workload"],
        assumptions: &["a client announces itself through its worker's ClientInput, which is advanced at least once a phase"],
    }]);
}
