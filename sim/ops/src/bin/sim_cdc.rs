//! Change-data-capture: reading logs delivered badly (C08), and writing them to writers that refuse (C09).
use differential_dataflow::capture::{iterator, sink, source, Message, Progress, Writer};
use simcore::{Check, Ctx, Out, Sim};
use simops::drive::*;
use simops::pair::Pair;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use timely::container::CapacityContainerBuilder;
use timely::dataflow::channels::pact::Pipeline;
use timely::dataflow::operators::generic::Operator;
use timely::dataflow::operators::probe::{Handle as ProbeHandle, Probe};
use timely::order::PartialOrder;
use timely::progress::timestamp::Refines;
use timely::progress::Antichain;
use timely::scheduling::SyncActivator;

type Row = (u64, u64);
type Msg<T> = Message<Row, T, isize>;

/// Times with a finite grid that covers everything a run mentions.
trait CdcTime: GenTime + Sync + simops::dag::Level + Refines<()> {
    fn grid(ts: &[Self]) -> Vec<Self>;
    fn small(s: &Sim) -> Self;
}
impl CdcTime for u64 {
    fn grid(ts: &[u64]) -> Vec<u64> { let mut v: Vec<u64> = ts.iter().flat_map(|t| [t.saturating_sub(1), *t, t + 1]).collect(); v.push(u64::MAX); v.sort(); v.dedup(); v }
    fn small(s: &Sim) -> u64 { s.gen(8) }
}
impl CdcTime for Pair {
    fn grid(ts: &[Pair]) -> Vec<Pair> {
        let mut xs: Vec<u64> = ts.iter().flat_map(|t| [t.0.outer, t.0.outer + 1]).collect(); xs.push(1 << 40);
        let mut ys: Vec<u64> = ts.iter().flat_map(|t| [t.0.inner, t.0.inner + 1]).collect(); ys.push(1 << 40);
        for v in [&mut xs, &mut ys] { v.sort(); v.dedup(); if v.len() > 14 { let n = v.len(); let w: Vec<u64> = (0..14).map(|i| v[i * n / 14]).chain([v[n - 1]]).collect(); *v = w; } }
        xs.iter().flat_map(|x| ys.iter().map(|y| Pair::new(*x, *y))).collect()
    }
    fn small(s: &Sim) -> Pair { Pair::new(s.gen(4), s.gen(4)) }
}

fn anti<T: CdcTime>(v: &[T]) -> Antichain<T> { v.iter().cloned().collect() }
/// A frontier at or beyond `f`.
fn later<T: CdcTime>(s: &Sim, f: &Antichain<T>) -> Antichain<T> {
    let mut out = Antichain::new();
    for t in f.iter() { for _ in 0..1 + s.genw(&[3, 1]) { out.insert(T::gen_ge(s, t)); } }
    out
}
fn within<T: CdcTime>(lower: &Antichain<T>, upper: &Antichain<T>, t: &T) -> bool { lower.less_equal(t) && !upper.less_equal(t) }

/// The collection's true history, and what of it has been handed to readers.
struct Truth<T> { upds: BTreeMap<(Row, T), isize>, grid: Vec<T> }
impl<T: CdcTime> Truth<T> {
    fn count(&self, t: &T) -> usize { self.upds.keys().filter(|k| k.1 == *t).count() }
    fn progress(&self, lower: &Antichain<T>, upper: &Antichain<T>) -> Msg<T> {
        let mut counts: BTreeMap<T, usize> = BTreeMap::new();
        for (_, t) in self.upds.keys() { if within(lower, upper, t) { *counts.entry(t.clone()).or_insert(0) += 1; } }
        Message::Progress(Progress { lower: lower.elements().to_vec(), upper: upper.elements().to_vec(), counts: counts.into_iter().collect() })
    }
}
#[derive(Default)]
struct Given<T> { upds: BTreeMap<(Row, T), isize>, stmts: Vec<(Antichain<T>, Antichain<T>)> }
impl<T: CdcTime> Given<T> {
    fn add(&mut self, m: &Msg<T>) {
        match m {
            Message::Updates(us) => for (d, t, r) in us { self.upds.insert((*d, t.clone()), *r); },
            Message::Progress(p) => self.stmts.push((anti(&p.lower), anti(&p.upper))),
        }
    }
    /// Whether everything before `f` was stated and given.
    fn justifies(&self, truth: &Truth<T>, f: &Antichain<T>) -> Result<(), String> {
        for t in truth.grid.iter().filter(|t| !f.less_equal(t)) {
            if !self.stmts.iter().any(|(l, u)| within(l, u, t)) { return Err(format!("no delivered statement covers time {t:?}")); }
        }
        for k in truth.upds.keys().filter(|k| !f.less_equal(&k.1)) { if !self.upds.contains_key(k) { return Err(format!("update {k:?} was not delivered")); } }
        Ok(())
    }
    /// How far a reader of what was given must get: along the statements that connect, short of any update still missing.
    fn reaches(&self, truth: &Truth<T>) -> Antichain<T> {
        let mut front = Antichain::from_elem(T::minimum());
        loop {
            let mut next = front.clone();
            for (l, u) in self.stmts.iter() {
                if !PartialOrder::less_equal(l, &next) { continue; }
                let mut both = Antichain::new();
                for a in u.iter() { for b in next.iter() { both.insert(a.join(b)); } }
                next = both;
            }
            if next == front { break; }
            front = next;
        }
        let missing: Vec<T> = truth.upds.keys().filter(|k| !front.less_equal(&k.1) && !self.upds.contains_key(*k)).map(|k| k.1.clone()).collect();
        front.extend(missing);
        front
    }
}

/// Random messages that state the truth: some writers' logs, cut up in their own ways.
fn messages<T: CdcTime>(s: &Sim, truth: &Truth<T>) -> Vec<Vec<Msg<T>>> {
    let mut logs = vec![];
    for w in 0..1 + s.genw(&[3, 2, 1]) {
        let mut log = vec![];
        // Updates, in a random or sorted order, batched at random; sometimes the same update twice.
        let mut us: Vec<(Row, T, isize)> = truth.upds.iter().map(|((d, t), r)| (*d, t.clone(), *r)).collect();
        if s.gen(2) == 0 { us.sort_by(|a, b| (&a.1, a.0).cmp(&(&b.1, b.0))); } else { shuffle(s, &mut us); }
        let max = 1 + s.gen(6);
        let mut at = 0;
        let mut groups = vec![];
        while at < us.len() {
            let n = (1 + s.gen(max)) as usize;
            let mut g: Vec<_> = us[at..(at + n).min(us.len())].to_vec();
            if s.chance(1, 8) { let x = g[0].clone(); g.push(x); }
            groups.push(g);
            at += n;
        }
        if s.chance(1, 8) { groups.push(vec![]); }
        // A chain of statements to the end of time.
        let mut chain = vec![];
        let mut f = Antichain::from_elem(T::minimum());
        for _ in 0..s.gen(7) {
            let g = later(s, &f);
            if g != f { chain.push((f, g.clone())); }
            f = g;
        }
        chain.push((f, Antichain::new()));
        // Statements over other intervals, as a restarted writer would make.
        for _ in 0..s.genw(&[4, 1, 1]) {
            let a: Antichain<T> = if s.gen(2) == 0 { Antichain::from_elem(T::minimum()) } else { Antichain::from_elem(T::small(s)) };
            let b = later(s, &a);
            if a != b { chain.push((a, b)); }
        }
        let mut stmts: VecDeque<Msg<T>> = chain.iter().map(|(l, u)| truth.progress(l, u)).collect();
        let mut groups: VecDeque<_> = groups.into();
        // The first statement always precedes the reading of anything; otherwise any interleaving.
        while !stmts.is_empty() || !groups.is_empty() {
            if groups.is_empty() || (!stmts.is_empty() && s.gen(3) == 0) { log.push(stmts.pop_front().unwrap()); } else { log.push(Message::Updates(groups.pop_front().unwrap())); }
        }
        // Only the first log need arrive whole.
        if w > 0 && s.gen(2) == 0 { log.retain(|_| s.gen(3) > 0); }
        logs.push(log);
    }
    logs
}
fn shuffle<X>(s: &Sim, v: &mut [X]) { for i in (1..v.len()).rev() { let j = s.gen(i as u64 + 1) as usize; v.swap(i, j); } }
fn delivery<T: CdcTime>(s: &Sim, logs: &[Vec<Msg<T>>]) -> Vec<Msg<T>> {
    // Interleave the logs.
    let mut at = vec![0; logs.len()];
    let mut all: Vec<Msg<T>> = vec![];
    loop {
        let open: Vec<usize> = (0..logs.len()).filter(|i| at[*i] < logs[*i].len()).collect();
        if open.is_empty() { break; }
        let i = open[s.gen(open.len() as u64) as usize];
        all.push(logs[i][at[i]].clone());
        at[i] += 1;
    }
    // Duplicates, anywhere; whole logs again.
    if s.gen(3) == 0 { for i in 0..all.len() { if s.chance(1, 3) { let m = all[i].clone(); all.push(m); s.count("fault.duplicated_message"); } } }
    if s.chance(1, 5) { let l = logs[s.gen(logs.len() as u64) as usize].clone(); s.count("fault.log_read_again"); all.extend(l); }
    match s.genw(&[2, 3, 2]) {
        0 => { }
        1 => { shuffle(s, &mut all); s.count("fault.shuffled_log"); }
        _ => for i in 0..all.len() { let j = i + s.gen(5) as usize; if j < all.len() { all.swap(i, j); s.count("fault.reordered_message"); } },
    }
    all
}
fn truth<T: CdcTime>(s: &Sim) -> Truth<T> {
    let n = [0, 3, 12, 30][s.genw(&[1, 3, 4, 2])];
    let (nk, nt) = (1 + s.gen(5), s.gen(2) == 0);
    let mut upds = BTreeMap::new();
    let mut base = T::minimum();
    for _ in 0..s.gen(n + 1) {
        let t = if nt { T::small(s) } else { base = T::gen_ge(s, &base); base.clone() };
        upds.insert(((s.gen(nk), s.gen(3)), t), [1, -1, 2][s.gen(3) as usize]);
    }
    let ts: Vec<T> = upds.keys().map(|k: &(Row, T)| k.1.clone()).collect();
    Truth { upds, grid: T::grid(&ts) }
}

fn iter_run<T: CdcTime>(sim: &Arc<Sim>) {
    let truth = truth::<T>(sim);
    let logs = messages(sim, &truth);
    let mut all = delivery(sim, &logs);
    // Delivery pauses: the source may run dry and be polled again.
    let mut cuts: Vec<usize> = (0..sim.gen(6)).map(|_| sim.gen(all.len() as u64 + 1) as usize).collect();
    cuts.sort();
    sim.describe(format!("iterator, {} updates, {} logs, {} messages", truth.upds.len(), logs.len(), all.len()));
    for m in &all { sim.note(|| format!("message {m:?}")); }
    if truth.upds.len() > 1 { sim.nontrivial(); }
    read_back(sim, &truth, &mut all, &cuts, true);
}
/// Feeds messages to the deduplicating iterator and checks everything it reports.
fn read_back<T: CdcTime>(sim: &Sim, truth: &Truth<T>, all: &mut Vec<Msg<T>>, cuts: &[usize], complete: bool) {
    let queue: Rc<RefCell<VecDeque<Msg<T>>>> = Rc::new(RefCell::new(VecDeque::new()));
    let given = Rc::new(RefCell::new(Given::<T> { upds: BTreeMap::new(), stmts: vec![] }));
    let (q, g) = (queue.clone(), given.clone());
    let mut it = iterator::Iter::new(std::iter::from_fn(move || { let m = q.borrow_mut().pop_front(); if let Some(m) = &m { g.borrow_mut().add(m); } m }));
    let mut front = Antichain::from_elem(T::minimum());
    let mut seen: BTreeMap<(Row, T), isize> = BTreeMap::new();
    let mut fed = 0;
    for cut in cuts.iter().cloned().chain([all.len()]) {
        while fed < cut { queue.borrow_mut().push_back(all[fed].clone()); fed += 1; }
        while let Some((us, f)) = it.next() {
            sim.event(|| format!("iterator reports {us:?} through {f:?}"), simcore::hash_debug(&f) ^ us.len() as u64);
            sim.check(PartialOrder::less_equal(&front, &f) && front != f, "iter-frontier", || format!("iterator moved from {front:?} to {f:?}"));
            if let Err(e) = given.borrow().justifies(truth, &f) { sim.violate("iter-early", format!("iterator reports {f:?} complete, but {e}")); }
            for (d, t, r) in us {
                sim.check(within(&front, &f, &t), "iter-interval", || format!("iterator reports update ({d:?}, {t:?}, {r}) between {front:?} and {f:?}"));
                sim.check(seen.insert((d, t.clone()), r).is_none(), "iter-twice", || format!("iterator reports update ({d:?}, {t:?}, {r}) twice"));
                sim.check(truth.upds.get(&(d, t.clone())) == Some(&r), "iter-update", || format!("iterator reports update ({d:?}, {t:?}, {r}) that did not happen"));
            }
            for k in truth.upds.keys() { sim.check(f.less_equal(&k.1) || seen.contains_key(k), "iter-lost", || format!("iterator reports {f:?} complete without update {k:?}")); }
            front = f;
            sim.count("check.iter_reports");
        }
        let must = given.borrow().reaches(truth);
        sim.check(PartialOrder::less_equal(&must, &front), "iter-behind", || format!("iterator ran dry and stands at {front:?}, though what it was given reaches {must:?}"));
    }
    if complete { sim.check(front.is_empty() && seen.len() == truth.upds.len(), "iter-stuck", || format!("everything was delivered, but the iterator stands at {front:?} having reported {} of {} updates", seen.len(), truth.upds.len())); }
}

struct Shared<T> { given: Given<T>, read: usize }
#[derive(Clone, Debug)]
enum Step { Give(usize), Work, Settle(usize), Token }

fn source_run(sim: &Arc<Sim>) {
    type T = u64;
    let (peers, config) = knobs(sim);
    let truth = truth::<T>(sim);
    let rounds = if sim.chance(1, 6) { 2 } else { 1 };
    // In each round: who gets which message when; a round before the last is abandoned part way.
    let mut scripts: Vec<Vec<Vec<Step>>> = vec![];
    let mut msgs: Vec<Vec<Msg<T>>> = vec![];
    for r in 0..rounds {
        let logs = messages(sim, &truth);
        let all = delivery(sim, &logs);
        let mut acts: Vec<Vec<Step>> = vec![vec![]; peers];
        let only = if sim.gen(4) == 0 { Some(sim.gen(peers as u64) as usize) } else { None };
        let stop = if r + 1 < rounds { sim.gen(all.len() as u64 + 1) as usize } else { all.len() };
        // The log may stay quiet for as long as it takes the source to catch up with it.
        let quiet = if sim.gen(2) == 0 && stop > 0 { Some(sim.gen(stop as u64) as usize) } else { None };
        for i in 0..stop { let w = only.unwrap_or_else(|| sim.gen(peers as u64) as usize); acts[w].push(Step::Give(i)); if quiet == Some(i) { for a in acts.iter_mut() { a.push(Step::Settle(i + 1)); } } for a in acts.iter_mut() { if sim.gen(4) == 0 { a.push(Step::Work); } } }
        if r + 1 < rounds { for a in acts.iter_mut() { a.push(Step::Token); } }
        sim.describe(format!("source round {r}: {} updates, {} logs, {stop} of {} messages, to {only:?}", truth.upds.len(), logs.len(), all.len()));
        for m in &all { sim.note(|| format!("message {m:?}")); }
        msgs.push(all);
        scripts.push(acts);
    }
    if truth.upds.len() > 1 { sim.nontrivial(); }
    let outs: Vec<Out<Row, T, isize>> = (0..rounds).map(|r| Out::new(&format!("source{r}"), peers)).collect();
    let shared: Vec<Mutex<Shared<T>>> = (0..rounds).map(|_| Mutex::new(Shared { given: Given { upds: BTreeMap::new(), stmts: vec![] }, read: 0 })).collect();
    let world = Arc::new((truth, msgs, scripts, shared, outs));
    let wd = world.clone();
    sim.run_workers(peers, config, move |worker, ctx| {
        let (truth, _, scripts, shared, outs) = &*wd;
        for r in 0..rounds {
            let probe = ProbeHandle::<T>::new();
            let queue: Rc<RefCell<VecDeque<usize>>> = Default::default();
            let (w2, q2, sim2) = (wd.clone(), queue.clone(), ctx.sim.clone());
            let act: Rc<RefCell<Option<Arc<SyncActivator>>>> = Default::default();
            let act2 = act.clone();
            let token = worker.dataflow::<T, _, _>(|scope| {
                let (token, stream) = source::build(scope, move |activator| {
                    let activator = Arc::new(activator);
                    *act2.borrow_mut() = Some(activator.clone());
                    let mut budget = 0;
                    std::iter::from_fn(move || {
                        // Yields now and then with messages left, having asked to be run again.
                        if budget == 0 { budget = if sim2.is_fair() { 1000 } else { sim2.fault(6) }; if !q2.borrow().is_empty() { let _ = activator.activate(); } return None; }
                        budget -= 1;
                        let i = q2.borrow_mut().pop_front()?;
                        let m = w2.1[r][i].clone();
                        sim2.event(|| format!("w{} reads {m:?}", simcore::me()), i as u64);
                        { let mut sh = w2.3[r].lock().unwrap(); sh.given.add(&m); sh.read += 1; }
                        Some(m)
                    })
                });
                let (sim, out, index) = (ctx.sim.clone(), outs[r].clone(), ctx.index);
                stream.unary::<CapacityContainerBuilder<Vec<(Row, T, isize)>>, _, _, _>(Pipeline, "Capture", move |_, _| move |input, output| {
                    input.for_each(|cap, data| {
                        for (d, t, r) in data.iter() {
                            sim.check(*cap.time() <= *t, "captime", || format!("update ({d:?}, {t}, {r}) travels with a capability for {}", cap.time()));
                            out.push(&sim, index, *d, *t, *r);
                        }
                        output.session(&cap).give_container(data);
                    })
                }).probe_with(&probe);
                token
            });
            let mut token = Some(token);
            let abandoned = r + 1 < rounds;
            let watch = || {
                let front = probe.with_frontier(|f| f.to_owned());
                outs[r].observe(&ctx.sim, ctx.index, front.borrow());
                if !abandoned { if let Err(e) = shared[r].lock().unwrap().given.justifies(truth, &front) { ctx.sim.violate("early", format!("worker {} sees the source's frontier at {front:?}, but {e}", ctx.index)); } }
            };
            for a in &scripts[r][ctx.index] {
                match a {
                    Step::Give(i) => { queue.borrow_mut().push_back(*i); let _ = act.borrow().as_ref().unwrap().activate(); }
                    Step::Work => ctx.some_steps(worker, |_| watch()),
                    Step::Settle(n) => {
                        ctx.settle(worker, &format!("caught up{r}"), |_| {
                            watch();
                            let sh = shared[r].lock().unwrap();
                            probe.done() || sh.read >= *n && PartialOrder::less_equal(&sh.given.reaches(truth), &probe.with_frontier(|f| f.to_owned()))
                        });
                        ctx.sim.count("check.caught_up");
                    }
                    Step::Token => token = None,
                }
            }
            if r + 1 == rounds { ctx.script_done(); }
            ctx.settle(worker, if abandoned { "abandoned" } else { "complete" }, |wk| { watch(); probe.done() && !wk.has_dataflows() });
            drop(token);
        }
    });
    let (truth, _, _, _, outs) = &*world;
    for (r, out) in outs.iter().enumerate() {
        let mut seen: BTreeMap<(Row, T), isize> = BTreeMap::new();
        for (d, t, x) in out.updates() {
            if truth.upds.get(&(d, t)) != Some(&x) { sim.violate("update", format!("source {r} emits ({d:?}, {t}, {x}), which did not happen")); }
            if seen.insert((d, t), x).is_some() { sim.violate("twice", format!("source {r} emits ({d:?}, {t}, {x}) twice")); }
        }
        if r + 1 == outs.len() { for k in truth.upds.keys() { sim.check(seen.contains_key(k), "lost", || format!("source completed without update {k:?}")); } }
        sim.count("check.sources");
    }
}

/// A log writer that refuses now and then, and delays confirming.
struct SimWriter<T> { sim: Arc<Sim>, log: Arc<Mutex<Vec<Msg<T>>>>, name: String, refuse: u64, lag: Cell<u64>, confirmed: Cell<bool>, steady: u32 }
impl<T: CdcTime> Writer<Msg<T>> for SimWriter<T> {
    fn poll(&mut self, item: &Msg<T>) -> Option<Duration> {
        if !self.sim.is_fair() {
            if self.refuse == 0 && self.sim.faultw(&[self.steady, 1]) == 1 { self.refuse = 1 + self.sim.fault(12); }
            if self.refuse > 0 {
                self.refuse -= 1;
                self.sim.count("fault.write_refused");
                let ms = [0, 1, 5, 1000][self.sim.fault(4) as usize];
                self.sim.event(|| format!("{} refuses, {ms} ms", self.name), ms);
                return Some(Duration::from_millis(ms));
            }
        }
        self.sim.event(|| format!("{} accepts {item:?}", self.name), simcore::hash_debug(item));
        self.log.lock().unwrap().push(item.clone());
        self.confirmed.set(false);
        self.lag.set(if self.sim.fault(3) == 0 { 1 + self.sim.fault(4) } else { 0 });
        None
    }
    fn done(&self) -> bool {
        if self.lag.get() > 0 { self.lag.set(self.lag.get() - 1); self.sim.count("fault.write_unconfirmed"); return false; }
        self.confirmed.set(true);
        true
    }
}

struct SinkWorld<T> { script: Script<T>, logs: Vec<Vec<Arc<Mutex<Vec<Msg<T>>>>>>, steady: u32, abandon: Vec<Vec<bool>>, hashes: Vec<u64>, same: bool }
fn sink_run<T: CdcTime>(sim: &Arc<Sim>) {
    let (peers, config) = knobs(sim);
    let load = Load { acts: 26, nk: 1 + sim.gen(5), nv: 1 + sim.gen(4), big: false };
    let (mut script, hist) = Script::<T>::generate(sim, peers, 1, &load);
    script.quiet(sim);
    let sinks = 1 + sim.genw(&[3, 1]);
    let mut net: BTreeMap<(Row, T), isize> = BTreeMap::new();
    for (_, r, t, d) in &hist { *net.entry((*r, t.clone())).or_insert(0) += d; }
    net.retain(|_, d| *d != 0);
    let mut ts: Vec<T> = net.keys().map(|k| k.1.clone()).collect();
    ts.push(T::fin());
    let truth = Truth { grid: T::grid(&ts), upds: net };
    let hashes: Vec<u64> = (0..sinks).map(|_| sim.gen(7)).collect();
    // Some writers are dropped part way: then only what they accepted must be true.
    let abandon: Vec<Vec<bool>> = (0..sinks).map(|_| (0..peers).map(|_| sim.chance(1, 24)).collect()).collect();
    let same = sim.gen(2) == 0;
    sim.describe(format!("sinks hash {hashes:?} abandoned {abandon:?}, one log per worker for both writers: {same}, input {:?}, {} updates, {} net", script.modes, hist.len(), truth.upds.len()));
    if truth.upds.len() > 1 { sim.nontrivial(); }
    let logs: Vec<Vec<Arc<Mutex<Vec<Msg<T>>>>>> = (0..sinks).map(|_| (0..peers).map(|_| Default::default()).collect()).collect();
    let world = Arc::new(SinkWorld { script, logs, steady: [3, 1, 10, 10_000][sim.gen(4) as usize], abandon, hashes, same });
    let wd = world.clone();
    sim.run_workers(peers, config, move |worker, ctx| {
        let w = ctx.index;
        let probe = ProbeHandle::<T>::new();
        let mut writers: Vec<Option<Vec<Rc<RefCell<SimWriter<T>>>>>> = vec![];
        let mk = |i: usize, n: &str| Rc::new(RefCell::new(SimWriter { sim: ctx.sim.clone(), log: wd.logs[i][w].clone(), name: format!("writer {i}/{w} {n}"), refuse: 0, lag: Cell::new(0), confirmed: Cell::new(true), steady: wd.steady }));
        let mut input = worker.dataflow::<T, _, _>(|scope| {
            let (input, c) = Input::new(scope, wd.script.modes[0]);
            let c = c.consolidate();
            c.inner.clone().probe_with(&probe);
            for i in 0..wd.logs.len() {
                let a = mk(i, "updates");
                let b = if wd.same { a.clone() } else { mk(i, "progress") };
                sink::build(c.inner.clone(), wd.hashes[i], Rc::downgrade(&a), Rc::downgrade(&b));
                writers.push(Some(vec![a, b]));
            }
            input
        });
        let acts = &wd.script.acts[w];
        let point = acts.len() / 2;
        for (n, a) in acts.iter().enumerate() {
            if n == point { for i in 0..writers.len() { if wd.abandon[i][w] { writers[i] = None; ctx.sim.count("fault.writer_dropped"); } } }
            ctx.sim.note(|| format!("w{w} {a:?}"));
            match a {
                Act::Work => ctx.some_steps(worker, |_| {}),
                // Statements about the times that have passed reach the log without waiting for more to come.
                Act::Quiet(to) => {
                    input.apply(&Act::Flush { input: 0 });
                    ctx.settle(worker, "caught up", |_| probe.with_frontier(|f| PartialOrder::less_equal(&to.borrow(), &f)) && wd.logs.iter().enumerate().all(|(i, l)| {
                        let owner = (wd.hashes[i] as usize) % ctx.peers;
                        wd.abandon[i][owner] || to.elements() == [T::minimum()] || l[owner].lock().unwrap().iter().any(|m| match m { Message::Progress(p) => PartialOrder::less_equal(to, &anti(&p.upper)), _ => false })
                    }));
                    ctx.sim.count("check.caught_up");
                }
                a => input.apply(a),
            }
        }
        if acts.is_empty() { for i in 0..writers.len() { if wd.abandon[i][w] { writers[i] = None; } } }
        input.finish();
        // Writers may still refuse once nothing further is to come.
        for _ in 0..ctx.sim.sched(4) { ctx.some_steps(worker, |_| {}); }
        ctx.script_done();
        let stated = |to: &T| wd.logs.iter().enumerate().all(|(i, l)| {
            let owner = (wd.hashes[i] as usize) % ctx.peers;
            wd.abandon[i][owner] || l[owner].lock().unwrap().iter().any(|m| match m { Message::Progress(p) => !p.upper.iter().any(|u| u.less_than(to)), _ => false })
        });
        ctx.settle(worker, "advanced", |_| !probe.less_than(&T::fin()) && stated(&T::fin()));
        input.close();
        ctx.settle(worker, "shutdown", |wk| !wk.has_dataflows());
        // The dataflow may only be over once every writer has committed what it accepted.
        for ws in writers.iter().flatten().flatten() {
            ctx.sim.check(ws.borrow().confirmed.get(), "unconfirmed", || format!("{}: the dataflow shut down before the writer had confirmed what it accepted", ws.borrow().name));
        }
    });
    // Every accepted message is true, and together they are the whole truth.
    for (i, logs) in world.logs.iter().enumerate() {
        let whole = world.abandon[i].iter().all(|a| !a);
        let owner = (world.hashes[i] as usize) % peers;
        let mut seen: BTreeMap<(Row, T), isize> = BTreeMap::new();
        let mut edge = Antichain::from_elem(T::minimum());
        let mut all: Vec<Msg<T>> = vec![];
        for (w, l) in logs.iter().enumerate() {
            for m in l.lock().unwrap().iter() {
                match m {
                    Message::Updates(us) => for (d, t, r) in us {
                        if truth.upds.get(&(*d, t.clone())) != Some(r) { sim.violate("update", format!("sink {i} wrote ({d:?}, {t:?}, {r}); the collection changes by {:?} there", truth.upds.get(&(*d, t.clone())))); }
                        if seen.insert((*d, t.clone()), *r).is_some() { sim.violate("twice", format!("sink {i} wrote ({d:?}, {t:?}, {r}) twice")); }
                    },
                    Message::Progress(p) => {
                        sim.check(w == owner, "progress-owner", || format!("sink {i}: worker {w} wrote a progress statement"));
                        let (l, u) = (anti(&p.lower), anti(&p.upper));
                        sim.check(l == edge && PartialOrder::less_equal(&l, &u) && l != u, "progress-gap", || format!("sink {i}: statement from {l:?} to {u:?} follows one to {edge:?}"));
                        edge = u.clone();
                        let mut counts: BTreeMap<T, usize> = BTreeMap::new();
                        for (t, c) in &p.counts { *counts.entry(t.clone()).or_insert(0) += c; }
                        for t in truth.upds.keys().map(|k| &k.1).chain(counts.keys()) {
                            let want = if within(&l, &u, t) { truth.count(t) } else { 0 };
                            let have = counts.get(t).copied().unwrap_or(0);
                            sim.check(want == have, "progress-count", || format!("sink {i}: statement from {l:?} to {u:?} counts {have} updates at {t:?}, of {want}"));
                        }
                        sim.count("check.statements");
                    }
                }
                all.push(m.clone());
            }
        }
        if whole {
            for k in truth.upds.keys() { sim.check(seen.contains_key(k), "lost", || format!("sink {i} never wrote update {k:?}")); }
            sim.check(edge.is_empty(), "progress-end", || format!("sink {i}: statements end at {edge:?}"));
            shuffle(sim, &mut all);
            read_back(sim, &truth, &mut all, &[], true);
        }
    }
}

fn c08(s: &Arc<Sim>) { match s.genw(&[1, 1, 4]) { 0 => iter_run::<u64>(s), 1 => iter_run::<Pair>(s), _ => source_run(s) } }
fn c09(s: &Arc<Sim>) { if s.gen(2) == 0 { sink_run::<u64>(s) } else { sink_run::<Pair>(s) } }

fn main() {
    let _ = |_: &Ctx| ();
    let mk = |id, scenario, rule| Check { id, scenario, quick_runs: 80_000, thorough_secs: 600, level: "exploration", rule,
        real: &["capture::source dataflow, capture::iterator::Iter, capture::sink dataflow, consolidation", "timely workers, progress tracking, exchange channels, activations"],
        stub: &["the log storage (messages held in memory, delivered or refused by the simulator)", "thread scheduling (baton-passing scheduler)", "delivery of bytes between workers (simulated network)", "clock_gettime and getrandom"],
        assumptions: &["timely 0.31 itself (not in /repo) delivers messages and progress as documented", "the dataflow source is used at totally ordered times (its code documents that it does not support others)"] };
    simcore::main(&[
        mk("C08", c08, "One case = one seeded run: a random collection history written by 1-3 redundant writers with their own batching and statement boundaries, delivered at least once with duplication, shuffling, pauses, loss of whole redundant messages, split over 1-4 readers, with readers abandoned and restarted. Nontrivial = at least two updates; distinct = distinct event hash. Checked: every update emitted exactly once, no frontier beyond what delivered statements and updates justify, completion once all is delivered"),
        mk("C09", c09, "One case = one seeded run: a random consolidated collection over 1-4 workers exported by 1-2 sinks whose writers refuse for random spans, delay confirmation, or are dropped. Nontrivial = at least two net updates; distinct = distinct event hash. Checked: accepted messages are exactly the collection's updates and a contiguous chain of statements with exact counts to the end; once writers accept, everything is delivered; the log reads back to the same collection"),
    ]);
}
