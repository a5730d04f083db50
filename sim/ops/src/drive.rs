//! Shared pieces of scenarios: configuration knobs, input scripts and capture.
use crate::dag::{Bag, Coll, Row, SimTime};
use differential_dataflow::input::InputSession;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::AsCollection;
use simcore::{Ctx, Out, Sim};
use std::sync::atomic::Ordering;
use timely::container::CapacityContainerBuilder;
use timely::dataflow::operators::core::unordered_input::{UnorderedHandle, UnorderedInput};
use timely::dataflow::operators::generic::Operator;
use timely::dataflow::channels::pact::Pipeline;
use timely::dataflow::operators::ActivateCapability;
use timely::dataflow::operators::probe::{Handle as ProbeHandle, Probe};
use timely::dataflow::Scope;
use crate::pair::{Pair, Trip};
use timely::order::PartialOrder;
use timely::progress::{Antichain, Timestamp};
use timely::worker::{Config, ProgressMode, Worker};

/// Draws the number of workers and every configuration knob a deployment may choose.
pub fn knobs(s: &Sim) -> (usize, Config) { knobs_w(s, &[3, 4, 3, 2]) }
pub fn knobs_w(s: &Sim, peers: &[u32]) -> (usize, Config) {
    let peers = 1 + s.genw(peers);
    let mode = if s.gen(2) == 0 { ProgressMode::Demand } else { ProgressMode::Eager };
    let mut c = Config::default().progress_mode(mode);
    let effort = [None, None, Some(1isize), Some(16), Some(1000)][s.gen(5) as usize];
    differential_dataflow::configure(&mut c, &differential_dataflow::Config { idle_merge_effort: effort, ..Default::default() });
    let fuel = [0isize, 1, 3, 20, 1_000_000][s.gen(5) as usize];
    let chunk = [0isize, 1, 2, 7, 64][s.gen(5) as usize];
    let container = [0isize, 1, 2, 5, 20][s.gen(5) as usize];
    differential_dataflow::dd_sim::CONTAINER.store(container, Ordering::SeqCst);
    differential_dataflow::dd_sim::JOIN_FUEL.store(fuel, Ordering::SeqCst);
    differential_dataflow::dd_sim::BATCHER_CHUNK.store(chunk, Ordering::SeqCst);
    s.describe(format!("peers={peers} mode={mode:?} idle_merge_effort={effort:?} join_fuel={fuel} batcher_chunk={chunk} container={container}"));
    (peers, c)
}

/// Large batches: with very little fuel, or one update to a message, they would take too many rounds.
pub fn wide() {
    use differential_dataflow::dd_sim::{CONTAINER, JOIN_FUEL};
    if matches!(JOIN_FUEL.load(Ordering::SeqCst), 1..=99) { JOIN_FUEL.store(100, Ordering::SeqCst); }
    if matches!(CONTAINER.load(Ordering::SeqCst), 1..=7) { CONTAINER.store(8, Ordering::SeqCst); }
}

/// Times a workload can be generated over.
pub trait GenTime: SimTime {
    /// A generated time at or beyond `base`, usually not far.
    fn gen_ge(s: &Sim, base: &Self) -> Self;
    /// A time beyond everything that is generated.
    fn fin() -> Self;
    /// Whether inputs at this time are limited to sets of capabilities.
    const UNORDERED_ONLY: bool = false;
    fn session<'s>(_scope: Scope<'s, Self>) -> (Input<Self>, Coll<'s, Self>) { panic!("harness: no input sessions at partially ordered times") }
}
impl GenTime for u64 {
    fn session<'s>(scope: Scope<'s, u64>) -> (Input<u64>, Coll<'s, u64>) { let mut i = InputSession::new(); let c = i.to_collection(scope); (Input::Session(i, 0), c) }
    fn gen_ge(s: &Sim, base: &u64) -> u64 { match s.genw(&[4, 4, 2, 1]) { 0 => *base, 1 => base + 1, 2 => base + s.gen(5), _ => base + s.gen(20) } }
    fn fin() -> u64 { 1 << 20 }
}
impl GenTime for Pair {
    const UNORDERED_ONLY: bool = true;
    fn gen_ge(s: &Sim, b: &Self) -> Self {
        match s.genw(&[3, 3, 3, 2, 1]) {
            0 => b.clone(),
            1 => Pair::new(b.0.outer + 1, b.0.inner),
            2 => Pair::new(b.0.outer, b.0.inner + 1),
            3 => Pair::new(b.0.outer + s.gen(3), b.0.inner + s.gen(3)),
            _ => Pair::new(b.0.outer + s.gen(6), b.0.inner + s.gen(6)),
        }
    }
    fn fin() -> Self { Pair::new(1 << 20, 1 << 20) }
}

impl GenTime for Trip {
    const UNORDERED_ONLY: bool = true;
    fn gen_ge(s: &Sim, b: &Self) -> Self {
        let mut p = b.parts();
        match s.genw(&[3, 6, 3]) {
            0 => { }
            1 => p[s.gen(3) as usize] += 1 + s.gen(2),
            _ => for x in p.iter_mut() { *x += s.gen(3) },
        }
        Trip::new(p[0], p[1], p[2])
    }
    fn fin() -> Self { Trip::new(1 << 20, 1 << 20, 1 << 20) }
}

#[derive(Clone, Debug)]
pub enum Act<T> {
    Upd { input: usize, row: Row, diff: isize, cap: usize, time: T },
    Adv { input: usize, time: T },
    Hold { input: usize, from: usize, time: T },
    Release { input: usize, cap: usize },
    Flush { input: usize },
    Work,
    /// Nothing further happens until the outputs have caught up with what every worker's inputs admit here.
    Quiet(Antichain<T>),
}
/// How an input is driven.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum InMode { Session, Unordered }

pub struct Script<T> { pub modes: Vec<InMode>, pub acts: Vec<Vec<Act<T>>> }

pub struct Load { pub acts: u64, pub nk: u64, pub nv: u64, pub big: bool }

impl<T: GenTime> Script<T> {
    /// Generates every worker's script: updates at times held open by that worker, and frontier movement.
    pub fn generate(s: &Sim, peers: usize, inputs: usize, load: &Load) -> (Script<T>, Vec<(usize, Row, T, isize)>) {
        let modes: Vec<InMode> = (0..inputs).map(|_| if !T::UNORDERED_ONLY && s.genw(&[3, 2]) == 0 { InMode::Session } else { InMode::Unordered }).collect();
        let mut hist: Vec<(usize, Row, T, isize)> = vec![];
        let mut acts: Vec<Vec<Act<T>>> = vec![];
        let retract = 1 + s.gen(6) as u32;
        for _ in 0..peers {
            let mut mine: Vec<Act<T>> = vec![];
            // Times each input could still produce at.
            let mut held: Vec<Vec<Option<T>>> = vec![vec![Some(T::minimum())]; inputs];
            let n = s.gen(load.acts + 1);
            for _ in 0..n {
                let input = s.gen(inputs as u64) as usize;
                let open: Vec<usize> = (0..held[input].len()).filter(|i| held[input][*i].is_some()).collect();
                match s.genw(&[6, 3, 1, 4]) {
                    0 => {
                        let burst = if load.big { [1, 8, 40, 130][s.genw(&[4, 3, 2, 1])] } else { [1, 2, 4, 8][s.genw(&[4, 3, 2, 1])] };
                        for _ in 0..burst {
                            let cap = open[s.gen(open.len() as u64) as usize];
                            let base = held[input][cap].clone().unwrap();
                            let time = if s.genw(&[3, 1]) == 0 { base.clone() } else { T::gen_ge(s, &base) };
                            let (row, diff) = if !hist.is_empty() && s.chance(retract, 10) {
                                let h = &hist[s.gen(hist.len() as u64) as usize];
                                (h.1, if s.gen(4) > 0 { -h.3 } else { h.3 })
                            } else { ((s.gen(load.nk), s.gen(load.nv)), [1, 1, 1, 2, -1][s.gen(5) as usize]) };
                            hist.push((input, row, time.clone(), diff));
                            mine.push(Act::Upd { input, row, diff, cap, time });
                        }
                    }
                    1 => match modes[input] {
                        InMode::Session => {
                            let t = T::gen_ge(s, held[input][0].as_ref().unwrap());
                            held[input][0] = Some(t.clone());
                            mine.push(Act::Adv { input, time: t });
                        }
                        InMode::Unordered => {
                            if open.len() > 1 && s.gen(2) == 1 {
                                let cap = open[s.gen(open.len() as u64) as usize];
                                held[input][cap] = None;
                                mine.push(Act::Release { input, cap });
                            } else {
                                let from = open[s.gen(open.len() as u64) as usize];
                                let t = T::gen_ge(s, held[input][from].as_ref().unwrap());
                                held[input].push(Some(t.clone()));
                                mine.push(Act::Hold { input, from, time: t });
                                // Usually moves rather than splits.
                                if s.gen(3) > 0 { held[input][from] = None; mine.push(Act::Release { input, cap: from }); }
                            }
                        }
                    },
                    2 => mine.push(Act::Flush { input }),
                    _ => mine.push(Act::Work),
                }
            }
            acts.push(mine);
        }
        (Script { modes, acts }, hist)
    }
    /// Half the time, a moment in each worker's script at which all wait for the outputs to catch up.
    pub fn quiet(&mut self, s: &Sim) {
        if s.gen(2) == 0 { return; }
        let at: Vec<usize> = self.acts.iter().map(|a| s.gen(a.len() as u64 + 1) as usize).collect();
        let mut front = Antichain::new();
        for (acts, at) in self.acts.iter().zip(&at) {
            let mut held: Vec<Vec<Option<T>>> = vec![vec![Some(T::minimum())]; self.modes.len()];
            for a in &acts[..*at] {
                match a {
                    Act::Adv { input, time } => held[*input][0] = Some(time.clone()),
                    Act::Hold { input, time, .. } => held[*input].push(Some(time.clone())),
                    Act::Release { input, cap } => held[*input][*cap] = None,
                    _ => { }
                }
            }
            front.extend(held.into_iter().flatten().flatten());
        }
        for (acts, at) in self.acts.iter_mut().zip(&at) { acts.insert(*at, Act::Quiet(front.clone())); }
    }
}

type Caps<T> = Vec<Option<ActivateCapability<T>>>;
type UHandle<T> = UnorderedHandle<T, CapacityContainerBuilder<Vec<(Row, T, isize)>>>;

pub enum Input<T: Timestamp + Clone> {
    /// A session and the time it was last flushed at. Flushing twice at one time is a known way to strand updates
    /// (see known_findings.txt), which the InputSession scenario covers; here a flush always follows an advance.
    Session(InputSession<T, Row, isize>, T),
    Unordered(UHandle<T>, Caps<T>),
    Closed,
}
impl<T: GenTime> Input<T> {
    pub fn new<'s>(scope: Scope<'s, T>, mode: InMode) -> (Input<T>, Coll<'s, T>) where T: Lattice {
        match mode {
            InMode::Session => T::session(scope),
            InMode::Unordered => {
                let ((h, cap), stream) = scope.new_unordered_input::<CapacityContainerBuilder<Vec<(Row, T, isize)>>>();
                (Input::Unordered(h, vec![Some(cap)]), stream.as_collection())
            }
        }
    }
    pub fn apply(&mut self, a: &Act<T>) {
        match (self, a) {
            (Input::Session(i, _), Act::Upd { row, diff, time, .. }) => if i.time() == time { i.update(*row, *diff) } else { i.update_at(*row, time.clone(), *diff) },
            (Input::Session(i, _), Act::Adv { time, .. }) => i.advance_to(time.clone()),
            (Input::Session(i, last), Act::Flush { .. }) => if *last != *i.time() { *last = i.time().clone(); i.flush(); },
            (Input::Unordered(h, caps), Act::Upd { row, diff, cap, time, .. }) => h.activate().session(caps[*cap].as_ref().unwrap()).give((*row, time.clone(), *diff)),
            (Input::Unordered(_, caps), Act::Hold { from, time, .. }) => { let c = caps[*from].as_ref().unwrap().delayed(time); caps.push(Some(c)); }
            (Input::Unordered(_, caps), Act::Release { cap, .. }) => caps[*cap] = None,
            (Input::Unordered(_, _), Act::Flush { .. }) => { }
            _ => panic!("harness: script action does not fit its input"),
        }
    }
    /// Moves the input beyond every generated time, still open.
    pub fn finish(&mut self) {
        match self {
            Input::Session(i, _) => { i.advance_to(T::fin()); i.flush(); }
            Input::Unordered(_, caps) => {
                let c = caps.iter().flatten().next().unwrap().delayed(&T::fin());
                caps.clear();
                caps.push(Some(c));
            }
            Input::Closed => { }
        }
    }
    pub fn close(&mut self) { *self = Input::Closed; }
}
impl<T> Act<T> {
    pub fn input(&self) -> Option<usize> {
        match self { Act::Upd { input, .. } | Act::Adv { input, .. } | Act::Hold { input, .. } | Act::Release { input, .. } | Act::Flush { input } => Some(*input), Act::Work | Act::Quiet(_) => None }
    }
}

/// Captures a collection: records every update, checks it against the capability it travels with, and probes it.
pub fn capture<T: SimTime>(c: Coll<'_, T>, out: &Out<Row, T, isize>, ctx: &Ctx, probe: &ProbeHandle<T>) {
    let (sim, out, index) = (ctx.sim.clone(), out.clone(), ctx.index);
    c.inner.unary::<CapacityContainerBuilder<Vec<(Row, T, isize)>>, _, _, _>(Pipeline, "Capture", move |_, _| {
        move |input, output| {
            input.for_each(|cap, data| {
                for (d, t, r) in data.iter() {
                    if !cap.time().less_equal(t) {
                        sim.violate("captime", format!("output '{}': update ({d:?}, {t:?}, {r:?}) travels with a capability for {:?}", out.name, cap.time()));
                    }
                    out.push(&sim, index, *d, t.clone(), *r);
                }
                output.session(&cap).give_container(data);
            })
        }
    }).probe_with(probe);
}

pub fn observe<T: SimTime>(probes: &[ProbeHandle<T>], outs: &[Out<Row, T, isize>], ctx: &Ctx) {
    for (p, o) in probes.iter().zip(outs) { p.with_frontier(|f| o.observe(&ctx.sim, ctx.index, f)); }
}

/// Steps until every worker has seen all outputs reach `to`.
pub fn caught_up<T: SimTime>(ctx: &Ctx, worker: &mut Worker, to: &Antichain<T>, probes: &[ProbeHandle<T>], mut watch: impl FnMut()) {
    ctx.sim.note(|| format!("w{} waits for the outputs to reach {to:?}", ctx.index));
    ctx.settle(worker, "caught up", |_| { watch(); probes.iter().all(|p| p.with_frontier(|f| PartialOrder::less_equal(&to.borrow(), &f))) });
    ctx.sim.count("check.caught_up");
}

/// Runs one worker's script, then both liveness phases.
pub fn drive<T: GenTime>(worker: &mut Worker, ctx: &Ctx, script: &[Act<T>], inputs: &mut [Input<T>], probes: &[ProbeHandle<T>], outs: &[Out<Row, T, isize>]) {
    for a in script {
        match a {
            Act::Work => ctx.some_steps(worker, |_| observe(probes, outs, ctx)),
            Act::Quiet(to) => {
                for (n, i) in inputs.iter_mut().enumerate() { i.apply(&Act::Flush { input: n }); }
                caught_up(ctx, worker, to, probes, || observe(probes, outs, ctx));
            }
            a => { ctx.sim.note(|| format!("w{} {a:?}", ctx.index)); inputs[a.input().unwrap()].apply(a); }
        }
    }
    for i in inputs.iter_mut() { i.finish(); }
    ctx.script_done();
    ctx.settle(worker, "advanced", |_| { observe(probes, outs, ctx); probes.iter().all(|p| !p.less_than(&T::fin())) });
    for i in inputs.iter_mut() { i.close(); }
    ctx.settle(worker, "shutdown", |w| { observe(probes, outs, ctx); !w.has_dataflows() });
}

/// The interesting times of a run: all given times, closed under join up to `cap` of them.
pub fn probe_times<T: SimTime>(mut ts: Vec<T>, cap: usize, join: bool) -> Vec<T> {
    ts.sort();
    ts.dedup();
    if join {
        let mut i = 0;
        while i < ts.len() && ts.len() < cap {
            for j in 0..i { let t = ts[i].join(&ts[j]); if !ts.contains(&t) { ts.push(t); } }
            i += 1;
        }
    }
    if ts.len() > cap { let n = ts.len(); ts = (0..cap).map(|i| ts[i * n / cap].clone()).chain(ts.last().cloned()).collect(); }
    ts
}

pub fn diff_text(want: &Bag, got: &std::collections::BTreeMap<Row, i64>) -> String {
    let mut v = vec![];
    for (r, d) in want { let g = got.get(r).copied().unwrap_or(0); if g != *d as i64 { v.push(format!("{r:?}: expected {d}, got {g}")); } }
    for (r, g) in got { if !want.contains_key(r) { v.push(format!("{r:?}: expected 0, got {g}")); } }
    v.truncate(6);
    v.join(", ")
}
