//! Random operator DAGs on simulated workers, checked against from-scratch evaluation (C01, C02, C03, C06, C07).
use simcore::{Check, Out, Sim};
use simops::dag::{render, Eval, Level, Mix, Prog};
use simops::drive::*;
use std::sync::Arc;
use timely::dataflow::operators::probe::Handle as ProbeHandle;
use simops::pair::{Pair, Trip};

fn run<T: GenTime + Level + Sync + timely::progress::timestamp::Refines<()>>(sim: &Arc<Sim>, mix: Mix, acts: u64) {
    let (peers, config) = knobs(sim);
    if mix.big { wide(); }
    let inputs = 1 + sim.genw(&[3, 4, 2]);
    let prog = Prog::generate(sim, inputs, mix);
    sim.describe(format!("program {}", prog.summary()));
    let load = Load { acts: if mix.big { 12 } else { acts }, nk: prog.dom.nk, nv: prog.dom.nv, big: mix.big };
    let (mut script, hist) = Script::<T>::generate(sim, peers, inputs, &load);
    script.quiet(sim);
    sim.describe(format!("inputs {:?}, {} updates", script.modes, hist.len()));
    for (w, a) in script.acts.iter().enumerate() { sim.note(|| format!("script w{w}: {a:?}")); }
    let outs: Vec<Out<_, T, isize>> = prog.outputs.iter().map(|o| Out::new(&format!("n{o}"), peers)).collect();
    let (prog, script) = (Arc::new(prog), Arc::new(script));
    {
        let (prog, outs) = (prog.clone(), outs.clone());
        sim.run_workers(peers, config, move |worker, ctx| {
            let probes: Vec<ProbeHandle<T>> = outs.iter().map(|_| ProbeHandle::new()).collect();
            let mut ins = worker.dataflow(|scope| {
                let (ins, colls): (Vec<_>, Vec<_>) = script.modes.iter().map(|m| Input::new(scope, *m)).unzip();
                let nodes = render(&prog, colls);
                for ((o, out), p) in prog.outputs.iter().zip(outs.iter()).zip(probes.iter()) { capture(nodes[*o].clone(), out, ctx, p); }
                ins
            });
            drive(worker, ctx, &script.acts[ctx.index], &mut ins, &probes, &outs);
        });
    }
    if hist.len() > 1 { sim.nontrivial(); }
    sim.count_n("work.updates", hist.len() as u64);
    let mut ev = Eval::new(&prog, &hist);
    for (o, out) in prog.outputs.iter().zip(outs.iter()) {
        sim.count_n("work.outputs", out.len() as u64);
        let mut ts: Vec<T> = hist.iter().map(|h| h.2.clone()).collect();
        ts.push(T::minimum());
        let base = ts.clone();
        ts.extend(out.times());
        let mut ts = probe_times(ts, 60, true);
        if ts.len() >= 60 { ts.extend(probe_times(base, 60, false)); }
        ts.push(T::fin());
        for t in ts {
            let want = ev.at(*o, &t);
            let got = out.at(&t);
            if want.len() != got.len() || want.iter().any(|(r, d)| got.get(r) != Some(&(*d as i64))) {
                sim.violate("exactness", format!("node n{o} ({:?}) at time {t:?}: {}", prog.ops[*o], diff_text(&want, &got)));
            }
            sim.count("check.times");
        }
    }
}

const FLAT: Mix = Mix { loops: false, nested: false, total: true, delay: true, max_ops: 7, ext: 6, force_loop: false, force_reduce: false, big: false };
const LOOP: Mix = Mix { loops: true, nested: true, total: true, delay: true, max_ops: 4, ext: 3, force_loop: true, force_reduce: false, big: false };

// Wide keys or values and large batches, now and then.
fn big(s: &Arc<Sim>, mix: Mix) -> Mix { let big = s.chance(1, 12); Mix { big, max_ops: if big { 4 } else { mix.max_ops }, ..mix } }
fn c01(s: &Arc<Sim>) { let mix = if s.chance(1, 8) { Mix { loops: true, ..FLAT } } else { big(s, FLAT) }; run::<u64>(s, mix, 40) }
fn c02(s: &Arc<Sim>) {
    let mix = Mix { total: false, loops: s.chance(1, 8), force_reduce: s.chance(1, 2), max_ops: 5, ..FLAT };
    let mix = if mix.loops { mix } else { big(s, mix) };
    if s.chance(1, 3) { run::<Trip>(s, Mix { loops: false, ext: 0, ..mix }, 36) } else { run::<Pair>(s, mix, 30) }
}
fn c03(s: &Arc<Sim>) { if s.chance(1, 4) { run::<Pair>(s, Mix { total: false, ..LOOP }, 16) } else { run::<u64>(s, LOOP, 24) } }
fn mixed(s: &Arc<Sim>) {
    if s.chance(1, 16) { return run::<u64>(s, Mix { big: true, max_ops: 4, ..FLAT }, 12); }
    match s.genw(&[3, 2, 3, 1, 1]) {
        0 => run::<u64>(s, Mix { loops: true, ..FLAT }, 30),
        4 => run::<Trip>(s, Mix { total: false, ext: 0, force_reduce: s.chance(1, 2), max_ops: 5, ..FLAT }, 30),
        1 => run::<Pair>(s, Mix { total: false, loops: true, max_ops: 5, ..FLAT }, 24),
        2 => run::<u64>(s, LOOP, 20),
        _ => run::<Pair>(s, Mix { total: false, ..LOOP }, 14),
    }
}

const REAL: &[&str] = &["differential-dataflow operators, arrangements, spines, batchers and consolidation (all of /repo/differential-dataflow)", "timely workers, progress tracking, exchange channels, serialization of exchanged batches"];
const STUB: &[&str] = &["thread scheduling (baton-passing scheduler)", "delivery of bytes between workers (simulated network through timely's spill policy seam)", "clock_gettime and getrandom (virtual clock, seeded bytes)"];

fn main() {
    // A case is one seeded run; it counts as nontrivial when its history has at least two updates.
    let mk = |id, scenario, quick_runs, rule| Check {
        id, scenario, quick_runs, thorough_secs: 600, level: "exploration", rule, real: REAL, stub: STUB,
        assumptions: &["the reference evaluator in /verif/sim/ops/src/dag.rs states the intended meaning of each operator", "timely 0.31 itself (not in /repo) delivers messages and progress as documented"],
    };
    simcore::main(&[
        mk("C01", c01, 60_000, "One case = one seeded run: a random operator program, random input histories split among 1-4 workers, random configuration, schedule, deliveries and faults. Nontrivial = the history has at least two updates; distinct = distinct hash of the event sequence (scheduling, deliveries, faults, outputs). Checked: every captured output accumulates, at every probed time, to the program evaluated from scratch on the input accumulated at that time"),
        mk("C02", c02, 60_000, "One case = one seeded run: a random operator program, random input histories split among 1-4 workers, random configuration, schedule, deliveries and faults. Nontrivial = the history has at least two updates; distinct = distinct hash of the event sequence (scheduling, deliveries, faults, outputs). Checked: as C01, at products of times including joins of event times, with inputs holding antichains of capabilities"),
        mk("C03", c03, 40_000, "One case = one seeded run: a random operator program, random input histories split among 1-4 workers, random configuration, schedule, deliveries and faults. Nontrivial = the history has at least two updates; distinct = distinct hash of the event sequence (scheduling, deliveries, faults, outputs). Checked: as C01, for programs ending in an iterative scope, the reference being the explicit fixed point"),
        mk("C06", mixed, 50_000, "One case = one seeded run: a random operator program, random input histories split among 1-4 workers, random configuration, schedule, deliveries and faults. Nontrivial = the history has at least two updates; distinct = distinct hash of the event sequence (scheduling, deliveries, faults, outputs). Checked: no output at a time any worker's probe has passed; data times at or beyond their capability; probe frontiers never regress; passed times are exact"),
        mk("C07", mixed, 50_000, "One case = one seeded run: a random operator program, random input histories split among 1-4 workers, random configuration, schedule, deliveries and faults. Nontrivial = the history has at least two updates; distinct = distinct hash of the event sequence (scheduling, deliveries, faults, outputs). Checked: once faults stop, every probe passes the final time, and after inputs close every dataflow is removed, within a bounded number of fair steps"),
    ]);
}
