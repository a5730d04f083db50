//! Input handles under random operation sequences (C17).
use differential_dataflow::input::{Input as _, InputSession};
use differential_dataflow::AsCollection;
use simcore::{Check, Ctx, Out, Sim};
use simops::drive::{knobs, observe};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use timely::container::CapacityContainerBuilder;
use timely::dataflow::channels::pact::Pipeline;
use timely::dataflow::operators::generic::Operator;
use timely::dataflow::operators::probe::{Handle as ProbeHandle, Probe};
use timely::dataflow::operators::{Exchange, Inspect};

type Row = (u64, u64);
type Coll<'s> = differential_dataflow::collection::vec::Collection<'s, u64, Row, isize>;

#[derive(Clone, Debug)]
enum Act { Insert(usize, Row), Remove(usize, Row), Update(usize, Row, isize), At(usize, Row, u64, isize), Burst(usize, u64, u64), Adv(usize, u64), Flush(usize), Close(usize), Drop(usize), Work, Sync(usize) }

/// How a handle is made and who reads it.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Make { Session, Scope, From(u64), FromRaw(u64), Handle }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Read { Direct, Exchanged, Arranged, Both, TwoDataflows }

const FIN: u64 = 1 << 30;

struct Shared { open: Vec<Vec<Option<u64>>> }

fn capture(c: Coll<'_>, out: &Out<Row, u64, isize>, ctx: &Ctx, probe: &ProbeHandle<u64>) {
    let (sim, out, index) = (ctx.sim.clone(), out.clone(), ctx.index);
    c.inner.unary::<CapacityContainerBuilder<Vec<(Row, u64, isize)>>, _, _, _>(Pipeline, "Capture", move |_, _| move |input, output| {
        input.for_each(|cap, data| {
            for (d, t, r) in data.iter() {
                sim.check(*cap.time() <= *t, "captime", || format!("output '{}': update ({d:?}, {t}, {r}) travels with a capability for {}", out.name, cap.time()));
                out.push(&sim, index, *d, *t, *r);
            }
            output.session(&cap).give_container(data);
        })
    }).probe_with(probe);
}

fn run(sim: &Arc<Sim>) {
    let (peers, config) = knobs(sim);
    let n = 1 + sim.genw(&[3, 2, 1]);
    // A flush at a time the handle was already flushed at; see known_findings.txt for what that can strand.
    let same_flush = sim.chance(1, 300);
    let makes: Vec<Make> = (0..n).map(|_| match sim.genw(&[4, 2, 1, 1, 1]) { 0 => Make::Session, 1 => Make::Scope, 2 => Make::From(sim.gen(6)), 3 => Make::FromRaw(sim.gen(6)), _ => Make::Handle }).collect();
    let reads: Vec<Read> = makes.iter().map(|m| match sim.genw(&[2, 2, 3, 2, if *m == Make::Session { 2 } else { 0 }]) { 0 => Read::Direct, 1 => Read::Exchanged, 2 => Read::Arranged, 3 => Read::Both, _ => Read::TwoDataflows }).collect();
    sim.describe(format!("handles {makes:?} read by {reads:?}{}", if same_flush { ", flushing at unadvanced times" } else { "" }));
    // Scripts, and what they should produce: hist[input] = exact updates.
    let mut hist: Vec<Vec<(Row, u64, isize)>> = vec![vec![]; n];
    let mut acts: Vec<Vec<Act>> = vec![vec![]; peers];
    let mut now = vec![vec![Some(0u64); n]; peers];
    let mut flushed = vec![vec![Some(None::<u64>); n]; peers];
    let mut uniq = 0u64;
    let rounds = 1 + sim.gen(3) as usize;
    if same_flush {
        // The history that strands updates: flushed at a new time, then again at that time with more data.
        for w in 0..peers { for i in 0..n {
            for k in 0..1 + sim.gen(3) { let r = (k, w as u64); hist[i].push((r, 1, 1)); if k == 0 { acts[w].extend([Act::Adv(i, 1), Act::Flush(i)]); } acts[w].push(Act::Insert(i, r)); }
            now[w][i] = Some(1);
            acts[w].push(Act::Flush(i));
        } for _ in 0..3 { acts[w].push(Act::Work); } }
    }
    let initial = |m: &Make| match m { Make::From(k) | Make::FromRaw(k) => *k, _ => 0 };
    for w in 0..peers { for (i, m) in makes.iter().enumerate() { for j in 0..initial(m) {
        let row = (j % 3, 1_000_000 + w as u64 * 10 + j);
        match m { Make::From(_) => hist[i].push((row, 0, 1)), _ => hist[i].push((row, j, if j % 2 == 0 { 1 } else { 2 })) }
    } } }
    for round in 0..rounds {
        for w in 0..peers {
            for _ in 0..sim.gen(14) {
                let i = sim.gen(n as u64) as usize;
                let Some(t) = now[w][i] else { acts[w].push(Act::Work); continue };
                // Unique records show duplication and loss individually; shared ones consolidate.
                let mut row = || { uniq += 1; (sim.gen(4), if sim.gen(2) == 0 { uniq } else { 0 }) };
                match sim.genw(&[5, 2, 2, 3, 1, 5, 3, 1, 5]) {
                    0 => { let r = row(); hist[i].push((r, t, 1)); acts[w].push(Act::Insert(i, r)); }
                    1 => { let r = row(); hist[i].push((r, t, -1)); acts[w].push(Act::Remove(i, r)); }
                    2 => { let r = row(); let d = [3, -2, 1, 100][sim.gen(4) as usize]; hist[i].push((r, t, d)); acts[w].push(Act::Update(i, r, d)); }
                    3 => { let r = row(); let at = t + sim.gen(4); hist[i].push((r, at, 1)); acts[w].push(Act::At(i, r, at, 1)); }
                    4 => {
                        // Enough to overflow the session's buffer of 1024.
                        let k = [1023, 1024, 1025, 2049, 1500][sim.gen(5) as usize];
                        if sim.gen(2) == 0 { for j in 0..k { hist[i].push(((7, 10_000_000 + uniq * 10_000 + j), t, 1)); } acts[w].push(Act::Burst(i, k, uniq)); uniq += 1; }
                    }
                    5 => { let t2 = t + [1, 0, 2, 7][sim.genw(&[4, 1, 2, 1])]; now[w][i] = Some(t2); acts[w].push(Act::Adv(i, t2)); }
                    6 => if same_flush || flushed[w][i] != Some(Some(t)) && (flushed[w][i] != Some(None) || t > 0) { flushed[w][i] = Some(Some(t)); acts[w].push(Act::Flush(i)); },
                    7 => { now[w][i] = None; acts[w].push(if sim.gen(2) == 0 { Act::Close(i) } else { Act::Drop(i) }); }
                    _ => acts[w].push(Act::Work),
                }
            }
        }
        // A point at which everything before each input's earliest open time must complete.
        if round + 1 < rounds && sim.gen(2) == 0 {
            for w in 0..peers {
                for i in 0..n { if let Some(t) = now[w][i] { now[w][i] = Some(t + 1); acts[w].push(Act::Adv(i, t + 1)); acts[w].push(Act::Flush(i)); flushed[w][i] = Some(Some(t + 1)); } }
            }
            let targets: Vec<Option<u64>> = (0..n).map(|i| (0..peers).filter_map(|w| now[w][i]).min()).collect();
            for w in 0..peers { acts[w].push(Act::Sync(round)); }
            syncs(sim, round, targets);
        }
    }
    let targets = TARGETS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    for (w, a) in acts.iter().enumerate() { sim.note(|| format!("script w{w}: {a:?}")); }
    let shared = Arc::new(Mutex::new(Shared { open: vec![vec![Some(0); n]; peers] }));
    // Two captured outputs per handle.
    let outs: Vec<[Out<Row, u64, isize>; 2]> = (0..n).map(|i| [Out::new(&format!("h{i}a"), peers), Out::new(&format!("h{i}b"), peers)]).collect();
    let (acts, makes, reads) = (Arc::new(acts), Arc::new(makes), Arc::new(reads));
    {
        let (outs, makes, reads) = (outs.clone(), makes.clone(), reads.clone());
        sim.run_workers(peers, config, move |worker, ctx| {
            let index = ctx.index;
            let probes: Vec<[ProbeHandle<u64>; 2]> = (0..n).map(|_| [ProbeHandle::new(), ProbeHandle::new()]).collect();
            let mut ins: Vec<Option<InputSession<u64, Row, isize>>> = vec![];
            for i in 0..n {
                let mut session = InputSession::new();
                let dfs = if reads[i] == Read::TwoDataflows { 2 } else { 1 };
                for df in 0..dfs {
                    worker.dataflow::<u64, _, _>(|scope| {
                        let c = match makes[i] {
                            Make::Session => session.to_collection(scope),
                            Make::Scope => { let (s, c) = scope.new_collection(); session = s; c }
                            Make::From(k) => { let (s, c) = scope.new_collection_from((0..k).map(move |j| (j % 3, 1_000_000 + index as u64 * 10 + j))); session = s; c }
                            Make::FromRaw(k) => { let (s, c) = scope.new_collection_from_raw((0..k).map(move |j| ((j % 3, 1_000_000 + index as u64 * 10 + j), j, if j % 2 == 0 { 1 } else { 2 }))); session = s; c }
                            Make::Handle => { use timely::dataflow::operators::Input; let (h, s) = scope.new_input(); session = InputSession::from(h); s.as_collection() }
                        };
                        match reads[i] {
                            Read::Direct => { capture(c.clone(), &outs[i][0], ctx, &probes[i][0]); capture(c.inner.inspect(|_| {}).as_collection(), &outs[i][1], ctx, &probes[i][1]); }
                            Read::Exchanged => { capture(c.inner.clone().exchange(|u| u.0 .0).as_collection(), &outs[i][0], ctx, &probes[i][0]); capture(c.inner.exchange(|u| u.0 .1).as_collection(), &outs[i][1], ctx, &probes[i][1]); }
                            Read::Arranged => { capture(c.clone().arrange_by_key().as_collection(|k, v| (*k, *v)), &outs[i][0], ctx, &probes[i][0]); capture(c.consolidate(), &outs[i][1], ctx, &probes[i][1]); }
                            Read::Both => { capture(c.clone(), &outs[i][0], ctx, &probes[i][0]); capture(c.arrange_by_self().as_collection(|r, _| *r), &outs[i][1], ctx, &probes[i][1]); }
                            Read::TwoDataflows => if df == 0 { capture(c.inner.exchange(|u| u.0 .0).as_collection(), &outs[i][0], ctx, &probes[i][0]) } else { capture(c, &outs[i][1], ctx, &probes[i][1]) },
                        }
                    });
                }
                ins.push(Some(session));
            }
            let flat_p: Vec<ProbeHandle<u64>> = probes.iter().flatten().cloned().collect();
            let flat_o: Vec<Out<Row, u64, isize>> = outs.iter().flatten().cloned().collect();
            let watch = |ctx: &Ctx| {
                observe(&flat_p, &flat_o, ctx);
                // Nothing at or after the current time of an open handle may complete.
                let sh = shared.lock().unwrap();
                for (i, ps) in probes.iter().enumerate() {
                    for p in ps {
                        for (w, o) in sh.open.iter().enumerate() {
                            if let Some(t) = o[i] { ctx.sim.check(p.less_equal(&t), "early", || format!("worker {} sees handle {i} complete beyond time {t}, where worker {w}'s handle still is", ctx.index)); }
                        }
                    }
                }
            };
            for a in &acts[index] {
                ctx.sim.note(|| format!("w{index} {a:?}"));
                let set = |i: usize, t: Option<u64>| shared.lock().unwrap().open[index][i] = t;
                match a {
                    Act::Insert(i, r) => ins[*i].as_mut().unwrap().insert(*r),
                    Act::Remove(i, r) => ins[*i].as_mut().unwrap().remove(*r),
                    Act::Update(i, r, d) => ins[*i].as_mut().unwrap().update(*r, *d),
                    Act::At(i, r, t, d) => ins[*i].as_mut().unwrap().update_at(*r, *t, *d),
                    Act::Burst(i, k, u) => for j in 0..*k { ins[*i].as_mut().unwrap().insert((7, 10_000_000 + u * 10_000 + j)) },
                    Act::Adv(i, t) => { set(*i, Some(*t)); let s = ins[*i].as_mut().unwrap(); s.advance_to(*t); ctx.sim.check(s.time() == t && s.epoch() == t, "time", || format!("handle {i} advanced to {t} reports {}", s.time())); }
                    Act::Flush(i) => ins[*i].as_mut().unwrap().flush(),
                    Act::Close(i) => { set(*i, None); ins[*i].take().unwrap().close(); }
                    Act::Drop(i) => { set(*i, None); drop(ins[*i].take()); }
                    Act::Work => ctx.some_steps(worker, |_| watch(ctx)),
                    Act::Sync(k) => {
                        let target = &targets.iter().find(|x| x.0 == *k).unwrap().1;
                        ctx.settle(worker, &format!("sync{k}{}", if same_flush { " after a flush at an unadvanced time" } else { "" }), |_| { watch(ctx); probes.iter().zip(target).all(|(p, t)| p.iter().all(|p| match t { Some(t) => !p.less_than(t), None => p.done() })) });
                    }
                }
            }
            for (i, s) in ins.iter_mut().enumerate() { if let Some(s) = s { shared.lock().unwrap().open[index][i] = Some(FIN); s.advance_to(FIN); s.flush(); } }
            ctx.script_done();
            let tag = if same_flush { " after a flush at an unadvanced time" } else { "" };
            ctx.settle(worker, &format!("advanced{tag}"), |_| { watch(ctx); flat_p.iter().all(|p| !p.less_than(&FIN)) });
            for i in 0..n { shared.lock().unwrap().open[index][i] = None; }
            ins.clear();
            ctx.settle(worker, &format!("shutdown{tag}"), |w| { watch(ctx); !w.has_dataflows() });
        });
    }
    let total: usize = hist.iter().map(|h| h.len()).sum();
    if total > 1 { sim.nontrivial(); }
    sim.count_n("work.updates", total as u64);
    for i in 0..n {
        for (j, out) in outs[i].iter().enumerate() {
            let fold = |v: Vec<(Row, u64, isize)>| -> BTreeMap<(Row, u64), i64> {
                let mut m = BTreeMap::new();
                for (d, t, r) in v { *m.entry((d, t)).or_insert(0) += r as i64 }
                m.retain(|_, c| *c != 0);
                m
            };
            let (want, got) = (fold(hist[i].clone()), fold(out.updates()));
            if want != got {
                let mut v = vec![];
                for (k, c) in &want { if got.get(k) != Some(c) { v.push(format!("{k:?}: expected {c}, got {}", got.get(k).unwrap_or(&0))); } }
                for (k, c) in &got { if !want.contains_key(k) { v.push(format!("{k:?}: expected 0, got {c}")); } }
                v.truncate(5);
                sim.violate("delivery", format!("handle {i} ({:?}), reader {j} ({:?}): (data, time) with wrong total change: {}", makes[i], reads[i], v.join(", ")));
            }
            sim.count("check.readers");
        }
    }
}

thread_local! { static TARGETS: std::cell::RefCell<Vec<(usize, Vec<Option<u64>>)>> = const { std::cell::RefCell::new(vec![]) }; }
fn syncs(_: &Sim, k: usize, t: Vec<Option<u64>>) { TARGETS.with(|x| x.borrow_mut().push((k, t))); }

fn main() {
    simcore::main(&[Check {
        id: "C17", scenario: run, quick_runs: 60_000, thorough_secs: 600, level: "exploration",
        rule: "One case = one seeded run: 1-3 input handles per worker made in each available way, random insert/remove/update/update_at/bursts/advance/flush/close/drop interleaved with worker steps, 1-4 workers, faults. Nontrivial = at least two updates; distinct = distinct event hash. Checked: the multiset of (data, time, diff) each reader sees equals what was entered; no probe passes an open handle's current time; advancing and flushing completes all earlier times; closing completes and removes everything",
        real: &["InputSession, Input, arrangements and consolidation behind them", "timely input handles, exchange channels, serialization, progress tracking"],
        stub: &["thread scheduling (baton-passing scheduler)", "delivery of bytes between workers (simulated network)", "clock_gettime and getrandom"],
        assumptions: &["timely 0.31 itself (not in /repo) delivers messages and progress as documented"],
    }]);
}
