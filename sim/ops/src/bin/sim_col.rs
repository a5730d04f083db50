//! Columnar collections and arrangements, with and without spilling, against from-scratch evaluation (C13).
use columnar::Columnar;
use differential_dataflow::columnar::collection::{Builder as ColBuilder, RecordedUpdates};
use differential_dataflow::columnar::trace::spill::{self, BytesSource, BytesStore, SpillStats};
use differential_dataflow::columnar::trace::{Batcher, Builder, Chunker, ColChunk, Spine};
use differential_dataflow::columnar::UpdatesTyped;
use differential_dataflow::trace::implementations::chunker::ContainerChunker;
use timely::container::PushInto;
use differential_dataflow::operators::arrange::TraceAgent;
use differential_dataflow::operators::iterate::Variable;
use differential_dataflow::trace::{Cursor, TraceReader};
use differential_dataflow::{AsCollection};
use simcore::{Check, Ctx, Out, Sim};
use simops::dag::{Eval, ExpFn, LoopKind, Mix, Op, Prog, Red, Row, SimTime, Via};
use simops::drive::{caught_up, diff_text, knobs, observe, probe_times, Act, GenTime, InMode, Load, Script};
use simops::col::*;
use simops::pair::{Pair, Trip};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;
use timely::dataflow::channels::pact::Pipeline;
use timely::dataflow::operators::core::unordered_input::{UnorderedHandle, UnorderedInput};
use timely::dataflow::operators::generic::Operator;
use timely::dataflow::InputHandle;
use timely::dataflow::operators::probe::{Handle as ProbeHandle, Probe};
use timely::dataflow::operators::ActivateCapability;
use timely::dataflow::Scope;
use timely::order::Product;
use timely::progress::timestamp::Refines;
use timely::progress::{Antichain, Timestamp};

fn iterate<'s, K: Part, V: Part, T: CTime>(src: CC<'s, K, V, T>, from: bool, f: impl for<'i> FnOnce(Scope<'i, Nest<T>>, CC<'i, K, V, Nest<T>>, CC<'i, K, V, Nest<T>>) -> CC<'i, K, V, Nest<T>>) -> CC<'s, K, V, T>
where Nest<T>: CTime + Timestamp<Summary = Product<T::Summary, u64>> {
    let outer = src.inner.scope();
    outer.iterative::<u64, _, _>(|inner| {
        let s = src.enter(inner);
        let step = Product::new(Default::default(), 1);
        let (var, x) = if from { Variable::new_from(s.clone(), step) } else { Variable::new(inner, step) };
        let r = f(inner, x, s);
        var.set(r.clone());
        r.leave(outer)
    })
}

fn render_loop<'s, K: Part, V: Part, T: CTime>(sim: &Arc<Sim>, l: &simops::dag::Loop, prog: &Prog, src: CC<'s, K, V, T>, edges: CC<'s, K, V, T>) -> CC<'s, K, V, T>
where Nest<T>: CTime + Timestamp<Summary = Product<T::Summary, u64>> {
    let dom = prog.dom;
    match l.kind.clone() {
        LoopKind::Reach { f, via } => {
            let e = distinct(edges);
            iterate(distinct(src), l.arr, move |inner, x, s| distinct(join(arrange(x), arrange(e.enter(inner)), move |k, a, b| f.apply(dom, ((b + k) % dom.nk, a))).concat(if via == 1 { consolidate(s) } else { s })))
        }
        LoopKind::MinProp { inc, .. } => {
            let e = distinct(edges);
            let cap = 15.max(dom.nv);
            iterate(distinct(src), l.arr, move |inner, x, s| least(join(arrange(x), arrange(e.enter(inner)), move |_, a, b| (b % dom.nk, (a + inc).min(cap))).concat(s)))
        }
        LoopKind::Trim { anti } => iterate(distinct(src), true, move |_, x, _| {
            let keys = distinct(fmap(x.clone(), |(k, _)| Some(((k, 0), 1))));
            // Values and keys are both below the domain's bounds, so a row fits in one value.
            let by_val = fmap(x.clone(), move |(k, v)| Some(((v % dom.nk, k * 16 + v), 1)));
            let good = fmap(join(arrange(by_val), arrange(keys), |k, a, _| (k, a)), |(_, p)| Some(((p / 16, p % 16), 1)));
            if anti { consolidate(x.clone().concat(x.concat(good.negate()).negate())) } else { consolidate(good) }
        }),
        LoopKind::Contract { mult } => iterate(if mult { src } else { distinct(src) }, true, |_, x, _| consolidate(fmap(x, |(k, v)| Some(((k, v / 2), 1))))),
        LoopKind::Mutual => {
            let (s, e) = (distinct(src), distinct(edges));
            let outer = s.inner.scope();
            outer.iterative::<u64, _, _>(|inner| {
                let step = || Product::new(Default::default(), 1);
                let (va, a) = Variable::new(inner, step());
                let (vb, b) = Variable::new(inner, step());
                let e = arrange(e.enter(inner));
                let a2 = distinct(join(arrange(scramble(b, sim.clone())), e.clone(), move |_, a, v| (v % dom.nk, a)).concat(s.enter(inner)));
                let b2 = distinct(join(arrange(a), e, move |_, a, v| (v % dom.nk, a)));
                va.set(a2.clone());
                vb.set(b2.clone());
                a2.concat(b2).leave(outer)
            })
        }
        _ => panic!("harness: no nested loops here"),
    }
}
fn thresh(d: isize, k: isize) -> isize { if d >= k { 1 } else if d < 0 { -1 } else { 0 } }

type Nodes<'s, K, V, T> = Vec<CC<'s, K, V, T>>;
type Arrs<'s, K, V, T> = BTreeMap<usize, CArr<'s, K, V, T>>;
fn render<'s, K: Part, V: Part, T: CTime>(sim: &Arc<Sim>, prog: &Prog, mess: u64, inputs: Nodes<'s, K, V, T>) -> (Nodes<'s, K, V, T>, Arrs<'s, K, V, T>)
where Nest<T>: CTime + Timestamp<Summary = Product<T::Summary, u64>> {
    let dom = prog.dom;
    let mut nodes: Nodes<'s, K, V, T> = vec![];
    let mut arrs: Arrs<'s, K, V, T> = BTreeMap::new();
    let exp = |e: ExpFn| move |r| { let (x, m) = e.apply(r); Some((x, m as i64)) };
    for (i, op) in prog.ops.iter().enumerate() {
        let get = |arrs: &mut Arrs<'s, K, V, T>, a: usize| arrs.entry(a).or_insert_with(|| arrange(nodes[a].clone())).clone();
        let c = match op.clone() {
            Op::Input(a) => inputs[a].clone(),
            Op::Map(a, f) | Op::MapInPlace(a, f) => fmap(nodes[a].clone(), move |r| Some((f.apply(dom, r), 1))),
            Op::Filter(a, f) => fmap(nodes[a].clone(), move |r| if f.keep(r) { Some((r, 1)) } else { None }),
            Op::FlatMap(a, f) => fmap(nodes[a].clone(), move |r| f.apply(dom, r).into_iter().map(|r| (r, 1)).collect::<Vec<_>>()),
            Op::Explode(a, e) | Op::JoinFunction(a, e) => fmap(nodes[a].clone(), exp(e)),
            Op::Concat(a, b) => nodes[a].clone().concat(nodes[b].clone()),
            Op::ConcatMany(v) => nodes[v[0]].clone().concatenate(v[1..].iter().map(|i| nodes[*i].clone()).collect::<Vec<_>>()),
            Op::Negate(a) => nodes[a].clone().negate(),
            Op::Join(a, b, f, _) => { let (x, y) = (get(&mut arrs, a), get(&mut arrs, b)); join(x, y, move |k, x, y| f.apply(dom, k, x, y)) }
            Op::Semijoin(a, b) => join(get(&mut arrs, a), arrange(fmap(nodes[b].clone(), |(k, _)| Some(((k, 0), 1)))), |k, x, _| (k, x)),
            Op::Antijoin(a, b) => {
                let keys = arrange(distinct(fmap(nodes[b].clone(), |(k, _)| Some(((k, 0), 1)))));
                nodes[a].clone().concat(join(get(&mut arrs, a), keys, |k, x, _| (k, x)).negate())
            }
            Op::Distinct(a) | Op::DistinctTotal(a) => flat(reduce(get(&mut arrs, a), Via::Plain, |_, i| i.iter().map(|x| (x.0, 1)).collect())),
            Op::Threshold(a, k) | Op::ThresholdTotal(a, k) => flat(reduce(get(&mut arrs, a), Via::Core, move |_, i| i.iter().map(|x| (x.0, thresh(x.1, k))).filter(|x| x.1 != 0).collect())),
            Op::Count(a) | Op::CountTotal(a) => {
                let n = dom.nv;
                let r = flat(reduce(get(&mut arrs, a), Via::Plain, move |_, i| i.iter().map(|x| (x.0 * 1024 + x.1.rem_euclid(n as isize * 2) as u64 % n, 1)).collect()));
                fmap(r, move |(k, p)| Some((((k + p / 1024) % dom.nk, p % 1024), 1)))
            }
            Op::Reduce(a, red, via) => {
                let r = reduce(get(&mut arrs, a), via, move |k, i| red.apply(dom, k, i));
                // The reduction's own output arrangement is shared with later operators.
                if via != Via::Plain { arrs.insert(i, r.clone()); }
                flat(r)
            }
            Op::Consolidate(a) | Op::ConsolidateStream(a) | Op::ArrangeFlat(a) | Op::ArrangeSelf(a) => flat(get(&mut arrs, a)),
            Op::Region(a, f) => {
                let outer = nodes[a].inner.scope();
                let c = nodes[a].clone();
                outer.region(|inner| consolidate(fmap(c.enter_region(inner), move |r| Some((f.apply(dom, r), 1)))).leave_region(outer))
            }
            Op::Loop(l) => render_loop(sim, &l, prog, nodes[l.src].clone(), nodes[l.edges].clone()),
            Op::Delay(..) | Op::Shift(..) | Op::Ext(..) | Op::Semi(..) => panic!("harness: not generated here"),
        };
        nodes.push(if mess >> (i % 64) & 1 == 1 { scramble(c, sim.clone()) } else { c });
    }
    (nodes, arrs)
}

/// One worker's append-only backing file.
struct File { log: Rc<RefCell<Vec<u8>>> }
struct Extent { log: Rc<RefCell<Vec<u8>>>, at: usize, len: usize }
impl BytesStore for File {
    fn store(&mut self, bytes: &[u8]) -> Box<dyn BytesSource> {
        let at = self.log.borrow().len();
        self.log.borrow_mut().extend_from_slice(bytes);
        Box::new(Extent { log: self.log.clone(), at, len: bytes.len() })
    }
}
impl BytesSource for Extent { fn load(&self) -> Vec<u8> { self.log.borrow()[self.at..self.at + self.len].to_vec() } }

trait ColTime: GenTime + CTime + Refines<()> + Sync where Nest<Self>: CTime + Timestamp<Summary = Product<Self::Summary, u64>> {
    fn input<'s, K: Part, V: Part>(scope: Scope<'s, Self>, mode: InMode) -> (ColIn<K, V, Self>, CC<'s, K, V, Self>) {
        let _ = mode;
        let ((h, cap), stream) = scope.new_unordered_input::<ColBuilder<U<K, V, Self>>>();
        (ColIn::Unordered(h, vec![Some(cap)]), stream.as_collection())
    }
}
impl ColTime for Pair { }
impl ColTime for Trip { }
impl ColTime for u64 {
    fn input<'s, K: Part, V: Part>(scope: Scope<'s, Self>, mode: InMode) -> (ColIn<K, V, Self>, CC<'s, K, V, Self>) {
        match mode {
            InMode::Session => {
                let mut h = InputHandle::<u64, ColBuilder<U<K, V, u64>>>::new_with_builder();
                let c = h.to_stream(scope).as_collection();
                (ColIn::Handle(Some(h), Box::new(|h, a| match a {
                    Act::Upd { row, diff, time, .. } => h.send((&K::enc(row.0), &V::enc(row.1), time, &(*diff as i64))),
                    Act::Adv { time, .. } => h.advance_to(*time),
                    _ => h.flush(),
                })), c)
            }
            InMode::Unordered => {
                let ((h, cap), stream) = scope.new_unordered_input::<ColBuilder<U<K, V, u64>>>();
                (ColIn::Unordered(h, vec![Some(cap)]), stream.as_collection())
            }
        }
    }
}
type HandleOf<K, V> = InputHandle<u64, ColBuilder<U<K, V, u64>>>;
enum ColIn<K: Part, V: Part, T: CTime> {
    Handle(Option<HandleOf<K, V>>, Box<dyn Fn(&mut HandleOf<K, V>, &Act<u64>)>),
    Unordered(UnorderedHandle<T, ColBuilder<U<K, V, T>>>, Vec<Option<ActivateCapability<T>>>),
}
impl<K: Part, V: Part, T: GenTime + CTime> ColIn<K, V, T> {
    fn apply(&mut self, a: &Act<T>) {
        match (self, a) {
            (ColIn::Handle(h, f), a) => f(h.as_mut().unwrap(), (a as &dyn std::any::Any).downcast_ref::<Act<u64>>().unwrap()),
            (ColIn::Unordered(h, caps), Act::Upd { row, diff, cap, time, .. }) => h.activate().session_with_builder(caps[*cap].as_ref().unwrap()).give((&K::enc(row.0), &V::enc(row.1), time, &(*diff as i64))),
            (ColIn::Unordered(_, caps), Act::Hold { from, time, .. }) => { let c = caps[*from].as_ref().unwrap().delayed(time); caps.push(Some(c)); }
            (ColIn::Unordered(_, caps), Act::Release { cap, .. }) => caps[*cap] = None,
            _ => { }
        }
    }
    fn finish(&mut self) {
        match self {
            ColIn::Handle(h, _) => h.as_mut().unwrap().advance_to(u64::fin()),
            ColIn::Unordered(_, caps) => { let c = caps.iter().flatten().next().unwrap().delayed(&T::fin()); caps.clear(); caps.push(Some(c)); }
        }
    }
    fn close(&mut self) { match self { ColIn::Handle(h, _) => *h = None, ColIn::Unordered(_, caps) => caps.clear() } }
}

fn capture<K: Part, V: Part, T: CTime + SimTime>(c: CC<'_, K, V, T>, out: &Out<Row, T, isize>, ctx: &Ctx, probe: &ProbeHandle<T>) {
    let (sim, out, index) = (ctx.sim.clone(), out.clone(), ctx.index);
    c.inner.unary::<timely::container::NoopBuilder<RecordedUpdates<U<K, V, T>>>, _, _, _>(Pipeline, "Capture", move |_, _| move |input, output| {
        input.for_each(|cap, data| {
            for (k, v, t, d) in data.updates.view().iter() {
                let (row, t, d) = ((K::into_owned(k).dec(), V::into_owned(v).dec()), T::into_owned(t), i64::into_owned(d));
                sim.check(cap.time().less_equal(&t), "captime", || format!("output '{}': update ({row:?}, {t:?}, {d}) travels with a capability for {:?}", out.name, cap.time()));
                out.push(&sim, index, row, t, d as isize);
            }
            output.session_with_builder(&cap).give_container(data);
        })
    }).probe_with(probe);
}

/// A handle to one node's arrangement, and how far its holder has let it be compacted.
struct Reader<K: Part, V: Part, T: CTime> { node: usize, trace: TraceAgent<Spine<K, V, T, i64>>, since: Antichain<T> }

/// Reads this worker's part of an arrangement at one complete time, whole or by seeking, and compares.
fn read<K: Part, V: Part, T: GenTime + CTime>(r: &mut Reader<K, V, T>, ctx: &Ctx, times: &[T], want: &BTreeMap<(usize, T), BTreeMap<Row, isize>>) {
    let sim = &ctx.sim;
    let mut upper = Antichain::new();
    r.trace.read_upper(&mut upper);
    // Either everything, or what is below an earlier frontier of whole batches.
    let ok: Vec<&T> = times.iter().filter(|t| !upper.less_equal(t) && r.since.less_equal(t)).collect();
    if ok.is_empty() { return; }
    let t = ok[sim.gen(ok.len() as u64) as usize];
    let w: BTreeMap<Row, i64> = want[&(r.node, t.clone())].iter().filter(|((k, _), _)| route(*k) % ctx.peers as u64 == ctx.index as u64).map(|(r, d)| (*r, *d as i64)).collect();
    let (mut c, st) = r.trace.cursor();
    let mut got: BTreeMap<Row, i64> = BTreeMap::new();
    let how = sim.gen(3);
    if how < 2 {
        // Twice over: the second pass reads whatever the first fetched.
        for _ in 0..=how {
            got.clear();
            c.rewind_keys(&st);
            while c.key_valid(&st) {
                let k = K::into_owned(c.key(&st)).dec();
                while c.val_valid(&st) {
                    let v = V::into_owned(c.val(&st)).dec();
                    let mut n = 0;
                    c.map_times(&st, |u, d| if T::into_owned(u).less_equal(t) { n += i64::into_owned(d) });
                    *got.entry((k, v)).or_insert(0) += n;
                    c.step_val(&st);
                }
                c.step_key(&st);
            }
            got.retain(|_, d| *d != 0);
            sim.check(got == w, "read", || format!("worker {} reads node n{} at {t:?} (compacted to {:?}): {}", ctx.index, r.node, r.since.elements(), diff_text(&w.iter().map(|(r, d)| (*r, *d as isize)).collect(), &got)));
        }
        sim.count("check.scans");
    } else {
        use columnar::{Borrow, Index};
        let mut rows: Vec<Row> = w.keys().cloned().collect();
        for _ in 0..sim.gen(4) { rows.push((sim.gen(14), sim.gen(14))); }
        rows.sort();
        rows.dedup();
        rows.retain(|_| sim.gen(3) > 0);
        for row in rows {
            let (k, v) = (K::enc(row.0), V::enc(row.1));
            let (kc, vc) = (K::as_columns([&k].into_iter()), V::as_columns([&v].into_iter()));
            c.seek_key(&st, kc.borrow().get(0));
            let mut n = 0;
            if c.get_key(&st).map(|x| K::into_owned(x)) == Some(k) {
                c.seek_val(&st, vc.borrow().get(0));
                if c.get_val(&st).map(|x| V::into_owned(x)) == Some(v) { c.map_times(&st, |u, d| if T::into_owned(u).less_equal(t) { n += i64::into_owned(d) }); }
            }
            let e = w.get(&row).copied().unwrap_or(0);
            sim.check(n == e, "read", || format!("worker {} seeks {row:?} in node n{} at {t:?} (compacted to {:?}): expected {e}, read {n}", ctx.index, r.node, r.since.elements()));
            sim.count("check.seeks");
        }
    }
    // Let the arrangement be compacted to the time just read, or further.
    match sim.gen(4) {
        0 => { let f = r.since.iter().map(|s| s.join(t)).collect::<Vec<_>>(); let f = Antichain::from(f); r.trace.set_logical_compaction(f.borrow()); r.since = f; }
        1 => r.trace.set_physical_compaction(upper.borrow()),
        _ => { }
    }
}

const BUDGETS: [usize; 6] = [0, 1, 8, 30, 100, 100_000];

fn run<K: Part, V: Part, T: ColTime>(sim: &Arc<Sim>, mix: Mix, acts: u64) where Nest<T>: CTime + Timestamp<Summary = Product<T::Summary, u64>> {
    let (peers, config) = knobs(sim);
    if mix.big { simops::drive::wide(); }
    let inputs = 1 + sim.genw(&[3, 4, 2]);
    let prog = Prog::generate(sim, inputs, mix);
    let mess: u64 = match sim.genw(&[2, 1, 1]) { 0 => 0, 1 => sim.gen(1 << 20) << 1 | 1, _ => u64::MAX };
    // At most one change of the spilling policy is planned per worker, plus the initial one.
    let plan: Vec<(Option<usize>, Vec<(u64, Option<usize>)>)> = (0..peers).map(|_| {
        let b = |s: &Sim| if s.faultw(&[2, 3]) == 0 { None } else { Some(BUDGETS[s.fault(6) as usize]) };
        (b(sim), (0..sim.fault(4)).map(|_| (1 + sim.fault(200), b(sim))).collect())
    }).collect();
    sim.describe(format!("key {} value {} time {}; scrambled {mess:x}; spilling {plan:?}", std::any::type_name::<K>(), std::any::type_name::<V>(), std::any::type_name::<T>()));
    sim.describe(format!("program {}", prog.summary()));
    let load = Load { acts: if mix.big { 12 } else { acts }, nk: prog.dom.nk, nv: prog.dom.nv, big: mix.big };
    let (mut script, hist) = Script::<T>::generate(sim, peers, inputs, &load);
    script.quiet(sim);
    sim.describe(format!("inputs {:?}, {} updates", script.modes, hist.len()));
    for (w, a) in script.acts.iter().enumerate() { sim.note(|| format!("script w{w}: {a:?}")); }
    let outs: Vec<Out<Row, T, isize>> = prog.outputs.iter().map(|o| Out::new(&format!("n{o}"), peers)).collect();
    // Contents of every node at the times it may be read at.
    let mut ev = Eval::new(&prog, &hist);
    let mut times: Vec<T> = hist.iter().map(|h| h.2.clone()).collect();
    times.push(T::minimum());
    let times = probe_times(times, 12, true);
    let mut want = BTreeMap::new();
    for n in 0..prog.ops.len() { for t in times.iter() { want.insert((n, t.clone()), ev.at(n, t)); } }
    let prog = Arc::new(prog);
    let shared = Arc::new((script, want, times, plan));
    {
        let (prog, outs) = (prog.clone(), outs.clone());
        sim.run_workers(peers, config, move |worker, ctx| {
            let (script, want, times, plan) = &*shared;
            let stats = Arc::new(SpillStats::default());
            let set = |b: Option<usize>| match b {
                None => spill::uninstall(),
                Some(b) => { ctx.sim.count("fault.spill_policy"); spill::install(b, Box::new(File { log: Default::default() }), stats.clone()) }
            };
            let (first, later) = &plan[ctx.index];
            set(*first);
            let probes: Vec<ProbeHandle<T>> = outs.iter().map(|_| ProbeHandle::new()).collect();
            let (mut ins, mut readers) = worker.dataflow(|scope| {
                let (ins, colls): (Vec<ColIn<K, V, T>>, Vec<_>) = script.modes.iter().map(|m| T::input(scope, *m)).unzip();
                let (nodes, arrs) = render(&ctx.sim, &prog, mess, colls);
                for ((o, out), p) in prog.outputs.iter().zip(outs.iter()).zip(probes.iter()) { capture(nodes[*o].clone(), out, ctx, p); }
                let readers: Vec<Reader<K, V, T>> = arrs.into_iter().filter(|(n, _)| n % 3 != 2).map(|(node, a)| Reader { node, trace: a.trace.clone(), since: Antichain::from_elem(T::minimum()) }).collect();
                (ins, readers)
            });
            let mut steps = 0u64;
            let each = |steps: &mut u64, readers: &mut Vec<Reader<K, V, T>>, sparse: u64| {
                *steps += 1;
                for (at, b) in later { if at == steps { set(*b); } }
                observe(&probes, &outs, ctx);
                if !readers.is_empty() && ctx.sim.gen(sparse) == 1 {
                    let i = ctx.sim.gen(readers.len() as u64) as usize;
                    read(&mut readers[i], ctx, times, want);
                    if ctx.sim.gen(12) == 1 { readers.swap_remove(i); }
                }
            };
            for a in script.acts[ctx.index].iter() {
                match a {
                    Act::Work => ctx.some_steps(worker, |_| each(&mut steps, &mut readers, 4)),
                    Act::Quiet(to) => {
                        for (n, i) in ins.iter_mut().enumerate() { i.apply(&Act::Flush { input: n }); }
                        caught_up(ctx, worker, to, &probes, || each(&mut steps, &mut readers, 10));
                    }
                    a => { ctx.sim.note(|| format!("w{} {a:?}", ctx.index)); ins[a.input().unwrap()].apply(a); }
                }
            }
            for i in ins.iter_mut() { i.finish(); }
            ctx.script_done();
            ctx.settle(worker, "advanced", |_| { each(&mut steps, &mut readers, 40); probes.iter().all(|p| !p.less_than(&T::fin())) });
            for r in readers.iter_mut() { read(r, ctx, times, want); }
            readers.clear();
            for i in ins.iter_mut() { i.close(); }
            ctx.settle(worker, "shutdown", |w| { observe(&probes, &outs, ctx); !w.has_dataflows() });
            ctx.sim.count_n("fault.chunks_spilled", stats.spilled_chunks.load(Relaxed) as u64);
            ctx.sim.count_n("fault.chunks_fetched", stats.fetched_chunks.load(Relaxed) as u64);
            spill::uninstall();
        });
    }
    if hist.len() > 1 { sim.nontrivial(); }
    sim.count_n("work.updates", hist.len() as u64);
    for (o, out) in prog.outputs.iter().zip(outs.iter()) {
        sim.count_n("work.outputs", out.len() as u64);
        let mut ts: Vec<T> = hist.iter().map(|h| h.2.clone()).collect();
        ts.push(T::minimum());
        let base = ts.clone();
        ts.extend(out.times());
        let mut ts = probe_times(ts, 60, true);
        if ts.len() >= 60 { ts.extend(probe_times(base, 60, false)); }
        ts.push(T::fin());
        for t in ts {
            let want = ev_at(&prog, &hist, *o, &t);
            let got = out.at(&t);
            if want.len() != got.len() || want.iter().any(|(r, d)| got.get(r) != Some(&(*d as i64))) {
                sim.violate("exactness", format!("node n{o} ({:?}) at time {t:?}: {}", prog.ops[*o], diff_text(&want, &got)));
            }
            sim.count("check.times");
        }
    }
}
fn ev_at<T: SimTime>(prog: &Prog, hist: &simops::dag::History<T>, n: usize, t: &T) -> simops::dag::Bag { Eval::new(prog, hist).at(n, t) }

struct KP<K, V>(std::marker::PhantomData<(K, V)>);
impl<K: Part, V: Part> simops::tracing::Shape for KP<K, V> {
    type K = K; type V = V; type R = i64;
    fn row(k: &K, v: &V) -> Row { (k.clone().dec(), v.clone().dec()) }
    fn key(r: Row) -> K { K::enc(r.0) }
    fn val(r: Row) -> V { V::enc(r.1) }
    fn diff(r: &i64) -> i64 { *r }
    fn of(r: i64) -> i64 { r }
}
/// A columnar trace on its own, with memory budgets changing at any moment.
fn direct<K: Part, V: Part, T: GenTime + CTime>(sim: &Arc<Sim>) {
    let _ = knobs(sim);
    let stats = Arc::new(SpillStats::default());
    let policy = sim.genw(&[1, 1, 2]);
    let set = || match sim.gen(4) { 0 => spill::uninstall(), n => { sim.count("fault.spill_policy"); spill::install([1, 5, 40][n as usize - 1], Box::new(File { log: Default::default() }), stats.clone()) } };
    if policy > 0 { set(); }
    let each = || if policy == 2 && sim.gen(5) == 0 { set() };
    let how = sim.gen(3);
    if sim.gen(4) == 0 {
        simops::tracing::direct::<T, KP<K, V>, ContainerChunker<ColChunk<U<K, V, T>>>, Batcher<K, V, T, i64>, Builder<K, V, T, i64>, Spine<K, V, T, i64>>(sim, false, |c, v| c.push_into(v), each);
    } else {
        simops::tracing::direct::<T, KP<K, V>, Chunker<U<K, V, T>>, Batcher<K, V, T, i64>, Builder<K, V, T, i64>, Spine<K, V, T, i64>>(sim, false, |c, v| {
            let records = v.len();
            let mut trie = UpdatesTyped::<U<K, V, T>>::default();
            for u in v.drain(..) { trie.push_into(u); }
            let consolidated = how == 0 || how == 1 && sim.gen(2) == 0;
            if consolidated { trie = trie.consolidate(); }
            c.push_into(&mut RecordedUpdates { updates: trie.into(), records, consolidated });
        }, each);
    }
    spill::uninstall();
    sim.count_n("work.spilled", stats.spilled_chunks.load(Relaxed) as u64);
    sim.count_n("work.fetched", stats.fetched_chunks.load(Relaxed) as u64);
}

fn c13(s: &Arc<Sim>) {
    if s.genw(&[4, 1]) == 1 {
        return match s.gen(6) { 0 | 1 => direct::<u64, u64, u64>(s), 2 => direct::<u64, u64, Pair>(s), 3 => direct::<String, (u64, String), u64>(s), 4 => direct::<Vec<u8>, String, Pair>(s), _ => direct::<u64, String, Trip>(s) };
    }
    let _ = Red::Min;
    let flat = Mix { loops: false, nested: false, total: false, delay: false, max_ops: 5, ext: 0, force_loop: false, force_reduce: false, big: false };
    let mix = match s.genw(&[5, 2, 2]) { 0 => flat, 1 => Mix { loops: true, max_ops: 3, force_loop: true, ..flat }, _ => Mix { force_reduce: true, ..flat } };
    // Wide keys or values and large batches, now and then.
    let mix = if !mix.loops && s.chance(1, 10) { Mix { big: true, max_ops: 4, ..mix } } else { mix };
    // Long scripts make batches of many chunks.
    let acts = match s.genw(&[3, 2, 1]) { 0 => 24, 1 => 50, _ => if mix.force_loop { 30 } else { 120 } };
    match s.genw(&[4, 2, 2, 2, 2]) {
        4 => run::<u64, u64, Trip>(s, Mix { loops: false, force_loop: false, ..mix }, acts.min(36)),
        0 => run::<u64, u64, u64>(s, mix, acts),
        1 => run::<u64, u64, Pair>(s, mix, acts.min(30)),
        2 => run::<String, (u64, String), u64>(s, mix, acts),
        _ => run::<Vec<u8>, String, Pair>(s, mix, acts.min(30)),
    }
}

fn main() {
    simcore::main(&[Check {
        id: "C13", scenario: c13, quick_runs: 60_000, thorough_secs: 600, level: "exploration",
        rule: "One case = one seeded run: a random program over columnar collections (fixed and variable width keys and values, totally and partially ordered times, loops), random input histories split among 1-4 workers, random spilling budgets installed, changed and removed at random steps, random configuration, schedule, deliveries and faults; in a fifth of the runs, a columnar trace on its own (as in C04) under changing budgets. Nontrivial = the history has at least two updates; distinct = distinct hash of the event sequence. Checked: every captured output accumulates at every probed time to the program evaluated from scratch; reads of the columnar traces by scan or by seeks, at random moments and complete times, equal that worker's share of the contents; progress and shutdown",
        real: &["differential-dataflow columnar collections, batchers, spines, cursors, spill policy and codec (all of /repo/differential-dataflow/src/columnar and trace/chunk)", "timely workers, progress tracking, exchange channels, serialization of exchanged batches"],
        stub: &["thread scheduling (baton-passing scheduler)", "delivery of bytes between workers (simulated network through timely's spill policy seam)", "the backing file of spilled chunks (in memory, behind BytesStore)", "clock_gettime and getrandom (virtual clock, seeded bytes)"],
        assumptions: &["the reference evaluator in /verif/sim/ops/src/dag.rs states the intended meaning of each operator", "the backing store returns the bytes it was given; BytesSource documents that a failed load panics"],
    }]);
}
