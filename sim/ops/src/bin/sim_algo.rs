//! The library's graph and sequence algorithms against direct evaluation at every time (C19).
use differential_dataflow::algorithms::graphs::{bfs, bijkstra, propagate, scc, sequential};
use differential_dataflow::algorithms::identifiers::Identifiers;
use differential_dataflow::algorithms::prefix_sum::PrefixSum;
use differential_dataflow::VecCollection;
use serde::{Deserialize, Serialize};
use simcore::{Check, Out, Sim};
use simops::dag::{add, Bag, Coll, Row};
use simops::drive::{capture, diff_text, drive, knobs, probe_times, GenTime, Input, Load, Script};
use simops::pair::{Pair, Trip};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use timely::dataflow::operators::probe::Handle as ProbeHandle;
use timely::progress::timestamp::Refines;

/// How often a record of the input counts: once if it is there at all, or as often as it is there.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Norm { Set, Counts }
#[derive(Clone, Copy, Debug)]
enum Delay { None, Label, Log }
impl Delay { fn at(self, l: u64) -> u64 { match self { Delay::None => 0, Delay::Label => l, Delay::Log => 1 << (2 * (l % 5)) } } }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Rule { Color, Mis, Mix }

#[derive(Clone, Copy, Debug)]
enum Algo {
    Bfs { edges: Norm, roots: Norm, shared: bool },
    Propagate { edges: Norm, nodes: Norm, delay: Option<Delay>, all: bool },
    Scc { norm: Norm, delay: Option<Delay> },
    BiDijkstra { edges: Norm, shared: bool },
    Sequence { symmetric: bool, edges: Norm, rule: Rule },
    Identifiers { classes: u64 },
    /// Positions may be far apart, and sums may be asked for at other positions.
    Prefix { far: bool, keys: u64, at: Option<Norm> },
}

/// A record that the hasher sees little of.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
struct Weak { class: u8, row: Row }
impl Hash for Weak { fn hash<H: Hasher>(&self, h: &mut H) { self.class.hash(h) } }

const FAR: [usize; 8] = [0, 1, 6, 1 << 20, (1 << 32) + 5, (1 << 63) - 1, 1 << 63, usize::MAX];
fn pos(far: bool, x: u64) -> usize { if far { FAR[x as usize % 8] } else { x as usize } }
/// Affine maps compose associatively but not commutatively; the key says in which order.
const ONE: (u64, u64) = (1, 0);
fn compose(key: u64, x: (u64, u64), y: (u64, u64)) -> (u64, u64) {
    let (f, g) = if key == 0 { (x, y) } else { (y, x) };
    (f.0 * g.0 % 251, (f.0 * g.1 + f.1) % 251)
}
fn logic(rule: Rule, n: u64, vals: &[(u64, isize)]) -> u64 {
    match rule {
        Rule::Color => (1u64..).find(|i| vals.iter().all(|v| v.0 != *i)).unwrap(),
        Rule::Mis => if vals.iter().any(|v| v.0 == 1) { 0 } else { 1 },
        Rule::Mix => vals.iter().fold(n, |h, (v, c)| (h * 31 + v * 7 + *c as u64) % 61),
    }
}

type G = BTreeMap<u64, BTreeSet<u64>>;
fn graph(e: &Bag) -> G { let mut g = G::new(); for (a, b) in e.keys() { g.entry(*a).or_default().insert(*b); } g }
fn dists(g: &G, from: u64) -> BTreeMap<u64, u64> {
    let mut d = BTreeMap::from([(from, 0)]);
    let mut q = VecDeque::from([from]);
    while let Some(n) = q.pop_front() { let k = d[&n]; for m in g.get(&n).into_iter().flatten() { if !d.contains_key(m) { d.insert(*m, k + 1); q.push_back(*m); } } }
    d
}
fn norm_bag(n: Norm, b: &Bag) -> Bag { b.iter().filter(|(_, d)| **d > 0).map(|(r, d)| (*r, if n == Norm::Set { 1 } else { *d })).collect() }
fn fst(n: Norm, b: &Bag) -> Bag { let mut o = Bag::new(); for ((k, _), d) in b { add(&mut o, (*k, 0), *d as isize); } norm_bag(n, &o) }
fn norm<'s, T: GenTime>(n: Norm, c: Coll<'s, T>) -> Coll<'s, T> { c.threshold(move |_, d| if *d > 0 { if n == Norm::Set { 1 } else { *d } } else { 0 }) }

impl Algo {
    fn generate(s: &Sim) -> Algo {
        let n = |s: &Sim| if s.gen(3) == 0 { Norm::Counts } else { Norm::Set };
        let delay = |s: &Sim| match s.gen(4) { 0 => None, 1 => Some(Delay::None), 2 => Some(Delay::Label), _ => Some(Delay::Log) };
        match s.genw(&[3, 3, 3, 3, 3, 2, 1]) {
            0 => Algo::Bfs { edges: n(s), roots: n(s), shared: s.gen(2) == 0 },
            1 => Algo::Propagate { edges: n(s), nodes: n(s), delay: delay(s), all: s.gen(2) == 0 },
            2 => Algo::Scc { norm: n(s), delay: delay(s) },
            3 => Algo::BiDijkstra { edges: n(s), shared: s.gen(2) == 0 },
            4 => Algo::Sequence { symmetric: s.gen(2) == 0, edges: n(s), rule: [Rule::Color, Rule::Mis, Rule::Mix][s.gen(3) as usize] },
            5 => Algo::Identifiers { classes: 1 + s.gen(4) },
            _ => Algo::Prefix { far: s.gen(2) == 0, keys: 1 + s.gen(2), at: match s.gen(3) { 0 => None, 1 => Some(Norm::Set), _ => Some(Norm::Counts) } },
        }
    }
    /// The answer for accumulated inputs, as rows; identifiers are judged by `judge_ids`.
    fn eval(&self, a: &Bag, b: &Bag) -> Bag {
        let mut o = Bag::new();
        match *self {
            Algo::Bfs { edges, roots, .. } => {
                let g = graph(&norm_bag(edges, a));
                let mut best: BTreeMap<u64, u64> = BTreeMap::new();
                for r in fst(roots, b).keys() { for (n, d) in dists(&g, r.0) { let e = best.entry(n).or_insert(d); *e = (*e).min(d); } }
                for (n, d) in best { o.insert((n, d), 1); }
            }
            Algo::Propagate { edges, nodes, all, .. } => {
                let g = graph(&norm_bag(edges, a));
                let mut best: BTreeMap<u64, u64> = BTreeMap::new();
                let start: Vec<Row> = if all { g.iter().flat_map(|(a, bs)| bs.iter().chain([a])).map(|n| (*n, *n)).collect() } else { norm_bag(nodes, b).keys().cloned().collect() };
                for (n, l) in start { for m in dists(&g, n).keys() { let e = best.entry(*m).or_insert(l); *e = (*e).min(l); } }
                for (n, l) in best { o.insert((n, l), 1); }
            }
            Algo::Scc { norm, .. } => {
                let e = norm_bag(norm, a);
                let g = graph(&e);
                for ((x, y), d) in e { if dists(&g, y).contains_key(&x) { o.insert((x, y), d); } }
            }
            Algo::BiDijkstra { edges, .. } => {
                let g = graph(&norm_bag(edges, a));
                for (x, y) in norm_bag(Norm::Set, b).keys() { if let Some(d) = dists(&g, *x).get(y) { o.insert((x * 16 + y, *d), 1); } }
            }
            Algo::Sequence { symmetric, edges, rule } => {
                let mut e = norm_bag(edges, a);
                if symmetric { for (x, y) in e.clone().keys() { if !e.contains_key(&(*y, *x)) { e.insert((*y, *x), 0); } e.insert((*x, *y), 1); } for d in e.values_mut() { *d = 1; } }
                let state = norm_bag(Norm::Set, b);
                let nodes: BTreeSet<u64> = e.keys().flat_map(|(x, y)| [*x, *y]).collect();
                let mut new: BTreeMap<u64, u64> = BTreeMap::new();
                for n in nodes {
                    let mut m: BTreeMap<u64, isize> = BTreeMap::new();
                    for ((x, y), d) in &e {
                        if *y != n { continue; }
                        if *x < n { if let Some(v) = new.get(x) { *m.entry(*v).or_insert(0) += *d as isize; } }
                        if *x > n { for ((k, v), c) in &state { if k == x { *m.entry(*v).or_insert(0) += *c as isize * *d as isize; } } }
                    }
                    if !m.is_empty() { new.insert(n, logic(rule, n, &m.into_iter().collect::<Vec<_>>())); }
                }
                for (n, v) in new { o.insert((n, v + 1), 1); }
            }
            Algo::Prefix { keys, far, at } => {
                let mut elems: BTreeMap<(u64, usize), (u64, u64)> = BTreeMap::new();
                for (x, y) in norm_bag(Norm::Set, a).keys() {
                    let v = (1 + *y, *x + 3);
                    let e = elems.entry((*y % keys, pos(far, *x))).or_insert(v);
                    *e = (*e).min(v);
                }
                let at: BTreeMap<(u64, usize), isize> = match at {
                    None => elems.keys().map(|k| (*k, 1)).collect(),
                    Some(n) => { let mut m = BTreeMap::new(); for ((x, y), d) in norm_bag(n, b) { *m.entry((y % keys, pos(far, x))).or_insert(0) += d; } m }
                };
                for ((k, p), d) in at {
                    let sum = elems.range((k, 0)..(k, p)).fold(ONE, |s, (_, v)| compose(k, s, *v));
                    add(&mut o, pack(p, k, sum), d);
                }
            }
            Algo::Identifiers { .. } => unreachable!(),
        }
        o
    }
}
fn pack(p: usize, k: u64, v: (u64, u64)) -> Row { (p as u64, (k << 32) | (v.0 << 16) | v.1) }

trait Root: GenTime + Hash + Refines<()> + Sync { }
impl Root for u64 { }
impl Root for Pair { }
impl Root for Trip { }

fn build<'s, T: Root>(algo: Algo, a: Coll<'s, T>, b: Coll<'s, T>) -> Coll<'s, T> {
    match algo {
        Algo::Bfs { edges, roots, shared } => {
            let (e, r): (_, VecCollection<'s, T, u64>) = (norm(edges, a), norm(roots, b.map(|(k, _)| (k, 0))).map(|r| r.0));
            (if shared { bfs::bfs_arranged(e.arrange_by_key(), r) } else { bfs::bfs(e, r) }).map(|(n, d)| (n, d as u64))
        }
        Algo::Propagate { edges, nodes, delay, all } => {
            let e = norm(edges, a);
            let n = if all { e.clone().flat_map(|(x, y)| [(x, x), (y, y)]) } else { norm(nodes, b) };
            match delay { None => propagate::propagate(e, n), Some(d) => propagate::propagate_at(e, n, move |l| d.at(*l)) }
        }
        Algo::Scc { norm: n, delay } => { let e = norm(n, a); match delay { None => scc::strongly_connected(e), Some(d) => scc::strongly_connected_at(e, move |l| d.at(*l)) } }
        Algo::BiDijkstra { edges, shared } => {
            let (e, g) = (norm(edges, a), norm(Norm::Set, b));
            (if shared { bijkstra::bidijkstra_arranged(e.clone().arrange_by_key(), e.map(|(x, y)| (y, x)).arrange_by_key(), g) } else { bijkstra::bidijkstra(e, g) })
                .map(|((x, y), d)| (x * 16 + y, d as u64))
        }
        Algo::Sequence { symmetric, edges, rule } => {
            let e = norm(edges, a);
            let e = if symmetric { e.clone().map(|(x, y)| (y, x)).concat(e).distinct() } else { e };
            sequential::sequence(norm(Norm::Set, b), e, move |n, vals| logic(rule, *n, &vals.iter().map(|(v, c)| (**v, *c)).collect::<Vec<_>>())).map(|(n, v)| (n, v.map(|x| x + 1).unwrap_or(0)))
        }
        Algo::Prefix { far, keys, at } => {
            let elems: VecCollection<'s, T, ((usize, u64), (u64, u64))> = norm(Norm::Set, a).map(move |(x, y)| ((pos(far, x), y % keys), (1 + y, x + 3))).reduce(|_, i, o| o.push((*i[0].0, 1)));
            let f = |k: &u64, x: &(u64, u64), y: &(u64, u64)| compose(*k, *x, *y);
            (match at { None => elems.prefix_sum(ONE, f), Some(n) => elems.prefix_sum_at(norm(n, b).map(move |(x, y)| (pos(far, x), y % keys)), ONE, f) }).map(|((p, k), v)| pack(p, k, v))
        }
        Algo::Identifiers { classes } => norm(Norm::Counts, a).map(move |row| Weak { class: ((row.0 + row.1) % classes) as u8, row }).identifiers().map(|(w, id)| (w.row.0 * 64 + w.row.1, id)),
    }
}

fn run<T: Root>(sim: &Arc<Sim>) {
    let (peers, config) = knobs(sim);
    let algo = Algo::generate(sim);
    let nk = if let Algo::Prefix { .. } = algo { 8 } else { [3, 4, 6, 8][sim.gen(4) as usize] };
    sim.describe(format!("time {} {algo:?} over {nk} nodes", std::any::type_name::<T>()));
    let load = Load { acts: match (T::UNORDERED_ONLY, algo) { (_, Algo::Prefix { .. }) => 8, (true, _) => 16, _ => 28 }, nk, nv: nk, big: false };
    let (mut script, hist) = Script::<T>::generate(sim, peers, 2, &load);
    script.quiet(sim);
    sim.describe(format!("inputs {:?}, {} updates", script.modes, hist.len()));
    for (w, a) in script.acts.iter().enumerate() { sim.note(|| format!("script w{w}: {a:?}")); }
    let base: Vec<T> = hist.iter().map(|h| h.2.clone()).chain([T::minimum()]).collect();
    let accum = |i: usize, t: &T| { let mut o = Bag::new(); for (j, r, u, d) in &hist { if i == *j && u.less_equal(t) { add(&mut o, *r, *d); } } o };
    let shared = Arc::new(script);
    let out: Out<Row, T, isize> = Out::new("result", peers);
    {
        let out = out.clone();
        sim.run_workers(peers, config, move |worker, ctx| {
            let p: ProbeHandle<T> = ProbeHandle::new();
            let mut ins = worker.dataflow(|scope| {
                let (ins, mut colls): (Vec<Input<T>>, Vec<_>) = shared.modes.iter().map(|m| Input::new(scope, *m)).unzip();
                let b = colls.remove(1);
                capture(build(algo, colls.remove(0), b), &out, ctx, &p);
                ins
            });
            drive(worker, ctx, &shared.acts[ctx.index], &mut ins, &[p], std::slice::from_ref(&out));
        });
    }
    let mut ts = probe_times(base.iter().cloned().chain(out.times()).collect(), 50, true);
    if ts.len() >= 50 { ts.extend(probe_times(base.clone(), 50, false)); }
    ts.push(T::fin());
    for t in ts {
        let got = out.at(&t);
        let (a, b) = (accum(0, &t), accum(1, &t));
        if let Algo::Identifiers { .. } = algo {
            // One identifier for each record, whichever it is, and none for two.
            let (want, mut back) = (norm_bag(Norm::Counts, &a), Bag::new());
            let mut ids: BTreeMap<u64, Row> = BTreeMap::new();
            for ((w, id), d) in &got {
                let row = (w / 64, w % 64);
                add(&mut back, row, *d as isize);
                if let Some(x) = ids.insert(*id, row) { sim.violate("identifier", format!("at time {t:?} {row:?} and {x:?} share identifier {id}")); }
            }
            if back != want || got.len() != want.len() { sim.violate("exactness", format!("identified records at time {t:?}: want {want:?}, got {back:?} ({} identifiers for {} records)", got.len(), want.len())); }
        } else {
            let w = algo.eval(&a, &b);
            if w.len() != got.len() || w.iter().any(|(r, d)| got.get(r) != Some(&(*d as i64))) { sim.violate("exactness", format!("{algo:?} at time {t:?}: {}", diff_text(&w, &got))); }
        }
        sim.count("check.times");
    }
    sim.count_n("work.outputs", out.len() as u64);
    let kind = format!("{algo:?}").split([' ', '{']).next().unwrap().to_lowercase();
    sim.count(match kind.as_str() { "bfs" => "algo.bfs", "propagate" => "algo.propagate", "scc" => "algo.scc", "bidijkstra" => "algo.bidijkstra", "sequence" => "algo.sequence", "identifiers" => "algo.identifiers", _ => "algo.prefix" });
    if hist.len() > 1 { sim.nontrivial(); }
    sim.count_n("work.updates", hist.len() as u64);
}

fn c19(s: &Arc<Sim>) { match s.genw(&[5, 3, 1]) { 0 => run::<u64>(s), 1 => run::<Pair>(s), _ => run::<Trip>(s) } }

fn main() {
    simcore::main(&[Check {
        id: "C19", scenario: c19, quick_runs: 30_000, thorough_secs: 600, level: "exploration",
        rule: "One case = one seeded run: one of the library's algorithms (breadth-first distances, label propagation with and without staged labels, strongly connected components, bidirectional search, sequential update, identifiers over a weakly hashed record, prefix sums at near and far positions) over random histories of insertions and deletions of edges, roots, labels, goals, states, elements or positions, at totally and partially (two- and three-dimensional) ordered times, split among 1-4 workers, with random configuration, schedule, deliveries and faults. Nontrivial = the history has at least two updates; distinct = distinct hash of the event sequence. Checked: at every probed time the accumulated result is the answer computed directly from the accumulated inputs (identifiers: one per record, none shared), times reported complete are exact and stay so, every phase completes, and dataflows shut down",
        real: &["differential-dataflow algorithms and the operators, iteration and arrangements under them", "timely workers, progress tracking, exchange channels"],
        stub: &["thread scheduling (baton-passing scheduler)", "delivery of bytes between workers (simulated network through timely's spill policy seam)", "clock_gettime and getrandom (virtual clock, seeded bytes)"],
        assumptions: &["inputs are non-negative collections, and sets where an algorithm asks for sets (goals, initial states, one element per position)", "the direct evaluations in this file state what each algorithm means"],
    }]);
}
