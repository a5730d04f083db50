//! Programs in the interactive language mean what their statements say, however they are written, optimised, cloned
//! or scheduled; and explanations suffice (C16).
use differential_dataflow::dynamic::pointstamp::PointStamp;
use differential_dataflow::operators::ThresholdTotal;
use differential_dataflow::{AsCollection, VecCollection};
use interactive::backend::vec::{evaluate, render_tree};
use interactive::ir::Value;
use interactive::parse::{applicative, pipe, Expr, Stmt};
use interactive::scope_ir::{Program, Source};
use interactive::{explain, lower};
use simapps::ddir::{add, generate, meaning, needs_pipe, row, unit, Pairs, Rows, Shape, Style, Writer};
use simcore::{Check, Ctx, Out, Sim};
use simops::dag::{Coll, Row};
use simops::drive::*;
use std::collections::BTreeMap;
use std::sync::Arc;
use timely::container::CapacityContainerBuilder;
use timely::dataflow::channels::pact::Pipeline;
use timely::dataflow::operators::generic::Operator;
use timely::dataflow::operators::vec::Map;
use timely::dataflow::operators::probe::{Handle as ProbeHandle, Probe};
use timely::dataflow::Scope;

type Col<'s> = VecCollection<'s, u64, Pairs, i64>;

fn render<'s>(p: &Program, scope: Scope<'s, u64>, ins: &[Col<'s>]) -> Vec<Col<'s>> {
    scope.iterative::<PointStamp<u64>, _, _>(|inner| {
        let imports = p.root.imports.iter().map(|i| match &i.from { Source::Input(n) => ins[*n].clone().enter(inner), o => panic!("harness: unexpected source {o:?}") }).collect();
        render_tree(&p.root, inner.clone(), 0, imports).into_iter().map(|c| c.leave(scope)).collect::<Vec<_>>()
    })
}

fn tap<'s>(c: Col<'s>, out: &Out<Pairs, u64, i64>, ctx: &Ctx, probe: &ProbeHandle<u64>) {
    let (sim, out, index) = (ctx.sim.clone(), out.clone(), ctx.index);
    c.inner.unary::<CapacityContainerBuilder<Vec<(Pairs, u64, i64)>>, _, _, _>(Pipeline, "Tap", move |_, _| move |input, output| {
        input.for_each(|cap, data| {
            for (d, t, r) in data.iter() {
                if !cap.time().le(t) { sim.violate("captime", format!("output '{}': update at {t} travels with a capability for {}", out.name, cap.time())); }
                out.push(&sim, index, d.clone(), *t, *r);
            }
            output.session(&cap).give_container(data);
        })
    }).probe_with(probe);
}

fn text(v: &Value) -> String {
    let seq = |xs: &Vec<Value>| xs.iter().map(text).collect::<Vec<_>>().join(",");
    match v { Value::Int(n) => n.to_string(), Value::Tuple(xs) => format!("({})", seq(xs)), Value::List(xs) => format!("[{}]", seq(xs)), Value::Variant(t, x) => format!("<{t} {}>", text(x)) }
}
fn differ(want: &Rows, got: &BTreeMap<Pairs, i64>) -> Option<String> {
    let mut v = vec![];
    for (r, d) in want { let g = got.get(r).copied().unwrap_or(0); if g != *d { v.push(format!("{};{}: expected {d}, got {g}", text(&r.0), text(&r.1))); } }
    for (r, g) in got { if !want.contains_key(r) { v.push(format!("{};{}: expected 0, got {g}", text(&r.0), text(&r.1))); } }
    if v.is_empty() { None } else { v.truncate(6); Some(v.join(", ")) }
}

struct History { hist: Vec<(usize, Row, u64, isize)>, times: Vec<u64>, norm: bool }
impl History {
    /// The contents of input `i` at `t`, as the programs see it.
    fn at(&self, i: usize, t: u64) -> Rows {
        let mut b: BTreeMap<Row, i64> = BTreeMap::new();
        for (j, r, u, d) in &self.hist { if *j == i && *u <= t { *b.entry(*r).or_insert(0) += *d as i64; } }
        let mut o = Rows::new();
        for ((k, v), d) in b { add(&mut o, (row(&[k as i64, v as i64]), unit()), if self.norm { d.max(0) } else { d }); }
        o
    }
}

/// Runs programs over the script; one output for each export of each.
fn run(sim: &Arc<Sim>, peers: usize, config: timely::worker::Config, script: Script<u64>, progs: Vec<Program>, norm: bool, query: Option<usize>) -> Vec<Vec<Out<Pairs, u64, i64>>> {
    let outs: Vec<Vec<Out<Pairs, u64, i64>>> = progs.iter().enumerate().map(|(i, p)| p.root.exports.iter().map(|e| Out::new(&format!("{}#{i}", e.name), peers)).collect()).collect();
    let (mine, progs, shared) = (outs.clone(), Arc::new(progs), Arc::new(script));
    sim.run_workers(peers, config, move |worker, ctx| {
        let (mut ins, probes) = worker.dataflow::<u64, _, _>(|scope| {
            let (ins, colls): (Vec<Input<u64>>, Vec<Coll<'_, u64>>) = shared.modes.iter().map(|m| Input::new(scope, *m)).unzip();
            let cols: Vec<Col<'_>> = colls.into_iter().enumerate().map(|(i, c)| {
                let c = if norm { c.threshold_total(|_, d| (*d).max(0)) } else { c };
                c.inner.map(move |((k, v), t, d)| (if query == Some(i) { (row(&[k as i64]), row(&[v as i64, (k * 16 + v) as i64])) } else { (row(&[k as i64, v as i64]), unit()) }, t, d as i64)).as_collection()
            }).collect();
            let mut probes = vec![];
            for (p, outs) in progs.iter().zip(&mine) {
                for (c, o) in render(p, scope, &cols).into_iter().zip(outs) { let h = ProbeHandle::new(); tap(c, o, ctx, &h); probes.push(h); }
            }
            (ins, probes)
        });
        let flat: Vec<&Out<Pairs, u64, i64>> = mine.iter().flatten().collect();
        let observe = || for (p, o) in probes.iter().zip(&flat) { p.with_frontier(|f| o.observe(&ctx.sim, ctx.index, f)); };
        for a in &shared.acts[ctx.index] {
            match a {
                Act::Work => ctx.some_steps(worker, |_| observe()),
                Act::Quiet(to) => {
                    for (n, i) in ins.iter_mut().enumerate() { i.apply(&Act::Flush { input: n }); }
                    caught_up(ctx, worker, to, &probes, &observe);
                }
                a => { ctx.sim.note(|| format!("w{} {a:?}", ctx.index)); ins[a.input().unwrap()].apply(a); }
            }
        }
        for i in ins.iter_mut() { i.finish(); }
        ctx.script_done();
        ctx.settle(worker, "advanced", |_| { observe(); probes.iter().all(|p| !p.less_than(&u64::fin())) });
        for i in ins.iter_mut() { i.close(); }
        ctx.settle(worker, "shutdown", |w| { observe(); !w.has_dataflows() });
    });
    outs
}

fn parse(sim: &Sim, body: &[Stmt], pipe: bool) -> Program {
    let src = Writer::new(sim, pipe).program(body);
    for l in src.lines() { sim.describe(l.to_string()); }
    lower::lower_tree(if pipe { pipe::parse(&src) } else { applicative::parse(&src) })
}

fn history(sim: &Arc<Sim>, peers: usize, inputs: usize, acts: u64, n: i64, norm: bool) -> (Script<u64>, History) {
    let (mut script, hist) = Script::<u64>::generate(sim, peers, inputs, &Load { acts, nk: n as u64, nv: n as u64, big: false });
    script.quiet(sim);
    for (w, a) in script.acts.iter().enumerate() { sim.note(|| format!("script w{w}: {a:?}")); }
    let mut times: Vec<u64> = hist.iter().map(|h| h.2).chain([0]).collect();
    times.sort();
    times.dedup();
    (script, History { hist, times, norm })
}

fn no_imports(n: &str) -> Rows { panic!("harness: no import {n}") }

fn programs(sim: &Arc<Sim>) {
    let (peers, config) = knobs(sim);
    let inputs = 1 + sim.gen(3) as usize;
    let n = 2 + sim.gen(4) as i64;
    let norm = sim.gen(3) == 0;
    let (script, h) = history(sim, peers, inputs, 12, n, norm);
    let style = Style { flat: sim.gen(2) == 0, explain: false, depth: 1 + sim.gen(2) as usize, ints: n };
    let sources: Vec<(Expr, Shape)> = (0..inputs).map(|i| (Expr::Input(i), Shape::flat(2, 0))).collect();
    // A program that settles on every input it will see.
    let mut found = None;
    for _ in 0..8 {
        let (body, _) = generate(sim, style, &sources);
        let want: Result<Vec<_>, _> = h.times.iter().map(|t| meaning(&body, &|i| h.at(i, *t), &no_imports)).collect();
        if let Ok(w) = want { found = Some((body, w)); break; }
        sim.count("program.unsettled");
    }
    let Some((body, want)) = found else { sim.count("program.given_up"); return; };
    sim.describe(format!("{style:?} norm={norm} inputs {:?}, {} updates, {} times", script.modes, h.hist.len(), h.times.len()));
    let pipe = needs_pipe(&body) || sim.gen(2) == 0;
    let plain = parse(sim, &body, pipe);
    let mut progs = vec![plain.clone()];
    let mut tuned = plain.clone();
    tuned.optimize();
    if sim.gen(6) > 0 { progs.push(tuned.clone()); }
    if sim.gen(6) == 0 { let mut c = explain::clone_identity(&plain); if sim.gen(2) == 0 { c.optimize(); } progs.push(c); }
    if sim.gen(4) == 0 { progs.remove(0); }
    let outs = run(sim, peers, config, script, progs.clone(), norm, None);
    let mut total = 0;
    for (p, outs) in progs.iter().zip(&outs) {
        for (e, o) in p.root.exports.iter().zip(outs) {
            total += o.len();
            let mut ts: Vec<u64> = h.times.iter().cloned().chain(o.times()).chain([u64::fin()]).collect();
            ts.sort();
            ts.dedup();
            for t in ts {
                let i = h.times.iter().rposition(|x| *x <= t).unwrap_or_else(|| sim.violate("exactness", format!("output '{}' has updates at {t}", o.name)));
                if let Some(d) = differ(&want[i][&e.name], &o.at(&t)) { sim.violate("exactness", format!("'{}' at time {t}: {d}", o.name)); }
                sim.count("check.times");
            }
        }
    }
    // The same from explicit rows.
    let last = *h.times.last().unwrap();
    let rows: Vec<Rows> = (0..inputs).map(|i| h.at(i, last)).collect();
    if sim.gen(8) == 0 && rows.iter().all(|r| r.values().all(|d| *d > 0)) {
        let rows: Vec<Vec<Pairs>> = rows.into_iter().map(|r| r.into_iter().flat_map(|(r, d)| std::iter::repeat(r).take(d as usize)).collect()).collect();
        for (n, got) in evaluate(&tuned, &rows) {
            if let Some(d) = differ(&want.last().unwrap()[&n], &got.into_iter().collect()) { sim.violate("exactness", format!("'{n}' evaluated over the final inputs: {d}")); }
        }
        sim.count("check.evaluate");
    }
    sim.count(if pipe { "syntax.pipe" } else { "syntax.applicative" });
    sim.count_n("work.outputs", total as u64);
    sim.count_n("work.updates", h.hist.len() as u64);
    let shown = format!("{body:?}");
    for (k, c) in [("Var(\"", "program.recursive"), ("EnterAt", "program.enter_at"), ("LiftIter", "program.lift_iter"), ("FlatMap", "program.flatmap"), ("Collect", "program.collect"), ("Case", "program.case"), ("Fold", "program.fold")] { if shown.contains(k) { sim.count(c); } }
    if h.hist.len() > 1 && want.iter().any(|w| w.values().any(|r| !r.is_empty())) { sim.nontrivial(); }
}

const TC: &str = "let edges = input 0 | key($0[0] ; $0[1]); outer: { let tc = edges + more | key($0[0], $1[0] ;) | distinct | key($0[0] ; $0[1]); var more = tc | key($1 ; $0) | join(edges, ($1 ; $2)); } export \"result\" = outer::tc;";
const REACH: &str = "let edges = input 0 | key($0[0] ; $0[1]); let roots = input 1 | key($0[0] ;); reach: { let proposals = reach | join(edges, ($2 ;)); var reach = roots + proposals | distinct; } export \"result\" = reach::reach | key($0 ; 0);";
const SCC: &str = "let edges = input 0 | key($0[0] ; $0[1]); let trans = edges | key($1 ; $0); outer: { let scc = edges + trim; fwd: { let nodes = edges | key($1 ; $1) | enter_at($1[0]); let labels = proposals + nodes | min; var proposals = labels | join(scc, ($2 ; $1)); } let trim_fwd = edges | join(fwd::labels, ($1 ; $0, $2)) | join(fwd::labels, ($0 ; $1, $2)) | filter($1[1] == $1[2]) | key($0 ; $1[0]); bwd: { let nodes = trans | key($1 ; $1) | enter_at($1[0]); let labels = proposals + nodes | min; var proposals = labels | join(trim_fwd, ($2 ; $1)); } let trim_bwd = trans | join(bwd::labels, ($1 ; $0, $2)) | join(bwd::labels, ($0 ; $1, $2)) | filter($1[1] == $1[2]) | key($0 ; $1[0]); var trim = trim_bwd - edges; } export \"result\" = outer::scc;";
const INDEG: &str = "let edges = input 0 | key($0[0] ; $0[1]); export \"result\" = edges | key($1 ;) | count;";

fn explanations(sim: &Arc<Sim>) {
    let (peers, config) = knobs(sim);
    let n = 3 + sim.gen(3) as i64;
    let which = sim.genw(&[2, 2, 2, 1, 6]);
    let inputs = 2;
    let (script, h) = history(sim, peers, inputs + 1, if which == 2 { 6 } else { 10 }, n, true);
    let mut found = None;
    for _ in 0..8 {
        let body = if which < 4 { pipe::parse([TC, REACH, SCC, INDEG][which]) } else { generate(sim, Style { flat: true, explain: true, depth: 1 + sim.gen(2) as usize, ints: n }, &[(Expr::Input(0), Shape::flat(2, 0)), (Expr::Input(1), Shape::flat(2, 0))]).0 };
        let want: Result<Vec<_>, _> = h.times.iter().map(|t| meaning(&body, &|i| h.at(i, *t), &no_imports)).collect();
        if let Ok(w) = want { found = Some((body, w)); break; }
        sim.count("program.unsettled");
    }
    let Some((body, want)) = found else { sim.count("program.given_up"); return; };
    sim.describe(format!("explain inputs {:?}, {} updates, {} times", script.modes, h.hist.len(), h.times.len()));
    let plain = parse(sim, &body, true);
    // Inputs are the program's own, in the order it imports them, and then the queries.
    let used: Vec<usize> = plain.root.imports.iter().map(|i| if let Source::Input(n) = i.from { n } else { panic!("harness: input expected") }).collect();
    if used.is_empty() { return; }
    let mut p = explain::explain(&plain, &vec![(2, 0); used.len()]);
    if sim.gen(4) > 0 { p.optimize(); }
    // The queries come after the largest input used.
    let query = used.iter().max().unwrap() + 1;
    let first = plain.root.exports[0].name.clone();
    let outs = run(sim, peers, config, script, vec![p.clone()], true, Some(query));
    let mut ts: Vec<u64> = h.times.iter().cloned().chain(outs[0].iter().flat_map(|o| o.times())).collect();
    ts.sort();
    ts.dedup();
    if ts.len() > 24 { let k = ts.len(); ts = (0..24).map(|i| ts[i * k / 24]).chain(ts.last().cloned()).collect(); }
    for t in ts {
        let i = h.times.iter().rposition(|x| *x <= t).unwrap_or(0);
        let mut kept: BTreeMap<usize, Rows> = BTreeMap::new();
        for (e, o) in p.root.exports.iter().zip(&outs[0]) {
            let input: usize = e.name.strip_prefix("demand:input").and_then(|x| x.parse().ok()).unwrap_or_else(|| sim.violate("explain", format!("an explanation exports '{}'", e.name)));
            let all = h.at(input, t);
            for (r, d) in o.at(&t) {
                if d != 1 { sim.violate("explain", format!("at time {t} '{}' demands {};{} {d} times", e.name, text(&r.0), text(&r.1))); }
                match all.get(&r) { Some(n) => add(kept.entry(input).or_default(), r, *n), None => sim.violate("explain", format!("at time {t} '{}' demands {};{}, which is not there", e.name, text(&r.0), text(&r.1))) }
            }
        }
        let queries: Vec<Pairs> = h.at(query, t).into_keys().map(|(k, _)| { let Value::Tuple(x) = k else { unreachable!() }; (Value::Tuple(vec![x[0].clone()]), Value::Tuple(vec![x[1].clone()])) }).collect();
        let asked: Vec<&Pairs> = queries.iter().filter(|q| want[i][&first].get(q).is_some_and(|d| *d > 0)).collect();
        if queries.is_empty() && !kept.is_empty() { sim.violate("explain", format!("at time {t} nothing is asked but rows are demanded")); }
        if asked.is_empty() { continue; }
        let again = match meaning(&body, &|i| kept.get(&i).cloned().unwrap_or_default(), &no_imports) { Ok(a) => a, Err(_) => { sim.count("explain.unsettled"); continue; } };
        for q in asked {
            if !again[&first].get(q).is_some_and(|d| *d > 0) {
                let show = |r: &Rows| r.iter().map(|(r, d)| format!("{}x{d}", text(&r.0))).collect::<Vec<_>>().join(" ");
                sim.violate("explain", format!("at time {t} the demanded rows [{}] of [{}] do not produce {};{}", kept.iter().map(|(i, r)| format!("{i}: {}", show(r))).collect::<Vec<_>>().join(" | "), used.iter().map(|i| format!("{i}: {}", show(&h.at(*i, t)))).collect::<Vec<_>>().join(" | "), text(&q.0), text(&q.1)));
            }
            sim.count("check.explained");
            sim.nontrivial();
        }
    }
    sim.count("program.explained");
    sim.count_n("work.updates", h.hist.len() as u64);
}

fn c16(s: &Arc<Sim>) { if s.genw(&[4, 1]) == 0 { programs(s) } else { explanations(s) } }

fn main() {
    simcore::main(&[Check {
        id: "C16", scenario: c16, quick_runs: 30_000, thorough_secs: 600, level: "exploration",
        rule: "programs drawn from typed grammars (nested scopes, recursion, hidden names, every operator and term, both syntaxes, statements in any order) are parsed, and rendered as written, optimised, and cloned, side by side on simulated workers; at every time of the input history every export of every form equals a direct scope-by-scope evaluation of the drawn program on the inputs at that time, also through the library's own evaluator; an explained program's demanded rows are distinct, are all present in the inputs, are none when nothing is asked, and evaluate, alone, to each row asked for",
        real: &["interactive (both parsers, lowering, optimisation, the explanation rewrite, term evaluation, the vec rendering)", "differential-dataflow operators, dynamic scopes, iteration", "timely workers, progress tracking, exchange channels"],
        stub: &["thread scheduling (baton-passing scheduler)", "delivery of bytes between workers (simulated network through timely's spill policy seam)", "clock_gettime and getrandom (virtual clock, seeded bytes)"],
        assumptions: &["the direct evaluation in ddir.rs states what programs mean"],
    }]);
}
