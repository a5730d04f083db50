//! Sessions with the interactive server: every command is answered by what was fed, installed and closed before it (C15).
use interactive::ir::Value;
use interactive::parse::{applicative, pipe, Expr, Stmt};
use interactive::scope_ir::Source;
use interactive::server::{Command, Server};
use interactive::lower;
use simapps::ddir::{add, generate, meaning, needs_pipe, row, unit, Pairs, Rows, Shape, Style, Unsettled, Writer};
use simcore::{Check, Sim};
use simops::drive::knobs;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Seek, Write};
use std::os::fd::FromRawFd;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;
use timely::dataflow::operators::generic::source;
use timely::synchronization::Sequencer;

// ---------------------------------------------------------------- model

#[derive(Clone, Debug, PartialEq)]
enum Kind { User, Rows(Vec<Pairs>), Clock(u64) }

/// Something installed, now or in the past.
struct Inst {
    name: String, kind: Kind, body: Vec<Stmt>, exports: Vec<(String, Shape)>,
    /// Trace names as imported, with who published them.
    imports: HashMap<String, usize>, refs: Vec<String>,
    inputs: BTreeMap<usize, Shape>, feeds: Vec<(usize, Pairs, u64, i64)>,
}

#[derive(Default)]
struct Model { insts: Vec<Inst>, live: BTreeMap<String, usize>, traces: BTreeMap<String, usize>, epoch: u64, memo: RefCell<HashMap<(usize, u64), Rc<BTreeMap<String, Rows>>>> }

fn mix(x: u64) -> u64 {
    let mut x = x.wrapping_mul(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

/// The canonical name, rows and shape of a generated source.
fn recipe(name: &str) -> Option<(String, Vec<Pairs>, Shape)> {
    if let Some(n) = name.strip_prefix("iota:") {
        let n: i64 = n.trim().parse().ok()?;
        return Some((format!("iota:{n}"), (0..n).map(|i| (row(&[i]), unit())).collect(), Shape::flat(1, 0)));
    }
    let mut p: BTreeMap<&str, u64> = [("arity", 2), ("seed", 0)].into();
    for kv in name.strip_prefix("random:")?.split(',') { let (k, v) = kv.split_once('=')?; p.insert(k.trim(), v.trim().parse().ok()?); }
    let (n, e, a, s) = (*p.get("nodes")?, *p.get("edges")?, p["arity"], p["seed"]);
    // There are no rows over no nodes.
    if n == 0 { return None; }
    let rows = (0..e).map(|i| {
        let base = i.wrapping_mul(31).wrapping_add(s.wrapping_mul(0x9e3779b97f4a7c15));
        (row(&(0..a).map(|c| (mix(base.wrapping_add(c)) % n) as i64).collect::<Vec<_>>()), unit())
    }).collect();
    Some((format!("random:nodes={n},edges={e},arity={a},seed={s}"), rows, Shape::flat(a as usize, 0)))
}
fn canonical(n: &str) -> String { recipe(n).map(|r| r.0).unwrap_or_else(|| n.to_string()) }

impl Model {
    fn source(&mut self, name: &str, kind: Kind, shape: Shape) -> usize {
        self.insts.push(Inst { name: name.into(), kind, body: vec![], exports: vec![(name.into(), shape)], imports: HashMap::new(), refs: vec![], inputs: BTreeMap::new(), feeds: vec![] });
        let i = self.insts.len() - 1;
        self.live.insert(name.into(), i);
        self.traces.insert(name.into(), i);
        i
    }
    /// The exports of installation `i` as of `t`.
    fn contents(&self, i: usize, t: u64) -> Result<Rc<BTreeMap<String, Rows>>, Unsettled> {
        if let Some(m) = self.memo.borrow().get(&(i, t)) { return Ok(m.clone()); }
        let inst = &self.insts[i];
        let mut out = BTreeMap::new();
        match &inst.kind {
            Kind::Rows(r) => { let mut b = Rows::new(); for r in r { add(&mut b, r.clone(), 1); } out.insert(inst.name.clone(), b); }
            Kind::Clock(from) => { let mut b = Rows::new(); if t >= *from { add(&mut b, (row(&[t as i64]), unit()), 1); } out.insert(inst.name.clone(), b); }
            Kind::User => {
                let mut imports: HashMap<String, Rows> = HashMap::new();
                for (n, o) in &inst.imports { imports.insert(n.clone(), self.contents(*o, t)?[&canonical(n)].clone()); }
                let inputs = |n: usize| { let mut b = Rows::new(); for (i, r, u, d) in &inst.feeds { if *i == n && *u <= t { add(&mut b, r.clone(), *d); } } b };
                out = meaning(&inst.body, &inputs, &|n| imports.get(n).cloned().unwrap_or_default())?;
            }
        }
        let out = Rc::new(out);
        self.memo.borrow_mut().insert((i, t), out.clone());
        Ok(out)
    }
    fn importers(&self, trace: &str) -> usize { self.live.values().map(|i| self.insts[*i].refs.iter().filter(|r| *r == trace).count()).sum() }
    fn listing(&self) -> Vec<String> {
        let mut v = vec![format!("epoch: {}", self.epoch), format!("traces ({}):", self.traces.len())];
        for n in self.traces.keys() { v.push(format!("  {n} (importers: {})", self.importers(n))); }
        v.push(format!("programs ({}):", self.live.len()));
        for n in self.live.keys() { v.push(format!("  {n}")); }
        v
    }
}

// ---------------------------------------------------------------- sessions

#[derive(Clone, Debug)]
enum Answer { Ok, Refused(&'static str), Rows(Rows), Listing(Vec<String>) }
struct Act { cmd: Command, answer: Answer, pusher: usize, feeder: usize, text: String, epoch: u64, gap: u64 }

/// A random session and its answers; none if some program in it would not settle.
fn session(sim: &Sim, peers: usize, n: i64) -> Option<(Vec<Act>, Model)> {
    let mut m = Model::default();
    let mut acts: Vec<Act> = vec![];
    let many_pushers = sim.gen(3) == 0;
    let spread_feeds = sim.gen(2) == 0;
    let total = 8 + sim.gen(26);
    let progs = ["p", "q", "r", "s", "clock", "iota:2", "random:edges=2,nodes=2"];
    let traces = ["a", "b", "c", "d", "e", "clock", "random:edges=2,nodes=2"];
    let mut tail: Vec<String> = vec![];
    let mut k = 0;
    loop {
        let ending = k >= total;
        if ending && k == total { tail = m.traces.keys().cloned().collect(); }
        let what = if !ending { sim.genw(&[1, 10, 5, 2, 6, 1, 5]) } else if k == total { 2 } else if let Some(_) = tail.last() { 4 } else { break };
        k += 1;
        let at = m.epoch;
        let (cmd, answer, text) = match what {
            6 => {
                let name = progs[sim.genw(&[20, 20, 20, 20, 1, 1, 1])].to_string();
                let mut sources: Vec<(Expr, Shape)> = (0..sim.gen(3) as usize).map(|i| (Expr::Input(i), Shape::flat(1 + sim.gen(2) as usize, sim.gen(2) as usize))).collect();
                for _ in 0..sim.gen(3) {
                    let t: Vec<(&String, &usize)> = m.traces.iter().collect();
                    match sim.genw(&[8, 2, 2, 1, 1]) {
                        0 if !t.is_empty() => { let (n, i) = t[sim.gen(t.len() as u64) as usize]; sources.push((Expr::Import(n.clone()), m.insts[*i].exports.iter().find(|e| e.0 == *n).unwrap().1.clone())); }
                        1 => {
                            let (nodes, edges, arity, seed) = (if sim.gen(16) == 0 { 0 } else { 1 + sim.gen(n as u64) }, sim.gen(6), 1 + sim.gen(2), sim.gen(2));
                            let mut kv = vec![format!("nodes={nodes}"), format!("edges={edges}")];
                            if arity != 2 || sim.gen(2) == 0 { kv.push(format!("arity={arity}")); }
                            if seed != 0 || sim.gen(2) == 0 { kv.push(format!("seed={seed}")); }
                            for i in (1..kv.len()).rev() { kv.swap(i, sim.gen(i as u64 + 1) as usize); }
                            if sim.gen(10) == 0 { for x in kv.iter_mut() { *x = x.replace('=', " = "); } }
                            sources.push((Expr::Import(format!("random:{}", kv.join(","))), Shape::flat(arity as usize, 0)));
                        }
                        2 => sources.push((Expr::Import(format!("iota:{}{}", if sim.gen(8) == 0 { " " } else { "" }, sim.gen(5))), Shape::flat(1, 0))),
                        3 => sources.push((Expr::Import("clock".into()), Shape::flat(1, 0))),
                        4 if sim.gen(3) == 0 => sources.push((Expr::Import("nowhere".into()), Shape::flat(1, 1))),
                        _ => {}
                    }
                }
                if let (Some(i), Some(_)) = (m.traces.get("clock"), sources.iter().find(|s| matches!(&s.0, Expr::Import(n) if n == "clock"))) { if !matches!(m.insts[*i].kind, Kind::Clock(_)) { continue; } }
                if sources.is_empty() { sources.push((Expr::Input(0), Shape::flat(2, 0))); }
                // A program that settles on what is there now.
                let style = Style { flat: sim.gen(3) > 0, explain: false, depth: 1 + sim.gen(2) as usize, ints: n };
                let mut found = None;
                for _ in 0..6 {
                    let (body, exports) = generate(sim, style, &sources);
                    let imports = |name: &str| {
                        let c = canonical(name);
                        match m.traces.get(&c) { Some(i) => m.contents(*i, at).map(|x| x[&c].clone()).unwrap_or_default(), None => recipe(&c).map(|r| r.1.into_iter().fold(Rows::new(), |mut b, r| { add(&mut b, r, 1); b })).unwrap_or_default() }
                    };
                    if meaning(&body, &|_| Rows::new(), &imports).is_ok() { found = Some((body, exports)); break; }
                }
                let Some((mut body, mut exports)) = found else { sim.count("program.unsettled"); continue };
                // Exports take names others import.
                let mut used: BTreeSet<String> = BTreeSet::new();
                for e in exports.iter_mut() {
                    let mut to = traces[sim.genw(&[10, 10, 10, 10, 10, 1, 1])].to_string();
                    for i in 0.. { if used.insert(to.clone()) { break; } to = format!("x{i}"); }
                    for s in body.iter_mut() { if let Stmt::Export(n, _) = s { if *n == e.0 { *n = format!("\n{to}"); } } }
                    e.0 = to;
                }
                if exports.len() > 1 && sim.gen(24) == 0 {
                    let (from, to) = (exports[1].0.clone(), exports[0].0.clone());
                    for s in body.iter_mut() { if let Stmt::Export(n, _) = s { if n.trim_start() == from { *n = to.clone(); } } }
                    exports[1].0 = to;
                }
                for s in body.iter_mut() { if let Stmt::Export(n, _) = s { *n = n.trim_start().to_string(); } }
                let pipe = needs_pipe(&body) || sim.gen(2) == 0;
                let src = Writer::new(sim, pipe).program(&body);
                let mut program = lower::lower_tree(if pipe { pipe::parse(&src) } else { applicative::parse(&src) });
                if sim.gen(6) > 0 { program.optimize(); }
                let from: Vec<String> = program.root.imports.iter().filter_map(|i| if let Source::Trace(t) = &i.from { Some(t.clone()) } else { None }).collect();
                let has: BTreeSet<usize> = program.root.imports.iter().filter_map(|i| if let Source::Input(n) = &i.from { Some(*n) } else { None }).collect();
                let reserved = |n: &str| n == "clock" || recipe(n).is_some();
                let answer = if m.live.contains_key(&name) { Answer::Refused("name") }
                    else if reserved(&name) || exports.iter().any(|e| reserved(&e.0)) { Answer::Refused("reserved") }
                    else if from.iter().any(|t| !m.traces.contains_key(&canonical(t)) && !reserved(t)) { Answer::Refused("import") }
                    else if exports.iter().any(|e| m.traces.contains_key(&e.0) || exports.iter().filter(|f| f.0 == e.0).count() > 1) { Answer::Refused("export") }
                    else {
                        for t in &from {
                            let c = canonical(t);
                            if !m.traces.contains_key(&c) {
                                if c == "clock" { m.source(&c, Kind::Clock(at), Shape::flat(1, 0)); } else { let (c, rows, shape) = recipe(&c).unwrap(); m.source(&c, Kind::Rows(rows), shape); }
                            }
                        }
                        let i = m.insts.len();
                        m.insts.push(Inst {
                            name: name.clone(), kind: Kind::User, exports: exports.clone(),
                            imports: from.iter().map(|t| (t.clone(), m.traces[&canonical(t)])).collect(), refs: from.iter().map(|t| canonical(t)).collect(),
                            inputs: sources.iter().filter_map(|(e, s)| if let Expr::Input(n) = e { has.contains(n).then(|| (*n, s.clone())) } else { None }).collect(),
                            feeds: vec![], body,
                        });
                        m.live.insert(name.clone(), i);
                        for e in &exports { m.traces.insert(e.0.clone(), i); }
                        Answer::Ok
                    };
                (Command::Install { name: name.clone(), program }, answer, format!("install {name}:\n{src}"))
            }
            1 => {
                let users: Vec<String> = m.live.iter().filter(|(_, i)| !m.insts[**i].inputs.is_empty()).map(|(n, _)| n.clone()).collect();
                let prog = if users.is_empty() || sim.gen(12) == 0 {
                    let all: Vec<&String> = m.live.keys().collect();
                    if !all.is_empty() && sim.gen(3) > 0 { all[sim.gen(all.len() as u64) as usize].clone() } else { progs[sim.gen(4) as usize].to_string() }
                } else { users[sim.gen(users.len() as u64) as usize].clone() };
                let i = m.live.get(&prog).copied();
                let input = match i { Some(i) if !m.insts[i].inputs.is_empty() && sim.gen(20) > 0 => *m.insts[i].inputs.keys().nth(sim.gen(m.insts[i].inputs.len() as u64) as usize).unwrap(), _ => sim.gen(3) as usize };
                let shape = i.and_then(|i| m.insts[i].inputs.get(&input).cloned()).unwrap_or(Shape::flat(1, 0));
                let (ka, va) = shape.arity();
                let ints = |k: usize| row(&(0..k).map(|_| sim.gen(n as u64) as i64).collect::<Vec<_>>());
                let (mut key, mut val, mut diff) = (ints(ka), ints(va), [1i64, -1, 2][sim.genw(&[8, 4, 1])]);
                // Often take back what was given.
                if diff < 0 { if let Some(i) = i { let f: Vec<_> = m.insts[i].feeds.iter().filter(|f| f.0 == input).collect(); if !f.is_empty() && sim.gen(4) > 0 { let f = f[sim.gen(f.len() as u64) as usize]; key = f.1.0.clone(); val = f.1.1.clone(); diff = -f.3; } } }
                let time = match sim.genw(&[10, 3, 6, 1]) { 0 => None, 1 => Some(at), 2 => Some(at + 1 + sim.gen(3)), _ => Some(at.saturating_sub(1 + sim.gen(2))) };
                let answer = if time.is_some_and(|t| t < at) { Answer::Refused("past") }
                    else { match i { None => Answer::Refused("program"), Some(i) if m.insts[i].kind != Kind::User => Answer::Refused("source"), Some(i) if !m.insts[i].inputs.contains_key(&input) => Answer::Refused("input"),
                        Some(i) => { m.insts[i].feeds.push((input, (key.clone(), val.clone()), time.unwrap_or(at), diff)); m.memo.borrow_mut().clear(); Answer::Ok } } };
                let text = format!("feed {prog} {input} {key:?} {val:?} time={time:?} diff={diff}");
                (Command::Feed { prog, input, key, val, time, diff }, answer, text)
            }
            2 => { m.epoch += 1; (Command::Tick, Answer::Ok, "tick".to_string()) }
            3 => {
                let all: Vec<&String> = m.live.keys().collect();
                let name = if all.is_empty() || sim.gen(8) == 0 { progs[sim.gen(4) as usize].to_string() } else { all[sim.gen(all.len() as u64) as usize].clone() };
                let answer = match m.live.get(&name).copied() {
                    None => Answer::Refused("program"),
                    Some(i) if m.insts[i].exports.iter().any(|e| m.importers(&e.0) > 0) => Answer::Refused("imported"),
                    Some(i) => { m.live.remove(&name); for e in m.insts[i].exports.clone() { m.traces.remove(&e.0); } Answer::Ok }
                };
                (Command::Drop { name: name.clone() }, answer, format!("drop {name}"))
            }
            4 => {
                let all: Vec<&String> = m.traces.keys().collect();
                let trace = if let Some(t) = if ending { tail.pop() } else { None } { t } else if all.is_empty() || sim.gen(12) == 0 { traces[sim.gen(5) as usize].to_string() } else { all[sim.gen(all.len() as u64) as usize].clone() };
                let mut key = None;
                let answer = match m.traces.get(&trace) {
                    None => Answer::Refused("trace"),
                    Some(i) => {
                        let rows = if at == 0 { Rows::new() } else { m.contents(*i, at - 1).ok()?[&trace].clone() };
                        if !ending && sim.gen(4) == 0 {
                            let keys: Vec<&Value> = rows.keys().map(|r| &r.0).collect();
                            key = Some(if keys.is_empty() || sim.gen(4) == 0 { row(&[sim.gen(n as u64) as i64]) } else { keys[sim.gen(keys.len() as u64) as usize].clone() });
                        }
                        Answer::Rows(rows.into_iter().filter(|(r, _)| key.as_ref().is_none_or(|k| *k == r.0)).collect())
                    }
                };
                (Command::Peek { trace: trace.clone(), key: key.clone() }, answer, format!("peek {trace} {key:?}"))
            }
            5 => (Command::List, Answer::Listing(m.listing()), "list".to_string()),
            _ => (Command::Help, Answer::Ok, "help".to_string()),
        };
        acts.push(Act { cmd, answer, pusher: if many_pushers { sim.gen(peers as u64) as usize } else { 0 }, feeder: if spread_feeds { sim.gen(peers as u64) as usize } else { 0 }, text, epoch: at, gap: 0 });
    }
    acts.push(Act { cmd: Command::Exit, answer: Answer::Ok, pusher: 0, feeder: 0, text: "exit".into(), epoch: m.epoch, gap: 0 });
    for a in acts.iter_mut() { if sim.gen(3) == 0 { a.gap = sim.gen(12); } }
    // Everything settles at every time there will be.
    let last = m.insts.iter().flat_map(|i| i.feeds.iter().map(|f| f.2)).max().unwrap_or(0).max(m.epoch);
    for i in 0..m.insts.len() { for t in 0..=last { if m.contents(i, t).is_err() { sim.count("session.unsettled"); return None; } } }
    Some((acts, m))
}

// ---------------------------------------------------------------- running

/// What `f` prints.
fn printed<X>(f: impl FnOnce() -> X) -> (X, String) {
    std::io::stdout().flush().unwrap();
    static SAVED: OnceLock<i32> = OnceLock::new();
    let saved = *SAVED.get_or_init(|| unsafe { libc::dup(1) });
    simcore::coord::report_to(saved);
    let mut file = unsafe {
        let fd = libc::memfd_create(c"printed".as_ptr(), 0);
        assert!(fd >= 0 && saved >= 0, "harness: cannot capture output");
        libc::dup2(fd, 1);
        std::fs::File::from_raw_fd(fd)
    };
    let x = f();
    std::io::stdout().flush().unwrap();
    unsafe { libc::dup2(saved, 1); }
    let mut s = String::new();
    file.rewind().unwrap();
    file.read_to_string(&mut s).unwrap();
    (x, s)
}

fn c15(sim: &Arc<Sim>) {
    let (peers, config) = knobs(sim);
    let n = 2 + sim.gen(4) as i64;
    let mut found = None;
    for _ in 0..6 { if let Some(s) = session(sim, peers, n) { found = Some(s); break; } }
    let Some((acts, model)) = found else { sim.count("session.given_up"); return };
    for (i, a) in acts.iter().enumerate() {
        for l in format!("{i}: [w{}] {} -> {:?}", a.pusher, a.text, a.answer).lines() { sim.describe(l.to_string()); }
        let verb = a.text.split([' ', '\n']).next().unwrap();
        match &a.answer {
            Answer::Refused(why) => sim.count(&format!("refused.{verb}.{why}")),
            Answer::Rows(r) => { sim.count("answer.peek"); sim.count_n("answer.rows", r.len() as u64); if !r.is_empty() && a.epoch > 1 { sim.nontrivial(); } }
            _ => sim.count(&format!("answer.{verb}")),
        }
    }
    sim.count_n("work.shared", model.insts.iter().map(|i| i.imports.len() as u64).sum());
    let acts = Arc::new(acts);
    let moved = Arc::new(AtomicU64::new(0));
    let doing = Arc::new(Mutex::new(vec![0usize; peers]));
    sim.run_workers(peers, config, move |worker, ctx| {
        let (sim, index) = (&ctx.sim, ctx.index);
        let stop = Rc::new(Cell::new(false));
        // Every step of this worker, also those the server takes inside a command, starts by letting the scheduler choose.
        {
            let (sim, stop, moved, doing, acts) = (sim.clone(), stop.clone(), moved.clone(), doing.clone(), acts.clone());
            worker.dataflow::<u64, _, _>(|scope| {
                source::<u64, timely::container::CapacityContainerBuilder<Vec<()>>, _, _>(scope, "Heartbeat", move |cap, info| {
                    let (activator, mut cap) = (scope.activator_for(info.address), Some(cap));
                    move |_| {
                        if stop.get() { cap = None; return; }
                        activator.activate();
                        sim.yield_now(index);
                        if sim.is_fair() && sim.now() > moved.load(Ordering::SeqCst) + 20_000 {
                            let d = doing.lock().unwrap().clone();
                            sim.violate("liveness", format!("no worker completes a command although faults have stopped; workers are at {:?}", d.iter().map(|i| acts[*i].text.lines().next().unwrap_or("")).collect::<Vec<_>>()));
                        }
                        let _ = &cap;
                    }
                });
            });
        }
        let mut server = Server::new();
        let mut sequencer: Sequencer<Command> = Sequencer::new(worker, Instant::now());
        let (mut at, mut pushed, mut idle) = (0, 0, 0);
        while at < acts.len() {
            // Commands leave in order: a run of one pusher's goes together, another's only once that has taken effect here.
            while pushed < acts.len() && acts[pushed].pusher == index && (pushed == at || pushed > 0 && acts[at..pushed].iter().all(|a| a.pusher == index)) && idle >= acts[pushed].gap {
                sequencer.push(acts[pushed].cmd.clone());
                pushed += 1;
                idle = 0;
            }
            idle += 1;
            while let Some(cmd) = sequencer.next() {
                let a = acts.get(at).unwrap_or_else(|| sim.violate("order", "more commands than were sent".into()));
                let text = |c: &Command| serde_json::to_string(c).unwrap();
                if text(&cmd) != text(&a.cmd) { sim.violate("order", format!("worker {index} receives {} where the session has {}", text(&cmd), text(&a.cmd))); }
                doing.lock().unwrap()[index] = at;
                sim.note(|| format!("w{index} does {at}: {}", a.text.lines().next().unwrap_or("")));
                if server.epoch() != a.epoch { sim.violate("epoch", format!("worker {index} is in epoch {} at command {at}, expected {}", server.epoch(), a.epoch)); }
                let result = match &cmd {
                    Command::Install { name, program } => server.install(worker, name, program),
                    Command::Feed { prog, input, key, val, time, diff } => if index == a.feeder { server.feed(prog, *input, key.clone(), val.clone(), *time, *diff) } else if let Answer::Refused(_) = a.answer { Err(String::new()) } else { Ok(()) },
                    Command::Tick => { server.tick(worker); Ok(()) }
                    Command::Drop { name } => server.drop_program(worker, name),
                    Command::Peek { trace, key } => {
                        if index > 0 { server.peek(worker, trace, key.clone()) } else {
                            let (r, text) = printed(|| server.peek(worker, trace, key.clone()));
                            if let Answer::Rows(want) = &a.answer {
                                let show = |r: &Rows| r.iter().map(|(r, d)| format!("({:?}, {:?})  x{d}", r.0, r.1)).collect::<BTreeSet<_>>();
                                let got: Vec<String> = text.lines().skip_while(|l| !l.starts_with("peek ")).skip(1).map(|l| l.trim().to_string()).collect();
                                let (set, want) = (got.iter().cloned().collect::<BTreeSet<_>>(), show(want));
                                if r.is_ok() && (set != want || set.len() != got.len()) { sim.violate("answer", format!("command {at} ({}) in epoch {}: expected {want:?}, got {got:?}", a.text, a.epoch)); }
                                sim.count("check.peeks");
                            }
                            r
                        }
                    }
                    Command::List => {
                        if index == 0 {
                            let ((), text) = printed(|| server.list());
                            let Answer::Listing(want) = &a.answer else { unreachable!() };
                            let got: Vec<String> = text.lines().map(|l| if l.starts_with("  ") && !l.contains("(importers: ") { l.split([' ', '(']).filter(|s| !s.is_empty()).next().map(|s| format!("  {s}")).unwrap_or_default() } else { l.to_string() }).collect();
                            if got != *want { sim.violate("answer", format!("command {at} (list): expected {want:?}, got {got:?}")); }
                        }
                        Ok(())
                    }
                    Command::Help | Command::Exit => Ok(()),
                };
                match (&a.answer, result) {
                    (Answer::Refused(why), Ok(())) => sim.violate("refusal", format!("worker {index}: command {at} ({}) is accepted, although refused for its {why}", a.text.lines().next().unwrap_or(""))),
                    (Answer::Ok | Answer::Rows(_) | Answer::Listing(_), Err(e)) => sim.violate("refusal", format!("worker {index}: command {at} ({}) is refused: {e}", a.text.lines().next().unwrap_or(""))),
                    _ => {}
                }
                moved.store(sim.now(), Ordering::SeqCst);
                at += 1;
                if pushed < at { pushed = at; }
            }
            worker.step();
        }
        drop(server);
        drop(sequencer);
        stop.set(true);
        ctx.script_done();
        ctx.settle(worker, "shutdown", |w| !w.has_dataflows());
    });
}

fn main() {
    simcore::main(&[Check {
        id: "C15", scenario: c15, quick_runs: 20_000, thorough_secs: 600, level: "exploration",
        rule: "random sessions (installs over inputs, other programs' exports, generated sources and the clock; feeds now and in the future; ticks; drops; peeks; listings; refused commands of every kind), ordered by a timely sequencer across simulated workers, pushed by one or several of them and executed as the example server executes them: every worker sees the same commands in the same order, accepts and refuses the same ones, each peek prints exactly what the exporting program means on the inputs fed, and the imports as they were, in the closed epochs, each listing names what is installed, every command completes, and after exit every dataflow ends",
        real: &["interactive::server, the language (parsing, lowering, optimisation, rendering)", "timely::synchronization::Sequencer", "differential-dataflow imports, arrangements, operators", "timely workers, progress tracking, exchange channels, dataflow removal"],
        stub: &["thread scheduling (baton-passing scheduler)", "delivery of bytes between workers (simulated network through timely's spill policy seam)", "clock_gettime and getrandom (virtual clock, seeded bytes)", "the example's command line and channel (the session's commands are pushed directly)"],
        assumptions: &["the direct evaluation in ddir.rs states what programs mean"],
    }]);
}
