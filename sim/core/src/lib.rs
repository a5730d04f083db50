//! A deterministic simulator for timely/differential computations.
//!
//! See /verif/DESIGN.md. One run = one process-wide execution in which exactly one simulated worker
//! (a parked OS thread) runs at a time and every choice comes from one tape.
pub mod interpose;
pub mod tape;
pub mod net;
pub mod coord;
pub mod out;

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use timely::worker::Worker;
pub use tape::{Stream, Tape};
pub use coord::{main, Check};
pub use out::{hash_debug, Num, Out, Rec};

thread_local! {
    static SIM: RefCell<Option<Arc<Sim>>> = const { RefCell::new(None) };
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// The simulation this thread belongs to.
pub fn sim() -> Arc<Sim> { SIM.with(|s| s.borrow().clone().expect("no simulation on this thread")) }
pub fn try_sim() -> Option<Arc<Sim>> { SIM.try_with(|s| s.try_borrow().ok().and_then(|s| s.clone())).ok().flatten() }
/// The simulated worker running on this thread.
pub fn me() -> usize { ME.with(|m| m.get()) }
pub(crate) fn attach(sim: &Arc<Sim>, me: usize) {
    SIM.with(|s| *s.borrow_mut() = Some(sim.clone()));
    ME.with(|m| m.set(me));
    interpose::set_thread(me as u64 + 1);
}

const NOBODY: usize = usize::MAX;

pub struct Sim {
    st: Mutex<State>,
    cvs: Vec<Condvar>,
    main_cv: Condvar,
    pub seed: u64,
    pub verbose: bool,
}

pub struct State {
    pub tape: Tape,
    pub hash: u64,
    pub log: Vec<String>,
    pub now: u64,
    turn: usize,
    peers: usize,
    alive: Vec<bool>,
    arrived: usize,
    stalled_until: Vec<u64>,
    pub fair: bool,
    scripts_done: usize,
    settled: BTreeMap<String, Vec<bool>>,
    phase_steps: u64,
    pub net: net::Net,
    pub counts: BTreeMap<String, u64>,
    pub steps: u64,
    style: SchedStyle,
    burst: u64,
    next_fault: u64,
    faults_on: bool,
    pub describe: Vec<String>,
    /// Names of special histories in this run, appended to any violation's message.
    pub tags: Vec<String>,
    pub nontrivial: bool,
    pub fault_cap: u64,
    fault_limit: u64,
    pub fair_cap: u64,
}

#[derive(Clone, Debug, Default)]
struct SchedStyle { kind: u64, slow: usize }

const MAX_PEERS: usize = 8;

impl Sim {
    pub fn new(seed: u64, tape: Tape, verbose: bool) -> Arc<Sim> {
        Arc::new(Sim {
            st: Mutex::new(State {
                tape, hash: 0xcbf2_9ce4_8422_2325, log: vec![], now: 0, turn: NOBODY, peers: 0, alive: vec![], arrived: 0,
                stalled_until: vec![], fair: false, scripts_done: 0, settled: Default::default(), phase_steps: 0,
                net: net::Net::default(), counts: Default::default(), steps: 0, style: Default::default(), burst: 0,
                next_fault: u64::MAX, faults_on: false, describe: vec![], tags: vec![], nontrivial: false,
                fault_cap: 6_000, fault_limit: 6_000, fair_cap: 30_000,
            }),
            cvs: (0..MAX_PEERS).map(|_| Condvar::new()).collect(),
            main_cv: Condvar::new(),
            seed, verbose,
        })
    }
    pub fn lock(&self) -> MutexGuard<'_, State> { self.st.lock().unwrap_or_else(|e| e.into_inner()) }
    pub(crate) fn try_lock_state(&self) -> Option<MutexGuard<'_, State>> {
        match self.st.try_lock() { Ok(g) => Some(g), Err(std::sync::TryLockError::Poisoned(e)) => Some(e.into_inner()), _ => None }
    }

    // ---- choices ----
    pub fn gen(&self, n: u64) -> u64 { self.lock().tape.draw(Stream::Gen, n) }
    pub fn genw(&self, w: &[u32]) -> usize { self.lock().tape.weighted(Stream::Gen, w) as usize }
    /// Inclusive range from the workload stream.
    pub fn range(&self, lo: u64, hi: u64) -> u64 { lo + self.gen(hi - lo + 1) }
    /// True with probability `num/den` (false is the simplest choice).
    pub fn chance(&self, num: u32, den: u32) -> bool { self.lock().tape.weighted(Stream::Gen, &[den - num, num]) == 1 }
    pub fn fault(&self, n: u64) -> u64 { self.lock().tape.draw(Stream::Fault, n) }
    pub fn faultw(&self, w: &[u32]) -> usize { self.lock().tape.weighted(Stream::Fault, w) as usize }
    pub fn sched(&self, n: u64) -> u64 { self.lock().tape.draw(Stream::Sched, n) }
    pub fn schedw(&self, w: &[u32]) -> usize { self.lock().tape.weighted(Stream::Sched, w) as usize }

    // ---- recording ----
    pub fn event(&self, f: impl FnOnce() -> String, h: u64) { let mut st = self.lock(); st.event(self.verbose, f, h); }
    pub fn note(&self, s: impl FnOnce() -> String) { if self.verbose { let n = self.lock().now; let s = s(); self.lock().log.push(format!("[{n}] {s}")); } }
    pub fn count(&self, k: &str) { self.count_n(k, 1) }
    pub fn count_n(&self, k: &str, n: u64) { let mut st = self.lock(); st.count_n(k, n); }
    pub fn tag(&self, s: &str) { let mut st = self.lock(); if !st.tags.iter().any(|t| t == s) { st.tags.push(s.to_string()); } }
    pub fn describe(&self, s: String) { self.note(|| s.clone()); self.lock().describe.push(s); }
    pub fn nontrivial(&self) { self.lock().nontrivial = true; }
    pub fn now(&self) -> u64 { self.lock().now }
    pub fn is_fair(&self) -> bool { self.lock().fair }

    /// Reports a violation of the property and ends the process.
    pub fn violate(&self, class: &str, msg: String) -> ! { coord::report_violation(Some(self), class, &msg) }
    pub fn check(&self, ok: bool, class: &str, msg: impl FnOnce() -> String) { if !ok { self.violate(class, msg()) } }

    // ---- workers ----

    /// Runs `f` on `peers` simulated workers.
    pub fn run_workers<F>(self: &Arc<Self>, peers: usize, config: timely::worker::Config, f: F)
    where F: Fn(&mut Worker, &Ctx) + Send + Sync + 'static {
        assert!(peers <= MAX_PEERS);
        let (netstyle, style) = {
            let mut st = self.lock();
            st.peers = peers; st.alive = vec![true; peers]; st.arrived = 0; st.turn = NOBODY;
            st.stalled_until = vec![0; peers]; st.fair = false; st.scripts_done = 0; st.settled.clear(); st.phase_steps = 0;
            let kind = st.tape.weighted(Stream::Sched, &[4, 3, 3, 2]);
            let slow = st.tape.draw(Stream::Sched, peers as u64) as usize;
            st.style = SchedStyle { kind, slow }; st.burst = 0;
            let faulty = peers > 0 && st.tape.weighted(Stream::Fault, &[1, 2]) == 1;
            st.faults_on = faulty;
            let base = st.steps;
            st.fault_limit = base + st.fault_cap;
            st.next_fault = if faulty { base + 1 + st.tape.draw(Stream::Fault, 60) } else { u64::MAX };
            let State { ref mut tape, ref mut net, .. } = *st;
            net.configure(tape, peers);
            (net.describe(), kind)
        };
        self.note(|| format!("workers={peers} sched={style} {netstyle}"));
        self.count_n(&format!("run.peers{peers}"), 1);
        let refill = timely_communication::allocator::zero_copy::bytes_slab::BytesRefill {
            logic: Arc::new(|size| Box::new(vec![0u8; size])),
            limit: None,
        };
        let builders = timely_communication::allocator::ProcessBuilder::new_bytes_vector(peers, refill, Some(net::policies()));
        let f = Arc::new(f);
        let mut handles = vec![];
        for (index, builder) in builders.into_iter().enumerate() {
            let sim = self.clone();
            let f = f.clone();
            let config = config.clone();
            handles.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                attach(&sim, index);
                net::reset_puller();
                let alloc = builder.build();
                sim.arrive(index);
                {
                    let alloc = timely_communication::Allocator::Process(alloc);
                    let mut worker = Worker::new(config, alloc, Some(std::time::Instant::now()));
                    let ctx = Ctx { sim: sim.clone(), index, peers };
                    f(&mut worker, &ctx);
                    drop(worker);
                }
                sim.finish(index);
                SIM.with(|s| *s.borrow_mut() = None);
            }).expect("spawn"));
        }
        {
            let mut st = self.lock();
            while st.arrived < peers { st = self.main_cv.wait(st).unwrap(); }
            st.turn = 0;
            self.cvs[0].notify_one();
            while st.alive.iter().any(|a| *a) { st = self.main_cv.wait(st).unwrap(); }
        }
        for h in handles { let _ = h.join(); }
        self.lock().net.clear();
    }

    fn arrive(&self, me: usize) {
        let mut st = self.lock();
        st.arrived += 1;
        if st.arrived == st.peers { self.main_cv.notify_one(); }
        while st.turn != me { st = self.cvs[me].wait(st).unwrap(); }
    }

    fn finish(&self, me: usize) {
        let mut st = self.lock();
        st.alive[me] = false;
        match st.pick(me, self.verbose) {
            Some(next) => { st.turn = next; self.cvs[next].notify_one(); }
            None => { st.turn = NOBODY; self.main_cv.notify_one(); }
        }
    }

    /// Hands control to whichever worker the scheduler picks next (possibly this one).
    pub fn yield_now(&self, me: usize) {
        let mut st = self.lock();
        st.steps += 1;
        st.now += 1;
        interpose::advance(if st.fair { 1_000_000 } else { 1_000 });
        st.inject(self.verbose);
        if st.steps > st.fault_limit && !st.fair { st.go_fair(self.verbose); st.count_n("sched.forced_fair", 1); }
        if let Some(next) = st.pick(me, self.verbose) {
            if next != me {
                st.turn = next;
                self.cvs[next].notify_one();
                while st.turn != me { st = self.cvs[me].wait(st).unwrap(); }
            }
        }
    }
}

impl State {
    pub fn event(&mut self, verbose: bool, f: impl FnOnce() -> String, h: u64) {
        self.hash = interpose::splitmix(self.hash ^ h);
        if verbose { let s = f(); self.log.push(format!("[{}] {}", self.now, s)); }
    }
    pub fn count_n(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) { *v += n } else { self.counts.insert(k.to_string(), n); }
    }
    fn pick(&mut self, me: usize, verbose: bool) -> Option<usize> {
        let n = self.peers;
        let mut cands: Vec<usize> = (1..=n).map(|i| (me + i) % n).filter(|w| self.alive[*w]).collect();
        if cands.is_empty() { return None; }
        if self.fair { return Some(cands[0]); }
        let running: Vec<usize> = cands.iter().copied().filter(|w| self.stalled_until[*w] <= self.now).collect();
        if !running.is_empty() { cands = running; } else {
            // Everyone is stalled: time passes until the first stall ends.
            let t = cands.iter().map(|w| self.stalled_until[*w]).min().unwrap();
            self.now = self.now.max(t);
            let now = self.now;
            cands.retain(|w| self.stalled_until[*w] <= now);
        }
        if self.burst > 0 && cands.contains(&me) { self.burst -= 1; return Some(me); }
        let next = if cands.len() == 1 { cands[0] } else {
            let c = match self.style.kind {
                0 => self.tape.draw(Stream::Sched, cands.len() as u64),
                1 | 3 => {
                    let c = self.tape.draw(Stream::Sched, cands.len() as u64);
                    self.burst = self.tape.draw(Stream::Sched, if self.style.kind == 1 { 6 } else { 40 });
                    c
                }
                _ => {
                    let w: Vec<u32> = cands.iter().map(|c| if *c == self.style.slow { 1 } else { 12 }).collect();
                    self.tape.weighted(Stream::Sched, &w)
                }
            };
            cands[c as usize]
        };
        if next != me { self.event(verbose, || format!("run w{next}"), 0x5000 + next as u64); }
        Some(next)
    }
    fn go_fair(&mut self, verbose: bool) {
        self.fair = true;
        self.phase_steps = self.steps;
        for s in self.stalled_until.iter_mut() { *s = 0; }
        self.net.heal_all();
        let now = self.now;
        if verbose { self.log.push(format!("[{now}] -- faults stop; fair schedule from here --")); }
    }
    fn inject(&mut self, verbose: bool) {
        if self.fair || !self.faults_on || self.steps < self.next_fault { return; }
        let n = self.peers as u64;
        let kind = self.tape.weighted(Stream::Fault, &[4, 4, 2, 1]);
        match kind {
            0 => {
                let w = self.tape.draw(Stream::Fault, n) as usize;
                let d = 1 + self.tape.draw(Stream::Fault, 40) * (1 + self.tape.draw(Stream::Fault, 5));
                if n > 1 {
                    self.stalled_until[w] = self.now + d;
                    self.count_n("fault.stall", 1);
                    self.event(verbose, || format!("stall w{w} for {d}"), 0x6000 + w as u64);
                }
            }
            1 => {
                let a = self.tape.draw(Stream::Fault, n) as usize;
                let both = self.tape.draw(Stream::Fault, 2) == 1;
                let b = self.tape.draw(Stream::Fault, n) as usize;
                let d = 1 + self.tape.draw(Stream::Fault, 40) * (1 + self.tape.draw(Stream::Fault, 5));
                let until = self.now + d;
                self.net.partition(a, b, until);
                if both { self.net.partition(b, a, until); }
                self.count_n("fault.partition", 1);
                self.event(verbose, || format!("partition w{a}->w{b} both={both} for {d}"), 0x7000 + (a * 8 + b) as u64);
            }
            2 => {
                let us = 1 + self.tape.draw(Stream::Fault, 1_000_000);
                interpose::advance(us * 1_000);
                self.count_n("fault.clock_jump", 1);
                self.event(verbose, || format!("clock jumps {us}us"), 0x8000);
            }
            _ => {
                // All messages in flight on one channel are held back for a while.
                let c = self.tape.draw(Stream::Fault, 64) as usize;
                let d = 1 + self.tape.draw(Stream::Fault, 60);
                let until = self.now + d;
                if self.net.hold_channel(c, until) {
                    self.count_n("fault.channel_hold", 1);
                    self.event(verbose, || format!("hold channel #{c} for {d}"), 0x9000 + c as u64);
                }
            }
        }
        let gap = 1 + self.tape.draw(Stream::Fault, 120);
        self.next_fault = self.steps + gap;
    }
}

/// A simulated worker's handle on the simulation.
pub struct Ctx { pub sim: Arc<Sim>, pub index: usize, pub peers: usize }

impl Ctx {
    /// Lets the scheduler choose who runs, then performs one worker step.
    pub fn step(&self, worker: &mut Worker) {
        self.sim.yield_now(self.index);
        worker.step();
    }
    /// A schedule-chosen number of steps in `[0, max]`, biased to few.
    pub fn some_steps(&self, worker: &mut Worker, mut each: impl FnMut(&mut Worker)) {
        let n = match self.sim.schedw(&[3, 3, 2, 1]) { 0 => 0, 1 => 1, 2 => 2 + self.sim.sched(4), _ => 4 + self.sim.sched(30) };
        for _ in 0..n { self.step(worker); each(worker); }
    }
    /// Declares this worker's script finished; when all have, faults stop and scheduling becomes fair.
    pub fn script_done(&self) {
        let mut st = self.sim.lock();
        st.scripts_done += 1;
        if st.scripts_done >= st.peers && !st.fair { st.go_fair(self.sim.verbose); }
        st.phase_steps = st.steps;
    }
    /// Steps until every worker's condition for this phase has been true at least once since it began.
    pub fn settle(&self, worker: &mut Worker, phase: &str, mut cond: impl FnMut(&mut Worker) -> bool) {
        let mut mine = false;
        loop {
            if !mine && cond(worker) {
                mine = true;
                let mut st = self.sim.lock();
                let n = st.peers;
                st.settled.entry(phase.to_string()).or_insert_with(|| vec![false; n])[self.index] = true;
                st.phase_steps = st.steps;
            }
            {
                let st = self.sim.lock();
                if mine && st.settled[phase].iter().all(|b| *b) { break; }
                if st.fair && st.steps > st.phase_steps + st.fair_cap {
                    let who: Vec<bool> = st.settled.get(phase).cloned().unwrap_or_default();
                    drop(st);
                    self.sim.violate("liveness", format!("no completion of phase '{phase}' within the step bound after faults stopped; workers settled: {who:?}"));
                }
            }
            self.step(worker);
            if mine { cond(worker); }
        }
    }
}
