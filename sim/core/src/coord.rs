//! Runs seeds in parallel OS processes, gathers coverage, minimises and replays violations.
use crate::tape::{Tape, STREAMS};
use crate::{attach, interpose, Sim};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// A check: one property's scenario and its budget.
pub struct Check {
    pub id: &'static str,
    pub scenario: fn(&Arc<Sim>),
    /// Runs in the quick tier.
    pub quick_runs: u64,
    /// Wall-clock seconds in the thorough tier.
    pub thorough_secs: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
    pub index: u64,
    pub seed: u64,
    pub hash: u64,
    pub steps: u64,
    pub tape: [Vec<u32>; 4],
    #[serde(default)]
    pub trace: Vec<String>,
    #[serde(default)]
    pub describe: Vec<String>,
}

#[derive(Serialize, Deserialize, Default, Debug)]
struct RunLine { i: u64, h: u64, n: bool, steps: u64, ns: u64, #[serde(default)] d: Vec<String>, c: BTreeMap<String, u64> }

static OUT_FD: AtomicI32 = AtomicI32::new(-1);
static CUR_INDEX: AtomicU64 = AtomicU64::new(0);
static CUR_SEED: AtomicU64 = AtomicU64::new(0);

fn write_line(s: &str) {
    let fd = OUT_FD.load(Ordering::SeqCst);
    if fd < 0 { println!("{s}"); return; }
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
    let _ = f.write_all(format!("{s}\n").as_bytes());
}

/// Where reports go when there is no coordinator and standard output is being captured.
pub fn report_to(fd: i32) { let _ = OUT_FD.compare_exchange(-1, fd, Ordering::SeqCst, Ordering::SeqCst); }

/// Reports a violation from inside a simulation process, and ends the process.
pub fn report_violation(sim: Option<&Sim>, class: &str, msg: &str) -> ! {
    static ONCE: Mutex<bool> = Mutex::new(false);
    let mut once = match ONCE.try_lock() { Ok(g) => g, Err(_) => loop { std::thread::park() } };
    if *once { unsafe { libc::_exit(10) } }
    *once = true;
    interpose::leave();
    let mut v = Violation { class: class.into(), msg: msg.into(), index: CUR_INDEX.load(Ordering::SeqCst), seed: CUR_SEED.load(Ordering::SeqCst), hash: 0, steps: 0, tape: Default::default(), trace: vec![], describe: vec![] };
    if let Some(sim) = sim {
        // The baton holder may hold the lock if it panicked inside the simulator itself.
        for _ in 0..100 {
            if let Some(st) = sim.try_lock_state() {
                v.hash = st.hash; v.steps = st.steps; v.tape = st.tape.vals.clone();
                let used = st.tape.used();
                for i in 0..4 { v.tape[i].truncate(used[i]); }
                v.trace = st.log.clone();
                v.describe = st.describe.clone();
                for t in st.tags.iter() { v.msg.push_str(&format!(" [{t}]")); }
                break;
            }
            std::thread::yield_now();
        }
    }
    write_line(&format!("V {}", serde_json::to_string(&v).unwrap()));
    unsafe { libc::_exit(10) }
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        let sim = crate::try_sim();
        let bt = if std::env::var("SIM_BACKTRACE").is_ok() { interpose::leave(); format!("\n{}", std::backtrace::Backtrace::force_capture()) } else { String::new() };
        let file = loc.rsplit('/').next().unwrap_or("").to_string();
        report_violation(sim.as_deref(), &format!("panic:{file}"), &format!("panicked at {loc}: {msg}{bt}"));
    }));
}

extern "C" fn on_alarm(_: libc::c_int) {
    // Async-signal-safe: a preformatted line and exit; the coordinator fills in the rest.
    let fd = OUT_FD.load(Ordering::SeqCst);
    let s = b"H\n";
    unsafe { libc::write(if fd < 0 { 1 } else { fd }, s.as_ptr() as *const _, s.len()); libc::_exit(11) }
}
const HANG_CPU_SECS: i64 = 40;
fn arm(secs: i64) {
    let it = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: secs, tv_usec: 0 } };
    unsafe { libc::syscall(libc::SYS_setitimer, 1 as libc::c_int, &it as *const _, std::ptr::null_mut::<libc::itimerval>()); }
}

fn pin(slot: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set) != 0 { return; }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
        if cpus.is_empty() { return; }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[slot % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &one);
    }
}
fn ncpu() -> usize {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set) != 0 { return 1; }
        (libc::CPU_COUNT(&set) as usize).clamp(1, 16)
    }
}

pub fn run_seed(id: &str, verif_seed: u64, index: u64) -> u64 {
    let mut h = interpose::splitmix(verif_seed);
    for b in id.bytes() { h = interpose::splitmix(h ^ b as u64); }
    interpose::splitmix(h ^ interpose::splitmix(index))
}

fn one_run(check: &Check, seed: u64, tape: Tape, index: u64, verbose: bool) -> RunLine {
    CUR_INDEX.store(index, Ordering::SeqCst);
    CUR_SEED.store(seed, Ordering::SeqCst);
    arm(HANG_CPU_SECS);
    interpose::enter(seed);
    let sim = Sim::new(seed, tape, verbose);
    attach(&sim, usize::MAX - 1);
    (check.scenario)(&sim);
    let ns = interpose::now_ns() - 1_000_000_000;
    let reads = interpose::CLOCK_READS.load(Ordering::SeqCst);
    let rnd = interpose::RANDOM_READS.load(Ordering::SeqCst);
    interpose::leave();
    arm(0);
    let mut st = sim.lock();
    let (s, d, r) = (st.net.sent, st.net.delayed, st.net.reordered);
    st.count_n("net.sent", s); st.count_n("net.delayed", d); st.count_n("net.cross_channel_reordered", r);
    st.count_n("seam.clock_reads", reads); st.count_n("seam.random_reads", rnd);
    if verbose { for l in &st.log { println!("{l}"); } }
    RunLine { i: index, h: st.hash, n: st.nontrivial, steps: st.steps, ns, d: st.describe.clone(), c: st.counts.clone() }
}

fn child_main(checks: &[Check], args: &[String]) -> ! {
    // child <id> <verif_seed> <start> <stride> <count> <slot> <fd-path> | child <id> replay <tape.json> <slot> <out> <verbose>
    let check = checks.iter().find(|c| c.id == args[0]).expect("check");
    let (slot, out) = if args[1] == "replay" { (args[3].parse().unwrap(), &args[4]) } else { (args[5].parse::<usize>().unwrap(), &args[6]) };
    pin(slot);
    unsafe {
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        libc::signal(libc::SIGVTALRM, on_alarm as *const () as libc::sighandler_t);
    }
    let f = std::fs::OpenOptions::new().create(true).append(true).open(out).expect("out");
    OUT_FD.store(f.as_raw_fd(), Ordering::SeqCst);
    std::mem::forget(f);
    install_panic_hook();
    if args[1] == "replay" {
        let v: Violation = serde_json::from_str::<Violation>(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
        let verbose = args[5] == "1";
        let by_seed = v.class == "hang" || v.class == "crash";
        let tape = if by_seed { Tape::random(v.seed) } else { Tape::replay(v.tape) };
        let l = one_run(check, v.seed, tape, v.index, verbose);
        write_line(&format!("R {}", serde_json::to_string(&l).unwrap()));
        unsafe { libc::_exit(0) }
    }
    let p = |i: usize| args[i].parse::<u64>().unwrap();
    let (vseed, start, stride, count) = (p(1), p(2), p(3), p(4));
    for k in 0..count {
        let index = start + k * stride;
        write_line(&format!("B {index}"));
        let seed = run_seed(check.id, vseed, index);
        let l = one_run(check, seed, Tape::random(seed), index, false);
        write_line(&format!("R {}", serde_json::to_string(&l).unwrap()));
    }
    write_line("D");
    unsafe { libc::_exit(0) }
}

fn scratch() -> PathBuf {
    let d = PathBuf::from(std::env::var("SIM_SCRATCH").unwrap_or_else(|_| "/verif/.build/scratch".into()));
    let _ = std::fs::create_dir_all(&d);
    d
}

fn exe() -> PathBuf { std::env::current_exe().unwrap() }

/// Result of replaying one tape in a fresh process: a violation, or the clean run's hash.
enum Outcome { Violated(Violation), Clean(#[allow(dead_code)] RunLine) }

fn replay_tape(id: &str, v: &Violation, slot: usize, verbose: bool) -> Outcome {
    let dir = scratch();
    static N: AtomicU64 = AtomicU64::new(0);
    let n = N.fetch_add(1, Ordering::SeqCst);
    let tp = dir.join(format!("tape-{}-{}.json", std::process::id(), n));
    let op = dir.join(format!("out-{}-{}.txt", std::process::id(), n));
    let mut t = v.clone(); t.trace.clear();
    std::fs::write(&tp, serde_json::to_string(&t).unwrap()).unwrap();
    let _ = std::fs::remove_file(&op);
    let mut ch = Command::new(exe()).args(["child", id, "replay"]).arg(&tp).arg(slot.to_string()).arg(&op).arg(if verbose { "1" } else { "0" })
        .stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn");
    let status = wait_or_kill(&mut ch, 120);
    let text = std::fs::read_to_string(&op).unwrap_or_default();
    let _ = std::fs::remove_file(&tp); let _ = std::fs::remove_file(&op);
    for line in text.lines() {
        if let Some(j) = line.strip_prefix("V ") { if let Ok(x) = serde_json::from_str(j) { return Outcome::Violated(x); } }
        if let Some(j) = line.strip_prefix("R ") { if let Ok(x) = serde_json::from_str(j) { return Outcome::Clean(x); } }
        if line == "H" { return Outcome::Violated(Violation { class: "hang".into(), msg: format!("one run used more than {HANG_CPU_SECS} s of CPU time without finishing"), trace: vec![], ..t }); }
    }
    Outcome::Violated(Violation { class: "crash".into(), msg: format!("the process died: {status}"), trace: vec![], ..t })
}

fn wait_or_kill(ch: &mut std::process::Child, secs: u64) -> String {
    let t0 = interpose::real_ns();
    loop {
        if let Ok(Some(s)) = ch.try_wait() { return format!("{s}"); }
        if interpose::real_ns() - t0 > secs * 1_000_000_000 { let _ = ch.kill(); let _ = ch.wait(); return "deadlock: no end within the wall-clock limit".into(); }
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
}

/// Shrinks the tape while a violation of the same class persists.
fn minimise(id: &str, v: Violation, budget_s: u64) -> (Violation, u64) {
    let t0 = interpose::real_ns();
    let out_of_time = || interpose::real_ns() - t0 > budget_s * 1_000_000_000;
    let mut best = v;
    let mut tried = 0u64;
    let par = ncpu();
    let kn = &known(id);
    // Tries candidates in parallel batches, takes the first (in order) which still violates.
    let try_batch = |best: &Violation, cands: Vec<[Vec<u32>; 4]>| -> Option<Violation> {
        let outs: Vec<Option<Violation>> = std::thread::scope(|s| {
            let hs: Vec<_> = cands.into_iter().enumerate().map(|(i, tape)| {
                let mut c = best.clone(); c.tape = tape; c.trace.clear();
                s.spawn(move || match replay_tape(id, &c, i, false) { Outcome::Violated(mut x) if x.class == c.class && match_known(kn, &x).is_none() => { if x.tape.iter().all(|t| t.is_empty()) { x.tape = c.tape.clone(); } x.seed = c.seed; x.index = c.index; Some(x) } _ => None })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        outs.into_iter().flatten().next()
    };
    let size = |t: &[Vec<u32>; 4]| -> (usize, u64) { (t.iter().map(|s| s.iter().rposition(|x| *x != 0).map(|p| p + 1).unwrap_or(0)).sum(), t.iter().map(|s| s.iter().map(|x| *x as u64).sum::<u64>()).sum()) };
    let trim = |t: &mut [Vec<u32>; 4]| for s in t.iter_mut() { while s.last() == Some(&0) { s.pop(); } };
    trim(&mut best.tape);
    loop {
        let before = size(&best.tape);
        // whole-stream zeroing, then truncations, then block deletion / zeroing, then value reduction
        for stream in [3usize, 2, 1, 0] {
            let mut chunk = best.tape[stream].len().max(1);
            while chunk >= 1 && !out_of_time() {
                let mut pos = 0;
                while pos < best.tape[stream].len() && !out_of_time() {
                    let mut cands = vec![];
                    let mut p = pos;
                    while cands.len() + 2 <= par.max(2) && p < best.tape[stream].len() {
                        let e = (p + chunk).min(best.tape[stream].len());
                        if best.tape[stream][p..e].iter().any(|x| *x != 0) {
                            let mut z = best.tape.clone();
                            for x in z[stream][p..e].iter_mut() { *x = 0; }
                            trim(&mut z);
                            cands.push(z);
                        }
                        let mut d = best.tape.clone();
                        d[stream].drain(p..e);
                        trim(&mut d);
                        cands.push(d);
                        p = e;
                    }
                    tried += cands.len() as u64;
                    match try_batch(&best, cands) {
                        Some(mut x) => { trim(&mut x.tape); if size(&x.tape) < size(&best.tape) { best = x; } else { pos = p; } }
                        None => pos = p,
                    }
                }
                if chunk == 1 { break; }
                chunk = (chunk / 2).max(1);
                if chunk < 4 && best.tape[stream].len() > 400 { break; }
            }
            let mut p = 0;
            while p < best.tape[stream].len() && !out_of_time() && best.tape[stream].len() <= 400 {
                let v0 = best.tape[stream][p];
                if v0 > 1 {
                    let cands: Vec<_> = [1, v0 / 2, v0 - 1].iter().map(|n| { let mut c = best.tape.clone(); c[stream][p] = *n; c }).collect();
                    tried += cands.len() as u64;
                    if let Some(mut x) = try_batch(&best, cands) { trim(&mut x.tape); if size(&x.tape) < size(&best.tape) { best = x; continue; } }
                }
                p += 1;
            }
        }
        if size(&best.tape) >= before || out_of_time() { break; }
    }
    (best, tried)
}

fn write_replay(path: &Path, id: &str, tier: &str, vseed: u64, v: &Violation, original: &Violation, tried: u64) {
    let tape: BTreeMap<&str, &Vec<u32>> = STREAMS.iter().copied().zip(v.tape.iter()).collect();
    let j = serde_json::json!({
        "property": id, "class": v.class, "message": v.msg, "verif_seed": vseed, "tier": tier, "run_index": v.index, "run_seed": v.seed,
        "event_hash": v.hash, "steps": v.steps, "tape": tape, "scenario": v.describe, "trace": v.trace,
        "original": {"class": original.class, "message": original.msg, "steps": original.steps, "tape_lengths": original.tape.iter().map(|t| t.len()).collect::<Vec<_>>()},
        "minimisation_candidates": tried,
        "how_to_replay": format!("./check {id} --replay {}", path.display()),
    });
    if let Some(p) = path.parent() { let _ = std::fs::create_dir_all(p); }
    std::fs::write(path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

fn read_replay(path: &str) -> (String, Violation) {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let mut tape: [Vec<u32>; 4] = Default::default();
    for (i, s) in STREAMS.iter().enumerate() { tape[i] = serde_json::from_value(j["tape"][*s].clone()).unwrap_or_default(); }
    let s = |k: &str| j[k].as_str().unwrap_or("").to_string();
    let u = |k: &str| j[k].as_u64().unwrap_or(0);
    (s("property"), Violation { class: s("class"), msg: s("message"), index: u("run_index"), seed: u("run_seed"), hash: u("event_hash"), steps: u("steps"), tape, trace: vec![], describe: vec![] })
}

/// One run in this many (up to 256 of them) is executed a second time, alone in a new process, and must have the same hash.
const REPEAT_EVERY: u64 = 97;

#[derive(Default)]
struct Tally { runs: u64, steps: u64, sim_ns: u64, nontrivial: u64, hashes: HashMap<u64, u64>, distinct_nt: HashSet<u64>, counts: BTreeMap<String, u64>, samples: Vec<serde_json::Value>, runs_with: BTreeMap<String, u64>, repeat: Vec<(u64, u64)> }

impl Tally {
    fn add(&mut self, r: RunLine) {
        if r.i % REPEAT_EVERY == 0 && self.repeat.len() < 256 { self.repeat.push((r.i, r.h)); }
        self.runs += 1; self.steps += r.steps; self.sim_ns += r.ns;
        if r.n { self.nontrivial += 1; self.distinct_nt.insert(r.h); }
        *self.hashes.entry(r.h).or_default() += 1;
        if r.n && self.samples.len() < 3 { self.samples.push(serde_json::json!({"run": r.i, "event_hash": format!("{:016x}", r.h), "steps": r.steps, "scenario": r.d})); }
        for (k, v) in r.c { if v > 0 { *self.runs_with.entry(k.clone()).or_default() += 1; } *self.counts.entry(k).or_default() += v; }
    }
}

/// Executes runs `from ..= to` in one new process; the violation that ends it, if any.
fn run_range(id: &str, vseed: u64, from: u64, to: u64) -> Option<Violation> {
    let op = scratch().join(format!("range-{}-{}.txt", std::process::id(), from));
    let _ = std::fs::remove_file(&op); std::fs::File::create(&op).unwrap();
    let mut ch = Command::new(exe()).args(["child", id, &vseed.to_string(), &from.to_string(), "1", &(to - from + 1).to_string(), "0"]).arg(&op).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    wait_or_kill(&mut ch, 600);
    let t = std::fs::read_to_string(&op).unwrap_or_default();
    let _ = std::fs::remove_file(&op);
    t.lines().find_map(|l| l.strip_prefix("V ").and_then(|j| serde_json::from_str::<Violation>(j).ok()))
}
/// Executes each of these runs again, alone in a new process; how many were executed and which had another hash.
fn repeat(id: &str, vseed: u64, runs: &[(u64, u64)], workers: usize) -> (u64, Vec<u64>) {
    let (next, done, other) = (AtomicU64::new(0), AtomicU64::new(0), Mutex::new(vec![]));
    std::thread::scope(|s| {
        for slot in 0..workers {
            let (next, done, other) = (&next, &done, &other);
            s.spawn(move || loop {
                let Some((i, h)) = runs.get(next.fetch_add(1, Ordering::SeqCst) as usize) else { break };
                let op = scratch().join(format!("repeat-{}-{}.txt", std::process::id(), slot));
                let _ = std::fs::remove_file(&op); std::fs::File::create(&op).unwrap();
                let mut ch = Command::new(exe()).args(["child", id, &vseed.to_string(), &i.to_string(), "1", "1", &slot.to_string()]).arg(&op).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
                wait_or_kill(&mut ch, 200);
                let t = std::fs::read_to_string(&op).unwrap_or_default();
                let _ = std::fs::remove_file(&op);
                if let Some(r) = t.lines().find_map(|l| l.strip_prefix("R ").and_then(|j| serde_json::from_str::<RunLine>(j).ok())) {
                    done.fetch_add(1, Ordering::SeqCst);
                    if r.h != *h { other.lock().unwrap().push(*i); }
                }
            });
        }
    });
    (done.into_inner(), other.into_inner().unwrap())
}

/// The finding a violation is an instance of; a class ending in '*' is a prefix (panics carry line numbers).
fn match_known(kn: &[(String, String, String)], v: &Violation) -> Option<(String, String, String)> {
    kn.iter().find(|(c, m, _)| (match c.strip_suffix('*') { Some(p) => v.class.starts_with(p), None => *c == v.class }) && v.msg.contains(m.as_str())).cloned()
}
/// Known findings: lines "KNOWN property=<id> class=<class> match=<substring of the message>".
fn known(id: &str) -> Vec<(String, String, String)> {
    let text = std::fs::read_to_string(std::env::var("SIM_KNOWN").unwrap_or_else(|_| "/verif/known_findings.txt".into())).unwrap_or_default();
    text.lines().filter_map(|l| {
        let l = l.strip_prefix("KNOWN property=")?;
        let (p, rest) = l.split_once(" class=")?;
        let (class, rest) = rest.split_once(" match=")?;
        let (m, what) = rest.split_once(" -- ").unwrap_or((rest, rest));
        (p == id).then(|| (class.to_string(), m.trim().to_string(), what.to_string()))
    }).collect()
}

pub fn main(checks: &[Check]) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|s| s.as_str()) == Some("child") { child_main(checks, &args[1..]); }
    let id = args.first().cloned().unwrap_or_default();
    let Some(check) = checks.iter().find(|c| c.id == id) else { eprintln!("unknown check {id}; have {:?}", checks.iter().map(|c| c.id).collect::<Vec<_>>()); std::process::exit(2) };
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let vseed: u64 = opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    if let Some(f) = opt("--replay") {
        let (pid, v) = read_replay(&f);
        if pid != id { eprintln!("replay file is for {pid}"); std::process::exit(2); }
        let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        if let (Some(from), Some(seed)) = (j["after_runs_from"].as_u64(), j["verif_seed"].as_u64()) {
            match run_range(&id, seed, from, v.index) {
                Some(x) => {
                    println!("class={} message={}\nidentical to the recorded execution: {}", x.class, x.msg, x.class == v.class && x.hash == v.hash && x.index == v.index);
                    println!("VIOLATION property={id} replay={f}");
                    std::process::exit(1)
                }
                None => { println!("replay: no violation"); std::process::exit(0) }
            }
        }
        match replay_tape(&id, &v, 0, true) {
            Outcome::Violated(x) => {
                for l in x.trace.iter().rev().take(60).rev() { println!("  {l}"); }
                let same = x.class == v.class && (v.hash == 0 || x.hash == v.hash);
                println!("class={} message={}\nidentical to the recorded execution: {}", x.class, x.msg, same);
                println!("VIOLATION property={id} replay={f}");
                std::process::exit(1)
            }
            Outcome::Clean(_) => { println!("replay: no violation"); std::process::exit(0) }
        }
    }
    if let Some(i) = opt("--one") {
        // Debug aid: one run by index, in this process, verbosely.
        let index: u64 = i.parse().unwrap();
        install_panic_hook();
        let seed = run_seed(&id, vseed, index);
        let l = one_run(check, seed, Tape::random(seed), index, true);
        println!("{}", serde_json::to_string(&l).unwrap());
        std::process::exit(0);
    }
    let t0 = interpose::real_ns();
    let elapsed = || (interpose::real_ns() - t0) as f64 / 1e9;
    let thorough = tier == "thorough";
    let runs = opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { u64::MAX / 4 } else { check.quick_runs });
    let wall: f64 = opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { check.thorough_secs as f64 } else { 240.0 });
    let workers = opt("--procs").and_then(|s| s.parse().ok()).unwrap_or_else(ncpu);
    let dir = scratch();
    let tally = Mutex::new(Tally::default());
    let found: Mutex<Vec<(Violation, u64)>> = Mutex::new(vec![]);
    let kn = known(&id);
    let known_hits: Mutex<BTreeMap<String, (u64, u64)>> = Mutex::new(BTreeMap::new());
    let next = AtomicU64::new(opt("--from").and_then(|s| s.parse().ok()).unwrap_or(0));
    let end = next.load(Ordering::SeqCst).saturating_add(runs);
    let lowest_bad = AtomicU64::new(u64::MAX);
    let batch = (runs / (workers as u64 * 8)).clamp(1, 200);
    let is_known = |v: &Violation| match_known(&kn, v);
    std::thread::scope(|s| {
        for slot in 0..workers {
            let (tally, found, next, lowest_bad, dir, id) = (&tally, &found, &next, &lowest_bad, &dir, &id);
            let (is_known, known_hits, elapsed) = (&is_known, &known_hits, &elapsed);
            s.spawn(move || loop {
                let start = next.fetch_add(batch, Ordering::SeqCst);
                // Runs below an already found violation are still completed, so the verdict is the lowest index.
                if start >= end || start > lowest_bad.load(Ordering::SeqCst) || elapsed() > wall { break; }
                let mut from = start;
                let stop = (start + batch).min(end);
                while from < stop {
                    let op = dir.join(format!("runs-{}-{}-{}.txt", std::process::id(), slot, from));
                    let _ = std::fs::remove_file(&op);
                    std::fs::File::create(&op).unwrap();
                    let mut ch = Command::new(exe()).args(["child", id, &vseed.to_string(), &from.to_string(), "1", &(stop - from).to_string(), &slot.to_string()]).arg(&op)
                        .stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn child");
                    // A child is judged by its CPU time (timer inside) and, against deadlock, by lack of output.
                    let mut last_len = 0; let mut last_t = interpose::real_ns();
                    let status = loop {
                        if let Ok(Some(st)) = ch.try_wait() { break format!("{st}"); }
                        let len = std::fs::metadata(&op).map(|m| m.len()).unwrap_or(0);
                        if len != last_len { last_len = len; last_t = interpose::real_ns(); }
                        if interpose::real_ns() - last_t > 180_000_000_000 { let _ = ch.kill(); let _ = ch.wait(); break "deadlock: no progress for 180 s".into(); }
                        std::thread::sleep(std::time::Duration::from_millis(5));
                    };
                    let f = std::fs::File::open(&op).unwrap();
                    let mut cur = from; let mut done = false; let mut bad = None;
                    for line in BufReader::new(f).lines() {
                        let Ok(line) = line else { break };
                        if let Some(i) = line.strip_prefix("B ") { cur = i.parse().unwrap_or(cur); }
                        else if let Some(j) = line.strip_prefix("R ") { if let Ok(r) = serde_json::from_str::<RunLine>(j) { tally.lock().unwrap().add(r); } }
                        else if let Some(j) = line.strip_prefix("V ") { bad = serde_json::from_str::<Violation>(j).ok(); }
                        else if line == "H" { bad = Some(Violation { class: "hang".into(), msg: format!("one run used more than {HANG_CPU_SECS} s of CPU time without finishing"), index: cur, seed: run_seed(id, vseed, cur), hash: 0, steps: 0, tape: Default::default(), trace: vec![], describe: vec![] }); }
                        else if line == "D" { done = true; }
                    }
                    let _ = std::fs::remove_file(&op);
                    if !done && bad.is_none() {
                        bad = Some(Violation { class: "crash".into(), msg: format!("the process died: {status}"), index: cur, seed: run_seed(id, vseed, cur), hash: 0, steps: 0, tape: Default::default(), trace: vec![], describe: vec![] });
                    }
                    match bad {
                        Some(v) => {
                            let i = v.index;
                            if let Some((_, _, what)) = is_known(&v) {
                                let mut k = known_hits.lock().unwrap();
                                let e = k.entry(what).or_insert((0, i)); e.0 += 1; e.1 = e.1.min(i);
                                from = i + 1;
                                continue;
                            }
                            lowest_bad.fetch_min(i, Ordering::SeqCst);
                            found.lock().unwrap().push((v, from));
                            break;
                        }
                        None => break,
                    }
                }
            });
        }
    });
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|v| v.0.index);
    let tally = tally.into_inner().unwrap();
    let explored = elapsed();
    let mut violations = 0;
    let mut exit = 0;
    // Every listed finding is announced, met this time or not.
    for k in kn.iter() { known_hits.lock().unwrap().entry(k.2.clone()).or_insert((0, 0)); }
    for (what, (n, i)) in known_hits.lock().unwrap().iter() { if *n == 0 { println!("KNOWN-FINDING: property={id} {what} (not hit in these runs)"); } else { println!("KNOWN-FINDING: property={id} {what} (hit in {n} runs, first run {i})"); } }
    let mut min_info = serde_json::Value::Null;
    if let Some((v, batch_from)) = found.first().cloned() {
        // Fill in the tape of a run that died without reporting one: the generator is a pure function of the seed.
        let mut v = v;
        let no_tape = v.tape.iter().all(|t| t.is_empty());
        if no_tape { v.tape = Default::default(); }
        println!("run {} (seed {}) violates {}: [{}] {}", v.index, v.seed, id, v.class, v.msg);
        let replay_dir = std::env::var("SIM_REPLAYS").unwrap_or_else(|_| "/verif/replays".into());
        let path = PathBuf::from(replay_dir).join(format!("{id}-seed{vseed}-run{}.json", v.index));
        if no_tape {
            // Crash or hang: confirm by re-running the same seed in a fresh process.
            let mut confirmed = false;
            for _ in 0..2 {
                let op = dir.join(format!("confirm-{}.txt", std::process::id()));
                let _ = std::fs::remove_file(&op); std::fs::File::create(&op).unwrap();
                let mut ch = Command::new(exe()).args(["child", &id, &vseed.to_string(), &v.index.to_string(), "1", "1", "0"]).arg(&op).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
                wait_or_kill(&mut ch, 200);
                let t = std::fs::read_to_string(&op).unwrap_or_default();
                let _ = std::fs::remove_file(&op);
                if !t.lines().any(|l| l == "D") { confirmed = true; break; }
            }
            if !confirmed { println!("harness error: run {} did not fail again", v.index); std::process::exit(2); }
            write_replay(&path, &id, &tier, vseed, &v, &v, 0);
        } else {
            let mut alone = true;
            match replay_tape(&id, &v, 0, false) {
                Outcome::Violated(x) if x.class == v.class => {}
                Outcome::Violated(x) => println!("note: the replay violates differently: [{}] {}", x.class, x.msg),
                Outcome::Clean(_) => {
                    // State left behind in the process by earlier runs (a static or thread local of the code under test) may
                    // be part of what fails: then the executions from the start of the process on are the replay.
                    let again = run_range(&id, vseed, batch_from, v.index);
                    if !matches!(&again, Some(x) if x.class == v.class && x.index == v.index) { println!("harness error: run {} did not fail again when its tape was replayed", v.index); std::process::exit(2); }
                    alone = false;
                }
            }
            if !alone {
                println!("run {} fails only after runs {}.. of the same process: state outlives a run", v.index, batch_from);
                write_replay(&path, &id, &tier, vseed, &v, &v, 0);
                let mut j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&path).unwrap()).unwrap();
                j["after_runs_from"] = batch_from.into();
                std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
            } else {
            let budget = opt("--min-secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 120 } else { 25 });
            let original = v.clone();
            let (m, tried) = minimise(&id, v.clone(), budget);
            let fin = match replay_tape(&id, &m, 0, true) { Outcome::Violated(mut x) if x.class == m.class => { x.tape = m.tape.clone(); x.seed = m.seed; x.index = m.index; x }, _ => original.clone() };
            println!("minimised: tape lengths {:?} -> {:?}, steps {} -> {} ({} candidates); [{}] {}", original.tape.iter().map(|t| t.len()).collect::<Vec<_>>(), fin.tape.iter().map(|t| t.len()).collect::<Vec<_>>(), original.steps, fin.steps, tried, fin.class, fin.msg);
            for d in &fin.describe { println!("  scenario: {d}"); }
            min_info = serde_json::json!({"candidates": tried, "steps_before": original.steps, "steps_after": fin.steps});
            write_replay(&path, &id, &tier, vseed, &fin, &original, tried);
            }
        }
        println!("VIOLATION property={id} replay={}", path.display());
        violations = found.len();
        exit = 1;
    }
    let (repeated, differing) = if exit == 0 { repeat(&id, vseed, &tally.repeat, workers) } else { (0, vec![]) };
    if !differing.is_empty() { println!("note: {} of {} runs executed a second time had another event hash, e.g. run {}", differing.len(), repeated, differing[0]); }
    let fault_kinds: BTreeMap<&String, &u64> = tally.counts.iter().filter(|(k, _)| k.starts_with("fault.")).collect();
    let probes: BTreeMap<&String, &u64> = tally.counts.iter().filter(|(k, _)| !k.starts_with("fault.")).collect();
    let hours = explored / 3600.0;
    let ev = serde_json::json!({
        "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": vseed, "level": check.level,
        "coverage": {
            "evaluations": tally.runs,
            "distinct_nontrivial": tally.distinct_nt.len(),
            "rule": check.rule,
            "samples": tally.samples,
            "nontrivial_runs": tally.nontrivial,
            "distinct_executions": tally.hashes.len(),
            "distinct_measure": "hash over every scheduling decision, message sent and delivered (with content), observed frontier and output of a run",
            "runs_repeated": repeated,
            "repeats_differing": differing.len(),
            "scheduler_steps": tally.steps,
            "simulated_seconds": tally.sim_ns as f64 / 1e9,
            "runs_per_hour": if hours > 0.0 { (tally.runs as f64 / hours) as u64 } else { 0 },
            "faults_injected": fault_kinds,
            "counters": probes,
            "runs_with_counter": tally.runs_with,
            "components_real": check.real,
            "components_stubbed": check.stub,
            "processes": workers,
            "minimisation": min_info,
            "known_findings_hit": known_hits.lock().unwrap().iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
        },
        "assumptions": check.assumptions,
        "wall_s": elapsed(),
        "violations": violations,
    });
    let epath = opt("--evidence").unwrap_or_else(|| format!("/verif/evidence/{id}.json"));
    if let Some(p) = Path::new(&epath).parent() { let _ = std::fs::create_dir_all(p); }
    std::fs::write(&epath, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{id}: {} runs ({} distinct, {} nontrivial distinct), {} steps, {:.1} s explored, {} violations", tally.runs, tally.hashes.len(), tally.distinct_nt.len(), tally.steps, explored, violations);
    if opt("--hashes").is_some() {
        let mut v: Vec<_> = tally.hashes.keys().collect(); v.sort();
        let mut h = 0u64; for x in v { h = interpose::splitmix(h ^ x); }
        println!("combined execution hash {h:016x}");
    }
    if exit == 0 && tally.runs == 0 { println!("harness error: no runs"); exit = 2; }
    std::process::exit(exit);
}
