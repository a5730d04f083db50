//! Captured outputs with the finality invariant: nothing at a time some worker has seen complete.
use crate::Sim;
use std::fmt::Debug;
use std::sync::{Arc, Mutex};
use timely::progress::frontier::{Antichain, AntichainRef};
use timely::progress::Timestamp;

pub struct Rec<D, T, R> { pub worker: usize, pub data: D, pub time: T, pub diff: R, pub step: u64 }

struct Inner<D, T, R> { recs: Vec<Rec<D, T, R>>, fronts: Vec<Antichain<T>> }

/// Output of one captured collection across all workers.
pub struct Out<D, T, R> { pub name: String, inner: Arc<Mutex<Inner<D, T, R>>> }
impl<D, T, R> Clone for Out<D, T, R> { fn clone(&self) -> Self { Out { name: self.name.clone(), inner: self.inner.clone() } } }

impl<D: Debug + Clone, T: Timestamp, R: Debug + Clone> Out<D, T, R> {
    pub fn new(name: &str, peers: usize) -> Self {
        Out { name: name.to_string(), inner: Arc::new(Mutex::new(Inner { recs: vec![], fronts: vec![Antichain::from_elem(T::minimum()); peers] })) }
    }
    /// Records an emission; called from the capturing operator.
    pub fn push(&self, sim: &Sim, worker: usize, data: D, time: T, diff: R) {
        let mut inner = self.inner.lock().unwrap();
        sim.event(|| format!("out {} w{worker} {:?} @ {:?} {:?}", self.name, data, time, diff), hash_debug(&(&data, &time, &diff)));
        for (w, f) in inner.fronts.iter().enumerate() {
            if !f.less_equal(&time) {
                let msg = format!("output '{}': worker {worker} emitted ({data:?}, {time:?}, {diff:?}) but worker {w} had already seen frontier {:?}", self.name, f.elements());
                drop(inner);
                sim.violate("finality", msg);
            }
        }
        let step = sim.lock().steps;
        inner.recs.push(Rec { worker, data, time, diff, step });
    }
    /// Records a frontier observed by a worker's probe; frontiers must never regress.
    pub fn observe(&self, sim: &Sim, worker: usize, frontier: AntichainRef<T>) {
        let mut inner = self.inner.lock().unwrap();
        let old = &inner.fronts[worker];
        if old.borrow() == frontier { return; }
        for t in frontier.iter() {
            if !old.less_equal(t) {
                let msg = format!("output '{}': worker {worker}'s frontier regressed from {:?} to {:?}", self.name, old.elements(), frontier);
                drop(inner);
                sim.violate("regress", msg);
            }
        }
        sim.event(|| format!("frontier {} w{worker} {:?}", self.name, frontier), hash_debug(&frontier));
        inner.fronts[worker] = frontier.to_owned();
    }
    /// Times that some worker has seen complete are those not beyond one of these frontiers.
    pub fn complete_anywhere(&self, t: &T) -> bool { self.inner.lock().unwrap().fronts.iter().any(|f| !f.less_equal(t)) }
    pub fn len(&self) -> usize { self.inner.lock().unwrap().recs.len() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn times(&self) -> Vec<T> { let mut v: Vec<T> = self.inner.lock().unwrap().recs.iter().map(|r| r.time.clone()).collect(); v.sort(); v.dedup(); v }
    pub fn updates(&self) -> Vec<(D, T, R)> { self.inner.lock().unwrap().recs.iter().map(|r| (r.data.clone(), r.time.clone(), r.diff.clone())).collect() }
    pub fn with<X>(&self, f: impl FnOnce(&[Rec<D, T, R>]) -> X) -> X { f(&self.inner.lock().unwrap().recs) }
}
/// Differences which are integers.
pub trait Num: Copy { fn num(self) -> i64; }
impl Num for i64 { fn num(self) -> i64 { self } }
impl Num for isize { fn num(self) -> i64 { self as i64 } }
impl Num for i32 { fn num(self) -> i64 { self as i64 } }
impl<D: Debug + Clone + Ord, T: Timestamp, R: Num> Out<D, T, R> {
    /// Accumulated contents at `t`, without zeros.
    pub fn at(&self, t: &T) -> std::collections::BTreeMap<D, i64> {
        let mut m = std::collections::BTreeMap::new();
        for r in self.inner.lock().unwrap().recs.iter() {
            if r.time.less_equal(t) { *m.entry(r.data.clone()).or_insert(0) += r.diff.num(); }
        }
        m.retain(|_, v| *v != 0);
        m
    }
}

pub fn hash_debug<T: Debug>(t: &T) -> u64 {
    use std::fmt::Write;
    struct H(u64);
    impl Write for H { fn write_str(&mut self, s: &str) -> std::fmt::Result { for b in s.bytes() { self.0 ^= b as u64; self.0 = self.0.wrapping_mul(0x100000001b3); } Ok(()) } }
    let mut h = H(0xcbf29ce484222325);
    let _ = write!(h, "{t:?}");
    h.0
}
