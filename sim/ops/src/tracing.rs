//! Reading traces, and driving them on their own, against the updates they were given.
use crate::dag::{Coll, Level, Row};
use differential_dataflow::operators::arrange::Arranged;
use crate::drive::*;
use differential_dataflow::lattice::antichain_join;
use differential_dataflow::trace::implementations::BatchContainer;
use differential_dataflow::trace::{BatchCursor, BatchReader, Batcher, Builder, Cursor, Navigable, Trace, TraceReader};
use simcore::Sim;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::sync::{Arc, Mutex};
use timely::container::ContainerBuilder;
use timely::dataflow::operators::generic::OperatorInfo;
use timely::order::PartialOrder;
use timely::progress::Antichain;
use timely::Container;

/// How rows are stored as the keys, values and differences of a trace.
pub trait Shape: 'static {
    type K: Ord + Clone + Debug + 'static; type V: Ord + Clone + Debug + 'static; type R: 'static;
    fn row(k: &Self::K, v: &Self::V) -> Row; fn key(r: Row) -> Self::K; fn val(r: Row) -> Self::V;
    fn diff(r: &Self::R) -> i64; fn of(r: i64) -> Self::R;
    /// `Level::on_arranged`, where keys are rows.
    fn total<'s, T: Level, Tr>(_a: Arranged<'s, Tr>, _counts: bool) -> Coll<'s, T>
    where Tr: TraceReader<Time = T, Batch: Navigable> + Clone + 'static, for<'a> BatchCursor<Tr>: Cursor<Key<'a> = &'a Self::K, Val<'a> = &'a Self::V, Time = T, Diff = isize, DiffGat<'a> = &'a isize> { unimplemented!() }
}
pub struct KV;
impl Shape for KV { type K = u64; type V = u64; type R = isize; fn row(k: &u64, v: &u64) -> Row { (*k, *v) } fn key(r: Row) -> u64 { r.0 } fn val(r: Row) -> u64 { r.1 } fn diff(r: &isize) -> i64 { *r as i64 } fn of(r: i64) -> isize { r as isize } }
pub struct KO;
impl Shape for KO {
    fn total<'s, T: Level, Tr>(a: Arranged<'s, Tr>, counts: bool) -> Coll<'s, T>
    where Tr: TraceReader<Time = T, Batch: Navigable> + Clone + 'static, for<'a> BatchCursor<Tr>: Cursor<Key<'a> = &'a Row, Val<'a> = &'a (), Time = T, Diff = isize, DiffGat<'a> = &'a isize> { T::on_arranged(a, counts) }
    type K = Row; type V = (); type R = isize; fn row(k: &Row, _: &()) -> Row { *k } fn key(r: Row) -> Row { r } fn val(_: Row) { } fn diff(r: &isize) -> i64 { *r as i64 } fn of(r: i64) -> isize { r as isize } }

/// What the arrangement holds: the input itself, or a reduction of it.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Holds { Raw, Distinct, Min }
pub fn contents(h: Holds, bag: &BTreeMap<Row, i64>) -> BTreeMap<Row, i64> {
    match h {
        Holds::Raw => bag.clone(),
        Holds::Distinct => bag.iter().filter(|x| *x.1 > 0).map(|x| (*x.0, 1)).collect(),
        Holds::Min => { let mut m: BTreeMap<u64, u64> = BTreeMap::new(); for (r, _) in bag { let e = m.entry(r.0).or_insert(r.1); *e = (*e).min(r.1); } m.into_iter().map(|r| (r, 1)).collect() }
    }
}

pub struct Hnd<A: TraceReader> { pub agent: A, pub since: Antichain<A::Time>, pub phys: Antichain<A::Time>, pub seen: Vec<Antichain<A::Time>>, pub upper: Antichain<A::Time> }

pub fn acc<T: PartialOrder>(us: impl IntoIterator<Item = (Row, T, i64)>, at: &T) -> BTreeMap<Row, i64> {
    let mut m = BTreeMap::new();
    for (r, t, d) in us { if t.less_equal(at) { *m.entry(r).or_insert(0) += d; } }
    m.retain(|_, d| *d != 0);
    m
}

/// What all workers' reads establish together.
pub struct Facts<T> { pub owner: BTreeMap<u64, usize>, pub absent: Vec<(u64, usize, T)>, pub since: BTreeMap<(usize, usize), Antichain<T>>, pub pressed: BTreeMap<(usize, usize), Vec<T>> }

pub struct Model<T> { pub hist: Vec<(Row, T, i64)>, pub times: Vec<T>, pub holds: Holds, pub by_self: bool }
impl<T: GenTime> Model<T> {
    pub fn at(&self, t: &T) -> BTreeMap<Row, i64> { contents(self.holds, &acc(self.hist.iter().cloned(), t)) }
    /// Contents of the update set restricted to times not beyond `cut`.
    pub fn before(&self, cut: &Antichain<T>, t: &T) -> BTreeMap<Row, i64> {
        // A reduction's updates at times before the cut are those of its inputs' joins before the cut; only raw contents are cut directly.
        acc(self.hist.iter().filter(|u| !cut.less_equal(&u.1)).cloned(), t)
    }
    pub fn part(&self, r: &Row) -> u64 { if self.by_self { r.0 * 1000 + r.1 } else { r.0 } }
}

pub fn check_read<T: GenTime>(sim: &Sim, w: usize, m: &Model<T>, facts: &Mutex<Facts<T>>, got: &[(Row, T, i64)], since: &Antichain<T>, upper: &Antichain<T>, cut: Option<&Antichain<T>>, what: &str) {
    let mut ts = m.times.clone();
    for f in since.iter() { for t in m.times.iter() { ts.push(f.join(t)); } }
    ts.sort(); ts.dedup();
    let mut n = 0;
    for t in ts.iter().filter(|t| since.less_equal(t) && !upper.less_equal(t)) {
        n += 1;
        if n > 40 { break; }
        let want = match cut { Some(c) => m.before(c, t), None => m.at(t) };
        let have = acc(got.iter().cloned(), t);
        let parts: BTreeSet<u64> = want.keys().chain(have.keys()).map(|r| m.part(r)).collect();
        for k in parts {
            let wk: Vec<_> = want.iter().filter(|r| m.part(r.0) == k).collect();
            let hk: Vec<_> = have.iter().filter(|r| m.part(r.0) == k).collect();
            let mut f = facts.lock().unwrap();
            match f.owner.get(&k) {
                Some(o) if *o != w => { if !hk.is_empty() { drop(f); sim.violate("partition", format!("worker {w} {what} holds key {k} at {t:?}: {hk:?}, which another worker also held")); } }
                Some(_) => if wk != hk { drop(f); sim.violate("read", format!("worker {w} {what} (since {:?}, upper {:?}) at {t:?}, key {k}: expected {wk:?}, read {hk:?}", since.elements(), upper.elements())); },
                None => if hk.is_empty() { f.absent.push((k, w, t.clone())); } else if wk == hk { f.owner.insert(k, w); } else { drop(f); sim.violate("read", format!("worker {w} {what} (since {:?}, upper {:?}) at {t:?}, key {k}: expected {wk:?}, read {hk:?}", since.elements(), upper.elements())); },
            }
        }
        sim.count("check.reads");
    }
}

fn own<C: Cursor>(k: C::Key<'_>) -> <C::KeyContainer as BatchContainer>::Owned { C::KeyContainer::into_owned(k) }
pub fn scan<S: Shape, T: GenTime, C: Cursor<Time = T, ValOwn = S::V, Diff = S::R, KeyContainer: BatchContainer<Owned = S::K>>>(c: &mut C, st: &C::Storage, mut f: impl FnMut(Row, &T, i64)) {
    while c.key_valid(st) {
        while c.val_valid(st) {
            let row = S::row(&own::<C>(c.key(st)), &C::owned_val(c.val(st)));
            c.map_times(st, |t, d| f(row, &C::owned_time(t), S::diff(&C::owned_diff(d))));
            c.step_val(st);
        }
        c.step_key(st);
    }
}

type Rd<K, V, T> = Vec<(K, V, T, i64)>;
/// Reads everything through a cursor, checking order, then navigates it at random against what was read.
pub fn read_cursor<T: GenTime, S: Shape, C>(sim: &Sim, mut c: C, st: &C::Storage, w: usize) -> Rd<S::K, S::V, T>
where C: Cursor<Time = T, ValOwn = S::V, Diff = S::R, KeyContainer: BatchContainer<Owned = S::K>> {
    let mut all: Rd<S::K, S::V, T> = vec![];
    let mut shape: Vec<(S::K, Vec<S::V>)> = vec![];
    while c.key_valid(st) {
        let k = own::<C>(c.key(st));
        if let Some(l) = shape.last() { sim.check(l.0 < k, "order", || format!("worker {w} cursor presents key {k:?} after {:?}", l.0)); }
        shape.push((k.clone(), vec![]));
        while c.val_valid(st) {
            let v = C::owned_val(c.val(st));
            if let Some(l) = shape.last().unwrap().1.last() { sim.check(*l < v, "order", || format!("worker {w} cursor presents value {v:?} after {l:?} of key {k:?}")); }
            shape.last_mut().unwrap().1.push(v.clone());
            c.map_times(st, |t, d| all.push((k.clone(), v.clone(), C::owned_time(t), S::diff(&C::owned_diff(d)))));
            c.step_val(st);
        }
        sim.check(c.get_val(st).is_none(), "order", || "get_val after the last value".into());
        c.step_key(st);
    }
    sim.check(c.get_key(st).is_none(), "order", || "get_key after the last key".into());
    // A random walk, and the same walk over what was read.
    c.rewind_keys(st);
    let (mut ki, mut vi) = (0usize, 0usize);
    for _ in 0..sim.gen(24) {
        let op = sim.gen(7);
        match op {
            0 => { if ki < shape.len() { c.step_key(st); ki += 1; vi = 0; } }
            // Seeking is for advancing: where a seek to an earlier key or value lands is not specified.
            1 => { let k = match sim.gen(3) { 0 => S::key((sim.gen(8), sim.gen(6))), 1 if ki < shape.len() => shape[ki + sim.gen((shape.len() - ki) as u64) as usize].0.clone(), _ => S::key((sim.gen(100), sim.gen(40))) }; if ki < shape.len() && shape[ki].0 <= k { { let mut kc = C::KeyContainer::with_capacity(1); kc.push_own(&k); c.seek_key(st, kc.index(0)); } while ki < shape.len() && shape[ki].0 < k { ki += 1; } vi = 0; if ki < shape.len() { c.rewind_vals(st); } } }
            2 => { if ki < shape.len() && vi < shape[ki].1.len() { c.step_val(st); vi += 1; } }
            3 => { let v = match sim.gen(3) { 0 => S::val((sim.gen(8), sim.gen(6))), 1 if ki < shape.len() && vi < shape[ki].1.len() => shape[ki].1[vi + sim.gen((shape[ki].1.len() - vi) as u64) as usize].clone(), _ => S::val((sim.gen(100), sim.gen(100))) }; if ki < shape.len() && vi < shape[ki].1.len() && shape[ki].1[vi] <= v { { let mut vc = C::ValContainer::with_capacity(1); vc.push_own(&v); c.seek_val(st, vc.index(0)); } while vi < shape[ki].1.len() && shape[ki].1[vi] < v { vi += 1; } } }
            4 => { c.rewind_keys(st); ki = 0; vi = 0; }
            5 => { if ki < shape.len() { c.rewind_vals(st); vi = 0; } }
            _ => if ki < shape.len() && vi < shape[ki].1.len() {
                let mut us = vec![];
                c.map_times(st, |t, d| us.push((C::owned_time(t), S::diff(&C::owned_diff(d)))));
                let mut want: Vec<_> = all.iter().filter(|x| x.0 == shape[ki].0 && x.1 == shape[ki].1[vi]).map(|x| (x.2.clone(), x.3)).collect();
                us.sort(); want.sort();
                sim.check(us == want, "navigate", || format!("worker {w}: updates at key {:?} value {:?} after navigation {us:?}, in order {want:?}", shape[ki].0, shape[ki].1[vi]));
            }
        }
        sim.check(c.key_valid(st) == (ki < shape.len()), "navigate", || format!("worker {w}: key_valid {} after navigation op {op} with {} of {} keys passed", c.key_valid(st), ki, shape.len()));
        if ki < shape.len() {
            sim.check(own::<C>(c.key(st)) == shape[ki].0 && c.get_key(st).map(own::<C>).as_ref() == Some(&shape[ki].0), "navigate", || format!("worker {w}: at key {:?} after navigation op {op}, expected {:?}", own::<C>(c.key(st)), shape[ki].0));
            sim.check(c.val_valid(st) == (vi < shape[ki].1.len()), "navigate", || format!("worker {w}: val_valid {} after navigation op {op}, {vi} of {} values passed of key {:?}", c.val_valid(st), shape[ki].1.len(), shape[ki].0));
            if vi < shape[ki].1.len() { sim.check(C::owned_val(c.val(st)) == shape[ki].1[vi], "navigate", || format!("worker {w}: at value {:?}, expected {:?}", C::owned_val(c.val(st)), shape[ki].1[vi])); }
        }
    }
    all
}

pub fn read<T: GenTime, S: Shape, A: TraceReader<Time = T, Batch: Navigable>>(sim: &Sim, w: usize, h: &mut Hnd<A>, m: &Model<T>, facts: &Mutex<Facts<T>>)
where BatchCursor<A>: Cursor<Time = T, ValOwn = S::V, Diff = S::R, KeyContainer: BatchContainer<Owned = S::K>> {
    let mut upper = Antichain::new();
    h.agent.read_upper(&mut upper);
    sim.check(PartialOrder::less_equal(&h.upper, &upper), "upper", || format!("worker {w}: trace upper went from {:?} to {:?}", h.upper.elements(), upper.elements()));
    h.upper = upper.clone();
    // The batches tile time, and hold updates only within their bounds.
    let mut edge = Antichain::from_elem(T::minimum());
    let mut total = 0;
    let since = h.since.clone();
    let mut bounds = vec![];
    let pick = sim.gen(6);
    h.agent.map_batches(|b| {
        sim.check(b.lower() == &edge, "tiling", || format!("worker {w}: batch from {:?} follows one to {:?}", b.lower(), edge));
        edge = b.upper().clone();
        bounds.push(edge.clone());
        sim.check(since.iter().all(|s| b.description().since().less_equal(s)), "since", || format!("worker {w}: batch compacted to {:?} while a handle may read from {:?}", b.description().since(), since));
        let mut c = b.cursor();
        let mut n = 0;
        scan::<S, T, _>(&mut c, b, |_, t, _| {
            n += 1;
            sim.check(b.lower().less_equal(t), "bounds", || format!("worker {w}: batch {:?} holds time {t:?}", b.description()));
            if b.description().since().less_equal(&T::minimum()) { sim.check(!b.upper().less_equal(t), "bounds", || format!("worker {w}: batch {:?} holds time {t:?}", b.description())); }
        });
        if m.holds == Holds::Raw && bounds.len() as u64 % 6 == pick {
            // A batch is exact at the times its description says it has not compacted past.
            let mut own: Vec<(Row, T, i64)> = vec![];
            scan::<S, T, _>(&mut b.cursor(), b, |r, t, d| own.push((r, t.clone(), d)));
            let hist: Vec<_> = m.hist.iter().filter(|u| b.lower().less_equal(&u.1) && !b.upper().less_equal(&u.1)).cloned().collect();
            for t in m.times.iter().filter(|t| b.description().since().less_equal(t)).take(6) {
                let (have, want) = (acc(own.iter().cloned(), t), acc(hist.iter().cloned(), t));
                let f = facts.lock().unwrap();
                let mine = |r: &Row| f.owner.get(&m.part(r)) == Some(&w);
                let (hk, wk): (Vec<_>, Vec<_>) = (have.iter().filter(|r| mine(r.0)).collect(), want.iter().filter(|r| mine(r.0)).collect());
                if hk != wk { drop(f); sim.violate("batch", format!("worker {w}: batch {:?} at {t:?} holds {have:?}, expected {want:?}", b.description())); }
            }
        }
        sim.check(n == b.len() && b.is_empty() == (n == 0), "len", || format!("worker {w}: batch of {n} updates says {}", b.len()));
        total += n;
    });
    sim.check(edge == upper || bounds.is_empty(), "tiling", || format!("worker {w}: last batch ends at {edge:?}, trace upper {upper:?}"));
    if !since.is_empty() {
        let (c, st) = h.agent.cursor();
        let all = read_cursor::<T, S, _>(sim, c, &st, w);
        sim.check(all.len() == total, "read", || format!("worker {w}: cursor shows {} updates, batches hold {total}", all.len()));
        let all: Vec<(Row, T, i64)> = all.iter().map(|(k, v, t, d)| (S::row(k, v), t.clone(), *d)).collect();
        check_read(sim, w, m, facts, &all, &since, &upper, None, "full read");
        // Cuts at observed bounds that no handle may have passed.
        let phys = h.phys.clone();
        h.seen.retain(|f| PartialOrder::less_equal(&phys, f));
        if !h.seen.is_empty() {
            let f = h.seen[sim.gen(h.seen.len() as u64) as usize].clone();
            match h.agent.cursor_through(f.borrow()) {
                None => sim.violate("through", format!("worker {w}: no cursor through {f:?}, an observed bound, with physical compaction {phys:?}")),
                Some((mut c, st)) => {
                    let mut part = vec![];
                    scan::<S, T, _>(&mut c, &st, |r, t, d| part.push((r, t.clone(), d)));
                    if m.holds == Holds::Raw { check_read(sim, w, m, facts, &part, &since, &upper, Some(&f), "read through a cut"); }
                    else { check_read(sim, w, m, facts, &part, &since, &f, None, "read through a cut"); }
                    sim.count("check.through");
                }
            }
        }
    }
    for b in bounds { if PartialOrder::less_equal(&h.phys, &b) && !h.seen.contains(&b) && h.seen.len() < 12 { h.seen.push(b); } }
    sim.event(|| format!("read w{w} upper {:?} since {:?} {total} updates", upper.elements(), since.elements()), total as u64);
}

/// A trace on its own, with no operator around it: batches sealed and inserted, merged under scarce or plentiful effort,
/// compacted and read at arbitrary points. Reaches batch sizes, cancellations and merge states that dataflows rarely make.
pub fn direct<T: GenTime, S: Shape, Chu, Ba, Bu, Tr>(sim: &Sim, by_self: bool, feed: impl Fn(&mut Chu, &mut Vec<((S::K, S::V), T, S::R)>), mut each: impl FnMut())
where
    Chu: ContainerBuilder<Container = Ba::Output>,
    Ba: Batcher<Time = T, Output: Container + Default>,
    Bu: Builder<Time = T, Input = Ba::Output, Output = Tr::Batch>,
    Tr: Trace<Time = T, Batch: Navigable>,
    BatchCursor<Tr>: Cursor<Time = T, ValOwn = S::V, Diff = S::R, KeyContainer: BatchContainer<Owned = S::K>>,
{
    let dom = [2, 4, 12, 60][sim.genw(&[2, 3, 3, 2])];
    let sizes = [[6, 2, 0, 0], [4, 4, 2, 0], [4, 3, 3, 1]][sim.genw(&[2, 3, 2])];
    let mut trace = Tr::new(OperatorInfo::new(0, 0, [].into()), None, None);
    let force = sim.gen(3);
    let mut seed = sim.gen(1 << 20);
    if force < 2 {
        // Idle effort: whenever work may remain, or as whim has it, in arbitrary amounts.
        let state = Arc::new(Mutex::new(0u64));
        let base = sim.gen(1 << 20);
        trace.set_exert_logic(Arc::new(move |levels: &[(usize, usize, usize)]| {
            let mut s = state.lock().unwrap();
            *s = (*s).wrapping_mul(6364136223846793005).wrapping_add(base * 2 + 1);
            let r = *s >> 40;
            if force == 0 && levels.iter().map(|l| l.1).sum::<usize>() <= 1 { None } else if force == 1 && r & 1 == 0 { None } else { Some(1 + (1usize << ((r >> 1) % 7))) }
        }));
    }
    let mut chunker = Chu::default();
    let mut batcher = Ba::new(None, 0);
    let mut m: Model<T> = Model { hist: vec![], times: vec![T::minimum()], holds: Holds::Raw, by_self };
    let facts = Mutex::new(Facts { owner: BTreeMap::new(), absent: vec![], since: BTreeMap::new(), pressed: BTreeMap::new() });
    let min = Antichain::from_elem(T::minimum());
    let mut h = Hnd { agent: trace, since: min.clone(), phys: min.clone(), seen: vec![min.clone()], upper: min.clone() };
    let mut lower = min.clone();
    let mut buf: Vec<((S::K, S::V), T, S::R)> = vec![];
    let n_ops = 8 + sim.gen(60);
    let mut row = |sim: &Sim| { if seed % 3 == 0 { seed += 1; (0, sim.gen(dom)) } else { (sim.gen(dom), sim.gen(3)) } };
    let beyond = |sim: &Sim, f: &Antichain<T>| -> T { let e = f.iter().nth(sim.gen(f.len() as u64) as usize).unwrap(); T::gen_ge(sim, e) };
    // A frontier at or beyond another: each element is replaced by one or two times beyond it.
    let ahead = |sim: &Sim, f: &Antichain<T>| -> Antichain<T> {
        if sim.gen(4) == 0 { return f.clone(); }
        let mut r = Antichain::new();
        for e in f.iter() { for _ in 0..1 + sim.gen(2) { r.insert(T::gen_ge(sim, e)); } }
        r
    };
    let mut sealed = 0;
    for _ in 0..n_ops {
        each();
        match sim.genw(&[8, 6, 3, 3, 3, 3]) {
            0 => {
                let n = match sim.genw(&sizes) { 0 => sim.gen(4), 1 => 4 + sim.gen(12), 2 => 16 + sim.gen(60), _ => 80 + sim.gen(200) };
                let mut ups: Vec<(Row, T, i64)> = vec![];
                if sim.gen(3) == 0 && n > 0 {
                    // Retracts what accumulates, so that compaction leaves little of much.
                    let t = beyond(sim, &lower);
                    let all = sim.gen(2) == 0;
                    let mut net: BTreeMap<Row, i64> = BTreeMap::new();
                    for (r, _, d) in m.hist.iter() { *net.entry(*r).or_insert(0) += d; }
                    for (r, d) in net { if d != 0 && (all || sim.gen(2) == 0) { ups.push((r, t.clone(), -d)); } }
                } else {
                    let (one, t) = (sim.gen(2) == 0, beyond(sim, &lower));
                    for _ in 0..n { ups.push((row(sim), if one { t.clone() } else { beyond(sim, &lower) }, if sim.gen(3) == 0 { -1 } else { 1 + sim.gen(2) as i64 })); }
                }
                for (r, t, d) in ups.iter() {
                    if m.times.len() < 40 && !m.times.contains(t) { m.times.push(t.clone()); }
                    buf.push(((S::key(*r), S::val(*r)), t.clone(), S::of(*d)));
                }
                m.hist.extend(ups);
                feed(&mut chunker, &mut buf);
                buf.clear();
                while let Some(c) = chunker.extract() { batcher.push_into(std::mem::take(c)); }
            }
            1 => {
                while let Some(c) = chunker.finish() { batcher.push_into(std::mem::take(c)); }
                let upper = ahead(sim, &lower);
                if upper != lower {
                    let (mut chain, desc) = batcher.seal(upper.clone());
                    sim.check(desc.lower() == &lower && desc.upper() == &upper, "seal", || format!("sealing from {lower:?} to {upper:?} described {desc:?}"));
                    let held = batcher.frontier().to_owned();
                    sim.check(held.iter().all(|t| upper.less_equal(t)), "seal", || format!("batcher sealed to {upper:?} holds updates from {held:?}"));
                    let batch = Bu::seal(&mut chain, desc);
                    sim.event(|| format!("seal {upper:?} with {} updates", batch.len()), batch.len() as u64);
                    h.agent.insert(batch);
                    sealed += 1;
                    lower = upper;
                }
            }
            2 => {
                // Logical compaction may reach beyond the upper bound of the trace.
                let f = if sim.gen(3) == 0 { ahead(sim, &h.since) } else { let mut f = Antichain::new(); for a in h.since.iter() { for b in lower.iter() { f.insert(a.join(b)); } } f };
                h.agent.set_logical_compaction(f.borrow());
                sim.event(|| format!("logical {f:?}"), 1);
                h.since = f;
            }
            3 => {
                let f = match sim.gen(3) { 0 => ahead(sim, &h.phys), 1 => antichain_join(&h.phys.elements(), &lower.elements()), _ => h.seen.iter().filter(|f| PartialOrder::less_equal(&h.phys, *f)).last().cloned().unwrap_or(lower.clone()) };
                if PartialOrder::less_equal(&h.phys, &f) { h.agent.set_physical_compaction(f.borrow()); sim.event(|| format!("physical {f:?}"), 2); h.phys = f; }
            }
            4 => { let n = 1 + sim.gen(6); for _ in 0..n { h.agent.exert(); } sim.event(|| format!("exert {n}"), n); }
            _ => read::<T, S, _>(sim, 0, &mut h, &m, &facts),
        }
    }
    read::<T, S, _>(sim, 0, &mut h, &m, &facts);
    if force == 0 {
        // Allowed to merge everything, and given effort whenever there is more than one batch, the trace ends as one.
        h.phys = antichain_join(h.phys.elements(), lower.elements());
        h.agent.set_physical_compaction(h.phys.borrow());
        let (mut n, mut left) = (0, usize::MAX);
        while n < 4000 && left > 1 { h.agent.exert(); n += 1; left = 0; h.agent.map_batches(|b| if !b.is_empty() { left += 1; }); }
        sim.check(left <= 1, "maintenance", || format!("{left} batches after {n} rounds of idle effort"));
        sim.event(|| format!("one batch after {n} rounds"), n);
        h.seen.clear();
        read::<T, S, _>(sim, 0, &mut h, &m, &facts);
    }
    if sealed > 1 && m.hist.len() > 1 { sim.nontrivial(); }
    sim.describe(format!("direct trace, {} updates, {sealed} batches", m.hist.len()));
}
