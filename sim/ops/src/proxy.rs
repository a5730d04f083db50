//! Test backends for the integer-proxy join and reduce tactics.
use crate::dag::{Arr, Coll, Dom, JoinFn, Red, Row};
use differential_dataflow::consolidation::consolidate_updates;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::operators::int_proxy::{JoinInstance, ProxyBridge, ProxyJoinBackend, ProxyJoinTactic, ProxyReduceBackend, ProxyReduceTactic, ReduceInstance, ReduceWindow};
use differential_dataflow::operators::join::join_with_tactic;
use differential_dataflow::operators::reduce::reduce_with_tactic;
use differential_dataflow::trace::implementations::{ValBuilder, ValSpine};
use differential_dataflow::trace::{Builder, Cursor, Description, Navigable, TraceReader};
use differential_dataflow::AsCollection;
use timely::progress::frontier::AntichainRef;
use timely::progress::Timestamp;

type Sp<T> = ValSpine<u64, u64, T, isize>;
type Bt<T> = <Sp<T> as TraceReader>::Batch;

#[derive(Clone, Copy)]
struct Ids { collide: u64, salt: u64 }
impl Ids {
    fn draw() -> Ids { let s = simcore::sim(); Ids { collide: [1, 1, 2, 3][s.gen(4) as usize], salt: [0, 0x2a5][s.gen(2) as usize] } }
    fn hash(&self, k: u64) -> u64 { (k / self.collide).wrapping_mul(0x9e37_79b9_7f4a_7c15) }
    fn id(&self, k: u64, v: u64) -> u64 { ((v << 20) | k) ^ (self.salt << 40) }
    fn un(&self, id: u64) -> Row { let id = id ^ (self.salt << 40); (id & 0xfffff, id >> 20) }
}

fn read<T: Timestamp + Lattice>(batches: &[Bt<T>], mut f: impl FnMut(u64, u64, T, isize)) {
    for b in batches {
        let mut c = b.cursor();
        while c.key_valid(b) {
            while c.val_valid(b) {
                let (k, v) = (*c.key(b), *c.val(b));
                c.map_times(b, |t, r| f(k, v, t.clone(), *r));
                c.step_val(b);
            }
            c.step_key(b);
        }
    }
}
fn bridge<T: Timestamp + Lattice>(ids: Ids, sets: &[&[Bt<T>]], lower: Option<AntichainRef<T>>, keep: Option<&[u64]>) -> ProxyBridge<T, isize> {
    let mut out: ProxyBridge<T, isize> = vec![];
    for b in sets {
        read(b, |k, v, mut t, r| {
            let h = ids.hash(k);
            if keep.map(|f| f.binary_search(&h).is_ok()).unwrap_or(true) {
                if let Some(l) = lower { t.advance_by(l); }
                out.push(((h, ids.id(k, v)), t, r));
            }
        });
    }
    consolidate_updates(&mut out);
    out
}

struct JoinB<T> { f: JoinFn, dom: Dom, ids: Ids, advance: bool, _t: std::marker::PhantomData<T> }
impl<T: Timestamp + Lattice> ProxyJoinBackend<Bt<T>, Bt<T>> for JoinB<T> {
    type R0 = isize;
    type R1 = isize;
    type ROut = isize;
    type Output = Vec<(Row, T, isize)>;
    fn present0(&mut self, i: &JoinInstance<'_, Bt<T>, Bt<T>>, filter: Option<&[u64]>) -> ProxyBridge<T, isize> {
        bridge(self.ids, &[i.batches0], if self.advance { Some(i.lower) } else { None }, filter)
    }
    fn present1(&mut self, i: &JoinInstance<'_, Bt<T>, Bt<T>>, filter: Option<&[u64]>) -> ProxyBridge<T, isize> {
        bridge(self.ids, &[i.batches1], if self.advance { Some(i.lower) } else { None }, filter)
    }
    fn cross(&mut self, _: &JoinInstance<'_, Bt<T>, Bt<T>>, left: &[(u64, u64)], right: &[(u64, u64)], times: Vec<T>, diffs: Vec<isize>) -> Self::Output {
        let mut out = vec![];
        for (((l, r), t), d) in left.iter().zip(right).zip(times).zip(diffs) {
            let ((k0, v0), (k1, v1)) = (self.ids.un(l.1), self.ids.un(r.1));
            if k0 == k1 { out.push((self.f.apply(self.dom, k0, v0, v1), t, d)); }
        }
        out
    }
}
pub fn join<'s, T: Timestamp + Lattice>(a: Arr<'s, T>, b: Arr<'s, T>, f: JoinFn, dom: Dom) -> Coll<'s, T> {
    let ids = Ids::draw();
    let advance = simcore::sim().gen(2) == 1;
    join_with_tactic(a, b, ProxyJoinTactic::new(JoinB { f, dom, ids, advance, _t: std::marker::PhantomData })).as_collection()
}

struct RedB<T> { red: Red, dom: Dom, ids: Ids, advance: bool, window: usize, tiles: Vec<(Description<T>, Vec<(Row, T, isize)>)> }
impl<T: Timestamp + Lattice> ProxyReduceBackend<Bt<T>, Bt<T>> for RedB<T> {
    type RIn = isize;
    type ROut = isize;
    fn seed_times(&self, i: &ReduceInstance<'_, Bt<T>, Bt<T>>) -> Vec<(u64, T)> {
        let mut v = vec![];
        read(i.input_batches, |k, _, t, _| v.push((self.ids.hash(k), t)));
        v.sort();
        v.dedup();
        v
    }
    fn begin(&mut self, tiles: &[Description<T>]) { self.tiles = tiles.iter().map(|d| (d.clone(), vec![])).collect(); }
    fn next_window(&mut self, i: &ReduceInstance<'_, Bt<T>, Bt<T>>, changed: &[u64], cursor: &mut usize) -> Option<ReduceWindow<T, isize, isize>> {
        if *cursor >= changed.len() { return None; }
        let end = (*cursor + self.window).min(changed.len());
        let keys = changed[*cursor..end].to_vec();
        *cursor = end;
        let l = if self.advance { Some(i.lower) } else { None };
        let input = bridge(self.ids, &[i.source_batches, i.input_batches], l, Some(&keys));
        let output = bridge(self.ids, &[i.output_batches], l, Some(&keys));
        Some(ReduceWindow { keys, input, output })
    }
    fn reduce_corrections(&mut self, keys: &[u64], in_ends: &[usize], input: &[(u64, isize)], out_ends: &[usize], output: &[(u64, isize)]) -> (Vec<(u64, isize)>, Vec<usize>) {
        let (mut corr, mut ends) = (vec![], vec![]);
        let (mut i, mut o) = (0, 0);
        for n in 0..keys.len() {
            let mut groups: std::collections::BTreeMap<u64, Vec<(u64, isize)>> = Default::default();
            for (id, d) in &input[i..in_ends[n]] { let (k, v) = self.ids.un(*id); groups.entry(k).or_default().push((v, *d)); }
            let mut c: Vec<(u64, isize)> = vec![];
            for (k, mut vs) in groups { vs.sort(); for (v, d) in self.red.apply(self.dom, k, &vs) { c.push((self.ids.id(k, v), d)); } }
            for (id, d) in &output[o..out_ends[n]] { c.push((*id, -d)); }
            differential_dataflow::consolidation::consolidate(&mut c);
            corr.extend(c);
            ends.push(corr.len());
            i = in_ends[n];
            o = out_ends[n];
        }
        (corr, ends)
    }
    fn emit(&mut self, tile: usize, records: &[((u64, u64), T, isize)]) {
        for ((_, id), t, d) in records { self.tiles[tile].1.push((self.ids.un(*id), t.clone(), *d)); }
    }
    fn finish(&mut self) -> Vec<Bt<T>> {
        self.tiles.drain(..).map(|(desc, mut upds)| {
            consolidate_updates(&mut upds);
            let mut b = ValBuilder::<u64, u64, T, isize>::with_capacity(0, 0, upds.len());
            b.push(&mut upds);
            b.done(desc)
        }).collect()
    }
}
pub fn reduce<'s, T: Timestamp + Lattice>(a: Arr<'s, T>, red: Red, dom: Dom) -> Coll<'s, T> {
    let ids = Ids::draw();
    let (advance, window) = { let s = simcore::sim(); (s.gen(2) == 1, [1000, 1, 2, 3][s.gen(4) as usize]) };
    reduce_with_tactic::<_, Sp<T>, _>(a, "ProxyReduce", ProxyReduceTactic::new(RedB { red, dom, ids, advance, window, tiles: vec![] })).as_collection(|k, v| (*k, *v))
}
