//! Building blocks over columnar collections.
use columnar::Columnar;
use crate::dag::{Row, Via};
use differential_dataflow::columnar::collection::{as_recorded_updates, join_function, Builder as ColBuilder, Pact, RecordedUpdates};
use differential_dataflow::columnar::layout::OrdContainer;
use differential_dataflow::columnar::trace::{Batcher, Builder, Chunker, ColChunk, Spine};
use differential_dataflow::columnar::UpdatesTyped;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::operators::arrange::arrangement::arrange_core;
use differential_dataflow::operators::arrange::{Arranged, TraceAgent};
use differential_dataflow::operators::join::join_traces;
use differential_dataflow::{AsCollection, Collection};
use simcore::Sim;
use std::fmt::Debug;
use std::sync::Arc;
use timely::dataflow::channels::pact::Pipeline;
use timely::dataflow::channels::ContainerBytes;
use timely::dataflow::operators::generic::Operator;
use timely::order::Product;
use timely::progress::Timestamp;

/// Keys and values as they are stored; the code of a number preserves order.
pub trait Part: Columnar<Container: OrdContainer + Default> + Debug + Ord + Clone + 'static { fn enc(x: u64) -> Self; fn dec(self) -> u64; }
impl Part for u64 { fn enc(x: u64) -> u64 { x } fn dec(self) -> u64 { self } }
impl Part for String { fn enc(x: u64) -> String { format!("{x:05}{}", "abcdefgh".repeat((x % 4) as usize)) } fn dec(self) -> u64 { self[..5].parse().unwrap() } }
impl Part for (u64, String) { fn enc(x: u64) -> Self { (x / 3, format!("{}", "z".repeat((x % 3) as usize))) } fn dec(self) -> u64 { self.0 * 3 + self.1.len() as u64 } }
impl Part for Vec<u8> { fn enc(x: u64) -> Self { if x == 0 { vec![] } else { vec![x as u8; 1 + (x % 3) as usize] } } fn dec(self) -> u64 { self.first().map(|b| *b as u64).unwrap_or(0) } }

pub trait CTime: Columnar<Container: OrdContainer + Default> + Debug + Ord + Default + Clone + Lattice + Timestamp { }
impl<T: Columnar<Container: OrdContainer + Default> + Debug + Ord + Default + Clone + Lattice + Timestamp> CTime for T { }

pub type U<K, V, T> = (K, V, T, i64);
pub type CC<'s, K, V, T> = Collection<'s, T, RecordedUpdates<U<K, V, T>>>;
pub type CArr<'s, K, V, T> = Arranged<'s, TraceAgent<Spine<K, V, T, i64>>>;
pub type Nest<T> = Product<T, u64>;

pub fn route(k: u64) -> u64 { k.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 17 }

pub fn arrange<'s, K: Part, V: Part, T: CTime>(c: CC<'s, K, V, T>) -> CArr<'s, K, V, T> {
    arrange_core::<_, _, Chunker<U<K, V, T>>, Batcher<K, V, T, i64>, Builder<K, V, T, i64>, Spine<K, V, T, i64>>(c.inner, Pact { hashfunc: |k: columnar::Ref<'_, K>| route(K::into_owned(k).dec()) }, "ColArrange")
}
pub fn flat<K: Part, V: Part, T: CTime>(a: CArr<'_, K, V, T>) -> CC<'_, K, V, T> { as_recorded_updates::<U<K, V, T>>(a) }
pub fn fmap<'s, K: Part, V: Part, T: CTime, I: IntoIterator<Item = (Row, i64)>>(c: CC<'s, K, V, T>, f: impl Fn(Row) -> I + 'static) -> CC<'s, K, V, T> {
    join_function(c, move |k, v, _, _| f((K::into_owned(k).dec(), V::into_owned(v).dec())).into_iter().map(|((k, v), d)| (K::enc(k), V::enc(v), T::minimum(), d)).collect::<Vec<_>>())
}
pub fn join<'s, K: Part, V: Part, T: CTime>(a: CArr<'s, K, V, T>, b: CArr<'s, K, V, T>, f: impl Fn(u64, u64, u64) -> Row + 'static) -> CC<'s, K, V, T> {
    join_traces::<_, _, _, _, ColBuilder<U<K, V, T>>>(a, b, move |k, x, y, time, d1, d2, session| {
        use timely::container::PushInto;
        let (k, v) = f(K::into_owned(k).dec(), V::into_owned(x).dec(), V::into_owned(y).dec());
        session.push_into((&K::enc(k), &V::enc(v), &time, &(d1 * d2)));
    }).as_collection()
}
pub fn reduce<'s, K: Part, V: Part, T: CTime>(a: CArr<'s, K, V, T>, via: Via, logic: impl Fn(u64, &[(u64, isize)]) -> Vec<(u64, isize)> + 'static) -> CArr<'s, K, V, T> {
    let push = |col: &mut ColChunk<U<K, V, T>>, key: columnar::Ref<'_, K>, upds: &mut Vec<(V, T, i64)>| {
        let mut trie = UpdatesTyped::<U<K, V, T>>::default();
        for (val, time, diff) in upds.drain(..) { timely::container::PushInto::push_into(&mut trie, ((K::into_owned(key), val), time, diff)); }
        *col.updates_mut() = trie.consolidate();
    };
    let dec = |input: &[(columnar::Ref<'_, V>, i64)]| -> Vec<(u64, isize)> { input.iter().map(|(v, r)| (V::into_owned(*v).dec(), *r as isize)).collect() };
    match via {
        Via::Core | Via::Proxy | Via::Keyed => a.reduce_core::<_, Builder<K, V, T, i64>, Spine<K, V, T, i64>, _, _>("ColReduceCore", move |k, input, output, change: &mut Vec<(V, i64)>| {
            if !input.is_empty() { change.extend(logic(K::into_owned(k).dec(), &dec(input)).into_iter().map(|(v, r)| (V::enc(v), r as i64))); }
            change.extend(output.drain(..).map(|(v, r)| (v, -r)));
            differential_dataflow::consolidation::consolidate(change);
        }, push),
        _ => a.reduce_abelian::<_, Builder<K, V, T, i64>, Spine<K, V, T, i64>, _, _>("ColReduce", move |k, input, output| output.extend(logic(K::into_owned(k).dec(), &dec(input)).into_iter().map(|(v, r)| (V::enc(v), r as i64))), push),
    }
}
pub fn distinct<'s, K: Part, V: Part, T: CTime>(c: CC<'s, K, V, T>) -> CC<'s, K, V, T> { flat(reduce(arrange(c), Via::Plain, |_, i| i.iter().map(|x| (x.0, 1)).collect())) }
pub fn consolidate<'s, K: Part, V: Part, T: CTime>(c: CC<'s, K, V, T>) -> CC<'s, K, V, T> { flat(arrange(c)) }

pub fn least<'s, K: Part, V: Part, T: CTime>(c: CC<'s, K, V, T>) -> CC<'s, K, V, T> { flat(reduce(arrange(c), Via::Plain, |_, i| vec![(i[0].0, 1)])) }

/// Re-emits updates in any order and division, unsorted or not, possibly by way of bytes.
pub fn scramble<'s, K: Part, V: Part, T: CTime>(c: CC<'s, K, V, T>, sim: Arc<Sim>) -> CC<'s, K, V, T> {
    c.inner.unary::<timely::container::NoopBuilder<RecordedUpdates<U<K, V, T>>>, _, _, _>(Pipeline, "Scramble", move |_, _| move |input, output| {
        input.for_each(|cap, data| {
            let mut all: Vec<U<K, V, T>> = data.updates.view().iter().map(|(k, v, t, d)| (K::into_owned(k), V::into_owned(v), T::into_owned(t), i64::into_owned(d))).collect();
            let mut session = output.session_with_builder(&cap);
            while !all.is_empty() {
                let n = 1 + sim.sched(all.len() as u64) as usize;
                let mut part: Vec<U<K, V, T>> = all.drain(..n).collect();
                let how = sim.sched(3);
                if how > 0 { for i in (1..part.len()).rev() { part.swap(i, sim.sched(i as u64 + 1) as usize); } }
                let mut trie = UpdatesTyped::<U<K, V, T>>::default();
                for (k, v, t, d) in part { timely::container::PushInto::push_into(&mut trie, ((k, v), t, d)); }
                let consolidated = how == 0 && sim.sched(2) == 0;
                if consolidated { trie = trie.consolidate(); }
                let mut out = RecordedUpdates { updates: trie.into(), records: n, consolidated };
                if sim.sched(2) == 1 {
                    let mut buf = vec![];
                    out.into_bytes(&mut buf);
                    sim.check(buf.len() == out.length_in_bytes(), "codec", || format!("{} bytes written where {} were announced", buf.len(), out.length_in_bytes()));
                    out = RecordedUpdates::from_bytes(timely::bytes::arc::BytesMut::from(buf).freeze());
                    sim.count("codec_trips");
                }
                session.give_container(&mut out);
            }
        })
    }).as_collection()
}

