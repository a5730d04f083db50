//! Further operators of random programs: other difference types and containers, arrangements moved between scopes,
//! heap-allocated keys, and operators that must be transparent.
use crate::dag::{add, eff_count, r_group, Arr, Bag, Coll, Dom, Row};
use differential_dataflow::collection::AsCollection;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::operators::arrange::Arrange;
use differential_dataflow::operators::iterate::Variable;
use differential_dataflow::operators::Iterate;
use differential_dataflow::trace::cursor::Cursor;
use differential_dataflow::trace::implementations::{KeyBatcher, KeyBuilder, KeySpine, ValBatcher, ValBuilder, ValSpine};
use differential_dataflow::trace::Navigable;
use simcore::Sim;
use std::num::Wrapping;
use std::rc::Rc;
use timely::dataflow::operators::rc::SharedStream;
use timely::dataflow::operators::vec::Map;
use timely::order::Product;
use timely::progress::Timestamp;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ext {
    /// Accumulates counts and sums by key, as a pair, a vector or a triple of differences; `2`/`3` threshold them instead.
    Stats(u64),
    /// The collection with another difference type, through consolidation, count, distinct or reduce.
    Alt(u64),
    /// Rows as strings, arranged or reduced.
    Strings(u64),
    /// Containers shared by reference: negated, moved through scopes, fed back.
    Shared(u64),
    /// Arrangements built or moved in other ways.
    Arranged(u64),
    /// inspect, inspect_batch, inspect_container, probe.
    Peek,
    /// Asserts the collection equal to itself, which must not fail.
    AssertEq,
    /// Rows enter a scope at rounds that depend on their contents.
    EnterAt(u64),
    /// A fixed point started from the scope rather than from a collection.
    ScopeLoop,
}
impl Ext {
    pub fn gen(s: &Sim) -> Ext {
        match s.gen(9) {
            0 => Ext::Stats(s.gen(4)), 1 => Ext::Alt(s.gen(5)), 2 => Ext::Strings(s.gen(3)), 3 => Ext::Shared(s.gen(4)),
            4 => Ext::Arranged(s.gen(6)), 5 => Ext::Peek, 6 => Ext::AssertEq, 7 => Ext::EnterAt(s.gen(4)), _ => Ext::ScopeLoop,
        }
    }
    /// Factor by which the operator may multiply its input, and added bits of multiplicity.
    pub fn cost(&self) -> (f64, f64) {
        match self { Ext::Stats(_) => (2.0, 3.0), Ext::ScopeLoop => (4.0, 2.0), _ => (1.5, 1.0) }
    }
    /// The operator's output for an accumulated input.
    pub fn eval(&self, dom: Dom, a: &Bag) -> Bag {
        let mut o = Bag::new();
        match *self {
            Ext::Stats(kind) => {
                let mut acc: std::collections::BTreeMap<u64, (isize, isize)> = Default::default();
                for ((k, v), r) in a { let e = acc.entry(*k).or_default(); e.0 += r; e.1 += r * *v as isize; }
                acc.retain(|_, e| *e != (0, 0));
                match kind {
                    0 => for (k, (c, s)) in acc { add(&mut o, (k, eff_count(c * 3 + s, dom)), 1); },
                    1 => {
                        let mut acc: std::collections::BTreeMap<u64, [isize; 3]> = Default::default();
                        for ((k, v), r) in a { acc.entry(*k).or_default()[(*v % 3) as usize] += r; }
                        for (k, v) in acc { if v != [0; 3] { add(&mut o, (k, eff_count(weigh(&v), dom)), 1); } }
                    }
                    2 => for (k, (c, s)) in acc { add(&mut o, (k, 0), pair_thresh(c, s)); },
                    _ => for (k, (c, s)) in acc { add(&mut o, (k, 1 % dom.nv), pair_thresh(s, c)); },
                }
            }
            Ext::Alt(kind) => match kind {
                0 | 1 | 4 => o = a.clone(),
                2 => for ((k, v), d) in a { add(&mut o, ((k + v) % dom.nk, eff_count(*d, dom)), 1); },
                _ => for r in a.keys() { add(&mut o, *r, 1); },
            },
            Ext::Strings(kind) => match kind {
                0 => o = a.clone(),
                // The least value of each key, as strings: digit by digit for single digits.
                1 => for (k, vs) in r_group(a) { add(&mut o, (k, vs.iter().map(|x| x.0).min_by_key(|v| text(*v)).unwrap()), 1); },
                _ => for ((k, v), r) in a { if a.keys().any(|(k2, v2)| k2 == k && text(*v2) < text(*v)) { add(&mut o, (*k, *v), *r); } },
            },
            Ext::Shared(kind) => match kind {
                3 => { for r in a.keys() { add(&mut o, *r, 1); } loop { let n: Bag = o.keys().flat_map(|(k, v)| [(*k, *v), (*k, v / 2)]).map(|r| (r, 1)).collect(); if n == o { break; } o = n; } }
                _ => o = a.clone(),
            },
            Ext::Arranged(_) | Ext::Peek | Ext::AssertEq => o = a.clone(),
            Ext::EnterAt(kind) => match kind {
                0 | 1 => o = a.clone(),
                _ => for (k, vs) in r_group(a) { add(&mut o, (k, vs[vs.len() - 1].0), 1); },
            },
            Ext::ScopeLoop => {
                for r in a.keys() { add(&mut o, *r, 1); }
                loop { let n: Bag = o.keys().flat_map(|(k, v)| [(*k, *v), ((*k + *v) % dom.nk, v / 2)]).map(|r| (r, 1)).collect(); if n == o { break; } o = n; }
            }
        }
        o
    }
}
fn pair_thresh(c: isize, s: isize) -> isize { if c > 0 { 1 + s.rem_euclid(3) } else if c == 0 { 0 } else { -1 } }
fn weigh(v: &[isize]) -> isize { v.iter().enumerate().map(|(i, x)| x * (2 * i as isize + 1)).sum() }
fn text(v: u64) -> String { format!("{}{}", if v % 3 == 0 { "a rather longer value " } else { "" }, v) }
fn untext(s: &str) -> u64 { s.rsplit(' ').next().unwrap().parse().unwrap() }

pub fn render<'s, T: Timestamp + Lattice>(e: Ext, dom: Dom, c: Coll<'s, T>) -> Coll<'s, T> {
    let scope = c.scope();
    match e {
        Ext::Stats(kind) => match kind {
            0 => c.explode(|(k, v)| Some((k, (1isize, v as isize)))).count().map(move |(k, (c, s))| (k, eff_count(c * 3 + s, dom))),
            // Vectors of different lengths; equal up to trailing zeros means equal.
            1 => c.explode(|(k, v)| Some((k, { let mut x = vec![0isize; (v % 3) as usize + 1]; x[(v % 3) as usize] = 1; x }))).count().map(move |(k, v)| (k, eff_count(weigh(&v), dom))),
            2 => c.explode(|(k, v)| Some((k, (1isize, v as isize)))).threshold(|_, (c, s)| pair_thresh(*c, *s)).map(|k| (k, 0)),
            _ => c.explode(|(k, v)| Some((k, (v as isize, 1isize, 0isize)))).consolidate().threshold(|_, (s, c, _)| pair_thresh(*s, *c)).map(move |k| (k, 1 % dom.nv)),
        },
        Ext::Alt(kind) => match kind {
            0 => c.inner.map(|(d, t, r)| (d, t, r as i64)).as_collection().consolidate().inner.map(|(d, t, r)| (d, t, r as isize)).as_collection(),
            1 => c.inner.map(|(d, t, r)| (d, t, Wrapping(r as i64))).as_collection().negate().consolidate().negate().inner.map(|(d, t, r)| (d, t, r.0 as isize)).as_collection(),
            2 => c.inner.map(|(d, t, r)| (d, t, r as i128)).as_collection().count_core::<i64>().map(move |((k, v), d)| ((k + v) % dom.nk, eff_count(d as isize, dom))).inner.map(|(d, t, r)| (d, t, r as isize)).as_collection(),
            3 => c.inner.map(|(d, t, r)| (d, t, r as i64)).as_collection().distinct_core::<i32>().inner.map(|(d, t, r)| (d, t, r as isize)).as_collection(),
            _ => c.inner.map(|(d, t, r)| (d, t, r as i64)).as_collection().reduce(|_, s, t| t.extend(s.iter().map(|(v, r)| (**v, *r as isize)))),
        },
        Ext::Strings(kind) => {
            let c = c.map(|(k, v)| (text(k), text(v)));
            match kind {
                0 => c.arrange_by_key().as_collection(|k, v| (untext(k), untext(v))),
                1 => c.reduce(|_, s, t| t.push((s[0].0.clone(), 1isize))).map(|(k, v)| (untext(&k), untext(&v))),
                _ => {
                    let min = c.clone().reduce(|_, s, t| t.push((s[0].0.clone(), 1isize)));
                    c.join(min).filter(|(_, (v, m))| m < v).map(|(k, (v, _))| (untext(&k), untext(&v)))
                }
            }
        }
        Ext::Shared(kind) => {
            let own = |s: timely::dataflow::Stream<'s, T, Rc<Vec<(Row, T, isize)>>>| -> Coll<'s, T> { unshare(s) };
            match kind {
                0 => { let x = c.inner.shared().as_collection(); let y = x.clone().negate(); own(x.clone().inner).concat(own(y.inner)).concat(own(x.inner)) }
                1 => scope.scoped::<Product<T, u64>, _, _>("Shared", |inner| { let x = c.inner.shared().as_collection(); let e = x.enter(inner); own(e.leave(scope).inner) }),
                2 => scope.region(|inner| { let x = c.inner.shared().as_collection(); own(x.enter_region(inner).leave_region(scope).inner) }),
                _ => {
                    let s = c.distinct();
                    scope.iterative::<u64, _, _>(|inner| {
                        let (var, x) = Variable::<_, Rc<Vec<(Row, Product<T, u64>, isize)>>>::new(inner, Product::new(Default::default(), 1));
                        let y = unshare(x.inner).flat_map(|(k, v)| [(k, v), (k, v / 2)]).concat(s.enter(inner)).distinct();
                        var.set(y.clone().inner.shared().as_collection());
                        y.leave(scope)
                    })
                }
            }
        }
        Ext::Arranged(kind) => match kind {
            0 => c.arrange_named::<KeyBatcher<_, _, _>, KeyBuilder<_, _, _>, KeySpine<_, _, _>>("KeysOnly").as_collection(|r: &Row, _| *r),
            1 => scope.region(|inner| {
                let a: Arr<'_, T> = c.arrange_by_key().enter_region(inner);
                let b = a.reduce_abelian::<_, ValBuilder<_, _, _, _>, ValSpine<u64, u64, T, isize>, _, _>("Copy", |_, s, t| t.extend(s.iter().map(|(v, r)| (**v, *r))), |vec: &mut Vec<((u64, u64), T, isize)>, key, upds| { vec.clear(); vec.extend(upds.drain(..).map(|(v, t, r)| ((*key, v), t, r))); });
                b.leave_region(scope).as_vecs()
            }),
            2 => c.arrange_by_key().as_container::<Option<Vec<(Row, T, isize)>>, _>(|batch| {
                let mut out = vec![];
                let mut cur = batch.cursor();
                while let Some(k) = cur.get_key(&batch) {
                    while let Some(v) = cur.get_val(&batch) { cur.map_times(&batch, |t, r| out.push(((*k, *v), t.clone(), *r))); cur.step_val(&batch); }
                    cur.step_key(&batch);
                }
                if out.is_empty() { None } else { Some(out) }
            }),
            3 => Arrange::arrange::<ValBatcher<_, _, _, _>, ValBuilder<_, _, _, _>, ValSpine<u64, u64, T, isize>>(c).as_vecs(),
            4 => c.consolidate_named::<KeyBatcher<_, _, _>, KeyBuilder<_, _, _>, KeySpine<_, _, _>, _>("Named", |k, _| *k),
            _ => {
                let a = c.arrange_by_key();
                let keys = a.clone().as_collection(|k, v| (*k, *v)).distinct().map(|r| r.0).distinct();
                scope.region(|inner| { let k = keys.enter_region(inner).arrange_by_self(); a.enter_region(inner).join_core(k, |k, v, _| Some((*k, *v))).leave_region(scope) })
            }
        },
        Ext::Peek => {
            let seen = Rc::new(std::cell::Cell::new(0usize));
            let (s1, s2, s3) = (seen.clone(), seen.clone(), seen);
            let (probe, c) = c.inspect(move |_| s1.set(s1.get() + 1)).inspect_batch(move |_, b| s2.set(s2.get() + b.len())).inspect_container(move |x| if let Ok((_, c)) = x { s3.set(s3.get() + c.len()) }).probe();
            c.probe_with(&probe)
        }
        Ext::AssertEq => { let d = c.clone().negate().concat(c.clone()).concat(c.clone()); c.clone().assert_eq(d); c.clone().consolidate().negate().concat(c.clone()).assert_empty(); c }
        Ext::EnterAt(kind) => scope.iterative::<u64, _, _>(|inner| match kind {
            0 => c.enter_at(inner, |r| r.1 % 4).consolidate().leave(scope),
            1 => c.arrange_by_key().enter_at(inner, |k, v, t| Product::new(t.clone(), (*k + *v) % 4), |t| t.outer.clone()).as_collection(|k, v| (*k, *v)).leave(scope),
            2 => c.enter_at(inner, |r| r.1 % 4).reduce(|_, s, t| t.push((*s[s.len() - 1].0, 1isize))).leave(scope),
            _ => c.arrange_by_key().enter_at(inner, |k, v, t| Product::new(t.clone(), (*k + *v) % 4), |t| t.outer.clone())
                .reduce_abelian::<_, ValBuilder<_, _, _, _>, ValSpine<u64, u64, Product<T, u64>, isize>, _, _>("Entered", |_, s, t| t.push((*s[s.len() - 1].0, 1isize)), |vec: &mut Vec<((u64, u64), Product<T, u64>, isize)>, key, upds| { vec.clear(); vec.extend(upds.drain(..).map(|(v, t, r)| ((*key, v), t, r))); })
                .as_collection(|k, v| (*k, *v)).leave(scope),
        }),
        Ext::ScopeLoop => {
            let s = c.distinct();
            scope.iterate(|inner, x: differential_dataflow::VecCollection<'_, Product<T, u64>, Row, isize>| {
                x.flat_map(move |(k, v)| [(k, v), ((k + v) % dom.nk, v / 2)]).concat(s.enter(inner)).distinct()
            })
        }
    }
}

fn unshare<'s, T: Timestamp + Lattice>(s: timely::dataflow::Stream<'s, T, Rc<Vec<(Row, T, isize)>>>) -> Coll<'s, T> {
    use timely::dataflow::operators::generic::Operator;
    use timely::dataflow::channels::pact::Pipeline;
    s.unary::<timely::container::CapacityContainerBuilder<Vec<(Row, T, isize)>>, _, _, _>(Pipeline, "Unshare", move |_, _| {
        move |input, output| input.for_each(|cap, data| { let mut own = (**data).clone(); output.session(&cap).give_container(&mut own); })
    }).as_collection()
}
