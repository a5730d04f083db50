//! A two-dimensional partially ordered timestamp usable at the root of a dataflow.
//! Order and lattice operations are those of timely's `Product` as implemented by the libraries.
use differential_dataflow::lattice::Lattice;
use serde::{Deserialize, Serialize};
use timely::order::{PartialOrder, Product};
use timely::progress::timestamp::Refines;
use timely::progress::{PathSummary, Timestamp};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Serialize, Deserialize, columnar::Columnar)]
#[columnar(derive(Eq, PartialEq, Ord, PartialOrd))]
pub struct Pair(pub Product<u64, u64>);
impl Pair {
    pub fn new(a: u64, b: u64) -> Self { Pair(Product::new(a, b)) }
}
impl std::fmt::Debug for Pair { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "({},{})", self.0.outer, self.0.inner) } }
impl PartialOrder for Pair { fn less_equal(&self, o: &Self) -> bool { self.0.less_equal(&o.0) } }
impl PathSummary<Pair> for () {
    fn results_in(&self, t: &Pair) -> Option<Pair> { Some(t.clone()) }
    fn followed_by(&self, o: &Self) -> Option<Self> { Some(*o) }
}
impl Timestamp for Pair {
    type Summary = ();
    fn minimum() -> Self { Pair::new(0, 0) }
}
impl Refines<()> for Pair {
    fn to_inner(_: ()) -> Self { Self::minimum() }
    fn to_outer(self) { }
    fn summarize(_: ()) { }
}
impl Lattice for Pair {
    fn join(&self, o: &Self) -> Self { Pair(self.0.join(&o.0)) }
    fn meet(&self, o: &Self) -> Self { Pair(self.0.meet(&o.0)) }
}

/// Three dimensions, in which the meet of several times need not be below any bound that each of them is below.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Serialize, Deserialize, columnar::Columnar)]
#[columnar(derive(Eq, PartialEq, Ord, PartialOrd))]
pub struct Trip(pub Product<u64, Product<u64, u64>>);
impl Trip {
    pub fn new(a: u64, b: u64, c: u64) -> Self { Trip(Product::new(a, Product::new(b, c))) }
    pub fn parts(&self) -> [u64; 3] { [self.0.outer, self.0.inner.outer, self.0.inner.inner] }
}
impl std::fmt::Debug for Trip { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { let [a, b, c] = self.parts(); write!(f, "({a},{b},{c})") } }
impl PartialOrder for Trip { fn less_equal(&self, o: &Self) -> bool { self.0.less_equal(&o.0) } }
impl PathSummary<Trip> for () {
    fn results_in(&self, t: &Trip) -> Option<Trip> { Some(t.clone()) }
    fn followed_by(&self, o: &Self) -> Option<Self> { Some(*o) }
}
impl Timestamp for Trip {
    type Summary = ();
    fn minimum() -> Self { Trip::new(0, 0, 0) }
}
impl Refines<()> for Trip {
    fn to_inner(_: ()) -> Self { Self::minimum() }
    fn to_outer(self) { }
    fn summarize(_: ()) { }
}
impl Lattice for Trip {
    fn join(&self, o: &Self) -> Self { Trip(self.0.join(&o.0)) }
    fn meet(&self, o: &Self) -> Self { Trip(self.0.meet(&o.0)) }
}
