pub mod h5 {
use vstd::prelude::*;
use super::pre::*;
verus! {
// ---------------------------------------------------------------- hdf5: a file does not change while it is read
// format!("..{}..", n)
pub uninterp spec fn fmt1_(lit: Seq<char>, n: int) -> Seq<char>;
#[verifier::external_body]
pub struct FmtS { p: u8 }
impl FmtS { pub uninterp spec fn chars(&self) -> Seq<char>; }
#[verifier::external_body] pub fn fmt1(lit: &str, n: usize) -> (r: FmtS) ensures r.chars() == fmt1_(lit@, n as int) { unimplemented!() }
pub trait XName: Sized { spec fn nm(self) -> Seq<char>; }
impl<'a> XName for &'a str { open spec fn nm(self) -> Seq<char> { self@ } }
impl<'a> XName for &'a FmtS { open spec fn nm(self) -> Seq<char> { self.chars() } }
#[verifier::external_body]
pub struct File { p: u8 }
#[verifier::external_body]
pub struct Group { p: u8 }
// a dataset or an attribute
#[verifier::external_body]
pub struct Container { p: u8 }
pub uninterp spec fn file_named(name: Seq<char>) -> Option<File>;
impl File {
    pub uninterp spec fn has_group(&self, n: Seq<char>) -> bool;
    pub uninterp spec fn group_(&self, n: Seq<char>) -> Group;
    pub uninterp spec fn has_attr(&self, n: Seq<char>) -> bool;
    pub uninterp spec fn attr_(&self, n: Seq<char>) -> Container;
    pub uninterp spec fn has(&self, n: Seq<char>) -> bool;
    pub uninterp spec fn ds(&self, n: Seq<char>) -> Container;
    #[verifier::external_body] pub fn open(name: &str) -> (r: Result<File, XErr>) ensures r is Ok == file_named(name@) is Some, r is Ok ==> file_named(name@) == Some(r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn group<N: XName>(&self, n: N) -> (r: Result<Group, XErr>) ensures r is Ok == self.has_group(n.nm()), r is Ok ==> r->Ok_0 == self.group_(n.nm()) { unimplemented!() }
    #[verifier::external_body] pub fn attr<N: XName>(&self, n: N) -> (r: Result<Container, XErr>) ensures r is Ok == self.has_attr(n.nm()), r is Ok ==> r->Ok_0 == self.attr_(n.nm()) { unimplemented!() }
    #[verifier::external_body] pub fn dataset<N: XName>(&self, n: N) -> (r: Result<Container, XErr>) ensures r is Ok == self.has(n.nm()), r is Ok ==> r->Ok_0 == self.ds(n.nm()) { unimplemented!() }
}
impl Group {
    pub uninterp spec fn has(&self, n: Seq<char>) -> bool;
    pub uninterp spec fn ds(&self, n: Seq<char>) -> Container;
    #[verifier::external_body] pub fn dataset<N: XName>(&self, n: N) -> (r: Result<Container, XErr>) ensures r is Ok == self.has(n.nm()), r is Ok ==> r->Ok_0 == self.ds(n.nm()) { unimplemented!() }
}
impl Container {
    // what it can be read as, and what that yields
    pub uninterp spec fn is2<T>(&self) -> bool;
    pub uninterp spec fn two<T>(&self) -> Array2<T>;
    pub uninterp spec fn is1<T>(&self) -> bool;
    pub uninterp spec fn one<T>(&self) -> Array1<T>;
    pub uninterp spec fn is0<T>(&self) -> bool;
    pub uninterp spec fn scalar<T>(&self) -> T;
    #[verifier::external_body] pub fn read_2d<T>(&self) -> (r: Result<Array2<T>, XErr>) ensures r is Ok == self.is2::<T>(), r is Ok ==> r->Ok_0 == self.two::<T>() { unimplemented!() }
    #[verifier::external_body] pub fn read_1d<T>(&self) -> (r: Result<Array1<T>, XErr>) ensures r is Ok == self.is1::<T>(), r is Ok ==> r->Ok_0 == self.one::<T>() { unimplemented!() }
    #[verifier::external_body] pub fn read_raw<T>(&self) -> (r: Result<Vec<T>, XErr>) ensures r is Ok == self.is1::<T>(), r is Ok ==> r->Ok_0@ == self.one::<T>()@ { unimplemented!() }
    #[verifier::external_body] pub fn read_scalar<T>(&self) -> (r: Result<T, XErr>) ensures r is Ok == self.is0::<T>(), r is Ok ==> r->Ok_0 == self.scalar::<T>() { unimplemented!() }
}
// ---------------------------------------------------------------- ndarray and std, as far as only the readers need them
impl<T> Array1<T> {
    #[verifier::external_body] pub fn fill(&mut self, x: T) ensures final(self)@ == Seq::new(old(self)@.len(), |i: int| x) { unimplemented!() }
    #[verifier::external_body] pub fn slice_r(&self, r0: (usize, usize)) -> (r: Array1<T>) requires r0.0 <= r0.1 <= self@.len() ensures r@ == self@.subrange(r0.0 as int, r0.1 as int) { unimplemented!() }
    // a row of the same length
    #[verifier::external_body] pub fn into_shape(self, d: (usize, usize)) -> (r: Result<Array2<T>, XErr>) ensures r is Ok == (self@.len() == d.0 * d.1),
        r is Ok ==> r->Ok_0.dimv() == (d.0 as int, d.1 as int) && (d.0 == 1 ==> forall|j: int| #![trigger r->Ok_0@[(0int, j)]] #![trigger self@[j]] 0 <= j < d.1 ==> r->Ok_0@[(0int, j)] == self@[j]) { unimplemented!() }
}
pub open spec fn elem2<T>(d: I2, x: T) -> IMap<I2, T> { IMap::new(|k: I2| in2(d, k), |k: I2| x) }
#[verifier::external_body]
pub fn arr2_from_elem<T: Copy>(n: (usize, usize), x: T) -> (r: Array2<T>) ensures r.dimv() == (n.0 as int, n.1 as int), r@ == elem2(r.dimv(), x) { unimplemented!() }
#[verifier::external_body]
pub fn arr_ones<A, S: Sh<A>>(s: S) -> (r: A) requires s.sh_ok() ensures s.filled(r, fl(1, 1)) { unimplemented!() }
impl<T> Array2<T> {
    #[verifier::external_body] pub fn assign(&mut self, o: &Array2<T>) requires old(self).dimv() == o.dimv() ensures final(self)@ == o@, final(self).dimv() == o.dimv() { unimplemented!() }
    #[verifier::external_body] pub fn slice_mut_ai(&mut self, i: usize) -> (r: &mut Array1<T>) requires i < old(self).dimv().1
        ensures r@ == col2(old(self)@, old(self).dimv(), i as int), final(self).dimv() == old(self).dimv(),
            final(r)@.len() == r@.len() ==> final(self)@ == IMap::new(|k: I2| in2(old(self).dimv(), k), |k: I2| if k.1 == i { final(r)@[k.0] } else { old(self)@[k] }) { unimplemented!() }
    // the shape it has already
    #[verifier::external_body] pub fn into_shape(self, d: (usize, usize)) -> (r: Result<Array2<T>, XErr>) ensures r is Ok == (self.dimv().0 * self.dimv().1 == d.0 * d.1),
        (d.0 as int, d.1 as int) == self.dimv() ==> r == Ok::<Array2<T>, XErr>(self) { unimplemented!() }
}
impl<T> Array3<T> {
    #[verifier::external_body] pub fn slice_mut_aia(&mut self, i: usize) -> (r: &mut Array2<T>) requires i < old(self).dimv().1
        ensures r.dimv() == dim_rest(old(self).dimv(), 1), r@ == layer(old(self)@, old(self).dimv(), 1, i as int), final(self).dimv() == old(self).dimv(),
            final(r).dimv() == r.dimv() ==> final(self)@ == IMap::new(|k: I3| in3(old(self).dimv(), k), |k: I3| if k.1 == i { final(r)@[(k.0, k.2)] } else { old(self)@[k] }) { unimplemented!() }
}
// IEEE 754: a correctly rounded quotient of small integers does not reach the next integer
pub axiom fn ax_floor_div(a: int, b: int) ensures 0 <= a && 1 <= b && a + b < 9007199254740992 ==> ftou(ffloor(fdiv(fl(a, 1), fl(b, 1)))) == a / b;
} // verus!
}
pub use h5::*;
pub mod hdf5 { pub use super::h5::File; pub use super::h5::Group; pub use super::h5::Container as Dataset; pub use super::h5::Container as Attribute; }
