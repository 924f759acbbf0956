pub mod tab {
use vstd::prelude::*;
use super::pre::*;
use core::cmp::Ordering;
verus! {
// ---------------------------------------------------------------- sorting (std): stable unless said otherwise
pub open spec fn perm(p: Seq<int>, n: int) -> bool { p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j ==> #[trigger] p[i] != #[trigger] p[j]) }
pub open spec fn moved<T>(s: Seq<T>, p: Seq<int>, t: Seq<T>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == s[p[i]] }
pub trait SortKey { spec fn key(self) -> int; }
impl SortKey for u64 { open spec fn key(self) -> int { self as int } }
impl SortKey for usize { open spec fn key(self) -> int { self as int } }
impl SortKey for &u64 { open spec fn key(self) -> int { *self as int } }
impl SortKey for &usize { open spec fn key(self) -> int { *self as int } }
// k[i]: the key of element i before sorting
pub open spec fn by_key<T, K: SortKey, G: Fn(&T) -> K>(g: G, s: Seq<T>, k: Seq<K>, p: Seq<int>, stable: bool) -> bool {
    k.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> g.ensures((&s[i],), #[trigger] k[i]))
    && (forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < s.len() ==> k[p[i]].key() < k[p[j]].key() || k[p[i]].key() == k[p[j]].key() && (stable ==> p[i] < p[j])) }
pub open spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
// sort_by may panic when the comparison is not a total order
pub open spec fn total<T, G: Fn(&T, &T) -> Ordering>(g: G, s: Seq<T>) -> bool {
    (forall|i: int, j: int, a: Ordering, b: Ordering| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] g.ensures((&s[i], &s[j]), a) && #[trigger] g.ensures((&s[j], &s[i]), b) ==> b == rev(a))
    && (forall|i: int, j: int, k: int, a: Ordering, b: Ordering, c: Ordering| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len()
        && #[trigger] g.ensures((&s[i], &s[j]), a) && #[trigger] g.ensures((&s[j], &s[k]), b) && #[trigger] g.ensures((&s[i], &s[k]), c)
        && a != Ordering::Greater && b != Ordering::Greater ==> c != Ordering::Greater && (c == Ordering::Equal ==> a == Ordering::Equal && b == Ordering::Equal)) }
pub open spec fn in_order<T, G: Fn(&T, &T) -> Ordering>(g: G, s: Seq<T>, p: Seq<int>, i: int, j: int, stable: bool) -> bool {
    exists|o: Ordering| #[trigger] g.ensures((&s[p[i]], &s[p[j]]), o) && (o == Ordering::Less || o == Ordering::Equal && (stable ==> p[i] < p[j])) }
pub open spec fn by_cmp<T, G: Fn(&T, &T) -> Ordering>(g: G, s: Seq<T>, p: Seq<int>, stable: bool) -> bool { forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < s.len() ==> in_order(g, s, p, i, j, stable) }
pub trait XSort<T>: View<V = Seq<T>> {
    fn x_sort_by_key<K: SortKey, G: Fn(&T) -> K>(&mut self, g: G)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> g.requires((&#[trigger] old(self)@[i],)),
        ensures exists|p: Seq<int>, k: Seq<K>| #![trigger by_key(g, old(self)@, k, p, true)] perm(p, old(self)@.len() as int) && moved(old(self)@, p, final(self)@) && by_key(g, old(self)@, k, p, true);
    fn x_sort_by<G: Fn(&T, &T) -> Ordering>(&mut self, g: G)
        requires forall|i: int, j: int| 0 <= i < old(self)@.len() && 0 <= j < old(self)@.len() ==> g.requires((&#[trigger] old(self)@[i], &#[trigger] old(self)@[j])), total(g, old(self)@),
        ensures exists|p: Seq<int>| #[trigger] perm(p, old(self)@.len() as int) && moved(old(self)@, p, final(self)@) && by_cmp(g, old(self)@, p, true);
    fn x_sort_unstable_by_key<K: SortKey, G: Fn(&T) -> K>(&mut self, g: G)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> g.requires((&#[trigger] old(self)@[i],)),
        ensures exists|p: Seq<int>, k: Seq<K>| #![trigger by_key(g, old(self)@, k, p, false)] perm(p, old(self)@.len() as int) && moved(old(self)@, p, final(self)@) && by_key(g, old(self)@, k, p, false);
    fn x_sort_unstable_by<G: Fn(&T, &T) -> Ordering>(&mut self, g: G)
        requires forall|i: int, j: int| 0 <= i < old(self)@.len() && 0 <= j < old(self)@.len() ==> g.requires((&#[trigger] old(self)@[i], &#[trigger] old(self)@[j])), total(g, old(self)@),
        ensures exists|p: Seq<int>| #[trigger] perm(p, old(self)@.len() as int) && moved(old(self)@, p, final(self)@) && by_cmp(g, old(self)@, p, false);
}
impl<T> XSort<T> for Vec<T> {
    #[verifier::external_body] fn x_sort_by_key<K: SortKey, G: Fn(&T) -> K>(&mut self, g: G) { unimplemented!() }
    #[verifier::external_body] fn x_sort_by<G: Fn(&T, &T) -> Ordering>(&mut self, g: G) { unimplemented!() }
    #[verifier::external_body] fn x_sort_unstable_by_key<K: SortKey, G: Fn(&T) -> K>(&mut self, g: G) { unimplemented!() }
    #[verifier::external_body] fn x_sort_unstable_by<G: Fn(&T, &T) -> Ordering>(&mut self, g: G) { unimplemented!() }
}
// f64::total_cmp orders -0 before 0 and every NaN: only its agreement with < is stated
pub uninterp spec fn ftotal(a: F, b: F) -> Ordering;
impl F {
    #[verifier::external_body] pub fn partial_cmp(&self, o: &F) -> (r: Option<Ordering>)
        ensures r == (if flt(*self, *o) { Some(Ordering::Less) } else if feq(*self, *o) { Some(Ordering::Equal) } else if flt(*o, *self) { Some(Ordering::Greater) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn total_cmp(&self, o: &F) -> (r: Ordering)
        ensures r == ftotal(*self, *o), flt(*self, *o) ==> r == Ordering::Less, flt(*o, *self) ==> r == Ordering::Greater { unimplemented!() }
}
pub open spec fn windows<T>(s: Seq<T>) -> Seq<(T, T)> { Seq::new(if s.len() == 0 { 0 } else { (s.len() - 1) as nat }, |i: int| (s[i], s[i + 1])) }
pub open spec fn refs_of<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<T: Copy> It<T> {
    // itertools: every two neighbours
    #[verifier::external_body] pub fn tuple_windows(self) -> (r: It<(T, T)>)
        ensures r@ == windows(self@) { unimplemented!() }
}
impl<'a, T> XFor for &'a Array1<T> { type T = &'a T; open spec fn for_ok(self, s: Seq<&'a T>) -> bool { s == refs_of::<'a, T>(self@) && refs(s, self@) } #[verifier::external_body] fn x_for(self) -> (r: It<&'a T>) { unimplemented!() } }
// polyfit-rs: least squares; coefficient n belongs to the power n
pub uninterp spec fn fitted(x: Seq<F>, y: Seq<F>, degree: int) -> Seq<F>;
pub open spec fn fits(x: Seq<F>, y: Seq<F>) -> bool { x.len() == y.len() && x.len() > 0 && (forall|i: int| 0 <= i < x.len() ==> ffin(#[trigger] x[i])) }
pub mod polyfit_rs { pub mod polyfit_rs { use vstd::prelude::*; use super::super::*;
verus! {
#[verifier::external_body] pub fn polyfit(x: &Vec<F>, y: &Vec<F>, degree: usize) -> (r: Result<Vec<F>, XErr>)
    requires fits(x@, y@), degree < usize::MAX,
    ensures r is Ok, r->Ok_0@ == fitted(x@, y@, degree as int), r->Ok_0@.len() == degree + 1 { unimplemented!() }
} } }
} // verus!
}
pub use tab::*;
