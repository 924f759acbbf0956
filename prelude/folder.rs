pub mod fol {
use vstd::prelude::*;
use super::pre::*;
use super::wr::*;
use super::vt::*;
use core::cmp::Ordering;
verus! {
// ---------------------------------------------------------------- texts
pub open spec fn ends(s: Seq<char>, t: Seq<char>) -> bool { t.len() <= s.len() && s.subrange(s.len() - t.len(), s.len() as int) == t }
pub open spec fn within_text(s: Seq<char>, t: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - t.len() && #[trigger] s.subrange(i, i + t.len()) == t }
pub trait Shown { spec fn shown(self) -> Seq<char>; }
impl Shown for &str { open spec fn shown(self) -> Seq<char> { self@ } }
impl Shown for &&str { open spec fn shown(self) -> Seq<char> { (*self)@ } }
impl Shown for &String { open spec fn shown(self) -> Seq<char> { self@ } }
impl Shown for char { open spec fn shown(self) -> Seq<char> { seq![self] } }
// format!("{}{}", a, b)
#[verifier::external_body] pub fn fmt2<A: Shown, B: Shown>(a: A, b: B) -> (r: String) ensures r@ == a.shown() + b.shown() { unimplemented!() }
pub trait XText { fn x_ends_with<T: Shown>(&self, t: T) -> (r: bool) ensures r == ends(self.chars1(), t.shown()); fn x_contains_text(&self, t: &str) -> (r: bool) ensures r == within_text(self.chars1(), t@); spec fn chars1(&self) -> Seq<char>; }
impl XText for str { open spec fn chars1(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_ends_with<T: Shown>(&self, t: T) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn x_contains_text(&self, t: &str) -> (r: bool) { unimplemented!() } }
// ---------------------------------------------------------------- std::fs
// the paths of what a folder holds, in the order the system gives them; it does not change while it is read
pub uninterp spec fn listing(folder: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body]
pub struct DirEntry { p: u8 }
impl DirEntry { pub uninterp spec fn name(&self) -> Seq<char>; #[verifier::external_body] pub fn path(&self) -> (r: PathBuf) ensures r.name() == self.name() { unimplemented!() } }
#[verifier::external_body] pub fn fs_read_dir<N: XPath>(n: N) -> (r: Io<It<Io<DirEntry>>>) ensures r.val()@.len() == listing(n.pth()).len(), forall|i: int| 0 <= i < r.val()@.len() ==> (#[trigger] r.val()@[i]).val().name() == listing(n.pth())[i] { unimplemented!() }
pub fn main_separator() -> (r: char) ensures r == '/' { '/' }
impl PathBuf { #[verifier::external_body] pub fn to_str(&self) -> (r: Io<&str>) ensures r.val()@ == self.name() { unimplemented!() } }
impl<T> Io<T> { #[verifier::external_body] pub fn map<U, G: Fn(T) -> U>(self, g: G) -> (r: Io<U>) requires g.requires((self.val(),)) ensures g.ensures((self.val(),), r.val()), r.done() == self.done() { unimplemented!() } }
impl<T> It<Io<T>> { #[verifier::external_body] pub fn x_collect_all(self) -> (r: Io<Vec<T>>) ensures r.val()@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] r.val()@[i] == self@[i].val() { unimplemented!() } }
// ---------------------------------------------------------------- natord: an order of texts in which numbers count as numbers
pub uninterp spec fn natural(a: Seq<char>, b: Seq<char>) -> Ordering;
pub axiom fn ax_natural(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures natural(b, a) == (match natural(a, b) { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }),
        natural(a, b) != Ordering::Greater && natural(b, c) != Ordering::Greater ==> natural(a, c) != Ordering::Greater && (natural(a, c) == Ordering::Equal ==> natural(a, b) == Ordering::Equal && natural(b, c) == Ordering::Equal);
pub mod natord { use vstd::prelude::*; use super::*;
verus! {
#[verifier::external_body] pub fn compare(a: &str, b: &str) -> (r: Ordering) ensures r == natural(a@, b@) { unimplemented!() }
} }
} // verus!
}
pub use fol::*;
