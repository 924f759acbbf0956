pub mod wr {
use vstd::prelude::*;
use super::pre::*;
use super::h5::*;
verus! {
// ---------------------------------------------------------------- hdf5: a file is written once
// Names are created once: hdf5 refuses a name that is there already, and nothing here removes or overwrites one. So what is
// created holds from then on, and it is stated with the functions the readers' contracts are stated with.
// The result of an operation on files: it may fail for reasons outside of the program, unwrapping it then ends the program.
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Io<T> { p: core::marker::PhantomData<T> }
impl<T> Io<T> {
    pub uninterp spec fn done(&self) -> bool;
    pub uninterp spec fn val(&self) -> T;
    #[verifier::external_body] pub fn unwrap(self) -> (r: T) ensures self.done(), r == self.val() { unimplemented!() }
}
// where something is created
pub enum Place { Attr(File), Set(File), In(Group) }
pub open spec fn made(p: Place, n: Seq<char>, c: Container) -> bool {
    match p { Place::Attr(f) => f.has_attr(n) && f.attr_(n) == c, Place::Set(f) => f.has(n) && f.ds(n) == c, Place::In(g) => g.has(n) && g.ds(n) == c } }
// an array is read back as what was written; hdf5 converts whole numbers to the reader's number type
pub trait Written: Sized { spec fn written(self, c: Container) -> bool; }
impl Written for &Array1<F> { open spec fn written(self, c: Container) -> bool { c.is1::<F>() && c.one::<F>()@ == self@ } }
impl Written for &Vec<F> { open spec fn written(self, c: Container) -> bool { c.is1::<F>() && c.one::<F>()@ == self@ } }
impl Written for &Array2<F> { open spec fn written(self, c: Container) -> bool { c.is2::<F>() && c.two::<F>().dimv() == self.dimv() && forall|k: I2| in2(self.dimv(), k) ==> #[trigger] c.two::<F>()@[k] == self@[k] } }
pub open spec fn reals(s: Seq<u64>) -> Seq<F> { Seq::new(s.len(), |i: int| fl(s[i] as int, 1)) }
impl Written for &Vec<u64> { open spec fn written(self, c: Container) -> bool { c.is1::<F>() && c.one::<F>()@ == reals(self@) } }
impl Written for &Array1<u64> { open spec fn written(self, c: Container) -> bool { c.is1::<F>() && c.one::<F>()@ == reals(self@) } }
// a number of type Self stored with the file's type T
pub trait Stored<T>: Sized { spec fn stored(self, c: Container) -> bool; }
impl Stored<F> for F { open spec fn stored(self, c: Container) -> bool { c.is0::<F>() && c.scalar::<F>() == self } }
impl Stored<u64> for usize { open spec fn stored(self, c: Container) -> bool { c.is0::<usize>() && c.scalar::<usize>() == self } }
impl Stored<u64> for u64 { open spec fn stored(self, c: Container) -> bool { c.is0::<usize>() && c.scalar::<usize>() == self as usize } }
impl Stored<u64> for F { open spec fn stored(self, c: Container) -> bool { c.is0::<F>() && c.scalar::<F>() == fl(ftou(self) as int, 1) } }
impl Stored<u8> for i32 { open spec fn stored(self, c: Container) -> bool { c.is0::<u8>() && (0 <= self < 256 ==> c.scalar::<u8>() == self as u8) } }
#[verifier::external_body]
pub struct Builder { p: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(W)]
pub struct Filled<W> { p: core::marker::PhantomData<W> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct ScalarB<T> { p: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Blank<T> { p: core::marker::PhantomData<T> }
impl Builder { pub uninterp spec fn place(&self) -> Place;
    #[verifier::external_body] pub fn with_data<W: Written>(self, w: W) -> (r: Filled<W>) ensures r.place() == self.place(), r.data() == w { unimplemented!() } }
impl<W: Written> Filled<W> { pub uninterp spec fn place(&self) -> Place; pub uninterp spec fn data(&self) -> W;
    #[verifier::external_body] pub fn create(self, n: &str) -> (r: Io<Container>) ensures r.done() ==> made(self.place(), n@, r.val()) && self.data().written(r.val()) { unimplemented!() } }
impl<T> ScalarB<T> { pub uninterp spec fn place(&self) -> Place;
    #[verifier::external_body] pub fn create(self, n: &str) -> (r: Io<Blank<T>>) ensures r.done() ==> r.val().place() == self.place() && r.val().name() == n@ { unimplemented!() } }
impl<T> Blank<T> { pub uninterp spec fn place(&self) -> Place; pub uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn write_scalar<V: Stored<T> + Copy>(self, v: &V) -> (r: Io<()>) ensures r.done() ==> exists|c: Container| made(self.place(), self.name(), c) && #[trigger] (*v).stored(c) { unimplemented!() } }
pub uninterp spec fn created_as(f: File, name: Seq<char>) -> bool;
impl File {
    #[verifier::external_body] pub fn create(name: &str) -> (r: Io<File>) ensures r.done() ==> created_as(r.val(), name@) { unimplemented!() }
    #[verifier::external_body] pub fn create_group<N: XName>(&self, n: N) -> (r: Io<Group>) ensures r.done() ==> self.has_group(n.nm()) && r.val() == self.group_(n.nm()) { unimplemented!() }
    #[verifier::external_body] pub fn new_attr<T>(&self) -> (r: ScalarB<T>) ensures r.place() == Place::Attr(*self) { unimplemented!() }
    #[verifier::external_body] pub fn new_attr_builder(&self) -> (r: Builder) ensures r.place() == Place::Attr(*self) { unimplemented!() }
    #[verifier::external_body] pub fn new_dataset_builder(&self) -> (r: Builder) ensures r.place() == Place::Set(*self) { unimplemented!() }
}
impl Group {
    #[verifier::external_body] pub fn new_dataset<T>(&self) -> (r: ScalarB<T>) ensures r.place() == Place::In(*self) { unimplemented!() }
    #[verifier::external_body] pub fn new_dataset_builder(&self) -> (r: Builder) ensures r.place() == Place::In(*self) { unimplemented!() }
}
// ---------------------------------------------------------------- std: names of files, bytes of a text
pub uninterp spec fn there(name: Seq<char>) -> bool;
pub uninterp spec fn bytes(s: Seq<char>) -> Seq<u8>;
pub trait XBytes { spec fn chars_(&self) -> Seq<char>; fn x_bytes(&self) -> (r: Vec<u8>) ensures r@ == bytes(self.chars_()); }
impl XBytes for str { open spec fn chars_(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_bytes(&self) -> (r: Vec<u8>) { unimplemented!() } }
#[verifier::external_body]
pub struct Path { p: u8 }
pub trait XPath { spec fn pth(self) -> Seq<char>; }
impl XPath for &str { open spec fn pth(self) -> Seq<char> { self@ } }
impl XPath for &&str { open spec fn pth(self) -> Seq<char> { (*self)@ } }
impl Path { pub uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new<N: XPath>(n: N) -> (r: Path) ensures r.name() == n.pth() { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures r == there(self.name()) { unimplemented!() } }
#[verifier::external_body]
pub struct XBar { p: u8 }
#[verifier::external_body] pub fn xbar() -> (r: XBar) { unimplemented!() }
impl XBar { #[verifier::external_body] pub fn inc(&self, n: u64) { unimplemented!() } #[verifier::external_body] pub fn finish(&self) { unimplemented!() } }
// ---------------------------------------------------------------- csv, ndarray-csv: the table of numbers in a file, read with these settings
pub struct CsvS { pub header: bool, pub delimiter: u8, pub double_quote: bool, pub escape: Option<u8>, pub flexible: bool, pub comment: Option<u8> }
pub uninterp spec fn csv_table(name: Seq<char>, s: CsvS) -> Array2<F>;
pub mod csv { use vstd::prelude::*; use super::*;
verus! {
#[verifier::external_body]
pub struct ReaderBuilder { p: u8 }
#[verifier::external_body]
pub struct Reader { p: u8 }
impl ReaderBuilder {
    pub uninterp spec fn set(&self) -> CsvS;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.set() == (CsvS { header: true, delimiter: 44u8, double_quote: true, escape: None, flexible: false, comment: None }) { unimplemented!() }
    #[verifier::external_body] pub fn has_headers(self, b: bool) -> (r: Self) ensures r.set() == (CsvS { header: b, ..self.set() }) { unimplemented!() }
    #[verifier::external_body] pub fn delimiter(self, b: u8) -> (r: Self) ensures r.set() == (CsvS { delimiter: b, ..self.set() }) { unimplemented!() }
    #[verifier::external_body] pub fn double_quote(self, b: bool) -> (r: Self) ensures r.set() == (CsvS { double_quote: b, ..self.set() }) { unimplemented!() }
    #[verifier::external_body] pub fn escape(self, b: Option<u8>) -> (r: Self) ensures r.set() == (CsvS { escape: b, ..self.set() }) { unimplemented!() }
    #[verifier::external_body] pub fn flexible(self, b: bool) -> (r: Self) ensures r.set() == (CsvS { flexible: b, ..self.set() }) { unimplemented!() }
    #[verifier::external_body] pub fn comment(self, b: Option<u8>) -> (r: Self) ensures r.set() == (CsvS { comment: b, ..self.set() }) { unimplemented!() }
    #[verifier::external_body] pub fn from_path<N: XPath>(self, n: N) -> (r: Io<Reader>) ensures r.done() ==> r.val().name() == n.pth() && r.val().set() == self.set() { unimplemented!() }
}
impl Reader {
    pub uninterp spec fn set(&self) -> CsvS;
    pub uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body] pub fn deserialize_array2_dynamic(&mut self) -> (r: Io<Array2<F>>) ensures r.done() ==> r.val() == csv_table(old(self).name(), old(self).set()), final(self).set() == old(self).set(), final(self).name() == old(self).name() { unimplemented!() }
}
} }
// ---------------------------------------------------------------- numbers the converters use besides
pub axiom fn ax_extremes() ensures !fnan(F_MAX()), !fnan(F_MIN()), !fnan(F_INF()), !fnan(fneg(F_INF()));
pub axiom fn ax_infinite() ensures !ffin(F_INF()), !ffin(fneg(F_INF())), !ffin(F_NAN());
// ndarray's sum of a row
pub uninterp spec fn rsum(s: Seq<F>) -> F;
impl Array1<F> { #[verifier::external_body] pub fn sum(&self) -> (r: F) ensures r == rsum(self@), forall|s: Seq<F>| same_seq(s, self@) ==> #[trigger] rsum(s) == r { unimplemented!() } }
impl<T> Array1<T> {
    #[verifier::external_body] pub fn map<U, G: Fn(&T) -> U>(&self, g: G) -> (r: Array1<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> g.requires((&#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> g.ensures((&self@[i],), #[trigger] r@[i]) { unimplemented!() }
}
} // verus!
}
pub use wr::*;
