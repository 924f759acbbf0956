pub mod vt {
use vstd::prelude::*;
use super::pre::*;
use super::h5::*;
use super::wr::*;
verus! {
// the machine the check runs on; rustc confirms it
global size_of usize == 8;
// ---------------------------------------------------------------- regex, numbers in a text
// the text of group k where the pattern first occurs in s
pub uninterp spec fn re_group(p: Seq<char>, s: Seq<char>, k: int) -> Option<Seq<char>>;
// the whole number a text says
pub uninterp spec fn whole(s: Seq<char>) -> Option<i64>;
#[verifier::external_body]
pub struct Regex { p: u8 }
#[verifier::external_body]
pub struct Captures { p: u8 }
#[verifier::external_body]
pub struct Match { p: u8 }
#[verifier::external_body]
pub struct Txt { p: u8 }
impl Regex { pub uninterp spec fn pattern(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new<N: XPath>(n: N) -> (r: Io<Regex>) ensures r.done() ==> r.val().pattern() == n.pth() { unimplemented!() }
    #[verifier::external_body] pub fn captures<N: XPath>(&self, n: N) -> (r: Io<Captures>) ensures r.val().pattern() == self.pattern(), r.val().text() == n.pth() { unimplemented!() } }
impl Captures { pub uninterp spec fn pattern(&self) -> Seq<char>; pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get(&self, k: usize) -> (r: Io<Match>) ensures r.done() ==> re_group(self.pattern(), self.text(), k as int) == Some(r.val().text()) { unimplemented!() } }
impl Match { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn as_str(&self) -> (r: Txt) ensures r.text() == self.text() { unimplemented!() } }
pub trait Parsed: Sized { spec fn says(s: Seq<char>) -> Option<Self>; }
impl Parsed for i64 { open spec fn says(s: Seq<char>) -> Option<i64> { whole(s) } }
impl Txt { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn parse<T: Parsed>(&self) -> (r: Io<T>) ensures r.done() ==> T::says(self.text()) == Some(r.val()) { unimplemented!() } }
impl XPath for &String { open spec fn pth(self) -> Seq<char> { self@ } }
// ---------------------------------------------------------------- ndarray and std
pub open spec fn is_greatest(s: Seq<u64>, m: u64) -> bool { s.contains(m) && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= m }
impl<'a> It<&'a u64> { #[verifier::external_body] pub fn max(self) -> (r: Option<&'a u64>) ensures r is Some == (self@.len() > 0), r is Some ==> forall|t: Seq<u64>| refs(self@, t) ==> #[trigger] is_greatest(t, *r->0) { unimplemented!() } }
impl Sh<Array1<u64>> for usize { open spec fn sh_ok(self) -> bool { true } open spec fn filled(self, a: Array1<u64>, x: F) -> bool { a@.len() == self && (x == fl(1, 1) ==> a@ == Seq::new(self as nat, |i: int| 1u64)) && (x == fl(0, 1) ==> a@ == Seq::new(self as nat, |i: int| 0u64)) } }
impl<T> Array1<T> {
    #[verifier::external_body] pub fn into_raw_vec(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}
// row after row
#[verifier::external_body]
pub fn arr2_from_shape_vec<T>(d: (usize, usize), v: Vec<T>) -> (r: Result<Array2<T>, XErr>)
    ensures match r { Ok(a) => a.dimv() == (d.0 as int, d.1 as int) && d.0 * d.1 == v@.len() && forall|k: I2| in2(a.dimv(), k) ==> #[trigger] a@[k] == v@[k.0 * d.1 + k.1],
        Err(_) => d.0 * d.1 != v@.len() } { unimplemented!() }
// ---------------------------------------------------------------- VTK files, as the vtkio library gives them
pub enum VTKType { PolyData, UnstructuredGrid }
// how a file is written: by the older format, or as this type of data in XML
pub enum Src { Legacy, Xml(VTKType) }
#[verifier::external_body]
pub struct IOBuffer { p: u8 }
pub struct DataArrayBase { pub name: String, pub data: IOBuffer }
pub enum Attribute { DataArray(DataArrayBase), Field { name: String, data_array: Vec<DataArrayBase> } }
pub struct Attributes { pub point: Vec<Attribute>, pub cell: Vec<Attribute> }
pub struct Piece { pub points: IOBuffer, pub data: Attributes }
#[verifier::external_body]
pub struct RawPiece { p: u8 }
pub enum DataSet { PolyData { pieces: Vec<RawPiece> }, UnstructuredGrid { pieces: Vec<RawPiece> } }
pub struct Vtk { pub data: DataSet }
#[verifier::external_body]
pub struct PathBuf { p: u8 }
// the numbers of a buffer as this type of number, what a file holds, the same with its appended data, and what a piece of it holds
pub trait Scalar: Sized {}
impl Scalar for F {}
impl Scalar for u64 {}
pub uninterp spec fn cast<T>(b: IOBuffer) -> Seq<T>;
pub uninterp spec fn imported(file: Seq<char>) -> Vtk;
pub uninterp spec fn all_loaded(v: Vtk) -> Vtk;
pub uninterp spec fn piece_of(p: RawPiece, source: Option<Seq<char>>) -> Piece;
pub open spec fn path_of(p: Option<&PathBuf>) -> Option<Seq<char>> { match p { Some(p) => Some(p.name()), None => None } }
impl PathBuf { pub uninterp spec fn name(&self) -> Seq<char>; #[verifier::external_body] pub fn from<N: XPath>(n: N) -> (r: PathBuf) ensures r.name() == n.pth() { unimplemented!() } }
impl IOBuffer { #[verifier::external_body] pub fn own(&self) -> (r: IOBuffer) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn cast_into<T: Scalar>(self) -> (r: Io<Vec<T>>) ensures r.val()@ == cast::<T>(self) { unimplemented!() } }
impl Attribute { pub open spec fn called(self) -> Seq<char> { match self { Attribute::DataArray(a) => a.name@, Attribute::Field { name, .. } => name@ } }
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.called() { unimplemented!() } }
impl RawPiece { #[verifier::external_body] pub fn load_piece_data(&self, source: Option<&PathBuf>) -> (r: Io<Piece>) ensures r.val() == piece_of(*self, path_of(source)) { unimplemented!() } }
impl Vtk { #[verifier::external_body] pub fn import<N: XPath>(n: N) -> (r: Io<Vtk>) ensures r.val() == imported(n.pth()) { unimplemented!() }
    #[verifier::external_body] pub fn load_all_pieces(&mut self) -> (r: Io<()>) ensures r.done() ==> *final(self) == all_loaded(*old(self)) { unimplemented!() } }
impl<'b> XEq<&'b str> for &String { open spec fn seq_(self, r: &'b str) -> bool { self@ == r@ } #[verifier::external_body] fn x_eq(self, r: &'b str) -> (b: bool) { unimplemented!() } }
// the first one that is looked for
impl<'a, T> It<&'a T> { #[verifier::external_body] pub fn find<P: Fn(&&'a T) -> bool>(self, p: P) -> (r: Io<&'a T>)
    requires forall|i: int| 0 <= i < self@.len() ==> p.requires((&#[trigger] self@[i],))
    ensures r.done() ==> exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == r.val() && p.ensures((&self@[i],), true) && forall|j: int| 0 <= j < i ==> p.ensures((&#[trigger] self@[j],), false) { unimplemented!() } }
// the pieces of a file
pub open spec fn xml_pieces(t: VTKType, file: Seq<char>) -> Option<Seq<RawPiece>> { match (t, all_loaded(imported(file)).data) { (VTKType::PolyData, DataSet::PolyData { pieces }) => Some(pieces@), (VTKType::UnstructuredGrid, DataSet::UnstructuredGrid { pieces }) => Some(pieces@), _ => None } }
pub open spec fn legacy_pieces(file: Seq<char>) -> Option<Seq<RawPiece>> { match imported(file).data { DataSet::PolyData { pieces } => Some(pieces@), _ => None } }
// a legacy file has a piece, and fields at its points
pub open spec fn legacy_ok(file: Seq<char>) -> bool { legacy_pieces(file) is Some ==> legacy_pieces(file)->0.len() > 0 && piece_of(legacy_pieces(file)->0[0], None).data.point@.len() > 0 }
// XML: the arrays of this name, piece after piece
pub open spec fn arrays_of<T>(a: Seq<Attribute>, field: Seq<char>) -> Seq<T> decreases a.len() { if a.len() == 0 { Seq::empty() } else { arrays_of::<T>(a.drop_last(), field) + (match a.last() { Attribute::DataArray(d) => if d.name@ == field { cast::<T>(d.data) } else { Seq::empty() }, _ => Seq::empty() }) } }
pub open spec fn xml_field<T>(ps: Seq<RawPiece>, file: Seq<char>, field: Seq<char>) -> Seq<T> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else { xml_field::<T>(ps.drop_last(), file, field) + arrays_of::<T>(piece_of(ps.last(), Some(file)).data.point@, field) } }
pub open spec fn xml_points<T>(ps: Seq<RawPiece>, file: Seq<char>) -> Seq<T> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else { xml_points::<T>(ps.drop_last(), file) + cast::<T>(piece_of(ps.last(), Some(file)).points) } }
// legacy: the first array of this name in the first field
pub open spec fn array_of(a: Attribute, field: Seq<char>) -> Option<DataArrayBase> { match a { Attribute::Field { data_array, .. } => first_of(data_array@, field), _ => None } }
pub open spec fn first_of(a: Seq<DataArrayBase>, field: Seq<char>) -> Option<DataArrayBase> decreases a.len() { if a.len() == 0 { None } else if a[0].name@ == field { Some(a[0]) } else { first_of(a.subrange(1, a.len() as int), field) } }
pub proof fn lemma_first_of(a: Seq<DataArrayBase>, field: Seq<char>, i: int) requires 0 <= i < a.len(), a[i].name@ == field, forall|j: int| 0 <= j < i ==> (#[trigger] a[j]).name@ != field ensures first_of(a, field) == Some(a[i]) decreases a.len()
{ if i > 0 { let b = a.subrange(1, a.len() as int); assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] b[j]).name@ != field by { assert(b[j] == a[j + 1]); } lemma_first_of(b, field, i - 1); } }
#[verifier::opaque]
pub open spec fn vtk_field<T>(s: Src, file: Seq<char>, field: Seq<char>) -> Seq<T> { match s { Src::Xml(t) => xml_field::<T>(xml_pieces(t, file)->0, file, field), Src::Legacy => cast::<T>(array_of(piece_of(legacy_pieces(file)->0[0], None).data.point@[0], field)->0.data) } }
#[verifier::opaque]
pub open spec fn vtk_points<T>(s: Src, file: Seq<char>) -> Seq<T> { match s { Src::Xml(t) => xml_points::<T>(xml_pieces(t, file)->0, file), Src::Legacy => cast::<T>(piece_of(legacy_pieces(file)->0[0], None).points) } }
pub mod legacytools { use vstd::prelude::*; use super::*;
verus! {
#[verifier::external_body] pub fn get_field<T: Scalar>(file: impl XPath, field: impl XPath) -> (r: Vec<T>) requires legacy_ok(file.pth()) ensures r@ == vtk_field::<T>(Src::Legacy, file.pth(), field.pth()) { unimplemented!() }
#[verifier::external_body] pub fn get_positions<T: Scalar>(file: impl XPath) -> (r: Vec<T>) requires legacy_ok(file.pth()) ensures r@ == vtk_points::<T>(Src::Legacy, file.pth()) { unimplemented!() }
} }
pub mod xmltools { use vstd::prelude::*; use super::*;
verus! {
#[verifier::external_body] pub fn get_field<T: Scalar>(file: impl XPath, field: impl XPath, t: &VTKType) -> (r: Vec<T>) ensures r@ == vtk_field::<T>(Src::Xml(*t), file.pth(), field.pth()) { unimplemented!() }
#[verifier::external_body] pub fn get_positions<T: Scalar>(file: impl XPath, t: &VTKType) -> (r: Vec<T>) ensures r@ == vtk_points::<T>(Src::Xml(*t), file.pth()) { unimplemented!() }
} }
} // verus!
}
pub use vt::*;
