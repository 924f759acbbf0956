// What the converters note about all records: least, mean and greatest.
%raw
// the least (greatest) of the numbers and z, NaN left out
#[verifier::opaque]
pub open spec fn least_of(v: Seq<F>, z: F, r: F) -> bool { !fnan(r) && !flt(z, r) && (forall|i: int| 0 <= i < v.len() ==> !flt(#[trigger] v[i], r)) && (r == z || v.contains(r)) }
#[verifier::opaque]
pub open spec fn most_of(v: Seq<F>, z: F, r: F) -> bool { !fnan(r) && !flt(r, z) && (forall|i: int| 0 <= i < v.len() ==> !flt(r, #[trigger] v[i])) && (r == z || v.contains(r)) }
pub open spec fn total_of(v: Seq<F>) -> F decreases v.len() { if v.len() == 0 { fl(0, 1) } else { fadd(total_of(v.drop_last()), v.last()) } }
pub open spec fn mean_of(v: Seq<F>) -> F { fdiv(total_of(v), fl(v.len() as int, 1)) }
pub proof fn lemma_least(v: Seq<F>, z: F, r: F, x: F, o: F) requires least_of(v, z, r), lower(r, x, o) ensures least_of(v.push(x), z, o)
{ reveal(least_of); let w = v.push(x); assert(w[v.len() as int] == x);
  if o == x && fle(x, r) { assert(w.contains(x)); ax_lt_le_trans(z, x, r); assert forall|i: int| 0 <= i < w.len() implies !flt(#[trigger] w[i], x) by { if i < v.len() { assert(w[i] == v[i]); ax_lt_le_trans(w[i], x, r); } } }
  else { if v.contains(r) { let i = choose|i: int| 0 <= i < v.len() && v[i] == r; assert(w[i] == r); } assert forall|i: int| 0 <= i < w.len() implies !flt(#[trigger] w[i], r) by { if i < v.len() { assert(w[i] == v[i]); } } } }
pub proof fn lemma_most(v: Seq<F>, z: F, r: F, x: F, o: F) requires most_of(v, z, r), higher(r, x, o) ensures most_of(v.push(x), z, o)
{ reveal(most_of); let w = v.push(x); assert(w[v.len() as int] == x);
  if o == x && fle(r, x) { assert(w.contains(x)); ax_lt_le_trans(r, x, z); assert forall|i: int| 0 <= i < w.len() implies !flt(x, #[trigger] w[i]) by { if i < v.len() { assert(w[i] == v[i]); ax_lt_le_trans(r, x, w[i]); } } }
  else { if v.contains(r) { let i = choose|i: int| 0 <= i < v.len() && v[i] == r; assert(w[i] == r); } assert forall|i: int| 0 <= i < w.len() implies !flt(r, #[trigger] w[i]) by { if i < v.len() { assert(w[i] == v[i]); } } } }
pub open spec fn lower(r: F, x: F, o: F) -> bool { o == x && (fle(x, r) || fnan(r)) || o == r && !flt(x, r) }
pub open spec fn higher(r: F, x: F, o: F) -> bool { o == x && (fle(r, x) || fnan(r)) || o == r && !flt(r, x) }
pub proof fn lemma_total(v: Seq<F>, x: F) ensures total_of(v.push(x)) == fadd(total_of(v), x) { assert(v.push(x).drop_last() =~= v); }
pub proof fn lemma_empty(v: Seq<F>, z: F) requires v.len() == 0, !fnan(z) ensures least_of(v, z, z), most_of(v, z, z), total_of(v) == fl(0, 1) { reveal(least_of); reveal(most_of); }
%end
