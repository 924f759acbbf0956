%include core
%import time_spec.vc
%struct src/datamanager.rs GlobalStats getters
%raw
// IEEE 754: on one side of s, rounded subtraction is monotone
pub axiom fn ax_dist_below(a: F, b: F, s: F) ensures fle(a, b) && fle(b, s) ==> !flt(fabs(fsub(a, s)), fabs(fsub(b, s)));
pub axiom fn ax_dist_above(a: F, b: F, s: F) ensures fle(b, a) && fle(s, b) ==> !flt(fabs(fsub(a, s)), fabs(fsub(b, s)));
// a number between two others is finite, so its distance to a number is a number
pub axiom fn ax_dist_num(x: F, y: F, a: F, s: F) ensures flt(x, s) && flt(s, y) && !fnan(a) ==> !fnan(fabs(fsub(a, s)));
// no distance is smaller than that of an equal number
pub axiom fn ax_dist_zero(a: F, b: F, s: F) ensures feq(a, s) ==> !flt(fabs(fsub(b, s)), fabs(fsub(a, s)));
// the index is the one of a nearest time, an exactly equal time is found, and of two times at the same distance the earlier one is taken
pub open spec fn is_nearest(t: Seq<F>, s: F, k: int) -> bool {
    0 <= k < t.len() && (forall|j: int| 0 <= j < t.len() ==> !flt(#[trigger] tdist(t, s, j), tdist(t, s, k)))
    && (forall|j: int| 0 <= j < t.len() && feq(#[trigger] t[j], s) ==> j == k)
    && (k > 0 && flt(s, t[k]) ==> flt(tdist(t, s, k), tdist(t, s, k - 1)))
}
pub open spec fn sides(t: Seq<F>, s: F) -> bool {
    (forall|i: int, j: int| 0 <= i <= j < t.len() && flt(#[trigger] t[j], s) ==> flt(#[trigger] t[i], s))
    && (forall|i: int, j: int| 0 <= i <= j < t.len() && flt(s, #[trigger] t[i]) ==> flt(s, #[trigger] t[j]))
}
pub proof fn lemma_sides(t: Seq<F>, s: F) requires increasing(t), ensures sides(t, s) {
    assert forall|i: int, j: int| 0 <= i <= j < t.len() && flt(#[trigger] t[j], s) implies flt(#[trigger] t[i], s) by { if i < j { ax_lt_trans(t[i], t[j], s); } }
    assert forall|i: int, j: int| 0 <= i <= j < t.len() && flt(s, #[trigger] t[i]) implies flt(s, #[trigger] t[j]) by { if i < j { ax_lt_trans(s, t[i], t[j]); } }
}
pub proof fn lemma_not_below(t: Seq<F>, s: F, i: int, k: int)
    requires 0 <= i <= k < t.len(), forall|j: int| i <= j < k ==> flt(#[trigger] t[j], s), !flt(t[k], s), ensures not_below(t, s, i) == k, decreases k - i
{ if i < k { lemma_not_below(t, s, i + 1, k); } }
pub proof fn lemma_equal(t: Seq<F>, s: F, i: int)
    requires increasing(t), 0 <= i < t.len(), feq(t[i], s), ensures not_below(t, s, 0) == i, nearest_time(t, s) == i, is_nearest(t, s, i), in_record(t, s)
{
    broadcast use float_axioms;
    assert forall|j: int| 0 <= j < i implies flt(#[trigger] t[j], s) by { ax_lt_le_trans(t[j], t[i], s); }
    assert forall|j: int| i < j < t.len() implies flt(s, #[trigger] t[j]) by { ax_le_lt_trans(s, t[i], t[j]); }
    lemma_not_below(t, s, 0, i);
    assert forall|j: int| 0 <= j < t.len() implies !flt(#[trigger] tdist(t, s, j), tdist(t, s, i)) by { ax_dist_zero(t[i], t[j], s); }
    if i > 0 { assert(flt(t[0], s)); }
    if i < t.len() - 1 { assert(flt(s, t[t.len() - 1])); }
}
pub proof fn lemma_between(t: Seq<F>, s: F, i: int)
    requires increasing(t), sides(t, s), 0 < i < t.len(), flt(t[i - 1], s), flt(s, t[i]), ensures not_below(t, s, 0) == i, is_nearest(t, s, nearest_time(t, s)), in_record(t, s)
{
    broadcast use float_axioms;
    lemma_not_below(t, s, 0, i);
    assert(flt(t[0], s) && flt(s, t[t.len() - 1]));
    let k = nearest_time(t, s);
    assert forall|j: int| 0 <= j < t.len() implies !flt(#[trigger] tdist(t, s, j), tdist(t, s, k)) by {
        ax_dist_num(t[i - 1], t[i], t[j], s);
        ax_dist_num(t[i - 1], t[i], t[i - 1], s);
        ax_dist_num(t[i - 1], t[i], t[i], s);
        let (d, a, b) = (tdist(t, s, j), tdist(t, s, i), tdist(t, s, i - 1));
        if j < i { if j < i - 1 { assert(flt(t[j], t[i - 1])); } ax_dist_below(t[j], t[i - 1], s); assert(!flt(d, b)); ax_lt_trans(d, a, b); }
        else { if j > i { assert(flt(t[i], t[j])); } ax_dist_above(t[j], t[i], s); assert(!flt(d, a)); if k == i - 1 { if flt(d, b) { ax_lt_le_trans(d, b, a); } } }
    }
    assert forall|j: int| 0 <= j < t.len() && feq(#[trigger] t[j], s) implies j == k by { if j >= i { assert(flt(s, t[j])); } else { assert(flt(t[j], s)); } }
}
pub axiom fn ax_le_lt_trans(a: F, b: F, c: F) ensures fle(a, b) && flt(b, c) ==> flt(a, c);
%end
%fn src/datamanager.rs GlobalStats::timestep_at_seconds_closest
@use timestep_at
@ensures
    match r { Ok(k) => is_nearest(self.time_array@, seconds, k as int), Err(_) => true },
@entry
    broadcast use float_axioms;
    broadcast use array_axioms;
    let ghost t = self.time_array@;
    proof { lemma_sides(t, seconds); }
    let ghost same_time = seconds;
    proof { assert forall|i: int| 0 <= i < t.len() && feq(#[trigger] t[i], seconds) implies nearest_time(t, seconds) == i && is_nearest(t, seconds, i) && in_record(t, seconds) by { lemma_equal(t, seconds, i); } }
@loop 0
    invariant 0 <= low <= t.len(), high < t.len(), t == self.time_array@, t.len() > 0, t.len() <= isize::MAX, low <= high + 1, increasing(t), sides(t, seconds), fle(t[0], seconds), fle(seconds, t[t.len() - 1]), !fnan(seconds),
        forall|i: int| 0 <= i < low ==> flt(#[trigger] t[i], seconds), forall|i: int| high < i < t.len() ==> flt(seconds, #[trigger] t[i]),
        forall|i: int| 0 <= i < t.len() && feq(#[trigger] t[i], seconds) ==> nearest_time(t, seconds) == i && is_nearest(t, seconds, i) && in_record(t, seconds),
    ensures low == high + 1,
    decreases high + 1 - low
@body 0
    broadcast use float_axioms;
@post 0
    proof { if 0 < low && low < t.len() { lemma_between(t, seconds, low as int); } }
