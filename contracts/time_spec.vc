%raw
// C13: which recorded time is nearest to s
pub open spec fn tdist(t: Seq<F>, s: F, k: int) -> F { fabs(fsub(t[k], s)) }
pub open spec fn increasing(t: Seq<F>) -> bool { (forall|i: int| 0 <= i < t.len() ==> !fnan(#[trigger] t[i])) && forall|i: int, j: int| 0 <= i < j < t.len() ==> flt(#[trigger] t[i], #[trigger] t[j]) }
// the first of the times from i on that is not below s
pub open spec fn not_below(t: Seq<F>, s: F, i: int) -> int decreases t.len() - i { if i >= t.len() { t.len() as int } else if !flt(t[i], s) { i } else { not_below(t, s, i + 1) } }
pub open spec fn in_record(t: Seq<F>, s: F) -> bool { fle(t[0], s) && fle(s, t[t.len() - 1]) }
pub open spec fn nearest_time(t: Seq<F>, s: F) -> int { let i = not_below(t, s, 0); if feq(t[i], s) { i } else if flt(tdist(t, s, i), tdist(t, s, i - 1)) { i } else { i - 1 } }
%end
%contract timestep_at
@ret r
@requires
    self.time_array@.len() > 0, increasing(self.time_array@),
@ensures
    match r { Ok(k) => in_record(self.time_array@, seconds) && k as int == nearest_time(self.time_array@, seconds) && k < self.time_array@.len(), Err(_) => !in_record(self.time_array@, seconds) },
