%include core
%include tables
%raw
use core::cmp::Ordering;
// C30: r holds the rows of t in the order p
pub open spec fn rows(t: M2, d: I2, p: Seq<int>, r: M2) -> bool { forall|k: I2| in2(d, k) ==> #[trigger] r[k] == t[(p[k.0], k.1)] }
pub open spec fn rows_below(t: M2, d: I2, p: Seq<int>, r: M2, n: int) -> bool { forall|k: I2| in2(d, k) && k.0 < n ==> #[trigger] r[k] == t[(p[k.0], k.1)] }
pub open spec fn column_order(t: M2, c: int, p: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> flt(t[(#[trigger] p[i], c)], t[(#[trigger] p[j], c)]) || feq(t[(p[i], c)], t[(p[j], c)]) && p[i] < p[j] }
pub open spec fn id_order(s: Seq<u64>, p: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> s[#[trigger] p[i]] < s[#[trigger] p[j]] || s[p[i]] == s[p[j]] && p[i] < p[j] }
pub open spec fn ascending(s: Seq<F>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> fle(#[trigger] s[i], s[i + 1]) }
pub proof fn lemma_order() ensures forall|a: F, b: F, c: F| #![trigger flt(a, b), flt(b, c)] fle(a, b) && fle(b, c) ==> fle(a, c) && (feq(a, c) ==> feq(a, b) && feq(b, c))
{ assert forall|a: F, b: F, c: F| #![trigger flt(a, b), flt(b, c)] fle(a, b) && fle(b, c) implies fle(a, c) && (feq(a, c) ==> feq(a, b) && feq(b, c)) by { ax_le_trans(a, b, c); ax_lt_le_trans(a, b, c); } }
// C31: from record m on, the record after which the next one is farther from time t
pub open spec fn reach(s: Seq<F>, m: int, t: F) -> int decreases s.len() - m { if m >= s.len() - 1 || flt(fabs(fsub(t, s[m])), fabs(fsub(t, s[m + 1]))) { m } else { reach(s, m + 1, t) } }
pub open spec fn row_time(dt: F, k: int) -> F { fmul(fl(k, 1), dt) }
pub open spec fn middle(s: Seq<F>, dt: F, k: int) -> int decreases k { if k <= 0 { 1 } else { reach(s, middle(s, dt, k - 1), row_time(dt, k)) } }
pub open spec fn on_line(ta: F, tb: F, t: F, a: F, b: F) -> F { fadd(a, fmul(fdiv(fsub(b, a), fsub(tb, ta)), fsub(t, ta))) }
// column c of row k
pub open spec fn resampled(m: M2, d: I2, dt: F, steps: int, k: int, c: int) -> F {
    let s = col2(m, d, 0); let q = middle(s, dt, k);
    if k == steps - 1 { m[(d.0 - 1, c)] } else if k == 0 { m[(0, c)] } else if c == 0 { row_time(dt, k) }
    else if q >= d.0 - 1 { F_NAN() } else if feq(m[(q - 1, 0)], m[(q + 1, 0)]) { F_NAN() }
    else { on_line(m[(q - 1, 0)], m[(q + 1, 0)], row_time(dt, k), m[(q - 1, c)], m[(q + 1, c)]) } }
pub open spec fn resampled_below(r: M2, m: M2, d: I2, dt: F, steps: int, n: int) -> bool { forall|k: I2| in2((steps, 4), k) && (k.0 < n || k.0 == steps - 1) ==> #[trigger] r[k] == resampled(m, d, dt, steps, k.0, k.1) }
pub proof fn lemma_reach(s: Seq<F>, m: int, t: F) ensures reach(s, m, t) >= m decreases s.len() - m { if !(m >= s.len() - 1) { lemma_reach(s, m + 1, t); } }
// C35: the slope of a polynomial
pub open spec fn slope_terms(p: Seq<F>, t: F) -> Seq<F> { Seq::new((p.len() - 1) as nat, |i: int| fmul(fmul(p[i + 1], fl(i + 1, 1)), fpowf(t, fsub(fl(i + 1, 1), fl(1, 1))))) }
pub open spec fn slope(p: Seq<F>, t: F) -> F { fsum(slope_terms(p, t)) }
// n records from record a on
pub open spec fn window(m: M2, c: int, a: int, n: int) -> Seq<F> { Seq::new(n as nat, |i: int| m[(a + i, c)]) }
pub open spec fn window_times(m: M2, a: int, n: int) -> Seq<F> { Seq::new(n as nat, |i: int| fsub(m[(a + i, 0)], m[(a, 0)])) }
pub open spec fn velocity(m: M2, c: int, a: int, n: int, degree: int) -> F { slope(fitted(window_times(m, a, n), window(m, c, a, n), degree), window_times(m, a, n)[(n - 1) / 2]) }
pub open spec fn with_velocity(r: M2, m: M2, n: int, degree: int, k: I2) -> bool {
    r[k] == (if k.1 < 4 { m[(k.0 + (n - 1) / 2, k.1)] } else { velocity(m, k.1 - 3, k.0, n, degree) }) }
pub open spec fn with_velocity_below(r: M2, m: M2, d: I2, n: int, degree: int, b: int) -> bool { forall|k: I2| in2(d, k) && k.0 < b ==> #[trigger] with_velocity(r, m, n, degree, k) }
// the window that starts at record a
pub open spec fn times_finite(m: M2, d: I2, n: int) -> bool { forall|a: int, i: int| 0 <= a && 0 <= i < n && a + n <= d.0 ==> ffin(#[trigger] window_times(m, a, n)[i]) }
%end
%fn src/converter/convertertools.rs interpolate_step
@ret r
@ensures
    r == on_line(time_old, time_new, time_current, pos_old, pos_new),
%fn src/converter/convertertools.rs is_sorted
@type T f64
@ret r
@ensures
    r == ascending(data@),
@closure 0
    |__p0: (&F, &F)| -> (r: bool) ensures r == fle(*__p0.0, *__p0.1)
@exit
    proof {
        let w = windows(refs_of(data@));
        if __res { assert forall|i: int| 0 <= i < data@.len() - 1 implies fle(#[trigger] data@[i], data@[i + 1]) by { assert(fle(*w[i].0, *w[i].1)); assert(*w[i].0 == data@[i]); assert(*w[i].1 == data@[i + 1]); } }
    }
%fn src/converter/convertertools.rs make_sortlist
@ret r
@ensures
    exists|p: Seq<int>| #[trigger] perm(p, particle_ids@.len() as int) && r@.len() == p.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] r@[i] == p[i]) && id_order(particle_ids@, p),
@closure 0
    |__p0: &usize| -> (r: &u64) requires *__p0 < particle_ids@.len() ensures *r == particle_ids@[*__p0 as int]
%fn src/converter/convertertools.rs sort_by_array
@generics <T: Copy>
@ret r
@requires
    data@.len() == idx@.len() ==> forall|i: int| 0 <= i < idx@.len() ==> #[trigger] idx@[i] < data@.len(),
    data@.len() != idx@.len() ==> forall|i: int| 0 <= i < idx@.len() ==> 3 * #[trigger] idx@[i] + 2 < data@.len(),
@ensures
    data@.len() == idx@.len() ==> r@.len() == idx@.len() && forall|i: int| 0 <= i < idx@.len() ==> #[trigger] r@[i] == data@[idx@[i] as int],
    data@.len() != idx@.len() ==> r@.len() == 3 * idx@.len() && forall|i: int| 0 <= i < 3 * idx@.len() ==> #[trigger] r@[i] == data@[3 * idx@[i / 3] + i % 3],
@loop 0
    invariant __i0 <= __n0, __n0 == idx@.len(), data@.len() == idx@.len(), array_sorted@.len() == __i0,
        forall|i: int| 0 <= i < idx@.len() ==> #[trigger] idx@[i] < data@.len(),
        forall|i: int| 0 <= i < __i0 ==> #[trigger] array_sorted@[i] == data@[idx@[i] as int],
    decreases __n0 - __i0
@loop 1
    invariant __i1 <= __n1, __n1 == idx@.len(), array_sorted@.len() == 3 * __i1, data@.len() <= usize::MAX,
        forall|i: int| 0 <= i < idx@.len() ==> 3 * #[trigger] idx@[i] + 2 < data@.len(),
        forall|i: int| 0 <= i < 3 * __i1 ==> #[trigger] array_sorted@[i] == data@[3 * idx@[i / 3] + i % 3],
    decreases __n1 - __i1
%fn src/converter/convertertools.rs sort_by_column
@type T f64
@ret r
@requires
    column < data.dimv().1,
    forall|i: int| 0 <= i < data.dimv().0 ==> !fnan(#[trigger] data@[(i, column as int)]),
@ensures
    r.dimv() == data.dimv(),
    exists|p: Seq<int>| #[trigger] perm(p, data.dimv().0) && rows(data@, data.dimv(), p, r@) && column_order(data@, column as int, p),
@closure 0
    |__p0: &usize, __p1: &usize| -> (r: Ordering)
        requires *__p0 < data.dimv().0, *__p1 < data.dimv().0, column < data.dimv().1, !fnan(data@[(*__p0 as int, column as int)]), !fnan(data@[(*__p1 as int, column as int)]),
        ensures (r == Ordering::Less) == flt(data@[(*__p0 as int, column as int)], data@[(*__p1 as int, column as int)]), (r == Ordering::Equal) == feq(data@[(*__p0 as int, column as int)], data@[(*__p1 as int, column as int)])
@before indices#1
    let ghost before = indices@;
    proof { lemma_order(); }
@after indices#1
    let ghost p = choose|p: Seq<int>| #[trigger] perm(p, data.dimv().0) && moved(before, p, indices@) && column_order(data@, column as int, p);
@loop 0
    invariant __i0 <= __n0, new_data.dimv() == data.dimv(), __n0 == data.dimv().0, perm(p, __n0 as int), __c0@.len() == __n0,
        forall|i: int| 0 <= i < __n0 ==> #[trigger] __c0@[i] == (i as usize, p[i] as usize), rows_below(data@, data.dimv(), p, new_data@, __i0 as int),
    decreases __n0 - __i0
%fn src/converter/convertertools.rs interpolate
@ret r
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@panics_if !ascending(col2(data@, data.dimv(), 0))
@requires
    data.dimv().0 >= 1, data.dimv().1 >= 4, steps >= 1,
@ensures
    r.dimv() == (steps as int, 4int),
    forall|k: I2| in2((steps as int, 4int), k) ==> #[trigger] r@[k] == resampled(data@, data.dimv(), fdiv(max_time, fl(steps as int, 1)), steps as int, k.0, k.1),
@entry
    let ghost d = data.dimv(); let ghost ts = col2(data@, d, 0); let ghost dtg = fdiv(max_time, fl(steps as int, 1));
@loop 0
    invariant 1 <= __i0, __i0 <= __n0 || __i0 == 1, __n0 == timesteps - 1, interp_data.dimv() == (steps as int, 4int), resampled_below(interp_data@, data@, d, dtg, steps as int, __i0 as int),
        real_step == middle(ts, dtg, __i0 - 1), real_step >= 1,
    decreases __n0 - __i0
@before real_step#1
    let ghost m0 = real_step as int;
@loop 1
    invariant real_step >= m0, reach(ts, real_step as int, time_new) == reach(ts, m0, time_new),
    ensures real_step == reach(ts, m0, time_new),
    decreases time@.len() - real_step
%fn src/converter/convertertools.rs velocity_polynom
@ret r
@attr #[verifier::loop_isolation(false)]
@panics_if sampling_steps % 2 == 0
@requires
    data.dimv().1 >= 4, data.dimv().0 >= sampling_steps - 1, times_finite(data@, data.dimv(), sampling_steps as int), degree < usize::MAX,
@ensures
    r.dimv() == (data.dimv().0 - (sampling_steps - 1), 7int),
    forall|k: I2| in2(r.dimv(), k) ==> #[trigger] with_velocity(r@, data@, sampling_steps as int, degree as int, k),
@entry
    let ghost d = data.dimv(); let ghost n = sampling_steps as int; let ghost h = (sampling_steps - 1) / 2; let ghost d7 = (d.0 - (n - 1), 7int);
@loop 0
    invariant h <= __i0, __i0 <= __n0 || __i0 == h, __n0 == d.0 - h, d == data.dimv(), new_data.dimv() == d7, with_velocity_below(new_data@, data@, d7, n, degree as int, __i0 - h),
    decreases __n0 - __i0
@body 0
    let ghost a = id - h; let ghost prev = new_data@;
@before param_x
    proof {
        assert(time@ =~= window_times(data@, a, n));
        assert(datasegment.dimv() == (n, d.1));
        assert(col2(datasegment@, datasegment.dimv(), 1) =~= window(data@, 1, a, n)); assert(col2(datasegment@, datasegment.dimv(), 2) =~= window(data@, 2, a, n)); assert(col2(datasegment@, datasegment.dimv(), 3) =~= window(data@, 3, a, n));
        assert forall|i: int| 0 <= i < n implies ffin(#[trigger] time@[i]) by { assert(ffin(window_times(data@, a, n)[i])); }
    }
@closure 0
    |__p0: (usize, &F)| -> (r: F) requires h < time@.len() ensures r == fmul(fmul(*__p0.1, fl(__p0.0 as int, 1)), fpowf(time@[h], fsub(fl(__p0.0 as int, 1), fl(1, 1))))
@closure 1
    |__p0: (usize, &F)| -> (r: F) requires h < time@.len() ensures r == fmul(fmul(*__p0.1, fl(__p0.0 as int, 1)), fpowf(time@[h], fsub(fl(__p0.0 as int, 1), fl(1, 1))))
@closure 2
    |__p0: (usize, &F)| -> (r: F) requires h < time@.len() ensures r == fmul(fmul(*__p0.1, fl(__p0.0 as int, 1)), fpowf(time@[h], fsub(fl(__p0.0 as int, 1), fl(1, 1))))
@after vx
    proof { assert(fsum(slope_terms(param_x@, time@[h])) == vx); }
@after vy
    proof { assert(fsum(slope_terms(param_y@, time@[h])) == vy); }
@after vz
    proof { assert(fsum(slope_terms(param_z@, time@[h])) == vz); }
@end 0
    proof {
        assert forall|k: I2| in2(d7, k) && k.0 < __i0 - h implies #[trigger] with_velocity(new_data@, data@, n, degree as int, k) by {
            if k.0 != a { assert(with_velocity(prev, data@, n, degree as int, k)); } else { assert(window_times(data@, a, n)[(n - 1) / 2] == time@[h]); assert(k == (a, 0int) || k == (a, 1int) || k == (a, 2int) || k == (a, 3int) || k == (a, 4int) || k == (a, 5int) || k == (a, 6int)); }
        }
    }
