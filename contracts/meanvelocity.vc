%import data.vc
%raw
// C21: the sum of the known speeds of the selected particles and their number
pub open spec fn speed(v: Seq<F>) -> F { fsqrt(fadd(fadd(fmul(v[0], v[0]), fmul(v[1], v[1])), fmul(v[2], v[2]))) }
pub open spec fn counts(sel: ParticleSelector, t: Timestep, p: int) -> bool { picked(sel, t, p) && !fnan(speed(vel(t, p))) }
pub open spec fn speeds(sel: ParticleSelector) -> spec_fn((F, F), Timestep, int) -> (F, F) {
    |a: (F, F), t: Timestep, p: int| if counts(sel, t, p) { (fadd(a.0, speed(vel(t, p))), fadd(a.1, fl(1, 1))) } else { a }
}
pub open spec fn mean_of(a: (F, F)) -> F { fdiv(a.0, a.1) }
pub open spec fn nobody_counts(d: Ds, sel: ParticleSelector, n: int) -> bool {
    forall|k: int, p: int| 0 <= k < n && sel.accepts_time(#[trigger] d[k].time) && 0 <= p < d[k].position@.len() ==> !(#[trigger] counts(sel, d[k], p))
}
pub proof fn lemma_no_speed_p(d: Ds, sel: ParticleSelector, n: int, k: int, a: (F, F), m: int)
    requires nobody_counts(d, sel, n), 0 <= k < n, sel.accepts_time(d[k].time), m <= d[k].position@.len(), ensures over_p(a, d[k], speeds(sel), m) == a, decreases m
{ if m > 0 { lemma_no_speed_p(d, sel, n, k, a, m - 1); assert(!counts(sel, d[k], m - 1)); } }
pub proof fn lemma_no_speed(d: Ds, sel: ParticleSelector, m: int, n: int)
    requires nobody_counts(d, sel, n), m <= n, ensures over_t((fl(0, 1), fl(0, 1)), d, sel, speeds(sel), m) == (fl(0, 1), fl(0, 1)), decreases m
{ if m > 0 { lemma_no_speed(d, sel, m - 1, n); if sel.accepts_time(d[m - 1].time) { lemma_no_speed_p(d, sel, n, m - 1, (fl(0, 1), fl(0, 1)), d[m - 1].position@.len() as int); } } }
%end
%fn src/functions.rs Granular::mean_velocity_showcase
@self Dm
@ret r
@attr #[verifier::loop_isolation(false)]
@requires
    old(self).wf(), selector.wf(),
@ensures
    r == mean_of(over_t((fl(0, 1), fl(0, 1)), old(self).ds(), *selector, speeds(*selector), old(self).ds().len() as int)),
    nobody_counts(old(self).ds(), *selector, old(self).ds().len() as int) ==> fnan(r),
@entry
    broadcast use float_axioms;
@loop 0
    invariant __i0 <= __n0, *self == *old(self), (mean_velocity, num_counts) == over_t((fl(0, 1), fl(0, 1)), self.ds(), *selector, speeds(*selector), __i0 as int),
    decreases __n0 - __i0
@loop 1
    invariant __i1 <= __n1, (mean_velocity, num_counts) == over_p(over_t((fl(0, 1), fl(0, 1)), self.ds(), *selector, speeds(*selector), __i0 - 1), self.ds()[__i0 - 1], speeds(*selector), __i1 as int),
    decreases __n1 - __i1
@post 0
    proof { ax_zero_by_zero(); let d = self.ds(); if nobody_counts(d, *selector, d.len() as int) { lemma_no_speed(d, *selector, d.len() as int, d.len() as int); } }
%fn src/functions.rs Granular::mean_velocity
@self Dm
@ret r
@requires
    old(self).wf(),
@ensures
    r == old(self).stats().velocity_mag@[1],
