%import data.vc
%raw
// C17: what one particle of timestep k contributes: its time to the next timestep, along its way to its next position
pub open spec fn fold_speed(v: Seq<F>) -> F { fsqrt(fadd(fadd(fadd(fl(0, 1), fmul(v[0], v[0])), fmul(v[1], v[1])), fmul(v[2], v[2]))) }
pub open spec fn dtime(d: Ds, k: int) -> F { fsub(d[k + 1].time, d[k].time) }
pub open spec fn occ_q(g: Geo, d: Ds, sel: ParticleSelector, min: F, k: int, p: int) -> bool {
    picked(sel, d[k], p) && inside(g, d[k].position@[p]) && !flt(fold_speed(vel(d[k], p)), min) && !flt(dtime(d, k), fl(0, 1)) && p < d[k + 1].position@.len()
}
pub open spec fn occ_p(a: (GV, F), g: Geo, d: Ds, sel: ParticleSelector, min: F, k: int, n: int) -> (GV, F) decreases n {
    if n <= 0 { a } else { let b = occ_p(a, g, d, sel, min, k, n - 1);
        if occ_q(g, d, sel, min, k, n - 1) { (gv_traj(b.0, d[k].position@[n - 1], d[k + 1].position@[n - 1], dtime(d, k)), fadd(b.1, dtime(d, k))) } else { b } }
}
pub open spec fn occ_t(a: (GV, F), g: Geo, d: Ds, sel: ParticleSelector, min: F, n: int) -> (GV, F) decreases n {
    if n <= 0 { a } else { let b = occ_t(a, g, d, sel, min, n - 1); if sel.accepts_time(d[n - 1].time) { occ_p(b, g, d, sel, min, n - 1, d[n - 1].position@.len() as int) } else { b } }
}
pub open spec fn occ(v: GV, d: Ds, sel: ParticleSelector, min: F) -> (GV, F) { occ_t((gv_zero(v), fl(0, 1)), v.g, d, sel, min, d.len() - 3) }
pub open spec fn occ_field(v: GV, d: Ds, sel: ParticleSelector, min: F) -> GV { let a = occ(v, d, sel, min); gv_data(a.0, m3_divs(a.0.data, a.1)) }
// C17: the index over the layers of the collapsed field
pub open spec fn known_sum(m: Seq<F>, n: int) -> F decreases n { if n <= 0 { fl(0, 1) } else if fnan(m[n - 1]) { known_sum(m, n - 1) } else { fadd(known_sum(m, n - 1), m[n - 1]) } }
pub open spec fn known_squares(m: Seq<F>, mean: F, n: int) -> F decreases n { if n <= 0 { fl(0, 1) } else if fnan(m[n - 1]) { known_squares(m, mean, n - 1) } else { fadd(known_squares(m, mean, n - 1), fmul(fsub(m[n - 1], mean), fsub(m[n - 1], mean))) } }
pub open spec fn homogeneity(m: Seq<F>) -> F { let n = fl(m.len() as int, 1); let mean = fdiv(known_sum(m, m.len() as int), n); fsqrt(fdiv(known_squares(m, mean, m.len() as int), n)) }
pub proof fn lemma_known_sum(m: Seq<F>, s: Seq<F>, n: int)
    requires 0 <= n <= m.len(), n < s.len(), s[0] == fl(0, 1), forall|i: int| 0 <= i < n ==> #[trigger] s[i + 1] == (if fnan(m[i]) { s[i] } else { fadd(s[i], m[i]) }), ensures s[n] == known_sum(m, n), decreases n
{ if n > 0 { lemma_known_sum(m, s, n - 1); let i = n - 1; assert(s[i + 1] == s[n]); } }
%end
%fn src/functions.rs Granular::occupancyfield
@self Dm
@ret r
@attr #[verifier::loop_isolation(false)]
@requires
    old(self).wf(), grid.wf(), selector.wf(),
@ensures
    final(self).wf(), final(self).ds() == old(self).ds(), final(self).stats() == old(self).stats(),
    r.wf(), r.gv() == occ_field(grid.gv(), old(self).ds(), *selector, min_vel),
@entry
    let ghost v0 = grid.gv(); let ghost d = self.ds(); let ghost z = (gv_zero(v0), fl(0, 1));
@loop 0
    invariant __i0 <= __n0, self.ds() == old(self).ds(), self.stats() == old(self).stats(), self.buffers().contains(0usize), occupancy_grid.wf(), occupancy_grid.gv().g == v0.g, (occupancy_grid.gv(), complete_time) == occ_t(z, v0.g, d, *selector, min_vel, __i0 as int),
    decreases __n0 - __i0
@loop 1
    invariant __i1 <= __n1, occupancy_grid.wf(), occupancy_grid.gv().g == v0.g, (occupancy_grid.gv(), complete_time) == occ_p(occ_t(z, v0.g, d, *selector, min_vel, __i0 - 1), v0.g, d, *selector, min_vel, __i0 - 1, __i1 as int),
    decreases __n1 - __i1
@closure 0
    |__p0: F, __p1: &F| -> (b: F) ensures b == fadd(__p0, fmul(*__p1, *__p1))
@body 1
    proof { let v = vel(d[__i0 - 1], __i1 - 1);
        assert forall|s: Seq<F>| s.len() == 4 && s[0] == fl(0, 1) && (forall|i: int| 0 <= i < 3 ==> #[trigger] s[i + 1] == fadd(s[i], fmul(v[i], v[i]))) implies #[trigger] fsqrt(s[3]) == fold_speed(v) by { let i = 0int; assert(s[i + 1] == fadd(s[i], fmul(v[i], v[i]))); let i = 1int; assert(s[i + 1] == fadd(s[i], fmul(v[i], v[i]))); let i = 2int; assert(s[i + 1] == fadd(s[i], fmul(v[i], v[i]))); } }
%fn src/functions.rs Granular::homogenity_index
@self Dm
@ret r
@attr #[verifier::loop_isolation(false)]
@requires
    old(self).wf(), grid.wf(), selector.wf(),
@ensures
    r == homogeneity(gv_collapse2(occ_field(grid.gv(), old(self).ds(), *selector, min_velocity), 0, 1)),
@closure 0
    |__p0: F, __p1: &F| -> (b: F) ensures b == (if fnan(*__p1) { __p0 } else { fadd(__p0, *__p1) })
@after field#1
    let ghost m = field@; let ghost n = m.len() as int;
    proof { assert forall|s: Seq<F>| s.len() == n + 1 && s[0] == fl(0, 1) && (forall|i: int| 0 <= i < n ==> #[trigger] s[i + 1] == (if fnan(m[i]) { s[i] } else { fadd(s[i], m[i]) })) implies #[trigger] s[n] == known_sum(m, n) by { lemma_known_sum(m, s, n); } }
@loop 0
    invariant __i0 <= __n0, ih == known_squares(m, mean, __i0 as int),
    decreases __n0 - __i0
