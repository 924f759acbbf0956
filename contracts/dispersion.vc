%import later.vc
%raw
// C18: sums over where the particles of a cell are later
pub open spec fn dp_q(s: GlobalStats, sel: ParticleSelector, dt: F) -> spec_fn(Timestep, int) -> bool { |t: Timestep, p: int| has_later(s, t, dt) && picked(sel, t, p) }
pub open spec fn p1(s: GlobalStats, d: Ds, dt: F, a: int) -> spec_fn(Timestep, int) -> F { |t: Timestep, p: int| later(s, d, t, dt).position@[p][a] }
pub open spec fn p2(s: GlobalStats, d: Ds, dt: F, a: int) -> spec_fn(Timestep, int) -> F { |t: Timestep, p: int| fmul(later(s, d, t, dt).position@[p][a], later(s, d, t, dt).position@[p][a]) }
// mean of squares minus square of mean along one axis
pub open spec fn spread(g: Geo, c: I3, d: Ds, s: GlobalStats, sel: ParticleSelector, dt: F, a: int) -> F {
    let n = d.len() as int; let q = dp_q(s, sel, dt); let w = cell_count(g, c, d, sel, q, n); let m = cell_sum(g, c, d, sel, q, p1(s, d, dt, a), n);
    fsub(fdiv(cell_sum(g, c, d, sel, q, p2(s, d, dt, a), n), w), fdiv(fdiv(fmul(m, m), w), w))
}
pub open spec fn number(g: Geo, c: I3, d: Ds, s: GlobalStats, sel: ParticleSelector, dt: F) -> F { cell_count(g, c, d, sel, dp_q(s, sel, dt), d.len() as int) }
pub open spec fn variance(g: Geo, c: I3, d: Ds, s: GlobalStats, sel: ParticleSelector, dt: F) -> F {
    let n = number(g, c, d, s, sel, dt);
    fdiv(fmul(fadd(fadd(spread(g, c, d, s, sel, dt, 0), spread(g, c, d, s, sel, dt, 1)), spread(g, c, d, s, sel, dt, 2)), n), fsub(n, fl(1, 1)))
}
// the cells for which `done` holds have their result, the others are empty
pub open spec fn disp_cells(x: GV, g: Geo, d: Ds, s: GlobalStats, sel: ParticleSelector, dt: F, done: spec_fn(I3) -> bool) -> bool {
    x.g == g && forall|c: I3| #[trigger] in3(g.cells, c) ==> x.data.dom().contains(c) && x.weight.dom().contains(c)
        && if done(c) && flt(fl(1, 1), number(g, c, d, s, sel, dt)) { x.data[c] == fadd(fl(0, 1), variance(g, c, d, s, sel, dt)) && x.weight[c] == fl(1, 1) } else { x.data[c] == fl(0, 1) && x.weight[c] == fl(0, 1) }
}
pub axiom fn ax_zero_plus_one() ensures fadd(fl(0, 1), fl(1, 1)) == fl(1, 1);
pub open spec fn everything() -> spec_fn(I3) -> bool { |c: I3| true }
pub open spec fn before1(i: int) -> spec_fn(I3) -> bool { |c: I3| c.0 < i }
pub open spec fn before2(i: int, j: int) -> spec_fn(I3) -> bool { |c: I3| c.0 < i || c.0 == i && c.1 < j }
pub open spec fn before3(i: int, j: int, k: int) -> spec_fn(I3) -> bool { |c: I3| c.0 < i || c.0 == i && (c.1 < j || c.1 == j && c.2 < k) }
%end
%fn src/functions.rs Granular::dispersion
@self Dm
@ret r
@attr #[verifier::loop_isolation(false)]
@requires
    old(self).wf(), grid.wf(), selector.wf(), increasing(old(self).stats().time_array@), later_wf(old(self).stats(), old(self).ds(), time_for_dispersion),
@ensures
    r.0.wf(), disp_cells(r.0.gv(), grid.gv().g, old(self).ds(), old(self).stats(), *selector, time_for_dispersion, everything()),
    r.1 == fdiv(asum3(m3_mul(r.0.gv().weight, r.0.gv().data), grid.gv().g.cells), asum3(r.0.gv().weight, grid.gv().g.cells)),
@entry
    let ghost v0 = grid.gv(); let ghost g = v0.g; let ghost d = self.ds(); let ghost s = self.stats(); let ghost sel = *selector; let ghost dt = time_for_dispersion; let ghost q = dp_q(s, sel, dt);
    proof { ax_zero_plus_one(); }
@loop 0
    invariant __i0 <= __n0, self.ds() == old(self).ds(), self.stats() == old(self).stats(), num_counts.dimv() == g.cells, sum_x.dimv() == g.cells, sum_y.dimv() == g.cells, sum_z.dimv() == g.cells, squared_sum_x.dimv() == g.cells, squared_sum_y.dimv() == g.cells, squared_sum_z.dimv() == g.cells,
        num_counts@ == all(v0, d, sel, q, one(), __i0 as int), sum_x@ == all(v0, d, sel, q, p1(s, d, dt, 0), __i0 as int), sum_y@ == all(v0, d, sel, q, p1(s, d, dt, 1), __i0 as int), sum_z@ == all(v0, d, sel, q, p1(s, d, dt, 2), __i0 as int),
        squared_sum_x@ == all(v0, d, sel, q, p2(s, d, dt, 0), __i0 as int), squared_sum_y@ == all(v0, d, sel, q, p2(s, d, dt, 1), __i0 as int), squared_sum_z@ == all(v0, d, sel, q, p2(s, d, dt, 2), __i0 as int),
    decreases __n0 - __i0
@body 0
    proof { let k = __i0 - 1; if !has_later(s, d[k], dt) { lemma_skips(v0, d, sel, q, k); } }
@loop 1
    invariant __i1 <= __n1, num_counts.dimv() == g.cells, sum_x.dimv() == g.cells, sum_y.dimv() == g.cells, sum_z.dimv() == g.cells, squared_sum_x.dimv() == g.cells, squared_sum_y.dimv() == g.cells, squared_sum_z.dimv() == g.cells,
        num_counts@ == part(v0, d, sel, q, one(), __i0 - 1, __i1 as int), sum_x@ == part(v0, d, sel, q, p1(s, d, dt, 0), __i0 - 1, __i1 as int), sum_y@ == part(v0, d, sel, q, p1(s, d, dt, 1), __i0 - 1, __i1 as int), sum_z@ == part(v0, d, sel, q, p1(s, d, dt, 2), __i0 - 1, __i1 as int),
        squared_sum_x@ == part(v0, d, sel, q, p2(s, d, dt, 0), __i0 - 1, __i1 as int), squared_sum_y@ == part(v0, d, sel, q, p2(s, d, dt, 1), __i0 - 1, __i1 as int), squared_sum_z@ == part(v0, d, sel, q, p2(s, d, dt, 2), __i0 - 1, __i1 as int),
    decreases __n1 - __i1
@body 1
    proof { lemma_parts(v0, d, sel, q, __i0 - 1, __i1 - 1); }
@post 0
    proof { let n = d.len() as int;
        lemma_all_sums(v0, d, sel, q, one(), n);
        lemma_all_sums(v0, d, sel, q, p1(s, d, dt, 0), n); lemma_all_sums(v0, d, sel, q, p1(s, d, dt, 1), n); lemma_all_sums(v0, d, sel, q, p1(s, d, dt, 2), n);
        lemma_all_sums(v0, d, sel, q, p2(s, d, dt, 0), n); lemma_all_sums(v0, d, sel, q, p2(s, d, dt, 1), n); lemma_all_sums(v0, d, sel, q, p2(s, d, dt, 2), n); }
@loop 2
    invariant __i2 <= __n2, dispersion_grid.wf(), disp_cells(dispersion_grid.gv(), g, d, s, sel, dt, before1(__i2 as int)),
    decreases __n2 - __i2
@loop 3
    invariant __i3 <= __n3, dispersion_grid.wf(), disp_cells(dispersion_grid.gv(), g, d, s, sel, dt, before2(__i2 - 1, __i3 as int)),
    decreases __n3 - __i3
@loop 4
    invariant __i4 <= __n4, dispersion_grid.wf(), disp_cells(dispersion_grid.gv(), g, d, s, sel, dt, before3(__i2 - 1, __i3 - 1, __i4 as int)),
    decreases __n4 - __i4
@body 4
    let ghost c = (__i2 - 1, __i3 - 1, __i4 - 1);
    proof { assert(in3(g.cells, c)); }
