%import data.vc
%raw
// C19: the standard deviation of the velocities of the particles in a cell
pub open spec fn gt_q(sel: ParticleSelector) -> spec_fn(Timestep, int) -> bool { |t: Timestep, p: int| picked(sel, t, p) }
pub open spec fn v1(a: int) -> spec_fn(Timestep, int) -> F { |t: Timestep, p: int| vel(t, p)[a] }
pub open spec fn v2(a: int) -> spec_fn(Timestep, int) -> F { |t: Timestep, p: int| fmul(vel(t, p)[a], vel(t, p)[a]) }
pub open spec fn known_axis(m: Seq<char>) -> bool { m == "x"@ || m == "y"@ || m == "z"@ || m == "xyz"@ }
// the sum of the squared deviations along one axis: sum of squares - sum * sum / number
pub open spec fn fluct(g: Geo, c: I3, d: Ds, sel: ParticleSelector, a: int) -> F {
    let n = d.len() as int; let s = cell_sum(g, c, d, sel, gt_q(sel), v1(a), n);
    fsub(cell_sum(g, c, d, sel, gt_q(sel), v2(a), n), fdiv(fmul(s, s), cell_count(g, c, d, sel, gt_q(sel), n)))
}
pub open spec fn fluct_of(g: Geo, c: I3, d: Ds, sel: ParticleSelector, m: Seq<char>) -> F {
    if m == "x"@ { fluct(g, c, d, sel, 0) } else if m == "y"@ { fluct(g, c, d, sel, 1) } else if m == "z"@ { fluct(g, c, d, sel, 2) }
    else { fdiv(fadd(fadd(fluct(g, c, d, sel, 0), fluct(g, c, d, sel, 1)), fluct(g, c, d, sel, 2)), fl(3, 1)) }
}
pub open spec fn holds_temps(x: GV, g: Geo, d: Ds, sel: ParticleSelector, m: Seq<char>) -> bool {
    x.g == g && forall|c: I3| #[trigger] in3(g.cells, c) ==> x.data.dom().contains(c) && x.weight.dom().contains(c) && x.weight[c] == cell_count(g, c, d, sel, gt_q(sel), d.len() as int)
        && x.data[c] == fsqrt(fdiv(fluct_of(g, c, d, sel, m), x.weight[c]))
}
%end
%fn src/functions.rs Granular::granular_temperature_field
@self Dm
@ret r
@attr #[verifier::loop_isolation(false)]
@panics_if !known_axis(mode@)
@requires
    old(self).wf(), grid.wf(), selector.wf(),
@ensures
    r.wf(), holds_temps(r.gv(), grid.gv().g, old(self).ds(), *selector, mode@),
@entry
    let ghost v0 = grid.gv(); let ghost d = self.ds(); let ghost s = *selector; let ghost q = gt_q(s);
@loop 0
    invariant __i0 <= __n0, *self == *old(self), num_counts.dimv() == v0.g.cells, sum_x.dimv() == v0.g.cells, sum_y.dimv() == v0.g.cells, sum_z.dimv() == v0.g.cells, squared_sum_x.dimv() == v0.g.cells, squared_sum_y.dimv() == v0.g.cells, squared_sum_z.dimv() == v0.g.cells,
        num_counts@ == all(v0, d, s, q, one(), __i0 as int), sum_x@ == all(v0, d, s, q, v1(0), __i0 as int), sum_y@ == all(v0, d, s, q, v1(1), __i0 as int), sum_z@ == all(v0, d, s, q, v1(2), __i0 as int),
        squared_sum_x@ == all(v0, d, s, q, v2(0), __i0 as int), squared_sum_y@ == all(v0, d, s, q, v2(1), __i0 as int), squared_sum_z@ == all(v0, d, s, q, v2(2), __i0 as int),
    decreases __n0 - __i0
@loop 1
    invariant __i1 <= __n1, num_counts.dimv() == v0.g.cells, sum_x.dimv() == v0.g.cells, sum_y.dimv() == v0.g.cells, sum_z.dimv() == v0.g.cells, squared_sum_x.dimv() == v0.g.cells, squared_sum_y.dimv() == v0.g.cells, squared_sum_z.dimv() == v0.g.cells,
        num_counts@ == part(v0, d, s, q, one(), __i0 - 1, __i1 as int), sum_x@ == part(v0, d, s, q, v1(0), __i0 - 1, __i1 as int), sum_y@ == part(v0, d, s, q, v1(1), __i0 - 1, __i1 as int), sum_z@ == part(v0, d, s, q, v1(2), __i0 - 1, __i1 as int),
        squared_sum_x@ == part(v0, d, s, q, v2(0), __i0 - 1, __i1 as int), squared_sum_y@ == part(v0, d, s, q, v2(1), __i0 - 1, __i1 as int), squared_sum_z@ == part(v0, d, s, q, v2(2), __i0 - 1, __i1 as int),
    decreases __n1 - __i1
@body 1
    proof { lemma_parts(v0, d, s, q, __i0 - 1, __i1 - 1); }
@closure 0
    |__p0: F| -> (b: F) ensures b == fsqrt(__p0)
@exit
    proof { let n = d.len() as int;
        lemma_all_sums(v0, d, s, gt_q(s), one(), n);
        lemma_all_sums(v0, d, s, gt_q(s), v1(0), n); lemma_all_sums(v0, d, s, gt_q(s), v1(1), n); lemma_all_sums(v0, d, s, gt_q(s), v1(2), n);
        lemma_all_sums(v0, d, s, gt_q(s), v2(0), n); lemma_all_sums(v0, d, s, gt_q(s), v2(1), n); lemma_all_sums(v0, d, s, gt_q(s), v2(2), n); }
