%import data.vc
%import cyl_spec.vc
%import vector_spec.vc
%struct src/grid/vector_grid.rs VectorGrid
%fn src/grid/vector_grid.rs VectorGrid::new external
@use vg_new
%fn src/grid/vector_grid.rs VectorGrid::velocity_calculation external
@use vg_velocity_calculation
%fn src/grid/vector_grid.rs VectorGrid::divide_by_weight external
@use vg_divide_by_weight
%fn src/grid/vector_grid.rs VectorGrid::is_inside external
@use is_inside
%raw
pub open spec fn vec_q(sel: ParticleSelector) -> spec_fn(Timestep, int) -> bool { |t: Timestep, p: int| picked(sel, t, p) && !nanpos(t.position@[p]) }
// component i of the velocity in the grid's own coordinates (C10)
pub open spec fn vec_v(g: Geo, i: int) -> spec_fn(Timestep, int) -> F { |t: Timestep, p: int| grid_velocity(g, t.position@[p], vel(t, p))[i] }
pub open spec fn vsum(g0: GV, d: Ds, sel: ParticleSelector, i: int, n: int) -> GV { over_t(gv_zero(g0), d, sel, add_if(vec_q(sel), vec_v(g0.g, i)), n) }
pub open spec fn vpart(g0: GV, d: Ds, sel: ParticleSelector, i: int, n: int, m: int) -> GV { over_p(vsum(g0, d, sel, i, n), d[n], add_if(vec_q(sel), vec_v(g0.g, i)), m) }
%end
%fn src/functions.rs Granular::vectorfield
@self Dm
@ret r
@attr #[verifier::loop_isolation(false)]
@requires
    old(self).wf(), gridbox.wf(), selector.wf(),
@ensures
    r.wf(), forall|i: int| 0 <= i < 3 ==> holds_means(#[trigger] r.gvs(i), gridbox.gv().g, old(self).ds(), *selector, vec_q(*selector), vec_v(gridbox.gv().g, i), old(self).ds().len() as int),
@loop 0
    invariant __i0 <= __n0, *self == *old(self), vectorgrid.wf(), vectorgrid.gvs(0).g == gridbox.gv().g,
        forall|i: int| 0 <= i < 3 ==> #[trigger] vectorgrid.gvs(i) == vsum(gridbox.gv(), self.ds(), *selector, i, __i0 as int),
    decreases __n0 - __i0
@loop 1
    invariant __i1 <= __n1, vectorgrid.wf(), vectorgrid.gvs(0).g == gridbox.gv().g,
        forall|i: int| 0 <= i < 3 ==> #[trigger] vectorgrid.gvs(i) == vpart(gridbox.gv(), self.ds(), *selector, i, __i0 - 1, __i1 as int),
    decreases __n1 - __i1
@post 0
    let ghost v0 = vectorgrid;
    let ghost n = self.ds().len() as int;
    proof { lemma_all_sums(gridbox.gv(), self.ds(), *selector, vec_q(*selector), vec_v(gridbox.gv().g, 0), n);
        lemma_all_sums(gridbox.gv(), self.ds(), *selector, vec_q(*selector), vec_v(gridbox.gv().g, 1), n);
        lemma_all_sums(gridbox.gv(), self.ds(), *selector, vec_q(*selector), vec_v(gridbox.gv().g, 2), n);
        assert forall|i: int| 0 <= i < 3 implies holds_means(gv_data(#[trigger] v0.gvs(i), m3_div(v0.gvs(i).data, v0.gvs(i).weight)), gridbox.gv().g, self.ds(), *selector, vec_q(*selector), vec_v(gridbox.gv().g, i), n) by {
            lemma_means(v0.gvs(i), gridbox.gv().g, self.ds(), *selector, vec_q(*selector), vec_v(gridbox.gv().g, i), n); } }
