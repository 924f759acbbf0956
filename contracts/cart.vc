%include core
%include grids
%import grid_contract.vc
%raw
pub enum Dim { OneD(OneD), TwoD(TwoD), ThreeD(ThreeD) }
impl CartesianGrid3D {
    pub open spec fn gv(&self) -> GV { GV { g: self.geo(), data: self.data@, weight: self.weight@ } }
    pub open spec fn geo(&self) -> Geo {
        Geo { cyl: false, cells: cid(self.cells), lim: self.limits, xp: self.xpositions@, yp: self.ypositions@, zp: self.zpositions@, rp: Seq::empty(), center: arbitrary(), radius: arbitrary() }
    }
    pub open spec fn wf(&self) -> bool { geo_wf(self.geo()) && self.data.dimv() == cid(self.cells) && self.weight.dimv() == cid(self.cells) }
}
impl IntoBox for CartesianGrid3D { open spec fn bgv(&self) -> GV { self.gv() } #[verifier::external_body] fn into_box(self) -> (r: GridBox) { unimplemented!() } }
// C03: centre of cell i of n between lo and hi
pub open spec fn centre(i: int, n: int, lo: F, hi: F) -> F {
    let w = fdiv(fsub(hi, lo), fl(n, 1));
    fadd(fadd(fmul(fl(i, 1), w), fdiv(w, fl(2, 1))), lo)
}
pub open spec fn centres(s: Seq<F>, n: int, lim: [F; 2]) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] s[i] == centre(i, n, lim[0], lim[1]) }
%end
%struct src/grid/cartesian_grid.rs CartesianGrid3D getters own
%fn src/grid/cartesian_grid.rs CartesianGrid3D::new
@ret r
@panics_if !(limit is ThreeD)
@ensures
    r.cells == cells, r.limits == limit->ThreeD_0,
    centres(r.xpositions@, cells[0] as int, r.limits[0]),
    centres(r.ypositions@, cells[1] as int, r.limits[1]),
    centres(r.zpositions@, cells[2] as int, r.limits[2]),
    r.data.dimv() == cid(cells), r.weight.dimv() == cid(cells),
    r.data@ == zeros3(cid(cells)), r.weight@ == zeros3(cid(cells)),
@loop 0
    invariant __n0 == cells[0], xpositions@.len() == cells[0], xcellsize == fdiv(fsub(lim[0][1], lim[0][0]), fl(cells[0] as int, 1)), __i0 <= __n0,
        forall|i: int| 0 <= i < __i0 ==> #[trigger] xpositions@[i] == centre(i, cells[0] as int, lim[0][0], lim[0][1]),
    decreases __n0 - __i0
@loop 1
    invariant __n1 == cells[1], ypositions@.len() == cells[1], ycellsize == fdiv(fsub(lim[1][1], lim[1][0]), fl(cells[1] as int, 1)), __i1 <= __n1,
        forall|i: int| 0 <= i < __i1 ==> #[trigger] ypositions@[i] == centre(i, cells[1] as int, lim[1][0], lim[1][1]),
    decreases __n1 - __i1
@loop 2
    invariant __n2 == cells[2], zpositions@.len() == cells[2], zcellsize == fdiv(fsub(lim[2][1], lim[2][0]), fl(cells[2] as int, 1)), __i2 <= __n2,
        forall|i: int| 0 <= i < __i2 ==> #[trigger] zpositions@[i] == centre(i, cells[2] as int, lim[2][0], lim[2][1]),
    decreases __n2 - __i2
%fn src/grid/cartesian_grid.rs CartesianGrid3D::is_inside
@use is_inside
@closure 0
    |__p0: (&[F; 2], &F)| -> (b: bool) ensures b == within(*__p0.1, *__p0.0)
@closure 1
    |__p0: bool| -> (b: bool) ensures b == __p0
@entry
    broadcast use float_axioms;
%fn src/grid/cartesian_grid.rs CartesianGrid3D::cell_id
@use cell_id
@entry
    broadcast use array_axioms;
%fn src/grid/cartesian_grid.rs CartesianGrid3D::cell_ids_in_trajectory
@ret r
@requires
    self.wf(),
@ensures
    match r {
        Ok(x) => inside(self.gv().g, pos1) && inside(self.gv().g, pos2) && x.0@.len() == 2 && x.1@.len() == 2
            && cid(x.0@[0]) == cell(self.gv().g, pos1) && cid(x.0@[1]) == cell(self.gv().g, pos2) && x.1@[0] == half() && x.1@[1] == half()
            && in3(self.gv().g.cells, cid(x.0@[0])) && in3(self.gv().g.cells, cid(x.0@[1])),
        Err(_) => !(inside(self.gv().g, pos1) && inside(self.gv().g, pos2)) },
%fn src/grid/cartesian_grid.rs CartesianGrid3D::add_to_cell
@use add_to_cell
%fn src/grid/cartesian_grid.rs CartesianGrid3D::get_value
@use get_value
%fn src/grid/cartesian_grid.rs CartesianGrid3D::add_value
@use add_value
%fn src/grid/cartesian_grid.rs CartesianGrid3D::add_trajectory_value
@use add_trajectory_value
@loop 0
    invariant __i0 <= __n0, __n0 == 2, __c0@.len() == 2, self.wf(), self.geo() == old(self).geo(),
        inside(old(self).gv().g, pos1) && inside(old(self).gv().g, pos2), !old(self).gv().g.cyl,
        cid(*__c0@[0].0) == cell(old(self).gv().g, pos1), cid(*__c0@[1].0) == cell(old(self).gv().g, pos2),
        *__c0@[0].1 == half(), *__c0@[1].1 == half(),
        in3(old(self).gv().g.cells, cid(*__c0@[0].0)), in3(old(self).gv().g.cells, cid(*__c0@[1].0)),
        self.gv() == (if __i0 == 0 { old(self).gv() } else if __i0 == 1 { gv_add_part(old(self).gv(), cell(old(self).gv().g, pos1), fmul(value, half()), half()) }
            else { gv_traj(old(self).gv(), pos1, pos2, value) }),
    decreases __n0 - __i0
%fn src/grid/cartesian_grid.rs CartesianGrid3D::divide_by_array
@use divide_by_array
%fn src/grid/cartesian_grid.rs CartesianGrid3D::divide_by_scalar
@use divide_by_scalar
%fn src/grid/cartesian_grid.rs CartesianGrid3D::divide_by_weight
@use divide_by_weight
%fn src/grid/cartesian_grid.rs CartesianGrid3D::insert
@use insert
%fn src/grid/cartesian_grid.rs CartesianGrid3D::new_zeros
@use new_zeros
%fn src/grid/cartesian_grid.rs CartesianGrid3D::get_xpositions
@use get_xpositions
%fn src/grid/cartesian_grid.rs CartesianGrid3D::get_ypositions
@use get_ypositions
%fn src/grid/cartesian_grid.rs CartesianGrid3D::get_zpositions
@use get_zpositions
%fn src/grid/cartesian_grid.rs CartesianGrid3D::get_limits
@use get_limits
%fn src/grid/cartesian_grid.rs CartesianGrid3D::get_cells
@use get_cells
%fn src/grid/cartesian_grid.rs CartesianGrid3D::get_data
@use get_data
%fn src/grid/cartesian_grid.rs CartesianGrid3D::get_weights
@use get_weights
%fn src/grid/cartesian_grid.rs CartesianGrid3D::is_cylindrical
@use is_cylindrical
%fn src/grid/cartesian_grid.rs CartesianGrid3D::set_data
@use set_data
%fn src/grid/cartesian_grid.rs CartesianGrid3D::set_weights
@use set_weights
%fn src/grid/cartesian_grid.rs CartesianGrid3D::slice
@use slice
%fn src/grid/cartesian_grid.rs CartesianGrid3D::slice_idx
@use slice_idx
%fn src/grid/cartesian_grid.rs CartesianGrid3D::collapse
@use collapse
@closure 0
    |__p0: F| -> (b: F) ensures b == nan0(__p0)
@entry
    broadcast use array_axioms;
@loop 0
    invariant __i0 <= __n0, self.wf(), axis.0 < 3, __n0 == __c0@.len(), __n0 == dim_ax(self.gv().g.cells, axis.0 as int),
        result.dimv() == dim_rest(self.gv().g.cells, axis.0 as int), result_weight.dimv() == result.dimv(),
        forall|i: int| 0 <= i < __n0 ==> (#[trigger] __c0@[i]).0@ == layer(self.data@, self.gv().g.cells, axis.0 as int, i) && __c0@[i].1@ == layer(self.weight@, self.gv().g.cells, axis.0 as int, i)
            && __c0@[i].0.dimv() == result.dimv() && __c0@[i].1.dimv() == result.dimv(),
        forall|k: I2| in2(result.dimv(), k) ==> #[trigger] result@[k] == col_sum(self.gv(), axis.0 as int, k, __i0 as int),
        forall|k: I2| in2(result.dimv(), k) ==> #[trigger] result_weight@[k] == col_cw(self.gv(), axis.0 as int, k, __i0 as int),
    decreases __n0 - __i0
@body 0
    broadcast use array_axioms;
@exit
    assert(__res@ =~= gv_collapse(self.gv(), axis.0 as int));
%fn src/grid/cartesian_grid.rs CartesianGrid3D::collapse_weight
@use collapse_weight
@entry
    broadcast use array_axioms;
@loop 0
    invariant __i0 <= __n0, self.wf(), axis.0 < 3, __n0 == __c0@.len(), __n0 == dim_ax(self.gv().g.cells, axis.0 as int),
        result_weight.dimv() == dim_rest(self.gv().g.cells, axis.0 as int),
        forall|i: int| 0 <= i < __n0 ==> (#[trigger] __c0@[i])@ == layer(self.weight@, self.gv().g.cells, axis.0 as int, i) && __c0@[i].dimv() == result_weight.dimv(),
        forall|k: I2| in2(result_weight.dimv(), k) ==> #[trigger] result_weight@[k] == col_w(self.weight@, axis.0 as int, k, __i0 as int),
    decreases __n0 - __i0
@body 0
    broadcast use array_axioms;
@exit
    assert(__res@ =~= gv_collapse_w(self.gv(), axis.0 as int));
%fn src/grid/cartesian_grid.rs CartesianGrid3D::collapse_two
@use collapse_two
@closure 0
    |__p0: F| -> (b: F) ensures b == nan0(__p0)
@entry
    let ghost (a1, a2) = (axis1 as int, axis2 as int);
    broadcast use array_axioms;
@loop 0
    invariant __i0 <= __n0, self.wf(), 0 <= a1 < 3, 0 <= a2 < 3, a1 != a2, axis1.0 == imin(a1, a2), axis2.0 == imax(a1, a2) - 1, axis2.0 < 2, __n0 == __c0@.len(),
        first_collaps.dimv() == dim_rest(self.gv().g.cells, axis1.0 as int), first_collaps_weight.dimv() == first_collaps.dimv(),
        first_collaps@ == gv_collapse(self.gv(), axis1.0 as int), first_collaps_weight@ == gv_collapse_w(self.gv(), axis1.0 as int),
        __n0 == dim_ax2(first_collaps.dimv(), axis2.0 as int),
        result@.len() == dim_rest2(first_collaps.dimv(), axis2.0 as int), result_weight@.len() == result@.len(),
        forall|i: int| 0 <= i < __n0 ==> (#[trigger] __c0@[i]).0@.len() == result@.len() && __c0@[i].1@.len() == result@.len()
            && (forall|j: int| 0 <= j < result@.len() ==> #[trigger] __c0@[i].0@[j] == first_collaps@[ix2(axis2.0 as int, i, j)])
            && (forall|j: int| 0 <= j < result@.len() ==> #[trigger] __c0@[i].1@[j] == first_collaps_weight@[ix2(axis2.0 as int, i, j)]),
        forall|j: int| 0 <= j < result@.len() ==> #[trigger] result@[j] == col2_sum(first_collaps@, first_collaps_weight@, axis2.0 as int, j, __i0 as int),
        forall|j: int| 0 <= j < result@.len() ==> #[trigger] result_weight@[j] == col2_w(first_collaps_weight@, axis2.0 as int, j, __i0 as int),
    decreases __n0 - __i0
@exit
    assert(__res@ =~= gv_collapse2(self.gv(), a1, a2));
%fn src/grid/cartesian_grid.rs CartesianGrid3D::collapse_two_weight
@use collapse_two_weight
@entry
    let ghost (a1, a2) = (axis1 as int, axis2 as int);
    broadcast use array_axioms;
@loop 0
    invariant __i0 <= __n0, self.wf(), 0 <= a1 < 3, 0 <= a2 < 3, a1 != a2, axis1.0 == imin(a1, a2), axis2.0 == imax(a1, a2) - 1, axis2.0 < 2, __n0 == __c0@.len(),
        first_collaps_weight.dimv() == dim_rest(self.gv().g.cells, axis1.0 as int), first_collaps_weight@ == gv_collapse_w(self.gv(), axis1.0 as int),
        __n0 == dim_ax2(first_collaps_weight.dimv(), axis2.0 as int),
        result_weight@.len() == dim_rest2(first_collaps_weight.dimv(), axis2.0 as int),
        forall|i: int| 0 <= i < __n0 ==> (#[trigger] __c0@[i])@.len() == result_weight@.len()
            && (forall|j: int| 0 <= j < result_weight@.len() ==> #[trigger] __c0@[i]@[j] == first_collaps_weight@[ix2(axis2.0 as int, i, j)]),
        forall|j: int| 0 <= j < result_weight@.len() ==> #[trigger] result_weight@[j] == col2_w(first_collaps_weight@, axis2.0 as int, j, __i0 as int),
    decreases __n0 - __i0
@exit
    assert(__res@ =~= gv_collapse2_w(self.gv(), a1, a2));
%fn src/grid/cartesian_grid.rs CartesianGrid3D::outlier_removal
@use outlier_removal
@attr #[verifier::rlimit(60)]
@closure 0
    |__p0: F| -> (b: F) ensures b == (if flt(threshold, __p0) { fl(0, 1) } else { __p0 })
@closure 1
    |__p0: F| -> (b: F) ensures b == (if flt(threshold, __p0) { threshold } else { __p0 })
@after data#0
    assert(self.data@ =~= gv_outlier(old(self).gv(), threshold, 0).data);
@after data#1
    assert(self.data@ =~= gv_outlier(old(self).gv(), threshold, 1).data);
@entry
    broadcast use array_axioms;
@loop 0
    invariant __i0 <= __n0, *self == *old(self), self.wf(), __n0 == __c0@.len(), __n0 == size3(self.gv().g.cells),
        result.dimv() == self.gv().g.cells, weight.dimv() == self.gv().g.cells,
        forall|i: int| 0 <= i < __n0 ==> ix_item(#[trigger] __c0@[i], self.data@, unflat3(self.gv().g.cells, i)),
        forall|i: int| 0 <= i < __i0 ==> result@[#[trigger] unflat3(self.gv().g.cells, i)] == out_data(self.gv(), threshold, unflat3(self.gv().g.cells, i)),
        forall|i: int| 0 <= i < __i0 ==> weight@[#[trigger] unflat3(self.gv().g.cells, i)] == out_weight(self.gv(), threshold, unflat3(self.gv().g.cells, i)),
    decreases __n0 - __i0
@body 0
    let ghost i0 = __i0 - 1; let ghost d = self.gv().g.cells; let ghost k0 = unflat3(d, i0);
    proof { lemma_unflat3(d, i0); assert(ix_item(__c0@[i0], self.data@, k0)); assert forall|i: int| 0 <= i < i0 implies #[trigger] unflat3(d, i) != k0 by { lemma_unflat3(d, i); } }
@after indexes
    assert forall|j: int| 0 <= j < 26 implies nb_ix(#[trigger] indexes@[j], k0, j) by { lemma_nb_ix(indexes, k0, j); }
@loop 1
    invariant __i1 <= __n1, __n1 == 26, __c1@.len() == 26, self.wf(), in3(self.gv().g.cells, k0), *self == *old(self),
        forall|j: int| 0 <= j < 26 ==> nb_ix(*(#[trigger] __c1@[j]), k0, j),
        sum == nb_sum(self.gv(), self.data@, threshold, k0, __i1 as int),
        weight_sum == nb_sum(self.gv(), self.weight@, threshold, k0, __i1 as int),
        counter_sum == nb_num(self.gv(), threshold, k0, __i1 as int),
    decreases __n1 - __i1
@body 1
    broadcast use array_axioms;
    assert(nb_ix(*index, k0, __i1 - 1));
@post 0
    assert forall|k: I3| in3(self.gv().g.cells, k) implies result@[k] == out_data(self.gv(), threshold, k) && weight@[k] == out_weight(self.gv(), threshold, k) by { lemma_flat3(self.gv().g.cells, k); }
    assert(result@ =~= gv_outlier(old(self).gv(), threshold, 2).data);
    assert(weight@ =~= gv_outlier(old(self).gv(), threshold, 2).weight);
