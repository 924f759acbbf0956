%include core
%include grids
%import grid_contract.vc
%import cyl_spec.vc
%raw
pub trait FromBox: Sized { spec fn is_of(&self, v: GV) -> bool; }
impl FromBox for CylindricalGrid3D { open spec fn is_of(&self, v: GV) -> bool { self.gv() == v } }
impl GridBox {
    // as_any().downcast_ref::<T>(): Box<dyn GridFunctions3D> is Cartesian or cylindrical (assumed; a VectorGrid is not put in a VectorGrid)
    #[verifier::external_body] pub fn as_any(&self) -> (r: &GridBox) ensures *r == *self { unimplemented!() }
    #[verifier::external_body] pub fn downcast_ref<T: FromBox>(&self) -> (r: Option<&T>) ensures self.gv().g.cyl ==> r is Some && r->Some_0.is_of(self.gv()) { unimplemented!() }
}
impl CylindricalGrid3D { #[verifier::external_body] pub fn default() -> (r: CylindricalGrid3D) { unimplemented!() } }
%end
%fn src/grid/cylindrical_grid.rs CylindricalGrid3D::to_cylindrical
@ret r
@ensures
    r@ =~= seq![cyl_r(self.geo(), pos), cyl_o(self.geo(), pos), pos[2]],
@entry
    broadcast use float_axioms;
%import gridbox.vc
%import vector_spec.vc
%struct src/grid/vector_grid.rs VectorGrid
%raw
impl GridBox { pub uninterp spec fn cgv(&self, i: int) -> GV; }
impl IntoBox for VectorGrid { open spec fn bgv(&self) -> GV { self.gv() }
    #[verifier::external_body] fn into_box(self) -> (r: GridBox) ensures forall|i: int| 0 <= i < 3 ==> r.cgv(i) == #[trigger] self.gvs(i) { unimplemented!() } }
%end
%fn src/grid/vector_grid.rs VectorGrid::new
@use vg_new
%fn src/grid/vector_grid.rs VectorGrid::velocity_calculation
@use vg_velocity_calculation
%fn src/grid/vector_grid.rs VectorGrid::add_value
@requires
    old(self).wf(), 
@ensures
    final(self).wf(), forall|i: int| 0 <= i < 3 ==> #[trigger] final(self).gvs(i) == gv_add(old(self).gvs(i), pos, value),
%fn src/grid/vector_grid.rs VectorGrid::divide_by_array
@requires
    old(self).wf(), other.dimv() == old(self).gvs(0).g.cells,
@ensures
    final(self).wf(), forall|i: int| 0 <= i < 3 ==> #[trigger] final(self).gvs(i) == gv_data(old(self).gvs(i), m3_div(old(self).gvs(i).data, other@)),
%fn src/grid/vector_grid.rs VectorGrid::divide_by_scalar
@requires
    old(self).wf(), 
@ensures
    final(self).wf(), forall|i: int| 0 <= i < 3 ==> #[trigger] final(self).gvs(i) == gv_data(old(self).gvs(i), m3_divs(old(self).gvs(i).data, other)),
%fn src/grid/vector_grid.rs VectorGrid::divide_by_weight
@use vg_divide_by_weight
%fn src/grid/vector_grid.rs VectorGrid::insert
@requires
    old(self).wf(), 
@ensures
    final(self).wf(), forall|i: int| 0 <= i < 3 ==> #[trigger] final(self).gvs(i) == gv_insert(old(self).gvs(i), pos, value),
%fn src/grid/vector_grid.rs VectorGrid::add_to_cell
@requires
    old(self).wf(), in3(old(self).gvs(0).g.cells, cid(cell_id)),
@ensures
    final(self).wf(), forall|i: int| 0 <= i < 3 ==> #[trigger] final(self).gvs(i) == gv_add_cell(old(self).gvs(i), cid(cell_id), value),
%fn src/grid/vector_grid.rs VectorGrid::add_trajectory_value
@requires
    old(self).wf(), 
@ensures
    final(self).wf(), forall|i: int| 0 <= i < 3 ==> #[trigger] final(self).gvs(i) == gv_traj(old(self).gvs(i), pos1, pos2, value),
%fn src/grid/vector_grid.rs VectorGrid::set_weights
@panics_if weights.dimv() != old(self).gvs(0).g.cells
@requires
    old(self).wf(), 
@ensures
    final(self).wf(), forall|i: int| 0 <= i < 3 ==> #[trigger] final(self).gvs(i) == gv_weight(old(self).gvs(i), weights@),
%fn src/grid/vector_grid.rs VectorGrid::outlier_removal
@panics_if mode > 2
@requires
    old(self).wf(), 
@ensures
    final(self).wf(), forall|i: int| 0 <= i < 3 ==> #[trigger] final(self).gvs(i) == gv_outlier(old(self).gvs(i), threshold, mode as int),
%fn src/grid/vector_grid.rs VectorGrid::is_inside
@use is_inside
%fn src/grid/vector_grid.rs VectorGrid::cell_id
@use cell_id
%fn src/grid/vector_grid.rs VectorGrid::get_xpositions
@use get_xpositions
%fn src/grid/vector_grid.rs VectorGrid::get_ypositions
@use get_ypositions
%fn src/grid/vector_grid.rs VectorGrid::get_zpositions
@use get_zpositions
%fn src/grid/vector_grid.rs VectorGrid::get_limits
@use get_limits
%fn src/grid/vector_grid.rs VectorGrid::get_cells
@use get_cells
%fn src/grid/vector_grid.rs VectorGrid::get_data
@use get_data
%fn src/grid/vector_grid.rs VectorGrid::get_weights
@use get_weights
%fn src/grid/vector_grid.rs VectorGrid::is_cylindrical
@use is_cylindrical
%fn src/grid/vector_grid.rs VectorGrid::collapse_two
@use collapse_two
%fn src/grid/vector_grid.rs VectorGrid::collapse_two_weight
@use collapse_two_weight
%fn src/grid/vector_grid.rs VectorGrid::collapse_weight
@use collapse_weight
%fn src/grid/vector_grid.rs VectorGrid::new_zeros
@ret r
@requires
    self.wf(),
@ensures
    forall|i: int| 0 <= i < 3 ==> r.cgv(i) == gv_zero(self.gvs(i)),
