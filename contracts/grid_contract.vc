// The contract of GridFunctions3D: assumed for Box<dyn GridFunctions3D>, proved for both implementations.
%contract is_inside
@ret r
@ensures
    r == inside(self.gv().g, pos),
%contract cell_id
@ret r
@requires
    self.wf(),
@ensures
    match r {
        Ok(c) => inside(self.gv().g, pos) && cid(c) == cell(self.gv().g, pos) && in3(self.gv().g.cells, cid(c)),
        Err(_) => !inside(self.gv().g, pos) },
%contract add_to_cell
@requires
    old(self).wf(), in3(old(self).gv().g.cells, cid(cell_id)),
@ensures
    final(self).gv() == gv_add_cell(old(self).gv(), cid(cell_id), value), final(self).wf(),
%contract get_value
@ret r
@requires
    self.wf(),
@ensures
    r == (if inside(self.gv().g, pos) { self.gv().data[cell(self.gv().g, pos)] } else { F_NAN() }),
%contract add_value
@requires
    old(self).wf(),
@ensures
    final(self).gv() == gv_add(old(self).gv(), pos, value), final(self).wf(),
%contract insert
@requires
    old(self).wf(),
@ensures
    final(self).gv() == gv_insert(old(self).gv(), pos, value), final(self).wf(),
%contract add_trajectory_value
@requires
    old(self).wf(),
@ensures
    final(self).gv() == gv_traj(old(self).gv(), pos1, pos2, value), final(self).wf(),
%contract divide_by_array
@requires
    old(self).wf(), other.dimv() == old(self).gv().g.cells,
@ensures
    final(self).gv() == gv_data(old(self).gv(), m3_div(old(self).gv().data, other@)), final(self).wf(),
%contract divide_by_scalar
@requires
    old(self).wf(),
@ensures
    final(self).gv() == gv_data(old(self).gv(), m3_divs(old(self).gv().data, other)), final(self).wf(),
%contract divide_by_weight
@requires
    old(self).wf(),
@ensures
    final(self).gv() == gv_data(old(self).gv(), m3_div(old(self).gv().data, old(self).gv().weight)), final(self).wf(),
%contract new_zeros
@ret r
@requires
    self.wf(),
@ensures
    r.gv() == gv_zero(self.gv()), r.wf(),
%contract collapse
@ret r
@requires
    self.wf(), axis < 3,
@ensures
    r.dimv() == dim_rest(self.gv().g.cells, axis as int), r@ == gv_collapse(self.gv(), axis as int),
%contract collapse_weight
@ret r
@requires
    self.wf(), axis < 3,
@ensures
    r.dimv() == dim_rest(self.gv().g.cells, axis as int), r@ == gv_collapse_w(self.gv(), axis as int),
%contract collapse_two
@ret r
@panics_if axis1 == axis2
@requires
    self.wf(), axis1 < 3, axis2 < 3,
@ensures
    r@ == gv_collapse2(self.gv(), axis1 as int, axis2 as int),
%contract collapse_two_weight
@ret r
@panics_if axis1 == axis2
@requires
    self.wf(), axis1 < 3, axis2 < 3,
@ensures
    r@ == gv_collapse2_w(self.gv(), axis1 as int, axis2 as int),
%contract slice
@ret r
@requires
    self.wf(), axis < 3, within(position, self.gv().g.lim[axis as int]),
@ensures
    r.dimv() == dim_rest(self.gv().g.cells, axis as int),
    r@ == layer(self.gv().data, self.gv().g.cells, axis as int, slice_at(self.gv().g, axis as int, position)),
%contract slice_idx
@ret r
@panics_if axis >= 3
@requires
    self.wf(), axis < 3 ==> index_ok(cell_id, dim_ax(self.gv().g.cells, axis as int)),
@ensures
    r.dimv() == dim_rest(self.gv().g.cells, axis as int),
    r@ == layer(self.gv().data, self.gv().g.cells, axis as int, cell_id as int),
%contract get_xpositions
@ret r
@ensures
    r@ == self.gv().g.xp,
%contract get_ypositions
@ret r
@ensures
    r@ == self.gv().g.yp,
%contract get_zpositions
@ret r
@ensures
    r@ == self.gv().g.zp,
%contract get_limits
@ret r
@ensures
    *r == self.gv().g.lim,
%contract get_cells
@ret r
@ensures
    cid(*r) == self.gv().g.cells,
%contract get_data
@ret r
@requires
    self.wf(),
@ensures
    r@ == self.gv().data, r.dimv() == self.gv().g.cells,
%contract get_weights
@ret r
@requires
    self.wf(),
@ensures
    r@ == self.gv().weight, r.dimv() == self.gv().g.cells,
%contract is_cylindrical
@ret r
@ensures
    r == self.gv().g.cyl,
%contract set_data
@panics_if data.dimv() != old(self).gv().g.cells
@requires
    old(self).wf(),
@ensures
    final(self).gv() == gv_data(old(self).gv(), data@), final(self).wf(),
%contract set_weights
@panics_if weights.dimv() != old(self).gv().g.cells
@requires
    old(self).wf(),
@ensures
    final(self).gv() == gv_weight(old(self).gv(), weights@), final(self).wf(),
%contract outlier_removal
@panics_if mode > 2
@requires
    old(self).wf(),
@ensures
    final(self).gv() == gv_outlier(old(self).gv(), threshold, mode as int), final(self).wf(),
