%raw
impl VectorGrid {
    pub open spec fn gvs(&self, i: int) -> GV { self.data@[i].gv() }
    pub open spec fn gv(&self) -> GV { self.gvs(0) }
    // the components are grids of one geometry
    pub open spec fn wf(&self) -> bool {
        self.data@[0].wf() && self.data@[1].wf() && self.data@[2].wf() && self.gvs(1).g == self.gvs(0).g && self.gvs(2).g == self.gvs(0).g
        && (self.gvs(0).g.cyl ==> self.cyl_grid.geo() == self.gvs(0).g)
    }
}
// C10: radial, angular and axial velocity around the centre of a cylinder
pub open spec fn grid_velocity(g: Geo, pos: Position, vel: Seq<F>) -> Seq<F> {
    let (x, y) = (fsub(pos[0], g.center[0]), fsub(pos[1], g.center[1]));
    if !g.cyl { seq![vel[0], vel[1], vel[2]] }
    else { seq![fdiv(fadd(fmul(x, vel[0]), fmul(y, vel[1])), cyl_r(g, pos)), fdiv(fsub(fmul(x, vel[1]), fmul(y, vel[0])), fadd(fmul(x, x), fmul(y, y))), vel[2]] }
}
%end
%contract vg_new
@ret r
@requires
    grid.wf(),
@ensures
    r.wf(), forall|i: int| 0 <= i < 3 ==> #[trigger] r.gvs(i) == grid.gv(),
%contract vg_velocity_calculation
@ret r
@requires
    self.wf(), vel@.len() == 3,
@ensures
    r@ =~= grid_velocity(self.gvs(0).g, pos, vel@),
%contract vg_divide_by_weight
@requires
    old(self).wf(), 
@ensures
    final(self).wf(), forall|i: int| 0 <= i < 3 ==> #[trigger] final(self).gvs(i) == gv_data(old(self).gvs(i), m3_div(old(self).gvs(i).data, old(self).gvs(i).weight)),
