%raw
pub enum Dim { OneD(OneD), TwoD(TwoD), ThreeD(ThreeD) }
impl CylindricalGrid3D {
    pub open spec fn gv(&self) -> GV { GV { g: self.geo(), data: self.data@, weight: self.weight@ } }
    pub open spec fn geo(&self) -> Geo {
        Geo { cyl: true, cells: cid(self.cells), lim: self.limits, xp: self.rmeanpositions@, yp: self.opositions@, zp: self.zpositions@, rp: self.rpositions@, center: self.center, radius: self.radius }
    }
    pub open spec fn wf(&self) -> bool { geo_wf(self.geo()) && self.data.dimv() == cid(self.cells) && self.weight.dimv() == cid(self.cells) }
}
impl IntoBox for CylindricalGrid3D { open spec fn bgv(&self) -> GV { self.gv() } #[verifier::external_body] fn into_box(self) -> (r: GridBox) { unimplemented!() } }
// C03: middle angle of sector i of n over the full circle from -pi; middle height of layer i of n
pub open spec fn owidth(n: int) -> F { fdiv(fmul(fl(2, 1), F_PI()), fl(n, 1)) }
pub open spec fn ocentre(i: int, n: int) -> F { fadd(fadd(fneg(F_PI()), fmul(fl(i, 1), owidth(n))), fdiv(owidth(n), fl(2, 1))) }
pub open spec fn zwidth(n: int, l: [F; 2]) -> F { fdiv(fsub(l[1], l[0]), fl(n, 1)) }
pub open spec fn zcentre(i: int, n: int, l: [F; 2]) -> F { fadd(fadd(fmul(fl(i, 1), zwidth(n, l)), fdiv(zwidth(n, l), fl(2, 1))), l[0]) }
pub open spec fn fmax2(a: F, b: F) -> F { if flt(b, a) { a } else { b } }
pub open spec fn mid(l: [F; 2]) -> F { fdiv(fadd(l[0], l[1]), fl(2, 1)) }
pub open spec fn half_extent(l: [F; 2]) -> F { fmax2(fabs(fsub(l[1], mid(l))), fabs(fsub(l[0], mid(l)))) }
pub open spec fn box_radius(l: ThreeD) -> F { fmax2(half_extent(l[0]), half_extent(l[1])) }
pub open spec fn shell_found(x: Option<usize>, k: int, n: int) -> bool { match x { Some(i) => i == k && i < n, None => k == -1 } }
// the outer radius of shell i: one n-th of the volume more than its inner radius encloses
pub open spec fn shell_edge(rad: F, n: int, i: int) -> F decreases i {
    if i <= 0 { fl(0, 1) } else { fsqrt(fadd(fdiv(fmul(rad, rad), fl(n, 1)), fmul(shell_edge(rad, n, i - 1), shell_edge(rad, n, i - 1)))) }
}
%end
%struct src/grid/cylindrical_grid.rs CylindricalGrid3D getters own
