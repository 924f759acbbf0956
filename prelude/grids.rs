verus! {
// ---------------------------------------------------------------- mathematical value of a grid
pub struct Geo { pub cyl: bool, pub cells: I3, pub lim: [[F; 2]; 3], pub xp: Seq<F>, pub yp: Seq<F>, pub zp: Seq<F>, pub rp: Seq<[F; 2]>, pub center: [F; 3], pub radius: F }
pub struct GV { pub g: Geo, pub data: M3, pub weight: M3 }

pub open spec fn dim_ok(n: int) -> bool { 1 <= n < isize::MAX }
pub open spec fn geo_wf(g: Geo) -> bool {
    dim_ok(g.cells.0) && dim_ok(g.cells.1) && dim_ok(g.cells.2)
    && g.yp.len() == g.cells.1 && g.zp.len() == g.cells.2
    && (g.cyl ==> g.rp.len() == g.cells.0
        && (forall|i: int| 0 <= i < g.yp.len() ==> ffin(#[trigger] g.yp[i]))
        && (forall|i: int| 0 <= i < g.zp.len() ==> ffin(#[trigger] g.zp[i]))
        && ffin(g.lim[1][0]) && ffin(g.lim[1][1]) && ffin(g.lim[2][0]) && ffin(g.lim[2][1]))
}
// IEEE 754: a number between two finite numbers is finite; the difference of finite numbers and an absolute value of a number are numbers
pub broadcast axiom fn ax_between_fin(a: F, x: F, b: F) ensures #[trigger] fle(a, x) && #[trigger] fle(x, b) && ffin(a) && ffin(b) ==> ffin(x);
pub broadcast axiom fn ax_sub_fin(a: F, b: F) ensures ffin(a) && ffin(b) ==> !fnan(#[trigger] fsub(a, b));
pub broadcast axiom fn ax_abs_num(a: F) ensures fnan(#[trigger] fabs(a)) == fnan(a);

// ---- positions and cells
pub open spec fn umin(a: usize, b: int) -> int { if a as int <= b { a as int } else { b } }
// the integer part of (x - lo) / (hi - lo) * n, at the upper limit the last cell
pub open spec fn cart_raw(x: F, lo: F, hi: F, n: int) -> usize { ftou(fmul(fdiv(fsub(x, lo), fsub(hi, lo)), fl(n, 1))) }
pub open spec fn cart_idx(x: F, lim: [F; 2], n: int) -> int { umin(cart_raw(x, lim[0], lim[1], n), n - 1) }
pub open spec fn within(x: F, lim: [F; 2]) -> bool { fle(lim[0], x) && fle(x, lim[1]) }
pub open spec fn cyl_r(g: Geo, p: Position) -> F { fsqrt(fadd(fmul(fsub(p[0], g.center[0]), fsub(p[0], g.center[0])), fmul(fsub(p[1], g.center[1]), fsub(p[1], g.center[1])))) }
pub open spec fn cyl_o(g: Geo, p: Position) -> F { fatan2(fsub(p[1], g.center[1]), fsub(p[0], g.center[0])) }
pub open spec fn inside(g: Geo, p: Position) -> bool {
    if g.cyl { fle(cyl_r(g, p), g.radius) && within(cyl_o(g, p), g.lim[1]) && within(p[2], g.lim[2]) }
    else { within(p[0], g.lim[0]) && within(p[1], g.lim[1]) && within(p[2], g.lim[2]) }
}
// the last of the first n shells whose closed interval holds r, or -1
pub open spec fn last_shell(rp: Seq<[F; 2]>, r: F, n: int) -> int decreases n {
    if n <= 0 { -1 } else if within(r, rp[n - 1]) { n - 1 } else { last_shell(rp, r, n - 1) }
}
pub open spec fn shell_of(g: Geo, r: F) -> int { let k = last_shell(g.rp, r, g.rp.len() as int); if k < 0 { g.cells.0 - 1 } else { k } }
pub open spec fn dist_to(s: Seq<F>, x: F) -> Seq<F> { Seq::new(s.len(), |i: int| fabs(fsub(s[i], x))) }
pub open spec fn nearest(s: Seq<F>, x: F) -> int { choose|k: int| is_argmin(dist_to(s, x), k) }
pub open spec fn cell(g: Geo, p: Position) -> I3 {
    if g.cyl { (shell_of(g, cyl_r(g, p)), nearest(g.yp, cyl_o(g, p)), nearest(g.zp, p[2])) }
    else { (cart_idx(p[0], g.lim[0], g.cells.0), cart_idx(p[1], g.lim[1], g.cells.1), cart_idx(p[2], g.lim[2], g.cells.2)) }
}
pub proof fn lemma_argmin_unique(s: Seq<F>, a: int, b: int) requires is_argmin(s, a), is_argmin(s, b) ensures a == b {
    if a < b { assert(flt(s[b], s[a])); } else if b < a { assert(flt(s[a], s[b])); }
}
pub proof fn lemma_shell(rp: Seq<[F; 2]>, r: F, n: int) requires 0 <= n ensures -1 <= last_shell(rp, r, n) < n || n == 0 && last_shell(rp, r, n) == -1, last_shell(rp, r, n) >= 0 ==> within(r, rp[last_shell(rp, r, n)]), forall|i: int| last_shell(rp, r, n) < i < n ==> !within(r, #[trigger] rp[i]) decreases n {
    if n > 0 && !within(r, rp[n - 1]) { lemma_shell(rp, r, n - 1); }
    assert forall|i: int| last_shell(rp, r, n) < i < n implies !within(r, #[trigger] rp[i]) by {}
}

// ---- adding, inserting, dividing
pub open spec fn gv_add_part(v: GV, c: I3, x: F, w: F) -> GV { GV { g: v.g, data: v.data.insert(c, fadd(v.data[c], x)), weight: v.weight.insert(c, fadd(v.weight[c], w)) } }
pub open spec fn gv_add_cell(v: GV, c: I3, x: F) -> GV { gv_add_part(v, c, x, fl(1, 1)) }
pub open spec fn gv_add(v: GV, p: Position, x: F) -> GV { if inside(v.g, p) { gv_add_cell(v, cell(v.g, p), x) } else { v } }
pub open spec fn gv_insert(v: GV, p: Position, x: F) -> GV { if inside(v.g, p) { GV { g: v.g, data: v.data.insert(cell(v.g, p), x), weight: v.weight } } else { v } }
pub open spec fn half() -> F { fl(1, 2) }
pub open spec fn gv_traj(v: GV, p1: Position, p2: Position, x: F) -> GV {
    if v.g.cyl { gv_add(v, p1, x) }
    else if inside(v.g, p1) && inside(v.g, p2) { gv_add_part(gv_add_part(v, cell(v.g, p1), fmul(x, half()), half()), cell(v.g, p2), fmul(x, half()), half()) }
    else { v }
}
pub open spec fn gv_data(v: GV, d: M3) -> GV { GV { g: v.g, data: d, weight: v.weight } }
pub open spec fn gv_weight(v: GV, w: M3) -> GV { GV { g: v.g, data: v.data, weight: w } }
pub open spec fn zeros3(d: I3) -> M3 { const3(d, fl(0, 1)) }
pub open spec fn gv_zero(v: GV) -> GV { GV { g: v.g, data: zeros3(v.g.cells), weight: zeros3(v.g.cells) } }

// ---- collapsing
pub open spec fn nan0(x: F) -> F { if fnan(x) { fl(0, 1) } else { x } }
pub open spec fn cw(v: GV, k: I3) -> F { if v.g.cyl { nan0(v.weight[k]) } else { v.weight[k] } }
// sum over the first n layers along axis ax of data * weight, missing data counting as zero
pub open spec fn col_sum(v: GV, ax: int, k: I2, n: int) -> F decreases n {
    if n <= 0 { fl(0, 1) } else { fadd(col_sum(v, ax, k, n - 1), fmul(nan0(v.data[ix3(ax, n - 1, k)]), cw(v, ix3(ax, n - 1, k)))) }
}
pub open spec fn col_cw(v: GV, ax: int, k: I2, n: int) -> F decreases n {
    if n <= 0 { fl(0, 1) } else { fadd(col_cw(v, ax, k, n - 1), cw(v, ix3(ax, n - 1, k))) }
}
pub open spec fn col_w(w: M3, ax: int, k: I2, n: int) -> F decreases n {
    if n <= 0 { fl(0, 1) } else { fadd(col_w(w, ax, k, n - 1), w[ix3(ax, n - 1, k)]) }
}
pub open spec fn gv_collapse(v: GV, ax: int) -> M2 {
    IMap::new(|k: I2| in2(dim_rest(v.g.cells, ax), k), |k: I2| fdiv(col_sum(v, ax, k, dim_ax(v.g.cells, ax)), col_cw(v, ax, k, dim_ax(v.g.cells, ax))))
}
pub open spec fn gv_collapse_w(v: GV, ax: int) -> M2 {
    IMap::new(|k: I2| in2(dim_rest(v.g.cells, ax), k), |k: I2| col_w(v.weight, ax, k, dim_ax(v.g.cells, ax)))
}
pub open spec fn ix2(ax: int, a: int, j: int) -> I2 { if ax == 0 { (a, j) } else { (j, a) } }
pub open spec fn dim_ax2(d: I2, ax: int) -> int { if ax == 0 { d.0 } else { d.1 } }
pub open spec fn dim_rest2(d: I2, ax: int) -> int { if ax == 0 { d.1 } else { d.0 } }
pub open spec fn col2_sum(c: M2, w: M2, ax: int, j: int, n: int) -> F decreases n {
    if n <= 0 { fl(0, 1) } else { fadd(col2_sum(c, w, ax, j, n - 1), fmul(nan0(c[ix2(ax, n - 1, j)]), w[ix2(ax, n - 1, j)])) }
}
pub open spec fn col2_w(w: M2, ax: int, j: int, n: int) -> F decreases n {
    if n <= 0 { fl(0, 1) } else { fadd(col2_w(w, ax, j, n - 1), w[ix2(ax, n - 1, j)]) }
}
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a <= b { b } else { a } }
// the smaller of the two axes goes first; the other one is then one smaller
pub open spec fn gv_collapse2(v: GV, a: int, b: int) -> Seq<F> {
    let lo = imin(a, b); let ax = imax(a, b) - 1; let d = dim_rest(v.g.cells, lo);
    Seq::new(dim_rest2(d, ax) as nat, |j: int| fdiv(col2_sum(gv_collapse(v, lo), gv_collapse_w(v, lo), ax, j, dim_ax2(d, ax)), col2_w(gv_collapse_w(v, lo), ax, j, dim_ax2(d, ax))))
}
pub open spec fn gv_collapse2_w(v: GV, a: int, b: int) -> Seq<F> {
    let lo = imin(a, b); let ax = imax(a, b) - 1; let d = dim_rest(v.g.cells, lo);
    Seq::new(dim_rest2(d, ax) as nat, |j: int| col2_w(gv_collapse_w(v, lo), ax, j, dim_ax2(d, ax)))
}

// ---- slices
pub open spec fn slice_at(g: Geo, ax: int, x: F) -> int {
    let raw = cart_raw(x, g.lim[ax][0], g.lim[ax][1], dim_ax(g.cells, ax));
    let i = if g.cyl && ax == 0 && last_shell(g.rp, x, g.rp.len() as int) >= 0 { last_shell(g.rp, x, g.rp.len() as int) } else { raw as int };
    if i <= dim_ax(g.cells, ax) - 1 { i } else { dim_ax(g.cells, ax) - 1 }
}

// ---- outlier removal: the 26 neighbours in row order
pub open spec fn nb(k: I3, j: int) -> I3 { let q = if j < 13 { j } else { j + 1 }; (k.0 + q / 9 - 1, k.1 + (q / 3) % 3 - 1, k.2 + q % 3 - 1) }
pub open spec fn nb_counts(v: GV, t: F, k: I3, j: int) -> bool { in3(v.g.cells, nb(k, j)) && (v.g.cyl || !flt(t, v.data[nb(k, j)])) }
pub open spec fn nb_sum(v: GV, m: M3, t: F, k: I3, n: int) -> F decreases n {
    if n <= 0 { fl(0, 1) } else if nb_counts(v, t, k, n - 1) { fadd(nb_sum(v, m, t, k, n - 1), m[nb(k, n - 1)]) } else { nb_sum(v, m, t, k, n - 1) }
}
pub open spec fn nb_num(v: GV, t: F, k: I3, n: int) -> F decreases n {
    if n <= 0 { fl(0, 1) } else if nb_counts(v, t, k, n - 1) { fadd(nb_num(v, t, k, n - 1), fl(1, 1)) } else { nb_num(v, t, k, n - 1) }
}
pub open spec fn out_data(v: GV, t: F, k: I3) -> F { if flt(t, v.data[k]) { fdiv(nb_sum(v, v.data, t, k, 26), nb_num(v, t, k, 26)) } else { v.data[k] } }
pub open spec fn out_weight(v: GV, t: F, k: I3) -> F { if flt(t, v.data[k]) { fdiv(nb_sum(v, v.weight, t, k, 26), nb_num(v, t, k, 26)) } else { v.weight[k] } }
pub open spec fn gv_outlier(v: GV, t: F, mode: int) -> GV {
    let dom = |k: I3| in3(v.g.cells, k);
    if mode == 0 { gv_data(v, IMap::new(dom, |k: I3| if flt(t, v.data[k]) { fl(0, 1) } else { v.data[k] })) }
    else if mode == 1 { gv_data(v, IMap::new(dom, |k: I3| if flt(t, v.data[k]) { t } else { v.data[k] })) }
    else { GV { g: v.g, data: IMap::new(dom, |k: I3| out_data(v, t, k)), weight: IMap::new(dom, |k: I3| out_weight(v, t, k)) } }
}

// ---- Box<dyn GridFunctions3D>: a Cartesian or a cylindrical grid
#[verifier::external_body]
pub struct GridBox { p: u8 }
impl GridBox {
    pub uninterp spec fn gv(&self) -> GV;
    pub open spec fn wf(&self) -> bool { geo_wf(self.gv().g) }
    #[verifier::external_body]
    pub fn own(&self) -> (r: GridBox) ensures r == *self { unimplemented!() }
}
pub trait IntoBox: Sized { spec fn bgv(&self) -> GV; fn into_box(self) -> (r: GridBox) ensures r.gv() == self.bgv(); }
pub open spec fn index_ok(i: usize, n: int) -> bool { i < n }
} // verus!

verus! {
// ---- row order of a 3D array
pub proof fn lemma_unflat3(d: I3, i: int) requires d.0 >= 0, d.1 >= 0, d.2 >= 0, 0 <= i < size3(d) ensures in3(d, unflat3(d, i)), flat3(d, unflat3(d, i)) == i {
    assert(d.1 * d.2 > 0 && d.2 > 0 && d.1 > 0) by (nonlinear_arith) requires d.0 >= 0, d.1 >= 0, d.2 >= 0, 0 <= i < d.0 * d.1 * d.2 {}
    let (a, b) = (d.1, d.2);
    vstd::arithmetic::div_mod::lemma_div_denominator(i, b, a); assert(a * b == b * a) by (nonlinear_arith);
    assert(0 <= i / (a * b) < d.0) by (nonlinear_arith) requires 0 <= i < d.0 * a * b, a > 0, b > 0, a * b > 0 {}
    let q = i / b;
    assert(i == q * b + i % b) by (nonlinear_arith) requires b > 0, q == i / b {}
    assert(q == (q / a) * a + q % a) by (nonlinear_arith) requires a > 0 {}
}
pub proof fn lemma_flat3(d: I3, k: I3) requires in3(d, k) ensures 0 <= flat3(d, k) < size3(d), unflat3(d, flat3(d, k)) == k {
    let (a, b) = (d.1, d.2);
    let q = k.0 * a + k.1;
    let i = q * b + k.2;
    assert(0 <= q < d.0 * a) by (nonlinear_arith) requires 0 <= k.0 < d.0, 0 <= k.1 < a, q == k.0 * a + k.1 {}
    assert(0 <= i < d.0 * a * b) by (nonlinear_arith) requires 0 <= q < d.0 * a, 0 <= k.2 < b, i == q * b + k.2 {}
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, b, q, k.2);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(q, a, k.0, k.1);
    vstd::arithmetic::div_mod::lemma_div_denominator(i, b, a); assert(a * b == b * a) by (nonlinear_arith);
}
// one coordinate of a neighbour as the code computes it: idx, idx + 1 or idx.wrapping_sub(1)
pub open spec fn wr(k: int) -> int { if k < 0 { usize::MAX as int } else { k } }
pub open spec fn nb_ix(x: (usize, usize, usize), k: I3, j: int) -> bool { (x.0 as int, x.1 as int, x.2 as int) == (wr(nb(k, j).0), wr(nb(k, j).1), wr(nb(k, j).2)) }
pub proof fn lemma_nb_ix(t: [(usize, usize, usize); 26], k: I3, j: int)
    requires 0 <= j < 26,
        nb_ix(t[0], k, 0), nb_ix(t[1], k, 1), nb_ix(t[2], k, 2), nb_ix(t[3], k, 3), nb_ix(t[4], k, 4), nb_ix(t[5], k, 5), nb_ix(t[6], k, 6), nb_ix(t[7], k, 7), nb_ix(t[8], k, 8),
        nb_ix(t[9], k, 9), nb_ix(t[10], k, 10), nb_ix(t[11], k, 11), nb_ix(t[12], k, 12), nb_ix(t[13], k, 13), nb_ix(t[14], k, 14), nb_ix(t[15], k, 15), nb_ix(t[16], k, 16), nb_ix(t[17], k, 17),
        nb_ix(t[18], k, 18), nb_ix(t[19], k, 19), nb_ix(t[20], k, 20), nb_ix(t[21], k, 21), nb_ix(t[22], k, 22), nb_ix(t[23], k, 23), nb_ix(t[24], k, 24), nb_ix(t[25], k, 25),
    ensures nb_ix(t@[j], k, j) {}
} // verus!
