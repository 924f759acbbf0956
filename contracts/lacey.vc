%import data.vc
%raw
// C22: the particles of one of the two types
pub open spec fn is_a(sel: ParticleSelector, a: usize) -> spec_fn(Timestep, int) -> bool { |t: Timestep, p: int| picked(sel, t, p) && !nanpos(t.position@[p]) && ftou(t.ptype@[p]) == a }
pub open spec fn is_b(sel: ParticleSelector, a: usize, b: usize) -> spec_fn(Timestep, int) -> bool { |t: Timestep, p: int| picked(sel, t, p) && !nanpos(t.position@[p]) && ftou(t.ptype@[p]) == b && ftou(t.ptype@[p]) != a }
// how many selected particles have a type
pub open spec fn of_type(sel: ParticleSelector, t: Timestep, ty: int, n: int) -> int decreases n { if n <= 0 { 0 } else { of_type(sel, t, ty, n - 1) + if picked(sel, t, n - 1) && ftou(t.ptype@[n - 1]) == ty { 1int } else { 0 } } }
pub proof fn lemma_of_type(sel: ParticleSelector, t: Timestep, ty: int, n: int) ensures 0 <= of_type(sel, t, ty, n), n >= 0 ==> of_type(sel, t, ty, n) <= n, decreases n { if n > 0 { lemma_of_type(sel, t, ty, n - 1); } }
pub open spec fn share_all(sel: ParticleSelector, t: Timestep, a: usize, b: usize) -> F { let n = t.position@.len() as int; fdiv(fl(of_type(sel, t, a as int, n), 1), fl(of_type(sel, t, a as int, n) + of_type(sel, t, b as int, n), 1)) }
pub open spec fn in_cell(g: Geo, c: I3, t: Timestep, q: spec_fn(Timestep, int) -> bool) -> F { cell_sum_p(fl(0, 1), g, c, t, q, one(), t.position@.len() as int) }
pub open spec fn share(g: Geo, c: I3, sel: ParticleSelector, t: Timestep, a: usize, b: usize) -> F { fdiv(in_cell(g, c, t, is_a(sel, a)), fadd(in_cell(g, c, t, is_b(sel, a, b)), in_cell(g, c, t, is_a(sel, a)))) }
pub open spec fn enough(g: Geo, c: I3, sel: ParticleSelector, t: Timestep, a: usize, b: usize, th: usize) -> bool { !flt(fadd(in_cell(g, c, t, is_a(sel, a)), in_cell(g, c, t, is_b(sel, a, b))), fl(th as int, 1)) }
// the squared deviations of the shares of the first n cells
pub open spec fn deviation(g: Geo, sel: ParticleSelector, t: Timestep, a: usize, b: usize, th: usize, n: int) -> F decreases n {
    if n <= 0 { fl(0, 1) } else { let c = unflat3(g.cells, n - 1); let r = deviation(g, sel, t, a, b, th, n - 1);
        if enough(g, c, sel, t, a, b, th) && !fnan(share(g, c, sel, t, a, b)) { fadd(r, fpowi(fsub(share(g, c, sel, t, a, b), share_all(sel, t, a, b)), 2)) } else { r } }
}
pub open spec fn lacey(g: Geo, sel: ParticleSelector, t: Timestep, a: usize, b: usize, th: usize) -> F {
    let cells = size3(g.cells); let m = share_all(sel, t, a, b);
    let s2 = fdiv(deviation(g, sel, t, a, b, th, cells), fsub(fl(cells, 1), fl(1, 1)));
    let s0 = fsqrt(fmul(m, fsub(fl(1, 1), m))); let sr = fsqrt(fdiv(fmul(m, fsub(fl(1, 1), m)), fl(cells, 1)));
    fdiv(fsub(fpowi(s0, 2), s2), fsub(fpowi(s0, 2), fpowi(sr, 2)))
}
pub open spec fn types_ok(d: Ds) -> bool { forall|k: int, p: int| 0 <= k < d.len() && 0 <= p < d[k].ptype@.len() ==> ftou(#[trigger] (#[trigger] d[k]).ptype@[p]) < usize::MAX - 2 }
pub open spec fn counts_in(v: Seq<usize>, i: int) -> int { if 0 <= i < v.len() { v[i] as int } else { 0 } }
%end
%fn src/functions/mixing.rs Mixing::lacey_mixing
@self Dm
@ret r
@attr #[verifier::loop_isolation(false)]
@requires
    old(self).wf(), grid.wf(), selector.wf(), types_ok(old(self).ds()), type_a < usize::MAX, type_b < usize::MAX,
@ensures
    r.0@.len() == old(self).ds().len() - 1, r.1@.len() == old(self).ds().len() - 1,
    forall|k: int| 0 <= k < old(self).ds().len() - 1 ==> #[trigger] r.0@[k] == (if selector.accepts_time(old(self).ds()[k].time) { old(self).ds()[k].time } else { fl(0, 1) }),
    forall|k: int| 0 <= k < old(self).ds().len() - 1 ==> #[trigger] r.1@[k] == (if selector.accepts_time(old(self).ds()[k].time) { lacey(grid.gv().g, *selector, old(self).ds()[k], type_a, type_b, threshhold) } else { fl(0, 1) }),
@entry
    let ghost v0 = grid.gv(); let ghost g = v0.g; let ghost d = self.ds(); let ghost sel = *selector; let ghost (a, b) = (type_a, type_b);
@loop 0
    invariant __i0 <= __n0, *self == *old(self), time@.len() == d.len() - 1, mixing@.len() == d.len() - 1,
        forall|k: int| 0 <= k < d.len() - 1 ==> #[trigger] time@[k] == (if k < __i0 && sel.accepts_time(d[k].time) { d[k].time } else { fl(0, 1) }),
        forall|k: int| 0 <= k < d.len() - 1 ==> #[trigger] mixing@[k] == (if k < __i0 && sel.accepts_time(d[k].time) { lacey(g, sel, d[k], a, b, threshhold) } else { fl(0, 1) }),
    decreases __n0 - __i0
@loop 1
    invariant __i1 <= __n1, type_a_grid.wf(), type_b_grid.wf(), type_a_grid.gv().g == g, type_b_grid.gv().g == g, type_counter@.len() > a, type_counter@.len() > b,
        type_a_grid.gv() == over_p(gv_zero(v0), d[__i0 - 1], add_if(is_a(sel, a), one()), __i1 as int),
        type_b_grid.gv() == over_p(gv_zero(v0), d[__i0 - 1], add_if(is_b(sel, a, b), one()), __i1 as int),
        forall|i: int| #![trigger counts_in(type_counter@, i)] #![trigger of_type(sel, d[__i0 - 1], i, __i1 as int)] i >= 0 ==> counts_in(type_counter@, i) == of_type(sel, d[__i0 - 1], i, __i1 as int),
    decreases __n1 - __i1
@body 1
    proof { lemma_of_type(sel, d[__i0 - 1], ftou(d[__i0 - 1].ptype@[__i1 - 1]) as int, __i1 - 1); assert(ts_wf(d[__i0 - 1])); }
    let ghost tc = type_counter@; let ghost td = d[__i0 - 1]; let ghost ty = ftou(td.ptype@[__i1 - 1]) as int; let ghost yes = picked(sel, td, __i1 - 1);
@before position
    proof { assert(type_counter@.len() > ty && type_counter@.len() >= tc.len());
        assert(type_counter@[ty] == counts_in(tc, ty) + 1);
        assert forall|i: int| i >= 0 && i != ty implies counts_in(type_counter@, i) == counts_in(tc, i) by {}
        assert forall|i: int| i >= 0 implies counts_in(type_counter@, i) == #[trigger] of_type(sel, td, i, __i1 as int) by { assert(of_type(sel, td, i, __i1 - 1) == counts_in(tc, i)); } }
@post 1
    proof { let t = d[__i0 - 1]; let (xa, xb) = (type_a_grid.gv(), type_b_grid.gv()); lemma_of_type(sel, t, a as int, __n1 as int); lemma_of_type(sel, t, b as int, __n1 as int); assert(counts_in(type_counter@, a as int) == type_counter@[a as int]); assert(counts_in(type_counter@, b as int) == type_counter@[b as int]);
        assert forall|c: I3| #[trigger] in3(g.cells, c) implies xa.data.dom().contains(c) && xb.data.dom().contains(c) && xa.weight.dom().contains(c) && xb.weight.dom().contains(c)
            && xa.data[c] == in_cell(g, c, t, is_a(sel, a)) && xa.weight[c] == xa.data[c] && xb.data[c] == in_cell(g, c, t, is_b(sel, a, b)) && xb.weight[c] == xb.data[c] by {
        lemma_sums_p(gv_zero(v0), fl(0, 1), fl(0, 1), c, t, is_a(sel, a), one(), __n1 as int); lemma_sums_p(gv_zero(v0), fl(0, 1), fl(0, 1), c, t, is_b(sel, a, b), one(), __n1 as int); } }
@loop 2
    invariant __i2 <= __n2, mixing_value == deviation(g, sel, d[__i0 - 1], a, b, threshhold, __i2 as int), mean_concentration == share_all(sel, d[__i0 - 1], a, b),
    decreases __n2 - __i2
@body 2
    proof { lemma_unflat3(g.cells, __i2 - 1); assert(in3(g.cells, unflat3(g.cells, __i2 - 1))); }
