%import data.vc
%raw
// C23: the particles of one of the two types
pub open spec fn is_a(sel: ParticleSelector, a: usize) -> spec_fn(Timestep, int) -> bool { |t: Timestep, p: int| picked(sel, t, p) && !nanpos(t.position@[p]) && ftou(t.ptype@[p]) == a }
pub open spec fn is_b(sel: ParticleSelector, a: usize, b: usize) -> spec_fn(Timestep, int) -> bool { |t: Timestep, p: int| picked(sel, t, p) && !nanpos(t.position@[p]) && ftou(t.ptype@[p]) == b && ftou(t.ptype@[p]) != a }
pub open spec fn holds_shares(x: GV, g: Geo, d: Ds, sel: ParticleSelector, qa: spec_fn(Timestep, int) -> bool, qb: spec_fn(Timestep, int) -> bool, n: int) -> bool {
    x.g == g && forall|c: I3| #[trigger] in3(g.cells, c) ==>
        x.weight[c] == fadd(cell_count(g, c, d, sel, qa, n), cell_count(g, c, d, sel, qb, n)) && x.data[c] == fdiv(cell_count(g, c, d, sel, qa, n), x.weight[c])
        && (nobody(g, c, d, sel, qa, n) && nobody(g, c, d, sel, qb, n) ==> fnan(x.data[c]))
}
pub axiom fn ax_zero_and_zero() ensures fadd(fl(0, 1), fl(0, 1)) == fl(0, 1);
pub proof fn lemma_shares(x: GV, a: GV, b: GV, g: Geo, d: Ds, sel: ParticleSelector, qa: spec_fn(Timestep, int) -> bool, qb: spec_fn(Timestep, int) -> bool, n: int)
    requires holds_sums(a, g, d, sel, qa, one(), n), holds_sums(b, g, d, sel, qb, one(), n), x.g == g, x.data == m3_div(a.data, m3_add(a.data, b.data)), x.weight == m3_add(a.weight, b.weight),
    ensures holds_shares(x, g, d, sel, qa, qb, n)
{
    ax_zero_by_zero(); ax_zero_and_zero();
    assert forall|c: I3| #[trigger] in3(g.cells, c) implies x.weight[c] == fadd(cell_count(g, c, d, sel, qa, n), cell_count(g, c, d, sel, qb, n)) && x.data[c] == fdiv(cell_count(g, c, d, sel, qa, n), x.weight[c])
        && (nobody(g, c, d, sel, qa, n) && nobody(g, c, d, sel, qb, n) ==> fnan(x.data[c])) by {
        assert(a.data.dom().contains(c));
        if nobody(g, c, d, sel, qa, n) && nobody(g, c, d, sel, qb, n) { lemma_nobody(g, c, d, sel, qa, one(), n); lemma_nobody(g, c, d, sel, qb, one(), n); }
    }
}
%end
%fn src/functions/mixing.rs Mixing::concentration_field
@self Dm
@ret r
@attr #[verifier::loop_isolation(false)]
@requires
    old(self).wf(), grid.wf(), selector.wf(),
@ensures
    r.wf(), holds_shares(r.gv(), grid.gv().g, old(self).ds(), *selector, is_a(*selector, type_a), is_b(*selector, type_a, type_b), old(self).ds().len() as int),
@entry
    let ghost g0 = grid.gv();
@loop 0
    invariant __i0 <= __n0, *self == *old(self), type_a_grid.wf(), type_b_grid.wf(), type_a_grid.gv().g == g0.g, type_b_grid.gv().g == g0.g,
        type_a_grid.gv() == over_t(gv_zero(g0), self.ds(), *selector, add_if(is_a(*selector, type_a), one()), __i0 as int),
        type_b_grid.gv() == over_t(gv_zero(g0), self.ds(), *selector, add_if(is_b(*selector, type_a, type_b), one()), __i0 as int),
    decreases __n0 - __i0
@loop 1
    invariant __i1 <= __n1, type_a_grid.wf(), type_b_grid.wf(), type_a_grid.gv().g == g0.g, type_b_grid.gv().g == g0.g,
        type_a_grid.gv() == over_p(over_t(gv_zero(g0), self.ds(), *selector, add_if(is_a(*selector, type_a), one()), __i0 - 1), self.ds()[__i0 - 1], add_if(is_a(*selector, type_a), one()), __i1 as int),
        type_b_grid.gv() == over_p(over_t(gv_zero(g0), self.ds(), *selector, add_if(is_b(*selector, type_a, type_b), one()), __i0 - 1), self.ds()[__i0 - 1], add_if(is_b(*selector, type_a, type_b), one()), __i1 as int),
    decreases __n1 - __i1
@exit
    proof { let n = old(self).ds().len() as int; let d = old(self).ds();
        lemma_all_sums(g0, d, *selector, is_a(*selector, type_a), one(), n);
        lemma_all_sums(g0, d, *selector, is_b(*selector, type_a, type_b), one(), n);
        lemma_shares(__res.gv(), over_t(gv_zero(g0), d, *selector, add_if(is_a(*selector, type_a), one()), n), over_t(gv_zero(g0), d, *selector, add_if(is_b(*selector, type_a, type_b), one()), n),
            g0.g, d, *selector, is_a(*selector, type_a), is_b(*selector, type_a, type_b), n); }
