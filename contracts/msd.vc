%import later.vc
%raw
// C24: the squared distance between where a particle is and where it is later
pub open spec fn sq_dist(a: Position, b: Position) -> F { fadd(fadd(fpowi(fsub(a[0], b[0]), 2), fpowi(fsub(a[1], b[1]), 2)), fpowi(fsub(a[2], b[2]), 2)) }
pub open spec fn msd_q(g: Geo, s: GlobalStats, sel: ParticleSelector, dt: F) -> spec_fn(Timestep, int) -> bool { |t: Timestep, p: int| has_later(s, t, dt) && picked(sel, t, p) && inside(g, t.position@[p]) }
pub open spec fn msd_v(s: GlobalStats, d: Ds, dt: F) -> spec_fn(Timestep, int) -> F { |t: Timestep, p: int| sq_dist(t.position@[p], later(s, d, t, dt).position@[p]) }
pub open spec fn mean_or_0(s: F, w: F) -> F { if flt(fl(0, 1), w) { fdiv(s, w) } else { fl(0, 1) } }
pub open spec fn holds_means_or_0(x: GV, g: Geo, d: Ds, sel: ParticleSelector, q: spec_fn(Timestep, int) -> bool, v: spec_fn(Timestep, int) -> F, n: int) -> bool {
    x.g == g && forall|c: I3| #[trigger] in3(g.cells, c) ==> x.data.dom().contains(c) && x.weight.dom().contains(c) && x.weight[c] == cell_count(g, c, d, sel, q, n) && x.data[c] == mean_or_0(cell_sum(g, c, d, sel, q, v, n), x.weight[c])
        && (nobody(g, c, d, sel, q, n) ==> x.data[c] == fl(0, 1) && x.weight[c] == fl(0, 1))
}
pub open spec fn holds_msd(x: GV, g: Geo, d: Ds, s: GlobalStats, sel: ParticleSelector, dt: F) -> bool { holds_means_or_0(x, g, d, sel, msd_q(g, s, sel, dt), msd_v(s, d, dt), d.len() - 1) }
pub proof fn lemma_means_or_0(x: GV, y: GV, g: Geo, d: Ds, sel: ParticleSelector, q: spec_fn(Timestep, int) -> bool, v: spec_fn(Timestep, int) -> F, n: int)
    requires holds_sums(x, g, d, sel, q, v, n), y.g == g, y.weight == x.weight, forall|c: I3| #[trigger] in3(g.cells, c) ==> y.data.dom().contains(c) && y.data[c] == mean_or_0(x.data[c], x.weight[c]),
    ensures holds_means_or_0(y, g, d, sel, q, v, n)
{
    assert forall|c: I3| #[trigger] in3(g.cells, c) implies y.weight.dom().contains(c) && y.weight[c] == cell_count(g, c, d, sel, q, n) && y.data[c] == mean_or_0(cell_sum(g, c, d, sel, q, v, n), y.weight[c])
        && (nobody(g, c, d, sel, q, n) ==> y.data[c] == fl(0, 1) && y.weight[c] == fl(0, 1)) by {
        assert(x.data.dom().contains(c));
        if nobody(g, c, d, sel, q, n) { lemma_nobody(g, c, d, sel, q, v, n); lemma_nobody(g, c, d, sel, q, one(), n); }
    }
}
// the weighted mean over all cells, in the order of the cells
pub open spec fn cells_wsum(x: GV, n: int) -> F decreases n { if n <= 0 { fl(0, 1) } else { let c = unflat3(x.g.cells, n - 1); fadd(cells_wsum(x, n - 1), fmul(x.data[c], x.weight[c])) } }
pub open spec fn cells_weight(x: GV, n: int) -> F decreases n { if n <= 0 { fl(0, 1) } else { let c = unflat3(x.g.cells, n - 1); fadd(cells_weight(x, n - 1), x.weight[c]) } }
pub proof fn lemma_wsum(x: GV, s: Seq<F>, n: int)
    requires 0 <= n < s.len(), s[0] == fl(0, 1), forall|i: int| 0 <= i < n ==> #[trigger] s[i + 1] == fadd(s[i], fmul(x.data[unflat3(x.g.cells, i)], x.weight[unflat3(x.g.cells, i)])),
    ensures s[n] == cells_wsum(x, n), decreases n
{ if n > 0 { lemma_wsum(x, s, n - 1); assert(s[n - 1 + 1] == s[n]); } }
pub proof fn lemma_weight(x: GV, s: Seq<F>, n: int)
    requires 0 <= n < s.len(), s[0] == fl(0, 1), forall|i: int| 0 <= i < n ==> #[trigger] s[i + 1] == fadd(s[i], x.weight[unflat3(x.g.cells, i)]),
    ensures s[n] == cells_weight(x, n), decreases n
{ if n > 0 { lemma_weight(x, s, n - 1); assert(s[n - 1 + 1] == s[n]); } }
pub open spec fn msd_at(m: F, g: Geo, d: Ds, s: GlobalStats, sel: ParticleSelector, dt: F) -> bool { exists|x: GV| #[trigger] holds_msd(x, g, d, s, sel, dt) && m == cells_wmean(x) }
pub open spec fn cells_wmean(x: GV) -> F { fdiv(cells_wsum(x, size3(x.g.cells)), cells_weight(x, size3(x.g.cells))) }
%end
%fn src/functions/mixing.rs Mixing::msd_field
@self Dm
@ret r
@attr #[verifier::loop_isolation(false)]
@requires
    old(self).wf(), grid.wf(), selector.wf(), increasing(old(self).stats().time_array@), later_wf(old(self).stats(), old(self).ds(), time_for_msd),
@ensures
    final(self).wf(), final(self).ds() == old(self).ds(), final(self).stats() == old(self).stats(), r.wf(), holds_msd(r.gv(), grid.gv().g, old(self).ds(), old(self).stats(), *selector, time_for_msd),
@entry
    let ghost g0 = grid.gv(); let ghost d = self.ds(); let ghost s = self.stats(); let ghost q = msd_q(g0.g, s, *selector, time_for_msd); let ghost v = msd_v(s, d, time_for_msd);
@loop 0
    invariant __i0 <= __n0, self.ds() == old(self).ds(), self.stats() == old(self).stats(), distance.wf(), distance.gv().g == g0.g, distance.gv() == over_t(gv_zero(g0), d, *selector, add_if(q, v), __i0 as int),
    decreases __n0 - __i0
@body 0
    proof { let t = d[__i0 - 1]; if !has_later(s, t, time_for_msd) { lemma_skip_p(distance.gv(), t, q, v, t.position@.len() as int); } }
@loop 1
    invariant __i1 <= __n1, distance.wf(), distance.gv().g == g0.g, distance.gv() == over_p(over_t(gv_zero(g0), d, *selector, add_if(q, v), __i0 - 1), d[__i0 - 1], add_if(q, v), __i1 as int),
    decreases __n1 - __i1
@post 0
    proof { lemma_all_sums(g0, d, *selector, q, v, d.len() - 1); }
@closure 0
    |__p0: (&F, &F)| -> (b: F) ensures b == mean_or_0(*__p0.0, *__p0.1)
@exit
    proof { let x = over_t(gv_zero(g0), d, *selector, add_if(q, v), d.len() - 1);
        assert forall|c: I3| #[trigger] in3(g0.g.cells, c) implies __res.gv().data.dom().contains(c) && __res.gv().data[c] == mean_or_0(x.data[c], x.weight[c]) by { lemma_flat3(g0.g.cells, c); }
        lemma_means_or_0(x, __res.gv(), g0.g, d, *selector, q, v, d.len() - 1); }
%fn src/functions/mixing.rs Mixing::msd
@self Dm
@ret r
@attr #[verifier::loop_isolation(false)]
@requires
    old(self).wf(), grid.wf(), selector.wf(), increasing(old(self).stats().time_array@),
    forall|i: int| 0 <= i < steps ==> later_wf(old(self).stats(), old(self).ds(), #[trigger] linspace(min_time, max_time, steps as int)[i]),
@ensures
    r.1@ == linspace(min_time, max_time, steps as int), r.0@.len() == steps,
    forall|i: int| 0 <= i < steps ==> msd_at(#[trigger] r.0@[i], grid.gv().g, old(self).ds(), old(self).stats(), *selector, r.1@[i]),
@loop 0
    invariant __i0 <= __n0, __n0 == steps, self.wf(), self.ds() == old(self).ds(), self.stats() == old(self).stats(), msd@.len() == steps, time@ == linspace(min_time, max_time, steps as int),
        forall|i: int| 0 <= i < __i0 ==> msd_at(#[trigger] msd@[i], grid.gv().g, old(self).ds(), old(self).stats(), *selector, time@[i]),
    decreases __n0 - __i0
@closure 0
    |__p0: F, __p1: (&F, &F)| -> (b: F) ensures b == fadd(__p0, fmul(*__p1.0, *__p1.1))
@closure 1
    |__p0: F, __p1: &F| -> (b: F) ensures b == fadd(__p0, *__p1)
@after msd_at_time
    proof { let x = msd_field.gv(); let n = size3(x.g.cells);
        assert forall|s: Seq<F>| s.len() == n + 1 && s[0] == fl(0, 1) && (forall|i: int| 0 <= i < n ==> #[trigger] s[i + 1] == fadd(s[i], fmul(x.data[unflat3(x.g.cells, i)], x.weight[unflat3(x.g.cells, i)]))) implies #[trigger] s[n] == cells_wsum(x, n) by { lemma_wsum(x, s, n); }
        assert forall|s: Seq<F>| s.len() == n + 1 && s[0] == fl(0, 1) && (forall|i: int| 0 <= i < n ==> #[trigger] s[i + 1] == fadd(s[i], x.weight[unflat3(x.g.cells, i)])) implies #[trigger] s[n] == cells_weight(x, n) by { lemma_weight(x, s, n); }
        assert(msd_at_time == cells_wmean(x)); }
