%import data.vc
%raw
// C20: the edges, the bin of a speed, and the number of speeds in each bin
pub open spec fn speed(v: Seq<F>) -> F { fsqrt(fadd(fadd(fmul(v[0], v[0]), fmul(v[1], v[1])), fmul(v[2], v[2]))) }
pub open spec fn top(s: GlobalStats, max_limit: F) -> F { if feq(max_limit, fl(0, 1)) { s.velocity_mag@[2] } else { max_limit } }
pub open spec fn edge(lo: F, hi: F, bins: int, i: int) -> F { if i == bins { hi } else { fadd(lo, fmul(fl(i, 1), fdiv(fsub(hi, lo), fl(bins, 1)))) } }
pub open spec fn edges(lo: F, hi: F, bins: int) -> Seq<F> { Seq::new((bins + 1) as nat, |i: int| edge(lo, hi, bins, i)) }
pub open spec fn bin_of(e: Seq<F>, v: F) -> int { ftou(ffloor(fdiv(fsub(v, e[0]), fsub(e[1], e[0])))) as int }
pub open spec fn in_bin(g: Geo, sel: ParticleSelector, e: Seq<F>, t: Timestep, p: int, b: int) -> bool {
    picked(sel, t, p) && inside(g, t.position@[p]) && fle(e[0], speed(vel(t, p))) && bin_of(e, speed(vel(t, p))) == b
}
pub open spec fn count_bin(g: Geo, sel: ParticleSelector, e: Seq<F>, b: int) -> spec_fn(F, Timestep, int) -> F { |a: F, t: Timestep, p: int| if in_bin(g, sel, e, t, p, b) { fadd(a, fl(1, 1)) } else { a } }
pub open spec fn bump(a: Seq<F>, b: int) -> Seq<F> { if b < a.len() { a.update(b, fadd(a[b], fl(1, 1))) } else { a } }
pub open spec fn count_all(g: Geo, sel: ParticleSelector, e: Seq<F>) -> spec_fn(Seq<F>, Timestep, int) -> Seq<F> {
    |a: Seq<F>, t: Timestep, p: int| if picked(sel, t, p) && inside(g, t.position@[p]) && fle(e[0], speed(vel(t, p))) { bump(a, bin_of(e, speed(vel(t, p)))) } else { a }
}
pub proof fn lemma_bin_p(a: Seq<F>, g: Geo, sel: ParticleSelector, e: Seq<F>, b: int, t: Timestep, n: int)
    requires 0 <= b < a.len(),
    ensures over_p(a, t, count_all(g, sel, e), n).len() == a.len(), over_p(a, t, count_all(g, sel, e), n)[b] == over_p(a[b], t, count_bin(g, sel, e, b), n), decreases n
{ if n > 0 { lemma_bin_p(a, g, sel, e, b, t, n - 1); } }
pub proof fn lemma_bin(a: Seq<F>, g: Geo, sel: ParticleSelector, e: Seq<F>, b: int, d: Ds, n: int)
    requires 0 <= b < a.len(),
    ensures over_t(a, d, sel, count_all(g, sel, e), n).len() == a.len(), over_t(a, d, sel, count_all(g, sel, e), n)[b] == over_t(a[b], d, sel, count_bin(g, sel, e, b), n), decreases n
{ if n > 0 { lemma_bin(a, g, sel, e, b, d, n - 1); lemma_bin_p(over_t(a, d, sel, count_all(g, sel, e), n - 1), g, sel, e, b, d[n - 1], d[n - 1].position@.len() as int); } }
%end
%fn src/functions.rs Granular::histogram
@self Dm
@ret r
@attr #[verifier::loop_isolation(false)]
@panics_if property@ != "velocity"@
@requires
    old(self).wf(), grid.wf(), selector.wf(), 1 <= bins < usize::MAX,
@ensures
    r.0@.len() == bins, r.1@ == edges(old(self).stats().velocity_mag@[0], top(old(self).stats(), max_limit), bins as int),
    forall|b: int| 0 <= b < bins ==> #[trigger] r.0@[b] == over_t(fl(0, 1), old(self).ds(), *selector, count_bin(grid.gv().g, *selector, r.1@, b), old(self).ds().len() as int),
@entry
    let ghost d = self.ds(); let ghost g = grid.gv().g; let ghost e = edges(self.stats().velocity_mag@[0], top(self.stats(), max_limit), bins as int); let ghost z = Seq::new(bins as nat, |i: int| fl(0, 1));
@loop 0
    invariant __i0 <= __n0, bin_edges@.len() == bins + 1, forall|i: int| 0 <= i < __i0 ==> #[trigger] bin_edges@[i] == e[i],
    decreases __n0 - __i0
@pre 1
    proof { assert(bin_edges@ =~= e); }
@loop 1
    invariant __i1 <= __n1, *self == *old(self), histogram@.len() == bins, histogram@ == over_t(z, d, *selector, count_all(g, *selector, e), __i1 as int),
    decreases __n1 - __i1
@loop 2
    invariant __i2 <= __n2, histogram@.len() == bins, histogram@ == over_p(over_t(z, d, *selector, count_all(g, *selector, e), __i1 - 1), d[__i1 - 1], count_all(g, *selector, e), __i2 as int),
    decreases __n2 - __i2
@post 1
    proof { assert forall|b: int| 0 <= b < bins implies #[trigger] histogram@[b] == over_t(fl(0, 1), d, *selector, count_bin(g, *selector, e, b), d.len() as int) by { lemma_bin(z, g, *selector, e, b, d, d.len() as int); } }
