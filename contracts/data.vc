// What the field computations are written against: a dataset, a selection, a boxed grid.
%include core
%include grids
%import grid_contract.vc
%import selector_spec.vc
%struct src/datamanager.rs Timestep getters own
%struct src/datamanager.rs GlobalStats getters
%raw
pub type Ds = Seq<Timestep>;
impl ParticleSelector {
    // proved in selector.vc
    #[verifier::external_body] pub fn is_valid(&self, radius: F, clouds: F, density: F, particleid: usize) -> (r: bool) requires self.wf() ensures r == self.accepts(radius, clouds, density, particleid) { unimplemented!() }
    #[verifier::external_body] pub fn timestep_valid(&self, timestep: F) -> (r: bool) ensures r == self.accepts_time(timestep) { unimplemented!() }
}
// every slot of a timestep has all its values
pub open spec fn ts_wf(t: Timestep) -> bool {
    let n = t.position@.len();
    t.velocity.dimv() == (n as int, 3int) && t.radius@.len() == n && t.particleid@.len() == n && t.clouds@.len() == n && t.density@.len() == n && t.ptype@.len() == n
}
// a type that implements DataManager: timestep k of the dataset is what the three ways of access return (C32 for the file readers)
#[verifier::external_body]
pub struct Dm { p: u8 }
impl Dm {
    pub uninterp spec fn ds(&self) -> Ds;
    pub uninterp spec fn stats(&self) -> GlobalStats;
    // the extra buffers that have been set up
    pub uninterp spec fn buffers(&self) -> ISet<usize>;
    pub open spec fn wf(&self) -> bool {
        self.stats().ntimesteps == self.ds().len() && self.ds().len() >= 1 && (forall|k: int| 0 <= k < self.ds().len() ==> ts_wf(#[trigger] self.ds()[k]))
        && (forall|k: int| 0 <= k < self.ds().len() ==> (#[trigger] self.ds()[k]).position@.len() <= self.stats().nparticles + 1) && self.stats().nparticles < usize::MAX
        && self.stats().time_array@.len() == self.ds().len() && self.stats().velocity_mag@.len() == 3 && self.stats().dimensions.dimv() == (2int, 3int)
    }
    #[verifier::external_body] pub fn global_stats(&self) -> (r: GlobalStats) ensures r == self.stats() { unimplemented!() }
    #[verifier::external_body] pub fn get_timestep(&self, timestep: usize) -> (r: &Timestep) requires timestep < self.ds().len() ensures *r == self.ds()[timestep as int] { unimplemented!() }
    #[verifier::external_body] pub fn get_timestep_buffer(&self, timestep: usize, buffer: usize) -> (r: &Timestep) requires timestep < self.ds().len(), self.buffers().contains(buffer) ensures *r == self.ds()[timestep as int] { unimplemented!() }
    #[verifier::external_body] pub fn setup_buffer(&mut self, external_buffer_id: usize) ensures final(self).ds() == old(self).ds(), final(self).stats() == old(self).stats(), final(self).buffers() == old(self).buffers().insert(external_buffer_id) { unimplemented!() }
}
pub open spec fn picked(sel: ParticleSelector, t: Timestep, p: int) -> bool { sel.accepts(t.radius@[p], t.clouds@[p], t.density@[p], ftou(t.particleid@[p])) }
pub open spec fn vel(t: Timestep, p: int) -> Seq<F> { row2(t.velocity@, t.velocity.dimv(), p) }
pub open spec fn nanpos(x: Position) -> bool { fnan(x[0]) || fnan(x[1]) || fnan(x[2]) }
// everything that happens to the particles 0..n of one timestep, in order
pub open spec fn over_p<A>(a: A, t: Timestep, f: spec_fn(A, Timestep, int) -> A, n: int) -> A decreases n { if n <= 0 { a } else { f(over_p(a, t, f, n - 1), t, n - 1) } }
// ... and to all particles of the timesteps 0..n whose time is selected
pub open spec fn over_t<A>(a: A, d: Ds, sel: ParticleSelector, f: spec_fn(A, Timestep, int) -> A, n: int) -> A decreases n {
    if n <= 0 { a } else { let b = over_t(a, d, sel, f, n - 1); if sel.accepts_time(d[n - 1].time) { over_p(b, d[n - 1], f, d[n - 1].position@.len() as int) } else { b } }
}
// adding the value v(t, p) at the position of every particle that q(t, p) accepts
pub open spec fn add_if(q: spec_fn(Timestep, int) -> bool, v: spec_fn(Timestep, int) -> F) -> spec_fn(GV, Timestep, int) -> GV {
    |a: GV, t: Timestep, p: int| if q(t, p) { gv_add(a, t.position@[p], v(t, p)) } else { a }
}
// what that leaves in one cell: the sum of the values, and the number of the particles, that belong to it
pub open spec fn cell_sum_p(s: F, g: Geo, c: I3, t: Timestep, q: spec_fn(Timestep, int) -> bool, v: spec_fn(Timestep, int) -> F, n: int) -> F decreases n {
    if n <= 0 { s } else { let b = cell_sum_p(s, g, c, t, q, v, n - 1); if q(t, n - 1) && inside(g, t.position@[n - 1]) && cell(g, t.position@[n - 1]) == c { fadd(b, v(t, n - 1)) } else { b } }
}
pub open spec fn cell_sum(g: Geo, c: I3, d: Ds, sel: ParticleSelector, q: spec_fn(Timestep, int) -> bool, v: spec_fn(Timestep, int) -> F, n: int) -> F decreases n {
    if n <= 0 { fl(0, 1) } else { let b = cell_sum(g, c, d, sel, q, v, n - 1); if sel.accepts_time(d[n - 1].time) { cell_sum_p(b, g, c, d[n - 1], q, v, d[n - 1].position@.len() as int) } else { b } }
}
pub open spec fn one() -> spec_fn(Timestep, int) -> F { |t: Timestep, p: int| fl(1, 1) }
pub open spec fn cell_count(g: Geo, c: I3, d: Ds, sel: ParticleSelector, q: spec_fn(Timestep, int) -> bool, n: int) -> F { cell_sum(g, c, d, sel, q, one(), n) }
// the grid after adding holds exactly these sums in each of its cells
pub open spec fn holds_sums(x: GV, g: Geo, d: Ds, sel: ParticleSelector, q: spec_fn(Timestep, int) -> bool, v: spec_fn(Timestep, int) -> F, n: int) -> bool {
    x.g == g && forall|c: I3| #[trigger] in3(g.cells, c) ==> x.data.dom().contains(c) && x.weight.dom().contains(c) && x.data[c] == cell_sum(g, c, d, sel, q, v, n) && x.weight[c] == cell_count(g, c, d, sel, q, n)
}
pub proof fn lemma_sums_p(a: GV, s: F, w: F, c: I3, t: Timestep, q: spec_fn(Timestep, int) -> bool, v: spec_fn(Timestep, int) -> F, n: int)
    requires in3(a.g.cells, c), a.data[c] == s, a.weight[c] == w, a.data.dom().contains(c), a.weight.dom().contains(c),
    ensures over_p(a, t, add_if(q, v), n).g == a.g, over_p(a, t, add_if(q, v), n).data.dom().contains(c), over_p(a, t, add_if(q, v), n).weight.dom().contains(c), over_p(a, t, add_if(q, v), n).data[c] == cell_sum_p(s, a.g, c, t, q, v, n), over_p(a, t, add_if(q, v), n).weight[c] == cell_sum_p(w, a.g, c, t, q, one(), n),
    decreases n
{ if n > 0 { lemma_sums_p(a, s, w, c, t, q, v, n - 1); } }
pub proof fn lemma_sums(a: GV, c: I3, d: Ds, sel: ParticleSelector, q: spec_fn(Timestep, int) -> bool, v: spec_fn(Timestep, int) -> F, n: int)
    requires in3(a.g.cells, c), a.data[c] == fl(0, 1), a.weight[c] == fl(0, 1), a.data.dom().contains(c), a.weight.dom().contains(c),
    ensures over_t(a, d, sel, add_if(q, v), n).g == a.g, over_t(a, d, sel, add_if(q, v), n).data.dom().contains(c), over_t(a, d, sel, add_if(q, v), n).weight.dom().contains(c), over_t(a, d, sel, add_if(q, v), n).data[c] == cell_sum(a.g, c, d, sel, q, v, n), over_t(a, d, sel, add_if(q, v), n).weight[c] == cell_count(a.g, c, d, sel, q, n),
    decreases n
{ if n > 0 { lemma_sums(a, c, d, sel, q, v, n - 1);
    let b = over_t(a, d, sel, add_if(q, v), n - 1);
    lemma_sums_p(b, b.data[c], b.weight[c], c, d[n - 1], q, v, d[n - 1].position@.len() as int); } }
pub proof fn lemma_all_sums(v0: GV, d: Ds, sel: ParticleSelector, q: spec_fn(Timestep, int) -> bool, v: spec_fn(Timestep, int) -> F, n: int)
    requires geo_wf(v0.g),
    ensures holds_sums(over_t(gv_zero(v0), d, sel, add_if(q, v), n), v0.g, d, sel, q, v, n)
{
    let x = over_t(gv_zero(v0), d, sel, add_if(q, v), n);
    lemma_sums(gv_zero(v0), (0, 0, 0), d, sel, q, v, n);
    assert(x.g == v0.g);
    assert forall|c: I3| #[trigger] in3(v0.g.cells, c) implies x.data.dom().contains(c) && x.weight.dom().contains(c) && x.data[c] == cell_sum(v0.g, c, d, sel, q, v, n) && x.weight[c] == cell_count(v0.g, c, d, sel, q, n) by {
        assert(gv_zero(v0).data.dom().contains(c) && gv_zero(v0).weight.dom().contains(c));
        lemma_sums(gv_zero(v0), c, d, sel, q, v, n); }
}
// arrays that are summed up next to a grid, with the grid's cells
pub open spec fn all(v: GV, d: Ds, sel: ParticleSelector, q: spec_fn(Timestep, int) -> bool, f: spec_fn(Timestep, int) -> F, n: int) -> M3 { over_t(gv_zero(v), d, sel, add_if(q, f), n).data }
pub open spec fn part(v: GV, d: Ds, sel: ParticleSelector, q: spec_fn(Timestep, int) -> bool, f: spec_fn(Timestep, int) -> F, k: int, n: int) -> M3 { over_p(over_t(gv_zero(v), d, sel, add_if(q, f), k), d[k], add_if(q, f), n).data }
pub proof fn lemma_same_geo_p(a: GV, t: Timestep, q: spec_fn(Timestep, int) -> bool, v: spec_fn(Timestep, int) -> F, n: int) ensures over_p(a, t, add_if(q, v), n).g == a.g, decreases n
{ if n > 0 { lemma_same_geo_p(a, t, q, v, n - 1); } }
pub proof fn lemma_same_geo(a: GV, d: Ds, sel: ParticleSelector, q: spec_fn(Timestep, int) -> bool, v: spec_fn(Timestep, int) -> F, n: int) ensures over_t(a, d, sel, add_if(q, v), n).g == a.g, decreases n
{ if n > 0 { lemma_same_geo(a, d, sel, q, v, n - 1); lemma_same_geo_p(over_t(a, d, sel, add_if(q, v), n - 1), d[n - 1], q, v, d[n - 1].position@.len() as int); } }
// one more particle in such an array
pub open spec fn part_next(v: GV, d: Ds, q: spec_fn(Timestep, int) -> bool, f: spec_fn(Timestep, int) -> F, k: int, n: int, x: M3) -> M3 {
    let c = cell(v.g, d[k].position@[n]); if q(d[k], n) && inside(v.g, d[k].position@[n]) { x.insert(c, fadd(x[c], f(d[k], n))) } else { x }
}
pub proof fn lemma_parts(v: GV, d: Ds, sel: ParticleSelector, q: spec_fn(Timestep, int) -> bool, k: int, n: int) requires n >= 0
    ensures forall|f: spec_fn(Timestep, int) -> F| #[trigger] part(v, d, sel, q, f, k, n + 1) == part_next(v, d, q, f, k, n, part(v, d, sel, q, f, k, n)),
{ assert forall|f: spec_fn(Timestep, int) -> F| true implies #[trigger] part(v, d, sel, q, f, k, n + 1) == part_next(v, d, q, f, k, n, part(v, d, sel, q, f, k, n)) by {
    lemma_same_geo(gv_zero(v), d, sel, q, f, k); lemma_same_geo_p(over_t(gv_zero(v), d, sel, add_if(q, f), k), d[k], q, f, n); } }
// a timestep of which no particle counts changes nothing
pub proof fn lemma_skip_p(a: GV, t: Timestep, q: spec_fn(Timestep, int) -> bool, v: spec_fn(Timestep, int) -> F, n: int)
    requires forall|p: int| !#[trigger] q(t, p), ensures over_p(a, t, add_if(q, v), n) == a, decreases n
{ if n > 0 { lemma_skip_p(a, t, q, v, n - 1); } }
pub proof fn lemma_skips(v: GV, d: Ds, sel: ParticleSelector, q: spec_fn(Timestep, int) -> bool, k: int)
    requires k >= 0, forall|p: int| !#[trigger] q(d[k], p), ensures forall|f: spec_fn(Timestep, int) -> F| #[trigger] all(v, d, sel, q, f, k + 1) == all(v, d, sel, q, f, k)
{ assert forall|f: spec_fn(Timestep, int) -> F| true implies #[trigger] all(v, d, sel, q, f, k + 1) == all(v, d, sel, q, f, k) by { lemma_skip_p(over_t(gv_zero(v), d, sel, add_if(q, f), k), d[k], q, f, d[k].position@.len() as int); } }
// a cell that no particle belongs to: sum and count are zero, and the mean is NaN
pub open spec fn nobody(g: Geo, c: I3, d: Ds, sel: ParticleSelector, q: spec_fn(Timestep, int) -> bool, n: int) -> bool {
    forall|k: int, p: int| 0 <= k < n && sel.accepts_time(#[trigger] d[k].time) && 0 <= p < d[k].position@.len() ==> !(#[trigger] q(d[k], p) && inside(g, d[k].position@[p]) && cell(g, d[k].position@[p]) == c)
}
pub axiom fn ax_zero_by_zero() ensures fnan(fdiv(fl(0, 1), fl(0, 1)));
pub proof fn lemma_nobody_p(g: Geo, c: I3, d: Ds, k: int, sel: ParticleSelector, q: spec_fn(Timestep, int) -> bool, v: spec_fn(Timestep, int) -> F, n: int, m: int, s: F)
    requires nobody(g, c, d, sel, q, n), 0 <= k < n, sel.accepts_time(d[k].time), m <= d[k].position@.len(), ensures cell_sum_p(s, g, c, d[k], q, v, m) == s, decreases m
{ if m > 0 { lemma_nobody_p(g, c, d, k, sel, q, v, n, m - 1, s); } }
pub proof fn lemma_nobody(g: Geo, c: I3, d: Ds, sel: ParticleSelector, q: spec_fn(Timestep, int) -> bool, v: spec_fn(Timestep, int) -> F, n: int)
    requires nobody(g, c, d, sel, q, n), ensures cell_sum(g, c, d, sel, q, v, n) == fl(0, 1), decreases n
{ if n > 0 { lemma_nobody(g, c, d, sel, q, v, n - 1); if sel.accepts_time(d[n - 1].time) { lemma_nobody_p(g, c, d, n - 1, sel, q, v, n, d[n - 1].position@.len() as int, fl(0, 1)); } } }
// x with every cell divided by its count: the mean of the values of its particles
pub open spec fn holds_means(x: GV, g: Geo, d: Ds, sel: ParticleSelector, q: spec_fn(Timestep, int) -> bool, v: spec_fn(Timestep, int) -> F, n: int) -> bool {
    x.g == g && forall|c: I3| #[trigger] in3(g.cells, c) ==> x.data[c] == fdiv(cell_sum(g, c, d, sel, q, v, n), cell_count(g, c, d, sel, q, n)) && x.weight[c] == cell_count(g, c, d, sel, q, n)
        && (nobody(g, c, d, sel, q, n) ==> fnan(x.data[c]) && x.weight[c] == fl(0, 1))
}
pub proof fn lemma_means(x: GV, g: Geo, d: Ds, sel: ParticleSelector, q: spec_fn(Timestep, int) -> bool, v: spec_fn(Timestep, int) -> F, n: int)
    requires holds_sums(x, g, d, sel, q, v, n), ensures holds_means(gv_data(x, m3_div(x.data, x.weight)), g, d, sel, q, v, n)
{
    let r = gv_data(x, m3_div(x.data, x.weight));
    ax_zero_by_zero();
    assert forall|c: I3| #[trigger] in3(g.cells, c) implies r.data[c] == fdiv(cell_sum(g, c, d, sel, q, v, n), cell_count(g, c, d, sel, q, n)) && r.weight[c] == cell_count(g, c, d, sel, q, n)
        && (nobody(g, c, d, sel, q, n) ==> fnan(r.data[c]) && r.weight[c] == fl(0, 1)) by {
        assert(x.data[c] == cell_sum(g, c, d, sel, q, v, n));
        if nobody(g, c, d, sel, q, n) { lemma_nobody(g, c, d, sel, q, v, n); lemma_nobody(g, c, d, sel, q, one(), n); }
    }
}
%end
%import gridbox.vc
