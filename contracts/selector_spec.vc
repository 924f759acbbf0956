%raw
// C11: one criterion of a selection: a list of one value means equal to it, of two within that range,
// longer: one of the values; a list that starts with -1 accepts everything.
pub open spec fn crit(l: Seq<F>, x: F) -> bool {
    if feq(l[0], lit_m1()) { true }
    else if l.len() == 1 { feq(x, l[0]) }
    else if l.len() == 2 { fle(l[0], x) && fle(x, l[1]) }
    else { exists|i: int| 0 <= i < l.len() && feq(#[trigger] l[i], x) }
}
pub open spec fn lit_m1() -> F { fl(-1, 1) }
pub open spec fn crit_id(l: Seq<usize>, x: usize) -> bool {
    if l[0] == 0 { true }
    else if l.len() == 1 { x == l[0] }
    else if l.len() == 2 { l[0] <= x && x <= l[1] }
    else { exists|i: int| 0 <= i < l.len() && #[trigger] l[i] == x }
}
impl ParticleSelector {
    // every list names at least one value
    pub open spec fn wf(&self) -> bool {
        self.radius@.len() > 0 && self.clouds@.len() > 0 && self.density@.len() > 0 && self.particleid@.len() > 0
    }
    pub open spec fn accepts(&self, radius: F, clouds: F, density: F, particleid: usize) -> bool {
        crit(self.radius@, radius) && crit(self.clouds@, clouds) && crit(self.density@, density) && crit_id(self.particleid@, particleid)
    }
    pub open spec fn accepts_time(&self, t: F) -> bool { fle(self.time.0, t) && fle(t, self.time.1) }
}
%end
%struct src/particleselector.rs ParticleSelector
