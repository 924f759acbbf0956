%import data.vc
%raw
// C25, C26: the moves of the particles between the considered timesteps
pub open spec fn same_slot(o: Timestep, t: Timestep, p: int) -> bool { p < o.particleid@.len() && feq(t.particleid@[p], o.particleid@[p]) }
pub open spec fn goes_down(o: Timestep, t: Timestep, p: int, ax: int, b: F) -> bool { flt(t.position@[p][ax], b) && flt(b, o.position@[p][ax]) }
pub open spec fn goes_up(o: Timestep, t: Timestep, p: int, ax: int, b: F) -> bool { flt(b, t.position@[p][ax]) && flt(o.position@[p][ax], b) }
// every slot's moves of one timestep after another, the one before being the last considered one (at first the very first)
pub open spec fn moves_p<A>(a: A, f: spec_fn(A, Timestep, Timestep, int) -> A, sel: ParticleSelector, o: Timestep, t: Timestep, n: int) -> A decreases n {
    if n <= 0 { a } else { let b = moves_p(a, f, sel, o, t, n - 1); if picked(sel, t, n - 1) && same_slot(o, t, n - 1) { f(b, o, t, n - 1) } else { b } }
}
pub open spec fn moves_t<A>(a: A, f: spec_fn(A, Timestep, Timestep, int) -> A, d: Ds, sel: ParticleSelector, n: int) -> (A, Timestep) decreases n {
    if n <= 1 { (a, d[0]) } else { let b = moves_t(a, f, d, sel, n - 1); if sel.accepts_time(d[n - 1].time) { (moves_p(b.0, f, sel, b.1, d[n - 1], d[n - 1].position@.len() as int), d[n - 1]) } else { b } }
}
// C25: the first crossing starts the clock, the second is passed over, the third reports
pub struct Clock { pub out: Seq<F>, pub phase: Seq<usize>, pub since: Seq<F> }
pub open spec fn one_boundary(ax: int, b: F) -> spec_fn(Clock, Timestep, Timestep, int) -> Clock {
    |a: Clock, o: Timestep, t: Timestep, p: int|
        if !(goes_down(o, t, p, ax, b) || goes_up(o, t, p, ax, b)) { a }
        else if a.phase[p] == 0 { Clock { out: a.out, phase: a.phase.update(p, 1), since: a.since.update(p, t.time) } }
        else if a.phase[p] == 1 { Clock { out: a.out, phase: a.phase.update(p, 2), since: a.since } }
        else { Clock { out: a.out.push(fsub(t.time, a.since[p])), phase: a.phase.update(p, 0), since: a.since } }
}
pub open spec fn clock0(n: int) -> Clock { Clock { out: seq![], phase: Seq::new(n as nat, |i: int| 0usize), since: Seq::new(n as nat, |i: int| fl(0, 1)) } }
pub open spec fn outside_dim(s: GlobalStats, ax: int, b: F) -> bool { flt(s.dimensions@[(1int, ax)], b) || flt(b, s.dimensions@[(0int, ax)]) }
%end
%fn src/functions/conditional.rs Conditional::circulation_time
@self Dm
@ret r
@attr #[verifier::loop_isolation(false)]
@panics_if outside_dim(old(self).stats(), axis as int, boundary_position)
@requires
    old(self).wf(), selector.wf(), axis < 3,
@ensures
    r@ == moves_t(clock0(old(self).stats().nparticles + 1), one_boundary(axis as int, boundary_position), old(self).ds(), *selector, old(self).ds().len() - 1).0.out,
@entry
    let ghost d = self.ds(); let ghost sel = *selector; let ghost f = one_boundary(axis as int, boundary_position); let ghost z = clock0(self.stats().nparticles + 1);
@loop 0
    invariant 1 <= __i0 <= __n0 || d.len() == 1 && __i0 == 1, *self == *old(self), start_flag_array@.len() == particle_number + 1, time_flag_array@.len() == particle_number + 1,
        (Clock { out: circulation_time@, phase: start_flag_array@, since: time_flag_array@ }, old_timestep) == moves_t(z, f, d, sel, __i0 as int), ts_wf(old_timestep),
    decreases __n0 - __i0
@loop 1
    invariant __i1 <= __n1, start_flag_array@.len() == particle_number + 1, time_flag_array@.len() == particle_number + 1,
        (Clock { out: circulation_time@, phase: start_flag_array@, since: time_flag_array@ }) == moves_p(moves_t(z, f, d, sel, __i0 - 1).0, f, sel, old_timestep, d[__i0 - 1], __i1 as int),
    decreases __n1 - __i1
%raw
// C26: a trip starts when the slot leaves the region beyond one boundary (1: above the upper one, 2: below the lower one) towards the middle,
// needs an entry into the other region, and ends when the slot leaves the first region again, which starts the next trip
pub struct Trip { pub out: Seq<(F, F)>, pub home: Seq<usize>, pub reached: Seq<usize>, pub since: Seq<F> }
pub open spec fn leaves(a: Trip, p: int, h: usize, time: F) -> Trip {
    if a.home[p] == 0 { Trip { out: a.out, home: a.home.update(p, h), reached: a.reached, since: a.since.update(p, time) } }
    else if a.home[p] != h { a }
    else if a.reached[p] == 1 { Trip { out: a.out.push((a.since[p], time)), home: a.home, reached: a.reached.update(p, 0), since: a.since.update(p, time) } }
    else { Trip { out: a.out, home: a.home, reached: a.reached, since: a.since.update(p, time) } }
}
pub open spec fn reaches(a: Trip, p: int) -> Trip { Trip { out: a.out, home: a.home, reached: a.reached.update(p, 1), since: a.since } }
pub open spec fn trip_step(a: Trip, o: Timestep, t: Timestep, p: int, ax: int, lo: F, hi: F) -> Trip {
    let b = if goes_down(o, t, p, ax, hi) { leaves(a, p, 1, t.time) } else { a };
    let c = if goes_up(o, t, p, ax, lo) { leaves(b, p, 2, t.time) } else { b };
    if c.home[p] == 1 && goes_down(o, t, p, ax, lo) || c.home[p] == 2 && goes_up(o, t, p, ax, hi) { reaches(c, p) } else { c }
}
pub open spec fn two_boundaries(ax: int, lo: F, hi: F) -> spec_fn(Trip, Timestep, Timestep, int) -> Trip { |a: Trip, o: Timestep, t: Timestep, p: int| trip_step(a, o, t, p, ax, lo, hi) }
pub open spec fn trip0(n: int) -> Trip { Trip { out: seq![], home: Seq::new(n as nat, |i: int| 0usize), reached: Seq::new(n as nat, |i: int| 0usize), since: Seq::new(n as nat, |i: int| fl(0, 1)) } }
%end
%fn src/functions/conditional.rs Conditional::circulation_time_two_boundary
@self Dm
@ret r
@attr #[verifier::loop_isolation(false)]
@panics_if outside_dim(old(self).stats(), axis as int, boundary_position.0) || outside_dim(old(self).stats(), axis as int, boundary_position.1)
@requires
    old(self).wf(), selector.wf(), axis < 3,
@ensures
    r@ == moves_t(trip0(old(self).stats().nparticles + 1), two_boundaries(axis as int, boundary_position.0, boundary_position.1), old(self).ds(), *selector, old(self).ds().len() - 1).0.out,
@entry
    let ghost d = self.ds(); let ghost sel = *selector; let ghost f = two_boundaries(axis as int, boundary_position.0, boundary_position.1); let ghost z = trip0(self.stats().nparticles + 1);
@loop 0
    invariant 1 <= __i0 <= __n0 || d.len() == 1 && __i0 == 1, *self == *old(self), start_flag_array@.len() == particle_number + 1, time_flag_array@.len() == particle_number + 1, mid_flag_array@.len() == particle_number + 1, mid_time_flag_array@.len() == particle_number + 1,
        (Trip { out: circulation_time@, home: start_flag_array@, reached: mid_flag_array@, since: time_flag_array@ }, old_timestep) == moves_t(z, f, d, sel, __i0 as int), ts_wf(old_timestep),
    decreases __n0 - __i0
@loop 1
    invariant __i1 <= __n1, start_flag_array@.len() == particle_number + 1, time_flag_array@.len() == particle_number + 1, mid_flag_array@.len() == particle_number + 1, mid_time_flag_array@.len() == particle_number + 1,
        (Trip { out: circulation_time@, home: start_flag_array@, reached: mid_flag_array@, since: time_flag_array@ }) == moves_p(moves_t(z, f, d, sel, __i0 - 1).0, f, sel, old_timestep, d[__i0 - 1], __i1 as int),
    decreases __n1 - __i1
