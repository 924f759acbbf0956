%import data.vc
%raw
// C14: the requested component of a velocity
pub open spec fn known(m: Seq<char>) -> bool { m == "absolute"@ || m == "x"@ || m == "r"@ || m == "y"@ || m == "theta"@ || m == "xy"@ || m == "xz"@ || m == "yz"@ || m == "z"@ }
pub open spec fn sq(a: F) -> F { fpowi(a, 2) }
pub open spec fn component(m: Seq<char>, v: Seq<F>) -> F {
    if m == "absolute"@ { fsqrt(fadd(fadd(sq(v[0]), sq(v[1])), sq(v[2]))) }
    else if m == "x"@ || m == "r"@ { v[0] } else if m == "y"@ || m == "theta"@ { v[1] }
    else if m == "xy"@ { fsqrt(fadd(sq(v[0]), sq(v[1]))) } else if m == "xz"@ { fsqrt(fadd(sq(v[0]), sq(v[2]))) } else if m == "yz"@ { fsqrt(fadd(sq(v[1]), sq(v[2]))) }
    else { v[2] }
}
pub open spec fn vf_v(m: Seq<char>) -> spec_fn(Timestep, int) -> F { |t: Timestep, p: int| component(m, vel(t, p)) }
pub open spec fn vf_q(sel: ParticleSelector, m: Seq<char>, lo: F, hi: F) -> spec_fn(Timestep, int) -> bool {
    |t: Timestep, p: int| picked(sel, t, p) && !nanpos(t.position@[p]) && !fnan(component(m, vel(t, p))) && !(flt(component(m, vel(t, p)), lo) || flt(hi, component(m, vel(t, p))))
}
%end
%fn src/functions.rs Granular::velocityfield
@self Dm
@ret r
@attr #[verifier::loop_isolation(false)]
@panics_if !known(mode@)
@requires
    old(self).wf(), grid.wf(), selector.wf(),
@ensures
    r.wf(), holds_means(r.gv(), grid.gv().g, old(self).ds(), *selector, vf_q(*selector, mode@, min_vel, max_vel), vf_v(mode@), old(self).ds().len() as int),
@loop 0
    invariant __i0 <= __n0, *self == *old(self), velocity_grid.wf(), velocity_grid.gv().g == grid.gv().g,
        velocity_grid.gv() == over_t(gv_zero(grid.gv()), self.ds(), *selector, add_if(vf_q(*selector, mode@, min_vel, max_vel), vf_v(mode@)), __i0 as int),
    decreases __n0 - __i0
@loop 1
    invariant __i1 <= __n1, velocity_grid.wf(), velocity_grid.gv().g == grid.gv().g,
        velocity_grid.gv() == over_p(over_t(gv_zero(grid.gv()), self.ds(), *selector, add_if(vf_q(*selector, mode@, min_vel, max_vel), vf_v(mode@)), __i0 - 1), self.ds()[__i0 - 1], add_if(vf_q(*selector, mode@, min_vel, max_vel), vf_v(mode@)), __i1 as int),
    decreases __n1 - __i1
@post 0
    proof { lemma_all_sums(grid.gv(), self.ds(), *selector, vf_q(*selector, mode@, min_vel, max_vel), vf_v(mode@), self.ds().len() as int);
        lemma_means(velocity_grid.gv(), grid.gv().g, self.ds(), *selector, vf_q(*selector, mode@, min_vel, max_vel), vf_v(mode@), self.ds().len() as int); }
@nested
@ret r
@requires
    velocity@.len() == 3,
@ensures
    r == fsqrt(fadd(fadd(sq(velocity@[0]), sq(velocity@[1])), sq(velocity@[2]))),
@nested
@ret r
@requires
    velocity@.len() == 3,
@ensures
    r == velocity@[0],
@nested
@ret r
@requires
    velocity@.len() == 3,
@ensures
    r == velocity@[1],
@nested
@ret r
@requires
    velocity@.len() == 3,
@ensures
    r == fsqrt(fadd(sq(velocity@[0]), sq(velocity@[1]))),
@nested
@ret r
@requires
    velocity@.len() == 3,
@ensures
    r == fsqrt(fadd(sq(velocity@[0]), sq(velocity@[2]))),
@nested
@ret r
@requires
    velocity@.len() == 3,
@ensures
    r == fsqrt(fadd(sq(velocity@[1]), sq(velocity@[2]))),
@nested
@ret r
@requires
    velocity@.len() == 3,
@ensures
    r == velocity@[2],
