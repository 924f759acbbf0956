%import data.vc
%raw
pub open spec fn num_q(sel: ParticleSelector) -> spec_fn(Timestep, int) -> bool { |t: Timestep, p: int| picked(sel, t, p) }
%end
%fn src/functions.rs Granular::numberfield
@self Dm
@ret r
@attr #[verifier::loop_isolation(false)]
@requires
    old(self).wf(), grid.wf(), selector.wf(),
@ensures
    r.wf(), holds_sums(r.gv(), grid.gv().g, old(self).ds(), *selector, num_q(*selector), one(), old(self).ds().len() as int),
@loop 0
    invariant __i0 <= __n0, *self == *old(self), number_grid.wf(), number_grid.gv().g == grid.gv().g, number_grid.gv() == over_t(gv_zero(grid.gv()), self.ds(), *selector, add_if(num_q(*selector), one()), __i0 as int),
    decreases __n0 - __i0
@loop 1
    invariant __i1 <= __n1, number_grid.wf(), number_grid.gv() == over_p(over_t(gv_zero(grid.gv()), self.ds(), *selector, add_if(num_q(*selector), one()), __i0 - 1), self.ds()[__i0 - 1], add_if(num_q(*selector), one()), __i1 as int),
        number_grid.gv().g == grid.gv().g,
    decreases __n1 - __i1
@exit
    proof { lemma_all_sums(grid.gv(), self.ds(), *selector, num_q(*selector), one(), self.ds().len() as int); }
