%import data.vc
%raw
// C27: one record
pub open spec fn record(t: Timestep, p: int) -> Seq<F> { seq![t.time, t.position@[p][0], t.position@[p][1], t.position@[p][2], vel(t, p)[0], vel(t, p)[1], vel(t, p)[2]] }
%end
%fn src/functions/extractions.rs Extraction::extract
@self Dm
@ret r
@attr #[verifier::loop_isolation(false)]
@panics_if timestep.0 >= old(self).ds().len() || timestep.1 > old(self).ds().len()
@requires
    old(self).wf(), timestep.0 <= timestep.1, forall|k: int| timestep.0 <= k < timestep.1 && k < old(self).ds().len() ==> particle_id < (#[trigger] old(self).ds()[k]).position@.len(),
@ensures
    r.dimv() == (timestep.1 - timestep.0, 7int),
    forall|k: int| 0 <= k < timestep.1 - timestep.0 ==> #[trigger] row2(r@, r.dimv(), k) == record(old(self).ds()[timestep.0 + k], particle_id as int),
@entry
    let ghost (a, b) = (timestep.0 as int, timestep.1 as int); let ghost d = self.ds();
@loop 0
    invariant __i0 <= __n0, *self == *old(self), return_data.dimv() == (b - a, 7int),
        forall|k: int, j: int| 0 <= k < __i0 && 0 <= j < 7 ==> #[trigger] return_data@[(k, j)] == record(d[a + k], particle_id as int)[j],
    decreases __n0 - __i0
@exit
    proof { assert forall|k: int| 0 <= k < b - a implies #[trigger] row2(__res@, __res.dimv(), k) == record(d[a + k], particle_id as int) by { assert(row2(__res@, __res.dimv(), k) =~= record(d[a + k], particle_id as int)); } }
