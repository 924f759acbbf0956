%import data.vc
%import time_spec.vc
%fn src/datamanager.rs GlobalStats::timestep_at_seconds_closest external
@use timestep_at
%raw
// the timestep nearest to the delay later
pub open spec fn has_later(s: GlobalStats, t: Timestep, dt: F) -> bool { in_record(s.time_array@, fadd(t.time, dt)) }
pub open spec fn later(s: GlobalStats, d: Ds, t: Timestep, dt: F) -> Timestep { d[nearest_time(s.time_array@, fadd(t.time, dt))] }
// a later timestep holds a position for each particle
pub open spec fn later_wf(s: GlobalStats, d: Ds, dt: F) -> bool { forall|k: int| 0 <= k < d.len() && has_later(s, #[trigger] d[k], dt) ==> later(s, d, d[k], dt).position@.len() >= d[k].position@.len() }
%end
