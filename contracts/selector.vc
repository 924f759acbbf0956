%include core
%import selector_spec.vc
%fn src/particleselector.rs ParticleSelector::new
@ret r
@ensures
    r.time == time, r.radius == radius, r.clouds == clouds, r.density == density, r.particleid == particleid,
%fn src/particleselector.rs ParticleSelector::default
@ret r
@ensures
    r.wf(),
    r.time.0 == F_MIN(), r.time.1 == F_MAX(),
    forall|a: F, b: F, c: F, d: usize| #[trigger] r.accepts(a, b, c, d),
@exit
    broadcast use float_axioms;
%fn src/particleselector.rs ParticleSelector::is_radius_valid
@ret r
@requires
    self.wf(),
@ensures
    r == crit(self.radius@, radius),
@entry
    broadcast use float_axioms;
%fn src/particleselector.rs ParticleSelector::is_cloud_valid
@ret r
@requires
    self.wf(),
@ensures
    r == crit(self.clouds@, cloud),
@entry
    broadcast use float_axioms;
%fn src/particleselector.rs ParticleSelector::is_density_valid
@ret r
@requires
    self.wf(),
@ensures
    r == crit(self.density@, density),
@entry
    broadcast use float_axioms;
%fn src/particleselector.rs ParticleSelector::is_particleid_valid
@ret r
@requires
    self.wf(),
@ensures
    r == crit_id(self.particleid@, particleid),
%fn src/particleselector.rs ParticleSelector::is_valid
@ret r
@requires
    self.wf(),
@ensures
    r == self.accepts(radius, clouds, density, particleid),
%fn src/particleselector.rs ParticleSelector::timestep_valid
@ret r
@ensures
    r == self.accepts_time(time),
%fn src/particleselector.rs ParticleSelector::set_time
@ensures
    final(self).time.0 == min_time, final(self).time.1 == max_time,
    final(self).radius == old(self).radius, final(self).clouds == old(self).clouds,
    final(self).density == old(self).density, final(self).particleid == old(self).particleid,
