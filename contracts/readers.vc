// What both file readers are written against.
%include core
%include hdf5
%struct src/datamanager.rs Timestep getters own
%struct src/datamanager.rs GlobalStats getters
%raw
impl Timestep { #[verifier::external_body] pub fn default() -> Timestep { unimplemented!() } }
impl GlobalStats { #[verifier::external_body] pub fn default() -> GlobalStats { unimplemented!() } }
// C32: the number of timesteps the file is said to hold; far below 2^53
pub open spec fn steps(f: File) -> int { f.attr_("timesteps"@).scalar::<usize>() as int }
pub open spec fn parts(f: File) -> int { f.attr_("particle number"@).scalar::<usize>() as int }
pub open spec fn row3(a: Array2<F>, i: int) -> Seq<F> { seq![a@[(i, 0int)], a@[(i, 1int)], a@[(i, 2int)]] }
pub open spec fn attrs_ok(f: File) -> bool {
    f.has_attr("dimensions"@) && f.attr_("dimensions"@).is2::<F>() && f.has_attr("particle number"@) && f.attr_("particle number"@).is0::<usize>() && f.has_attr("timesteps"@) && f.attr_("timesteps"@).is0::<usize>()
    && f.has_attr("time"@) && f.attr_("time"@).is1::<F>() && f.attr_("time"@).one::<F>()@.len() >= 2 && f.has_attr("sample rate"@) && f.attr_("sample rate"@).is0::<F>() && f.has_attr("velocity"@) && f.attr_("velocity"@).is2::<F>()
    && f.has_attr("velocity magnitude"@) && f.attr_("velocity magnitude"@).is1::<F>() && f.has("time array"@) && f.ds("time array"@).is1::<F>()
    && 1 <= steps(f) < 4503599627370496 && steps(f) <= usize::MAX / 4
}
// the global statistics are the file's attributes
pub open spec fn stats_of(f: File, s: GlobalStats) -> bool {
    s.dimensions == f.attr_("dimensions"@).two::<F>() && s.nparticles == parts(f) && s.ntimesteps == steps(f) && s.min_time == f.attr_("time"@).one::<F>()@[0] && s.max_time == f.attr_("time"@).one::<F>()@[1]
    && s.sample_rate == f.attr_("sample rate"@).scalar::<F>() && s.velocity == f.attr_("velocity"@).two::<F>() && s.velocity_mag == f.attr_("velocity magnitude"@).one::<F>() && s.time_array == f.ds("time array"@).one::<F>()
}
pub open spec fn same2(a: Array2<F>, b: Array2<F>) -> bool { a.dimv() == b.dimv() && a@ == b@ }
pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
%end
