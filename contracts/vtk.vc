%import tables.vc
%import timesteps.vc
%import perms.vc
%include vtk
%include folder
%struct src/converter.rs XMLVTKConverter
%struct src/converter.rs LegacyVTKConverter
%raw
// C37: what is asked for, for both formats
pub struct Fields { pub src: Src, pub id: Option<String>, pub radius: Option<String>, pub diameter: Option<String>, pub kind: Option<String>, pub velocity: Option<String> }
impl XMLVTKConverter { pub open spec fn fields(self) -> Fields { Fields { src: Src::Xml(self.file_type), id: self.id_field_name, radius: self.radius_field_name, diameter: self.diameter_field_name, kind: self.type_field_name, velocity: self.velocity_field_name } } }
impl LegacyVTKConverter { pub open spec fn fields(self) -> Fields { Fields { src: Src::Legacy, id: self.id_field_name, radius: self.radius_field_name, diameter: self.diameter_field_name, kind: self.type_field_name, velocity: self.velocity_field_name } } }
// the contents of a file
pub open spec fn ids(c: Fields, n: Seq<char>) -> Seq<u64> { vtk_field::<u64>(c.src, n, c.id->0@) }
pub open spec fn radii(c: Fields, n: Seq<char>) -> Seq<F> { match c.radius { Some(f) => vtk_field::<F>(c.src, n, f@), None => { let d = vtk_field::<F>(c.src, n, c.diameter->0@); Seq::new(d.len(), |i: int| fmul(d[i], fl(1, 2))) } } }
pub open spec fn kinds(c: Fields, n: Seq<char>) -> Seq<u64> { match c.kind { Some(f) => vtk_field::<u64>(c.src, n, f@), None => Seq::new(ids(c, n).len(), |i: int| 1u64) } }
pub open spec fn velocities(c: Fields, n: Seq<char>) -> Seq<F> { vtk_field::<F>(c.src, n, c.velocity->0@) }
// every particle has all its values
pub open spec fn usable(c: Fields, n: Seq<char>) -> bool { (c.src is Legacy ==> legacy_ok(n)) && (c.id is Some ==> { let k = ids(c, n).len();
    1 <= k < 0x8000_0000 && (c.radius is Some || c.diameter is Some ==> radii(c, n).len() == k) && kinds(c, n).len() == k && (c.velocity is Some ==> velocities(c, n).len() == 3 * k) && vtk_points::<F>(c.src, n).len() == 3 * k }) }
// one timestep
pub struct Rec { pub time: F, pub ids: Seq<u64>, pub radii: Seq<F>, pub kinds: Seq<u64>, pub vel: Seq<Seq<F>>, pub pos: Seq<Seq<F>> }
pub open spec fn picks<T>(s: Seq<T>, p: Seq<int>) -> Seq<T> { Seq::new(p.len(), |i: int| s[p[i]]) }
pub open spec fn picks3(s: Seq<F>, p: Seq<int>) -> Seq<Seq<F>> { Seq::new(p.len(), |i: int| seq![s[3 * p[i]], s[3 * p[i] + 1], s[3 * p[i] + 2]]) }
pub open spec fn in_order_of(c: Fields, n: Seq<char>, p: Seq<int>, r: Rec) -> bool {
    perm(p, ids(c, n).len() as int) && id_order(ids(c, n), p) && r.ids == picks(ids(c, n), p) && r.radii == picks(radii(c, n), p) && r.kinds == picks(kinds(c, n), p) && r.vel == picks3(velocities(c, n), p) && r.pos == picks3(vtk_points::<F>(c.src, n), p) }
// the number in the name of the file
pub open spec fn number(filter: Seq<char>, n: Seq<char>) -> Option<i64> { match re_group(filter, n, 1) { Some(t) => whole(t), None => None } }
pub open spec fn time_of(filter: Seq<char>, dt: F, n: Seq<char>) -> F { fmul(fl(number(filter, n)->0 as int, 1), dt) }
pub open spec fn is_rec(c: Fields, filter: Seq<char>, dt: F, n: Seq<char>, r: Rec) -> bool { number(filter, n) is Some && r.time == time_of(filter, dt, n) && exists|p: Seq<int>| #[trigger] in_order_of(c, n, p, r) }
// m is the greatest of all particle numbers
#[verifier::opaque]
pub open spec fn greatest(rs: Seq<Rec>, m: u64) -> bool { (m == 0 || exists|k: int, i: int| 0 <= k < rs.len() && 0 <= i < rs[k].ids.len() && #[trigger] rs[k].ids[i] == m) && forall|k: int, i: int| 0 <= k < rs.len() && 0 <= i < rs[k].ids.len() ==> #[trigger] rs[k].ids[i] <= m }
pub open spec fn ones(n: nat) -> Seq<F> { Seq::new(n, |i: int| fl(1, 1)) }
#[verifier::opaque]
pub open spec fn step_holds(f: File, k: int, r: Rec) -> bool { let g = grp(f, k);
    f.has_group(fmt1_("timestep {}"@, k)) && g.has("time"@) && g.ds("time"@).is0::<F>() && g.ds("time"@).scalar::<F>() == r.time && g.has("id"@) && is_one(g.ds("id"@), reals(r.ids)) && g.has("radius"@) && is_one(g.ds("radius"@), r.radii)
    && g.has("ppcloud"@) && is_one(g.ds("ppcloud"@), ones(r.ids.len())) && g.has("particletype"@) && is_one(g.ds("particletype"@), reals(r.kinds)) && g.has("velocity"@) && is_rows(g.ds("velocity"@), r.vel) && g.has("position"@) && is_rows(g.ds("position"@), r.pos) }
pub open spec fn summary_ok(f: File, rs: Seq<Rec>) -> bool { let n = rs.len() as int;
    f.has_attr("hdf5_up4_type"@) && f.attr_("hdf5_up4_type"@).is0::<u8>() && f.attr_("hdf5_up4_type"@).scalar::<u8>() == 1
    && f.has_attr("particle number"@) && f.attr_("particle number"@).is0::<usize>() && greatest(rs, f.attr_("particle number"@).scalar::<usize>() as u64)
    && f.has_attr("timesteps"@) && f.attr_("timesteps"@).is0::<usize>() && f.attr_("timesteps"@).scalar::<usize>() == n
    && f.has_attr("sample rate"@) && f.attr_("sample rate"@).is0::<F>() && f.attr_("sample rate"@).scalar::<F>() == fsub(rs[n - 1].time, before(rs, n - 1))
    && f.has_attr("time"@) && f.attr_("time"@).is1::<F>() && f.attr_("time"@).one::<F>()@ == seq![rs[0].time, rs[n - 1].time] && f.has("time array"@) && is_one(f.ds("time array"@), times(rs))
    && f.has_attr("dimensions"@) && f.attr_("dimensions"@).is2::<F>() && f.attr_("dimensions"@).two::<F>().dimv() == (2int, 3int) && extent(f.attr_("dimensions"@).two::<F>()@, poss(rs))
    && f.has_attr("velocity"@) && f.attr_("velocity"@).is2::<F>() && f.attr_("velocity"@).two::<F>().dimv() == (3int, 3int) && spread(f.attr_("velocity"@).two::<F>()@, vels(rs))
    && f.has_attr("velocity magnitude"@) && f.attr_("velocity magnitude"@).is1::<F>() && spread1(f.attr_("velocity magnitude"@).one::<F>()@, vels(rs)) }
#[verifier::opaque]
pub open spec fn all_recs(c: Fields, filter: Seq<char>, dt: F, names: Seq<&str>, rs: Seq<Rec>) -> bool { forall|k: int| 0 <= k < rs.len() ==> is_rec(c, filter, dt, names[k]@, #[trigger] rs[k]) }
#[verifier::opaque]
pub open spec fn forward(rs: Seq<Rec>) -> bool { forall|k: int| 0 <= k < rs.len() ==> !flt((#[trigger] rs[k]).time, before(rs, k)) }
pub proof fn lemma_greatest(rs: Seq<Rec>, r: Rec, m: u64, g: u64) requires greatest(rs, m), is_greatest(r.ids, g) ensures greatest(rs.push(r), if g > m { g } else { m })
{ reveal(greatest); let t = rs.push(r); let h = if g > m { g } else { m };
  if g > m { let i = choose|i: int| 0 <= i < r.ids.len() && r.ids[i] == g; assert(t[rs.len() as int].ids[i] == h); }
  else if m != 0 { let (k, i) = choose|k: int, i: int| 0 <= k < rs.len() && 0 <= i < rs[k].ids.len() && #[trigger] rs[k].ids[i] == m; assert(t[k].ids[i] == h); }
  assert forall|k: int, i: int| 0 <= k < t.len() && 0 <= i < t[k].ids.len() implies #[trigger] t[k].ids[i] <= h by { if k < rs.len() { assert(rs[k].ids[i] <= m); } else { assert(r.ids[i] <= g); } } }
pub proof fn lemma_rows(v: Seq<F>, p: Seq<int>, s: Seq<F>, m: Array2<F>)
    requires s.len() == 3 * p.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == v[3 * p[i / 3] + i % 3], m.dimv() == (p.len() as int, 3int), forall|k: I2| in2(m.dimv(), k) ==> #[trigger] m@[k] == s[k.0 * 3 + k.1]
    ensures table(m) == picks3(v, p)
{ let t = table(m); let w = picks3(v, p);
  assert forall|i: int| 0 <= i < p.len() implies #[trigger] t[i] == w[i] by {
    assert forall|j: int| 0 <= j < 3 implies #[trigger] t[i][j] == w[i][j] by { assert(in2(m.dimv(), (i, j))); let q = i * 3 + j; assert(q / 3 == i && q % 3 == j); assert(m@[(i, j)] == s[q]); }
    assert(t[i] =~= w[i]); }
  assert(t =~= w); }
// one more timestep
pub proof fn lemma_step(c: Fields, filter: Seq<char>, dt: F, names: Seq<&str>, f: File, rs: Seq<Rec>, r: Rec)
    requires all_recs(c, filter, dt, names, rs), forward(rs), held(f, rs), is_rec(c, filter, dt, names[rs.len() as int]@, r), !flt(r.time, before(rs, rs.len() as int)), step_holds(f, rs.len() as int, r)
    ensures all_recs(c, filter, dt, names, rs.push(r)), forward(rs.push(r)), held(f, rs.push(r)), times(rs.push(r)) == times(rs).push(r.time)
{ reveal(held); reveal(all_recs); reveal(forward); let t = rs.push(r);
  assert forall|k: int| 0 <= k < t.len() implies is_rec(c, filter, dt, names[k]@, #[trigger] t[k]) by { if k < rs.len() { assert(t[k] == rs[k]); } }
  assert forall|k: int| 0 <= k < t.len() implies !flt((#[trigger] t[k]).time, before(t, k)) by { if k < rs.len() { assert(t[k] == rs[k]); } assert(before(t, k) == before(rs, k)); }
  assert forall|k: int| 0 <= k < t.len() implies step_holds(f, k, #[trigger] t[k]) by { if k < rs.len() { assert(t[k] == rs[k]); } }
  assert(times(t) =~= times(rs).push(r.time)); }
pub proof fn lemma_none(c: Fields, filter: Seq<char>, dt: F, names: Seq<&str>, f: File) ensures all_recs(c, filter, dt, names, Seq::empty()), forward(Seq::empty()), held(f, Seq::empty()), greatest(Seq::empty(), 0) { reveal(held); reveal(all_recs); reveal(forward); reveal(greatest); }
// how many particles the first n files have
pub open spec fn count(c: Fields, names: Seq<&str>, n: int) -> int decreases n { if n <= 0 { 0 } else { count(c, names, n - 1) + ids(c, names[n - 1]@).len() } }
pub proof fn lemma_count(c: Fields, names: Seq<&str>, n: int, m: int) requires 0 <= n <= m ensures 0 <= count(c, names, n) <= count(c, names, m) decreases m { if n < m { lemma_count(c, names, n, m - 1); } else if 0 < n { lemma_count(c, names, n - 1, n - 1); } }
// the reader returns file k as timestep k (contracts/tdata.vc)
pub proof fn lemma_read_back(f: File, rs: Seq<Rec>)
    requires held(f, rs), summary_ok(f, rs), 1 <= rs.len() < 0x8000_0000, rs.len() <= usize::MAX / 4, forall|k: int| 0 <= k < rs.len() ==> !(#[trigger] grp(f, k)).has("density"@),
    ensures file_ok(f), steps(f) == rs.len(), forall|k: int, s: Timestep| 0 <= k < steps(f) && #[trigger] is_record(f, k, s) ==> ({ let r = rs[k];
        s.time == r.time && s.position@.len() == r.pos.len() && s.velocity.dimv() == (r.vel.len() as int, 3int) && s.radius@ == r.radii && s.particleid@ == reals(r.ids) && s.ptype@ == reals(r.kinds) && s.clouds@ == ones(r.ids.len())
        && (forall|i: int| 0 <= i < r.pos.len() ==> (#[trigger] s.position@[i])@ == seq![r.pos[i][0], r.pos[i][1], r.pos[i][2]]) && forall|i: int, j: int| 0 <= i < r.vel.len() && 0 <= j < 3 ==> #[trigger] s.velocity@[(i, j)] == r.vel[i][j] }),
{
    reveal(step_holds); reveal(held);
    assert forall|k: int| 0 <= k < steps(f) implies #[trigger] step_ok(f, k) by { assert(step_holds(f, k, rs[k])); assert(!grp(f, k).has("density"@)); }
    assert forall|k: int, s: Timestep| 0 <= k < steps(f) && #[trigger] is_record(f, k, s) implies ({ let r = rs[k];
        s.time == r.time && s.position@.len() == r.pos.len() && s.velocity.dimv() == (r.vel.len() as int, 3int) && s.radius@ == r.radii && s.particleid@ == reals(r.ids) && s.ptype@ == reals(r.kinds) && s.clouds@ == ones(r.ids.len())
        && (forall|i: int| 0 <= i < r.pos.len() ==> (#[trigger] s.position@[i])@ == seq![r.pos[i][0], r.pos[i][1], r.pos[i][2]]) && forall|i: int, j: int| 0 <= i < r.vel.len() && 0 <= j < 3 ==> #[trigger] s.velocity@[(i, j)] == r.vel[i][j] }) by {
        let r = rs[k]; assert(step_holds(f, k, rs[k])); let x = grp(f, k).ds("position"@).two::<F>(); let v = grp(f, k).ds("velocity"@).two::<F>();
        assert forall|i: int| 0 <= i < r.pos.len() implies (#[trigger] s.position@[i])@ == seq![r.pos[i][0], r.pos[i][1], r.pos[i][2]] by { assert(in2((r.pos.len() as int, 3int), (i, 0int)) && in2((r.pos.len() as int, 3int), (i, 1int)) && in2((r.pos.len() as int, 3int), (i, 2int))); assert(x@[(i, 0int)] == r.pos[i][0] && x@[(i, 1int)] == r.pos[i][1] && x@[(i, 2int)] == r.pos[i][2]); assert((s.position@[i])@ == row3(x, i)); }
        assert forall|i: int, j: int| 0 <= i < r.vel.len() && 0 <= j < 3 implies #[trigger] s.velocity@[(i, j)] == r.vel[i][j] by { assert(in2((r.vel.len() as int, 3int), (i, j))); assert(v@[(i, j)] == r.vel[i][j]); }
    }
}
%end
%raw
// every field unset: what #[derive(Default)] gives (trusted)
impl VTKType { pub open spec fn first() -> VTKType { VTKType::PolyData } }
impl XMLVTKConverter { pub open spec fn unset(self) -> bool { self.velocity_field_name is None && self.id_field_name is None && self.radius_field_name is None && self.type_field_name is None && self.diameter_field_name is None } }
impl LegacyVTKConverter { pub open spec fn unset(self) -> bool { self.velocity_field_name is None && self.id_field_name is None && self.radius_field_name is None && self.type_field_name is None && self.diameter_field_name is None } }
impl core::default::Default for XMLVTKConverter { #[verifier::external_body] fn default() -> (r: XMLVTKConverter) ensures r.unset(), r.file_type == VTKType::PolyData { unimplemented!() } }
impl core::default::Default for LegacyVTKConverter { #[verifier::external_body] fn default() -> (r: LegacyVTKConverter) ensures r.unset() { unimplemented!() } }
pub open spec fn named(o: Option<String>, n: Seq<char>) -> bool { o is Some && o->0@ == n }
%end
%fn src/converter.rs XMLVTKConverter::new
@ret r
@ensures
    r.unset(), r.file_type == vtk_type,
%fn src/converter.rs LegacyVTKConverter::new
@ret r
@ensures
    r.unset(),
%fn src/converter.rs XMLVTKConverter::add_velocity_field
@ret r
@ensures
    named(r.velocity_field_name, name@), r.id_field_name == self.id_field_name, r.radius_field_name == self.radius_field_name, r.type_field_name == self.type_field_name, r.diameter_field_name == self.diameter_field_name, r.file_type == self.file_type,
%fn src/converter.rs XMLVTKConverter::add_id_field
@ret r
@ensures
    named(r.id_field_name, name@), r.velocity_field_name == self.velocity_field_name, r.radius_field_name == self.radius_field_name, r.type_field_name == self.type_field_name, r.diameter_field_name == self.diameter_field_name, r.file_type == self.file_type,
%fn src/converter.rs XMLVTKConverter::add_radius_field
@ret r
@ensures
    named(r.radius_field_name, name@), r.velocity_field_name == self.velocity_field_name, r.id_field_name == self.id_field_name, r.type_field_name == self.type_field_name, r.diameter_field_name == self.diameter_field_name, r.file_type == self.file_type,
%fn src/converter.rs XMLVTKConverter::add_type_field
@ret r
@ensures
    named(r.type_field_name, name@), r.velocity_field_name == self.velocity_field_name, r.id_field_name == self.id_field_name, r.radius_field_name == self.radius_field_name, r.diameter_field_name == self.diameter_field_name, r.file_type == self.file_type,
%fn src/converter.rs XMLVTKConverter::add_diameter_field
@ret r
@ensures
    named(r.diameter_field_name, name@), r.velocity_field_name == self.velocity_field_name, r.id_field_name == self.id_field_name, r.radius_field_name == self.radius_field_name, r.type_field_name == self.type_field_name, r.file_type == self.file_type,
%fn src/converter.rs LegacyVTKConverter::add_velocity_field
@ret r
@ensures
    named(r.velocity_field_name, name@), r.id_field_name == self.id_field_name, r.radius_field_name == self.radius_field_name, r.type_field_name == self.type_field_name, r.diameter_field_name == self.diameter_field_name,
%fn src/converter.rs LegacyVTKConverter::add_id_field
@ret r
@ensures
    named(r.id_field_name, name@), r.velocity_field_name == self.velocity_field_name, r.radius_field_name == self.radius_field_name, r.type_field_name == self.type_field_name, r.diameter_field_name == self.diameter_field_name,
%fn src/converter.rs LegacyVTKConverter::add_radius_field
@ret r
@ensures
    named(r.radius_field_name, name@), r.velocity_field_name == self.velocity_field_name, r.id_field_name == self.id_field_name, r.type_field_name == self.type_field_name, r.diameter_field_name == self.diameter_field_name,
%fn src/converter.rs LegacyVTKConverter::add_type_field
@ret r
@ensures
    named(r.type_field_name, name@), r.velocity_field_name == self.velocity_field_name, r.id_field_name == self.id_field_name, r.radius_field_name == self.radius_field_name, r.diameter_field_name == self.diameter_field_name,
%fn src/converter.rs LegacyVTKConverter::add_diameter_field
@ret r
@ensures
    named(r.diameter_field_name, name@), r.velocity_field_name == self.velocity_field_name, r.id_field_name == self.id_field_name, r.radius_field_name == self.radius_field_name, r.type_field_name == self.type_field_name,
%contract convert
@attr #[verifier::spinoff_prover]
@requires
    filenames@.len() < 0x8000_0000, forall|k: int| 0 <= k < filenames@.len() ==> usable(self.fields(), #[trigger] filenames@[k]@), count(self.fields(), filenames@, filenames@.len() as int) <= usize::MAX,
@ensures
    filenames@.len() > 0, self.fields().id is Some, self.fields().radius is Some || self.fields().diameter is Some, self.fields().velocity is Some,
    exists|f: File, rs: Seq<Rec>| #[trigger] created_as(f, outname@) && rs.len() == filenames@.len() && #[trigger] all_recs(self.fields(), filter@, timestep, filenames@, rs) && forward(rs) && held(f, rs) && summary_ok(f, rs),
@entry
    let ghost c = self.fields(); let ghost names = filenames@; let ghost flt_ = filter@; let ghost mut rs = Seq::<Rec>::empty(); let ghost mut sums: M2 = arbitrary(); let ghost mut mag1: Seq<F> = arbitrary();
@panic 0
    assert(names.len() == 0);
@panic 1
    assert(flt(time_of(flt_, timestep, names[__i0 - 1]@), before(rs, __i0 - 1)));
@panic 2
    assert(c.id is None);
@panic 3
    assert(c.radius is None && c.diameter is None);
@panic 4
    assert(c.velocity is None);
@before mean_counter#0
    proof { assert(velocity_mag@ =~= seq![F_MAX(), fl(0, 1), F_MIN()]); lemma_nothing(dimensions@, velocity@, velocity_mag@); lemma_none(c, flt_, timestep, names, output_file); }
@loop 0
    invariant __i0 <= __n0, __n0 == names.len(), names.len() < 0x8000_0000, c == self.fields(), flt_ == filter@, re.pattern() == flt_, names_at(__c0@, names), rs.len() == __i0,
        forall|k: int| 0 <= k < names.len() ==> usable(c, #[trigger] names[k]@), 
        __i0 > 0 ==> c.id is Some && (c.radius is Some || c.diameter is Some) && c.velocity is Some,
        all_recs(c, flt_, timestep, names, rs), forward(rs), held(output_file, rs), greatest(rs, nparticles), time_array@ =~= times(rs), time@.len() == 2, time@[1] == before(rs, __i0 as int), __i0 > 0 ==> time@[0] == rs[0].time,
        old_time == before(rs, __i0 as int), __i0 > 0 ==> sample_rate == fsub(rs[__i0 - 1].time, before(rs, __i0 - 1)), mean_counter == vels(rs).len(), mean_counter == count(c, names, __i0 as int), count(c, names, names.len() as int) <= usize::MAX,
        dimensions.dimv() == (2int, 3int), velocity.dimv() == (3int, 3int), velocity_mag@.len() == 3, speed_sum(velocity_mag@, vels(rs)),
        forall|j: int| 0 <= j < 3 ==> #[trigger] reach_sum(dimensions@, poss(rs), j), forall|j: int| 0 <= j < 3 ==> #[trigger] spread_sum(velocity@, vels(rs), j),
    decreases __n0 - __i0
@body 0
    let ghost a = __i0 - 1; let ghost name = names[a]@; assert(usable(c, names[a]@)); let ghost n = ids(c, name).len() as int; let ghost top0 = nparticles;
    proof { lemma_count(c, names, __i0 as int, names.len() as int); }
@after current_time
    proof { assert(number(flt_, name) == Some(current_step)); assert(current_time == time_of(flt_, timestep, name)); }
@after sort_list
    let ghost p = choose|p: Seq<int>| #[trigger] perm(p, n) && sort_list@.len() == p.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] sort_list@[i] == p[i]) && id_order(ids(c, name), p);
@after max_particle
    proof { assert(particle_ids@ =~= picks(ids(c, name), p)); }
@closure 0
    |__p0: &F| -> (r: F) ensures r == fmul(*__p0, fl(1, 2))
@after particle_radius
    proof { assert(particle_radius@ =~= picks(radii(c, name), p)); }
@after particle_type
    proof { assert(particle_type@ =~= picks(kinds(c, name), p)); }
@after particle_velocity#0
    let ghost sv = particle_velocity@;
    proof { assert(sv.len() == 3 * n); assert forall|i: int| 0 <= i < sv.len() implies #[trigger] sv[i] == velocities(c, name)[3 * p[i / 3] + i % 3] by {} }
@after particle_velocity#1
    let ghost vr = table(particle_velocity); let ghost vs = vels(rs);
    proof { assert(particle_velocity.dimv() == (n, 3int)); assert(vs + first(vr, 0) =~= vs); lemma_rows(velocities(c, name), p, sv, particle_velocity); }
@loop 1
    invariant __i1 <= __n1, __n1 == vr.len(), vr.len() == n, __c1@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] __c1@[i])@ == vr[i], forall|i: int| 0 <= i < n ==> (#[trigger] vr[i]).len() == 3, velocity.dimv() == (3int, 3int), velocity_mag@.len() == 3,
        speed_sum(velocity_mag@, vs + first(vr, __i1 as int)), forall|j: int| 0 <= j < 3 ==> #[trigger] spread_sum(velocity@, vs + first(vr, __i1 as int), j),
    decreases __n1 - __i1
@body 1
    let ghost row = vr[__i1 - 1]; let ghost u = vs + first(vr, __i1 - 1); let ghost mag0 = velocity_mag@;
    proof { lemma_first(vs, vr, __i1 as int); assert(vel@ == row); }
@loop 2
    invariant __i2 <= __n2, __n2 == 3, velocity.dimv() == (3int, 3int), vel@ == row, row.len() == 3, forall|j: int| 0 <= j < 3 ==> #[trigger] spread_sum(velocity@, upto(u, row, j, __i2 as int), j),
    decreases __n2 - __i2
@body 2
    let ghost v0 = velocity@; assert(spread_sum(v0, upto(u, row, i as int, __i2 - 1), i as int));
@end 2
    proof { lemma_spread1(u, row, i as int, v0, velocity@);
        assert forall|j: int| 0 <= j < 3 implies #[trigger] spread_sum(velocity@, upto(u, row, j, __i2 as int), j) by { if j != i { assert(spread_sum(v0, upto(u, row, j, __i2 - 1), j)); lemma_spread0(upto(u, row, j, __i2 as int), j, v0, velocity@); } } }
@closure 1
    |__p0: &F| -> (r: F) ensures r == fmul(*__p0, *__p0)
@after vel_mag
    assert(vel_mag == speed(row));
@end 1
    proof { lemma_speed1(u, row, mag0, velocity_mag@); assert forall|j: int| 0 <= j < 3 implies #[trigger] spread_sum(velocity@, vs + first(vr, __i1 as int), j) by { assert(spread_sum(velocity@, upto(u, row, j, 3), j)); } }
@after particle_positions#0
    let ghost sx = particle_positions@;
    proof { assert(sx.len() == 3 * n); assert forall|i: int| 0 <= i < sx.len() implies #[trigger] sx[i] == vtk_points::<F>(c.src, name)[3 * p[i / 3] + i % 3] by {} }
@after particle_positions#1
    let ghost xr = table(particle_positions); let ghost xs = poss(rs);
    proof { assert(vs + first(vr, n) =~= vs + vr); assert(particle_positions.dimv() == (n, 3int)); assert(xs + first(xr, 0) =~= xs); lemma_rows(vtk_points::<F>(c.src, name), p, sx, particle_positions); }
@loop 3
    invariant __i3 <= __n3, __n3 == xr.len(), xr.len() == n, __c3@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] __c3@[i])@ == xr[i], forall|i: int| 0 <= i < n ==> (#[trigger] xr[i]).len() == 3, dimensions.dimv() == (2int, 3int),
        forall|j: int| 0 <= j < 3 ==> #[trigger] reach_sum(dimensions@, xs + first(xr, __i3 as int), j),
    decreases __n3 - __i3
@body 3
    let ghost row = xr[__i3 - 1]; let ghost u = xs + first(xr, __i3 - 1);
    proof { lemma_first(xs, xr, __i3 as int); assert(pos@ == row); }
@loop 4
    invariant __i4 <= __n4, __n4 == 3, dimensions.dimv() == (2int, 3int), pos@ == row, row.len() == 3, forall|j: int| 0 <= j < 3 ==> #[trigger] reach_sum(dimensions@, upto(u, row, j, __i4 as int), j),
    decreases __n4 - __i4
@body 4
    let ghost d0 = dimensions@; assert(reach_sum(d0, upto(u, row, i as int, __i4 - 1), i as int));
@end 4
    proof { lemma_reach1(u, row, i as int, d0, dimensions@);
        assert forall|j: int| 0 <= j < 3 implies #[trigger] reach_sum(dimensions@, upto(u, row, j, __i4 as int), j) by { if j != i { assert(reach_sum(d0, upto(u, row, j, __i4 - 1), j)); lemma_reach0(upto(u, row, j, __i4 as int), j, d0, dimensions@); } } }
@end 3
    proof { assert forall|j: int| 0 <= j < 3 implies #[trigger] reach_sum(dimensions@, xs + first(xr, __i3 as int), j) by { assert(reach_sum(dimensions@, upto(u, row, j, 3), j)); } }
@end 0
    proof {
        let rec = Rec { time: current_time, ids: particle_ids@, radii: particle_radius@, kinds: particle_type@, vel: vr, pos: xr }; let r0 = rs;
        assert(xs + first(xr, n) =~= xs + xr); lemma_push(r0, rec); lemma_greatest(r0, rec, top0, max_particle); rs = r0.push(rec);
        assert(in_order_of(c, name, p, rec)); assert(is_rec(c, flt_, timestep, name, rec));
        assert(step_holds(output_file, a, rec)) by { reveal(step_holds); assert(ppclouds@.len() == n); assert(reals(ppclouds@) =~= ones(particle_ids@.len())); }
        lemma_step(c, flt_, timestep, names, output_file, r0, rec);
    }
@post 0
    proof { sums = velocity@; mag1 = velocity_mag@; }
@exit
    proof { let e = output_file.attr_("dimensions"@).two::<F>()@; let w = output_file.attr_("velocity"@).two::<F>()@; let v = vels(rs);
        reveal(speed_sum);
        assert forall|j: int| #![trigger e[(0, j)]] #![trigger e[(1, j)]] 0 <= j < 3 implies e[(0, j)] == dimensions@[(0, j)] && e[(1, j)] == dimensions@[(1, j)] by { assert(in2((2int, 3int), (0int, j))); assert(in2((2int, 3int), (1int, j))); }
        assert forall|j: int| #![trigger w[(j, 0)]] #![trigger w[(j, 1)]] #![trigger w[(j, 2)]] 0 <= j < 3 implies w[(j, 0)] == sums[(j, 0)] && w[(j, 1)] == fdiv(sums[(j, 1)], fl(v.len() as int, 1)) && w[(j, 2)] == sums[(j, 2)] by { assert(in2((3int, 3int), (j, 0int))); assert(in2((3int, 3int), (j, 1int))); assert(in2((3int, 3int), (j, 2int))); }
        assert(speed_sum(mag1, v)); lemma_means(v, sums, w); lemma_extent(poss(rs), dimensions@, e); assert(time@ =~= seq![rs[0].time, rs[rs.len() - 1].time]);
        assert(summary_ok(output_file, rs)); assert(created_as(output_file, outname@)); }
%fn src/converter.rs XMLVTKConverter::write_hdf5_from_files
@use convert
%fn src/converter.rs LegacyVTKConverter::write_hdf5_from_files
@use convert
%raw
// C37: from a folder, the files of the format, without bounding boxes, in natural order of their names
pub open spec fn with_separator(folder: Seq<char>) -> Seq<char> { if ends(folder, seq!['/']) { folder } else { folder + seq!['/'] } }
pub open spec fn extension(s: Src) -> Seq<char> { match s { Src::Legacy => ".vtk"@, Src::Xml(VTKType::PolyData) => ".vtp"@, Src::Xml(VTKType::UnstructuredGrid) => ".vtu"@ } }
pub open spec fn of_format(s: Src, n: Seq<char>) -> bool { (ends(n, ".vtk"@) || ends(n, extension(s))) && !within_text(n, "boundingBox"@) }
// q: where the names are in the listing
pub open spec fn chosen(s: Src, l: Seq<Seq<char>>, q: Seq<int>, names: Seq<&str>) -> bool { q.len() == names.len()
    && (forall|k: int| 0 <= k < q.len() ==> 0 <= #[trigger] q[k] < l.len() && names[k]@ == l[q[k]] && of_format(s, l[q[k]]))
    && (forall|i: int| 0 <= i < l.len() && of_format(s, #[trigger] l[i]) ==> q.contains(i)) && q.no_duplicates() }
pub open spec fn in_natural_order(names: Seq<&str>) -> bool { forall|i: int, j: int| #![trigger names[i], names[j]] 0 <= i < j < names.len() ==> natural(names[i]@, names[j]@) != Ordering::Greater }
pub open spec fn from_folder(s: Src, folder: Seq<char>, names: Seq<&str>) -> bool { in_natural_order(names) && exists|q: Seq<int>| #[trigger] chosen(s, listing(with_separator(folder)), q, names) }
pub open spec fn convertible(c: Fields, names: Seq<&str>) -> bool { names.len() < 0x8000_0000 && (forall|k: int| 0 <= k < names.len() ==> usable(c, #[trigger] names[k]@)) && count(c, names, names.len() as int) <= usize::MAX }
pub open spec fn converted(c: Fields, filter: Seq<char>, dt: F, names: Seq<&str>, outname: Seq<char>) -> bool {
    exists|f: File, rs: Seq<Rec>| #[trigger] created_as(f, outname) && rs.len() == names.len() && #[trigger] all_recs(c, filter, dt, names, rs) && forward(rs) && held(f, rs) && summary_ok(f, rs) }
pub proof fn lemma_chosen(s: Src, l: Seq<Seq<char>>, d: Seq<int>, p: Seq<int>, a: Seq<&str>, b: Seq<&str>) requires chosen(s, l, d, a), perm(p, a.len() as int), moved(a, p, b) ensures chosen(s, l, picks(d, p), b)
{ let q = picks(d, p);
  assert forall|k: int| 0 <= k < q.len() implies 0 <= #[trigger] q[k] < l.len() && b[k]@ == l[q[k]] && of_format(s, l[q[k]]) by { assert(q[k] == d[p[k]]); assert(b[k] == a[p[k]]); }
  assert forall|i: int| 0 <= i < l.len() && of_format(s, #[trigger] l[i]) implies q.contains(i) by { let k = choose|k: int| 0 <= k < d.len() && d[k] == i; lemma_perm_onto(p, a.len() as int, k); let m = choose|m: int| 0 <= m < p.len() && p[m] == k; assert(q[m] == i); }
  assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { assert(p[i] != p[j]); assert(d[p[i]] != d[p[j]]); } }
%end
%contract folder
@attr #[verifier::loop_isolation(false)]
@requires
    forall|names: Seq<&str>| #[trigger] from_folder(self.fields().src, folder@, names) ==> convertible(self.fields(), names),
@ensures
    exists|names: Seq<&str>| #[trigger] from_folder(self.fields().src, folder@, names) && names.len() > 0 && converted(self.fields(), filter@, timestep, names, outname@),
@entry
    let ghost s = self.fields().src; let ghost l = listing(with_separator(folder@)); let ghost mut d = Seq::<int>::empty(); let ghost c = self.fields();
@panic 0
    assert(forall|i: int| 0 <= i < l.len() ==> !of_format(s, #[trigger] l[i]));
@closure 0
    |__p0: Io<DirEntry>| -> (r: Io<PathBuf>) ensures r.val().name() == __p0.val().name()
@closure 1
    |__p0: DirEntry| -> (r: PathBuf) ensures r.name() == __p0.name()
@closure 2
    |__p0: &&str, __p1: &&str| -> (r: Ordering) ensures r == natural((*__p0)@, (*__p1)@)
@after filenames
    proof { assert(system_foldername@ =~= with_separator(folder@)); assert(filenames@.len() == l.len()); }
@loop 0
    invariant __i0 <= __n0, __n0 == l.len(), __c0@.len() == l.len(), forall|i: int| 0 <= i < l.len() ==> (#[trigger] __c0@[i]).name() == l[i], c == self.fields(), s == c.src,
        d.len() == out_vec@.len(), d.no_duplicates(), forall|k: int| 0 <= k < d.len() ==> 0 <= #[trigger] d[k] < __i0 && out_vec@[k]@ == l[d[k]] && of_format(s, l[d[k]]),
        forall|i: int| 0 <= i < __i0 && of_format(s, #[trigger] l[i]) ==> d.contains(i),
    decreases __n0 - __i0
@after filename
    proof { assert(filename@ == l[__i0 - 1]); assert(of_format(s, l[__i0 - 1]) == (ends(filename@, ".vtk"@) && !within_text(filename@, "boundingBox"@) || ends(filename@, extension(s)) && !within_text(filename@, "boundingBox"@))); }
@end 0
    proof { let e = d; d = d.push(__i0 - 1); assert(d[e.len() as int] == __i0 - 1);
        assert forall|i: int| 0 <= i < __i0 && of_format(s, #[trigger] l[i]) implies d.contains(i) by { if i < __i0 - 1 { assert(e.contains(i)); let k = choose|k: int| 0 <= k < e.len() && e[k] == i; assert(d[k] == i); } } }
@before out_vec#2
    let ghost before_sort = out_vec@;
    proof { assert(chosen(s, l, d, before_sort));
        assert forall|a: Seq<char>, b: Seq<char>| #[trigger] natural(b, a) == rev(natural(a, b)) by { ax_natural(a, b, b); }
        assert forall|a: Seq<char>, b: Seq<char>, e: Seq<char>| #![trigger natural(a, b), natural(b, e), natural(a, e)] natural(a, b) != Ordering::Greater && natural(b, e) != Ordering::Greater implies natural(a, e) != Ordering::Greater && (natural(a, e) == Ordering::Equal ==> natural(a, b) == Ordering::Equal && natural(b, e) == Ordering::Equal) by { ax_natural(a, b, e); } }
@after out_vec#2
    let ghost p = choose|p: Seq<int>| #[trigger] perm(p, before_sort.len() as int) && moved(before_sort, p, out_vec@) && forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < p.len() ==> natural(before_sort[p[i]]@, before_sort[p[j]]@) != Ordering::Greater;
    proof { lemma_chosen(s, l, d, p, before_sort, out_vec@);
        assert forall|i: int, j: int| #![trigger out_vec@[i], out_vec@[j]] 0 <= i < j < out_vec@.len() implies natural(out_vec@[i]@, out_vec@[j]@) != Ordering::Greater by { assert(out_vec@[i] == before_sort[p[i]]); assert(out_vec@[j] == before_sort[p[j]]); }
        assert(from_folder(s, folder@, out_vec@)); assert(convertible(c, out_vec@)); }
%fn src/converter.rs XMLVTKConverter::write_hdf5_from_folder
@use folder
%fn src/converter.rs LegacyVTKConverter::write_hdf5_from_folder
@use folder
%raw
pub open spec fn names_at(c: Seq<(usize, &&str)>, names: Seq<&str>) -> bool { c.len() == names.len() && forall|i: int| 0 <= i < names.len() ==> (#[trigger] c[i]).0 == i && *c[i].1 == names[i] }
%end
