%import timesteps.vc
%const src/converter/csv_modes/csv_multi_file_time_step.rs MAX_FAILS
%raw
global size_of usize == 8;
// C39: the table in a file; lines may have different lengths
pub open spec fn table_in(name: Seq<char>, header: bool, delimiter: Seq<char>, comment: Seq<char>) -> Array2<F> { csv_table(name, CsvS { header, delimiter: bytes(delimiter)[0], double_quote: false, escape: None, flexible: true, comment: Some(bytes(comment)[0]) }) }
// one timestep
pub struct Rec { pub time: F, pub radius: F, pub ids: Seq<F>, pub vel: Seq<Seq<F>>, pub pos: Seq<Seq<F>> }
// column c of the columns asked for
pub open spec fn cell(m: Array2<F>, cols: Seq<i64>, i: int, c: int) -> F { if c < cols.len() { m@[(i, cols[c] as int)] } else { F_NAN() } }
pub open spec fn cells3(m: Array2<F>, cols: Seq<i64>, c: int) -> Seq<Seq<F>> { Seq::new(m.dimv().0 as nat, |i: int| seq![cell(m, cols, i, c), cell(m, cols, i, c + 1), cell(m, cols, i, c + 2)]) }
pub open spec fn rec_of(m: Array2<F>, cols: Seq<i64>, time: F, radius: F) -> Rec { Rec { time, radius, ids: Seq::new(m.dimv().0 as nat, |i: int| cell(m, cols, i, 0)), pos: cells3(m, cols, 1), vel: cells3(m, cols, 4) } }
pub open spec fn constant(n: nat, x: F) -> Seq<F> { Seq::new(n, |i: int| x) }
#[verifier::opaque]
pub open spec fn step_holds(f: File, k: int, r: Rec) -> bool { let g = grp(f, k);
    f.has_group(fmt1_("timestep {}"@, k)) && g.has("time"@) && g.ds("time"@).is0::<F>() && g.ds("time"@).scalar::<F>() == r.time && g.has("id"@) && is_one(g.ds("id"@), r.ids) && g.has("radius"@) && is_one(g.ds("radius"@), constant(r.ids.len(), r.radius))
    && g.has("ppcloud"@) && is_one(g.ds("ppcloud"@), constant(r.ids.len(), fl(0, 1))) && g.has("particletype"@) && is_one(g.ds("particletype"@), constant(r.ids.len(), fl(0, 1))) && g.has("velocity"@) && is_rows(g.ds("velocity"@), r.vel) && g.has("position"@) && is_rows(g.ds("position"@), r.pos) }
pub open spec fn interval(rs: Seq<Rec>) -> F { let n = rs.len() as int; if n == 0 { fl(0, 1) } else { fsub(rs[n - 1].time, before(rs, n - 1)) } }
// m is the greatest number of records
pub open spec fn largest(rs: Seq<Rec>, m: int) -> bool { (if rs.len() == 0 { m == 0 } else { exists|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).ids.len() == m }) && forall|k: int| 0 <= k < rs.len() ==> (#[trigger] rs[k]).ids.len() <= m }
pub open spec fn span(t: Seq<F>, s: Seq<F>) -> bool { t.len() == 2 && least_of(s, F_INF(), t[0]) && most_of(s, fneg(F_INF()), t[1]) }
pub open spec fn summary_ok(f: File, rs: Seq<Rec>) -> bool { let n = rs.len() as int;
    f.has_attr("hdf5_up4_type"@) && f.attr_("hdf5_up4_type"@).is0::<u8>() && f.attr_("hdf5_up4_type"@).scalar::<u8>() == 1
    && f.has_attr("particle number"@) && f.attr_("particle number"@).is0::<usize>() && largest(rs, f.attr_("particle number"@).scalar::<usize>() as int)
    && f.has_attr("timesteps"@) && f.attr_("timesteps"@).is0::<usize>() && f.attr_("timesteps"@).scalar::<usize>() == n
    && f.has_attr("sample rate"@) && f.attr_("sample rate"@).is0::<F>() && f.attr_("sample rate"@).scalar::<F>() == interval(rs)
    && f.has_attr("time"@) && f.attr_("time"@).is1::<F>() && span(f.attr_("time"@).one::<F>()@, times(rs)) && f.has("time array"@) && is_one(f.ds("time array"@), times(rs))
    && f.has_attr("dimensions"@) && f.attr_("dimensions"@).is2::<F>() && f.attr_("dimensions"@).two::<F>().dimv() == (2int, 3int) && extent(f.attr_("dimensions"@).two::<F>()@, poss(rs))
    && f.has_attr("velocity"@) && f.attr_("velocity"@).is2::<F>() && f.attr_("velocity"@).two::<F>().dimv() == (3int, 3int) && spread(f.attr_("velocity"@).two::<F>()@, vels(rs))
    && f.has_attr("velocity magnitude"@) && f.attr_("velocity magnitude"@).is1::<F>() && spread1(f.attr_("velocity magnitude"@).one::<F>()@, vels(rs)) }
#[verifier::opaque]
pub open spec fn all_recs(names: Seq<&str>, cols: Seq<i64>, ts: Seq<F>, header: bool, delimiter: Seq<char>, comment: Seq<char>, radius: F, rs: Seq<Rec>) -> bool { forall|k: int| 0 <= k < rs.len() ==> #[trigger] rs[k] == rec_of(table_in(names[k]@, header, delimiter, comment), cols, ts[k], radius) }
pub open spec fn count(names: Seq<&str>, header: bool, delimiter: Seq<char>, comment: Seq<char>, n: int) -> int decreases n { if n <= 0 { 0 } else { count(names, header, delimiter, comment, n - 1) + table_in(names[n - 1]@, header, delimiter, comment).dimv().0 } }
pub proof fn lemma_count(names: Seq<&str>, header: bool, delimiter: Seq<char>, comment: Seq<char>, n: int, m: int) requires 0 <= n <= m, forall|k: int| 0 <= k < m ==> 0 <= table_in(#[trigger] names[k]@, header, delimiter, comment).dimv().0 ensures 0 <= count(names, header, delimiter, comment, n) <= count(names, header, delimiter, comment, m) decreases m { if n < m { lemma_count(names, header, delimiter, comment, n, m - 1); assert(names[m - 1]@ == names[m - 1]@); } else if 0 < n { lemma_count(names, header, delimiter, comment, n - 1, n - 1); } }
pub open spec fn names_at(c: Seq<(usize, &&str)>, names: Seq<&str>) -> bool { c.len() == names.len() && forall|i: int| 0 <= i < names.len() ==> (#[trigger] c[i]).0 == i && *c[i].1 == names[i] }
pub open spec fn refs_at(c: Seq<(usize, &i64)>, cols: Seq<i64>) -> bool { c.len() == cols.len() && forall|i: int| 0 <= i < cols.len() ==> (#[trigger] c[i]).0 == i && *c[i].1 == cols[i] }
// column 0 is free for the time
pub open spec fn beside(m: Array2<F>, cols: Seq<i64>, r: Array2<F>, n: int) -> bool { r.dimv() == (m.dimv().0, 8int) && forall|k: I2| in2(r.dimv(), k) && k.1 > 0 ==> #[trigger] r@[k] == (if k.1 <= n { m@[(k.0, cols[k.1 - 1] as int)] } else { F_NAN() }) }
pub proof fn lemma_rows(m: Array2<F>, cols: Seq<i64>, t: Array2<F>, x: Array2<F>, c: int)
    requires beside(m, cols, t, cols.len() as int), 0 <= c <= 4, m.dimv().0 >= 0, x.dimv() == (t.dimv().0, 3int), forall|k: I2| in2(x.dimv(), k) ==> #[trigger] x@[k] == t@[(k.0, k.1 + c + 1)]
    ensures table(x) == cells3(m, cols, c)
{ let a = table(x); let b = cells3(m, cols, c);
  assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == b[i] by { assert forall|j: int| 0 <= j < 3 implies #[trigger] a[i][j] == b[i][j] by { assert(in2(x.dimv(), (i, j))); assert(x@[(i, j)] == t@[(i, j + c + 1)]); assert(in2(t.dimv(), (i, j + c + 1))); } assert(a[i] =~= b[i]); }
  assert(a =~= b); }
// one more timestep
pub proof fn lemma_step(f: File, rs: Seq<Rec>, r: Rec, t0: Seq<F>, t1: Seq<F>, m: int)
    requires held(f, rs), step_holds(f, rs.len() as int, r), span(t0, times(rs)), t1.len() == 2, lower(t0[0], r.time, t1[0]), higher(t0[1], r.time, t1[1]), largest(rs, m)
    ensures held(f, rs.push(r)), times(rs.push(r)) == times(rs).push(r.time), span(t1, times(rs.push(r))), largest(rs.push(r), if m > r.ids.len() { m } else { r.ids.len() as int })
{ reveal(held); let t = rs.push(r); let s = times(rs); assert(times(t) =~= s.push(r.time));
  assert forall|k: int| 0 <= k < t.len() implies step_holds(f, k, #[trigger] t[k]) by { if k < rs.len() { assert(t[k] == rs[k]); } }
  lemma_least(s, F_INF(), t0[0], r.time, t1[0]); lemma_most(s, fneg(F_INF()), t0[1], r.time, t1[1]);
  if m > r.ids.len() { if rs.len() > 0 { let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).ids.len() == m; assert(t[k].ids.len() == m); } } else { assert(t[rs.len() as int].ids.len() == r.ids.len()); } }
pub proof fn lemma_none(f: File, t: Seq<F>) requires t == seq![F_INF(), fneg(F_INF())] ensures held(f, Seq::empty()), span(t, times(Seq::empty())), largest(Seq::empty(), 0)
{ reveal(held); ax_extremes(); assert(times(Seq::empty()) =~= Seq::<F>::empty()); lemma_empty(Seq::<F>::empty(), F_INF()); lemma_empty(Seq::<F>::empty(), fneg(F_INF())); }
// C39: reading such a file gives the timesteps back
pub open spec fn is_given(s: Timestep, r: Rec) -> bool { let n = r.ids.len();
    s.time == r.time && s.position@.len() == n && s.velocity.dimv() == (n as int, 3int) && s.radius@ == constant(n, r.radius) && s.particleid@ == r.ids && s.ptype@ == constant(n, fl(0, 1)) && s.clouds@ == constant(n, fl(0, 1)) && s.density@ == constant(n, fl(1, 1))
    && (forall|i: int| 0 <= i < n ==> (#[trigger] s.position@[i])@ == seq![r.pos[i][0], r.pos[i][1], r.pos[i][2]]) && forall|i: int, j: int| 0 <= i < n && 0 <= j < 3 ==> #[trigger] s.velocity@[(i, j)] == r.vel[i][j] }
pub proof fn lemma_read_back(f: File, rs: Seq<Rec>)
    requires held(f, rs), summary_ok(f, rs), 1 <= rs.len() < 0x8000_0000, rs.len() <= usize::MAX / 4, forall|k: int| 0 <= k < rs.len() ==> !(#[trigger] grp(f, k)).has("density"@), forall|k: int| 0 <= k < rs.len() ==> (#[trigger] rs[k]).pos.len() == rs[k].ids.len() && rs[k].vel.len() == rs[k].ids.len(),
    ensures file_ok(f), steps(f) == rs.len(), forall|k: int, s: Timestep| 0 <= k < steps(f) && #[trigger] is_record(f, k, s) ==> is_given(s, rs[k]),
{
    reveal(step_holds); reveal(held);
    assert forall|k: int| 0 <= k < steps(f) implies #[trigger] step_ok(f, k) by { assert(step_holds(f, k, rs[k])); assert(!grp(f, k).has("density"@)); }
    assert forall|k: int, s: Timestep| 0 <= k < steps(f) && #[trigger] is_record(f, k, s) implies is_given(s, rs[k]) by {
        let r = rs[k]; let n = r.ids.len(); assert(step_holds(f, k, rs[k])); assert(!grp(f, k).has("density"@)); let x = grp(f, k).ds("position"@).two::<F>(); let v = grp(f, k).ds("velocity"@).two::<F>();
        assert(s.density@ =~= constant(n, fl(1, 1)));
        assert forall|i: int| 0 <= i < r.pos.len() implies (#[trigger] s.position@[i])@ == seq![r.pos[i][0], r.pos[i][1], r.pos[i][2]] by { assert(in2((n as int, 3int), (i, 0int)) && in2((n as int, 3int), (i, 1int)) && in2((n as int, 3int), (i, 2int))); assert(x@[(i, 0int)] == r.pos[i][0] && x@[(i, 1int)] == r.pos[i][1] && x@[(i, 2int)] == r.pos[i][2]); assert((s.position@[i])@ == row3(x, i)); }
        assert forall|i: int, j: int| 0 <= i < r.vel.len() && 0 <= j < 3 implies #[trigger] s.velocity@[(i, j)] == r.vel[i][j] by { assert(in2((n as int, 3int), (i, j))); assert(v@[(i, j)] == r.vel[i][j]); }
    }
}
%end
%fn src/converter/csv_modes/csv_multi_file_time_step.rs csv_multi_file_time_step
@attr #[verifier::spinoff_prover]
@requires
    bytes(delimiter@).len() > 0, bytes(comment@).len() > 0, time_@.len() >= filenames@.len(), filenames@.len() < 0x8000_0000,
    forall|k: int| 0 <= k < filenames@.len() ==> (forall|i: int| 0 <= i < columns@.len() ==> 0 <= #[trigger] columns@[i] < table_in((#[trigger] filenames@[k])@, header, delimiter@, comment@).dimv().1),
    count(filenames@, header, delimiter@, comment@, filenames@.len() as int) <= usize::MAX,
@ensures
    columns@.len() == 4 || columns@.len() == 7,
    exists|f: File, rs: Seq<Rec>| #[trigger] created_as(f, outname@) && rs.len() == filenames@.len() && #[trigger] all_recs(filenames@, columns@, time_@, header, delimiter@, comment@, radius, rs) && held(f, rs) && summary_ok(f, rs),
@entry
    let ghost names = filenames@; let ghost cols = columns@; let ghost ts = time_@; let ghost mut rs = Seq::<Rec>::empty(); let ghost mut sums: M2 = arbitrary(); let ghost mut mag1: Seq<F> = arbitrary();
@panic 0
    assert(!(cols.len() == 4 || cols.len() == 7));
@before mean_counter#0
    proof { assert(velocity_mag@ =~= seq![F_MAX(), fl(0, 1), F_MIN()]); lemma_nothing(dimensions@, velocity@, velocity_mag@); assert(time@ =~= seq![F_INF(), fneg(F_INF())]); lemma_none(hdf5file, time@); }
@pre 0
    proof { reveal(all_recs); }
@loop 0
    invariant __i0 <= __n0, __n0 == names.len(), names.len() < 0x8000_0000, names == filenames@, cols == columns@, ts == time_@, ts.len() >= names.len(), names_at(__c0@, names), rs.len() == __i0, bytes(delimiter@).len() > 0, bytes(comment@).len() > 0, cols.len() == 4 || cols.len() == 7,
        forall|k: int| 0 <= k < names.len() ==> (forall|i: int| 0 <= i < cols.len() ==> 0 <= #[trigger] cols[i] < table_in((#[trigger] names[k])@, header, delimiter@, comment@).dimv().1),
        all_recs(names, cols, ts, header, delimiter@, comment@, radius, rs), held(hdf5file, rs), largest(rs, nparticles as int), time_array@ =~= times(rs), time@.len() == 2, span(time@, times(rs)),
        old_time == before(rs, __i0 as int), sample_rate == interval(rs), mean_counter == vels(rs).len(), mean_counter == count(names, header, delimiter@, comment@, __i0 as int), count(names, header, delimiter@, comment@, names.len() as int) <= usize::MAX,
        dimensions.dimv() == (2int, 3int), velocity.dimv() == (3int, 3int), velocity_mag@.len() == 3, speed_sum(velocity_mag@, vels(rs)),
        forall|j: int| 0 <= j < 3 ==> #[trigger] reach_sum(dimensions@, poss(rs), j), forall|j: int| 0 <= j < 3 ==> #[trigger] spread_sum(velocity@, vels(rs), j),
    decreases __n0 - __i0
@body 0
    let ghost a = __i0 - 1; let ghost name = names[a]@; let ghost m = table_in(name, header, delimiter@, comment@); let ghost n = m.dimv().0; let ghost top0 = nparticles; let ghost time0 = time@;
    proof { assert forall|k: int| 0 <= k < names.len() implies 0 <= table_in(#[trigger] names[k]@, header, delimiter@, comment@).dimv().0 by {} lemma_count(names, header, delimiter@, comment@, __i0 as int, names.len() as int); }
@before temp_data
    let ghost time1 = time@; proof { assert(lower(time0[0], current_time, time1[0]) && higher(time0[1], current_time, time1[1])); }
@loop 1
    invariant __i1 <= __n1, __n1 == cols.len(), cols.len() <= 7, data == m, forall|i: int| 0 <= i < cols.len() ==> 0 <= #[trigger] cols[i] < m.dimv().1, refs_at(__c1@, cols), beside(m, cols, temp_data, __i1 as int),
    decreases __n1 - __i1
@end 1
    proof { assert(beside(m, cols, temp_data, __i1 as int)); }
@after timestep_data
    let ghost rec = rec_of(m, cols, current_time, radius);
    proof { assert(beside(m, cols, timestep_data, cols.len() as int)); }
@after particle_id
    proof { assert forall|i: int| 0 <= i < n implies #[trigger] particle_id@[i] == rec.ids[i] by { assert(in2(timestep_data.dimv(), (i, 1int))); } assert(particle_id@ =~= rec.ids); }
@after particle_positions
    let ghost vr = table(particle_velocity); let ghost vs = vels(rs); let ghost xr = table(particle_positions); let ghost xs = poss(rs);
    proof { lemma_rows(m, cols, timestep_data, particle_velocity, 4); lemma_rows(m, cols, timestep_data, particle_positions, 1); assert(vs + first(vr, 0) =~= vs); assert(xs + first(xr, 0) =~= xs); }
@loop 2
    invariant __i2 <= __n2, __n2 == vr.len(), vr.len() == n, __c2@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] __c2@[i])@ == vr[i], forall|i: int| 0 <= i < n ==> (#[trigger] vr[i]).len() == 3, velocity.dimv() == (3int, 3int), velocity_mag@.len() == 3,
        speed_sum(velocity_mag@, vs + first(vr, __i2 as int)), forall|j: int| 0 <= j < 3 ==> #[trigger] spread_sum(velocity@, vs + first(vr, __i2 as int), j),
    decreases __n2 - __i2
@body 2
    let ghost row = vr[__i2 - 1]; let ghost u = vs + first(vr, __i2 - 1); let ghost mag0 = velocity_mag@;
    proof { lemma_first(vs, vr, __i2 as int); assert(vel@ == row); }
@loop 3
    invariant __i3 <= __n3, __n3 == 3, velocity.dimv() == (3int, 3int), vel@ == row, row.len() == 3, forall|j: int| 0 <= j < 3 ==> #[trigger] spread_sum(velocity@, upto(u, row, j, __i3 as int), j),
    decreases __n3 - __i3
@body 3
    let ghost v0 = velocity@; assert(spread_sum(v0, upto(u, row, i as int, __i3 - 1), i as int));
@end 3
    proof { lemma_spread1(u, row, i as int, v0, velocity@);
        assert forall|j: int| 0 <= j < 3 implies #[trigger] spread_sum(velocity@, upto(u, row, j, __i3 as int), j) by { if j != i { assert(spread_sum(v0, upto(u, row, j, __i3 - 1), j)); lemma_spread0(upto(u, row, j, __i3 as int), j, v0, velocity@); } } }
@closure 0
    |__p0: &F| -> (r: F) ensures r == fmul(*__p0, *__p0)
@after vel_mag
    assert(vel_mag == speed(row));
@end 2
    proof { lemma_speed1(u, row, mag0, velocity_mag@); assert forall|j: int| 0 <= j < 3 implies #[trigger] spread_sum(velocity@, vs + first(vr, __i2 as int), j) by { assert(spread_sum(velocity@, upto(u, row, j, 3), j)); } }
@loop 4
    invariant __i4 <= __n4, __n4 == xr.len(), xr.len() == n, __c4@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] __c4@[i])@ == xr[i], forall|i: int| 0 <= i < n ==> (#[trigger] xr[i]).len() == 3, dimensions.dimv() == (2int, 3int),
        forall|j: int| 0 <= j < 3 ==> #[trigger] reach_sum(dimensions@, xs + first(xr, __i4 as int), j),
    decreases __n4 - __i4
@body 4
    let ghost row = xr[__i4 - 1]; let ghost u = xs + first(xr, __i4 - 1);
    proof { lemma_first(xs, xr, __i4 as int); assert(pos@ == row); }
@loop 5
    invariant __i5 <= __n5, __n5 == 3, dimensions.dimv() == (2int, 3int), pos@ == row, row.len() == 3, forall|j: int| 0 <= j < 3 ==> #[trigger] reach_sum(dimensions@, upto(u, row, j, __i5 as int), j),
    decreases __n5 - __i5
@body 5
    let ghost d0 = dimensions@; assert(reach_sum(d0, upto(u, row, i as int, __i5 - 1), i as int));
@end 5
    proof { lemma_reach1(u, row, i as int, d0, dimensions@);
        assert forall|j: int| 0 <= j < 3 implies #[trigger] reach_sum(dimensions@, upto(u, row, j, __i5 as int), j) by { if j != i { assert(reach_sum(d0, upto(u, row, j, __i5 - 1), j)); lemma_reach0(upto(u, row, j, __i5 as int), j, d0, dimensions@); } } }
@end 4
    proof { assert forall|j: int| 0 <= j < 3 implies #[trigger] reach_sum(dimensions@, xs + first(xr, __i4 as int), j) by { assert(reach_sum(dimensions@, upto(u, row, j, 3), j)); } }
@end 0
    proof {
        let r0 = rs; assert(vr == rec.vel && xr == rec.pos); assert(vs + first(vr, n) =~= vs + vr); assert(xs + first(xr, n) =~= xs + xr); lemma_push(r0, rec); rs = r0.push(rec);
        assert(all_recs(names, cols, ts, header, delimiter@, comment@, radius, rs)) by { reveal(all_recs); assert forall|k: int| 0 <= k < rs.len() implies #[trigger] rs[k] == rec_of(table_in(names[k]@, header, delimiter@, comment@), cols, ts[k], radius) by { if k < r0.len() { assert(rs[k] == r0[k]); } } }
        assert(step_holds(hdf5file, a, rec)) by { reveal(step_holds); assert(zero_array@ =~= constant(n as nat, fl(0, 1))); assert(radius_array@ =~= constant(n as nat, radius)); }
        lemma_step(hdf5file, r0, rec, time0, time1, top0 as int);
    }
@post 0
    proof { sums = velocity@; mag1 = velocity_mag@; }
@exit
    proof { let e = hdf5file.attr_("dimensions"@).two::<F>()@; let w = hdf5file.attr_("velocity"@).two::<F>()@; let v = vels(rs);
        reveal(speed_sum);
        assert forall|j: int| #![trigger e[(0, j)]] #![trigger e[(1, j)]] 0 <= j < 3 implies e[(0, j)] == dimensions@[(0, j)] && e[(1, j)] == dimensions@[(1, j)] by { assert(in2((2int, 3int), (0int, j))); assert(in2((2int, 3int), (1int, j))); }
        assert forall|j: int| #![trigger w[(j, 0)]] #![trigger w[(j, 1)]] #![trigger w[(j, 2)]] 0 <= j < 3 implies w[(j, 0)] == sums[(j, 0)] && w[(j, 1)] == fdiv(sums[(j, 1)], fl(v.len() as int, 1)) && w[(j, 2)] == sums[(j, 2)] by { assert(in2((3int, 3int), (j, 0int))); assert(in2((3int, 3int), (j, 1int))); assert(in2((3int, 3int), (j, 2int))); }
        assert(speed_sum(mag1, v)); lemma_means(v, sums, w); lemma_extent(poss(rs), dimensions@, e);
        assert(summary_ok(hdf5file, rs)); assert(created_as(hdf5file, outname@)); }
