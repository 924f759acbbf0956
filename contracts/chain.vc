%import multi.vc
%const src/converter/csv_modes/csv_multi_chain.rs MAX_FAILS
%raw
// the rows at which the time goes back
pub open spec fn breaks(s: Seq<F>, n: int) -> Seq<int> decreases n { if n <= 0 { seq![0int] } else { let q = breaks(s, n - 1); if n - 1 > 0 && flt(s[n - 1], s[n - 2]) { q.push(n - 1) } else { q } } }
pub open spec fn bounds(s: Seq<F>) -> Seq<int> { breaks(s, s.len() as int).push(s.len() as int) }
pub proof fn lemma_breaks(s: Seq<F>, n: int) requires 0 <= n <= s.len() ensures breaks(s, n).len() >= 1, breaks(s, n).len() <= n + 1, breaks(s, n)[0] == 0, n > 0 ==> breaks(s, n).len() <= n && breaks(s, n).last() < n, forall|i: int, j: int| 0 <= i < j < breaks(s, n).len() ==> 0 <= #[trigger] breaks(s, n)[i] < #[trigger] breaks(s, n)[j] decreases n { if n > 0 { lemma_breaks(s, n - 1); } }
// the last time and the number of records of each trajectory
pub open spec fn ends(s: Seq<F>, q: Seq<int>) -> Seq<F> { Seq::new((q.len() - 1) as nat, |j: int| s[q[j + 1] - 1]) }
pub open spec fn longest(d: Seq<F>, n: int) -> F decreases n { if n <= 0 { fl(0, 1) } else { let a = longest(d, n - 1); if flt(d[n - 1], a) { a } else { d[n - 1] } } }
pub open spec fn sizes(q: Seq<int>) -> Seq<int> { Seq::new((q.len() - 1) as nat, |j: int| q[j + 1] - q[j]) }
pub open spec fn largest(d: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { let a = largest(d, n - 1); if a > d[n - 1] { a } else { d[n - 1] } } }
pub proof fn lemma_longest(d: Seq<F>, w: Seq<F>, n: int) requires 0 <= n <= d.len(), w.len() == d.len() + 1, w[0] == fl(0, 1), forall|i: int| 0 <= i < d.len() ==> #[trigger] w[i + 1] == (if flt(d[i], w[i]) { w[i] } else { d[i] }) ensures w[n] == longest(d, n) decreases n { if n > 0 { lemma_longest(d, w, n - 1); assert(w[(n - 1) + 1] == w[n]); } }
pub proof fn lemma_largest(d: Seq<int>, w: Seq<usize>, n: int) requires 0 <= n <= d.len(), w.len() == d.len() + 1, w[0] == 0, forall|i: int| 0 <= i < d.len() ==> #[trigger] w[i + 1] == (if w[i] > d[i] { w[i] as int } else { d[i] }) ensures w[n] == largest(d, n) decreases n { if n > 0 { lemma_largest(d, w, n - 1); assert(w[(n - 1) + 1] == w[n]); } }
pub proof fn lemma_at_most(d: Seq<int>, n: int, b: int) requires 0 <= n <= d.len(), 0 <= b, forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] <= b ensures 0 <= largest(d, n) <= b, forall|i: int| 0 <= i < n ==> #[trigger] d[i] <= largest(d, n) decreases n { if n > 0 { lemma_at_most(d, n - 1, b); } }
// those of the first n trajectories that have ten records
pub open spec fn chosen(q: Seq<int>, n: int) -> Seq<I2> decreases n { if n <= 0 { Seq::empty() } else { let c = chosen(q, n - 1); if q[n] - q[n - 1] < 10 { c } else { c.push((q[n - 1], q[n])) } } }
pub open spec fn cut(a: Array2<F>, k: I2, t: Array2<F>) -> bool { t.dimv() == (k.1 - k.0, 7int) && forall|i: I2| in2(t.dimv(), i) ==> #[trigger] t@[i] == a@[(k.0 + i.0, i.1)] }
pub open spec fn piece(a: Array2<F>, k: I2, interpolate: bool, end: F, most: int, vel: bool, t: Array2<F>) -> bool { exists|b: Array2<F>| #[trigger] cut(a, k, b) && finished(b, interpolate, end, most, vel, t) }
pub open spec fn pieces(a: Array2<F>, ks: Seq<I2>, interpolate: bool, end: F, most: int, vel: bool, ts: Seq<Array2<F>>) -> bool { ts.len() == ks.len() && forall|p: int| 0 <= p < ts.len() ==> piece(a, ks[p], interpolate, end, most, vel, #[trigger] ts[p]) }
pub open spec fn chain(m: Array2<F>, cols: Seq<i64>, interpolate: bool, vel: bool, a: Array2<F>, ts: Seq<Array2<F>>) -> bool { let s = times(a); let q = bounds(s); let n = q.len() - 1;
    selected(m, cols, a) && pieces(a, chosen(q, n), interpolate, longest(ends(s, q), n), largest(sizes(q), n), vel, ts) && (vel && chosen(q, n).len() > 0 ==> cols.len() < 5) }
// no window of nine records spans an infinite time
pub open spec fn windows_ok(m: Array2<F>, cols: Seq<i64>, interpolate: bool) -> bool { forall|a: Array2<F>, k: I2, b: Array2<F>, c: Array2<F>| #[trigger] selected(m, cols, a) && 0 <= k.0 < k.1 <= a.dimv().0 && #[trigger] cut(a, k, b) && #[trigger] spaced(b, interpolate, end_of(a), most_of_all(a), c) ==> times_finite(c@, c.dimv(), 9) }
pub open spec fn end_of(a: Array2<F>) -> F { let q = bounds(times(a)); longest(ends(times(a), q), q.len() - 1) }
pub open spec fn most_of_all(a: Array2<F>) -> int { let q = bounds(times(a)); largest(sizes(q), q.len() - 1) }
// the times of a piece ascend
pub proof fn lemma_breaks_all(s: Seq<F>, n: int, j: int) requires 0 < j < n <= s.len(), flt(s[j], s[j - 1]) ensures breaks(s, n).contains(j) decreases n
{ let q = breaks(s, n - 1); if j < n - 1 { lemma_breaks_all(s, n - 1, j); let i = choose|i: int| 0 <= i < q.len() && q[i] == j; assert(breaks(s, n)[i] == j); } else { assert(breaks(s, n).last() == j); } }
pub proof fn lemma_ascends(a: Array2<F>, i: int, b: Array2<F>) requires 0 <= i < bounds(times(a)).len() - 1, cut(a, (bounds(times(a))[i], bounds(times(a))[i + 1]), b), forall|r: int| 0 <= r < a.dimv().0 ==> !fnan(#[trigger] a@[(r, 0)]), a.dimv().0 > 0, a.dimv().1 == 7
    ensures ascending(times(b))
{ let s = times(a); let q = breaks(s, s.len() as int); let lo = bounds(s)[i]; lemma_breaks(s, s.len() as int); let t = times(b);
  assert forall|r: int| 0 <= r < t.len() - 1 implies fle(#[trigger] t[r], t[r + 1]) by {
    assert(in2(b.dimv(), (r, 0int)) && in2(b.dimv(), (r + 1, 0int))); assert(t[r] == a@[(lo + r, 0)] && t[r + 1] == a@[(lo + (r + 1), 0)]); assert(s[lo + r] == t[r] && s[lo + r + 1] == t[r + 1]);
    if flt(s[lo + r + 1], s[lo + r]) { lemma_breaks_all(s, s.len() as int, lo + r + 1); let j = choose|j: int| 0 <= j < q.len() && q[j] == lo + r + 1; if j <= i { if j < i { assert(q[j] < q[i]); } } else { if i + 1 < q.len() && j > i + 1 { assert(q[i + 1] < q[j]); } } }
    ax_total(t[r], t[r + 1]); } }
pub open spec fn ints(v: Seq<usize>, q: Seq<int>) -> bool { v.len() == q.len() && forall|i: int| 0 <= i < q.len() ==> #[trigger] v[i] == q[i] }
%end
%fn src/converter/csv_modes/csv_multi_chain.rs csv_multi_chain
@attr #[verifier::spinoff_prover]
@requires
    bytes(delimiter@).len() > 0, bytes(comment@).len() > 0, interpolate ==> vel,
    ({ let m = lines_of(filename@, header, delimiter@, comment@);
       &&& 1 <= m.dimv().0 < 200000 && columns@.len() <= 7
       &&& forall|i: int| 0 <= i < columns@.len() ==> 0 <= #[trigger] columns@[i] < m.dimv().1
       &&& columns@.len() > 0 ==> forall|i: int| 0 <= i < m.dimv().0 ==> !fnan(#[trigger] m@[(i, columns@[0] as int)])
       &&& vel ==> windows_ok(m, columns@, interpolate) }),
@ensures
    columns@.len() > 0,
    exists|f: File, a: Array2<F>, ts: Seq<Array2<F>>| #[trigger] created_as(f, outname@) && #[trigger] chain(lines_of(filename@, header, delimiter@, comment@), columns@, interpolate, vel, a, ts)
        && #[trigger] all_converted(f, ts, radius, false) && acceptable(ts),
@entry
    let ghost m = lines_of(filename@, header, delimiter@, comment@); let ghost mut ga = m; let ghost mut ts: Seq<Array2<F>> = Seq::empty();
@panic 0
    assert(columns@.len() == 0);
@panic 1
    assert(interpolate && !vel);
@panic 2
    assert(vel && columns@.len() >= 5);
@panic 3
    assert(fnan(t@[(0, 6)]));
@panic 4
    assert(behind(s, __i4 as int) > 500);
@loop 0
    invariant __i0 <= __n0, __n0 == columns@.len(), data == m, columns@.len() <= 7, forall|i: int| 0 <= i < columns@.len() ==> 0 <= #[trigger] columns@[i] < m.dimv().1, refs_at(__c0@, columns@), selected_below(m, columns@, temp_data, __i0 as int),
    decreases __n0 - __i0
@body 0
    let ghost before0 = temp_data@;
@end 0
    proof { assert(selected_below(m, columns@, temp_data, __i0 as int)); }
@before old_time#0
    proof { ga = data; assert(selected(m, columns@, ga)); assert forall|i: int| 0 <= i < ga.dimv().0 implies !fnan(#[trigger] ga@[(i, 0)]) by { assert(in2(ga.dimv(), (i, 0int))); assert(!fnan(m@[(i, columns@[0] as int)])); } }
    let ghost a = ga; let ghost sa = times(a); let ghost n = a.dimv().0;
@loop 1
    invariant __i1 <= __n1, __n1 == n, n == sa.len(), n < 200000, data == a, __c1@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] __c1@[i]).0 == i && *__c1@[i].1 == sa[i], sa == times(a),
        __i1 > 0 ==> old_time == sa[__i1 - 1], ints(indx_start@, breaks(sa, __i1 as int)), particles + 1 == indx_start@.len(), particles <= __i1, duration@ == ends(sa, breaks(sa, __i1 as int)), ints(steps_per_particle@, sizes(breaks(sa, __i1 as int))),
    decreases __n1 - __i1
@body 1
    let ghost r = __i1 - 1; let ghost qb = breaks(sa, r); proof { lemma_breaks(sa, r); lemma_breaks(sa, __i1 as int); }
@end 1
    proof { let q = breaks(sa, __i1 as int); if q.len() > qb.len() { assert(ends(sa, q) =~= ends(sa, qb).push(sa[r - 1])); assert(sizes(q) =~= sizes(qb).push(r - qb.last())); } assert(duration@ =~= ends(sa, q)); }
@post 1
    proof { lemma_breaks(sa, n); }
@before max_duration
    let ghost q = bounds(sa); let ghost np = (q.len() - 1) as int;
    proof { lemma_breaks(sa, n); let q0 = breaks(sa, n); assert(ends(sa, q) =~= ends(sa, q0).push(sa[n - 1])); assert(sizes(q) =~= sizes(q0).push(n - q0.last())); assert(ints(indx_start@, q)); assert(duration@ == ends(sa, q)); assert(ints(steps_per_particle@, sizes(q))); assert(particles == np); }
@closure 0
    |__p0: F, __p1: &F| -> (r: F) ensures r == (if flt(*__p1, __p0) { __p0 } else { *__p1 })
@closure 1
    |__p0: usize, __p1: &usize| -> (r: usize) ensures r == (if __p0 > *__p1 { __p0 } else { *__p1 })
@after max_duration
    assert(max_duration == longest(ends(sa, q), np)) by { let d = ends(sa, q); let w = choose|w: Seq<F>| w.len() == d.len() + 1 && w[0] == fl(0, 1) && w[d.len() as int] == max_duration && forall|i: int| 0 <= i < d.len() ==> #[trigger] w[i + 1] == (if flt(d[i], w[i]) { w[i] } else { d[i] }); lemma_longest(d, w, np); }
@after max_steps
    assert(max_steps == largest(sizes(q), np)) by { let d = sizes(q); let w = choose|w: Seq<usize>| w.len() == d.len() + 1 && w[0] == 0 && w[d.len() as int] == max_steps && forall|i: int| 0 <= i < d.len() ==> #[trigger] w[i + 1] == (if w[i] > d[i] { w[i] as int } else { d[i] }); lemma_largest(d, w, np); }
    assert(0 <= max_steps <= n && forall|i: int| 0 <= i < np ==> #[trigger] sizes(q)[i] <= max_steps) by { let d = sizes(q);
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] <= n by { } lemma_at_most(d, np, n); }
@loop 2
    invariant __i2 <= __n2, __n2 == np, data == a, a.dimv() == (n, 7int), 1 <= n < 200000, sa == times(a), q == bounds(sa), np == q.len() - 1, ints(indx_start@, q), max_duration == longest(ends(sa, q), np), max_steps == largest(sizes(q), np), max_steps <= n, columns@.len() > 0, selected(m, columns@, a),
        forall|i: int, j: int| 0 <= i < j < q.len() ==> 0 <= #[trigger] q[i] < #[trigger] q[j] <= n, forall|i: int| 0 <= i < np ==> #[trigger] sizes(q)[i] <= max_steps, forall|r: int| 0 <= r < n ==> !fnan(#[trigger] a@[(r, 0)]), interpolate ==> vel, vel ==> windows_ok(m, columns@, interpolate), bytes(delimiter@).len() > 0,
        pieces(a, chosen(q, __i2 as int), interpolate, max_duration, max_steps as int, vel, particle_data@), vel && chosen(q, __i2 as int).len() > 0 ==> columns@.len() < 5, particle_data@.len() <= __i2,
        forall|p: int| 0 <= p < particle_data@.len() ==> (#[trigger] particle_data@[p]).dimv().1 == 7 && 2 <= particle_data@[p].dimv().0 <= n,
    decreases __n2 - __i2
@body 2
    let ghost k = (q[idx as int], q[idx + 1]); let ghost old_data = particle_data@; proof { assert(q[idx as int] < q[idx + 1]); assert(indx_start@[idx as int] == q[idx as int] && indx_start@[idx + 1] == q[idx + 1]); assert(sizes(q)[idx as int] == k.1 - k.0); }
@after temp_data#9
    let ghost b = temp_data; let ghost mut gc = b;
    proof { assert(cut(a, k, b)) by { assert forall|i: I2| in2(b.dimv(), i) implies #[trigger] b@[i] == a@[(k.0 + i.0, i.1)] by { } } lemma_ascends(a, idx as int, b); }
@before temp_data#11
    proof { assert(spaced(b, interpolate, end_of(a), most_of_all(a), temp_data)); assert(cut(a, k, b)); assert(times_finite(temp_data@, temp_data.dimv(), 9)); }
@after temp_data#10
    proof { gc = temp_data; assert(evenly_to(b, max_duration, max_steps as int, temp_data)); }
@end 2
    proof { let ks = chosen(q, __i2 as int); assert(ks == chosen(q, idx as int).push(k)); let t1 = particle_data@.last(); assert(spaced(b, interpolate, max_duration, max_steps as int, gc)); assert(finished(b, interpolate, max_duration, max_steps as int, vel, t1)); assert(piece(a, k, interpolate, max_duration, max_steps as int, vel, t1)); assert(particle_data@ == old_data.push(t1));
        assert forall|p: int| 0 <= p < particle_data@.len() implies piece(a, ks[p], interpolate, max_duration, max_steps as int, vel, #[trigger] particle_data@[p]) by { if p < old_data.len() { assert(particle_data@[p] == old_data[p]); assert(ks[p] == chosen(q, idx as int)[p]); } } }
@after particle_data
    proof { ts = particle_data@; assert(chain(m, columns@, interpolate, vel, ga, ts)); }
@before mean_counter
    let ghost np = ts.len() as int;
@after first_times
    proof { lemma_no_parts(hdf5file, ts, radius, false); assert(every(ts, 0) =~= Seq::empty()); assert(velocity_mag@ =~= seq![F_MAX(), fl(0, 1), F_MIN()]); assert(time@ =~= seq![F_INF(), fneg(F_INF())]); lemma_v_nothing(ts, every(ts, 0), dimensions@, velocity@, velocity_mag@, time@); }
@loop 3
    invariant __i3 <= __n3, __n3 == np, np == ts.len(), particle_data@ == ts, np < 200000, __c3@.len() == __n3, forall|i: int| 0 <= i < __n3 ==> (#[trigger] __c3@[i]).0 == i && *__c3@[i].1 == ts[i],
        forall|p: int| 0 <= p < np ==> (#[trigger] ts[p]).dimv().1 == 7 && 2 <= ts[p].dimv().0 < 200000, forall|p: int| 0 <= p < __i3 ==> acceptable1(#[trigger] ts[p]),
        mean_counter == every(ts, __i3 as int).len(), parts_hold(hdf5file, ts, __i3 as int, radius, false),
        dimensions.dimv() == (2int, 3int), v_extent(dimensions@, ts, every(ts, __i3 as int)), velocity.dimv() == (3int, 3int), forall|j: int| 0 <= j < 3 ==> #[trigger] v_spread_sum(velocity@, ts, every(ts, __i3 as int), j),
        velocity_mag@.len() == 3, time@.len() == 2, v_speed_sum(velocity_mag@, ts, every(ts, __i3 as int)), v_range(time@, ts, every(ts, __i3 as int)),
        sample_rate == rate(ts, __i3 as int), timesteps == shared(ts, __i3 as int), first_times@ == (if __i3 == 0 { Seq::empty() } else { taken(ts[0], kept_of(ts[0]), 0) }),
    decreases __n3 - __i3
@body 3
    let ghost p = __i3 - 1; let ghost t = ts[p]; let ghost s = times(t); let ghost d = t.dimv(); let ghost rate0 = sample_rate;
    proof { assert(*data == t); lemma_every(ts, p, 200000); assert(p * 200000 <= 40000000000) by (nonlinear_arith) requires p < 200000; lemma_so_far0(ts, p); assert(kept(s, 0) =~= Seq::empty()); }
@loop 4
    invariant __i4 <= __n4, __n4 == d.0, d.0 < 200000, *data == t, d == t.dimv(), s == times(t), d.1 == 7, 0 <= p < ts.len(), t == ts[p], 0 <= failcount <= 500, failcount == behind(s, __i4 as int), forall|n: int| 0 <= n <= __i4 ==> #[trigger] behind(s, n) <= 500,
        __c4@.len() == __n4, forall|i: int| 0 <= i < __n4 ==> (#[trigger] __c4@[i]).0 == i && __c4@[i].1@ == row2(t@, d, i), every(ts, p).len() <= 40000000000,
        kept(s, __i4 as int).len() + total_failcount == __i4, old_time == last_time(s, kept(s, __i4 as int)), mean_counter == every(ts, p).len() + kept(s, __i4 as int).len(),
        time_array@.len() == d.0, pos_array.dimv() == (d.0, 3int), vel_array.dimv() == (d.0, 3int), filled(t, kept(s, __i4 as int), time_array@, pos_array@, vel_array@),
        dimensions.dimv() == (2int, 3int), v_extent(dimensions@, ts, so_far(ts, p, kept(s, __i4 as int))), velocity.dimv() == (3int, 3int), forall|j: int| 0 <= j < 3 ==> #[trigger] v_spread_sum(velocity@, ts, so_far(ts, p, kept(s, __i4 as int)), j),
        velocity_mag@.len() == 3, time@.len() == 2, v_speed_sum(velocity_mag@, ts, so_far(ts, p, kept(s, __i4 as int))), v_range(time@, ts, so_far(ts, p, kept(s, __i4 as int))), sample_rate == interval_after(s, kept(s, __i4 as int), rate0),
    decreases __n4 - __i4
@body 4
    let ghost a = __i4 - 1; let ghost q = kept(s, a); let ghost q2 = so_far(ts, p, q); let ghost dim0 = dimensions@; let ghost mag0 = velocity_mag@; let ghost time0 = time@;
    proof { lemma_kept(s, a); assert(s[a] == t@[(a, 0)]); assert(line@ =~= row2(t@, d, a)); }
@loop 5
    invariant __i5 <= __n5, __n5 == 3, velocity.dimv() == (3int, 3int), 0 <= a < d.0, d == t.dimv(), d.1 == 7, 0 <= p < ts.len(), t == ts[p], vel@ =~= seq![t@[(a, 4)], t@[(a, 5)], t@[(a, 6)]], forall|j: int| 0 <= j < 3 ==> #[trigger] v_spread_sum(velocity@, ts, upto2(q2, (p, a), j, __i5 as int), j),
    decreases __n5 - __i5
@body 5
    let ghost v0 = velocity@; assert(v_spread_sum(v0, ts, upto2(q2, (p, a), i as int, __i5 - 1), i as int)); assert(vel@[i as int] == t@[(a, 4 + i)]);
@end 5
    proof { lemma_v_spread(ts, q2, (p, a), i as int, v0, velocity@);
        assert forall|j: int| 0 <= j < 3 implies #[trigger] v_spread_sum(velocity@, ts, upto2(q2, (p, a), j, __i5 as int), j) by { if j != i { assert(v_spread_sum(v0, ts, upto2(q2, (p, a), j, __i5 - 1), j)); lemma_v_same(ts, upto2(q2, (p, a), j, __i5 as int), j, v0, velocity@); } } }
@closure 2
    |__p0: &F| -> (r: F) ensures r == fmul(*__p0, *__p0)
@after vel_mag
    assert(vel_mag == speed(t, a));
@end 4
    proof { assert(kept(s, __i4 as int) == q.push(a)); lemma_so_far(ts, p, q, a); lemma_interval_after(s, q, a, rate0); lemma_v_extent(ts, q2, (p, a), dim0, dimensions@); lemma_v_speed(ts, q2, (p, a), mag0, velocity_mag@); lemma_v_range(ts, q2, (p, a), time0, time@);
        assert forall|j: int| 0 <= j < 3 implies #[trigger] v_spread_sum(velocity@, ts, so_far(ts, p, kept(s, __i4 as int)), j) by { assert(v_spread_sum(velocity@, ts, upto2(q2, (p, a), j, 3), j)); } }
@before kept
    let ghost qk = kept(s, d.0); proof { lemma_kept(s, d.0); }
@end 3
    proof { let g = grp(hdf5file, p); assert(qk == kept_of(t)); assert(every(ts, __i3 as int) == so_far(ts, p, qk)); lemma_so_far(ts, p, qk, 0);
        assert(time_array@ =~= taken(t, qk, 0)); assert(particle_id_array@ =~= same_number(qk, fl(1, 1))); assert(particle_radius_array@ =~= same_number(qk, radius)); assert(ppclouds_array@ =~= same_number(qk, fl(1, 1))); assert(particle_type_array@ =~= same_number(qk, fl(1, 1)));
        assert(part_columns(g, t, qk, radius, fl(1, 1), fl(1, 1))); assert(part_holds(hdf5file, p, t, radius, false)) by { reveal(part_holds); } lemma_parts(hdf5file, ts, p, radius, false);
        assert(acceptable1(t)) by { reveal(acceptable1); } }
@post 3
    proof { lemma_shared(ts, np); }
@before velocity_mag#6
    let ghost sums = velocity@; let ghost mag1 = velocity_mag@;
@exit
    proof { let q = every(ts, np); let e = hdf5file.attr_("dimensions"@).two::<F>()@; let w = hdf5file.attr_("velocity"@).two::<F>()@;
        reveal(v_speed_sum);
        assert forall|j: int| #![trigger e[(0, j)]] #![trigger e[(1, j)]] 0 <= j < 3 implies e[(0, j)] == dimensions@[(0, j)] && e[(1, j)] == dimensions@[(1, j)] by { assert(in2((2int, 3int), (0int, j))); assert(in2((2int, 3int), (1int, j))); }
        assert forall|j: int| #![trigger w[(j, 0)]] #![trigger w[(j, 1)]] #![trigger w[(j, 2)]] 0 <= j < 3 implies w[(j, 0)] == sums[(j, 0)] && w[(j, 1)] == fdiv(sums[(j, 1)], fl(q.len() as int, 1)) && w[(j, 2)] == sums[(j, 2)] by { assert(in2((3int, 3int), (j, 0int))); assert(in2((3int, 3int), (j, 1int))); assert(in2((3int, 3int), (j, 2int))); }
        lemma_v_means(ts, q, sums, w); lemma_v_extent0(ts, q, dimensions@, e); assert(v_speed_sum(mag1, ts, q));
        assert(hdf5file.ds("time array"@).one::<F>()@ =~= (if np == 0 { Seq::empty() } else { taken(ts[0], kept_of(ts[0]), 0).subrange(0, shared(ts, np)) }));
        assert(all_summary(hdf5file, ts)); assert(all_converted(hdf5file, ts, radius, false)); }
