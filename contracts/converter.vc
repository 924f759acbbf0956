%import records.vc
%const src/converter.rs MAX_FAILS
%fn src/converter.rs csv_converter
@attr #[verifier::spinoff_prover]
@requires
    bytes(delimiter@).len() > 0, bytes(comment@).len() > 0, interpolate ==> vel,
    ({ let m = csv_table(filename@, settings(header, delimiter@, comment@));
       &&& 1 <= m.dimv().0 < 0x8000_0000 && columns@.len() <= 7 && (vel ==> m.dimv().0 >= sampling_steps)
       &&& forall|i: int| 0 <= i < columns@.len() ==> 0 <= #[trigger] columns@[i] < m.dimv().1
       &&& columns@.len() > 0 ==> forall|i: int| 0 <= i < m.dimv().0 ==> !fnan(#[trigger] m@[(i, columns@[0] as int)])
       &&& vel ==> forall|c: Array2<F>| #[trigger] timed(m, columns@, interpolate, c) ==> times_finite(c@, c.dimv(), sampling_steps as int) }),
@ensures
    there(filename@), columns@.len() > 0, vel ==> columns@.len() < 5,
    exists|f: File, t: Array2<F>| #[trigger] created_as(f, outname@) && prepared(csv_table(filename@, settings(header, delimiter@, comment@)), columns@, interpolate, vel, sampling_steps as int, t)
        && #[trigger] converted(f, t, radius) && !fnan(t@[(0, 6)]) && forall|n: int| 0 <= n <= t.dimv().0 ==> #[trigger] behind(times(t), n) <= MAX_FAILS,
@entry
    let ghost m = csv_table(filename@, settings(header, delimiter@, comment@));
    let ghost mut ga = m; let ghost mut gb = m; let ghost mut gs = m; let ghost mut gc = m;
@panic 0
    assert(!there(filename@));
@panic 1
    assert(columns@.len() == 0);
@panic 2
    assert(vel && columns@.len() >= 5);
@panic 3
    assert(fnan(t@[(0, 6)]));
@panic 4
    assert(behind(s, __i1 as int) > MAX_FAILS);
@loop 0
    invariant __i0 <= __n0, __n0 == columns@.len(), data == m, columns@.len() <= 7, forall|i: int| 0 <= i < columns@.len() ==> 0 <= #[trigger] columns@[i] < m.dimv().1, refs_at(__c0@, columns@), selected_below(m, columns@, temp_data, __i0 as int),
    decreases __n0 - __i0
@body 0
    let ghost before0 = temp_data@;
@end 0
    proof { assert(selected_below(m, columns@, temp_data, __i0 as int)); }
@after data#2
    proof { ga = data; gb = data; gc = data; assert(selected(m, columns@, ga)); assert(times(ga) =~= col2(ga@, ga.dimv(), 0)); 
        assert forall|i: int| 0 <= i < ga.dimv().0 implies !fnan(#[trigger] ga@[(i, 0)]) by { assert(in2(ga.dimv(), (i, 0int))); assert(!fnan(m@[(i, columns@[0] as int)])); } }
@after data#3
    proof { gb = data; gc = data; assert(in_time(ga, gb)); }
@before data#4
    proof { gs = data; assert(in_time(ga, gb)); assert(from_start(gb, gs)); }
@after data#4
    proof { gc = data; assert(evenly(gs, gc)); assert(resampled_from(gb, gc)); }
@before data#5
    proof { assert(in_time(ga, gb)); assert(ordered(m, columns@, gb)); assert(timed(m, columns@, interpolate, gc)); }
@before data_length
    let ghost t = data; let ghost s = times(t); let ghost d = t.dimv();
    proof { assert(in_time(ga, gb)); assert(ordered(m, columns@, gb)); assert(timed(m, columns@, interpolate, gc)); assert(prepared(m, columns@, interpolate, vel, sampling_steps as int, t)); }
@before total_failcount
    proof { let q = kept(s, 0); assert(q =~= Seq::empty()); assert(velocity_mag@ =~= seq![F_MAX(), fl(0, 1), F_MIN()]); assert(time@ =~= seq![F_INF(), fneg(F_INF())]); lemma_nothing(t, q, dimensions@, velocity@, velocity_mag@, time@); }
@loop 1
    invariant __i1 <= __n1, __n1 == d.0, d.0 < 0x8000_0000, data == t, d == t.dimv(), s == times(t), d.1 == 7, columns@.len() > 0, 0 <= failcount <= MAX_FAILS, failcount == behind(s, __i1 as int), forall|n: int| 0 <= n <= __i1 ==> #[trigger] behind(s, n) <= MAX_FAILS,
        __c1@.len() == __n1, forall|i: int| 0 <= i < __n1 ==> (#[trigger] __c1@[i]).0 == i && __c1@[i].1@ == row2(t@, d, i),
        kept(s, __i1 as int).len() + total_failcount == __i1, old_time == last_time(s, kept(s, __i1 as int)), mean_counter == kept(s, __i1 as int).len(), step == kept(s, __i1 as int).len(),
        time_array@.len() == d.0, pos_array.dimv() == (d.0, 3int), vel_array.dimv() == (d.0, 3int), filled(t, kept(s, __i1 as int), time_array@, pos_array@, vel_array@),
        dimensions.dimv() == (2int, 3int), extent(dimensions@, t, kept(s, __i1 as int)), velocity.dimv() == (3int, 3int), forall|j: int| 0 <= j < 3 ==> #[trigger] spread_sum(velocity@, t, kept(s, __i1 as int), j),
        velocity_mag@.len() == 3, time@.len() == 2, speed_sum(velocity_mag@, t, kept(s, __i1 as int)), range_of(time@, t, kept(s, __i1 as int)), sample_rate == interval(s, kept(s, __i1 as int)),
    decreases __n1 - __i1
@body 1
    let ghost a = __i1 - 1; let ghost q = kept(s, a); let ghost dim0 = dimensions@; let ghost mag0 = velocity_mag@; let ghost time0 = time@;
    proof { lemma_kept(s, a); assert(s[a] == t@[(a, 0)]); assert(line@ =~= row2(t@, d, a)); }
@loop 2
    invariant __i2 <= __n2, __n2 == 3, velocity.dimv() == (3int, 3int), 0 <= a < d.0, d == t.dimv(), d.1 == 7, vel@ =~= seq![t@[(a, 4)], t@[(a, 5)], t@[(a, 6)]], forall|j: int| 0 <= j < 3 ==> #[trigger] spread_sum(velocity@, t, upto(q, a, j, __i2 as int), j),
    decreases __n2 - __i2
@body 2
    let ghost v0 = velocity@; assert(spread_sum(v0, t, upto(q, a, i as int, __i2 - 1), i as int)); assert(vel@[i as int] == t@[(a, 4 + i)]);
@end 2
    proof { lemma_spread(t, q, a, i as int, v0, velocity@);
        assert forall|j: int| 0 <= j < 3 implies #[trigger] spread_sum(velocity@, t, upto(q, a, j, __i2 as int), j) by { if j != i { assert(spread_sum(v0, t, upto(q, a, j, __i2 - 1), j)); lemma_same(t, upto(q, a, j, __i2 as int), j, v0, velocity@); } } }
@after vel_mag
    assert(vel_mag == speed(t, a));
@end 1
    proof { assert(kept(s, __i1 as int) == q.push(a)); lemma_interval(s, q, a); lemma_extent(t, q, a, dim0, dimensions@); lemma_speed(t, q, a, mag0, velocity_mag@); lemma_range(t, q, a, time0, time@);
        assert forall|j: int| 0 <= j < 3 implies #[trigger] spread_sum(velocity@, t, kept(s, __i1 as int), j) by { assert(spread_sum(velocity@, t, upto(q, a, j, 3), j)); } }
@closure 0
    |__p0: &F| -> (r: F) ensures r == fmul(*__p0, *__p0)
@after timesteps#1
    let ghost sums = velocity@; let ghost mag1 = velocity_mag@;
@exit
    proof { let q = kept(s, d.0); let g = grp(hdf5file, 0); let e = hdf5file.attr_("dimensions"@).two::<F>()@; let w = hdf5file.attr_("velocity"@).two::<F>()@;
        reveal(speed_sum);
        assert forall|j: int| #![trigger e[(0, j)]] #![trigger e[(1, j)]] 0 <= j < 3 implies e[(0, j)] == dimensions@[(0, j)] && e[(1, j)] == dimensions@[(1, j)] by { assert(in2((2int, 3int), (0int, j))); assert(in2((2int, 3int), (1int, j))); }
        assert forall|j: int| #![trigger w[(j, 0)]] #![trigger w[(j, 1)]] #![trigger w[(j, 2)]] 0 <= j < 3 implies w[(j, 0)] == sums[(j, 0)] && w[(j, 1)] == fdiv(sums[(j, 1)], fl(q.len() as int, 1)) && w[(j, 2)] == sums[(j, 2)] by { assert(in2((3int, 3int), (j, 0int))); assert(in2((3int, 3int), (j, 1int))); assert(in2((3int, 3int), (j, 2int))); }
        lemma_means(t, q, sums, w); assert(extent(e, t, q)) by { reveal(extent); assert(extent(dimensions@, t, q)); assert forall|j: int| #![trigger e[(0, j)]] #![trigger e[(1, j)]] 0 <= j < 3 implies least_of(taken(t, q, 1 + j), F_MAX(), e[(0, j)]) && most_of(taken(t, q, 1 + j), F_MIN(), e[(1, j)]) by { assert(dimensions@[(0, j)] == e[(0, j)]); } }
        assert(speed_sum(mag1, t, q));
        assert(time_array@ =~= taken(t, q, 0)); assert(particle_id_array@ =~= same_number(q, fl(1, 1))); assert(particle_radius_array@ =~= same_number(q, radius));
        assert(columns_ok(g, t, q, radius)); assert(summary_ok(hdf5file, t, q)); assert(converted(hdf5file, t, radius)); }
