%import records.vc
%raw
global size_of usize == 8;
// the table in the file; lines may have different lengths
pub open spec fn lines_of(name: Seq<char>, header: bool, delimiter: Seq<char>, comment: Seq<char>) -> Array2<F> { csv_table(name, CsvS { flexible: true, ..settings(header, delimiter, comment) }) }
// C38: several trajectories. ts[p] is the table of trajectory p, (p, i) its row i
pub open spec fn kept_of(t: Array2<F>) -> Seq<int> { kept(times(t), t.dimv().0) }
pub open spec fn rows_of(p: int, q: Seq<int>) -> Seq<I2> { Seq::new(q.len(), |i: int| (p, q[i])) }
pub open spec fn every(ts: Seq<Array2<F>>, n: int) -> Seq<I2> decreases n { if n <= 0 { Seq::empty() } else { every(ts, n - 1) + rows_of(n - 1, kept_of(ts[n - 1])) } }
pub open spec fn vals(ts: Seq<Array2<F>>, q: Seq<I2>, c: int) -> Seq<F> { Seq::new(q.len(), |i: int| ts[q[i].0]@[(q[i].1, c)]) }
pub open spec fn vspeeds(ts: Seq<Array2<F>>, q: Seq<I2>) -> Seq<F> { Seq::new(q.len(), |i: int| speed(ts[q[i].0], q[i].1)) }
// the interval before the last kept row of the last trajectory that has two
pub open spec fn interval_after(s: Seq<F>, q: Seq<int>, x: F) -> F decreases q.len() { if q.len() == 0 { x } else if ffin(last_time(s, q.drop_last())) { fsub(last_time(s, q), last_time(s, q.drop_last())) } else { interval_after(s, q.drop_last(), x) } }
pub open spec fn rate(ts: Seq<Array2<F>>, n: int) -> F decreases n { if n <= 0 { fl(0, 1) } else { interval_after(times(ts[n - 1]), kept_of(ts[n - 1]), rate(ts, n - 1)) } }
// the timesteps that the trajectories share
pub open spec fn shared(ts: Seq<Array2<F>>, n: int) -> int decreases n { if n <= 0 { 0 } else { let k = kept_of(ts[n - 1]).len() as int; if n == 1 || k < shared(ts, n - 1) { k } else { shared(ts, n - 1) } } }
pub proof fn lemma_shared(ts: Seq<Array2<F>>, n: int) ensures 0 <= shared(ts, n), forall|p: int| 0 <= p < n ==> shared(ts, n) <= kept_of(#[trigger] ts[p]).len() decreases n { if n > 0 { lemma_shared(ts, n - 1); } }
// what the file holds
pub open spec fn part_columns(g: Group, t: Array2<F>, q: Seq<int>, radius: F, id: F, kind: F) -> bool {
    g.has("time"@) && is_one(g.ds("time"@), taken(t, q, 0)) && g.has("id"@) && is_one(g.ds("id"@), same_number(q, id)) && g.has("radius"@) && is_one(g.ds("radius"@), same_number(q, radius))
    && g.has("ppcloud"@) && is_one(g.ds("ppcloud"@), same_number(q, fl(1, 1))) && g.has("particletype"@) && is_one(g.ds("particletype"@), same_number(q, kind))
    && g.has("position"@) && is_two(g.ds("position"@), (q.len() as int, 3int), t, q, 1) && g.has("velocity"@) && is_two(g.ds("velocity"@), (q.len() as int, 3int), t, q, 4) }
// in one mode trajectories have a number of their own and type 0, in the other both are 1
#[verifier::opaque]
pub open spec fn part_holds(f: File, p: int, t: Array2<F>, radius: F, own: bool) -> bool { f.has_group(fmt1_("particle {}"@, p)) && part_columns(grp(f, p), t, kept_of(t), radius, if own { fl(p, 1) } else { fl(1, 1) }, if own { fl(0, 1) } else { fl(1, 1) }) }
#[verifier::opaque]
pub open spec fn parts_hold(f: File, ts: Seq<Array2<F>>, n: int, radius: F, own: bool) -> bool { forall|p: int| 0 <= p < n ==> part_holds(f, p, #[trigger] ts[p], radius, own) }
pub proof fn lemma_parts(f: File, ts: Seq<Array2<F>>, n: int, radius: F, own: bool) requires 0 <= n, parts_hold(f, ts, n, radius, own), part_holds(f, n, ts[n], radius, own) ensures parts_hold(f, ts, n + 1, radius, own) { reveal(parts_hold); }
pub proof fn lemma_no_parts(f: File, ts: Seq<Array2<F>>, radius: F, own: bool) ensures parts_hold(f, ts, 0, radius, own) { reveal(parts_hold); }
#[verifier::opaque]
pub open spec fn v_extent(m: M2, ts: Seq<Array2<F>>, q: Seq<I2>) -> bool { forall|j: int| #![trigger m[(0, j)]] #![trigger m[(1, j)]] 0 <= j < 3 ==> least_of(vals(ts, q, 1 + j), F_MAX(), m[(0, j)]) && most_of(vals(ts, q, 1 + j), F_MIN(), m[(1, j)]) }
#[verifier::opaque]
pub open spec fn v_spread_sum(m: M2, ts: Seq<Array2<F>>, q: Seq<I2>, j: int) -> bool { least_of(vals(ts, q, 4 + j), F_MAX(), m[(j, 0)]) && most_of(vals(ts, q, 4 + j), F_MIN(), m[(j, 2)]) && m[(j, 1)] == total_of(vals(ts, q, 4 + j)) }
#[verifier::opaque]
pub open spec fn v_spread(m: M2, ts: Seq<Array2<F>>, q: Seq<I2>) -> bool { forall|j: int| #![trigger m[(j, 0)]] #![trigger m[(j, 1)]] #![trigger m[(j, 2)]] 0 <= j < 3 ==> least_of(vals(ts, q, 4 + j), F_MAX(), m[(j, 0)]) && most_of(vals(ts, q, 4 + j), F_MIN(), m[(j, 2)]) && m[(j, 1)] == mean_of(vals(ts, q, 4 + j)) }
#[verifier::opaque]
pub open spec fn v_speed_sum(v: Seq<F>, ts: Seq<Array2<F>>, q: Seq<I2>) -> bool { v.len() == 3 && least_of(vspeeds(ts, q), F_MAX(), v[0]) && v[1] == total_of(vspeeds(ts, q)) && most_of(vspeeds(ts, q), F_MIN(), v[2]) }
#[verifier::opaque]
pub open spec fn v_range(v: Seq<F>, ts: Seq<Array2<F>>, q: Seq<I2>) -> bool { v.len() == 2 && least_of(vals(ts, q, 0), F_INF(), v[0]) && most_of(vals(ts, q, 0), fneg(F_INF()), v[1]) }
pub open spec fn all_summary(f: File, ts: Seq<Array2<F>>) -> bool { let n = ts.len() as int; let q = every(ts, n);
    f.has_attr("hdf5_up4_type"@) && f.attr_("hdf5_up4_type"@).is0::<u8>() && f.attr_("hdf5_up4_type"@).scalar::<u8>() == 2
    && f.has_attr("particle number"@) && f.attr_("particle number"@).is0::<usize>() && f.attr_("particle number"@).scalar::<usize>() == n
    && f.has_attr("timesteps"@) && f.attr_("timesteps"@).is0::<usize>() && f.attr_("timesteps"@).scalar::<usize>() == shared(ts, n)
    && f.has_attr("sample rate"@) && f.attr_("sample rate"@).is0::<F>() && f.attr_("sample rate"@).scalar::<F>() == rate(ts, n)
    && f.has_attr("time"@) && f.attr_("time"@).is1::<F>() && v_range(f.attr_("time"@).one::<F>()@, ts, q)
    && f.has("time array"@) && is_one(f.ds("time array"@), if n == 0 { Seq::empty() } else { taken(ts[0], kept_of(ts[0]), 0).subrange(0, shared(ts, n)) })
    && f.has_attr("dimensions"@) && f.attr_("dimensions"@).is2::<F>() && f.attr_("dimensions"@).two::<F>().dimv() == (2int, 3int) && v_extent(f.attr_("dimensions"@).two::<F>()@, ts, q)
    && f.has_attr("velocity"@) && f.attr_("velocity"@).is2::<F>() && f.attr_("velocity"@).two::<F>().dimv() == (3int, 3int) && v_spread(f.attr_("velocity"@).two::<F>()@, ts, q)
    && f.has_attr("velocity magnitude"@) && f.attr_("velocity magnitude"@).is1::<F>() && f.attr_("velocity magnitude"@).one::<F>()@.len() == 3
    && least_of(vspeeds(ts, q), F_MAX(), f.attr_("velocity magnitude"@).one::<F>()@[0]) && f.attr_("velocity magnitude"@).one::<F>()@[1] == mean_of(vspeeds(ts, q)) && most_of(vspeeds(ts, q), F_MIN(), f.attr_("velocity magnitude"@).one::<F>()@[2]) }
pub open spec fn all_converted(f: File, ts: Seq<Array2<F>>, radius: F, own: bool) -> bool { parts_hold(f, ts, ts.len() as int, radius, own) && all_summary(f, ts) }
// what is refused
pub open spec fn acceptable(ts: Seq<Array2<F>>) -> bool { forall|p: int| 0 <= p < ts.len() ==> acceptable1(#[trigger] ts[p]) }
#[verifier::opaque]
pub open spec fn acceptable1(t: Array2<F>) -> bool { !fnan(t@[(0, 6)]) && forall|n: int| 0 <= n <= t.dimv().0 ==> #[trigger] behind(times(t), n) <= 500 }
// one more row
pub proof fn lemma_vals(ts: Seq<Array2<F>>, q: Seq<I2>, k: I2, c: int) ensures vals(ts, q.push(k), c) == vals(ts, q, c).push(ts[k.0]@[(k.1, c)]) { assert(vals(ts, q.push(k), c) =~= vals(ts, q, c).push(ts[k.0]@[(k.1, c)])); }
pub proof fn lemma_v_extent(ts: Seq<Array2<F>>, q: Seq<I2>, k: I2, m: M2, w: M2)
    requires v_extent(m, ts, q), forall|j: int| #![trigger w[(0, j)]] #![trigger w[(1, j)]] 0 <= j < 3 ==> lower(m[(0, j)], ts[k.0]@[(k.1, 1 + j)], w[(0, j)]) && higher(m[(1, j)], ts[k.0]@[(k.1, 1 + j)], w[(1, j)])
    ensures v_extent(w, ts, q.push(k))
{ reveal(v_extent); assert forall|j: int| #![trigger w[(0, j)]] #![trigger w[(1, j)]] 0 <= j < 3 implies least_of(vals(ts, q.push(k), 1 + j), F_MAX(), w[(0, j)]) && most_of(vals(ts, q.push(k), 1 + j), F_MIN(), w[(1, j)]) by {
    assert(m[(0, j)] == m[(0, j)]); lemma_vals(ts, q, k, 1 + j); let x = ts[k.0]@[(k.1, 1 + j)]; lemma_least(vals(ts, q, 1 + j), F_MAX(), m[(0, j)], x, w[(0, j)]); lemma_most(vals(ts, q, 1 + j), F_MIN(), m[(1, j)], x, w[(1, j)]); } }
pub proof fn lemma_v_speed(ts: Seq<Array2<F>>, q: Seq<I2>, k: I2, v: Seq<F>, w: Seq<F>)
    requires v_speed_sum(v, ts, q), w.len() == 3, lower(v[0], speed(ts[k.0], k.1), w[0]), w[1] == fadd(v[1], speed(ts[k.0], k.1)), higher(v[2], speed(ts[k.0], k.1), w[2])
    ensures v_speed_sum(w, ts, q.push(k))
{ reveal(v_speed_sum); let x = speed(ts[k.0], k.1); assert(vspeeds(ts, q.push(k)) =~= vspeeds(ts, q).push(x)); lemma_least(vspeeds(ts, q), F_MAX(), v[0], x, w[0]); lemma_most(vspeeds(ts, q), F_MIN(), v[2], x, w[2]); lemma_total(vspeeds(ts, q), x); }
pub proof fn lemma_v_range(ts: Seq<Array2<F>>, q: Seq<I2>, k: I2, v: Seq<F>, w: Seq<F>)
    requires v_range(v, ts, q), w.len() == 2, lower(v[0], ts[k.0]@[(k.1, 0)], w[0]), higher(v[1], ts[k.0]@[(k.1, 0)], w[1])
    ensures v_range(w, ts, q.push(k))
{ reveal(v_range); lemma_vals(ts, q, k, 0); let x = ts[k.0]@[(k.1, 0)]; lemma_least(vals(ts, q, 0), F_INF(), v[0], x, w[0]); lemma_most(vals(ts, q, 0), fneg(F_INF()), v[1], x, w[1]); }
pub proof fn lemma_v_spread(ts: Seq<Array2<F>>, q: Seq<I2>, k: I2, j: int, m: M2, w: M2)
    requires v_spread_sum(m, ts, q, j), lower(m[(j, 0)], ts[k.0]@[(k.1, 4 + j)], w[(j, 0)]), w[(j, 1)] == fadd(m[(j, 1)], ts[k.0]@[(k.1, 4 + j)]), higher(m[(j, 2)], ts[k.0]@[(k.1, 4 + j)], w[(j, 2)])
    ensures v_spread_sum(w, ts, q.push(k), j)
{ reveal(v_spread_sum); lemma_vals(ts, q, k, 4 + j); let v = vals(ts, q, 4 + j); let x = ts[k.0]@[(k.1, 4 + j)]; lemma_least(v, F_MAX(), m[(j, 0)], x, w[(j, 0)]); lemma_most(v, F_MIN(), m[(j, 2)], x, w[(j, 2)]); lemma_total(v, x); }
pub proof fn lemma_v_same(ts: Seq<Array2<F>>, q: Seq<I2>, j: int, m: M2, w: M2) requires v_spread_sum(m, ts, q, j), w[(j, 0)] == m[(j, 0)], w[(j, 1)] == m[(j, 1)], w[(j, 2)] == m[(j, 2)] ensures v_spread_sum(w, ts, q, j) { reveal(v_spread_sum); }
pub proof fn lemma_v_nothing(ts: Seq<Array2<F>>, q: Seq<I2>, m: M2, w: M2, v: Seq<F>, r: Seq<F>)
    requires q.len() == 0, forall|j: int| #![trigger m[(0, j)]] #![trigger m[(1, j)]] 0 <= j < 3 ==> m[(0, j)] == F_MAX() && m[(1, j)] == F_MIN(), forall|j: int| #![trigger w[(j, 0)]] #![trigger w[(j, 1)]] #![trigger w[(j, 2)]] 0 <= j < 3 ==> w[(j, 0)] == F_MAX() && w[(j, 1)] == fl(0, 1) && w[(j, 2)] == F_MIN(),
        v == seq![F_MAX(), fl(0, 1), F_MIN()], r == seq![F_INF(), fneg(F_INF())]
    ensures v_extent(m, ts, q), forall|j: int| 0 <= j < 3 ==> #[trigger] v_spread_sum(w, ts, q, j), v_speed_sum(v, ts, q), v_range(r, ts, q)
{ reveal(v_extent); reveal(v_spread_sum); reveal(v_speed_sum); reveal(v_range); ax_extremes();
  lemma_empty(vals(ts, q, 0), F_INF()); lemma_empty(vals(ts, q, 0), fneg(F_INF())); lemma_empty(vspeeds(ts, q), F_MAX()); lemma_empty(vspeeds(ts, q), F_MIN());
  assert forall|c: int| 0 <= c implies least_of(#[trigger] vals(ts, q, c), F_MAX(), F_MAX()) && most_of(vals(ts, q, c), F_MIN(), F_MIN()) && total_of(vals(ts, q, c)) == fl(0, 1) by { lemma_empty(vals(ts, q, c), F_MAX()); lemma_empty(vals(ts, q, c), F_MIN()); } }
// sums to means
pub proof fn lemma_v_means(ts: Seq<Array2<F>>, q: Seq<I2>, m: M2, w: M2)
    requires forall|j: int| 0 <= j < 3 ==> #[trigger] v_spread_sum(m, ts, q, j), forall|j: int| #![trigger w[(j, 0)]] #![trigger w[(j, 1)]] #![trigger w[(j, 2)]] 0 <= j < 3 ==> w[(j, 0)] == m[(j, 0)] && w[(j, 1)] == fdiv(m[(j, 1)], fl(q.len() as int, 1)) && w[(j, 2)] == m[(j, 2)]
    ensures v_spread(w, ts, q)
{ reveal(v_spread); reveal(v_spread_sum); assert forall|j: int| #![trigger w[(j, 0)]] #![trigger w[(j, 1)]] #![trigger w[(j, 2)]] 0 <= j < 3 implies least_of(vals(ts, q, 4 + j), F_MAX(), w[(j, 0)]) && most_of(vals(ts, q, 4 + j), F_MIN(), w[(j, 2)]) && w[(j, 1)] == mean_of(vals(ts, q, 4 + j)) by { assert(v_spread_sum(m, ts, q, j)); } }
pub proof fn lemma_v_extent0(ts: Seq<Array2<F>>, q: Seq<I2>, m: M2, w: M2) requires v_extent(m, ts, q), forall|j: int| #![trigger w[(0, j)]] #![trigger w[(1, j)]] 0 <= j < 3 ==> w[(0, j)] == m[(0, j)] && w[(1, j)] == m[(1, j)] ensures v_extent(w, ts, q)
{ reveal(v_extent); assert forall|j: int| #![trigger w[(0, j)]] #![trigger w[(1, j)]] 0 <= j < 3 implies least_of(vals(ts, q, 1 + j), F_MAX(), w[(0, j)]) && most_of(vals(ts, q, 1 + j), F_MIN(), w[(1, j)]) by { assert(m[(0, j)] == w[(0, j)]); } }
// the rows of the trajectories before p and the first kept ones of p
pub open spec fn so_far(ts: Seq<Array2<F>>, p: int, q: Seq<int>) -> Seq<I2> { every(ts, p) + rows_of(p, q) }
pub proof fn lemma_so_far(ts: Seq<Array2<F>>, p: int, q: Seq<int>, a: int) ensures so_far(ts, p, q.push(a)) == so_far(ts, p, q).push((p, a)), so_far(ts, p, q).len() == every(ts, p).len() + q.len() { assert(so_far(ts, p, q.push(a)) =~= so_far(ts, p, q).push((p, a))); }
pub proof fn lemma_so_far0(ts: Seq<Array2<F>>, p: int) ensures so_far(ts, p, Seq::empty()) == every(ts, p) { assert(so_far(ts, p, Seq::empty()) =~= every(ts, p)); }
pub proof fn lemma_interval_after(s: Seq<F>, q: Seq<int>, k: int, x: F) ensures interval_after(s, q.push(k), x) == (if ffin(last_time(s, q)) { fsub(s[k], last_time(s, q)) } else { interval_after(s, q, x) }) { assert(q.push(k).drop_last() =~= q); }
pub open spec fn upto2(q: Seq<I2>, a: I2, j: int, n: int) -> Seq<I2> { if j < n { q.push(a) } else { q } }
// tables with at most b rows have at most n * b
pub proof fn lemma_every(ts: Seq<Array2<F>>, n: int, b: int) requires 0 <= n <= ts.len(), forall|p: int| 0 <= p < ts.len() ==> 0 <= (#[trigger] ts[p]).dimv().0 <= b ensures every(ts, n).len() <= n * b decreases n
{ if n > 0 { lemma_every(ts, n - 1, b); lemma_kept(times(ts[n - 1]), ts[n - 1].dimv().0); assert((n - 1) * b + b == n * b) by (nonlinear_arith); } else { assert(n * b == 0) by (nonlinear_arith) requires n == 0; } }
// a table of one trajectory
pub open spec fn evenly_to(m: Array2<F>, end: F, most: int, r: Array2<F>) -> bool { ascending(times(m)) && r.dimv() == (most, 4int) && forall|k: I2| in2(r.dimv(), k) ==> #[trigger] r@[k] == resampled(m@, m.dimv(), fdiv(end, fl(most, 1)), most, k.0, k.1) }
pub open spec fn spaced(b: Array2<F>, interpolate: bool, end: F, most: int, c: Array2<F>) -> bool { if interpolate { evenly_to(b, end, most, c) } else { c == b } }
pub open spec fn finished(b: Array2<F>, interpolate: bool, end: F, most: int, vel: bool, t: Array2<F>) -> bool { exists|c: Array2<F>| #[trigger] spaced(b, interpolate, end, most, c) && if vel { with_velocities(c, 9, t) } else { t == c } }
// the reader returns the row of each trajectory at its k-th kept record as record k (contracts/pdata.vc)
pub open spec fn is_row(s: Timestep, ts: Seq<Array2<F>>, p: int, k: int, radius: F, own: bool) -> bool { let t = ts[p]; let i = kept_of(t)[k];
    s.position@[p]@ == seq![t@[(i, 1)], t@[(i, 2)], t@[(i, 3)]] && s.velocity@[(p, 0)] == t@[(i, 4)] && s.velocity@[(p, 1)] == t@[(i, 5)] && s.velocity@[(p, 2)] == t@[(i, 6)] && s.radius@[p] == radius && s.ptype@[p] == (if own { fl(0, 1) } else { fl(1, 1) }) && s.particleid@[p] == fl(p, 1) }
pub proof fn lemma_read_all(f: File, ts: Seq<Array2<F>>, radius: F, own: bool)
    requires all_converted(f, ts, radius, own), 1 <= ts.len(), 1 <= shared(ts, ts.len() as int) < 4503599627370496, ts.len() < 1000, shared(ts, ts.len() as int) <= usize::MAX / 4, forall|p: int| 0 <= p < ts.len() ==> !(#[trigger] grp(f, p)).has("density"@),
    ensures file_ok(f), parts(f) == ts.len(), steps(f) == shared(ts, ts.len() as int),
        forall|k: int, s: Timestep| 0 <= k < steps(f) && #[trigger] is_record(f, k, s) ==> s.time == ts[0]@[(kept_of(ts[0])[k], 0)] && s.position@.len() == ts.len() && forall|p: int| 0 <= p < ts.len() ==> #[trigger] is_row(s, ts, p, k, radius, own),
{
    reveal(v_range); reveal(parts_hold); let n = ts.len() as int; lemma_shared(ts, n);
    assert(attrs_ok(f)); assert(parts(f) == n);
    assert forall|p: int| 0 <= p < parts(f) implies #[trigger] part_ok(f, p) by { assert(part_holds(f, p, ts[p], radius, own)); reveal(part_holds); assert(!grp(f, p).has("density"@)); }
    assert(grp(f, 0).has("time"@) && grp(f, 0).ds("time"@).is1::<F>() && grp(f, 0).ds("time"@).one::<F>()@.len() >= steps(f)) by { assert(part_holds(f, 0, ts[0], radius, own)); reveal(part_holds); }
    assert forall|k: int, s: Timestep| 0 <= k < steps(f) && #[trigger] is_record(f, k, s) implies s.time == ts[0]@[(kept_of(ts[0])[k], 0)] && s.position@.len() == ts.len() && forall|p: int| 0 <= p < ts.len() ==> #[trigger] is_row(s, ts, p, k, radius, own) by {
        assert(part_holds(f, 0, ts[0], radius, own)); reveal(part_holds);
        assert forall|p: int| 0 <= p < n implies #[trigger] is_row(s, ts, p, k, radius, own) by { assert(part_holds(f, p, ts[p], radius, own)); let t = ts[p]; let q = kept_of(t); let i = q[k]; let g = grp(f, p); let x = g.ds("position"@).two::<F>(); let v = g.ds("velocity"@).two::<F>();
            assert forall|j: int| 0 <= j < 3 implies x@[(k, j)] == t@[(i, 1 + j)] && v@[(k, j)] == t@[(i, 4 + j)] by { assert(in2((q.len() as int, 3int), (k, j))); }
            assert(s.position@[p]@ == pos(f, p, k)); assert(pos(f, p, k) =~= seq![t@[(i, 1)], t@[(i, 2)], t@[(i, 3)]]);
            assert(s.velocity@[(p, 0)] == vel(f, p, k, 0)); assert(s.velocity@[(p, 1)] == vel(f, p, k, 1)); assert(s.velocity@[(p, 2)] == vel(f, p, k, 2));
            assert(s.radius@[p] == col(f, p, "radius"@, k)); assert(s.ptype@[p] == col(f, p, "particletype"@, k)); }
    }
}
%end
