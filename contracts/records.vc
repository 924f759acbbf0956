%import tables.vc
%import pdata.vc
%include write
%import stats.vc
%raw
// C36: the table of numbers that is converted
pub open spec fn settings(header: bool, delimiter: Seq<char>, comment: Seq<char>) -> CsvS { CsvS { header, delimiter: bytes(delimiter)[0], double_quote: false, escape: Some(92u8), flexible: false, comment: Some(bytes(comment)[0]) } }
// the columns asked for, in that order
pub open spec fn selected_below(m: Array2<F>, cols: Seq<i64>, r: Array2<F>, n: int) -> bool { r.dimv() == (m.dimv().0, 7int) && forall|k: I2| in2(r.dimv(), k) ==> #[trigger] r@[k] == (if k.1 < n { m@[(k.0, cols[k.1] as int)] } else { F_NAN() }) }
pub open spec fn selected(m: Array2<F>, cols: Seq<i64>, r: Array2<F>) -> bool { selected_below(m, cols, r, cols.len() as int) }
pub open spec fn times(t: Array2<F>) -> Seq<F> { col2(t@, t.dimv(), 0) }
pub open spec fn in_time(m: Array2<F>, r: Array2<F>) -> bool {
    if ascending(times(m)) { r == m } else { r.dimv() == m.dimv() && exists|p: Seq<int>| #[trigger] perm(p, m.dimv().0) && rows(m@, m.dimv(), p, r@) && column_order(m@, 0, p) } }
// times counted from the first one
pub open spec fn from_start(m: Array2<F>, r: Array2<F>) -> bool { r.dimv() == m.dimv() && forall|k: I2| in2(m.dimv(), k) ==> #[trigger] r@[k] == (if k.1 == 0 { fsub(m@[k], m@[(0, 0)]) } else { m@[k] }) }
pub open spec fn evenly(m: Array2<F>, r: Array2<F>) -> bool { let n = m.dimv().0;
    ascending(times(m)) && r.dimv() == (n, 4int) && forall|k: I2| in2(r.dimv(), k) ==> #[trigger] r@[k] == resampled(m@, m.dimv(), fdiv(m@[(n - 1, 0)], fl(n, 1)), n, k.0, k.1) }
pub open spec fn resampled_from(m: Array2<F>, r: Array2<F>) -> bool { exists|c: Array2<F>| #[trigger] from_start(m, c) && evenly(c, r) }
pub open spec fn ordered(m: Array2<F>, cols: Seq<i64>, b: Array2<F>) -> bool { exists|a: Array2<F>| #[trigger] selected(m, cols, a) && in_time(a, b) }
pub open spec fn timed(m: Array2<F>, cols: Seq<i64>, interpolate: bool, c: Array2<F>) -> bool { exists|b: Array2<F>| #[trigger] ordered(m, cols, b) && if interpolate { resampled_from(b, c) } else { c == b } }
pub open spec fn with_velocities(c: Array2<F>, n: int, t: Array2<F>) -> bool { n % 2 == 1 && t.dimv() == (c.dimv().0 - (n - 1), 7int) && forall|k: I2| in2(t.dimv(), k) ==> #[trigger] with_velocity(t@, c@, n, 2, k) }
pub open spec fn prepared(m: Array2<F>, cols: Seq<i64>, interpolate: bool, vel: bool, n: int, t: Array2<F>) -> bool { exists|c: Array2<F>| #[trigger] timed(m, cols, interpolate, c) && if vel { with_velocities(c, n, t) } else { t == c } }
// the rows that are kept: each later than the one kept before
pub open spec fn last_time(s: Seq<F>, q: Seq<int>) -> F { if q.len() == 0 { fneg(F_INF()) } else { s[q.last()] } }
pub open spec fn kept(s: Seq<F>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { let q = kept(s, n - 1); if fle(s[n - 1], last_time(s, q)) { q } else { q.push(n - 1) } } }
// the rows left out directly before row n
pub open spec fn behind(s: Seq<F>, n: int) -> int decreases n { if n <= 0 { 0 } else if fle(s[n - 1], last_time(s, kept(s, n - 1))) { behind(s, n - 1) + 1 } else { 0 } }
pub open spec fn taken(t: Array2<F>, q: Seq<int>, c: int) -> Seq<F> { Seq::new(q.len(), |i: int| t@[(q[i], c)]) }
pub open spec fn speed(t: Array2<F>, k: int) -> F { fsqrt(fsum(seq![fmul(t@[(k, 4)], t@[(k, 4)]), fmul(t@[(k, 5)], t@[(k, 5)]), fmul(t@[(k, 6)], t@[(k, 6)])])) }
pub open spec fn speeds(t: Array2<F>, q: Seq<int>) -> Seq<F> { Seq::new(q.len(), |i: int| speed(t, q[i])) }
// the interval before the last kept row
pub open spec fn interval(s: Seq<F>, q: Seq<int>) -> F decreases q.len() { if q.len() == 0 { fl(0, 1) } else if ffin(last_time(s, q.drop_last())) { fsub(last_time(s, q), last_time(s, q.drop_last())) } else { interval(s, q.drop_last()) } }
pub proof fn lemma_interval(s: Seq<F>, q: Seq<int>, k: int) ensures interval(s, q.push(k)) == (if ffin(last_time(s, q)) { fsub(s[k], last_time(s, q)) } else { interval(s, q) }) { assert(q.push(k).drop_last() =~= q); }
pub proof fn lemma_taken(t: Array2<F>, q: Seq<int>, k: int, c: int) ensures taken(t, q.push(k), c) == taken(t, q, c).push(t@[(k, c)]) { assert(taken(t, q.push(k), c) =~= taken(t, q, c).push(t@[(k, c)])); }
pub proof fn lemma_speeds(t: Array2<F>, q: Seq<int>, k: int) ensures speeds(t, q.push(k)) == speeds(t, q).push(speed(t, k)) { assert(speeds(t, q.push(k)) =~= speeds(t, q).push(speed(t, k))); }
pub proof fn lemma_kept(s: Seq<F>, n: int) requires 0 <= n ensures kept(s, n).len() <= n, forall|i: int| 0 <= i < kept(s, n).len() ==> 0 <= #[trigger] kept(s, n)[i] < n decreases n { if n > 0 { lemma_kept(s, n - 1); } }
// what the file holds
pub open spec fn is_one(c: Container, s: Seq<F>) -> bool { c.is1::<F>() && c.one::<F>()@ == s }
pub open spec fn is_two(c: Container, d: I2, t: Array2<F>, q: Seq<int>, a: int) -> bool { c.is2::<F>() && c.two::<F>().dimv() == d && forall|k: I2| in2(d, k) ==> #[trigger] c.two::<F>()@[k] == t@[(q[k.0], a + k.1)] }
pub open spec fn same_number(q: Seq<int>, x: F) -> Seq<F> { Seq::new(q.len(), |i: int| x) }
pub open spec fn columns_ok(g: Group, t: Array2<F>, q: Seq<int>, radius: F) -> bool {
    g.has("time"@) && is_one(g.ds("time"@), taken(t, q, 0)) && g.has("id"@) && is_one(g.ds("id"@), same_number(q, fl(1, 1))) && g.has("radius"@) && is_one(g.ds("radius"@), same_number(q, radius))
    && g.has("ppcloud"@) && is_one(g.ds("ppcloud"@), same_number(q, fl(1, 1))) && g.has("particletype"@) && is_one(g.ds("particletype"@), same_number(q, fl(1, 1)))
    && g.has("position"@) && is_two(g.ds("position"@), (q.len() as int, 3int), t, q, 1) && g.has("velocity"@) && is_two(g.ds("velocity"@), (q.len() as int, 3int), t, q, 4) }
#[verifier::opaque]
pub open spec fn extent(m: M2, t: Array2<F>, q: Seq<int>) -> bool { forall|j: int| #![trigger m[(0, j)]] #![trigger m[(1, j)]] 0 <= j < 3 ==> least_of(taken(t, q, 1 + j), F_MAX(), m[(0, j)]) && most_of(taken(t, q, 1 + j), F_MIN(), m[(1, j)]) }
#[verifier::opaque]
pub open spec fn spread_sum(m: M2, t: Array2<F>, q: Seq<int>, j: int) -> bool { least_of(taken(t, q, 4 + j), F_MAX(), m[(j, 0)]) && most_of(taken(t, q, 4 + j), F_MIN(), m[(j, 2)]) && m[(j, 1)] == total_of(taken(t, q, 4 + j)) }
#[verifier::opaque]
pub open spec fn spread(m: M2, t: Array2<F>, q: Seq<int>) -> bool { forall|j: int| #![trigger m[(j, 0)]] #![trigger m[(j, 1)]] #![trigger m[(j, 2)]] 0 <= j < 3 ==> least_of(taken(t, q, 4 + j), F_MAX(), m[(j, 0)]) && most_of(taken(t, q, 4 + j), F_MIN(), m[(j, 2)]) && m[(j, 1)] == mean_of(taken(t, q, 4 + j)) }
#[verifier::opaque]
pub open spec fn speed_sum(v: Seq<F>, t: Array2<F>, q: Seq<int>) -> bool { v.len() == 3 && least_of(speeds(t, q), F_MAX(), v[0]) && v[1] == total_of(speeds(t, q)) && most_of(speeds(t, q), F_MIN(), v[2]) }
#[verifier::opaque]
pub open spec fn range_of(v: Seq<F>, t: Array2<F>, q: Seq<int>) -> bool { v.len() == 2 && least_of(taken(t, q, 0), F_INF(), v[0]) && most_of(taken(t, q, 0), fneg(F_INF()), v[1]) }
pub open spec fn summary_ok(f: File, t: Array2<F>, q: Seq<int>) -> bool {
    f.has_attr("hdf5_up4_type"@) && f.attr_("hdf5_up4_type"@).is0::<u8>() && f.attr_("hdf5_up4_type"@).scalar::<u8>() == 2
    && f.has_attr("particle number"@) && f.attr_("particle number"@).is0::<usize>() && f.attr_("particle number"@).scalar::<usize>() == 1
    && f.has_attr("timesteps"@) && f.attr_("timesteps"@).is0::<usize>() && f.attr_("timesteps"@).scalar::<usize>() == q.len()
    && f.has_attr("sample rate"@) && f.attr_("sample rate"@).is0::<F>() && f.attr_("sample rate"@).scalar::<F>() == interval(times(t), q)
    && f.has_attr("time"@) && f.attr_("time"@).is1::<F>() && range_of(f.attr_("time"@).one::<F>()@, t, q) && f.has("time array"@) && is_one(f.ds("time array"@), taken(t, q, 0))
    && f.has_attr("dimensions"@) && f.attr_("dimensions"@).is2::<F>() && f.attr_("dimensions"@).two::<F>().dimv() == (2int, 3int) && extent(f.attr_("dimensions"@).two::<F>()@, t, q)
    && f.has_attr("velocity"@) && f.attr_("velocity"@).is2::<F>() && f.attr_("velocity"@).two::<F>().dimv() == (3int, 3int) && spread(f.attr_("velocity"@).two::<F>()@, t, q)
    && f.has_attr("velocity magnitude"@) && f.attr_("velocity magnitude"@).is1::<F>() && f.attr_("velocity magnitude"@).one::<F>()@.len() == 3
    && least_of(speeds(t, q), F_MAX(), f.attr_("velocity magnitude"@).one::<F>()@[0]) && f.attr_("velocity magnitude"@).one::<F>()@[1] == mean_of(speeds(t, q)) && most_of(speeds(t, q), F_MIN(), f.attr_("velocity magnitude"@).one::<F>()@[2]) }
pub open spec fn converted(f: File, t: Array2<F>, radius: F) -> bool { let q = kept(times(t), t.dimv().0); f.has_group(fmt1_("particle {}"@, 0)) && columns_ok(grp(f, 0), t, q, radius) && summary_ok(f, t, q) }
// what one more kept row a does
pub proof fn lemma_extent(t: Array2<F>, q: Seq<int>, a: int, m: M2, w: M2)
    requires extent(m, t, q), forall|j: int| #![trigger w[(0, j)]] #![trigger w[(1, j)]] 0 <= j < 3 ==> lower(m[(0, j)], t@[(a, 1 + j)], w[(0, j)]) && higher(m[(1, j)], t@[(a, 1 + j)], w[(1, j)])
    ensures extent(w, t, q.push(a))
{ reveal(extent); assert forall|j: int| #![trigger w[(0, j)]] #![trigger w[(1, j)]] 0 <= j < 3 implies least_of(taken(t, q.push(a), 1 + j), F_MAX(), w[(0, j)]) && most_of(taken(t, q.push(a), 1 + j), F_MIN(), w[(1, j)]) by {
    assert(m[(0, j)] == m[(0, j)]); lemma_taken(t, q, a, 1 + j); lemma_least(taken(t, q, 1 + j), F_MAX(), m[(0, j)], t@[(a, 1 + j)], w[(0, j)]); lemma_most(taken(t, q, 1 + j), F_MIN(), m[(1, j)], t@[(a, 1 + j)], w[(1, j)]); } }
pub proof fn lemma_speed(t: Array2<F>, q: Seq<int>, a: int, v: Seq<F>, w: Seq<F>)
    requires speed_sum(v, t, q), w.len() == 3, lower(v[0], speed(t, a), w[0]), w[1] == fadd(v[1], speed(t, a)), higher(v[2], speed(t, a), w[2])
    ensures speed_sum(w, t, q.push(a))
{ reveal(speed_sum); lemma_speeds(t, q, a); let x = speed(t, a); lemma_least(speeds(t, q), F_MAX(), v[0], x, w[0]); lemma_most(speeds(t, q), F_MIN(), v[2], x, w[2]); lemma_total(speeds(t, q), x); }
pub proof fn lemma_range(t: Array2<F>, q: Seq<int>, a: int, v: Seq<F>, w: Seq<F>)
    requires range_of(v, t, q), w.len() == 2, lower(v[0], t@[(a, 0)], w[0]), higher(v[1], t@[(a, 0)], w[1])
    ensures range_of(w, t, q.push(a))
{ reveal(range_of); lemma_taken(t, q, a, 0); let x = t@[(a, 0)]; lemma_least(taken(t, q, 0), F_INF(), v[0], x, w[0]); lemma_most(taken(t, q, 0), fneg(F_INF()), v[1], x, w[1]); }
pub proof fn lemma_spread(t: Array2<F>, q: Seq<int>, a: int, j: int, m: M2, w: M2)
    requires spread_sum(m, t, q, j), lower(m[(j, 0)], t@[(a, 4 + j)], w[(j, 0)]), w[(j, 1)] == fadd(m[(j, 1)], t@[(a, 4 + j)]), higher(m[(j, 2)], t@[(a, 4 + j)], w[(j, 2)])
    ensures spread_sum(w, t, q.push(a), j)
{ reveal(spread_sum); lemma_taken(t, q, a, 4 + j); let v = taken(t, q, 4 + j); let x = t@[(a, 4 + j)]; lemma_least(v, F_MAX(), m[(j, 0)], x, w[(j, 0)]); lemma_most(v, F_MIN(), m[(j, 2)], x, w[(j, 2)]); lemma_total(v, x); }
pub proof fn lemma_nothing(t: Array2<F>, q: Seq<int>, m: M2, w: M2, v: Seq<F>, r: Seq<F>)
    requires q.len() == 0, forall|j: int| #![trigger m[(0, j)]] #![trigger m[(1, j)]] 0 <= j < 3 ==> m[(0, j)] == F_MAX() && m[(1, j)] == F_MIN(), forall|j: int| #![trigger w[(j, 0)]] #![trigger w[(j, 1)]] #![trigger w[(j, 2)]] 0 <= j < 3 ==> w[(j, 0)] == F_MAX() && w[(j, 1)] == fl(0, 1) && w[(j, 2)] == F_MIN(),
        v == seq![F_MAX(), fl(0, 1), F_MIN()], r == seq![F_INF(), fneg(F_INF())]
    ensures extent(m, t, q), forall|j: int| 0 <= j < 3 ==> #[trigger] spread_sum(w, t, q, j), speed_sum(v, t, q), range_of(r, t, q)
{ reveal(extent); reveal(spread_sum); reveal(speed_sum); reveal(range_of); ax_extremes();
  lemma_empty(taken(t, q, 0), F_INF()); lemma_empty(taken(t, q, 0), fneg(F_INF())); lemma_empty(speeds(t, q), F_MAX()); lemma_empty(speeds(t, q), F_MIN());
  assert forall|c: int| 0 <= c implies least_of(#[trigger] taken(t, q, c), F_MAX(), F_MAX()) && most_of(taken(t, q, c), F_MIN(), F_MIN()) && total_of(taken(t, q, c)) == fl(0, 1) by { lemma_empty(taken(t, q, c), F_MAX()); lemma_empty(taken(t, q, c), F_MIN()); } }
pub proof fn lemma_same(t: Array2<F>, q: Seq<int>, j: int, m: M2, w: M2) requires spread_sum(m, t, q, j), w[(j, 0)] == m[(j, 0)], w[(j, 1)] == m[(j, 1)], w[(j, 2)] == m[(j, 2)] ensures spread_sum(w, t, q, j) { reveal(spread_sum); }
// sums to means
pub proof fn lemma_means(t: Array2<F>, q: Seq<int>, m: M2, w: M2)
    requires forall|j: int| 0 <= j < 3 ==> #[trigger] spread_sum(m, t, q, j), forall|j: int| #![trigger w[(j, 0)]] #![trigger w[(j, 1)]] #![trigger w[(j, 2)]] 0 <= j < 3 ==> w[(j, 0)] == m[(j, 0)] && w[(j, 1)] == fdiv(m[(j, 1)], fl(q.len() as int, 1)) && w[(j, 2)] == m[(j, 2)]
    ensures spread(w, t, q)
{ reveal(spread); reveal(spread_sum); assert forall|j: int| #![trigger w[(j, 0)]] #![trigger w[(j, 1)]] #![trigger w[(j, 2)]] 0 <= j < 3 implies least_of(taken(t, q, 4 + j), F_MAX(), w[(j, 0)]) && most_of(taken(t, q, 4 + j), F_MIN(), w[(j, 2)]) && w[(j, 1)] == mean_of(taken(t, q, 4 + j)) by { assert(spread_sum(m, t, q, j)); } }
// the reader returns row k of the table as record k (contracts/pdata.vc)
pub proof fn lemma_read_back(f: File, t: Array2<F>, radius: F)
    requires converted(f, t, radius), 1 <= kept(times(t), t.dimv().0).len() < 4503599627370496, kept(times(t), t.dimv().0).len() <= usize::MAX / 4, !grp(f, 0).has("density"@),
    ensures file_ok(f), parts(f) == 1, steps(f) == kept(times(t), t.dimv().0).len(),
        forall|k: int, s: Timestep| 0 <= k < steps(f) && #[trigger] is_record(f, k, s) ==> ({ let i = kept(times(t), t.dimv().0)[k];
            s.time == t@[(i, 0)] && s.position@.len() == 1 && s.position@[0]@ == seq![t@[(i, 1)], t@[(i, 2)], t@[(i, 3)]] && s.velocity@[(0, 0)] == t@[(i, 4)] && s.velocity@[(0, 1)] == t@[(i, 5)] && s.velocity@[(0, 2)] == t@[(i, 6)] && s.radius@[0] == radius && s.ptype@[0] == fl(1, 1) }),
{
    reveal(range_of); let q = kept(times(t), t.dimv().0); let g = grp(f, 0); let n = steps(f);
    assert forall|p: int| 0 <= p < parts(f) implies #[trigger] part_ok(f, p) by { assert(p == 0); }
    assert forall|k: int, s: Timestep| 0 <= k < steps(f) && #[trigger] is_record(f, k, s) implies ({ let i = q[k];
            s.time == t@[(i, 0)] && s.position@.len() == 1 && s.position@[0]@ == seq![t@[(i, 1)], t@[(i, 2)], t@[(i, 3)]] && s.velocity@[(0, 0)] == t@[(i, 4)] && s.velocity@[(0, 1)] == t@[(i, 5)] && s.velocity@[(0, 2)] == t@[(i, 6)] && s.radius@[0] == radius && s.ptype@[0] == fl(1, 1) }) by {
        let i = q[k]; let x = g.ds("position"@).two::<F>(); let v = g.ds("velocity"@).two::<F>();
        assert forall|j: int| 0 <= j < 3 implies x@[(k, j)] == t@[(i, 1 + j)] && v@[(k, j)] == t@[(i, 4 + j)] by { assert(in2((q.len() as int, 3int), (k, j))); }
        assert(s.position@[0]@ == pos(f, 0, k)); assert(pos(f, 0, k) =~= seq![t@[(i, 1)], t@[(i, 2)], t@[(i, 3)]]);
        assert(s.velocity@[(0, 0)] == vel(f, 0, k, 0)); assert(s.velocity@[(0, 1)] == vel(f, 0, k, 1)); assert(s.velocity@[(0, 2)] == vel(f, 0, k, 2));
        assert(s.radius@[0] == col(f, 0, "radius"@, k)); assert(s.ptype@[0] == col(f, 0, "particletype"@, k));
    }
}
%end
%raw
// the first rows of the arrays are the kept ones
pub open spec fn filled(t: Array2<F>, q: Seq<int>, time: Seq<F>, x: M2, v: M2) -> bool { (forall|i: int| 0 <= i < q.len() ==> #[trigger] time[i] == t@[(q[i], 0)]) && (forall|k: I2| in2((q.len() as int, 3int), k) ==> #[trigger] x[k] == t@[(q[k.0], 1 + k.1)]) && (forall|k: I2| in2((q.len() as int, 3int), k) ==> #[trigger] v[k] == t@[(q[k.0], 4 + k.1)]) }
pub open spec fn upto(q: Seq<int>, a: int, j: int, n: int) -> Seq<int> { if j < n { q.push(a) } else { q } }
pub open spec fn refs_at(c: Seq<(usize, &i64)>, cols: Seq<i64>) -> bool { c.len() == cols.len() && forall|i: int| 0 <= i < cols.len() ==> (#[trigger] c[i]).0 == i && *c[i].1 == cols[i] }
%end
%fn src/converter/convertertools/velocity_paralell.rs velocity_polynom_parallel external
@ret r
