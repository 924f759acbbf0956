%import tdata.vc
%include write
%import stats.vc
%raw
// the statistics of timesteps rs; Rec and step_holds come from the unit
// the time before timestep k
pub open spec fn before(rs: Seq<Rec>, k: int) -> F { if k <= 0 { fl(0, 1) } else { rs[k - 1].time } }
// all rows
pub open spec fn vels(rs: Seq<Rec>) -> Seq<Seq<F>> decreases rs.len() { if rs.len() == 0 { Seq::empty() } else { vels(rs.drop_last()) + rs.last().vel } }
pub open spec fn poss(rs: Seq<Rec>) -> Seq<Seq<F>> decreases rs.len() { if rs.len() == 0 { Seq::empty() } else { poss(rs.drop_last()) + rs.last().pos } }
pub open spec fn times(rs: Seq<Rec>) -> Seq<F> { Seq::new(rs.len(), |i: int| rs[i].time) }
pub open spec fn comp(v: Seq<Seq<F>>, j: int) -> Seq<F> { Seq::new(v.len(), |i: int| v[i][j]) }
pub open spec fn speed(v: Seq<F>) -> F { fsqrt(rsum(seq![fmul(v[0], v[0]), fmul(v[1], v[1]), fmul(v[2], v[2])])) }
pub open spec fn speeds(v: Seq<Seq<F>>) -> Seq<F> { Seq::new(v.len(), |i: int| speed(v[i])) }
#[verifier::opaque]
pub open spec fn reach_sum(m: M2, x: Seq<Seq<F>>, j: int) -> bool { least_of(comp(x, j), F_MAX(), m[(0, j)]) && most_of(comp(x, j), F_MIN(), m[(1, j)]) }
#[verifier::opaque]
pub open spec fn spread_sum(m: M2, v: Seq<Seq<F>>, j: int) -> bool { least_of(comp(v, j), F_MAX(), m[(j, 0)]) && most_of(comp(v, j), F_MIN(), m[(j, 2)]) && m[(j, 1)] == total_of(comp(v, j)) }
#[verifier::opaque]
pub open spec fn speed_sum(s: Seq<F>, v: Seq<Seq<F>>) -> bool { s.len() == 3 && least_of(speeds(v), F_MAX(), s[0]) && s[1] == total_of(speeds(v)) && most_of(speeds(v), F_MIN(), s[2]) }
pub open spec fn extent(m: M2, x: Seq<Seq<F>>) -> bool { forall|j: int| #![trigger m[(0, j)]] #![trigger m[(1, j)]] 0 <= j < 3 ==> least_of(comp(x, j), F_MAX(), m[(0, j)]) && most_of(comp(x, j), F_MIN(), m[(1, j)]) }
pub open spec fn spread(m: M2, v: Seq<Seq<F>>) -> bool { forall|j: int| #![trigger m[(j, 0)]] #![trigger m[(j, 1)]] #![trigger m[(j, 2)]] 0 <= j < 3 ==> least_of(comp(v, j), F_MAX(), m[(j, 0)]) && most_of(comp(v, j), F_MIN(), m[(j, 2)]) && m[(j, 1)] == mean_of(comp(v, j)) }
pub open spec fn spread1(s: Seq<F>, v: Seq<Seq<F>>) -> bool { s.len() == 3 && least_of(speeds(v), F_MAX(), s[0]) && s[1] == mean_of(speeds(v)) && most_of(speeds(v), F_MIN(), s[2]) }
// what the file holds
pub open spec fn is_one(c: Container, s: Seq<F>) -> bool { c.is1::<F>() && c.one::<F>()@ == s }
pub open spec fn is_rows(c: Container, v: Seq<Seq<F>>) -> bool { c.is2::<F>() && c.two::<F>().dimv() == (v.len() as int, 3int) && forall|k: I2| in2((v.len() as int, 3int), k) ==> #[trigger] c.two::<F>()@[k] == v[k.0][k.1] }
#[verifier::opaque]
pub open spec fn held(f: File, rs: Seq<Rec>) -> bool { forall|k: int| 0 <= k < rs.len() ==> step_holds(f, k, #[trigger] rs[k]) }
// one more row a
pub proof fn lemma_reach1(x: Seq<Seq<F>>, a: Seq<F>, j: int, m: M2, w: M2) requires reach_sum(m, x, j), lower(m[(0, j)], a[j], w[(0, j)]), higher(m[(1, j)], a[j], w[(1, j)]) ensures reach_sum(w, x.push(a), j)
{ reveal(reach_sum); assert(comp(x.push(a), j) =~= comp(x, j).push(a[j])); lemma_least(comp(x, j), F_MAX(), m[(0, j)], a[j], w[(0, j)]); lemma_most(comp(x, j), F_MIN(), m[(1, j)], a[j], w[(1, j)]); }
pub proof fn lemma_reach0(x: Seq<Seq<F>>, j: int, m: M2, w: M2) requires reach_sum(m, x, j), w[(0, j)] == m[(0, j)], w[(1, j)] == m[(1, j)] ensures reach_sum(w, x, j) { reveal(reach_sum); }
pub proof fn lemma_spread1(v: Seq<Seq<F>>, a: Seq<F>, j: int, m: M2, w: M2) requires spread_sum(m, v, j), lower(m[(j, 0)], a[j], w[(j, 0)]), w[(j, 1)] == fadd(m[(j, 1)], a[j]), higher(m[(j, 2)], a[j], w[(j, 2)]) ensures spread_sum(w, v.push(a), j)
{ reveal(spread_sum); assert(comp(v.push(a), j) =~= comp(v, j).push(a[j])); let c = comp(v, j); lemma_least(c, F_MAX(), m[(j, 0)], a[j], w[(j, 0)]); lemma_most(c, F_MIN(), m[(j, 2)], a[j], w[(j, 2)]); lemma_total(c, a[j]); }
pub proof fn lemma_spread0(v: Seq<Seq<F>>, j: int, m: M2, w: M2) requires spread_sum(m, v, j), w[(j, 0)] == m[(j, 0)], w[(j, 1)] == m[(j, 1)], w[(j, 2)] == m[(j, 2)] ensures spread_sum(w, v, j) { reveal(spread_sum); }
pub proof fn lemma_speed1(v: Seq<Seq<F>>, a: Seq<F>, s: Seq<F>, w: Seq<F>) requires speed_sum(s, v), w.len() == 3, lower(s[0], speed(a), w[0]), w[1] == fadd(s[1], speed(a)), higher(s[2], speed(a), w[2]) ensures speed_sum(w, v.push(a))
{ reveal(speed_sum); let x = speed(a); assert(speeds(v.push(a)) =~= speeds(v).push(x)); lemma_least(speeds(v), F_MAX(), s[0], x, w[0]); lemma_most(speeds(v), F_MIN(), s[2], x, w[2]); lemma_total(speeds(v), x); }
pub proof fn lemma_nothing(m: M2, w: M2, s: Seq<F>)
    requires forall|j: int| #![trigger m[(0, j)]] #![trigger m[(1, j)]] 0 <= j < 3 ==> m[(0, j)] == F_MAX() && m[(1, j)] == F_MIN(), forall|j: int| #![trigger w[(j, 0)]] #![trigger w[(j, 1)]] #![trigger w[(j, 2)]] 0 <= j < 3 ==> w[(j, 0)] == F_MAX() && w[(j, 1)] == fl(0, 1) && w[(j, 2)] == F_MIN(), s == seq![F_MAX(), fl(0, 1), F_MIN()]
    ensures forall|j: int| 0 <= j < 3 ==> #[trigger] reach_sum(m, poss(Seq::empty()), j), forall|j: int| 0 <= j < 3 ==> #[trigger] spread_sum(w, vels(Seq::empty()), j), speed_sum(s, vels(Seq::empty()))
{ reveal(reach_sum); reveal(spread_sum); reveal(speed_sum); ax_extremes(); let e = Seq::<Seq<F>>::empty(); assert(vels(Seq::empty()) =~= e); assert(poss(Seq::empty()) =~= e);
  lemma_empty(speeds(e), F_MAX()); lemma_empty(speeds(e), F_MIN());
  assert forall|j: int| 0 <= j < 3 implies #[trigger] reach_sum(m, e, j) by { lemma_empty(comp(e, j), F_MAX()); lemma_empty(comp(e, j), F_MIN()); assert(m[(0, j)] == F_MAX()); }
  assert forall|j: int| 0 <= j < 3 implies #[trigger] spread_sum(w, e, j) by { lemma_empty(comp(e, j), F_MAX()); lemma_empty(comp(e, j), F_MIN()); assert(w[(j, 0)] == F_MAX()); } }
pub open spec fn upto(v: Seq<Seq<F>>, a: Seq<F>, j: int, n: int) -> Seq<Seq<F>> { if j < n { v.push(a) } else { v } }
// the first n rows
pub open spec fn first(v: Seq<Seq<F>>, n: int) -> Seq<Seq<F>> { v.subrange(0, n) }
pub proof fn lemma_first(u: Seq<Seq<F>>, v: Seq<Seq<F>>, n: int) requires 0 < n <= v.len() ensures u + first(v, n) == (u + first(v, n - 1)).push(v[n - 1]) { assert(u + first(v, n) =~= (u + first(v, n - 1)).push(v[n - 1])); }
pub proof fn lemma_push(rs: Seq<Rec>, r: Rec) ensures vels(rs.push(r)) == vels(rs) + r.vel, poss(rs.push(r)) == poss(rs) + r.pos { assert(rs.push(r).drop_last() =~= rs); }
pub open spec fn table(m: Array2<F>) -> Seq<Seq<F>> { Seq::new(m.dimv().0 as nat, |i: int| row2(m@, m.dimv(), i)) }
// sums to means
pub proof fn lemma_means(v: Seq<Seq<F>>, m: M2, w: M2) requires forall|j: int| 0 <= j < 3 ==> #[trigger] spread_sum(m, v, j), forall|j: int| #![trigger w[(j, 0)]] #![trigger w[(j, 1)]] #![trigger w[(j, 2)]] 0 <= j < 3 ==> w[(j, 0)] == m[(j, 0)] && w[(j, 1)] == fdiv(m[(j, 1)], fl(v.len() as int, 1)) && w[(j, 2)] == m[(j, 2)] ensures spread(w, v)
{ reveal(spread_sum); assert forall|j: int| #![trigger w[(j, 0)]] #![trigger w[(j, 1)]] #![trigger w[(j, 2)]] 0 <= j < 3 implies least_of(comp(v, j), F_MAX(), w[(j, 0)]) && most_of(comp(v, j), F_MIN(), w[(j, 2)]) && w[(j, 1)] == mean_of(comp(v, j)) by { assert(spread_sum(m, v, j)); } }
pub proof fn lemma_extent(x: Seq<Seq<F>>, m: M2, w: M2) requires forall|j: int| 0 <= j < 3 ==> #[trigger] reach_sum(m, x, j), forall|j: int| #![trigger w[(0, j)]] #![trigger w[(1, j)]] 0 <= j < 3 ==> w[(0, j)] == m[(0, j)] && w[(1, j)] == m[(1, j)] ensures extent(w, x)
{ reveal(reach_sum); assert forall|j: int| #![trigger w[(0, j)]] #![trigger w[(1, j)]] 0 <= j < 3 implies least_of(comp(x, j), F_MAX(), w[(0, j)]) && most_of(comp(x, j), F_MIN(), w[(1, j)]) by { assert(reach_sum(m, x, j)); } }
%end
