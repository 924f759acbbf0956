%import multi.vc
%import perms.vc
%const src/converter/csv_modes/csv_multi_idline.rs MAX_FAILS
%raw
// the rows below n that carry the id x
pub open spec fn id_at(d: Array2<F>, r: int) -> usize { ftou(d@[(r, 1)]) }
pub open spec fn rows_with(d: Array2<F>, x: usize, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { let q = rows_with(d, x, n - 1); if id_at(d, n - 1) == x { q.push(n - 1) } else { q } } }
pub proof fn lemma_rows_with(d: Array2<F>, x: usize, n: int) requires 0 <= n ensures rows_with(d, x, n).len() <= n, forall|i: int| 0 <= i < rows_with(d, x, n).len() ==> 0 <= #[trigger] rows_with(d, x, n)[i] < n && id_at(d, rows_with(d, x, n)[i]) == x decreases n { if n > 0 { lemma_rows_with(d, x, n - 1); } }
pub proof fn lemma_prefix(d: Array2<F>, x: usize, a: int, b: int) requires 0 <= a <= b ensures rows_with(d, x, a).len() <= rows_with(d, x, b).len(), forall|i: int| 0 <= i < rows_with(d, x, a).len() ==> #[trigger] rows_with(d, x, b)[i] == rows_with(d, x, a)[i] decreases b - a { if a < b { lemma_prefix(d, x, a, b - 1); } }
// the ids, in ascending order, and the rows of each, in the order of the file
pub open spec fn climbing(v: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] < #[trigger] v[j] }
pub open spec fn distinct(v: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] != #[trigger] v[j] }
pub open spec fn ids_of(d: Array2<F>, v: Seq<usize>, n: int) -> bool { (forall|r: int| 0 <= r < n ==> v.contains(#[trigger] id_at(d, r))) && forall|i: int| 0 <= i < v.len() ==> rows_with(d, #[trigger] v[i], n).len() > 0 }
pub open spec fn group_of(d: Array2<F>, x: usize, n: int, g: Array2<F>) -> bool { let q = rows_with(d, x, n); g.dimv() == (q.len() as int, 8int) && forall|k: I2| in2(g.dimv(), k) ==> #[trigger] g@[k] == d@[(q[k.0], k.1)] }
pub open spec fn grouped(d: Array2<F>, v: Seq<usize>, gs: Seq<Array2<F>>) -> bool { gs.len() == v.len() && forall|p: int| 0 <= p < gs.len() ==> group_of(d, v[p], d.dimv().0, #[trigger] gs[p]) }
pub open spec fn is_latest(d: Array2<F>, x: F) -> bool { most_of(times(d), d@[(0, 0)], x) }
pub open spec fn count_of(d: Array2<F>, v: Seq<usize>, n: int, j: int) -> int { rows_with(d, v[j], n).len() as int }
pub open spec fn is_most(d: Array2<F>, v: Seq<usize>, n: int, x: int) -> bool { (forall|j: int| 0 <= j < v.len() ==> #[trigger] count_of(d, v, n, j) <= x) && exists|j: int| 0 <= j < v.len() && #[trigger] count_of(d, v, n, j) == x }
pub open spec fn sized(gs: Seq<Array2<F>>, ids: Seq<(usize, usize)>, n: int) -> bool { gs.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] gs[j]).dimv() == (ids[j].1 as int, 8int) }
pub open spec fn holds(s: Seq<usize>, x: usize) -> bool { s.contains(x) }
pub open spec fn lengths(s: Seq<usize>) -> int { s.len() as int }
// the first rows of the groups are filled
pub open spec fn group_below(d: Array2<F>, x: usize, n: int, i: int, g: Array2<F>) -> bool { let q = rows_with(d, x, i); g.dimv() == (rows_with(d, x, n).len() as int, 8int) && forall|k: I2| in2((q.len() as int, 8int), k) ==> #[trigger] g@[k] == d@[(q[k.0], k.1)] }
pub open spec fn firsts(s: Seq<(usize, usize)>) -> Seq<usize> { Seq::new(s.len(), |i: int| s[i].0) }
pub proof fn lemma_sorted_ids(d: Array2<F>, w: Seq<usize>, n: int, s: Seq<(usize, usize)>, p: Seq<int>, t: Seq<(usize, usize)>, most: int)
    requires distinct(w), ids_of(d, w, n), s.len() == w.len(), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0 == w[j] && s[j].1 == count_of(d, w, n, j), perm(p, s.len() as int), moved(s, p, t), is_most(d, w, n, most),
        forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < s.len() ==> s[p[i]].0 < s[p[j]].0 || s[p[i]].0 == s[p[j]].0 && p[i] < p[j],
    ensures climbing(firsts(t)), ids_of(d, firsts(t), n), is_most(d, firsts(t), n, most), forall|j: int| 0 <= j < t.len() ==> (#[trigger] t[j]).1 == count_of(d, firsts(t), n, j)
{ let v = firsts(t);
  assert forall|i: int, j: int| 0 <= i < j < v.len() implies #[trigger] v[i] < #[trigger] v[j] by { assert(t[i] == s[p[i]] && t[j] == s[p[j]]); let a = p[i]; let b = p[j]; assert(s[a].0 == w[a] && s[b].0 == w[b]); if w[a] == w[b] { assert(a < b); } }
  assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).1 == count_of(d, v, n, j) && v[j] == w[p[j]] by { assert(t[j] == s[p[j]]); let a = p[j]; assert(s[a].0 == w[a]); assert(s[a].1 == count_of(d, w, n, a)); }
  assert forall|r: int| 0 <= r < n implies v.contains(#[trigger] id_at(d, r)) by { assert(w.contains(id_at(d, r))); let a = choose|a: int| 0 <= a < w.len() && w[a] == id_at(d, r); lemma_perm_onto(p, s.len() as int, a); let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == a; assert(t[j] == s[a]); assert(v[j] == id_at(d, r)); }
  assert forall|i: int| 0 <= i < v.len() implies rows_with(d, #[trigger] v[i], n).len() > 0 by { assert(t[i] == s[p[i]]); let a = p[i]; assert(v[i] == w[a]); }
  assert forall|j: int| 0 <= j < v.len() implies #[trigger] count_of(d, v, n, j) <= most by { assert(t[j] == s[p[j]]); let a = p[j]; assert(count_of(d, w, n, a) <= most); assert(v[j] == w[a]); }
  let a = choose|a: int| 0 <= a < w.len() && #[trigger] count_of(d, w, n, a) == most; lemma_perm_onto(p, s.len() as int, a); let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == a; assert(t[j] == s[a]); assert(v[j] == w[a]); assert(count_of(d, v, n, j) == most); }
// the columns that stay
pub open spec fn staying(c: Seq<usize>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { let q = staying(c, n - 1); if exists|i: int| 0 <= i < c.len() && #[trigger] c[i] == n - 1 { q } else { q.push(n - 1) } } }
pub proof fn lemma_staying(c: Seq<usize>, a: int, b: int) requires 0 <= a <= b ensures staying(c, a).len() <= staying(c, b).len(), staying(c, a).len() <= a, forall|i: int| 0 <= i < staying(c, a).len() ==> #[trigger] staying(c, b)[i] == staying(c, a)[i] && 0 <= staying(c, a)[i] < a decreases b { if a < b { lemma_staying(c, a, b - 1); } else if a > 0 { lemma_staying(c, a - 1, b - 1); } }
pub open spec fn columns_below(m: M2, w: int, q: Seq<int>, d: I2, r: M2) -> bool { forall|k: I2| in2((d.0, q.len() as int), k) ==> #[trigger] r[k] == m[(k.0, q[k.1])] }
%end
%fn src/converter/csv_modes/csv_multi_idline.rs sort_by_id
@ret r
@attr #[verifier::spinoff_prover]
@requires
    data.dimv().0 >= 1, data.dimv().1 == 8, forall|i: int| 0 <= i < data.dimv().0 ==> !fnan(#[trigger] data@[(i, 0)]),
@ensures
    exists|v: Seq<usize>| climbing(v) && #[trigger] ids_of(data, v, data.dimv().0) && grouped(data, v, r.0@) && is_most(data, v, data.dimv().0, r.2 as int),
    is_latest(data, r.1),
@entry
    let ghost n = data.dimv().0; let ghost s = times(data); let ghost z = data@[(0, 0)]; let ghost mut gid: Seq<usize> = Seq::empty();
@pre 0
    proof { reveal(most_of); assert(s.subrange(0, 0) =~= Seq::empty()); assert(most_of(s.subrange(0, 0), z, z)); }
@loop 0
    invariant __i0 <= __n0, __n0 == n, n == data.dimv().0, data.dimv().1 == 8, s == times(data), z == data@[(0, 0)], forall|i: int| 0 <= i < n ==> !fnan(#[trigger] data@[(i, 0)]),
        most_of(s.subrange(0, __i0 as int), z, max_t), fle(min_t, max_t), distinct(ids@), ids_of(data, ids@, __i0 as int), lengths(ids_timesteps@) == ids@.len(), ids_timesteps@.len() == ids@.len(),
        forall|j: int| 0 <= j < ids@.len() ==> #[trigger] ids_timesteps@[j] == count_of(data, ids@, __i0 as int, j), forall|j: int| 0 <= j < ids@.len() ==> #[trigger] ids_timesteps@[j] <= max_steps, max_steps >= 1, __i0 > 0 ==> holds(ids_timesteps@, max_steps), __i0 == 0 ==> max_steps == 1 && ids@.len() == 0,
    decreases __n0 - __i0
@body 0
    let ghost a = __i0 - 1; let ghost ids0 = ids@; let ghost cnt0 = ids_timesteps@; let ghost maxt0 = max_t; let ghost most0 = max_steps;
    proof { let x = data@[(a, 0)]; assert(!fnan(x)); ax_lt_le_trans(x, min_t, max_t); ax_lt_le_trans(min_t, max_t, x); ax_lt_le_trans(x, max_t, x);
        assert forall|j: int| 0 <= j < ids@.len() implies #[trigger] ids_timesteps@[j] <= a by { lemma_rows_with(data, ids@[j], a); assert(ids_timesteps@[j] == count_of(data, ids@, a, j)); } }
@closure 0
    |__p0: &usize| -> (r: bool) ensures r == (*__p0 == id)
@end 0
    proof { assert(s.subrange(0, __i0 as int) =~= s.subrange(0, a).push(t)); ax_total(t, maxt0); lemma_most(s.subrange(0, a), z, maxt0, t, max_t);
        assert(id == id_at(data, a));
        assert forall|x: usize| x != id implies #[trigger] rows_with(data, x, __i0 as int) == rows_with(data, x, a) by { }
        let q = rows_with(data, id, a); lemma_rows_with(data, id, a); assert(rows_with(data, id, __i0 as int) == q.push(a));
        if ids@.len() > ids0.len() { assert(ids@ == ids0.push(id)); if q.len() > 0 { assert(id_at(data, q[0]) == id); assert(ids0.contains(id)); } assert(ids_timesteps@[ids0.len() as int] == 1);
            assert forall|r: int| 0 <= r < __i0 implies ids@.contains(#[trigger] id_at(data, r)) by { if r < a { let j = choose|j: int| 0 <= j < ids0.len() && ids0[j] == id_at(data, r); assert(ids@[j] == id_at(data, r)); } else { assert(ids@[ids0.len() as int] == id); } }
            if a > 0 { let j = choose|j: int| 0 <= j < cnt0.len() && cnt0[j] == most0; assert(ids_timesteps@[j] == most0); } }
        else { assert(ids@ == ids0); let j0 = choose|j: int| 0 <= j < cnt0.len() && cnt0[j] == most0; assert(cnt0[j0] == count_of(data, ids0, a, j0));
            let k = choose|k: int| 0 <= k < ids0.len() && ids0[k] == id; assert(ids_timesteps@[k] == cnt0[k] + 1);
            if max_steps == most0 { assert(ids_timesteps@[j0] == most0); } else { assert(ids_timesteps@[k] == max_steps); } }
        assert forall|i: int| 0 <= i < ids@.len() implies rows_with(data, #[trigger] ids@[i], __i0 as int).len() > 0 by { if i < ids0.len() { assert(ids@[i] == ids0[i]); } }
        assert forall|j: int| 0 <= j < ids@.len() implies #[trigger] ids_timesteps@[j] == count_of(data, ids@, __i0 as int, j) by { if j < ids0.len() { assert(ids@[j] == ids0[j]); assert(cnt0[j] == count_of(data, ids0, a, j)); } }
    }
@closure 1
    |__p0: (&usize, &usize)| -> (r: (usize, usize)) ensures r == (*__p0.0, *__p0.1)
@closure 2
    |__p0: &(usize, usize), __p1: &(usize, usize)| -> (r: Ordering) ensures (r == Ordering::Less) == (__p0.0 < __p1.0), (r == Ordering::Equal) == (__p0.0 == __p1.0)
@before ids_and_steps#1
    let ghost pairs = ids_and_steps@; let ghost w = ids@;
    proof { assert(forall|j: int| 0 <= j < pairs.len() ==> (#[trigger] pairs[j]).0 == w[j] && pairs[j].1 == count_of(data, w, n, j)); }
@after ids_and_steps#1
    proof { let p = choose|p: Seq<int>| #[trigger] perm(p, pairs.len() as int) && moved(pairs, p, ids_and_steps@) && forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < pairs.len() ==> pairs[p[i]].0 < pairs[p[j]].0 || pairs[p[i]].0 == pairs[p[j]].0 && p[i] < p[j];
        let v = firsts(ids_and_steps@); lemma_sorted_ids(data, w, n, pairs, p, ids_and_steps@, max_steps as int); }
@loop 1
    invariant __i1 <= __n1, __n1 == ids@.len(), __c1@.len() == __n1, forall|j: int| 0 <= j < __n1 ==> *(#[trigger] __c1@[j]) == ids@[j], sized(sorted_data@, ids@, __i1 as int),
    decreases __n1 - __i1
@loop 2
    invariant __i2 <= __n2, __n2 == n, n == data.dimv().0, data.dimv().1 == 8, climbing(firsts(ids@)), ids_of(data, firsts(ids@), n), forall|j: int| 0 <= j < ids@.len() ==> (#[trigger] ids@[j]).1 == count_of(data, firsts(ids@), n, j), sorted_data@.len() == ids@.len(), last_line_pushed@.len() == ids@.len(),
        forall|j: int| 0 <= j < ids@.len() ==> #[trigger] last_line_pushed@[j] == rows_with(data, ids@[j].0, __i2 as int).len(), forall|j: int| 0 <= j < ids@.len() ==> group_below(data, ids@[j].0, n, __i2 as int, #[trigger] sorted_data@[j]),
    decreases __n2 - __i2
@body 2
    let ghost a = __i2 - 1; let ghost groups0 = sorted_data@; let ghost lines0 = last_line_pushed@;
@before index#1
    proof { let v = firsts(ids@); assert(id == id_at(data, a)); let k = choose|k: int| 0 <= k < v.len() && v[k] == id_at(data, a); assert(ids@[k].0 == id); }
@after index#1
    proof { assert(ids@[index as int].0 == id); lemma_prefix(data, id, a, a + 1); lemma_prefix(data, id, a + 1, n); lemma_rows_with(data, id, n); assert(rows_with(data, id, a + 1) == rows_with(data, id, a).push(a)); assert(group_below(data, id, n, a, groups0[index as int])); }
@end 2
    proof { assert forall|x: usize| x != id implies #[trigger] rows_with(data, x, __i2 as int) == rows_with(data, x, a) by { }
        assert forall|j: int| 0 <= j < ids@.len() && j != index implies ids@[j].0 != id by { let v = firsts(ids@); assert(v[j] != v[index as int]); }
        assert forall|j: int| 0 <= j < ids@.len() implies group_below(data, ids@[j].0, n, __i2 as int, #[trigger] sorted_data@[j]) by { assert(group_below(data, ids@[j].0, n, a, groups0[j]));
            if j == index { let q = rows_with(data, id, a); let g = sorted_data@[j]; assert forall|k: I2| in2(((q.len() + 1) as int, 8int), k) implies #[trigger] g@[k] == data@[(q.push(a)[k.0], k.1)] by { if k.0 < q.len() { assert(in2((q.len() as int, 8int), k)); assert(g@[k] == groups0[j]@[k]); } } } }
        assert forall|j: int| 0 <= j < ids@.len() implies #[trigger] last_line_pushed@[j] == rows_with(data, ids@[j].0, __i2 as int).len() by { assert(lines0[j] == rows_with(data, ids@[j].0, a).len()); } }
@exit
    proof { let v = firsts(ids@); let gs = sorted_data@; assert forall|p: int| 0 <= p < gs.len() implies group_of(data, v[p], n, #[trigger] gs[p]) by { assert(group_below(data, ids@[p].0, n, n, gs[p])); } assert(ids_of(data, v, n) && grouped(data, v, gs)); assert(s.subrange(0, n) =~= s); }
@closure 3
    |__p0: &(usize, usize)| -> (r: bool) ensures r == (__p0.0 == id)
%fn src/converter/csv_modes/csv_multi_idline.rs remove_columns
@ret r
@requires
    columns@.len() <= data.dimv().1, staying(columns@, data.dimv().1).len() == data.dimv().1 - columns@.len(),
@ensures
    r.dimv() == (data.dimv().0, data.dimv().1 - columns@.len()), columns_below(data@, data.dimv().1, staying(columns@, data.dimv().1), r.dimv(), r@),
@entry
    let ghost d = data.dimv(); let ghost c = columns@;
@loop 0
    invariant __i0 <= __n0, __n0 == d.1, d == data.dimv(), c == columns@, new_data.dimv() == (d.0, d.1 - c.len()), c.len() <= d.1, staying(c, d.1).len() == d.1 - c.len(), new_data_index == staying(c, __i0 as int).len(), columns_below(data@, d.1, staying(c, __i0 as int), new_data.dimv(), new_data@),
    decreases __n0 - __i0
@body 0
    let ghost before = new_data@; let ghost q = staying(c, i as int); proof { lemma_staying(c, i as int, i + 1); lemma_staying(c, i + 1, d.1); lemma_staying(c, i as int, i as int); }
%raw
// the columns asked for, in that order: time, id, position and maybe velocity
pub open spec fn wide_below(m: Array2<F>, cols: Seq<i64>, r: Array2<F>, n: int) -> bool { r.dimv() == (m.dimv().0, 8int) && forall|k: I2| in2(r.dimv(), k) ==> #[trigger] r@[k] == (if k.1 < n { m@[(k.0, cols[k.1] as int)] } else { F_NAN() }) }
pub open spec fn wide(m: Array2<F>, cols: Seq<i64>, r: Array2<F>) -> bool { wide_below(m, cols, r, cols.len() as int) }
// the rows of one id in order of time, without the id
pub open spec fn by_time(g: Array2<F>, h: Array2<F>) -> bool { h.dimv() == g.dimv() && exists|p: Seq<int>| #[trigger] perm(p, g.dimv().0) && rows(g@, g.dimv(), p, h@) && column_order(g@, 0, p) }
pub open spec fn without_id(h: Array2<F>, b: Array2<F>) -> bool { b.dimv() == (h.dimv().0, 7int) && forall|k: I2| in2(b.dimv(), k) ==> #[trigger] b@[k] == h@[(k.0, if k.1 < 1 { k.1 } else { k.1 + 1 })] }
pub open spec fn trajectory(a: Array2<F>, x: usize, b: Array2<F>) -> bool { exists|g: Array2<F>, h: Array2<F>| #[trigger] group_of(a, x, a.dimv().0, g) && #[trigger] by_time(g, h) && without_id(h, b) }
pub open spec fn of_id(a: Array2<F>, x: usize, interpolate: bool, end: F, most: int, vel: bool, t: Array2<F>) -> bool { exists|b: Array2<F>| #[trigger] trajectory(a, x, b) && finished(b, interpolate, end, most, vel, t) }
pub open spec fn all_ids(a: Array2<F>, v: Seq<usize>, interpolate: bool, end: F, most: int, vel: bool, ts: Seq<Array2<F>>) -> bool { forall|p: int| 0 <= p < ts.len() ==> of_id(a, v[p], interpolate, end, most, vel, #[trigger] ts[p]) }
pub open spec fn by_id(m: Array2<F>, cols: Seq<i64>, interpolate: bool, vel: bool, a: Array2<F>, v: Seq<usize>, end: F, most: int, ts: Seq<Array2<F>>) -> bool {
    wide(m, cols, a) && climbing(v) && ids_of(a, v, a.dimv().0) && is_latest(a, end) && is_most(a, v, a.dimv().0, most) && ts.len() == v.len() && all_ids(a, v, interpolate, end, most, vel, ts) && (vel ==> cols.len() == 5) }
// no window of nine records spans an infinite time
pub open spec fn id_windows_ok(m: Array2<F>, cols: Seq<i64>, interpolate: bool) -> bool { forall|a: Array2<F>, v: Seq<usize>, end: F, most: int, x: usize, b: Array2<F>, c: Array2<F>| #[trigger] wide(m, cols, a) && is_latest(a, end) && #[trigger] is_most(a, v, a.dimv().0, most) && #[trigger] trajectory(a, x, b) && #[trigger] spaced(b, interpolate, end, most, c) ==> times_finite(c@, c.dimv(), 9) }
pub proof fn lemma_ordered(g: Array2<F>, h: Array2<F>, b: Array2<F>) requires by_time(g, h), without_id(h, b), g.dimv().1 == 8 ensures ascending(times(b))
{ let p = choose|p: Seq<int>| #[trigger] perm(p, g.dimv().0) && rows(g@, g.dimv(), p, h@) && column_order(g@, 0, p); let s = times(b);
  assert forall|i: int| 0 <= i < s.len() - 1 implies fle(#[trigger] s[i], s[i + 1]) by { assert(in2(b.dimv(), (i, 0int)) && in2(b.dimv(), (i + 1, 0int))); assert(in2(g.dimv(), (i, 0int)) && in2(g.dimv(), (i + 1, 0int))); assert(b@[(i, 0)] == h@[(i, 0)] && b@[(i + 1, 0)] == h@[(i + 1, 0)]); assert(h@[(i, 0)] == g@[(p[i], 0)] && h@[(i + 1, 0)] == g@[(p[i + 1], 0)]); } }
// there are no more ids than rows
pub proof fn lemma_few(d: Array2<F>, v: Seq<usize>, n: int) requires climbing(v), ids_of(d, v, n), 0 <= n ensures v.len() <= n
{ let q = Seq::new(v.len(), |j: int| rows_with(d, v[j], n)[0]); assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < n && id_at(d, q[i]) == v[i] by { lemma_rows_with(d, v[i], n); assert(rows_with(d, v[i], n).len() > 0); }
  assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies #[trigger] q[i] != #[trigger] q[j] by { assert(id_at(d, q[i]) == v[i] && id_at(d, q[j]) == v[j]); if i < j { assert(v[i] < v[j]); } else { assert(v[j] < v[i]); } } lemma_pigeons(q, n); }
pub proof fn lemma_stays(c: Seq<usize>, n: int) requires c.len() == 1, c[0] == 1, n > 0 ensures staying(c, n) == (if n == 2 { staying(c, n - 1) } else { staying(c, n - 1).push(n - 1) }) { if n == 2 { assert(c[0] == n - 1); } }
pub proof fn lemma_without_id(c: Seq<usize>) requires c.len() == 1, c[0] == 1 ensures staying(c, 8) == seq![0int, 2, 3, 4, 5, 6, 7]
{ hide(staying); lemma_stays(c, 1); lemma_stays(c, 2); lemma_stays(c, 3); lemma_stays(c, 4); lemma_stays(c, 5); lemma_stays(c, 6); lemma_stays(c, 7); lemma_stays(c, 8); assert(staying(c, 0) =~= Seq::<int>::empty()) by { reveal(staying); } assert(staying(c, 8) =~= seq![0int, 2, 3, 4, 5, 6, 7]); }
pub proof fn lemma_without_ids() ensures forall|c: Seq<usize>| c.len() == 1 && c[0] == 1 ==> #[trigger] staying(c, 8) == seq![0int, 2, 3, 4, 5, 6, 7]
{ assert forall|c: Seq<usize>| c.len() == 1 && c[0] == 1 implies #[trigger] staying(c, 8) == seq![0int, 2, 3, 4, 5, 6, 7] by { lemma_without_id(c); } }
%end
%fn src/converter/csv_modes/csv_multi_idline.rs csv_multi_idline
@attr #[verifier::spinoff_prover]
@requires
    bytes(delimiter@).len() > 0, bytes(comment@).len() > 0, interpolate ==> vel,
    ({ let m = lines_of(filename@, header, delimiter@, comment@);
       &&& 1 <= m.dimv().0 < 0x8000_0000
       &&& forall|i: int| 0 <= i < columns@.len() ==> 0 <= #[trigger] columns@[i] < m.dimv().1
       &&& columns@.len() > 0 ==> forall|i: int| 0 <= i < m.dimv().0 ==> !fnan(#[trigger] m@[(i, columns@[0] as int)])
       &&& vel ==> id_windows_ok(m, columns@, interpolate)
       &&& vel ==> forall|a: Array2<F>, x: usize| #[trigger] wide(m, columns@, a) && #[trigger] rows_with(a, x, a.dimv().0).len() > 0 ==> rows_with(a, x, a.dimv().0).len() >= 9 }),
@ensures
    columns@.len() == 5 || columns@.len() == 8,
    exists|f: File, a: Array2<F>, v: Seq<usize>, end: F, most: int, ts: Seq<Array2<F>>| #[trigger] created_as(f, outname@) && #[trigger] by_id(lines_of(filename@, header, delimiter@, comment@), columns@, interpolate, vel, a, v, end, most, ts)
        && #[trigger] all_converted(f, ts, radius, true) && acceptable(ts),
@entry
    let ghost m = lines_of(filename@, header, delimiter@, comment@); let ghost mut ga = m; let ghost mut ts: Seq<Array2<F>> = Seq::empty(); let ghost mut gv: Seq<usize> = Seq::empty(); let ghost mut gend: F = radius; let ghost mut gmost: int = 0;
@panic 0
    assert(!(columns@.len() == 5 || columns@.len() == 8));
@panic 1
    assert(vel && columns@.len() > 5);
@panic 2
    assert(fnan(t@[(0, 6)]));
@panic 3
    assert(behind(s, __i3 as int) > 500);
@loop 0
    invariant __i0 <= __n0, __n0 == columns@.len(), data == m, columns@.len() <= 8, forall|i: int| 0 <= i < columns@.len() ==> 0 <= #[trigger] columns@[i] < m.dimv().1, refs_at(__c0@, columns@), wide_below(m, columns@, temp_data, __i0 as int),
    decreases __n0 - __i0
@end 0
    proof { assert(wide_below(m, columns@, temp_data, __i0 as int)); }
@after data#1
    proof { ga = data; assert(wide(m, columns@, ga)); assert forall|r: int| 0 <= r < ga.dimv().0 implies !fnan(#[trigger] ga@[(r, 0)]) by { assert(in2(ga.dimv(), (r, 0int))); assert(!fnan(m@[(r, columns@[0] as int)])); } }
    let ghost a = ga; let ghost n = a.dimv().0;
@after data#2
    let ghost v = choose|v: Seq<usize>| climbing(v) && #[trigger] ids_of(a, v, n) && grouped(a, v, data@) && is_most(a, v, n, max_steps as int); let ghost gs = data@;
    proof { gv = v; gend = max_t; gmost = max_steps as int; lemma_few(a, v, n); assert(v.contains(id_at(a, 0))); assert(v.len() > 0); let j = choose|j: int| 0 <= j < v.len() && #[trigger] count_of(a, v, n, j) == max_steps; lemma_rows_with(a, v[j], n); assert(rows_with(a, v[j], n).len() > 0); }
@loop 1
    invariant __i1 <= __n1, __n1 == gs.len(), gs.len() == v.len(), __c1@ == gs, a.dimv() == (n, 8int), 1 <= n < 0x8000_0000, wide(m, columns@, a), ids_of(a, v, n), grouped(a, v, gs), is_most(a, v, n, max_steps as int), is_latest(a, max_t), 1 <= max_steps <= n, vel ==> 9 <= max_steps,
        forall|r: int| 0 <= r < n ==> !fnan(#[trigger] a@[(r, 0)]), interpolate ==> vel, vel ==> id_windows_ok(m, columns@, interpolate), vel ==> forall|a: Array2<F>, x: usize| #[trigger] wide(m, columns@, a) && #[trigger] rows_with(a, x, a.dimv().0).len() > 0 ==> rows_with(a, x, a.dimv().0).len() >= 9,
        columns@.len() == 5 || columns@.len() == 8, __i1 > 0 && vel ==> columns@.len() == 5, particle_data@.len() == __i1, all_ids(a, v, interpolate, max_t, max_steps as int, vel, particle_data@),
        forall|p: int| 0 <= p < particle_data@.len() ==> (#[trigger] particle_data@[p]).dimv().1 == 7 && 1 <= particle_data@[p].dimv().0 <= n,
    decreases __n1 - __i1
@body 1
    let ghost i = __i1 - 1; let ghost old_data = particle_data@; let ghost g = gs[i]; let ghost x = v[i];
    proof { assert(group_of(a, x, n, g)); lemma_rows_with(a, x, n); assert(rows_with(a, x, n).len() > 0); assert forall|r: int| 0 <= r < g.dimv().0 implies !fnan(#[trigger] g@[(r, 0)]) by { assert(in2(g.dimv(), (r, 0int))); let k = rows_with(a, x, n)[r]; assert(!fnan(a@[(k, 0)])); } lemma_without_ids(); }
@after temp_data#3
    let ghost h = temp_data; proof { assert(by_time(g, h)); }
@after temp_data#4
    let ghost b = temp_data; let ghost mut gc = b;
    proof { assert(without_id(h, b)) by { let q = seq![0int, 2, 3, 4, 5, 6, 7]; assert forall|k: I2| in2(b.dimv(), k) implies #[trigger] b@[k] == h@[(k.0, if k.1 < 1 { k.1 } else { k.1 + 1 })] by { assert(q[k.1] == (if k.1 < 1 { k.1 } else { k.1 + 1 })); } } assert(trajectory(a, x, b)); lemma_ordered(g, h, b); }
@after temp_data#5
    proof { gc = temp_data; assert(evenly_to(b, max_t, max_steps as int, temp_data)); }
@before temp_data#6
    proof { assert(spaced(b, interpolate, max_t, max_steps as int, temp_data)); assert(times_finite(temp_data@, temp_data.dimv(), 9)); }
@end 1
    proof { let t1 = particle_data@.last(); assert(spaced(b, interpolate, max_t, max_steps as int, gc)); assert(finished(b, interpolate, max_t, max_steps as int, vel, t1)); assert(of_id(a, x, interpolate, max_t, max_steps as int, vel, t1)); assert(particle_data@ == old_data.push(t1));
        assert forall|p: int| 0 <= p < particle_data@.len() implies of_id(a, v[p], interpolate, max_t, max_steps as int, vel, #[trigger] particle_data@[p]) by { if p < old_data.len() { assert(particle_data@[p] == old_data[p]); } } }
@after particle_data
    proof { ts = particle_data@; assert(by_id(m, columns@, interpolate, vel, ga, gv, gend, gmost, ts)); }
@before mean_counter
    let ghost np = ts.len() as int;
@after first_times
    proof { lemma_no_parts(hdf5file, ts, radius, true); assert(every(ts, 0) =~= Seq::empty()); assert(velocity_mag@ =~= seq![F_MAX(), fl(0, 1), F_MIN()]); assert(time@ =~= seq![F_INF(), fneg(F_INF())]); lemma_v_nothing(ts, every(ts, 0), dimensions@, velocity@, velocity_mag@, time@); }
@loop 2
    invariant __i2 <= __n2, __n2 == np, np == ts.len(), particle_data@ == ts, np < 0x8000_0000, __c2@.len() == __n2, forall|i: int| 0 <= i < __n2 ==> (#[trigger] __c2@[i]).0 == i && *__c2@[i].1 == ts[i],
        forall|p: int| 0 <= p < np ==> (#[trigger] ts[p]).dimv().1 == 7 && 1 <= ts[p].dimv().0 < 0x8000_0000, forall|p: int| 0 <= p < __i2 ==> acceptable1(#[trigger] ts[p]),
        mean_counter == every(ts, __i2 as int).len(), parts_hold(hdf5file, ts, __i2 as int, radius, true),
        dimensions.dimv() == (2int, 3int), v_extent(dimensions@, ts, every(ts, __i2 as int)), velocity.dimv() == (3int, 3int), forall|j: int| 0 <= j < 3 ==> #[trigger] v_spread_sum(velocity@, ts, every(ts, __i2 as int), j),
        velocity_mag@.len() == 3, time@.len() == 2, v_speed_sum(velocity_mag@, ts, every(ts, __i2 as int)), v_range(time@, ts, every(ts, __i2 as int)),
        sample_rate == rate(ts, __i2 as int), timesteps == shared(ts, __i2 as int), first_times@ == (if __i2 == 0 { Seq::empty() } else { taken(ts[0], kept_of(ts[0]), 0) }),
    decreases __n2 - __i2
@body 2
    let ghost p = __i2 - 1; let ghost t = ts[p]; let ghost s = times(t); let ghost d = t.dimv(); let ghost rate0 = sample_rate;
    proof { assert(*data == t); lemma_every(ts, p, 0x8000_0000); assert(p * 0x8000_0000 <= 0x4000_0000_0000_0000) by (nonlinear_arith) requires p < 0x8000_0000; lemma_so_far0(ts, p); assert(kept(s, 0) =~= Seq::empty()); }
@loop 3
    invariant __i3 <= __n3, __n3 == d.0, d.0 < 0x8000_0000, *data == t, d == t.dimv(), s == times(t), d.1 == 7, 0 <= p < ts.len(), t == ts[p], 0 <= failcount <= 500, failcount == behind(s, __i3 as int), forall|n: int| 0 <= n <= __i3 ==> #[trigger] behind(s, n) <= 500,
        __c3@.len() == __n3, forall|i: int| 0 <= i < __n3 ==> (#[trigger] __c3@[i]).0 == i && __c3@[i].1@ == row2(t@, d, i), every(ts, p).len() <= 0x4000_0000_0000_0000,
        kept(s, __i3 as int).len() + total_failcount == __i3, old_time == last_time(s, kept(s, __i3 as int)), mean_counter == every(ts, p).len() + kept(s, __i3 as int).len(),
        time_array@.len() == d.0, pos_array.dimv() == (d.0, 3int), vel_array.dimv() == (d.0, 3int), filled(t, kept(s, __i3 as int), time_array@, pos_array@, vel_array@),
        dimensions.dimv() == (2int, 3int), v_extent(dimensions@, ts, so_far(ts, p, kept(s, __i3 as int))), velocity.dimv() == (3int, 3int), forall|j: int| 0 <= j < 3 ==> #[trigger] v_spread_sum(velocity@, ts, so_far(ts, p, kept(s, __i3 as int)), j),
        velocity_mag@.len() == 3, time@.len() == 2, v_speed_sum(velocity_mag@, ts, so_far(ts, p, kept(s, __i3 as int))), v_range(time@, ts, so_far(ts, p, kept(s, __i3 as int))), sample_rate == interval_after(s, kept(s, __i3 as int), rate0),
    decreases __n3 - __i3
@body 3
    let ghost a = __i3 - 1; let ghost q = kept(s, a); let ghost q2 = so_far(ts, p, q); let ghost dim0 = dimensions@; let ghost mag0 = velocity_mag@; let ghost time0 = time@;
    proof { lemma_kept(s, a); assert(s[a] == t@[(a, 0)]); assert(line@ =~= row2(t@, d, a)); }
@loop 4
    invariant __i4 <= __n4, __n4 == 3, velocity.dimv() == (3int, 3int), 0 <= a < d.0, d == t.dimv(), d.1 == 7, 0 <= p < ts.len(), t == ts[p], vel@ =~= seq![t@[(a, 4)], t@[(a, 5)], t@[(a, 6)]], forall|j: int| 0 <= j < 3 ==> #[trigger] v_spread_sum(velocity@, ts, upto2(q2, (p, a), j, __i4 as int), j),
    decreases __n4 - __i4
@body 4
    let ghost v0 = velocity@; assert(v_spread_sum(v0, ts, upto2(q2, (p, a), i as int, __i4 - 1), i as int)); assert(vel@[i as int] == t@[(a, 4 + i)]);
@end 4
    proof { lemma_v_spread(ts, q2, (p, a), i as int, v0, velocity@);
        assert forall|j: int| 0 <= j < 3 implies #[trigger] v_spread_sum(velocity@, ts, upto2(q2, (p, a), j, __i4 as int), j) by { if j != i { assert(v_spread_sum(v0, ts, upto2(q2, (p, a), j, __i4 - 1), j)); lemma_v_same(ts, upto2(q2, (p, a), j, __i4 as int), j, v0, velocity@); } } }
@closure 0
    |__p0: &F| -> (r: F) ensures r == fmul(*__p0, *__p0)
@after vel_mag
    assert(vel_mag == speed(t, a));
@end 3
    proof { assert(kept(s, __i3 as int) == q.push(a)); lemma_so_far(ts, p, q, a); lemma_interval_after(s, q, a, rate0); lemma_v_extent(ts, q2, (p, a), dim0, dimensions@); lemma_v_speed(ts, q2, (p, a), mag0, velocity_mag@); lemma_v_range(ts, q2, (p, a), time0, time@);
        assert forall|j: int| 0 <= j < 3 implies #[trigger] v_spread_sum(velocity@, ts, so_far(ts, p, kept(s, __i3 as int)), j) by { assert(v_spread_sum(velocity@, ts, upto2(q2, (p, a), j, 3), j)); } }
@before kept
    let ghost qk = kept(s, d.0); proof { lemma_kept(s, d.0); }
@end 2
    proof { let g = grp(hdf5file, p); assert(qk == kept_of(t)); assert(every(ts, __i2 as int) == so_far(ts, p, qk)); lemma_so_far(ts, p, qk, 0);
        assert(time_array@ =~= taken(t, qk, 0)); assert(particle_id_array@ =~= same_number(qk, fl(p, 1))); assert(particle_radius_array@ =~= same_number(qk, radius)); assert(ppclouds_array@ =~= same_number(qk, fl(1, 1))); assert(particle_type_array@ =~= same_number(qk, fl(0, 1)));
        assert(part_columns(g, t, qk, radius, fl(p, 1), fl(0, 1))); assert(part_holds(hdf5file, p, t, radius, true)) by { reveal(part_holds); } lemma_parts(hdf5file, ts, p, radius, true);
        assert(acceptable1(t)) by { reveal(acceptable1); } }
@post 2
    proof { lemma_shared(ts, np); }
@before velocity_mag#6
    let ghost sums = velocity@; let ghost mag1 = velocity_mag@;
@exit
    proof { let q = every(ts, np); let e = hdf5file.attr_("dimensions"@).two::<F>()@; let w = hdf5file.attr_("velocity"@).two::<F>()@;
        reveal(v_speed_sum);
        assert forall|j: int| #![trigger e[(0, j)]] #![trigger e[(1, j)]] 0 <= j < 3 implies e[(0, j)] == dimensions@[(0, j)] && e[(1, j)] == dimensions@[(1, j)] by { assert(in2((2int, 3int), (0int, j))); assert(in2((2int, 3int), (1int, j))); }
        assert forall|j: int| #![trigger w[(j, 0)]] #![trigger w[(j, 1)]] #![trigger w[(j, 2)]] 0 <= j < 3 implies w[(j, 0)] == sums[(j, 0)] && w[(j, 1)] == fdiv(sums[(j, 1)], fl(q.len() as int, 1)) && w[(j, 2)] == sums[(j, 2)] by { assert(in2((3int, 3int), (j, 0int))); assert(in2((3int, 3int), (j, 1int))); assert(in2((3int, 3int), (j, 2int))); }
        lemma_v_means(ts, q, sums, w); lemma_v_extent0(ts, q, dimensions@, e); assert(v_speed_sum(mag1, ts, q));
        assert(hdf5file.ds("time array"@).one::<F>()@ =~= (if np == 0 { Seq::empty() } else { taken(ts[0], kept_of(ts[0]), 0).subrange(0, shared(ts, np)) }));
        assert(all_summary(hdf5file, ts)); assert(all_converted(hdf5file, ts, radius, true)); }
