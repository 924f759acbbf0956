%raw
// a permutation of n places reaches each of them
pub open spec fn into(p: Seq<int>, m: int) -> bool { (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < m) && forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j ==> #[trigger] p[i] != #[trigger] p[j] }
pub proof fn lemma_pigeons(p: Seq<int>, m: int) requires into(p, m), 0 <= m ensures p.len() <= m decreases m
{ if p.len() > 0 { assert(0 <= p[0] < m); if exists|j: int| 0 <= j < p.len() && #[trigger] p[j] == m - 1 { let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == m - 1; let q = p.remove(j);
    assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < m - 1 by { let k = if i < j { i } else { i + 1 }; assert(q[i] == p[k]); assert(p[k] != p[j]); }
    assert forall|i: int, k: int| 0 <= i < q.len() && 0 <= k < q.len() && i != k implies #[trigger] q[i] != #[trigger] q[k] by { let a = if i < j { i } else { i + 1 }; let b = if k < j { k } else { k + 1 }; assert(q[i] == p[a] && q[k] == p[b]); }
    lemma_pigeons(q, m - 1); } else { lemma_pigeons(p, m - 1); } } }
pub proof fn lemma_perm_onto(p: Seq<int>, n: int, a: int) requires perm(p, n), 0 <= a < n ensures exists|j: int| 0 <= j < n && #[trigger] p[j] == a
{ { if !(exists|j: int| 0 <= j < n && #[trigger] p[j] == a) { let q = Seq::new(n as nat, |i: int| if p[i] > a { p[i] - 1 } else { p[i] });
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] q[i] < n - 1 by { assert(p[i] != a); }
    assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n && i != k implies #[trigger] q[i] != #[trigger] q[k] by { assert(p[i] != a && p[k] != a && p[i] != p[k]); } lemma_pigeons(q, n - 1); } } }
%end
