%include core
%include grids
%raw
// C28: the smallest and largest number of a list, NaN ignored
pub open spec fn low(s: Seq<F>, n: int) -> F decreases n { if n <= 0 { F_INF() } else if flt(s[n - 1], low(s, n - 1)) { s[n - 1] } else { low(s, n - 1) } }
pub open spec fn high(s: Seq<F>, n: int) -> F decreases n { if n <= 0 { fneg(F_INF()) } else if flt(high(s, n - 1), s[n - 1]) { s[n - 1] } else { high(s, n - 1) } }
pub open spec fn bounds(s: Seq<F>, n: int, r: (F, F)) -> bool { forall|i: int| 0 <= i < n && !fnan(#[trigger] s[i]) ==> fle(r.0, s[i]) && fle(s[i], r.1) }
pub open spec fn has(s: Seq<F>, n: int, x: F) -> bool { exists|i: int| 0 <= i < n && feq(#[trigger] s[i], x) }
pub open spec fn has_number(s: Seq<F>, n: int) -> bool { exists|i: int| 0 <= i < n && !fnan(#[trigger] s[i]) }
pub proof fn lemma_minmax(s: Seq<F>, n: int) requires 0 <= n <= s.len(),
    ensures bounds(s, n, (low(s, n), high(s, n))), !fnan(low(s, n)), !fnan(high(s, n)), has_number(s, n) ==> has(s, n, low(s, n)) && has(s, n, high(s, n)), decreases n
{
    ax_inf(F_INF());
    if n > 0 {
        lemma_minmax(s, n - 1); let x = s[n - 1]; let (l, h) = (low(s, n - 1), high(s, n - 1));
        ax_inf(x);
        assert forall|i: int| 0 <= i < n && !fnan(#[trigger] s[i]) implies fle(low(s, n), s[i]) && fle(s[i], high(s, n)) by {
            if i < n - 1 { ax_lt_le_trans(x, l, s[i]); ax_lt_le_trans(s[i], h, x); } }
        if has_number(s, n) {
            let a = low(s, n); let b = high(s, n);
            if has_number(s, n - 1) {
                let i = choose|i: int| 0 <= i < n - 1 && feq(#[trigger] s[i], l); let j = choose|j: int| 0 <= j < n - 1 && feq(#[trigger] s[j], h);
                if a == x { assert(feq(s[n - 1], a)); } else { assert(feq(s[i], a)); }
                if b == x { assert(feq(s[n - 1], b)); } else { assert(feq(s[j], b)); }
            } else {
                lemma_no_number(s, n - 1); assert(!fnan(x));
                assert(feq(s[n - 1], a)); assert(feq(s[n - 1], b));
            }
        }
    }
}
pub proof fn lemma_no_number(s: Seq<F>, n: int) requires 0 <= n <= s.len(), !has_number(s, n), ensures low(s, n) == F_INF(), high(s, n) == fneg(F_INF()), decreases n
{ if n > 0 { assert(fnan(s[n - 1])); assert(!has_number(s, n - 1)) by { if has_number(s, n - 1) { let i = choose|i: int| 0 <= i < n - 1 && !fnan(#[trigger] s[i]); assert(!fnan(s[i])); } } lemma_no_number(s, n - 1); } }
// C28: sums over the elements that are not NaN, in row order
pub open spec fn known_n(m: M3, d: I3, n: int) -> int decreases n { if n <= 0 { 0 } else if fnan(m[unflat3(d, n - 1)]) { known_n(m, d, n - 1) } else { known_n(m, d, n - 1) + 1 } }
pub open spec fn known_s(m: M3, d: I3, n: int) -> F decreases n { if n <= 0 { fl(0, 1) } else if fnan(m[unflat3(d, n - 1)]) { known_s(m, d, n - 1) } else { fadd(known_s(m, d, n - 1), m[unflat3(d, n - 1)]) } }
pub open spec fn known_q(m: M3, d: I3, mean: F, n: int) -> F decreases n { if n <= 0 { fl(0, 1) } else if fnan(m[unflat3(d, n - 1)]) { known_q(m, d, mean, n - 1) } else { let x = fsub(m[unflat3(d, n - 1)], mean); fadd(known_q(m, d, mean, n - 1), fmul(x, x)) } }
pub open spec fn mean3(m: M3, d: I3) -> F { fdiv(known_s(m, d, size3(d)), fl(known_n(m, d, size3(d)), 1)) }
pub open spec fn dev3(m: M3, d: I3) -> F { fsqrt(fdiv(known_q(m, d, mean3(m, d), size3(d)), fl(known_n(m, d, size3(d)), 1))) }
pub proof fn lemma_flat2(d: I2, k: I2) requires in2(d, k), ensures 0 <= flat2(d, k) < d.0 * d.1, unflat2(d, flat2(d, k)) == k
{ let i = k.0 * d.1 + k.1; assert(k.0 * d.1 >= 0 && k.0 * d.1 + d.1 <= d.0 * d.1) by (nonlinear_arith) requires 0 <= k.0 < d.0, 0 <= d.1;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, d.1, k.0, k.1); }
// C28: the elements before an index combination are set
pub open spec fn mesh2(m: M2, d: I2, s: Seq<F>, ax: int, i: int, j: int) -> bool { forall|k: I2| in2(d, k) && (k.0 < i || k.0 == i && k.1 < j) ==> #[trigger] m[k] == s[if ax == 0 { k.0 } else { k.1 }] }
pub open spec fn mesh3(m: M3, d: I3, s: Seq<F>, ax: int, b: I3) -> bool { forall|k: I3| in3(d, k) && (k.0 < b.0 || k.0 == b.0 && (k.1 < b.1 || k.1 == b.1 && k.2 < b.2)) ==> #[trigger] m[k] == s[if ax == 0 { k.0 } else if ax == 1 { k.1 } else { k.2 }] }
%end
%fn src/utilities/maths.rs minmax
@ret r
@ensures
    bounds(arr@, arr@.len() as int, r), has_number(arr@, arr@.len() as int) ==> has(arr@, arr@.len() as int, r.0) && has(arr@, arr@.len() as int, r.1),
@loop 0
    invariant __i0 <= __n0, __n0 == arr@.len(), refs(__c0@, arr@), min == low(arr@, __i0 as int), max == high(arr@, __i0 as int),
    decreases __n0 - __i0
@exit
    proof { lemma_minmax(arr@, arr@.len() as int); }
%fn src/utilities/maths.rs meshgrid
@ret r
@attr #[verifier::loop_isolation(false)]
@ensures
    r.0.dimv() == (x@.len() as int, y@.len() as int), r.1.dimv() == r.0.dimv(),
    forall|k: I2| in2(r.0.dimv(), k) ==> #[trigger] r.0@[k] == x@[k.0], forall|k: I2| in2(r.0.dimv(), k) ==> #[trigger] r.1@[k] == y@[k.1],
@entry
    let ghost d = (x@.len() as int, y@.len() as int);
@loop 0
    invariant __i0 <= __n0, xx.dimv() == d, yy.dimv() == d, mesh2(xx@, d, x@, 0, __i0 as int, 0), mesh2(yy@, d, y@, 1, __i0 as int, 0),
    decreases __n0 - __i0
@loop 1
    invariant __i1 <= __n1, xx.dimv() == d, yy.dimv() == d, mesh2(xx@, d, x@, 0, __i0 - 1, __i1 as int), mesh2(yy@, d, y@, 1, __i0 - 1, __i1 as int),
    decreases __n1 - __i1
%fn src/utilities/maths.rs meshgrid3d
@ret r
@attr #[verifier::loop_isolation(false)]
@ensures
    r.0.dimv() == (x@.len() as int, y@.len() as int, z@.len() as int), r.1.dimv() == r.0.dimv(), r.2.dimv() == r.0.dimv(),
    forall|k: I3| in3(r.0.dimv(), k) ==> #[trigger] r.0@[k] == x@[k.0], forall|k: I3| in3(r.0.dimv(), k) ==> #[trigger] r.1@[k] == y@[k.1], forall|k: I3| in3(r.0.dimv(), k) ==> #[trigger] r.2@[k] == z@[k.2],
@entry
    let ghost d = (x@.len() as int, y@.len() as int, z@.len() as int);
@loop 0
    invariant __i0 <= __n0, xx.dimv() == d, yy.dimv() == d, zz.dimv() == d, mesh3(xx@, d, x@, 0, (__i0 as int, 0, 0)), mesh3(yy@, d, y@, 1, (__i0 as int, 0, 0)), mesh3(zz@, d, z@, 2, (__i0 as int, 0, 0)),
    decreases __n0 - __i0
@loop 1
    invariant __i1 <= __n1, xx.dimv() == d, yy.dimv() == d, zz.dimv() == d, mesh3(xx@, d, x@, 0, (__i0 - 1, __i1 as int, 0)), mesh3(yy@, d, y@, 1, (__i0 - 1, __i1 as int, 0)), mesh3(zz@, d, z@, 2, (__i0 - 1, __i1 as int, 0)),
    decreases __n1 - __i1
@loop 2
    invariant __i2 <= __n2, xx.dimv() == d, yy.dimv() == d, zz.dimv() == d, mesh3(xx@, d, x@, 0, (__i0 - 1, __i1 - 1, __i2 as int)), mesh3(yy@, d, y@, 1, (__i0 - 1, __i1 - 1, __i2 as int)), mesh3(zz@, d, z@, 2, (__i0 - 1, __i1 - 1, __i2 as int)),
    decreases __n2 - __i2
%fn src/utilities/maths.rs flatten_2d
@ret r
@ensures
    r@.len() == arr.dimv().0 * arr.dimv().1, forall|k: I2| in2(arr.dimv(), k) ==> r@[flat2(arr.dimv(), k)] == #[trigger] arr@[k],
@entry
    proof { assert forall|k: I2| in2(arr.dimv(), k) implies 0 <= #[trigger] flat2(arr.dimv(), k) < arr.dimv().0 * arr.dimv().1 && unflat2(arr.dimv(), flat2(arr.dimv(), k)) == k by { lemma_flat2(arr.dimv(), k); } }
%fn src/utilities/maths.rs flatten_3d
@ret r
@ensures
    r@.len() == size3(arr.dimv()), forall|k: I3| in3(arr.dimv(), k) ==> r@[flat3(arr.dimv(), k)] == #[trigger] arr@[k],
@entry
    proof { assert forall|k: I3| in3(arr.dimv(), k) implies 0 <= #[trigger] flat3(arr.dimv(), k) < size3(arr.dimv()) && unflat3(arr.dimv(), flat3(arr.dimv(), k)) == k by { lemma_flat3(arr.dimv(), k); } }
%fn src/utilities.rs nan_mean
@ret r
@ensures
    r == mean3(arr@, arr.dimv()),
@loop 0
    invariant __i0 <= __n0, __n0 == size3(arr.dimv()), __c0@.len() == __n0, arr.it_ok(__c0@), sum == known_s(arr@, arr.dimv(), __i0 as int), count == known_n(arr@, arr.dimv(), __i0 as int), count <= __i0,
    decreases __n0 - __i0
%fn src/utilities.rs nan_std
@ret r
@ensures
    r == dev3(arr@, arr.dimv()),
@loop 0
    invariant __i0 <= __n0, __n0 == size3(arr.dimv()), __c0@.len() == __n0, arr.it_ok(__c0@), mean == mean3(arr@, arr.dimv()), sum == known_q(arr@, arr.dimv(), mean, __i0 as int), count == known_n(arr@, arr.dimv(), __i0 as int), count <= __i0,
    decreases __n0 - __i0
