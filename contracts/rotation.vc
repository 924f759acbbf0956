%include core
%raw
// C29: a counter-clockwise turn about one axis, and the three turns one after the other
pub open spec fn turn(v: Seq<F>, ax: int, angle: F) -> Seq<F> {
    let (s, c) = (fsin(angle), fcos(angle)); let (x, y, z) = (v[0], v[1], v[2]);
    if ax == 0 { seq![x, fsub(fmul(y, c), fmul(z, s)), fadd(fmul(y, s), fmul(z, c))] }
    else if ax == 1 { seq![fadd(fmul(x, c), fmul(z, s)), y, fsub(fmul(z, c), fmul(x, s))] }
    else { seq![fsub(fmul(x, c), fmul(y, s)), fadd(fmul(x, s), fmul(y, c)), z] }
}
pub open spec fn turns(v: Seq<F>, an: Seq<F>, n: int) -> Seq<F> decreases n { if n <= 0 { v } else { turn(turns(v, an, n - 1), n - 1, an[n - 1]) } }
pub open spec fn minus(p: Seq<F>, a: Seq<F>) -> Seq<F> { seq![fsub(p[0], a[0]), fsub(p[1], a[1]), fsub(p[2], a[2])] }
pub open spec fn plus(p: Seq<F>, a: Seq<F>) -> Seq<F> { seq![fadd(p[0], a[0]), fadd(p[1], a[1]), fadd(p[2], a[2])] }
pub open spec fn rot_vel(v: Seq<F>, an: Seq<F>) -> Seq<F> { turns(v, an, 3) }
pub open spec fn rot_pos(p: Seq<F>, an: Seq<F>, a: Seq<F>) -> Seq<F> { plus(turns(minus(p, a), an, 3), a) }
// IEEE 754: the sign of a product, and a difference as a sum
pub broadcast axiom fn ax_mul_neg(a: F, b: F) ensures #[trigger] fmul(fneg(a), b) == fneg(fmul(a, b));
pub broadcast axiom fn ax_add_neg(a: F, b: F) ensures #[trigger] fadd(fneg(a), b) == fsub(b, a);
// IEEE 754 and libm facts about zero, one and finite numbers
pub open spec fn zero(a: F) -> bool { feq(a, fl(0, 1)) }
pub axiom fn ax_zero(a: F, b: F, c: F) ensures
    fsub(a, fl(0, 1)) == a, fmul(a, fl(1, 1)) == a, ffin(a) ==> zero(fsub(a, a)) && !fnan(a), zero(a) ==> ffin(a), feq(a, b) && ffin(a) ==> ffin(b),
    ffin(a) && zero(b) ==> zero(fmul(a, b)) && zero(fmul(b, a)), zero(a) && zero(b) ==> zero(fadd(a, b)) && zero(fsub(a, b)),
    zero(b) && !fnan(a) ==> feq(fadd(a, b), a) && feq(fadd(b, a), a) && feq(fsub(a, b), a),
    feq(a, b) && feq(b, c) ==> feq(a, c), feq(a, b) ==> feq(fadd(a, c), fadd(b, c)) || fnan(fadd(a, c)) && fnan(fadd(b, c)),
    ffin(a) ==> ffin(fsin(a)) && ffin(fcos(a)), zero(fsin(fl(0, 1))), fcos(fl(0, 1)) == fl(1, 1);
pub open spec fn veq(a: Seq<F>, b: Seq<F>) -> bool { a.len() == 3 && b.len() == 3 && forall|i: int| 0 <= i < 3 ==> #[trigger] feq(a[i], b[i]) || fnan(a[i]) && fnan(b[i]) }
pub open spec fn fin3(v: Seq<F>) -> bool { v.len() == 3 && ffin(v[0]) && ffin(v[1]) && ffin(v[2]) }
pub open spec fn all0(v: Seq<F>) -> bool { v.len() == 3 && zero(v[0]) && zero(v[1]) && zero(v[2]) }
pub open spec fn o3() -> Seq<F> { seq![fl(0, 1), fl(0, 1), fl(0, 1)] }
// rotating a velocity equals rotating a position with the origin as anchor
pub proof fn lemma_origin(v: Seq<F>, an: Seq<F>) requires v.len() == 3, ensures veq(rot_pos(v, an, o3()), rot_vel(v, an)) {
    let o = fl(0, 1);
    ax_zero(v[0], o, o); ax_zero(v[1], o, o); ax_zero(v[2], o, o);
    assert(minus(v, o3()) =~= v);
    let w = rot_vel(v, an);
    assert(w.len() == 3) by { reveal_with_fuel(turns, 4); }
    ax_zero(w[0], o, o); ax_zero(w[1], o, o); ax_zero(w[2], o, o);
    lemma_nan_add(w[0], o); lemma_nan_add(w[1], o); lemma_nan_add(w[2], o);
    let r = plus(w, o3());
    assert(rot_pos(v, an, o3()) =~= r);
    assert forall|i: int| 0 <= i < 3 implies #[trigger] feq(r[i], w[i]) || fnan(r[i]) && fnan(w[i]) by {}
}
pub axiom fn lemma_nan_add(a: F, b: F) ensures fnan(a) ==> fnan(fadd(a, b));
pub proof fn lemma_turn_zero(v: Seq<F>, ax: int, angle: F) requires all0(v), ffin(angle), ensures all0(turn(v, ax, angle)) {
    let (s, c) = (fsin(angle), fcos(angle)); let o = fl(0, 1);
    ax_zero(angle, o, o);
    ax_zero(s, v[0], o); ax_zero(s, v[1], o); ax_zero(s, v[2], o); ax_zero(c, v[0], o); ax_zero(c, v[1], o); ax_zero(c, v[2], o);
    let (x, y, z) = (v[0], v[1], v[2]);
    ax_zero(fmul(y, c), fmul(z, s), o); ax_zero(fmul(y, s), fmul(z, c), o); ax_zero(fmul(x, c), fmul(z, s), o); ax_zero(fmul(z, c), fmul(x, s), o); ax_zero(fmul(x, c), fmul(y, s), o); ax_zero(fmul(x, s), fmul(y, c), o);
}
// the anchor does not move
pub proof fn lemma_anchor(a: Seq<F>, an: Seq<F>) requires fin3(a), fin3(an), ensures veq(rot_pos(a, an, a), a) {
    let o = fl(0, 1);
    ax_zero(a[0], o, o); ax_zero(a[1], o, o); ax_zero(a[2], o, o);
    let d = minus(a, a);
    lemma_turn_zero(d, 0, an[0]); lemma_turn_zero(turn(d, 0, an[0]), 1, an[1]); lemma_turn_zero(turn(turn(d, 0, an[0]), 1, an[1]), 2, an[2]);
    let w = turns(d, an, 3);
    assert(w =~= turn(turn(turn(d, 0, an[0]), 1, an[1]), 2, an[2])) by { reveal_with_fuel(turns, 4); }
    ax_zero(a[0], w[0], o); ax_zero(a[1], w[1], o); ax_zero(a[2], w[2], o);
    let r = plus(w, a);
    assert forall|i: int| 0 <= i < 3 implies #[trigger] feq(r[i], a[i]) || fnan(r[i]) && fnan(a[i]) by {}
}
pub open spec fn same3(a: Seq<F>, b: Seq<F>) -> bool { a.len() == 3 && b.len() == 3 && feq(a[0], b[0]) && feq(a[1], b[1]) && feq(a[2], b[2]) }
pub proof fn lemma_turn_none(v: Seq<F>, ax: int) requires fin3(v), ensures same3(turn(v, ax, fl(0, 1)), v), fin3(turn(v, ax, fl(0, 1))) {
    let o = fl(0, 1); let s = fsin(o);
    ax_zero(v[0], s, o); ax_zero(v[1], s, o); ax_zero(v[2], s, o);
    let (x, y, z) = (v[0], v[1], v[2]);
    ax_zero(x, fmul(y, s), o); ax_zero(x, fmul(z, s), o); ax_zero(y, fmul(x, s), o); ax_zero(y, fmul(z, s), o); ax_zero(z, fmul(x, s), o); ax_zero(z, fmul(y, s), o);
    let w = turn(v, ax, o);
    ax_zero(x, w[0], o); ax_zero(y, w[1], o); ax_zero(z, w[2], o);
}
// zero angles change nothing (a position: nothing beyond the rounding of going to the anchor and back)
pub proof fn lemma_none(v: Seq<F>, a: Seq<F>) requires v.len() == 3, a.len() == 3,
    ensures fin3(v) ==> veq(rot_vel(v, o3()), v), fin3(minus(v, a)) ==> veq(rot_pos(v, o3(), a), plus(minus(v, a), a)),
{
    if fin3(v) { lemma_none_vel(v); }
    let d = minus(v, a);
    if fin3(d) {
        lemma_none_vel(d);
        let w = rot_vel(d, o3());
        ax_zero(w[0], d[0], a[0]); ax_zero(w[1], d[1], a[1]); ax_zero(w[2], d[2], a[2]);
        let r = plus(w, a); let q = plus(d, a);
        assert forall|i: int| 0 <= i < 3 implies #[trigger] feq(r[i], q[i]) || fnan(r[i]) && fnan(q[i]) by {}
    }
}
pub proof fn lemma_none_vel(v: Seq<F>) requires fin3(v), ensures same3(rot_vel(v, o3()), v), veq(rot_vel(v, o3()), v) {
    let o = fl(0, 1);
    let a = turn(v, 0, o); let b = turn(a, 1, o); let c = turn(b, 2, o);
    lemma_turn_none(v, 0); lemma_turn_none(a, 1); lemma_turn_none(b, 2);
    ax_zero(b[0], a[0], v[0]); ax_zero(b[1], a[1], v[1]); ax_zero(b[2], a[2], v[2]); ax_zero(c[0], b[0], v[0]); ax_zero(c[1], b[1], v[1]); ax_zero(c[2], b[2], v[2]);
    assert(rot_vel(v, o3()) =~= c) by { reveal_with_fuel(turns, 4); assert(o3()[0] == o && o3()[1] == o && o3()[2] == o); }
    assert forall|i: int| 0 <= i < 3 implies #[trigger] feq(c[i], v[i]) || fnan(c[i]) && fnan(v[i]) by {}
}
pub open spec fn item(x: (usize, &F), i: int, an: Seq<F>) -> bool { x.0 == i && *x.1 == an[i] }
%end
%fn src/datamanager/utilities.rs rotate_position
@ret r
@ensures
    r@ =~= rot_pos(position@, angles@, anchor@),
    anchor@ == o3() ==> veq(r@, rot_vel(position@, angles@)),
    position@ == anchor@ && fin3(anchor@) && fin3(angles@) ==> veq(r@, anchor@),
    angles@ == o3() && fin3(minus(position@, anchor@)) ==> veq(r@, plus(minus(position@, anchor@), anchor@)),
@loop 0
    invariant __i0 <= __n0, __n0 == 3, __c0@.len() == 3, forall|i: int| 0 <= i < 3 ==> item(#[trigger] __c0@[i], i, angles@), new_position@ =~= turns(minus(position@, anchor@), angles@, __i0 as int),
    decreases __n0 - __i0
@body 0
    broadcast use {ax_mul_neg, ax_add_neg};
    proof { let i = __i0 - 1; assert(item(__c0@[i], i, angles@)); }
@entry
    proof { lemma_origin(position@, angles@); if fin3(anchor@) && fin3(angles@) { lemma_anchor(anchor@, angles@); } lemma_none(position@, anchor@); }
%fn src/datamanager/utilities.rs rotate_velocity
@ret r
@ensures
    r@ =~= rot_vel(velocity@, angles@),
    angles@ == o3() && fin3(velocity@) ==> veq(r@, velocity@),
@loop 0
    invariant __i0 <= __n0, __n0 == 3, __c0@.len() == 3, forall|i: int| 0 <= i < 3 ==> item(#[trigger] __c0@[i], i, angles@), new_velocity@ =~= turns(velocity@, angles@, __i0 as int),
    decreases __n0 - __i0
@body 0
    broadcast use {ax_mul_neg, ax_add_neg};
    proof { let i = __i0 - 1; assert(item(__c0@[i], i, angles@)); }
@entry
    proof { lemma_none(velocity@, o3()); }
