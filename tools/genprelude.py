#!/usr/bin/env python3
"""Writes prelude/core.rs: the trusted vocabulary of the extracted code (numbers, arrays, iterators).

Every `external_body` below is an assumed contract on a dependency (f64, ndarray, std iterators);
the check counts and lists them in the evidence of each run."""
import os
out = []
def w(s): out.append(s)
w('''use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::core::*;
verus! {
// ---------------------------------------------------------------- numbers
// F stands for f64.  Arithmetic is uninterpreted: a proof may use only what is stated here.
#[derive(Clone, Copy)]
pub struct F { pub v: f64 }
pub uninterp spec fn fl(n: int, d: int) -> F;      // the double nearest to n/d
pub uninterp spec fn fadd(a: F, b: F) -> F;
pub uninterp spec fn fsub(a: F, b: F) -> F;
pub uninterp spec fn fmul(a: F, b: F) -> F;
pub uninterp spec fn fdiv(a: F, b: F) -> F;
pub uninterp spec fn fneg(a: F) -> F;
pub uninterp spec fn flt(a: F, b: F) -> bool;
pub uninterp spec fn feq(a: F, b: F) -> bool;
pub open spec fn fle(a: F, b: F) -> bool { flt(a, b) || feq(a, b) }
pub uninterp spec fn fnan(a: F) -> bool;
pub uninterp spec fn ffin(a: F) -> bool;            // neither NaN nor infinite
pub uninterp spec fn fsqrt(a: F) -> F;
pub uninterp spec fn fabs(a: F) -> F;
pub uninterp spec fn fpowi(a: F, n: int) -> F;
pub uninterp spec fn ffloor(a: F) -> F;
pub uninterp spec fn fatan2(a: F, b: F) -> F;
pub uninterp spec fn fsin(a: F) -> F;
pub uninterp spec fn fcos(a: F) -> F;
pub uninterp spec fn ftou(a: F) -> usize;           // `as usize`: truncation, saturating, NaN to 0
pub uninterp spec fn F_PI() -> F;
pub uninterp spec fn F_NAN() -> F;
pub uninterp spec fn F_MAX() -> F;
pub uninterp spec fn F_MIN() -> F;
pub uninterp spec fn F_INF() -> F;

// IEEE 754 facts used by proofs (trusted)
pub broadcast axiom fn ax_powi2(a: F) ensures #[trigger] fpowi(a, 2) == fmul(a, a);
pub broadcast axiom fn ax_nan_lt(a: F, b: F) ensures #[trigger] flt(a, b) ==> !fnan(a) && !fnan(b);
pub broadcast axiom fn ax_nan_eq(a: F, b: F) ensures #[trigger] feq(a, b) ==> !fnan(a) && !fnan(b);
pub broadcast axiom fn ax_eq_refl(a: F) ensures #[trigger] feq(a, a) == !fnan(a);
pub broadcast axiom fn ax_eq_sym(a: F, b: F) ensures #[trigger] feq(a, b) == feq(b, a);
pub broadcast axiom fn ax_lt_asym(a: F, b: F) ensures #[trigger] flt(a, b) ==> !flt(b, a) && !feq(a, b);
pub broadcast axiom fn ax_total(a: F, b: F) ensures !fnan(a) && !fnan(b) ==> #[trigger] flt(a, b) || flt(b, a) || feq(a, b);
pub broadcast axiom fn ax_add_comm(a: F, b: F) ensures #[trigger] fadd(a, b) == fadd(b, a);
pub broadcast axiom fn ax_mul_comm(a: F, b: F) ensures #[trigger] fmul(a, b) == fmul(b, a);
// every number lies between the infinities
pub axiom fn ax_inf(a: F) ensures !fnan(F_INF()), !fnan(fneg(F_INF())), !fnan(a) ==> fle(a, F_INF()) && fle(fneg(F_INF()), a);
pub broadcast axiom fn ax_nan() ensures #[trigger] fnan(F_NAN());
pub broadcast axiom fn ax_lit_num(n: int, d: int) ensures d > 0 ==> !fnan(#[trigger] fl(n, d));
pub proof fn ax_lt_trans(a: F, b: F, c: F) ensures flt(a, b) && flt(b, c) ==> flt(a, c) { admit(); }
pub proof fn ax_le_trans(a: F, b: F, c: F) ensures fle(a, b) && fle(b, c) ==> fle(a, c) { admit(); }
pub proof fn ax_lt_le_trans(a: F, b: F, c: F) ensures (flt(a, b) && fle(b, c) ==> flt(a, c)) && (fle(a, b) && flt(b, c) ==> flt(a, c)) { admit(); }
pub broadcast group float_axioms { ax_powi2, ax_nan_lt, ax_nan_eq, ax_eq_refl, ax_eq_sym, ax_lt_asym, ax_total, ax_lit_num, ax_add_comm, ax_mul_comm }

#[verifier::external_body]
pub fn lit(n: i64, d: u64) -> (r: F) ensures r == fl(n as int, d as int) { unimplemented!() }
#[verifier::external_body] pub fn f_pi() -> (r: F) ensures r == F_PI() { unimplemented!() }
#[verifier::external_body] pub fn f_nan() -> (r: F) ensures r == F_NAN() { unimplemented!() }
#[verifier::external_body] pub fn f_max() -> (r: F) ensures r == F_MAX() { unimplemented!() }
#[verifier::external_body] pub fn f_min() -> (r: F) ensures r == F_MIN() { unimplemented!() }
#[verifier::external_body] pub fn f_ninf() -> (r: F) ensures r == fneg(F_INF()) { unimplemented!() }
#[verifier::external_body] pub fn f_inf() -> (r: F) ensures r == F_INF() { unimplemented!() }
impl F {
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == fnan(self) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: F) ensures r == fabs(self) { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: F) ensures r == fsqrt(self) { unimplemented!() }
    #[verifier::external_body] pub fn floor(self) -> (r: F) ensures r == ffloor(self) { unimplemented!() }
    #[verifier::external_body] pub fn powi(self, n: i32) -> (r: F) ensures r == fpowi(self, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn atan2(self, o: F) -> (r: F) ensures r == fatan2(self, o) { unimplemented!() }
    #[verifier::external_body] pub fn sin(self) -> (r: F) ensures r == fsin(self) { unimplemented!() }
    #[verifier::external_body] pub fn cos(self) -> (r: F) ensures r == fcos(self) { unimplemented!() }
    #[verifier::external_body] pub fn powf(self, e: F) -> (r: F) ensures r == fpowf(self, e) { unimplemented!() }
    #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r == ffin(self) { unimplemented!() }
    #[verifier::external_body] pub fn is_infinite(self) -> (r: bool) ensures r == (!ffin(self) && !fnan(self)) { unimplemented!() }
    #[verifier::external_body] pub fn ceil(self) -> (r: F) ensures r == f1(1, self) { unimplemented!() }
    #[verifier::external_body] pub fn round(self) -> (r: F) ensures r == f1(2, self) { unimplemented!() }
    #[verifier::external_body] pub fn trunc(self) -> (r: F) ensures r == f1(3, self) { unimplemented!() }
    #[verifier::external_body] pub fn fract(self) -> (r: F) ensures r == f1(4, self) { unimplemented!() }
    #[verifier::external_body] pub fn signum(self) -> (r: F) ensures r == f1(5, self) { unimplemented!() }
    #[verifier::external_body] pub fn recip(self) -> (r: F) ensures r == fdiv(fl(1, 1), self) { unimplemented!() }
    #[verifier::external_body] pub fn exp(self) -> (r: F) ensures r == f1(6, self) { unimplemented!() }
    #[verifier::external_body] pub fn ln(self) -> (r: F) ensures r == f1(7, self) { unimplemented!() }
    #[verifier::external_body] pub fn to_radians(self) -> (r: F) ensures r == f1(8, self) { unimplemented!() }
    #[verifier::external_body] pub fn to_degrees(self) -> (r: F) ensures r == f1(9, self) { unimplemented!() }
    #[verifier::external_body] pub fn hypot(self, o: F) -> (r: F) ensures r == f2(2, self, o) { unimplemented!() }
    #[verifier::external_body] pub fn rem_euclid(self, o: F) -> (r: F) ensures r == f2(3, self, o) { unimplemented!() }
    #[verifier::external_body] pub fn clamp(self, a: F, b: F) -> (r: F) requires fle(a, b) ensures r == (if flt(self, a) { a } else if flt(b, self) { b } else { self }) { unimplemented!() }
    #[verifier::external_body] pub fn sin_cos(self) -> (r: (F, F)) ensures r.0 == fsin(self), r.1 == fcos(self) { unimplemented!() }
}
// functions of which nothing is known but that they are functions
pub uninterp spec fn f1(which: int, a: F) -> F;
pub uninterp spec fn f2(which: int, a: F, b: F) -> F;
pub uninterp spec fn fpowf(a: F, b: F) -> F;
// casts
// single precision: compared and converted back, no arithmetic
#[verifier::external_body] #[derive(Clone, Copy)] pub struct F32 { p: f32 }
impl View for F32 { type V = F; uninterp spec fn view(&self) -> F; }
pub uninterp spec fn fsingle(a: F) -> F;
pub trait X32: Sized { spec fn single(self) -> F; fn x_f32(self) -> (r: F32) ensures r@ == self.single(); }
impl X32 for F { open spec fn single(self) -> F { fsingle(self) } #[verifier::external_body] fn x_f32(self) -> (r: F32) { unimplemented!() } }
impl X32 for usize { open spec fn single(self) -> F { fsingle(fl(self as int, 1)) } #[verifier::external_body] fn x_f32(self) -> (r: F32) { unimplemented!() } }
impl XF for F32 { open spec fn xf(self) -> F { self@ } #[verifier::external_body] fn x_f(self) -> (r: F) { unimplemented!() } }
pub trait XF: Sized { spec fn xf(self) -> F; fn x_f(self) -> (r: F) ensures r == self.xf(); }
impl XF for usize { open spec fn xf(self) -> F { fl(self as int, 1) } #[verifier::external_body] fn x_f(self) -> (r: F) { unimplemented!() } }
impl XF for i32 { open spec fn xf(self) -> F { fl(self as int, 1) } #[verifier::external_body] fn x_f(self) -> (r: F) { unimplemented!() } }
impl XF for F { open spec fn xf(self) -> F { self } fn x_f(self) -> (r: F) { self } }
pub trait XU: Sized { spec fn xu(self) -> usize; fn x_us(self) -> (r: usize) ensures r == self.xu(); }
impl XU for usize { open spec fn xu(self) -> usize { self } fn x_us(self) -> (r: usize) { self } }
impl XU for F { open spec fn xu(self) -> usize { ftou(self) } #[verifier::external_body] fn x_us(self) -> (r: usize) { unimplemented!() } }

// ---------------------------------------------------------------- panics
#[verifier::external_body]
pub fn xpanic() -> ! ensures false { panic!() }
#[verifier::external_body]
pub fn xunreachable() -> ! requires false { panic!() }
#[derive(Debug)]
pub struct XErr {}
// loop bounds
pub trait XUse: Sized { spec fn us(self) -> usize; fn x_use(self) -> (r: usize) ensures r == self.us(); }
impl XUse for usize { open spec fn us(self) -> usize { self } fn x_use(self) -> (r: usize) { self } }
impl XUse for &usize { open spec fn us(self) -> usize { *self } fn x_use(self) -> (r: usize) { *self } }

// ---------------------------------------------------------------- operators
''')
INTS = ("usize", "i32", "i64", "u32", "u64", "isize")
for t in INTS:
    if t not in ("usize", "i32"): w(f"impl XF for {t} {{ open spec fn xf(self) -> F {{ fl(self as int, 1) }} #[verifier::external_body] fn x_f(self) -> (r: F) {{ unimplemented!() }} }}")
    if t != "usize": w(f"impl XU for {t} {{ open spec fn xu(self) -> usize {{ self as usize }} #[verifier::truncate] fn x_us(self) -> (r: usize) {{ self as usize }} }}")
    if t == "usize": continue
    w(f"pub uninterp spec fn fto_{t}(a: F) -> {t};")
    w(f"pub trait X{t}: Sized {{ spec fn as_{t}(self) -> {t}; fn x_{t}(self) -> (r: {t}) ensures r == self.as_{t}(); }}")
    w(f"impl X{t} for F {{ open spec fn as_{t}(self) -> {t} {{ fto_{t}(self) }} #[verifier::external_body] fn x_{t}(self) -> (r: {t}) {{ unimplemented!() }} }}")
    for u in INTS: w(f"impl X{t} for {u} {{ open spec fn as_{t}(self) -> {t} {{ self as {t} }} #[verifier::truncate] fn x_{t}(self) -> (r: {t}) {{ self as {t} }} }}")

for N, n in (("Add","add"),("Sub","sub"),("Mul","mul"),("Div","div")):
    w(f'''pub trait X{N}<R>: Sized {{ type O; spec fn {n}_rq(self, r: R) -> bool; spec fn {n}_en(self, r: R, o: Self::O) -> bool;
    fn x_{n}(self, r: R) -> (o: Self::O) requires self.{n}_rq(r) ensures self.{n}_en(r, o); }}
pub trait X{N}Assign<R>: Sized {{ spec fn {n}a_rq(self, r: R) -> bool; spec fn {n}a_en(self, r: R, o: Self) -> bool;
    fn x_{n}_assign(&mut self, r: R) requires old(self).{n}a_rq(r) ensures old(self).{n}a_en(r, *final(self)); }}''')
    D = lambda t, e: f"*{e}" if t.startswith("&") else e
    for s in ("F","&F"):
        for r in ("F","&F"):
            w(f'''impl X{N}<{r}> for {s} {{ type O = F; open spec fn {n}_rq(self, r: {r}) -> bool {{ true }} open spec fn {n}_en(self, r: {r}, o: F) -> bool {{ o == f{n}({D(s,"self")}, {D(r,"r")}) }}
    #[verifier::external_body] fn x_{n}(self, r: {r}) -> (o: F) {{ unimplemented!() }} }}''')
    for r in ("F","&F"):
        w(f'''impl X{N}Assign<{r}> for F {{ open spec fn {n}a_rq(self, r: {r}) -> bool {{ true }} open spec fn {n}a_en(self, r: {r}, o: F) -> bool {{ o == f{n}(self, {D(r,"r")}) }}
    #[verifier::external_body] fn x_{n}_assign(&mut self, r: {r}) {{ unimplemented!() }} }}''')
    op = {"add":"+","sub":"-","mul":"*","div":"/"}[n]
    for s in ("usize","&usize"):
        for r in ("usize","&usize"):
            a, b = D(s,"self"), D(r,"r")
            rq = {"add":f"{a} + {b} <= usize::MAX","sub":f"{a} >= {b}","mul":f"{a} * {b} <= usize::MAX","div":f"{b} != 0"}[n]
            w(f'''impl X{N}<{r}> for {s} {{ type O = usize; open spec fn {n}_rq(self, r: {r}) -> bool {{ {rq} }} open spec fn {n}_en(self, r: {r}, o: usize) -> bool {{ o == {a} {op} {b} }}
    fn x_{n}(self, r: {r}) -> (o: usize) {{ {a} {op} {b} }} }}''')
    rq = {"add":"self + r <= usize::MAX","sub":"self >= r","mul":"self * r <= usize::MAX","div":"r != 0"}[n]
    w(f'''impl X{N}Assign<usize> for usize {{ open spec fn {n}a_rq(self, r: usize) -> bool {{ {rq} }} open spec fn {n}a_en(self, r: usize, o: usize) -> bool {{ o == self {op} r }}
    fn x_{n}_assign(&mut self, r: usize) {{ *self = *self {op} r; }} }}''')
    if n != "div":
        for t in ("i32", "i64", "u32", "u64", "isize"):
            rq = f"{t}::MIN <= self {op} r <= {t}::MAX"
            w(f'''impl X{N}<{t}> for {t} {{ type O = {t}; open spec fn {n}_rq(self, r: {t}) -> bool {{ {rq} }} open spec fn {n}_en(self, r: {t}, o: {t}) -> bool {{ o == self {op} r }} fn x_{n}(self, r: {t}) -> (o: {t}) {{ self {op} r }} }}
impl X{N}Assign<{t}> for {t} {{ open spec fn {n}a_rq(self, r: {t}) -> bool {{ {rq} }} open spec fn {n}a_en(self, r: {t}, o: {t}) -> bool {{ o == self {op} r }} fn x_{n}_assign(&mut self, r: {t}) {{ *self = *self {op} r; }} }}''')
w('''impl XRem<usize> for usize { type O = usize; open spec fn rem_rq(self, r: usize) -> bool { r != 0 } open spec fn rem_en(self, r: usize, o: usize) -> bool { o == self % r }
    fn x_rem(self, r: usize) -> (o: usize) { self % r } }
impl XRem<F> for F { type O = F; open spec fn rem_rq(self, r: F) -> bool { true } open spec fn rem_en(self, r: F, o: F) -> bool { o == f2(1, self, r) } #[verifier::external_body] fn x_rem(self, r: F) -> (o: F) { unimplemented!() } }
pub trait XRem<R>: Sized { type O; spec fn rem_rq(self, r: R) -> bool; spec fn rem_en(self, r: R, o: Self::O) -> bool;
    fn x_rem(self, r: R) -> (o: Self::O) requires self.rem_rq(r) ensures self.rem_en(r, o); }
pub trait XNeg: Sized { spec fn ng(self) -> Self; fn x_neg(self) -> (r: Self) ensures r == self.ng(); }
impl XNeg for F { open spec fn ng(self) -> F { fneg(self) } #[verifier::external_body] fn x_neg(self) -> (r: F) { unimplemented!() } }
pub trait XCmp<R>: Sized { spec fn slt(self, r: R) -> bool; spec fn sle(self, r: R) -> bool; spec fn sgt(self, r: R) -> bool; spec fn sge(self, r: R) -> bool;
    fn x_lt(self, r: R) -> (b: bool) ensures b == self.slt(r);
    fn x_le(self, r: R) -> (b: bool) ensures b == self.sle(r);
    fn x_gt(self, r: R) -> (b: bool) ensures b == self.sgt(r);
    fn x_ge(self, r: R) -> (b: bool) ensures b == self.sge(r); }
pub trait XEq<R>: Sized { spec fn seq_(self, r: R) -> bool; fn x_eq(self, r: R) -> (b: bool) ensures b == self.seq_(r); }
impl<'a, 'b> XEq<&'b str> for &'a str { open spec fn seq_(self, r: &'b str) -> bool { self@ == r@ } #[verifier::external_body] fn x_eq(self, r: &'b str) -> (b: bool) { self == r } }
''')
for s in ("F","&F","usize","&usize","i32","i64","u32","u64","isize","F32"):
    a = "*self" if s[0]=="&" else "self"; b = "*r" if s[0]=="&" else "r"
    real = lambda op: f"{{ {a} {op} {b} }}"
    if s[-1]=="F" or s == "F32":
        k = lambda f, x, y: f"{f}({x}, {y})" if s != "F32" else f"{f}({x}@, {y}@)"
        lt=k("flt",a,b); le=k("fle",a,b); gt=k("flt",b,a); ge=k("fle",b,a); eq=k("feq",a,b)
        ext, real = "#[verifier::external_body] ", lambda op: "{ unimplemented!() }"
    else:
        lt=f"{a} < {b}"; le=f"{a} <= {b}"; gt=f"{a} > {b}"; ge=f"{a} >= {b}"; eq=f"{a} == {b}"; ext=""
    w(f'''impl XCmp<{s}> for {s} {{ open spec fn slt(self, r: {s}) -> bool {{ {lt} }} open spec fn sle(self, r: {s}) -> bool {{ {le} }} open spec fn sgt(self, r: {s}) -> bool {{ {gt} }} open spec fn sge(self, r: {s}) -> bool {{ {ge} }}
    {ext}fn x_lt(self, r: {s}) -> (b: bool) {real("<")}
    {ext}fn x_le(self, r: {s}) -> (b: bool) {real("<=")}
    {ext}fn x_gt(self, r: {s}) -> (b: bool) {real(">")}
    {ext}fn x_ge(self, r: {s}) -> (b: bool) {real(">=")} }}
impl XEq<{s}> for {s} {{ open spec fn seq_(self, r: {s}) -> bool {{ {eq} }} {ext}fn x_eq(self, r: {s}) -> (b: bool) {real("==")} }}''')

w('''
// ---------------------------------------------------------------- iterators
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { p: Vec<T> }
impl<T> View for It<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub uninterp spec fn fsum(s: Seq<F>) -> F;   // left-to-right sum from 0, as std's Sum
impl<T> It<T> {
    #[verifier::external_body]
    pub fn len_(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn at_(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, G: Fn(T) -> U>(self, g: G) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> g.requires((#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < self@.len() ==> g.ensures((self@[i],), r@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn all<G: Fn(T) -> bool>(self, g: G) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> g.requires((#[trigger] self@[i],))
        ensures r ==> forall|i: int| 0 <= i < self@.len() ==> g.ensures((#[trigger] self@[i],), true),
            !r ==> exists|i: int| 0 <= i < self@.len() && g.ensures((#[trigger] self@[i],), false) { unimplemented!() }
    #[verifier::external_body]
    pub fn any<G: Fn(T) -> bool>(self, g: G) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> g.requires((#[trigger] self@[i],))
        ensures !r ==> forall|i: int| 0 <= i < self@.len() ==> g.ensures((#[trigger] self@[i],), false),
            r ==> exists|i: int| 0 <= i < self@.len() && g.ensures((#[trigger] self@[i],), true) { unimplemented!() }
    #[verifier::external_body]
    pub fn position<G: Fn(T) -> bool>(self, g: G) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> g.requires((#[trigger] self@[i],))
        ensures match r {
            Some(k) => k < self@.len() && g.ensures((self@[k as int],), true) && forall|i: int| 0 <= i < k ==> g.ensures((#[trigger] self@[i],), false),
            None => forall|i: int| 0 <= i < self@.len() ==> g.ensures((#[trigger] self@[i],), false) } { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>)
        ensures r@.len() == (if self@.len() <= n { 0 } else { self@.len() - n }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self@[i + n] { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>)
        ensures r@.len() == (if self@.len() <= n { self@.len() as int } else { n as int }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self@[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self@[self@.len() - 1 - i] { unimplemented!() }
    #[verifier::external_body]
    pub fn step_by(self, n: usize) -> (r: It<T>)
        requires n > 0
        ensures r@.len() <= self@.len(), r@.len() * n >= self@.len(), (r@.len() - 1) * n < self@.len(), forall|i: int| 0 <= i < r@.len() ==> 0 <= i * n < self@.len() && #[trigger] r@[i] == self@[i * n] { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>) ensures r == (if self@.len() == 0 { None } else { Some(self@[self@.len() - 1]) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    // in which order is not stated
    #[verifier::external_body]
    pub fn sorted(self) -> (r: It<T>) ensures r@.len() == self@.len() { unimplemented!() }
    // which elements stay is not stated
    #[verifier::external_body]
    pub fn filter<G: Fn(&T) -> bool>(self, g: G) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> g.requires((&#[trigger] self@[i],))
        ensures r@.len() <= self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U>(self, o: It<U>) -> (r: It<(T, U)>)
        ensures r@.len() == if self@.len() <= o@.len() { self@.len() } else { o@.len() },
            forall|i: int| #![trigger r@[i]] #![trigger self@[i]] #![trigger o@[i]] 0 <= i < r@.len() ==> r@[i] == (self@[i], o@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>)
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i] == (i as usize, self@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold<B, G: Fn(B, T) -> B>(self, init: B, g: G) -> (r: B)
        requires forall|b: B, i: int| 0 <= i < self@.len() ==> #[trigger] g.requires((b, self@[i]))
        ensures exists|s: Seq<B>| s.len() == self@.len() + 1 && s[0] == init && s[self@.len() as int] == r
            && forall|i: int| 0 <= i < self@.len() ==> g.ensures((s[i], self@[i]), #[trigger] s[i + 1]) { unimplemented!() }
    #[verifier::external_body]
    pub fn x_collect<C: FromIt<T>>(self) -> (r: C) ensures r.from_seq(self@) { unimplemented!() }
    // the position of the last element that satisfies the predicate
    #[verifier::external_body]
    pub fn rposition<G: Fn(T) -> bool>(self, g: G) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> g.requires((#[trigger] self@[i],))
        ensures match r {
            Some(k) => k < self@.len() && g.ensures((self@[k as int],), true) && forall|i: int| k < i < self@.len() ==> g.ensures((#[trigger] self@[i],), false),
            None => forall|i: int| 0 <= i < self@.len() ==> g.ensures((#[trigger] self@[i],), false) } { unimplemented!() }
}
impl<'a, T: Copy> It<&'a T> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: It<T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self@[i] { unimplemented!() }
}
pub open spec fn same_seq<T>(s: Seq<T>, t: Seq<T>) -> bool { s.len() == t.len() && forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < s.len() ==> s[i] == t[i] }
impl It<F> { #[verifier::external_body] pub fn sum(self) -> (r: F) ensures r == fsum(self@), forall|s: Seq<F>| same_seq(s, self@) ==> #[trigger] fsum(s) == r { unimplemented!() } }
#[verifier::external_body]
pub fn x_range(a: usize, b: usize) -> (r: It<usize>) ensures r@.len() == (if b > a { b - a } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a + i { unimplemented!() }
pub trait FromIt<T>: Sized { spec fn from_seq(self, s: Seq<T>) -> bool; }
impl<T> FromIt<T> for Array1<T> { open spec fn from_seq(self, s: Seq<T>) -> bool { self@ == s } }
impl<T> FromIt<T> for Vec<T> { open spec fn from_seq(self, s: Seq<T>) -> bool { self@ == s } }
pub trait XIter { type T; spec fn it_ok<'a>(&'a self, s: Seq<&'a Self::T>) -> bool;
    fn x_iter<'a>(&'a self) -> (r: It<&'a Self::T>) ensures self.it_ok(r@); }
pub open spec fn refs<T>(s: Seq<&T>, t: Seq<T>) -> bool { s.len() == t.len() && forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < t.len() ==> *s[i] == t[i] }
impl<T> XIter for Vec<T> { type T = T; open spec fn it_ok<'a>(&'a self, s: Seq<&'a T>) -> bool { refs(s, self@) } #[verifier::external_body] fn x_iter<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() } }
impl<T, const N: usize> XIter for [T; N] { type T = T; open spec fn it_ok<'a>(&'a self, s: Seq<&'a T>) -> bool { refs(s, self@) } #[verifier::external_body] fn x_iter<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() } }
impl<T> XIter for Array1<T> { type T = T; open spec fn it_ok<'a>(&'a self, s: Seq<&'a T>) -> bool { refs(s, self@) } #[verifier::external_body] fn x_iter<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() } }
impl<T> XIter for Array2<T> { type T = T; open spec fn it_ok<'a>(&'a self, s: Seq<&'a T>) -> bool { s.len() == self.dimv().0 * self.dimv().1 && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == self@[unflat2(self.dimv(), i)] } #[verifier::external_body] fn x_iter<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() } }
impl<T> XIter for Array3<T> { type T = T; open spec fn it_ok<'a>(&'a self, s: Seq<&'a T>) -> bool { s.len() == size3(self.dimv()) && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == self@[unflat3(self.dimv(), i)] } #[verifier::external_body] fn x_iter<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() } }
// for x in E
pub trait XFor { type T; spec fn for_ok(self, s: Seq<Self::T>) -> bool; fn x_for(self) -> (r: It<Self::T>) ensures self.for_ok(r@); }
impl<T> XFor for It<T> { type T = T; open spec fn for_ok(self, s: Seq<T>) -> bool { s == self@ } fn x_for(self) -> (r: It<T>) { self } }
impl<T> XFor for Vec<T> { type T = T; open spec fn for_ok(self, s: Seq<T>) -> bool { s == self@ } #[verifier::external_body] fn x_for(self) -> (r: It<T>) { unimplemented!() } }
impl<'a, T, const N: usize> XFor for &'a [T; N] { type T = &'a T; open spec fn for_ok(self, s: Seq<&'a T>) -> bool { refs(s, self@) } #[verifier::external_body] fn x_for(self) -> (r: It<&'a T>) { unimplemented!() } }

impl<'a, T> XFor for &'a Vec<T> { type T = &'a T; open spec fn for_ok(self, s: Seq<&'a T>) -> bool { refs(s, self@) } #[verifier::external_body] fn x_for(self) -> (r: It<&'a T>) { unimplemented!() } }
// a trait, so that a prelude with its own `find` takes precedence
pub trait XFind<T>: Sized + View<V = Seq<T>> {
    fn find<G: Fn(&T) -> bool>(self, g: G) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> g.requires((&#[trigger] self@[i],))
        ensures match r {
            Some(x) => exists|k: int| 0 <= k < self@.len() && #[trigger] self@[k] == x && g.ensures((&self@[k],), true) && forall|i: int| 0 <= i < k ==> g.ensures((&#[trigger] self@[i],), false),
            None => forall|i: int| 0 <= i < self@.len() ==> g.ensures((&#[trigger] self@[i],), false) };
}
impl<T> XFind<T> for It<T> { #[verifier::external_body] fn find<G: Fn(&T) -> bool>(self, g: G) -> (r: Option<T>) { unimplemented!() } }
// clone of a value without interior references
pub trait XOwn: Sized { fn own(&self) -> (r: Self) ensures r == *self; }
impl XOwn for F { fn own(&self) -> (r: F) { *self } }
impl XOwn for usize { fn own(&self) -> (r: usize) { *self } }
impl XOwn for bool { fn own(&self) -> (r: bool) { *self } }
impl XOwn for Vec<F> { #[verifier::external_body] fn own(&self) -> (r: Vec<F>) { unimplemented!() } }
impl XOwn for Vec<usize> { #[verifier::external_body] fn own(&self) -> (r: Vec<usize>) { unimplemented!() } }

// ---------------------------------------------------------------- Vec helpers
pub trait XVec<T> { 
    spec fn xv(&self) -> Seq<T>; }
impl<T> XVec<T> for Vec<T> { open spec fn xv(&self) -> Seq<T> { self@ } }
pub trait XContains<T> { spec fn has(&self, x: T) -> bool; fn x_contains(&self, x: &T) -> (r: bool) ensures r == self.has(*x); }
impl XContains<F> for Vec<F> { open spec fn has(&self, x: F) -> bool { exists|i: int| 0 <= i < self@.len() && feq(#[trigger] self@[i], x) } #[verifier::external_body] fn x_contains(&self, x: &F) -> (r: bool) { unimplemented!() } }
impl XContains<usize> for Vec<usize> { open spec fn has(&self, x: usize) -> bool { exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == x } #[verifier::external_body] fn x_contains(&self, x: &usize) -> (r: bool) { unimplemented!() } }
impl<'a> XContains<&'a str> for Vec<&'a str> { open spec fn has(&self, x: &'a str) -> bool { exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i])@ == x@ } #[verifier::external_body] fn x_contains(&self, x: &&'a str) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
pub fn vec_from_array<T, const N: usize>(x: [T; N]) -> (r: Vec<T>) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body]
pub fn vec_from_elem<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
pub trait XResize<T> { fn x_resize(&mut self, n: usize, x: T); }
impl XResize<usize> for Vec<usize> { #[verifier::external_body] fn x_resize(&mut self, n: usize, x: usize)
    ensures final(self)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(self)@[i] == (if i < old(self)@.len() { old(self)@[i] } else { x }) { unimplemented!() } }
pub trait XMin: Sized { fn x_min(self, o: Self) -> (r: Self); fn x_max(self, o: Self) -> (r: Self); }
impl XMin for usize { fn x_min(self, o: usize) -> (r: usize) ensures r == if self <= o { self } else { o } { if self <= o { self } else { o } }
    fn x_max(self, o: usize) -> (r: usize) ensures r == if self >= o { self } else { o } { if self >= o { self } else { o } } }
impl XMin for u64 { fn x_min(self, o: u64) -> (r: u64) ensures r == if self <= o { self } else { o } { if self <= o { self } else { o } }
    fn x_max(self, o: u64) -> (r: u64) ensures r == if self >= o { self } else { o } { if self >= o { self } else { o } } }
impl XMin for i64 { fn x_min(self, o: i64) -> (r: i64) ensures r == if self <= o { self } else { o } { if self <= o { self } else { o } }
    fn x_max(self, o: i64) -> (r: i64) ensures r == if self >= o { self } else { o } { if self >= o { self } else { o } } }
impl XMin for i32 { fn x_min(self, o: i32) -> (r: i32) ensures r == if self <= o { self } else { o } { if self <= o { self } else { o } }
    fn x_max(self, o: i32) -> (r: i32) ensures r == if self >= o { self } else { o } { if self >= o { self } else { o } } }
impl XMin for u32 { fn x_min(self, o: u32) -> (r: u32) ensures r == if self <= o { self } else { o } { if self <= o { self } else { o } }
    fn x_max(self, o: u32) -> (r: u32) ensures r == if self >= o { self } else { o } { if self >= o { self } else { o } } }
impl XMin for isize { fn x_min(self, o: isize) -> (r: isize) ensures r == if self <= o { self } else { o } { if self <= o { self } else { o } }
    fn x_max(self, o: isize) -> (r: isize) ensures r == if self >= o { self } else { o } { if self >= o { self } else { o } } }
// of numbers that are equal, min and max give either
impl XMin for F { #[verifier::external_body] fn x_min(self, o: F) -> (r: F) ensures r == self || r == o, flt(o, self) || fnan(self) ==> r == o, flt(self, o) || fnan(o) && !fnan(self) ==> r == self { unimplemented!() }
    #[verifier::external_body] fn x_max(self, o: F) -> (r: F) ensures r == self || r == o, flt(self, o) || fnan(self) ==> r == o, flt(o, self) || fnan(o) && !fnan(self) ==> r == self { unimplemented!() } }
pub trait XWrap: Sized { fn x_wrapping_sub(self, o: Self) -> (r: Self); }
impl XWrap for usize { #[verifier::external_body] fn x_wrapping_sub(self, o: usize) -> (r: usize) ensures r as int == (if self >= o { self - o } else { self - o + usize::MAX + 1 }) { unimplemented!() } }

// ---------------------------------------------------------------- arrays (ndarray)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Array1<T> { p: Vec<T> }
impl<T> View for Array1<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Array2<T> { p: Vec<T> }
pub type I2 = (int, int);
pub type I3 = (int, int, int);
pub type M2 = IMap<(int, int), F>;
pub type M3 = IMap<(int, int, int), F>;
impl<T> View for Array2<T> { type V = IMap<(int, int), T>; uninterp spec fn view(&self) -> IMap<(int, int), T>; }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Array3<T> { p: Vec<T> }
impl<T> View for Array3<T> { type V = IMap<(int, int, int), T>; uninterp spec fn view(&self) -> IMap<(int, int, int), T>; }
impl<T> Array2<T> { pub uninterp spec fn dimv(&self) -> (int, int); }
impl<T> Array3<T> { pub uninterp spec fn dimv(&self) -> (int, int, int); }
pub open spec fn in2(d: I2, k: I2) -> bool { 0 <= k.0 < d.0 && 0 <= k.1 < d.1 }
pub open spec fn in3(d: I3, k: I3) -> bool { 0 <= k.0 < d.0 && 0 <= k.1 < d.1 && 0 <= k.2 < d.2 }
pub open spec fn size3(d: I3) -> int { d.0 * d.1 * d.2 }
pub open spec fn unflat2(d: I2, i: int) -> I2 { (i / d.1, i % d.1) }
pub open spec fn unflat3(d: I3, i: int) -> I3 { (i / (d.1 * d.2), (i / d.2) % d.1, i % d.2) }
pub open spec fn flat3(d: I3, k: I3) -> int { (k.0 * d.1 + k.1) * d.2 + k.2 }
pub open spec fn flat2(d: I2, k: I2) -> int { k.0 * d.1 + k.1 }
// an array has exactly the elements inside its dimensions, none negative, and fits in memory
pub broadcast axiom fn ax_dom2<T>(a: Array2<T>) ensures #[trigger] a@.dom() == ISet::new(|k: I2| in2(a.dimv(), k)), 0 <= a.dimv().0 <= isize::MAX, 0 <= a.dimv().1 <= isize::MAX;
pub broadcast axiom fn ax_dim2<T>(a: Array2<T>) ensures 0 <= (#[trigger] a.dimv()).0 <= isize::MAX, 0 <= a.dimv().1 <= isize::MAX, a@.dom() == ISet::new(|k: I2| in2(a.dimv(), k));
pub broadcast axiom fn ax_dom3<T>(a: Array3<T>) ensures #[trigger] a@.dom() == ISet::new(|k: I3| in3(a.dimv(), k)), 0 <= a.dimv().0 <= isize::MAX, 0 <= a.dimv().1 <= isize::MAX, 0 <= a.dimv().2 <= isize::MAX;
pub broadcast axiom fn ax_dim3<T>(a: Array3<T>) ensures 0 <= (#[trigger] a.dimv()).0 <= isize::MAX, 0 <= a.dimv().1 <= isize::MAX, 0 <= a.dimv().2 <= isize::MAX, a@.dom() == ISet::new(|k: I3| in3(a.dimv(), k));
pub broadcast axiom fn ax_len1<T>(a: Array1<T>) ensures #[trigger] a@.len() <= isize::MAX;
pub broadcast group array_axioms { ax_dom2, ax_dom3, ax_dim2, ax_dim3, ax_len1 }
pub open spec fn const2(d: I2, x: F) -> M2 { IMap::new(|k: I2| in2(d, k), |k: I2| x) }
pub open spec fn const3(d: I3, x: F) -> M3 { IMap::new(|k: I3| in3(d, k), |k: I3| x) }
''')
# indexing
w('''impl<T> IndexSpecImpl<usize> for Array1<T> { open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() } }
impl<T> core::ops::Index<usize> for Array1<T> { type Output = T;
    #[verifier::external_body] fn index(&self, i: usize) -> (r: &T) ensures *r == self@[i as int] { unimplemented!() } }
impl<T> core::ops::IndexMut<usize> for Array1<T> {
    #[verifier::external_body] fn index_mut(&mut self, i: usize) -> (r: &mut T) ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r)) { unimplemented!() } }''')
for n, it, key, kt in ((2,"[usize; 2]","(i[0] as int, i[1] as int)","I2"),(2,"(usize, usize)","(i.0 as int, i.1 as int)","I2"),
                   (3,"[usize; 3]","(i[0] as int, i[1] as int, i[2] as int)","I3"),(3,"(usize, usize, usize)","(i.0 as int, i.1 as int, i.2 as int)","I3")):
    w(f'''impl<T> IndexSpecImpl<{it}> for Array{n}<T> {{ open spec fn index_req(&self, i: &{it}) -> bool {{ in{n}(self.dimv(), {key}) }} }}
impl<T> core::ops::Index<{it}> for Array{n}<T> {{ type Output = T;
    #[verifier::external_body] fn index(&self, i: {it}) -> (r: &T) ensures *r == self@[{key}] {{ unimplemented!() }} }}
impl<T> core::ops::IndexMut<{it}> for Array{n}<T> {{
    #[verifier::external_body] fn index_mut(&mut self, i: {it}) -> (r: &mut T) ensures *r == old(self)@[{key}], final(self)@ == old(self)@.insert({key}, *final(r)), final(self).dimv() == old(self).dimv() {{ unimplemented!() }} }}''')
# arithmetic
for N, n in (("Add","add"),("Sub","sub"),("Mul","mul"),("Div","div")):
    w(f'''pub open spec fn m1_{n}(a: Seq<F>, b: Seq<F>) -> Seq<F> {{ Seq::new(a.len(), |i: int| f{n}(a[i], b[i])) }}
pub open spec fn m1_{n}s(a: Seq<F>, b: F) -> Seq<F> {{ Seq::new(a.len(), |i: int| f{n}(a[i], b)) }}
pub open spec fn m2_{n}(a: M2, b: M2) -> M2 {{ IMap::new(|k: I2| a.dom().contains(k), |k: I2| f{n}(a[k], b[k])) }}
pub open spec fn m2_{n}s(a: M2, b: F) -> M2 {{ IMap::new(|k: I2| a.dom().contains(k), |k: I2| f{n}(a[k], b)) }}
pub open spec fn m3_{n}(a: M3, b: M3) -> M3 {{ IMap::new(|k: I3| a.dom().contains(k), |k: I3| f{n}(a[k], b[k])) }}
pub open spec fn m3_{n}s(a: M3, b: F) -> M3 {{ IMap::new(|k: I3| a.dom().contains(k), |k: I3| f{n}(a[k], b)) }}''')
    for d in (1,2,3):
        A=f"Array{d}<F>"
        for s in (A,"&"+A):
            for r in (A,"&"+A):
                dim = "self@.len() == r@.len()" if d==1 else "self.dimv() == r.dimv()"
                odim = "true" if d==1 else "o.dimv() == self.dimv()"
                w(f'''impl X{N}<{r}> for {s} {{ type O = {A}; open spec fn {n}_rq(self, r: {r}) -> bool {{ {dim} }} open spec fn {n}_en(self, r: {r}, o: {A}) -> bool {{ {odim} && o@ == m{d}_{n}(self@, r@) }}
    #[verifier::external_body] fn x_{n}(self, r: {r}) -> (o: {A}) {{ unimplemented!() }} }}''')
            w(f'''impl X{N}<F> for {s} {{ type O = {A}; open spec fn {n}_rq(self, r: F) -> bool {{ true }} open spec fn {n}_en(self, r: F, o: {A}) -> bool {{ {odim} && o@ == m{d}_{n}s(self@, r) }}
    #[verifier::external_body] fn x_{n}(self, r: F) -> (o: {A}) {{ unimplemented!() }} }}''')
        dim = "self@.len() == r@.len()" if d==1 else "self.dimv() == r.dimv()"
        w(f'''impl X{N}Assign<&{A}> for {A} {{ open spec fn {n}a_rq(self, r: &{A}) -> bool {{ {dim} }} open spec fn {n}a_en(self, r: &{A}, o: {A}) -> bool {{ {odim} && o@ == m{d}_{n}(self@, r@) }}
    #[verifier::external_body] fn x_{n}_assign(&mut self, r: &{A}) {{ unimplemented!() }} }}
impl X{N}Assign<F> for {A} {{ open spec fn {n}a_rq(self, r: F) -> bool {{ true }} open spec fn {n}a_en(self, r: F, o: {A}) -> bool {{ {odim} && o@ == m{d}_{n}s(self@, r) }}
    #[verifier::external_body] fn x_{n}_assign(&mut self, r: F) {{ unimplemented!() }} }}''')
w('''
// construction: Array::zeros / from_elem with the dimension given as usize, [usize; n], tuple or Dim2/Dim3
pub struct Dm1 { pub d: usize }
pub struct Dm2 { pub d: (usize, usize) }
pub struct Dm3 { pub d: (usize, usize, usize) }
pub trait Sh<A>: Sized { spec fn sh_ok(self) -> bool; spec fn filled(self, a: A, x: F) -> bool; }
impl Sh<Array1<F>> for usize { open spec fn sh_ok(self) -> bool { true } open spec fn filled(self, a: Array1<F>, x: F) -> bool { a@ == Seq::new(self as nat, |i: int| x) } }
impl Sh<Array1<usize>> for usize { open spec fn sh_ok(self) -> bool { true } open spec fn filled(self, a: Array1<usize>, x: F) -> bool { a@.len() == self && (x == fl(0, 1) ==> a@ == Seq::new(self as nat, |i: int| 0usize)) } }
impl Sh<Array1<F>> for Dm1 { open spec fn sh_ok(self) -> bool { true } open spec fn filled(self, a: Array1<F>, x: F) -> bool { a@ == Seq::new(self.d as nat, |i: int| x) } }
impl Sh<Array2<F>> for (usize, usize) { open spec fn sh_ok(self) -> bool { true } open spec fn filled(self, a: Array2<F>, x: F) -> bool { a.dimv() == (self.0 as int, self.1 as int) && a@ == const2(a.dimv(), x) } }
impl Sh<Array2<F>> for Dm2 { open spec fn sh_ok(self) -> bool { true } open spec fn filled(self, a: Array2<F>, x: F) -> bool { a.dimv() == (self.d.0 as int, self.d.1 as int) && a@ == const2(a.dimv(), x) } }
impl Sh<Array3<F>> for (usize, usize, usize) { open spec fn sh_ok(self) -> bool { true } open spec fn filled(self, a: Array3<F>, x: F) -> bool { a.dimv() == (self.0 as int, self.1 as int, self.2 as int) && a@ == const3(a.dimv(), x) } }
impl Sh<Array3<F>> for [usize; 3] { open spec fn sh_ok(self) -> bool { true } open spec fn filled(self, a: Array3<F>, x: F) -> bool { a.dimv() == (self[0] as int, self[1] as int, self[2] as int) && a@ == const3(a.dimv(), x) } }
impl Sh<Array3<F>> for Dm3 { open spec fn sh_ok(self) -> bool { true } open spec fn filled(self, a: Array3<F>, x: F) -> bool { a.dimv() == (self.d.0 as int, self.d.1 as int, self.d.2 as int) && a@ == const3(a.dimv(), x) } }
#[verifier::external_body]
pub fn arr_zeros<A, S: Sh<A>>(s: S) -> (r: A) requires s.sh_ok() ensures s.filled(r, fl(0, 1)) { unimplemented!() }
#[verifier::external_body]
pub fn arr1_from_elem<T: Copy>(n: usize, x: T) -> (r: Array1<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
#[verifier::external_body]
pub fn arr1_from_array<T: Copy, const N: usize>(x: [T; N]) -> (r: Array1<T>) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body]
pub fn arr3_from_shape_vec(d: (usize, usize, usize), v: Vec<F>) -> (r: Result<Array3<F>, XErr>)
    ensures match r { Ok(a) => a.dimv() == (d.0 as int, d.1 as int, d.2 as int) && d.0 * d.1 * d.2 == v@.len() && forall|i: int| 0 <= i < v@.len() ==> a@[#[trigger] unflat3(a.dimv(), i)] == v@[i],
        Err(_) => d.0 * d.1 * d.2 != v@.len() } { unimplemented!() }
pub uninterp spec fn linspace(a: F, b: F, n: int) -> Seq<F>;
#[verifier::external_body]
pub fn arr1_linspace(a: F, b: F, n: usize) -> (r: Array1<F>) ensures r@ == linspace(a, b, n as int), r@.len() == n { unimplemented!() }

#[derive(Clone, Copy)]
pub struct Axis(pub usize);
impl Axis { pub fn index(self) -> (r: usize) ensures r == self.0 { self.0 } }
pub open spec fn map1<T, U>(s: Seq<T>, t: Seq<U>, g: spec_fn(T) -> U) -> bool { t.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == g(s[i]) }
impl<T> Array1<T> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn raw_dim(&self) -> (r: Dm1) ensures r.d == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn own(&self) -> (r: Array1<T>) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn assign(&mut self, o: &Array1<T>) requires old(self)@.len() == o@.len() ensures final(self)@ == o@ { unimplemented!() }
    #[verifier::external_body] pub fn mapv<U, G: Fn(T) -> U>(&self, g: G) -> (r: Array1<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> g.requires((#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> g.ensures((self@[i],), #[trigger] r@[i]) { unimplemented!() }
}
pub open spec fn is_argmin(s: Seq<F>, k: int) -> bool { 0 <= k < s.len() && (forall|i: int| 0 <= i < s.len() ==> !flt(#[trigger] s[i], s[k])) && (forall|i: int| 0 <= i < k ==> flt(s[k], #[trigger] s[i])) }
impl Array1<F> {
    // ndarray-stats: Err on an empty array or if a NaN is met; else the first index of the minimum
    #[verifier::external_body] pub fn argmin(&self) -> (r: Result<usize, XErr>)
        ensures self@.len() > 0 && (forall|i: int| 0 <= i < self@.len() ==> !fnan(#[trigger] self@[i])) ==> r is Ok,
            r is Ok ==> is_argmin(self@, r->Ok_0 as int) { unimplemented!() }
}
impl<T> Array2<T> {
    #[verifier::external_body] pub fn raw_dim(&self) -> (r: Dm2) ensures (r.d.0 as int, r.d.1 as int) == self.dimv() { unimplemented!() }
    #[verifier::external_body] pub fn shape(&self) -> (r: [usize; 2]) ensures r[0] as int == self.dimv().0, r[1] as int == self.dimv().1 { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.dimv().0 * self.dimv().1 { unimplemented!() }
    #[verifier::external_body] pub fn own(&self) -> (r: Array2<T>) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn mapv<U, G: Fn(T) -> U>(&self, g: G) -> (r: Array2<U>)
        requires forall|k: I2| in2(self.dimv(), k) ==> g.requires((#[trigger] self@[k],))
        ensures r.dimv() == self.dimv(), forall|k: I2| in2(self.dimv(), k) ==> g.ensures((self@[k],), #[trigger] r@[k]) { unimplemented!() }
    // row / column as an owned array
    #[verifier::external_body] pub fn slice_ia(&self, i: usize) -> (r: Array1<T>) requires i < self.dimv().0 ensures r@ == row2(self@, self.dimv(), i as int) { unimplemented!() }
    #[verifier::external_body] pub fn slice_ai(&self, i: usize) -> (r: Array1<T>) requires i < self.dimv().1 ensures r@ == col2(self@, self.dimv(), i as int) { unimplemented!() }
    #[verifier::external_body] pub fn slice_ra(&self, r0: (usize, usize)) -> (r: Array2<T>) requires r0.0 <= r0.1 <= self.dimv().0
        ensures r.dimv() == (r0.1 - r0.0, self.dimv().1), forall|k: I2| in2(r.dimv(), k) ==> #[trigger] r@[k] == self@[(k.0 + r0.0, k.1)] { unimplemented!() }
    #[verifier::external_body] pub fn slice_ar(&self, r1: (usize, usize)) -> (r: Array2<T>) requires r1.0 <= r1.1 <= self.dimv().1
        ensures r.dimv() == (self.dimv().0, r1.1 - r1.0), forall|k: I2| in2(r.dimv(), k) ==> #[trigger] r@[k] == self@[(k.0, k.1 + r1.0)] { unimplemented!() }
    #[verifier::external_body] pub fn slice_ri(&self, r0: (usize, usize), i: usize) -> (r: Array1<T>) requires r0.0 <= r0.1 <= self.dimv().0, i < self.dimv().1
        ensures r@.len() == r0.1 - r0.0, forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == self@[(k + r0.0, i as int)] { unimplemented!() }
    #[verifier::external_body] pub fn slice_rr(&self, r0: (usize, usize), r1: (usize, usize)) -> (r: Array2<T>) requires r0.0 <= r0.1 <= self.dimv().0, r1.0 <= r1.1 <= self.dimv().1
        ensures r.dimv() == (r0.1 - r0.0, r1.1 - r1.0), forall|k: I2| in2(r.dimv(), k) ==> #[trigger] r@[k] == self@[(k.0 + r0.0, k.1 + r1.0)] { unimplemented!() }
    #[verifier::external_body] pub fn slice_mut_ia(&mut self, i: usize) -> (r: &mut Array1<T>) requires i < old(self).dimv().0
        ensures r@ == row2(old(self)@, old(self).dimv(), i as int), final(self).dimv() == old(self).dimv(),
            final(r)@.len() == r@.len() ==> final(self)@ == IMap::new(|k: I2| in2(old(self).dimv(), k), |k: I2| if k.0 == i { final(r)@[k.1] } else { old(self)@[k] }) { unimplemented!() }
    #[verifier::external_body] pub fn axis_iter(&self, a: Axis) -> (r: It<Array1<T>>) requires a.0 < 2
        ensures a.0 == 0 ==> r@.len() == self.dimv().0 && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == row2(self@, self.dimv(), i),
            a.0 == 1 ==> r@.len() == self.dimv().1 && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == col2(self@, self.dimv(), i) { unimplemented!() }
    #[verifier::external_body] pub fn outer_iter(&self) -> (r: It<Array1<T>>)
        ensures r@.len() == self.dimv().0, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == row2(self@, self.dimv(), i) { unimplemented!() }
}
pub open spec fn row2<T>(m: IMap<I2, T>, d: I2, i: int) -> Seq<T> { Seq::new(d.1 as nat, |j: int| m[(i, j)]) }
pub open spec fn col2<T>(m: IMap<I2, T>, d: I2, j: int) -> Seq<T> { Seq::new(d.0 as nat, |i: int| m[(i, j)]) }
// index of a 3D array from an axis, the index on that axis and the two remaining ones in order
pub open spec fn ix3(ax: int, a: int, k: I2) -> I3 { if ax == 0 { (a, k.0, k.1) } else if ax == 1 { (k.0, a, k.1) } else { (k.0, k.1, a) } }
pub open spec fn dim_ax(d: I3, ax: int) -> int { if ax == 0 { d.0 } else if ax == 1 { d.1 } else { d.2 } }
pub open spec fn dim_rest(d: I3, ax: int) -> I2 { if ax == 0 { (d.1, d.2) } else if ax == 1 { (d.0, d.2) } else { (d.0, d.1) } }
pub open spec fn layer<T>(m: IMap<I3, T>, d: I3, ax: int, a: int) -> IMap<I2, T> { IMap::new(|k: I2| in2(dim_rest(d, ax), k), |k: I2| m[ix3(ax, a, k)]) }
impl Dm3 { #[verifier::external_body] pub fn remove_axis(&self, a: Axis) -> (r: Dm2) requires a.0 < 3 ensures (r.d.0 as int, r.d.1 as int) == dim_rest((self.d.0 as int, self.d.1 as int, self.d.2 as int), a.0 as int) { unimplemented!() } }
impl Dm2 { #[verifier::external_body] pub fn remove_axis(&self, a: Axis) -> (r: Dm1) requires a.0 < 2 ensures r.d == (if a.0 == 0 { self.d.1 } else { self.d.0 }) { unimplemented!() } }
pub uninterp spec fn asum3(m: M3, d: I3) -> F;   // ndarray's sum (its order of additions is not specified)
impl Array3<F> { #[verifier::external_body] pub fn sum(&self) -> (r: F) ensures r == asum3(self@, self.dimv()) { unimplemented!() }
    #[verifier::external_body] pub fn mapv_inplace<G: Fn(F) -> F>(&mut self, g: G)
        requires forall|k: I3| in3(old(self).dimv(), k) ==> g.requires((#[trigger] old(self)@[k],))
        ensures final(self).dimv() == old(self).dimv(), forall|k: I3| in3(old(self).dimv(), k) ==> g.ensures((old(self)@[k],), #[trigger] final(self)@[k]) { unimplemented!() } }
impl<T> Array3<T> {
    #[verifier::external_body] pub fn raw_dim(&self) -> (r: Dm3) ensures (r.d.0 as int, r.d.1 as int, r.d.2 as int) == self.dimv() { unimplemented!() }
    #[verifier::external_body] pub fn shape(&self) -> (r: Shp3) ensures (r.d[0] as int, r.d[1] as int, r.d[2] as int) == self.dimv() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == size3(self.dimv()) { unimplemented!() }
    #[verifier::external_body] pub fn own(&self) -> (r: Array3<T>) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Array3<T>) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn mapv<U, G: Fn(T) -> U>(&self, g: G) -> (r: Array3<U>)
        requires forall|k: I3| in3(self.dimv(), k) ==> g.requires((#[trigger] self@[k],))
        ensures r.dimv() == self.dimv(), forall|k: I3| in3(self.dimv(), k) ==> g.ensures((self@[k],), #[trigger] r@[k]) { unimplemented!() }
    #[verifier::external_body] pub fn slice_iaa(&self, i: usize) -> (r: Array2<T>) requires i < self.dimv().0 ensures r.dimv() == dim_rest(self.dimv(), 0), r@ == layer(self@, self.dimv(), 0, i as int) { unimplemented!() }
    #[verifier::external_body] pub fn slice_aia(&self, i: usize) -> (r: Array2<T>) requires i < self.dimv().1 ensures r.dimv() == dim_rest(self.dimv(), 1), r@ == layer(self@, self.dimv(), 1, i as int) { unimplemented!() }
    #[verifier::external_body] pub fn slice_aai(&self, i: usize) -> (r: Array2<T>) requires i < self.dimv().2 ensures r.dimv() == dim_rest(self.dimv(), 2), r@ == layer(self@, self.dimv(), 2, i as int) { unimplemented!() }
    #[verifier::external_body] pub fn slice_rrr(&self, r0: (usize, usize), r1: (usize, usize), r2: (usize, usize)) -> (r: Array3<T>) requires r0.0 <= r0.1 <= self.dimv().0, r1.0 <= r1.1 <= self.dimv().1, r2.0 <= r2.1 <= self.dimv().2
        ensures r.dimv() == (r0.1 - r0.0, r1.1 - r1.0, r2.1 - r2.0), forall|k: I3| in3(r.dimv(), k) ==> #[trigger] r@[k] == self@[(k.0 + r0.0, k.1 + r1.0, k.2 + r2.0)] { unimplemented!() }
    #[verifier::external_body] pub fn axis_iter(&self, a: Axis) -> (r: It<Array2<T>>) requires a.0 < 3
        ensures r@.len() == dim_ax(self.dimv(), a.0 as int), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).dimv() == dim_rest(self.dimv(), a.0 as int) && r@[i]@ == layer(self@, self.dimv(), a.0 as int, i) { unimplemented!() }
    #[verifier::external_body] pub fn indexed_iter<'a>(&'a self) -> (r: It<((usize, usize, usize), &'a T)>)
        ensures r@.len() == size3(self.dimv()), forall|i: int| 0 <= i < r@.len() ==> ix_item(#[trigger] r@[i], self@, unflat3(self.dimv(), i)) { unimplemented!() }
}
pub open spec fn ix_item<T>(x: ((usize, usize, usize), &T), m: IMap<I3, T>, k: I3) -> bool { (x.0.0 as int, x.0.1 as int, x.0.2 as int) == k && *x.1 == m[k] }
pub struct Shp3 { pub d: [usize; 3] }
impl IndexSpecImpl<usize> for Shp3 { open spec fn index_req(&self, i: &usize) -> bool { *i < 3 } }
impl core::ops::Index<usize> for Shp3 { type Output = usize;
    #[verifier::external_body] fn index(&self, i: usize) -> (r: &usize) ensures *r == self.d[i as int] { unimplemented!() } }
impl XEq<Shp3> for Shp3 { open spec fn seq_(self, r: Shp3) -> bool { self.d[0] == r.d[0] && self.d[1] == r.d[1] && self.d[2] == r.d[2] } #[verifier::external_body] fn x_eq(self, r: Shp3) -> (b: bool) { unimplemented!() } }

// types.rs
pub type Position = [F; 3];
pub type CellId = [usize; 3];
pub type OneD = [[F; 2]; 1];
pub type TwoD = [[F; 2]; 2];
pub type ThreeD = [[F; 2]; 3];
pub open spec fn cid(c: CellId) -> I3 { (c[0] as int, c[1] as int, c[2] as int) }
} // verus!
''')
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","prelude","core.rs")
# a module of its own, so that its axioms can be in force everywhere else
open(p,"w").write("pub mod pre {\n"+"\n".join(out)+"\n}\nuse vstd::prelude::*;\nuse vstd::std_specs::ops::*;\nuse vstd::std_specs::cmp::*;\nuse vstd::std_specs::core::*;\npub use pre::*;\nverus! {\nbroadcast use {pre::float_axioms, pre::array_axioms};\n} // verus!\n")
