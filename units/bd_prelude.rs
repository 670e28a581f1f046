// ---- shadow of bigdecimal 0.2 / num-bigint 0.3 -------------------------------------------------
// A decimal is an integer and a scale: value = int * 10^-scale.  The contracts below are trusted.
#[verifier::external_body]
pub struct BigInt { x: u8 }
#[verifier::external_body]
pub struct BigDecimal { x: u8 }
impl BigInt { pub uninterp spec fn i(&self) -> int; }
impl BigDecimal {
    /// The integer and the scale.
    pub uninterp spec fn iv(&self) -> int;
    pub uninterp spec fn sc(&self) -> int;
    pub uninterp spec fn v(&self) -> real;
}
/// Powers of ten.
pub open spec fn p10(k: int) -> real decreases (if k < 0 { -k } else { k }) { if k == 0 { 1real } else if k > 0 { 10real * p10(k - 1) } else { p10(k + 1) / 10real } }
pub open spec fn ip10(k: nat) -> int decreases k { if k == 0 { 1 } else { 10 * ip10((k - 1) as nat) } }
pub proof fn p10_pos(k: int) ensures p10(k) > 0real decreases (if k < 0 { -k } else { k }) { if k > 0 { p10_pos(k - 1) } else if k < 0 { p10_pos(k + 1) } }
pub proof fn p10_step(k: int) ensures p10(k + 1) == 10real * p10(k) { }
pub proof fn p10_add(a: int, b: int) ensures p10(a + b) == p10(a) * p10(b) decreases (if b < 0 { -b } else { b }) {
    if b > 0 { p10_add(a, b - 1); p10_step(a + b - 1); p10_step(b - 1); assert(p10(a) * (10real * p10(b - 1)) == 10real * (p10(a) * p10(b - 1))) by(nonlinear_arith); }
    else if b < 0 { p10_add(a, b + 1); p10_step(a + b); p10_step(b); assert(p10(a) * (10real * p10(b)) == 10real * (p10(a) * p10(b))) by(nonlinear_arith); }
    else { assert(p10(a) * 1real == p10(a)) by(nonlinear_arith); }
}
pub proof fn p10_int(k: nat) ensures p10(k as int) == ip10(k) as real, ip10(k) > 0 decreases k { if k > 0 { p10_int((k - 1) as nat); } }
pub proof fn p10_mono(a: int, b: int) requires a <= b ensures p10(a) <= p10(b) decreases b - a { if a < b { p10_mono(a, b - 1); p10_pos(b - 1); p10_step(b - 1); } }
/// What digits() gives: the number of digits; of a negative number sometimes one less.
pub open spec fn places(i: int, d: int) -> bool { (i > 0 ==> d >= 1 && ip10((d - 1) as nat) <= i && i < ip10(d as nat)) && (i == 0 ==> d == 1) && (i < 0 ==> -i < ip10((d + 1) as nat) && (d >= 1 ==> ip10((d - 1) as nat) <= -i)) }
/// Division that drops the fraction.
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
pub broadcast axiom fn bd_value(x: BigDecimal) ensures #![trigger x.v()] #![trigger x.iv()] x.v() == x.iv() as real * p10(-x.sc());
pub open spec fn absr(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn near(a: real, b: real, eps: real) -> bool { a - b <= eps && b - a <= eps }

pub uninterp spec fn bd_add(a: BigDecimal, b: BigDecimal) -> BigDecimal;
pub uninterp spec fn bd_sub(a: BigDecimal, b: BigDecimal) -> BigDecimal;
pub uninterp spec fn bd_mul(a: BigDecimal, b: BigDecimal) -> BigDecimal;
pub uninterp spec fn bd_div(a: BigDecimal, b: BigDecimal) -> BigDecimal;
pub uninterp spec fn bd_neg(a: BigDecimal) -> BigDecimal;
pub open spec fn imax(a: int, b: int) -> int { if a > b { a } else { b } }
pub broadcast axiom fn ax_add(a: BigDecimal, b: BigDecimal) ensures (#[trigger] bd_add(a, b)).v() == a.v() + b.v(), bd_add(a, b).sc() == imax(a.sc(), b.sc());
pub broadcast axiom fn ax_sub(a: BigDecimal, b: BigDecimal) ensures (#[trigger] bd_sub(a, b)).v() == a.v() - b.v(), bd_sub(a, b).sc() == imax(a.sc(), b.sc());
pub broadcast axiom fn ax_mul(a: BigDecimal, b: BigDecimal) ensures (#[trigger] bd_mul(a, b)).v() == a.v() * b.v(), bd_mul(a, b).sc() == a.sc() + b.sc();
/// Division is correct to 99 significant digits.
pub broadcast axiom fn ax_div(a: BigDecimal, b: BigDecimal) ensures b.v() != 0real ==> near((#[trigger] bd_div(a, b)).v(), a.v() / b.v(), absr(a.v() / b.v()) * p10(-99));
pub broadcast axiom fn ax_neg(a: BigDecimal) ensures (#[trigger] bd_neg(a)).v() == -a.v(), bd_neg(a).sc() == a.sc();
pub broadcast group bd_arith { ax_add, ax_sub, ax_mul, ax_div, ax_neg }

macro_rules! v_bdop {
    ($tr: ident, $sp: ident, $m: ident, $ob: ident, $rq: ident, $ss: ident, $f: ident, |$r: ident| $pre: expr) => { verus! {
    impl vstd::std_specs::ops::$sp<BigDecimal> for BigDecimal { open spec fn $ob() -> bool { true } open spec fn $rq(self, $r: BigDecimal) -> bool { $pre } open spec fn $ss(self, rhs: BigDecimal) -> BigDecimal { $f(self, rhs) } }
    impl core::ops::$tr<BigDecimal> for BigDecimal { type Output = BigDecimal; #[verifier::external_body] fn $m(self, rhs: BigDecimal) -> BigDecimal { unimplemented!() } }
    impl<'b> vstd::std_specs::ops::$sp<&'b BigDecimal> for BigDecimal { open spec fn $ob() -> bool { true } open spec fn $rq(self, $r: &'b BigDecimal) -> bool { $pre } open spec fn $ss(self, rhs: &'b BigDecimal) -> BigDecimal { $f(self, *rhs) } }
    impl<'b> core::ops::$tr<&'b BigDecimal> for BigDecimal { type Output = BigDecimal; #[verifier::external_body] fn $m(self, rhs: &'b BigDecimal) -> BigDecimal { unimplemented!() } }
    impl<'a> vstd::std_specs::ops::$sp<BigDecimal> for &'a BigDecimal { open spec fn $ob() -> bool { true } open spec fn $rq(self, $r: BigDecimal) -> bool { $pre } open spec fn $ss(self, rhs: BigDecimal) -> BigDecimal { $f(*self, rhs) } }
    impl<'a> core::ops::$tr<BigDecimal> for &'a BigDecimal { type Output = BigDecimal; #[verifier::external_body] fn $m(self, rhs: BigDecimal) -> BigDecimal { unimplemented!() } }
    impl<'a, 'b> vstd::std_specs::ops::$sp<&'b BigDecimal> for &'a BigDecimal { open spec fn $ob() -> bool { true } open spec fn $rq(self, $r: &'b BigDecimal) -> bool { $pre } open spec fn $ss(self, rhs: &'b BigDecimal) -> BigDecimal { $f(*self, *rhs) } }
    impl<'a, 'b> core::ops::$tr<&'b BigDecimal> for &'a BigDecimal { type Output = BigDecimal; #[verifier::external_body] fn $m(self, rhs: &'b BigDecimal) -> BigDecimal { unimplemented!() } }
    } }
}
v_bdop!(Add, AddSpecImpl, add, obeys_add_spec, add_req, add_spec, bd_add, |r| true);
v_bdop!(Sub, SubSpecImpl, sub, obeys_sub_spec, sub_req, sub_spec, bd_sub, |r| true);
v_bdop!(Mul, MulSpecImpl, mul, obeys_mul_spec, mul_req, mul_spec, bd_mul, |r| true);
v_bdop!(Div, DivSpecImpl, div, obeys_div_spec, div_req, div_spec, bd_div, |r| r.v() != 0real);
macro_rules! v_bdassign {
    ($tr: ident, $sp: ident, $m: ident, $ob: ident, $rq: ident, $ss: ident, $f: ident) => { verus! {
    impl vstd::std_specs::ops::$sp<BigDecimal> for BigDecimal { open spec fn $ob() -> bool { true } open spec fn $rq(&self, rhs: BigDecimal) -> bool { true } open spec fn $ss(&self, rhs: BigDecimal) -> &Self { &$f(*self, rhs) } }
    impl core::ops::$tr<BigDecimal> for BigDecimal { #[verifier::external_body] fn $m(&mut self, rhs: BigDecimal) { unimplemented!() } }
    impl<'b> vstd::std_specs::ops::$sp<&'b BigDecimal> for BigDecimal { open spec fn $ob() -> bool { true } open spec fn $rq(&self, rhs: &'b BigDecimal) -> bool { true } open spec fn $ss(&self, rhs: &'b BigDecimal) -> &Self { &$f(*self, *rhs) } }
    impl<'b> core::ops::$tr<&'b BigDecimal> for BigDecimal { #[verifier::external_body] fn $m(&mut self, rhs: &'b BigDecimal) { unimplemented!() } }
    } }
}
v_bdassign!(AddAssign, AddAssignSpecImpl, add_assign, obeys_add_assign_spec, add_assign_req, add_assign_spec, bd_add);
v_bdassign!(SubAssign, SubAssignSpecImpl, sub_assign, obeys_sub_assign_spec, sub_assign_req, sub_assign_spec, bd_sub);
v_bdassign!(MulAssign, MulAssignSpecImpl, mul_assign, obeys_mul_assign_spec, mul_assign_req, mul_assign_spec, bd_mul);
impl vstd::std_specs::ops::NegSpecImpl for BigDecimal { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> BigDecimal { bd_neg(self) } }
impl core::ops::Neg for BigDecimal { type Output = BigDecimal; #[verifier::external_body] fn neg(self) -> BigDecimal { unimplemented!() } }
impl<'a> vstd::std_specs::ops::NegSpecImpl for &'a BigDecimal { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> BigDecimal { bd_neg(*self) } }
impl<'a> core::ops::Neg for &'a BigDecimal { type Output = BigDecimal; #[verifier::external_body] fn neg(self) -> BigDecimal { unimplemented!() } }
// comparisons are by value
impl vstd::std_specs::cmp::PartialEqSpecImpl<BigDecimal> for BigDecimal { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &BigDecimal) -> bool { self.v() == other.v() } }
impl PartialEq<BigDecimal> for BigDecimal { #[verifier::external_body] fn eq(&self, o: &BigDecimal) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl<BigDecimal> for BigDecimal {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &BigDecimal) -> Option<core::cmp::Ordering> { Some(if self.v() < other.v() { core::cmp::Ordering::Less } else if self.v() == other.v() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }) }
}
impl PartialOrd<BigDecimal> for BigDecimal { #[verifier::external_body] fn partial_cmp(&self, o: &BigDecimal) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl Clone for BigDecimal { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for BigInt { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl BigDecimal {
    #[verifier::external_body] pub fn new(b: BigInt, scale: i64) -> (r: BigDecimal) ensures r.iv() == b.i(), r.sc() == scale { unimplemented!() }
    #[verifier::external_body] pub fn into_bigint_and_exponent(self) -> (r: (BigInt, i64)) ensures r.0.i() == self.iv(), r.1 == self.sc() { unimplemented!() }
    #[verifier::external_body] pub fn as_bigint_and_exponent(&self) -> (r: (BigInt, i64)) ensures r.0.i() == self.iv(), r.1 == self.sc() { unimplemented!() }
    #[verifier::external_body] pub fn with_scale(&self, n: i64) -> (r: BigDecimal)
        ensures r.sc() == n, n >= self.sc() ==> r.v() == self.v(), n < self.sc() ==> r.iv() == tdiv(self.iv(), ip10((self.sc() - n) as nat)) { unimplemented!() }
    #[verifier::external_body] pub fn normalized(&self) -> (r: BigDecimal) ensures r.v() == self.v() { unimplemented!() }
    #[verifier::external_body] pub fn abs(&self) -> (r: BigDecimal) ensures r.v() == absr(self.v()) { unimplemented!() }
    #[verifier::external_body] pub fn signum(&self) -> (r: BigDecimal) ensures r.v() == (if self.v() > 0real { 1real } else if self.v() < 0real { -1real } else { 0real }) { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0real) { unimplemented!() }
    #[verifier::external_body] pub fn is_negative(&self) -> (r: bool) ensures r == (self.v() < 0real) { unimplemented!() }
    #[verifier::external_body] pub fn is_positive(&self) -> (r: bool) ensures r == (self.v() > 0real) { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: BigDecimal) ensures r.v() == 1real { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: BigDecimal) ensures r.v() == 0real { unimplemented!() }
    #[verifier::external_body] pub fn digits(&self) -> (r: u64) ensures places(self.iv(), r as int) { unimplemented!() }
    #[verifier::external_body] pub fn is_one(&self) -> (r: bool) ensures r == (self.v() == 1real) { unimplemented!() }
    #[verifier::external_body] pub fn half(&self) -> (r: BigDecimal) ensures r.v() == self.v() / 2real { unimplemented!() }
    #[verifier::external_body] pub fn double(&self) -> (r: BigDecimal) ensures r.v() == self.v() * 2real { unimplemented!() }
    #[verifier::external_body] pub fn square(&self) -> (r: BigDecimal) ensures r.v() == self.v() * self.v() { unimplemented!() }
    #[verifier::external_body] pub fn from_i32(i: i32) -> (r: Option<BigDecimal>) ensures r is Some, r->0.v() == i as real, r->0.sc() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn from_usize(i: usize) -> (r: Option<BigDecimal>) ensures r is Some, r->0.v() == i as real, r->0.sc() == 0 { unimplemented!() }
}
impl BigInt {
    #[verifier::external_body] pub fn from_i32(i: i32) -> (r: Option<BigInt>) ensures r is Some, r->0.i() == i { unimplemented!() }
    #[verifier::external_body] pub fn is_positive(&self) -> (r: bool) ensures r == (self.i() > 0) { unimplemented!() }
    #[verifier::external_body] pub fn is_negative(&self) -> (r: bool) ensures r == (self.i() < 0) { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.i() == 0) { unimplemented!() }
}
