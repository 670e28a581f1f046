#@verbatim
// ---- contracts of the elementary functions of bdmath.rs (decided under C09) ----------------------
// f_NAME(digits, argument.., result): the result is a value of the function to that many digits.
pub uninterp spec fn f_pi(nd: int, r: real) -> bool;
pub uninterp spec fn f_sqrt(x: real, r: real) -> bool;
pub uninterp spec fn f_exp(nd: int, x: real, r: real) -> bool;
pub uninterp spec fn f_ln(nd: int, x: real, r: real) -> bool;
pub uninterp spec fn f_log(nd: int, x: real, b: real, r: real) -> bool;
pub uninterp spec fn f_pow(nd: int, x: real, y: real, r: real) -> bool;
pub uninterp spec fn f_sin(nd: int, x: real, r: real) -> bool;
pub uninterp spec fn f_cos(nd: int, x: real, r: real) -> bool;
pub uninterp spec fn f_tan(nd: int, x: real, r: real) -> bool;
pub uninterp spec fn f_asin(nd: int, x: real, r: real) -> bool;
pub uninterp spec fn f_acos(nd: int, x: real, r: real) -> bool;
pub uninterp spec fn f_atan(nd: int, x: real, r: real) -> bool;
pub uninterp spec fn f_erf(nd: int, x: real, r: real) -> bool;
pub uninterp spec fn f_erfc(nd: int, x: real, r: real) -> bool;
pub uninterp spec fn f_dnorm(nd: int, x: real, m: real, s: real, r: real) -> bool;
pub uninterp spec fn f_pnorm(nd: int, x: real, m: real, s: real, r: real) -> bool;
pub uninterp spec fn f_qnorm(nd: int, x: real, m: real, s: real, r: real) -> bool;
pub uninterp spec fn f_round_ieee(x: real, bits: real, r: real) -> bool;
/// No power: 0 to a negative power, a negative number to a power that is not an integer, or out of reach.
pub uninterp spec fn no_pow(nd: int, x: real, y: real) -> bool;
pub open spec fn no_log(nd: int, x: real, b: real) -> bool { x <= 0real || b <= 0real || f_ln(nd, b, 0real) }
pub uninterp spec fn no_round_ieee(x: real, bits: real) -> bool;
pub open spec fn nd_ok(nd: i64) -> bool { 0 <= nd <= 10000 }
impl BigDecimal {
    #[verifier::external_body] pub fn sqrt(&self) -> (r: Option<BigDecimal>) ensures match r { Some(y) => self.v() >= 0real && f_sqrt(self.v(), y.v()), None => self.v() < 0real } { unimplemented!() }
}
impl BigInt { #[verifier::external_body] pub fn one() -> (r: BigInt) ensures r.i() == 1 { unimplemented!() } }
#[verifier::external_body] pub fn pi(num_digits: i64) -> (r: BigDecimal) requires nd_ok(num_digits) ensures f_pi(num_digits as int, r.v()) { unimplemented!() }
#[verifier::external_body] pub fn exp(x: BigDecimal, num_digits: i64) -> (r: BigDecimal) requires nd_ok(num_digits), x.v() <= 100000real ensures f_exp(num_digits as int, x.v(), r.v()) { unimplemented!() }
#[verifier::external_body] pub fn ln(x: BigDecimal, num_digits: i64) -> (r: Option<BigDecimal>) requires nd_ok(num_digits) ensures match r { Some(y) => x.v() > 0real && f_ln(num_digits as int, x.v(), y.v()), None => x.v() <= 0real } { unimplemented!() }
#[verifier::external_body] pub fn log(x: BigDecimal, base: BigDecimal, num_digits: i64) -> (r: Option<BigDecimal>) requires nd_ok(num_digits) ensures match r { Some(y) => x.v() > 0real && base.v() > 0real && f_log(num_digits as int, x.v(), base.v(), y.v()), None => no_log(num_digits as int, x.v(), base.v()) } { unimplemented!() }
#[verifier::external_body] pub fn pow(x: BigDecimal, y: BigDecimal, num_digits: i64) -> (r: Option<BigDecimal>) requires nd_ok(num_digits) ensures match r { Some(z) => f_pow(num_digits as int, x.v(), y.v(), z.v()), None => no_pow(num_digits as int, x.v(), y.v()) } { unimplemented!() }
#[verifier::external_body] pub fn sin(x: BigDecimal, num_digits: i64) -> (r: BigDecimal) requires nd_ok(num_digits), absr(x.v()) <= p10(50) ensures f_sin(num_digits as int, x.v(), r.v()) { unimplemented!() }
#[verifier::external_body] pub fn cos(x: BigDecimal, num_digits: i64) -> (r: BigDecimal) requires nd_ok(num_digits), absr(x.v()) <= p10(50) ensures f_cos(num_digits as int, x.v(), r.v()) { unimplemented!() }
/// The cosine the tangent divides by is the one of cos, so that a zero is seen beforehand.
#[verifier::external_body] pub fn tan(x: BigDecimal, num_digits: i64) -> (r: BigDecimal) requires nd_ok(num_digits), absr(x.v()) <= p10(50) ensures f_tan(num_digits as int, x.v(), r.v()) { unimplemented!() }
#[verifier::external_body] pub fn asin(x: BigDecimal, num_digits: i64) -> (r: BigDecimal) requires nd_ok(num_digits), absr(x.v()) <= 1real ensures f_asin(num_digits as int, x.v(), r.v()) { unimplemented!() }
#[verifier::external_body] pub fn acos(x: BigDecimal, num_digits: i64) -> (r: BigDecimal) requires nd_ok(num_digits), absr(x.v()) <= 1real ensures f_acos(num_digits as int, x.v(), r.v()) { unimplemented!() }
#[verifier::external_body] pub fn atan(x: BigDecimal, num_digits: i64) -> (r: BigDecimal) requires nd_ok(num_digits) ensures f_atan(num_digits as int, x.v(), r.v()) { unimplemented!() }
#[verifier::external_body] pub fn erf(x: BigDecimal, num_digits: i64) -> (r: BigDecimal) requires nd_ok(num_digits) ensures f_erf(num_digits as int, x.v(), r.v()) { unimplemented!() }
#[verifier::external_body] pub fn erfc(x: BigDecimal, num_digits: i64) -> (r: BigDecimal) requires nd_ok(num_digits) ensures f_erfc(num_digits as int, x.v(), r.v()) { unimplemented!() }
#[verifier::external_body] pub fn dnorm(x: BigDecimal, mean: BigDecimal, sd: BigDecimal, num_digits: i64) -> (r: BigDecimal) requires nd_ok(num_digits), sd.v() != 0real ensures f_dnorm(num_digits as int, x.v(), mean.v(), sd.v(), r.v()) { unimplemented!() }
#[verifier::external_body] pub fn pnorm(x: BigDecimal, mean: BigDecimal, sd: BigDecimal, num_digits: i64) -> (r: BigDecimal) requires nd_ok(num_digits), sd.v() != 0real ensures f_pnorm(num_digits as int, x.v(), mean.v(), sd.v(), r.v()) { unimplemented!() }
#[verifier::external_body] pub fn qnorm(x: BigDecimal, mean: BigDecimal, sd: BigDecimal, num_digits: i64) -> (r: Option<BigDecimal>) requires nd_ok(num_digits) ensures match r { Some(y) => 0real < x.v() < 1real && sd.v() != 0real && f_qnorm(num_digits as int, x.v(), mean.v(), sd.v(), y.v()), None => x.v() <= 0real || x.v() >= 1real || sd.v() == 0real } { unimplemented!() }
#[verifier::external_body] pub fn round_ieee(x: BigDecimal, bits: BigDecimal, num_digits: i64) -> (r: Result<BigDecimal>) ensures match r { Ok(y) => f_round_ieee(x.v(), bits.v(), y.v()), Err(_) => no_round_ieee(x.v(), bits.v()) } { unimplemented!() }
#@known pi exp ln log pow sin cos tan asin acos atan erf erfc dnorm pnorm qnorm round_ieee
