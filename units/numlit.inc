#@verbatim
/// The number a literal stands for, and whether it is within reach of each number type.
pub uninterp spec fn dec_ok(l: Lit) -> bool;
#[verifier::external_body]
pub struct SynError { x: u8 }
#[verifier::external]
impl core::fmt::Debug for SynError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
/// What FromStr gives for the digits of a literal.
pub trait VNum: Sized { spec fn reads(l: Lit, x: Self) -> bool; spec fn readable(l: Lit) -> bool; }
impl VNum for BigDecimal {
    open spec fn reads(l: Lit, x: BigDecimal) -> bool { x.v() == lit_val(l) }
    open spec fn readable(l: Lit) -> bool { dec_ok(l) }
}
impl LitInt { #[verifier::external_body] pub fn base10_parse<N: VNum>(&self) -> (r: StdResult<N, SynError>) ensures match r { Ok(x) => N::reads(Lit::Int(*self), x) && N::readable(Lit::Int(*self)), Err(_) => !N::readable(Lit::Int(*self)) } { unimplemented!() } }
impl LitFloat { #[verifier::external_body] pub fn base10_parse<N: VNum>(&self) -> (r: StdResult<N, SynError>) ensures match r { Ok(x) => N::reads(Lit::Float(*self), x) && N::readable(Lit::Float(*self)), Err(_) => !N::readable(Lit::Float(*self)) } { unimplemented!() } }
/// The text of a number.
#[verifier::external_body]
pub struct VText { x: u8 }
impl VText {
    pub uninterp spec fn num(&self) -> real;
    #[verifier::external_body] pub fn as_str(&self) -> (r: &VText) ensures r == self { unimplemented!() }
}
impl BigDecimal { #[verifier::external_body] pub fn to_string(&self) -> (r: VText) ensures r.num() == self.v() { unimplemented!() } }
impl LitFloat { #[verifier::external_body] pub fn new(t: &VText, span: Span) -> (r: LitFloat) ensures lit_val(Lit::Float(r)) == t.num(), dec_ok(Lit::Float(r)) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<LitFloat> for Lit { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: LitFloat) -> Self { Lit::Float(v) } }
impl From<LitFloat> for Lit { fn from(e: LitFloat) -> (r: Lit) { Lit::Float(e) } }
pub open spec fn numeric(e: Expr) -> bool { e matches Expr::Lit(l) && (l.lit is Int || l.lit is Float) }
pub open spec fn num_of(e: Expr) -> real { match e { Expr::Lit(l) => lit_val(l.lit), _ => 0real } }
pub open spec fn num_ok(e: Expr) -> bool { numeric(e) && dec_ok(e->Lit_0.lit) }
impl vstd::std_specs::convert::FromSpecImpl<BigDecimal> for Expression { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: BigDecimal) -> Self; }
impl vstd::std_specs::convert::TryFromSpecImpl<Expression> for BigDecimal { open spec fn obeys_try_from_spec() -> bool { false } uninterp spec fn try_from_spec(v: Expression) -> core::result::Result<Self, Error>; }
#@fn expression.rs expr_to
##sig
fn expr_to<N: VNum>(expr: &syn::Expr) -> Result<N>
##spec
    ensures match r { Ok(x) => numeric(*$0$) && N::reads($0$->Lit_0.lit, x) && N::readable($0$->Lit_0.lit), Err(_) => !(numeric(*$0$) && N::readable($0$->Lit_0.lit)) }
#@method expression.rs BigDecimal try_from TryFrom<Expression>
##attr
/*trait_impl*/
##spec
    ensures match r { Ok(x) => num_ok($0$.inner) && x.v() == num_of($0$.inner), Err(_) => !num_ok($0$.inner) }
#@method expression.rs Expression from From<BigDecimal>
##attr
/*trait_impl*/
##spec
    ensures num_ok(r.inner), num_of(r.inner) == $0$.v(), r.inner is Lit, r.inner->Lit_0.lit is Float
#@method expression.rs Expression is_numeric
##spec
    ensures r == numeric(self.inner)
