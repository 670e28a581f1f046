#@fn bdmath.rs bigd
##spec
    ensures r.v() == $0$ as real, r.sc() == 0
#@fn bdmath.rs zero
##spec
    ensures r.v() == 0real, r.sc() == 0
#@fn bdmath.rs one
##spec
    ensures r.v() == 1real, r.sc() == 0
#@fn bdmath.rs two
##spec
    ensures r.v() == 2real, r.sc() == 0
#@verbatim
#[verifier::external_body] pub fn half() -> (r: BigDecimal) ensures r.v() == 0.5real { unimplemented!() }
