#@verbatim
// ---- square root and arc tangent ---------------------------------------------------------------------
pub uninterp spec fn r_sqrt(x: real) -> real;
pub axiom fn sqrt_def(x: real) requires x >= 0real ensures r_sqrt(x) >= 0real, r_sqrt(x) * r_sqrt(x) == x;
pub uninterp spec fn r_atan(x: real) -> real;
/// Leibniz's criterion.
pub axiom fn atan_taylor(x: real, n: nat) requires absr(x) <= 1real, n > 0 ensures near(r_atan(x), ser(K::Atan, x, n), pw(absr(x), n) / ((n as int) as real));
pub axiom fn atan_half(x: real, s: real) requires s >= 0real, s * s == 1real + x * x ensures r_atan(x) == 2real * r_atan(x / (1real + s));
pub axiom fn atan_slope(x: real, y: real) ensures near(r_atan(x), r_atan(y), absr(x - y));
impl BigDecimal {
    /// 100 digits, of which all but the last few are right.
    #[verifier::external_body] pub fn sqrt(&self) -> (r: Option<BigDecimal>) ensures match r { Some(y) => self.v() >= 0real && sqrt_ok(self.v(), y.v()), None => self.v() < 0real } { unimplemented!() }
}
pub open spec fn sqrt_ok(x: real, r: real) -> bool { near(r, r_sqrt(x), r_sqrt(x) * p10(-97)) }
/// The terms of the series of the others than exp, sin and cos are at most those of a geometric series.
pub proof fn sab_geo(k: K, x: real, n: nat) requires !fac(k), inside(k, x) ensures 0real <= sab(k, x, n) <= 3real {
    sab_geo1(k, x, n); pw_abs(x, n); let y = absr(x); let s = sab(k, x, n);
    assert(s <= 3real) by(nonlinear_arith) requires s * (1real - y) <= 1real, 0real <= y <= 0.66real;
}
pub proof fn sab_geo1(k: K, x: real, n: nat) requires !fac(k), inside(k, x) ensures sab(k, x, n) * (1real - absr(x)) <= 1real - pw(absr(x), n), sab(k, x, n) >= 0real decreases n {
    let y = absr(x);
    if n > 0 {
        let m = (n - 1) as nat; sab_geo1(k, x, m); co_size(k, m); pw_abs(x, m); let c = absr(co(k, m)); let p = pw(y, m); let s = sab(k, x, m);
        assert(c * p <= p && c * p >= 0real) by(nonlinear_arith) requires 0real <= c <= 1real, p >= 0real;
        assert((s + c * p) * (1real - y) <= s * (1real - y) + p * (1real - y)) by(nonlinear_arith) requires c * p <= p, 0real <= y <= 0.66real;
        assert(p * (1real - y) == p - y * p) by(nonlinear_arith);
    }
}
pub proof fn half_bound(x: real, r: real) requires r >= 0real, r * r == 1real + x * x ensures absr(x) <= r, r >= 1real, absr(x) <= 1.01real ==> absr(x) <= 0.45real * (1real + r)
{
    let a = absr(x);
    assert(a * a == x * x) by(nonlinear_arith) requires a == x || a == -x;
    assert(a <= r) by(nonlinear_arith) requires a * a < r * r, r >= 0real;
    assert(x * x >= 0real) by(nonlinear_arith);
    assert(r >= 1real) by(nonlinear_arith) requires r * r >= 1real, r >= 0real;
    if a <= 1.01real && a > 0.45real * (1real + r) {
        let b = 0.45real * (1real + r);
        assert(a * a > b * b) by(nonlinear_arith) requires a > b, b > 0real;
        assert((r - 1real) * (r + 1real) > (0.2025real * (1real + r)) * (1real + r)) by(nonlinear_arith) requires a * a > b * b, b == 0.45real * (1real + r), r * r == 1real + a * a;
        assert(r - 1real > 0.2025real * (1real + r)) by(nonlinear_arith) requires (r - 1real) * (r + 1real) > (0.2025real * (1real + r)) * (1real + r), r > 0real;
        assert(r > 1.5real); assert(r * r > 2.25real) by(nonlinear_arith) requires r > 1.5real;
        assert(a * a <= 1.0201real) by(nonlinear_arith) requires 0real <= a <= 1.01real;
    }
}
/// x / (1 + s) with some other root s.
pub proof fn half_arg(x: real, s: real, y: real) requires sqrt_ok(1real + x * x, s), near(y, x / (1real + s), absr(x / (1real + s)) * p10(-99))
    ensures 1real + s != 0real, near(y, x / (1real + r_sqrt(1real + x * x)), 3real * p10(-97)), absr(y) <= 1.01real, absr(x) <= 1.01real ==> absr(y) <= 0.5real
{
    assert(x * x >= 0real) by(nonlinear_arith);
    let r = r_sqrt(1real + x * x); sqrt_def(1real + x * x); half_bound(x, r);
    let e = p10(-97); p10_pos(-97); p10_mono(-97, -4); assert(p10(-4) == 0.0001real) by { reveal_with_fuel(p10, 6); } p10_add(-99, 2); assert(p10(2) == 100real) by { reveal_with_fuel(p10, 4); }
    assert(r * e <= 0.0001real * r) by(nonlinear_arith) requires 0real < e <= 0.0001real, r >= 1real;
    assert(s >= 0.999real * r);
    let a = absr(x); let t = x / (1real + r); quot(x, 1real + r, t); let z = x / (1real + s); quot(x, 1real + s, z);
    // z (1 + s) = t (1 + r)
    let at = absr(t); let az = absr(z);
    assert(at * (1real + r) == a) by(nonlinear_arith) requires t * (1real + r) == x, at == absr(t), a == absr(x), r >= 1real;
    assert(az * (1real + s) == a) by(nonlinear_arith) requires z * (1real + s) == x, az == absr(z), a == absr(x), s >= 0.999real;
    assert(az <= 1.0011real) by(nonlinear_arith) requires az * (1real + s) == a, a <= r, s >= 0.999real * r, r >= 1real, az >= 0real;
    assert((z - t) * (1real + r) == z * (r - s)) by(nonlinear_arith) requires z * (1real + s) == t * (1real + r);
    abs_le(z, r - s, 1.0011real, r * e);
    let d = z - t; 
    assert(absr(d) * (1real + r) == absr(d * (1real + r))) by(nonlinear_arith) requires r >= 1real;
    assert(1.0011real * (r * e) <= (1.0011real * e) * (1real + r)) by(nonlinear_arith) requires r >= 1real, e > 0real;
    assert(absr(d) <= 1.0011real * e) by(nonlinear_arith) requires absr(d) * (1real + r) <= (1.0011real * e) * (1real + r), r >= 1real;
    let b = p10(-99);
    assert(az * b <= 1.0011real * b) by(nonlinear_arith) requires 0real <= az <= 1.0011real, b == 0.01real * e, e > 0real;
    assert(at <= 1real) by(nonlinear_arith) requires at * (1real + r) == a, a <= r, r >= 1real;
    if a <= 1.01real { assert(at <= 0.45real) by(nonlinear_arith) requires at * (1real + r) == a, a <= 0.45real * (1real + r), r >= 1real; }
}
pub open spec fn at_tol(nd: int, x: real) -> real { (if absr(x) > 1.01real { 0.25real } else if absr(x) > 0.5real { 0.124real } else { 0.06real }) * ul(nd) }
pub open spec fn atan_ok(nd: int, x: real, r: real) -> bool { near(r, r_atan(x), at_tol(nd, x)) }
pub proof fn atan_end(nd: int, x: real, s: real, y: real, w: real) requires 0 <= nd <= 92, absr(x) > 0.5real, sqrt_ok(1real + x * x, s), near(y, x / (1real + s), absr(x / (1real + s)) * p10(-99)), atan_ok(nd, y, w)
    ensures atan_ok(nd, x, w * 2real)
{
    half_arg(x, s, y); let r = r_sqrt(1real + x * x); assert(x * x >= 0real) by(nonlinear_arith); sqrt_def(1real + x * x); atan_half(x, r); let t = x / (1real + r); atan_slope(y, t);
    p10_mono(-97, -nd - 5); p10_add(-nd, -5); ul_pos(nd); assert(p10(-5) == 0.00001real) by { reveal_with_fuel(p10, 7); }
}
pub proof fn atan_base(nd: int, x: real, i: nat, tot: real, r: real) requires 0 <= nd <= 92, absr(x) <= 0.5real, near(tot, r_atan(x), 0.0089real * ul(nd) + eps() * sab(K::Atan, x, i)), near(r, tot, half_unit(nd + 1)) ensures atan_ok(nd, x, r) {
    sab_geo(K::Atan, x, i); ul_pos(nd); unit(nd + 1); let s = sab(K::Atan, x, i); let ep = eps(); eps_small();
    p10_mono(-99, -nd - 5); p10_add(-nd, -5); assert(p10(-5) == 0.00001real) by { reveal_with_fuel(p10, 7); }
    assert(ep * s <= 3real * ep) by(nonlinear_arith) requires 0real <= s <= 3real, ep > 0real;
}
pub proof fn odd_terms(i: int) requires i > 0 ensures ({ let r = i as real; -(1real / r) == 1real / ((-i) as real) && r != 0real && ((-i) as real) != 0real && 1real / r > 0real }) {
    let r = i as real; let q = 1real / r; quot(1real, r, q); let p = 1real / (-r); quot(1real, -r, p);
    assert(p == -q) by(nonlinear_arith) requires q * r == 1real, p * (-r) == 1real; assert((-i) as real == -r); assert(q > 0real) by(nonlinear_arith) requires q * r == 1real, r > 0real;
}
#@fn bdmath.rs atan
##spec
    requires 0 <= $1$ <= 92
    ensures atan_ok($1$ as int, $0$.v(), r.v())
    decreases (if absr($0$.v()) > 1.01real { 2int } else if absr($0$.v()) > 0.5real { 1int } else { 0int })
##begin
    broadcast use {bd_arith};
    let ghost x0 = x.v(); let ghost n0 = num_digits as int;
    proof {
        unit(n0 + 1); assert(x0 * x0 >= 0real) by(nonlinear_arith);
        eps_small();
        assert forall|q: real, s: real| #[trigger] sqrt_ok(q, s) && q == 1real + x0 * x0 implies 1real + s != 0real by { let y = x0 / (1real + s); assert(absr(y) * p10(-99) >= 0real) by(nonlinear_arith) requires p10(-99) > 0real; half_arg(x0, s, y); }
        assert forall|q: real, s: BigDecimal, z: BigDecimal| #[trigger] sqrt_ok(q, s.v()) && q == 1real + x0 * x0 && z.v() == 1real + s.v() implies absr((#[trigger] bd_div(x, z)).v()) <= 1.01real && (absr(x0) <= 1.01real ==> absr(bd_div(x, z).v()) <= 0.5real) by { half_arg(x0, s.v(), bd_div(x, z).v()); }
        assert forall|q: real, s: BigDecimal, z: BigDecimal, w: real| absr(x0) > 0.5real && #[trigger] sqrt_ok(q, s.v()) && q == 1real + x0 * x0 && z.v() == 1real + s.v() && #[trigger] atan_ok(n0, bd_div(x, z).v(), w) implies atan_ok(n0, x0, w * 2real) by { half_arg(x0, s.v(), bd_div(x, z).v()); atan_end(n0, x0, s.v(), bd_div(x, z).v(), w); }
        assert forall|i: nat, t: real, r: real| absr(x0) <= 0.5real && #[trigger] near(t, r_atan(x0), 0.0089real * ul(n0) + eps() * sab(K::Atan, x0, i)) && #[trigger] near(r, t, half_unit(n0 + 1)) implies atan_ok(n0, x0, r) by { atan_base(n0, x0, i, t, r); }
    }
##loopbefore 0
    proof { first_sum(K::Atan, x.v(), work_digits as int); }
##loop 0
    invariant
        0 <= num_digits <= 92, work_digits == 2 * num_digits + 5, imax == 30000 + num_digits * 20, absr(x.v()) <= 0.5real,
        0 <= i <= last(K::Atan, work_digits as int) + 1, sum_ok(K::Atan, x.v(), work_digits as int, i as nat, tot.v()), pow_ok(K::Atan, x.v(), work_digits as int, i as nat, power.v()),
    ensures
        i > 0, absr(co(K::Atan, i as nat)) == 1real / (i as real), absr(co(K::Atan, i as nat)) * pw(absr(x.v()), i as nat) <= 14real * half_unit(work_digits as int)
    decreases last(K::Atan, work_digits as int) + 1 - i
##loopbegin 0
    broadcast use {bd_arith};
    proof { let ii: i32 = i; assert((ii & 1 != 0) == (ii % 2 == 1)) by(bit_vector) requires ii >= 0; assert((ii & 2 != 0) == (ii % 4 >= 2)) by(bit_vector) requires ii >= 0; if i > 0 { odd_terms(i as int); }
        steps(K::Atan, x.v(), work_digits as int, i as nat, power, tot); div_terms(K::Atan, work_digits as int, i as nat, power, tot); }
##loopafter 0
    proof { atan_taylor(x.v(), i as nat); let r = i as real; let p = pw(absr(x.v()), i as nat); let q = p / r; quot(p, r, q); let c = 1real / r; quot(1real, r, c); assert(q == 1real * (c * p)) by(nonlinear_arith) requires q * r == p, c * r == 1real, r > 0real; 
        finish(K::Atan, x.v(), num_digits as int, i as nat, tot.v(), r_atan(x.v()), 1real); }
