#@verbatim
// ---- arc sine, arc cosine and tangent ----------------------------------------------------------------
pub uninterp spec fn f64_dec(x: f64) -> real;
pub axiom fn half_float() ensures f64_dec(0.5f64) == 0.5real, 0.5f64.is_finite_spec();
/// The decimal of a float (decided under C13).
#[verifier::external_body] pub fn bigdf(i: f64) -> (r: BigDecimal) ensures r.v() == f64_dec(i) { unimplemented!() }
#@known bigdf
#@verbatim
use vstd::float::FloatBitsProperties;
pub uninterp spec fn r_asin(x: real) -> real;
/// The terms of the rest go down by 4 at least and have the same sign.
pub axiom fn asin_taylor(x: real, n: nat) requires absr(x) <= 0.5real, n % 2 == 1 ensures near(r_asin(x), ser(K::Asin, x, n), 4real / 3real * (absr(co(K::Asin, n)) * pw(absr(x), n)));
pub axiom fn asin_other(x: real, s: real) requires 0real < absr(x) <= 1real, s >= 0real, s * s == 1real - x * x ensures r_asin(x) == (r_pi() / 2real - r_atan(s / absr(x))) * (if x > 0real { 1real } else { -1real });
pub open spec fn r_acos(x: real) -> real { r_pi() / 2real - r_asin(x) }
pub open spec fn asin_ok(nd: int, x: real, r: real) -> bool { near(r, r_asin(x), 0.52real * ul(nd)) }
pub open spec fn acos_ok(nd: int, x: real, r: real) -> bool { near(r, r_acos(x), 0.79real * ul(nd)) }
pub proof fn asin_base(nd: int, x: real, i: nat, tot: real, r: real) requires 0 <= nd <= 92, absr(x) <= 0.5real, near(tot, r_asin(x), 0.0089real * ul(nd) + eps() * sab(K::Asin, x, i)), near(r, tot, half_unit(nd + 1)) ensures asin_ok(nd, x, r) {
    sab_geo(K::Asin, x, i); ul_pos(nd); unit(nd + 1); let s = sab(K::Asin, x, i); let ep = eps(); eps_small();
    p10_mono(-99, -nd - 5); p10_add(-nd, -5); assert(p10(-5) == 0.00001real) by { reveal_with_fuel(p10, 7); }
    assert(ep * s <= 3real * ep) by(nonlinear_arith) requires 0real <= s <= 3real, ep > 0real;
}
/// The other half: of the root and the quotient, the arc tangent and half of pi.
pub proof fn asin_far(nd: int, x: real, s: real, y: real, p: real, w: real)
    requires 0 <= nd <= 92, 0.5real < absr(x) <= 1real, sqrt_ok(1real - x * x, s), near(y, s / absr(x), absr(s / absr(x)) * p10(-99)), pi_ok(nd, p), atan_ok(nd, y, w)
    ensures asin_ok(nd, x, (p * 0.5real - w) * (if x > 0real { 1real } else { -1real }))
{
    let a = absr(x); assert(0.25real <= x * x <= 1real) by(nonlinear_arith) requires 0.5real <= a <= 1real, a == x || a == -x;
    let r = r_sqrt(1real - x * x); sqrt_def(1real - x * x); asin_other(x, r); assert(r <= 1real) by(nonlinear_arith) requires r * r <= 1real, r >= 0real;
    let e = p10(-97); p10_mono(-97, -4); p10_pos(-97); assert(p10(-4) == 0.0001real) by { reveal_with_fuel(p10, 6); } p10_add(-99, 2); assert(p10(2) == 100real) by { reveal_with_fuel(p10, 4); }
    assert(0real <= r * e <= e) by(nonlinear_arith) requires 0real <= r <= 1real, e > 0real;
    assert(r - r * e >= 0real) by(nonlinear_arith) requires 0real <= r, e <= 0.0001real;
    let t = r / a; quot(r, a, t); let z = s / a; quot(s, a, z); div_abs(s, a);
    assert((z - t) * a == s - r) by(nonlinear_arith) requires z * a == s, t * a == r;
    assert(absr(z - t) <= 2real * e) by(nonlinear_arith) requires (z - t) * a == s - r, a > 0.5real, -e <= s - r <= e, e > 0real, z * a == s, t * a == r;
    assert(absr(z) <= 2.1real) by(nonlinear_arith) requires z * a == s, a > 0.5real, 0real <= s <= 1.05real;
    let b = p10(-99); let az = absr(z); assert(az * b <= 2.1real * b) by(nonlinear_arith) requires 0real <= az <= 2.1real, b == 0.01real * e, e > 0real;
    atan_slope(y, t); ul_pos(nd); p10_mono(-97, -nd - 5); p10_add(-nd, -5); assert(p10(-5) == 0.00001real) by { reveal_with_fuel(p10, 7); }
    let q = p * 0.5real - w; assert(q * -1real == -q) by(nonlinear_arith); assert(q * 1real == q) by(nonlinear_arith);
    let q2 = r_pi() / 2real - r_atan(t); assert(q2 * -1real == -q2) by(nonlinear_arith); assert(q2 * 1real == q2) by(nonlinear_arith);
}
/// an and ad are not zero, and the two quotients are the term.
pub proof fn asin_term(w: int, i: nat, p: BigDecimal, tot: BigDecimal, nu: BigDecimal, de: BigDecimal)
    requires i % 2 == 1, nu.v() == an(i / 2), de.v() == ad(i / 2)
    ensures de.v() != 0real, co(K::Asin, i) > 0real,
        forall|z: BigDecimal| z.v() == (i as int) as real ==> adds(K::Asin, w, i, p.v(), tot.v(), (#[trigger] bd_add(tot, bd_div(bd_div(bd_mul(p, nu), de), z))).v())
{
    asin_co(i / 2); let n = nu.v(); let d = de.v(); let r = (i as int) as real; let pv = p.v(); let c = co(K::Asin, i);
    let c1 = n / d; quot(n, d, c1); quot(c1, r, c); assert(c1 > 0real) by(nonlinear_arith) requires c1 * d == n, n > 0real, d > 0real; assert(c > 0real) by(nonlinear_arith) requires c * r == c1, c1 > 0real, r > 0real;
    eps_small(); let e = p10(-99);
    assert forall|z: BigDecimal| z.v() == (i as int) as real implies adds(K::Asin, w, i, p.v(), tot.v(), (#[trigger] bd_add(tot, bd_div(bd_div(bd_mul(p, nu), de), z))).v()) by {
        broadcast use bd_arith;
        let a = bd_mul(p, nu); let b = bd_div(a, de); let y = bd_div(b, z);
        let q1 = a.v() / d; quot(a.v(), d, q1); 
        assert(q1 == c1 * pv) by(nonlinear_arith) requires q1 * d == pv * n, c1 * d == n, d > 0real;
        let q2 = b.v() / r; quot(b.v(), r, q2); let t = c * pv; let at = absr(t);
        assert(t * r == q1) by(nonlinear_arith) requires t == c * pv, c * r == c1, q1 == c1 * pv;
        // b = q1 (1 + e), q2 = t (1 + e)
        assert(absr(q1) == at * r) by(nonlinear_arith) requires t * r == q1, at == absr(t), r > 0real;
        assert((q2 - t) * r == b.v() - q1) by(nonlinear_arith) requires q2 * r == b.v(), t * r == q1;
        assert(absr(b.v() - q1) <= (at * r) * e);
        assert(absr(q2 - t) <= at * e) by(nonlinear_arith) requires (q2 - t) * r == b.v() - q1, absr(b.v() - q1) <= (at * r) * e, r > 0real, q2 * r == b.v(), t * r == q1;
        assert(absr(q2) <= at + at * e);
        let aq = absr(q2); assert(aq * e <= (at + at * e) * e) by(nonlinear_arith) requires aq <= at + at * e, e > 0real;
        assert((at + at * e) * e <= 1.5real * (at * e)) by(nonlinear_arith) requires at >= 0real, 0real < e <= 0.001real;
        assert(eps() * at == 3real * (at * e)) by(nonlinear_arith) requires eps() == 3real * e;
        assert(at * e >= 0real) by(nonlinear_arith) requires at >= 0real, e > 0real;
    }
}
pub proof fn an_next(i: nat) ensures i % 2 == 1 ==> an((i + 1) / 2) == an(i / 2) * ((i as int) as real) && ad((i + 1) / 2) == ad(i / 2) * (((i + 1) as int) as real), i % 2 == 0 ==> (i + 1) / 2 == i / 2 { 
    if i % 2 == 1 { assert((i + 1) / 2 == i / 2 + 1); }
}
pub broadcast proof fn mul_const(a: BigDecimal, b: BigDecimal) ensures #![trigger bd_mul(a, b)] b.v() == 1real ==> bd_mul(a, b).v() == a.v(), b.v() == -1real ==> bd_mul(a, b).v() == -a.v(), b.v() == 0.5real ==> bd_mul(a, b).v() == a.v() / 2real, b.v() == 2real ==> bd_mul(a, b).v() == a.v() + a.v() {
    broadcast use bd_arith; let x = a.v(); assert(x * 1real == x) by(nonlinear_arith); assert(x * -1real == -x) by(nonlinear_arith); assert(x * 0.5real == x / 2real) by(nonlinear_arith); assert(x * 2real == x + x) by(nonlinear_arith);
}
#@fn bdmath.rs asin
##attr
#[verifier::spinoff_prover]
#[verifier::rlimit(50)]
##spec
    requires 0 <= $1$ <= 92, absr($0$.v()) <= 1real
    ensures asin_ok($1$ as int, $0$.v(), r.v())
##begin
    broadcast use {bd_arith, mul_const};
    let ghost x0 = x.v(); let ghost n0 = num_digits as int;
    proof {
        unit(n0 + 1); half_float(); assert(x0 * x0 >= 0real) by(nonlinear_arith); assert(x0 * x0 <= 1real) by(nonlinear_arith) requires -1real <= x0 <= 1real; assert(an(0) == 1real && ad(0) == 1real);
        eps_small();
        assert forall|q: real, s: BigDecimal, a: BigDecimal, p: real, w: real| absr(x0) > 0.5real && #[trigger] sqrt_ok(q, s.v()) && q == 1real - x0 * x0 && a.v() == absr(x0) && #[trigger] pi_ok(n0, p) && #[trigger] atan_ok(n0, bd_div(s, a).v(), w) implies (if x0 > 0real { asin_ok(n0, x0, p * 0.5real - w) } else { asin_ok(n0, x0, -(p * 0.5real - w)) }) by { asin_far(n0, x0, s.v(), bd_div(s, a).v(), p, w); let g = p * 0.5real - w; assert(g * -1real == -g) by(nonlinear_arith); assert(g * 1real == g) by(nonlinear_arith); }
        assert forall|i: nat, t: real, r: real| absr(x0) <= 0.5real && #[trigger] near(t, r_asin(x0), 0.0089real * ul(n0) + eps() * sab(K::Asin, x0, i)) && #[trigger] near(r, t, half_unit(n0 + 1)) implies asin_ok(n0, x0, r) by { asin_base(n0, x0, i, t, r); }
    }
##loopbefore 0
    proof { first_sum(K::Asin, x.v(), work_digits as int); }
##loop 0
    invariant_except_break
        numer.v() == an(i as nat / 2), denom.v() == ad(i as nat / 2),
    invariant
        0 <= num_digits <= 92, work_digits == 2 * num_digits + 5, imax == 30000 + num_digits * 20, absr(x.v()) <= 0.5real,
        0 <= i <= last(K::Asin, work_digits as int) + 1, sum_ok(K::Asin, x.v(), work_digits as int, i as nat, tot.v()), pow_ok(K::Asin, x.v(), work_digits as int, i as nat, power.v()),
    ensures
        i % 2 == 1, absr(co(K::Asin, i as nat)) * pw(absr(x.v()), i as nat) <= 14real * half_unit(work_digits as int)
    decreases last(K::Asin, work_digits as int) + 1 - i
##loopbegin 0
    broadcast use {bd_arith};
    proof { let ii: i32 = i; assert((ii & 1 != 0) == (ii % 2 == 1)) by(bit_vector) requires ii >= 0; 
        if i % 2 == 1 { asin_term(work_digits as int, i as nat, power, tot, numer, denom); }
        an_next(i as nat); steps(K::Asin, x.v(), work_digits as int, i as nat, power, tot); }
##loopafter 0
    proof { asin_taylor(x.v(), i as nat); finish(K::Asin, x.v(), num_digits as int, i as nat, tot.v(), r_asin(x.v()), 4real / 3real); }
#@fn bdmath.rs acos
##spec
    requires 0 <= num_digits <= 92, absr($0$.v()) <= 1real
    ensures acos_ok(num_digits as int, $0$.v(), r.v())
##begin
    broadcast use {bd_arith};
    let ghost n0 = num_digits as int;
    proof { ul_pos(n0); pi_digits(); p10_mono(-99, -n0 - 5); p10_add(-n0, -5); p10_pos(-99); assert(p10(-5) == 0.00001real) by { reveal_with_fuel(p10, 7); } let e = p10(-99);
        assert forall|p: real| #[trigger] pi_ok(n0, p) implies absr(p / 2real) * e <= 0.0001real * ul(n0) by { let a = absr(p / 2real); assert(a * e <= 2real * e) by(nonlinear_arith) requires 0real <= a <= 2real, e > 0real; } }
#@verbatim
pub open spec fn r_tan(x: real) -> real { r_sin(x) / r_cos(x) }
/// The loss of the quotient; 1 / |cos x| is at most 1 + |tan x|.
pub open spec fn tan_ok(nd: int, x: real, r: real) -> bool { near(r, r_tan(x), 0.15real * ul(nd) * (1real + absr(r_tan(x))) / absr(r_cos(x))) }
pub axiom fn sin_cos(x: real) ensures r_sin(x) * r_sin(x) + r_cos(x) * r_cos(x) == 1real;
pub proof fn tan_end(nd: int, x: real, s: real, c: real, r: real) requires 0 <= nd <= 92, trig_ok(nd, r_sin(x), s), trig_ok(nd, r_cos(x), c), absr(r_cos(x)) >= 2real * ul(nd), c != 0real, near(r, s / c, absr(s / c) * p10(-99))
    ensures tan_ok(nd, x, r)
{
    ul_pos(nd); let u = 0.12real * ul(nd); let sx = r_sin(x); let cx = r_cos(x); let t = r_tan(x); quot(sx, cx, t); let q = s / c; quot(s, c, q); sin_cos(x);
    let a = absr(cx); let b = absr(c);
    assert(b >= 0.94real * a);
    // (q - t) c = s - t c = (s - sx) - t (c - cx)
    assert((q - t) * c == (s - sx) - t * (c - cx)) by(nonlinear_arith) requires q * c == s, t * cx == sx;
    let at = absr(t); abs_le(t, c - cx, at, u); let d = absr(q - t);
    abs_mul(q - t, c);
    assert(d * b <= u + at * u);
    assert(d * (0.94real * a) <= d * b) by(nonlinear_arith) requires b >= 0.94real * a, d >= 0real;
    assert(at * a == absr(sx)) by { abs_mul(t, cx); }
    assert(absr(sx) <= 1real) by(nonlinear_arith) requires sx * sx + cx * cx == 1real;
    assert(a <= 1real) by(nonlinear_arith) requires sx * sx + cx * cx == 1real, a == absr(cx);
    let e = p10(-99); p10_pos(-99); p10_mono(-99, -nd - 5); p10_add(-nd, -5); assert(p10(-5) == 0.00001real) by { reveal_with_fuel(p10, 7); }
    let aq = absr(q); assert(aq <= at + d);
    assert(aq * e <= at * e + d * e) by(nonlinear_arith) requires aq <= at + d, e > 0real;
    let g = d + aq * e;
    assert(d * e <= 0.001real * d) by(nonlinear_arith) requires d >= 0real, 0real < e <= 0.001real;
    assert(at * e * a <= 0.00001real * ul(nd)) by(nonlinear_arith) requires at * a <= 1real, 0real < e <= 0.00001real * ul(nd), at >= 0real, a >= 0real;
    assert(g * a <= 1.001real * (d * a) + at * e * a) by(nonlinear_arith) requires g <= 1.001real * d + at * e, a >= 0real;
    let m = 0.15real * ul(nd) * (1real + at);
    assert(m == 0.15real * ul(nd) + 0.15real * (at * ul(nd))) by(nonlinear_arith) requires m == 0.15real * ul(nd) * (1real + at);
    assert(at * u == 0.12real * (at * ul(nd))) by(nonlinear_arith) requires u == 0.12real * ul(nd);
    assert(at * ul(nd) >= 0real) by(nonlinear_arith) requires at >= 0real, ul(nd) > 0real;
    assert(d * (0.94real * a) == 0.94real * (d * a)) by(nonlinear_arith);
    assert(g * a <= m);
    let l = m / a; quot(m, a, l);
    assert(g <= l) by(nonlinear_arith) requires g * a <= l * a, a > 0real;
}
#@fn bdmath.rs tan
##spec
    requires 0 <= num_digits <= 92, absr($0$.v()) <= p10(50), absr(r_cos($0$.v())) >= 2real * ul(num_digits as int)
    ensures tan_ok(num_digits as int, $0$.v(), r.v())
##begin
    broadcast use {bd_arith};
    let ghost x0 = $0$.v(); let ghost n0 = num_digits as int;
    proof { ul_pos(n0);
        assert forall|c: real| #[trigger] trig_ok(n0, r_cos(x0), c) implies c != 0real by { }
        assert forall|s: real, c: real, r: real| #[trigger] trig_ok(n0, r_sin(x0), s) && #[trigger] trig_ok(n0, r_cos(x0), c) && #[trigger] near(r, s / c, absr(s / c) * p10(-99)) implies tan_ok(n0, x0, r) by { tan_end(n0, x0, s, c, r); } }
