#@verbatim
// ---- the real functions: trusted facts of analysis ------------------------------------------------
pub uninterp spec fn r_exp(x: real) -> real;
pub axiom fn exp_pos(x: real) ensures r_exp(x) > 0real;
pub axiom fn exp_add(x: real, y: real) ensures r_exp(x + y) == r_exp(x) * r_exp(y);
/// Taylor's theorem, and the partial sums for arguments that are not negative.
pub axiom fn exp_taylor(x: real, n: nat) ensures near(r_exp(x), ser(K::Exp, x, n), absr(co(K::Exp, n)) * pw(absr(x), n) * r_exp(absr(x))), sab(K::Exp, x, n) <= r_exp(absr(x));
pub axiom fn exp_one() ensures 2.718real <= r_exp(1real) <= 2.719real;
pub proof fn exp_zero() ensures r_exp(0real) == 1real { exp_add(0real, 0real); exp_pos(0real); let a = r_exp(0real); assert(a == 1real) by(nonlinear_arith) requires a == a * a, a > 0real; }
pub proof fn exp_ge_one(x: real) requires x >= 0real ensures r_exp(x) >= 1real { exp_taylor(x, 1); assert(fct(0) == 1real); assert(pw(x, 0) == 1real); assert(co(K::Exp, 0) == 1real); assert(sab(K::Exp, x, 1) == sab(K::Exp, x, 0) + absr(co(K::Exp, 0)) * pw(absr(x), 0)); assert(sab(K::Exp, x, 0) == 0real); assert(pw(absr(x), 0) == 1real); }
pub proof fn exp_mono(x: real, y: real) requires x <= y ensures 0real < r_exp(x) <= r_exp(y) { exp_pos(x); exp_ge_one(y - x); exp_add(x, y - x); let a = r_exp(x); let b = r_exp(y - x); assert(a * b >= a) by(nonlinear_arith) requires a > 0real, b >= 1real; }
pub proof fn exp_neg(x: real) ensures r_exp(-x) * r_exp(x) == 1real, r_exp(x) > 0real, r_exp(-x) > 0real { exp_add(-x, x); exp_zero(); exp_pos(x); exp_pos(-x); }
pub proof fn exp_double(x: real) ensures r_exp(2real * x) == r_exp(x) * r_exp(x) { exp_add(x, x); }
pub proof fn exp_consts() ensures 7.38real <= r_exp(2real) <= 7.4real, 20real <= r_exp(3real) <= 20.2real, 54real <= r_exp(4real) <= 55real, r_exp(0real) == 1real, 2.718real <= r_exp(1real) <= 2.719real {
    exp_one(); exp_zero(); exp_double(1real); exp_double(2real); exp_add(1real, 2real);
    let e = r_exp(1real); let e2 = r_exp(2real);
    assert(7.38real <= e * e <= 7.4real) by(nonlinear_arith) requires 2.718real <= e <= 2.719real;
    assert(54real <= e2 * e2 <= 55real) by(nonlinear_arith) requires 7.38real <= e2 <= 7.4real;
    assert(20real <= e * e2 <= 20.2real) by(nonlinear_arith) requires 7.38real <= e2 <= 7.4real, 2.718real <= e <= 2.719real;
}
// ---- tolerances
/// The last requested digit.
pub open spec fn ul(nd: int) -> real { p10(-nd) }
pub proof fn ul_pos(nd: int) requires nd >= 0 ensures 0real < ul(nd) <= 1real, ul(nd + 1) * 10real == ul(nd), ul(nd) * p10(nd) == 1real { tiny(nd); p10_step(-nd - 1); }
pub proof fn lin_ten(n: nat) ensures (n as int) as real + 1real <= p10(n as int) decreases n { if n > 0 { lin_ten((n - 1) as nat); p10_step(n - 1); } }
/// What is lost when the series stops: i terms, and a remainder of c times the term that was dropped.
pub proof fn finish(k: K, x: real, nd: int, i: nat, tot: real, lim: real, c: real)
    requires inside(k, x), nd >= 0, i <= last(k, 2 * nd + 5) + 1, sum_ok(k, x, 2 * nd + 5, i, tot), 0real <= c <= 55real,
        near(lim, ser(k, x, i), c * (absr(co(k, i)) * pw(absr(x), i))), absr(co(k, i)) * pw(absr(x), i) <= 14real * half_unit(2 * nd + 5)
    ensures near(tot, lim, 0.0089real * ul(nd) + eps() * sab(k, x, i))
{
    let w = 2 * nd + 5; let h = half_unit(w); unit(w); let t = absr(co(k, i)) * pw(absr(x), i); let ir = (i as int) as real; let n = (nd as int) as real; let u = ul(nd);
    ul_pos(nd); lin_ten(nd as nat);
    p10_add(-nd, -nd); p10_add(-2 * nd, -5);
    assert(p10(-5) == 0.00001real) by { reveal_with_fuel(p10, 7); }
    assert(h == 0.000005real * (u * u));
    pw_abs(x, i);
    assert(c * t <= 55real * (14real * h)) by(nonlinear_arith) requires 0real <= c <= 55real, t <= 14real * h, h > 0real;
    assert(ir <= 16real * n + 58real);
    assert(13real * ir * h <= 13real * (16real * n + 58real) * h) by(nonlinear_arith) requires ir <= 16real * n + 58real, h > 0real;
    // n u <= 1
    let ten = p10(nd);
    assert(n * u <= 1real) by(nonlinear_arith) requires n + 1real <= ten, u * ten == 1real, u > 0real;
    assert(n * (u * u) <= u) by(nonlinear_arith) requires n * u <= 1real, u > 0real;
    assert(u * u <= u) by(nonlinear_arith) requires 0real < u <= 1real;
    assert(13real * (16real * n + 58real) * h == 0.00104real * (n * (u * u)) + 0.00377real * (u * u)) by(nonlinear_arith) requires h == 0.000005real * (u * u);
}
