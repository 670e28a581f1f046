#@verbatim
// ---- logarithm ---------------------------------------------------------------------------------------
pub uninterp spec fn r_ln(x: real) -> real;
pub axiom fn ln_def(x: real) requires x > 0real ensures r_exp(r_ln(x)) == x;
pub axiom fn exp_tangent(x: real) ensures r_exp(x) >= 1real + x;
/// Taylor's theorem for ln(1 + y) and ln(1 - y).
pub axiom fn ln_taylor(y: real, n: nat) requires absr(y) <= 0.66real, n > 0 ensures near(r_ln(1real + y), ser(K::Ln, y, n), 3real * (absr(co(K::Ln, n)) * pw(absr(y), n))), near(r_ln(1real - y), ser(K::LnNeg, y, n), 3real * (absr(co(K::LnNeg, n)) * pw(absr(y), n)));
pub proof fn exp_strict(a: real, b: real) requires a < b ensures r_exp(a) < r_exp(b) { exp_add(a, b - a); exp_tangent(b - a); exp_pos(a); assert(a + (b - a) == b); let p = r_exp(a); let q = r_exp(b - a); assert(p * q > p) by(nonlinear_arith) requires p > 0real, q > 1real; }
pub proof fn ln_exp(a: real) ensures r_ln(r_exp(a)) == a { exp_pos(a); ln_def(r_exp(a)); let b = r_ln(r_exp(a)); if a < b { exp_strict(a, b); } else if b < a { exp_strict(b, a); } }
pub proof fn ln_mul(x: real, y: real) requires x > 0real, y > 0real ensures r_ln(x * y) == r_ln(x) + r_ln(y) { ln_def(x); ln_def(y); exp_add(r_ln(x), r_ln(y)); ln_exp(r_ln(x) + r_ln(y)); }
pub proof fn ln_mono(x: real, y: real) requires 0real < x <= y ensures r_ln(x) <= r_ln(y) { ln_def(x); ln_def(y); if r_ln(y) < r_ln(x) { exp_strict(r_ln(y), r_ln(x)); } }
pub proof fn ln_below(x: real) requires x > 0real ensures r_ln(x) <= x - 1real { ln_def(x); exp_tangent(r_ln(x)); }
pub proof fn ln_one() ensures r_ln(1real) == 0real { exp_zero(); ln_exp(0real); }
/// 1 + d, |d| small
pub proof fn ln_near(x: real, d: real) requires near(x, 1real, d), 0real <= d <= 0.01real ensures near(r_ln(x), 0real, 1.02real * d) {
    ln_below(x); let y = 1real / x; quot(1real, x, y); assert(y > 0real) by(nonlinear_arith) requires y * x == 1real, x > 0real; ln_mul(x, y); assert(x * y == 1real) by(nonlinear_arith) requires y * x == 1real; ln_one(); ln_below(y);
    assert(y - 1real <= 1.02real * d) by(nonlinear_arith) requires y * x == 1real, x >= 1real - d, 0real <= d <= 0.01real, y > 0real;
}
pub proof fn ln_ten(k: int) ensures r_ln(p10(k)) == (k as real) * r_ln(10real) decreases (if k < 0 { -k } else { k }) {
    let kr = k as real; let t = r_ln(10real);
    if k > 0 { ln_ten(k - 1); p10_pos(k - 1); p10_step(k - 1); ln_mul(10real, p10(k - 1)); assert((k - 1) as real == kr - 1real); assert((kr - 1real) * t == kr * t - t) by(nonlinear_arith); }
    else if k < 0 { ln_ten(k + 1); p10_pos(k); p10_step(k); ln_mul(10real, p10(k)); assert((k + 1) as real == kr + 1real); assert((kr + 1real) * t == kr * t + t) by(nonlinear_arith); }
    else { ln_one(); assert(0real * t == 0real) by(nonlinear_arith); }
}
pub proof fn ln_ten_size() ensures 2real <= r_ln(10real) <= 3real { exp_consts(); ln_exp(2real); ln_exp(3real); ln_mono(r_exp(2real), 10real); ln_mono(10real, r_exp(3real)); exp_pos(2real); }
pub proof fn root_e() ensures 1.6484real <= r_exp(0.5real) <= 1.649real, 0.606real <= r_exp(-0.5real) <= 0.607real {
    exp_one(); exp_add(0.5real, 0.5real); exp_neg(0.5real); let a = r_exp(0.5real); let b = r_exp(-0.5real);
    assert(1.6484real <= a <= 1.649real) by(nonlinear_arith) requires 2.718real <= a * a <= 2.719real, a > 0real;
    assert(0.606real <= b <= 0.607real) by(nonlinear_arith) requires b * a == 1real, 1.6484real <= a <= 1.649real;
}
/// What a step of the reduction may lose.
pub open spec fn lstep(nd: int) -> real { 0.000002real * ul(nd) + 5real * p10(-97) }
pub proof fn lstep_pos(nd: int) requires nd >= 1 ensures 0real < lstep(nd) <= 0.0001real, ul(nd) <= 0.1real { ul_pos(nd); ul_pos(nd - 1); p10_pos(-97); p10_mono(-97, -6); assert(p10(-6) == 0.000001real) by { reveal_with_fuel(p10, 8); } }
pub proof fn em_half() ensures em(0.5real) == 4.25real, em(-0.5real) == 4.25real { assert(0.5real * 0.5real == 0.25real); assert(-0.5real * -0.5real == 0.25real); }
/// The borders of the reduction.
pub proof fn ln_limits(nd: int, a: real, b: real) requires nd >= 1 ensures exp_ok(nd, 0.5real, a) ==> 1.63real <= a <= 1.658real, exp_ok(nd, -0.5real, b) ==> 0.599real <= b <= 0.614real {
    root_e(); em_half(); lstep_pos(nd); let u = ul(nd); ul_pos(nd); let e = r_exp(0.5real); let f = r_exp(-0.5real); let t = p10(-97); p10_pos(-97); p10_mono(-97, -6); assert(p10(-6) == 0.000001real) by { reveal_with_fuel(p10, 8); }
    let g = 0.01real * u + 4.25real * t;
    assert(0real <= e * g <= 1.649real * g) by(nonlinear_arith) requires 0real < e <= 1.649real, g >= 0real;
    assert(0real <= f * g <= 0.607real * g) by(nonlinear_arith) requires 0real < f <= 0.607real, g >= 0real;
}
/// The factors of the reduction.
pub proof fn ln_factors(nd: int, a: real, b: real) requires nd >= 1 ensures exp_ok(nd + 5, 0.5real, a) ==> 1.648real <= a <= 1.65real && near(r_ln(a), 0.5real, lstep(nd)), exp_ok(nd + 5, -0.5real, b) ==> 0.6real <= b <= 0.61real && near(r_ln(b), -0.5real, lstep(nd)) {
    root_e(); em_half(); lstep_pos(nd); let u = ul(nd); ul_pos(nd); let e = r_exp(0.5real); let f = r_exp(-0.5real); let t = p10(-97); p10_pos(-97); p10_mono(-97, -6); assert(p10(-6) == 0.000001real) by { reveal_with_fuel(p10, 8); }
    p10_add(-nd, -5); assert(p10(-5) == 0.00001real) by { reveal_with_fuel(p10, 7); } let u5 = ul(nd + 5); ul_pos(nd + 5);
    let g = 0.01real * u5 + 4.25real * t;
    assert(0real <= e * g <= 1.649real * g) by(nonlinear_arith) requires 0real < e <= 1.649real, g >= 0real;
    assert(0real <= f * g <= 0.607real * g) by(nonlinear_arith) requires 0real < f <= 0.607real, g >= 0real;
    exp_neg(0.5real); assert(f * e == 1real); assert(e * f == 1real) by(nonlinear_arith) requires f * e == 1real;
    let c5 = p10(-5); assert(u5 == u * c5); assert(u5 == 0.00001real * u) by(nonlinear_arith) requires u5 == u * c5, c5 == 0.00001real; assert(0real < u5 <= 0.000001real);
    let d = 0.08real * u5 + 7.1real * t; assert(0real <= d <= 0.001real); let d2 = 0.067real * u5 + 2.6real * t; assert(0real <= d2 <= 0.001real);
    assert(exp_tol(nd + 5, 0.5real) <= d) by { assert(exp_tol(nd + 5, 0.5real) == 0.06real * u5 + e * g); }
    assert(exp_tol(nd + 5, -0.5real) <= d2) by { assert(exp_tol(nd + 5, -0.5real) == 0.06real * u5 + f * g); }
    assert(f * d <= 0.607real * d) by(nonlinear_arith) requires 0real < f <= 0.607real, d >= 0real;
    assert(e * d2 <= 1.649real * d2) by(nonlinear_arith) requires 0real < e <= 1.649real, d2 >= 0real;
    if exp_ok(nd + 5, 0.5real, a) { assert(near(a, e, d)); factor(a, e, 0.5real, f, d); }
    if exp_ok(nd + 5, -0.5real, b) { assert(near(b, f, d2)); factor(b, f, -0.5real, e, d2); }
}
/// a is e = exp(h) with an error of d; i = 1/e
pub proof fn factor(a: real, e: real, h: real, i: real, d: real) requires e == r_exp(h), i * e == 1real, 0.6real < i < 1.65real, e > 0real, near(a, e, d), 0real <= d <= 0.001real ensures a > 0real ==> near(r_ln(a), h, 1.02real * (i * d)) {
    let q = a * i; ln_exp(h); 
    if a > 0real {
        assert(q - 1real == i * (a - e)) by(nonlinear_arith) requires q == a * i, i * e == 1real;
        abs_le(i, a - e, i, d); let id = i * d; assert(0real <= id <= 0.01real) by(nonlinear_arith) requires 0real <= d <= 0.001real, 0.6real < i < 1.65real, id == i * d;
        ln_near(q, id); assert(q > 0real);
        assert(q * e == a) by(nonlinear_arith) requires q == a * i, i * e == 1real;
        ln_mul(q, e);
    }
}
/// After k steps.
pub open spec fn lred(nd: int, x0: real, x: real, extra: real, k: nat) -> bool { near(r_ln(x0), r_ln(x) + extra, ((k as int) as real) * lstep(nd)) && x > 0real }
pub proof fn lred_down(nd: int, x0: real, x: real, extra: real, k: nat, s: real) requires nd >= 1, lred(nd, x0, x, extra, k), exp_ok(nd + 5, -0.5real, s), x >= 1.63real, x * pw(1.6real, k) <= x0, x0 < 100real
    ensures lred(nd, x0, x * s, extra + 0.5real, k + 1), (x * s) * pw(1.6real, k + 1) <= x0, (x * s * 2real).floor() < (x * 2real).floor(), x * s >= 0.97real, x * s < x
{
    ln_factors(nd, 0real, s); ln_mul(x, s); lstep_pos(nd); let p = pw(1.6real, k); pw_mono(0real, 1.6real, k);
    let kr = (k as int) as real; let d = lstep(nd); assert(((k + 1) as int) as real == kr + 1real); assert((kr + 1real) * d == kr * d + d) by(nonlinear_arith);
    let y = x * s;
    assert(0.97real <= y <= x - 0.6real) by(nonlinear_arith) requires y == x * s, 0.6real <= s <= 0.61real, x >= 1.63real;
    assert(y * (1.6real * p) <= x * p) by(nonlinear_arith) requires y == x * s, 0.6real <= s <= 0.61real, x > 0real, p >= 0real;
    assert(y * 2real <= x * 2real - 1real);
}
pub proof fn lred_up(nd: int, x0: real, x: real, extra: real, k: nat, s: real) requires nd >= 1, lred(nd, x0, x, extra, k), exp_ok(nd + 5, 0.5real, s), 0.1real <= x <= 0.614real, x >= 0.1real * pw(1.6real, k)
    ensures lred(nd, x0, x * s, extra - 0.5real, k + 1), x * s >= 0.1real * pw(1.6real, k + 1), ((2real - x * s) * 20real).floor() < ((2real - x) * 20real).floor(), 0.1real <= x * s <= 1.02real
{
    ln_factors(nd, s, 0real); ln_mul(x, s); lstep_pos(nd); let p = pw(1.6real, k); pw_mono(0real, 1.6real, k);
    let kr = (k as int) as real; let d = lstep(nd); assert(((k + 1) as int) as real == kr + 1real); assert((kr + 1real) * d == kr * d + d) by(nonlinear_arith);
    let y = x * s;
    assert(x + 0.06real <= y <= 1.02real) by(nonlinear_arith) requires y == x * s, 1.648real <= s <= 1.65real, 0.1real <= x <= 0.614real;
    assert(y >= 0.1real * (1.6real * p)) by(nonlinear_arith) requires y == x * s, 1.648real <= s, x >= 0.1real * p, p >= 0real;
    assert((2real - y) * 20real <= (2real - x) * 20real - 1real);
}
pub proof fn few_steps(k: nat) requires 0.97real * pw(1.6real, k) < 100real ensures k <= 10 {
    if k > 10 { pw_mono(1real, 1.6real, (k - 11) as nat); pw_one((k - 11) as nat); pw_add(1.6real, 11, (k - 11) as nat); pw_pow(1.6real, 2, 5); pw_add(1.6real, 10, 1); reveal_with_fuel(pw, 3); assert(pw(1.6real, 1) == 1.6real); assert(pw(1.6real, 2) == 2.56real); 
        let a = pw(2.56real, 2); assert(a == 2.56real * 2.56real); assert(a >= 6.55real); pw_add(2.56real, 2, 2); let b = pw(2.56real, 4); assert(b >= 42.9real) by(nonlinear_arith) requires b == a * a, a >= 6.55real; pw_add(2.56real, 4, 1); assert(pw(2.56real, 1) == 2.56real); let c = pw(2.56real, 5); assert(c == b * 2.56real); assert(c >= 109.8real);
        let e = pw(1.6real, 11); assert(e == c * 1.6real); let f = pw(1.6real, (k - 11) as nat); assert(e * f >= 175real) by(nonlinear_arith) requires e >= 175real, f >= 1real; }
}
pub open spec fn ln_tol(nd: int, x: real) -> real { 0.06real * ul(nd) + p10(-95) * (if ln_near_one(x) { 0.52real } else { absr(r_ln(x)) }) }
pub open spec fn ln_ok(nd: int, x: real, r: real) -> bool { near(r, r_ln(x), ln_tol(nd, x)) }
/// The series of what is left, and the steps.
pub proof fn ln_base(k: K, nd: int, x0: real, x: real, y: real, extra: real, n: nat, i: nat, tot: real, r: real)
    requires nd >= 1, k is Ln && y == x - 1real || k is LnNeg && y == 1real - x, absr(y) <= 0.66real, lred(nd, x0, x, extra, n), n <= 10, near(tot, r_ln(x), 0.0089real * ul(nd) + eps() * sab(k, y, i)), near(r, tot, half_unit(nd + 1)), ln_near_one(x0)
    ensures ln_ok(nd, x0, r + extra)
{
    sab_geo(k, y, i); ul_pos(nd); unit(nd + 1); let s = sab(k, y, i); let ep = eps(); eps_small();
    assert(ep * s <= 3real * ep) by(nonlinear_arith) requires 0real <= s <= 3real, ep > 0real;
    p10_add(-99, 2); p10_add(-97, 2); assert(p10(2) == 100real) by { reveal_with_fuel(p10, 4); } p10_pos(-97);
    let nr = (n as int) as real; let d = lstep(nd); lstep_pos(nd); assert(nr * d <= 10real * d) by(nonlinear_arith) requires 0real <= nr <= 10real, d > 0real;
}
pub open spec fn ln_near_one(x: real) -> bool { 0.1real <= x < 100real }
pub open spec fn ln_reach(nd: int, x: BigDecimal) -> bool { 1 <= nd <= 5000 + (if ln_near_one(x.v()) { 100int } else { 0int }) && (x.v() > 0real ==> -1000000 <= x.sc() && (if ln_near_one(x.v()) { x.sc() <= 1000000000 } else { x.sc() <= 1000000 && x.v() <= p10(1000000) })) }
/// The power of ten below a number.
pub proof fn tens_of(x: BigDecimal, d: int) requires x.iv() > 0, d >= 0, places(x.iv(), d) ensures x.v() == p10(d - 1 - x.sc()) * ((x.iv() as real) * p10(1 - d)), 1real <= (x.iv() as real) * p10(1 - d) < 10real, p10(d - 1 - x.sc()) <= x.v() < p10(d - x.sc()), x.v() > 0real, d >= 1 {
    bd_value(x); let i = x.iv() as real; p10_int((d - 1) as nat); p10_int(d as nat); let s = x.sc();
    p10_add(d - 1, -s); p10_add(d, -s); p10_add(d - 1, 1 - d); p10_pos(-s); p10_pos(1 - d); p10_step(d - 1); let u = p10(-s); let a = p10(d - 1); let b = p10(1 - d);
    assert((a * u) * (i * b) == i * u) by(nonlinear_arith) requires a * b == 1real;
    assert(a <= i && i < 10real * a);
    assert(1real <= i * b && i * b < 10real) by(nonlinear_arith) requires a <= i, i < 10real * a, a * b == 1real, b > 0real;
    assert(a * u <= i * u && i * u < (10real * a) * u) by(nonlinear_arith) requires a <= i, i < 10real * a, u > 0real;
    assert(d - 1 + -s == d - 1 - s); assert(i * u > 0real) by(nonlinear_arith) requires i >= 1real, u > 0real;
}
/// tens beyond one or not: inside of 0.1..100 or not.
pub proof fn tens_range(v: real, t: int) requires p10(t) <= v < p10(t + 1) ensures ln_near_one(v) <==> -1 <= t <= 1, t >= 2 ==> v >= 100real, t <= -2 ==> v < 0.1real {
    assert(p10(2) == 100real && p10(1) == 10real && p10(0) == 1real && p10(-1) == 0.1real) by { reveal_with_fuel(p10, 4); }
    if t >= 2 { p10_mono(2, t); } if t <= -2 { p10_mono(t + 1, -1); } if t == -1 {} if t == 0 {} if t == 1 {}
}
pub proof fn ln_tens(nd: int, x0: BigDecimal, d: int, m: BigDecimal, lm: real, l10: real, y: real, r: real)
    requires 1 <= nd, x0.v() > 0real, x0.iv() > 0, d >= 0, places(x0.iv(), d), m.iv() == x0.iv(), m.sc() == d - 1, ln_ok(nd + 1, m.v(), lm), ln_ok(nd + 20, 10real, l10), -1000000 <= d - 1 - x0.sc() <= 1000000, (d - 1 - x0.sc() > 1 || d - 1 - x0.sc() < -1),
        y == lm + l10 * ((d - 1 - x0.sc()) as real), near(r, y, half_unit(nd + 1))
    ensures ln_ok(nd, x0.v(), r)
{
    let t = d - 1 - x0.sc(); tens_of(x0, d); tens_range(x0.v(), t); bd_value(m); assert(-m.sc() == 1 - d); let mv = m.v(); let tr = t as real; let l = r_ln(10real);
    ln_ten(t); p10_pos(t); ln_mul(p10(t), mv); ln_ten_size(); ln_one(); ln_mono(1real, mv); ln_mono(mv, 10real);
    let lx = r_ln(x0.v()); assert(lx == tr * l + r_ln(mv));
    ul_pos(nd); unit(nd + 1); p10_add(-nd, -20); assert(p10(-20) <= 0.00000000001real) by { p10_mono(-20, -11); reveal_with_fuel(p10, 13); } p10_pos(-20); let u = ul(nd); let u20 = ul(nd + 20);
    assert(u20 <= 0.00000000001real * u) by(nonlinear_arith) requires u20 == u * p10(-20), p10(-20) <= 0.00000000001real, u > 0real;
    let b = p10(-95); p10_pos(-95); p10_pos(-nd - 20);
    let at = absr(tr); let e10 = l10 - l; let g = 0.06real * u20 + b * 0.52real; let lmv = r_ln(mv);
    assert(ln_near_one(10real) && ln_near_one(mv));
    assert(absr(e10) <= g);
    abs_le(e10, tr, g, at);
    assert(y - lx == (lm - lmv) + e10 * tr) by(nonlinear_arith) requires y == lm + l10 * tr, lx == tr * l + lmv, e10 == l10 - l;
    assert(absr(lx) >= 2real * (at - 1real)) by(nonlinear_arith) requires lx == tr * l + lmv, 0real <= lmv <= l, 2real <= l <= 3real, at == absr(tr), tr >= 2real || tr <= -2real;
    assert(g * at == 0.06real * (u20 * at) + b * (0.52real * at)) by(nonlinear_arith) requires g == 0.06real * u20 + b * 0.52real;
    assert(0.52real + 0.52real * at <= absr(lx));
    assert(b * 0.52real + b * (0.52real * at) <= b * absr(lx)) by(nonlinear_arith) requires 0.52real + 0.52real * at <= absr(lx), b > 0real;
    assert(u20 * at <= 0.00001real * u) by(nonlinear_arith) requires 0real <= u20 <= 0.00000000001real * u, 0real <= at <= 1000000real, u > 0real;
}
/// What the number of digits tells.
pub proof fn ln_range(nd: int, x: BigDecimal) requires ln_reach(nd, x), x.v() > 0real, x.iv() > 0
    ensures forall|d: int| d >= 0 && #[trigger] places(x.iv(), d) ==> d >= 1 && -1000000 <= d - 1 - x.sc() <= 1000000 && d <= 1000000010 && (ln_near_one(x.v()) <==> -1 <= d - 1 - x.sc() <= 1)
{
    assert forall|d: int| d >= 0 && #[trigger] places(x.iv(), d) implies d >= 1 && -1000000 <= d - 1 - x.sc() <= 1000000 && d <= 1000000010 && (ln_near_one(x.v()) <==> -1 <= d - 1 - x.sc() <= 1) by {
        tens_of(x, d); assert(d - x.sc() == (d - 1 - x.sc()) + 1); tens_range(x.v(), d - 1 - x.sc());
        if !ln_near_one(x.v()) { p10_pos_less(d - 1 - x.sc(), 1000000); }
    }
}
pub proof fn ln_mantissa(x: BigDecimal, d: int, m: BigDecimal) requires x.iv() > 0, d >= 0, places(x.iv(), d), m.iv() == x.iv(), m.sc() == d - 1 ensures 1real <= m.v() < 10real {
    tens_of(x, d); bd_value(m); assert(-m.sc() == 1 - d);
}
#@fn bdmath.rs ln
##attr
#[verifier::spinoff_prover]
##spec
    requires ln_reach($1$ as int, $0$)
    ensures match r { Some(y) => $0$.v() > 0real && ln_ok($1$ as int, $0$.v(), y.v()), None => $0$.v() <= 0real }
    decreases (if ln_near_one($0$.v()) { 0int } else { 1int })
##begin
    broadcast use {bd_arith};
    let ghost x0 = $0$; let ghost v0 = x0.v(); let ghost n0 = num_digits as int; let ghost mut k: nat = 0;
    proof {
        bd_value(x0); p10_pos(-x0.sc()); em_half(); unit(n0 + 1); assert(p10(1) == 10real) by { reveal_with_fuel(p10, 3); }
        let i0 = x0.iv(); let u0 = p10(-x0.sc()); let ir0 = i0 as real;
        if v0 > 0real { assert(i0 > 0) by { if i0 <= 0 { assert(ir0 * u0 <= 0real) by(nonlinear_arith) requires ir0 <= 0real, u0 > 0real; } } ln_range(n0, x0);
            assert forall|m: BigDecimal| #[trigger] m.iv() == i0 && m.sc() >= 0 && places(i0, m.sc() + 1) implies 1real <= m.v() < 10real by { ln_mantissa(x0, m.sc() + 1, m); }
            assert forall|m: BigDecimal| #[trigger] m.iv() == i0 && m.sc() == x0.sc() implies m.v() == v0 by { bd_value(m); }
        }
        assert forall|m: BigDecimal, lm: real, l10: real, y: real, r: real| v0 > 0real && places(i0, m.sc() + 1) && m.sc() >= 0 && m.iv() == i0 && (m.sc() - x0.sc() > 1 || m.sc() - x0.sc() < -1) && #[trigger] ln_ok(n0 + 1, m.v(), lm) && #[trigger] ln_ok(n0 + 20, 10real, l10) && y == lm + l10 * ((m.sc() - x0.sc()) as real) && #[trigger] near(r, y, half_unit(n0 + 1)) implies ln_ok(n0, v0, r) by { ln_tens(n0, x0, m.sc() + 1, m, lm, l10, y, r); }
        assert forall|a: real| #[trigger] exp_ok(n0, 0.5real, a) implies 1.63real <= a <= 1.658real by { ln_limits(n0, a, 0real); }
        assert forall|a: real| #[trigger] exp_ok(n0, -0.5real, a) implies 0.599real <= a <= 0.614real by { ln_limits(n0, 0real, a); }
        assert(pw(1.6real, 0) == 1real); assert(0real * lstep(n0) == 0real) by(nonlinear_arith); assert(lred(n0, v0, v0, 0real, 0) || v0 <= 0real);
        assert(p10(1) * r_ln(10real) == p10(1) * r_ln(10real));
    }
##loop 0
    invariant
        n0 >= 1, n0 == num_digits, v0 < 100real, h.v() == 0.5real, exp_ok(n0 + 5, -0.5real, scale.v()), 1.63real <= lim.v() <= 1.658real, lred(n0, v0, x.v(), extra.v(), k), x.v() * pw(1.6real, k) <= v0, x.v() >= 0.97real,
    decreases (x.v() * 2real).floor()
##loopbegin 0
    broadcast use {bd_arith};
    proof { lred_down(n0, v0, x.v(), extra.v(), k, scale.v()); k = k + 1; }
##loopafter 0
    proof { let p = pw(1.6real, k); pw_mono(0real, 1.6real, k); let xv = x.v(); assert(0.97real * p <= xv * p) by(nonlinear_arith) requires xv >= 0.97real, p >= 0real; few_steps(k); }
##loopbefore 1
    let ghost xo = x.v() + 1real;
    proof { first_sum(K::Ln, x.v(), work_digits as int); 
        assert forall|i: nat, t: real, r: real| #[trigger] near(t, r_ln(xo), 0.0089real * ul(n0) + eps() * sab(K::Ln, xo - 1real, i)) && #[trigger] near(r, t, half_unit(n0 + 1)) implies ln_ok(n0, v0, r + extra.v()) by { ln_base(K::Ln, n0, v0, xo, xo - 1real, extra.v(), k, i, t, r); }
    }
##loop 1
    invariant
        1 <= num_digits <= 5100, work_digits == 2 * num_digits + 5, imax == 30000 + num_digits * 20, absr(x.v()) <= 0.66real,
        0 <= i <= last(K::Ln, work_digits as int), sum_ok(K::Ln, x.v(), work_digits as int, i as nat, tot.v()), pow_ok(K::Ln, x.v(), work_digits as int, i as nat, power.v()),
    ensures
        i > 0, absr(co(K::Ln, i as nat)) * pw(absr(x.v()), i as nat) <= 14real * half_unit(work_digits as int)
    decreases last(K::Ln, work_digits as int) - i
##loopbegin 1
    broadcast use {bd_arith};
    proof { let ii: i32 = i; assert((ii & 1 == 0) == (ii % 2 == 0)) by(bit_vector) requires ii >= 0; if i > 0 { odd_terms(i as int); }
        steps(K::Ln, x.v(), work_digits as int, i as nat, power, tot); div_terms(K::Ln, work_digits as int, i as nat, power, tot); }
##loopafter 1
    proof { ln_taylor(x.v(), i as nat); finish(K::Ln, x.v(), num_digits as int, i as nat, tot.v(), r_ln(1real + x.v()), 3real); assert(1real + x.v() == xo); assert(xo - 1real == x.v()); }
##loop 2
    invariant
        n0 >= 1, n0 == num_digits, h.v() == 0.5real, exp_ok(n0 + 5, 0.5real, scale.v()), 0.599real <= lim.v() <= 0.614real, lred(n0, v0, x.v(), extra.v(), k), x.v() >= 0.1real * pw(1.6real, k), 0.1real <= x.v() <= 1.02real,
    decreases ((2real - x.v()) * 20real).floor()
##loopbegin 2
    broadcast use {bd_arith};
    proof { lred_up(n0, v0, x.v(), extra.v(), k, scale.v()); k = k + 1; }
##loopafter 2
    proof { pw_mono(0real, 1.6real, k); few_steps(k); }
##loopbefore 3
    let ghost xo = 1real - x.v();
    proof { first_sum(K::LnNeg, x.v(), work_digits as int); 
        assert forall|i: nat, t: real, r: real| #[trigger] near(t, r_ln(xo), 0.0089real * ul(n0) + eps() * sab(K::LnNeg, 1real - xo, i)) && #[trigger] near(r, t, half_unit(n0 + 1)) implies ln_ok(n0, v0, r + extra.v()) by { ln_base(K::LnNeg, n0, v0, xo, 1real - xo, extra.v(), k, i, t, r); }
    }
##loop 3
    invariant
        1 <= num_digits <= 5100, work_digits == 2 * num_digits + 5, imax == 30000 + num_digits * 20, absr(x.v()) <= 0.66real,
        0 <= i <= last(K::LnNeg, work_digits as int), sum_ok(K::LnNeg, x.v(), work_digits as int, i as nat, tot.v()), pow_ok(K::LnNeg, x.v(), work_digits as int, i as nat, power.v()),
    ensures
        i > 0, absr(co(K::LnNeg, i as nat)) * pw(absr(x.v()), i as nat) <= 14real * half_unit(work_digits as int)
    decreases last(K::LnNeg, work_digits as int) - i
##loopbegin 3
    broadcast use {bd_arith};
    proof { if i > 0 { odd_terms(i as int); }
        steps(K::LnNeg, x.v(), work_digits as int, i as nat, power, tot); div_terms(K::LnNeg, work_digits as int, i as nat, power, tot); }
##loopafter 3
    proof { ln_taylor(x.v(), i as nat); finish(K::LnNeg, x.v(), num_digits as int, i as nat, tot.v(), r_ln(1real - x.v()), 3real); assert(1real - x.v() == xo); assert(1real - xo == x.v()); }
