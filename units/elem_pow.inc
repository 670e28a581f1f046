#@verbatim
// ---- powers ------------------------------------------------------------------------------------------
pub open spec fn even(y: real) -> bool { whole(y / 2real) }
pub open spec fn pexp(x: real, y: real) -> real { y * r_ln(absr(x)) }
pub open spec fn r_pow(x: real, y: real) -> real { if y == 0real { 1real } else if x == 0real { 0real } else if x > 0real || even(y) { r_exp(pexp(x, y)) } else { -r_exp(pexp(x, y)) } }
pub open spec fn pow_dom(x: real, y: real) -> bool { if x > 0real || y == 0real { true } else if x == 0real { y > 0real } else { whole(y) } }
pub open spec fn pow_tol(nd: int, x: real, y: real) -> real { let e = pexp(x, y); 0.061real * ul(nd) + r_exp(e) * (0.03real * ul(nd) + 4real * em(e) * p10(-97) + 2real * p10(-95) * (absr(y) + absr(e))) }
pub open spec fn power_ok(nd: int, x: real, y: real, r: real) -> bool { near(r, r_pow(x, y), pow_tol(nd, x, y)) }
pub open spec fn pow_reach(nd: int, x: BigDecimal, y: BigDecimal) -> bool { 1 <= nd <= 4700 && -1000000 <= x.sc() <= 1000000 && absr(x.v()) <= p10(1000000) && absr(y.v()) <= p10(1000000) }
pub proof fn whole_round(y: BigDecimal, r: BigDecimal) requires rounds(y, 0, r) ensures (r.v() == y.v()) <==> whole(y.v()) {
    if y.sc() <= 0 { whole_scale(y); } else {
        whole_scale(r); let k = choose|k: int| r.v() == #[trigger] ir(k); unit(0); p10_step(-1); assert(p10(0) == 1real); assert(half_unit(0) == 0.5real);
        if whole(y.v()) { let j = choose|j: int| y.v() == #[trigger] ir(j); assert(absr(ir(k) - ir(j)) <= 0.5real); assert(k == j) by { if k > j { assert(ir(k) - ir(j) >= 1real); } if k < j { assert(ir(j) - ir(k) >= 1real); } } }
    }
}
pub proof fn whole_places(x: BigDecimal, t: BigDecimal, d: int) requires d >= 0, t.sc() == 0, 0 >= x.sc() ==> t.v() == x.v(), 0 < x.sc() ==> t.iv() == tdiv(x.iv(), ip10(x.sc() as nat)), places(t.iv(), d), absr(x.v()) <= p10(1000000)
    ensures absr(x.v()) <= p10(d + 1), d <= 1000001, d > 198 ==> absr(x.v()) > p10(80)
{
    places_of(x, t, d); trunc(x, t); let i = t.iv(); if absr(x.v()) >= 1real { if d >= 1 { p10_pos_less(d - 1, 1000000); if d > 198 { p10_mono(81, d - 1); p10_step(80); p10_pos(80); } } }
    else { assert(i == 0) by { if i > 0 { assert(i as real >= 1real); } if i < 0 { assert(i as real <= -1real); } } }
}
pub proof fn ln_bound(x: BigDecimal) requires x.v() > 0real, -1000000 <= x.sc() <= 1000000, x.v() <= p10(1000000) ensures absr(r_ln(x.v())) <= 3000000real {
    bd_value(x); let u = p10(-x.sc()); p10_pos(-x.sc()); let i = x.iv() as real; assert(x.iv() > 0) by { if x.iv() <= 0 { assert(i * u <= 0real) by(nonlinear_arith) requires i <= 0real, u > 0real; } }
    assert(i * u >= u) by(nonlinear_arith) requires i >= 1real, u > 0real; p10_mono(-1000000, -x.sc()); p10_pos(-1000000);
    ln_mono(p10(-1000000), x.v()); ln_mono(x.v(), p10(1000000)); ln_ten(1000000); ln_ten(-1000000); ln_ten_size();
}
/// Of an exponent a little off.
pub proof fn exp_off(nd: int, a: real, e: real, d: real, r: real) requires nd >= 0, near(a, e, d), 0real <= d <= 0.01real, exp_ok(nd, a, r) ensures near(r, r_exp(e), 0.06real * ul(nd) + r_exp(e) * (0.011real * ul(nd) + 4real * em(e) * p10(-97) + 1.02real * d)) {
    let f = r_exp(e); exp_pos(e); let g = r_exp(a); exp_pos(a); let t = a - e; exp_add(e, t); assert(e + t == a); let k = r_exp(t); exp_tangent(t); exp_tangent(-t); exp_neg(t); let j = r_exp(-t);
    assert(k <= 1real + 1.02real * d) by(nonlinear_arith) requires j * k == 1real, j >= 1real - d, 0real <= d <= 0.01real, k > 0real;
    assert(k >= 1real - d); let m = k - 1real;
    assert(g - f == f * m) by(nonlinear_arith) requires g == f * k, m == k - 1real;
    abs_le(f, m, f, 1.02real * d); assert(k <= 1.0102real);
    ul_pos(nd); let u = ul(nd); let b = p10(-97); p10_pos(-97); let ea = em(a); let ee = em(e);
    assert(a * a == e * e + 2real * (t * e) + t * t) by(nonlinear_arith) requires t == a - e;
    abs_le(t, e, 0.01real, absr(e)); abs_le(t, t, 0.01real, 0.01real); let ae = absr(e); assert(ae <= 1real + e * e) by(nonlinear_arith) requires ae == e || ae == -e; assert(e * e >= 0real) by(nonlinear_arith);
    assert(0real <= ea <= 3real * ee) by { assert(a * a >= 0real) by(nonlinear_arith); }
    let q = 0.01real * u + ea * b; assert(ea * b <= 3real * (ee * b)) by(nonlinear_arith) requires ea <= 3real * ee, b > 0real; assert(ea * b >= 0real) by(nonlinear_arith) requires ea >= 0real, b > 0real;
    assert(g * q == f * (k * q)) by(nonlinear_arith) requires g == f * k;
    let z = 1.0102real * q; assert(k * q <= z) by(nonlinear_arith) requires k <= 1.0102real, q >= 0real, z == 1.0102real * q;
    assert(f * (k * q) <= f * z) by(nonlinear_arith) requires k * q <= z, f > 0real;
    let y = 0.011real * u + 4real * ee * b; assert(4real * ee * b == 4real * (ee * b)) by(nonlinear_arith);
    assert(z <= y); let w = 1.02real * d; assert(f * z <= f * y) by(nonlinear_arith) requires z <= y, f > 0real;
    assert(f * (y + w) == f * y + f * w) by(nonlinear_arith);
}
pub proof fn pow_end(nd: int, x: BigDecimal, y: real, c: int, lx: real) requires 1 <= nd <= 4700, 2 <= c, x.v() > 0real, -1000000 <= x.sc() <= 1000000, x.v() <= p10(1000000), absr(y) <= p10(c - 1), absr(y) <= p10(80), ln_ok(nd + c, x.v(), lx)
    ensures near(y * lx, pexp(x.v(), y), 0.02real), forall|r: real| #[trigger] exp_ok(nd, y * lx, r) ==> near(r, r_exp(pexp(x.v(), y)), pow_tol(nd, x.v(), y))
{
    let l = r_ln(x.v()); let e = pexp(x.v(), y); let ay = absr(y); let al = absr(l); let ae = absr(e); let b = p10(-95); p10_pos(-95); ln_bound(x); abs_mul(y, l); ul_pos(nd); let u = ul(nd); let uc = ul(nd + c); ul_pos(nd + c); assert(absr(x.v()) == x.v());
    p10_add(-nd - c, c - 1); assert(uc * p10(c - 1) == 0.1real * u) by { p10_step(-nd - 1); }
    let pc = p10(c - 1); assert(ay * uc <= 0.1real * u) by(nonlinear_arith) requires ay <= pc, uc * pc == 0.1real * u, uc > 0real;
    let tol = ln_tol(nd + c, x.v()); let s = 0.06real * uc + b * (0.52real + al);
    let b1 = 0.52real + al; assert(b * 0.52real <= b * b1 && b * al <= b * b1) by(nonlinear_arith) requires b > 0real, al >= 0real, b1 == 0.52real + al;
    assert(tol <= s);
    assert(y * lx - e == y * (lx - l)) by(nonlinear_arith) requires e == y * l;
    abs_le(y, lx - l, ay, s);
    assert(ay * s == 0.06real * (ay * uc) + b * (0.52real * ay + ae)) by(nonlinear_arith) requires s == 0.06real * uc + b * (0.52real + al), ay * al == ae;
    let v = 0.52real * ay + ae; let d = 0.006real * u + b * v; assert(near(y * lx, e, d));
    let p80 = p10(80); p10_pos(80); p10_add(80, -95); assert(p10(-15) <= 0.0000000001real) by { p10_mono(-15, -10); reveal_with_fuel(p10, 12); }
    assert(ae <= 3000000real * p80) by(nonlinear_arith) requires ay * al == ae, 0real <= ay <= p80, 0real <= al <= 3000000real;
    assert(v <= 3000001real * p80); assert(0real <= v);
    assert(b * v <= 3000001real * (b * p80)) by(nonlinear_arith) requires v <= 3000001real * p80, b > 0real; assert(b * p80 == p10(-15)) by { assert(p80 * b == b * p80) by(nonlinear_arith); }
    assert(b * v >= 0real) by(nonlinear_arith) requires v >= 0real, b > 0real;
    assert(u <= 0.1real) by { ul_pos(nd - 1); }
    assert(0real <= d <= 0.01real);
    assert forall|r: real| #[trigger] exp_ok(nd, y * lx, r) implies near(r, r_exp(e), pow_tol(nd, x.v(), y)) by {
        exp_off(nd, y * lx, e, d, r); let f = r_exp(e); exp_pos(e); let m = 4real * em(e) * p10(-97);
        let g1 = 0.011real * u + m + 1.02real * d; let w = ay + ae; let g2 = 0.03real * u + m + 2real * b * w;
        assert(2real * b * w == 2real * (b * w)) by(nonlinear_arith); assert(b * v <= b * w) by(nonlinear_arith) requires v <= w, b > 0real; assert(g1 <= g2);
        assert(f * g1 <= f * g2) by(nonlinear_arith) requires g1 <= g2, f > 0real;
    }
}
pub proof fn pow_one(y: real) ensures pexp(1real, y) == 0real, r_exp(0real) == 1real { ln_one(); exp_zero(); assert(y * 0real == 0real) by(nonlinear_arith); }
pub proof fn pow_tol_pos(nd: int, x: real, y: real) requires nd >= 0 ensures pow_tol(nd, x, y) >= 0real {
    ul_pos(nd); let e = pexp(x, y); let f = r_exp(e); exp_pos(e); let b = p10(-97); p10_pos(-97); let c = p10(-95); p10_pos(-95); let m = em(e); assert(e * e >= 0real) by(nonlinear_arith); assert(m >= 4real);
    assert(4real * m * b >= 0real) by(nonlinear_arith) requires m >= 4real, b > 0real; let w = absr(y) + absr(e); assert(2real * c * w >= 0real) by(nonlinear_arith) requires w >= 0real, c > 0real;
    let g = 0.03real * ul(nd) + 4real * m * b + 2real * c * w; assert(f * g >= 0real) by(nonlinear_arith) requires f > 0real, g >= 0real;
}
#@fn bdmath.rs pow
##spec
    requires pow_reach($2$ as int, $0$, $1$)
    ensures match r { Some(p) => pow_dom($0$.v(), $1$.v()) && (absr($1$.v()) <= p10(80) ==> power_ok($2$ as int, $0$.v(), $1$.v(), p.v())), None => !pow_dom($0$.v(), $1$.v()) || absr($1$.v()) > p10(80) || pexp($0$.v(), $1$.v()) > 99999real }
    decreases (if $0$.v() < 0real { 1int } else { 0int })
##begin
    broadcast use {bd_arith};
    let ghost x0 = $0$; let ghost y0 = $1$; let ghost n0 = $2$ as int;
    proof {
        let xv = x0.v(); let yv = y0.v(); pow_one(yv); pow_tol_pos(n0, xv, yv); pow_tol_pos(n0, -xv, yv); assert(absr(-xv) == absr(xv)); assert(yv * 0.5real == yv / 2real); assert(0.5real * yv == yv / 2real);
        assert forall|y: BigDecimal, r: BigDecimal| #[trigger] rounds(y, 0, r) implies ((r.v() == y.v()) <==> whole(y.v())) by { whole_round(y, r); }
        assert forall|t: BigDecimal, d: int| d >= 0 && t.sc() == 0 && (0 >= y0.sc() ==> t.v() == y0.v()) && (0 < y0.sc() ==> t.iv() == tdiv(y0.iv(), ip10(y0.sc() as nat))) && #[trigger] places(t.iv(), d) implies absr(yv) <= p10(d + 1) && d <= 1000001 && (d > 198 ==> absr(yv) > p10(80)) by { whole_places(y0, t, d); }
        assert forall|n: int, lx: real| xv > 0real && n > n0 + 1 && absr(yv) <= p10(n - n0 - 1) && absr(yv) <= p10(80) && #[trigger] ln_ok(n, xv, lx) implies near(yv * lx, pexp(xv, yv), 0.02real) && near(lx * yv, pexp(xv, yv), 0.02real) by { pow_end(n0, x0, yv, n - n0, lx); assert(lx * yv == yv * lx) by(nonlinear_arith); }
        assert forall|n: int, lx: real, a: real, r: real| xv > 0real && n > n0 + 1 && absr(yv) <= p10(n - n0 - 1) && absr(yv) <= p10(80) && #[trigger] ln_ok(n, xv, lx) && #[trigger] exp_ok(n0, a, r) && (a == yv * lx || a == lx * yv) implies near(r, r_exp(pexp(xv, yv)), pow_tol(n0, xv, yv)) by { pow_end(n0, x0, yv, n - n0, lx); assert(lx * yv == yv * lx) by(nonlinear_arith); }
    }
