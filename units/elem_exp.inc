#@verbatim
pub proof fn mul_comm3(a: real, b: real, c: real) ensures a * b * c == c * (a * b) { assert(a * b * c == c * (a * b)) by(nonlinear_arith); }
impl BigDecimal {
    #[verifier::external_body] pub fn from(i: i64) -> (r: BigDecimal) ensures r.v() == i as real, r.sc() == 0 { unimplemented!() }
}
/// The next sum, whatever way it was computed.
pub open spec fn sum_next(k: K, x: real, w: int, i: nat, tot: real, n: real) -> bool {
    &&& sum_ok(k, x, w, i + 1, n)
    &&& n == tot ==> absr(co(k, i)) * pw(absr(x), i) <= 14real * half_unit(w)
    &&& i >= last(k, w) ==> n == tot
}
pub open spec fn adds(k: K, w: int, i: nat, p: real, tot: real, y: real) -> bool { near(y - tot, co(k, i) * p, eps() * absr(co(k, i) * p)) }
/// Both steps of the loop for all roundings of the right numbers.
pub proof fn steps(k: K, x: real, w: int, i: nat, p: BigDecimal, tot: BigDecimal)
    requires inside(k, x), w >= 0, pow_ok(k, x, w, i, p.v()), sum_ok(k, x, w, i, tot.v())
    ensures forall|y: BigDecimal, n: BigDecimal| #[trigger] rounds(y, w, n) && adds(k, w, i, p.v(), tot.v(), y.v()) ==> sum_next(k, x, w, i, tot.v(), n.v()),
        forall|y: BigDecimal, n: BigDecimal| #[trigger] rounds(y, w, n) && y.v() == p.v() * x ==> pow_ok(k, x, w, i + 1, n.v()),
        co(k, i) == 0real ==> sum_ok(k, x, w, i + 1, tot.v())
{
    assert forall|y: BigDecimal, n: BigDecimal| #[trigger] rounds(y, w, n) && adds(k, w, i, p.v(), tot.v(), y.v()) implies sum_next(k, x, w, i, tot.v(), n.v()) by { next_sum(k, x, w, i, p.v(), tot, y.v() - tot.v(), y, n); }
    assert forall|y: BigDecimal, n: BigDecimal| #[trigger] rounds(y, w, n) && y.v() == p.v() * x implies pow_ok(k, x, w, i + 1, n.v()) by { next_power(k, x, w, i, p, y, n); }
    if co(k, i) == 0real { skip_sum(k, x, w, i, tot.v()); }
}
/// p / f is the term, and a division of p by f is near enough.
pub proof fn div_term(k: K, w: int, i: nat, p: BigDecimal, f: BigDecimal, tot: BigDecimal)
    requires f.v() != 0real, co(k, i) == 1real / f.v() || co(k, i) == -(1real / f.v())
    ensures co(k, i) == 1real / f.v() ==> adds(k, w, i, p.v(), tot.v(), bd_add(tot, bd_div(p, f)).v()), co(k, i) == -(1real / f.v()) ==> adds(k, w, i, p.v(), tot.v(), bd_sub(tot, bd_div(p, f)).v())
{
    broadcast use bd_arith;
    eps_small(); let c = 1real / f.v(); let q = p.v() / f.v(); let pv = p.v(); let fv = f.v();
    quot(1real, fv, c); quot(pv, fv, q);
    assert(q == c * pv) by(nonlinear_arith) requires c * fv == 1real, q * fv == pv, fv != 0real;
    assert(-(c * pv) == (-c) * pv) by(nonlinear_arith);
    let a = absr(q); let e = p10(-99);
    assert(a * e <= eps() * a) by(nonlinear_arith) requires a >= 0real, e > 0real, eps() == 3real * e;
    assert(absr((-c) * pv) == a);
}
/// Every quotient that is the term, added or subtracted.
pub proof fn div_terms(k: K, w: int, i: nat, p: BigDecimal, tot: BigDecimal)
    ensures forall|f: BigDecimal| f.v() != 0real && co(k, i) == 1real / f.v() ==> adds(k, w, i, p.v(), tot.v(), (#[trigger] bd_add(tot, bd_div(p, f))).v()),
        forall|f: BigDecimal| f.v() != 0real && co(k, i) == -(1real / f.v()) ==> adds(k, w, i, p.v(), tot.v(), (#[trigger] bd_sub(tot, bd_div(p, f))).v())
{
    assert forall|f: BigDecimal| f.v() != 0real && co(k, i) == 1real / f.v() implies adds(k, w, i, p.v(), tot.v(), (#[trigger] bd_add(tot, bd_div(p, f))).v()) by { div_term(k, w, i, p, f, tot); }
    assert forall|f: BigDecimal| f.v() != 0real && co(k, i) == -(1real / f.v()) implies adds(k, w, i, p.v(), tot.v(), (#[trigger] bd_sub(tot, bd_div(p, f))).v()) by { div_term(k, w, i, p, f, tot); }
}
/// What exp takes: e^100000 and some thousands of digits.
pub open spec fn exp_reach(nd: int, x: real) -> bool { 0 <= nd && x <= 100000real && (nd as real) + (if x < 0real { 90000real } else { x }) <= 119000real }
pub open spec fn em(x: real) -> real { if x < -1real { 8real + 2real * (x * x) } else { 4real + x * x } }
pub open spec fn exp_tol(nd: int, x: real) -> real { 0.06real * ul(nd) + r_exp(x) * (0.01real * ul(nd) + em(x) * p10(-97)) }
/// The value of an exponential to that many digits.
pub open spec fn exp_ok(nd: int, x: real, r: real) -> bool { near(r, r_exp(x), exp_tol(nd, x)) }
pub open spec fn exp_series(nd: int, x: real) -> real { 0.0089real * ul(nd) + eps() * r_exp(absr(x)) }
pub proof fn exp_end(nd: int, x: real, i: nat, tot: real) requires near(tot, r_exp(x), 0.0089real * ul(nd) + eps() * sab(K::Exp, x, i)) ensures near(tot, r_exp(x), exp_series(nd, x)) {
    exp_taylor(x, i); eps_small(); let s = sab(K::Exp, x, i); let e = r_exp(absr(x)); let ep = eps();
    assert(ep * s <= ep * e) by(nonlinear_arith) requires s <= e, ep > 0real;
}
pub proof fn exp_above(nd: int, x: real, y: real) requires nd >= 0, 1real < x <= 100000real, exp_ok(nd, x, y) ensures y > 0real {
    exp_consts(); exp_mono(1real, x); em_small(x); ul_pos(nd); let e = r_exp(x);
    assert(e * 0.0222real >= 0.06real) by(nonlinear_arith) requires e >= 2.718real;
    exp_rel(nd, x, y, 0.0222real);
    assert(0.0222real + 0.01real == 0.0322real);
    let g = 0.0322real * ul(nd) + em(x) * p10(-97);
    assert(e * g <= 0.1real * e) by(nonlinear_arith) requires g <= 0.1real, e > 0real;
}
pub proof fn exp_base(nd: int, x: real, tot: real, r: real)
    requires -1real <= x <= 4real, nd >= 0, near(tot, r_exp(x), exp_series(nd, x)), near(r, tot, half_unit(nd + 1))
    ensures exp_ok(nd, x, r)
{
    ul_pos(nd); unit(nd + 1); exp_taylor(x, 0); eps_small(); exp_consts(); 
    assert(half_unit(nd + 1) == 0.05real * ul(nd));
    let e = r_exp(x); exp_pos(x);
    assert(r_exp(absr(x)) <= 7.4real * e) by {
        if x < 0real { exp_add(x, -2real * x); exp_mono(-2real * x, 2real); let q = r_exp(-2real * x); assert(e * q <= 7.4real * e) by(nonlinear_arith) requires e > 0real, q <= 7.4real; assert(x + -2real * x == -x); }
    }
    let a = p10(-99); p10_add(-99, 2); assert(p10(2) == 100real) by { reveal_with_fuel(p10, 4); } let m = em(x); let b = p10(-97);
    assert(x * x >= 0real) by(nonlinear_arith);
    assert(eps() * r_exp(absr(x)) <= e * (m * b)) by(nonlinear_arith) requires eps() == 3real * a, b == 100real * a, a > 0real, r_exp(absr(x)) <= 7.4real * e, e > 0real, m >= 4real;
    let u = ul(nd);
    assert(e * (0.01real * u) >= 0real) by(nonlinear_arith) requires e > 0real, u > 0real;
    assert(e * (0.01real * u + m * b) == e * (0.01real * u) + e * (m * b)) by(nonlinear_arith);
}
pub proof fn exp_thirds(n: nat) ensures r_exp(-3real * ((n as int) as real)) <= p10(-(n as int)) decreases n {
    exp_consts();
    let nr = (n as int) as real;
    if n > 0 {
        let m = (n - 1) as nat; let mr = (m as int) as real; exp_thirds(m); exp_add(-3real * mr, -3real); exp_neg(3real); assert(-3real * mr + -3real == -3real * nr);
        let a = r_exp(-3real * mr); let b = r_exp(-3real); let c = r_exp(3real); exp_pos(-3real * mr); p10_step(-(n as int));
        assert(b <= 0.1real) by(nonlinear_arith) requires b * c == 1real, c >= 20real, b > 0real;
        assert(10real * (a * b) <= a) by(nonlinear_arith) requires a > 0real, 0real < b <= 0.1real;
    }
}
pub proof fn exp_cut(nd: int, x: real) requires nd >= 0, x < -3real * ((nd + 2) as real) ensures exp_ok(nd, x, 0real) {
    exp_thirds((nd + 2) as nat); exp_mono(x, -3real * ((nd + 2) as real)); ul_pos(nd); ul_pos(nd + 1); let e = r_exp(x); let b = p10(-97); p10_pos(-97); let u = ul(nd);
    assert(p10(-(nd + 2)) * 100real == u);
    let m = em(x); assert(x * x >= 0real) by(nonlinear_arith);
    assert(m * b >= 0real) by(nonlinear_arith) requires m >= 4real, b > 0real;
    assert(e * (0.01real * u + m * b) >= 0real) by(nonlinear_arith) requires m * b >= 0real, e > 0real, u > 0real;
}
/// The relative error of the exponential of a number that is at least 1.
pub proof fn exp_rel(nd: int, x: real, r: real, d: real) requires nd >= 0, exp_ok(nd, x, r), x > 1real, d > 0real, r_exp(x) * d >= 0.06real
    ensures near(r, r_exp(x), r_exp(x) * ((d + 0.01real) * ul(nd) + em(x) * p10(-97)))
{
    ul_pos(nd); let u = ul(nd); let e = r_exp(x); let b = em(x) * p10(-97);
    assert(0.06real * u <= e * (d * u)) by(nonlinear_arith) requires e * d >= 0.06real, u > 0real;
    assert(e * ((d + 0.01real) * u + b) == e * (d * u) + e * (0.01real * u + b)) by(nonlinear_arith);
}
pub proof fn em_small(x: real) requires absr(x) <= 100000real ensures 4real <= em(x), em(x) * p10(-97) <= 0.0001real, em(x) * p10(-97) > 0real, p10(-97) > 0real {
    assert(0real <= x * x <= 10000000000real) by(nonlinear_arith) requires -100000real <= x <= 100000real;
    p10_pos(-97); p10_mono(-97, -20); p10_add(-10, -10); assert(p10(-10) == 0.0000000001real) by { reveal_with_fuel(p10, 12); }
    let b = p10(-97); let m = em(x);
    assert(m * b <= 0.0001real) by(nonlinear_arith) requires m <= 30000000008real, 0real < b <= 0.00000000000000000001real;
    assert(m * b > 0real) by(nonlinear_arith) requires m >= 4real, b > 0real;
}
/// 1 / e^-x
pub proof fn exp_inv(nd: int, x: real, y: real, q: real, r: real)
    requires nd >= 0, -100000real <= x < -1real, exp_ok(nd, -x, y), y != 0real ==> near(q, 1real / y, absr(1real / y) * p10(-99)), near(r, q, half_unit(nd + 1))
    ensures y > 0real, exp_ok(nd, x, r)
{
    ul_pos(nd); unit(nd + 1); assert(half_unit(nd + 1) == 0.05real * ul(nd)); exp_consts(); exp_mono(1real, -x); exp_neg(x);
    let e = r_exp(-x); let f = r_exp(x); let u = ul(nd); let ten = p10(-97); let m = em(-x); em_small(-x); em_small(x);
    assert(e * 0.0222real >= 0.06real) by(nonlinear_arith) requires e >= 2.718real;
    exp_rel(nd, -x, y, 0.0222real);
    let g = 0.0322real * u + m * ten;
    assert(0.0222real + 0.01real == 0.0322real);
    assert(0real < g <= 0.0323real);
    // y = e (1 + d), |d| <= g
    let d = (y - e) / e; quot(y - e, e, d);
    assert(y == e * (1real + d)) by(nonlinear_arith) requires d * e == y - e;
    assert(d <= g) by(nonlinear_arith) requires d * e <= e * g, e > 0real;
    assert(d >= -g) by(nonlinear_arith) requires d * e >= -(e * g), e > 0real;
    assert(y > 0real) by(nonlinear_arith) requires y == e * (1real + d), e > 0real, d >= -0.0323real;
    let s = 1real / y; quot(1real, y, s);
    // s = f / (1 + d)
    let k = 1real / (1real + d); quot(1real, 1real + d, k);
    assert(s == f * k) by(nonlinear_arith) requires s * y == 1real, y == e * (1real + d), f * e == 1real, k * (1real + d) == 1real, e > 0real, y > 0real;
    assert(0.96real <= k <= 1.034real) by(nonlinear_arith) requires k * (1real + d) == 1real, -0.0323real <= d <= 0.0323real;
    // |k - 1| = |d| k
    assert(k - 1real == -(d * k)) by(nonlinear_arith) requires k * (1real + d) == 1real;
    assert(d * k <= 1.034real * g) by(nonlinear_arith) requires d <= g, 0real < k <= 1.034real, g > 0real;
    assert(-(d * k) <= 1.034real * g) by(nonlinear_arith) requires -d <= g, 0real < k <= 1.034real, g > 0real;
    let z = k - 1real;
    assert(s - f == f * z) by(nonlinear_arith) requires s == f * k, z == k - 1real;
    assert(near(s, f, f * (1.034real * g))) by { abs_le(f, z, f, 1.034real * g); }
    assert(0real < s) by(nonlinear_arith) requires s == f * k, f > 0real, k >= 0.96real;
    let b = p10(-99); p10_add(-99, 2); assert(p10(2) == 100real) by { reveal_with_fuel(p10, 4); } p10_pos(-99);
    assert(s * b <= f * (0.02real * ten)) by(nonlinear_arith) requires s == f * k, 0real < k <= 1.034real, f > 0real, ten == 100real * b, b > 0real;
    // altogether
    assert(f <= 0.3684real) by(nonlinear_arith) requires f * e == 1real, e >= 2.718real, f > 0real;
    assert(m * ten >= 4real * ten) by(nonlinear_arith) requires m >= 4real, ten > 0real;
    let t = 1.034real * g + 0.02real * ten;
    assert((-x) * (-x) == x * x) by(nonlinear_arith);
    assert(em(x) == 2real * m);
    assert((2real * m) * ten == 2real * (m * ten)) by(nonlinear_arith);
    assert(t <= 0.0333real * u + em(x) * ten);
    assert(f * t <= f * (0.0333real * u + em(x) * ten)) by(nonlinear_arith) requires t <= 0.0333real * u + em(x) * ten, f > 0real;
    assert(f * (0.0333real * u + em(x) * ten) == f * (0.0233real * u) + f * (0.01real * u + em(x) * ten)) by(nonlinear_arith);
    assert(f * (0.0233real * u) <= 0.0086real * u) by(nonlinear_arith) requires f <= 0.3684real, u > 0real;
    assert(f * t == f * (1.034real * g) + f * (0.02real * ten)) by(nonlinear_arith) requires t == 1.034real * g + 0.02real * ten;
}
/// (e^(x/2))^2
pub proof fn exp_square(nd: int, x: real, y: real, r: real)
    requires nd >= 0, 4real < x <= 100000real, exp_ok(nd + 1, x / 2real, y), near(r, y * y, half_unit(nd + 1))
    ensures exp_ok(nd, x, r)
{
    ul_pos(nd); ul_pos(nd + 1); unit(nd + 1); assert(half_unit(nd + 1) == 0.05real * ul(nd)); exp_consts(); let h = x / 2real; exp_mono(2real, h); exp_double(h); exp_pos(x); assert(2real * h == x);
    let e = r_exp(h); let f = r_exp(x); let u = ul(nd); let ten = p10(-97); let m = em(h); em_small(h); em_small(x);
    assert(e * 0.0085real >= 0.06real) by(nonlinear_arith) requires e >= 7.38real;
    exp_rel(nd + 1, h, y, 0.0085real);
    let g = 0.0185real * ul(nd + 1) + m * ten;
    assert(0.0085real + 0.01real == 0.0185real);
    assert(0real < g <= 0.01real);
    let d = y - e;
    assert(y * y - f == 2real * (e * d) + d * d) by(nonlinear_arith) requires d == y - e, f == e * e;
    abs_le(e, d, e, e * g); abs_le(d, d, e * g, e * g);
    assert(e * (e * g) == f * g) by(nonlinear_arith) requires f == e * e;
    assert((e * g) * (e * g) <= 0.01real * (f * g)) by(nonlinear_arith) requires f == e * e, 0real < g <= 0.01real, e > 0real;
    assert(near(y * y, f, 2.01real * (f * g)));
    assert(h * h * 4real == x * x) by(nonlinear_arith) requires 2real * h == x;
    assert(x * x >= 16real) by(nonlinear_arith) requires x > 4real;
    let mx = em(x);
    assert(2.01real * m <= mx);
    assert(2.01real * (m * ten) <= mx * ten) by(nonlinear_arith) requires 2.01real * m <= mx, ten > 0real;
    assert(2.01real * g <= 0.01real * u + mx * ten);
    assert(2.01real * (f * g) <= f * (0.01real * u + mx * ten)) by(nonlinear_arith) requires 2.01real * g <= 0.01real * u + mx * ten, f > 0real;
}
#[verifier::external_body] pub fn v_panic() -> ! requires false { unimplemented!() }
#@fn bdmath.rs exp
##spec
    requires exp_reach($1$ as int, $0$.v())
    ensures exp_ok(num_digits as int, x.v(), r.v())
    decreases (if $0$.v() < -1real { 1int } else { 0int }), absr($0$.v()).floor()
##begin
    broadcast use {bd_arith};
    let ghost x0 = x.v(); let ghost n0 = num_digits as int;
    proof {
        if x0 < -3real * ((num_digits + 2) as real) { exp_cut(n0, x0); }
        assert(x0 * 0.5real == x0 / 2real); unit(n0 + 1);
        if x0 < -1real && -100000real <= x0 {
            assert forall|y: real| #[trigger] exp_ok(n0, -x0, y) implies y > 0real by { exp_above(n0, -x0, y); }
            assert forall|o: BigDecimal, y: BigDecimal, r: BigDecimal| o.v() == 1real && exp_ok(n0, -x0, y.v()) && #[trigger] rounds(bd_div(o, y), n0 + 1, r) implies exp_ok(n0, x0, r.v()) by { exp_inv(n0, x0, y.v(), bd_div(o, y).v(), r.v()); }
        }
        if x0 > 4real {
            assert forall|y: BigDecimal, r: BigDecimal| exp_ok(n0 + 1, x0 / 2real, y.v()) && #[trigger] rounds(bd_mul(y, y), n0 + 1, r) implies exp_ok(n0, x0, r.v()) by { exp_square(n0, x0, y.v(), r.v()); }
        }
        assert forall|t: real, r: real| -1real <= x0 <= 4real && #[trigger] near(t, r_exp(x0), exp_series(n0, x0)) && #[trigger] near(r, t, half_unit(n0 + 1)) implies exp_ok(n0, x0, r) by { exp_base(n0, x0, t, r); }
    }
##loopbefore 0
    proof { first_sum(K::Exp, x.v(), work_digits as int); }
##loop 0
    invariant
        0 <= num_digits <= 119000, work_digits == 2 * num_digits + 5, imax == 30000 + num_digits * 20, -1real <= x.v() <= 4real,
        0 <= i <= last(K::Exp, work_digits as int), sum_ok(K::Exp, x.v(), work_digits as int, i as nat, tot.v()), pow_ok(K::Exp, x.v(), work_digits as int, i as nat, power.v()), factorial.v() == fct(i as nat),
    ensures
        absr(co(K::Exp, i as nat)) * pw(absr(x.v()), i as nat) <= 14real * half_unit(work_digits as int)
    decreases last(K::Exp, work_digits as int) - i
##loopbegin 0
    broadcast use {bd_arith};
    proof { fct_pos(i as nat); steps(K::Exp, x.v(), work_digits as int, i as nat, power, tot); div_terms(K::Exp, work_digits as int, i as nat, power, tot); }
##loopafter 0
    proof { exp_taylor(x.v(), i as nat); exp_consts(); exp_mono(absr(x.v()), 4real); mul_comm3(absr(co(K::Exp, i as nat)), pw(absr(x.v()), i as nat), r_exp(absr(x.v()))); finish(K::Exp, x.v(), num_digits as int, i as nat, tot.v(), r_exp(x.v()), r_exp(absr(x.v()))); exp_end(num_digits as int, x.v(), i as nat, tot.v()); }
