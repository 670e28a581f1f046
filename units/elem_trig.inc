#@verbatim
// ---- pi ----------------------------------------------------------------------------------------------
pub uninterp spec fn r_pi() -> real;
/// The first 153 digits, found anew by Machin's formula in integers (tools/oracle.py does so on demand).
pub open spec fn pi_int() -> int { ((((((((314159265358979323int * 1000000000000000000int + 846264338327950288int) * 1000000000000000000int + 419716939937510582int) * 1000000000000000000int + 97494459230781640int) * 1000000000000000000int + 628620899862803482int) * 1000000000000000000int + 534211706798214808int) * 1000000000000000000int + 651328230664709384int) * 1000000000000000000int + 460955058223172535int) * 1000000000int + 940812848int) }
pub axiom fn pi_digits() ensures (pi_int() as real) * p10(-152) <= r_pi() <= ((pi_int() + 1) as real) * p10(-152), 3.14159real <= r_pi() <= 3.1416real;
/// A decimal read from the text of its digits.
#[verifier::external_body] pub fn v_dec(i: Ghost<int>, places: i64) -> (r: BigDecimal) ensures r.iv() == i@, r.sc() == places { unimplemented!() }
pub open spec fn pi_ok(nd: int, r: real) -> bool { near(r, r_pi(), 0.51real * ul(nd)) }
pub proof fn pi_end(nd: int, x: BigDecimal, r: BigDecimal) requires 0 <= nd < 150, near(x.v(), r_pi(), 2real * p10(-152)), rounds(x, nd, r) ensures pi_ok(nd, r.v()) {
    p10_add(-nd, -1); p10_step(-1); unit(nd); ul_pos(nd); p10_mono(-152, -nd - 3); p10_add(-nd, -3); assert(p10(-3) == 0.001real) by { reveal_with_fuel(p10, 5); }
}
#@fn bdmath.rs pi
##spec
    requires 0 <= num_digits < 150
    ensures pi_ok(num_digits as int, r.v())
##begin
    broadcast use {bd_value};
    proof {
        pi_digits(); p10_step(-153); p10_pos(-153); let u = p10(-153); let n = num_digits as int;
        assert forall|x: BigDecimal| #[trigger] x.sc() == 153 && 10 * pi_int() <= x.iv() <= 10 * pi_int() + 10 implies near(x.v(), r_pi(), 2real * p10(-152)) by {
            bd_value(x); let a = x.iv() as real; let b = pi_int() as real;
            assert(10real * b * u <= a * u) by(nonlinear_arith) requires 10real * b <= a, u > 0real;
            assert(a * u <= (10real * b + 10real) * u) by(nonlinear_arith) requires a <= 10real * b + 10real, u > 0real;
            assert(b * (10real * u) == 10real * b * u) by(nonlinear_arith);
            assert((b + 1real) * (10real * u) == (10real * b + 10real) * u) by(nonlinear_arith);
            assert((10real * b + 10real) * u == 10real * b * u + 10real * u) by(nonlinear_arith);
        }
        assert forall|x: BigDecimal, r: BigDecimal| near(x.v(), r_pi(), 2real * p10(-152)) && #[trigger] rounds(x, n, r) implies pi_ok(n, r.v()) by { pi_end(n, x, r); }
    }
#@verbatim
// ---- sine and cosine ---------------------------------------------------------------------------------
pub uninterp spec fn r_sin(x: real) -> real;
pub uninterp spec fn r_cos(x: real) -> real;
/// Taylor's theorem with Lagrange's remainder: all derivatives are at most 1.
pub axiom fn sin_taylor(x: real, n: nat) ensures near(r_sin(x), ser(K::Sin, x, n), pw(absr(x), n) / fct(n));
pub axiom fn cos_taylor(x: real, n: nat) ensures near(r_cos(x), ser(K::Cos, x, n), pw(absr(x), n) / fct(n));
pub axiom fn turn(x: real, k: int) ensures r_sin(x - 2real * r_pi() * (k as real)) == r_sin(x), r_cos(x - 2real * r_pi() * (k as real)) == r_cos(x);
pub axiom fn slope_one(x: real, y: real) ensures near(r_sin(x), r_sin(y), absr(x - y)), near(r_cos(x), r_cos(y), absr(x - y));
pub open spec fn red_ok(nd: int, x: real, r: real) -> bool { absr(r) <= 4real && exists|k: int| #[trigger] turned(nd, x, r, k) }
pub open spec fn turned(nd: int, x: real, r: real, k: int) -> bool { near(r, x - 2real * r_pi() * (k as real), 0.036real * ul(nd)) }
pub open spec fn ir(k: int) -> real { k as real }
pub open spec fn whole(x: real) -> bool { exists|k: int| x == #[trigger] ir(k) }
pub proof fn whole_scale(r: BigDecimal) requires r.sc() <= 0 ensures whole(r.v()) {
    bd_value(r); let n = (-r.sc()) as nat; p10_int(n);
    assert((r.iv() * ip10(n)) as real == (r.iv() as real) * (ip10(n) as real)) by(nonlinear_arith); assert(r.v() == ir(r.iv() * ip10(n)));
}
/// A number without its fraction.
pub proof fn trunc(x: BigDecimal, t: BigDecimal) requires t.sc() == 0, 0 >= x.sc() ==> t.v() == x.v(), 0 < x.sc() ==> t.iv() == tdiv(x.iv(), ip10(x.sc() as nat))
    ensures absr(t.iv() as real) <= absr(x.v()) < absr(t.iv() as real) + 1real, x.v() > 0real ==> t.iv() >= 0, x.v() < 0real ==> t.iv() <= 0
{
    broadcast use bd_value;
    let s = x.sc(); assert(p10(0) == 1real); let ir = t.iv() as real; assert(t.v() == ir);
    if s > 0 {
        let m = ip10(s as nat); p10_int(s as nat); tiny(s); let u = p10(-s); let i = x.iv(); let a = if i < 0 { -i } else { i }; let q = a / m;
        assert(q * m <= a < q * m + m && q >= 0) by(nonlinear_arith) requires m > 0, a >= 0, q == a / m;
        let qr = q as real; let mr = m as real; let ar = a as real;
        assert(qr * mr <= ar < qr * mr + mr) by { assert((q * m) as real == qr * mr) by(nonlinear_arith) requires qr == q as real, mr == m as real; }
        assert(qr <= ar * u < qr + 1real) by(nonlinear_arith) requires qr * mr <= ar, ar < qr * mr + mr, u * mr == 1real, u > 0real;
        let xr = i as real;
        if i < 0 { assert((-xr) * u == -(xr * u)) by(nonlinear_arith); }
        assert(xr > 0real ==> xr * u > 0real) by(nonlinear_arith) requires u > 0real;
        assert(xr < 0real ==> xr * u < 0real) by(nonlinear_arith) requires u > 0real;
    }
}
pub proof fn places_of(x: BigDecimal, t: BigDecimal, d: int) requires d >= 0, t.sc() == 0, 0 >= x.sc() ==> t.v() == x.v(), 0 < x.sc() ==> t.iv() == tdiv(x.iv(), ip10(x.sc() as nat)), places(t.iv(), d)
    ensures absr(x.v()) <= p10(d + 1), absr(x.v()) >= 1real ==> d >= 1 ==> p10(d - 1) <= absr(x.v()), x.v() >= 1real ==> p10(d - 1) <= x.v() <= p10(d)
{
    trunc(x, t); p10_int(d as nat); p10_int((d + 1) as nat); if d >= 1 { p10_int((d - 1) as nat); }
    let i = t.iv(); let a = absr(x.v());
    if i > 0 { assert(i + 1 <= ip10(d as nat)); assert((i + 1) as real <= p10(d)); p10_step(d); p10_pos(d); }
    else if i < 0 { assert(-i + 1 <= ip10((d + 1) as nat)); assert((-i + 1) as real <= p10(d + 1)); assert((-i) as real == -(i as real)); }
    else { assert(a < 1real); p10_mono(0, d + 1); }
}
pub proof fn p10_pos_less(a: int, b: int) requires p10(a) <= p10(b) ensures a <= b { if a > b { p10_mono(b + 1, a); p10_step(b); p10_pos(b); } }
/// The angle without whole turns.
pub proof fn reduce_end(nd: int, d: int, x: BigDecimal, tp: BigDecimal, turns: BigDecimal, y: BigDecimal, r: BigDecimal)
    requires 0 <= nd <= 95, d >= 0, 4real < absr(x.v()) <= p10(50), absr(x.v()) <= p10(d + 1), near(tp.v(), 2real * r_pi(), 1.02real * ul(nd + d + 2)), rounds(bd_div(*&x, *&tp), 0, turns), y.v() == x.v() - turns.v() * tp.v(), rounds(y, 2 * nd + 2, r)
    ensures red_ok(nd, x.v(), r.v())
{
    broadcast use ax_div;
    pi_digits(); ul_pos(nd); let t = tp.v(); let xv = x.v(); let ax = absr(xv);
    let uu = ul(nd + d + 2);
    p10_add(-nd, -2); p10_add(-nd - 2, -d); p10_add(-d, d); p10_step(d); tiny(d); assert(p10(-2) == 0.01real) by { reveal_with_fuel(p10, 4); }
    let ten = p10(d + 1); let u = ul(nd);
    assert(uu * ten == 0.1real * u) by(nonlinear_arith) requires uu == (u * 0.01real) * p10(-d), ten == 10real * p10(d), p10(-d) * p10(d) == 1real;
    assert(uu <= 0.01real) by(nonlinear_arith) requires uu == (u * 0.01real) * p10(-d), 0real < p10(-d) <= 1real, 0real < u <= 1real;
    assert(uu > 0real) by(nonlinear_arith) requires uu == (u * 0.01real) * p10(-d), 0real < p10(-d), 0real < u;
    assert(6.27real <= t <= 6.294real);
    let z = xv / t; quot(xv, t, z); div_abs(xv, t); let q = bd_div(x, tp).v(); let az = absr(z);
    assert(az * t == ax) by(nonlinear_arith) requires z * t == xv, az == absr(z), ax == absr(xv), t > 0real;
    assert(az <= 0.16real * ax) by(nonlinear_arith) requires az * t == ax, t >= 6.27real, az >= 0real;
    p10_add(50, -99); p10_mono(-49, -3); p10_pos(-99); assert(p10(-3) == 0.001real) by { reveal_with_fuel(p10, 5); } let e = p10(-99);
    assert(az * e <= 0.001real) by(nonlinear_arith) requires az <= 0.16real * ax, ax <= p10(50), p10(50) * e <= 0.001real, e > 0real;
    assert(half_unit(0) == 0.5real) by { reveal_with_fuel(p10, 3); }
    let n = turns.v();
    assert(near(n, z, 0.501real));
    whole_scale(turns); let k = choose|k: int| n == #[trigger] ir(k);
    // the size
    let w = y.v();
    assert(w == (z - n) * t) by(nonlinear_arith) requires z * t == xv, w == xv - n * t;
    abs_le(z - n, t, 0.501real, 6.294real);
    unit(2 * nd + 2); let h = half_unit(2 * nd + 2);
    p10_mono(-(2 * nd + 2), -nd - 2); 
    assert(h <= 0.005real * u);
    // the place
    let dlt = 2real * r_pi() - t;
    assert(absr(n) <= 0.29real * ax);
    abs_le(n, dlt, 0.29real * ax, 1.02real * uu);
    assert(0.29real * ax * (1.02real * uu) <= 0.03real * u) by(nonlinear_arith) requires ax <= ten, uu * ten == 0.1real * u, uu > 0real, u > 0real, ax >= 0real;
    assert(w - (xv - 2real * r_pi() * n) == n * dlt) by(nonlinear_arith) requires w == xv - n * t, dlt == 2real * r_pi() - t;
    assert(turned(nd, xv, r.v(), k));
}
#@fn bdmath.rs reduce_angle
##spec
    requires 0 <= num_digits <= 95, absr($0$.v()) <= p10(50)
    ensures red_ok(num_digits as int, $0$.v(), r.v())
##begin
    broadcast use {bd_arith};
    let ghost x0 = $0$; let ghost nd = num_digits as int;
    proof {
        ul_pos(nd); assert(0real * r_pi() == 0real) by(nonlinear_arith); assert(2real * r_pi() * (0int as real) == 0real) by(nonlinear_arith); 
        if absr(x0.v()) <= 4real { assert(turned(nd, x0.v(), x0.v(), 0)); }
        else {
            assert forall|t: BigDecimal, d: u64| #[trigger] places(t.iv(), d as int) && t.sc() == 0 && (0 >= x0.sc() ==> t.v() == x0.v()) && (0 < x0.sc() ==> t.iv() == tdiv(x0.iv(), ip10(x0.sc() as nat))) implies d <= 51 && absr(x0.v()) <= p10(d + 1) by {
                places_of(x0, t, d as int); if d >= 1 { p10_pos_less(d - 1, 50); }
            }
            assert forall|n: int, p: real, tp: BigDecimal, turns: BigDecimal, y: BigDecimal, r: BigDecimal| n >= nd + 2 && absr(x0.v()) <= p10(n - nd - 1) && #[trigger] pi_ok(n, p) && tp.v() == p * 2real && #[trigger] rounds(bd_div(x0, tp), 0, turns) && y.v() == x0.v() - turns.v() * tp.v() && #[trigger] rounds(y, 2 * nd + 2, r) implies red_ok(nd, x0.v(), r.v()) by { reduce_end(nd, n - nd - 2, x0, tp, turns, y, r); }
            assert forall|n: int, p: real| n >= 0 && #[trigger] pi_ok(n, p) implies p > 2real by { pi_digits(); ul_pos(n); }
        }
    }
#@verbatim
pub open spec fn trig_ok(nd: int, v: real, r: real) -> bool { near(r, v, 0.12real * ul(nd)) }
pub proof fn sab_exp(k: K, x: real, n: nat) requires fac(k), absr(x) <= 4real ensures 0real <= sab(k, x, n) <= 55real {
    sab_below(k, x, n); exp_taylor(x, n); exp_consts(); exp_mono(absr(x), 4real);
}
pub proof fn sab_below(k: K, x: real, n: nat) requires fac(k) ensures 0real <= sab(k, x, n) <= sab(K::Exp, x, n) decreases n {
    if n > 0 { let m = (n - 1) as nat; sab_below(k, x, m); fct_pos(m); let f = fct(m); let q = 1real / f; quot(1real, f, q); assert(q > 0real) by(nonlinear_arith) requires q * f == 1real, f >= 1real; pw_abs(x, m); let p = pw(absr(x), m);
        let c = absr(co(k, m)); assert(0real <= c <= q); assert(0real <= c * p <= q * p) by(nonlinear_arith) requires 0real <= c <= q, p >= 0real; }
}
/// From the series at the reduced angle to the value at the angle.
pub proof fn trig_end(k: K, nd: int, x: real, y: real, i: nat, tot: real, r: real)
    requires 0 <= nd <= 95, k is Sin || k is Cos, red_ok(nd, x, y), near(tot, if k is Sin { r_sin(y) } else { r_cos(y) }, 0.0089real * ul(nd) + eps() * sab(k, y, i)), near(r, tot, half_unit(nd + 1))
    ensures trig_ok(nd, if k is Sin { r_sin(x) } else { r_cos(x) }, r)
{
    sab_exp(k, y, i); eps_small(); let s = sab(k, y, i); let ep = eps(); ul_pos(nd); unit(nd + 1);
    assert(ep * s <= 55real * ep) by(nonlinear_arith) requires 0real <= s <= 55real, ep > 0real;
    p10_add(-99, 4); p10_mono(-95, -nd); assert(p10(4) == 10000real) by { reveal_with_fuel(p10, 6); }
    let n = choose|n: int| #[trigger] turned(nd, x, y, n); turn(x, n); slope_one(y, x - 2real * r_pi() * (n as real));
}
/// The remainder is at most the term that was dropped.
pub proof fn trig_rest(k: K, y: real, i: nat) requires k is Sin || k is Cos, co(k, i) != 0real ensures near(if k is Sin { r_sin(y) } else { r_cos(y) }, ser(k, y, i), 1real * (absr(co(k, i)) * pw(absr(y), i))) {
    sin_taylor(y, i); cos_taylor(y, i); fct_pos(i); let f = fct(i); let q = 1real / f; quot(1real, f, q); let p = pw(absr(y), i); let t = p / f; quot(p, f, t); assert(q > 0real) by(nonlinear_arith) requires q * f == 1real, f >= 1real;
    assert(t == 1real * (q * p)) by(nonlinear_arith) requires t * f == p, q * f == 1real, f >= 1real;
}
#@fn bdmath.rs sin
##spec
    requires 0 <= $1$ <= 95, absr($0$.v()) <= p10(50)
    ensures trig_ok($1$ as int, r_sin($0$.v()), r.v())
##begin
    broadcast use {bd_arith};
    let ghost x0 = $0$.v(); let ghost n0 = $1$ as int;
    proof {
        unit(n0 + 1);
        assert forall|i: nat, y: real, t: real, r: real| red_ok(n0, x0, y) && #[trigger] near(t, r_sin(y), 0.0089real * ul(n0) + eps() * sab(K::Sin, y, i)) && #[trigger] near(r, t, half_unit(n0 + 1)) implies trig_ok(n0, r_sin(x0), r) by { trig_end(K::Sin, n0, x0, y, i, t, r); }
    }
##loopbefore 0
    proof { first_sum(K::Sin, x.v(), work_digits as int); }
##loop 0
    invariant
        0 <= num_digits <= 95, work_digits == 2 * num_digits + 5, imax == 30000 + num_digits * 20, absr(x.v()) <= 4real,
        0 <= i <= last(K::Sin, work_digits as int) + 1, sum_ok(K::Sin, x.v(), work_digits as int, i as nat, tot.v()), pow_ok(K::Sin, x.v(), work_digits as int, i as nat, power.v()), factorial.v() == fct(i as nat),
    ensures
        co(K::Sin, i as nat) != 0real, absr(co(K::Sin, i as nat)) * pw(absr(x.v()), i as nat) <= 14real * half_unit(work_digits as int)
    decreases last(K::Sin, work_digits as int) + 1 - i
##loopbegin 0
    broadcast use {bd_arith};
    proof { let ii: i32 = i; assert(ii & 3 == ii % 4) by(bit_vector) requires ii >= 0; fct_pos(i as nat); let f = fct(i as nat); let q = 1real / f; quot(1real, f, q); assert(q > 0real) by(nonlinear_arith) requires q * f == 1real, f >= 1real;
        steps(K::Sin, x.v(), work_digits as int, i as nat, power, tot); div_terms(K::Sin, work_digits as int, i as nat, power, tot); }
##loopafter 0
    proof { trig_rest(K::Sin, x.v(), i as nat); finish(K::Sin, x.v(), num_digits as int, i as nat, tot.v(), r_sin(x.v()), 1real); }
#@fn bdmath.rs cos
##spec
    requires 0 <= $1$ <= 95, absr($0$.v()) <= p10(50)
    ensures trig_ok($1$ as int, r_cos($0$.v()), r.v())
##begin
    broadcast use {bd_arith};
    let ghost x0 = $0$.v(); let ghost n0 = $1$ as int;
    proof {
        unit(n0 + 1);
        assert forall|i: nat, y: real, t: real, r: real| red_ok(n0, x0, y) && #[trigger] near(t, r_cos(y), 0.0089real * ul(n0) + eps() * sab(K::Cos, y, i)) && #[trigger] near(r, t, half_unit(n0 + 1)) implies trig_ok(n0, r_cos(x0), r) by { trig_end(K::Cos, n0, x0, y, i, t, r); }
    }
##loopbefore 0
    proof { first_sum(K::Cos, x.v(), work_digits as int); }
##loop 0
    invariant
        0 <= num_digits <= 95, work_digits == 2 * num_digits + 5, imax == 30000 + num_digits * 20, absr(x.v()) <= 4real,
        0 <= i <= last(K::Cos, work_digits as int), sum_ok(K::Cos, x.v(), work_digits as int, i as nat, tot.v()), pow_ok(K::Cos, x.v(), work_digits as int, i as nat, power.v()), factorial.v() == fct(i as nat),
    ensures
        co(K::Cos, i as nat) != 0real, absr(co(K::Cos, i as nat)) * pw(absr(x.v()), i as nat) <= 14real * half_unit(work_digits as int)
    decreases last(K::Cos, work_digits as int) - i
##loopbegin 0
    broadcast use {bd_arith};
    proof { let ii: i32 = i; assert(ii & 3 == ii % 4) by(bit_vector) requires ii >= 0; fct_pos(i as nat); let f = fct(i as nat); let q = 1real / f; quot(1real, f, q); assert(q > 0real) by(nonlinear_arith) requires q * f == 1real, f >= 1real;
        steps(K::Cos, x.v(), work_digits as int, i as nat, power, tot); div_terms(K::Cos, work_digits as int, i as nat, power, tot); }
##loopafter 0
    proof { trig_rest(K::Cos, x.v(), i as nat); finish(K::Cos, x.v(), num_digits as int, i as nat, tot.v(), r_cos(x.v()), 1real); }
