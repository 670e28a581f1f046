#@verbatim
// ---- powers, factorials, series -------------------------------------------------------------------
pub open spec fn pw(x: real, n: nat) -> real decreases n { if n == 0 { 1real } else { x * pw(x, (n - 1) as nat) } }
pub open spec fn fct(n: nat) -> real decreases n { if n == 0 { 1real } else { fct((n - 1) as nat) * ((n as int) as real) } }
/// The kinds of series.
pub enum K { Exp, Sin, Cos, Atan, Ln, LnNeg, Asin }
/// 1/2 * 3/4 * ... * (2m-1)/(2m), as numerator and denominator.
pub open spec fn an(m: nat) -> real decreases m { if m == 0 { 1real } else { an((m - 1) as nat) * ((2 * m - 1) as real) } }
pub open spec fn ad(m: nat) -> real decreases m { if m == 0 { 1real } else { ad((m - 1) as nat) * ((2 * m) as real) } }
/// The coefficient of x^j.
pub open spec fn co(k: K, j: nat) -> real {
    let r = (j as int) as real;
    match k {
        K::Exp => 1real / fct(j),
        K::Sin => if j % 4 == 1 { 1real / fct(j) } else if j % 4 == 3 { -(1real / fct(j)) } else { 0real },
        K::Cos => if j % 4 == 0 { 1real / fct(j) } else if j % 4 == 2 { -(1real / fct(j)) } else { 0real },
        K::Atan => if j % 4 == 1 { 1real / r } else if j % 4 == 3 { -(1real / r) } else { 0real },
        K::Ln => if j == 0 { 0real } else if j % 2 == 1 { 1real / r } else { -(1real / r) },
        K::LnNeg => if j == 0 { 0real } else { -(1real / r) },
        K::Asin => if j % 2 == 1 { an(j / 2) / ad(j / 2) / r } else { 0real },
    }
}
/// The first n terms of a series, and of the series of the absolute values.
pub open spec fn ser(k: K, x: real, n: nat) -> real decreases n { if n == 0 { 0real } else { ser(k, x, (n - 1) as nat) + co(k, (n - 1) as nat) * pw(x, (n - 1) as nat) } }
pub open spec fn sab(k: K, x: real, n: nat) -> real decreases n { if n == 0 { 0real } else { sab(k, x, (n - 1) as nat) + absr(co(k, (n - 1) as nat)) * pw(absr(x), (n - 1) as nat) } }
pub open spec fn fac(k: K) -> bool { k is Exp || k is Sin || k is Cos }
/// The arguments the series is used for.
pub open spec fn inside(k: K, x: real) -> bool { if fac(k) { absr(x) <= 4real } else { absr(x) <= 0.66real } }
/// How many times half a unit the power may be off.
pub open spec fn pe(k: K, i: nat) -> real { if fac(k) { pw(4real, i) - 1real } else { 3real } }
/// Relative error of two divisions.
pub open spec fn eps() -> real { 3real * p10(-99) }
pub open spec fn gp(k: int, w: int) -> real { (k as real) * p10(-w) }
/// A multiple of the last digit.
pub open spec fn grid(v: real, w: int) -> bool { exists|k: int| v == #[trigger] gp(k, w) }
pub open spec fn sum_ok(k: K, x: real, w: int, i: nat, tot: real) -> bool { near(tot, ser(k, x, i), 13real * ((i as int) as real) * half_unit(w) + eps() * sab(k, x, i)) && grid(tot, w) }
pub open spec fn pow_ok(k: K, x: real, w: int, i: nat, p: real) -> bool { near(p, pw(x, i), pe(k, i) * half_unit(w)) }
/// The number of terms after which nothing changes any more.
pub open spec fn last(k: K, w: int) -> int { if fac(k) { 4 * w + 16 } else { 8 * w + 16 } }

// ---- arithmetic
pub proof fn abs_mul(a: real, b: real) ensures absr(a * b) == absr(a) * absr(b) { assert(absr(a * b) == absr(a) * absr(b)) by(nonlinear_arith); }
pub proof fn abs_le(a: real, b: real, p: real, q: real) requires absr(a) <= p, absr(b) <= q ensures absr(a * b) <= p * q { abs_mul(a, b); assert(absr(a) * absr(b) <= p * q) by(nonlinear_arith) requires 0real <= absr(a) <= p, 0real <= absr(b) <= q; }
pub proof fn pw_abs(x: real, n: nat) ensures absr(pw(x, n)) == pw(absr(x), n), pw(absr(x), n) >= 0real decreases n {
    if n > 0 { pw_abs(x, (n - 1) as nat); abs_mul(x, pw(x, (n - 1) as nat)); let a = absr(x); let b = pw(a, (n - 1) as nat); assert(a * b >= 0real) by(nonlinear_arith) requires a >= 0real, b >= 0real; }
}
pub proof fn pw_mono(x: real, y: real, n: nat) requires 0real <= x <= y ensures 0real <= pw(x, n) <= pw(y, n) decreases n {
    if n > 0 { pw_mono(x, y, (n - 1) as nat); let a = pw(x, (n - 1) as nat); let b = pw(y, (n - 1) as nat); assert(0real <= x * a && x * a <= y * b) by(nonlinear_arith) requires 0real <= x <= y, 0real <= a <= b; }
}
pub proof fn pw_mul(x: real, y: real, n: nat) ensures pw(x * y, n) == pw(x, n) * pw(y, n) decreases n {
    if n > 0 { pw_mul(x, y, (n - 1) as nat); let a = pw(x, (n - 1) as nat); let b = pw(y, (n - 1) as nat); assert((x * y) * (a * b) == (x * a) * (y * b)) by(nonlinear_arith); }
}
pub proof fn pw_add(x: real, a: nat, b: nat) ensures pw(x, a + b) == pw(x, a) * pw(x, b) decreases a {
    if a > 0 { pw_add(x, (a - 1) as nat, b); let p = pw(x, (a - 1) as nat); let q = pw(x, b); assert((a - 1 + b) as nat == (a + b - 1) as nat); assert(x * (p * q) == (x * p) * q) by(nonlinear_arith); } else { assert(1real * pw(x, b) == pw(x, b)); }
}
pub proof fn pw_pow(x: real, a: nat, b: nat) ensures pw(pw(x, a), b) == pw(x, a * b) decreases b {
    if b > 0 { pw_pow(x, a, (b - 1) as nat); pw_add(x, a, a * ((b - 1) as nat)); assert(a + a * ((b - 1) as nat) == a * b) by(nonlinear_arith) requires b > 0; } else { assert(a * b == 0) by(nonlinear_arith) requires b == 0; }
}
pub proof fn pw_one(n: nat) ensures pw(1real, n) == 1real decreases n { if n > 0 { pw_one((n - 1) as nat); } }
pub proof fn pw_small(x: real, n: nat) requires 0real <= x <= 1real ensures 0real <= pw(x, n) <= 1real { pw_mono(x, 1real, n); pw_one(n); }
pub proof fn pw_ten(n: nat) ensures pw(10real, n) == p10(n as int) decreases n { if n > 0 { pw_ten((n - 1) as nat); p10_step(n - 1); } }
pub proof fn fct_pos(n: nat) ensures fct(n) >= 1real decreases n { if n > 0 { fct_pos((n - 1) as nat); let a = fct((n - 1) as nat); let b = (n as int) as real; assert(a * b >= 1real) by(nonlinear_arith) requires a >= 1real, b >= 1real; } }
pub proof fn quot(a: real, b: real, q: real) requires b != 0real, q == a / b ensures q * b == a { assert(q * b == a) by(nonlinear_arith) requires b != 0real, q == a / b; }
/// p <= q b gives p / b <= q.
pub proof fn div_le(p: real, b: real, q: real) requires b > 0real, p <= q * b ensures p / b <= q { let r = p / b; quot(p, b, r); assert(r <= q) by(nonlinear_arith) requires r * b <= q * b, b > 0real; }
pub proof fn div_abs(a: real, b: real) requires b > 0real ensures absr(a / b) == absr(a) / b {
    let r = a / b; quot(a, b, r); let s = absr(a) / b; quot(absr(a), b, s);
    assert(absr(r) == s) by(nonlinear_arith) requires r * b == a, s * b == absr(a), b > 0real;
}
/// 8^n / n! is at most 417.
pub proof fn eight(n: nat) ensures pw(8real, n) <= 417real * fct(n) decreases n {
    assert(pw(8real, 0) == 1real); assert(fct(0) == 1real); assert(pw(8real, 1) == 8real * pw(8real, 0)); assert(fct(1) == fct(0) * 1real); assert(pw(8real, 1) == 8real); assert(fct(1) == 1real); assert(pw(8real, 2) == 8real * pw(8real, 1)); assert(fct(2) == fct(1) * 2real); assert(pw(8real, 2) == 64real); assert(fct(2) == 2real); assert(pw(8real, 3) == 8real * pw(8real, 2)); assert(fct(3) == fct(2) * 3real); assert(pw(8real, 3) == 512real); assert(fct(3) == 6real); assert(pw(8real, 4) == 8real * pw(8real, 3)); assert(fct(4) == fct(3) * 4real); assert(pw(8real, 4) == 4096real); assert(fct(4) == 24real); assert(pw(8real, 5) == 8real * pw(8real, 4)); assert(fct(5) == fct(4) * 5real); assert(pw(8real, 5) == 32768real); assert(fct(5) == 120real); assert(pw(8real, 6) == 8real * pw(8real, 5)); assert(fct(6) == fct(5) * 6real); assert(pw(8real, 6) == 262144real); assert(fct(6) == 720real); assert(pw(8real, 7) == 8real * pw(8real, 6)); assert(fct(7) == fct(6) * 7real); assert(pw(8real, 7) == 2097152real); assert(fct(7) == 5040real); assert(pw(8real, 8) == 8real * pw(8real, 7)); assert(fct(8) == fct(7) * 8real); assert(pw(8real, 8) == 16777216real); assert(fct(8) == 40320real); 
    if n > 8 {
        eight((n - 1) as nat); let a = pw(8real, (n - 1) as nat); let f = fct((n - 1) as nat); let m = (n as int) as real; fct_pos((n - 1) as nat); pw_mono(0real, 8real, (n - 1) as nat);
        assert(8real * a <= 417real * (f * m)) by(nonlinear_arith) requires 0real <= a <= 417real * f, m >= 8real, f >= 1real;
    }
}
/// 4^n / n! is at most 11.
pub proof fn four(n: nat) ensures pw(4real, n) <= 11real * fct(n) decreases n {
    assert(pw(4real, 0) == 1real); assert(fct(0) == 1real); assert(pw(4real, 1) == 4real * pw(4real, 0)); assert(fct(1) == fct(0) * 1real); assert(pw(4real, 1) == 4real); assert(fct(1) == 1real); assert(pw(4real, 2) == 4real * pw(4real, 1)); assert(fct(2) == fct(1) * 2real); assert(pw(4real, 2) == 16real); assert(fct(2) == 2real); assert(pw(4real, 3) == 4real * pw(4real, 2)); assert(fct(3) == fct(2) * 3real); assert(pw(4real, 3) == 64real); assert(fct(3) == 6real); assert(pw(4real, 4) == 4real * pw(4real, 3)); assert(fct(4) == fct(3) * 4real); assert(pw(4real, 4) == 256real); assert(fct(4) == 24real); 
    if n > 4 {
        four((n - 1) as nat); let a = pw(4real, (n - 1) as nat); let f = fct((n - 1) as nat); let m = (n as int) as real; fct_pos((n - 1) as nat); pw_mono(0real, 4real, (n - 1) as nat);
        assert(4real * a <= 11real * (f * m)) by(nonlinear_arith) requires 0real <= a <= 11real * f, m >= 4real, f >= 1real;
    }
}
/// 2^(4 w) is at least 10^w.
pub proof fn two_ten(w: nat) ensures pw(2real, 4 * w) >= p10(w as int), p10(w as int) > 0real { 
    pw_pow(2real, 4, w); reveal_with_fuel(pw, 5); assert(pw(2real, 4) == 16real); pw_mono(10real, 16real, w); pw_ten(w); p10_pos(w as int);
}
pub proof fn unit(w: int) ensures half_unit(w) * 2real == p10(-w), half_unit(w) > 0real { p10_step(-w - 1); p10_pos(-w - 1); p10_pos(-w); }
pub proof fn tiny(w: int) requires w >= 0 ensures 0real < p10(-w) <= 1real, p10(-w) * p10(w) == 1real { p10_pos(-w); p10_mono(-w, 0); p10_add(-w, w); }
pub proof fn eps_small() ensures 0real < eps() <= 0.001real, p10(-99) > 0real { p10_mono(-99, -4); p10_pos(-99); reveal_with_fuel(p10, 6); }
/// x^i is below 2^-14 half units after that many terms.
pub proof fn vanish(k: K, x: real, w: int, i: nat) requires inside(k, x), w >= 0, i >= last(k, w)
    ensures absr(co(k, i)) * (pw(absr(x), i) + pe(k, i) * half_unit(w)) <= 0.5real * half_unit(w), co_ok(k, i)
{
    co_size(k, i); pw_abs(x, i); unit(w); tiny(w);
    let h = half_unit(w); let c = absr(co(k, i)); let a = pw(absr(x), i);
    if fac(k) {
        pw_mono(absr(x), 4real, i); let f = pw(4real, i); eight(i); pw_mul(4real, 2real, i); fct_pos(i); 
        let t = pw(2real, i); let g = fct(i);
        // 4^i 2^i <= 417 i!, 2^i >= 2^16 10^w
        let m = (i - 16) as nat; pw_add(2real, 16, m); pw_add(2real, (4 * w) as nat, (i - 16 - 4 * w) as nat); two_ten(w as nat); pw_mono(1real, 2real, (i - 16 - 4 * w) as nat); pw_one((i - 16 - 4 * w) as nat);
        assert(pw(2real, 16) == 65536real) by { reveal_with_fuel(pw, 18); }
        let u = pw(2real, (i - 16 - 4 * w) as nat); let v = pw(2real, (4 * w) as nat); let z = pw(2real, m);
        assert(z >= p10(w)) by(nonlinear_arith) requires z == v * u, u >= 1real, v >= p10(w), p10(w) > 0real;
        assert(t >= 65536real * p10(w));
        let ten = p10(w);
        // so 4^i / i! <= 417/65536 10^-w
        assert(f * 65536real * ten <= 417real * g) by(nonlinear_arith) requires f * t <= 417real * g, t >= 65536real * ten, f >= 0real;
        let r = p10(-w);
        assert(f * 65536real <= 417real * g * r) by(nonlinear_arith) requires f * 65536real * ten <= 417real * g, r * ten == 1real, r > 0real, f >= 0real;
        assert(c * g <= 1real);
        let s = a + pe(k, i) * h;
        assert(pe(k, i) * h <= f) by(nonlinear_arith) requires pe(k, i) == f - 1real, 0real < h <= 1real, f >= 0real;
        assert(s <= 2real * f);
        assert(pe(k, i) >= 0real) by { pw_mono(1real, 4real, i); pw_one(i); }
        assert(pe(k, i) * h >= 0real) by(nonlinear_arith) requires pe(k, i) >= 0real, h > 0real;
        assert(c * s <= c * (2real * f)) by(nonlinear_arith) requires 0real <= s <= 2real * f, c >= 0real;
        assert(c * (f * 65536real) <= 417real * r) by(nonlinear_arith) requires f * 65536real <= 417real * g * r, c >= 0real, c * g <= 1real, r > 0real;
        assert(c * (2real * f) * 32768real == c * (f * 65536real)) by(nonlinear_arith);
    } else {
        // x^2 <= 1/2
        let y = absr(x); let n = i / 2; 
        pw_pow(y, 2, n); reveal_with_fuel(pw, 3); assert(pw(y, 2) == y * y);
        assert(0real <= y * y <= 0.5real) by(nonlinear_arith) requires 0real <= y <= 0.66real;
        pw_mono(y * y, 0.5real, n);
        pw_add(y, 2 * n, (i - 2 * n) as nat); pw_small(y, (i - 2 * n) as nat);
        let b = pw(y, 2 * n); let d = pw(y, (i - 2 * n) as nat);
        assert(a <= b) by(nonlinear_arith) requires a == b * d, b >= 0real, 0real <= d <= 1real;
        let hn = pw(0.5real, n); pw_mul(0.5real, 2real, n); pw_one(n); let t = pw(2real, n);
        let m = (n - 8) as nat; pw_add(2real, 8, m); pw_add(2real, (4 * w) as nat, (n - 8 - 4 * w) as nat); two_ten(w as nat); pw_mono(1real, 2real, (n - 8 - 4 * w) as nat); pw_one((n - 8 - 4 * w) as nat);
        assert(pw(2real, 8) == 256real) by { reveal_with_fuel(pw, 10); }
        let u = pw(2real, (n - 8 - 4 * w) as nat); let v = pw(2real, (4 * w) as nat); let z = pw(2real, m);
        assert(z >= p10(w)) by(nonlinear_arith) requires z == v * u, u >= 1real, v >= p10(w), p10(w) > 0real;
        let ten = p10(w); let r = p10(-w);
        assert(0.5real * 2real == 1real); assert(hn * t == 1real);
        pw_mono(0real, 0.5real, n);
        assert(hn * 256real * ten <= 1real) by(nonlinear_arith) requires hn * t == 1real, t >= 256real * ten, hn >= 0real;
        assert(hn * 256real <= r) by(nonlinear_arith) requires hn * 256real * ten <= 1real, r * ten == 1real, r > 0real, ten > 0real;
        assert(a + 3real * h <= 4real * h);
        let ir = (i as int) as real; assert(c * 16real <= 1real) by(nonlinear_arith) requires c * ir <= 1real, ir >= 16real, c >= 0real;
        assert(c * (a + 3real * h) <= 0.25real * h) by(nonlinear_arith) requires 0real <= a + 3real * h <= 4real * h, 0real <= c, c * 16real <= 1real;
    }
}
/// Coefficients are small.
pub open spec fn co_ok(k: K, i: nat) -> bool { absr(co(k, i)) * pe(k, i) <= 11real && absr(co(k, i)) <= 1real }
pub proof fn asin_co(m: nat) ensures 0real < an(m) <= ad(m) decreases m {
    if m > 0 { asin_co((m - 1) as nat); let a = an((m - 1) as nat); let d = ad((m - 1) as nat); let p = (2 * m - 1) as real; let q = (2 * m) as real;
        assert(0real < a * p && a * p <= d * q) by(nonlinear_arith) requires 0real < a <= d, 1real <= p <= q; }
}
pub proof fn co_size(k: K, i: nat) ensures co_ok(k, i), fac(k) ==> absr(co(k, i)) * fct(i) <= 1real, !fac(k) && i > 0 ==> absr(co(k, i)) * ((i as int) as real) <= 1real, !fac(k) && i == 0 ==> co(k, i) == 0real
{
    let c = co(k, i); let r = (i as int) as real;
    if fac(k) {
        fct_pos(i); let f = fct(i); let q = 1real / f; quot(1real, f, q); four(i); pw_mono(1real, 4real, i); pw_one(i);
        assert(0real < q <= 1real) by(nonlinear_arith) requires q * f == 1real, f >= 1real;
        let p = pw(4real, i);
        assert(q * (p - 1real) <= 11real) by(nonlinear_arith) requires q * f == 1real, p <= 11real * f, 0real < q, f >= 1real, p >= 1real;
        assert(0real * (p - 1real) == 0real) by(nonlinear_arith); assert(0real * f == 0real) by(nonlinear_arith);
    } else if i > 0 {
        let q = 1real / r; quot(1real, r, q);
        assert(0real < q <= 1real) by(nonlinear_arith) requires q * r == 1real, r >= 1real;
        assert(0real * r == 0real) by(nonlinear_arith);
        if k is Asin && i % 2 == 1 {
            asin_co(i / 2); let a = an(i / 2); let d = ad(i / 2); let s = a / d; quot(a, d, s);
            assert(0real < s <= 1real) by(nonlinear_arith) requires s * d == a, 0real < a <= d;
            quot(s, r, c); 
            assert(0real < c <= 1real) by(nonlinear_arith) requires c * r == s, 0real < s <= 1real, r >= 1real;
        }
    }
}
pub proof fn on_grid(x: BigDecimal, w: int) requires w >= 0, x.sc() <= w ensures grid(x.v(), w) {
    broadcast use bd_value;
    let k = x.iv() * ip10((w - x.sc()) as nat); p10_int((w - x.sc()) as nat); p10_add(-w, w - x.sc());
    let a = x.iv() as real; let b = ip10((w - x.sc()) as nat) as real; let c = p10(-w);
    assert((x.iv() * ip10((w - x.sc()) as nat)) as real == a * b) by(nonlinear_arith) requires a == x.iv() as real, b == ip10((w - x.sc()) as nat) as real;
    assert(a * (c * b) == (a * b) * c) by(nonlinear_arith);
    assert(x.v() == gp(k, w));
}
pub proof fn grid_zero(w: int) ensures grid(0real, w) { assert(0real * p10(-w) == 0real) by(nonlinear_arith); assert(gp(0, w) == 0real); }
pub proof fn grid_eq(a: real, b: real, w: int) requires grid(a, w), grid(b, w), absr(a - b) < p10(-w) ensures a == b {
    let i = choose|k: int| a == #[trigger] gp(k, w); let j = choose|k: int| b == #[trigger] gp(k, w); let u = p10(-w); p10_pos(-w);
    let d = i - j; let dr = d as real; let ir = i as real; let jr = j as real;
    assert(a - b == dr * u) by(nonlinear_arith) requires a == ir * u, b == jr * u, dr == ir - jr;
    if d >= 1 { assert(dr * u >= u) by(nonlinear_arith) requires dr >= 1real, u > 0real; }
    if d <= -1 { assert(dr * u <= -u) by(nonlinear_arith) requires dr <= -1real, u > 0real; }
}
/// The next power.
pub proof fn next_power(k: K, x: real, w: int, i: nat, p: BigDecimal, y: BigDecimal, n: BigDecimal)
    requires inside(k, x), w >= 0, pow_ok(k, x, w, i, p.v()), y.v() == p.v() * x, rounds(y, w, n)
    ensures pow_ok(k, x, w, i + 1, n.v())
{
    unit(w); let h = half_unit(w); let e = p.v() - pw(x, i); let q = pw(x, i); let pv = p.v();
    assert(near(n.v(), y.v(), h));
    assert(pw(x, i + 1) == x * q);
    assert(pv * x == x * q + e * x) by(nonlinear_arith) requires e == pv - q;
    pw_mono(1real, 4real, i); pw_one(i);
    if fac(k) {
        let f = pw(4real, i); assert(pw(4real, i + 1) == 4real * f);
        abs_le(e, x, (f - 1real) * h, 4real);
        assert(((f - 1real) * h) * 4real + h <= (4real * f - 1real) * h) by(nonlinear_arith) requires h > 0real, f >= 1real;
    } else {
        abs_le(e, x, 3real * h, 0.66real);
    }
}
/// One more term: q is the term as it was computed, y the sum with it, n that rounded.
pub proof fn next_sum(k: K, x: real, w: int, i: nat, p: real, tot: BigDecimal, q: real, y: BigDecimal, n: BigDecimal)
    requires inside(k, x), w >= 0, pow_ok(k, x, w, i, p), sum_ok(k, x, w, i, tot.v()), near(q, co(k, i) * p, eps() * absr(co(k, i) * p)), y.v() == tot.v() + q, rounds(y, w, n)
    ensures sum_ok(k, x, w, i + 1, n.v()), n.v() == tot.v() ==> absr(co(k, i)) * pw(absr(x), i) <= 14real * half_unit(w),
        i >= last(k, w) ==> n.v() == tot.v()
{
    unit(w); co_size(k, i); eps_small(); pw_abs(x, i);
    let h = half_unit(w); let c = co(k, i); let xp = pw(x, i); let t = c * xp; let e = p - xp; let m = pe(k, i) * h; let s = absr(c) * pw(absr(x), i);
    assert(pe(k, i) >= 0real) by { pw_mono(1real, 4real, i); pw_one(i); }
    abs_mul(c, xp);
    assert(absr(t) == s);
    abs_le(c, e, absr(c), m);
    assert(c * p == t + c * e) by(nonlinear_arith) requires t == c * xp, e == p - xp;
    let a = absr(c) * m;
    assert(a <= 11real * h) by(nonlinear_arith) requires absr(c) * pe(k, i) <= 11real, m == pe(k, i) * h, h > 0real, a == absr(c) * m;
    assert(absr(c * p) <= s + a);
    let ep = eps();
    assert(ep * absr(c * p) <= ep * (s + 11real * h)) by(nonlinear_arith) requires absr(c * p) <= s + a, a <= 11real * h, ep > 0real;
    assert(ep * (s + 11real * h) == ep * s + ep * (11real * h)) by(nonlinear_arith);
    assert(ep * (11real * h) <= 0.5real * h) by(nonlinear_arith) requires ep <= 0.001real, h > 0real;
    assert(near(q, t, 12real * h + ep * s));
    assert(near(n.v(), y.v(), h));
    let ir = (i as int) as real; let b = sab(k, x, i);
    assert(sab(k, x, i + 1) == b + s);
    assert(ep * (b + s) == ep * b + ep * s) by(nonlinear_arith);
    assert(13real * (ir + 1real) * h == 13real * ir * h + 13real * h) by(nonlinear_arith);
    assert(((i + 1) as int) as real == ir + 1real);
    assert(ser(k, x, i + 1) == ser(k, x, i) + t);
    assert(n.sc() <= w);
    on_grid(n, w);
    assert(sum_ok(k, x, w, i + 1, n.v()));
    if n.v() == tot.v() {
        assert(absr(q) <= h);
        assert(ep * s <= 0.001real * s) by(nonlinear_arith) requires 0real < ep <= 0.001real, s >= 0real;
        assert(s <= 14real * h);
    }
    if i >= last(k, w) {
        vanish(k, x, w, i);
        assert(absr(c) * (pw(absr(x), i) + m) == s + a) by(nonlinear_arith) requires s == absr(c) * pw(absr(x), i), a == absr(c) * m;
        assert(ep * absr(c * p) <= 0.001real * (s + a)) by(nonlinear_arith) requires 0real < ep <= 0.001real, 0real <= absr(c * p) <= s + a;
        assert(absr(q) < h);
        grid_eq(n.v(), tot.v(), w);
    }
}
/// A term that is not there.
pub proof fn skip_sum(k: K, x: real, w: int, i: nat, tot: real) requires sum_ok(k, x, w, i, tot), co(k, i) == 0real ensures sum_ok(k, x, w, i + 1, tot) {
    unit(w); let h = half_unit(w); let ir = (i as int) as real; 
    assert(((i + 1) as int) as real == ir + 1real);
    assert(13real * (ir + 1real) * h == 13real * ir * h + 13real * h) by(nonlinear_arith);
    assert(0real * pw(x, i) == 0real) by(nonlinear_arith); assert(0real * pw(absr(x), i) == 0real) by(nonlinear_arith);
    assert(ser(k, x, i + 1) == ser(k, x, i)); assert(sab(k, x, i + 1) == sab(k, x, i));
}
pub proof fn first_sum(k: K, x: real, w: int) ensures sum_ok(k, x, w, 0, 0real), pow_ok(k, x, w, 0, 1real) {
    unit(w); let h = half_unit(w); grid_zero(w); eps_small(); 
    assert(13real * 0real * h == 0real) by(nonlinear_arith); assert(eps() * 0real == 0real) by(nonlinear_arith);
    assert(pe(k, 0) * h >= 0real) by(nonlinear_arith) requires pe(k, 0) >= 0real, h > 0real;
}
