#@verbatim
// ---- roots, logarithms to other bases, the density of the normal distribution -------------------------
#@fn bdmath.rs sqrt
##spec
    ensures match r { Some(y) => $0$.v() >= 0real && sqrt_ok($0$.v(), y.v()), None => $0$.v() < 0real }
#@fn bdmath.rs sqrt_two
##spec
    ensures sqrt_ok(2real, r.v())
#@verbatim
pub open spec fn log_ok(nd: int, x: real, b: real, r: real) -> bool { let t = r_ln(x) / r_ln(b); near(r, t, 0.1real * ul(nd) * (1real + absr(t)) / absr(r_ln(b)) + 3real * p10(-95) * absr(t)) }
pub proof fn ln_tol_small(nd: int, x: real) requires 1 <= nd <= 92 ensures ln_tol(nd, x) <= 0.061real * ul(nd) + p10(-95) * absr(r_ln(x)), 0real < p10(-95) <= 0.001real * ul(nd), p10(-95) <= 0.0001real, p10(-95) * absr(r_ln(x)) >= 0real {
    ul_pos(nd); ul_pos(nd - 1); let u = ul(nd); let b = p10(-95); p10_pos(-95); p10_mono(-95, -nd - 3); p10_add(-nd, -3); assert(p10(-3) == 0.001real) by { reveal_with_fuel(p10, 5); } let c3 = p10(-3);
    assert(b <= 0.001real * u) by(nonlinear_arith) requires b <= u * c3, c3 == 0.001real;
    let a = absr(r_ln(x)); assert(b * a >= 0real) by(nonlinear_arith) requires b > 0real, a >= 0real;
    if ln_near_one(x) { assert(ln_tol(nd, x) == 0.06real * u + b * 0.52real); } else { assert(ln_tol(nd, x) == 0.06real * u + b * a); }
}
pub proof fn log_end(nd: int, x: real, b: real, lx: real, lb: real, r: real) requires 1 <= nd <= 92, x > 0real, b > 0real, ln_ok(nd, x, lx), ln_ok(nd, b, lb), absr(r_ln(b)) >= ul(nd), near(r, lx / lb, absr(lx / lb) * p10(-99))
    ensures lb != 0real, log_ok(nd, x, b, r)
{
    ul_pos(nd); let u = ul(nd); let b95 = p10(-95); ln_tol_small(nd, x); ln_tol_small(nd, b);
    let rx = r_ln(x); let rb = r_ln(b); let a = absr(rb); let ax = absr(rx);
    let tx = 0.061real * u + b95 * ax; let tb = 0.061real * u + b95 * a;
    assert(near(lx, rx, tx)); assert(near(lb, rb, tb));
    assert(b95 * a <= 0.0001real * a) by(nonlinear_arith) requires 0real < b95 <= 0.0001real, a >= 0real;
    assert(absr(lb) >= 0.93real * a); assert(lb != 0real);
    let t = rx / rb; quot(rx, rb, t); let q = lx / lb; quot(lx, lb, q); let al = absr(lb); let at = absr(t); let d = absr(q - t);
    assert((q - t) * lb == (lx - rx) - t * (lb - rb)) by(nonlinear_arith) requires q * lb == lx, t * rb == rx;
    abs_le(t, lb - rb, at, tb); abs_mul(q - t, lb); abs_mul(t, rb);
    assert(d * al <= tx + at * tb);
    assert(at * tb == 0.061real * (at * u) + b95 * ax) by(nonlinear_arith) requires tb == 0.061real * u + b95 * a, at * a == ax;
    assert(d * (0.93real * a) <= d * al) by(nonlinear_arith) requires al >= 0.93real * a, d >= 0real;
    assert(d * (0.93real * a) == 0.93real * (d * a)) by(nonlinear_arith);
    // d a <= 0.066 u (1 + t) + 2.16 b ax
    let m = 0.1real * u * (1real + at); let l = m / a; quot(m, a, l);
    assert(m == 0.1real * u + 0.1real * (at * u)) by(nonlinear_arith) requires m == 0.1real * u * (1real + at);
    assert(at * u >= 0real) by(nonlinear_arith) requires at >= 0real, u > 0real;
    let z = b95 * at; assert(z * a == b95 * ax) by(nonlinear_arith) requires z == b95 * at, at * a == ax;
    let e = p10(-99); p10_pos(-99); p10_mono(-99, -95); p10_add(-99, 4); assert(p10(4) == 10000real) by { reveal_with_fuel(p10, 6); }
    assert(b95 == 10000real * e); let aq = absr(q); assert(aq <= at + d);
    assert(aq * e <= at * e + d * e) by(nonlinear_arith) requires aq <= at + d, e > 0real;
    assert(at * e == 0.0001real * z) by(nonlinear_arith) requires z == b95 * at, b95 == 10000real * e;
    assert(d * e <= 0.0001real * d) by(nonlinear_arith) requires d >= 0real, 0real < e <= 0.0001real;
    let g = d + aq * e; assert(g <= 1.0001real * d + 0.0001real * z);
    assert(d * a <= m + 2.5real * (z * a) - 0.03real * u);
    assert(g * a <= 1.0001real * (d * a) + 0.0001real * (z * a)) by(nonlinear_arith) requires g <= 1.0001real * d + 0.0001real * z, a >= 0real;
    assert(0.0001real * m <= 0.01real * u + 0.01real * (at * u));
    assert(d * a <= 0.0661real * (u + at * u) + 2.2real * (z * a));
    let w = l + 3real * z; assert(w * a == m + 3real * (z * a)) by(nonlinear_arith) requires w == l + 3real * z, l * a == m;
    assert(z * a >= 0real) by(nonlinear_arith) requires z == b95 * at, b95 > 0real, at >= 0real, a >= 0real;
    assert(g <= w) by(nonlinear_arith) requires g * a <= w * a, a > 0real;
    assert(3real * p10(-95) * absr(t) == 3real * z) by(nonlinear_arith) requires z == b95 * at, b95 == p10(-95), at == absr(t);
}
#@fn bdmath.rs log
##spec
    requires ln_reach($2$ as int, $0$), ln_reach($2$ as int, $1$)
    ensures match r { Some(y) => $0$.v() > 0real && $1$.v() > 0real && ($2$ <= 92 && absr(r_ln($1$.v())) >= ul($2$ as int) ==> log_ok($2$ as int, $0$.v(), $1$.v(), y.v())), None => $0$.v() <= 0real || $1$.v() <= 0real || $2$ > 92 || absr(r_ln($1$.v())) < ul($2$ as int) }
##begin
    broadcast use {bd_arith};
    let ghost x0 = $0$.v(); let ghost b0 = $1$.v(); let ghost n0 = $2$ as int;
    proof {
        assert forall|lx: BigDecimal, lb: BigDecimal| n0 <= 92 && x0 > 0real && b0 > 0real && absr(r_ln(b0)) >= ul(n0) && #[trigger] ln_ok(n0, x0, lx.v()) && #[trigger] ln_ok(n0, b0, lb.v()) implies lb.v() != 0real && log_ok(n0, x0, b0, bd_div(lx, lb).v()) by { let q = lx.v() / lb.v(); let e = p10(-99); p10_pos(-99); assert(absr(q) * e >= 0real) by(nonlinear_arith) requires e > 0real, absr(q) >= 0real; log_end(n0, x0, b0, lx.v(), lb.v(), q); log_end(n0, x0, b0, lx.v(), lb.v(), bd_div(lx, lb).v()); }
    }
#@verbatim
/// 1 / sqrt(2 pi)
pub open spec fn r_peak() -> real { r_sqrt(1real / (2real * r_pi())) }
pub open spec fn peak_ok(nd: int, r: real) -> bool { near(r, r_peak(), 0.06real * ul(nd)) }
pub proof fn peak_size() ensures 0.398real <= r_peak() <= 0.3999real, r_pi() > 3.14real {
    pi_digits(); let p = 2real * r_pi(); let a = 1real / p; quot(1real, p, a); assert(0.159real <= a <= 0.1593real) by(nonlinear_arith) requires a * p == 1real, 6.28real <= p <= 6.2832real;
    sqrt_def(a); let s = r_sqrt(a); assert(0.398real <= s <= 0.3999real) by(nonlinear_arith) requires s * s == a, s >= 0real, 0.159real <= a <= 0.1593real;
}
pub proof fn peak_end(nd: int, p: real, q: real, r: real) requires 0 <= nd <= 92, pi_ok(nd, p), near(q, 1real / (2real * p), absr(1real / (2real * p)) * p10(-99))
    ensures q > 0real, q >= 0real && sqrt_ok(q, r) ==> peak_ok(nd, r)
{
    peak_size(); pi_digits(); ul_pos(nd); let u = ul(nd); let e = p10(-97); p10_mono(-97, -nd - 5); p10_pos(-97); p10_add(-nd, -5); assert(p10(-5) == 0.00001real) by { reveal_with_fuel(p10, 7); } let c5 = p10(-5);
    assert(e <= 0.00001real * u) by(nonlinear_arith) requires e <= u * c5, c5 == 0.00001real; p10_mono(-99, -97); p10_pos(-99); let e9 = p10(-99);
    let p2 = 2real * p; let t2 = 2real * r_pi(); let a = 1real / t2; quot(1real, t2, a); let b = 1real / p2; quot(1real, p2, b);
    assert(5.26real <= p2 <= 7.31real);
    assert(0.13real <= b <= 0.191real) by(nonlinear_arith) requires b * p2 == 1real, 5.26real <= p2 <= 7.31real;
    assert(0.159real <= a <= 0.1593real) by(nonlinear_arith) requires a * t2 == 1real, 6.28real <= t2 <= 6.2832real;
    let ab = a * b; assert(b - a == ab * (t2 - p2)) by(nonlinear_arith) requires ab == a * b, a * t2 == 1real, b * p2 == 1real;
    assert(0real < ab <= 0.0305real) by(nonlinear_arith) requires ab == a * b, 0real < a <= 0.1593real, 0real < b <= 0.191real;
    let d = 1.02real * u; abs_le(ab, t2 - p2, 0.0305real, d);
    assert(b * e9 <= 0.2real * e) by(nonlinear_arith) requires 0real < b <= 0.191real, 0real < e9 <= e;
    assert(absr(b) == b); assert(absr(q - a) <= 0.0312real * u); assert(q > 0.1real);
    sqrt_def(q); sqrt_def(a); let s = r_sqrt(q); let c = r_sqrt(a);
    assert(s >= 0.3real) by(nonlinear_arith) requires s * s > 0.09real, s >= 0real;
    assert(s <= 0.5real) by(nonlinear_arith) requires s * s < 0.25real, s >= 0real;
    assert((s - c) * (s + c) == q - a) by(nonlinear_arith) requires s * s == q, c * c == a;
    let k = absr(s - c); abs_mul(s - c, s + c); let sc = s + c; assert(k * sc == absr(q - a)); assert(k * 0.69real <= k * sc) by(nonlinear_arith) requires sc >= 0.69real, k >= 0real;
    assert(s * e <= 0.5real * e) by(nonlinear_arith) requires 0real <= s <= 0.5real, e > 0real;
}
#@fn bdmath.rs one_over_root_two_pi
##spec
    requires 0 <= num_digits <= 92
    ensures peak_ok(num_digits as int, r.v())
##begin
    broadcast use {bd_arith};
    let ghost n0 = num_digits as int;
    proof {
        pi_digits(); assert forall|p: real| #[trigger] pi_ok(n0, p) implies p > 2.6real by { ul_pos(n0); }
        assert forall|o: BigDecimal, z: BigDecimal, p: real| #[trigger] pi_ok(n0, p) && o.v() == 1real && z.v() == 2real * p implies (#[trigger] bd_div(o, z)).v() > 0real by { peak_end(n0, p, bd_div(o, z).v(), r_sqrt(bd_div(o, z).v())); }
        assert forall|o: BigDecimal, z: BigDecimal, p: real, r: real| #[trigger] pi_ok(n0, p) && o.v() == 1real && z.v() == 2real * p && #[trigger] sqrt_ok(bd_div(o, z).v(), r) implies peak_ok(n0, r) by { peak_end(n0, p, bd_div(o, z).v(), r); }
    }
#@verbatim
pub proof fn exp_quad(w: real) requires w >= 0real ensures r_exp(w) >= 1real + w + w * w / 2real {
    exp_taylor(w, 3); reveal_with_fuel(sab, 4); reveal_with_fuel(pw, 4); reveal_with_fuel(fct, 4); assert(absr(w) == w);
    assert(fct(1) == 1real && fct(2) == 2real && fct(0) == 1real); let q0 = pw(w, 0); let q1 = pw(w, 1); let q2 = pw(w, 2); assert(q0 == 1real); assert(q1 == w * q0); assert(q1 == w) by(nonlinear_arith) requires q1 == w * q0, q0 == 1real; assert(q2 == w * q1); assert(q2 == w * w);
    assert(co(K::Exp, 0) == 1real && co(K::Exp, 1) == 1real && co(K::Exp, 2) == 0.5real);
    let g = w * w; assert(g >= 0real) by(nonlinear_arith) requires g == w * w; 
    let c0 = absr(co(K::Exp, 0)); let c1 = absr(co(K::Exp, 1)); let c2 = absr(co(K::Exp, 2)); let p0 = pw(absr(w), 0); let p1 = pw(absr(w), 1); let p2 = pw(absr(w), 2); assert(p0 == 1real && p1 == w && p2 == g); assert(c0 == 1real && c1 == 1real && c2 == 0.5real);
    assert(sab(K::Exp, w, 0) == 0real); assert(sab(K::Exp, w, 1) == sab(K::Exp, w, 0) + c0 * p0); assert(sab(K::Exp, w, 2) == sab(K::Exp, w, 1) + c1 * p1); assert(sab(K::Exp, w, 3) == sab(K::Exp, w, 2) + c2 * p2);
    assert(c0 * p0 == 1real) by(nonlinear_arith) requires c0 == 1real, p0 == 1real; assert(c1 * p1 == w) by(nonlinear_arith) requires c1 == 1real, p1 == w; assert(c2 * p2 == g / 2real) by(nonlinear_arith) requires c2 == 0.5real, p2 == g;
}
/// The tolerance of an exponential of a number below zero.
pub proof fn exp_low(nd: int, x: real, y: real) requires 0 <= nd <= 92, x <= 0real, exp_ok(nd, x, y) ensures near(y, r_exp(x), 0.071real * ul(nd)), 0real < r_exp(x) <= 1real {
    exp_consts(); exp_mono(x, 0real); let w = -x; exp_quad(w); exp_neg(w); let e = r_exp(x); let f = r_exp(w); assert(-w == x); let m = em(x); ul_pos(nd); let u = ul(nd);
    assert(w * w == x * x) by(nonlinear_arith) requires w == -x; assert(x * x >= 0real) by(nonlinear_arith);
    assert(m <= 8real * f);
    assert(e * m <= 8real) by(nonlinear_arith) requires m <= 8real * f, e * f == 1real, e > 0real;
    let b = p10(-97); p10_pos(-97); p10_mono(-97, -nd - 5); p10_add(-nd, -5); assert(p10(-5) == 0.00001real) by { reveal_with_fuel(p10, 7); } let c5 = p10(-5);
    assert(b <= 0.00001real * u) by(nonlinear_arith) requires b <= u * c5, c5 == 0.00001real;
    assert(e * (0.01real * u + m * b) == 0.01real * (e * u) + (e * m) * b) by(nonlinear_arith);
    assert(e * u <= u) by(nonlinear_arith) requires 0real < e <= 1real, u > 0real;
    assert((e * m) * b <= 8real * b) by(nonlinear_arith) requires e * m <= 8real, b > 0real;
}
/// |e^a - e^b| <= |a - b| max(e^a, e^b)
pub proof fn exp_gap(a: real, b: real) requires a <= b ensures 0real <= r_exp(b) - r_exp(a) <= (b - a) * r_exp(b) {
    exp_mono(a, b); exp_tangent(a - b); exp_add(a - b, b); assert(a - b + b == a); let e = r_exp(b); let k = r_exp(a - b); exp_pos(b);
    assert(k * e >= (1real + (a - b)) * e) by(nonlinear_arith) requires k >= 1real + (a - b), e > 0real;
    assert((1real + (a - b)) * e == e - (b - a) * e) by(nonlinear_arith);
}
pub open spec fn bell(t: real) -> real { r_exp(-(t * t / 2real)) }
pub open spec fn r_dnorm(x: real, m: real, s: real) -> real { r_peak() * bell((x - m) / s) / s }
pub open spec fn dnorm_ok(nd: int, x: real, m: real, s: real, r: real) -> bool { near(r, r_dnorm(x, m, s), 0.1real * ul(nd) / absr(s)) }
pub proof fn bell_near(nd: int, t: real, z: real, y: real) requires 0 <= nd <= 92, near(z, t, absr(t) * p10(-99)), exp_ok(nd, -(z * z / 2real), y)
    ensures near(y, bell(t), 0.072real * ul(nd)), 0real < bell(t) <= 1real, y <= 1.072real, y >= -0.072real
{
    let a = -(z * z / 2real); let b = -(t * t / 2real); let e = p10(-99); p10_pos(-99); p10_mono(-99, -nd - 5); p10_add(-nd, -5); assert(p10(-5) == 0.00001real) by { reveal_with_fuel(p10, 7); } let c5 = p10(-5); ul_pos(nd); let u = ul(nd);
    assert(e <= 0.00001real * u) by(nonlinear_arith) requires e <= u * c5, c5 == 0.00001real;
    assert(z * z >= 0real) by(nonlinear_arith); assert(t * t >= 0real) by(nonlinear_arith); exp_low(nd, a, y); exp_consts(); exp_mono(b, 0real); exp_mono(a, 0real);
    let at = absr(t); let w = -b; let v = -a; let d = z - t;
    assert(at * at == t * t) by(nonlinear_arith) requires at == t || at == -t;
    abs_le(t, d, at, at * e); abs_le(d, d, at * e, at * e);
    assert(z * z - t * t == 2real * (t * d) + d * d) by(nonlinear_arith) requires d == z - t;
    assert(at * (at * e) == 2real * (w * e)) by(nonlinear_arith) requires at * at == 2real * w;
    assert((at * e) * (at * e) == 2real * (w * e) * e) by(nonlinear_arith) requires at * at == 2real * w;
    let we = w * e; assert(we >= 0real) by(nonlinear_arith) requires w >= 0real, e > 0real, we == w * e; assert(2real * we * e <= 0.0001real * we) by(nonlinear_arith) requires we >= 0real, 0real < e <= 0.00001real;
    assert(absr(a - b) <= 2.1real * we);
    assert(we <= 0.00001real * w) by(nonlinear_arith) requires w >= 0real, 0real < e <= 0.00001real, we == w * e;
    // the larger of the two is at most e^(-0.99 w)
    let h = 0.99real * w; assert(v >= h); let g = r_exp(-h); exp_mono(a, -h); exp_mono(b, -h); exp_tangent(h); exp_neg(h); let f = r_exp(h);
    assert(h * g <= 1real) by(nonlinear_arith) requires f >= 1real + h, g * f == 1real, g > 0real, h >= 0real;
    let hi = if a <= b { b } else { a }; let lo = if a <= b { a } else { b }; exp_gap(lo, hi); let q = r_exp(hi); exp_pos(hi);
    assert((hi - lo) * q <= 2.1real * we * g) by(nonlinear_arith) requires 0real <= hi - lo <= 2.1real * we, 0real < q <= g;
    assert(2.1real * we * g <= 2.2real * e) by(nonlinear_arith) requires we == w * e, h == 0.99real * w, h * g <= 1real, e > 0real, g > 0real;
}
pub proof fn dnorm_end(nd: int, x: real, m: real, s: real, z: real, y: real, k: real, r: real)
    requires 0 <= nd <= 92, s != 0real, near(z, (x - m) / s, absr((x - m) / s) * p10(-99)), exp_ok(nd, -(z * z / 2real), y), peak_ok(nd, k), near(r, k * y / s, absr(k * y / s) * p10(-99))
    ensures dnorm_ok(nd, x, m, s, r)
{
    let t = (x - m) / s; bell_near(nd, t, z, y); peak_size(); let c = r_peak(); let b = bell(t); ul_pos(nd); let u = ul(nd);
    let p = k * y; let w = c * b; abs_le(k - c, y, 0.06real * u, 1.072real); abs_le(c, y - b, 0.4real, 0.072real * u);
    assert(p - w == (k - c) * y + c * (y - b)) by(nonlinear_arith) requires p == k * y, w == c * b;
    assert(absr(p - w) <= 0.0932real * u);
    let q = p / s; quot(p, s, q); let v = w / s; quot(w, s, v); assert(w * 1real == w); assert(r_dnorm(x, m, s) == v);
    let a = absr(s); abs_mul(q - v, s); abs_mul(q, s); assert((q - v) * s == p - w) by(nonlinear_arith) requires q * s == p, v * s == w;
    let e = p10(-99); p10_pos(-99); p10_mono(-99, -nd - 5); p10_add(-nd, -5); assert(p10(-5) == 0.00001real) by { reveal_with_fuel(p10, 7); } let c5 = p10(-5);
    assert(e <= 0.00001real * u) by(nonlinear_arith) requires e <= u * c5, c5 == 0.00001real;
    assert(0real <= w <= 0.4real) by(nonlinear_arith) requires w == c * b, 0real < b <= 1real, 0real < c <= 0.4real; assert(absr(p) <= 0.5real);
    let aq = absr(q); let d = absr(q - v); let g = d + aq * e; assert(aq * e * a == absr(p) * e) by(nonlinear_arith) requires aq * a == absr(p);
    assert(absr(p) * e <= 0.5real * e) by(nonlinear_arith) requires absr(p) <= 0.5real, e > 0real;
    assert(g * a == d * a + aq * e * a) by(nonlinear_arith) requires g == d + aq * e;
    let n = 0.1real * u; let l = n / a; quot(n, a, l);
    assert(g <= l) by(nonlinear_arith) requires g * a <= l * a, a > 0real;
}
#@fn bdmath.rs dnorm
##spec
    requires 0 <= $3$ <= 92, $2$.v() != 0real
    ensures dnorm_ok($3$ as int, $0$.v(), $1$.v(), $2$.v(), r.v())
##begin
    broadcast use {bd_arith};
    let ghost x0 = $0$.v(); let ghost m0 = $1$.v(); let ghost s0 = $2$; let ghost n0 = $3$ as int;
    proof {
        assert forall|d: BigDecimal, k: BigDecimal, a: real, y: BigDecimal| d.v() == x0 - m0 && #[trigger] peak_ok(n0, k.v()) && #[trigger] exp_ok(n0, a, y.v()) && a == -(bd_div(d, s0).v() * (#[trigger] bd_div(d, s0)).v() / 2real) implies dnorm_ok(n0, x0, m0, s0.v(), bd_div(bd_mul(k, y), s0).v()) by { let z = bd_div(d, s0).v(); dnorm_end(n0, x0, m0, s0.v(), z, y.v(), k.v(), bd_div(bd_mul(k, y), s0).v()); }
let z = bd_div(bd_sub($0$, $1$), s0).v(); let g = z * z; let h = -g; assert(g >= 0real) by(nonlinear_arith) requires g == z * z; assert((-z) * z == h) by(nonlinear_arith) requires h == -(z * z); assert(z * (-z) == h) by(nonlinear_arith) requires h == -(z * z);
        assert(h * 0.5real == -(g / 2real)) by(nonlinear_arith) requires h == -g; assert(g * 0.5real == g / 2real) by(nonlinear_arith); assert(0.5real * h == -(g / 2real)) by(nonlinear_arith) requires h == -g;
    }
