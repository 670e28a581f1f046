#@verbatim
/// Half a unit of the d-th digit.
pub open spec fn half_unit(d: int) -> real { 5real * p10(-d - 1) }
pub open spec fn rounds(x: BigDecimal, d: int, r: BigDecimal) -> bool {
    if d < 0 || x.sc() <= d { r.v() == x.v() && r.sc() == x.sc() }
    else { r.sc() == d && near(r.v(), x.v(), half_unit(d)) && (absr(r.v() - x.v()) == half_unit(d) ==> absr(r.v()) > absr(x.v())) }
}
/// The integer step: adding half of m and dropping the fraction.
pub proof fn round_int(i: int, m: int, h: int, q: int)
    requires m > 0, m == 2 * h, q == tdiv(i + h, m) && i >= 0 || q == tdiv(i - h, m) && i <= 0
    ensures q * m - i <= h, i - q * m <= h, q * m - i == h ==> i > 0, i - q * m == h ==> i < 0,
        i > 0 ==> q >= 0, i <= 0 ==> q <= 0
{
    if i >= 0 && q == tdiv(i + h, m) {
        let a = i + h;
        assert(q * m <= a && a < q * m + m && q >= 0) by(nonlinear_arith) requires m > 0, a >= 0, q == a / m;
        if i == 0 { assert(q == 0) by(nonlinear_arith) requires q * m <= h, m == 2 * h, m > 0, q >= 0; assert(q * m == 0) by(nonlinear_arith) requires q == 0; }
    } else {
        let a = h - i; let q0 = a / m;
        assert(q0 * m <= a && a < q0 * m + m && q0 >= 0) by(nonlinear_arith) requires m > 0, a >= 0, q0 == a / m;
        assert(q == -q0);
        assert(q * m == -(q0 * m)) by(nonlinear_arith) requires q == -q0;
        if i == 0 { assert(q == 0) by(nonlinear_arith) requires q0 * m <= h, m == 2 * h, m > 0, q0 >= 0, q == -q0; assert(q * m == 0) by(nonlinear_arith) requires q == 0; }
    }
}
#@fn bdmath.rs round
##spec
    ensures rounds($0$, $1$ as int, r)
##begin
    broadcast use {bd_value, bd_arith};
    proof { 
        let x0 = $0$; let d = $1$ as int; let s = x0.sc(); let i = x0.iv();
        if 0 <= d < s {
            let m = ip10((s - d) as nat); let h = 5 * ip10((s - d - 1) as nat);
            p10_int((s - d) as nat); p10_int((s - d - 1) as nat);
            p10_add(-s, s - d); p10_add(-s, s - d - 1); p10_add(-d - 1, d + 1 - s); p10_add(s, -s); p10_add(s, -d - 1);
            p10_pos(-s); p10_pos(s);
            assert forall|x1: BigDecimal, z: BigDecimal, q: BigDecimal| x1.iv() == i && x1.sc() == s && (z.iv() == 5 || z.iv() == -5) && (i > 0 ==> z.iv() == 5) && (i < 0 ==> z.iv() == -5) && z.sc() == d + 1 && q.sc() == d && #[trigger] q.iv() == tdiv((#[trigger] bd_add(x1, z)).iv(), m) implies rounds(x0, d, q) by {
                round_final(x1, d, z.iv(), bd_add(x1, z), q);
            }
        }
    }
#@verbatim
pub proof fn round_final(x: BigDecimal, d: int, f: int, y: BigDecimal, q: BigDecimal)
    requires 0 <= d < x.sc(), f == 5 || f == -5, x.iv() > 0 ==> f == 5, x.iv() < 0 ==> f == -5, y.sc() == x.sc(), y.v() == x.v() + (f as real) * p10(-d - 1), q.sc() == d, q.iv() == tdiv(y.iv(), ip10((x.sc() - d) as nat))
    ensures rounds(x, d, q)
{
    broadcast use bd_value;
    let s = x.sc(); let i = x.iv(); let u = p10(-s);
    let m = ip10((s - d) as nat); let k = ip10((s - d - 1) as nat);
    p10_int((s - d) as nat); p10_int((s - d - 1) as nat);
    assert(m == 10 * k);
    p10_pos(-s);
    p10_add(-s, s - d); p10_add(-s, s - d - 1);
    // 10^-d = m u, 10^(-d-1) = k u
    let mr = m as real; let kr = k as real; let ir = i as real; let fr = f as real; let yr = y.iv() as real;
    assert(p10(-d) == u * mr);
    assert(p10(-d - 1) == u * kr);
    assert(yr * u == ir * u + fr * (u * kr));
    assert(yr == ir + fr * kr) by(nonlinear_arith) requires yr * u == ir * u + fr * (u * kr), u > 0real;
    assert(y.iv() == i + f * k) by { assert((i + f * k) as real == ir + fr * kr) by(nonlinear_arith) requires ir == i as real, fr == f as real, kr == k as real; }
    let h = 5 * k;
    assert(f * k == if f == 5 { h } else { -h }) by(nonlinear_arith) requires f == 5 || f == -5, h == 5 * k;
    round_int(i, m, h, q.iv());
    let qi = q.iv(); let qr = qi as real; let hr = h as real; 
    assert(q.v() == qr * (u * mr));
    let e = qi * m - i; let er = e as real;
    assert(er == qr * mr - ir) by { assert((qi * m) as real == qr * mr) by(nonlinear_arith) requires qr == qi as real, mr == m as real; }
    assert(q.v() - x.v() == er * u) by(nonlinear_arith) requires q.v() == qr * (u * mr), x.v() == ir * u, er == qr * mr - ir;
    assert(half_unit(d) == hr * u) by(nonlinear_arith) requires half_unit(d) == 5real * (u * kr), hr == 5real * kr;
    assert(er * u <= hr * u && -(er * u) <= hr * u) by(nonlinear_arith) requires er <= hr, -er <= hr, u > 0real;
    assert(er * u == hr * u ==> er == hr) by(nonlinear_arith) requires u > 0real;
    assert(-(er * u) == hr * u ==> -er == hr) by(nonlinear_arith) requires u > 0real;
    assert(ir > 0real ==> ir * u > 0real) by(nonlinear_arith) requires u > 0real;
    assert(ir < 0real ==> ir * u < 0real) by(nonlinear_arith) requires u > 0real;
    assert(hr > 0real ==> hr * u > 0real) by(nonlinear_arith) requires u > 0real;
}
