#@verbatim
#[verifier::external_body]
pub fn v_vec_elem(x: BigDecimal, n: usize) -> (r: Vec<BigDecimal>) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> r@[k] == x { unimplemented!() }
#[verifier::external_body] pub fn v_to_vec(s: &[BigDecimal]) -> (r: Vec<BigDecimal>) ensures r@ == s@ { unimplemented!() }
pub open spec fn dv(s: Seq<BigDecimal>) -> Seq<real> { Seq::new(s.len(), |k: int| s[k].v()) }
pub open spec fn pw(x: real, n: nat) -> real decreases n { if n == 0 { 1real } else { x * pw(x, (n - 1) as nat) } }
/// The value of the first n terms of a polynomial.
pub open spec fn pe(t: Seq<real>, x: real, n: nat) -> real decreases n { if n == 0 { 0real } else { pe(t, x, (n - 1) as nat) + t[n - 1] * pw(x, (n - 1) as nat) } }
/// Horner's scheme from term n on.
pub open spec fn ho(t: Seq<real>, x: real, n: nat) -> real decreases t.len() - n { if n >= t.len() { 0real } else { t[n as int] + x * ho(t, x, n + 1) } }
pub proof fn horner(t: Seq<real>, x: real, n: nat) requires n <= t.len() ensures pe(t, x, t.len()) == pe(t, x, n) + pw(x, n) * ho(t, x, n) decreases t.len() - n {
    if n < t.len() {
        horner(t, x, n + 1);
        let h = ho(t, x, n + 1); let p = pw(x, n); let a = t[n as int];
        assert(p * (a + x * h) == a * p + (x * p) * h) by(nonlinear_arith);
    } else { assert(pw(x, n) * 0real == 0real) by(nonlinear_arith); }
}
/// What rounding to nd digits may lose.
pub open spec fn hu(nd: int) -> real { if nd < 0 { 0real } else { half_unit(nd) } }
pub proof fn hu_pos(nd: int) ensures hu(nd) >= 0real { p10_pos(-nd - 1); assert(5real * p10(-nd - 1) >= 0real) by(nonlinear_arith) requires p10(-nd - 1) > 0real; }
pub broadcast proof fn round_near(x: BigDecimal, d: int, r: BigDecimal) ensures #[trigger] rounds(x, d, r) ==> near(r.v(), x.v(), hu(d)) { hu_pos(d); }
pub broadcast proof fn round_zero(x: BigDecimal, d: int, r: BigDecimal) ensures #[trigger] rounds(x, d, r) && x.v() == 0real ==> r.v() == 0real {
    if rounds(x, d, r) && x.v() == 0real && d >= 0 && x.sc() > d {
        bd_value(r);
        let u = p10(-d - 1); p10_pos(-d - 1); p10_step(-d - 1);
        let i = r.iv(); let ir = i as real;
        assert(r.v() == ir * (10real * u));
        if i >= 1 { assert(ir * (10real * u) > 5real * u) by(nonlinear_arith) requires ir >= 1real, u > 0real; }
        if i <= -1 { assert(ir * (10real * u) < -(5real * u)) by(nonlinear_arith) requires ir <= -1real, u > 0real; }
        assert(0real * (10real * u) == 0real) by(nonlinear_arith);
    }
}
// ---- divided differences: t[i][j] is the value in place j after i passes
pub open spec fn quo(x: Seq<real>, t: Seq<Seq<real>>, i: int, j: int) -> real { (t[i][j] - t[i][j - 1]) / (x[j] - x[j - 1 - i]) }
pub open spec fn cell(x: Seq<real>, t: Seq<Seq<real>>, nd: int, i: int, j: int) -> bool { near(t[i + 1][j], quo(x, t, i, j), hu(nd) + absr(quo(x, t, i, j)) * p10(-99)) }
pub open spec fn is_table(x: Seq<real>, y: Seq<real>, t: Seq<Seq<real>>, nd: int) -> bool {
    &&& t.len() >= 1 && t[0] =~= y
    &&& forall|i: int, j: int| 0 <= i < t.len() - 1 && i < j < y.len() ==> #[trigger] cell(x, t, nd, i, j)
}
pub open spec fn distinct(x: Seq<real>, k: int) -> bool { forall|a: int, b: int| 0 <= a < b < k ==> #[trigger] x[a] != #[trigger] x[b] }
// ---- the trace of from_points: n[i] is "newton" and s[i] is "terms" before step i
pub open spec fn nstep(o: Seq<real>, n: Seq<real>, c: real, h: real) -> bool {
    &&& n.len() == o.len() && n[0] == o[0] * c
    &&& forall|j: int| 1 <= j < o.len() ==> near(#[trigger] n[j], o[j] * c + o[j - 1], h)
    &&& forall|j: int| 1 <= j < o.len() && o[j] == 0real && o[j - 1] == 0real ==> #[trigger] n[j] == 0real
}
pub open spec fn tstep(o: Seq<real>, n: Seq<real>, p: Seq<real>, c: real, h: real) -> bool {
    n.len() == o.len() && forall|j: int| 0 <= j < o.len() ==> near(#[trigger] n[j], o[j] + p[j] * c, h)
}
pub open spec fn trace(x: Seq<real>, c: Seq<real>, n: Seq<Seq<real>>, s: Seq<Seq<real>>, k: nat, m: int, h: real) -> bool {
    &&& 0 <= m <= k && n.len() == m + 1 && s.len() == m + 1
    &&& forall|i: int| 0 <= i <= m ==> (#[trigger] n[i]).len() == k && s[i].len() == k
    &&& n[0][0] == 1real && forall|j: int| 0 < j < k ==> n[0][j] == 0real
    &&& forall|j: int| 0 <= j < k ==> s[0][j] == 0real
    &&& forall|i: int| 0 <= i < m ==> #[trigger] nstep(n[i], n[i + 1], -x[i], h)
    &&& forall|i: int| 0 <= i < m ==> #[trigger] tstep(s[i], s[i + 1], n[i], c[i], h)
}
/// Product of (x - x[l]) for lo <= l < hi.
pub open spec fn np(xs: Seq<real>, x: real, lo: int, hi: int) -> real decreases hi - lo { if hi <= lo { 1real } else { np(xs, x, lo, hi - 1) * (x - xs[hi - 1]) } }
/// Newton's form from lo to hi (hi included).
pub open spec fn nf(xs: Seq<real>, t: Seq<Seq<real>>, x: real, lo: int, hi: int) -> real decreases hi - lo + 1 {
    if hi < lo { 0real } else { nf(xs, t, x, lo, hi - 1) + t[hi - lo][hi] * np(xs, x, lo, hi) }
}
// ---- bounds
pub open spec fn ps(w: real, n: nat) -> real decreases n { if n == 0 { 0real } else { ps(w, (n - 1) as nat) + pw(w, (n - 1) as nat) } }
/// Loss in the product of the differences after i steps.
pub open spec fn en(w: real, h: real, k: nat, i: nat) -> real decreases i { if i == 0 { 0real } else { w * en(w, h, k, (i - 1) as nat) + h * ps(w, k) } }
/// Loss in the terms after i steps.
pub open spec fn te(w: real, m: real, h: real, k: nat, i: nat) -> real decreases i { if i == 0 { 0real } else { te(w, m, h, k, (i - 1) as nat) + h * ps(w, k) + m * en(w, h, k, (i - 1) as nat) } }
/// Loss in Newton's form over n steps of a chain, d the loss of one divided difference.
pub open spec fn er(w: real, d: real, n: nat) -> real decreases n { if n == 0 { 0real } else { er(w, d, (n - 1) as nat) + d * w * pw(w, (n - 1) as nat) } }
pub open spec fn sr(w: real, d: real, n: nat) -> real decreases n { if n == 0 { 0real } else { sr(w, d, (n - 1) as nat) + er(w, d, n) } }
/// All abscissae and their differences are at most w, all divided differences at most m.
pub open spec fn within(x: Seq<real>, t: Seq<Seq<real>>, k: int, w: real, m: real) -> bool {
    &&& w >= 0real && m >= 0real
    &&& forall|a: int, b: int| 0 <= a < k && 0 <= b < k ==> absr(#[trigger] x[a] - #[trigger] x[b]) <= w
    &&& forall|a: int| 0 <= a < k ==> absr(#[trigger] x[a]) <= w
    &&& forall|i: int, j: int| 0 <= i < k - 1 && i < j < k ==> absr(#[trigger] quo(x, t, i, j)) <= m
    &&& forall|i: int| 0 <= i < k ==> absr(#[trigger] t[i][i]) <= m
}
/// The polynomial with these terms takes the values y at the points x up to the accumulated rounding.
pub open spec fn fits(x: Seq<real>, y: Seq<real>, t: Seq<Seq<real>>, terms: Seq<real>, nd: int) -> bool {
    forall|w: real, m: real, a: int| #[trigger] within(x, t, y.len() as int, w, m) && 0 <= a < y.len() ==> near(pe(terms, x[a], y.len()), #[trigger] y[a], te(w, m, hu(nd), y.len(), y.len()) + sr(w, hu(nd) + m * p10(-99), a as nat))
}
/// What a polynomial made from points is.
pub open spec fn interpolates(x: Seq<real>, y: Seq<real>, terms: Seq<real>, nd: int) -> bool {
    terms.len() == y.len() && exists|t: Seq<Seq<real>>| #[trigger] is_table(x, y, t, nd) && t.len() == y.len() && fits(x, y, t, terms, nd)
}
// ---- lemmas
pub proof fn abs_mul(a: real, b: real) ensures absr(a * b) == absr(a) * absr(b) { assert(absr(a * b) == absr(a) * absr(b)) by(nonlinear_arith); }
pub proof fn abs_le(a: real, b: real, p: real, q: real) requires absr(a) <= p, absr(b) <= q ensures absr(a * b) <= p * q { abs_mul(a, b); assert(absr(a) * absr(b) <= p * q) by(nonlinear_arith) requires 0real <= absr(a) <= p, 0real <= absr(b) <= q; }
pub proof fn pw_bound(x: real, w: real, n: nat) requires absr(x) <= w ensures absr(pw(x, n)) <= pw(w, n) decreases n { if n > 0 { pw_bound(x, w, (n - 1) as nat); abs_le(x, pw(x, (n - 1) as nat), w, pw(w, (n - 1) as nat)); } }
pub proof fn np_bound(xs: Seq<real>, x: real, w: real, lo: int, hi: int) requires w >= 0real, forall|l: int| lo <= l < hi ==> absr(x - #[trigger] xs[l]) <= w ensures absr(np(xs, x, lo, hi)) <= pw(w, (if hi > lo { hi - lo } else { 0 }) as nat) decreases hi - lo {
    if hi > lo { np_bound(xs, x, w, lo, hi - 1); let p = pw(w, (hi - 1 - lo) as nat); abs_le(np(xs, x, lo, hi - 1), x - xs[hi - 1], p, w); assert(p * w == w * p) by(nonlinear_arith); }
}
pub proof fn np_front(xs: Seq<real>, x: real, lo: int, hi: int) requires lo < hi ensures np(xs, x, lo, hi) == (x - xs[lo]) * np(xs, x, lo + 1, hi) decreases hi - lo {
    if hi > lo + 1 { np_front(xs, x, lo, hi - 1); let a = x - xs[lo]; let b = np(xs, x, lo + 1, hi - 1); let c = x - xs[hi - 1]; assert((a * b) * c == a * (b * c)) by(nonlinear_arith); }
    else { assert(np(xs, x, lo, lo) == 1real); assert(np(xs, x, lo + 1, hi) == 1real); let a = x - xs[lo]; assert(1real * a == a * 1real) by(nonlinear_arith); }
}
/// One step of "newton" multiplies by (x + c).
pub proof fn nstep_value(o: Seq<real>, n: Seq<real>, c: real, h: real, x: real, w: real, m: nat)
    requires nstep(o, n, c, h), 1 <= m <= o.len(), absr(x) <= w, h >= 0real
    ensures near(pe(n, x, m), (x + c) * pe(o, x, m) - o[m - 1] * pw(x, m), h * ps(w, m))
    decreases m
{
    let l = (m - 1) as nat; let p = pw(x, l); let a = o[l as int]; let b = pe(o, x, l); 
    pw_bound(x, w, l);
    assert(h * ps(w, m) == h * ps(w, l) + h * pw(w, l)) by(nonlinear_arith) requires ps(w, m) == ps(w, l) + pw(w, l);
    if m > 1 {
        nstep_value(o, n, c, h, x, w, l);
        let a1 = o[l - 1]; let e = n[l as int] - (a * c + a1);
        assert(near(n[l as int], o[l as int] * c + o[l - 1], h));
        abs_le(e, p, h, pw(w, l));
        assert((x + c) * (b + a * p) - a * (x * p) == (x + c) * b - a1 * p + (a * c + a1) * p) by(nonlinear_arith);
        assert(n[l as int] * p == (a * c + a1) * p + e * p) by(nonlinear_arith) requires e == n[l as int] - (a * c + a1);
    } else {
        assert(pe(o, x, 0) == 0real); assert(pe(n, x, 0) == 0real); assert(p == 1real);
        assert(pe(o, x, 1) == pe(o, x, 0) + o[0] * pw(x, 0)); assert(pe(n, x, 1) == pe(n, x, 0) + n[0] * pw(x, 0));
        assert(pw(x, 1) == x * pw(x, 0));
        assert(a * 1real == a) by(nonlinear_arith); assert(n[0] * 1real == n[0]) by(nonlinear_arith);
        assert(x * 1real == x) by(nonlinear_arith);
        assert((x + c) * a - a * x == a * c) by(nonlinear_arith);
        assert(ps(w, 0) == 0real); assert(pw(w, 0) == 1real);
        assert(h * 0real + h * 1real == h) by(nonlinear_arith);
    }
}
pub proof fn tstep_value(o: Seq<real>, n: Seq<real>, p: Seq<real>, c: real, h: real, x: real, w: real, m: nat)
    requires tstep(o, n, p, c, h), m <= o.len(), absr(x) <= w, h >= 0real
    ensures near(pe(n, x, m), pe(o, x, m) + pe(p, x, m) * c, h * ps(w, m))
    decreases m
{
    if m > 0 {
        let l = (m - 1) as nat; let q = pw(x, l);
        tstep_value(o, n, p, c, h, x, w, l);
        pw_bound(x, w, l);
        let e = n[l as int] - (o[l as int] + p[l as int] * c);
        abs_le(e, q, h, pw(w, l));
        assert(h * ps(w, m) == h * ps(w, l) + h * pw(w, l)) by(nonlinear_arith) requires ps(w, m) == ps(w, l) + pw(w, l);
        let b = pe(p, x, l); let pl = p[l as int]; let ol = o[l as int]; let nl = n[l as int];
        assert(nl * q == ol * q + (pl * q) * c + e * q) by(nonlinear_arith) requires e == nl - (ol + pl * c);
        assert((b + pl * q) * c == b * c + (pl * q) * c) by(nonlinear_arith);
    } else { assert(pe(p, x, 0) * c == 0real) by(nonlinear_arith) requires pe(p, x, 0) == 0real; assert(h * ps(w, 0) == 0real) by(nonlinear_arith) requires ps(w, 0) == 0real; }
}
pub proof fn pe_zero(t: Seq<real>, x: real, n: nat) requires n <= t.len(), forall|j: int| 0 <= j < n ==> #[trigger] t[j] == 0real ensures pe(t, x, n) == 0real decreases n {
    if n > 0 { pe_zero(t, x, (n - 1) as nat); assert(0real * pw(x, (n - 1) as nat) == 0real) by(nonlinear_arith); assert(t[n - 1] == 0real); }
}
pub proof fn pe_one(t: Seq<real>, x: real, n: nat) requires 1 <= n <= t.len(), t[0] == 1real, forall|j: int| 0 < j < n ==> #[trigger] t[j] == 0real ensures pe(t, x, n) == 1real decreases n {
    if n > 1 { pe_one(t, x, (n - 1) as nat); assert(0real * pw(x, (n - 1) as nat) == 0real) by(nonlinear_arith); assert(t[n - 1] == 0real); }
    else { assert(pe(t, x, 0) == 0real); assert(pw(x, 0) == 1real); assert(1real * 1real == 1real); }
}
pub proof fn n_zero(x: Seq<real>, c: Seq<real>, n: Seq<Seq<real>>, s: Seq<Seq<real>>, k: nat, m: int, h: real, i: int)
    requires trace(x, c, n, s, k, m, h), 0 <= i <= m
    ensures forall|j: int| i < j < k ==> #[trigger] n[i][j] == 0real
    decreases i
{
    if i > 0 {
        n_zero(x, c, n, s, k, m, h, i - 1);
        assert(nstep(n[i - 1], n[i - 1 + 1], -x[i - 1], h));
        assert forall|j: int| i < j < k implies #[trigger] n[i][j] == 0real by { assert(n[i - 1].len() == k); assert(n[i - 1][j] == 0real && n[i - 1][j - 1] == 0real); }
    }
}
pub proof fn n_value(x: Seq<real>, c: Seq<real>, n: Seq<Seq<real>>, s: Seq<Seq<real>>, k: nat, m: int, h: real, i: int, a: int, w: real)
    requires trace(x, c, n, s, k, m, h), 0 <= i <= m, i < k, k >= 1, 0 <= a < k, h >= 0real, w >= 0real, absr(x[a]) <= w, forall|l: int| 0 <= l < k ==> absr(x[a] - #[trigger] x[l]) <= w
    ensures near(pe(n[i], x[a], k), np(x, x[a], 0, i), en(w, h, k, i as nat))
    decreases i
{
    if i == 0 { assert(n[0].len() == k); pe_one(n[0], x[a], k); }
    else {
        n_value(x, c, n, s, k, m, h, i - 1, a, w);
        n_zero(x, c, n, s, k, m, h, i - 1);
        let o = n[i - 1]; let xa = x[a]; let d = xa - x[i - 1];
        assert(nstep(n[i - 1], n[i - 1 + 1], -x[i - 1], h));
        assert(n[i - 1].len() == k); assert(n[i].len() == k);
        nstep_value(o, n[i], -x[i - 1], h, xa, w, k);
        assert(o[k - 1] == 0real);
        assert(o[k - 1] * pw(xa, k) == 0real) by(nonlinear_arith) requires o[k - 1] == 0real;
        let p = pe(o, xa, k); let q = np(x, xa, 0, i - 1); let e = en(w, h, k, (i - 1) as nat);
        abs_le(d, p - q, w, e);
        assert(d * (p - q) == d * p - q * d) by(nonlinear_arith);
        assert(xa + -x[i - 1] == d);
    }
}
pub proof fn t_value(x: Seq<real>, c: Seq<real>, n: Seq<Seq<real>>, s: Seq<Seq<real>>, k: nat, m: int, h: real, i: int, a: int, w: real, mm: real, t: Seq<Seq<real>>)
    requires trace(x, c, n, s, k, m, h), 0 <= i <= m, k >= 1, 0 <= a < k, h >= 0real, within(x, t, k as int, w, mm), forall|l: int| 0 <= l < k ==> c[l] == #[trigger] t[l][l]
    ensures near(pe(s[i], x[a], k), nf(x, t, x[a], 0, i - 1), te(w, mm, h, k, i as nat))
    decreases i
{
    if i == 0 { assert(n[0].len() == k); assert(s[0].len() == k); pe_zero(s[0], x[a], k); }
    else {
        t_value(x, c, n, s, k, m, h, i - 1, a, w, mm, t);
        assert(absr(x[a]) <= w);
        assert forall|l: int| 0 <= l < k implies absr(x[a] - #[trigger] x[l]) <= w by { }
        n_value(x, c, n, s, k, m, h, i - 1, a, w);
        assert(n[i - 1].len() == k); assert(n[i].len() == k);
        assert(tstep(s[i - 1], s[i - 1 + 1], n[i - 1], c[i - 1], h));
        let xa = x[a];
        tstep_value(s[i - 1], s[i], n[i - 1], c[i - 1], h, xa, w, k);
        let p = pe(n[i - 1], xa, k); let q = np(x, xa, 0, i - 1); let ci = t[i - 1][i - 1];
        assert(c[i - 1] == ci);
        abs_le(ci, p - q, mm, en(w, h, k, (i - 1) as nat));
        assert(ci * (p - q) == p * ci - ci * q) by(nonlinear_arith);
    }
}
/// The chain of one column: with and without the point lo.
pub proof fn chain(x: Seq<real>, y: Seq<real>, t: Seq<Seq<real>>, nd: int, w: real, mm: real, a: int, lo: int, l: int)
    requires is_table(x, y, t, nd), t.len() == y.len(), y.len() <= x.len(), distinct(x, y.len() as int), within(x, t, y.len() as int, w, mm), 0 <= lo <= l < y.len(), 0 <= a < y.len()
    ensures near(nf(x, t, x[a], lo, l), nf(x, t, x[a], lo + 1, l) + t[l - lo][l] * np(x, x[a], lo + 1, l + 1), er(w, hu(nd) + mm * p10(-99), (l - lo) as nat))
    decreases l - lo
{
    let xa = x[a]; let d = hu(nd) + mm * p10(-99);
    p10_pos(-99); hu_pos(nd);
    if l == lo {
        assert(nf(x, t, xa, lo, lo) == nf(x, t, xa, lo, lo - 1) + t[0][lo] * np(x, xa, lo, lo));
        assert(np(x, xa, lo, lo) == 1real); assert(np(x, xa, lo + 1, lo + 1) == 1real);
        assert(nf(x, t, xa, lo + 1, lo) == 0real);
    } else {
        chain(x, y, t, nd, w, mm, a, lo, l - 1);
        let i = l - lo - 1;
        assert(cell(x, t, nd, i, l));
        let q = quo(x, t, i, l); let g = x[l] - x[lo]; let v = t[i + 1][l]; let num = t[i][l] - t[i][l - 1];
        assert(absr(q) <= mm);
        assert(absr(q) * p10(-99) <= mm * p10(-99)) by(nonlinear_arith) requires absr(q) <= mm, p10(-99) > 0real;
        assert(g != 0real) by { assert(x[lo] != x[l]); }
        assert(q * g == num) by(nonlinear_arith) requires q == num / g, g != 0real;
        let rho = (v - q) * g;
        assert(rho == v * g - num) by(nonlinear_arith) requires rho == (v - q) * g, q * g == num;
        assert(absr(x[l] - x[lo]) <= w);
        abs_le(v - q, g, d, w);
        let p = np(x, xa, lo + 1, l);
        assert forall|k: int| lo + 1 <= k < l implies absr(xa - #[trigger] x[k]) <= w by { }
        np_bound(x, xa, w, lo + 1, l);
        abs_le(rho, p, d * w, pw(w, (l - lo - 1) as nat));
        np_front(x, xa, lo, l);
        assert(np(x, xa, lo, l) == (xa - x[lo]) * p);
        assert(np(x, xa, lo + 1, l + 1) == p * (xa - x[l]));
        assert(nf(x, t, xa, lo, l) == nf(x, t, xa, lo, l - 1) + v * ((xa - x[lo]) * p));
        assert(nf(x, t, xa, lo + 1, l) == nf(x, t, xa, lo + 1, l - 1) + t[i][l] * p);
        let b0 = t[i][l - 1]; let b1 = t[i][l]; let xl = x[l]; let x0 = x[lo];
        assert(v * ((xa - x0) * p) == v * (p * (xa - xl)) + (v * (xl - x0) - rho) * p + rho * p) by(nonlinear_arith);
        assert(v * (xl - x0) - rho == b1 - b0);
        assert((b1 - b0) * p == b1 * p - b0 * p) by(nonlinear_arith);
    }
}
pub proof fn newton_form(x: Seq<real>, y: Seq<real>, t: Seq<Seq<real>>, nd: int, w: real, mm: real, a: int, lo: int)
    requires is_table(x, y, t, nd), t.len() == y.len(), y.len() <= x.len(), distinct(x, y.len() as int), within(x, t, y.len() as int, w, mm), 0 <= lo <= a < y.len()
    ensures near(nf(x, t, x[a], lo, a), y[a], sr(w, hu(nd) + mm * p10(-99), (a - lo) as nat))
    decreases a - lo
{
    if lo == a { assert(np(x, x[a], a, a) == 1real); assert(nf(x, t, x[a], a, a) == nf(x, t, x[a], a, a - 1) + t[0][a] * 1real); }
    else {
        newton_form(x, y, t, nd, w, mm, a, lo + 1);
        chain(x, y, t, nd, w, mm, a, lo, a);
        let p = np(x, x[a], lo + 1, a);
        assert(np(x, x[a], lo + 1, a + 1) == p * (x[a] - x[a]));
        assert(p * 0real == 0real) by(nonlinear_arith);
        assert(t[a - lo][a] * 0real == 0real) by(nonlinear_arith);
    }
}
/// At the point a the later terms of Newton's form vanish.
pub proof fn nf_tail(x: Seq<real>, t: Seq<Seq<real>>, a: int, l: int) requires 0 <= a <= l ensures nf(x, t, x[a], 0, l) == nf(x, t, x[a], 0, a) decreases l - a {
    if l > a { nf_tail(x, t, a, l - 1); np_zero(x, a, l); assert(t[l][l] * 0real == 0real) by(nonlinear_arith); }
}
pub proof fn np_zero(x: Seq<real>, a: int, hi: int) requires 0 <= a < hi ensures np(x, x[a], 0, hi) == 0real decreases hi {
    if hi - 1 > a { np_zero(x, a, hi - 1); assert(0real * (x[a] - x[hi - 1]) == 0real) by(nonlinear_arith); }
    else { let p = np(x, x[a], 0, hi - 1); assert(p * 0real == 0real) by(nonlinear_arith); }
}
pub proof fn interpolation(x: Seq<real>, y: Seq<real>, t: Seq<Seq<real>>, c: Seq<real>, n: Seq<Seq<real>>, s: Seq<Seq<real>>, nd: int)
    requires is_table(x, y, t, nd), t.len() == y.len(), 1 <= y.len() <= x.len(), distinct(x, y.len() as int), trace(x, c, n, s, y.len(), y.len() as int, hu(nd)), forall|l: int| 0 <= l < y.len() ==> c[l] == #[trigger] t[l][l]
    ensures fits(x, y, t, s[y.len() as int], nd)
{
    let k = y.len();
    assert forall|w: real, m: real, a: int| #[trigger] within(x, t, k as int, w, m) && 0 <= a < k implies near(pe(s[k as int], x[a], k), #[trigger] y[a], te(w, m, hu(nd), k, k) + sr(w, hu(nd) + m * p10(-99), a as nat)) by {
        hu_pos(nd);
        t_value(x, c, n, s, k, k as int, hu(nd), k as int, a, w, m, t);
        nf_tail(x, t, a, k - 1);
        newton_form(x, y, t, nd, w, m, a, 0);
    }
}
#@struct polynomial.rs Polynomial
#@fn polynomial.rs divided_differences
##spec
    requires old($1$)@.len() >= 1, $0$@.len() >= old($1$)@.len(), distinct(dv($0$@), old($1$)@.len() as int)
    ensures final($1$)@.len() == old($1$)@.len(), exists|t: Seq<Seq<real>>| #[trigger] is_table(dv($0$@), dv(old($1$)@), t, $2$ as int) && t.len() == old($1$)@.len() && forall|l: int| 0 <= l < t.len() ==> dv(final($1$)@)[l] == #[trigger] t[l][l]
##begin
    broadcast use {bd_arith, round_near};
    let ghost x0 = dv($0$@); let ghost y0 = dv($1$@); let ghost n = $1$@.len(); let ghost nd = $2$ as int;
    let ghost mut t = seq![y0];
##loop 0
    invariant n >= 1, $0$@.len() >= n, $1$@.len() == n, y0.len() == n, distinct(x0, n as int), x0 == dv($0$@), nd == $2$, 0 <= __i0 <= __n0 == n - 1, k == n, is_table(x0, y0, t, nd), t.len() == __i0 + 1,
        forall|j: int| 0 <= j < n ==> (#[trigger] $1$@[j]).v() == t[if j < __i0 { j } else { __i0 as int }][j]
    decreases __n0 - __i0
##loop 1
    invariant n >= 1, $0$@.len() >= n, $1$@.len() == n, y0.len() == n, distinct(x0, n as int), x0 == dv($0$@), nd == $2$, 0 < __i0 <= n - 1, k == n, i == __i0 - 1, is_table(x0, y0, t, nd), t.len() == __i0, __n1 == __i0 - 1, __n1 <= __i1 <= n - 1,
        forall|j: int| 0 <= j <= __i1 ==> (#[trigger] $1$@[j]).v() == t[if j < __i0 - 1 { j } else { __i0 - 1 }][j],
        forall|j: int| __i1 < j < n ==> near((#[trigger] $1$@[j]).v(), quo(x0, t, __i0 - 1, j), hu(nd) + absr(quo(x0, t, __i0 - 1, j)) * p10(-99))
    decreases __i1
##loopbegin 1
    broadcast use {bd_arith, round_near};
    proof { assert(x0[__i1 - (__i0 - 1) - 1] != x0[__i1 as int]); }
##loopafter 1
    proof {
        let t1 = t;
        t = t.push(dv($1$@));
        assert forall|i: int, j: int| 0 <= i < t.len() - 1 && i < j < n implies #[trigger] cell(x0, t, nd, i, j) by {
            if i < t1.len() - 1 { assert(cell(x0, t1, nd, i, j)); assert(t[i + 1] == t1[i + 1] && t[i] == t1[i]); }
            else { assert(t[i] == t1[i]); assert(t[i + 1] == dv($1$@)); assert(quo(x0, t, i, j) == quo(x0, t1, i, j)); }
        }
    }
##loopafter 0
    proof {
        assert forall|l: int| 0 <= l < t.len() implies dv($1$@)[l] == #[trigger] t[l][l] by { assert($1$@[l].v() == t[if l < n - 1 { l } else { n - 1 }][l]); }
    }
#@method polynomial.rs Polynomial from_points
##spec
    requires $1$@.len() >= 1, $0$@.len() >= $1$@.len(), distinct(dv($0$@), $1$@.len() as int)
    ensures interpolates(dv($0$@), dv($1$@), dv(r.terms@), $2$ as int)
##begin
    broadcast use {bd_arith, round_near, round_zero};
    let ghost x0 = dv($0$@); let ghost y0 = dv($1$@); let ghost kk = $1$@.len(); let ghost h = hu($2$ as int);
    let ghost mut gn: Seq<Seq<real>> = seq![]; let ghost mut gs: Seq<Seq<real>> = seq![]; let ghost mut cv: real = 0real;
##loopbefore 0
    proof { gn = seq![dv(newton@)]; gs = seq![dv(terms@)]; }
    let ghost cc = dv(dd@);
##loop 0
    invariant kk >= 1, $0$@.len() >= kk, dd@.len() == kk, newton@.len() == kk, terms@.len() == kk, x0 == dv($0$@), cc == dv(dd@), h == hu($2$ as int), 0 <= __i0 <= __n0 == kk, k == kk,
        trace(x0, cc, gn, gs, kk, __i0 as int, h), gn[__i0 as int] == dv(newton@), gs[__i0 as int] == dv(terms@)
    decreases __n0 - __i0
##loop 1
    invariant kk >= 1, dd@.len() == kk, newton@.len() == kk, terms@.len() == kk, cc == dv(dd@), h == hu($2$ as int), 0 < __i0 <= kk, 0 <= __i1 <= __n1 == kk, i == __i0 - 1, 
        gn.len() == __i0, gs.len() == __i0, gn[__i0 - 1] == dv(newton@), gs[__i0 - 1].len() == kk,
        forall|j: int| __i1 <= j < kk ==> (#[trigger] terms@[j]).v() == gs[__i0 - 1][j],
        forall|j: int| 0 <= j < __i1 ==> near((#[trigger] terms@[j]).v(), gs[__i0 - 1][j] + gn[__i0 - 1][j] * cc[__i0 - 1], h)
    decreases __n1 - __i1
##loop 2
    invariant kk >= 1, newton@.len() == kk, h == hu($2$ as int), 0 < __i0 <= kk, __n2 == 1, 1 <= __i2 <= kk,
        gn.len() == __i0, gn[__i0 - 1].len() == kk,
        forall|j: int| 0 <= j < __i2 ==> (#[trigger] newton@[j]).v() == gn[__i0 - 1][j],
        forall|j: int| __i2 <= j < kk ==> near((#[trigger] newton@[j]).v(), gn[__i0 - 1][j] * c.v() + gn[__i0 - 1][j - 1], h),
        forall|j: int| __i2 <= j < kk && gn[__i0 - 1][j] == 0real && gn[__i0 - 1][j - 1] == 0real ==> (#[trigger] newton@[j]).v() == 0real
    decreases __i2
##loopbegin 0
    broadcast use {bd_arith, round_near, round_zero};
##loopbegin 1
    broadcast use {bd_arith, round_near, round_zero};
##loopbegin 2
    broadcast use {bd_arith, round_near, round_zero};
    proof { assert(0real * c.v() == 0real) by(nonlinear_arith); }
##loopbefore 2
    proof { cv = c.v(); assert(cv == -x0[__i0 - 1]); }
##loopend 0
    proof {
        let n1 = gn; let s1 = gs; let i = __i0 - 1;
        gn = gn.push(dv(newton@)); gs = gs.push(dv(terms@));
        assert(nstep(gn[i], gn[i + 1], cv, h));
        assert(nstep(gn[i], gn[i + 1], -x0[i], h));
        assert(tstep(gs[i], gs[i + 1], gn[i], cc[i], h));
        assert forall|q: int| 0 <= q < __i0 implies #[trigger] nstep(gn[q], gn[q + 1], -x0[q], h) by { if q < i { assert(nstep(n1[q], n1[q + 1], -x0[q], h)); } }
        assert forall|q: int| 0 <= q < __i0 implies #[trigger] tstep(gs[q], gs[q + 1], gn[q], cc[q], h) by { if q < i { assert(tstep(s1[q], s1[q + 1], n1[q], cc[q], h)); } }
    }
##loopafter 0
    proof {
        let t = choose|t: Seq<Seq<real>>| #[trigger] is_table(x0, y0, t, $2$ as int) && t.len() == kk && forall|l: int| 0 <= l < t.len() ==> cc[l] == #[trigger] t[l][l];
        interpolation(x0, y0, t, cc, gn, gs, $2$ as int);
    }
#@method polynomial.rs Polynomial eval
##spec
    requires self.terms@.len() >= 1
    ensures r.v() == pe(dv(self.terms@), $0$.v(), self.terms@.len())
##begin
    broadcast use bd_arith;
    let ghost ts = dv(self.terms@); let ghost x0 = $0$.v();
    proof { horner(ts, x0, 0); assert(x0 * 0real == 0real) by(nonlinear_arith); assert(ho(ts, x0, ts.len()) == 0real); assert(1real * ho(ts, x0, 0) == ho(ts, x0, 0)) by(nonlinear_arith); }
##loop 0
    invariant 0 <= __i0 <= self.terms@.len() - 1, __n0 == 0, ts == dv(self.terms@), x0 == $0$.v(), y.v() == ho(ts, x0, __i0 as nat)
    decreases __i0
##loopbegin 0
    broadcast use bd_arith;
##loopend 0
    proof { let a = ho(ts, x0, (__i0 + 1) as nat); assert(ts[__i0 as int] == self.terms@[__i0 as int].v()); assert(ho(ts, x0, __i0 as nat) == ts[__i0 as int] + x0 * a); assert(a * x0 == x0 * a) by(nonlinear_arith); }
#@method polynomial.rs Polynomial terms
##spec
    ensures r@ == self.terms@
