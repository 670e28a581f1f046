#@verbatim
// ---- quote!(mul_add(..)) and #( .#list )*
#[verifier::external_body]
pub struct TokenStream { x: u8 }
impl TokenStream { pub uninterp spec fn m(&self) -> Seq<char>; pub uninterp spec fn a(&self) -> Seq<Expr>; }
pub uninterp spec fn other_suffix(q: TokenStream, v: real) -> real;
pub open spec fn step(env: Env, v: real, q: TokenStream) -> real { if q.m() == "mul_add"@ && q.a().len() == 2 { v * val(env, q.a()[0]) + val(env, q.a()[1]) } else { other_suffix(q, v) } }
pub open spec fn app(env: Env, v: real, s: Seq<TokenStream>, n: nat) -> real decreases n { if n == 0 { v } else { step(env, app(env, v, s, (n - 1) as nat), s[n - 1]) } }
pub proof fn app_prefix(env: Env, v: real, s: Seq<TokenStream>, q: TokenStream, n: nat) requires n <= s.len() ensures app(env, v, s.push(q), n) == app(env, v, s, n) decreases n { if n > 0 { app_prefix(env, v, s, q, (n - 1) as nat); } }
#[verifier::external_body]
pub fn q_suffix(name: &str, args: Vec<Expr>) -> (r: TokenStream) requires forall|k: int| 0 <= k < args@.len() ==> faithful(#[trigger] args@[k]) ensures r.m() == name@, r.a() == args@ { unimplemented!() }
#[verifier::external_body]
pub fn q_apply_suffixes(x: Expr, s: &Vec<TokenStream>) -> (r: Expr)
    requires faithful(x), lvl(x) >= 14
    ensures faithful(r), lvl(r) >= 14, forall|env: Env| #[trigger] val(env, r) == app(env, val(env, x), s@, s@.len()) { unimplemented!() }
/// The expression that a path is.
pub uninterp spec fn path_expr(p: Path) -> Expr;
pub broadcast axiom fn path_expr_is(p: Path) ensures (#[trigger] path_expr(p)) matches Expr::Path(q) && q.qself is None && q.path == p;
impl ToExpr for Path { open spec fn e(&self) -> Expr { path_expr(*self) } #[verifier::external_body] fn to_expr(&self) -> (r: Expr) { unimplemented!() } }
pub broadcast proof fn val_path(env: Env, p: Path) ensures #[trigger] val(env, path_expr(p)) == env(path_key(p)) { broadcast use path_expr_is; }
pub broadcast proof fn val_lit(env: Env, l: Expr) requires l is Lit ensures #[trigger] val(env, l) == num_of(l) { }
#@struct expression.rs Parity
#@method name.rs Name as_ref AsRef<syn::Path>
##attr
/*trait_impl*/
##spec
    ensures *r == self.inner
#@fn transformation/approx.rs mkexpr
##spec
    ensures num_ok(r), num_of(r) == $0$.v(), r is Lit
#@verbatim
/// Is the power j one of a function of this parity?
pub open spec fn allowed(p: Parity, j: int) -> bool { match p { Parity::Odd => j % 2 == 1, Parity::Even => j % 2 == 0, Parity::Neither => true } }
/// Does a polynomial of this parity have k terms?
pub open spec fn right_len(p: Parity, k: int) -> bool { match p { Parity::Odd => k % 2 == 0, Parity::Even => k % 2 == 1, Parity::Neither => true } }
/// The terms of this parity.
pub open spec fn sel(t: Seq<real>, p: Parity) -> Seq<real> { Seq::new(t.len(), |j: int| if allowed(p, j) { t[j] } else { 0real }) }
/// Two steps of Horner's scheme over a term that is zero.
pub proof fn ho_two(t: Seq<real>, x: real, n: nat) requires n + 1 < t.len(), t[(n + 1) as int] == 0real ensures ho(t, x, n) == t[n as int] + ho(t, x, n + 2) * (x * x) {
    let h = ho(t, x, n + 2);
    assert(ho(t, x, n + 1) == 0real + x * h);
    assert(ho(t, x, n) == t[n as int] + x * (0real + x * h));
    assert(x * (0real + x * h) == h * (x * x)) by(nonlinear_arith);
}
pub proof fn ho_last(t: Seq<real>, x: real) requires t.len() >= 1 ensures ho(t, x, (t.len() - 1) as nat) == t[t.len() - 1] { assert(ho(t, x, t.len()) == 0real); assert(x * 0real == 0real) by(nonlinear_arith); }
#@fn transformation/approx.rs mul_add_polynomial
##spec
    requires $0$@.len() >= 1
    ensures match r {
        Ok(e) => right_len($2$, $0$@.len() as int) && faithful(e) && forall|env: Env| #[trigger] val(env, e) == pe(sel(dv($0$@), $2$), env(key($1$)), $0$@.len()),
        Err(_) => !right_len($2$, $0$@.len() as int) }
##begin
    broadcast use {val_steps, val_path, val_lit, path_expr_is};
    let ghost t = sel(dv($0$@), $2$); let ghost kx = key($1$); let ghost kk = $0$@.len(); let ghost hc = $0$@[kk - 1].v();
    proof { assert forall|env: Env| #![trigger env(kx)] pe(t, env(kx), kk) == ho(t, env(kx), 0) && (right_len($2$, kk as int) ==> ho(t, env(kx), (kk - 1) as nat) == hc) && ($2$ is Odd && kk >= 2 ==> pe(t, env(kx), kk) == ho(t, env(kx), 1) * env(kx)) by { let v = env(kx); horner(t, v, 0); ho_last(t, v); let h = ho(t, v, 0); assert(1real * h == h) by(nonlinear_arith); if $2$ is Odd && kk >= 2 { let g = ho(t, v, 1); assert(ho(t, v, 0) == 0real + v * g); assert(v * g == g * v) by(nonlinear_arith); } } }
##loop 0
    invariant kk == $0$@.len() <= usize::MAX, kk >= 2, kk % 2 == 0, t.len() == kk, t == sel(dv($0$@), $2$), $2$ is Odd, kx == path_key(*x), __s0 == 1, __i0 <= __c0, __s0 + 2 * __c0 == kk - 1, 0 <= __i0,
        forall|env: Env| #![trigger env(kx)] app(env, hc, __v0@, __v0@.len()) == ho(t, env(kx), (__s0 + 2 * __i0) as nat)
    decreases __i0
##loopbegin 0
    broadcast use {val_steps, val_path, val_lit, path_expr_is};
    let ghost v0 = __v0@;
##loopend 0
    proof { assert forall|env: Env| #![trigger env(kx)] app(env, hc, __v0@, __v0@.len()) == ho(t, env(kx), (__s0 + 2 * __i0) as nat) by { app_prefix(env, hc, v0, __v0@[v0.len() as int], v0.len()); assert(__v0@ =~= v0.push(__v0@[v0.len() as int])); ho_two(t, env(kx), (__s0 + 2 * __i0) as nat); } }
##loop 1
    invariant kk == $0$@.len() <= usize::MAX, kk >= 1, kk % 2 == 1, t.len() == kk, t == sel(dv($0$@), $2$), $2$ is Even, kx == path_key(*x), __s1 == 0, __i1 <= __c1, __s1 + 2 * __c1 == kk - 1, 0 <= __i1,
        forall|env: Env| #![trigger env(kx)] app(env, hc, __v1@, __v1@.len()) == ho(t, env(kx), (__s1 + 2 * __i1) as nat)
    decreases __i1
##loopbegin 1
    broadcast use {val_steps, val_path, val_lit, path_expr_is};
    let ghost v0 = __v1@;
##loopend 1
    proof { assert forall|env: Env| #![trigger env(kx)] app(env, hc, __v1@, __v1@.len()) == ho(t, env(kx), (__s1 + 2 * __i1) as nat) by { app_prefix(env, hc, v0, __v1@[v0.len() as int], v0.len()); assert(__v1@ =~= v0.push(__v1@[v0.len() as int])); ho_two(t, env(kx), (__s1 + 2 * __i1) as nat); } }
##loop 2
    invariant kk == $0$@.len() <= usize::MAX, kk >= 1, t.len() == kk, t == sel(dv($0$@), $2$), $2$ is Neither, kx == path_key(*x), __n2 == 0, __i2 <= kk - 1,
        forall|env: Env| #![trigger env(kx)] app(env, hc, __v2@, __v2@.len()) == ho(t, env(kx), __i2 as nat)
    decreases __i2
##loopbegin 2
    broadcast use {val_steps, val_path, val_lit, path_expr_is};
    let ghost v0 = __v2@;
##loopend 2
    proof { assert forall|env: Env| #![trigger env(kx)] app(env, hc, __v2@, __v2@.len()) == ho(t, env(kx), __i2 as nat) by { let v = env(kx); let h = ho(t, v, (__i2 + 1) as nat); app_prefix(env, hc, v0, __v2@[v0.len() as int], v0.len()); assert(__v2@ =~= v0.push(__v2@[v0.len() as int])); assert(ho(t, v, __i2 as nat) == t[__i2 as int] + v * h); assert(v * h == h * v) by(nonlinear_arith); } }
#@verbatim
use vstd::float::FloatBitsProperties;
pub assume_specification [ f64::is_finite ] (x: f64) -> (r: bool) ensures r == x.is_finite_spec();
pub broadcast axiom fn f64_eq(a: f64, b: f64, o: bool) ensures #[trigger] vstd::std_specs::cmp::eq_ensures(a, b, o) ==> (o ==> f64_dec(a) == f64_dec(b));
pub broadcast proof fn mark_pi(nd: int, a: BigDecimal, b: BigDecimal) ensures #[trigger] f_pi(nd, a.v()) ==> mr(a.v(), (#[trigger] bd_div(a, b)).v()) { }
pub broadcast proof fn mark_cos(nd: int, x: real, c: real) ensures #[trigger] f_cos(nd, x, c) ==> mr(c, x) { }
// ---- sampling: subst is decided under C03, eval under C07, bigdf under C13, cos and pi under C09
pub uninterp spec fn is_subst(e: Expr, v: Seq<(Name, Expression)>, r: Expr) -> bool;
pub uninterp spec fn no_subst(e: Expr, v: Seq<(Name, Expression)>) -> bool;
pub uninterp spec fn is_value(e: Expr, nd: int, r: Expr) -> bool;
pub uninterp spec fn no_value(e: Expr, nd: int) -> bool;
impl Expression {
    #[verifier::external_body] pub fn subst(&self, variables: VariableList) -> (r: Result<Expression>) ensures match r { Ok(x) => is_subst(self.inner, variables.inner@, x.inner), Err(_) => no_subst(self.inner, variables.inner@) } { unimplemented!() }
    #[verifier::external_body] pub fn eval(&self, num_digits: i64) -> (r: Result<Expression>) requires nd_ok(num_digits) ensures match r { Ok(x) => is_value(self.inner, num_digits as int, x.inner), Err(_) => no_value(self.inner, num_digits as int) } { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() }
}
/// The decimal of a float.
pub uninterp spec fn f64_dec(x: f64) -> real;
#[verifier::external_body] pub fn bigdf(i: f64) -> (r: BigDecimal) requires i.is_finite_spec() ensures r.v() == f64_dec(i) { unimplemented!() }
#@known bigdf
#@verbatim
pub broadcast axiom fn pi_range(nd: int, r: real) ensures #[trigger] f_pi(nd, r) ==> 0real <= r <= 4real;
pub open spec fn mk(l: Expr, s: Expr, v: Expr) -> bool { true }
pub open spec fn bind(var: Name, l: Expr) -> Seq<(Name, Expression)> { seq![(var, Expression { inner: l })] }
/// y is what the expression evaluates to with x for the variable.
pub open spec fn sampled(e: Expr, var: Name, nd: int, x: real, y: real) -> bool {
    exists|l: Expr, s: Expr, v: Expr| #[trigger] mk(l, s, v) && num_ok(l) && num_of(l) == x && is_subst(e, bind(var, l), s) && is_value(s, nd, v) && num_ok(v) && num_of(v) == y
}
pub open spec fn no_sample(e: Expr, var: Name, nd: int, x: real) -> bool {
    exists|l: Expr, s: Expr, v: Expr| #[trigger] mk(l, s, v) && num_ok(l) && num_of(l) == x && (no_subst(e, bind(var, l)) || (is_subst(e, bind(var, l), s) && (no_value(s, nd) || (is_value(s, nd, v) && !num_ok(v)))))
}
pub open spec fn mr(p: real, q: real) -> bool { true }
/// Half a turn in n - 1 steps.
pub open spec fn turn(nd: int, n: int, q: real) -> bool { exists|p: real| #[trigger] mr(p, q) && f_pi(nd, p) && near(q, p / ((n - 1) as real), absr(p / ((n - 1) as real)) * p10(-99)) }
pub proof fn turn_bound(nd: int, n: int, q: real) requires turn(nd, n, q), n >= 2 ensures 0real <= q, 0real <= (n as real) * q <= 10real {
    broadcast use pi_range;
    let p = choose|p: real| #[trigger] mr(p, q) && f_pi(nd, p) && near(q, p / ((n - 1) as real), absr(p / ((n - 1) as real)) * p10(-99));
    let m = (n - 1) as real; let k = p / m; let e = p10(-99);
    p10_mono(-99, -1); p10_pos(-99); assert(p10(-1) == p10(0) / 10real); assert(e <= 0.1real);
    assert(k * m == p) by(nonlinear_arith) requires k == p / m, m > 0real;
    assert(k >= 0real) by(nonlinear_arith) requires k * m == p, m > 0real, p >= 0real;
    assert(k * e <= k * 0.1real) by(nonlinear_arith) requires k >= 0real, e <= 0.1real;
    assert(k * e >= 0real) by(nonlinear_arith) requires k >= 0real, e >= 0real;
    assert(0real <= q <= 1.1real * k);
    assert((n as real) * q <= 2real * m * q) by(nonlinear_arith) requires n as real == m + 1real, m >= 1real, q >= 0real;
    assert(2real * m * q <= 2.2real * (k * m)) by(nonlinear_arith) requires q <= 1.1real * k, m >= 1real;
    assert((n as real) * q >= 0real) by(nonlinear_arith) requires n >= 2, q >= 0real;
}
/// The points to sample: the i-th is mid - half * cos(i * pi / (n - 1)).
pub open spec fn is_point(lo: real, hi: real, nd: int, q: real, i: int, c: real, x: real) -> bool { f_cos(nd, (i as real) * q, c) && x == (hi + lo) * 0.5real - ((hi - lo) * 0.5real) * c }
pub open spec fn points(lo: real, hi: real, nd: int, q: real, cs: Seq<real>, xs: Seq<real>) -> bool { cs.len() == xs.len() && forall|i: int| 0 <= i < xs.len() ==> is_point(lo, hi, nd, q, i, #[trigger] cs[i], xs[i]) }
pub open spec fn samples(e: Expr, var: Name, nd: int, xs: Seq<real>, ys: Seq<real>) -> bool { xs.len() == ys.len() && forall|i: int| 0 <= i < xs.len() ==> sampled(e, var, nd, #[trigger] xs[i], ys[i]) }
pub open spec fn ms(xs: Seq<real>, ys: Seq<real>, ts: Seq<real>, cs: Seq<real>, q: real) -> bool { true }
/// An approximation: the terms of the parity of the polynomial through n points of the function.
pub open spec fn is_approx(e: Expr, n: int, lo: real, hi: real, var: Name, par: Parity, nd: int, r: Expr) -> bool {
    exists|xs: Seq<real>, ys: Seq<real>, ts: Seq<real>, cs: Seq<real>, q: real| #[trigger] ms(xs, ys, ts, cs, q) && xs.len() == n && turn(nd, n, q) && points(lo, hi, nd, q, cs, xs) && samples(e, var, nd, xs, ys) && distinct(xs, n)
        && interpolates(xs, ys, ts, nd) && forall|env: Env| #[trigger] val(env, r) == pe(sel(ts, par), env(key(var)), n as nat)
}
/// No approximation: a point without a value, or two points that coincide.
pub open spec fn no_approx(e: Expr, n: int, lo: real, hi: real, var: Name, nd: int) -> bool {
    exists|xs: Seq<real>, ys: Seq<real>, ts: Seq<real>, cs: Seq<real>, q: real| #[trigger] ms(xs, ys, ts, cs, q) && xs.len() <= n && turn(nd, n, q) && points(lo, hi, nd, q, cs, xs) && (!distinct(xs, xs.len() as int) || exists|i: int| 0 <= i < xs.len() && no_sample(e, var, nd, #[trigger] xs[i]))
}
pub open spec fn binds(w: Seq<(Name, Expression)>, var: Name, x: real) -> bool { w.len() == 1 && w[0].0 == var && num_ok(w[0].1.inner) && num_of(w[0].1.inner) == x }
/// What the calls at one point say about the sample.
pub proof fn one_point(e: Expr, var: Name, nd: int, x: real)
    ensures forall|w: Seq<(Name, Expression)>| #[trigger] no_subst(e, w) && binds(w, var, x) ==> no_sample(e, var, nd, x),
        forall|w: Seq<(Name, Expression)>, s: Expr| #[trigger] is_subst(e, w, s) && binds(w, var, x) && #[trigger] no_value(s, nd) ==> no_sample(e, var, nd, x),
        forall|w: Seq<(Name, Expression)>, s: Expr, v: Expr| #[trigger] is_subst(e, w, s) && binds(w, var, x) && #[trigger] is_value(s, nd, v) ==> if num_ok(v) { sampled(e, var, nd, x, num_of(v)) } else { no_sample(e, var, nd, x) }
{
    assert forall|w: Seq<(Name, Expression)>| #[trigger] no_subst(e, w) && binds(w, var, x) implies no_sample(e, var, nd, x) by { let l = w[0].1.inner; assert(w =~= bind(var, l)); assert(mk(l, l, l)); }
    assert forall|w: Seq<(Name, Expression)>, s: Expr| #[trigger] is_subst(e, w, s) && binds(w, var, x) && #[trigger] no_value(s, nd) implies no_sample(e, var, nd, x) by { let l = w[0].1.inner; assert(w =~= bind(var, l)); assert(mk(l, s, l)); }
    assert forall|w: Seq<(Name, Expression)>, s: Expr, v: Expr| #[trigger] is_subst(e, w, s) && binds(w, var, x) && #[trigger] is_value(s, nd, v) implies if num_ok(v) { sampled(e, var, nd, x, num_of(v)) } else { no_sample(e, var, nd, x) } by { let l = w[0].1.inner; assert(w =~= bind(var, l)); assert(mk(l, s, v)); }
}
/// A point that cannot be used leaves no approximation.
pub proof fn bad_point(e: Expr, n: int, lo: real, hi: real, var: Name, nd: int, q: real, xs: Seq<real>, cs: Seq<real>)
    requires 1 <= xs.len() <= n, turn(nd, n, q), points(lo, hi, nd, q, cs, xs)
    ensures (exists|m: int| 0 <= m < xs.len() - 1 && #[trigger] xs[m] == xs[xs.len() - 1]) || no_sample(e, var, nd, xs[xs.len() - 1]) ==> no_approx(e, n, lo, hi, var, nd)
{
    assert(ms(xs, xs, xs, cs, q)); let k = xs.len() - 1;
    if exists|m: int| 0 <= m < k && #[trigger] xs[m] == xs[k] { let m = choose|m: int| 0 <= m < k && #[trigger] xs[m] == xs[k]; assert(!distinct(xs, xs.len() as int)) by { assert(xs[m] == xs[k]); } }
    if no_sample(e, var, nd, xs[k]) { assert(exists|i: int| 0 <= i < xs.len() && no_sample(e, var, nd, #[trigger] xs[i])); }
}
#@fn transformation/approx.rs approx
##attr
#[verifier::loop_isolation(false)]
##spec
    requires nd_ok($6$)
    ensures match r {
        Ok(e) => $1$ >= 2 && right_len($5$, $1$ as int) && is_approx($0$.inner, $1$ as int, f64_dec($2$), f64_dec($3$), $4$, $5$, $6$ as int, e.inner) && faithful(e.inner),
        Err(_) => $1$ < 2 || !$2$.is_finite_spec() || !$3$.is_finite_spec() || f64_dec($2$) == f64_dec($3$) || !right_len($5$, $1$ as int) || no_approx($0$.inner, $1$ as int, f64_dec($2$), f64_dec($3$), $4$, $6$ as int) }
##begin
    broadcast use {bd_arith, pi_range, mark_cos, mark_pi, f64_eq};
    let ghost e0 = $0$.inner; let ghost n = $1$ as int; let ghost lo = f64_dec($2$); let ghost hi = f64_dec($3$); let ghost nd = $6$ as int;
    let ghost mut cs: Seq<real> = seq![];
##loop 0
    invariant nd_ok($6$), nd == $6$, n == $1$, n >= 2, e0 == $0$.inner, 0 <= __i0 <= __n0 == n, cs.len() == __i0, xvalues@.len() == __i0, yvalues@.len() == __i0, a.v() == (hi + lo) * 0.5real, c.v() == (hi - lo) * 0.5real,
        turn(nd, n, b.v()), 0real <= (n as real) * b.v() <= 10real, b.v() >= 0real,
        points(lo, hi, nd, b.v(), cs, dv(xvalues@)), samples(e0, $4$, nd, dv(xvalues@), dv(yvalues@)), distinct(dv(xvalues@), __i0 as int)
    decreases __n0 - __i0
##loopbegin 0
    broadcast use {bd_arith, pi_range, mark_cos, mark_pi, f64_eq};
    let ghost xs0 = dv(xvalues@); let ghost ys0 = dv(yvalues@); let ghost q = b.v(); let ghost j = __i0 as int; let ghost mut cc: real = 0real;
    proof { assert(0real <= (j as real) * q <= (n as real) * q) by(nonlinear_arith) requires 0 <= j < n, q >= 0real; p10_mono(1, 50); assert(p10(1) == 10real * p10(0)); assert(p10(0) == 1real); }
##loop 1
    invariant __s1@ == xvalues@, __n1 == xvalues@.len(), 0 <= __i1 <= __n1, __v1 == exists|m: int| 0 <= m < __i1 && (#[trigger] xvalues@[m]).v() == x.v()
    decreases __n1 - __i1
##loopbefore 1
    proof {
        assert(exists|w: real| #[trigger] mr(w, (j as real) * q) && is_point(lo, hi, nd, q, j, w, x.v()));
        cc = choose|w: real| #[trigger] mr(w, (j as real) * q) && is_point(lo, hi, nd, q, j, w, x.v());
        let xs1 = xs0.push(x.v()); let cs1 = cs.push(cc);
        assert forall|i: int| 0 <= i < xs1.len() implies is_point(lo, hi, nd, q, i, #[trigger] cs1[i], xs1[i]) by { if i < j { assert(cs1[i] == cs[i]); } }
        assert(points(lo, hi, nd, q, cs1, xs1));
        one_point(e0, $4$, nd, x.v()); bad_point(e0, n, lo, hi, $4$, nd, q, xs1, cs1); assert(xs1[j] == x.v());
        assert forall|m: int| 0 <= m < j && (#[trigger] xvalues@[m]).v() == x.v() implies no_approx(e0, n, lo, hi, $4$, nd) by { assert(xs1[m] == xs1[j]); }
    }
##loopbefore 0
    proof {
        assert(turn(nd, n, b.v())); turn_bound(nd, n, b.v());
    }
##loopend 0
    proof {
        cs = cs.push(cc);
        assert(dv(xvalues@) =~= xs0.push(xvalues@[j].v())); assert(dv(yvalues@) =~= ys0.push(yvalues@[j].v()));
    }
##loopafter 0
    proof { let xs = dv(xvalues@); let ys = dv(yvalues@); let qq = b.v(); assert forall|ts: Seq<real>| #[trigger] interpolates(xs, ys, ts, nd) implies ms(xs, ys, ts, cs, qq) by { } }
#@method expression.rs Expression approx
##spec
    requires nd_ok($5$)
    ensures match r {
        Ok(e) => $0$ >= 2 && right_len($4$, $0$ as int) && is_approx(self.inner, $0$ as int, f64_dec($1$), f64_dec($2$), $3$, $4$, $5$ as int, e.inner) && faithful(e.inner),
        Err(_) => $0$ < 2 || !$1$.is_finite_spec() || !$2$.is_finite_spec() || f64_dec($1$) == f64_dec($2$) || !right_len($4$, $0$ as int) || no_approx(self.inner, $0$ as int, f64_dec($1$), f64_dec($2$), $3$, $5$ as int) }
