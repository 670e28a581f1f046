//! Approximations against the function at the points.
use crate::ev::{function, F};
use crate::fix::Fix;
use crate::num::{lit_num, show};
use crate::poly::{bound, f};
use crate::sem;
use crate::util::*;
use bigdecimal::BigDecimal;
use doctor_syn::{Expression, Name, Parity};
use num_bigint::BigInt;
use num_traits::Zero;
use syn::*;

fn one() -> BigDecimal { BigDecimal::from(1) }
/// The exact value of a chain of mul_add, and how many there are.
fn value(e: &Expr, var: &str, x: &BigDecimal, steps: &mut usize) -> Option<BigDecimal> {
    match e {
        Expr::Lit(l) => lit_num(&l.lit),
        Expr::Paren(p) => value(&p.expr, var, x, steps),
        Expr::Group(p) => value(&p.expr, var, x, steps),
        Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) => Some(-value(expr, var, x, steps)?),
        Expr::Path(_) => if sem::text(e).replace(' ', "") == var { Some(x.clone()) } else { None },
        Expr::Binary(b) if matches!(b.op, BinOp::Mul(_)) => Some(value(&b.left, var, x, steps)? * value(&b.right, var, x, steps)?),
        Expr::MethodCall(m) if m.method == "mul_add" && m.args.len() == 2 => { *steps += 1; let r = value(&m.receiver, var, x, steps)?; Some(r * value(&m.args[0], var, x, &mut 0)? + value(&m.args[1], var, x, &mut 0)?) }
        _ => None,
    }
}
fn horner(e: &Expr) -> bool {
    match e { Expr::Paren(p) => horner(&p.expr), Expr::Group(p) => horner(&p.expr), Expr::Lit(_) => true, Expr::Unary(u) => matches!(&*u.expr, Expr::Lit(_)), Expr::MethodCall(m) => m.method == "mul_add" && horner(&m.receiver) && matches!(&m.args[1], Expr::Lit(_) | Expr::Unary(_) | Expr::Paren(_)), _ => false }
}
/// The functions: text, the value at a point, whether odd or even (1, 0, or 2 for neither), and where.
enum Fun { Poly(Vec<(i64, i64)>), Named(&'static str, i64, i64), Recip }
fn fun_value(g: &Fun, x: &BigDecimal, nd: i64) -> Option<BigDecimal> {
    match g {
        Fun::Poly(t) => { let mut s = BigDecimal::zero(); for (c, p) in t { let mut q = BigDecimal::from(BigInt::from(*c)); for _ in 0..*p { q = q * x; } s = s + q; } Some(s) }
        Fun::Named(n, a, b) => { let z = x * BigDecimal::from(BigInt::from(*a)) + BigDecimal::from(BigInt::from(*b)); match function(n, &z, &[], nd) { F::Val(y, _) | F::Exact(y) => Some(y), _ => None } }
        Fun::Recip => { let z = x * x + one(); Some(one() / z) }
    }
}
fn fun_text(g: &Fun, v: &str) -> String {
    match g {
        Fun::Poly(t) => { let s: Vec<String> = t.iter().map(|(c, p)| { let mut q = format!("({})", c); for _ in 0..*p { q = format!("{}*{}", q, v); } q }).collect(); s.join(" + ") }
        Fun::Named(n, a, b) => if *a == 1 && *b == 0 { format!("{}.{}()", v, n) } else { format!("({} * {} + {}).{}()", v, a, b, n) },
        Fun::Recip => format!("1 / ({} * {} + 1)", v, v),
    }
}
fn dec(x: f64) -> BigDecimal { format!("{:?}", x).parse().unwrap() }
fn par(p: u8) -> Parity { match p { 1 => Parity::Odd, 0 => Parity::Even, _ => Parity::Neither } }
fn name(v: &str) -> Name { let p: Path = parse_str(v).unwrap(); Name::from(p) }
fn call(s: &str, n: usize, lo: f64, hi: f64, v: &str, p: u8, nd: i64) -> std::result::Result<Option<Expr>, Bad> {
    let e: Expression = parse_str::<Expr>(s).unwrap().into();
    match guard(|| e.approx(n, lo, hi, name(v), par(p), nd)) { Ok(Ok(x)) => Ok(Some(x.into())), Ok(Err(_)) => Ok(None), Err(m) => Err(Bad { input: what(s, n, lo, hi, v, p, nd), expected: "an expression or an error".into(), got: format!("panic: {}", m) }) }
}
fn what(s: &str, n: usize, lo: f64, hi: f64, v: &str, p: u8, nd: i64) -> String { format!("expr!({}).approx({}, {:?}, {:?}, name!({}), Parity::{}, {})", s, n, lo, hi, v, ["Even", "Odd", "Neither"][p as usize], nd) }
/// The points to sample, to nd digits or so.
fn nodes(n: usize, lo: f64, hi: f64, nd: i64) -> Vec<BigDecimal> {
    let g = Fix::new(nd + 30);
    let (lo, hi) = (dec(lo), dec(hi));
    let h = BigDecimal::new(BigInt::from(5), 1);
    let (a, c) = ((&hi + &lo) * &h, (&hi - &lo) * &h);
    (0..n).map(|i| { let t = g.pi() * (i as i64) / (n as i64 - 1); let cs = g.to(&g.sincos(&t).1); (&a - &c * cs).with_scale(nd + 25) }).collect()
}
fn fit(g: &Fun, n: usize, lo: f64, hi: f64, v: &str, p: u8, nd: i64, r: &mut Rng) -> Check {
    let s = fun_text(g, v);
    let w = what(&s, n, lo, hi, v, p, nd);
    let wrong = (p == 1 && n % 2 != 0) || (p == 0 && n % 2 == 0);
    let got = call(&s, n, lo, hi, v, p, nd)?;
    if n < 2 || wrong || lo == hi || !lo.is_finite() || !hi.is_finite() { return match got { None => Ok(()), Some(e) => bad(w, "an error", sem::text(&e)) }; }
    let x = nodes(n, lo, hi, nd);
    let y: Option<Vec<BigDecimal>> = x.iter().map(|x| fun_value(g, x, nd)).collect();
    let gap = (0..n).map(|a| (0..a).map(|b| f(&(&x[a] - &x[b]).abs())).fold(f64::MAX, f64::min)).fold(f64::MAX, f64::min);
    let unit = 10f64.powi(-nd as i32);
    let wide = (f(&dec(hi)) - f(&dec(lo))).abs().max(1.0);
    if gap < 100.0 * unit * wide { return Ok(()); }
    let y = match y { Some(y) => y, None => return match got { None => Ok(()), Some(e) => bad(w, "an error: there is no value at a point", sem::text(&e)) } };
    let e = match got { Some(e) => e, None => return bad(w, "an expression", "an error") };
    let text = sem::text(&e);
    let short = if text.len() > 400 { format!("{}...", &text[..400]) } else { text.clone() };
    // what is printed is the same expression
    match parse_str::<Expr>(&text) { Ok(q) if sem::norm(&q) == sem::norm(&e) => {} _ => return bad(w, "an expression that prints as itself", short) }
    // shape
    let body: &Expr = match (&e, p) { (Expr::Binary(b), 1) => &b.left, _ => &e };
    let mut steps = 0;
    let q0 = value(&e, v, &one(), &mut steps);
    let want = match p { 1 => n / 2 - 1, 0 => (n - 1) / 2, _ => n - 1 };
    if q0.is_none() || !horner(body) || steps != want { return bad(w, format!("{} mul_add steps in {}", want, v), short); }
    let at = |z: &BigDecimal| value(&e, v, z, &mut 0).unwrap();
    let full = if p == 2 { None } else { match call(&s, n, lo, hi, v, 2, nd)? { Some(e) => Some(e), None => return bad(what(&s, n, lo, hi, v, 2, nd), "an expression", "an error") } };
    if let Some(full) = &full {
        // only the powers of the parity
        let half = BigDecimal::new(BigInt::from(5), 1);
        for i in 0..3 {
            let z = if i == 0 { one() } else { BigDecimal::new(BigInt::from(r.below(4001) as i64 - 2000), 3) };
            let (a, b) = (value(full, v, &z, &mut 0), value(full, v, &-z.clone(), &mut 0));
            if let (Some(a), Some(b)) = (a, b) {
                let t = if p == 1 { (a - b) * &half } else { (a + b) * &half };
                if at(&z) != t { return bad(w, format!("the {} powers of the polynomial: {} at {}", if p == 1 { "odd" } else { "even" }, show(&t), show(&z)), format!("{} from {}", show(&at(&z)), short)); }
            }
        }
        return Ok(());
    }
    // the value at the points; a point may be off by some units of the last digit
    let mut steep = 1f64;
    for i in 1..n { steep = steep.max(f(&((&y[i] - &y[i - 1]) / (&x[i] - &x[i - 1]))).abs()); }
    let top = y.iter().map(|y| f(y).abs()).fold(1.0, f64::max);
    let tol = bound(&x, &y, nd) * 1e4 + unit * 1e3 * (top + steep * wide * (n * n) as f64 * 100.0);
    for i in 0..n {
        let d = f(&(at(&x[i]) - &y[i]).abs());
        if !(d <= tol) { return bad(w, format!("the value {:e} at {:e} (within {:e})", f(&y[i]), f(&x[i]), tol), format!("{:e} away: {}", d, short)); }
    }
    Ok(())
}
pub fn approx(c: &mut Ctx) -> Check {
    let mut r = c.rng(11);
    let odd = |n: &str| matches!(n, "sin" | "tan" | "asin" | "atan" | "erf");
    // requests that cannot be met
    for n in [0usize, 1, 2, 3, 4, 5] { for p in 0..3u8 { for (lo, hi) in [(0.0, 1.0), (1.0, 0.0), (-1.0, 1.0), (0.5, 0.5), (0.0, -0.0), (f64::NAN, 1.0), (0.0, f64::INFINITY), (f64::NEG_INFINITY, 0.0)] { for nd in [8, 20] {
        c.cases += 1;
        fit(&Fun::Poly(vec![(1, 0), (2, 1), (-3, 2)]), n, lo, hi, "x", p, nd, &mut r)?;
    } } } }
    for (s, n, lo, hi, v) in [("y", 4usize, 0.0, 1.0, "x"), ("x * y", 4, 0.0, 1.0, "x"), ("x.ln()", 4, -1.0, 1.0, "x"), ("x.sqrt()", 4, -1.0, 1.0, "x"), ("1 / x", 4, 0.0, 1.0, "x"), ("x.foo()", 4, 0.0, 1.0, "x"), ("if x { 1 } else { 2 }", 4, 0.0, 1.0, "x"), ("x < 1", 4, 0.0, 1.0, "x"), ("X", 4, 0.0, 1.0, "x"), ("a::x", 4, 0.0, 1.0, "x"), ("x", 4, 0.0, 1.0, "a::x")] {
        c.cases += 1;
        if let Some(e) = call(s, n, lo, hi, v, 2, 20)? { return bad(what(s, n, lo, hi, v, 2, 20), "an error: there is no value at a point", sem::text(&e)); }
    }
    // points that coincide give an error or a polynomial, and never a panic
    for nd in 0..4 { for n in 2..40 { c.cases += 1; call("x * x", n, 0.0, 1.0, "x", 2, nd)?; } }
    for k in 0..c.n(4_000, 60_000) {
        if !c.time(1.0) { break }
        let v = *r.pick(&[&"x", &"t", &"theta", &"m::x", &"x1"]);
        let g = match r.below(4) {
            0 => { let d = r.below(6) as i64; Fun::Poly((0..=d).map(|p| (r.below(19) as i64 - 9, p)).collect()) }
            1 => Fun::Recip,
            _ => { let n = *r.pick(&[&"sin", &"cos", &"exp", &"ln", &"sqrt", &"atan", &"erf", &"exp2", &"tan", &"asin"]); let shift = matches!(n, "ln" | "sqrt"); Fun::Named(n, if shift || n == "asin" || n == "tan" || r.chance(1, 2) { 1 } else { 2 }, if shift { 3 } else if r.chance(1, 4) && n != "asin" && n != "tan" { 1 } else { 0 }) }
        };
        let (mut lo, mut hi) = match r.below(6) { 0 => (0.0, 1.0), 1 => (-1.0, 1.0), 2 => (-0.5, 0.5), 3 => (0.25, 0.75), 4 => { let a = r.below(8) as f64 / 8.0; (-a, a + 0.125) } _ => { let a = (r.unit() * 1000.0).round() / 1000.0; (-a, 0.5) } };
        if r.chance(1, 6) { std::mem::swap(&mut lo, &mut hi); }
        let is_odd = matches!(&g, Fun::Named(n, _, 0) if odd(n));
        let p = if r.chance(1, 2) { 2 } else if is_odd { 1 } else { r.below(2) as u8 };
        let mut n = if k % 50 == 0 { 10 + r.below(14) } else { 2 + r.below(9) };
        if !r.chance(1, 8) { if p == 1 && n % 2 == 1 { n += 1 } if p == 0 && n % 2 == 0 { n += 1 } }
        let nd = [8, 10, 16, 20, 20, 24, 30, 40][r.below(8)];
        c.cases += 1;
        fit(&g, n, lo, hi, v, p, nd, &mut r)?;
    }
    Ok(())
}
