//! Evaluation against what its operands evaluate to, with the oracle of fix.rs for functions.
use crate::fix::{neg, Fix};
use crate::num::{decimal, expr_num, lit_num, literal, rounded, show};
use crate::util::*;
use crate::{gen, sem};
use bigdecimal::BigDecimal;
use doctor_syn::Expression;
use num_bigint::BigInt;
use num_traits::{Signed, ToPrimitive, Zero};
use syn::*;

pub fn ten(k: i64) -> BigDecimal { BigDecimal::new(BigInt::from(1), -k) }
fn whole(x: &BigDecimal) -> bool { x.with_scale(0) == *x }
#[derive(Debug, Clone)]
pub enum V { Num(BigDecimal), Bool(bool), Same, Err, Any }
/// What a function gives: a number and how far off it may be in units of the last digit.
pub enum F { Val(BigDecimal, BigDecimal), Exact(BigDecimal), None, Any }
fn big(x: &BigDecimal) -> i64 { let (i, s) = x.as_bigint_and_exponent(); i.abs().to_string().len() as i64 - s }
/// The value of a function of bdmath at these arguments, by the oracle.
pub fn function(name: &str, x: &BigDecimal, a: &[BigDecimal], nd: i64) -> F {
    let one = BigDecimal::from(1);
    let f = Fix::new(nd + 40 + big(x).clamp(0, 100) + a.iter().map(|y| big(y).clamp(0, 100)).sum::<i64>());
    let val = |y: BigInt| { let y = f.to(&y); let s = y.abs(); F::Val(y, if s > one { s } else { one.clone() }) };
    let arity = match name { "powi" | "powf" | "log" | "round_ieee" => 1, "dnorm" | "pnorm" | "qnorm" => 2, _ => 0 };
    let known = ["round", "abs", "signum", "recip", "powi", "powf", "sqrt", "exp", "exp2", "ln", "log", "log2", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "erf", "erfc", "dnorm", "pnorm", "qnorm", "round_ieee"];
    if !known.contains(&name) || a.len() != arity { return F::None; }
    let pow = |x: &BigDecimal, y: &BigDecimal| -> F {
        if y.is_zero() { return F::Exact(one.clone()) }
        if x.is_zero() { return if neg(y) { F::None } else { F::Exact(BigDecimal::zero()) } }
        if neg(x) && !whole(y) { return F::None }
        if x.abs() == one { return F::Exact(if neg(x) && !whole(&(y * BigDecimal::new(BigInt::from(5), 1))) { -one.clone() } else { one.clone() }) }
        if big(y) > 198 { return F::None }
        if big(y) > 11 { return F::Any }
        let est = { let (i, s) = x.abs().as_bigint_and_exponent(); let d = i.to_string(); let m: f64 = format!("0.{}", &d[..d.len().min(17)]).parse().unwrap(); (m.ln() + (d.len() as f64 - s as f64) * std::f64::consts::LN_10) * y.to_string().parse::<f64>().unwrap() };
        if est > 100_100.0 { return F::None }
        if est > 99_900.0 { return F::Any }
        if est < -1e9 || est < -4.0 * (nd + 20) as f64 { return F::Val(BigDecimal::zero(), one.clone()) }
        if est > 2500.0 { return F::Any }
        let r = f.pow(&x.abs(), y);
        let odd = neg(x) && { let h = y * BigDecimal::new(BigInt::from(5), 1); !whole(&h) };
        val(if odd { -r } else { r })
    };
    let log = |x: &BigDecimal, b: &BigDecimal| -> F {
        if !x.is_positive() || !b.is_positive() { return F::None }
        let lb = f.ln(b);
        if f.to(&lb).abs() < ten(-nd + 1) { return F::Any }
        let y = f.to(&f.div(&f.ln(x), &lb));
        let u = (&one + y.abs()) / f.to(&lb).abs();
        F::Val(y, if u > one { u } else { one.clone() })
    };
    match name {
        "abs" => F::Exact(x.abs()),
        "signum" => F::Exact(if x.is_zero() { BigDecimal::zero() } else if neg(x) { -one } else { one }),
        "recip" => if x.is_zero() { F::None } else { let y = &one / x; let s = y.abs(); F::Val(y, if s > one { s } else { one.clone() }) },
        "powi" | "powf" => pow(x, &a[0]),
        "exp2" => pow(&BigDecimal::from(2), x),
        "sqrt" => if neg(x) { F::None } else { let f = Fix::new(nd + 60 + big(x).abs()); let y = f.to(&f.sqrt(&f.from(x))); let s = y.abs(); F::Val(y, if s > one { s } else { one.clone() }) },
        "exp" => if *x > BigDecimal::from(100_000) { F::None } else if *x > BigDecimal::from(2500) { F::Any } else if *x < BigDecimal::from(-4 * (nd + 20)) { F::Val(BigDecimal::zero(), one.clone()) } else { val(f.exp(&f.from(x))) },
        "ln" => if !x.is_positive() { F::None } else { val(f.ln(x)) },
        "log" => log(x, &a[0]),
        "log2" => log(x, &BigDecimal::from(2)),
        "log10" => log(x, &BigDecimal::from(10)),
        "sin" | "cos" | "tan" => {
            if x.abs() > ten(50) { return F::None }
            let f = Fix::new(nd + 60 + big(x).max(0));
            let (s, c) = f.sincos(&f.from(x));
            match name { "sin" => F::Val(f.to(&s), one.clone()), "cos" => F::Val(f.to(&c), one.clone()),
                _ => { if f.to(&c).abs() < ten(-nd + 1) { return F::Any } let t = f.to(&f.div(&s, &c)); let u = &one + &t * &t; F::Val(t, u) } }
        }
        "asin" => if x.abs() > one { F::None } else { val(f.asin(x)) },
        "acos" => if x.abs() > one { F::None } else { val(f.pi() / 2 - f.asin(x)) },
        "atan" => if big(x) > 100 { F::Val(f.to(&(f.pi() / 2)) * x.signum(), one.clone()) } else { val(f.atan(&f.from(x))) },
        "erf" | "erfc" => {
            let y = if big(x) > 20 { f.int(if neg(x) { -1 } else { 1 }) } else { f.erf(&f.from(x)) };
            val(if name == "erf" { y } else { f.int(1) - y })
        }
        "dnorm" | "pnorm" => {
            if a[1].is_zero() { return F::None }
            if big(&a[1]) < -25 || big(&a[1]) > 25 || big(x) > 30 || big(&a[0]) > 30 { return F::Any }
            let g = Fix::new(f.w + 60);
            let z = g.div(&g.from(&(x - &a[0])), &g.from(&a[1]));
            let zz = g.to(&z).abs();
            let far = zz > BigDecimal::from(3 * (nd + 30));
            if name == "dnorm" { let d = if far { BigInt::zero() } else { g.dnorm(&z) }; let y = g.to(&g.div(&d, &g.from(&a[1]))); let u = &one + &one / a[1].abs(); F::Val(y, u) }
            else { F::Val(g.to(&if far { if zz == g.to(&z) { g.int(1) } else { BigInt::zero() } } else { g.pnorm(&z) }), one.clone()) }
        }
        "qnorm" => {
            if a[1].is_zero() || !x.is_positive() || *x >= one { return F::None }
            F::Any
        }
        "round_ieee" => {
            let w = a[0].with_scale(0).to_i64();
            let t = x.to_string();
            let y = match w { Some(32) => t.parse::<f32>().ok().filter(|y| y.is_finite()).map(|y| format!("{:?}", y)), Some(64) => t.parse::<f64>().ok().filter(|y| y.is_finite()).map(|y| format!("{:?}", y)), _ => None };
            match y { None => F::None, Some(y) => F::Exact(y.parse().unwrap()) }
        }
        _ => F::Any,
    }
}
fn run(e: &Expr, nd: i64) -> std::result::Result<std::result::Result<Expr, String>, String> {
    guard(|| Expression::from(e.clone()).eval(nd).map(|x| x.into_inner()).map_err(|e| e.to_string()))
}
/// Checks this expression given what its parts evaluate to, after checking the parts.
fn check(e: &Expr, nd: i64) -> std::result::Result<V, Bad> {
    let what = || format!("eval({}) of {}", nd, sem::text(e));
    let fail = |exp: String, got: String| -> std::result::Result<V, Bad> { Err(Bad { input: what(), expected: exp, got }) };
    // the expected value
    enum W { Num(BigDecimal), Near(BigDecimal, BigDecimal), Rounded(BigDecimal, i64), Quot(BigDecimal, BigDecimal), Bool(bool), Same, Err, Any, Number }
    if std::env::var("TRACE").is_ok() { eprintln!("{}", what()); }
    let w = match e {
        Expr::Lit(_) => W::Same,
        Expr::Paren(p) => match check(&p.expr, nd)? { V::Num(x) => W::Num(x), V::Bool(b) => W::Bool(b), V::Same => W::Any, V::Err => W::Err, V::Any => W::Any },
        Expr::Unary(u) => match (check(&u.expr, nd)?, u.op) { (V::Any, _) => W::Any, (V::Num(x), UnOp::Neg(_)) => W::Num(-x), _ => W::Err },
        Expr::Path(p) => if p.path.is_ident("PI") { let f = Fix::new(nd + 20); W::Near(f.to(&f.pi()), ten(-nd)) } else { W::Err },
        Expr::Binary(b) => match (check(&b.left, nd)?, check(&b.right, nd)?) {
            (V::Num(x), V::Num(y)) => match b.op {
                BinOp::Add(_) => W::Num(x + y), BinOp::Sub(_) => W::Num(x - y), BinOp::Mul(_) => W::Rounded(x * y, nd),
                BinOp::Div(_) => if y.is_zero() { W::Err } else { W::Quot(x, y) },
                BinOp::Lt(_) => W::Bool(x < y), BinOp::Gt(_) => W::Bool(x > y), BinOp::Le(_) => W::Bool(x <= y), BinOp::Ge(_) => W::Bool(x >= y), BinOp::Eq(_) => W::Bool(x == y), BinOp::Ne(_) => W::Bool(x != y),
                _ => W::Err,
            },
            (V::Any, _) | (_, V::Any) => W::Any,
            _ => W::Err,
        },
        Expr::MethodCall(m) => {
            let mut v = vec![check(&m.receiver, nd)?];
            for a in m.args.iter() { v.push(check(a, nd)?) }
            if v.iter().any(|x| matches!(x, V::Any)) { W::Any } else {
                let n: Vec<BigDecimal> = v.iter().filter_map(|x| match x { V::Num(x) => Some(x.clone()), _ => None }).collect();
                if n.len() < v.len() { W::Err } else {
                    let name = m.method.to_string();
                    if name == "round" && n.len() == 1 { W::Rounded(n[0].clone(), 0) } else {
                        match function(&name, &n[0], &n[1..], nd) { F::Val(y, u) => W::Near(y, u * ten(2 - nd)), F::Exact(y) => W::Num(y), F::None => W::Err, F::Any => if name == "qnorm" { W::Number } else { W::Any } }
                    }
                }
            }
        }
        _ => W::Err,
    };
    let r = match run(e, nd) { Err(p) => return fail("no panic".into(), format!("panic: {}", p)), Ok(r) => r };
    let number = |r: &std::result::Result<Expr, String>| r.as_ref().ok().and_then(expr_num);
    let got = |r: &std::result::Result<Expr, String>| match r { Ok(e) => sem::text(e).chars().take(300).collect(), Err(e) => format!("error {}", e) };
    let v = match w {
        W::Same => match &r { Ok(x) if x == e => match e { Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => V::Bool(b.value), Expr::Lit(l) if matches!(l.lit, Lit::Int(_) | Lit::Float(_)) => match lit_num(&l.lit) { Some(x) => V::Num(x), None => V::Any }, _ => V::Same }, _ => return fail("the literal".into(), got(&r)) },
        W::Num(x) => match number(&r) { Some(y) if x == y => V::Num(y), _ => return fail(show(&x), got(&r)) },
        W::Near(x, eps) => match number(&r) { Some(y) if (&x - &y).abs() <= eps => V::Num(y), _ => return fail(format!("{} to {} digits", x.with_scale(nd + 3), nd), got(&r)) },
        W::Rounded(x, d) => match number(&r) { Some(y) => match rounded(&x, d, &y) { Ok(()) => V::Num(y), Err(w) => return fail(w, got(&r)) }, None => return fail(show(&x), got(&r)) },
        W::Quot(x, y) => match number(&r) {
            // |q*y - x| <= (half a unit and the error of the division) * |y|
            Some(q) if (&q * &y - &x).abs() <= y.abs() * BigDecimal::new(BigInt::from(5), nd + 1) + x.abs() * ten(-98) => V::Num(q),
            _ => return fail(format!("the quotient of {} and {} to {} digits", show(&x), show(&y), nd), got(&r)) },
        W::Bool(b) => match &r { Ok(Expr::Lit(ExprLit { lit: Lit::Bool(x), .. })) if x.value == b => V::Bool(b), _ => return fail(b.to_string(), got(&r)) },
        W::Err => match &r { Err(_) => V::Err, _ => return fail("an error".into(), got(&r)) },
        W::Number => match number(&r) { Some(y) => V::Num(y), None => return fail("a number".into(), got(&r)) },
        W::Any => match &r { Ok(_) => match number(&r) { Some(y) => V::Num(y), None => V::Any }, Err(_) => V::Err },
    };
    // numbers that only get larger are no use
    if let V::Num(x) = &v { if big(x).abs() > 400 || x.digits() > 3000 { return Ok(V::Any) } }
    Ok(v)
}
const METHODS: &[(&str, usize)] = &[("round", 0), ("abs", 0), ("signum", 0), ("recip", 0), ("powi", 1), ("powf", 1), ("sqrt", 0), ("exp", 0), ("exp2", 0), ("ln", 0), ("log", 1), ("log2", 0), ("log10", 0), ("sin", 0), ("cos", 0), ("tan", 0),
    ("asin", 0), ("acos", 0), ("atan", 0), ("erf", 0), ("erfc", 0), ("dnorm", 2), ("pnorm", 2), ("qnorm", 2), ("round_ieee", 1)];
fn num(r: &mut Rng) -> String {
    match r.below(16) {
        0..=3 => format!("{}", r.below(6)),
        4 => format!("0.{}", r.below(1000)),
        5 => format!("{}.{}", r.below(30), r.below(100)),
        6 => format!("{}e{}", 1 + r.below(99), r.below(40) as i64 - 20),
        7 => "PI".into(),
        8 => r.pick(&["0.5", "1", "1.0", "0", "0.0", "2", "10", "32", "64", "100", "0.999999999999", "1e-30", "1e30", "0x1F", "2.5", "0.25", "1_000", "3f64", "7u8"]).to_string(),
        9 => format!("{}", decimal(r, 20, 25).abs()),
        10 => sem::text(&literal(r)),
        _ => format!("{}", r.below(400) as f64 / 64.0),
    }
}
fn text(r: &mut Rng, size: usize, wild: bool) -> String {
    if size == 0 {
        if wild && r.chance(1, 8) { return r.pick(&["x", "std::f64::consts::PI", "true", "\"s\"", "'c'", "f(1)", "PI.f", "(1, 2)", "[1]", "m!(1)", "1e99999999999999999999", "0xfffffffffffffffffffffffffffffffffffffffff", "1.5f32", "{ 1 }", "(1..2)", "self", "pi", "E"]).to_string() }
        return num(r);
    }
    match r.below(10) {
        0 => format!("-({})", text(r, size - 1, wild)),
        1 => format!("({})", text(r, size - 1, wild)),
        2 if wild => format!("{}({})", r.pick(&["!", "*", "-"]), text(r, size - 1, wild)),
        3..=6 => {
            let (m, n) = METHODS[r.below(METHODS.len())];
            let n = if wild && r.chance(1, 6) { r.below(4) } else { n };
            let m = if wild && r.chance(1, 10) { *r.pick(&[&"foo", &"cbrt", &"max", &"sinh", &"Round", &"expp", &"to_degrees", &"rounds", &"abs2"]) } else { m };
            let mut left = size - 1;
            let mut part = |r: &mut Rng| { let t = r.below(left + 1); left -= t; text(r, t, wild) };
            let recv = part(r);
            let mut args = vec![];
            for i in 0..n { args.push(if m == "round_ieee" && !r.chance(1, 6) { r.pick(&["32", "64"]).to_string() } else if m == "powi" && r.chance(3, 4) { format!("{}", if r.chance(1, 3) { -(r.below(9) as i64) } else { r.below(12) as i64 }) } else if i == 1 && r.chance(2, 3) { format!("{}", 1 + r.below(5)) } else { part(r) }) }
            format!("({}).{}({})", recv, m, args.join(", "))
        }
        _ => {
            let op = if r.chance(1, 5) { *r.pick(&[&"<", &">", &"<=", &">=", &"==", &"!=", &"%", &"<<", &"&&", &"||", &"&", &"^"]) } else { *r.pick(&[&"+", &"-", &"*", &"/"]) };
            let t = r.below(size);
            let (a, b) = (text(r, t, wild), text(r, size - 1 - t, wild));
            // the same number, written differently
            let b = if r.chance(1, 5) { r.pick(&["({}) + 0.000", "0.00 + ({})", "({})", "(({}) - 0e-9)", "-(-({}))", "({}) + 1e-20", "({}) - 1e-12"]).replace("{}", &a) } else { b };
            if r.chance(1, 2) { format!("({}) {} ({})", a, op, b) } else { format!("{} {} {}", a, op, b) }
        }
    }
}
pub fn eval(c: &mut Ctx) -> Check {
    let mut r = c.rng(7);
    let one = |c: &mut Ctx, s: &str, nd: i64| -> Check { if let Ok(e) = parse_str::<Expr>(s) { c.cases += 1; check(&e, nd).map(|_| ())? } Ok(()) };
    // every function at every number of arguments with ordinary and special values
    for (m, n) in METHODS.iter().chain([("foo", 0), ("max", 1), ("clamp", 2)].iter()) {
        for x in ["0", "1", "-1", "0.3", "-2.5", "2", "PI", "0.5", "-0.5", "17", "true", "x", "1e-30", "-7"] {
            one(c, &format!("({}).{}()", x, m), 20)?;
            for y in ["2", "0", "-1", "3", "0.5", "64", "x"] {
                one(c, &format!("({}).{}({})", x, m, y), 20)?;
                if *n == 2 || y == "2" { for z in ["1", "3", "0", "-2", "true"] { one(c, &format!("({}).{}({}, {})", x, m, y, z), 20)?; } }
            }
            one(c, &format!("({}).{}(1, 2, 3)", x, m), 20)?;
        }
    }
    for op in ["+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "&", "|", "^", "<<", ">>"] {
        for a in ["1", "-2", "0.125", "3", "true", "0", "10000000000000000001", "1e-20", "1.0", "0.000"] { for b in ["1", "-2", "0.125", "3.00", "3", "true", "0", "x", "1e-20", "10e-1", "0.12500"] { for nd in [0, 3, 20] { one(c, &format!("{} {} {}", a, op, b), nd)?; } } }
    }
    for i in 0..c.n(60_000, 2_000_000) {
        if !c.time(1.0) { break }
        let nd = [0, 1, 2, 5, 8, 10, 15, 16, 20, 20, 30, 40, 60][r.below(13)];
        let n = r.below(7);
        let wild = i % 3 == 0;
        let s = text(&mut r, n, wild);
        if let Ok(e) = parse_str::<Expr>(&s) { c.cases += 1; check(&e, nd)?; }
        if i % 10 == 0 {
            if let Some(e) = gen::expr(&mut r, 8, &gen::Opts { unsupported: true, all_ops: true, lits: true, numeric: i % 20 == 0 }) { c.cases += 1; check(&e, nd)?; }
        }
    }
    Ok(())
}
