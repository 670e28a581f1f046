//! C09: the elementary functions against series of our own in fixed point, to a few units of the last digit.
use crate::ev::{function, ten, F};
use crate::num::{digits, expr_num, show};
use crate::util::*;
use doctor_syn::Expression;
use num_bigint::BigInt;
use bigdecimal::{BigDecimal, Signed, Zero};

/// Units of the last requested digit (times max(1, |value|) or the slope) that are allowed.
fn units(_name: &str) -> i64 { 1 }
fn call(name: &str, x: &BigDecimal, a: &[BigDecimal], nd: i64) -> Option<syn::Expr> {
    let n = |x: &BigDecimal| format!("({})", crate::sem::text(&Expression::from(x.clone()).into_inner()));
    let args: Vec<String> = a.iter().map(n).collect();
    let s = if name == "pi" { "PI".to_string() } else { format!("{}.{}({})", n(x), name, args.join(", ")) };
    let _ = nd;
    syn::parse_str(&s).ok()
}
fn ratio(name: &str, x: &BigDecimal, a: &[BigDecimal], nd: i64) -> Result<Option<BigDecimal>, Bad> {
    let e = match call(name, x, a, nd) { Some(e) => e, None => return Ok(None) };
    let input = format!("{} to {} digits", crate::sem::text(&e), nd);
    let want = if name == "pi" { let f = crate::fix::Fix::new(nd + 20); F::Val(f.to(&f.pi()), BigDecimal::from(1)) } else { function(name, x, a, nd) };
    if matches!(want, F::Any) { return Ok(None) }
    let r = match guard(|| Expression::from(e.clone()).eval(nd).map(|x| x.into_inner()).map_err(|e| e.to_string())) { Ok(r) => r, Err(p) => return Err(Bad { input, expected: "no panic".into(), got: format!("panic: {}", p) }) };
    let got = match &r { Ok(e) => expr_num(e), Err(_) => None };
    match (want, got) {
        (F::None, None) => Ok(None),
        (F::Exact(y), Some(g)) if y == g => Ok(None),
        (F::Val(y, u), Some(g)) => {
            let e = (&y - &g).abs();
            if e > &u * ten(-nd) * BigDecimal::from(units(name)) { return Err(Bad { input, expected: format!("{} (to {} units of the last digit)", y.with_scale(nd + 5), units(name)), got: show(&g) }) }
            Ok(Some((e * ten(nd) / u).with_scale(3)))
        }
        (F::None, Some(g)) => Err(Bad { input, expected: "an error".into(), got: show(&g) }),
        (F::Exact(y), g) | (F::Val(y, _), g) => Err(Bad { input, expected: show(&y.with_scale(nd + 5)), got: match (g, r) { (Some(g), _) => show(&g), (None, Err(e)) => format!("error {}", e), _ => "no number".into() } }),
        (F::Any, _) => Ok(None),
    }
}
const F: &[&str] = &["exp", "exp2", "ln", "log2", "log10", "log", "powf", "powi", "sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "erf", "erfc", "dnorm", "pnorm", "pi", "recip"];
fn arg(r: &mut Rng, name: &str) -> BigDecimal {
    let m = if r.chance(1, 6) { 60 } else { 12 };
    let n = 1 + r.below(m);
    let d = digits(r, n).abs();
    let unit = BigDecimal::new(d, n as i64); // 0..1
    let sgn = if r.chance(1, 2) { BigDecimal::from(-1) } else { BigDecimal::from(1) };
    let near = |r: &mut Rng, c: &str| { let k = 1 + r.below(40) as i64; c.parse::<BigDecimal>().unwrap() + &unit * ten(-k) * &sgn };
    match name {
        "asin" | "acos" => match r.below(8) { 0 => { let x = near(r, "0.5"); x * &sgn } 1 => { let x = BigDecimal::from(1) - near(r, "0").abs(); x * &sgn } 2 => near(r, "0"), 3 => r.pick(&["1", "-1", "0", "0.5", "-0.5"]).parse().unwrap(), _ => unit * sgn },
        "sin" | "cos" | "tan" => match r.below(8) {
            0 => unit * ten(r.below(50) as i64) * sgn,
            1 => near(r, "0"), 2 => near(r, "3.14159265358979323846264338327950288"), 3 => near(r, "4"), 4 => near(r, "1.5707963267948966192313"), 5 => BigDecimal::from(r.below(100) as i32) * sgn, _ => unit * BigDecimal::from(12) * sgn },
        "exp" | "exp2" => match r.below(8) { 0 => near(r, "4"), 1 => near(r, "-1"), 2 => near(r, "0"), 3 => -(unit * BigDecimal::from(300)), 4 => unit * BigDecimal::from(1500), 5 => BigDecimal::from(r.below(40) as i32) * sgn, _ => unit * BigDecimal::from(10) * sgn },
        "ln" | "log2" | "log10" | "log" | "sqrt" | "recip" => match r.below(8) { 0 => near(r, "1"), 1 => unit * ten(r.below(200) as i64), 2 => unit * ten(-(r.below(200) as i64)), 3 => near(r, "10"), 4 => near(r, "1.6487212707001281468"), 5 => near(r, "0.60653065971263342360"), 6 => BigDecimal::from(1 + r.below(40) as i32), _ => unit * BigDecimal::from(20) },
        "powf" | "powi" => match r.below(5) { 0 => near(r, "1"), 1 => unit * ten(r.below(20) as i64), 2 => unit, 3 => BigDecimal::from(r.below(40) as i32) * if name == "powi" { sgn } else { BigDecimal::from(1) }, _ => unit * BigDecimal::from(20) },
        "erf" | "erfc" | "dnorm" | "pnorm" => match r.below(6) { 0 => near(r, "0"), 1 => unit * BigDecimal::from(30) * sgn, 2 => BigDecimal::from(r.below(20) as i32) * sgn, _ => unit * BigDecimal::from(6) * sgn },
        _ => match r.below(6) { 0 => near(r, "0.5") * sgn, 1 => near(r, "1"), 2 => near(r, "0"), 3 => unit * ten(r.below(100) as i64) * sgn, _ => unit * BigDecimal::from(5) * sgn },
    }
}
fn args(r: &mut Rng, name: &str) -> Vec<BigDecimal> {
    match name {
        "powi" => vec![BigDecimal::from(r.below(60) as i32 - 20)],
        "powf" => { let k = r.below(4) as i64; vec![arg(r, "exp2") * ten(-k)] }
        "log" => vec![match r.below(4) { 0 => BigDecimal::from(2), 1 => BigDecimal::from(10), _ => { let x = arg(r, "ln"); if (&x - BigDecimal::from(1)).abs() < ten(-2) { BigDecimal::from(3) } else { x } } }],
        "dnorm" | "pnorm" => { let m = arg(r, "dnorm"); let s = arg(r, "dnorm").abs(); vec![m, if s < ten(-3) { BigDecimal::from(1) } else { s }] }
        _ => vec![],
    }
}
pub fn elem(c: &mut Ctx, measure: bool) -> Check {
    let mut r = c.rng(9);
    let mut worst: std::collections::BTreeMap<&str, BigDecimal> = Default::default();
    // known values at every number of digits
    for nd in 1..=90 {
        for (f, x, a) in [("pi", "0", ""), ("exp", "1", ""), ("exp", "-1", ""), ("ln", "2", ""), ("ln", "10", ""), ("sqrt", "2", ""), ("sin", "1", ""), ("cos", "1", ""), ("tan", "1", ""), ("atan", "1", ""), ("asin", "1", ""), ("acos", "-1", ""), ("erf", "1", ""), ("pnorm", "1", "0 1"), ("dnorm", "0", "0 1"), ("powf", "2", "0.5"), ("log2", "3", "")] {
            let a: Vec<BigDecimal> = a.split_whitespace().map(|x| x.parse().unwrap()).collect();
            c.cases += 1;
            if let Some(u) = ratio(f, &x.parse().unwrap(), &a, nd)? { let w = worst.entry(f).or_insert_with(BigDecimal::zero); if u > *w { *w = u; } }
        }
    }
    for _ in 0..c.n(100_000, 5_000_000) {
        if !c.time(1.0) { break }
        let f = F[r.below(F.len())];
        let nd = match r.below(4) { 0 => [1, 2, 3, 20, 40, 60, 90][r.below(7)], 1 => 1 + r.below(90) as i64, _ => 1 + r.below(45) as i64 };
        let x = arg(&mut r, f);
        let a = args(&mut r, f);
        c.cases += 1;
        match ratio(f, &x, &a, nd) {
            Ok(Some(u)) => { let w = worst.entry(f).or_insert_with(BigDecimal::zero); if u > *w { *w = u; } }
            Ok(None) => {}
            Err(b) => if measure { println!("{:?}", b) } else { return Err(b) },
        }
    }
    if measure { for (k, v) in worst { println!("{} {}", k, v) } } else { c.notes.push(format!("largest errors in units of the last digit: {}", worst.iter().map(|(k, v)| format!("{} {}", k, v.with_scale(2))).collect::<Vec<_>>().join(", "))) }
    let _ = BigInt::from(0);
    Ok(())
}
