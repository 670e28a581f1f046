//! Rounding, arithmetic of numbers and evaluation against exact integer arithmetic.
use crate::util::*;
use bigdecimal::BigDecimal;
use doctor_syn::bdmath;
use num_bigint::{BigInt, Sign};
use num_traits::{Signed, Zero};

pub fn p10(k: u64) -> BigInt { BigInt::from(10).pow(k as u32) }
/// A random integer with this many digits, often all nines, fives or zeros in a row.
pub fn digits(r: &mut Rng, n: usize) -> BigInt {
    if r.chance(1, 9) {
        // about a power of two, where machine integers and floats end
        let k = [7, 8, 15, 16, 24, 31, 32, 53, 63, 63, 64, 127, 128][r.below(13)];
        let w = if r.chance(1, 2) { 3 } else { 1usize << (k / 2).min(30) };
        let v = BigInt::from(2).pow(k as u32) + BigInt::from(r.below(2 * w) as i64 - w as i64);
        return if r.chance(1, 2) { -v } else { v };
    }
    let mut s = String::new();
    let mut run: Option<(char, usize)> = None;
    for _ in 0..n {
        let c = match run {
            Some((c, k)) if k > 0 => { run = Some((c, k - 1)); c }
            _ => { if r.chance(1, 6) { run = Some((r.pick(&["0", "9", "5", "4"]).chars().next().unwrap(), r.below(8))); } (b'0' + r.below(10) as u8) as char }
        };
        s.push(c);
    }
    let v: BigInt = s.parse().unwrap_or(BigInt::zero());
    if r.chance(1, 2) { -v } else { v }
}
pub fn decimal(r: &mut Rng, max_digits: usize, max_scale: i64) -> BigDecimal {
    let n = 1 + r.below(max_digits);
    let i = digits(r, n);
    BigDecimal::new(i, r.below((max_scale + 6) as usize) as i64 - 5)
}
pub fn show(x: &BigDecimal) -> String { let (i, s) = x.as_bigint_and_exponent(); format!("{}e{}", i, -s) }
/// Is r a rounding of x to d digits?
pub fn rounded(x: &BigDecimal, d: i64, r: &BigDecimal) -> Result<(), String> {
    let (i, s) = x.as_bigint_and_exponent();
    if d < 0 || s <= d { return if x == r { Ok(()) } else { Err(format!("{} unchanged", show(x))) }; }
    // nearest multiple of 10^(s-d), ties away from zero
    let m = p10((s - d) as u64);
    let a = i.abs();
    let (q, rem) = (&a / &m, &a % &m);
    let q = if &rem * 2 >= m { q + 1 } else { q };
    let want = BigDecimal::new(if i.sign() == Sign::Minus { -q } else { q }, d);
    let fits = r.as_bigint_and_exponent().1 <= d || (r.with_scale(d) == *r);
    if *r == want && fits { Ok(()) } else { Err(show(&want)) }
}
pub fn round(c: &mut Ctx) -> Check {
    let one = |x: BigDecimal, d: i64| -> Check {
        let show_in = format!("round({}, {})", show(&x), d);
        match guard(|| bdmath::round(x.clone(), d)) {
            Err(p) => bad(show_in, "a number", format!("panic: {}", p)),
            Ok(r) => match rounded(&x, d, &r) { Ok(()) => Ok(()), Err(w) => bad(show_in, w, show(&r)) },
        }
    };
    // everything small
    for i in -1200i64..=1200 { for s in -1..=5 { for d in -2..=5 { c.cases += 1; one(BigDecimal::new(BigInt::from(i), s), d)? } } }
    let mut r = c.rng(8);
    for k in 0..c.n(200_000, 4_000_000) {
        if !c.time(1.0) { break }
        c.cases += 1;
        let x = if k % 3 == 0 { decimal(&mut r, 12, 14) } else if k % 50 == 1 { decimal(&mut r, 400, 500) } else { decimal(&mut r, 70, 80) };
        let (i, s) = x.as_bigint_and_exponent();
        let d = match r.below(8) { 0 => s - 1, 1 => s, 2 => s + 1 + r.below(5) as i64, 3 => -(r.below(9) as i64), 4 => s - 2, _ => if s > 0 { r.below(s as usize + 2) as i64 } else { r.below(20) as i64 } };
        one(x.clone(), d)?;
        // a tie and its neighbours
        if s > 1 {
            let dd = r.below(s as usize) as i64;
            let m = p10((s - dd) as u64);
            let half: BigInt = &m / 2; let t: BigInt = (&i / &m) * &m + if i.sign() == Sign::Minus { -half } else { half };
            for e in -1..=1 { c.cases += 1; one(BigDecimal::new(&t + e, s), dd)?; }
        }
    }
    // through evaluation
    for _ in 0..c.n(2_000, 50_000) {
        c.cases += 1;
        let x = decimal(&mut r, 30, 30);
        if x.as_bigint_and_exponent().1 < 0 { continue }
        let d = r.below(40) as i64;
        let s = format!("({}).round()", x);
        let s2 = format!("({}) * 1.0", x);
        for (t, dd) in [(s, 0), (s2, d)] {
            let e: doctor_syn::Expression = match t.parse() { Ok(e) => e, Err(_) => continue };
            match guard(|| e.eval(d).and_then(|r| { let b: doctor_syn::Result<BigDecimal> = std::convert::TryInto::try_into(r); b })) {
                Err(p) => return bad(format!("eval({}) of {}", d, t), "a number", format!("panic: {}", p)),
                Ok(Err(e)) => return bad(format!("eval({}) of {}", d, t), "a number", format!("{}", e)),
                Ok(Ok(v)) => {
                    let y = if dd == d && t.ends_with("1.0") { &x * BigDecimal::new(BigInt::from(10), 1) } else { x.clone() };
                    if let Err(w) = rounded(&y, dd, &v) { return bad(format!("eval({}) of {}", d, t), w, show(&v)) }
                }
            }
        }
    }
    Ok(())
}
/// The number a literal stands for, read from its text independently of the code under test.
pub fn lit_num(l: &syn::Lit) -> Option<BigDecimal> {
    use quote::ToTokens;
    let t = l.to_token_stream().to_string().replace(['_', ' '], "");
    let (neg, t) = match t.strip_prefix('-') { Some(u) => (true, u.to_string()), None => (false, t) };
    let radix = if t.starts_with("0x") { 16 } else if t.starts_with("0o") { 8 } else if t.starts_with("0b") { 2 } else { 10 };
    let mut i = if radix != 10 { 2 } else { 0 };
    let b: Vec<char> = t.chars().collect();
    let (mut v, mut scale, mut dot, mut exp) = (BigInt::zero(), 0i64, false, 0i64);
    while i < b.len() {
        match b[i] {
            '.' if radix == 10 && !dot => dot = true,
            'e' | 'E' if radix == 10 => {
                let mut j = i + 1;
                let mut s = String::new();
                if j < b.len() && (b[j] == '-' || b[j] == '+') { s.push(b[j]); j += 1; }
                while j < b.len() && b[j].is_ascii_digit() { s.push(b[j]); j += 1; }
                exp = s.parse().ok()?;
                break;
            }
            c => match c.to_digit(radix) { Some(d) => { v = v * radix + d; if dot { scale += 1 } } None => break },
        }
        i += 1;
    }
    if exp.abs() > 2_000_000 { return None; }
    Some(BigDecimal::new(if neg { -v } else { v }, scale - exp))
}
pub fn expr_num(e: &syn::Expr) -> Option<BigDecimal> {
    match e {
        syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Int(_) | syn::Lit::Float(_)) => lit_num(&l.lit),
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Neg(_)) => expr_num(&u.expr).map(|x| -x),
        syn::Expr::Paren(p) => expr_num(&p.expr),
        syn::Expr::Group(p) => expr_num(&p.expr),
        _ => None,
    }
}
fn dg(r: &mut Rng, n: usize) -> BigInt { let n = 1 + r.below(n); digits(r, n).abs() }
pub fn literal(r: &mut Rng) -> syn::Expr {
    loop {
        let s = match r.below(9) {
            0 => format!("{}", r.below(20)),
            1 => format!("{}", dg(r, 50)),
            2 => format!("{}.{}", dg(r, 30), dg(r, 30)),
            3 => format!("{}e{}", dg(r, 20), r.below(700) as i64 - 350),
            4 => format!("{}.{}E-{}", r.below(100), dg(r, 20), r.below(60)),
            5 => r.pick(&["0x1F", "0b1011", "0o17", "1_000", "1_0.2_5", "2.", "7u8", "3f64", "1.5f32", "0xffff_ffff_ffff_ffffu64", "1e3f32", "1E+2", "0.000", "0e5", "00012", "5.0e-324", "1.7976931348623157e308", "1_u32", "340282366920938463463374607431768211455"]).to_string(),
            6 => { let x = decimal(r, 40, 40); return doctor_syn::Expression::from(x).into_inner() }
            7 => { let x = f64::from_bits(r.next()); if !x.is_finite() { continue } return doctor_syn::Expression::from(x).into_inner() }
            _ => format!("{}", r.below(1000) as f64 / 8.0),
        };
        if let Ok(e) = syn::parse_str(&s) { return e; }
    }
}
pub fn ops(c: &mut Ctx) -> Check {
    use crate::{gen, sem};
    use doctor_syn::Expression;
    let mut r = c.rng(6);
    let names = ["+", "-", "*", "/"];
    let apply = |k: usize, a: &syn::Expr, b: &syn::Expr| {
        let (x, y) = (Expression::from(a.clone()), Expression::from(b.clone()));
        guard(|| match k { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y })
    };
    let text = sem::text;
    let one = |k: usize, a: &syn::Expr, b: &syn::Expr| -> Check {
        let what = || format!("({}) {} ({}) as Expression", text(a), names[k], text(b));
        let lit = |e: &syn::Expr| match e { syn::Expr::Lit(_) => expr_num(e), _ => None };
        if let (Some(x), Some(y)) = (lit(a), lit(b)) {
            if k == 3 && y.is_zero() { return Ok(()) }
            let res = match apply(k, a, b) { Err(p) => return bad(what(), "a number", format!("panic: {}", p)), Ok(e) => e.into_inner() };
            let Some(v) = expr_num(&res) else { return bad(what(), "a number", text(&res)) };
            let ok = match k { 0 => v == &x + &y, 1 => v == &x - &y, 2 => v == &x * &y, _ => (&v * &y - &x).abs() <= x.abs() * BigDecimal::new(BigInt::from(1), 90) };
            if !ok { return bad(what(), format!("the {} of {} and {}", ["sum", "difference", "product", "quotient"][k], show(&x), show(&y)), text(&res)) }
            // and as text
            if let Some(p) = sem::reparse(&res) { if expr_num(&p).map_or(true, |w| w != v) { return bad(what(), show(&v), format!("text {}", text(&res))) } }
            return Ok(());
        }
        let res = match apply(k, a, b) { Err(p) => return bad(what(), "an expression", format!("panic: {}", p)), Ok(e) => e.into_inner() };
        let want = sem::mk(a, k, b);
        if !sem::same_value(&want, &res) { return bad(what(), format!("the value of that operator on these operands"), text(&res)) }
        match sem::reparse(&res) { None => return bad(what(), "text that parses", text(&res)), Some(p) => if !sem::same_value(&want, &p) { return bad(what(), "text that means the operator on these operands", text(&res)) } }
        Ok(())
    };
    let small: Vec<syn::Expr> = gen::trees(1, &["x", "2"]).concat().into_iter().filter(|e| sem::prints_itself(e)).collect();
    for a in &small { for b in &small { for k in 0..4 { c.cases += 1; one(k, a, b)? } } }
    let unsup = gen::Opts { unsupported: true, ..gen::ANY };
    for i in 0..c.n(120_000, 2_000_000) {
        if !c.time(1.0) { break }
        let side = |r: &mut Rng| -> Option<syn::Expr> { match r.below(6) { 0 | 1 => Some(literal(r)), 2 => gen::expr(r, 6, &unsup), 3 => gen::big(r), _ => gen::expr(r, 6, &gen::ANY) } };
        let (a, b) = if i % 3 == 0 { (Some(literal(&mut r)), Some(literal(&mut r))) } else { (side(&mut r), side(&mut r)) };
        if let (Some(a), Some(b)) = (a, b) {
            if !sem::prints_itself(&a) || !sem::prints_itself(&b) { continue }
            c.cases += 1;
            one(r.below(4), &a, &b)?;
        }
    }
    Ok(())
}
/// Prints values of the oracle, to compare with another implementation (tools/oracle.py).
pub fn oracle() {
    use crate::fix::Fix;
    let mut l = String::new();
    while std::io::stdin().read_line(&mut l).unwrap_or(0) > 0 {
        let p: Vec<&str> = l.split_whitespace().collect();
        let d = |i: usize| -> BigDecimal { p[i].parse().unwrap() };
        let f = Fix::new(p[1].parse().unwrap());
        let x = d(2);
        let r = match p[0] {
            "pi" => f.pi(), "exp" => f.exp(&f.from(&x)), "ln" => f.ln(&x), "sin" => f.sincos(&f.from(&x)).0, "cos" => f.sincos(&f.from(&x)).1,
            "atan" => f.atan(&f.from(&x)), "asin" => f.asin(&x), "erf" => f.erf(&f.from(&x)), "dnorm" => f.dnorm(&f.from(&x)), "pnorm" => f.pnorm(&f.from(&x)),
            "pow" => f.pow(&x, &d(3)), "sqrt" => f.sqrt(&f.from(&x)), _ => panic!(),
        };
        println!("{}", f.to(&r));
        l.clear();
    }
}
