//! expand, subst, paren, collect_terms and the arithmetic operators against their meaning.
use crate::{gen, sem::*, util::*};
use doctor_syn::{Expression, Name, VariableList};
use syn::*;

fn inputs(c: &mut Ctx, salt: u64, f: &mut dyn FnMut(&Expr) -> Check) -> Check {
    let small = gen::trees(if c.thorough { 4 } else { 3 }, &["x", "2", "lit-3"]);
    for level in &small { for e in level { if !c.time(0.4) { break } c.cases += 1; f(e)? } }
    let mut r = c.rng(salt);
    let unsup = gen::Opts { unsupported: true, ..gen::ANY };
    for i in 0..c.n(60_000, 2_000_000) {
        if !c.time(1.0) { break }
        let e = match i % 10 { 0 => gen::big(&mut r), 1 => gen::expr(&mut r, 12, &unsup), 2 => gen::expr(&mut r, 30, &gen::ANY), _ => gen::expr(&mut r, 9, &gen::ANY) };
        if let Some(e) = e { c.cases += 1; f(&e)? }
    }
    Ok(())
}
/// How many terms expanding makes.
fn terms(e: &Expr) -> f64 {
    match e {
        Expr::Paren(p) => terms(&p.expr),
        Expr::Unary(u) => terms(&u.expr),
        Expr::Binary(b) => match b.op { BinOp::Add(_) | BinOp::Sub(_) => terms(&b.left) + terms(&b.right), BinOp::Mul(_) => terms(&b.left) * terms(&b.right), _ => 1.0 },
        Expr::MethodCall(m) => m.args.iter().map(terms).fold(terms(&m.receiver), f64::max),
        Expr::Field(f) => terms(&f.base),
        _ => 1.0,
    }
}
fn xacc(e: &Expr) -> bool {
    match e {
        Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)),
        Expr::Binary(_) | Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Paren(p) => xacc(&p.expr),
        Expr::Field(f) => xacc(&f.base),
        Expr::MethodCall(m) => xacc(&m.receiver) && m.args.iter().all(xacc),
        _ => false,
    }
}
fn printed(name: &str, e: &Expr, r: &Expr) -> Check {
    if supported(e) && prints_itself(e) {
        match reparse(r) {
            None => return bad(format!("{} of {}", name, text(e)), "text that parses", text(r)),
            Some(p) => if !same_value(r, &p) { return bad(format!("{} of {}", name, text(e)), format!("text that means the result tree {:?}", r.clone()), text(r)) }
        }
    }
    Ok(())
}
fn run(name: &str, e: &Expr, f: impl FnOnce(Expression) -> doctor_syn::Result<Expression>) -> std::result::Result<Option<Expr>, Bad> {
    let x = Expression::from(e.clone());
    match guard(|| f(x)) {
        Err(p) => Err(Bad { input: format!("{} of {}", name, text(e)), expected: "a result".into(), got: format!("panic: {}", p) }),
        Ok(Err(_)) => Ok(None),
        Ok(Ok(r)) => Ok(Some(r.into_inner())),
    }
}
fn nosum(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => nosum(&p.expr),
        Expr::Unary(u) => !matches!(u.op, UnOp::Neg(_)) || nosum(&u.expr),
        Expr::Binary(b) => match b.op { BinOp::Add(_) | BinOp::Sub(_) => false, BinOp::Mul(_) => nosum(&b.left) && nosum(&b.right), _ => true },
        _ => true,
    }
}
fn distributed(e: &Expr) -> bool {
    nosum(e) || matches!(e, Expr::Binary(b) if matches!(b.op, BinOp::Add(_) | BinOp::Sub(_)) && distributed(&b.left) && nosum(&b.right))
}
fn normal(e: &Expr, r: &Expr) -> bool {
    match (e, r) {
        (Expr::Unary(_), _) | (Expr::Binary(_), _) => distributed(r),
        (Expr::Paren(p), Expr::Paren(q)) => normal(&p.expr, &q.expr),
        (Expr::Field(p), Expr::Field(q)) => normal(&p.base, &q.base),
        (Expr::MethodCall(p), Expr::MethodCall(q)) => normal(&p.receiver, &q.receiver) && p.args.len() == q.args.len() && p.args.iter().zip(q.args.iter()).all(|(a, b)| normal(a, b)),
        (Expr::Paren(_), _) | (Expr::Field(_), _) | (Expr::MethodCall(_), _) => false,
        _ => true,
    }
}
pub fn expand_value(c: &mut Ctx) -> Check {
    inputs(c, 1, &mut |e| {
        if terms(e) > 300.0 { return Ok(()) }
        match run("expand", e, |x| x.expand())? {
            None => if xacc(e) { return bad(text(e), "expand succeeds", "an error") },
            Some(r) => {
                if !same_value(e, &r) { return bad(text(e), "an expansion of the same value", text(&r)) }
                printed("expand", e, &r)?;
            }
        }
        Ok(())
    })
}
pub fn expand_normal(c: &mut Ctx) -> Check {
    inputs(c, 2, &mut |e| {
        if terms(e) > 300.0 { return Ok(()) }
        match run("expand", e, |x| x.expand())? {
            None => if xacc(e) { return bad(text(e), "expand succeeds", "an error") },
            Some(r) => if !normal(e, &r) { return bad(text(e), "a flat sum of terms without sums", text(&r)) },
        }
        Ok(())
    })
}
fn grouped(e: &Expr) -> bool {
    let op = |e: &Expr| matches!(e, Expr::Binary(_) | Expr::Unary(_));
    match e {
        Expr::Unary(u) => grouped(&u.expr) && !op(&u.expr),
        Expr::Binary(b) => grouped(&b.left) && !op(&b.left) && grouped(&b.right) && !op(&b.right),
        Expr::Paren(p) => grouped(&p.expr),
        Expr::Field(f) => grouped(&f.base),
        Expr::MethodCall(m) => grouped(&m.receiver) && m.args.iter().all(grouped),
        _ => true,
    }
}
pub fn paren(c: &mut Ctx) -> Check {
    let cap = Capture::new();
    if cap.is_none() { c.notes.push("standard output not captured".into()); }
    let mut seen = 0;
    inputs(c, 3, &mut |e| {
        let res = run("paren", e, |x| x.paren())?;
        if let Some(cap) = &cap { let n = cap.written(); if n > seen { seen = n; return bad(text(e), "nothing written to standard output or error", format!("{} bytes written", n)) } }
        match res {
            None => if supported(e) { return bad(text(e), "paren succeeds", "an error") },
            Some(r) => {
                if !supported(e) { return bad(text(e), "an error: unsupported expression", text(&r)) }
                if !same_value(e, &r) { return bad(text(e), "the same value", text(&r)) }
                if !grouped(&r) { return bad(text(e), "all operands that are operators in parentheses", text(&r)) }
                printed("paren", e, &r)?;
            }
        }
        Ok(())
    })
}
pub fn traverse(c: &mut Ctx) -> Check {
    inputs(c, 4, &mut |e| {
        let name: Path = parse_str("x").unwrap();
        match run("collect_terms", e, |x| x.collect_terms(Name::from(name.clone())))? {
            None => if supported(e) { return bad(text(e), "collect_terms succeeds", "an error") },
            Some(r) => {
                if !supported(e) { return bad(text(e), "an error: unsupported expression", text(&r)) }
                if r != *e { return bad(text(e), format!("the same expression {:?}", e), format!("{:?}", r)) }
            }
        }
        // Each traversal reports what it does not handle.
        let s = run("subst", e, |x| x.subst(VariableList::new()))?;
        if s.is_some() != supported(e) { return bad(text(e), format!("subst without variables succeeds: {}", supported(e)), format!("{:?}", s.map(|r| text(&r)))) }
        if let Some(r) = s { if r != *e { return bad(text(e), "subst without variables changes nothing", text(&r)) } }
        let u = run("use_number_type", e, |x| x.use_number_type("none", 64));
        if let Ok(u) = u {
            if u.is_some() && !supported(e) { return bad(text(e), "an error: unsupported expression", format!("{:?}", u.map(|r| text(&r)))) }
            if let Some(r) = u { if r != *e { return bad(text(e), "a number type that does not exist changes nothing", text(&r)) } }
        }
        Ok(())
    })
}
fn plain(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.qself.is_none(),
        Expr::Paren(p) => plain(&p.expr),
        Expr::Unary(u) => plain(&u.expr),
        Expr::Binary(b) => plain(&b.left) && plain(&b.right),
        Expr::Field(f) => plain(&f.base),
        Expr::MethodCall(m) => plain(&m.receiver) && m.args.iter().all(plain),
        _ => true,
    }
}
pub fn subst(c: &mut Ctx) -> Check {
    let mut r = c.rng(50);
    let names = ["x", "y", "z", "PI", "a::b", "::g::h", "fty::INFINITY", "std::f64::consts::PI", "r#type"];
    let fixed = ["y + 1", "-y", "x", "y", "x * y", "2", "(x)", "x.abs()", "x - y - 1", "!x", "x << 2", "x == y", "x / y", "-x * y", "1.5", "f::g"];
    inputs(c, 5, &mut |e| {
        let mut list: Vec<(Path, Expr)> = vec![];
        for _ in 0..r.below(4) {
            let v = match r.below(4) {
                0 => gen::expr(&mut r, 4, &gen::ANY),
                1 => Some(Expression::from(*&[-2.0, 3.0, -0.5, 1e-9, -7e20][r.below(5)]).into_inner()),
                _ => parse_str(r.pick(&fixed)).ok(),
            };
            let m = if r.chance(2, 3) { 2 } else { names.len() };
            let n: Path = parse_str(names[r.below(m)]).unwrap();
            if let Some(v) = v { if prints_itself(&v) && plain(&v) { list.push((n, v)); } }
        }
        let mut vars = VariableList::new();
        if r.chance(1, 2) { for (n, v) in &list { vars.add_var(Name::from(n.clone()), Expression::from(v.clone())); } }
        else { vars = VariableList::from(list.iter().map(|(n, v)| (Name::from(n.clone()), Expression::from(v.clone()))).collect::<Vec<_>>()); }
        let show = || format!("{} with {}", text(e), list.iter().map(|(n, v)| format!("{} = {}", quote::quote!(#n), text(v))).collect::<Vec<_>>().join(", "));
        for (n, _) in &list {
            let first = list.iter().find(|(m, _)| m == n).map(|(_, v)| v.clone());
            let got = vars.find(&Name::from(n.clone())).map(|x| x.into_inner());
            if got != first { return bad(show(), format!("find gives the first value {:?}", first.map(|v| text(&v))), format!("{:?}", got.map(|v| text(&v)))) }
        }
        match run("subst", e, |x| x.subst(vars))? {
            None => if supported(e) { return bad(show(), "subst succeeds", "an error") },
            Some(x) => {
                if !supported(e) { return bad(show(), "an error: unsupported expression", text(&x)) }
                if plain(e) {
                    for salt in 1..4 {
                        let env = Env { salt, subst: None };
                        let undefined = std::cell::Cell::new(false);
                        let f = |p: &Path| list.iter().find(|(n, _)| n == p).map(|(_, v)| match val(&env, v) { Some(v) => v, None => { undefined.set(true); 0 } });
                        let senv = Env { salt, subst: Some(&f) };
                        if let (Some(a), Some(b)) = (val(&senv, e), val(&env, &x)) {
                            if a != b && !undefined.get() { return bad(show(), "the value with the variables replaced", text(&x)) }
                        }
                    }
                }
                printed(&format!("subst {}", show()), e, &x)?;
            }
        }
        Ok(())
    })
}
