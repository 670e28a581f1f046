//! Floats: literals converted to a width, numbers to expressions and back.
use crate::gen;
use crate::num::{decimal, digits, lit_num, literal, show};
use crate::sem;
use crate::util::*;
use bigdecimal::BigDecimal;
use doctor_syn::Expression;
use num_bigint::BigInt;
use num_traits::{Signed, Zero};
use quote::ToTokens;
use std::convert::TryFrom;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone, Copy, PartialEq)]
pub struct W { pub m: i64, pub emin: i64, pub max_bits: u64 }
pub const W32: W = W { m: 23, emin: -149, max_bits: 0x7f7f_ffff };
pub const W64: W = W { m: 52, emin: -1074, max_bits: 0x7fef_ffff_ffff_ffff };
/// The number that the bits of a finite positive float stand for (one beyond the largest as if the range went on).
fn magnitude(w: W, bits: u64) -> BigDecimal {
    let e = (bits >> w.m) as i64;
    let f = bits & ((1u64 << w.m) - 1);
    let (mant, exp) = if e == 0 { (f, w.emin) } else { (f | (1u64 << w.m), w.emin + e - 1) };
    let m = BigInt::from(mant);
    if exp >= 0 { BigDecimal::new(m << exp as usize, 0) } else { BigDecimal::new(m * BigInt::from(5).pow((-exp) as u32), -exp) }
}
/// Are these bits (without the sign) those of the float nearest to |x|? The bits after the largest float are infinity.
fn nearest(w: W, x: &BigDecimal, bits: u64) -> bool {
    let x = x.abs();
    if bits > w.max_bits + 1 { return false; }
    let two = BigDecimal::from(2);
    let even = bits % 2 == 0;
    let y = magnitude(w, bits);
    let up = bits == w.max_bits + 1 || { let h = (&y + magnitude(w, bits + 1)) / &two; if even { x <= h } else { x < h } };
    let down = bits == 0 || { let h = (&y + magnitude(w, bits - 1)) * BigDecimal::new(BigInt::from(5), 1); if even { x >= h } else { x > h } };
    up && down
}
fn neg(x: &BigDecimal) -> bool { x.is_negative() }
fn is64(x: &BigDecimal, f: f64) -> bool { !f.is_nan() && nearest(W64, x, f.to_bits() & (!0u64 >> 1)) && (x.is_zero() || f == 0.0 || neg(x) == (f < 0.0)) }
fn is32(x: &BigDecimal, f: f32) -> bool { !f.is_nan() && nearest(W32, x, (f.to_bits() & (!0u32 >> 1)) as u64) && (x.is_zero() || f == 0.0 || neg(x) == (f < 0.0)) }
fn over(w: W, x: &BigDecimal) -> bool { nearest(w, x, w.max_bits + 1) }
/// A literal that is hard to round.
fn hard(r: &mut Rng) -> Expr {
    let w = if r.chance(1, 2) { W32 } else { W64 };
    let b = match r.below(7) { 6 if w == W32 => (127 + 50 + r.below(70) as u64) << 23 | r.below(1 << 23) as u64, 0 => r.below(8) as u64, 1 => w.max_bits - r.below(3) as u64, 2 => (1u64 << w.m) - 2 + r.below(4) as u64, _ => { if w == W32 { r.next() as u32 as u64 & 0x7fff_ffff } else { r.next() >> 1 } } }.min(w.max_bits);
    let b = if r.chance(2, 3) && w == W64 && b < w.max_bits && r.chance(2, 3) { (0x3ff - 60 + r.below(120) as u64) << 52 | b & 0xf_ffff_ffff_ffff } else { b };
    // half way, and a little to either side
    let h = (magnitude(w, b) + magnitude(w, b + 1)) * BigDecimal::new(BigInt::from(5), 1);
    let (_, s) = h.as_bigint_and_exponent();
    let whole = h.with_scale(0) == h;
    let d = BigDecimal::new(BigInt::from(r.below(3) as i64 - 1), if whole && r.chance(2, 3) { 0 } else { s + 3 + r.below(20) as i64 });
    let x = h + d;
    if r.chance(1, 3) { Expression::from(if r.chance(1, 4) { -x } else { x }).into_inner() } else {
        let (i, s) = x.abs().as_bigint_and_exponent();
        let t = match r.below(3) { 0 | 1 if s <= 0 && s > -400 => format!("{}{}", i, "0".repeat((-s) as usize)), 1 => format!("{}E{}", i, -s), _ => format!("{}e{}", i, -s) };
        parse_str(&format!("{}{}", t, if r.chance(1, 6) { *r.pick(&[&"f32", &"f64", &"_f64"]) } else { "" })).unwrap()
    }
}
struct Relit<'a>(&'a mut Rng, usize);
impl<'a> VisitMut for Relit<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Lit(l) = e {
            if let (true, Lit::Int(i)) = (self.0.chance(1, 8), &l.lit) { if i.suffix().is_empty() && !i.token().to_string().starts_with("0") { let t = format!("{}{}", i.base10_digits(), self.0.pick(&["u64", "i32", "f32", "f64"])); *e = parse_str(&t).unwrap(); return; } }
            if self.1 > 0 && !matches!(l.lit, Lit::Str(_) | Lit::Bool(_) | Lit::Char(_)) {
                let n = match self.0.below(if self.1 > 1 { 3 } else { 5 }) { 0 => hard(self.0), 1 => literal(self.0), _ => e.clone() };
                *e = n;
            }
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}
/// Is b the expression a with its number literals converted? The literal that is not, if any.
fn converted(ty: &str, bits: usize, a: &Expr, b: &Expr) -> std::result::Result<(), (String, String)> {
    let fail = |w: &str| Err((format!("{} for {}", w, sem::text(a)), sem::text(b)));
    match (a, b) {
        (Expr::Lit(l), _) if matches!(l.lit, Lit::Int(_) | Lit::Float(_)) => {
            let x = match lit_num(&l.lit) { Some(x) => x, None => return Ok(()) };
            match (ty, bits) {
                ("decimal", 32) | ("decimal", 64) => {
                    let suffix = if bits == 32 { "f32" } else { "f64" };
                    let k = match b { Expr::Lit(k) => k, Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) => match &**expr { Expr::Lit(k) => k, _ => return fail("a literal") }, _ => return fail("a literal") };
                    let minus = matches!(b, Expr::Unary(_));
                    let t = k.lit.to_token_stream().to_string().replace(['_', ' '], "");
                    let (s, d) = match &k.lit { Lit::Float(f) => (f.suffix().to_string(), f.base10_digits().to_string()), Lit::Int(f) => (f.suffix().to_string(), f.base10_digits().to_string()), _ => return fail("a number") };
                    if s != suffix || !t.ends_with(suffix) { return fail(&format!("a literal with the suffix {}", suffix)); }
                    let ok = if bits == 32 { match d.parse::<f32>() { Ok(f) => is32(&x, if minus { -f } else { f }), _ => false } } else { match d.parse::<f64>() { Ok(f) => is64(&x, if minus { -f } else { f }), _ => false } };
                    if ok { Ok(()) } else { fail(&format!("the nearest {}", suffix)) }
                }
                ("hex", 32) | ("hex", 64) => {
                    let (path, args) = match b { Expr::Call(c) => (sem::text(&c.func).replace(' ', ""), &c.args), _ => return fail("a call of from_bits") };
                    if path != format!("f{}::from_bits", bits) || args.len() != 1 { return fail(&format!("f{}::from_bits(..)", bits)); }
                    let (i, s) = match &args[0] { Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => (i.base10_parse::<u64>().ok(), i.suffix().to_string()), _ => return fail("bits") };
                    let i = match i { Some(i) => i, None => return fail("bits") };
                    if !s.is_empty() && s != format!("u{}", bits) { return fail("bits of the right type"); }
                    let ok = if bits == 32 { i <= u32::MAX as u64 && is32(&x, f32::from_bits(i as u32)) } else { is64(&x, f64::from_bits(i)) };
                    if ok { Ok(()) } else { fail("the bits of the nearest float") }
                }
                _ => if sem::norm(a) == sem::norm(b) { Ok(()) } else { fail("the same literal") },
            }
        }
        (Expr::Unary(u), Expr::Unary(v)) if u.op == v.op => converted(ty, bits, &u.expr, &v.expr),
        (Expr::Binary(u), Expr::Binary(v)) if u.op == v.op => { converted(ty, bits, &u.left, &v.left)?; converted(ty, bits, &u.right, &v.right) }
        (Expr::Paren(u), Expr::Paren(v)) => converted(ty, bits, &u.expr, &v.expr),
        (Expr::Field(u), Expr::Field(v)) if u.member == v.member => converted(ty, bits, &u.base, &v.base),
        (Expr::MethodCall(u), Expr::MethodCall(v)) if u.method == v.method && u.turbofish == v.turbofish && u.args.len() == v.args.len() => { converted(ty, bits, &u.receiver, &v.receiver)?; for (p, q) in u.args.iter().zip(v.args.iter()) { converted(ty, bits, p, q)?; } Ok(()) }
        (Expr::Lit(_), _) | (Expr::Path(_), _) => if a == b { Ok(()) } else { fail("no change") },
        _ => fail("the same expression"),
    }
}
fn any_over(w: W, e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::Int(_) | Lit::Float(_)) && lit_num(&l.lit).map_or(false, |x| over(w, &x)),
        Expr::Unary(u) => any_over(w, &u.expr), Expr::Binary(b) => any_over(w, &b.left) || any_over(w, &b.right), Expr::Paren(p) => any_over(w, &p.expr), Expr::Field(f) => any_over(w, &f.base),
        Expr::MethodCall(m) => any_over(w, &m.receiver) || m.args.iter().any(|a| any_over(w, a)), _ => false,
    }
}
fn huge(e: &Expr) -> bool { let mut h = false; struct V<'a>(&'a mut bool); impl<'a> VisitMut for V<'a> { fn visit_lit_mut(&mut self, l: &mut Lit) { if matches!(l, Lit::Int(_) | Lit::Float(_)) && lit_num(l).is_none() { *self.0 = true; } } } V(&mut h).visit_expr_mut(&mut e.clone()); h }
pub fn number_type(c: &mut Ctx) -> Check {
    let mut r = c.rng(12);
    let one = |c: &mut Ctx, e: &Expr, ty: &str, bits: usize| -> Check {
        if huge(e) { return Ok(()); }
        c.cases += 1;
        let w = format!("expr!({}).use_number_type({:?}, {})", sem::text(e), ty, bits);
        let x: Expression = e.clone().into();
        let got = match guard(|| x.use_number_type(ty, bits)) { Ok(g) => g, Err(m) => return bad(w, "an expression or an error", format!("panic: {}", m)) };
        let width = match (ty, bits) { ("decimal", 32) | ("hex", 32) => Some(W32), ("decimal", 64) | ("hex", 64) => Some(W64), _ => None };
        let want_err = !sem::supported(e) || width.map_or(false, |w| any_over(w, e));
        match got {
            Err(_) => if want_err { Ok(()) } else { bad(w, "an expression", "an error") },
            Ok(g) => {
                let g: Expr = g.into_inner();
                if want_err { return bad(w, "an error", sem::text(&g)); }
                match converted(ty, bits, e, &g) { Ok(()) => Ok(()), Err((x, y)) => bad(w, x, y) }
            }
        }
    };
    let types = [("decimal", 32usize), ("decimal", 64), ("hex", 32), ("hex", 64), ("decimal", 16), ("hex", 0), ("decimal", 128), ("octal", 32), ("", 64), ("Decimal", 64), ("hexx", 32), ("hex", 33)];
    for t in ["0", "1", "0.1", "16777217", "16777219", "9007199254740993", "9007199254740992.5", "1e-45", "7e-46", "0.7e-45", "1e-46", "3.4028235e38", "3.4028236e38", "3.40282356779733661637539395458142568447e38", "3.40282356779733661637539395458142568448e38", "1.7976931348623157e308", "1.7976931348623159e308", "1e309", "4.9e-324", "2.4e-324", "2.5e-324", "1e-400", "0x1F", "0xffffffffffffffff", "0b101", "7u8", "3f64", "1.5f32", "1_000.5", "123456789012345678901234567890123456789012345", "true", "'c'", "\"1.5\"", "b'a'", "x.0", "x.powi(3)", "-1.5", "f(1)", "1.17549429e-38", "18014399583223809", "9007199791611905", "36028799166447617", "1.5f64", "1e10f64", "2.5f32", "9f32", "9f64", "-1.5f64", "0.00000000000000000000000000000000000001175494350822287507968736537222245677818665556772087521508751706278417259454727172851560500000000000000001", "8388609.5", "8388608.5"] {
        let e: Expr = parse_str(t).unwrap();
        for (ty, bits) in types { one(c, &e, ty, bits)?; }
    }
    for t in [0.0f64, -0.0, -1.5, -1e300, 5e-324, 1.0] { for (ty, bits) in types { let e = Expression::from(t).into_inner(); one(c, &e, ty, bits)?; } }
    for k in 0..c.n(60_000, 2_000_000) {
        if !c.time(1.0) { break }
        let e = match k % 3 { 0 => { if r.chance(1, 2) { hard(&mut r) } else { literal(&mut r) } } _ => { let n = 1 + r.below(10); match gen::expr(&mut r, n, &gen::Opts { unsupported: k % 9 == 1, all_ops: true, lits: true, numeric: false }) { Some(e) => e, None => continue } } };
        let mut e = e;
        let style = r.below(3);
        Relit(&mut r, style).visit_expr_mut(&mut e);
        let (ty, bits) = if r.chance(7, 8) { types[r.below(4)] } else { types[r.below(types.len())] };
        one(c, &e, ty, bits)?;
    }
    Ok(())
}
pub fn convert(c: &mut Ctx) -> Check {
    let mut r = c.rng(13);
    let f64_trip = |c: &mut Ctx, x: f64| -> Check {
        if !x.is_finite() { return Ok(()); }
        c.cases += 1;
        let w = format!("Expression::from({:?}f64)", x);
        let e = match guard(|| Expression::from(x)) { Ok(e) => e, Err(m) => return bad(w, "an expression", format!("panic: {}", m)) };
        let back = [f64::try_from(&e), f64::try_from(e.clone())];
        for b in back { match b { Ok(y) if y == x => {} Ok(y) => return bad(format!("{} read back as f64", w), format!("{:?}", x), format!("{:?}", y)), Err(_) => return bad(format!("{} read back as f64", w), format!("{:?}", x), "an error") } }
        for b in [BigDecimal::try_from(&e), BigDecimal::try_from(e.clone())] { match b { Ok(y) if is64(&y, x) => {} Ok(y) => return bad(format!("{} read back as a decimal", w), format!("a decimal whose nearest f64 is {:?}", x), show(&y)), Err(_) => return bad(format!("{} read back as a decimal", w), "a decimal", "an error") } }
        let y = e.inner_value();
        if !y.map_or(false, |y| is64(&y, x)) { return bad(w, format!("the number {:?}", x), e.to_string()); }
        Ok(())
    };
    let f32_trip = |c: &mut Ctx, x: f32| -> Check {
        if !x.is_finite() { return Ok(()); }
        c.cases += 1;
        let w = format!("Expression::from({:?}f32)", x);
        let e = match guard(|| Expression::from(x)) { Ok(e) => e, Err(m) => return bad(w, "an expression", format!("panic: {}", m)) };
        for b in [f32::try_from(&e), f32::try_from(e.clone())] { match b { Ok(y) if y == x => {} Ok(y) => return bad(format!("{} read back as f32", w), format!("{:?}", x), format!("{:?}", y)), Err(_) => return bad(format!("{} read back as f32", w), format!("{:?}", x), "an error") } }
        match BigDecimal::try_from(&e) { Ok(y) if is32(&y, x) => {} Ok(y) => return bad(format!("{} read back as a decimal", w), format!("a decimal whose nearest f32 is {:?}", x), show(&y)), Err(_) => return bad(w, "a decimal", "an error") }
        Ok(())
    };
    let dec_trip = |c: &mut Ctx, x: &BigDecimal| -> Check {
        c.cases += 1;
        let w = format!("Expression::from(BigDecimal {})", show(x));
        let e = match guard(|| Expression::from(x.clone())) { Ok(e) => e, Err(m) => return bad(w, "an expression", format!("panic: {}", m)) };
        for b in [BigDecimal::try_from(&e), BigDecimal::try_from(e.clone())] { match b { Ok(y) if y == *x => {} Ok(y) => return bad(format!("{} read back", w), show(x), show(&y)), Err(_) => return bad(format!("{} read back", w), show(x), "an error") } }
        match f64::try_from(&e) { Ok(y) if is64(x, y) => {} Ok(y) => return bad(format!("{} read back as f64", w), "the nearest f64", format!("{:?}", y)), Err(_) => return bad(w, "an f64", "an error") }
        match f32::try_from(&e) { Ok(y) if is32(x, y) => {} Ok(y) => return bad(format!("{} read back as f32", w), "the nearest f32", format!("{:?}", y)), Err(_) => return bad(w, "an f32", "an error") }
        Ok(())
    };
    let read = |c: &mut Ctx, e: &Expr| -> Check {
        if huge(e) { return Ok(()); }
        c.cases += 1;
        let w = format!("expr!({})", sem::text(e));
        let x: Expression = e.clone().into();
        let num = match e { Expr::Lit(l) if matches!(l.lit, Lit::Int(_) | Lit::Float(_)) => lit_num(&l.lit), _ => None };
        let (d, d2) = match guard(|| (BigDecimal::try_from(&x), BigDecimal::try_from(x.clone()))) { Ok(d) => d, Err(m) => return bad(w, "a number or an error", format!("panic: {}", m)) };
        let (f, f2) = match guard(|| (f64::try_from(&x), f64::try_from(x.clone()))) { Ok(d) => d, Err(m) => return bad(w, "a number or an error", format!("panic: {}", m)) };
        let (s, s2) = match guard(|| (f32::try_from(&x), f32::try_from(x.clone()))) { Ok(d) => d, Err(m) => return bad(w, "a number or an error", format!("panic: {}", m)) };
        for d in [d, d2] { match (&num, d) { (Some(n), Ok(y)) if *n == y => {} (None, Err(_)) => {} (_, Ok(y)) => return bad(format!("{} as a decimal", w), num.as_ref().map_or("an error".into(), show), show(&y)), (_, Err(_)) => return bad(format!("{} as a decimal", w), "a number", "an error") } }
        for d in [f, f2] { match (&num, d) { (Some(n), Ok(y)) if is64(n, y) => {} (None, Err(_)) => {} (_, Ok(y)) => return bad(format!("{} as f64", w), if num.is_some() { "the nearest f64" } else { "an error" }, format!("{:?}", y)), (_, Err(_)) => return bad(format!("{} as f64", w), "a number", "an error") } }
        for d in [s, s2] { match (&num, d) { (Some(n), Ok(y)) if is32(n, y) => {} (None, Err(_)) => {} (_, Ok(y)) => return bad(format!("{} as f32", w), if num.is_some() { "the nearest f32" } else { "an error" }, format!("{:?}", y)), (_, Err(_)) => return bad(format!("{} as f32", w), "a number", "an error") } }
        Ok(())
    };
    for t in ["x", "(1)", "-1", "1 + 1", "true", "'c'", "\"1\"", "b'1'", "f(1)", "1u8", "0x10", "1e5", "1f32", "x.0", "[1]", "1.5f64"] { read(c, &parse_str(t).unwrap())?; }
    for e in 0..=0xfeu32 { for m in [0u32, 1, 0x7f_ffff, 0x40_0000, 0x55_5555] { for s in [0u32, 1 << 31] { f32_trip(c, f32::from_bits(s | e << 23 | m))?; } } }
    for e in 0..=0x7feu64 { for m in [0u64, 1, 0xf_ffff_ffff_ffff, 0x5_5555_5555_5555] { f64_trip(c, f64::from_bits((e & 1) << 63 | e << 52 | m))?; } }
    for _ in 0..c.n(60_000, 2_000_000) {
        if !c.time(1.0) { break }
        match r.below(6) {
            0 => { let x = f64::from_bits(r.next()); f64_trip(c, x)? }
            1 => { let x = match r.below(3) { 0 => r.unit() * 100.0, 1 => r.below(1 << 20) as f64 / 1024.0, _ => (r.next() as i64) as f64 }; f64_trip(c, if r.chance(1, 2) { -x } else { x })? }
            2 => { let x = f32::from_bits(r.next() as u32); f32_trip(c, x)? }
            3 => { let x = match r.below(4) { 0 => decimal(&mut r, 40, 40), 1 => decimal(&mut r, 200, 300), 2 => BigDecimal::new(digits(&mut r, 5), -(r.below(400) as i64)), _ => BigDecimal::new(digits(&mut r, 30), r.below(400) as i64) }; dec_trip(c, &x)? }
            4 => { let e = hard(&mut r); read(c, &e)? }
            _ => { let e = if r.chance(3, 4) { literal(&mut r) } else { match gen::expr(&mut r, 4, &gen::ANY) { Some(e) => e, None => continue } }; read(c, &e)? }
        }
    }
    Ok(())
}
trait Inner { fn inner_value(&self) -> Option<BigDecimal>; }
impl Inner for Expression { fn inner_value(&self) -> Option<BigDecimal> { crate::num::expr_num(&self.clone().into_inner()) } }
