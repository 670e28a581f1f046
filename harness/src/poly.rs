//! Interpolating polynomials at their points.
use crate::num::{decimal, show};
use crate::util::*;
use bigdecimal::BigDecimal;
use doctor_syn::polynomial::Polynomial;
use num_bigint::BigInt;
use num_traits::{Signed, Zero};

pub fn f(x: &BigDecimal) -> f64 {
    let (i, s) = x.as_bigint_and_exponent();
    let t = i.abs().to_string();
    let k = t.len().min(17);
    let v = t[..k].parse::<f64>().unwrap() * 10f64.powi((t.len() - k) as i32 - s as i32);
    if i.is_negative() { -v } else { v }
}
fn cut(x: &BigDecimal, nd: i64) -> BigDecimal {
    let (_, s) = x.as_bigint_and_exponent();
    if nd < 0 || s <= nd { return x.clone(); }
    let h = BigDecimal::new(BigInt::from(if x.is_negative() { -5 } else { 5 }), nd + 1);
    (x + h).with_scale(nd)
}
/// The bound of the proof on the loss at the points (units/poly.inc: te + sr), as a float.
pub fn bound(x: &[BigDecimal], y: &[BigDecimal], nd: i64) -> f64 {
    let k = y.len();
    let xs: Vec<f64> = x.iter().map(f).collect();
    let mut w = 0f64;
    for a in 0..k { w = w.max(xs[a].abs()); for b in 0..k { w = w.max((xs[a] - xs[b]).abs()); } }
    // divided differences to many digits
    let mut t = y.to_vec();
    let mut m = t.iter().map(f).fold(0f64, |a, b| a.max(b.abs()));
    for i in 0..k - 1 { for j in (i..k - 1).rev() { t[j + 1] = (&t[j + 1] - &t[j]) / (&x[j + 1] - &x[j - i]); m = m.max(f(&t[j + 1]).abs()); t[j + 1] = cut(&t[j + 1], nd); } }
    for v in &t { m = m.max(f(v).abs()); }
    let h = if nd < 0 { 0.0 } else { 0.5 * 10f64.powi(-nd as i32) };
    let d = h + m * 1e-98;
    let mut ps = 0.0; for j in 0..k { ps += w.powi(j as i32); }
    let (mut en, mut te) = (0.0, 0.0);
    for _ in 0..k { te += h * ps + m * en; en = w * en + h * ps; }
    let (mut er, mut sr) = (0.0, 0.0);
    for n in 0..k { er += d * w * w.powi(n as i32); sr += er; }
    te + sr
}
fn one(x: &[BigDecimal], y: &[BigDecimal], nd: i64, r: &mut Rng) -> Check {
    let show_in = format!("Polynomial::from_points([{}], [{}], {})", x.iter().map(show).collect::<Vec<_>>().join(", "), y.iter().map(show).collect::<Vec<_>>().join(", "), nd);
    let p = match guard(|| Polynomial::from_points(x, y, nd)) { Ok(p) => p, Err(e) => return bad(show_in, "a polynomial", format!("panic: {}", e)) };
    let t = p.terms().to_vec();
    let deg = t.iter().rposition(|c| !c.is_zero());
    if deg.map_or(false, |d| d >= x.len()) { return bad(show_in, format!("degree below {}", x.len()), format!("degree {:?}", deg)); }
    let tol = bound(x, y, nd) * 1000.0 + 1e-300;
    let value = |v: &BigDecimal| { let mut s = BigDecimal::zero(); let mut q = BigDecimal::from(BigInt::from(1)); for c in &t { s = s + c * &q; q = q * v; } s };
    if !tol.is_finite() { return Ok(()); }
    for i in 0..x.len() {
        let e = f(&(value(&x[i]) - &y[i]).abs());
        if !(e <= tol) { return bad(show_in, format!("the value {} at {} (within {:e})", show(&y[i]), show(&x[i]), tol), format!("{:e} away; the first terms are [{}]", e, t.iter().take(8).map(show).collect::<Vec<_>>().join(", "))); }
    }
    // evaluation is exact
    for i in 0..3 {
        let v = if i == 0 { x[0].clone() } else { decimal(r, 12, 8) };
        match guard(|| p.eval(v.clone())) {
            Ok(g) => { let w = value(&v); if g != w { return bad(format!("{} evaluated at {}", show_in, show(&v)), show(&w), show(&g)); } }
            Err(e) => return bad(format!("{} evaluated at {}", show_in, show(&v)), "a value", format!("panic: {}", e)),
        }
    }
    Ok(())
}
pub fn poly(c: &mut Ctx) -> Check {
    let mut r = c.rng(10);
    let int = |i: i64| BigDecimal::from(BigInt::from(i));
    // all small lists
    for k in 1..=4usize {
        for code in 0..(7usize.pow(k as u32)) {
            let x: Vec<BigDecimal> = (0..k).map(|i| int((code / 7usize.pow(i as u32) % 7) as i64 - 3)).collect();
            if (0..k).any(|a| (0..a).any(|b| x[a] == x[b])) { continue }
            c.cases += 1;
            let y: Vec<BigDecimal> = (0..k).map(|_| int(r.below(9) as i64 - 4)).collect();
            one(&x, &y, [30, 12, -1, 60][code % 4], &mut r)?;
        }
    }
    for k in 0..c.n(30_000, 400_000) {
        if !c.time(1.0) { break }
        let n = if k % 40 == 0 { 12 + r.below(20) } else { 1 + r.below(10) };
        let mut x: Vec<BigDecimal> = vec![];
        let style = r.below(6);
        while x.len() < n {
            let v = match style {
                0 => int(r.below(200) as i64 - 100),
                1 => int(x.len() as i64 - (n / 2) as i64),
                2 => BigDecimal::new(BigInt::from(r.below(4000) as i64 - 2000), 3),
                3 => BigDecimal::new(BigInt::from((1i64 << 40) + r.below(100) as i64), 12),
                4 => { let i = x.len(); if i % 2 == 0 { int(i as i64 / 2) } else { -int(i as i64 / 2 + 1) } }
                _ => { let s = 1 + r.below(3) as i64; decimal(&mut r, 6, 4).with_scale(s) }
            };
            if !x.contains(&v) { x.push(v) }
        }
        if r.chance(1, 4) { x.sort(); x.reverse(); } else if r.chance(1, 3) { x.sort(); }
        let y: Vec<BigDecimal> = match r.below(5) {
            0 => x.iter().map(|v| v * v - v).collect(),
            1 => (0..n).map(|_| if r.chance(1, 3) { int(1) } else { BigDecimal::zero() }).collect(),
            2 => (0..n).map(|_| decimal(&mut r, 60, 50)).collect(),
            3 => { let v = decimal(&mut r, 10, 6); vec![v; n] }
            _ => (0..n).map(|_| decimal(&mut r, 10, 6)).collect(),
        };
        let nd = match r.below(5) { 0 => if n <= 8 { -1 } else { 50 }, 1 => 5 + r.below(20) as i64, 2 => 60 + r.below(40) as i64, _ => 15 + r.below(40) as i64 };
        c.cases += 1;
        one(&x, &y, nd, &mut r)?;
    }
    Ok(())
}
