//! The value of an expression over a field of 2^61-1 elements; everything that is not real
//! arithmetic (method calls, comparisons, ...) is an uninterpreted function of its operands.
use quote::ToTokens;
use syn::*;

pub const P: u64 = (1u64 << 61) - 1;
pub fn mul(a: u64, b: u64) -> u64 { ((a as u128 * b as u128) % P as u128) as u64 }
pub fn add(a: u64, b: u64) -> u64 { ((a as u128 + b as u128) % P as u128) as u64 }
pub fn neg(a: u64) -> u64 { if a == 0 { 0 } else { P - a } }
pub fn pw(mut a: u64, mut e: u64) -> u64 { let mut r = 1; while e > 0 { if e & 1 == 1 { r = mul(r, a) } a = mul(a, a); e >>= 1; } r }
pub fn inv(a: u64) -> u64 { pw(a, P - 2) }
pub fn hash(tag: &str, parts: &[u64]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut eat = |b: u64| { h = (h ^ b).wrapping_mul(0x100000001b3); h ^= h >> 29; h = h.wrapping_mul(0xBF58476D1CE4E5B9); h ^= h >> 32; };
    for b in tag.bytes() { eat(b as u64 + 1) }
    eat(parts.len() as u64 + 1000);
    for p in parts { eat(*p) }
    h % P
}
/// "123.45e-6" as a field element.
pub fn dec(s: &str) -> Option<u64> {
    let (s, sg) = if let Some(t) = s.strip_prefix('-') { (t, true) } else { (s.strip_prefix('+').unwrap_or(s), false) };
    let (m, e) = match s.find(|c| c == 'e' || c == 'E') { Some(i) => (&s[..i], s[i + 1..].parse::<i64>().ok()?), None => (s, 0) };
    let (mut v, mut scale, mut dot) = (0u64, 0i64, false);
    for c in m.chars() {
        match c { '.' if !dot => dot = true, '_' => (), c => { v = add(mul(v, 10), c.to_digit(10)? as u64); if dot { scale += 1 } } }
    }
    let k = e - scale;
    if k.abs() > 1_000_000 { return None; }
    let t = pw(10, k.unsigned_abs());
    let r = if k >= 0 { mul(v, t) } else { mul(v, inv(t)) };
    Some(if sg { neg(r) } else { r })
}
pub fn lit(l: &Lit) -> Option<u64> {
    match l {
        Lit::Int(i) => dec(i.base10_digits()),
        Lit::Float(f) => dec(f.base10_digits()),
        o => Some(hash("lit", &[hash(&o.to_token_stream().to_string(), &[])])),
    }
}
pub struct Env<'a> { pub salt: u64, pub subst: Option<&'a dyn Fn(&Path) -> Option<u64>> }
/// None: division by zero, or a construct without a value here.
pub fn val(env: &Env, e: &Expr) -> Option<u64> {
    Some(match e {
        Expr::Lit(l) => lit(&l.lit)?,
        Expr::Path(p) => {
            if let (Some(f), None) = (env.subst, &p.qself) { if let Some(v) = f(&p.path) { return Some(v); } }
            hash(&p.to_token_stream().to_string(), &[env.salt])
        }
        Expr::Paren(p) => val(env, &p.expr)?,
        Expr::Group(p) => val(env, &p.expr)?,
        Expr::Unary(u) => { let v = val(env, &u.expr)?; match u.op { UnOp::Neg(_) => neg(v), UnOp::Not(_) => hash("not", &[v]), UnOp::Deref(_) => hash("deref", &[v]) } }
        Expr::Binary(b) => {
            let l = val(env, &b.left)?;
            let r = val(env, &b.right)?;
            match b.op {
                BinOp::Add(_) => add(l, r),
                BinOp::Sub(_) => add(l, neg(r)),
                BinOp::Mul(_) => mul(l, r),
                BinOp::Div(_) => { if r == 0 { return None } mul(l, inv(r)) }
                op => hash(&op.to_token_stream().to_string(), &[l, r]),
            }
        }
        Expr::Field(f) => hash("field", &[hash(&f.member.to_token_stream().to_string(), &[]), val(env, &f.base)?]),
        Expr::MethodCall(m) => {
            let mut v = vec![hash(&m.method.to_string(), &[]), hash(&m.turbofish.to_token_stream().to_string().replace(' ', ""), &[]), val(env, &m.receiver)?];
            for a in m.args.iter() { v.push(val(env, a)?) }
            hash("method", &v)
        }
        Expr::Call(c) => {
            let mut v = vec![hash(&c.func.to_token_stream().to_string(), &[])];
            for a in c.args.iter() { v.push(val(env, a)?) }
            hash("call", &v)
        }
        o => hash(&o.to_token_stream().to_string().replace(' ', ""), &[env.salt]),
    })
}
pub fn same_value(a: &Expr, b: &Expr) -> bool {
    let mut ok = 0;
    for salt in 1..4 {
        let env = Env { salt, subst: None };
        match (val(&env, a), val(&env, b)) {
            (Some(x), Some(y)) if x != y => return false,
            (None, Some(_)) | (Some(_), None) | (None, None) => (),
            _ => ok += 1,
        }
    }
    let _ = ok;
    true
}
/// Negative number literals (built from numbers) print like a negation.
pub fn norm(e: &Expr) -> Expr {
    let mut e = e.clone();
    norm_mut(&mut e);
    e
}
fn norm_mut(e: &mut Expr) {
    match e {
        Expr::Lit(l) => {
            let s = l.lit.to_token_stream().to_string();
            if let (Some(t), true) = (s.strip_prefix('-'), matches!(l.lit, Lit::Int(_) | Lit::Float(_))) {
                let t = t.trim();
                if let Ok(x) = parse_str::<Expr>(t) {
                    *e = Expr::Unary(ExprUnary { attrs: vec![], op: UnOp::Neg(Default::default()), expr: Box::new(x) });
                }
            } else if matches!(l.lit, Lit::Int(_) | Lit::Float(_)) {
                if let Ok(x) = parse_str::<Expr>(&s) { *e = x; }
            }
        }
        Expr::Paren(p) => norm_mut(&mut p.expr),
        Expr::Group(p) => { let mut x = (*p.expr).clone(); norm_mut(&mut x); *e = x; }
        Expr::Unary(u) => norm_mut(&mut u.expr),
        Expr::Binary(b) => { norm_mut(&mut b.left); norm_mut(&mut b.right) }
        Expr::Field(f) => norm_mut(&mut f.base),
        Expr::MethodCall(m) => { norm_mut(&mut m.receiver); for a in m.args.iter_mut() { norm_mut(a) } }
        _ => (),
    }
}
/// What the printed text says.
pub fn reparse(e: &Expr) -> Option<Expr> { parse_str::<Expr>(&e.to_token_stream().to_string()).ok().map(|e| norm(&e)) }
/// The printed text is this tree.
pub fn prints_itself(e: &Expr) -> bool { reparse(e).map_or(false, |r| r == norm(e)) }
/// The kinds of expression the traversals handle.
pub fn supported(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Paren(p) => supported(&p.expr),
        Expr::Unary(u) => supported(&u.expr),
        Expr::Binary(b) => supported(&b.left) && supported(&b.right),
        Expr::Field(f) => supported(&f.base),
        Expr::MethodCall(m) => supported(&m.receiver) && m.args.iter().all(supported),
        _ => false,
    }
}
pub fn text(e: &Expr) -> String { e.to_token_stream().to_string() }
/// a op b as a tree, with op one of + - * /.
pub fn mk(a: &Expr, k: usize, b: &Expr) -> Expr {
    let op: BinOp = parse_str(["+", "-", "*", "/"][k]).unwrap();
    Expr::Binary(ExprBinary { attrs: vec![], left: Box::new(a.clone()), op, right: Box::new(b.clone()) })
}
