//! Expressions to try: random texts and all small trees.
use crate::util::Rng;
use syn::*;

pub struct Opts { pub unsupported: bool, pub all_ops: bool, pub lits: bool, pub numeric: bool }
pub const ANY: Opts = Opts { unsupported: false, all_ops: true, lits: true, numeric: false };

const OPS: &[(&str, i32)] = &[("*", 11), ("/", 11), ("%", 11), ("+", 10), ("-", 10), ("<<", 9), (">>", 9), ("&", 8), ("^", 7), ("|", 6), ("==", 5), ("<", 5), ("<=", 5), ("!=", 5), (">=", 5), (">", 5), ("&&", 4), ("||", 3)];
const ARITH: &[(&str, i32)] = &[("*", 11), ("/", 11), ("+", 10), ("-", 10)];
const MUCH: &[(&str, i32)] = &[("*", 11), ("+", 10), ("-", 10)];

fn leaf(r: &mut Rng, o: &Opts) -> String {
    if o.numeric { return number(r); }
    match r.below(10) {
        0..=5 => r.pick(&["x", "y", "z", "x", "y", "x", "PI", "std::f64::consts::PI", "a::b", "::g::h", "fty::INFINITY", "x1", "r#type"]).to_string(),
        6 | 7 => number(r),
        _ if o.lits => r.pick(&["3f64", "7u32", "0x1F", "0b101", "1_000", "1_0.5_0e1_0", "2.", "1e3f32", "\"s\"", "'c'", "true", "false", "b'a'", "b\"ab\"", "<f64 as T>::x", "r\"raw\"", "1.5f32", "1e-7", "0.1", "123456789012345678901234567890", "0.000000000000000000000000000001"]).to_string(),
        _ => number(r),
    }
}
pub fn number(r: &mut Rng) -> String {
    match r.below(6) {
        0 | 1 => format!("{}", r.below(12)),
        2 => format!("{}.{}", r.below(20), r.below(1000)),
        3 => format!("{}e{}", r.below(100), r.below(9) as i32 - 4),
        4 => format!("{}", r.next() % 1_000_000_000),
        _ => format!("{}.0", r.below(5)),
    }
}
/// Text whose outermost construct has at least this level.
pub fn text(r: &mut Rng, size: usize, min: i32, o: &Opts) -> String {
    let (s, l) = construct(r, size, o);
    if l < min || r.chance(1, 14) { if r.chance(1, 12) { format!("(({}))", s) } else { format!("({})", s) } } else { s }
}
fn construct(r: &mut Rng, size: usize, o: &Opts) -> (String, i32) {
    if size == 0 { return (leaf(r, o), 14); }
    if o.unsupported && r.chance(1, 9) {
        let a = text(r, (size - 1) / 2, 0, o);
        let b = text(r, (size - 1) / 2, 0, o);
        return (match r.below(12) {
            0 => format!("f({}, {})", a, b), 1 => format!("v[{}]", a), 2 => format!("({}, {})", a, b), 3 => format!("[{}, {}]", a, b),
            4 => return (format!("({}) as f64", a), 11), 5 => "m!(1, 2)".into(), 6 => format!("({{ {} }})", a), 7 => format!("(if {} {{ {} }} else {{ 1 }})", "x", a),
            8 => format!("(|t| {})", a), 9 => return (format!("&x{}", r.below(3)), 12), 10 => format!("({}..{})", "x", "y"), _ => format!("g({})?", a),
        }, 14);
    }
    match r.below(20) {
        0 | 1 => { let s = text(r, size - 1, 12, o); (format!("-{}", if s.starts_with('-') { format!(" {}", s) } else { s }), 12) }
        2 if !o.numeric && o.all_ops => { let s = text(r, size - 1, 12, o); (format!("{}{}", r.pick(&["!", "*", "-"]), s), 12) }
        3 => (format!("({})", text(r, size - 1, 0, o)), 14),
        4 | 5 if !o.numeric => {
            let n = r.below(4);
            let mut left = size - 1;
            let t = r.below(left + 1);
            left -= t;
            let recv = text(r, t, 14, o);
            let recv = if recv.ends_with(|c: char| c.is_ascii_digit() || c == '.') { format!("({})", recv) } else { recv };
            let mut args = vec![];
            for _ in 0..n { let t = r.below(left + 1); left -= t; args.push(text(r, t, 0, o)); }
            let tf = if r.chance(1, 10) { "::<f64>" } else { "" };
            (format!("{}.{}{}({})", recv, r.pick(&["abs", "sin", "mul_add", "powi", "foo"]), tf, args.join(", ")), 14)
        }
        6 if !o.numeric => {
            let recv = text(r, size - 1, 14, o);
            let recv = if recv.ends_with(|c: char| c.is_ascii_digit() || c == '.') { format!("({})", recv) } else { recv };
            (format!("{}.{}", recv, r.pick(&["f", "g", "0", "1"])), 14)
        }
        _ => {
            let (op, p) = if o.all_ops && r.chance(1, 4) { OPS[r.below(OPS.len())] } else if r.chance(1, 6) { ARITH[r.below(4)] } else { MUCH[r.below(3)] };
            let t = r.below(size);
            let a = text(r, t, if p == 5 { 6 } else { p }, o);
            let b = text(r, size - 1 - t, p + 1, o);
            // "x < y > z" and the like do not parse.
            (format!("{} {} {}", a, op, b), p)
        }
    }
}
/// A random expression; None where the text does not parse.
pub fn expr(r: &mut Rng, max: usize, o: &Opts) -> Option<Expr> {
    let n = r.below(max + 1);
    parse_str::<Expr>(&text(r, n, 0, o)).ok()
}
/// Shapes that are large in one direction.
pub fn big(r: &mut Rng) -> Option<Expr> {
    let n = 3 + r.below(24);
    let l = |r: &mut Rng| leaf(r, &ANY);
    let s = match r.below(8) {
        0 => { let mut s = l(r); for _ in 0..n { s = format!("{} {} {}", s, r.pick(&["+", "-"]), l(r)); } s }
        1 => { let mut s = l(r); for _ in 0..n { s = format!("{} * {}", s, l(r)); } s }
        2 => { let mut s = l(r); for _ in 0..n { s = format!("({} {} {})", l(r), r.pick(&["+", "-", "-"]), s); } s }
        3 => { let mut s = l(r); for _ in 0..n { s = format!("-({})", s); } s }
        4 => { let mut s = l(r); for _ in 0..n { s = format!("({})", s); } s }
        5 => { let a: Vec<String> = (0..n.min(9)).map(|_| l(r)).collect(); let b: Vec<String> = (0..n.min(9)).map(|_| l(r)).collect(); format!("({}) * ({})", a.join(" - "), b.join(" + ")) }
        6 => { let k = 2 + r.below(5); (0..k).map(|_| format!("({} {} {})", l(r), r.pick(&["+", "-"]), l(r))).collect::<Vec<_>>().join(" * ") }
        _ => { let a: Vec<String> = (0..n).map(|_| l(r)).collect(); format!("(x + 1).foo({})", a.join(", ")) }
    };
    parse_str::<Expr>(&s).ok()
}
fn mk(l: &Expr, op: BinOp, r: &Expr) -> Expr { Expr::Binary(ExprBinary { attrs: vec![], left: Box::new(l.clone()), op, right: Box::new(r.clone()) }) }
/// All trees with at most n inner nodes (trees that parentheses do not protect, too).
pub fn trees(n: usize, leaves: &[&str]) -> Vec<Vec<Expr>> {
    let mut t: Vec<Vec<Expr>> = vec![leaves.iter().map(|s| match s.strip_prefix("lit") {
        Some(x) => doctor_syn::Expression::from(x.parse::<f64>().unwrap()).into_inner(),
        None => parse_str(s).unwrap() }).collect()];
    let ops: Vec<BinOp> = ["+", "-", "*", "/", "<<"].iter().map(|s| parse_str(s).unwrap()).collect();
    let m: ExprMethodCall = parse_str("x.abs()").unwrap();
    for k in 1..=n {
        let mut v = vec![];
        for e in &t[k - 1] {
            v.push(Expr::Unary(ExprUnary { attrs: vec![], op: UnOp::Neg(Default::default()), expr: Box::new(e.clone()) }));
            v.push(Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(e.clone()) }));
            let mut m = m.clone(); m.receiver = Box::new(e.clone()); v.push(Expr::MethodCall(m));
        }
        for i in 0..k { for a in &t[i] { for b in &t[k - 1 - i] { for op in &ops { v.push(mk(a, *op, b)); } } } }
        t.push(v);
    }
    t
}
