//! Token streams written as Rust text and read again.
use crate::gen;
use crate::util::*;
use doctor_syn::codegen::rust::format_token_stream;
use proc_macro2::*;
use quote::ToTokens;

/// The tokens without invisible delimiters.
fn flat(s: TokenStream, out: &mut Vec<TokenTree>) {
    for t in s { match t { TokenTree::Group(g) if g.delimiter() == Delimiter::None => flat(g.stream(), out), t => out.push(t) } }
}
fn same(a: TokenStream, b: TokenStream) -> Result<(), String> {
    let (mut x, mut y) = (vec![], vec![]);
    flat(a, &mut x);
    flat(b, &mut y);
    for i in 0..x.len().max(y.len()) {
        let (Some(p), Some(q)) = (x.get(i), y.get(i)) else { return Err(format!("{} tokens instead of {}", y.len(), x.len())) };
        let ok = match (p, q) {
            (TokenTree::Group(a), TokenTree::Group(b)) => a.delimiter() == b.delimiter() && { same(a.stream(), b.stream())?; true },
            (TokenTree::Ident(a), TokenTree::Ident(b)) => a == b,
            (TokenTree::Literal(a), TokenTree::Literal(b)) => a.to_string() == b.to_string(),
            // whether two characters are one operator matters when a character follows
            (TokenTree::Punct(a), TokenTree::Punct(b)) => a.as_char() == b.as_char() && (a.as_char() == ';' || a.as_char() == ',' || !matches!(x.get(i + 1), Some(TokenTree::Punct(_))) || a.spacing() == b.spacing()),
            _ => false,
        };
        if !ok { return Err(format!("token {}: {} instead of {}", i, q, p)); }
    }
    Ok(())
}
fn lex(s: &str) -> TokenTree { s.parse::<TokenStream>().unwrap().into_iter().next().unwrap() }
fn stream(r: &mut Rng, depth: usize, max: usize) -> TokenStream {
    let mut v: Vec<TokenTree> = vec![];
    let n = r.below(max + 1);
    while v.len() < n {
        match r.below(if depth > 0 { 9 } else { 5 }) {
            0 | 1 => v.push(match r.below(5) {
                0 => TokenTree::Ident(Ident::new_raw(*r.pick(&[&"fn", &"type", &"x", &"match"]), Span::call_site())),
                _ => TokenTree::Ident(Ident::new(*r.pick(&[&"a", &"x1", &"b", &"r", &"br", &"c", &"e5", &"f32", &"_", &"fn", &"if", &"else", &"in", &"let", &"_1", &"E", &"é", &"self"]), Span::call_site())),
            }),
            2 => v.push(lex(*r.pick(&[&"0", &"1", &"1.", &"2.5", &"1e5", &"1E+3", &"1e-7", &"0x1f", &"0b11u8", &"1_000", &"3f64", &"1.5_f32", &"\"s\"", &"\"a b; {\"", &"\"\\\"\"", &"'x'", &"'\\''", &"b'y'", &"b\"z\"", &"r\"w\"", &"r#\"q\"#", &"\"\"", &"' '", &"18446744073709551616"]))),
            3 => {
                // an operator
                let o = *r.pick(&[&"+", &"-", &"*", &"/", &"%", &"^", &"!", &"&", &"|", &"<", &">", &"=", &"==", &"!=", &"<=", &">=", &"&&", &"||", &"<<", &">>", &"+=", &"-=", &"<<=", &">>=", &"->", &"=>", &"::", &"..", &"..=", &"...", &".", &",", &";", &":", &"#", &"$", &"?", &"@", &"~", &"|=", &"&="]);
                let cs: Vec<char> = o.chars().collect();
                for (i, c) in cs.iter().enumerate() { v.push(TokenTree::Punct(Punct::new(*c, if i + 1 < cs.len() { Spacing::Joint } else { Spacing::Alone }))); }
                // written without a space before the next operator
                if r.chance(1, 6) {
                    let l = cs[cs.len() - 1];
                    let next = *r.pick(&[&'-', &'*', &'!', &'&', &'>', &'=', &':', &'.', &'|', &';']);
                    if !(l == '/' && (next == '*' || next == '/')) {
                        v.pop();
                        v.push(TokenTree::Punct(Punct::new(l, Spacing::Joint)));
                        v.push(TokenTree::Punct(Punct::new(next, Spacing::Alone)));
                    }
                }
            }
            4 => if r.chance(1, 3) {
                v.push(TokenTree::Punct(Punct::new('\'', Spacing::Joint)));
                v.push(TokenTree::Ident(Ident::new(*r.pick(&[&"a", &"static", &"_x", &"b"]), Span::call_site())));
            } else { v.push(TokenTree::Punct(Punct::new(*r.pick(&[&';', &';', &',', &':', &'.']), Spacing::Alone))) },
            k => {
                let d = match k { 5 | 6 => Delimiter::Brace, 7 => Delimiter::Parenthesis, _ => *r.pick(&[&Delimiter::Bracket, &Delimiter::None]) };
                v.push(TokenTree::Group(Group::new(d, stream(r, depth - 1, max))));
            }
        }
    }
    v.into_iter().collect()
}
fn check(c: &mut Ctx, s: TokenStream) -> Check {
    c.cases += 1;
    let w = format!("format_token_stream({:?})", s.to_string());
    let t = match guard(|| format_token_stream(s.clone())) { Ok(t) => t, Err(m) => return bad(w, "text", format!("panic: {}", m)) };
    match t.parse::<TokenStream>() {
        Ok(p) => match same(s, p) { Ok(()) => Ok(()), Err(m) => bad(w, "the same tokens", format!("{} in {:?}", m, t)) },
        Err(e) => bad(w, "text that can be read", format!("{} in {:?}", e, t)),
    }
}
pub fn rust_text(c: &mut Ctx) -> Check {
    let mut r = c.rng(14);
    // every pair and triple of small tokens, at the top, in a block and in parentheses
    let atoms: Vec<TokenStream> = ["a", "r", "b", "fn", "_", "1", "1.", "2.5", "0x1f", "3f64", "\"s\"", "'x'", "b\"z\"", "r#\"q\"#", "+", "-", "/", "*", "&", "|", "<", ">", "=", ":", ".", ",", ";", "#", "!", "?", "'a", "->", "::", "&&", "<<=", "..", "..=", "=-", "=>", "|-", "{}", "{ x }", "{ x; }", "()", "(x)", "[]", "[1]", "{ { } }"].iter().map(|t| t.parse().unwrap()).collect();
    let mut atoms = atoms;
    for t in ["x", "1", "+", "- y", "", "y ;", "{ }", "3."] { atoms.push(TokenStream::from(TokenTree::Group(Group::new(Delimiter::None, t.parse().unwrap())))); }
    for a in &atoms { for b in &atoms { for d in 0..4 {
        let mut s = a.clone();
        s.extend(b.clone());
        if d == 3 { s.extend(b.clone()); s.extend(a.clone()); }
        let s = match d { 1 => TokenStream::from(TokenTree::Group(Group::new(Delimiter::Brace, s))), 2 => TokenStream::from(TokenTree::Group(Group::new(Delimiter::Brace, TokenTree::Group(Group::new(Delimiter::Brace, s)).into()))), _ => s };
        check(c, s)?;
    } } }
    // deep blocks
    for n in [1usize, 2, 7, 30, 60] {
        let mut s: TokenStream = "x ; y = 1 ;".parse().unwrap();
        for _ in 0..n { let mut t: TokenStream = "a ; b".parse().unwrap(); t.extend(Some(TokenTree::Group(Group::new(Delimiter::Brace, s)))); t.extend("c = d ;".parse::<TokenStream>().unwrap()); s = t; }
        check(c, s)?;
    }
    let o = gen::Opts { unsupported: true, all_ops: true, lits: true, numeric: false };
    let mut n = 0;
    while c.time(0.95) && n < c.n(20000, 400000) {
        n += 1;
        let s = if n % 4 == 0 {
            match gen::expr(&mut r, 30, &o) { Some(e) => { let e = e.into_token_stream(); quote::quote!(fn f<'a>(x: &'a f64) -> f64 { let y = #e; if y < 1.0 { return -y; } let z: [u8; 2] = [1, 2]; y - -x.abs() }) } None => continue }
        } else { let (d, m) = (1 + r.below(5), 2 + r.below(9)); stream(&mut r, d, m) };
        check(c, s)?;
    }
    c.notes.push(format!("{} random streams", n));
    Ok(())
}
