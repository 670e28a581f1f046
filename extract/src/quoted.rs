//! W4: quote!/parse_quote! templates become calls of tree builders (whose contracts state when
//! the text of the template parses back to that tree), and beta reduction of local closures and
//! of closures passed to functions of the repository.
use crate::emit::Ctx;
use crate::rewrite::strip_parens;
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, ToTokens};
use std::collections::BTreeMap;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

type Res<T> = std::result::Result<T, String>;

// ------------------------------------------------------------ quotes

fn prep(ts: TokenStream) -> Res<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Punct(p) = &v[i] {
            if p.as_char() == '#' {
                match v.get(i + 1) {
                    Some(TokenTree::Ident(id)) => {
                        out.push(TokenTree::Ident(format_ident!("__q_{}", id)));
                        i += 2;
                        continue;
                    }
                    Some(TokenTree::Group(g)) => {
                        // #( .#xs )*
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let ok = matches!(&inner[..], [TokenTree::Punct(a), TokenTree::Punct(b), TokenTree::Ident(_)] if a.as_char() == '.' && b.as_char() == '#');
                        let star = matches!(v.get(i + 2), Some(TokenTree::Punct(s)) if s.as_char() == '*');
                        if !ok || !star { return Err("quote! repetition".into()); }
                        let TokenTree::Ident(id) = &inner[2] else { unreachable!() };
                        let t: TokenStream = format!(".__qrep_{}()", id).parse().unwrap();
                        out.extend(t);
                        i += 3;
                        continue;
                    }
                    _ => return Err("quote! template".into()),
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => out.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), prep(g.stream())?))),
            t => out.push(t.clone()),
        }
        i += 1;
    }
    Ok(out.into_iter().collect())
}

fn list(args: Vec<Expr>) -> Expr { parse_quote!({ let mut __qv = Vec::new(); #(__qv.push(#args);)* __qv }) }

fn conv(e: &Expr) -> Res<Expr> {
    Ok(match e {
        Expr::Group(g) => conv(&g.expr)?,
        Expr::Paren(p) => { let x = conv(&p.expr)?; parse_quote!(q_paren(#x)) }
        Expr::Path(p) => {
            let s = p.path.to_token_stream().to_string().replace(' ', "");
            if let Some(n) = s.strip_prefix("__q_") {
                let id = format_ident!("{}", n);
                parse_quote!(#id.to_expr())
            } else { parse_quote!(q_path(#s)) }
        }
        Expr::Lit(l) => match &l.lit {
            Lit::Bool(b) => { let b = b.value; parse_quote!(q_bool(#b)) }
            _ => return Err("quote! literal".into()),
        },
        Expr::Binary(b) => {
            let (l, r) = (conv(&b.left)?, conv(&b.right)?);
            let op = match b.op {
                BinOp::Add(_) => "q_add", BinOp::Sub(_) => "q_sub", BinOp::Mul(_) => "q_mul", BinOp::Div(_) => "q_div",
                _ => return Err("quote! operator".into()),
            };
            let op = format_ident!("{}", op);
            parse_quote!(q_binary(#l, #op(), #r))
        }
        Expr::Unary(u) => match u.op {
            UnOp::Neg(_) => { let x = conv(&u.expr)?; parse_quote!(q_neg(#x)) }
            _ => return Err("quote! unary".into()),
        },
        Expr::MethodCall(m) => {
            let r = conv(&m.receiver)?;
            let name = m.method.to_string();
            if let Some(n) = name.strip_prefix("__qrep_") {
                let id = format_ident!("{}", n);
                parse_quote!(q_apply_suffixes(#r, &#id))
            } else {
                let args = m.args.iter().map(conv).collect::<Res<Vec<_>>>()?;
                let l = list(args);
                parse_quote!(q_method(#r, #name, #l))
            }
        }
        Expr::Call(c) => {
            let name = c.func.to_token_stream().to_string().replace(' ', "");
            let args = c.args.iter().map(conv).collect::<Res<Vec<_>>>()?;
            let l = list(args);
            parse_quote!(q_call(#name, #l))
        }
        _ => return Err(format!("quote! expression {}", e.to_token_stream())),
    })
}

struct Quotes { fail: Option<String> }
impl VisitMut for Quotes {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Macro(m) = e else { return };
        let n = m.mac.path.segments.last().unwrap().ident.to_string();
        if n != "quote" && n != "parse_quote" { return; }
        let r = (|| -> Res<Expr> {
            let ts = prep(m.mac.tokens.clone())?;
            let t: Expr = parse2(ts).map_err(|e| format!("quote! template: {}", e))?;
            if n == "quote" {
                match &t {
                    Expr::Call(c) => {
                        let name = c.func.to_token_stream().to_string().replace(' ', "");
                        let args = c.args.iter().map(conv).collect::<Res<Vec<_>>>()?;
                        let l = list(args);
                        return Ok(parse_quote!(q_suffix(#name, #l)));
                    }
                    _ => return Err("quote! form".into()),
                }
            }
            conv(&t)
        })();
        match r {
            Ok(x) => *e = x,
            Err(x) => self.fail = Some(x),
        }
    }
}
pub fn rewrite_quotes(b: &mut Block) -> Res<()> {
    let mut q = Quotes { fail: None };
    q.visit_block_mut(b);
    match q.fail { Some(f) => Err(f), None => Ok(()) }
}

// ------------------------------------------------------------ closures

#[derive(Default)]
struct Idents(std::collections::BTreeSet<String>);
impl<'a> Visit<'a> for Idents {
    fn visit_ident(&mut self, i: &'a Ident) { self.0.insert(i.to_string()); }
    fn visit_macro(&mut self, m: &'a Macro) {
        fn go(ts: TokenStream, o: &mut std::collections::BTreeSet<String>) {
            for t in ts { match t { TokenTree::Ident(i) => { o.insert(i.to_string()); } TokenTree::Group(g) => go(g.stream(), o), _ => {} } }
        }
        go(m.tokens.clone(), &mut self.0);
    }
}
#[derive(Default)]
struct Binds(std::collections::BTreeSet<String>);
impl<'a> Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, i: &'a PatIdent) { self.0.insert(i.ident.to_string()); visit::visit_pat_ident(self, i); }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

struct Beta<'a> { ctx: &'a Ctx, env: BTreeMap<String, ExprClosure>, fail: Option<String>, depth: usize }

fn apply(c: &ExprClosure, args: &[Expr]) -> Option<Expr> {
    if c.inputs.len() != args.len() { return None; }
    let body = &c.body;
    if args.is_empty() { return Some(parse_quote!((#body))); }
    let tmp: Vec<Ident> = (0..args.len()).map(|i| format_ident!("__b{}", i)).collect();
    let pats: Vec<&Pat> = c.inputs.iter().collect();
    Some(parse_quote!({ #(let #tmp = #args;)* #(let #pats = #tmp;)* #body }))
}

impl<'a> Beta<'a> {
    fn closure_of(&self, e: &Expr) -> Option<ExprClosure> {
        match strip_parens(e) {
            Expr::Closure(c) => Some(c.clone()),
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.env.get(&i.to_string()).cloned()),
            _ => None,
        }
    }
}
impl<'a> VisitMut for Beta<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let saved = self.env.clone();
        let mut out = Vec::new();
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(i), Some((_, init))) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = strip_parens(init) {
                        let mut c = c.clone();
                        visit_mut::visit_expr_mut(self, &mut c.body);
                        let mut body = (*c.body).clone();
                        self.visit_expr_mut(&mut body);
                        *c.body = body;
                        self.env.insert(i.ident.to_string(), c);
                        continue;
                    }
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
        self.env = saved;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // a function of the repository called with a closure
        if let Expr::Call(c) = e {
            let has_closure = c.args.iter().any(|a| matches!(strip_parens(a), Expr::Closure(_)));
            if let (true, Expr::Path(p)) = (has_closure, &*c.func) {
                let name = p.path.segments.last().unwrap().ident.to_string();
                if let Some((sig, body)) = self.ctx.find_fn(None, &name) {
                    if self.depth > 3 { self.fail = Some("closure recursion".into()); return; }
                    let mut binds: Vec<Stmt> = vec![];
                    let mut tmps: Vec<Stmt> = vec![];
                    let mut env2 = BTreeMap::new();
                    let mut free = Idents::default();
                    for (k, (a, x)) in sig.inputs.iter().zip(c.args.iter()).enumerate() {
                        let FnArg::Typed(t) = a else { self.fail = Some("closure call".into()); return };
                        if let Some(cl) = self.closure_of(x) {
                            let Pat::Ident(i) = &*t.pat else { self.fail = Some("closure param".into()); return };
                            let mut params = Binds::default();
                            for p in &cl.inputs { params.visit_pat(p); }
                            let mut ids = Idents::default();
                            ids.visit_expr(&cl.body);
                            for id in ids.0 { if !params.0.contains(&id) { free.0.insert(id); } }
                            env2.insert(i.ident.to_string(), cl);
                        } else {
                            let tmp = format_ident!("__c{}", k);
                            let pat = &t.pat;
                            tmps.push(parse_quote!(let #tmp = #x;));
                            binds.push(parse_quote!(let #pat = #tmp;));
                        }
                    }
                    let mut locals = Binds::default();
                    locals.visit_block(&body);
                    for a in &sig.inputs { if let FnArg::Typed(t) = a { locals.visit_pat(&t.pat); } }
                    // parameters with the same name are passed the same value below; anything else is a capture
                    let clash: Vec<String> = free.0.intersection(&locals.0).filter(|n| !env2.contains_key(*n)).cloned().collect();
                    for n in &clash {
                        // allowed when the argument is that very variable
                        let same = sig.inputs.iter().zip(c.args.iter()).any(|(a, x)| match a { FnArg::Typed(t) => t.pat.to_token_stream().to_string() == *n && x.to_token_stream().to_string() == *n, _ => false });
                        if !same { self.fail = Some(format!("capture of {}", n)); return; }
                    }
                    let mut body = body.clone();
                    let mut inner = Beta { ctx: self.ctx, env: env2, fail: None, depth: self.depth + 1 };
                    inner.visit_block_mut(&mut body);
                    if inner.fail.is_some() { self.fail = inner.fail; return; }
                    let stmts = &body.stmts;
                    *e = parse_quote!({ #(#tmps)* #(#binds)* #(#stmts)* });
                    let saved = std::mem::take(&mut self.env);
                    visit_mut::visit_expr_mut(self, e);
                    self.env = saved;
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Some(cl) = p.path.get_ident().and_then(|i| self.env.get(&i.to_string())) {
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        match apply(cl, &args) { Some(x) => *e = x, None => self.fail = Some("closure call".into()) }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if m.args.len() != 1 { return; }
                let Some(cl) = self.closure_of(&m.args[0]) else { return };
                let recv = &m.receiver;
                match name.as_str() {
                    "ok_or_else" if cl.inputs.is_empty() => {
                        let b = &cl.body;
                        *e = parse_quote!((match #recv { Some(__x) => Ok(__x), None => Err(#b) }));
                    }
                    "map_err" if cl.inputs.len() == 1 => {
                        let b = &cl.body;
                        let p = &cl.inputs[0];
                        *e = parse_quote!((match #recv { Ok(__x) => Ok(__x), Err(#p) => Err(#b) }));
                    }
                    "map" if cl.inputs.len() == 1 && !is_iter(recv) => {
                        let b = &cl.body;
                        let p = &cl.inputs[0];
                        *e = parse_quote!((match #recv { Ok(#p) => Ok(#b), Err(__x) => Err(__x) }));
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}
fn is_iter(e: &Expr) -> bool {
    match strip_parens(e) {
        Expr::Range(_) => true,
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            matches!(n.as_str(), "iter" | "into_iter" | "rev" | "step_by" | "enumerate" | "zip" | "chars" | "skip" | "take" | "cloned") || is_iter(&m.receiver)
        }
        _ => false,
    }
}

pub fn beta(ctx: &Ctx, b: &mut Block) -> Res<()> {
    let mut v = Beta { ctx, env: Default::default(), fail: None, depth: 0 };
    v.visit_block_mut(b);
    match v.fail { Some(f) => Err(f), None => Ok(()) }
}
