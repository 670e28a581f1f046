//! The mechanical rewrites applied to every extracted body.  Each keeps the meaning of the code:
//!
//!  W1  print/log statements are dropped (println!, eprintln!, print!, eprint!, dbg!);
//!      with the option `noprint` they become v_print(), which has to be unreachable
//!  W2  `for` loops and iterator chains over vectors, slices and ranges become index loops
//!  W3  `vec![]`, `vec![x; n]`, `panic!`/`unreachable!` become calls of contracted functions
//!  W4  quote!/parse_quote! templates become tree-building calls (quoted.rs)
//!  W5  slices `&x[a..b]` become slice_subrange(x, a, b)
//!  W6  calls of helper functions without a contract are replaced by the helper's body
//!  W7  `Token![..]` types are dropped from Punctuated<T, ..>
//!  W8  matches on string literals become if-chains; comparisons with string literals become
//!      comparisons of the numbers that encode the strings
//!  W9  `for x in y` over an owned collection becomes an index loop over v_items(y)
//!  W10 text added to a String (extend(..chars()), push_str, push) becomes v_extend/v_push;
//!      a string literal is added character by character
//!  W11 X.extend(iterator) becomes a loop that pushes; a sort by a key computes the keys and sorts
//!      by them; X as *const T as usize becomes v_addr(X)
//!  W12 a decimal read from a text literal ("1.5".parse().unwrap()) becomes v_dec(digits, places)
use crate::emit::Ctx;
use quote::{format_ident, quote, ToTokens};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn strip_parens(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_parens(&p.expr),
        Expr::Group(p) => strip_parens(&p.expr),
        _ => e,
    }
}

// ---------------------------------------------------------------- W1

struct DropPrints { keep: bool }
fn is_print(m: &Macro) -> bool {
    let n = m.path.segments.last().unwrap().ident.to_string();
    matches!(n.as_str(), "println" | "eprintln" | "print" | "eprint" | "dbg")
}
impl VisitMut for DropPrints {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let keep = self.keep;
        if keep {
            // with `noprint`, a print has to be shown unreachable
            for s in b.stmts.iter_mut() {
                let p = match &*s {
                    Stmt::Semi(Expr::Macro(m), _) => is_print(&m.mac),
                    Stmt::Item(Item::Macro(m)) => is_print(&m.mac),
                    _ => false,
                };
                if p { *s = parse_quote!(v_print();); }
            }
        }
        b.stmts.retain(|s| match s {
            Stmt::Semi(Expr::Macro(m), _) => !is_print(&m.mac),
            Stmt::Item(Item::Macro(m)) => !is_print(&m.mac),
            Stmt::Item(Item::Use(u)) => matches!(&u.tree, UseTree::Path(p) if p.ident.to_string().starts_with(char::is_uppercase)),
            Stmt::Semi(Expr::MethodCall(m), _) => {
                keep || !(m.method == "log" && strip_parens(&m.receiver).to_token_stream().to_string() == "self")
            }
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if is_print(&m.mac) {
                *e = if self.keep { parse_quote!(v_print()) } else { parse_quote!(()) };
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- W6

struct HasEscape { ret: bool, quest: bool, brk: bool }
impl<'a> Visit<'a> for HasEscape {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Return(_) => self.ret = true,
            Expr::Try(_) => self.quest = true,
            Expr::Closure(_) => return,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}
fn has_return(b: &Block) -> bool { let mut v = HasEscape { ret: false, quest: false, brk: false }; v.visit_block(b); v.ret }
fn stmt_has_return(b: &Stmt) -> bool { let mut v = HasEscape { ret: false, quest: false, brk: false }; v.visit_stmt(b); v.ret }
fn has_quest(b: &Block) -> bool { let mut v = HasEscape { ret: false, quest: false, brk: false }; v.visit_block(b); v.quest || v.brk }

/// Rewrite a body with early returns into a single-exit block, if it is simple enough.
pub fn eliminate_returns(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let mut out = Vec::new();
    for (i, s) in stmts.iter().enumerate() {
        if !stmt_has_return(s) {
            out.push(s.clone());
            continue;
        }
        let rest = &stmts[i + 1..];
        let e = match s {
            Stmt::Expr(e) | Stmt::Semi(e, _) => e,
            _ => return None,
        };
        let r = elim_expr(e, rest)?;
        out.push(Stmt::Expr(r));
        return Some(out);
    }
    Some(out)
}
fn block_with(stmts: &[Stmt], rest: &[Stmt]) -> Option<Block> {
    // Does the block end in a return?
    let mut v: Vec<Stmt> = stmts.to_vec();
    let diverges = match v.last() {
        Some(Stmt::Semi(Expr::Return(_), _)) | Some(Stmt::Expr(Expr::Return(_))) => true,
        _ => false,
    };
    if !diverges {
        if let Some(Stmt::Expr(e)) = v.last().cloned() {
            // value of a statement-position block: keep it as a statement if more follows
            if !rest.is_empty() {
                v.pop();
                v.push(Stmt::Semi(e, Default::default()));
            }
        }
        v.extend(rest.iter().cloned());
    }
    let s = eliminate_returns(&v)?;
    Some(Block { brace_token: Default::default(), stmts: s })
}
fn elim_expr(e: &Expr, rest: &[Stmt]) -> Option<Expr> {
    match e {
        Expr::Return(r) => match &r.expr {
            Some(e) => { let mut h = HasEscape { ret: false, quest: false, brk: false }; h.visit_expr(e); if h.ret { None } else { Some((**e).clone()) } }
            None => Some(parse_quote!(())),
        },
        Expr::If(i) => {
            let mut h = HasEscape { ret: false, quest: false, brk: false };
            h.visit_expr(&i.cond);
            if h.ret { return None; }
            let t = block_with(&i.then_branch.stmts, rest)?;
            let el = match &i.else_branch {
                None => block_with(&[], rest)?,
                Some((_, e)) => match &**e {
                    Expr::Block(b) => block_with(&b.block.stmts, rest)?,
                    other => { let x = block_with(&[Stmt::Expr(other.clone())], rest)?; x }
                },
            };
            let cond = &i.cond;
            Some(parse_quote!(if #cond #t else #el))
        }
        Expr::Match(m) => {
            let mut m = m.clone();
            for arm in m.arms.iter_mut() {
                let stmts = match &*arm.body {
                    Expr::Block(b) => b.block.stmts.clone(),
                    other => vec![Stmt::Expr(other.clone())],
                };
                let b = block_with(&stmts, rest)?;
                *arm.body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                arm.comma = Some(Default::default());
            }
            Some(Expr::Match(m))
        }
        Expr::Block(b) => {
            let bl = block_with(&b.block.stmts, rest)?;
            Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: bl }))
        }
        _ => None,
    }
}

pub struct Inliner<'a> {
    pub ctx: &'a Ctx,
    pub self_ty: Option<String>,
    pub depth: usize,
    pub log: Vec<String>,
    pub in_try: bool,
}
impl<'a> Inliner<'a> {
    fn expand(&mut self, name: &str, sig: &Signature, body: &Block, args: Vec<Expr>, skip_self: bool, may_quest: bool) -> Option<Expr> {
        if self.depth > 6 { return None; }
        // calls with closures are for `beta`
        if args.iter().any(|a| matches!(strip_parens(a), Expr::Closure(_))) { return None; }
        let mut pats: Vec<Pat> = Vec::new();
        let mut tys: Vec<Type> = Vec::new();
        for a in &sig.inputs {
            match a {
                FnArg::Receiver(_) => { if !skip_self { return None; } }
                FnArg::Typed(t) => { pats.push((*t.pat).clone()); tys.push((*t.ty).clone()); }
            }
        }
        if pats.len() != args.len() { return None; }
        let mut stmts = body.stmts.clone();
        if has_return(body) { stmts = eliminate_returns(&stmts)?; }
        let b = Block { brace_token: Default::default(), stmts };
        if has_return(&b) { return None; }
        if has_quest(&b) && !may_quest { return None; }
        let mut b = b;
        // recursion into the inlined body
        let mut inner = Inliner { ctx: self.ctx, self_ty: self.self_ty.clone(), depth: self.depth + 1, log: vec![], in_try: false };
        inner.visit_block_mut(&mut b);
        self.log.extend(inner.log);
        self.log.push(name.to_string());
        let stmts = &b.stmts;
        // Bind all arguments before any parameter name comes into scope.
        let tmp: Vec<Ident> = (0..pats.len()).map(|i| format_ident!("__a{}_{}_{}", self.depth, name, i)).collect();
        let is_ref: Vec<bool> = tys.iter().map(|t| matches!(t, Type::ImplTrait(_))).collect();
        let binds1: Vec<Stmt> = tmp.iter().zip(&args).map(|(t, a)| parse_quote!(let #t = #a;)).collect();
        let binds2: Vec<Stmt> = pats.iter().zip(&tmp).zip(tys.iter().zip(&is_ref)).map(|((p, t), (ty, imp))| {
            let generic = !sig.generics.params.is_empty() || *imp;
            if generic { parse_quote!(let #p = #t;) } else { parse_quote!(let #p: #ty = #t;) }
        }).collect();
        Some(parse_quote!({ #(#binds1)* #(#binds2)* #(#stmts)* }))
    }
    fn try_inline(&mut self, e: &Expr, may_quest: bool) -> Option<Expr> {
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let name = p.path.segments.last()?.ident.to_string();
                    if self.ctx.known.contains(&name) || !name.chars().next()?.is_lowercase() { return None; }
                    if p.path.segments.len() > 1 {
                        let q = p.path.segments[p.path.segments.len() - 2].ident.to_string();
                        if q == "Self" {
                            let ty = self.self_ty.clone()?;
                            let (sig, body) = self.ctx.find_method(&ty, &name)?;
                            return self.expand(&name, &sig, &body, c.args.iter().cloned().collect(), false, may_quest);
                        }
                    }
                    let (sig, body) = self.ctx.find_fn(None, &name)?;
                    return self.expand(&name, &sig, &body, c.args.iter().cloned().collect(), false, may_quest);
                }
                None
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if strip_parens(&m.receiver).to_token_stream().to_string() != "self" { return None; }
                let ty = self.self_ty.clone()?;
                if self.ctx.known.contains(&format!("{}::{}", ty, name)) { return None; }
                let (sig, body) = self.ctx.find_method(&ty, &name)?;
                return self.expand(&name, &sig, &body, m.args.iter().cloned().collect(), true, may_quest);
            }
            _ => None,
        }
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            visit_mut::visit_expr_mut(self, &mut t.expr);
            // `helper(..)?`
            if let Some(x) = self.try_inline(&t.expr, true) {
                t.expr = Box::new(Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(x) }));
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(x) = self.try_inline(e, false) { *e = parse_quote!((#x)); }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
    }
}
/// A call of a helper in tail position of the function may use `?`.
fn inline_tail(inl: &mut Inliner, b: &mut Block) {
    match b.stmts.last_mut() {
        Some(Stmt::Expr(e)) => tail_expr(inl, e),
        Some(Stmt::Semi(Expr::Return(r), _)) => if let Some(e) = &mut r.expr { tail_expr(inl, e) },
        _ => {}
    }
}
fn tail_expr(inl: &mut Inliner, e: &mut Expr) {
    match e {
        Expr::If(i) => {
            inline_tail(inl, &mut i.then_branch);
            if let Some((_, e)) = &mut i.else_branch { tail_expr(inl, e); }
        }
        Expr::Block(b) => inline_tail(inl, &mut b.block),
        Expr::Match(m) => for a in m.arms.iter_mut() { tail_expr(inl, &mut a.body) },
        Expr::Return(r) => if let Some(e) = &mut r.expr { tail_expr(inl, e) },
        _ => if let Some(x) = inl.try_inline(e, true) { *e = x; },
    }
}

// ---------------------------------------------------------------- W2

pub struct Loops { pub n: usize, pub fail: Option<String> }

#[derive(Clone)]
enum Src {
    Range { lo: Expr, hi: Expr, rev: bool, incl: bool, step: Option<Expr> },
    Seq { e: Expr, rev: bool, enumerate: bool, by_ref: bool, pairs: bool },
}

fn seq_source(e: &Expr) -> Option<Src> {
    let e = strip_parens(e);
    match e {
        Expr::Range(r) => Some(Src::Range {
            lo: (**r.from.as_ref()?).clone(),
            hi: (**r.to.as_ref()?).clone(),
            rev: false,
            incl: matches!(r.limits, RangeLimits::Closed(_)),
            step: None,
        }),
        Expr::Reference(r) => Some(Src::Seq { e: (*r.expr).clone(), rev: false, enumerate: false, by_ref: true, pairs: false }),
        Expr::Call(c) => {
            if c.func.to_token_stream().to_string() == "Punctuated :: pairs" && c.args.len() == 1 {
                if let Expr::Reference(r) = strip_parens(&c.args[0]) {
                    return Some(Src::Seq { e: (*r.expr).clone(), rev: false, enumerate: false, by_ref: true, pairs: true });
                }
            }
            None
        }
        Expr::MethodCall(m) => {
            let name = m.method.to_string();
            match name.as_str() {
                "into_iter" if m.args.is_empty() => match seq_source(&m.receiver) {
                    Some(x) => Some(x),
                    None => { let r = &m.receiver; Some(Src::Seq { e: parse_quote!(v_items(#r)), rev: false, enumerate: false, by_ref: false, pairs: false }) }
                },
                "stream" if m.args.is_empty() => Some(Src::Seq { e: parse_quote!(v_items(#m)), rev: false, enumerate: false, by_ref: false, pairs: false }),
                "iter" if m.args.is_empty() => Some(Src::Seq { e: (*m.receiver).clone(), rev: false, enumerate: false, by_ref: true, pairs: false }),
                "rev" => match seq_source(&m.receiver)? {
                    Src::Range { lo, hi, rev, incl, step } => Some(Src::Range { lo, hi, rev: !rev, incl, step }),
                    Src::Seq { e, rev, enumerate: false, by_ref, pairs } => Some(Src::Seq { e, rev: !rev, enumerate: false, by_ref, pairs }),
                    _ => None,
                },
                "step_by" => match seq_source(&m.receiver)? {
                    Src::Range { lo, hi, rev: false, incl, step: None } => Some(Src::Range { lo, hi, rev: false, incl, step: Some(m.args[0].clone()) }),
                    _ => None,
                },
                "enumerate" => match seq_source(&m.receiver)? {
                    Src::Seq { e, rev: false, by_ref, pairs, .. } => Some(Src::Seq { e, rev: false, enumerate: true, by_ref, pairs }),
                    _ => None,
                },
                "cloned" | "copied" => match seq_source(&m.receiver)? {
                    Src::Seq { e, rev, enumerate: false, pairs: false, .. } => Some(Src::Seq { e, rev, enumerate: false, by_ref: false, pairs: false }),
                    _ => None,
                },
                _ => None,
            }
        }
        _ => None,
    }
}

/// K for a comparison |a, b| K(a).cmp(&K(b)).
fn key_of(p: &[Pat], b: &Expr) -> Option<Expr> {
    let (Pat::Ident(x), Pat::Ident(y)) = (&p[0], &p[1]) else { return None };
    let b = match strip_parens(b) { Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { Stmt::Expr(e) => strip_parens(e), _ => return None }, b => b };
    let Expr::MethodCall(m) = b else { return None };
    if m.method != "cmp" || m.args.len() != 1 { return None; }
    let Expr::Reference(r) = strip_parens(&m.args[0]) else { return None };
    struct Ren<'a>(&'a Ident, &'a Ident);
    impl<'a> VisitMut for Ren<'a> { fn visit_ident_mut(&mut self, i: &mut Ident) { if i == self.0 { *i = self.1.clone(); } } }
    let mut k2 = strip_parens(&r.expr).clone();
    Ren(&y.ident, &x.ident).visit_expr_mut(&mut k2);
    let k = strip_parens(&m.receiver);
    if k.to_token_stream().to_string() == k2.to_token_stream().to_string() { Some(k.clone()) } else { None }
}

/// Build an index loop around `body` (which sees PAT bound to the element).
fn build_loop(k: usize, src: &Src, pat: Option<&Pat>, body: Vec<Stmt>, label: &Option<Label>) -> (Vec<Stmt>, Expr) {
    let i = format_ident!("__i{}", k);
    let hi = format_ident!("__n{}", k);
    let s = format_ident!("__s{}", k);
    let bind = |v: Expr| -> Vec<Stmt> {
        match pat { Some(p) => vec![parse_quote!(let #p = #v;)], None => vec![] }
    };
    match src {
        Src::Range { lo, hi: h, rev: false, incl, step: None } => {
            let b = bind(parse_quote!(#i));
            let hh: Expr = if *incl { parse_quote!((#h) + 1) } else { h.clone() };
            (vec![parse_quote!(let mut #i = #lo;), parse_quote!(let #hi = #hh;)],
             parse_quote!(#label while #i < #hi { #(#b)* #i = #i + 1; #(#body)* }))
        }
        Src::Range { lo, hi: h, rev: true, incl, step: None } => {
            let b = bind(parse_quote!(#i));
            let hh: Expr = if *incl { parse_quote!((#h) + 1) } else { h.clone() };
            (vec![parse_quote!(let #hi = #lo;), parse_quote!(let mut #i = #hh;)],
             parse_quote!(#label while #i > #hi { #i = #i - 1; #(#b)* #(#body)* }))
        }
        Src::Range { lo, hi: h, rev, incl, step: Some(st) } => {
            let hh: Expr = if *incl { parse_quote!((#h) + 1) } else { h.clone() };
            let cnt = format_ident!("__c{}", k);
            let b = bind(parse_quote!(#s + #i * (#st)));
            let pre: Vec<Stmt> = vec![
                parse_quote!(let #s = #lo;),
                parse_quote!(let #hi = #hh;),
                parse_quote!(let #cnt = if #hi > #s { (#hi - #s - 1) / (#st) + 1 } else { 0 };),
            ];
            if *rev {
                let mut pre = pre;
                pre.push(parse_quote!(let mut #i = #cnt;));
                (pre, parse_quote!(#label while #i > 0 { #i = #i - 1; #(#b)* #(#body)* }))
            } else {
                let mut pre = pre;
                pre.push(parse_quote!(let mut #i = 0;));
                (pre, parse_quote!(#label while #i < #cnt { #(#b)* #i = #i + 1; #(#body)* }))
            }
        }
        Src::Seq { e, rev, enumerate, by_ref, pairs } => {
            let el: Expr = if *by_ref { parse_quote!(v_at(#s, #i)) } else { parse_quote!(v_at(#s, #i).clone()) };
            let v: Expr = if *enumerate { parse_quote!((#i, #el)) } else if *pairs { parse_quote!(v_pair(#el)) } else { el };
            let b = bind(v);
            let pre: Vec<Stmt> = vec![parse_quote!(let #s = &(#e);), parse_quote!(let #hi: usize = #s.len();)];
            if *rev {
                let mut pre = pre;
                pre.push(parse_quote!(let mut #i: usize = #hi;));
                (pre, parse_quote!(#label while #i > 0 { #i = #i - 1; #(#b)* #(#body)* }))
            } else {
                let mut pre = pre;
                pre.push(parse_quote!(let mut #i: usize = 0;));
                (pre, parse_quote!(#label while #i < #hi { #(#b)* #i = #i + 1; #(#body)* }))
            }
        }
    }
}

fn closure1(e: &Expr) -> Option<(Vec<Pat>, Expr)> {
    if let Expr::Closure(c) = strip_parens(e) {
        let pats = c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
        Some((pats, (*c.body).clone()))
    } else { None }
}

fn contains_quest(e: &Expr) -> bool { let mut v = HasEscape { ret: false, quest: false, brk: false }; v.visit_expr(e); v.quest }

/// The type named in `collect::<T>()`; (is_result, container)
fn collect_kind(t: &Option<MethodTurbofish>) -> Option<(bool, String)> {
    let t = t.as_ref()?;
    let s = t.args.iter().next()?.to_token_stream().to_string();
    let res = s.starts_with("Result");
    let container = if s.contains("Punctuated") { "Punctuated" } else if s.contains("Vec") { "Vec" } else { return None };
    Some((res, container.to_string()))
}

impl Loops {
    /// X.map(f).collect(), with the error case if `question` (collect::<Result<..>>()? )
    fn chain(&mut self, e: &Expr, question: bool, expected: Option<&Type>) -> Option<Expr> {
        let Expr::MethodCall(m) = strip_parens(e) else { return None };
        let name = m.method.to_string();
        let k = self.n;
        let v = format_ident!("__v{}", k);
        match name.as_str() {
            "collect" => {
                let kind = match collect_kind(&m.turbofish) {
                    Some(x) => x,
                    None => {
                        let t = expected?.to_token_stream().to_string();
                        let r = t.starts_with("Result") || question;
                        if t.contains("Punctuated") { (r, "Punctuated".into()) } else if t.contains("Vec") { (r, "Vec".into()) } else { return None }
                    }
                };
                if kind.0 != question { return None; }
                let (src, pat, body) = match strip_parens(&m.receiver) {
                    Expr::MethodCall(mm) if mm.method == "map" => {
                        let (p, b) = closure1(&mm.args[0])?;
                        if p.len() != 1 { return None; }
                        (seq_source(&mm.receiver)?, p[0].clone(), b)
                    }
                    other => (seq_source(other)?, parse_quote!(__e), parse_quote!(__e)),
                };
                if !question && contains_quest(&body) { return None; }
                let cont = format_ident!("{}", kind.1);
                let push: Stmt = if question {
                    // the body is a Result; unwrap an explicit Ok(..)
                    let inner = match strip_parens(&body) {
                        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { Stmt::Expr(e) => e.clone(), _ => body.clone() },
                        _ => body.clone(),
                    };
                    match &inner {
                        Expr::Call(c) if c.func.to_token_stream().to_string() == "Ok" => { let a = &c.args[0]; parse_quote!(#v.push(#a);) }
                        _ => parse_quote!(#v.push({ let __r: Result<_> = #inner; __r? });),
                    }
                } else { parse_quote!(#v.push(#body);) };
                self.n += 1;
                let (pre, lp) = build_loop(k, &src, Some(&pat), vec![push], &None);
                let ty = expected.filter(|t| { let t = t.to_token_stream().to_string(); t.starts_with(&kind.1) && !t.contains('_') });
                let decl: Stmt = match ty { Some(t) => parse_quote!(let mut #v: #t = #cont::new();), None => parse_quote!(let mut #v = #cont::new();) };
                Some(parse_quote!({ #decl #(#pre)* #lp #v }))
            }
            "any" | "all" => {
                let src = seq_source(&m.receiver)?;
                let (p, b) = closure1(&m.args[0])?;
                if contains_quest(&b) { return None; }
                self.n += 1;
                let p = &p[0];
                let (init, hit): (Expr, Expr) = if name == "any" { (parse_quote!(false), parse_quote!(if #b { #v = true; })) } else { (parse_quote!(true), parse_quote!(if !(#b) { #v = false; })) };
                let (pre, lp) = build_loop(k, &src, Some(p), vec![Stmt::Expr(hit)], &None);
                Some(parse_quote!({ let mut #v = #init; #(#pre)* #lp #v }))
            }
            "find" => {
                let src = seq_source(&m.receiver)?;
                let (p, b) = closure1(&m.args[0])?;
                if contains_quest(&b) { return None; }
                let Src::Seq { rev: false, enumerate: false, by_ref: true, .. } = &src else { return None };
                self.n += 1;
                let p = &p[0];
                // the closure sees a reference to the element reference
                let p2: Pat = match p { Pat::Reference(r) => (*r.pat).clone(), p => p.clone() };
                let el = format_ident!("__e{}", k);
                let pe: Pat = parse_quote!(#el);
                let (pre, lp) = build_loop(k, &src, Some(&pe), vec![
                    parse_quote!(let __hit = { let #p2 = #el; #b };),
                    parse_quote!(if #v.is_none() && __hit { #v = Some(#el); }),
                ], &None);
                let sv = format_ident!("__s{}", k);
                Some(parse_quote!({ #(#pre)* let mut #v = v_none(#sv); #lp #v }))
            }
            _ => None,
        }
    }
}

impl VisitMut for Loops {
    fn visit_local_mut(&mut self, l: &mut Local) {
        let ty = match &l.pat { Pat::Type(t) => Some((*t.ty).clone()), _ => None };
        if let Some((_, init)) = &mut l.init {
            self.visit_with(init, ty.as_ref());
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) { self.visit_with(e, None) }
}
impl Loops {
    fn visit_with(&mut self, e: &mut Expr, expected: Option<&Type>) {
        match e {
            Expr::ForLoop(f) => {
                let plain = match strip_parens(&f.expr) { Expr::Path(p) => Some(Src::Seq { e: parse_quote!(v_items(#p)), rev: false, enumerate: false, by_ref: false, pairs: false }), _ => None };
                if let Some(src) = seq_source(&f.expr).or(plain) {
                    let k = self.n;
                    self.n += 1;
                    let (mut pre, mut lp) = build_loop(k, &src, Some(&f.pat), f.body.stmts.clone(), &f.label);
                    for s in pre.iter_mut() { self.visit_stmt_mut(s); }
                    if let Expr::While(w) = &mut lp { self.visit_block_mut(&mut w.body); }
                    *e = parse_quote!({ #(#pre)* #lp });
                    return;
                } else {
                    // a plain path: a slice or vector reference, or an owned vector
                    self.fail = Some(format!("for loop over {}", f.expr.to_token_stream()));
                }
            }
            Expr::Try(t) => {
                if let Some(mut x) = self.chain(&t.expr, true, expected) {
                    visit_mut::visit_expr_mut(self, &mut x);
                    *e = x;
                    return;
                }
            }
            Expr::MethodCall(m) if m.method == "extend" && m.args.len() == 1 && !matches!(strip_parens(&m.args[0]), Expr::MethodCall(c) if c.method == "chars") => {
                // X.extend(Y.map(f)): a loop that pushes
                let (src, pat, body): (Option<Src>, Pat, Expr) = match strip_parens(&m.args[0]) {
                    Expr::MethodCall(mm) if mm.method == "map" => match closure1(&mm.args[0]) {
                        Some((p, b)) if p.len() == 1 && !contains_quest(&b) => (seq_source(&mm.receiver), p[0].clone(), b),
                        _ => (None, parse_quote!(__e), parse_quote!(__e)),
                    },
                    other => (seq_source(other), parse_quote!(__e), parse_quote!(__e)),
                };
                if let Some(src) = src {
                    let k = self.n;
                    self.n += 1;
                    let x = &m.receiver;
                    let (pre, mut lp) = build_loop(k, &src, Some(&pat), vec![parse_quote!(#x.push(#body);)], &None);
                    if let Expr::While(w) = &mut lp { self.visit_block_mut(&mut w.body); }
                    *e = parse_quote!({ #(#pre)* #lp });
                    return;
                }
            }
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "sort_by" | "sort_by_key") && m.args.len() == 1 => {
                // sorting by a key: the keys first, then a sort by them
                let key = match (m.method == "sort_by", closure1(&m.args[0])) {
                    (false, Some((p, b))) if p.len() == 1 => Some((p[0].clone(), b)),
                    (true, Some((p, b))) if p.len() == 2 => key_of(&p, &b).map(|k| (p[0].clone(), k)),
                    _ => None,
                };
                if let Some((p, body)) = key {
                    let k = self.n;
                    self.n += 1;
                    let x = &m.receiver;
                    let v = format_ident!("__k{}", k);
                    let src = Src::Seq { e: (**x).clone(), rev: false, enumerate: false, by_ref: true, pairs: false };
                    let (pre, lp) = build_loop(k, &src, Some(&p), vec![parse_quote!(#v.push(#body);)], &None);
                    *e = parse_quote!({ let mut #v = Vec::new(); { #(#pre)* #lp } v_sort_by_keys(&mut #x, #v) });
                    return;
                }
            }
            Expr::MethodCall(_) => {
                if let Some(mut x) = self.chain(e, false, expected) {
                    visit_mut::visit_expr_mut(self, &mut x);
                    *e = x;
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- W3, W5, W7

/// Text added at the end of a String; a literal is added character by character.
fn add_text(x: &Expr, y: &Expr) -> Expr {
    let y = match strip_parens(y) { Expr::Reference(r) => strip_parens(&r.expr), y => y };
    if let (Expr::Lit(ExprLit { lit: Lit::Str(s), .. }), Expr::Path(_)) = (y, strip_parens(x)) {
        let cs: Vec<char> = s.value().chars().collect();
        return parse_quote!({ #(#x.v_push(#cs);)* });
    }
    parse_quote!(#x.v_extend(&#y))
}

// ---------------------------------------------------------------- W12
fn dec_text(e: &Expr) -> Option<String> {
    let lit = match strip_parens(e) {
        Expr::MethodCall(m) if m.method == "parse" && m.args.is_empty() => strip_parens(&m.receiver).clone(),
        Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string() == "BigDecimal :: from_str" => strip_parens(&c.args[0]).clone(),
        _ => return None,
    };
    let t = match lit { Expr::Lit(ExprLit { lit: Lit::Str(t), .. }) => t.value(), _ => return None };
    let d = t.strip_prefix('-').unwrap_or(&t);
    let ok = d.starts_with(|c: char| c.is_ascii_digit()) && d.ends_with(|c: char| c.is_ascii_digit()) && d.chars().all(|c| c.is_ascii_digit() || c == '.') && d.matches('.').count() <= 1;
    if ok { Some(t) } else { None }
}
/// The integer of the digits, 18 at a time, and the number of decimal places.
fn dec_value(t: &str) -> Expr {
    let (neg, d) = match t.strip_prefix('-') { Some(d) => (true, d), None => (false, t) };
    let places = d.split_once('.').map(|x| x.1.len()).unwrap_or(0) as i64;
    let digits: Vec<u8> = d.bytes().filter(|c| *c != b'.').collect();
    let mut n: Option<Expr> = None;
    for c in digits.chunks(18) {
        let a = LitInt::new(&format!("{}int", String::from_utf8_lossy(c).parse::<u64>().unwrap()), proc_macro2::Span::call_site());
        let b = LitInt::new(&format!("{}int", 10u64.pow(c.len() as u32)), proc_macro2::Span::call_site());
        n = Some(match n { None => parse_quote!(#a), Some(n) => parse_quote!((#n * #b + #a)) });
    }
    let n = n.unwrap();
    let n: Expr = if neg { parse_quote!(-(#n)) } else { n };
    let places = LitInt::new(&places.to_string(), proc_macro2::Span::call_site());
    parse_quote!(v_dec(Ghost(#n), #places))
}

pub struct Misc { pub fail: Option<String> }
impl VisitMut for Misc {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "vec" => {
                        if m.mac.tokens.is_empty() {
                            *e = parse_quote!(Vec::new());
                        } else if let Ok(a) = m.mac.parse_body_with(|i: parse::ParseStream| {
                            let a: Expr = i.parse()?;
                            let _: Token![;] = i.parse()?;
                            let b: Expr = i.parse()?;
                            Ok((a, b))
                        }) {
                            let (mut a, mut b) = a;
                            self.visit_expr_mut(&mut a);
                            self.visit_expr_mut(&mut b);
                            *e = parse_quote!(v_vec_elem(#a, #b));
                        } else if let Ok(a) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                            let mut a: Vec<Expr> = a.into_iter().collect();
                            for x in a.iter_mut() { self.visit_expr_mut(x); }
                            *e = parse_quote!({ let mut __v = Vec::new(); #(__v.push(#a);)* __v });
                        }
                    }
                    "panic" | "unreachable" | "unimplemented" | "todo" => { *e = parse_quote!(v_panic()); }
                    "assert" | "debug_assert" | "assert_eq" | "debug_assert_eq" | "assert_ne" => {
                        let a = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok();
                        if let Some(a) = a {
                            let a: Vec<Expr> = a.into_iter().collect();
                            let c: Expr = if n.ends_with("_eq") { let (x, y) = (&a[0], &a[1]); parse_quote!(#x == #y) } else if n.ends_with("_ne") { let (x, y) = (&a[0], &a[1]); parse_quote!(#x != #y) } else { a[0].clone() };
                            *e = parse_quote!(if !(#c) { v_panic() });
                        }
                    }
                    "matches" => {
                        let r = m.mac.parse_body_with(|i: parse::ParseStream| {
                            let a: Expr = i.parse()?;
                            let _: Token![,] = i.parse()?;
                            let mut pats: Vec<Pat> = vec![i.parse()?];
                            while i.peek(Token![|]) { let _: Token![|] = i.parse()?; pats.push(i.parse()?); }
                            let guard: Option<Expr> = if i.peek(Token![if]) { let _: Token![if] = i.parse()?; Some(i.parse()?) } else { None };
                            let _: Option<Token![,]> = i.parse()?;
                            Ok((a, pats, guard))
                        });
                        if let Ok((a, pats, guard)) = r {
                            *e = match guard {
                                Some(g) => parse_quote!(match #a { #(#pats)|* if #g => true, _ => false }),
                                None => parse_quote!(match #a { #(#pats)|* => true, _ => false }),
                            };
                        }
                    }
                    "format" => {
                        if let Ok(a) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                            let a: Vec<Expr> = a.into_iter().collect();
                            if let Some(Expr::Lit(ExprLit { lit: Lit::Str(t), .. })) = a.first() {
                                let t = t.value();
                                if t.starts_with('{') && t.ends_with('}') && t.matches('{').count() == 1 {
                                    let (arg, spec) = t[1..t.len() - 1].split_once(':').unwrap_or((&t[1..t.len() - 1], ""));
                                    let f = match spec { "" => "v_format_display", "?" => "v_format_debug", "e" | "E" => "v_format_exp", _ => "" };
                                    let x = if arg.is_empty() || arg == "0" { if a.len() == 2 { Some(a[1].clone()) } else { None } } else if a.len() == 1 { parse_str::<Expr>(arg).ok() } else { None };
                                    if let (Some(mut x), false) = (x, f.is_empty()) {
                                        self.visit_expr_mut(&mut x);
                                        let f = Ident::new(f, proc_macro2::Span::call_site());
                                        *e = parse_quote!(#f(&#x));
                                    }
                                }
                            }
                        }
                    }
                    "quote" | "parse_quote" | "write" => {}
                    x if x.starts_with("__") => {}
                    _ => self.fail = Some(format!("macro {}!", n)),
                }
            }
            // Vec::from(x) and x.to_vec(): a copy
            Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string() == "Vec :: from" => { let a = &c.args[0]; *e = parse_quote!(v_to_vec(#a)); }
            Expr::MethodCall(m) if m.method == "to_vec" && m.args.is_empty() => { let a = &m.receiver; *e = parse_quote!(v_to_vec(&#a)); }
            // X as *const T as usize: an address
            Expr::Cast(c) if matches!(strip_parens(&c.expr), Expr::Cast(d) if matches!(&*d.ty, Type::Ptr(_))) && c.ty.to_token_stream().to_string() == "usize" => {
                if let Expr::Cast(d) = strip_parens(&c.expr) { let x = &d.expr; *e = parse_quote!(v_addr(#x)); }
            }
            // text: X.extend(Y.chars()), X.push_str(Y), X.push('c'); Y.repeat(n)
            Expr::MethodCall(m) if m.method == "extend" && m.args.len() == 1 && matches!(strip_parens(&m.args[0]), Expr::MethodCall(c) if c.method == "chars" && c.args.is_empty()) => {
                if let Expr::MethodCall(c) = strip_parens(&m.args[0]) { *e = add_text(&m.receiver, &c.receiver); }
            }
            Expr::MethodCall(m) if m.method == "push_str" && m.args.len() == 1 => { *e = add_text(&m.receiver, &m.args[0]); }
            Expr::MethodCall(m) if m.method == "push" && m.args.len() == 1 && matches!(strip_parens(&m.args[0]), Expr::Lit(ExprLit { lit: Lit::Char(_), .. })) => { let (x, c) = (&m.receiver, &m.args[0]); *e = parse_quote!(#x.v_push(#c)); }
            Expr::MethodCall(m) if m.method == "repeat" && m.args.len() == 1 => {
                let n = &m.args[0];
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = strip_parens(&m.receiver) {
                    let t = s.value();
                    if t.chars().count() == 1 { let c = t.chars().next().unwrap(); *e = parse_quote!(v_repeat(#c, #n)); }
                }
            }
            // "1.5".parse().unwrap(), BigDecimal::from_str("1.5").unwrap()
            Expr::MethodCall(m) if m.method == "unwrap" && dec_text(&m.receiver).is_some() => { *e = dec_value(&dec_text(&m.receiver).unwrap()); }
            // &x[a..b]
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = strip_parens(&ix.index) {
                        let b = &ix.expr;
                        let lo: Expr = match &rg.from { Some(x) => (**x).clone(), None => parse_quote!(0) };
                        if let RangeLimits::HalfOpen(_) = rg.limits {
                            *e = match &rg.to {
                                Some(x) => parse_quote!(v_slice(#b, #lo, #x)),
                                None => parse_quote!(v_slice_from(#b, #lo)),
                            };
                        } else if let Some(x) = &rg.to {
                            *e = parse_quote!(v_slice(#b, #lo, (#x) + 1));
                        }
                    }
                }
                // &*v on a vector used as a slice: keep
            }
            _ => {}
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Macro(m) = t {
            if m.mac.path.is_ident("Token") {
                *t = parse_quote!(syn::token::Comma);
            }
        }
    }
    fn visit_generic_argument_mut(&mut self, g: &mut GenericArgument) {
        visit_mut::visit_generic_argument_mut(self, g);
    }
    fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
        // W7
        if s.ident == "Punctuated" {
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                if a.args.len() == 2 {
                    let first = a.args[0].clone();
                    a.args = std::iter::once(first).collect();
                }
            }
        }
        visit_mut::visit_path_segment_mut(self, s);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        // crate::a::b::X -> X
        if p.segments.len() > 1 {
            let f = p.segments[0].ident.to_string();
            if f == "crate" || f == "super" {
                let last = p.segments.last().unwrap().clone();
                p.leading_colon = None;
                let keep2 = p.segments.len() >= 2 && p.segments[p.segments.len() - 2].ident.to_string().chars().next().map_or(false, |c| c.is_uppercase());
                let prev = if keep2 { Some(p.segments[p.segments.len() - 2].clone()) } else { None };
                p.segments = prev.into_iter().chain(std::iter::once(last)).collect();
            } else if f == "std" && p.segments.len() == 3 && p.segments[1].ident == "result" {
                let last = p.segments.last().unwrap().clone();
                let mut l = last; l.ident = Ident::new("StdResult", l.ident.span());
                p.segments = std::iter::once(l).collect();
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

// ---------------------------------------------------------------- W8

/// `match (A, B, ..) { ("lit", pat, ..) [if g] => e, ... }` and `match s { "lit" => .. }`
/// Strings of at most 16 bytes are compared as numbers, which are different for different strings.
pub fn str_code(s: &str) -> Option<u128> {
    if s.len() > 16 || s.is_empty() { return None; }
    Some(s.bytes().fold(0u128, |a, b| a * 256 + b as u128))
}
pub struct StrMatch { pub n: usize }
fn pat_has_str(p: &Pat) -> bool {
    match p {
        Pat::Lit(l) => matches!(strip_parens(&l.expr), Expr::Lit(ExprLit { lit: Lit::Str(_), .. })),
        Pat::Tuple(t) => t.elems.iter().any(pat_has_str),
        Pat::Or(o) => o.cases.iter().any(pat_has_str),
        _ => false,
    }
}
impl StrMatch {
    /// Condition and bindings for one pattern against the temporaries.
    fn pat(&self, p: &Pat, val: &Expr) -> Option<(Vec<Expr>, Vec<Stmt>)> {
        match p {
            Pat::Wild(_) => Some((vec![], vec![])),
            Pat::Lit(l) => match strip_parens(&l.expr) {
                Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some((vec![{ let n = str_code(&s.value())?; let n: Expr = parse_str(&format!("{}u128", n)).unwrap(); parse_quote!(v_str_is(&#val, #n)) }], vec![])),
                x => Some((vec![parse_quote!(#val == #x)], vec![])),
            },
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                if i.ident.to_string().chars().all(|c| c.is_uppercase() || c == '_') && i.ident != "_" { return None; }
                Some((vec![], vec![parse_quote!(let #i = #val;)]))
            }
            Pat::Or(o) => {
                let mut conds = Vec::new();
                for c in &o.cases {
                    let (cc, b) = self.pat(c, val)?;
                    if !b.is_empty() { return None; }
                    let cc: Expr = cc.into_iter().reduce(|a, b| parse_quote!(#a && #b)).unwrap_or(parse_quote!(true));
                    conds.push(cc);
                }
                let c: Expr = conds.into_iter().reduce(|a, b| parse_quote!(#a || #b))?;
                Some((vec![parse_quote!((#c))], vec![]))
            }
            _ => None,
        }
    }
}
impl VisitMut for StrMatch {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // name == "lit"
        if let Expr::Binary(b) = e {
            let lit = |x: &Expr| match strip_parens(x) { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => str_code(&s.value()), _ => None };
            let (neg, eq) = (matches!(b.op, BinOp::Ne(_)), matches!(b.op, BinOp::Eq(_)));
            if neg || eq {
                let side = match (lit(&b.left), lit(&b.right)) { (None, Some(n)) => Some((&b.left, n)), (Some(n), None) => Some((&b.right, n)), _ => None };
                if let Some((v, n)) = side {
                    let n: Expr = parse_str(&format!("{}u128", n)).unwrap();
                    *e = if neg { parse_quote!(!v_str_is(&#v, #n)) } else { parse_quote!(v_str_is(&#v, #n)) };
                }
            }
            return;
        }
        let Expr::Match(m) = e else { return };
        if !m.arms.iter().any(|a| pat_has_str(&a.pat)) { return; }
        let k = self.n;
        let vals: Vec<Expr> = match strip_parens(&m.expr) {
            Expr::Tuple(t) => t.elems.iter().cloned().collect(),
            x => vec![x.clone()],
        };
        let tmps: Vec<Ident> = (0..vals.len()).map(|i| format_ident!("__m{}_{}", k, i)).collect();
        let mut out: Option<Expr> = None;
        for a in m.arms.iter().rev() {
            // one entry per alternative: (condition, bindings)
            let cases: Vec<&Pat> = match &a.pat { Pat::Or(o) => o.cases.iter().collect(), p => vec![p] };
            let mut conds: Vec<Expr> = vec![];
            let mut binds: Vec<Stmt> = vec![];
            let mut always = false;
            for c in cases {
                let pats: Vec<Pat> = match c {
                    Pat::Tuple(t) if vals.len() > 1 => t.elems.iter().cloned().collect(),
                    Pat::Wild(_) => vec![],
                    p if vals.len() == 1 => vec![p.clone()],
                    _ => return,
                };
                if pats.is_empty() { always = true; continue; }
                if pats.len() != vals.len() { return; }
                let mut cs = vec![];
                for (p, t) in pats.iter().zip(&tmps) {
                    let Some((c, b)) = self.pat(p, &parse_quote!(#t)) else { return };
                    cs.extend(c);
                    binds.extend(b);
                }
                if cs.is_empty() { always = true; }
                else { conds.push(cs.into_iter().reduce(|a, b| parse_quote!(#a && #b)).unwrap()); }
            }
            let body = &a.body;
            let b: Expr = parse_quote!({ #(#binds)* #body });
            let cond: Option<Expr> = if always { None } else { conds.into_iter().reduce(|a, b| parse_quote!((#a) || (#b))) };
            // guards see the bindings by reference
            let gbinds: Vec<Stmt> = binds.iter().map(|s| match s { Stmt::Local(l) => { let p = &l.pat; let v = &l.init.as_ref().unwrap().1; parse_quote!(let #p = #v.clone();) } s => s.clone() }).collect();
            let guard: Option<Expr> = a.guard.as_ref().map(|(_, g)| -> Expr { if gbinds.is_empty() { (**g).clone() } else { parse_quote!({ #(#gbinds)* #g }) } });
            let full: Option<Expr> = match (cond, guard) {
                (None, None) => None,
                (Some(c), None) => Some(c),
                (None, Some(g)) => Some(g),
                (Some(c), Some(g)) => Some(parse_quote!((#c) && #g)),
            };
            out = Some(match (full, out) {
                (None, _) => b,
                (Some(c), None) => parse_quote!(if #c #b),
                (Some(c), Some(o)) => { let ob: Expr = match &o { Expr::If(_) | Expr::Block(_) => o, o => parse_quote!({ #o }) }; parse_quote!(if #c #b else #ob) }
            });
        }
        self.n += 1;
        let Some(o) = out else { return };
        *e = parse_quote!({ #(let #tmps = #vals;)* #o });
    }
}

// ---------------------------------------------------------------- numbering of loops

pub struct NumberLoops { pub n: usize }
impl VisitMut for NumberLoops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(_) | Expr::Loop(_) => {
                let k = self.n;
                self.n += 1;
                let body = match e { Expr::While(w) => &mut w.body, Expr::Loop(l) => &mut l.body, _ => unreachable!() };
                let m = format_ident!("__VLOOP_{}", k);
                let b = format_ident!("__VLBEGIN_{}", k);
                let en = format_ident!("__VLEND_{}", k);
                // a value-less tail expression becomes a statement, so that a marker can follow it
                if let Some(Stmt::Expr(x)) = body.stmts.last().cloned() {
                    if !matches!(x, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)) || true {
                        body.stmts.pop();
                        body.stmts.push(Stmt::Semi(x, Default::default()));
                    }
                }
                visit_mut::visit_block_mut(self, body);
                body.stmts.insert(0, parse_quote!(#m!();));
                body.stmts.insert(1, parse_quote!(#b!();));
                body.stmts.push(parse_quote!(#en!();));
                let pre = format_ident!("__VLBEFORE_{}", k);
                let post = format_ident!("__VLAFTER_{}", k);
                if let Expr::While(w) = e { self.visit_expr_mut(&mut w.cond); }
                let diverges = matches!(e, Expr::Loop(_));
                let old = e.clone();
                if diverges { *e = parse_quote!({ #pre!(); #old; #post!(); }); } else { *e = parse_quote!({ #pre!(); #old #post!(); }); }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

pub struct Done { pub block: Block, pub loops: usize, pub inlined: Vec<String> }

pub fn rewrite_body(ctx: &Ctx, self_ty: Option<String>, body: &Block) -> std::result::Result<Done, String> {
    let mut b = body.clone();
    DropPrints { keep: ctx.noprint }.visit_block_mut(&mut b);
    let mut inl = Inliner { ctx, self_ty, depth: 0, log: vec![], in_try: false };
    inline_tail(&mut inl, &mut b);
    inl.visit_block_mut(&mut b);
    DropPrints { keep: ctx.noprint }.visit_block_mut(&mut b);
    crate::quoted::beta(ctx, &mut b)?;
    let mut l = Loops { n: 0, fail: None };
    l.visit_block_mut(&mut b);
    if let Some(f) = l.fail { return Err(f); }
    crate::quoted::rewrite_quotes(&mut b)?;
    let mut m = Misc { fail: None };
    m.visit_block_mut(&mut b);
    if let Some(f) = m.fail { return Err(f); }
    StrMatch { n: 0 }.visit_block_mut(&mut b);
    let mut n = NumberLoops { n: 0 };
    n.visit_block_mut(&mut b);
    Ok(Done { block: b, loops: n.n, inlined: inl.log })
}
#[allow(unused)]
fn _u() { let _ = quote!(); }
