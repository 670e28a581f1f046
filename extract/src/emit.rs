//! Loads the sources, finds the functions, weaves contracts into the rewritten bodies and
//! prints the Verus file.
use crate::rewrite::rewrite_body;
use crate::unit::{FnSpec, Item, Unit};
use quote::{format_ident, quote, ToTokens};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path as FsPath;
use syn::visit_mut::{self, VisitMut};
use syn::*;

type Res<T> = std::result::Result<T, String>;

pub struct Ctx {
    pub known: BTreeSet<String>,
    pub files: BTreeMap<String, File>,
    pub cur: RefCell<String>,
    pub search: Vec<String>,
    /// helpers that may be asked for, but which the unit models differently
    pub opaque: BTreeSet<String>,
    pub noprint: bool,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.tokens.to_string();
        a.path.is_ident("test") || (a.path.is_ident("cfg") && s.contains("test"))
    })
}

fn fns_in<'a>(items: &'a [syn::Item], out: &mut Vec<&'a ItemFn>) {
    for it in items {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) => out.push(f),
            syn::Item::Mod(m) if !is_test(&m.attrs) => if let Some((_, its)) = &m.content { fns_in(its, out) },
            _ => {}
        }
    }
}
fn impls_in<'a>(items: &'a [syn::Item], out: &mut Vec<&'a ItemImpl>) {
    for it in items {
        match it {
            syn::Item::Impl(f) if !is_test(&f.attrs) => out.push(f),
            syn::Item::Mod(m) if !is_test(&m.attrs) => if let Some((_, its)) = &m.content { impls_in(its, out) },
            _ => {}
        }
    }
}
fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        t => t.to_token_stream().to_string(),
    }
}

/// The table as sequences of numbers: an entry's number is its place, or that of the earlier entry with
/// the same name; names without an entry have numbers from 1000000 on.
fn table(ctx: &Ctx, file: &str, name: &str, key: &str, list: &str) -> Res<String> {
    fn peel(e: &Expr) -> &Expr { match e { Expr::Reference(r) => peel(&r.expr), Expr::Paren(p) => peel(&p.expr), Expr::Group(p) => peel(&p.expr), e => e } }
    fn elems<'a>(e: &'a Expr, what: &str) -> Res<Vec<&'a Expr>> { match peel(e) { Expr::Array(a) => Ok(a.elems.iter().collect()), _ => Err(format!("{} is not written as an array", what)) } }
    fn text(e: &Expr) -> Res<String> { match peel(e) { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Ok(s.value()), e => Err(format!("{} is not a text", e.to_token_stream())) } }
    let f = ctx.files.get(file).ok_or(format!("{} not found", file))?;
    let init = f.items.iter().find_map(|i| match i {
        syn::Item::Static(s) if s.ident == name => Some((*s.expr).clone()),
        syn::Item::Const(s) if s.ident == name => Some((*s.expr).clone()),
        _ => None }).ok_or(format!("table {} not found", name))?;
    let mut rows: Vec<(String, Vec<String>)> = vec![];
    for e in elems(&init, name)? {
        let Expr::Struct(s) = peel(e) else { return Err(format!("an entry of {} is not written as a struct", name)) };
        if s.rest.is_some() { return Err(format!("an entry of {} is not written out", name)); }
        let field = |k: &str| s.fields.iter().find(|f| matches!(&f.member, Member::Named(i) if i == k)).map(|f| &f.expr).ok_or(format!("no field {}", k));
        let mut deps = vec![];
        for d in elems(field(list)?, list)? { deps.push(text(d)?); }
        rows.push((text(field(key)?)?, deps));
    }
    let mut extra: Vec<String> = vec![];
    let mut num = |t: &str| match rows.iter().position(|r| r.0 == t) {
        Some(i) => i,
        None => 1000000 + match extra.iter().position(|x| x == t) { Some(i) => i, None => { extra.push(t.to_string()); extra.len() - 1 } },
    };
    let names: Vec<String> = rows.iter().map(|r| format!("{}int", num(&r.0))).collect();
    let deps: Vec<String> = rows.iter().map(|r| format!("    Seq::<int>::empty(){}, // {}\n", r.1.iter().map(|d| format!(".push({}int)", num(d))).collect::<String>(), r.0)).collect();
    Ok(format!("/// {} of {}, read from the sources\npub open spec fn t_names() -> Seq<int> {{ seq![{}] }}\npub open spec fn t_deps() -> Seq<Seq<int>> {{ seq![\n{}] }}\n", name, file, names.join(", "), deps.concat()))
}

impl Ctx {
    fn order(&self, file: Option<&str>) -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        if let Some(f) = file { v.push(f.to_string()); }
        v.push(self.cur.borrow().clone());
        v.extend(self.search.iter().cloned());
        v.extend(self.files.keys().cloned());
        let mut seen = BTreeSet::new();
        v.retain(|f| self.files.contains_key(f) && seen.insert(f.clone()));
        v
    }
    pub fn find_fn(&self, file: Option<&str>, name: &str) -> Option<(Signature, Block)> {
        self.find_fn_at(file, name).map(|(_, s, b)| (s, b))
    }
    pub fn find_fn_at(&self, file: Option<&str>, name: &str) -> Option<(String, Signature, Block)> {
        if self.opaque.contains(name) { return None; }
        for f in self.order(file) {
            let mut fns = Vec::new();
            fns_in(&self.files[&f].items, &mut fns);
            if let Some(x) = fns.iter().find(|x| x.sig.ident == name) {
                return Some((f, x.sig.clone(), (*x.block).clone()));
            }
        }
        None
    }
    pub fn find_method(&self, ty: &str, name: &str) -> Option<(Signature, Block)> {
        self.find_method_at(None, ty, name, None).map(|(_, _, s, b)| (s, b))
    }
    pub fn find_method_at(&self, file: Option<&str>, ty: &str, name: &str, trait_: Option<&str>) -> Option<(String, ItemImpl, Signature, Block)> {
        for f in self.order(file) {
            let mut impls = Vec::new();
            impls_in(&self.files[&f].items, &mut impls);
            for im in impls {
                if type_name(&im.self_ty) != ty { continue; }
                if let Some(t) = trait_ {
                    let tn = im.trait_.as_ref().map(|(_, p, _)| p.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
                    if tn != t && !tn.ends_with(&format!("::{}", t)) { continue; }
                }
                for it in &im.items {
                    if let ImplItem::Method(m) = it {
                        if m.sig.ident == name { return Some((f.clone(), im.clone(), m.sig.clone(), m.block.clone())); }
                    }
                }
            }
        }
        None
    }
    fn find_trait(&self, file: &str, name: &str) -> Option<ItemTrait> {
        for f in self.order(Some(file)) {
            for it in &self.files[&f].items {
                if let syn::Item::Trait(t) = it { if t.ident == name { return Some(t.clone()); } }
            }
        }
        None
    }
    fn find_impl(&self, file: &str, ty: &str, trait_: &str) -> Option<(String, ItemImpl)> {
        for f in self.order(Some(file)) {
            let mut impls = Vec::new();
            impls_in(&self.files[&f].items, &mut impls);
            for im in impls {
                if type_name(&im.self_ty) == ty {
                    if let Some((_, p, _)) = &im.trait_ { if p.segments.last().unwrap().ident == trait_ { return Some((f, im.clone())); } }
                }
            }
        }
        None
    }
    fn find_struct(&self, file: &str, name: &str) -> Option<syn::Item> {
        for f in self.order(Some(file)) {
            for it in &self.files[&f].items {
                match it {
                    syn::Item::Struct(s) if s.ident == name => return Some(it.clone()),
                    syn::Item::Enum(s) if s.ident == name => return Some(it.clone()),
                    _ => {}
                }
            }
        }
        None
    }
    fn find_const(&self, file: &str, name: &str) -> Option<ItemConst> {
        for f in self.order(Some(file)) {
            for it in &self.files[&f].items {
                if let syn::Item::Const(c) = it { if c.ident == name { return Some(c.clone()); } }
            }
        }
        None
    }
    /// The body of function FNAME in `macro_rules! MAC`, with metavariables replaced.
    fn find_macro_fn(&self, file: &str, mac: &str, fname: &str, args: &[(String, String)]) -> Res<(Signature, Block)> {
        for f in self.order(Some(file)) {
            for it in &self.files[&f].items {
                if let syn::Item::Macro(m) = it {
                    if m.ident.as_ref().map_or(false, |i| i == mac) {
                        return expand_macro(&m.mac.tokens, fname, args);
                    }
                }
            }
        }
        Err(format!("macro {} not found", mac))
    }
}

fn expand_macro(ts: &proc_macro2::TokenStream, fname: &str, args: &[(String, String)]) -> Res<(Signature, Block)> {
    use proc_macro2::{Delimiter, TokenStream, TokenTree};
    // (pattern) => { body }
    let toks: Vec<TokenTree> = ts.clone().into_iter().collect();
    let body = toks.iter().filter_map(|t| match t { TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.stream()), _ => None }).next().ok_or("macro body")?;
    fn go(ts: TokenStream, args: &[(String, String)]) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            if let (TokenTree::Punct(p), Some(TokenTree::Ident(id))) = (&v[i], v.get(i + 1)) {
                if p.as_char() == '$' {
                    if let Some((_, r)) = args.iter().find(|(k, _)| id == k) {
                        let r: TokenStream = r.parse().unwrap();
                        out.extend(r);
                        i += 2;
                        continue;
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let mut g2 = proc_macro2::Group::new(g.delimiter(), go(g.stream(), args));
                    g2.set_span(g.span());
                    out.extend(std::iter::once(TokenTree::Group(g2)));
                }
                t => out.extend(std::iter::once(t.clone())),
            }
            i += 1;
        }
        out
    }
    let ts = go(body, args);
    let f: File = syn::parse2(ts).map_err(|e| format!("macro body: {}", e))?;
    let mut fns = Vec::new();
    fns_in(&f.items, &mut fns);
    for x in fns {
        if x.sig.ident == fname || args.iter().any(|(_, v)| x.sig.ident == v) {
            return Ok((x.sig.clone(), (*x.block).clone()));
        }
    }
    Err(format!("no fn {} in macro", fname))
}

// ------------------------------------------------------------------ printing

fn pretty(ts: proc_macro2::TokenStream) -> String {
    let s = ts.to_string();
    s.replace("; ", ";\n").replace("{ ", "{\n").replace("} ", "}\n")
}

/// Replace the loop markers by the invariants and ghost code of the unit.
fn weave(body: String, spec: &FnSpec, loops: usize) -> String {
    let mut s = body;
    for k in 0..loops {
        let get = |m: &BTreeMap<usize, String>| m.get(&k).cloned().unwrap_or_default();
        // loop header
        for brace in ["{\n", "{ "] {
            let pat = format!("{}__VLOOP_{} ! () ;", brace, k);
            let inv = get(&spec.loops);
            s = s.replace(&pat, &format!("\n{}{{\n", inv));
        }
        for (name, m) in [("BEGIN", &spec.loop_begin), ("END", &spec.loop_end), ("BEFORE", &spec.loop_before), ("AFTER", &spec.loop_after)] {
            s = s.replace(&format!("__VL{}_{} ! () ;", name, k), &get(m));
        }
    }
    s
}

fn print_sig(sig: &Signature, as_name: &str, spec: &FnSpec, vis: bool) -> String {
    let mut sig = sig.clone();
    sig.ident = format_ident!("{}", as_name);
    struct T;
    impl VisitMut for T {
        fn visit_type_mut(&mut self, t: &mut Type) { crate::rewrite::Misc { fail: None }.visit_type_mut(t); }
        fn visit_path_mut(&mut self, p: &mut Path) { crate::rewrite::Misc { fail: None }.visit_path_mut(p); visit_mut::visit_path_mut(self, p); }
    }
    T.visit_signature_mut(&mut sig);
    let ret = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => format!(" -> ({}: {})", spec.ret, t.to_token_stream()),
    };
    let wh = sig.generics.where_clause.take().map(|w| w.to_token_stream().to_string()).unwrap_or_default();
    sig.output = ReturnType::Default;
    format!("{}{}{}{} {}\n{}", spec.attr, if vis { "pub " } else { "" }, sig.to_token_stream(), ret, wh, spec.spec)
}

pub struct FnReport { pub name: String, pub file: String, pub line: usize, pub loops: usize, pub want_loops: usize, pub inlined: Vec<String> }

struct Emit<'a> { ctx: &'a Ctx, out: String, reports: Vec<FnReport>, consts: BTreeSet<String> }

impl<'a> Emit<'a> {
    fn consts_of(&mut self, block: &Block, file: &str) {
        struct V(BTreeSet<String>);
        impl<'b> syn::visit::Visit<'b> for V {
            fn visit_expr_path(&mut self, p: &'b ExprPath) {
                if let Some(i) = p.path.get_ident() {
                    let s = i.to_string();
                    if s.len() > 1 && s.chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit()) { self.0.insert(s); }
                }
            }
            fn visit_macro(&mut self, _: &'b Macro) {}
        }
        let mut v = V(Default::default());
        syn::visit::Visit::visit_block(&mut v, block);
        for c in v.0 {
            if self.ctx.known.contains(&c) || self.consts.contains(&c) { continue; }
            if let Some(mut k) = self.ctx.find_const(file, &c) {
                k.attrs.clear();
                k.vis = Visibility::Inherited;
                self.consts.insert(c);
                self.out.push_str(&format!("{}\n", k.to_token_stream()));
            }
        }
    }
    fn func(&mut self, file: &str, self_ty: Option<String>, report: &str, sig: &Signature, block: &Block, as_name: &str, spec: &FnSpec) -> Res<String> {
        *self.ctx.cur.borrow_mut() = file.to_string();
        // $0$, $1$, ... stand for the parameters
        let mut names: Vec<(String, String)> = Vec::new();
        for a in &sig.inputs {
            if let FnArg::Typed(t) = a {
                let mut p = &*t.pat;
                while let Pat::Reference(r) = p { p = &r.pat; }
                let n = match p { Pat::Ident(i) => i.ident.to_string(), p => p.to_token_stream().to_string() };
                names.push((format!("${}$", names.len()), n));
            }
        }
        let spec = &spec.map(&|t: &str| { let mut t = t.to_string(); for (k, v) in &names { t = t.replace(k.as_str(), v); } t });
        let done = rewrite_body(self.ctx, self_ty, block).map_err(|e| format!("{}: {}", report, e))?;
        self.consts_of(&done.block, file);
        let mut sig2 = sig.clone();
        if let Some(s) = &spec.sig { sig2 = syn::parse_str(s.trim()).map_err(|e| format!("sig {}: {}", report, e))?; }
        // mut parameters and patterns in parameters are kept as they are
        let body = pretty(done.block.to_token_stream());
        let mut body = weave(body, spec, done.loops);
        if let Some(i) = body.find('{') { body.insert_str(i + 1, &format!("\n{}{}", spec.begin, if std::env::var("VEXTRACT_PROBE").is_ok() { "\nproof { assert(false); } // PROBE\n" } else { "" })); }
        if !spec.end.is_empty() { if let Some(i) = body.rfind('}') { body.insert_str(i, &format!("\n{}", spec.end)); } }
        for (pat, text) in &spec.before {
            if let Some(i) = body.find(pat.as_str()) {
                let at = body[..i].rfind(|c| c == ';' || c == '{' || c == '}').map(|x| x + 1).unwrap_or(0);
                body.insert_str(at, &format!("\n{}", text));
            }
        }
        for (pat, text) in &spec.after {
            if let Some(i) = body.find(pat.as_str()) {
                if let Some(at) = body[i..].find(';') { body.insert_str(i + at + 1, &format!("\n{}", text)); }
            }
        }
        let line = sig.ident.span().start().line;
        self.reports.push(FnReport { name: report.to_string(), file: file.to_string(), line, loops: done.loops, want_loops: spec.loops.len(), inlined: done.inlined });
        Ok(format!("{}{}\n", print_sig(&sig2, as_name, spec, !spec.attr.contains("trait_impl")), body))
    }
    fn emit_struct(&mut self, it: syn::Item) {
        let mut it = it;
        match &mut it {
            syn::Item::Struct(s) => {
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() { f.vis = parse_quote!(pub); f.attrs.clear(); }
            }
            syn::Item::Enum(s) => {
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for v in s.variants.iter_mut() { v.attrs.clear(); }
            }
            _ => {}
        }
        struct T;
        impl VisitMut for T { fn visit_type_mut(&mut self, t: &mut Type) { crate::rewrite::Misc { fail: None }.visit_type_mut(t); } }
        T.visit_item_mut(&mut it);
        self.out.push_str(&pretty(it.to_token_stream()));
        self.out.push('\n');
    }
}

fn rs_files(dir: &FsPath, root: &FsPath, out: &mut Vec<String>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() { rs_files(&p, root, out); }
        else if p.extension().map_or(false, |x| x == "rs") { out.push(p.strip_prefix(root).unwrap().to_string_lossy().to_string()); }
    }
}

pub fn run(unit_file: &FsPath, repo: &FsPath, out_dir: &FsPath) -> Res<()> {
    let unit: Unit = crate::unit::load(unit_file)?;
    let base = unit.options.get("base").cloned().unwrap_or("doctor-syn/src".into());
    let root = repo.join(&base);
    let mut names = Vec::new();
    rs_files(&root, &root, &mut names);
    names.sort();
    let mut files = BTreeMap::new();
    for n in names {
        let t = std::fs::read_to_string(root.join(&n)).map_err(|e| format!("{}: {}", n, e))?;
        let f = syn::parse_file(&t).map_err(|e| format!("{}: {}", n, e))?;
        files.insert(n, f);
    }
    let mut known: BTreeSet<String> = unit.known.iter().cloned().collect();
    for it in &unit.items {
        match it {
            Item::Verbatim(t) => {
                let b = t.as_bytes();
                let mut i = 0;
                while let Some(j) = t[i..].find("fn ") {
                    let s = i + j + 3;
                    let mut e = s;
                    while e < b.len() && (b[e].is_ascii_alphanumeric() || b[e] == b'_') { e += 1; }
                    if e > s { known.insert(t[s..e].to_string()); }
                    i = s;
                }
                let mut i = 0;
                while let Some(j) = t[i..].find("const ") {
                    let s = i + j + 6;
                    let mut e = s;
                    while e < b.len() && (b[e].is_ascii_alphanumeric() || b[e] == b'_') { e += 1; }
                    if e > s { known.insert(t[s..e].to_string()); }
                    i = s;
                }
            }
            Item::Fn { as_name, name, .. } => { known.insert(as_name.clone()); known.insert(name.clone()); }
            Item::Macro { as_name, .. } => { known.insert(as_name.clone()); }
            Item::Method { ty, name, .. } => { known.insert(format!("{}::{}", ty, name)); }
            Item::Visitor { ty, file: _, trait_file: _, trait_: _, .. } => {
                known.insert(format!("{}::*", ty));
            }
            _ => {}
        }
    }
    let mut ctx = Ctx { known, files, cur: RefCell::new(String::new()), search: unit.search.clone(), opaque: Default::default(), noprint: unit.options.contains_key("noprint") };
    // the visitor methods that every implementor gets
    for it in &unit.items {
        if let Item::Visitor { ty, trait_file, trait_, .. } = it {
            let t = ctx.find_trait(trait_file, trait_).ok_or(format!("trait {} not found", trait_))?;
            for m in &t.items { if let TraitItem::Method(m) = m { ctx.known.insert(format!("{}::{}", ty, m.sig.ident)); } }
        }
    }
    let ctx = ctx;
    let mut em = Emit { ctx: &ctx, out: String::new(), reports: vec![], consts: Default::default() };
    for it in &unit.items {
        match it {
            Item::Verbatim(t) => { em.out.push_str(t); em.out.push('\n'); }
            Item::Fn { file, name, as_name, spec } => {
                let (f, sig, block) = ctx.find_fn_at(Some(file), name).ok_or(format!("fn {} not found", name))?;
                let s = em.func(&f, None, name, &sig, &block, as_name, spec)?;
                em.out.push_str(&s);
            }
            Item::Macro { file, mac, fname, as_name, args, spec } => {
                let (sig, block) = ctx.find_macro_fn(file, mac, fname, args)?;
                let s = em.func(file, None, &format!("{}!({})", mac, as_name), &sig, &block, as_name, spec)?;
                em.out.push_str(&s);
            }
            Item::Method { file, ty, name, spec, trait_ } => {
                let (f, im, sig, block) = ctx.find_method_at(Some(file), ty, name, trait_.as_deref()).ok_or(format!("method {}::{} not found", ty, name))?;
                let bare = ty.trim_start_matches('&').to_string();
                let renamed = spec.sig.as_ref().and_then(|t| syn::parse_str::<Signature>(t.trim()).ok()).map(|s| s.ident.to_string());
                let s = em.func(&f, Some(bare.clone()), &format!("{}::{}", ty, name), &sig, &block, renamed.as_deref().unwrap_or(name), spec)?;
                let g = &im.generics;
                let head = match (&im.trait_, spec.attr.contains("trait_impl")) {
                    (Some((_, p, _)), true) => { let st = &im.self_ty; quote!(impl #g #p for #st).to_string() }
                    _ => { let st = &im.self_ty; quote!(impl #g #st).to_string() }
                };
                let types: String = match (&im.trait_, spec.attr.contains("trait_impl")) {
                    (Some(_), true) => im.items.iter().filter_map(|i| match i { ImplItem::Type(t) => Some(format!("{}\n", t.to_token_stream())), _ => None }).collect(),
                    _ => String::new(),
                };
                em.out.push_str(&format!("{} {{\n{}{}}}\n", head, types, s));
            }
            Item::Struct { file, name } => {
                let s = ctx.find_struct(file, name).ok_or(format!("struct {} not found", name))?;
                em.emit_struct(s);
            }
            Item::Inline { .. } => {}
            Item::Facts => {
                let f = std::env::var("VEXTRACT_FACTS").map_err(|_| "no facts were measured".to_string())?;
                em.out.push_str(&std::fs::read_to_string(&f).map_err(|e| format!("{}: {}", f, e))?);
            }
            Item::Table { file, name, key, list } => em.out.push_str(&table(&ctx, file, name, key, list)?),
            Item::Visitor { ty, file, trait_file, trait_, specs, .. } => {
                let t = ctx.find_trait(trait_file, trait_).unwrap();
                let (f, im) = ctx.find_impl(file, ty, trait_).ok_or(format!("impl {} for {} not found", trait_, ty))?;
                let g = &im.generics;
                let st = &im.self_ty;
                let mut body = String::new();
                let own: BTreeMap<String, &ImplItemMethod> = im.items.iter().filter_map(|i| match i { ImplItem::Method(m) => Some((m.sig.ident.to_string(), m)), _ => None }).collect();
                for m in &t.items {
                    let TraitItem::Method(m) = m else { continue };
                    let name = m.sig.ident.to_string();
                    let (file2, sig, block) = match own.get(&name) {
                        Some(o) => (f.clone(), o.sig.clone(), o.block.clone()),
                        None => (trait_file.clone(), m.sig.clone(), m.default.clone().ok_or(format!("{} has no body", name))?),
                    };
                    let own_key = format!("own-{}", name);
                    let dspec = FnSpec { ret: "r".into(), ..Default::default() };
                    let spec = if own.contains_key(&name) { specs.get(&own_key).or(specs.get(&name)) } else { specs.get(&name) };
                    let spec = match spec { Some(s) => s, None => { if let Some(a) = specs.get("all") { a } else { &dspec } } };
                    body.push_str(&em.func(&file2, Some(ty.clone()), &format!("{}::{}", ty, name), &sig, &block, &name, spec)?);
                }
                em.out.push_str(&format!("{} {{\n{}}}\n", quote!(impl #g #st), body));
            }
        }
    }
    let full = format!("// Generated by vextract from {}. Do not edit.\n#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_braces, unused_labels, unused_assignments, unreachable_code, non_camel_case_types)]\nuse vstd::prelude::*;\n{}\nverus! {{\n{}\n}} // verus!\nfn main() {{}}\n", unit.name, unit.options.get("head").cloned().unwrap_or_default(), em.out);
    std::fs::create_dir_all(out_dir).map_err(|e| e.to_string())?;
    std::fs::write(out_dir.join(format!("{}.rs", unit.name)), full).map_err(|e| e.to_string())?;
    let mut j = String::from("{\"functions\":[");
    for (i, r) in em.reports.iter().enumerate() {
        if i > 0 { j.push(','); }
        j.push_str(&format!("{{\"name\":{:?},\"file\":{:?},\"line\":{},\"loops\":{},\"want_loops\":{},\"inlined\":{:?}}}", r.name, format!("{}/{}", base, r.file), r.line, r.loops, r.want_loops, r.inlined));
    }
    j.push_str("]}\n");
    std::fs::write(out_dir.join(format!("{}.json", unit.name)), j).map_err(|e| e.to_string())?;
    Ok(())
}
