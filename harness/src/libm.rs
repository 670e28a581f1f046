//! The generator program, run as its users run it.
use crate::util::*;
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::str::FromStr;
use std::sync::Mutex;
use syn::visit::{self, Visit};

fn bin() -> String { std::env::var("LIBMGEN").unwrap_or_else(|_| { eprintln!("LIBMGEN is not set"); std::process::exit(2) }) }
/// A scratch directory that goes away with it.
struct Scratch(PathBuf);
impl Scratch {
    fn new(tag: &str) -> Scratch { let p = std::env::temp_dir().join(format!("verif-libm-{}-{}", tag, std::process::id())); std::fs::create_dir_all(&p).unwrap(); Scratch(p) }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

#[derive(Clone, Debug)]
struct Out { ok: bool, text: String, err: String }
fn run(args: &[String]) -> Out {
    let o = Command::new("timeout").arg("120").arg(bin()).args(args).stdin(Stdio::null()).output().unwrap_or_else(|e| { eprintln!("{}", e); std::process::exit(2) });
    Out { ok: o.status.success(), text: String::from_utf8_lossy(&o.stdout).to_string(), err: String::from_utf8_lossy(&o.stderr).to_string() }
}
#[derive(Clone, Debug)]
struct Conf { bits: &'static str, ty: &'static str }
const CONFS: [Conf; 4] = [Conf { bits: "64", ty: "decimal" }, Conf { bits: "32", ty: "decimal" }, Conf { bits: "64", ty: "hex" }, Conf { bits: "32", ty: "hex" }];
fn args(f: &[String], x: &[String], c: &Conf) -> Vec<String> {
    let mut v = vec!["-f".to_string(), f.join(","), "--num-bits".into(), c.bits.into(), "--number-type".into(), c.ty.into()];
    if !x.is_empty() { v.extend(["-x".to_string(), x.join(",")]); }
    v
}
fn shown(a: &[String]) -> String { format!("libmgen {}", a.join(" ")) }
fn par<T: Sync, R: Send>(xs: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<R> {
    let out: Mutex<Vec<(usize, R)>> = Mutex::new(vec![]);
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| for _ in 0..8 { s.spawn(|| loop {
        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if i >= xs.len() { break; }
        let r = f(&xs[i]);
        out.lock().unwrap().push((i, r));
    }); });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
fn names() -> Result<Vec<String>, Bad> {
    let o = run(&["-f".into(), "help".into()]);
    let v: Vec<String> = o.text.split_whitespace().map(str::to_string).collect();
    if !o.ok || v.is_empty() { return Err(Bad { input: "libmgen -f help".into(), expected: "the names of the functions".into(), got: o.err }); }
    Ok(v)
}
/// The items of a library, as token texts.
fn items(t: &str) -> Result<Vec<syn::Item>, String> {
    let ts = TokenStream::from_str(t).map_err(|e| format!("not Rust tokens: {}", e))?;
    let f: syn::File = syn::parse2(ts).map_err(|e| format!("not a Rust file: {}", e))?;
    if !f.attrs.is_empty() { return Err("attributes of the file".into()); }
    Ok(f.items)
}
fn text(i: &syn::Item) -> String { i.to_token_stream().to_string() }
fn own(all: &[String], n: &str, c: &Conf) -> (Vec<String>, Out) {
    let x: Vec<String> = all.iter().filter(|m| m.as_str() != n).cloned().collect();
    let a = args(&[n.to_string()], &x, c);
    let o = run(&a);
    (a, o)
}

/// The table of the sources, if it is written out as one.
fn table() -> Option<BTreeMap<String, Vec<String>>> { Some(table_of()?.into_iter().map(|(k, v)| (k, v.0)).collect()) }
/// With whether there is a generator.
fn table_of() -> Option<BTreeMap<String, (Vec<String>, bool)>> {
    fn peel(e: &syn::Expr) -> &syn::Expr { match e { syn::Expr::Reference(r) => peel(&r.expr), syn::Expr::Paren(p) => peel(&p.expr), syn::Expr::Group(p) => peel(&p.expr), e => e } }
    fn lit(e: &syn::Expr) -> Option<String> { match peel(e) { syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()), _ => None } }
    let p = PathBuf::from(std::env::var("REPO").unwrap_or("/repo".into())).join("libmgen/src/functions.rs");
    let f = syn::parse_file(&std::fs::read_to_string(p).ok()?).ok()?;
    let init = f.items.iter().find_map(|i| match i { syn::Item::Static(s) if s.ident == "FUNCTIONS" => Some(&*s.expr), syn::Item::Const(s) if s.ident == "FUNCTIONS" => Some(&*s.expr), _ => None })?;
    let syn::Expr::Array(a) = peel(init) else { return None };
    let mut t = BTreeMap::new();
    for e in &a.elems {
        let syn::Expr::Struct(s) = peel(e) else { return None };
        let field = |k: &str| s.fields.iter().find(|f| matches!(&f.member, syn::Member::Named(i) if i == k)).map(|f| &f.expr);
        let syn::Expr::Array(d) = peel(field("deps")?) else { return None };
        let mut deps = vec![];
        for x in &d.elems { deps.push(lit(x)?); }
        let gen = field("gen").map(|e| !matches!(peel(e), syn::Expr::Path(p) if p.path.is_ident("None"))).unwrap_or(false);
        t.entry(lit(field("name")?)?).or_insert((deps, gen));
    }
    Some(t)
}

/// What is selected: everything reached from the names without an excluded one.
fn closure(t: &BTreeMap<String, Vec<String>>, f: &[String], x: &[String]) -> BTreeSet<String> {
    let mut seen = BTreeSet::new();
    let mut todo: Vec<String> = f.to_vec();
    while let Some(n) = todo.pop() {
        if x.contains(&n) || seen.contains(&n) { continue; }
        if let Some(d) = t.get(&n) { todo.extend(d.iter().cloned()); seen.insert(n); }
    }
    seen
}

pub fn select(c: &mut Ctx) -> Check {
    let all = names()?;
    let mut r = c.rng(16);
    let dup: Vec<&String> = all.iter().enumerate().filter(|(i, n)| all[..*i].contains(n)).map(|x| x.1).collect();
    if !dup.is_empty() { return bad("libmgen -f help", "each name once", format!("{:?} twice", dup)); }
    let conf = CONFS[r.below(2)].clone();
    // what each entry writes by itself
    let owns = par(&all, |n| own(&all, n, &conf));
    let mut own_items: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (n, (a, o)) in all.iter().zip(&owns) {
        c.cases += 1;
        if !o.ok { return bad(shown(a), "a library", format!("it fails: {}", tail(&o.err))); }
        match items(&o.text) { Ok(v) => { own_items.insert(n.clone(), v.iter().map(text).collect()); } Err(e) => return bad(shown(a), "a library", e) }
    }
    let mut owner: BTreeMap<String, String> = BTreeMap::new();
    for n in &all { for i in &own_items[n] { if let Some(m) = owner.insert(i.clone(), n.clone()) { return bad(format!("libmgen -f {},{}", m, n), "each definition once", format!("both entries write {}", short(i))); } } }
    // without a written-out table, the entries that a single selection brings along stand for it
    let t = match table() {
        Some(t) => t,
        None => {
            c.notes.push("the table is not written out; dependencies are those of single selections".into());
            let singles = par(&all, |n| run(&args(&[n.clone()], &[], &conf)));
            let mut t = BTreeMap::new();
            for (n, o) in all.iter().zip(&singles) {
                let mut deps: Vec<String> = vec![];
                for i in items(&o.text).unwrap_or_default() { if let Some(m) = owner.get(&text(&i)) { if m != n && !deps.contains(m) { deps.push(m.clone()); } } }
                t.insert(n.clone(), deps);
            }
            t
        }
    };
    for (n, d) in &t { for m in d { if !all.contains(m) { return bad(format!("libmgen -f {}", n), "everything that it depends on", format!("its dependency {} is not offered", m)); } } }
    c.notes.push(format!("{} entries, {} dependencies", all.len(), t.values().map(|d| d.len()).sum::<usize>()));
    let rounds = if c.thorough { 60 } else { 6 };
    let mut first = true;
    for _ in 0..rounds {
        if !c.time(0.9) { break; }
        let mut jobs: Vec<(Vec<String>, Vec<String>, Vec<String>)> = vec![];
        if first {
            for n in &all { jobs.push((vec![n.clone()], vec![], vec![])); }
            // each direct dependency left out
            for (n, d) in &t { if !d.is_empty() { jobs.push((vec![n.clone()], vec![d[r.below(d.len())].clone()], vec![])); } }
            let mut rev = all.clone(); rev.reverse();
            jobs.push((rev.clone(), vec![], vec![]));
            jobs.push((all.clone(), vec![], vec![]));
            // nearly everything, several times
            for k in 1..4 { let mut v: Vec<String> = (0..k).flat_map(|i| if i % 2 == 0 { all.clone() } else { rev.clone() }).collect(); let gone = v.remove(r.below(v.len())); v.retain(|n| *n != gone); for _ in 0..40 { let (a, b) = (r.below(v.len()), r.below(v.len())); v.swap(a, b); } jobs.push((v, vec![], vec![])); }
        }
        first = false;
        for _ in 0..24 {
            let mut f: Vec<String> = (0..1 + r.below(6)).map(|_| all[r.below(all.len())].clone()).collect();
            if r.chance(1, 4) { let x = f[r.below(f.len())].clone(); f.push(x); }
            let mut unknown = vec![];
            if r.chance(1, 3) { let u = r.pick(&["nosuch", "Sin", "sin2", "x", "PI2", "exp_", "help", "si", "co", "ab"]).to_string(); if !all.contains(&u) && !f.contains(&u) { let at = r.below(f.len() + 1); f.insert(at, u.clone()); unknown.push(u); } }
            let x: Vec<String> = if r.chance(1, 2) { (0..1 + r.below(4)).map(|_| if r.chance(1, 6) { "nosuch2".to_string() } else if r.chance(1, 4) { f[r.below(f.len())].clone() } else { all[r.below(all.len())].clone() }).collect() } else { vec![] };
            unknown.retain(|u| !x.contains(u));
            jobs.push((f, x, unknown));
        }
        let outs = par(&jobs, |(f, x, _)| { let a = args(f, x, &conf); let o = run(&a); (a, o) });
        for ((f, x, unknown), (a, o)) in jobs.iter().zip(&outs) {
            c.cases += 1;
            let want = closure(&t, f, x);
            let list: Vec<&String> = all.iter().filter(|n| want.contains(*n)).collect();
            let want_items: Vec<String> = list.iter().flat_map(|n| own_items[*n].clone()).collect();
            let expected = || format!("the entries {:?}, once each, in this order", list);
            if !o.ok { return bad(shown(a), expected(), format!("it fails: {}", tail(&o.err))); }
            let got: Vec<String> = match items(&o.text) { Ok(v) => v.iter().map(text).collect(), Err(e) => return bad(shown(a), expected(), e) };
            if got != want_items {
                let who: Vec<String> = got.iter().map(|i| owner.get(i).cloned().unwrap_or(format!("? {}", short(i)))).collect();
                return bad(shown(a), expected(), format!("definitions of {:?}", who));
            }
            for u in unknown { if !o.err.contains(u.as_str()) { return bad(shown(a), format!("a diagnostic about {}", u), format!("nothing about it in: {}", tail(&o.err))); } }
        }
    }
    Ok(())
}
/// Is it listed as a finding?
fn known(input: &str) -> bool { std::env::var("KNOWN_FINDINGS").unwrap_or_default().lines().any(|l| l == input) }
fn tail(s: &str) -> String { let l: Vec<&str> = s.trim().lines().collect(); l[l.len().saturating_sub(3)..].join(" | ").chars().take(300).collect() }
fn short(s: &str) -> String { s.chars().take(60).collect() }

/// Free names: what the items of a library use, and what they define.
#[derive(Default)]
struct Names { defs: Vec<String>, uses: BTreeSet<String>, locals: BTreeSet<String> }
const KNOWN: &[&str] = &["f32", "f64", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char", "str", "std", "core", "alloc", "self", "Self", "super", "crate", "Some", "None", "Ok", "Err", "Option", "Result", "Vec", "String", "Box", "Iterator", "Copy", "Clone", "Fn", "FnMut", "FnOnce", "Into", "From", "Default", "PartialEq", "PartialOrd",
    "assert", "assert_eq", "assert_ne", "panic", "println", "print", "eprintln", "format", "vec", "unreachable", "unimplemented", "debug_assert", "matches"];
impl<'a> Visit<'a> for Names {
    fn visit_attribute(&mut self, _: &'a syn::Attribute) {}
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.locals.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); }
    fn visit_type_param(&mut self, p: &'a syn::TypeParam) { self.locals.insert(p.ident.to_string()); visit::visit_type_param(self, p); }
    // items within functions
    fn visit_item_const(&mut self, p: &'a syn::ItemConst) { self.locals.insert(p.ident.to_string()); visit::visit_item_const(self, p); }
    fn visit_item_static(&mut self, p: &'a syn::ItemStatic) { self.locals.insert(p.ident.to_string()); visit::visit_item_static(self, p); }
    fn visit_item_fn(&mut self, p: &'a syn::ItemFn) { self.locals.insert(p.sig.ident.to_string()); visit::visit_item_fn(self, p); }
    fn visit_item_type(&mut self, p: &'a syn::ItemType) { self.locals.insert(p.ident.to_string()); visit::visit_item_type(self, p); }
    fn visit_path(&mut self, p: &'a syn::Path) {
        if p.leading_colon.is_none() { self.uses.insert(p.segments[0].ident.to_string()); }
        visit::visit_path(self, p);
    }
}
fn names_of(items: &[syn::Item]) -> (Vec<String>, Vec<String>) {
    let (mut defs, mut uses) = (vec![], BTreeSet::new());
    for i in items {
        let mut n = Names::default();
        n.visit_item(i);
        match i {
            syn::Item::Fn(f) => n.defs.push(f.sig.ident.to_string()),
            syn::Item::Const(f) => n.defs.push(f.ident.to_string()),
            syn::Item::Static(f) => n.defs.push(f.ident.to_string()),
            syn::Item::Type(f) => n.defs.push(f.ident.to_string()),
            syn::Item::Struct(f) => n.defs.push(f.ident.to_string()),
            syn::Item::Enum(f) => n.defs.push(f.ident.to_string()),
            syn::Item::Trait(f) => n.defs.push(f.ident.to_string()),
            syn::Item::Mod(f) => n.defs.push(f.ident.to_string()),
            _ => {}
        }
        for u in &n.uses { if !n.locals.contains(u) && !KNOWN.contains(&u.as_str()) { uses.insert(u.clone()); } }
        defs.extend(n.defs);
    }
    // within one entry, the order does not matter
    (defs.clone(), uses.into_iter().filter(|u| !defs.contains(u)).collect())
}

/// Writes what each entry's text defines and uses, for each configuration, as sequences of numbers.
pub fn facts(c: &mut Ctx, path: &str) -> Check {
    let all = names()?;
    let mut tables: Vec<(String, Vec<(Vec<String>, Vec<String>)>)> = vec![];
    for conf in &CONFS {
        let mut rows = vec![];
        for (a, o) in par(&all, |n| own(&all, n, conf)) {
            c.cases += 1;
            if !o.ok { return bad(shown(&a), "a library", format!("it fails: {}", tail(&o.err))); }
            match items(&o.text) { Ok(v) => rows.push(names_of(&v)), Err(e) => return bad(shown(&a), "a library", e) }
        }
        match tables.iter_mut().find(|t| t.1 == rows) { Some(t) => t.0.push_str(&format!(", {} bits {}", conf.bits, conf.ty)), None => tables.push((format!("{} bits {}", conf.bits, conf.ty), rows)) }
    }
    let mut s = String::new();
    for (k, part) in ["f_defs", "f_uses"].iter().enumerate() {
        s.push_str(&format!("/// Names that the text of each entry {} (measured on the built program)\npub open spec fn {}() -> Seq<Seq<Seq<int>>> {{ seq![\n", ["defines", "uses"][k], part));
        for (what, rows) in &tables {
            // numbered by where they are defined
            let mut num: BTreeMap<&str, usize> = BTreeMap::new();
            for r in rows { for d in &r.0 { let n = num.len(); num.entry(d).or_insert(n); } }
            for r in rows { for d in &r.1 { let n = num.len(); num.entry(d).or_insert(1000000 + n); } }
            s.push_str(&format!("  seq![ // {}\n", what));
            for (i, r) in rows.iter().enumerate() {
                let l = if k == 0 { &r.0 } else { &r.1 };
                s.push_str(&format!("    Seq::<int>::empty(){}, // {}: {}\n", l.iter().map(|d| format!(".push({}int)", num[d.as_str()])).collect::<String>(), all[i], l.join(" ")));
            }
            s.push_str("  ],\n");
        }
        s.push_str("] }\n");
    }
    std::fs::write(path, s).unwrap();
    c.notes.push(format!("{} entries, {} different configurations of {}", all.len(), tables.len(), CONFS.len()));
    Ok(())
}

/// Every single function, in every configuration, given to rustc.
pub fn compile(c: &mut Ctx) -> Check {
    let all = names()?;
    let dir = Scratch::new("compile");
    let gens = table_of();
    let mut r = c.rng(17);
    let mut jobs: Vec<(Vec<String>, Vec<String>, Conf)> = vec![];
    for conf in &CONFS { for n in &all { jobs.push((vec![n.clone()], vec![], conf.clone())); } }
    for conf in &CONFS { jobs.push((all.clone(), vec![], conf.clone())); }
    for _ in 0..c.n(16, 400) {
        let mut f: Vec<String> = (0..2 + r.below(5)).map(|_| all[r.below(all.len())].clone()).collect();
        // names that are not there must not get into the text
        if r.chance(1, 2) { f.push("nosuch".into()); }
        let x = if r.chance(1, 3) { vec!["nosuch2".to_string()] } else { vec![] };
        jobs.push((f, x, CONFS[r.below(4)].clone()));
    }
    let jobs: Vec<(usize, (Vec<String>, Vec<String>, Conf))> = jobs.into_iter().enumerate().collect();
    let res = par(&jobs, |(k, (f, x, conf))| -> Check {
        let a = args(f, x, conf);
        let o = run(&a);
        let want = "a library that compiles";
        if !o.ok { return bad(shown(&a), want, format!("it fails: {}", tail(&o.err))); }
        let v = match items(&o.text) { Ok(v) => v, Err(e) => return bad(shown(&a), want, e) };
        if let ([n], Some(t)) = (f.as_slice(), &gens) {
            // what has a generator is there
            if t.get(n).map(|e| e.1).unwrap_or(false) && !names_of(&v).0.contains(n) && !known(&shown(&a[..2])) { return bad(shown(&a), format!("a definition of {}", n), format!("definitions of {:?} only", names_of(&v).0)); }
        }
        for i in &v { if !matches!(i, syn::Item::Fn(_) | syn::Item::Const(_) | syn::Item::Static(_) | syn::Item::Type(_) | syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Trait(_) | syn::Item::Mod(_) | syn::Item::Use(_) | syn::Item::Impl(_)) { return bad(shown(&a), want, format!("the item {}", short(&text(i)))); } }
        let src = dir.0.join(format!("l{}.rs", k));
        let out = dir.0.join(format!("l{}.rmeta", k));
        std::fs::write(&src, &o.text).unwrap();
        let p = Command::new("rustc").args(["--edition", "2021", "-A", "warnings", "--crate-type", "lib", "--crate-name", "l", "--emit=metadata", "-o"]).arg(&out).arg(&src).env_remove("RUSTFLAGS").output().unwrap_or_else(|e| { eprintln!("{}", e); std::process::exit(2) });
        let _ = std::fs::remove_file(&src);
        let _ = std::fs::remove_file(&out);
        if !p.status.success() {
            let e = String::from_utf8_lossy(&p.stderr).to_string();
            let l: Vec<&str> = e.lines().filter(|l| l.starts_with("error")).take(3).collect();
            return bad(shown(&a), want, format!("rustc: {}", l.join("; ")));
        }
        if *k % 17 == 0 {
            // the same text in a file
            let file = dir.0.join(format!("o{}.txt", k));
            let mut b = a.clone();
            b.extend(["-o".to_string(), file.display().to_string()]);
            let q = run(&b);
            let t = std::fs::read_to_string(&file).unwrap_or_default();
            if t != o.text || !q.text.is_empty() { return bad(shown(&b), "the library in the file and nothing else", format!("{} bytes in the file instead of {}, {} bytes elsewhere", t.len(), o.text.len(), q.text.len())); }
        }
        Ok(())
    });
    c.cases += res.len() as u64;
    c.notes.push(format!("all {} single functions and the whole library in {} configurations, {} random selections", all.len(), CONFS.len(), jobs.len() - (all.len() + 1) * CONFS.len()));
    for x in res { x?; }
    Ok(())
}
