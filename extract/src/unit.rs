//! The unit file: a list of "#@" directives, each with "##" sections.
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Debug, Clone, Default)]
pub struct FnSpec {
    pub attr: String,
    pub ret: String,
    pub spec: String,
    pub begin: String,
    pub end: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_begin: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    pub loop_after: BTreeMap<usize, String>,
    /// statements of ghost code placed before/after the n-th top-level statement whose text
    /// contains a pattern ("##before PATTERN" / "##after PATTERN"); a missing pattern is ignored.
    pub before: Vec<(String, String)>,
    pub after: Vec<(String, String)>,
    pub sig: Option<String>,
}

impl FnSpec {
    pub fn map(&self, f: &dyn Fn(&str) -> String) -> FnSpec {
        let m = |b: &BTreeMap<usize, String>| b.iter().map(|(k, v)| (*k, f(v))).collect();
        let p = |b: &Vec<(String, String)>| b.iter().map(|(k, v)| (f(k), f(v))).collect();
        FnSpec {
            attr: f(&self.attr), ret: self.ret.clone(), spec: f(&self.spec), begin: f(&self.begin), end: f(&self.end),
            loops: m(&self.loops), loop_begin: m(&self.loop_begin), loop_end: m(&self.loop_end), loop_before: m(&self.loop_before), loop_after: m(&self.loop_after),
            before: p(&self.before), after: p(&self.after), sig: self.sig.clone(),
        }
    }
}

#[derive(Debug, Clone)]
pub enum Item {
    Verbatim(String),
    Fn { file: String, name: String, as_name: String, spec: FnSpec },
    /// method METHOD of `impl ... for/inherent TYPE` in file
    Method { file: String, ty: String, name: String, spec: FnSpec, trait_: Option<String> },
    /// inherent methods for `impl Visitor for TYPE`, with the trait's defaults copied in
    Visitor { file: String, trait_file: String, trait_: String, ty: String, specs: BTreeMap<String, FnSpec>, gone: Vec<String> },
    Struct { file: String, name: String },
    Inline { file: String, name: String },
    /// the names and dependencies in a static table of structs
    Table { file: String, name: String, key: String, list: String },
    /// facts measured on the built program (file named by VEXTRACT_FACTS)
    Facts,
    Macro { file: String, mac: String, fname: String, as_name: String, args: Vec<(String,String)>, spec: FnSpec },
}

#[derive(Debug, Default)]
pub struct Unit {
    pub name: String,
    pub items: Vec<Item>,
    pub options: BTreeMap<String, String>,
    pub search: Vec<String>,
    pub known: Vec<String>,
}

fn subst(s: &str, vars: &[(String, String)]) -> String {
    let mut s = s.to_string();
    for (k, v) in vars {
        s = s.replace(&format!("${}$", k), v);
    }
    // $S:text$ is the number that stands for a string in rewrite W8
    while let Some(i) = s.find("$S:") {
        let Some(j) = s[i + 3..].find('$') else { break };
        let n = crate::rewrite::str_code(&s[i + 3..i + 3 + j]).unwrap_or(0);
        s.replace_range(i..i + 3 + j + 1, &n.to_string());
    }
    s
}

/// The lines for this property: without tagged lines and regions ("//@begin C01" to "//@end") of others.
fn regions(text: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut skip = false;
    for l in text.lines() {
        if let Some(t) = l.trim().strip_prefix("//@begin ") { skip = tagged_out(&format!("//@{}", t)); continue; }
        if l.trim() == "//@end" { skip = false; continue; }
        if !skip && !tagged_out(l) { out.push(l.to_string()); }
    }
    out
}
/// A line ending in "//@C01,C02" belongs to these properties only (environment VEXTRACT_TAG).
fn tagged_out(l: &str) -> bool {
    match (l.rfind("//@"), std::env::var("VEXTRACT_TAG")) {
        (Some(i), Ok(t)) => !l[i + 3..].trim().split(',').any(|x| x == t),
        _ => false,
    }
}

fn load_lines(path: &Path, vars: &[(String, String)], out: &mut Vec<String>) -> Result<(), String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path.display(), e))?;
    for l in regions(&text) {
        let l = subst(&l, vars);
        if let Some(rest) = l.strip_prefix("#@include ") {
            let mut it = rest.split_whitespace();
            let f = it.next().unwrap();
            let mut v2: Vec<(String, String)> = it.map(|kv| {
                let (k, v) = kv.split_once('=').unwrap();
                (k.to_string(), v.to_string())
            }).collect();
            v2.extend(vars.iter().cloned());
            load_lines(&path.parent().unwrap().join(f), &v2, out)?;
        } else if let Some(rest) = l.strip_prefix("#@verbatim-file ") {
            let f = path.parent().unwrap().join(rest.trim());
            out.push("#@verbatim".into());
            let t = std::fs::read_to_string(&f).map_err(|e| format!("{}: {}", f.display(), e))?;
            out.extend(regions(&subst(&t, vars)));
        } else {
            out.push(l);
        }
    }
    Ok(())
}

fn set(spec: &mut FnSpec, sec: &str, text: String) -> Result<(), String> {
    let mut w = sec.split_whitespace();
    let key = w.next().unwrap_or("");
    let rest = sec[key.len()..].trim().to_string();
    let n = || rest.parse::<usize>().map_err(|_| format!("bad section {}", sec));
    match key {
        "attr" => spec.attr = text,
        "ret" => spec.ret = rest,
        "spec" => spec.spec = text,
        "sig" => spec.sig = Some(text),
        "begin" => spec.begin = text,
        "end" => spec.end = text,
        "loop" => { spec.loops.insert(n()?, text); }
        "loopbegin" => { spec.loop_begin.insert(n()?, text); }
        "loopend" => { spec.loop_end.insert(n()?, text); }
        "loopbefore" => { spec.loop_before.insert(n()?, text); }
        "loopafter" => { spec.loop_after.insert(n()?, text); }
        "before" => spec.before.push((rest, text)),
        "after" => spec.after.push((rest, text)),
        _ => return Err(format!("unknown section {}", sec)),
    }
    Ok(())
}

pub fn load(path: &Path) -> Result<Unit, String> {
    let mut lines = Vec::new();
    load_lines(path, &[], &mut lines)?;
    let mut unit = Unit { name: path.file_stem().unwrap().to_string_lossy().to_string(), ..Default::default() };
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].clone();
        i += 1;
        let Some(dir) = l.strip_prefix("#@") else {
            if l.trim().is_empty() || l.starts_with("//") { continue; }
            return Err(format!("line outside a directive: {}", l));
        };
        // Collect sections.
        let mut head = String::new();
        let mut secs: Vec<(String, String)> = Vec::new();
        while i < lines.len() && !lines[i].starts_with("#@") {
            if let Some(s) = lines[i].strip_prefix("##") {
                secs.push((s.trim().to_string(), String::new()));
            } else if let Some(last) = secs.last_mut() {
                last.1.push_str(&lines[i]);
                last.1.push('\n');
            } else {
                head.push_str(&lines[i]);
                head.push('\n');
            }
            i += 1;
        }
        let w: Vec<&str> = dir.split_whitespace().collect();
        match w[0] {
            "option" => { unit.options.insert(w[1].into(), w[2..].join(" ")); }
            "search" => unit.search.extend(w[1..].iter().map(|s| s.to_string())),
            "known" => unit.known.extend(w[1..].iter().map(|s| s.to_string())),
            "verbatim" => unit.items.push(Item::Verbatim(head)),
            "fn" => {
                let mut spec = FnSpec { ret: "r".into(), ..Default::default() };
                for (s, t) in secs { set(&mut spec, &s, t)?; }
                unit.items.push(Item::Fn { file: w[1].into(), name: w[2].into(), as_name: w.get(3).unwrap_or(&w[2]).to_string(), spec });
            }
            "method" => {
                let mut spec = FnSpec { ret: "r".into(), ..Default::default() };
                for (s, t) in secs { set(&mut spec, &s, t)?; }
                unit.items.push(Item::Method { file: w[1].into(), ty: w[2].into(), name: w[3].into(), spec, trait_: w.get(4).map(|s| s.to_string()) });
            }
            "macrofn" => {
                // #@macrofn FILE MACRO FNAME AS k=v ...
                let mut spec = FnSpec { ret: "r".into(), ..Default::default() };
                for (s, t) in secs { set(&mut spec, &s, t)?; }
                let args = w[5..].iter().map(|kv| { let (k, v) = kv.split_once('=').unwrap(); (k.to_string(), v.to_string()) }).collect();
                unit.items.push(Item::Macro { file: w[1].into(), mac: w[2].into(), fname: w[3].into(), as_name: w[4].into(), args, spec });
            }
            "table" => unit.items.push(Item::Table { file: w[1].into(), name: w[2].into(), key: w[3].into(), list: w[4].into() }),
            "facts" => unit.items.push(Item::Facts),
            "struct" => unit.items.push(Item::Struct { file: w[1].into(), name: w[2].into() }),
            "inline" => unit.items.push(Item::Inline { file: w[1].into(), name: w[2].into() }),
            "visitor" => {
                // #@visitor TYPE FILE TRAITFILE TRAIT ; sections "##method.section"
                let mut specs: BTreeMap<String, FnSpec> = BTreeMap::new();
                for (s, t) in secs {
                    let (m, sec) = s.split_once('.').ok_or(format!("visitor section {}", s))?;
                    let spec = specs.entry(m.to_string()).or_insert_with(|| FnSpec { ret: "r".into(), ..Default::default() });
                    set(spec, sec, t)?;
                }
                unit.items.push(Item::Visitor { ty: w[1].into(), file: w[2].into(), trait_file: w[3].into(), trait_: w[4].into(), specs, gone: vec![] });
            }
            x => return Err(format!("unknown directive {}", x)),
        }
    }
    Ok(unit)
}
