//! Concrete companion of the proofs: looks for inputs of the real crate that break a property.
mod approx;
mod elem;
mod ev;
mod fix;
mod floats;
mod gen;
mod libm;
mod num;
mod poly;
mod rusttext;
mod sem;
mod tree;
mod util;
use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or_else(|| d.to_string());
    let thorough = get("--tier", "quick") == "thorough";
    let mut c = Ctx { seed: get("--seed", "1").parse().unwrap_or(1), thorough, cases: 0, notes: vec![], start: std::time::Instant::now(), budget: get("--budget", if thorough { "300" } else { "40" }).parse().unwrap() };
    quiet_panics();
    let cmd = a[1].as_str();
    // Deep expressions need a deep stack.
    let facts_to = get("--out", "/dev/null");
    let cmd2 = cmd.to_string();
    let (r, c) = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let r = match cmd2.as_str() {
            "expand_value" => tree::expand_value(&mut c),
            "expand_normal" => tree::expand_normal(&mut c),
            "paren" => tree::paren(&mut c),
            "traverse" => tree::traverse(&mut c),
            "subst" => tree::subst(&mut c),
            "round" => num::round(&mut c),
            "ops" => num::ops(&mut c),
            "poly" => poly::poly(&mut c),
            "approx" => approx::approx(&mut c),
            "number_type" => floats::number_type(&mut c),
            "rust_text" => rusttext::rust_text(&mut c),
            "convert" => floats::convert(&mut c),
            "select" => libm::select(&mut c),
            "compile" => libm::compile(&mut c),
            "facts" => libm::facts(&mut c, &facts_to),
            "elem" => elem::elem(&mut c, false),
            "measure" => elem::elem(&mut c, true),
            "eval" => ev::eval(&mut c),
            "oracle" => { num::oracle(); Ok(()) }
            o => { eprintln!("unknown command {}", o); std::process::exit(2) }
        };
        (r, c)
    }).unwrap().join().unwrap_or_else(|_| { eprintln!("harness panicked"); std::process::exit(2) });
    let esc = |s: &str| s.chars().map(|c| match c { '"' => "\\\"".into(), '\\' => "\\\\".into(), '\n' => "\\n".into(), c if (c as u32) < 32 => format!("\\u{:04x}", c as u32), c => c.to_string() }).collect::<String>();
    println!("{{\"cases\": {}, \"seconds\": {:.1}, \"notes\": [{}], \"violation\": {}}}", c.cases, c.start.elapsed().as_secs_f64(),
        c.notes.iter().map(|n| format!("\"{}\"", esc(n))).collect::<Vec<_>>().join(", "),
        match &r { Ok(()) => "null".to_string(), Err(b) => format!("{{\"input\": \"{}\", \"expected\": \"{}\", \"got\": \"{}\"}}", esc(&b.input), esc(&b.expected), esc(&b.got)) });
    std::process::exit(if r.is_ok() { 0 } else { 1 });
}
