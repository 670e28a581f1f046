//! vextract: mechanical extraction of the real functions of /repo into a Verus file.
//!
//!   vextract UNIT_FILE REPO_ROOT OUT_DIR
//!
//! Reads a unit file (contracts, loop invariants, prelude), finds the named functions in
//! REPO_ROOT's current sources, applies the rewrites listed in rewrite.rs, weaves the
//! contracts in and writes OUT_DIR/<unit>.rs and OUT_DIR/<unit>.json.
mod rewrite;
mod unit;
mod emit;
mod quoted;

use std::path::Path;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 4 {
        eprintln!("usage: vextract UNIT_FILE REPO_ROOT OUT_DIR");
        std::process::exit(2);
    }
    match emit::run(Path::new(&args[1]), Path::new(&args[2]), Path::new(&args[3])) {
        Ok(()) => {}
        Err(e) => {
            eprintln!("vextract: LOST: {}", e);
            std::process::exit(3);
        }
    }
}
