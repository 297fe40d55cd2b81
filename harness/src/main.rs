#![allow(dead_code, unused_macros, unused_imports)]

mod doc;
mod fam;
mod fmts;
mod oracle;
mod props;
mod run;
mod schema;
mod selfde;
mod src;
mod zoo;

use std::process::exit;

fn main() {
    run::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let find = |id: &str| match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            println!("ERROR no property {id}");
            exit(2)
        }
    };
    exit(match args.as_slice() {
        ["check", id] => run::supervise(find(id)),
        ["run", id] => run::child(find(id)),
        ["replay", file] => run::replay(&props::all(), file),
        #[cfg(feature = "race")]
        ["race", choices] => props::race::race(&run::unhex(choices)),
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            println!("usage: vh check ID | run ID | replay FILE | list");
            2
        }
    })
}
