#![allow(dead_code)]

mod items;
mod programs;
mod rustc;
mod strict;
#[path = "../../harness/src/run.rs"]
mod run;
#[path = "../../harness/src/src.rs"]
mod src;

pub mod fmts {
    pub fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
}

use std::process::exit;

fn main() {
    run::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let all: Vec<&'static run::Prop> = programs::PROPS.iter().chain(items::PROPS).chain(strict::PROPS).copied().collect();
    let find = |id: &str| match all.iter().find(|p| p.id == id) {
        Some(p) => *p,
        None => {
            println!("ERROR no property {id}");
            exit(2)
        }
    };
    exit(match args.as_slice() {
        ["check", id] => run::supervise(find(id)),
        ["run", id] => run::child(find(id)),
        // For development: failures of many cases.
        ["many", id, n, from] => {
            let p = find(id);
            let (n, from): (u64, u64) = (n.parse().unwrap(), from.parse().unwrap());
            let next = std::sync::atomic::AtomicU64::new(0);
            std::thread::scope(|sc| {
                for _ in 0..8 {
                    sc.spawn(|| loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        let mut x = (from + i).wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
                        let b: Vec<u8> = (0..p.max_len)
                            .map(|_| {
                                x ^= x << 13;
                                x ^= x >> 7;
                                x ^= x << 17;
                                (x >> 32) as u8
                            })
                            .collect();
                        let mut cx = run::Cx::new();
                        let r = run::guarded(|| (p.case)(&mut src::Src::new(&b), &mut cx)).unwrap_or_else(Err);
                        if let Err(m) = r {
                            println!("==== {} {}\n{m}", from + i, fmts::hex(&b[..4]));
                        }
                    });
                }
            });
            0
        }
        ["replay", file] => run::replay(&all, file),
        ["show", file] => {
            // The program of a replay file.
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
            let b = run::unhex(v["bytes"].as_str().unwrap());
            match v["property"].as_str() {
                Some("C26") => println!("{}", strict::text(&b)),
                Some("C21") => println!("{}", items::text(&b)),
                id => println!("{}", programs::text(&b, id == Some("C20"))),
            }
            0
        }
        _ => {
            println!("usage: vp check ID | run ID | replay FILE | show FILE");
            2
        }
    })
}
