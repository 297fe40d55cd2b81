//! Runs rustc on generated crates.

use std::collections::BTreeMap;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

pub struct Libs {
    pub deps: PathBuf,
    pub paths: BTreeMap<String, PathBuf>,
}

/// Where cargo put the libraries this program is built from.
pub fn libs() -> &'static Libs {
    static L: OnceLock<Libs> = OnceLock::new();
    L.get_or_init(|| {
        let exe = std::env::current_exe().expect("harness: current_exe");
        let rel = exe.parent().expect("harness: release").to_owned();
        let text = std::fs::read_to_string(rel.join("artifacts.json")).expect("harness: artifacts.json");
        let mut paths = BTreeMap::new();
        for l in text.lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if v["reason"] != "compiler-artifact" {
                continue;
            }
            let name = v["target"]["name"].as_str().unwrap_or("").to_owned();
            for f in v["filenames"].as_array().into_iter().flatten() {
                let f = f.as_str().unwrap_or("");
                if f.ends_with(".rlib") {
                    paths.insert(name.replace('-', "_"), PathBuf::from(f));
                }
            }
        }
        for n in ["typetag", "serde", "serde_json", "vpp"] {
            assert!(paths.contains_key(n), "harness: no rlib of {n}");
        }
        Libs { deps: rel.join("deps"), paths }
    })
}

/// A directory of this case, removed with it.
pub struct Dir(pub PathBuf);

impl Dir {
    pub fn new() -> Dir {
        static N: AtomicU64 = AtomicU64::new(0);
        let rel = libs().deps.parent().expect("harness: deps").join("work");
        let d = rel.join(format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("harness: work directory");
        Dir(d)
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub enum Kind {
    Lib,
    Bin,
    /// No code, diagnostics as JSON.
    Check,
    /// The same with lints.
    Lints,
}

pub fn rustc(dir: &Path, name: &str, kind: &Kind, edition: &str, text: &str, externs: &[(String, PathBuf)]) -> Result<Output, String> {
    let file = dir.join(format!("{name}.rs"));
    std::fs::write(&file, text).map_err(|e| format!("harness: {e}"))?;
    let mut c = Command::new("rustc");
    c.arg(&file).args(["--edition", edition, "--crate-name", name]);
    if !matches!(kind, Kind::Lints) {
        c.args(["--cap-lints", "allow"]);
    }
    c.args(["-C", "opt-level=0", "-C", "debuginfo=0", "-C", "embed-bitcode=no"]);
    match kind {
        Kind::Lib => c.args(["--crate-type", "rlib", "--emit", "link"]),
        Kind::Bin => c.args(["--crate-type", "bin", "--emit", "link", "-C", "strip=debuginfo"]),
        Kind::Check | Kind::Lints => c.args(["--crate-type", "lib", "--emit", "metadata", "--error-format", "json"]),
    };
    c.arg("--out-dir").arg(dir);
    c.arg("-L").arg(format!("dependency={}", libs().deps.display()));
    c.arg("-L").arg(format!("dependency={}", dir.display()));
    for n in ["typetag", "serde", "serde_json", "vpp"] {
        c.arg("--extern").arg(format!("{n}={}", libs().paths[n].display()));
    }
    for (n, p) in externs {
        c.arg("--extern").arg(format!("{n}={}", p.display()));
    }
    c.env_remove("RUSTFLAGS").stdin(Stdio::null());
    let out = c.output().map_err(|e| format!("harness: rustc: {e}"))?;
    if out.status.code().is_none() {
        return Err(format!("harness: rustc was ended: {:?}", out.status));
    }
    let err = String::from_utf8_lossy(&out.stderr);
    for bad in ["error: linking with", "No space left", "internal compiler error", "out of memory"] {
        if err.contains(bad) {
            return Err(format!("harness: rustc: {}", &err[..err.len().min(2000)]));
        }
    }
    Ok(out)
}

/// Runs a program that answers one line.
pub fn ask(exe: &Path, input: &str) -> Result<Output, String> {
    let h = |e: std::io::Error| format!("harness: running the program: {e}");
    let mut c = Command::new(exe).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(h)?;
    let mut i = c.stdin.take().expect("harness: stdin");
    let input = input.to_owned();
    let w = std::thread::spawn(move || i.write_all(input.as_bytes()));
    let out = c.wait_with_output().map_err(h)?;
    let _ = w.join();
    Ok(out)
}
