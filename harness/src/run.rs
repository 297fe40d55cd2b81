//! Runs a property over generated byte strings: shards, shrinking, evidence,
//! replay files, and survival of crashes of the code under test.

use crate::fmts::hex;
use crate::src::Src;
use proptest::collection::vec;
use proptest::prelude::any;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    /// Longest byte string of choices.
    pub max_len: usize,
    /// Generated cases per tier.
    pub quick: u32,
    pub thorough: u32,
    pub case: fn(&mut Src, &mut Cx) -> R,
    /// Hand-picked cases, run first.
    pub fixed: Option<fn(&mut Cx) -> R>,
    pub assumptions: &'static [&'static str],
    /// Cases run at the same time.
    pub shards: usize,
    /// Steps of shrinking at most.
    pub shrink: u32,
    /// How long one case may take.
    pub patience: Duration,
}

impl Prop {
    pub const BASE: Prop = Prop {
        id: "",
        level: "exploration",
        rule: "",
        max_len: 0,
        quick: 0,
        thorough: 0,
        case: |_, _| Ok(()),
        fixed: None,
        assumptions: &[],
        shards: SHARDS,
        shrink: 6000,
        // They take less than a tenth of a second.
        patience: Duration::from_secs(60),
    };
}

/// What a run has seen.
#[derive(Default)]
pub struct Cx {
    pub cases: u64,
    pub checks: u64,
    pub discarded: u64,
    classes: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
    /// Off while shrinking.
    on: bool,
    /// While replaying.
    replaying: bool,
    cur_nontrivial: bool,
    cur_desc: Option<String>,
}

impl Cx {
    pub fn new() -> Cx {
        Cx { on: true, ..Cx::default() }
    }
    /// How often to run something that depends on scheduling.
    pub fn patience(&self) -> u32 {
        match (self.replaying, self.on) {
            (true, _) => 300,
            (_, true) => 1,
            _ => 20,
        }
    }
    pub fn shrinking(&self) -> bool {
        !self.on && !self.replaying
    }
    /// One comparison with the oracle was made.
    pub fn check(&mut self) {
        if self.on {
            self.checks += 1;
        }
    }
    pub fn class(&mut self, name: &str) {
        if self.on {
            match self.classes.get_mut(name) {
                Some(n) => *n += 1,
                None => {
                    self.classes.insert(name.to_owned(), 1);
                }
            }
        }
    }
    /// A generated thing fell outside the property's preconditions.
    pub fn discard(&mut self, why: &str) {
        if self.on {
            self.discarded += 1;
            let k = format!("outside preconditions: {why}");
            self.class(&k);
        }
    }
    pub fn nontrivial(&mut self, key: &impl Hash) {
        if self.on {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            key.hash(&mut h);
            self.distinct.insert(h.finish());
            self.cur_nontrivial = true;
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.on && self.cur_desc.is_none() && self.samples.len() < 4 && (self.cases.is_power_of_two() || self.cases % 1000 == 7)
        {
            self.cur_desc = Some(f());
        }
    }
    pub fn known(&mut self, key: &str) {
        if self.on {
            *self.known.entry(key.to_owned()).or_insert(0) += 1;
        }
    }
    fn end_case(&mut self) {
        if let Some(d) = self.cur_desc.take() {
            if self.cur_nontrivial {
                self.samples.push(squeeze(&d));
            }
        }
        self.cur_nontrivial = false;
    }
    fn merge(&mut self, o: Cx) {
        self.cases += o.cases;
        self.checks += o.checks;
        self.discarded += o.discarded;
        for (k, n) in o.classes {
            *self.classes.entry(k).or_insert(0) += n;
        }
        for (k, n) in o.known {
            *self.known.entry(k).or_insert(0) += n;
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
    }
}

/// Shortens runs of one character, and the whole.
fn squeeze(d: &str) -> String {
    let mut o = String::new();
    let (mut last, mut n) = ('\0', 0);
    let d: Vec<char> = d.chars().take(200_000).collect();
    for (i, c) in d.iter().copied().enumerate() {
        // Repeated characters, hexadecimal pairs and list elements.
        let again = c == last || i > 1 && c == d[i - 2] || i > 2 && c == d[i - 3];
        n = if again { n + 1 } else { 0 };
        last = c;
        if n < 12 {
            o.push(c);
        } else if n == 12 {
            o.push('\u{2026}');
        }
    }
    o.chars().take(3000).collect()
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked: {m} at {at}")));
    }));
}

/// Runs code that may panic.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panicked".to_owned())
    })
}

fn one(p: &Prop, bytes: &[u8], cx: &mut Cx) -> R {
    match guarded(|| (p.case)(&mut Src::new(bytes), cx)) {
        Ok(r) => r,
        Err(m) => Err(m),
    }
}

fn is_harness_fault(m: &str) -> bool {
    m.contains("harness:")
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var_os("VERIF_DIR").unwrap_or_else(|| "/verif".into()))
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn tier() -> &'static str {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    }
}

fn scale() -> f64 {
    std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}

pub const SHARDS: usize = 8;

fn rng_seed(id: &str, shard: usize) -> [u8; 32] {
    // Spread with splitmix64, so that nothing depends on a hasher's internals.
    let mut x = seed().wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (shard as u64) << 48;
    for b in id.bytes() {
        x = x.wrapping_mul(0x100_0000_01b3) ^ u64::from(b);
    }
    let mut o = [0; 32];
    for c in o.chunks_mut(8) {
        x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = x;
        z = (z ^ z >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
        c.copy_from_slice(&(z ^ z >> 31).to_le_bytes());
    }
    o
}

fn trace_dir() -> PathBuf {
    verif_dir().join("harness").join("target").join("trace")
}

/// Where a shard notes the case it is about to run.
struct Trace {
    f: Option<fs::File>,
}
impl Trace {
    fn open(id: &str, shard: usize) -> Trace {
        let d = trace_dir();
        let _ = fs::create_dir_all(&d);
        Trace { f: fs::File::create(d.join(format!("{id}.{shard}"))).ok() }
    }
    fn start(&self, b: &[u8]) {
        if let Some(f) = &self.f {
            let mut v = Vec::with_capacity(b.len() + 8);
            v.extend_from_slice(&1u32.to_le_bytes());
            v.extend_from_slice(&(b.len() as u32).to_le_bytes());
            v.extend_from_slice(b);
            let _ = f.write_at(&v, 0);
        }
    }
    fn done(&self) {
        if let Some(f) = &self.f {
            let _ = f.write_at(&0u32.to_le_bytes(), 0);
        }
    }
}

fn traced(id: &str) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for s in 0..=SHARDS {
        let Ok(b) = fs::read(trace_dir().join(format!("{id}.{s}"))) else { continue };
        if b.len() >= 8 && b[0] == 1 {
            let n = u32::from_le_bytes([b[4], b[5], b[6], b[7]]) as usize;
            if let Some(x) = b.get(8..8 + n) {
                out.push(x.to_vec());
            }
        }
    }
    out
}

/// The generated run, in the child process. Returns the exit code.
pub fn child(p: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let stop = AtomicBool::new(false);
    let failures: Mutex<Vec<(Vec<u8>, String)>> = Mutex::new(vec![]);
    let mut total = Cx::new();

    if let Some(f) = p.fixed {
        let mut cx = Cx::new();
        let h = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || guarded(|| f(&mut cx)).unwrap_or_else(Err))
                .unwrap()
                .join()
                .unwrap()
        });
        cx.end_case();
        total.merge(cx);
        if let Err(m) = h {
            return finish(p, total, Some((None, m)), t0);
        }
    }

    let cases = ((f64::from(if tier() == "thorough" { p.thorough } else { p.quick }) * scale()) as u32).div_ceil(p.shards as u32);
    let parts: Vec<Cx> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..p.shards)
            .map(|shard| {
                let (stop, failures) = (&stop, &failures);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let cx = RefCell::new(Cx::new());
                        let trace = Trace::open(p.id, shard);
                        let cfg = Config {
                            cases,
                            failure_persistence: None,
                            max_shrink_iters: p.shrink,
                            ..Config::default()
                        };
                        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &rng_seed(p.id, shard));
                        let mut runner = TestRunner::new_with_rng(cfg, rng);
                        let failed_here = std::cell::Cell::new(false);
                        let last = RefCell::new(String::new());
                        let r = runner.run(&vec(any::<u8>(), 0..=p.max_len), |bytes| {
                            if stop.load(Ordering::Relaxed) && !failed_here.get() {
                                return Ok(());
                            }
                            let mut cx = cx.borrow_mut();
                            if cx.on {
                                cx.cases += 1;
                            }
                            trace.start(&bytes);
                            let r = one(p, &bytes, &mut cx);
                            trace.done();
                            cx.end_case();
                            r.map_err(|m| {
                                failed_here.set(true);
                                cx.on = false;
                                *last.borrow_mut() = m.clone();
                                stop.store(true, Ordering::Relaxed);
                                TestCaseError::fail(m)
                            })
                        });
                        let mut cx = cx.into_inner();
                        match r {
                            Ok(()) => {}
                            Err(TestError::Fail(_, bytes)) => {
                                cx.on = false;
                                let m = one(p, &bytes, &mut cx).err().unwrap_or_else(|| last.into_inner());
                                failures.lock().unwrap().push((bytes, m));
                            }
                            Err(TestError::Abort(m)) => {
                                failures.lock().unwrap().push((vec![], format!("harness: aborted: {m}")));
                            }
                        }
                        cx
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for c in parts {
        total.merge(c);
    }
    let mut fails = failures.into_inner().unwrap();
    fails.sort_by_key(|(b, _)| b.len());
    let first = fails.into_iter().next().map(|(b, m)| (Some(b), m));
    finish(p, total, first, t0)
}

pub fn write_evidence(id: &str, level: &str, coverage: Value, assumptions: &[&str], wall: f64, violations: u64) {
    let d = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&d);
    let v = json!({
        "property": id,
        "tier": tier(),
        "seed": seed(),
        "level": level,
        "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    fs::write(d.join(format!("{id}.json")), serde_json::to_string_pretty(&v).unwrap() + "\n").expect("harness: evidence");
}

pub fn write_replay(id: &str, body: Value) -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = fs::create_dir_all(&d);
    let p = d.join(format!("{id}-{}.json", seed()));
    fs::write(&p, serde_json::to_string_pretty(&body).unwrap() + "\n").expect("harness: replay");
    p
}

/// The known findings: lines `KNOWN property=<id> key=<key> <what fails>`.
pub fn known_findings() -> Vec<(String, String, String)> {
    let text = fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (id, l) = l.split_once(" key=")?;
            let (key, what) = l.split_once(' ')?;
            Some((id.to_owned(), key.to_owned(), what.to_owned()))
        })
        .collect()
}

fn finish(p: &Prop, cx: Cx, fail: Option<(Option<Vec<u8>>, String)>, t0: Instant) -> i32 {
    if let Some((_, m)) = &fail {
        if is_harness_fault(m) {
            println!("ERROR property={} {m}", p.id);
            return 2;
        }
    }
    for (id, key, what) in known_findings() {
        if id == p.id && cx.known.contains_key(&key) {
            println!("KNOWN-FINDING: property={id} {what} (met {} times)", cx.known.get(&key).copied().unwrap_or(0));
        }
    }
    let listed: Vec<String> = known_findings().into_iter().filter(|k| k.0 == p.id).map(|k| k.1).collect();
    let unlisted = cx.known.keys().find(|k| !listed.contains(k)).cloned();
    let fail = fail.or_else(|| unlisted.map(|k| (None, format!("finding {k} is not listed as known"))));
    let coverage = json!({
        "evaluations": cx.cases,
        "distinct_nontrivial": cx.distinct.len(),
        "rule": p.rule,
        "samples": cx.samples,
        "comparisons": cx.checks,
        "outside_preconditions": cx.discarded,
        "classes": cx.classes,
        "known_findings_met": cx.known,
        "shards": p.shards,
    });
    write_evidence(p.id, p.level, coverage, p.assumptions, t0.elapsed().as_secs_f64(), fail.is_some().into());
    println!(
        "property={} tier={} seed={} cases={} comparisons={} distinct_nontrivial={} wall={:.1}s",
        p.id, tier(), seed(), cx.cases, cx.checks, cx.distinct.len(), t0.elapsed().as_secs_f64()
    );
    match fail {
        None => 0,
        Some((bytes, m)) => {
            violation(p.id, bytes.as_deref(), &m);
            1
        }
    }
}

fn violation(id: &str, bytes: Option<&[u8]>, m: &str) {
    let body = match bytes {
        Some(b) => json!({"property": id, "kind": "bytes", "bytes": hex(b), "message": m}),
        None => json!({"property": id, "kind": "fixed", "message": m}),
    };
    let path = write_replay(id, body);
    println!("{}", squeeze(m));
    println!("VIOLATION property={id} replay={}", path.display());
    let _ = std::io::stdout().flush();
}

const CRASHES: [i32; 5] = [4, 6, 7, 8, 11];
enum End {
    Code(i32),
    Signal(i32),
    Stalled,
}

impl End {
    fn of(st: std::process::ExitStatus) -> End {
        match st.code() {
            Some(c) => End::Code(c),
            None => End::Signal(st.signal().unwrap_or(9)),
        }
    }
}

/// Runs this program for at most as long as a case may take.
fn self_cmd(args: &[&str], patience: Duration) -> std::io::Result<End> {
    let mut c = Command::new(std::env::current_exe()?).args(args).stdin(Stdio::null()).spawn()?;
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait()? {
            return Ok(End::of(st));
        }
        if t0.elapsed() > patience {
            c.kill()?;
            c.wait()?;
            return Ok(End::Stalled);
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// Runs the cases, until one takes too long.
fn watched(p: &Prop) -> std::io::Result<End> {
    let mut c = Command::new(std::env::current_exe()?).args(["run", p.id]).stdin(Stdio::null()).spawn()?;
    let mut n = 0u32;
    loop {
        if let Some(st) = c.try_wait()? {
            return Ok(End::of(st));
        }
        n += 1;
        if n % 100 == 0 && stalled(p) {
            c.kill()?;
            c.wait()?;
            return Ok(End::Stalled);
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn stalled(p: &Prop) -> bool {
    (0..SHARDS).any(|s| {
        let f = trace_dir().join(format!("{}.{s}", p.id));
        let busy = fs::read(&f).is_ok_and(|b| b.first() == Some(&1));
        let since = fs::metadata(&f).and_then(|m| m.modified()).ok().and_then(|t| t.elapsed().ok());
        busy && since.is_some_and(|t| t > p.patience)
    })
}

/// Runs the child and makes sense of how it ends.
pub fn supervise(p: &'static Prop) -> i32 {
    let t0 = Instant::now();
    for s in 0..=SHARDS {
        let _ = fs::remove_file(trace_dir().join(format!("{}.{s}", p.id)));
    }
    let end = match watched(p) {
        Ok(end) => end,
        Err(e) => {
            println!("ERROR property={} cannot start: {e}", p.id);
            return 2;
        }
    };
    let sig = match end {
        End::Code(c) => return c,
        End::Signal(s) if CRASHES.contains(&s) => s,
        End::Signal(s) => {
            println!("ERROR property={} the run was ended by signal {s}", p.id);
            return 2;
        }
        End::Stalled => 0,
    };
    let what = if sig == 0 { "does not finish".to_owned() } else { format!("dies of signal {sig}") };
    // The process died inside a case: find it and run it alone.
    for b in traced(p.id) {
        let body = json!({"property": p.id, "kind": "bytes", "bytes": hex(&b), "message": format!("the process {what}")});
        let path = write_replay(p.id, body);
        // Alone, and twice, so that a busy machine is no reason.
        let again = |_| match self_cmd(&["replay", path.to_str().unwrap()], p.patience) {
            Ok(End::Stalled) => true,
            Ok(End::Signal(s)) => CRASHES.contains(&s),
            Ok(End::Code(c)) => c == 1,
            Err(_) => false,
        };
        if (0..2).all(again) {
            write_evidence(
                p.id,
                p.level,
                json!({"evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule, "samples": [hex(&b)]}),
                p.assumptions,
                t0.elapsed().as_secs_f64(),
                1,
            );
            println!("the process {what} on this case");
            println!("VIOLATION property={} replay={}", p.id, path.display());
            return 1;
        }
        let _ = fs::remove_file(&path);
    }
    println!("ERROR property={} the run {what} and no case reproduces it", p.id);
    2
}

/// Runs one saved case again, without proptest.
pub fn replay(props: &[&'static Prop], file: &str) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(file).expect("harness: replay file")).expect("harness: replay file");
    let id = v["property"].as_str().unwrap_or("");
    let Some(p) = props.iter().find(|p| p.id == id) else {
        println!("ERROR no property {id}");
        return 2;
    };
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, || {
                let mut cx = Cx { replaying: true, ..Cx::new() };
                match v["kind"].as_str() {
                    Some("bytes") => one(p, &unhex(v["bytes"].as_str().unwrap_or("")), &mut cx),
                    _ => p.fixed.map_or(Ok(()), |f| guarded(|| f(&mut cx)).unwrap_or_else(Err)),
                }
            })
            .unwrap()
            .join()
            .unwrap()
    });
    match r {
        Ok(()) => {
            println!("property={id}: holds on this case");
            0
        }
        Err(m) if is_harness_fault(&m) => {
            println!("ERROR property={id} {m}");
            2
        }
        Err(m) => {
            println!("{m}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("harness: hex")).collect()
}
