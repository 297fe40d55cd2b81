//! First use by many threads: C18. Each history runs in a process of its own.

use crate::run::{Cx, Prop, R};
use crate::src::Src;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::hint::spin_loop;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const PROPS: &[&Prop] = &[&Prop {
    id: "C18",
    rule: "A history is generated: 2 to 12 threads, each with 1 to 24 operations (decode from JSON, bincode or postcard, nested \
           up to 4 objects deep over the same and other traits; decode into an impl that panics; decode an unknown tag or a wrong document; encode; some of them up to 300 times) on 6 traits of 160 or 40 \
           implementations, and how long each thread waits behind a common starting line. Each history runs in a fresh \
           process, so that its operations are the first uses; every thread must get what a model says, and the process \
           must end. Non-trivial: at least two threads use the same trait first.",
    max_len: 160,
    quick: 16_000,
    thorough: 400_000,
    case: history,
    assumptions: &["the operating system's scheduler brings about the interleavings: they are sampled, not controlled"],
    shards: 4,
    shrink: 60,
    ..Prop::BASE
}];

const BOMB: u32 = 250;

#[derive(Debug)]
struct P<const N: usize>(u32);
impl<const N: usize> Serialize for P<N> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        self.0.serialize(z)
    }
}
impl<'de, const N: usize> Deserialize<'de> for P<N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let n = u32::deserialize(d)?;
        if n == BOMB {
            // A fault of the program's own, in the middle of decoding.
            std::panic::panic_any("told to");
        }
        Ok(P(n))
    }
}

macro_rules! race_trait {
    ($m:ident, $next:ident, $attr:meta, $size:ident) => {
        mod $m {
            use super::*;
            #[$attr]
            pub trait T: Send + Sync {
                fn text(&self) -> String;
            }
            #[derive(Serialize, Deserialize)]
            pub struct Node {
                pub n: u32,
                pub inner: Option<Box<dyn super::$next::T>>,
                pub own: Option<Box<dyn T>>,
            }
            #[typetag::serde]
            impl T for Node {
                fn text(&self) -> String {
                    let inner = self.inner.as_ref().map(|x| x.text()).unwrap_or_default();
                    let own = self.own.as_ref().map(|x| x.text()).unwrap_or_default();
                    format!("Node({}, {inner}, {own})", self.n)
                }
            }
            $size! { impls }
            pub fn text(b: Box<dyn T>) -> String {
                b.text()
            }
            pub fn make(n: usize, x: u32) -> Box<dyn T> {
                $size! { choose n x }
            }
        }
    };
}

macro_rules! impls {
    ($($n:literal)*) => { $(
        #[typetag::serde(name = concat!("P", $n))]
        impl T for P<$n> {
            fn text(&self) -> String {
                format!("P{}({})", $n, self.0)
            }
        }
    )* };
}
macro_rules! choose {
    ($i:ident $x:ident $($n:literal)*) => {
        match $i {
            $( $n => Box::new(P::<$n>($x)) as Box<dyn T>, )*
            _ => Box::new(Node { n: $x, inner: None, own: None }),
        }
    };
}
macro_rules! small {
    (impls) => { impls! {
        0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39
    } };
    (choose $i:ident $x:ident) => { choose! { $i $x
        0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39
    } };
}
macro_rules! big {
    (impls) => { impls! {
        0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39
        40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76
        77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109
        110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137
        138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
    } };
    (choose $i:ident $x:ident) => { choose! { $i $x
        0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39
        40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76
        77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109
        110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137
        138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
    } };
}

race_trait!(ext, int, typetag::serde, big);
race_trait!(int, adj, typetag::serde(tag = "type"), big);
race_trait!(adj, exts, typetag::serde(tag = "t", content = "c"), big);
race_trait!(exts, intd, typetag::serde, small);
race_trait!(intd, adjd, typetag::serde(tag = "type", default_variant = "Node"), small);
race_trait!(adjd, ext, typetag::serde(tag = "t", content = "c", default_variant = "Node", deny_unknown_fields), small);

struct Tr {
    name: &'static str,
    size: usize,
    kind: u8,
    json: fn(&str) -> Result<String, String>,
    bincode: fn(&[u8]) -> Result<String, String>,
    postcard: fn(&[u8]) -> Result<String, String>,
    enc: fn(usize, u32) -> Result<String, String>,
}
macro_rules! tr {
    ($m:ident $size:literal $kind:literal) => {
        Tr {
            name: stringify!($m),
            size: $size,
            kind: $kind,
            json: |s| serde_json::from_str(s).map($m::text).map_err(|e| e.to_string()),
            bincode: |s| bincode::deserialize(s).map($m::text).map_err(|e| e.to_string()),
            postcard: |s| postcard::from_bytes(s).map($m::text).map_err(|e| e.to_string()),
            enc: |n, x| serde_json::to_string(&$m::make(n, x)).map_err(|e| e.to_string()),
        }
    };
}
static TRAITS: [Tr; 6] =
    [tr!(ext 160 0), tr!(int 160 1), tr!(adj 160 2), tr!(exts 40 0), tr!(intd 40 1), tr!(adjd 40 2)];

/// An object, by model.
#[derive(Debug, Clone)]
enum Val {
    P(usize, u32),
    /// An object of the next trait, and one of its own trait.
    Node(u32, Option<Box<Val>>, Option<Box<Val>>),
}

fn gen_val(s: &mut Src, t: usize, depth: usize) -> Val {
    if depth > 0 && s.chance(1, 3) {
        let inner = if s.chance(2, 3) { Some(Box::new(gen_val(s, (t + 1) % 6, depth - 1))) } else { None };
        let own = if s.chance(1, 2) { Some(Box::new(gen_val(s, t, depth - 1))) } else { None };
        return Val::Node(u32::from(s.byte()), inner, own);
    }
    Val::P(s.below(TRAITS[t].size), u32::from(s.byte()))
}

impl Val {
    fn tag(&self) -> String {
        match self {
            Val::P(n, _) => format!("P{n}"),
            Val::Node(..) => "Node".to_owned(),
        }
    }
    fn text(&self) -> String {
        match self {
            Val::P(n, x) => format!("P{n}({x})"),
            Val::Node(n, inner, own) => {
                let text = |x: &Option<Box<Val>>| x.as_ref().map(|x| x.text()).unwrap_or_default();
                format!("Node({n}, {}, {})", text(inner), text(own))
            }
        }
    }
    /// Decoding it panics.
    fn bomb(&self) -> bool {
        match self {
            Val::P(_, x) => *x == BOMB,
            Val::Node(_, inner, own) => [inner, own].into_iter().flatten().any(|x| x.bomb()),
        }
    }
    /// The documented form; `turned`: with the tag last.
    fn json(&self, t: usize, turned: bool) -> String {
        let tag = self.tag();
        let own = match self {
            Val::P(_, x) => x.to_string(),
            Val::Node(n, inner, own) => {
                let text = |x: &Option<Box<Val>>, t| x.as_ref().map_or("null".to_owned(), |x| x.json(t, turned));
                format!("{{\"n\":{n},\"inner\":{},\"own\":{}}}", text(inner, (t + 1) % 6), text(own, t))
            }
        };
        let (a, b) = match TRAITS[t].kind {
            0 => return format!("{{\"{tag}\":{own}}}"),
            1 => {
                let rest = match self {
                    Val::P(..) => format!("\"value\":{own}"),
                    Val::Node(..) => own[1..own.len() - 1].to_owned(),
                };
                (format!("\"type\":\"{tag}\""), rest)
            }
            _ => (format!("\"t\":\"{tag}\""), format!("\"c\":{own}")),
        };
        if turned {
            format!("{{{b},{a}}}")
        } else {
            format!("{{{a},{b}}}")
        }
    }
    /// bincode's or postcard's bytes of the documented form.
    fn bytes(&self, t: usize, post: bool, o: &mut Vec<u8>) {
        let int = |o: &mut Vec<u8>, mut x: u32| {
            if post {
                while x > 127 {
                    o.push(x as u8 | 128);
                    x >>= 7;
                }
                o.push(x as u8);
            } else {
                o.extend_from_slice(&x.to_le_bytes());
            }
        };
        let len = |o: &mut Vec<u8>, n: usize| {
            int(o, n as u32);
            if !post {
                o.extend_from_slice(&[0; 4]);
            }
        };
        let str = |o: &mut Vec<u8>, x: &str| {
            len(o, x.len());
            o.extend_from_slice(x.as_bytes());
        };
        let kind = TRAITS[t].kind;
        match kind {
            0 => len(o, 1),
            1 => {
                len(o, if let Val::P(..) = self { 2 } else { 4 });
                str(o, "type");
            }
            _ => {}
        }
        str(o, &self.tag());
        match self {
            Val::P(_, x) => {
                if kind == 1 {
                    str(o, "value");
                }
                int(o, *x);
            }
            Val::Node(n, inner, own) => {
                if kind == 1 {
                    str(o, "n");
                }
                int(o, *n);
                if kind == 1 {
                    str(o, "inner");
                }
                o.push(u8::from(inner.is_some()));
                if let Some(v) = inner {
                    v.bytes((t + 1) % 6, post, o);
                }
                if kind == 1 {
                    str(o, "own");
                }
                o.push(u8::from(own.is_some()));
                if let Some(v) = own {
                    v.bytes(t, post, o);
                }
            }
        }
    }
}

enum Op {
    Json(Val, bool),
    Bincode(Val),
    Postcard(Val),
    Unknown(String),
    Wrong,
    Enc(usize, u32),
}

struct Plan {
    wait: usize,
    /// Trait, operation, how often.
    ops: Vec<(usize, Op, usize)>,
}

fn gen_plan(s: &mut Src) -> Vec<Plan> {
    let threads = 2 + s.below(11);
    // The trait most threads start with.
    let first = s.below(6);
    (0..threads)
        .map(|_| {
            let n = 1 + s.len(24);
            let ops = (0..n)
                .map(|i| {
                    let t = if i == 0 && s.chance(3, 4) { first } else { s.below(6) };
                    let mut op = match s.weighted(&[6, 2, 2, 2, 1, 1]) {
                        0 => Op::Json(gen_val(s, t, 4), s.bool()),
                        1 => Op::Bincode(gen_val(s, t, 4)),
                        2 => Op::Postcard(gen_val(s, t, 4)),
                        3 => Op::Unknown((*s.pick(&["P160", "p1", "", "Nodes", "P999"])).to_owned()),
                        4 => Op::Wrong,
                        _ => Op::Enc(s.below(TRAITS[t].size), u32::from(s.byte())),
                    };
                    if s.chance(1, 24) {
                        // Deep in it or at once.
                        let v = Val::P(s.below(TRAITS[t].size), BOMB);
                        let v = if s.bool() { Val::Node(1, None, Some(Box::new(v))) } else { v };
                        op = Op::Json(v, s.bool());
                    }
                    // Once is not enough to see what adds up.
                    let times = if s.chance(1, 24) { *s.pick(&[2, 10, 150, 300]) } else { 1 };
                    (t, op, times)
                })
                .collect();
            let wait = *s.pick(&[0, 0, 0, 10, 100, 1000, 4000]);
            Plan { wait, ops }
        })
        .collect()
}

fn perform(t: usize, op: &Op) -> R {
    let tr = &TRAITS[t];
    if let Op::Json(v, _) | Op::Bincode(v) | Op::Postcard(v) = op {
        if v.bomb() {
            // Ends as it would alone, and concerns nobody else.
            let j = v.json(t, matches!(op, Op::Json(_, true)));
            return match std::panic::catch_unwind(|| (tr.json)(&j)) {
                Ok(x) => Err(format!("{}: {j} gives {x:?} although decoding it panics", tr.name)),
                Err(p) if p.downcast_ref() == Some(&"told to") => Ok(()),
                Err(_) => Err(format!("{}: {j} panics of something else", tr.name)),
            };
        }
    }
    let (what, got, want) = match op {
        Op::Json(v, turned) => {
            let j = v.json(t, *turned);
            let got = (tr.json)(&j);
            (j, got, v.text())
        }
        Op::Bincode(v) => {
            let mut b = vec![];
            v.bytes(t, false, &mut b);
            (format!("bincode of {v:?}"), (tr.bincode)(&b), v.text())
        }
        Op::Postcard(v) => {
            let mut b = vec![];
            v.bytes(t, true, &mut b);
            (format!("postcard of {v:?}"), (tr.postcard)(&b), v.text())
        }
        Op::Unknown(tag) => {
            let j = match tr.kind {
                0 => format!("{{\"{tag}\":5}}"),
                1 => format!("{{\"type\":\"{tag}\",\"value\":5}}"),
                _ => format!("{{\"c\":5,\"t\":\"{tag}\"}}"),
            };
            let mut names: Vec<String> = (0..tr.size).map(|n| format!("P{n}")).collect();
            names.push("Node".to_owned());
            let e = match (tr.json)(&j) {
                Ok(x) => return Err(format!("{} reads {j} as {x}", tr.name)),
                Err(e) => e,
            };
            if !e.contains(&format!("unknown variant `{tag}`")) {
                return Err(format!("{} rejects {j} with {e}", tr.name));
            }
            if let Some(n) = names.iter().find(|n| !e.contains(&format!("`{n}`"))) {
                return Err(format!("{} rejects {j} without knowing {n}: {e}", tr.name));
            }
            return Ok(());
        }
        Op::Wrong => {
            for j in ["{", "[]", "null", "7"] {
                if let Ok(x) = (tr.json)(j) {
                    return Err(format!("{} reads {j} as {x}", tr.name));
                }
            }
            return Ok(());
        }
        Op::Enc(n, x) => {
            let v = Val::P(*n, *x);
            (format!("encoding of {v:?}"), (tr.enc)(*n, *x), v.json(t, false))
        }
    };
    if got.as_ref() != Ok(&want) {
        return Err(format!("{}: {what} gives {got:?} instead of {want}", tr.name));
    }
    Ok(())
}

/// Performs a history, in a process of its own.
pub fn race(choices: &[u8]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let plans = gen_plan(&mut Src::new(choices));
    let ready = AtomicUsize::new(0);
    let n = plans.len();
    let bad: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .map(|p| {
                let ready = &ready;
                s.spawn(move || -> R {
                    ready.fetch_add(1, Ordering::SeqCst);
                    let mut turns = 0u32;
                    while ready.load(Ordering::SeqCst) < n {
                        turns += 1;
                        if turns % 4096 == 0 {
                            std::thread::yield_now();
                        }
                        spin_loop();
                    }
                    for _ in 0..p.wait {
                        spin_loop();
                    }
                    p.ops.iter().try_for_each(|(t, op, times)| (0..*times).try_for_each(|_| perform(*t, op)))
                })
            })
            .collect();
        hs.into_iter()
            .filter_map(|h| match h.join() {
                Ok(Ok(())) => None,
                Ok(Err(m)) => Some(m),
                Err(p) => Some(format!(
                    "a thread panicked: {}",
                    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_owned())).unwrap_or_default()
                )),
            })
            .collect()
    });
    for m in &bad {
        println!("{m}");
    }
    i32::from(!bad.is_empty())
}

enum End {
    Fine,
    Bad(String),
    Stuck,
}

fn run_once(hex: &str) -> Result<End, String> {
    let h = |e: std::io::Error| format!("harness: {e}");
    let exe = std::env::current_exe().map_err(h)?;
    let mut c = Command::new(exe).args(["race", hex]).stdin(Stdio::null()).stdout(Stdio::piped()).spawn().map_err(h)?;
    let mut out = c.stdout.take().expect("harness: stdout");
    let reader = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut out, &mut s);
        s
    });
    let t0 = Instant::now();
    let mut naps = 0;
    let st = loop {
        if let Some(st) = c.try_wait().map_err(h)? {
            break st;
        }
        if t0.elapsed() > Duration::from_secs(20) {
            c.kill().map_err(h)?;
            c.wait().map_err(h)?;
            return Ok(End::Stuck);
        }
        naps += 1;
        std::thread::sleep(Duration::from_micros(if naps < 40 { 500 } else { 10_000 }));
    };
    let text = reader.join().unwrap_or_default();
    Ok(match st.code() {
        Some(0) => End::Fine,
        Some(_) => End::Bad(text),
        None => {
            use std::os::unix::process::ExitStatusExt;
            match st.signal() {
                Some(s @ (4 | 6 | 7 | 8 | 11)) => End::Bad(format!("the process died of signal {s}")),
                s => return Err(format!("harness: a history was ended by signal {s:?}")),
            }
        }
    })
}

static STUCK: Mutex<Option<(Vec<u8>, String)>> = Mutex::new(None);

fn history(s: &mut Src, cx: &mut Cx) -> R {
    let choices = s.rest();
    // What does not end takes too long to shrink.
    if let (true, Some((b, m))) = (cx.shrinking(), &*STUCK.lock().unwrap_or_else(|e| e.into_inner())) {
        return if *b == choices { Err(m.clone()) } else { Ok(()) };
    }
    let plans = gen_plan(&mut Src::new(&choices));
    let hex = crate::fmts::hex(&choices);
    let mut stuck = 0;
    // What failed once need not fail again: try harder when it matters.
    let mut left = cx.patience();
    while left > 0 {
        left -= 1;
        match run_once(&hex)? {
            End::Fine => {}
            End::Bad(m) => return Err(format!("{} threads: {m}", plans.len())),
            End::Stuck => {
                stuck += 1;
                if stuck == 2 {
                    let m = format!("{} threads: the process does not end", plans.len());
                    *STUCK.lock().unwrap_or_else(|e| e.into_inner()) = Some((choices, m.clone()));
                    return Err(m);
                }
                left = left.max(10);
            }
        }
        cx.check();
    }
    if stuck > 0 {
        // The machine may have been busy with something else.
        cx.class("did not end once, but ten times after that");
    }
    let firsts: Vec<usize> = plans.iter().map(|p| p.ops[0].0).collect();
    let shared = (0..6).filter(|t| firsts.iter().filter(|x| *x == t).count() > 1).count();
    cx.class(&format!("{} threads", plans.len()));
    if shared > 0 {
        cx.class("first use shared");
        cx.nontrivial(&choices);
    }
    let ops: usize = plans.iter().map(|p| p.ops.len()).sum();
    cx.class(&format!("{} or more operations", ops / 20 * 20));
    cx.sample(|| {
        plans
            .iter()
            .map(|p| {
                let ops: Vec<String> = p
                    .ops
                    .iter()
                    .map(|(t, o, times)| {
                        let o = match o {
                            Op::Json(v, t) => format!("json {} {t}", v.text()),
                            Op::Bincode(v) => format!("bincode {}", v.text()),
                            Op::Postcard(v) => format!("postcard {}", v.text()),
                            Op::Unknown(t) => format!("unknown {t:?}"),
                            Op::Wrong => "wrong".to_owned(),
                            Op::Enc(n, x) => format!("encode P{n}({x})"),
                        };
                        format!("{}: {o}{}", TRAITS[*t].name, if *times > 1 { format!(" {times} times") } else { String::new() })
                    })
                    .collect();
                format!("[wait {}; {}]", p.wait, ops.join("; "))
            })
            .collect::<Vec<_>>()
            .join(" ")
    });
    Ok(())
}
