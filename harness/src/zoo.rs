//! Types whose implementations serde_derive and serde itself write, in the ways its attributes offer. A value is
//! represented by the JSON tree it serializes to.

use crate::src::Src;
use serde::de::{self, DeserializeOwned};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;

pub const N: usize = 14;

type Map<T> = BTreeMap<String, T>;

#[derive(Serialize, Deserialize)]
struct Inner {
    x: i32,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    y: Option<String>,
}

/// Entries of its own, and any others.
#[derive(Serialize, Deserialize)]
struct Rest {
    m: u8,
    #[serde(flatten)]
    rest: Map<i16>,
}

#[derive(Serialize, Deserialize)]
struct Two {
    #[serde(flatten)]
    inner: Inner,
    #[serde(flatten)]
    other: Beside,
    o: bool,
}

#[derive(Serialize, Deserialize)]
#[serde(untagged)]
enum Un {
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Pair(u8, Box<Un>),
    List(Vec<Un>),
    Named { n: u8 },
    Map(Map<Un>),
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "kind", rename_all = "kebab-case")]
enum Kind {
    RoundThing { r: f64 },
    Nothing,
    In(Inner),
    Map(Map<u8>),
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "k", content = "v")]
enum Beside {
    A,
    B(u8),
    C(u8, String),
    D { d: char },
    #[serde(rename = "")]
    E(Option<Box<Beside>>),
}

#[derive(Serialize, Deserialize)]
#[serde(rename_all = "camelCase", deny_unknown_fields)]
struct Camel {
    #[serde(default)]
    first_field: u16,
    #[serde(alias = "old", alias = "older")]
    second_field: Vec<u8>,
    #[serde(skip)]
    cached: Option<u64>,
    #[serde(rename(serialize = "last", deserialize = "last"))]
    third: (),
}

#[derive(Serialize, Deserialize)]
#[serde(default)]
struct Lax {
    p: i8,
    q: String,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    r: Vec<i64>,
}

impl Default for Lax {
    fn default() -> Lax {
        Lax { p: 7, q: "q".to_owned(), r: vec![] }
    }
}

/// A string that is not empty.
#[derive(Serialize, Deserialize, Clone)]
#[serde(try_from = "String", into = "String")]
struct Full(String);

impl TryFrom<String> for Full {
    type Error = &'static str;
    fn try_from(x: String) -> Result<Full, &'static str> {
        if x.is_empty() {
            Err("an empty string")
        } else {
            Ok(Full(x))
        }
    }
}
impl From<Full> for String {
    fn from(x: Full) -> String {
        x.0
    }
}

#[derive(Serialize, Deserialize)]
#[serde(transparent)]
struct Clear {
    only: Vec<Full>,
}

#[derive(Serialize, Deserialize)]
enum Level {
    Low,
    #[serde(alias = "middle")]
    Mid,
    #[serde(other)]
    Other,
}

mod hex {
    use super::*;
    pub fn serialize<S: Serializer>(x: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&x.iter().map(|b| format!("{b:02x}")).collect::<String>())
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let x = String::deserialize(d)?;
        (0..x.len())
            .step_by(2)
            .map(|i| x.get(i..i + 2).and_then(|y| u8::from_str_radix(y, 16).ok()).ok_or_else(|| de::Error::custom("not hexadecimal")))
            .collect()
    }
}

#[derive(Serialize, Deserialize)]
struct With {
    #[serde(with = "hex")]
    hex: Vec<u8>,
    level: Level,
    #[serde(default, skip_serializing)]
    gone: u8,
}

/// What the standard library has.
#[derive(Serialize, Deserialize)]
struct Std {
    took: std::time::Duration,
    range: std::ops::Range<i32>,
    done: Result<u8, String>,
    nz: std::num::NonZeroU16,
    bound: std::ops::Bound<u8>,
    set: BTreeSet<char>,
    arr: [i16; 3],
    path: std::path::PathBuf,
    cell: std::cell::Cell<i8>,
    rc: Rc<str>,
    deque: VecDeque<Option<bool>>,
    wrap: std::num::Wrapping<u32>,
    lock: std::sync::Mutex<Box<[u8]>>,
    cow: std::borrow::Cow<'static, str>,
    tuple: (u8, (char,), [(); 0]),
}

/// A tagged enum of everything.
#[derive(Serialize, Deserialize)]
enum All {
    Unit,
    #[serde(rename = "new type")]
    New(Un),
    Tuple(Kind, Beside),
    Struct {
        #[serde(flatten)]
        rest: Map<Un>,
    },
    #[serde(untagged)]
    Bare(f64, f64),
}

#[derive(Serialize, Deserialize)]
struct Nested(Rest, Option<Un>);

const KEYS: &[&str] = &["e0", "e1", "e2", "e3", "e 4", "", "é"];

fn map<T>(s: &mut Src, f: &mut dyn FnMut(&mut Src) -> T) -> Map<T> {
    (0..s.len(4)).map(|_| ((*s.pick(KEYS)).to_owned(), f(s))).collect()
}

fn real(s: &mut Src) -> f64 {
    *s.pick(&[0.5, -1.25, 1e300, 5e-324, 3.0, -2.5e10, 1.0, 0.1])
}

fn inner(s: &mut Src) -> Inner {
    Inner { x: s.int(-70000, 70000) as i32, y: s.bool().then(|| s.string(4)) }
}

fn kind(s: &mut Src) -> Kind {
    match s.below(4) {
        0 => Kind::RoundThing { r: real(s) },
        1 => Kind::Nothing,
        2 => Kind::In(inner(s)),
        _ => Kind::Map(map(s, &mut |s| s.below(256) as u8)),
    }
}

fn un(s: &mut Src, d: usize) -> Un {
    match s.below(if d == 0 { 5 } else { 9 }) {
        0 => Un::Null,
        1 => Un::Bool(s.bool()),
        2 => Un::Int(s.int(-1_000_000_000_000, 1_000_000_000_000) as i64),
        3 => Un::Float(real(s)),
        4 => Un::Str(s.string(5)),
        5 => Un::Pair(s.below(256) as u8, Box::new(un(s, d - 1))),
        6 => Un::List((0..s.len(3)).map(|_| un(s, d - 1)).collect()),
        7 => Un::Named { n: s.below(256) as u8 },
        _ => Un::Map(map(s, &mut |s| un(s, d - 1))),
    }
}

fn beside(s: &mut Src, d: usize) -> Beside {
    match s.below(5) {
        0 => Beside::A,
        1 => Beside::B(s.below(256) as u8),
        2 => Beside::C(s.below(256) as u8, s.string(4)),
        3 => Beside::D { d: *s.pick(&['d', 'é', '"', '\0', '😀']) },
        _ if d == 0 || s.bool() => Beside::E(None),
        _ => Beside::E(Some(Box::new(beside(s, d - 1)))),
    }
}

fn full(s: &mut Src) -> Full {
    Full(format!("f{}", s.string(4)))
}

fn rest(s: &mut Src) -> Rest {
    Rest { m: s.below(256) as u8, rest: map(s, &mut |s| s.int(-30000, 30000) as i16) }
}

fn level(s: &mut Src) -> Level {
    match s.below(3) {
        0 => Level::Low,
        1 => Level::Mid,
        _ => Level::Other,
    }
}

pub fn gen(s: &mut Src, n: u8) -> Value {
    fn v<T: Serialize>(x: T) -> Value {
        serde_json::to_value(x).unwrap()
    }
    match n {
        0 => v(rest(s)),
        1 => v(Two { inner: inner(s), other: beside(s, 0), o: s.bool() }),
        2 => v(un(s, 1)),
        3 => v(kind(s)),
        4 => v(beside(s, 1)),
        5 => v(Camel {
            first_field: s.below(65536) as u16,
            second_field: (0..s.len(4)).map(|_| s.below(256) as u8).collect(),
            cached: None,
            third: (),
        }),
        6 => v(Lax { p: s.int(-128, 127) as i8, q: s.string(4), r: (0..s.len(3)).map(|_| s.int(-9, 9) as i64).collect() }),
        7 => v(full(s)),
        8 => v(Clear { only: (0..s.len(3)).map(|_| full(s)).collect() }),
        9 => v(level(s)),
        10 => v(With { hex: (0..s.len(4)).map(|_| s.below(256) as u8).collect(), level: level(s), gone: 0 }),
        11 => v(Std {
            took: std::time::Duration::new(s.below(100000) as u64, s.below(1_000_000_000) as u32),
            range: s.int(-5, 5) as i32..s.int(-5, 500) as i32,
            done: if s.bool() { Ok(s.below(256) as u8) } else { Err(s.string(3)) },
            nz: std::num::NonZeroU16::new(1 + s.below(65535) as u16).unwrap(),
            bound: match s.below(3) {
                0 => std::ops::Bound::Unbounded,
                1 => std::ops::Bound::Included(3),
                _ => std::ops::Bound::Excluded(200),
            },
            set: (0..s.len(3)).map(|_| *s.pick(&['a', 'é', '😀', '\n'])).collect(),
            arr: [s.int(-300, 300) as i16, 0, -1],
            path: s.string(4).into(),
            cell: std::cell::Cell::new(s.int(-128, 127) as i8),
            rc: s.string(3).into(),
            deque: (0..s.len(3)).map(|_| s.bool().then(|| s.bool())).collect(),
            wrap: std::num::Wrapping(s.below(1 << 31) as u32),
            lock: std::sync::Mutex::new((0..s.len(3)).map(|_| s.below(256) as u8).collect()),
            cow: s.string(3).into(),
            tuple: (s.below(256) as u8, (*s.pick(&['t', 'é']),), []),
        }),
        12 => v(match s.below(5) {
            0 => All::Unit,
            1 => All::New(un(s, 1)),
            2 => All::Tuple(kind(s), beside(s, 0)),
            3 => All::Struct { rest: map(s, &mut |s| un(s, 0)) },
            _ => All::Bare(real(s), real(s)),
        }),
        _ => v(Nested(rest(s), s.bool().then(|| un(s, 1)))),
    }
}

pub fn zero(n: u8) -> Value {
    gen(&mut Src::new(&[]), n)
}

fn write<T: DeserializeOwned + Serialize, Z: Serializer>(x: &Value, z: Z) -> Result<Z::Ok, Z::Error> {
    match serde_json::from_value::<T>(x.clone()) {
        Ok(t) => t.serialize(z),
        Err(e) => panic!("harness: {e} in {x}"),
    }
}

fn read<'de, T: Deserialize<'de> + Serialize, D: Deserializer<'de>>(d: D) -> Result<Value, D::Error> {
    // Floats that JSON has not.
    T::deserialize(d).and_then(|t| serde_json::to_value(t).map_err(de::Error::custom))
}

macro_rules! each {
    ($n:expr, $f:ident($($a:expr),*)) => {
        match $n {
            0 => $f::<Rest, _>($($a),*),
            1 => $f::<Two, _>($($a),*),
            2 => $f::<Un, _>($($a),*),
            3 => $f::<Kind, _>($($a),*),
            4 => $f::<Beside, _>($($a),*),
            5 => $f::<Camel, _>($($a),*),
            6 => $f::<Lax, _>($($a),*),
            7 => $f::<Full, _>($($a),*),
            8 => $f::<Clear, _>($($a),*),
            9 => $f::<Level, _>($($a),*),
            10 => $f::<With, _>($($a),*),
            11 => $f::<Std, _>($($a),*),
            12 => $f::<All, _>($($a),*),
            _ => $f::<Nested, _>($($a),*),
        }
    };
}

pub fn ser<Z: Serializer>(n: u8, x: &Value, z: Z) -> Result<Z::Ok, Z::Error> {
    each!(n, write(x, z))
}

pub fn de<'de, D: Deserializer<'de>>(n: u8, d: D) -> Result<Value, D::Error> {
    each!(n, read(d))
}

/// Whether it is written as the entries of a map or as an enum, or else as a single value.
pub fn has_entries(n: u8) -> bool {
    matches!(n, 0 | 1 | 4 | 5 | 6 | 9 | 10 | 11)
}

/// Whether the type asks the format what there is before anything else.
pub fn asks_any(n: u8) -> bool {
    matches!(n, 2 | 3 | 12)
}
