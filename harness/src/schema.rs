//! Types and values generated at run time. A schema `S` plays the part of a
//! type with derived Serialize and Deserialize impls; a `V` is a value of it.

use crate::src::Src;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde::Deserialize;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::fmt;
use std::rc::Rc;
use std::sync::Mutex;

pub type Name = &'static str;

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Bool,
    I8,
    I16,
    I32,
    I64,
    I128,
    U8,
    U16,
    U32,
    U64,
    U128,
    F32,
    F64,
    Char,
    Str { collect: bool, take: Take },
    Bytes { buf: bool, lent: bool },
    Unit,
    UnitStruct(Name),
    Opt(Box<S>),
    New(Name, Box<S>),
    Tuple(Vec<S>),
    TupleStruct(Name, Vec<S>),
    Seq(Box<S>, bool),
    Map { k: Box<S>, v: Box<S>, hint: bool, split: bool },
    Struct(St),
    Enum(Name, Vec<Var>, &'static [Name]),
    /// Adapts to human-readable formats, like IP addresses do.
    Hr,
    /// Deserializes through deserialize_any.
    Any,
    /// Reads whatever there is as nothing.
    Ignored,
    /// The serde_derive'd type of this number.
    Zoo(u8),
    /// A boxed trait object of the family with this number.
    Obj(u8),
}

/// What a string is read into.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Take {
    /// A String.
    Own,
    /// Something made of a look at it.
    Look,
    /// A &str, so only where the format lends strings.
    Lent,
    /// The same, through deserialize_any.
    LentAny,
}

#[derive(Clone, Debug, PartialEq)]
pub struct St {
    pub name: Name,
    pub fields: Vec<F>,
    pub names: &'static [Name],
    pub deny: bool,
    /// Stops reading once it has all its fields.
    pub lazy: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct F {
    pub name: Name,
    pub s: S,
    pub dflt: bool,
    pub skip_none: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Var {
    pub name: Name,
    pub k: VK,
}

#[derive(Clone, Debug, PartialEq)]
pub enum VK {
    Unit,
    New(S),
    Tuple(Vec<S>),
    Struct(St),
}

#[derive(Clone, Debug)]
pub enum V {
    Bool(bool),
    Int(i128),
    U128(u128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<V>),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
    Var(u32, Vec<V>),
    Hr(u32),
    Any(serde_json::Value),
    /// family is in the schema
    Obj(u8, Box<V>),
}

/// The order of a map's entries counts unless the format does not keep it.
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Int(a), V::Int(b)) => a == b,
            (V::U128(a), V::U128(b)) => a == b,
            (V::F32(a), V::F32(b)) => a == b,
            (V::F64(a), V::F64(b)) => a == b,
            (V::Char(a), V::Char(b)) => a == b,
            (V::Str(a), V::Str(b)) => a == b,
            (V::Bytes(a), V::Bytes(b)) => a == b,
            (V::Unit, V::Unit) | (V::None, V::None) => true,
            (V::Some(a), V::Some(b)) => a == b,
            (V::Seq(a), V::Seq(b)) => a == b,
            (V::Map(a), V::Map(b)) if ordered() => a == b,
            (V::Map(a), V::Map(b)) => a.len() == b.len() && sorted(a) == sorted(b),
            (V::Var(i, a), V::Var(j, b)) => i == j && a == b,
            (V::Hr(a), V::Hr(b)) => a == b,
            (V::Any(a), V::Any(b)) => a == b,
            (V::Obj(i, a), V::Obj(j, b)) => i == j && a == b,
            _ => false,
        }
    }
}

fn sorted(v: &[(V, V)]) -> Vec<&(V, V)> {
    let mut v: Vec<_> = v.iter().collect();
    v.sort_by_cached_key(|(k, _)| format!("{k:?}"));
    v
}

thread_local! {
    static ORDERED: Cell<(bool, bool)> = const { Cell::new((true, true)) };
}
fn ordered() -> bool {
    let (format, case) = ORDERED.with(|c| c.get());
    format && case
}
/// Whether the format last read keeps the order of entries.
pub fn order_kept(by_format: bool) {
    ORDERED.with(|c| c.set((by_format, c.get().1)));
}
/// For cases that compare formats that do with ones that do not.
pub fn ignore_order(yes: bool) {
    ORDERED.with(|c| c.set((true, !yes)));
}

pub const NTYPES: usize = 8;
pub type World = Rc<Vec<S>>;

thread_local! {
    static WORLD: RefCell<World> = RefCell::new(Rc::new(vec![S::Bool; NTYPES]));
    static DIRECT: Cell<usize> = const { Cell::new(0) };
    /// Countdown to an error of a concrete type; negative: never.
    pub static SER_FAULT: Cell<i64> = const { Cell::new(-1) };
    pub static DE_FAULT: Cell<i64> = const { Cell::new(-1) };
    pub static SER_TICKS: Cell<u64> = const { Cell::new(0) };
    pub static DE_TICKS: Cell<u64> = const { Cell::new(0) };
}

pub fn set_world(w: World) {
    WORLD.with(|c| *c.borrow_mut() = w);
    SER_FAULT.with(|c| c.set(-1));
    DE_FAULT.with(|c| c.set(-1));
}
pub fn world() -> World {
    WORLD.with(|c| c.borrow().clone())
}
pub fn set_direct(i: usize) {
    DIRECT.with(|c| c.set(i));
}
pub fn direct() -> usize {
    DIRECT.with(|c| c.get())
}

fn tick_ser<E: ser::Error>() -> Result<(), E> {
    SER_TICKS.with(|c| c.set(c.get() + 1));
    SER_FAULT.with(|c| {
        let n = c.get();
        if n == 0 {
            return Err(E::custom(crate::doc::injected()));
        }
        if n > 0 {
            c.set(n - 1);
        }
        Ok(())
    })
}

/// An error as types raise them.
fn de_error<E: de::Error>() -> E {
    let m = crate::doc::injected();
    match crate::doc::INJECTED_KIND.with(|k| k.get()) {
        1 => E::invalid_value(de::Unexpected::Str(&m), &"something else"),
        2 => E::invalid_type(de::Unexpected::Other(&m), &"something else"),
        3 => E::unknown_field(&m, &["some", "fields"]),
        4 => E::unknown_variant(&m, &[]),
        5 => E::invalid_length(7, &m.as_str()),
        6 => E::invalid_value(de::Unexpected::Unit, &m.as_str()),
        _ => E::custom(m),
    }
}

fn tick_de<E: de::Error>() -> Result<(), E> {
    DE_TICKS.with(|c| c.set(c.get() + 1));
    DE_FAULT.with(|c| {
        let n = c.get();
        if n == 0 {
            return Err(de_error());
        }
        if n > 0 {
            c.set(n - 1);
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ interning

static STRINGS: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
static LISTS: Mutex<Option<HashSet<&'static [Name]>>> = Mutex::new(None);

pub fn intern(s: &str) -> Name {
    let mut g = STRINGS.lock().unwrap_or_else(|e| e.into_inner());
    let set = g.get_or_insert_with(HashSet::new);
    if let Some(x) = set.get(s) {
        return x;
    }
    let x: &'static str = Box::leak(s.to_owned().into_boxed_str());
    set.insert(x);
    x
}

pub fn intern_list(v: &[Name]) -> &'static [Name] {
    let mut g = LISTS.lock().unwrap_or_else(|e| e.into_inner());
    let set = g.get_or_insert_with(HashSet::new);
    if let Some(x) = set.get(v) {
        return x;
    }
    let x: &'static [Name] = Box::leak(v.to_vec().into_boxed_slice());
    set.insert(x);
    x
}

// ----------------------------------------------------------------- generation

#[derive(Clone, Debug)]
pub struct Cfg {
    pub depth: usize,
    pub big_ints: bool,
    pub hr: bool,
    /// Half of the leaves adapt to the format.
    pub hr_often: bool,
    pub any: bool,
    pub odd_keys: bool,
    /// serde_json 1.0 reads damaged keys of this kind wrongly (from_utf8_unchecked of half a character).
    pub bool_keys: bool,
    pub objs: Vec<u8>,
    pub hints: bool,
    pub skips: bool,
    /// Errors from deep values grow beyond measure (known finding of C15).
    pub deep: bool,
    /// Some hand-written structs do not read to the end.
    pub lazy: bool,
    /// Some strings and byte strings have to be lent.
    pub lent: bool,
    pub avoid: Vec<Name>,
}

impl Cfg {
    pub fn full() -> Cfg {
        Cfg {
            depth: 3,
            big_ints: true,
            hr: true,
            hr_often: false,
            any: true,
            odd_keys: true,
            bool_keys: true,
            objs: vec![],
            hints: true,
            skips: true,
            deep: false,
            lazy: false,
            lent: false,
            avoid: vec![],
        }
    }
    /// What Serde can buffer.
    pub fn bufferable() -> Cfg {
        Cfg { big_ints: false, hr: false, odd_keys: false, ..Cfg::full() }
    }
}

const POOL: &[&str] = &[
    "a", "b", "c", "x", "y", "id", "name", "value", "type", "variant", "content", "tag", "zz", "t", "key", "Ok",
    "Err", "Some", "None", "Alpha", "alpha", "", " ", "é", "e\u{301}", "日本語", "with space", "quote\"q",
    "back\\slash", "new\nline", "null", "true", "0", "1", "-7", "a.b", "D0", "Self", "\u{0}", "data", "inner",
    "field_with_a_rather_long_name_that_exceeds_sixty_four_bytes_in_total_length",
];

/// Another name that could be mistaken for this one.
pub fn nearly(s: &mut Src, x: &str) -> String {
    let flip = |c: char| if c.is_uppercase() { c.to_lowercase().to_string() } else { c.to_uppercase().to_string() };
    let mut cs: Vec<char> = x.chars().collect();
    match s.below(24) {
        0 => x.to_uppercase(),
        1 => x.to_lowercase(),
        2 => {
            if cs.is_empty() {
                return " ".to_owned();
            }
            let at = s.below(cs.len());
            cs.iter().enumerate().map(|(i, c)| if i == at { flip(*c) } else { c.to_string() }).collect()
        }
        3 => format!("{x}{}", s.pick(&[" ", "\u{0}", "s", "_", "!", "x", "\n", "1"])),
        4 => format!("{}{x}", s.pick(&[" ", "\u{0}", "_", "$", "@", "#", "r#", "__", "x", "\u{feff}", "-", "."])),
        5 => format!("{x}{x}"),
        6 => {
            cs.pop();
            cs.into_iter().collect()
        }
        7 => cs.into_iter().skip(1).collect(),
        8 => x.replace(['-', '_', '.'], " "),
        9 => x.replace(['-', ' ', '.'], "_"),
        10 => x.replace(['_', ' ', '.'], "-"),
        11 => format!("{x}.{x}"),
        12 => cs.into_iter().rev().collect(),
        13 => cs.into_iter().take(1).collect(),
        14 => format!("\"{x}\""),
        15 => format!("{:?}", x),
        16 => {
            let at = s.below(cs.len() + 1);
            cs.insert(at, *s.pick(&['_', '-', ' ', 'e', '\u{301}', '\u{200b}']));
            cs.into_iter().collect()
        }
        // As a path, a part of one, or the text of a type.
        17..=19 => {
            let sep = *s.pick(&["::", ".", "/", ":", " ", "#", "-", "_", "$", "@", "::<", "\\", ",", "|"]);
            let other = *s.pick(&["old", "crate", "self", "x", "", "a::b", "T", "dyn T", "D0", "1"]);
            if s.bool() {
                format!("{other}{sep}{x}")
            } else {
                format!("{x}{sep}{other}")
            }
        }
        20 => {
            let (a, b) = *s.pick(&[("<", ">"), ("(", ")"), ("[", "]"), ("{", "}"), ("Box<", ">"), ("&", ""), ("", "()"), ("", "<u8>"), ("dyn ", ""), ("'", "'")]);
            format!("{a}{x}{b}")
        }
        21 => (*s.pick(&["0", "1", "7", "D0", "D1", "D7", "*", "default", "null", "other", "_", "?"])).to_owned(),
        _ => x.trim().to_owned(),
    }
}

pub fn gen_name(s: &mut Src, used: &mut Vec<Name>, avoid: &[Name]) -> Name {
    let mut n = match s.weighted(&[14, 1, 2]) {
        0 => intern(s.pick(POOL)),
        2 if !avoid.is_empty() => {
            let x = *s.pick(avoid);
            intern(&nearly(s, x))
        }
        _ => {
            let c = s.char();
            intern(&c.to_string().repeat(1 + s.below(300)))
        }
    };
    let mut i = 0;
    while used.contains(&n) || avoid.contains(&n) {
        n = intern(&format!("{}{}", if n.len() > 40 { "n" } else { n }, i));
        i += 1;
    }
    used.push(n);
    n
}

fn gen_take(s: &mut Src, c: &Cfg) -> Take {
    if c.lent && s.chance(1, 3) {
        return if s.chance(1, 3) { Take::LentAny } else { Take::Lent };
    }
    if s.chance(1, 3) {
        Take::Look
    } else {
        Take::Own
    }
}

/// Whether it asks the format what there is before anything else.
pub fn asks_any(t: &S) -> bool {
    match strip_new(t) {
        S::Any | S::Str { take: Take::LentAny, .. } => true,
        S::Zoo(n) => crate::zoo::asks_any(*n),
        _ => false,
    }
}

pub fn gen_leaf(s: &mut Src, c: &Cfg) -> S {
    if c.hr_often && s.chance(1, 2) {
        return S::Hr;
    }
    match s.weighted(&[2, 1, 1, 2, 2, 2, 1, 2, 2, 2, 2, 2, 4, 2, 2, 1, 2, 2, 3, 1]) {
        0 => S::Bool,
        1 => S::I8,
        2 => S::I16,
        3 => S::I32,
        4 => S::I64,
        5 => S::U8,
        6 => S::U16,
        7 => S::U32,
        8 => S::U64,
        9 => S::F32,
        10 => S::F64,
        11 => S::Char,
        12 => S::Str { collect: s.chance(1, 4), take: gen_take(s, c) },
        13 => S::Bytes { buf: s.bool(), lent: c.lent && s.chance(1, 4) },
        14 => S::Unit,
        15 => S::UnitStruct(gen_name(s, &mut vec![], &[])),
        16 if c.big_ints => {
            if s.bool() {
                S::I128
            } else {
                S::U128
            }
        }
        17 if c.hr => S::Hr,
        18 if c.any => {
            if s.chance(1, 3) {
                S::Ignored
            } else if s.chance(3, 5) {
                S::Zoo(s.below(crate::zoo::N) as u8)
            } else {
                S::Any
            }
        }
        _ => S::U8,
    }
}

pub fn gen_key(s: &mut Src, c: &Cfg) -> S {
    if !c.odd_keys || s.chance(1, 2) {
        return S::Str { collect: s.chance(1, 4), take: gen_take(s, c) };
    }
    match s.below(11) {
        0 => S::Str { collect: false, take: Take::Own },
        1 => S::U8,
        2 => S::I64,
        3 => S::U32,
        4 => S::Char,
        5 if c.bool_keys => S::Bool,
        6 | 7 => S::New(gen_name(s, &mut vec![], &[]), Box::new(S::Str { collect: false, take: Take::Own })),
        8 => {
            let mut used = vec![];
            let n = 1 + s.below(4);
            let vars: Vec<Var> =
                (0..n).map(|_| Var { name: gen_name(s, &mut used, &c.avoid), k: VK::Unit }).collect();
            S::Enum("KeyEnum", vars, intern_list(&used))
        }
        9 if c.hr => S::Hr,
        10 if c.big_ints => S::U128,
        _ => S::New("NewKey", Box::new(S::U16)),
    }
}

fn gen_struct(s: &mut Src, c: &Cfg, d: usize) -> St {
    let mut used = vec![];
    let wide = s.chance(1, 100);
    let n = if wide { *s.pick(&[8, 15, 16, 17, 24, 32, 33, 64]) } else { s.len(6) };
    let fields: Vec<F> = (0..n)
        .map(|_| {
            let name = gen_name(s, &mut used, &c.avoid);
            let t = if wide { gen_leaf(s, c) } else { gen_s(s, c, d) };
            let dflt = s.chance(1, 6) && !has_obj(&t);
            let skip_none = c.skips && matches!(t, S::Opt(_)) && s.chance(1, 2);
            F { name, s: t, dflt, skip_none }
        })
        .collect();
    St { name: gen_name(s, &mut vec![], &[]), fields, names: intern_list(&used), deny: s.chance(1, 5), lazy: c.lazy && s.chance(1, 6) }
}

fn gen_enum(s: &mut Src, c: &Cfg, d: usize) -> S {
    let mut used = vec![];
    let wide = s.chance(1, 60);
    let n = if wide { *s.pick(&[8, 16, 17, 33, 130]) } else { 1 + s.below(5) };
    let vars: Vec<Var> = (0..n)
        .map(|_| {
            let name = gen_name(s, &mut used, &c.avoid);
            let k = match s.below(4) {
                _ if wide && used.len() % 4 > 0 => VK::Unit,
                0 => VK::Unit,
                1 => VK::New(gen_s(s, c, d)),
                2 => {
                    let n = s.len(3);
                    VK::Tuple((0..n).map(|_| gen_s(s, c, d)).collect())
                }
                _ => VK::Struct(gen_struct(s, &Cfg { avoid: vec![], ..c.clone() }, d)),
            };
            Var { name, k }
        })
        .collect();
    S::Enum(gen_name(s, &mut vec![], &[]), vars, intern_list(&used))
}

pub const SHAPES: usize = 14;

/// A schema of the given top-level shape.
pub fn gen_shape(s: &mut Src, c: &Cfg, d: usize, shape: usize) -> S {
    let sub = d.saturating_sub(1);
    let inner = Cfg { avoid: vec![], ..c.clone() };
    match shape {
        1 => S::Struct(gen_struct(s, c, sub)),
        2 => gen_enum(s, c, sub),
        3 => S::Opt(Box::new(gen_s(s, &inner, sub))),
        4 => S::New(gen_name(s, &mut vec![], &[]), Box::new(gen_s(s, c, sub))),
        5 => {
            let n = s.len(4);
            S::Tuple((0..n).map(|_| gen_s(s, &inner, sub)).collect())
        }
        6 => {
            let n = s.len(4);
            S::TupleStruct(gen_name(s, &mut vec![], &[]), (0..n).map(|_| gen_s(s, &inner, sub)).collect())
        }
        7 => S::Seq(Box::new(gen_s(s, &inner, sub)), !c.hints || !s.chance(1, 4)),
        8 => S::Map {
            k: Box::new(gen_key(s, c)),
            v: Box::new(gen_s(s, &inner, sub)),
            hint: !c.hints || !s.chance(1, 4),
            split: s.bool(),
        },
        9 => S::Str { collect: s.chance(1, 4), take: gen_take(s, c) },
        10 => S::Bytes { buf: s.bool(), lent: c.lent && s.chance(1, 4) },
        11 => S::Unit,
        12 => S::UnitStruct(gen_name(s, &mut vec![], &[])),
        13 if !c.objs.is_empty() => S::Obj(*s.pick(&c.objs)),
        _ => gen_leaf(s, c),
    }
}

/// One value inside another, many levels deep.
fn gen_chain(s: &mut Src, c: &Cfg) -> S {
    let inner = Cfg { avoid: vec![], ..c.clone() };
    let mut t = gen_leaf(s, &inner);
    let n = if c.deep { *s.pick(&[9, 16, 17, 32, 33]) } else { 5 + s.below(4) };
    let kind = s.below(8);
    for i in 0..n {
        let name = gen_name(s, &mut vec![], &inner.avoid);
        let x = Box::new(t);
        t = match if kind < 6 { kind } else { s.below(6) } {
            0 => S::Seq(x, true),
            1 => S::Tuple(vec![*x]),
            2 => S::Map {
                k: Box::new(S::Str { collect: false, take: Take::Own }),
                v: x,
                hint: true,
                split: s.bool(),
            },
            3 => {
                let f = F { name, s: *x, dflt: false, skip_none: false };
                S::Struct(St { name: "Chain", fields: vec![f], names: intern_list(&[name]), deny: i % 2 == 0, lazy: false })
            }
            4 => S::Enum("Links", vec![Var { name, k: VK::New(*x) }], intern_list(&[name])),
            _ => S::New(name, x),
        };
    }
    t
}

pub fn gen_s(s: &mut Src, c: &Cfg, d: usize) -> S {
    if d > 0 && s.chance(1, 120) {
        return gen_chain(s, c);
    }
    if d == 0 {
        if !c.objs.is_empty() && s.chance(1, 4) {
            return S::Obj(*s.pick(&c.objs));
        }
        return gen_leaf(s, c);
    }
    let o = if c.objs.is_empty() { 0 } else { 6 };
    let shape = s.weighted(&[12, 4, 4, 2, 2, 2, 2, 3, 3, 0, 0, 0, 0, o]);
    gen_shape(s, c, d, shape)
}

pub fn has_obj(t: &S) -> bool {
    any_s(t, &mut |x| matches!(x, S::Obj(_)))
}

pub fn any_s(t: &S, f: &mut dyn FnMut(&S) -> bool) -> bool {
    fn st(x: &St, f: &mut dyn FnMut(&S) -> bool) -> bool {
        x.fields.iter().any(|y| any_s(&y.s, f))
    }
    if f(t) {
        return true;
    }
    match t {
        S::Opt(x) | S::New(_, x) | S::Seq(x, _) => any_s(x, f),
        S::Tuple(v) | S::TupleStruct(_, v) => v.iter().any(|x| any_s(x, f)),
        S::Map { k, v, .. } => any_s(k, f) || any_s(v, f),
        S::Struct(x) => st(x, f),
        S::Enum(_, vars, _) => vars.iter().any(|v| match &v.k {
            VK::Unit => false,
            VK::New(x) => any_s(x, f),
            VK::Tuple(v) => v.iter().any(|x| any_s(x, f)),
            VK::Struct(x) => st(x, f),
        }),
        _ => false,
    }
}

pub fn any_v(v: &V, f: &mut dyn FnMut(&V) -> bool) -> bool {
    if f(v) {
        return true;
    }
    match v {
        V::Some(x) | V::Obj(_, x) => any_v(x, f),
        V::Seq(v) | V::Var(_, v) => v.iter().any(|x| any_v(x, f)),
        V::Map(v) => v.iter().any(|(k, x)| any_v(k, f) || any_v(x, f)),
        _ => false,
    }
}

pub fn size_v(v: &V) -> usize {
    let mut n = 0;
    any_v(v, &mut |_| {
        n += 1;
        false
    });
    n
}

pub fn strip_new(t: &S) -> &S {
    match t {
        S::New(_, x) => strip_new(x),
        t => t,
    }
}

fn gen_any(s: &mut Src, d: usize) -> serde_json::Value {
    use serde_json::Value;
    match s.below(if d == 0 { 6 } else { 8 }) {
        0 => Value::Null,
        1 => Value::Bool(s.bool()),
        2 => Value::from(s.int(i128::from(i64::MIN), i128::from(i64::MAX)) as i64),
        3 => Value::from(s.int(0, i128::from(u64::MAX)) as u64),
        4 => Value::String(s.string(6)),
        5 => serde_json::Number::from_f64(s.f64()).map_or(Value::Null, Value::Number),
        6 => Value::Array((0..s.len(4)).map(|_| gen_any(s, d - 1)).collect()),
        _ => Value::Object(
            (0..s.len(4)).map(|_| (s.string(4), gen_any(s, d - 1))).collect(),
        ),
    }
}

fn gen_st_v(s: &mut Src, st: &St, w: &World, fuel: usize) -> Vec<V> {
    st.fields.iter().map(|f| gen_v(s, &f.s, w, fuel)).collect()
}

pub fn gen_v(s: &mut Src, t: &S, w: &World, fuel: usize) -> V {
    macro_rules! int {
        ($t:ident) => {
            V::Int(s.int(i128::from($t::MIN), i128::from($t::MAX)))
        };
    }
    match t {
        S::Bool => V::Bool(s.bool()),
        S::I8 => int!(i8),
        S::I16 => int!(i16),
        S::I32 => int!(i32),
        S::I64 => int!(i64),
        S::I128 => V::Int(s.int(i128::MIN, i128::MAX)),
        S::U8 => int!(u8),
        S::U16 => int!(u16),
        S::U32 => int!(u32),
        S::U64 => int!(u64),
        S::U128 => V::U128(s.uint128()),
        S::F32 => V::F32(s.f32().to_bits()),
        S::F64 => V::F64(s.f64().to_bits()),
        S::Char => V::Char(s.char()),
        S::Str { .. } => V::Str(s.string(8)),
        S::Bytes { .. } => V::Bytes(s.bytes(8)),
        S::Unit | S::UnitStruct(_) => V::Unit,
        S::Opt(x) => {
            if s.chance(2, 3) {
                V::Some(Box::new(gen_v(s, x, w, fuel)))
            } else {
                V::None
            }
        }
        S::New(_, x) => gen_v(s, x, w, fuel),
        S::Tuple(v) | S::TupleStruct(_, v) => V::Seq(v.iter().map(|x| gen_v(s, x, w, fuel)).collect()),
        S::Seq(x, _) => {
            let n = if fuel == 0 {
                s.below(2)
            } else if s.chance(1, 40) && matches!(**x, S::U8 | S::Bool | S::I32) {
                *s.pick(&[15, 16, 23, 24, 127, 128, 255, 256, 300])
            } else if is_leaf(x) && s.chance(1, 60) {
                *s.pick(&[16, 17, 33, 65, 129, 300])
            } else if is_leaf(x) && s.chance(1, 1000) {
                *s.pick(&[1025, 4097])
            } else {
                s.len(6)
            };
            let f = fuel.saturating_sub(1);
            let mut v: Vec<V> = (0..n.min(40)).map(|_| gen_v(s, x, w, f)).collect();
            // The others follow from these.
            for i in v.len()..n {
                v.push(match &v[i % 40] {
                    V::Int(0) if i % 256 < 100 => V::Int((i % 256) as i128),
                    V::Str(t) if t.len() < 20 => V::Str(format!("{t}{i}")),
                    x => x.clone(),
                });
            }
            V::Seq(v)
        }
        S::Map { k, v, .. } => {
            let n = if fuel == 0 { s.below(2) } else { s.len(5) };
            let f = fuel.saturating_sub(1);
            let mut m: Vec<(V, V)> = vec![];
            for _ in 0..n {
                let key = gen_v(s, k, w, f);
                if !m.iter().any(|(x, _)| *x == key) {
                    let val = gen_v(s, v, w, f);
                    m.push((key, val));
                }
            }
            // Many entries.
            if fuel > 0 && !m.is_empty() && is_leaf(v) && s.chance(1, 60) {
                let n = if s.chance(1, 20) { 1500 } else { *s.pick(&[16, 17, 24, 33, 65, 129, 256, 300]) };
                for i in m.len()..n {
                    let key = match &**k {
                        S::Str { .. } => V::Str(format!("key{i}")),
                        S::U32 | S::I64 | S::U128 => V::Int(1000 + i as i128),
                        _ => break,
                    };
                    let key = if let (S::U128, V::Int(x)) = (&**k, &key) { V::U128(*x as u128) } else { key };
                    if m.len() < 5 || !m[..5].iter().any(|(x, _)| *x == key) {
                        let val = if i % 50 < 20 { gen_v(s, v, w, f) } else { m[i % m.len()].1.clone() };
                        m.push((key, val));
                    }
                }
            }
            V::Map(m)
        }
        S::Struct(st) => V::Seq(gen_st_v(s, st, w, fuel)),
        S::Enum(_, vars, _) => {
            let i = s.below(vars.len());
            let v = match &vars[i].k {
                VK::Unit => vec![],
                VK::New(x) => vec![gen_v(s, x, w, fuel)],
                VK::Tuple(v) => v.iter().map(|x| gen_v(s, x, w, fuel)).collect(),
                VK::Struct(st) => gen_st_v(s, st, w, fuel),
            };
            V::Var(i as u32, v)
        }
        S::Hr => V::Hr(s.int(0, i128::from(u32::MAX)) as u32),
        S::Any => V::Any(gen_any(s, 2)),
        S::Zoo(n) => V::Any(crate::zoo::gen(s, *n)),
        S::Ignored => V::Unit,
        S::Obj(_) => {
            // The last type of a world holds no objects, so this ends.
            let i = if fuel == 0 { NTYPES - 1 } else { s.below(NTYPES) };
            let w2 = w.clone();
            V::Obj(i as u8, Box::new(gen_v(s, &w2[i], w, fuel.saturating_sub(1))))
        }
    }
}

fn is_leaf(t: &S) -> bool {
    !matches!(
        strip_new(t),
        S::Opt(_) | S::Tuple(_) | S::TupleStruct(..) | S::Seq(..) | S::Map { .. } | S::Struct(_) | S::Enum(..)
            | S::Obj(_) | S::Any | S::Zoo(_) | S::Ignored | S::Hr
    )
}

/// The value a field with #[serde(default)] takes.
pub fn zero(t: &S) -> V {
    match t {
        S::Bool => V::Bool(false),
        S::I8 | S::I16 | S::I32 | S::I64 | S::I128 | S::U8 | S::U16 | S::U32 | S::U64 => V::Int(0),
        S::U128 => V::U128(0),
        S::F32 => V::F32(0),
        S::F64 => V::F64(0),
        S::Char => V::Char('\0'),
        S::Str { .. } => V::Str(String::new()),
        S::Bytes { .. } => V::Bytes(vec![]),
        S::Unit | S::UnitStruct(_) => V::Unit,
        S::Opt(_) => V::None,
        S::New(_, x) => zero(x),
        S::Tuple(v) | S::TupleStruct(_, v) => V::Seq(v.iter().map(zero).collect()),
        S::Seq(..) => V::Seq(vec![]),
        S::Map { .. } => V::Map(vec![]),
        S::Struct(st) => V::Seq(st.fields.iter().map(|f| zero(&f.s)).collect()),
        S::Enum(_, vars, _) => V::Var(
            0,
            match &vars[0].k {
                VK::Unit => vec![],
                VK::New(x) => vec![zero(x)],
                VK::Tuple(v) => v.iter().map(zero).collect(),
                VK::Struct(st) => st.fields.iter().map(|f| zero(&f.s)).collect(),
            },
        ),
        S::Hr => V::Hr(0),
        S::Any => V::Any(serde_json::Value::Null),
        S::Zoo(n) => V::Any(crate::zoo::zero(*n)),
        S::Ignored => V::Unit,
        S::Obj(_) => V::Obj(7, Box::new(V::Bool(false))),
    }
}

// -------------------------------------------------------------- serialization

#[derive(Copy, Clone)]
pub struct SV<'a>(pub &'a S, pub &'a V);

fn skipped(f: &F, v: &V) -> bool {
    f.skip_none && *v == V::None
}

impl<'a> Serialize for SV<'a> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        tick_ser::<Z::Error>()?;
        macro_rules! int {
            ($m:ident) => {
                match self.1 {
                    V::Int(x) => z.$m(*x as _),
                    v => panic!("harness: {v:?} for {:?}", self.0),
                }
            };
        }
        match (self.0, self.1) {
            (S::Bool, V::Bool(x)) => z.serialize_bool(*x),
            (S::I8, _) => int!(serialize_i8),
            (S::I16, _) => int!(serialize_i16),
            (S::I32, _) => int!(serialize_i32),
            (S::I64, _) => int!(serialize_i64),
            (S::I128, _) => int!(serialize_i128),
            (S::U8, _) => int!(serialize_u8),
            (S::U16, _) => int!(serialize_u16),
            (S::U32, _) => int!(serialize_u32),
            (S::U64, _) => int!(serialize_u64),
            (S::U128, V::U128(x)) => z.serialize_u128(*x),
            (S::F32, V::F32(x)) => z.serialize_f32(f32::from_bits(*x)),
            (S::F64, V::F64(x)) => z.serialize_f64(f64::from_bits(*x)),
            (S::Char, V::Char(x)) => z.serialize_char(*x),
            (S::Str { collect: false, .. }, V::Str(x)) => z.serialize_str(x),
            (S::Str { collect: true, .. }, V::Str(x)) => z.collect_str(x),
            (S::Bytes { .. }, V::Bytes(x)) => z.serialize_bytes(x),
            (S::Unit, V::Unit) => z.serialize_unit(),
            (S::UnitStruct(n), V::Unit) => z.serialize_unit_struct(n),
            (S::Opt(_), V::None) => z.serialize_none(),
            (S::Opt(t), V::Some(x)) => z.serialize_some(&SV(t, x)),
            (S::New(n, t), x) => z.serialize_newtype_struct(n, &SV(t, x)),
            (S::Tuple(t), V::Seq(v)) => {
                let mut c = z.serialize_tuple(v.len())?;
                for (t, x) in t.iter().zip(v) {
                    c.serialize_element(&SV(t, x))?;
                }
                c.end()
            }
            (S::TupleStruct(n, t), V::Seq(v)) => {
                let mut c = z.serialize_tuple_struct(n, v.len())?;
                for (t, x) in t.iter().zip(v) {
                    c.serialize_field(&SV(t, x))?;
                }
                c.end()
            }
            (S::Seq(t, hint), V::Seq(v)) => {
                let mut c = z.serialize_seq(if *hint { Some(v.len()) } else { None })?;
                for x in v {
                    c.serialize_element(&SV(t, x))?;
                }
                c.end()
            }
            (S::Map { k, v, hint, split }, V::Map(m)) => {
                let mut c = z.serialize_map(if *hint { Some(m.len()) } else { None })?;
                for (a, b) in m {
                    if *split {
                        c.serialize_key(&SV(k, a))?;
                        c.serialize_value(&SV(v, b))?;
                    } else {
                        c.serialize_entry(&SV(k, a), &SV(v, b))?;
                    }
                }
                c.end()
            }
            (S::Struct(st), V::Seq(v)) => {
                let n = st.fields.iter().zip(v).filter(|(f, x)| !skipped(f, x)).count();
                let mut c = z.serialize_struct(st.name, n)?;
                for (f, x) in st.fields.iter().zip(v) {
                    if skipped(f, x) {
                        c.skip_field(f.name)?;
                    } else {
                        c.serialize_field(f.name, &SV(&f.s, x))?;
                    }
                }
                c.end()
            }
            (S::Enum(n, vars, _), V::Var(i, v)) => {
                let var = &vars[*i as usize];
                match &var.k {
                    VK::Unit => z.serialize_unit_variant(n, *i, var.name),
                    VK::New(t) => z.serialize_newtype_variant(n, *i, var.name, &SV(t, &v[0])),
                    VK::Tuple(t) => {
                        let mut c = z.serialize_tuple_variant(n, *i, var.name, v.len())?;
                        for (t, x) in t.iter().zip(v) {
                            c.serialize_field(&SV(t, x))?;
                        }
                        c.end()
                    }
                    VK::Struct(st) => {
                        let len = st.fields.iter().zip(v).filter(|(f, x)| !skipped(f, x)).count();
                        let mut c = z.serialize_struct_variant(n, *i, var.name, len)?;
                        for (f, x) in st.fields.iter().zip(v) {
                            if skipped(f, x) {
                                c.skip_field(f.name)?;
                            } else {
                                c.serialize_field(f.name, &SV(&f.s, x))?;
                            }
                        }
                        c.end()
                    }
                }
            }
            (S::Hr, V::Hr(x)) => {
                if z.is_human_readable() {
                    z.serialize_str(&format!("h{x}"))
                } else {
                    let mut c = z.serialize_tuple(4)?;
                    for b in x.to_be_bytes() {
                        c.serialize_element(&b)?;
                    }
                    c.end()
                }
            }
            (S::Any, V::Any(x)) => x.serialize(z),
            (S::Zoo(n), V::Any(x)) => crate::zoo::ser(*n, x, z),
            (S::Ignored, V::Unit) => z.serialize_unit(),
            (S::Obj(f), V::Obj(i, x)) => {
                if crate::oracle::imitating() {
                    crate::oracle::imitate(*f, *i as usize, x, z.is_human_readable()).map_err(ser::Error::custom)?.serialize(z)
                } else {
                    crate::fam::ser_obj(*f, *i as usize, x, z)
                }
            }
            (t, v) => panic!("harness: {v:?} for {t:?}"),
        }
    }
}

// ------------------------------------------------------------ deserialization

#[derive(Copy, Clone)]
pub struct Seed<'a>(pub &'a S);

struct StrVis;
impl<'de> Visitor<'de> for StrVis {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a string")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<String, E> {
        Ok(s.to_owned())
    }
    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<String, E> {
        String::from_utf8(s.to_vec())
            .map_err(|_| E::invalid_value(de::Unexpected::Bytes(s), &self))
    }
}

struct LentVis;
impl<'de> Visitor<'de> for LentVis {
    type Value = &'de str;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a lent string")
    }
    fn visit_borrowed_str<E: de::Error>(self, s: &'de str) -> Result<&'de str, E> {
        Ok(s)
    }
}

struct BytesVis;
impl<'de> Visitor<'de> for BytesVis {
    type Value = Vec<u8>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Vec<u8>, E> {
        Ok(s.as_bytes().to_vec())
    }
    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<Vec<u8>, E> {
        Ok(s.to_vec())
    }
    fn visit_byte_buf<E: de::Error>(self, s: Vec<u8>) -> Result<Vec<u8>, E> {
        Ok(s)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<u8>, A::Error> {
        let mut v = vec![];
        while let Some(b) = a.next_element()? {
            v.push(b);
        }
        Ok(v)
    }
}

struct UnitStructVis(Name);
impl<'de> Visitor<'de> for UnitStructVis {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "unit struct {}", self.0)
    }
    fn visit_unit<E: de::Error>(self) -> Result<V, E> {
        Ok(V::Unit)
    }
}

struct OptVis<'a>(&'a S);
impl<'a, 'de> Visitor<'de> for OptVis<'a> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_unit<E: de::Error>(self) -> Result<V, E> {
        Ok(V::None)
    }
    fn visit_none<E: de::Error>(self) -> Result<V, E> {
        Ok(V::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        Ok(V::Some(Box::new(Seed(self.0).deserialize(d)?)))
    }
}

struct NewVis<'a>(Name, &'a S);
impl<'a, 'de> Visitor<'de> for NewVis<'a> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "tuple struct {}", self.0)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        Seed(self.1).deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        match a.next_element_seed(Seed(self.1))? {
            Some(v) => Ok(v),
            None => Err(de::Error::invalid_length(0, &self)),
        }
    }
}

struct TupleVis<'a>(&'a [S]);
impl<'a, 'de> Visitor<'de> for TupleVis<'a> {
    type Value = Vec<V>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "tuple of {} elements", self.0.len())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<V>, A::Error> {
        let mut v = vec![];
        for (i, t) in self.0.iter().enumerate() {
            match a.next_element_seed(Seed(t))? {
                Some(x) => v.push(x),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        Ok(v)
    }
}

/// Units in garbage may be announced without end.
fn too_long<E: de::Error>(n: usize) -> Result<(), E> {
    if n > 100_000 {
        return Err(E::custom("too long for these tests"));
    }
    Ok(())
}

struct SeqVis<'a>(&'a S);
impl<'a, 'de> Visitor<'de> for SeqVis<'a> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element_seed(Seed(self.0))? {
            v.push(x);
            too_long(v.len())?;
        }
        Ok(V::Seq(v))
    }
}

struct MapVis<'a>(&'a S, &'a S);
impl<'a, 'de> Visitor<'de> for MapVis<'a> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut v = vec![];
        while let Some(k) = a.next_key_seed(Seed(self.0))? {
            let x = a.next_value_seed(Seed(self.1))?;
            v.push((k, x));
            too_long(v.len())?;
        }
        Ok(V::Map(v))
    }
}

/// Index into a list of names; `None` is an unknown one.
struct IdVis {
    names: &'static [Name],
    what: &'static str,
    deny: bool,
}
impl<'de> DeserializeSeed<'de> for IdVis {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for IdVis {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{} identifier", self.what)
    }
    fn visit_u64<E: de::Error>(self, x: u64) -> Result<Option<usize>, E> {
        if x < self.names.len() as u64 {
            Ok(Some(x as usize))
        } else if self.deny {
            Err(E::invalid_value(de::Unexpected::Unsigned(x), &self))
        } else {
            Ok(None)
        }
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Option<usize>, E> {
        match self.names.iter().position(|n| *n == s) {
            Some(i) => Ok(Some(i)),
            None if self.deny && self.what == "variant" => Err(E::unknown_variant(s, self.names)),
            None if self.deny => Err(E::unknown_field(s, self.names)),
            None => Ok(None),
        }
    }
    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<Option<usize>, E> {
        match self.names.iter().position(|n| n.as_bytes() == s) {
            Some(i) => Ok(Some(i)),
            None if self.deny => {
                let s = &String::from_utf8_lossy(s);
                if self.what == "variant" {
                    Err(E::unknown_variant(s, self.names))
                } else {
                    Err(E::unknown_field(s, self.names))
                }
            }
            None => Ok(None),
        }
    }
}

struct StructVis<'a>(&'a St);
impl<'a, 'de> Visitor<'de> for StructVis<'a> {
    type Value = Vec<V>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "struct {}", self.0.name)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<V>, A::Error> {
        let mut v = vec![];
        for (i, f) in self.0.fields.iter().enumerate() {
            match a.next_element_seed(Seed(&f.s))? {
                Some(x) => v.push(x),
                None if f.dflt => v.push(zero(&f.s)),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        Ok(v)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Vec<V>, A::Error> {
        let mut v: Vec<Option<V>> = vec![None; self.0.fields.len()];
        loop {
            if self.0.lazy && v.iter().all(Option::is_some) {
                break;
            }
            let id = IdVis { names: self.0.names, what: "field", deny: self.0.deny };
            let Some(k) = a.next_key_seed(id)? else { break };
            match k {
                None => {
                    a.next_value::<IgnoredAny>()?;
                }
                Some(i) => {
                    if v[i].is_some() {
                        return Err(de::Error::duplicate_field(self.0.names[i]));
                    }
                    v[i] = Some(a.next_value_seed(Seed(&self.0.fields[i].s))?);
                }
            }
        }
        self.0
            .fields
            .iter()
            .zip(v)
            .map(|(f, x)| match x {
                Some(x) => Ok(x),
                None if f.dflt => Ok(zero(&f.s)),
                None if matches!(f.s, S::Opt(_)) => Ok(V::None),
                None => Err(de::Error::missing_field(f.name)),
            })
            .collect()
    }
}

struct EnumVis<'a>(Name, &'a [Var], &'static [Name]);
impl<'a, 'de> Visitor<'de> for EnumVis<'a> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "enum {}", self.0)
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<V, A::Error> {
        let (i, a) = a.variant_seed(IdVis { names: self.2, what: "variant", deny: true })?;
        let i = i.expect("harness: denied");
        let v = match &self.1[i].k {
            VK::Unit => {
                a.unit_variant()?;
                vec![]
            }
            VK::New(t) => vec![a.newtype_variant_seed(Seed(t))?],
            VK::Tuple(t) => a.tuple_variant(t.len(), TupleVis(t))?,
            VK::Struct(st) => a.struct_variant(st.names, StructVis(st))?,
        };
        Ok(V::Var(i as u32, v))
    }
}

struct HrVis;
impl<'de> Visitor<'de> for HrVis {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("h followed by a number")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<V, E> {
        s.strip_prefix('h')
            .and_then(|x| x.parse().ok())
            .map(V::Hr)
            .ok_or_else(|| E::invalid_value(de::Unexpected::Str(s), &self))
    }
}

impl<'a, 'de> DeserializeSeed<'de> for Seed<'a> {
    type Value = V;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        tick_de::<D::Error>()?;
        macro_rules! int {
            ($t:ident) => {
                $t::deserialize(d).map(|x| V::Int(x as i128))
            };
        }
        match self.0 {
            S::Bool => bool::deserialize(d).map(V::Bool),
            S::I8 => int!(i8),
            S::I16 => int!(i16),
            S::I32 => int!(i32),
            S::I64 => int!(i64),
            S::I128 => int!(i128),
            S::U8 => int!(u8),
            S::U16 => int!(u16),
            S::U32 => int!(u32),
            S::U64 => int!(u64),
            S::U128 => u128::deserialize(d).map(V::U128),
            S::F32 => f32::deserialize(d).map(|x| V::F32(x.to_bits())),
            S::F64 => f64::deserialize(d).map(|x| V::F64(x.to_bits())),
            S::Char => char::deserialize(d).map(V::Char),
            S::Str { take: Take::Own, .. } => String::deserialize(d).map(V::Str),
            S::Str { take: Take::Look, .. } => d.deserialize_str(StrVis).map(V::Str),
            S::Str { take: Take::Lent, .. } => <&str>::deserialize(d).map(|x| V::Str(x.to_owned())),
            S::Str { take: Take::LentAny, .. } => d.deserialize_any(LentVis).map(|x| V::Str(x.to_owned())),
            S::Bytes { lent: true, .. } => <&[u8]>::deserialize(d).map(|x| V::Bytes(x.to_vec())),
            S::Bytes { buf: true, .. } => d.deserialize_byte_buf(BytesVis).map(V::Bytes),
            S::Bytes { buf: false, .. } => d.deserialize_bytes(BytesVis).map(V::Bytes),
            S::Unit => <()>::deserialize(d).map(|()| V::Unit),
            S::UnitStruct(n) => d.deserialize_unit_struct(n, UnitStructVis(n)),
            S::Opt(t) => d.deserialize_option(OptVis(t)),
            S::New(n, t) => d.deserialize_newtype_struct(n, NewVis(n, t)),
            S::Tuple(t) => d.deserialize_tuple(t.len(), TupleVis(t)).map(V::Seq),
            S::TupleStruct(n, t) => d.deserialize_tuple_struct(n, t.len(), TupleVis(t)).map(V::Seq),
            S::Seq(t, _) => d.deserialize_seq(SeqVis(t)),
            S::Map { k, v, .. } => d.deserialize_map(MapVis(k, v)),
            S::Struct(st) => d.deserialize_struct(st.name, st.names, StructVis(st)).map(V::Seq),
            S::Enum(n, vars, names) => d.deserialize_enum(n, names, EnumVis(n, vars, names)),
            S::Hr => {
                if d.is_human_readable() {
                    d.deserialize_str(HrVis)
                } else {
                    <[u8; 4]>::deserialize(d).map(|b| V::Hr(u32::from_be_bytes(b)))
                }
            }
            S::Any => serde_json::Value::deserialize(d).map(V::Any),
            S::Zoo(n) => crate::zoo::de(*n, d).map(V::Any),
            S::Ignored => de::IgnoredAny::deserialize(d).map(|_| V::Unit),
            S::Obj(f) => crate::fam::de_obj(*f, d),
        }
    }
}

/// The concrete type number `direct()` of the current world, without typetag.
#[derive(Clone, Debug, PartialEq)]
pub struct Direct(pub V);

impl Serialize for Direct {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        SV(&world()[direct()], &self.0).serialize(z)
    }
}
impl<'de> Deserialize<'de> for Direct {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Seed(&world()[direct()]).deserialize(d).map(Direct)
    }
}

/// The same, out of what Serde has buffered: {"c": content, "t": "A"}
#[derive(serde::Deserialize)]
#[serde(tag = "t", content = "c")]
pub enum Loose {
    A(Direct),
}

/// {"k": concrete value}
#[derive(Clone, Debug, PartialEq)]
pub struct InMap(pub V);

impl Serialize for InMap {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let mut m = z.serialize_map(Some(1))?;
        m.serialize_entry("k", &SV(&world()[direct()], &self.0))?;
        m.end()
    }
}
impl<'de> Deserialize<'de> for InMap {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis;
        impl<'de> Visitor<'de> for Vis {
            type Value = InMap;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<InMap, A::Error> {
                let w = world();
                let Some(k) = a.next_key::<String>()? else {
                    return Err(de::Error::custom("empty"));
                };
                if k != "k" {
                    return Err(de::Error::custom("key"));
                }
                let v = a.next_value_seed(Seed(&w[direct()]))?;
                if a.next_key::<IgnoredAny>()?.is_some() {
                    return Err(de::Error::custom("second"));
                }
                Ok(InMap(v))
            }
        }
        d.deserialize_map(Vis)
    }
}

