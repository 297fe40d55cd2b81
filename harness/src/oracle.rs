//! What the documentation says objects look like, and generation of worlds,
//! values and damaged documents.

use crate::doc::Doc;
use crate::fam::{Dflt, Kind, Ops, ADJS, EXTS, INTS};
use crate::fmts::{enc, Enc, Fmt};
use crate::schema::*;
use crate::src::Src;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// Which types of a world hold something generated.
pub struct Case {
    pub i: usize,
    pub s: S,
    pub v: V,
}

impl Case {
    pub fn show(&self) -> String {
        format!("type D{} = {:?}\nvalue = {:?}", self.i, self.s, self.v)
    }
}

/// A world with one generated type among plain ones, and a value of it.
pub fn gen_case(s: &mut Src, cfg: &Cfg) -> Case {
    let i = s.below(NTYPES);
    let shape = s.below(SHAPES);
    let t = gen_shape(s, cfg, cfg.depth, shape);
    let mut w = vec![S::Bool; NTYPES];
    for (j, x) in w.iter_mut().enumerate() {
        *x = match j % 4 {
            0 => S::Bool,
            1 => S::Unit,
            2 => S::Str { collect: false, take: Take::Own },
            _ => S::Struct(St {
                name: "Other",
                fields: vec![F { name: "a", s: S::U8, dflt: true, skip_none: false }],
                names: intern_list(&["a"]),
                deny: false,
                lazy: false,
            }),
        };
    }
    w[i] = t.clone();
    let w: World = Rc::new(w);
    let v = gen_v(s, &t, &w, 2);
    set_world(w);
    Case { i, s: t, v }
}

/// One family of each representation; the internal one first chosen so that the
/// generated keys can stay clear of its tag.
pub struct Pick {
    pub ext: &'static Ops,
    pub int: &'static Ops,
    pub adj: &'static Ops,
}

pub fn pick(s: &mut Src) -> Pick {
    Pick { ext: EXTS[s.below(EXTS.len())], int: INTS[s.below(INTS.len())], adj: ADJS[s.below(ADJS.len())] }
}

impl Pick {
    pub fn each(&self) -> [&'static Ops; 3] {
        [self.ext, self.int, self.adj]
    }
    pub fn int_tag(&self) -> Name {
        self.int.tag_key().unwrap()
    }
}

/// Whether a value's own top-level keys collide with the tag key.
pub fn collides(d: &Doc, tag: &str) -> bool {
    match d {
        Doc::Newtype(_, x) => collides(x, tag),
        Doc::Struct(_, f) => f.iter().any(|(k, _)| *k == tag),
        Doc::Map(_, m) => m.iter().any(|(k, _)| k.simplify() == Doc::s(tag)),
        Doc::UnitVar(_, _, v) | Doc::NewVar(_, _, v, _) | Doc::TupleVar(_, _, v, _) | Doc::StructVar(_, _, v, _) => {
            *v == tag
        }
        Doc::None | Doc::Unit | Doc::UnitStruct(_) => false,
        _ => tag == "value",
    }
}

/// Whether the type at the root of an internally tagged value asks what kind of
/// format it is in; there the answer is "human readable" in both directions.
pub fn root_hr(t: &S) -> bool {
    matches!(strip_new(t), S::Hr)
}

/// What the concrete value serializes to on its own.
pub fn concrete(k: Kind, c: &Case, hr: bool) -> Result<Doc, String> {
    let hr = hr || matches!(k, Kind::Int { .. }) && root_hr(&c.s);
    crate::fam::direct(c.i).rec(hr, c.i, &c.v)
}

/// The documented form of an object of representation `k`.
pub fn expected(k: Kind, tag: &str, d: &Doc) -> Doc {
    match k {
        Kind::Ext => Doc::map(vec![(Doc::s(tag), d.clone())]),
        Kind::Adj { tag: t, content, .. } => Doc::Struct("", vec![(t, Doc::s(tag)), (content, d.clone())]),
        Kind::Int { tag: t, .. } => internal(t, tag, d),
    }
}

fn internal(t: &str, tag: &str, d: &Doc) -> Doc {
    let head = (Doc::s(t), Doc::s(tag));
    let entry = |k: &str, x: Doc| Doc::map(vec![head.clone(), (Doc::s(k), x)]);
    match d {
        Doc::Newtype(_, x) => internal(t, tag, x),
        Doc::None | Doc::Unit | Doc::UnitStruct(_) => Doc::map(vec![head]),
        Doc::UnitVar(_, _, v) => entry(v, Doc::Unit),
        Doc::NewVar(_, _, v, x) => entry(v, (**x).clone()),
        Doc::TupleVar(_, _, v, x) => entry(v, Doc::Tuple(x.clone())),
        Doc::StructVar(_, _, v, x) => entry(v, Doc::Struct("", x.clone())),
        Doc::Struct(_, f) => {
            let mut m = vec![head];
            m.extend(f.iter().map(|(k, x)| (Doc::s(k), x.clone())));
            Doc::map(m)
        }
        Doc::Map(h, e) => {
            let mut m = vec![head];
            m.extend(e.iter().cloned());
            Doc::Map(h.map(|n| n + 1), m)
        }
        Doc::Some(x) => entry("value", (**x).clone()),
        other => entry("value", other.clone()),
    }
}

pub fn enc_doc(f: Fmt, d: &Doc) -> Result<Enc, String> {
    if f == Fmt::SelfDoc {
        return Ok(Enc::Doc(d.simplify()));
    }
    enc(f, d)
}

pub fn unsized_containers(d: &Doc) -> bool {
    d.any(&mut |x| matches!(x, Doc::Seq(None, _) | Doc::Map(None, _)))
}

/// The family's default variant, by type number.
pub fn default_of(o: &Ops) -> Option<usize> {
    match o.kind.dflt() {
        Dflt::Is(i) => Some(i),
        _ => None,
    }
}

// -------------------------------------------------------------------- damage

/// Any self-describing document (string keys only).
pub fn gen_doc(s: &mut Src, depth: usize) -> Doc {
    match s.below(if depth == 0 { 8 } else { 11 }) {
        0 => Doc::Unit,
        1 => Doc::Bool(s.bool()),
        2 => Doc::U64(s.int(0, i128::from(u64::MAX)) as u64),
        3 => Doc::I64(s.int(i128::from(i64::MIN), -1) as i64),
        4 => Doc::F64(s.f64().to_bits()),
        5 | 6 => Doc::Str(s.string(5)),
        7 => Doc::U64(s.below(4) as u64),
        8 => Doc::seq((0..s.len(4)).map(|_| gen_doc(s, depth - 1)).collect()),
        _ => {
            let mut used = vec![];
            let n = s.len(4);
            Doc::map((0..n).map(|_| (Doc::s(gen_name(s, &mut used, &[])), gen_doc(s, depth - 1))).collect())
        }
    }
}

fn node<'a>(d: &'a mut Doc, n: &mut usize) -> Option<&'a mut Doc> {
    if *n == 0 {
        return Some(d);
    }
    *n -= 1;
    match d {
        Doc::Seq(_, v) => v.iter_mut().find_map(|x| node(x, n)),
        Doc::Map(_, v) => v.iter_mut().find_map(|(_, x)| node(x, n)),
        _ => None,
    }
}

fn values(d: &Doc) -> usize {
    1 + match d {
        Doc::Seq(_, v) => v.iter().map(values).sum(),
        Doc::Map(_, v) => v.iter().map(|(_, x)| values(x)).sum(),
        _ => 0,
    }
}

/// Changes one node of a simplified document. Never repeats a key.
pub fn damage(s: &mut Src, d: &mut Doc) {
    let total = values(d);
    let mut n = s.below(total);
    let Some(x) = node(d, &mut n) else { return };
    match x {
        Doc::Map(h, v) => {
            match s.below(6) {
                0 if !v.is_empty() => {
                    v.remove(s.below(v.len()));
                }
                1 => {
                    let mut used: Vec<Name> = v.iter().filter_map(|(k, _)| if let Doc::Str(k) = k { Some(intern(k)) } else { None }).collect();
                    let k = Doc::s(gen_name(s, &mut used, &[]));
                    let at = s.below(v.len() + 1);
                    let x = gen_doc(s, 1);
                    if !v.iter().any(|(y, _)| *y == k) {
                        v.insert(at, (k, x));
                    }
                }
                2 if v.len() > 1 => {
                    let a = s.below(v.len());
                    let b = s.below(v.len());
                    v.swap(a, b);
                }
                3 if !v.is_empty() => {
                    let a = s.below(v.len());
                    let mut used: Vec<Name> = v.iter().filter_map(|(k, _)| if let Doc::Str(k) = k { Some(intern(k)) } else { None }).collect();
                    if matches!(v[a].0, Doc::Str(_)) {
                        v[a].0 = Doc::s(gen_name(s, &mut used, &[]));
                    }
                }
                4 => {
                    // The values alone, as a sequence.
                    *x = Doc::seq(v.iter().map(|(_, x)| x.clone()).collect());
                    return;
                }
                _ => {
                    *x = if s.bool() { alike(s, x) } else { gen_doc(s, 1) };
                    return;
                }
            }
            *h = Some(v.len());
        }
        Doc::Seq(h, v) => {
            match s.below(5) {
                0 if !v.is_empty() => {
                    v.remove(s.below(v.len()));
                }
                1 => {
                    let at = s.below(v.len() + 1);
                    let x = gen_doc(s, 1);
                    v.insert(at, x);
                }
                2 if v.len() > 1 => {
                    let a = s.below(v.len());
                    let b = s.below(v.len());
                    v.swap(a, b);
                }
                3 if !v.is_empty() => {
                    let a = s.below(v.len());
                    let x = v[a].clone();
                    v.push(x);
                }
                _ => {
                    *x = if s.bool() { alike(s, x) } else { gen_doc(s, 1) };
                    return;
                }
            }
            *h = Some(v.len());
        }
        other => match s.below(7) {
            0 => *other = gen_doc(s, 1),
            5 | 6 => *other = alike(s, other),
            1 => *other = Doc::Unit,
            2 => *other = Doc::seq(vec![other.clone()]),
            3 => {
                let mut used = vec![];
                *other = Doc::map(vec![(Doc::s(gen_name(s, &mut used, &[])), other.clone())]);
            }
            _ => match other {
                Doc::Str(x) if s.chance(1, 3) => *other = Doc::Bytes(x.as_bytes().to_vec()),
                Doc::Str(x) => x.push('x'),
                Doc::Bytes(x) if s.chance(1, 2) => *other = Doc::Str(String::from_utf8_lossy(x).into_owned()),
                Doc::U64(x) => *x = x.wrapping_add(1),
                Doc::U8(x) => *other = Doc::U64(u64::from(*x) + 256),
                _ => *other = gen_doc(s, 0),
            },
        },
    }
}

/// What a careless reader might take for the same.
fn alike(s: &mut Src, d: &Doc) -> Doc {
    let text = |n: i128| Doc::s(&n.to_string());
    let num = |n: i128| match (u64::try_from(n), i64::try_from(n)) {
        (Ok(n), _) => Doc::U64(n),
        (_, Ok(n)) => Doc::I64(n),
        _ => Doc::F64((n as f64).to_bits()),
    };
    let of = |s: &mut Src, n: i128| match s.below(7) {
        0 => text(n),
        1 => Doc::F64((n as f64).to_bits()),
        2 => Doc::Bool(n != 0),
        3 => num(-n),
        4 => num(n ^ (1 << *s.pick(&[7, 8, 15, 16, 31, 32, 63]))),
        5 => char::from_u32(n as u32).map_or(Doc::Unit, |c| Doc::s(&c.to_string())),
        _ => Doc::s(&format!("{n:?}.0")),
    };
    match d {
        Doc::Unit | Doc::None => match s.below(6) {
            0 => Doc::Bool(false),
            1 => Doc::U64(0),
            2 => Doc::s(""),
            3 => Doc::s("null"),
            4 => Doc::seq(vec![]),
            _ => Doc::map(vec![]),
        },
        Doc::Bool(b) => match s.below(4) {
            0 => Doc::s(if *b { "true" } else { "false" }),
            1 => Doc::s(if *b { "1" } else { "0" }),
            2 if !b => Doc::Unit,
            _ => Doc::U64(u64::from(*b)),
        },
        Doc::U8(n) => of(s, i128::from(*n)),
        Doc::U16(n) => of(s, i128::from(*n)),
        Doc::U32(n) => of(s, i128::from(*n)),
        Doc::U64(n) => of(s, i128::from(*n)),
        Doc::I8(n) => of(s, i128::from(*n)),
        Doc::I16(n) => of(s, i128::from(*n)),
        Doc::I32(n) => of(s, i128::from(*n)),
        Doc::I64(n) => of(s, i128::from(*n)),
        Doc::F32(b) => num(f32::from_bits(*b) as i128),
        Doc::F64(b) => match s.below(3) {
            0 => num(f64::from_bits(*b) as i64 as i128),
            1 => Doc::F64(f64::from_bits(*b).round().to_bits()),
            _ => Doc::s(&f64::from_bits(*b).to_string()),
        },
        Doc::Str(x) => match s.below(9) {
            0 => x.parse().map_or(Doc::Unit, num),
            1 => x.parse().map_or(Doc::F64(0), |x: f64| Doc::F64(if x.is_finite() { x.to_bits() } else { 0 })),
            2 => Doc::s(&x.chars().take(1).collect::<String>()),
            3 => Doc::seq(x.bytes().map(Doc::U8).collect()),
            4 => Doc::s(&format!(" {x}")),
            5 => Doc::s(&x.to_uppercase()),
            6 => Doc::U64(u64::from(s.below(3) as u8)),
            // A variant of an enum with a value, or without.
            7 => Doc::map(vec![(Doc::s(x), Doc::Unit)]),
            _ => Doc::map(vec![(Doc::s(x), gen_doc(s, 0))]),
        },
        Doc::Bytes(x) => match s.below(3) {
            0 => Doc::Str(String::from_utf8_lossy(x).into_owned()),
            1 => Doc::seq(x.iter().map(|x| Doc::U8(*x)).collect()),
            _ => Doc::Bytes(x[..x.len() / 2].to_vec()),
        },
        Doc::Char(c) => {
            if s.bool() {
                Doc::s(&c.to_string())
            } else {
                Doc::U32(u32::from(*c))
            }
        }
        Doc::Seq(_, v) => match (s.below(4), v.as_slice()) {
            (0 | 1, [x]) => x.clone(),
            (0, []) => Doc::Unit,
            (1, []) => Doc::map(vec![]),
            (2, _) => Doc::map(v.iter().enumerate().map(|(i, x)| (Doc::s(&i.to_string()), x.clone())).collect()),
            _ => Doc::seq(vec![d.clone()]),
        },
        Doc::Map(_, v) => match (s.below(4), v.as_slice()) {
            (0, [(k, _)]) => k.clone(),
            (1, [(_, x)]) => x.clone(),
            (0, []) => Doc::Unit,
            (1, []) => Doc::seq(vec![]),
            (2, _) => Doc::seq(v.iter().map(|(k, x)| Doc::seq(vec![k.clone(), x.clone()])).collect()),
            _ => Doc::map(vec![(Doc::s("value"), d.clone())]),
        },
        _ => gen_doc(s, 0),
    }
}

/// Wraps or unwraps an option or newtype.
pub fn rewrap(s: &mut Src, d: &mut Doc) {
    let mut n = s.below(values(d));
    let Some(x) = node(d, &mut n) else { return };
    *x = match (s.below(4), x.clone()) {
        (0, Doc::Some(y) | Doc::Newtype(_, y)) => *y,
        (0 | 1, y) => Doc::Some(Box::new(y)),
        (2, y) => Doc::Newtype("New", Box::new(y)),
        _ => Doc::None,
    };
}

pub fn same_got(a: &crate::fam::Got, b: &crate::fam::Got) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x == y,
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

pub fn has_repeats(d: &Doc) -> bool {
    d.any(&mut |x| match x {
        Doc::Map(_, m) => m.iter().enumerate().any(|(i, (k, _))| m[..i].iter().any(|(y, _)| y == k)),
        _ => false,
    })
}

// -------------------------------------------------------- objects in objects

thread_local! {
    /// While set, nested objects serialize to the documented form.
    static IMITATE: Cell<bool> = const { Cell::new(false) };
    /// Choices of where nested tags go, used up from the end; empty: in front.
    static LISTED: Cell<bool> = const { Cell::new(false) };
    static SHUFFLE: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
}

pub fn imitating() -> bool {
    IMITATE.with(|c| c.get())
}

/// The documented form of an object of family `f` with everything in it.
pub fn imitate(f: u8, i: usize, v: &V, hr: bool) -> Result<Doc, String> {
    let o = crate::fam::NEST[f as usize];
    let w = world();
    let hr = hr || matches!(o.kind, Kind::Int { .. }) && root_hr(&w[i]);
    let d = match (strip_new(&w[i]), v) {
        // The known finding: to an object at the root of another every format is human readable.
        (S::Obj(g), V::Obj(k, x))
            if LISTED.with(|c| c.get()) && is_int(o) && is_int(crate::fam::NEST[*g as usize]) =>
        {
            imitate(*g, *k as usize, x, hr || buffered(&w[*k as usize], x))?
        }
        _ => crate::doc::record(&SV(&w[i], v), hr)?,
    };
    if matches!(o.kind, Kind::Int { tag, .. } if collides(&d, tag)) {
        return Err("collides".to_owned());
    }
    Ok(shuffled(expected(o.kind, o.tags[i], &d)))
}

/// Whether the value's elements are collected before they are written.
fn buffered(t: &S, v: &V) -> bool {
    match (strip_new(t), v) {
        (S::Seq(..) | S::Tuple(_) | S::TupleStruct(..), _) => true,
        (S::Enum(_, vars, _), V::Var(i, _)) => matches!(vars[*i as usize].k, VK::Tuple(_) | VK::Struct(_)),
        _ => false,
    }
}

fn shuffled(d: Doc) -> Doc {
    let Some(b) = SHUFFLE.with(|c| c.borrow_mut().pop()) else { return d };
    match d {
        Doc::Map(h, mut m) if m.len() > 1 => {
            let head = m.remove(0);
            m.insert(b as usize % (m.len() + 1), head);
            Doc::Map(h, m)
        }
        Doc::Struct(n, mut f) if b & 1 == 1 => {
            f.swap(0, 1);
            Doc::Struct(n, f)
        }
        d => d,
    }
}

/// The form with the known finding in it.
pub fn listed_imitation(f: u8, i: usize, v: &V, hr: bool) -> Result<Doc, String> {
    LISTED.with(|c| c.set(true));
    let r = imitation(f, i, v, hr, &[]);
    LISTED.with(|c| c.set(false));
    r
}

/// As `imitate`, for the object at the root.
pub fn imitation(f: u8, i: usize, v: &V, hr: bool, shuffle: &[u8]) -> Result<Doc, String> {
    IMITATE.with(|c| c.set(true));
    SHUFFLE.with(|c| *c.borrow_mut() = shuffle.to_vec());
    let r = imitate(f, i, v, hr);
    IMITATE.with(|c| c.set(false));
    SHUFFLE.with(|c| c.borrow_mut().clear());
    r
}

/// The types with every object replaced by a number, and values likewise.
pub fn flat_s(t: &S) -> S {
    let st = |x: &St| St { fields: x.fields.iter().map(|f| F { s: flat_s(&f.s), ..f.clone() }).collect(), ..x.clone() };
    match t {
        S::Obj(_) => S::U8,
        S::Opt(x) => S::Opt(Box::new(flat_s(x))),
        S::New(n, x) => S::New(n, Box::new(flat_s(x))),
        S::Tuple(v) => S::Tuple(v.iter().map(flat_s).collect()),
        S::TupleStruct(n, v) => S::TupleStruct(n, v.iter().map(flat_s).collect()),
        S::Seq(x, h) => S::Seq(Box::new(flat_s(x)), *h),
        S::Map { k, v, hint, split } => {
            S::Map { k: Box::new(flat_s(k)), v: Box::new(flat_s(v)), hint: *hint, split: *split }
        }
        S::Struct(x) => S::Struct(st(x)),
        S::Enum(n, vars, names) => S::Enum(
            n,
            vars.iter()
                .map(|v| Var {
                    name: v.name,
                    k: match &v.k {
                        VK::Unit => VK::Unit,
                        VK::New(x) => VK::New(flat_s(x)),
                        VK::Tuple(v) => VK::Tuple(v.iter().map(flat_s).collect()),
                        VK::Struct(x) => VK::Struct(st(x)),
                    },
                })
                .collect(),
            names,
        ),
        t => t.clone(),
    }
}

pub fn flat_v(v: &V) -> V {
    match v {
        V::Obj(..) => V::Int(7),
        V::Some(x) => V::Some(Box::new(flat_v(x))),
        V::Seq(v) => V::Seq(v.iter().map(flat_v).collect()),
        V::Map(m) => V::Map(m.iter().map(|(k, x)| (flat_v(k), flat_v(x))).collect()),
        V::Var(i, v) => V::Var(*i, v.iter().map(flat_v).collect()),
        v => v.clone(),
    }
}

/// Whether the format round-trips the concrete value as the value of a map.
pub fn concrete_ok(f: Fmt, i: usize, v: &V) -> bool {
    let o = crate::fam::in_map(i);
    match o.enc(f, i, v) {
        Ok(e) => o.dec(f, &e).as_ref() == Ok(&(i, v.clone())),
        Err(_) => false,
    }
}

/// Whether Serde can buffer all values of the type.
pub fn bufferable(t: &S) -> bool {
    !any_s(t, &mut |x| match x {
        S::I128 | S::U128 => true,
        S::Map { k, .. } => !matches!(strip_new(k), S::Str { .. }),
        _ => false,
    })
}
pub fn adapts(t: &S) -> bool {
    any_s(t, &mut |x| matches!(x, S::Hr))
}
pub fn is_int(o: &Ops) -> bool {
    matches!(o.kind, Kind::Int { .. })
}
/// ciborium reads enums from maps of announced length only, and tuples leave the end
/// of a sequence without one unread.
pub fn definite_only(t: &S) -> bool {
    any_s(t, &mut |x| matches!(x, S::Enum(..) | S::Tuple(_) | S::TupleStruct(..)) || matches!(x, S::Zoo(n) if !matches!(n, 0 | 5..=8)))
}
