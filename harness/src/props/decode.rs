//! How documents are read: C07, C08, C10, C11, C12, C16, C24.

use super::wire::shape_name;
use crate::doc::{to_cbor, to_json, CborStyle, Doc, Name};
use crate::fam::*;
use crate::fmts::*;
use crate::oracle::*;
use crate::run::{Cx, Prop, R};
use crate::schema::*;
use crate::selfde::{DeCfg, Strs};
use crate::src::Src;
use std::rc::Rc;

pub const PROPS: &[&Prop] = &[
    &Prop {
        id: "C07",
        rule: "A type, a value and a content document (the value's own, damaged one to four times, or arbitrary) are generated. \
               In JSON, CBOR (definite, indefinite, wide) and a self-describing deserializer with 9 ways to hand out strings, \
               and with mutated content bytes in 4 binary formats, the object of each representation is decoded and compared \
               with what the concrete type's own Deserialize makes of the content part. Non-trivial: content of at least 3 \
               nodes that was compared.",
        max_len: 400,
        quick: 1_200_000,
        thorough: 30_000_000,
        case: content,
        assumptions: A,
        ..Prop::BASE
    },
    &Prop {
        id: "C08",
        rule: "A type, a value (as written, or damaged) and a family are generated; the document is decoded from JSON, CBOR and \
               the self-describing deserializer with the tag at every position (content before or after), and the outcomes \
               compared. Non-trivial: at least 2 positions and 3 content nodes.",
        max_len: 400,
        quick: 1_000_000,
        thorough: 25_000_000,
        case: position,
        assumptions: A,
        ..Prop::BASE
    },
    &Prop {
        id: "C10",
        rule: "A type, a value and a family with a default are generated. The document without tag is compared with the same \
               document with the default's tag (every shape; as written and damaged), the document with a tag with the family \
               without default; dangling defaults and families without default must report it. Non-trivial: content of at \
               least 2 nodes.",
        max_len: 350,
        quick: 1_200_000,
        thorough: 30_000_000,
        case: default,
        assumptions: A,
        ..Prop::BASE
    },
    &Prop {
        id: "C11",
        rule: "A type, a value, an adjacently tagged family and one to four other keys with arbitrary values at arbitrary places \
               are generated; the outcome is compared with the document without them, and in the denying families the \
               rejection must name the key. Non-trivial: two or more other keys, or one between the two.",
        max_len: 400,
        quick: 1_200_000,
        thorough: 30_000_000,
        case: unknown,
        assumptions: A,
        ..Prop::BASE
    },
    &Prop {
        id: "C12",
        rule: "A type, a value and a family are generated and the envelope is broken in one of 20 ways; every format must reject \
               it, with the message the documentation of Serde gives where there is one. The unbroken document must be \
               accepted. Non-trivial: every case (all are broken envelopes of generated objects).",
        max_len: 350,
        quick: 1_500_000,
        thorough: 37_500_000,
        case: malformed,
        assumptions: A,
        ..Prop::BASE
    },
    &Prop {
        id: "C16",
        rule: "A type, a value (as written or damaged), a family and a place for the tag are generated; the document is decoded \
               from str, slice, reader and tree and from a deserializer handing strings and bytes out in 16 ways, and encoded \
               to string, bytes, writer and tree; all outcomes are compared. Non-trivial: the document has at least 4 nodes.",
        max_len: 400,
        quick: 500_000,
        thorough: 12_500_000,
        case: delivery,
        assumptions: A,
        ..Prop::BASE
    },
    #[cfg(feature = "hand")]
    &Prop {
        id: "C24",
        rule: "A type, a value and one of six pairs of trait and hand-written Serde enum are generated; their JSON and CBOR are \
               compared, and a document (as written, damaged, with the tag moved or with other keys) is decoded as both. \
               Non-trivial: the enum accepted a document of at least 4 nodes.",
        max_len: 400,
        quick: 1_200_000,
        thorough: 30_000_000,
        case: hand,
        assumptions: A,
        ..Prop::BASE
    },
];

const A: &[&str] = &[
    "serde and the format crates are correct",
    "types behave like the generated ones: a finite number of shapes, depth at most 3",
];

pub fn show(g: &Got) -> String {
    match g {
        Ok((i, v)) => format!("D{i} {v:?}"),
        Err(e) => format!("error: {e}"),
    }
}

/// A way to give a document to a decoder.
#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Way {
    Json(Fmt),
    Cbor { indefinite: bool, wide: bool },
    Own { strs: Strs, bytes: Strs, narrow: bool },
}

pub const JSON: Way = Way::Json(Fmt::JsonStr);
pub const CBOR: Way = Way::Cbor { indefinite: false, wide: false };
pub const OWN: Way = Way::Own { strs: Strs::Borrowed, bytes: Strs::Borrowed, narrow: false };

impl Way {
    pub fn hr(self) -> bool {
        !matches!(self, Way::Cbor { .. })
    }
    /// The document in this form, if it has one.
    pub fn prepare(self, d: &Doc) -> Option<Enc> {
        match self {
            Way::Json(_) => to_json(d).map(Enc::Text),
            Way::Cbor { indefinite, wide } => to_cbor(d, CborStyle { indefinite, chunked: false, wide }).map(Enc::Bytes),
            Way::Own { .. } => Some(Enc::Doc(d.clone())),
        }
    }
    pub fn decode(self, o: &Ops, e: &Enc) -> Got {
        match self {
            Way::Json(f) => o.dec(f, e),
            Way::Cbor { .. } => o.dec(Fmt::Cbor, e),
            Way::Own { strs, bytes, narrow } => match e {
                Enc::Doc(d) => o.doc(d, &DeCfg { narrow, ..DeCfg::new(strs, bytes) }),
                _ => panic!("harness: not a document"),
            },
        }
    }
    pub fn get(self, o: &Ops, d: &Doc) -> Option<Got> {
        Some(self.decode(o, &self.prepare(d)?))
    }
    pub fn text(self, d: &Doc) -> String {
        self.prepare(d).map_or_else(|| "none".to_owned(), |e| e.show())
    }
}

fn gen_way(s: &mut Src) -> Way {
    const M: [Strs; 4] = [Strs::Borrowed, Strs::Transient, Strs::Owned, Strs::Mixed];
    match s.below(8) {
        0 | 1 => JSON,
        2 => Way::Json(Fmt::JsonSlice),
        3 => Way::Json(Fmt::JsonReader),
        4 | 5 => Way::Cbor { indefinite: s.chance(1, 3), wide: s.chance(1, 4) },
        _ => Way::Own { strs: *s.pick(&M), bytes: *s.pick(&M), narrow: s.bool() },
    }
}

/// Runs something with type `i` of the world replaced.
fn with_type<T>(i: usize, t: &S, f: impl FnOnce() -> T) -> T {
    let w = world();
    let mut v = (*w).clone();
    v[i] = t.clone();
    set_world(Rc::new(v));
    let r = f();
    set_world(w);
    r
}

fn direct_get(way: Way, i: usize, t: &S, d: &Doc) -> Option<Result<V, String>> {
    with_type(i, t, || way.get(crate::fam::direct(i), d).map(|g| g.map(|x| x.1)))
}

/// The entries of an internally tagged object with this content, and how to know
/// what must come of them.
pub struct Entries {
    pub e: Vec<(Doc, Doc)>,
    want: Want,
}
enum Want {
    /// As the type makes of the document; wrapped in `Some`.
    As(S, Doc, bool),
    Err,
    Ok(V),
}

fn entries(s: &mut Src, t: &S, d: &Doc) -> Option<Entries> {
    let odd = |s: &mut Src, mut e: Vec<(Doc, Doc)>| {
        // Not the form the type is read from.
        let mut used = vec!["value"];
        let k = Doc::s(gen_name(s, &mut used, &[]));
        let x = (k, gen_doc(s, 1));
        if e.is_empty() || s.bool() {
            e.push(x);
        } else {
            e[0].0 = x.0;
        }
        Some(Entries { e, want: Want::Err })
    };
    let value = |d: &Doc| vec![(Doc::s("value"), d.clone())];
    match strip_new(t) {
        S::Struct(_) | S::Map { .. } | S::Enum(..) => match d {
            Doc::Map(_, m) => Some(Entries { e: m.clone(), want: Want::As(t.clone(), d.clone(), false) }),
            Doc::Str(v) if matches!(strip_new(t), S::Enum(..)) => {
                let m = vec![(Doc::s(v), Doc::Unit)];
                Some(Entries { e: m.clone(), want: Want::As(t.clone(), Doc::map(m), false) })
            }
            _ => None,
        },
        S::Unit | S::UnitStruct(_) => {
            if s.chance(1, 3) {
                odd(s, vec![])
            } else {
                Some(Entries { e: vec![], want: Want::Ok(V::Unit) })
            }
        }
        S::Opt(x) => match s.below(4) {
            0 => Some(Entries { e: vec![], want: Want::Ok(V::None) }),
            1 => odd(s, value(d)),
            _ => Some(Entries { e: value(d), want: Want::As((**x).clone(), d.clone(), true) }),
        },
        S::Ignored => {
            let e = match (s.below(3), d) {
                (0, _) => vec![],
                (1, Doc::Map(_, m)) => m.clone(),
                (1, _) => vec![(Doc::s("some"), d.clone()), (Doc::s("thing"), Doc::Unit)],
                _ => value(d),
            };
            Some(Entries { e, want: Want::Ok(V::Unit) })
        }
        S::Any | S::Zoo(_) | S::Obj(_) => None,
        t => match s.below(6) {
            0 => odd(s, value(d)),
            1 => Some(Entries { e: vec![], want: Want::Err }),
            _ => Some(Entries { e: value(d), want: Want::As(t.clone(), d.clone(), false) }),
        },
    }
}

impl Entries {
    fn want(&self, way: Way, i: usize) -> Option<Result<V, String>> {
        match &self.want {
            Want::Err => Some(Err("wrong entries".to_owned())),
            Want::Ok(v) => Some(Ok(v.clone())),
            // ciborium wants no null with a unit variant, and sequences for structs in enums only.
            Want::As(t, Doc::Map(_, m), false) if matches!(way, Way::Cbor { .. }) => match strip_new(t) {
                S::Enum(_, vars, _) => {
                    let known = match m.as_slice() {
                        [(k, x)] => vars.iter().position(|v| *k == Doc::s(v.name)).map(|n| (n, x)),
                        _ => None,
                    };
                    let Some((n, x)) = known else { return Some(Err("no variant".to_owned())) };
                    let many = |v| if let V::Seq(v) = v { v } else { panic!("harness: not a sequence") };
                    let r = match &vars[n].k {
                        VK::Unit => direct_get(way, i, &S::Unit, x)?.map(|_| vec![]),
                        VK::New(t) => direct_get(way, i, t, x)?.map(|v| vec![v]),
                        VK::Tuple(v) => direct_get(way, i, &S::Tuple(v.clone()), x)?.map(many),
                        VK::Struct(st) => direct_get(way, i, &S::Struct(st.clone()), x)?.map(many),
                    };
                    Some(r.map(|v| V::Var(n as u32, v)))
                }
                _ => direct_get(way, i, t, &Doc::map(m.clone())),
            },
            Want::As(t, d, some) => {
                direct_get(way, i, t, d).map(|r| r.map(|v| if *some { V::Some(Box::new(v)) } else { v }))
            }
        }
    }
}

/// The content: the value's own form, damaged, or anything.
fn gen_content(s: &mut Src, c: &Case, hr: bool) -> Result<(Doc, bool), String> {
    let mut d = crate::fam::direct(c.i).rec(hr, c.i, &c.v)?.simplify();
    match s.below(6) {
        0 | 1 => return Ok((d, true)),
        5 => d = gen_doc(s, 2),
        n => {
            for _ in 0..n - 1 {
                damage(s, &mut d);
            }
        }
    }
    Ok((d, false))
}

fn agree(cx: &mut Cx, what: &str, c: &Case, want: &Result<V, String>, got: &Got, from: impl FnOnce() -> String) -> R {
    cx.check();
    let ok = match (want, got) {
        (Ok(v), Ok((i, x))) => *i == c.i && v == x,
        (Err(_), Err(_)) => true,
        _ => false,
    };
    cx.class(&format!("{} {}", what, if want.is_ok() { "accepted" } else { "rejected" }));
    if ok {
        return Ok(());
    }
    let want = match want {
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("error: {e}"),
    };
    Err(format!("{what}, type D{} = {:?}\nthe content alone gives {want}\nthe object gives {}\nfrom {}", c.i, c.s, show(got), from()))
}

fn content(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 4) {
        return content_bytes(s, cx);
    }
    let p = pick(s);
    let mut way = gen_way(s);
    // Also with the tag behind, which has the content kept until then.
    let late = s.chance(1, 2);
    let c = if late {
        let avoid = vec![p.int_tag(), p.adj.tag_key().unwrap()];
        { let lazy = s.chance(1, 4); gen_case(s, &Cfg { avoid, hr: false, lazy, ..Cfg::bufferable() }) }
    } else {
        { let lazy = s.chance(1, 4); gen_case(s, &Cfg { avoid: vec![p.int_tag()], bool_keys: false, lazy, ..Cfg::full() }) }
    };
    let (d, own) = gen_content(s, &c, way.hr())?;
    // What ciborium itself does not read from the documents it is made for is no comparison.
    if late && matches!(way, Way::Cbor { .. }) {
        way = if !own || adapts(&c.s) || long(&d) { JSON } else { CBOR };
    }
    let mut compared = false;

    // Externally tagged.
    let tag = |o: &Ops| Doc::s(o.tags[c.i]);
    if let Some(want) = direct_get(way, c.i, &c.s, &d) {
        let x = Doc::map(vec![(tag(p.ext), d.clone())]);
        let got = way.get(p.ext, &x).ok_or("harness: form")?;
        agree(cx, "externally tagged", &c, &want, &got, || way.text(&x))?;

        let Kind::Adj { tag: t, content, .. } = p.adj.kind else { unreachable!() };
        let x = Doc::map(vec![(Doc::s(t), tag(p.adj)), (Doc::s(content), d.clone())]);
        let got = way.get(p.adj, &x).ok_or("harness: form")?;
        agree(cx, "adjacently tagged", &c, &want, &got, || way.text(&x))?;
        if late {
            let y = moved(&x, 1);
            let then = way.get(p.adj, &y).ok_or("harness: form")?;
            if !late_is_fine(cx, way, &c, false, &x, &got, &then) {
                agree(cx, "adjacently tagged, content first", &c, &want, &then, || way.text(&y))?;
            }
            cx.check();
        }

        // ciborium reads no struct from a sequence.
        if !matches!(way, Way::Cbor { .. }) {
            let x = Doc::seq(vec![tag(p.adj), d.clone()]);
            let got = way.get(p.adj, &x).ok_or("harness: form")?;
            agree(cx, "adjacently tagged, as a sequence", &c, &want, &got, || way.text(&x))?;
        }
        compared = true;
    }
    {
        let Kind::Adj { tag: t, .. } = p.adj.kind else { unreachable!() };
        let want = direct_get(OWN, c.i, &c.s, &Doc::Unit).ok_or("harness: form")?;
        // What accepts null is the same everywhere but for types that accept anything.
        if !adapts(&c.s) {
            let x = Doc::map(vec![(Doc::s(t), tag(p.adj))]);
            let got = way.get(p.adj, &x).ok_or("harness: form")?;
            agree(cx, "adjacently tagged, content absent", &c, &want, &got, || way.text(&x))?;
        }
    }
    if root_hr(&c.s) && !way.hr() {
        cx.discard("an adaptive value at the top is human readable");
    } else if matches!(strip_new(&c.s), S::Enum(..)) && matches!(way, Way::Cbor { indefinite: true, .. }) {
        cx.discard("ciborium reads no enum from an indefinite map");
    } else if let Some(e) = entries(s, &c.s, &d) {
        if let Some(want) = e.want(way, c.i) {
            let mut m = vec![(Doc::s(p.int_tag()), tag(p.int))];
            m.extend(e.e.iter().cloned());
            let x = Doc::map(m);
            if let Some(got) = way.get(p.int, &x) {
                agree(cx, "internally tagged", &c, &want, &got, || way.text(&x))?;
                if late && !e.e.is_empty() && !asks_any(&c.s) && !collides(&Doc::map(e.e.clone()), p.int_tag()) {
                    let y = moved(&x, 1 + s.below(e.e.len()));
                    let then = way.get(p.int, &y).ok_or("harness: form")?;
                    if !late_is_fine(cx, way, &c, true, &x, &got, &then) {
                        agree(cx, "internally tagged, tag behind", &c, &want, &then, || way.text(&y))?;
                    }
                    cx.check();
                }
                compared = true;
            }
        }
    }
    cx.class(&format!("shape {}", shape_name(&c.s)));
    if compared && d.count() >= 3 {
        cx.nontrivial(&format!("{:?} {:?} {} {} {way:?}", c.s, d, p.int.name, p.adj.name));
    }
    cx.sample(|| format!("type D{} = {:?}, content {}", c.i, c.s, way.text(&d)));
    Ok(())
}

/// In formats that are not self-describing: any bytes as content.
fn content_bytes(s: &mut Src, cx: &mut Cx) -> R {
    let p = pick(s);
    let c = gen_case(s, &Cfg { avoid: vec![p.int_tag()], any: false, ..Cfg::full() });
    let f = *s.pick(&BINARY);
    let mut b = match crate::fam::direct(c.i).enc(f, c.i, &c.v) {
        Ok(Enc::Bytes(b)) => b,
        _ => vec![],
    };
    for _ in 0..s.below(4) {
        mutate(s, &mut b);
    }
    let want = crate::fam::direct(c.i).prefix(f, &b).map(|(_, v, n)| (v, n));
    let head = |d: &Doc| -> Result<Vec<u8>, String> {
        match enc(f, d)? {
            Enc::Bytes(b) => Ok(b),
            _ => Err("harness: binary".to_owned()),
        }
    };
    // The envelope with a unit as content, which takes no bytes.
    let forms = [
        (p.ext, expected(p.ext.kind, p.ext.tags[c.i], &Doc::Unit)),
        (p.adj, expected(p.adj.kind, p.adj.tags[c.i], &Doc::Unit)),
        (p.int, Doc::map(vec![(Doc::s(p.int_tag()), Doc::s(p.int.tags[c.i])), (Doc::s("value"), Doc::Unit)])),
    ];
    for (o, d) in forms {
        if is_int(o)
            && matches!(
                strip_new(&c.s),
                S::Struct(_) | S::Map { .. } | S::Enum(..) | S::Unit | S::UnitStruct(_) | S::Opt(_) | S::Hr
            )
        {
            continue;
        }
        let mut x = head(&d)?;
        let n0 = x.len();
        x.extend_from_slice(&b);
        let got = o.prefix(f, &x);
        cx.check();
        let ok = match (&want, &got) {
            (Ok((v, n)), Ok((i, y, m))) => *i == c.i && v == y && *m == n0 + *n,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        cx.class(&format!("{f:?} {}", if want.is_ok() { "accepted" } else { "rejected" }));
        if !ok {
            return Err(format!(
                "{} in {f:?}, {}\nthe content alone gives {want:?}\nthe object gives {got:?}\nfrom {} + {}",
                o.name,
                c.show(),
                hex(&x[..n0]),
                hex(&b)
            ));
        }
    }
    if b.len() >= 3 {
        cx.nontrivial(&format!("{:?} {:?} {f:?}", c.s, b));
    }
    cx.sample(|| format!("type D{} = {:?}, content {} in {f:?}", c.i, c.s, hex(&b)));
    Ok(())
}

pub fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    let n = b.len();
    let edge = |s: &mut Src| *s.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff, 0xfb, 0xfe, 0x17, 0x18, 0x60, 0xa0, 0xbf, b'"', b'{', b'}', b',', b':']);
    match s.below(7) {
        0 if n > 0 => {
            let at = s.below(n);
            b[at] ^= 1 << s.below(8);
        }
        1 if n > 0 => {
            let at = s.below(n);
            b[at] = edge(s);
        }
        2 if n > 0 => {
            let at = s.below(n);
            b.truncate(at);
        }
        3 if n > 0 => {
            let at = s.below(n);
            b.remove(at);
        }
        4 => {
            let at = s.below(n + 1);
            let x = edge(s);
            b.insert(at, x);
        }
        5 if n > 1 => {
            let at = s.below(n);
            let len = 1 + s.below((n - at).min(8));
            let part = b[at..at + len].to_vec();
            let to = s.below(n + 1);
            b.splice(to..to, part);
        }
        _ => {
            let x = s.byte();
            b.push(x);
        }
    }
}

// ------------------------------------------------------------------- position

/// Puts the first entry of a map elsewhere.
fn moved(d: &Doc, at: usize) -> Doc {
    let Doc::Map(_, m) = d else { panic!("harness: not a map") };
    let mut m = m.clone();
    let e = m.remove(0);
    m.insert(at.min(m.len()), e);
    Doc::map(m)
}

fn position(s: &mut Src, cx: &mut Cx) -> R {
    let good = s.chance(1, 2);
    let p = pick(s);
    let o = if s.chance(1, 3) { p.adj } else { p.int };
    let key = o.tag_key().unwrap();
    let avoid = vec![key];
    let lent = s.chance(1, 4);
    let cfg = Cfg { hr: s.chance(1, 4), lazy: s.chance(1, 3), lent, avoid, ..Cfg::bufferable() };
    let c = gen_case(s, &cfg);
    let int = is_int(o);
    if int && asks_any(&c.s) {
        cx.discard("a value read through deserialize_any at the top");
        return Ok(());
    }
    const M: [Strs; 4] = [Strs::Borrowed, Strs::Transient, Strs::Owned, Strs::Mixed];
    // What is lent must not depend on the order in which it is asked for.
    let m = if lent { &M[..3] } else { &M[..] };
    let own = Way::Own { strs: *s.pick(m), bytes: *s.pick(m), narrow: s.bool() };
    // Options and newtypes are told apart.
    let typed = s.bool();
    let ways: &[Way] = if adapts(&c.s) || !good { &[JSON, own] } else { &[JSON, CBOR, own] };
    let mut done = 0;
    let mut nodes = 0;
    for way in ways {
        let way = *way;
        let d = concrete(o.kind, &c, way.hr())?;
        if int && collides(&d, key) {
            cx.discard("own key collides with the tag");
            return Ok(());
        }
        let mut x = expected(o.kind, o.tags[c.i], &d);
        let numbered = !good && typed && way == own && s.chance(1, 4);
        x = if numbered {
            let m = match x {
                Doc::Map(_, m) => m,
                Doc::Struct(_, m) => m.into_iter().map(|(k, x)| (Doc::s(k), x)).collect(),
                _ => return Err("harness: not a map".to_owned()),
            };
            let mut f = |i: usize, n: Name| match s.below(4) {
                0 => Doc::U8(i as u8),
                1 => Doc::U64(i as u64),
                2 => Doc::Bytes(n.as_bytes().to_vec()),
                _ => Doc::s(n),
            };
            // Serde reads the tag and the entries beside it by name.
            Doc::map(m.into_iter().map(|(k, x)| (k, x.renamed(&mut f))).collect())
        } else if typed && way == own {
            x.soften()
        } else {
            x.simplify()
        };
        if numbered {
            cx.class("fields and variants by number");
        } else if !good {
            // Anything but the tag may be damaged.
            let Doc::Map(_, m) = &x else { return Err("harness: not a map".to_owned()) };
            let head = m[0].clone();
            let mut rest = if int { Doc::map(m[1..].to_vec()) } else { m[1].1.clone() };
            for _ in 0..1 + s.below(3) {
                if typed && way == own && s.chance(1, 2) {
                    rewrap(s, &mut rest);
                } else {
                    damage(s, &mut rest);
                }
            }
            x = if int {
                let Doc::Map(_, r) = rest else {
                    cx.discard("damaged into something else than entries");
                    return Ok(());
                };
                Doc::map(std::iter::once(head).chain(r).collect())
            } else {
                Doc::map(vec![head, (m[1].0.clone(), rest)])
            };
            if int {
                let Doc::Map(_, m) = &mut x else { unreachable!() };
                // The same key again, which the type may accept or not.
                if m.len() > 1 && s.chance(1, 4) {
                    let again = (m[1 + s.below(m.len() - 1)].0.clone(), gen_doc(s, 1));
                    let at = 1 + s.below(m.len());
                    m.insert(at, again);
                }
                if collides(&Doc::map(m[1..].to_vec()), key) {
                    cx.discard("own key collides with the tag");
                    return Ok(());
                }
            }
        }
        if matches!(way, Way::Cbor { .. }) && long(&x) {
            continue;
        }
        let Some(first) = way.get(o, &x) else { continue };
        let Doc::Map(_, m) = &x else { unreachable!() };
        nodes = nodes.max(x.count());
        for at in 1..m.len() {
            if at > 6 && at + 1 < m.len() {
                continue;
            }
            let y = moved(&x, at);
            let got = way.get(o, &y).ok_or("harness: form")?;
            cx.check();
            done += 1;
            if !late_is_fine(cx, way, &c, int, &x, &first, &got) {
                return Err(format!(
                    "{} tag at {at}, {way:?}, {}\nin front: {}\n  gives {}\nmoved: {}\n  gives {}",
                    o.name,
                    c.show(),
                    way.text(&x),
                    show(&first),
                    way.text(&y),
                    show(&got)
                ));
            }
            if good && first.is_err() && concrete_reads(way, &c) {
                return Err(format!("{} {way:?} rejected: {}\n{}\n{}", o.name, c.show(), way.text(&x), show(&first)));
            }
        }
        cx.class(&format!("{} {}", if int { "internal" } else { "adjacent" }, if first.is_ok() { "accepted" } else { "rejected" }));
    }
    cx.class(&format!("shape {}", shape_name(&c.s)));
    if done >= 2 && nodes >= 5 {
        cx.nontrivial(&format!("{} {:?} {:?} {good} {nodes}", o.name, c.s, c.v));
    }
    cx.sample(|| format!("{} {}", o.name, c.show()));
    Ok(())
}

/// Whether there are strings of which ciborium lends out none.
fn long(d: &Doc) -> bool {
    d.any(&mut |x| matches!(x, Doc::Str(x) if x.len() > 4096))
}

/// Whether an object with its tag behind may be decoded to this, given what comes of
/// it with the tag in front.
fn late_is_fine(cx: &mut Cx, way: Way, c: &Case, int: bool, x: &Doc, first: &Got, got: &Got) -> bool {
    match (first, got) {
        (Ok(a), Ok(b)) => a == b,
        (Err(_), Err(_)) => true,
        // Where Serde itself is more lenient towards what it has buffered.
        (Err(_), Ok(_)) => {
            cx.class("accepted in another place only, as by Serde");
            let Doc::Map(_, m) = x else { return false };
            let want = if int { buffered_entries(way, c, m) } else { Some(loose_get(way, c.i, &c.s, &m[1].1)) };
            // Some formats announce every null as an option, so typetag takes one for a unit.
            x.any(&mut |d| *d == Doc::None) || want == Some(got.clone().map(|x| x.1))
        }
        _ => false,
    }
}

/// What comes of content Serde has buffered.
fn loose_get(way: Way, i: usize, t: &S, d: &Doc) -> Result<V, String> {
    // Serde does not read units from the null ciborium announces as an option.
    let way = if let Way::Cbor { .. } = way { OWN } else { way };
    let d = Doc::map(vec![(Doc::s("c"), d.clone()), (Doc::s("t"), Doc::s("A"))]);
    with_type(i, t, || way.get(crate::fam::loose(i), &d).map_or(Err("no form".to_owned()), |g| g.map(|x| x.1)))
}

/// The same for the entries of an internally tagged object.
fn buffered_entries(way: Way, c: &Case, m: &[(Doc, Doc)]) -> Option<Result<V, String>> {
    let rest = &m[1..];
    let value = match rest {
        [(k, x)] if *k == Doc::s("value") => Some(x),
        _ => None,
    };
    Some(match strip_new(&c.s) {
        S::Struct(_) | S::Map { .. } | S::Enum(..) => loose_get(way, c.i, &c.s, &Doc::map(rest.to_vec())),
        S::Zoo(n) if crate::zoo::has_entries(*n) => loose_get(way, c.i, &c.s, &Doc::map(rest.to_vec())),
        S::Opt(t) => loose_get(way, c.i, t, value?).map(|v| V::Some(Box::new(v))),
        t => loose_get(way, c.i, t, value?),
    })
}

/// Whether the concrete value's own form is read back.
fn concrete_reads(way: Way, c: &Case) -> bool {
    let Ok(d) = crate::fam::direct(c.i).rec(way.hr(), c.i, &c.v) else { return false };
    direct_get(way, c.i, &c.s, &d.simplify()) == Some(Ok(c.v.clone()))
}

// -------------------------------------------------------------------- default

fn default(s: &mut Src, cx: &mut Cx) -> R {
    let (o, plain) = DEFAULTED[s.below(DEFAULTED.len())];
    let key = o.tag_key().unwrap();
    let int = is_int(o);
    let cfg = Cfg { avoid: vec![key], hr: false, ..Cfg::bufferable() };
    let mut c = gen_case(s, &cfg);
    if int && asks_any(&c.s) {
        cx.discard("a value read through deserialize_any at the top");
        return Ok(());
    }
    // Half the time the generated type is the default.
    let dflt = default_of(o);
    if let (Some(j), true) = (dflt, s.chance(2, 3)) {
        let mut w = (*world()).clone();
        w.swap(c.i, j);
        c.i = j;
        set_world(Rc::new(w));
    }
    let way = [JSON, CBOR, OWN][s.below(3)];
    let d = concrete(o.kind, &c, way.hr())?;
    if int && collides(&d, key) {
        cx.discard("own key collides with the tag");
        return Ok(());
    }
    let good = s.chance(1, 2);
    let full = expected(o.kind, o.tags[c.i], &d).simplify();
    let Doc::Map(_, m) = full.clone() else { return Err("harness: not a map".to_owned()) };
    let mut rest: Vec<(Doc, Doc)> = m[1..].to_vec();
    if !good {
        let mut x = if int { Doc::map(rest.clone()) } else { rest[0].1.clone() };
        for _ in 0..1 + s.below(2) {
            damage(s, &mut x);
        }
        rest = if int {
            let Doc::Map(_, r) = x else {
                cx.discard("damaged into something else than entries");
                return Ok(());
            };
            r
        } else {
            vec![(rest[0].0.clone(), x)]
        };
        if !int && s.chance(1, 3) {
            // Another key, ignored or denied alike.
            rest.insert(s.below(2), (Doc::s("other"), gen_doc(s, 1)));
        }
        if rest.iter().any(|(k, _)| *k == Doc::s(key)) {
            cx.discard("own key collides with the tag");
            return Ok(());
        }
    }
    let bare = Doc::map(rest.clone());
    let tagged = |tag: Doc, at: usize| {
        let mut m = rest.clone();
        m.insert(at.min(m.len()), (Doc::s(key), tag));
        Doc::map(m)
    };
    let ctx = |x: &Doc, g: &Got| format!("{} {way:?} {}\n{}\n  gives {}", o.name, c.show(), way.text(x), show(g));
    let Some(got) = way.get(o, &bare) else {
        cx.discard("no such document in the format");
        return Ok(());
    };
    cx.check();
    match o.kind.dflt() {
        Dflt::Is(j) => {
            // The tag at the end, so that content is treated alike.
            let x = tagged(Doc::s(o.tags[j]), rest.len());
            let want = way.get(o, &x).ok_or("harness: form")?;
            if !same_got(&want, &got) || matches!(&got, Ok((i, _)) if *i != j) {
                return Err(format!("the default differs\nwithout tag: {}\nwith: {}", ctx(&bare, &got), ctx(&x, &want)));
            }
            if good && c.i == j && got != Ok((j, c.v.clone())) && concrete_reads(way, &c) {
                return Err(format!("the default is not read\n{}", ctx(&bare, &got)));
            }
            cx.class(&format!("default {} {}", if int { "internal" } else { "adjacent" }, if got.is_ok() { "accepted" } else { "rejected" }));
        }
        Dflt::Dangling(n) => {
            let e = got.as_ref().err().cloned().unwrap_or_default();
            let denied = matches!(o.kind, Kind::Adj { deny: true, .. }) && rest.len() > 1;
            if got.is_ok() || !denied && !e.contains(&format!("unknown variant `{n}`")) {
                return Err(format!("a default that names nothing\n{}", ctx(&bare, &got)));
            }
            cx.class("dangling default");
        }
        Dflt::No => {}
    }
    // Without default.
    let e = way.get(plain, &bare).ok_or("harness: form")?;
    cx.check();
    let denied = matches!(plain.kind, Kind::Adj { deny: true, .. }) && rest.len() > 1;
    match &e {
        Err(e) if denied || e.contains(&format!("missing field `{key}`")) || e.replace('\\', "").contains(&format!("missing field `{key}`")) => {}
        g => return Err(format!("{} accepts or misreports a missing tag\n{}", plain.name, ctx(&bare, g))),
    }
    // With a tag there is no default.
    for at in [0, rest.len()] {
        let tag = match s.below(6) {
            0 => Doc::s(o.tags[s.below(NTYPES)]),
            1 => Doc::s("Unknown"),
            // Nor when the tag is no tag at all, or nearly one.
            2 => match s.below(7) {
                0 => Doc::Unit,
                1 => Doc::Bool(s.bool()),
                2 => Doc::U64(s.below(9) as u64),
                3 => Doc::F64(s.f64().to_bits()),
                4 => Doc::seq((0..s.below(2)).map(|_| Doc::s(o.tags[c.i])).collect()),
                5 => Doc::map(vec![]),
                _ => Doc::None,
            },
            3 => {
                let x = o.tags[s.below(NTYPES)];
                Doc::s(&nearly(s, x))
            }
            4 => Doc::s(""),
            _ => Doc::s(o.tags[c.i]),
        };
        let x = tagged(tag.clone(), at);
        let Some(a) = way.get(o, &x) else { continue };
        let b = way.get(plain, &x).ok_or("harness: form")?;
        cx.check();
        // Errors may name the trait; both are called T.
        if !same_got(&a, &b) {
            return Err(format!("a tag is given, yet the default matters\n{}\nwithout default\n{}", ctx(&x, &a), ctx(&x, &b)));
        }
        let known = matches!(&tag, Doc::Str(t) if o.tags.contains(&&**t));
        if a.is_ok() && !known {
            return Err(format!("not a known tag\n{}", ctx(&x, &a)));
        }
        if tag == Doc::s("Unknown") && !(denied || a.as_ref().unwrap_err().contains("Unknown")) {
            return Err(format!("an unknown tag\n{}", ctx(&x, &a)));
        }
        cx.class(if known { "known tag" } else if let Doc::Str(_) = tag { "unknown tag" } else { "tag not a string" });
    }
    // An empty map in a format that is not self-describing.
    if let (true, Some(j)) = (int, dflt) {
        if matches!(strip_new(&world()[j]), S::Unit | S::UnitStruct(_) | S::Opt(_)) {
            for f in BINARY {
                let b = enc(f, &Doc::map(vec![]))?;
                let want = match strip_new(&world()[j]) {
                    S::Opt(_) => V::None,
                    _ => V::Unit,
                };
                let got = o.dec(f, &b);
                cx.check();
                if got.as_ref() != Ok(&(j, want)) {
                    return Err(format!("{} default from an empty map in {f:?}: {}", o.name, show(&got)));
                }
            }
        }
    }
    // Serialization writes the tag, also the default's.
    if dflt == Some(c.i) {
        let got = o.rec(true, c.i, &c.v)?.simplify();
        cx.check();
        let has = matches!(&got, Doc::Map(_, m) if m.first() == Some(&(Doc::s(key), Doc::s(o.tags[c.i]))));
        if !has {
            return Err(format!("{} does not write the default's tag: {got:?}", o.name));
        }
    }
    cx.class(&format!("shape {}", shape_name(&c.s)));
    if bare.count() >= 3 {
        cx.nontrivial(&format!("{} {:?} {bare:?}", o.name, c.s));
    }
    cx.sample(|| format!("{} {}: {}", o.name, c.show(), way.text(&bare)));
    Ok(())
}

// --------------------------------------------------------------- unknown keys

fn similar(s: &mut Src, t: &str, c: &str) -> String {
    let x = if s.bool() { t } else { c };
    match s.below(12) {
        0 => String::new(),
        1 => format!("{t}{c}"),
        2 => s.string(5),
        _ => nearly(s, x),
    }
}

fn unknown(s: &mut Src, cx: &mut Cx) -> R {
    let (o, deny) = if s.bool() {
        let (a, b) = DENIED[s.below(DENIED.len())];
        (a, Some(b))
    } else {
        ([&adj::OPS, &adjr::OPS, &adjd::OPS][s.below(3)], None)
    };
    let Kind::Adj { tag, content, .. } = o.kind else { unreachable!() };
    let way = gen_way(s);
    let first = s.bool();
    // What comes after the tag is not buffered, so anything goes.
    let lazy = s.chance(1, 4);
    let c = gen_case(s, &if first { Cfg { bool_keys: false, ..Cfg::full() } } else { Cfg { hr: way.hr(), lazy, ..Cfg::bufferable() } });
    let d = crate::fam::direct(c.i).rec(way.hr(), c.i, &c.v)?.simplify();
    let mut base = vec![(Doc::s(tag), Doc::s(o.tags[c.i])), (Doc::s(content), d)];
    match s.below(8) {
        0 => base[1].1 = Doc::Unit,
        1 => {
            base.truncate(1);
        }
        2 => damage(s, &mut base[1].1),
        _ => {}
    }
    if !first && base.len() == 2 {
        base.swap(0, 1);
    }
    let n = 1 + s.below(4);
    let mut m = base.clone();
    let mut keys = vec![];
    let mut between = false;
    for _ in 0..n {
        let k = if s.bool() {
            similar(s, tag, content)
        } else {
            let mut used = vec![tag, content];
            gen_name(s, &mut used, &[]).to_owned()
        };
        // ciborium does not read longer strings on demand.
        if k == tag || k == content || keys.contains(&k) || k.len() > 4096 && matches!(way, Way::Cbor { .. }) {
            continue;
        }
        let mut x = gen_doc(s, 2);
        if s.chance(1, 8) {
            // What cannot be buffered can be ignored.
            x = match (s.below(2), way) {
                (0, Way::Own { .. } | Way::Cbor { .. }) => Doc::map(vec![(Doc::U8(1), x), (Doc::seq(vec![]), Doc::Unit)]),
                (_, Way::Own { .. }) => Doc::I128(i128::MIN),
                _ => x,
            };
        }
        let at = s.below(m.len() + 1);
        between |= at > 0 && at < m.len();
        m.insert(at, (Doc::s(&k), x));
        keys.push(k);
    }
    if keys.is_empty() {
        return Ok(());
    }
    let (a, b) = (Doc::map(base), Doc::map(m));
    let (Some(want), Some(got)) = (way.get(o, &a), way.get(o, &b)) else {
        cx.discard("no such document in the format");
        return Ok(());
    };
    cx.check();
    let ctx = || format!("{way:?} {}\nwithout {}\nwith {}", c.show(), way.text(&a), way.text(&b));
    if !same_got(&want, &got) {
        return Err(format!("{}: other keys change the result\n{}\n{}\n{}", o.name, ctx(), show(&want), show(&got)));
    }
    cx.class(&format!("ignored, {}", if want.is_ok() { "accepted" } else { "rejected" }));
    if let Some(deny) = deny {
        let x = way.get(deny, &a).ok_or("harness: form")?;
        cx.check();
        if !same_got(&want, &x) {
            return Err(format!("{}: denying changes the result of a document without other keys\n{}\n{}\n{}", deny.name, ctx(), show(&want), show(&x)));
        }
        let x = way.get(deny, &b).ok_or("harness: form")?;
        cx.check();
        let Err(e) = &x else {
            return Err(format!("{}: other keys are not denied\n{}\n{}", deny.name, ctx(), show(&x)));
        };
        // The key is named unless something else was wrong before it.
        if want.is_ok() {
            let flat = |x: &str| format!("{x:?}").replace(['\\', '"'], "");
            let e = flat(e);
            if !keys.iter().any(|k| e.contains(&flat(k)) && e.contains("unknown field")) {
                return Err(format!("{}: the error {e} names no other key\n{}", deny.name, ctx()));
            }
            cx.class("denied and named");
        }
    }
    cx.class(&format!("other keys: {}", keys.len()));
    if keys.len() > 1 || between {
        cx.nontrivial(&format!("{} {:?} {b:?} {way:?}", o.name, c.s));
    }
    cx.sample(|| format!("{} {}", o.name, way.text(&b)));
    Ok(())
}

// ------------------------------------------------------------------ malformed

fn not_str(s: &mut Src) -> Doc {
    match gen_doc(s, 1) {
        Doc::Str(x) => match s.below(3) {
            0 => Doc::seq(vec![Doc::Str(x)]),
            1 => Doc::map(vec![(Doc::Str(x), Doc::Unit)]),
            _ => Doc::U64(0),
        },
        d => d,
    }
}

fn malformed(s: &mut Src, cx: &mut Cx) -> R {
    let p = pick(s);
    let way = gen_way(s);
    let kind = s.below(3);
    let o = p.each()[kind];
    let int = is_int(o);
    let lazy = s.chance(1, 4);
    let c = gen_case(s, &Cfg { avoid: o.tag_key().into_iter().collect(), hr: way.hr(), lazy, ..Cfg::bufferable() });
    if int && asks_any(&c.s) {
        cx.discard("a value read through deserialize_any at the top");
        return Ok(());
    }
    let d = concrete(o.kind, &c, way.hr())?;
    if int && collides(&d, o.tag_key().unwrap()) {
        cx.discard("own key collides with the tag");
        return Ok(());
    }
    let good = expected(o.kind, o.tags[c.i], &d).simplify();
    let Doc::Map(_, m) = good.clone() else { unreachable!() };
    let scalar = |s: &mut Src| match s.below(5) {
        0 => Doc::s(o.tags[c.i]),
        1 => Doc::Unit,
        2 => Doc::U64(s.below(20) as u64),
        3 => Doc::Bool(true),
        _ => Doc::F64(1.5f64.to_bits()),
    };
    // The message, when it is a standard one.
    let (what, bad, say): (&str, Doc, Option<String>) = match o.kind {
        Kind::Ext => match s.below(6) {
            0 => ("empty map", Doc::map(vec![]), None),
            1 => {
                let mut x = m.clone();
                let k = match s.below(3) {
                    0 => o.tags[c.i].to_owned(),
                    1 => o.tags[s.below(NTYPES)].to_owned(),
                    _ => s.string(4),
                };
                let v = if s.bool() { x[0].1.clone() } else { gen_doc(s, 1) };
                x.push((Doc::s(&k), v));
                ("second entry", Doc::map(x), None)
            }
            2 => ("sequence", Doc::seq(vec![m[0].0.clone(), m[0].1.clone()]), None),
            3 => ("sequence of one", Doc::seq(vec![good.clone()]), None),
            4 => ("tag alone", Doc::s(o.tags[c.i]), None),
            _ => ("scalar", scalar(s), None),
        },
        Kind::Int { tag, dflt } => match s.below(6) {
            0 if matches!(dflt, Dflt::No) => ("tag missing", Doc::map(m[1..].to_vec()), Some(format!("missing field `{tag}`"))),
            1 | 0 => {
                let mut x = m.clone();
                x[0].1 = not_str(s);
                let at = if s.bool() { 0 } else { s.below(m.len()) };
                ("tag is no string", moved(&Doc::map(x), at), None)
            }
            2 => ("sequence", Doc::seq(m.iter().map(|x| x.1.clone()).collect()), None),
            3 => ("sequence of one", Doc::seq(vec![good.clone()]), None),
            4 => ("tag alone", Doc::s(o.tags[c.i]), None),
            _ => ("scalar", scalar(s), None),
        },
        Kind::Adj { tag, content, dflt, deny } => {
            let (t, ct) = (m[0].clone(), m[1].clone());
            let other = |s: &mut Src, x: &mut Vec<(Doc, Doc)>| {
                if !deny && s.chance(1, 4) {
                    x.insert(s.below(x.len() + 1), (Doc::s("some other key"), gen_doc(s, 1)));
                }
            };
            match s.below(13) {
                0 if matches!(dflt, Dflt::No) => {
                    let mut x = vec![ct];
                    other(s, &mut x);
                    ("tag missing", Doc::map(x), Some(format!("missing field `{tag}`")))
                }
                1 if matches!(dflt, Dflt::No) => {
                    let mut x = vec![];
                    other(s, &mut x);
                    ("both missing", Doc::map(x), Some(format!("missing field `{tag}`")))
                }
                2 | 0 | 1 => {
                    let mut x = vec![(t.0, not_str(s)), ct];
                    if s.bool() {
                        x.swap(0, 1);
                    }
                    ("tag is no string", Doc::map(x), None)
                }
                3 | 4 => {
                    let t2 = if s.bool() { t.clone() } else { (t.0.clone(), Doc::s(o.tags[s.below(NTYPES)])) };
                    let mut x = vec![t.clone(), ct];
                    if s.bool() {
                        x.swap(0, 1);
                    }
                    x.insert(s.below(3), t2.clone());
                    other(s, &mut x);
                    // Decided by keys alone when everything read before is fine.
                    let say = (t2 == t).then(|| format!("duplicate field `{tag}`"));
                    ("tag twice", Doc::map(x), say)
                }
                5 | 6 => {
                    let c2 = if s.bool() { ct.clone() } else { (ct.0.clone(), gen_doc(s, 1)) };
                    let mut x = vec![t, ct];
                    if s.bool() {
                        x.swap(0, 1);
                    }
                    x.push(c2);
                    other(s, &mut x);
                    ("content twice", Doc::map(x), Some(format!("duplicate field `{content}`")))
                }
                7 => {
                    if direct_get(OWN, c.i, &c.s, &Doc::Unit).ok_or("harness: form")?.is_ok() {
                        cx.discard("the type accepts null");
                        return Ok(());
                    }
                    let mut x = vec![t];
                    other(s, &mut x);
                    ("content missing", Doc::map(x), None)
                }
                8 => ("empty sequence", Doc::seq(vec![]), None),
                9 => ("sequence of one", Doc::seq(vec![t.1]), None),
                10 => {
                    let mut x = vec![t.1, ct.1];
                    for _ in 0..1 + s.below(2) {
                        x.push(gen_doc(s, 1));
                    }
                    ("sequence of more than two", Doc::seq(x), None)
                }
                11 => ("sequence, content first", Doc::seq(vec![not_str(s), t.1]), None),
                _ => ("scalar", scalar(s), None),
            }
        }
    };
    let (Some(g), Some(b)) = (way.get(o, &good), way.get(o, &bad)) else {
        cx.discard("no such document in the format");
        return Ok(());
    };
    cx.check();
    if let Ok((i, v)) = &b {
        return Err(format!("{} {way:?} {what} is accepted as D{i} {v:?}\n{}\nfrom {}", o.name, c.show(), way.text(&bad)));
    }
    if let (Some(say), Err(e), Ok(_)) = (&say, &b, &g) {
        let flat = |x: &str| format!("{x:?}").replace(['\\', '"'], "");
        if !flat(e).contains(&flat(say)) {
            return Err(format!("{} {way:?} {what}: the error {e:?} does not say {say}\n{}\nfrom {}", o.name, c.show(), way.text(&bad)));
        }
    }
    cx.class(&format!("{} {what}", ["ext", "int", "adj"][kind]));
    cx.class(&format!("the unbroken document is {}", if g.is_ok() { "accepted" } else { "rejected" }));
    // Announced numbers of entries in binary formats.
    if kind == 0 {
        let f = *s.pick(&BINARY);
        for n in [0usize, 2] {
            let one = Doc::map(vec![(Doc::s(o.tags[c.i]), Doc::U8(0)); n]);
            with_type(c.i, &S::U8, || {
                let e = enc(f, &one)?;
                cx.check();
                match o.dec(f, &e) {
                    Ok((i, v)) => Err(format!("ext in {f:?}: a map of {n} entries is accepted as D{i} {v:?}: {}", e.show())),
                    Err(_) => Ok(()),
                }
            })?;
        }
    }
    cx.nontrivial(&format!("{} {bad:?} {way:?}", o.name));
    cx.sample(|| format!("{} {what}: {} gives {}", o.name, way.text(&bad), show(&b)));
    Ok(())
}

// ------------------------------------------------------------------- delivery

fn delivery(s: &mut Src, cx: &mut Cx) -> R {
    let p = pick(s);
    let o = p.each()[s.below(3)];
    let int = is_int(o);
    let lazy = s.chance(1, 4);
    let c = gen_case(s, &Cfg { avoid: o.tag_key().into_iter().collect(), hr: true, lazy, ..Cfg::bufferable() });
    if int && asks_any(&c.s) {
        cx.discard("a value read through deserialize_any at the top");
        return Ok(());
    }
    let d = concrete(o.kind, &c, true)?;
    if int && collides(&d, o.tag_key().unwrap()) {
        cx.discard("own key collides with the tag");
        return Ok(());
    }
    let shape = expected(o.kind, o.tags[c.i], &d);
    let mut x = shape.simplify();
    let mut good = true;
    if s.chance(1, 2) {
        let Doc::Map(_, m) = &x else { unreachable!() };
        x = moved(&x, s.below(m.len()));
    }
    if s.chance(1, 3) {
        good = false;
        for _ in 0..1 + s.below(2) {
            damage(s, &mut x);
        }
    }
    let ctx = |x: &Doc| format!("{} {}\nfrom {}", o.name, c.show(), JSON.text(x));
    let outcome = |g: &Got| match g {
        Ok((i, v)) => format!("D{i} {v:?}"),
        Err(_) => "rejected".to_owned(),
    };
    // Text.
    if let Some(t) = to_json(&x) {
        let e = Enc::Text(t);
        let base = o.dec(Fmt::JsonStr, &e);
        for f in [Fmt::JsonSlice, Fmt::JsonReader] {
            let got = o.dec(f, &e);
            cx.check();
            if outcome(&got) != outcome(&base) {
                return Err(format!("{f:?} differs\n{}\nas str {}\notherwise {}", ctx(&x), show(&base), show(&got)));
            }
        }
        let a = o.dec(Fmt::JsonValue, &e);
        let b = o.dec(Fmt::JsonValueRef, &e);
        cx.check();
        if outcome(&a) != outcome(&b) {
            return Err(format!("an owned and a borrowed tree differ\n{}\n{}\n{}", ctx(&x), show(&a), show(&b)));
        }
        // A tree may reorder entries, and floats were narrowed before.
        if good && crate::fam::direct(c.i).dec(Fmt::JsonValue, &Enc::Text(to_json(&d.simplify()).unwrap_or_default())) == Ok((c.i, c.v.clone())) {
            cx.check();
            ignore_order(true);
            let same = a.as_ref().ok() == base.as_ref().ok();
            ignore_order(false);
            if !same {
                return Err(format!("a tree differs\n{}\nas str {}\nas tree {}", ctx(&x), show(&base), show(&a)));
            }
            cx.class("as a tree");
        }
        cx.class(&format!("text {}", if base.is_ok() { "accepted" } else { "rejected" }));
    }
    // Ways of handing out strings.
    let base = OWN.get(o, &x).ok_or("harness: form")?;
    const M: [Strs; 4] = [Strs::Borrowed, Strs::Transient, Strs::Owned, Strs::Mixed];
    for (n, st) in M.iter().enumerate() {
        for (k, by) in M.iter().enumerate() {
            let way = Way::Own { strs: *st, bytes: *by, narrow: (n + k) % 2 == 1 };
            let got = way.get(o, &x).ok_or("harness: form")?;
            cx.check();
            if outcome(&got) != outcome(&base) {
                return Err(format!("{way:?} differs\n{} {x:?}\nborrowed {}\notherwise {}", ctx(&x), show(&base), show(&got)));
            }
        }
    }
    cx.class(&format!("strings {}", if base.is_ok() { "accepted" } else { "rejected" }));
    // Output.
    for f in [Fmt::JsonStr, Fmt::JsonReader, Fmt::Cbor, Fmt::Bincode, Fmt::BincodeVar, Fmt::Postcard] {
        let ser = o.ser.as_ref().unwrap();
        let mut w = vec![];
        let b = (ser.writer)(f, c.i, &c.v, &mut w);
        let a = o.enc(f, c.i, &c.v);
        cx.check();
        let same = match (&a, &b) {
            (Ok(Enc::Bytes(a)), Ok(())) => *a == w,
            (Ok(Enc::Text(a)), Ok(())) if f == Fmt::JsonStr => a.as_bytes() == w,
            (Ok(Enc::Text(_)), Ok(())) => true,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !same {
            return Err(format!("{} {f:?}: a writer gets something else\n{}\n{a:?}\n{}", o.name, c.show(), hex(&w)));
        }
    }
    if let (Ok(Enc::Text(t)), Ok(Enc::Bytes(b))) = (o.enc(Fmt::JsonStr, c.i, &c.v), o.enc(Fmt::JsonSlice, c.i, &c.v)) {
        cx.check();
        if t.as_bytes() != b {
            return Err(format!("{}: string and bytes differ\n{}", o.name, c.show()));
        }
    }
    let a = enc_doc(Fmt::JsonValue, &shape);
    let b = o.enc(Fmt::JsonValue, c.i, &c.v);
    cx.check();
    if a.is_ok() != b.is_ok() || a.is_ok() && a != b {
        return Err(format!("{}: the tree differs\n{}\n{a:?}\n{b:?}", o.name, c.show()));
    }
    if x.count() >= 4 {
        cx.nontrivial(&format!("{} {:?} {x:?}", o.name, c.s));
    }
    cx.sample(|| format!("{} {} gives {}", o.name, JSON.text(&x), show(&base)));
    Ok(())
}

// ---------------------------------------------------------- hand-written enum

#[cfg(feature = "hand")]
fn hand(s: &mut Src, cx: &mut Cx) -> R {
    let (o, h) = HAND[s.below(HAND.len())];
    let int = is_int(o);
    let lazy = s.chance(1, 4);
    let c = gen_case(s, &Cfg { avoid: o.tag_key().into_iter().collect(), bool_keys: false, lazy, ..Cfg::full() });
    let d = concrete(o.kind, &c, true)?;
    if int && collides(&d, o.tag_key().unwrap()) {
        cx.discard("own key collides with the tag");
        return Ok(());
    }
    for f in [Fmt::JsonStr, Fmt::JsonValue, Fmt::Cbor] {
        if let Ok(a) = h.enc(f, c.i, &c.v) {
            // What Serde has gathered takes every format for a human-readable one.
            if !f.human_readable() && adapts(&c.s) && int {
                continue;
            }
            let b = o.enc(f, c.i, &c.v);
            cx.check();
            cx.class(&format!("{f:?} written"));
            // Serde gathers the elements of some, typetag of others: lengths may be filled in.
            let same = match &b {
                Ok(b) if *b == a => true,
                Ok(b) => {
                    f == Fmt::Cbor
                        && unsized_containers(&d)
                        && o.dec(f, b) == h.dec(f, &a)
                        && plain_cbor(b) == plain_cbor(&a)
                }
                Err(_) => false,
            };
            if !same {
                return Err(format!(
                    "{} {f:?} {}\nthe enum writes {}\nthe trait {}",
                    o.name,
                    c.show(),
                    a.show(),
                    b.map_or_else(|e| format!("error: {e}"), |b| b.show())
                ));
            }
        } else {
            cx.class("the enum cannot be written");
        }
    }
    let mut way = gen_way(s);
    if let Way::Own { .. } = way {
        way = JSON;
    }
    let d = crate::fam::direct(c.i).rec(way.hr(), c.i, &c.v)?;
    let mut x = expected(o.kind, o.tags[c.i], &d).simplify();
    let how = s.below(4);
    if how >= 2 {
        for _ in 0..how - 1 {
            damage(s, &mut x);
        }
    }
    if let Doc::Map(_, m) = &x {
        if o.kind != Kind::Ext && !m.is_empty() && s.bool() {
            x = moved(&x, s.below(m.len()));
        }
    }
    if let (Doc::Map(_, m), Kind::Adj { .. }) = (&mut x, o.kind) {
        if s.chance(1, 4) {
            m.insert(s.below(m.len() + 1), (Doc::s("some other key"), gen_doc(s, 1)));
            x = Doc::map(m.clone());
        } else if s.chance(1, 6) {
            x = Doc::seq(m.iter().map(|x| x.1.clone()).collect());
        }
    }
    if has_repeats(&x) {
        cx.discard("repeated keys");
        return Ok(());
    }
    if h.rec(true, c.i, &c.v).is_err() {
        cx.discard("the enum cannot be written");
        return Ok(());
    }
    if int && matches!(x, Doc::Seq(..)) {
        cx.discard("an internally tagged enum given as a sequence");
        return Ok(());
    }
    let tag = match (&x, o.tag_key()) {
        (Doc::Map(_, m), Some(key)) => m.iter().find(|(k, _)| *k == Doc::s(key)).map(|x| &x.1),
        (Doc::Seq(_, v), Some(_)) => v.first(),
        _ => None,
    };
    if tag.is_some_and(|t| !matches!(t, Doc::Str(_))) {
        cx.discard("a tag that is no string");
        return Ok(());
    }
    if let (true, Doc::Map(_, m), Some(key)) = (int, &x, o.tag_key()) {
        let head = m.iter().take_while(|(k, _)| *k != Doc::s(key)).any(|(k, _)| !matches!(k, Doc::Str(_)));
        if head {
            cx.discard("keys other than strings before the tag");
            return Ok(());
        }
    }
    if let (true, Way::Cbor { .. }, S::Enum(_, vars, _), Doc::Map(_, m)) = (int, way, strip_new(&c.s), &x) {
        let odd = |(k, d): &(Doc, Doc)| {
            matches!(d, Doc::Seq(..)) && vars.iter().any(|v| matches!(v.k, VK::Struct(_)) && *k == Doc::s(v.name))
        };
        if m.iter().any(odd) {
            cx.discard("ciborium reads structs from sequences in enums only");
            return Ok(());
        }
    }
    let Some(want) = way.get(h, &x) else {
        cx.discard("no such document in the format");
        return Ok(());
    };
    cx.class(&format!("read, {}", if want.is_ok() { "accepted" } else { "rejected" }));
    if let Ok((i, v)) = &want {
        let got = way.get(o, &x).ok_or("harness: form")?;
        cx.check();
        if got.as_ref() != Ok(&(*i, v.clone())) {
            // Serde buffers where typetag need not, and is more lenient towards what it has buffered.
            if lenient(o, *i, v, way, &x) {
                cx.class("accepted by the enum only for being buffered");
                return Ok(());
            }
            return Err(format!(
                "{} {way:?} {}\nfrom {}\nthe enum gives {}\nthe trait {}",
                o.name,
                c.show(),
                way.text(&x),
                show(&want),
                show(&got)
            ));
        }
        if x.count() >= 4 {
            cx.nontrivial(&format!("{} {:?} {x:?} {way:?}", o.name, c.s));
        }
    }
    cx.sample(|| format!("{} {} gives {}", o.name, way.text(&x), show(&want)));
    Ok(())
}

#[cfg(feature = "hand")]
fn plain_cbor(e: &Enc) -> Option<ciborium::Value> {
    match e {
        Enc::Bytes(b) => ciborium::from_reader(b.as_slice()).ok(),
        _ => None,
    }
}

#[cfg(feature = "hand")]
/// Whether the type itself does not read this content from the format.
fn lenient(o: &Ops, i: usize, v: &V, way: Way, x: &Doc) -> bool {
    let t = world()[i].clone();
    let d = match (o.kind, x) {
        (Kind::Int { tag, .. }, Doc::Map(_, m)) => {
            let rest: Vec<_> = m.iter().filter(|(k, _)| *k != Doc::s(tag)).cloned().collect();
            Doc::map(rest)
        }
        (Kind::Adj { content, .. }, Doc::Map(_, m)) => match m.iter().find(|(k, _)| *k == Doc::s(content)) {
            Some((_, d)) => d.clone(),
            None => return false,
        },
        _ => return false,
    };
    direct_get(way, i, &t, &d) != Some(Ok(v.clone()))
}
