//! Round trips: C01, C02, C22, C25.

use super::wire::shape_name;
use crate::doc::{to_cbor, to_json, CborStyle, Doc};
use crate::fam::*;
use crate::fmts::*;
use crate::oracle::*;
use crate::run::{Cx, Prop, R};
use crate::schema::*;
use crate::selfde::{DeCfg, Strs};
use crate::src::Src;
use std::rc::Rc;

pub const PROPS: &[&Prop] = &[
    &Prop {
        id: "C01",
        rule: "A type (14 shapes, nested to depth 3), a value and a family of each representation are generated; in each of 7 \
               self-describing set-ups that round-trip the concrete value as a map value, the object is encoded and decoded \
               and type and value compared. Non-trivial: the value has at least 3 nodes and one round trip was compared.",
        max_len: 400,
        quick: 400_000,
        thorough: 10_000_000,
        case: self_describing,
        assumptions: A,
        ..Prop::BASE
    },
    &Prop {
        id: "C02",
        rule: "One to five items (objects of any family, concrete values, plain numbers) are generated and written one after \
               another into one stream of each of 5 binary set-ups, with or without bytes behind; all are read back in turn, \
               comparing type, value and bytes consumed. Non-trivial: an object with at least 3 nodes was read back.",
        max_len: 500,
        quick: 300_000,
        thorough: 8_000_000,
        case: binary,
        assumptions: A,
        ..Prop::BASE
    },
    &Prop {
        id: "C22",
        rule: "Types in which half of the leaves choose their form by is_human_readable are generated; objects are recorded in \
               both kinds of format and compared with the concrete value in the documented envelope, decoded again from what \
               was recorded by a deserializer of that kind, and round-tripped in JSON, CBOR, bincode and postcard. \
               Non-trivial: at least one adaptive leaf below the top level.",
        max_len: 300,
        quick: 300_000,
        thorough: 8_000_000,
        case: adaptive,
        fixed: Some(adaptive_fixed),
        assumptions: A,
        ..Prop::BASE
    },
    &Prop {
        id: "C25",
        rule: "Eight types whose fields, options, sequences, tuples, map values and enum payloads hold boxed objects of seven \
               traits are generated, and a tree of them; the tree's encoding is compared with the documented encoding of the \
               whole tree, it is round-tripped in 9 set-ups, and decoded from JSON, CBOR and the recorder's form with the tags \
               at every level in generated places. Non-trivial: at least two objects below the root.",
        max_len: 700,
        quick: 200_000,
        thorough: 5_000_000,
        case: nested,
        assumptions: A,
        ..Prop::BASE
    },
];

const A: &[&str] = &[
    "serde and the format crates are correct",
    "types behave like the generated ones: a finite number of shapes, depth at most 3",
];

fn show_got(g: &Got) -> String {
    match g {
        Ok((i, v)) => format!("D{i} {v:?}"),
        Err(e) => format!("error: {e}"),
    }
}

fn self_describing(s: &mut Src, cx: &mut Cx) -> R {
    let p = pick(s);
    let cfg = Cfg { avoid: vec![p.int_tag()], deep: true, ..Cfg::full() };
    let c = gen_case(s, &cfg);
    let d = crate::fam::direct(c.i).rec(true, c.i, &c.v)?;
    let buf = bufferable(&c.s);
    let mut compared = 0;
    for f in [Fmt::JsonStr, Fmt::JsonSlice, Fmt::JsonReader, Fmt::JsonValue, Fmt::JsonValueRef, Fmt::Cbor, Fmt::Toml] {
        if !concrete_ok(f, c.i, &c.v) {
            cx.discard("the format does not round-trip the concrete value");
            continue;
        }
        for o in p.each() {
            if is_int(o) {
                if collides(&d, o.tag_key().unwrap()) {
                    cx.discard("own key collides with the tag");
                    continue;
                }
                if asks_any(&c.s) {
                    cx.discard("deserialize_any at the root");
                    continue;
                }
                // TOML has no null.
                if f == Fmt::Toml && (matches!(c.v, V::Var(_, ref x) if x.is_empty()) || matches!((strip_new(&c.s), &c.v), (S::Zoo(_), V::Any(serde_json::Value::String(_))))) {
                    cx.discard("null in TOML");
                    continue;
                }
            }
            if f.reorders() && o.kind != Kind::Ext && !buf {
                cx.discard("not bufferable");
                continue;
            }
            let ctx = || format!("{} in {f:?}\n{}", o.name, c.show());
            let e = o.enc(f, c.i, &c.v).map_err(|e| format!("cannot encode: {e}\n{}", ctx()))?;
            let got = o.dec(f, &e);
            cx.check();
            if got.as_ref() != Ok(&(c.i, c.v.clone())) {
                return Err(format!("not the same\n{}\nencoded {}\ngot {}", ctx(), e.show(), show_got(&got)));
            }
            cx.class(&format!("{f:?}"));
            compared += 1;
        }
    }
    cx.class(&format!("shape {}", shape_name(&c.s)));
    if compared > 0 && size_v(&c.v) >= 3 {
        cx.nontrivial(&format!("{:?} {:?} {}", c.s, c.v, p.int.name));
    }
    cx.sample(|| format!("{} as {}, {}, {}", c.show(), p.ext.name, p.int.name, p.adj.name));
    Ok(())
}

enum Item {
    Obj(&'static Ops, Case, World),
    Num(u32),
}

fn binary(s: &mut Src, cx: &mut Cx) -> R {
    let n = 1 + s.below(5);
    let mut items = vec![];
    for _ in 0..n {
        if s.chance(1, 4) {
            items.push(Item::Num(s.int(0, 0xffff_ffff) as u32));
            continue;
        }
        let p = pick(s);
        let o = p.each()[s.below(3)];
        let cfg = Cfg { any: false, skips: false, hints: s.chance(1, 8), avoid: vec![p.int_tag()], deep: true, ..Cfg::full() };
        let c = gen_case(s, &cfg);
        items.push(Item::Obj(o, c, world()));
    }
    let behind = s.bytes(4);
    let mut nontrivial = false;
    for f in BINARY {
        let mut all = vec![];
        let mut parts = vec![];
        for it in &items {
            let b = match it {
                Item::Num(x) => enc(f, x)?,
                Item::Obj(o, c, w) => {
                    set_world(w.clone());
                    if !concrete_ok(f, c.i, &c.v) {
                        cx.discard("the format does not round-trip the concrete value");
                        continue;
                    }
                    if is_int(o) && collides(&crate::fam::direct(c.i).rec(false, c.i, &c.v)?, o.tag_key().unwrap()) {
                        cx.discard("own key collides with the tag");
                        continue;
                    }
                    o.enc(f, c.i, &c.v).map_err(|e| format!("{} in {f:?} cannot encode: {e}\n{}", o.name, c.show()))?
                }
            };
            let Enc::Bytes(b) = b else { return Err("harness: binary".to_owned()) };
            parts.push((it, b.len()));
            all.extend_from_slice(&b);
        }
        all.extend_from_slice(&behind);
        let mut at = 0;
        for (it, len) in &parts {
            cx.check();
            match it {
                Item::Num(x) => {
                    let (y, n) = dec_prefix::<u32>(f, &all[at..]).map_err(|e| format!("{f:?}: a number after objects is lost: {e}"))?;
                    if y != *x || n != *len {
                        return Err(format!("{f:?}: {x} after objects came back as {y}, {n} of {len} bytes"));
                    }
                }
                Item::Obj(o, c, w) => {
                    set_world(w.clone());
                    let ctx = || format!("{} in {f:?} at byte {at} of {}\n{}", o.name, hex(&all), c.show());
                    let (i, v, n) = o.prefix(f, &all[at..]).map_err(|e| format!("cannot decode: {e}\n{}", ctx()))?;
                    if (i, &v) != (c.i, &c.v) {
                        return Err(format!("not the same: D{i} {v:?}\n{}", ctx()));
                    }
                    if n != *len {
                        return Err(format!("{n} bytes taken of {len}\n{}", ctx()));
                    }
                    cx.class(&format!("{f:?} {}", o.name));
                    nontrivial |= size_v(&c.v) >= 3;
                }
            }
            at += len;
        }
    }
    for it in &items {
        if let Item::Obj(_, c, _) = it {
            cx.class(&format!("shape {}", shape_name(&c.s)));
        }
    }
    let key = || {
        items
            .iter()
            .map(|x| match x {
                Item::Num(x) => x.to_string(),
                Item::Obj(o, c, _) => format!("{} {:?} {:?}", o.name, c.s, c.v),
            })
            .collect::<Vec<_>>()
            .join("; ")
    };
    if nontrivial {
        cx.nontrivial(&key());
    }
    cx.sample(key);
    Ok(())
}

fn adaptive(s: &mut Src, cx: &mut Cx) -> R {
    let p = pick(s);
    let cfg = Cfg { avoid: vec![p.int_tag()], hr_often: true, any: false, hints: false, odd_keys: s.chance(1, 4), big_ints: false, deep: true, ..Cfg::full() };
    let c = gen_case(s, &cfg);
    let below = adapts(&c.s) && !root_hr(&c.s);
    for o in p.each() {
        let key = o.tag_key().unwrap_or("\u{0}none");
        for hr in [true, false] {
            let d = concrete(o.kind, &c, hr)?;
            if is_int(o) && collides(&d, key) {
                cx.discard("own key collides with the tag");
                continue;
            }
            let want = expected(o.kind, o.tags[c.i], &d).simplify();
            let got = o.rec(hr, c.i, &c.v).map(|d| d.simplify());
            cx.check();
            if got.as_ref() != Ok(&want) {
                return Err(format!("{} (human readable: {hr})\n{}\nexpected {want:?}\ngot {got:?}", o.name, c.show()));
            }
            // And back, when the self-describing form keeps the value apart from null.
            let de = DeCfg { hr, ..DeCfg::new(Strs::Borrowed, Strs::Borrowed) };
            let de2 = DeCfg { hr, ..DeCfg::new(Strs::Borrowed, Strs::Borrowed) };
            let plain = crate::fam::direct(c.i).rec(hr, c.i, &c.v)?.simplify();
            if crate::fam::direct(c.i).doc(&plain, &de2) == Ok((c.i, c.v.clone())) {
                let back = o.doc(&want, &de);
                cx.check();
                if back.as_ref() != Ok(&(c.i, c.v.clone())) {
                    return Err(format!("{} decoded (human readable: {hr})\n{}\nfrom {want:?}\ngot {}", o.name, c.show(), show_got(&back)));
                }
            }
        }
        let d = crate::fam::direct(c.i).rec(true, c.i, &c.v)?;
        if is_int(o) && collides(&d, key) {
            continue;
        }
        for f in [Fmt::JsonStr, Fmt::JsonValue, Fmt::Cbor, Fmt::Bincode, Fmt::BincodeVar, Fmt::Postcard] {
            if !concrete_ok(f, c.i, &c.v) || f.reorders() && o.kind != Kind::Ext && !bufferable(&c.s) {
                cx.discard("the format does not round-trip the concrete value");
                continue;
            }
            let e = o.enc(f, c.i, &c.v).map_err(|e| format!("{} in {f:?}: {e}\n{}", o.name, c.show()))?;
            let got = o.dec(f, &e);
            cx.check();
            if got.as_ref() != Ok(&(c.i, c.v.clone())) {
                return Err(format!("{} in {f:?}\n{}\nencoded {}\ngot {}", o.name, c.show(), e.show(), show_got(&got)));
            }
            if below {
                cx.class(&format!("{f:?} with an adaptive value below the top"));
            } else if root_hr(&c.s) {
                cx.class(&format!("{f:?} with an adaptive value at the top"));
            }
        }
    }
    if below {
        cx.nontrivial(&format!("{:?} {:?} {}", c.s, c.v, p.int.name));
    }
    cx.sample(|| c.show());
    Ok(())
}

mod ips {
    use serde::{Deserialize, Serialize};
    use std::net::{IpAddr, SocketAddr};

    macro_rules! ips {
        ($m:ident, $attr:meta) => {
            pub mod $m {
                use super::*;
                #[$attr]
                pub trait Ip {
                    fn show(&self) -> String;
                }
                #[typetag::serde(name = "plain")]
                impl Ip for IpAddr {
                    fn show(&self) -> String {
                        format!("{self:?}")
                    }
                }
                macro_rules! ip {
                    ($n:ident $tag:literal) => {
                        #[typetag::serde(name = $tag)]
                        impl Ip for $n {
                            fn show(&self) -> String {
                                format!("{self:?}")
                            }
                        }
                    };
                }
                ip!(Rec "rec");
                ip!(Tup "tup");
                ip!(En "en");
                ip!(New "new");
            }
        };
    }
    #[derive(Serialize, Deserialize, Debug)]
    pub struct Rec {
        pub a: IpAddr,
        pub b: Option<SocketAddr>,
        pub c: Vec<IpAddr>,
    }
    #[derive(Serialize, Deserialize, Debug)]
    pub struct Tup(pub IpAddr, pub SocketAddr);
    #[derive(Serialize, Deserialize, Debug)]
    pub struct New(pub Rec);
    #[derive(Serialize, Deserialize, Debug)]
    pub enum En {
        A(IpAddr),
        B(IpAddr, u8),
        C { x: SocketAddr, y: Vec<(IpAddr, u8)> },
        D,
    }
    ips!(ext, typetag::serde);
    ips!(int, typetag::serde(tag = "type"));
    ips!(adj, typetag::serde(tag = "type", content = "c"));
}

fn adaptive_fixed(cx: &mut Cx) -> R {
    use ips::*;
    let a = "127.0.0.1".parse::<std::net::IpAddr>().unwrap();
    let b = "fe80::1".parse::<std::net::IpAddr>().unwrap();
    let s = "[::1]:80".parse::<std::net::SocketAddr>().unwrap();
    macro_rules! all {
        ($m:ident) => {{
            let rec = || Rec { a, b: Some(s), c: vec![a, b] };
            let objs: Vec<Box<dyn $m::Ip>> = vec![
                Box::new(a),
                Box::new(b),
                Box::new(rec()),
                Box::new(Tup(b, s)),
                Box::new(New(rec())),
                Box::new(En::A(a)),
                Box::new(En::B(b, 7)),
                Box::new(En::C { x: s, y: vec![(a, 1), (b, 2)] }),
                Box::new(En::D),
            ];
            for o in &objs {
                for f in [Fmt::JsonStr, Fmt::JsonReader, Fmt::JsonValue, Fmt::Cbor, Fmt::Bincode, Fmt::BincodeVar, Fmt::Postcard] {
                    cx.check();
                    let e = enc(f, o).map_err(|e| format!("{} {f:?} {}: {e}", stringify!($m), o.show()))?;
                    let x: Box<dyn $m::Ip> =
                        dec(f, &e).map_err(|x| format!("{} {f:?} {}: {} {x}", stringify!($m), o.show(), e.show()))?;
                    if x.show() != o.show() {
                        return Err(format!("{} {f:?}: {} came back as {}", stringify!($m), o.show(), x.show()));
                    }
                }
            }
        }};
    }
    all!(ext);
    all!(int);
    all!(adj);
    Ok(())
}

/// Every object in the tree: family, type, value.
fn objects<'a>(f: u8, i: usize, v: &'a V, t: &S, w: &World, out: &mut Vec<(u8, usize, &'a V)>) {
    out.push((f, i, v));
    walk(v, t, w, out);
}
fn walk<'a>(v: &'a V, t: &S, w: &World, out: &mut Vec<(u8, usize, &'a V)>) {
    match (t, v) {
        (S::Obj(f), V::Obj(i, x)) => objects(*f, *i as usize, x, &w[*i as usize], w, out),
        (S::Opt(t), V::Some(x)) => walk(x, t, w, out),
        (S::New(_, t), x) => walk(x, t, w, out),
        (S::Tuple(t) | S::TupleStruct(_, t), V::Seq(v)) => t.iter().zip(v).for_each(|(t, x)| walk(x, t, w, out)),
        (S::Seq(t, _), V::Seq(v)) => v.iter().for_each(|x| walk(x, t, w, out)),
        (S::Map { v: t, .. }, V::Map(m)) => m.iter().for_each(|(_, x)| walk(x, t, w, out)),
        (S::Struct(st), V::Seq(v)) => st.fields.iter().zip(v).for_each(|(f, x)| walk(x, &f.s, w, out)),
        (S::Enum(_, vars, _), V::Var(i, v)) => match &vars[*i as usize].k {
            VK::Unit => {}
            VK::New(t) => walk(&v[0], t, w, out),
            VK::Tuple(t) => t.iter().zip(v).for_each(|(t, x)| walk(x, t, w, out)),
            VK::Struct(st) => st.fields.iter().zip(v).for_each(|(f, x)| walk(x, &f.s, w, out)),
        },
        _ => {}
    }
}

fn nested(s: &mut Src, cx: &mut Cx) -> R {
    let adaptive = s.chance(1, 4);
    let cfg = Cfg {
        depth: 2,
        any: false,
        hr: adaptive,
        hints: false,
        objs: (0..NESTABLE).collect(),
        avoid: NEST.iter().filter(|o| is_int(o)).filter_map(|o| o.tag_key()).collect(),
        ..Cfg::bufferable()
    };
    let mut w = vec![];
    for i in 0..NTYPES {
        let shape = s.below(SHAPES);
        let c = if i == NTYPES - 1 { Cfg { objs: vec![], ..cfg.clone() } } else { cfg.clone() };
        w.push(gen_shape(s, &c, 2, if shape == 13 && i == NTYPES - 1 { 1 } else { shape }));
    }
    let w: World = Rc::new(w);
    set_world(w.clone());
    let f0 = s.below(NESTABLE as usize) as u8;
    let i = s.below(NTYPES - 1);
    let v = gen_v(s, &w[i], &w, 3);
    let shuffle: Vec<u8> = (0..24).map(|_| s.byte()).collect();
    let o = NEST[f0 as usize];
    let mut objs = vec![];
    objects(f0, i, &v, &w[i], &w, &mut objs);

    let show = || format!("{} D{i} of {:?}\nvalue = {v:?}", o.name, w);
    let plain: World = Rc::new(w.iter().map(flat_s).collect());
    let leaves_ok = |f: Fmt| {
        set_world(plain.clone());
        let ok = objs.iter().all(|(_, j, x)| {
            concrete_ok(f, *j, &flat_v(x))
        });
        set_world(w.clone());
        ok
    };
    let mut moved_ok = true;
    if objs.iter().any(|(f, j, _)| is_int(NEST[*f as usize]) && matches!(strip_new(&w[*j]), S::Obj(_))) {
        cx.class("object at the root of an internally tagged object");
    }
    let doc = |hr: bool, shuffle: &[u8]| imitation(f0, i, &v, hr, shuffle);
    let mut compared = 0;
    for f in [Fmt::JsonStr, Fmt::JsonReader, Fmt::JsonValue, Fmt::Cbor, Fmt::Toml, Fmt::Bincode, Fmt::BincodeVar, Fmt::BincodeBig, Fmt::Postcard] {
        let want = match doc(f.human_readable(), &[]) {
            Ok(d) => d,
            Err(e) if e.contains("collides") => {
                cx.discard("own key collides with the tag");
                moved_ok = false;
                break;
            }
            Err(e) => return Err(format!("harness: {e}")),
        };
        if !leaves_ok(f) {
            cx.discard("the format does not round-trip a concrete value");
            continue;
        }
        if f == Fmt::Toml && want.any(&mut |d| matches!(d, Doc::Unit | Doc::None | Doc::UnitStruct(_))) {
            cx.discard("null in TOML");
            continue;
        }
        let a = enc_doc(f, &want);
        let b = o.enc(f, i, &v);
        cx.check();
        let (a, b) = match (a, b) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(_), Err(_)) => continue,
            (a, b) => return Err(format!("{f:?} {}\nexpected {a:?}\ngot {b:?}", show())),
        };
        if a != b
            && !f.human_readable()
            && listed_imitation(f0, i, &v, false).and_then(|d| enc_doc(f, &d)).as_ref() == Ok(&b)
        {
            cx.known("adaptive-in-nested-root");
            continue;
        }
        if a != b {
            return Err(format!("{f:?}: another encoding\n{}\nexpected {}\ngot      {}", show(), a.show(), b.show()));
        }
        let got = o.dec(f, &b);
        if got.as_ref() != Ok(&(i, v.clone())) {
            return Err(format!("{f:?}: not the same\n{}\nencoded {}\ngot {}", show(), b.show(), show_got(&got)));
        }
        cx.class(&format!("{f:?}"));
        compared += 1;
    }
    // Tags elsewhere.
    if moved_ok {
        let moved = doc(true, &shuffle)?.simplify();
        if leaves_ok(Fmt::JsonStr) {
            if let Some(t) = to_json(&moved) {
                let got = o.dec(Fmt::JsonStr, &Enc::Text(t.clone()));
                cx.check();
                if got.as_ref() != Ok(&(i, v.clone())) {
                    return Err(format!("tags moved\n{}\nfrom {t}\ngot {}", show(), show_got(&got)));
                }
                cx.class("tags moved, JSON");
            }
        }
        if leaves_ok(Fmt::Cbor) && !w.iter().any(adapts) {
            let st = CborStyle { indefinite: shuffle[0] & 1 == 1 && !w.iter().any(definite_only), chunked: false, wide: shuffle[0] & 2 == 2 };
            if let Some(b) = to_cbor(&doc(false, &shuffle)?.simplify(), st) {
                let got = o.dec(Fmt::Cbor, &Enc::Bytes(b.clone()));
                cx.check();
                if got.as_ref() != Ok(&(i, v.clone())) {
                    return Err(format!("tags moved in CBOR\n{}\nfrom {}\ngot {}", show(), hex(&b), show_got(&got)));
                }
                cx.class("tags moved, CBOR");
            }
        }
    }
    let fams: std::collections::BTreeSet<u8> = objs.iter().map(|x| x.0).collect();
    cx.class(&format!("objects: {}", match objs.len() { n @ 0..=4 => n.to_string(), 5..=9 => "5 to 9".to_owned(), _ => "10 or more".to_owned() }));
    cx.class(&format!("traits: {}", fams.len()));
    if compared > 0 && objs.len() >= 3 {
        cx.nontrivial(&format!("{f0} {i} {w:?} {v:?}"));
    }
    cx.sample(show);
    Ok(())
}
