//! What objects look like when serialized: C03, C04, C05, C06, C13.

use crate::doc::{record, Doc};
use crate::fam::*;
use crate::fmts::{Fmt, ALL};
use crate::oracle::*;
use crate::run::{Cx, Prop, R};
use crate::schema::*;
use crate::src::Src;

pub const PROPS: &[&Prop] = &[
    &Prop {
        id: "C03",
        rule: RULE_WIRE,
        max_len: 300,
        quick: 1_000_000,
        thorough: 25_000_000,
        case: |s, cx| wire(s, cx, &EXTS),
        assumptions: A_WIRE,
        ..Prop::BASE
    },
    &Prop {
        id: "C04",
        rule: RULE_WIRE,
        max_len: 300,
        quick: 1_000_000,
        thorough: 25_000_000,
        case: |s, cx| wire(s, cx, &INTS),
        assumptions: A_WIRE,
        ..Prop::BASE
    },
    &Prop {
        id: "C05",
        rule: RULE_WIRE,
        max_len: 300,
        quick: 1_000_000,
        thorough: 25_000_000,
        case: |s, cx| wire(s, cx, &ADJS),
        assumptions: A_WIRE,
        ..Prop::BASE
    },
    &Prop {
        id: "C06",
        rule: "A type, a value of it and a family of each representation are generated; the object is serialized into a \
               recording serializer (human readable and not) that checks the Serde protocol, and the recorded calls are \
               compared with the calls of the concrete value inside the documented envelope. Non-trivial: the recorded \
               document has at least 4 nodes.",
        max_len: 300,
        quick: 1_000_000,
        thorough: 25_000_000,
        case: faithful,
        assumptions: A_WIRE,
        ..Prop::BASE
    },
    &Prop {
        id: "C13",
        rule: "A struct with a field named like the internal tag is generated (the field at any position; a string equal to \
               or different from the tag, in plain, char, newtype, optional or formatted form, or a value of another kind) and \
               serialized; the outcome and document are compared with the rule of the property, in the recorder and in \
               every format. Non-trivial: the struct has at least one other field.",
        max_len: 300,
        quick: 1_000_000,
        thorough: 25_000_000,
        case: tag_field,
        fixed: Some(tag_field_fixed),
        assumptions: A_WIRE,
        ..Prop::BASE
    },
];

const RULE_WIRE: &str = "A type (14 shapes, nested to depth 3), a value of it and a family of the representation are generated; \
    in each of 13 format set-ups the object's output is compared with the output of the documented document built from the \
    concrete value's own serialization. Non-trivial: the value has at least 3 nodes and at least 3 formats could be compared.";

const A_WIRE: &[&str] = &[
    "serde, serde_json, ciborium, toml, bincode and postcard are correct",
    "types behave like the generated ones: a finite number of shapes, depth at most 3",
];

fn hash_case(c: &Case, o: &Ops) -> String {
    format!("{} {:?} {:?}", o.name, c.s, c.v)
}

fn wire(s: &mut Src, cx: &mut Cx, fams: &[&'static Ops]) -> R {
    let o = fams[s.below(fams.len())];
    let cfg = Cfg { avoid: o.tag_key().into_iter().collect(), deep: true, ..Cfg::full() };
    let c = gen_case(s, &cfg);
    let mut compared = 0;
    for f in ALL {
        let d = concrete(o.kind, &c, f.human_readable())?;
        if let Kind::Int { tag, .. } = o.kind {
            if collides(&d, tag) {
                cx.discard("own key collides with the tag");
                return Ok(());
            }
        }
        let want = enc_doc(f, &expected(o.kind, o.tags[c.i], &d));
        let got = o.enc(f, c.i, &c.v);
        match (&want, &got) {
            (Ok(a), Ok(b)) if a == b => {
                compared += 1;
                cx.check();
                cx.class(&format!("{f:?} equal"));
            }
            (Err(_), Err(_)) => {
                cx.check();
                cx.class(&format!("{f:?} both rejected"));
            }
            // Elements of an internally tagged sequence may be counted before they are written.
            (_, Ok(b))
                if matches!(o.kind, Kind::Int { .. })
                    && unsized_containers(&d)
                    && enc_doc(f, &expected(o.kind, o.tags[c.i], &d.sized())).as_ref() == Ok(b) =>
            {
                cx.check();
                cx.class("lengths filled in");
            }
            (a, b) => {
                let show = |x: &Result<crate::fmts::Enc, String>| match x {
                    Ok(x) => x.show(),
                    Err(e) => format!("error: {e}"),
                };
                return Err(format!(
                    "{} in {f:?}: not the documented form\n{}\nexpected {}\ngot      {}",
                    o.name,
                    c.show(),
                    show(a),
                    show(b)
                ));
            }
        }
    }
    cx.class(&format!("shape {}", shape_name(&c.s)));
    if size_v(&c.v) >= 3 && compared >= 3 {
        cx.nontrivial(&hash_case(&c, o));
    }
    cx.sample(|| format!("{} {} => {}", o.name, c.show(), o.enc(Fmt::SelfDoc, c.i, &c.v).map_or_else(|e| e, |e| e.show())));
    Ok(())
}

pub fn shape_name(t: &S) -> &'static str {
    match t {
        S::Bool => "bool",
        S::I8 | S::I16 | S::I32 | S::I64 | S::U8 | S::U16 | S::U32 | S::U64 => "integer",
        S::I128 | S::U128 => "128-bit",
        S::F32 | S::F64 => "float",
        S::Char => "char",
        S::Str { .. } => "str",
        S::Bytes { .. } => "bytes",
        S::Unit => "unit",
        S::UnitStruct(_) => "unit struct",
        S::Opt(_) => "option",
        S::New(..) => "newtype",
        S::Tuple(_) => "tuple",
        S::TupleStruct(..) => "tuple struct",
        S::Seq(..) => "seq",
        S::Map { .. } => "map",
        S::Struct(_) => "struct",
        S::Enum(..) => "enum",
        S::Hr => "hr",
        S::Any => "any",
        S::Ignored => "ignored",
        S::Zoo(_) => "derived",
        S::Obj(_) => "object",
    }
}

/// Forgets what the documentation leaves open: the names given to the payload
/// struct or tuple of an internally tagged enum, and to the adjacent record.
fn envelope(k: Kind, d: &Doc) -> Doc {
    let d = d.unhint();
    match (k, d) {
        (Kind::Adj { .. }, Doc::Struct(_, f)) => Doc::Struct("", f),
        (Kind::Int { .. }, Doc::Map(h, mut m)) if m.len() == 2 => {
            let x = std::mem::replace(&mut m[1].1, Doc::Unit);
            m[1].1 = match x {
                Doc::TupleStruct(_, v) => Doc::Tuple(v),
                Doc::Struct(_, f) => Doc::Struct("", f),
                x => x,
            };
            Doc::Map(h, m)
        }
        (_, d) => d,
    }
}

fn faithful(s: &mut Src, cx: &mut Cx) -> R {
    let p = pick(s);
    let cfg = Cfg { avoid: vec![p.int_tag()], deep: true, ..Cfg::full() };
    let c = gen_case(s, &cfg);
    for o in p.each() {
        for hr in [true, false] {
            let d = concrete(o.kind, &c, hr)?;
            if o.tag_key().is_some_and(|t| matches!(o.kind, Kind::Int { .. }) && collides(&d, t)) {
                cx.discard("own key collides with the tag");
                continue;
            }
            // The recorder must accept what the concrete type says on its own.
            let want = envelope(o.kind, &expected(o.kind, o.tags[c.i], &d));
            let got = o
                .rec(hr, c.i, &c.v)
                .map_err(|e| format!("{} (human readable: {hr}): {e}\n{}", o.name, c.show()))?;
            let got = envelope(o.kind, &got);
            cx.check();
            if got != want {
                return Err(format!(
                    "{} (human readable: {hr}): calls differ\n{}\nexpected {want:?}\ngot      {got:?}",
                    o.name,
                    c.show()
                ));
            }
            if d.count() >= 4 {
                cx.nontrivial(&hash_case(&c, o));
            }
        }
    }
    cx.class(&format!("shape {}", shape_name(&c.s)));
    cx.sample(|| format!("{} as {}/{}/{}: {:?}", c.show(), p.ext.name, p.int.name, p.adj.name, p.int.rec(true, c.i, &c.v)));
    Ok(())
}

fn tag_field(s: &mut Src, cx: &mut Cx) -> R {
    let o = INTS[s.below(INTS.len())];
    let tag = o.tag_key().unwrap();
    let i = s.below(NTYPES);
    let want = o.tags[i];
    let cfg = Cfg { avoid: vec![tag], depth: 1, ..Cfg::full() };
    let S::Struct(mut st) = gen_shape(s, &cfg, 2, 1) else { unreachable!() };
    let plain = || S::Str { collect: false, take: Take::Own };
    let wrong = |s: &mut Src| {
        let x = match s.below(5) {
            0 => s.string(6),
            1 => o.tags[s.below(NTYPES)].to_owned(),
            2 => format!("{want}x"),
            3 => want.chars().skip(1).collect(),
            _ => nearly(s, want),
        };
        if x == want {
            format!("{x}!")
        } else {
            x
        }
    };
    let matches_tag = s.bool();
    let text = if matches_tag { want.to_owned() } else { wrong(s) };
    let (ft, fv) = match s.below(9) {
        0 | 1 => (plain(), V::Str(text)),
        2 => (S::Str { collect: true, take: Take::Own }, V::Str(text)),
        3 => (S::New("Tag", Box::new(plain())), V::Str(text)),
        4 => (S::Opt(Box::new(plain())), V::Some(Box::new(V::Str(text)))),
        5 => (S::Opt(Box::new(S::New("Tag", Box::new(plain())))), V::None),
        6 => {
            let ch = want.chars().next().unwrap_or('q');
            (S::Char, V::Char(ch))
        }
        7 => {
            let t = gen_s(s, &Cfg { depth: 1, ..Cfg::full() }, 1);
            let w = world();
            let v = gen_v(s, &t, &w, 1);
            (t, v)
        }
        _ => (S::Opt(Box::new(S::U8)), V::Some(Box::new(V::Int(1)))),
    };
    if any_s(&ft, &mut |x| matches!(x, S::Hr)) {
        // What it is depends on the format; the check is made as for readable ones.
        cx.discard("tag field adapts to the format");
        return Ok(());
    }
    let pos = s.below(st.fields.len() + 1);
    let w = world();
    let mut v: Vec<V> = st.fields.iter().map(|f| gen_v(s, &f.s, &w, 1)).collect();
    st.fields.insert(pos, F { name: tag, s: ft, dflt: false, skip_none: false });
    v.insert(pos, fv);
    st.names = intern_list(&st.fields.iter().map(|f| f.name).collect::<Vec<_>>());
    let mut t = S::Struct(st);
    if s.chance(1, 6) {
        t = S::New("Outer", Box::new(t));
    }
    let mut w = vec![S::Bool; NTYPES];
    w[i] = t.clone();
    set_world(std::rc::Rc::new(w));
    let c = Case { i, s: t, v: V::Seq(v) };
    let others = match strip_new(&c.s) {
        S::Struct(st) => st.fields.len() - 1,
        _ => 0,
    };

    for f in ALL {
        let d = crate::fam::direct(i).rec(f.human_readable(), i, &c.v)?;
        let mut st = &d;
        while let Doc::Newtype(_, x) = st {
            st = x;
        }
        let Doc::Struct(_, fields) = st else { unreachable!() };
        let at = fields.iter().position(|(k, _)| *k == tag).unwrap();
        let rest: Vec<(Name, Doc)> = fields.iter().filter(|(k, _)| *k != tag).cloned().collect();
        let mut x = &fields[at].1;
        while let Doc::Newtype(_, y) | Doc::Some(y) = x {
            x = y;
        }
        // Formats agree on what a string is, except for a unit variant.
        if matches!(x, Doc::UnitVar(..)) {
            cx.discard("unit variant as tag");
            return Ok(());
        }
        let ok = match x {
            Doc::Str(x) => x == want,
            Doc::Char(ch) => ch.to_string() == want,
            _ => false,
        };
        let got = o.enc(f, i, &c.v);
        cx.check();
        let ctx = || format!("{} in {f:?}, field {tag:?} at {at}\n{}", o.name, c.show());
        if !ok {
            match &got {
                Ok(x) => return Err(format!("conflicting tag was written: {}\n{}", x.show(), ctx())),
                Err(e) => {
                    // The error names what is wrong unless an earlier field failed.
                    let shown = match x {
                        Doc::Str(x) => format!("{x:?}"),
                        Doc::Char(ch) => format!("{:?}", ch.to_string()),
                        _ => "string".to_owned(),
                    };
                    let before = Doc::Struct("", fields[..at].to_vec());
                    let sized = f.binary() && unsized_containers(&before);
                    if !sized && enc_doc(f, &internal_doc(tag, want, &fields[..at])).is_ok() && f != Fmt::Postcard {
                        for part in [format!("{tag:?}"), format!("{want:?}"), shown] {
                            let flat = |x: &str| x.replace('\\', "");
                            if !flat(e).contains(&flat(&part)) {
                                return Err(format!("the error {e:?} does not name {part}\n{}", ctx()));
                            }
                        }
                    }
                    cx.class("mismatch rejected");
                }
            }
            continue;
        }
        let wanted = internal_doc(tag, want, &rest);
        let exp = enc_doc(f, &wanted);
        match (exp, got) {
            (Ok(a), Ok(b)) if a == b => cx.class("match written once"),
            (Err(_), Err(_)) => {}
            // Formats that write the length ahead announce one entry too many.
            (Ok(a), Ok(b)) if at > 0 && off_by_one(f, fields.len(), &b, &a) => cx.known("announced-length"),
            (Ok(_), Err(e))
                if at > 0
                    && f == Fmt::SelfDoc
                    && e.starts_with(&format!(
                        "PROTOCOL length: {} entries announced, {} written: ",
                        fields.len() + 1,
                        fields.len()
                    )) =>
            {
                cx.known("announced-length")
            }
            (a, b) => {
                let a = a.map_or_else(|e| format!("error: {e}"), |x| x.show());
                let b = b.map_or_else(|e| format!("error: {e}"), |x| x.show());
                return Err(format!("wrong output\n{}\nexpected {a}\ngot      {b}", ctx()));
            }
        }
    }
    // The recorder, with the protocol.
    cx.class(if others == 0 { "only field" } else { "among other fields" });
    if others > 0 {
        cx.nontrivial(&hash_case(&c, o));
    }
    cx.sample(|| format!("{} {} => {:?}", o.name, c.show(), o.enc(Fmt::JsonStr, i, &c.v)));
    Ok(())
}

fn internal_doc(tag: &str, want: &str, fields: &[(Name, Doc)]) -> Doc {
    let mut m = vec![(Doc::s(tag), Doc::s(want))];
    m.extend(fields.iter().map(|(k, x)| (Doc::s(k), x.clone())));
    Doc::map(m)
}

/// Whether the output is the right one but for the announced number of entries.
fn off_by_one(f: Fmt, entries: usize, got: &crate::fmts::Enc, right: &crate::fmts::Enc) -> bool {
    use crate::fmts::Enc;
    let (Enc::Bytes(g), Enc::Bytes(r)) = (got, right) else { return false };
    // The length stands first, then the entries.
    let len = |n: usize| -> Option<Vec<u8>> {
        Some(match f {
            Fmt::Cbor => crate::doc::to_cbor(&Doc::map(vec![(Doc::Unit, Doc::Unit); n]), Default::default())?[..if n < 24 { 1 } else { 2 }].to_vec(),
            Fmt::Bincode | Fmt::BincodeReader => (n as u64).to_le_bytes().to_vec(),
            Fmt::BincodeBig => (n as u64).to_be_bytes().to_vec(),
            Fmt::BincodeVar | Fmt::Postcard => vec![n as u8],
            _ => return None,
        })
    };
    let (Some(a), Some(b)) = (len(entries), len(entries + 1)) else { return false };
    r.starts_with(&a) && g.starts_with(&b) && r[a.len()..] == g[b.len()..]
}

mod flat {
    use serde::{Deserialize, Serialize};

    #[typetag::serde(tag = "type")]
    pub trait Flat {}

    #[derive(Serialize, Deserialize)]
    pub struct Inner {
        pub x: u8,
    }
    #[derive(Serialize, Deserialize)]
    pub struct Outer {
        pub r#type: String,
        #[serde(flatten)]
        pub inner: Inner,
    }
    #[typetag::serde]
    impl Flat for Outer {}
}

/// A struct with a flattened field is a map to Serde.
fn tag_field_fixed(cx: &mut Cx) -> R {
    let b: Box<dyn flat::Flat> = Box::new(flat::Outer { r#type: "Outer".to_owned(), inner: flat::Inner { x: 1 } });
    let got = serde_json::to_string(&b).map_err(|e| e.to_string());
    cx.check();
    match got.as_deref() {
        Ok(r#"{"type":"Outer","x":1}"#) => {}
        Ok(r#"{"type":"Outer","type":"Outer","x":1}"#) => cx.known("flattened"),
        x => return Err(format!("a struct with a flattened field: {x:?}")),
    }
    let b: Box<dyn flat::Flat> = Box::new(flat::Outer { r#type: "Other".to_owned(), inner: flat::Inner { x: 1 } });
    cx.check();
    match serde_json::to_string(&b) {
        Err(_) => {}
        Ok(x) if x == r#"{"type":"Outer","type":"Other","x":1}"# => cx.known("flattened"),
        Ok(x) => return Err(format!("a struct with a flattened field: {x}")),
    }
    let d = record(&b, true);
    let _ = d;
    Ok(())
}
