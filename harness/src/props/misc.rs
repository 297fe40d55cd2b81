//! Tags, faults, arbitrary input and modes: C09, C14, C15, C23.

use super::decode::{mutate, show, Way, CBOR, JSON, OWN};
use super::wire::shape_name;
use crate::doc::{injected, to_cbor, to_json, CborStyle, Doc, RecState, INJECTED};
use crate::fam::*;
use crate::fmts::*;
use crate::oracle::*;
use crate::run::{Cx, Prop, R};
use crate::schema::*;
use crate::selfde::{DeCfg, Strs};
use crate::src::Src;
use std::io::{self, Write};
use std::rc::Rc;

pub const PROPS: &[&Prop] = &[
    #[cfg(feature = "multi")]
    &Prop {
        id: "C09",
        rule: "A family (18 with distinct tags, 3 with several types under one tag), a content shape, a tag string (registered, \
               a near miss of a registered one, arbitrary, or no string at all), a format and a place for the tag are \
               generated; the outcome is compared with a model of the registry: one type under that tag selects it, none is an \
               unknown variant naming the tag and all known ones, several are non-unique. Non-trivial: the tag is not \
               registered exactly once, or it is and differs from another registered tag by one edit.",
        max_len: 300,
        quick: 3_000_000,
        thorough: 80_000_000,
        case: tags,
        assumptions: A,
        ..Prop::BASE
    },
    &Prop {
        id: "C14",
        level: "fault_enumeration",
        rule: "A type, a value and one family of each representation are generated. Writing: every call of the format fails in \
               turn (recording format), the writer fails after every number of bytes (5 formats) or takes one byte at a time, \
               the concrete type fails at each of its own steps. Reading: every call of the deserializer fails in turn, the \
               concrete type fails at each of its steps, the input ends or the reader fails at every byte (9 formats), with the \
               tag in front and elsewhere. Each must be an error, with the message of whoever raised it. Above 40 points, 40 \
               of them are drawn. Non-trivial: at least 20 faults injected.",
        max_len: 350,
        quick: 1_600_000,
        thorough: 40_000_000,
        case: faults,
        assumptions: A,
        ..Prop::BASE
    },
    &Prop {
        id: "C15",
        rule: "A type, a family and an input are generated: a valid encoding with one to five byte mutations, arbitrary bytes, an \
               arbitrary document around known keys and tags, or deep nesting, for JSON, CBOR, bincode (3) and postcard. \
               Decoding returns twice the same, without panic; what is accepted is encoded and decoded again to the same, if \
               the format round-trips the concrete value. Non-trivial: accepted, or rejected after the tag was recognized.",
        max_len: 500,
        quick: 2_000_000,
        thorough: 50_000_000,
        case: arbitrary,
        fixed: Some(nesting),
        assumptions: A,
        ..Prop::BASE
    },
    #[cfg(feature = "forms")]
    &Prop {
        id: "C19",
        rule: "A type, a value and one of 12 traits (three representations, no, Send, Sync, both as supertraits) are generated. \
               Call traces and bytes of 4 formats are compared between 12 forms of the object; written, damaged, reordered, \
               tagless and unknown-tag documents are decoded into every form the trait has, in 4 formats and a self-describing \
               deserializer, and outcomes compared, errors included. Non-trivial: content of at least 3 nodes.",
        max_len: 400,
        quick: 400_000,
        thorough: 10_000_000,
        case: forms,
        assumptions: A,
        ..Prop::BASE
    },
    #[cfg(feature = "oneway")]
    &Prop {
        id: "C23",
        rule: "A type, a value and one of five groups of a full, a serialize-only and a deserialize-only trait with the same \
               options are generated; call traces and bytes of 8 formats are compared between the first two, outcomes for \
               written, damaged, reordered, tagless and unknown-tag documents between the first and the third; what the second \
               writes is read by the third. Non-trivial: a document of at least 3 nodes was read by both.",
        max_len: 400,
        quick: 400_000,
        thorough: 10_000_000,
        case: modes,
        fixed: Some(generic),
        assumptions: A,
        ..Prop::BASE
    },
];

const A: &[&str] = &[
    "serde and the format crates are correct",
    "types behave like the generated ones: a finite number of shapes, depth at most 3",
];

/// Whether an error text has this in it, however often it was quoted on its way.
fn mentions(e: &str, what: &str) -> bool {
    if e.contains(what) {
        return true;
    }
    let plain = |s: &str| s.replace('\\', "");
    let q = format!("{what:?}");
    plain(e).contains(&plain(&q[1..q.len() - 1])) || plain(e).contains(&plain(what))
}

// ------------------------------------------------------------------------ tags

#[cfg(feature = "multi")]
fn gen_tag(s: &mut Src, known: &[&str]) -> String {
    let base = *s.pick(known);
    match s.below(8) {
        0..=2 => base.to_owned(),
        3 => s.string(8),
        4 => nearly(s, base),
        _ => {
            let mut t: Vec<char> = base.chars().collect();
            match s.below(12) {
                0 => t.push(' '),
                1 => t.insert(0, ' '),
                2 => {
                    t.pop();
                }
                3 if !t.is_empty() => {
                    t.remove(0);
                }
                4 => t = base.to_uppercase().chars().collect(),
                5 => t = base.to_lowercase().chars().collect(),
                6 => t.push('\0'),
                7 => t = base.replace('é', "e\u{301}").chars().collect(),
                8 => t = base.replace("e\u{301}", "é").chars().collect(),
                9 => {
                    let c = s.char();
                    let at = s.below(t.len() + 1);
                    t.insert(at, c);
                }
                10 if t.len() > 1 => {
                    let at = s.below(t.len() - 1);
                    t.swap(at, at + 1);
                }
                _ if !t.is_empty() => {
                    let at = s.below(t.len());
                    t[at] = s.char();
                }
                _ => t.push(*s.pick(&['0', 'A', 'a', 'X', 's'])),
            }
            t.into_iter().collect()
        }
    }
}

#[cfg(feature = "multi")]
fn tags(s: &mut Src, cx: &mut Cx) -> R {
    let n = s.below(FAMS.len() + 9);
    let o: &Ops = if n < FAMS.len() { FAMS[n] } else { MULTI[(n - FAMS.len()) % 3] };
    let t = match s.below(6) {
        0 => S::U8,
        1 => S::Unit,
        2 => S::Str { collect: false, take: Take::Own },
        3 => S::Opt(Box::new(S::U8)),
        4 => S::Seq(Box::new(S::U8), true),
        _ => S::Struct(St {
            name: "R",
            fields: vec![F { name: "f", s: S::U8, dflt: false, skip_none: false }],
            names: intern_list(&["f"]),
            deny: false,
            lazy: false,
        }),
    };
    let w: World = Rc::new(vec![t.clone(); NTYPES]);
    let v = gen_v(s, &t, &w, 1);
    set_world(w);
    let i = s.below(NTYPES);
    let tag = gen_tag(s, &o.tags);
    let holders: Vec<usize> = (0..NTYPES).filter(|k| o.tags[*k] == tag).collect();
    let d = crate::fam::direct(i).rec(true, i, &v)?;
    let mut x = expected(o.kind, &tag, &d).simplify();

    if s.chance(1, 12) && o.tag_key().is_some() {
        // Not a string at all.
        let odd = match s.below(7) {
            0 => Doc::Unit,
            1 => Doc::U64(s.below(9) as u64),
            2 => Doc::Bool(s.bool()),
            3 => Doc::seq(vec![Doc::s(&tag)]),
            4 => Doc::map(vec![(Doc::s(&tag), Doc::Unit)]),
            5 => Doc::F64(s.f64().to_bits()),
            _ => Doc::I64(-1),
        };
        let Doc::Map(_, m) = &mut x else { return Err("harness: not a map".to_owned()) };
        m[0].1 = odd;
        for way in [JSON, CBOR, OWN] {
            let Some(got) = way.get(o, &x) else { continue };
            cx.check();
            if got.is_ok() {
                return Err(format!("{} accepts {} as a tag: {}", o.name, way.text(&x), show(&got)));
            }
        }
        cx.class("tag not a string");
        return Ok(());
    }

    let f = *s.pick(&ALL);
    // ciborium hands out strings up to this length only.
    let f = if f == Fmt::Toml || tag.len() > 4096 { Fmt::JsonStr } else { f };
    let moved = f.self_describing() && s.chance(1, 3);
    if moved {
        if let Doc::Map(_, m) = &mut x {
            let head = m.remove(0);
            let at = s.below(m.len() + 1);
            m.insert(at, head);
        }
    }
    let strs = *s.pick(&[Strs::Borrowed, Strs::Transient, Strs::Owned, Strs::Mixed]);
    let e = match f {
        Fmt::SelfDoc => Enc::Doc(x.clone()),
        Fmt::JsonStr | Fmt::JsonSlice | Fmt::JsonReader => match to_json(&x) {
            Some(t) => Enc::Text(t),
            None => return Ok(cx.discard("no JSON form")),
        },
        Fmt::Cbor => Enc::Bytes(to_cbor(&x, CborStyle { wide: s.chance(1, 4), ..CborStyle::default() }).ok_or("harness: cbor")?),
        f if f.binary() => enc(f, &expected(o.kind, &tag, &d))?,
        f => enc(f, &x)?,
    };
    let got = match &e {
        Enc::Doc(d) => o.doc(d, &DeCfg { narrow: true, ..DeCfg::new(strs, strs) }),
        e => o.dec(f, e),
    };
    cx.check();
    cx.class(&format!("{f:?}"));
    let keeps = f != Fmt::Postcard;
    let bad = |why: &str| {
        Err(format!("{} {f:?}, tag {tag:?} {why}: {}\n{}", o.name, show(&got), e.show()))
    };
    match (holders.as_slice(), &got) {
        ([k], Ok((i, x))) => {
            cx.class("known");
            if i != k || *x != v {
                return bad(&format!("should give D{k} {v:?}"));
            }
        }
        ([k], Err(_)) => return bad(&format!("should give D{k} {v:?}")),
        (_, Ok(_)) => return bad("belongs to no single type"),
        ([], Err(m)) => {
            cx.class("unknown");
            if keeps {
                if !m.contains("unknown variant") || !mentions(m, &tag) {
                    return bad("should be an unknown variant");
                }
                for n in o.tags {
                    if !mentions(m, &format!("`{n}`")) {
                        return bad(&format!("should be an error naming {n:?}"));
                    }
                }
            }
        }
        (_, Err(m)) => {
            cx.class("ambiguous");
            if keeps && !(m.contains("non-unique") && mentions(m, &format!("{tag:?}"))) {
                return bad("should be non-unique");
            }
        }
    }
    if moved {
        cx.class("tag not in front");
    }
    if holders.len() != 1 || i % 8 < 4 {
        cx.nontrivial(&format!("{} {f:?} {tag} {moved} {strs:?} {}", o.name, shape_name(&t)));
    }
    cx.sample(|| format!("{} {f:?} {}", o.name, e.show()));
    Ok(())
}

// ---------------------------------------------------------------------- faults

/// Up to 40 of the numbers below `n`, always with the first and the last.
fn points(s: &mut Src, n: usize) -> Vec<usize> {
    if n <= 40 {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = (0..36).map(|_| s.below(n)).collect();
    v.extend([0, 1, n - 2, n - 1]);
    v.sort_unstable();
    v.dedup();
    v
}

/// Fails once it has taken so many bytes.
struct Failing {
    left: usize,
    one_by_one: bool,
    zero: bool,
    got: Vec<u8>,
    failed: bool,
}
impl Write for Failing {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.left == 0 {
            self.failed = true;
            if self.zero {
                return Ok(0);
            }
            return Err(io::Error::new(io::ErrorKind::Other, injected()));
        }
        let n = if self.one_by_one { 1 } else { b.len().min(self.left) };
        self.left -= n;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// What a fault says. serde_json takes "at line 1 column 2" off the end of messages.
fn gen_message(s: &mut Src) -> String {
    const PARTS: [&str; 14] = [
        "injected fault ", "\u{2620}", "#7", "{\"x\"}", "\n", "second line", " at line 5", " at line 1 column 2 ", "`a`",
        ": ", "missing field `type`", "e\u{301}", "\\", "unknown variant",
    ];
    let mut m = match s.below(3) {
        0 => "injected fault ".to_owned(),
        1 => s.string(12),
        _ => String::new(),
    };
    for _ in 0..s.below(5) {
        m.push_str(s.pick::<&str>(&PARTS));
    }
    if s.chance(1, 20) {
        m.push_str(&"long ".repeat(s.below(200)));
    }
    m + "~"
}

fn faults(s: &mut Src, cx: &mut Cx) -> R {
    let msg = gen_message(s);
    INJECTED.with(|m| *m.borrow_mut() = msg);
    let kind = s.below(10) as u8;
    crate::doc::INJECTED_KIND.with(|k| k.set(kind));
    let p = pick(s);
    let o = p.each()[s.below(3)];
    let avoid = o.tag_key().into_iter().collect();
    let c = gen_case(s, &Cfg { avoid, bool_keys: false, depth: 2, ..Cfg::full() });
    let n = match s.below(8) {
        0 => fault_format(s, cx, o, &c)?,
        1 => fault_writer(s, cx, o, &c)?,
        2 => fault_concrete_ser(s, cx, o, &c)?,
        3 | 4 => fault_deserializer(s, cx, o, &c)?,
        5 => fault_concrete_de(s, cx, o, &c)?,
        _ => fault_end(s, cx, o, &c)?,
    };
    cx.class(&format!("{} of {}", shape_name(&c.s), match o.kind {
        Kind::Ext => "external",
        Kind::Int { .. } => "internal",
        Kind::Adj { .. } => "adjacent",
    }));
    if n >= 20 {
        cx.nontrivial(&format!("{} {:?} {:?} {n}", o.name, c.s, c.v));
    }
    cx.sample(|| format!("{} {} ({n} faults)", o.name, c.show()));
    Ok(())
}

fn ser_ops(o: &Ops) -> SerOps {
    o.ser.expect("harness: no ser")
}

/// Each call of the format fails in turn.
fn fault_format(s: &mut Src, cx: &mut Cx, o: &Ops, c: &Case) -> Result<usize, String> {
    let hr = s.bool();
    let st = RecState::new(hr);
    if (ser_ops(o).rec_state)(&st, c.i, &c.v).is_err() {
        cx.discard("not serializable");
        return Ok(0);
    }
    let at = points(s, st.calls.get() as usize);
    for k in &at {
        let st = RecState::new(hr);
        st.fail_at.set(*k as i64);
        let r = (ser_ops(o).rec_state)(&st, c.i, &c.v);
        cx.check();
        let fine = match &r {
            Ok(_) => !st.failed.get(),
            Err(e) => e.0.contains(&injected()),
        };
        if !fine {
            return Err(format!("{}: call {k} of the format fails, and the result is {r:?}\n{}", o.name, c.show()));
        }
    }
    cx.class("format fails while writing");
    Ok(at.len())
}

const WRITERS: [Fmt; 6] = [Fmt::JsonStr, Fmt::JsonReader, Fmt::Cbor, Fmt::Bincode, Fmt::BincodeVar, Fmt::Postcard];

fn fault_writer(s: &mut Src, cx: &mut Cx, o: &Ops, c: &Case) -> Result<usize, String> {
    let f = *s.pick(&WRITERS);
    let Ok(e) = o.enc(f, c.i, &c.v) else {
        cx.discard("not serializable");
        return Ok(0);
    };
    let whole = match &e {
        Enc::Text(t) => t.as_bytes(),
        Enc::Bytes(b) => b.as_slice(),
        _ => return Err("harness: writer".to_owned()),
    };
    let fresh = |left, one_by_one, zero| Failing { left, one_by_one, zero, got: vec![], failed: false };
    let mut w = fresh(usize::MAX, true, false);
    let r = (ser_ops(o).writer)(f, c.i, &c.v, &mut w);
    cx.check();
    if r.is_err() || w.got != whole {
        return Err(format!("{} {f:?} into a slow writer: {r:?}, {} instead of {}", o.name, hex(&w.got), hex(whole)));
    }
    let at = points(s, whole.len());
    let slow = s.bool();
    let zero = s.chance(1, 4);
    for k in &at {
        let mut w = fresh(*k, slow, zero);
        let r = (ser_ops(o).writer)(f, c.i, &c.v, &mut w);
        cx.check();
        let says = zero || !matches!(f, Fmt::JsonStr | Fmt::JsonReader | Fmt::Bincode | Fmt::BincodeVar);
        let fine = match &r {
            Ok(()) => false,
            Err(m) => says || m.contains(&injected()),
        };
        if !fine || !w.failed {
            return Err(format!("{} {f:?}: the writer fails after {k} of {} bytes and the result is {r:?}\n{}", o.name, whole.len(), c.show()));
        }
        if !whole.starts_with(&w.got) {
            return Err(format!("{} {f:?}: before the writer failed it was given {} instead of the start of {}", o.name, hex(&w.got), hex(whole)));
        }
    }
    cx.class("writer fails");
    Ok(at.len())
}

fn fault_concrete_ser(s: &mut Src, cx: &mut Cx, o: &Ops, c: &Case) -> Result<usize, String> {
    let f = *s.pick(&ALL);
    let f = if f == Fmt::Toml { Fmt::Cbor } else { f };
    SER_TICKS.with(|t| t.set(0));
    if o.enc(f, c.i, &c.v).is_err() {
        cx.discard("not serializable");
        return Ok(0);
    }
    let at = points(s, SER_TICKS.with(|t| t.get()) as usize);
    for k in &at {
        let set = || {
            SER_TICKS.with(|t| t.set(0));
            SER_FAULT.with(|t| t.set(*k as i64));
        };
        set();
        let r = o.enc(f, c.i, &c.v);
        let fired = SER_TICKS.with(|t| t.get()) > *k as u64;
        SER_FAULT.with(|t| t.set(-1));
        cx.check();
        let fine = match &r {
            Ok(_) => !fired,
            Err(m) => f == Fmt::Postcard || mentions(m, &injected()),
        };
        if !fine {
            return Err(format!("{} {f:?}: step {k} of the type's Serialize fails, and the result is {r:?}\n{}", o.name, c.show()));
        }
    }
    cx.class("Serialize fails");
    Ok(at.len())
}

/// A document of the object with its entries in some order.
fn reordered(s: &mut Src, o: &Ops, c: &Case, hr: bool) -> Result<Doc, String> {
    let d = concrete(o.kind, c, hr)?;
    let mut x = expected(o.kind, o.tags[c.i], &d).simplify();
    if s.bool() && bufferable(&c.s) {
        if let Doc::Map(_, m) = &mut x {
            let head = m.remove(0);
            let at = s.below(m.len() + 1);
            m.insert(at, head);
        }
    }
    Ok(x)
}

fn de_ops(o: &Ops) -> DeOps {
    o.de.expect("harness: no de")
}

fn fault_deserializer(s: &mut Src, cx: &mut Cx, o: &Ops, c: &Case) -> Result<usize, String> {
    let mut x = reordered(s, o, c, true)?;
    if matches!(o.kind, Kind::Adj { .. }) && s.chance(1, 4) {
        if let Doc::Map(_, m) = &x {
            x = Doc::seq(m.iter().map(|(_, v)| v.clone()).collect());
        }
    }
    const M: [Strs; 4] = [Strs::Borrowed, Strs::Transient, Strs::Owned, Strs::Mixed];
    let (a, b) = (*s.pick(&M), *s.pick(&M));
    let cfg = DeCfg::new(a, b);
    let _ = (de_ops(o).doc)(&x, &cfg);
    let at = points(s, cfg.calls.get() as usize);
    for k in &at {
        let cfg = DeCfg::new(a, b);
        cfg.fail_at.set(*k as i64);
        let r = (de_ops(o).doc)(&x, &cfg).map_err(|e| e.0);
        cx.check();
        let fine = match &r {
            Ok(_) => !cfg.failed.get(),
            Err(m) => !cfg.failed.get() || mentions(m, &injected()),
        };
        if !fine {
            return Err(format!("{}: call {k} of the deserializer fails, and the result is {}\n{x:?}\n{}", o.name, show(&r), c.show()));
        }
    }
    cx.class("format fails while reading");
    Ok(at.len())
}

/// An input in one of the formats.
fn gen_input(s: &mut Src, o: &Ops, c: &Case) -> Result<Option<(Fmt, Enc)>, String> {
    let x = match s.below(3) {
        0 => {
            let f = *s.pick(&BINARY);
            o.enc(f, c.i, &c.v).ok().map(|e| (f, e))
        }
        1 => {
            let x = reordered(s, o, c, false)?;
            let indefinite = s.chance(1, 3) && !definite_only(&c.s) && !adapts(&c.s);
            to_cbor(&x, CborStyle { indefinite, chunked: false, wide: s.chance(1, 4) }).map(|b| (Fmt::Cbor, Enc::Bytes(b)))
        }
        _ => {
            let x = reordered(s, o, c, true)?;
            let f = *s.pick(&JSON_TEXT);
            to_json(&x).map(|t| (f, Enc::Text(t)))
        }
    };
    // Rejected, the error of each level is quoted by the next.
    Ok(x.filter(|x| !matches!(x, (Fmt::Cbor, Enc::Bytes(b)) if cbor_depth(b) > CBOR_DEPTH)))
}

fn fault_concrete_de(s: &mut Src, cx: &mut Cx, o: &Ops, c: &Case) -> Result<usize, String> {
    let Some((f, e)) = gen_input(s, o, c)? else {
        cx.discard("no form");
        return Ok(0);
    };
    DE_TICKS.with(|t| t.set(0));
    let _ = o.dec(f, &e);
    let at = points(s, DE_TICKS.with(|t| t.get()) as usize);
    for k in &at {
        DE_TICKS.with(|t| t.set(0));
        DE_FAULT.with(|t| t.set(*k as i64));
        let r = o.dec(f, &e);
        let fired = DE_TICKS.with(|t| t.get()) > *k as u64;
        DE_FAULT.with(|t| t.set(-1));
        cx.check();
        let fine = match &r {
            Ok(_) => !fired,
            Err(m) => !fired || f == Fmt::Postcard || mentions(m, &injected()),
        };
        if !fine {
            return Err(format!("{} {f:?}: step {k} of the type's Deserialize fails, and the result is {}\n{}\n{}", o.name, show(&r), e.show(), c.show()));
        }
    }
    cx.class("Deserialize fails");
    Ok(at.len())
}

/// The input ends early, or its reader fails.
fn fault_end(s: &mut Src, cx: &mut Cx, o: &Ops, c: &Case) -> Result<usize, String> {
    let Some((f, e)) = gen_input(s, o, c)? else {
        cx.discard("no form");
        return Ok(0);
    };
    let b = match e {
        Enc::Text(t) => t.into_bytes(),
        Enc::Bytes(b) => b,
        _ => return Err("harness: input".to_owned()),
    };
    let whole = o.dec(f, &Enc::Bytes(b.clone()));
    if whole.is_err() {
        cx.class("a type the format does not read back");
        if f.binary() {
            return Ok(0);
        }
    }
    let reader = matches!(f, Fmt::JsonReader | Fmt::BincodeReader) && s.bool();
    // bincode drops it in the middle of a character.
    let says = reader && f == Fmt::JsonReader && whole.is_ok();
    let at = points(s, b.len());
    for k in &at {
        let part = Enc::Bytes(b[..*k].to_vec());
        FAIL_AT_END.with(|x| x.set(reader));
        let r = o.dec(f, &part);
        FAIL_AT_END.with(|x| x.set(false));
        cx.check();
        let fine = match &r {
            Ok(_) => false,
            Err(m) => !says || mentions(m, &injected()),
        };
        if !fine {
            return Err(format!(
                "{} {f:?}: {} after {k} of {} bytes, and the result is {}\n{}\n{}",
                o.name,
                if reader { "the reader fails" } else { "the input ends" },
                b.len(),
                show(&r),
                hex(&b),
                c.show()
            ));
        }
    }
    cx.class(if reader { "reader fails" } else { "input ends" });
    cx.class(&format!("ends in {f:?}"));
    Ok(at.len())
}

// ------------------------------------------------------------------- arbitrary

const INPUTS: [Fmt; 9] = [
    Fmt::JsonStr, Fmt::JsonSlice, Fmt::JsonReader, Fmt::Cbor, Fmt::Bincode, Fmt::BincodeReader, Fmt::BincodeVar,
    Fmt::BincodeBig, Fmt::Postcard,
];

/// Documents made of what the family knows.
fn gen_near(s: &mut Src, o: &Ops, c: &Case, depth: usize) -> Doc {
    let key = |s: &mut Src| match s.below(5) {
        0 => Doc::s(o.tag_key().unwrap_or("type")),
        1 => Doc::s("value"),
        2 => match o.kind {
            Kind::Adj { content, .. } => Doc::s(content),
            _ => Doc::s(o.tags[c.i]),
        },
        3 => Doc::s(o.tags[s.below(NTYPES)]),
        _ => match strip_new(&c.s) {
            S::Struct(st) if !st.fields.is_empty() => Doc::s(st.fields[s.below(st.fields.len())].name),
            S::Enum(_, v, _) => Doc::s(v[s.below(v.len())].name),
            _ => Doc::Str(s.string(4)),
        },
    };
    match s.below(if depth == 0 { 3 } else { 9 }) {
        0 => key(s),
        1 => gen_doc(s, 0),
        2 => Doc::Unit,
        3 => Doc::seq((0..s.len(3)).map(|_| gen_near(s, o, c, depth - 1)).collect()),
        4 => expected(o.kind, o.tags[c.i], &gen_near(s, o, c, depth - 1)).simplify(),
        _ => {
            let n = s.len(4);
            Doc::map((0..n).map(|_| (key(s), gen_near(s, o, c, depth - 1))).collect())
        }
    }
}

/// Many containers in each other, inside an object.
fn deep(s: &mut Src, o: &Ops, c: &Case, cbor: bool) -> Vec<u8> {
    let n = if cbor { 1 + s.below(CBOR_DEPTH) } else { *s.pick(&[10, 60, 120, 127, 128, 129, 255, 256, 257, 1000, 20_000]) };
    let t = o.tag_key().unwrap_or("type");
    let tag = o.tags[c.i];
    let mut b = vec![];
    let kind = s.below(4);
    let head = s.bool();
    if cbor {
        let st = |b: &mut Vec<u8>, x: &str| b.extend(to_cbor(&Doc::s(x), CborStyle::default()).unwrap());
        b.push(0xa2);
        if head {
            st(&mut b, t);
            st(&mut b, tag);
        }
        st(&mut b, "value");
        for _ in 0..n {
            match kind {
                0 => b.push(0x81),
                1 => b.push(0x9f),
                2 => b.extend([0xa1, 0x61, b'a']),
                _ => b.extend([0xc1]),
            }
        }
        b.push(0xf6);
        if kind == 1 {
            b.extend(vec![0xff; n]);
        }
        if !head {
            st(&mut b, t);
            st(&mut b, tag);
        }
    } else {
        let q = |x: &str| to_json(&Doc::s(x)).unwrap();
        let mut x = String::from("{");
        if head {
            x += &format!("{}:{},", q(t), q(tag));
        }
        x += "\"value\":";
        let (open, close) = match kind {
            0 => ("[", "]"),
            1 => ("{\"a\":", "}"),
            2 => ("[{\"\":[", "]}]"),
            _ => ("[[],", "]"),
        };
        for _ in 0..n {
            x += open;
        }
        x += "null";
        for _ in 0..n {
            x += close;
        }
        if !head {
            x += &format!(",{}:{}", q(t), q(tag));
        }
        x += "}";
        b = x.into_bytes();
    }
    b
}

/// How deeply CBOR that may be rejected is nested at most: the known finding is that
/// each level quadruples the error's length.
const CBOR_DEPTH: usize = 7;

/// How many containers are open at the same time at most, up to where the bytes make sense.
fn cbor_depth(b: &[u8]) -> usize {
    // Items left in each open container; None: until the break.
    let mut open: Vec<Option<u64>> = vec![];
    let mut max = 0;
    let mut p = 0;
    while let Some(x) = b.get(p) {
        p += 1;
        let (major, info) = (x >> 5, x & 31);
        let len = match info {
            0..=23 => Some(u64::from(info)),
            24..=27 => {
                let n = 1usize << (info - 24);
                let Some(v) = b.get(p..p + n) else { return max };
                p += n;
                Some(v.iter().fold(0, |a, x| a << 8 | u64::from(*x)))
            }
            31 => None,
            _ => return max,
        };
        let mut closes = true;
        match (major, len) {
            (2 | 3, Some(n)) => p = p.saturating_add(n as usize),
            (2 | 3 | 4 | 5, None) => {
                open.push(None);
                closes = false;
            }
            (4, Some(n)) if n > 0 => {
                open.push(Some(n));
                closes = false;
            }
            (5, Some(n)) if n > 0 => {
                open.push(Some(n.saturating_mul(2)));
                closes = false;
            }
            (6, Some(_)) => {
                open.push(Some(1));
                closes = false;
            }
            (7, None) => {
                if open.pop().is_none() {
                    return max;
                }
            }
            _ => {}
        }
        max = max.max(open.len());
        while closes {
            match open.last_mut() {
                Some(Some(1)) => {
                    open.pop();
                }
                Some(Some(n)) => {
                    *n -= 1;
                    closes = false;
                }
                _ => closes = false,
            }
        }
        if open.is_empty() {
            return max;
        }
    }
    max
}

/// Deep nesting in CBOR: read where it is right; the known finding where it is wrong.
fn nesting(cx: &mut Cx) -> R {
    let any = S::Struct(St {
        name: "Any",
        fields: vec![F { name: "f", s: S::Any, dflt: false, skip_none: false }],
        names: intern_list(&["f"]),
        deny: false,
        lazy: false,
    });
    set_world(Rc::new(vec![any; NTYPES]));
    for o in FAMS {
        for (n, map) in [(3, false), (12, true), (100, false), (100, true)] {
            let mut d = Doc::U64(5);
            for _ in 0..n {
                d = if map { Doc::map(vec![(Doc::s("k"), d)]) } else { Doc::seq(vec![d]) };
            }
            let x = expected(o.kind, o.tags[2], &Doc::map(vec![(Doc::s("f"), d)])).simplify();
            for turn in [false, true] {
                let mut x = x.clone();
                if let Doc::Map(_, m) = &mut x {
                    if turn {
                        m.reverse();
                    }
                }
                for way in [JSON, CBOR, Way::Cbor { indefinite: true, wide: true }] {
                    let got = way.get(o, &x).ok_or("harness: form")?;
                    cx.check();
                    if !matches!(got, Ok((2, _))) {
                        return Err(format!("{} {way:?}: {n} levels of nesting give {}", o.name, show(&got)));
                    }
                }
            }
        }
    }
    // Rejected, the error of each level is quoted by the next.
    set_world(Rc::new(vec![S::Any; NTYPES]));
    let length = |n: usize| {
        let mut d = Doc::Unit;
        for _ in 0..n {
            d = Doc::seq(vec![d]);
        }
        let x = expected(Kind::Ext, FAMS[0].tags[0], &d).simplify();
        let mut b = to_cbor(&x, CborStyle::default()).unwrap();
        b.pop();
        FAMS[0].dec(Fmt::Cbor, &Enc::Bytes(b)).map_or_else(|m| m.len(), |_| 0)
    };
    cx.check();

    if length(8) > 8 * length(5) {
        cx.known("quoted-errors");
    }
    Ok(())
}

fn arbitrary(s: &mut Src, cx: &mut Cx) -> R {
    let p = pick(s);
    let o = p.each()[s.below(3)];
    let avoid = o.tag_key().into_iter().collect();
    let lazy = s.chance(1, 4);
    let c = gen_case(s, &Cfg { avoid, bool_keys: false, lazy, ..Cfg::full() });
    let f = *s.pick(&INPUTS);
    let json = f.is_json();
    let mut damaged = 0;
    let kind = s.weighted(&[8, 2, 5, 1]);
    let b = match kind {
        0 => {
            let d = concrete(o.kind, &c, f.human_readable())?;
            let x = if f.self_describing() { reordered(s, o, &c, f.human_readable())? } else { expected(o.kind, o.tags[c.i], &d) };
            if is_int(o) && collides(&d, o.tag_key().unwrap()) {
                cx.discard("own key collides with the tag");
                return Ok(());
            }
            let mut b = match f {
                _ if json => to_json(&x).map(|t| t.into_bytes()),
                Fmt::Cbor => to_cbor(&x, CborStyle { indefinite: s.chance(1, 3), chunked: s.chance(1, 4), wide: s.chance(1, 4) }),
                f => match enc(f, &x) {
                    Ok(Enc::Bytes(b)) => Some(b),
                    _ => None,
                },
            }
            .unwrap_or_default();
            damaged = s.below(6);
            for _ in 0..damaged {
                mutate(s, &mut b);
            }
            b
        }
        1 => {
            let n = s.below(60);
            (0..n).map(|_| s.byte()).collect()
        }
        2 => {
            let x = gen_near(s, o, &c, 3);
            match f {
                _ if json => to_json(&x).map(|t| t.into_bytes()),
                Fmt::Cbor => to_cbor(&x, CborStyle { indefinite: s.chance(1, 3), ..CborStyle::default() }),
                f => match enc(f, &x) {
                    Ok(Enc::Bytes(b)) => Some(b),
                    _ => None,
                },
            }
            .unwrap_or_default()
        }
        _ => deep(s, o, &c, !json),
    };
    if f == Fmt::Cbor && cbor_depth(&b) > CBOR_DEPTH {
        cx.discard("known finding: CBOR nested more deeply");
        return Ok(());
    }
    let e = Enc::Bytes(b.clone());
    let got = o.dec(f, &e);
    cx.check();
    let again = o.dec(f, &e);
    if got != again {
        return Err(format!("{} {f:?}: first {}, then {}\n{}", o.name, show(&got), show(&again), hex(&b)));
    }
    cx.class(&format!("{} {f:?} {}", ["mutated", "bytes", "document", "deep"][kind], if got.is_ok() { "accepted" } else { "rejected" }));
    let recognized = match &got {
        Ok(_) => true,
        Err(m) => !m.contains("unknown variant"),
    };
    if recognized && b.len() > 2 {
        cx.nontrivial(&format!("{} {:?} {b:?}", o.name, c.s));
    }
    cx.sample(|| format!("{} {f:?} type D{} = {:?}\n{}", o.name, c.i, c.s, if json { String::from_utf8_lossy(&b).into_owned() } else { hex(&b) }));
    let Ok((i, v)) = got else { return Ok(()) };
    if damaged == 0 && kind == 0 && i != c.i {
        return Err(format!("{} {f:?}: another type than written\n{}", o.name, hex(&b)));
    }
    if is_int(o) {
        let t = world()[i].clone();
        let d = crate::fam::direct(i).rec(f.human_readable(), i, &v)?;
        if collides(&d, o.tag_key().unwrap()) {
            cx.discard("own key collides with the tag");
            return Ok(());
        }
        if asks_any(&t) {
            cx.discard("a value read through deserialize_any at the top");
            return Ok(());
        }
    }
    if !concrete_ok(f, i, &v) {
        cx.discard("the format does not round-trip the concrete value");
        return Ok(());
    }
    cx.check();
    let again = o.enc(f, i, &v);
    let back = match &again {
        Ok(e) => o.dec(f, e),
        Err(m) => Err(m.clone()),
    };
    if back != Ok((i, v.clone())) {
        return Err(format!(
            "{} {f:?} accepted {} as D{i} {v:?}\nbut that is written as {}\nand read as {}",
            o.name,
            hex(&b),
            again.map_or_else(|m| m, |e| e.show()),
            show(&back)
        ));
    }
    Ok(())
}

// ----------------------------------------------------------------------- modes

/// A document of the object, perhaps damaged, reordered, without tag or with another.
fn variation(s: &mut Src, o: &Ops, c: &Case) -> Result<Doc, String> {
    let d = concrete(o.kind, c, true)?;
    let mut x = expected(o.kind, o.tags[c.i], &d).simplify();
    for _ in 0..s.below(3) {
        damage(s, &mut x);
    }
    if let Doc::Map(_, m) = &mut x {
        match s.below(5) {
            0 | 1 if m.len() > 1 => {
                let head = m.remove(0);
                let at = s.below(m.len() + 1);
                m.insert(at, head);
            }
            2 if !m.is_empty() => {
                m.remove(0);
            }
            3 if !m.is_empty() => {
                let t = Doc::s(s.pick(&["alpha", "Alpha", "nope", "", "ALPHA"]));
                if o.tag_key().is_some() {
                    m[0].1 = t;
                } else {
                    m[0].0 = t;
                }
            }
            _ => {}
        }
    }
    Ok(x)
}

#[cfg(feature = "oneway")]
fn modes(s: &mut Src, cx: &mut Cx) -> R {
    let (both, one_s, one_d) = *s.pick(&ONE_WAY);
    let avoid = if s.chance(1, 6) { vec![] } else { both.tag_key().into_iter().collect() };
    let lazy = s.chance(1, 4);
    let c = gen_case(s, &Cfg { avoid, bool_keys: false, lazy, ..Cfg::full() });
    for hr in [true, false] {
        let (a, b) = (both.rec(hr, c.i, &c.v), one_s.rec(hr, c.i, &c.v));
        cx.check();
        if a != b {
            return Err(format!("{} and {} differ: {a:?}, {b:?}\n{}", both.name, one_s.name, c.show()));
        }
    }
    for f in [Fmt::JsonStr, Fmt::JsonReader, Fmt::JsonValue, Fmt::Cbor, Fmt::Bincode, Fmt::BincodeVar, Fmt::BincodeBig, Fmt::Postcard] {
        let (a, b) = (both.enc(f, c.i, &c.v), one_s.enc(f, c.i, &c.v));
        cx.check();
        if a != b {
            return Err(format!("{} and {} differ in {f:?}: {a:?}, {b:?}\n{}", both.name, one_s.name, c.show()));
        }
        if let Ok(e) = b {
            let (a, b) = (both.dec(f, &e), one_d.dec(f, &e));
            cx.check();
            if a != b {
                return Err(format!("{} and {} differ in {f:?}: {}, {}\n{}", both.name, one_d.name, show(&a), show(&b), e.show()));
            }
            if b.is_ok() {
                cx.class("written by one, read by the other");
            }
        }
    }
    let x = variation(s, both, &c)?;
    let mut read = false;
    for way in [JSON, CBOR, OWN, Way::Own { strs: Strs::Owned, bytes: Strs::Transient, narrow: true }] {
        let Some(e) = way.prepare(&x) else { continue };
        let (a, b) = (way.decode(both, &e), way.decode(one_d, &e));
        cx.check();
        read |= a.is_ok();
        if a != b {
            return Err(format!("{} and {} differ: {}\n{}\n{}\n{}", both.name, one_d.name, show(&a), show(&b), way.text(&x), c.show()));
        }
    }
    cx.class(&format!("{} {}", both.name, if read { "read" } else { "rejected" }));
    if x.count() >= 3 {
        cx.nontrivial(&format!("{} {:?} {:?} {x:?}", both.name, c.s, c.v));
    }
    cx.sample(|| format!("{} {}\n{x:?}", both.name, c.show()));
    Ok(())
}

/// Serialize-only traits and impls with generics.
#[cfg(feature = "oneway")]
fn generic(cx: &mut Cx) -> R {
    use serde::Serialize;
    #[typetag::serialize]
    trait Ext<'a, A, const N: usize, B: Clone = u8>
    where
        A: 'static,
    {
        fn get(&self) -> [A; N];
        fn other(&self) -> &'a B;
    }
    #[typetag::serialize(tag = "type")]
    trait Int<A> {
        fn get(&self) -> A;
    }
    #[typetag::serialize(tag = "t", content = "c")]
    trait Adj<A: ?Sized> {
        fn get(&self) -> &A;
    }
    #[derive(Serialize)]
    struct One<'a, A, const N: usize> {
        a: Vec<A>,
        #[serde(skip)]
        b: &'a str,
    }
    #[typetag::serialize]
    impl<'a, A: Serialize + Copy + 'static, const N: usize> Ext<'a, A, N, str0> for One<'a, A, N> {
        fn get(&self) -> [A; N] {
            [self.a[0]; N]
        }
        fn other(&self) -> &'a str0 {
            &str0
        }
    }
    #[allow(non_camel_case_types)]
    #[derive(Clone)]
    struct str0;
    #[typetag::serialize(name = "renamed")]
    impl<'a, A, const N: usize> Int<A> for One<'a, A, N>
    where
        A: Serialize + Clone,
    {
        fn get(&self) -> A {
            self.a[0].clone()
        }
    }
    #[typetag::serialize]
    impl<A: Serialize, const N: usize> Adj<[A]> for One<'_, A, N> {
        fn get(&self) -> &[A] {
            &self.a
        }
    }
    let text = String::from("borrowed");
    let x = One::<u16, 3> { a: vec![7, 8], b: &text };
    let e: &dyn Ext<u16, 3, str0> = &x;
    let f: Box<dyn Int<u16> + '_> = Box::new(One::<u16, 2> { a: vec![7, 8], b: &text });
    let a: &(dyn Adj<[u16]> + Send + Sync) = &One::<u16, 3> { a: vec![], b: &text };
    let seen = [
        (serde_json::to_string(e), "{\"One\":{\"a\":[7,8]}}"),
        (serde_json::to_string(&f), "{\"type\":\"renamed\",\"a\":[7,8]}"),
        (serde_json::to_string(a), "{\"t\":\"One\",\"c\":{\"a\":[]}}"),
    ];
    for (got, want) in seen {
        cx.check();
        if got.as_ref().ok().map(|s| s.as_str()) != Some(want) {
            return Err(format!("generic trait or impl: {got:?} instead of {want}"));
        }
    }
    let _ = (e.get(), e.other(), f.get(), a.get(), x.b);
    Ok(())
}

// ----------------------------------------------------------------------- forms

#[cfg(feature = "forms")]
fn forms(s: &mut Src, cx: &mut Cx) -> R {
    let fs = *s.pick(&FORMS);
    let o = fs.ops;
    let avoid = if s.chance(1, 6) { vec![] } else { o.tag_key().into_iter().collect() };
    let c = gen_case(s, &Cfg { avoid, bool_keys: false, depth: 2, ..Cfg::full() });
    const F: [Fmt; 4] = [Fmt::JsonStr, Fmt::Cbor, Fmt::Bincode, Fmt::Postcard];
    let mut inputs = vec![];
    for form in fs.ser {
        for hr in [true, false] {
            let (a, b) = (o.rec(hr, c.i, &c.v), (form.rec)(hr, c.i, &c.v));
            cx.check();
            if a != b {
                return Err(format!("{}: {} differs from the object: {b:?}, {a:?}\n{}", o.name, form.name, c.show()));
            }
        }
        for f in F {
            let (a, b) = (o.enc(f, c.i, &c.v), (form.enc)(f, c.i, &c.v));
            cx.check();
            if a != b {
                return Err(format!("{} {f:?}: {} differs from the object: {b:?}, {a:?}\n{}", o.name, form.name, c.show()));
            }
            if let (Ok(e), true) = (b, form.name == "&dyn T") {
                inputs.push((f, e));
            }
        }
    }
    let x = variation(s, o, &c)?;
    for way in [JSON, CBOR] {
        if let Some(e) = way.prepare(&x) {
            inputs.push((if way == JSON { Fmt::JsonStr } else { Fmt::Cbor }, e));
        }
    }
    for (f, e) in &inputs {
        let a = o.dec(*f, e);
        for form in fs.de {
            let b = (form.dec)(*f, e);
            cx.check();
            cx.class(&format!("{f:?} {}", if b.is_ok() { "accepted" } else { "rejected" }));
            if a != b {
                return Err(format!(
                    "{} {f:?}: {} gives {}, Box<dyn T> {}\n{}",
                    o.name, form.name, show(&b), show(&a), e.show()
                ));
            }
        }
    }
    let cfg = || DeCfg::new(Strs::Transient, Strs::Owned);
    let a = o.doc(&x, &cfg());
    for form in fs.de {
        let b = (form.doc)(&x, &cfg());
        cx.check();
        if a != b {
            return Err(format!("{}: {} gives {}, Box<dyn T> {}\n{x:?}", o.name, form.name, show(&b), show(&a)));
        }
    }
    cx.class(&format!("{} with {} ways to decode", o.name, fs.de.len()));
    if x.count() >= 4 {
        cx.nontrivial(&format!("{} {:?} {:?} {x:?}", o.name, c.s, c.v));
    }
    cx.sample(|| format!("{} {}\n{x:?}", o.name, c.show()));
    Ok(())
}
