//! Generated uses of the macros, valid and not (C21).

use crate::run::{Cx, Prop, R};
use crate::rustc::{rustc, Dir, Kind as Emit};
use crate::src::Src;
use serde_json::Value;
use std::fmt::Write as _;
use std::time::Duration;

pub const PROPS: &[&Prop] = &[&C21];

const C21: Prop = Prop {
    id: "C21",
    rule: "the batch holds uses to be accepted and uses to be rejected",
    max_len: 900,
    quick: 480,
    thorough: 12000,
    case,
    shrink: 90,
    patience: Duration::from_secs(300),
    assumptions: &[
        "items are compiled by the installed stable rustc for x86_64-unknown-linux-gnu",
        "the accepted attribute arguments are those listed in the documentation and in the comments of impl/src/parse.rs, each possibly followed by a comma",
    ],
    ..Prop::BASE
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode {
    Serde,
    Ser,
    De,
}
use Mode::*;

impl Mode {
    fn attr(self) -> &'static str {
        match self {
            Serde => "serde",
            Ser => "serialize",
            De => "deserialize",
        }
    }
    fn ser(self) -> bool {
        self != De
    }
    fn de(self) -> bool {
        self != Ser
    }
}

struct Item {
    text: String,
    /// Why it must be rejected.
    bad: Option<String>,
    /// It is the compiler, not the macro, that rejects it.
    late: bool,
}

// ---- Argument lists ----

#[derive(Clone, PartialEq, Eq, Debug)]
struct Tok {
    /// What the reference grammar sees.
    kind: char,
    text: String,
}

fn tok(kind: char, text: &str) -> Tok {
    Tok { kind, text: text.to_owned() }
}

const WORDS: &[(char, &str)] = &[
    ('t', "tag"),
    ('c', "content"),
    ('d', "default_variant"),
    ('u', "deny_unknown_fields"),
    ('n', "name"),
    ('x', "tags"),
    ('x', "Tag"),
    ('x', "default"),
    ('x', "deny_unknown"),
    ('x', "rename"),
    ('x', "rename_all"),
    ('x', "untagged"),
    ('x', "content_"),
    ('x', "_"),
    ('x', "r#tag_"),
    ('x', "crate"),
    ('x', "type"),
    ('x', "tag::x"),
];

const OTHERS: &[&str] = &[
    "5", "'c'", "true", "b\"x\"", "c\"x\"", "CONST", "concat!(\"a\", \"b\")", "1.5", "(\"a\")", "{ \"a\" }", "[\"a\"]", "-", ";", ":", "=>", "==", "+ 1",
    ".", "'a", "#", "?", "!", "..", "&",
];

const STRINGS: &[&str] = &["\"type\"", "r\"type\"", "r##\"type\"##", "\"\\x74ype\"", "\"\"", "r\"raw\"", "\"raw\"", "r#\"a\"b\"#", "\"\\u{e9}\\n\"", "\"a b\"", "\"tag\""];

/// What a literal of these stands for.
fn value_of(t: &str) -> String {
    match t {
        "\"\\x74ype\"" => "type".to_owned(),
        "\"\\u{e9}\\n\"" => "\u{e9}\n".to_owned(),
        _ => {
            let t = t.strip_prefix('r').unwrap_or(t);
            let hashes = t.len() - t.trim_start_matches('#').len();
            t[hashes + 1..t.len() - hashes - 1].to_owned()
        }
    }
}

fn string(s: &mut Src, i: usize) -> Tok {
    // Different from one another.
    let t = *s.pick(STRINGS);
    let t = if i == 0 { t.to_owned() } else { format!("\"key{i}\"") };
    tok('s', &t)
}

fn trait_list(s: &mut Src, w: [usize; 3]) -> Vec<Tok> {
    let mut v: Vec<Tok> = vec![];
    let field = |s: &mut Src, v: &mut Vec<Tok>, k: char, word: &str, i: usize| {
        if !v.is_empty() {
            v.push(tok(',', ","));
        }
        v.push(tok(k, word));
        if k != 'u' {
            v.push(tok('=', "="));
            v.push(string(s, i));
        }
    };
    match s.weighted(&w) {
        0 => return v,
        1 => {
            field(s, &mut v, 't', "tag", 0);
            if s.bool() {
                field(s, &mut v, 'd', "default_variant", 1);
            }
        }
        _ => {
            field(s, &mut v, 't', "tag", 0);
            field(s, &mut v, 'c', "content", 2);
            let (d, u, first) = (s.bool(), s.bool(), s.bool());
            if u && first {
                field(s, &mut v, 'u', "deny_unknown_fields", 3);
            }
            if d {
                field(s, &mut v, 'd', "default_variant", 1);
            }
            if u && !first {
                field(s, &mut v, 'u', "deny_unknown_fields", 3);
            }
        }
    }
    if s.chance(1, 3) {
        v.push(tok(',', ","));
    }
    v
}

/// Arguments each written as it should be: any of them, in any order.
fn field_list(s: &mut Src) -> Vec<Tok> {
    let mut v: Vec<Tok> = vec![];
    let n = 1 + s.weighted(&[3, 4, 3, 2]);
    for i in 0..n {
        let (k, w) = match s.weighted(&[5, 3, 3, 4, 1]) {
            _ if i == 0 && s.chance(2, 3) => ('t', "tag"),
            0 => ('t', "tag"),
            1 => ('c', "content"),
            2 => ('d', "default_variant"),
            3 => ('u', "deny_unknown_fields"),
            _ => ('n', "name"),
        };
        if i > 0 {
            v.push(tok(',', ","));
        }
        v.push(tok(k, w));
        if k != 'u' {
            v.push(tok('=', "="));
            // Perhaps the key of another one.
            let i = if k == 'c' && s.chance(1, 3) { 0 } else { i };
            v.push(string(s, i));
        }
    }
    if s.chance(1, 3) {
        v.push(tok(',', ","));
    }
    v
}

fn any_tok(s: &mut Src) -> Tok {
    match s.weighted(&[4, 2, 2, 2, 2]) {
        0 => {
            let (k, w) = *s.pick(WORDS);
            tok(k, w)
        }
        1 => tok('=', "="),
        2 => tok(',', ","),
        3 => string(s, 0),
        _ => tok('x', s.pick(OTHERS)),
    }
}

/// Splits at the commas.
fn parts(v: &[Tok]) -> Vec<Vec<Tok>> {
    v.split(|t| t.kind == ',').map(|p| p.to_vec()).filter(|p| !p.is_empty()).collect()
}

fn join(p: &[Vec<Tok>]) -> Vec<Tok> {
    p.join(&tok(',', ","))
}

fn mutate(s: &mut Src, v: &mut Vec<Tok>) {
    let at = s.below(v.len().max(1));
    match s.weighted(&[2, 2, 2, 2, 2, 2, 2, 1]) {
        0 if !v.is_empty() => {
            v.remove(at);
        }
        1 => {
            let t = any_tok(s);
            v.insert(at.min(v.len()), t);
        }
        2 if !v.is_empty() => v[at] = any_tok(s),
        3 if v.len() > 1 => {
            let n = v.len();
            v.swap(at, (at + 1) % n);
        }
        4 => {
            // Another order of the arguments.
            let mut p = parts(v);
            if p.len() > 1 {
                let i = s.below(p.len());
                let j = s.below(p.len());
                p.swap(i, j);
            }
            *v = join(&p);
        }
        5 => {
            // One of them again.
            let mut p = parts(v);
            if !p.is_empty() {
                let i = s.below(p.len());
                let x = p[i].clone();
                let j = s.below(p.len() + 1);
                p.insert(j, x);
            }
            *v = join(&p);
        }
        6 => {
            // One of them left out, or another one added.
            let mut p = parts(v);
            if !p.is_empty() && s.bool() {
                let i = s.below(p.len());
                p.remove(i);
            } else {
                let (k, w) = *s.pick(WORDS);
                let mut x = vec![tok(k, w)];
                if s.chance(2, 3) {
                    x.extend([tok('=', "="), string(s, 0)]);
                }
                let j = p.len() - s.below(p.len() + 1);
                p.insert(j, x);
            }
            *v = join(&p);
        }
        _ => v.push(any_tok(s)),
    }
}

fn kinds(v: &[Tok]) -> String {
    v.iter().map(|t| t.kind).collect()
}

fn text_of(v: &[Tok]) -> String {
    v.iter().map(|t| t.text.as_str()).collect::<Vec<_>>().join(" ")
}

/// Every list of arguments there is for traits.
fn trait_args_ok(v: &[Tok]) -> bool {
    const ALL: &[&str] = &[
        "",
        "t=s",
        "t=s,d=s",
        "t=s,c=s",
        "t=s,c=s,d=s",
        "t=s,c=s,u",
        "t=s,c=s,d=s,u",
        "t=s,c=s,u,d=s",
    ];
    let k = kinds(v);
    let strings: Vec<String> = v.iter().filter(|t| t.kind == 's').map(|t| value_of(&t.text)).collect();
    if k.starts_with("t=s,c=s") && strings[0] == strings[1] {
        return false;
    }
    ALL.contains(&k.as_str()) || k.strip_suffix(',').is_some_and(|k| !k.is_empty() && ALL.contains(&k))
}

/// `e` is an expression, well-typed and constant; `b` an ill-typed one.
fn impl_args_ok(v: &[Tok]) -> bool {
    ["", "n=e", "n=e,", "n=s", "n=s,"].contains(&kinds(v).as_str())
}

const NAMES: &[&str] = &[
    "\"a name\"",
    "concat!(\"a\", 1)",
    "stringify!(a)",
    "vpp::same(\"a\")",
    "{ const X: &str = \"x\"; X }",
    "{ \"a\" }",
    "(\"a\")",
    "if true { \"a\" } else { \"b\" }",
    "match 1 { 1 => \"a\", _ => \"b\" }",
    "[\"a\", \"b\"][0]",
    "(\"a\", 1).0",
    "NAMED",
    "self::NAMED",
    "module_path!()",
    "unsafe { \"a\" }",
    "<u8 as Named1>::NAME",
    "&*\"a\"",
    "\"a\" as &'static str",
];

const BAD_NAMES: &[&str] = &[
    "5", "'c'", "b\"x\"", "true", "()", "Some(\"a\")", "(\"a\", \"b\")", "[\"a\"]", "1 + 1", "u8", "NOSUCH", "|| \"a\"", "\"a\".len()",
    "\"a\".to_string()", "c\"a\"", "{}", "{ ; }", "nosuch!()", "\"a\" + \"b\"", "Self::X", "std::string::String::new()",
];

fn impl_list(s: &mut Src, need: bool) -> Vec<Tok> {
    if !need && s.chance(2, 5) {
        return vec![];
    }
    let mut v = vec![tok('n', "name"), tok('=', "="), tok('e', s.pick(NAMES))];
    if s.chance(1, 3) {
        v.push(tok(',', ","));
    }
    v
}

// ---- Items ----

const MEMBERS: &[(&str, &str)] = &[
    ("", ""),
    ("fn m(&self);", "fn m(&self) {}"),
    ("fn m(&self) -> u8 { 1 }", ""),
    ("fn m(&mut self, x: &dyn ::core::fmt::Debug);", "fn m(&mut self, _x: &dyn ::core::fmt::Debug) {}"),
    ("type A where Self: Sized;", "type A = u8;"),
    ("type A: Clone where Self: Sized;", "type A = u8;"),
    ("type A where u8: Copy, Self: Sized;", "type A = u8;"),
    ("type A where Self: Sized; type B where Self: Sized;", "type B = u8; type A = u8;"),
    ("type A<'a> where Self: Sized;", "type A<'a> = &'a u8;"),
    ("fn g<X>(&self, x: X) where Self: Sized;", "fn g<X>(&self, _x: X) {}"),
    ("fn new() -> Self where Self: Sized;", "fn new() -> Self { loop {} }"),
    ("fn s() where Self: Sized {}", ""),
    ("fn c(self: ::std::boxed::Box<Self>);", "fn c(self: ::std::boxed::Box<Self>) {}"),
    ("fn l<'a>(&'a self, x: &'a str) -> &'a str { x }", ""),
];

const BAD_MEMBERS: &[(&str, &str, bool)] = &[
    ("const A: u8;", "const A: u8 = 1;", false),
    ("const A: u8 = 1;", "", false),
    ("fn m(&self); const A: &'static str;", "fn m(&self) {} const A: &'static str = \"\";", false),
    ("type A;", "type A = u8;", false),
    ("type A: Clone;", "type A = u8;", false),
    ("type A where Self: ::core::marker::Send;", "type A = u8;", false),
    ("type A where Self: 'static;", "type A = u8;", false),
    ("type A<'a> where Self: 'a;", "type A<'a> = &'a u8;", false),
    ("type A where u8: Sized;", "type A = u8;", false),
    ("type A where Self: Sized; type B;", "type A = u8; type B = u8;", false),
    ("fn m(&self); type A; fn n(&self) {}", "fn m(&self) {} type A = u8;", false),
    ("fn g<X>(&self, x: X);", "fn g<X>(&self, _x: X) {}", true),
    ("fn new() -> Self;", "fn new() -> Self { loop {} }", true),
    ("fn s();", "fn s() {}", true),
    ("fn m(&self, x: Self);", "fn m(&self, _x: Self) {}", true),
];

/// Written with a leading attribute `ATTR`.
const NOT_ITEMS: &[&str] = &[
    "ATTR struct A;",
    "ATTR pub struct A { x: u8 }",
    "ATTR enum A { B }",
    "ATTR fn f() {}",
    "ATTR pub unsafe fn f() {}",
    "ATTR mod m {}",
    "ATTR const A: u8 = 1;",
    "ATTR static A: u8 = 1;",
    "ATTR type A = u8;",
    "ATTR union A { x: u8 }",
    "ATTR use ::core::fmt;",
    "ATTR extern \"C\" {}",
    "ATTR macro_rules! m { () => {} }",
    "ATTR extern crate core as c;",
    "struct A; ATTR impl A {}",
    "struct A; ATTR impl A { fn m(&self) {} }",
    "struct A<X>(X); ATTR impl<X> A<X> {}",
    "trait A { ATTR fn m(&self); }",
    "struct A; trait B { fn m(&self); } impl B for A { ATTR fn m(&self) {} }",
    "fn f() { ATTR let _x = 1; }",
    "struct A { ATTR x: u8 }",
];

struct Case<'s, 'a> {
    s: &'s mut Src<'a>,
}

impl Case<'_, '_> {
    fn item(&mut self) -> Item {
        let s = &mut *self.s;
        match s.weighted(&[5, 4, 3, 3, 4, 2, 2, 4, 3]) {
            0 => self.whole(None),
            n => self.whole(Some(n)),
        }
    }

    /// A trait with an impl, with one thing wrong at most.
    fn whole(&mut self, wrong: Option<usize>) -> Item {
        let s = &mut *self.s;
        let mut bad: Option<String> = None;
        let mut late = false;
        let mode = *s.pick(&[Serde, Serde, Ser, De]);
        let mut imode = Some(mode);
        let mut tmode = Some(mode);
        let mut targs = trait_list(s, [2, 2, 3]);
        let mut members = *s.pick(MEMBERS);
        let mut tgen = "";
        let mut igen = "";
        let mut use_args = "";
        // Type, declaration, whether it can be encoded and decoded.
        let derive = |m: Mode| match m {
            Serde => "#[derive(::serde::Serialize, ::serde::Deserialize)] ",
            Ser => "#[derive(::serde::Serialize)] ",
            De => "#[derive(::serde::Deserialize)] ",
        };
        // It may be able to do more than it has to.
        let cap = if s.chance(1, 3) { Serde } else { mode };
        let d = derive(cap);
        let mut named = true;
        let (mut decl, mut ty): (String, String) = match s.weighted(&[8, 2, 1, 1, 2, 1, 1, 2, 1]) {
            1 => (format!("{d}enum X {{ A, B(u8) }}"), "X".into()),
            2 => (String::new(), "u32".into()),
            3 => (String::new(), "::std::vec::Vec<u8>".into()),
            4 => (format!("{d}struct X<A>(A);"), "X<u8>".into()),
            5 => (format!("pub mod m {{ {d}pub struct X; }}"), "self::m::X".into()),
            6 => (format!("{d}struct X; type Y = X;"), "Y".into()),
            7 => {
                named = false;
                (String::new(), (*s.pick(&["(u8, u8)", "[u8; 3]", "()", "(u32)", "((u8,), [u8; 2])", "(::std::vec::Vec<u8>)"])).into())
            }
            8 => {
                named = false;
                (format!("{d}struct X; macro_rules! mk {{ () => {{ X }} }}"), "mk!()".into())
            }
            _ => (format!("{d}struct X {{ x: u8 }}"), "X".into()),
        };
        let mut iargs = impl_list(s, !named);
        if mode == Ser && s.chance(1, 3) {
            (tgen, use_args) = *s.pick(&[("<P>", "<u8>"), ("<P: ?Sized = str>", ""), ("<'p, P: Clone>", "<'static, u8>"), ("<const N: usize>", "<3>"), ("<'p>", "<'static>")]);
            if members.0.contains("Self: 'static") {
                members = MEMBERS[0];
            }
        }
        if mode == Ser && s.chance(1, 4) && ty == "X<u8>" {
            igen = "<A: ::serde::Serialize>";
            ty = "X<A>".into();
        } else if s.chance(1, 16) {
            igen = "<>";
        }
        let mut style = s.below(8);
        let mut twice = false;
        let mut extra_impl = "";
        match wrong {
            None => {}
            Some(1) => {
                if s.chance(1, 2) {
                    targs = field_list(s);
                } else {
                    for _ in 0..1 + s.below(2) {
                        mutate(s, &mut targs);
                    }
                }
                if !trait_args_ok(&targs) {
                    bad = Some(format!("arguments of the trait: {}", text_of(&targs)));
                }
            }
            Some(2) => {
                if s.bool() {
                    if iargs.is_empty() {
                        iargs = impl_list(s, true);
                    }
                    for _ in 0..1 + s.below(2) {
                        mutate(s, &mut iargs);
                    }
                    // An expression may have become another one.
                    if kinds(&iargs).matches('e').count() == 1 && iargs.len() > 3 && kinds(&iargs) != "n=e," {
                        let tail: Vec<&str> = iargs.iter().skip_while(|t| t.kind != 'e').map(|t| t.text.as_str()).collect();
                        if tail.len() > 1 && tail[1] != "," {
                            iargs.truncate(3);
                        }
                    }
                } else {
                    let n = *s.pick(BAD_NAMES);
                    iargs = vec![tok('n', "name"), tok('=', "="), tok('b', n)];
                }
                // What an expression makes of the tokens is for the compiler; keep to plain ones.
                let k = kinds(&iargs);
                let value = iargs.iter().skip(2).take_while(|t| t.kind != ',').collect::<Vec<_>>();
                if k.starts_with("n=") && value.len() > 1 {
                    iargs = vec![tok('n', "name"), tok('=', "="), tok('b', "5")];
                } else if k.starts_with("n=x") && ["concat!(\"a\", \"b\")", "(\"a\")", "{ \"a\" }"].contains(&value[0].text.as_str()) {
                    iargs[2].kind = 'e';
                }
                if kinds(&iargs).is_empty() && !named {
                    bad = Some("unnamed type".into());
                } else if !impl_args_ok(&iargs) {
                    bad = Some(format!("arguments of the impl: {}", text_of(&iargs)));
                    late = kinds(&iargs).starts_with("n=b");
                }
            }
            Some(3) => {
                let t = s.pick(NOT_ITEMS);
                let args = match s.below(3) {
                    0 => String::new(),
                    1 => format!("({})", text_of(&targs)),
                    _ => "(name = \"a\")".to_owned(),
                };
                let a = format!("#[typetag::{}{args}]", mode.attr());
                return Item { text: t.replace("ATTR", &a), bad: Some("neither a trait nor a trait impl".into()), late: false };
            }
            Some(4) => {
                let m = *s.pick(BAD_MEMBERS);
                members = (m.0, m.1);
                late = m.2;
                bad = Some(format!("member {}", m.0));
            }
            Some(5) => {
                // Generics and decoding.
                let m = *s.pick(&[Serde, De]);
                (tmode, imode) = (Some(m), Some(m));
                let d = derive(m);
                if s.bool() {
                    (tgen, use_args) = *s.pick(&[("<P>", "<u8>"), ("<'p>", "<'static>"), ("<const N: usize>", "<3>"), ("<P = u8>", "")]);
                    (decl, ty) = (format!("{d}struct X;"), "X".into());
                    igen = "";
                } else {
                    (tgen, use_args) = ("", "");
                    igen = *s.pick(&["<A>", "<A: ::core::marker::Send>", "<A> "]);
                    (decl, ty) = (format!("{d}struct X<A>(::core::marker::PhantomData<A>);"), "X<A>".into());
                }
                if !named {
                    iargs = impl_list(s, true);
                }
                bad = Some("generics with deserialization".into());
            }
            Some(6) => {
                // No name for the type.
                let d = derive(Serde);
                let t = *s.pick(&["(u8, u8)", "[u8; 3]", "()", "(X)", "mk!()", "<X as vpp::Named>::Out", "&'static X", "fn()", "(X,)", "[X; 0]"]);
                decl = format!("{d}struct X; macro_rules! mk {{ () => {{ X }} }}");
                ty = t.to_owned();
                igen = "";
                iargs = vec![];
                bad = Some("unnamed type without a name".into());
            }
            Some(7) => {
                // Modes that differ, and missing attributes.
                late = true;
                let other = |s: &mut Src, m: Mode| *s.pick(&[Serde, Ser, De].into_iter().filter(|x| *x != m).collect::<Vec<_>>());
                let d = derive(Serde);
                (decl, ty) = (format!("{d}struct X;"), "X".into());
                (tgen, use_args, igen) = ("", "", "");
                if members.0.is_empty() && s.bool() {
                    members = MEMBERS[1];
                }
                match s.weighted(&[4, 4, 1, 2]) {
                    0 => {
                        imode = None;
                        if s.bool() {
                            style = 6;
                        }
                        bad = Some("an impl without the attribute".into());
                    }
                    1 => {
                        imode = Some(other(s, mode));
                        bad = Some(format!("{:?} impl of {:?} trait", imode.unwrap(), mode));
                    }
                    2 => {
                        tmode = None;
                        bad = Some("an impl of a trait without the attribute".into());
                    }
                    _ => {
                        twice = true;
                        bad = Some("the attribute twice".into());
                    }
                }
            }
            _ => {
                // Types that cannot be encoded or decoded.
                late = true;
                (tgen, use_args, igen) = ("", "", "");
                let (d, t) = match (s.below(4), mode) {
                    (0, Serde) => ("#[derive(::serde::Serialize)] struct X;", "X"),
                    (1, Serde) => ("#[derive(::serde::Deserialize)] struct X;", "X"),
                    (0 | 1, Ser) => ("#[derive(::serde::Deserialize)] struct X;", "X"),
                    (0 | 1, De) => ("#[derive(::serde::Serialize)] struct X;", "X"),
                    (2, Serde | De) => ("#[derive(::serde::Serialize, ::serde::Deserialize)] struct X<'a>(#[serde(borrow)] &'a str);", "X<'static>"),
                    _ => ("struct X;", "X"),
                };
                (decl, ty) = (d.to_owned(), t.to_owned());
                if s.chance(1, 3) {
                    // Also when a good impl stands beside it.
                    decl += match mode {
                        Serde => "#[derive(::serde::Serialize, ::serde::Deserialize)] struct Good;",
                        Ser => "#[derive(::serde::Serialize)] struct Good;",
                        De => "#[derive(::serde::Deserialize)] struct Good;",
                    };
                    extra_impl = "Good";
                }
                bad = Some(format!("{mode:?} of a type that is not ({d})"));
            }
        }
        let s = &mut *self.s;
        let attr = |s: &mut Src, m: Mode, v: &[Tok], style: usize| {
            let t = text_of(v);
            let args = if v.is_empty() && !s.chance(1, 4) {
                String::new()
            } else {
                match s.below(6) {
                    1 => format!("[{t}]"),
                    2 => format!("{{{t}}}"),
                    _ => format!("({t})"),
                }
            };
            match style {
                1 => format!("#[::typetag::{}{args}]", m.attr()),
                2 => format!("#[cfg_attr(all(), typetag::{}{args})]", m.attr()),
                3 => format!("/// Documented.\n#[typetag::{}{args}] #[allow(unused)]", m.attr()),
                _ => format!("#[typetag::{}{args}]", m.attr()),
            }
        };
        let vis = *s.pick(&["", "pub ", "pub(crate) ", "pub(super) ", "pub(in self) "]);
        let vis = if vis.contains("in self") { "pub(self) " } else { vis };
        let un = if s.chance(1, 8) { "unsafe " } else { "" };
        let sup = *s.pick(&["", "", ": Send", ": Send + Sync", ": ::core::marker::Sync", ": 'static"]);
        let sup = if sup == ": 'static" && !tgen.is_empty() { "" } else { sup };
        let sup = if ty == "X<A>" || tgen.contains("P") { "" } else { sup };
        let mut o = String::new();
        o += "#[allow(unused)] const NAMED: &str = \"named\"; #[allow(unused)] trait Named1 { const NAME: &'static str; } impl Named1 for u8 { const NAME: &'static str = \"u8\"; }\n";
        writeln!(o, "{decl}").unwrap();
        if let Some(m) = tmode {
            let a = attr(s, m, &targs, style);
            writeln!(o, "{a}").unwrap();
            if twice && s.bool() {
                writeln!(o, "{a}").unwrap();
                twice = false;
            }
        }
        writeln!(o, "{vis}{un}trait T{tgen}{sup} {{ {} }}", members.0).unwrap();
        if !extra_impl.is_empty() {
            writeln!(o, "{} {un}impl T for Good {{ {} }}", attr(s, mode, &[], 0), members.1).unwrap();
        }
        match imode {
            Some(m) => {
                let a = attr(s, m, &iargs, style);
                writeln!(o, "{a}").unwrap();
                if twice {
                    writeln!(o, "{a}").unwrap();
                }
            }
            None if style == 6 => writeln!(o, "#[cfg_attr(any(), typetag::{})]", mode.attr()).unwrap(),
            None => {}
        }
        writeln!(o, "{un}impl{igen} T{use_args} for {ty} {{ {} }}", members.1).unwrap();
        Item { text: o, bad, late }
    }
}

struct Batch {
    text: String,
    /// First and last line of each.
    lines: Vec<(u64, u64)>,
}

fn batch(items: &[&Item]) -> Batch {
    let mut text = String::from("#![allow(dead_code)]\n");
    let mut lines = vec![];
    for (i, it) in items.iter().enumerate() {
        let first = text.lines().count() as u64 + 1;
        write!(text, "mod i{i} {{\n{}\n}}\n", it.text.trim_end()).unwrap();
        lines.push((first, text.lines().count() as u64));
    }
    Batch { text, lines }
}

fn generate(s: &mut Src) -> (Vec<Item>, &'static str) {
    let edition = *s.pick(&["2021", "2018", "2024"]);
    let n = 4 + s.below(20);
    let mut c = Case { s };
    ((0..n).map(|_| c.item()).collect(), edition)
}

pub fn text(b: &[u8]) -> String {
    let (items, edition) = generate(&mut Src::new(b));
    let mut o = format!("// edition {edition}\n");
    for i in items {
        writeln!(o, "// {}\n{}", i.bad.as_deref().unwrap_or("to be accepted"), i.text).unwrap();
    }
    o
}

/// The lines of the errors, and what they say.
fn errors(stderr: &[u8]) -> Vec<(Vec<u64>, String)> {
    fn lines_of(span: &Value, out: &mut Vec<u64>) {
        if let Some(l) = span["line_start"].as_u64() {
            out.push(l);
        }
        if span["expansion"].is_object() {
            lines_of(&span["expansion"]["span"], out);
        }
    }
    String::from_utf8_lossy(stderr)
        .lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v["level"] == "error")
        .map(|v| {
            let mut ls = vec![];
            for sp in v["spans"].as_array().into_iter().flatten() {
                lines_of(sp, &mut ls);
            }
            (ls, v["rendered"].as_str().unwrap_or("").to_owned())
        })
        .collect()
}

fn case(s: &mut Src, cx: &mut Cx) -> R {
    let (items, edition) = generate(s);
    let dir = Dir::new();
    let good: Vec<&Item> = items.iter().filter(|i| i.bad.is_none()).collect();
    if !good.is_empty() {
        let b = batch(&good);
        let out = rustc(&dir.0, "good", &Emit::Check, edition, &b.text, &[])?;
        let es = errors(&out.stderr);
        if !out.status.success() {
            let at = es.iter().find_map(|(ls, _)| (0..good.len()).find(|i| ls.iter().any(|l| b.lines[*i].0 <= *l && *l <= b.lines[*i].1)));
            let shown = at.map_or(&b.text, |i| &good[i].text);
            let said: String = es.iter().map(|e| e.1.as_str()).collect();
            return Err(format!("a valid use is rejected:\n{said}\n---- edition {edition}\n{shown}"));
        }
        for _ in &good {
            cx.check();
            cx.class("accepted");
        }
    }
    for late in [false, true] {
        let bad: Vec<&Item> = items.iter().filter(|i| i.bad.is_some() && i.late == late).collect();
        if bad.is_empty() {
            continue;
        }
        let b = batch(&bad);
        let out = rustc(&dir.0, "bad", &Emit::Check, edition, &b.text, &[])?;
        let es = errors(&out.stderr);
        for (i, it) in bad.iter().enumerate() {
            cx.check();
            let why = it.bad.as_deref().unwrap_or("");
            cx.class(&format!("rejected: {}", why.split(':').next().unwrap_or("").chars().take(40).collect::<String>()));
            let here = |es: &[(Vec<u64>, String)], r: (u64, u64)| es.iter().any(|(ls, _)| ls.iter().any(|l| r.0 <= *l && *l <= r.1));
            if here(&es, b.lines[i]) {
                continue;
            }
            // Errors elsewhere may have kept the compiler from it.
            cx.class("compiled alone");
            let one = batch(&[it]);
            let out = rustc(&dir.0, "one", &Emit::Check, edition, &one.text, &[])?;
            let es1 = errors(&out.stderr);
            if out.status.success() {
                return Err(format!("an invalid use is accepted ({why}):\n---- edition {edition}\n{}", it.text));
            }
            if !here(&es1, one.lines[0]) {
                let said: String = es1.iter().map(|e| e.1.as_str()).collect();
                return Err(format!("an invalid use ({why}) is not rejected where it stands:\n{said}\n---- edition {edition}\n{}", it.text));
            }
        }
        if let Some((_, m)) = es.iter().find(|(_, m)| m.contains("attribute panicked")) {
            return Err(format!("the macro panics:\n{m}\n---- edition {edition}\n{}", b.text));
        }
    }
    if good.len() < items.len() && !good.is_empty() {
        cx.nontrivial(&items.iter().map(|i| i.text.as_str()).collect::<String>());
    }
    cx.sample(|| items.iter().map(|i| format!("{}: {}", i.bad.as_deref().unwrap_or("accepted"), i.text)).collect::<Vec<_>>().join("\n"));
    Ok(())
}
