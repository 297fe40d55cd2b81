//! Attributed code in demanding surroundings (C26).

use crate::run::{Cx, Prop, R};
use crate::rustc::{rustc, Dir, Kind as Emit};
use crate::src::Src;
use serde_json::Value;
use std::fmt::Write as _;
use std::time::Duration;

pub const PROPS: &[&Prop] = &[&C26];

const C26: Prop = Prop {
    id: "C26",
    rule: "a crate of 1 to 6 modules is generated, with crate attributes (no_std, no_implicit_prelude, forbid(unsafe_code), lints \
           denied or warned about), surroundings that take standard names for themselves, traits and impls in modules, function \
           bodies and macros. It is compiled twice, without and with the typetag attributes: if the first time gives no \
           diagnostics, the second must not either. Non-trivial: the first compiles cleanly and has a demanding surrounding.",
    max_len: 700,
    quick: 1400,
    thorough: 14000,
    case,
    shrink: 90,
    patience: Duration::from_secs(300),
    assumptions: &["crates are compiled by the installed stable rustc for x86_64-unknown-linux-gnu, editions 2018, 2021 and 2024"],
    ..Prop::BASE
};

const LINTS: &[&str] = &[
    "warnings",
    "missing_docs",
    "unused",
    "nonstandard_style",
    "future_incompatible",
    "let_underscore",
    "keyword_idents",
    "rust_2018_idioms",
    "rust_2021_compatibility",
    "rust_2024_compatibility",
    "missing_copy_implementations",
    "unreachable_pub",
    "unused_qualifications",
    "unused_results",
    "trivial_casts",
    "trivial_numeric_casts",
    "single_use_lifetimes",
    "elided_lifetimes_in_paths",
    "explicit_outlives_requirements",
    "unit_bindings",
    "variant_size_differences",
    "unused_lifetimes",
    "unused_macro_rules",
    "meta_variable_misuse",
    "macro_use_extern_crate",
    "absolute_paths_not_starting_with_crate",
    "ambiguous_negative_literals",
    "impl_trait_redundant_captures",
    "redundant_lifetimes",
    "missing_abi",
    "ffi_unwind_calls",
    "unsafe_op_in_unsafe_fn",
    "unused_import_braces",
    "redundant_imports",
    "non_local_definitions",
    "private_interfaces",
    "private_bounds",
    "improper_ctypes_definitions",
    "async_fn_in_trait",
    "refining_impl_trait",
];

/// Names that surroundings take, and what for.
const SHADOWS: &[&str] = &[
    "struct Box;",
    "struct Option;",
    "struct Result;",
    "struct Vec;",
    "struct String;",
    "struct BTreeMap;",
    "struct Registry;",
    "struct Entry;",
    "struct str;",
    "type u32 = ();",
    "type usize = ();",
    "type bool = ();",
    "trait Send {}",
    "trait Sync {}",
    "trait Sized {}",
    "trait Fn {}",
    "trait From {}",
    "trait Into {}",
    "trait Iterator {}",
    "trait IntoIterator {}",
    "trait Serialize {}",
    "trait Deserialize {}",
    "trait Serializer {}",
    "trait Deserializer {}",
    "trait Strictest {}",
    "fn Some() {}",
    "fn Ok() {}",
    "fn Err() {}",
    "fn drop() {}",
    "struct None;",
    "mod core {}",
    "mod std {}",
    "mod alloc {}",
    "mod serde {}",
    "mod inventory {}",
    "mod erased_serde {}",
    "mod once_cell {}",
    "mod internally {}",
    "mod private {}",
    "macro_rules! vec { () => {} }",
    "macro_rules! concat { () => {} }",
    "macro_rules! stringify { () => {} }",
    "macro_rules! panic { () => {} }",
    "macro_rules! submit { () => {} }",
    // Constants, statics and unit structs take names that variables of the same name cannot shadow.
    "static serializer: i8 = 0;",
    "const serializer: i8 = 0;",
    "const deserializer: i8 = 0;",
    "struct deserializer;",
    "static registry: i8 = 0;",
    "const map: i8 = 0;",
    "struct map;",
    "static names: i8 = 0;",
    "const registered: i8 = 0;",
    "const entry: i8 = 0;",
    "struct entry;",
    "const name: i8 = 0;",
    "static name: i8 = 0;",
    "const this: i8 = 0;",
    "const value: i8 = 0;",
    "static visitor: i8 = 0;",
    "const tag: i8 = 0;",
    "static content: i8 = 0;",
    "const object: i8 = 0;",
    "fn name() {}",
    "fn typetag() {}",
    "fn clone() {}",
];

const TRAITS: &[&str] = &[
    "Shape", "T", "S", "D", "E", "De", "Send", "Sync", "Sized", "Box", "Option", "Result", "Vec", "Some", "None", "Ok", "Err", "Serialize",
    "Deserialize", "Serializer", "Deserializer", "Registry", "Strictest", "Object", "Entry", "BTreeMap", "Drop", "Any", "Shape2", "Ünï",
    "String", "r#Raw", "Iterator", "Clone", "Fn",
];
const TYPES: &[&str] = &[
    "A", "Circle", "Box", "Option", "Result", "Vec", "String", "Some", "None", "Ok", "Err", "S", "D", "T", "Error", "Object", "Registry",
    "Self_", "Content", "Ünit",
];

struct Mod {
    /// With `@` where the attributes go: `@trait…;` and `@impl…;`.
    text: String,
    demanding: bool,
}

struct Crate {
    edition: &'static str,
    head: String,
    mods: Vec<Mod>,
    demanding: bool,
}

/// `\u{1}…\u{2}` holds what is only there with attributes.
fn attr(m: &str, args: &str, style: usize) -> String {
    let a = match style {
        1 => format!("#[::typetag::{m}{args}]"),
        2 => format!("#[cfg_attr(all(), typetag::{m}{args})]"),
        _ => format!("#[typetag::{m}{args}]"),
    };
    format!("\u{1}{a}\u{2}")
}

fn with(t: &str, on: bool) -> String {
    let mut o = String::new();
    let mut skip = false;
    for c in t.chars() {
        match c {
            '\u{1}' => skip = true,
            '\u{2}' => skip = false,
            c if on || !skip => o.push(c),
            _ => {}
        }
    }
    o
}

/// What a lint speaks against, and the lint.
const BLEMISHES: &[(&str, &str)] = &[
    ("unused_variables", "let x = 1i8;"),
    ("non_snake_case", "let Xx = 1i8; let _ = Xx;"),
    ("unused_parens", "let _ = (1i8);"),
    ("unreachable_code", "return; #[allow(unused)] let y = 1i8;"),
    ("path_statements", "let z = 1i8; z;"),
    ("unused_mut", "let mut z = 1i8; let _ = z;"),
    ("unused_assignments", "#[allow(unused_variables)] let mut z = 1i8; z = 2; let _ = &z;"),
    ("non_upper_case_globals", "const lower: i8 = 1; let _ = lower;"),
    ("non_camel_case_types", "#[allow(dead_code)] struct lower;"),
    ("unused_must_use, unused_results", "#[must_use] fn f() -> i8 { 1 } f();"),
    ("clippy::all", ""),
];

/// The predicates of a where clause, in some order.
fn predicates(s: &mut Src, must: &[&str], may: &[&str]) -> String {
    let mut v: Vec<&str> = must.to_vec();
    for m in may {
        if s.bool() {
            let at = s.below(v.len() + 1);
            v.insert(at, m);
        }
    }
    if s.bool() {
        v.reverse();
    }
    if v.is_empty() {
        return String::new();
    }
    format!("where {}{}", v.join(", "), if s.bool() { "," } else { "" })
}

fn module(s: &mut Src, edition: &str, safe: bool, short: bool) -> Mod {
    let mut demanding = false;
    let mode = *s.pick(&["serde", "serde", "serialize", "deserialize"]);
    let (ser, de) = (mode != "deserialize", mode != "serialize");
    let mut tn = (*s.pick(TRAITS)).to_owned();
    if tn == "Send" || tn == "Sync" || tn == "Sized" {
        demanding = true;
    }
    let mut types: Vec<String> = vec![];
    for _ in 0..1 + s.below(3) {
        let t = (*s.pick(TYPES)).to_owned();
        if t != tn && !types.contains(&t) {
            types.push(t);
        }
    }
    // Standard names with another meaning here.
    let mut shadows = String::new();
    let mut taken: Vec<&str> = vec![];
    if s.bool() {
        for _ in 0..1 + s.below(8) {
            let d = *s.pick(SHADOWS);
            let word = d.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| !w.is_empty() && *w != "macro_rules").nth(if d.starts_with("macro") { 0 } else { 1 }).unwrap_or("");
            let clash = types.iter().any(|t| t == word) || tn == word;
            if !clash && !taken.contains(&word) {
                taken.push(word);
                writeln!(shadows, "#[allow(non_camel_case_types, non_snake_case, non_upper_case_globals, unused)] {d}").unwrap();
                demanding = true;
            }
        }
    }
    let key = |s: &mut Src| *s.pick(&["\"type\"", "\"t\"", "r#\"a b\"#", "\"\\n\"", "\"\u{e9}\"", "\"\""]);
    let targs = match s.below(5) {
        0 => String::new(),
        1 => format!("(tag = {})", key(s)),
        2 => format!("(tag = {}, default_variant = \"A\")", key(s)),
        3 => format!("(tag = {}, content = \"c c\")", key(s)),
        _ => format!("(tag = {}, content = \"c\", default_variant = \"A\", deny_unknown_fields)", key(s)),
    };
    let (mut gen, mut uses, mut whr) = ("", "", "");
    if !de && s.chance(1, 2) {
        (gen, uses, whr) = *s.pick(&[
            ("<P>", "<u8>", ""),
            ("<P: ?::core::marker::Sized = u8>", "", ""),
            ("<'p, P: ::core::clone::Clone>", "<'static, u8>", "where P: 'p"),
            ("<const N: u8>", "<3>", ""),
            ("<'p>", "<'static>", ""),
            ("<P, Q>", "<u8, i8>", "where P: ::core::convert::Into<u64>, Q: ::core::fmt::Debug,"),
            ("<'de, 'a: 'de, S, D>", "<'static, 'static, u8, u8>", "where S: 'de + 'a, D: 'a"),
        ]);
    }
    let (mut members, mut bodies): (String, String) = (String::new(), String::new());
    let sized = !shadows.contains("Sized") && tn != "Sized" && edition != "2018";
    if sized && s.chance(1, 3) {
        for i in 0..1 + s.below(2) {
            let w = predicates(s, &["Self: Sized"], if short { &["W: ::core::fmt::Debug", "U: 'static"] } else { &["U: ::core::marker::Copy", "W: ::core::convert::Into<u64> + ::core::fmt::Debug", "U: 'static"] });
            match s.below(3) {
                0 => {
                    writeln!(members, "/// A member.\ntype G{i}<U, W> {w};").unwrap();
                    let w = w.replace("where Self: Sized,", "where").replace(", Self: Sized", "").replace("Self: Sized", "");
                    let w = if w.trim() == "where" { "" } else { &w };
                    writeln!(bodies, "type G{i}<U, W> = i8 {w};").unwrap();
                }
                1 => {
                    writeln!(members, "/// A member.\nfn g{i}<U, W>(&self, _: U, _: W) {w} {{}}").unwrap();
                }
                _ => {
                    writeln!(members, "/// A member.\nfn g{i}<U, W>(_: U, _: W) -> i8 {w};").unwrap();
                    writeln!(bodies, "fn g{i}<U, W>(_: U, _: W) -> i8 {w} {{ 0 }}").unwrap();
                }
            }
        }
        demanding = true;
    }
    // Code that a lint speaks against where it is not told otherwise.
    let mut told: [String; 6] = Default::default();
    if s.chance(1, 3) {
        let (lint, code) = *s.pick(BLEMISHES);
        let at = s.below(6);
        let allow = *s.pick(&["allow", "allow", "expect"]);
        // Expectations hold for each impl, but not for the surroundings.
        let allow = if lint.contains(',') || lint.starts_with("clippy") { "allow" } else { allow };
        let inner = at % 2 == 1;
        told[at] = format!("#{}[{allow}({lint})] ", if inner { "!" } else { "" });
        if at < 4 {
            // On or in the impl, or on or in its method.
            members += "/// A member.\nfn blemish(&self);\n";
            let (o, i) = (if at == 2 { &told[2] } else { "" }, if at == 3 { &told[3] } else { "" });
            write!(bodies, "{o}fn blemish(&self) {{ {i}{code} }}").unwrap();
        } else {
            write!(members, "/// A member.\nfn blemish(&self) {{ {code} }}\n").unwrap();
        }
        demanding = true;
    }
    let uns = if !safe && s.chance(1, 6) { "unsafe " } else { "" };
    for i in 0..s.below(4) {
        let (m, b): (&str, &str) = *s.pick(&[
            ("fn m(&self);", "fn m(&self) {}"),
            ("fn m(&self) -> i8 { 1 }", ""),
            ("fn m(&mut self, x: &dyn ::core::fmt::Debug);", "fn m(&mut self, _: &dyn ::core::fmt::Debug) {}"),
            ("type M: ::core::clone::Clone where Self: Sized;", "type M = i8;"),
            ("type M<'x> where Self: 'x + Sized;", "type M<'x> = &'x i8 where Self: 'x;"),
            ("fn m<X: ::core::fmt::Debug>(&self, _: X) where Self: Sized {}", ""),
            ("fn m() -> i8 where Self: Sized;", "fn m() -> i8 { 0 }"),
            ("#[must_use] fn m(&self) -> i8;", "#[inline] fn m(&self) -> i8 { 0 }"),
            ("fn m<'x>(&'x self, y: &'x i8) -> &'x i8;", "fn m<'x>(&'x self, y: &'x i8) -> &'x i8 { y }"),
            ("extern \"C\" fn m(&self);", "extern \"C\" fn m(&self) {}"),
            ("fn m(self: &::std::rc::Rc<Self>) -> i8;", "fn m(self: &::std::rc::Rc<Self>) -> i8 { 0 }"),
            ("fn m(&self) -> impl ::core::fmt::Debug where Self: Sized { 1i8 }", ""),
            ("#[doc(hidden)] fn m(&self) {}", ""),
            ("fn m(&self, #[allow(unused)] x: i8) {}", ""),
            ("unsafe fn m(&self);", "unsafe fn m(&self) {}"),
            ("#[allow(async_fn_in_trait)] async fn m(&self) where Self: Sized {}", ""),
            ("fn m(&self, _: [i8; 1 + 1]);", "fn m(&self, _: [i8; 2]) {}"),
            ("fn m(&self, f: fn(&dyn ::core::any::Any) -> i8) -> i8 { let _ = f; 0 }", ""),
            ("fn m(&self, _: &(dyn ::core::fmt::Debug + 'static), _: impl ::core::fmt::Debug) where Self: Sized {}", ""),
            ("#[cfg(any())] fn m(&self, x: NoSuch);", ""),
            ("#[cfg(all())] fn m(&self);", "#[cfg(any())] fn m(&self) { no_such } #[cfg(all())] fn m(&self) {}"),
            ("fn m(self) -> Self where Self: Sized { self }", ""),
            ("fn m(self: ::core::pin::Pin<&mut Self>) {}", ""),
            ("fn r#mod(&self) {}", ""),
        ]);
        if safe && m.starts_with("unsafe") || m.contains("r#mod") && i > 0 {
            continue;
        }
        if m.contains("Sized") && !sized || m.contains("Rc<") {
            continue;
        }
        let n = |t: &str| t.replace("fn m", &format!("fn m{i}")).replace("type M", &format!("type M{i}"));
        members += &format!("/// A member.\n{}\n", n(m));
        bodies += &n(b);
    }
    // Plain markers only where they are the ones meant.
    let own = |n: &str| tn == n || shadows.contains(&format!("trait {n} "));
    let mut sups: Vec<&str> = vec![];
    for _ in 0..s.below(3) {
        let x = *s.pick(&["Send", "Sync", "::core::marker::Send", "::core::marker::Sync", "'static", "::core::fmt::Debug", "::core::any::Any", "::core::marker::Unpin"]);
        if !sups.contains(&x) && !own(x) && !(matches!(x, "'static" | "::core::any::Any") && !gen.is_empty()) {
            sups.push(x);
        }
    }
    if gen.contains(&tn) {
        // The parameter would hide the trait.
        (gen, uses, whr) = ("", "", "");
    }
    if gen.contains('P') || gen.contains('S') {
        sups.retain(|x| *x == "::core::fmt::Debug");
    }
    let many = sups.join(" + ");
    let sups: String = match s.below(8) {
        0 if sups.is_empty() => ":".into(),
        _ if sups.is_empty() => String::new(),
        0 => format!(": {many} +"),
        1 if whr.is_empty() && sized => {
            demanding = true;
            format!(" where Self: {many}")
        }
        2 if whr.is_empty() && sized && sups.len() > 1 => {
            demanding = true;
            format!(": {} where Self: {}", sups[0], sups[1..].join(" + "))
        }
        _ => format!(": {many}"),
    };
    let derive = match (ser, de) {
        (true, true) => "::serde::Serialize, ::serde::Deserialize, ",
        (true, false) => "::serde::Serialize, ",
        _ => "::serde::Deserialize, ",
    };
    let style = s.below(6);
    let extra = *s.pick(&["", "", "#[allow(clippy::all)] ", "#[must_use] ", "#[doc(hidden)] ", "#[cfg_attr(all(), doc = \"more\")] ", "#[cfg(all())] "]);
    let vis = *s.pick(&["pub ", "pub ", "pub(crate) ", "pub(super) ", ""]);
    let (local, mac) = match s.weighted(&[5, 2, 2]) {
        1 => (true, false),
        2 => (false, true),
        _ => (false, false),
    };
    let vis = if local { "" } else { vis };
    let mut decls = String::new();
    let mut impls = String::new();
    for (i, t) in types.iter().enumerate() {
        let pv = if vis == "pub " { "pub " } else { vis };
        let body = *s.pick(&[";", "(i8);", "{ #[doc = \"x\"] x: i8 }", "enum"]);
        // Serde's own derived code names these plainly.
        let body = if ["str;", "u32 ", "usize ", "bool "].iter().any(|x| shadows.contains(x)) { ";" } else { body };
        let d = format!("#[derive({derive}::core::clone::Clone, ::core::marker::Copy, ::core::fmt::Debug)]");
        let docs = *s.pick(&["/// A type.", "/** A type. */", "#[doc = \"A type.\"]"]);
        if body == "enum" {
            writeln!(decls, "{docs}\n{d} {pv}enum {t} {{ /** One. */ One, /** Two. */ Two(i8) }}").unwrap();
        } else {
            writeln!(decls, "{docs}\n{d} {pv}struct {t} {body}").unwrap();
        }
        let args = *s.pick(&["", "", "(name = \"a b\")", "(name = NAME)"]);
        let args = args.replace("a b", &format!("a b {i}"));
        let args = if i > 0 && args.contains("NAME") { String::new() } else { args };
        writeln!(impls, "{}{}", attr(mode, &args, style), if s.chance(1, 4) { " #[allow(unused)]" } else { "" }).unwrap();
        let path = if !local && !mac && !short && s.chance(1, 5) { "self::" } else { "" };
        let whr = if gen.is_empty() && s.chance(1, 6) { *s.pick(&["where", "where Self: ::core::clone::Clone", "where Self: 'static,"]) } else { "" };
        let doc = if s.chance(1, 6) { "#![doc = \"inner\"] " } else { "" };
        writeln!(impls, "{}{uns}impl {path}{tn}{uses} for {t} {whr} {{ {}{doc}{bodies} }}", told[0], told[1]).unwrap();
    }
    let made = *s.pick(&["(A, A)", "[A; 2]", "::std::boxed::Box<A>", "(A,)", "::std::option::Option<(A, i8)>", "()"]);
    if types.iter().any(|t| t == "A") && mode == "serialize" && tn != "Box" && tn != "Option" && s.chance(1, 5) {
        // A type that has no name of its own.
        writeln!(impls, "{}\n{}{uns}impl {tn}{uses} for {made} {{ {}{bodies} }}", attr(mode, "(name = \"made\")", style), told[0], told[1]).unwrap();
    }
    if mode == "serialize" && s.chance(1, 4) && uses.is_empty() {
        writeln!(
            impls,
            "/// Generic.\n#[derive(::serde::Serialize, ::core::clone::Clone, ::core::marker::Copy, ::core::fmt::Debug)] {vis}struct Many<A>(A);\n{}{}{uns}impl<A: ::serde::Serialize + ::core::fmt::Debug + ::core::marker::Send + ::core::marker::Sync + ::core::marker::Unpin + 'static> {tn} for Many<A> {{ {}{bodies} }}",
            attr(mode, "", style),
            told[0],
            told[1]
        )
        .unwrap();
    }
    let doc = if s.chance(1, 6) { "#![doc = \"inner\"] " } else { "" };
    let tr = |n: &str| {
        format!("/// A trait.\n{}{extra}{}{vis}{uns}trait {n}{gen}{sups} {whr} {{ {}{doc}{members} }}\n", attr(mode, &targs, style), told[4], told[5])
    };
    let uses_name = impls.contains("= NAME");
    let mut o = shadows;
    if uses_name {
        o += "const NAME: &'static ::core::primitive::str = \"named\";\n";
    }
    if mac {
        demanding = true;
        o += "macro_rules! declare { ($n:ident, $($rest:tt)*) => {\n";
        o += &tr("$n");
        o += "$($rest)*\n} }\n";
        writeln!(o, "declare! {{ {tn},\n{decls}{impls}}}").unwrap();
    } else if local {
        demanding = true;
        writeln!(o, "/// A function.\npub fn f() {{\n{decls}{}{impls}}}", tr(&tn)).unwrap();
    } else {
        tn = tr(&tn);
        if s.bool() {
            writeln!(o, "{decls}{impls}{tn}").unwrap();
        } else {
            writeln!(o, "{tn}{decls}{impls}").unwrap();
        }
    }
    Mod { text: o, demanding }
}

fn generate(s: &mut Src) -> Crate {
    let edition = *s.pick(&["2021", "2018", "2024"]);
    let mut head = String::new();
    let mut demanding = false;
    if s.chance(1, 3) {
        head += "#![no_std]\n";
        demanding = true;
    }
    if s.chance(1, 3) {
        head += "#![no_implicit_prelude]\n";
        demanding = true;
    }
    let safe = s.bool();
    if safe {
        head += "#![forbid(unsafe_code)]\n";
        demanding = true;
    }
    let how = *s.pick(&["deny", "warn"]);
    let n = s.below(LINTS.len() + 1);
    let mut lints: Vec<&str> = vec![];
    for l in LINTS {
        if n == LINTS.len() || s.chance(n, LINTS.len()) {
            lints.push(l);
        }
    }
    // Whether paths have to be as short as they can.
    let short = lints.contains(&"unused_qualifications");
    if !lints.is_empty() {
        writeln!(head, "#![{how}({})]", lints.join(", ")).unwrap();
        demanding = true;
    }
    head += "#![allow(dead_code, unused_crate_dependencies, uncommon_codepoints)]\n//! A crate.\n";
    let n = 1 + s.below(6);
    let mods = (0..n).map(|_| module(s, edition, safe, short)).collect();
    Crate { edition, head, mods, demanding }
}

fn render(c: &Crate, on: bool) -> String {
    let mut o = c.head.clone();
    for (i, m) in c.mods.iter().enumerate() {
        let mut t = with(&m.text, on);
        if c.head.contains("no_implicit_prelude") {
            // Without it the names of other crates are not known either.
            t = format!("#[allow(unused)] extern crate typetag;\n{t}");
            for n in ["Send", "Sync", "Sized"] {
                // Named plainly by the user, so imported.
                let plain = [format!(": {n}"), format!("+ {n}")].iter().any(|p| {
                    m.text.match_indices(p.as_str()).any(|(at, _)| !m.text[at + p.len()..].starts_with(|c: char| c.is_alphanumeric() || c == '_'))
                });
                if plain && !m.text.contains(&format!("trait {n} ")) {
                    t = format!("use ::core::marker::{n};\n{t}");
                }
            }
        }
        writeln!(o, "/// A module.\npub mod m{i} {{\n{t}}}").unwrap();
    }
    o
}

pub fn text(b: &[u8]) -> String {
    let c = generate(&mut Src::new(b));
    format!("// edition {}\n{}", c.edition, render(&c, true))
}

/// Errors and warnings, rendered.
fn complaints(stderr: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(stderr)
        .lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v["level"] == "error" || v["level"] == "warning")
        .map(|v| v["rendered"].as_str().unwrap_or("").to_owned())
        .collect()
}

fn case(s: &mut Src, cx: &mut Cx) -> R {
    let c = generate(s);
    let dir = Dir::new();
    let plain = render(&c, false);
    let out = rustc(&dir.0, "plain", &Emit::Lints, c.edition, &plain, &[])?;
    let said = complaints(&out.stderr);
    if !said.is_empty() || !out.status.success() {
        let why = said.first().map_or("nothing", |m| m.lines().next().unwrap_or(""));
        let why: String = why.split('`').step_by(2).collect::<Vec<_>>().join("_");
        if std::env::var_os("VP_DEBUG").is_some() {
            println!("DISCARD {why}\n{}\n{}", said.first().map_or("", |m| m), c.head);
        }
        cx.discard(&why);
        return Ok(());
    }
    let full = render(&c, true);
    let out = rustc(&dir.0, "full", &Emit::Lints, c.edition, &full, &[])?;
    let said = complaints(&out.stderr);
    cx.check();
    for l in c.head.lines().filter(|l| l.starts_with("#![")) {
        cx.class(l.split(',').next().unwrap_or(l));
    }
    if !said.is_empty() || !out.status.success() {
        return Err(format!(
            "fine without the typetag attributes, but with them:\n{}\n---- edition {}\n{full}",
            said.iter().take(3).map(|m| m.as_str()).collect::<String>(),
            c.edition
        ));
    }
    if c.demanding || c.mods.iter().any(|m| m.demanding) {
        cx.nontrivial(&full);
    }
    cx.sample(|| format!("edition {}\n{full}", c.edition));
    Ok(())
}
