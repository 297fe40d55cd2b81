//! Generated programs of several crates: which impls are registered (C17), and
//! under which tags (C20).

use crate::run::{Cx, Prop, R};
use crate::rustc::{ask, rustc, Dir, Kind as Emit};
use crate::src::Src;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::PathBuf;
use std::time::Duration;

pub const PROPS: &[&Prop] = &[&C17, &C20];

const C17: Prop = Prop {
    id: "C17",
    rule: "the program has two traits or crates at least, and an object is decoded",
    max_len: 700,
    quick: 440,
    thorough: 9000,
    case: |s, cx| case(s, cx, false),
    shrink: 70,
    patience: Duration::from_secs(300),
    assumptions: ASSUMPTIONS,
    ..Prop::BASE
};

const C20: Prop = Prop {
    id: "C20",
    rule: "some impl is named by an expression or in a macro, or its type is not a plain name, and an object is decoded",
    max_len: 700,
    quick: 440,
    thorough: 9000,
    case: |s, cx| case(s, cx, true),
    shrink: 70,
    patience: Duration::from_secs(300),
    assumptions: ASSUMPTIONS,
    ..Prop::BASE
};

const ASSUMPTIONS: &[&str] = &[
    "programs are compiled by the installed stable rustc for x86_64-unknown-linux-gnu, without optimization",
    "serde_json reads and writes the documents",
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode {
    Serde,
    Ser,
    De,
}

impl Mode {
    fn attr(self) -> &'static str {
        match self {
            Mode::Serde => "serde",
            Mode::Ser => "serialize",
            Mode::De => "deserialize",
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum Rep {
    Ext,
    Int { tag: String, def: Option<String> },
    Adj { tag: String, content: String, def: Option<String>, deny: bool },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Vis {
    Private,
    Crate,
    Pub,
}

struct Tr {
    ident: String,
    krate: usize,
    module: usize,
    /// Inside a function of the module.
    local: bool,
    vis: Vis,
    method: String,
    mode: Mode,
    rep: Rep,
    unsafe_: bool,
    assoc: bool,
    /// Of a generic trait.
    args: &'static str,
    sup: Option<usize>,
    /// Ways to write the object type.
    forms: Vec<&'static str>,
    /// Forms it is read as.
    read: Vec<(u8, String)>,
    /// Foreign types implementing it.
    used: BTreeSet<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Shape {
    Num,
    Obj,
    Gen,
    U32,
    Str,
    Vec,
    Arr,
    Tup,
    Boxed,
}

impl Shape {
    fn json(self, n: u32) -> Value {
        match self {
            Shape::Num | Shape::Gen | Shape::U32 | Shape::Boxed => json!(n),
            Shape::Obj => json!({"n": n}),
            Shape::Str => json!(n.to_string()),
            Shape::Vec | Shape::Arr | Shape::Tup => json!([n]),
        }
    }
    fn number(self) -> &'static str {
        match self {
            Shape::Num | Shape::Gen | Shape::Tup => "self.0",
            Shape::Obj => "self.n",
            Shape::U32 | Shape::Str => "self",
            Shape::Vec | Shape::Arr => "self[0]",
            Shape::Boxed => "(**self).0",
        }
    }
    fn make(self, ty: &str) -> String {
        match self {
            Shape::Num => format!("{ty}(n)"),
            Shape::Obj => format!("{ty} {{ n }}"),
            Shape::Gen => format!("{ty}(n, ::core::marker::PhantomData)"),
            Shape::U32 => "n".into(),
            Shape::Str => "::std::string::ToString::to_string(&n)".into(),
            Shape::Vec => "::std::vec![n]".into(),
            Shape::Arr => "[n]".into(),
            Shape::Tup => "(n,)".into(),
            Shape::Boxed => format!("::std::boxed::Box::new({ty}(n))"),
        }
    }
}

struct Unit {
    tr: usize,
    /// What it is registered as, unless it is configured out.
    tag: String,
    gone: bool,
    plain: String,
    shape: Shape,
    made: bool,
}

struct Ty {
    krate: usize,
    module: usize,
    ident: String,
    shape: Shape,
    /// Traits implemented for it, and for Gen the arguments in use.
    done: BTreeSet<(usize, String)>,
}

struct Module {
    parent: usize,
    name: String,
    names: BTreeSet<String>,
    items: Vec<String>,
}

struct Crate {
    edition: &'static str,
    modules: Vec<Module>,
    /// Constants in `names` at the root.
    consts: Vec<String>,
    /// Exports a macro that implements traits.
    exports: bool,
}

struct Prog {
    crates: Vec<Crate>,
    traits: Vec<Tr>,
    units: Vec<Unit>,
    types: Vec<Ty>,
    interesting: bool,
    n: u32,
}

struct Ask {
    of: u32,
    form: u8,
    doc: String,
    want: Want,
    why: &'static str,
}

enum Want {
    Object(String, Option<String>),
    Error(&'static str, Vec<String>),
    Text(String),
}

// ---- Strings and literals ----

fn any_string(s: &mut Src) -> String {
    let t = match s.weighted(&[4, 2]) {
        0 => s.string(8),
        _ => {
            const ODD: &[&str] = &[
                "\"", "\"#", "\"##\\", "{}", "{0}", "{{}}", " ", "a b", "A\tB", "\r\n", "\u{202e}x", "r#type", "a::B", "B<u8>",
                "\\n", "\\u{41}", "$x", "//", "/* */", "name", "#", "'", "A,B", "A = \"b\"", "\u{7f}", "e\u{301}", "\u{e9}",
            ];
            (*s.pick(ODD)).to_owned()
        }
    };
    // Long ones say nothing new.
    t.chars().take(300).collect()
}

const TAGS: &[&str] = &["A", "B", "Thing", "type", "C", "a", "Größe", "Item"];

fn tag_string(s: &mut Src, odd: bool) -> String {
    if s.chance(if odd { 3 } else { 1 }, 5) {
        any_string(s)
    } else {
        (*s.pick(TAGS)).to_owned()
    }
}

/// A literal of this string.
fn lit(s: &mut Src, t: &str) -> String {
    if s.chance(1, 4) && !t.contains('\r') && !t.contains('\0') {
        let mut n = 0;
        let b: Vec<char> = t.chars().collect();
        for (i, c) in b.iter().enumerate() {
            if *c == '"' {
                n = n.max(1 + b[i + 1..].iter().take_while(|c| **c == '#').count());
            }
        }
        n += s.below(3);
        let h = "#".repeat(n);
        return format!("r{h}\"{t}\"{h}");
    }
    let mut o = String::from("\"");
    let style = s.below(8);
    for (i, c) in t.chars().enumerate() {
        if style == 7 && !c.is_whitespace() && i % 3 == 0 {
            o.push_str("\\\n     ");
        }
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' if style != 3 => o.push_str("\\n"),
            '\t' if style != 3 => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            '\0' => o.push_str("\\0"),
            c if style == 1 || style == 2 && c as u32 > 0x7e => write!(o, "\\u{{{:x}}}", c as u32).unwrap(),
            c if style == 4 && c.is_ascii() => write!(o, "\\x{:02x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const KEYWORDS: &[&str] = &[
    "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn", "else", "enum", "extern", "false",
    "final", "fn", "for", "gen", "if", "impl", "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv",
    "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "try", "type", "typeof", "unsafe",
    "unsized", "use", "virtual", "where", "while", "yield",
];

fn is_ident(t: &str) -> bool {
    t.starts_with(|c: char| c.is_ascii_alphabetic())
        && t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
        && !KEYWORDS.contains(&t)
}

// ---- Generation ----

const MODULES: &[&str] = &["m", "inner", "serde", "inventory", "private", "alloc", "std"];
const TRAITS: &[&str] = &["T", "S", "D", "Event", "Serialize", "Deserialize", "Registry", "Thing", "Größe", "lower"];
const TYPES: &[&str] = &["A", "B", "Thing", "Item", "C", "a", "Größe", "S", "Deserializer"];
const SHADOWS: &[&str] = &[
    "struct Option;",
    "struct Result;",
    "enum Box {}",
    "struct Vec;",
    "fn Ok() {}",
    "fn Some() {}",
    "fn None() {}",
    "trait Fn {}",
    "struct BTreeMap;",
    "static TYPETAG: () = ();",
    "trait Default {}",
    "struct Deserializer0;",
    "type DeserializeFn = ();",
    "trait Strictest {}",
    "struct TypetagRegistration;",
    "fn typetag_register() {}",
    "macro_rules! stringify { () => {} }",
    "trait Iterator {}",
    "trait IntoIterator {}",
    "fn drop() {}",
];

impl Prog {
    fn unique(&mut self) -> u32 {
        self.n += 1;
        self.n
    }

    fn krate(&self, k: usize) -> String {
        if k + 1 == self.crates.len() {
            "prog".into()
        } else {
            format!("k{k}")
        }
    }

    /// The path of a module as seen from crate `from`.
    fn path(&self, from: usize, krate: usize, module: usize) -> String {
        let mut parts = vec![];
        let mut m = module;
        while m != 0 {
            parts.push(self.crates[krate].modules[m].name.clone());
            m = self.crates[krate].modules[m].parent;
        }
        parts.push(if from == krate { "crate".into() } else { format!("::k{krate}") });
        parts.reverse();
        parts.join("::")
    }

    fn inside(&self, krate: usize, mut m: usize, outer: usize) -> bool {
        loop {
            if m == outer {
                return true;
            }
            if m == 0 {
                return false;
            }
            m = self.crates[krate].modules[m].parent;
        }
    }

    fn put(&mut self, s: &mut Src, k: usize, m: usize, text: String) {
        let items = &mut self.crates[k].modules[m].items;
        let i = s.below(items.len() + 1);
        items.insert(i, text);
    }

    fn name_in(&mut self, s: &mut Src, k: usize, m: usize, from: &[&str]) -> String {
        let mut n = (*s.pick(from)).to_owned();
        while !self.crates[k].modules[m].names.insert(n.clone()) {
            n = format!("{n}{}", self.unique());
        }
        n
    }
}

fn generate(s: &mut Src, odd: bool) -> Prog {
    let crates = 1 + if odd { s.weighted(&[3, 1]) } else { s.weighted(&[3, 3, 2, 1]) };
    let mut p = Prog { crates: vec![], traits: vec![], units: vec![], types: vec![], interesting: false, n: 0 };
    for _ in 0..crates {
        let mut modules = vec![Module { parent: 0, name: String::new(), names: BTreeSet::new(), items: vec![] }];
        for n in ["names", "main", "vpp"] {
            modules[0].names.insert(n.into());
        }
        for i in 0..s.weighted(&[3, 2, 2, 1]) {
            let parent = s.below(modules.len());
            let mut name = (*s.pick(MODULES)).to_owned();
            // At the root these would be ambiguous with the crates.
            if parent == 0 && !["m", "inner", "private"].contains(&name.as_str()) || modules[parent].names.contains(&name) {
                name = format!("{name}{i}");
            }
            modules[parent].names.insert(name.clone());
            modules.push(Module { parent, name, names: BTreeSet::new(), items: vec![] });
        }
        for m in &mut modules {
            if s.chance(1, 4) {
                for _ in 0..1 + s.below(4) {
                    let t = *s.pick(SHADOWS);
                    let n = t.split([' ', ';', ':', '(', '=']).nth(1).unwrap_or("").to_owned();
                    if m.names.insert(n) {
                        m.items.push(t.to_owned());
                    }
                }
            }
        }
        let edition = *s.pick(&["2021", "2018", "2024"]);
        p.crates.push(Crate { edition, modules, consts: vec![], exports: s.chance(1, 3) });
    }
    let traits = 1 + if odd { s.weighted(&[2, 1]) } else { s.weighted(&[2, 3, 2, 1]) };
    let units = if odd { 2 + s.below(7) } else { 2 + s.below(10) };
    for i in 0..traits {
        // The first crate has one at least.
        let k = if i == 0 { 0 } else { s.below(crates) };
        new_trait(s, &mut p, k, odd);
    }
    for _ in 0..units {
        let tr = s.below(p.traits.len());
        new_unit(s, &mut p, tr, odd);
    }
    if s.chance(1, 8) {
        bulk(s, &mut p);
    }
    p
}

/// Many impls of one trait.
fn bulk(s: &mut Src, p: &mut Prog) {
    let tr = s.below(p.traits.len());
    let t = &p.traits[tr];
    if t.local || t.sup.is_some() || !t.args.is_empty() {
        return;
    }
    let count = *s.pick(&[9, 16, 17, 33, 65, 100, 129, 200, 257]);
    let (k, m, n) = (t.krate, t.module, p.n + 1);
    p.n += 1;
    let tr_path = format!("{}::{}", p.path(k, k, m), t.ident);
    let (method, un, out) = (&t.method, if t.unsafe_ { "unsafe " } else { "" }, if t.assoc { "type Out = u8;" } else { "" });
    let attr = t.mode.attr();
    let mut text = format!(
        "macro_rules! bulk{n} {{ ($($t:ident $id:literal)*) => {{ $(vpp::ty!(pub $t); #[typetag::{attr}] {un}impl {tr_path} for $t {{ {out} fn {method}(&self) -> ::std::string::String {{ ::std::format!(\"{{}}:{{}}\", $id, self.0) }} }})* }} }}\nfn bulk{n}() {{ bulk{n}! {{"
    );
    for i in 0..count {
        let ident = format!("Bulk{n}x{i}");
        write!(text, " {ident} {}", p.units.len()).unwrap();
        p.units.push(Unit { tr, tag: ident.clone(), gone: false, plain: ident, shape: Shape::Num, made: false });
    }
    text += "} }";
    p.put(s, k, m, text);
}

fn new_trait(s: &mut Src, p: &mut Prog, krate: usize, odd: bool) {
    let i = p.traits.len();
    let module = s.below(p.crates[krate].modules.len());
    let local = s.chance(1, 6);
    let ident = if local { (*s.pick(TRAITS)).to_owned() } else { p.name_in(s, krate, module, TRAITS) };
    let vis = if local { Vis::Private } else { *s.pick(&[Vis::Pub, Vis::Pub, Vis::Crate, Vis::Private]) };
    let mode = *s.pick(&[Mode::Serde, Mode::Serde, Mode::Serde, Mode::Serde, Mode::De, Mode::Ser]);
    let key = |s: &mut Src, not: &[&str], usual: &str| {
        let mut k = if s.chance(if odd { 2 } else { 1 }, 4) { any_string(s) } else { usual.to_owned() };
        while not.contains(&k.as_str()) {
            k.push('_');
        }
        k
    };
    let rep = match s.weighted(&[2, 3, 3]) {
        0 => Rep::Ext,
        1 => {
            let tag = key(s, &["value", "n"], "type");
            let def = s.chance(1, 3).then(|| tag_string(s, odd));
            Rep::Int { tag, def }
        }
        _ => {
            let tag = key(s, &[], "type");
            let content = key(s, &[&tag], "value");
            let def = s.chance(1, 3).then(|| tag_string(s, odd));
            Rep::Adj { tag, content, def, deny: s.chance(1, 4) }
        }
    };
    let mut args = String::new();
    match &rep {
        Rep::Ext => {}
        Rep::Int { tag, def } => {
            write!(args, "tag = {}", lit(s, tag)).unwrap();
            if let Some(d) = def {
                write!(args, ", default_variant = {}", lit(s, d)).unwrap();
            }
        }
        Rep::Adj { tag, content, def, deny } => {
            write!(args, "tag = {}, content = {}", lit(s, tag), lit(s, content)).unwrap();
            let d = def.as_ref().map(|d| format!(", default_variant = {}", lit(s, d))).unwrap_or_default();
            let u = if *deny { ", deny_unknown_fields" } else { "" };
            args += &if s.bool() { format!("{u}{d}") } else { format!("{d}{u}") };
        }
    }
    if !args.is_empty() && s.chance(1, 3) {
        args.push(',');
    }
    let generic = mode == Mode::Ser && s.chance(1, 2);
    // A typetag trait below another.
    let sup = (!local && !generic && mode == Mode::Serde && s.chance(1, 2))
        .then(|| (0..i).find(|j| {
            let t = &p.traits[*j];
            t.mode == Mode::Serde && t.vis == Vis::Pub && t.args.is_empty() && t.sup.is_none() && (t.krate == krate || t.krate < krate)
        }))
        .flatten();
    let mut bounds: Vec<String> = vec![];
    let (mut send, mut sync) = (false, false);
    match s.weighted(&[4, 1, 1, 2, 1]) {
        0 => {}
        1 => send = true,
        2 => sync = true,
        3 => (send, sync) = (true, true),
        _ => bounds.push("::core::marker::Send".into()),
    }
    if send {
        bounds.push("Send".into());
    }
    if sync {
        let at = s.below(bounds.len() + 1);
        bounds.insert(at, "Sync".into());
    }
    if s.chance(1, 4) {
        bounds.push("vpp::Any0".into());
    }
    // A generic one would need its parameters to be so.
    if s.chance(1, 8) && !generic {
        bounds.push("'static".into());
    }
    if let Some(j) = sup {
        let t = &p.traits[j];
        let path = format!("{}::{}", p.path(krate, t.krate, t.module), t.ident);
        bounds.push(path);
    }
    let assoc = s.chance(1, 6);
    let unsafe_ = s.chance(1, 8);
    let method = format!("show{i}");
    let v = match vis {
        Vis::Private => "",
        Vis::Crate => "pub(crate) ",
        Vis::Pub => "pub ",
    };
    let mut body = format!("fn {method}(&self) -> ::std::string::String;");
    if assoc {
        body = format!("type Out where Self: Sized; {body}");
    }
    if s.chance(1, 5) {
        body += " fn twice(&self) -> ::std::string::String { ::std::format!(\"{0}{0}\", self.";
        body += &method;
        body += "()) }";
    }
    if s.chance(1, 6) {
        body += " fn generic<Y: ::core::clone::Clone>(&self, _x: Y) where Self: Sized {}";
    }
    if s.chance(1, 6) {
        body += " fn new() -> ::core::option::Option<Self> where Self: Sized { ::core::option::Option::None }";
    }
    let colon = if bounds.is_empty() { String::new() } else { format!(": {}", bounds.join(" + ")) };
    let (params, targs) = match (generic, s.below(3)) {
        (false, _) => ("", ""),
        (_, 0) => ("<X>", "<u8>"),
        (_, 1) if !["S", "D"].contains(&ident.as_str()) => ("<'a, S, D: ?Sized = str>", "<'static, u8>"),
        _ => ("<X: ?Sized>", "<str>"),
    };
    let wher = if s.chance(1, 8) { " where Self: vpp::Any0" } else { "" };
    let un = if unsafe_ { "unsafe " } else { "" };
    let attr = attr(s, mode, &args, p);
    let (pre, post) = around(s);
    let decl = if !local && s.chance(1, 6) {
        // The trait comes out of a macro.
        p.interesting |= true;
        let n = p.unique();
        let (frag, vfrag) = *s.pick(&[("ident", "$v:vis"), ("ident", ""), ("tt", "")]);
        let v2 = if vfrag.is_empty() { v } else { "$v " };
        let given = if vfrag.is_empty() { "" } else { v };
        format!(
            "macro_rules! trait{n} {{ ({vfrag} $n:{frag}) => {{ {pre}{}{post} {v2}{un}trait $n{params}{colon}{wher} {{ {body} }} }} }}\ntrait{n}! {{ {given}{ident} }}",
            attr.1
        )
    } else {
        format!("{pre}{}{post}\n{v}{un}trait {ident}{params}{colon}{wher} {{ {body} }}", attr.1)
    };
    let decl = format!("{}{decl}", attr.0);
    let mut forms = vec![""];
    if mode != Mode::De {
        forms.extend([" + Send", " + Sync", " + Send + Sync", " + 'static"]);
    }
    let mut read = vec![];
    let mut text = decl;
    if mode != Mode::Ser {
        let mut r: Vec<(u8, &str)> = vec![(0, "")];
        if send {
            r.push((1, " + Send"));
        }
        if sync {
            r.push((2, " + Sync"));
        }
        if send && sync {
            r.push((3, " + Sync + Send + 'static"));
        }
        // Where in the program it is first read does not matter either.
        let far = vis == Vis::Pub && s.chance(1, 3);
        let (fk, pre) = if far {
            let last = p.crates.len() - 1;
            (last, format!("{}::", p.path(last, krate, module)))
        } else {
            (krate, String::new())
        };
        let mac = if mode == Mode::De { "reader1" } else { "reader" };
        let mut rs = String::new();
        for (f, bounds) in r {
            write!(rs, "\nvpp::{mac}!({i}, {f}, dyn {pre}{ident}{bounds}, {method});").unwrap();
            read.push((f, bounds.to_owned()));
        }
        if far {
            let m = s.below(p.crates[fk].modules.len());
            p.put(s, fk, m, rs.trim().to_owned());
        } else {
            text += &rs;
        }
    }
    p.traits.push(Tr {
        ident, krate, module, local, vis, method, mode, rep, unsafe_, assoc, args: targs, sup, forms, read,
        used: BTreeSet::new(),
    });
    if local {
        // The function is completed by the units.
        text = format!("fn local{i}() {{\n{text}\n/*{i}*/}}");
    }
    p.put(s, krate, module, text);
}

/// Things that may stand before and after the attribute.
fn around(s: &mut Src) -> (&'static str, &'static str) {
    const X: &[&str] = &["", "", "", "", "/// Documented.\n", "#[allow(dead_code)] ", "#[cfg(all())] ", "#[doc(hidden)] ", "#[cfg_attr(any(), nonsense)] "];
    (s.pick(X), s.pick(X))
}

/// Text to put before, and the attribute.
fn attr(s: &mut Src, mode: Mode, args: &str, p: &mut Prog) -> (String, String) {
    let m = mode.attr();
    let args = if args.is_empty() { if s.chance(1, 8) { "()" } else { "" }.to_owned() } else {
        match s.below(8) {
            1 => format!("[{args}]"),
            2 => format!("{{{args}}}"),
            _ => format!("({args})"),
        }
    };
    match s.weighted(&[6, 1, 1, 1]) {
        0 => (String::new(), format!("#[typetag::{m}{args}]")),
        1 => (String::new(), format!("#[::typetag::{m}{args}]")),
        2 => (String::new(), format!("#[cfg_attr(all(), typetag::{m}{args})]")),
        _ => {
            let n = p.unique();
            (format!("use ::typetag::{m} as attr{n};\n"), format!("#[attr{n}{args}]"))
        }
    }
}

/// What is needed besides, and an expression of this string.
fn name_expr(s: &mut Src, p: &mut Prog, k: usize, t: &str, literal_only: bool) -> (String, String) {
    let l = lit(s, t);
    if literal_only {
        return (String::new(), l);
    }
    let n = p.unique();
    match s.weighted(&[4, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1]) {
        0 => (String::new(), l),
        1 => {
            let ty = *s.pick(&["&str", "&'static str"]);
            (format!("const NAME{n}: {ty} = {l};\n"), format!("NAME{n}"))
        }
        2 => {
            // Possibly of another crate.
            let from = s.below(k + 1);
            p.crates[from].consts.push(format!("pub const NAME{n}: &str = {l};"));
            let c = if from == k { "crate".to_owned() } else { format!("::k{from}") };
            (String::new(), format!("{c}::names::NAME{n}"))
        }
        3 => {
            let c: Vec<char> = t.chars().collect();
            let cut = s.below(c.len() + 1);
            let (a, b): (String, String) = (c[..cut].iter().collect(), c[cut..].iter().collect());
            let e = if s.bool() && is_ident(&b) {
                format!("::core::concat!({}, ::core::stringify!({b}))", lit(s, &a))
            } else {
                format!("::core::concat!({}, {})", lit(s, &a), lit(s, &b))
            };
            (String::new(), e)
        }
        4 => (String::new(), if is_ident(t) { format!("::core::stringify!({t})") } else { l }),
        5 => (String::new(), format!("vpp::same({l})")),
        6 => (String::new(), format!("vpp::longer({l}, \"\")")),
        7 => (String::new(), format!("{{ const X: &str = {l}; X }}")),
        8 => (
            format!("struct Tag{n}; impl Tag{n} {{ const TAG: &'static str = {l}; }}\n"),
            format!("Tag{n}::TAG"),
        ),
        9 => (
            format!("struct Tag{n}; impl vpp::Named for Tag{n} {{ const NAME: &'static str = {l}; }}\n"),
            format!("<Tag{n} as vpp::Named>::NAME"),
        ),
        10 => (String::new(), format!("if 1 + 1 == 2 {{ {l} }} else {{ \"other\" }}")),
        11 => (String::new(), format!("match 3u8 {{ 0..=2 => \"other\", _ => {l} }}")),
        _ => (String::new(), format!("[\"zero\", {l}, \"two\"][1]")),
    }
}

fn new_unit(s: &mut Src, p: &mut Prog, tr: usize, odd: bool) {
    let (tk, tm, local, vis, mode, sup) = {
        let t = &p.traits[tr];
        (t.krate, t.module, t.local, t.vis, t.mode, t.sup)
    };
    // Where.
    let (k, m) = if local {
        (tk, tm)
    } else {
        match vis {
            Vis::Pub => {
                let k = tk + s.below(p.crates.len() - tk);
                (k, s.below(p.crates[k].modules.len()))
            }
            Vis::Crate => (tk, s.below(p.crates[tk].modules.len())),
            Vis::Private => {
                let ms: Vec<usize> = (0..p.crates[tk].modules.len()).filter(|m| p.inside(tk, *m, tm)).collect();
                (tk, *s.pick(&ms))
            }
        }
    };
    // 0 is the module itself.
    let place = s.weighted(&[6, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1]);
    let gone = s.chance(1, 16);
    // A module within a function sees nothing of the function.
    let nested_mod = place == 3 && !local;
    let mut pre = String::new();

    // The type.
    let (ty, mut plain, shape, decl_here): (String, Option<String>, Shape, bool);
    let foreign = k == tk && !local && sup.is_none() && s.chance(1, 5);
    let own: Vec<usize> = (0..p.types.len())
        .filter(|i| {
            let t = &p.types[*i];
            t.krate == k && t.shape != Shape::Gen && !t.done.iter().any(|d| d.0 == tr || Some(d.0) == sup)
        })
        .collect();
    // The orphan rule.
    let gens: Vec<usize> = (0..p.types.len())
        .filter(|i| p.types[*i].krate == k && p.types[*i].shape == Shape::Gen)
        .collect();
    let mut alias = false;
    if foreign {
        let (t, n, sh) = *s.pick(&[
            ("u32", Some("u32"), Shape::U32),
            ("::core::primitive::u32", Some("u32"), Shape::U32),
            ("::std::string::String", Some("String"), Shape::Str),
            ("::std::vec::Vec<u32>", Some("Vec"), Shape::Vec),
            ("[u32; 1]", None, Shape::Arr),
            ("(u32,)", None, Shape::Tup),
        ]);
        let key = n.unwrap_or(t).to_owned();
        if !p.traits[tr].used.insert(key) {
            return;
        }
        (ty, plain, shape, decl_here) = (t.to_owned(), n.map(str::to_owned), sh, false);
    } else if !gens.is_empty() && s.chance(1, 3) {
        let i = *s.pick(&gens);
        let path = format!("{}::{}", p.path(k, k, p.types[i].module), p.types[i].ident);
        let arg = *s.pick(&["u8", "u16", "(u8, u8)", "[u8; 2]", "fn(u8) -> u8", "::std::vec::Vec<::std::string::String>", "str", "A"]);
        let arg = if arg == "A" { format!("{path}<u8>") } else { arg.to_owned() };
        if p.types[i].done.contains(&(tr, arg.clone())) || sup.is_some_and(|j| p.types[i].done.contains(&(j, arg.clone()))) {
            return;
        }
        p.types[i].done.insert((tr, arg.clone()));
        if let Some(j) = sup {
            p.types[i].done.insert((j, arg.clone()));
        }
        let colon = *s.pick(&["", "::"]);
        (ty, plain, shape, decl_here) = (format!("{path}{colon}<{arg}>"), Some(p.types[i].ident.clone()), Shape::Gen, false);
    } else if !own.is_empty() && s.chance(1, 3) {
        let i = *s.pick(&own);
        p.types[i].done.insert((tr, String::new()));
        if let Some(j) = sup {
            p.types[i].done.insert((j, String::new()));
        }
        let path = format!("{}::{}", p.path(k, k, p.types[i].module), p.types[i].ident);
        (ty, plain, shape, decl_here) = (path, Some(p.types[i].ident.clone()), p.types[i].shape, false);
    } else if !local && s.chance(1, 2) && place == 0 {
        // A new one somewhere in the crate.
        let at = s.below(p.crates[k].modules.len());
        let ident = p.name_in(s, k, at, TYPES);
        let sh = *s.pick(&[Shape::Num, Shape::Obj, Shape::Gen]);
        let mac = match sh {
            Shape::Obj => "ob",
            Shape::Gen => "tyg",
            _ => "ty",
        };
        p.put(s, k, at, format!("vpp::{mac}!(pub {ident});"));
        let mut done = BTreeSet::new();
        let arg = if sh == Shape::Gen { "u8" } else { "" };
        done.insert((tr, arg.to_owned()));
        if let Some(j) = sup {
            done.insert((j, arg.to_owned()));
        }
        p.types.push(Ty { krate: k, module: at, ident: ident.clone(), shape: sh, done });
        let path = format!("{}::{ident}", p.path(k, k, at));
        let t = if sh == Shape::Gen { format!("{path}<u8>") } else { path };
        (ty, plain, shape, decl_here) = (t, Some(ident), sh, false);
    } else {
        // A new one next to the impl.
        let in_module = place == 0 && !local;
        let ident = if in_module { p.name_in(s, k, m, TYPES) } else { (*s.pick(TYPES)).to_owned() };
        // Several units share the body of the function of a local trait.
        let ident = if local { format!("{ident}{}", p.unique()) } else { ident };
        let sh = *s.pick(&[Shape::Num, Shape::Num, Shape::Obj, Shape::Gen]);
        let mac = match sh {
            Shape::Obj => "ob",
            Shape::Gen => "tyg",
            _ => "ty",
        };
        write!(pre, "vpp::{mac}!(pub {ident});\n").unwrap();
        if in_module {
            let mut done = BTreeSet::new();
            let arg = if sh == Shape::Gen { "u8" } else { "" };
            done.insert((tr, arg.to_owned()));
            if let Some(j) = sup {
                done.insert((j, arg.to_owned()));
            }
            p.types.push(Ty { krate: k, module: m, ident: ident.clone(), shape: sh, done });
        }
        let t = if sh == Shape::Gen { format!("{ident}<u8>") } else { ident.clone() };
        let t = if in_module && s.chance(1, 4) { format!("self::{t}") } else { t };
        (ty, plain, shape, decl_here) = (t, Some(ident), sh, true);
    }
    let (mut ty, mut shape) = (ty, shape);
    let make_ty = if shape == Shape::Gen { ty.split('<').next().unwrap().trim_end_matches("::").to_owned() } else { ty.clone() };
    // Another way to write it.
    match s.weighted(&[12, 2, 1, 1, 1, 1]) {
        1 => {
            let n = p.unique();
            pre += &format!("type Alias{n} = {ty};\n");
            ty = format!("Alias{n}");
            plain = Some(ty.clone());
            alias = true;
        }
        2 if shape != Shape::Gen && plain.is_some() && !ty.starts_with("u32") && (ty.contains("::") && !ty.contains('<')) => {
            let n = p.unique();
            pre += &format!("use {ty} as Used{n};\n");
            ty = format!("Used{n}");
            plain = Some(ty.clone());
            alias = true;
        }
        3 if shape == Shape::Num && k == tk => {
            ty = format!("::std::boxed::Box<{ty}>");
            plain = Some("Box".into());
            shape = Shape::Boxed;
            alias = true;
        }
        4 => {
            let n = p.unique();
            pre += &format!("macro_rules! type{n} {{ () => {{ {ty} }} }}\n");
            ty = format!("type{n}!()");
            plain = None;
            alias = true;
        }
        5 => {
            ty = format!("({ty})");
            plain = None;
            alias = true;
        }
        _ => {}
    }
    if shape == Shape::Boxed && local && !decl_here {
        // The box of a shared type could be there already.
        return;
    }
    p.interesting |= alias || ty.contains('<') || ty.contains("::");
    let trs: Vec<usize> = sup.into_iter().chain([tr]).collect();
    for tr in trs {
        implement(s, p, &mut pre, (k, m), tr, &ty, &make_ty, plain.as_deref(), shape, gone, odd, nested_mod, mode);
    }
    // Where to put it.
    let n = p.unique();
    let text = match place {
        0 => pre,
        1 => format!("const _: () = {{\n{pre}}};"),
        2 => format!("fn place{n}() {{\n{pre}}}"),
        3 if !local => {
            let mut t = pre;
            // Nothing there refers to the function.
            if t.contains("Alias") || t.contains("vpp::ty") {
                t = format!("pub mod placed {{\n{t}}}");
            }
            format!("fn place{n}() {{ fn g() {{\n{t}}} }}")
        }
        4 => format!("struct Place{n}; impl Place{n} {{ fn m(&self) {{\n{pre}}} }}"),
        5 => format!("static PLACE{n}: fn() = || {{\n{pre}}};"),
        6 => format!("fn place{n}<X>() {{\n{pre}}}"),
        7 => format!("macro_rules! place{n} {{ ($($x:item)*) => {{ const _: () = {{ $($x)* }}; }} }}\nplace{n}! {{\n{pre}}}"),
        8 => format!("macro_rules! place{n} {{ ($($x:tt)*) => {{ fn place{n}() {{ $($x)* }} }} }}\nplace{n}! {{\n{pre}}}"),
        9 => format!("enum Place{n} {{ X = {{\n{pre}\n7 }} }}"),
        10 => format!("trait Place{n} {{ fn m(&self) {{ loop {{\n{pre}\nbreak; }} }} }}"),
        _ => format!("fn place{n}() {{\n{pre}}}"),
    };
    if local {
        let end = format!("/*{tr}*/}}");
        for it in &mut p.crates[k].modules[m].items {
            if let Some(at) = it.rfind(&end) {
                it.insert_str(at, &format!("{text}\n"));
            }
        }
    } else {
        p.put(s, k, m, text);
    }
}

#[allow(clippy::too_many_arguments)]
fn implement(
    s: &mut Src,
    p: &mut Prog,
    pre: &mut String,
    (k, m): (usize, usize),
    tr: usize,
    ty: &str,
    make_ty: &str,
    plain: Option<&str>,
    shape: Shape,
    gone: bool,
    odd: bool,
    nested_mod: bool,
    mode: Mode,
) {
    let id = p.units.len();
    let style = s.weighted(&[6, 1, 2, 1, 1, 1]);
    let want = (plain.is_none() || s.chance(if odd { 4 } else { 2 }, 6)).then(|| tag_string(s, odd));
    let (method, unsafe_, assoc, local, tk, tm, ident) = {
        let t = &p.traits[tr];
        (t.method.clone(), t.unsafe_, t.assoc, t.local, t.krate, t.module, t.ident.clone())
    };
    let mut path = if local { ident.clone() } else { format!("{}::{ident}", p.path(k, tk, tm)) };
    if !local && k == tk && m == tm && !nested_mod && s.chance(1, 2) && pre.find(" mod ").is_none() && !pre.contains(&format!("!(pub {ident})")) && ty != ident {
        path = ident.clone();
    }
    if s.chance(1, 6) && !local {
        let n = p.unique();
        *pre += &format!("use {path} as Trait{n};\n");
        path = format!("Trait{n}");
    }
    let args = p.traits[tr].args;
    let path_args = format!("{path}{args}");
    let mut value = plain.unwrap_or("").to_owned();
    let mut expr = None;
    if let Some(t) = want {
        // The place in the source is known in some.
        let (more, e) = name_expr(s, p, k, &t, style == 3);
        *pre += &more;
        expr = Some(e);
        value = t;
        p.interesting = true;
    }
    let mut body = format!(
        "fn {method}(&self) -> ::std::string::String {{ ::std::format!(\"{id}:{{}}\", {}) }}",
        shape.number()
    );
    if assoc {
        let a = "type Out = u8;";
        body = if s.bool() { format!("{body} {a}") } else { format!("{a} {body}") };
    }
    if s.chance(1, 8) {
        body = format!("#![allow(unused_variables)] {body}");
    }
    let un = if unsafe_ { "unsafe " } else { "" };
    let comma = if expr.is_some() && s.chance(1, 3) { "," } else { "" };
    let (a, b) = around(s);
    let cfg = if gone { "#[cfg(any())] " } else { "" };
    let n = p.unique();
    let make = |p: &mut Prog, s: &mut Src, ex: &str| {
        let args = if ex.is_empty() { String::new() } else { format!("name = {ex}{comma}") };
        attr(s, mode, &args, p)
    };
    let text = match style {
        // As it is.
        0 | 5 => {
            let (x, at) = make(p, s, expr.as_deref().unwrap_or(""));
            format!("{x}{a}{cfg}{at}{b}\n{un}impl {path_args} for {ty} {{ {body} }}\n")
        }
        // The type comes through a macro.
        1 | 2 => {
            let simple = ty.chars().all(|c| c.is_alphanumeric() || c == '_');
            let pathlike = simple || !ty.starts_with(['<', '(', '[']) && !ty.contains('!');
            let frag = match s.below(4) {
                1 if simple => "ident",
                2 if pathlike => "path",
                3 if simple => "tt",
                _ => "ty",
            };
            let (x, at) = make(p, s, expr.as_deref().unwrap_or(""));
            p.interesting = true;
            let inner = format!("{a}{cfg}{at}{b} {un}impl {path_args} for $t {{ {body} }}");
            if frag == "ty" && s.chance(1, 3) {
                format!("{x}macro_rules! outer{n} {{ ($t:ty) => {{ inner{n}! {{ $t }} }} }}\nmacro_rules! inner{n} {{ ($t:ty) => {{ {inner} }} }}\nouter{n}! {{ {ty} }}\n")
            } else {
                format!("{x}macro_rules! impl{n} {{ ($t:{frag}) => {{ {inner} }} }}\nimpl{n}! {{ {ty} }}\n")
            }
        }
        // The name comes through a macro.
        3 | 4 if expr.is_some() => {
            let e = expr.clone().unwrap();
            let frag = if style == 3 { *s.pick(&["literal", "expr", "tt"]) } else { "expr" };
            let (x, at) = make(p, s, "$n");
            p.interesting = true;
            format!("{x}macro_rules! impl{n} {{ ($n:{frag}) => {{ {a}{cfg}{at}{b} {un}impl {path_args} for {ty} {{ {body} }} }} }}\nimpl{n}! {{ {e} }}\n")
        }
        // The trait comes through a macro.
        3 => {
            let (x, at) = make(p, s, expr.as_deref().unwrap_or(""));
            p.interesting = true;
            format!("{x}macro_rules! impl{n} {{ ($tr:path) => {{ {a}{cfg}{at}{b} {un}impl $tr for {ty} {{ {body} }} }} }}\nimpl{n}! {{ {path_args} }}\n")
        }
        // A macro of another crate.
        _ => {
            let from: Vec<usize> = (0..=k).filter(|i| p.crates[*i].exports).collect();
            let with = expr.clone().map(|e| format!("name = {e}{comma}")).unwrap_or_default();
            p.interesting = true;
            if from.is_empty() {
                let (x, at) = make(p, s, expr.as_deref().unwrap_or(""));
                format!("{x}{a}{cfg}{at}{b}\n{un}impl {path_args} for {ty} {{ {body} }}\n")
            } else {
                let i = *s.pick(&from);
                let c = if i == k { "crate".to_owned() } else { format!("::k{i}") };
                let which = mode.attr();
                // The method is passed on whole, for `self` to be its own.
                format!("{c}::implement! {{ [{cfg}] {which} [{with}] [{un}] {path_args}, {ty}, {{ {body} }} }}\n")
            }
        }
    };
    *pre += &text;
    let made = mode != Mode::De && !gone;
    if made {
        let form = *s.pick(&p.traits[tr].forms);
        let e = shape.make(make_ty);
        let full = ty.to_owned();
        *pre += &format!("vpp::maker!({id}, dyn {path_args}{form}, {full}, n => {e});\n");
    }
    p.units.push(Unit { tr, tag: value, gone, plain: plain.unwrap_or("").to_owned(), shape, made });
}

// ---- Text ----

fn render(p: &Prog, k: usize) -> String {
    let c = &p.crates[k];
    let mut o = String::new();
    for j in 0..k {
        writeln!(o, "extern crate k{j} as _;").unwrap();
    }
    if c.exports {
        o += "#[macro_export] macro_rules! implement {
    ([$($c:tt)*] $w:ident [$($a:tt)*] [$($u:tt)*] $tr:path, $t:ty, { $($b:tt)* }) => {
        $($c)* #[typetag::$w($($a)*)] $($u)* impl $tr for $t { $($b)* }
    };
}
";
    }
    if !c.consts.is_empty() {
        writeln!(o, "pub mod names {{\n{}\n}}", c.consts.join("\n")).unwrap();
    }
    module(c, 0, &mut o);
    if k + 1 == p.crates.len() {
        o += "fn main() { vpp::main() }\n";
    }
    o
}

fn module(c: &Crate, m: usize, o: &mut String) {
    for i in &c.modules[m].items {
        o.push_str(i);
        o.push('\n');
    }
    for j in 1..c.modules.len() {
        if c.modules[j].parent == m {
            writeln!(o, "pub mod {} {{", c.modules[j].name).unwrap();
            module(c, j, o);
            o.push_str("}\n");
        }
    }
}

pub fn text(b: &[u8], odd: bool) -> String {
    let p = generate(&mut Src::new(b), odd);
    let mut o = String::new();
    for k in 0..p.crates.len() {
        writeln!(o, "// ---- {} (edition {})\n{}", p.krate(k), p.crates[k].edition, render(&p, k)).unwrap();
    }
    for a in asks(&mut Src::new(&[]), &p) {
        writeln!(o, "// {} {} {}: {}", a.of, a.form, a.doc, a.why).unwrap();
    }
    o
}

// ---- What the program must answer ----

fn wrap(rep: &Rep, tag: &str, v: &Value) -> Value {
    let mut m = serde_json::Map::new();
    match rep {
        Rep::Ext => {
            m.insert(tag.into(), v.clone());
        }
        Rep::Int { tag: key, .. } => {
            m.insert(key.clone(), tag.into());
            inner(&mut m, v);
        }
        Rep::Adj { tag: key, content, .. } => {
            m.insert(key.clone(), tag.into());
            m.insert(content.clone(), v.clone());
        }
    }
    m.into()
}

fn inner(m: &mut serde_json::Map<String, Value>, v: &Value) {
    match v {
        Value::Object(o) => m.extend(o.clone()),
        _ => {
            m.insert("value".into(), v.clone());
        }
    }
}

/// Text of an object in the order written.
fn ordered(rep: &Rep, tag: &str, v: &Value) -> String {
    let q = |x: &str| Value::from(x).to_string();
    match rep {
        Rep::Ext => format!("{{{}:{v}}}", q(tag)),
        Rep::Int { tag: key, .. } => match v {
            Value::Object(o) => {
                let rest: Vec<String> = o.iter().map(|(k, v)| format!(",{}:{v}", q(k))).collect();
                format!("{{{}:{}{}}}", q(key), q(tag), rest.concat())
            }
            _ => format!("{{{}:{},\"value\":{v}}}", q(key), q(tag)),
        },
        Rep::Adj { tag: key, content, .. } => format!("{{{}:{},{}:{v}}}", q(key), q(tag), q(content)),
    }
}

fn asks(s: &mut Src, p: &Prog) -> Vec<Ask> {
    let mut out: Vec<Ask> = vec![];
    let all: BTreeSet<&str> = p.units.iter().flat_map(|u| [u.tag.as_str(), u.plain.as_str()]).collect();
    for (i, t) in p.traits.iter().enumerate() {
        let mut own: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
        for (j, u) in p.units.iter().enumerate() {
            if u.tr == i && !u.gone {
                own.entry(&u.tag).or_default().push(j);
            }
        }
        let names: Vec<String> = own.keys().map(|x| (*x).to_owned()).collect();
        let object = |j: usize, n: u32| {
            let u = &p.units[j];
            let w = (t.mode == Mode::Serde).then(|| ordered(&t.rep, &u.tag, &u.shape.json(n)));
            Want::Object(format!("{j}:{n}"), w)
        };
        let by_tag = |tag: &str, n: u32| match own.get(tag) {
            None => Want::Error("unknown variant", names.clone()),
            Some(js) if js.len() == 1 => object(js[0], n),
            Some(_) => Want::Error("non-unique", vec![]),
        };
        let value = |tag: &str, n: u32| match own.get(tag) {
            Some(js) => p.units[js[0]].shape.json(n),
            None => json!(n),
        };
        for (f, _) in &t.read {
            let mut ask = |doc: String, want: Want, why: &'static str| out.push(Ask { of: i as u32, form: *f, doc, want, why });
            for tag in own.keys() {
                let n = 1 + s.below(1000) as u32;
                ask(ordered(&t.rep, tag, &value(tag, n)), by_tag(tag, n), "own tag");
                if s.chance(1, 3) {
                    let n = 1 + s.below(1000) as u32;
                    // In the order of the keys.
                    let mut es: Vec<String> =
                        wrap(&t.rep, tag, &value(tag, n)).as_object().unwrap().iter().map(|(k, v)| format!("{}:{v}", Value::from(k.as_str()))).collect();
                    es.sort();
                    if s.bool() {
                        es.reverse();
                    }
                    ask(format!("{{{}}}", es.join(" , ")), by_tag(tag, n), "own tag in another order");
                }
            }
            let mut near: BTreeSet<String> = all.iter().map(|x| (*x).to_owned()).collect();
            for n in &names {
                near.insert(format!("{n} "));
                near.insert(format!(" {n}"));
                near.insert(n.to_lowercase());
                near.insert(n.to_uppercase());
                near.insert(n.trim().to_owned());
                near.insert(format!("{n}{n}"));
                let mut c: Vec<char> = n.chars().collect();
                c.pop();
                near.insert(c.into_iter().collect());
                near.insert(n.rsplit("::").next().unwrap_or("").to_owned());
            }
            // Of those next to many impls, a few.
            let step = 1 + near.len() / 300;
            for x in near.into_iter().step_by(step) {
                if !own.contains_key(x.as_str()) {
                    ask(ordered(&t.rep, &x, &json!(5)), by_tag(&x, 5), "not its tag");
                }
            }
            // Without a tag.
            let missing = |def: &Option<String>, n: u32| match def {
                Some(d) => by_tag(d, n),
                None => Want::Error("missing field", vec![]),
            };
            match &t.rep {
                Rep::Ext => {}
                Rep::Int { def, tag } => {
                    let v = value(def.as_deref().unwrap_or(""), 77);
                    let mut m = serde_json::Map::new();
                    inner(&mut m, &v);
                    ask(Value::from(m.clone()).to_string(), missing(def, 77), "no tag");
                    // A key that is nearly the tag's.
                    if !tag.is_empty() {
                        let other = format!("{tag}x");
                        if def.is_none() {
                            m.insert(other, "A".into());
                            ask(Value::from(m).to_string(), missing(def, 77), "no tag, but a similar key");
                        }
                    }
                }
                Rep::Adj { def, content, tag, deny } => {
                    let v = value(def.as_deref().unwrap_or(""), 78);
                    ask(format!("{{{}:{v}}}", Value::from(content.as_str())), missing(def, 78), "no tag");
                    if let Some((t0, js)) = own.iter().find(|(_, js)| js.len() == 1) {
                        let d = ordered(&t.rep, t0, &p.units[js[0]].shape.json(79));
                        let extra = format!("{tag}{content}+");
                        let d = format!("{},{}:0}}", &d[..d.len() - 1], Value::from(extra));
                        let w = if *deny { Want::Error("unknown field", vec![]) } else { object(js[0], 79) };
                        ask(d, w, "an entry more");
                    }
                }
            }
        }
    }
    for (j, u) in p.units.iter().enumerate() {
        if u.made {
            let n = 1 + s.below(1000) as u32;
            let want = ordered(&p.traits[u.tr].rep, &u.tag, &u.shape.json(n));
            out.push(Ask { of: j as u32, form: 255, doc: n.to_string(), want: Want::Text(want), why: "encoding" });
        }
    }
    out
}

fn case(s: &mut Src, cx: &mut Cx, odd: bool) -> R {
    let p = generate(s, odd);
    let asks = asks(s, &p);
    let dir = Dir::new();
    let last = p.crates.len() - 1;
    let mut externs: Vec<(String, PathBuf)> = vec![];
    let shown = || {
        let mut o = String::new();
        for k in 0..p.crates.len() {
            writeln!(o, "---- crate {} (edition {})\n{}", p.krate(k), p.crates[k].edition, render(&p, k)).unwrap();
        }
        o
    };
    for k in 0..=last {
        let name = p.krate(k);
        let kind = if k == last { Emit::Bin } else { Emit::Lib };
        let out = rustc(&dir.0, &name, &kind, p.crates[k].edition, &render(&p, k), &externs)?;
        if !out.status.success() {
            return Err(format!("the program does not compile:\n{}\n{}", String::from_utf8_lossy(&out.stderr), shown()));
        }
        if k != last {
            externs.push((name.clone(), dir.0.join(format!("lib{name}.rlib"))));
        }
    }
    let list: Vec<Value> = asks.iter().map(|a| json!([a.of, a.form, a.doc])).collect();
    let out = ask(&dir.0.join("prog"), &Value::from(list).to_string())?;
    if !out.status.success() {
        return Err(format!("the program ends with {}:\n{}\n{}", out.status, String::from_utf8_lossy(&out.stderr), shown()));
    }
    let got: Vec<Value> = serde_json::from_slice(&out.stdout).map_err(|e| format!("harness: answer: {e}"))?;
    let mut objects = 0;
    for (a, g) in asks.iter().zip(&got) {
        cx.check();
        let (good, want) = match &a.want {
            Want::Object(o, w) => {
                objects += 1;
                let good = g["o"] == *o && w.as_ref().is_none_or(|w| g["w"] == *w);
                (good, format!("object {o}, written {}", w.clone().unwrap_or_default()))
            }
            Want::Error(e, names) => {
                let m = g["e"].as_str().unwrap_or("");
                (m.contains(e) && names.iter().all(|n| m.contains(n.as_str())), format!("an error: {e} {names:?}"))
            }
            Want::Text(w) => (g["w"] == *w, w.clone()),
        };
        cx.class(a.why);
        if !good {
            let who = if a.form == 255 { format!("impl {}", a.of) } else { format!("trait {} as form {}", a.of, a.form) };
            return Err(format!("{who} given {} ({}): {g}, expected {want}\n{}", a.doc, a.why, shown()));
        }
    }
    let tr = p.traits.len();
    if objects > 0 && (if odd { p.interesting } else { tr > 1 || p.crates.len() > 1 }) {
        cx.nontrivial(&shown());
    }
    cx.class(&format!("{} crates", p.crates.len()));
    cx.class(&format!("{tr} traits"));
    for t in &p.traits {
        cx.class(match t.rep {
            Rep::Ext => "externally tagged",
            Rep::Int { .. } => "internally tagged",
            Rep::Adj { .. } => "adjacently tagged",
        });
        if t.local {
            cx.class("trait in a function");
        }
        if t.sup.is_some() {
            cx.class("trait below another");
        }
    }
    cx.class(if p.units.len() > 20 { "more than 20 impls" } else if p.units.len() > 6 { "7 to 20 impls" } else { "at most 6 impls" });
    cx.sample(shown);
    Ok(())
}
