//! Trait families: one trait per representation and option, all implemented by
//! the same run-time-defined types D0..D7, plus hand-written Serde enums.

use crate::doc::{record, Doc, Rec, RecErr, RecState};
use crate::fmts::{dec, dec_doc, dec_prefix, enc, enc_writer, Enc, Fmt};
use crate::schema::{world, Direct, InMap, Seed, NTYPES, S, SV, V};
use crate::selfde::DeCfg;
use serde::de::{DeserializeSeed, Deserializer};
use serde::{Deserialize, Serialize, Serializer};

macro_rules! dtypes {
    ($($n:ident $i:literal)*) => { $(
        #[derive(Clone, Debug, PartialEq)]
        pub struct $n(V);
        impl $n {
            pub fn new(v: V) -> Self {
                $n(v)
            }
            pub fn get(&self) -> V {
                self.0.clone()
            }
        }
        dtype!($n $i);
    )* };
}
macro_rules! dtype {
    ($n:ident $i:literal) => {
        impl Serialize for $n {
            fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
                let v = self.get();
                let r = SV(&world()[$i], &v).serialize(z);
                // Objects inside may have been of the type that keeps its value elsewhere.
                $n::new(v);
                r
            }
        }
        impl<'de> Deserialize<'de> for $n {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                Seed(&world()[$i]).deserialize(d).map($n::new)
            }
        }
    };
}
dtypes! { D0 0 D1 1 D2 2 D3 3 D4 4 D7 7 }

/// Large and with an alignment of its own.
#[derive(Clone, Debug, PartialEq)]
#[repr(align(64))]
pub struct D5([u64; 40], V);
impl D5 {
    pub fn new(v: V) -> Self {
        D5([0x5555_5555_5555_5555; 40], v)
    }
    pub fn get(&self) -> V {
        assert!(self.0.iter().all(|x| *x == 0x5555_5555_5555_5555), "harness: damaged");
        self.1.clone()
    }
}
dtype!(D5 5);

/// Of size zero: the value is that of the last one made by this thread.
#[derive(Clone, Debug, PartialEq)]
pub struct D6;
thread_local! {
    static D6_VALUE: std::cell::RefCell<V> = const { std::cell::RefCell::new(V::Unit) };
}
impl D6 {
    pub fn new(v: V) -> Self {
        D6_VALUE.with(|c| *c.borrow_mut() = v);
        D6
    }
    pub fn get(&self) -> V {
        D6_VALUE.with(|c| c.borrow().clone())
    }
}
dtype!(D6 6);

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Dflt {
    No,
    Is(usize),
    Dangling(&'static str),
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Kind {
    Ext,
    Int { tag: &'static str, dflt: Dflt },
    Adj { tag: &'static str, content: &'static str, dflt: Dflt, deny: bool },
}

impl Kind {
    pub fn dflt(self) -> Dflt {
        match self {
            Kind::Ext => Dflt::No,
            Kind::Int { dflt, .. } | Kind::Adj { dflt, .. } => dflt,
        }
    }
}

pub type Got = Result<(usize, V), String>;

/// Everything that can be done with a family.
pub struct Ops {
    pub name: &'static str,
    pub kind: Kind,
    pub tags: [&'static str; NTYPES],
    pub ser: Option<SerOps>,
    pub de: Option<DeOps>,
}

#[derive(Copy, Clone)]
pub struct SerOps {
    pub enc: fn(Fmt, usize, &V) -> Result<Enc, String>,
    pub rec: fn(bool, usize, &V) -> Result<Doc, String>,
    pub rec_state: fn(&RecState, usize, &V) -> Result<Doc, RecErr>,
    pub writer: fn(Fmt, usize, &V, &mut dyn std::io::Write) -> Result<(), String>,
}

#[derive(Copy, Clone)]
pub struct DeOps {
    pub dec: fn(Fmt, &Enc) -> Got,
    pub doc: fn(&Doc, &DeCfg) -> Result<(usize, V), RecErr>,
    pub prefix: fn(Fmt, &[u8]) -> Result<(usize, V, usize), String>,
}

impl Ops {
    pub fn tag_key(&self) -> Option<&'static str> {
        match self.kind {
            Kind::Ext => None,
            Kind::Int { tag, .. } | Kind::Adj { tag, .. } => Some(tag),
        }
    }
    pub fn enc(&self, f: Fmt, i: usize, v: &V) -> Result<Enc, String> {
        (self.ser.as_ref().expect("harness: no ser").enc)(f, i, v)
    }
    pub fn rec(&self, hr: bool, i: usize, v: &V) -> Result<Doc, String> {
        (self.ser.as_ref().expect("harness: no ser").rec)(hr, i, v)
    }
    pub fn dec(&self, f: Fmt, x: &Enc) -> Got {
        (self.de.as_ref().expect("harness: no de").dec)(f, x)
    }
    pub fn doc(&self, d: &Doc, c: &DeCfg) -> Got {
        (self.de.as_ref().expect("harness: no de").doc)(d, c).map_err(|e| e.0)
    }
    pub fn prefix(&self, f: Fmt, b: &[u8]) -> Result<(usize, V, usize), String> {
        (self.de.as_ref().expect("harness: no de").prefix)(f, b)
    }
}

pub trait Parts {
    fn parts(&self) -> (usize, V);
}

/// Checks of serialization alone compile without the rest.
#[cfg(feature = "de")]
macro_rules! decoding {
    ($($t:tt)*) => { Some($($t)*) };
}
#[cfg(not(feature = "de"))]
macro_rules! decoding {
    ($($t:tt)*) => { None };
}

macro_rules! maybe {
    (ser serialize $($t:tt)*) => { Some($($t)*) };
    (ser serde $($t:tt)*) => { Some($($t)*) };
    (ser $m:ident $($t:tt)*) => { None };
    (de deserialize $($t:tt)*) => { decoding!($($t)*) };
    (de serde $($t:tt)*) => { decoding!($($t)*) };
    (de $m:ident $($t:tt)*) => { None };
}

macro_rules! ser_ops {
    ($make:ident) => {
        SerOps {
            enc: |f, i, v| enc(f, &$make(i, v)),
            rec: |hr, i, v| record(&$make(i, v), hr),
            rec_state: |st, i, v| $make(i, v).serialize(Rec(st)),
            writer: |f, i, v, w| enc_writer(f, &$make(i, v), w),
        }
    };
}

macro_rules! de_ops {
    ($ty:ty, $parts:expr) => {
        DeOps {
            dec: |f, x| dec::<$ty>(f, x).map(|b| $parts(&b)),
            doc: |d, c| dec_doc::<$ty>(d, c).map(|b| $parts(&b)),
            prefix: |f, b| {
                dec_prefix::<$ty>(f, b).map(|(b, n)| {
                    let (i, v) = $parts(&b);
                    (i, v, n)
                })
            },
        }
    };
}

macro_rules! ser_ops_lite {
    ($make:ident) => {
        SerOps {
            enc: |f, i, v| crate::fmts::enc_lite(f, &$make(i, v)),
            rec: |hr, i, v| record(&$make(i, v), hr),
            rec_state: |_, _, _| panic!("harness: not compiled"),
            writer: |_, _, _, _| panic!("harness: not compiled"),
        }
    };
}

macro_rules! de_ops_lite {
    ($ty:ty, $parts:expr) => {
        DeOps {
            dec: |f, x| crate::fmts::dec_lite::<$ty>(f, x).map(|b| $parts(&b)),
            doc: |d, c| dec_doc::<$ty>(d, c).map(|b| $parts(&b)),
            prefix: |_, _| panic!("harness: not compiled"),
        }
    };
}

macro_rules! family {
    ($m:ident, $mode:ident, $attr:meta, $kind:expr, [$($D:ident $i:literal $tag:literal)*] $(, $sup:tt)*) => {
        pub mod $m {
            #![allow(unused_imports, dead_code)]
            use super::*;

            #[$attr]
            pub trait T : Parts $(+ $sup)* {}
            $(
                #[typetag::$mode(name = $tag)]
                impl T for $D {}
            )*
            $( family!(@parts $m $D $i); )*

            pub fn make(i: usize, v: &V) -> Box<dyn T> {
                match i {
                    $( $i => Box::new($D::new(v.clone())), )*
                    _ => panic!("harness: no type {i}"),
                }
            }
            pub fn parts(b: &Box<dyn T>) -> (usize, V) {
                (**b).parts()
            }
            pub const OPS: Ops = Ops {
                name: stringify!($m),
                kind: $kind,
                tags: [$($tag),*],
                ser: maybe!(ser $mode ser_ops!(make)),
                de: maybe!(de $mode de_ops!(Box<dyn T>, parts)),
            };
        }
    };
    (@parts $m:ident $D:ident $i:literal) => {};
}

macro_rules! parts {
    ($($D:ident $i:literal)*) => { $(
        impl Parts for $D {
            fn parts(&self) -> (usize, V) {
                ($i, self.get())
            }
        }
    )* };
}
parts! { D0 0 D1 1 D2 2 D3 3 D4 4 D5 5 D6 6 D7 7 }

macro_rules! std_family {
    ($m:ident, $mode:ident, $attr:meta, $kind:expr) => {
        family!($m, $mode, $attr, $kind, [
            D0 0 "Alpha"
            D1 1 "alpha"
            D2 2 "Alpha "
            D3 3 ""
            D4 4 "é"
            D5 5 "e\u{301}"
            D6 6 "TagXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX"
            D7 7 "\"quo\\te\"\n\u{1F600}"
        ]);
    };
}

/// With tags that look like something else.
macro_rules! odd_family {
    ($m:ident, $mode:ident, $attr:meta, $kind:expr) => {
        family!($m, $mode, $attr, $kind, [
            D0 0 "r#type"
            D1 1 "null"
            D2 2 "-1"
            D3 3 ""
            D4 4 "true"
            D5 5 "a::b::C<'x>"
            D6 6 "Vec<u8>"
            D7 7 "r#"
        ]);
    };
}
macro_rules! sign_family {
    ($m:ident, $mode:ident, $attr:meta, $kind:expr) => {
        family!($m, $mode, $attr, $kind, [
            D0 0 "_"
            D1 1 "$tag"
            D2 2 "#@1"
            D3 3 "value"
            D4 4 "type"
            D5 5 "\u{feff}x\r"
            D6 6 "Ok"
            D7 7 "0"
        ]);
    };
}

std_family!(ext, serde, typetag::serde, Kind::Ext);
odd_family!(exto, serde, typetag::serde, Kind::Ext);
sign_family!(exts, serde, typetag::serde, Kind::Ext);
sign_family!(intv, serde, typetag::serde(tag = "@Type_of"), Kind::Int { tag: "@Type_of", dflt: Dflt::No });
std_family!(int, serde, typetag::serde(tag = "type"), Kind::Int { tag: "type", dflt: Dflt::No });
std_family!(intz, serde, typetag::serde(tag = "zz"), Kind::Int { tag: "zz", dflt: Dflt::No });
odd_family!(int0, serde, typetag::serde(tag = ""), Kind::Int { tag: "", dflt: Dflt::No });
sign_family!(intu, serde, typetag::serde(tag = "t\"\u{e9}\n"), Kind::Int { tag: "t\"\u{e9}\n", dflt: Dflt::No });
std_family!(intd, serde, typetag::serde(tag = "type", default_variant = "Alpha"),
    Kind::Int { tag: "type", dflt: Dflt::Is(0) });
std_family!(intdz, serde, typetag::serde(tag = "zz", default_variant = "e\u{301}"),
    Kind::Int { tag: "zz", dflt: Dflt::Is(5) });
std_family!(intx, serde, typetag::serde(tag = "type", default_variant = "nope"),
    Kind::Int { tag: "type", dflt: Dflt::Dangling("nope") });
std_family!(adj, serde, typetag::serde(tag = "type", content = "value"),
    Kind::Adj { tag: "type", content: "value", dflt: Dflt::No, deny: false });
std_family!(adjr, serde, typetag::serde(tag = "z-tag", content = "content \"c\""),
    Kind::Adj { tag: "z-tag", content: "content \"c\"", dflt: Dflt::No, deny: false });
std_family!(adjd, serde, typetag::serde(tag = "t", content = "c", default_variant = "Alpha"),
    Kind::Adj { tag: "t", content: "c", dflt: Dflt::Is(0), deny: false });
std_family!(adjn, serde, typetag::serde(tag = "t", content = "c", deny_unknown_fields),
    Kind::Adj { tag: "t", content: "c", dflt: Dflt::No, deny: true });
odd_family!(adjdn, serde,
    typetag::serde(tag = "type", content = "a", default_variant = "", deny_unknown_fields),
    Kind::Adj { tag: "type", content: "a", dflt: Dflt::Is(3), deny: true });
std_family!(adjx, serde, typetag::serde(tag = "t", content = "c", deny_unknown_fields, default_variant = "Alphabet"),
    Kind::Adj { tag: "t", content: "c", dflt: Dflt::Dangling("Alphabet"), deny: true });
// For comparison with the above.
std_family!(adjp, serde, typetag::serde(tag = "t", content = "c"),
    Kind::Adj { tag: "t", content: "c", dflt: Dflt::No, deny: false });
odd_family!(adjda, serde, typetag::serde(tag = "type", content = "a", default_variant = ""),
    Kind::Adj { tag: "type", content: "a", dflt: Dflt::Is(3), deny: false });
odd_family!(adja, serde, typetag::serde(tag = "type", content = "a"),
    Kind::Adj { tag: "type", content: "a", dflt: Dflt::No, deny: false });
odd_family!(adjan, serde, typetag::serde(tag = "type", content = "a", deny_unknown_fields),
    Kind::Adj { tag: "type", content: "a", dflt: Dflt::No, deny: true });

/// Families in both directions with distinct tags.
pub static FAMS: [&Ops; 21] = [
    &ext::OPS, &exto::OPS, &exts::OPS, &intv::OPS, &int::OPS, &adj::OPS, &intz::OPS, &adjr::OPS, &int0::OPS, &intu::OPS, &intd::OPS, &intdz::OPS,
    &intx::OPS, &adjd::OPS, &adjn::OPS, &adjdn::OPS, &adjx::OPS, &adjp::OPS, &adja::OPS, &adjda::OPS, &adjan::OPS,
];
pub static EXTS: [&Ops; 3] = [&ext::OPS, &exto::OPS, &exts::OPS];
pub static INTS: [&Ops; 8] =
    [&int::OPS, &intv::OPS, &intz::OPS, &int0::OPS, &intu::OPS, &intd::OPS, &intdz::OPS, &intx::OPS];
pub static ADJS: [&Ops; 10] = [
    &adj::OPS, &adjr::OPS, &adjd::OPS, &adjn::OPS, &adjdn::OPS, &adjx::OPS, &adjp::OPS, &adja::OPS, &adjda::OPS,
    &adjan::OPS,
];
/// (with a default, the same without)
pub static DEFAULTED: [(&Ops, &Ops); 7] = [
    (&intd::OPS, &int::OPS),
    (&intdz::OPS, &intz::OPS),
    (&adjd::OPS, &adjp::OPS),
    (&adjdn::OPS, &adjan::OPS),
    (&intx::OPS, &int::OPS),
    (&adjx::OPS, &adjn::OPS),
    (&adjda::OPS, &adja::OPS),
];
/// (unknown keys ignored, denied)
pub static DENIED: [(&Ops, &Ops); 3] = [(&adjp::OPS, &adjn::OPS), (&adjda::OPS, &adjdn::OPS), (&adja::OPS, &adjan::OPS)];

#[cfg(feature = "oneway")]
pub use oneway::ONE_WAY;
#[cfg(feature = "oneway")]
mod oneway {
    use super::*;
    // The same as others, one direction only.
    std_family!(ext_s, serialize, typetag::serialize, Kind::Ext);
    std_family!(ext_d, deserialize, typetag::deserialize, Kind::Ext);
    std_family!(int_s, serialize, typetag::serialize(tag = "type"), Kind::Int { tag: "type", dflt: Dflt::No });
    std_family!(int_d, deserialize, typetag::deserialize(tag = "type"), Kind::Int { tag: "type", dflt: Dflt::No });
    std_family!(intd_s, serialize, typetag::serialize(tag = "type", default_variant = "Alpha"),
        Kind::Int { tag: "type", dflt: Dflt::Is(0) });
    std_family!(intd_d, deserialize, typetag::deserialize(tag = "type", default_variant = "Alpha"),
        Kind::Int { tag: "type", dflt: Dflt::Is(0) });
    std_family!(adj_s, serialize, typetag::serialize(tag = "type", content = "value"),
        Kind::Adj { tag: "type", content: "value", dflt: Dflt::No, deny: false });
    std_family!(adj_d, deserialize, typetag::deserialize(tag = "type", content = "value"),
        Kind::Adj { tag: "type", content: "value", dflt: Dflt::No, deny: false });
    odd_family!(adjdn_s, serialize,
        typetag::serialize(tag = "type", content = "a", default_variant = "", deny_unknown_fields),
        Kind::Adj { tag: "type", content: "a", dflt: Dflt::Is(3), deny: true });
    odd_family!(adjdn_d, deserialize,
        typetag::deserialize(tag = "type", content = "a", default_variant = "", deny_unknown_fields),
        Kind::Adj { tag: "type", content: "a", dflt: Dflt::Is(3), deny: true });

    /// (both, serialize only, deserialize only)
    pub static ONE_WAY: [(&Ops, &Ops, &Ops); 5] = [
        (&ext::OPS, &ext_s::OPS, &ext_d::OPS),
        (&int::OPS, &int_s::OPS, &int_d::OPS),
        (&intd::OPS, &intd_s::OPS, &intd_d::OPS),
        (&adj::OPS, &adj_s::OPS, &adj_d::OPS),
        (&adjdn::OPS, &adjdn_s::OPS, &adjdn_d::OPS),
    ];
}

#[cfg(feature = "multi")]
pub use multi::MULTI;
#[cfg(feature = "multi")]
mod multi {
    use super::*;
    // Two or three implementations under one tag.
    macro_rules! dup_family {
        ($m:ident, $attr:meta, $kind:expr) => {
            family!($m, serde, $attr, $kind, [
                D0 0 "dup" D1 1 "one" D2 2 "dup" D3 3 "" D4 4 "" D5 5 "five" D6 6 "dup" D7 7 "du"
            ]);
        };
    }
    dup_family!(ext_m, typetag::serde, Kind::Ext);
    dup_family!(int_m, typetag::serde(tag = "type"), Kind::Int { tag: "type", dflt: Dflt::No });
    dup_family!(adj_m, typetag::serde(tag = "type", content = "value"),
        Kind::Adj { tag: "type", content: "value", dflt: Dflt::No, deny: false });

    pub static MULTI: [&Ops; 3] = [&ext_m::OPS, &int_m::OPS, &adj_m::OPS];
}

#[cfg(feature = "forms")]
pub use forms::{DeForm, Forms, SerForm, FORMS};
#[cfg(feature = "forms")]
#[allow(non_snake_case, non_upper_case_globals)]
mod forms {
    use super::*;
    use std::rc::Rc;
    use std::sync::Arc;

    /// A form of the object type and what can be done with it.
    pub struct SerForm {
        pub name: &'static str,
        pub rec: fn(bool, usize, &V) -> Result<Doc, String>,
        pub enc: fn(Fmt, usize, &V) -> Result<Enc, String>,
    }
    pub struct DeForm {
        pub name: &'static str,
        pub dec: fn(Fmt, &Enc) -> Got,
        pub doc: fn(&Doc, &DeCfg) -> Got,
    }
    pub struct Forms {
        pub ops: &'static Ops,
        pub ser: &'static [SerForm],
        pub de: &'static [DeForm],
    }

    macro_rules! with {
        ($i:ident $v:ident $Form:ident) => {
            match $i {
                0 => $Form::new(D0::new($v.clone())),
                1 => $Form::new(D1::new($v.clone())),
                2 => $Form::new(D2::new($v.clone())),
                3 => $Form::new(D3::new($v.clone())),
                4 => $Form::new(D4::new($v.clone())),
                5 => $Form::new(D5::new($v.clone())),
                6 => $Form::new(D6::new($v.clone())),
                _ => $Form::new(D7::new($v.clone())),
            }
        };
        ($i:ident $v:ident $Form:ident $ty:ty) => {
            match $i {
                0 => $Form::new(D0::new($v.clone())) as $ty,
                1 => $Form::new(D1::new($v.clone())) as $ty,
                2 => $Form::new(D2::new($v.clone())) as $ty,
                3 => $Form::new(D3::new($v.clone())) as $ty,
                4 => $Form::new(D4::new($v.clone())) as $ty,
                5 => $Form::new(D5::new($v.clone())) as $ty,
                6 => $Form::new(D6::new($v.clone())) as $ty,
                _ => $Form::new(D7::new($v.clone())) as $ty,
            }
        };
    }
    macro_rules! ser_form {
        ($name:literal, $Form:ident $ty:ty, |$b:ident| $get:expr) => {
            SerForm {
                name: $name,
                rec: |hr, i, v| {
                    #[allow(unused_mut)]
                    let mut $b = with!(i v $Form $ty);
                    record($get, hr)
                },
                enc: |f, i, v| {
                    #[allow(unused_mut)]
                    let mut $b = with!(i v $Form $ty);
                    crate::fmts::enc_mid(f, $get)
                },
            }
        };
    }
    macro_rules! de_form {
        ($ty:ty, |$b:ident| $get:expr) => {
            DeForm {
                name: stringify!($ty),
                dec: |f, x| crate::fmts::dec_mid::<$ty>(f, x).and_then(|$b| $get),
                doc: |d, c| dec_doc::<$ty>(d, c).map_err(|e| e.0).and_then(|$b| $get),
            }
        };
    }
    /// Whether `dyn T + 'a` itself is serializable for any lifetime, also in generic code.
    fn short<'a, X: ?Sized + Serialize + 'a>(x: &'a X) -> &'a X {
        x
    }
    macro_rules! forms {
        ($m:ident, $attr:meta, $kind:expr, [$($sup:tt)*], [$([$($mark:tt)*])*]) => {
            family!($m, serde, $attr, $kind, [
                D0 0 "Alpha" D1 1 "alpha" D2 2 "Alpha " D3 3 "" D4 4 "d4" D5 5 "D5" D6 6 "D7" D7 7 "D6"
            ] $(, $sup)*);
            pub static $m: Forms = {
                use $m::T;
                fn parts<X: ?Sized + Parts>(b: &X) -> Got {
                    Ok(b.parts())
                }
                Forms {
                    ops: &$m::OPS,
                    ser: &[
                        ser_form!("&dyn T", Box Box<dyn T>, |b| &*b),
                        ser_form!("&mut dyn T", Box Box<dyn T>, |b| &mut *b),
                        ser_form!("&'a (dyn T + 'a)", Box Box<dyn T>, |b| short::<dyn T + '_>(&*b)),
                        ser_form!("Box<dyn T>", Box Box<dyn T>, |b| &b),
                        ser_form!("Rc<dyn T>", Rc Rc<dyn T>, |b| &b),
                        ser_form!("&(dyn T + Send)", Box Box<dyn T + Send>, |b| &*b),
                        ser_form!("Box<dyn T + Send>", Box Box<dyn T + Send>, |b| &b),
                        ser_form!("&(dyn T + Sync)", Box Box<dyn T + Sync>, |b| short::<dyn T + Sync + '_>(&*b)),
                        ser_form!("Rc<dyn T + Sync>", Rc Rc<dyn T + Sync>, |b| &b),
                        ser_form!("&(dyn T + Send + Sync)", Box Box<dyn T + Send + Sync>, |b| short::<dyn T + Send + Sync + '_>(&*b)),
                        ser_form!("Arc<dyn T + Sync + Send>", Arc Arc<dyn T + Sync + Send>, |b| &b),
                        ser_form!("&&&Box<dyn T + Send + Sync>", Box Box<dyn T + Send + Sync>, |b| &&&b),
                    ],
                    de: &[
                        de_form!(Box<dyn T>, |b| parts(&*b)),
                        de_form!(Rc<dyn T>, |b| parts(&*b)),
                        de_form!(Arc<dyn T>, |b| parts(&*b)),
                        $(
                            de_form!(Box<dyn T $($mark)*>, |b| parts(&*b)),
                            de_form!(Arc<dyn T $($mark)*>, |b| parts(&*b)),
                        )*
                    ],
                }
            };
        };
    }
    const INT: Kind = Kind::Int { tag: "type", dflt: Dflt::No };
    const INTD: Kind = Kind::Int { tag: "type", dflt: Dflt::Is(0) };
    const ADJ: Kind = Kind::Adj { tag: "t", content: "c", dflt: Dflt::No, deny: true };
    forms!(F0, typetag::serde, Kind::Ext, [], []);
    forms!(F1, typetag::serde, Kind::Ext, [Send], [[+ Send]]);
    forms!(F2, typetag::serde, Kind::Ext, [Sync], [[+ Sync]]);
    forms!(F3, typetag::serde, Kind::Ext, [Send Sync], [[+ Send] [+ Sync] [+ Send + Sync] [+ Sync + Send]]);
    forms!(F4, typetag::serde(tag = "type"), INT, [], []);
    forms!(F5, typetag::serde(tag = "type"), INT, ['static Send], [[+ Send]]);
    forms!(F6, typetag::serde(tag = "type", default_variant = "Alpha"), INTD, [Sync], [[+ Sync]]);
    forms!(F7, typetag::serde(tag = "type", default_variant = "Alpha"), INTD, [Sync Send], [[+ Send] [+ Sync] [+ Send + Sync]]);
    forms!(F8, typetag::serde(tag = "t", content = "c", deny_unknown_fields), ADJ, [], []);
    forms!(F9, typetag::serde(tag = "t", content = "c", deny_unknown_fields), ADJ, [Send], [[+ Send]]);
    forms!(F10, typetag::serde(tag = "t", content = "c", deny_unknown_fields), ADJ, [Sync], [[+ Sync]]);
    forms!(F11, typetag::serde(tag = "t", content = "c", deny_unknown_fields), ADJ, [Send Sync 'static], [[+ Send] [+ Sync] [+ Send + Sync]]);

    pub static FORMS: [&Forms; 12] = [&F0, &F1, &F2, &F3, &F4, &F5, &F6, &F7, &F8, &F9, &F10, &F11];
}

// ---------------------------------------------------- the concrete type alone

fn make_direct(i: usize, v: &V) -> Direct {
    crate::schema::set_direct(i);
    Direct(v.clone())
}
fn make_in_map(i: usize, v: &V) -> InMap {
    crate::schema::set_direct(i);
    InMap(v.clone())
}
static DIRECT: Ops = Ops {
    name: "concrete",
    kind: Kind::Ext,
    tags: [""; NTYPES],
    ser: Some(ser_ops!(make_direct)),
    de: decoding!(de_ops!(Direct, |d: &Direct| (crate::schema::direct(), d.0.clone()))),
};
static LOOSE: Ops = Ops {
    name: "concrete, buffered by Serde",
    kind: Kind::Ext,
    tags: [""; NTYPES],
    ser: None,
    de: decoding!(de_ops_lite!(crate::schema::Loose, |d: &crate::schema::Loose| {
        let crate::schema::Loose::A(d) = d;
        (crate::schema::direct(), d.0.clone())
    })),
};
static IN_MAP: Ops = Ops {
    name: "concrete in a map",
    kind: Kind::Ext,
    tags: [""; NTYPES],
    ser: Some(ser_ops!(make_in_map)),
    de: decoding!(de_ops!(InMap, |d: &InMap| (crate::schema::direct(), d.0.clone()))),
};

/// The concrete type number `i`, without typetag.
pub fn direct(i: usize) -> &'static Ops {
    crate::schema::set_direct(i);
    &DIRECT
}
/// The same after Serde has buffered it, from `{"c": content, "t": "A"}`.
pub fn loose(i: usize) -> &'static Ops {
    crate::schema::set_direct(i);
    &LOOSE
}
/// A map with that as its only value.
pub fn in_map(i: usize) -> &'static Ops {
    crate::schema::set_direct(i);
    &IN_MAP
}

// ------------------------------------------------------ the hand-written enum

#[cfg(feature = "hand")]
pub use hand::HAND;
#[cfg(feature = "hand")]
mod hand {
    use super::*;
    macro_rules! hand_enum {
        ($m:ident, [$($serde:meta),*], $kind:expr) => {
            pub mod $m {
                use super::*;
                #[derive(Serialize, Deserialize)]
                $( #[$serde] )*
                pub enum E {
                    #[serde(rename = "Alpha")] D0(D0),
                    #[serde(rename = "alpha")] D1(D1),
                    #[serde(rename = "Alpha ")] D2(D2),
                    #[serde(rename = "")] D3(D3),
                    #[serde(rename = "é")] D4(D4),
                    #[serde(rename = "e\u{301}")] D5(D5),
                    #[serde(rename = "TagXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX")] D6(D6),
                    #[serde(rename = "\"quo\\te\"\n\u{1F600}")] D7(D7),
                }
                pub fn make(i: usize, v: &V) -> E {
                    let v = v.clone();
                    match i {
                        0 => E::D0(D0::new(v)),
                        1 => E::D1(D1::new(v)),
                        2 => E::D2(D2::new(v)),
                        3 => E::D3(D3::new(v)),
                        4 => E::D4(D4::new(v)),
                        5 => E::D5(D5::new(v)),
                        6 => E::D6(D6::new(v)),
                        _ => E::D7(D7::new(v)),
                    }
                }
                pub fn parts(e: &E) -> (usize, V) {
                    match e {
                        E::D0(x) => (0, x.get()),
                        E::D1(x) => (1, x.get()),
                        E::D2(x) => (2, x.get()),
                        E::D3(x) => (3, x.get()),
                        E::D4(x) => (4, x.get()),
                        E::D5(x) => (5, x.get()),
                        E::D6(x) => (6, x.get()),
                        E::D7(x) => (7, x.get()),
                    }
                }
                pub static OPS: Ops = Ops {
                    name: stringify!($m),
                    kind: $kind,
                    tags: ext::OPS.tags,
                    ser: Some(ser_ops_lite!(make)),
                    de: Some(de_ops_lite!(E, parts)),
                };
            }
        };
    }
    hand_enum!(h_ext, [], Kind::Ext);
    hand_enum!(h_int, [serde(tag = "type")], Kind::Int { tag: "type", dflt: Dflt::No });
    hand_enum!(h_intz, [serde(tag = "zz")], Kind::Int { tag: "zz", dflt: Dflt::No });
    hand_enum!(h_adj, [serde(tag = "type", content = "value")],
        Kind::Adj { tag: "type", content: "value", dflt: Dflt::No, deny: false });
    hand_enum!(h_adjr, [serde(tag = "z-tag", content = "content \"c\"")],
        Kind::Adj { tag: "z-tag", content: "content \"c\"", dflt: Dflt::No, deny: false });
    hand_enum!(h_adjn, [serde(tag = "t", content = "c", deny_unknown_fields)],
        Kind::Adj { tag: "t", content: "c", dflt: Dflt::No, deny: true });

    /// (trait, enum)
    pub static HAND: [(&Ops, &Ops); 6] = [
        (&ext::OPS, &h_ext::OPS),
        (&int::OPS, &h_int::OPS),
        (&adj::OPS, &h_adj::OPS),
        (&intz::OPS, &h_intz::OPS),
        (&adjr::OPS, &h_adjr::OPS),
        (&adjn::OPS, &h_adjn::OPS),
    ];
}

// ---------------------------------------------------------- objects in objects

pub const NESTABLE: u8 = 7;
/// By the number in `S::Obj`.
pub static NEST: [&Ops; NESTABLE as usize] =
    [&ext::OPS, &int::OPS, &adj::OPS, &intz::OPS, &adjr::OPS, &intd::OPS, &adjn::OPS];

macro_rules! nest {
    ($($n:literal $m:ident)*) => {
        pub fn ser_obj<Z: Serializer>(f: u8, i: usize, v: &V, z: Z) -> Result<Z::Ok, Z::Error> {
            match f {
                $( $n => $m::make(i, v).serialize(z), )*
                f => panic!("harness: no family {f}"),
            }
        }
        pub fn de_obj<'de, D: Deserializer<'de>>(f: u8, d: D) -> Result<V, D::Error> {
            let (i, v) = match f {
                $( $n => $m::parts(&Box::<dyn $m::T>::deserialize(d)?), )*
                f => panic!("harness: no family {f}"),
            };
            Ok(V::Obj(i as u8, Box::new(v)))
        }
    };
}
nest! { 0 ext 1 int 2 adj 3 intz 4 adjr 5 intd 6 adjn }

pub fn schema_of(i: usize) -> S {
    world()[i].clone()
}
