//! What generated programs have in common: small types, and a main function
//! that decodes and encodes objects as the driver asks.

pub use inventory;
pub use serde;
pub use serde_json;

/// A type holding a number.
#[macro_export]
macro_rules! ty {
    ($v:vis $n:ident) => {
        $v struct $n(pub u32);
        $crate::num!([] $n, x => $n(x));
    };
}

/// A generic type holding a number.
#[macro_export]
macro_rules! tyg {
    ($v:vis $n:ident) => {
        $v struct $n<GenArg: ?::core::marker::Sized>(pub u32, pub ::core::marker::PhantomData<GenArg>);
        $crate::num!([GenArg: ?::core::marker::Sized] $n<GenArg>, x => $n(x, ::core::marker::PhantomData));
    };
}

/// A type with a field that is a number.
#[macro_export]
macro_rules! ob {
    ($v:vis $n:ident) => {
        $v struct $n {
            pub n: u32,
        }
        impl $crate::serde::Serialize for $n {
            fn serialize<S: $crate::serde::Serializer>(&self, s: S) -> ::core::result::Result<S::Ok, S::Error> {
                $crate::serde::Serialize::serialize(&$crate::N { n: self.n }, s)
            }
        }
        impl<'de> $crate::serde::Deserialize<'de> for $n {
            fn deserialize<D: $crate::serde::Deserializer<'de>>(d: D) -> ::core::result::Result<Self, D::Error> {
                let x = <$crate::N as $crate::serde::Deserialize>::deserialize(d)?;
                ::core::result::Result::Ok($n { n: x.n })
            }
        }
    };
}

#[derive(serde::Serialize, serde::Deserialize)]
pub struct N {
    pub n: u32,
}

#[macro_export]
macro_rules! num {
    ([$($g:tt)*] $t:ty, $x:ident => $e:expr) => {
        impl<$($g)*> $crate::serde::Serialize for $t {
            fn serialize<S: $crate::serde::Serializer>(&self, s: S) -> ::core::result::Result<S::Ok, S::Error> {
                s.serialize_u32(self.0)
            }
        }
        impl<'de, $($g)*> $crate::serde::Deserialize<'de> for $t {
            fn deserialize<D: $crate::serde::Deserializer<'de>>(d: D) -> ::core::result::Result<Self, D::Error> {
                let $x = <u32 as $crate::serde::Deserialize>::deserialize(d)?;
                ::core::result::Result::Ok($e)
            }
        }
    };
}

/// Implemented by everything.
pub trait Any0 {}
impl<T: ?Sized> Any0 for T {}

pub trait Named {
    const NAME: &'static str;
}

pub const fn same(s: &'static str) -> &'static str {
    s
}

pub const fn longer(a: &'static str, b: &'static str) -> &'static str {
    if a.len() > b.len() {
        a
    } else {
        b
    }
}

/// Decodes objects of a trait.
pub struct Reader {
    pub of: u32,
    pub form: u8,
    pub f: fn(&str) -> Outcome,
}
inventory::collect!(Reader);

/// Encodes an object of one impl.
pub struct Maker {
    pub of: u32,
    pub f: fn(u32) -> String,
}
inventory::collect!(Maker);

pub enum Outcome {
    Value(String, String),
    Error(String),
}

pub fn read<'a, T>(doc: &'a str, show: fn(&T) -> String) -> Outcome
where
    T: ?Sized + serde::Serialize,
    Box<T>: serde::Deserialize<'a>,
{
    match serde_json::from_str::<Box<T>>(doc) {
        Ok(x) => Outcome::Value(show(&x), write(&*x)),
        Err(e) => Outcome::Error(e.to_string()),
    }
}

pub fn read1<'a, T>(doc: &'a str, show: fn(&T) -> String) -> Outcome
where
    T: ?Sized,
    Box<T>: serde::Deserialize<'a>,
{
    match serde_json::from_str::<Box<T>>(doc) {
        Ok(x) => Outcome::Value(show(&x), String::new()),
        Err(e) => Outcome::Error(e.to_string()),
    }
}

pub fn write<T: ?Sized + serde::Serialize>(x: &T) -> String {
    serde_json::to_string(x).unwrap_or_else(|e| format!("error: {e}"))
}

/// `$m` is the method that shows an object.
#[macro_export]
macro_rules! reader {
    ($of:literal, $form:literal, $t:ty, $m:ident) => {
        $crate::inventory::submit! {
            $crate::Reader { of: $of, form: $form, f: |doc| $crate::read::<$t>(doc, |x| x.$m()) }
        }
    };
}

/// Of a trait that is not serialized.
#[macro_export]
macro_rules! reader1 {
    ($of:literal, $form:literal, $t:ty, $m:ident) => {
        $crate::inventory::submit! {
            $crate::Reader { of: $of, form: $form, f: |doc| $crate::read1::<$t>(doc, |x| x.$m()) }
        }
    };
}

#[macro_export]
macro_rules! maker {
    ($of:literal, $tr:ty, $t:ty, $n:ident => $e:expr) => {
        $crate::inventory::submit! {
            $crate::Maker {
                of: $of,
                f: |$n| {
                    let x: $t = $e;
                    $crate::write(&x as &$tr)
                },
            }
        }
    };
}

/// Reads a list of requests and answers them in order.
pub fn main() {
    let text = std::io::read_to_string(std::io::stdin()).unwrap();
    let asked: Vec<(u32, u8, String)> = serde_json::from_str(&text).unwrap();
    let mut out = vec![];
    for (of, form, doc) in asked {
        out.push(if form == 255 {
            match inventory::iter::<Maker>.into_iter().find(|m| m.of == of) {
                Some(m) => serde_json::json!({"w": (m.f)(doc.parse().unwrap())}),
                None => serde_json::json!({"no": of}),
            }
        } else {
            match inventory::iter::<Reader>.into_iter().find(|r| r.of == of && r.form == form) {
                Some(r) => match (r.f)(&doc) {
                    Outcome::Value(s, w) => serde_json::json!({"o": s, "w": w}),
                    Outcome::Error(e) => serde_json::json!({"e": e}),
                },
                None => serde_json::json!({"no": of}),
            }
        });
    }
    println!("{}", serde_json::Value::from(out));
}
