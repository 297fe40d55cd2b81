//! The data formats, behind one interface.

use crate::doc::{record, Doc, RecErr};
use crate::schema::order_kept;
use crate::selfde::{DeCfg, SelfDe, Strs};
use bincode::Options;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::Cell;
use std::io::Read;

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Fmt {
    JsonStr,
    JsonSlice,
    JsonReader,
    JsonValue,
    JsonValueRef,
    Cbor,
    Toml,
    Bincode,
    BincodeReader,
    BincodeVar,
    BincodeBig,
    Postcard,
    SelfDoc,
}
use Fmt::*;

pub const JSON_TEXT: [Fmt; 3] = [JsonStr, JsonSlice, JsonReader];
pub const BINARY: [Fmt; 5] = [Bincode, BincodeReader, BincodeVar, BincodeBig, Postcard];
pub const SELF_DESCRIBING: [Fmt; 8] =
    [JsonStr, JsonSlice, JsonReader, JsonValue, JsonValueRef, Cbor, Toml, SelfDoc];
pub const ALL: [Fmt; 13] = [
    JsonStr, JsonSlice, JsonReader, JsonValue, JsonValueRef, Cbor, Toml, SelfDoc, Bincode, BincodeReader,
    BincodeVar, BincodeBig, Postcard,
];

#[derive(Clone, Debug, PartialEq)]
pub enum Enc {
    Text(String),
    Bytes(Vec<u8>),
    Val(serde_json::Value),
    Doc(Doc),
}

impl Enc {
    pub fn show(&self) -> String {
        match self {
            Enc::Text(s) => s.clone(),
            Enc::Bytes(b) => format!("hex:{}", hex(b)),
            Enc::Val(v) => format!("value:{v}"),
            Enc::Doc(d) => format!("{d:?}"),
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

impl Fmt {
    pub fn is_json(self) -> bool {
        matches!(self, JsonStr | JsonSlice | JsonReader | JsonValue | JsonValueRef)
    }
    pub fn self_describing(self) -> bool {
        !self.binary()
    }
    pub fn binary(self) -> bool {
        matches!(self, Bincode | BincodeReader | BincodeVar | BincodeBig | Postcard)
    }
    pub fn human_readable(self) -> bool {
        !self.binary() && self != Cbor
    }
    /// Whether entries of a map may come back in another order.
    pub fn reorders(self) -> bool {
        matches!(self, JsonValue | JsonValueRef | Toml)
    }
}

fn e<T: std::fmt::Display>(x: T) -> String {
    let s = x.to_string();
    debug_assert!(!s.is_empty());
    s
}

/// No length in garbage may ask for more memory than this.
const LIMIT: u64 = 1 << 24;
fn bin_fix() -> impl Options {
    bincode::DefaultOptions::new().with_limit(LIMIT).with_fixint_encoding().allow_trailing_bytes()
}
fn bin_var() -> impl Options {
    bincode::DefaultOptions::new().with_limit(LIMIT)
}
fn bin_big() -> impl Options {
    bincode::DefaultOptions::new().with_limit(LIMIT).with_big_endian().with_fixint_encoding()
}

pub fn enc<T: ?Sized + Serialize>(f: Fmt, x: &T) -> Result<Enc, String> {
    Ok(match f {
        JsonStr => Enc::Text(serde_json::to_string(x).map_err(e)?),
        JsonSlice => Enc::Bytes(serde_json::to_vec(x).map_err(e)?),
        JsonReader => {
            let mut v = vec![];
            serde_json::to_writer_pretty(&mut v, x).map_err(e)?;
            Enc::Bytes(v)
        }
        JsonValue | JsonValueRef => Enc::Val(serde_json::to_value(x).map_err(e)?),
        Cbor => {
            let mut v = vec![];
            ciborium::into_writer(x, &mut v).map_err(e)?;
            Enc::Bytes(v)
        }
        #[cfg(feature = "toml")]
        Toml => Enc::Text(toml::to_string(x).map_err(e)?),
        #[cfg(not(feature = "toml"))]
        Toml => return Err("harness: TOML is not compiled".to_owned()),
        Bincode | BincodeReader => Enc::Bytes(bincode::serialize(x).map_err(e)?),
        BincodeVar => Enc::Bytes(bin_var().serialize(x).map_err(e)?),
        BincodeBig => Enc::Bytes(bin_big().serialize(x).map_err(e)?),
        Postcard => Enc::Bytes(postcard::to_stdvec(x).map_err(e)?),
        SelfDoc => Enc::Doc(record(x, true)?.simplify()),
    })
}

/// The same for types that are only compared in these formats (saves compiling the rest).
pub fn enc_lite<T: ?Sized + Serialize>(f: Fmt, x: &T) -> Result<Enc, String> {
    Ok(match f {
        JsonStr => Enc::Text(serde_json::to_string(x).map_err(e)?),
        JsonValue => Enc::Val(serde_json::to_value(x).map_err(e)?),
        Cbor => {
            let mut v = vec![];
            ciborium::into_writer(x, &mut v).map_err(e)?;
            Enc::Bytes(v)
        }
        f => panic!("harness: not compiled for {f:?}"),
    })
}

/// And in these.
pub fn enc_mid<T: ?Sized + Serialize>(f: Fmt, x: &T) -> Result<Enc, String> {
    Ok(match f {
        JsonStr => Enc::Text(serde_json::to_string(x).map_err(e)?),
        Cbor => {
            let mut v = vec![];
            ciborium::into_writer(x, &mut v).map_err(e)?;
            Enc::Bytes(v)
        }
        Bincode => Enc::Bytes(bincode::serialize(x).map_err(e)?),
        Postcard => Enc::Bytes(postcard::to_stdvec(x).map_err(e)?),
        f => panic!("harness: not compiled for {f:?}"),
    })
}

pub fn dec_mid<T: DeserializeOwned>(f: Fmt, x: &Enc) -> Result<T, String> {
    order_kept(true);
    match f {
        JsonStr | Cbor => dec_lite(f, x),
        Bincode | Postcard => match x {
            Enc::Bytes(b) if f == Bincode => {
                bincode::DefaultOptions::new().with_fixint_encoding().deserialize(b).map_err(e)
            }
            Enc::Bytes(b) => match postcard::take_from_bytes::<T>(b) {
                Ok((v, [])) => Ok(v),
                Ok((_, rest)) => Err(format!("{} bytes left over", rest.len())),
                Err(x) => Err(e(x)),
            },
            x => panic!("harness: {f:?} from {x:?}"),
        },
        f => panic!("harness: not compiled for {f:?}"),
    }
}

pub fn dec_lite<T: DeserializeOwned>(f: Fmt, x: &Enc) -> Result<T, String> {
    order_kept(true);
    match (f, x) {
        (JsonStr | JsonSlice | JsonReader, Enc::Text(s)) => serde_json::from_str(s).map_err(e),
        (Cbor, Enc::Bytes(b)) => {
            let mut b = b.as_slice();
            let r = ciborium::from_reader(&mut b).map_err(e)?;
            if !b.is_empty() {
                return Err(format!("{} bytes left over", b.len()));
            }
            Ok(r)
        }
        f => panic!("harness: not compiled for {f:?}"),
    }
}

thread_local! {
    /// Whether readers fail where they would end.
    pub static FAIL_AT_END: Cell<bool> = const { Cell::new(false) };
}

/// A reader that hands out one byte at a time.
pub struct Drip<'a>(pub &'a [u8]);
impl<'a> Read for Drip<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.0.is_empty() {
            if FAIL_AT_END.with(|c| c.get()) {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, crate::doc::injected()));
            }
            return Ok(0);
        }
        b[0] = self.0[0];
        self.0 = &self.0[1..];
        Ok(1)
    }
}

pub fn dec_doc<T: DeserializeOwned>(d: &Doc, c: &DeCfg) -> Result<T, RecErr> {
    order_kept(true);
    T::deserialize(SelfDe { d, c })
}

/// Decodes a whole input; bytes left over are an error.
pub fn dec<T: DeserializeOwned>(f: Fmt, x: &Enc) -> Result<T, String> {
    order_kept(!f.reorders());
    let bytes = || match x {
        Enc::Bytes(b) => b.as_slice(),
        Enc::Text(s) => s.as_bytes(),
        x => panic!("harness: {f:?} from {x:?}"),
    };
    let text = || std::str::from_utf8(bytes()).map_err(|_| "not UTF-8".to_owned());
    match f {
        JsonStr => serde_json::from_str(text()?).map_err(e),
        JsonSlice => serde_json::from_slice(bytes()).map_err(e),
        JsonReader => serde_json::from_reader(Drip(bytes())).map_err(e),
        JsonValue | JsonValueRef => {
            let tmp;
            let v = match x {
                Enc::Val(v) => v,
                _ => {
                    tmp = serde_json::from_slice::<serde_json::Value>(bytes()).map_err(e)?;
                    &tmp
                }
            };
            if f == JsonValue {
                serde_json::from_value(v.clone()).map_err(e)
            } else {
                T::deserialize(v).map_err(e)
            }
        }
        Cbor => {
            let mut b = bytes();
            let r = ciborium::from_reader(&mut b).map_err(e)?;
            if !b.is_empty() {
                return Err(format!("{} bytes left over", b.len()));
            }
            Ok(r)
        }
        #[cfg(feature = "toml")]
        Toml => toml::from_str(text()?).map_err(e),
        #[cfg(not(feature = "toml"))]
        Toml => Err("harness: TOML is not compiled".to_owned()),
        Bincode => bincode::DefaultOptions::new().with_fixint_encoding().deserialize(bytes()).map_err(e),
        BincodeReader => {
            let mut r = Drip(bytes());
            let v = bin_fix().deserialize_from(&mut r).map_err(e)?;
            if !r.0.is_empty() {
                return Err(format!("{} bytes left over", r.0.len()));
            }
            Ok(v)
        }
        BincodeVar => bin_var().deserialize(bytes()).map_err(e),
        BincodeBig => bin_big().deserialize(bytes()).map_err(e),
        Postcard => match postcard::take_from_bytes::<T>(bytes()) {
            Ok((v, [])) => Ok(v),
            Ok((_, rest)) => Err(format!("{} bytes left over", rest.len())),
            Err(x) => Err(e(x)),
        },
        SelfDoc => match x {
            Enc::Doc(d) => dec_doc(d, &DeCfg::new(Strs::Borrowed, Strs::Borrowed)).map_err(|e| e.0),
            x => panic!("harness: {f:?} from {x:?}"),
        },
    }
}

/// Decodes one value off the front of a stream and says how much it took.
pub fn dec_prefix<T: DeserializeOwned>(f: Fmt, b: &[u8]) -> Result<(T, usize), String> {
    order_kept(true);
    match f {
        Cbor => {
            let mut r = b;
            let v = ciborium::from_reader(&mut r).map_err(e)?;
            Ok((v, b.len() - r.len()))
        }
        Bincode => {
            let mut r = b;
            let v = bin_fix().deserialize_from(&mut r).map_err(e)?;
            Ok((v, b.len() - r.len()))
        }
        BincodeReader => {
            let mut r = Drip(b);
            let v = bin_fix().deserialize_from(&mut r).map_err(e)?;
            Ok((v, b.len() - r.0.len()))
        }
        BincodeVar => {
            let mut r = b;
            let v = bin_var().deserialize_from(&mut r).map_err(e)?;
            Ok((v, b.len() - r.len()))
        }
        BincodeBig => {
            let mut r = b;
            let v = bin_big().deserialize_from(&mut r).map_err(e)?;
            Ok((v, b.len() - r.len()))
        }
        Postcard => {
            let (v, r) = postcard::take_from_bytes::<T>(b).map_err(e)?;
            Ok((v, b.len() - r.len()))
        }
        f => panic!("harness: no stream of {f:?}"),
    }
}

pub fn enc_writer<T: ?Sized + Serialize>(f: Fmt, x: &T, w: &mut dyn std::io::Write) -> Result<(), String> {
    match f {
        JsonStr => serde_json::to_writer(w, x).map_err(e),
        JsonReader => serde_json::to_writer_pretty(w, x).map_err(e),
        Cbor => ciborium::into_writer(x, w).map_err(e),
        Bincode => bincode::serialize_into(w, x).map_err(e),
        BincodeVar => bin_var().serialize_into(w, x).map_err(e),
        Postcard => postcard::to_io(x, w).map(|_| ()).map_err(e),
        f => panic!("harness: no writer of {f:?}"),
    }
}
