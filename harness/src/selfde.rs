//! A self-describing deserializer over a simplified `Doc`, with choices that
//! formats differ in: how strings and byte strings are handed out, whether
//! unread entries are an error, and failures at a chosen call.

use crate::doc::{injected, Doc, RecErr};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::forward_to_deserialize_any;
use std::cell::Cell;

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Strs {
    Borrowed,
    Transient,
    Owned,
    Mixed,
}

pub struct DeCfg {
    pub hr: bool,
    pub strs: Strs,
    pub bytes: Strs,
    /// Whether integers come in the width they were written in, or widest.
    pub narrow: bool,
    pub fail_at: Cell<i64>,
    pub failed: Cell<bool>,
    pub calls: Cell<u64>,
    pub after_failure: Cell<bool>,
}

impl DeCfg {
    pub fn new(strs: Strs, bytes: Strs) -> DeCfg {
        DeCfg {
            hr: true,
            strs,
            bytes,
            narrow: false,
            fail_at: Cell::new(-1),
            failed: Cell::new(false),
            calls: Cell::new(0),
            after_failure: Cell::new(false),
        }
    }
    fn step(&self) -> Result<(), RecErr> {
        if self.failed.get() {
            self.after_failure.set(true);
            return Err(RecErr(injected()));
        }
        self.calls.set(self.calls.get() + 1);
        let n = self.fail_at.get();
        if n == 0 {
            self.failed.set(true);
            return Err(RecErr(injected()));
        }
        if n > 0 {
            self.fail_at.set(n - 1);
        }
        Ok(())
    }
    fn mode(&self, m: Strs) -> Strs {
        match m {
            Strs::Mixed => match self.calls.get() % 3 {
                0 => Strs::Borrowed,
                1 => Strs::Transient,
                _ => Strs::Owned,
            },
            m => m,
        }
    }
}

#[derive(Copy, Clone)]
pub struct SelfDe<'de> {
    pub d: &'de Doc,
    pub c: &'de DeCfg,
}

impl<'de> SelfDe<'de> {
    fn new(d: &'de Doc, c: &'de DeCfg) -> Self {
        SelfDe { d, c }
    }
    fn int<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RecErr> {
        if !self.c.narrow {
            match *self.d {
                Doc::I128(x) => return v.visit_i128(x),
                Doc::U128(x) => return v.visit_u128(x),
                _ => {
                    let x = self.d.int().expect("harness: not an integer");
                    return if x >= 0 { v.visit_u64(x as u64) } else { v.visit_i64(x as i64) };
                }
            }
        }
        match *self.d {
            Doc::I8(x) => v.visit_i8(x),
            Doc::I16(x) => v.visit_i16(x),
            Doc::I32(x) => v.visit_i32(x),
            Doc::I64(x) => v.visit_i64(x),
            Doc::I128(x) => v.visit_i128(x),
            Doc::U8(x) => v.visit_u8(x),
            Doc::U16(x) => v.visit_u16(x),
            Doc::U32(x) => v.visit_u32(x),
            Doc::U64(x) => v.visit_u64(x),
            Doc::U128(x) => v.visit_u128(x),
            _ => unreachable!(),
        }
    }
    fn any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RecErr> {
        match self.d {
            Doc::Bool(b) => v.visit_bool(*b),
            Doc::F32(x) => v.visit_f32(f32::from_bits(*x)),
            Doc::F64(x) => v.visit_f64(f64::from_bits(*x)),
            Doc::Str(s) => match self.c.mode(self.c.strs) {
                Strs::Borrowed => v.visit_borrowed_str(s),
                Strs::Transient => v.visit_str(&s.clone()),
                _ => v.visit_string(s.clone()),
            },
            Doc::Bytes(s) => match self.c.mode(self.c.bytes) {
                Strs::Borrowed => v.visit_borrowed_bytes(s),
                Strs::Transient => v.visit_bytes(&s.clone()),
                _ => v.visit_byte_buf(s.clone()),
            },
            Doc::Unit => v.visit_unit(),
            Doc::None => v.visit_none(),
            Doc::Some(x) => v.visit_some(SelfDe::new(x, self.c)),
            Doc::Newtype(_, x) => v.visit_newtype_struct(SelfDe::new(x, self.c)),
            Doc::Char(x) => v.visit_char(*x),
            Doc::Seq(_, x) => {
                let mut it = It { v: x, i: 0, c: self.c };
                let r = v.visit_seq(&mut it)?;
                if it.i < x.len() {
                    return Err(RecErr("trailing elements".to_owned()));
                }
                Ok(r)
            }
            Doc::Map(_, x) => {
                let mut it = Mp { v: x, i: 0, val: None, c: self.c };
                let r = v.visit_map(&mut it)?;
                if it.i < x.len() || it.val.is_some() {
                    return Err(RecErr("trailing entries".to_owned()));
                }
                Ok(r)
            }
            _ => self.int(v),
        }
    }
}

macro_rules! fwd {
    ($($m:ident)*) => { $(
        fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RecErr> {
            self.c.step()?;
            self.any(v)
        }
    )* };
}

impl<'de> Deserializer<'de> for SelfDe<'de> {
    type Error = RecErr;
    fwd! {
        deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64
        deserialize_i128 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128
        deserialize_f32 deserialize_f64 deserialize_char
        deserialize_bytes deserialize_byte_buf deserialize_unit deserialize_seq deserialize_map
        deserialize_identifier
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RecErr> {
        self.c.step()?;
        match self.d {
            // A format that tells characters from strings does so both ways.
            Doc::Char(x) => Err(serde::de::Error::invalid_type(serde::de::Unexpected::Char(*x), &v)),
            _ => self.any(v),
        }
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RecErr> {
        self.deserialize_str(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RecErr> {
        self.c.step()?;
        match self.d {
            Doc::Unit | Doc::None => v.visit_none(),
            Doc::Some(x) => v.visit_some(SelfDe::new(x, self.c)),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, RecErr> {
        self.c.step()?;
        self.any(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, RecErr> {
        self.c.step()?;
        match self.d {
            Doc::Newtype(_, x) => v.visit_newtype_struct(SelfDe::new(x, self.c)),
            _ => v.visit_newtype_struct(self),
        }
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, RecErr> {
        self.c.step()?;
        self.any(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: usize,
        v: V,
    ) -> Result<V::Value, RecErr> {
        self.c.step()?;
        self.any(v)
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, RecErr> {
        self.c.step()?;
        self.any(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, RecErr> {
        self.c.step()?;
        match self.d {
            Doc::Str(_) => v.visit_enum(En { k: self.d, v: None, c: self.c }),
            Doc::Map(_, m) if m.len() == 1 => {
                v.visit_enum(En { k: &m[0].0, v: Some(&m[0].1), c: self.c })
            }
            d => Err(RecErr(format!("expected enum, got {d:?}"))),
        }
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RecErr> {
        self.c.step()?;
        v.visit_unit()
    }
    fn is_human_readable(&self) -> bool {
        self.c.hr
    }
}

struct It<'de> {
    v: &'de [Doc],
    i: usize,
    c: &'de DeCfg,
}
impl<'de, 'a> SeqAccess<'de> for &'a mut It<'de> {
    type Error = RecErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, RecErr> {
        self.c.step()?;
        let Some(d) = self.v.get(self.i) else { return Ok(None) };
        self.i += 1;
        s.deserialize(SelfDe::new(d, self.c)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        None
    }
}

struct Mp<'de> {
    v: &'de [(Doc, Doc)],
    i: usize,
    val: Option<&'de Doc>,
    c: &'de DeCfg,
}
impl<'de, 'a> MapAccess<'de> for &'a mut Mp<'de> {
    type Error = RecErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, RecErr> {
        self.c.step()?;
        assert!(self.val.is_none(), "next_key called before next_value");
        let Some((k, x)) = self.v.get(self.i) else { return Ok(None) };
        self.i += 1;
        self.val = Some(x);
        s.deserialize(KeyDe(SelfDe::new(k, self.c))).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, RecErr> {
        self.c.step()?;
        let x = self.val.take().expect("next_value called before next_key");
        s.deserialize(SelfDe::new(x, self.c))
    }
    fn size_hint(&self) -> Option<usize> {
        None
    }
}

/// Keys are what they are; a newtype or enum around them is transparent.
struct KeyDe<'de>(SelfDe<'de>);
impl<'de> Deserializer<'de> for KeyDe<'de> {
    type Error = RecErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, RecErr> {
        self.0.c.step()?;
        self.0.any(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, RecErr> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        n: &'static str,
        vs: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, RecErr> {
        self.0.deserialize_enum(n, vs, v)
    }
    fn is_human_readable(&self) -> bool {
        self.0.c.hr
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct seq tuple
        tuple_struct map struct identifier ignored_any
    }
}

struct En<'de> {
    k: &'de Doc,
    v: Option<&'de Doc>,
    c: &'de DeCfg,
}
impl<'de> EnumAccess<'de> for En<'de> {
    type Error = RecErr;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self), RecErr> {
        let k = s.deserialize(SelfDe::new(self.k, self.c))?;
        Ok((k, self))
    }
}
impl<'de> VariantAccess<'de> for En<'de> {
    type Error = RecErr;
    fn unit_variant(self) -> Result<(), RecErr> {
        match self.v {
            None => Ok(()),
            Some(d) => de::Deserialize::deserialize(SelfDe::new(d, self.c)),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, RecErr> {
        match self.v {
            None => Err(RecErr("expected newtype variant".to_owned())),
            Some(d) => s.deserialize(SelfDe::new(d, self.c)),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, RecErr> {
        match self.v {
            Some(d @ Doc::Seq(..)) => SelfDe::new(d, self.c).any(v),
            _ => Err(RecErr("expected tuple variant".to_owned())),
        }
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, RecErr> {
        match self.v {
            Some(d @ (Doc::Seq(..) | Doc::Map(..))) => SelfDe::new(d, self.c).any(v),
            _ => Err(RecErr("expected struct variant".to_owned())),
        }
    }
}
