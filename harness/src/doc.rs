//! A tree of everything a Serde serializer can be told, a serializer that
//! records it (and checks the protocol), and renderers to concrete formats.

use serde::ser::{self, Serialize, Serializer};
use std::cell::Cell;
use std::fmt;

pub type Name = &'static str;

#[derive(Clone, Debug, PartialEq)]
pub enum Doc {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Doc>),
    Unit,
    UnitStruct(Name),
    UnitVar(Name, u32, Name),
    Newtype(Name, Box<Doc>),
    NewVar(Name, u32, Name, Box<Doc>),
    Seq(Option<usize>, Vec<Doc>),
    Tuple(Vec<Doc>),
    TupleStruct(Name, Vec<Doc>),
    TupleVar(Name, u32, Name, Vec<Doc>),
    Map(Option<usize>, Vec<(Doc, Doc)>),
    Struct(Name, Vec<(Name, Doc)>),
    StructVar(Name, u32, Name, Vec<(Name, Doc)>),
}

impl Doc {
    pub fn s(s: &str) -> Doc {
        Doc::Str(s.to_owned())
    }
    pub fn map(v: Vec<(Doc, Doc)>) -> Doc {
        Doc::Map(Some(v.len()), v)
    }
    pub fn seq(v: Vec<Doc>) -> Doc {
        Doc::Seq(Some(v.len()), v)
    }

    /// What is left of a document in a self-describing format: no names of
    /// types, enums as strings or single-entry maps.
    pub fn simplify(&self) -> Doc {
        let seq = |v: &Vec<Doc>| Doc::seq(v.iter().map(Doc::simplify).collect());
        let st = |v: &Vec<(Name, Doc)>| {
            Doc::map(v.iter().map(|(k, x)| (Doc::s(k), x.simplify())).collect())
        };
        match self {
            Doc::Char(c) => Doc::Str(c.to_string()),
            Doc::None | Doc::Unit | Doc::UnitStruct(_) => Doc::Unit,
            Doc::Some(x) | Doc::Newtype(_, x) => x.simplify(),
            Doc::UnitVar(_, _, v) => Doc::s(v),
            Doc::NewVar(_, _, v, x) => Doc::map(vec![(Doc::s(v), x.simplify())]),
            Doc::Seq(_, v) | Doc::Tuple(v) | Doc::TupleStruct(_, v) => seq(v),
            Doc::TupleVar(_, _, n, v) => Doc::map(vec![(Doc::s(n), seq(v))]),
            Doc::Map(_, v) => {
                Doc::map(v.iter().map(|(k, x)| (k.simplify(), x.simplify())).collect())
            }
            Doc::Struct(_, v) => st(v),
            Doc::StructVar(_, _, n, v) => Doc::map(vec![(Doc::s(n), st(v))]),
            other => other.clone(),
        }
    }

    /// The same in a format that keeps options, newtypes and characters apart.
    pub fn soften(&self) -> Doc {
        let seq = |v: &Vec<Doc>| Doc::seq(v.iter().map(Doc::soften).collect());
        let st = |v: &Vec<(Name, Doc)>| {
            Doc::map(v.iter().map(|(k, x)| (Doc::s(k), x.soften())).collect())
        };
        match self {
            Doc::Char(_) | Doc::None => self.clone(),
            Doc::Some(x) => Doc::Some(Box::new(x.soften())),
            Doc::Newtype(n, x) => Doc::Newtype(n, Box::new(x.soften())),
            Doc::NewVar(_, _, v, x) => Doc::map(vec![(Doc::s(v), x.soften())]),
            Doc::Seq(_, v) | Doc::Tuple(v) | Doc::TupleStruct(_, v) => seq(v),
            Doc::TupleVar(_, _, n, v) => Doc::map(vec![(Doc::s(n), seq(v))]),
            Doc::Map(_, v) => Doc::map(v.iter().map(|(k, x)| (k.simplify(), x.soften())).collect()),
            Doc::Struct(_, v) => st(v),
            Doc::StructVar(_, _, n, v) => Doc::map(vec![(Doc::s(n), st(v))]),
            other => other.simplify(),
        }
    }

    /// The same with fields and variants denoted by other than their names, as
    /// formats may do: `f` is told an index and a name.
    pub fn renamed(&self, f: &mut dyn FnMut(usize, Name) -> Doc) -> Doc {
        fn vs(v: &[Doc], f: &mut dyn FnMut(usize, Name) -> Doc) -> Doc {
            Doc::seq(v.iter().map(|x| x.renamed(f)).collect())
        }
        fn st(v: &[(Name, Doc)], f: &mut dyn FnMut(usize, Name) -> Doc) -> Doc {
            Doc::map(v.iter().enumerate().map(|(i, (k, x))| (f(i, k), x.renamed(f))).collect())
        }
        match self {
            Doc::Some(x) => Doc::Some(Box::new(x.renamed(f))),
            Doc::Newtype(n, x) => Doc::Newtype(n, Box::new(x.renamed(f))),
            Doc::NewVar(_, i, v, x) => Doc::map(vec![(f(*i as usize, v), x.renamed(f))]),
            Doc::Seq(_, v) | Doc::Tuple(v) | Doc::TupleStruct(_, v) => vs(v, f),
            Doc::TupleVar(_, i, n, v) => Doc::map(vec![(f(*i as usize, n), vs(v, f))]),
            Doc::Map(_, v) => Doc::map(v.iter().map(|(k, x)| (k.simplify(), x.renamed(f))).collect()),
            Doc::Struct(_, v) => st(v, f),
            Doc::StructVar(_, i, n, v) => Doc::map(vec![(f(*i as usize, n), st(v, f))]),
            other => other.soften(),
        }
    }

    /// Erases the size hints of sequences and maps: the protocol checks have
    /// already compared them to what was written.
    pub fn unhint(&self) -> Doc {
        let vs = |v: &Vec<Doc>| v.iter().map(Doc::unhint).collect::<Vec<_>>();
        let ns = |v: &Vec<(Name, Doc)>| v.iter().map(|(k, x)| (*k, x.unhint())).collect::<Vec<_>>();
        match self {
            Doc::Some(x) => Doc::Some(Box::new(x.unhint())),
            Doc::Newtype(n, x) => Doc::Newtype(n, Box::new(x.unhint())),
            Doc::NewVar(a, b, c, x) => Doc::NewVar(a, *b, c, Box::new(x.unhint())),
            Doc::Seq(_, v) => Doc::Seq(None, vs(v)),
            Doc::Tuple(v) => Doc::Tuple(vs(v)),
            Doc::TupleStruct(n, v) => Doc::TupleStruct(n, vs(v)),
            Doc::TupleVar(a, b, c, v) => Doc::TupleVar(a, *b, c, vs(v)),
            Doc::Map(_, v) => {
                Doc::Map(None, v.iter().map(|(k, x)| (k.unhint(), x.unhint())).collect())
            }
            Doc::Struct(n, v) => Doc::Struct(n, ns(v)),
            Doc::StructVar(a, b, c, v) => Doc::StructVar(a, *b, c, ns(v)),
            other => other.clone(),
        }
    }

    /// Announces the length of everything, as buffering does.
    pub fn sized(&self) -> Doc {
        let vs = |v: &Vec<Doc>| v.iter().map(Doc::sized).collect::<Vec<_>>();
        let ns = |v: &Vec<(Name, Doc)>| v.iter().map(|(k, x)| (*k, x.sized())).collect::<Vec<_>>();
        match self {
            Doc::Some(x) => Doc::Some(Box::new(x.sized())),
            Doc::Newtype(n, x) => Doc::Newtype(n, Box::new(x.sized())),
            Doc::NewVar(a, b, c, x) => Doc::NewVar(a, *b, c, Box::new(x.sized())),
            Doc::Seq(_, v) => Doc::seq(vs(v)),
            Doc::Tuple(v) => Doc::Tuple(vs(v)),
            Doc::TupleStruct(n, v) => Doc::TupleStruct(n, vs(v)),
            Doc::TupleVar(a, b, c, v) => Doc::TupleVar(a, *b, c, vs(v)),
            Doc::Map(_, v) => Doc::map(v.iter().map(|(k, x)| (k.sized(), x.sized())).collect()),
            Doc::Struct(n, v) => Doc::Struct(n, ns(v)),
            Doc::StructVar(a, b, c, v) => Doc::StructVar(a, *b, c, ns(v)),
            other => other.clone(),
        }
    }

    pub fn any(&self, f: &mut dyn FnMut(&Doc) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            Doc::Some(x) | Doc::Newtype(_, x) | Doc::NewVar(_, _, _, x) => x.any(f),
            Doc::Seq(_, v) | Doc::Tuple(v) | Doc::TupleStruct(_, v) | Doc::TupleVar(_, _, _, v) => {
                v.iter().any(|x| x.any(f))
            }
            Doc::Map(_, v) => v.iter().any(|(k, x)| k.any(f) || x.any(f)),
            Doc::Struct(_, v) | Doc::StructVar(_, _, _, v) => v.iter().any(|(_, x)| x.any(f)),
            _ => false,
        }
    }

    pub fn count(&self) -> usize {
        let mut n = 0;
        self.any(&mut |_| {
            n += 1;
            false
        });
        n
    }

    pub fn int(&self) -> Option<i128> {
        Some(match *self {
            Doc::I8(x) => x.into(),
            Doc::I16(x) => x.into(),
            Doc::I32(x) => x.into(),
            Doc::I64(x) => x.into(),
            Doc::I128(x) => x,
            Doc::U8(x) => x.into(),
            Doc::U16(x) => x.into(),
            Doc::U32(x) => x.into(),
            Doc::U64(x) => x.into(),
            _ => return None,
        })
    }
}

impl Serialize for Doc {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::*;
        match self {
            Doc::Bool(x) => s.serialize_bool(*x),
            Doc::I8(x) => s.serialize_i8(*x),
            Doc::I16(x) => s.serialize_i16(*x),
            Doc::I32(x) => s.serialize_i32(*x),
            Doc::I64(x) => s.serialize_i64(*x),
            Doc::I128(x) => s.serialize_i128(*x),
            Doc::U8(x) => s.serialize_u8(*x),
            Doc::U16(x) => s.serialize_u16(*x),
            Doc::U32(x) => s.serialize_u32(*x),
            Doc::U64(x) => s.serialize_u64(*x),
            Doc::U128(x) => s.serialize_u128(*x),
            Doc::F32(x) => s.serialize_f32(f32::from_bits(*x)),
            Doc::F64(x) => s.serialize_f64(f64::from_bits(*x)),
            Doc::Char(x) => s.serialize_char(*x),
            Doc::Str(x) => s.serialize_str(x),
            Doc::Bytes(x) => s.serialize_bytes(x),
            Doc::None => s.serialize_none(),
            Doc::Some(x) => s.serialize_some(&**x),
            Doc::Unit => s.serialize_unit(),
            Doc::UnitStruct(n) => s.serialize_unit_struct(n),
            Doc::UnitVar(n, i, v) => s.serialize_unit_variant(n, *i, v),
            Doc::Newtype(n, x) => s.serialize_newtype_struct(n, &**x),
            Doc::NewVar(n, i, v, x) => s.serialize_newtype_variant(n, *i, v, &**x),
            Doc::Seq(h, v) => {
                let mut c = s.serialize_seq(*h)?;
                for x in v {
                    c.serialize_element(x)?;
                }
                c.end()
            }
            Doc::Tuple(v) => {
                let mut c = s.serialize_tuple(v.len())?;
                for x in v {
                    c.serialize_element(x)?;
                }
                c.end()
            }
            Doc::TupleStruct(n, v) => {
                let mut c = s.serialize_tuple_struct(n, v.len())?;
                for x in v {
                    c.serialize_field(x)?;
                }
                c.end()
            }
            Doc::TupleVar(n, i, a, v) => {
                let mut c = s.serialize_tuple_variant(n, *i, a, v.len())?;
                for x in v {
                    c.serialize_field(x)?;
                }
                c.end()
            }
            Doc::Map(h, v) => {
                let mut c = s.serialize_map(*h)?;
                for (k, x) in v {
                    c.serialize_entry(k, x)?;
                }
                c.end()
            }
            Doc::Struct(n, v) => {
                let mut c = s.serialize_struct(n, v.len())?;
                for (k, x) in v {
                    c.serialize_field(k, x)?;
                }
                c.end()
            }
            Doc::StructVar(n, i, a, v) => {
                let mut c = s.serialize_struct_variant(n, *i, a, v.len())?;
                for (k, x) in v {
                    c.serialize_field(k, x)?;
                }
                c.end()
            }
        }
    }
}

// ---------------------------------------------------------------- recording

#[derive(Debug, Clone, PartialEq)]
pub struct RecErr(pub String);

impl fmt::Display for RecErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for RecErr {}
impl ser::Error for RecErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        RecErr(m.to_string())
    }
}
impl serde::de::Error for RecErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        RecErr(m.to_string())
    }
}

thread_local! {
    /// What injected faults say.
    pub static INJECTED: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    /// Which constructor of `serde::de::Error` raises them.
    pub static INJECTED_KIND: Cell<u8> = const { Cell::new(0) };
}
pub fn injected() -> String {
    INJECTED.with(|m| m.borrow().clone())
}

#[derive(Default)]
pub struct RecState {
    pub hr: Cell<bool>,
    /// Fails the n-th call (counting down); negative: never.
    pub fail_at: Cell<i64>,
    pub calls: Cell<u64>,
    pub failed: Cell<bool>,
    pub after_failure: Cell<bool>,
    pub open: Cell<i64>,
    pub protocol: std::cell::RefCell<Option<String>>,
}

impl RecState {
    pub fn new(hr: bool) -> Self {
        let s = RecState::default();
        s.hr.set(hr);
        s.fail_at.set(-1);
        s
    }
    fn step(&self) -> Result<(), RecErr> {
        if self.failed.get() {
            self.after_failure.set(true);
            return Err(RecErr(injected()));
        }
        self.calls.set(self.calls.get() + 1);
        let n = self.fail_at.get();
        if n == 0 {
            self.failed.set(true);
            return Err(RecErr(injected()));
        }
        if n > 0 {
            self.fail_at.set(n - 1);
        }
        Ok(())
    }
    fn bad<T>(&self, m: String) -> Result<T, RecErr> {
        let mut p = self.protocol.borrow_mut();
        if p.is_none() {
            *p = Some(m.clone());
        }
        Err(RecErr(format!("PROTOCOL {m}")))
    }
}

#[derive(Copy, Clone)]
pub struct Rec<'a>(pub &'a RecState);

/// Records what a value serializes to. A protocol violation is an error that
/// starts with PROTOCOL.
pub fn record<T: ?Sized + Serialize>(x: &T, hr: bool) -> Result<Doc, String> {
    let st = RecState::new(hr);
    let r = x.serialize(Rec(&st));
    if let Some(p) = st.protocol.borrow().as_ref() {
        return Err(format!("PROTOCOL {p}"));
    }
    match r {
        Ok(d) => {
            if st.open.get() != 0 {
                return Err("PROTOCOL container left open".to_owned());
            }
            Ok(d)
        }
        Err(e) => Err(e.0),
    }
}

pub struct RecSeq<'a> {
    st: &'a RecState,
    announced: Option<usize>,
    v: Vec<Doc>,
    kind: SeqKind,
}
enum SeqKind {
    Seq,
    Tuple,
    TupleStruct(Name),
    TupleVar(Name, u32, Name),
}
impl<'a> RecSeq<'a> {
    fn open(st: &'a RecState, announced: Option<usize>, kind: SeqKind) -> Result<Self, RecErr> {
        st.step()?;
        st.open.set(st.open.get() + 1);
        Ok(RecSeq { st, announced, v: vec![], kind })
    }
    fn push<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), RecErr> {
        self.st.step()?;
        let d = x.serialize(Rec(self.st))?;
        self.v.push(d);
        Ok(())
    }
    fn close(self) -> Result<Doc, RecErr> {
        self.st.step()?;
        self.st.open.set(self.st.open.get() - 1);
        if let Some(n) = self.announced {
            if n != self.v.len() {
                return self.st.bad(format!(
                    "length: {n} elements announced, {} written: {:?}",
                    self.v.len(),
                    self.v
                ));
            }
        }
        Ok(match self.kind {
            SeqKind::Seq => Doc::Seq(self.announced, self.v),
            SeqKind::Tuple => Doc::Tuple(self.v),
            SeqKind::TupleStruct(n) => Doc::TupleStruct(n, self.v),
            SeqKind::TupleVar(n, i, a) => Doc::TupleVar(n, i, a, self.v),
        })
    }
}
impl<'a> ser::SerializeSeq for RecSeq<'a> {
    type Ok = Doc;
    type Error = RecErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), RecErr> {
        self.push(x)
    }
    fn end(self) -> Result<Doc, RecErr> {
        self.close()
    }
}
impl<'a> ser::SerializeTuple for RecSeq<'a> {
    type Ok = Doc;
    type Error = RecErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), RecErr> {
        self.push(x)
    }
    fn end(self) -> Result<Doc, RecErr> {
        self.close()
    }
}
impl<'a> ser::SerializeTupleStruct for RecSeq<'a> {
    type Ok = Doc;
    type Error = RecErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), RecErr> {
        self.push(x)
    }
    fn end(self) -> Result<Doc, RecErr> {
        self.close()
    }
}
impl<'a> ser::SerializeTupleVariant for RecSeq<'a> {
    type Ok = Doc;
    type Error = RecErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), RecErr> {
        self.push(x)
    }
    fn end(self) -> Result<Doc, RecErr> {
        self.close()
    }
}

pub struct RecMap<'a> {
    st: &'a RecState,
    announced: Option<usize>,
    v: Vec<(Doc, Doc)>,
    key: Option<Doc>,
}
impl<'a> ser::SerializeMap for RecMap<'a> {
    type Ok = Doc;
    type Error = RecErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), RecErr> {
        self.st.step()?;
        if self.key.is_some() {
            return self.st.bad("key after key".to_owned());
        }
        self.key = Some(x.serialize(Rec(self.st))?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), RecErr> {
        self.st.step()?;
        match self.key.take() {
            None => self.st.bad("value without key".to_owned()),
            Some(k) => {
                let d = x.serialize(Rec(self.st))?;
                self.v.push((k, d));
                Ok(())
            }
        }
    }
    fn end(self) -> Result<Doc, RecErr> {
        self.st.step()?;
        self.st.open.set(self.st.open.get() - 1);
        if self.key.is_some() {
            return self.st.bad("key without value".to_owned());
        }
        if let Some(n) = self.announced {
            if n != self.v.len() {
                return self.st.bad(format!(
                    "length: {n} entries announced, {} written: {:?}",
                    self.v.len(),
                    self.v
                ));
            }
        }
        Ok(Doc::Map(self.announced, self.v))
    }
}

pub struct RecStruct<'a> {
    st: &'a RecState,
    announced: usize,
    name: Name,
    var: Option<(u32, Name)>,
    v: Vec<(Name, Doc)>,
}
impl<'a> RecStruct<'a> {
    fn push<T: ?Sized + Serialize>(&mut self, k: Name, x: &T) -> Result<(), RecErr> {
        self.st.step()?;
        let d = x.serialize(Rec(self.st))?;
        self.v.push((k, d));
        Ok(())
    }
    fn close(self) -> Result<Doc, RecErr> {
        self.st.step()?;
        self.st.open.set(self.st.open.get() - 1);
        if self.announced != self.v.len() {
            return self.st.bad(format!(
                "length: {} fields announced, {} written: {:?}",
                self.announced,
                self.v.len(),
                self.v
            ));
        }
        Ok(match self.var {
            None => Doc::Struct(self.name, self.v),
            Some((i, a)) => Doc::StructVar(self.name, i, a, self.v),
        })
    }
}
impl<'a> ser::SerializeStruct for RecStruct<'a> {
    type Ok = Doc;
    type Error = RecErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: Name, x: &T) -> Result<(), RecErr> {
        self.push(k, x)
    }
    fn end(self) -> Result<Doc, RecErr> {
        self.close()
    }
}
impl<'a> ser::SerializeStructVariant for RecStruct<'a> {
    type Ok = Doc;
    type Error = RecErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: Name, x: &T) -> Result<(), RecErr> {
        self.push(k, x)
    }
    fn end(self) -> Result<Doc, RecErr> {
        self.close()
    }
}

macro_rules! leaf {
    ($($m:ident $t:ty => $e:expr;)*) => { $(
        fn $m(self, x: $t) -> Result<Doc, RecErr> {
            self.0.step()?;
            #[allow(clippy::redundant_closure_call)]
            Ok(($e)(x))
        }
    )* };
}

impl<'a> Serializer for Rec<'a> {
    type Ok = Doc;
    type Error = RecErr;
    type SerializeSeq = RecSeq<'a>;
    type SerializeTuple = RecSeq<'a>;
    type SerializeTupleStruct = RecSeq<'a>;
    type SerializeTupleVariant = RecSeq<'a>;
    type SerializeMap = RecMap<'a>;
    type SerializeStruct = RecStruct<'a>;
    type SerializeStructVariant = RecStruct<'a>;

    leaf! {
        serialize_bool bool => Doc::Bool;
        serialize_i8 i8 => Doc::I8;
        serialize_i16 i16 => Doc::I16;
        serialize_i32 i32 => Doc::I32;
        serialize_i64 i64 => Doc::I64;
        serialize_i128 i128 => Doc::I128;
        serialize_u8 u8 => Doc::U8;
        serialize_u16 u16 => Doc::U16;
        serialize_u32 u32 => Doc::U32;
        serialize_u64 u64 => Doc::U64;
        serialize_u128 u128 => Doc::U128;
        serialize_f32 f32 => |x: f32| Doc::F32(x.to_bits());
        serialize_f64 f64 => |x: f64| Doc::F64(x.to_bits());
        serialize_char char => Doc::Char;
        serialize_str &str => Doc::s;
        serialize_bytes &[u8] => |x: &[u8]| Doc::Bytes(x.to_vec());
        serialize_unit_struct Name => Doc::UnitStruct;
    }
    fn serialize_none(self) -> Result<Doc, RecErr> {
        self.0.step()?;
        Ok(Doc::None)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, x: &T) -> Result<Doc, RecErr> {
        self.0.step()?;
        Ok(Doc::Some(Box::new(x.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<Doc, RecErr> {
        self.0.step()?;
        Ok(Doc::Unit)
    }
    fn serialize_unit_variant(self, n: Name, i: u32, v: Name) -> Result<Doc, RecErr> {
        self.0.step()?;
        Ok(Doc::UnitVar(n, i, v))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: Name, x: &T) -> Result<Doc, RecErr> {
        self.0.step()?;
        Ok(Doc::Newtype(n, Box::new(x.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        n: Name,
        i: u32,
        v: Name,
        x: &T,
    ) -> Result<Doc, RecErr> {
        self.0.step()?;
        Ok(Doc::NewVar(n, i, v, Box::new(x.serialize(self)?)))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<RecSeq<'a>, RecErr> {
        RecSeq::open(self.0, len, SeqKind::Seq)
    }
    fn serialize_tuple(self, len: usize) -> Result<RecSeq<'a>, RecErr> {
        RecSeq::open(self.0, Some(len), SeqKind::Tuple)
    }
    fn serialize_tuple_struct(self, n: Name, len: usize) -> Result<RecSeq<'a>, RecErr> {
        RecSeq::open(self.0, Some(len), SeqKind::TupleStruct(n))
    }
    fn serialize_tuple_variant(
        self,
        n: Name,
        i: u32,
        v: Name,
        len: usize,
    ) -> Result<RecSeq<'a>, RecErr> {
        RecSeq::open(self.0, Some(len), SeqKind::TupleVar(n, i, v))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<RecMap<'a>, RecErr> {
        self.0.step()?;
        self.0.open.set(self.0.open.get() + 1);
        Ok(RecMap { st: self.0, announced: len, v: vec![], key: None })
    }
    fn serialize_struct(self, n: Name, len: usize) -> Result<RecStruct<'a>, RecErr> {
        self.0.step()?;
        self.0.open.set(self.0.open.get() + 1);
        Ok(RecStruct { st: self.0, announced: len, name: n, var: None, v: vec![] })
    }
    fn serialize_struct_variant(
        self,
        n: Name,
        i: u32,
        v: Name,
        len: usize,
    ) -> Result<RecStruct<'a>, RecErr> {
        self.0.step()?;
        self.0.open.set(self.0.open.get() + 1);
        Ok(RecStruct { st: self.0, announced: len, name: n, var: Some((i, v)), v: vec![] })
    }
    fn is_human_readable(&self) -> bool {
        self.0.hr.get()
    }
}

// ---------------------------------------------------------------- rendering

/// JSON text of a simplified document, order and duplicates kept. `None` when
/// JSON has no such thing (non-finite floats, composite keys).
pub fn to_json(d: &Doc) -> Option<String> {
    let mut o = String::new();
    json(d, &mut o)?;
    Some(o)
}

fn json_str(s: &str, o: &mut String) {
    o.push_str(&serde_json::to_string(s).unwrap());
}

fn json(d: &Doc, o: &mut String) -> Option<()> {
    match d {
        Doc::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        Doc::U128(x) => o.push_str(&x.to_string()),
        Doc::F32(x) => {
            let f = f32::from_bits(*x);
            if !f.is_finite() {
                return None;
            }
            o.push_str(&serde_json::to_string(&f).unwrap());
        }
        Doc::F64(x) => {
            let f = f64::from_bits(*x);
            if !f.is_finite() {
                return None;
            }
            o.push_str(&serde_json::to_string(&f).unwrap());
        }
        Doc::Str(s) => json_str(s, o),
        Doc::Unit => o.push_str("null"),
        Doc::Seq(_, v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                json(x, o)?;
            }
            o.push(']');
        }
        Doc::Map(_, v) => {
            o.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                match k {
                    Doc::Str(s) => json_str(s, o),
                    Doc::Bool(b) => json_str(&b.to_string(), o),
                    k => json_str(&k.int()?.to_string(), o),
                }
                o.push(':');
                json(x, o)?;
            }
            o.push('}');
        }
        Doc::Bytes(b) => {
            let v: Vec<Doc> = b.iter().map(|x| Doc::U8(*x)).collect();
            return json(&Doc::seq(v), o);
        }
        d => o.push_str(&d.int()?.to_string()),
    }
    Some(())
}

#[derive(Clone, Copy, Default)]
pub struct CborStyle {
    /// Indefinite-length maps and arrays.
    pub indefinite: bool,
    /// Text strings in chunks (needs more than one character).
    pub chunked: bool,
    /// Lengths and integers in non-minimal width.
    pub wide: bool,
}

/// CBOR bytes of a simplified document.
pub fn to_cbor(d: &Doc, st: CborStyle) -> Option<Vec<u8>> {
    let mut o = vec![];
    cbor(d, st, &mut o)?;
    Some(o)
}

fn head(major: u8, n: u64, wide: bool, o: &mut Vec<u8>) {
    let m = major << 5;
    if wide && n <= u64::from(u32::MAX) {
        o.push(m | 26);
        o.extend_from_slice(&(n as u32).to_be_bytes());
    } else if n < 24 {
        o.push(m | n as u8);
    } else if n <= 0xff {
        o.push(m | 24);
        o.push(n as u8);
    } else if n <= 0xffff {
        o.push(m | 25);
        o.extend_from_slice(&(n as u16).to_be_bytes());
    } else if n <= 0xffff_ffff {
        o.push(m | 26);
        o.extend_from_slice(&(n as u32).to_be_bytes());
    } else {
        o.push(m | 27);
        o.extend_from_slice(&n.to_be_bytes());
    }
}

fn cbor(d: &Doc, st: CborStyle, o: &mut Vec<u8>) -> Option<()> {
    match d {
        Doc::Bool(b) => o.push(if *b { 0xf5 } else { 0xf4 }),
        Doc::F32(x) => {
            o.push(0xfa);
            o.extend_from_slice(&x.to_be_bytes());
        }
        Doc::F64(x) => {
            o.push(0xfb);
            o.extend_from_slice(&x.to_be_bytes());
        }
        Doc::U128(x) => match u64::try_from(*x) {
            Ok(x) => head(0, x, st.wide, o),
            Err(_) => {
                o.push(0xc2);
                let b: Vec<u8> = x.to_be_bytes().iter().copied().skip_while(|b| *b == 0).collect();
                head(2, b.len() as u64, false, o);
                o.extend_from_slice(&b);
            }
        },
        Doc::Str(s) => {
            let n = s.chars().count();
            if st.chunked && n > 1 {
                o.push(0x7f);
                let cut = s.char_indices().nth(n / 2).unwrap().0;
                for part in [&s[..cut], &s[cut..]] {
                    head(3, part.len() as u64, false, o);
                    o.extend_from_slice(part.as_bytes());
                }
                o.push(0xff);
            } else {
                head(3, s.len() as u64, st.wide, o);
                o.extend_from_slice(s.as_bytes());
            }
        }
        Doc::Bytes(b) => {
            head(2, b.len() as u64, st.wide, o);
            o.extend_from_slice(b);
        }
        Doc::Unit => o.push(0xf6),
        Doc::Seq(_, v) => {
            if st.indefinite {
                o.push(0x9f);
            } else {
                head(4, v.len() as u64, st.wide, o);
            }
            for x in v {
                cbor(x, st, o)?;
            }
            if st.indefinite {
                o.push(0xff);
            }
        }
        Doc::Map(_, v) => {
            if st.indefinite {
                o.push(0xbf);
            } else {
                head(5, v.len() as u64, st.wide, o);
            }
            for (k, x) in v {
                cbor(k, st, o)?;
                cbor(x, st, o)?;
            }
            if st.indefinite {
                o.push(0xff);
            }
        }
        d => {
            let x = d.int()?;
            if let Ok(x) = u64::try_from(x) {
                head(0, x, st.wide, o);
            } else if let Ok(x) = u64::try_from(-1 - x) {
                head(1, x, st.wide, o);
            } else {
                let (tag, m) = if x >= 0 { (0xc2, x) } else { (0xc3, -1 - x) };
                o.push(tag);
                let b: Vec<u8> = m.to_be_bytes().iter().copied().skip_while(|b| *b == 0).collect();
                head(2, b.len() as u64, false, o);
                o.extend_from_slice(&b);
            }
        }
    }
    Some(())
}
