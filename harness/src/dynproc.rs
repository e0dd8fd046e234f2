//! Procedures whose shape (method, entry point, request and response types) is data.
//!
//! `Slot<N>` is a procedure looked up in a thread-local table, so a generated case can define
//! any procedure. The `Serialize`/`Deserialize` implementations do what `serde_derive` would
//! generate for a type of that shape (`derived.rs` has really derived types as a cross-check).
use futures::{Async, Future, Poll};
use htrpc::types::{EntryPoint, HttpMethod, NeverFail, PathSegment};
use htrpc::{BodyReader, HandleRpc, Procedure, ReadBody, RpcRequest, RpcResponse};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, Serializer};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::io::Read;
use std::sync::{Arc, Mutex};

pub const SLOTS: usize = 40;

// ---------------------------------------------------------------- types and values

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ty {
    Bool,
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Str,
    Opt(Box<Ty>),
    Newtype(Box<Ty>),
    /// `#[serde(with = "htrpc::json")]` / `json_pretty`
    Json,
    JsonPretty,
    /// A constant header value (`struct X;` with this name).
    UnitStruct(String),
    /// Only sent, never received.
    Char,
    /// A unit variant of this name; only sent.
    Variant(String),
    /// A newtype variant; only sent.
    VariantOf(Box<Ty>),
    /// `serialize_bytes` / `deserialize_byte_buf` (headers only)
    Bytes,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Val {
    Bool(bool),
    I(i64),
    U(u64),
    F32(u32),
    F64(u64),
    Str(String),
    None,
    Some(Box<Val>),
    Json(serde_json::Value),
    Unit,
    Bytes(Vec<u8>),
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::Bool(a), Val::Bool(b)) => a == b,
            (Val::I(a), Val::I(b)) => a == b,
            (Val::U(a), Val::U(b)) => a == b,
            (Val::F32(a), Val::F32(b)) => {
                a == b || (f32::from_bits(*a).is_nan() && f32::from_bits(*b).is_nan())
            }
            (Val::F64(a), Val::F64(b)) => {
                a == b || (f64::from_bits(*a).is_nan() && f64::from_bits(*b).is_nan())
            }
            (Val::Str(a), Val::Str(b)) => a == b,
            (Val::None, Val::None) => true,
            (Val::Some(a), Val::Some(b)) => a == b,
            (Val::Json(a), Val::Json(b)) => a == b,
            (Val::Unit, Val::Unit) => true,
            (Val::Bytes(a), Val::Bytes(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum PathTy {
    /// `path: ()`
    Unit,
    /// `path: SomeUnitStruct`
    UnitStruct,
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
}
impl PathTy {
    pub fn tys(&self) -> &[Ty] {
        match self {
            PathTy::Unit | PathTy::UnitStruct => &[],
            PathTy::Tuple(v) | PathTy::TupleStruct(v) => v,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum FieldsTy {
    /// Declared fields (name, type).
    Struct(Vec<(String, Ty)>),
    /// A map with free keys.
    Map { key: Ty, val: Ty },
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum FieldsVal {
    Struct(Vec<Val>),
    Map(Vec<(Val, Val)>),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct ReqTy {
    pub path: Option<PathTy>,
    pub query: Option<FieldsTy>,
    pub header: Option<FieldsTy>,
    /// The request type is `struct Wrapper(Inner)`.
    pub wrapped: bool,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct ReqVal {
    pub path: Vec<Val>,
    pub query: Option<FieldsVal>,
    pub header: Option<FieldsVal>,
    #[serde(with = "bodyfmt")]
    pub body: Vec<u8>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum VariantTy {
    Unit,
    Struct(Option<FieldsTy>),
    /// `Name(Inner)` with `Inner { status: Option<u16>, header }`
    Newtype(Option<FieldsTy>),
    /// Like `Newtype`, but the status of the inner struct is not optional.
    NewtypeReq(Option<FieldsTy>),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum RespTy {
    /// `{ status: u16, header }`
    Struct { header: Option<FieldsTy>, wrapped: bool },
    /// Variants named after statuses.
    Enum(Vec<(String, VariantTy)>),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct RespVal {
    pub status: u16,
    pub header: Option<FieldsVal>,
    #[serde(with = "bodyfmt")]
    pub body: Vec<u8>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct ProcTy {
    pub method: String,
    /// `None` is a variable.
    pub entry: Vec<Option<String>>,
    pub req: ReqTy,
    pub resp: RespTy,
}

/// Bodies are kept readable and small in replay files: run-length form for long ones.
pub mod bodyfmt {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    #[derive(Serialize, Deserialize)]
    enum B {
        #[serde(rename = "text")]
        Text(String),
        #[serde(rename = "bytes")]
        Bytes(Vec<u8>),
        #[serde(rename = "pattern")]
        Pattern { len: usize, seed: u8 },
    }
    pub fn pattern(len: usize, seed: u8) -> Vec<u8> {
        (0..len)
            .map(|i| (i as u64 * 31 + (i as u64 >> 8) * 7 + seed as u64) as u8)
            .collect()
    }
    pub fn serialize<S: Serializer>(v: &Vec<u8>, s: S) -> Result<S::Ok, S::Error> {
        let b = if v.len() > 64 && *v == pattern(v.len(), v[0]) {
            B::Pattern {
                len: v.len(),
                seed: v[0],
            }
        } else if let Ok(t) = String::from_utf8(v.clone()) {
            B::Text(t)
        } else {
            B::Bytes(v.clone())
        };
        b.serialize(s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        Ok(match B::deserialize(d)? {
            B::Text(t) => t.into_bytes(),
            B::Bytes(b) => b,
            B::Pattern { len, seed } => pattern(len, seed),
        })
    }
}

// ---------------------------------------------------------------- interning

pub fn intern(s: &str) -> &'static str {
    static TABLE: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut t = TABLE.lock().unwrap();
    let t = t.get_or_insert_with(HashMap::new);
    if let Some(x) = t.get(s) {
        return x;
    }
    let x: &'static str = Box::leak(s.to_string().into_boxed_str());
    t.insert(s.to_string(), x);
    x
}

pub fn entry_point(segs: &[Option<String>]) -> EntryPoint {
    thread_local! {
        static CACHE: RefCell<HashMap<Vec<Option<String>>, &'static [PathSegment]>> =
            RefCell::new(HashMap::new());
    }
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(s) = c.get(segs) {
            return EntryPoint::new(s);
        }
        let v: Vec<PathSegment> = segs
            .iter()
            .map(|s| match s {
                Some(s) => PathSegment::Val(intern(s)),
                None => PathSegment::Var,
            })
            .collect();
        let s: &'static [PathSegment] = Box::leak(v.into_boxed_slice());
        c.insert(segs.to_vec(), s);
        EntryPoint::new(s)
    })
}

// ---------------------------------------------------------------- values <-> serde

pub struct Typed<'a>(pub &'a Ty, pub &'a Val);
impl<'a> Serialize for Typed<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Ty::Bool, Val::Bool(v)) => s.serialize_bool(*v),
            (Ty::I8, Val::I(v)) => s.serialize_i8(*v as i8),
            (Ty::I16, Val::I(v)) => s.serialize_i16(*v as i16),
            (Ty::I32, Val::I(v)) => s.serialize_i32(*v as i32),
            (Ty::I64, Val::I(v)) => s.serialize_i64(*v),
            (Ty::U8, Val::U(v)) => s.serialize_u8(*v as u8),
            (Ty::U16, Val::U(v)) => s.serialize_u16(*v as u16),
            (Ty::U32, Val::U(v)) => s.serialize_u32(*v as u32),
            (Ty::U64, Val::U(v)) => s.serialize_u64(*v),
            (Ty::F32, Val::F32(v)) => s.serialize_f32(f32::from_bits(*v)),
            (Ty::F64, Val::F64(v)) => s.serialize_f64(f64::from_bits(*v)),
            (Ty::Str, Val::Str(v)) => s.serialize_str(v),
            (Ty::Opt(_), Val::None) => s.serialize_none(),
            (Ty::Opt(t), Val::Some(v)) => s.serialize_some(&Typed(t, v)),
            (Ty::Newtype(t), v) => s.serialize_newtype_struct("Newtype", &Typed(t, v)),
            (Ty::Json, Val::Json(v)) => htrpc::json::serialize(v, s),
            (Ty::JsonPretty, Val::Json(v)) => htrpc::json_pretty::serialize(v, s),
            (Ty::UnitStruct(n), Val::Unit) => s.serialize_unit_struct(intern(n)),
            (Ty::Char, Val::Str(v)) => s.serialize_char(v.chars().next().unwrap()),
            (Ty::Variant(n), Val::Unit) => s.serialize_unit_variant("Enum", 1, intern(n)),
            (Ty::VariantOf(t), v) => s.serialize_newtype_variant("Enum", 2, "Variant", &Typed(t, v)),
            (Ty::Bytes, Val::Bytes(v)) => s.serialize_bytes(v),
            (t, v) => panic!("harness: {:?} is not a {:?}", v, t),
        }
    }
}

/// Deserializes a value of the given type the way the derived/std implementation would.
pub struct TySeed<'a>(pub &'a Ty);
impl<'de, 'a> DeserializeSeed<'de> for TySeed<'a> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(match self.0 {
            Ty::Bool => Val::Bool(bool::deserialize(d)?),
            Ty::I8 => Val::I(i8::deserialize(d)? as i64),
            Ty::I16 => Val::I(i16::deserialize(d)? as i64),
            Ty::I32 => Val::I(i32::deserialize(d)? as i64),
            Ty::I64 => Val::I(i64::deserialize(d)?),
            Ty::U8 => Val::U(u8::deserialize(d)? as u64),
            Ty::U16 => Val::U(u16::deserialize(d)? as u64),
            Ty::U32 => Val::U(u32::deserialize(d)? as u64),
            Ty::U64 => Val::U(u64::deserialize(d)?),
            Ty::F32 => Val::F32(f32::deserialize(d)?.to_bits()),
            Ty::F64 => Val::F64(f64::deserialize(d)?.to_bits()),
            Ty::Str => Val::Str(String::deserialize(d)?),
            Ty::Opt(t) => {
                struct V<'a>(&'a Ty);
                impl<'de, 'a> Visitor<'de> for V<'a> {
                    type Value = Val;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        write!(f, "option")
                    }
                    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
                        Ok(Val::None)
                    }
                    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
                        Ok(Val::None)
                    }
                    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
                        Ok(Val::Some(Box::new(TySeed(self.0).deserialize(d)?)))
                    }
                }
                d.deserialize_option(V(t))?
            }
            Ty::Newtype(t) => {
                struct V<'a>(&'a Ty);
                impl<'de, 'a> Visitor<'de> for V<'a> {
                    type Value = Val;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        write!(f, "newtype")
                    }
                    fn visit_newtype_struct<D: Deserializer<'de>>(
                        self,
                        d: D,
                    ) -> Result<Val, D::Error> {
                        TySeed(self.0).deserialize(d)
                    }
                }
                d.deserialize_newtype_struct("Newtype", V(t))?
            }
            Ty::Json => Val::Json(htrpc::json::deserialize(d)?),
            Ty::JsonPretty => Val::Json(htrpc::json_pretty::deserialize(d)?),
            Ty::Char | Ty::Variant(_) | Ty::VariantOf(_) => {
                return Err(de::Error::custom("harness: this type is only sent"))
            }
            Ty::UnitStruct(n) => {
                struct V;
                impl<'de> Visitor<'de> for V {
                    type Value = Val;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        write!(f, "unit struct")
                    }
                    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
                        Ok(Val::Unit)
                    }
                }
                d.deserialize_unit_struct(intern(n), V)?
            }
            Ty::Bytes => {
                struct V;
                impl<'de> Visitor<'de> for V {
                    type Value = Val;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        write!(f, "bytes")
                    }
                    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Val, E> {
                        Ok(Val::Bytes(v.to_vec()))
                    }
                    fn visit_byte_buf<E: de::Error>(self, v: Vec<u8>) -> Result<Val, E> {
                        Ok(Val::Bytes(v))
                    }
                }
                d.deserialize_byte_buf(V)?
            }
        })
    }
}

fn missing<E: de::Error>(t: &Ty, name: &str) -> Result<Val, E> {
    match t {
        Ty::Opt(_) => Ok(Val::None),
        _ => Err(E::missing_field(intern(name))),
    }
}

/// The `path`, `query` and `header` values.
pub struct PathSer<'a>(pub &'a PathTy, pub &'a [Val]);
impl<'a> Serialize for PathSer<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            PathTy::Unit => s.serialize_unit(),
            PathTy::UnitStruct => s.serialize_unit_struct("Path"),
            PathTy::Tuple(tys) => {
                let mut t = s.serialize_tuple(self.1.len())?;
                for (ty, v) in tys.iter().zip(self.1) {
                    t.serialize_element(&Typed(ty, v))?;
                }
                t.end()
            }
            PathTy::TupleStruct(tys) => {
                let mut t = s.serialize_tuple_struct("Path", self.1.len())?;
                for (ty, v) in tys.iter().zip(self.1) {
                    t.serialize_field(&Typed(ty, v))?;
                }
                t.end()
            }
        }
    }
}
pub struct PathSeed<'a>(pub &'a PathTy);
impl<'de, 'a> DeserializeSeed<'de> for PathSeed<'a> {
    type Value = Vec<Val>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Vec<Val>, D::Error> {
        struct U;
        impl<'de> Visitor<'de> for U {
            type Value = Vec<Val>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "unit")
            }
            fn visit_unit<E: de::Error>(self) -> Result<Vec<Val>, E> {
                Ok(Vec::new())
            }
        }
        struct T<'a>(&'a [Ty]);
        impl<'de, 'a> Visitor<'de> for T<'a> {
            type Value = Vec<Val>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "tuple")
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<Val>, A::Error> {
                let mut out = Vec::new();
                for (i, t) in self.0.iter().enumerate() {
                    match a.next_element_seed(TySeed(t))? {
                        Some(v) => out.push(v),
                        None => return Err(de::Error::invalid_length(i, &self)),
                    }
                }
                Ok(out)
            }
        }
        match self.0 {
            PathTy::Unit => d.deserialize_unit(U),
            PathTy::UnitStruct => d.deserialize_unit_struct("Path", U),
            PathTy::Tuple(t) => d.deserialize_tuple(t.len(), T(t)),
            PathTy::TupleStruct(t) => d.deserialize_tuple_struct("Path", t.len(), T(t)),
        }
    }
}

pub struct FieldsSer<'a>(pub &'a FieldsTy, pub &'a FieldsVal);
impl<'a> Serialize for FieldsSer<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (FieldsTy::Struct(f), FieldsVal::Struct(v)) => {
                let mut t = s.serialize_struct("Fields", f.len())?;
                for ((n, ty), v) in f.iter().zip(v) {
                    t.serialize_field(intern(n), &Typed(ty, v))?;
                }
                t.end()
            }
            (FieldsTy::Map { key, val }, FieldsVal::Map(m)) => {
                let mut t = s.serialize_map(Some(m.len()))?;
                for (k, v) in m {
                    t.serialize_entry(&Typed(key, k), &Typed(val, v))?;
                }
                t.end()
            }
            _ => panic!("harness: fields do not fit their type"),
        }
    }
}

/// Reads an identifier the way a derived field/variant enum does.
struct Ident;
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = String;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "identifier")
            }
            fn visit_str<E: de::Error>(self, v: &str) -> Result<String, E> {
                Ok(v.to_string())
            }
            fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<String, E> {
                Ok(String::from_utf8_lossy(v).into_owned())
            }
        }
        d.deserialize_identifier(V)
    }
}

pub struct FieldsSeed<'a>(pub &'a FieldsTy);
impl<'de, 'a> DeserializeSeed<'de> for FieldsSeed<'a> {
    type Value = FieldsVal;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<FieldsVal, D::Error> {
        struct S<'a>(&'a [(String, Ty)]);
        impl<'de, 'a> Visitor<'de> for S<'a> {
            type Value = FieldsVal;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "struct")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<FieldsVal, A::Error> {
                let mut got: Vec<Option<Val>> = self.0.iter().map(|_| None).collect();
                while let Some(k) = a.next_key_seed(Ident)? {
                    if let Some(i) = self.0.iter().position(|(n, _)| *n == k) {
                        if got[i].is_some() {
                            return Err(de::Error::duplicate_field(intern(&k)));
                        }
                        got[i] = Some(a.next_value_seed(TySeed(&self.0[i].1))?);
                    } else {
                        let _: de::IgnoredAny = a.next_value()?;
                    }
                }
                let mut out = Vec::new();
                for (g, (n, t)) in got.into_iter().zip(self.0) {
                    out.push(match g {
                        Some(v) => v,
                        None => missing(t, n)?,
                    });
                }
                Ok(FieldsVal::Struct(out))
            }
        }
        struct M<'a>(&'a Ty, &'a Ty);
        impl<'de, 'a> Visitor<'de> for M<'a> {
            type Value = FieldsVal;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<FieldsVal, A::Error> {
                let mut out = Vec::new();
                while let Some(k) = a.next_key_seed(TySeed(self.0))? {
                    let v = a.next_value_seed(TySeed(self.1))?;
                    out.push((k, v));
                }
                Ok(FieldsVal::Map(out))
            }
        }
        match self.0 {
            FieldsTy::Struct(f) => {
                let names: Vec<&'static str> = f.iter().map(|(n, _)| intern(n)).collect();
                d.deserialize_struct("Fields", leak_names(names), S(f))
            }
            FieldsTy::Map { key, val } => d.deserialize_map(M(key, val)),
        }
    }
}

fn leak_names(names: Vec<&'static str>) -> &'static [&'static str] {
    thread_local! {
        static CACHE: RefCell<HashMap<Vec<&'static str>, &'static [&'static str]>> =
            RefCell::new(HashMap::new());
    }
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(x) = c.get(&names) {
            return *x;
        }
        let x: &'static [&'static str] = Box::leak(names.clone().into_boxed_slice());
        c.insert(names, x);
        x
    })
}

// ---------------------------------------------------------------- slots

/// How a request's `read_body` behaves.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum ReadMode {
    All,
    /// Reads at most this many bytes and leaves the rest.
    AtMost(usize),
}

pub struct SlotDef {
    pub proc_: Arc<ProcTy>,
    pub read: ReadMode,
}

thread_local! {
    static TABLE: RefCell<Vec<Option<Arc<ProcTy>>>> = RefCell::new((0..SLOTS).map(|_| None).collect());
    static READ: RefCell<Vec<ReadMode>> = RefCell::new(vec![ReadMode::All; SLOTS]);
}
pub fn define(slot: usize, p: &ProcTy) {
    let p = Arc::new(p.clone());
    TABLE.with(|t| t.borrow_mut()[slot] = Some(p));
    READ.with(|t| t.borrow_mut()[slot] = ReadMode::All);
}
pub fn set_read_mode(slot: usize, m: ReadMode) {
    READ.with(|t| t.borrow_mut()[slot] = m);
}
fn slot(n: usize) -> Arc<ProcTy> {
    TABLE.with(|t| t.borrow()[n].clone().expect("harness: undefined slot"))
}

pub struct Slot<const N: usize>;
impl<const N: usize> Procedure for Slot<N> {
    type Request = DynReq<N>;
    type Response = DynResp<N>;
    fn method() -> HttpMethod {
        HttpMethod::try_from_str(&slot(N).method).expect("harness: method")
    }
    fn entry_point() -> EntryPoint {
        entry_point(&slot(N).entry)
    }
}

#[derive(Debug, Clone)]
pub struct DynReq<const N: usize> {
    pub v: ReqVal,
    /// What `htrpc::content_length` said before the body was read.
    pub declared: Option<u64>,
}
impl<const N: usize> DynReq<N> {
    pub fn new(v: ReqVal) -> Self {
        DynReq { v, declared: None }
    }
}

struct ReqInner<'a>(&'a ReqTy, &'a ReqVal);
impl<'a> Serialize for ReqInner<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let n = self.0.path.is_some() as usize
            + self.0.query.is_some() as usize
            + self.0.header.is_some() as usize;
        let mut t = s.serialize_struct("Request", n)?;
        if let Some(ref p) = self.0.path {
            t.serialize_field("path", &PathSer(p, &self.1.path))?;
        }
        if let (Some(q), Some(v)) = (&self.0.query, &self.1.query) {
            t.serialize_field("query", &FieldsSer(q, v))?;
        }
        if let (Some(q), Some(v)) = (&self.0.header, &self.1.header) {
            t.serialize_field("header", &FieldsSer(q, v))?;
        }
        t.end()
    }
}
impl<const N: usize> Serialize for DynReq<N> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let p = slot(N);
        let inner = ReqInner(&p.req, &self.v);
        if p.req.wrapped {
            s.serialize_newtype_struct("Wrapper", &inner)
        } else {
            inner.serialize(s)
        }
    }
}
pub struct ReqSeed<'a>(pub &'a ReqTy);
impl<'de, 'a> DeserializeSeed<'de> for ReqSeed<'a> {
    type Value = ReqVal;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<ReqVal, D::Error> {
        struct W<'a>(&'a ReqTy);
        impl<'de, 'a> Visitor<'de> for W<'a> {
            type Value = ReqVal;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "request")
            }
            fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<ReqVal, D::Error> {
                ReqSeed(&ReqTy {
                    wrapped: false,
                    ..self.0.clone()
                })
                .deserialize(d)
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<ReqVal, A::Error> {
                let (mut p, mut q, mut h) = (None, None, None);
                while let Some(k) = a.next_key_seed(Ident)? {
                    match (k.as_str(), self.0) {
                        ("path", ReqTy { path: Some(t), .. }) => {
                            if p.is_some() {
                                return Err(de::Error::duplicate_field("path"));
                            }
                            p = Some(a.next_value_seed(PathSeed(t))?)
                        }
                        ("query", ReqTy { query: Some(t), .. }) => {
                            if q.is_some() {
                                return Err(de::Error::duplicate_field("query"));
                            }
                            q = Some(a.next_value_seed(FieldsSeed(t))?)
                        }
                        ("header", ReqTy { header: Some(t), .. }) => {
                            if h.is_some() {
                                return Err(de::Error::duplicate_field("header"));
                            }
                            h = Some(a.next_value_seed(FieldsSeed(t))?)
                        }
                        _ => {
                            let _: de::IgnoredAny = a.next_value()?;
                        }
                    }
                }
                if self.0.path.is_some() && p.is_none() {
                    return Err(de::Error::missing_field("path"));
                }
                if self.0.query.is_some() && q.is_none() {
                    return Err(de::Error::missing_field("query"));
                }
                if self.0.header.is_some() && h.is_none() {
                    return Err(de::Error::missing_field("header"));
                }
                Ok(ReqVal {
                    path: p.unwrap_or_default(),
                    query: q,
                    header: h,
                    body: Vec::new(),
                })
            }
        }
        if self.0.wrapped {
            d.deserialize_newtype_struct("Wrapper", W(self.0))
        } else {
            let mut names = vec![];
            if self.0.path.is_some() {
                names.push("path");
            }
            if self.0.query.is_some() {
                names.push("query");
            }
            if self.0.header.is_some() {
                names.push("header");
            }
            d.deserialize_struct("Request", leak_names(names), W(self.0))
        }
    }
}
impl<'de, const N: usize> Deserialize<'de> for DynReq<N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let p = slot(N);
        Ok(DynReq::new(ReqSeed(&p.req).deserialize(d)?))
    }
}

struct ReadUpTo<const N: usize> {
    reader: Option<BodyReader>,
    req: Option<DynReq<N>>,
    left: usize,
}
impl<const N: usize> Future for ReadUpTo<N> {
    type Item = (BodyReader, DynReq<N>);
    type Error = htrpc::Error;
    fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
        while self.left > 0 {
            let mut buf = vec![0; std::cmp::min(self.left, 700)];
            match self.reader.as_mut().unwrap().read(&mut buf) {
                Ok(0) => break,
                Ok(n) => {
                    self.left -= n;
                    let body = &mut self.req.as_mut().unwrap().v.body;
                    body.extend_from_slice(&buf[..n]);
                }
                Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    return Ok(Async::NotReady)
                }
                Err(e) => return Err(e.into()),
            }
        }
        Ok(Async::Ready((
            self.reader.take().unwrap(),
            self.req.take().unwrap(),
        )))
    }
}

impl<const N: usize> RpcRequest for DynReq<N> {
    fn body(&mut self) -> Vec<u8> {
        std::mem::take(&mut self.v.body)
    }
    fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
        use htrpc::FutureExt;
        self.declared = htrpc::content_length(&body);
        match READ.with(|r| r.borrow()[N]) {
            ReadMode::All => Box::new(
                body.read_all_bytes()
                    .map_err(htrpc::Error::from)
                    .map(move |(r, b)| {
                        self.v.body = b;
                        (r, self)
                    }),
            ),
            ReadMode::AtMost(n) => Box::new(ReadUpTo {
                reader: Some(body),
                req: Some(self),
                left: n,
            }),
        }
    }
}

// ---------------------------------------------------------------- responses

#[derive(Debug, Clone)]
pub struct DynResp<const N: usize>(pub RespVal);

struct RespStruct<'a> {
    status: Option<u16>,
    optional_status: bool,
    header: Option<(&'a FieldsTy, &'a FieldsVal)>,
}
impl<'a> Serialize for RespStruct<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut t = s.serialize_struct("Response", 1 + self.header.is_some() as usize)?;
        if self.optional_status {
            t.serialize_field("status", &self.status)?;
        } else {
            t.serialize_field("status", &self.status.unwrap())?;
        }
        if let Some((ty, v)) = self.header {
            t.serialize_field("header", &FieldsSer(ty, v))?;
        }
        t.end()
    }
}
fn pair<'a>(t: &'a Option<FieldsTy>, v: &'a Option<FieldsVal>) -> Option<(&'a FieldsTy, &'a FieldsVal)> {
    match (t, v) {
        (Some(t), Some(v)) => Some((t, v)),
        _ => None,
    }
}
pub struct RespSer<'a>(pub &'a RespTy, pub &'a RespVal);
impl<'a> Serialize for RespSer<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            RespTy::Struct { header, wrapped } => {
                let inner = RespStruct {
                    status: Some(self.1.status),
                    optional_status: false,
                    header: pair(header, &self.1.header),
                };
                if *wrapped {
                    s.serialize_newtype_struct("Wrapper", &inner)
                } else {
                    inner.serialize(s)
                }
            }
            RespTy::Enum(vs) => {
                let name = status_name(self.1.status);
                let i = vs
                    .iter()
                    .position(|(n, _)| *n == name)
                    .expect("harness: variant");
                let n = intern(&name);
                match &vs[i].1 {
                    VariantTy::Unit => s.serialize_unit_variant("Response", i as u32, n),
                    VariantTy::Struct(h) => {
                        let mut t = s.serialize_struct_variant(
                            "Response",
                            i as u32,
                            n,
                            h.is_some() as usize,
                        )?;
                        if let Some((ty, v)) = pair(h, &self.1.header) {
                            t.serialize_field("header", &FieldsSer(ty, v))?;
                        }
                        t.end()
                    }
                    VariantTy::Newtype(h) | VariantTy::NewtypeReq(h) => s.serialize_newtype_variant(
                        "Response",
                        i as u32,
                        n,
                        &RespStruct {
                            status: Some(self.1.status),
                            optional_status: matches!(vs[i].1, VariantTy::Newtype(_)),
                            header: pair(h, &self.1.header),
                        },
                    ),
                }
            }
        }
    }
}
impl<const N: usize> Serialize for DynResp<N> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        RespSer(&slot(N).resp, &self.0).serialize(s)
    }
}

/// `{ status, header }` with the status either required or optional.
#[derive(Clone, Copy)]
struct RespStructSeed<'a> {
    header: &'a Option<FieldsTy>,
    status: StatusField,
}
#[derive(Clone, Copy, PartialEq)]
enum StatusField {
    Required,
    Optional,
    Absent,
}
impl<'de, 'a> Visitor<'de> for RespStructSeed<'a> {
    type Value = (Option<u16>, Option<FieldsVal>);
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "response")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        self.deserialize(d)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let (mut s, mut h) = (None, None);
        while let Some(k) = a.next_key_seed(Ident)? {
            match k.as_str() {
                "status" if self.status == StatusField::Required => {
                    if s.is_some() {
                        return Err(de::Error::duplicate_field("status"));
                    }
                    s = Some(Some(a.next_value::<u16>()?))
                }
                "status" if self.status == StatusField::Optional => {
                    s = Some(a.next_value::<Option<u16>>()?)
                }
                "header" if self.header.is_some() => {
                    if h.is_some() {
                        return Err(de::Error::duplicate_field("header"));
                    }
                    h = Some(a.next_value_seed(FieldsSeed(self.header.as_ref().unwrap()))?)
                }
                _ => {
                    let _: de::IgnoredAny = a.next_value()?;
                }
            }
        }
        if self.status == StatusField::Required && s.is_none() {
            return Err(de::Error::missing_field("status"));
        }
        if self.header.is_some() && h.is_none() {
            return Err(de::Error::missing_field("header"));
        }
        Ok((s.unwrap_or(None), h))
    }
}
impl<'de, 'a> DeserializeSeed<'de> for RespStructSeed<'a> {
    type Value = (Option<u16>, Option<FieldsVal>);
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        d.deserialize_struct("Response", self.names(), self)
    }
}
impl<'a> RespStructSeed<'a> {
    fn names(&self) -> &'static [&'static str] {
        match (self.status == StatusField::Absent, self.header.is_some()) {
            (false, true) => &["status", "header"],
            (false, false) => &["status"],
            (true, true) => &["header"],
            (true, false) => &[],
        }
    }
}

pub struct RespSeed<'a>(pub &'a RespTy);
impl<'de, 'a> DeserializeSeed<'de> for RespSeed<'a> {
    type Value = RespVal;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<RespVal, D::Error> {
        match self.0 {
            RespTy::Struct { header, wrapped } => {
                let seed = RespStructSeed {
                    header,
                    status: StatusField::Required,
                };
                let (s, h) = if *wrapped {
                    d.deserialize_newtype_struct("Wrapper", seed)?
                } else {
                    seed.deserialize(d)?
                };
                Ok(RespVal {
                    status: s.unwrap(),
                    header: h,
                    body: Vec::new(),
                })
            }
            RespTy::Enum(vs) => {
                struct V<'a>(&'a [(String, VariantTy)]);
                impl<'de, 'a> Visitor<'de> for V<'a> {
                    type Value = RespVal;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        write!(f, "enum")
                    }
                    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<RespVal, A::Error> {
                        let (name, access) = a.variant_seed(Ident)?;
                        let v = match self.0.iter().find(|(n, _)| *n == name) {
                            Some((_, v)) => v,
                            None => return Err(de::Error::unknown_variant(&name, &[])),
                        };
                        let status = status_code(&name).expect("harness: status name");
                        let header = match v {
                            VariantTy::Unit => {
                                access.unit_variant()?;
                                None
                            }
                            VariantTy::Struct(h) => {
                                let seed = RespStructSeed {
                                    header: h,
                                    status: StatusField::Absent,
                                };
                                access.struct_variant(seed.names(), seed)?.1
                            }
                            VariantTy::Newtype(h) | VariantTy::NewtypeReq(h) => {
                                let seed = RespStructSeed {
                                    header: h,
                                    status: match v {
                                        VariantTy::Newtype(_) => StatusField::Optional,
                                        _ => StatusField::Required,
                                    },
                                };
                                let (s, h) = access.newtype_variant_seed(seed)?;
                                if let Some(s) = s {
                                    if s != status {
                                        return Err(de::Error::custom("status differs"));
                                    }
                                }
                                h
                            }
                        };
                        Ok(RespVal {
                            status,
                            header,
                            body: Vec::new(),
                        })
                    }
                }
                let names: Vec<&'static str> = vs.iter().map(|(n, _)| intern(n)).collect();
                d.deserialize_enum("Response", leak_names(names), V(vs))
            }
        }
    }
}
impl<'de, const N: usize> Deserialize<'de> for DynResp<N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let p = slot(N);
        let mut r = RespSeed(&p.resp).deserialize(d)?;
        // Until `set_body` is called, with whatever body.
        r.body = b"set_body has not been called".to_vec();
        Ok(DynResp(r))
    }
}
impl<const N: usize> RpcResponse for DynResp<N> {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new(std::mem::take(&mut self.0.body))
    }
    fn set_body(&mut self, body: Vec<u8>) {
        self.0.body = body;
    }
}

// ---------------------------------------------------------------- statuses and methods
// Written out here, independently of the tables in the code under test.

pub const STATUSES: &[(u16, &str)] = &[
    (100, "Continue"),
    (101, "SwitchingProtocols"),
    (102, "Processing"),
    (200, "Ok"),
    (201, "Created"),
    (202, "Accepted"),
    (203, "NonAuthoritativeInformation"),
    (204, "NoContent"),
    (205, "ResetContent"),
    (206, "PartialContent"),
    (207, "MultiStatus"),
    (208, "AlreadyReported"),
    (226, "ImUsed"),
    (300, "MultipleChoices"),
    (301, "MovedPermanently"),
    (302, "Found"),
    (303, "SeeOther"),
    (304, "NotModified"),
    (305, "UseProxy"),
    (307, "TemporaryRedirect"),
    (308, "PermanentRedirect"),
    (400, "BadRequest"),
    (401, "Unauthorized"),
    (402, "PaymentRequired"),
    (403, "Forbidden"),
    (404, "NotFound"),
    (405, "MethodNotAllowed"),
    (406, "NotAcceptable"),
    (407, "ProxyAuthenticationRequired"),
    (408, "RequestTimeout"),
    (409, "Conflict"),
    (410, "Gone"),
    (411, "LengthRequired"),
    (412, "PreconditionFailed"),
    (413, "PayloadTooLarge"),
    (414, "UriTooLong"),
    (415, "UnsupportedMediaType"),
    (416, "RangeNotSatisfiable"),
    (417, "ExceptionFailed"),
    (418, "ImATeapot"),
    (421, "MisdirectedRequest"),
    (422, "UnprocessableEntity"),
    (423, "Locked"),
    (424, "FailedDependency"),
    (426, "UpgradeRequired"),
    (451, "UnavailableForLegalReasons"),
    (500, "InternalServerError"),
    (501, "NotImplemented"),
    (502, "BadGateway"),
    (503, "ServiceUnavailable"),
    (504, "GatewayTimeout"),
    (505, "HttpVersionNotSupported"),
    (506, "VariantAlsoNegotiates"),
    (507, "InsufficientStorage"),
    (508, "LoopDetected"),
    (509, "BandwidthLimitExceeded"),
    (510, "NotExtended"),
];
pub fn status_name(code: u16) -> String {
    STATUSES
        .iter()
        .find(|s| s.0 == code)
        .map(|s| s.1.to_string())
        .unwrap_or_else(|| format!("Unknown{}", code))
}
pub fn status_code(name: &str) -> Option<u16> {
    STATUSES.iter().find(|s| s.1 == name).map(|s| s.0)
}

pub const METHODS: &[&str] = &[
    "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "CONNECT", "ACL",
    "BASELINE-CONTROL", "BIND", "CHECKIN", "CHECKOUT", "COPY", "LABEL", "LINK", "LOCK", "MERGE",
    "MKACTIVITY", "MKCALENDAR", "MKCOL", "MKREDIRECTREF", "MKWORKSPACE", "MOVE", "ORDERPATCH",
    "PRI", "PROPFIND", "PROPPATCH", "REBIND", "REPORT", "SEARCH", "UNBIND", "UNCHECKOUT",
    "UNLINK", "UNLOCK", "UPDATE", "UPDATEREDIRECTREF", "VERSION-CONTROL",
];

// ---------------------------------------------------------------- handlers

#[derive(Debug, Clone)]
pub struct Invocation {
    pub slot: usize,
    /// Which of the server's registrations ran (several may share a slot in C05).
    pub tag: u64,
    pub req: ReqVal,
    pub declared: Option<u64>,
}

pub enum Action {
    Reply(RespVal),
    Wait(fibers::sync::oneshot::Receiver<RespVal>),
}

pub type Behaviour = Arc<Mutex<dyn FnMut(&Invocation) -> Action + Send>>;

#[derive(Clone)]
pub struct Handler<const N: usize> {
    pub tag: u64,
    pub behaviour: Behaviour,
}
impl<const N: usize> HandleRpc<Slot<N>> for Handler<N> {
    type Future = Box<dyn Future<Item = DynResp<N>, Error = NeverFail> + Send + 'static>;
    fn handle_rpc(self, request: DynReq<N>) -> Self::Future {
        let inv = Invocation {
            slot: N,
            tag: self.tag,
            req: request.v,
            declared: request.declared,
        };
        let action = (self.behaviour.lock().unwrap())(&inv);
        match action {
            Action::Reply(r) => Box::new(futures::finished(DynResp(r))),
            Action::Wait(rx) => Box::new(crate::sim::Gate(rx).map(DynResp)),
        }
    }
}

/// Registers slot `n` with the builder.
pub fn register(
    b: &mut htrpc::RpcServerBuilder,
    n: usize,
    tag: u64,
    behaviour: &Behaviour,
) -> htrpc::Result<()> {
    macro_rules! go {
        ($($i:literal),*) => {
            match n {
                $($i => b.register(Handler::<$i> { tag, behaviour: Arc::clone(behaviour) }, Slot::<$i>),)*
                _ => panic!("harness: slot number"),
            }
        };
    }
    go!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39)
}

pub type BoxCall = Box<dyn Future<Item = RespVal, Error = htrpc::Error> + Send + 'static>;

/// Issues a call to slot `n` through the plain client.
pub fn call_plain(addr: std::net::SocketAddr, n: usize, v: ReqVal) -> BoxCall {
    let mut c = htrpc::RpcClient::new(addr);
    macro_rules! go {
        ($($i:literal),*) => {
            match n {
                $($i => Box::new(SendFut(c.call::<Slot<$i>>(DynReq::new(v))).map(|r| r.0)) as BoxCall,)*
                _ => panic!("harness: slot number"),
            }
        };
    }
    go!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)
}

/// Issues a call to slot `n` through a pool.
pub fn call_pool(
    h: &htrpc::pool::RpcClientPoolHandle,
    addr: std::net::SocketAddr,
    n: usize,
    v: ReqVal,
) -> BoxCall {
    macro_rules! go {
        ($($i:literal),*) => {
            match n {
                $($i => Box::new(SendFut(h.client(addr).call::<Slot<$i>>(DynReq::new(v))).map(|r| r.0)) as BoxCall,)*
                _ => panic!("harness: slot number"),
            }
        };
    }
    go!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)
}

struct SendFut<F>(F);
impl<F: Future> Future for SendFut<F> {
    type Item = F::Item;
    type Error = F::Error;
    fn poll(&mut self) -> Poll<F::Item, F::Error> {
        self.0.poll()
    }
}
