//! C16: the json, json_pretty and msgpack field modules.
use crate::engine::*;
use crate::gen;
use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use proptest::sample::select;
use serde::de::value::{
    BorrowedStrDeserializer, BytesDeserializer, SeqDeserializer, StrDeserializer, StringDeserializer, U64Deserializer,
};
use serde::de::{self, DeserializeOwned, Deserializer, IntoDeserializer};
use serde::{Deserialize, Serialize, Serializer};
use std::collections::BTreeMap;
use std::fmt::Debug;

type ValErr = serde::de::value::Error;

/// A byte string in serde's data model.
#[derive(Debug, Clone, PartialEq)]
pub struct Bin(pub Vec<u8>);
impl Serialize for Bin {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Bin {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Bin;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "bytes")
            }
            fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Bin, E> {
                Ok(Bin(v.to_vec()))
            }
            fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Bin, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(Bin(v))
            }
        }
        d.deserialize_byte_buf(V)
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct UnitS;
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct New(i64);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Pair(u8, String);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Choice {
    Unit,
    Newtype(i32),
    Tuple(u8, String),
    Struct { a: bool, #[serde(rename = "b-c")] b: Option<u16> },
    Tree(Vec<Choice>),
    Boxed(Box<Choice>),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Rich {
    b: bool,
    i: (i8, i16, i32, i64),
    u: (u8, u16, u32, u64),
    f: (f32, f64),
    c: char,
    s: String,
    o: Option<u32>,
    v: Vec<i16>,
    m: BTreeMap<String, u64>,
    n: BTreeMap<i32, bool>,
    e: Vec<Choice>,
    unit: (),
    us: UnitS,
    new: New,
    pair: Pair,
    bin: Bin,
    nested: Option<Box<Rich>>,
}

/// Field attributes that only a self-describing format carries.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "type")]
pub enum Tagged {
    A {
        #[serde(default, skip_serializing_if = "Option::is_none")]
        skipped: Option<String>,
        #[serde(flatten)]
        rest: BTreeMap<String, bool>,
    },
    #[serde(rename = "b:b")]
    B(Inner),
    C,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Inner {
    #[serde(default)]
    x: u16,
    s: String,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Value {
    /// JSON only.
    Tagged(Tagged),
    Rich(Box<Rich>),
    Json(serde_json::Value),
    Text(String),
    I(i64),
    U(u64),
    Small(i8),
    Bool(bool),
    Char(char),
    Opt(Option<String>),
    List(Vec<Option<u16>>),
    Map(BTreeMap<String, Vec<u8>>),
    Choice(Choice),
    Unit,
    Bin(Bin),
    /// Bits, for MessagePack only.
    Float(u64),
    Float32(u32),
    Deep(u16),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Mutation {
    Cut(u16),
    Insert(u16, String),
    Flip(u16, u8),
    Delete(u16),
    Spaces,
    Append(String),
    Escape(u16),
    Replace(String),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Case {
    Value(Value),
    /// Decodes a changed JSON text as several types.
    Text { base: Value, edits: Vec<Mutation> },
    Bytes { base: Value, edits: Vec<Mutation> },
    Nesting { depth: u32, open: String },
}

macro_rules! wrapper {
    ($n:ident, $m:literal) => {
        #[derive(Debug, PartialEq, Serialize, Deserialize)]
        #[serde(bound = "T: Serialize + DeserializeOwned")]
        struct $n<T> {
            a: u8,
            #[serde(with = $m)]
            v: T,
            z: String,
        }
    };
}
wrapper!(WJ, "htrpc::json");
wrapper!(WP, "htrpc::json_pretty");
wrapper!(WM, "htrpc::msgpack");

trait Data: Serialize + DeserializeOwned + Debug {}
impl<T: Serialize + DeserializeOwned + Debug> Data for T {}

fn err<E: std::fmt::Display>(what: String) -> impl FnOnce(E) -> Fault {
    move |e| Fault::Violation(format!("{}: {}", what, e))
}

/// Through one JSON module.
fn json_round<T: Data>(v: &T, same: &dyn Fn(&T, &T) -> bool, pretty: bool) -> Result<(), Fault> {
    let name = if pretty { "json_pretty" } else { "json" };
    let what = |s: &str| format!("{} of {:.300}: {}", name, format!("{:?}", v), s);
    let enc = if pretty {
        htrpc::json_pretty::serialize(v, serde_json::value::Serializer)
    } else {
        htrpc::json::serialize(v, serde_json::value::Serializer)
    }
    .map_err(err(what("encode")))?;
    let text = match &enc {
        serde_json::Value::String(s) => s.clone(),
        o => violation!("{} instead of a string: {:?}", what("encoded as"), o),
    };
    let reference = serde_json::to_string(v).map_err(|e| Fault::Harness(e.to_string()))?;
    let reference: serde_json::Value = serde_json::from_str(&reference).map_err(|e| Fault::Harness(e.to_string()))?;
    let parsed: serde_json::Value = serde_json::from_str(&text).map_err(err(what("not JSON")))?;
    ensure!(parsed == reference, "{} {:?} instead of {:?}", what("encoded as"), parsed, reference);
    if pretty {
        let indent = match &reference {
            serde_json::Value::Array(a) => !a.is_empty(),
            serde_json::Value::Object(o) => !o.is_empty(),
            _ => false,
        };
        ensure!(!indent || text.contains('\n'), "{} {:?}", what("not pretty-printed:"), text);
    } else {
        ensure!(!text.contains('\n') && !text.contains('\r'), "{} {:?}", what("more than one line:"), text);
    }
    let eq = |how: &str, g: Result<T, String>| -> Result<(), Fault> {
        match g {
            Ok(g) => ensure!(same(&g, v), "{} {:?}", what(&format!("decoded from {} as", how)), g),
            Err(e) => violation!("{} {} (text {:?})", what(&format!("decoding from {} fails:", how)), e, text),
        }
        Ok(())
    };
    macro_rules! dec {
        ($how:expr, $d:expr) => {
            eq($how, if pretty { htrpc::json_pretty::deserialize($d) } else { htrpc::json::deserialize($d) }
                .map_err(|e| e.to_string()))?
        };
    }
    dec!("a value", enc.clone());
    dec!("a borrowed value", &enc);
    dec!("a transient string", StrDeserializer::<ValErr>::new(&text));
    dec!("a string", StringDeserializer::<ValErr>::new(text.clone()));
    dec!("a borrowed string", BorrowedStrDeserializer::<ValErr>::new(&text));
    let carried = serde_json::to_string(&text).unwrap();
    dec!("JSON text", &mut serde_json::Deserializer::from_str(&carried));
    dec!("a JSON reader", &mut serde_json::Deserializer::from_reader(carried.as_bytes()));
    let packed = rmp_serde::to_vec(&text).unwrap();
    dec!("MessagePack", &mut rmp_serde::Deserializer::from_read_ref(&packed));
    Ok(())
}

fn msgpack_round<T: Data>(v: &T, same: &dyn Fn(&T, &T) -> bool) -> Result<(), Fault> {
    let what = |s: &str| format!("msgpack of {:.300}: {}", format!("{:?}", v), s);
    let enc = htrpc::msgpack::serialize(v, serde_json::value::Serializer).map_err(err(what("encode")))?;
    let bytes: Vec<u8> = serde_json::from_value(enc.clone()).map_err(err(what("not bytes")))?;
    let std: T = rmp_serde::from_slice(&bytes).map_err(err(what("not MessagePack")))?;
    ensure!(same(&std, v), "{} {:?}", what("a standard decoder reads"), std);
    let eq = |how: &str, g: Result<T, String>| -> Result<(), Fault> {
        match g {
            Ok(g) => ensure!(same(&g, v), "{} {:?}", what(&format!("decoded from {} as", how)), g),
            Err(e) => violation!("{} {} (bytes {:?})", what(&format!("decoding from {} fails:", how)), e, bytes),
        }
        Ok(())
    };
    macro_rules! dec {
        ($how:expr, $d:expr) => {
            eq($how, htrpc::msgpack::deserialize($d).map_err(|e| e.to_string()))?
        };
    }
    dec!("a value", enc.clone());
    dec!("a borrowed value", &enc);
    let carried = serde_json::to_string(&enc).unwrap();
    dec!("JSON text", &mut serde_json::Deserializer::from_str(&carried));
    dec!("a JSON reader", &mut serde_json::Deserializer::from_reader(carried.as_bytes()));
    dec!("a sequence", SeqDeserializer::<_, ValErr>::new(bytes.iter().cloned()));
    // The carrier is MessagePack as well.
    let mut packed = Vec::new();
    htrpc::msgpack::serialize(v, &mut rmp_serde::Serializer::new(&mut packed)).map_err(err(what("encode into MessagePack")))?;
    dec!("MessagePack", &mut rmp_serde::Deserializer::from_read_ref(&packed));
    // Other standard encodings of the same value.
    for (how, b) in [
        ("compact MessagePack", rmp_serde::to_vec(v)),
        ("named MessagePack", rmp_serde::to_vec_named(v)),
    ] {
        let b = b.map_err(|e| Fault::Harness(e.to_string()))?;
        dec!(how, SeqDeserializer::<_, ValErr>::new(b.iter().cloned()));
    }
    Ok(())
}

/// As a field of a struct, in several carriers.
fn fields<T: Data + Clone>(v: &T, same: &dyn Fn(&T, &T) -> bool, json: bool) -> Result<(), Fault> {
    macro_rules! field {
        ($w:ident) => {{
            let w = $w { a: 7, v: v.clone(), z: "end".into() };
            let name = stringify!($w);
            let what = |s: &str| format!("{} field {:.300} in {}", name, format!("{:?}", v), s);
            let ok = |s: &str, g: $w<T>| -> Result<(), Fault> {
                ensure!(g.a == 7 && g.z == "end" && same(&g.v, v), "{}: read as {:?}", what(s), g);
                Ok(())
            };
            let t = serde_json::to_string(&w).map_err(err(what("JSON")))?;
            ok("JSON", serde_json::from_str(&t).map_err(err(what("JSON")))?)?;
            let t = serde_json::to_value(&w).map_err(err(what("a value")))?;
            ok("a value", serde_json::from_value(t).map_err(err(what("a value")))?)?;
            let t = rmp_serde::to_vec(&w).map_err(err(what("MessagePack")))?;
            ok("MessagePack", rmp_serde::from_slice(&t).map_err(err(what("MessagePack")))?)?;
            let t = rmp_serde::to_vec_named(&w).map_err(err(what("named MessagePack")))?;
            ok("named MessagePack", rmp_serde::from_slice(&t).map_err(err(what("named MessagePack")))?)?;
        }};
    }
    if json {
        field!(WJ);
        field!(WP);
    }
    field!(WM);
    Ok(())
}

fn check<T: Data + Clone + PartialEq>(v: &T) -> Result<(), Fault> {
    let same: &dyn Fn(&T, &T) -> bool = &|a, b| a == b;
    json_round(v, same, false)?;
    json_round(v, same, true)?;
    msgpack_round(v, same)?;
    fields(v, same, true)
}

fn check_json<T: Data + Clone + PartialEq>(v: &T) -> Result<(), Fault> {
    let same: &dyn Fn(&T, &T) -> bool = &|a, b| a == b;
    json_round(v, same, false)?;
    json_round(v, same, true)?;
    let w = WJ { a: 0, v: v.clone(), z: "".into() };
    let t = serde_json::to_string(&w).map_err(err("json field".into()))?;
    let g: WJ<T> = serde_json::from_str(&t).map_err(err("json field".into()))?;
    ensure!(g == w, "json field: {:?} instead of {:?}", g, w);
    let w = WP { a: 0, v: v.clone(), z: "".into() };
    let t = serde_json::to_string(&w).map_err(err("json_pretty field".into()))?;
    let g: WP<T> = serde_json::from_str(&t).map_err(err("json_pretty field".into()))?;
    ensure!(g == w, "json_pretty field: {:?} instead of {:?}", g, w);
    Ok(())
}

fn dispatch(v: &Value) -> Result<(), Fault> {
    match v {
        Value::Tagged(x) => check_json(x),
        Value::Rich(x) => check(&**x),
        Value::Json(x) => check(x),
        Value::Text(x) => check(x),
        Value::I(x) => check(x),
        Value::U(x) => check(x),
        Value::Small(x) => check(x),
        Value::Bool(x) => check(x),
        Value::Char(x) => check(x),
        Value::Opt(x) => check(x),
        Value::List(x) => check(x),
        Value::Map(x) => check(x),
        Value::Choice(x) => check(x),
        Value::Unit => check(&UnitS).and_then(|_| check(&())),
        Value::Bin(x) => check(x),
        Value::Float(b) => {
            let same: &dyn Fn(&f64, &f64) -> bool = &|a, b| a.to_bits() == b.to_bits();
            let f = f64::from_bits(*b);
            msgpack_round(&f, same)?;
            fields(&f, same, false)
        }
        Value::Float32(b) => {
            // Conversions may set the quiet bit of a NaN.
            let same: &dyn Fn(&f32, &f32) -> bool = &|a, b| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan();
            let f = f32::from_bits(*b);
            msgpack_round(&f, same)?;
            fields(&f, same, false)
        }
        Value::Deep(n) => {
            let mut c = Choice::Unit;
            for _ in 0..*n {
                c = Choice::Boxed(Box::new(c));
            }
            check(&c)?;
            let mut j = serde_json::Value::Null;
            for _ in 0..*n {
                j = serde_json::Value::Array(vec![j]);
            }
            check(&j)
        }
    }
}

fn json_text(v: &Value, pretty: bool) -> String {
    fn t<T: Serialize>(v: &T, p: bool) -> String {
        if p { serde_json::to_string_pretty(v) } else { serde_json::to_string(v) }.unwrap_or_default()
    }
    match v {
        Value::Tagged(x) => t(x, pretty),
        Value::Rich(x) => t(x, pretty),
        Value::Json(x) => t(x, pretty),
        Value::Text(x) => t(x, pretty),
        Value::I(x) => t(x, pretty),
        Value::U(x) => t(x, pretty),
        Value::Small(x) => t(x, pretty),
        Value::Bool(x) => t(x, pretty),
        Value::Char(x) => t(x, pretty),
        Value::Opt(x) => t(x, pretty),
        Value::List(x) => t(x, pretty),
        Value::Map(x) => t(x, pretty),
        Value::Choice(x) => t(x, pretty),
        Value::Bin(x) => t(x, pretty),
        Value::Float(b) => t(&f64::from_bits(*b), pretty),
        Value::Float32(b) => t(&f32::from_bits(*b), pretty),
        Value::Unit | Value::Deep(_) => "null".into(),
    }
}
fn pack(v: &Value, named: bool) -> Vec<u8> {
    fn t<T: Serialize>(v: &T, p: bool) -> Vec<u8> {
        if p { rmp_serde::to_vec_named(v) } else { rmp_serde::to_vec(v) }.unwrap_or_default()
    }
    match v {
        Value::Tagged(x) => t(x, true),
        Value::Rich(x) => t(x, named),
        Value::Json(x) => t(x, named),
        Value::Text(x) => t(x, named),
        Value::I(x) => t(x, named),
        Value::U(x) => t(x, named),
        Value::Small(x) => t(x, named),
        Value::Bool(x) => t(x, named),
        Value::Char(x) => t(x, named),
        Value::Opt(x) => t(x, named),
        Value::List(x) => t(x, named),
        Value::Map(x) => t(x, named),
        Value::Choice(x) => t(x, named),
        Value::Bin(x) => t(x, named),
        Value::Float(b) => t(&f64::from_bits(*b), named),
        Value::Float32(b) => t(&f32::from_bits(*b), named),
        Value::Unit | Value::Deep(_) => t(&(), named),
    }
}

fn mutate(b: &mut Vec<u8>, edits: &[Mutation]) {
    for e in edits {
        let at = |i: u16, n: usize| i as usize % n.max(1);
        match e {
            Mutation::Cut(i) => {
                let n = at(*i, b.len() + 1);
                b.truncate(n)
            }
            Mutation::Insert(i, s) => {
                let n = at(*i, b.len() + 1);
                b.splice(n..n, s.bytes());
            }
            Mutation::Flip(i, x) if !b.is_empty() => {
                let n = at(*i, b.len());
                b[n] ^= *x;
            }
            Mutation::Delete(i) if !b.is_empty() => {
                b.remove(at(*i, b.len()));
            }
            Mutation::Spaces => {
                // Blanks around structural characters outside strings.
                let (mut out, mut quoted, mut esc) = (vec![b' ', b'\n'], false, false);
                for c in b.iter() {
                    let structural = !quoted && b"[]{},:".contains(c);
                    if structural {
                        out.extend_from_slice(b"\t ");
                    }
                    out.push(*c);
                    if structural {
                        out.extend_from_slice(b"\r\n ");
                    }
                    if quoted {
                        if esc {
                            esc = false
                        } else if *c == b'\\' {
                            esc = true
                        } else if *c == b'"' {
                            quoted = false
                        }
                    } else if *c == b'"' {
                        quoted = true
                    }
                }
                out.push(b' ');
                *b = out;
            }
            Mutation::Append(s) => b.extend_from_slice(s.as_bytes()),
            Mutation::Escape(i) => {
                // An ASCII letter as \u00xx: the same text inside strings.
                let n = at(*i, b.len() + 1);
                if let Some(k) = (n..b.len()).find(|k| b[*k].is_ascii_alphabetic()) {
                    let x = format!("\\u{:04x}", b[k]);
                    b.splice(k..k + 1, x.bytes());
                }
            }
            Mutation::Replace(s) => *b = s.clone().into_bytes(),
            _ => {}
        }
    }
}

fn same_text<T: Data + PartialEq>(text: &str) -> Result<bool, Fault> {
    let e: Option<T> = serde_json::from_str(text).ok();
    for (m, g) in [
        ("json", htrpc::json::deserialize::<_, T>(StrDeserializer::<ValErr>::new(text))),
        ("json_pretty", htrpc::json_pretty::deserialize::<_, T>(StrDeserializer::<ValErr>::new(text))),
    ] {
        let g = g.ok();
        ensure!(g == e, "{}: {:?} decoded as {:?}, a standard decoder gives {:?}", m, text, g, e);
    }
    Ok(e.is_some())
}
fn same_bytes<T: Data + PartialEq>(b: &[u8]) -> Result<bool, Fault> {
    let d = SeqDeserializer::<_, ValErr>::new(b.iter().cloned());
    if let Ok(g) = htrpc::msgpack::deserialize::<_, T>(d) {
        match rmp_serde::from_slice::<T>(b) {
            Ok(e) => {
                // NaN differs from itself.
                ensure!(
                    g == e || format!("{:?}", g) == format!("{:?}", e),
                    "msgpack: {:?} decoded as {:?}, a standard decoder gives {:?}", b, g, e
                );
                return Ok(true);
            }
            Err(e) => violation!("msgpack: {:?} decoded as {:?}, a standard decoder refuses it: {}", b, g, e),
        }
    }
    Ok(false)
}

macro_rules! all_types {
    ($f:ident, $x:expr) => {{
        let mut n = 0;
        n += $f::<Rich>($x)? as usize;
        n += $f::<Tagged>($x)? as usize;
        n += $f::<serde_json::Value>($x)? as usize;
        n += $f::<String>($x)? as usize;
        n += $f::<i64>($x)? as usize;
        n += $f::<u64>($x)? as usize;
        n += $f::<i8>($x)? as usize;
        n += $f::<f64>($x)? as usize;
        n += $f::<bool>($x)? as usize;
        n += $f::<char>($x)? as usize;
        n += $f::<Option<String>>($x)? as usize;
        n += $f::<Vec<Option<u16>>>($x)? as usize;
        n += $f::<BTreeMap<String, Vec<u8>>>($x)? as usize;
        n += $f::<BTreeMap<i32, bool>>($x)? as usize;
        n += $f::<Choice>($x)? as usize;
        n += $f::<()>($x)? as usize;
        n += $f::<Bin>($x)? as usize;
        n
    }};
}

fn choice() -> BoxedStrategy<Choice> {
    let leaf = prop_oneof![
        Just(Choice::Unit),
        any::<i32>().prop_map(Choice::Newtype),
        (any::<u8>(), gen::hostile()).prop_map(|(a, b)| Choice::Tuple(a, b)),
        (any::<bool>(), any::<Option<u16>>()).prop_map(|(a, b)| Choice::Struct { a, b }),
    ];
    leaf.prop_recursive(3, 12, 3, |i| {
        prop_oneof![
            vec(i.clone(), 0..3).prop_map(Choice::Tree),
            i.prop_map(|c| Choice::Boxed(Box::new(c))),
        ]
    })
    .boxed()
}
/// Floats that every JSON parser reads exactly.
fn dyadic() -> BoxedStrategy<f64> {
    prop_oneof![
        select(vec![0.0, -0.0, 1.0, -1.5, 0.5, 1e10, 0.1, 1e300, 1.5e-5]),
        (-100000i32..100000, 0u32..6).prop_map(|(n, e)| n as f64 / (1u32 << e) as f64),
    ]
    .boxed()
}
fn rich(depth: u32) -> BoxedStrategy<Rich> {
    let nested = if depth == 0 {
        Just(None).boxed()
    } else {
        proptest::option::weighted(0.4, rich(depth - 1).prop_map(Box::new)).boxed()
    };
    (
        (any::<bool>(), any::<(i8, i16, i32, i64)>(), any::<(u8, u16, u32, u64)>(), dyadic(), dyadic(), any::<char>(), gen::hostile(), any::<Option<u32>>()),
        (vec(any::<i16>(), 0..4), btree_map(gen::hostile(), any::<u64>(), 0..3), btree_map(any::<i32>(), any::<bool>(), 0..3), vec(choice(), 0..3), any::<i64>(), (any::<u8>(), gen::text()), vec(any::<u8>(), 0..6)),
        nested,
    )
        .prop_map(|((b, i, u, f32v, f64v, c, s, o), (v, m, n, e, new, pair, bin), nested)| Rich {
            b, i, u,
            f: (if f32v.abs() > 1e30 { 2.5 } else { f32v as f32 }, f64v),
            c, s, o, v, m, n, e,
            unit: (),
            us: UnitS,
            new: New(new),
            pair: Pair(pair.0, pair.1),
            bin: Bin(bin),
            nested,
        })
        .boxed()
}
fn value() -> BoxedStrategy<Value> {
    prop_oneof![
        4 => rich(2).prop_map(|r| Value::Rich(Box::new(r))),
        1 => (proptest::option::of(gen::hostile()), btree_map(gen::query_name(), any::<bool>(), 0..3)).prop_map(|(skipped, mut rest)| {
            rest.remove("type");
            rest.remove("skipped");
            Value::Tagged(Tagged::A { skipped, rest })
        }),
        1 => (any::<u16>(), gen::hostile()).prop_map(|(x, s)| Value::Tagged(Tagged::B(Inner { x, s }))),
        3 => gen::json_strategy().prop_map(Value::Json),
        2 => prop_oneof![20 => gen::hostile(), 4 => (gen::hostile(), 10usize..400).prop_map(|(s, n)| s.repeat(n)), 1 => (65_520usize..65_560).prop_map(|n| "y".repeat(n))].prop_map(Value::Text),
        1 => any::<i64>().prop_map(Value::I),
        1 => prop_oneof![any::<u64>(), select(vec![u64::MAX, 1 << 53, (1 << 53) + 1, 1 << 63])].prop_map(Value::U),
        1 => any::<i8>().prop_map(Value::Small),
        1 => any::<bool>().prop_map(Value::Bool),
        1 => any::<char>().prop_map(Value::Char),
        1 => proptest::option::of(gen::hostile()).prop_map(Value::Opt),
        1 => prop_oneof![60 => vec(any::<Option<u16>>(), 0..40), 4 => vec(any::<Option<u16>>(), 40..400), 1 => (65_530usize..65_545).prop_map(|n| vec![None; n])].prop_map(Value::List),
        1 => prop_oneof![12 => btree_map(gen::hostile(), vec(any::<u8>(), 0..20), 0..5), 1 => btree_map(gen::hostile(), vec(any::<u8>(), 0..3), 5..40)].prop_map(Value::Map),
        2 => choice().prop_map(Value::Choice),
        1 => Just(Value::Unit),
        1 => prop_oneof![vec(any::<u8>(), 0..40), (0usize..70000, any::<u8>()).prop_map(|(n, s)| crate::dynproc::bodyfmt::pattern(n / 10, s))].prop_map(|v| Value::Bin(Bin(v))),
        1 => any::<u64>().prop_map(Value::Float),
        1 => any::<u32>().prop_map(Value::Float32),
        1 => (0u16..60).prop_map(Value::Deep),
    ]
    .boxed()
}
fn mutation() -> BoxedStrategy<Mutation> {
    let snip = select(vec![
        "\"", "\\", ",", ":", "[", "]", "{", "}", "0", "-", "1", "e", ".", "null", "true", "+", " ", "\n", "\t", "\u{b}", "\u{feff}", "\\u", "\\ud800",
        "\\udc00", "\\u0000", "é", "\0", "/*x*/", "//", "NaN", "1e999", "18446744073709551616", "-9223372036854775809", "00", "0x1", "'", ",,", "[]", "{}",
        "\u{7f}", "\u{2028}", "\"a\":1,", "\u{fffd}",
    ])
    .prop_map(|s| s.to_string())
    .boxed();
    prop_oneof![
        2 => any::<u16>().prop_map(Mutation::Cut),
        4 => (any::<u16>(), snip.clone()).prop_map(|(a, b)| Mutation::Insert(a, b)),
        3 => (any::<u16>(), 1u8..=255).prop_map(|(a, b)| Mutation::Flip(a, b)),
        3 => any::<u16>().prop_map(Mutation::Delete),
        3 => Just(Mutation::Spaces),
        1 => snip.clone().prop_map(Mutation::Append),
        3 => any::<u16>().prop_map(Mutation::Escape),
        1 => gen::hostile().prop_map(Mutation::Replace),
        1 => vec(snip, 0..6).prop_map(|v| Mutation::Replace(v.concat())),
    ]
    .boxed()
}

pub struct C16;
impl Property for C16 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "generated values of many types through the three modules and several carriers, and changed or arbitrary encodings decoded as 17 types; non-trivial if the value is a composite, or the changed encoding is not empty"
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "floats encoded as JSON are finite and exactly readable by the JSON library; nesting below its recursion limit".into(),
            "values the formats themselves can express (no options within options)".into(),
        ]
    }
    fn cases(&self) -> u64 {
        200_000
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        prop_oneof![
            3 => value().prop_map(Case::Value),
            2 => (value(), vec(mutation(), 0..4)).prop_map(|(base, edits)| Case::Text { base, edits }),
            2 => (value(), vec(mutation(), 0..4)).prop_map(|(base, edits)| Case::Bytes { base, edits }),
        ]
        .prop_flat_map(|c| prop_oneof![
            400 => Just(c),
            1 => (prop_oneof![0u32..300, 1000u32..3000, 40000u32..60000], select(vec!["[", "{\"a\":", "\"", "[[", "{", "[{\"Boxed\":", "{\"Boxed\":", "{\"Tree\":[", "-", "{\"nested\":"])).prop_map(|(depth, open)| Case::Nesting { depth, open: open.into() }),
        ])
        .boxed()
    }
    fn run(&self, case: &Case) -> Verdict {
        match case {
            Case::Value(v) => {
                dispatch(v)?;
                let composite = !matches!(v, Value::Bool(_) | Value::Unit | Value::Small(_) | Value::I(_) | Value::U(_));
                Ok(Info::new(composite).class("round trip"))
            }
            Case::Text { base, edits } => {
                let mut b = json_text(base, edits.len() % 2 == 1).into_bytes();
                mutate(&mut b, edits);
                let text = String::from_utf8_lossy(&b).into_owned();
                let n = all_types!(same_text, &text);
                // Bytes that are no string, numbers: an error, no panic.
                if std::str::from_utf8(&b).is_err() {
                    let r = htrpc::json::deserialize::<_, serde_json::Value>(BytesDeserializer::<ValErr>::new(&b));
                    ensure!(r.is_err(), "json: {:?} is not UTF-8, but decoded as {:?}", b, r);
                }
                let num: U64Deserializer<ValErr> = (b.len() as u64).into_deserializer();
                ensure!(htrpc::json::deserialize::<_, serde_json::Value>(num).is_err(), "json: a number was taken for a text");
                Ok(Info::new(!b.is_empty()).class(if n > 0 { "text read" } else { "text refused" }))
            }
            Case::Bytes { base, edits } => {
                let mut b = pack(base, edits.len() % 2 == 1);
                mutate(&mut b, edits);
                let n = all_types!(same_bytes, &b);
                Ok(Info::new(!b.is_empty()).class(if n > 0 { "bytes read" } else { "bytes refused" }))
            }
            Case::Nesting { depth, open } => {
                let text = open.repeat(*depth as usize);
                all_types!(same_text, &text);
                // The same nesting in MessagePack: arrays of one element, maps of one entry.
                for one in [0x91u8, 0x81] {
                    let mut b = vec![one; *depth as usize];
                    b.push(0xc0);
                    all_types!(same_bytes, &b);
                }
                Ok(Info::new(true).class("nesting"))
            }
        }
    }
}
