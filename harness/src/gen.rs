//! Generators for values, shapes, bodies.
use crate::dynproc::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;

pub type TV = (Ty, Val);

fn ch() -> BoxedStrategy<char> {
    prop_oneof![
        4 => select("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_".chars().collect::<Vec<_>>()),
        3 => select("/?#%&=+;:@$,!*'()[] ~.\"<>\\^`{|}".chars().collect::<Vec<_>>()),
        1 => select("éßñ漢字日本ЖΩ😀🎉\u{80}\u{a0}\u{ff}\u{200b}\u{feff}\u{fffd}\u{10ffff}İ".chars().collect::<Vec<_>>()),
    ]
    .boxed()
}
fn control() -> BoxedStrategy<char> {
    prop_oneof![
        3 => select(vec!['\r', '\n', '\t', '\0', '\u{7f}', '\u{b}', '\u{1}', '\u{85}', '\u{2028}']),
        1 => (0u8..0x20).prop_map(|c| c as char),
    ]
    .boxed()
}

pub const TRICKY: &[&str] = &[
    "", " ", "  ", "+", "%", "%%", "%2", "%41", "%2e", "%2e%2e", "%2E.", "%zz", "%00", "%c3%28",
    "...", ".a", "a.", "..a", "/", "//", "/../", "a/../b", "a/./b", "?", "#", "&", "=", "a=b&c=d",
    "a b", "true", "false", "ture", "null", "None", "NaN", "-0", "1e5", "\\", "a\\b", "é", "%e9",
    "\u{feff}", "a+b", "a%20b", "http://x/y", "x:y", ";", ",", "~", "*", "[]", "{}", "\"\"", "|",
    "undefined", "0", "00", "+1", "-1", "foo", "bar", "a",
];

/// Strings for path and query fields: everything except control characters (see `hostile`).
pub fn text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => vec(ch(), 0..12).prop_map(|v| v.into_iter().collect::<String>()),
        1 => select(TRICKY).prop_map(|s| s.to_string()),
        1 => vec(select("abc019".chars().collect::<Vec<_>>()), 1..6).prop_map(|v| v.into_iter().collect::<String>()),
        1 => vec(any::<char>(), 0..6).prop_map(|v| v.into_iter().collect::<String>()),
        1 => long(900),
    ]
    .boxed()
}
/// Long strings, rarely (the rest of the weight goes to short ones).
fn long(max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        5 => vec(ch(), 0..12).prop_map(|v| v.into_iter().collect::<String>()),
        1 => (vec(ch(), 12..40), 1usize..max).prop_map(|(v, n)| v.into_iter().cycle().take(n).collect::<String>()),
    ]
    .boxed()
}
/// Any string at all, rich in control characters and dot segments.
pub fn hostile() -> BoxedStrategy<String> {
    prop_oneof![
        2 => vec(prop_oneof![2 => ch(), 1 => control()], 0..10).prop_map(|v| v.into_iter().collect::<String>()),
        2 => select(vec![
            ".", "..", "\r\n", "\n", "\r", "\0", "a\r\nx-injected: 1", "a\nx-injected: 1",
            "a\r\n\r\nGET /evil HTTP/1.1\r\n\r\n", "\r\nContent-Length: 0\r\n\r\n", "a\rb", "\tx",
            "x\t", " x", "x ", "\t", "..%2f", "%2e", "/..", "../..", "\\..\\", "..\\", "a\tb", "\u{7f}",
            "\u{1b}[0m", "%0d%0a", "%0D%0AX: y", "?x=1", "#frag", "&x=1", "a HTTP/1.1", "x\r\n y",
            "Content-Length: 5", ": ", ":", "é\r\n", "\u{2028}", "\u{85}",
        ]).prop_map(|s| s.to_string()),
        2 => text(),
        1 => (1usize..2000, select(vec!['a', ' ', '%', 'é', '/', '.'])).prop_map(|(n, c)| std::iter::repeat(c).take(n).collect()),
    ]
    .boxed()
}
/// Header values that HTTP can carry without change.
pub fn header_text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => vec(ch(), 0..14).prop_map(|v| v.into_iter().collect::<String>()),
        1 => select(TRICKY).prop_map(|s| s.to_string()),
        1 => vec(select(vec!['a', 'b', '\t', ' ', ',', 'é', '\u{80}', '\u{ff}', '漢']), 0..10).prop_map(|v| v.into_iter().collect::<String>()),
        1 => long(3000),
    ]
    .prop_map(|s| s.trim_matches(|c| c == ' ' || c == '\t').to_string())
    .boxed()
}

fn ints() -> Vec<BoxedStrategy<TV>> {
    fn s(t: Ty, min: i64, max: i64) -> BoxedStrategy<TV> {
        prop_oneof![
            select(vec![min, max, 0, 1.min(max), min + 1, max - 1]).boxed(),
            (min..=max).boxed(),
            (min.max(-300)..=max.min(300)).boxed(),
        ]
        .prop_map(move |v| (t.clone(), Val::I(v)))
        .boxed()
    }
    fn u(t: Ty, max: u64) -> BoxedStrategy<TV> {
        prop_oneof![
            select(vec![0, 1, max, max - 1, max / 2, max / 2 + 1]).boxed(),
            (0..=max).boxed(),
            (0..=max.min(300)).boxed(),
        ]
        .prop_map(move |v| (t.clone(), Val::U(v)))
        .boxed()
    }
    vec![
        s(Ty::I8, i8::MIN as i64, i8::MAX as i64),
        s(Ty::I16, i16::MIN as i64, i16::MAX as i64),
        s(Ty::I32, i32::MIN as i64, i32::MAX as i64),
        s(Ty::I64, i64::MIN, i64::MAX),
        u(Ty::U8, u8::MAX as u64),
        u(Ty::U16, u16::MAX as u64),
        u(Ty::U32, u32::MAX as u64),
        u(Ty::U64, u64::MAX),
    ]
}
fn floats() -> BoxedStrategy<TV> {
    let f32s = prop_oneof![
        select(vec![0.0f32, -0.0, 1.0, -1.5, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1.0e-45, 0.1, 16777217.0]).prop_map(|f| f.to_bits()),
        any::<u32>(),
    ]
    .prop_map(|b| (Ty::F32, Val::F32(b)));
    let f64s = prop_oneof![
        select(vec![0.0f64, -0.0, 1.0, -1.5, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, 0.1, 9007199254740993.0, 1e21, 1e-7]).prop_map(|f| f.to_bits()),
        any::<u64>(),
    ]
    .prop_map(|b| (Ty::F64, Val::F64(b)));
    prop_oneof![f32s, f64s].boxed()
}
fn json_value() -> BoxedStrategy<serde_json::Value> {
    use serde_json::{json, Value};
    let leaf = prop_oneof![
        Just(Value::Null),
        any::<bool>().prop_map(|b| json!(b)),
        any::<i64>().prop_map(|b| json!(b)),
        any::<u64>().prop_map(|b| json!(b)),
        text().prop_map(|s| json!(s)),
    ];
    leaf.prop_recursive(2, 8, 3, |inner| {
        prop_oneof![
            vec(inner.clone(), 0..3).prop_map(Value::Array),
            vec((text(), inner), 0..3).prop_map(|v| Value::Object(v.into_iter().collect())),
        ]
    })
    .boxed()
}
pub fn json_strategy() -> BoxedStrategy<serde_json::Value> {
    json_value()
}

fn scalar(strings: BoxedStrategy<String>) -> BoxedStrategy<TV> {
    let mut alts: Vec<(u32, BoxedStrategy<TV>)> = vec![
        (2, any::<bool>().prop_map(|b| (Ty::Bool, Val::Bool(b))).boxed()),
        (2, floats()),
        (6, strings.prop_map(|s| (Ty::Str, Val::Str(s))).boxed()),
    ];
    for i in ints() {
        alts.push((1, i));
    }
    proptest::strategy::Union::new_weighted(alts).boxed()
}
fn newtype(s: BoxedStrategy<TV>) -> BoxedStrategy<TV> {
    s.prop_map(|(t, v)| (Ty::Newtype(Box::new(t)), v)).boxed()
}
fn optional(s: BoxedStrategy<TV>) -> BoxedStrategy<TV> {
    (s, any::<bool>())
        .prop_map(|((t, v), p)| {
            (
                Ty::Opt(Box::new(t)),
                if p { Val::Some(Box::new(v)) } else { Val::None },
            )
        })
        .boxed()
}

/// A path variable: any scalar. "." and ".." are excluded (no URL path can carry them).
pub fn path_tv() -> BoxedStrategy<TV> {
    let s = text().prop_map(|s| if s == "." || s == ".." { format!("{}x", s) } else { s });
    let s = scalar(prop_oneof![4 => s.boxed(), 1 => hostile_path()].boxed());
    prop_oneof![
        8 => s.clone(),
        1 => newtype(s),
        1 => json_value().prop_map(|v| (Ty::Json, Val::Json(v))),
        1 => json_value().prop_map(|v| (Ty::JsonPretty, Val::Json(v))),
    ]
    .boxed()
}
fn hostile_path() -> BoxedStrategy<String> {
    hostile()
        .prop_map(|s| {
            let s: String = s.chars().take(60).collect();
            if s == "." || s == ".." {
                String::new()
            } else {
                s
            }
        })
        .boxed()
}
pub fn query_tv() -> BoxedStrategy<TV> {
    let s = scalar(prop_oneof![4 => text(), 1 => hostile().prop_map(|s| s.chars().take(60).collect()).boxed()].boxed());
    prop_oneof![
        6 => s.clone(),
        4 => optional(s.clone()),
        1 => newtype(s.clone()),
        1 => optional(newtype(s.clone())),
        // A newtype around an option cannot be left out (serde), so it is always present.
        1 => newtype(s.prop_map(|(t, v)| (Ty::Opt(Box::new(t)), Val::Some(Box::new(v)))).boxed()),
        1 => json_value().prop_map(|v| (Ty::Json, Val::Json(v))),
        1 => json_value().prop_map(|v| (Ty::JsonPretty, Val::Json(v))),
    ]
    .boxed()
}
pub fn header_tv() -> BoxedStrategy<TV> {
    let s = scalar(header_text());
    prop_oneof![
        6 => s.clone(),
        4 => optional(s.clone()),
        1 => newtype(s.clone()),
        1 => optional(newtype(s)),
        1 => json_value().prop_map(|v| (Ty::Json, Val::Json(clean_json(v)))),
        1 => select(vec!["application/json", "x", "text/plain; charset=utf-8", "no-cache"]).prop_map(|s| (Ty::UnitStruct(s.to_string()), Val::Unit)),
        1 => header_bytes().prop_map(|b| (Ty::Bytes, Val::Bytes(b))),
    ]
    .boxed()
}
/// JSON texts may contain raw U+007F, which is not allowed in header values.
fn clean_json(v: serde_json::Value) -> serde_json::Value {
    let s = v.to_string().replace('\u{7f}', "x");
    serde_json::from_str(&s).unwrap_or(serde_json::Value::Null)
}
fn header_bytes() -> BoxedStrategy<Vec<u8>> {
    vec(prop_oneof![0x21u8..0x7f, 0x80u8..=0xff, Just(b' '), Just(b'\t')], 0..10)
        .prop_map(|mut v| {
            while v.first().map_or(false, |b| *b == b' ' || *b == b'\t') {
                v.remove(0);
            }
            while v.last().map_or(false, |b| *b == b' ' || *b == b'\t') {
                v.pop();
            }
            v
        })
        .boxed()
}

pub fn unique<T, K: Eq + std::hash::Hash + Clone>(v: Vec<T>, k: impl Fn(&T) -> K) -> Vec<T> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter().filter(|x| seen.insert(k(x))).collect()
}

pub fn query_name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec!["foo", "bar", "baz", "id", "name", "x", "y", "path", "query", "header", "status"]).prop_map(|s| s.to_string()),
        1 => vec(ch(), 0..8).prop_map(|v| v.into_iter().collect::<String>()),
        1 => select(TRICKY).prop_map(|s| s.to_string()),
        1 => (0u8..40).prop_map(|n| format!("f{}", n)),
    ]
    .boxed()
}
/// A number of fields: mostly few, sometimes many.
fn some<S: Strategy + Clone + 'static>(s: S, few: usize, many: usize) -> BoxedStrategy<Vec<S::Value>>
where
    S::Value: Clone + 'static,
{
    prop_oneof![
        14 => vec(s.clone(), 0..few),
        1 => vec(s, few..many),
    ]
    .boxed()
}
pub fn header_name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec!["x-foo", "x-bar", "accept", "content-type", "authorization", "x", "etag", "host", "user-agent", "connection", "x-1", "status"]).prop_map(|s| s.to_string()),
        1 => vec(select("abcxyz0189-_!#$%&'*+.^`|~".chars().collect::<Vec<_>>()), 1..10).prop_map(|v| v.into_iter().collect::<String>()),
        1 => (0u8..40).prop_map(|n| format!("x-f{}", n)),
    ]
    .prop_filter("framing header", |s| s != "content-length" && s != "transfer-encoding")
    .boxed()
}

/// The name of a struct field, sometimes with upper case letters.
pub fn header_field_name() -> BoxedStrategy<String> {
    (header_name(), 0u8..10)
        .prop_map(|(n, k)| match k {
            0 => n.to_ascii_uppercase(),
            1 | 2 => {
                let mut up = true;
                n.chars()
                    .map(|c| {
                        let x = if up { c.to_ascii_uppercase() } else { c };
                        up = c == '-';
                        x
                    })
                    .collect()
            }
            _ => n,
        })
        .boxed()
}

pub type Fields = (FieldsTy, FieldsVal);

pub fn query_fields() -> BoxedStrategy<Fields> {
    let st = some((query_name(), query_tv()), 5, 40).prop_map(|v| {
        let v = unique(v, |x| x.0.clone());
        (
            FieldsTy::Struct(v.iter().map(|(n, (t, _))| (n.clone(), t.clone())).collect()),
            FieldsVal::Struct(v.into_iter().map(|(_, (_, v))| v).collect()),
        )
    });
    let mp = some((query_name(), text()), 5, 40).prop_map(|v| {
        let v = unique(v, |x| x.0.clone());
        (
            FieldsTy::Map { key: Ty::Str, val: Ty::Str },
            FieldsVal::Map(v.into_iter().map(|(k, v)| (Val::Str(k), Val::Str(v))).collect()),
        )
    });
    let mi = vec((any::<u32>(), any::<i16>()), 0..4).prop_map(|v| {
        let v = unique(v, |x| x.0);
        (
            FieldsTy::Map { key: Ty::U32, val: Ty::I16 },
            FieldsVal::Map(v.into_iter().map(|(k, v)| (Val::U(k as u64), Val::I(v as i64))).collect()),
        )
    });
    let mb = vec((any::<bool>(), any::<bool>()), 0..2).prop_map(|v| {
        let v = unique(v, |x| x.0);
        (
            FieldsTy::Map { key: Ty::Bool, val: Ty::Bool },
            FieldsVal::Map(v.into_iter().map(|(k, v)| (Val::Bool(k), Val::Bool(v))).collect()),
        )
    });
    prop_oneof![8 => st, 2 => mp, 1 => mi, 1 => mb].boxed()
}
pub fn header_fields() -> BoxedStrategy<Fields> {
    let st = some((header_field_name(), header_tv()), 5, 29).prop_map(|v| {
        let v = unique(v, |x| x.0.to_ascii_lowercase());
        (
            FieldsTy::Struct(v.iter().map(|(n, (t, _))| (n.clone(), t.clone())).collect()),
            FieldsVal::Struct(v.into_iter().map(|(_, (_, v))| v).collect()),
        )
    });
    let mp = some((header_name(), header_text()), 5, 29).prop_map(|v| {
        let v = unique(v, |x| x.0.clone());
        (
            FieldsTy::Map { key: Ty::Str, val: Ty::Str },
            FieldsVal::Map(v.into_iter().map(|(k, v)| (Val::Str(k), Val::Str(v))).collect()),
        )
    });
    prop_oneof![6 => st, 1 => mp].boxed()
}

pub fn constant() -> BoxedStrategy<String> {
    prop_oneof![
        6 => select(vec!["foo", "bar", "baz", "v1", "users", "a", "b"]).prop_map(|s| s.to_string()),
        1 => vec(ch(), 1..6).prop_map(|v| v.into_iter().collect::<String>()),
        1 => select(vec!["hello world", "é", "a%b", "100%", "a/b", "x y", "%41", "a+b", "漢字", "a?b", "q#r", "~", "...", "a;b", "[x]"]).prop_map(|s| s.to_string()),
    ]
    .prop_map(|s| if s == "." || s == ".." { "dot".to_string() } else { s })
    .boxed()
}

/// Entry point segments with the values of their variables.
pub fn entry(max: usize) -> BoxedStrategy<Vec<Result<String, TV>>> {
    let seg = prop_oneof![
        3 => constant().prop_map(Ok),
        2 => path_tv().prop_map(Err),
    ];
    some(seg, max, 20)
}

pub fn body() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        2 => Just(Vec::new()),
        3 => vec(any::<u8>(), 0..40),
        2 => text().prop_map(|s| s.into_bytes()),
        3 => (select(vec![65usize, 1000, 1023, 1024, 1025, 2047, 2048, 4096, 8000, 8095, 8096, 8097, 8192, 10000, 16384, 40000, 65535, 65536, 65537]), any::<u8>()).prop_map(|(n, s)| bodyfmt::pattern(n, s)),
        2 => (65usize..9000, any::<u8>()).prop_map(|(n, s)| bodyfmt::pattern(n, s)),
    ]
    .boxed()
}
pub fn big_body() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        30 => body(),
        1 => (100_000usize..3_000_000, any::<u8>()).prop_map(|(n, s)| bodyfmt::pattern(n, s)),
    ]
    .boxed()
}

pub fn method() -> BoxedStrategy<String> {
    prop_oneof![
        3 => select(vec!["GET", "POST", "PUT", "DELETE", "HEAD"]),
        2 => select(METHODS),
    ]
    .prop_map(|s| s.to_string())
    .boxed()
}

/// A request type with a value, given the path part.
pub fn request(max_seg: usize) -> BoxedStrategy<(Vec<Option<String>>, ReqTy, ReqVal)> {
    (
        entry(max_seg),
        proptest::option::weighted(0.7, query_fields()),
        proptest::option::weighted(0.6, header_fields()),
        big_body(),
        any::<u8>(),
        proptest::bool::weighted(0.15),
    )
        .prop_map(|(e, q, h, body, pathform, wrapped)| {
            let entry: Vec<Option<String>> = e.iter().map(|s| s.as_ref().ok().cloned()).collect();
            let vars: Vec<TV> = e.into_iter().filter_map(|s| s.err()).collect();
            let path = if vars.is_empty() {
                match pathform % 5 {
                    0 => Some(PathTy::Unit),
                    1 => Some(PathTy::UnitStruct),
                    2 => Some(PathTy::TupleStruct(vec![])),
                    _ => None,
                }
            } else {
                let tys: Vec<Ty> = vars.iter().map(|v| v.0.clone()).collect();
                // A one-field tuple struct is a newtype for serde, so it is written as a tuple.
                if pathform % 2 == 0 || tys.len() == 1 {
                    Some(PathTy::Tuple(tys))
                } else {
                    Some(PathTy::TupleStruct(tys))
                }
            };
            (
                entry,
                ReqTy {
                    path,
                    query: q.as_ref().map(|x| x.0.clone()),
                    header: h.as_ref().map(|x| x.0.clone()),
                    wrapped,
                },
                ReqVal {
                    path: vars.into_iter().map(|v| v.1).collect(),
                    query: q.map(|x| x.1),
                    header: h.map(|x| x.1),
                    body,
                },
            )
        })
        .boxed()
}

pub fn has_string(v: &Val) -> bool {
    match v {
        Val::Str(_) | Val::Json(_) | Val::Bytes(_) => true,
        Val::Some(v) => has_string(v),
        _ => false,
    }
}

/// A response type with a value of it.
pub fn response() -> BoxedStrategy<(RespTy, RespVal)> {
    let st = (
        select(STATUSES),
        proptest::option::weighted(0.7, header_fields()),
        big_body(),
        proptest::bool::weighted(0.2),
    )
        .prop_map(|((code, _), h, body, wrapped)| {
            (
                RespTy::Struct {
                    header: h.as_ref().map(|x| x.0.clone()),
                    wrapped,
                },
                RespVal {
                    status: *&code,
                    header: h.map(|x| x.1),
                    body,
                },
            )
        });
    let en = (
        vec((select(STATUSES), 0u8..8, header_fields()), 1..6),
        any::<proptest::sample::Index>(),
        big_body(),
    )
        .prop_map(|(vs, ix, body)| {
            let vs = unique(vs, |v| v.0 .0);
            let pick = ix.index(vs.len());
            let tys: Vec<(String, VariantTy)> = vs
                .iter()
                .map(|((_, n), k, h)| {
                    let t = match k {
                        0 => VariantTy::Unit,
                        1 => VariantTy::Struct(None),
                        2 => VariantTy::Newtype(None),
                        3 => VariantTy::NewtypeReq(None),
                        4 => VariantTy::Newtype(Some(h.0.clone())),
                        5 => VariantTy::NewtypeReq(Some(h.0.clone())),
                        _ => VariantTy::Struct(Some(h.0.clone())),
                    };
                    (n.to_string(), t)
                })
                .collect();
            let (s, k, h) = vs[pick].clone();
            (
                RespTy::Enum(tys),
                RespVal {
                    status: s.0,
                    header: if k >= 4 { Some(h.1) } else { None },
                    body,
                },
            )
        });
    prop_oneof![1 => st, 1 => en]
        .boxed()
}

/// The simplest response type.
pub fn plain_resp_ty() -> RespTy {
    RespTy::Struct {
        header: None,
        wrapped: false,
    }
}
pub fn ok_with(body: &[u8]) -> RespVal {
    RespVal {
        status: 200,
        header: None,
        body: body.to_vec(),
    }
}

/// Turns some fields into types that can be sent but not received.
pub fn send_only(ty: &mut Ty, val: &mut Val, bits: &mut u64) {
    let b = *bits & 3;
    *bits = bits.rotate_right(2);
    match (b, &*ty, &*val) {
        (0, Ty::Str, Val::Str(s)) if s.chars().count() == 1 => *ty = Ty::Char,
        (0, Ty::Str, Val::Str(s)) if s.len() < 16 => {
            *ty = Ty::Variant(s.clone());
            *val = Val::Unit;
        }
        (1, Ty::Opt(_), _) | (1, Ty::UnitStruct(_), _) | (1, Ty::Variant(_), _) => {}
        (1, t, _) => *ty = Ty::VariantOf(Box::new(t.clone())),
        _ => {}
    }
}
pub fn send_only_fields(ty: &mut Option<FieldsTy>, val: &mut Option<FieldsVal>, bits: &mut u64) {
    match (ty, val) {
        (Some(FieldsTy::Struct(t)), Some(FieldsVal::Struct(v))) => {
            for (t, v) in t.iter_mut().zip(v) {
                send_only(&mut t.1, v, bits);
            }
        }
        (Some(FieldsTy::Map { val: t, .. }), Some(FieldsVal::Map(m))) => {
            if *bits & 1 == 0 {
                // Values that may be absent.
                *t = Ty::Opt(Box::new(t.clone()));
                for (_, v) in m.iter_mut() {
                    *bits = bits.rotate_right(1);
                    *v = if *bits & 1 == 0 { Val::None } else { Val::Some(Box::new(v.clone())) };
                }
            }
            *bits = bits.rotate_right(1);
        }
        _ => {}
    }
}
