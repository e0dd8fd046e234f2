//! C17: the path, query and header decoders called directly, against the reference decoders.
use crate::dynproc::*;
use crate::engine::*;
use crate::gen;
use crate::props::c06::{build, Edit, WRONG};
use crate::refmodel::{self, Part};
use htrpc::deserializers::{HttpHeaderDeserializer, UrlPathDeserializer, UrlQueryDeserializer};
use miasht::header::Headers;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::de::DeserializeSeed;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use url::Url;

/// A piece of a free-form query or path.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Bit {
    /// The name of a declared field.
    Name(u8),
    Text(String),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Case {
    /// A canonical request, edited: all three decoders.
    Edited { entry: Vec<Option<String>>, ty: ReqTy, val: ReqVal, edits: Vec<Edit> },
    /// A free-form URL path against an entry point and a type (of any arity).
    Path { entry: Vec<Option<String>>, ty: PathTy, url: String },
    Query { ty: FieldsTy, bits: Vec<Bit> },
    Header { ty: FieldsTy, headers: Vec<(Bit, Vec<u8>, u8)> },
    /// Types with derived implementations.
    Derived { pairs: Vec<(u8, String)>, unknown: u8 },
    DerivedPath { segs: Vec<String> },
}

pub fn path_segments(url: &Url) -> Option<Vec<String>> {
    let p = url.path();
    if url.cannot_be_a_base() {
        return None;
    }
    Some(p.strip_prefix('/').unwrap_or(p).split('/').map(|s| s.to_string()).collect())
}

fn judge<T: PartialEq + std::fmt::Debug, E: std::fmt::Display>(
    what: &str,
    expect: Part<T>,
    got: Result<T, E>,
) -> Result<&'static str, Fault> {
    match (expect, got) {
        (Part::Must(e), Ok(g)) => {
            ensure!(e == g, "{}: decoded as {:?} instead of {:?}", what, g, e);
            Ok("accepted")
        }
        (Part::Must(e), Err(x)) => violation!("{}: refused ({}) though it denotes {:?}", what, x, e),
        (Part::May(e), Ok(g)) => {
            ensure!(e == g, "{}: decoded as {:?} instead of {:?} or an error", what, g, e);
            Ok("unusual spelling accepted")
        }
        (Part::May(_), Err(_)) => Ok("unusual spelling refused"),
        (Part::Reject, Ok(g)) => violation!("{}: decoded as {:?} instead of an error", what, g),
        (Part::Reject, Err(_)) => Ok("refused"),
    }
}

fn reference_path(t: &PathTy, entry: &[Option<String>], segs: &[String]) -> Part<Vec<Val>> {
    let refs: Vec<&str> = segs.iter().map(|s| &s[..]).collect();
    if entry.is_empty() && refs == [""] {
        refmodel::decode_path(t, entry, &[])
    } else if entry.is_empty() {
        Part::Reject
    } else {
        refmodel::decode_path(t, entry, &refs)
    }
}

fn check_path(entry: &[Option<String>], ty: &PathTy, url: &Url) -> Result<&'static str, Fault> {
    let what = format!("path {:?} for entry point {:?} as {:?}", url.path(), entry, ty);
    let d = UrlPathDeserializer::new(entry_point(entry), url);
    let segs = match path_segments(url) {
        None => {
            ensure!(d.is_err(), "{}: accepted a URL without path segments", what);
            return Ok("no path");
        }
        Some(s) => s,
    };
    let mut d = match d {
        Ok(d) => d,
        Err(e) => violation!("{}: no decoder: {}", what, e),
    };
    judge(&what, reference_path(ty, entry, &segs), PathSeed(ty).deserialize(&mut d))
}
fn check_query(ty: &FieldsTy, url: &Url) -> Result<&'static str, Fault> {
    let what = format!("query {:?} as {:?}", url.query(), ty);
    let mut d = UrlQueryDeserializer::new(url.query_pairs());
    judge(&what, refmodel::decode_query(ty, url.query().unwrap_or("")), FieldsSeed(ty).deserialize(&mut d))
}
fn check_headers(ty: &FieldsTy, headers: &[(String, Vec<u8>)]) -> Result<&'static str, Fault> {
    let what = format!(
        "headers {:?} as {:?}",
        headers.iter().map(|(n, v)| (n, String::from_utf8_lossy(v))).collect::<Vec<_>>(),
        ty
    );
    let raw: Vec<httparse::Header> =
        headers.iter().map(|(n, v)| httparse::Header { name: n, value: v }).collect();
    let h = Headers::new(&raw);
    let mut d = HttpHeaderDeserializer::new(&h);
    judge(&what, refmodel::decode_headers(ty, headers), FieldsSeed(ty).deserialize(&mut d))
}

fn recase(n: &str, c: u8) -> String {
    n.bytes()
        .enumerate()
        .map(|(i, b)| {
            if c.rotate_left(i as u32 % 8) & 1 == 1 {
                b.to_ascii_uppercase() as char
            } else {
                b as char
            }
        })
        .collect()
}

// ------------------------------------------------------------ derived types

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Wrap(i16);

fn minus_one() -> i32 {
    -1
}
#[derive(Debug, PartialEq, Deserialize)]
struct Fields {
    b: bool,
    i: i8,
    u: Option<u32>,
    f: Option<f64>,
    s: String,
    #[serde(rename = "x-y")]
    renamed: Option<String>,
    n: Option<Wrap>,
    #[serde(default = "minus_one")]
    d: i32,
    #[serde(with = "htrpc::json")]
    j: Vec<u8>,
    z: Option<usize>,
}
#[derive(Debug, Deserialize)]
#[serde(deny_unknown_fields)]
struct Strict {
    #[serde(rename = "b")]
    _b: Option<bool>,
}
#[derive(Debug, PartialEq, Deserialize)]
struct Args(String, u16, Wrap, bool);

const NAMES: &[&str] = &["b", "i", "u", "f", "s", "x-y", "n", "d", "j", "z"];

fn one<T: std::str::FromStr>(m: &BTreeMap<&str, Vec<&str>>, n: &str) -> Result<Option<T>, ()> {
    match m.get(n).map(|v| &v[..]) {
        None => Ok(None),
        Some([x]) => x.parse().map(Some).map_err(|_| ()),
        _ => Err(()),
    }
}
fn fields_reference(pairs: &[(String, String)]) -> Result<Fields, ()> {
    let mut m: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
    for (k, v) in pairs {
        m.entry(k).or_default().push(v);
    }
    let j: String = one(&m, "j")?.ok_or(())?;
    Ok(Fields {
        b: one(&m, "b")?.ok_or(())?,
        i: one(&m, "i")?.ok_or(())?,
        u: one(&m, "u")?,
        f: one(&m, "f")?,
        s: one(&m, "s")?.ok_or(())?,
        renamed: one(&m, "x-y")?,
        n: one(&m, "n")?.map(Wrap),
        d: one(&m, "d")?.unwrap_or(-1),
        j: serde_json::from_str(&j).map_err(|_| ())?,
        z: one(&m, "z")?,
    })
}
/// Floats compare by bits (NaN), spellings with '+' may be refused.
fn lenient(pairs: &[(String, String)]) -> bool {
    pairs.iter().any(|(_, v)| v.starts_with('+') || v.parse::<f64>().map_or(false, |f| !f.is_finite()))
}

pub struct C17;
impl Property for C17 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "generated target types with edited canonical requests, free-form URLs, queries and header lists, decoded directly; non-trivial if there is at least one field, variable or pair to decode"
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "header names are tokens, as the HTTP parser guarantees".into(),
            "spellings such as +1, -0 for unsigned types, NaN, inf, 1e5 may be refused or accepted with the value they denote".into(),
        ]
    }
    fn cases(&self) -> u64 {
        250_000
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        let edited = (gen::request(5), vec(crate::props::c06::edit(), 0..5)).prop_map(
            |((entry, ty, mut val), edits)| {
                val.body = vec![];
                Case::Edited { entry, ty, val, edits }
            },
        );
        let seg = prop_oneof![
            3 => gen::constant().prop_map(|s| crate::http::pct_encode(s.as_bytes())),
            2 => gen::constant(),
            3 => select(WRONG).prop_map(|s| s.to_string()),
            1 => select(WRONG).prop_map(|s| crate::http::pct_encode(s.as_bytes())),
            2 => vec(select(vec!["%", "2", "f", "F", "e", "E9", "%41", "%c3%a9", "%ff", "%00", "a", "é", "+", ".", ";", "=", "?", "#", "\\", " ", "/", "%2F", "%25", "%zz", "漢", "%e6%bc%a2", "%F0%9F%98%80", "%ED%A0%80", "%C0%80"]), 0..5).prop_map(|v| v.concat()),
        ];
        let url = prop_oneof![
            12 => vec(seg, 0..5).prop_map(|v| format!("http://localhost/{}", v.join("/"))),
            1 => select(vec!["http://localhost", "http://localhost/", "http://localhost//", "mailto:a@b", "data:x", "about:blank", "http://localhost/?x=1", "file:///a/b", "http://localhost/foo/", "http://localhost//foo", "http://localhost/foo?/bar", "http://localhost/foo#/bar", "http://localhost/%", "http://localhost/a%", "http://localhost/a%4"]).prop_map(|s| s.to_string()),
        ];
        let path = (gen::entry(5), url, any::<u8>(), vec(gen::path_tv(), 0..4)).prop_map(|(e, url, form, other)| {
            let entry: Vec<Option<String>> = e.iter().map(|s| s.as_ref().ok().cloned()).collect();
            let mut tys: Vec<Ty> = e.into_iter().filter_map(|s| s.err()).map(|v| v.0).collect();
            if form % 8 == 0 {
                // An arity that may not fit the entry point.
                tys = other.into_iter().map(|v| v.0).collect();
            }
            let ty = match (tys.len(), form / 8 % 4) {
                (0, 0) => PathTy::Unit,
                (0, 1) => PathTy::UnitStruct,
                (1, _) => PathTy::Tuple(tys),
                (_, 2) => PathTy::TupleStruct(tys),
                _ => PathTy::Tuple(tys),
            };
            Case::Path { entry, ty, url }
        });
        // Paths that fit the entry point, with free-form variables.
        let fitting = (gen::request(5), any::<u8>(), vec(select(WRONG), 0..3), any::<u8>()).prop_map(
            |((entry, ty, val, ), m, texts, raw)| {
                let mut k = 0;
                let segs: Vec<String> = entry
                    .iter()
                    .enumerate()
                    .map(|(i, e)| {
                        let t = match e {
                            Some(c) => c.clone().into_bytes(),
                            None => {
                                let t = ty.path.as_ref().map(|p| p.tys()[k].clone()).unwrap();
                                k += 1;
                                match texts.get(i) {
                                    Some(t) => t.as_bytes().to_vec(),
                                    None => refmodel::text_of(&t, &val.path[k - 1]).unwrap(),
                                }
                            }
                        };
                        if m.rotate_left(i as u32) & 1 == 1 {
                            t.iter().map(|b| format!("%{:02x}", b)).collect()
                        } else {
                            crate::http::pct_encode(&t).replace("%2E", ".")
                        }
                    })
                    .collect();
                let mut url = format!("http://localhost/{}", segs.join("/"));
                match raw % 16 {
                    0 => url.push('/'),
                    1 => url.push_str("/x"),
                    2 => url.push_str("%"),
                    3 => url = url.replacen("localhost/", "localhost//", 1),
                    4 => url.push_str("?a=b#c"),
                    _ => {}
                }
                Case::Path { entry, ty: ty.path.unwrap_or(PathTy::Unit), url }
            },
        );
        let bit = prop_oneof![
            3 => any::<u8>().prop_map(Bit::Name),
            4 => select(vec!["=", "&", "=", "&", "+", "%", "%41", "%C3%A9", "%ff", "%00", "%3D", "%26", "%2B", ";", "a", "1", "true", "é", " ", "?", "/", "&&", "==", "-1", "0", "foo", "bar", "%zz", "%4"]).prop_map(|s| Bit::Text(s.into())),
            2 => select(WRONG).prop_map(|s| Bit::Text(format!("={}&", s))),
            1 => gen::text().prop_map(|s| Bit::Text(s)),
        ];
        let query = (gen::query_fields(), vec(bit.clone(), 0..12)).prop_map(|(f, bits)| Case::Query { ty: f.0, bits });
        let hname = prop_oneof![
            3 => any::<u8>().prop_map(Bit::Name),
            1 => gen::header_name().prop_map(Bit::Text),
            1 => select(vec!["content-length", "transfer-encoding", "host", "X-Foo", "Accept"]).prop_map(|s| Bit::Text(s.into())),
        ];
        let hval = prop_oneof![
            3 => select(WRONG).prop_map(|s| s.as_bytes().to_vec()),
            2 => gen::header_text().prop_map(|s| s.into_bytes()),
            1 => vec(any::<u8>(), 0..6),
        ];
        let header = (gen::header_fields(), vec((hname, hval, any::<u8>()), 0..6))
            .prop_map(|(f, headers)| Case::Header { ty: f.0, headers });
        let dpair = (0u8..NAMES.len() as u8).prop_flat_map(|i| {
            let v: BoxedStrategy<String> = match i {
                0 => select(vec!["true", "false", "true", "false", "", "1"]).prop_map(|s| s.into()).boxed(),
                8 => prop_oneof![3 => vec(any::<u8>(), 0..4).prop_map(|v| serde_json::to_string(&v).unwrap()), 1 => select(vec!["[256]", "[", "", "[1,]", "{}", "[ 1 ]", "[-1]"]).prop_map(|s| s.into())].boxed(),
                4 | 5 => gen::text(),
                3 => prop_oneof![any::<f64>().prop_map(|f| f.to_string()), select(WRONG).prop_map(|s| s.to_string())].boxed(),
                _ => prop_oneof![2 => (-200i64..200).prop_map(|i| i.to_string()), 1 => select(WRONG).prop_map(|s| s.to_string()), 1 => any::<u32>().prop_map(|i| i.to_string())].boxed(),
            };
            (Just(i), v)
        });
        let derived = (vec(dpair.clone(), NAMES.len()), vec(dpair, 0..3), any::<u16>(), any::<u8>()).prop_map(|(mut all, extra, drop, unknown)| {
            // One pair per name mostly, plus repetitions, minus some.
            for (i, p) in all.iter_mut().enumerate() {
                if p.0 != i as u8 {
                    *p = match i {
                        0 => (0, "true".into()),
                        4 => (4, p.1.clone()),
                        5 => (5, p.1.clone()),
                        8 => (8, "[1,2]".into()),
                        3 => (3, "1.5".into()),
                        _ => (i as u8, (i * 11).to_string()),
                    };
                }
            }
            let mut pairs: Vec<(u8, String)> = all.into_iter().enumerate().filter(|(i, _)| drop >> i & 1 == 0 || [0, 1, 4, 8].contains(i) && drop & 0x8000 == 0).map(|(_, p)| p).collect();
            if unknown & 7 == 7 {
                pairs.extend(extra);
            }
            if unknown & 8 == 8 {
                pairs.reverse();
            }
            Case::Derived { pairs, unknown }
        });
        let dpath = vec(prop_oneof![2 => gen::text(), 1 => select(WRONG).prop_map(|s| s.to_string()), 1 => select(vec!["12", "-3", "true", "false", "65535"]).prop_map(|s| s.to_string())], 4)
            .prop_map(|segs| Case::DerivedPath { segs });
        prop_oneof![6 => edited, 2 => path, 3 => fitting, 3 => query, 3 => header, 2 => derived, 1 => dpath].boxed()
    }
    fn run(&self, case: &Case) -> Verdict {
        match case {
            Case::Edited { entry, ty, val, edits } => {
                let p = build(entry, ty, val, edits);
                let url = match Url::parse(&format!("http://localhost{}", p.target().replacen("http://example.com", "", 1))) {
                    Ok(u) => u,
                    Err(_) => return Ok(Info::new(false)),
                };
                let mut info = Info::new(!entry.is_empty() || ty.query.is_some() || ty.header.is_some());
                if let Some(t) = &ty.path {
                    info = info.class(format!("path {}", check_path(entry, t, &url)?));
                }
                if let Some(t) = &ty.query {
                    info = info.class(format!("query {}", check_query(t, &url)?));
                }
                if let Some(t) = &ty.header {
                    info = info.class(format!("header {}", check_headers(t, &p.headers)?));
                }
                Ok(info)
            }
            Case::Path { entry, ty, url } => {
                let url = match Url::parse(url) {
                    Ok(u) => u,
                    Err(_) => return Ok(Info::new(false)),
                };
                let c = check_path(entry, ty, &url)?;
                Ok(Info::new(true).class(format!("path {}", c)))
            }
            Case::Query { ty, bits } => {
                let names: Vec<String> = match ty {
                    FieldsTy::Struct(f) => f.iter().map(|x| x.0.clone()).collect(),
                    _ => vec!["k".into(), "7".into()],
                };
                let mut q = String::new();
                for b in bits {
                    match b {
                        Bit::Name(i) if !names.is_empty() => {
                            q.push_str(&format!("&{}=", crate::http::pct_encode(names[*i as usize % names.len()].as_bytes())))
                        }
                        Bit::Name(_) => {}
                        Bit::Text(t) => q.push_str(t),
                    }
                }
                let mut url = Url::parse("http://localhost/").unwrap();
                url.set_query(Some(&q));
                let c = check_query(ty, &url)?;
                Ok(Info::new(!q.is_empty()).class(format!("query {}", c)))
            }
            Case::Header { ty, headers } => {
                let names: Vec<String> = match ty {
                    FieldsTy::Struct(f) => f.iter().map(|x| x.0.clone()).collect(),
                    _ => vec!["k".into()],
                };
                let hs: Vec<(String, Vec<u8>)> = headers
                    .iter()
                    .filter_map(|(n, v, c)| {
                        let n = match n {
                            Bit::Name(i) if !names.is_empty() => names[*i as usize % names.len()].clone(),
                            Bit::Name(_) => return None,
                            Bit::Text(t) => t.clone(),
                        };
                        Some((recase(&n, *c), v.clone()))
                    })
                    .collect();
                let c = check_headers(ty, &hs)?;
                Ok(Info::new(!hs.is_empty()).class(format!("header {}", c)))
            }
            Case::Derived { pairs, unknown } => {
                let mut pairs: Vec<(String, String)> =
                    pairs.iter().map(|(i, v)| (NAMES[*i as usize].to_string(), v.clone())).collect();
                let strict_names: Vec<String> = pairs.iter().map(|p| p.0.clone()).collect();
                if unknown & 0x10 == 0x10 {
                    pairs.insert(*unknown as usize % (pairs.len() + 1), ("unknown".into(), "b=&".into()));
                    pairs.push(("unknown".into(), String::new()));
                }
                let mut url = Url::parse("http://localhost/").unwrap();
                url.query_pairs_mut().extend_pairs(pairs.iter());
                let expect = fields_reference(&pairs);
                let show = |r: &Result<Fields, String>| format!("{:?}", r);
                let compare = |what: &str, pairs: &[(String, String)], g: Result<Fields, String>| -> Result<(), Fault> {
                    let e = fields_reference(pairs);
                    match (&e, &g) {
                        (Ok(e), Ok(g)) => ensure!(format!("{:?}", e) == format!("{:?}", g), "{} {:?}: {:?} instead of {:?}", what, pairs, g, e),
                        (Ok(_), Err(_)) if lenient(pairs) => {}
                        (Err(_), Err(_)) => {}
                        (e, _) => violation!("{} {:?}: {} instead of {:?}", what, pairs, show(&g), e),
                    }
                    Ok(())
                };
                let g = Fields::deserialize(&mut UrlQueryDeserializer::new(url.query_pairs())).map_err(|e| e.to_string());
                compare("query", &pairs, g)?;
                // As headers (values of visible characters only), names in any case.
                if pairs.iter().all(|p| !p.1.chars().any(|c| c.is_control())) {
                    let names: Vec<String> = pairs.iter().map(|p| recase(&p.0, *unknown)).collect();
                    let raw: Vec<httparse::Header> = pairs
                        .iter()
                        .zip(&names)
                        .map(|((_, v), n)| httparse::Header { name: n, value: v.as_bytes() })
                        .collect();
                    let h = Headers::new(&raw);
                    let g = Fields::deserialize(&mut HttpHeaderDeserializer::new(&h)).map_err(|e| e.to_string());
                    compare("headers", &pairs, g)?;
                }
                // A type that refuses unknown fields refuses them.
                let strict = Strict::deserialize(&mut UrlQueryDeserializer::new(url.query_pairs()));
                if strict_names.iter().any(|n| n != "b") {
                    ensure!(strict.is_err(), "query {:?}: unknown fields accepted by a type that denies them", pairs);
                }
                // A map holds every pair.
                let m = BTreeMap::<String, String>::deserialize(&mut UrlQueryDeserializer::new(url.query_pairs()));
                let all: BTreeMap<String, String> = pairs.iter().cloned().collect();
                match m {
                    Ok(m) => ensure!(m == all, "query {:?} as a map: {:?}", pairs, m),
                    Err(e) => violation!("query {:?} as a map: {}", pairs, e),
                }
                Ok(Info::new(true).class(if expect.is_ok() { "derived accepted" } else { "derived refused" }))
            }
            Case::DerivedPath { segs } => {
                let entry = entry_point(&[None, Some("x".into()), None, None, None]);
                let enc: Vec<String> = segs.iter().map(|s| crate::http::pct_encode(s.as_bytes())).collect();
                let url = format!("http://localhost/{}/x/{}", enc[0], enc[1..].join("/"));
                let url = Url::parse(&url).unwrap();
                if path_segments(&url).map_or(0, |s| s.len()) != 5 {
                    return Ok(Info::new(false).class("dot segments"));
                }
                let mut d = UrlPathDeserializer::new(entry, &url).map_err(|e| Fault::Violation(e.to_string()))?;
                let g = Args::deserialize(&mut d);
                let e = (|| -> Option<Args> {
                    Some(Args(segs[0].clone(), segs[1].parse().ok()?, Wrap(segs[2].parse().ok()?), segs[3].parse().ok()?))
                })();
                match (e, g) {
                    (Some(e), Ok(g)) => ensure!(e == g, "path {}: {:?} instead of {:?}", url, g, e),
                    (Some(_), Err(_)) if segs.iter().any(|s| s.starts_with('+')) => {}
                    (None, Err(_)) => {}
                    (e, g) => violation!("path {}: {:?} instead of {:?}", url, g.map_err(|e| e.to_string()), e),
                }
                Ok(Info::new(true).class("derived path"))
            }
        }
    }
}
