//! Reference models: the textual form of values, decoding of values, routing.
use crate::dynproc::*;
use crate::http::{form_decode, pct_decode};

/// The canonical text of a scalar; `None` for an absent option.
pub fn text_of(t: &Ty, v: &Val) -> Option<Vec<u8>> {
    Some(match (t, v) {
        (_, Val::Bool(b)) => (if *b { "true" } else { "false" }).as_bytes().to_vec(),
        (_, Val::I(i)) => i.to_string().into_bytes(),
        (_, Val::U(i)) => i.to_string().into_bytes(),
        (_, Val::F32(b)) => f32::from_bits(*b).to_string().into_bytes(),
        (_, Val::F64(b)) => f64::from_bits(*b).to_string().into_bytes(),
        (_, Val::Str(s)) => s.clone().into_bytes(),
        (_, Val::None) => return None,
        (Ty::Newtype(t), v) => return text_of(t, v),
        (Ty::Opt(t), Val::Some(v)) => return text_of(t, v),
        (Ty::JsonPretty, Val::Json(v)) => serde_json::to_string_pretty(v).unwrap().into_bytes(),
        (_, Val::Json(v)) => serde_json::to_string(v).unwrap().into_bytes(),
        (Ty::VariantOf(t), v) => return text_of(t, v),
        (Ty::Variant(n), Val::Unit) => n.clone().into_bytes(),
        (Ty::UnitStruct(n), Val::Unit) => n.clone().into_bytes(),
        (_, Val::Bytes(b)) => b.clone(),
        (t, v) => panic!("harness: {:?} is not a {:?}", v, t),
    })
}

#[derive(Debug, Clone, PartialEq)]
pub enum Dec {
    /// This text denotes this value.
    Must(Val),
    /// An unusual spelling (leading '+', "inf"): an error or this value.
    May(Val),
    Reject,
}
impl Dec {
    fn map(self, f: impl FnOnce(Val) -> Val) -> Dec {
        match self {
            Dec::Must(v) => Dec::Must(f(v)),
            Dec::May(v) => Dec::May(f(v)),
            Dec::Reject => Dec::Reject,
        }
    }
}

fn int(s: &str) -> Option<(i128, bool)> {
    let d = s.strip_prefix(['-', '+']).unwrap_or(s);
    if d.is_empty() || d.len() > 30 || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let v: i128 = d.parse().ok()?;
    let canonical = !s.starts_with('+') && !(s.starts_with('-') && v == 0);
    Some((if s.starts_with('-') { -v } else { v }, canonical))
}
fn signed(s: &str, min: i64, max: i64) -> Dec {
    match int(s) {
        Some((v, c)) if v >= min as i128 && v <= max as i128 => {
            if c {
                Dec::Must(Val::I(v as i64))
            } else {
                Dec::May(Val::I(v as i64))
            }
        }
        _ => Dec::Reject,
    }
}
fn unsigned(s: &str, max: u64) -> Dec {
    match int(s) {
        Some((v, c)) if v >= 0 && v <= max as i128 => {
            if c {
                Dec::Must(Val::U(v as u64))
            } else {
                Dec::May(Val::U(v as u64))
            }
        }
        _ => Dec::Reject,
    }
}
fn plain_float(s: &str) -> bool {
    // What Rust (and every float syntax) writes: -?digits[.digits]
    let d = s.strip_prefix('-').unwrap_or(s);
    let mut it = d.splitn(2, '.');
    let a = it.next().unwrap_or("");
    let b = it.next();
    let digits = |x: &str| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit());
    digits(a) && b.map_or(true, digits)
}
/// Decodes bytes (already unescaped) as a value of the type.
pub fn decode(t: &Ty, b: &[u8]) -> Dec {
    if let Ty::Bytes = t {
        return Dec::Must(Val::Bytes(b.to_vec()));
    }
    let s = match std::str::from_utf8(b) {
        Ok(s) => s,
        Err(_) => return Dec::Reject,
    };
    match t {
        Ty::Bool => match s {
            "true" => Dec::Must(Val::Bool(true)),
            "false" => Dec::Must(Val::Bool(false)),
            _ => Dec::Reject,
        },
        Ty::I8 => signed(s, i8::MIN as i64, i8::MAX as i64),
        Ty::I16 => signed(s, i16::MIN as i64, i16::MAX as i64),
        Ty::I32 => signed(s, i32::MIN as i64, i32::MAX as i64),
        Ty::I64 => signed(s, i64::MIN, i64::MAX),
        Ty::U8 => unsigned(s, u8::MAX as u64),
        Ty::U16 => unsigned(s, u16::MAX as u64),
        Ty::U32 => unsigned(s, u32::MAX as u64),
        Ty::U64 => unsigned(s, u64::MAX),
        Ty::F32 => match s.parse::<f32>() {
            Ok(v) if plain_float(s) => Dec::Must(Val::F32(v.to_bits())),
            Ok(v) => Dec::May(Val::F32(v.to_bits())),
            Err(_) => Dec::Reject,
        },
        Ty::F64 => match s.parse::<f64>() {
            Ok(v) if plain_float(s) => Dec::Must(Val::F64(v.to_bits())),
            Ok(v) => Dec::May(Val::F64(v.to_bits())),
            Err(_) => Dec::Reject,
        },
        Ty::Str => Dec::Must(Val::Str(s.to_string())),
        Ty::Opt(t) => decode(t, b).map(|v| Val::Some(Box::new(v))),
        Ty::Newtype(t) => decode(t, b),
        Ty::Json | Ty::JsonPretty => match serde_json::from_str(s) {
            Ok(v) => Dec::Must(Val::Json(v)),
            Err(_) => Dec::Reject,
        },
        Ty::Char | Ty::Variant(_) | Ty::VariantOf(_) => Dec::Reject,
        Ty::UnitStruct(n) => {
            if n == s {
                Dec::Must(Val::Unit)
            } else {
                Dec::Reject
            }
        }
        Ty::Bytes => unreachable!(),
    }
}

/// The result of decoding a whole part.
#[derive(Debug, Clone, PartialEq)]
pub enum Part<T> {
    Must(T),
    May(T),
    Reject,
}
impl<T> Part<T> {
    pub fn is_reject(&self) -> bool {
        matches!(self, Part::Reject)
    }
}

fn absent(t: &Ty) -> Option<Val> {
    match t {
        Ty::Opt(_) => Some(Val::None),
        _ => None,
    }
}

/// Decodes a list of (name, value) pairs as the fields.
pub fn decode_fields(t: &FieldsTy, pairs: &[(String, Vec<u8>)]) -> Part<FieldsVal> {
    let mut may = false;
    let v = match t {
        FieldsTy::Struct(fs) => {
            let mut out = Vec::new();
            for (n, t) in fs {
                let vs: Vec<_> = pairs.iter().filter(|p| p.0 == *n).collect();
                match vs.len() {
                    0 => match absent(t) {
                        Some(v) => out.push(v),
                        None => return Part::Reject,
                    },
                    1 => match decode(t, &vs[0].1) {
                        Dec::Must(v) => out.push(v),
                        Dec::May(v) => {
                            may = true;
                            out.push(v)
                        }
                        Dec::Reject => return Part::Reject,
                    },
                    _ => return Part::Reject,
                }
            }
            FieldsVal::Struct(out)
        }
        FieldsTy::Map { key, val } => {
            let mut out = Vec::new();
            for (k, v) in pairs {
                let k = match decode(key, k.as_bytes()) {
                    Dec::Must(v) => v,
                    Dec::May(v) => {
                        may = true;
                        v
                    }
                    Dec::Reject => return Part::Reject,
                };
                let v = match decode(val, v) {
                    Dec::Must(v) => v,
                    Dec::May(v) => {
                        may = true;
                        v
                    }
                    Dec::Reject => return Part::Reject,
                };
                out.push((k, v));
            }
            FieldsVal::Map(out)
        }
    };
    if may {
        Part::May(v)
    } else {
        Part::Must(v)
    }
}

pub fn decode_query(t: &FieldsTy, q: &str) -> Part<FieldsVal> {
    let pairs: Vec<(String, Vec<u8>)> = form_decode(q)
        .into_iter()
        .map(|(k, v)| (k, v.into_bytes()))
        .collect();
    decode_fields(t, &pairs)
}
pub fn decode_headers(t: &FieldsTy, h: &[(String, Vec<u8>)]) -> Part<FieldsVal> {
    // Names of struct fields are compared without regard to case; maps see lower case.
    let name = |k: &str| match t {
        FieldsTy::Struct(f) => f.iter().find(|x| x.0.eq_ignore_ascii_case(k)).map(|x| x.0.clone()),
        _ => None,
    };
    let pairs: Vec<(String, Vec<u8>)> =
        h.iter().map(|(k, v)| (name(k).unwrap_or_else(|| k.to_ascii_lowercase()), v.clone())).collect();
    decode_fields(t, &pairs)
}

/// Decodes raw path segments against an entry point.
pub fn decode_path(t: &PathTy, entry: &[Option<String>], segs: &[&str]) -> Part<Vec<Val>> {
    let tys = t.tys();
    if entry.len() != segs.len() || entry.iter().filter(|s| s.is_none()).count() != tys.len() {
        return Part::Reject;
    }
    let mut may = false;
    let mut out = Vec::new();
    let mut it = tys.iter();
    for (e, s) in entry.iter().zip(segs) {
        let d = match pct_decode(s) {
            Some(d) => d,
            None => return Part::Reject,
        };
        match e {
            Some(c) => {
                if c.as_bytes() != &d[..] {
                    return Part::Reject;
                }
            }
            None => match decode(it.next().unwrap(), &d) {
                Dec::Must(v) => out.push(v),
                Dec::May(v) => {
                    may = true;
                    out.push(v)
                }
                Dec::Reject => return Part::Reject,
            },
        }
    }
    if may {
        Part::May(out)
    } else {
        Part::Must(out)
    }
}

pub type Route = (String, Vec<Option<String>>);

/// Where a request has to go: the index of the registration, or 404 / 405.
/// Segments are decoded; `None` stands for one that cannot be decoded (equal to no constant).
pub fn route(regs: &[Route], method: &str, segs: &[Option<Vec<u8>>]) -> Result<usize, u16> {
    let fits = |e: &[Option<String>]| {
        if e.is_empty() {
            // The path "/" is the root.
            return segs.len() == 1 && segs[0].as_ref().map_or(false, |s| s.is_empty());
        }
        e.len() == segs.len()
            && e.iter().zip(segs).all(|(c, s)| match c {
                None => true,
                Some(c) => s.as_ref().map_or(false, |s| s == c.as_bytes()),
            })
    };
    let matching: Vec<usize> = (0..regs.len()).filter(|i| fits(&regs[*i].1)).collect();
    if matching.is_empty() {
        return Err(404);
    }
    // false (constant) sorts before true (variable), leftmost segment first.
    matching
        .into_iter()
        .filter(|i| regs[*i].0 == method)
        .min_by_key(|i| regs[*i].1.iter().map(|s| s.is_none()).collect::<Vec<_>>())
        .ok_or(405)
}

/// The (name, value) pairs a part has to be sent as, in order.
pub fn encode_fields(t: &FieldsTy, v: &FieldsVal) -> Vec<(String, Vec<u8>)> {
    match (t, v) {
        (FieldsTy::Struct(f), FieldsVal::Struct(v)) => f
            .iter()
            .zip(v)
            .filter_map(|((n, t), v)| text_of(t, v).map(|x| (n.clone(), x)))
            .collect(),
        (FieldsTy::Map { key, val }, FieldsVal::Map(m)) => m
            .iter()
            .filter_map(|(k, v)| {
                let k = text_of(key, k)?;
                let v = text_of(val, v)?;
                Some((String::from_utf8(k).unwrap(), v))
            })
            .collect(),
        _ => panic!("harness: fields do not fit their type"),
    }
}

/// The header part of the variant or struct a response of this status has.
pub fn resp_header_ty(t: &RespTy, status: u16) -> Option<FieldsTy> {
    match t {
        RespTy::Struct { header, .. } => header.clone(),
        RespTy::Enum(vs) => vs
            .iter()
            .find(|(n, _)| *n == status_name(status))
            .and_then(|(_, v)| match v {
                VariantTy::Unit => None,
                VariantTy::Struct(h) | VariantTy::Newtype(h) | VariantTy::NewtypeReq(h) => h.clone(),
            }),
    }
}
