//! C19: whatever a server sends, a call resolves, with what was sent or an error.
use crate::dynproc::*;
use crate::engine::*;
use crate::gen;
use crate::http;
use crate::props::c02::{accept, empty_req, raw_response, Calls};
use crate::refmodel::{self, Part};
use crate::sim::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum End {
    HalfClose,
    Close,
    Reset,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Tweak {
    Http10,
    Reason(String),
    /// The reason phrase of another status: of one of the response type's variants, or of any.
    ReasonOf { at: u8, spaced: bool, declared: bool },
    Status(u16),
    /// Content-Length with this text.
    Length(String),
    NoLength,
    /// A second Content-Length with this text.
    SecondLength(String),
    Chunked,
    Extra { at: u8, name: String, value: Vec<u8> },
    Many(u8),
    /// The n-th field twice.
    Repeat(u8),
    Drop(u8),
    Value { at: u8, text: String },
    Case(u8),
    Rotate(u8),
    Blanks { at: u8, before: String, after: String },
    /// A field that makes the head this much longer.
    Long(u16),
    /// Line ends of the n-th line.
    BareLf(u8),
    Before(Vec<u8>),
    After(Vec<u8>),
    Byte { at: u16, to: u8 },
    Insert { at: u16, what: Vec<u8> },
    Delete { at: u16, n: u8 },
    Cut(u16),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub method: String,
    pub ty: RespTy,
    pub val: RespVal,
    pub tweaks: Vec<Tweak>,
    pub seg: Seg,
    pub end: End,
    pub pooled: bool,
    /// Wholly other bytes.
    #[serde(default)]
    pub noise: Option<Vec<u8>>,
}

/// The phrase a status is known by: "NotFound" as "Not Found".
fn phrase(name: &str) -> String {
    if name.len() <= 3 {
        return name.to_ascii_uppercase();
    }
    let mut s = String::new();
    for c in name.chars() {
        if c.is_ascii_uppercase() && !s.is_empty() {
            s.push(' ');
        }
        s.push(c);
    }
    s
}

fn build(case: &Case, pairs: &[(String, Vec<u8>)]) -> Vec<u8> {
    let head = case.method == "HEAD";
    let mut version = "HTTP/1.1";
    let mut status = case.val.status;
    let mut reason = phrase(&status_name(case.val.status));
    let mut fields: Vec<(String, Vec<u8>)> = pairs.to_vec();
    fields.push(("Content-Length".into(), case.val.body.len().to_string().into_bytes()));
    let mut pads: Vec<(u8, String, String)> = vec![];
    let mut lf = vec![];
    let nth = |i: u8, n: usize| i as usize % n.max(1);
    for t in &case.tweaks {
        let n = fields.len();
        match t {
            Tweak::Http10 => version = "HTTP/1.0",
            Tweak::Reason(r) => reason = r.clone(),
            Tweak::ReasonOf { at, spaced, declared } => {
                let names: Vec<String> = match &case.ty {
                    RespTy::Enum(vs) if *declared => vs.iter().map(|v| v.0.to_string()).collect(),
                    _ => STATUSES.iter().map(|s| s.1.to_string()).collect(),
                };
                let name = &names[*at as usize % names.len()];
                reason = if *spaced { phrase(name) } else { name.clone() };
            }
            Tweak::Status(s) => status = *s,
            Tweak::Length(s) => {
                for f in fields.iter_mut().filter(|f| f.0.eq_ignore_ascii_case("content-length")) {
                    f.1 = s.clone().into_bytes();
                }
            }
            Tweak::NoLength => fields.retain(|f| !f.0.eq_ignore_ascii_case("content-length")),
            Tweak::SecondLength(s) => fields.push(("content-length".into(), s.clone().into_bytes())),
            Tweak::Chunked => fields.push(("Transfer-Encoding".into(), b"chunked".to_vec())),
            Tweak::Extra { at, name, value } => {
                fields.insert(nth(*at, n + 1), (name.clone(), value.clone()))
            }
            Tweak::Many(k) => {
                for i in 0..*k {
                    fields.push((format!("x-many-{}", i), b"1".to_vec()));
                }
            }
            Tweak::Repeat(i) if n > 0 => {
                let f = fields[nth(*i, n)].clone();
                fields.push(f);
            }
            Tweak::Drop(i) if n > 0 => {
                fields.remove(nth(*i, n));
            }
            Tweak::Value { at, text } if n > 0 => fields[nth(*at, n)].1 = text.clone().into_bytes(),
            Tweak::Case(k) => {
                for f in fields.iter_mut() {
                    f.0 = f
                        .0
                        .char_indices()
                        .map(|(i, c)| if (*k >> (i % 8)) & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
                        .collect();
                }
            }
            Tweak::Rotate(k) if n > 0 => fields.rotate_left(nth(*k, n)),
            Tweak::Blanks { at, before, after } => pads.push((*at, before.clone(), after.clone())),
            Tweak::Long(k) => fields.insert(0, ("x-long".into(), vec![b'z'; *k as usize])),
            Tweak::BareLf(i) => lf.push(*i),
            _ => {}
        }
    }
    let mut lines: Vec<Vec<u8>> = vec![format!("{} {:03} {}", version, status, reason).into_bytes()];
    let n = fields.len();
    for (i, (k, v)) in fields.iter().enumerate() {
        let mut l = k.clone().into_bytes();
        l.push(b':');
        let pad = pads.iter().find(|p| nth(p.0, n) == i);
        l.extend_from_slice(pad.map_or(" ", |p| &p.1).as_bytes());
        l.extend_from_slice(v);
        l.extend_from_slice(pad.map_or("", |p| &p.2).as_bytes());
        lines.push(l);
    }
    lines.push(vec![]);
    let mut out = vec![];
    let n = lines.len();
    for (i, l) in lines.iter().enumerate() {
        out.extend_from_slice(l);
        out.extend_from_slice(if lf.iter().any(|x| nth(*x, n) == i) { b"\n" } else { b"\r\n" });
    }
    if !head {
        if case.tweaks.iter().any(|t| matches!(t, Tweak::Chunked)) {
            if !case.val.body.is_empty() {
                out.extend_from_slice(format!("{:x}\r\n", case.val.body.len()).as_bytes());
                out.extend_from_slice(&case.val.body);
                out.extend_from_slice(b"\r\n");
            }
            out.extend_from_slice(b"0\r\n\r\n");
        } else {
            out.extend_from_slice(&case.val.body);
        }
    }
    for t in &case.tweaks {
        let place = |at: u16| (at as usize * out.len().min(600)) >> 16;
        match t {
            Tweak::Before(b) => {
                let mut v = b.clone();
                v.extend_from_slice(&out);
                out = v;
            }
            Tweak::After(b) => out.extend_from_slice(b),
            Tweak::Byte { at, to } if !out.is_empty() => {
                let at = place(*at);
                out[at] = *to;
            }
            Tweak::Insert { at, what } => {
                let at = place(*at);
                out.splice(at..at, what.iter().cloned());
            }
            Tweak::Delete { at, n } => {
                let at = place(*at);
                let to = (at + *n as usize).min(out.len());
                out.drain(at..to);
            }
            Tweak::Cut(at) => {
                let at = (*at as usize * (out.len() + 1)) >> 16;
                out.truncate(at);
            }
            _ => {}
        }
    }
    out
}

/// What the call may resolve to.
#[derive(Debug)]
struct Expect {
    /// The values allowed.
    values: Vec<RespVal>,
    error: bool,
    /// Complete before the connection ends.
    complete: bool,
    why: &'static str,
}
impl Expect {
    fn error(why: &'static str) -> Expect {
        Expect { values: vec![], error: true, complete: false, why }
    }
}

struct Reading {
    status: u16,
    headers: Vec<(String, Vec<u8>)>,
    /// The length of the head.
    head: usize,
    /// Well-formed by every standard.
    strict: bool,
}

/// Reads the head, leniently; `strict` tells whether a strict reader agrees.
fn read_head(bytes: &[u8]) -> Result<Option<Reading>, &'static str> {
    let mut hs = vec![httparse::EMPTY_HEADER; 4096];
    let mut r = httparse::Response::new(&mut hs);
    let n = match r.parse(bytes) {
        Err(_) => return Err("not HTTP"),
        Ok(httparse::Status::Partial) => return Ok(None),
        Ok(httparse::Status::Complete(n)) => n,
    };
    let status = r.code.unwrap();
    let headers: Vec<(String, Vec<u8>)> =
        r.headers.iter().map(|h| (h.name.to_string(), h.value.to_vec())).collect();
    let strict = match http::head(&bytes[..n]) {
        Ok(Some((start, hs, m))) => {
            let line = String::from_utf8(start).unwrap_or_default();
            let mut it = line.splitn(3, ' ');
            let v = it.next().unwrap_or("");
            let c = it.next().unwrap_or("");
            m == n
                && hs == headers
                && (v == "HTTP/1.1" || v == "HTTP/1.0")
                && c == format!("{:03}", status)
                && it.next().map_or(false, |r| r.bytes().all(|b| b == b' ' || b.is_ascii_graphic()))
                && headers.iter().all(|h| h.1.iter().all(|b| *b == b'\t' || *b == b' ' || b.is_ascii_graphic() || *b >= 0x80))
        }
        _ => false,
    };
    Ok(Some(Reading { status, headers, head: n, strict }))
}

fn expect(case: &Case, bytes: &[u8]) -> Expect {
    let to_head = case.method == "HEAD";
    let r = match read_head(bytes) {
        Err(why) => return Expect::error(why),
        Ok(None) => return Expect::error("incomplete head"),
        Ok(Some(r)) => r,
    };
    let rest = &bytes[r.head..];
    let mut sure = r.strict && r.head <= 8000 && r.headers.len() <= 32 && r.status >= 200;
    // The value apart from the body.
    let header = if let RespTy::Enum(vs) = &case.ty {
        if !vs.iter().any(|(n, _)| *n == status_name(r.status)) {
            return Expect::error("undeclared status");
        }
        refmodel::resp_header_ty(&case.ty, r.status)
    } else {
        refmodel::resp_header_ty(&case.ty, r.status)
    };
    let header = match header {
        None => None,
        Some(t) => match refmodel::decode_headers(&t, &r.headers) {
            Part::Must(v) => Some(v),
            Part::May(v) => {
                sure = false;
                Some(v)
            }
            Part::Reject => return Expect::error("undecodable header"),
        },
    };
    let value = |body: &[u8]| RespVal { status: r.status, header: header.clone(), body: body.to_vec() };
    let field = |n: &str| -> Vec<&[u8]> {
        r.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(n)).map(|h| &h.1[..]).collect()
    };
    let te = field("transfer-encoding");
    let cl = field("content-length");
    let bodyless = to_head || r.status < 200 || r.status == 204 || r.status == 304;
    let number = |b: &[u8]| -> Option<u64> {
        if b.is_empty() || !b.iter().all(|c| c.is_ascii_digit()) {
            return None;
        }
        std::str::from_utf8(b).ok()?.parse().ok()
    };
    if to_head {
        return Expect { values: vec![value(&[])], error: !sure, complete: sure, why: "response to HEAD" };
    }
    if !te.is_empty() {
        if !cl.is_empty() {
            return Expect::error("length and transfer coding");
        }
        // Chunked bodies need not be supported; their content is the subject of C09.
        return Expect { values: vec![value(&case.val.body)], error: true, complete: false, why: "transfer coding" };
    }
    if cl.is_empty() {
        if bodyless {
            return Expect { values: vec![value(&[]), ], error: !sure, complete: sure, why: "no body by status" };
        }
        // The end of the connection ends the body.
        return match case.end {
            End::Reset => Expect::error("reset within a body without length"),
            _ => Expect { values: vec![value(rest)], error: !sure, complete: false, why: "body up to the end" },
        };
    }
    let ns: Vec<Option<u64>> = cl.iter().map(|b| number(b)).collect();
    if cl.len() == 1 {
        if let Some(n) = ns[0] {
            if bodyless && n > 0 {
                // Some send a body with these, some do not.
                let mut values = vec![value(&[])];
                if n <= rest.len() as u64 {
                    values.push(value(&rest[..n as usize]));
                }
                return Expect { values, error: true, complete: false, why: "length but no body by status" };
            }
            if n > rest.len() as u64 {
                return Expect::error("incomplete body");
            }
            return Expect { values: vec![value(&rest[..n as usize])], error: !sure, complete: sure, why: "complete" };
        }
        if !cl[0].iter().any(|b| b.is_ascii_digit()) {
            return Expect::error("bad length");
        }
    }
    let different = |a: &Option<u64>| a.is_some() && *a != ns[0];
    if ns[0].is_some() && ns.iter().any(different) {
        return Expect::error("two lengths");
    }
    // Repeated or odd lengths: an error, or one of the readings.
    let mut values = vec![];
    for c in &cl {
        for t in String::from_utf8_lossy(c).split(',') {
            if let Ok(n) = t.trim().trim_start_matches('+').parse::<u64>() {
                if n <= rest.len() as u64 {
                    values.push(value(&rest[..n as usize]));
                }
            }
        }
    }
    Expect { values, error: true, complete: false, why: "odd length" }
}

pub struct C19;

fn value_text() -> BoxedStrategy<String> {
    prop_oneof![
        4 => gen::header_text(),
        1 => select(vec!["", "0", "-1", "+1", "1e3", "NaN", "inf", "true", "TRUE", "99999999999999999999", "256", "65536", " ", "null", "\"x\""]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}
fn length_text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => (0u32..60).prop_map(|n| n.to_string()),
        2 => select(vec![
            "", "-1", "+3", "0x3", "3, 3", "3,4", "003", "00000000000000000000003", "3 3", "three", "3.0",
            "18446744073709551615", "18446744073709551616", "99999999999999999999999", "9223372036854775808", "4294967296", "1000000",
        ]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}
fn junk() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        2 => vec(any::<u8>(), 0..20),
        2 => vec(select(b"\r\n \t:;,0a\0\x7f\xff%HT".to_vec()), 0..12),
        1 => select(vec!["\r\n", "\n", "\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 100 Continue\r\n\r\n", " x\r\n", "\r\n continued"])
            .prop_map(|s| s.as_bytes().to_vec()),
    ]
    .boxed()
}
fn tweak() -> BoxedStrategy<Tweak> {
    prop_oneof![
        2 => Just(Tweak::Http10),
        2 => prop_oneof![
            select(vec!["", "OK", "Not Found", "x y  z ", "100%", "a:b"]).prop_map(|s| s.to_string()),
            gen::header_text(),
        ].prop_map(Tweak::Reason),
        2 => (any::<u8>(), any::<bool>(), any::<bool>()).prop_map(|(at, spaced, declared)| Tweak::ReasonOf { at, spaced, declared }),
        3 => prop_oneof![
            3 => select(STATUSES).prop_map(|s| s.0),
            1 => 0u16..1000,
        ].prop_map(Tweak::Status),
        3 => length_text().prop_map(Tweak::Length),
        2 => Just(Tweak::NoLength),
        1 => length_text().prop_map(Tweak::SecondLength),
        1 => Just(Tweak::Chunked),
        3 => (any::<u8>(), gen::header_name(), value_text()).prop_map(|(at, name, v)| Tweak::Extra { at, name, value: v.into_bytes() }),
        1 => (any::<u8>(), gen::header_name(), vec(any::<u8>(), 0..8)).prop_map(|(at, name, value)| Tweak::Extra { at, name, value }),
        1 => prop_oneof![0u8..31, 28u8..40, any::<u8>()].prop_map(Tweak::Many),
        2 => any::<u8>().prop_map(Tweak::Repeat),
        2 => any::<u8>().prop_map(Tweak::Drop),
        3 => (any::<u8>(), value_text()).prop_map(|(at, text)| Tweak::Value { at, text }),
        3 => any::<u8>().prop_map(Tweak::Case),
        2 => any::<u8>().prop_map(Tweak::Rotate),
        3 => (any::<u8>(), "[ \t]{0,3}", "[ \t]{0,3}").prop_map(|(at, before, after)| Tweak::Blanks { at, before, after }),
        1 => prop_oneof![7000u16..9000, 0u16..20000].prop_map(Tweak::Long),
        1 => any::<u8>().prop_map(Tweak::BareLf),
        1 => junk().prop_map(Tweak::Before),
        2 => junk().prop_map(Tweak::After),
        3 => (any::<u16>(), prop_oneof![any::<u8>(), select(b"\r\n \t:0\0\x7f\xff".to_vec())]).prop_map(|(at, to)| Tweak::Byte { at, to }),
        2 => (any::<u16>(), junk()).prop_map(|(at, what)| Tweak::Insert { at, what }),
        2 => (any::<u16>(), 1u8..6).prop_map(|(at, n)| Tweak::Delete { at, n }),
        1 => any::<u16>().prop_map(Tweak::Cut),
    ]
    .boxed()
}

impl Property for C19 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "the bytes the server sends differ from the canonical response"
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the connection ends at last (a server that neither completes its response nor ends the connection leaves the call pending)".into(),
            "heads of more than 8000 bytes or 32 fields, 1xx statuses, transfer codings, repeated or odd lengths: a reading of the bytes or an error".into(),
        ]
    }
    fn cases(&self) -> u64 {
        60000
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        (
            gen::method(),
            gen::response(),
            prop_oneof![4 => vec(any::<u8>(), 0..50), 1 => gen::body()],
            prop_oneof![3 => vec(tweak(), 1..2), 4 => vec(tweak(), 0..6)],
            seg_strategy(),
            select(vec![End::HalfClose, End::Close, End::Reset]),
            any::<bool>(),
            proptest::option::weighted(0.04, vec(any::<u8>(), 0..60)),
        )
            .prop_map(|(method, (ty, mut val), body, tweaks, seg, end, pooled, noise)| {
                val.body = body;
                Case { method, ty, val, tweaks, seg, end, pooled, noise }
            })
            .boxed()
    }
    fn run(&self, case: &Case) -> Verdict {
        let p = ProcTy {
            method: case.method.clone(),
            entry: vec![Some("foo".into())],
            req: ReqTy { path: None, query: None, header: None, wrapped: false },
            resp: case.ty.clone(),
        };
        let hty = refmodel::resp_header_ty(&case.ty, case.val.status);
        let pairs = match (&hty, &case.val.header) {
            (Some(t), Some(v)) => refmodel::encode_fields(t, v),
            _ => vec![],
        };
        let head = case.method == "HEAD";
        let canonical = raw_response(case.val.status, &pairs, &case.val.body, head, false);
        if canonical.len() - if head { 0 } else { case.val.body.len() } > 7500 {
            return Ok(Info::new(false).class("head too large"));
        }
        let bytes = match &case.noise {
            Some(n) => n.clone(),
            None => build(case, &pairs),
        };
        let want = expect(case, &bytes);
        let mut sim = Sim::new()?;
        define(0, &p);
        let (l, addr) = listen_raw()?;
        let calls = Calls::new(&sim);
        let w = calls.call(&sim, case.pooled, addr, 0, empty_req());
        let mut c = accept(&mut sim, &l)?;
        http::expect_request(&mut sim, &mut c, "request")?;
        c.send(&mut sim, &bytes, &case.seg)?;
        if want.complete {
            sim.until("complete response: call to resolve", |_| Ok(w.is_done()))?;
        }
        match case.end {
            End::HalfClose => c.half_close(),
            End::Close => c.close(),
            End::Reset => c.abort(),
        }
        sim.until("end of the connection: call to resolve", |_| Ok(w.is_done()))?;
        let shown = String::from_utf8_lossy(&bytes[..bytes.len().min(400)]).into_owned();
        match w.take().unwrap() {
            Ok(r) => {
                let mut errs = vec![];
                let fits = want.values.iter().any(|v| {
                    let v = RespVal { header: strip_framing(&v.header), ..v.clone() };
                    same_response(&v, &r, head).map_err(|e| errs.push(e)).is_ok()
                });
                ensure!(
                    fits,
                    "{} ({:?}): the call yielded status {} header {:?} and {} body bytes; expected {}; bytes {:?}",
                    want.why, case.end, r.status, r.header, r.body.len(),
                    if errs.is_empty() { "an error".to_string() } else { errs.join(" / ") },
                    shown
                );
            }
            Err(e) => ensure!(want.error, "{}: the call failed ({}); bytes {:?}", want.why, e, shown),
        }
        let mut info = Info::new(bytes != build(&Case { tweaks: vec![], ..case.clone() }, &pairs))
            .class(want.why)
            .class_if(want.error && !want.values.is_empty(), "either")
            .class_if(case.pooled, "pooled")
            .class_if(case.noise.is_some(), "noise");
        // The pool, and the client, are none the worse for it.
        ensure!(!calls.pool.is_done(), "the pool future resolved");
        drop(c);
        let w = calls.call(&sim, case.pooled, addr, 0, empty_req());
        let mut c = accept(&mut sim, &l)?;
        http::expect_request(&mut sim, &mut c, "second request")?;
        c.send(&mut sim, &canonical, &Seg::whole())?;
        sim.until("second call to resolve", |_| Ok(w.is_done()))?;
        match w.take().unwrap() {
            Ok(r) => {
                if let Err(m) = same_response(&case.val, &r, head) {
                    violation!("second call: {}", m);
                }
            }
            Err(e) => violation!("second call: {}", e),
        }
        info = info.class_if(!want.error, "accepted");
        Ok(info)
    }
}
