//! C03: hostile field values are delivered exactly or refused; they never damage the message.
use super::c01::request_segments;
use super::c02::{accept, Calls};
use super::tight::{self, Way};
use crate::dynproc::*;
use crate::engine::*;
use crate::gen;
use crate::http;
use crate::refmodel;
use crate::sim::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Mode {
    /// Through the htrpc server.
    Server,
    /// To a foreign server; the bytes are read by the reference reader.
    Wire,
    /// The response header goes through server and client.
    Response,
    /// The response header as a foreign client sees it.
    ResponseWire,
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Misfit {
    None,
    /// Drops the path part although there are variables (or the other way round).
    NoPath,
    /// One variable fewer than the entry point has.
    TooFew,
    /// One more.
    TooMany,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub method: String,
    pub entry: Vec<Option<String>>,
    pub path: Vec<(Ty, Val)>,
    pub query: Option<(FieldsTy, FieldsVal)>,
    pub header: Option<(FieldsTy, FieldsVal)>,
    pub body: String,
    pub decoys: Vec<String>,
    pub misfit: Misfit,
    pub mode: Mode,
    pub pooled: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Any {
    Tight { tight: tight::Case },
    Dyn(Case),
}

pub struct C03;

fn str_tv(s: BoxedStrategy<String>) -> BoxedStrategy<(Ty, Val)> {
    (s, 0u8..8)
        .prop_map(|(s, k)| match k {
            0 => (Ty::Newtype(Box::new(Ty::Str)), Val::Str(s)),
            1 => (Ty::Json, Val::Json(serde_json::Value::String(s))),
            _ => (Ty::Str, Val::Str(s)),
        })
        .boxed()
}
fn field_tv() -> BoxedStrategy<(Ty, Val)> {
    prop_oneof![
        6 => str_tv(gen::hostile()),
        1 => gen::hostile().prop_map(|s| (Ty::Opt(Box::new(Ty::Str)), Val::Some(Box::new(Val::Str(s))))),
        1 => gen::hostile().prop_map(|s| (Ty::JsonPretty, Val::Json(serde_json::json!({ s: [1, {"a": null}] })))),
        1 => (7000usize..20000).prop_map(|n| (Ty::Str, Val::Str("z".repeat(n)))),
    ]
    .boxed()
}
fn header_tv() -> BoxedStrategy<(Ty, Val)> {
    prop_oneof![
        6 => field_tv(),
        1 => vec(any::<u8>(), 0..12).prop_map(|b| (Ty::Bytes, Val::Bytes(b))),
        1 => select(vec!["a\r\nx-injected: 1", "ok", "a b", "\0"]).prop_map(|s| (Ty::UnitStruct(s.to_string()), Val::Unit)),
    ]
    .boxed()
}
fn hkey() -> BoxedStrategy<String> {
    prop_oneof![
        3 => gen::hostile(),
        3 => gen::header_name(),
        2 => select(vec!["content-length", "Content-Length", "CONTENT-LENGTH", "transfer-encoding", "Transfer-Encoding", "host", "connection", "X-Upper", "", " ", "a b", "a:", "x\r\ny: z", "é", "te", "expect", "upgrade", "content-length ", "\tx"]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}
fn headers() -> BoxedStrategy<(FieldsTy, FieldsVal)> {
    let st = vec((gen::header_field_name(), header_tv()), 0..4).prop_map(|v| {
        let v = gen::unique(v, |x| x.0.to_ascii_lowercase());
        (
            FieldsTy::Struct(v.iter().map(|x| (x.0.clone(), x.1 .0.clone())).collect()),
            FieldsVal::Struct(v.into_iter().map(|x| x.1 .1).collect()),
        )
    });
    let map = |n: std::ops::Range<usize>| {
        vec((hkey(), gen::hostile()), n).prop_map(|v| {
            let v = gen::unique(v, |x| x.0.to_ascii_lowercase());
            (
                FieldsTy::Map { key: Ty::Str, val: Ty::Str },
                FieldsVal::Map(v.into_iter().map(|(k, v)| (Val::Str(k), Val::Str(v))).collect()),
            )
        })
    };
    let many = (20usize..50).prop_map(|n| {
        (
            FieldsTy::Map { key: Ty::Str, val: Ty::Str },
            FieldsVal::Map(
                (0..n)
                    .map(|i| (Val::Str(format!("x-{}", i)), Val::Str(i.to_string())))
                    .collect(),
            ),
        )
    });
    prop_oneof![6 => st, 4 => map(0..4), 1 => many].boxed()
}
fn queries() -> BoxedStrategy<(FieldsTy, FieldsVal)> {
    let st = vec((gen::query_name(), field_tv()), 0..4).prop_map(|v| {
        let v = gen::unique(v, |x| x.0.clone());
        (
            FieldsTy::Struct(v.iter().map(|x| (x.0.clone(), x.1 .0.clone())).collect()),
            FieldsVal::Struct(v.into_iter().map(|x| x.1 .1).collect()),
        )
    });
    let mp = vec((gen::hostile(), gen::hostile()), 0..4).prop_map(|v| {
        let v = gen::unique(v, |x| x.0.clone());
        (
            FieldsTy::Map { key: Ty::Str, val: Ty::Str },
            FieldsVal::Map(v.into_iter().map(|(k, v)| (Val::Str(k), Val::Str(v))).collect()),
        )
    });
    prop_oneof![3 => st, 2 => mp].boxed()
}

/// Some values of a map may be absent.
fn with_absent(f: BoxedStrategy<(FieldsTy, FieldsVal)>) -> BoxedStrategy<(FieldsTy, FieldsVal)> {
    (f, any::<u64>())
        .prop_map(|((t, v), mut bits)| match (t, v) {
            (FieldsTy::Map { key, val }, FieldsVal::Map(m)) if bits % 5 == 0 => (
                FieldsTy::Map { key, val: Ty::Opt(Box::new(val)) },
                FieldsVal::Map(
                    m.into_iter()
                        .map(|(k, v)| {
                            bits = bits.rotate_right(3);
                            (k, if bits & 3 == 0 { Val::None } else { Val::Some(Box::new(v)) })
                        })
                        .collect(),
                ),
            ),
            f => f,
        })
        .boxed()
}
/// Absent values of a map are left out.
fn present(f: &FieldsVal) -> FieldsVal {
    match f {
        FieldsVal::Map(m) => FieldsVal::Map(m.iter().filter(|(_, v)| *v != Val::None).cloned().collect()),
        f => f.clone(),
    }
}

fn trim(b: &[u8]) -> &[u8] {
    let ws = |c: &u8| *c == b' ' || *c == b'\t';
    let s = b.iter().position(|c| !ws(c)).unwrap_or(b.len());
    let e = b.iter().rposition(|c| !ws(c)).map_or(s, |i| i + 1);
    &b[s..e]
}
fn trim_val(v: &Val) -> Val {
    match v {
        Val::Str(s) => Val::Str(String::from_utf8_lossy(trim(s.as_bytes())).into_owned()),
        Val::Bytes(b) => Val::Bytes(trim(b).to_vec()),
        Val::Some(v) => Val::Some(Box::new(trim_val(v))),
        v => v.clone(),
    }
}
/// A header as the receiver has to see it: names in lower case, blanks around values gone.
fn as_received(f: &FieldsVal) -> FieldsVal {
    match f {
        FieldsVal::Struct(v) => FieldsVal::Struct(v.iter().map(trim_val).collect()),
        FieldsVal::Map(m) => FieldsVal::Map(
            m.iter()
                .filter(|(_, v)| *v != Val::None)
                .map(|(k, v)| {
                    let k = match k {
                        Val::Str(s) => Val::Str(s.to_ascii_lowercase()),
                        k => k.clone(),
                    };
                    (k, trim_val(v))
                })
                .collect(),
        ),
    }
}
fn wire_headers(h: &Option<(FieldsTy, FieldsVal)>) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = match h {
        Some((t, v)) => refmodel::encode_fields(t, v)
            .into_iter()
            .map(|(k, v)| (k.to_ascii_lowercase(), trim(&v).to_vec()))
            .collect(),
        None => vec![],
    };
    v.sort();
    v
}
fn got_headers(h: &[(String, Vec<u8>)]) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = h
        .iter()
        .map(|(k, v)| (k.to_ascii_lowercase(), v.clone()))
        .filter(|h| h.0 != "content-length")
        .collect();
    v.sort();
    v
}

fn hostile_val(v: &Val) -> bool {
    match v {
        Val::Str(s) => {
            s.is_empty()
                || s.len() > 6000
                || s.bytes().any(|b| !(b.is_ascii_alphanumeric() || b == b'-' || b == b'_'))
        }
        Val::Some(v) => hostile_val(v),
        Val::Json(_) | Val::Bytes(_) | Val::Unit => true,
        _ => false,
    }
}
fn hostile_fields(f: &Option<(FieldsTy, FieldsVal)>) -> bool {
    match f {
        None => false,
        Some((_, FieldsVal::Struct(v))) => v.iter().any(hostile_val),
        Some((_, FieldsVal::Map(m))) => {
            m.len() > 20 || m.iter().any(|(k, v)| hostile_val(k) || hostile_val(v))
        }
    }
}

impl Property for C03 {
    type Case = Any;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "some field or map key is empty, longer than 6000 bytes, or has a character outside [A-Za-z0-9_-], the request does not fit its entry point, or the head is about as large as the HTTP layer can hold"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["struct field names are tokens (they are part of the program, not of the input)".into()]
    }
    fn cases(&self) -> u64 {
        200000
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Any> {
        let seg = prop_oneof![
            2 => gen::constant().prop_map(Ok),
            3 => prop_oneof![5 => str_tv(gen::hostile()), 1 => field_tv()]
                .prop_map(|tv| if let Ty::Opt(_) = tv.0 { Err((Ty::Str, Val::Str("..".into()))) } else { Err(tv) }),
        ];
        let dynamic = (
            gen::method(),
            vec(seg, 0..4),
            proptest::option::weighted(0.5, with_absent(queries())),
            proptest::option::weighted(0.6, with_absent(headers())),
            select(vec!["", "body", "GET / HTTP/1.1\r\n\r\n", "\r\n\r\n"]),
            vec(gen::constant(), 0..3),
            prop_oneof![
                12 => Just(Misfit::None),
                1 => Just(Misfit::NoPath),
                1 => Just(Misfit::TooFew),
                1 => Just(Misfit::TooMany)
            ],
            prop_oneof![
                4 => Just(Mode::Server),
                4 => Just(Mode::Wire),
                2 => Just(Mode::Response),
                2 => Just(Mode::ResponseWire)
            ],
            any::<bool>(),
        )
            .prop_map(|(method, segs, query, header, body, decoys, misfit, mode, pooled)| Case {
                method,
                entry: segs.iter().map(|s| s.as_ref().ok().cloned()).collect(),
                path: segs.into_iter().filter_map(|s| s.err()).collect(),
                query,
                header,
                body: body.to_string(),
                decoys,
                misfit,
                mode,
                pooled,
            })
            .prop_map(Any::Dyn);
        let tight = tight::strategy(
            false,
            &[Way::Request, Way::RequestWire, Way::Response, Way::ResponseWire],
        );
        prop_oneof![
            30 => dynamic,
            1 => tight.prop_map(|tight| Any::Tight { tight }),
        ]
        .boxed()
    }
    fn run(&self, case: &Any) -> Verdict {
        match case {
            Any::Tight { tight } => tight::run(tight, false),
            Any::Dyn(case) => match case.mode {
                Mode::Server | Mode::Wire => request(case),
                Mode::Response | Mode::ResponseWire => response(case),
            },
        }
    }
}

fn request(case: &Case) -> Verdict {
    let mut path = case.path.clone();
    let mut part = true;
    match case.misfit {
        Misfit::None => {}
        Misfit::NoPath => {
            part = false;
            path.clear();
        }
        Misfit::TooFew => {
            path.pop();
        }
        Misfit::TooMany => path.push((Ty::Str, Val::Str("more".into()))),
    }
    let fits = path.len() == case.entry.iter().filter(|e| e.is_none()).count();
    let tys: Vec<Ty> = path.iter().map(|p| p.0.clone()).collect();
    let ty = ProcTy {
        method: case.method.clone(),
        entry: case.entry.clone(),
        req: ReqTy {
            path: if !part {
                None
            } else if tys.is_empty() {
                Some(PathTy::Unit)
            } else {
                Some(PathTy::Tuple(tys))
            },
            query: case.query.as_ref().map(|q| q.0.clone()),
            header: case.header.as_ref().map(|q| q.0.clone()),
            wrapped: false,
        },
        resp: gen::plain_resp_ty(),
    };
    let val = ReqVal {
        path: path.into_iter().map(|p| p.1).collect(),
        query: case.query.as_ref().map(|q| q.1.clone()),
        header: case.header.as_ref().map(|q| q.1.clone()),
        body: case.body.clone().into_bytes(),
    };
    let nontrivial = !fits
        || val.path.iter().any(hostile_val)
        || hostile_fields(&case.query)
        || hostile_fields(&case.header);
    let mut info = Info::new(nontrivial).class_if(!fits, "does not fit the entry point");
    let mut sim = Sim::new()?;
    define(0, &ty);
    let calls = Calls::new(&sim);
    if let Mode::Wire = case.mode {
        let (l, addr) = listen_raw()?;
        let w = calls.call(&sim, case.pooled, addr, 0, val.clone());
        let mut c = accept(&mut sim, &l)?;
        let mut got = None;
        let mut bad = None;
        sim.until("request or failure", |_| {
            c.fill();
            match http::take_request(&mut c.inbuf) {
                Ok(Some(r)) => got = Some(r),
                Ok(None) => {}
                Err(e) => bad = Some(e),
            }
            Ok(got.is_some() || bad.is_some() || w.is_done())
        })?;
        if got.is_none() && bad.is_none() {
            // The call has failed: nothing that could be taken for a request was sent.
            sim.settle();
            c.fill();
            match w.take().unwrap() {
                Ok(r) => violation!("response {:?} without a server", r),
                Err(_) => {}
            }
            ensure!(
                c.inbuf.is_empty(),
                "the call failed but {} bytes were sent: {:?}",
                c.inbuf.len(),
                String::from_utf8_lossy(&c.inbuf)
            );
            return Ok(info.class("refused by the client"));
        }
        if let Some(e) = bad {
            violation!("malformed request: {} in {:?}", e, String::from_utf8_lossy(&c.inbuf));
        }
        let r = got.unwrap();
        ensure!(fits, "a request that does not fit its entry point was sent: {:?}", r);
        ensure!(r.method == case.method, "method {} instead of {}", r.method, case.method);
        let (p, q) = match r.target.find('?') {
            Some(i) => (&r.target[..i], Some(&r.target[i + 1..])),
            None => (&r.target[..], None),
        };
        ensure!(!r.target.contains('#'), "fragment in {:?}", r.target);
        let segs: Vec<Option<Vec<u8>>> = p[1..].split('/').map(http::pct_decode).collect();
        let want = request_segments(&ty, &val);
        ensure!(segs == want, "path {:?} does not denote the segments {:?}", p, want);
        for s in p[1..].split('/') {
            let d = http::pct_decode(s).unwrap_or_default();
            ensure!(d != b"." && d != b"..", "dot segment in {:?}", p);
        }
        let want_q: Vec<(String, Vec<u8>)> = match &case.query {
            Some((t, v)) => refmodel::encode_fields(t, v),
            None => vec![],
        };
        let got_q: Vec<(String, Vec<u8>)> = http::form_decode(q.unwrap_or(""))
            .into_iter()
            .map(|(k, v)| (k, v.into_bytes()))
            .collect();
        ensure!(got_q == want_q, "query {:?} decodes as {:?}, not {:?}", q, got_q, want_q);
        let want_h = wire_headers(&case.header);
        let got_h = got_headers(&r.headers);
        ensure!(want_h == got_h, "header fields {:?} instead of {:?}", got_h, want_h);
        ensure!(r.body == val.body, "body {:?} instead of {:?}", r.body, val.body);
        ensure!(c.inbuf.is_empty(), "bytes after the request: {:?}", String::from_utf8_lossy(&c.inbuf));
        let mut t = Seg::whole();
        t.pumps.clear();
        let resp = super::c02::raw_response(200, &[], b"", case.method == "HEAD", false);
        c.send(&mut sim, &resp, &t)?;
        sim.until("call to resolve", |_| Ok(w.is_done()))?;
        if let Err(e) = w.take().unwrap() {
            violation!("the call failed although it was answered: {}", e);
        }
        return Ok(info.class("wire checked"));
    }
    // Other procedures a damaged request could reach.
    let mut others: Vec<ProcTy> = Vec::new();
    for k in 0..5usize {
        let m = if k == 4 && case.method != "GET" { "GET" } else { &case.method };
        others.push(ProcTy {
            method: m.to_string(),
            entry: vec![None; k.min(4)],
            req: ReqTy {
                path: if k == 0 { None } else { Some(PathTy::Tuple(vec![Ty::Str; k])) },
                query: None,
                header: None,
                wrapped: false,
            },
            resp: gen::plain_resp_ty(),
        });
    }
    for d in &case.decoys {
        for m in [case.method.as_str(), "GET"] {
            others.push(ProcTy {
                method: m.to_string(),
                entry: vec![Some(d.clone())],
                req: ReqTy { path: None, query: None, header: None, wrapped: false },
                resp: gen::plain_resp_ty(),
            });
        }
    }
    let mut regs: Vec<refmodel::Route> = vec![(ty.method.clone(), ty.entry.clone())];
    let mut defs = vec![ty.clone()];
    let segs = request_segments(&ty, &val);
    for o in others {
        let r = (o.method.clone(), o.entry.clone());
        if regs.contains(&r) || regs.len() >= SLOTS {
            continue;
        }
        // The empty entry point and one-segment entry points share the path "/".
        if (r.1.is_empty() && regs.iter().any(|x| x.1.len() == 1))
            || (r.1.len() == 1 && regs.iter().any(|x| x.1.is_empty()))
        {
            continue;
        }
        regs.push(r);
        if fits && refmodel::route(&regs, &case.method, &segs) != Ok(0) {
            regs.pop();
            continue;
        }
        defs.push(o);
    }
    for (i, d) in defs.iter().enumerate() {
        define(i, d);
    }
    let log = new_log();
    let b = recording(&log, |_| Action::Reply(gen::ok_with(b"")));
    let n = defs.len();
    let server = start_server(&mut sim, |s| {
        for i in 0..n {
            register(s, i, i as u64, &b)
                .map_err(|e| Fault::Violation(format!("registration refused: {}", e)))?;
        }
        Ok(())
    })?;
    let w = calls.call(&sim, case.pooled, server.addr, 0, val.clone());
    sim.until("call to resolve", |_| Ok(w.is_done()))?;
    let r = w.take().unwrap();
    sim.settle();
    let log = log.lock().unwrap();
    match r {
        Err(e) => {
            ensure!(
                log.is_empty(),
                "the call failed ({}) but handler {} {:?} ran with {:?}",
                e,
                regs[log[0].slot].0,
                regs[log[0].slot].1,
                log[0].req
            );
            info = info.class("refused");
        }
        Ok(r) => {
            ensure!(fits, "a request that does not fit its entry point got the response {:?}", r);
            ensure!(
                log.len() == 1 && log[0].slot == 0,
                "the call returned status {} but {} handlers ran: {:?}",
                r.status,
                log.len(),
                log.iter().map(|l| (&regs[l.slot], &l.req)).collect::<Vec<_>>()
            );
            ensure!(r.status == 200, "status {}", r.status);
            let mut sent = val.clone();
            sent.header = sent.header.as_ref().map(as_received);
            sent.query = sent.query.as_ref().map(present);
            if let Err(m) = same_request(&sent, &log[0].req) {
                violation!("delivered a different value: {}", m);
            }
            info = info.class("delivered");
        }
    }
    server.alive()?;
    ensure!(!calls.pool.is_done(), "the pool future resolved");
    Ok(info)
}

fn response(case: &Case) -> Verdict {
    let ty = ProcTy {
        method: case.method.clone(),
        entry: vec![Some("foo".into())],
        req: ReqTy { path: None, query: None, header: None, wrapped: false },
        resp: RespTy::Struct {
            header: case.header.as_ref().map(|h| h.0.clone()),
            wrapped: false,
        },
    };
    let reply = RespVal {
        status: 200,
        header: case.header.as_ref().map(|h| h.1.clone()),
        body: case.body.clone().into_bytes(),
    };
    let head = case.method == "HEAD";
    let mut info = Info::new(hostile_fields(&case.header));
    let mut sim = Sim::new()?;
    define(0, &ty);
    let log = new_log();
    let reply2 = reply.clone();
    let b = recording(&log, move |_| Action::Reply(reply2.clone()));
    let server = start_server(&mut sim, |s| {
        register(s, 0, 0, &b).map_err(|e| Fault::Violation(format!("registration refused: {}", e)))
    })?;
    if let Mode::ResponseWire = case.mode {
        let mut c = Raw::connect(server.addr)?;
        let req = format!("{} /foo HTTP/1.1\r\nContent-Length: 0\r\n\r\n", case.method);
        c.send(&mut sim, req.as_bytes(), &Seg::whole())?;
        let mut got = None;
        sim.until("response or close", |_| {
            c.fill();
            match http::take_response(&mut c.inbuf, head) {
                Err(e) => violation!("malformed response: {} in {:?}", e, String::from_utf8_lossy(&c.inbuf)),
                Ok(r) => got = r,
            }
            Ok(got.is_some() || c.closed())
        })?;
        match got {
            None => {
                ensure!(
                    c.inbuf.is_empty(),
                    "part of a response was sent: {:?}",
                    String::from_utf8_lossy(&c.inbuf)
                );
                info = info.class("response refused");
            }
            Some(r) => {
                ensure!(r.status == 200, "status {}", r.status);
                let want = wire_headers(&case.header);
                let got = got_headers(&r.headers);
                ensure!(want == got, "header fields {:?} instead of {:?}", got, want);
                ensure!(head || r.body == reply.body, "body {:?} instead of {:?}", r.body, reply.body);
                sim.settle();
                c.fill();
                ensure!(c.inbuf.is_empty(), "bytes after the response: {:?}", String::from_utf8_lossy(&c.inbuf));
                info = info.class("response wire checked");
            }
        }
    } else {
        let calls = Calls::new(&sim);
        let w = calls.call(&sim, case.pooled, server.addr, 0, super::c02::empty_req());
        sim.until("call to resolve", |_| Ok(w.is_done()))?;
        match w.take().unwrap() {
            Err(_) => info = info.class("response refused"),
            Ok(r) => {
                let mut want = reply.clone();
                want.header = want.header.as_ref().map(as_received);
                if let Err(m) = same_response(&want, &r, head) {
                    violation!("the caller got a different response: {}", m);
                }
                info = info.class("response delivered");
            }
        }
    }
    server.alive()?;
    Ok(info)
}
