//! C07: keep-alive histories on interleaved connections.
use crate::dynproc::*;
use crate::engine::*;
use crate::http;
use crate::props::c06::check_problem;
use crate::sim::*;
use crate::world::*;
use fibers::sync::oneshot;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub const SLOT_METHODS: &[&str] = &["GET", "POST", "HEAD", "PUT", "DELETE"];

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    /// Handled; the response has this status and this many body bytes.
    Ok { status: u16, len: u32, wait: bool },
    /// Path variable out of range.
    BadVar,
    /// Required query field missing.
    NoId,
    /// Not a path at all.
    BadTarget,
    NotFound,
    WrongMethod,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Req {
    pub method: u8,
    pub kind: Kind,
    #[serde(with = "bodyfmt")]
    pub body: Vec<u8>,
    pub no_length: bool,
    /// Bytes of an unknown query parameter, number of unknown header fields.
    #[serde(default)]
    pub extra: (u16, u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub read: Vec<ReadMode>,
    /// The requests of each connection.
    pub conns: Vec<Vec<Req>>,
    /// (connection, number of bytes to send, steps to run afterwards)
    pub schedule: Vec<(u8, u16, u8)>,
    /// Requests are sent without waiting for the responses (pipelining).
    #[serde(default)]
    pub eager: bool,
    /// The only request is one whose length is not plain.
    #[serde(default)]
    pub odd: Option<Odd>,
    /// So many small requests on the first connection to begin with.
    #[serde(default)]
    pub warm: u32,
}
/// A request whose end can be read in two ways; its body contains another request.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Odd {
    pub how: How,
    pub swap: bool,
    pub req: Req,
    #[serde(with = "bodyfmt")]
    pub pad: Vec<u8>,
    pub seg: Seg,
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum How {
    /// Content-Length and Transfer-Encoding.
    Both,
    /// Two different Content-Lengths.
    Lengths,
    /// Just chunked, which need not be supported.
    Chunked,
}

/// The procedures: METHOD /p/{u8}?id=..&status=..&len=..&wait=..
pub fn proc_for(method: &str) -> ProcTy {
    ProcTy {
        method: method.to_string(),
        entry: vec![Some("p".into()), None],
        req: ReqTy {
            path: Some(PathTy::Tuple(vec![Ty::U8])),
            query: Some(FieldsTy::Struct(vec![
                ("id".into(), Ty::U32),
                ("status".into(), Ty::U16),
                ("len".into(), Ty::U32),
                ("wait".into(), Ty::Bool),
            ])),
            header: None,
            wrapped: false,
        },
        resp: RespTy::Struct {
            header: Some(FieldsTy::Struct(vec![("x-id".into(), Ty::U32)])),
            wrapped: false,
        },
    }
}
pub fn reply_for(status: u16, id: u32, len: u32) -> RespVal {
    RespVal {
        status,
        header: Some(FieldsVal::Struct(vec![Val::U(id as u64)])),
        // Damaged requests (C08) may ask for anything.
        body: bodyfmt::pattern((len as usize).min(20_000_000), id as u8),
    }
}
pub type Gates = Arc<Mutex<HashMap<u32, (oneshot::Sender<RespVal>, RespVal)>>>;

/// A behaviour for `proc_for` that obeys the request; waiting calls leave their gate here.
pub fn obeying(log: &Log, gates: &Gates) -> Behaviour {
    let gates = Arc::clone(gates);
    recording(log, move |inv| {
        let q = match &inv.req.query {
            Some(FieldsVal::Struct(v)) => v.clone(),
            _ => panic!("harness: query"),
        };
        let num = |v: &Val| match v {
            Val::U(n) => *n,
            _ => panic!("harness: query field"),
        };
        let (id, status, len) = (num(&q[0]) as u32, num(&q[1]) as u16, num(&q[2]) as u32);
        let reply = reply_for(status, id, len);
        if q[3] == Val::Bool(true) {
            let (tx, rx) = oneshot::channel();
            gates.lock().unwrap().insert(id, (tx, reply));
            Action::Wait(rx)
        } else {
            Action::Reply(reply)
        }
    })
}
pub fn open_gate(gates: &Gates, id: u32) -> bool {
    match gates.lock().unwrap().remove(&id) {
        Some((tx, r)) => {
            let _ = tx.send(r);
            true
        }
        None => false,
    }
}

const EXTRA: &[(&str, &str)] = &[
    ("Host", "example.com"),
    ("User-Agent", "Mozilla/5.0 (X11; Linux x86_64) HEAD"),
    ("Accept", "*/*"),
    ("Connection", "keep-alive"),
    ("X-Content-Length", "7"),
    ("Cookie", "a=b; c=\"d\"; HEAD /p/1 HTTP/1.1"),
    ("X-Empty", ""),
    ("Accept-Encoding", "gzip, chunked"),
    ("X-Id", "4000001"),
    ("Status", "500"),
];
pub fn wire(r: &Req, id: u32) -> (String, Vec<u8>) {
    let (mut method, target) = match r.kind {
        Kind::Ok { status, len, wait } => (
            SLOT_METHODS[r.method as usize % SLOT_METHODS.len()],
            format!("/p/{}?id={}&status={}&len={}&wait={}", id % 256, id, status, len, wait),
        ),
        Kind::BadVar => (
            SLOT_METHODS[r.method as usize % SLOT_METHODS.len()],
            format!("/p/300?id={}&status=200&len=5&wait=false", id),
        ),
        Kind::NoId => (
            SLOT_METHODS[r.method as usize % SLOT_METHODS.len()],
            "/p/1?status=200&len=5&wait=false".to_string(),
        ),
        Kind::BadTarget => (
            SLOT_METHODS[r.method as usize % SLOT_METHODS.len()],
            "mailto:someone".to_string(),
        ),
        Kind::NotFound => (
            SLOT_METHODS[r.method as usize % SLOT_METHODS.len()],
            format!("/q/{}?id={}", id, id),
        ),
        Kind::WrongMethod => ("PATCH", format!("/p/{}?id={}&status=200&len=5&wait=false", id % 256, id)),
    };
    if let (Kind::WrongMethod, 0) = (r.kind, r.method % 3) {
        method = "OPTIONS";
    }
    let pad = match r.extra.0 {
        n if n > 0 && target.contains('?') => format!("&pad={}", "z".repeat(n as usize)),
        _ => String::new(),
    };
    let mut out = format!("{} {}{} HTTP/1.1\r\n", method, target, pad).into_bytes();
    for i in 0..r.extra.1 {
        let (name, value) = EXTRA[(id as usize + i as usize) % EXTRA.len()];
        out.extend_from_slice(format!("{}: {}\r\n", name, value).as_bytes());
    }
    if !(r.no_length && r.body.is_empty()) {
        out.extend_from_slice(format!("Content-Length: {}\r\n", r.body.len()).as_bytes());
    }
    out.extend_from_slice(b"\r\n");
    out.extend_from_slice(&r.body);
    (method.to_string(), out)
}

/// Judges the response to a request; `invoked` are the invocations that carry its id.
pub fn judge(
    r: &Req,
    id: u32,
    method: &str,
    resp: &http::RawResponse,
    log: &Log,
    read: Option<ReadMode>,
    what: &str,
) -> Result<(), Fault> {
    let head = method == "HEAD";
    let mine: Vec<Invocation> = log
        .lock()
        .unwrap()
        .iter()
        .filter(|i| match &i.req.query {
            Some(FieldsVal::Struct(v)) => v[0] == Val::U(id as u64),
            _ => false,
        })
        .cloned()
        .collect();
    match r.kind {
        Kind::Ok { status, len, .. } => {
            ensure!(mine.len() == 1, "{}: {} invocations", what, mine.len());
            ensure!(resp.status == status, "{}: status {} instead of {}", what, resp.status, status);
            ensure!(
                resp.header("x-id").map(|v| v.to_vec()) == Some(id.to_string().into_bytes()),
                "{}: the response belongs to request {:?}",
                what, resp.header("x-id").map(|v| String::from_utf8_lossy(v).into_owned())
            );
            if !head {
                let e = reply_for(status, id, len).body;
                ensure!(resp.body == e, "{}: {}", what, body_diff(&e, &resp.body));
            }
            let got = &mine[0].req.body;
            match read {
                Some(ReadMode::AtMost(n)) => {
                    ensure!(
                        r.body.starts_with(got) && got.len() == n.min(r.body.len()),
                        "{}: {}", what, body_diff(&r.body, got)
                    );
                }
                _ => ensure!(*got == r.body, "{}: request {}", what, body_diff(&r.body, got)),
            }
            ensure!(
                mine[0].declared == Some(r.body.len() as u64),
                "{}: content length {:?} reported for {} bytes", what, mine[0].declared, r.body.len()
            );
        }
        _ => {
            ensure!(mine.is_empty(), "{}: the handler ran", what);
            let status = match r.kind {
                Kind::NotFound => 404,
                Kind::WrongMethod => 405,
                _ => 400,
            };
            check_problem(resp, status, head, what)?;
        }
    }
    Ok(())
}

pub fn req_strategy() -> BoxedStrategy<Req> {
    let ok = (
        select(vec![200u16, 200, 200, 201, 400, 404, 500, 204, 304]),
        prop_oneof![60 => 0u32..20, 20 => select(vec![1000u32, 1023, 1024, 1025, 8096, 9000, 70000]), 1 => Just(3_000_000u32)],
        proptest::bool::weighted(0.3),
    )
        .prop_map(|(status, len, wait)| Kind::Ok {
            status,
            len,
            wait,
        });
    let kind = prop_oneof![
        8 => ok,
        1 => Just(Kind::BadVar),
        1 => Just(Kind::NoId),
        1 => Just(Kind::BadTarget),
        1 => Just(Kind::NotFound),
        1 => Just(Kind::WrongMethod),
    ];
    let body = prop_oneof![
        3 => Just(vec![]),
        2 => vec(any::<u8>(), 1..40),
        2 => Just(b"GET /p/7?id=4000000&status=200&len=3&wait=false HTTP/1.1\r\n\r\n".to_vec()),
        1 => Just(b"\r\n\r\n".to_vec()),
        1 => (select(vec![900usize, 1024, 1025, 8096, 8097, 20000, 66000]), any::<u8>()).prop_map(|(n, s)| bodyfmt::pattern(n, s)),
    ];
    let extra = prop_oneof![
        6 => Just((0u16, 0u8)),
        2 => (Just(0u16), 0u8..31),
        1 => (0u16..100, Just(0u8)),
        1 => (100u16..6500, 0u8..10),
    ];
    (any::<u8>(), kind, body, proptest::bool::weighted(0.3), extra)
        .prop_map(|(method, kind, body, no_length, extra)| Req { method, kind, body, no_length, extra })
        .boxed()
}

struct Conn {
    raw: Raw,
    next: usize,
    rest: Vec<u8>,
    current: Option<(usize, u32, String)>,
}

fn odd_strategy() -> BoxedStrategy<Odd> {
    (
        select(vec![How::Both, How::Lengths, How::Chunked]),
        any::<bool>(),
        req_strategy(),
        prop_oneof![2 => Just(vec![]), 2 => vec(any::<u8>(), 1..10), 1 => Just(bodyfmt::pattern(9000, 3))],
        seg_strategy(),
    )
        .prop_map(|(how, swap, req, pad, seg)| Odd { how, swap, req, pad, seg })
        .boxed()
}

/// No part of the body is executed, nor is a request without a definite end.
fn run_odd(odd: &Odd, sim: &mut Sim, addr: std::net::SocketAddr, log: &Log, gates: &Gates) -> Result<(), Fault> {
    const INNER: u32 = 4_000_000;
    let mut plain = odd.req.clone();
    plain.body = vec![];
    plain.no_length = true;
    let (method, bytes) = wire(&plain, 7);
    let mut out = bytes[..bytes.len() - 2].to_vec();
    let inner = format!("GET /p/7?id={}&status=200&len=3&wait=false HTTP/1.1\r\n\r\n", INNER).into_bytes();
    let mut content = odd.pad.clone();
    content.extend_from_slice(&inner);
    let mut lines: Vec<String>;
    let body;
    if odd.how == How::Lengths {
        lines = vec![format!("Content-Length: {}", odd.pad.len()), format!("Content-Length: {}", content.len())];
        body = content.clone();
    } else {
        let mut b = format!("{:x}\r\n", content.len()).into_bytes();
        let n = b.len() + odd.pad.len();
        b.extend_from_slice(&content);
        b.extend_from_slice(b"\r\n0\r\n\r\n");
        body = b;
        lines = vec!["Transfer-Encoding: chunked".into()];
        if odd.how == How::Both {
            lines.push(format!("Content-Length: {}", n));
        }
    }
    if odd.swap {
        lines.reverse();
    }
    for l in lines {
        out.extend_from_slice(l.as_bytes());
        out.extend_from_slice(b"\r\n");
    }
    out.extend_from_slice(b"\r\n");
    let head = out.len();
    out.extend_from_slice(&body);
    let what = format!("{} {:?} with an odd length ({:?})", method, odd.req.kind, odd.how);
    let mut c = Raw::connect(addr)?;
    // The head, and then what one of the readings takes for the rest of the request, come
    // first, so that the server has to decide.
    let at = head + if odd.how == How::Lengths { odd.pad.len() } else { body.len() - content.len() - 7 + odd.pad.len() };
    c.send(sim, &out[..head], &Seg::whole())?;
    sim.pump(odd.seg.pump(0));
    c.send(sim, &out[head..at], &odd.seg)?;
    sim.pump(odd.seg.pump(1));
    c.send(sim, &out[at..], &odd.seg)?;
    let mut answer = None;
    sim.until(&format!("{}: answer or end", what), |_| {
        c.fill();
        open_gate(gates, 7);
        match http::take_response(&mut c.inbuf, method == "HEAD") {
            Ok(Some(r)) => {
                answer = Some(r.status);
                Ok(true)
            }
            Ok(None) => Ok(c.closed()),
            Err(e) => violation!("{}: malformed response: {}", what, e),
        }
    })?;
    sim.pump(60);
    c.half_close();
    sim.until(&format!("{}: end", what), |_| {
        c.fill();
        open_gate(gates, 7);
        Ok(c.closed())
    })?;
    ensure!(invoked(log, INNER) == 0, "{}: a part of its body was executed", what);
    let ran = invoked(log, 7);
    if odd.how == How::Chunked {
        // Supported or not.
        ensure!(ran <= 1, "{}: {} invocations", what, ran);
    } else {
        ensure!(ran == 0, "{}: executed", what);
        ensure!(answer.map_or(true, |s| s >= 400), "{}: answered with status {:?}", what, answer);
    }
    Ok(())
}

pub struct C07;
impl Property for C07 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "scripts of requests for 1-3 connections (rarely up to 39, or up to 289 requests on one) and a schedule that interleaves their segments, one in five without waiting for responses, or one request whose length is contradictory or chunked; non-trivial if some connection carries at least two requests"
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "request bodies have a declared length (a chunked one may be refused)".into(),
        ]
    }
    fn cases(&self) -> u64 {
        70000
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case> {
        let deep = if tier == Tier::Thorough { 12 } else { 7 };
        let read = prop_oneof![
            3 => Just(ReadMode::All),
            2 => select(vec![0usize, 1, 5, 100, 1024, 5000]).prop_map(ReadMode::AtMost),
        ];
        (
            vec(read, SLOT_METHODS.len()),
            prop_oneof![
                300 => vec(vec(req_strategy(), 1..deep), 1..4),
                // Long-lived connections, and many of them.
                2 => vec(vec(req_strategy(), 20..290), 1..3),
                2 => vec(vec(req_strategy(), 1..5), 5..40),
            ],
            vec(
                (any::<u8>(), prop_oneof![1u16..60, Just(1000u16), Just(60000u16)], prop_oneof![Just(0u8), 1u8..12, Just(60u8)]),
                0..30,
            ),
            proptest::bool::weighted(0.2),
            proptest::option::weighted(0.08, odd_strategy()),
        )
            .prop_map(|(read, conns, schedule, eager, odd)| match odd {
                Some(_) => Case { read, conns: vec![], schedule: vec![], eager: false, odd, warm: 0 },
                None => Case { read, conns, schedule, eager, odd, warm: 0 },
            })
            .boxed()
    }
    fn run(&self, case: &Case) -> Verdict {
        let mut sim = Sim::new()?;
        for (i, m) in SLOT_METHODS.iter().enumerate() {
            define(i, &proc_for(m));
            set_read_mode(i, case.read[i]);
        }
        let log = new_log();
        let gates: Gates = Default::default();
        let b = obeying(&log, &gates);
        let server = start_server(&mut sim, |s| {
            for i in 0..SLOT_METHODS.len() {
                register(s, i, i as u64, &b)
                    .map_err(|e| Fault::Violation(format!("registration refused: {}", e)))?;
            }
            Ok(())
        })?;
        if let Some(odd) = &case.odd {
            run_odd(odd, &mut sim, server.addr, &log, &gates)?;
            server.alive()?;
            return Ok(Info::new(true).class(format!("odd length: {:?}", odd.how)));
        }
        let mut conns = Vec::new();
        for _ in &case.conns {
            conns.push(Conn { raw: Raw::connect(server.addr)?, next: 0, rest: vec![], current: None });
        }
        for i in 0..case.warm {
            let id = 1_000_000 + i;
            let kind = if i % 5 == 4 { Kind::NotFound } else { Kind::Ok { status: 200, len: 3, wait: false } };
            let r = Req { method: i as u8, kind, body: vec![], no_length: i % 2 == 0, extra: (0, 0) };
            let (m, bytes) = wire(&r, id);
            conns[0].raw.send(&mut sim, &bytes, &Seg::whole())?;
            let what = format!("request {} on the connection", i);
            let resp = http::expect_response(&mut sim, &mut conns[0].raw, m == "HEAD", &what)?;
            judge(&r, id, &m, &resp, &log, None, &what)?;
            log.lock().unwrap().clear();
        }
        if case.eager {
            run_eager(case, &mut sim, &mut conns, &log, &gates)?;
            server.alive()?;
            return Ok(Info::new(case.conns.iter().any(|c| c.len() > 1))
                .units(case.conns.iter().map(|c| c.len() as u64).sum())
                .class("pipelining"));
        }
        let mut units = 0;
        let mut overlap = false;
        let mut act = |sim: &mut Sim, conns: &mut Vec<Conn>, k: usize, n: usize, pump: usize| -> Result<bool, Fault> {
            overlap |= conns.iter().filter(|c| c.current.is_some()).count() > 1;
            let c = &mut conns[k];
            if c.current.is_none() {
                if c.next == case.conns[k].len() {
                    return Ok(false);
                }
                let id = (k * 1000 + c.next) as u32;
                let (m, bytes) = wire(&case.conns[k][c.next], id);
                c.rest = bytes;
                c.current = Some((c.next, id, m));
                c.next += 1;
            }
            if !c.rest.is_empty() {
                let n = n.min(c.rest.len());
                let part: Vec<u8> = c.rest.drain(..n).collect();
                c.raw.send(sim, &part, &Seg::whole())?;
                sim.pump(pump);
                return Ok(true);
            }
            let (i, id, m) = c.current.clone().unwrap();
            let r = &case.conns[k][i];
            let what = format!("connection {} request {} ({} {:?}, body of {} bytes)", k, i, m, r.kind, r.body.len());
            if let Kind::Ok { wait: true, .. } = r.kind {
                // The handler has to have been called; then its gate opens.
                sim.until(&format!("{}: handler to run", what), |_| Ok(gates.lock().unwrap().contains_key(&id)))?;
                sim.pump(pump);
                c.raw.fill();
                ensure!(c.raw.inbuf.is_empty(), "{}: bytes before the handler has answered", what);
                open_gate(&gates, id);
            }
            let resp = http::expect_response(sim, &mut c.raw, m == "HEAD", &what)?;
            judge(r, id, &m, &resp, &log, Some(case.read[r.method as usize % SLOT_METHODS.len()]), &what)?;
            c.raw.fill();
            ensure!(
                c.raw.inbuf.is_empty(),
                "{}: {} bytes after the response: {:?}",
                what, c.raw.inbuf.len(), String::from_utf8_lossy(&c.raw.inbuf[..c.raw.inbuf.len().min(200)])
            );
            ensure!(!c.raw.closed(), "{}: the server closed the connection after the response", what);
            c.current = None;
            units += 1;
            Ok(true)
        };
        let k = case.conns.len();
        for (c, n, p) in &case.schedule {
            act(&mut sim, &mut conns, *c as usize % k, *n as usize, *p as usize)?;
        }
        for i in 0..k {
            while act(&mut sim, &mut conns, i, usize::MAX, 0)? {}
        }
        // Nothing else is sent, nobody is disconnected.
        sim.pump(60);
        for (i, c) in conns.iter_mut().enumerate() {
            c.raw.fill();
            ensure!(c.raw.inbuf.is_empty(), "connection {}: unsolicited bytes {:?}", i, String::from_utf8_lossy(&c.raw.inbuf));
            ensure!(!c.raw.closed(), "connection {}: closed by the server", i);
        }
        let total: usize = case.conns.iter().flatten().filter(|r| matches!(r.kind, Kind::Ok { .. })).count();
        let ran = log.lock().unwrap().len();
        ensure!(ran == total, "{} handler invocations for {} requests", ran, total);
        server.alive()?;
        let all = || case.conns.iter().flatten();
        Ok(Info::new(case.conns.iter().any(|c| c.len() > 1))
            .units(units)
            .class_if(overlap, "overlapping requests on several connections")
            .class_if(case.conns.iter().any(|c| c.len() >= 100), "100 requests or more on a connection")
            .class_if(case.conns.len() >= 20, "20 connections or more")
            .class_if(all().any(|r| !matches!(r.kind, Kind::Ok { .. }) && !r.body.is_empty()), "rejected request with a body")
            .class_if(all().any(|r| r.method as usize % SLOT_METHODS.len() == 2), "HEAD")
            .class_if(case.read.iter().any(|r| *r != ReadMode::All), "body partly read")
            .class_if(all().any(|r| matches!(r.kind, Kind::Ok { wait: true, .. })), "late answer"))
    }
}

/// All requests of a connection are sent one after the other; the responses come in order.
fn run_eager(case: &Case, sim: &mut Sim, conns: &mut Vec<Conn>, log: &Log, gates: &Gates) -> Result<(), Fault> {
    let k = conns.len();
    let mut methods: Vec<Vec<String>> = vec![vec![]; k];
    for (i, c) in conns.iter_mut().enumerate() {
        for (j, r) in case.conns[i].iter().enumerate() {
            let (m, bytes) = wire(r, (i * 1000 + j) as u32);
            c.rest.extend_from_slice(&bytes);
            methods[i].push(m);
        }
    }
    let open = |gates: &Gates| {
        let ids: Vec<u32> = gates.lock().unwrap().keys().cloned().collect();
        for id in ids {
            open_gate(gates, id);
        }
    };
    for (c, n, p) in &case.schedule {
        let c = &mut conns[*c as usize % k];
        let n = (*n as usize).min(c.rest.len());
        let n = c.raw.write_some(&c.rest[..n]);
        c.rest.drain(..n);
        sim.pump(*p as usize);
        if *p % 3 == 0 {
            open(gates);
        }
    }
    let mut answered = vec![0; k];
    let mut ended = vec![false; k];
    sim.until("the responses to requests sent without waiting", |sim| {
        open(gates);
        for (i, c) in conns.iter_mut().enumerate() {
            if !c.rest.is_empty() {
                let n = c.raw.write_some(&c.rest);
                c.rest.drain(..n);
            }
            sim.pump(1);
            c.raw.fill();
            let j = answered[i];
            if j == case.conns[i].len() || ended[i] {
                continue;
            }
            let r = &case.conns[i][j];
            let m = &methods[i][j];
            let what = format!(
                "connection {} request {} of {} sent at once ({} {:?}, body of {} bytes)",
                i, j, case.conns[i].len(), m, r.kind, r.body.len()
            );
            match http::take_response(&mut c.raw.inbuf, m == "HEAD") {
                Err(e) => violation!("{}: malformed response: {}", what, e),
                Ok(Some(resp)) => {
                    judge(r, (i * 1000 + j) as u32, m, &resp, log, Some(case.read[r.method as usize % SLOT_METHODS.len()]), &what)?;
                    answered[i] += 1;
                }
                Ok(None) if c.raw.closed() => {
                    // The server need not answer requests that it got too early. (The end of a
                    // long response may be lost because unread requests make it a reset.)
                    ended[i] = true;
                    if !case.conns[i][..j + 1].iter().any(|r| matches!(r.kind, Kind::Ok { len, .. } if len > 20000)) {
                        ensure!(j > 0, "{}: closed without any response", what);
                        ensure!(c.raw.inbuf.is_empty(), "{}: incomplete response", what);
                        ensure!(invoked(log, (i * 1000 + j) as u32) == 0, "{}: executed, but not answered", what);
                        for l in j + 1..case.conns[i].len() {
                            ensure!(invoked(log, (i * 1000 + l) as u32) == 0, "connection {}: request {} executed, but not request {}", i, l, j);
                        }
                    }
                }
                Ok(None) => {}
            }
        }
        Ok((0..k).all(|i| ended[i] || answered[i] == case.conns[i].len()))
    })?;
    sim.pump(60);
    for (i, c) in conns.iter_mut().enumerate() {
        c.raw.fill();
        ensure!(
            ended[i] || c.raw.inbuf.is_empty(),
            "connection {}: unsolicited bytes {:?}", i, String::from_utf8_lossy(&c.raw.inbuf)
        );
    }
    // Nothing was executed that was not sent.
    for inv in log.lock().unwrap().iter() {
        let id = match &inv.req.query {
            Some(FieldsVal::Struct(v)) => v[0].clone(),
            _ => Val::Unit,
        };
        let known = (0..k).any(|i| (0..case.conns[i].len()).any(|j| {
            id == Val::U((i * 1000 + j) as u64) && matches!(case.conns[i][j].kind, Kind::Ok { .. })
        }));
        ensure!(known, "the handler was invoked with a request that was not sent: {:?}", inv.req.query);
    }
    Ok(())
}
fn invoked(log: &Log, id: u32) -> usize {
    log.lock()
        .unwrap()
        .iter()
        .filter(|i| matches!(&i.req.query, Some(FieldsVal::Struct(v)) if v[0] == Val::U(id as u64)))
        .count()
}
