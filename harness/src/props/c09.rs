//! C09: connections that end at every byte of a message.
use crate::dynproc::*;
use crate::engine::*;
use crate::gen;
use crate::http;
use crate::props::c02::{accept, empty_req, raw_response, Calls};
use crate::props::c06::{build, Edit};
use crate::refmodel;
use crate::sim::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Cut {
    /// FIN, the reading side stays open.
    HalfClose,
    /// FIN, nothing is read any more.
    Close,
    Reset,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Side {
    /// The request is cut; the server must not act on it.
    Request { entry: Vec<Option<String>>, ty: ReqTy, val: ReqVal, read: ReadMode, edits: Vec<Edit> },
    /// The response is cut; the call must fail.
    Response { ty: RespTy, val: RespVal, pooled: bool },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub method: String,
    pub side: Side,
    pub cut: Cut,
    pub pumps: Vec<u8>,
    /// Positions for long messages, in 1/65536.
    pub places: Vec<u16>,
    /// The body is sent in chunks of these sizes.
    #[serde(default)]
    pub chunks: Option<Vec<u8>>,
}

/// The same message with a chunked body.
fn chunked(bytes: &[u8], hlen: usize, sizes: &[u8]) -> Vec<u8> {
    let length = b"Content-Length:";
    let head = &bytes[..hlen];
    // The length is the last field of the head.
    let at = (0..hlen).rev().find(|i| head[*i..].len() >= length.len() && head[*i..*i + length.len()].eq_ignore_ascii_case(length));
    let mut out = match at {
        Some(at) => head[..at].to_vec(),
        None => head[..hlen - 2].to_vec(),
    };
    if let Some(at) = at {
        let rest = &head[at..];
        let eol = rest.windows(2).position(|w| w == b"\r\n").unwrap() + 2;
        out.extend_from_slice(&rest[eol..rest.len() - 2]);
    }
    out.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
    let mut body = &bytes[hlen..];
    let mut sizes = sizes.iter().cycle();
    while !body.is_empty() {
        let n = (*sizes.next().unwrap() as usize).max(1).min(body.len());
        out.extend_from_slice(format!("{:x}\r\n", n).as_bytes());
        out.extend_from_slice(&body[..n]);
        out.extend_from_slice(b"\r\n");
        body = &body[n..];
    }
    out.extend_from_slice(b"0\r\n\r\n");
    out
}

/// Every position of a short message; of a long one those around the boundaries and some more.
fn positions(len: usize, head: usize, places: &[u16], max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = if len <= max {
        (0..len).collect()
    } else {
        (0..12)
            .chain(head.saturating_sub(8)..head + 8)
            .chain(len.saturating_sub(8)..len)
            .chain([1023, 1024, 1025, 8095, 8096, 8097])
            .chain(places.iter().map(|p| (*p as usize * len) >> 16))
            .filter(|p| *p < len)
            .collect()
    };
    v.sort();
    v.dedup();
    v
}
fn end(c: &mut Raw, how: Cut) {
    match how {
        Cut::HalfClose => c.half_close(),
        Cut::Close => c.close(),
        Cut::Reset => c.abort(),
    }
}

pub struct C09;
impl Property for C09 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "a generated request or response is cut at every byte position (long ones: around all boundaries and at generated positions) by FIN or RST; non-trivial if the message has a body or header fields"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["responses with a declared length or a chunked body".into()]
    }
    fn cases(&self) -> u64 {
        12000
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        let small = prop_oneof![
            4 => vec(any::<u8>(), 0..40),
            1 => gen::body(),
        ];
        let req = (
            gen::request(4),
            small.clone(),
            prop_oneof![3 => Just(ReadMode::All), 1 => (0usize..30).prop_map(ReadMode::AtMost)],
            vec(any::<u8>().prop_map(Edit::HeaderCase), 0..2),
        )
            .prop_map(|((entry, ty, mut val), body, read, edits)| {
                val.body = body;
                Side::Request { entry, ty, val, read, edits }
            });
        let resp = (gen::response(), small, any::<bool>()).prop_map(|((ty, mut val), body, pooled)| {
            val.body = body;
            Side::Response { ty, val, pooled }
        });
        (
            gen::method(),
            prop_oneof![req, resp],
            proptest::sample::select(vec![Cut::HalfClose, Cut::Close, Cut::Reset]),
            vec(prop_oneof![Just(0u8), 1u8..10, Just(40u8)], 1..4),
            vec(any::<u16>(), 0..12),
            proptest::option::weighted(0.15, vec(prop_oneof![1u8..10, any::<u8>()], 1..4)),
        )
            .prop_map(|(method, side, cut, pumps, places, chunks)| Case { method, side, cut, pumps, places, chunks })
            .boxed()
    }
    fn run(&self, case: &Case) -> Verdict {
        let mut sim = Sim::new()?;
        let head = case.method == "HEAD";
        let pump = |i: usize| case.pumps[i % case.pumps.len()] as usize;
        match &case.side {
            Side::Request { entry, ty, val, read, edits } => {
                let p = ProcTy {
                    method: case.method.clone(),
                    entry: entry.clone(),
                    req: ty.clone(),
                    resp: gen::plain_resp_ty(),
                };
                define(0, &p);
                set_read_mode(0, *read);
                let pieces = build(entry, ty, val, edits);
                let bytes = pieces.bytes(&case.method, &val.body);
                let hlen = bytes.len() - val.body.len();
                if hlen > 7500 {
                    return Ok(Info::new(false).class("head too large"));
                }
                let bytes = match &case.chunks {
                    Some(c) => chunked(&bytes, hlen, c),
                    None => bytes,
                };
                let log = new_log();
                let b = recording(&log, |_| Action::Reply(gen::ok_with(b"fine")));
                let server = start_server(&mut sim, |s| {
                    register(s, 0, 0, &b)
                        .map_err(|e| Fault::Violation(format!("registration refused: {}", e)))
                })?;
                let cuts = positions(bytes.len(), hlen, &case.places, 250);
                for (i, at) in cuts.iter().enumerate() {
                    let what = format!(
                        "{} {} cut by {:?} after {} of {} bytes (head of {})",
                        case.method, pieces.target(), case.cut, at, bytes.len(), hlen
                    );
                    let mut c = Raw::connect(server.addr)?;
                    // The server may see the connection before, between or after.
                    let first = if i % 3 == 0 { 0 } else { *at / 2 };
                    c.send(&mut sim, &bytes[..first], &Seg::whole())?;
                    sim.pump(pump(i));
                    c.send(&mut sim, &bytes[first..*at], &Seg::whole())?;
                    sim.pump(pump(i + 1));
                    end(&mut c, case.cut);
                    if case.cut == Cut::HalfClose {
                        // Whatever the server says, it is not a success; then it closes.
                        sim.until(&format!("{}: server to end the connection", what), |_| {
                            c.fill();
                            Ok(c.closed())
                        })?;
                        let mut buf = c.inbuf.clone();
                        if let Ok(Some(r)) = http::take_response(&mut buf, head) {
                            ensure!(r.status >= 400, "{}: answered with status {}", what, r.status);
                        } else {
                            ensure!(buf.is_empty(), "{}: answered with {:?}", what, String::from_utf8_lossy(&buf));
                        }
                    } else {
                        sim.pump(12);
                    }
                    ensure!(
                        log.lock().unwrap().is_empty(),
                        "{}: the handler ran with {:?}", what, log.lock().unwrap()[0].req
                    );
                }
                // The whole request still works; by then the last of the above has been seen.
                let mut c = Raw::connect(server.addr)?;
                c.send(&mut sim, &bytes, &Seg::whole())?;
                if case.chunks.is_some() {
                    // Chunked bodies need not be supported.
                    sim.until("the whole request: response or end", |_| {
                        c.fill();
                        Ok(c.closed() || http::take_response(&mut c.inbuf.clone(), head).map_or(true, |r| r.is_some()))
                    })?;
                    sim.pump(50);
                    let answered = http::take_response(&mut c.inbuf, head).ok().and_then(|r| r).map_or(false, |r| r.status == 200);
                    let log = log.lock().unwrap();
                    ensure!(log.len() == answered as usize, "{} invocations: a request cut by {:?} was executed", log.len(), case.cut);
                    if answered && *read == ReadMode::All {
                        ensure!(log[0].req.body == val.body, "the whole request: {}", body_diff(&val.body, &log[0].req.body));
                    }
                    server.alive()?;
                    return Ok(Info::new(true).units(cuts.len() as u64 + 1).class("chunked request"));
                }
                let r = http::expect_response(&mut sim, &mut c, head, "the whole request")?;
                sim.pump(50);
                let n = log.lock().unwrap().len();
                ensure!(n == 1, "{} invocations: a request cut by {:?} was executed", n, case.cut);
                ensure!(r.status == 200, "the whole request: status {}", r.status);
                server.alive()?;
                Ok(Info::new(bytes.len() > hlen || !pieces.headers.is_empty())
                    .units(cuts.len() as u64 + 1)
                    .class("request")
                    .class(format!("{:?}", case.cut)))
            }
            Side::Response { ty, val, pooled } => {
                let p = ProcTy {
                    method: case.method.clone(),
                    entry: vec![Some("foo".into())],
                    req: ReqTy { path: None, query: None, header: None, wrapped: false },
                    resp: ty.clone(),
                };
                define(0, &p);
                let hty = refmodel::resp_header_ty(ty, val.status);
                let pairs = match (&hty, &val.header) {
                    (Some(t), Some(v)) => refmodel::encode_fields(t, v),
                    _ => vec![],
                };
                let bytes = raw_response(val.status, &pairs, &val.body, head, false);
                let hlen = bytes.len() - if head { 0 } else { val.body.len() };
                if hlen > 7500 {
                    return Ok(Info::new(false).class("head too large"));
                }
                let bytes = match &case.chunks {
                    Some(c) if !head => chunked(&bytes, hlen, c),
                    _ => bytes,
                };
                let (l, addr) = listen_raw()?;
                let calls = Calls::new(&sim);
                let cuts = positions(bytes.len(), hlen, &case.places, 160);
                for (i, at) in cuts.iter().enumerate() {
                    let what = format!(
                        "response cut by {:?} after {} of {} bytes (head of {})",
                        case.cut, at, bytes.len(), hlen
                    );
                    let w = calls.call(&sim, *pooled, addr, 0, empty_req());
                    let mut c = accept(&mut sim, &l)?;
                    http::expect_request(&mut sim, &mut c, "request")?;
                    let first = if i % 3 == 0 { 0 } else { *at / 2 };
                    c.send(&mut sim, &bytes[..first], &Seg::whole())?;
                    sim.pump(pump(i));
                    c.send(&mut sim, &bytes[first..*at], &Seg::whole())?;
                    sim.pump(pump(i + 1));
                    if *at > 0 {
                        ensure!(!w.is_done() || w.cell.lock().unwrap().as_ref().unwrap().is_err(),
                            "{}: the call was complete before the end", what);
                    }
                    end(&mut c, case.cut);
                    sim.until(&format!("{}: call to resolve", what), |_| Ok(w.is_done()))?;
                    if let Ok(r) = w.take().unwrap() {
                        violation!("{}: the call yielded {:?}", what, r);
                    }
                }
                // The whole response still works.
                let w = calls.call(&sim, *pooled, addr, 0, empty_req());
                let mut c = accept(&mut sim, &l)?;
                http::expect_request(&mut sim, &mut c, "request")?;
                c.send(&mut sim, &bytes, &Seg::whole())?;
                sim.until("whole response: call to resolve", |_| Ok(w.is_done()))?;
                match w.take().unwrap() {
                    Ok(r) => {
                        if let Err(m) = same_response(val, &r, head) {
                            violation!("whole response: {}", m);
                        }
                    }
                    // Chunked bodies need not be supported.
                    Err(_) if case.chunks.is_some() => {}
                    Err(e) => violation!("whole response: {}", e),
                }
                ensure!(!calls.pool.is_done(), "the pool future resolved");
                Ok(Info::new(bytes.len() > hlen || !pairs.is_empty())
                    .units(cuts.len() as u64 + 1)
                    .class("response")
                    .class_if(*pooled, "pooled")
                    .class_if(case.chunks.is_some(), "chunked response")
                    .class(format!("{:?}", case.cut)))
            }
        }
    }
}
