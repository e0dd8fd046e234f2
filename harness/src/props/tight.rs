//! Messages whose head has (nearly) the size that the HTTP layer can hold.
use super::c02::{accept, empty_req, Calls};
use crate::dynproc::*;
use crate::engine::*;
use crate::gen;
use crate::http;
use crate::sim::*;
use crate::world::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

/// The HTTP layer's buffer.
const MAX_HEAD: usize = 8096;

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Part {
    Path,
    Query,
    Header,
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Way {
    /// A request through the server.
    Request,
    /// A request read by a foreign server.
    RequestWire,
    /// A response through the client.
    Response,
    /// A response read by a foreign client.
    ResponseWire,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub way: Way,
    /// What is padded.
    pub part: Part,
    /// The size of the whole head.
    pub head: usize,
    /// Further header fields.
    pub fields: usize,
    pub method: String,
    pub body: String,
    pub pooled: bool,
}

/// `fits`: messages that fit, near or far from the limit; otherwise around the limit.
pub fn strategy(fits: bool, ways: &'static [Way]) -> BoxedStrategy<Case> {
    let head = if fits {
        prop_oneof![
            2 => 1500usize..MAX_HEAD - 100,
            2 => MAX_HEAD - 300..MAX_HEAD - 40,
            1 => select(vec![2048usize, 4095, 4096, 4097]),
        ]
        .boxed()
    } else {
        prop_oneof![
            6 => MAX_HEAD - 24..MAX_HEAD + 25,
            1 => MAX_HEAD + 25..MAX_HEAD + 200,
        ]
        .boxed()
    };
    let fields = if fits {
        prop_oneof![3 => Just(0usize), 1 => 1usize..12, 1 => 12usize..31].boxed()
    } else {
        prop_oneof![6 => Just(0usize), 1 => 1usize..36, 1 => 28usize..36].boxed()
    };
    (
        select(ways),
        prop_oneof![Just(Part::Path), Just(Part::Query), Just(Part::Header)],
        head,
        fields,
        gen::method(),
        prop_oneof![2 => Just(0usize), 1 => 1usize..40, 1 => select(vec![999usize, 1000, 10000])],
        any::<bool>(),
    )
        .prop_map(|(way, part, head, fields, method, body, pooled)| Case {
            way,
            part,
            head,
            fields,
            method,
            body: "GET / HTTP/1.1\r\n\r\n".chars().cycle().take(body).collect(),
            pooled,
        })
        .boxed()
}

fn header(case: &Case, pad: Option<usize>) -> (FieldsTy, FieldsVal) {
    let mut names: Vec<(String, String)> =
        (0..case.fields).map(|i| (format!("x-{:02}", i), format!("value {}", i))).collect();
    if let Some(n) = pad {
        names.push(("x-pad".into(), "z".repeat(n)));
    }
    (
        FieldsTy::Struct(names.iter().map(|n| (n.0.clone(), Ty::Str)).collect()),
        FieldsVal::Struct(names.into_iter().map(|n| Val::Str(n.1)).collect()),
    )
}
fn fields_size(case: &Case) -> usize {
    (0..case.fields).map(|i| format!("x-{:02}: value {}\r\n", i, i).len()).sum::<usize>()
        + format!("Content-Length: {}\r\n\r\n", case.body.len()).len()
}

/// `must`: the message has to arrive; otherwise it arrives unchanged or the call fails.
pub fn run(case: &Case, must: bool) -> Verdict {
    match case.way {
        Way::Request | Way::RequestWire => request(case, must),
        Way::Response | Way::ResponseWire => response(case, must),
    }
}

fn request(case: &Case, must: bool) -> Verdict {
    let fixed = fields_size(case)
        + case.method.len()
        + match case.part {
            Part::Path => " / HTTP/1.1\r\n".len(),
            Part::Query => " /foo?p= HTTP/1.1\r\n".len(),
            Part::Header => " /foo HTTP/1.1\r\nx-pad: \r\n".len(),
        };
    let pad = case.head.saturating_sub(fixed).max(1);
    let text = "z".repeat(pad);
    let (hty, hval) = header(case, if case.part == Part::Header { Some(pad) } else { None });
    let path = case.part == Part::Path;
    let query = case.part == Part::Query;
    let ty = ProcTy {
        method: case.method.clone(),
        entry: vec![if path { None } else { Some("foo".into()) }],
        req: ReqTy {
            path: if path { Some(PathTy::Tuple(vec![Ty::Str])) } else { None },
            query: if query { Some(FieldsTy::Struct(vec![("p".into(), Ty::Str)])) } else { None },
            header: Some(hty),
            wrapped: false,
        },
        resp: gen::plain_resp_ty(),
    };
    let val = ReqVal {
        path: if path { vec![Val::Str(text.clone())] } else { vec![] },
        query: if query { Some(FieldsVal::Struct(vec![Val::Str(text.clone())])) } else { None },
        header: Some(hval),
        body: case.body.clone().into_bytes(),
    };
    let mut sim = Sim::new()?;
    define(0, &ty);
    let calls = Calls::new(&sim);
    let mut info = Info::new(true);
    if case.way == Way::RequestWire {
        let (l, addr) = listen_raw()?;
        let w = calls.call(&sim, case.pooled, addr, 0, val.clone());
        let mut c = accept(&mut sim, &l)?;
        let mut got = None;
        sim.until("request or failure", |_| {
            c.fill();
            match http::take_request(&mut c.inbuf) {
                Ok(r) => got = r,
                Err(e) => violation!("malformed request: {} in {:?}", e, short(&c.inbuf)),
            }
            Ok(got.is_some() || w.is_done())
        })?;
        match got {
            None => {
                sim.settle();
                c.fill();
                if let Ok(r) = w.take().unwrap() {
                    violation!("response {:?} without a server", r);
                }
                ensure!(!must, "the request was refused");
                ensure!(c.inbuf.is_empty(), "the call failed but sent {:?}", short(&c.inbuf));
                return Ok(info.class("large head refused"));
            }
            Some(r) => {
                let target = match case.part {
                    Part::Path => format!("/{}", text),
                    Part::Query => format!("/foo?p={}", text),
                    Part::Header => "/foo".to_string(),
                };
                ensure!(r.method == case.method, "method {}", r.method);
                ensure!(r.target == target, "damaged target, {} instead of {} bytes", r.target.len(), target.len());
                let n = r.headers.iter().filter(|h| !h.0.eq_ignore_ascii_case("content-length")).count();
                let want = case.fields + (case.part == Part::Header) as usize;
                ensure!(n == want, "{} instead of {} header fields", n, want);
                if case.part == Part::Header {
                    let h = r.headers.iter().find(|h| h.0.eq_ignore_ascii_case("x-pad"));
                    ensure!(h.map_or(false, |h| h.1 == text.as_bytes()), "the long header field is damaged");
                }
                ensure!(r.body == val.body, "body {}", body_diff(&val.body, &r.body));
                ensure!(c.inbuf.is_empty(), "bytes after the request: {:?}", short(&c.inbuf));
                return Ok(info.class("large head sent"));
            }
        }
    }
    let log = new_log();
    let b = recording(&log, |_| Action::Reply(gen::ok_with(b"")));
    let server = start_server(&mut sim, |s| {
        register(s, 0, 0, &b).map_err(|e| Fault::Violation(format!("registration refused: {}", e)))
    })?;
    let w = calls.call(&sim, case.pooled, server.addr, 0, val.clone());
    sim.until("call to resolve", |_| Ok(w.is_done()))?;
    let r = w.take().unwrap();
    sim.settle();
    let log = log.lock().unwrap();
    match r {
        Err(e) => {
            ensure!(!must, "the call with a head of {} bytes failed: {}", case.head, e);
            ensure!(log.is_empty(), "the call failed ({}) but its handler ran", e);
            info = info.class("large head refused");
        }
        Ok(r) => {
            ensure!(r.status == 200, "status {}", r.status);
            ensure!(log.len() == 1, "{} invocations", log.len());
            if let Err(m) = same_request(&val, &log[0].req) {
                violation!("delivered a different value: {}", m);
            }
            info = info.class("large head delivered");
        }
    }
    server.alive()?;
    ensure!(!calls.pool.is_done(), "the pool future resolved");
    Ok(info)
}

fn response(case: &Case, must: bool) -> Verdict {
    let fixed = fields_size(case) + "HTTP/1.1 200 OK\r\nx-pad: \r\n".len();
    let pad = case.head.saturating_sub(fixed).max(1);
    let (hty, hval) = header(case, Some(pad));
    let ty = ProcTy {
        method: case.method.clone(),
        entry: vec![Some("foo".into())],
        req: ReqTy { path: None, query: None, header: None, wrapped: false },
        resp: RespTy::Struct { header: Some(hty), wrapped: false },
    };
    let reply = RespVal {
        status: 200,
        header: Some(hval),
        body: case.body.clone().into_bytes(),
    };
    let head = case.method == "HEAD";
    let mut info = Info::new(true);
    let mut sim = Sim::new()?;
    define(0, &ty);
    let log = new_log();
    let reply2 = reply.clone();
    let b = recording(&log, move |_| Action::Reply(reply2.clone()));
    let server = start_server(&mut sim, |s| {
        register(s, 0, 0, &b).map_err(|e| Fault::Violation(format!("registration refused: {}", e)))
    })?;
    if case.way == Way::ResponseWire {
        let mut c = Raw::connect(server.addr)?;
        let req = format!("{} /foo HTTP/1.1\r\nContent-Length: 0\r\n\r\n", case.method);
        c.send(&mut sim, req.as_bytes(), &Seg::whole())?;
        let mut got = None;
        sim.until("response or close", |_| {
            c.fill();
            match http::take_response(&mut c.inbuf, head) {
                Err(e) => violation!("malformed response: {} in {:?}", e, short(&c.inbuf)),
                Ok(r) => got = r,
            }
            Ok(got.is_some() || c.closed())
        })?;
        match got {
            None => {
                ensure!(!must, "the response was refused");
                ensure!(c.inbuf.is_empty(), "part of a response was sent: {:?}", short(&c.inbuf));
                info = info.class("large response refused");
            }
            Some(r) => {
                ensure!(r.status == 200, "status {}", r.status);
                let n = r.headers.iter().filter(|h| !h.0.eq_ignore_ascii_case("content-length")).count();
                ensure!(n == case.fields + 1, "{} instead of {} header fields", n, case.fields + 1);
                let h = r.headers.iter().find(|h| h.0.eq_ignore_ascii_case("x-pad"));
                ensure!(h.map_or(false, |h| h.1.len() == pad), "the long header field is damaged");
                ensure!(head || r.body == reply.body, "body {}", body_diff(&reply.body, &r.body));
                sim.settle();
                c.fill();
                ensure!(c.inbuf.is_empty(), "bytes after the response: {:?}", short(&c.inbuf));
                info = info.class("large response sent");
            }
        }
    } else {
        let calls = Calls::new(&sim);
        let w = calls.call(&sim, case.pooled, server.addr, 0, empty_req());
        sim.until("call to resolve", |_| Ok(w.is_done()))?;
        match w.take().unwrap() {
            Err(e) => {
                ensure!(!must, "the call whose answer has a head of {} bytes failed: {}", case.head, e);
                info = info.class("large response refused");
            }
            Ok(r) => {
                if let Err(m) = same_response(&reply, &r, head) {
                    violation!("the caller got a different response: {}", m);
                }
                info = info.class("large response delivered");
            }
        }
    }
    server.alive()?;
    Ok(info)
}

fn short(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let n = s.chars().count();
    if n <= 200 {
        s.into_owned()
    } else {
        format!(
            "{} ... {} ({} bytes)",
            s.chars().take(100).collect::<String>(),
            s.chars().skip(n - 60).collect::<String>(),
            b.len()
        )
    }
}
