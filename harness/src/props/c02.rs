//! C02: responses reach the caller unchanged, or the call fails.
use super::tight;
use crate::dynproc::*;
use crate::engine::*;
use crate::gen;
use crate::http;
use crate::refmodel;
use crate::sim::*;
use crate::world::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Mode {
    /// The htrpc server sends it.
    Server,
    /// A foreign server sends it in the given pieces.
    Raw { seg: Seg, upper: bool, extra: bool, reverse: bool },
    /// A foreign server sends a status the type does not declare.
    OtherStatus { status: u16 },
    /// A foreign server leaves out the n-th declared field.
    Missing { field: u8 },
    /// A foreign server sends a wrong value for the n-th field.
    IllTyped { field: u8, text: String },
    /// The handler answers with a status that does not exist.
    Unencodable { status: u16 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub method: String,
    pub ty: RespTy,
    pub val: RespVal,
    pub mode: Mode,
    pub pooled: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Any {
    Derived { derived: super::derived::Case },
    Tight { tight: tight::Case },
    Dyn(Case),
}

pub struct C02;

fn proc_ty(c: &Case) -> ProcTy {
    ProcTy {
        method: c.method.clone(),
        entry: vec![Some("foo".into())],
        req: ReqTy { path: None, query: None, header: None, wrapped: false },
        resp: c.ty.clone(),
    }
}

pub fn raw_response(
    status: u16,
    headers: &[(String, Vec<u8>)],
    body: &[u8],
    head: bool,
    upper: bool,
) -> Vec<u8> {
    let mut out = format!("HTTP/1.1 {} Whatever\r\n", status).into_bytes();
    for (k, v) in headers {
        let k = if upper { k.to_ascii_uppercase() } else { k.clone() };
        out.extend_from_slice(k.as_bytes());
        out.extend_from_slice(b": ");
        out.extend_from_slice(v);
        out.extend_from_slice(b"\r\n");
    }
    out.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
    if !head {
        out.extend_from_slice(body);
    }
    out
}

/// Starts a call to slot 0 at the address, plain or through a new pool.
pub struct Calls {
    pub handle: htrpc::pool::RpcClientPoolHandle,
    pub pool: Watch<(), ()>,
}
impl Calls {
    pub fn new(sim: &Sim) -> Calls {
        let mut pool = htrpc::pool::RpcClientPool::new();
        // A busy machine must not look like a dead server.
        pool.set_connect_timeout(std::time::Duration::from_secs(60));
        let handle = pool.handle();
        Calls { handle, pool: sim.watch(pool) }
    }
    pub fn call(
        &self,
        sim: &Sim,
        pooled: bool,
        addr: std::net::SocketAddr,
        slot: usize,
        v: ReqVal,
    ) -> Watch<RespVal, htrpc::Error> {
        if pooled {
            sim.watch(call_pool(&self.handle, addr, slot, v))
        } else {
            sim.watch(call_plain(addr, slot, v))
        }
    }
}

pub fn empty_req() -> ReqVal {
    ReqVal { path: vec![], query: None, header: None, body: vec![] }
}

pub fn accept(sim: &mut Sim, l: &std::net::TcpListener) -> Result<Raw, Fault> {
    let mut got = None;
    sim.until("client to connect", |_| {
        got = Raw::accept(l)?;
        Ok(got.is_some())
    })?;
    Ok(got.unwrap())
}

impl Property for C02 {
    type Case = Any;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "the response has a status other than 200, a header field or a body, or is one the caller must refuse"
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "response heads below the 8096 byte / 32 field limits of the HTTP layer".into(),
            "responses with a declared length".into(),
        ]
    }
    fn cases(&self) -> u64 {
        80000
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Any> {
        let mode = prop_oneof![
            6 => Just(Mode::Server),
            5 => (seg_strategy(), any::<bool>(), any::<bool>(), any::<bool>())
                .prop_map(|(seg, upper, extra, reverse)| Mode::Raw { seg, upper, extra, reverse }),
            2 => prop_oneof![
                3 => select(STATUSES).prop_map(|s| s.0),
                1 => select(vec![103u16, 199, 209, 299, 306, 399, 419, 420, 425, 428, 431, 499, 511, 599, 600, 999]),
            ].prop_map(|status| Mode::OtherStatus { status }),
            2 => any::<u8>().prop_map(|field| Mode::Missing { field }),
            2 => (any::<u8>(), gen::header_text()).prop_map(|(field, text)| Mode::IllTyped { field, text }),
            1 => select(vec![0u16, 1, 99, 103, 209, 299, 306, 425, 429, 511, 599, 600, 999, 1000, 65535])
                .prop_map(|status| Mode::Unencodable { status }),
        ];
        let dynamic = (gen::method(), gen::response(), mode, any::<bool>())
            .prop_map(|(method, (ty, val), mode, pooled)| Case { method, ty, val, mode, pooled })
            .prop_map(Any::Dyn);
        prop_oneof![
            17 => dynamic,
            2 => super::derived::strategy().prop_map(|derived| Any::Derived { derived }),
            1 => tight::strategy(true, &[tight::Way::Response, tight::Way::ResponseWire]).prop_map(|tight| Any::Tight { tight }),
        ]
        .boxed()
    }
    fn run(&self, case: &Any) -> Verdict {
        match case {
            Any::Derived { derived } => super::derived::run(derived, false),
            Any::Tight { tight } => tight::run(tight, true),
            Any::Dyn(c) => self.run_dyn(c),
        }
    }
}
impl C02 {

    fn run_dyn(&self, case: &Case) -> Verdict {
        let p = proc_ty(case);
        let hty = refmodel::resp_header_ty(&case.ty, case.val.status);
        let pairs = match (&hty, &case.val.header) {
            (Some(t), Some(v)) => refmodel::encode_fields(t, v),
            _ => vec![],
        };
        if pairs.iter().map(|p| p.0.len() + p.1.len() + 4).sum::<usize>() > 7500 {
            return Ok(Info::new(false).class("head too large"));
        }
        let head = case.method == "HEAD";
        let mut sim = Sim::new()?;
        define(0, &p);
        let mut info = Info::new(
            case.val.status != 200 || !pairs.is_empty() || !case.val.body.is_empty(),
        )
        .class(match case.ty {
            RespTy::Struct { .. } => "struct",
            RespTy::Enum(_) => "enum",
        })
        .class_if(head, "HEAD")
        .class_if(case.pooled, "pooled");
        // What the caller must see: Some(value), or an error.
        let mut expect: Option<RespVal> = Some(case.val.clone());
        let result;
        match &case.mode {
            Mode::Server | Mode::Unencodable { .. } => {
                let mut reply = case.val.clone();
                if let Mode::Unencodable { status } = case.mode {
                    match case.ty {
                        RespTy::Struct { .. } => {
                            reply.status = status;
                            expect = None;
                            info.nontrivial = true;
                            info = info.class("unknown status from handler");
                        }
                        RespTy::Enum(_) => {}
                    }
                }
                let log = new_log();
                let b = recording(&log, move |_| Action::Reply(reply.clone()));
                let server = start_server(&mut sim, |s| {
                    register(s, 0, 0, &b)
                        .map_err(|e| Fault::Violation(format!("registration refused: {}", e)))
                })?;
                let calls = Calls::new(&sim);
                let w = calls.call(&sim, case.pooled, server.addr, 0, empty_req());
                sim.until("call to resolve", |_| Ok(w.is_done()))?;
                result = w.take().unwrap();
                ensure!(
                    log.lock().unwrap().len() == 1,
                    "{} invocations",
                    log.lock().unwrap().len()
                );
                server.alive()?;
                info = info.class("through the server");
            }
            mode => {
                let (l, addr) = listen_raw()?;
                let calls = Calls::new(&sim);
                let w = calls.call(&sim, case.pooled, addr, 0, empty_req());
                let mut c = accept(&mut sim, &l)?;
                http::expect_request(&mut sim, &mut c, "request")?;
                let mut pairs = pairs.clone();
                let mut status = case.val.status;
                let mut body = case.val.body.clone();
                let mut seg = Seg::whole();
                let mut up = false;
                match mode {
                    Mode::Raw { seg: s, upper, extra, reverse } => {
                        seg = s.clone();
                        up = *upper;
                        let is_map = matches!(hty, Some(FieldsTy::Map { .. }));
                        if *extra && !is_map {
                            pairs.insert(0, ("x-unrelated".into(), b"whatever, 1".to_vec()));
                            pairs.push(("date".into(), b"Thu, 01 Jan 1970 00:00:00 GMT".to_vec()));
                        }
                        if *reverse {
                            pairs.reverse();
                        }
                        info = info.class("foreign server").class_if(seg.positions(100).len() > 1, "segmented");
                    }
                    Mode::OtherStatus { status: s } => {
                        status = *s;
                        match &case.ty {
                            RespTy::Struct { .. } => {
                                // A struct declares every status.
                                expect = Some(RespVal {
                                    status,
                                    header: case.val.header.clone(),
                                    body: body.clone(),
                                });
                            }
                            RespTy::Enum(vs) => {
                                if vs.iter().any(|(n, _)| *n == status_name(status)) {
                                    return Ok(Info::new(false).class("status is declared"));
                                }
                                expect = None;
                                info = info.class("undeclared status");
                                info.nontrivial = true;
                            }
                        }
                    }
                    Mode::Missing { field } => {
                        if let (Some(FieldsTy::Struct(f)), true) = (&hty, true) {
                            let req: Vec<&(String, Ty)> =
                                f.iter().filter(|(_, t)| !matches!(t, Ty::Opt(_))).collect();
                            if req.is_empty() {
                                return Ok(Info::new(false).class("no required field"));
                            }
                            let n = &req[*field as usize % req.len()].0;
                            pairs.retain(|p| p.0 != *n);
                            expect = None;
                            info = info.class("missing header field");
                        } else {
                            return Ok(Info::new(false).class("no required field"));
                        }
                    }
                    Mode::IllTyped { field, text } => {
                        if let (Some(FieldsTy::Struct(f)), false) = (&hty, pairs.is_empty()) {
                            let k = *field as usize % pairs.len();
                            let n = pairs[k].0.clone();
                            let t = &f.iter().find(|x| x.0 == n).unwrap().1;
                            if refmodel::decode(t, text.as_bytes()) != refmodel::Dec::Reject {
                                return Ok(Info::new(false).class("not ill-typed"));
                            }
                            pairs[k].1 = text.as_bytes().to_vec();
                            expect = None;
                            info = info.class("ill-typed header field");
                        } else {
                            return Ok(Info::new(false).class("no header field"));
                        }
                    }
                    _ => unreachable!(),
                }
                let bytes = raw_response(status, &pairs, &body, head, up);
                c.send(&mut sim, &bytes, &seg)?;
                sim.until("call to resolve", |_| Ok(w.is_done()))?;
                result = w.take().unwrap();
                drop(c);
            }
        }
        match (expect, result) {
            (Some(e), Ok(r)) => {
                if let Err(m) = same_response(&e, &r, head) {
                    violation!("response changed: {}", m);
                }
            }
            (Some(e), Err(err)) => {
                violation!("response with status {} not received: {}", e.status, err)
            }
            (None, Err(_)) => {}
            (None, Ok(r)) => violation!("the call should have failed but yielded {:?}", r),
        }
        Ok(info)
    }
}
