//! C10: the bytes on the wire, read by the independent HTTP reader.
use crate::dynproc::*;
use crate::engine::*;
use crate::gen;
use crate::http;
use crate::props::c02::{raw_response, Calls};
use crate::refmodel::{self, Dec};
use crate::sim::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Case {
    Request { method: String, entry: Vec<Option<String>>, ty: ReqTy, val: ReqVal, pooled: bool },
    Response { method: String, ty: RespTy, val: RespVal },
}

/// The text of a value as it must appear: exact, except for floats and JSON, which have to
/// denote the same value.
fn spelled(t: &Ty, v: &Val, text: &[u8]) -> Result<(), String> {
    match (t, v) {
        (Ty::Newtype(t), v) => return spelled(t, v, text),
        (Ty::VariantOf(t), v) => return spelled(t, v, text),
        (Ty::Opt(t), Val::Some(v)) => return spelled(t, v, text),
        (Ty::F32, _) | (Ty::F64, _) => match refmodel::decode(t, text) {
            Dec::Must(x) | Dec::May(x) if x == *v => return Ok(()),
            _ => {}
        },
        (Ty::Json, Val::Json(j)) | (Ty::JsonPretty, Val::Json(j)) => {
            if let Ok(x) = serde_json::from_slice::<serde_json::Value>(text) {
                let one_line = !text.contains(&b'\n');
                if x == *j && (one_line || *t == Ty::JsonPretty) {
                    return Ok(());
                }
            }
        }
        _ => {
            if refmodel::text_of(t, v).map_or(false, |x| x == text) {
                return Ok(());
            }
        }
    }
    Err(format!("{:?} of type {:?} is sent as {:?}", v, t, String::from_utf8_lossy(text)))
}

/// The (name, type, value) triples that have to appear, in order.
fn expected(t: &Option<FieldsTy>, v: &Option<FieldsVal>) -> Vec<(String, Ty, Val)> {
    match (t, v) {
        (Some(FieldsTy::Struct(f)), Some(FieldsVal::Struct(v))) => f
            .iter()
            .zip(v)
            .filter(|(_, v)| **v != Val::None)
            .map(|((n, t), v)| (n.clone(), t.clone(), v.clone()))
            .collect(),
        (Some(FieldsTy::Map { key, val }), Some(FieldsVal::Map(m))) => m
            .iter()
            .filter(|(_, v)| *v != Val::None)
            .map(|(k, v)| {
                let k = refmodel::text_of(key, k).unwrap();
                (String::from_utf8(k).unwrap(), val.clone(), v.clone())
            })
            .collect(),
        _ => vec![],
    }
}

fn same_pairs(what: &str, e: &[(String, Ty, Val)], got: &[(String, Vec<u8>)], any_case: bool) -> Result<(), Fault> {
    let names = |x: &[(String, Vec<u8>)]| x.iter().map(|p| p.0.clone()).collect::<Vec<_>>();
    let same = e.len() == got.len()
        && e.iter().zip(got).all(|(a, b)| a.0 == b.0 || any_case && a.0.eq_ignore_ascii_case(&b.0));
    ensure!(
        same,
        "{}: the fields {:?} are sent as {:?}",
        what, e.iter().map(|x| &x.0).collect::<Vec<_>>(), names(got)
    );
    for ((n, t, v), (_, text)) in e.iter().zip(got) {
        if let Err(m) = spelled(t, v, text) {
            violation!("{}: field {:?}: {}", what, n, m);
        }
    }
    Ok(())
}
/// Fields every implementation is free to add.
fn declared(h: &[(String, Vec<u8>)], e: &[(String, Ty, Val)]) -> Vec<(String, Vec<u8>)> {
    h.iter()
        .filter(|(n, _)| {
            let n = n.to_ascii_lowercase();
            n != "content-length"
                && (e.iter().any(|x| x.0.eq_ignore_ascii_case(&n))
                    || !["host", "user-agent", "connection", "date", "server"].contains(&&n[..]))
        })
        .cloned()
        .collect()
}

pub struct C10;
impl Property for C10 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "generated procedures with requests sent to a raw listener, and responses of the real server read by a raw client; non-trivial if the message has variables, fields or a body"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["message heads below the 8096 byte / 32 field limits of the HTTP layer".into()]
    }
    fn cases(&self) -> u64 {
        100000
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        prop_oneof![
            3 => (gen::method(), gen::request(5), any::<bool>(), proptest::option::weighted(0.3, any::<u64>())).prop_map(|(method, (entry, mut ty, mut val), pooled, bits)| {
                if let Some(mut bits) = bits {
                    gen::send_only_fields(&mut ty.query, &mut val.query, &mut bits);
                    gen::send_only_fields(&mut ty.header, &mut val.header, &mut bits);
                    if let Some(PathTy::Tuple(t)) | Some(PathTy::TupleStruct(t)) = &mut ty.path {
                        for (t, v) in t.iter_mut().zip(&mut val.path) {
                            gen::send_only(t, v, &mut bits);
                        }
                    }
                }
                Case::Request { method, entry, ty, val, pooled }
            }),
            2 => (gen::method(), gen::response(), proptest::option::weighted(0.3, any::<u64>())).prop_map(|(method, (mut ty, mut val), bits)| {
                if let (Some(mut bits), RespTy::Struct { header, .. }) = (bits, &mut ty) {
                    gen::send_only_fields(header, &mut val.header, &mut bits);
                }
                Case::Response { method, ty, val }
            }),
        ]
        .boxed()
    }
    fn run(&self, case: &Case) -> Verdict {
        let mut sim = Sim::new()?;
        match case {
            Case::Request { method, entry, ty, val, pooled } => {
                if head_estimate(entry, val, ty) > 7800 {
                    return Ok(Info::new(false).class("head too large"));
                }
                let p = ProcTy {
                    method: method.clone(),
                    entry: entry.clone(),
                    req: ty.clone(),
                    resp: gen::plain_resp_ty(),
                };
                define(0, &p);
                let (l, addr) = listen_raw()?;
                let calls = Calls::new(&sim);
                let w = calls.call(&sim, *pooled, addr, 0, val.clone());
                let mut c = None;
                sim.until("client to connect", |_| {
                    if w.is_done() {
                        return Ok(true);
                    }
                    c = Raw::accept(&l)?;
                    Ok(c.is_some())
                })?;
                if w.is_done() {
                    violation!("the call failed: {:?}", w.take().unwrap().map_err(|e| e.to_string()));
                }
                let mut c = c.unwrap();
                let mut r = None;
                sim.until("a request on the wire", |_| {
                    if w.is_done() {
                        violation!("the call failed: {:?}", w.take().unwrap().map_err(|e| e.to_string()));
                    }
                    c.fill();
                    r = http::take_request(&mut c.inbuf)
                        .map_err(|e| Fault::Violation(format!("malformed request: {}", e)))?;
                    Ok(r.is_some())
                })?;
                let r = r.unwrap();
                ensure!(r.method == *method, "method {} instead of {}", r.method, method);
                ensure!(r.version == "HTTP/1.1", "version {}", r.version);
                ensure!(r.target.starts_with('/') && !r.target.contains('#'), "target {:?}", r.target);
                let (path, query) = match r.target.find('?') {
                    Some(i) => (&r.target[..i], &r.target[i + 1..]),
                    None => (&r.target[..], ""),
                };
                // Path.
                let segs: Vec<&str> = path[1..].split('/').collect();
                let tys: &[Ty] = ty.path.as_ref().map_or(&[], |p| p.tys());
                let mut vars = tys.iter().zip(&val.path);
                if entry.is_empty() {
                    ensure!(path == "/", "path {:?} for the empty entry point", path);
                } else {
                    ensure!(segs.len() == entry.len(), "path {:?} for the entry point {:?}", path, entry);
                    for (e, s) in entry.iter().zip(&segs) {
                        let d = match http::pct_decode(s) {
                            Some(d) => d,
                            None => violation!("malformed escape in {:?}", path),
                        };
                        match e {
                            Some(e) => ensure!(
                                d == e.as_bytes(),
                                "constant {:?} is sent as {:?}", e, s
                            ),
                            None => {
                                let (t, v) = vars.next().unwrap();
                                if let Err(m) = spelled(t, v, &d) {
                                    violation!("path {:?}: {}", path, m);
                                }
                            }
                        }
                    }
                }
                // Query.
                let pairs: Vec<(String, Vec<u8>)> = http::form_decode(query)
                    .into_iter()
                    .map(|(k, v)| (k, v.into_bytes()))
                    .collect();
                let eq = expected(&ty.query, &val.query);
                same_pairs("query", &eq, &pairs, false)?;
                // Header and body.
                let eh = expected(&ty.header, &val.header);
                same_pairs("header", &eh, &declared(&r.headers, &eh), true)?;
                ensure!(r.body == val.body, "request {}", body_diff(&val.body, &r.body));
                sim.pump(20);
                c.fill();
                ensure!(c.inbuf.is_empty(), "{} bytes after the request", c.inbuf.len());
                // The exchange completes.
                let head = method == "HEAD";
                c.send(&mut sim, &raw_response(200, &[], b"ok", head, false), &Seg::whole())?;
                sim.until("call to resolve", |_| Ok(w.is_done()))?;
                match w.take().unwrap() {
                    Ok(r) => {
                        if let Err(m) = same_response(&gen::ok_with(b"ok"), &r, head) {
                            violation!("{}", m);
                        }
                    }
                    Err(e) => violation!("the call failed: {}", e),
                }
                Ok(Info::new(!tys.is_empty() || !eq.is_empty() || !eh.is_empty() || !val.body.is_empty())
                    .class("request")
                    .class_if(!eq.is_empty(), "query")
                    .class_if(!eh.is_empty(), "request header")
                    .class_if(!tys.is_empty(), "path variables")
                    .class_if(*pooled, "pooled"))
            }
            Case::Response { method, ty, val } => {
                let hty = refmodel::resp_header_ty(ty, val.status);
                let e = expected(&hty, &val.header);
                if e.iter().map(|x| x.0.len() + val_len(&x.2) + 4).sum::<usize>() > 7500 {
                    return Ok(Info::new(false).class("head too large"));
                }
                let p = ProcTy {
                    method: method.clone(),
                    entry: vec![Some("foo".into())],
                    req: ReqTy { path: None, query: None, header: None, wrapped: false },
                    resp: ty.clone(),
                };
                define(0, &p);
                let log = new_log();
                let reply = val.clone();
                let b = recording(&log, move |_| Action::Reply(reply.clone()));
                let server = start_server(&mut sim, |s| {
                    register(s, 0, 0, &b)
                        .map_err(|e| Fault::Violation(format!("registration refused: {}", e)))
                })?;
                let mut c = Raw::connect(server.addr)?;
                let req = format!("{} /foo HTTP/1.1\r\n\r\n", method);
                let head = method == "HEAD";
                c.send(&mut sim, req.as_bytes(), &Seg::whole())?;
                let r = http::expect_response(&mut sim, &mut c, head, "response")?;
                ensure!(r.version == "HTTP/1.1", "version {}", r.version);
                ensure!(r.status == val.status, "status {} instead of {}", r.status, val.status);
                same_pairs("response header", &e, &declared(&r.headers, &e), true)?;
                ensure!(
                    r.content_length == val.body.len() as u64,
                    "Content-Length {} for {} bytes", r.content_length, val.body.len()
                );
                if !head {
                    ensure!(r.body == val.body, "response {}", body_diff(&val.body, &r.body));
                }
                sim.pump(20);
                c.fill();
                ensure!(c.inbuf.is_empty(), "{} bytes after the response", c.inbuf.len());
                server.alive()?;
                Ok(Info::new(!e.is_empty() || !val.body.is_empty() || val.status != 200)
                    .class("response")
                    .class_if(!e.is_empty(), "response header"))
            }
        }
    }
}
