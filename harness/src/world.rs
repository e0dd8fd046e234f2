//! Fixtures: a server under test inside a simulation.
use crate::dynproc::*;
use crate::engine::Fault;
use crate::sim::*;
use htrpc::RpcServerBuilder;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

pub type Log = Arc<Mutex<Vec<Invocation>>>;

pub struct Server {
    pub addr: SocketAddr,
    pub done: Watch<(), htrpc::Error>,
}
impl Server {
    /// The server future must never resolve.
    pub fn alive(&self) -> Result<(), Fault> {
        match self.done.take() {
            None => Ok(()),
            Some(r) => Err(Fault::Violation(format!(
                "the server future resolved: {:?}",
                r.map_err(|e| e.to_string())
            ))),
        }
    }
}

/// A log that formats every record, so that whatever is logged has to be printable.
struct FormatAll;
impl slog::Drain for FormatAll {
    type Ok = ();
    type Err = slog::Never;
    fn log(&self, record: &slog::Record, _: &slog::OwnedKVList) -> Result<(), slog::Never> {
        std::hint::black_box(record.msg().to_string());
        Ok(())
    }
}

/// Starts a server built by `f` on a fresh address.
pub fn start_server<F>(sim: &mut Sim, mut f: F) -> Result<Server, Fault>
where
    F: FnMut(&mut RpcServerBuilder) -> Result<(), Fault>,
{
    for _ in 0..5 {
        let addr = fresh_addr();
        let mut b = RpcServerBuilder::new(addr);
        b.set_logger(slog::Logger::root(FormatAll, slog::o!()));
        f(&mut b)?;
        let done = sim.watch(b.start(sim.handle.clone()));
        for _ in 0..400 {
            sim.pump(4);
            if done.is_done() {
                break;
            }
            // The address is taken as soon as the server listens.
            if std::net::TcpListener::bind(addr).is_err() {
                return Ok(Server { addr, done });
            }
        }
        if !done.is_done() {
            return Err(Fault::Harness("the server does not start listening".into()));
        }
    }
    Err(Fault::Harness("cannot find an address for the server".into()))
}

/// A behaviour that records invocations and answers with `f`.
pub fn recording<F>(log: &Log, mut f: F) -> Behaviour
where
    F: FnMut(&Invocation) -> Action + Send + 'static,
{
    let log = Arc::clone(log);
    Arc::new(Mutex::new(move |inv: &Invocation| {
        log.lock().unwrap().push(inv.clone());
        f(inv)
    }))
}

pub fn new_log() -> Log {
    Arc::new(Mutex::new(Vec::new()))
}

/// Removes the framing header the library adds, which map-typed header requests also see.
pub fn strip_framing(f: &Option<FieldsVal>) -> Option<FieldsVal> {
    match f {
        Some(FieldsVal::Map(m)) => {
            let mut m: Vec<_> = m
                .iter()
                .filter(|(k, _)| *k != Val::Str("content-length".into()))
                .cloned()
                .collect();
            m.sort_by_key(|(k, _)| format!("{:?}", k));
            Some(FieldsVal::Map(m))
        }
        x => x.clone(),
    }
}
pub fn sort_map(f: &Option<FieldsVal>) -> Option<FieldsVal> {
    match f {
        Some(FieldsVal::Map(m)) => {
            let mut m = m.clone();
            m.sort_by_key(|(k, _)| format!("{:?}", k));
            Some(FieldsVal::Map(m))
        }
        x => x.clone(),
    }
}

/// Compares a request as sent with a request as received.
pub fn same_request(sent: &ReqVal, got: &ReqVal) -> Result<(), String> {
    if sent.path != got.path {
        return Err(format!("path variables: sent {:?}, got {:?}", sent.path, got.path));
    }
    if sort_map(&sent.query) != sort_map(&got.query) {
        return Err(format!("query: sent {:?}, got {:?}", sent.query, got.query));
    }
    if sort_map(&sent.header) != strip_framing(&got.header) {
        return Err(format!("header: sent {:?}, got {:?}", sent.header, got.header));
    }
    if sent.body != got.body {
        return Err(body_diff(&sent.body, &got.body));
    }
    Ok(())
}
pub fn same_response(sent: &RespVal, got: &RespVal, head: bool) -> Result<(), String> {
    if sent.status != got.status {
        return Err(format!("status: sent {}, got {}", sent.status, got.status));
    }
    if sort_map(&sent.header) != strip_framing(&got.header) {
        return Err(format!("header: sent {:?}, got {:?}", sent.header, got.header));
    }
    let body: &[u8] = if head { &[] } else { &sent.body };
    if body != &got.body[..] {
        return Err(body_diff(body, &got.body));
    }
    Ok(())
}
pub fn body_diff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!(
        "body: {} bytes sent, {} bytes received, first difference at byte {}",
        a.len(),
        b.len(),
        n
    )
}

/// An upper estimate of the encoded head of a request or response.
pub fn head_estimate(entry: &[Option<String>], v: &ReqVal, t: &ReqTy) -> usize {
    let mut n = 80;
    for e in entry {
        n += 1 + e.as_ref().map_or(0, |s| s.len() * 3);
    }
    for v in &v.path {
        n += 1 + val_len(v) * 3;
    }
    if let (Some(t), Some(v)) = (&t.query, &v.query) {
        n += fields_len(t, v) * 3;
    }
    if let (Some(t), Some(v)) = (&t.header, &v.header) {
        n += fields_len(t, v);
    }
    n
}
pub fn val_len(v: &Val) -> usize {
    match v {
        Val::Bool(_) => 5,
        Val::I(_) | Val::U(_) => 20,
        Val::F32(b) => (f32::from_bits(*b) as f64).to_string().len(),
        Val::F64(b) => f64::from_bits(*b).to_string().len(),
        Val::Str(s) => s.len(),
        Val::None => 0,
        Val::Some(v) => val_len(v),
        Val::Json(v) => serde_json::to_string_pretty(v).unwrap().len(),
        Val::Unit => 40,
        Val::Bytes(b) => b.len(),
    }
}
pub fn fields_len(t: &FieldsTy, v: &FieldsVal) -> usize {
    match (t, v) {
        (FieldsTy::Struct(f), FieldsVal::Struct(v)) => f
            .iter()
            .zip(v)
            .map(|((n, _), v)| n.len() + val_len(v) + 4)
            .sum(),
        (_, FieldsVal::Map(m)) => m.iter().map(|(k, v)| val_len(k) + val_len(v) + 4).sum(),
        _ => 0,
    }
}
