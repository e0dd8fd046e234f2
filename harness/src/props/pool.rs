//! C11, C12, C14: the connection pool against servers played by the harness.
use crate::dynproc::*;
use crate::engine::*;
use crate::http;
use crate::props::c02::raw_response;
use crate::props::c07::{proc_for, reply_for};
use crate::sim::*;
use crate::world::*;
use htrpc::pool::{RpcClientPool, RpcClientPoolHandle};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::net::{SocketAddr, TcpListener};
use std::time::Duration;

// ---------------------------------------------------------------- fixtures

/// One accepted connection of a played server.
pub struct FConn {
    pub server: usize,
    pub raw: Raw,
    pub pending: Option<u32>,
    pub carried: Vec<u32>,
}
pub struct Farm {
    pub servers: Vec<(TcpListener, SocketAddr)>,
    pub conns: Vec<FConn>,
}
impl Farm {
    pub fn new(n: usize) -> Result<Farm, Fault> {
        Farm::shaped(n, 0)
    }
    /// The bits of `shape` make servers share an IP with an earlier one or live on IPv6.
    pub fn shaped(n: usize, shape: u16) -> Result<Farm, Fault> {
        let mut servers: Vec<(TcpListener, SocketAddr)> = Vec::new();
        for i in 0..n {
            let s = match (shape >> (2 * i)) & 3 {
                1 if i > 0 => listen_twin(servers[i - 1].1)?,
                2 if i > 0 => listen_twin(servers[0].1)?,
                3 if n > 1 => listen_v6()?,
                _ => listen_raw()?,
            };
            servers.push(s);
        }
        Ok(Farm { servers, conns: Vec::new() })
    }
    /// Takes in new connections and requests.
    pub fn poll(&mut self) -> Result<(), Fault> {
        for (i, (l, _)) in self.servers.iter().enumerate() {
            while let Some(raw) = Raw::accept(l)? {
                self.conns.push(FConn { server: i, raw, pending: None, carried: vec![] });
            }
        }
        for (i, c) in self.conns.iter_mut().enumerate() {
            if c.raw.s.is_none() {
                continue;
            }
            c.raw.fill();
            match http::take_request(&mut c.raw.inbuf) {
                Err(e) => violation!("malformed request on connection {}: {}", i, e),
                Ok(None) => {}
                Ok(Some(r)) => {
                    let id = match id_of(&r.target) {
                        Some(id) => id,
                        None => violation!("request target {:?} on connection {}", r.target, i),
                    };
                    if let Some(p) = c.pending {
                        violation!("request {} on connection {} which still carries call {}", id, i, p);
                    }
                    ensure!(r.body == body_for(id), "request {}: body changed", id);
                    c.pending = Some(id);
                    c.carried.push(id);
                }
            }
        }
        Ok(())
    }
    pub fn conn_of(&self, id: u32) -> Option<usize> {
        self.conns.iter().position(|c| c.pending == Some(id))
    }
    pub fn times_seen(&self, id: u32) -> usize {
        self.conns.iter().flat_map(|c| &c.carried).filter(|i| **i == id).count()
    }
}
pub fn id_of(target: &str) -> Option<u32> {
    let q = &target[target.find('?')? + 1..];
    http::form_decode(q).into_iter().find(|p| p.0 == "id").and_then(|p| p.1.parse().ok())
}
pub fn body_for(id: u32) -> Vec<u8> {
    bodyfmt::pattern((id as usize * 37) % 300, id as u8)
}
pub fn request_for(id: u32) -> ReqVal {
    ReqVal {
        path: vec![Val::U(id as u64 % 256)],
        query: Some(FieldsVal::Struct(vec![
            Val::U(id as u64),
            Val::U(status_for(id) as u64),
            Val::U(0),
            Val::Bool(false),
        ])),
        header: None,
        body: body_for(id),
    }
}
pub fn answer_len(id: u32) -> u32 {
    match id % 7 {
        0 => 0,
        6 => 3000,
        n => n * 11,
    }
}
/// Calls differ in their method (and with it in their slot) and in the status of the answer.
const METHODS: &[&str] = &["POST", "GET", "HEAD", "PUT", "DELETE"];
pub fn slot_for(id: u32) -> usize {
    (id as usize * 3) % METHODS.len()
}
pub fn is_head(id: u32) -> bool {
    METHODS[slot_for(id)] == "HEAD"
}
pub fn status_for(id: u32) -> u16 {
    match id % 3 {
        0 => 200,
        _ => {
            let all: Vec<u16> = STATUSES.iter().map(|s| s.0).filter(|s| *s >= 200).collect();
            all[(id as usize * 7) % all.len()]
        }
    }
}
/// The next id at or after this one whose call is a POST.
pub fn next_post(id: u32) -> u32 {
    (id..).find(|i| slot_for(*i) == 0).unwrap()
}
pub fn answer_for(id: u32) -> RespVal {
    reply_for(status_for(id), id, answer_len(id))
}
pub fn answer_bytes(id: u32) -> Vec<u8> {
    let v = answer_for(id);
    raw_response(v.status, &[("x-id".into(), id.to_string().into_bytes())], &v.body, is_head(id), false)
}
pub fn define_procs() {
    for (i, m) in METHODS.iter().enumerate() {
        define(i, &proc_for(m));
    }
}

pub struct Pool {
    pub handle: RpcClientPoolHandle,
    pub fut: Watch<(), ()>,
}
impl Pool {
    pub fn start(sim: &Sim, size: Option<usize>, suspended: Option<Duration>, timeout: Option<Duration>) -> Pool {
        let mut p = match size {
            Some(n) => RpcClientPool::with_pool_size(n),
            None => RpcClientPool::new(),
        };
        if let Some(d) = suspended {
            p.set_suspended_duration(d);
        }
        if let Some(d) = timeout {
            p.set_connect_timeout(d);
        }
        let handle = p.handle();
        Pool { handle, fut: sim.watch(p) }
    }
    pub fn alive(&self) -> Result<(), Fault> {
        ensure!(!self.fut.is_done(), "the pool future resolved");
        Ok(())
    }
}
const LONG: Duration = Duration::from_secs(120);

pub fn check_answer(id: u32, r: Result<RespVal, htrpc::Error>) -> Result<(), Fault> {
    match r {
        Ok(v) => {
            if let Err(m) = same_response(&answer_for(id), &v, is_head(id)) {
                violation!("call {} got a response that is not its own: {}", id, m);
            }
            Ok(())
        }
        Err(e) => violation!("call {} failed although its server answered: {}", id, e),
    }
}

// ---------------------------------------------------------------- C11

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op11 {
    Call { server: u8, clone: bool },
    /// Answers one of the requests seen so far, possibly in two parts.
    Answer { which: u8, cut: Option<u16> },
    Cancel { which: u8 },
    Run(u8),
    /// The pool itself is dropped.
    DropPool,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case11 {
    pub servers: u8,
    #[serde(default)]
    pub shape: u16,
    pub size: Option<u8>,
    /// Real servers with waiting handlers instead of played ones.
    pub real: bool,
    pub ops: Vec<Op11>,
}

struct Live {
    id: u32,
    server: usize,
    watch: Watch<RespVal, htrpc::Error>,
    cancelled: bool,
    done: bool,
}

pub struct C11;
impl Property for C11 {
    type Case = Case11;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "histories of calls through one pool to 1-3 (rarely up to 8) servers at different addresses, at different ports of one address or on IPv6, answered in a generated order, some dropped; non-trivial if at least two calls were in flight at once"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["servers answer with exactly the declared number of bytes".into()]
    }
    fn cases(&self) -> u64 {
        100000
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case11> {
        let deep = if tier == Tier::Thorough { 60 } else { 30 };
        let call = (any::<u8>(), any::<bool>()).prop_map(|(server, clone)| Op11::Call { server, clone });
        let op = prop_oneof![
            5 => call.clone(),
            4 => (any::<u8>(), proptest::option::weighted(0.3, any::<u16>())).prop_map(|(which, cut)| Op11::Answer { which, cut }),
            1 => any::<u8>().prop_map(|which| Op11::Cancel { which }),
            3 => prop_oneof![0u8..6, Just(40u8)].prop_map(Op11::Run),
        ];
        let ops = prop_oneof![
            150 => vec(op.clone(), 1..deep),
            15 => (vec(op.clone(), 1..deep), any::<proptest::sample::Index>()).prop_map(|(mut ops, at)| {
                let at = at.index(ops.len());
                ops.insert(at, Op11::DropPool);
                ops
            }),
            1 => vec(op.clone(), 100..700),
            // Many calls before the pool and the servers get to run.
            1 => (vec(call, 100..400), vec(op, 1..deep)).prop_map(|(mut a, b)| {
                a.extend(b);
                a
            }),
        ];
        (
            prop_oneof![20 => 1u8..4, 1 => 4u8..9],
            any::<u16>(),
            proptest::option::weighted(0.7, prop_oneof![20 => 0u8..5, 1 => 5u8..60]),
            proptest::bool::weighted(0.3),
            ops,
        )
            .prop_map(|(servers, shape, size, real, ops)| Case11 { servers, shape, size, real, ops })
            .boxed()
    }
    fn run(&self, case: &Case11) -> Verdict {
        if case.real {
            return run11_real(case);
        }
        let mut sim = Sim::new()?;
        define_procs();
        let mut farm = Farm::shaped(case.servers as usize, case.shape)?;
        let mut pool = Pool::start(&sim, case.size.map(|n| n as usize), None, Some(LONG));
        let mut live: Vec<Live> = Vec::new();
        let mut peak = 0;
        let mut next = 0u32;
        let mut dropped = false;
        for op in &case.ops {
            match op {
                Op11::Call { server, clone } => {
                    let s = *server as usize % farm.servers.len();
                    let h = if *clone { pool.handle.clone() } else { pool.handle.clone().clone() };
                    let id = next;
                    next += 1;
                    let watch = sim.watch(call_pool(&h, farm.servers[s].1, slot_for(id), request_for(id)));
                    live.push(Live { id, server: s, watch, cancelled: false, done: false });
                }
                Op11::Answer { which, cut } => {
                    farm.poll()?;
                    let open: Vec<usize> = (0..farm.conns.len()).filter(|i| farm.conns[*i].pending.is_some()).collect();
                    if open.is_empty() {
                        sim.pump(3);
                        continue;
                    }
                    let k = open[*which as usize % open.len()];
                    answer(&mut sim, &mut farm.conns[k], *cut)?;
                }
                Op11::Cancel { which } => {
                    let n = live.iter().filter(|l| !l.cancelled && !l.done).count();
                    if n > 0 {
                        let k = *which as usize % n;
                        let l = live.iter_mut().filter(|l| !l.cancelled && !l.done).nth(k).unwrap();
                        l.watch.cancel();
                        l.cancelled = true;
                    }
                }
                Op11::Run(n) => sim.pump(*n as usize),
                Op11::DropPool => {
                    pool.fut.cancel();
                    dropped = true;
                }
            }
            collect(&mut live, dropped)?;
            peak = peak.max(live.iter().filter(|l| !l.done && !l.cancelled).count());
        }
        // Everybody gets an answer.
        let start_farm = &mut farm;
        let live_ref = &mut live;
        sim.until("all calls to resolve", |sim| {
            start_farm.poll()?;
            for k in 0..start_farm.conns.len() {
                if start_farm.conns[k].pending.is_some() {
                    answer(sim, &mut start_farm.conns[k], None)?;
                }
            }
            collect(live_ref, dropped)?;
            Ok(live_ref.iter().all(|l| l.done || l.cancelled))
        })?;
        for l in &live {
            let n = farm.times_seen(l.id);
            ensure!(n <= 1, "request {} was sent {} times", l.id, n);
            ensure!(l.cancelled || dropped || n == 1, "request {} was never sent", l.id);
            for c in farm.conns.iter().filter(|c| c.carried.contains(&l.id)) {
                ensure!(
                    c.server == l.server,
                    "request {} for server {} was sent to server {}", l.id, l.server, c.server
                );
            }
        }
        pool.alive()?;
        if dropped {
            // Nobody can use the connections any more.
            let farm = &mut farm;
            sim.until("the connections of a dropped pool to be closed", |_| {
                farm.poll()?;
                Ok(farm.conns.iter().all(|c| c.raw.closed()))
            })?;
        }
        let cancelled = live.iter().any(|l| l.cancelled);
        let reused = farm.conns.iter().any(|c| c.carried.len() > 1);
        Ok(Info::new(peak > 1)
            .units(live.len() as u64)
            .class_if(cancelled, "dropped calls")
            .class_if(dropped, "dropped pool")
            .class_if(reused, "reused connections")
            .class_if(peak > 3, "more than three at once"))
    }
}
/// Calls may fail only once the pool has been dropped.
fn collect(live: &mut Vec<Live>, dropped: bool) -> Result<(), Fault> {
    for l in live.iter_mut().filter(|l| !l.done) {
        if let Some(r) = l.watch.take() {
            l.done = true;
            if dropped && r.is_err() {
                continue;
            }
            check_answer(l.id, r)?;
        }
    }
    Ok(())
}
fn answer(sim: &mut Sim, c: &mut FConn, cut: Option<u16>) -> Result<(), Fault> {
    let id = c.pending.take().unwrap();
    let b = answer_bytes(id);
    let at = cut.map_or(b.len(), |c| (c as usize * b.len()) >> 16);
    c.raw.send(sim, &b[..at], &Seg::whole())?;
    if at < b.len() {
        sim.pump(9);
        c.raw.send(sim, &b[at..], &Seg::whole())?;
    }
    Ok(())
}

/// The same with real htrpc servers whose handlers wait for the harness.
fn run11_real(case: &Case11) -> Verdict {
    use crate::props::c07::{obeying, open_gate, Gates};
    let mut sim = Sim::new()?;
    define_procs();
    let mut servers = Vec::new();
    let mut logs = Vec::new();
    let gates: Gates = Default::default();
    for _ in 0..case.servers {
        let log = new_log();
        let b = obeying(&log, &gates);
        servers.push(start_server(&mut sim, |s| {
            for i in 0..METHODS.len() {
                register(s, i, i as u64, &b).map_err(|e| Fault::Violation(format!("registration refused: {}", e)))?;
            }
            Ok(())
        })?);
        logs.push(log);
    }
    let pool = Pool::start(&sim, case.size.map(|n| n as usize), None, Some(LONG));
    let mut live: Vec<Live> = Vec::new();
    let mut peak = 0;
    for op in &case.ops {
        match op {
            Op11::Call { server, .. } => {
                let s = *server as usize % servers.len();
                let id = live.len() as u32;
                let mut v = request_for(id);
                if let Some(FieldsVal::Struct(ref mut q)) = v.query {
                    q[2] = Val::U(answer_len(id) as u64);
                    q[3] = Val::Bool(true);
                }
                let watch = sim.watch(call_pool(&pool.handle.clone(), servers[s].addr, slot_for(id), v));
                live.push(Live { id, server: s, watch, cancelled: false, done: false });
            }
            Op11::Answer { which, .. } => {
                let mut ids: Vec<u32> = gates.lock().unwrap().keys().cloned().collect();
                ids.sort();
                if ids.is_empty() {
                    sim.pump(3);
                } else {
                    open_gate(&gates, ids[*which as usize % ids.len()]);
                }
            }
            Op11::Cancel { which } => {
                let n = live.iter().filter(|l| !l.cancelled && !l.done).count();
                if n > 0 {
                    let k = *which as usize % n;
                    let l = live.iter_mut().filter(|l| !l.cancelled && !l.done).nth(k).unwrap();
                    l.watch.cancel();
                    l.cancelled = true;
                }
            }
            Op11::Run(n) => sim.pump(*n as usize),
            // Done with the played servers.
            Op11::DropPool => {}
        }
        collect(&mut live, false)?;
        peak = peak.max(live.iter().filter(|l| !l.done && !l.cancelled).count());
    }
    let live_ref = &mut live;
    sim.until("all calls to resolve", |_| {
        let ids: Vec<u32> = gates.lock().unwrap().keys().cloned().collect();
        for i in ids {
            open_gate(&gates, i);
        }
        collect(live_ref, false)?;
        Ok(live_ref.iter().all(|l| l.done || l.cancelled))
    })?;
    for l in &live {
        for (s, log) in logs.iter().enumerate() {
            let n = log
                .lock()
                .unwrap()
                .iter()
                .filter(|i| matches!(&i.req.query, Some(FieldsVal::Struct(q)) if q[0] == Val::U(l.id as u64)))
                .count();
            if s == l.server {
                ensure!(n == 1 || l.cancelled && n == 0, "call {} was executed {} times", l.id, n);
            } else {
                ensure!(n == 0, "call {} was executed at another server", l.id);
            }
        }
    }
    pool.alive()?;
    for s in &servers {
        s.alive()?;
    }
    Ok(Info::new(peak > 1).units(live.len() as u64).class("real servers"))
}

// ---------------------------------------------------------------- C12

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op12 {
    Call { server: u8 },
    Answer { which: u8 },
    /// A whole call.
    Once { server: u8 },
    Cancel { which: u8 },
    /// A call to an address where nobody listens.
    Refused { again: bool },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case12 {
    pub servers: u8,
    #[serde(default)]
    pub shape: u16,
    pub size: Option<u8>,
    /// So many calls at once to begin with.
    #[serde(default)]
    pub mass: u16,
    /// So many calls one after the other to begin with.
    #[serde(default)]
    pub warm: u32,
    /// How the servers spell their answers; cf. `spelled`.
    #[serde(default)]
    pub manner: u16,
    pub ops: Vec<Op12>,
}

pub struct C12;
impl Property for C12 {
    type Case = Case12;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "histories of overlapping calls to 1-3 (rarely up to 8) servers at different addresses, at different ports of one address or on IPv6, with pool sizes 0-4 (rarely up to 59) and the default (rarely with more than 1024 connections), against a model of the idle connections in release order; non-trivial if a connection was reused or evicted"
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "which of several idle connections to the address is reused is not specified".into(),
            "servers keep idle connections open".into(),
        ]
    }
    fn cases(&self) -> u64 {
        90000
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case12> {
        let deep = if tier == Tier::Thorough { 60 } else { 26 };
        let op = prop_oneof![
            4 => any::<u8>().prop_map(|server| Op12::Call { server }),
            4 => any::<u8>().prop_map(|which| Op12::Answer { which }),
            3 => any::<u8>().prop_map(|server| Op12::Once { server }),
            1 => any::<u8>().prop_map(|which| Op12::Cancel { which }),
            1 => any::<bool>().prop_map(|again| Op12::Refused { again }),
        ];
        let ops = prop_oneof![
            150 => vec(op.clone(), 1..deep),
            1 => vec(op, 100..500),
        ];
        (
            prop_oneof![20 => 1u8..4, 1 => 4u8..9],
            any::<u16>(),
            proptest::option::weighted(0.9, prop_oneof![20 => 0u8..5, 1 => 5u8..60]),
            ops,
            // Beyond the default size; cf. `MASS`.
            prop_oneof![600 => Just(0u16), 10 => 20u16..90, 1 => Just(1050u16)],
            prop_oneof![1 => Just(0u16), 1 => any::<u16>()],
        )
            .prop_map(|(servers, shape, size, ops, mass, manner)| Case12 { servers, shape, size, ops, manner, warm: 0, mass: if size.is_some() { mass % 1000 } else { mass } })
            .boxed()
    }
    fn run(&self, case: &Case12) -> Verdict {
        // Only one of the cases with many connections runs at a time: descriptors are finite.
        let _one = if case.mass > 200 { Some(MASS.lock().unwrap_or_else(|e| e.into_inner())) } else { None };
        let mut w = World12 {
            sim: Sim::new()?,
            farm: Farm::shaped(case.servers as usize, case.shape)?,
            pool: None,
            size: case.size.map_or(1024, |n| n as usize),
            manner: case.manner,
            nobody: None,
            idle: vec![],
            gone: vec![],
            calls: vec![],
            next: 0,
            reused: 0,
            opened: 0,
            evicted: 0,
        };
        define_procs();
        w.pool = Some(Pool::start(&w.sim, case.size.map(|n| n as usize), None, Some(LONG)));
        let mut units = 0;
        if case.mass > 0 {
            w.mass(case.mass as usize)?;
            units += case.mass as u64;
        }
        for i in 0..case.warm {
            w.call((i / 4) as usize % case.servers as usize)?;
            w.answer(0)?;
            // The harness cannot keep all sockets, nor look at all of them every time.
            if i % 64 == 63 || i + 1 == case.warm {
                w.quiescent()?;
                w.forget();
            }
            units += 1;
        }
        for op in &case.ops {
            match op {
                Op12::Call { server } => w.call(*server as usize % case.servers as usize)?,
                Op12::Once { server } => {
                    w.call(*server as usize % case.servers as usize)?;
                    let n = w.calls.len() - 1;
                    w.answer(n)?;
                }
                Op12::Answer { which } if !w.calls.is_empty() => {
                    let k = *which as usize % w.calls.len();
                    w.answer(k)?
                }
                Op12::Cancel { which } if !w.calls.is_empty() => {
                    let k = *which as usize % w.calls.len();
                    w.cancel(k)?
                }
                Op12::Refused { again } => w.refused(*again)?,
                _ => continue,
            }
            w.quiescent()?;
            units += 1;
        }
        while !w.calls.is_empty() {
            w.answer(0)?;
            w.quiescent()?;
            units += 1;
        }
        Ok(Info::new(w.reused > 0 || w.evicted > 0)
            .units(units)
            .class_if(w.reused > 0, "reuse")
            .class_if(w.evicted > 0, "eviction")
            .class_if(w.evicted > 1, "several evictions")
            .class_if(case.manner > 0, "answers spelled variously")
            .class_if(case.mass > 1024 && case.size.is_none(), "more than 1024 at once with the default size")
            .class_if(w.next > 256, "more than 256 calls")
            .class_if(case.size.map_or(false, |n| n > 4), "sizes beyond 4")
            .class_if(case.servers > 3, "more than three servers")
            .class_if(case.size == Some(0), "size 0"))
    }
}
/// The answer in one of several spellings after which the connection persists, and where to cut it.
fn spelled(id: u32, manner: u16) -> (Vec<u8>, usize) {
    let b = answer_bytes(id);
    let n = b.len();
    if manner == 0 {
        return (b, n);
    }
    let r = (id.wrapping_add(manner as u32)).wrapping_mul(2654435761) >> 16;
    let line = b.iter().position(|c| *c == b'\n').unwrap() + 1;
    let v10 = |b: &[u8]| {
        let mut v = b.to_vec();
        v[7] = b'0';
        v
    };
    let with = |b: Vec<u8>, fields: &str| {
        let mut v = b[..line].to_vec();
        v.extend_from_slice(fields.as_bytes());
        v.extend_from_slice(&b[line..]);
        v
    };
    let b = match r % 12 {
        0 => with(v10(&b), "Connection: keep-alive\r\n"),
        1 => with(v10(&b), "connection: Keep-Alive\r\nKeep-Alive: timeout=5, max=100\r\n"),
        2 => with(b, "Connection: keep-alive\r\n"),
        3 => with(b, "X-Connection: close\r\n"),
        4 => with(b, "x-note: close\r\nProxy: Connection, close\r\n"),
        5 => with(b, "Connection: x-closed, upgrade\r\n"),
        6 => with(b, "Connection:\r\nServer: close\r\n"),
        _ => b,
    };
    let cut = match (r >> 5) % 4 {
        0 => (r >> 7) as usize % (b.len() + 1),
        1 => line.max(b.len() - (b.len() - line).min((r >> 7) as usize % 40)),
        _ => b.len(),
    };
    (b, cut)
}
static MASS: std::sync::Mutex<()> = std::sync::Mutex::new(());
struct World12 {
    sim: Sim,
    farm: Farm,
    pool: Option<Pool>,
    size: usize,
    manner: u16,
    nobody: Option<SocketAddr>,
    /// Idle connections, the one released least recently first.
    idle: Vec<usize>,
    /// Connections the pool must have closed.
    gone: Vec<usize>,
    /// (id, connection, call)
    calls: Vec<(u32, usize, Watch<RespVal, htrpc::Error>)>,
    next: u32,
    reused: usize,
    opened: usize,
    evicted: usize,
}
impl World12 {
    /// `n` calls at once, spread over the servers, then answered one after the other.
    fn mass(&mut self, n: usize) -> Result<(), Fault> {
        let servers = self.farm.servers.len();
        let mut calls = Vec::new();
        for i in 0..n {
            let id = self.next;
            self.next += 1;
            let addr = self.farm.servers[i % servers].1;
            let handle = &self.pool.as_ref().unwrap().handle;
            calls.push((id, i % servers, self.sim.watch(call_pool(handle, addr, slot_for(id), request_for(id)))));
            if i % 50 == 49 || i + 1 == n {
                let farm = &mut self.farm;
                self.sim.until("many requests at once to arrive", |_| {
                    farm.poll()?;
                    for (id, _, w) in &calls {
                        if w.is_done() {
                            violation!("call {} failed: {}", id, w.take().unwrap().err().map_or("?".into(), |e| e.to_string()));
                        }
                    }
                    Ok(farm.conns.iter().filter(|c| c.pending.is_some()).count() >= calls.len())
                })?;
            }
        }
        for (id, s, w) in calls {
            let k = self.farm.conn_of(id).unwrap();
            ensure!(self.farm.conns[k].server == s, "request {} for server {} arrived at server {}", id, s, self.farm.conns[k].server);
            self.calls.push((id, k, w));
        }
        self.opened += n;
        while !self.calls.is_empty() {
            self.answer(0)?;
        }
        self.quiescent()
    }
    fn call(&mut self, server: usize) -> Result<(), Fault> {
        let id = self.next;
        self.next += 1;
        let addr = self.farm.servers[server].1;
        let before = self.farm.conns.len();
        let call = self.sim.watch(call_pool(&self.pool.as_ref().unwrap().handle, addr, slot_for(id), request_for(id)));
        let farm = &mut self.farm;
        self.sim.until(&format!("request {} to arrive", id), |_| {
            farm.poll()?;
            if call.is_done() {
                violation!("call {} failed: {}", id, call.take().unwrap().err().map_or("?".into(), |e| e.to_string()));
            }
            Ok(farm.conn_of(id).is_some())
        })?;
        let k = self.farm.conn_of(id).unwrap();
        ensure!(
            self.farm.conns[k].server == server,
            "request {} for server {} arrived at server {}", id, server, self.farm.conns[k].server
        );
        let available: Vec<usize> =
            self.idle.iter().cloned().filter(|c| self.farm.conns[*c].server == server).collect();
        if available.is_empty() {
            ensure!(
                k >= before,
                "call {} to server {} uses connection {}, which the pool should not have any more (idle: {:?})",
                id, server, k, self.idle
            );
            self.opened += 1;
        } else {
            ensure!(
                available.contains(&k),
                "call {} to server {} uses connection {} (new: {}) although the pool holds the idle connections {:?}",
                id, server, k, k >= before, available
            );
            ensure!(
                self.farm.conns.len() == before,
                "call {} opened a connection although an idle one was available", id
            );
            self.reused += 1;
            self.idle.retain(|c| *c != k);
        }
        self.calls.push((id, k, call));
        Ok(())
    }
    fn answer(&mut self, n: usize) -> Result<(), Fault> {
        let (id, k, call) = self.calls.remove(n);
        let c = &mut self.farm.conns[k];
        c.pending = None;
        let (bytes, cut) = spelled(id, self.manner);
        c.raw.send(&mut self.sim, &bytes[..cut], &Seg::whole())?;
        if cut < bytes.len() {
            self.sim.pump(9);
            c.raw.send(&mut self.sim, &bytes[cut..], &Seg::whole())?;
        }
        self.sim.until(&format!("call {} to resolve", id), |_| Ok(call.is_done()))?;
        check_answer(id, call.take().unwrap())?;
        self.idle.push(k);
        while self.idle.len() > self.size {
            let e = self.idle.remove(0);
            self.gone.push(e);
            self.evicted += 1;
        }
        Ok(())
    }
    fn cancel(&mut self, n: usize) -> Result<(), Fault> {
        let (_, k, mut call) = self.calls.remove(n);
        call.cancel();
        self.farm.conns[k].pending = None;
        self.gone.push(k);
        Ok(())
    }
    fn refused(&mut self, again: bool) -> Result<(), Fault> {
        let addr = match self.nobody {
            Some(a) if again => a,
            _ => fresh_addr(),
        };
        self.nobody = Some(addr);
        let id = self.next;
        self.next += 1;
        let call = self.sim.watch(call_pool(&self.pool.as_ref().unwrap().handle, addr, slot_for(id), request_for(id)));
        self.sim.until(&format!("refused call {} to resolve", id), |_| Ok(call.is_done()))?;
        ensure!(call.take().unwrap().is_err(), "call {} to nobody succeeded", id);
        Ok(())
    }
    /// Forgets the connections that are closed.
    fn forget(&mut self) {
        let mut kept = Vec::new();
        let mut idle = Vec::new();
        let mut at = vec![None; self.farm.conns.len()];
        for (k, mut c) in self.farm.conns.drain(..).enumerate() {
            if !c.raw.closed() {
                at[k] = Some(kept.len());
                c.carried.clear();
                kept.push(c);
            }
        }
        for k in &self.idle {
            idle.push(at[*k].expect("idle connection is open"));
        }
        for c in &mut self.calls {
            c.1 = at[c.1].expect("busy connection is open");
        }
        self.farm.conns = kept;
        self.idle = idle;
        self.gone.clear();
    }
    /// Exactly the connections that should be open are open.
    fn quiescent(&mut self) -> Result<(), Fault> {
        let (farm, gone, idle, size) = (&mut self.farm, &self.gone, &self.idle, self.size);
        self.sim.until("connections beyond the pool size (or of dropped calls) to be closed", |_| {
            farm.poll()?;
            for k in idle {
                ensure!(
                    !farm.conns[*k].raw.closed(),
                    "idle connection {} was closed; pool size {}, idle connections in release order {:?}",
                    k, size, idle
                );
            }
            Ok(gone.iter().all(|k| farm.conns[*k].raw.closed()))
        })?;
        self.sim.pump(10);
        self.farm.poll()?;
        for k in &self.idle {
            ensure!(
                !self.farm.conns[*k].raw.closed(),
                "idle connection {} was closed; pool size {}, idle connections in release order {:?}",
                k, self.size, self.idle
            );
        }
        for (id, k, call) in &self.calls {
            ensure!(
                !self.farm.conns[*k].raw.closed() && !call.is_done(),
                "connection {} of the unfinished call {} was closed", k, id
            );
        }
        let idle_open = self
            .farm
            .conns
            .iter()
            .enumerate()
            .filter(|(k, c)| !c.raw.closed() && !self.calls.iter().any(|x| x.1 == *k))
            .count();
        ensure!(
            idle_open <= self.size,
            "{} idle connections with pool size {}", idle_open, self.size
        );
        self.pool.as_ref().unwrap().alive()
    }
}

// ---------------------------------------------------------------- C14

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Trouble {
    None,
    /// The call is dropped: after this many steps, before any answer.
    DropEarly(u8),
    /// Dropped after the request arrived and this part of the answer was sent and read.
    DropAt(u16, u8),
    /// The response is cut by a close or reset.
    Cut(u16, bool),
    /// Not a response.
    Garbage(String),
    /// A response the caller's type cannot hold.
    MissingHeader,
    BadHeader(String),
    BadLength(String),
    /// The request cannot be encoded.
    Unencodable,
    /// The response has no length and ends with the connection.
    UntilClose,
    /// The response is followed by bytes nobody asked for: in one piece with it, or once it was read.
    Extra(String, bool),
    /// The server announces that the connection ends with this response.
    Announced(u8),
    /// The response is fine; then the server closes or resets the idle connection.
    IdleEnd(bool),
    /// A response that has no body and therefore no length.
    NoBody(u16),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case14 {
    pub size: u8,
    /// Calls made and finished before, so that there are idle connections.
    pub warm: u8,
    pub calls: Vec<(Trouble, u8)>,
}

pub struct C14;

fn unspoiled(farm: &Farm, spoiled: &[(usize, usize)]) -> Result<(), Fault> {
    for (k, n) in spoiled {
        let c = &farm.conns[*k].carried;
        ensure!(
            c.len() == *n,
            "call {} was sent on connection {}, which the server had closed or sent unrequested bytes on", c[*n], k
        );
    }
    Ok(())
}
/// Status line and field of a response that announces the end of the connection.
const ANNOUNCED: &[(&str, &str)] = &[
    ("HTTP/1.1", "Connection: close\r\n"),
    ("HTTP/1.1", "connection: Close\r\n"),
    ("HTTP/1.1", "Connection: foo, close\r\n"),
    ("HTTP/1.1", "Connection: foo\r\nConnection:close\r\n"),
    ("HTTP/1.0", ""),
    ("HTTP/1.0", "Connection: close\r\n"),
];

/// The slot after the methods has a header field, so that a request can be unencodable.
fn define14() {
    define_procs();
    let mut p = proc_for("POST");
    p.req.header = Some(FieldsTy::Struct(vec![("x-text".into(), Ty::Str)]));
    define(METHODS.len(), &p);
}

impl Property for C14 {
    type Case = Case14;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "sequences of pooled calls to one server with a fault, a cancellation at a generated point or an unusual end of the response in each; non-trivial if a call follows a troubled one"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["what the server does to an idle connection happens before the next call starts".into()]
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn cases(&self) -> u64 {
        90000
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case14> {
        let deep = if tier == Tier::Thorough { 20 } else { 8 };
        let t = prop_oneof![
            3 => Just(Trouble::None),
            2 => (0u8..30).prop_map(Trouble::DropEarly),
            4 => (any::<u16>(), prop_oneof![0u8..6, Just(40u8)]).prop_map(|(a, b)| Trouble::DropAt(a, b)),
            3 => (any::<u16>(), any::<bool>()).prop_map(|(a, r)| Trouble::Cut(a, r)),
            1 => select(vec!["hello\r\n\r\n", "HTTP/1.1 abc\r\n\r\n", "HTTP/1.1 200 OK\r\nno colon\r\n\r\n", "\0\0\0\0\r\n\r\n", "GET / HTTP/1.1\r\n\r\n", "HTTP/2.0 200 OK\r\n\r\n", "HTTP/1.1 99999 OK\r\n\r\n"]).prop_map(|s| Trouble::Garbage(s.to_string())),
            1 => Just(Trouble::MissingHeader),
            1 => select(vec!["", "abc", "-1", "4294967296", "1.5"]).prop_map(|s| Trouble::BadHeader(s.to_string())),
            1 => select(vec!["abc", "-1", "18446744073709551616", ""]).prop_map(|s| Trouble::BadLength(s.to_string())),
            2 => Just(Trouble::Unencodable),
            1 => Just(Trouble::UntilClose),
            2 => (
                select(vec!["\r\n", "x", "HTTP/1.1 200 OK\r\nx-id: 7\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 200 OK\r\n"]).prop_map(String::from),
                any::<bool>(),
            ).prop_map(|(b, late)| Trouble::Extra(b, late)),
            2 => (0..ANNOUNCED.len() as u8).prop_map(Trouble::Announced),
            2 => any::<bool>().prop_map(Trouble::IdleEnd),
            1 => select(vec![204u16, 304]).prop_map(Trouble::NoBody),
        ];
        (1u8..4, 0u8..3, vec((t, prop_oneof![Just(0u8), 1u8..10, Just(40u8)]), 1..deep))
            .prop_map(|(size, warm, calls)| Case14 { size, warm, calls })
            .boxed()
    }
    fn run(&self, case: &Case14) -> Verdict {
        let mut sim = Sim::new()?;
        define14();
        let mut farm = Farm::new(1)?;
        let addr = farm.servers[0].1;
        let pool = Pool::start(&sim, Some(case.size as usize), None, Some(LONG));
        let mut next = 0u32;
        // Connections that must not carry anything any more.
        let mut tainted: Vec<usize> = Vec::new();
        // Idle connections that were spoiled by the server; when they get closed is left open.
        let mut spoiled: Vec<(usize, usize)> = Vec::new();
        let mut info = Info::new(false);
        let arrive = |sim: &mut Sim, farm: &mut Farm, id: u32, w: &Watch<RespVal, htrpc::Error>, tainted: &[usize]| -> Result<usize, Fault> {
            sim.until(&format!("request {} to arrive", id), |_| {
                farm.poll()?;
                if w.is_done() {
                    violation!("call {} failed before its request arrived: {}", id, w.take().unwrap().err().map_or("?".into(), |e| e.to_string()));
                }
                Ok(farm.conn_of(id).is_some())
            })?;
            let k = farm.conn_of(id).unwrap();
            ensure!(!tainted.contains(&k), "call {} uses connection {} of a dropped or failed call", id, k);
            Ok(k)
        };
        // Warm up: several at once, so that several connections become idle.
        let mut warm = Vec::new();
        for _ in 0..case.warm {
            let id = next;
            next += 1;
            warm.push((id, sim.watch(call_pool(&pool.handle, addr, slot_for(id), request_for(id)))));
        }
        for (id, w) in &warm {
            arrive(&mut sim, &mut farm, *id, w, &tainted)?;
        }
        for (id, w) in warm {
            let k = farm.conn_of(id).unwrap();
            answer(&mut sim, &mut farm.conns[k], None)?;
            sim.until("warm-up call to resolve", |_| Ok(w.is_done()))?;
            check_answer(id, w.take().unwrap())?;
        }
        sim.until("connections beyond the pool size to be closed", |_| {
            farm.poll()?;
            Ok(farm.conns.iter().filter(|c| !c.raw.closed()).count() <= case.size as usize)
        })?;
        let mut troubled = false;
        for (trouble, run) in &case.calls {
            if !matches!(trouble, Trouble::None | Trouble::DropEarly(_) | Trouble::DropAt(..) | Trouble::Cut(..)) {
                next = next_post(next);
                if let Trouble::UntilClose = trouble {
                    // These have no body.
                    while status_for(next) == 204 || status_for(next) == 304 {
                        next = next_post(next + 1);
                    }
                }
            }
            let id = next;
            next += 1;
            info.nontrivial |= troubled;
            let mut v = request_for(id);
            let slot = if let Trouble::Unencodable = trouble {
                v.header = Some(FieldsVal::Struct(vec![Val::Str("a\r\nx: y".into())]));
                METHODS.len()
            } else {
                slot_for(id)
            };
            let mut w = sim.watch(call_pool(&pool.handle, addr, slot, v));
            sim.pump(*run as usize);
            let bytes = answer_bytes(id);
            let mut must_fail = true;
            let before: Vec<usize> = (0..farm.conns.len()).filter(|k| !farm.conns[*k].raw.closed()).collect();
            match trouble {
                Trouble::None => {
                    let k = arrive(&mut sim, &mut farm, id, &w, &tainted)?;
                    answer(&mut sim, &mut farm.conns[k], None)?;
                    sim.until(&format!("call {} to resolve", id), |_| Ok(w.is_done()))?;
                    check_answer(id, w.take().unwrap())?;
                    must_fail = false;
                }
                Trouble::UntilClose => {
                    let k = arrive(&mut sim, &mut farm, id, &w, &tainted)?;
                    let v = answer_for(id);
                    let mut b = format!("HTTP/1.1 {} OK\r\nx-id: {}\r\n\r\n", v.status, id).into_bytes();
                    b.extend_from_slice(&v.body);
                    farm.conns[k].pending = None;
                    farm.conns[k].raw.send(&mut sim, &b, &Seg::whole())?;
                    sim.pump(*run as usize);
                    farm.conns[k].raw.half_close();
                    sim.until(&format!("call {} to resolve", id), |_| Ok(w.is_done()))?;
                    check_answer(id, w.take().unwrap())?;
                    tainted.push(k);
                    must_fail = false;
                }
                Trouble::Extra(extra, late) => {
                    let k = arrive(&mut sim, &mut farm, id, &w, &tainted)?;
                    farm.conns[k].pending = None;
                    let mut b = bytes.clone();
                    if !late {
                        b.extend_from_slice(extra.as_bytes());
                    }
                    farm.conns[k].raw.send(&mut sim, &b, &Seg::whole())?;
                    sim.until(&format!("call {} to resolve", id), |_| Ok(w.is_done()))?;
                    check_answer(id, w.take().unwrap())?;
                    sim.pump(*run as usize);
                    if *late && !farm.conns[k].raw.closed() {
                        farm.conns[k].raw.send(&mut sim, extra.as_bytes(), &Seg::whole())?;
                    }
                    spoiled.push((k, farm.conns[k].carried.len()));
                    must_fail = false;
                }
                Trouble::IdleEnd(reset) => {
                    let k = arrive(&mut sim, &mut farm, id, &w, &tainted)?;
                    answer(&mut sim, &mut farm.conns[k], None)?;
                    sim.until(&format!("call {} to resolve", id), |_| Ok(w.is_done()))?;
                    check_answer(id, w.take().unwrap())?;
                    sim.pump(*run as usize);
                    if *reset {
                        farm.conns[k].raw.abort();
                    } else {
                        farm.conns[k].raw.half_close();
                    }
                    spoiled.push((k, farm.conns[k].carried.len()));
                    must_fail = false;
                }
                Trouble::Announced(n) => {
                    let k = arrive(&mut sim, &mut farm, id, &w, &tainted)?;
                    let v = answer_for(id);
                    let (version, field) = ANNOUNCED[*n as usize];
                    let mut b = format!(
                        "{} {} OK\r\n{}x-id: {}\r\nContent-Length: {}\r\n\r\n",
                        version, v.status, field, id, v.body.len()
                    ).into_bytes();
                    b.extend_from_slice(&v.body);
                    farm.conns[k].pending = None;
                    farm.conns[k].raw.send(&mut sim, &b, &Seg::whole())?;
                    sim.until(&format!("call {} to resolve", id), |_| Ok(w.is_done()))?;
                    check_answer(id, w.take().unwrap())?;
                    tainted.push(k);
                    must_fail = false;
                }
                Trouble::NoBody(status) => {
                    let k = arrive(&mut sim, &mut farm, id, &w, &tainted)?;
                    farm.conns[k].pending = None;
                    let b = format!("HTTP/1.1 {} X\r\nx-id: {}\r\n\r\n", status, id).into_bytes();
                    farm.conns[k].raw.send(&mut sim, &b, &Seg::whole())?;
                    sim.until(&format!("call {} to resolve with a response without body", id), |_| Ok(w.is_done()))?;
                    match w.take().unwrap() {
                        Err(e) => violation!("call {} failed although its server answered: {}", id, e),
                        Ok(r) => {
                            if let Err(m) = same_response(&reply_for(*status, id, 0), &r, false) {
                                violation!("call {} got a response that is not its own: {}", id, m);
                            }
                        }
                    }
                    must_fail = false;
                }
                Trouble::DropEarly(n) => {
                    sim.pump(*n as usize);
                    w.cancel();
                    sim.until("the dropped call to go away", |_| Ok(std::sync::Arc::strong_count(&w.cell) == 1))?;
                    sim.pump(20);
                    farm.poll()?;
                    if let Some(k) = farm.conn_of(id) {
                        farm.conns[k].pending = None;
                        tainted.push(k);
                    }
                    must_fail = false;
                }
                Trouble::DropAt(part, n) => {
                    let k = arrive(&mut sim, &mut farm, id, &w, &tainted)?;
                    farm.conns[k].pending = None;
                    let at = (*part as usize * (bytes.len() + 1)) >> 16;
                    farm.conns[k].raw.send(&mut sim, &bytes[..at], &Seg::whole())?;
                    if at < bytes.len() {
                        sim.pump(*n as usize);
                    }
                    w.cancel();
                    sim.until("the dropped call to go away", |_| Ok(std::sync::Arc::strong_count(&w.cell) == 1))?;
                    if w.is_done() {
                        // It was complete before it could be dropped.
                        check_answer(id, w.take().unwrap())?;
                    } else {
                        tainted.push(k);
                        // The rest of the answer comes all the same.
                        farm.conns[k].raw.send(&mut sim, &bytes[at..], &Seg::whole())?;
                    }
                    must_fail = false;
                }
                Trouble::Cut(part, reset) => {
                    let k = arrive(&mut sim, &mut farm, id, &w, &tainted)?;
                    farm.conns[k].pending = None;
                    let at = (*part as usize * bytes.len()) >> 16;
                    farm.conns[k].raw.send(&mut sim, &bytes[..at], &Seg::whole())?;
                    sim.pump(*run as usize);
                    if *reset {
                        farm.conns[k].raw.abort();
                    } else {
                        farm.conns[k].raw.half_close();
                    }
                    tainted.push(k);
                }
                Trouble::Garbage(_) | Trouble::MissingHeader | Trouble::BadHeader(_) | Trouble::BadLength(_) => {
                    let k = arrive(&mut sim, &mut farm, id, &w, &tainted)?;
                    farm.conns[k].pending = None;
                    let b = match trouble {
                        Trouble::Garbage(s) => s.clone().into_bytes(),
                        Trouble::MissingHeader => raw_response(200, &[], b"abc", false, false),
                        Trouble::BadHeader(s) => {
                            raw_response(200, &[("x-id".into(), s.clone().into_bytes())], b"abc", false, false)
                        }
                        Trouble::BadLength(s) => {
                            format!("HTTP/1.1 200 OK\r\nx-id: {}\r\nContent-Length: {}\r\n\r\nabc", id, s).into_bytes()
                        }
                        _ => unreachable!(),
                    };
                    farm.conns[k].raw.send(&mut sim, &b, &Seg::whole())?;
                    tainted.push(k);
                }
                Trouble::Unencodable => {}
            }
            if must_fail {
                sim.until(&format!("call {} to fail ({:?})", id, trouble), |_| Ok(w.is_done()))?;
                if let Ok(r) = w.take().unwrap() {
                    violation!("call {} ({:?}) yielded {:?}", id, trouble, r);
                }
            }
            if let Trouble::Unencodable = trouble {
                // Nothing of it was sent, and the connection it had got is closed: of those
                // that were open before at most one is closed, and no further one is left.
                sim.pump(20);
                farm.poll()?;
                for (k, c) in farm.conns.iter().enumerate() {
                    ensure!(
                        c.pending != Some(id) && c.raw.inbuf.is_empty(),
                        "bytes of an unencodable request were sent on connection {}: {:?}",
                        k, String::from_utf8_lossy(&c.raw.inbuf)
                    );
                    if c.carried.is_empty() && !tainted.contains(&k) {
                        tainted.push(k);
                    }
                }
                let lost = before.iter().filter(|k| farm.conns[**k].raw.closed() && !tainted.contains(*k) && spoiled.iter().all(|s| s.0 != **k)).count();
                ensure!(lost <= 1, "an unencodable request closed {} connections", lost);
                for k in before {
                    if farm.conns[k].raw.closed() && !tainted.contains(&k) {
                        tainted.push(k);
                    }
                }
            }
            troubled |= !matches!(trouble, Trouble::None);
            info = info.class(format!("{:?}", trouble).split('(').next().unwrap().to_string());
            unspoiled(&farm, &spoiled)?;
            // Every tainted connection gets closed.
            sim.until("the connection of a dropped or failed call to be closed", |_| {
                farm.poll()?;
                Ok(tainted.iter().all(|k| farm.conns[*k].raw.s.is_none() || farm.conns[*k].raw.closed()))
            })?;
        }
        // At the end an ordinary call works.
        let id = next;
        let w = sim.watch(call_pool(&pool.handle, addr, slot_for(id), request_for(id)));
        let k = arrive(&mut sim, &mut farm, id, &w, &tainted)?;
        answer(&mut sim, &mut farm.conns[k], None)?;
        sim.until("the last call to resolve", |_| Ok(w.is_done()))?;
        check_answer(id, w.take().unwrap())?;
        info.nontrivial |= troubled;
        unspoiled(&farm, &spoiled)?;
        for (k, c) in farm.conns.iter().enumerate() {
            if tainted.contains(&k) {
                ensure!(c.pending.is_none(), "connection {} of a dropped or failed call carries a request", k);
            }
        }
        pool.alive()?;
        Ok(info.units(case.calls.len() as u64 + 1))
    }
}
