//! C20: connections that are over are released, on both sides.
use crate::dynproc::*;
use crate::engine::*;
use crate::http;
use crate::props::c07::*;
use crate::props::c08;
use crate::props::pool::{answer_bytes, define_procs, request_for, slot_for, Farm, Pool};
use crate::sim::*;
use crate::world::*;
use futures::{Async, Future, Poll};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::mem;
use std::sync::{Arc, Mutex};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Case {
    /// The server and clients that end in whatever way.
    Server { clients: Vec<Client> },
    /// Calls that end in whatever way.
    Calls {
        calls: Vec<Call>,
        servers: u8,
        pool: Option<u8>,
        /// The futures of calls that have resolved are not dropped.
        #[serde(default)]
        keep: bool,
    },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Client {
    pub sends: Vec<(c08::Payload, Seg)>,
    pub steps: u8,
    pub end: c08::End,
    /// Its handlers finish before it ends.
    pub early: bool,
    /// It reads what the server sends before it ends.
    pub reads: bool,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Call {
    pub server: u8,
    pub fate: Fate,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Fate {
    Answered,
    /// Dropped after so many steps, before any answer.
    Dropped(u8),
    /// Dropped when this part of the answer has been sent.
    DroppedAt(u16, u8),
    /// Answered with something else.
    Malformed(Vec<u8>),
    /// Answered with a response that is not the type's.
    Undecodable,
    /// An address where nobody listens.
    Refused,
}

fn socket_addr(fd: i32, peer: bool) -> Option<SocketAddr> {
    unsafe {
        let mut a: libc::sockaddr_storage = mem::zeroed();
        let mut n = mem::size_of::<libc::sockaddr_storage>() as libc::socklen_t;
        let p = &mut a as *mut _ as *mut libc::sockaddr;
        let r = if peer { libc::getpeername(fd, p, &mut n) } else { libc::getsockname(fd, p, &mut n) };
        if r != 0 {
            return None;
        }
        match a.ss_family as i32 {
            libc::AF_INET => {
                let a = &*(p as *const libc::sockaddr_in);
                Some(SocketAddr::new(IpAddr::V4(Ipv4Addr::from(u32::from_be(a.sin_addr.s_addr))), u16::from_be(a.sin_port)))
            }
            libc::AF_INET6 => {
                let a = &*(p as *const libc::sockaddr_in6);
                Some(SocketAddr::new(IpAddr::V6(Ipv6Addr::from(a.sin6_addr.s6_addr)), u16::from_be(a.sin6_port)))
            }
            _ => None,
        }
    }
}
/// The descriptors of this process which are sockets bound to the address and not listening.
/// (A reset connection has no peer any more.)
fn held(addr: SocketAddr) -> Vec<i32> {
    let mut v = vec![];
    if let Ok(d) = std::fs::read_dir("/proc/self/fd") {
        for e in d.flatten() {
            if let Some(fd) = e.file_name().to_str().and_then(|s| s.parse::<i32>().ok()) {
                if socket_addr(fd, false) == Some(addr) && !listening(fd) {
                    v.push(fd);
                }
            }
        }
    }
    v
}
fn listening(fd: i32) -> bool {
    unsafe {
        let mut v: libc::c_int = 0;
        let mut n = mem::size_of::<libc::c_int>() as libc::socklen_t;
        libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_ACCEPTCONN, &mut v as *mut _ as *mut _, &mut n) == 0 && v != 0
    }
}

pub struct C20;
impl Property for C20 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "clients that send requests, parts of requests or garbage and end their connections, or calls that are answered, fail or are dropped, and then a count of the sockets still held; non-trivial if at least one of them did not run a plain course"
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "handlers finish at last".into(),
            "a client that only half-closes reads what it is sent".into(),
        ]
    }
    fn cases(&self) -> u64 {
        40000
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case> {
        let deep = if tier == Tier::Thorough { 12 } else { 5 };
        let client = (
            vec((c08::payload(), seg_strategy()), 0..3),
            prop_oneof![Just(0u8), 1u8..20, Just(80u8)],
            select(vec![c08::End::HalfClose, c08::End::Close, c08::End::Abort]),
            any::<bool>(),
            any::<bool>(),
        )
            .prop_map(|(sends, steps, end, early, reads)| Client { sends, steps, end, early, reads });
        let fate = prop_oneof![
            3 => Just(Fate::Answered),
            3 => prop_oneof![0u8..12, Just(60u8)].prop_map(Fate::Dropped),
            2 => (any::<u16>(), prop_oneof![Just(0u8), 1u8..10]).prop_map(|(a, b)| Fate::DroppedAt(a, b)),
            1 => prop_oneof![
                vec(any::<u8>(), 1..20),
                Just(b"HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n".to_vec()),
                Just(b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\nTransfer-Encoding: chunked\r\n\r\n".to_vec()),
                Just(b"ICY 200 OK\r\n\r\n".to_vec()),
            ].prop_map(Fate::Malformed),
            1 => Just(Fate::Undecodable),
            1 => Just(Fate::Refused),
        ];
        let call = (any::<u8>(), fate).prop_map(|(server, fate)| Call { server, fate });
        prop_oneof![
            3 => vec(client, 1..deep).prop_map(|clients| Case::Server { clients }),
            2 => (vec(call, 1..deep + 3), 1u8..3, proptest::option::of(0u8..4), any::<bool>())
                .prop_map(|(calls, servers, pool, keep)| Case::Calls { calls, servers, pool, keep }),
        ]
        .boxed()
    }
    fn run(&self, case: &Case) -> Verdict {
        match case {
            Case::Server { clients } => run_server(clients),
            Case::Calls { calls, servers, pool, keep } => run_calls(calls, *servers as usize, *pool, *keep),
        }
    }
}

fn open_all(gates: &Gates) {
    let ids: Vec<u32> = gates.lock().unwrap().keys().cloned().collect();
    for i in ids {
        open_gate(gates, i);
    }
}

fn run_server(clients: &[Client]) -> Verdict {
    let mut sim = Sim::new()?;
    for (i, m) in SLOT_METHODS.iter().enumerate() {
        define(i, &proc_for(m));
    }
    let log = new_log();
    let gates: Gates = Default::default();
    let b = obeying(&log, &gates);
    let server = start_server(&mut sim, |s| {
        for i in 0..SLOT_METHODS.len() {
            register(s, i, i as u64, &b).map_err(|e| Fault::Violation(format!("registration refused: {}", e)))?;
        }
        Ok(())
    })?;
    let mut bad_id = 1_000_000;
    let mut half: Vec<Raw> = vec![];
    let mut info = Info::new(false);
    for cl in clients {
        let mut c = Raw::connect(server.addr)?;
        for (p, seg) in &cl.sends {
            let bytes = c08::bytes_of(p, &mut bad_id);
            c08::send_some(&mut sim, &mut c, &bytes, seg);
            info.nontrivial |= !matches!(p, c08::Payload::Whole(..));
        }
        sim.pump(cl.steps as usize);
        if cl.early {
            open_all(&gates);
            sim.pump(cl.steps as usize);
        }
        if cl.reads {
            c.fill();
        }
        info = info.class(format!("{:?}", cl.end));
        match cl.end {
            c08::End::Close => c.close(),
            c08::End::Abort => c.abort(),
            _ => {
                c.half_close();
                half.push(c);
            }
        }
    }
    // A last client, which keeps its connection: by the time it is answered, the server has
    // accepted all others.
    let mut last = Raw::connect(server.addr)?;
    let id = 3_735_928_000;
    let r = Req { method: 0, kind: Kind::Ok { status: 200, len: 10, wait: false }, body: vec![], no_length: false, extra: (0, 0) };
    last.send(&mut sim, &wire(&r, id).1, &Seg::whole())?;
    let resp = http::expect_response(&mut sim, &mut last, false, "a healthy client")?;
    judge(&r, id, "GET", &resp, &log, None, "a healthy client")?;
    let mut left = vec![];
    let r = sim.until("connections which are over to be released", |sim| {
        open_all(&gates);
        for c in &mut half {
            c.fill();
            c.inbuf.clear();
        }
        sim.pump(10);
        left = held(server.addr);
        Ok(left.len() <= 1)
    });
    if let Err(Fault::Hang(_)) = r {
        return Err(Fault::Hang(format!("{} of {} connections which are over are still held by the server", left.len() - 1, clients.len())));
    }
    r?;
    ensure!(left.len() == 1, "the connection of the healthy client is gone");
    server.alive()?;
    last.send(&mut sim, &wire(&Req { method: 0, kind: Kind::NotFound, body: vec![], no_length: true, extra: (0, 0) }, 1).1, &Seg::whole())?;
    http::expect_response(&mut sim, &mut last, false, "the healthy client again")?;
    Ok(info.units(clients.len() as u64).class("server"))
}

type Kept = Arc<Mutex<Vec<BoxCall>>>;
/// A call whose future outlives its result.
struct Keep {
    call: Option<BoxCall>,
    kept: Kept,
}
impl Future for Keep {
    type Item = <BoxCall as Future>::Item;
    type Error = <BoxCall as Future>::Error;
    fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
        let r = self.call.as_mut().unwrap().poll();
        match r {
            Ok(Async::NotReady) => {}
            _ => self.kept.lock().unwrap().push(self.call.take().unwrap()),
        }
        r
    }
}

fn run_calls(calls: &[Call], servers: usize, size: Option<u8>, keep: bool) -> Verdict {
    let kept = Kept::default();
    let mut sim = Sim::new()?;
    define_procs();
    let mut farm = Farm::new(servers)?;
    let mut pool = match size {
        Some(n) => {
            let mut p = htrpc::pool::RpcClientPool::with_pool_size(n as usize);
            p.set_connect_timeout(std::time::Duration::from_secs(60));
            let handle = p.handle();
            Some(Pool { handle, fut: sim.watch(p) })
        }
        None => None,
    };
    let mut info = Info::new(calls.iter().any(|c| !matches!(c.fate, Fate::Answered)))
        .class(if pool.is_some() { "pooled calls" } else { "plain calls" })
        .class_if(keep, "futures kept");
    let nobody = fresh_addr();
    for (n, c) in calls.iter().enumerate() {
        let id = n as u32;
        let addr = match c.fate {
            Fate::Refused => nobody,
            _ => farm.servers[c.server as usize % servers].1,
        };
        let call = match &pool {
            Some(p) => call_pool(&p.handle, addr, slot_for(id), request_for(id)),
            None => call_plain(addr, slot_for(id), request_for(id)),
        };
        let mut w = if keep {
            sim.watch(Keep { call: Some(call), kept: kept.clone() })
        } else {
            sim.watch(call)
        };
        if let Fate::Dropped(steps) = c.fate {
            for _ in 0..steps {
                sim.pump(1);
                farm.poll()?;
            }
            w.cancel();
            sim.pump(5);
            info = info.class("dropped");
            continue;
        }
        if let Fate::Refused = c.fate {
            sim.until("refused call to resolve", |_| Ok(w.is_done()))?;
            info = info.class("refused");
            continue;
        }
        sim.until("request to arrive", |_| {
            farm.poll()?;
            Ok(farm.conn_of(id).is_some())
        })?;
        let k = farm.conn_of(id).unwrap();
        farm.conns[k].pending = None;
        let mut bytes = answer_bytes(id);
        match &c.fate {
            Fate::DroppedAt(at, steps) => {
                // At least the last byte is missing.
                let at = (*at as usize * bytes.len()) >> 16;
                farm.conns[k].raw.send(&mut sim, &bytes[..at], &Seg::whole())?;
                sim.pump(*steps as usize);
                w.cancel();
                sim.pump(5);
                info = info.class("dropped");
                continue;
            }
            Fate::Malformed(b) => {
                bytes = b.clone();
                bytes.extend_from_slice(b"\r\n\0\r\n\r\n");
                info = info.class("malformed response");
            }
            Fate::Undecodable => {
                bytes = b"HTTP/1.1 200 OK\r\nx-id: none\r\nContent-Length: 0\r\n\r\n".to_vec();
                info = info.class("undecodable response");
            }
            _ => {}
        }
        farm.conns[k].raw.send(&mut sim, &bytes, &Seg::whole())?;
        if let Fate::Malformed(_) = c.fate {
            // It may look like the beginning of a response.
            farm.conns[k].raw.half_close();
        }
        sim.until("call to resolve", |_| Ok(w.is_done()))?;
        let ok = w.take().unwrap().is_ok();
        if let Fate::Answered = c.fate {
            ensure!(ok, "call {} failed although it was answered", id);
        }
        let plain = pool.is_none();
        if plain || !ok {
            // This connection is over.
            let farm = &mut farm;
            sim.until("the connection of a call that is over to be closed", |_| {
                farm.poll()?;
                Ok(farm.conns[k].raw.closed())
            })?;
        }
    }
    if let Some(ref mut p) = pool {
        p.alive()?;
        p.fut.cancel();
    }
    let mut left = 0;
    let r = sim.until("connections of calls which are over to be closed", |_| {
        farm.poll()?;
        left = farm.conns.iter().filter(|c| !c.raw.closed()).count();
        Ok(left == 0)
    });
    if let Err(Fault::Hang(_)) = r {
        return Err(Fault::Hang(format!("{} connections are still open although all calls are over", left)));
    }
    r?;
    drop(kept);
    Ok(info.units(calls.len() as u64))
}
