//! C18: handlers that are Send but not Sync, on several threads.
use crate::engine::*;
use crate::gen;
use crate::http;
use crate::sim::fresh_addr;
use fibers::fiber::{Scheduler, SchedulerHandle};
use fibers::io::poll::Poller;
use fibers::sync::oneshot;
use fibers::Spawn;
use futures::future::Either;
use futures::{Async, Future};
use htrpc::types::{EntryPoint, HttpMethod, NeverFail};
use htrpc::{BodyReader, HandleRpc, Procedure, ReadBody, RpcRequest, RpcResponse};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------ an executor of several threads

#[derive(Clone)]
pub struct MultiHandle {
    handles: Arc<Vec<SchedulerHandle>>,
    next: Arc<AtomicUsize>,
    stride: usize,
}
impl Spawn for MultiHandle {
    fn spawn_boxed(&self, fiber: Box<dyn Future<Item = (), Error = ()> + Send>) {
        let n = self.next.fetch_add(self.stride, Ordering::Relaxed);
        self.handles[n % self.handles.len()].spawn_boxed(fiber)
    }
}
pub struct Multi {
    pub handle: MultiHandle,
    stop: Arc<AtomicBool>,
    threads: Vec<std::thread::JoinHandle<()>>,
}
impl Multi {
    pub fn new(threads: usize, stride: usize) -> Result<Multi, Fault> {
        let stop = Arc::new(AtomicBool::new(false));
        let mut handles = vec![];
        let mut ths = vec![];
        for _ in 0..threads {
            let mut poller = Poller::with_capacity(64)?;
            let mut sched = Scheduler::new(poller.handle());
            handles.push(sched.handle());
            let stop = stop.clone();
            ths.push(std::thread::Builder::new().name("multi".into()).spawn(move || {
                let mut idle = 0;
                while !stop.load(Ordering::Relaxed) {
                    let wait = if idle > 200 { Duration::from_millis(1) } else { Duration::from_millis(0) };
                    let _ = poller.poll(Some(wait));
                    idle = if sched.run_queue_len() > 0 { 0 } else { idle + 1 };
                    sched.run_once(false);
                }
            })?);
        }
        Ok(Multi {
            handle: MultiHandle { handles: Arc::new(handles), next: Arc::new(AtomicUsize::new(0)), stride },
            stop,
            threads: ths,
        })
    }
    /// None of the threads has died.
    pub fn alive(&self) -> Result<(), Fault> {
        if self.threads.iter().any(|t| t.is_finished()) {
            let p = PANICS.lock().ok().and_then(|p| p.iter().rev().find(|x| x.0 == "multi").cloned());
            violation!("a thread of the executor died: {:?}", p);
        }
        Ok(())
    }
}
impl Drop for Multi {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
        for t in self.threads.drain(..) {
            let _ = t.join();
        }
    }
}

// ------------------------------------------------------------ procedures

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Query {
    n: u64,
    s: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Header {
    #[serde(rename = "x-tag")]
    tag: String,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Req {
    path: (u32, String),
    query: Query,
    header: Header,
    #[serde(skip)]
    body: Vec<u8>,
}
impl RpcRequest for Req {
    fn body(&mut self) -> Vec<u8> {
        std::mem::take(&mut self.body)
    }
    fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
        use htrpc::FutureExt;
        Box::new(body.read_all_bytes().map_err(htrpc::Error::from).map(move |(r, b)| {
            self.body = b;
            (r, self)
        }))
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Res {
    status: u16,
    header: Header,
    #[serde(skip)]
    body: Vec<u8>,
}
impl RpcResponse for Res {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new(std::mem::take(&mut self.body))
    }
    fn set_body(&mut self, body: Vec<u8>) {
        self.body = body;
    }
}
macro_rules! procedure {
    ($n:ident, $m:ident, $name:literal) => {
        pub struct $n;
        impl Procedure for $n {
            type Request = Req;
            type Response = Res;
            fn method() -> HttpMethod {
                HttpMethod::$m
            }
            fn entry_point() -> EntryPoint {
                crate::dynproc::entry_point(&[Some($name.into()), None, None])
            }
        }
        impl HandleRpc<$n> for Handler {
            type Future = Reply;
            fn handle_rpc(self, r: Req) -> Reply {
                self.answer($name, r)
            }
        }
    };
}
procedure!(Alpha, Put, "alpha");
procedure!(Beta, Post, "beta");

fn answer_of(name: &str, r: &Req) -> (u16, String, Vec<u8>) {
    let tag = format!("{}/{}/{:?}/{:?}/{}", name, r.path.0, r.path.1, r.query.s, r.header.tag);
    // Visible ASCII, so that it is a header value.
    let tag: String = tag.chars().map(|c| if c.is_ascii_graphic() { c } else { '_' }).collect();
    let mut body = r.body.clone();
    body.reverse();
    body.extend_from_slice(&r.query.n.to_le_bytes());
    (200 + (r.query.n % 3) as u16, tag, body)
}

// ------------------------------------------------------------ handlers

#[derive(Default)]
struct Report {
    next_id: AtomicUsize,
    overlaps: AtomicUsize,
    clones: AtomicUsize,
    used: Mutex<Vec<usize>>,
    waiting: Mutex<Vec<oneshot::Sender<()>>>,
    gate: AtomicUsize,
    most: AtomicUsize,
}
type Reply = Box<dyn Future<Item = Res, Error = NeverFail> + Send + 'static>;

/// Notices when two threads are in it at the same time.
struct Handler {
    id: usize,
    busy: Arc<AtomicUsize>,
    report: Arc<Report>,
    spin: u64,
    _not_sync: Cell<u8>,
}
impl Handler {
    fn new(report: &Arc<Report>, spin: u64) -> Handler {
        Handler {
            id: report.next_id.fetch_add(1, Ordering::SeqCst),
            busy: Arc::new(AtomicUsize::new(0)),
            report: report.clone(),
            spin,
            _not_sync: Cell::new(0),
        }
    }
    fn enter<T>(&self, f: impl FnOnce() -> T) -> T {
        if self.busy.fetch_add(1, Ordering::SeqCst) != 0 {
            self.report.overlaps.fetch_add(1, Ordering::SeqCst);
        }
        let t = Instant::now();
        while t.elapsed() < Duration::from_micros(self.spin) {
            std::thread::yield_now();
        }
        let r = f();
        self.busy.fetch_sub(1, Ordering::SeqCst);
        r
    }
    fn answer(self, name: &str, r: Req) -> Reply {
        let id = self.id;
        let report = self.report.clone();
        self.enter(|| report.used.lock().unwrap().push(id));
        let (status, tag, body) = answer_of(name, &r);
        let res = Res { status, header: Header { tag }, body };
        let gate = report.gate.load(Ordering::SeqCst);
        if gate > 0 {
            // Waits until all of the first calls are here.
            let (tx, rx) = oneshot::channel();
            let mut w = report.waiting.lock().unwrap();
            w.push(tx);
            if w.len() >= gate {
                report.gate.store(0, Ordering::SeqCst);
                for tx in w.drain(..) {
                    let _ = tx.send(());
                }
            }
            drop(w);
            // The channel cannot fail while the report holds the sender.
            return Box::new(rx.then(move |_| Ok(res)));
        }
        Box::new(futures::finished(res))
    }
}
impl Clone for Handler {
    fn clone(&self) -> Handler {
        self.report.clones.fetch_add(1, Ordering::SeqCst);
        self.enter(|| Handler::new(&self.report, self.spin))
    }
}

// ------------------------------------------------------------ cases

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Kind {
    /// A foreign client on a connection of its own.
    Raw,
    Plain,
    Pooled,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Call {
    beta: bool,
    text: String,
    s: Option<String>,
    #[serde(with = "crate::dynproc::bodyfmt")]
    body: Vec<u8>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    threads: u8,
    stride: u8,
    spin: u16,
    gate: bool,
    clients: Vec<(Kind, Vec<Call>)>,
}

fn request(c: &Call, client: usize, k: usize) -> Req {
    Req {
        path: (client as u32, c.text.clone()),
        query: Query { n: (client * 1000 + k) as u64, s: c.s.clone() },
        header: Header { tag: format!("t{}-{}", client, k) },
        body: c.body.clone(),
    }
}
fn name(c: &Call) -> &'static str {
    if c.beta {
        "beta"
    } else {
        "alpha"
    }
}
fn check(c: &Call, r: &Req, status: u16, tag: &str, body: &[u8]) -> Result<(), Fault> {
    let e = answer_of(name(c), r);
    ensure!(
        status == e.0 && tag == e.1 && body == &e.2[..],
        "{} {:?} was answered with {} {:?} ({} bytes) instead of {} {:?} ({} bytes)",
        name(c), r.path, status, tag, body.len(), e.0, e.1, e.2.len()
    );
    Ok(())
}

fn raw_client(addr: SocketAddr, client: usize, calls: Vec<Call>) -> Result<(), Fault> {
    let mut s = TcpStream::connect(addr)?;
    s.set_nodelay(true)?;
    s.set_read_timeout(Some(hang_limit()))?;
    s.set_write_timeout(Some(hang_limit()))?;
    let mut buf = vec![];
    for (k, c) in calls.iter().enumerate() {
        let r = request(c, client, k);
        let mut q = format!("n={}", r.query.n);
        if let Some(s) = &r.query.s {
            q.push_str(&format!("&s={}", http::pct_encode(s.as_bytes())));
        }
        let mut bytes = format!(
            "{} /{}/{}/{}?{} HTTP/1.1\r\nX-Tag: {}\r\nContent-Length: {}\r\n\r\n",
            if c.beta { "POST" } else { "PUT" }, name(c), r.path.0, http::pct_encode(r.path.1.as_bytes()), q, r.header.tag, r.body.len()
        )
        .into_bytes();
        bytes.extend_from_slice(&r.body);
        if let Err(e) = s.write_all(&bytes) {
            violation!("the connection does not take a request: {}", e);
        }
        let res = loop {
            match http::take_response(&mut buf, false) {
                Err(e) => violation!("malformed response: {}", e),
                Ok(Some(r)) => break r,
                Ok(None) => {}
            }
            let mut b = [0; 4096];
            match s.read(&mut b) {
                Ok(0) => violation!("connection closed instead of a response"),
                Ok(n) => buf.extend_from_slice(&b[..n]),
                Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => {
                    return Err(Fault::Hang("no response".into()))
                }
                Err(e) => violation!("connection broken instead of a response: {}", e),
            }
        };
        let tag = res.header("x-tag").map(|v| String::from_utf8_lossy(v).into_owned()).unwrap_or_default();
        check(c, &r, res.status, &tag, &res.body)?;
    }
    Ok(())
}

fn lib_client(
    ex: &Multi,
    pool: &Option<htrpc::pool::RpcClientPoolHandle>,
    addr: SocketAddr,
    client: usize,
    calls: Vec<Call>,
) -> Result<(), Fault> {
    for (k, c) in calls.iter().enumerate() {
        let r = request(c, client, k);
        type F = Box<dyn Future<Item = Res, Error = htrpc::Error> + Send>;
        let f: F = match (pool, c.beta) {
            (None, false) => Box::new(htrpc::RpcClient::new(addr).call::<Alpha>(r.clone())),
            (None, true) => Box::new(htrpc::RpcClient::new(addr).call::<Beta>(r.clone())),
            (Some(p), false) => Box::new(p.client(addr).call::<Alpha>(r.clone())),
            (Some(p), true) => Box::new(p.client(addr).call::<Beta>(r.clone())),
        };
        let (tx, rx) = std::sync::mpsc::channel();
        ex.handle.spawn(f.then(move |r| {
            let _ = tx.send(r);
            Ok(())
        }));
        match rx.recv_timeout(hang_limit()) {
            Ok(Ok(res)) => check(c, &r, res.status, &res.header.tag, &res.body)?,
            Ok(Err(e)) => violation!("a call failed: {}", e),
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => return Err(Fault::Hang("call".into())),
            Err(_) => violation!("a call disappeared without a result"),
        }
    }
    Ok(())
}

pub struct C18;
impl Property for C18 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "servers on executors of 2 to 6 threads with 2 to 10 concurrent clients (raw, plain, pooled) calling two procedures whose handlers are Send but not Sync and slow to clone; non-trivial if at least two clients call the same procedure"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["thread schedules are those the kernel happens to choose".into()]
    }
    fn cases(&self) -> u64 {
        2500
    }
    fn workers(&self) -> usize {
        3
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        let text = gen::text().prop_map(|s| if s == "." || s == ".." { "x".to_string() } else { s });
        let call = (proptest::bool::weighted(0.25), text, proptest::option::of(gen::text()), prop_oneof![3 => Just(vec![]), 2 => vec(any::<u8>(), 0..30), 1 => gen::body()])
            .prop_map(|(beta, text, s, body)| Call { beta, text, s, body });
        let kind = prop_oneof![3 => Just(Kind::Raw), 1 => Just(Kind::Plain), 2 => Just(Kind::Pooled)];
        (2u8..7, 1u8..4, prop_oneof![Just(0u16), 0u16..300], any::<bool>(), vec((kind, prop_oneof![20 => vec(call.clone(), 1..6), 1 => vec(call, 6..60)]), 2..10))
            .prop_map(|(threads, stride, spin, gate, clients)| Case { threads, stride, spin, gate, clients })
            .boxed()
    }
    fn run(&self, case: &Case) -> Verdict {
        let report = Arc::new(Report::default());
        let ex = Arc::new(Multi::new(case.threads as usize, case.stride as usize)?);
        // Start the server.
        let mut addr = None;
        let mut server_done = Arc::new(Mutex::new(None));
        let mut stop = None;
        for _ in 0..5 {
            let a = fresh_addr();
            let mut b = htrpc::RpcServerBuilder::new(a);
            let h = Handler::new(&report, case.spin as u64);
            b.register(h, Alpha).map_err(|e| Fault::Violation(e.to_string()))?;
            let h = Handler::new(&report, case.spin as u64);
            b.register(h, Beta).map_err(|e| Fault::Violation(e.to_string()))?;
            let done = Arc::new(Mutex::new(None));
            let d = done.clone();
            let (tx, rx) = oneshot::channel::<()>();
            let server = b.start(ex.handle.clone()).then(move |r| {
                *d.lock().unwrap() = Some(r.map_err(|e| e.to_string()));
                Ok::<(), ()>(())
            });
            ex.handle.spawn(server.select2(rx).then(|r| {
                match r {
                    Ok(Either::A(_)) | Ok(Either::B(_)) | Err(_) => {}
                }
                Ok::<(), ()>(())
            }));
            let begun = Instant::now();
            while done.lock().unwrap().is_none() && begun.elapsed() < hang_limit() {
                if std::net::TcpListener::bind(a).is_err() {
                    addr = Some(a);
                    break;
                }
                std::thread::sleep(Duration::from_micros(200));
            }
            if addr.is_some() {
                server_done = done;
                stop = Some(tx);
                break;
            }
        }
        let addr = match addr {
            Some(a) => a,
            None => return Err(Fault::Harness("the server does not start".into())),
        };
        let roots = report.next_id.load(Ordering::SeqCst);
        let pool = if case.clients.iter().any(|c| matches!(c.0, Kind::Pooled)) {
            let mut p = htrpc::pool::RpcClientPool::new();
            p.set_connect_timeout(Duration::from_secs(60));
            let h = p.handle();
            ex.handle.spawn(p);
            Some(h)
        } else {
            None
        };
        if case.gate {
            report.gate.store(case.clients.len(), Ordering::SeqCst);
        }
        let start = Arc::new(std::sync::Barrier::new(case.clients.len()));
        let (tx, rx) = std::sync::mpsc::channel();
        for (i, (kind, calls)) in case.clients.iter().cloned().enumerate() {
            let (tx, start, ex, pool) = (tx.clone(), start.clone(), ex.clone(), pool.clone());
            std::thread::Builder::new().name("client".into()).spawn(move || {
                start.wait();
                let r = match kind {
                    Kind::Raw => raw_client(addr, i, calls),
                    Kind::Plain => lib_client(&ex, &None, addr, i, calls),
                    Kind::Pooled => lib_client(&ex, &pool, addr, i, calls),
                };
                drop(ex);
                let _ = tx.send(r);
            })?;
        }
        drop(tx);
        let mut first = Ok(());
        for r in rx.iter() {
            if first.is_ok() {
                first = r;
            }
        }
        drop(stop.take());
        ex.alive()?;
        first?;
        if let Some(r) = server_done.lock().unwrap().take() {
            violation!("the server future resolved: {:?}", r);
        }
        let total: usize = case.clients.iter().map(|c| c.1.len()).sum();
        let overlaps = report.overlaps.load(Ordering::SeqCst);
        ensure!(overlaps == 0, "one handler was accessed by two threads at once, {} times in {} calls", overlaps, total);
        let mut used = report.used.lock().unwrap().clone();
        ensure!(used.len() == total, "{} calls, but handlers ran {} times", total, used.len());
        ensure!(used.iter().all(|i| *i >= roots), "a registered handler itself was used for a call");
        used.sort();
        used.dedup();
        ensure!(used.len() == total, "{} calls ran on only {} clones", total, used.len());
        let same = case.clients.iter().filter(|c| c.1.iter().any(|x| !x.beta)).count();
        Ok(Info::new(same >= 2).units(total as u64).class_if(case.gate, "waiting for each other").class_if(pool.is_some(), "pooled"))
    }
}
#[allow(unused)]
fn unused(_: Async<()>) {}
