//! A single-threaded executor for fibers which the harness steps itself, so that the server,
//! the clients and the raw peers of a case all run on one thread under a schedule that is
//! part of the generated case.
use crate::engine::{hang_limit, Fault};
use fibers::fiber::{Scheduler, SchedulerHandle};
use fibers::io::poll::Poller;
use fibers::sync::oneshot;
use fibers::Spawn;
use futures::future::Either;
use futures::{Async, Future};
use std::io::{ErrorKind, Read, Write};
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4, TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Sim {
    sched: Option<Scheduler>,
    poller: Option<Poller>,
    pub handle: SchedulerHandle,
}

impl Sim {
    pub fn new() -> Result<Self, Fault> {
        let poller = Poller::with_capacity(64)?;
        let sched = Scheduler::new(poller.handle());
        let handle = sched.handle();
        Ok(Sim {
            sched: Some(sched),
            poller: Some(poller),
            handle,
        })
    }

    /// One small unit of work: one readiness poll, one fiber.
    pub fn step(&mut self) {
        let _ = self
            .poller
            .as_mut()
            .unwrap()
            .poll(Some(Duration::from_millis(0)));
        self.sched.as_mut().unwrap().run_once(false);
    }
    pub fn pump(&mut self, n: usize) {
        for _ in 0..n {
            self.step();
        }
    }
    /// Runs until nothing has happened for a while (used only to vary schedules and to let
    /// pending work drain, never as an oracle by itself).
    pub fn settle(&mut self) {
        for _ in 0..6 {
            self.pump(40);
            let _ = self
                .poller
                .as_mut()
                .unwrap()
                .poll(Some(Duration::from_millis(0)));
            std::thread::yield_now();
        }
    }
    /// Runs for the given time.
    pub fn run_for(&mut self, d: Duration) {
        let end = Instant::now() + d;
        while Instant::now() < end {
            self.pump(8);
            let _ = self
                .poller
                .as_mut()
                .unwrap()
                .poll(Some(Duration::from_millis(1)));
        }
    }
    /// Steps until the condition holds; a hang if it never does.
    pub fn until<F>(&mut self, what: &str, mut f: F) -> Result<(), Fault>
    where
        F: FnMut(&mut Sim) -> Result<bool, Fault>,
    {
        if f(self)? {
            return Ok(());
        }
        let limit = hang_limit();
        let start = Instant::now();
        let mut idle = 0u32;
        loop {
            self.pump(3);
            if f(self)? {
                return Ok(());
            }
            idle += 1;
            if idle > 300 {
                let _ = self
                    .poller
                    .as_mut()
                    .unwrap()
                    .poll(Some(Duration::from_millis(1)));
                if start.elapsed() > limit {
                    return Err(Fault::Hang(format!("{}: not within {:?}", what, limit)));
                }
            }
        }
    }

    /// Spawns a future whose result is stored in the returned cell.
    pub fn watch<F>(&self, f: F) -> Watch<F::Item, F::Error>
    where
        F: Future + Send + 'static,
        F::Item: Send + 'static,
        F::Error: Send + 'static,
    {
        let cell = Arc::new(Mutex::new(None));
        let cell2 = Arc::clone(&cell);
        let (tx, rx) = oneshot::channel::<()>();
        self.handle.spawn(
            f.select2(rx)
                .then(move |r| {
                    let v = match r {
                        Ok(Either::A((v, _))) => Some(Ok(v)),
                        Err(Either::A((e, _))) => Some(Err(e)),
                        Ok(Either::B(((), call))) => {
                            drop(call);
                            None
                        }
                        Err(Either::B((_, call))) => {
                            drop(call);
                            None
                        }
                    };
                    if let Some(v) = v {
                        *cell2.lock().unwrap() = Some(v);
                    }
                    Ok(())
                }),
        );
        Watch {
            cell,
            cancel: Some(tx),
        }
    }
}
impl Drop for Sim {
    fn drop(&mut self) {
        // Fibers first: their sockets deregister with the poller, which must still exist.
        let s = self.sched.take();
        drop(s);
        let p = self.poller.take();
        drop(p);
    }
}

/// The observable result of a spawned future.
pub struct Watch<T, E> {
    pub cell: Arc<Mutex<Option<Result<T, E>>>>,
    cancel: Option<oneshot::Sender<()>>,
}
impl<T, E> Watch<T, E> {
    pub fn is_done(&self) -> bool {
        self.cell.lock().unwrap().is_some()
    }
    pub fn take(&self) -> Option<Result<T, E>> {
        self.cell.lock().unwrap().take()
    }
    /// Makes the executor drop the future at its next step.
    pub fn cancel(&mut self) {
        if let Some(tx) = self.cancel.take() {
            let _ = tx.send(());
        }
    }
}

/// A future that waits for the harness.
pub struct Gate<T>(pub oneshot::Receiver<T>);
impl<T> Future for Gate<T> {
    type Item = T;
    type Error = htrpc::types::NeverFail;
    fn poll(&mut self) -> futures::Poll<T, Self::Error> {
        match self.0.poll() {
            Ok(Async::Ready(v)) => Ok(Async::Ready(v)),
            Ok(Async::NotReady) => Ok(Async::NotReady),
            // The harness dropped the gate: this call never completes.
            Err(_) => Ok(Async::NotReady),
        }
    }
}

static NEXT_ADDR: AtomicU32 = AtomicU32::new(0);

/// A loopback address nobody else uses: a new IP for each request, on a port outside of the
/// ephemeral range.
pub fn fresh_addr() -> SocketAddr {
    let n = NEXT_ADDR.fetch_add(1, Ordering::Relaxed);
    let pid = std::process::id();
    let ip = Ipv4Addr::new(
        127,
        (1 + (n >> 16) % 250) as u8,
        ((n >> 8) & 0xff) as u8,
        (n & 0xff) as u8,
    );
    // x.x.x.0 and x.x.x.255 are fine on lo, but 127.1.0.0 looks odd; the port carries the pid.
    let port = 10_000 + (pid % 20_000) as u16;
    SocketAddr::V4(SocketAddrV4::new(ip, port))
}

pub fn listen_raw() -> Result<(TcpListener, SocketAddr), Fault> {
    let mut last = None;
    for _ in 0..20 {
        let a = fresh_addr();
        match TcpListener::bind(a) {
            Ok(l) => {
                l.set_nonblocking(true)?;
                return Ok((l, a));
            }
            Err(e) => last = Some(e),
        }
    }
    Err(Fault::Harness(format!("cannot bind a listener: {:?}", last)))
}

/// A listener on the IP of `other`, at another port; or anywhere if there is none.
pub fn listen_twin(other: SocketAddr) -> Result<(TcpListener, SocketAddr), Fault> {
    for port in 30_001..30_040 {
        let a = SocketAddr::new(other.ip(), port);
        if let Ok(l) = TcpListener::bind(a) {
            l.set_nonblocking(true)?;
            return Ok((l, a));
        }
    }
    listen_raw()
}
/// A listener on the IPv6 loopback address, if there is one.
pub fn listen_v6() -> Result<(TcpListener, SocketAddr), Fault> {
    if let Ok(l) = TcpListener::bind("[::1]:0") {
        if let Ok(a) = l.local_addr() {
            l.set_nonblocking(true)?;
            return Ok((l, a));
        }
    }
    listen_raw()
}

/// A raw TCP peer owned by the harness.
pub struct Raw {
    pub s: Option<TcpStream>,
    pub inbuf: Vec<u8>,
    pub eof: bool,
    pub reset: bool,
    pub write_failed: bool,
}
impl Raw {
    pub fn connect(addr: SocketAddr) -> Result<Raw, Fault> {
        let s = TcpStream::connect(addr)?;
        Raw::wrap(s)
    }
    pub fn wrap(s: TcpStream) -> Result<Raw, Fault> {
        s.set_nonblocking(true)?;
        let _ = s.set_nodelay(true);
        Ok(Raw {
            s: Some(s),
            inbuf: Vec::new(),
            eof: false,
            reset: false,
            write_failed: false,
        })
    }
    pub fn accept(l: &TcpListener) -> Result<Option<Raw>, Fault> {
        match l.accept() {
            Ok((s, _)) => Ok(Some(Raw::wrap(s)?)),
            Err(ref e) if e.kind() == ErrorKind::WouldBlock => Ok(None),
            Err(e) => Err(e.into()),
        }
    }
    /// Reads whatever is there.
    pub fn fill(&mut self) {
        let mut buf = [0u8; 16384];
        if let Some(ref mut s) = self.s {
            while !self.eof && !self.reset {
                match s.read(&mut buf) {
                    Ok(0) => self.eof = true,
                    Ok(n) => {
                        self.inbuf.extend_from_slice(&buf[..n]);
                        if n < buf.len() {
                            break;
                        }
                    }
                    Err(ref e) if e.kind() == ErrorKind::WouldBlock => break,
                    Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                    Err(_) => self.reset = true,
                }
            }
        }
    }
    pub fn closed(&self) -> bool {
        self.eof || self.reset
    }
    /// Writes what fits; returns the number of bytes taken (all of them if the peer is gone).
    pub fn write_some(&mut self, b: &[u8]) -> usize {
        if let Some(ref mut s) = self.s {
            match s.write(b) {
                Ok(n) => n,
                Err(ref e)
                    if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::Interrupted =>
                {
                    0
                }
                Err(_) => {
                    self.write_failed = true;
                    b.len()
                }
            }
        } else {
            b.len()
        }
    }
    /// Sends all bytes in the given pieces, running the simulation in between.
    pub fn send(&mut self, sim: &mut Sim, bytes: &[u8], seg: &Seg) -> Result<(), Fault> {
        let cuts = seg.positions(bytes.len());
        let mut at = 0;
        for (i, end) in cuts.into_iter().enumerate() {
            while at < end {
                let mut stuck = None;
                let n = self.write_some(&bytes[at..end]);
                if n == 0 {
                    stuck = Some(());
                }
                at += n;
                if stuck.is_some() {
                    let me = &mut *self;
                    let mut advanced = 0;
                    sim.until("peer to read what was sent", |_| {
                        me.fill();
                        advanced = me.write_some(&bytes[at..end]);
                        Ok(advanced > 0)
                    })?;
                    at += advanced;
                }
            }
            let p = seg.pump(i);
            sim.pump(p);
            if p > 0 {
                self.fill();
            }
        }
        Ok(())
    }
    pub fn half_close(&mut self) {
        if let Some(ref s) = self.s {
            let _ = s.shutdown(std::net::Shutdown::Write);
        }
    }
    pub fn close(&mut self) {
        self.s = None;
    }
    /// Closes with RST.
    pub fn abort(&mut self) {
        if let Some(ref s) = self.s {
            let l = libc::linger {
                l_onoff: 1,
                l_linger: 0,
            };
            unsafe {
                libc::setsockopt(
                    s.as_raw_fd(),
                    libc::SOL_SOCKET,
                    libc::SO_LINGER,
                    &l as *const _ as *const libc::c_void,
                    std::mem::size_of::<libc::linger>() as libc::socklen_t,
                );
            }
        }
        self.s = None;
    }
}

/// How a byte string is cut into pieces, and how long the other side runs after each piece.
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct Seg {
    /// Cut positions in 1/65536 of the length, or, if `near_end`, counted from the front.
    pub cuts: Vec<u16>,
    /// Absolute cut positions.
    pub abs: Vec<u16>,
    pub pumps: Vec<u8>,
}
impl Seg {
    pub fn whole() -> Seg {
        Seg {
            cuts: vec![],
            abs: vec![],
            pumps: vec![],
        }
    }
    pub fn positions(&self, len: usize) -> Vec<usize> {
        let mut v: Vec<usize> = self
            .cuts
            .iter()
            .map(|c| (*c as usize * len) >> 16)
            .chain(self.abs.iter().map(|a| *a as usize))
            .filter(|p| *p > 0 && *p < len)
            .collect();
        v.push(len);
        v.sort();
        v.dedup();
        v
    }
    pub fn pump(&self, i: usize) -> usize {
        if self.pumps.is_empty() {
            0
        } else {
            self.pumps[i % self.pumps.len()] as usize
        }
    }
}

pub fn seg_strategy() -> proptest::strategy::BoxedStrategy<Seg> {
    use proptest::prelude::*;
    prop_oneof![
        2 => Just(Seg::whole()),
        3 => (
            proptest::collection::vec(any::<u16>(), 0..5),
            proptest::collection::vec(1u16..200, 0..4),
            proptest::collection::vec(prop_oneof![Just(0u8), 1u8..20, Just(60u8)], 1..4),
        )
            .prop_map(|(cuts, abs, pumps)| Seg { cuts, abs, pumps }),
        1 => (1u16..120).prop_map(|n| Seg { cuts: vec![], abs: (1..n).collect(), pumps: vec![3] }),
    ]
    .boxed()
}
