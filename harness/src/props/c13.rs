//! C13: suspension of addresses and the connect timeout, under histories of states of the
//! addresses. Every statement about time is one-sided: certain suspension before the earliest
//! possible expiry, certain freedom after the latest possible one, nothing in between.
use crate::dynproc::*;
use crate::engine::*;
use crate::http;
use crate::props::pool::*;
use crate::sim::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum State {
    Closed,
    Good,
    /// Connecting neither succeeds nor fails.
    Hang,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Dur {
    Ms(u64),
    /// Seconds and nanoseconds; longer than any case runs.
    Long(u64, u32),
    Max,
}
impl Dur {
    fn get(self) -> Duration {
        match self {
            Dur::Ms(n) => Duration::from_millis(n),
            Dur::Long(s, n) => Duration::new(s, n % 1_000_000_000),
            Dur::Max => Duration::new(u64::MAX, 999_999_999),
        }
    }
    fn short(self) -> Option<Duration> {
        match self {
            Dur::Ms(n) => Some(Duration::from_millis(n)),
            _ => None,
        }
    }
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum Mode {
    Ok,
    Rst,
    Eof,
    Garbage,
    /// The caller drops the call after this many steps.
    Drop(u8),
    /// The response body does not decode.
    Unfit,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Call { host: u8, n: u8, mode: Mode },
    /// A call that nobody waits for while further operations run.
    Leave { host: u8 },
    DropLeft { host: u8 },
    Set { host: u8, state: State },
    Wait(u8),
    /// Until the suspension of this address must be over.
    PastEnd { host: u8 },
    /// The address works again, and its suspension is over.
    Revive { host: u8 },
    /// A call while the address does not listen, which listens again afterwards.
    Fail { host: u8 },
    /// Until shortly before the suspension of this address may be over.
    NearEnd { host: u8 },
    /// Two hanging calls, the second so much later; a call near the end of the suspension.
    Stagger { host: u8, gap: u8 },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub hosts: Vec<State>,
    /// The second address differs from the first one by the port only.
    pub twin: bool,
    pub size: Option<u8>,
    pub suspended: Dur,
    pub timeout: Dur,
    pub ops: Vec<Op>,
}

struct Host {
    addr: SocketAddr,
    state: State,
    listener: Option<TcpListener>,
    fillers: Vec<TcpStream>,
    filler_addrs: Vec<SocketAddr>,
    junk: Vec<TcpStream>,
    conns: Vec<FConn>,
    attempts: usize,
    requests: usize,
    /// Bounds of the time at which the last failure was noted.
    susp: Option<(Instant, Instant)>,
    left: Vec<Left>,
}
struct Left {
    id: u32,
    begun: Instant,
    pending_at: Instant,
    /// The address was not suspended: a failure is a failure to connect.
    clear: bool,
    watch: Watch<RespVal, htrpc::Error>,
}

fn connect_nonblocking(addr: SocketAddr) -> Result<TcpStream, Fault> {
    let v4 = match addr {
        SocketAddr::V4(a) => a,
        _ => return Err(Fault::Harness("v4 only".into())),
    };
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(std::io::Error::last_os_error().into());
        }
        let s = TcpStream::from_raw_fd(fd);
        let mut sa: libc::sockaddr_in = std::mem::zeroed();
        sa.sin_family = libc::AF_INET as libc::sa_family_t;
        sa.sin_port = v4.port().to_be();
        sa.sin_addr.s_addr = u32::from_ne_bytes(v4.ip().octets());
        let r = libc::connect(
            fd,
            &sa as *const _ as *const libc::sockaddr,
            std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t,
        );
        if r != 0 {
            let e = std::io::Error::last_os_error();
            if e.raw_os_error() != Some(libc::EINPROGRESS) {
                return Err(e.into());
            }
        }
        Ok(s)
    }
}
fn connected(s: &TcpStream) -> bool {
    s.peer_addr().is_ok()
}

impl Host {
    fn new(addr: SocketAddr) -> Host {
        Host {
            addr,
            state: State::Closed,
            listener: None,
            fillers: vec![],
            filler_addrs: vec![],
            junk: vec![],
            conns: vec![],
            attempts: 0,
            requests: 0,
            susp: None,
            left: vec![],
        }
    }
    fn set(&mut self, state: State) -> Result<(), Fault> {
        if self.state == state {
            return Ok(());
        }
        self.take_in()?;
        // What waits in front of a full queue leaves first.
        self.fillers.clear();
        self.take_in()?;
        self.junk.clear();
        match state {
            State::Closed => self.listener = None,
            State::Good => {
                if self.listener.is_none() {
                    let l = TcpListener::bind(self.addr)?;
                    l.set_nonblocking(true)?;
                    self.listener = Some(l);
                }
                unsafe { libc::listen(self.listener.as_ref().unwrap().as_raw_fd(), 128) };
            }
            State::Hang => {
                if self.listener.is_none() {
                    let l = TcpListener::bind(self.addr)?;
                    l.set_nonblocking(true)?;
                    self.listener = Some(l);
                }
                unsafe { libc::listen(self.listener.as_ref().unwrap().as_raw_fd(), 0) };
                let mut full = false;
                for _ in 0..8 {
                    let s = connect_nonblocking(self.addr)?;
                    self.filler_addrs.push(s.local_addr()?);
                    full = !connected(&s);
                    self.fillers.push(s);
                    if full {
                        break;
                    }
                }
                if !full {
                    return Err(Fault::Harness("no hanging connect on this system".into()));
                }
            }
        }
        self.state = state;
        Ok(())
    }
    fn carried(&self, id: u32) -> bool {
        self.conns.iter().any(|c| c.carried.contains(&id))
    }
    fn take_in(&mut self) -> Result<(), Fault> {
        if self.state != State::Hang {
            if let Some(ref l) = self.listener {
                loop {
                    match l.accept() {
                        Ok((s, peer)) => {
                            if self.filler_addrs.contains(&peer) {
                                self.junk.push(s);
                            } else {
                                self.attempts += 1;
                                self.conns.push(FConn { server: 0, raw: Raw::wrap(s)?, pending: None, carried: vec![] });
                            }
                        }
                        Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                        Err(e) => return Err(e.into()),
                    }
                }
            }
        }
        for (i, c) in self.conns.iter_mut().enumerate() {
            if c.raw.s.is_none() {
                continue;
            }
            c.raw.fill();
            if c.pending.is_some() {
                continue;
            }
            match http::take_request(&mut c.raw.inbuf) {
                Err(e) => violation!("malformed request on connection {}: {}", i, e),
                Ok(None) => {}
                Ok(Some(r)) => match id_of(&r.target) {
                    Some(id) => {
                        c.pending = Some(id);
                        c.carried.push(id);
                        self.requests += 1;
                    }
                    None => violation!("request target {:?}", r.target),
                },
            }
        }
        Ok(())
    }
    fn reply(&mut self, sim: &mut Sim, mode: Mode) -> Result<(), Fault> {
        for c in self.conns.iter_mut() {
            let id = match c.pending.take() {
                Some(id) => id,
                None => continue,
            };
            match mode {
                Mode::Ok | Mode::Drop(_) => c.raw.send(sim, &answer_bytes(id), &Seg::whole())?,
                Mode::Rst => c.raw.abort(),
                Mode::Eof => c.raw.close(),
                Mode::Garbage => {
                    c.raw.send(sim, b"nonsense without any structure\r\n\r\n", &Seg::whole())?;
                    c.raw.half_close();
                }
                Mode::Unfit => {
                    c.raw.send(sim, b"HTTP/1.1 200 OK\r\nX-Id: no number\r\nContent-Length: 0\r\n\r\n", &Seg::whole())?
                }
            }
        }
        Ok(())
    }
}

struct World {
    sim: Sim,
    hosts: Vec<Host>,
    pool: Pool,
    d: Dur,
    t: Dur,
    next: u32,
    suspended_calls: usize,
    resumed: usize,
    timeouts: usize,
    refused: usize,
    units: u64,
}
const LATE: Duration = Duration::from_millis(500);

impl World {
    /// Certainly suspended at that time.
    fn suspended_at(&self, h: usize, at: Instant) -> bool {
        match self.hosts[h].susp {
            None => false,
            Some((lo, _)) => match self.d.short() {
                None => true,
                Some(d) => at + Duration::from_millis(1) < lo + d,
            },
        }
    }
    /// Certainly not suspended from that time on.
    fn free_at(&self, h: usize, at: Instant) -> bool {
        match self.hosts[h].susp {
            None => true,
            Some((_, hi)) => match self.d.short() {
                None => false,
                Some(d) if d == Duration::from_millis(0) => at > hi,
                Some(d) => at > hi + d + Duration::from_millis(15),
            },
        }
    }
    fn timed_out(&self, took: Duration) -> bool {
        self.t.short().map_or(false, |t| took + Duration::from_millis(1) >= t)
    }
    /// Looks after the calls nobody waits for.
    fn poll_left(&mut self) -> Result<Vec<usize>, Fault> {
        let mut noted = Vec::new();
        for h in 0..self.hosts.len() {
            let mut i = 0;
            while i < self.hosts[h].left.len() {
                let now = Instant::now();
                match self.hosts[h].left[i].watch.take() {
                    None => {
                        let (begun, id) = (self.hosts[h].left[i].begun, self.hosts[h].left[i].id);
                        self.hosts[h].left[i].pending_at = now;
                        if let Some(t) = self.t.short() {
                            if now.duration_since(begun) > t + LATE {
                                return Err(Fault::Hang(format!(
                                    "call {}: connecting hangs and the call has not failed {:?} after its start; the connect timeout is {:?}",
                                    id, now.duration_since(begun), t
                                )));
                            }
                        }
                        i += 1;
                    }
                    Some(r) => {
                        let l = self.hosts[h].left.remove(i);
                        noted.push(h);
                        match r {
                            Ok(_) => {}
                            // The request was sent: not a failure to connect.
                            Err(_) if self.hosts[h].carried(l.id) => {}
                            Err(e) => {
                                let took = now.duration_since(l.begun);
                                if self.timed_out(took) {
                                    self.timeouts += 1;
                                    self.sim.pump(30);
                                    let now = Instant::now();
                                    let s = &mut self.hosts[h].susp;
                                    let since = match *s {
                                        None => l.pending_at,
                                        Some((lo, _)) if l.clear => lo.max(l.pending_at),
                                        Some((lo, _)) => lo,
                                    };
                                    *s = Some((since, now));
                                } else if self.hosts[h].susp.is_none() {
                                    violation!("call {}: connecting hangs and the call failed after {:?} already: {}", l.id, took, e);
                                } else if self.free_at(h, l.begun) {
                                    return Err(Fault::Hang(format!(
                                        "call {} made after the end of the suspension failed after {:?}: {}", l.id, took, e
                                    )));
                                }
                            }
                        }
                    }
                }
            }
        }
        Ok(noted)
    }
    fn tick(&mut self) -> Result<Vec<usize>, Fault> {
        self.sim.pump(2);
        for h in self.hosts.iter_mut() {
            h.take_in()?;
        }
        self.poll_left()
    }
    fn idle(&mut self, d: Duration) -> Result<(), Fault> {
        let end = Instant::now() + d;
        loop {
            self.tick()?;
            for h in 0..self.hosts.len() {
                let mut host = {
                    let a = self.hosts[h].addr;
                    std::mem::replace(&mut self.hosts[h], Host::new(a))
                };
                let r = host.reply(&mut self.sim, Mode::Ok);
                self.hosts[h] = host;
                r?;
            }
            if Instant::now() >= end {
                return Ok(());
            }
            self.sim.run_for(Duration::from_millis(1));
        }
    }
    fn set(&mut self, h: usize, state: State) -> Result<(), Fault> {
        self.idle(Duration::from_millis(1))?;
        // Calls left hanging must not meet another state.
        self.drop_left(h)?;
        self.hosts[h].set(state)
    }
    fn drop_left(&mut self, h: usize) -> Result<(), Fault> {
        for l in self.hosts[h].left.iter_mut() {
            l.watch.cancel();
        }
        self.sim.pump(30);
        self.poll_left()?;
        self.hosts[h].left.clear();
        Ok(())
    }
    fn leave(&mut self, h: usize) -> Result<(), Fault> {
        if self.hosts[h].state != State::Hang {
            return Ok(());
        }
        self.tick()?;
        let id = self.next;
        self.next += 1;
        self.units += 1;
        let now = Instant::now();
        let clear = self.free_at(h, now);
        let watch = self.sim.watch(call_pool(&self.pool.handle, self.hosts[h].addr, slot_for(id), request_for(id)));
        self.hosts[h].left.push(Left { id, begun: now, pending_at: now, clear, watch });
        self.sim.pump(20);
        Ok(())
    }
    fn near_end(&mut self, h: usize) -> Result<(), Fault> {
        if let (Some(d), Some((lo, _))) = (self.d.short(), self.hosts[h].susp) {
            let end = lo + d;
            let now = Instant::now() + Duration::from_millis(8);
            if end > now {
                self.idle(end - now)?;
            }
        }
        Ok(())
    }
    fn stagger(&mut self, h: usize, gap: u8) -> Result<(), Fault> {
        if self.t.short().is_none() || self.d.short().is_none() {
            return Ok(());
        }
        self.past_end(h)?;
        self.set(h, State::Hang)?;
        self.leave(h)?;
        self.idle(Duration::from_millis(gap as u64))?;
        self.leave(h)?;
        while !self.hosts[h].left.is_empty() {
            self.idle(Duration::from_millis(1))?;
        }
        self.set(h, State::Good)?;
        self.near_end(h)?;
        self.call(h, 1, Mode::Ok)
    }
    fn past_end(&mut self, h: usize) -> Result<(), Fault> {
        if let (Some(d), Some((_, hi))) = (self.d.short(), self.hosts[h].susp) {
            let end = hi + d + Duration::from_millis(17);
            let now = Instant::now();
            if end > now {
                self.idle(end - now)?;
            }
        }
        Ok(())
    }
    fn call(&mut self, h: usize, n: usize, mode: Mode) -> Result<(), Fault> {
        let state = self.hosts[h].state;
        let noted = self.tick()?;
        let mut disturbed = noted.contains(&h);
        let attempts0 = self.hosts[h].attempts;
        let requests0 = self.hosts[h].requests;
        let addr = self.hosts[h].addr;
        let begun = Instant::now();
        let first = self.next;
        let mut calls = Vec::new();
        for _ in 0..n {
            let id = self.next;
            self.next += 1;
            self.units += 1;
            calls.push((id, self.sim.watch(call_pool(&self.pool.handle, addr, slot_for(id), request_for(id))), begun, None));
        }
        let mut dropped = None;
        if let Mode::Drop(k) = mode {
            self.sim.pump(k as usize);
            // Which of them resolved before is seen below.
            for c in calls.iter_mut() {
                c.1.cancel();
            }
            dropped = Some(0);
        }
        let mut rounds = 0;
        loop {
            let seen = Instant::now();
            for c in calls.iter_mut() {
                if c.3.is_none() && !c.1.is_done() {
                    c.2 = seen;
                }
            }
            disturbed |= self.tick()?.contains(&h);
            {
                let mut host = std::mem::replace(&mut self.hosts[h], Host::new(addr));
                let r = host.reply(&mut self.sim, mode);
                self.hosts[h] = host;
                r?;
            }
            for c in calls.iter_mut() {
                if c.3.is_none() {
                    if let Some(r) = c.1.take() {
                        c.3 = Some((Instant::now(), r));
                    }
                }
            }
            if calls.iter().all(|c| c.3.is_some()) {
                break;
            }
            if let Some(ref mut k) = dropped {
                *k += 1;
                if *k > 30 {
                    break;
                }
                continue;
            }
            rounds += 1;
            let took = begun.elapsed();
            if self.suspended_at(h, Instant::now()) && took > LATE {
                return Err(Fault::Hang(format!("call {}: the address is suspended, but the call does not fail", first)));
            }
            if state == State::Hang {
                match self.t.short() {
                    None if took > Duration::from_millis(40) => break,
                    Some(t) if took > t + LATE => {
                        return Err(Fault::Hang(format!(
                            "call {}: connecting hangs and the call has not failed {:?} after its start; the connect timeout is {:?}",
                            first, took, t
                        )))
                    }
                    _ => {}
                }
            }
            if took > hang_limit() {
                return Err(Fault::Hang(format!("call {} to an address in state {:?} never resolves", first, state)));
            }
            if rounds > 30 {
                self.sim.run_for(Duration::from_millis(1));
            }
        }
        // Let the pool note what happened.
        self.sim.pump(30);
        self.hosts[h].take_in()?;
        let noted_by = Instant::now();
        let attempts = self.hosts[h].attempts - attempts0;
        let requests = self.hosts[h].requests - requests0;
        let last = calls.iter().map(|c| c.3.as_ref().map_or(noted_by, |x| x.0)).max().unwrap();
        let what = format!("{} call(s) from id {} to {} ({:?}, {:?})", n, first, addr, state, mode);
        let suspended = !disturbed && self.suspended_at(h, last);
        let free = !disturbed && self.free_at(h, begun);
        let mut failed_since: Option<Instant> = None;
        if dropped.is_some() {
            if suspended {
                ensure!(attempts == 0, "{}: {} connection attempts although the address is suspended", what, attempts);
            }
            // The calls that failed before they could be dropped.
            for c in calls.iter() {
                let sent = self.hosts[h].carried(c.0);
                if let (Some((_, Err(_))), false) = (&c.3, sent) {
                    failed_since = Some(failed_since.map_or(c.2, |x: Instant| x.min(c.2)));
                }
            }
            if let Some(at) = failed_since {
                if !suspended && (state != State::Good || self.timed_out(last - begun)) {
                    let s = &mut self.hosts[h].susp;
                    *s = Some((s.map_or(at, |s| s.0), noted_by));
                }
            }
            return self.idle(Duration::from_millis(2));
        }
        if suspended {
            self.suspended_calls += n;
            for c in calls.iter() {
                match c.3 {
                    Some((at, Err(_))) => {
                        if at - begun > LATE {
                            return Err(Fault::Hang(format!("{}: the address is suspended, but the call took {:?} to fail", what, at - begun)));
                        }
                    }
                    Some((_, Ok(_))) => {
                        return Err(Fault::Hang(format!("{}: call {} succeeded although the address is suspended", what, c.0)))
                    }
                    None => return Err(Fault::Hang(format!("{}: the address is suspended, but the call does not fail", what))),
                }
            }
            if attempts > 0 || requests > 0 {
                return Err(Fault::Hang(format!(
                    "{}: {} connection attempts and {} requests although the address is suspended", what, attempts, requests
                )));
            }
            return Ok(());
        }
        let was_suspended = self.hosts[h].susp.is_some();
        let mut all_ok = true;
        for c in calls.iter_mut() {
            match c.3.take() {
                None => {
                    // Only for hanging connects without an end.
                    all_ok = false;
                    c.1.cancel();
                }
                Some((_, Ok(v))) => {
                    if let Mode::Ok = mode {
                        check_answer(c.0, Ok(v))?;
                    }
                }
                Some((at, Err(e))) => {
                    all_ok = false;
                    let took = at - begun;
                    if self.hosts[h].carried(c.0) {
                        // A failure after connecting.
                        ensure!(!matches!(mode, Mode::Ok), "{}: call {} failed although its server answered: {}", what, c.0, e);
                        continue;
                    }
                    let is_failure = state != State::Good || self.timed_out(took);
                    if free {
                        let early = state != State::Closed && !self.timed_out(took);
                        if early {
                            let m = format!("{}: call {} failed after {:?} although the address is not suspended: {}", what, c.0, took, e);
                            return Err(if was_suspended { Fault::Hang(m) } else { Fault::Violation(m) });
                        }
                    }
                    if is_failure {
                        failed_since = Some(failed_since.map_or(c.2, |x: Instant| x.min(c.2)));
                        match state {
                            State::Closed => self.refused += 1,
                            _ => self.timeouts += 1,
                        }
                    }
                }
            }
        }
        if free {
            if was_suspended && requests > 0 {
                self.resumed += 1;
            }
            self.hosts[h].susp = failed_since.map(|at| (at, noted_by));
        } else if let Some(at) = failed_since {
            let old = self.hosts[h].susp;
            self.hosts[h].susp = Some((old.map_or(at, |s| s.0), noted_by));
        } else if all_ok && !disturbed {
            self.hosts[h].susp = None;
        }
        if calls.iter().any(|c| !c.1.is_done()) {
            self.sim.pump(20);
        }
        Ok(())
    }
}

pub struct C13;
impl Property for C13 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "histories of calls to 1-3 addresses which refuse, hang or answer, over generated durations; non-trivial if a call met a suspended address, or an address was used again after its suspension, or a connect timed out"
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "a connect hangs when the accept queue of a loopback listener is full".into(),
            "the system clock is not set back or forth during a case".into(),
        ]
    }
    fn cases(&self) -> u64 {
        9000
    }
    fn workers(&self) -> usize {
        24
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case> {
        let deep = if tier == Tier::Thorough { 24 } else { 12 };
        let long = || {
            prop_oneof![
                2 => Just(Dur::Long(3600, 0)),
                3 => (5u32..64, any::<u64>(), any::<u32>()).prop_map(|(b, x, n)| Dur::Long((1u64 << b) | (x & ((1u64 << b) - 1)) , n)),
                2 => Just(Dur::Max),
            ]
        };
        let suspended = prop_oneof![1 => Just(Dur::Ms(0)), 6 => (60u64..150).prop_map(Dur::Ms), 4 => long()];
        let timeout = prop_oneof![1 => Just(Dur::Ms(0)), 4 => (60u64..160).prop_map(Dur::Ms), 5 => long()];
        let state = || prop_oneof![4 => Just(State::Closed), 4 => Just(State::Good), 2 => Just(State::Hang)];
        let mode = prop_oneof![
            6 => Just(Mode::Ok),
            1 => Just(Mode::Rst),
            1 => Just(Mode::Eof),
            1 => Just(Mode::Garbage),
            1 => Just(Mode::Unfit),
            2 => prop_oneof![0u8..12, 30u8..60].prop_map(Mode::Drop),
        ];
        let host = || prop_oneof![3 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)];
        let op = prop_oneof![
            9 => (host(), prop_oneof![4 => Just(1u8), 1 => 2u8..5], mode).prop_map(|(host, n, mode)| Op::Call { host, n, mode }),
            1 => host().prop_map(|host| Op::Leave { host }),
            1 => host().prop_map(|host| Op::DropLeft { host }),
            5 => (host(), state()).prop_map(|(host, state)| Op::Set { host, state }),
            1 => (0u8..60).prop_map(Op::Wait),
            1 => host().prop_map(|host| Op::PastEnd { host }),
            3 => host().prop_map(|host| Op::Revive { host }),
            3 => host().prop_map(|host| Op::Fail { host }),
            2 => host().prop_map(|host| Op::NearEnd { host }),
            1 => (host(), 10u8..60).prop_map(|(host, gap)| Op::Stagger { host, gap }),
        ];
        (
            vec(state(), 1..4),
            any::<bool>(),
            proptest::option::weighted(0.4, 0u8..3),
            suspended,
            timeout,
            vec(op, 2..deep),
        )
            .prop_map(|(hosts, twin, size, suspended, timeout, ops)| Case { hosts, twin, size, suspended, timeout, ops })
            .boxed()
    }
    fn run(&self, case: &Case) -> Verdict {
        let sim = Sim::new()?;
        define_procs();
        let mut hosts: Vec<Host> = Vec::new();
        for (i, s) in case.hosts.iter().enumerate() {
            let mut a = fresh_addr();
            if i == 1 && case.twin {
                a = hosts[0].addr;
                a.set_port(10_000 + (a.port() - 10_000 + 7) % 20_000);
            }
            let mut h = Host::new(a);
            h.set(*s)?;
            hosts.push(h);
        }
        let pool = Pool::start(
            &sim,
            case.size.map(|n| n as usize),
            Some(case.suspended.get()),
            Some(case.timeout.get()),
        );
        let mut w = World {
            sim,
            hosts,
            pool,
            d: case.suspended,
            t: case.timeout,
            next: 0,
            suspended_calls: 0,
            resumed: 0,
            timeouts: 0,
            refused: 0,
            units: 0,
        };
        let n = w.hosts.len();
        for op in &case.ops {
            match *op {
                Op::Call { host, n: k, mode } => w.call(host as usize % n, k as usize, mode)?,
                Op::Leave { host } => {
                    w.leave(host as usize % n)?;
                }
                Op::DropLeft { host } => {
                    w.drop_left(host as usize % n)?;
                }
                Op::Set { host, state } => w.set(host as usize % n, state)?,
                Op::Wait(ms) => w.idle(Duration::from_millis(ms as u64))?,
                Op::PastEnd { host } => w.past_end(host as usize % n)?,
                Op::Revive { host } => {
                    w.set(host as usize % n, State::Good)?;
                    w.past_end(host as usize % n)?;
                }
                Op::NearEnd { host } => w.near_end(host as usize % n)?,
                Op::Stagger { host, gap } => w.stagger(host as usize % n, gap)?,
                Op::Fail { host } => {
                    let h = host as usize % n;
                    w.set(h, State::Closed)?;
                    w.call(h, 1, Mode::Ok)?;
                    w.set(h, State::Good)?;
                }
            }
            w.pool.alive()?;
        }
        w.idle(Duration::from_millis(1))?;
        w.pool.alive()?;
        Ok(Info::new(w.suspended_calls > 0 || w.resumed > 0 || w.timeouts > 0)
            .units(w.units)
            .class_if(w.suspended_calls > 0, "calls to a suspended address")
            .class_if(w.resumed > 0, "used again after the suspension")
            .class_if(w.timeouts > 0, "connect timeouts")
            .class_if(w.refused > 0, "refused connects"))
    }
}
