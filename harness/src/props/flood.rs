//! Part of C08: clients that open more connections than the server process may have files.
//!
//! The server runs in a process of its own with a low limit of open files.
use crate::dynproc::*;
use crate::engine::*;
use crate::http;
use crate::props::c07::*;
use crate::sim::*;
use crate::world::*;
use fibers::{Executor, InPlaceExecutor, Spawn};
use futures::Future;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Flood {
    /// Files the server may open.
    pub limit: u8,
    /// Connections that were there before.
    pub healthy: u8,
    /// (connections beyond the limit, what they send, how they end: 0 close, 1 reset)
    pub rounds: Vec<(u8, String, u8)>,
}

pub fn strategy() -> BoxedStrategy<Flood> {
    let round = (
        0u8..60,
        select(vec!["", "GET", "GET /p/1?id=1&status=200&len=4&wait=false HTTP/1.1\r\n\r\n", "\0\r\n\r\n"]).prop_map(|s| s.to_string()),
        0u8..2,
    );
    (24u8..80, 0u8..4, proptest::collection::vec(round, 1..4))
        .prop_map(|(limit, healthy, rounds)| Flood { limit, healthy, rounds })
        .boxed()
}

/// The server process: `pbt flood-server LIMIT ADDR`.
pub fn server_main(limit: u64, addr: SocketAddr) -> i32 {
    for (i, m) in SLOT_METHODS.iter().enumerate() {
        define(i, &proc_for(m));
    }
    let log = new_log();
    let gates: Gates = Default::default();
    let b = obeying(&log, &gates);
    let mut builder = htrpc::RpcServerBuilder::new(addr);
    for i in 0..SLOT_METHODS.len() {
        if register(&mut builder, i, i as u64, &b).is_err() {
            return 5;
        }
    }
    let executor = InPlaceExecutor::new().expect("executor");
    let server = builder.start(executor.handle());
    executor.spawn(server.then(|r| -> Result<(), ()> {
        println!("the server future resolved: {:?}", r.map_err(|e| e.to_string()));
        std::process::exit(3)
    }));
    let set = libc::rlimit { rlim_cur: limit, rlim_max: limit };
    if unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &set) } != 0 {
        return 6;
    }
    std::thread::spawn(|| {
        // The parent is gone.
        let _ = std::io::stdin().read(&mut [0]);
        std::process::exit(0);
    });
    println!("ready");
    let _ = executor.run();
    7
}

struct Process(Child);
impl Drop for Process {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
impl Process {
    fn alive(&mut self) -> Result<(), Fault> {
        if let Some(s) = self.0.try_wait()? {
            let mut text = String::new();
            if let Some(out) = self.0.stdout.as_mut() {
                let _ = out.read_to_string(&mut text);
            }
            match s.code() {
                Some(5) | Some(6) | Some(7) => return Err(Fault::Harness(format!("the server process ended: {}", s))),
                _ => violation!("the server process ended ({}): {}", s, text.trim()),
            }
        }
        Ok(())
    }
}

fn exchange(p: &mut Process, c: &mut TcpStream, id: u32, what: &str) -> Result<(), Fault> {
    let req = Req {
        method: 0,
        kind: Kind::Ok { status: 200, len: 10, wait: false },
        body: vec![],
        no_length: false, extra: (0, 0),
    };
    let (m, bytes) = wire(&req, id);
    c.set_nonblocking(false)?;
    c.set_read_timeout(Some(Duration::from_millis(50)))?;
    if c.write_all(&bytes).is_err() {
        p.alive()?;
        violation!("{}: cannot send a request", what);
    }
    let start = Instant::now();
    let mut buf = Vec::new();
    let mut b = [0; 4096];
    loop {
        match http::take_response(&mut buf, m == "HEAD") {
            Err(e) => violation!("{}: malformed response: {}", what, e),
            Ok(Some(r)) => {
                let want = reply_for(200, id, 10);
                ensure!(r.status == 200 && r.body == want.body, "{}: answered with {} {:?}", what, r.status, r.body);
                return Ok(());
            }
            Ok(None) => {}
        }
        match c.read(&mut b) {
            Ok(0) => {
                p.alive()?;
                violation!("{}: the connection was closed", what);
            }
            Ok(n) => buf.extend_from_slice(&b[..n]),
            Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                p.alive()?;
                if start.elapsed() > hang_limit() {
                    return Err(Fault::Hang(format!("{}: no answer within {:?}", what, hang_limit())));
                }
            }
            Err(e) => {
                p.alive()?;
                violation!("{}: {}", what, e)
            }
        }
    }
}

fn connect(p: &mut Process, addr: SocketAddr) -> Result<TcpStream, Fault> {
    match TcpStream::connect_timeout(&addr, Duration::from_secs(20)) {
        Ok(s) => {
            s.set_nodelay(true)?;
            Ok(s)
        }
        Err(e) => {
            p.alive()?;
            Err(Fault::Hang(format!("cannot connect: {}", e)))
        }
    }
}

pub fn run(case: &Flood) -> Verdict {
    let mut info = Info::new(true).class("more connections than files");
    let addr = fresh_addr();
    let child = Command::new(std::env::current_exe()?)
        .args(["flood-server", &case.limit.to_string(), &addr.to_string()])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()?;
    let mut p = Process(child);
    {
        let mut line = String::new();
        BufReader::new(p.0.stdout.as_mut().unwrap()).read_line(&mut line)?;
        if line.trim() != "ready" {
            return Err(Fault::Harness(format!("server process: {:?}", line)));
        }
    }
    let start = Instant::now();
    let first = loop {
        match TcpStream::connect(addr) {
            Ok(s) => break s,
            Err(_) => {
                if let Some(s) = p.0.try_wait()? {
                    return Err(Fault::Harness(format!("the server process ended: {}", s)));
                }
                if start.elapsed() > hang_limit() {
                    return Err(Fault::Harness("the server process does not listen".into()));
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
    };
    let mut healthy = vec![first];
    let mut id = 1000;
    let mut units = 0;
    for _ in 0..case.healthy {
        healthy.push(connect(&mut p, addr)?);
    }
    for (k, c) in healthy.iter_mut().enumerate() {
        id += 1;
        exchange(&mut p, c, id, &format!("healthy connection {} at the beginning", k))?;
        units += 1;
    }
    let fds = format!("/proc/{}/fd", p.0.id());
    for (n, (extra, text, end)) in case.rounds.iter().enumerate() {
        let mut flood = Vec::new();
        for _ in 0..case.limit as usize + *extra as usize {
            let mut c = connect(&mut p, addr)?;
            let _ = c.write_all(text.as_bytes());
            flood.push(c);
        }
        let start = Instant::now();
        let mut full = false;
        while !full && start.elapsed() < Duration::from_millis(500) {
            full = std::fs::read_dir(&fds).map(|d| d.count()).unwrap_or(0) >= case.limit as usize;
            std::thread::sleep(Duration::from_millis(2));
        }
        info = info.class_if(full, "the server has no file left");
        for (k, c) in healthy.iter_mut().enumerate() {
            id += 1;
            exchange(&mut p, c, id, &format!("round {}: healthy connection {} while there are too many", n, k))?;
            units += 1;
        }
        for c in flood {
            if *end == 1 {
                Raw::wrap(c)?.abort();
            }
        }
        let mut c = connect(&mut p, addr)?;
        id += 1;
        exchange(&mut p, &mut c, id, &format!("round {}: new connection after the others are gone", n))?;
        healthy.truncate(case.limit as usize / 4);
        healthy.push(c);
        for (k, c) in healthy.iter_mut().enumerate() {
            id += 1;
            exchange(&mut p, c, id, &format!("round {}: healthy connection {} afterwards", n, k))?;
            units += 1;
        }
    }
    p.alive()?;
    Ok(info.units(units))
}
