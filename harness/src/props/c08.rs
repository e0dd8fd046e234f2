//! C08: misbehaving clients next to healthy ones.
use crate::dynproc::*;
use crate::engine::*;
use crate::gen;
use crate::http;
use crate::props::c07::*;
use crate::sim::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Payload {
    Bytes(Vec<u8>),
    Text(String),
    /// A valid request, damaged at places given in 1/65536 of its length: (place, kind, byte).
    Damaged(Req, Vec<(u16, u8, u8)>),
    /// The first part of a valid request.
    Partial(Req, u16),
    /// A whole valid request; the handler may wait.
    Whole(Req, bool),
    /// Many header fields, or one long line.
    Long(u16, u8),
    /// A valid request whose answer is large and never read.
    Huge,
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum End {
    Stall,
    HalfClose,
    Close,
    Abort,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Bad { payload: Payload, seg: Seg, steps: u8, end: End },
    /// An earlier misbehaving client does something more.
    More { client: u8, payload: Payload, end: End },
    /// Clients that connect and do nothing or vanish at once.
    Burst { n: u16, end: End },
    /// A request on a healthy connection (modulo their number; a new one if beyond).
    Good { conn: u8, req: Req },
    /// A request on a new connection.
    Fresh { req: Req },
    /// All waiting handlers of misbehaving clients finish.
    Finish,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub ops: Vec<Op>,
    /// Instead: more connections than a server process may have files.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub flood: Option<super::flood::Flood>,
}

fn text_payload() -> BoxedStrategy<String> {
    let target = prop_oneof![
        select(vec![
            "mailto:x", "*", "http://", "http://[::1", "//", "///", "", "?", "#", "/%", "/p/%zz",
            "/p/1?id=%", "javascript:alert(1)", "data:,x", "http://host:99999/p/1", "p/1", "..",
            "/p/1#frag", "ftp://x/y", "file:///etc/passwd", ":", "http:/p/1", "http:p", "/p/\u{e9}",
            "host:80", "about:blank", "http://user:pw@host/p/1", "urn:a:b", "/p/1?id=1&id=2",
            "x:", "/p", "/p/", "//p/1", "/p//", "http://foo", "http://foo?x", "http:///p/1", "https://",
        ])
        .prop_map(|s| s.to_string()),
        gen::text(),
        // Values of any length that do not fit; they may show up in messages.
        (vec(select("aZ0 é漢😀%/\"\\\n".chars().collect::<Vec<_>>()), 1..12), 1usize..120, 0u8..4).prop_map(|(t, n, k)| {
            let t: String = t.into_iter().collect();
            let mut e = String::new();
            for b in t.repeat(n).bytes().take(2000) {
                if b.is_ascii_alphanumeric() {
                    e.push(b as char);
                } else {
                    e.push_str(&format!("%{:02X}", b));
                }
            }
            match k {
                0 => format!("/p/{}?id=1&status=200&len=3&wait=false", e),
                1 => format!("/p/1?id={}&status=200&len=3&wait=false", e),
                2 => format!("/p/1?id=1&status=200&len=3&wait={}", e),
                _ => format!("/{}", e),
            }
        }),
    ];
    let method = prop_oneof![
        4 => select(vec!["GET", "POST", "HEAD", "PUT"]).prop_map(|s| s.to_string()),
        1 => select(vec!["", "get", "FOO", "G\0T", "GET GET", "CONNECT", "\u{e9}"]).prop_map(|s| s.to_string()),
    ];
    let header = prop_oneof![
        select(vec![
            "Content-Length: 5", "Content-Length: 0", "Content-Length: -1", "Content-Length: 18446744073709551615",
            "Content-Length: 18446744073709551616", "Content-Length: 99999999999", "Content-Length: abc", "Content-Length:",
            "Content-Length: 5, 5", "Content-Length: +5", "Content-Length: 0x5", "Content-Length: 5\r\nContent-Length: 6",
            "Transfer-Encoding: chunked", "Transfer-Encoding: gzip", "Transfer-Encoding:", "Content-Length: \u{e9}",
            "Connection: close", "Expect: 100-continue", "X: y", ": y", "no colon", " folded", "X\0: y", "Host:", "a:b:c",
        ])
        .prop_map(|s| s.to_string()),
        gen::hostile(),
    ];
    let body = prop_oneof![
        select(vec![
            "", "hello", "0\r\n\r\n", "5\r\nhello\r\n0\r\n\r\n", "zz\r\n", "ffffffffffffffff\r\nx", "1\r\na\r\n1\r\nb\r\n",
            "5\r\nhelloXX", "0\r\nX", "11111111111111111111111111111111111", "GET /p/1 HTTP/1.1\r\n\r\n", "\r\n", "\n",
        ])
        .prop_map(|s| s.to_string()),
        gen::hostile(),
    ];
    let version = select(vec!["HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "HTTP/0.9", "", "HTTP/1.", "HTTP"]);
    let eol = select(vec!["\r\n", "\r\n", "\r\n", "\n", "\r"]);
    prop_oneof![
        5 => (method, target, version, vec(header, 0..4), eol, body).prop_map(|(m, t, v, h, e, b)| {
            let mut s = format!("{} {} {}{}", m, t, v, e);
            for x in h {
                s.push_str(&x);
                s.push_str(e);
            }
            s.push_str(e);
            s.push_str(&b);
            s
        }),
        1 => select(vec!["PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "\r\n\r\n", "\n\n\n\n", "\0\0\0\0", "HTTP/1.1 200 OK\r\n\r\n", "GET", "GET ", "GET /\r\n\r\n", " GET / HTTP/1.1\r\n\r\n"]).prop_map(|s| s.to_string()),
        1 => gen::hostile(),
    ]
    .boxed()
}
pub fn payload() -> BoxedStrategy<Payload> {
    prop_oneof![
        8 => vec(any::<u8>(), 0..60).prop_map(Payload::Bytes),
        40 => text_payload().prop_map(Payload::Text),
        30 => (req_strategy(), vec((any::<u16>(), any::<u8>(), any::<u8>()), 1..4)).prop_map(|(r, d)| Payload::Damaged(r, d)),
        30 => (req_strategy(), any::<u16>()).prop_map(|(r, n)| Payload::Partial(r, n)),
        25 => (req_strategy(), any::<bool>()).prop_map(|(r, w)| Payload::Whole(r, w)),
        8 => (any::<u16>(), any::<u8>()).prop_map(|(n, k)| Payload::Long(n, k)),
        2 => Just(Payload::Huge),
    ]
    .boxed()
}
fn end() -> BoxedStrategy<End> {
    select(vec![End::Stall, End::Stall, End::HalfClose, End::Close, End::Abort]).boxed()
}

pub fn bytes_of(p: &Payload, id: &mut u32) -> Vec<u8> {
    *id += 1;
    match p {
        Payload::Bytes(b) => b.clone(),
        Payload::Text(t) => t.clone().into_bytes(),
        Payload::Damaged(r, d) => {
            let mut b = wire(r, *id).1;
            for (at, kind, byte) in d {
                if b.is_empty() {
                    break;
                }
                let i = (*at as usize * b.len()) >> 16;
                match kind % 5 {
                    0 => b[i] = *byte,
                    1 => b.insert(i, *byte),
                    2 => {
                        b.remove(i);
                    }
                    3 => b.truncate(i),
                    _ => {
                        let tail = b[i..].to_vec();
                        b.extend_from_slice(&tail);
                    }
                }
            }
            b
        }
        Payload::Partial(r, n) => {
            let mut b = wire(r, *id).1;
            let n = (*n as usize * (b.len() + 1)) >> 16;
            b.truncate(n);
            b
        }
        Payload::Whole(r, w) => {
            let mut r = r.clone();
            if let Kind::Ok { status, len, .. } = r.kind {
                r.kind = Kind::Ok { status, len, wait: *w };
            }
            wire(&r, *id).1
        }
        Payload::Long(n, k) => {
            let n = *n as usize % 20000;
            match k % 4 {
                0 => format!("GET /{} HTTP/1.1\r\n\r\n", "a".repeat(n)).into_bytes(),
                1 => format!("GET / HTTP/1.1\r\nX: {}\r\n\r\n", "a".repeat(n)).into_bytes(),
                2 => format!("GET / HTTP/1.1\r\n{}\r\n", "X: y\r\n".repeat(n % 100)).into_bytes(),
                _ => "x".repeat(n).into_bytes(),
            }
        }
        Payload::Huge => {
            format!("GET /p/1?id={}&status=200&len=12000000&wait=false HTTP/1.1\r\n\r\n", id).into_bytes()
        }
    }
}

/// Sends without insisting: the server may stop reading.
pub fn send_some(sim: &mut Sim, c: &mut Raw, bytes: &[u8], seg: &Seg) {
    let mut at = 0;
    for (i, e) in seg.positions(bytes.len()).into_iter().enumerate() {
        let mut tries = 0;
        while at < e && tries < 50 {
            at += c.write_some(&bytes[at..e]);
            if at < e {
                tries += 1;
                sim.pump(5);
            }
        }
        sim.pump(seg.pump(i));
    }
}
fn finish(c: &mut Raw, end: End) {
    match end {
        End::Stall => {}
        End::HalfClose => c.half_close(),
        End::Close => c.close(),
        End::Abort => c.abort(),
    }
}

fn good(sim: &mut Sim, c: &mut Raw, req: &Req, id: u32, log: &Log, what: &str) -> Result<(), Fault> {
    let mut req = req.clone();
    if let Kind::Ok { status, len, .. } = req.kind {
        req.kind = Kind::Ok { status, len, wait: false };
    }
    let (m, bytes) = wire(&req, id);
    let what = format!("{} ({} {:?})", what, m, req.kind);
    c.send(sim, &bytes, &Seg::whole())?;
    let r = http::expect_response(sim, c, m == "HEAD", &what)?;
    judge(&req, id, &m, &r, log, None, &what)
}

/// Connections that stay open need two files each.
fn room(n: u16, end: End) -> u16 {
    if n < 300 || end == End::Abort || end == End::Close {
        return n;
    }
    let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) };
    n.min((l.rlim_cur.min(100_000).saturating_sub(1000) / 2) as u16)
}

pub struct C08;
impl Property for C08 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "histories of misbehaving clients (garbage, damaged or partial requests, stalls, half-closes, closes, resets, unread responses, unfinished handlers, floods of connections beyond the server process's file limit) and healthy requests; non-trivial if a healthy request follows a misbehaviour"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["handlers do not panic or block".into()]
    }
    fn cases(&self) -> u64 {
        70000
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case> {
        let deep = if tier == Tier::Thorough { 20 } else { 9 };
        let op = prop_oneof![
            400 => (payload(), seg_strategy(), prop_oneof![Just(0u8), 1u8..12, Just(80u8)], end())
                .prop_map(|(payload, seg, steps, end)| Op::Bad { payload, seg, steps, end }),
            160 => (any::<u8>(), payload(), end()).prop_map(|(client, payload, end)| Op::More { client, payload, end }),
            40 => (1u16..12, end()).prop_map(|(n, end)| Op::Burst { n, end }),
            1 => (12u16..300, end()).prop_map(|(n, end)| Op::Burst { n, end }),
            240 => (0u8..4, req_strategy()).prop_map(|(conn, req)| Op::Good { conn, req }),
            120 => req_strategy().prop_map(|req| Op::Fresh { req }),
            80 => Just(Op::Finish),
        ];
        let ops = prop_oneof![
            300 => vec(op.clone(), 1..deep),
            1 => vec(op, 30..250),
        ];
        prop_oneof![
            1000 => ops.prop_map(|ops| Case { ops, flood: None }),
            1 => super::flood::strategy().prop_map(|f| Case { ops: vec![], flood: Some(f) }),
        ]
        .boxed()
    }
    fn run(&self, case: &Case) -> Verdict {
        if let Some(ref f) = case.flood {
            return super::flood::run(f);
        }
        let mut sim = Sim::new()?;
        for (i, m) in SLOT_METHODS.iter().enumerate() {
            define(i, &proc_for(m));
        }
        let log = new_log();
        let gates: Gates = Default::default();
        let b = obeying(&log, &gates);
        let server = start_server(&mut sim, |s| {
            for i in 0..SLOT_METHODS.len() {
                register(s, i, i as u64, &b)
                    .map_err(|e| Fault::Violation(format!("registration refused: {}", e)))?;
            }
            Ok(())
        })?;
        let mut healthy = vec![Raw::connect(server.addr)?];
        let mut bad: Vec<Raw> = Vec::new();
        // Ten digits, so that damage cannot turn a bad one into a good one.
        let (mut id, mut bad_id) = (3_735_928_000u32, 1_000_000u32);
        let mut info = Info::new(false);
        let mut units = 0;
        for (n, op) in case.ops.iter().enumerate() {
            match op {
                Op::Bad { payload, seg, steps, end } => {
                    let mut c = Raw::connect(server.addr)?;
                    let bytes = bytes_of(payload, &mut bad_id);
                    send_some(&mut sim, &mut c, &bytes, seg);
                    sim.pump(*steps as usize);
                    finish(&mut c, *end);
                    bad.push(c);
                    info = info.class(format!("{:?}", end));
                    info = info.class(match payload {
                        Payload::Bytes(_) => "random bytes",
                        Payload::Text(_) => "malformed request",
                        Payload::Damaged(..) => "damaged request",
                        Payload::Partial(..) => "partial request",
                        Payload::Whole(..) => "valid request, answer not awaited",
                        Payload::Long(..) => "oversized head",
                        Payload::Huge => "unread huge response",
                    });
                }
                Op::More { client, payload, end } => {
                    if bad.is_empty() {
                        continue;
                    }
                    let k = *client as usize % bad.len();
                    let bytes = bytes_of(payload, &mut bad_id);
                    send_some(&mut sim, &mut bad[k], &bytes, &Seg::whole());
                    finish(&mut bad[k], *end);
                    info = info.class("a misbehaving client goes on");
                }
                Op::Burst { n, end } => {
                    let n = &room(*n, *end);
                    for i in 0..*n {
                        let mut c = Raw::connect(server.addr)?;
                        finish(&mut c, *end);
                        bad.push(c);
                        if i % 16 == 15 {
                            // The backlog of the listener is finite.
                            sim.pump(40);
                        }
                    }
                    info = info
                        .class_if(*n >= 1000, "burst of 1000 connections or more")
                        .class("burst of connections").class_if(*n >= 100, "burst of 100 connections or more");
                }
                Op::Good { conn, req } => {
                    let k = *conn as usize % (healthy.len() + 1);
                    if k == healthy.len() {
                        healthy.push(Raw::connect(server.addr)?);
                    }
                    id += 1;
                    good(&mut sim, &mut healthy[k], req, id, &log, &format!("step {}: healthy connection {}", n, k))?;
                    info.nontrivial |= !bad.is_empty();
                    units += 1;
                }
                Op::Fresh { req } => {
                    id += 1;
                    let mut c = Raw::connect(server.addr)?;
                    good(&mut sim, &mut c, req, id, &log, &format!("step {}: new connection", n))?;
                    info.nontrivial |= !bad.is_empty();
                    units += 1;
                }
                Op::Finish => {
                    let ids: Vec<u32> = gates.lock().unwrap().keys().cloned().collect();
                    for i in &ids {
                        open_gate(&gates, *i);
                    }
                    info = info.class_if(!ids.is_empty(), "handlers of misbehaving clients finish");
                }
            }
            server.alive()?;
        }
        let ids: Vec<u32> = gates.lock().unwrap().keys().cloned().collect();
        for i in &ids {
            open_gate(&gates, *i);
        }
        sim.pump(60);
        let plain = Req {
            method: 0,
            kind: Kind::Ok { status: 200, len: 10, wait: false },
            body: vec![],
            no_length: false, extra: (0, 0),
        };
        healthy.push(Raw::connect(server.addr)?);
        for (k, c) in healthy.iter_mut().enumerate() {
            id += 1;
            good(&mut sim, c, &plain, id, &log, &format!("at the end: healthy connection {}", k))?;
            units += 1;
        }
        info.nontrivial |= !bad.is_empty();
        info = info.class_if(case.ops.len() >= 100, "100 steps or more");
        server.alive()?;
        Ok(info.units(units))
    }
}
