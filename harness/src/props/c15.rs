//! C15: RFC 7807 problem responses.
use crate::dynproc::{STATUSES, status_name};
use crate::engine::*;
use crate::gen;
use crate::http;
use crate::props::c02::accept;
use crate::sim::*;
use crate::world::start_server;
use futures::Future;
use htrpc::rfc7807::{AboutBlankProblem, Problem, ProblemResponse, TrackableProblem};
use htrpc::types::{EntryPoint, HttpMethod, HttpStatus, NeverFail};
use htrpc::{BodyReader, HandleRpc, Procedure, ReadBody, RpcRequest, RpcResponse};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::fmt;
use std::sync::{Arc, Mutex};
use trackable::{History, Location, Trackable};
use url::Url;

const TRACKABLE: &str = "https://docs.rs/htrpc/0.0.2/htrpc/rfc7807/struct.TrackableProblem.html";

/// How a handler makes a problem.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Spec {
    /// `Problem::about_blank`
    Blank { status: u16 },
    /// A problem with another title
    Titled { status: u16, title: String },
    /// All fields given
    Full { status: u16, title: String, detail: Option<String>, instance: Option<String>, history: Option<Vec<String>> },
    /// `Problem::trackable`
    Error { status: u16, message: String, source: Option<String>, history: Option<Vec<String>> },
}
impl Spec {
    fn status(&self) -> u16 {
        match self {
            Spec::Blank { status } | Spec::Titled { status, .. } | Spec::Full { status, .. } | Spec::Error { status, .. } => *status,
        }
    }
    fn problem(&self) -> Problem {
        match self.clone() {
            Spec::Blank { status } => Problem::about_blank(http_status(status)),
            Spec::Titled { status, title } => {
                let mut p = AboutBlankProblem::new(http_status(status));
                p.title = title;
                p.into()
            }
            Spec::Full { status, title, detail, instance, history } => TrackableProblem {
                title,
                status,
                detail,
                instance: instance.map(|s| Url::parse(&s).expect("harness: URL")),
                history,
            }
            .into(),
            Spec::Error { status, message, source, history } => {
                let e = Failure {
                    message,
                    source: source.map(|s| Box::new(Failure { message: s, source: None, history: None })),
                    history: history.map(|h| {
                        let mut x = History::new();
                        for e in h {
                            x.add(Event(e));
                        }
                        x
                    }),
                };
                Problem::trackable(http_status(status), e)
            }
        }
    }
    /// The document that has to go over the wire.
    fn doc(&self) -> Value {
        let (ty, title, detail, instance, history) = match self.clone() {
            Spec::Blank { status } => ("about:blank", http_status(status).reason_phrase().to_string(), None, None, None),
            Spec::Titled { title, .. } => ("about:blank", title, None, None, None),
            Spec::Full { title, detail, instance, history, .. } => {
                (TRACKABLE, title, detail, instance.map(|s| Url::parse(&s).unwrap().to_string()), history)
            }
            Spec::Error { message, source, history, .. } => {
                (TRACKABLE, message, source, None, history.map(|h| h.iter().map(|e| format!("at {}", e)).collect()))
            }
        };
        let mut d = json!({"type": ty, "title": title, "status": self.status()});
        let o = d.as_object_mut().unwrap();
        if let Some(x) = detail {
            o.insert("detail".into(), json!(x));
        }
        if let Some(x) = instance {
            o.insert("instance".into(), json!(x));
        }
        if let Some(x) = history {
            o.insert("history".into(), json!(x));
        }
        d
    }
}
/// The document a problem in the hands of a client stands for.
fn doc_of(p: &Problem) -> Value {
    match p {
        Problem::AboutBlank(p) => json!({"type": "about:blank", "title": p.title, "status": p.status}),
        Problem::Trackable(p) => {
            let mut d = json!({"type": TRACKABLE, "title": p.title, "status": p.status});
            let o = d.as_object_mut().unwrap();
            if let Some(x) = &p.detail {
                o.insert("detail".into(), json!(x));
            }
            if let Some(x) = &p.instance {
                o.insert("instance".into(), json!(x.to_string()));
            }
            if let Some(x) = &p.history {
                o.insert("history".into(), json!(x));
            }
            d
        }
    }
}

#[derive(Debug)]
struct Event(String);
impl From<Location> for Event {
    fn from(l: Location) -> Event {
        Event(l.to_string())
    }
}
impl fmt::Display for Event {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "at {}", self.0)
    }
}
#[derive(Debug)]
struct Failure {
    message: String,
    source: Option<Box<Failure>>,
    history: Option<History<Event>>,
}
impl fmt::Display for Failure {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.message)
    }
}
impl std::error::Error for Failure {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.source.as_ref().map(|e| &**e as &(dyn std::error::Error + 'static))
    }
}
impl Trackable for Failure {
    type Event = Event;
    fn history(&self) -> Option<&History<Event>> {
        self.history.as_ref()
    }
    fn history_mut(&mut self) -> Option<&mut History<Event>> {
        self.history.as_mut()
    }
}

#[derive(Debug, Serialize, Deserialize)]
pub struct Req {}
impl RpcRequest for Req {
    fn body(&mut self) -> Vec<u8> {
        vec![]
    }
    fn read_body(self, body: BodyReader) -> ReadBody<Self> {
        Box::new(futures::finished((body, self)))
    }
}

macro_rules! answers {
    ($($code:literal $name:ident)*) => {
        fn http_status(code: u16) -> HttpStatus {
            match code {
                $($code => HttpStatus::$name,)*
                _ => panic!("harness: status {}", code),
            }
        }
        /// A response type with a problem for every status.
        #[derive(Debug, Serialize, Deserialize)]
        pub enum Answer {
            $($name(ProblemResponse),)*
        }
        impl Answer {
            fn new(r: ProblemResponse, code: u16) -> Answer {
                match code {
                    $($code => Answer::$name(r),)*
                    _ => panic!("harness: status {}", code),
                }
            }
            fn get(&mut self) -> (u16, &mut ProblemResponse) {
                match *self {
                    $(Answer::$name(ref mut r) => ($code, r),)*
                }
            }
        }
    };
}
answers! {
    100 Continue 101 SwitchingProtocols 102 Processing 200 Ok 201 Created 202 Accepted
    203 NonAuthoritativeInformation 204 NoContent 205 ResetContent 206 PartialContent
    207 MultiStatus 208 AlreadyReported 226 ImUsed 300 MultipleChoices 301 MovedPermanently
    302 Found 303 SeeOther 304 NotModified 305 UseProxy 307 TemporaryRedirect
    308 PermanentRedirect 400 BadRequest 401 Unauthorized 402 PaymentRequired 403 Forbidden
    404 NotFound 405 MethodNotAllowed 406 NotAcceptable 407 ProxyAuthenticationRequired
    408 RequestTimeout 409 Conflict 410 Gone 411 LengthRequired 412 PreconditionFailed
    413 PayloadTooLarge 414 UriTooLong 415 UnsupportedMediaType 416 RangeNotSatisfiable
    417 ExceptionFailed 418 ImATeapot 421 MisdirectedRequest 422 UnprocessableEntity 423 Locked
    424 FailedDependency 426 UpgradeRequired 451 UnavailableForLegalReasons
    500 InternalServerError 501 NotImplemented 502 BadGateway 503 ServiceUnavailable
    504 GatewayTimeout 505 HttpVersionNotSupported 506 VariantAlsoNegotiates
    507 InsufficientStorage 508 LoopDetected 509 BandwidthLimitExceeded 510 NotExtended
}
impl RpcResponse for Answer {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        self.get().1.body()
    }
    fn set_body(&mut self, body: Vec<u8>) {
        self.get().1.set_body(body)
    }
}

pub struct Direct;
impl Procedure for Direct {
    type Request = Req;
    type Response = ProblemResponse;
    fn method() -> HttpMethod {
        HttpMethod::Post
    }
    fn entry_point() -> EntryPoint {
        crate::dynproc::entry_point(&[Some("direct".into())])
    }
}
pub struct Variants;
impl Procedure for Variants {
    type Request = Req;
    type Response = Answer;
    fn method() -> HttpMethod {
        HttpMethod::Post
    }
    fn entry_point() -> EntryPoint {
        crate::dynproc::entry_point(&[Some("variants".into())])
    }
}

type Queue = Arc<Mutex<(Vec<Shot>, usize)>>;
#[derive(Clone)]
struct Maker(Queue);
impl Maker {
    fn make(&self) -> (ProblemResponse, u16) {
        let mut q = self.0.lock().unwrap();
        let n = q.1;
        q.1 += 1;
        let s = &q.0[n];
        let mut r = s.specs[0].problem().into_response();
        for p in &s.specs[1..] {
            r.set_problem(p.problem());
        }
        (r, s.last().status())
    }
}
impl HandleRpc<Direct> for Maker {
    type Future = futures::Finished<ProblemResponse, NeverFail>;
    fn handle_rpc(self, _: Req) -> Self::Future {
        futures::finished(self.make().0)
    }
}
impl HandleRpc<Variants> for Maker {
    type Future = futures::Finished<Answer, NeverFail>;
    fn handle_rpc(self, _: Req) -> Self::Future {
        let (r, s) = self.make();
        futures::finished(Answer::new(r, s))
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Shot {
    /// The problem, and the ones it was replaced by.
    specs: Vec<Spec>,
    variants: bool,
    pooled: bool,
}
impl Shot {
    fn last(&self) -> &Spec {
        self.specs.last().unwrap()
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Case {
    /// The library's server to the library's clients.
    Calls(Vec<Shot>),
    /// The library's server to a foreign client, several requests on one connection.
    Wire(Vec<Shot>),
    /// A foreign server to the library's client.
    Foreign { status: u16, doc: Doc, seg: Seg, variants: bool, pooled: bool },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Doc {
    Problem(Spec, bool),
    /// A field replaced by, or removed
    Edited(Spec, String, Option<Value>),
    Text(String),
    Bytes(Vec<u8>),
    Cut(Spec, u16),
}
impl Doc {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Doc::Problem(s, pretty) => {
                if *pretty {
                    serde_json::to_vec_pretty(&s.doc()).unwrap()
                } else {
                    serde_json::to_vec(&s.doc()).unwrap()
                }
            }
            Doc::Edited(s, k, v) => {
                let mut d = s.doc();
                let o = d.as_object_mut().unwrap();
                match v {
                    Some(v) => {
                        o.insert(k.clone(), v.clone());
                    }
                    None => {
                        o.remove(k);
                    }
                }
                serde_json::to_vec(&d).unwrap()
            }
            Doc::Text(s) => s.clone().into_bytes(),
            Doc::Bytes(b) => b.clone(),
            Doc::Cut(s, n) => {
                let mut b = serde_json::to_vec(&s.doc()).unwrap();
                let n = *n as usize % (b.len() + 1);
                b.truncate(n);
                b
            }
        }
    }
}

fn call(sim: &Sim, calls: &crate::props::c02::Calls, addr: std::net::SocketAddr, variants: bool, pooled: bool) -> Watch<(Option<u16>, Value), htrpc::Error> {
    fn direct(r: ProblemResponse) -> (Option<u16>, Value) {
        (None, doc_of(r.problem()))
    }
    fn variant(mut r: Answer) -> (Option<u16>, Value) {
        let (s, p) = r.get();
        (Some(s), doc_of(p.problem()))
    }
    match (variants, pooled) {
        (false, false) => sim.watch(htrpc::RpcClient::new(addr).call::<Direct>(Req {}).map(direct)),
        (true, false) => sim.watch(htrpc::RpcClient::new(addr).call::<Variants>(Req {}).map(variant)),
        (false, true) => sim.watch(calls.handle.client(addr).call::<Direct>(Req {}).map(direct)),
        (true, true) => sim.watch(calls.handle.client(addr).call::<Variants>(Req {}).map(variant)),
    }
}

fn status() -> BoxedStrategy<u16> {
    let all: Vec<u16> = STATUSES.iter().map(|s| s.0).collect();
    select(all).boxed()
}
fn url() -> BoxedStrategy<String> {
    prop_oneof![
        select(vec!["http://example.com/", "https://example.com/a/b?c=d#e", "urn:uuid:6e8bc430-9c3a-11d9-9669-0800200c9a66", "mailto:a@b", "http://x/%20%41?%ff", "about:blank", "ftp://u:p@h:21/x", "data:,a%20b", "http://[::1]:80/"]).prop_map(|s| s.to_string()),
        gen::text().prop_map(|s| {
            let mut u = Url::parse("http://example.com/").unwrap();
            u.set_path(&s);
            u.set_query(Some(&s));
            u.to_string()
        }),
    ]
    .boxed()
}
fn words() -> BoxedStrategy<String> {
    prop_oneof![
        60 => gen::hostile(),
        3 => (gen::hostile(), 10usize..300).prop_map(|(s, n)| s.repeat(n)),
        1 => (gen::hostile(), 3000usize..20000).prop_map(|(s, n)| s.repeat(n / (s.len() + 1))),
    ]
    .boxed()
}
fn spec() -> BoxedStrategy<Spec> {
    let hist = || proptest::option::weighted(0.7, prop_oneof![30 => vec(words(), 0..4), 1 => vec(words(), 4..80)]);
    prop_oneof![
        2 => status().prop_map(|status| Spec::Blank { status }),
        1 => (status(), words()).prop_map(|(status, title)| Spec::Titled { status, title }),
        3 => (status(), words(), proptest::option::of(words()), proptest::option::of(url()), hist())
            .prop_map(|(status, title, detail, instance, history)| Spec::Full { status, title, detail, instance, history }),
        3 => (status(), words(), proptest::option::of(words()), hist())
            .prop_map(|(status, message, source, history)| Spec::Error { status, message, source, history }),
    ]
    .boxed()
}
fn shot() -> BoxedStrategy<Shot> {
    (vec(spec(), 1..4), any::<bool>(), any::<bool>()).prop_map(|(mut specs, variants, pooled)| {
        if specs.len() == 3 {
            specs.truncate(1);
        }
        Shot { specs, variants, pooled }
    }).boxed()
}

pub struct C15;
impl Property for C15 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "generated problems (constructors, fields, errors with sources and histories, replaced problems) for every status, sent by the real server to raw and real clients, and valid or invalid documents sent by a foreign server; every case is non-trivial except documents cut to nothing"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["statuses that exist and allow a body".into()]
    }
    fn cases(&self) -> u64 {
        80_000
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        let junk = prop_oneof![
            Just(Value::Null),
            any::<i64>().prop_map(|v| json!(v)),
            select(vec![json!(65536), json!(-1), json!(404.0), json!(404.5), json!("404"), json!(999), json!(0), json!([]), json!({}), json!(""), json!("about:blank"), json!("not a url"), json!([1]), json!(["a"]), json!(true)]),
            gen::text().prop_map(|v| json!(v)),
        ];
        let doc = prop_oneof![
            3 => (spec(), any::<bool>()).prop_map(|(s, p)| Doc::Problem(s, p)),
            4 => (spec(), select(vec!["type", "title", "status", "detail", "instance", "history", "extra"]), proptest::option::weighted(0.8, junk)).prop_map(|(s, k, v)| Doc::Edited(s, k.to_string(), v)),
            1 => gen::hostile().prop_map(Doc::Text),
            1 => select(vec!["", "null", "[]", "{}", "\"x\"", "{\"type\":\"about:blank\"}", "{\"type\":\"about:blank\",\"title\":\"x\",\"status\":404}x", "{\"type\":\"about:blank\",\"title\":\"x\",\"status\":404,\"status\":405}", "[\"about:blank\",\"x\",404]"]).prop_map(|s| Doc::Text(s.to_string())),
            1 => vec(any::<u8>(), 0..50).prop_map(Doc::Bytes),
            1 => (100usize..30000).prop_map(|n| Doc::Text("[".repeat(n))),
            1 => (spec(), any::<u16>()).prop_map(|(s, n)| Doc::Cut(s, n)),
        ];
        prop_oneof![
            3 => prop_oneof![80 => vec(shot(), 1..5), 1 => vec(shot(), 5..60)].prop_map(Case::Calls),
            2 => prop_oneof![80 => vec(shot(), 1..5), 1 => vec(shot(), 5..60)].prop_map(Case::Wire),
            2 => (status(), doc, seg_strategy(), any::<bool>(), any::<bool>()).prop_map(|(status, doc, seg, variants, pooled)| Case::Foreign { status, doc, seg, variants, pooled }),
        ]
        .boxed()
    }
    fn run(&self, case: &Case) -> Verdict {
        let mut sim = Sim::new()?;
        match case {
            Case::Calls(shots) | Case::Wire(shots) => {
                let wire = matches!(case, Case::Wire(_));
                let queue: Queue = Arc::new(Mutex::new((shots.clone(), 0)));
                let m = Maker(queue.clone());
                let server = start_server(&mut sim, |b| {
                    b.register(m.clone(), Direct).map_err(|e| Fault::Violation(e.to_string()))?;
                    b.register(m.clone(), Variants).map_err(|e| Fault::Violation(e.to_string()))
                })?;
                let calls = crate::props::c02::Calls::new(&sim);
                let mut conn = None;
                for s in shots {
                    let want = s.last();
                    let doc = want.doc();
                    // The library's own reading and writing of the document.
                    let v = serde_json::to_value(want.problem()).map_err(|e| Fault::Violation(e.to_string()))?;
                    ensure!(v == doc, "{:?} is written as {} instead of {}", want, v, doc);
                    if wire {
                        if conn.is_none() {
                            conn = Some(Raw::connect(server.addr)?);
                        }
                        let c = conn.as_mut().unwrap();
                        let path = if s.variants { "variants" } else { "direct" };
                        let req = format!("POST /{} HTTP/1.1\r\nContent-Length: 0\r\n\r\n", path);
                        c.send(&mut sim, req.as_bytes(), &Seg::whole())?;
                        let r = http::expect_response(&mut sim, c, false, "problem")?;
                        ensure!(r.status == want.status(), "{:?} is sent with status {}", s, r.status);
                        let ct = r.header("content-type").map(|v| String::from_utf8_lossy(v).into_owned());
                        ensure!(ct.as_deref() == Some("application/problem+json"), "{:?} is sent with content type {:?}", s, ct);
                        let got: Value = match serde_json::from_slice(&r.body) {
                            Ok(v) => v,
                            Err(e) => violation!("{:?} is sent as something that is not JSON: {}", s, e),
                        };
                        ensure!(got == doc, "{:?} is sent as {} instead of {}", s, got, doc);
                    } else {
                        let w = call(&sim, &calls, server.addr, s.variants, s.pooled);
                        sim.until("call", |_| Ok(w.is_done()))?;
                        match w.take().unwrap() {
                            Ok((variant, got)) => {
                                if let Some(v) = variant {
                                    ensure!(v == want.status(), "{:?} arrived as variant {}", s, status_name(v));
                                }
                                ensure!(got == doc, "{:?} arrived as {} instead of {}", s, got, doc);
                            }
                            Err(e) => violation!("{:?} did not arrive: {}", s, e),
                        }
                    }
                    server.alive()?;
                }
                Ok(Info::new(true)
                    .units(shots.len() as u64)
                    .class(if wire { "wire" } else { "calls" })
                    .class_if(shots.iter().any(|s| s.specs.len() > 1), "replaced"))
            }
            Case::Foreign { status, doc, seg, variants, pooled } => {
                let (l, addr) = listen_raw()?;
                let calls = crate::props::c02::Calls::new(&sim);
                let w = call(&sim, &calls, addr, *variants, *pooled);
                let mut c = accept(&mut sim, &l)?;
                http::expect_request(&mut sim, &mut c, "request")?;
                let body = doc.bytes();
                let h = vec![("content-type".to_string(), b"application/problem+json".to_vec())];
                let bytes = crate::props::c02::raw_response(*status, &h, &body, false, false);
                c.send(&mut sim, &bytes, seg)?;
                sim.until("call", |_| Ok(w.is_done()))?;
                let r = w.take().unwrap();
                let class = match doc {
                    Doc::Problem(s, _) => {
                        match r {
                            Ok((variant, got)) => {
                                if let Some(v) = variant {
                                    ensure!(v == *status, "a response with status {} arrived as variant {}", status, status_name(v));
                                }
                                ensure!(got == s.doc(), "{} arrived as {}", s.doc(), got);
                            }
                            Err(e) => violation!("the problem {} did not arrive: {}", s.doc(), e),
                        }
                        "foreign problem"
                    }
                    _ => "foreign document",
                };
                Ok(Info::new(!body.is_empty()).class(class))
            }
        }
    }
}
