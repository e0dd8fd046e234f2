//! Procedures as a user of the crate writes them, with serde_derive: a cross-check of `dynproc`.
use crate::dynproc::bodyfmt;
use crate::engine::*;
use crate::gen;
use crate::sim::*;
use crate::world::start_server;
use futures::Future;
use htrpc::types::{EntryPoint, HttpMethod, NeverFail};
use htrpc::{BodyReader, HandleRpc, Procedure, ReadBody, RpcRequest, RpcResponse};
use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

type Body = Vec<u8>;
type Text = String;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Id(u16);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Name(String);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Doc {
    a: Vec<Option<i8>>,
    b: Text,
    c: BTreeMap<String, bool>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Path1(u32, String);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Query1 {
    #[serde(rename = "q-name")]
    a: Option<i64>,
    #[serde(default)]
    flag: bool,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    t: Option<String>,
    #[serde(with = "htrpc::json")]
    j: Doc,
    #[serde(with = "htrpc::json_pretty", rename = "pretty[]")]
    k: Doc,
    n: Id,
    f: f64,
    g: f32,
    o: Option<Name>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Header1 {
    #[serde(rename = "X-Foo")]
    foo: String,
    #[serde(rename = "x-opt")]
    opt: Option<u8>,
    #[serde(rename = "X-Json", with = "htrpc::json")]
    list: Vec<i32>,
    #[serde(rename = "x-flag", skip_serializing_if = "is_false", default)]
    flag: bool,
}
fn is_false(b: &bool) -> bool {
    !*b
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Full {
    path: Path1,
    query: Query1,
    header: Header1,
    #[serde(skip)]
    body: Body,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Path2(u8, bool, Name);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Mapped {
    path: Path2,
    query: BTreeMap<String, String>,
    #[serde(skip)]
    body: Body,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Query3 {
    a: i8,
    b: i16,
    c: i32,
    d: i64,
    e: u8,
    f: u16,
    g: u32,
    h: u64,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Ints {
    path: (),
    query: Query3,
    #[serde(skip)]
    body: Body,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Headers {
    header: Header1,
    #[serde(skip)]
    body: Body,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Generic<P> {
    path: P,
    #[serde(skip)]
    body: Body,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum In {
    Full(Full),
    Mapped(Mapped),
    Ints(Ints),
    Headers(Headers),
    One(Generic<(String,)>),
    Three(Generic<(i64, f64, Name)>),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Accepted {
    status: u16,
    header: Header1,
    #[serde(skip)]
    body: Body,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Out {
    Ok {
        header: Header1,
        #[serde(skip)]
        body: Body,
    },
    Created {
        #[serde(skip)]
        body: Body,
    },
    Accepted(Accepted),
    NoContent,
    Forbidden,
    #[serde(rename = "NotFound")]
    Missing {
        #[serde(skip)]
        body: Body,
    },
    InternalServerError {
        header: BTreeMap<String, String>,
        #[serde(skip)]
        body: Body,
    },
}
impl Out {
    fn body_mut(&mut self) -> Option<&mut Body> {
        match self {
            Out::Ok { body, .. } | Out::Created { body } | Out::Missing { body } | Out::InternalServerError { body, .. } => Some(body),
            Out::Accepted(a) => Some(&mut a.body),
            Out::NoContent | Out::Forbidden => None,
        }
    }
}
impl RpcResponse for Out {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new(self.body_mut().map_or(vec![], std::mem::take))
    }
    fn set_body(&mut self, body: Vec<u8>) {
        if let Some(b) = self.body_mut() {
            *b = body;
        }
    }
}

#[derive(Clone)]
struct Answering {
    seen: Arc<Mutex<Vec<In>>>,
    out: Arc<Mutex<Option<Out>>>,
}
type Reply = Box<dyn Future<Item = Out, Error = NeverFail> + Send + 'static>;

macro_rules! procedure {
    ($p:ident, $t:ty, $in:ident, $m:ident, [$($e:tt)*]) => {
        pub struct $p;
        impl Procedure for $p {
            type Request = $t;
            type Response = Out;
            fn method() -> HttpMethod {
                HttpMethod::$m
            }
            fn entry_point() -> EntryPoint {
                htrpc_entry_point![$($e)*]
            }
        }
        impl RpcRequest for $t {
            fn body(&mut self) -> Vec<u8> {
                std::mem::take(&mut self.body)
            }
            fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
                use htrpc::FutureExt;
                Box::new(body.read_all_bytes().map_err(htrpc::Error::from).map(move |(r, b)| {
                    self.body = b;
                    (r, self)
                }))
            }
        }
        impl HandleRpc<$p> for Answering {
            type Future = Reply;
            fn handle_rpc(self, r: $t) -> Reply {
                self.seen.lock().unwrap().push(In::$in(r));
                let out = self.out.lock().unwrap().clone().expect("harness: answer");
                Box::new(futures::finished(out))
            }
        }
    };
}
procedure!(PFull, Full, Full, Put, ["full", _, "x", _]);
procedure!(PMapped, Mapped, Mapped, Get, [_, "mapped", _, _]);
procedure!(PInts, Ints, Ints, Post, ["ints"]);
procedure!(PHeaders, Headers, Headers, Delete, []);
procedure!(POne, Generic<(String,)>, One, Post, ["one", _]);
procedure!(PThree, Generic<(i64, f64, Name)>, Three, Patch, ["a b", _, _, _]);

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    /// Request, its body, answer, its body, pooled
    pub calls: Vec<(In, Ser, Out, Ser, bool)>,
    pub pump: u8,
}
/// A body in a replay file.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Ser(#[serde(with = "bodyfmt")] pub Vec<u8>);

fn set_body(r: &mut In, b: &[u8]) {
    let x = match r {
        In::Full(x) => &mut x.body,
        In::Mapped(x) => &mut x.body,
        In::Ints(x) => &mut x.body,
        In::Headers(x) => &mut x.body,
        In::One(x) => &mut x.body,
        In::Three(x) => &mut x.body,
    };
    *x = b.to_vec();
}

fn path_text() -> BoxedStrategy<String> {
    gen::text()
        .prop_map(|s| if s == "." || s == ".." || s.len() > 700 { "x".to_string() } else { s })
        .boxed()
}
fn short_text() -> BoxedStrategy<String> {
    gen::text().prop_map(|s| s.chars().take(200).collect()).boxed()
}
fn finite() -> BoxedStrategy<f64> {
    use proptest::num::f64::*;
    prop_oneof![NORMAL | SUBNORMAL | ZERO | POSITIVE | NEGATIVE, (-1000i32..1000).prop_map(|n| n as f64 / 8.0)].boxed()
}
fn finite32() -> BoxedStrategy<f32> {
    use proptest::num::f32::*;
    prop_oneof![NORMAL | SUBNORMAL | ZERO | POSITIVE | NEGATIVE, (-1000i32..1000).prop_map(|n| n as f32 / 8.0)].boxed()
}
fn doc() -> BoxedStrategy<Doc> {
    (vec(any::<Option<i8>>(), 0..6), short_text(), btree_map(short_text(), any::<bool>(), 0..3)).prop_map(|(a, b, c)| Doc { a, b, c }).boxed()
}
fn header_text() -> BoxedStrategy<String> {
    gen::header_text().prop_map(|s| if s.len() > 500 { "x".into() } else { s }).boxed()
}
fn header() -> BoxedStrategy<Header1> {
    (header_text(), any::<Option<u8>>(), vec(any::<i32>(), 0..5), any::<bool>()).prop_map(|(foo, opt, list, flag)| Header1 { foo, opt, list, flag }).boxed()
}
fn request() -> BoxedStrategy<In> {
    let query1 = (
        (any::<Option<i64>>(), any::<bool>(), proptest::option::of(short_text()), doc(), doc()),
        (any::<u16>(), finite(), finite32(), proptest::option::of(short_text())),
    )
        .prop_map(|((a, flag, t, j, k), (n, f, g, o))| Query1 { a, flag, t, j, k, n: Id(n), f, g, o: o.map(Name) });
    prop_oneof![
        3 => (any::<u32>(), path_text(), query1, header()).prop_map(|(a, b, query, header)| In::Full(Full { path: Path1(a, b), query, header, body: vec![] })),
        2 => (any::<u8>(), any::<bool>(), path_text(), btree_map(short_text(), short_text(), 0..6))
            .prop_map(|(a, b, c, query)| In::Mapped(Mapped { path: Path2(a, b, Name(c)), query, body: vec![] })),
        1 => (any::<(i8, i16, i32, i64)>(), any::<(u8, u16, u32, u64)>())
            .prop_map(|((a, b, c, d), (e, f, g, h))| In::Ints(Ints { path: (), query: Query3 { a, b, c, d, e, f, g, h }, body: vec![] })),
        1 => header().prop_map(|header| In::Headers(Headers { header, body: vec![] })),
        1 => path_text().prop_map(|s| In::One(Generic { path: (s,), body: vec![] })),
        1 => (any::<i64>(), finite(), path_text()).prop_map(|(a, b, c)| In::Three(Generic { path: (a, b, Name(c)), body: vec![] })),
    ]
    .boxed()
}
fn response() -> BoxedStrategy<Out> {
    let map = btree_map(select(vec!["x-a", "x-b", "server", "etag"]).prop_map(|s| s.to_string()), header_text(), 0..4);
    prop_oneof![
        2 => header().prop_map(|header| Out::Ok { header, body: vec![] }),
        1 => Just(Out::Created { body: vec![] }),
        2 => header().prop_map(|header| Out::Accepted(Accepted { status: 202, header, body: vec![] })),
        1 => Just(Out::NoContent),
        1 => Just(Out::Forbidden),
        1 => Just(Out::Missing { body: vec![] }),
        1 => map.prop_map(|header| Out::InternalServerError { header, body: vec![] }),
    ]
    .boxed()
}
pub fn strategy() -> BoxedStrategy<Case> {
    (vec((request(), gen::body().prop_map(Ser), response(), gen::body().prop_map(Ser), any::<bool>()), 1..6), 0u8..40)
        .prop_map(|(calls, pump)| Case { calls, pump })
        .boxed()
}

/// `requests`: judges what the handlers get; otherwise what the caller gets.
pub fn run(case: &Case, requests: bool) -> Verdict {
    let mut sim = Sim::new()?;
    let h = Answering { seen: Default::default(), out: Default::default() };
    let server = start_server(&mut sim, |b| {
        let e = |e: htrpc::Error| Fault::Violation(format!("registration refused: {}", e));
        b.register(h.clone(), PFull).map_err(e)?;
        b.register(h.clone(), PMapped).map_err(e)?;
        b.register(h.clone(), PInts).map_err(e)?;
        b.register(h.clone(), PHeaders).map_err(e)?;
        b.register(h.clone(), POne).map_err(e)?;
        b.register(h.clone(), PThree).map_err(e)
    })?;
    let pool = htrpc::pool::RpcClientPool::new();
    let handle = pool.handle();
    let pool = sim.watch(pool);
    for (r, rb, out, ob, pooled) in &case.calls {
        let (mut r, mut out) = (r.clone(), out.clone());
        set_body(&mut r, &rb.0);
        if let Some(b) = out.body_mut() {
            *b = ob.0.clone();
        }
        *h.out.lock().unwrap() = Some(out.clone());
        h.seen.lock().unwrap().clear();
        macro_rules! call {
            ($p:ident, $x:expr) => {{
                let f: Box<dyn Future<Item = Out, Error = htrpc::Error> + Send> = if *pooled {
                    Box::new(handle.client(server.addr).call::<$p>($x.clone()))
                } else {
                    Box::new(htrpc::RpcClient::new(server.addr).call::<$p>($x.clone()))
                };
                sim.watch(f)
            }};
        }
        let w = match &r {
            In::Full(x) => call!(PFull, x),
            In::Mapped(x) => call!(PMapped, x),
            In::Ints(x) => call!(PInts, x),
            In::Headers(x) => call!(PHeaders, x),
            In::One(x) => call!(POne, x),
            In::Three(x) => call!(PThree, x),
        };
        sim.pump(case.pump as usize);
        sim.until("call to resolve", |_| Ok(w.is_done()))?;
        let res = w.take().unwrap();
        let seen = h.seen.lock().unwrap();
        if requests {
            ensure!(
                seen.len() == 1,
                "{:?}: {} handler invocations; result {:?}", r, seen.len(), res.as_ref().map_err(|e| e.to_string())
            );
            ensure!(seen[0] == r, "{:?} arrived as {:?}", r, seen[0]);
        } else if seen.len() == 1 {
            match res {
                Err(e) => violation!("the call whose answer was {:?} failed: {}", out, e),
                Ok(got) => {
                    // A header map also shows the framing.
                    let got = match got {
                        Out::InternalServerError { mut header, body } => {
                            header.remove("content-length");
                            Out::InternalServerError { header, body }
                        }
                        g => g,
                    };
                    ensure!(got == out, "answer {:?} arrived as {:?}", out, got);
                }
            }
        }
    }
    server.alive()?;
    ensure!(!pool.is_done(), "the pool future resolved");
    Ok(Info::new(true).units(case.calls.len() as u64).class("derived types"))
}
