//! C06: undecodable requests get a 400 problem; decodable ones, however spelled, are served.
use crate::dynproc::*;
use crate::engine::*;
use crate::gen;
use crate::http::{self, RawResponse};
use crate::props::c04::{has_dots, spell, PSeg};
use crate::refmodel::{self, Part};
use crate::sim::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

/// A change to the canonical form of a request; indices are taken modulo what is there.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Edit {
    PathText(u8, String, u8),
    PathRaw(u8, String),
    PathEscape(u8),
    QueryDrop(u8),
    QueryDup(u8),
    QuerySet(u8, String),
    QueryAdd(String, String),
    QueryRaw(String),
    QueryReverse,
    QueryStyle(u8),
    /// The whole query (with its '?') is left out.
    NoQuery,
    HeaderDrop(u8),
    HeaderDup(u8),
    HeaderSet(u8, String),
    HeaderBytes(u8, Vec<u8>),
    HeaderAdd(String, String),
    HeaderCase(u8),
    HeaderReverse,
    HeaderBlanks,
    /// No Content-Length (only without a body).
    NoLength,
    AbsoluteForm,
}

pub const WRONG: &[&str] = &[
    "", "256", "-1", "128", "-129", "127", "-128", "255", "32767", "32768", "-32768", "-32769",
    "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295",
    "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
    "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1.0", "1.5", "1e3",
    "0x10", " 1", "1 ", "+1", "-0", "007", "TRUE", "True", "true", "false", "ture", "yes", "1",
    "0", "null", "None", "NaN", "inf", "-inf", "1e400", "{", "{}", "\"a\"", "[1,2]", "1_000",
    "१", "１", "a", "foo", "99999999999999999999999999999999999", "true ", "t", "f",
];

fn wrong() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(WRONG).prop_map(|s| s.to_string()),
        1 => gen::text(),
        1 => any::<i64>().prop_map(|i| i.to_string()),
        1 => (-300i64..70000).prop_map(|i| i.to_string()),
    ]
    .boxed()
}
fn header_wrong() -> BoxedStrategy<String> {
    wrong()
        .prop_map(|s| {
            s.chars().filter(|c| !c.is_control()).collect::<String>().trim_matches(|c| c == ' ').to_string()
        })
        .boxed()
}
pub fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        3 => (any::<u8>(), wrong(), any::<u8>()).prop_map(|(i, t, e)| Edit::PathText(i, t, e)),
        1 => (any::<u8>(), select(vec!["%", "%4", "%zz", "a%", "%ff", "%c3%28", "%e9", "%C3", "%g1", "%%", "%+1", "%E2%82", "%ED%A0%80", "%F8%88%80%80%80"])).prop_map(|(i, t)| Edit::PathRaw(i, t.to_string())),
        1 => any::<u8>().prop_map(Edit::PathEscape),
        2 => any::<u8>().prop_map(Edit::QueryDrop),
        1 => any::<u8>().prop_map(Edit::QueryDup),
        3 => (any::<u8>(), wrong()).prop_map(|(i, t)| Edit::QuerySet(i, t)),
        2 => (gen::query_name(), gen::text()).prop_map(|(n, t)| Edit::QueryAdd(n, t)),
        1 => select(vec!["&", "&&", "&foo", "&=", "&=x", "&foo=", "&%", "&x=%zz", "&x=%ff", "&?", "&a=b=c", "&x=1;y=2", "&+=+", "&foo=a=b", "&%66oo=1"]).prop_map(|s| Edit::QueryRaw(s.to_string())),
        1 => Just(Edit::QueryReverse),
        2 => any::<u8>().prop_map(Edit::QueryStyle),
        1 => Just(Edit::NoQuery),
        2 => any::<u8>().prop_map(Edit::HeaderDrop),
        1 => any::<u8>().prop_map(Edit::HeaderDup),
        3 => (any::<u8>(), header_wrong()).prop_map(|(i, t)| Edit::HeaderSet(i, t)),
        1 => (any::<u8>(), select(vec![vec![0xffu8], vec![0xc3, 0x28], vec![b'1', 0x80], vec![0xed, 0xa0, 0x80], vec![0xc3, 0xa9]])).prop_map(|(i, t)| Edit::HeaderBytes(i, t)),
        2 => (gen::header_name(), gen::header_text()).prop_map(|(n, t)| Edit::HeaderAdd(n, t)),
        2 => any::<u8>().prop_map(Edit::HeaderCase),
        1 => Just(Edit::HeaderReverse),
        1 => Just(Edit::HeaderBlanks),
        1 => Just(Edit::NoLength),
        1 => Just(Edit::AbsoluteForm),
    ]
    .boxed()
}

/// A request as it goes over the wire.
#[derive(Debug, Clone)]
pub struct Pieces {
    pub segs: Vec<PSeg>,
    pub query: Option<String>,
    pub headers: Vec<(String, Vec<u8>)>,
    blanks: bool,
    length: bool,
    absolute: bool,
    header_case: u8,
}

fn form_encode(b: &[u8], style: u8) -> String {
    let mut s = String::new();
    for (i, c) in b.iter().enumerate() {
        let esc = style & 4 == 4 && style.rotate_left(i as u32 % 8) & 1 == 1;
        if *c == b' ' && style & 1 == 0 {
            s.push('+');
        } else if !esc
            && (c.is_ascii_alphanumeric()
                || b"-_.*".contains(c)
                || style & 8 == 8 && b"!$'(),/:;?@~[]".contains(c))
        {
            s.push(*c as char);
        } else if style & 2 == 2 {
            s.push_str(&format!("%{:02x}", c));
        } else {
            s.push_str(&format!("%{:02X}", c));
        }
    }
    s
}

pub fn build(entry: &[Option<String>], ty: &ReqTy, val: &ReqVal, edits: &[Edit]) -> Pieces {
    let mut segs: Vec<PSeg> = Vec::new();
    let mut vars: Vec<usize> = Vec::new();
    let tys: &[Ty] = ty.path.as_ref().map_or(&[], |p| p.tys());
    for e in entry {
        let text = match e {
            Some(c) => c.clone(),
            None => {
                let k = vars.len();
                vars.push(segs.len());
                String::from_utf8(refmodel::text_of(&tys[k], &val.path[k]).unwrap()).unwrap()
            }
        };
        segs.push(PSeg::Text { text, escape: 0 });
    }
    let mut q: Vec<(String, Vec<u8>)> = match (&ty.query, &val.query) {
        (Some(t), Some(v)) => refmodel::encode_fields(t, v),
        _ => vec![],
    };
    let mut h: Vec<(String, Vec<u8>)> = match (&ty.header, &val.header) {
        (Some(t), Some(v)) => refmodel::encode_fields(t, v),
        _ => vec![],
    };
    let (mut style, mut raw, mut noq) = (0u8, String::new(), false);
    let (mut blanks, mut length, mut absolute, mut case) = (false, true, false, 0);
    for e in edits {
        match e {
            Edit::PathText(i, t, esc) if !vars.is_empty() => {
                segs[vars[*i as usize % vars.len()]] = PSeg::Text { text: t.clone(), escape: *esc }
            }
            Edit::PathRaw(i, t) if !vars.is_empty() => {
                segs[vars[*i as usize % vars.len()]] = PSeg::Raw(t.clone())
            }
            Edit::PathEscape(m) => {
                for s in &mut segs {
                    if let PSeg::Text { escape, .. } = s {
                        *escape = *m
                    }
                }
            }
            Edit::QueryDrop(i) if !q.is_empty() => {
                q.remove(*i as usize % q.len());
            }
            Edit::QueryDup(i) if !q.is_empty() => {
                let p = q[*i as usize % q.len()].clone();
                q.push(p)
            }
            Edit::QuerySet(i, t) if !q.is_empty() => {
                let n = q.len();
                q[*i as usize % n].1 = t.clone().into_bytes()
            }
            Edit::QueryAdd(n, t) => q.insert(n.len() % (q.len() + 1), (n.clone(), t.clone().into_bytes())),
            Edit::QueryRaw(t) => raw.push_str(t),
            Edit::QueryReverse => q.reverse(),
            Edit::QueryStyle(s) => style = *s,
            Edit::NoQuery => noq = true,
            Edit::HeaderDrop(i) if !h.is_empty() => {
                h.remove(*i as usize % h.len());
            }
            Edit::HeaderDup(i) if !h.is_empty() => {
                let p = h[*i as usize % h.len()].clone();
                h.push(p)
            }
            Edit::HeaderSet(i, t) if !h.is_empty() => {
                let n = h.len();
                h[*i as usize % n].1 = t.clone().into_bytes()
            }
            Edit::HeaderBytes(i, t) if !h.is_empty() => {
                let n = h.len();
                h[*i as usize % n].1 = t.clone()
            }
            Edit::HeaderAdd(n, t) => h.push((n.clone(), t.clone().into_bytes())),
            Edit::HeaderCase(c) => case = *c,
            Edit::HeaderReverse => h.reverse(),
            Edit::HeaderBlanks => blanks = true,
            Edit::NoLength => length = false,
            Edit::AbsoluteForm => absolute = true,
            _ => {}
        }
    }
    let text: Vec<String> = q
        .iter()
        .map(|(k, v)| format!("{}={}", form_encode(k.as_bytes(), style), form_encode(v, style)))
        .collect();
    let text = format!("{}{}", text.join("&"), raw);
    Pieces {
        segs,
        query: if noq || text.is_empty() && style & 16 == 0 { None } else { Some(text) },
        headers: h,
        blanks,
        length: length || !val.body.is_empty(),
        absolute,
        header_case: case,
    }
}

impl Pieces {
    pub fn target(&self) -> String {
        let mut t = String::new();
        if self.absolute {
            t.push_str("http://example.com");
        }
        if self.segs.is_empty() {
            t.push('/');
        }
        for s in &self.segs {
            t.push('/');
            t.push_str(&spell(s));
        }
        if let Some(q) = &self.query {
            t.push('?');
            t.push_str(q);
        }
        t
    }
    fn sent_headers(&self, body: &[u8]) -> Vec<(String, Vec<u8>)> {
        let mut h = self.headers.clone();
        if self.length {
            let at = self.header_case as usize % (h.len() + 1);
            h.insert(at, ("Content-Length".into(), body.len().to_string().into_bytes()));
        }
        for (n, _) in &mut h {
            *n = n
                .bytes()
                .enumerate()
                .map(|(i, b)| {
                    if self.header_case.rotate_left(i as u32 % 8) & 1 == 1 {
                        b.to_ascii_uppercase() as char
                    } else {
                        b as char
                    }
                })
                .collect();
        }
        h
    }
    pub fn bytes(&self, method: &str, body: &[u8]) -> Vec<u8> {
        let mut out = format!("{} {} HTTP/1.1\r\n", method, self.target()).into_bytes();
        for (n, v) in self.sent_headers(body) {
            out.extend_from_slice(n.as_bytes());
            out.push(b':');
            if self.blanks {
                out.extend_from_slice(b" \t ");
            } else if self.header_case & 1 == 0 {
                out.push(b' ');
            }
            out.extend_from_slice(&v);
            if self.blanks {
                out.extend_from_slice(b" \t");
            }
            out.extend_from_slice(b"\r\n");
        }
        out.extend_from_slice(b"\r\n");
        out.extend_from_slice(body);
        out
    }
    /// What the request means for this type.
    pub fn decode(&self, entry: &[Option<String>], ty: &ReqTy, body: &[u8]) -> Part<ReqVal> {
        let mut may = false;
        macro_rules! part {
            ($p:expr) => {
                match $p {
                    Part::Must(v) => v,
                    Part::May(v) => {
                        may = true;
                        v
                    }
                    Part::Reject => return Part::Reject,
                }
            };
        }
        let spelled: Vec<String> = self.segs.iter().map(spell).collect();
        let refs: Vec<&str> = spelled.iter().map(|s| &s[..]).collect();
        let path = match &ty.path {
            Some(p) => part!(refmodel::decode_path(p, entry, &refs)),
            None => vec![],
        };
        let query = match &ty.query {
            Some(t) => Some(part!(refmodel::decode_query(t, self.query.as_ref().map_or("", |q| q)))),
            None => None,
        };
        let header = match &ty.header {
            Some(t) => Some(part!(refmodel::decode_headers(t, &self.headers))),
            None => None,
        };
        let v = ReqVal { path, query, header, body: body.to_vec() };
        if may {
            Part::May(v)
        } else {
            Part::Must(v)
        }
    }
}

pub fn check_problem(r: &RawResponse, status: u16, head: bool, what: &str) -> Result<(), Fault> {
    ensure!(r.status == status, "{}: status {} instead of {}", what, r.status, status);
    let ct = r.header("content-type").map(|v| String::from_utf8_lossy(v).into_owned());
    ensure!(
        ct.as_ref().map_or(false, |c| c.eq_ignore_ascii_case("application/problem+json")),
        "{}: content type {:?}", what, ct
    );
    if !head {
        let v: serde_json::Value = match serde_json::from_slice(&r.body) {
            Ok(v) => v,
            Err(e) => violation!("{}: the problem document is not JSON: {}", what, e),
        };
        ensure!(
            v["status"].as_u64() == Some(status as u64),
            "{}: problem document has status {:?}", what, v["status"]
        );
        ensure!(v["type"].is_string(), "{}: problem document without type", what);
        ensure!(v["title"].is_string(), "{}: problem document without title", what);
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Shot {
    pub edits: Vec<Edit>,
    #[serde(with = "bodyfmt")]
    pub body: Vec<u8>,
    pub seg: Seg,
    /// Answered late: another connection is served in between.
    pub new_connection: bool,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub proc_: ProcTy,
    pub val: ReqVal,
    pub shots: Vec<Shot>,
}

/// Sends one shot and judges the answer. Returns the class.
pub fn fire(
    sim: &mut Sim,
    c: &mut Raw,
    log: &Log,
    p: &ProcTy,
    val: &ReqVal,
    shot: &Shot,
) -> Result<&'static str, Fault> {
    let mut val = val.clone();
    val.body = shot.body.clone();
    let pieces = build(&p.entry, &p.req, &val, &shot.edits);
    if has_dots(&pieces.segs) {
        return Ok("dot segments");
    }
    let bytes = pieces.bytes(&p.method, &val.body);
    if bytes.len() - val.body.len() > 7500 || pieces.headers.len() > 28 {
        return Ok("too large");
    }
    log.lock().unwrap().clear();
    let what = format!(
        "{} {} {:?}",
        p.method,
        pieces.target(),
        pieces.headers.iter().map(|h| (&h.0, String::from_utf8_lossy(&h.1))).collect::<Vec<_>>()
    );
    let head = p.method == "HEAD";
    c.send(sim, &bytes, &shot.seg)?;
    let r = http::expect_response(sim, c, head, &what)?;
    ensure!(c.inbuf.is_empty(), "{}: bytes after the response: {:?}", what, String::from_utf8_lossy(&c.inbuf));
    let log = log.lock().unwrap();
    let served = |e: &ReqVal| -> Result<(), Fault> {
        ensure!(log.len() == 1, "{}: {} invocations", what, log.len());
        if let Err(m) = same_request(e, &log[0].req) {
            violation!("{}: decoded wrongly: {}", what, m);
        }
        ensure!(r.status == 200, "{}: handled, but the status is {}", what, r.status);
        if !head {
            ensure!(r.body == b"fine", "{}: body {:?}", what, String::from_utf8_lossy(&r.body));
        }
        Ok(())
    };
    let decoded = if p.entry.is_empty() {
        // The root has no segment; the model wants one per entry point segment.
        let mut x = pieces.clone();
        x.segs.clear();
        x.decode(&p.entry, &p.req, &val.body)
    } else {
        pieces.decode(&p.entry, &p.req, &val.body)
    };
    match decoded {
        Part::Must(v) => {
            if log.is_empty() {
                violation!(
                    "{}: a valid request was answered with {} {:?}",
                    what, r.status, String::from_utf8_lossy(&r.body)
                );
            }
            served(&v)?;
            Ok(if shot.edits.is_empty() { "plain" } else { "valid after edits" })
        }
        Part::May(v) => {
            if log.is_empty() {
                check_problem(&r, 400, head, &what)?;
            } else {
                served(&v)?;
            }
            Ok("unusual spelling")
        }
        Part::Reject => {
            ensure!(
                log.is_empty(),
                "{}: the request cannot be decoded, but the handler ran with {:?}", what, log[0].req
            );
            check_problem(&r, 400, head, &what)?;
            Ok(if shot.body.is_empty() { "rejected" } else { "rejected with a body" })
        }
    }
}

pub struct C06;
impl Property for C06 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "generated procedure, value and edits of the canonical request; non-trivial if a request must be rejected or is valid after at least one edit"
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "request heads below the 8096 byte / 32 field limits of the HTTP layer".into(),
            "malformed escapes and invalid UTF-8 in queries are decoded as the URL standard says (kept, replaced)".into(),
            "integers with a leading '+', non-decimal float spellings: accepted or rejected".into(),
        ]
    }
    fn cases(&self) -> u64 {
        100000
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        let shot = (
            vec(edit(), 0..4),
            prop_oneof![3 => Just(vec![]), 2 => vec(any::<u8>(), 0..30), 1 => gen::body()],
            prop_oneof![4 => Just(Seg::whole()), 1 => seg_strategy()],
            proptest::bool::weighted(0.1),
        )
            .prop_map(|(edits, body, seg, new_connection)| Shot { edits, body, seg, new_connection });
        (gen::method(), gen::request(4), prop_oneof![30 => vec(shot.clone(), 1..5), 1 => vec(shot, 20..120)])
            .prop_map(|(method, (entry, req, val), shots)| Case {
                proc_: ProcTy { method, entry, req, resp: gen::plain_resp_ty() },
                val: ReqVal { body: vec![], ..val },
                shots,
            })
            .boxed()
    }
    fn run(&self, case: &Case) -> Verdict {
        let mut sim = Sim::new()?;
        define(0, &case.proc_);
        let log = new_log();
        let b = recording(&log, |_| Action::Reply(gen::ok_with(b"fine")));
        let server = start_server(&mut sim, |s| {
            register(s, 0, 0, &b).map_err(|e| Fault::Violation(format!("registration refused: {}", e)))
        })?;
        let mut c = Raw::connect(server.addr)?;
        let mut info = Info::new(false);
        let mut after = None;
        for shot in &case.shots {
            if shot.new_connection {
                c = Raw::connect(server.addr)?;
                after = None;
            }
            let class = fire(&mut sim, &mut c, &log, &case.proc_, &case.val, shot)?;
            info.nontrivial |= class.starts_with("rejected") || class == "valid after edits";
            if let Some(true) = after {
                info = info.class("a request after a rejected one");
            }
            after = Some(class.starts_with("rejected"));
            info = info.class(class);
        }
        // Whatever came before, the connection still serves a plain request.
        let last = Shot { edits: vec![], body: vec![], seg: Seg::whole(), new_connection: false };
        fire(&mut sim, &mut c, &log, &case.proc_, &case.val, &last)?;
        server.alive()?;
        Ok(info.units(case.shots.len() as u64 + 1))
    }
}
