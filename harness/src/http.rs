//! A small, strict, independent HTTP/1.1 reader used as reference.
use crate::engine::Fault;
use crate::sim::{Raw, Sim};

#[derive(Debug, Clone, PartialEq)]
pub struct RawRequest {
    pub method: String,
    pub target: String,
    pub version: String,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct RawResponse {
    pub version: String,
    pub status: u16,
    pub reason: String,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    pub content_length: u64,
}
impl RawResponse {
    pub fn header(&self, name: &str) -> Option<&[u8]> {
        self.headers
            .iter()
            .find(|h| h.0.eq_ignore_ascii_case(name))
            .map(|h| &h.1[..])
    }
}

pub fn is_token(s: &str) -> bool {
    !s.is_empty()
        && s.bytes()
            .all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

type Head = (Vec<u8>, Vec<(String, Vec<u8>)>, usize);

/// Splits off a head; `Ok(None)` if it is not complete yet.
pub fn head(buf: &[u8]) -> Result<Option<Head>, String> {
    let end = match find(buf, b"\r\n\r\n") {
        Some(e) => e,
        None => return Ok(None),
    };
    let mut lines = Vec::new();
    let mut rest = &buf[..end];
    loop {
        match find(rest, b"\r\n") {
            Some(i) => {
                lines.push(&rest[..i]);
                rest = &rest[i + 2..];
            }
            None => {
                lines.push(rest);
                break;
            }
        }
    }
    let start = lines[0].to_vec();
    let mut headers = Vec::new();
    for l in &lines[1..] {
        if l.iter().any(|b| *b == b'\r' || *b == b'\n' || *b == 0) {
            return Err(format!("control byte in header line {:?}", String::from_utf8_lossy(l)));
        }
        let c = match l.iter().position(|b| *b == b':') {
            Some(c) => c,
            None => return Err(format!("header line without colon {:?}", String::from_utf8_lossy(l))),
        };
        let name = String::from_utf8_lossy(&l[..c]).into_owned();
        if !is_token(&name) {
            return Err(format!("bad header name {:?}", name));
        }
        let mut v = &l[c + 1..];
        while let Some((b, r)) = v.split_first() {
            if *b == b' ' || *b == b'\t' {
                v = r
            } else {
                break;
            }
        }
        while let Some((b, r)) = v.split_last() {
            if *b == b' ' || *b == b'\t' {
                v = r
            } else {
                break;
            }
        }
        headers.push((name, v.to_vec()));
    }
    Ok(Some((start, headers, end + 4)))
}

fn content_length(headers: &[(String, Vec<u8>)]) -> Result<u64, String> {
    let cl: Vec<_> = headers
        .iter()
        .filter(|h| h.0.eq_ignore_ascii_case("content-length"))
        .collect();
    if cl.len() != 1 {
        return Err(format!("{} Content-Length fields", cl.len()));
    }
    if headers
        .iter()
        .any(|h| h.0.eq_ignore_ascii_case("transfer-encoding"))
    {
        return Err("unexpected Transfer-Encoding".into());
    }
    let s = String::from_utf8_lossy(&cl[0].1).into_owned();
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return Err(format!("bad Content-Length {:?}", s));
    }
    s.parse().map_err(|_| format!("bad Content-Length {:?}", s))
}

/// Takes one response off the front of the buffer.
pub fn take_response(buf: &mut Vec<u8>, to_head: bool) -> Result<Option<RawResponse>, String> {
    let (start, headers, n) = match head(buf)? {
        Some(x) => x,
        None => return Ok(None),
    };
    let line = String::from_utf8(start).map_err(|_| "status line is not UTF-8".to_string())?;
    let mut it = line.splitn(3, ' ');
    let version = it.next().unwrap_or("").to_string();
    let code = it.next().unwrap_or("");
    let reason = it.next().unwrap_or("").to_string();
    if !(version == "HTTP/1.1" || version == "HTTP/1.0")
        || code.len() != 3
        || !code.bytes().all(|b| b.is_ascii_digit())
    {
        return Err(format!("bad status line {:?}", line));
    }
    let cl = content_length(&headers)?;
    let blen = if to_head { 0 } else { cl as usize };
    if buf.len() < n + blen {
        return Ok(None);
    }
    let body = buf[n..n + blen].to_vec();
    buf.drain(..n + blen);
    Ok(Some(RawResponse {
        version,
        status: code.parse().unwrap(),
        reason,
        headers,
        body,
        content_length: cl,
    }))
}

/// Takes one request off the front of the buffer.
pub fn take_request(buf: &mut Vec<u8>) -> Result<Option<RawRequest>, String> {
    let (start, headers, n) = match head(buf)? {
        Some(x) => x,
        None => return Ok(None),
    };
    let line = String::from_utf8(start).map_err(|_| "request line is not UTF-8".to_string())?;
    let parts: Vec<&str> = line.split(' ').collect();
    if parts.len() != 3 || !(parts[2] == "HTTP/1.1" || parts[2] == "HTTP/1.0") {
        return Err(format!("bad request line {:?}", line));
    }
    if !is_token(parts[0]) || !parts[1].starts_with('/') {
        return Err(format!("bad request line {:?}", line));
    }
    if parts[1].bytes().any(|b| b <= 0x20 || b >= 0x7f) {
        return Err(format!("request target is not plain ASCII: {:?}", parts[1]));
    }
    let cl = content_length(&headers)? as usize;
    if buf.len() < n + cl {
        return Ok(None);
    }
    let body = buf[n..n + cl].to_vec();
    buf.drain(..n + cl);
    Ok(Some(RawRequest {
        method: parts[0].to_string(),
        target: parts[1].to_string(),
        version: parts[2].to_string(),
        headers,
        body,
    }))
}

/// Percent-decoding; `None` on a malformed escape.
pub fn pct_decode(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = |c: u8| (c as char).to_digit(16);
            if i + 2 >= b.len() {
                return None;
            }
            out.push((h(b[i + 1])? * 16 + h(b[i + 2])?) as u8);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    Some(out)
}

/// application/x-www-form-urlencoded, as in the URL standard (malformed escapes stay as they
/// are, invalid UTF-8 is replaced).
pub fn form_decode(q: &str) -> Vec<(String, String)> {
    fn dec(s: &str) -> String {
        let b = s.as_bytes();
        let mut out = Vec::new();
        let mut i = 0;
        while i < b.len() {
            let h = |j: usize| b.get(j).and_then(|c| (*c as char).to_digit(16));
            match b[i] {
                b'+' => out.push(b' '),
                b'%' if h(i + 1).is_some() && h(i + 2).is_some() => {
                    out.push((h(i + 1).unwrap() * 16 + h(i + 2).unwrap()) as u8);
                    i += 2;
                }
                c => out.push(c),
            }
            i += 1;
        }
        String::from_utf8_lossy(&out).into_owned()
    }
    q.split('&')
        .filter(|p| !p.is_empty())
        .map(|p| match p.find('=') {
            Some(i) => (dec(&p[..i]), dec(&p[i + 1..])),
            None => (dec(p), String::new()),
        })
        .collect()
}

/// Percent-encodes every byte that is not unreserved.
pub fn pct_encode(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b {
        if c.is_ascii_alphanumeric() || b"-_~".contains(c) {
            s.push(*c as char);
        } else {
            s.push_str(&format!("%{:02X}", c));
        }
    }
    s
}

/// Waits for one response on the raw connection.
pub fn expect_response(
    sim: &mut Sim,
    c: &mut Raw,
    to_head: bool,
    what: &str,
) -> Result<RawResponse, Fault> {
    let mut got = None;
    sim.until(what, |_| {
        c.fill();
        match take_response(&mut c.inbuf, to_head) {
            Err(e) => Err(Fault::Violation(format!("{}: malformed response: {}", what, e))),
            Ok(Some(r)) => {
                got = Some(r);
                Ok(true)
            }
            Ok(None) => {
                if c.closed() {
                    Err(Fault::Violation(format!(
                        "{}: connection closed instead of a response (buffered {:?})",
                        what,
                        String::from_utf8_lossy(&c.inbuf[..c.inbuf.len().min(300)])
                    )))
                } else {
                    Ok(false)
                }
            }
        }
    })?;
    Ok(got.unwrap())
}

/// Waits for one request on the raw connection.
pub fn expect_request(sim: &mut Sim, c: &mut Raw, what: &str) -> Result<RawRequest, Fault> {
    let mut got = None;
    sim.until(what, |_| {
        c.fill();
        match take_request(&mut c.inbuf) {
            Err(e) => Err(Fault::Violation(format!("{}: malformed request: {}", what, e))),
            Ok(Some(r)) => {
                got = Some(r);
                Ok(true)
            }
            Ok(None) => {
                if c.closed() {
                    Err(Fault::Violation(format!("{}: closed instead of a request", what)))
                } else {
                    Ok(false)
                }
            }
        }
    })?;
    Ok(got.unwrap())
}
