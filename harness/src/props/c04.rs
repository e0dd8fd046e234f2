//! C04: routing. C05: registration.
use crate::dynproc::*;
use crate::engine::*;
use crate::gen;
use crate::http;
use crate::refmodel::{self, Route};
use crate::sim::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

/// One segment of a request path with its spelling.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum PSeg {
    /// This text, escaped according to the mask.
    Text { text: String, escape: u8 },
    /// These characters as they are (malformed escapes, invalid UTF-8).
    Raw(String),
}
/// Characters that are passed through as they are when not escaped.
fn plain(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"-_~.!$&'()*+,;=:@".contains(&b)
}
pub fn spell(s: &PSeg) -> String {
    match s {
        PSeg::Raw(r) => r.clone(),
        PSeg::Text { text, escape } => {
            let mut out = String::new();
            for (i, b) in text.bytes().enumerate() {
                let esc = match escape {
                    0 => false,
                    255 => true,
                    m => m.rotate_left(i as u32 % 8) & 1 == 1,
                };
                if esc || !plain(b) {
                    if escape & 2 == 2 {
                        out.push_str(&format!("%{:02x}", b));
                    } else {
                        out.push_str(&format!("%{:02X}", b));
                    }
                } else {
                    out.push(b as char);
                }
            }
            out
        }
    }
}
pub fn decoded(s: &PSeg) -> Option<Vec<u8>> {
    http::pct_decode(&spell(s))
}

pub const CONSTS: &[&str] = &[
    "a", "b", "c", "foo", "A", "", "a b", "é", "%41", "a/b", "foo.bar", "...", "漢", "1", "a+b",
    "a?b", "#", "x:y", "~", "*", "%", "a%b", "[", "{v}",
];
fn cons() -> BoxedStrategy<String> {
    prop_oneof![
        6 => select(&["a", "b", "c"][..]).prop_map(|s| s.to_string()),
        1 => select(CONSTS).prop_map(|s| s.to_string()),
        1 => gen::constant(),
    ]
    .boxed()
}
fn few_methods() -> BoxedStrategy<String> {
    prop_oneof![
        6 => select(&["GET", "POST", "PUT"][..]).prop_map(|s| s.to_string()),
        1 => gen::method(),
    ]
    .boxed()
}
pub fn reg() -> BoxedStrategy<Route> {
    (
        few_methods(),
        prop_oneof![
            20 => vec(segment(), 0..4),
            1 => vec(segment(), 4..40),
        ],
    )
        .boxed()
}
fn segment() -> BoxedStrategy<Option<String>> {
    prop_oneof![3 => cons().prop_map(Some), 2 => Just(None)].boxed()
}
fn pseg() -> BoxedStrategy<PSeg> {
    prop_oneof![
        8 => (cons(), prop_oneof![4 => Just(0u8), 1 => Just(255u8), 1 => any::<u8>()])
            .prop_map(|(text, escape)| PSeg::Text { text, escape }),
        2 => (gen::text(), any::<u8>()).prop_map(|(text, escape)| {
            let text = if text == "." || text == ".." { "dot".to_string() } else { text };
            PSeg::Text { text, escape }
        }),
        1 => select(vec!["%", "%4", "%zz", "a%", "%ff", "%c3%28", "%e9", "%C3", "%g1", "%%", "%+1"]).prop_map(|s| PSeg::Raw(s.to_string())),
    ]
    .boxed()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Probe {
    pub method: String,
    /// Takes the entry point of this registration as a base.
    pub base: Option<u8>,
    pub segs: Vec<PSeg>,
    /// 0: none, otherwise a query string, or the absolute form.
    pub form: u8,
    pub body: bool,
}
pub fn probe() -> BoxedStrategy<Probe> {
    (
        few_methods(),
        proptest::option::weighted(0.7, any::<u8>()),
        prop_oneof![20 => vec(pseg(), 0..4), 1 => vec(pseg(), 4..40)],
        0u8..8,
        any::<bool>(),
    )
        .prop_map(|(method, base, segs, form, body)| Probe { method, base, segs, form, body })
        .boxed()
}
/// The segments of a probe: those of the base entry point, variables filled from `segs`;
/// what is left of `segs` is appended (only for some forms) so that longer paths occur.
pub fn probe_segs(p: &Probe, regs: &[Route]) -> Vec<PSeg> {
    let mut it = p.segs.iter().cloned();
    let mut out = Vec::new();
    match p.base {
        Some(b) if !regs.is_empty() => {
            for s in &regs[b as usize % regs.len()].1 {
                match s {
                    Some(c) => out.push(PSeg::Text {
                        text: c.clone(),
                        escape: if p.form == 3 { 255 } else { 0 },
                    }),
                    None => out.push(it.next().unwrap_or(PSeg::Text { text: "v".into(), escape: 0 })),
                }
            }
            if p.form == 5 {
                out.extend(it);
            }
            if p.form == 6 {
                out.pop();
            }
        }
        _ => out.extend(it),
    }
    if out.is_empty() {
        out.push(PSeg::Text { text: String::new(), escape: 0 });
    }
    out
}
pub fn target(segs: &[PSeg], form: u8) -> String {
    let mut t = String::new();
    if form == 4 {
        t.push_str("http://example.com:8080");
    }
    for s in segs {
        t.push('/');
        t.push_str(&spell(s));
    }
    match form {
        1 => t.push_str("?x=1&y=/a/b"),
        2 => t.push('?'),
        _ => {}
    }
    t
}
/// "." and ".." (escaped or not) are resolved by URL parsers before routing.
pub fn has_dots(segs: &[PSeg]) -> bool {
    segs.iter().any(|s| match decoded(s) {
        Some(d) => d == b"." || d == b"..",
        None => false,
    })
}

pub fn str_proc(r: &Route) -> ProcTy {
    let vars = r.1.iter().filter(|s| s.is_none()).count();
    ProcTy {
        method: r.0.clone(),
        entry: r.1.clone(),
        req: ReqTy {
            path: if vars == 0 { None } else { Some(PathTy::Tuple(vec![Ty::Str; vars])) },
            query: None,
            header: None,
            wrapped: false,
        },
        resp: gen::plain_resp_ty(),
    }
}
/// [] and [""] / [_] both match the path "/"; which one goes first is not specified.
fn ambiguous_root(regs: &[Route]) -> bool {
    regs.iter().any(|r| r.1.is_empty())
        && regs
            .iter()
            .any(|r| r.1.len() == 1 && r.1[0].as_ref().map_or(true, |s| s.is_empty()))
}

/// Sends one probe and judges the outcome against the model. `tags[i]` is the tag with which
/// the handler of `regs[i]` was registered.
pub fn judge(
    sim: &mut Sim,
    c: &mut Raw,
    log: &Log,
    regs: &[Route],
    tags: &[u64],
    p: &Probe,
) -> Result<&'static str, Fault> {
    let segs = probe_segs(p, regs);
    if has_dots(&segs) {
        return Ok("dot segments");
    }
    if ambiguous_root(regs) && segs.len() == 1 && decoded(&segs[0]).map_or(false, |d| d.is_empty()) {
        return Ok("ambiguous root");
    }
    let t = target(&segs, p.form);
    let body: &[u8] = if p.body { b"some body" } else { b"" };
    let mut req = format!("{} {} HTTP/1.1\r\nContent-Length: {}\r\n\r\n", p.method, t, body.len())
        .into_bytes();
    req.extend_from_slice(body);
    log.lock().unwrap().clear();
    c.send(sim, &req, &Seg::whole())?;
    let what = format!("{} {}", p.method, t);
    let r = http::expect_response(sim, c, p.method == "HEAD", &what)?;
    let dec: Vec<Option<Vec<u8>>> = segs.iter().map(decoded).collect();
    let log = log.lock().unwrap();
    match refmodel::route(regs, &p.method, &dec) {
        Err(status) => {
            ensure!(
                log.is_empty(),
                "{}: no entry point matches ({} expected) but the handler of {:?} ran; registered: {:?}",
                what, status, tags.iter().position(|x| *x == log[0].tag).map(|i| &regs[i]), regs
            );
            ensure!(r.status == status, "{}: status {} instead of {}; registered: {:?}", what, r.status, status, regs);
            Ok(if status == 404 { "404" } else { "405" })
        }
        Ok(i) => {
            let mut vars = Vec::new();
            let mut bad = false;
            for (e, d) in regs[i].1.iter().zip(&dec) {
                if e.is_none() {
                    match d.clone().and_then(|d| String::from_utf8(d).ok()) {
                        Some(s) => vars.push(Val::Str(s)),
                        None => bad = true,
                    }
                }
            }
            if bad {
                ensure!(log.is_empty(), "{}: undecodable path but handler {} ran", what, log[0].tag);
                ensure!(r.status == 400, "{}: undecodable path, status {}", what, r.status);
                return Ok("undecodable variable");
            }
            ensure!(
                log.len() == 1,
                "{}: {} handlers ran (status {}), expected that of {:?}; registered: {:?}",
                what, log.len(), r.status, regs[i], regs
            );
            ensure!(
                log[0].tag == tags[i],
                "{}: the handler of {:?} (registration {}) ran instead of that of {:?} (registration {}); registered: {:?}",
                what, tags.iter().position(|x| *x == log[0].tag).map(|i| &regs[i]), log[0].tag, regs[i], tags[i], regs
            );
            ensure!(r.status == 200, "{}: status {}", what, r.status);
            ensure!(log[0].req.path == vars, "{}: path variables {:?} instead of {:?}", what, log[0].req.path, vars);
            ensure!(log[0].req.body == body, "{}: body changed", what);
            if p.method != "HEAD" {
                ensure!(
                    r.body == format!("{}", tags[i]).into_bytes(),
                    "{}: response body {:?}", what, String::from_utf8_lossy(&r.body)
                );
            }
            Ok("handled")
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub regs: Vec<Route>,
    pub probes: Vec<Probe>,
}

pub struct C04;
impl Property for C04 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "some probed path matches at least two entry points, or an entry point under another method only, or is handled through a variable"
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "request targets without dot segments (URL parsers resolve them before routing)".into(),
            "the path \"/\" is not probed when the empty entry point and [\"\"] or [_] are both registered".into(),
        ]
    }
    fn cases(&self) -> u64 {
        120000
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        (
            prop_oneof![
                14 => vec(reg(), 1..9),
                1 => vec(reg(), 9..38),
                // Entry points that are variants of one another.
                7 => vec(step(), 2..12).prop_map(|s| expand(&s)),
            ],
            prop_oneof![14 => vec(probe(), 1..8), 1 => vec(probe(), 8..80)],
        )
            .prop_map(|(regs, probes)| Case { regs: gen::unique(regs, |r| r.clone()), probes })
            .boxed()
    }
    fn run(&self, case: &Case) -> Verdict {
        let regs = &case.regs;
        let mut sim = Sim::new()?;
        for (i, r) in regs.iter().enumerate() {
            define(i, &str_proc(r));
        }
        let log = new_log();
        let b = recording(&log, |inv| Action::Reply(gen::ok_with(inv.tag.to_string().as_bytes())));
        let server = start_server(&mut sim, |s| {
            for i in 0..regs.len() {
                register(s, i, i as u64, &b)
                    .map_err(|e| Fault::Violation(format!("registration refused: {}", e)))?;
            }
            Ok(())
        })?;
        let tags: Vec<u64> = (0..regs.len() as u64).collect();
        let mut c = Raw::connect(server.addr)?;
        let mut info = Info::new(false);
        let mut units = 0;
        for p in &case.probes {
            let class = judge(&mut sim, &mut c, &log, regs, &tags, p)?;
            info = info.class(class);
            units += 1;
            let dec: Vec<Option<Vec<u8>>> = probe_segs(p, regs).iter().map(decoded).collect();
            let n = regs
                .iter()
                .filter(|r| {
                    r.1.len() == dec.len()
                        && r.1.iter().zip(&dec).all(|(e, d)| {
                            e.as_ref().map_or(true, |e| d.as_ref().map_or(false, |d| d == e.as_bytes()))
                        })
                })
                .count();
            info.nontrivial |= n > 1 || class == "405" || class == "handled" && p.segs.len() > 0;
            info = info
                .class_if(n > 1, "several entry points match")
                .class_if(n > 0 && dec.len() > 12, "paths of more than 12 segments");
        }
        server.alive()?;
        Ok(info.units(units))
    }
}

// ---------------------------------------------------------------- C05

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Step {
    New(Route),
    /// Exactly an earlier one again.
    Again(u8),
    /// An earlier one with another method.
    OtherMethod(u8, String),
    /// A prefix of an earlier one.
    Prefix(u8),
    Extend(u8, Option<String>),
    /// Constant for variable or the other way round at a position.
    Swap(u8, u8, String),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case5 {
    pub steps: Vec<Step>,
    pub probes: Vec<Probe>,
}

/// The registrations in order.
fn expand(steps: &[Step]) -> Vec<Route> {
    let mut all: Vec<Route> = Vec::new();
    for s in steps {
        let pick = |i: &u8| -> Route {
            if all.is_empty() {
                ("GET".to_string(), vec![Some("a".to_string())])
            } else {
                all[*i as usize % all.len()].clone()
            }
        };
        let r = match s {
            Step::New(r) => r.clone(),
            Step::Again(i) => pick(i),
            Step::OtherMethod(i, m) => (m.clone(), pick(i).1),
            Step::Prefix(i) => {
                let mut r = pick(i);
                r.1.pop();
                r
            }
            Step::Extend(i, s) => {
                let mut r = pick(i);
                r.1.push(s.clone());
                r
            }
            Step::Swap(i, k, s) => {
                let mut r = pick(i);
                if !r.1.is_empty() {
                    let k = *k as usize % r.1.len();
                    r.1[k] = if r.1[k].is_some() { None } else { Some(s.clone()) };
                }
                r
            }
        };
        if all.len() < SLOTS {
            all.push(r);
        }
    }
    all
}
fn step() -> BoxedStrategy<Step> {
    prop_oneof![
        4 => reg().prop_map(Step::New),
        4 => any::<u8>().prop_map(Step::Again),
        2 => (any::<u8>(), few_methods()).prop_map(|(i, m)| Step::OtherMethod(i, m)),
        1 => any::<u8>().prop_map(Step::Prefix),
        2 => (any::<u8>(), proptest::option::of(cons())).prop_map(|(i, s)| Step::Extend(i, s)),
        2 => (any::<u8>(), any::<u8>(), cons()).prop_map(|(i, k, s)| Step::Swap(i, k, s)),
    ]
    .boxed()
}

pub struct C05;
impl Property for C05 {
    type Case = Case5;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "the sequence has at least one registration that must be refused and one later registration or probe that could show its effect"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["at most 40 registrations per server".into()]
    }
    fn cases(&self) -> u64 {
        120000
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case5> {
        (prop_oneof![14 => vec(step(), 2..12), 1 => vec(step(), 12..38)], vec(probe(), 0..5))
            .prop_map(|(steps, probes)| Case5 { steps, probes })
            .boxed()
    }
    fn run(&self, case: &Case5) -> Verdict {
        let all = expand(&case.steps);
        let mut sim = Sim::new()?;
        for (i, r) in all.iter().enumerate() {
            define(i, &str_proc(r));
        }
        let log = new_log();
        let b = recording(&log, |inv| Action::Reply(gen::ok_with(inv.tag.to_string().as_bytes())));
        let mut regs: Vec<Route> = Vec::new();
        let mut tags: Vec<u64> = Vec::new();
        let mut refused = 0;
        let mut kinds: Vec<&'static str> = Vec::new();
        let server = start_server(&mut sim, |s| {
            regs.clear();
            tags.clear();
            refused = 0;
            for i in 0..all.len() {
                let r = register(s, i, i as u64, &b);
                let dup = regs.contains(&all[i]);
                match r {
                    Ok(()) if dup => violation!(
                        "registering {:?} a second time succeeded; registered before: {:?}", all[i], regs
                    ),
                    Err(ref e) if !dup => {
                        violation!("registering {:?} was refused ({}); registered before: {:?}", all[i], e, regs)
                    }
                    Ok(()) => {
                        if regs.iter().any(|r| r.1 == all[i].1) {
                            kinds.push("same entry point, other method");
                        }
                        if regs.iter().any(|r| r.1 != all[i].1 && (r.1.starts_with(&all[i].1) || all[i].1.starts_with(&r.1))) {
                            kinds.push("prefix or extension");
                        }
                        regs.push(all[i].clone());
                        tags.push(i as u64);
                    }
                    Err(_) => refused += 1,
                }
            }
            Ok(())
        })?;
        let mut c = Raw::connect(server.addr)?;
        let mut units = all.len() as u64;
        // Every registration in force answers, then the generated probes.
        let mut probes: Vec<Probe> = (0..regs.len())
            .map(|i| Probe {
                method: regs[i].0.clone(),
                base: Some(i as u8),
                segs: vec![PSeg::Text { text: "some value".into(), escape: 0 }; 40],
                form: 0,
                body: i % 2 == 0,
            })
            .collect();
        probes.extend(case.probes.iter().cloned());
        for p in &probes {
            judge(&mut sim, &mut c, &log, &regs, &tags, p)?;
            units += 1;
        }
        server.alive()?;
        let mut info = Info::new(refused > 0).units(units).class_if(refused > 0, "refused");
        kinds.sort();
        kinds.dedup();
        for k in kinds {
            info = info.class(k);
        }
        Ok(info)
    }
}
