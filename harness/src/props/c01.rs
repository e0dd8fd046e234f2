//! C01: requests reach their handler exactly once and unchanged.
use super::tight;
use crate::dynproc::*;
use crate::engine::*;
use crate::gen;
use crate::refmodel;
use crate::sim::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Proc {
    pub ty: ProcTy,
    pub val: ReqVal,
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Decoy {
    OtherMethod,
    Prefix,
    Extension,
    AllVar,
    ConstForVar,
    Garbled,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub procs: Vec<Proc>,
    pub decoys: Vec<(Decoy, String)>,
    /// (procedure, through the pool)
    pub calls: Vec<(u8, bool)>,
    pub pump: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Any {
    Derived { derived: super::derived::Case },
    Tight { tight: tight::Case },
    Dyn(Case),
}

pub struct C01;

/// Builds the registrations: the procedures that can be called unambiguously, then decoys.
fn plan(case: &Case) -> (Vec<ProcTy>, Vec<Option<ReqVal>>) {
    let mut tys: Vec<ProcTy> = Vec::new();
    let mut vals: Vec<Option<ReqVal>> = Vec::new();
    let fits = |tys: &[ProcTy], vals: &[Option<ReqVal>]| {
        let regs: Vec<refmodel::Route> =
            tys.iter().map(|t| (t.method.clone(), t.entry.clone())).collect();
        for i in 0..regs.len() {
            for j in 0..i {
                if regs[i] == regs[j] {
                    return false;
                }
            }
        }
        // [""] and [] are the same path.
        if regs.iter().any(|r| r.1.is_empty()) && regs.iter().any(|r| r.1.len() == 1) {
            return false;
        }
        (0..tys.len()).all(|i| match vals[i] {
            None => true,
            Some(ref v) => {
                let segs = request_segments(&tys[i], v);
                refmodel::route(&regs, &tys[i].method, &segs) == Ok(i)
            }
        })
    };
    for p in &case.procs {
        if head_estimate(&p.ty.entry, &p.val, &p.ty.req) > 7500 {
            continue;
        }
        let (mut t, mut v) = (tys.clone(), vals.clone());
        t.push(p.ty.clone());
        v.push(Some(p.val.clone()));
        if fits(&t, &v) {
            tys = t;
            vals = v;
        }
    }
    let n = tys.len();
    for (i, (d, s)) in case.decoys.iter().enumerate() {
        if n == 0 || tys.len() >= SLOTS {
            break;
        }
        let base = tys[i % n].clone();
        let mut e = base.entry.clone();
        let mut m = base.method.clone();
        match d {
            Decoy::OtherMethod => m = if m == "GET" { "POST".into() } else { "GET".into() },
            Decoy::Prefix => {
                e.pop();
            }
            Decoy::Extension => e.push(Some(s.clone())),
            Decoy::AllVar => e = e.iter().map(|_| None).collect(),
            Decoy::ConstForVar => {
                e = e.into_iter().map(|x| x.or_else(|| Some(s.clone()))).collect()
            }
            Decoy::Garbled => {
                if let Some(x) = e.last_mut() {
                    *x = Some(s.clone());
                }
            }
        }
        let vars = e.iter().filter(|x| x.is_none()).count();
        let ty = ProcTy {
            method: m,
            entry: e,
            req: ReqTy {
                path: if vars == 0 { None } else { Some(PathTy::Tuple(vec![Ty::Str; vars])) },
                query: None,
                header: None,
                wrapped: false,
            },
            resp: gen::plain_resp_ty(),
        };
        let (mut t, mut v) = (tys.clone(), vals.clone());
        t.push(ty);
        v.push(None);
        if fits(&t, &v) {
            tys = t;
            vals = v;
        }
    }
    (tys, vals)
}

/// The decoded path segments of a request.
pub fn request_segments(t: &ProcTy, v: &ReqVal) -> Vec<Option<Vec<u8>>> {
    let mut vars = v.path.iter().zip(t.req.path.as_ref().map_or(&[][..], |p| p.tys()));
    let mut segs: Vec<Option<Vec<u8>>> = t
        .entry
        .iter()
        .map(|e| match e {
            Some(c) => Some(c.clone().into_bytes()),
            None => vars.next().and_then(|(v, t)| refmodel::text_of(t, v)),
        })
        .collect();
    if segs.is_empty() {
        segs.push(Some(Vec::new()));
    }
    segs
}

impl Property for C01 {
    type Case = Any;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "the request carries at least one path variable, query field, header field or body byte"
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "request heads below the 8096 byte / 32 field limits of the HTTP layer".into(),
            "header values as HTTP can carry them (no CR/LF/NUL, no surrounding blanks); the others are C03".into(),
            "path variables \".\" and \"..\" excluded (not expressible in a URL; C03 checks that they fail)".into(),
        ]
    }
    fn cases(&self) -> u64 {
        60000
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Any> {
        let p = (gen::method(), gen::request(5)).prop_map(|(method, (entry, req, val))| Proc {
            ty: ProcTy {
                method,
                entry,
                req,
                resp: gen::plain_resp_ty(),
            },
            val,
        });
        let d = (
            prop_oneof![
                Just(Decoy::OtherMethod),
                Just(Decoy::Prefix),
                Just(Decoy::Extension),
                Just(Decoy::AllVar),
                Just(Decoy::ConstForVar),
                Just(Decoy::Garbled)
            ],
            gen::constant(),
        );
        let dynamic = (
            proptest::collection::vec(p, 1..4),
            proptest::collection::vec(d, 0..4),
            prop_oneof![
                30 => proptest::collection::vec((any::<u8>(), any::<bool>()), 1..4),
                1 => proptest::collection::vec((any::<u8>(), any::<bool>()), 10..80),
            ],
            0u8..40,
        )
            .prop_map(|(procs, decoys, calls, pump)| Case {
                procs,
                decoys,
                calls,
                pump,
            })
            .prop_map(Any::Dyn);
        prop_oneof![
            17 => dynamic,
            2 => super::derived::strategy().prop_map(|derived| Any::Derived { derived }),
            1 => tight::strategy(true, &[tight::Way::Request, tight::Way::RequestWire]).prop_map(|tight| Any::Tight { tight }),
        ]
        .boxed()
    }
    fn run(&self, case: &Any) -> Verdict {
        match case {
            Any::Derived { derived } => super::derived::run(derived, true),
            Any::Tight { tight } => tight::run(tight, true),
            Any::Dyn(c) => self.run_dyn(c),
        }
    }
}
impl C01 {

    fn run_dyn(&self, case: &Case) -> Verdict {
        let (tys, vals) = plan(case);
        let callable: Vec<usize> = (0..tys.len()).filter(|i| vals[*i].is_some()).collect();
        if callable.is_empty() {
            return Ok(Info::new(false).class("nothing callable"));
        }
        let mut sim = Sim::new()?;
        for (i, t) in tys.iter().enumerate() {
            define(i, t);
        }
        let log = new_log();
        let b = recording(&log, |inv| {
            Action::Reply(gen::ok_with(format!("reply {}", inv.slot).as_bytes()))
        });
        let n = tys.len();
        let server = start_server(&mut sim, |s| {
            // Decoys first: registration order must not matter.
            for i in (0..n).rev() {
                if let Err(e) = register(s, i, i as u64, &b) {
                    violation!("registration of {:?} refused: {}", tys[i], e);
                }
            }
            Ok(())
        })?;
        let pool = htrpc::pool::RpcClientPool::new();
        let handle = pool.handle();
        let pool = sim.watch(pool);
        let mut nontrivial = false;
        let mut units = 0;
        let mut info = Info::new(false);
        for (k, pooled) in &case.calls {
            let i = callable[*k as usize % callable.len()];
            let v = vals[i].clone().unwrap();
            let ty = &tys[i];
            log.lock().unwrap().clear();
            let call = if *pooled {
                call_pool(&handle, server.addr, i, v.clone())
            } else {
                call_plain(server.addr, i, v.clone())
            };
            let w = sim.watch(call);
            sim.pump(case.pump as usize);
            sim.until("call to resolve", |_| Ok(w.is_done()))?;
            let r = w.take().unwrap();
            let log = log.lock().unwrap();
            let what = format!("{} {:?}", ty.method, ty.entry);
            let r = match r {
                Ok(r) => r,
                Err(e) => violation!("call {} failed: {}; invocations: {}", what, e, log.len()),
            };
            ensure!(
                log.len() == 1,
                "{}: {} handler invocations instead of one (slots {:?}), response {} {}",
                what,
                log.len(),
                log.iter().map(|l| l.slot).collect::<Vec<_>>(),
                r.status,
                String::from_utf8_lossy(&r.body)
            );
            ensure!(log[0].slot == i, "{}: handler {} ran instead of {}", what, log[0].slot, i);
            if let Err(e) = same_request(&v, &log[0].req) {
                violation!("{}: {}", what, e);
            }
            ensure!(
                log[0].declared == Some(v.body.len() as u64),
                "{}: content_length() says {:?}, body has {} bytes",
                what,
                log[0].declared,
                v.body.len()
            );
            let expected = gen::ok_with(if ty.method == "HEAD" {
                Vec::new()
            } else {
                format!("reply {}", i).into_bytes()
            }.as_slice());
            ensure!(r == expected, "{}: got response {:?}", what, r);
            units += 1;
            nontrivial |= !v.path.is_empty()
                || v.query.as_ref().map_or(false, |q| !fields_empty(q))
                || v.header.as_ref().map_or(false, |q| !fields_empty(q))
                || !v.body.is_empty();
            info = info
                .class_if(!v.path.is_empty(), "path variables")
                .class_if(v.query.is_some(), "query")
                .class_if(v.query.is_some() && ty.req.path.is_none(), "query without path part")
                .class_if(v.header.is_some(), "header")
                .class_if(v.body.len() > 8096, "body larger than the buffer")
                .class_if(*pooled, "pooled")
                .class_if(!*pooled, "plain")
                .class_if(ty.method == "HEAD", "HEAD");
        }
        server.alive()?;
        ensure!(!pool.is_done(), "the pool future resolved");
        info.nontrivial = nontrivial;
        Ok(info.class_if(n > callable.len(), "with decoys").units(units))
    }
}

pub fn fields_empty(f: &FieldsVal) -> bool {
    match f {
        FieldsVal::Struct(v) => v.is_empty(),
        FieldsVal::Map(v) => v.is_empty(),
    }
}
