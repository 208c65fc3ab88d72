//! P10: the registrar against a reference registrar, for every history of
//! REGISTER requests up to a depth. P11: the location store likewise.
use crate::auth::block;
use anyhow::anyhow;
use bytes::Bytes;
use common::{product, quiet, sequences, vclock, Run};
use sip_auth::{Authenticator, Credentials};
use sip_core::{Headers, Method, Request, RequestLine, Response, StatusLine, Uri};
use sip_registrar::*;
use smol_str::SmolStr;
use std::time::Duration;

pub struct NoAuth;
impl Authenticator for NoAuth {
    fn challenge(&self, _: &Request) -> anyhow::Result<Response> {
        Ok(Response::new(StatusLine::new(401, "Unauthorized")?, Headers::new(), Bytes::new())?)
    }
    fn verify(&self, r: &Request, _: &Headers) -> anyhow::Result<bool> {
        match r.headers().get("X-User") {
            None => Err(anyhow!("none")),
            Some("bad") | Some("stale") => Ok(false),
            Some(_) => Ok(true),
        }
    }
    fn credentials_for(&self, _: &Method, _: &str) -> Option<Credentials> {
        None
    }
    fn nonce_is_stale(&self, r: &Request) -> bool {
        r.headers().get("X-User") == Some("stale")
    }
    fn verified_username(&self, r: &Request) -> Option<SmolStr> {
        r.headers().get("X-User").filter(|u| !u.is_empty() && *u != "nobody").map(SmolStr::new)
    }
    fn challenge_stale(&self, _: &Request) -> anyhow::Result<Response> {
        Ok(Response::new(StatusLine::new(401, "stale")?, Headers::new(), Bytes::new())?)
    }
}
type Reg = BasicRegistrar<MemoryLocationStore, NoAuth>;

fn register(hs: &[(&str, &str)]) -> Request {
    let mut h = Headers::new();
    for (n, v) in hs {
        h.push(n, v).unwrap();
    }
    Request::new(RequestLine::new(Method::Register, Uri::parse("sip:h").unwrap()), h, Bytes::new()).unwrap()
}

// ---- reference -----------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Hash)]
struct B {
    contact: String,
    until: u64, // ms
    call: String,
    cseq: u32,
    q1000: u32,
    inst: Option<String>,
    reg: Option<u32>,
    path: Option<String>,
    ua: Option<String>,
}
/// What a contact value asks for.
#[derive(Clone, Debug)]
struct Want {
    uri: String,
    /// None: not valid
    expires: Option<Option<u64>>,
    q1000: Option<u32>,
    inst: Option<String>,
    reg: Option<u32>,
}
#[derive(Clone, Debug, PartialEq)]
enum Ans {
    Ok,
    Code(u16),
    /// refused without a response (limits)
    Refused,
}
struct Cfg {
    min: u64,
    max: u64,
    def: u64,
}
#[derive(Clone, Default)]
struct Ref {
    b: Vec<(String, Vec<B>)>,
}
impl Ref {
    fn live(&self, aor: &str, now: u64) -> Vec<B> {
        self.b.iter().find(|(a, _)| a == aor).map(|(_, l)| l.iter().filter(|b| b.until > now).cloned().collect()).unwrap_or_default()
    }
    #[allow(clippy::too_many_arguments)]
    fn register(&mut self, cfg: &Cfg, aor: &str, call: &str, cseq: u32, hdr: Option<u64>, cs: &[Want], path: Option<&str>, ua: Option<&str>, now: u64) -> Ans {
        let mut l = self.live(aor, now);
        let before = l.clone();
        for c in cs {
            let Some(e) = c.expires else { return Ans::Code(400) };
            let e = e.or(hdr).unwrap_or(cfg.def);
            if e != 0 && e < cfg.min {
                return Ans::Code(423);
            }
            if e > cfg.max {
                return Ans::Code(400);
            }
            if before.iter().any(|b| b.contact == c.uri && b.call == call && cseq <= b.cseq) {
                return Ans::Code(400);
            }
            l.retain(|b| b.contact != c.uri);
            if e > 0 {
                l.push(B { contact: c.uri.clone(), until: now + e * 1000, call: call.into(), cseq, q1000: c.q1000.unwrap_or(1000), inst: c.inst.clone(), reg: c.reg, path: path.map(|s| s.into()), ua: ua.map(|s| s.into()) });
                if l.len() > 20 {
                    return Ans::Refused;
                }
            }
        }
        self.b.retain(|(a, _)| a != aor);
        self.b.push((aor.into(), l));
        Ans::Ok
    }
    fn wild(&mut self, aor: &str, call: &str, cseq: u32, now: u64) -> Ans {
        if self.live(aor, now).iter().any(|b| b.call == call && cseq <= b.cseq) {
            return Ans::Code(400);
        }
        self.b.retain(|(a, _)| a != aor);
        Ans::Ok
    }
}
fn now_ms() -> u64 {
    vclock::now() / 1_000_000
}
fn stored(r: &Reg, aor: &str) -> Vec<B> {
    let mut v: Vec<B> = r.location_store().lookup(aor).unwrap().iter().map(|b| B {
        contact: b.contact().into(),
        until: now_ms() + b.expires().as_millis() as u64,
        call: b.call_id().into(),
        cseq: b.cseq(),
        q1000: (b.q_value() * 1000.0).round() as u32,
        inst: b.instance_id().map(|s| s.into()),
        reg: b.reg_id(),
        path: b.path().map(|p| p.to_string()),
        ua: b.user_agent().map(|s| s.into()),
    }).collect();
    v.sort_by(|a, b| a.contact.cmp(&b.contact));
    v
}
fn sorted(mut v: Vec<B>) -> Vec<B> {
    v.sort_by(|a, b| a.contact.cmp(&b.contact));
    v
}
/// The answer and its Contact lines as (uri, expires, q*1000).
fn answer(r: &Response) -> Option<Vec<(String, u64, u32)>> {
    let mut out = vec![];
    for v in r.headers().get_all("Contact") {
        if v == "*" {
            continue;
        }
        let c = sip_parse::parse_contact_header(&SmolStr::new(v))?;
        let p = |n: &str| c.inner().get_param(n).cloned().flatten();
        out.push((c.inner().uri().as_str().to_string(), p("expires")?.parse().ok()?, p("q").map_or(Some(1000), |q| q.parse::<f32>().ok().map(|q| (q * 1000.0).round() as u32))?));
    }
    out.sort();
    Some(out)
}
/// What every answer must repeat from the request.
fn echoes(req: &Request, resp: &Response) -> Result<(), String> {
    for n in ["Via", "From", "Call-ID", "CSeq"] {
        let a: Vec<_> = req.headers().get_all(n).collect();
        let b: Vec<_> = resp.headers().get_all(n).collect();
        if a != b {
            return Err(format!("{n}: request {a:?}, answer {b:?}"));
        }
    }
    if let Some(t) = req.headers().get("To") {
        let a: Vec<_> = resp.headers().get_all("To").collect();
        if a.len() != 1 || !(a[0] == t || a[0].starts_with(&format!("{t};tag="))) {
            return Err(format!("To: request {t:?}, answer {a:?}"));
        }
        if resp.code() != 401 && !a[0].to_ascii_lowercase().rsplit('>').next().unwrap().contains(";tag=") {
            return Err("To without tag".into());
        }
    }
    if resp.headers().get_all("Content-Length").collect::<Vec<_>>() != ["0"] {
        return Err("Content-Length".into());
    }
    Ok(())
}

#[derive(Clone)]
enum Op {
    Reg { aor: usize, call: &'static str, dc: i64, hdr: Option<&'static str>, contacts: &'static [(&'static str, &'static str)], path: Option<&'static str> },
    Wild { aor: usize, call: &'static str, dc: i64 },
    Sleep(u64),
    Clean,
}
/// (To value, key)
const AORS: [(&str, &str); 3] = [("<sip:a@h>", "sip:a@h"), ("\"A;tag=1\" <sip:a@H;transport=tcp>;x=1", "sip:a@h"), ("<sip:A@h>", "sip:A@h")];

fn ops() -> Vec<Op> {
    use Op::*;
    let r = |aor, call, dc, hdr, contacts| Reg { aor, call, dc, hdr, contacts, path: None };
    vec![
        r(0, "c1", 1, None, &[("<sip:x@d>", "")]),
        r(1, "c1", 1, Some("100"), &[("<sip:x@d>", ";q=0.5")]),
        r(0, "c1", 0, Some("100"), &[("<sip:x@d>", ";q=0.5")]),
        r(0, "c2", 1, None, &[("<sip:x@d>", ";expires=60")]),
        r(0, "c1", 1, None, &[("<sip:x@d>", ";expires=0")]),
        r(1, "c1", -1, None, &[("<sip:x@d>", ";expires=0")]),
        r(0, "c1", 1, Some("200"), &[("<sip:y@d;transport=tcp>", ";expires=60;q=0.1"), ("sip:x@d", ";q=0.7")]),
        r(0, "c1", 1, Some("200"), &[("<sip:y@d;transport=tcp>", ""), ("<sip:x@d>", ";expires=5")]),
        r(0, "c2", 1, Some("0"), &[("<sip:x@d>", ""), ("<sip:z@d>", ";expires=70"), ("<sip:y@d;transport=tcp>", "")]),
        r(0, "c1", 0, None, &[("<sip:z@d>", ";expires=60"), ("<sip:y@d;transport=tcp>", ";expires=80")]),
        r(2, "c1", 1, None, &[("<sip:x@d>", "")]),
        Reg { aor: 0, call: "c1", dc: 1, hdr: None, contacts: &[("<sip:x@d>", ";+sip.instance=\"<urn:uuid:1>\";reg-id=2")], path: Some("<sip:p@e;lr>") },
        Wild { aor: 0, call: "c1", dc: 1 },
        Wild { aor: 1, call: "c1", dc: 0 },
        Wild { aor: 0, call: "c2", dc: -1 },
        Sleep(60_000),
        Sleep(39_999),
        Sleep(1),
        Clean,
    ]
}
fn want(contacts: &[(&str, &str)]) -> Vec<Want> {
    contacts.iter().map(|(u, p)| {
        let get = |n: &str| p.split(';').find_map(|x| x.strip_prefix(n)).map(|s| s.to_string());
        Want {
            uri: u.trim_matches(['<', '>']).to_string(),
            expires: Some(get("expires=").map(|v| v.parse().unwrap())),
            q1000: get("q=").map(|v| (v.parse::<f64>().unwrap() * 1000.0).round() as u32),
            inst: get("+sip.instance="),
            reg: get("reg-id=").map(|v| v.parse().unwrap()),
        }
    }).collect()
}

pub fn p10(run: &Run) {
    run.assume("contacts are the same binding when their URI text is equal");
    run.assume("requests are handled one after the other; a store error other than a limit is not modelled");
    run.assume("REGISTER without Contact is answered 400 and an expiry above the maximum 400 (documented by the existing tests)");
    histories(run);
    values(run);
    requests(run);
    auth(run);
    full(run);
    aors(run);
    extensions(run);
    limits(run);
}

fn histories(run: &Run) {
    let ops = ops();
    let depth = run.pick(4, 5);
    run.note("history depth", depth);
    run.note("operations", ops.len());
    let cfg = Cfg { min: 60, max: 86400, def: 3600 };
    for d in 1..=depth {
        if d < depth && d > 2 {
            continue;
        }
        sequences(run, ops.len(), d, |seq| {
            vclock::reset();
            let sr: Reg = BasicRegistrar::new(MemoryLocationStore::new(), None);
            let ar: Reg = BasicRegistrar::new(MemoryLocationStore::new(), None);
            let mut m = Ref::default();
            let mut cseq = [10i64, 10];
            let key = |what: &str| format!("history {what} {seq:?}");
            for &o in seq {
                run.step(1);
                match &ops[o] {
                    Op::Sleep(ms) => {
                        vclock::advance_ms(*ms);
                    }
                    Op::Clean => {
                        let now = now_ms();
                        let dead: usize = m.b.iter().map(|(_, l)| l.iter().filter(|b| b.until <= now).count()).sum();
                        for (_, l) in m.b.iter_mut() {
                            l.retain(|b| b.until > now);
                        }
                        let (a, b) = (sr.location_store().cleanup_expired().unwrap(), ar.location_store().cleanup_expired().unwrap());
                        run.check(a <= dead && a == b, || key("cleanup"), || format!("cleanup removed {a} / {b}, {dead} had expired"));
                    }
                    Op::Reg { aor, call, dc, .. } | Op::Wild { aor, call, dc } => {
                        let n = &mut cseq[(*call == "c2") as usize];
                        let num = *n + dc;
                        *n = (*n).max(num);
                        let (to, k) = AORS[*aor];
                        let cs = format!("{num} REGISTER");
                        let mut hs: Vec<(&str, &str)> = vec![("Via", "SIP/2.0/UDP p;branch=z9hG4bK2"), ("Via", "SIP/2.0/UDP u;branch=z9hG4bK1"), ("From", "<sip:a@h>;tag=f"), ("To", to), ("Call-ID", call), ("CSeq", &cs)];
                        let line;
                        let now = now_ms();
                        let wantans;
                        match &ops[o] {
                            Op::Wild { .. } => {
                                hs.push(("Contact", "*"));
                                hs.push(("Expires", "0"));
                                wantans = m.wild(k, call, num as u32, now);
                            }
                            Op::Reg { hdr, contacts, path, .. } => {
                                line = contacts.iter().map(|(u, p)| format!("{u}{p}")).collect::<Vec<_>>().join(", ");
                                hs.push(("Contact", &line));
                                if let Some(h) = hdr {
                                    hs.push(("Expires", h));
                                }
                                if let Some(p) = path {
                                    hs.push(("Path", p));
                                }
                                wantans = m.register(&cfg, k, call, num as u32, hdr.map(|h| h.parse().unwrap()), &want(contacts), *path, None, now);
                            }
                            _ => unreachable!(),
                        }
                        let req = register(&hs);
                        judge(run, &key, &req, &sr, &ar, &wantans, &m.live(k, now), k, cfg.min);
                    }
                }
                run.trace();
                for k in ["sip:a@h", "sip:A@h"] {
                    let w = sorted(m.live(k, now_ms()));
                    for (which, r) in [("sync", &sr), ("async", &ar)] {
                        let g = stored(r, k);
                        run.check(g == w, || key(&format!("stored {which}")), || format!("{k}\nreference {w:?}\nstored    {g:?}"));
                    }
                    run.state(&w);
                }
            }
        });
        if run.stopped() {
            return;
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn judge(run: &Run, key: &dyn Fn(&str) -> String, req: &Request, sr: &Reg, ar: &Reg, want: &Ans, live: &[B], k: &str, min: u64) {
    let a = quiet(|| sr.handle_register(req));
    let b = quiet(|| block(ar.handle_register_async(req)));
    let now = now_ms();
    for (which, r) in [("sync", a), ("async", b)] {
        let r = match r {
            Err(p) => {
                run.violation(key(&format!("panic {which}")), p);
                continue;
            }
            Ok(r) => r,
        };
        match (want, r) {
            (Ans::Refused, Err(_)) => {}
            (Ans::Refused, Ok(r)) if r.code() >= 300 => {}
            (w, Err(e)) => run.violation(key(&format!("error {which}")), format!("expected {w:?}, got error {e}")),
            (w, Ok(r)) => {
                let code = if *w == Ans::Ok { 200 } else if let Ans::Code(c) = w { *c } else { 0 };
                run.check(r.code() == code, || key(&format!("code {which}")), || format!("expected {w:?}, got {} {}", r.code(), r.reason()));
                if r.code() == 401 {
                    continue;
                }
                if let Err(e) = echoes(req, &r) {
                    run.violation(key(&format!("echo {which}")), e);
                }
                if r.code() == 200 {
                    let mut w: Vec<_> = live.iter().map(|b| (b.contact.clone(), (b.until - now) / 1000, b.q1000)).collect();
                    // a contact with less than a second to live is listed without q
                    w.iter_mut().for_each(|x| {
                        if x.1 == 0 {
                            x.2 = 1000
                        }
                    });
                    w.sort();
                    let g = answer(&r);
                    run.check(g.as_ref() == Some(&w), || key(&format!("contacts {which}")), || format!("{k}\nreference {w:?}\nanswered {g:?} {:?}", r.headers().get_all("Contact").collect::<Vec<_>>()));
                    run.check(r.headers().get("Date").is_some(), || key(&format!("date {which}")), || "no Date".into());
                    if live.iter().any(|b| b.path.is_some()) {
                        let mut w: Vec<&str> = live.iter().filter_map(|b| b.path.as_deref()).collect();
                        w.sort();
                        w.dedup();
                        let mut g: Vec<&str> = r.headers().get_all("Path").collect();
                        g.sort();
                        run.check(g == w, || key(&format!("path {which}")), || format!("paths {w:?} answered {g:?}"));
                    }
                } else if r.code() == 423 {
                    let g: Vec<_> = r.headers().get_all("Min-Expires").collect();
                    run.check(g.len() == 1 && g[0].parse() == Ok(min), || key(&format!("min-expires {which}")), || format!("Min-Expires {g:?}, the minimum is {min}"));
                }
            }
        }
    }
}

/// Every spelling of one contact value and Expires header.
fn values(run: &Run) {
    // (text, uri) with uri None where the value is not a SIP contact
    const FORMS: &[(&str, Option<&str>)] = &[
        ("<sip:x@d>", Some("sip:x@d")), ("sip:x@d", Some("sip:x@d")), ("<sip:x@d;lr;a=1>", Some("sip:x@d;lr;a=1")), ("<sips:x@d:5061>", Some("sips:x@d:5061")), ("<sip:[::1]>", Some("sip:[::1]")),
        ("Bob <sip:x@d>", Some("sip:x@d")), ("\"B\" <sip:x@d>", Some("sip:x@d")), ("\"a, <b>; c\" <sip:x@d>", Some("sip:x@d")), ("\"q\\\"<\" <sip:x@d>", Some("sip:x@d")), ("\"a\\\", b\" <sip:x@d>", Some("sip:x@d")), ("\"b\\\\\" <sip:x@d>", Some("sip:x@d")),
        ("<sip:x,y@d>", Some("sip:x,y@d")), ("\"<sip:evil@e>\" <sip:x@d>", Some("sip:x@d")), ("\"expires=0\" <sip:x@d>", Some("sip:x@d")), ("<sip:x@d;expires=0>", Some("sip:x@d;expires=0")),
        ("<tel:+123>", None), ("<http://x>", None), ("<sip:x@d", None), ("<>", None), ("x", None),
    ];
    // (text, value; None = header default, Some(None) = bad)
    const EXP: &[(&str, Option<Option<u64>>)] = &[
        ("", None), (";expires=0", Some(Some(0))), (";expires=59", Some(Some(59))), (";expires=60", Some(Some(60))), (";EXPIRES=61", Some(Some(61))), ("; expires = 90", Some(Some(90))), (";expires=600", Some(Some(600))), (";expires=601", Some(Some(601))),
        (";expires=4294967296", Some(Some(4294967296))), (";expires=99999999999999999999", Some(None)), (";expires=", Some(None)), (";expires", Some(None)), (";expires=a", Some(None)), (";expires=-1", Some(None)), (";x=\"a;expires=0;b\"", None), (";x=\"a;expires=0;b\";expires=70", Some(Some(70))),
    ];
    const HDR: &[(Option<&str>, Option<u64>)] = &[(None, None), (Some("0"), Some(0)), (Some("100"), Some(100)), (Some("59"), Some(59)), (Some("600"), Some(600)), (Some("601"), Some(601))];
    const Q: &[(&str, Option<u32>)] = &[("", Some(1000)), (";q=0", Some(0)), (";q=0.0", Some(0)), (";Q=0.25", Some(250)), (";q=1.000", Some(1000)), (";q=1.1", None), (";q=a", None), (";q", None)];
    const EXT: &[(&str, Option<&str>, Option<u32>)] = &[("", None, None), (";reg-id=4294967295", None, Some(4294967295)), (";+sip.instance=\"<urn:uuid:1;2,3>\"", Some("\"<urn:uuid:1;2,3>\""), None), (";+sip.instance=\"<u>\";reg-id=1", Some("\"<u>\""), Some(1)), (";a=\"<sip:e@e>\"", None, None), (";reg-id=x", Some("bad"), None), (";reg-id=", Some("bad"), None), (";reg-id=4294967296", Some("bad"), None), (";reg-id=-1", Some("bad"), None), (";+sip.instance", Some("bad"), None), (";b=\"", Some("bad"), None)];
    let cfg = Cfg { min: 60, max: 600, def: 120 };
    product(run, &[FORMS.len(), EXP.len(), HDR.len(), Q.len(), EXT.len()], |ix| {
        run.step(1);
        let ((f, uri), (e, ev), (h, hv), (q, qv), (x, inst, reg)) = (FORMS[ix[0]], EXP[ix[1]], HDR[ix[2]], Q[ix[3]], EXT[ix[4]]);
        vclock::reset();
        let v = format!("{f}{q}{e}{x}");
        let mk = || -> Reg { BasicRegistrar::new(MemoryLocationStore::new(), None).with_min_expires(Duration::from_secs(60)).with_max_expires(Duration::from_secs(600)).with_default_expires(Duration::from_secs(120)) };
        let (sr, ar) = (mk(), mk());
        let mut m = Ref::default();
        // a binding that must survive a refused request, removed or replaced by a valid one
        let first = want(&[("sip:x@d", ""), ("sip:keep@d", "")]);
        m.register(&cfg, "sip:a@h", "c", 1, None, &first, None, None, now_ms());
        let base = [("Via", "SIP/2.0/UDP u;branch=z9hG4bK1"), ("From", "<sip:a@h>;tag=f"), ("To", "<sip:a@h>")];
        let mut hs = base.to_vec();
        hs.extend([("Call-ID", "c"), ("CSeq", "1 REGISTER"), ("Contact", "<sip:x@d>"), ("Contact", "<sip:keep@d>")]);
        let r0 = register(&hs);
        let _ = (sr.handle_register(&r0), block(ar.handle_register_async(&r0)));
        let mut hs = base.to_vec();
        hs.extend([("Call-ID", "c"), ("CSeq", "2 REGISTER"), ("Contact", "<sip:new@d>;expires=80"), ("Contact", v.as_str()), ("User-Agent", "ua/1"), ("Expires", h.unwrap_or(""))]);
        if h.is_none() {
            hs.pop();
        }
        let req = register(&hs);
        let bad = uri.is_none() || ev == Some(None) || qv.is_none() || inst == Some("bad");
        let w = if bad {
            // several things may be wrong at once: any refusal will do
            Ans::Refused
        } else {
            let mut w = want(&[("sip:new@d", ";expires=80")]);
            w.push(Want { uri: uri.unwrap().into(), expires: Some(ev.flatten()), q1000: qv, inst: inst.map(|s| s.into()), reg });
            m.register(&cfg, "sip:a@h", "c", 2, hv, &w, None, Some("ua/1"), now_ms())
        };
        let key = |s: &str| format!("value {s} {v:?} Expires {h:?}");
        judge(run, &key, &req, &sr, &ar, &w, &m.live("sip:a@h", now_ms()), "sip:a@h", cfg.min);
        run.trace();
        let want = sorted(m.live("sip:a@h", now_ms()));
        run.state(&(&v, h));
        for (which, r) in [("sync", &sr), ("async", &ar)] {
            let g = stored(r, "sip:a@h");
            run.check(g == want, || key(&format!("stored {which}")), || format!("reference {want:?}\nstored    {g:?}"));
        }
    });
}

/// Requests missing or repeating headers, odd To and CSeq values, wildcards
/// in bad company, and rate limits: refused and nothing changes.
fn requests(run: &Run) {
    const TO: &[(&str, Option<&str>)] = &[
        ("<sip:a@h>", Some("sip:a@h")), ("sip:a@h", Some("sip:a@h")), ("<sip:a@H:5070>", Some("sip:a@h:5070")), ("<sips:a@h>;tag=q", Some("sips:a@h")), ("<sip:h>", Some("sip:h")),
        ("<tel:+1-23;ext=5>", Some("tel:+123;ext=5")), ("<tel:12;phone-context=EX.org>", Some("tel:12;phone-context=ex.org")), ("<mailto:a@h>", None), ("", None), ("<sip:>", None),
    ];
    const CSEQ: &[(&str, bool)] = &[("5 REGISTER", true), ("5 register", true), ("5 INVITE", false), ("5", false), ("x REGISTER", false), ("", false), ("2147483647 REGISTER", true)];
    // contact lines, Expires, outcome
    const CON: &[(&[&str], Option<&str>, u16)] = &[
        (&["<sip:x@d>"], None, 200), (&[], None, 400), (&["*"], Some("0"), 200), (&["*"], None, 400), (&["*"], Some("5"), 400), (&["*"], Some("x"), 400), (&["*, <sip:x@d>"], Some("0"), 400),
        (&["*", "<sip:x@d>"], Some("0"), 400), (&["*", "*"], Some("0"), 400), (&["<sip:x@d>"], Some("10"), 423), (&["<sip:x@d>"], Some("90000"), 400),
    ];
    const MISS: &[&str] = &["", "Via", "From", "Call-ID", "CSeq", "To"];
    product(run, &[TO.len(), CSEQ.len(), CON.len(), MISS.len(), 2, 2], |ix| {
        run.step(1);
        vclock::reset();
        let ((to, aor), (cseq, cok), (con, exp, code), miss) = (TO[ix[0]], CSEQ[ix[1]], CON[ix[2]], MISS[ix[3]]);
        let limited = ix[4] == 1;
        let path = ix[5] == 1;
        let mk = || -> Reg {
            let l = sip_ratelimit::RateLimiter::new(sip_ratelimit::RateLimitConfig::new(1, 3600).unwrap());
            let r = BasicRegistrar::new(MemoryLocationStore::new(), None);
            if limited { r.with_rate_limiter_key_fn(l, std::sync::Arc::new(|_: &Request| Some("k".into()))) } else { r }
        };
        let (sr, ar) = (mk(), mk());
        let keep = |r: &Reg| {
            if let Some(a) = aor {
                r.location_store().upsert(Binding::new(a.into(), "sip:k@d".into(), Duration::from_secs(100)).unwrap().with_call_id("old".into()).unwrap()).unwrap()
            }
        };
        keep(&sr);
        keep(&ar);
        if limited {
            let r0 = register(&[("Via", "v"), ("From", "f"), ("To", "<sip:z@z>"), ("Call-ID", "c"), ("CSeq", "1 REGISTER"), ("Contact", "<sip:x@d>")]);
            let _ = (sr.handle_register(&r0), block(ar.handle_register_async(&r0)));
        }
        let mut hs = vec![("Via", "SIP/2.0/UDP p;branch=z9hG4bK2"), ("Via", "SIP/2.0/UDP u;branch=z9hG4bK1"), ("From", "<sip:a@h>;tag=f"), ("To", to), ("Call-ID", "n"), ("CSeq", cseq)];
        if path {
            hs.push(("Path", "nonsense<"));
        }
        for c in con {
            hs.push(("Contact", c));
        }
        if let Some(e) = exp {
            hs.push(("Expires", e));
        }
        hs.retain(|(n, _)| *n != miss);
        let req = register(&hs);
        let wild = con.first() == Some(&"*");
        let want = if !miss.is_empty() && miss != "To" {
            400
        } else if limited {
            503
        } else if aor.is_none() || !cok || miss == "To" || (path && code != 400 && !wild) {
            400
        } else {
            code
        };
        let key = |s: &str| format!("request {s} To {to:?} CSeq {cseq:?} {con:?} Expires {exp:?} without {miss:?} limited {limited} path {path}");
        let Some(a) = aor else {
            judge(run, &key, &req, &sr, &ar, &Ans::Code(want), &[], "", 60);
            return;
        };
        let old = stored(&sr, a);
        let mut new = old.clone();
        if want == 200 {
            if wild {
                new.clear()
            } else {
                let num = cseq.split(' ').next().unwrap().parse().unwrap();
                new.push(B { contact: "sip:x@d".into(), until: now_ms() + 3_600_000, call: "n".into(), cseq: num, q1000: 1000, inst: None, reg: None, path: None, ua: None });
            }
        }
        judge(run, &key, &req, &sr, &ar, &if want == 200 { Ans::Ok } else { Ans::Code(want) }, &new, a, 60);
        run.trace();
        run.state(&ix.to_vec());
        for (which, r) in [("sync", &sr), ("async", &ar)] {
            let g = stored(r, a);
            run.check(g == sorted(new.clone()), || key(&format!("stored {which}")), || format!("reference {new:?}\nstored    {g:?}"));
        }
    });
}

/// With an authenticator, only the verified owner of the address changes it.
fn auth(run: &Run) {
    const AOR: &[(&str, &str, Option<&str>)] = &[
        ("<sip:alice@h>", "sip:alice@h", Some("alice")), ("<sip:Alice@h>", "sip:Alice@h", Some("alice")), ("<sips:alice@h:5061>", "sips:alice@h:5061", Some("alice")), ("<sip:h>", "sip:h", None), ("<tel:+1-23>", "tel:+123", Some("+123")),
        ("<tel:+123;ext=alice>", "tel:+123;ext=alice", Some("+123")), ("<sip:al%69ce@h>", "sip:alice@h", Some("alice")), ("<sip:bob@alice>", "sip:bob@alice", Some("bob")), ("<sip:alice:bob@h>", "sip:alice:bob@h", Some("alice:bob")), ("<sip:\u{c9}@h>", "sip:\u{c9}@h", Some("\u{c9}")),
        ("<sip:\u{e9}@h>", "sip:\u{e9}@h", Some("\u{e9}")), ("<sip:e\u{301}@h>", "sip:e\u{301}@h", Some("\u{e9}")), ("<sip:\u{430}lice@h>", "sip:\u{430}lice@h", Some("\u{430}lice")),
    ];
    const USERS: &[&str] = &["", "bad", "stale", "nobody", "alice", "ALICE", "bob", "+123", "h", "\u{e9}", "+123;ext=alice", "alice@h", "alice@g", "alice:bob", "\u{c9}", "\u{430}lice", "123"];
    product(run, &[AOR.len(), USERS.len(), 3], |ix| {
        run.step(1);
        vclock::reset();
        let ((to, aor, owner), user, kind) = (AOR[ix[0]], USERS[ix[1]], ix[2]);
        let mk = || -> Reg { BasicRegistrar::new(MemoryLocationStore::new(), Some(NoAuth)) };
        let (sr, ar) = (mk(), mk());
        for r in [&sr, &ar] {
            r.location_store().upsert(Binding::new(aor.into(), "sip:k@d".into(), Duration::from_secs(100)).unwrap()).unwrap();
        }
        let mut hs = vec![("Via", "SIP/2.0/UDP u;branch=z9hG4bK1"), ("From", "<sip:alice@h>;tag=f"), ("To", to), ("Call-ID", "n"), ("CSeq", "1 REGISTER")];
        if !user.is_empty() {
            hs.push(("X-User", user));
        }
        match kind {
            0 => hs.push(("Contact", "<sip:x@d>")),
            1 => hs.extend([("Contact", "*"), ("Expires", "0")]),
            _ => hs.extend([("Contact", "<sip:k@d>;expires=0")]),
        }
        let req = register(&hs);
        let nfc = |s: &str| s.replace("e\u{301}", "\u{e9}").to_ascii_lowercase();
        let want = if user.is_empty() || user == "bad" || user == "stale" {
            Ans::Code(401)
        } else if user != "nobody" && owner.is_some_and(|o| nfc(o) == nfc(user)) {
            Ans::Ok
        } else {
            Ans::Code(403)
        };
        let mut new = stored(&sr, aor);
        if want == Ans::Ok {
            match kind {
                0 => new.push(B { contact: "sip:x@d".into(), until: now_ms() + 3_600_000, call: "n".into(), cseq: 1, q1000: 1000, inst: None, reg: None, path: None, ua: None }),
                _ => new.clear(),
            }
        }
        let key = |s: &str| format!("auth {s} To {to:?} user {user:?} kind {kind}");
        judge(run, &key, &req, &sr, &ar, &want, &new, aor, 60);
        if want == Ans::Code(401) {
            for r in [sr.handle_register(&req), block(ar.handle_register_async(&req))].into_iter().flatten() {
                run.check((r.reason() == "stale") == (user == "stale"), || key("stale"), || format!("challenge {:?}", r.reason()));
            }
        }
        run.trace();
        for (which, r) in [("sync", &sr), ("async", &ar)] {
            let g = stored(r, aor);
            run.check(g == sorted(new.clone()), || key(&format!("stored {which}")), || format!("reference {new:?}\nstored    {g:?}"));
        }
    });
}

/// Around the limit of bindings per address.
fn full(run: &Run) {
    let adds: &[&[(&str, &str)]] = &[
        &[("sip:n1@d", "")], &[("sip:n1@d", ""), ("sip:n2@d", "")], &[("sip:c0@d", ";expires=0"), ("sip:n1@d", "")], &[("sip:n1@d", ""), ("sip:c0@d", ";expires=0")],
        &[("sip:c1@d", ";expires=500")], &[("sip:c1@d", ";expires=500"), ("sip:n1@d", ""), ("sip:n2@d", ""), ("sip:n3@d", "")],
    ];
    product(run, &[5, adds.len(), 3], |ix| {
        run.step(1);
        vclock::reset();
        let (have, add, aged) = (17 + ix[0], adds[ix[1]], ix[2]);
        if have > 20 {
            return;
        }
        let mk = || -> Reg { BasicRegistrar::new(MemoryLocationStore::new(), None) };
        let (sr, ar) = (mk(), mk());
        let mut m = Ref::default();
        let cfg = Cfg { min: 60, max: 86400, def: 3600 };
        let send = |cs: &[(&str, &str)], n: u32| {
            let c = format!("{n} REGISTER");
            let l: Vec<String> = cs.iter().map(|(u, p)| format!("<{u}>{p}")).collect();
            let mut hs = vec![("Via", "SIP/2.0/UDP u;branch=z9hG4bK1"), ("From", "<sip:a@h>;tag=f"), ("To", "<sip:a@h>"), ("Call-ID", "c"), ("CSeq", c.as_str())];
            hs.extend(l.iter().map(|l| ("Contact", l.as_str())));
            register(&hs)
        };
        let names: Vec<String> = (0..have).map(|i| format!("sip:c{i}@d")).collect();
        let first: Vec<(&str, &str)> = names.iter().enumerate().map(|(i, n)| (n.as_str(), if i < 2 { ";expires=60" } else { "" })).collect();
        let key = |s: &str| format!("full {s} have {have} add {add:?} aged {aged}");
        let w = m.register(&cfg, "sip:a@h", "c", 1, None, &want(&first), None, None, now_ms());
        judge(run, &key, &send(&first, 1), &sr, &ar, &w, &m.live("sip:a@h", now_ms()), "sip:a@h", cfg.min);
        vclock::advance_ms([0, 59_999, 60_000][aged]);
        let w = m.register(&cfg, "sip:a@h", "c", 2, None, &want(add), None, None, now_ms());
        judge(run, &key, &send(add, 2), &sr, &ar, &w, &m.live("sip:a@h", now_ms()), "sip:a@h", cfg.min);
        run.trace();
        let want = sorted(m.live("sip:a@h", now_ms()));
        run.state(&want);
        for (which, r) in [("sync", &sr), ("async", &ar)] {
            let g = stored(r, "sip:a@h");
            run.check(g == want, || key(&format!("stored {which}")), || format!("reference {want:?}\nstored    {g:?}"));
        }
    });
}

/// Addresses that are the same share bindings; different ones do not.
fn aors(run: &Run) {
    // (text, class)
    const A: &[(&str, u32)] = &[
        ("sip:a@h", 0), ("sip:a@H", 0), ("SIP:a@h", 0), ("sip:a@h;transport=tcp", 0), ("sip:a@h?x=1", 0), ("sip:%61@h", 0), ("sip:a@h;x;y=2", 0), ("sip:A@h", 1), ("sips:a@h", 2), ("sip:a@h:5060", 3), ("sip:a@g", 4), ("sip:h", 5), ("sip:b@h", 6), ("sip:a:pw@h", 18), ("sip:a@h.", 19),
        ("tel:+123", 7), ("tel:+1-2.3", 7), ("TEL:+(1)23", 7), ("tel:+123;ext=1", 8), ("tel:+123;ext=1;isub=2", 9), ("tel:+123;isub=2;ext=1", 9), ("tel:+1-23;EXT=1", 8), ("tel:123;phone-context=a.b", 10), ("tel:1-23;phone-context=A.B", 10),
        ("tel:123;phone-context=+1-2", 11), ("tel:123;phone-context=+12", 11), ("tel:123;phone-context=a.c", 12), ("tel:*12;phone-context=a.b", 20), ("tel:12;phone-context=a.b", 21), ("tel:12#;phone-context=a.b", 22), ("tel:+12.3;isub=2;EXT=1", 9), ("tel:123;phone-context=a.b;ext=1", 23), ("tel:123;ext=1;phone-context=A.b", 23), ("sip:+123@h", 13), ("sip:[::1]", 14), ("sip:a@[::1]", 15), ("sip:a@[::1]:5060", 16), ("sip:a@[::1:5060]", 17),
    ];
    product(run, &[A.len(), A.len()], |ix| {
        run.step(1);
        run.trace();
        let (a, b) = (A[ix[0]], A[ix[1]]);
        let n = |s: &str| Uri::parse(s).ok().and_then(|u| normalize_aor(&u).ok());
        let (x, y) = (n(a.0), n(b.0));
        let key = || format!("aor {} {}", a.0, b.0);
        run.check(x.is_some() && y.is_some() && (x == y) == (a.1 == b.1), key, || format!("{x:?} {y:?}"));
        if let Some(x) = x {
            // a stored key names the same address again
            run.check(n(&x) == Some(x.clone()), || format!("aor again {}", a.0), || format!("{x} -> {:?}", n(&x)));
        }
    });
}

/// Path, Service-Route and Supported in the answer, for every way two
/// registrations of one address spread their Path values.
fn extensions(run: &Run) {
    use sip_core::ServiceRouteHeader;
    const PATHS: &[&[&str]] = &[&[], &["<sip:p@e;lr>"], &["<sip:p@e;lr>", "<sip:q@e;lr>"], &["<sip:p@e;lr>, <sip:q@e;lr>"], &["<sip:q@e;lr>", "<sip:p@e;lr>"], &["<sip:p@e;lr>", "nonsense<"], &["nonsense<", "<sip:p@e;lr>"]];
    const SR: &[&str] = &["", "<sip:s@e;lr>", "<sip:s@e;lr>, <sip:t@e;lr>"];
    const REMOVE: &[&str] = &["", "<sip:x@d>;expires=0", "*"];
    product(run, &[PATHS.len(), PATHS.len(), SR.len(), 2, REMOVE.len()], |ix| {
        run.step(1);
        vclock::reset();
        let (paths, sr, adv, rem) = ([PATHS[ix[0]], PATHS[ix[1]]], SR[ix[2]], ix[3] == 1, REMOVE[ix[4]]);
        let mk = || -> Reg {
            let mut r = BasicRegistrar::new(MemoryLocationStore::new(), None).with_advertise_outbound_and_path(adv);
            if !sr.is_empty() {
                let mut h = Headers::new();
                h.push("Service-Route", sr).unwrap();
                r = r.with_service_route(sip_parse::parse_service_route(&h).unwrap_or_else(|e| panic!("{e:?}")) as ServiceRouteHeader);
            }
            r
        };
        let (s, a) = (mk(), mk());
        // (contact, path) of what is stored
        let mut held: Vec<(String, Vec<&str>)> = vec![];
        let key = |n: usize, s: &str| format!("extension {s} {paths:?} route {sr:?} advertise {adv} then {rem:?} request {n}");
        let text = |v: &str| v.split(',').map(|x| x.trim().to_string()).collect::<Vec<_>>();
        for n in 0..3 {
            let cs = format!("{} REGISTER", n + 1);
            let mut hs = vec![("Via", "SIP/2.0/UDP u;branch=z9hG4bK1"), ("From", "<sip:a@h>;tag=f"), ("To", "<sip:a@h>"), ("Call-ID", "c"), ("CSeq", cs.as_str())];
            let contact = if n == 2 { rem } else { ["<sip:x@d>", "<sip:y@d>"][n] };
            if contact.is_empty() {
                continue;
            }
            hs.push(("Contact", contact));
            let mut bad = false;
            if n < 2 {
                hs.extend(paths[n].iter().map(|p| ("Path", *p)));
                bad = paths[n].contains(&"nonsense<");
                if !bad {
                    held.push((contact.trim_matches(['<', '>']).into(), paths[n].to_vec()));
                }
            } else if contact == "*" {
                hs.push(("Expires", "0"));
                held.clear();
            } else {
                held.retain(|(c, _)| c != "sip:x@d");
            }
            let req = register(&hs);
            for (which, r) in [("sync", quiet(|| s.handle_register(&req))), ("async", quiet(|| block(a.handle_register_async(&req))))] {
                let Ok(Ok(r)) = r else {
                    run.violation(key(n, which), format!("{:?}", r.map(|x| x.map(|r| r.code()).map_err(|e| e.to_string()))));
                    continue;
                };
                run.check(r.code() == if bad { 400 } else { 200 }, || key(n, &format!("code {which}")), || format!("{} {}", r.code(), r.reason()));
                if r.code() != 200 || contact == "*" {
                    continue;
                }
                let all = |n: &str| -> Vec<String> { r.headers().get_all(n).flat_map(text).collect() };
                let want: Vec<String> = if sr.is_empty() { vec![] } else { text(sr) };
                run.check(all("Service-Route") == want, || key(n, &format!("service-route {which}")), || format!("{:?}", all("Service-Route")));
                let mut sup = all("Supported");
                sup.sort();
                run.check(sup == if adv { vec!["outbound", "path"] } else { vec![] }, || key(n, &format!("supported {which}")), || format!("{sup:?}"));
                let mut want: Vec<Vec<String>> = held.iter().filter(|h| !h.1.is_empty()).map(|h| h.1.iter().flat_map(|p| text(p)).collect()).collect();
                want.sort();
                want.dedup();
                let mut got: Vec<Vec<String>> = r.headers().get_all("Path").map(text).collect();
                got.sort();
                run.check(got == want, || key(n, &format!("path {which}")), || format!("bindings hold {want:?}, answered {got:?}"));
            }
            for (which, r) in [("sync", &s), ("async", &a)] {
                let mut got: Vec<(String, Vec<String>)> = r.location_store().lookup("sip:a@h").unwrap().iter().map(|b| (b.contact().to_string(), b.path().map(|p| text(&p.to_string())).unwrap_or_default())).collect();
                got.sort();
                let mut want: Vec<(String, Vec<String>)> = held.iter().map(|(c, p)| (c.clone(), p.iter().flat_map(|p| text(p)).collect())).collect();
                want.sort();
                run.check(got == want, || key(n, &format!("stored {which}")), || format!("expected {want:?}, stored {got:?}"));
            }
        }
        run.trace();
        run.state(&ix.to_vec());
    });
}

/// Expiry limits other than the defaults, with every place an expiry comes from.
fn limits(run: &Run) {
    const CFG: &[(u64, u64, u64)] = &[(60, 86400, 3600), (120, 600, 300), (120, 120, 120), (3600, 86400, 7200), (61, 62, 61), (60, 600, 3600), (120, 600, 60)];
    const E: &[u64] = &[0, 1, 59, 60, 61, 62, 63, 119, 120, 121, 600, 601, 3599, 3600, 7200, 86400, 86401];
    product(run, &[CFG.len(), E.len() + 1, E.len() + 1], |ix| {
        run.step(1);
        vclock::reset();
        let (min, max, def) = CFG[ix[0]];
        let cfg = Cfg { min, max, def };
        let (pe, he) = (E.get(ix[1]).copied(), E.get(ix[2]).copied());
        let mk = || -> Reg { BasicRegistrar::new(MemoryLocationStore::new(), None).with_min_expires(Duration::from_secs(min)).with_max_expires(Duration::from_secs(max)).with_default_expires(Duration::from_secs(def)) };
        let (sr, ar) = (mk(), mk());
        let mut m = Ref::default();
        let (c, h) = (format!("<sip:x@d>{}", pe.map(|e| format!(";expires={e}")).unwrap_or_default()), he.map(|e| e.to_string()));
        let mut hs = vec![("Via", "SIP/2.0/UDP u;branch=z9hG4bK1"), ("From", "<sip:a@h>;tag=f"), ("To", "<sip:a@h>"), ("Call-ID", "c"), ("CSeq", "1 REGISTER"), ("Contact", c.as_str())];
        if let Some(h) = &h {
            hs.push(("Expires", h));
        }
        let w = m.register(&cfg, "sip:a@h", "c", 1, he, &[Want { uri: "sip:x@d".into(), expires: Some(pe), q1000: None, inst: None, reg: None }], None, None, now_ms());
        let key = |s: &str| format!("limits {s} min {min} max {max} default {def} contact {pe:?} header {he:?}");
        judge(run, &key, &register(&hs), &sr, &ar, &w, &m.live("sip:a@h", now_ms()), "sip:a@h", min);
        run.trace();
        let want = sorted(m.live("sip:a@h", now_ms()));
        run.state(&want);
        for (which, r) in [("sync", &sr), ("async", &ar)] {
            let g = stored(r, "sip:a@h");
            run.check(g == want, || key(&format!("stored {which}")), || format!("reference {want:?}\nstored    {g:?}"));
        }
    });
}
