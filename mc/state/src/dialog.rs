//! P12: dialogs formed and advanced by both ends. P13: the registries they are
//! kept in (their interleavings: mc/conc). P14: reliable provisional responses.
use crate::auth::block;
use bytes::Bytes;
use common::{par_for, permutations, product, sequences, vclock, Run};
use sip_core::{Method, RefresherRole, Request, Response, SipUri};
use sip_dialog::prack_validator::*;
use sip_dialog::storage::*;
use sip_dialog::*;
use smol_str::SmolStr;
use std::time::Duration;

pub fn req(text: &str) -> Request {
    sip_parse::parse_request(&Bytes::copy_from_slice(text.as_bytes())).unwrap_or_else(|| panic!("harness request does not parse: {text}"))
}
pub fn res(text: &str) -> Response {
    sip_parse::parse_response(&Bytes::copy_from_slice(text.as_bytes())).unwrap_or_else(|| panic!("harness response does not parse: {text}"))
}
fn uri(s: &str) -> SipUri {
    SipUri::parse(s).unwrap()
}

// ------------------------------------------------------------ creating exchange

const METHODS: [&str; 2] = ["INVITE", "SUBSCRIBE"];
/// From value, its tag
const FROMS: [(&str, Option<&str>); 7] = [
    ("<sip:alice@a.example>;tag=fa1", Some("fa1")),
    ("\"A \\\"<;tag=no>,\\\" B\" <sip:alice@a.example;tag=uri> ; x=1 ; TAG = fA2", Some("fA2")),
    ("sip:alice@a.example;tag=fa3;y=\"tag=z\"", Some("fa3")),
    ("Alice <sip:alice@a.example;tag=uri>;x=\";tag=q\";tag=fa4", Some("fa4")),
    ("<sip:alice@a.example>", None),
    ("<sip:alice@a.example>;tagg=zz;tag=fa1", Some("fa1")),
    ("\"A;tag=no\\\\\" <sip:alice@a.example>;x=\"\\\\\";tag=fa5", Some("fa5")),
];
const TO_TAGS: [(&str, Option<&str>); 4] = [(";tag=tb1", Some("tb1")), ("", None), (";x=\";tag=no\" ; Tag=TB2", Some("TB2")), (";tag=fa1", Some("fa1"))];
const TOS: [&str; 2] = ["<sip:bob@b.example>", "\"B, <sip:x@y>;tag=no\" <sip:bob@b.example>"];
/// Contact value and the URI it names
const CONTACTS: [(Option<&str>, Option<&str>); 8] = [
    (Some("<sip:a1@10.0.0.1:5070;transport=tcp>"), Some("sip:a1@10.0.0.1:5070;transport=tcp")),
    (Some("sip:a2@10.0.0.2;expires=5"), Some("sip:a2@10.0.0.2")),
    (Some("\"<sip:no@no>\" <sip:a3@10.0.0.3;lr>;q=0.5"), Some("sip:a3@10.0.0.3;lr")),
    (Some("\"q \\\" <sip:no@no>, x\" <sips:a4@[2001:db8::1]:5061>"), Some("sips:a4@[2001:db8::1]:5061")),
    (None, None),
    (Some("A B <sip:a5@10.0.0.5>;x=\"<sip:no@no>\""), Some("sip:a5@10.0.0.5")),
    (Some("*"), None),
    (Some("\"q <sip:no@no>\\\\\" <sip:a6@10.0.0.6>;x=\"<sip:no@no>\\\\\""), Some("sip:a6@10.0.0.6")),
];
/// Record-Route header lines, and the routes from top to bottom
const ROUTES: [(&[&str], &[&str]); 7] = [
    (&[], &[]),
    (&["<sip:p1.example;lr>"], &["sip:p1.example;lr"]),
    (&["<sip:p1.example;lr>", "<sip:p2.example:5080;lr;x=y>"], &["sip:p1.example;lr", "sip:p2.example:5080;lr;x=y"]),
    (&["<sip:p1.example;lr>,<sip:p2.example;lr> , <sip:p3.example>"], &["sip:p1.example;lr", "sip:p2.example;lr", "sip:p3.example"]),
    (&["\"a, <b>\" <sip:p1.example;lr>;ext=\"x,y\"", "<sip:u%2Cv@p2.example;lr>,<sip:p3.example;lr>"], &["sip:p1.example;lr", "sip:u%2Cv@p2.example;lr", "sip:p3.example;lr"]),
    (&["<sip:p1.example;lr>", "<sip:p1.example;lr>"], &["sip:p1.example;lr", "sip:p1.example;lr"]),
    (&["\"q \\\" ,<sip:no@no>\" <sips:p1.example;lr>, <sip:p2.example;lr>"], &["sips:p1.example;lr", "sip:p2.example;lr"]),
];
const CODES: [u16; 14] = [100, 101, 180, 183, 199, 200, 202, 299, 300, 302, 404, 486, 500, 699];
const CSEQS: [(u64, bool); 4] = [(1, true), (2_147_483_647, true), (77, true), (10_000, true)];
/// Session-Expires header, what it yields, and whether it is within bounds
const TIMERS: [(Option<&str>, Option<(u64, Option<RefresherRole>)>, bool); 7] = [
    (None, None, true),
    (Some("1800;refresher=uas"), Some((1800, Some(RefresherRole::Uas))), true),
    (Some("90;refresher=UAC"), Some((90, Some(RefresherRole::Uac))), true),
    (Some("86400"), Some((86400, None)), true),
    (Some("89;refresher=uac"), None, false),
    (Some("86401"), None, false),
    (Some("soon"), None, true),
];

fn head(compact: bool, long: &str) -> &str {
    if !compact {
        return long;
    }
    match long {
        "From" => "f",
        "To" => "t",
        "Call-ID" => "i",
        "Contact" => "m",
        "Via" => "v",
        "Session-Expires" => "x",
        l => l,
    }
}

fn creating(run: &Run) {
    // a proxy of an older kind records itself in one of the messages only
    let apart = |v: &[usize], a: usize, b: usize| {
        let t = |start: &str, i: usize, r: usize| {
            let lines: String = ROUTES[r].0.iter().map(|x| format!("Record-Route: {x}\r\n")).collect();
            format!("{start}\r\nVia: SIP/2.0/UDP 10.0.0.1;branch=z9hG4bKx\r\nMax-Forwards: 70\r\n{lines}From: <sip:alice@a.example>;tag=fa\r\nTo: <sip:bob@b.example>{}\r\nCall-ID: c\r\nCSeq: 1 INVITE\r\nContact: <sip:x@10.0.0.{i}>\r\nContent-Length: 0\r\n\r\n", ["", ";tag=tb"][i])
        };
        let (rq, rs) = (t("INVITE sip:bob@b.example SIP/2.0", 0, a), t(&format!("SIP/2.0 {} X", [183, 200][v[2]]), 1, b));
        let key = || format!("exchange\n{rq}\n{rs}");
        let (au, bu) = (uri("sip:alice@a.example"), uri("sip:bob@b.example"));
        let show = |d: Option<Dialog>| d.map(|d| d.route_set().iter().map(|u| u.as_str().to_string()).collect::<Vec<_>>());
        let c = show(Dialog::new_uac(&req(&rq), &res(&rs), au.clone(), bu.clone()));
        let mut up: Vec<String> = ROUTES[b].1.iter().map(|r| r.to_string()).collect();
        up.reverse();
        run.check(c == Some(up.clone()), key, || format!("caller's routes {c:?}, expected {up:?}"));
        let s = show(Dialog::new_uas(&req(&rq), &res(&rs), bu, au));
        let down: Vec<String> = ROUTES[a].1.iter().map(|r| r.to_string()).collect();
        run.check(s == Some(down.clone()), key, || format!("callee's routes {s:?}, expected {down:?}"));
        run.state(&("apart", v));
        run.step(2);
        run.trace();
    };
    product(run, &[ROUTES.len(), ROUTES.len(), 2], |v| apart(v, v[0], v[1]));
    let dims = [METHODS.len(), FROMS.len(), TOS.len(), TO_TAGS.len(), CONTACTS.len(), CONTACTS.len(), ROUTES.len(), CODES.len(), 2, 2];
    let go = |v: &[usize], cseq: u64, timer: usize, secure: usize| {
        let (m, (from, ftag), to, (ttag_text, ttag)) = (METHODS[v[0]], FROMS[v[1]], TOS[v[2]], TO_TAGS[v[3]]);
        let ((rq_contact, rq_target), (rs_contact, rs_target)) = (CONTACTS[v[4]], CONTACTS[v[5]]);
        let ((rr, routes), code, compact) = (ROUTES[v[6]], CODES[v[7]], v[8] == 1);
        let (se, timer_val, timer_ok) = TIMERS[timer];
        let h = |n: &str| head(compact, n).to_string();
        let mut a = format!("{m} sip:bob@b.example SIP/2.0\r\n{}: SIP/2.0/UDP 10.0.0.1;branch=z9hG4bKx\r\nMax-Forwards: 70\r\n", h("Via"));
        let mut b = format!("SIP/2.0 {code} X\r\n{}: SIP/2.0/UDP 10.0.0.1;branch=z9hG4bKx\r\n", h("Via"));
        for (i, t) in [&mut a, &mut b].into_iter().enumerate() {
            for r in rr {
                t.push_str(&format!("Record-Route: {r}\r\n"));
            }
            t.push_str(&format!("{}: {from}\r\n{}: {to}{}\r\n{}: c@a.example\r\nCSeq: {cseq} {m}\r\n", h("From"), h("To"), if i == 1 { ttag_text } else { "" }, h("Call-ID")));
            if let Some(c) = if i == 0 { rq_contact } else { rs_contact } {
                t.push_str(&format!("{}: {c}\r\n", h("Contact")));
            }
            if let (1, Some(s)) = (i, se) {
                t.push_str(&format!("{}: {s}\r\n", h("Session-Expires")));
            }
            t.push_str("Content-Length: 0\r\n\r\n");
        }
        let (rq, rs) = (req(&a), res(&b));
        let (au, bu) = if secure == 1 { (uri("sips:alice@a.example"), uri("sip:bob@b.example")) } else if secure == 2 { (uri("sip:alice@a.example"), uri("sips:bob@b.example")) } else { (uri("sip:alice@a.example"), uri("sip:bob@b.example")) };
        let uac = Dialog::new_uac(&rq, &rs, au.clone(), bu.clone());
        let uas = Dialog::new_uas(&rq, &rs, bu.clone(), au.clone());
        let state = match code {
            101..=199 => Some(DialogStateType::Early),
            200..=299 => Some(DialogStateType::Confirmed),
            _ => None,
        };
        let exists = state.is_some() && ftag.is_some() && ttag.is_some() && cseq >= 1 && cseq <= 2_147_483_647;
        let key = || format!("exchange\n{a}\n{b}");
        run.state(&(v, cseq, timer, secure));
        run.step(2);
        run.trace();
        let want = |local: &str, remote: &str, target: &str, routes: Vec<String>, l: u32, r: u32, lu: &SipUri, ru: &SipUri, uac: bool| format!("c@a.example {local} {remote} {:?} target {target} routes {routes:?} cseq {l} {r} uris {} {} secure {} timer {:?} uac {uac}", state.unwrap(), lu.as_str(), ru.as_str(), secure != 0, timer_val);
        let got = |d: &Dialog| {
            let s = d.id();
            format!("{} {} {} {:?} target {} routes {:?} cseq {} {} uris {} {} secure {} timer {:?} uac {}", s.call_id(), s.local_tag(), s.remote_tag(), d.state(), d.remote_target().as_str(), d.route_set().iter().map(|u| u.as_str().to_string()).collect::<Vec<_>>(), d.local_cseq(), d.remote_cseq(), d.local_uri().as_str(), d.remote_uri().as_str(), d.secure(), d.session_expires().map(|e| (e.as_secs(), d.refresher())), d.is_uac())
        };
        if exists && !timer_ok && (uac.is_none() || uas.is_none()) {
            // an interval out of bounds may be refused or left out, never adopted
            run.check(uac.is_none() && uas.is_none(), key, || "one end has a dialog and the other has none".to_string());
            return;
        }
        if !exists {
            run.check(uac.is_none(), key, || "the caller has a dialog though none was formed".to_string());
            run.check(uas.is_none(), key, || "the callee has a dialog though none was formed".to_string());
            return;
        }
        let (f, t) = (ftag.unwrap(), ttag.unwrap());
        let down: Vec<String> = routes.iter().map(|r| r.to_string()).collect();
        let up: Vec<String> = down.iter().rev().cloned().collect();
        let w = want(f, t, rs_target.map(uri).unwrap_or(bu.clone()).as_str(), up, cseq as u32, 0, &au, &bu, true);
        let g = uac.as_ref().map(got).unwrap_or_default();
        run.check(g == w, key, || format!("caller's dialog\n got {g}\nwant {w}"));
        let w = want(t, f, rq_target.map(uri).unwrap_or(au.clone()).as_str(), down, 0, cseq as u32, &bu, &au, false);
        let g = uas.as_ref().map(got).unwrap_or_default();
        run.check(g == w, key, || format!("callee's dialog\n got {g}\nwant {w}"));
        // the two ends recognise each other's requests and not their own
        if let (Some(x), Some(y)) = (uac, uas) {
            for (from, to, n) in [(&x, &y, "caller"), (&y, &x, "callee")] {
                let r = in_dialog(from, "BYE", 5, None);
                let same_tags = f == t;
                run.check(to.matches_request(&r) && (same_tags || !from.matches_request(&r)), key, || format!("a BYE of the {n} is not matched by the other end only"));
                // nor those of a call that differs in the case of an identifier
                for (call, ft, tt, what) in [
                    ("C@a.example".to_string(), from.id().local_tag().to_string(), from.id().remote_tag().to_string(), "Call-ID"),
                    ("c@a.example".to_string(), swap_case(from.id().local_tag()), from.id().remote_tag().to_string(), "From tag"),
                    ("c@a.example".to_string(), from.id().local_tag().to_string(), swap_case(from.id().remote_tag()), "To tag"),
                ] {
                    let o = req(&format!("BYE sip:x@h SIP/2.0\r\nVia: SIP/2.0/UDP 10.0.0.9;branch=z9hG4bKy\r\nMax-Forwards: 70\r\nFrom: <sip:x@h>;tag={ft}\r\nTo: <sip:y@h>;tag={tt}\r\nCall-ID: {call}\r\nCSeq: 5 BYE\r\nContent-Length: 0\r\n\r\n"));
                    let mgr = DialogManager::new();
                    mgr.insert(to.clone()).unwrap();
                    run.check(!to.matches_request(&o) && mgr.find_by_request(&o).is_none(), key, || format!("a request with another {what} matches"));
                }
                let mgr = DialogManager::new();
                mgr.insert(to.clone()).unwrap();
                run.check(mgr.find_by_request(&r).map(|d| d.id().clone()) == Some(to.id().clone()), key, || format!("the {n}'s BYE is not found"));
            }
        }
    };
    // every pair of dimensions and more: identifiers; targets and routes
    let id_dims = [dims[0], dims[1], dims[2], dims[3], dims[7], 2];
    product(run, &id_dims, |v| go(&[v[0], v[1], v[2], v[3], 0, 0, 2, v[4], v[5]], 1, 0, 0));
    product(run, &[dims[4], dims[5], dims[6], dims[7], 2], |v| go(&[0, 0, 0, 0, v[0], v[1], v[2], v[3], v[4]], 1, 0, 0));
    product(run, &[CSEQS.len(), TIMERS.len(), 3, CODES.len(), 2], |v| go(&[v[4], 0, 0, 0, 0, 0, 1, v[3], 0], CSEQS[v[0]].0, v[1], v[2]));
    if run.thorough() {
        product(run, &[dims[0], dims[1], dims[2], dims[3], dims[4], dims[5], dims[6], 6, 2], |v| go(&[v[0], v[1], v[2], v[3], v[4], v[5], v[6], [2, 5, 9, 10, 0, 4][v[7]], v[8]], 1, 0, 0));
    }
}

fn swap_case(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
fn in_dialog(d: &Dialog, method: &str, cseq: u64, contact: Option<&str>) -> Request {
    let c = contact.map(|c| format!("Contact: {c}\r\n")).unwrap_or_default();
    req(&format!("{method} {} SIP/2.0\r\nVia: SIP/2.0/UDP 10.0.0.9;branch=z9hG4bKy\r\nMax-Forwards: 70\r\nFrom: <{}>;tag={}\r\nTo: <{}>;tag={}\r\nCall-ID: {}\r\nCSeq: {cseq} {method}\r\n{c}Content-Length: 0\r\n\r\n", d.remote_target().as_str(), d.local_uri().as_str(), d.id().local_tag(), d.remote_uri().as_str(), d.id().remote_tag(), d.id().call_id()))
}

// ------------------------------------------------------------ in-dialog histories

#[derive(Clone, Copy, Debug)]
enum Op {
    /// request from the peer: method, sequence number relative to the last one, with a Contact
    Req(&'static str, i64, bool),
    /// response to a request of ours: code, method, Contact, Record-Route, Session-Expires
    Res(u16, &'static str, bool, bool, usize),
    Next,
    Confirm,
    Terminate,
}
const OPS: &[Op] = &[
    Op::Req("INVITE", 1, true),
    Op::Req("UPDATE", 1, true),
    Op::Req("BYE", 1, false),
    Op::Req("ACK", 0, true),
    Op::Req("PRACK", 1, false),
    Op::Req("INFO", 1, true),
    Op::Req("NOTIFY", 2, true),
    Op::Req("INVITE", 0, true),
    Op::Req("UPDATE", -1, true),
    Op::Req("OPTIONS", 1000, true),
    Op::Req("INVITE", 1001, true),
    Op::Req("ACK", -1, false),
    Op::Req("ACK", 1, false),
    Op::Res(200, "INVITE", true, true, 1),
    Op::Res(183, "INVITE", true, true, 0),
    Op::Res(200, "UPDATE", true, false, 2),
    Op::Res(200, "BYE", true, true, 0),
    Op::Res(302, "INVITE", true, true, 0),
    Op::Res(488, "INVITE", true, true, 1),
    Op::Res(200, "INVITE", false, false, 4),
    Op::Next,
    Op::Confirm,
    Op::Terminate,
];
#[derive(Clone, Debug, PartialEq, Hash)]
struct M {
    state: u8,
    target: String,
    routes: Vec<String>,
    l: u64,
    r: u64,
    invite: u64,
    timer: Option<(u64, Option<bool>)>,
}
fn see(d: &Dialog, invite: u64) -> M {
    M {
        state: match d.state() {
            DialogStateType::Early => 0,
            DialogStateType::Confirmed => 1,
            DialogStateType::Terminated => 2,
        },
        target: d.remote_target().as_str().to_string(),
        routes: d.route_set().iter().map(|u| u.as_str().to_string()).collect(),
        l: d.local_cseq() as u64,
        r: d.remote_cseq() as u64,
        invite,
        timer: d.session_expires().map(|e| (e.as_secs(), d.refresher().map(|r| r == RefresherRole::Uac))),
    }
}
fn start(which: usize) -> (Dialog, u64, &'static str) {
    let (code, name) = [(183, "caller early"), (200, "caller confirmed"), (183, "callee early"), (200, "callee confirmed")][which];
    let rr = "Record-Route: <sip:p1.example;lr>\r\nRecord-Route: <sip:p2.example;lr>\r\n";
    let rq = req(&format!("INVITE sip:bob@b.example SIP/2.0\r\nVia: SIP/2.0/UDP 10.0.0.1;branch=z9hG4bKx\r\nMax-Forwards: 70\r\n{rr}From: <sip:alice@a.example>;tag=fa\r\nTo: <sip:bob@b.example>\r\nCall-ID: c\r\nCSeq: 10 INVITE\r\nContact: <sip:alice@10.0.0.1>\r\nContent-Length: 0\r\n\r\n"));
    let rs = res(&format!("SIP/2.0 {code} X\r\nVia: SIP/2.0/UDP 10.0.0.1;branch=z9hG4bKx\r\n{rr}From: <sip:alice@a.example>;tag=fa\r\nTo: <sip:bob@b.example>;tag=tb\r\nCall-ID: c\r\nCSeq: 10 INVITE\r\nContact: <sip:bob@10.0.0.2>\r\nContent-Length: 0\r\n\r\n"));
    let (a, b) = (uri("sip:alice@a.example"), uri("sip:bob@b.example"));
    if which < 2 {
        (Dialog::new_uac(&rq, &rs, a, b).unwrap(), 0, name)
    } else {
        (Dialog::new_uas(&rq, &rs, b, a).unwrap(), 10, name)
    }
}
fn histories(run: &Run, depth: usize, ops: &'static [Op]) {
    for which in 0..4 {
        let (d0, inv0, name) = start(which);
        sequences(run, ops.len(), depth, |seq| {
            let mut d = d0.clone();
            let mut m = see(&d, inv0);
            for (k, &o) in seq.iter().enumerate() {
                let key = || format!("dialog {name} ops {:?}", seq[..=k].iter().map(|&i| ops[i]).collect::<Vec<_>>());
                let contact = format!("<sip:new{k}@10.0.1.{k}:5060>");
                let target = format!("sip:new{k}@10.0.1.{k}:5060");
                match ops[o] {
                    Op::Req(method, delta, with) => {
                        let base = if method == "ACK" { m.invite } else { m.r };
                        let n = (base as i64 + delta).max(0) as u64;
                        if n == 0 {
                            continue; // no such CSeq on the wire
                        }
                        let peer = format!("{method} sip:x@10.0.0.3 SIP/2.0\r\nVia: SIP/2.0/UDP 10.0.0.9;branch=z9hG4bKy\r\nMax-Forwards: 70\r\nFrom: <{}>;tag={}\r\nTo: <{}>;tag={}\r\nCall-ID: c\r\nCSeq: {n} {method}\r\n{}Content-Length: 0\r\n\r\n", d.remote_uri().as_str(), d.id().remote_tag(), d.local_uri().as_str(), d.id().local_tag(), if with { format!("Contact: {contact}\r\n") } else { String::new() });
                        let ok = d.update_from_request(&req(&peer)).is_ok();
                        let want = if method == "ACK" { n == m.invite } else { m.r == 0 || n > m.r && n - m.r <= 1000 };
                        if want {
                            if method != "ACK" {
                                m.r = n;
                            }
                            if method == "INVITE" {
                                m.invite = n;
                            }
                            if with && ["INVITE", "UPDATE", "NOTIFY", "SUBSCRIBE", "REFER"].contains(&method) {
                                m.target = target;
                            }
                        }
                        run.check(ok == want, key, || format!("accepted {ok}, expected {want}"));
                    }
                    Op::Res(code, method, with, rr, timer) => {
                        let rr_text = if rr { "Record-Route: <sip:n1.example;lr>, <sip:n2.example;lr>\r\n" } else { "" };
                        let se = TIMERS[timer].0.map(|s| format!("Session-Expires: {s}\r\n")).unwrap_or_default();
                        let t = format!("SIP/2.0 {code} X\r\nVia: SIP/2.0/UDP 10.0.0.9;branch=z9hG4bKy\r\n{rr_text}From: <{}>;tag={}\r\nTo: <{}>;tag={}\r\nCall-ID: c\r\nCSeq: {} {method}\r\n{}{se}Content-Length: 0\r\n\r\n", d.local_uri().as_str(), d.id().local_tag(), d.remote_uri().as_str(), d.id().remote_tag(), m.l.max(1), if with { format!("Contact: {contact}\r\n") } else { String::new() });
                        d.update_from_response(&res(&t));
                        if with && code < 300 && ["INVITE", "UPDATE"].contains(&method) {
                            m.target = target;
                        }
                        if rr && (200..300).contains(&code) && m.state == 0 {
                            m.routes = vec!["sip:n2.example;lr".into(), "sip:n1.example;lr".into()];
                        }
                        if let Some((s, r)) = TIMERS[timer].1 {
                            m.timer = Some((s, r.map(|r| r == RefresherRole::Uac)));
                        }
                        if (200..300).contains(&code) && m.state == 0 {
                            m.state = 1;
                        }
                    }
                    Op::Next => {
                        let n = d.next_local_cseq() as u64;
                        m.l += 1;
                        run.check(n == m.l, key, || format!("next sequence number {n}, expected {}", m.l));
                    }
                    Op::Confirm => {
                        d.confirm();
                        if m.state == 0 {
                            m.state = 1;
                        }
                    }
                    Op::Terminate => {
                        d.terminate();
                        m.state = 2;
                    }
                }
                run.step(1);
                let mut g = see(&d, m.invite);
                if m.state == 2 {
                    // a terminated dialog only has to stay so
                    run.check(g.state == 2, key, || "a terminated dialog came back".to_string());
                    g = m.clone();
                }
                run.check(g == m, key, || format!(" got {g:?}\nwant {m:?}"));
                if g != m {
                    return;
                }
                run.state(&(which, &m));
            }
            run.trace();
        });
    }
}

/// Both ends send requests to each other over a network that reorders, drops
/// and repeats: whatever is accepted came once and in order, and what arrives
/// in order is accepted.
/// Every method of a request with a Contact, and every code of a response, from every start.
const METHODS_ALL: [&str; 14] = ["INVITE", "UPDATE", "SUBSCRIBE", "NOTIFY", "REFER", "ACK", "PRACK", "INFO", "MESSAGE", "OPTIONS", "BYE", "REGISTER", "PUBLISH", "XYZ"];
fn refreshing(run: &Run) {
    for which in 0..4 {
        let (d0, inv0, name) = start(which);
        product(run, &[METHODS_ALL.len(), 3, 2], |v| {
            let method = METHODS_ALL[v[0]];
            let mut d = d0.clone();
            if v[2] == 1 {
                d.update_from_request(&req(&format!("INVITE sip:x@h SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKy\r\nMax-Forwards: 70\r\nFrom: <sip:p@h>;tag={}\r\nTo: <sip:q@h>;tag={}\r\nCall-ID: c\r\nCSeq: 50 INVITE\r\nContact: <sip:first@10.9.9.9>\r\nContent-Length: 0\r\n\r\n", d.id().remote_tag(), d.id().local_tag()))).unwrap();
            }
            let invite = if v[2] == 1 { 50 } else { inv0 };
            if method == "ACK" && invite == 0 {
                return;
            }
            let n = if method == "ACK" { invite } else { d.remote_cseq() as u64 + 1 };
            let contact = ["", "Contact: <sip:second@10.9.9.8>\r\n", "m: \"a, <b>\" <sip:second@10.9.9.8>;q=1\r\n"][v[1]];
            let before = d.remote_target().as_str().to_string();
            let text = format!("{method} sip:x@h SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKy\r\nMax-Forwards: 70\r\nFrom: <sip:p@h>;tag={}\r\nTo: <sip:q@h>;tag={}\r\nCall-ID: c\r\nCSeq: {n} {method}\r\n{contact}Content-Length: 0\r\n\r\n", d.id().remote_tag(), d.id().local_tag());
            let key = || format!("dialog {name} request\n{text}");
            run.check(d.update_from_request(&req(&text)).is_ok(), key, || "refused".to_string());
            let w = if v[1] > 0 && v[0] < 5 { "sip:second@10.9.9.8".to_string() } else { before };
            run.check(d.remote_target().as_str() == w, key, || format!("target {}, expected {w}", d.remote_target().as_str()));
            run.state(&("refresh", which, v));
            run.step(1);
            run.trace();
        });
        let codes: [u16; 16] = [100, 101, 102, 150, 179, 180, 181, 183, 199, 200, 202, 299, 300, 301, 485, 600];
        product(run, &[METHODS_ALL.len(), codes.len(), 2, 2], |v| {
            let (method, code) = (METHODS_ALL[v[0]], codes[v[1]]);
            let mut d = d0.clone();
            let mut m = see(&d, inv0);
            let rr: String = if v[3] == 1 { (0..20).map(|i| format!("Record-Route: <sip:r{i}.example;lr>\r\n")).collect() } else { String::new() };
            let text = format!("SIP/2.0 {code} X\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKy\r\n{rr}From: <sip:p@h>;tag={}\r\nTo: <sip:q@h>;tag={}\r\nCall-ID: c\r\nCSeq: 10 {method}\r\n{}Content-Length: 0\r\n\r\n", d.id().local_tag(), d.id().remote_tag(), ["", "Contact: <sip:second@10.9.9.8>\r\n"][v[2]]);
            let key = || format!("dialog {name} response\n{text}");
            d.update_from_response(&res(&text));
            if v[2] == 1 && (101..300).contains(&code) && v[0] < 5 {
                m.target = "sip:second@10.9.9.8".into();
            }
            if m.state == 0 && (200..300).contains(&code) {
                m.state = 1;
                if v[3] == 1 {
                    m.routes = (0..20).rev().map(|i| format!("sip:r{i}.example;lr")).collect();
                }
            }
            let g = see(&d, inv0);
            run.check(g == m, key, || format!(" got {g:?}\nwant {m:?}"));
            run.state(&("answer", which, v));
            run.step(1);
            run.trace();
        });
    }
}
fn network(run: &Run, each: usize) {
    let (caller, _, _) = start(1);
    let (callee, _, _) = start(3);
    let n = each * 2;
    let perms = permutations(n);
    par_for(run, perms.len(), |pi| {
        // each message is lost, delivered once, or delivered twice
        for copies in 0..3usize.pow(n as u32) {
            let (mut a, mut b) = (caller.clone(), callee.clone());
            let msgs: Vec<(bool, Request, u32)> = (0..n)
                .map(|i| {
                    let d = if i < each { &mut a } else { &mut b };
                    let c = d.next_local_cseq();
                    (i < each, in_dialog(d, ["INFO", "UPDATE", "MESSAGE"][i % 3], c as u64, None), c)
                })
                .collect();
            let mut last = [0u32; 2];
            let mut log = vec![];
            let (mut x, mut first) = (copies, [10u32, 0]);
            let _ = &mut first;
            for &i in &perms[pi] {
                let times = x % 3;
                x /= 3;
                for _ in 0..times {
                    let (from_caller, r, c) = &msgs[i];
                    let (to, w) = if *from_caller { (&mut b, 0) } else { (&mut a, 1) };
                    let floor = last[w].max(first[w]);
                    let ok = to.matches_request(r) && to.update_from_request(r).is_ok();
                    log.push((i, ok));
                    let want = *c > floor;
                    run.check(ok == want, || format!("network deliveries {log:?}"), || format!("request {c} after {floor}: accepted {ok}"));
                    if want {
                        last[w] = *c;
                    }
                    run.step(1);
                }
            }
            run.state(&("net", last, &log));
            run.trace();
        }
    });
}

pub fn p12(run: &Run) {
    vclock::reset();
    run.note("rule", "every creating exchange over the header alphabet seen from both ends; every in-dialog history up to the depth from four starting dialogs, all fields compared after each step; every order, loss and repetition of requests between two dialogs");
    run.assume("a target is refreshed by INVITE, UPDATE, SUBSCRIBE, NOTIFY and REFER and their 101-299 responses; a jump of more than 1000 sequence numbers is refused (documented limit); a response whose Session-Expires is out of bounds forms no dialog (documented limit)");
    creating(run);
    refreshing(run);
    let depth = run.pick(3, 5);
    run.note("history depth", depth);
    histories(run, depth, OPS);
    if !run.thorough() {
        histories(run, 4, &OPS[..17]);
    }
    network(run, run.pick(2, 3));
}

// ------------------------------------------------------------ P13 registries

fn id(i: usize) -> DialogId {
    let (c, l, r) = [("c1", "l1", "r1"), ("c1", "l1", "r2"), ("c1", "r1", "l1"), ("c2", "l1", "r1")][i];
    DialogId::new(c, l, r).unwrap()
}
fn dialog(i: DialogId, state: DialogStateType, mark: u32) -> Dialog {
    Dialog::unchecked_new(i, state, uri("sip:a@h"), uri("sip:b@h"), uri("sip:b@d"), mark, 0, None, vec![], false, None, None, true)
}
#[derive(Clone, Copy, Debug)]
enum D {
    Put(usize, usize),
    Del(usize),
    Clean,
}
const STATES: [DialogStateType; 3] = [DialogStateType::Early, DialogStateType::Confirmed, DialogStateType::Terminated];
const DOPS: [D; 15] = [D::Put(0, 0), D::Put(0, 1), D::Put(0, 2), D::Put(1, 0), D::Put(1, 1), D::Put(1, 2), D::Put(2, 1), D::Put(2, 2), D::Put(3, 0), D::Put(3, 2), D::Del(0), D::Del(1), D::Del(2), D::Del(3), D::Clean];
fn request_for(i: &DialogId) -> Request {
    req(&format!("BYE sip:x@h SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKx\r\nMax-Forwards: 70\r\nFrom: <sip:b@h>;tag={}\r\nTo: <sip:a@h>;tag={}\r\nCall-ID: {}\r\nCSeq: 1 BYE\r\nContent-Length: 0\r\n\r\n", i.remote_tag(), i.local_tag(), i.call_id()))
}
type Held = Vec<(usize, usize, u32)>; // id, state, mark

/// Compare everything the manager says about the four ids with the model.
fn same(m: &DialogManager, held: &Held, reqs: &[Request], extra: usize, full: bool) -> Result<(), String> {
    for i in 0..4 {
        let w = held.iter().find(|h| h.0 == i).map(|h| (STATES[h.1], h.2));
        let g = m.get(&id(i)).map(|d| (d.state(), d.local_cseq()));
        if g != w {
            return Err(format!("get {i}: {g:?}, expected {w:?}"));
        }
        let g = m.find_by_request(&reqs[i]).map(|d| (d.state(), d.local_cseq()));
        if g != w {
            return Err(format!("find by request {i}: {g:?}, expected {w:?}"));
        }
    }
    if m.count() != held.len() + extra {
        return Err(format!("count {}, expected {}", m.count(), held.len() + extra));
    }
    for c in ["c1", "c2", "c3"] {
        let g = m.find_by_call_id(c);
        let any = (0..4).any(|i| id(i).call_id() == c && held.iter().any(|h| h.0 == i));
        let ok = match &g {
            None => !any || extra > 0 && !full,
            Some(d) => d.id().call_id() == c && m.get(d.id()).is_some(),
        };
        if !ok {
            return Err(format!("find by call {c}: {:?}", g.map(|d| d.id().clone())));
        }
    }
    if full {
        let mut g: Vec<String> = m.all_ids().iter().map(|i| format!("{i:?}")).collect();
        g.sort();
        let mut w: Vec<String> = held.iter().map(|h| format!("{:?}", id(h.0))).collect();
        w.sort();
        if g != w {
            return Err(format!("ids {g:?}, expected {w:?}"));
        }
    }
    Ok(())
}
fn managers(run: &Run, depth: usize) {
    let reqs: Vec<Request> = (0..4).map(|i| request_for(&id(i))).collect();
    sequences(run, DOPS.len(), depth, |seq| {
        let m = DialogManager::new();
        let s = InMemoryDialogStore::default();
        let mut held: Held = vec![];
        let mut stored: Held = vec![];
        for (k, &o) in seq.iter().enumerate() {
            let mark = k as u32 + 1;
            let key = || format!("registry ops {:?}", seq[..=k].iter().map(|&i| DOPS[i]).collect::<Vec<_>>());
            match DOPS[o] {
                D::Put(i, st) => {
                    let ok = m.insert(dialog(id(i), STATES[st], mark)).is_ok();
                    run.check(ok, key, || "insertion refused".to_string());
                    block(s.put(dialog(id(i), STATES[st], mark)));
                    for h in [&mut held, &mut stored] {
                        h.retain(|h| h.0 != i);
                        h.push((i, st, mark));
                    }
                }
                D::Del(i) => {
                    let g = m.remove(&id(i)).map(|d| d.local_cseq());
                    let w = held.iter().find(|h| h.0 == i).map(|h| h.2);
                    run.check(g == w, key, || format!("removed {g:?}, expected {w:?}"));
                    block(s.remove(&id(i)));
                    for h in [&mut held, &mut stored] {
                        h.retain(|h| h.0 != i);
                    }
                }
                D::Clean => {
                    m.cleanup_terminated();
                    held.retain(|h| h.1 != 2);
                }
            }
            if let Err(e) = same(&m, &held, &reqs, 0, true) {
                run.violation(key(), e);
                return;
            }
            for i in 0..4 {
                let g = block(s.get(&id(i))).map(|d| d.local_cseq());
                let w = stored.iter().find(|h| h.0 == i).map(|h| h.2);
                run.check(g == w, key, || format!("store get {i}: {g:?}, expected {w:?}"));
            }
            for c in ["c1", "c2", "c3"] {
                let mut g: Vec<u32> = block(s.list_by_call_id(&SmolStr::new(c))).iter().map(|d| d.local_cseq()).collect();
                g.sort();
                let mut w: Vec<u32> = stored.iter().filter(|h| id(h.0).call_id() == c).map(|h| h.2).collect();
                w.sort();
                run.check(g == w, key, || format!("store list {c}: {g:?}, expected {w:?}"));
            }
            let (n, e) = (block(s.len()), block(s.is_empty()));
            run.check(n == stored.len() && s.count() == n && e == (n == 0), key, || format!("store size {n}, expected {}", stored.len()));
            run.state(&("dialogs", &held, &stored));
            run.step(1);
        }
        run.trace();
    });
}

fn sub_id(i: usize) -> SubscriptionId {
    let (c, f, t, e) = [("c1", "f1", "t1", "presence"), ("c1", "f1", "t1", "dialog"), ("c1", "t1", "f1", "presence"), ("c1", "f1", "t1", "presence;id=1")][i];
    SubscriptionId::new(c, f, t, e).unwrap()
}
fn subscriptions(run: &Run, depth: usize) {
    let states = [SubscriptionState::Active, SubscriptionState::Pending, SubscriptionState::Terminated];
    sequences(run, DOPS.len(), depth, |seq| {
        let m = SubscriptionManager::new();
        let mut held: Held = vec![];
        for (k, &o) in seq.iter().enumerate() {
            let key = || format!("subscriptions ops {:?}", seq[..=k].iter().map(|&i| DOPS[i]).collect::<Vec<_>>());
            let mark = k as u32 + 1;
            match DOPS[o] {
                D::Put(i, st) => {
                    let s = Subscription::unchecked_new(sub_id(i), states[st], uri("sip:a@h"), uri("sip:b@h"), uri("sip:b@d"), Duration::from_secs(60 * (i as u64 % 2)), mark, 0);
                    run.check(m.insert(s).is_ok(), key, || "insertion refused".to_string());
                    held.retain(|h| h.0 != i);
                    held.push((i, st, mark));
                }
                D::Del(i) => {
                    let g = m.remove(&sub_id(i)).map(|d| d.local_cseq());
                    let w = held.iter().find(|h| h.0 == i).map(|h| h.2);
                    run.check(g == w, key, || format!("removed {g:?}, expected {w:?}"));
                    held.retain(|h| h.0 != i);
                }
                D::Clean => {
                    let n = m.cleanup_terminated();
                    let before = held.len();
                    held.retain(|h| h.1 != 2);
                    run.check(n == before - held.len(), key, || format!("cleaned {n}, expected {}", before - held.len()));
                }
            }
            for i in 0..4 {
                let g = m.get(&sub_id(i)).map(|d| (d.state(), d.local_cseq()));
                let w = held.iter().find(|h| h.0 == i).map(|h| (states[h.1], h.2));
                run.check(g == w, key, || format!("get {i}: {g:?}, expected {w:?}"));
            }
            let marks = |l: Vec<Subscription>| {
                let mut v: Vec<u32> = l.iter().map(|s| s.local_cseq()).collect();
                v.sort();
                v
            };
            let mut w: Vec<u32> = held.iter().map(|h| h.2).collect();
            w.sort();
            let g = marks(m.all());
            run.check(g == w, key, || format!("all {g:?}, expected {w:?}"));
            for e in ["presence", "dialog", "presence;id=1", "x"] {
                let g = marks(m.by_event(e));
                let mut w: Vec<u32> = held.iter().filter(|h| sub_id(h.0).event() == e).map(|h| h.2).collect();
                w.sort();
                run.check(g == w, key, || format!("by event {e}: {g:?}, expected {w:?}"));
            }
            run.state(&("subs", &held));
            run.step(1);
        }
        run.trace();
    });
}

/// What a SUBSCRIBE and its answer make of each end's subscription.
fn subscribing(run: &Run) {
    let events = ["presence", "dialog;id=7"];
    let expires = [None, Some(0u64), Some(120), Some(7200)];
    product(run, &[3, CONTACTS.len(), CONTACTS.len(), expires.len(), expires.len(), events.len(), 2], |v| {
        let ((from, ftag), (rqc, rqt), (rsc, rst), rqe, rse, ev) = (FROMS[v[0]], CONTACTS[v[1]], CONTACTS[v[2]], expires[v[3]], expires[v[4]], events[v[5]]);
        let text = |t: &str, c: Option<&str>, e: Option<u64>, tag: &str| {
            format!("{t}\r\nVia: SIP/2.0/UDP 10.0.0.1;branch=z9hG4bKx\r\nMax-Forwards: 70\r\nFrom: {from}\r\nTo: <sip:bob@b.example>{tag}\r\nCall-ID: c\r\nCSeq: 33 SUBSCRIBE\r\n{}: {ev}\r\n{}{}Content-Length: 0\r\n\r\n", if v[6] == 1 { "o" } else { "Event" }, c.map(|c| format!("Contact: {c}\r\n")).unwrap_or_default(), e.map(|e| format!("Expires: {e}\r\n")).unwrap_or_default())
        };
        let rq = req(&text("SUBSCRIBE sip:bob@b.example SIP/2.0", rqc, rqe, ""));
        let rs = res(&text("SIP/2.0 200 OK", rsc, rse, ";tag=tb"));
        let (a, b) = (uri("sip:alice@a.example"), uri("sip:bob@b.example"));
        let key = || format!("subscription {}", text("SUBSCRIBE", rqc, rqe, ""));
        let show = |s: &Subscription| format!("{:?} {:?} contact {} expires {} local {} remote {}", s.id(), s.state(), s.contact().as_str(), s.expires().as_secs(), s.local_uri().as_str(), s.remote_uri().as_str());
        let idw = SubscriptionId::new("c", ftag.unwrap(), "tb", ev).unwrap();
        run.state(&("subscribing", v));
        run.step(2);
        run.trace();
        let n = Subscription::new_notifier(&rq, &rs, b.clone(), a.clone());
        if let Some(n) = &n {
            let w = format!("{idw:?} Active contact {} expires {} local {} remote {}", rqt.map(uri).unwrap_or(a.clone()).as_str(), rse.or(rqe).unwrap_or(3600), b.as_str(), a.as_str());
            run.check(show(n) == w, key, || format!("notifier\n got {}\nwant {w}", show(n)));
            let mut n = n.clone();
            let (x, y) = (n.next_local_cseq(), n.next_local_cseq());
            run.check(x >= 1 && y == x + 1, key, || format!("sequence numbers {x}, {y}"));
            run.check(n.local_cseq() == y && n.remote_cseq() == 33, key, || format!("sequence numbers {} and {}", n.local_cseq(), n.remote_cseq()));
            n.update_state(SubscriptionState::Terminated);
            run.check(n.state() == SubscriptionState::Terminated, key, || "state not updated".to_string());
        } else {
            run.check(rqt.is_none(), key, || "no subscription at the notifier".to_string());
        }
        let s = Subscription::new_subscriber(&rq, &rs, a.clone(), b.clone());
        if let Some(s) = &s {
            let w = format!("{idw:?} Active contact {} expires {} local {} remote {}", rst.map(uri).unwrap_or(b.clone()).as_str(), rse.unwrap_or(3600), a.as_str(), b.as_str());
            run.check(show(s) == w, key, || format!("subscriber\n got {}\nwant {w}", show(s)));
            run.check(s.local_cseq() == 33, key, || format!("sequence number {}", s.local_cseq()));
            if let Some(n) = n {
                run.check(n.id() == s.id(), key, || "the two ends disagree on the identifier".to_string());
            }
        } else {
            run.check(rst.is_none(), key, || "no subscription at the subscriber".to_string());
        }
    });
}

/// Limits at their real size.
fn limits(run: &Run) {
    let reqs: Vec<Request> = (0..4).map(|i| request_for(&id(i))).collect();
    // early dialogs of one call
    for pre in [98usize, 99, 100] {
        let ops: [D; 7] = [D::Put(0, 0), D::Put(1, 0), D::Put(0, 1), D::Put(3, 0), D::Del(0), D::Put(2, 2), D::Clean];
        sequences(run, ops.len(), 4, |seq| {
            let m = DialogManager::new();
            for i in 0..pre {
                m.insert(dialog(DialogId::new("c1", "l", format!("p{i}")).unwrap(), STATES[0], 0)).unwrap();
            }
            let mut held: Held = vec![];
            for (k, &o) in seq.iter().enumerate() {
                let key = || format!("early limit, {pre} before, ops {:?}", seq[..=k].iter().map(|&i| ops[i]).collect::<Vec<_>>());
                let mark = k as u32 + 1;
                match ops[o] {
                    D::Put(i, st) => {
                        let ok = m.insert(dialog(id(i), STATES[st], mark)).is_ok();
                        let others = held.iter().filter(|h| h.0 != i && h.1 == 0 && id(h.0).call_id() == id(i).call_id()).count() + if id(i).call_id() == "c1" { pre } else { 0 };
                        let want = st != 0 || others < 100;
                        run.check(ok == want, key, || format!("accepted {ok}, expected {want}"));
                        if want {
                            held.retain(|h| h.0 != i);
                            held.push((i, st, mark));
                        }
                    }
                    D::Del(i) => {
                        m.remove(&id(i));
                        held.retain(|h| h.0 != i);
                    }
                    D::Clean => {
                        m.cleanup_terminated();
                        held.retain(|h| h.1 != 2);
                    }
                }
                if let Err(e) = same(&m, &held, &reqs, pre, false) {
                    run.violation(key(), e);
                    return;
                }
                run.step(1);
            }
            run.state(&("early", pre, &held));
            run.trace();
        });
    }
    // all dialogs, all subscriptions, the store: one below the limit, at it
    let ops: [D; 6] = [D::Put(0, 1), D::Put(1, 1), D::Put(0, 2), D::Put(1, 0), D::Del(0), D::Clean];
    let depth = run.pick(3, 4);
    for pre in [9_998usize, 9_999, 10_000] {
        sequences(run, ops.len(), depth, |seq| {
            let m = DialogManager::new();
            let s = SubscriptionManager::new();
            for i in 0..pre {
                m.insert(dialog(DialogId::unchecked_new(format!("p{i}"), "l", "r"), STATES[1], 0)).unwrap();
                s.insert(Subscription::unchecked_new(SubscriptionId::unchecked_new(format!("p{i}"), "f", "t", "e"), SubscriptionState::Active, uri("sip:a@h"), uri("sip:b@h"), uri("sip:b@d"), Duration::from_secs(60), 0, 0)).unwrap();
            }
            let mut held: Held = vec![];
            for (k, &o) in seq.iter().enumerate() {
                let key = || format!("total limit, {pre} before, ops {:?}", seq[..=k].iter().map(|&i| ops[i]).collect::<Vec<_>>());
                let mark = k as u32 + 1;
                match ops[o] {
                    D::Put(i, st) => {
                        let ok = m.insert(dialog(id(i), STATES[st], mark)).is_ok();
                        let sub = Subscription::unchecked_new(sub_id(i), [SubscriptionState::Active, SubscriptionState::Pending, SubscriptionState::Terminated][st], uri("sip:a@h"), uri("sip:b@h"), uri("sip:b@d"), Duration::from_secs(60), mark, 0);
                        let oks = s.insert(sub).is_ok();
                        let want = pre + held.iter().filter(|h| h.0 != i).count() < 10_000;
                        run.check(ok == want && oks == want, key, || format!("accepted {ok} (dialog) {oks} (subscription), expected {want}"));
                        if want {
                            held.retain(|h| h.0 != i);
                            held.push((i, st, mark));
                        }
                    }
                    D::Del(i) => {
                        m.remove(&id(i));
                        s.remove(&sub_id(i));
                        held.retain(|h| h.0 != i);
                    }
                    D::Clean => {
                        m.cleanup_terminated();
                        s.cleanup_terminated();
                        held.retain(|h| h.1 != 2);
                    }
                }
                for i in 0..2 {
                    let w = held.iter().find(|h| h.0 == i).map(|h| h.2);
                    let (g, gs) = (m.get(&id(i)).map(|d| d.local_cseq()), s.get(&sub_id(i)).map(|d| d.local_cseq()));
                    run.check(g == w && gs == w, key, || format!("stored {g:?} {gs:?}, expected {w:?}"));
                }
                run.check(m.count() == pre + held.len(), key, || format!("count {}", m.count()));
                run.step(1);
            }
            run.state(&("total", pre, &held));
            run.trace();
        });
    }
    let s = InMemoryDialogStore::default();
    for i in 0..99_999 {
        block(s.put(dialog(DialogId::unchecked_new(format!("p{i}"), "l", "r"), STATES[1], 0)));
    }
    let mut k = 0;
    let mut put = |i: usize, mark: u32, want: Option<u32>, n: usize| {
        block(s.put(dialog(id(i), STATES[1], mark)));
        k += 1;
        let g = block(s.get(&id(i))).map(|d| d.local_cseq());
        run.check(g == want && s.count() == n, || format!("store limit step {k}"), || format!("stored {g:?}, expected {want:?}; {} dialogs", s.count()));
    };
    put(0, 1, Some(1), 100_000);
    put(1, 2, None, 100_000);
    put(0, 3, Some(3), 100_000);
    block(s.remove(&id(0)));
    put(1, 4, Some(4), 100_000);
    put(0, 5, None, 100_000);
    run.step(k);
}

pub fn p13(run: &Run) {
    vclock::reset();
    run.note("rule", "every operation history up to the depth, all lookups compared with a reference map after each step; limits at their real size; every SUBSCRIBE exchange over the header alphabet");
    let d = run.pick(4, 5);
    run.note("history depth", d);
    managers(run, d);
    subscriptions(run, d);
    subscribing(run);
    limits(run);
}

// ------------------------------------------------------------ P14 reliable provisional responses

#[derive(Clone, Copy, Debug)]
enum P {
    /// dialog, response number, request number, code
    Reg(usize, u32, u32, u16),
    /// dialog, RAck text
    Ack(usize, &'static str),
    Forget(usize, u32),
    Drop(usize),
    Wait,
}
const POPS: &[P] = &[
    P::Reg(0, 1, 7, 183),
    P::Reg(0, 2, 7, 180),
    P::Reg(0, 1, 9, 183),
    P::Reg(1, 1, 7, 183),
    P::Ack(0, "1 7 INVITE"),
    P::Ack(0, "2 7 INVITE"),
    P::Ack(0, "1 9 INVITE"),
    P::Ack(1, "1 7 INVITE"),
    P::Ack(0, "1 8 INVITE"),
    P::Ack(0, "1 7 UPDATE"),
    P::Ack(0, "3 7 INVITE"),
    P::Ack(0, "  1   7\tINVITE "),
    P::Forget(0, 1),
    P::Drop(0),
    P::Wait,
    P::Ack(0, "1 7"),
    P::Ack(0, "1 7 INVITE x"),
    P::Ack(0, "7 1 INVITE"),
    P::Ack(0, ""),
];
const DIALOGS: [&str; 2] = ["d1", "d2"];
#[derive(Clone, Debug, Hash, PartialEq)]
struct Rel {
    rseq: u32,
    cseq: u32,
    code: u16,
    acked: bool,
    at: u64,
}
fn pracks(run: &Run, depth: usize, ops: &'static [P], fill: u32) {
    sequences(run, ops.len(), depth, |seq| {
        vclock::reset();
        let t0 = vclock::now();
        let v = PrackValidator::new();
        let mut m: [Vec<Rel>; 2] = Default::default();
        for i in 0..fill {
            v.register_reliable_provisional(DIALOGS[0], 100 + i, 7, Method::Invite, 183);
            m[0].push(Rel { rseq: 100 + i, cseq: 7, code: 183, acked: false, at: 0 });
        }
        for (k, &o) in seq.iter().enumerate() {
            let key = || format!("prack fill {fill} ops {:?}", seq[..=k].iter().map(|&i| ops[i]).collect::<Vec<_>>());
            let now = (vclock::now() - t0) / 1_000_000_000;
            match ops[o] {
                P::Reg(d, rseq, cseq, code) => {
                    if m[d].iter().any(|r| r.rseq == rseq && r.cseq == cseq) {
                        return; // a number is handed out once
                    }
                    v.register_reliable_provisional(DIALOGS[d], rseq, cseq, Method::Invite, code);
                    if m[d].len() >= 10 {
                        m[d].remove(0);
                    }
                    m[d].push(Rel { rseq, cseq, code, acked: false, at: now });
                }
                P::Ack(d, text) => {
                    let r = req(&format!("PRACK sip:x@h SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKx\r\nMax-Forwards: 70\r\nFrom: <sip:b@h>;tag=a\r\nTo: <sip:a@h>;tag=b\r\nCall-ID: c\r\nCSeq: 8 PRACK\r\n{}Content-Length: 0\r\n\r\n", if text.is_empty() { String::new() } else { format!("RAck: {text}\r\n") }));
                    let g = v.validate_prack(DIALOGS[d], &r).ok().map(|r| (r.rseq, r.cseq, r.method));
                    let w: Vec<&str> = text.split_whitespace().collect();
                    let hit = if w.len() == 3 && w[2] == "INVITE" {
                        let (a, b): (u32, u32) = (w[0].parse().unwrap(), w[1].parse().unwrap());
                        m[d].iter_mut().find(|r| r.rseq == a && r.cseq == b && !r.acked)
                    } else {
                        None
                    };
                    let want = hit.map(|r| {
                        r.acked = true;
                        (r.rseq, r.cseq, Method::Invite)
                    });
                    run.check(g == want, key, || format!("acknowledged {g:?}, expected {want:?}"));
                }
                P::Forget(d, rseq) => {
                    v.remove_pracked(DIALOGS[d], rseq);
                    m[d].retain(|r| !(r.rseq == rseq && r.acked));
                }
                P::Drop(d) => {
                    v.remove_dialog(DIALOGS[d]);
                    m[d].clear();
                }
                P::Wait => vclock::advance_ms(40_000),
            }
            for d in 0..2 {
                for rseq in [1, 2, 3, 100] {
                    // two responses may share a number; then either answer will do
                    let w: Vec<bool> = m[d].iter().filter(|r| r.rseq == rseq).map(|r| r.acked).collect();
                    let g = v.is_pracked(DIALOGS[d], rseq);
                    run.check(w.contains(&g) || w.is_empty() && !g, key, || format!("is_pracked({d}, {rseq}) is {g}"));
                }
                let g = v.get_pending(DIALOGS[d]);
                let w: Vec<(u32, u16)> = m[d].iter().filter(|r| !r.acked).map(|r| (r.rseq, r.code)).collect();
                run.check(g == w, key, || format!("pending {g:?}, expected {w:?}"));
            }
            run.state(&("prack", fill, &m));
            run.step(1);
        }
        run.trace();
    });
}

/// What a response or request says about itself: its RSeq, its CSeq number and
/// method, whether it is a reliable provisional response; and RAck values.
fn reliable(run: &Run) {
    let nums = ["1", "0", "42", "2147483647", "4294967295", "4294967296", "x", "-1", "1 2", ""];
    let codes = [100u16, 101, 180, 199, 200, 201, 300, 486, 603, 699];
    let cseqs = ["1 INVITE", "7 PRACK", "4294967295 UPDATE", "0 BYE", "1\tINVITE"];
    let number = |x: &str| x.bytes().all(|c| c.is_ascii_digit()).then(|| x.parse::<u32>().ok()).flatten();
    product(run, &[nums.len() + 1, codes.len(), cseqs.len() + 1], |d| {
        run.step(1);
        run.trace();
        let (rseq, code, cseq) = (d[0].checked_sub(1).map(|i| nums[i]), codes[d[1]], d[2].checked_sub(1).map(|i| cseqs[i]));
        run.state(&("reliable", d.to_vec()));
        let mut h = sip_core::Headers::new();
        if let Some(x) = cseq {
            h.push("CSeq", x).unwrap();
        }
        if let Some(x) = rseq {
            h.push("RSeq", x).unwrap();
        }
        let key = || format!("response {code} with RSeq {rseq:?} and CSeq {cseq:?}");
        let (n, m) = cseq.map(|c| c.split_once([' ', '\t']).unwrap()).unzip();
        let gm = extract_cseq_method(&h).map(|m| m.as_str().to_string());
        run.check(extract_cseq_number(&h) == n.and_then(number) && gm.as_deref() == m, key, || format!("CSeq {:?} {gm:?}", extract_cseq_number(&h)));
        let Ok(r) = Response::new(sip_core::StatusLine::new(code, "R").unwrap(), h, bytes::Bytes::new()) else { return };
        run.check(extract_rseq(&r) == rseq.and_then(number), key, || format!("RSeq {:?}", extract_rseq(&r)));
        let want = (101..200).contains(&code) && rseq.is_some();
        run.check(is_reliable_provisional(&r) == want, key, || format!("reliable: {}", is_reliable_provisional(&r)));
    });
    let vals = [0u32, 1, 7, 2147483647, u32::MAX];
    let methods = [Method::Invite, Method::Update, Method::Subscribe, Method::Bye];
    product(run, &[vals.len(), vals.len(), methods.len(), 4], |d| {
        run.step(1);
        let (a, b, m) = (vals[d[0]], vals[d[1]], &methods[d[2]]);
        let text = match d[3] {
            0 => format!("{a} {b} {}", m.as_str()),
            1 => format!("  {a}\t {b}  {} ", m.as_str()),
            2 => format!("{a} {b}"),
            _ => format!("{a} {b} {} {a}", m.as_str()),
        };
        let g = RAck::parse(&text);
        let ok = match &g {
            Ok(r) => d[3] < 2 && (r.rseq, r.cseq, &r.method) == (a, b, m) && r.format() == format!("{a} {b} {}", m.as_str()) && RAck::parse(&r.format()).ok().is_some_and(|x| x.format() == r.format()),
            Err(_) => d[3] >= 2,
        };
        run.check(ok, || format!("RAck {text:?}"), || format!("read as {g:?}"));
    });
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if let Some(v) = FIXED.try_with(|f| f.get()).ok().flatten() {
        let b = v.to_ne_bytes();
        for i in 0..len {
            *buf.add(i) = b[i % 4];
        }
        return len as isize;
    }
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") 318isize => r, in("rdi") buf, in("rsi") len, in("rdx") flags as usize, out("rcx") _, out("r11") _);
    if r < 0 {
        *libc_errno() = -r as i32;
        return -1;
    }
    r
}
extern "C" {
    #[link_name = "__errno_location"]
    fn libc_errno() -> *mut i32;
}
thread_local! { static FIXED: std::cell::Cell<Option<u32>> = const { std::cell::Cell::new(None) }; }

fn numbers(run: &Run) {
    // every boundary of the system's random value, and every history of use
    for rand in [None, Some(0u32), Some(1), Some(0x7FFF_FFFE), Some(0x7FFF_FFFF), Some(0x8000_0000), Some(0x8000_0001), Some(0xFFFF_FFFF), Some(0x0102_0304)] {
        sequences(run, 6, run.pick(5, 6), |seq| {
            let m = RSeqManager::new();
            FIXED.with(|f| f.set(rand));
            let mut cur: [Option<u32>; 2] = [None; 2];
            for (k, &o) in seq.iter().enumerate() {
                let key = || format!("rseq random {rand:?} ops {:?}", &seq[..=k]);
                let d = o % 2;
                match o / 2 {
                    0 | 1 => {
                        let n = m.next_rseq(&id(d));
                        let ok = match cur[d] {
                            None => (1..=0x7FFF_FFFF).contains(&n),
                            Some(c) => n == c + 1,
                        };
                        run.check(ok, key, || format!("number {n} after {:?}", cur[d]));
                        cur[d] = Some(n);
                    }
                    _ => {
                        m.remove(&id(d));
                        cur[d] = None;
                    }
                }
                for d in 0..2 {
                    let g = m.current_rseq(&id(d));
                    run.check(g == cur[d], key, || format!("current {g:?}, expected {:?}", cur[d]));
                }
                run.check(m.len() == cur.iter().flatten().count() && m.is_empty() == (m.len() == 0), key, || format!("{} tracked", m.len()));
                run.step(1);
            }
            FIXED.with(|f| f.set(None));
            run.state(&("rseq", rand, seq));
            run.trace();
        });
    }
}

pub fn p14(run: &Run) {
    run.note("rule", "every history of registrations, acknowledgements, removals and waiting up to the depth; the oldest of more than ten responses is dropped (documented limit); response numbers from every boundary of the random source");
    run.assume("a response number is registered once per request; at most 300 s pass, after which the code may drop unacknowledged entries");
    numbers(run);
    let d = run.pick(5, 6);
    run.note("history depth", d);
    reliable(run);
    pracks(run, d, POPS, 0);
    pracks(run, d, &POPS[..14], 9);
    pracks(run, d - 1, POPS, 10);
    vclock::reset();
}
