//! P04: SIP and TEL URIs.
use common::{product, token_strings, Run};
use sip_core::{SipUri, TelUri, Uri};
use std::collections::BTreeMap;

/// Components of a URI, as an independent reader or the library sees them.
#[derive(Debug, Clone, PartialEq)]
pub struct C {
    pub scheme: String,
    pub user: Option<String>,
    pub host: String,
    pub port: Option<u16>,
    pub params: BTreeMap<String, Option<String>>,
    pub headers: BTreeMap<String, String>,
}

pub fn sip(u: &SipUri) -> C {
    C {
        scheme: if u.is_sips() { "sips" } else { "sip" }.into(),
        user: u.user().map(|s| s.into()),
        host: u.host().to_ascii_lowercase(),
        port: u.port(),
        params: u.params().iter().map(|(k, v)| (k.to_string(), v.as_ref().map(|v| v.to_string()))).collect(),
        headers: u.headers().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
    }
}
pub fn tel(u: &TelUri) -> C {
    C {
        scheme: if u.is_global() { "tel+" } else { "tel" }.into(),
        user: u.phone_context().map(|s| s.into()),
        host: u.number().into(),
        port: None,
        params: u.parameters().iter().map(|(k, v)| (k.to_string(), v.as_ref().map(|v| v.to_string()))).collect(),
        headers: BTreeMap::new(),
    }
}
pub fn comp(u: &Uri) -> C {
    match u {
        Uri::Sip(s) => sip(s),
        Uri::Tel(t) => tel(t),
        Uri::Absolute(a) => C {
            scheme: "abs".into(),
            user: None,
            host: a.to_string(),
            port: None,
            params: BTreeMap::new(),
            headers: BTreeMap::new(),
        },
    }
}

fn undo(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let h = |x: u8| (x as char).to_digit(16).map(|d| d as u8);
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(x), Some(y)) = (h(b[i + 1]), h(b[i + 2])) {
                o.push(x * 16 + y);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    String::from_utf8(o).ok()
}
fn strip_ws(s: &str) -> String {
    s.trim().to_string()
}

/// Independent reading of a SIP URI the library accepted: which component each
/// part of the text belongs to. None: no valid reading exists.
fn read_sip(s: &str) -> Option<C> {
    let (scheme, rest) = s.split_once(':')?;
    let scheme = scheme.to_ascii_lowercase();
    if scheme != "sip" && scheme != "sips" {
        return None;
    }
    let (addr, hdr) = match rest.find('?') {
        Some(p) => (&rest[..p], &rest[p + 1..]),
        None => (rest, ""),
    };
    let mut parts = addr.split(';');
    let base = parts.next()?.trim();
    let (user, hp) = match base.find('@') {
        Some(p) => (Some(undo(base[..p].trim())?), base[p + 1..].trim()),
        None => (None, base),
    };
    if let Some(u) = &user {
        if u.is_empty() || u.contains(['@', ';', '?', '/', '#', '[', ']']) {
            return None;
        }
    }
    let (host, port) = if let Some(r) = hp.strip_prefix('[') {
        let e = r.find(']')?;
        let h = &r[..e];
        undo(h)?.parse::<std::net::Ipv6Addr>().ok()?;
        let t = &r[e + 1..];
        if t.is_empty() {
            (h.to_string(), None)
        } else {
            (h.to_string(), Some(t.strip_prefix(':')?.to_string()))
        }
    } else {
        match hp.find(':') {
            Some(p) => (hp[..p].to_string(), Some(hp[p + 1..].to_string())),
            None => (hp.to_string(), None),
        }
    };
    let port = match port {
        None => None,
        Some(p) if !p.is_empty() && p.bytes().all(|b| b.is_ascii_digit()) => Some(p.parse::<u16>().ok().filter(|p| *p > 0)?),
        _ => return None,
    };
    let host = undo(&host)?.to_ascii_lowercase();
    if host.is_empty() || (!host.contains(':') && !host.chars().all(|c| c.is_ascii_alphanumeric() || "._-".contains(c))) {
        return None;
    }
    let mut params = BTreeMap::new();
    for p in parts {
        let p = p.trim();
        if p.is_empty() {
            continue;
        }
        let (k, v) = match p.find('=') {
            Some(i) => (p[..i].trim(), Some(p[i + 1..].trim().to_string())),
            None => (p, None),
        };
        if k.is_empty() || k.contains(['@', '[', ']', '/', ':', '&', '<', '>', '"', ',', '#', ' ']) {
            return None;
        }
        if v.as_ref().is_some_and(|v| v.contains(['@', '<', '>', '"', ' '])) {
            return None;
        }
        params.insert(k.to_ascii_lowercase(), v);
    }
    let mut headers = BTreeMap::new();
    for p in hdr.split('&') {
        if let Some((k, v)) = p.split_once('=') {
            if k.trim().is_empty() || v.contains(['<', '>', '"']) || v.trim().contains(' ') {
                return None;
            }
            headers.insert(k.trim().to_ascii_lowercase(), strip_ws(v));
        }
    }
    Some(C { scheme, user, host, port, params, headers })
}
fn read_tel(s: &str) -> Option<C> {
    let (scheme, rest) = s.split_once(':')?;
    if !scheme.eq_ignore_ascii_case("tel") {
        return None;
    }
    let mut it = rest.split(';');
    let n: String = it.next()?.chars().filter(|c| *c != ' ').collect();
    let global = n.starts_with('+');
    let num: String = if global { n.chars().filter(|c| !"-.()".contains(*c)).collect() } else { n };
    let mut params = BTreeMap::new();
    let mut ctx = None;
    for p in it {
        if p.is_empty() {
            continue;
        }
        let (k, v) = match p.find('=') {
            Some(i) => (&p[..i], Some(p[i + 1..].to_string())),
            None => (p, None),
        };
        if k.is_empty() || v.as_ref().is_some_and(|v| v.contains(['<', '>', '"', ' '])) {
            return None;
        }
        let k = k.to_ascii_lowercase();
        if k == "phone-context" {
            if let Some(v) = &v {
                ctx = Some(v.clone());
            }
        }
        params.insert(k, v);
    }
    if global == ctx.is_some() || !num.chars().any(|c| c.is_ascii_digit()) {
        return None;
    }
    Some(C { scheme: if global { "tel+" } else { "tel" }.into(), user: ctx, host: num, port: None, params, headers: BTreeMap::new() })
}

fn printable(s: &str) -> bool {
    !s.chars().any(|c| c.is_control() || c.is_whitespace() || "<>\"".contains(c))
}

/// Print, parse again, compare; the printed text must fit in a start line or name-addr.
fn stable(run: &Run, how: &str, want: &C, text: &str) {
    run.step(1);
    run.check(printable(text), || format!("{how}"), || format!("prints {text:?}, which ends early inside a message"));
    match Uri::parse(text) {
        Ok(v) => run.check(comp(&v) == *want, || how.to_string(), || format!("prints {text:?} which parses to {:?}, expected {want:?}", comp(&v))),
        Err(e) => run.violation(how, format!("prints {text:?} which does not parse: {e}")),
    }
}

const SCHEMES: [&str; 4] = ["sip", "sips", "SIP", "SipS"];
const USERS: [Option<&str>; 12] = [
    None, Some("alice"), Some("Alice"), Some("a.b-c_d!~*'()"), Some("a&=+$,b"), Some("a%20b"), Some("+15551234"),
    Some("a:pw"), Some("%61lice"), Some("a%25b"), Some("%C3%A9"), Some("a%22%3Cb"),
];
const HOSTS: [(&str, &str); 7] = [
    ("h", "h"), ("Example.COM", "example.com"), ("10.0.0.1", "10.0.0.1"), ("[2001:db8::1]", "2001:db8::1"),
    ("[::1]", "::1"), ("a-b.c_d.e", "a-b.c_d.e"), ("[FE80::A]", "fe80::a"),
];
const PORTS: [Option<u16>; 4] = [None, Some(1), Some(5061), Some(65535)];
const PARAMS: [&[(&str, Option<&str>)]; 8] = [
    &[], &[("transport", Some("tcp"))], &[("lr", None)], &[("Transport", Some("TCP"))], &[("x", Some("a%20b"))],
    &[("lr", None), ("maddr", Some("1.2.3.4"))], &[("z", Some("1")), ("a", None), ("user", Some("phone"))],
    &[("x", Some("[::1]:5"))],
];
const HEADERS: [&[(&str, &str)]; 5] =
    [&[], &[("subject", "x%20y")], &[("Priority", "urgent"), ("a", "b")], &[("a", "")], &[("route", "%3Csip:x%3E")]];

fn compose(v: &[usize]) -> (String, C) {
    let mut s = format!("{}:", SCHEMES[v[0]]);
    if let Some(u) = USERS[v[1]] {
        s += u;
        s.push('@');
    }
    s += HOSTS[v[2]].0;
    if let Some(p) = PORTS[v[3]] {
        s += &format!(":{p}");
    }
    for (k, x) in PARAMS[v[4]] {
        s += &format!(";{k}");
        if let Some(x) = x {
            s += &format!("={x}");
        }
    }
    for (i, (k, x)) in HEADERS[v[5]].iter().enumerate() {
        s += if i == 0 { "?" } else { "&" };
        s += &format!("{k}={x}");
    }
    let c = C {
        scheme: SCHEMES[v[0]].to_ascii_lowercase(),
        user: USERS[v[1]].map(|u| undo(u).unwrap()),
        host: HOSTS[v[2]].1.into(),
        port: PORTS[v[3]],
        params: PARAMS[v[4]].iter().map(|(k, x)| (k.to_ascii_lowercase(), x.map(|x| x.to_string()))).collect(),
        headers: HEADERS[v[5]].iter().map(|(k, x)| (k.to_ascii_lowercase(), x.to_string())).collect(),
    };
    (s, c)
}

const NEW_PARAM: [(&str, Option<&str>); 6] =
    [("lr", None), ("transport", Some("udp")), ("NEW", Some("v")), ("x", None), ("ob", Some("")), ("maddr", Some("::1"))];
const BAD_VALUES: [&str; 13] =
    ["a;b", "a?b", "a@b", "a b", "a\rb", "a\nb", "a\0b", "a>b", "a<b", "a\"b", "a\tb", ";x=y", "\u{7f}"];
const BAD_NAMES: [&str; 12] = ["", "a;b", "a=b", "a?b", "a@b", "a b", "a\r\nb", "a,b", "a>b", "a&b", "a:b", "a/b"];
const BAD_USERS: [&str; 10] = ["", "a@b", "a;b", "a?b", "a/b", "a#b", "a\rb", "a\nb", "a\0b", "a[b"];
const BAD_HOSTS: [&str; 18] = [
    "", "a@b", "a;b", "a?b", "a b", "a:5", "a\r\nb", "a,b", "a>b", "::g", "[::1", "a/b", "1:2", "a%41", "[a]", "a\0", "h;lr", "h?x=y",
];

fn changes(run: &Run, s: &str, u: &SipUri, c: &C) {
    let key = |w: String| format!("{s} {w}");
    let try_ = |w: String, r: Result<SipUri, String>, want: C| match r {
        Ok(n) => {
            run.check(sip(&n) == want, || key(w.clone()), || format!("got {:?}, expected {want:?}", sip(&n)));
            stable(run, &key(w.clone()), &want, n.as_str());
            run.check(Uri::from(n.clone()).to_string() == n.as_str(), || key(w.clone()), || "Display differs from as_str".into());
        }
        Err(e) => run.violation(key(w), format!("refused: {e}")),
    };
    for (h, want) in [("other.example", "other.example"), ("2001:db8::9", "2001:db8::9"), ("1.2.3.4", "1.2.3.4"), ("UP.x", "up.x")] {
        try_(format!("with_host {h}"), u.clone().with_host(h).map_err(|e| e.to_string()), C { host: want.into(), ..c.clone() });
    }
    for us in ["bob", "Bob", "b ob", "b%62", "x:y", "a\"<>b", "é"] {
        try_(format!("with_user {us}"), u.clone().with_user(us).map_err(|e| e.to_string()), C { user: Some(us.into()), ..c.clone() });
    }
    for p in [1u16, 5060, 65535] {
        try_(format!("with_port {p}"), u.clone().with_port(p).map_err(|e| e.to_string()), C { port: Some(p), ..c.clone() });
    }
    try_("without_port".into(), Ok(u.clone().without_port()), C { port: None, ..c.clone() });
    try_("without_uri_headers".into(), Ok(u.clone().without_uri_headers()), C { headers: BTreeMap::new(), ..c.clone() });
    match Uri::from(u.clone()).without_uri_headers() {
        Uri::Sip(n) => try_("Uri without_uri_headers".into(), Ok(n), C { headers: BTreeMap::new(), ..c.clone() }),
        o => run.violation(key("Uri without_uri_headers".into()), format!("became {o:?}")),
    }
    for (k, v) in NEW_PARAM {
        let mut want = c.clone();
        want.params.insert(k.to_ascii_lowercase(), v.map(|v| v.into()));
        try_(format!("with_param {k}={v:?}"), u.clone().with_param(k, v).map_err(|e| e.to_string()), want);
    }
    run.check(u.clone().with_port(0).is_err(), || key("with_port 0".into()), || "accepted".into());
}

fn smuggle(run: &Run) {
    for base in ["sip:h", "sips:alice@example.com:5061;lr?a=b"] {
        let u = SipUri::parse(base).unwrap();
        for v in BAD_VALUES {
            run.step(1);
            run.check(u.clone().with_param("p", Some(v)).is_err(), || format!("{base} with_param p={v:?}"), || "accepted".into());
        }
        for n in BAD_NAMES {
            run.check(u.clone().with_param(n, None::<&str>).is_err(), || format!("{base} with_param {n:?}"), || "accepted".into());
            run.check(u.clone().with_param(n, Some("v")).is_err(), || format!("{base} with_param {n:?}=v"), || "accepted".into());
        }
        for x in BAD_USERS {
            run.check(u.clone().with_user(x).is_err(), || format!("{base} with_user {x:?}"), || "accepted".into());
        }
        for x in BAD_HOSTS {
            run.check(u.clone().with_host(x).is_err(), || format!("{base} with_host {x:?}"), || "accepted".into());
            run.check(SipUri::new(x).is_err(), || format!("SipUri::new {x:?}"), || "accepted".into());
        }
    }
    for (h, w) in [("example.com", "example.com"), ("2001:db8::1", "2001:db8::1"), ("10.1.1.1", "10.1.1.1")] {
        match SipUri::new(h) {
            Ok(u) => {
                let want = C { scheme: "sip".into(), user: None, host: w.into(), port: None, params: BTreeMap::new(), headers: BTreeMap::new() };
                run.check(sip(&u) == want, || format!("SipUri::new {h}"), || format!("{:?}", sip(&u)));
                stable(run, &format!("SipUri::new {h}"), &want, u.as_str());
            }
            Err(e) => run.violation(format!("SipUri::new {h}"), e.to_string()),
        }
    }
    for base in ["tel:+1555", "tel:123;phone-context=example.com"] {
        let u = TelUri::parse(base).unwrap();
        for v in ["a;b", "a b", "a\rb", "a\nb", "a>b", "a<b", "a\"b", "\0"] {
            run.step(1);
            run.check(u.clone().with_parameter("p", Some(v)).is_err(), || format!("{base} with_parameter p={v:?}"), || "accepted".into());
            run.check(u.clone().with_parameter("isub", Some(v)).is_err(), || format!("{base} with_parameter isub={v:?}"), || "accepted".into());
            run.check(u.clone().with_phone_context(v).is_err(), || format!("{base} with_phone_context {v:?}"), || "accepted".into());
            run.check(u.clone().with_parameter("Phone-Context", Some(v)).is_err(), || format!("{base} with_parameter phone-context={v:?}"), || "accepted".into());
        }
        for n in ["", "a;b", "a=b", "a b", "a\rb", "a\nb"] {
            run.check(u.clone().with_parameter(n, None::<&str>).is_err(), || format!("{base} with_parameter {n:?}"), || "accepted".into());
        }
    }
    let g = TelUri::parse("tel:+1555").unwrap();
    run.check(g.clone().with_phone_context("example.com").is_err(), || "global with_phone_context".into(), || "accepted".into());
    run.check(g.with_parameter("PHONE-CONTEXT", Some("example.com")).is_err(), || "global with_parameter phone-context".into(), || "accepted".into());
}

fn tel_product(run: &Run) {
    let nums: [(&str, &str, bool); 8] = [
        ("+15551234", "+15551234", true), ("+1-555.12(34)", "+15551234", true), ("+1 555", "+1555", true), ("123", "123", false),
        ("1-2", "1-2", false), ("*12#", "*12#", false), ("12aB", "12aB", false), ("1 2", "12", false),
    ];
    let ctx = [None, Some("example.com"), Some("+1555"), Some("A.b-c.d")];
    let pars: [&[(&str, Option<&str>)]; 5] =
        [&[], &[("ext", Some("22"))], &[("ISUB", Some("1x"))], &[("a", None), ("b", Some("c%3B"))], &[("npdi", None)]];
    let place = 2; // phone-context before or after the others
    product(run, &[nums.len(), ctx.len(), pars.len(), place, 2], |v| {
        let (n, norm, global) = nums[v[0]];
        let mut ps: Vec<String> = pars[v[2]].iter().map(|(k, x)| x.map(|x| format!("{k}={x}")).unwrap_or(k.to_string())).collect();
        if let Some(c) = ctx[v[1]] {
            let n = if v[4] == 1 { "Phone-Context" } else { "phone-context" };
            let x = format!("{n}={c}");
            if v[3] == 0 {
                ps.insert(0, x)
            } else {
                ps.push(x)
            }
        }
        let s = format!("{}:{n}{}{}", if v[4] == 1 { "TEL" } else { "tel" }, if ps.is_empty() { "" } else { ";" }, ps.join(";"));
        run.state(&s);
        run.step(1);
        let r = Uri::parse(&s);
        if global == ctx[v[1]].is_some() {
            run.check(r.is_err(), || s.clone(), || "accepted although the phone-context does not fit the number".into());
            return;
        }
        let Ok(u) = r else {
            run.violation(s, "a valid tel URI is refused");
            return;
        };
        let mut want = C {
            scheme: if global { "tel+" } else { "tel" }.into(),
            user: ctx[v[1]].map(|s| s.into()),
            host: norm.into(),
            port: None,
            params: pars[v[2]].iter().map(|(k, x)| (k.to_ascii_lowercase(), x.map(|x| x.to_string()))).collect(),
            headers: BTreeMap::new(),
        };
        if let Some(c) = ctx[v[1]] {
            want.params.insert("phone-context".into(), Some(c.into()));
        }
        run.check(comp(&u) == want, || s.clone(), || format!("got {:?}, expected {want:?}", comp(&u)));
        stable(run, &s, &want, u.as_str());
        run.check(u.is_tel() && !u.is_sip() && !u.is_absolute(), || s.clone(), || "wrong kind".into());
        let t = u.as_tel().unwrap();
        for (k, x) in [("ext", Some("9")), ("NEW", None), ("isub", Some("z")), ("npdi", None)] {
            let mut w = want.clone();
            w.params.insert(k.to_ascii_lowercase(), x.map(|x| x.to_string()));
            match t.clone().with_parameter(k, x) {
                Ok(n) => {
                    run.check(tel(&n) == w, || format!("{s} with_parameter {k}={x:?}"), || format!("got {:?}, expected {w:?}", tel(&n)));
                    stable(run, &format!("{s} with_parameter {k}={x:?}"), &w, n.as_str());
                }
                Err(e) => run.violation(format!("{s} with_parameter {k}={x:?}"), e.to_string()),
            }
        }
        if !global {
            let mut w = want.clone();
            w.user = Some("n.example".into());
            w.params.insert("phone-context".into(), Some("n.example".into()));
            for (how, r) in [("with_phone_context", t.clone().with_phone_context("n.example")), ("with_parameter phone-context", t.clone().with_parameter("Phone-Context", Some("n.example")))] {
                match r {
                    Ok(n) => {
                        run.check(tel(&n) == w, || format!("{s} {how}"), || format!("got {:?}, expected {w:?}", tel(&n)));
                        stable(run, &format!("{s} {how}"), &w, n.as_str());
                    }
                    Err(e) => run.violation(format!("{s} {how}"), e.to_string()),
                }
            }
        }
        // built from components
        if let Ok(n) = TelUri::new(n, global) {
            let w = C { scheme: want.scheme.clone(), user: None, host: norm.into(), port: None, params: BTreeMap::new(), headers: BTreeMap::new() };
            run.check(tel(&n) == w, || format!("TelUri::new {s}"), || format!("{:?}", tel(&n)));
            if global {
                stable(run, &format!("TelUri::new {s}"), &w, n.as_str());
            }
        } else {
            run.violation(format!("TelUri::new({n},{global})"), "refused");
        }
    });
}

pub fn p04(run: &Run) {
    // 1. every combination of components
    let dims = [SCHEMES.len(), USERS.len(), HOSTS.len(), PORTS.len(), PARAMS.len(), HEADERS.len()];
    product(run, &dims, |v| {
        let (s, want) = compose(v);
        run.state(&s);
        run.step(1);
        match SipUri::parse(&s) {
            Ok(u) => {
                run.check(sip(&u) == want, || s.clone(), || format!("got {:?}, expected {want:?}", sip(&u)));
                stable(run, &s, &want, u.as_str());
                run.check(u == SipUri::parse(&s).unwrap(), || s.clone(), || "not equal to itself".into());
                match Uri::parse(&s) {
                    Ok(x) => run.check(x == Uri::Sip(u.clone()) && x.is_sip() && !x.is_tel() && !x.is_absolute(), || s.clone(), || "Uri::parse disagrees with SipUri::parse".into()),
                    Err(e) => run.violation(&s, format!("Uri::parse refuses: {e}")),
                }
                changes(run, &s, &u, &want);
            }
            Err(e) => run.violation(&s, format!("a valid URI is refused: {e}")),
        }
    });
    smuggle(run);
    tel_product(run);
    // 2. every short token string: what is accepted is read correctly and stays put
    let toks = [
        "a", "A", "@", ":", "5060", "0", ";", "?", "&", "=", "[", "]", "::1", "%40", "%2", "%2F", "<", ">", "\"", ",", "/", "#", " ",
        "+", "h.b", "lr", "99999", "%zz",
    ];
    let n = run.pick(5, 6);
    for pre in ["sip:", "SIPS:", "sip:u@h", "sip:h;p=", "sip:h?x="] {
        token_strings(run, &toks, if pre.len() > 5 { n - 1 } else { n }, |t| {
            let s = format!("{pre}{t}");
            run.step(1);
            if let Ok(u) = SipUri::parse(&s) {
                run.state(&s);
                let c = sip(&u);
                match read_sip(&s) {
                    Some(w) => run.check(c == w, || s.clone(), || format!("read as {c:?}, but the text says {w:?}")),
                    None => run.violation(&s, format!("accepted as {c:?} although it is not a SIP URI")),
                }
                stable(run, &s, &c, u.as_str());
                let wh = u.clone().with_port(7).unwrap();
                let w = C { port: Some(7), ..c.clone() };
                run.check(sip(&wh) == w, || format!("{s} with_port"), || format!("{:?} vs {w:?}", sip(&wh)));
                stable(run, &format!("{s} with_port"), &w, wh.as_str());
                run.check(printable(u.as_str()) && (u.as_str() == s || !printable(&s)), || s.clone(), || format!("printed as {:?}", u.as_str()));
            }
        });
    }
    let tt = ["+", "1", "23", "-", ".", "(", " ", ";", "=", "phone-context", "Phone-Context=", "a.b", "ext", "%", "<", "*", "A", "x", ",", "@"];
    for pre in ["tel:", "TEL:+1", "tel:1;phone-context=a;"] {
        token_strings(run, &tt, n, |t| {
            let s = format!("{pre}{t}");
            run.step(1);
            if let Ok(u) = TelUri::parse(&s) {
                run.state(&s);
                let c = tel(&u);
                match read_tel(&s) {
                    Some(w) => run.check(c == w, || s.clone(), || format!("read as {c:?}, but the text says {w:?}")),
                    None => run.violation(&s, format!("accepted as {c:?} although it is not a tel URI")),
                }
                stable(run, &s, &c, u.as_str());
            }
        });
    }
    let ta = ["http", "urn", "sip", ":", "//", "a", " ", "<", "1", "+", "?x=y", "#", "@", "tel", "\u{a0}", ";", "\"", "é"];
    token_strings(run, &ta, n, |s| {
        run.step(1);
        if let Ok(u) = Uri::parse(s) {
            run.state(&s);
            stable(run, s, &comp(&u), u.as_str());
            let sc = s.trim().split(':').next().unwrap().to_ascii_lowercase();
            let k = if u.is_sip() { sc == "sip" || sc == "sips" } else if u.is_tel() { sc == "tel" } else { !["sip", "sips", "tel"].contains(&sc.as_str()) };
            run.check(k, || s.to_string(), || format!("scheme {sc} became {u:?}"));
        }
    });
    run.note("bounds", format!("{} composed SIP URIs with 21 single-component changes each; token strings up to {n} tokens", dims.iter().product::<usize>()));
    run.sample(|| compose(&[3, 5, 3, 2, 6, 2]).0);
}
