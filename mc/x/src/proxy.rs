//! P27: the real forwarding helpers for every combination of routing headers in
//! bounds, every path through loose and strict routers, and every journey of a
//! request that comes back, against what RFC 3261 16 prescribes for the values
//! the messages were made of.
use bytes::Bytes;
use common::{par_for, sequences, Run};
use sip_core::{Headers, Method, Request, RequestLine, Response, RouteHeader, SipUri, StatusLine, Uri};
use sip_proxy::cancel_ack::{AckForwarder, AckType, CancelForwarder, RouteProcessor};
use sip_proxy::stateful::forwarding::{prepare_forward, prepare_response};
use sip_proxy::ProxyHelpers;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

type Lines = Vec<(String, String)>;

fn uri(s: &str) -> SipUri {
    SipUri::parse(s).unwrap()
}

fn request(method: Method, target: &str, lines: &[(String, String)], body: &'static [u8]) -> Request {
    let mut h = Headers::new();
    for (n, v) in lines {
        h.push(n, v).unwrap();
    }
    Request::new(RequestLine::new(method, uri(target)), h, Bytes::from_static(body)).unwrap()
}

fn lines(h: &Headers) -> Lines {
    h.iter().map(|h| (h.name().to_string(), h.value().to_string())).collect()
}

/// The values of a list header: commas outside quotes and angle brackets separate.
fn values(l: &[(String, String)], name: &str) -> Vec<String> {
    let mut out = vec![];
    for (n, v) in l.iter().filter(|x| x.0.eq_ignore_ascii_case(name)) {
        let _ = n;
        let (mut cur, mut quoted, mut angle, mut esc) = (String::new(), false, false, false);
        for c in v.chars() {
            if esc {
                esc = false;
            } else {
                match c {
                    '\\' if quoted => esc = true,
                    '"' if !angle => quoted = !quoted,
                    '<' if !quoted => angle = true,
                    '>' if !quoted => angle = false,
                    ',' if !quoted && !angle => {
                        out.push(cur.trim().to_string());
                        cur.clear();
                        continue;
                    }
                    _ => {}
                }
            }
            cur.push(c);
        }
        out.push(cur.trim().to_string());
    }
    out
}

fn without(l: &[(String, String)], names: &[&str]) -> Lines {
    l.iter().filter(|x| !names.iter().any(|n| x.0.eq_ignore_ascii_case(n))).cloned().collect()
}

/// Header lines: `;` ends a line, `|` joins two values on one.
fn stack(name: &str, shape: &[Vec<String>]) -> Lines {
    shape.iter().map(|vs| (name.to_string(), vs.join(", "))).collect()
}

const VIAS: [&str; 4] = [
    "SIP/2.0/UDP edge.example.net;branch=z9hG4bKedge",
    "SIP/2.0/TLS client.example.org:5071;received=192.0.2.1;rport=4711;branch=z9hG4bKclient",
    "SIP/2.0/TCP [2001:db8::1]:5060;branch=z9hG4bKsix",
    "SIP/2.0/UDP odd.example.com;note=\"a,b;branch=z9hG4bKfake\";branch=z9hG4bKodd",
];

/// Every way to put the first `n` of `vals` on lines, for n up to `max`.
fn shapes(vals: &[&str], max: usize) -> Vec<Vec<Vec<String>>> {
    let mut out = vec![vec![]];
    for n in 1..=max.min(vals.len()) {
        for first in 0..vals.len() {
            for cut in 0..1 << (n - 1) {
                let mut s: Vec<Vec<String>> = vec![vec![]];
                for k in 0..n {
                    s.last_mut().unwrap().push(vals[(first + k) % vals.len()].to_string());
                    if k + 1 < n && cut >> k & 1 == 1 {
                        s.push(vec![]);
                    }
                }
                out.push(s);
            }
        }
    }
    out
}

fn combinations(dims: &[usize]) -> Vec<Vec<usize>> {
    dims.iter().fold(vec![vec![]], |all, d| all.iter().flat_map(|v| (0..*d).map(move |x| [v.as_slice(), &[x]].concat())).collect())
}

/// What the hop count must become; `None`: not to be forwarded.
fn hops(mf: Option<&str>) -> Option<String> {
    let Some(v) = mf else { return Some("69".into()) };
    if v.is_empty() || !v.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    match v.parse::<u64>() {
        Ok(n @ 1..=255) => Some((n - 1).to_string()),
        _ => None,
    }
}

fn forward(run: &Run) {
    let deep = run.thorough();
    let vias = shapes(&VIAS, if deep { 4 } else { 3 });
    let rrs = shapes(&["<sip:p1.example.com;lr>", "\"Proxy, 2\" <sip:p2.example.com:5070;lr;transport=tcp>", "<sip:p3.example.com>;x=\"a,b\""], if deep { 3 } else { 2 });
    let routes = shapes(&["<sip:next.example.com;lr>", "<sip:strict.example.com>"], 2);
    let mfs = [None, Some("70"), Some("1"), Some("0"), Some("255"), Some("256"), Some("007"), Some("-1"), Some("+5"), Some("x"), Some("99999999999999999999")];
    let targets = ["sip:bob@192.0.2.7:5062;transport=tcp", "sips:bob@[2001:db8::7]", "sip:example.com"];
    let own = [None, Some("sip:proxy.example.com"), Some("sip:proxy.example.com;lr"), Some("sip:proxy@[2001:db8::9]:5071;transport=tcp")];
    let seen = Mutex::new(BTreeSet::new());
    let dims = [vias.len(), rrs.len(), routes.len()];
    let outer: Vec<Vec<usize>> = combinations(&dims);
    par_for(run, outer.len(), |o| {
        let (v, rr, ro) = (&vias[outer[o][0]], &rrs[outer[o][1]], &routes[outer[o][2]]);
        let mut branches = vec![];
        for mf in mfs {
            for target in targets {
                for add in [false, true] {
                    for own in own {
                        let mut l: Lines = vec![("X-First".into(), "1".into())];
                        l.extend(stack("Via", v));
                        l.push(("From".into(), "<sip:alice@example.com>;tag=a".into()));
                        l.extend(stack("Record-Route", rr));
                        l.push(("To".into(), "<sip:bob@example.com>".into()));
                        l.extend(mf.map(|m| ("Max-Forwards".to_string(), m.to_string())));
                        l.extend(stack("Route", ro));
                        l.push(("Call-ID".into(), "c@example.com".into()));
                        l.push(("CSeq".into(), "7 INVITE".into()));
                        l.push(("X-First".into(), "2".into()));
                        let req = request(Method::Invite, "sip:bob@example.com", &l, b"v=0\r\n");
                        let own_uri = own.map(uri);
                        let host = ["proxy.example.com", "192.0.2.9:5070", "[2001:db8::9]:5060"][o % 3];
                        let transport = ["UDP", "TLS"][o % 2];
                        let got = prepare_forward(&req, &uri(target), host, transport, add, own_uri.as_ref());
                        run.step(1);
                        let mut why = vec![];
                        match (&got, hops(mf)) {
                            (Err(_), None) => {}
                            (Err(e), Some(_)) => why.push(format!("refused: {e}")),
                            (Ok(_), None) => why.push("forwarded".into()),
                            (Ok((f, branch)), Some(left)) => {
                                let fl = lines(f.headers());
                                branches.push(branch.to_string());
                                let want: Vec<String> = std::iter::once(format!("SIP/2.0/{transport} {host};branch={branch};rport")).chain(v.iter().flatten().cloned()).collect();
                                if values(&fl, "Via") != want {
                                    why.push(format!("Via {:?}", values(&fl, "Via")));
                                }
                                if !branch.starts_with("z9hG4bK") || branch.len() < 12 {
                                    why.push(format!("branch {branch}"));
                                }
                                let mut want: Vec<String> = vec![];
                                if let (true, Some(o)) = (add, own) {
                                    want.push(if o.contains(";lr") { format!("<{o}>") } else { format!("<{o};lr>") });
                                }
                                want.extend(rr.iter().flatten().cloned());
                                if values(&fl, "Record-Route") != want {
                                    why.push(format!("Record-Route {:?}", values(&fl, "Record-Route")));
                                }
                                if values(&fl, "Max-Forwards") != [left] {
                                    why.push(format!("Max-Forwards {:?}", values(&fl, "Max-Forwards")));
                                }
                                let other = ["Via", "Record-Route", "Max-Forwards"];
                                if without(&fl, &other) != without(&l, &other) {
                                    why.push(format!("other headers {:?}", without(&fl, &other)));
                                }
                                if f.uri().as_str() != target || f.method() != req.method() || f.body() != req.body() {
                                    why.push(format!("{:?} {} {:?}", f.method(), f.uri().as_str(), f.body()));
                                }
                            }
                        }
                        if lines(req.headers()) != l {
                            why.push("the original changed".into());
                        }
                        run.check(why.is_empty(), || format!("forward Max-Forwards {mf:?} to {target}, Record-Route {add} {own:?}, {l:?}"), || why.join("; "));
                    }
                }
            }
        }
        let n = branches.len();
        let set: BTreeSet<String> = branches.into_iter().collect();
        let mut all = seen.lock().unwrap();
        let before = all.len();
        all.extend(set.iter().cloned());
        run.check(all.len() == before + n, || format!("fresh branches {o}"), || "a branch was used twice".into());
        run.trace();
        run.state(&("forward", &outer[o]));
    });
    // as many headers as there may be
    for n in 190..=200 {
        for add in [false, true] {
            let l: Lines = (0..n - 1).map(|k| (format!("X-{k}"), "1".to_string())).chain([("Max-Forwards".to_string(), "70".to_string())]).collect();
            let req = request(Method::Invite, "sip:bob@example.com", &l, b"");
            let own = uri("sip:proxy.example.com");
            run.step(1);
            let got = catch_unwind(AssertUnwindSafe(|| prepare_forward(&req, &uri("sip:b@c.example.com"), "p", "UDP", add, Some(&own))));
            let fits = n + 1 + usize::from(add) <= 200;
            run.check(got.as_ref().is_ok_and(|g| g.is_ok() == fits), || format!("forward {n} headers, Record-Route {add}"), || format!("{:?}", got.map(|g| g.map(|_| ()).map_err(|e| e.to_string())).map_err(|_| "panicked")));
        }
    }
    run.note("via_shapes", vias.len());
}

/// Forwarded responses lose the topmost Via and nothing else; one that answers
/// a forwarded request ends up with the Vias the request came with.
fn respond(run: &Run) {
    for v in shapes(&VIAS, 4) {
        for place in 0..3 {
            let mut l: Lines = vec![("From".into(), "<sip:a@example.com>;tag=a".into()), ("Record-Route".into(), "<sip:p1;lr>, <sip:p2;lr>".into()), ("CSeq".into(), "1 INVITE".into())];
            for (k, line) in stack("Via", &v).into_iter().enumerate() {
                l.insert((place * (k + 1)).min(l.len()), line);
            }
            let mut order: Vec<String> = values(&l, "Via");
            for code in [100u16, 180, 200, 302, 486, 603] {
                let mut h = Headers::new();
                l.iter().for_each(|(n, v)| h.push(n, v).unwrap());
                let r = Response::new(StatusLine::new(code, "R").unwrap(), h, Bytes::from_static(b"body")).unwrap();
                let f = prepare_response(&r);
                let fl = lines(f.headers());
                run.step(1);
                let want: Vec<String> = order.iter().skip(1).cloned().collect();
                let ok = values(&fl, "Via") == want && without(&fl, &["Via"]) == without(&l, &["Via"]) && f.code() == code && f.reason() == "R" && f.body() == r.body() && lines(r.headers()) == l;
                run.check(ok, || format!("response {code} {l:?}"), || format!("{fl:?}"));
            }
            // there and back
            let mut req = request(Method::Invite, "sip:b@example.com", &l, b"");
            ProxyHelpers::add_via(&mut req, "p1.example.com", "UDP");
            ProxyHelpers::add_via_with_loop_detection(&mut req, "p2.example.com:5061", "TLS");
            let mut h = req.headers().clone();
            for _ in 0..2 {
                ProxyHelpers::remove_top_via(&mut h);
            }
            order = values(&l, "Via");
            run.check(values(&lines(&h), "Via") == order && without(&lines(&h), &["Via"]) == without(&l, &["Via"]), || format!("there and back {l:?}"), || format!("{:?}", lines(&h)));
            run.state(&("response", &l));
            run.trace();
        }
    }
}

// ---- loops and spirals -------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Hop {
    /// through this proxy, as the Request-URI says
    Own,
    /// through another proxy: its Via on a line of its own
    Other,
    /// through another proxy that puts its Via on the line of the one below
    Joined,
    /// another proxy retargets the request to the URI
    Uri(usize),
    /// another proxy consumes the first Route
    Route,
    /// another proxy gives it a route back through here
    Back,
}

fn journey(run: &Run, host: &str, hops: &[Hop]) {
    let uris = ["sip:bob@example.com", "sip:bob@b.example.org", "sip:carol@example.com;x=1"];
    let mut l: Lines = vec![("Via".into(), VIAS[1].into()), ("From".into(), "<sip:alice@example.com>;tag=a".into()), ("To".into(), "<sip:bob@example.com>".into()), ("Call-ID".into(), "c".into()), ("CSeq".into(), "7 INVITE".into()), ("Max-Forwards".into(), "70".into())];
    l.push(("Route".into(), "<sip:r1.example.com;lr>".into()));
    let mut req = request(Method::Invite, uris[0], &l, b"");
    let mut been: BTreeSet<(String, Vec<String>)> = BTreeSet::new();
    let (mut own, mut total) = (false, 1);
    for (k, hop) in hops.iter().enumerate() {
        run.step(1);
        match *hop {
            Hop::Own => {
                let state = (req.uri().as_str().to_string(), values(&lines(req.headers()), "Route"));
                let looped = been.contains(&state);
                let key = || format!("{host}: {:?}", &hops[..=k]);
                run.check(ProxyHelpers::detect_loop_hashed(&req, host).is_err() == looped, key, || format!("loop: {looped}; {:?}", lines(req.headers())));
                // the coarser check: any Via of this host
                run.check(ProxyHelpers::detect_loop(&req, host).is_err() == own, || format!("coarse {}", key()), || format!("{:?}", lines(req.headers())));
                // another proxy of the same request does not mind
                run.check(ProxyHelpers::detect_loop_hashed(&req, "unrelated.example.com").is_ok() && ProxyHelpers::detect_loop(&req, "unrelated.example.com").is_ok(), || format!("unrelated {}", key()), || format!("{:?}", lines(req.headers())));
                let bare = host.rsplit_once(':').filter(|x| !host.ends_with(']') && x.1.bytes().all(|b| b.is_ascii_digit())).map_or(host, |x| x.0);
                run.check(ProxyHelpers::detect_loop(&req, bare).is_err() == own, || format!("coarse, without port {}", key()), || format!("{:?}", lines(req.headers())));
                if looped {
                    return;
                }
                been.insert(state);
                ProxyHelpers::check_max_forwards(&mut req).unwrap();
                let b = ProxyHelpers::add_via_with_loop_detection(&mut req, host, "UDP");
                let top = values(&lines(req.headers()), "Via")[0].clone();
                run.check(sip_core::is_valid_branch(&b) && top == format!("SIP/2.0/UDP {host};branch={b};rport"), || format!("via {}", key()), || top);
                own = true;
            }
            Hop::Other => {
                ProxyHelpers::add_via(&mut req, "other.example.net", "TCP");
            }
            Hop::Joined => {
                let old: Vec<String> = req.headers().get_all("Via").map(String::from).collect();
                let mut h = Headers::new();
                let mut first = true;
                for (n, v) in lines(req.headers()) {
                    if n == "Via" && std::mem::take(&mut first) {
                        h.push("Via", format!("SIP/2.0/UDP other.example.net:5066;branch=z9hG4bKj{k},{}", old[0])).unwrap();
                    } else {
                        h.push(n, v).unwrap();
                    }
                }
                *req.headers_mut() = h;
            }
            Hop::Uri(u) => ProxyHelpers::set_request_uri(&mut req, uri(uris[u])),
            Hop::Route => {
                if let Some(i) = req.headers().iter().position(|h| h.name() == "Route") {
                    req.headers_mut().remove_at(i);
                }
            }
            Hop::Back => {
                req.headers_mut().push("Route", "<sip:back.example.com;lr>").unwrap();
            }
        }
        total += matches!(hop, Hop::Own | Hop::Other | Hop::Joined) as usize;
        run.check(values(&lines(req.headers()), "Via").len() == total, || format!("Vias {hops:?}"), || format!("{:?}", lines(req.headers())));
    }
    run.trace();
}

fn loops(run: &Run) {
    let alpha = [Hop::Own, Hop::Other, Hop::Joined, Hop::Uri(0), Hop::Uri(1), Hop::Uri(2), Hop::Route, Hop::Back];
    let depth = if run.thorough() { 7 } else { 5 };
    for host in ["proxy.example.com", "192.0.2.9:5070", "[2001:db8::9]:5060", "[2001:db8::9]"] {
        sequences(run, alpha.len(), depth, |ix| {
            journey(run, host, &ix.iter().map(|i| alpha[*i]).collect::<Vec<_>>());
            run.state(&("journey", host, ix));
        });
    }
    run.note("journey_length", depth);
    // the limit on hops
    for n in 0..=75usize {
        let joined = (0..n).map(|k| format!("SIP/2.0/UDP h{k}.example.com;branch=z9hG4bK{k}")).collect::<Vec<_>>();
        let apart: Lines = joined.iter().map(|v| ("Via".to_string(), v.clone())).collect();
        let mut together: Lines = vec![];
        for c in joined.chunks(10) {
            together.push(("Via".into(), c.join(",")));
        }
        for l in [apart, together] {
            let req = request(Method::Options, "sip:b@example.com", &l, b"");
            run.step(1);
            run.check(ProxyHelpers::detect_loop(&req, "proxy.example.com").is_err() == (n > 70), || format!("{n} Vias on {} lines", l.len()), String::new);
        }
    }
    // what tells two requests apart
    let base = |i: usize| -> Request {
        let mut f = ["<sip:bob@example.com>", "<sip:alice@example.com>;tag=a", "c", "7 INVITE"].map(String::from);
        let mut target = "sip:bob@example.com".to_string();
        match i {
            1 => f[0] = "<sip:bob@example.com>;tag=z".into(),
            2 => f[1] = "<sip:alice@example.com>;tag=b".into(),
            3 => f[2] = "d".into(),
            4 => f[3] = "8 INVITE".into(),
            5 => target = "sip:bob@example.com;maddr=192.0.2.1".into(),
            _ => {}
        }
        let l: Lines = [("To", &f[0]), ("From", &f[1]), ("Call-ID", &f[2]), ("CSeq", &f[3])].iter().map(|(n, v)| (n.to_string(), v.to_string())).collect();
        request(Method::Invite, &target, &l, b"")
    };
    for i in 0..6 {
        for j in 0..6 {
            let mut a = base(i);
            let b = ProxyHelpers::add_via_with_loop_detection(&mut a, "p", "UDP");
            let mut c = base(j);
            let d = ProxyHelpers::add_via_with_loop_detection(&mut c, "p", "UDP");
            run.check((b == d) == (i == j), || format!("branches of requests {i} and {j}"), || format!("{b} {d}"));
        }
    }
}

// ---- routes ------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Node {
    /// this code, in the route set with lr
    Loose,
    /// a strict router of RFC 2543
    Strict,
}

/// A request of a dialog whose route set has these nodes: each is visited in
/// turn and the target gets the request with its own URI and no Route.
fn path(run: &Run, nodes: &[Node], spell: usize, recover: bool) {
    let name = |k: usize| match nodes[k] {
        Node::Loose => format!("sip:n{k}.example.com;lr"),
        Node::Strict => format!("sip:n{k}.example.com:5070;transport=tcp"),
    };
    let wrap = |u: &str| match spell {
        0 => format!("<{u}>"),
        _ => format!("\"N, <x>\" <{u}>;p=\"a,b\""),
    };
    let target = "sip:bob@192.0.2.4:5066;transport=tcp";
    let mut set: Vec<String> = (0..nodes.len()).map(|k| wrap(&name(k))).collect();
    // RFC 3261 12.2.1.1
    let mut to = target.to_string();
    if nodes.first() == Some(&Node::Strict) {
        set.remove(0);
        set.push(format!("<{target}>"));
        to = name(0);
    }
    let mut l: Lines = vec![("Call-ID".into(), "c".into())];
    l.extend(set.iter().map(|r| ("Route".to_string(), r.clone())));
    l.push(("Max-Forwards".into(), "70".into()));
    let mut req = request(Method::Bye, &to, &l, b"");
    let (mut visited, mut at) = (vec![], if nodes.is_empty() { target.to_string() } else { name(0) });
    let who = |u: &SipUri| (0..nodes.len()).find(|&k| u.host() == format!("n{k}.example.com"));
    while let Some(k) = who(&uri(&at)) {
        run.step(1);
        visited.push(k);
        if visited.len() > nodes.len() {
            break;
        }
        match nodes[k] {
            Node::Strict => {
                // the next Route becomes the Request-URI
                let i = req.headers().iter().position(|h| h.name() == "Route");
                if let Some(i) = i {
                    let r = RouteHeader::parse(req.headers().as_slice()[i].value()).unwrap();
                    req.headers_mut().remove_at(i);
                    req.set_uri(r.uri().clone());
                }
                at = req.uri().as_str().to_string();
            }
            Node::Loose => {
                let me = |u: &Uri| u.as_str() == name(k);
                if recover {
                    ProxyHelpers::recover_strict_routed_request_uri(&mut req, me);
                } else {
                    RouteProcessor::process_route_set(&mut req, &[uri("sip:elsewhere.example.com;lr"), uri(&name(k))]).unwrap();
                }
                // 16.4: the first Route is this proxy's
                let i = req.headers().iter().position(|h| h.name() == "Route");
                if let Some(i) = i {
                    if RouteHeader::parse(req.headers().as_slice()[i].value()).is_ok_and(|r| me(r.uri())) {
                        req.headers_mut().remove_at(i);
                    }
                }
                at = RouteProcessor::get_next_hop(&req).map(|u| u.as_str().to_string()).unwrap_or_default();
                ProxyHelpers::apply_strict_routing_swap(&mut req);
                if at.is_empty() {
                    break;
                }
            }
        }
    }
    let order: Vec<usize> = (0..nodes.len()).collect();
    let left = values(&lines(req.headers()), "Route");
    let ok = visited == order && at == target && req.uri().as_str() == target && left.is_empty() && without(&lines(req.headers()), &["Route"]) == without(&l, &["Route"]);
    run.check(ok, || format!("path {nodes:?} spelling {spell} recover {recover}"), || format!("visited {visited:?}, arrived at {at} as {} with {left:?}", req.uri().as_str()));
    run.state(&("path", format!("{nodes:?}"), spell));
    run.trace();
}

fn routes(run: &Run) {
    for n in 0..=if run.thorough() { 10 } else { 7 } {
        sequences(run, 2, n, |ix| {
            let nodes: Vec<Node> = ix.iter().map(|i| [Node::Loose, Node::Strict][*i]).collect();
            for spell in 0..2 {
                for recover in [false, true] {
                    path(run, &nodes, spell, recover);
                }
            }
        });
    }
    // single helpers on every spelling of a route set
    let spelled = [("<sip:a.example.com;lr>", "sip:a.example.com;lr"), ("\"A, <b>\" <sip:b.example.com:5070;lr>;x=\"1,2\"", "sip:b.example.com:5070;lr"), ("<sip:c@[2001:db8::1];transport=tcp>", "sip:c@[2001:db8::1];transport=tcp"), ("Name <sips:d.example.com>;p", "sips:d.example.com"), ("<sip:e.example.com;LR>", "sip:e.example.com;LR"), ("<sip:f.example.com;lr=on>", "sip:f.example.com;lr=on")];
    let vals: Vec<&str> = spelled.iter().map(|x| x.0).collect();
    let plain = |v: &str| uri(spelled.iter().find(|x| x.0 == v).unwrap().1).as_str().to_string();
    let me = "sip:proxy.example.com;lr";
    for s in shapes(&vals, 3) {
        for target in [me, "sip:bob@example.com"] {
            let flat: Vec<String> = s.iter().flatten().cloned().collect();
            let mut l: Lines = vec![("To".into(), "<sip:b@example.com>".into())];
            l.extend(stack("Route", &s));
            l.push(("X".into(), "1".into()));
            let key = |what: &str| format!("{what} {target} {l:?}");
            let made = || request(Method::Invite, target, &l, b"x");
            let same = |r: &Request| without(&lines(r.headers()), &["Route"]) == without(&l, &["Route"]) && r.body() == &Bytes::from_static(b"x") && r.method() == &Method::Invite;
            let hop = RouteProcessor::get_next_hop(&made()).map(|u| u.as_str().to_string()).ok();
            let want = flat.first().map_or(target.to_string(), |f| plain(f));
            run.step(4);
            run.check(hop.as_ref() == Some(&want), || key("next hop"), || format!("{hop:?}, want {want}"));
            // a Request-URI this proxy placed: the last Route is the real one
            let mut r = made();
            let got = RouteProcessor::process_route_set(&mut r, &[uri(me)]).map(|u| u.map(|u| u.as_str().to_string()));
            let due = target == me && !flat.is_empty();
            let mut left = flat.clone();
            let want = if due { plain(&left.pop().unwrap()) } else { target.to_string() };
            let ok = got.as_ref().is_ok_and(|g| g.as_ref() == due.then_some(&want)) && r.uri().as_str() == want && values(&lines(r.headers()), "Route") == left && same(&r);
            run.check(ok, || key("own Request-URI"), || format!("{got:?} {} {:?}", r.uri().as_str(), lines(r.headers())));
            let apart = s.iter().all(|line| line.len() == 1);
            if apart {
                let mut r = made();
                let got = ProxyHelpers::recover_strict_routed_request_uri(&mut r, |u| u.as_str() == me);
                let ok = got == due && r.uri().as_str() == want && values(&lines(r.headers()), "Route") == left && same(&r);
                run.check(ok, || key("recover"), || format!("{got} {} {:?}", r.uri().as_str(), lines(r.headers())));
                // a strict router ahead
                let mut r = made();
                let got = ProxyHelpers::apply_strict_routing_swap(&mut r);
                let strict = flat.first().is_some_and(|f| !plain(f).to_lowercase().contains(";lr"));
                let (mut left, mut want) = (flat.clone(), target.to_string());
                if strict {
                    want = plain(&left.remove(0));
                    left.push(format!("<{target}>"));
                }
                let ok = got == strict && r.uri().as_str() == want && values(&lines(r.headers()), "Route") == left && same(&r);
                run.check(ok, || key("swap"), || format!("{got} {} {:?}", r.uri().as_str(), lines(r.headers())));
            }
            // ACK: of a 2xx it travels like any request, of others as it came
            for kind in [AckType::For2xx, AckType::Non2xx] {
                let ack = request(Method::Ack, target, &l, b"x");
                let got = AckForwarder::prepare_ack(&ack, kind);
                let strict = kind == AckType::For2xx && flat.first().is_some_and(|f| !plain(f).to_lowercase().contains(";lr"));
                let (mut left, mut want) = (flat.clone(), target.to_string());
                if strict {
                    want = plain(&left.remove(0));
                }
                let ok = got.as_ref().is_ok_and(|g| {
                    let fl = lines(g.headers());
                    let mut routes = values(&fl, "Route");
                    if strict && routes.last() == Some(&format!("<{target}>")) {
                        routes.pop();
                    }
                    routes == left && g.uri().as_str() == want && without(&fl, &["Route"]) == without(&l, &["Route"])
                });
                run.check(ok, || key(&format!("ACK {kind:?}")), || format!("{:?}", got.as_ref().map(|g| (g.uri().as_str().to_string(), lines(g.headers()))).ok()));
                if strict {
                    let keeps = got.is_ok_and(|g| values(&lines(g.headers()), "Route").last() == Some(&format!("<{target}>")));
                    run.check(keeps, || "ACK to a strict router loses the Request-URI".to_string(), || key("for instance"));
                }
                let t = AckForwarder::ack_type(&ack, None);
                run.check(t == if flat.is_empty() { AckType::Non2xx } else { AckType::For2xx }, || key("kind of ACK"), || format!("{t:?}"));
            }
            run.state(&("routes", &l, target));
            run.trace();
        }
    }
}

/// A CANCEL is for an INVITE if Request-URI, Call-ID, From tag and CSeq number
/// are the same.
fn cancels(run: &Run) {
    let uris = ["sip:bob@example.com", "sip:carol@example.com"];
    let ids = ["c1", "C1"];
    let from = [("<sip:alice@example.com>;tag=a", "a"), ("\"x;tag=b\" <sip:alice@example.com;tag=c>;Tag=a", "a"), ("sip:alice@example.com;tag=A", "A"), ("\"Al\" <sip:alice@example.com>; q=1 ; tag=ab", "ab"), ("<sip:alice@example.com;tag=a>", "")];
    let cseq = [("7", 7u32), ("07", 7), ("8", 8), ("4294967295", u32::MAX)];
    let tos = ["<sip:bob@example.com>", "<sip:bob@example.com>;tag=t"];
    let dims = [uris.len(), ids.len(), from.len(), cseq.len(), tos.len()];
    let all: Vec<Vec<usize>> = combinations(&dims);
    let make = |m: Method, x: &[usize]| {
        let l: Lines = [("Call-ID", ids[x[1]].to_string()), ("From", from[x[2]].0.to_string()), ("CSeq", format!("{} {}", cseq[x[3]].0, m.as_str())), ("To", tos[x[4]].to_string())].map(|(n, v)| (n.to_string(), v)).to_vec();
        request(m, uris[x[0]], &l, b"")
    };
    par_for(run, all.len(), |i| {
        let a = &all[i];
        let c = make(Method::Cancel, a);
        for b in &all {
            let want = a[0] == b[0] && a[1] == b[1] && from[a[2]].1 == from[b[2]].1 && cseq[a[3]].1 == cseq[b[3]].1;
            run.step(1);
            run.check(CancelForwarder::matches_invite(&c, &make(Method::Invite, b)) == want, || format!("CANCEL {a:?} for INVITE {b:?}"), || format!("want {want}"));
        }
        run.state(&("cancel", a));
    });
    // without one of the fields it is for none
    for gone in ["Call-ID", "From", "CSeq"] {
        let whole = make(Method::Invite, &[0; 5]);
        let mut c = make(Method::Cancel, &[0; 5]);
        c.headers_mut().remove(gone);
        run.check(!CancelForwarder::matches_invite(&c, &whole), || format!("CANCEL without {gone}"), String::new);
        let mut w = whole.clone();
        w.headers_mut().remove(gone);
        run.check(!CancelForwarder::matches_invite(&make(Method::Cancel, &[0; 5]), &w), || format!("INVITE without {gone}"), String::new);
    }
}

pub fn p27(run: &Run) {
    forward(run);
    respond(run);
    loops(run);
    routes(run);
    cancels(run);
    run.assume("Strict-routing helpers get one Route value per line, as they document; the caller removes its own first Route");
    run.assume("The request is in the form sip_parse gives it: header names in their long form");
}
