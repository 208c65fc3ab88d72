//! P20: server location against a scripted name server on the loopback network.
//!
//! Every URI form is resolved against every zone in bounds by the real resolver; the targets, in
//! order, and the questions it asked must be those of a reference RFC 3263 procedure.
use common::{permutations, product, threads, Run};
use hickory_resolver::config::*;
use sip_core::SipUri;
use sip_dns::{DnsTarget, Resolver, SipResolver, StaticResolver, Transport};
use std::collections::{BTreeMap, HashMap};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, UdpSocket};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use Transport::*;

const A: u16 = 1;
const AAAA: u16 = 28;
const SRV: u16 = 33;
const NAPTR: u16 = 35;

#[derive(Clone, Debug, PartialEq)]
enum Rr {
    A(Ipv4Addr),
    Aaaa(Ipv6Addr),
    /// priority, weight, port, target
    Srv(u16, u16, u16, String),
    /// order, preference, flags, services, replacement
    Naptr(u16, u16, &'static str, &'static str, String),
}
#[derive(Clone, Debug, PartialEq)]
enum Ans {
    Data(Vec<Rr>),
    NoData,
    NxDomain,
    ServFail,
    /// The server never answers.
    Silent,
}
#[derive(Clone, Debug, Default)]
struct Zone(BTreeMap<(String, u16), Ans>);
impl Zone {
    fn get(&self, name: &str, t: u16) -> &Ans {
        self.0.get(&(name.to_ascii_lowercase(), t)).unwrap_or(&Ans::NxDomain)
    }
    fn data(&self, name: &str, t: u16) -> Vec<Rr> {
        match self.get(name, t) {
            Ans::Data(v) => v.clone(),
            _ => vec![],
        }
    }
    fn set(&mut self, name: &str, t: u16, a: Ans) {
        self.0.insert((name.to_string(), t), a);
    }
}

fn wire_name(out: &mut Vec<u8>, n: &str) {
    for l in n.trim_end_matches('.').split('.').filter(|l| !l.is_empty()) {
        out.push(l.len() as u8);
        out.extend(l.as_bytes());
    }
    out.push(0);
}
fn rdata(rr: &Rr) -> (u16, Vec<u8>) {
    let mut d = vec![];
    match rr {
        Rr::A(a) => {
            d.extend(a.octets());
            (A, d)
        }
        Rr::Aaaa(a) => {
            d.extend(a.octets());
            (AAAA, d)
        }
        Rr::Srv(p, w, port, t) => {
            for x in [p, w, port] {
                d.extend(x.to_be_bytes());
            }
            wire_name(&mut d, t);
            (SRV, d)
        }
        Rr::Naptr(o, p, f, s, r) => {
            for x in [o, p] {
                d.extend(x.to_be_bytes());
            }
            for s in [f, s, &""] {
                d.push(s.len() as u8);
                d.extend(s.as_bytes());
            }
            wire_name(&mut d, r);
            (NAPTR, d)
        }
    }
}
fn reply(q: &[u8], zone: &Zone, log: &mut Vec<(String, u16)>) -> Option<Vec<u8>> {
    if q.len() < 17 {
        return None;
    }
    let (mut i, mut name) = (12, String::new());
    while q[i] != 0 {
        let l = q[i] as usize;
        if !name.is_empty() {
            name.push('.');
        }
        name.push_str(&String::from_utf8_lossy(&q[i + 1..i + 1 + l]));
        i += l + 1;
    }
    let qt = u16::from_be_bytes([q[i + 1], q[i + 2]]);
    let end = i + 5;
    log.push((name.to_ascii_lowercase(), qt));
    let (code, rrs) = match zone.get(&name, qt) {
        Ans::Data(v) => (0, v.clone()),
        Ans::NoData => (0, vec![]),
        Ans::NxDomain => (3, vec![]),
        Ans::ServFail => (2, vec![]),
        Ans::Silent => return None,
    };
    let mut o = vec![q[0], q[1], 0x85, 0x80 | code, 0, 1, 0, rrs.len() as u8, 0, 0, 0, 0];
    o.extend(&q[12..end]);
    for r in &rrs {
        let (t, d) = rdata(r);
        o.extend([0xc0, 12]);
        o.extend(t.to_be_bytes());
        o.extend([0, 1, 0, 0, 0, 60]);
        o.extend((d.len() as u16).to_be_bytes());
        o.extend(d);
    }
    Some(o)
}

type Shared = Arc<Mutex<(Zone, Vec<(String, u16)>)>>;
/// One resolver with its own name server.
struct Node {
    rt: tokio::runtime::Runtime,
    res: SipResolver,
    zone: Shared,
}
impl Node {
    fn new(timeout: Duration) -> Node {
        let sock = UdpSocket::bind("127.0.0.1:0").unwrap();
        let port = sock.local_addr().unwrap().port();
        let zone: Shared = Default::default();
        let z = zone.clone();
        std::thread::spawn(move || {
            let mut b = [0u8; 2048];
            while let Ok((n, from)) = sock.recv_from(&mut b) {
                let r = {
                    let mut g = z.lock().unwrap();
                    let (zone, log) = &mut *g;
                    reply(&b[..n], zone, log)
                };
                if let Some(r) = r {
                    let _ = sock.send_to(&r, from);
                }
            }
        });
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let mut conn = ConnectionConfig::udp();
        conn.port = port;
        conn.bind_addr = Some(SocketAddr::from(([127, 0, 0, 1], 0)));
        let ns = NameServerConfig::new(IpAddr::V4(Ipv4Addr::LOCALHOST), true, vec![conn]);
        let mut opts = ResolverOpts::default();
        opts.cache_size = 0;
        opts.attempts = 0;
        opts.timeout = Duration::from_secs(60);
        opts.use_hosts_file = ResolveHosts::Never;
        opts.os_port_selection = true;
        opts.try_tcp_on_error = false;
        let res = rt.block_on(async { SipResolver::with_config(ResolverConfig::from_parts(None, vec![], vec![ns]), opts).unwrap() });
        Node { rt, res: res.with_query_timeout(timeout), zone }
    }
    fn resolve(&self, zone: &Zone, uri: &SipUri, naptr: bool) -> (Result<Vec<DnsTarget>, String>, Vec<(String, u16)>) {
        {
            let mut g = self.zone.lock().unwrap();
            g.0 = zone.clone();
            g.1.clear();
        }
        let res = if naptr { self.res.clone() } else { self.res.clone().disable_naptr() };
        let r = self.rt.block_on(res.resolve(uri)).map_err(|e| e.to_string());
        let log = self.zone.lock().unwrap().1.clone();
        (r, log)
    }
}
thread_local! {
    static NODE: std::cell::OnceCell<Node> = const { std::cell::OnceCell::new() };
}
/// Far longer than any answer takes, so that a loaded machine changes nothing.
const PATIENT: Duration = Duration::from_secs(60);

#[derive(Clone, Debug, PartialEq)]
struct Target {
    host: String,
    port: u16,
    transport: Transport,
    tls_name: Option<String>,
    prio: u16,
}
/// Groups whose members may come in any order.
type Expect = Option<Vec<Vec<Target>>>;

const TRANSPORTS: [(&str, Option<Transport>); 11] = [
    ("", None),
    (";transport=udp", Some(Udp)),
    (";transport=tcp", Some(Tcp)),
    (";transport=tls", Some(Tls)),
    (";transport=ws", Some(Ws)),
    (";transport=wss", Some(Wss)),
    (";transport=sctp", Some(Sctp)),
    (";transport=tls-sctp", Some(TlsSctp)),
    (";transport=TcP", Some(Tcp)),
    (";transport=TLS-SCTP", Some(TlsSctp)),
    (";lr;transport=tls;user=phone", Some(Tls)),
];
fn secure(t: Transport) -> bool {
    matches!(t, Tls | Wss | TlsSctp)
}
/// WebSocket transports have default ports of their own (RFC 7118), which nothing in the stack
/// uses; they are not judged.
fn default_port(t: Transport) -> Option<u16> {
    match t {
        Udp | Tcp | Sctp => Some(5060),
        Tls | TlsSctp => Some(5061),
        Ws | Wss => None,
    }
}
fn srv_name(t: Transport, host: &str) -> String {
    let (s, p) = match t {
        Udp => ("_sip", "_udp"),
        Tcp => ("_sip", "_tcp"),
        Tls => ("_sips", "_tcp"),
        Ws => ("_sip", "_tcp"),
        Wss => ("_sips", "_tcp"),
        Sctp => ("_sip", "_sctp"),
        TlsSctp => ("_sips", "_sctp"),
    };
    format!("{s}.{p}.{host}")
}
fn service(s: &str) -> Option<Transport> {
    Some(match s.to_ascii_uppercase().as_str() {
        "SIP+D2U" => Udp,
        "SIP+D2T" => Tcp,
        "SIPS+D2T" => Tls,
        "SIP+D2W" => Ws,
        "SIPS+D2W" => Wss,
        "SIP+D2S" => Sctp,
        "SIPS+D2S" => TlsSctp,
        _ => return None,
    })
}

/// A request URI in parts.
#[derive(Clone, Debug)]
struct Form {
    sips: bool,
    host: String,
    port: Option<u16>,
    param: usize,
}
impl Form {
    fn text(&self) -> String {
        let host = if self.host.contains(':') { format!("[{}]", self.host) } else { self.host.clone() };
        let port = self.port.map(|p| format!(":{p}")).unwrap_or_default();
        format!("{}:bob@{host}{port}{}", if self.sips { "sips" } else { "sip" }, TRANSPORTS[self.param].0)
    }
    /// What the URI itself says about the transport.
    fn wish(&self) -> Option<Transport> {
        if self.sips {
            Some(Tls)
        } else {
            TRANSPORTS[self.param].1
        }
    }
}

fn addresses(z: &Zone, host: &str) -> Vec<String> {
    let v6: Vec<String> = z.data(host, AAAA).iter().filter_map(|r| if let Rr::Aaaa(a) = r { Some(a.to_string()) } else { None }).collect();
    let v4: Vec<String> = z.data(host, A).iter().filter_map(|r| if let Rr::A(a) = r { Some(a.to_string()) } else { None }).collect();
    let mut out = vec![];
    for i in 0..v6.len().max(v4.len()) {
        out.extend(v6.get(i).cloned());
        out.extend(v4.get(i).cloned());
    }
    out
}
fn srv_targets(z: &Zone, name: &str, t: Transport) -> Vec<Vec<Target>> {
    let mut g: BTreeMap<u16, Vec<Target>> = BTreeMap::new();
    for r in z.data(name, SRV) {
        if let Rr::Srv(p, _, port, target) = r {
            if target != "." {
                g.entry(p).or_default().push(Target { host: target.trim_end_matches('.').into(), port, transport: t, tls_name: None, prio: p });
            }
        }
    }
    g.into_values().collect()
}
/// The reference: targets in order, in groups of equal rank; a port of 0 stands for "not judged".
fn reference(z: &Zone, f: &Form, naptr: bool) -> Expect {
    let fallback = f.wish().unwrap_or(Udp);
    let one = |host: String, port: Option<u16>, tls: bool| {
        vec![Target { host, port: port.unwrap_or(0), transport: fallback, tls_name: if tls { Some(f.host.clone()) } else { None }, prio: 0 }]
    };
    if f.host.parse::<IpAddr>().is_ok() {
        return Some(vec![one(f.host.clone(), f.port.or(default_port(fallback)), false)]);
    }
    let direct = |port: Option<u16>| {
        let v: Vec<_> = addresses(z, &f.host).into_iter().map(|a| one(a, port, true)).collect();
        if v.is_empty() {
            None
        } else {
            Some(v)
        }
    };
    if f.port.is_some() {
        return direct(f.port);
    }
    let mut recs: Vec<(u16, u16, Transport, String)> = vec![];
    if naptr {
        for r in z.data(&f.host, NAPTR) {
            if let Rr::Naptr(o, p, _, s, rep) = r {
                if let Some(t) = service(s) {
                    if rep != "." && f.wish().is_none_or(|w| w == t) {
                        recs.push((o, p, t, rep.trim_end_matches('.').into()));
                    }
                }
            }
        }
    }
    // records of equal order and preference may be tried in any order
    recs.sort_by_key(|r| (r.0, r.1));
    let mut out = vec![];
    if recs.is_empty() {
        let list = match f.wish() {
            Some(t) => vec![t],
            None => vec![Tcp, Udp],
        };
        for t in list {
            out.extend(srv_targets(z, &srv_name(t, &f.host), t));
        }
    } else {
        let mut i = 0;
        while i < recs.len() {
            let j = (i..recs.len()).find(|&j| (recs[j].0, recs[j].1) != (recs[i].0, recs[i].1)).unwrap_or(recs.len());
            let lists: Vec<_> = recs[i..j].iter().map(|r| srv_targets(z, &r.3, r.2)).collect();
            if j - i == 1 {
                out.extend(lists.into_iter().flatten());
            } else {
                out.push(lists.into_iter().flatten().flatten().collect());
            }
            i = j;
        }
    }
    if out.iter().all(|g| g.is_empty()) {
        return direct(default_port(fallback));
    }
    Some(out)
}
fn matches(got: &[DnsTarget], want: &[Vec<Target>]) -> bool {
    let got: Vec<Target> = got
        .iter()
        .map(|t| Target { host: t.host().into(), port: t.port(), transport: t.transport(), tls_name: t.tls_name().map(|s| s.into()), prio: t.priority() })
        .collect();
    if got.len() != want.iter().map(|g| g.len()).sum::<usize>() {
        return false;
    }
    let mut at = 0;
    for g in want {
        let mut rest: Vec<&Target> = got[at..at + g.len()].iter().collect();
        at += g.len();
        for w in g {
            let Some(k) = rest.iter().position(|t| Target { port: if w.port == 0 { 0 } else { t.port }, ..(*t).clone() } == *w) else {
                return false;
            };
            rest.remove(k);
        }
    }
    true
}

fn judge(run: &Run, node: &Node, z: &Zone, f: &Form, naptr: bool) {
    let text = f.text();
    let Ok(uri) = SipUri::parse(&text) else {
        run.violation(format!("uri {text}"), "does not parse");
        return;
    };
    let (got, log) = node.resolve(z, &uri, naptr);
    run.step(1);
    run.trace();
    let zt = || {
        let v: Vec<String> = z.0.iter().map(|((n, t), a)| format!("{n} {t} {a:?}")).collect();
        v.join("; ")
    };
    let key = || format!("{text} naptr={naptr} in [{}]", zt());
    let want = reference(z, f, naptr);
    run.state(&(text.clone(), naptr, format!("{z:?}")));
    match (&got, &want) {
        (Err(_), None) => {}
        (Ok(g), Some(w)) if matches(g, w) => {}
        (g, w) => run.violation(key(), format!("got {g:?}, wanted {w:?}")),
    }
    if let Ok(g) = &got {
        if f.sips && g.iter().any(|t| !secure(t.transport())) {
            run.violation(key(), format!("a secure target was downgraded: {g:?}"));
        }
        if g.iter().any(|t| t.sni() != t.tls_name().unwrap_or(t.host())) {
            run.violation(key(), "sni is neither the reference identity nor the host");
        }
    }
    let numeric = f.host.parse::<IpAddr>().is_ok();
    let asked = |t: u16| log.iter().any(|(n, q)| *q == t && n.ends_with(&f.host));
    run.check(!numeric || log.iter().all(|(n, _)| !n.ends_with(&f.host)), key, || format!("a numeric host was looked up: {log:?}"));
    run.check(f.port.is_none() || (!asked(SRV) && !asked(NAPTR)), key, || format!("an explicit port was looked up: {log:?}"));
    run.check(numeric || f.port.is_some() || asked(NAPTR) == naptr, key, || format!("NAPTR asked wrongly: {log:?}"));
    run.sample(|| format!("{text}: {got:?}"));
}

fn a(n: u8) -> Rr {
    Rr::A(Ipv4Addr::new(192, 0, 2, n))
}
fn aaaa(n: u16) -> Rr {
    Rr::Aaaa(Ipv6Addr::new(0x2001, 0xdb8, 0, 0, 0, 0, 0, n))
}
fn srv(p: u16, w: u16, port: u16, t: &str) -> Rr {
    Rr::Srv(p, w, port, t.into())
}
/// Every list of up to `n` of `k` things.
fn lists(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|l| (0..k).map(move |i| [l.clone(), vec![i]].concat())).collect();
        out.extend(last.clone());
    }
    out
}
/// Host names differ from case to case, so that a stray question of an earlier case tells nothing.
fn host(f: usize, v: &[usize]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("h{f}-{}.test", s.join("-"))
}
fn with_node(f: impl FnOnce(&Node)) {
    NODE.with(|n| f(n.get_or_init(|| Node::new(PATIENT))));
}

pub fn p20(run: &Run) {
    // 1. Numeric hosts and explicit ports
    let hosts = ["192.0.2.7", "2001:db8::7", "H.test"];
    let alist = lists(3, run.pick(2, 3));
    product(run, &[2, hosts.len(), 3, TRANSPORTS.len(), alist.len(), alist.len(), 2], |v| {
        if v[1] < 2 && (v[4] > 0 || v[5] > 0) {
            return;
        }
        let port = [None, Some(5070), Some(5061)][v[2]];
        if v[1] == 2 && port.is_none() {
            return;
        }
        let h = if v[1] == 2 { host(1, v) } else { hosts[v[1]].into() };
        let mut z = Zone::default();
        let pool4 = [a(1), a(2), a(3)];
        let pool6 = [aaaa(1), aaaa(2), aaaa(3)];
        let set = |l: &Vec<usize>, p: &[Rr]| if l.is_empty() { Ans::NoData } else { Ans::Data(l.iter().map(|&i| p[i].clone()).collect()) };
        // one record occurs once in an answer
        if [&alist[v[4]], &alist[v[5]]].iter().any(|l| (1..l.len()).any(|i| l[..i].contains(&l[i]))) {
            return;
        }
        z.set(&h, A, set(&alist[v[4]], &pool4));
        z.set(&h, AAAA, set(&alist[v[5]], &pool6));
        z.set(&srv_name(Udp, &h), SRV, Ans::Data(vec![srv(0, 0, 1, "never.test")]));
        z.set(&h, NAPTR, Ans::Data(vec![Rr::Naptr(0, 0, "s", "SIP+D2U", srv_name(Udp, &h))]));
        with_node(|n| judge(run, n, &z, &Form { sips: v[0] == 1, host: h.clone(), port, param: v[3] }, v[6] == 0));
    });
    // 2. NAPTR records: services, order, preference and replacement, in every arrival order
    let services = ["SIP+D2U", "SIP+D2T", "SIPS+D2T", "sips+d2t", "SIP+D2W", "SIPS+D2W", "SIP+D2S", "SIPS+D2S", "E2U+sip", "XSIP+D2U", "SIP+D2TX"];
    let ranks = [(0u16, 0u16), (0, 1), (1, 0)];
    let recs: Vec<(usize, usize, usize)> = {
        let mut o = vec![];
        for s in 0..services.len() {
            for r in 0..ranks.len() {
                for rep in 0..3 {
                    // the odd ones need no variants
                    if s >= 8 && (rep > 0 || r > 0) || run.tier == common::Tier::Quick && rep == 2 && r > 0 {
                        continue;
                    }
                    o.push((s, r, rep));
                }
            }
        }
        o
    };
    let nl = lists(recs.len(), 2);
    let three: Vec<Vec<usize>> = if run.thorough() {
        // three records over the ones a proxy would publish
        let small: Vec<usize> = (0..recs.len()).filter(|&i| recs[i].0 < 3 && recs[i].2 < 2).collect();
        lists(small.len(), 3).into_iter().filter(|l| l.len() == 3).map(|l| l.into_iter().map(|i| small[i]).collect()).collect()
    } else {
        vec![]
    };
    let nl: Vec<Vec<usize>> = nl.into_iter().chain(three).collect();
    let uris: [(bool, usize); 8] = [(false, 0), (true, 0), (false, 2), (false, 3), (false, 1), (true, 1), (false, 7), (false, 4)];
    product(run, &[nl.len(), run.pick(5, uris.len())], |v| {
        let h = host(2, v);
        let mut z = Zone::default();
        let list = &nl[v[0]];
        let std = |s: usize| srv_name(service(services[s]).unwrap_or(Udp), &h);
        let rr: Vec<Rr> = list
            .iter()
            .map(|&i| {
                let (s, r, rep) = recs[i];
                Rr::Naptr(ranks[r].0, ranks[r].1, "s", services[s], [std(s), format!("other{s}.{h}"), ".".into()][rep].clone())
            })
            .collect();
        z.set(&h, NAPTR, if rr.is_empty() { Ans::NoData } else { Ans::Data(rr) });
        for (i, t) in [Udp, Tcp, Tls, Sctp, TlsSctp].into_iter().enumerate() {
            z.set(&srv_name(t, &h), SRV, Ans::Data(vec![srv(1, 0, 6000 + i as u16, &format!("std{i}.test"))]));
        }
        for s in 0..services.len() {
            z.set(&format!("other{s}.{h}"), SRV, Ans::Data(vec![srv(1, 0, 7000 + s as u16, &format!("o{s}.test"))]));
        }
        z.set(&h, A, Ans::Data(vec![a(9)]));
        let (sips, param) = uris[v[1]];
        with_node(|n| judge(run, n, &z, &Form { sips, host: h.clone(), port: None, param }, true));
    });
    // 3. SRV record sets: priorities, weights, targets, in every arrival order
    let mut pool = vec![];
    for p in [0u16, 1, 65535] {
        for w in [0u16, 65535] {
            for t in ["a.test.", "b.test.", "."] {
                if t == "." && (w > 0 || p > 1) {
                    continue;
                }
                pool.push(srv(p, w, if t == "a.test." { 5060 } else { 5062 }, t));
            }
        }
    }
    let sl = lists(pool.len(), run.pick(2, 3));
    let uris: [(bool, usize); 6] = [(false, 0), (true, 0), (false, 2), (false, 3), (false, 6), (false, 9)];
    product(run, &[sl.len(), uris.len(), 2], |v| {
        let h = host(3, v);
        let mut z = Zone::default();
        let set = &sl[v[0]];
        if (1..set.len()).any(|i| set[..i].contains(&set[i])) {
            return;
        }
        let rr: Vec<Rr> = set.iter().map(|&i| pool[i].clone()).collect();
        for t in [Tcp, Tls, Sctp, TlsSctp] {
            z.set(&srv_name(t, &h), SRV, if rr.is_empty() { Ans::NoData } else { Ans::Data(rr.clone()) });
        }
        z.set(&srv_name(Udp, &h), SRV, Ans::Data(vec![srv(0, 0, 5064, "u.test")]));
        z.set(&h, AAAA, Ans::Data(vec![aaaa(9)]));
        if v[2] == 1 {
            z.set(&h, NAPTR, Ans::Data(vec![Rr::Naptr(1, 1, "s", "SIP+D2T", srv_name(Tcp, &h)), Rr::Naptr(0, 1, "s", "SIPS+D2T", srv_name(Tls, &h))]));
        }
        let (sips, param) = uris[v[1]];
        with_node(|n| judge(run, n, &z, &Form { sips, host: h.clone(), port: None, param }, true));
    });
    // 3b. More records than two of a kind: every arrival order of five priorities
    let ranks: [&[u16]; 4] = [&[0, 1, 2, 3, 4], &[5, 5, 1, 1, 9], &[65535, 300, 256, 255, 1], &[0, 7, 7, 7, 0]];
    let weights: [&[u16]; 3] = [&[0, 0, 0, 0, 0], &[0, 1, 65535, 65535, 0], &[10, 20, 30, 40, 50]];
    let perms = permutations(5);
    product(run, &[ranks.len(), weights.len(), perms.len(), run.pick(2, 4)], |v| {
        let h = host(6, v);
        let mut z = Zone::default();
        let rr: Vec<Rr> = perms[v[2]].iter().map(|&i| srv(ranks[v[0]][i], weights[v[1]][i], 5060 + i as u16, &format!("t{i}.test"))).collect();
        z.set(&srv_name(Tcp, &h), SRV, Ans::Data(rr.clone()));
        z.set(&srv_name(Tls, &h), SRV, Ans::Data(rr.iter().take(4).cloned().collect()));
        z.set(&srv_name(Udp, &h), SRV, Ans::Data(rr.into_iter().skip(2).collect()));
        let (sips, param) = [(false, 0), (true, 0), (false, 2), (false, 3)][v[3]];
        with_node(|n| judge(run, n, &z, &Form { sips, host: h.clone(), port: None, param }, true));
    });
    // 3c. Up to five addresses of each family, with and without a port; many services offered
    product(run, &[6, 6, 3, 2], |v| {
        let h = host(7, v);
        let mut z = Zone::default();
        z.set(&h, A, if v[0] == 0 { Ans::NoData } else { Ans::Data((0..v[0]).map(|i| a(9 - i as u8)).collect()) });
        z.set(&h, AAAA, if v[1] == 0 { Ans::NoData } else { Ans::Data((0..v[1]).map(|i| aaaa(9 - i as u16)).collect()) });
        with_node(|n| judge(run, n, &z, &Form { sips: v[3] == 1, host: h.clone(), port: [None, Some(5070), Some(1)][v[2]], param: 0 }, true));
    });
    let perms = permutations(5);
    product(run, &[perms.len(), 4], |v| {
        let h = host(8, v);
        let mut z = Zone::default();
        let offer = [(1u16, 5u16, "SIP+D2U", Udp), (1, 300, "SIP+D2T", Tcp), (2, 0, "SIPS+D2T", Tls), (256, 0, "SIP+D2S", Sctp), (300, 9, "SIPS+D2S", TlsSctp)];
        z.set(&h, NAPTR, Ans::Data(perms[v[0]].iter().map(|&i| Rr::Naptr(offer[i].0, offer[i].1, "s", offer[i].2, srv_name(offer[i].3, &h))).collect()));
        for (i, o) in offer.iter().enumerate() {
            z.set(&srv_name(o.3, &h), SRV, Ans::Data((0..=i as u16).map(|k| srv(9 - k, 0, 6000 + k, &format!("o{i}.test"))).collect()));
        }
        let (sips, param) = [(false, 0), (true, 0), (false, 6), (false, 2)][v[1]];
        with_node(|n| judge(run, n, &z, &Form { sips, host: h.clone(), port: None, param }, true));
    });
    // 4. Every outcome of every question
    let uris: [(bool, usize); 6] = [(false, 0), (true, 0), (false, 1), (false, 3), (false, 2), (true, 2)];
    product(run, &[4, 4, 4, 4, 4, 4, run.pick(4, uris.len())], |v| {
        let h = host(4, v);
        let mut z = Zone::default();
        let names = [srv_name(Tcp, &h), srv_name(Udp, &h), srv_name(Tls, &h)];
        let mut put = |i: usize, name: &str, t: u16, d: Vec<Rr>| z.set(name, t, [Ans::Data(d), Ans::NoData, Ans::NxDomain, Ans::ServFail][v[i]].clone());
        put(0, &h, NAPTR, vec![Rr::Naptr(2, 0, "s", "SIP+D2T", names[0].clone()), Rr::Naptr(1, 0, "S", "SIP+D2U", names[1].clone()), Rr::Naptr(0, 0, "s", "SIPS+D2T", names[2].clone())]);
        for (i, n) in names.iter().enumerate() {
            put(1 + i, n, SRV, vec![srv(0, 1, 5060 + i as u16, &format!("s{i}.test"))]);
        }
        put(4, &h, A, vec![a(1)]);
        put(5, &h, AAAA, vec![aaaa(1)]);
        let (sips, param) = uris[v[6]];
        with_node(|n| judge(run, n, &z, &Form { sips, host: h.clone(), port: None, param }, true));
    });
    // 5. A server that never answers one kind of question
    silence(run);
    // 6. The documented limit on targets
    for n in [0usize, 1, 99, 100, 101, 150] {
        let r = StaticResolver::new((0..n).map(|i| DnsTarget::unchecked_new(format!("t{i}"), 5060, Udp)).collect());
        let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
        let got = rt.block_on(r.resolve(&SipUri::parse("sip:x@h.test").unwrap()));
        run.step(1);
        match got {
            Ok(v) => run.check(n <= 100 && v.len() == n && (0..n).all(|i| v[i].host() == format!("t{i}")), || format!("{n} static targets"), || format!("{} came out", v.len())),
            Err(e) => run.check(n > 100, || format!("{n} static targets"), || e.to_string()),
        }
    }
    // 7. Host names of targets
    let toks = ["a", "-", ".", "\r", "\n", "\0", "\x7f", " ", "é", "9"];
    common::token_strings(run, &toks, 3, |s| {
        run.step(1);
        let ok = !s.is_empty() && !s.chars().any(|c| c.is_control());
        run.check(DnsTarget::new(s, 1, Udp).is_ok() == ok, || format!("target host {s:?}"), || format!("accepted: {}", !ok));
    });
    for n in [1usize, 252, 253, 254, 300] {
        run.check(DnsTarget::new("a".repeat(n), 1, Udp).is_ok() == (n <= 253), || format!("target host of {n} bytes"), || "limit".into());
    }
    run.note("threads", threads());
    run.assume("targets of SRV records of one priority, and of NAPTR records of one rank, may come in any order");
    run.assume("default ports of WebSocket transports are not judged");
}

/// Silence costs one query timeout each, so these run on many threads of their own.
fn silence(run: &Run) {
    let uris: [(bool, usize); 3] = [(false, 0), (true, 0), (false, 2)];
    let mut cases = vec![];
    for q in 0..6 {
        for u in 0..uris.len() {
            for rest in 0..2 {
                cases.push((q, u, rest));
            }
        }
    }
    let outcomes: Mutex<HashMap<String, bool>> = Default::default();
    std::thread::scope(|s| {
        for &(q, u, rest) in &cases {
            let outcomes = &outcomes;
            s.spawn(move || {
                let node = Node::new(Duration::from_secs(3));
                let h = host(5, &[q, u, rest]);
                let mut z = Zone::default();
                let names = [srv_name(Tcp, &h), srv_name(Udp, &h), srv_name(Tls, &h)];
                let mut put = |i: usize, name: &str, t: u16, d: Vec<Rr>| {
                    z.set(name, t, if i == q { Ans::Silent } else if rest == 1 && (1..4).contains(&i) { Ans::NoData } else { Ans::Data(d) })
                };
                put(0, &h, NAPTR, vec![Rr::Naptr(2, 0, "s", "SIP+D2T", names[0].clone()), Rr::Naptr(1, 0, "S", "SIP+D2U", names[1].clone()), Rr::Naptr(0, 0, "s", "SIPS+D2T", names[2].clone())]);
                for (i, n) in names.iter().enumerate() {
                    put(1 + i, n, SRV, vec![srv(0, 1, 5060 + i as u16, &format!("s{i}.test"))]);
                }
                put(4, &h, A, vec![a(1)]);
                put(5, &h, AAAA, vec![aaaa(1)]);
                // one address family answering is not enough to conclude within the timeout
                if q >= 4 {
                    z.set(&h, if q == 4 { AAAA } else { A }, Ans::Silent);
                }
                let (sips, param) = uris[u];
                judge(run, &node, &z, &Form { sips, host: h.clone(), port: None, param }, true);
                outcomes.lock().unwrap().insert(h, true);
            });
        }
    });
    run.note("silent questions tried", cases.len());
}
