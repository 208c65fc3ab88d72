//! P21: DHCP server options, resolution through them, and ENUM.
use common::{product, sequences, token_strings, Run};
use sip_core::{SipUri, TelUri};
use sip_dns::*;
use std::net::Ipv4Addr;
use std::sync::Mutex;

const BYTES: [u8; 11] = [0, 1, 2, 3, 4, 63, b'a', b'-', b'.', 0xc3, 0xa9];

/// RFC 3361: what an option 120 encodes, or None when it is malformed.
fn option_120(d: &[u8]) -> Option<Vec<DhcpSipServer>> {
    let (kind, rest) = d.split_first()?;
    let mut out = vec![];
    match kind {
        1 => {
            if rest.is_empty() || rest.len() % 4 != 0 {
                return None;
            }
            for i in 0..rest.len() / 4 {
                out.push(DhcpSipServer::Ipv4(Ipv4Addr::new(rest[4 * i], rest[4 * i + 1], rest[4 * i + 2], rest[4 * i + 3])));
            }
        }
        0 => {
            let mut it = rest.iter().copied();
            let mut name: Vec<String> = vec![];
            while let Some(n) = it.next() {
                if n == 0 {
                    if name.is_empty() || name.iter().map(|l| l.len() + 1).sum::<usize>() > 254 {
                        return None;
                    }
                    out.push(DhcpSipServer::Domain(name.join(".").into()));
                    name.clear();
                    continue;
                }
                let label: Vec<u8> = it.by_ref().take(n as usize).collect();
                // a dot or a byte outside printable ASCII inside a label has no spelling in a name
                if n > 63 || label.len() < n as usize || label.iter().any(|b| !b.is_ascii_graphic() || *b == b'.') {
                    return None;
                }
                name.push(String::from_utf8(label).ok()?);
            }
            if !name.is_empty() || out.is_empty() {
                return None;
            }
        }
        _ => return None,
    }
    Some(out)
}
fn option_66(d: &[u8]) -> Option<String> {
    // RFC 2132: trailing NULs are not part of the text
    let n = d.iter().rposition(|b| *b != 0)? + 1;
    let s = String::from_utf8(d[..n].to_vec()).ok()?;
    if s.chars().any(|c| c.is_control()) {
        return None;
    }
    Some(s)
}
fn option_150(d: &[u8]) -> Option<Vec<Ipv4Addr>> {
    if d.is_empty() || d.len() % 4 != 0 {
        return None;
    }
    Some((0..d.len() / 4).map(|i| Ipv4Addr::from(u32::from_be_bytes(d[4 * i..4 * i + 4].try_into().unwrap()))).collect())
}
fn options(run: &Run, d: &[u8]) {
    run.step(3);
    run.state(&d);
    let g = parse_dhcp_option_120(d).ok();
    run.check(g == option_120(d), || format!("option 120 {d:02x?}"), || format!("{g:?} instead of {:?}", option_120(d)));
    let g = parse_dhcp_option_66(d).ok().map(|n| n.as_str().to_string());
    run.check(g == option_66(d), || format!("option 66 {d:02x?}"), || format!("{g:?} instead of {:?}", option_66(d)));
    let g = parse_dhcp_option_150(d).ok();
    run.check(g == option_150(d), || format!("option 150 {d:02x?}"), || format!("{g:?} instead of {:?}", option_150(d)));
}

/// A stand-in for the DNS: per host an outcome; it records what it is asked.
struct Dns<'a> {
    outcome: [usize; 3],
    asked: &'a Mutex<Vec<String>>,
}
fn targets(host: &str, outcome: usize) -> anyhow::Result<Vec<DnsTarget>> {
    Ok(match outcome {
        0 => vec![DnsTarget::unchecked_new(format!("1.{host}"), 5060, Transport::Udp), DnsTarget::unchecked_new(format!("2.{host}"), 5062, Transport::Tcp)],
        1 => vec![],
        2 => anyhow::bail!("no answer"),
        _ => (0..60).map(|i| DnsTarget::unchecked_new(format!("{i}.{host}"), 5060, Transport::Udp)).collect(),
    })
}
fn which(host: &str) -> usize {
    match host {
        "d1.test" => 0,
        "d2.test" => 1,
        _ => 2,
    }
}
#[async_trait::async_trait]
impl Resolver for Dns<'_> {
    async fn resolve(&self, uri: &SipUri) -> anyhow::Result<Vec<DnsTarget>> {
        self.asked.lock().unwrap().push(uri.as_str().to_string());
        targets(uri.host(), self.outcome[which(uri.host())])
    }
}
struct Dhcp(Option<Option<Vec<DhcpSipServer>>>);
#[async_trait::async_trait]
impl DhcpProvider for Dhcp {
    async fn query_sip_servers(&self) -> anyhow::Result<Option<Vec<DhcpSipServer>>> {
        self.0.clone().ok_or_else(|| anyhow::anyhow!("no lease"))
    }
}
fn block<T>(f: impl std::future::Future<Output = T>) -> T {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}

fn resolvers(run: &Run) {
    let v4 = |n: u8| DhcpSipServer::Ipv4(Ipv4Addr::new(192, 0, 2, n));
    let dom = |s: &str| DhcpSipServer::Domain(s.into());
    let pool = [v4(1), v4(2), dom("d1.test"), dom("d2.test"), dom("not a name")];
    let mut provided: Vec<Option<Option<Vec<DhcpSipServer>>>> = vec![None, Some(None), Some(Some(vec![]))];
    let mut last: Vec<Vec<DhcpSipServer>> = vec![vec![]];
    for _ in 0..3 {
        last = last.iter().flat_map(|l| pool.iter().map(move |p| [l.clone(), vec![p.clone()]].concat())).collect();
        provided.extend(last.iter().cloned().map(|l| Some(Some(l))));
    }
    let uris: [(&str, Transport, u16); 8] = [
        ("sip:bob@home.test", Transport::Udp, 5060),
        ("sips:bob@home.test", Transport::Tls, 5061),
        ("sip:bob@home.test:5070;transport=tcp", Transport::Tcp, 5060),
        ("sip:bob@home.test;transport=tls;x=y", Transport::Tls, 5061),
        ("sips:home.test:5090", Transport::Tls, 5061),
        ("sip:192.0.2.99", Transport::Udp, 5060),
        ("sip:[2001:db8::1]:5060;transport=TCP", Transport::Tcp, 5060),
        ("sip:bob@home.test;transport=tls-sctp?subject=x", Transport::TlsSctp, 5061),
    ];
    product(run, &[provided.len(), uris.len(), 4, 4, 4, 2], |v| {
        let (text, transport, port) = uris[v[1]];
        let uri = SipUri::parse(text).unwrap();
        let outcome = [v[2], v[3], v[4]];
        let asked = Mutex::new(vec![]);
        let mk = || Dns { outcome, asked: &asked };
        let hybrid = v[5] == 1;
        let got = if hybrid {
            block(HybridResolver::new(Dhcp(provided[v[0]].clone()), mk()).resolve(&uri))
        } else {
            block(DhcpResolver::new(Dhcp(provided[v[0]].clone()), mk()).resolve(&uri))
        };
        run.step(1);
        run.state(&v);
        // reference
        let mut want: Vec<DnsTarget> = vec![];
        let mut ask = vec![];
        for s in provided[v[0]].iter().flatten().flatten() {
            match s {
                DhcpSipServer::Ipv4(a) => want.push(DnsTarget::unchecked_new(a.to_string(), port, transport)),
                DhcpSipServer::Domain(d) if d.contains(' ') => {}
                DhcpSipServer::Domain(d) => {
                    // the same request at the provisioned domain
                    ask.push((d.to_string(), uri.is_sips(), uri.user().map(|u| u.to_string()), uri.params().clone()));
                    want.extend(targets(d, outcome[which(d)]).unwrap_or_default());
                }
            }
        }
        let mut want = if want.is_empty() { None } else { Some(want) };
        if want.is_none() && hybrid {
            want = targets(uri.host(), outcome[2]).ok();
            ask.push((uri.host().to_string(), uri.is_sips(), uri.user().map(|u| u.to_string()), uri.params().clone()));
        }
        let want = want.filter(|w| w.len() <= 100);
        let key = || format!("{} of {text} with {:?}, outcomes {outcome:?}", if hybrid { "hybrid" } else { "dhcp" }, provided[v[0]]);
        let got = got.ok();
        run.check(got == want, key, || format!("{got:?} instead of {want:?}"));
        let asked = asked.into_inner().unwrap();
        let seen: Vec<_> = asked
            .iter()
            .map(|a| {
                let u = SipUri::parse(a).unwrap();
                (u.host().to_string(), u.is_sips(), u.user().map(|u| u.to_string()), u.params().clone())
            })
            .collect();
        run.check(seen == ask, key, || format!("asked {asked:?} instead of {ask:?}"));
        // a port applies to the host it was given for
        let port_kept = asked.iter().any(|a| a.contains(".test:") && a.contains("d1.test") || a.contains("d2.test:"));
        run.check(!port_kept, key, || format!("the URI's port went with a provisioned domain: {asked:?}"));
    });
}

fn enum_domain(s: &str) -> Option<String> {
    let d = s.strip_prefix('+')?;
    if d.is_empty() || d.bytes().any(|b| !b.is_ascii_digit()) {
        return None;
    }
    let mut o = String::new();
    for c in d.chars().rev() {
        o.push(c);
        o.push('.');
    }
    Some(o + "e164.arpa")
}
/// The second field of `!pattern!replacement!flags`; escaped delimiters do not separate.
fn consequent(s: &str) -> Option<String> {
    let s = s.trim();
    let mut it = s.chars();
    let d = it.next()?;
    let mut fields = vec![String::new()];
    while let Some(c) = it.next() {
        match c {
            '\\' => {
                fields.last_mut()?.push(c);
                if let Some(n) = it.next() {
                    fields.last_mut()?.push(n);
                }
            }
            c if c == d => fields.push(String::new()),
            c => fields.last_mut()?.push(c),
        }
    }
    fields.get(1).filter(|f| !f.is_empty()).cloned()
}

fn enumeration(run: &Run) {
    let toks = ["+", "1", "2", "0", "99", "-", " ", "a", "٣", ".", "("];
    token_strings(run, &toks, run.pick(5, 6), |s| {
        run.step(1);
        run.state(&s);
        let g = enum_to_domain(s);
        run.check(g == enum_domain(s), || format!("enum domain of {s:?}"), || format!("{g:?} instead of {:?}", enum_domain(s)));
        if let Some(n) = s.strip_prefix("+") {
            // visual separators of a tel URI are no digits
            let digits: String = n.chars().filter(|c| !"-.() ".contains(*c)).collect();
            if let Ok(t) = TelUri::parse(&format!("tel:{s};x=1")) {
                let g = tel_uri_to_enum_domain(&t);
                let w = enum_domain(&format!("+{digits}"));
                run.check(g == w, || format!("enum domain of tel:{s}"), || format!("{g:?} instead of {w:?}"));
            }
        } else if let Ok(t) = TelUri::parse(&format!("tel:{s};phone-context=+1")) {
            run.check(tel_uri_to_enum_domain(&t).is_none(), || format!("enum domain of local tel:{s}"), || "a local number has none".into());
        }
    });
    let toks = ["!", "/", "\\", "\\!", "\\\\", "^.*$", "sip:a@b", " ", "\\1", "i", "é"];
    token_strings(run, &toks, run.pick(5, 6), |s| {
        if s.trim_start().starts_with('\\') {
            return; // no delimiter
        }
        run.step(1);
        run.state(&s);
        let g = EnumNaptrRecord::new(1, 1, "u", "E2U+sip", s, "").extract_uri();
        run.check(g == consequent(s), || format!("URI of {s:?}"), || format!("{g:?} instead of {:?}", consequent(s)));
    });
    // selection: every list of up to k records
    let services = [("E2U+sip", true), ("e2u+SIP", true), ("E2U+mailto", false), ("E2U+sips", false), ("xE2U+sip", false)];
    let mut pool = vec![];
    for (s, ok) in services {
        for (o, p) in [(0u16, 65535u16), (0, 0), (1, 0), (65535, 1)] {
            if ok || p == 0 {
                pool.push((s, ok, o, p));
            }
        }
    }
    for k in 0..=run.pick(4, 5) {
        sequences(run, pool.len(), k, |seq| {
            run.step(1);
            let v: Vec<EnumNaptrRecord> = seq.iter().enumerate().map(|(i, &j)| EnumNaptrRecord::new(pool[j].2, pool[j].3, "u", pool[j].0, format!("!^.*$!sip:{i}@x!"), "")).collect();
            run.state(&seq);
            let sip: Vec<EnumNaptrRecord> = v.iter().zip(seq).filter(|(_, &j)| pool[j].1).map(|(r, _)| r.clone()).collect();
            let key = || format!("records {seq:?}");
            run.check(filter_sip_records(&v) == sip, key, || "filtering".into());
            // sorted: a permutation, in rank order, equal ranks as they came
            let mut s = v.clone();
            sort_enum_records(&mut s);
            let mut w: Vec<(u16, u16, usize)> = v.iter().enumerate().map(|(i, r)| (r.order, r.preference, i)).collect();
            w.sort();
            run.check(s.len() == v.len() && s.iter().zip(&w).all(|(a, b)| (a.order, a.preference) == (b.0, b.1)), key, || "sorting".into());
            run.check(v.iter().all(|r| s.contains(r)), key, || "sorting lost a record".into());
            let best = select_best_sip_record(&v);
            let rank = sip.iter().map(|r| (r.order, r.preference)).min();
            run.check(best.as_ref().map(|b| (b.order, b.preference)) == rank && best.as_ref().is_none_or(|b| sip.contains(b)), key, || format!("best is {best:?}, wanted rank {rank:?}"));
            if let (Some(b), Some(r)) = (&best, &rank) {
                let first = sip.iter().find(|x| (x.order, x.preference) == *r).unwrap();
                run.check(b.is_terminal() && (b == first || sip.iter().any(|x| x == b)), key, || "best record".into());
            }
        });
    }
    for (f, t) in [("u", true), ("U", true), ("", false), ("s", false), ("a", false), ("su", true)] {
        run.check(EnumNaptrRecord::new(0, 0, f, "E2U+sip", "", "").is_terminal() == t, || format!("flags {f:?}"), || "terminal".into());
    }
}

pub fn p21(run: &Run) {
    for n in 0..=run.pick(5, 6) {
        sequences(run, BYTES.len(), n, |s| {
            let d: Vec<u8> = s.iter().map(|&i| BYTES[i]).collect();
            options(run, &d);
        });
    }
    token_strings(run, &[" ", "a", "\0", ".", "\t", "é", "\u{a0}", "\n"], run.pick(5, 6), |s| {
        options(run, s.as_bytes());
    });
    // longer ones, made of whole labels and addresses
    let parts: [&[u8]; 8] = [&[0], &[1], b"\x01a", b"\x03a-b", b"\x02a.", b"\x02\xc3\xa9", b"\xc0\x02", &[10, 0, 0, 1]];
    for n in 1..=run.pick(6, 7) {
        sequences(run, parts.len(), n, |s| {
            let d: Vec<u8> = s.iter().flat_map(|&i| parts[i].to_vec()).collect();
            options(run, &d);
        });
    }
    // label and name lengths around the limits
    for l in [62usize, 63, 64, 65, 255] {
        for have in [l - 1, l, l + 1] {
            let mut d = vec![0u8, l as u8];
            d.extend(vec![b'x'; have]);
            d.push(0);
            options(run, &d);
        }
    }
    for last in 1..=63usize {
        let mut d = vec![0u8];
        for n in [63, 63, 63, last] {
            d.push(n as u8);
            d.extend(vec![b'x'; n]);
        }
        d.push(0);
        options(run, &d);
    }
    resolvers(run);
    enumeration(run);
    run.assume("a bare backslash is not used as the delimiter of an ENUM substitution; back references are left in the extracted text, as documented by the tests");
}
