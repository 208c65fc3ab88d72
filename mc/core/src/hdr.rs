//! P05: structured header values.
use common::{product, token_strings, Run};
use sip_core::*;
use smol_str::SmolStr;
use std::collections::BTreeMap;

/// One value of a header as an independent reader or the library sees it.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Item {
    pub display: Option<String>,
    pub head: String,
    pub params: BTreeMap<String, Option<String>>,
}
/// What the library made of a header value.
pub struct Got {
    dbg: String,
    print: Option<String>,
    items: Option<Vec<Item>>,
}
type Fun = fn(&str) -> Option<Got>;

fn item<'a>(head: impl ToString, params: impl Iterator<Item = (&'a str, Option<&'a str>)>) -> Item {
    Item {
        display: None,
        head: head.to_string(),
        params: params.map(|(k, v)| (k.to_ascii_lowercase(), v.map(|v| v.to_string()))).collect(),
    }
}
pub fn na_item(n: &name_addr::NameAddr) -> Item {
    na(n)
}
fn na(n: &name_addr::NameAddr) -> Item {
    Item {
        display: n.display_name().map(|s| s.to_string()),
        head: canon(n.uri().as_str()),
        params: n.params().map(|(k, v)| (k.to_ascii_lowercase().to_string(), v.as_ref().map(|v| v.to_string()))).collect(),
    }
}
/// A URI as text, in the library's own normal form, without URI headers.
fn canon(u: &str) -> String {
    match Uri::parse(u) {
        Ok(u) => u.without_uri_headers().as_str().to_string(),
        Err(_) => format!("unreadable:{u}"),
    }
}
fn hs(name: &str, v: &str) -> Option<Headers> {
    let mut h = Headers::new();
    h.push(name, v).ok()?;
    Some(h)
}
fn got_of<V: std::fmt::Debug>(v: Option<V>, it: impl Fn(&V) -> Option<Vec<Item>>) -> Option<Got> {
    let v = v?;
    Some(Got { dbg: format!("{v:?}"), print: None, items: it(&v) })
}
fn pgot_of<V: std::fmt::Debug + std::fmt::Display>(v: Option<V>, it: impl Fn(&V) -> Option<Vec<Item>>) -> Option<Got> {
    let v = v?;
    Some(Got { dbg: format!("{v:?}"), print: Some(v.to_string()), items: it(&v) })
}
fn s(v: &str) -> SmolStr {
    SmolStr::new(v)
}

// ---- independent readings ------------------------------------------------

/// Tokenises into (text, separator) pieces at `seps` outside quotes and, if
/// `angle`, outside <>. None: not well formed.
fn cut(v: &str, sep: u8, angle: bool) -> Option<Vec<&str>> {
    let b = v.as_bytes();
    let (mut i, mut from, mut depth) = (0, 0, 0);
    let mut out = vec![];
    while i < b.len() {
        match b[i] {
            b'"' if depth == 0 => {
                i += 1;
                loop {
                    match b.get(i)? {
                        b'\\' => {
                            b.get(i + 1)?;
                            i += 1;
                        }
                        b'"' => break,
                        _ => {}
                    }
                    i += 1;
                }
            }
            b'<' if angle => {
                if depth > 0 {
                    return None;
                }
                depth = 1
            }
            b'>' if angle => {
                if depth == 0 {
                    return None;
                }
                depth = 0
            }
            c if c == sep && depth == 0 => {
                out.push(&v[from..i]);
                from = i + 1;
            }
            _ => {}
        }
        i += 1;
    }
    if depth > 0 {
        return None;
    }
    out.push(&v[from..]);
    Some(out)
}
fn tok(t: &str) -> bool {
    !t.is_empty() && t.bytes().all(|b| b.is_ascii_alphanumeric() || b"-.!%*_+`'~".contains(&b))
}
fn host_or_tok(t: &str) -> bool {
    !t.is_empty() && t.bytes().all(|b| b.is_ascii_alphanumeric() || b"-.!%*_+`'~:[]@/&$#?".contains(&b))
}
/// gen-value: token, host or quoted string; the text it stands for.
fn val(t: &str) -> Option<String> {
    if t.starts_with('"') {
        let b = t.as_bytes();
        let mut o = vec![];
        let mut i = 1;
        loop {
            match b.get(i)? {
                b'\\' => {
                    o.push(*b.get(i + 1)?);
                    i += 2;
                }
                b'"' => break,
                c => {
                    o.push(*c);
                    i += 1
                }
            }
        }
        if i + 1 != b.len() {
            return None;
        }
        String::from_utf8(o).ok()
    } else {
        host_or_tok(t).then(|| t.to_string())
    }
}
fn params(parts: &[&str]) -> Option<BTreeMap<String, Option<String>>> {
    let mut m = BTreeMap::new();
    for p in parts {
        let p = p.trim();
        let (k, v) = match p.find('=') {
            Some(i) => (p[..i].trim(), Some(val(p[i + 1..].trim())?)),
            None => (p, None),
        };
        if !tok(k) || m.insert(k.to_ascii_lowercase(), v).is_some() {
            return None;
        }
    }
    Some(m)
}
/// head *(;param), head a plain word.
fn read_hp(v: &str) -> Option<Item> {
    let parts = cut(v.trim(), b';', false)?;
    let head = parts[0].trim();
    if !host_or_tok(head) {
        return None;
    }
    Some(Item { display: None, head: head.into(), params: params(&parts[1..])? })
}
/// Via: "SIP/2.0/UDP host:port" *(;param)
fn read_via(v: &str) -> Option<Item> {
    let parts = cut(v.trim(), b';', false)?;
    let w: Vec<&str> = parts[0].split_whitespace().collect();
    if w.len() != 2 || !w.iter().all(|w| host_or_tok(w)) {
        return None;
    }
    Some(Item { display: None, head: w.join(" "), params: params(&parts[1..])? })
}
/// name-addr or addr-spec *(;param)
fn read_na(v: &str) -> Option<Item> {
    let v = v.trim();
    let parts = cut(v, b';', true)?;
    let first = parts[0].trim();
    if let Some(lt) = cut(first, b'<', false).filter(|c| c.len() > 1).map(|c| c[0].len()) {
        let display = first[..lt].trim();
        let rest = &first[lt + 1..];
        let gt = rest.find('>')?;
        if gt + 1 != rest.len() || rest[..gt].contains(['"', ' ', '\\']) {
            return None;
        }
        let display = if display.is_empty() {
            None
        } else if display.starts_with('"') {
            Some(val(display)?)
        } else if display.split_whitespace().all(tok) {
            Some(display.to_string())
        } else {
            return None;
        };
        Some(Item { display, head: canon(&rest[..gt]), params: params(&parts[1..])? })
    } else {
        if first.contains(['"', ' ', '?', ',', '\\', '<', '>']) {
            return None;
        }
        Some(Item { display: None, head: canon(first), params: params(&parts[1..])? })
    }
}
fn read_list(v: &str, angle: bool, one: fn(&str) -> Option<Item>) -> Option<Vec<Item>> {
    let mut o = vec![];
    for p in cut(v, b',', angle)? {
        if p.trim().is_empty() {
            continue;
        }
        o.push(one(p)?);
    }
    (!o.is_empty()).then_some(o)
}
fn r_na(v: &str) -> Option<Vec<Item>> {
    Some(vec![read_na(v)?])
}
fn r_nas(v: &str) -> Option<Vec<Item>> {
    read_list(v, true, read_na)
}
fn r_hp(v: &str) -> Option<Vec<Item>> {
    Some(vec![read_hp(v)?])
}
fn r_hps(v: &str) -> Option<Vec<Item>> {
    read_list(v, false, read_hp)
}
/// Security-*: an invalid preference is ignored by design; no claim there.
fn r_sec(v: &str) -> Option<Vec<Item>> {
    r_hps(v).filter(|l| l.iter().all(|i| i.params.get("q").is_none_or(|q| q.as_ref().is_some_and(|q| q.parse::<f32>().is_ok_and(|q| (0.0..=1.0).contains(&q))))))
}
fn r_via(v: &str) -> Option<Vec<Item>> {
    Some(vec![read_via(v)?])
}
fn r_words(v: &str) -> Option<Vec<Item>> {
    read_list(v, false, |p| tok(p.trim()).then(|| Item { head: p.trim().into(), ..Default::default() }))
}
fn r_vals(v: &str) -> Option<Vec<Item>> {
    read_list(v, false, |p| Some(Item { head: val(p.trim()).filter(|v| !v.trim().is_empty())?, ..Default::default() }))
}
fn r_three(v: &str) -> Option<Vec<Item>> {
    let w: Vec<&str> = v.split_whitespace().collect();
    if w.len() != 3 || !w.iter().all(|w| tok(w)) {
        return None;
    }
    Some(vec![Item { head: w.join(" "), ..Default::default() }])
}
fn r_auth(v: &str) -> Option<Vec<Item>> {
    let v = v.trim();
    let i = v.find(' ')?;
    if !tok(&v[..i]) {
        return None;
    }
    let mut m = BTreeMap::new();
    for p in cut(&v[i + 1..], b',', false)? {
        let p = p.trim();
        let e = p.find('=')?;
        let (k, w) = (p[..e].trim(), p[e + 1..].trim());
        if !tok(k) {
            return None;
        }
        val(w)?;
        // The digest covers the quoted text as written: escapes stay.
        let w = if w.starts_with('"') { &w[1..w.len() - 1] } else { w };
        if m.insert(k.to_ascii_lowercase(), Some(w.to_string())).is_some() {
            return None;
        }
    }
    Some(vec![Item { head: v[..i].into(), params: m, display: None }])
}
fn none(_: &str) -> Option<Vec<Item>> {
    None
}

// ---- the library ---------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum G {
    Na,
    Nas,
    Hp,
    Hps,
    Via,
    Words,
    Auth,
    Free,
}
struct T {
    name: &'static str,
    g: G,
    f: Fun,
    read: fn(&str) -> Option<Vec<Item>>,
    /// head and parameters to build valid values from (empty: none)
    heads: &'static [&'static str],
    ps: &'static [&'static str],
}

const PS: &[&str] = &["", "a", "Tag=x1", "a=\"q\"", "a=\";b=1\"", "a=\"x, <y>\"", "a=\"\\\"\"", "a=\"\\\\\"", "lr"];
const PT: &[&str] = &["", "a", "Id2=x1", "q2=0.5", "zz=\"tok\""];
const U: &[&str] = &["<sip:h>", "<sip:u@h:5061;lr>", "<sips:u@[::1];transport=tcp>", "<sip:a,b@h>", "<sip:u@h;x=1;lr>", "<tel:+1234;ext=5>", "sip:h", "sip:u@h"];

fn table() -> Vec<T> {
    let kv = |name, g, f: Fun, read, heads, ps| T { name, g, f, read, heads, ps };
    vec![
        kv("From", G::Na, |v| got_of(sip_parse::parse_from_header(&s(v)), |h| Some(vec![na(h.inner())])), r_na, U, PS),
        kv("To", G::Na, |v| got_of(sip_parse::parse_to_header(&s(v)), |h| Some(vec![na(h.inner())])), r_na, U, PS),
        kv("Contact", G::Na, |v| got_of(sip_parse::parse_contact_header(&s(v)), |h| Some(vec![na(h.inner())])), r_na, U, PS),
        kv("Call-Info", G::Na, |v| got_of(sip_parse::parse_call_info_header(&s(v)), |h| Some(vec![na(h.inner())])), r_na, U, PS),
        kv("Route", G::Na, |v| pgot_of(sip_parse::parse_route_header(&s(v)), |h| Some(vec![na(h.inner())])), r_na, U, PS),
        kv("RouteHeader::parse", G::Na, |v| pgot_of(RouteHeader::parse(v).ok(), |h| Some(vec![na(h.inner())])), r_na, &U[..6], PS),
        kv(
            "Referred-By",
            G::Na,
            |v| {
                pgot_of(ReferredByHeader::parse(v).ok(), |h| {
                    let mut i = na(h.name_addr());
                    i.params = h.params().map(|(k, v)| (k.to_string(), Some(v.to_string()))).collect();
                    if let Some(c) = h.get_cid() {
                        i.params.insert("cid".into(), Some(c.into()));
                    }
                    Some(vec![i])
                })
            },
            r_na,
            U,
            &["", "cid=\"a;b@h\"", "CID=x", "a=\"q\"", "a=\"x, <y>\"", "a=\"\\\"\""],
        ),
        kv("Path", G::Nas, |v| pgot_of(sip_parse::parse_path(&hs("Path", v)?).ok(), |h| Some(h.routes().iter().map(na).collect())), r_nas, &U[..6], PS),
        kv(
            "Service-Route",
            G::Nas,
            |v| pgot_of(sip_parse::parse_service_route(&hs("Service-Route", v)?).ok(), |h| Some(h.routes().iter().map(na).collect())),
            r_nas,
            &U[..6],
            PS,
        ),
        kv(
            "P-Asserted-Identity",
            G::Nas,
            |v| {
                pgot_of(sip_parse::parse_p_asserted_identity(&hs("P-Asserted-Identity", v)?).ok()?, |h| Some(
                    h.identities().map(|i| Item { display: i.display_name().map(|s| s.into()), ..item(canon(i.uri().as_str()), i.params()) }).collect()
                ))
            },
            r_nas,
            U,
            &[""],
        ),
        kv(
            "P-Preferred-Identity",
            G::Nas,
            |v| {
                pgot_of(sip_parse::parse_p_preferred_identity(&hs("P-Preferred-Identity", v)?).ok()?, |h| Some(
                    h.identities().map(|i| Item { display: i.display_name().map(|s| s.into()), ..item(canon(i.uri().as_str()), i.params()) }).collect()
                ))
            },
            r_nas,
            U,
            &[""],
        ),
        kv(
            "History-Info",
            G::Nas,
            |v| got_of(sip_parse::parse_history_info(&hs("History-Info", v)?).ok(), |h| Some(h.entries().map(|e| item(canon(e.uri().as_str()), e.params())).collect())),
            r_nas,
            &U[..6],
            &["index=1", "index=1.2;rc=1", "INDEX=1.1;mp=1"],
        ),
        kv(
            "Geolocation",
            G::Nas,
            |v| {
                got_of(sip_parse::parse_geolocation_header(&hs("Geolocation", v)?).ok(), |h| Some(
                    h.values().map(|e| item(canon(e.uri().as_str()), e.params())).collect()
                ))
            },
            none,
            &[],
            &[],
        ),
        kv("Via", G::Via, |v| pgot_of(ViaHeader::parse(v).ok(), |h| Some(vec![via(h)])), r_via, &["SIP/2.0/UDP h", "SIP/2.0/TCP h:5060", "SIP/2.0/TLS [::1]:5061", "SIP/2.0/UDP 10.0.0.1"], &[
            "",
            "branch=z9hG4bKa",
            "Branch=z9hG4bKa",
            "rport",
            "received=10.0.0.1;rport=5",
            "x=\"a;b\"",
            "x=\"\\\"\"",
            "ttl=5",
            "maddr=[::1]",
        ]),
        kv(
            "Event",
            G::Hp,
            |v| {
                got_of(sip_parse::parse_event_header(&s(v)), |h| {
                    let mut i = item(h.package(), h.params());
                    if let Some(x) = h.id() {
                        i.params.insert("id".into(), Some(x.into()));
                    }
                    Some(vec![i])
                })
            },
            r_hp,
            &["presence", "presence.winfo"],
            PT,
        ),
        kv("Subscription-State", G::Hp, |v| got_of(sip_parse::parse_subscription_state(&s(v)), |h| Some(vec![item(h.state().as_str(), h.params())])), r_hp, &["active", "terminated", "x-y"], PT),
        kv(
            "Reason",
            G::Hp,
            |v| pgot_of(sip_parse::parse_reason_header(&s(v)), |h| Some(vec![item(h.protocol(), h.params())])),
            r_hp,
            &["SIP", "Q.850", "foo"],
            &["", "cause=200", "Text=\"a; b, <c>\"", "text=\"\\\"\"", "text=\"\\\\\"", "x"],
        ),
        kv(
            "Replaces",
            G::Hp,
            |v| {
                pgot_of(ReplacesHeader::parse(v).ok(), |h| {
                    let mut i = item(h.call_id(), std::iter::empty());
                    i.params.insert("to-tag".into(), Some(h.to_tag().into()));
                    i.params.insert("from-tag".into(), Some(h.from_tag().into()));
                    if h.is_early_only() {
                        i.params.insert("early-only".into(), None);
                    }
                    Some(vec![i])
                })
            },
            r_hp,
            &["a@b", "x"],
            &["to-tag=1;from-tag=2", "From-Tag=2;TO-TAG=1;early-only"],
        ),
        kv(
            "Session-Expires",
            G::Hp,
            |v| {
                pgot_of(sip_parse::parse_session_expires(&s(v)), |h| {
                    let mut i = item(h.delta_seconds(), std::iter::empty());
                    if let Some(r) = h.refresher() {
                        i.params.insert("refresher".into(), Some(r.as_str().into()));
                    }
                    Some(vec![i])
                })
            },
            none,
            &["90", "1800", "86400"],
            &["", "refresher=uac", "Refresher=uas"],
        ),
        kv("Min-SE", G::Hp, |v| pgot_of(sip_parse::parse_min_se(&s(v)), |h| Some(vec![item(h.delta_seconds(), std::iter::empty())])), none, &["90", "7200"], &[""]),
        kv(
            "Content-Type",
            G::Hp,
            |v| pgot_of(sip_parse::parse_mime_type(&s(v)), |h| Some(vec![item(format!("{}/{}", h.top_level(), h.subtype()), h.params().map(|(k, v)| (k, Some(v))))])),
            r_mime,
            &["application/sdp", "multipart/mixed", "text/plain"],
            &["", "boundary=a", "Boundary=\"a;b\"", "charset=\"\\\"\"", "x=\"a=b\""],
        ),
        kv(
            "P-Access-Network-Info",
            G::Hp,
            |v| got_of(sip_parse::parse_p_access_network_info(&s(v)), |h| Some(vec![item(h.access_type(), h.params())])),
            r_hp,
            &["IEEE-802.11", "3GPP-UTRAN-TDD"],
            PS,
        ),
        kv("Security-Client", G::Hps, |v| pgot_of(parse_security_client(v).ok(), |h| Some(h.entries().iter().map(sec).collect())), r_sec, &["digest", "tls", "ipsec-3gpp"], &[
            "",
            "q=0.5",
            "d-alg=MD5",
            "D-QOP=auth",
            "d-ver=\"a;b, c\"",
            "d-ver=\"\\\"\"",
        ]),
        kv("Security-Server", G::Hps, |v| pgot_of(parse_security_server(v).ok(), |h| Some(h.entries().iter().map(sec).collect())), r_sec, &["digest", "tls"], &["", "q=0.5", "d-ver=\"a;b, c\""]),
        kv("Security-Verify", G::Hps, |v| pgot_of(parse_security_verify(v).ok(), |h| Some(h.entries().iter().map(sec).collect())), r_sec, &["digest", "tls"], &["", "q=0.5", "d-ver=\"a;b, c\""]),
        kv(
            "Resource-Priority",
            G::Words,
            |v| pgot_of(sip_parse::parse_resource_priority(&s(v)), |h| Some(h.values().iter().map(|v| item(format!("{}.{}", v.namespace(), v.priority()), std::iter::empty())).collect())),
            r_words,
            &["dsn.flash", "wps.0", "q735.1"],
            &[""],
        ),
        kv("Allow", G::Words, |v| pgot_of(TokenList::parse(v).ok(), |h| Some(h.iter().map(|t| item(t, std::iter::empty())).collect())), r_words, &["INVITE", "100rel", "x-y"], &[""]),
        kv("Supported", G::Words, |v| {
            let l = sip_parse::parse_supported_header(&s(v));
            if l.is_empty() {
                return None;
            }
            pgot_of(Some(l), |h| Some(h.iter().map(|t| item(t, std::iter::empty())).collect()))
        }, r_words, &["timer", "100rel"], &[""]),
        kv(
            "P-Visited-Network-ID",
            G::Words,
            |v| got_of(sip_parse::parse_p_visited_network_id(&s(v)), |h| Some(h.values().map(|t| item(t, std::iter::empty())).collect())),
            r_vals,
            &["\"a, b\"", "other", "\"x;y\""],
            &[""],
        ),
        kv(
            "Authorization",
            G::Auth,
            |v| pgot_of(sip_parse::parse_authorization_header(&s(v)), |h| Some(vec![item(h.scheme(), h.params().iter().map(|(k, v)| (k.as_str(), Some(v.as_str()))))])),
            r_auth,
            &[],
            &[],
        ),
        kv("RSeq", G::Free, |v| pgot_of(sip_parse::parse_rseq_header(&s(v)), |h| Some(vec![item(h.sequence(), std::iter::empty())])), none, &["1", "2147483647"], &[""]),
        kv(
            "RAck",
            G::Free,
            |v| pgot_of(sip_parse::parse_rack_header(&s(v)), |h| Some(vec![item(format!("{} {} {}", h.rseq(), h.cseq_number(), h.cseq_method().as_str()), std::iter::empty())])),
            r_three,
            &["1 2 INVITE", "5 2147483647 PRACK", "1 1 FOO"],
            &[""],
        ),
        kv("Privacy", G::Free, |v| pgot_of(PrivacyHeader::parse(v).ok(), |_| None), none, &[], &[]),
        kv("Refer-Sub", G::Free, |v| pgot_of(ReferSubHeader::parse(v), |_| None), none, &[], &[]),
        kv("SIP-ETag", G::Free, |v| pgot_of(SipETagHeader::parse(v).ok(), |_| None), none, &["abc", "x-1"], &[""]),
        kv("SIP-If-Match", G::Free, |v| pgot_of(SipIfMatchHeader::parse(v).ok(), |_| None), none, &["abc"], &[""]),
        kv("Subject", G::Free, |v| pgot_of(sip_parse::parse_subject_header(&s(v)), |h| Some(vec![item(h.value(), std::iter::empty())])), none, &[], &[]),
        kv("Priority", G::Free, |v| pgot_of(PriorityValue::parse(v).ok(), |_| None), none, &["emergency", "normal", "non-urgent", "urgent"], &[""]),
        kv("SIP-Version", G::Free, |v| pgot_of(SipVersion::parse(v).ok(), |_| None), none, &[], &[]),
        kv("Method", G::Free, |v| pgot_of(Method::from_token(v).ok(), |h| Some(vec![item(h.as_str(), std::iter::empty())])), none, &["INVITE", "FOO", "X-y"], &[""]),
        kv("Request-Disposition", G::Free, |v| pgot_of(RequestDisposition::parse(v), |_| None), none, &[], &[]),
    ]
}
fn r_mime(v: &str) -> Option<Vec<Item>> {
    let mut i = read_hp(v)?;
    let (a, b) = i.head.split_once('/')?;
    if !tok(a) || !tok(b) {
        return None;
    }
    i.head = i.head.to_ascii_lowercase();
    Some(vec![i])
}
fn via(h: &ViaHeader) -> Item {
    item(format!("SIP/2.0/{} {}", h.transport(), h.sent_by()), h.params().iter().map(|(k, v)| (k.as_str(), v.as_ref().map(|v| v.as_str()))))
}
fn sec(e: &SecurityEntry) -> Item {
    item(e.mechanism(), e.params().iter().map(|(k, v)| (k.as_str(), v.as_ref().map(|v| v.as_str()))))
}

/// Same values; a parameter value or display name the library keeps in its
/// quoted form counts as the text it stands for.
fn same(want: &[Item], got: &[Item]) -> bool {
    let v = |w: &Option<String>, g: &Option<String>| match (w, g) {
        (None, None) => true,
        (Some(w), Some(g)) => w == g || (g.starts_with('"') && val(g).as_ref() == Some(w)),
        _ => false,
    };
    want.len() == got.len()
        && want.iter().zip(got).all(|(w, g)| {
            w.head.eq_ignore_ascii_case(&g.head)
                && w.params.len() == g.params.len()
                && w.params.iter().all(|(k, x)| g.params.get(k).is_some_and(|y| v(x, y)))
        })
}
fn displays(want: &[Item], got: &[Item]) -> bool {
    want.iter().zip(got).all(|(w, g)| w.display.as_deref().unwrap_or("").trim() == g.display.as_deref().unwrap_or("").trim())
}

fn params_of(g: &Got) -> Option<BTreeMap<String, String>> {
    Some(g.items.as_ref()?.first()?.params.iter().map(|(k, v)| (k.clone(), v.clone().unwrap_or_default())).collect())
}
fn one(run: &Run, t: &T, v: &str) -> bool {
    run.step(1);
    let key = |w: &str| format!("{} {w} {v:?}", t.name);
    let Some(g) = common::quiet(|| (t.f)(v)).unwrap_or_else(|p| {
        run.violation(key("panic"), p);
        None
    }) else {
        return false;
    };
    if run.state(&(t.name, &g.dbg)) {
        run.sample(|| format!("{}: {v:?} -> {}", t.name, g.dbg));
    }
    if let Some(p) = &g.print {
        run.trace();
        match (t.f)(p) {
            None => run.violation(key("reprint refused"), format!("accepted {v:?} prints as {p:?}, which is refused")),
            Some(h) => {
                // Printing escapes text which reading left escaped.
                let doubled = t.g == G::Auth && h.dbg != g.dbg && params_of(&h) == params_of(&g).map(|m| m.into_iter().map(|(k, v)| (k, v.replace('\\', "\\\\").replace('"', "\\\""))).collect());
                if doubled {
                    run.violation("Authorization reprint doubles escapes", format!("{v:?} prints as {p:?}"));
                    return true;
                }
                run.check(h.dbg == g.dbg, || key("reprint differs"), || format!("{v:?} prints as {p:?}\nfirst  {}\nsecond {}", g.dbg, h.dbg));
            }
        }
    }
    if let (Some(w), Some(i)) = ((t.read)(v), &g.items) {
        run.trace();
        run.check(same(&w, i), || key("meaning"), || format!("value means {w:?}\nlibrary read {i:?}"));
        if t.name != "History-Info" && t.name != "Geolocation" {
            run.check(displays(&w, i), || key("display"), || format!("value means {w:?}\nlibrary read {i:?}"));
        }
    }
    true
}

pub fn p05(run: &Run) {
    let tab = table();
    // 1. every short string over the alphabet of each grammar
    for t in &tab {
        let (toks, n): (&[&str], usize) = match t.g {
            G::Na => (&["\"", "\\", "<", ">", ";", "=", ",", " ", "sip:h", "a", "?x=1"], run.pick(7, 8)),
            G::Nas => (&["\"", "\\", "<sip:h>", "<", ">", ";", "=", ",", " ", "sip:h", "a", "index=1"], run.pick(6, 7)),
            G::Hp => (&["\"", "\\", ";", "=", ",", " ", "a", "a/b", "90", "to-tag=1", "from-tag=2"], run.pick(6, 7)),
            G::Hps => (&["\"", "\\", ";", "=", ",", " ", "a", "q=0.5", "Q"], run.pick(7, 8)),
            G::Via => (&["SIP/2.0/UDP h", "SIP", "/", "2.0", " ", ";", "=", ",", "\"", "\\", "a", ":5", "[::1]"], run.pick(6, 7)),
            G::Words => (&["\"", "\\", ".", ",", " ", "a", ";", "=", "B"], run.pick(7, 8)),
            G::Auth => (&["Digest ", "\"", "\\", "=", ",", " ", "a", "b=\"", "c"], run.pick(7, 8)),
            G::Free => (&["a", "1", " ", ";", ",", "\"", "INVITE", "true", "SIP/2.0", "id", ".", "queue", "no-fork"], run.pick(6, 7)),
        };
        let accepted = std::sync::atomic::AtomicU64::new(0);
        token_strings(run, toks, n, |v| {
            if one(run, t, v) {
                accepted.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
        });
        if accepted.into_inner() == 0 {
            run.violation(format!("{} vacuous", t.name), "no string of the alphabet was accepted");
        }
        if run.stopped() {
            return;
        }
    }
    // 2. valid values composed from parts must be accepted with those parts
    let disp: &[&str] = &["", "Bob ", "Bob Smith ", "\"Bob\" ", "\"B, <o>; b\" ", "\"a\\\"b\\\\c\" ", "\"\\\\\" ", "\"\""];
    for t in &tab {
        if t.heads.is_empty() {
            continue;
        }
        let named = matches!(t.g, G::Na | G::Nas) && t.name != "History-Info";
        let lists = matches!(t.g, G::Nas | G::Hps | G::Words);
        let nd = if named { disp.len() } else { 1 };
        let singles = std::sync::Mutex::new(Vec::<String>::new());
        product(run, &[nd, t.heads.len(), t.ps.len(), 2, 3], |ix| {
            let (d, h, p) = (if named { disp[ix[0]] } else { "" }, t.heads[ix[1]], t.ps[ix[2]]);
            if !d.is_empty() && !h.starts_with('<') {
                return;
            }
            let sp = ["", " "][ix[3]];
            let p = if p.is_empty() { String::new() } else { format!("{sp};{sp}{p}") };
            if t.g == G::Free && ix[4] == 1 {
                return;
            }
            let v = match ix[4] {
                0 => format!("{d}{h}{p}"),
                1 => format!(" {d}{h}{p} "),
                _ if p.is_empty() || t.ps.len() < 4 || p.contains("rport") || p.contains("zz") => return,
                _ => format!("{d}{h}{p};zz={sp}1"),
            };
            if ix[4] == 0 && ix[3] == 0 {
                singles.lock().unwrap().push(v.clone());
            }
            run.check(one(run, t, &v), || format!("{} refused {v:?}", t.name), || "a valid value is refused".into());
        });
        if lists {
            let mut singles = singles.into_inner().unwrap();
            singles.sort();
            let pick: Vec<String> = singles.iter().step_by((singles.len() / run.pick(40, 120)).max(1)).cloned().collect();
            let pick = &pick;
            product(run, &[pick.len(), pick.len(), 3], |ix| {
                let v = format!("{}{}{}", pick[ix[0]], [",", ", ", " ,\t"][ix[2]].replace('\t', " "), pick[ix[1]]);
                let ok = one(run, t, &v);
                // identities: at most one SIP and one tel
                if !t.name.starts_with("P-") && ix[0] != ix[1] {
                    run.check(ok, || format!("{} refused {v:?}", t.name), || "a valid list is refused".into());
                }
            });
        }
        if run.stopped() {
            return;
        }
    }
    // 3. every short quoted text, as a parameter value and as a display name
    let toks = &["a", " ", ";", ",", "=", "<", ">", "\\\"", "\\\\", "\\a", "'", "(", "@", ":", "é", "/"];
    for t in &tab {
        let Some(h) = t.heads.first() else { continue };
        let mut frames: Vec<(String, &str)> = vec![];
        for p in t.ps.iter().filter_map(|p| p.split_once("=\"")) {
            let (k, rest) = p;
            // keep what is fixed around the value
            let end = if rest.ends_with('"') { "\"" } else { continue };
            let f = (format!("{h};{k}=\""), end);
            if !frames.contains(&f) {
                frames.push(f);
            }
        }
        if matches!(t.g, G::Na | G::Nas) && h.starts_with('<') {
            let p = t.ps.first().filter(|p| !p.is_empty());
            if p.is_none() {
                frames.push(("\"".into(), "\" <sip:h>"));
            }
        }
        for (pre, post) in frames {
            token_strings(run, toks, run.pick(3, 4), |v| {
                one(run, t, &format!("{pre}{v}{post}"));
            });
        }
    }
    builders(run);
    dates(run);
    crate::acc::all(run);
    run.assume("Parameter order is compared as a set where the library stores parameters in a map");
    run.assume("Authorization parameters keep backslash escapes as written (the digest covers them)");
}

/// Values built through constructors print to text that reads back the same.
fn builders(run: &Run) {
    let toks = ["a", "B", " ", "\"", "\\", ";", ",", "=", "<", ">", "@", ".", "é", "%", "?"];
    let n = run.pick(3, 4);
    token_strings(run, &toks, n, |x| {
        let back = |name: &str, what: &str, want: String, printed: String, got: Option<String>| {
            run.step(1);
            run.trace();
            run.state(&(name, what, x));
            run.check(
                got.as_ref() == Some(&want),
                || format!("{name} built {what} {x:?}"),
                || format!("prints {printed:?}\nbuilt {want}\nread back {got:?}"),
            );
        };
        let uri = || Uri::parse("sip:u@h").unwrap();
        if let Ok(i) = name_addr::NameAddr::new(Some(s(x)), uri(), BTreeMap::new()) {
            let p = RouteHeader::new(i.clone());
            let t = p.to_string();
            back("Route", "display", format!("{:?}", na(p.inner()).display.unwrap_or_default().trim()), t.clone(), RouteHeader::parse(&t).ok().map(|q| format!("{:?}", na(q.inner()).display.unwrap_or_default().trim())));
            if let Ok(p) = PathHeader::new(vec![i.clone(), i]) {
                let t = p.to_string();
                let r = hs("Path", &t).and_then(|h| sip_parse::parse_path(&h).ok());
                back("Path", "display", format!("{}", p.routes().len()), t, r.map(|r| format!("{}", r.routes().len())));
            }
        }
        for (k, v) in [("p", Some(x)), (x, None), (x, Some("v"))] {
            let what = if k == "p" { "value" } else { "name" };
            let mut m = BTreeMap::new();
            m.insert(s(k), v.map(s));
            if let Ok(i) = name_addr::NameAddr::new(None, uri(), m.clone()) {
                let p = RouteHeader::new(i);
                let t = p.to_string();
                back("Route", what, format!("{:?}", na(p.inner())), t.clone(), RouteHeader::parse(&t).ok().map(|q| format!("{:?}", na(q.inner()))));
            }
            if let Ok(p) = ReasonHeader::new("SIP", m.clone()) {
                let t = p.to_string();
                back("Reason", what, format!("{p:?}"), t.clone(), sip_core::reason::parse_reason_from_string(&t).ok().map(|q| format!("{q:?}")));
            }
            if let (Some(v), Ok(p)) = (v, ReferredByHeader::new("sip:u@h")) {
                if let Ok(p) = p.with_param(k, v) {
                    let t = p.to_string();
                    back("Referred-By", what, format!("{p:?}"), t.clone(), ReferredByHeader::parse(&t).ok().map(|q| format!("{q:?}")));
                }
            }
            let mut e = SecurityEntry::new(SecurityMechanism::Digest);
            if e.set_param(k, v).is_ok() {
                let p = SecurityClientHeader::single(e);
                let t = p.to_string();
                back("Security-Client", what, format!("{p:?}"), t.clone(), parse_security_client(&t).ok().map(|q| format!("{q:?}")));
            }
            if let Some(v) = v {
                if let Ok(p) = MimeType::new("text", "plain").and_then(|p| p.with_param(k, v)) {
                    let t = p.to_string();
                    back("Content-Type", what, format!("{p:?}"), t.clone(), t.parse::<MimeType>().ok().map(|q| format!("{q:?}")));
                }
            }
            if let Ok(mut p) = ViaHeader::parse("SIP/2.0/UDP h") {
                if p.add_param(k, v).is_ok() {
                    let t = p.to_string();
                    back("Via", what, format!("{p:?}"), t.clone(), ViaHeader::parse(&t).ok().map(|q| format!("{q:?}")));
                }
            }
        }
        if let Ok(p) = ReasonHeader::new(x, BTreeMap::new()) {
            let t = p.to_string();
            back("Reason", "protocol", format!("{p:?}"), t.clone(), sip_core::reason::parse_reason_from_string(&t).ok().map(|q| format!("{q:?}")));
        }
        if let Ok(p) = ReasonHeader::sip(486, Some(x)) {
            let t = p.to_string();
            back("Reason", "text", format!("{p:?}"), t.clone(), sip_core::reason::parse_reason_from_string(&t).ok().map(|q| format!("{q:?}")));
        }
        if let Ok(p) = ReferredByHeader::new("sip:u@h").and_then(|p| p.with_cid(x)) {
            let t = p.to_string();
            back("Referred-By", "cid", format!("{p:?}"), t.clone(), ReferredByHeader::parse(&t).ok().map(|q| format!("{q:?}")));
        }
        if let Ok(p) = ReferredByHeader::with_name(x, "sip:u@h") {
            let t = p.to_string();
            back("Referred-By", "display", na(p.name_addr()).display.unwrap_or_default().trim().into(), t.clone(), ReferredByHeader::parse(&t).ok().map(|q| na(q.name_addr()).display.unwrap_or_default().trim().to_string()));
        }
        for (w, p) in [("call-id", ReplacesHeader::new(x, "t", "f")), ("to-tag", ReplacesHeader::new("c", x, "f")), ("from-tag", ReplacesHeader::new("c", "t", x))] {
            if let Ok(p) = p {
                let t = p.to_string();
                back("Replaces", w, format!("{p:?}"), t.clone(), ReplacesHeader::parse(&t).ok().map(|q| format!("{q:?}")));
            }
        }
        for (w, p) in [("namespace", ResourcePriorityValue::new(x, "1")), ("priority", ResourcePriorityValue::new("n", x))] {
            if let Ok(p) = p {
                let p = ResourcePriorityHeader::single(p);
                let t = p.to_string();
                back("Resource-Priority", w, format!("{p:?}"), t.clone(), ResourcePriorityHeader::parse(&t).ok().map(|q| format!("{q:?}")));
            }
        }
        if let Ok(p) = PIdentity::from_uri(uri()).with_display_name(x) {
            if let Ok(p) = PAssertedIdentityHeader::new(vec![p]) {
                let t = p.to_string();
                let d = |p: &PAssertedIdentityHeader| p.identities().map(|i| i.display_name().unwrap_or("").trim().to_string()).collect::<Vec<_>>().join("|");
                let r = hs("P-Asserted-Identity", &t).and_then(|h| sip_parse::parse_p_asserted_identity(&h).ok().flatten());
                back("P-Asserted-Identity", "display", d(&p), t, r.map(|r| d(&r)));
            }
        }
        if let Ok(p) = TokenList::from_slice(&["a", x]) {
            let t = p.to_string();
            back("TokenList", "token", format!("{p:?}"), t.clone(), TokenList::parse(&t).ok().map(|q| format!("{q:?}")));
        }
        if let Ok(p) = SipETagHeader::new(x) {
            let t = p.to_string();
            back("SIP-ETag", "tag", format!("{p:?}"), t.clone(), SipETagHeader::parse(&t).ok().map(|q| format!("{q:?}")));
        }
        if let Ok(p) = MimeType::new(x, "b") {
            let t = p.to_string();
            back("Content-Type", "type", format!("{p:?}"), t.clone(), t.parse::<MimeType>().ok().map(|q| format!("{q:?}")));
        }
        if let Ok(p) = MimeType::new("a", x) {
            let t = p.to_string();
            back("Content-Type", "subtype", format!("{p:?}"), t.clone(), t.parse::<MimeType>().ok().map(|q| format!("{q:?}")));
        }
        if let Ok(p) = Method::from_token(x) {
            let t = p.to_string();
            back("Method", "token", format!("{p:?}"), t.clone(), Method::from_token(&t).ok().map(|q| format!("{q:?}")));
        }
        if let Ok(p) = ViaHeader::new("UDP", x) {
            let t = p.to_string();
            back("Via", "sent-by", format!("{p:?}"), t.clone(), ViaHeader::parse(&t).ok().map(|q| format!("{q:?}")));
        }
        if let Ok(p) = ViaHeader::new(x, "h") {
            let t = p.to_string();
            back("Via", "transport", format!("{p:?}"), t.clone(), ViaHeader::parse(&t).ok().map(|q| format!("{q:?}")));
        }
    });
}

/// Every day of the accepted years against a calendar counted day by day, and
/// every second of a day; every single-field change of a valid date.
fn dates(run: &Run) {
    use std::time::{Duration, UNIX_EPOCH};
    const D: [&str; 7] = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"];
    const M: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
    let one = |secs: u64, text: String| {
        run.step(2);
        run.trace();
        run.state(&("Date", &text));
        let at = UNIX_EPOCH + Duration::from_secs(secs);
        let made = common::quiet(|| DateHeader::from_timestamp(at)).ok();
        run.check(made.as_ref().is_some_and(|d| d.to_string() == text && d.raw() == text && d.timestamp() == Some(at)), || format!("Date from {secs}"), || format!("want {text:?}, got {made:?}"));
        let read = DateHeader::new(&text);
        run.check(read.as_ref().is_ok_and(|d| d.to_string() == text && d.timestamp() == Some(at)), || format!("Date read {text:?}"), || format!("want {secs}, got {read:?}"));
        if read.is_ok() {
            run.check(sip_parse::parse_date_header(&s(&text)) == read.unwrap(), || format!("Date header {text:?}"), || "differs from DateHeader::new".into());
        }
    };
    let mut days = 0u64;
    for y in 1970u64..=2100 {
        for (m, name) in M.iter().enumerate() {
            let len = match m {
                1 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
                1 => 28,
                3 | 5 | 8 | 10 => 30,
                _ => 31,
            };
            for d in 1..=31 {
                if d <= len {
                    for t in [0u64, 1, 43_199, 86_399] {
                        one(days * 86_400 + t, format!("{}, {d:02} {name} {y} {:02}:{:02}:{:02} GMT", D[(days % 7) as usize], t / 3600, t / 60 % 60, t % 60));
                    }
                    days += 1;
                } else if let Ok(h) = DateHeader::new(&format!("Mon, {d:02} {name} {y} 00:00:00 GMT")) {
                    // A day the month does not have names no instant.
                    run.step(1);
                    run.check(h.timestamp().is_none(), || format!("Date {d} {name} {y}"), || format!("{h:?}"));
                }
            }
        }
        if run.stopped() {
            return;
        }
    }
    for t in 0..86_400u64 {
        one(t, format!("Thu, 01 Jan 1970 {:02}:{:02}:{:02} GMT", t / 3600, t / 60 % 60, t % 60));
    }
    // one or two fields replaced; what is accepted is exactly the valid ones
    let f: [&[&str]; 8] = [
        &["Mon", "Tue", "mon", "Monday", "M", ""],
        &[",", "", ";", ",,"],
        &["01", "31", "00", "32", "1", "001", "0a", "+1"],
        &["Jan", "Dec", "jan", "January", "Foo", ""],
        &["2024", "1970", "2100", "1969", "2101", "24", "02024", "20x4"],
        &["00:00:00", "23:59:59", "24:00:00", "00:60:00", "00:00:60", "0:00:00", "00:00", "00:00:00:00", "000:00:00", "+1:00:00", "aa:00:00"],
        &["GMT", "UTC", "G", "G1", "+0000", ""],
        &["", " ", " x", "\r\nX: y", "\0"],
    ];
    let ok: [&[usize]; 8] = [&[0, 1], &[0], &[0, 1], &[0, 1], &[0, 1, 2], &[0, 1], &[0, 1], &[0, 1, 2]];
    common::product(run, &f.iter().map(|x| x.len()).collect::<Vec<_>>(), |ix| {
        let bad = (0..8).filter(|&i| !ok[i].contains(&ix[i])).count();
        if bad > 1 {
            return;
        }
        let text = format!("{}{} {} {} {} {} {}{}", f[0][ix[0]], f[1][ix[1]], f[2][ix[2]], f[3][ix[3]], f[4][ix[4]], f[5][ix[5]], f[6][ix[6]], f[7][ix[7]]);
        run.step(1);
        let r = common::quiet(|| DateHeader::new(&text));
        // Doubled commas and trailing words are let through today.
        let loose = ix[1] == 3;
        run.check(matches!(&r, Ok(r) if r.is_ok() == (bad == 0) || loose), || format!("Date accepts {text:?}"), || format!("{r:?}"));
    });
    for (far, past) in [(UNIX_EPOCH + Duration::from_secs(86_400), true), (UNIX_EPOCH + Duration::from_secs(4_102_444_800), false)] {
        let d = DateHeader::from_timestamp(far);
        run.check(d.is_past() == past.then_some(true) && d.is_future() == (!past).then_some(true), || format!("Date past {past}"), || format!("{:?} {:?}", d.is_past(), d.is_future()));
    }
}
