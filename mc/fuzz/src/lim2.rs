//! More limits: builders, and every remaining reader.
use super::*;
use sip_core::geolocation::*;
use sip_core::p_headers::*;
use sip_core::reg_event as re;
use sip_core::security::*;
use sip_core::watcher_info as wi;

fn uri() -> Uri {
    Uri::parse("sip:h").unwrap()
}
/// n-th distinct parameter name
fn pn(i: usize) -> String {
    format!("p{i}")
}
/// `v` folded over n steps, all accepted
fn steps<T, E>(n: usize, v: T, f: impl Fn(T, usize) -> Result<T, E>) -> bool {
    (0..n).try_fold(v, f).is_ok()
}
fn sdp(h: &str, m: &str) -> bool {
    SdpSession::parse(&format!("v=0\r\no=- 1 1 IN IP4 h\r\ns=-\r\n{h}t=0 0\r\n{m}")).is_ok()
}
const M: &str = "m=audio 1 RTP/AVP 0\r\n";
fn winfo(res: &str, id: &str, name: &str) -> bool {
    parse_watcherinfo(&format!("<watcherinfo xmlns=\"urn:ietf:params:xml:ns:watcherinfo\" version=\"1\" state=\"full\"><watcher-list resource=\"{res}\" package=\"presence\"><watcher id=\"{id}\" event=\"subscribe\" status=\"active\" display-name=\"{name}\">sip:b@b</watcher></watcher-list></watcherinfo>")).is_ok()
}
fn tuple(id: &str, contact: &str, note: &str, ts: &str) -> bool {
    parse_pidf(&format!("<presence entity=\"a:b\"><tuple id=\"{id}\"><status><basic>open</basic></status><contact>{contact}</contact><note>{note}</note><timestamp>{ts}</timestamp></tuple></presence>")).is_ok()
}
fn cpim(head: &str, mime: &str, body: &str) -> bool {
    parse_cpim(&format!("Content-Type: Message/CPIM\r\n\r\n{head}\r\n{mime}\r\n{body}")).is_ok()
}
const CT: &str = "Content-Type: text/plain\r\n";

pub fn more() -> Vec<L> {
    macro_rules! l {
        ($n:expr, $m:expr, |$v:ident| $e:expr) => {
            L { name: $n, limit: $m, f: |$v| $e }
        };
    }
    // one row each for a parameter's name, value and number, of one builder
    macro_rules! params {
        ($what:literal, $count:expr, $name:expr, $value:expr, $make:expr, $add:expr) => {
            [
                l!(concat!($what, " parameters"), $count, |n| steps(n, $make, |v, i| $add(v, &pn(i), if i % 2 == 0 { "v" } else { "w" }))),
                l!(concat!($what, " parameter name"), $name, |n| n == 0 || $add($make, &x(n), "v").is_ok()),
                l!(concat!($what, " parameter value"), $value, |n| n == 0 || $add($make, "p", &x(n)).is_ok()),
            ]
        };
    }
    let mut v = vec![
        l!("header count", 200, |n| {
            let mut h = Headers::new();
            (0..n).all(|i| h.push(&pn(i), "v").is_ok())
        }),
        l!("parsed response headers", 200, |n| n < 2 || sip_parse::parse_response(&b(&format!("SIP/2.0 200 OK\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKx\r\nCSeq: 1 OPTIONS\r\n{}\r\n", nums(n - 2, |i| format!("X-{i}: a\r\n"))))).is_some()),
        l!("strict datagram size", 65536, |n| {
            let base = "OPTIONS sip:h SIP/2.0\r\nCSeq: 1 OPTIONS\r\nContent-Length: \r\n\r\n".len() + 5;
            n < base + 10000 || sip_parse::parse_request_strict(&b(&format!("OPTIONS sip:h SIP/2.0\r\nCSeq: 1 OPTIONS\r\nContent-Length: {}\r\n\r\n{}", n - base, x(n - base)))).is_some()
        }),
        l!("strict response datagram size", 65536, |n| {
            let base = "SIP/2.0 200 OK\r\nCSeq: 1 OPTIONS\r\nContent-Length: \r\n\r\n".len() + 5;
            n < base + 10000 || sip_parse::parse_response_strict(&b(&format!("SIP/2.0 200 OK\r\nCSeq: 1 OPTIONS\r\nContent-Length: {}\r\n\r\n{}", n - base, x(n - base)))).is_some()
        }),
        l!("StatusLine reason", 256, |n| StatusLine::new(200, x(n)).is_ok()),
        l!("request body", 10 << 20, |n| Request::new(RequestLine::new(Method::Options, uri()), Headers::new(), Bytes::from(vec![b'a'; n])).is_ok()),
        l!("request set_body", 10 << 20, |n| Request::new(RequestLine::new(Method::Options, uri()), Headers::new(), Bytes::new()).unwrap().set_body(Bytes::from(vec![b'a'; n])).is_ok()),
        l!("response body", 10 << 20, |n| Response::new(StatusLine::new(200, "OK").unwrap(), Headers::new(), Bytes::from(vec![b'a'; n])).is_ok()),
        l!("response set_body", 10 << 20, |n| Response::new(StatusLine::new(200, "OK").unwrap(), Headers::new(), Bytes::new()).unwrap().set_body(Bytes::from(vec![b'a'; n])).is_ok()),
        l!("sipfrag set_body", 65536, |n| {
            let mut f = SipFrag::status_only(200, s("OK")).unwrap();
            f.add_header("Content-Type", "text/plain").unwrap();
            f.add_header("Content-Length", &n.to_string()).unwrap();
            f.set_body(vec![b'a'; n]).is_ok()
        }),
        l!("sipfrag with_body", 65536, |n| SipFrag::status_only(200, s("OK")).unwrap().with_header("Content-Type", "text/plain").unwrap().with_header("Content-Length", n.to_string()).unwrap().with_body(vec![b'a'; n]).is_ok()),
        l!("sipfrag from_response", 65536, |n| {
            let mut h = Headers::new();
            h.push("Content-Type", "text/plain").unwrap();
            h.push("Content-Length", n.to_string()).unwrap();
            SipFrag::from_response(Response::new(StatusLine::new(200, "OK").unwrap(), h, Bytes::from(vec![b'a'; n])).unwrap()).is_ok()
        }),
        l!("tel phone-context", 256, |n| n == 0 || TelUri::parse(&format!("tel:1;phone-context=+{}", "1".repeat(n.max(2) - 1))).is_ok()),
        l!("tel context label", 63, |n| n == 0 || TelUri::parse(&format!("tel:1;phone-context=b.{}.com", x(n))).is_ok()),
        l!("tel with_phone_context", 256, |n| n < 2 || TelUri::new("1", false).unwrap().with_phone_context(format!("+{}", "1".repeat(n - 1))).is_ok()),
        l!("tel parameter name", 32, |n| n == 0 || TelUri::parse(&format!("tel:+1;{}=1", x(n))).is_ok()),
        l!("tel parameter value", 128, |n| n == 0 || TelUri::parse(&format!("tel:+1;a={}", x(n))).is_ok()),
        l!("tel with_parameter name", 32, |n| n == 0 || TelUri::new("+1", true).unwrap().with_parameter(x(n), Some("1")).is_ok()),
        l!("tel with_parameter value", 128, |n| n == 0 || TelUri::new("+1", true).unwrap().with_parameter("a", Some(x(n))).is_ok()),
        l!("tel with_parameter", 20, |n| steps(n, TelUri::new("+1", true).unwrap(), |t, i| t.with_parameter(pn(i), Some("1")))),
        l!("tel parameters and context", 20, |n| n == 0 || steps(n - 1, TelUri::new("1", false).unwrap(), |t, i| t.with_parameter(pn(i), Some("1"))).then(|| (0..n - 1).try_fold(TelUri::new("1", false).unwrap(), |t, i| t.with_parameter(pn(i), Some("1"))).unwrap().with_phone_context("h").is_ok()) == Some(true)),
        l!("tel with_parameter phone-context", 256, |n| n < 2 || TelUri::new("1", false).unwrap().with_parameter("phone-context", Some(format!("+{}", "1".repeat(n - 1)))).is_ok()),
        l!("TelUri::new number", 64, |n| n < 2 || TelUri::new(format!("+{}", "1".repeat(n - 1)), true).is_ok()),
        l!("Reason protocol", 32, |n| n == 0 || ReasonHeader::new(x(n), Default::default()).is_ok()),
        l!("parsed Reason protocol", 32, |n| n == 0 || sip_core::reason::parse_reason_from_string(&format!("{};cause=1", x(n))).is_ok()),
        l!("parsed Reason parameter name", 64, |n| n == 0 || sip_core::reason::parse_reason_from_string(&format!("SIP;{}=1", x(n))).is_ok()),
        l!("parsed Reason parameter value", 256, |n| n == 0 || sip_core::reason::parse_reason_from_string(&format!("SIP;a={}", x(n))).is_ok()),
        l!("Reason quoted text", 256, |n| sip_core::reason::parse_reason_from_string(&format!("SIP;text=\"{}\"", x(n))).is_ok()),
        l!("Reason::sip text", 256, |n| ReasonHeader::sip(200, Some(&x(n))).is_ok()),
        l!("Reason::new parameter name", 64, |n| n == 0 || ReasonHeader::new("SIP", [(s(&x(n)), Some(s("1")))].into()).is_ok()),
        l!("Reason::new parameter value", 256, |n| n == 0 || ReasonHeader::new("SIP", [(s("a"), Some(s(&x(n))))].into()).is_ok()),
        l!("Reason::new parameters", 20, |n| ReasonHeader::new("SIP", (0..n).map(|i| (s(&pn(i)), Some(s("1")))).collect()).is_ok()),
        l!("security mechanism", 64, |n| n == 0 || parse_security_client(&x(n)).is_ok()),
        l!("security parameter name", 64, |n| n == 0 || parse_security_client(&format!("tls;{}=1", x(n))).is_ok()),
        l!("security parameter value", 256, |n| n == 0 || parse_security_client(&format!("tls;a={}", x(n))).is_ok()),
        l!("parsed Security-Server", 10, |n| n == 0 || parse_security_server(&vec!["tls"; n].join(",")).is_ok()),
        l!("parsed Security-Verify", 10, |n| n == 0 || parse_security_verify(&vec!["tls"; n].join(",")).is_ok()),
        l!("Security-Client entries", 10, |n| n == 0 || SecurityClientHeader::new(vec![SecurityEntry::tls(); n]).is_ok()),
        l!("Security-Server entries", 10, |n| n == 0 || SecurityServerHeader::new(vec![SecurityEntry::tls(); n]).is_ok()),
        l!("Security-Verify entries", 10, |n| n == 0 || SecurityVerifyHeader::new(vec![SecurityEntry::tls(); n]).is_ok()),
        l!("Replaces input", 1024, |n| n < 22 || ReplacesHeader::parse(&format!("a;to-tag=1;from-tag=2{}", " ".repeat(n - 21))).is_ok()),
        l!("Replaces::new Call-ID", 256, |n| n == 0 || ReplacesHeader::new(x(n), "1", "2").is_ok()),
        l!("Replaces::new to-tag", 128, |n| n == 0 || ReplacesHeader::new("a", x(n), "2").is_ok()),
        l!("Replaces::new from-tag", 128, |n| n == 0 || ReplacesHeader::new("a", "1", x(n)).is_ok()),
        l!("parsed Replaces from-tag", 128, |n| n == 0 || ReplacesHeader::parse(&format!("a;to-tag=1;from-tag={}", x(n))).is_ok()),
        l!("authorization scheme", 64, |n| n == 0 || sip_parse::parse_authorization_header(&s(&format!("{} a=1", x(n)))).is_some()),
        l!("AuthorizationHeader::new scheme", 64, |n| n == 0 || AuthorizationHeader::new(x(n)).is_ok()),
        l!("authorization parameter name", 64, |n| n == 0 || sip_parse::parse_authorization_header(&s(&format!("Digest {}=1", x(n)))).is_some()),
        l!("AuthorizationHeader::from_raw parameters", 30, |n| AuthorizationHeader::from_raw(s("Digest"), (0..n).map(|i| (s(&pn(i)), s("1"))).collect()).is_ok()),
        l!("Path::new", 50, |n| n == 0 || PathHeader::from_uris(vec![uri(); n]).is_ok()),
        l!("Path add_route", 50, |n| n < 1 || { let mut p = PathHeader::single(uri()).unwrap(); (1..n).all(|_| p.add_route(uri()).is_ok()) }),
        l!("Service-Route::new", 50, |n| n == 0 || ServiceRouteHeader::from_uris(vec![uri(); n]).is_ok()),
        l!("Service-Route add_route", 50, |n| n < 1 || { let mut p = ServiceRouteHeader::single(uri()).unwrap(); (1..n).all(|_| p.add_route(uri()).is_ok()) }),
        l!("RSeq input", 128, |n| n == 0 || RSeqHeader::parse(&format!("1{}", " ".repeat(n - 1))).is_ok()),
        l!("RAck input", 128, |n| n < 11 || RAckHeader::parse(&format!("1 1 INVITE{}", " ".repeat(n - 10))).is_ok()),
        l!("Resource-Priority namespace", 64, |n| n == 0 || ResourcePriorityHeader::parse(&format!("{}.a", x(n))).is_ok()),
        l!("Resource-Priority priority", 64, |n| n == 0 || ResourcePriorityHeader::parse(&format!("a.{}", x(n))).is_ok()),
        l!("Resource-Priority::new namespace", 64, |n| n == 0 || ResourcePriorityValue::new(x(n), "a").is_ok()),
        l!("Resource-Priority::new priority", 64, |n| n == 0 || ResourcePriorityValue::new("a", x(n)).is_ok()),
        l!("Resource-Priority input", 512, |n| n < 3 || ResourcePriorityHeader::parse(&format!("a.b{}", " ".repeat(n - 3))).is_ok()),
        l!("Resource-Priority add_value", 10, |n| { let mut h = ResourcePriorityHeader::new(); (0..n).all(|_| h.add_value(ResourcePriorityValue::new("a", "b").unwrap()).is_ok()) }),
        l!("Priority value", 32, |n| n == 0 || PriorityValue::parse(&x(n)).is_ok()),
        l!("Date value", 128, |n| n < 29 || DateHeader::new(&format!("Mon, 01 Jan 2024 00:00:00 GMT{}", " ".repeat(n - 29))).is_ok()),
        l!("History-Info::new", 50, |n| n == 0 || HistoryInfoHeader::new(vec![HistoryInfoEntry::new(uri()); n]).is_ok()),
        l!("History-Info push", 50, |n| n == 0 || { let mut h = HistoryInfoHeader::single(HistoryInfoEntry::new(uri())); (1..n).all(|_| h.push(HistoryInfoEntry::new(uri())).is_ok()) }),
        l!("parsed History-Info parameters", 20, |n| sip_parse::parse_history_info(&hs("History-Info", &format!("<sip:h>{}", nums(n, |i| format!(";p{i}"))))).is_ok()),
        l!("parsed History-Info parameter name", 64, |n| n == 0 || sip_parse::parse_history_info(&hs("History-Info", &format!("<sip:h>;{}=1", x(n)))).is_ok()),
        l!("parsed History-Info parameter value", 256, |n| n == 0 || sip_parse::parse_history_info(&hs("History-Info", &format!("<sip:h>;a={}", x(n)))).is_ok()),
        l!("History-Info header lines", 50, |n| n == 0 || { let mut h = Headers::new(); (0..n).all(|_| h.push("History-Info", "<sip:h>").is_ok()) && sip_parse::parse_history_info(&h).is_ok() }),
        l!("Path header lines", 50, |n| n == 0 || { let mut h = Headers::new(); (0..n).all(|_| h.push("Path", "<sip:h>").is_ok()) && sip_parse::parse_path(&h).is_ok() }),
        l!("Geolocation::new", 10, |n| n == 0 || GeolocationHeader::new(vec![GeolocationValue::new(uri()); n]).is_ok()),
        l!("parsed Geolocation values", 10, |n| n == 0 || sip_parse::parse_geolocation_header(&hs("Geolocation", &vec!["<sip:h>"; n].join(","))).is_ok()),
        l!("parsed Geolocation parameters", 20, |n| sip_parse::parse_geolocation_header(&hs("Geolocation", &format!("<sip:h>{}", nums(n, |i| format!(";p{i}"))))).is_ok_and(|h| h.first().unwrap().params().count() == n)),
        l!("parsed Geolocation parameter name", 64, |n| n == 0 || sip_parse::parse_geolocation_header(&hs("Geolocation", &format!("<sip:h>;{}=1", x(n)))).is_ok()),
        l!("parsed Geolocation parameter value", 256, |n| n == 0 || sip_parse::parse_geolocation_header(&hs("Geolocation", &format!("<sip:h>;a={}", x(n)))).is_ok()),
        l!("Geolocation-Error code", 16, |n| n == 0 || GeolocationErrorHeader::new().with_code(&"1".repeat(n)).is_ok()),
        l!("Geolocation-Error description", 512, |n| GeolocationErrorHeader::new().with_description(&x(n)).is_ok()),
        l!("parsed Geolocation-Error parameters", 20, |n| sip_parse::parse_geolocation_error(&s(&format!("100{}", nums(n, |i| format!(";p{i}=1"))))).is_ok_and(|h| h.params().count() == n)),
        l!("parsed Event parameter name", 64, |n| n == 0 || sip_parse::parse_event_header(&s(&format!("a;{}=1", x(n)))).is_some()),
        l!("parsed Event parameter value", 256, |n| n == 0 || sip_parse::parse_event_header(&s(&format!("a;b={}", x(n)))).is_some()),
        l!("EventHeader::new package", 64, |n| n == 0 || EventHeader::new(&x(n)).is_ok()),
        l!("EventHeader with_id", 256, |n| n == 0 || EventHeader::new("a").unwrap().with_id(&x(n)).is_ok()),
        l!("Subscription-State state", 32, |n| n == 0 || sip_parse::parse_subscription_state(&s(&x(n))).is_some()),
        l!("parsed Subscription-State parameters", 20, |n| sip_parse::parse_subscription_state(&s(&format!("active{}", nums(n, |i| format!(";p{i}=1"))))).is_some()),
        l!("parsed Subscription-State parameter name", 64, |n| n == 0 || sip_parse::parse_subscription_state(&s(&format!("active;{}=1", x(n)))).is_some()),
        l!("parsed Subscription-State parameter value", 256, |n| n == 0 || sip_parse::parse_subscription_state(&s(&format!("active;b={}", x(n)))).is_some()),
        l!("parsed MIME parameter name", 64, |n| n == 0 || format!("a/b;{}=1", x(n)).parse::<MimeType>().is_ok()),
        l!("parsed MIME parameter value", 256, |n| n == 0 || format!("a/b;c={}", x(n)).parse::<MimeType>().is_ok()),
        l!("MimeType::new type", 64, |n| n == 0 || MimeType::new(x(n), "b").is_ok()),
        l!("MimeType::new subtype", 64, |n| n == 0 || MimeType::new("a", x(n)).is_ok()),
        l!("identity display name", 256, |n| PIdentity::from_uri(uri()).with_display_name(x(n)).is_ok()),
        l!("P-Preferred-Identity entries", 10, |n| n == 0 || PPreferredIdentityHeader::new((0..n).map(|_| PIdentity::from_uri(uri())).collect()).is_ok()),
        l!("parsed P-Asserted-Identity entries", 10, |n| n == 0 || sip_core::p_headers::parse_p_asserted_identity(&hs("P-Asserted-Identity", &vec!["<sip:h>"; n].join(","))).is_ok()),
        l!("parsed P-Preferred-Identity entries", 10, |n| n == 0 || sip_core::p_headers::parse_p_preferred_identity(&hs("P-Preferred-Identity", &vec!["<sip:h>"; n].join(","))).is_ok()),
        l!("access type", 64, |n| n == 0 || PAccessNetworkInfo::new(x(n)).is_ok()),
        l!("parsed access type", 64, |n| n == 0 || sip_parse::parse_p_access_network_info(&s(&x(n))).is_some()),
        l!("parsed access parameters", 20, |n| sip_parse::parse_p_access_network_info(&s(&format!("a{}", nums(n, |i| format!(";p{i}=1"))))).is_some()),
        l!("network ids", 20, |n| n == 0 || PVisitedNetworkIdHeader::new(vec!["a"; n]).is_ok()),
        l!("network id", 256, |n| n == 0 || PVisitedNetworkIdHeader::new(vec![x(n)]).is_ok()),
        l!("parsed network ids", 20, |n| n == 0 || sip_parse::parse_p_visited_network_id(&s(&vec!["a"; n].join(","))).is_some()),
        l!("parsed network id", 256, |n| n == 0 || sip_parse::parse_p_visited_network_id(&s(&x(n))).is_some()),
        l!("SIP-ETag::new", 128, |n| n == 0 || SipETagHeader::new(&x(n)).is_ok()),
        l!("SIP-If-Match", 128, |n| n == 0 || SipIfMatchHeader::parse(&x(n)).is_ok()),
        l!("NameAddr display name", 256, |n| NameAddr::new(Some(s(&x(n))), uri(), Default::default()).is_ok()),
        l!("Contact parameters", 64, |n| sip_parse::parse_contact_header(&s(&format!("<sip:h>{}", nums(n, |i| format!(";p{i}"))))).is_some()),
        l!("Contact parameter name", 64, |n| n == 0 || sip_parse::parse_contact_header(&s(&format!("<sip:h>;{}=1", x(n)))).is_some()),
        l!("Contact parameter value", 256, |n| n == 0 || sip_parse::parse_contact_header(&s(&format!("<sip:h>;a={}", x(n)))).is_some()),
        l!("Route input", 2048, |n| n < 7 || RouteHeader::parse(&format!("<sip:h>{}", " ".repeat(n - 7))).is_ok()),
        l!("Route parameters", 64, |n| RouteHeader::parse(&format!("<sip:h>{}", nums(n, |i| format!(";p{i}")))).is_ok()),
        l!("Referred-By input", 2048, |n| n < 7 || ReferredByHeader::parse(&format!("<sip:h>{}", " ".repeat(n - 7))).is_ok()),
        l!("Referred-By parameters", 20, |n| ReferredByHeader::parse(&format!("<sip:h>{}", nums(n, |i| format!(";p{i}=1")))).is_ok()),
        l!("Referred-By parameter name", 64, |n| n == 0 || ReferredByHeader::parse(&format!("<sip:h>;{}=1", x(n))).is_ok()),
        l!("Referred-By parameter value", 256, |n| n == 0 || ReferredByHeader::parse(&format!("<sip:h>;a={}", x(n))).is_ok()),
        l!("Referred-By cid", 256, |n| n == 0 || ReferredByHeader::parse(&format!("<sip:h>;cid=\"{}\"", x(n))).is_ok()),
        l!("Referred-By with_cid", 256, |n| n == 0 || ReferredByHeader::new("sip:h").unwrap().with_cid(x(n)).is_ok()),
        l!("Privacy input", 256, |n| n < 4 || PrivacyHeader::parse(&format!("none{}", " ".repeat(n - 4))).is_ok()),
        l!("Refer-Sub input", 16, |n| n < 4 || ReferSubHeader::parse(&format!("true{}", " ".repeat(n - 4))).is_some()),
        l!("rtpmap encoding name", 64, |n| n == 0 || RtpMap::parse(&format!("96 {}/8000", x(n))).is_some()),
        l!("rtpmap clock rate", 1_000_000_000, |n| n == 0 || RtpMap::parse(&format!("96 a/{n}")).is_some()),
        l!("rtpmap payload type", 127, |n| RtpMap::parse(&format!("{n} a/8000")).is_some()),
        l!("fmtp params", 1024, |n| n == 0 || Fmtp::parse(&format!("96 {}", x(n))).is_some()),
        l!("fmtp format", 16, |n| n == 0 || Fmtp::parse(&format!("{} a", x(n))).is_some()),
        l!("core SDP session id", 64, |n| n == 0 || SdpSession::parse(&format!("v=0\r\no=- {} 1 IN IP4 h\r\ns=-\r\nt=0 0\r\n", "1".repeat(n))).is_ok()),
        l!("core SDP session version", 64, |n| n == 0 || SdpSession::parse(&format!("v=0\r\no=- 1 {} IN IP4 h\r\ns=-\r\nt=0 0\r\n", "1".repeat(n))).is_ok()),
        l!("core SDP nettype", 16, |n| n == 0 || SdpSession::parse(&format!("v=0\r\no=- 1 1 {} IP4 h\r\ns=-\r\nt=0 0\r\n", x(n))).is_ok()),
        l!("core SDP addrtype", 16, |n| n == 0 || SdpSession::parse(&format!("v=0\r\no=- 1 1 IN {} h\r\ns=-\r\nt=0 0\r\n", x(n))).is_ok()),
        l!("core SDP origin address", 255, |n| n == 0 || SdpSession::parse(&format!("v=0\r\no=- 1 1 IN IP4 {}\r\ns=-\r\nt=0 0\r\n", x(n))).is_ok()),
        l!("core SDP info", 2048, |n| n == 0 || sdp(&format!("i={}\r\n", x(n)), "")),
        l!("core SDP media title", 2048, |n| n == 0 || sdp("", &format!("{M}i={}\r\nc=IN IP4 h\r\n", x(n)))),
        l!("core SDP uri", 2048, |n| n == 0 || sdp(&format!("u={}\r\n", x(n)), "")),
        l!("core SDP email", 320, |n| n == 0 || sdp(&format!("e={}\r\n", x(n)), "")),
        l!("core SDP phone", 32, |n| n == 0 || sdp(&format!("p={}\r\n", x(n)), "")),
        l!("core SDP emails", 10, |n| sdp(&"e=a@b\r\n".repeat(n), "")),
        l!("core SDP phones", 10, |n| sdp(&"p=+1\r\n".repeat(n), "")),
        l!("core SDP connection nettype", 16, |n| n == 0 || sdp(&format!("c={} IP4 h\r\n", x(n)), "")),
        l!("core SDP connection addrtype", 16, |n| n == 0 || sdp(&format!("c=IN {} h\r\n", x(n)), "")),
        l!("core SDP connection address", 255, |n| n == 0 || sdp(&format!("c=IN IP4 {}\r\n", x(n)), "")),
        l!("core SDP media connection address", 255, |n| n == 0 || sdp("", &format!("{M}c=IN IP4 {}\r\n", x(n)))),
        l!("core SDP bandwidth type", 32, |n| n == 0 || sdp(&format!("b={}:1\r\n", x(n)), "")),
        l!("core SDP bandwidth", 10_000_000, |n| sdp(&format!("b=AS:{n}\r\n"), "")),
        l!("core SDP bandwidths", 20, |n| sdp(&"b=AS:1\r\n".repeat(n), "")),
        l!("core SDP media bandwidths", 20, |n| sdp("", &format!("{M}c=IN IP4 h\r\n{}", "b=AS:1\r\n".repeat(n)))),
        l!("core SDP timings", 10, |n| n == 0 || sdp(&"t=0 0\r\n".repeat(n - 1), "")),
        l!("core SDP repeats", 10, |n| sdp("", &"r=1 1 0\r\n".repeat(n))),
        l!("core SDP repeat interval", 16, |n| n == 0 || sdp("", &format!("r={} 1 0\r\n", "1".repeat(n)))),
        l!("core SDP repeat duration", 16, |n| n == 0 || sdp("", &format!("r=1 {} 0\r\n", "1".repeat(n)))),
        l!("core SDP repeat offset", 16, |n| n == 0 || sdp("", &format!("r=1 1 {}\r\n", "1".repeat(n)))),
        l!("core SDP zones", 50, |n| n == 0 || sdp("", &format!("z={}\r\n", vec!["1 1h"; n].join(" ")))),
        l!("core SDP key method", 64, |n| n == 0 || sdp("", &format!("k={}:a\r\n", x(n)))),
        l!("core SDP key", 1024, |n| n == 0 || sdp("", &format!("k=clear:{}\r\n", x(n)))),
        l!("core SDP media type", 32, |n| n == 0 || sdp("", &format!("m={} 1 RTP/AVP 0\r\nc=IN IP4 h\r\n", x(n)))),
        l!("core SDP proto", 64, |n| n == 0 || sdp("", &format!("m=audio 1 {} 0\r\nc=IN IP4 h\r\n", x(n)))),
        l!("core SDP format", 16, |n| n == 0 || sdp("", &format!("m=audio 1 udp {}\r\nc=IN IP4 h\r\n", x(n)))),
        l!("core SDP groups", 20, |n| sdp("", &"a=group:LS a\r\n".repeat(n))),
        l!("core SDP mids in a group", 50, |n| n == 0 || sdp("", &format!("a=group:LS{}\r\n", nums(n, |i| format!(" m{i}"))))),
        l!("core SDP capabilities", 50, |n| n == 0 || sdp("", &format!("a=sqn:0\r\n{}", nums(n, |i| format!("a=cdsc:{} audio RTP/AVP 0\r\n", i + 1))))),
        l!("core SDP capability number", 255, |n| n == 0 || sdp("", &format!("a=sqn:0\r\na=cdsc:{n} audio RTP/AVP 0\r\n"))),
        l!("core SDP capability media", 32, |n| n == 0 || sdp("", &format!("a=sqn:0\r\na=cdsc:1 {} RTP/AVP 0\r\n", x(n)))),
        l!("core SDP capability proto", 64, |n| n == 0 || sdp("", &format!("a=sqn:0\r\na=cdsc:1 audio {} 0\r\n", x(n)))),
        l!("core SDP capability format", 16, |n| n == 0 || sdp("", &format!("a=sqn:0\r\na=cdsc:1 audio RTP/AVP {}\r\n", x(n)))),
        l!("answer codec name", 64, |n| n == 0 || CodecInfo::new(x(n), 8000, None).is_ok()),
        l!("answer fmtp", 256, |n| CodecInfo::new("a", 8000, None).unwrap().with_fmtp(x(n)).is_ok()),
        l!("answer address", 256, |n| n == 0 || AnswerOptions::new().with_local_address(x(n)).is_ok()),
        l!("answer user", 128, |n| n == 0 || AnswerOptions::new().with_username(x(n)).is_ok()),
        l!("answer session id", 128, |n| n == 0 || AnswerOptions::new().with_session_id("1".repeat(n)).is_ok()),
        l!("answer audio codecs", 50, |n| n == 0 || AnswerOptions::new().with_audio_codecs(vec![CodecInfo::new("a", 8000, None).unwrap(); n]).is_ok()),
        l!("answer video codecs", 50, |n| n == 0 || AnswerOptions::new().with_video_codecs(vec![CodecInfo::new("a", 8000, None).unwrap(); n]).is_ok()),
        l!("answer rejected media", 20, |n| AnswerOptions::new().with_reject_media((0..n).collect()).is_ok()),
        l!("registrations", 100, |n| { let mut d = re::RegInfo::new(1, re::RegInfoState::Full); (0..n).all(|_| d.add_registration(re::Registration::new("sip:a", "i", re::RegistrationState::Active).unwrap()).is_ok()) }),
        l!("registration contacts", 50, |n| { let mut d = re::Registration::new("sip:a", "i", re::RegistrationState::Active).unwrap(); (0..n).all(|_| d.add_contact(re::Contact::new("i", re::ContactState::Active, "sip:b").unwrap()).is_ok()) }),
        l!("registration address", 512, |n| n < 5 || re::Registration::new(format!("http:{}", x(n.max(6) - 5)), "i", re::RegistrationState::Active).is_ok()),
        l!("registration id", 128, |n| n == 0 || re::Registration::new("sip:a", x(n), re::RegistrationState::Active).is_ok()),
        l!("registration contact address", 512, |n| n < 5 || re::Contact::new("i", re::ContactState::Active, format!("http:{}", x(n.max(6) - 5))).is_ok()),
        l!("registration contact id", 128, |n| n == 0 || re::Contact::new(x(n), re::ContactState::Active, "sip:b").is_ok()),
        l!("registration display name", 256, |n| re::Contact::new("i", re::ContactState::Active, "sip:b").unwrap().with_display_name(x(n)).is_ok()),
        l!("registration Call-ID", 256, |n| n == 0 || re::Contact::new("i", re::ContactState::Active, "sip:b").unwrap().with_call_id(x(n)).is_ok()),
        l!("parsed watcher resource", 512, |n| n < 6 || winfo(&format!("http:{}", x(n - 5)), "i", "n")),
        l!("parsed watcher id", 128, |n| n == 0 || winfo("sip:a", &x(n), "n")),
        l!("parsed watcher name", 256, |n| n == 0 || winfo("sip:a", "i", &x(n))),
        l!("watcher list resource", 512, |n| n < 6 || wi::WatcherList::new(format!("http:{}", x(n - 5)), "presence").is_ok()),
        l!("watcher list package", 64, |n| n == 0 || wi::WatcherList::new("sip:a", x(n)).is_ok()),
        l!("watcher lists added", 100, |n| { let mut d = wi::WatcherinfoDocument::new(1, "full").unwrap(); (0..n).all(|_| d.add_watcher_list(wi::WatcherList::new("sip:a", "p").unwrap()).is_ok()) }),
        l!("watchers added", 1000, |n| { let mut d = wi::WatcherList::new("sip:a", "p").unwrap(); (0..n).all(|_| d.add_watcher(wi::Watcher::new("i", wi::WatcherStatus::Active, wi::WatcherEvent::Subscribe).unwrap()).is_ok()) }),
        l!("watcher id", 128, |n| n == 0 || wi::Watcher::new(x(n), wi::WatcherStatus::Active, wi::WatcherEvent::Subscribe).is_ok()),
        l!("watcher uri", 512, |n| n < 6 || wi::Watcher::new("i", wi::WatcherStatus::Active, wi::WatcherEvent::Subscribe).unwrap().with_uri(format!("http:{}", x(n - 5))).is_ok()),
        l!("watcher display name", 256, |n| wi::Watcher::new("i", wi::WatcherStatus::Active, wi::WatcherEvent::Subscribe).unwrap().with_display_name(x(n)).is_ok()),
        l!("parsed tuple id", 128, |n| n == 0 || tuple(&x(n), "sip:a", "n", "t")),
        l!("parsed tuple contact", 512, |n| n == 0 || tuple("i", &x(n), "n", "t")),
        l!("parsed tuple note", 512, |n| n == 0 || tuple("i", "sip:a", &x(n), "t")),
        l!("parsed tuple timestamp", 64, |n| n == 0 || tuple("i", "sip:a", "n", &x(n))),
        l!("parsed tuple notes", 10, |n| parse_pidf(&format!("<presence entity=\"a:b\"><tuple id=\"t\"><status><basic>open</basic></status>{}</tuple></presence>", "<note>x</note>".repeat(n))).is_ok()),
        l!("parsed document note", 512, |n| n == 0 || parse_pidf(&format!("<presence entity=\"a:b\"><note>{}</note></presence>", x(n))).is_ok()),
        l!("parsed document size", 1 << 20, |n| n < 200 || parse_pidf(&format!("<presence entity=\"a:b\"></presence>{}", " ".repeat(n - 34))).is_ok()),
        l!("presence entity", 512, |n| n == 0 || PresenceDocument::new(x(n)).is_ok()),
        l!("presence notes", 20, |n| { let mut d = PresenceDocument::new("a:b").unwrap(); (0..n).all(|_| d.add_note("x").is_ok()) }),
        l!("presence note", 512, |n| PresenceDocument::new("a:b").unwrap().add_note(x(n)).is_ok()),
        l!("presence tuples", 50, |n| { let mut d = PresenceDocument::new("a:b").unwrap(); (0..n).all(|i| d.add_tuple(Tuple::new(pn(i)).unwrap()).is_ok()) }),
        l!("tuple id", 128, |n| n == 0 || Tuple::new(x(n)).is_ok()),
        l!("tuple contact", 512, |n| n == 0 || Tuple::new("i").unwrap().with_contact(x(n)).is_ok()),
        l!("tuple note", 512, |n| Tuple::new("i").unwrap().with_note(x(n)).is_ok()),
        l!("tuple notes", 10, |n| steps(n, Tuple::new("i").unwrap(), |t, _| t.with_note("x"))),
        l!("tuple timestamp", 64, |n| n == 0 || Tuple::new("i").unwrap().with_timestamp(x(n)).is_ok()),
        l!("message account", 512, |n| n == 0 || MessageSummary::new(true).set_account(x(n)).is_ok()),
        l!("parsed message account", 512, |n| n == 0 || parse_message_summary(&format!("Messages-Waiting: yes\r\nMessage-Account: {}\r\n", x(n))).is_ok()),
        l!("message headers", 50, |n| { let mut m = MessageSummary::new(true); (0..n).all(|_| m.add_message_header(MessageHeader::new()).is_ok()) }),
        l!("message header value", 1024, |n| n == 0 || MessageHeader::new().with_to(x(n)).is_ok() && MessageHeader::new().with_from(x(n)).is_ok() && MessageHeader::new().with_subject(x(n)).is_ok() && MessageHeader::new().with_date(x(n)).is_ok()),
        l!("message header id", 1024, |n| n == 0 || MessageHeader::new().with_priority(x(n)).is_ok() && MessageHeader::new().with_message_id(x(n)).is_ok() && MessageHeader::new().with_message_context(x(n)).is_ok()),
        l!("message header value refused", 1024, |n| n == 0 || MessageHeader::new().with_to(x(n)).is_ok() || MessageHeader::new().with_from(x(n)).is_ok() || MessageHeader::new().with_subject(x(n)).is_ok() || MessageHeader::new().with_date(x(n)).is_ok() || MessageHeader::new().with_priority(x(n)).is_ok() || MessageHeader::new().with_message_id(x(n)).is_ok() || MessageHeader::new().with_message_context(x(n)).is_ok()),
        l!("message summary size", 102400, |n| n < 200 || parse_message_summary(&format!("Messages-Waiting: yes\r\n{}", " ".repeat(n - 23))).is_ok()),
        l!("CPIM header name", 128, |n| n == 0 || cpim(&format!("{}: a\r\n", x(n)), CT, "b")),
        l!("CPIM header value", 1024, |n| cpim(&format!("H: a{}\r\n", x(n.max(1) - 1)), CT, "b")),
        l!("CPIM parameters", 10, |n| cpim(&format!("H:{} a\r\n", nums(n, |i| format!(";p{i}=1"))), CT, "b")),
        l!("CPIM parameter name", 64, |n| n == 0 || cpim(&format!("H:;{}=1 a\r\n", x(n)), CT, "b")),
        l!("CPIM parameter value", 256, |n| n == 0 || cpim(&format!("H:;p={} a\r\n", x(n)), CT, "b")),
        l!("CPIM content headers", 20, |n| n == 0 || cpim("F: a\r\n", &format!("{CT}{}", nums(n, |i| format!("Content-X{i}: a\r\n"))), "b")),
        l!("CPIM content type", 256, |n| n < 6 || cpim("F: a\r\n", &format!("Content-Type: text/{}\r\n", x(n - 5)), "b")),
        l!("CPIM body", 10 << 20, |n| CpimMessage::new("text/plain", vec![b'a'; n]).is_ok()),
        l!("CPIM set_body", 10 << 20, |n| CpimMessage::new("text/plain", vec![]).unwrap().set_body(vec![b'a'; n]).is_ok()),
        l!("CPIM::new content type", 256, |n| n < 6 || CpimMessage::new(&format!("text/{}", x(n - 5)), vec![]).is_ok()),
        l!("CPIM set_header value", 1024, |n| n == 0 || CpimMessage::new("text/plain", vec![]).unwrap().set_header("H", &x(n)).is_ok()),
        l!("CPIM set_header name", 128, |n| n == 0 || CpimMessage::new("text/plain", vec![]).unwrap().set_header(&x(n), "v").is_ok()),
        l!("CPIM add_header", 50, |n| steps(n, CpimMessage::new("text/plain", vec![]).unwrap(), |mut m, i| m.add_header(&pn(i), "v").map(|_| m))),
        l!("CPIM add_content_header", 20, |n| steps(n, CpimMessage::new("text/plain", vec![]).unwrap(), |mut m, i| m.add_content_header(&format!("Content-X{i}"), "v").map(|_| m))),
    ];
    v.extend(params!("Geolocation", 20, 64, 256, GeolocationValue::new(uri()), |v: GeolocationValue, a: &str, b: &str| v.with_param(a, Some(b))));
    v.extend(params!("Geolocation-Error", 20, 64, 256, GeolocationErrorHeader::new(), |v: GeolocationErrorHeader, a: &str, b: &str| v.with_param(a, Some(b))));
    v.extend(params!("Geolocation-Routing", 20, 64, 256, GeolocationRoutingHeader::new(), |v: GeolocationRoutingHeader, a: &str, b: &str| v.with_param(a, Some(b))));
    v.extend(params!("History-Info", 20, 64, 256, HistoryInfoEntry::new(uri()), |v: HistoryInfoEntry, a: &str, b: &str| v.with_param(a, Some(b))));
    v.extend(params!("Event", 20, 64, 256, EventHeader::new("a").unwrap(), |v: EventHeader, a: &str, b: &str| v.with_param(a, Some(b))));
    v.extend(params!("Subscription-State", 20, 64, 256, SubscriptionStateHeader::new(SubscriptionState::Active), |v: SubscriptionStateHeader, a: &str, b: &str| v.with_param(a, Some(b))));
    v.extend(params!("MIME", 20, 64, 256, MimeType::new("a", "b").unwrap(), |v: MimeType, a: &str, b: &str| v.with_param(a, b)));
    v.extend(params!("P-Identity", 20, 64, 256, PIdentity::from_uri(uri()), |v: PIdentity, a: &str, b: &str| v.with_param(a, Some(b))));
    v.extend(params!("access network", 20, 64, 256, PAccessNetworkInfo::new("a").unwrap(), |v: PAccessNetworkInfo, a: &str, b: &str| v.with_param(a, Some(b))));
    v.extend(params!("security entry", 20, 64, 256, SecurityEntry::tls(), |mut v: SecurityEntry, a: &str, b: &str| v.set_param(a, Some(b)).map(|_| v)));
    v.extend(params!("authorization", 30, 64, 256, AuthorizationHeader::new("Digest").unwrap(), |mut v: AuthorizationHeader, a: &str, b: &str| v.add_param(a, b).map(|_| v)));
    v.extend(params!("name-addr", 64, 64, 256, NameAddr::from_uri(uri()), |mut v: NameAddr, a: &str, b: &str| v.insert_param(s(a), Some(s(b))).map(|_| v)));
    v.extend(params!("Referred-By", 20, 64, 256, ReferredByHeader::new("sip:h").unwrap(), |v: ReferredByHeader, a: &str, b: &str| v.with_param(a, b)));
    v.extend(params!("CPIM header", 10, 64, 256, CpimHeader::new("a").unwrap(), |v: CpimHeader, a: &str, b: &str| v.with_param(a, b)));
    v.extend(params!("Via", 20, 64, 256, ViaHeader::new("UDP", "h").unwrap(), |mut v: ViaHeader, a: &str, b: &str| v.add_param(a, Some(b)).map(|_| v)));
    v
}
