//! P01: no input crashes a parser; documented limits hold exactly.
mod lim2;
use bytes::Bytes;
use common::{par_for, token_strings, Run};
use sip_core::*;
use smol_str::SmolStr;
use std::hint::black_box as bb;

type F = fn(&str);
struct P {
    name: &'static str,
    f: F,
    toks: &'static [&'static str],
    corpus: &'static [&'static str],
}

fn hs(name: &str, v: &str) -> Headers {
    let mut h = Headers::new();
    let _ = h.push(name, v);
    h
}
fn s(v: &str) -> SmolStr {
    SmolStr::new(v)
}
fn b(v: &str) -> Bytes {
    Bytes::copy_from_slice(v.as_bytes())
}
/// Bytes from text in which \u{f8xx} stands for the raw byte xx.
fn raw(v: &str) -> Vec<u8> {
    let mut o = vec![];
    for c in v.chars() {
        if (0xf800..0xf900).contains(&(c as u32)) {
            o.push(c as u8);
        } else {
            o.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
        }
    }
    o
}

const REQ: &str = "INVITE sip:bob@b.com SIP/2.0\r\nVia: SIP/2.0/UDP a.com:5060;branch=z9hG4bKx;rport\r\nMax-Forwards: 70\r\nFrom: \"A\" <sip:a@a.com>;tag=1\r\nTo: <sip:b@b.com>\r\nCall-ID: c1\r\nCSeq: 1 INVITE\r\nContact: <sip:a@10.0.0.1>\r\nContent-Type: application/sdp\r\nContent-Length: 4\r\n\r\nv=0\n";
const RESP: &str = "SIP/2.0 200 OK\r\nVia: SIP/2.0/UDP a.com;branch=z9hG4bKx\r\nFrom: <sip:a@a.com>;tag=1\r\nTo: <sip:b@b.com>;tag=2\r\nCall-ID: c1\r\nCSeq: 1 INVITE\r\nContact: <sip:b@b>\r\nRecord-Route: <sip:p;lr>\r\nRSeq: 5\r\nContent-Length: 0\r\n\r\n";
const SDP: &str = "v=0\r\no=- 1 2 IN IP4 10.0.0.1\r\ns=-\r\ni=x\r\nu=http://a\r\ne=a@b\r\np=+1\r\nc=IN IP4 10.0.0.1\r\nb=AS:64\r\nt=0 0\r\nr=7d 1h 0 25h\r\nz=0 -1h\r\nk=clear:x\r\na=group:BUNDLE a\r\na=sendrecv\r\nm=audio 4000/2 RTP/AVP 0 96\r\ni=t\r\nc=IN IP6 ::1\r\nb=TIAS:5\r\na=rtpmap:96 opus/48000/2\r\na=fmtp:96 a=1;b=2\r\na=mid:a\r\na=rtcp:53020 IN IP4 1.1.1.1\r\na=curr:qos local none\r\na=des:qos mandatory local sendrecv\r\na=sqn:0\r\na=cdsc:1 audio RTP/AVP 0\r\na=cpar: a=fmtp:96\r\n";
const PIDF: &str = "<?xml version=\"1.0\"?><presence xmlns=\"urn:ietf:params:xml:ns:pidf\" entity=\"pres:a@b\"><tuple id=\"t1\"><status><basic>open</basic></status><contact priority=\"0.8\">sip:a@b</contact><note xml:lang=\"en\">h&amp;i</note><timestamp>2020-01-01T00:00:00Z</timestamp></tuple><note>n</note></presence>";
const WINFO: &str = "<?xml version=\"1.0\"?><watcherinfo xmlns=\"urn:ietf:params:xml:ns:watcherinfo\" version=\"1\" state=\"full\"><watcher-list resource=\"sip:a@b\" package=\"presence\"><watcher id=\"w1\" event=\"subscribe\" status=\"active\" display-name=\"B&#66;\" expiration=\"5\" duration-subscribed=\"6\">sip:b@b</watcher></watcher-list></watcherinfo>";
const CPIM: &str = "Content-Type: Message/CPIM\r\n\r\nFrom: A <im:a@b>\r\nTo: <im:b@b>\r\nDateTime: 2000-12-13T13:40:00-08:00\r\nSubject:;lang=en h\r\nNS: My <urn:x>\r\n\r\nContent-Type: text/plain; charset=utf-8\r\nContent-ID: <1@b>\r\n\r\nbody";
const MWI: &str = "Messages-Waiting: yes\r\nMessage-Account: sip:a@b\r\nVoice-Message: 2/8 (0/2)\r\n\r\nTo: <sip:b>\r\nFrom: x\r\n";

/// Everything that reads a parsed message.
fn consume(r: &Request, resp: Option<&Response>) {
    bb(sip_parse::serialize_request(r));
    bb(sip_dialog::DialogId::from_request(r));
    bb(sip_auth::extract_auth_username(r.headers()));
    bb(sip_auth::extract_auth_nonce(r.headers()));
    bb(sip_dialog::prack_validator::extract_cseq_number(r.headers()));
    bb(sip_dialog::prack_validator::extract_cseq_method(r.headers()));
    bb(parse_privacy_header(r.headers()));
    let mut h = r.headers().clone();
    bb(decrement_max_forwards(&mut h).is_ok());
    if let Some(p) = resp {
        let u = SipUri::parse("sip:l@l").unwrap();
        let v = SipUri::parse("sip:r@r").unwrap();
        if let Some(mut d) = sip_dialog::Dialog::new_uac(r, p, u.clone(), v.clone()) {
            bb(d.update_from_response(p));
            bb(d.update_from_request(r).is_ok());
        }
        bb(sip_dialog::Dialog::new_uas(r, p, u, v));
    }
}

macro_rules! p {
    ($n:expr, |$v:ident| $e:expr, $t:expr, $c:expr) => {
        P { name: $n, f: |$v| { bb($e); }, toks: $t, corpus: $c }
    };
}

const NA: &[&str] = &["\"", "\\", "<", ">", ";", "=", ",", " ", "sip:h", "é", "tag=1", "?"];
const HP: &[&str] = &["\"", "\\", ";", "=", ",", " ", "a", "1", "é", "/", "."];
const URI: &[&str] = &["sip:", "tel:", "+1", "@", ":", ";", "?", "=", "&", "[", "]", "%4", "%41", "é", "h"];
const XML: &[&str] = &["<presence", "<tuple", "<watcher", "</tuple>", "/>", ">", "<", "\"", "=", " id=", "&", "&#x41;", "&#", ";", "é", "<!--", "]]>", "<contact"];
const LINE: &[&str] = &["\r\n", "\n", ":", " ", ";", "=", "a", "é", "Content-Type", "1/2", "(", ")", "<", ">", "From"];

fn parsers() -> Vec<P> {
    vec![
        p!("request", |v| if let Some(r) = sip_parse::parse_request(&Bytes::from(raw(v))) { consume(&r, None) }, &["INVITE sip:h SIP/2.0", "\r\n", "\n", "Via", ":", " ", "CSeq: 1 INVITE", "Content-Length:", "9", "-1", ";branch=", "é", "\u{f8ff}", "\0"], &[REQ]),
        p!("request strict", |v| sip_parse::parse_request_strict(&Bytes::from(raw(v))), &["INVITE sip:h SIP/2.0", "\r\n", ":", "a", " ", "Content-Length: 3", "é", "\u{f880}"], &[REQ]),
        p!("response", |v| if let Some(r) = sip_parse::parse_response(&Bytes::from(raw(v))) { bb(sip_parse::serialize_response(&r)); consume(&sip_parse::parse_request(&b(REQ)).unwrap(), Some(&r)) }, &["SIP/2.0 200 OK", "SIP/2.0", "\r\n", ":", "a", " ", "Content-Length: 3", "é", "\u{f880}", "9"], &[RESP]),
        p!("response strict", |v| sip_parse::parse_response_strict(&Bytes::from(raw(v))), &["SIP/2.0 200 OK", "\r\n", ":", "a", " ", "Content-Length: 3", "é", "\u{f880}"], &[RESP]),
        p!("dialog messages", |v| if let (Some(q), Some(r)) = (sip_parse::parse_request(&Bytes::from(raw(&format!("INVITE sip:h SIP/2.0\r\nCSeq: 1 INVITE\r\nCall-ID: x\r\nVia: SIP/2.0/UDP h\r\nFrom: {v}\r\nTo: {v}\r\nContact: {v}\r\nSession-Expires: {v}\r\nRecord-Route: {v}\r\n\r\n")))), sip_parse::parse_response(&Bytes::from(raw(&format!("SIP/2.0 200 OK\r\nCSeq: 1 INVITE\r\nCall-ID: x\r\nVia: SIP/2.0/UDP h\r\nFrom: {v}\r\nTo: {v}\r\nContact: {v}\r\nSession-Expires: {v}\r\nRecord-Route: {v}\r\nRSeq: {v}\r\nEvent: {v}\r\n\r\n"))))) { consume(&q, Some(&r)) }, NA, &["\"a\" <sip:b@h;lr>;tag=x", "90;refresher=uac"]),
        p!("extract_tag", |v| sip_dialog::extract_tag(&s(v)), &["t", "ta", "tag=", "é", "€", ";", "\"", "<", ">", " ", "😀"], &["<sip:a>;tag=1"]),
        p!("subscription", |v| if let Some(q) = sip_parse::parse_request(&Bytes::from(raw(&format!("SUBSCRIBE sip:h SIP/2.0\r\nCSeq: 1 SUBSCRIBE\r\nCall-ID: x\r\nVia: SIP/2.0/UDP h\r\nFrom: <sip:a>;tag=1\r\nTo: <sip:a>;tag=2\r\nEvent: {v}\r\n\r\n")))) { bb(sip_dialog::SubscriptionId::from_request(&q)); }, &["a", "é", "€", "😀", ";", "id=", "i", " ", "\""], &["presence;id=5"]),
        p!("PRACK RAck", |v| sip_dialog::prack_validator::RAck::parse(v).is_ok(), &["1", " ", "9999999999", "INVITE", "é", "\t", "-"], &["1 2 INVITE"]),
        p!("Authentication-Info", |v| sip_auth::AuthInfo::parse(v), &["rspauth=", "\"", "\\", ",", "=", "nc=", "0000000g", "é", " ", "qop="], &["qop=auth, rspauth=\"6629fae49393a05397450978507c4ef1\", cnonce=\"0a4f113b\", nc=00000001, nextnonce=\"x\""]),
        p!("Authorization", |v| { let mut h = hs("Authorization", v); let _ = h.push("Proxy-Authorization", v); bb(sip_auth::extract_auth_username(&h)); bb(sip_auth::extract_auth_nonce(&h)); sip_parse::parse_authorization_header(&s(v)) }, &["Digest ", "username=", "\"", "\\", ",", "=", "é", " ", "nonce"], &["Digest username=\"a\", realm=\"b\", nonce=\"c\", uri=\"sip:h\", response=\"00\", nc=00000001, qop=auth"]),
        p!("Uri", |v| if let Ok(u) = Uri::parse(v) { bb(u.clone().without_uri_headers()); bb(u.to_string()); }, URI, &["sip:u:p@h.com:5060;transport=tcp;lr?a=b&c=d", "sips:[2001:db8::1]:5061", "tel:+1-201-555;phone-context=x;ext=5"]),
        p!("SipUri", |v| SipUri::parse(v).is_ok(), URI, &["sip:%41@[::1]:5"]),
        p!("TelUri", |v| if let Ok(t) = TelUri::parse(v) { bb(sip_dns::tel_uri_to_enum_domain(&t)); }, &["tel:", "+", "1", "-", "(", ";", "ext=", "phone-context=", "é", "%", "a", "*"], &["tel:+1-201;ext=5", "tel:7042;phone-context=a.com"]),
        p!("enum_to_domain", |v| sip_dns::enum_to_domain(v), &["+", "1", "-", "é", " ", "٣", "a"], &["+12015550123"]),
        p!("From", |v| sip_parse::parse_from_header(&s(v)), NA, &["\"A \\\" b\" <sip:a@h;lr>;tag=1;x=\"y\""]),
        p!("Contact", |v| if let Some(c) = sip_parse::parse_contact_header(&s(v)) { bb(c.capabilities().is_ok()); }, &["<sip:h>", ";", "=", "\"", "+sip.", "audio", "q", "#", ">=5", "<", ">", "!", "é", ","], &["<sip:a@h>;q=0.5;expires=60;+sip.instance=\"<urn:x>\";audio;schemes=\"http,sip\";priority=\"#>=5\""]),
        p!("Route", |v| bb(RouteHeader::parse(v).is_ok()), NA, &["<sip:p.com;lr>;a=b"]),
        p!("Path/Service-Route", |v| { bb(sip_parse::parse_path(&hs("Path", v)).is_ok()); sip_parse::parse_service_route(&hs("Service-Route", v)).is_ok() }, NA, &["<sip:p.com;lr>, <sip:q;lr>"]),
        p!("P-Identity", |v| { bb(sip_parse::parse_p_asserted_identity(&hs("P-Asserted-Identity", v)).is_ok()); sip_parse::parse_p_preferred_identity(&hs("P-Preferred-Identity", v)).is_ok() }, NA, &["\"A\" <sip:a@h>, <tel:+1>"]),
        p!("Referred-By", |v| ReferredByHeader::parse(v).is_ok(), NA, &["\"A\" <sip:a@h>;cid=\"1@h\";x=y"]),
        p!("History-Info", |v| { bb(sip_parse::parse_history_info(&hs("History-Info", v)).is_ok()); sip_parse::parse_geolocation_header(&hs("Geolocation", v)).is_ok() }, NA, &["<sip:a@h>;index=1;rc=1, <sip:b@h>;index=1.1"]),
        p!("Via", |v| ViaHeader::parse(v).is_ok(), &["SIP/2.0/UDP", " ", "h", ":", "5", ";", "=", "branch", "[", "]", "::1", "\"", "é", "ttl=", "/", ","], &["SIP/2.0/UDP h:5060;branch=z9hG4bKx;rport;received=1.1.1.1;ttl=5", "SIP/2.0/TCP [::1]:5"]),
        p!("Event", |v| { bb(sip_parse::parse_event_header(&s(v))); bb(sip_parse::parse_subscription_state(&s(v))); bb(sip_parse::parse_geolocation_error(&s(v)).is_ok()); bb(sip_parse::parse_geolocation_routing(&s(v)).is_ok()); bb(sip_parse::parse_p_access_network_info(&s(v))); sip_parse::parse_p_visited_network_id(&s(v)) }, HP, &["presence;id=5;a=\"b;c\"", "active;expires=5;reason=x"]),
        p!("Reason", |v| { bb(sip_core::reason::parse_reason_from_string(v).is_ok()); parse_reason_header(&hs("Reason", v)) }, HP, &["Q.850;cause=16;text=\"a \\\"b\""]),
        p!("Replaces", |v| ReplacesHeader::parse(v).is_ok(), &["a@b", ";", "to-tag=", "from-tag=", "early-only", " ", "é", "1", "="], &["a@b;to-tag=1;from-tag=2;early-only"]),
        p!("Session-Expires", |v| { bb(SessionExpires::parse(v)); bb(MinSessionExpires::parse(v)); bb(RSeqHeader::parse(v).is_ok()); bb(RAckHeader::parse(v).is_ok()); bb(RefresherRole::parse(v)); }, &["90", "86400", "4294967296", "-", "+", ";", "refresher=", "uac", " ", "é", "INVITE", "\t"], &["1800;refresher=uas", "5 6 INVITE"]),
        p!("Security", |v| { bb(parse_security_client(v).is_ok()); bb(parse_security_server(v).map(|s| s.sorted_by_preference().len()).is_ok()); parse_security_verify(v).is_ok() }, HP, &["digest;d-alg=MD5;q=0.5, tls;q=1"]),
        p!("Resource-Priority", |v| ResourcePriorityHeader::parse(v).is_ok(), &[".", ",", " ", "a", "é", "*"], &["dsn.flash, wps.0"]),
        p!("Privacy", |v| { bb(PrivacyHeader::parse(v).is_ok()); parse_privacy_header(&hs("Privacy", v)) }, &["id", ";", ",", " ", "é", "none", "critical"], &["id;user;critical"]),
        p!("tokens", |v| { bb(TokenList::parse(v).is_ok()); bb(sip_parse::parse_allow_header(&s(v))); bb(ReferSubHeader::parse(v)); bb(RequestDisposition::parse(v)); bb(PriorityValue::parse(v).is_ok()); bb(SubjectHeader::parse(v).is_ok()); bb(SipETagHeader::parse(v).is_ok()); bb(SipIfMatchHeader::parse(v).is_ok()); bb(SipVersion::parse(v).is_ok()); bb(Method::from_token(v).is_ok()); bb(DateHeader::new(v).map(|d| d.to_string()).is_ok()); sip_parse::parse_date_header(&s(v)) }, &["a", ",", " ", "é", "SIP/", "2.0", "true", "proxy", "Sat, ", "13 Nov 2010 23:29:00 GMT", "99", ":", "\t"], &["INVITE, ACK", "Sat, 13 Nov 2010 23:29:00 GMT", "queue, fork", "SIP/2.0"]),
        p!("MimeType", |v| v.parse::<MimeType>().map(|m| m.to_string()).is_ok(), HP, &["multipart/mixed;boundary=\"a b\";x=y"]),
        p!("feature parameters", |v| { bb(FeatureTag::from_param_name(v)); for t in ["audio", "priority", "schemes", "description", "methods", "actor"] { if let Some(t) = FeatureTag::from_param_name(t) { bb(FeatureValue::from_param_value(t, Some(v)).is_ok()); } } }, &["\"", "#", ">=", "<=", ":", "5", ".", "-", "!", ",", "<", ">", "é", "a", "nan"], &["\"#5:10\"", "\"a,!b\"", "\"<x>\""]),
        p!("core SDP", |v| if let Ok(d) = SdpSession::parse(v) { bb(d.to_string()); }, &["v=0\r\n", "o=- 1 1 IN IP4 h\r\n", "s=-\r\n", "t=0 0\r\n", "m=audio 1 RTP/AVP 0\r\n", "a=", "é", "=", "\r\n", "rtpmap:", "96 a/", "8000", "c=IN IP4 ", "x", "k"], &[SDP]),
        p!("core SDP values", |v| { bb(RtpMap::parse(v)); bb(Fmtp::parse(v)); bb(RtcpAttribute::parse(v).is_ok()); bb(MediaGroup::parse(v).is_ok()); bb(CapabilityDescription::parse(v).is_ok()); bb(CurrentStatus::parse(v).is_ok()); bb(DesiredStatus::parse(v).is_ok()); bb(ConfirmStatus::parse(v).is_ok()); bb(Direction::parse(v)); }, &["96", " ", "opus", "/", "48000", "IN", "IP4", "é", "qos", "local", "sendrecv", "mandatory", "65536", "audio", "RTP/AVP"], &["96 opus/48000/2", "53020 IN IP4 1.1.1.1", "qos mandatory local sendrecv"]),
        p!("sip-sdp", |v| if let Ok(d) = sip_sdp::SessionDescription::parse(v) { bb(d.serialize()); bb(sip_sdp::negotiate::negotiate_answer(&d, "10.0.0.1", &Default::default()).is_ok()); }, &["v=0\r\n", "o=- 1 1 IN IP4 h\r\n", "s=-\r\n", "t=0 0\r\n", "m=audio 1 RTP/AVP 0\r\n", "a=", "é", "=", "\r\n", "rtpmap:96 a/8000", "c=IN IP4 h\r\n", "x", "r=7d 1h 0"], &[SDP]),
        p!("sdp body", |v| sip_parse::parse_sdp(&Bytes::from(raw(v))), &["v=0\r\n", "\u{f8ff}", "é", " ", "\r\n", "m="], &[SDP]),
        p!("PIDF", |v| if let Ok(d) = parse_pidf(v) { bb(d.to_xml()); }, XML, &[PIDF]),
        p!("watcherinfo", |v| if let Ok(d) = parse_watcherinfo(v) { bb(d.to_xml()); }, XML, &[WINFO]),
        p!("CPIM", |v| if let Ok(d) = parse_cpim(v) { bb(d.to_string()); }, LINE, &[CPIM]),
        p!("message-summary", |v| if let Ok(d) = parse_message_summary(v) { bb(d.to_string()); }, &["Messages-Waiting:", "yes", "\r\n", "\n", "Voice-Message:", " ", "1", "/", "(", ")", "é", "4294967296", ":", "Message-Account:"], &[MWI]),
        p!("Identity header", |v| sip_identity::IdentityHeader::parse(v).is_ok(), &["eyJhbGciOiJFUzI1NiIsInBwdCI6InNoYWtlbiIsInR5cCI6InBhc3Nwb3J0IiwieDV1IjoiaHR0cHM6Ly9hL2MifQ.eyJhdHRlc3QiOiJBIiwiZGVzdCI6eyJ0biI6WyIxIl19LCJpYXQiOjEsIm9yaWciOnsidG4iOiIyIn0sIm9yaWdpZCI6IngifQ.AAAA", ";", "info=", "<", ">", "alg=ES256", "ppt=", "\"shaken\"", "\"", "é", "=", " ", ".", ","], &["eyJhbGciOiJFUzI1NiIsInBwdCI6InNoYWtlbiIsInR5cCI6InBhc3Nwb3J0IiwieDV1IjoiaHR0cHM6Ly9hL2MifQ.eyJhdHRlc3QiOiJBIiwiZGVzdCI6eyJ0biI6WyIxIl19LCJpYXQiOjEsIm9yaWciOnsidG4iOiIyIn0sIm9yaWdpZCI6IngifQ.AAAA;info=<https://a/c.pem>;alg=ES256;ppt=\"shaken\""]),
        p!("PASSporT", |v| if let Ok(p) = sip_identity::Passport::decode(v) { bb(p.verify_signature(&[4; 65]).is_ok()); bb(p.verify_signature(v.as_bytes()).is_ok()); }, &["eyJhbGciOiJFUzI1NiIsInBwdCI6InNoYWtlbiIsInR5cCI6InBhc3Nwb3J0IiwieDV1IjoiaHR0cHM6Ly9hL2MifQ", "eyJhdHRlc3QiOiJBIiwiZGVzdCI6eyJ0biI6WyIxIl19LCJpYXQiOjEsIm9yaWciOnsidG4iOiIyIn0sIm9yaWdpZCI6IngifQ", ".", "e30", "AA", "=", "é", "!", "W10", "bnVsbA"], &["eyJhbGciOiJFUzI1NiIsInBwdCI6InNoYWtlbiIsInR5cCI6InBhc3Nwb3J0IiwieDV1IjoiaHR0cHM6Ly9hL2MifQ.eyJhdHRlc3QiOiJBIiwiZGVzdCI6eyJ0biI6WyIxIl19LCJpYXQiOjEsIm9yaWciOnsidG4iOiIyIn0sIm9yaWdpZCI6IngifQ.AAAA"]),
        p!("DHCP options", |v| { let r = raw(v); bb(sip_dns::parse_dhcp_option_66(&r).is_ok()); bb(sip_dns::parse_dhcp_option_150(&r).is_ok()); sip_dns::parse_dhcp_option_120(&r).is_ok() }, &["\0", "\u{1}", "\u{2}", "\u{3}", "\u{4}", "a", ".", "é", "\u{f8ff}", "\u{f8c0}", "\u{7}example"], &["\0\u{3}sip\u{7}example\u{3}com\0", "\u{1}\u{f87f}\0\0\u{1}", "tftp.example.com"]),
        p!("DNS target", |v| { bb(sip_dns::DnsTarget::new(v, 5060, sip_dns::Transport::Udp).is_ok()); }, &["a", ".", "-", "é", " ", "1", ":", "[", "]", "\0"], &["sip.example.com"]),
    ]
}

fn at(f: F, run: &Run, name: &str, v: &str) {
    run.step(1);
    if let Err(e) = common::quiet(|| f(v)) {
        let shown: String = v.chars().take(300).collect();
        run.violation(format!("{name} panics {shown:?}"), e);
    }
}

/// Every text obtained from `base` by one edit.
fn edits(base: &str, alpha: &[&str]) -> Vec<String> {
    let cut: Vec<usize> = base.char_indices().map(|(i, _)| i).chain([base.len()]).collect();
    let mut out = vec![base.to_string()];
    for (n, &i) in cut.iter().enumerate() {
        let (l, r) = base.split_at(i);
        out.push(l.to_string());
        out.push(r.to_string());
        let next = cut.get(n + 1).map(|&j| &base[j..]);
        if let Some(r2) = next {
            out.push(format!("{l}{r2}"));
        }
        for a in alpha {
            out.push(format!("{l}{a}{r}"));
            if let Some(r2) = next {
                out.push(format!("{l}{a}{r2}"));
            }
        }
    }
    // remove or double any line / any span between separators
    let sep: Vec<usize> = base.char_indices().filter(|(_, c)| "\n;,<>=\" &".contains(*c)).map(|(i, c)| i + c.len_utf8()).collect();
    for (a, &i) in sep.iter().enumerate() {
        for &j in &sep[a + 1..(a + 12).min(sep.len())] {
            out.push(format!("{}{}", &base[..i], &base[j..]));
            out.push(format!("{}{}", &base[..j], &base[i..]));
        }
    }
    out
}

fn p01(run: &Run) {
    let all = parsers();
    for p in &all {
        // 1. every string of up to n tokens, as large an n as the budget allows
        let budget = run.pick(3.0e6f64, 6.0e7);
        let n = (1..=9).rev().find(|n| (p.toks.len() as f64).powi(*n) <= budget).unwrap_or(1) as usize;
        let n = if p.name == "dialog messages" || p.name == "request" || p.name == "response" || p.name.contains("SDP") || p.name == "sip-sdp" || p.name == "PIDF" { n.min(run.pick(5, 6)) } else { n };
        token_strings(run, p.toks, n, |v| at(p.f, run, p.name, v));
        if run.stopped() {
            return;
        }
        // 2. all single edits, and all pairs of edits on short texts
        let alpha: Vec<&str> = p.toks.iter().copied().chain(["\r", "\n", "\0", "\u{7f}", "€", "😀", "\"", "<", "\u{2028}", "9"]).collect();
        for c in p.corpus {
            let one = edits(c, &alpha);
            run.state(&(p.name, c));
            par_for(run, one.len(), |i| {
                run.state(&(p.name, &one[i]));
                at(p.f, run, p.name, &one[i]);
                if c.len() <= run.pick(40, 70) {
                    for w in edits(&one[i], &alpha[..alpha.len().min(run.pick(8, 24))]) {
                        at(p.f, run, p.name, &w);
                    }
                }
            });
        }
        // 3. long repetitions of one or two tokens
        let t = p.toks;
        par_for(run, t.len() * t.len(), |i| {
            let (x, y) = (t[i / t.len()], t[i % t.len()]);
            for n in [64usize, 300, 1100, 9000] {
                at(p.f, run, p.name, &format!("{x}{}", y.repeat(n)));
                at(p.f, run, p.name, &format!("{}{}", x.repeat(n), y.repeat(n)));
                at(p.f, run, p.name, &format!("{x}{y}").repeat(n));
            }
        });
        if run.stopped() {
            return;
        }
    }
    run.note("parsers", all.len());
    limits(run);
}

struct L {
    name: &'static str,
    limit: usize,
    /// text with n units, accepted?
    f: fn(usize) -> bool,
}
fn req(h: &str) -> bool {
    sip_parse::parse_request(&b(&format!("OPTIONS sip:h SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKx\r\nCSeq: 1 OPTIONS\r\n{h}\r\n"))).is_some()
}
fn x(n: usize) -> String {
    "a".repeat(n)
}
fn nums(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect::<Vec<_>>().concat()
}
fn lim() -> Vec<L> {
    macro_rules! l {
        ($n:expr, $m:expr, |$v:ident| $e:expr) => {
            L { name: $n, limit: $m, f: |$v| $e }
        };
    }
    fn sdp(h: &str, m: &str) -> String {
        format!("v=0\r\no=- 1 1 IN IP4 h\r\ns=-\r\nc=IN IP4 h\r\n{h}t=0 0\r\n{m}")
    }
    fn ss(t: &str) -> bool {
        sip_sdp::SessionDescription::parse(t).is_ok()
    }
    fn cs(t: &str) -> bool {
        SdpSession::parse(t).is_ok()
    }
    vec![
        l!("headers per message", 200, |n| n < 2 || req(&nums(n - 2, |i| format!("X-{i}: a\r\n")))),
        l!("header name length", 128, |n| n == 0 || req(&format!("{}: a\r\n", x(n)))),
        l!("header value length", 8192, |n| req(&format!("X: {}\r\n", x(n)))),
        l!("Header::new name length", 128, |n| n == 0 || Header::new(x(n), "a").is_ok()),
        l!("Header::new value length", 8192, |n| Header::new("a", x(n)).is_ok()),
        l!("datagram size", 65536, |n| {
            let base = "OPTIONS sip:h SIP/2.0\r\nCSeq: 1 OPTIONS\r\n\r\n";
            n < base.len() || sip_parse::parse_request(&b(&format!("{base}{}", x(n - base.len())))).is_some()
        }),
        l!("response datagram size", 65536, |n| {
            let base = "SIP/2.0 200 OK\r\nCSeq: 1 OPTIONS\r\n\r\n";
            n < base.len() || sip_parse::parse_response(&b(&format!("{base}{}", x(n - base.len())))).is_some()
        }),
        l!("explicit size limit", 500, |n| {
            let base = "OPTIONS sip:h SIP/2.0\r\nCSeq: 1 OPTIONS\r\n\r\n";
            n < base.len() || sip_parse::parse_request_with_limit(&b(&format!("{base}{}", x(n - base.len()))), 500).is_some()
        }),
        l!("explicit strict size limit", 500, |n| {
            let base = "OPTIONS sip:h SIP/2.0\r\nCSeq: 1 OPTIONS\r\nContent-Length: \r\n\r\n".len() + 3;
            n < base + 100 || sip_parse::parse_request_with_limit_strict(&b(&format!("OPTIONS sip:h SIP/2.0\r\nCSeq: 1 OPTIONS\r\nContent-Length: {}\r\n\r\n{}", n - base, x(n - base))), 500).is_some()
        }),
        l!("method length", 32, |n| n == 0 || Method::from_token(&x(n)).is_ok()),
        l!("reason phrase length", 256, |n| sip_parse::parse_response(&b(&format!("SIP/2.0 200 {}\r\nCSeq: 1 OPTIONS\r\n\r\n", x(n)))).is_some()),
        l!("CSeq number", 2147483647, |n| n == 0 || sip_parse::parse_request(&b(&format!("OPTIONS sip:h SIP/2.0\r\nCSeq: {n} OPTIONS\r\n\r\n"))).is_some()),
        l!("branch length", 256, |n| n < 8 || is_valid_branch(&format!("z9hG4bK{}", x(n - 7)))),
        l!("URI length", 2048, |n| n < 30 || Uri::parse(&format!("sip:h?{}", { let mut s = String::new(); let mut left = n - 6; while left > 300 { s.push_str(&format!("{}={}&", format!("k{:03}", left % 997), x(194))); left -= 200; } s.push_str(&format!("z={}", x(left - 2))); s })).is_ok()),
        l!("absolute URI length", 2048, |n| n < 6 || Uri::parse(&format!("http:{}", x(n - 5))).is_ok()),
        l!("URI user length", 256, |n| n == 0 || SipUri::parse(&format!("sip:{}@h", x(n))).is_ok()),
        l!("URI host length", 256, |n| n == 0 || SipUri::parse(&format!("sip:{}", x(n))).is_ok()),
        l!("URI parameters", 50, |n| SipUri::parse(&format!("sip:h{}", nums(n, |i| format!(";p{i}")))).is_ok()),
        l!("URI headers", 50, |n| SipUri::parse(&format!("sip:h?z=1{}", nums(n.saturating_sub(1), |i| format!("&p{i}=1")))).is_ok()),
        l!("URI parameter name", 64, |n| n == 0 || SipUri::parse(&format!("sip:h;{}=1", x(n))).is_ok()),
        l!("URI parameter value", 256, |n| SipUri::parse(&format!("sip:h;a={}", x(n))).is_ok()),
        l!("URI header name", 64, |n| n == 0 || SipUri::parse(&format!("sip:h?{}=1", x(n))).is_ok()),
        l!("URI header value", 512, |n| SipUri::parse(&format!("sip:h?a={}", x(n))).is_ok()),
        l!("tel number length", 64, |n| n < 3 || TelUri::parse(&format!("tel:+{}", "1".repeat(n - 1))).is_ok()),
        l!("tel parameters", 20, |n| TelUri::parse(&format!("tel:+1{}", nums(n, |i| format!(";p{i}=1")))).is_ok()),
        l!("Via parameters", 20, |n| ViaHeader::parse(&format!("SIP/2.0/UDP h{}", nums(n, |i| format!(";p{i}")))).is_ok()),
        l!("Via sent-by length", 256, |n| n == 0 || ViaHeader::parse(&format!("SIP/2.0/UDP {}", x(n))).is_ok()),
        l!("Via parameter value", 256, |n| ViaHeader::parse(&format!("SIP/2.0/UDP h;a={}", x(n))).is_ok()),
        l!("Via parameter name", 64, |n| n == 0 || ViaHeader::parse(&format!("SIP/2.0/UDP h;{}=1", x(n))).is_ok()),
        l!("name-addr parameters", 64, |n| sip_parse::parse_from_header(&s(&format!("<sip:h>{}", nums(n, |i| format!(";p{i}"))))).is_some()),
        l!("name-addr display length", 256, |n| sip_parse::parse_from_header(&s(&format!("\"{}\" <sip:h>", x(n)))).is_some()),
        l!("name-addr parameter value", 256, |n| sip_parse::parse_from_header(&s(&format!("<sip:h>;a={}", x(n)))).is_some()),
        l!("name-addr parameter name", 64, |n| n == 0 || sip_parse::parse_from_header(&s(&format!("<sip:h>;{}=1", x(n)))).is_some()),
        l!("Path entries", 50, |n| n == 0 || sip_parse::parse_path(&hs("Path", &vec!["<sip:h>"; n].join(","))).is_ok()),
        l!("Service-Route entries", 50, |n| n == 0 || sip_parse::parse_service_route(&hs("Service-Route", &vec!["<sip:h>"; n].join(","))).is_ok()),
        l!("History-Info entries", 50, |n| n == 0 || sip_parse::parse_history_info(&hs("History-Info", &vec!["<sip:h>;index=1"; n].join(","))).is_ok()),
        l!("P-Asserted-Identity entries", 10, |n| n == 0 || PAssertedIdentityHeader::new((0..n).map(|_| PIdentity::from_uri(Uri::parse("sip:h").unwrap())).collect()).is_ok()),
        l!("Reason input", 1024, |n| n < 20 || { let mut t = String::from("SIP"); let mut left = n - 3; let mut i = 0; while left > 0 { let w = left.min(200); let w = if left - w > 0 && left - w < 8 { w - 8 } else { w }; t.push_str(&format!(";p{i}={}", x(w - 4 ))); left -= w; i += 1; } sip_core::reason::parse_reason_from_string(&t).is_ok() }),
        l!("Reason parameters", 20, |n| sip_core::reason::parse_reason_from_string(&format!("SIP{}", nums(n, |i| format!(";p{i}=1")))).is_ok()),
        l!("Replaces Call-ID length", 256, |n| n == 0 || ReplacesHeader::parse(&format!("{};to-tag=1;from-tag=2", x(n))).is_ok()),
        l!("Replaces tag length", 128, |n| n == 0 || ReplacesHeader::parse(&format!("a;to-tag={};from-tag=2", x(n))).is_ok()),
        l!("Security entries", 10, |n| n == 0 || parse_security_client(&vec!["tls"; n].join(",")).is_ok()),
        l!("Security parameters", 20, |n| parse_security_client(&format!("tls{}", nums(n, |i| format!(";p{i}=1")))).is_ok()),
        l!("Resource-Priority values", 10, |n| ResourcePriorityHeader::parse(&vec!["a.b"; n].join(",")).is_ok()),
        l!("tokens per list", 50, |n| n == 0 || TokenList::parse(&vec!["a"; n].join(",")).is_ok()),
        l!("token length", 64, |n| n == 0 || TokenList::parse(&x(n)).is_ok()),
        l!("Event package length", 64, |n| n == 0 || sip_parse::parse_event_header(&s(&x(n))).is_some()),
        l!("Event id length", 256, |n| n == 0 || sip_parse::parse_event_header(&s(&format!("a;id={}", x(n)))).is_some()),
        l!("Event parameters", 20, |n| sip_parse::parse_event_header(&s(&format!("a{}", nums(n, |i| format!(";p{i}=1"))))).is_some()),
        l!("Subject length", 256, |n| n == 0 || SubjectHeader::parse(&x(n)).is_ok()),
        l!("entity-tag length", 128, |n| n == 0 || SipETagHeader::parse(&x(n)).is_ok()),
        l!("MIME type length", 64, |n| n == 0 || format!("{}/b", x(n)).parse::<MimeType>().is_ok()),
        l!("MIME subtype length", 64, |n| n == 0 || format!("a/{}", x(n)).parse::<MimeType>().is_ok()),
        l!("MIME parameters", 20, |n| format!("a/b{}", nums(n, |i| format!(";p{i}=1"))).parse::<MimeType>().is_ok()),
        l!("Authorization parameters", 30, |n| n == 0 || sip_parse::parse_authorization_header(&s(&format!("Digest {}", (0..n).map(|i| format!("p{i}=1")).collect::<Vec<_>>().join(",")))).is_some()),
        l!("Authorization parameter value", 256, |n| sip_parse::parse_authorization_header(&s(&format!("Digest a=\"{}\"", x(n)))).is_some()),
        l!("Session-Expires", 86400, |n| n < 90 || SessionExpires::parse(&n.to_string()).is_some()),
        l!("Min-SE", 7200, |n| n < 90 || MinSessionExpires::parse(&n.to_string()).is_some()),
        l!("RSeq", 2147483647, |n| n == 0 || RSeqHeader::parse(&n.to_string()).is_ok()),
        l!("core SDP media", 50, |n| cs(&sdp("", &"m=audio 1 RTP/AVP 0\r\n".repeat(n)))),
        l!("core SDP session attributes", 100, |n| cs(&sdp("", &nums(n, |i| format!("a=x{i}\r\n"))))),
        l!("core SDP media attributes", 100, |n| cs(&sdp("", &format!("m=audio 1 RTP/AVP 0\r\n{}", nums(n, |i| format!("a=x{i}\r\n")))))),
        l!("core SDP formats", 128, |n| n == 0 || cs(&sdp("", &format!("m=audio 1 RTP/AVP{}\r\n", " 0".repeat(n))))),
        l!("core SDP session name", 1024, |n| n == 0 || cs(&format!("v=0\r\no=- 1 1 IN IP4 h\r\ns={}\r\nt=0 0\r\n", x(n)))),
        l!("core SDP username", 255, |n| n == 0 || cs(&format!("v=0\r\no={} 1 1 IN IP4 h\r\ns=-\r\nt=0 0\r\n", x(n)))),
        l!("core SDP attribute value", 4096, |n| n == 0 || cs(&sdp("", &format!("a=x:{}\r\n", x(n))))),
        l!("core SDP attribute name", 128, |n| n == 0 || cs(&sdp("", &format!("a={}:b\r\n", x(n))))),
        l!("sip-sdp session attributes", 500, |n| ss(&sdp("", &nums(n, |i| format!("a=x{i}\r\n"))))),
        l!("sip-sdp media attributes", 500, |n| ss(&sdp("", &format!("m=audio 1 RTP/AVP 0\r\n{}", nums(n, |i| format!("a=x{i}\r\n")))))),
        l!("sip-sdp line length", 4096, |n| n < 3 || ss(&sdp("", &format!("a={}\r\n", x(n - 2))))),
        l!("sip-sdp lines", 2048, |n| n < 100 || ss(&sdp("", &format!("{}{}", "m=audio 1 RTP/AVP 0\r\n".repeat(8), { let mut s = String::new(); for k in 0..n - 5 - 8 { if k % 400 == 0 { s.push_str("m=audio 1 RTP/AVP 0\r\n") } else { s.push_str("a=x\r\n") } } s })))),
        l!("sip-sdp bytes", 131072, |n| n < 100 || { let mut t = sdp("", "m=audio 1 RTP/AVP 0\r\n"); while t.len() + 1100 < n { t.push_str(&format!("a={}\r\n", x(996))) } let left = n - t.len(); t.push_str(&format!("a={}\r\n", x(left.saturating_sub(4)))); t.len() != n || ss(&t) }),
        l!("PIDF tuples", 50, |n| parse_pidf(&format!("<presence entity=\"a:b\">{}</presence>", nums(n, |i| format!("<tuple id=\"t{i}\"><status><basic>open</basic></status></tuple>")))).is_ok()),
        l!("PIDF notes", 20, |n| parse_pidf(&format!("<presence entity=\"a:b\">{}</presence>", "<note>x</note>".repeat(n))).is_ok()),
        l!("PIDF entity length", 512, |n| n == 0 || parse_pidf(&format!("<presence entity=\"{}\"></presence>", x(n))).is_ok()),
        l!("watcher lists", 100, |n| parse_watcherinfo(&format!("<watcherinfo xmlns=\"urn:ietf:params:xml:ns:watcherinfo\" version=\"1\" state=\"full\">{}</watcherinfo>", nums(n, |i| format!("<watcher-list resource=\"sip:a{i}@b\" package=\"presence\"></watcher-list>")))).is_ok()),
        l!("CPIM headers", 50, |n| n == 0 || parse_cpim(&format!("Content-Type: Message/CPIM\r\n\r\n{}\r\nContent-Type: text/plain\r\n\r\nb", nums(n, |i| format!("H{i}: a\r\n")))).is_ok()),
        l!("Identity header length", 8192, |n| n < 300 || { let h = "eyJhbGciOiJFUzI1NiIsInBwdCI6InNoYWtlbiIsInR5cCI6InBhc3Nwb3J0IiwieDV1IjoiaHR0cHM6Ly9hL2MifQ.eyJhdHRlc3QiOiJBIiwiZGVzdCI6eyJ0biI6WyIxIl19LCJpYXQiOjEsIm9yaWciOnsidG4iOiIyIn0sIm9yaWdpZCI6IngifQ.AAAA;info=<https://a/c>;x="; sip_identity::IdentityHeader::parse(&format!("{h}{}", x(n - h.len()))).is_ok() }),
        l!("hostname length", 253, |n| n == 0 || sip_dns::DnsTarget::new(x(n), 5060, sip_dns::Transport::Udp).is_ok()),
    ]
}
fn limits(run: &Run) {
    let mut all = lim();
    all.extend(lim2::more());
    par_for(run, all.len(), |i| {
        let l = &all[i];
        let mut sizes: Vec<usize> = if l.limit <= 520 {
            (0..=l.limit + 40).collect()
        } else {
            (1..=120).chain(l.limit - 40..=l.limit + 40).collect()
        };
        sizes.extend([l.limit * 2, l.limit.saturating_mul(10).min(l.limit + 300_000)]);
        let mut bad = false;
        for n in sizes {
            run.step(1);
            run.state(&(l.name, n));
            match common::quiet(|| (l.f)(n)) {
                Err(e) => run.violation(format!("limit {} n={n} panics", l.name), e),
                Ok(ok) if ok != (n <= l.limit) && std::mem::replace(&mut bad, true) => {}
                Ok(ok) => run.check(ok == (n <= l.limit), || format!("limit {} n={n}", l.name), || format!("limit {} but size {n} was {}", l.limit, if ok { "accepted" } else { "refused" })),
            }
        }
    });
    run.note("limits", all.len());
}

fn main() {
    common::main_with(&[("P01", p01)])
}
