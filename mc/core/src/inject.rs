//! P03: text given to constructors, builders and setters never adds a line.
//!
//! Every text over an alphabet with CR, LF, NUL and what headers are made of is given to every
//! public entry that takes text. Whatever is accepted must not hold a line break or NUL beyond those
//! the same entry produces for an innocent text, and messages are cut into lines by an independent
//! reader that must find exactly the lines asked for.
use bytes::Bytes;
use common::{product, quiet, token_strings, Run};
use sip_core::*;
use smol_str::SmolStr;
use std::collections::BTreeMap;
use std::fmt::Write;

type F = fn(&str) -> Option<String>;
fn s(v: &str) -> SmolStr {
    SmolStr::new(v)
}
fn uri() -> Uri {
    Uri::parse("sip:u@h").unwrap()
}
fn sip() -> SipUri {
    SipUri::parse("sip:u@h").unwrap()
}
fn ps<'a>(it: impl Iterator<Item = (&'a str, Option<&'a str>)>) -> String {
    let mut o = String::new();
    for (k, v) in it {
        let _ = write!(o, ";{k}={}", v.unwrap_or(""));
    }
    o
}
fn map(k: &str, v: Option<&str>) -> BTreeMap<SmolStr, Option<SmolStr>> {
    [(s(k), v.map(s))].into()
}
const SDP: &str = "v=0\r\no=a 1 1 IN IP4 192.0.2.1\r\ns=-\r\nc=IN IP4 192.0.2.1\r\nt=0 0\r\nm=audio 4000 RTP/AVP 0\r\n";
fn offer() -> SdpSession {
    SdpSession::parse(SDP).unwrap()
}
fn answer(o: AnswerOptions) -> Option<String> {
    OfferAnswerEngine::new().generate_answer(&offer(), o).ok().map(|a| a.to_string())
}
fn desc(f: impl FnOnce(sip_sdp::builder::SessionDescriptionBuilder) -> Option<sip_sdp::builder::SessionDescriptionBuilder>) -> Option<String> {
    let b = sip_sdp::SessionDescription::builder().origin("a", "1", "192.0.2.1").ok()?.session_name("-").ok()?.connection("192.0.2.1").ok()?.time(0, 0);
    Some(sip_sdp::serialize::serialize_sdp(&f(b)?.build()))
}
fn media(f: impl FnOnce(sip_sdp::MediaDescription) -> Option<sip_sdp::MediaDescription>) -> Option<String> {
    let m = f(sip_sdp::MediaDescription::audio(4000).add_format(0).ok()?)?;
    desc(|b| b.media(m).ok())
}
fn cpim(f: impl FnOnce(CpimMessage) -> Option<CpimMessage>) -> Option<String> {
    f(CpimMessage::new("text/plain", b"x".to_vec()).ok()?)?.to_string().ok()
}
fn mwi(f: impl FnOnce(MessageHeader) -> Option<MessageHeader>) -> Option<String> {
    let mut m = MessageSummary::new(true);
    m.add_message_header(f(MessageHeader::new())?).ok()?;
    Some(m.to_string())
}

/// Name, an innocent text it accepts, and what it makes of a text.
fn table() -> Vec<(&'static str, &'static str, F)> {
    vec![
        ("Header::new name", "zq", |x| Header::new(x, "v").ok().map(|h| format!("{}:{}", h.name(), h.value()))),
        ("Header::new value", "zq", |x| Header::new("X", x).ok().map(|h| format!("{}:{}", h.name(), h.value()))),
        ("Via transport", "zq", |x| ViaHeader::new(x, "h").ok().map(|h| h.to_string())),
        ("Via sent-by", "zq", |x| ViaHeader::new("UDP", x).ok().map(|h| h.to_string())),
        ("Via with_param name", "zq", |x| ViaHeader::new("UDP", "h").ok()?.with_param(x, Some("v")).ok().map(|h| h.to_string())),
        ("Via with_param value", "zq", |x| ViaHeader::new("UDP", "h").ok()?.with_param("p", Some(x)).ok().map(|h| h.to_string())),
        ("Via set_param value", "zq", |x| { let mut v = ViaHeader::new("UDP", "h").ok()?; v.set_param("branch", Some(x)).ok()?; Some(v.to_string()) }),
        ("Via add_param name", "zq", |x| { let mut v = ViaHeader::new("UDP", "h").ok()?; v.add_param(x, None::<&str>).ok()?; Some(v.to_string()) }),
        ("NameAddr display", "zq", |x| name_addr::NameAddr::new(Some(s(x)), uri(), BTreeMap::new()).ok().map(|n| RouteHeader::new(n).to_string())),
        ("NameAddr param name", "zq", |x| name_addr::NameAddr::new(None, uri(), map(x, None)).ok().map(|n| RouteHeader::new(n).to_string())),
        ("NameAddr param value", "zq", |x| name_addr::NameAddr::new(None, uri(), map("p", Some(x))).ok().map(|n| RouteHeader::new(n).to_string())),
        ("NameAddr insert_param name", "zq", |x| { let mut n = name_addr::NameAddr::from_uri(uri()); n.insert_param(s(x), Some(s("v"))).ok()?; Some(RouteHeader::new(n).to_string()) }),
        ("NameAddr insert_param value", "zq", |x| { let mut n = name_addr::NameAddr::from_uri(uri()); n.insert_param(s("p"), Some(s(x))).ok()?; Some(RouteHeader::new(n).to_string()) }),
        ("SipUri::new", "zq", |x| SipUri::new(x).ok().map(|u| u.as_str().to_string())),
        ("SipUri::with_host", "zq", |x| sip().with_host(x).ok().map(|u| u.as_str().to_string())),
        ("SipUri::with_user", "zq", |x| sip().with_user(x).ok().map(|u| u.as_str().to_string())),
        ("SipUri::with_param name", "zq", |x| sip().with_param(x, Some("v")).ok().map(|u| u.as_str().to_string())),
        ("SipUri::with_param value", "zq", |x| sip().with_param("p", Some(x)).ok().map(|u| u.as_str().to_string())),
        ("SipUri::parse", "sip:zq@h", |x| SipUri::parse(x).ok().map(|u| u.as_str().to_string())),
        ("Uri::parse", "sip:zq@h", |x| Uri::parse(x).ok().map(|u| u.as_str().to_string())),
        ("Uri::parse absolute", "http:zq", |x| Uri::parse(x).ok().map(|u| u.to_string())),
        ("TelUri::new", "+123", |x| TelUri::new(x, true).ok().map(|u| u.to_string())),
        ("TelUri::new local", "123", |x| TelUri::new(x, false).ok()?.with_phone_context("e.com").ok().map(|u| u.to_string())),
        ("TelUri phone-context", "e.com", |x| TelUri::new("123", false).ok()?.with_phone_context(x).ok().map(|u| u.to_string())),
        ("TelUri param name", "zq", |x| TelUri::new("+123", true).ok()?.with_parameter(x, Some("v")).ok().map(|u| u.to_string())),
        ("TelUri param value", "zq", |x| TelUri::new("+123", true).ok()?.with_parameter("p", Some(x)).ok().map(|u| u.to_string())),
        ("Authorization scheme", "zq", |x| AuthorizationHeader::new(x).ok().map(|h| h.to_string())),
        ("Authorization param name", "zq", |x| { let mut h = AuthorizationHeader::new("Digest").ok()?; h.add_param(x, "v").ok()?; Some(h.to_string()) }),
        ("Authorization param value", "zq", |x| { let mut h = AuthorizationHeader::new("Digest").ok()?; h.add_param("realm", x).ok()?; Some(h.to_string()) }),
        ("Authorization other value", "zq", |x| { let mut h = AuthorizationHeader::new("Digest").ok()?; h.add_param("algorithm", x).ok()?; Some(h.to_string()) }),
        ("Authorization overwrite value", "zq", |x| { let mut h = AuthorizationHeader::new("Digest").ok()?; h.add_param_overwrite("nonce", x).ok()?; Some(h.to_string()) }),
        ("Authorization from_raw", "zq", |x| AuthorizationHeader::from_raw(s("Digest"), [(s("realm"), s(x))].into()).ok().map(|h| h.to_string())),
        ("Authorization from_raw name", "zq", |x| AuthorizationHeader::from_raw(s("Digest"), [(s(x), s("v"))].into()).ok().map(|h| h.to_string())),
        ("Method", "ZQ", |x| Method::from_token(x).ok().map(|m| m.as_str().to_string())),
        ("Date", "Sat, 13 Nov 2010 23:29:00 GMT", |x| DateHeader::new(x).ok().map(|h| h.raw().to_string())),
        ("Event package", "zq", |x| EventHeader::new(x).ok().map(|h| h.package().to_string())),
        ("Event id", "zq", |x| EventHeader::new("p").ok()?.with_id(x).ok().map(|h| h.id().unwrap_or("").to_string())),
        ("Event param name", "zq", |x| EventHeader::new("p").ok()?.with_param(x, Some("v")).ok().map(|h| ps(h.params()))),
        ("Event param value", "zq", |x| EventHeader::new("p").ok()?.with_param("k", Some(x)).ok().map(|h| ps(h.params()))),
        ("Subscription-State state", "zq", |x| SubscriptionState::parse(x).ok().map(|h| h.as_str().to_string())),
        ("Subscription-State param name", "zq", |x| SubscriptionStateHeader::new(SubscriptionState::Active).with_param(x, None).ok().map(|h| ps(h.params()))),
        ("Subscription-State param value", "zq", |x| SubscriptionStateHeader::new(SubscriptionState::Active).with_param("k", Some(x)).ok().map(|h| ps(h.params()))),
        ("Geolocation param name", "zq", |x| GeolocationValue::new(uri()).with_param(x, None).ok().map(|h| ps(h.params()))),
        ("Geolocation param value", "zq", |x| GeolocationValue::new(uri()).with_param("k", Some(x)).ok().map(|h| ps(h.params()))),
        ("Geolocation-Error code", "100", |x| GeolocationErrorHeader::new().with_code(x).ok().map(|h| h.code().unwrap_or("").to_string())),
        ("Geolocation-Error description", "zq", |x| GeolocationErrorHeader::new().with_description(x).ok().map(|h| h.description().unwrap_or("").to_string())),
        ("Geolocation-Error param name", "zq", |x| GeolocationErrorHeader::new().with_param(x, None).ok().map(|h| ps(h.params()))),
        ("Geolocation-Error param value", "zq", |x| GeolocationErrorHeader::new().with_param("k", Some(x)).ok().map(|h| ps(h.params()))),
        ("Geolocation-Routing param name", "zq", |x| GeolocationRoutingHeader::new().with_param(x, None).ok().map(|h| ps(h.params()))),
        ("Geolocation-Routing param value", "zq", |x| GeolocationRoutingHeader::new().with_param("k", Some(x)).ok().map(|h| ps(h.params()))),
        ("History-Info param name", "zq", |x| HistoryInfoEntry::new(uri()).with_param(x, None).ok().map(|h| ps(h.params()))),
        ("History-Info param value", "zq", |x| HistoryInfoEntry::new(uri()).with_param("k", Some(x)).ok().map(|h| ps(h.params()))),
        ("Content-Type type", "zq", |x| MimeType::new(x, "b").ok().map(|h| h.to_string())),
        ("Content-Type subtype", "zq", |x| MimeType::new("a", x).ok().map(|h| h.to_string())),
        ("Content-Type param name", "zq", |x| MimeType::new("a", "b").ok()?.with_param(x, "v").ok().map(|h| h.to_string())),
        ("Content-Type param value", "zq", |x| MimeType::new("a", "b").ok()?.with_param("k", x).ok().map(|h| h.to_string())),
        ("Identity display name", "zq", |x| PAssertedIdentityHeader::new(vec![PIdentity::from_uri(uri()).with_display_name(x).ok()?]).ok().map(|h| h.to_string())),
        ("Identity param name", "zq", |x| PAssertedIdentityHeader::new(vec![PIdentity::from_uri(uri()).with_param(x, Some("v")).ok()?]).ok().map(|h| h.to_string())),
        ("Identity param value", "zq", |x| PPreferredIdentityHeader::new(vec![PIdentity::from_uri(uri()).with_param("k", Some(x)).ok()?]).ok().map(|h| h.to_string())),
        ("Asserted tel", "+123", |x| PAssertedIdentityHeader::single_tel(x).ok().map(|h| h.to_string())),
        ("Asserted sip and tel", "+123", |x| PAssertedIdentityHeader::sip_and_tel(sip(), x).ok().map(|h| h.to_string())),
        ("Preferred tel", "+123", |x| PPreferredIdentityHeader::single_tel(x).ok().map(|h| h.to_string())),
        ("P-Access-Network-Info type", "zq", |x| PAccessNetworkInfo::new(x).ok().map(|h| h.access_type().to_string())),
        ("P-Access-Network-Info param name", "zq", |x| PAccessNetworkInfo::new("t").ok()?.with_param(x, Some("v")).ok().map(|h| ps(h.params()))),
        ("P-Access-Network-Info param value", "zq", |x| PAccessNetworkInfo::new("t").ok()?.with_param("k", Some(x)).ok().map(|h| ps(h.params()))),
        ("P-Visited-Network-ID", "zq", |x| PVisitedNetworkIdHeader::new(vec![x]).ok().map(|h| h.values().collect::<Vec<_>>().join(","))),
        ("Priority", "zq", |x| PriorityValue::parse(x).ok().map(|h| h.as_str().to_string())),
        ("Privacy", "id", |x| PrivacyHeader::parse(x).ok().map(|h| h.to_string())),
        ("Reason protocol", "zq", |x| ReasonHeader::new(x, BTreeMap::new()).ok().map(|h| h.to_string())),
        ("Reason text", "zq", |x| ReasonHeader::sip(486, Some(x)).ok().map(|h| h.to_string())),
        ("Reason param name", "zq", |x| ReasonHeader::new("SIP", map(x, None)).ok().map(|h| h.to_string())),
        ("Reason param value", "zq", |x| ReasonHeader::new("SIP", map("k", Some(x))).ok().map(|h| h.to_string())),
        ("Referred-By uri", "sip:zq@h", |x| ReferredByHeader::new(x).ok().map(|h| h.to_string())),
        ("Referred-By name", "zq", |x| ReferredByHeader::with_name(x, "sip:u@h").ok().map(|h| h.to_string())),
        ("Referred-By cid", "zq@h", |x| ReferredByHeader::new("sip:u@h").ok()?.with_cid(x).ok().map(|h| h.to_string())),
        ("Referred-By param name", "zq", |x| ReferredByHeader::new("sip:u@h").ok()?.with_param(x, "v").ok().map(|h| h.to_string())),
        ("Referred-By param value", "zq", |x| ReferredByHeader::new("sip:u@h").ok()?.with_param("k", x).ok().map(|h| h.to_string())),
        ("Replaces call-id", "zq", |x| ReplacesHeader::new(x, "t", "f").ok().map(|h| h.to_string())),
        ("Replaces to-tag", "zq", |x| ReplacesHeader::new("c", x, "f").ok().map(|h| h.to_string())),
        ("Replaces from-tag", "zq", |x| ReplacesHeader::new("c", "t", x).ok().map(|h| h.to_string())),
        ("Resource-Priority namespace", "zq", |x| ResourcePriorityValue::new(x, "1").ok().map(|h| h.to_string())),
        ("Resource-Priority priority", "zq", |x| ResourcePriorityValue::new("n", x).ok().map(|h| h.to_string())),
        ("Security param name", "zq", |x| { let mut e = SecurityEntry::new(SecurityMechanism::Digest); e.set_param(x, Some("v")).ok()?; Some(SecurityServerHeader::single(e).to_string()) }),
        ("Security param value", "zq", |x| { let mut e = SecurityEntry::new(SecurityMechanism::Digest); e.set_param("k", Some(x)).ok()?; Some(SecurityClientHeader::single(e).to_string()) }),
        ("Security digest algorithm", "zq", |x| SecurityEntry::digest(x, Some("auth")).ok().map(|e| e.to_string())),
        ("Security digest qop", "zq", |x| SecurityEntry::digest("MD5", Some(x)).ok().map(|e| e.to_string())),
        ("Security ipsec algorithm", "zq", |x| SecurityEntry::ipsec_ike(x, "esp", "trans").ok().map(|e| e.to_string())),
        ("Security ipsec protocol", "zq", |x| SecurityEntry::ipsec_ike("a", x, "trans").ok().map(|e| e.to_string())),
        ("Security ipsec mode", "zq", |x| SecurityEntry::ipsec_ike("a", "esp", x).ok().map(|e| e.to_string())),
        ("Security mechanism", "zq", |x| SecurityMechanism::parse(x).ok().map(|m| SecurityVerifyHeader::single(SecurityEntry::new(m)).to_string())),
        ("SIP-ETag", "zq", |x| SipETagHeader::new(x).ok().map(|h| h.to_string())),
        ("SIP-If-Match", "zq", |x| SipIfMatchHeader::new(x).ok().map(|h| h.to_string())),
        ("Subject", "zq", |x| SubjectHeader::new(x).ok().map(|h| h.to_string())),
        ("TokenList from_slice", "zq", |x| TokenList::from_slice(&["a", x]).ok().map(|h| h.to_string())),
        ("TokenList add", "zq", |x| { let mut t = TokenList::from_slice(&["a"]).ok()?; t.add_token(x).ok()?; Some(t.to_string()) }),
        ("feature token", "zq", |x| FeatureValue::new_token(x).ok().and_then(|v| feature(v))),
        ("feature token list", "zq", |x| FeatureValue::new_token_list(vec![s("a"), s(x)]).ok().and_then(|v| feature(v))),
        ("feature string", "zq", |x| FeatureValue::new_string(x).ok().and_then(|v| feature(v))),
        // bodies made of lines
        ("answer address", "192.0.2.7", |x| answer(AnswerOptions::new().with_local_address(x).ok()?)),
        ("answer user", "zq", |x| answer(AnswerOptions::new().with_username(x).ok()?)),
        ("answer session id", "77", |x| answer(AnswerOptions::new().with_session_id(x).ok()?)),
        ("codec name", "zq", |x| CodecInfo::new(x, 8000, None).ok().map(|c| c.name().to_string())),
        ("codec fmtp", "zq", |x| CodecInfo::new("a", 8000, None).ok()?.with_fmtp(x).ok().map(|c| c.fmtp().unwrap_or("").to_string())),
        ("SdpSession name", "zq", |x| Some(SdpSession::new(offer().origin().clone(), x.to_string()).to_string())),
        ("Bandwidth type", "zq", |x| Some(Bandwidth::new(x, 1).to_string())),
        ("rtcp nettype", "IN", |x| Some(RtcpAttribute::with_address(1, x.into(), "IP4".into(), "192.0.2.1".into()).to_string())),
        ("rtcp addrtype", "IP4", |x| Some(RtcpAttribute::with_address(1, "IN".into(), x.into(), "192.0.2.1".into()).to_string())),
        ("rtcp address", "192.0.2.1", |x| Some(RtcpAttribute::with_address(1, "IN".into(), "IP4".into(), x.into()).to_string())),
        ("sdp origin user", "zq", |x| desc(|b| b.origin(x, "1", "192.0.2.1").ok())),
        ("sdp origin id", "77", |x| desc(|b| b.origin("a", x, "192.0.2.1").ok())),
        ("sdp origin address", "192.0.2.7", |x| desc(|b| b.origin("a", "1", x).ok())),
        ("sdp session name", "zq", |x| desc(|b| b.session_name(x).ok())),
        ("sdp session info", "zq", |x| desc(|b| b.session_info(x).ok())),
        ("sdp connection", "192.0.2.7", |x| desc(|b| b.connection(x).ok())),
        ("sdp attribute name", "zq", |x| desc(|b| b.attribute(x, Some("v")).ok())),
        ("sdp attribute value", "zq", |x| desc(|b| b.attribute("n", Some(x)).ok())),
        ("sdp property name", "zq", |x| desc(|b| b.attribute(x, None).ok())),
        ("sdp key", "zq", |x| desc(|b| b.encryption_key(x).ok())),
        ("sdp time zone", "77", |x| desc(|b| b.time_zone_adjustment(x, "1h").ok())),
        ("sdp time zone offset", "1h", |x| desc(|b| b.time_zone_adjustment("1", x).ok())),
        ("media format", "zq", |x| media(|m| m.add_format_token(x).ok())),
        ("media rtpmap name", "zq", |x| media(|m| m.add_rtpmap(0, x, 8000, None).ok())),
        ("media rtpmap params", "2", |x| media(|m| m.add_rtpmap(0, "a", 8000, Some(x)).ok())),
        ("media set_rtpmap name", "zq", |x| media(|mut m| { m.set_rtpmap(0, x, 8000, None).ok()?; Some(m) })),
        ("media set_rtpmap params", "2", |x| media(|mut m| { m.set_rtpmap(0, "a", 8000, Some(x)).ok()?; Some(m) })),
        ("media property", "zq", |x| media(|m| m.add_property(x).ok())),
        ("media attribute name", "zq", |x| media(|m| m.add_attribute(x, "v").ok())),
        ("media attribute value", "zq", |x| media(|m| m.add_attribute("n", x).ok())),
        ("media connection", "192.0.2.7", |x| media(|m| m.connection(x).ok())),
        ("media direction", "sendonly", |x| media(|m| m.with_direction(x).ok())),
        ("media fmtp", "zq", |x| media(|mut m| { m.set_fmtp(0, x); Some(m) })),
        ("media mid", "zq", |x| media(|mut m| { m.set_mid(x); Some(m) })),
        ("profile user", "zq", |x| Some(sip_sdp::serialize::serialize_sdp(&sip_sdp::profiles::MediaProfileBuilder::audio_only().build(x, "192.0.2.1", 4000, None)))),
        ("profile address", "192.0.2.7", |x| Some(sip_sdp::serialize::serialize_sdp(&sip_sdp::profiles::MediaProfileBuilder::audio_only().build("a", x, 4000, None)))),
        ("profile codec", "zq", |x| Some(sip_sdp::serialize::serialize_sdp(&sip_sdp::profiles::MediaProfileBuilder::audio_only().add_audio_codec(99, x, 8000).build("a", "192.0.2.1", 4000, None)))),
        ("profile local uri", "sip:zq@h", |x| Some(sip_sdp::serialize::serialize_sdp(&sip_sdp::profiles::create_from_profile(sip_sdp::profiles::SdpProfile::AudioOnly, x, "192.0.2.1", 4000, None)))),
        ("cpim content type", "a/zq", |x| CpimMessage::new(x, vec![]).ok()?.to_string().ok()),
        ("cpim from", "<im:zq>", |x| cpim(|m| m.with_from(x).ok())),
        ("cpim to", "<im:zq>", |x| cpim(|m| m.with_to(x).ok())),
        ("cpim cc", "<im:zq>", |x| cpim(|m| m.with_cc(x).ok())),
        ("cpim date", "2000-12-13T13:40:00Z", |x| cpim(|m| m.with_datetime(x).ok())),
        ("cpim subject", "zq", |x| cpim(|m| m.with_subject(x).ok())),
        ("cpim subject of a language", "zq", |x| cpim(|m| m.with_subject_lang(x, "fr").ok())),
        ("cpim language", "fr", |x| cpim(|m| m.with_subject_lang("x", x).ok())),
        ("cpim ns prefix", "zq", |x| cpim(|m| m.with_ns(x, "urn:x").ok())),
        ("cpim ns uri", "urn:zq", |x| cpim(|m| m.with_ns("p", x).ok())),
        ("cpim require", "zq", |x| cpim(|m| m.with_require(x).ok())),
        ("cpim content header name", "zq", |x| cpim(|m| m.with_content_header(x, "v").ok())),
        ("cpim content header value", "zq", |x| cpim(|m| m.with_content_header("n", x).ok())),
        ("cpim set_header name", "zq", |x| cpim(|mut m| { m.set_header(x, "v").ok()?; Some(m) })),
        ("cpim set_header value", "zq", |x| cpim(|mut m| { m.set_header("N", x).ok()?; Some(m) })),
        ("cpim add_header name", "zq", |x| cpim(|mut m| { m.add_header(x, "v").ok()?; Some(m) })),
        ("cpim add_header value", "zq", |x| cpim(|mut m| { m.add_header("N", x).ok()?; Some(m) })),
        ("cpim add_header_obj name", "zq", |x| cpim(|mut m| { m.add_header_obj(x, CpimHeader::new("v").ok()?).ok()?; Some(m) })),
        ("cpim header param name", "zq", |x| cpim(|mut m| { m.add_header_obj("N", CpimHeader::new("v").ok()?.with_param(x, "v").ok()?).ok()?; Some(m) })),
        ("cpim header param value", "zq", |x| cpim(|mut m| { m.add_header_obj("N", CpimHeader::new("v").ok()?.with_param("k", x).ok()?).ok()?; Some(m) })),
        ("summary account", "sip:zq@h", |x| { let mut m = MessageSummary::new(true); m.set_account(x).ok()?; Some(m.to_string()) }),
        ("summary to", "zq", |x| mwi(|m| m.with_to(x).ok())),
        ("summary from", "zq", |x| mwi(|m| m.with_from(x).ok())),
        ("summary subject", "zq", |x| mwi(|m| m.with_subject(x).ok())),
        ("summary date", "zq", |x| mwi(|m| m.with_date(x).ok())),
        ("summary priority", "zq", |x| mwi(|m| m.with_priority(x).ok())),
        ("summary message id", "zq", |x| mwi(|m| m.with_message_id(x).ok())),
        ("summary context", "zq", |x| mwi(|m| m.with_message_context(x).ok())),
        ("fragment reason", "zq", |x| SipFrag::status_only(200, s(x)).ok().map(|f| f.to_string())),
        ("fragment header name", "zq", |x| SipFrag::headers_only(Headers::new()).with_header(x, "v").ok().map(|f| f.to_string())),
        ("fragment header value", "zq", |x| SipFrag::headers_only(Headers::new()).with_header("N", x).ok().map(|f| f.to_string())),
    ]
}
fn feature(v: FeatureValue) -> Option<String> {
    v.to_param_value().ok().map(|o| o.map(|s| s.to_string()).unwrap_or_default())
}

fn count(t: &str) -> [usize; 3] {
    [b'\r', b'\n', 0].map(|c| t.bytes().filter(|b| *b == c).count())
}

pub fn p03(run: &Run) {
    let t = table();
    run.note("entries", t.len());
    let base: Vec<[usize; 3]> = t
        .iter()
        .map(|(name, innocent, f)| {
            let got = f(innocent);
            run.step(1);
            let ok = got.as_ref().is_some_and(|g| g.to_ascii_lowercase().contains(&innocent.to_ascii_lowercase()));
            run.check(ok, || format!("{name} given {innocent:?}"), || format!("gave {got:?}"));
            count(&got.unwrap_or_default())
        })
        .collect();
    let accepted = std::sync::atomic::AtomicU64::new(0);
    // one report per entry
    let failed: Vec<std::sync::atomic::AtomicBool> = t.iter().map(|_| Default::default()).collect();
    let one = |i: usize, x: &str| {
        let (name, _, f) = &t[i];
        if failed[i].load(std::sync::atomic::Ordering::Relaxed) {
            return;
        }
        run.step(1);
        run.trace();
        let Ok(Some(got)) = quiet(|| f(x)) else { return };
        accepted.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let n = count(&got);
        let fine = n == base[i] && (n == [0; 3] || lines_ok(&got));
        if !fine && failed[i].swap(true, std::sync::atomic::Ordering::Relaxed) {
            return;
        }
        run.check(
            fine,
            || format!("{name} given {x:?}"),
            || format!("it was accepted and yields {got:?}"),
        );
        let plain = !x.is_empty() && x.bytes().all(|b| b.is_ascii_lowercase() || b.is_ascii_digit());
        if plain && !got.to_ascii_lowercase().contains(x) && !failed[i].swap(true, std::sync::atomic::Ordering::Relaxed) {
            run.check(false, || format!("{name} given {x:?}"), || format!("the text was altered: {got:?}"));
        }
    };
    let toks = ["\r\n", "\r", "\n", "\0", "zq", "X: y", "v", "=", ";", "\"", "<", ">", "%0d%0a", " ", ":", "\\", "7"];
    token_strings(run, &toks, run.pick(4, 5), |x| {
        run.state(&x.to_string());
        for i in 0..t.len() {
            one(i, x);
        }
    });
    // around and inside a text the entry does accept
    let ins = ["\r\n", "\r", "\n", "\0", "\r\nX: y", "\nX: y\r\n", "\r\n ", "\r\n\r\nz", "\"\r\n", "\\\r", "\\\n", "%0d%0a", "\u{85}", "\u{2028}"];
    product(run, &[t.len(), ins.len(), ins.len()], |d| {
        let base = t[d[0]].1;
        for p in 0..=base.len() {
            one(d[0], &format!("{}{}{}", &base[..p], ins[d[1]], &base[p..]));
            for q in p..=base.len() {
                one(d[0], &format!("{}{}{}{}{}", &base[..p], ins[d[1]], &base[p..q], ins[d[2]], &base[q..]));
            }
            // quoted text is where breaks are most easily let through
            one(d[0], &format!("\"{}{}{}\"", &base[..p], ins[d[1]], &base[p..]));
        }
    });
    run.note("texts accepted", accepted.load(std::sync::atomic::Ordering::Relaxed));
    messages(run);
    run.assume("constructors documented as unchecked, struct fields written directly and message bodies are the caller's own responsibility");
    run.sample(|| "SubjectHeader::new(\"zq\\r\\nX: y\") is refused".into());
}

/// Nothing but CRLF or LF ends lines, consistently.
fn lines_ok(t: &str) -> bool {
    let [r, n, z] = count(t);
    z == 0 && (r == 0 || (r == n && t.matches("\r\n").count() == r))
}

/// What each slot of a message is set to must be all that the message on the wire holds.
fn messages(run: &Run) {
    let toks = ["\r\n", "\r", "\n", "\0", "zq", "X: y", "Via", ": ", " ", "sip:a@b", ";x=", "SIP/2.0", "INVITE", "200"];
    let slots = 11;
    token_strings(run, &toks, run.pick(4, 5), |x| {
        for slot in 0..slots {
            for body in [&b""[..], b"B: c\r\n\r\nd"] {
                run.step(1);
                let r = quiet(|| build(slot, x, body));
                let Ok(Some((wire, want))) = r else { continue };
                let key = || format!("slot {slot} set to {x:?}, body of {} bytes", body.len());
                let at = wire.windows(4).position(|w| w == b"\r\n\r\n");
                let Some(at) = at else {
                    run.check(false, key, || format!("no end of headers in {:?}", String::from_utf8_lossy(&wire)));
                    continue;
                };
                let head = &wire[..at];
                let text = String::from_utf8_lossy(head).to_string();
                let lines: Vec<&str> = text.split("\r\n").collect();
                let clean = lines.iter().all(|l| !l.bytes().any(|b| b == 0 || b == b'\r' || b == b'\n'));
                let names: Vec<&str> = lines[1..].iter().map(|l| l.split(':').next().unwrap_or("").trim()).filter(|n| !["Content-Length", "Max-Forwards"].contains(n)).collect();
                run.check(clean && names == want.1 && &wire[at + 4..] == body, key, || format!("sent as {:?}", String::from_utf8_lossy(&wire)));
                let fields: Vec<&str> = lines[0].splitn(3, ' ').collect();
                run.check(fields == want.0, key, || format!("start line {:?}, asked for {:?}", lines[0], want.0));
            }
        }
    });
}
type Want = (Vec<String>, Vec<String>);
fn build(slot: usize, x: &str, body: &[u8]) -> Option<(Bytes, Want)> {
    let mut h = Headers::new();
    h.push("To", "<sip:a@b>").ok()?;
    h.push("Other", "o").ok()?;
    let mut names = vec!["To".to_string(), "Other".to_string()];
    let (mut method, mut uri, mut reason) = (Method::Invite, Uri::parse("sip:a@b").ok()?, None);
    match slot {
        0 => { h.push(x, "v").ok()?; names.push(x.trim().to_string()) }
        1 => { h.push("N", x).ok()?; names.push("N".into()) }
        2 => { h.set_or_push(x, "v").ok()?; if !names.iter().any(|n| n.eq_ignore_ascii_case(x)) { names.push(x.trim().to_string()) } }
        3 => { h.set_or_push("Other", x).ok()?; }
        4 => { if !h.replace_first("To", x).ok()? { return None } }
        5 => { h = Headers::from_vec(vec![Header::new("A", x).ok()?, Header::new("B", "b").ok()?]).ok()?; names = vec!["A".into(), "B".into()] }
        6 => { h = vec![Header::new(x, "a").ok()?].into_iter().collect(); names = vec![x.trim().to_string()] }
        7 => { method = Method::from_token(x).ok()? }
        8 => { uri = Uri::parse(x).ok()? }
        9 => { reason = Some(x) }
        _ => { h.push_header(Header::new("N", x).ok()?).ok()?; names.push("N".into()) }
    }
    if let Some(x) = reason {
        let r = Response::new(StatusLine::new(299, x).ok()?, h, Bytes::copy_from_slice(body)).ok()?;
        return Some((sip_parse::serialize_response(&r), (vec!["SIP/2.0".into(), "299".into(), x.to_string()], names)));
    }
    let want = vec![method.as_str().to_string(), uri.as_str().to_string(), "SIP/2.0".to_string()];
    let mut line = RequestLine::new(Method::Options, Uri::parse("sip:z").ok()?);
    if slot == 7 || body.is_empty() {
        line = RequestLine::new(method, uri);
    } else {
        line.set_uri(uri);
        let r = Request::new(line, h, Bytes::copy_from_slice(body)).ok()?;
        return Some((sip_parse::serialize_request(&r), (vec!["OPTIONS".into(), want[1].clone(), want[2].clone()], names)));
    }
    let r = Request::new(line, h, Bytes::copy_from_slice(body)).ok()?;
    Some((sip_parse::serialize_request(&r), (want, names)))
}
