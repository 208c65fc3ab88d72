//! P02 message round trip, P06 header collection.
use bytes::Bytes;
use common::{product, sequences, Run};
use sip_core::{Header, Headers, Method, Request, RequestLine, Response, SipMessage, StatusLine, Uri};
use sip_parse::*;

#[derive(Debug, Clone, PartialEq)]
pub struct M {
    pub start: (String, String),
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

fn canon(n: &str) -> String {
    let t = [
        ("i", "Call-ID"), ("f", "From"), ("t", "To"), ("m", "Contact"), ("l", "Content-Length"),
        ("s", "Subject"), ("k", "Supported"), ("o", "Event"), ("e", "Content-Encoding"),
        ("c", "Content-Type"), ("v", "Via"), ("r", "Refer-To"), ("b", "Referred-By"),
        ("d", "Request-Disposition"), ("x", "Session-Expires"), ("a", "Accept-Contact"), ("u", "Allow-Events"),
    ];
    t.iter().find(|(c, _)| n.eq_ignore_ascii_case(c)).map(|(_, l)| l.to_string()).unwrap_or(n.into())
}
const STD: [&str; 14] = [
    "INVITE", "ACK", "BYE", "CANCEL", "REGISTER", "OPTIONS", "INFO", "UPDATE", "MESSAGE", "PRACK",
    "REFER", "SUBSCRIBE", "NOTIFY", "PUBLISH",
];
fn token(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || "!%'*+-.^_`|~".contains(c))
}
fn digits(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    s.parse().ok()
}

/// Independent reading of one datagram. `known_uri` says whether the request
/// target is one the enumeration knows to be valid.
fn reference(d: &[u8], request: bool, strict: bool) -> Option<M> {
    let pos = d.windows(4).position(|w| w == b"\r\n\r\n");
    let (head, body) = match pos {
        Some(p) => (&d[..p], &d[p + 4..]),
        None => (d, &d[d.len()..]),
    };
    let head = std::str::from_utf8(head).ok()?;
    let lines: Vec<&str> = head.split("\r\n").collect();
    let first = lines[0].trim();
    let start = if request {
        let f: Vec<&str> = first.split([' ', '\t']).filter(|x| !x.is_empty()).collect();
        if f.len() != 3 || !f[2].eq_ignore_ascii_case("SIP/2.0") || !token(f[0]) || f[0].len() > 32 {
            return None;
        }
        if f[1].contains(['\r', '\n', '\0']) || !VALID_URIS.contains(&f[1]) {
            return None;
        }
        (f[0].to_ascii_uppercase(), f[1].to_string())
    } else {
        let (v, rest) = first.split_once([' ', '\t'])?;
        if !v.eq_ignore_ascii_case("SIP/2.0") {
            return None;
        }
        let rest = rest.trim_start();
        let (c, reason) = rest.split_once([' ', '\t']).unwrap_or((rest, ""));
        let code = digits(c)?;
        if !(100..=699).contains(&code) || reason.trim().chars().any(|c| c.is_ascii_control()) || reason.trim().len() > 256 {
            return None;
        }
        (code.to_string(), reason.trim().to_string())
    };
    let mut headers = vec![];
    for l in &lines[1..] {
        if l.is_empty() {
            continue;
        }
        if l.starts_with([' ', '\t']) {
            return None;
        }
        let (n, v) = l.split_once(':')?;
        let (n, v) = (canon(n.trim()), v.trim());
        if !token(&n) || n.len() > 128 || v.len() > 8192 || v.contains(['\r', '\n', '\0']) {
            return None;
        }
        headers.push((n, v.to_string()));
    }
    if headers.len() > 200 {
        return None;
    }
    let all = |n: &str| -> Vec<String> {
        headers.iter().filter(|h: &&(String, String)| h.0.eq_ignore_ascii_case(n)).map(|h| h.1.clone()).collect()
    };
    for n in ["Call-ID", "CSeq", "From", "To", "Max-Forwards"] {
        if all(n).len() > 1 {
            return None;
        }
    }
    if request {
        if let Some(v) = all("Via").first() {
            if let Some(b) = v.split(',').next().unwrap_or("").split(';').find_map(|p| p.trim().split_once('=').filter(|(k, _)| k.trim().eq_ignore_ascii_case("branch")).map(|(_, x)| x.trim().to_string())) {
                let ok = b.len() > 7 && b.starts_with("z9hG4bK") && b.len() <= 256
                    && b.chars().all(|c| c.is_ascii_alphanumeric() || "-.!%*_+`'~".contains(c));
                if !ok {
                    return None;
                }
            }
        }
    }
    if let Some(c) = all("CSeq").first() {
        let f: Vec<&str> = c.split_whitespace().collect();
        if f.len() != 2 {
            return None;
        }
        let n = digits(f[0])?;
        if n == 0 || n > 0x7fff_ffff {
            return None;
        }
        if request && !f[1].eq_ignore_ascii_case(&start.0) {
            return None;
        }
    }
    let cls = all("Content-Length");
    let mut len: Option<u64> = None;
    for v in &cls {
        if !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit()) {
            let n = match v.parse::<u64>() {
                Ok(n) => n,
                Err(_) if strict => return None,
                Err(_) => continue,
            };
            if n > 64 << 20 || len.is_some_and(|l| l != n) {
                return None;
            }
            len = Some(n);
        } else if strict {
            return None;
        }
    }
    let want = match len {
        Some(n) => n as usize,
        None if strict => 0,
        None => body.len(),
    };
    if want > body.len() || (strict && want != body.len()) {
        return None;
    }
    Some(M { start, headers, body: body[..want].to_vec() })
}

fn of_req(r: &Request) -> M {
    M {
        start: (r.method().as_str().into(), r.uri().as_str().into()),
        headers: r.headers().iter().map(|h| (h.name().to_string(), h.value().to_string())).collect(),
        body: r.body().to_vec(),
    }
}
fn of_res(r: &Response) -> M {
    M {
        start: (r.code().to_string(), r.reason().into()),
        headers: r.headers().iter().map(|h| (h.name().to_string(), h.value().to_string())).collect(),
        body: r.body().to_vec(),
    }
}
/// What a message answers when asked about itself is what it holds.
fn asked_req(run: &Run, key: &dyn Fn() -> String, r: &Request) {
    let m = of_req(r);
    let scheme = m.start.1.split(':').next().unwrap_or("").to_ascii_lowercase();
    let sip = scheme == "sip" || scheme == "sips";
    let u = r.uri();
    let mut w = SipMessage::Request(r.clone());
    let wrapped = w.is_request() && !w.is_response() && w.as_request() == Some(r) && w.as_response().is_none() && w.as_response_mut().is_none()
        && w.as_request_mut().map(|x| x.clone()).as_ref() == Some(r) && w.headers() == r.headers() && w.body() == r.body() && *w.headers_mut() == *r.headers();
    let (start, h, b) = r.clone().into_parts();
    let parts = start == *r.start_line() && h == *r.headers() && b == *r.body() && start.into_parts() == (r.method().clone(), u.clone(), r.version().clone());
    let ok = wrapped && parts
        && (r.has_body(), r.body_len()) == (!m.body.is_empty(), m.body.len())
        && (u.is_sip(), u.is_tel(), u.is_absolute()) == (sip, scheme == "tel", !sip && scheme != "tel")
        && r.start_line().sip_uri().map(|x| x.as_str()) == sip.then_some(m.start.1.as_str())
        && u.as_sip().is_some_and(|x| x.is_sips()) == (scheme == "sips")
        && u.as_tel().is_some() == (scheme == "tel")
        && u.as_absolute() == (!sip && scheme != "tel").then_some(m.start.1.as_str())
        && r.method().is_standard() == METHODS.contains(&m.start.0.as_str())
        && r.method().is_extension() != r.method().is_standard()
        && r.method().is_idempotent() == ["ACK", "BYE", "CANCEL", "OPTIONS", "REGISTER"].contains(&m.start.0.as_str())
        && (r.start_line().method(), r.start_line().uri(), r.start_line().version()) == (r.method(), u, r.version());
    run.check(ok, || key(), || format!("the request answers other than it holds: {m:?}"));
}
fn asked_res(run: &Run, key: &dyn Fn() -> String, r: &Response) {
    let m = of_res(r);
    let c = m.start.0.parse::<u32>().unwrap_or(0) / 100;
    let mut w = SipMessage::Response(r.clone());
    let wrapped = w.is_response() && !w.is_request() && w.as_response() == Some(r) && w.as_request().is_none() && w.as_request_mut().is_none()
        && w.as_response_mut().map(|x| x.clone()).as_ref() == Some(r) && w.headers() == r.headers() && w.body() == r.body() && *w.headers_mut() == *r.headers();
    let (start, h, b) = r.clone().into_parts();
    let parts = start == *r.start_line() && h == *r.headers() && b == *r.body() && start.into_parts() == (r.version().clone(), r.code(), r.reason().into());
    let of = |x: [bool; 7]| x == [c == 1, c == 2, c == 3, c == 4, c == 5, c == 6, (4..=6).contains(&c)];
    let l = r.start_line();
    let ok = wrapped && parts
        && of([r.is_informational(), r.is_success(), r.is_redirection(), r.is_client_error(), r.is_server_error(), r.is_global_failure(), r.is_error()])
        && of([l.is_informational(), l.is_success(), l.is_redirection(), l.is_client_error(), l.is_server_error(), l.is_global_failure(), l.is_error()])
        && (r.has_body(), r.body_len()) == (!m.body.is_empty(), m.body.len())
        && (l.code(), l.reason(), l.version()) == (r.code(), r.reason(), r.version());
    run.check(ok, || key(), || format!("the response answers other than it holds: {m:?}"));
}
const METHODS: [&str; 14] =
    ["INVITE", "ACK", "BYE", "CANCEL", "OPTIONS", "REGISTER", "INFO", "UPDATE", "MESSAGE", "PRACK", "REFER", "SUBSCRIBE", "NOTIFY", "PUBLISH"];

fn without_cl(m: &M) -> Vec<(String, String)> {
    m.headers.iter().filter(|h| !h.0.eq_ignore_ascii_case("Content-Length") && !h.0.eq_ignore_ascii_case("l"))
        .map(|h| (h.0.to_ascii_lowercase(), h.1.trim().to_string())).collect()
}

/// The serialized form must read back, by the reference and by the library, as `m`.
fn round_trip(run: &Run, key: &dyn Fn() -> String, m: &M, ser: &Bytes, request: bool) {
    let mut want = without_cl(m);
    if request && !want.iter().any(|h| h.0 == "max-forwards") {
        want.push(("max-forwards".into(), "70".into()));
    }
    // wire text checked by the independent reader in strict mode
    let text = ser.as_ref();
    let back = if request { parse_request(ser).map(|r| of_req(&r)) } else { parse_response(ser).map(|r| of_res(&r)) };
    let back_strict = if request { parse_request_strict(ser).map(|r| of_req(&r)) } else { parse_response_strict(ser).map(|r| of_res(&r)) };
    let refm = reference(text, request, true);
    for (who, b) in [("the library", &back), ("the library in strict mode", &back_strict), ("the reference reader", &refm)] {
        let Some(b) = b else {
            run.violation(key(), format!("{who} refuses the serialized form {:?}", String::from_utf8_lossy(text)));
            continue;
        };
        if b.start != m.start || b.body != m.body || without_cl(b) != want {
            run.violation(key(), format!("{who} reads the serialized form {:?} as {b:?}, expected start {:?} headers {want:?} body {:?}",
                String::from_utf8_lossy(text), m.start, m.body));
        }
        let cl: Vec<&str> = b.headers.iter().filter(|h| h.0.eq_ignore_ascii_case("Content-Length")).map(|h| h.1.as_str()).collect();
        if cl != [m.body.len().to_string()] {
            run.violation(key(), format!("Content-Length headers {cl:?} for a body of {} bytes", m.body.len()));
        }
    }
    // serializing again changes nothing
    let again = if request { parse_request(ser).map(|r| serialize_request(&r)) } else { parse_response(ser).map(|r| serialize_response(&r)) };
    if again.as_ref() != Some(ser) {
        run.violation(key(), "serializing the re-parsed message gives different bytes");
    }
}

fn one(run: &Run, d: &[u8]) {
    run.step(1);
    let key = || format!("datagram {:?}", String::from_utf8_lossy(d));
    let b = Bytes::copy_from_slice(d);
    for request in [true, false] {
        for strict in [false, true] {
            let want = reference(d, request, strict);
            let got = match (request, strict) {
                (true, false) => parse_request(&b).map(|r| of_req(&r)),
                (true, true) => parse_request_strict(&b).map(|r| of_req(&r)),
                (false, false) => parse_response(&b).map(|r| of_res(&r)),
                (false, true) => parse_response_strict(&b).map(|r| of_res(&r)),
            };
            if got != want {
                run.violation(key(), format!("request={request} strict={strict}: parsed as {got:?}, expected {want:?}"));
                return;
            }
        }
        if request {
            if let Some(r) = parse_request(&b) {
                run.trace();
                run.state(&d);
                asked_req(run, &key, &r);
                round_trip(run, &key, &of_req(&r), &serialize_request(&r), true);
            }
        } else if let Some(r) = parse_response(&b) {
            run.trace();
            run.state(&d);
            asked_res(run, &key, &r);
            round_trip(run, &key, &of_res(&r), &serialize_response(&r), false);
        }
    }
}

const VALID_URIS: [&str; 7] = [
    "sip:bob@example.com", "sips:b@[::1]:5061;transport=tcp?a=b", "tel:+1-555", "SIP:h", "http://x/y", "sip:a%20b@h", "sip:h;lr",
];
const STARTS: [&str; 22] = [
    "INVITE sip:bob@example.com SIP/2.0", "SIP/2.0 200 OK", "SIP/2.0 180 ", "SIP/2.0 404", "BYE tel:+1-555 sip/2.0",
    "invite  SIP:h\tSIP/2.0", "FOO http://x/y SIP/2.0", "SIP/2.0 099 X", "SIP/2.0 699 a b  c", "SIP/2.0 700 X",
    "SIP/2.0 100", "sip/2.0\t200\tFine\u{e9}", "INVITE sip:bob@example.com SIP/3.0", "INVITE sip:bob@example.com", "INVITE sip:bob @h SIP/2.0",
    " ACK sip:h;lr SIP/2.0 ", "", "SIP/2.0 20x OK", "SIP/2.0 200 O\x07K", "IN(V sip:h;lr SIP/2.0", "OPTIONS sip:a@b@c SIP/2.0",
    "SIP/2.0 65936 X",
];
const LINES: [&str; 46] = [
    "Via: SIP/2.0/UDP a;branch=z9hG4bK1, SIP/2.0/TCP b;branch=0old", "Via: x;a=1 , y;branch=bad",
    "Via: SIP/2.0/UDP a;branch=z9hG4bK1", "v: SIP/2.0/TCP b:5061", "Via: x;branch=bad", "Via: x;BRANCH=bad", "Via: x;branch=z9hG4bK",
    "To: <sip:b@h>", "t: <sip:c@h>;tag=1", "From: \"a:b\" <sip:a@h>;tag=9", "f:x", "Call-ID: 1@x", "i:2",
    "CSeq: 1 INVITE", "CSeq: 2147483647 BYE", "cseq: 2147483648 INVITE", "CSeq: 0 INVITE", "CSeq: 1", "CSeq: +1 INVITE", "CSeq: 1 INVITE x",
    "CSeq: 4294967297 INVITE", "CSeq: 7 foo",
    "Max-Forwards: 69", "max-forwards: 70", "Content-Length: 0", "Content-Length: 3", "l: 3", "Content-Length: 4", "Content-Length: abc",
    "Content-Length: +3", "Content-Length: -1", "Content-Length: 67108865", "Content-Length: 18446744073709551619", "Content-Length:",
    "Subject:", "s:  a : b ;c  ", "X-Y: \u{e9}\u{1F600}", "X Y: 1", "X\u{e9}: 1", "nocolon", " folded", "\tfolded", "X: a\nInjected: b", "X: a\rb",
    "X: a\0b", ": v",
];

fn p02_parsed(run: &Run) {
    let bodies: [&[u8]; 6] = [b"", b"abc", b"abcd", b"\r\n\r\n", b"a\r\n\r\nb", b"\xff\x00\x80"];
    let seps: [&str; 4] = ["\r\n\r\n", "\r\n", "", "\n\n"];
    // start line x up to two (thorough: three) lines x body x separator
    let n = LINES.len() + 1;
    let depth = 3;
    let mut dims = vec![STARTS.len(), bodies.len(), seps.len()];
    dims.extend(std::iter::repeat(n).take(depth));
    product(run, &dims, |v| {
        if v[2] > 0 && (v[1] > 1 || v[3] + v[4] > 12) {
            return; // unusual separators with a smaller set of lines
        }
        let mut d = STARTS[v[0]].as_bytes().to_vec();
        for &l in &v[3..] {
            if l > 0 {
                d.extend_from_slice(b"\r\n");
                d.extend_from_slice(LINES[l - 1].as_bytes());
            }
        }
        d.extend_from_slice(seps[v[2]].as_bytes());
        d.extend_from_slice(bodies[v[1]]);
        one(run, &d);
    });
    // longer header lists on a plain start line
    let sub: Vec<usize> = [0, 1, 5, 7, 9, 11, 20, 22, 23, 24, 26, 32, 33, 34].to_vec();
    for start in ["INVITE sip:bob@example.com SIP/2.0", "SIP/2.0 200 OK"] {
        sequences(run, sub.len(), run.pick(5, 6), |q| {
            let mut d = start.as_bytes().to_vec();
            for &l in q {
                d.extend_from_slice(b"\r\n");
                d.extend_from_slice(LINES[sub[l]].as_bytes());
            }
            d.extend_from_slice(b"\r\n\r\nabc");
            one(run, &d);
        });
    }
}

fn p02_names(run: &Run) {
    // every name: each compact letter, and every header the library is known to rewrite
    let mut names: Vec<String> = (b'a'..=b'z').filter(|c| !b"jyn".contains(c)).map(|c| (c as char).to_string()).collect();
    names.extend(names.clone().iter().map(|s| s.to_uppercase()));
    for n in ["via", "VIA", "contact", "ROUTE", "record-ROUTE", "X-h", "call-id", "Warning", "Identity", "p-asserted-identity"] {
        names.push(n.into());
    }
    let vals = ["a", "", "a, b;c=\"d;e\"", "  x  y ", "\t", "1 INVITE", "3"];
    product(run, &[names.len(), vals.len(), 2, 2], |v| {
        let start = if v[2] == 0 { "INVITE sip:bob@example.com SIP/2.0" } else { "SIP/2.0 200 OK" };
        let sp = if v[3] == 0 { "" } else { " \t" };
        one(run, format!("{start}\r\n{}{sp}:{}\r\n\r\nabc", names[v[0]], vals[v[1]]).as_bytes());
        // compact and long form name the same header on lookup
        let long = canon(&names[v[0]]);
        let d = Bytes::from(format!("SIP/2.0 200 OK\r\n{}: {}\r\n\r\n123", names[v[0]], if long == "CSeq" { "1 INVITE" } else { "3" }));
        if let Some(r) = parse_response(&d) {
            for q in [names[v[0]].clone(), long.clone(), long.to_uppercase(), long.to_lowercase()] {
                if header(r.headers(), &q).map(|s| s.as_str()) != Some("3") {
                    run.violation(format!("lookup of {q:?} after parsing {:?}", names[v[0]]), "header of a parsed message not found under its other name");
                }
            }
        }
    });
}

fn p02_built(run: &Run) {
    let methods = ["INVITE", "ack", "REGISTER", "PUBLISH", "x-new.1"];
    let names = ["Via", "via", "Contact", "X-A", "Content-Length", "l", "Max-Forwards", "Subject"];
    let vals = ["a;branch=z9hG4bKa", " lead", "trail ", "", "7", "99"];
    let bodies: [&[u8]; 4] = [b"", b"v=0\r\n", b"\r\n\r\nGET", b"\xff\xfe"];
    product(run, &[methods.len(), VALID_URIS.len(), names.len(), vals.len(), names.len(), vals.len(), bodies.len()], |v| {
        run.step(1);
        if v[2] == 6 && v[4] == 6 {
            return;
        }
        let mut h = Headers::new();
        h.push(names[v[2]], vals[v[3]]).unwrap();
        h.push(names[v[4]], vals[v[5]]).unwrap();
        let r = Request::new(
            RequestLine::new(Method::from_token(methods[v[0]]).unwrap(), Uri::parse(VALID_URIS[v[1]]).unwrap()),
            h, Bytes::copy_from_slice(bodies[v[6]]),
        ).unwrap();
        asked_req(run, &|| format!("built request {:?}", of_req(&r)), &r);
        let mut m = of_req(&r);
        m.headers.iter_mut().for_each(|h| h.0 = canon(&h.0));
        run.trace();
        round_trip(run, &|| format!("built request {m:?}"), &m, &serialize_request(&r), true);
    });
    let reasons = ["", "OK", " OK", "OK ", "a  b", "200 OK", "SIP/2.0", "\u{e9}", " "];
    let codes = [100u16, 180, 200, 299, 300, 404, 500, 603, 699];
    product(run, &[codes.len(), reasons.len(), names.len(), vals.len(), bodies.len()], |v| {
        run.step(1);
        let mut h = Headers::new();
        h.push(names[v[2]], vals[v[3]]).unwrap();
        let Ok(sl) = StatusLine::new(codes[v[0]], reasons[v[1]]) else { return };
        let r = Response::new(sl, h, Bytes::copy_from_slice(bodies[v[4]])).unwrap();
        asked_res(run, &|| format!("built response {:?}", of_res(&r)), &r);
        let mut m = of_res(&r);
        m.start.1 = m.start.1.trim().into();
        m.headers.iter_mut().for_each(|h| h.0 = canon(&h.0));
        run.trace();
        let ser = serialize_response(&r);
        // surrounding blanks of a reason or value are not significant
        let norm = parse_response(&ser).map(|r| serialize_response(&r)).unwrap_or(ser.clone());
        round_trip(run, &|| format!("built response {m:?}"), &m, &norm, false);
        if parse_response(&ser).is_none() {
            run.violation(format!("built response {m:?}"), "the library refuses the response it serialized");
        }
    });
}

/// Every method and every status code there is.
fn p02_codes(run: &Run) {
    for (i, m) in METHODS.iter().chain(&["X-NEW", "INVITES", "ACKS", "R"]).enumerate() {
        for u in VALID_URIS {
            let body = Bytes::from_static(if i % 2 == 0 { b"" } else { b"\0" });
            let r = Request::new(RequestLine::new(Method::from_token(&m.to_ascii_lowercase()).unwrap(), Uri::parse(u).unwrap()), Headers::new(), body).unwrap();
            run.step(1);
            asked_req(run, &|| format!("{m} {u}"), &r);
            run.check(r.method().as_str() == *m, || format!("method {m}"), || format!("it is called {}", r.method()));
        }
    }
    for code in 0..=1000u16 {
        run.step(1);
        let l = StatusLine::new(code, "R");
        run.check(l.is_ok() == (100..=699).contains(&code), || format!("status {code}"), || format!("accepted: {}", l.is_ok()));
        if let Ok(l) = l {
            asked_res(run, &|| format!("status {code}"), &Response::new(l, Headers::new(), Bytes::new()).unwrap());
            one(run, format!("SIP/2.0 {code} R\r\nVia: SIP/2.0/UDP a;branch=z9hG4bK1\r\n\r\n").as_bytes());
        }
    }
}

/// Body framing: all bytes strings with all announced lengths, all positions.
fn p02_framing(run: &Run) {
    product(run, &[12, 12, 4, 2, 2], |v| {
        let (announced, have, extra, dup, req) = (v[0], v[1], v[2], v[3], v[4] == 0);
        let tail = ["", "\r\n\r\n", "INVITE sip:h;lr SIP/2.0\r\n\r\n", "\0\0"][extra];
        let body: Vec<u8> = (0..have).map(|i| b'a' + i as u8).chain(tail.bytes()).collect();
        let mut d = if req { "INVITE sip:h;lr SIP/2.0\r\n" } else { "SIP/2.0 200 OK\r\n" }.to_string();
        d += &format!("Content-Length: {announced}\r\n");
        if dup == 1 {
            d += &format!("l: {announced:03}\r\n");
        }
        d += "\r\n";
        let mut d = d.into_bytes();
        d.extend_from_slice(&body);
        one(run, &d);
    });
}

pub fn p02(run: &Run) {
    run.assume("the reference reader in mc/core/src/msg.rs states the documented acceptance rules (RFC 3261 plus the library's documented stricter and tolerant points)");
    p02_parsed(run);
    p02_names(run);
    p02_built(run);
    p02_codes(run);
    p02_framing(run);
    run.sample(|| format!("{} / {} / body", STARTS[0], LINES[0]));
}

// ---------------------------------------------------------------- P06

#[derive(Clone, Default)]
struct Model(Vec<(String, String)>);
impl Model {
    fn first(&self, n: &str) -> Option<usize> {
        self.0.iter().position(|h| h.0.eq_ignore_ascii_case(n))
    }
}
const NAMES: [&str; 4] = ["Via", "VIA", "X", "Via2"];

fn observe(run: &Run, key: &dyn Fn() -> String, h: &Headers, m: &Model) {
    let got: Vec<(String, String)> = h.iter().map(|x| (x.name().into(), x.value().into())).collect();
    let bad = |w: String| run.violation(key(), w);
    if got != m.0 || h.len() != m.0.len() || h.is_empty() != m.0.is_empty() || h.as_slice().len() != m.0.len() {
        bad(format!("contents {got:?}, expected {:?}", m.0));
        return;
    }
    for q in ["via", "Via", "vIA", "x", "via2", "vi", "Via ", ""] {
        let all: Vec<&str> = m.0.iter().filter(|x| x.0.eq_ignore_ascii_case(q)).map(|x| x.1.as_str()).collect();
        let first = all.first().copied();
        if h.get(q) != first
            || h.get_smol(q).map(|s| s.as_str()) != first
            || h.get_header(q).map(|s| s.value()) != first
            || h.get_all(q).collect::<Vec<_>>() != all
            || h.get_all_smol(q).map(|s| s.as_str()).collect::<Vec<_>>() != all
            || h.get_all_headers(q).map(|s| s.value()).collect::<Vec<_>>() != all
            || h.count(q) != all.len()
            || h.contains(q) == all.is_empty()
        {
            bad(format!("lookup of {q:?} disagrees with {all:?}"));
        }
    }
    let owned: Vec<(String, String)> = h.clone().into_iter().map(|x| (x.name().into(), x.value().into())).collect();
    let inner = h.clone().into_inner().len();
    if owned != m.0 || inner != m.0.len() {
        bad("conversion loses headers".into());
    }
}

pub fn p06(run: &Run) {
    let long = "v".repeat(8192);
    let too_long = "v".repeat(8193);
    let nm_ok = "n".repeat(128);
    let nm_bad = "n".repeat(129);
    for prefill in [0usize, 198, 199, 200] {
        let depth = if prefill == 0 { run.pick(4, 6) } else { run.pick(3, 4) };
        sequences(run, 17, depth, |q| {
            let mut h = Headers::new();
            let mut m = Model::default();
            for i in 0..prefill {
                let n = ["Via", "Z"][i % 2];
                h.push(n, i.to_string()).unwrap();
                m.0.push((n.into(), i.to_string()));
            }
            for (i, &op) in q.iter().enumerate() {
                run.step(1);
                let key = || format!("prefill {prefill} ops {:?}", &q[..=i]);
                let v = i.to_string();
                let full = m.0.len() >= 200;
                match op {
                    0..=3 => {
                        let ok = h.push(NAMES[op], &v).is_ok();
                        run.check(ok == !full, key, || "push accepted/refused wrongly".into());
                        if !full { m.0.push((NAMES[op].into(), v)); }
                    }
                    4 => {
                        let ok = h.push_header(Header::new("via", &v).unwrap()).is_ok();
                        run.check(ok == !full, key, || "push_header accepted/refused wrongly".into());
                        if !full { m.0.push(("via".into(), v)); }
                    }
                    5 | 6 => {
                        let n = ["vIa", "New"][op - 5];
                        let ok = h.set_or_push(n, &v).is_ok();
                        match m.first(n) {
                            Some(k) => { m.0[k].1 = v; run.check(ok, key, || "set refused".into()); }
                            None => {
                                run.check(ok == !full, key, || "set_or_push accepted/refused wrongly".into());
                                if !full { m.0.push((n.into(), v)); }
                            }
                        }
                    }
                    7 | 8 => {
                        let n = ["viA", "None"][op - 7];
                        let r = h.replace_first(n, &v).unwrap();
                        run.check(r == m.first(n).is_some(), key, || "replace_first result".into());
                        if let Some(k) = m.first(n) { m.0[k].1 = v; }
                    }
                    9 | 10 => {
                        let n = ["vIA", "Via2"][op - 9];
                        let before = m.0.len();
                        m.0.retain(|x| !x.0.eq_ignore_ascii_case(n));
                        run.check(h.remove(n) == before - m.0.len(), key, || "remove count".into());
                    }
                    11 => { h.retain(|x| x.value() != "0"); m.0.retain(|x| x.1 != "0"); }
                    12 => {
                        if !m.0.is_empty() {
                            let k = m.0.len() / 2;
                            let x = h.remove_at(k);
                            let y = m.0.remove(k);
                            run.check(x.name() == y.0 && x.value() == y.1, key, || "remove_at".into());
                        }
                    }
                    13 => { h.clear(); m.0.clear(); }
                    14 => { // all refused: nothing may change
                        let all_bad = h.push("", "v").is_err() && h.push("A B", "v").is_err() && h.push("A:", "v").is_err()
                            && h.push("A\r\n", "v").is_err() && h.push("A", "v\r\nB: c").is_err() && h.push("A", "v\n").is_err()
                            && h.push("A", "\r").is_err() && h.push("A", "\0").is_err() && h.push("A", &too_long).is_err()
                            && h.push(&nm_bad, "v").is_err() && h.set_or_push("Via", "v\r\n").is_err()
                            && h.set_or_push("Vi\na", "v").is_err() && h.replace_first("Via", "v\nx").is_err()
                            && h.set_or_push("Via", &too_long).is_err() && h.replace_first("Via", &too_long).is_err()
                            && h.replace_first("Via", "\0").is_err() && h.set_or_push("Via", "a\0").is_err();
                        run.check(all_bad, key, || "an invalid name or value was accepted".into());
                    }
                    15 => {
                        let ok = h.push(&nm_ok, &long).is_ok();
                        run.check(ok == !full, key, || "name and value of exactly the limit".into());
                        if !full { m.0.push((nm_ok.clone(), long.clone())); }
                    }
                    _ => {
                        h.reserve(1000); h.reserve(1);
                        let v: Vec<Header> = h.clone().into_inner();
                        let twice: Vec<Header> = v.iter().chain(v.iter()).cloned().collect();
                        let n = twice.len();
                        run.check(Headers::from_vec(v).map(|x| x == h).unwrap_or(false), key, || "from_vec".into());
                        run.check(Headers::try_from_iter(twice.clone()).is_ok() == (n <= 200), key, || "try_from_iter limit".into());
                        run.check(twice.into_iter().collect::<Headers>().len() == n.min(200), key, || "collect limit".into());
                    }
                }
                run.state(&m.0);
                observe(run, &key, &h, &m);
            }
            run.trace();
        });
    }
    run.sample(|| "push Via=0; set_or_push vIa=1; remove vIA; ...".into());
}
