//! P07 / P08: digest authentication against an independent RFC 7616 digest, and
//! every nonce history up to a depth against a reference nonce table.
use bytes::Bytes;
use common::{par_for, permutations, product, quiet, sequences, vclock, Run};
use sha2::{Digest, Sha256, Sha512};
use sip_auth::*;
use sip_core::{Headers, Method, Request, RequestLine, SipUri};
use std::time::Duration;

const ALGS: [DigestAlgorithm; 8] = [
    DigestAlgorithm::Md5, DigestAlgorithm::Md5Sess, DigestAlgorithm::Sha256, DigestAlgorithm::Sha256Sess,
    DigestAlgorithm::Sha512, DigestAlgorithm::Sha512Sess, DigestAlgorithm::Sha512_256, DigestAlgorithm::Sha512_256Sess,
];
const ALG_TOK: [&str; 8] = ["MD5", "MD5-sess", "SHA-256", "SHA-256-sess", "SHA-512", "SHA-512-sess", "SHA-512-256", "SHA-512-256-sess"];

fn h(alg: usize, data: &str, raw: Option<&[u8]>) -> String {
    let d = raw.unwrap_or(data.as_bytes());
    match alg / 2 {
        0 => format!("{:x}", md5::compute(d)),
        1 => hex(&Sha256::digest(d)),
        2 => hex(&Sha512::digest(d)),
        _ => hex(&Sha512::digest(d)[..32]),
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

#[derive(Clone)]
struct C {
    user: String,
    realm: String,
    nonce: String,
    uri: String,
    alg: usize,
    qop: &'static str,
    nc: String,
    cnonce: String,
    opaque: String,
}
/// RFC 7616 section 3.4, written from the text of the RFC.
fn digest(c: &C, pass: &str, method: &str, body: &[u8]) -> String {
    let mut a1 = h(c.alg, &format!("{}:{}:{}", c.user, c.realm, pass), None);
    if c.alg % 2 == 1 {
        a1 = h(c.alg, &format!("{a1}:{}:{}", c.nonce, c.cnonce), None);
    }
    let a2 = if c.qop == "auth-int" { format!("{method}:{}:{}", c.uri, h(c.alg, "", Some(body))) } else { format!("{method}:{}", c.uri) };
    h(c.alg, &format!("{a1}:{}:{}:{}:{}:{}", c.nonce, c.nc, c.cnonce, c.qop, h(c.alg, &a2, None)), None)
}
type Fields = Vec<(&'static str, String, bool)>;
fn fields(c: &C, response: &str) -> Fields {
    vec![
        ("username", c.user.clone(), true), ("realm", c.realm.clone(), true), ("nonce", c.nonce.clone(), true),
        ("uri", c.uri.clone(), true), ("response", response.into(), true), ("algorithm", ALG_TOK[c.alg].into(), false),
        ("qop", c.qop.into(), false), ("nc", c.nc.clone(), false), ("cnonce", c.cnonce.clone(), true), ("opaque", c.opaque.clone(), true),
    ]
}
fn show(scheme: &str, f: &Fields, sep: &str) -> String {
    let v: Vec<String> = f.iter().map(|(k, v, q)| if *q { format!("{k}=\"{v}\"") } else { format!("{k}={v}") }).collect();
    format!("{scheme} {}", v.join(sep))
}
fn parse_fields(v: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    let (mut cur, mut inq) = (String::new(), false);
    for ch in v.chars().chain([',']) {
        if ch == '"' {
            inq = !inq;
        }
        if ch == ',' && !inq {
            if let Some((k, v)) = cur.trim().split_once('=') {
                out.push((k.trim().to_ascii_lowercase(), v.trim().trim_matches('"').to_string()));
            }
            cur.clear();
        } else {
            cur.push(ch);
        }
    }
    out
}
fn get(f: &[(String, String)], k: &str) -> String {
    f.iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or_else(|| "<none>".into())
}
fn req(method: &Method, uri: &str, hdrs: &[(&str, &str)], body: &[u8]) -> Request {
    let mut h = Headers::new();
    for (n, v) in hdrs {
        h.push(*n, *v).unwrap();
    }
    Request::new(RequestLine::new(method.clone(), SipUri::parse(uri).unwrap()), h, Bytes::copy_from_slice(body)).unwrap()
}
pub fn block<T>(f: impl std::future::Future<Output = T>) -> T {
    use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
    const V: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &V), |_| {}, |_| {}, |_| {});
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &V)) };
    let mut f = std::pin::pin!(f);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return v;
        }
    }
}
type Srv = DigestAuthenticator<MemoryCredentialStore>;
fn srv(alg: usize, qop: &str, proxy: bool, realm: &str) -> Srv {
    let store = MemoryCredentialStore::with(USERS.iter().map(|(u, _)| Credentials::new(*u, "other", "elsewhere")).chain(USERS.iter().map(|(u, p)| Credentials::new(*u, *p, realm))).collect());
    DigestAuthenticator::new(realm, store)
        .with_algorithm(ALGS[alg])
        .with_qop(if qop == "auth" { Qop::Auth } else { Qop::AuthInt })
        .with_proxy_auth(proxy)
}
const USERS: [(&str, &str); 4] = [("alice", "secret"), ("Alice", "secret2"), ("b,b=c d", ""), ("J\u{e9}", "p:w\u{e9}\"")];
const QOPS: [&str; 2] = ["auth", "auth-int"];

/// Both interfaces; Err counts as refusal.
fn accepts(s: &Srv, r: &Request) -> (bool, bool) {
    let a = s.verify(r, r.headers()).unwrap_or(false);
    let b = block(s.verify_async(r, r.headers())).unwrap_or(false);
    (a, b)
}

pub fn p07(run: &Run) {
    run.assume("user names, realms and targets contain no double quote or backslash (the parser keeps escapes raw)");
    run.assume("SHA-512-256 means SHA-512 truncated to 256 bits, as the code documents; an identical retransmission with the same count is accepted");
    let methods = [Method::Register, Method::Invite, Method::from_token("FOO").unwrap()];
    let uris = ["sip:example.com", "sip:bob@example.com;transport=tcp", "sips:h:5061?a=b"];
    let bodies: [&[u8]; 3] = [b"", b"v=0\r\n", b"\xff\x00:"];
    let realms = ["example.com", "a b, c=d;\u{e9}"];
    let dims = [ALGS.len(), 2, 2, USERS.len(), methods.len(), uris.len(), bodies.len(), realms.len()];
    product(run, &dims, |v| {
        vclock::reset();
        let (alg, qop, proxy, (user, pass), method, uri, body, realm) =
            (v[0], QOPS[v[1]], v[2] == 1, USERS[v[3]], &methods[v[4]], uris[v[5]], bodies[v[6]], realms[v[7]]);
        let s = srv(alg, qop, proxy, realm);
        let (hn, other) = if proxy { ("Proxy-Authorization", "Authorization") } else { ("Authorization", "Proxy-Authorization") };
        let label = format!("{} {qop} proxy={proxy} user={user:?} realm={realm:?} {} {uri} body={body:?}", ALG_TOK[alg], method.as_str());
        run.state(&v.to_vec());
        let bad = |what: &str, got: &str| run.violation(format!("{label}: {what}"), got.to_string());

        // the challenge says exactly what the server will accept
        let plain = req(method, uri, &[("Via", "SIP/2.0/UDP p1;branch=z9hG4bK1"), ("Via", "SIP/2.0/UDP a;branch=z9hG4bK2"), ("From", "<sip:a@b>;tag=1"), ("To", "<sip:c@d>"), ("Call-ID", "x"), ("CSeq", &format!("7 {}", method.as_str()))], body);
        if s.verify(&plain, plain.headers()).unwrap_or(false) {
            bad("no credentials", "accepted");
        }
        let mut nonces = vec![];
        for stale in [false, true] {
            let r = if stale { s.challenge_stale(&plain).unwrap() } else { s.challenge(&plain).unwrap() };
            let ch: Vec<&str> = r.headers().get_all(if proxy { "Proxy-Authenticate" } else { "WWW-Authenticate" }).collect();
            let f = parse_fields(ch.first().and_then(|c| c.strip_prefix("Digest ")).unwrap_or(""));
            let ok = r.code() == if proxy { 407 } else { 401 } && ch.len() == 1 && get(&f, "realm") == realm
                && get(&f, "algorithm") == ALG_TOK[alg] && get(&f, "qop") == qop && get(&f, "opaque") == s.opaque()
                && (get(&f, "stale") == "true") == stale && !nonces.contains(&get(&f, "nonce")) && get(&f, "nonce").len() >= 16;
            run.check(ok, || format!("{label}: challenge stale={stale}"), || format!("{} {ch:?}", r.code()));
            let echoed = r.headers().get_all("Via").collect::<Vec<_>>() == plain.headers().get_all("Via").collect::<Vec<_>>()
                && r.headers().get("From") == plain.headers().get("From") && r.headers().get("Call-ID") == Some("x")
                && r.headers().get("CSeq") == plain.headers().get("CSeq") && r.headers().get("To").is_some_and(|t| t.starts_with("<sip:c@d>;tag="));
            if !stale {
                for (to, tagged) in [("\"x;tag=y\" <sip:c@d;tag=u>", false), ("<sip:c@d>;x=\";tag=1\"", false), ("<sip:c@d>;TAG=a1", true), ("sip:c@d;tag=a2;x=y", true), ("c <sip:tag=@d>", false)] {
                    let mut q = plain.clone();
                    q = req(method, uri, &q.headers().iter().map(|h| (h.name(), if h.name() == "To" { to } else { h.value() })).collect::<Vec<_>>(), body);
                    for r in [s.challenge(&q).unwrap(), s.challenge_stale(&q).unwrap()] {
                        let got: Vec<&str> = r.headers().get_all("To").collect();
                        let ok = got.len() == 1 && if tagged { got[0] == to } else { got[0].strip_prefix(to).and_then(|t| t.strip_prefix(";tag=")).is_some_and(|t| t.len() >= 4) };
                        run.check(ok, || format!("{label}: challenge of To {to}"), || format!("{got:?}"));
                    }
                }
            }
            run.check(echoed, || format!("{label}: challenge headers stale={stale}"), || format!("{:?}", r.headers()));
            nonces.push(get(&f, "nonce"));
        }
        let c = C { user: user.into(), realm: realm.into(), nonce: nonces[0].clone(), uri: uri.into(), alg, qop, nc: "00000001".into(), cnonce: "c0+/=x".into(), opaque: s.opaque().into() };
        let resp = digest(&c, pass, method.as_str(), body);
        let good = fields(&c, &resp);
        let mk = |f: &Fields| req(method, uri, &[(hn, &show("Digest", f, ", "))], body);
        let refuse = |what: String, r: &Request| {
            run.step(2);
            let got = quiet(|| accepts(&s, r));
            run.check(got == Ok((false, false)), || format!("{label}: {what}"), || format!("accepted (sync, async) = {got:?}: {:?}", r.headers()));
        };
        // every single-field change is refused, and none of them uses up the nonce
        for (i, (k, val, _)) in good.iter().enumerate() {
            let mut alts: Vec<Option<String>> = vec![None, Some(String::new()), Some(format!("{val}0")), Some(format!("0{val}"))];
            for (j, ch) in val.char_indices() {
                if v[3] == 0 || j < 3 {
                    let sub = if ch == 'a' { 'b' } else { 'a' };
                    alts.push(Some(format!("{}{sub}{}", &val[..j], &val[j + ch.len_utf8()..])));
                    alts.push(Some(format!("{}{}", &val[..j], &val[j + ch.len_utf8()..])));
                }
            }
            match *k {
                "username" => alts.extend(USERS.iter().filter(|u| u.0 != user).map(|u| Some(u.0.to_string()))),
                "nonce" => alts.push(Some(nonces[1].clone())),
                "realm" => alts.extend([Some("elsewhere".into()), Some(realm.to_uppercase())]),
                "algorithm" => alts.extend(ALG_TOK.iter().filter(|a| **a != ALG_TOK[alg]).map(|a| Some(a.to_string()))),
                "qop" => alts.push(Some(QOPS[1 - v[1]].into())),
                "nc" => alts.extend(["00000002", "1", "00000000", "ffffffff", "0000000g", "+0000001"].map(|x| Some(x.to_string()))),
                "uri" => alts.extend([Some("sip:evil@h".into()), Some(uri.to_uppercase())]),
                _ => {}
            }
            for a in alts {
                let same_token = matches!(*k, "algorithm" | "qop") && a.as_deref().is_some_and(|a| a.eq_ignore_ascii_case(val));
                if a.as_deref() == Some(val.as_str()) || same_token || (*k == "algorithm" && a.is_none()) {
                    continue; // without an algorithm the offered one applies
                }
                let mut f = good.clone();
                match &a {
                    Some(x) => f[i].1 = x.clone(),
                    None => {
                        f.remove(i);
                    }
                }
                refuse(format!("{k} changed to {a:?}"), &mk(&f));
            }
        }
        // any change of the request itself
        let text = show("Digest", &good, ", ");
        for m in ["REGISTER", "INVITE", "BYE", "FOO", "foo"] {
            let m = Method::from_token(m).unwrap();
            if m.as_str() != method.as_str() {
                refuse(format!("method {}", m.as_str()), &req(&m, uri, &[(hn, &text)], body));
            }
        }
        for u in uris.iter().filter(|u| **u != uri) {
            refuse(format!("target {u}"), &req(method, u, &[(hn, &text)], body));
        }
        if qop == "auth-int" {
            for b in [&b"x"[..], b"v=0\r\n\r\n", b""] {
                if b != body {
                    refuse(format!("body {b:?}"), &req(method, uri, &[(hn, &text)], b));
                }
            }
        }
        for (p, w) in [("", "empty"), ("Secret", "case"), ("secret ", "space"), ("other", "other realm's")] {
            if p != pass {
                let d = digest(&c, p, method.as_str(), body);
                refuse(format!("{w} password"), &mk(&fields(&c, &d)));
            }
        }
        // a digest computed over what is sent, for every combination the server did not offer
        for hashed_realm in [realm, "elsewhere"] {
            for sent_realm in [realm, "elsewhere"] {
                for p in [pass, "other"] {
                    if (hashed_realm, sent_realm, p) != (realm, realm, pass) {
                        let mut x = c.clone();
                        x.realm = hashed_realm.into();
                        let d = digest(&x, p, method.as_str(), body);
                        x.realm = sent_realm.into();
                        refuse(format!("realm {sent_realm:?}, hashed as {hashed_realm:?} with password {p:?}"), &mk(&fields(&x, &d)));
                    }
                }
            }
        }
        let mut whole: Vec<(String, C)> = vec![];
        for u in uris.iter().filter(|u| **u != uri).map(|u| u.to_string()).chain([uri.to_uppercase(), uri.replace("sip:", "SIP:"), format!("{uri} "), uri.replace("example", "Example")]) {
            if u != uri {
                whole.push((format!("digest over target {u}"), C { uri: u, ..c.clone() }));
            }
        }
        for a in (0..8).filter(|a| *a != alg) {
            whole.push((format!("digest with {}", ALG_TOK[a]), C { alg: a, ..c.clone() }));
        }
        whole.push(("digest with the other protection level".into(), C { qop: QOPS[1 - v[1]], ..c.clone() }));
        whole.push(("digest with count 0".into(), C { nc: "00000000".into(), ..c.clone() }));
        whole.push(("digest with a text count".into(), C { nc: "one".into(), ..c.clone() }));
        whole.push(("digest over an unknown nonce".into(), C { nonce: "0123456789abcdef0123456789abcdef".into(), ..c.clone() }));
        whole.push(("digest with another opaque".into(), C { opaque: "x".into(), ..c.clone() }));
        for (what, x) in whole {
            let d = digest(&x, pass, method.as_str(), body);
            refuse(what, &mk(&fields(&x, &d)));
        }
        // the older form of the digest, and a protection level that is not the one hashed
        let a1 = {
            let a = h(alg, &format!("{user}:{realm}:{pass}"), None);
            if alg % 2 == 1 { h(alg, &format!("{a}:{}:{}", c.nonce, c.cnonce), None) } else { a }
        };
        let a1_bare = {
            let a = h(alg, &format!("{user}:{realm}:{pass}"), None);
            if alg % 2 == 1 { h(alg, &format!("{a}:{}:", c.nonce), None) } else { a }
        };
        let plain2 = h(alg, &format!("{}:{uri}", method.as_str()), None);
        let int2 = h(alg, &format!("{}:{uri}:{}", method.as_str(), h(alg, "", Some(body))), None);
        for (n1, one) in [("", &a1), (" without client nonce", &a1_bare)] {
            for (n2, two) in [("", &plain2), (" with the body", &int2)] {
                let old = h(alg, &format!("{one}:{}:{two}", c.nonce), None);
                for drop in [&["qop", "nc", "cnonce"][..], &["nc", "cnonce"], &["nc"], &["cnonce"], &["qop"], &["qop", "nc"], &[]] {
                    let mut f = fields(&c, &old);
                    f.retain(|x| !drop.contains(&x.0));
                    refuse(format!("older digest{n1}{n2} without {drop:?}"), &mk(&f));
                }
                for q in QOPS {
                    let d = h(alg, &format!("{one}:{}:{}:{}:{q}:{two}", c.nonce, c.nc, c.cnonce), None);
                    for sent in QOPS {
                        if d != resp || sent != qop {
                            let f = fields(&C { qop: sent, ..c.clone() }, &d);
                            refuse(format!("digest{n1}{n2} for {q} sent as {sent}"), &mk(&f));
                        }
                    }
                }
            }
        }
        refuse("wrong header".into(), &req(method, uri, &[(other, &text)], body));
        for sc in ["Basic", "Bearer", "DigestX", ""] {
            refuse(format!("scheme {sc:?}"), &req(method, uri, &[(hn, &show(sc, &good, ", "))], body));
        }
        let foreign = srv(alg, qop, proxy, realm);
        let mut fc = c.clone();
        fc.nonce = foreign.nonce_manager().generate().value().into();
        refuse("another server's nonce".into(), &mk(&fields(&fc, &digest(&fc, pass, method.as_str(), body))));
        // the correct credentials, in every form the grammar allows
        let mut nc = 0u32;
        let mut accept = |what: &str, build: &dyn Fn(Fields) -> Request| {
            nc += 1;
            let mut c = c.clone();
            c.nc = format!("{nc:08x}");
            let r = build(fields(&c, &digest(&c, pass, method.as_str(), body)));
            run.step(2);
            let got = quiet(|| accepts(&s, &r));
            run.check(got == Ok((true, true)), || format!("{label}: {what}"), || format!("refused (sync, async) = {got:?}: {:?}", r.headers()));
            let who = Authenticator::verified_username(&s, &r);
            run.check(who.as_deref() == Some(user), || format!("{label}: {what} user"), || format!("{who:?}"));
            (c, r)
        };
        accept("plain", &|f| mk(&f));
        accept("all quoted", &|mut f| { f.iter_mut().for_each(|x| x.2 = true); mk(&f) });
        accept("no algorithm", &|mut f| { f.retain(|x| x.0 != "algorithm"); mk(&f) });
        accept("extra", &|mut f| { f.insert(3, ("auth-param", "a, b=c".into(), true)); mk(&f) });
        for k in 0..10 {
            accept(&format!("rotated {k}"), &|mut f| { f.rotate_left(k); mk(&f) });
        }
        for sc in ["digest", "DIGEST"] {
            accept(sc, &|f| req(method, uri, &[(hn, &show(sc, &f, ","))], body));
        }
        accept("spaces", &|f| req(method, uri, &[(hn, &show("Digest ", &f, " ,  "))], body));
        accept("upper-case names", &|f| {
            let t: Vec<String> = f.iter().map(|(k, v, q)| if *q { format!("{}=\"{v}\"", k.to_uppercase()) } else { format!("{} = {v}", k.to_uppercase()) }).collect();
            req(method, uri, &[(hn, &format!("Digest {}", t.join(",")))], body)
        });
        accept("after another realm's", &|f| req(method, uri, &[(hn, "Digest username=\"bob\", realm=\"elsewhere\", nonce=\"n\", uri=\"sip:x\", response=\"00\""), (hn, &show("Digest", &f, ", "))], body));
        accept("with the other kind", &|f| req(method, uri, &[(other, "Digest username=\"bob\", realm=\"example.com\", nonce=\"n\", uri=\"sip:x\", response=\"00\""), (hn, &show("Digest", &f, ", "))], body));
        for junk in ["Digest", "Basic QWxhZGRpbjpvcGVu", "Digest username=\"", "Bearer x.y", ",", "Digest realm=\"elsewhere\""] {
            accept(&format!("after {junk:?}"), &|f| req(method, uri, &[(hn, junk), (hn, &show("Digest", &f, ", "))], body));
        }
        let (cl, last) = accept("again", &|f| mk(&f));
        // the library's own client, from the server's challenge
        let mut cli = DigestClient::new(user, pass);
        let n2 = s.nonce_manager().generate();
        for k in 1..=if v[3] == 0 { 18u32 } else { 3 } {
            let a = cli.generate_authorization(method, uri, realm, n2.value(), ALGS[alg], Some(if qop == "auth" { Qop::Auth } else { Qop::AuthInt }), Some(s.opaque()), body);
            let f = parse_fields(a.strip_prefix("Digest ").unwrap_or(""));
            let cc = C { user: get(&f, "username"), realm: get(&f, "realm"), nonce: get(&f, "nonce"), uri: get(&f, "uri"), alg, qop, nc: get(&f, "nc"), cnonce: get(&f, "cnonce"), opaque: get(&f, "opaque") };
            let want = digest(&cc, pass, method.as_str(), body);
            let ok = get(&f, "response") == want && cc.user == user && cc.nonce == n2.value() && cc.nc == format!("{k:08x}") && get(&f, "qop") == qop && get(&f, "algorithm") == ALG_TOK[alg];
            run.check(ok, || format!("{label}: client {k}"), || a.clone());
            let r = req(method, uri, &[(hn, &a)], body);
            run.check(quiet(|| accepts(&s, &r)) == Ok((true, true)), || format!("{label}: client {k} refused"), || a.clone());
        }
        // the server's proof to the client
        for (rb, next) in [(&b""[..], None), (b"body", Some("nextn0nce"))] {
            let info = quiet(|| s.build_auth_info(&last, rb, next).ok().flatten()).ok().flatten();
            let Some(info) = info else {
                bad("auth info", "not built for verified credentials");
                continue;
            };
            let wire = AuthInfo::parse(&info.to_header_value());
            run.check(wire.as_ref() == Some(&info), || format!("{label}: auth info text"), || format!("{} -> {wire:?}", info.to_header_value()));
            let mut a1 = h(alg, &format!("{user}:{realm}:{pass}"), None);
            if alg % 2 == 1 {
                a1 = h(alg, &format!("{a1}:{}:{}", cl.nonce, cl.cnonce), None);
            }
            let a2 = if qop == "auth" { format!(":{uri}") } else { format!(":{uri}:{}", h(alg, "", Some(rb))) };
            let want = h(alg, &format!("{a1}:{}:{}:{}:{qop}:{}", cl.nonce, cl.nc, cl.cnonce, h(alg, &a2, None)), None);
            run.check(info.rspauth == want && info.nc.as_deref() == Some(&cl.nc) && info.nextnonce.as_deref() == next, || format!("{label}: rspauth"), || format!("{info:?} want {want}"));
            for odd in ["a\\\",nc=7", "x, y=z", "\\\\"] {
                let i = AuthInfo { cnonce: Some(odd.into()), nextnonce: Some(odd.into()), ..info.clone() };
                let w = AuthInfo::parse(&i.to_header_value());
                run.check(w.as_ref() == Some(&i), || format!("auth info text with {odd:?}"), || format!("{} -> {w:?}", i.to_header_value()));
            }
            let cli = DigestClient::new(user, pass);
            let ver = |i: &AuthInfo, realm: &str, uri: &str, nonce: &str, a: usize, b: &[u8]| cli.verify_auth_info(i, realm, uri, nonce, ALGS[a], b);
            let ok = ver(&info, realm, uri, &cl.nonce, alg, rb).ok().map(|n| n.as_deref() == next) == Some(true);
            run.check(ok, || format!("{label}: client refuses the server's proof"), || format!("{info:?}"));
            let mut forged = vec![];
            for j in 0..info.rspauth.len() {
                let mut t = info.rspauth.to_string();
                let r = if &t[j..j + 1] == "0" { "1" } else { "0" };
                t.replace_range(j..j + 1, r);
                forged.push(AuthInfo { rspauth: t.into(), ..info.clone() });
            }
            forged.push(AuthInfo { rspauth: "".into(), ..info.clone() });
            forged.push(AuthInfo { rspauth: info.rspauth[..info.rspauth.len() - 1].into(), ..info.clone() });
            forged.push(AuthInfo { cnonce: Some("x".into()), ..info.clone() });
            forged.push(AuthInfo { cnonce: None, ..info.clone() });
            forged.push(AuthInfo { nc: Some("00000099".into()), ..info.clone() });
            forged.push(AuthInfo { nc: None, ..info.clone() });
            forged.push(AuthInfo { qop: None, ..info.clone() });
            forged.push(AuthInfo { qop: Some(if qop == "auth" { Qop::AuthInt } else { Qop::Auth }), ..info.clone() });
            for f in forged {
                run.step(1);
                run.check(ver(&f, realm, uri, &cl.nonce, alg, rb).is_err(), || format!("{label}: forged proof {f:?}"), || "accepted".into());
            }
            let mut wrong = vec![ver(&info, "other", uri, &cl.nonce, alg, rb), ver(&info, realm, "sip:other", &cl.nonce, alg, rb), ver(&info, realm, uri, "other", alg, rb), ver(&info, realm, uri, &cl.nonce, (alg + 2) % 8, rb)];
            if qop == "auth-int" {
                wrong.push(ver(&info, realm, uri, &cl.nonce, alg, b"forged body"));
            }
            run.check(wrong.iter().all(|w| w.is_err()), || format!("{label}: proof accepted for another context"), || format!("{wrong:?}"));
        }
        run.trace();
    });
    // parameter orders: all permutations of the five fields that decide selection
    let s = srv(2, "auth", false, "example.com");
    for (n, p) in permutations(5).into_iter().enumerate() {
        let c = C { user: "alice".into(), realm: "example.com".into(), nonce: s.nonce_manager().generate().value().into(), uri: "sip:h".into(), alg: 2, qop: "auth", nc: "00000001".into(), cnonce: "c".into(), opaque: s.opaque().into() };
        let f = fields(&c, &digest(&c, "secret", "INVITE", b""));
        let mut g: Fields = p.iter().map(|&i| f[i].clone()).collect();
        g.extend(f[5..].iter().cloned());
        let r = req(&Method::Invite, "sip:h", &[("Authorization", &show("Digest", &g, ", "))], b"");
        run.step(1);
        run.state(&("perm", n));
        run.check(accepts(&s, &r) == (true, true), || format!("order {p:?}"), || "refused".into());
    }
    run.note("bounds", "8 algorithms x 2 protection levels x 2 modes x 4 users x 3 methods x 3 targets x 3 bodies x 2 realms; every field: dropped, emptied, lengthened, every character replaced or deleted, replaced by every other valid value");
}

#[derive(Clone, Debug)]
struct N {
    value: String,
    created: u64,
    last_nc: u32,
    last_req: Option<usize>,
    last_used: u64,
    gone: bool,
}
const TTL: u64 = 30_000;
const AGE: u64 = 10_000;
const OPS8: [&str; 17] = [
    "challenge", "next", "same again", "same count, other body", "same count, other method", "old count", "jump 1000", "jump 1001", "zero",
    "next, wrong digest", "next on first nonce", "unissued nonce", "clock 4s", "clock 10.001s", "clock 16s", "cleanup", "same count, other target",
];

pub fn p08(run: &Run) {
    run.assume("an identical retransmission (same count, method, target and body) of the last accepted request is accepted again");
    let depth = run.pick(5, 6);
    sequences(run, OPS8.len(), depth, |seq| nonce_history(run, seq));
    run.note("bounds", format!("{} operations, every history of length {depth} (after one challenge), clock in steps of 4 s, 10.001 s and 16 s around a 10 s reuse window and a 30 s lifetime", OPS8.len()));
    store_limit(run);
    // the settings hold in whichever order they are made
    for order in 0..6 {
        for (wait, want) in [(4_000u64, true), (6_000, false)] {
            for proxy in [false, true] {
                vclock::reset();
                let mut s = DigestAuthenticator::new("r", MemoryCredentialStore::with(vec![Credentials::new("u", "p", "r")])).with_proxy_auth(proxy);
                for step in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order] {
                    s = match step {
                        0 => s.with_nonce_ttl(Duration::from_secs(20)),
                        1 => s.with_max_request_age(Duration::from_secs(5)),
                        _ => s.with_algorithm(DigestAlgorithm::Md5),
                    };
                }
                let n = s.nonce_manager().generate();
                let mut ask = |nc: u32| {
                    let c = C { user: "u".into(), realm: "r".into(), nonce: n.value().into(), uri: "sip:h".into(), alg: 0, qop: "auth", nc: format!("{nc:08x}"), cnonce: "c".into(), opaque: s.opaque().into() };
                    let r = req(&Method::Invite, "sip:h", &[(if proxy { "Proxy-Authorization" } else { "Authorization" }, &show("Digest", &fields(&c, &digest(&c, "p", "INVITE", b"")), ", "))], b"");
                    s.verify(&r, r.headers()).unwrap_or(false)
                };
                let key = || format!("settings in order {order}, proxy {proxy}, {wait} ms between two requests");
                run.check(ask(1), key, || "the first request is refused".into());
                vclock::advance_ms(wait);
                let got = ask(2);
                run.check(got == want, key, || format!("accepted {got}, expected {want}"));
                vclock::advance_ms(20_001 - wait);
                run.check(!ask(3) && s.is_nonce_stale(n.value()), key, || "accepted after its lifetime".into());
                run.step(3);
                run.state(&("order", order, wait, proxy));
                run.trace();
            }
        }
    }
    // nonces issued over time stay usable for their whole lifetime, used or not
    for count in 1..=12u64 {
        for used in 0..3 {
            vclock::reset();
            let mgr = NonceManager::new(Duration::from_secs(300));
            let mut live: Vec<(String, u64)> = vec![];
            for i in 0..count {
                let n = mgr.generate();
                if used == 1 && i % 2 == 0 || used == 2 {
                    mgr.verify_with_nc(n.value(), 1, &Method::Invite, "sip:h", b"");
                }
                live.push((n.value().into(), i * 24));
                vclock::advance_ms(24_000);
            }
            let t = count * 24;
            for (n, at) in &live {
                let ok = mgr.verify(n);
                run.check(ok == (t - at <= 300), || format!("{count} nonces 24 s apart, used {used}, the one issued at {at} s"), || format!("valid {ok} at {t} s"));
            }
            run.step(count);
            run.state(&("ages", count, used));
            run.trace();
        }
    }
    // and the count cannot be driven beyond its ceiling
    vclock::reset();
    let s = DigestAuthenticator::new("r", MemoryCredentialStore::with(vec![Credentials::new("u", "p", "r")])).with_algorithm(DigestAlgorithm::Md5);
    let n = s.nonce_manager().generate();
    for (k, nc) in (1..=1000u32).map(|k| k * 1000).chain([1_000_001, 1_001_000]).enumerate() {
        let c = C { user: "u".into(), realm: "r".into(), nonce: n.value().into(), uri: "sip:h".into(), alg: 0, qop: "auth", nc: format!("{nc:08x}"), cnonce: "c".into(), opaque: s.opaque().into() };
        let r = req(&Method::Invite, "sip:h", &[("Authorization", &show("Digest", &fields(&c, &digest(&c, "p", "INVITE", b"")), ", "))], b"");
        let got = quiet(|| s.verify(&r, r.headers()).unwrap_or(false));
        run.step(1);
        run.check(got == Ok(k < 1000), || format!("count {nc} after steps of 1000"), || format!("accepted {got:?}"));
    }
    run.trace();
}

fn nonce_history(run: &Run, seq: &[usize]) {
    vclock::reset();
    let s = DigestAuthenticator::new("r", MemoryCredentialStore::with(vec![Credentials::new("u", "p", "r")]))
        .with_algorithm(DigestAlgorithm::Md5)
        .with_max_request_age(Duration::from_millis(AGE))
        .with_nonce_ttl(Duration::from_millis(TTL));
    let t0 = vclock::now();
    let now = || (vclock::now() - t0) / 1_000_000;
    let mut model: Vec<N> = vec![];
    let add = |model: &mut Vec<N>, now: u64| {
        let n = s.nonce_manager().generate();
        model.push(N { value: n.value().into(), created: now, last_nc: 0, last_req: None, last_used: now, gone: false });
    };
    add(&mut model, 0);
    for (k, &op) in seq.iter().enumerate() {
        let name = || format!("{:?}", seq[..=k].iter().map(|&o| OPS8[o]).collect::<Vec<_>>());
        run.step(1);
        match op {
            0 => {
                let t = now();
                add(&mut model, t);
                let dup = model[..model.len() - 1].iter().any(|n| n.value == model[model.len() - 1].value);
                run.check(!dup, || format!("history {}", name()), || "nonce issued twice".into());
            }
            12 => vclock::advance_ms(4_000),
            13 => vclock::advance_ms(10_001),
            14 => vclock::advance_ms(16_000),
            15 => {
                s.nonce_manager().cleanup();
                let t = now();
                model.iter_mut().for_each(|n| n.gone |= t - n.created > TTL);
                let live = model.iter().filter(|n| !n.gone).count();
                run.check(s.nonce_manager().count() == live, || format!("history {}", name()), || format!("{} nonces kept, {live} live", s.nonce_manager().count()));
            }
            _ => {
                let last = model.len() - 1;
                let slot = if op == 10 { 0 } else { last };
                let n = model[slot].clone();
                let (nc, variant) = match op {
                    1 | 10 => (n.last_nc + 1, 0),
                    2 => (n.last_nc, n.last_req.unwrap_or(0)),
                    3 => (n.last_nc, 1 + n.last_req.map(|r| if r == 1 { 1 } else { 0 }).unwrap_or(0)),
                    16 => (n.last_nc, if n.last_req == Some(3) { 0 } else { 3 }),
                    4 => (n.last_nc, if n.last_req == Some(2) { 0 } else { 2 }),
                    5 => (n.last_nc.saturating_sub(1), 0),
                    6 => (n.last_nc + 1000, 1),
                    7 => (n.last_nc + 1001, 0),
                    8 => (0, 0),
                    _ => (n.last_nc + 1, 1),
                };
                let (m, body) = [(Method::Invite, &b""[..]), (Method::Invite, b"x"), (Method::Bye, b""), (Method::Invite, b"")][variant].clone();
                let target = if variant == 3 { "sip:h2" } else { "sip:h" };
                let mut c = C { user: "u".into(), realm: "r".into(), nonce: n.value.clone(), uri: target.into(), alg: 0, qop: "auth", nc: format!("{nc:08x}"), cnonce: "c".into(), opaque: s.opaque().into() };
                if op == 11 {
                    c.nonce = "0123456789abcdef0123456789abcdef".into();
                }
                let d = digest(&c, if op == 9 { "wrong" } else { "p" }, m.as_str(), body);
                let r = req(&m, target, &[("Authorization", &show("Digest", &fields(&c, &d), ", "))], body);
                let t = now();
                let expired = t - n.created > TTL;
                let idle = n.last_nc > 0 && t - n.last_used > AGE;
                let count_ok = nc > n.last_nc && nc - n.last_nc <= 1000 || nc == n.last_nc && nc > 0 && n.last_req == Some(variant);
                let want = op != 11 && op != 9 && !n.gone && !expired && !idle && nc > 0 && count_ok;
                if op != 11 {
                    let flags = (Authenticator::nonce_is_stale(&s, &r), Authenticator::nonce_reuse_expired(&s, &r));
                    let wf = (!n.gone && expired, !n.gone && !expired && idle);
                    run.check(flags == wf, || format!("history {}", name()), || format!("(stale, reuse expired) = {flags:?}, expected {wf:?}"));
                }
                let got = quiet(|| s.verify(&r, r.headers()).unwrap_or(false));
                run.check(got == Ok(want), || format!("history {}", name()), || {
                    format!("request nc={nc} variant {variant} at t={t} ms: accepted={got:?}, expected {want}; nonce {n:?}")
                });
                if want {
                    let n = &mut model[slot];
                    n.last_nc = nc;
                    n.last_req = Some(variant);
                    n.last_used = t;
                }
                if got != Ok(want) {
                    return;
                }
            }
        }
        run.state(&(op, model.iter().map(|n| (now() - n.created, n.last_nc, n.last_req, now() - n.last_used, n.gone)).collect::<Vec<_>>()));
    }
    run.trace();
}

fn store_limit(run: &Run) {
    // the store itself: operations generate, cleanup, two clock steps
    let depth = run.pick(7, 9);
    par_for(run, 14, |m| {
        let max = [1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 15, 19, 20, 25][m];
        let prefill = if max > 7 { max - 2 } else { 0 };
        for code in 0..4usize.pow(depth) {
            vclock::reset();
            let t0 = vclock::now();
            let mgr = NonceManager::new(Duration::from_millis(100)).with_max_nonces(max);
            let mut live: Vec<(String, u64)> = vec![];
            let mut x = code;
            let ops: Vec<usize> = (0..prefill).map(|_| 0).chain((0..depth).map(|_| { let o = x % 4; x /= 4; o })).collect();
            for (k, &o) in ops.iter().enumerate() {
                let t = (vclock::now() - t0) / 1_000_000;
                let name = || format!("max {max} ops {:?}", &ops[..=k]);
                run.step(1);
                match o {
                    0 => {
                        let full = live.len() >= max;
                        let n = mgr.generate();
                        run.check(n.value().len() >= 16 && mgr.verify(n.value()), || name(), || "fresh nonce not usable".into());
                        run.check(mgr.count() <= max, || name(), || format!("{} nonces stored", mgr.count()));
                        let kept: Vec<bool> = live.iter().map(|(v, _)| mgr.verify(v)).collect();
                        for (i, (_, c)) in live.iter().enumerate() {
                            let valid = t - c <= 100;
                            if valid && !kept[i] {
                                // only for room, and never before an older one
                                let older_kept = live.iter().zip(&kept).any(|((_, c2), k2)| *k2 && c2 < c);
                                run.check(full && !older_kept, || name(), || format!("nonce issued at {c} dropped at {t}"));
                            }
                            run.check(valid || !kept[i], || name(), || format!("nonce issued at {c} still valid at {t}"));
                        }
                        let dropped = kept.iter().zip(&live).filter(|(k, (_, c))| !**k && t - c <= 100).count();
                        run.check(dropped <= (max / 10).max(1), || name(), || format!("{dropped} usable nonces dropped"));
                        let mut it = kept.iter();
                        live.retain(|(_, c)| *it.next().unwrap() || t - c > 100);
                        if full {
                            live.retain(|(_, c)| t - c <= 100);
                        }
                        live.push((n.value().into(), t));
                    }
                    1 => {
                        mgr.cleanup();
                        live.retain(|(_, c)| t - c <= 100);
                        run.check(mgr.count() == live.len(), || name(), || format!("{} stored, {} live", mgr.count(), live.len()));
                    }
                    2 => vclock::advance_ms(30),
                    _ => vclock::advance_ms(70),
                }
                run.state(&(max, live.iter().map(|(_, c)| t - c).collect::<Vec<_>>()));
            }
        }
    });
}
