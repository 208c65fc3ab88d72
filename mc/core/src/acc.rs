//! P05: the questions header values answer, over every combination of what
//! the answer may depend on.
use crate::hdr::na_item;
use common::{product, sequences, token_strings, Run};
use sip_core::*;
use smol_str::SmolStr;

fn s(v: &str) -> SmolStr {
    SmolStr::new(v)
}
fn eq<T: PartialEq + std::fmt::Debug>(run: &Run, what: &str, of: &dyn std::fmt::Debug, want: T, got: T) {
    run.step(1);
    run.check(want == got, || format!("{what} of {of:?}"), || format!("want {want:?}, got {got:?}"));
}

pub fn all(run: &Run) {
    lines(run);
    routes(run);
    security(run);
    reasons(run);
    etags(run);
    tokens(run);
    numbers(run);
    privacy(run);
    identities(run);
    history(run);
    methods(run);
    places(run);
    misc(run);
    quoting(run);
    addresses(run);
    letter_case(run);
}

/// A list header means the same however its values are spread over lines.
fn lines(run: &Run) {
    type Read = fn(&Headers) -> Option<Vec<String>>;
    let heads: &[(&str, Read)] = &[
        ("Path", |h| Some(sip_parse::parse_path(h).ok()?.routes().iter().map(|n| format!("{:?}", na_item(n))).collect())),
        ("Service-Route", |h| Some(sip_parse::parse_service_route(h).ok()?.routes().iter().map(|n| format!("{:?}", na_item(n))).collect())),
        ("Route", |h| Some(sip_parse::parse_route_headers(h, "Route").iter().map(|n| format!("{:?}", na_item(n.inner()))).collect())),
        ("Record-Route", |h| Some(sip_parse::parse_route_headers(h, "Record-Route").iter().map(|n| format!("{:?}", na_item(n.inner()))).collect())),
        ("Call-Info", |h| Some(sip_parse::parse_call_info_headers(h).iter().map(|n| format!("{:?}", na_item(n.inner()))).collect())),
        ("History-Info", |h| {
            Some(
                sip_parse::parse_history_info(h)
                    .ok()?
                    .entries()
                    .map(|e| format!("{} {:?}", e.uri().as_str(), e.params().collect::<Vec<_>>()))
                    .collect(),
            )
        }),
        ("Geolocation", |h| {
            Some(
                sip_parse::parse_geolocation_header(h)
                    .ok()?
                    .values()
                    .map(|e| format!("{} {:?}", e.uri().as_str(), e.params().collect::<Vec<_>>()))
                    .collect(),
            )
        }),
        ("P-Asserted-Identity", |h| {
            Some(
                sip_parse::parse_p_asserted_identity(h)
                    .ok()??
                    .identities()
                    .map(|i| format!("{:?} {} {:?}", i.display_name(), i.uri().as_str(), i.params().collect::<Vec<_>>()))
                    .collect(),
            )
        }),
        ("P-Preferred-Identity", |h| {
            Some(
                sip_parse::parse_p_preferred_identity(h)
                    .ok()??
                    .identities()
                    .map(|i| format!("{:?} {} {:?}", i.display_name(), i.uri().as_str(), i.params().collect::<Vec<_>>()))
                    .collect(),
            )
        }),
    ];
    let vals = ["<sip:a;lr>", "\"x, <y>\" <sip:b>", "<sip:c?x=1>", "<tel:+15>", "<sip:d,e@f>", "<sips:g>;p=\"1, 2\"", "<sip:h>;q"];
    for &(name, read) in heads {
        let one: Vec<Option<String>> = vals
            .iter()
            .map(|v| {
                let mut h = Headers::new();
                h.push(name, *v).unwrap();
                read(&h).and_then(|v| (v.len() == 1).then(|| v[0].clone()))
            })
            .collect();
        run.check(one.iter().flatten().count() >= 4, || format!("{name} reads single values"), || format!("{one:?}"));
        for n in 1..=run.pick(3, 4) {
            sequences(run, vals.len(), n, |seq| {
                // identities: at most two, of different kinds
                if name.starts_with("P-") && (n > 2 || n == 2 && (seq[0] == 3) == (seq[1] == 3)) {
                    return;
                }
                for split in 0..1usize << (n - 1) {
                    for sep in [",", ", ", " , "] {
                        if split == (1 << (n - 1)) - 1 && sep != "," {
                            continue;
                        }
                        let mut h = Headers::new();
                        h.push("X-Other", "<sip:z>").unwrap();
                        let mut cur = vals[seq[0]].to_string();
                        for k in 1..n {
                            if split >> (k - 1) & 1 == 1 {
                                h.push(name, std::mem::take(&mut cur).as_str()).unwrap();
                                h.push("Subject", "<sip:y>, x").unwrap();
                            } else {
                                cur += sep;
                            }
                            cur += vals[seq[k]];
                        }
                        h.push(name, cur.as_str()).unwrap();
                        let want: Option<Vec<String>> = seq.iter().map(|&i| one[i].clone()).collect();
                        run.step(1);
                        run.trace();
                        run.state(&(name, seq.to_vec(), split, sep));
                        let got = read(&h);
                        if let Some(want) = want {
                            run.check(got.as_ref() == Some(&want), || format!("{name} over lines"), || format!("{h:?}\nwant {want:?}\ngot  {got:?}"));
                        }
                    }
                }
            });
        }
    }
}

fn routes(run: &Run) {
    let disp = ["", "\"D\" ", "\";lr\" "];
    let uris = [("sip:h", false), ("sip:h;lr", true), ("sip:h;LR", true), ("sip:h;lr=on", true), ("sip:h;lrx", false), ("sip:lr@lr;x=lr", false), ("sips:h:5061;transport=tcp;lr", true), ("tel:+1", false)];
    let pars = [("", false), (";lr", true), (";Lr=1", true), (";x=lr", false), (";x=\";lr\"", false), (";xlr;y", false)];
    let mut all = vec![];
    for d in disp {
        for (u, a) in uris {
            for (p, b) in pars {
                let v = format!("{d}<{u}>{p}");
                let Some(r) = sip_parse::parse_route_header(&s(&v)) else {
                    run.violation(format!("Route refused {v:?}"), "a valid route is refused");
                    continue;
                };
                run.trace();
                run.state(&("has_lr", &v));
                eq(run, "has_lr", &v, a || b, r.has_lr());
                eq(run, "param_count", &v, r.params().count(), r.param_count());
                eq(run, "get_param lr", &v, b, r.get_param("LR").is_some());
                if d.len() < 3 {
                    all.push((v, a || b));
                }
            }
        }
    }
    for (u, _) in uris {
        if let Ok(r) = RouteHeader::with_lr(Uri::parse(u).unwrap()) {
            eq(run, "with_lr", &u, (true, u.to_ascii_lowercase()), (r.has_lr(), r.uri().as_str().to_ascii_lowercase()));
            eq(run, "with_lr reads back", &u, Ok(true), RouteHeader::parse(&r.to_string()).map(|r| r.has_lr()));
        }
    }
    for n in 1..=3 {
        let all: Vec<_> = if n == 3 { all.iter().step_by(7).collect() } else { all.iter().collect() };
        sequences(run, all.len(), n, |seq| {
            let text = seq.iter().map(|&i| all[i].0.as_str()).collect::<Vec<_>>().join(", ");
            let want = seq.iter().all(|&i| all[i].1);
            for name in ["Path", "Service-Route"] {
                let mut h = Headers::new();
                h.push(name, text.as_str()).unwrap();
                run.trace();
                let got = if name == "Path" {
                    sip_parse::parse_path(&h).ok().map(|p| (p.len(), p.uris().count(), p.is_empty(), p.all_loose_routing()))
                } else {
                    sip_parse::parse_service_route(&h).ok().map(|p| (p.len(), p.uris().count(), p.is_empty(), p.all_loose_routing()))
                };
                eq(run, name, &text, Some((n, n, false, want)), got);
            }
        });
    }
    // growing a route list keeps what is there, in order
    let u = ["sip:a;lr", "sip:b", "sips:c"];
    for n in 1..=4 {
        sequences(run, u.len(), n, |seq| {
            let want: Vec<&str> = seq.iter().map(|&i| u[i]).collect();
            let uri = |i: usize| Uri::parse(u[i]).unwrap();
            let mut p = PathHeader::single(uri(seq[0])).unwrap();
            let mut q = ServiceRouteHeader::single(uri(seq[0])).unwrap();
            for &i in &seq[1..] {
                p.add_route(uri(i)).unwrap();
                q.add_route(uri(i)).unwrap();
            }
            let all: Vec<Uri> = seq.iter().map(|&i| uri(i)).collect();
            let text = want.iter().map(|u| format!("<{u}>")).collect::<Vec<_>>().join(", ");
            run.trace();
            eq(run, "Path grows", &seq, want.clone(), p.uris().map(|u| u.as_str()).collect());
            eq(run, "Service-Route grows", &seq, want.clone(), q.uris().map(|u| u.as_str()).collect());
            eq(run, "Path from_uris", &seq, Ok(&p), PathHeader::from_uris(all.clone()).as_ref());
            eq(run, "Service-Route from_uris", &seq, Ok(&q), ServiceRouteHeader::from_uris(all).as_ref());
            eq(run, "Path prints", &seq, &text, &p.to_string());
            eq(run, "Service-Route prints", &seq, &text, &q.to_string());
        });
    }
}

fn security(run: &Run) {
    // (text, thousandths; no q counts as the least)
    let q = [("", 1u64), (";q=0", 0), (";q=0.1", 100), (";q=0.5", 500), (";Q=1.0", 1000), (";q=1", 1000), (";q=7", 1), (";q=x", 1)];
    let mech = ["digest", "tls", "IPSEC-IKE", "foo"];
    let mut all = vec![];
    for m in mech {
        for (q, n) in q {
            all.push((format!("{m}{q}"), m.to_ascii_lowercase(), n));
        }
    }
    let all = &all;
    let name = |e: &SecurityEntry| e.to_string();
    for n in 1..=run.pick(3, 4) {
        let all: Vec<_> = if n == 4 { all.iter().step_by(3).collect() } else { all.iter().collect() };
        let all = &all;
        sequences(run, all.len(), n, |seq| {
            let text = seq.iter().map(|&i| all[i].0.as_str()).collect::<Vec<_>>().join(", ");
            let (Ok(c), Ok(v)) = (parse_security_client(&text), parse_security_server(&text)) else {
                run.violation(format!("Security refused {text:?}"), "a valid list is refused");
                return;
            };
            run.trace();
            run.state(&("security", &text));
            let mut want: Vec<usize> = (0..n).collect();
            want.sort_by_key(|&i| std::cmp::Reverse(all[seq[i]].2));
            eq(run, "Security-Client sorted", &text, want.iter().map(|&i| name(&c.entries()[i])).collect::<Vec<_>>(), c.sorted_by_preference().into_iter().map(name).collect());
            eq(run, "Security-Server sorted", &text, want.iter().map(|&i| name(&v.entries()[i])).collect::<Vec<_>>(), v.sorted_by_preference().into_iter().map(name).collect());
            eq(run, "Security len", &text, (n, n, false, false), (c.len(), v.len(), c.is_empty(), v.is_empty()));
        });
    }
    // the mechanism both ends like best
    let some: Vec<_> = all.iter().filter(|e| !e.0.contains("x") && !e.0.contains("7") && !e.0.contains("1.0")).cloned().collect();
    let some = &some;
    let pairs: Vec<Vec<usize>> = (0..some.len()).map(|i| vec![i]).chain((0..some.len()).flat_map(|i| (0..some.len()).map(move |j| vec![i, j]))).collect();
    let pairs = &pairs;
    product(run, &[pairs.len(), pairs.len()], |ix| {
        let (sv, cl) = (&pairs[ix[0]], &pairs[ix[1]]);
        let text = |l: &Vec<usize>| l.iter().map(|&i| some[i].0.as_str()).collect::<Vec<_>>().join(", ");
        let (Ok(c), Ok(v), Ok(y)) = (parse_security_client(&text(cl)), parse_security_server(&text(sv)), parse_security_verify(&text(cl))) else { return };
        let mut best: Option<(usize, u64)> = None;
        for (k, &i) in sv.iter().enumerate() {
            if let Some(&j) = cl.iter().find(|&&j| some[j].1 == some[i].1) {
                let p = some[i].2 * some[j].2;
                if best.is_none_or(|b| p > b.1) {
                    best = Some((k, p));
                }
            }
        }
        run.trace();
        let of = (text(sv), text(cl));
        eq(run, "best mechanism", &of, best.map(|b| name(&v.entries()[b.0])), v.find_best_match(&c).map(name));
        for (k, &i) in sv.iter().enumerate() {
            eq(run, "verify", &of, cl.iter().any(|&j| some[j].1 == some[i].1), y.matches(&v.entries()[k]));
        }
    });
    for k in 0..=1000u64 {
        let mut e = SecurityEntry::tls();
        let ok = e.set_preference(k as f32 / 1000.0).is_ok();
        let mut want = format!("{}.{:03}", k / 1000, k % 1000);
        while want.ends_with('0') {
            want.pop();
        }
        let want = want.trim_end_matches('.').to_string();
        run.trace();
        eq(run, "set_preference", &k, (true, Some(format!("tls;q={want}"))), (ok, Some(e.to_string())));
        eq(run, "preference", &k, Some(k), e.preference().map(|q| (q * 1000.0).round() as u64));
        // setting it again replaces it
        let _ = e.set_preference(0.25);
        eq(run, "set_preference twice", &k, "tls;q=0.25".to_string(), e.to_string());
    }
    for q in [-0.001, 1.001, f32::NAN, f32::INFINITY, -f32::INFINITY] {
        let mut e = SecurityEntry::tls();
        eq(run, "set_preference refuses", &q, (true, "tls".to_string()), (e.set_preference(q).is_err(), e.to_string()));
    }
}

fn reasons(run: &Run) {
    const KNOWN: [u16; 30] = [1, 2, 3, 16, 17, 18, 19, 20, 21, 22, 27, 28, 29, 31, 34, 38, 41, 42, 47, 55, 57, 58, 63, 65, 79, 87, 88, 102, 111, 127];
    let mut names = std::collections::BTreeSet::new();
    for code in 0..=2000u16 {
        let c = Q850Cause::from_code(code);
        run.trace();
        eq(run, "Q.850 cause", &code, KNOWN.contains(&code).then_some(code), c.map(|c| c.code()));
        if let Some(c) = c {
            run.check(names.insert(c.text()), || format!("Q.850 text {code}"), || c.text().to_string());
            let h = ReasonHeader::q850(c).unwrap();
            eq(run, "Reason q850", &code, (true, false, Some(code), Some(c.text()), Some(c)), (h.is_q850(), h.is_sip(), h.cause_code(), h.text(), h.as_q850_cause()));
            let back = sip_core::reason::parse_reason_from_string(&h.to_string());
            eq(run, "Reason q850 reads back", &code, Some(&h), back.as_ref().ok());
        }
        for (proto, q, sip) in [("SIP", false, true), ("sip", false, true), ("Q.850", true, false), ("q.850", true, false), ("foo", false, false)] {
            let v = format!("{proto};cause={code};text=\"t\"");
            let Some(h) = sip_parse::parse_reason_header(&s(&v)) else {
                run.violation(format!("Reason refused {v:?}"), "a valid reason is refused");
                continue;
            };
            let want = (q, sip, Some(code), Some("t"), if q { c } else { None });
            eq(run, "Reason", &v, want, (h.is_q850(), h.is_sip(), h.cause_code(), h.text(), h.as_q850_cause()));
        }
        for t in [None, Some("x")] {
            if let Ok(h) = ReasonHeader::sip(code, t) {
                eq(run, "Reason sip", &(code, t), (false, true, Some(code), None), (h.is_q850(), h.is_sip(), h.cause_code(), h.as_q850_cause()));
                if t.is_some() {
                    eq(run, "Reason sip text", &code, t, h.text());
                }
            }
        }
    }
    for v in ["SIP", "Q.850;text=\"16\"", "Q.850;cause", "Q.850;cause=abc", "Q.850;cause=70000", "SIP;xcause=16"] {
        if let Some(h) = sip_parse::parse_reason_header(&s(v)) {
            eq(run, "Reason without cause", &v, (None, None), (h.cause_code(), h.as_q850_cause()));
        }
    }
}

fn etags(run: &Run) {
    let toks = ["a", "A", "b", "1", "-", "~"];
    let all = std::sync::Mutex::new(vec![]);
    token_strings(run, &toks, 3, |v| {
        if let (Ok(e), Ok(m)) = (SipETagHeader::new(v), SipIfMatchHeader::new(v)) {
            all.lock().unwrap().push((v.to_string(), e, m));
        }
    });
    let all = &all.into_inner().unwrap();
    run.check(all.len() == 6 + 36 + 216, || "entity tags accepted".into(), || all.len().to_string());
    product(run, &[all.len(), all.len()], |ix| {
        let ((a, e, m), (b, f, n)) = (&all[ix[0]], &all[ix[1]]);
        let w = a == b;
        run.trace();
        eq(run, "entity tags equal", &(a, b), (w, w, w), (e.constant_time_eq(f), m.constant_time_eq(n), m.matches_etag(f)));
    });
}

fn tokens(run: &Run) {
    let t = ["INVITE", "invite", "ACK", " ", "", "a b", "100rel", " x ", "a,b", "é"];
    for n in 0..=3 {
        sequences(run, t.len(), n, |seq| {
            let mut l = TokenList::new();
            let mut want: Vec<&str> = vec![];
            for &i in seq {
                let tok = t[i].trim();
                let ok = !tok.is_empty() && !tok.contains([' ', ',', 'é']);
                let r = l.add_token(t[i]);
                eq(run, "add_token", &(seq, i), ok, r.is_ok());
                if ok {
                    want.push(tok);
                }
                eq(run, "tokens", &seq, &want, &l.iter().collect());
                let with = l.clone().with_token(t[i]);
                eq(run, "with_token", &(seq, i), ok.then_some(want.len() + 1), with.ok().map(|l| l.len()));
            }
            run.trace();
            run.state(&("tokens", seq));
            eq(run, "len", &seq, (want.len(), want.is_empty()), (l.len(), l.is_empty()));
            for q in ["invite", "Ack", "100REL", "x", "INV", "INVITEX", ""] {
                eq(run, "contains", &(seq, q), want.iter().any(|w| w.eq_ignore_ascii_case(q)), l.contains(q));
            }
            eq(run, "from_tokens", &seq, Some(&l), TokenList::from_tokens(want.iter()).ok().as_ref());
            let text = want.join(", ");
            eq(run, "prints", &seq, &text, &l.to_string());
            eq(run, "Allow", &seq, &l, &sip_parse::parse_allow_header(&s(&text)));
            eq(run, "Supported", &seq, &l, &sip_parse::parse_supported_header(&s(&text)));
        });
    }
    // at the limits
    let mut l = TokenList::new();
    let mut n = 0;
    while l.add_token("t").is_ok() && n < 1000 {
        n += 1;
    }
    eq(run, "token limit", &n, (n, true), (l.len(), n < 1000));
    eq(run, "tokens at the limit read back", &n, Some(&l), TokenList::parse(&l.to_string()).ok().as_ref());
    eq(run, "tokens past the limit", &n, None, TokenList::parse(&format!("{l}, t")).ok());
}

fn numbers(run: &Run) {
    let near = |x: u32| x.saturating_sub(3)..=x.saturating_add(3);
    for v in (0..=300).chain(near(7200)).chain(near(86400)).chain(near(1 << 16)).chain(near(1 << 31)).chain(near(u32::MAX)) {
        run.trace();
        let se = (90..=86400).contains(&v);
        let ms = (90..=7200).contains(&v);
        eq(run, "Session-Expires", &v, (se, se.then_some(v), se.then_some(true)), (SessionExpires::new(v).is_ok(), SessionExpires::parse(&v.to_string()).map(|h| h.delta_seconds()), SessionExpires::new(v).ok().map(|h| h.is_valid())));
        eq(run, "Min-SE", &v, (ms, ms.then_some(v), ms.then_some(true)), (MinSessionExpires::new(v).is_ok(), MinSessionExpires::parse(&v.to_string()).map(|h| h.delta_seconds()), MinSessionExpires::new(v).ok().map(|h| h.is_valid())));
        for role in [RefresherRole::Uac, RefresherRole::Uas] {
            if let Ok(h) = SessionExpires::new(v) {
                let h = h.with_refresher(role);
                eq(run, "refresher", &v, (Some(role), format!("{v};refresher={}", role.as_str())), (h.refresher(), h.to_string()));
                eq(run, "refresher reads back", &v, Some(&h), SessionExpires::parse(&h.to_string()).as_ref());
            }
        }
        let rs = (1..=i32::MAX as u32).contains(&v);
        eq(run, "RSeq", &v, rs.then_some(v), sip_parse::parse_rseq_header(&s(&v.to_string())).map(|h| h.sequence()));
        // more digits than a number has
        for junk in [format!("{v}0000000000"), format!("-{v}"), format!("{v}x"), format!("{v}.0"), format!("{v} 1")] {
            eq(run, "Session-Expires junk", &junk, None, SessionExpires::parse(&junk).map(|h| h.delta_seconds()));
            eq(run, "Min-SE junk", &junk, None, MinSessionExpires::parse(&junk).map(|h| h.delta_seconds()));
            eq(run, "RSeq junk", &junk, None, sip_parse::parse_rseq_header(&s(&junk)).map(|h| h.sequence()));
        }
    }
    eq(run, "default interval", &"", true, SessionExpires::new(SessionExpires::default_interval()).is_ok());
}

fn privacy(run: &Run) {
    use PrivacyValue as V;
    let v = [V::None, V::Header, V::Session, V::User, V::Id, V::Critical];
    for n in 0..=4 {
        sequences(run, v.len(), n, |seq| {
            let vals: Vec<V> = seq.iter().map(|&i| v[i]).collect();
            let has = |x: V| vals.contains(&x);
            let ok = n > 0 && !(n > 1 && has(V::None));
            let h = PrivacyHeader::new(vals.clone());
            run.trace();
            run.state(&("privacy", seq));
            eq(run, "Privacy", &vals, ok, h.is_ok());
            let text = vals.iter().map(|v| v.as_str()).collect::<Vec<_>>();
            for (sep, up) in [(";", false), ("; ", true), (" ;; ", false)] {
                let t = if up { text.join(sep).to_uppercase() } else { text.join(sep) };
                let r = PrivacyHeader::parse(&t);
                eq(run, "Privacy read", &t, h.as_ref().ok(), r.as_ref().ok());
                let mut hs = Headers::new();
                hs.push("Privacy", t.as_str()).unwrap();
                eq(run, "Privacy of headers", &t, h.as_ref().ok(), parse_privacy_header(&hs).as_ref());
            }
            let Ok(h) = h else { return };
            eq(run, "Privacy prints", &vals, Some(&h), PrivacyHeader::parse(&h.to_string()).ok().as_ref());
            let want = (has(V::Critical), has(V::None), has(V::Id) || has(V::User), has(V::Header) || has(V::User), has(V::Session) || has(V::User), n, false);
            let got = (h.is_critical(), h.is_none(), h.requires_identity_anonymization(), h.requires_header_privacy(), h.requires_session_privacy(), h.len(), h.is_empty());
            eq(run, "Privacy asks", &vals, want, got);
            eq(run, "Privacy values", &vals, vals.clone(), h.values().collect());
            for x in v {
                eq(run, "Privacy contains", &(&vals, x), has(x), h.contains(x));
            }
        });
    }
    let mut h = Headers::new();
    h.push("X", "id").unwrap();
    eq(run, "Privacy absent", &"", None, parse_privacy_header(&h));
}

fn identities(run: &Run) {
    let u = ["sip:a@h", "sips:b@h", "tel:+15", "tel:7;phone-context=x.y", "im:c@h"];
    for n in 1..=2 {
        sequences(run, u.len(), n, |seq| {
            let ids: Vec<PIdentity> = seq.iter().filter_map(|&i| Uri::parse(u[i]).ok()).map(PIdentity::from_uri).collect();
            if ids.len() < n {
                return;
            }
            let first = |p: &[&str]| seq.iter().map(|&i| u[i]).find(|x| p.iter().any(|p| x.starts_with(p)));
            let (sip, tel) = (first(&["sip:", "sips:"]), first(&["tel:"]));
            run.trace();
            run.state(&("identities", seq));
            if let Ok(h) = PAssertedIdentityHeader::new(ids.clone()) {
                eq(run, "P-Asserted-Identity", &seq, (sip.is_some(), tel.is_some(), sip, tel, n), (h.has_sip_identity(), h.has_tel_identity(), h.sip_identity(), h.tel_identity(), h.len()));
            }
            if let Ok(h) = PPreferredIdentityHeader::new(ids) {
                eq(run, "P-Preferred-Identity", &seq, (sip.is_some(), tel.is_some(), sip, tel, n), (h.has_sip_identity(), h.has_tel_identity(), h.sip_identity(), h.tel_identity(), h.len()));
            }
        });
    }
    let sip = || SipUri::parse("sip:a@h;x=1").unwrap();
    for (num, want) in [("+15", Some("tel:+15")), ("tel:+15", Some("tel:+15")), ("tel:tel:+15", None), ("", None), ("+1>5", None), ("sip:a@h", None)] {
        run.trace();
        let one = [PAssertedIdentityHeader::single_tel(num).ok().map(|h| h.to_string()), PPreferredIdentityHeader::single_tel(num).ok().map(|h| h.to_string())];
        let two = [PAssertedIdentityHeader::sip_and_tel(sip(), num).ok().map(|h| h.to_string()), PPreferredIdentityHeader::sip_and_tel(sip(), num).ok().map(|h| h.to_string())];
        let w = want.map(|w| format!("<{w}>"));
        eq(run, "single_tel", &num, [w.clone(), w.clone()], one);
        let w = want.map(|w| format!("<sip:a@h;x=1>, <{w}>"));
        eq(run, "sip_and_tel", &num, [w.clone(), w], two);
    }
    eq(run, "single_sip", &"", ["<sip:a@h;x=1>".to_string(), "<sip:a@h;x=1>".to_string()], [PAssertedIdentityHeader::single_sip(sip()).to_string(), PPreferredIdentityHeader::single_sip(sip()).to_string()]);
}

fn history(run: &Run) {
    let v = [("<sip:a>;index=1", Some("1"), None), ("<sip:b>;INDEX=1.1;rc=1", Some("1.1"), Some("1")), ("<sip:c>;index=1.1.1;mp=1", Some("1.1.1"), None), ("<sip:d>;rc=\"9\"", None, Some("9")), ("<sip:e>;index=1", Some("1"), None)];
    for n in 1..=run.pick(3, 4) {
        sequences(run, v.len(), n, |seq| {
            let mut h = Headers::new();
            h.push("History-Info", seq.iter().map(|&i| v[i].0).collect::<Vec<_>>().join(", ").as_str()).unwrap();
            let Ok(hi) = sip_parse::parse_history_info(&h) else {
                run.violation(format!("History-Info refused {h:?}"), "a valid list is refused");
                return;
            };
            run.trace();
            run.state(&("history", seq));
            let uri = |e: Option<&HistoryInfoEntry>| e.map(|e| e.uri().as_str().to_string());
            let want = |i: Option<usize>| i.map(|i| v[seq[i]].0[1..].split('>').next().unwrap().to_string());
            for q in ["1", "1.1", "1.1.1", "1.2", "", "01"] {
                eq(run, "find_by_index", &(seq, q), want(seq.iter().position(|&i| v[i].1 == Some(q))), uri(hi.find_by_index(q)));
            }
            eq(run, "first/last", &seq, (want(Some(0)), want(Some(n - 1)), n, false), (uri(hi.first()), uri(hi.last()), hi.len(), hi.is_empty()));
            for k in 0..=n {
                let i = (k < n).then_some(k);
                eq(run, "get", &(seq, k), want(i), uri(hi.get(k)));
                eq(run, "index", &(seq, k), i.and_then(|k| v[seq[k]].1), hi.get(k).and_then(|e| e.index()));
                eq(run, "reason_code", &(seq, k), i.and_then(|k| v[seq[k]].2), hi.get(k).and_then(|e| e.reason_code()));
            }
            // built entry by entry
            let mut b = HistoryInfoHeader::single(hi.as_slice()[0].clone());
            for e in &hi.as_slice()[1..] {
                b.push(e.clone()).unwrap();
            }
            eq(run, "push", &seq, (&hi, true), (&b, HistoryInfoHeader::new(hi.as_slice().to_vec()).as_ref() == Ok(&hi)));
        });
    }
}

fn methods(run: &Run) {
    const STD: [&str; 14] = ["INVITE", "ACK", "BYE", "CANCEL", "REGISTER", "OPTIONS", "INFO", "UPDATE", "MESSAGE", "PRACK", "REFER", "SUBSCRIBE", "NOTIFY", "PUBLISH"];
    let mut texts: Vec<String> = vec!["FOO".into(), "INVITES".into(), "INVIT".into(), "XACK".into(), "BYE-".into()];
    for m in STD {
        texts.extend([m.to_string(), m.to_lowercase(), format!("{}{}", &m[..1], m[1..].to_lowercase()), m[1..].to_string(), format!("{m}X")]);
    }
    let texts = &texts;
    product(run, &[texts.len(), texts.len()], |ix| {
        let (a, b) = (&texts[ix[0]], &texts[ix[1]]);
        let (Ok(m), Ok(n)) = (Method::from_token(a), Method::from_token(b)) else {
            run.violation(format!("Method refused {a:?} or {b:?}"), "");
            return;
        };
        run.trace();
        run.state(&("method", a, b));
        eq(run, "methods equal", &(a, b), a.eq_ignore_ascii_case(b), m == n);
        if ix[1] == 0 {
            let std = STD.iter().any(|x| x.eq_ignore_ascii_case(a));
            eq(run, "method", a, (std, !std, a.to_uppercase()), (m.is_standard(), m.is_extension(), m.as_str().to_string()));
            eq(run, "FromStr", a, Ok(&m), a.parse::<Method>().as_ref());
        }
    });
}

/// Geolocation-Error and Geolocation-Routing.
fn places(run: &Run) {
    let codes = [("", None), ("100", Some("100")), ("424", Some("424"))];
    let pars: &[(&str, Option<&str>, &[(&str, Option<&str>)])] = &[
        ("", None, &[]),
        (";reason=x", Some("x"), &[("reason", Some("x"))]),
        (";Reason=\"a\\-b\"", Some("a-b"), &[("reason", Some("a-b"))]),
        ("; code=\"l\" ;P", None, &[("code", Some("l")), ("p", None)]),
        (";p=1;reason=\"q\"", Some("q"), &[("p", Some("1")), ("reason", Some("q"))]),
    ];
    product(run, &[codes.len(), pars.len()], |ix| {
        let ((c, code), (p, desc, want)) = (codes[ix[0]], pars[ix[1]]);
        let t = format!("{c}{p}");
        let Ok(h) = sip_parse::parse_geolocation_error(&s(&t)) else {
            run.violation(format!("Geolocation-Error refused {t:?}"), "");
            return;
        };
        run.trace();
        let long = sip_parse::parse_geolocation_error(&s(&format!("{t};zz=1;reason=\"a; b=c\"")));
        if desc.is_none() {
            eq(run, "Geolocation-Error text", &t, Some((code, Some("a; b=c"))), long.as_ref().ok().map(|h| (h.code(), h.description())));
        }
        eq(run, "Geolocation-Error", &t, (code, desc, want.to_vec()), (h.code(), h.description(), h.params().collect()));
        for (k, v) in want {
            eq(run, "Geolocation-Error param", &t, Some(*v), h.get_param(&k.to_uppercase()).map(|v| v.as_deref()));
        }
        let Ok(r) = sip_parse::parse_geolocation_routing(&s(p.trim_start_matches(';'))) else {
            run.violation(format!("Geolocation-Routing refused {p:?}"), "");
            return;
        };
        eq(run, "Geolocation-Routing", &p, (want.to_vec(), want.is_empty()), (r.params().collect(), r.is_empty()));
    });
}

fn misc(run: &Run) {
    // Priority
    for (t, lvl) in [("emergency", Some(3)), ("urgent", Some(2)), ("normal", Some(1)), ("non-urgent", Some(0)), ("other", None)] {
        for t in [t.to_string(), t.to_uppercase(), format!("{}{}", t[..1].to_uppercase(), &t[1..])] {
            let Ok(p) = PriorityValue::parse(&t) else {
                run.violation(format!("Priority refused {t:?}"), "");
                continue;
            };
            run.trace();
            eq(run, "Priority", &t, (lvl.is_some(), lvl.is_none(), lvl, t.to_lowercase()), (p.is_standard(), p.is_extension(), p.urgency_level(), p.to_string()));
            for sp in [t.clone(), format!(" {t} ")] {
                eq(run, "Priority header", &sp, &p, &sip_parse::parse_priority_header(&s(&sp)));
            }
        }
    }
    // Refer-Sub
    for (t, want) in [("true", Some(true)), ("FALSE", Some(false)), (" false ", Some(false)), ("yes", None), ("", None), ("truefalse", None)] {
        eq(run, "Refer-Sub", &t, want.map(|w| (w, !w)), ReferSubHeader::parse(t).map(|h| (h.is_enabled(), h.is_suppressed())));
    }
    eq(run, "Refer-Sub made", &"", (true, false, true), (ReferSubHeader::enabled().is_enabled(), ReferSubHeader::new(false).is_enabled(), ReferSubHeader::default().is_enabled()));
    // Replaces
    for e in [true, false] {
        let h = ReplacesHeader::new("c@h", "t", "f").unwrap().with_early_only(e);
        eq(run, "early-only", &e, (e, "c@h", "t", "f"), (h.is_early_only(), h.call_id(), h.to_tag(), h.from_tag()));
        eq(run, "early-only reads back", &e, Ok(&h), ReplacesHeader::parse(&h.to_string()).as_ref());
        eq(run, "early-only undone", &e, false, h.with_early_only(false).is_early_only());
    }
    // Via parameters replaced, added and refused
    let name = ["branch", "BRANCH", "rport", "x"];
    let val = [None, Some("1"), Some("z9hG4bKq"), Some("a b")];
    for n in 1..=3 {
        sequences(run, name.len() * val.len() * 2, n, |seq| {
            let mut v = ViaHeader::new("UDP", "h:5").unwrap();
            let mut want = std::collections::BTreeMap::new();
            for &i in seq {
                let (k, x, set) = (name[i % 4], val[i / 4 % 4], i >= 16);
                let key = k.to_lowercase();
                let fresh = !want.contains_key(&key);
                let with = v.clone().with_param(k, x).is_ok();
                let ok = if set { v.set_param(k, x).is_ok() } else { v.add_param(k, x).is_ok() };
                if !ok && (set || fresh) {
                    // a value this parameter cannot have
                    continue;
                }
                eq(run, "Via add", &(seq, i), set || fresh, ok);
                if !set {
                    eq(run, "Via with_param", &(seq, i), ok, with);
                }
                if ok {
                    want.insert(key, x);
                }
            }
            run.trace();
            run.state(&("via", seq));
            let got: Vec<_> = v.params().iter().map(|(k, v)| (k.to_string(), v.as_deref().map(|s| s.to_string()))).collect();
            eq(run, "Via params", &seq, want.iter().map(|(k, v)| (k.clone(), v.map(|s| s.to_string()))).collect(), got);
            for k in name {
                eq(run, "Via param", &(seq, k), want.get(&k.to_lowercase()).copied(), v.param(k).map(|v| v.as_deref()));
            }
            eq(run, "Via reads back", &seq, Some(&v), sip_parse::parse_via_header(&s(&v.to_string())).as_ref());
        });
    }
    // tags of From and To
    for (p, want) in [("", None), (";tag=a", Some("a")), (";TAG=b", Some("b")), (";x=\";tag=c\"", None), (";xtag=d", None), (";x=1;Tag=\"e f\"", Some("e f")), (";tag", None)] {
        for (d, u) in [("", "<sip:u@h;tag=no>"), ("\"tag=no;tag=no\" ", "<sip:tag=no@h>"), ("", "sip:u@h"), ("x ", "<tel:+1;tag=no>")] {
            let v = format!("{d}{u}{p}");
            let (Some(f), Some(t)) = (sip_parse::parse_from_header(&s(&v)), sip_parse::parse_to_header(&s(&v))) else {
                run.violation(format!("From refused {v:?}"), "");
                continue;
            };
            run.trace();
            eq(run, "tag", &v, (want, want), (f.tag().map(|s| s.as_str()), t.tag().map(|s| s.as_str())));
        }
    }
    // Content-Type: counts and repeated names
    for n in 0..=3 {
        let p = ["a=1", "A=2", "b=\"\"", "c=\"x;y\""];
        sequences(run, p.len(), n, |seq| {
            let t = format!("text/plain{}", seq.iter().map(|&i| format!(";{}", p[i])).collect::<String>());
            let mut k: Vec<String> = seq.iter().map(|&i| p[i][..1].to_lowercase()).collect();
            k.sort();
            k.dedup();
            run.trace();
            let r = t.parse::<MimeType>();
            eq(run, "Content-Type names once", &t, k.len() == n, r.is_ok());
            if let Ok(m) = r {
                eq(run, "Content-Type counts", &t, (n, n > 0, "text/plain".to_string(), m.to_string()), (m.param_count(), m.has_params(), m.as_str(), m.to_string_with_params()));
            }
        });
    }
    // Referred-By
    let r = ReferredByHeader::new("sip:u@h").unwrap();
    eq(run, "Referred-By signature", &"", (false, true), (r.has_signature(), r.with_cid("a@b").is_ok_and(|r| r.has_signature())));
}

/// The quoted-string helpers, against readers of their own.
fn quoting(run: &Run) {
    use sip_core::quoted::*;
    // positions of the separators that are structure
    let cuts = |t: &str, sep: char, angle: bool| -> Option<Vec<String>> {
        let (mut out, mut cur, mut q, mut a, mut esc) = (vec![], String::new(), false, false, false);
        for c in t.chars() {
            if esc {
                esc = false;
            } else if q {
                esc = c == '\\';
                q = c != '"';
            } else if a {
                a = c != '>';
            } else if c == '"' {
                q = true;
            } else if c == '<' && angle {
                a = true;
            } else if c == sep {
                out.push(std::mem::take(&mut cur));
                continue;
            }
            cur.push(c);
        }
        out.push(cur);
        (!q).then_some(out)
    };
    let plain = |t: &str| -> String {
        let b: Vec<char> = t.trim().chars().collect();
        if b.len() < 2 || b[0] != '"' {
            return b.into_iter().collect();
        }
        let (mut out, mut i) = (String::new(), 1);
        while i < b.len() {
            match b[i] {
                '\\' if i + 1 < b.len() => { out.push(b[i + 1]); i += 2; }
                '\\' => break,
                '"' => return if i + 1 == b.len() { out } else { b.into_iter().collect() },
                c => { out.push(c); i += 1; }
            }
        }
        b.into_iter().collect()
    };
    let toks = [";", ",", "=", "\"", "\\", "<", ">", "tag", "TAG", "x", " ", "\u{e9}"];
    token_strings(run, &toks, run.pick(6, 7), |t| {
        let own = |v: Option<Vec<&str>>| v.map(|v| v.into_iter().map(String::from).collect::<Vec<_>>());
        eq(run, "split at ;", &t, cuts(t, ';', false), own(split_unquoted(t, ';')));
        eq(run, "split list", &t, cuts(t, ',', true), own(split_list(t)));
        eq(run, "unquote", &t, plain(t), unquote(t).to_string());
        let want = cuts(t, ';', true).and_then(|p| p.iter().find_map(|p| p.split_once('=').filter(|(k, _)| k.trim().eq_ignore_ascii_case("tag")).map(|(_, v)| plain(v))));
        eq(run, "header parameter", &t, want, header_param(t, "Tag").map(|v| v.to_string()));
        // quoting makes one string of any text
        let q = QuotedString(t).to_string();
        eq(run, "quoted text", &t, (t.to_string(), true, Some(vec![q.clone()])), (unquote(&q).to_string(), is_quoted_or_plain(&q), cuts(&q, ';', true)));
        let v = ParamValue(t).to_string();
        eq(run, "parameter text", &t, (t.to_string(), Some(1), Some(1)), (unquote(&v).to_string(), cuts(&v, ';', true).map(|c| c.len()), cuts(&v, ',', true).map(|c| c.len())));
    });
}

/// Parameters of a name-addr are found, added and replaced by name in any case.
fn addresses(run: &Run) {
    let name = ["lr", "LR", "x", "tag"];
    let val = [None, Some("1"), Some(""), Some("a b;\"c")];
    for n in 1..=3 {
        sequences(run, name.len() * val.len(), n, |seq| {
            let mut a = NameAddr::from_uri(Uri::parse("sip:u@h").unwrap());
            let mut want: std::collections::BTreeMap<String, Option<&str>> = Default::default();
            for &i in seq {
                let (k, x) = (name[i % 4], val[i / 4]);
                let old = want.insert(k.to_lowercase(), x);
                let got = a.insert_param(s(k), x.map(s));
                eq(run, "name-addr insert", &(seq, i), Ok(old.map(|o| o.map(s))), got);
            }
            run.trace();
            run.state(&("name-addr", seq));
            for k in name.iter().chain(&["Tag", "y"]) {
                let w = want.get(&k.to_lowercase()).map(|v| v.map(s));
                eq(run, "name-addr param", &(seq, k), w.as_ref(), a.get_param(k));
                eq(run, "Route param", &(seq, k), w.as_ref(), RouteHeader::new(a.clone()).get_param(k));
            }
            let all: Vec<_> = want.iter().map(|(k, v)| (k.clone(), v.map(String::from))).collect();
            let of = |i: &mut dyn Iterator<Item = (&SmolStr, &Option<SmolStr>)>| i.map(|(k, v)| (k.to_string(), v.as_ref().map(|v| v.to_string()))).collect::<Vec<_>>();
            eq(run, "name-addr params", &seq, (&all, &all), (&of(&mut a.params()), &of(&mut a.params_map().iter())));
            eq(run, "name-addr made", &seq, Ok(&a), NameAddr::new(None, a.uri().clone(), a.params_map().clone()).as_ref());
            eq(run, "name-addr reads back", &seq, Some(a.clone()), RouteHeader::parse(&RouteHeader::new(a.clone()).to_string()).ok().map(|r| r.into_inner()));
        });
    }
    for (u, sip, tel) in [("sip:u@h", true, false), ("SIPS:u@h", true, false), ("tel:+1", false, true), ("urn:x:y", false, false)] {
        let a = NameAddr::from_uri(Uri::parse(u).unwrap());
        eq(run, "name-addr kind", &u, (sip, tel), (a.sip_uri().is_some(), a.tel_uri().is_some()));
    }
    // at the limit a parameter can still be replaced, but none added
    let mut a = NameAddr::from_uri(Uri::parse("sip:u@h").unwrap());
    for i in 0..NameAddr::MAX_PARAM_COUNT {
        eq(run, "name-addr fill", &i, true, a.insert_param(s(&format!("p{i}")), None).is_ok());
    }
    let full = a.clone();
    eq(run, "name-addr full", &"", (true, &full), (a.insert_param(s("q"), None).is_err(), &a));
    eq(run, "name-addr full, replaced", &"", (Ok(Some(None)), Some(&Some(s("1")))), (a.insert_param(s("P3"), Some(s("1"))), a.get_param("p3")));
    let mut v = ViaHeader::new("UDP", "h").unwrap();
    let mut n = 0;
    while n < 1000 && v.add_param(format!("p{n}"), None::<&str>).is_ok() {
        n += 1;
    }
    eq(run, "Via full", &n, (true, true), (v.clone().set_param("q", Some("1")).is_err(), v.clone().with_param("q", Some("1")).is_err()));
    eq(run, "Via full, replaced", &n, (true, Some(&Some(s("1")))), (v.set_param("P3", Some("1")).is_ok(), v.param("p3")));
}

/// Names that are the same in any letter case, and text that is kept as written.
fn letter_case(run: &Run) {
    let cases = |t: &str| [t.to_string(), t.to_uppercase(), t.to_lowercase(), t.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()];
    for p in ["foo", "Foo", "X.850", "Q.851", "Q.85", "SIPS", "Sdp", "sip", "q.850"] {
        let known = ["SIP", "Q.850", "SDP"].into_iter().find(|k| k.eq_ignore_ascii_case(p));
        for v in [p.to_string(), format!("{p};cause=16")] {
            let Some(h) = sip_parse::parse_reason_header(&s(&v)) else {
                run.violation(format!("Reason refused {v:?}"), "");
                continue;
            };
            eq(run, "Reason protocol", &v, (known.unwrap_or(p), known == Some("Q.850"), known == Some("SIP")), (h.protocol(), h.is_q850(), h.is_sip()));
        }
    }
    for p in ["foo", "Foo", "sIp", "q.850", "SDP", "SDPs"] {
        let known = ["SIP", "Q.850", "SDP"].into_iter().find(|k| k.eq_ignore_ascii_case(p));
        let params = std::collections::BTreeMap::from([(s("Cause"), Some(s("16"))), (s("x"), None)]);
        let h = ReasonHeader::new(p, params);
        eq(run, "Reason made", &p, Ok((known.unwrap_or(p).to_string(), Some(16))), h.map(|h| (h.protocol().to_string(), h.cause_code())));
    }
    // as many entries as a History-Info may have, in either way of making it
    let e = HistoryInfoEntry::new(Uri::parse("sip:a@h").unwrap());
    let max = sip_core::history_info::MAX_ENTRIES;
    let mut h = HistoryInfoHeader::single(e.clone());
    for i in 1..max {
        eq(run, "History-Info push", &i, true, h.push(e.clone()).is_ok());
    }
    eq(run, "History-Info full", &"", (true, max), (h.push(e.clone()).is_err(), h.len()));
    eq(run, "History-Info made full", &"", (true, true), (HistoryInfoHeader::new(vec![e.clone(); max]).is_ok(), HistoryInfoHeader::new(vec![e; max + 1]).is_err()));
    for e in cases("early-only") {
        for (t, f) in cases("to-tag").into_iter().zip(cases("from-tag")) {
            for (tt, ft) in [("a", "b"), ("0", "b"), ("a", "0"), ("A", "a")] {
                for swap in [false, true] {
                    let (x, y) = (format!(";{t}={tt}"), format!(";{f}={ft}"));
                    let v = if swap { format!("c@h{y};{e}{x}") } else { format!("c@h{x}{y};{e}") };
                    eq(run, "Replaces", &v, Ok(("c@h".to_string(), tt.to_string(), ft.to_string(), true)), ReplacesHeader::parse(&v).map(|h| (h.call_id().to_string(), h.to_tag().to_string(), h.from_tag().to_string(), h.is_early_only())));
                }
            }
        }
    }
    for (t, m) in [("tls", SecurityMechanism::Tls), ("digest", SecurityMechanism::Digest), ("ipsec-ike", SecurityMechanism::IpsecIke), ("ipsec-man", SecurityMechanism::IpsecMan)] {
        for v in cases(t) {
            eq(run, "Security mechanism", &v, Ok(&m), SecurityMechanism::parse(&v).as_ref());
            eq(run, "Security mechanism text", &v, t, m.as_str());
        }
    }
    let names = ["q", "Q", "d-alg", "D-ALG"];
    for n in 1..=3 {
        sequences(run, 8, n, |seq| {
            let mut e = SecurityEntry::tls();
            let mut want = std::collections::BTreeMap::new();
            for &i in seq {
                let v = if i < 4 { "0.5" } else { "0.25" };
                eq(run, "Security set", &(seq, i), true, e.set_param(names[i % 4], Some(v)).is_ok());
                want.insert(names[i % 4].to_lowercase(), v);
            }
            run.trace();
            for k in names {
                eq(run, "Security param", &(seq, k), want.get(&k.to_lowercase()).map(|v| Some(s(v))).as_ref(), e.get_param(k));
            }
            eq(run, "Security params", &seq, want.len(), e.params().len());
        });
    }
    for k in cases("id") {
        for (v, id) in [(format!("presence;{k}=5"), Some("5")), (format!("presence;x=1;{k}=\"a b\""), None), (format!("presence;x=\";{k}=5\""), None), (format!("presence;x{k}=5"), None)] {
            let h = sip_parse::parse_event_header(&s(&v));
            if let Some(h) = h {
                eq(run, "Event id", &v, (id, "presence"), (h.id(), h.package()));
            } else {
                run.check(v.contains('"'), || format!("Event refused {v:?}"), String::new);
            }
        }
    }
    // default texts of causes that are answers
    for (c, t) in [
        (100, "Trying"), (180, "Ringing"), (181, "Call Is Being Forwarded"), (182, "Queued"), (183, "Session Progress"), (200, "OK"), (202, "Accepted"), (300, "Multiple Choices"), (301, "Moved Permanently"),
        (302, "Moved Temporarily"), (305, "Use Proxy"), (380, "Alternative Service"), (400, "Bad Request"), (401, "Unauthorized"), (402, "Payment Required"), (403, "Forbidden"), (404, "Not Found"),
        (405, "Method Not Allowed"), (406, "Not Acceptable"), (407, "Proxy Authentication Required"), (408, "Request Timeout"), (410, "Gone"), (413, "Request Entity Too Large"), (415, "Unsupported Media Type"),
        (420, "Bad Extension"), (421, "Extension Required"), (423, "Interval Too Brief"), (480, "Temporarily Unavailable"), (481, "Call/Transaction Does Not Exist"), (482, "Loop Detected"), (483, "Too Many Hops"),
        (484, "Address Incomplete"), (485, "Ambiguous"), (486, "Busy Here"), (487, "Request Terminated"), (488, "Not Acceptable Here"), (491, "Request Pending"), (493, "Undecipherable"),
        (500, "Server Internal Error"), (501, "Not Implemented"), (502, "Bad Gateway"), (503, "Service Unavailable"), (504, "Server Time-out"), (600, "Busy Everywhere"), (603, "Decline"), (604, "Does Not Exist Anywhere"),
    ] {
        if let Ok(h) = ReasonHeader::sip(c, None) {
            eq(run, "Reason default text", &c, Some(t), h.text());
        }
    }
}
