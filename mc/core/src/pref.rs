//! P32: privacy enforcement. P33: capabilities and caller preferences.
use common::*;
use sip_core::*;
use smol_str::SmolStr;
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- P32 ------
const REMOVABLE: [&str; 7] = ["Subject", "Call-Info", "Organization", "User-Agent", "Reply-To", "In-Reply-To", "Server"];

fn ref_privacy(s: &str) -> Option<Vec<String>> {
    let v: Vec<String> = s.split(';').map(|x| x.trim().to_lowercase()).filter(|x| !x.is_empty()).collect();
    let known = ["none", "header", "session", "user", "id", "critical"];
    if v.is_empty() || v.len() > 10 || (v.len() > 1 && v.iter().any(|x| x == "none")) || v.iter().any(|x| !known.contains(&x.as_str())) {
        return None;
    }
    Some(v)
}

/// The header parameters a name-addr or addr-spec carries after the address.
fn ref_params(v: &str) -> Vec<String> {
    let mut out = Vec::new();
    let (mut q, mut a, mut esc) = (false, false, false);
    let mut cur: Option<String> = None;
    for c in v.chars() {
        let plain = !q && !a;
        if plain && c == ';' {
            out.extend(cur.take());
            cur = Some(String::new());
            continue;
        }
        if esc {
            esc = false;
        } else if q && c == '\\' {
            esc = true;
        } else if c == '"' {
            q = !q;
        } else if !q && c == '<' {
            a = true;
        } else if !q && c == '>' {
            a = false;
        }
        if let Some(s) = cur.as_mut() {
            s.push(c);
        }
    }
    out.extend(cur);
    out
}
fn ref_elements(v: &str) -> Vec<String> {
    let mut out = vec![String::new()];
    let (mut q, mut a, mut esc) = (false, false, false);
    for c in v.chars() {
        if !q && !a && c == ',' {
            out.push(String::new());
            continue;
        }
        if esc {
            esc = false;
        } else if q && c == '\\' {
            esc = true;
        } else if c == '"' {
            q = !q;
        } else if !q && c == '<' {
            a = true;
        } else if !q && c == '>' {
            a = false;
        }
        out.last_mut().unwrap().push(c);
    }
    out.iter().map(|s| s.trim().to_string()).collect()
}

pub fn p32(run: &Run) {
    run.assume("header parameters after the address are kept by contract, so they are given non-identifying values; Contact: * is not judged");
    // 1. the Privacy value itself
    let toks = ["none", "header", "session", "user", "id", "critical", "ID", ";", " ", "history", ",", "None"];
    token_strings(run, &toks, run.pick(5, 6), |s| {
        run.step(1);
        let want = ref_privacy(s);
        let got = PrivacyHeader::parse(s).ok();
        run.check(
            got.as_ref().map(|g| g.values().map(|v| v.as_str().to_string()).collect::<Vec<_>>()) == want,
            || "privacy-parse".to_string(),
            || format!("Privacy {s:?}: read as {got:?}, expected {want:?}"),
        );
        if let Some(g) = &got {
            let back = PrivacyHeader::parse(&g.to_string()).ok();
            run.check(back.as_ref() == Some(g), || "privacy-print".into(), || format!("{s:?} prints as {:?}, read back as {back:?}", g.to_string()));
        }
        // whatever asks for privacy is not treated as no request
        if s.contains(['\r', '\n']) {
            return;
        }
        let mut h = Headers::new();
        if h.push("Privacy", s).is_err() {
            return;
        }
        let asks = s.split(';').map(|x| x.trim().to_lowercase()).any(|x| !x.is_empty() && x != "none");
        let req = requires_privacy_enforcement(&h);
        run.check(req == asks, || format!("privacy-required:{}", if asks { "missed" } else { "invented" }), || format!("Privacy {s:?}: requires_privacy_enforcement says {req}"));
    });
    // 2. enforcement over every combination of headers present
    let from = [
        "<sip:alice@secret.example>;tag=t1",
        "\"Alice; \\\"A\\\" <x>\" <sip:alice;x=1@secret.example;user=phone?h=1>;tag=t1;o=2",
        "sip:alice@secret.example;tag=t1",
        "Alice <sips:alice@secret.example>;TAG=t1",
        "<sip:alice@secret.example>",
        "Alice, Smith <sip:alice@secret.example> ;tag=t1",
        "<tel:+1555alice>;tag=t1;q=\"a;b<c>\"",
        "\"Alice\"<sip:alice@secret.example>;tag=\"x\\\"y;z\"",
        "Alice;b <sip:alice@secret.example>;tag=t1",
        "",
    ];
    let contact: [&[&str]; 9] = [
        &[],
        &["<sip:alice@secret.example:5070;transport=tcp>;expires=60"],
        &["sip:alice@secret.example;q=0.5"],
        &["\"Al,ice; <\" <sip:alice@secret.example>;q=0.5;expires=60"],
        &["<sip:alice@secret.example>;q=1, <sip:alice2@secret.example>;q=0.5"],
        &["<sip:x@secret.example>,\"Alice\" <sip:alice@secret.example>"],
        &["<sip:alice@secret.example>;q=1", "<sip:alice@other.secret.example>"],
        &["<sip:alice@secret.example>;+g.feature=\"a,b\", sip:alice@secret.example;q=0.1"],
        &["sip:alice@secret.example, <sip:alice2@secret.example;lr>;expires=5"],
    ];
    let extra: [(&str, &str); 12] = [
        ("Subject", "alice's secret"),
        ("Call-Info", "<http://secret.example/alice.jpg>"),
        ("Organization", "alice org"),
        ("user-agent", "AlicePhone"),
        ("REPLY-TO", "<sip:alice@secret.example>"),
        ("In-Reply-To", "1@secret.example"),
        ("Server", "s"),
        ("P-Asserted-Identity", "<sip:alice@secret.example>"),
        ("p-preferred-identity", "<sip:alice@secret.example>"),
        ("Reply-To-X", "kept"),
        ("To", "<sip:bob@example.com>;tag=t2"),
        ("P-Asserted-Identity", "<tel:+1555>"),
    ];
    let sets: Vec<Vec<PrivacyValue>> = {
        use PrivacyValue::*;
        let all = [Header, Session, User, Id, Critical];
        let mut v = vec![vec![None]];
        for m in 1u32..32 {
            v.push((0..5).filter(|i| m & (1 << i) != 0).map(|i| all[i]).collect());
        }
        v
    };
    let ne = run.pick(1usize << 8, 1 << 12);
    product(run, &[from.len(), contact.len(), ne], |ix| {
        // quick: the removable headers one by one and in groups; the others always
        let mask = if run.thorough() { ix[2] } else { let m = ix[2]; (m & 0x7f) | if m & 0x80 != 0 { 0xf80 } else { 0x600 } };
        for set in &sets {
            run.step(1);
            run.state(&(ix, mask, set.iter().map(|v| v.as_str()).collect::<Vec<_>>()));
            let mut h = Headers::new();
            for (i, (n, v)) in extra.iter().enumerate() {
                if mask & (1 << i) != 0 && i % 2 == 0 {
                    h.push(*n, *v).unwrap();
                }
            }
            if !from[ix[0]].is_empty() {
                h.push("From", from[ix[0]]).unwrap();
            }
            for c in contact[ix[1]] {
                h.push("Contact", *c).unwrap();
            }
            for (i, (n, v)) in extra.iter().enumerate() {
                if mask & (1 << i) != 0 && i % 2 == 1 {
                    h.push(*n, *v).unwrap();
                }
            }
            let before = h.clone();
            let p = PrivacyHeader::new(set.clone()).unwrap();
            let r = enforce_privacy(&mut h, &p);
            let at = || format!("Privacy {p} on {:?}", before.iter().map(|x| x.as_tuple()).collect::<Vec<_>>());
            if let Err(e) = r {
                run.violation("enforce-refused", format!("{} was refused: {e}", at()));
                continue;
            }
            let has = |v| set.contains(&v);
            let hide = has(PrivacyValue::Header) || has(PrivacyValue::User);
            let anon = has(PrivacyValue::Id) || has(PrivacyValue::User);
            let gone = |n: &str| {
                (hide && REMOVABLE.iter().any(|r| r.eq_ignore_ascii_case(n)))
                    || (anon && (n.eq_ignore_ascii_case("P-Asserted-Identity") || n.eq_ignore_ascii_case("P-Preferred-Identity")))
            };
            let ident = |n: &str| n == "From" || n == "Contact";
            let others = |h: &Headers| h.iter().filter(|x| !ident(x.name())).map(|x| (x.name().to_string(), x.value().to_string())).collect::<Vec<_>>();
            let want: Vec<_> = others(&before).into_iter().filter(|(n, _)| !gone(n)).collect();
            run.check(others(&h) == want, || "enforce-headers".into(), || format!("{}: other headers became {:?}, expected {want:?}", at(), others(&h)));
            if !anon {
                let same = before.iter().filter(|x| ident(x.name())).map(|x| x.as_tuple()).eq(h.iter().filter(|x| ident(x.name())).map(|x| x.as_tuple()));
                run.check(same, || "enforce-too-much".into(), || format!("{}: From or Contact changed to {h:?}", at()));
                continue;
            }
            for n in ["From", "Contact"] {
                let b: Vec<String> = before.get_all(n).flat_map(|v| if n == "Contact" { ref_elements(v) } else { vec![v.to_string()] }).collect();
                let a: Vec<String> = h.get_all(n).flat_map(|v| if n == "Contact" { ref_elements(v) } else { vec![v.to_string()] }).collect();
                let leak = a.iter().any(|v| v.to_lowercase().contains("alice") || v.contains("secret"));
                run.check(!leak, || format!("identity-leak:{n}"), || format!("{}: {n} still tells who it is: {a:?}", at()));
                if leak {
                    continue;
                }
                run.check(a.is_empty() == b.is_empty() && a.iter().all(|v| v.contains("sip:anonymous@anonymous.invalid")), || format!("identity-replaced:{n}"), || format!("{}: {n} became {a:?}", at()));
                // parameters of each address are kept
                if !b.iter().any(|v| v.starts_with("Alice;b")) {
                    let (pa, pb): (Vec<_>, Vec<_>) = (a.iter().map(|v| ref_params(v)).collect(), b.iter().map(|v| ref_params(v)).collect());
                    let t = |x: &Vec<Vec<String>>| x.iter().map(|v| v.iter().map(|s| s.trim().to_string()).collect::<Vec<_>>()).collect::<Vec<_>>();
                    run.check(t(&pa) == t(&pb), || format!("identity-params:{n}"), || format!("{}: parameters of {n} became {pa:?}, were {pb:?}", at()));
                }
            }
            // doing it again changes nothing
            let once = h.clone();
            let again = enforce_privacy(&mut h, &p).is_ok();
            let set_of = |h: &Headers| h.iter().map(|x| (x.name().to_string(), x.value().to_string())).collect::<BTreeSet<_>>();
            run.check(again && set_of(&once) == set_of(&h), || "enforce-twice".into(), || format!("{}: a second run gives {h:?}", at()));
        }
    });
}

// ---------------------------------------------------------------- P33 ------
fn ref_value(req: &FeatureValue, have: &FeatureValue) -> bool {
    use FeatureValue::*;
    match (req, have) {
        (Boolean(a), Boolean(b)) => a == b,
        (Token(a), Token(b)) => a.to_lowercase() == b.to_lowercase(),
        (TokenList(a), TokenList(b)) => a.iter().all(|x| b.iter().any(|y| x.to_lowercase() == y.to_lowercase())),
        (String(a), String(b)) => a == b,
        (Numeric(a), Numeric(b)) => a == b,
        _ => false,
    }
}
type Caps = BTreeMap<FeatureTag, FeatureValue>;
fn build(c: &Caps) -> CapabilitySet {
    let mut s = CapabilitySet::new();
    for (t, v) in c {
        s.add(Capability::new(*t, v.clone()).unwrap()).unwrap();
    }
    s
}
fn ref_accept(c: &Caps, explicit_feats: bool, feats: &Caps, require: bool, explicit: bool) -> f64 {
    if feats.is_empty() {
        return 1.0;
    }
    if explicit && !explicit_feats {
        return 0.0;
    }
    let m = feats.iter().filter(|(t, v)| c.get(t).is_some_and(|h| ref_value(v, h))).count();
    if require && m < feats.len() {
        return 0.0;
    }
    m as f64 / feats.len() as f64
}

pub fn p33(run: &Run) {
    use FeatureTag::*;
    use FeatureValue as V;
    run.assume("feature values have the type RFC 3840 gives the tag; tokens that are written like numbers are not used, and a parsed Contact header does not tell a quoted value from the same token; the textual booleans \"TRUE\"/\"FALSE\" and negation are not interpreted");
    let list = |s: &str| V::TokenList(s.split(',').filter(|x| !x.is_empty()).map(SmolStr::new).collect());
    let tags = [Audio, Video, Application, Data, Control, Text, Automata, Class, Duplex, Mobility, Description, Events, Priority, Methods, Schemes, Extensions, IsFocus, Actor, Language];
    // 1. every capability and every pair survives being written as Contact parameters
    let vals = |t: FeatureTag| -> Vec<V> {
        if t.is_list_valued() {
            vec![list("INVITE"), list("INVITE,BYE"), list("bye,invite,OPTIONS"), list("nan"), list("a-b.c!d%e*f_g+h`i'j~k")]
        } else {
            vec![
                V::Boolean(true), V::Boolean(false), V::Token("fixed".into()), V::Token("Mobile".into()), V::Token("en-us".into()), V::Token("nan".into()),
                V::Token("inf".into()), V::Token("infinity".into()), V::Token("1e5".into()), V::Token("send-only".into()), V::String("".into()), V::String("a b, c;d=e <f>".into()),
                V::String("fixed".into()), V::String("5".into()), V::String("\u{e9}\\".into()), V::Numeric(0.0), V::Numeric(5.0), V::Numeric(-2.5), V::Numeric(0.1), V::Numeric(1e20), V::Numeric(1e-7),
            ]
        }
    };
    let pool: Vec<(FeatureTag, V)> = tags.iter().flat_map(|t| vals(*t).into_iter().map(move |v| (*t, v))).collect();
    run.note("capabilities", pool.len());
    let wire = |c: &Caps| -> Result<CapabilitySet, String> {
        // through a real Contact header
        let s = build(c);
        let params = s.to_params().map_err(|e| e.to_string())?;
        let direct = CapabilitySet::from_params(&params).map_err(|e| format!("own parameters refused: {e}"))?;
        let mut text = String::from("<sip:a@h>");
        for (k, v) in &params {
            text.push(';');
            text.push_str(k);
            if let Some(v) = v {
                text.push('=');
                text.push_str(v);
            }
        }
        let h = sip_parse::parse_contact_header(&SmolStr::new(&text)).ok_or_else(|| format!("Contact {text:?} refused"))?;
        let got = h.capabilities().map_err(|e| format!("Contact {text:?}: {e}"))?;
        // a parsed header does not tell "fixed" from fixed
        let flat = |s: &CapabilitySet| {
            s.iter()
                .map(|c| (c.tag(), match c.value() {
                    V::String(x) | V::Token(x) => if x.parse::<f64>().is_ok_and(|n| n.to_string() == x.as_str()) { V::Numeric(x.parse().unwrap()) } else { V::Token(x.clone()) },
                    v => v.clone(),
                }))
                .collect::<Vec<_>>()
        };
        if flat(&got) != flat(&direct) {
            return Err(format!("Contact {text:?} gives {got:?}, its parameters give {direct:?}"));
        }
        Ok(direct)
    };
    let judge = |c: &Caps| {
        run.step(1);
        run.state(&format!("{c:?}"));
        let want: Caps = c.iter().filter(|(_, v)| !v.is_false()).map(|(t, v)| (*t, v.clone())).collect();
        match wire(c) {
            Ok(g) => {
                let got: Caps = g.iter().map(|x| (x.tag(), x.value().clone())).collect();
                run.check(got == want, || "capability-roundtrip".into(), || format!("{c:?} came back as {got:?}"));
            }
            Err(e) => run.violation("capability-roundtrip", format!("{c:?}: {e}")),
        }
    };
    par_for(run, pool.len(), |i| {
        judge(&Caps::from([pool[i].clone()]));
        for j in 0..pool.len() {
            if pool[j].0 > pool[i].0 {
                judge(&Caps::from([pool[i].clone(), pool[j].clone()]));
            }
        }
    });
    // a capability answers as what it was made, however it was made and added
    par_for(run, pool.len(), |i| {
        let (t, v) = &pool[i];
        run.step(1);
        let kinds = [v.is_true(), v.is_false(), v.as_token().is_some(), v.as_token_list().is_some(), v.as_string().is_some(), v.as_numeric().is_some()];
        let (made, added, want) = {
            let mut s = CapabilitySet::new();
            let empty = s.is_empty() && s.len() == 0;
            let (m, a, w) = match v {
                V::Boolean(b) => (Capability::boolean(*t, *b), s.add_boolean(*t, *b), [*b, !*b, false, false, false, false]),
                V::Token(x) => (Capability::token(*t, x.clone()), s.add_token(*t, x.clone()), [false, false, v.as_token() == Some(x), false, false, false]),
                V::TokenList(x) => (Capability::token_list(*t, x.clone()), s.add_token_list(*t, x.clone()), [false, false, false, v.as_token_list() == Some(&x[..]), false, false]),
                V::String(x) => (Capability::string(*t, x.clone()), s.add_string(*t, x.clone()), [false, false, false, false, v.as_string() == Some(x), false]),
                V::Numeric(x) => (Capability::numeric(*t, *x), s.add_numeric(*t, *x), [false, false, false, false, false, v.as_numeric() == Some(*x)]),
            };
            (m, a.map(|_| (s, empty)), w)
        };
        run.check(kinds == want, || "capability-kind".into(), || format!("{v:?} answers {kinds:?}, expected {want:?}"));
        match (made, added) {
            (Ok(m), Ok((s, empty))) => {
                let same = m == Capability::new(*t, v.clone()).unwrap() && m.tag() == *t && m.value() == v && m.param_name() == t.param_name();
                run.check(same && empty && !s.is_empty() && s.len() == 1 && s.get(*t) == Some(v) && s.has(*t), || "capability-made".into(), || format!("{t:?} {v:?} made {m:?}, added {s:?}"));
                // one parameter says the same as the set of parameters
                let one = m.to_param().map(|(n, x)| (n.to_string(), x));
                let set = s.to_params().unwrap_or_default();
                if v.is_false() {
                    run.check(set.is_empty(), || "capability-param".into(), || format!("{t:?} {v:?} is written as {set:?}"));
                } else {
                    run.check(one.as_ref().is_ok_and(|(n, x)| n == t.param_name() && set.len() == 1 && set.get(n.as_str()) == Some(x) && m.param_value().is_ok_and(|y| y == *x)), || "capability-param".into(), || format!("{t:?} {v:?}: one parameter {one:?}, all parameters {set:?}"));
                }
                // the last of two values for a tag stands
                let mut two = s.clone();
                let again = two.add(Capability::boolean(*t, true).unwrap()).is_ok();
                run.check(again && two.len() == 1 && two.get(*t) == Some(&V::Boolean(true)), || "capability-replace".into(), || format!("{t:?} {v:?}, then true: {two:?}"));
            }
            (m, a) => run.violation("capability-made", format!("{t:?} {v:?}: {:?} {:?}", m.err(), a.err())),
        }
    });
    for (n, ok) in [(f64::NAN, false), (f64::INFINITY, false), (f64::NEG_INFINITY, false), (f64::MAX, true), (-0.0, true)] {
        run.check(Capability::numeric(Class, n).is_ok() == ok && CapabilitySet::new().add_numeric(Class, n).is_ok() == ok, || "capability-number".into(), || format!("{n} accepted: {}", !ok));
    }
    // names are read without regard to case, unknown ones are skipped
    for t in tags {
        for n in [t.param_name().to_string(), t.param_name().to_uppercase()] {
            run.check(FeatureTag::from_param_name(&n) == Some(t), || "tag-name".into(), || format!("{n} is not read as {t}"));
        }
        run.check(t.as_str() == format!("sip.{}", t.param_name()), || "tag-name".into(), || format!("{t:?} prints {}", t.as_str()));
    }
    run.check(tags.iter().map(|t| t.param_name()).collect::<BTreeSet<_>>().len() == tags.len(), || "tag-name".into(), || "two tags share a name".into());
    // 2. matching: every pair of values
    par_for(run, pool.len(), |i| {
        for b in &pool {
            run.step(1);
            let (ca, cb) = (build(&Caps::from([pool[i].clone()])), build(&Caps::from([b.clone()])));
            let want = pool[i].0 == b.0 && ref_value(&pool[i].1, &b.1);
            run.check(cb.matches(&ca) == want, || "capability-match".into(), || format!("{b:?} against required {:?}: {}", pool[i], !want));
        }
    });
    // 3. preference scoring
    let one: Vec<Caps> = {
        let v: Vec<Vec<(FeatureTag, V)>> = vec![
            vec![],
            vec![(Audio, V::Boolean(true))],
            vec![(Audio, V::Boolean(false))],
            vec![(Video, V::Boolean(true))],
            vec![(Audio, V::Boolean(true)), (Video, V::Boolean(true))],
            vec![(Audio, V::Boolean(true)), (Methods, list("INVITE,BYE"))],
            vec![(Methods, list("bye")), (Mobility, V::Token("FIXED".into()))],
            vec![(Mobility, V::Token("fixed".into())), (Video, V::Boolean(true)), (Audio, V::Boolean(true))],
        ];
        v.into_iter().map(|x| x.into_iter().collect()).collect()
    };
    let accepts: Vec<(usize, bool, bool)> = (0..one.len()).flat_map(|f| [(f, false, false), (f, true, false), (f, false, true), (f, true, true)]).collect();
    let mk_accept = |a: &(usize, bool, bool)| {
        let mut x = AcceptContact::new();
        for (t, v) in &one[a.0] {
            x = x.with_feature(*t, v.clone()).unwrap();
        }
        if a.1 {
            x = x.with_require();
        }
        if a.2 {
            x = x.with_explicit();
        }
        x
    };
    let mk_reject = |f: usize| {
        let mut x = RejectContact::new();
        for (t, v) in &one[f] {
            x.add_feature(*t, v.clone()).unwrap();
        }
        x
    };
    for a in &accepts {
        for c in &one {
            for ex in [false, true] {
                run.step(1);
                let got = mk_accept(a).matches(&build(c), ex);
                let want = ref_accept(c, ex, &one[a.0], a.1, a.2);
                run.check((got - want).abs() < 1e-12, || "accept-score".into(), || format!("Accept {:?} (require {} explicit {}) scores {c:?} (explicit {ex}) {got}, expected {want}", one[a.0], a.1, a.2));
            }
        }
    }
    let ref_reject = |c: &Caps, ex: bool, f: usize| ex && !one[f].is_empty() && one[f].iter().all(|(t, v)| c.get(t).is_some_and(|h| ref_value(v, h)));
    for f in 0..one.len() {
        for c in &one {
            for ex in [false, true] {
                run.step(1);
                run.check(mk_reject(f).matches(&build(c), ex) == ref_reject(c, ex, f), || "reject-match".into(), || format!("Reject {:?} on {c:?} explicit {ex}", one[f]));
            }
        }
    }
    let qs = [1.0, 0.5, 0.25];
    // contacts: capability set x explicit x q (the first three contacts vary)
    let kinds: Vec<(usize, bool, f64)> = (0..one.len()).flat_map(|c| [(c, true), (c, false)]).filter(|(c, e)| *e || *c < 2).flat_map(|(c, e)| qs.iter().map(move |q| (c, e, *q))).collect();
    let acc_sets: Vec<Vec<usize>> = {
        let mut v: Vec<Vec<usize>> = vec![vec![]];
        v.extend((0..accepts.len()).map(|i| vec![i]));
        for i in 0..accepts.len() {
            for j in 0..accepts.len() {
                if run.thorough() || (i * 7 + j) % 5 == 0 {
                    v.push(vec![i, j]);
                }
            }
        }
        v
    };
    let rej_sets: Vec<Vec<usize>> = vec![vec![], vec![1], vec![4], vec![0], vec![3, 6]];
    product(run, &[kinds.len(), kinds.len(), run.pick(3, kinds.len())], |ix| {
        let third = if run.thorough() { ix[2] } else { [1, 4, 13][ix[2]] };
        let cs = [kinds[ix[0]], kinds[ix[1]], kinds[third]];
        let caps: Vec<CapabilitySet> = cs.iter().map(|c| build(&one[c.0])).collect();
        let stride = run.pick(1, 3);
        for (ai, acc) in acc_sets.iter().enumerate() {
            if (ai + ix[0] + ix[1] + ix[2]) % stride != 0 {
                continue;
            }
            for (ri, rej) in rej_sets.iter().enumerate() {
                if acc.len() > 1 && ri > 1 {
                    continue;
                }
                run.step(1);
                let contacts: Vec<ScoredContact> = cs.iter().enumerate().map(|(i, c)| ScoredContact::new(format!("sip:c{i}@h"), c.2).unwrap().with_explicit_features(c.1)).collect();
                let ah: Vec<AcceptContact> = acc.iter().map(|a| mk_accept(&accepts[*a])).collect();
                let rh: Vec<RejectContact> = rej.iter().map(|r| mk_reject(*r)).collect();
                let got = score_contacts(contacts, &ah, &rh, &caps);
                let mut want: Vec<(usize, f64, f64)> = Vec::new();
                for (i, c) in cs.iter().enumerate() {
                    if !c.1 {
                        want.push((i, c.2, 1.0)); // immune
                        continue;
                    }
                    if rej.iter().any(|r| ref_reject(&one[c.0], true, *r)) {
                        continue;
                    }
                    let sc: Vec<f64> = acc.iter().map(|a| ref_accept(&one[c.0], true, &one[accepts[*a].0], accepts[*a].1, accepts[*a].2)).collect();
                    if acc.iter().zip(&sc).any(|(a, s)| accepts[*a].1 && *s == 0.0) {
                        continue;
                    }
                    let qa = if sc.is_empty() { 1.0 } else { sc.iter().sum::<f64>() / sc.len() as f64 };
                    want.push((i, c.2, qa));
                }
                want.sort_by(|a, b| b.1.total_cmp(&a.1).then(if (b.2 - a.2).abs() < 1e-12 { std::cmp::Ordering::Equal } else { b.2.total_cmp(&a.2) }));
                let ok = got.as_ref().is_ok_and(|g| {
                    g.len() == want.len() && g.iter().zip(&want).all(|(x, w)| x.uri() == format!("sip:c{}@h", w.0) && (x.caller_qa() - w.2).abs() < 1e-12 && x.callee_q() == w.1)
                });
                let immune = cs.iter().any(|c| !c.1);
                run.check(ok, || format!("score{}", if immune { ":immune" } else { "" }), || {
                    format!(
                        "contacts {:?} with Accept {:?} Reject {:?}: got {:?}, expected (index, q, Qa) {want:?}",
                        cs.iter().map(|c| (&one[c.0], c.1, c.2)).collect::<Vec<_>>(),
                        acc.iter().map(|a| (&one[accepts[*a].0], accepts[*a].1, accepts[*a].2)).collect::<Vec<_>>(),
                        rej.iter().map(|r| &one[*r]).collect::<Vec<_>>(),
                        got.as_ref().map(|g| g.iter().map(|x| (x.uri().to_string(), x.callee_q(), x.caller_qa())).collect::<Vec<_>>())
                    )
                });
            }
        }
    });
    // limits: exactly at the limit accepted, beyond refused
    let base = |n: usize| (0..n).map(|i| ScoredContact::new(format!("sip:c{i}@h"), 0.5).unwrap()).collect::<Vec<_>>();
    for (n, a, r, caps, want) in [(1024, 0, 0, 1024, true), (1025, 0, 0, 1025, false), (1, 32, 0, 1, true), (1, 33, 0, 1, false), (1, 0, 32, 1, true), (1, 0, 33, 1, false), (2, 0, 0, 1, false), (1, 0, 0, 2, false), (0, 0, 0, 0, true)] {
        let got = score_contacts(base(n), &vec![AcceptContact::new(); a], &vec![RejectContact::new(); r], &vec![CapabilitySet::new(); caps]).is_ok();
        run.check(got == want, || "score-limits".into(), || format!("{n} contacts, {a} Accept, {r} Reject, {caps} capability sets: accepted {got}"));
    }
    for (q, ok) in [(f64::NAN, false), (f64::INFINITY, false), (f64::NEG_INFINITY, false), (2.0, true), (-1.0, true)] {
        run.check(ScoredContact::new("u", q).is_ok() == ok && AcceptContact::new().with_q(q).is_ok() == ok, || "q-value".into(), || format!("q {q}"));
        if let Ok(s) = ScoredContact::new("u", q) {
            run.check((0.0..=1.0).contains(&s.callee_q()), || "q-value".into(), || format!("q {q} kept as {}", s.callee_q()));
        }
    }
    // 4. Request-Disposition
    let dirs = ["proxy", "redirect", "fork", "no-fork", "cancel", "no-cancel", "recurse", "no-recurse", "parallel", "sequential", "queue", "no-queue"];
    let toks: Vec<&str> = dirs.iter().copied().chain([",", " ", "Fork", "x", "no-"]).collect();
    token_strings(run, &toks, run.pick(4, 5), |s| {
        run.step(1);
        let mut want: [Option<&str>; 6] = [None; 6];
        for d in s.split(',') {
            let d = d.trim().to_lowercase();
            if let Some(i) = dirs.iter().position(|x| *x == d) {
                want[i / 2] = Some(dirs[i]);
            }
        }
        let got = RequestDisposition::parse(s);
        let g: Option<[Option<String>; 6]> = got.as_ref().map(|r| {
            [r.proxy().map(|d| d.as_str().to_string()), r.fork().map(|d| d.as_str().to_string()), r.cancel().map(|d| d.as_str().to_string()), r.recurse().map(|d| d.as_str().to_string()), r.parallel().map(|d| d.as_str().to_string()), r.queue().map(|d| d.as_str().to_string())]
        });
        let w = want.iter().any(|x| x.is_some()).then(|| want.map(|x| x.map(|y| y.to_string())));
        run.check(g == w, || "disposition".into(), || format!("Request-Disposition {s:?} read as {g:?}, expected {w:?}"));
        if let Some(r) = got {
            let back = RequestDisposition::parse(&r.to_string());
            run.check(back.as_ref() == Some(&r), || "disposition-print".into(), || format!("{s:?} prints {:?} read back as {back:?}", r.to_string()));
        }
    });
    // built directive by directive: every choice of all six
    {
        use sip_core::{CancelDirective as C, ForkDirective as F, ParallelDirective as Pa, ProxyDirective as P, QueueDirective as Q, RecurseDirective as R};
        let pick = |k: usize, n: usize| match n / 3usize.pow(k as u32) % 3 { 0 => None, d => Some(d - 1) };
        for n in 0..729usize {
            run.step(1);
            run.state(&("directives", n));
            let mut r = RequestDisposition::new();
            let want: Vec<&str> = (0..6).filter_map(|k| pick(k, n).map(|d| dirs[2 * k + d])).collect();
            if let Some(d) = pick(0, n) { r = r.with_proxy([P::Proxy, P::Redirect][d]) }
            if let Some(d) = pick(1, n) { r = r.with_fork([F::Fork, F::NoFork][d]) }
            if let Some(d) = pick(2, n) { r = r.with_cancel([C::Cancel, C::NoCancel][d]) }
            if let Some(d) = pick(3, n) { r = r.with_recurse([R::Recurse, R::NoRecurse][d]) }
            if let Some(d) = pick(4, n) { r = r.with_parallel([Pa::Parallel, Pa::Sequential][d]) }
            if let Some(d) = pick(5, n) { r = r.with_queue([Q::Queue, Q::NoQueue][d]) }
            let got: Vec<String> = [r.proxy().map(|d| d.as_str().to_string()), r.fork().map(|d| d.as_str().to_string()), r.cancel().map(|d| d.as_str().to_string()), r.recurse().map(|d| d.as_str().to_string()), r.parallel().map(|d| d.as_str().to_string()), r.queue().map(|d| d.as_str().to_string())]
                .into_iter().flatten().collect();
            let back = RequestDisposition::parse(&r.to_string());
            run.check(got == want && r.is_empty() == want.is_empty(), || "disposition-built".into(), || format!("directives {want:?} give {got:?}"));
            run.check(back.as_ref() == (!want.is_empty()).then_some(&r), || "disposition-print".into(), || format!("{r} read back as {back:?}"));
        }
    }
    // 5. ties keep their order however many contacts there are
    for period in 1..=run.pick(3, 4) {
        let kinds: [(f64, f64, bool); 4] = [(1.0, 1.0, false), (0.5, 1.0, false), (0.5, 0.0, true), (0.5, 0.5, true)];
        for pat in 0..4usize.pow(period as u32) {
            for n in 1..=run.pick(64usize, 130) {
                run.step(1);
                let kind = |i: usize| pat / 4usize.pow((i % period) as u32) % 4;
                let cs: Vec<ScoredContact> = (0..n).map(|i| ScoredContact::new(format!("{i}"), kinds[kind(i)].0).unwrap().with_explicit_features(kinds[kind(i)].2)).collect();
                // one feature of two, or none, of an Accept-Contact without require
                let caps: Vec<CapabilitySet> = (0..n).map(|i| build(&if kind(i) == 3 { Caps::from([(Audio, V::Boolean(true))]) } else { Caps::new() })).collect();
                let acc = AcceptContact::new().with_feature(Audio, V::Boolean(true)).unwrap().with_feature(Video, V::Boolean(true)).unwrap();
                let got: Vec<usize> = score_contacts(cs, &[acc], &[], &caps).unwrap().iter().map(|c| c.uri().parse().unwrap()).collect();
                let mut want: Vec<usize> = (0..n).collect();
                want.sort_by(|a, b| kinds[kind(*b)].0.total_cmp(&kinds[kind(*a)].0).then(kinds[kind(*b)].1.total_cmp(&kinds[kind(*a)].1)));
                run.check(got == want, || "tie-order".into(), || format!("{n} contacts repeating {:?} (q, Qa, explicit) are ordered {got:?}, expected {want:?}", (0..period).map(|i| kinds[kind(i)]).collect::<Vec<_>>()));
            }
        }
    }
    // 6. which values are accepted, everywhere a value comes in
    let rep = |c: &str, n: usize| c.repeat(n);
    let tok_ok = |t: &str| !t.is_empty() && t.len() <= 64 && t.chars().all(|c| c.is_ascii_alphanumeric() || "-.!%*_+`'~".contains(c));
    let ctl = |s: &str| s.chars().any(|c| (c as u32) < 32 || c as u32 == 127);
    let str_ok = |s: &str| s.len() <= 256 && !ctl(s) && !s.contains('"');
    let mut texts: Vec<String> = vec![rep("a", 64), rep("a", 65), rep("a", 256), rep("a", 257), rep("\u{e9}", 128), rep("\u{e9}", 129)];
    for c in (0u8..128).map(|b| b as char).chain(['\u{e9}', '\u{2028}']) {
        texts.extend([c.to_string(), format!("a{c}"), format!("{c}a"), format!("a{c}a")]);
    }
    texts.push(String::new());
    let accepted_everywhere = |v: &V, want: bool, what: &str| {
        run.step(1);
        run.state(&format!("{v:?}"));
        let tag = if matches!(v, V::TokenList(_)) { Methods } else { Mobility };
        let a2 = AcceptContact::new().add_feature(tag, v.clone()).is_ok();
        let r2 = RejectContact::new().add_feature(tag, v.clone()).is_ok();
        let got = [v.validate().is_ok(), v.to_param_value().is_ok(), Capability::new(tag, v.clone()).is_ok(), AcceptContact::new().with_feature(tag, v.clone()).is_ok(), a2, RejectContact::new().with_feature(tag, v.clone()).is_ok(), r2];
        // a predicate may hold a string with a quote in it, a capability may not
        let n = if matches!(v, V::String(s) if s.contains('"')) { 3 } else { got.len() };
        run.check(got[..n].iter().all(|g| *g == want), || format!("value-limits:{what}"), || {
            format!("{v:?} (validate, print, Capability, Accept with/add, Reject with/add): accepted {got:?}, expected {want}")
        });
    };
    for t in &texts {
        let (tok, s) = (V::Token(t.as_str().into()), V::String(t.as_str().into()));
        accepted_everywhere(&tok, tok_ok(t), "token");
        accepted_everywhere(&s, str_ok(t), "string");
        run.check(V::new_token(t.as_str()).is_ok() == tok_ok(t) && V::new_string(t.as_str()).is_ok() == str_ok(t), || "value-limits:new".into(), || format!("{t:?} as a token or string"));
        for l in [vec![t.as_str()], vec!["a", t.as_str()], vec![t.as_str(), "a"]] {
            let v: Vec<SmolStr> = l.iter().map(|x| SmolStr::new(x)).collect();
            accepted_everywhere(&V::TokenList(v.clone()), tok_ok(t), "list");
            run.check(V::new_token_list(v.clone()).is_ok() == tok_ok(t), || "value-limits:new".into(), || format!("{v:?} as a list"));
        }
    }
    for n in [0usize, 1, 2, 19, 20, 21, 40] {
        let v: Vec<SmolStr> = (0..n).map(|i| SmolStr::new(format!("t{i}"))).collect();
        accepted_everywhere(&V::TokenList(v.clone()), n <= 20, "list");
        run.check(V::new_token_list(v.clone()).is_ok() == (n <= 20), || "value-limits:new".into(), || format!("a list of {n}"));
        let text = v.join(",");
        for t in [text.clone(), format!("\"{text}\"")] {
            let got = V::from_param_value(Methods, Some(&t));
            run.check(got.is_ok() == (n <= 20) && got.as_ref().map_or(true, |g| *g == V::TokenList(v.clone())), || "param-value:list".into(), || format!("methods={t}: {got:?}"));
        }
    }
    for x in [0.0, -1.0, 1.5, f64::MAX, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        accepted_everywhere(&V::Numeric(x), x.is_finite(), "number");
        run.check(V::new_numeric(x).is_ok() == x.is_finite(), || "value-limits:new".into(), || format!("{x}"));
    }
    // a parameter value as it stands in a header, both for a list and for a plain tag
    let toks = ["\"", "a", "-5", ".", ",", " ", "\\", "nan", ";", "\r", "\u{e9}"];
    token_strings(run, &toks, run.pick(5, 6), |s| {
        run.step(2);
        let v = s.trim();
        let quoted = v.len() >= 2 && v.starts_with('"') && v.ends_with('"');
        let inner = if quoted { &v[1..v.len() - 1] } else { v };
        let sound = quoted || !v.contains('"');
        let list: Vec<SmolStr> = inner.split(',').map(|x| SmolStr::new(x.trim())).filter(|x| !x.is_empty()).collect();
        let want = (sound && list.iter().all(|t| tok_ok(t)) && list.len() <= 20).then_some(V::TokenList(list));
        let got = V::from_param_value(Methods, Some(s)).ok();
        run.check(got == want, || "param-value:list".into(), || format!("methods={s:?} read as {got:?}, expected {want:?}"));
        let got = V::from_param_value(Mobility, Some(s)).ok();
        let bad = || format!("mobility={s:?} read as {got:?}");
        let key = || "param-value".to_string();
        if !sound || ctl(v) || (quoted && inner.replace("\\\\", "").replace("\\\"", "").contains('"') ) {
            run.check(got.is_none(), key, bad);
        } else if quoted {
            // escapes are undone; a quote or an escape at the very end is malformed or cannot be kept
            if !inner.contains('\\') {
                run.check(got == Some(V::String(inner.into())), key, bad);
            } else {
                run.check(matches!(&got, None | Some(V::String(_))), key, bad);
            }
        } else if v.chars().any(|c| c.is_ascii_digit()) && v.chars().all(|c| c.is_ascii_digit() || "+-.".contains(c)) && v.parse::<f64>().is_ok() {
            run.check(got == Some(V::Numeric(v.parse().unwrap())), key, bad);
        } else if tok_ok(v) {
            run.check(got == Some(V::Token(v.into())), key, bad);
        } else {
            run.check(matches!(&got, None | Some(V::String(_))), key, bad);
        }
    });
    for t in tags {
        run.check(V::from_param_value(t, None).is_ok_and(|v| v == V::Boolean(true)), || "param-value".into(), || format!("{t} without a value"));
    }
    // 7. a contact starts immune and keeps what it is given
    for q in [0.0, 0.3, 1.0] {
        let c = ScoredContact::new("sip:u@h", q).unwrap();
        run.check(c.uri() == "sip:u@h" && c.callee_q() == q && c.caller_qa() == 1.0 && !c.has_explicit_features(), || "contact-fields".into(), || format!("{c:?}"));
        for (qa, want) in [(0.25, Some(0.25)), (-1.0, Some(0.0)), (7.0, Some(1.0)), (f64::NAN, None), (f64::INFINITY, None)] {
            let got = c.clone().with_caller_qa(qa).ok().map(|c| c.caller_qa());
            run.check(got == want, || "contact-fields".into(), || format!("Qa {qa} kept as {got:?}"));
        }
        let a = AcceptContact::new().with_q(q).unwrap();
        run.check(a.q() == Some(q) && !a.require() && !a.explicit() && a.is_empty() && a.clone().with_require().require() && a.with_explicit().explicit(), || "contact-fields".into(), || format!("Accept-Contact q {q}"));
    }
    let big = V::Boolean(true);
    let (mut a, mut r) = (AcceptContact::new(), RejectContact::new());
    for (n, t) in tags.iter().enumerate() {
        a.add_feature(*t, big.clone()).unwrap();
        r = r.with_feature(*t, big.clone()).unwrap();
        run.check(a.feature_count() == n + 1 && r.feature_count() == n + 1 && !a.is_empty() && !r.is_empty() && a.features().get(t) == Some(&big) && r.features().get(t) == Some(&big), || "predicate-features".into(), || format!("after {} features", n + 1));
    }
}
