//! P22: signed caller identity.
use base64::engine::general_purpose::URL_SAFE_NO_PAD;
use base64::Engine;
use common::{par_for, product, quiet, token_strings, Run};
use rcgen::{BasicConstraints, CertificateParams, DistinguishedName, DnType, IsCa, KeyPair, PKCS_ECDSA_P256_SHA256};
use ring::rand::SystemRandom;
use ring::signature::{EcdsaKeyPair, KeyPair as _, ECDSA_P256_SHA256_FIXED_SIGNING};
use rustls_pki_types::UnixTime;
use sip_identity::*;
use std::time::Duration;

fn ring_key(k: &KeyPair) -> EcdsaKeyPair {
    EcdsaKeyPair::from_pkcs8(&ECDSA_P256_SHA256_FIXED_SIGNING, &k.serialize_der(), &SystemRandom::new()).unwrap()
}
fn at(s: i64) -> UnixTime {
    UnixTime::since_unix_epoch(Duration::from_secs(s as u64))
}
const T0: i64 = 1_700_000_000;
const T1: i64 = T0 + 1000;
/// A certificate with its key.
struct Cert {
    key: KeyPair,
    cert: rcgen::Certificate,
    from: i64,
    to: i64,
    issuer: Option<usize>,
    ca: bool,
}
impl Cert {
    fn der(&self) -> &[u8] {
        self.cert.der()
    }
}
fn issue(name: &str, ca: bool, from: i64, to: i64, issuer: Option<(usize, &Cert)>) -> Cert {
    issue_for(KeyPair::generate_for(&PKCS_ECDSA_P256_SHA256).unwrap(), name, ca, from, to, issuer)
}
fn issue_for(key: KeyPair, name: &str, ca: bool, from: i64, to: i64, issuer: Option<(usize, &Cert)>) -> Cert {
    let mut p = CertificateParams::new(vec![format!("{name}.test")]).unwrap();
    let mut dn = DistinguishedName::new();
    dn.push(DnType::CommonName, name);
    p.distinguished_name = dn;
    p.is_ca = if ca { IsCa::Ca(BasicConstraints::Unconstrained) } else { IsCa::NoCa };
    p.not_before = time::OffsetDateTime::from_unix_timestamp(from).unwrap();
    p.not_after = time::OffsetDateTime::from_unix_timestamp(to).unwrap();
    let cert = match issuer {
        Some((_, i)) => p.signed_by(&key, &i.cert, &i.key).unwrap(),
        None => p.self_signed(&key).unwrap(),
    };
    Cert { key, cert, from, to, issuer: issuer.map(|i| i.0), ca }
}

/// Both ways of verifying agree, and their verdict is `want`.
fn verdict(run: &Run, token: &str, ee: &Cert, root: &Cert, want: bool, key: impl Fn() -> String) {
    run.step(1);
    let Ok(p) = Passport::decode(token) else {
        run.check(!want, &key, || "the token does not decode".into());
        return;
    };
    let pk = ring_key(&ee.key);
    let a = p.verify_signature(pk.public_key().as_ref()).is_ok();
    let b = p.verify_with_chain(ee.der(), &[], &[root.der()], at(T0 + 500)).is_ok();
    run.check(a == want, &key, || format!("verification under the signing key: {a}"));
    run.check(b == want, &key, || format!("verification under the certificate: {b}"));
}

fn token(header: &str, payload: &str, key: &EcdsaKeyPair) -> String {
    let input = format!("{}.{}", URL_SAFE_NO_PAD.encode(header), URL_SAFE_NO_PAD.encode(payload));
    let sig = key.sign(&SystemRandom::new(), input.as_bytes()).unwrap();
    format!("{input}.{}", URL_SAFE_NO_PAD.encode(sig.as_ref()))
}
const HEADER: &str = r#"{"alg":"ES256","ppt":"shaken","typ":"passport","x5u":"https://c.test/c.crt"}"#;
const PAYLOAD: &str = r#"{"attest":"A","dest":{"tn":["+13035551234"]},"iat":1700000100,"orig":{"tn":"+12155551212"},"origid":"d5b8"}"#;

fn claims(run: &Run, root: &Cert, leaf: &Cert, other: &Cert) {
    let x5u = ["https://c.test/c.crt", "https://c.test/c;v=1?a=b,c&d#e", "https://c.test/%3E", "http://[2001:db8::1]:8080/c'(x)"];
    let tns = ["+12155551212", "5551212", "+1\"2\\3", "é٣", "*31#"];
    let dests: [&[&str]; 5] = [&["+13035551234"], &["+1", "+2"], &["+2", "+1"], &["+1", "+1", "a\"b"], &["é"]];
    let iats = [0i64, 1, -1, T0, i64::MAX, i64::MIN];
    let origids = [None, Some("d5b8f9a0-0000-4000-8000-000000000000"), Some(""), Some("a\"b\\c\n")];
    let att = [AttestationLevel::A, AttestationLevel::B, AttestationLevel::C];
    product(run, &[3, x5u.len(), tns.len(), dests.len(), iats.len(), origids.len()], |v| {
        let p = PassportParams {
            attest: att[v[0]],
            x5u: x5u[v[1]].into(),
            orig_tn: tns[v[2]].into(),
            dest_tns: dests[v[3]].iter().map(|s| s.to_string()).collect(),
            iat: iats[v[4]],
            origid: origids[v[5]].map(|s| s.into()),
        };
        run.state(&v);
        run.step(1);
        let key = || format!("signing {p:?}");
        let rng = SystemRandom::new();
        let s = match sign(&p, &ring_key(&leaf.key), &rng) {
            Ok(s) => s,
            Err(e) => return run.violation(key(), format!("not signed: {e}")),
        };
        let value = s.identity_header_value();
        run.check(value.chars().all(|c| !c.is_control()), key, || format!("control characters in {value:?}"));
        match IdentityHeader::parse(&value) {
            Ok(h) => {
                let c = &h.passport.claims;
                run.check(
                    c.attest == Some(p.attest) && c.orig_tn.as_ref() == Some(&p.orig_tn) && c.dest_tns == p.dest_tns && c.iat == Some(p.iat) && c.origid == p.origid,
                    key,
                    || format!("claims read back as {c:?}"),
                );
                let hd = &h.passport.header;
                run.check(hd.x5u == p.x5u && hd.alg == "ES256" && hd.ppt.as_deref() == Some("shaken") && hd.typ.as_deref() == Some("passport"), key, || format!("header read back as {hd:?}"));
                run.check(
                    h.info.as_ref() == Some(&p.x5u) && h.alg.as_deref() == Some("ES256") && h.ppt.as_deref() == Some("shaken") && h.raw_token == s.token,
                    key,
                    || format!("header parameters read back as {:?} {:?} {:?}", h.info, h.alg, h.ppt),
                );
            }
            Err(e) => run.violation(key(), format!("its own header value is refused: {e}")),
        }
        verdict(run, &s.token, leaf, root, true, key);
        // not under another key
        verdict(run, &s.token, other, root, false, || format!("{} under another key", key()));
    });
    // claims that must be there
    let base = PassportParams { attest: AttestationLevel::A, x5u: x5u[0].into(), orig_tn: "+1".into(), dest_tns: vec!["+2".into()], iat: 0, origid: None };
    let rng = SystemRandom::new();
    let k = ring_key(&leaf.key);
    run.check(sign(&PassportParams { dest_tns: vec![], ..base.clone() }, &k, &rng).is_err(), || "signing without a destination".into(), || "accepted".into());
    run.check(sign(&PassportParams { orig_tn: "".into(), ..base.clone() }, &k, &rng).is_err(), || "signing without an origin".into(), || "accepted".into());
    // a certificate URI that cannot stand in the header
    token_strings(run, &["https://c", ">", "<", "\r\n", ";alg=none", "\"", " ", "\0", "/é", "?x"], 3, |u| {
        run.step(1);
        let fits = !u.is_empty() && u.chars().all(|c| c.is_ascii_graphic() && !"<>\"".contains(c));
        let Ok(s) = sign(&PassportParams { x5u: u.into(), ..base.clone() }, &k, &rng) else {
            run.check(!fits, || format!("signing with x5u {u:?}"), || "refused".into());
            return;
        };
        let h = IdentityHeader::parse(&s.identity_header_value());
        let ok = h.as_ref().is_ok_and(|h| h.info.as_deref() == Some(u) && h.alg.as_deref() == Some("ES256") && h.passport.header.x5u == u);
        run.check(fits && ok, || format!("signing with x5u {u:?}"), || format!("signed as {:?}", s.identity_header_value().split_once(';').map(|x| x.1.to_string())));
    });
}

fn mutations(run: &Run, root: &Cert, leaf: &Cert) {
    let k = ring_key(&leaf.key);
    let t = token(HEADER, PAYLOAD, &k);
    let sig: Vec<u8> = URL_SAFE_NO_PAD.decode(t.rsplit_once('.').unwrap().1).unwrap();
    verdict(run, &t, leaf, root, true, || "the untouched token".into());
    let alphabet: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').chain(b'0'..=b'9').chain(*b"-_+/=. ").collect();
    let b = t.as_bytes();
    par_for(run, b.len(), |i| {
        let try_it = |v: Vec<u8>, what: String| {
            if v == b {
                return;
            }
            run.state(&what);
            verdict(run, &String::from_utf8(v).unwrap(), leaf, root, false, || what.clone());
        };
        let all = run.thorough();
        for &c in &alphabet {
            // quick: the neighbours in value, and what is not base64url
            let near = (c ^ b[i]).count_ones() == 1 || !(c.is_ascii_alphanumeric() || c == b'-' || c == b'_');
            if all || near {
                let mut v = b.to_vec();
                v[i] = c;
                try_it(v, format!("token with byte {i} replaced by {:?}", c as char));
            }
            if all || c == b[i] || c == b'.' {
                let mut v = b.to_vec();
                v.insert(i, c);
                try_it(v, format!("token with {:?} inserted at {i}", c as char));
            }
        }
        let mut v = b.to_vec();
        v.remove(i);
        try_it(v, format!("token without byte {i}"));
        try_it(b[..i].to_vec(), format!("token cut at {i}"));
        if i > 0 {
            let mut v = b.to_vec();
            v.swap(i - 1, i);
            try_it(v, format!("token with bytes {} and {i} swapped", i - 1));
        }
    });
    // every single-bit change of the signature, and of the claims and header underneath
    let (input, _) = t.rsplit_once('.').unwrap();
    let enc = |s: &[u8]| format!("{input}.{}", URL_SAFE_NO_PAD.encode(s));
    for bit in 0..sig.len() * 8 {
        let mut s = sig.clone();
        s[bit / 8] ^= 1 << (bit % 8);
        verdict(run, &enc(&s), leaf, root, false, || format!("signature bit {bit} flipped"));
    }
    let stail = t.rsplit_once('.').unwrap().1;
    for (what, text) in [("header", HEADER), ("payload", PAYLOAD)] {
        for bit in 0..text.len() * 8 {
            let mut s = text.as_bytes().to_vec();
            s[bit / 8] ^= 1 << (bit % 8);
            let e = URL_SAFE_NO_PAD.encode(&s);
            let t = if what == "header" { format!("{e}.{}.{stail}", URL_SAFE_NO_PAD.encode(PAYLOAD)) } else { format!("{}.{e}.{stail}", URL_SAFE_NO_PAD.encode(HEADER)) };
            verdict(run, &t, leaf, root, false, || format!("{what} bit {bit} flipped"));
        }
    }
    // other shapes of signature
    let zero = [0u8; 32];
    let der = |r: &[u8], s: &[u8]| [&[0x30, 68, 2, 32], r, &[2, 32], s].concat();
    for (what, s) in [
        ("halves swapped", [&sig[32..], &sig[..32]].concat()),
        ("r zero", [&zero[..], &sig[32..]].concat()),
        ("s zero", [&sig[..32], &zero[..]].concat()),
        ("both zero", vec![0; 64]),
        ("empty", vec![]),
        ("r only", sig[..32].to_vec()),
        ("a zero byte more in front", [&[0], &sig[..]].concat()),
        ("a zero byte more behind", [&sig[..], &[0]].concat()),
        ("twice", [&sig[..], &sig[..]].concat()),
        ("DER", der(&sig[..32], &sig[32..])),
    ] {
        verdict(run, &enc(&s), leaf, root, false, || format!("signature {what}"));
    }
    // keys of every length and first byte
    let p = Passport::decode(&t).unwrap();
    let pk = k.public_key().as_ref().to_vec();
    for n in 0..=pk.len() + 1 {
        let mut q = pk.clone();
        q.resize(n, 0);
        run.step(1);
        run.check(p.verify_signature(&q).is_ok() == (n == pk.len()), || format!("key of {n} bytes"), || "verdict".into());
    }
    for b0 in 0..=255u8 {
        let mut q = pk.clone();
        q[0] = b0;
        run.step(1);
        run.check(p.verify_signature(&q).is_ok() == (b0 == 4), || format!("key beginning with {b0}"), || "verdict".into());
    }
    for bit in 8..pk.len() * 8 {
        let mut q = pk.clone();
        q[bit / 8] ^= 1 << (bit % 8);
        run.step(1);
        run.check(p.verify_signature(&q).is_err(), || format!("key bit {bit} flipped"), || "verifies".into());
    }
    // algorithms other than the one demanded, correctly signed
    for alg in ["ES256", "es256", "ES384", "RS256", "HS256", "none", "", "ES256 "] {
        let t = token(&HEADER.replace("ES256", alg), PAYLOAD, &k);
        verdict(run, &t, leaf, root, alg == "ES256", || format!("algorithm {alg:?}"));
    }
}

/// Whether a path leads from certificate `c` to one of the anchors, all of it valid at `now`.
/// Correct signatures of HEADER and PAYLOAD under one fixed key, found by going through nonces, whose
/// numbers have every number of leading zero bytes up to two and every first byte at which their
/// encoding changes.
fn shapes(run: &Run, root: &Cert) {
    let hex = |s: &str| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>();
    let mut lines = include_str!("sigs.txt").lines();
    let key = KeyPair::try_from(hex(lines.next().unwrap())).unwrap();
    let leaf = issue_for(key, "fixed leaf", false, T0, T1, Some((0, root)));
    let input = format!("{}.{}", URL_SAFE_NO_PAD.encode(HEADER), URL_SAFE_NO_PAD.encode(PAYLOAD));
    for l in lines {
        let (sig, what) = l.split_once(' ').unwrap();
        let sig = hex(sig);
        run.state(&what);
        verdict(run, &format!("{input}.{}", URL_SAFE_NO_PAD.encode(&sig)), &leaf, root, true, || format!("signature {what}"));
        for bit in 0..512 {
            let mut s = sig.clone();
            s[bit / 8] ^= 1 << (bit % 8);
            verdict(run, &format!("{input}.{}", URL_SAFE_NO_PAD.encode(&s)), &leaf, root, false, || format!("signature {what} with bit {bit} flipped"));
        }
    }
}

fn path(certs: &[Cert], c: usize, inter: &[usize], anchors: &[usize], now: i64, depth: usize) -> bool {
    if now < certs[c].from || now > certs[c].to || depth > 3 {
        return false;
    }
    let Some(i) = certs[c].issuer else {
        return false;
    };
    certs[i].ca && (anchors.contains(&i) || inter.contains(&i) && path(certs, i, inter, anchors, now, depth + 1))
}
fn chains(run: &Run) {
    let mut c: Vec<Cert> = vec![];
    c.push(issue("root", true, T0, T1, None)); // 0
    c.push(issue("other root", true, T0, T1, None)); // 1
    let x = issue("intermediate", true, T0 + 100, T1 - 100, Some((0, &c[0])));
    c.push(x); // 2
    let x = issue("second intermediate", true, T0, T1, Some((2, &c[2])));
    c.push(x); // 3
    let x = issue("leaf of root", false, T0 + 200, T1 - 200, Some((0, &c[0])));
    c.push(x); // 4
    let x = issue("leaf of intermediate", false, T0, T1, Some((2, &c[2])));
    c.push(x); // 5
    let x = issue("leaf of second", false, T0 + 200, T1, Some((3, &c[3])));
    c.push(x); // 6
    let x = issue("leaf of other root", false, T0, T1, Some((1, &c[1])));
    c.push(x); // 7
    let x = issue("leaf of a leaf", false, T0, T1, Some((5, &c[5])));
    c.push(x); // 8
    let leaves = [4usize, 5, 6, 7, 8];
    let tokens: Vec<String> = leaves.iter().map(|&l| token(HEADER, PAYLOAD, &ring_key(&c[l].key))).collect();
    let sets: Vec<Vec<usize>> = {
        let mut o = vec![vec![]];
        for a in 0..4usize {
            o.push(vec![a]);
            for b in 0..4 {
                if a != b {
                    o.push(vec![a, b]);
                }
            }
        }
        o.push(vec![5]);
        o.push(vec![2, 5]);
        o
    };
    let times = [T0 - 1, T0, T0 + 99, T0 + 100, T0 + 199, T0 + 200, T0 + 500, T1 - 200, T1 - 199, T1 - 100, T1 - 99, T1, T1 + 1];
    product(run, &[leaves.len(), leaves.len(), sets.len(), sets.len() - 2, times.len()], |v| {
        let (l, signer, inter, anchors, now) = (leaves[v[0]], leaves[v[1]], &sets[v[2]], &sets[v[3]], times[v[4]]);
        let p = Passport::decode(&tokens[v[1]]).unwrap();
        let i: Vec<&[u8]> = inter.iter().map(|&x| c[x].der()).collect();
        let a: Vec<&[u8]> = anchors.iter().map(|&x| c[x].der()).collect();
        let got = p.verify_with_chain(c[l].der(), &i, &a, at(now)).is_ok();
        let want = l == signer && path(&c, l, inter, anchors, now, 0);
        run.step(1);
        run.state(&v);
        run.check(got == want, || format!("certificate {l}, token of {signer}, intermediates {inter:?}, anchors {anchors:?}, at T0+{}", now - T0), || format!("verifies: {got}"));
    });
    // broken certificates
    let p = Passport::decode(&tokens[0]).unwrap();
    let good = c[4].der().to_vec();
    run.check(p.verify_with_chain(&good, &[], &[c[0].der()], at(T0 + 500)).is_ok(), || "control".into(), || "the good chain".into());
    par_for(run, good.len() * 8, |bit| {
        let mut d = good.clone();
        d[bit / 8] ^= 1 << (bit % 8);
        run.step(1);
        run.check(p.verify_with_chain(&d, &[], &[c[0].der()], at(T0 + 500)).is_err(), || format!("leaf certificate with bit {bit} flipped"), || "verifies".into());
    });
    for n in 0..good.len() {
        run.step(1);
        run.check(p.verify_with_chain(&good[..n], &[], &[c[0].der()], at(T0 + 500)).is_err(), || format!("leaf certificate cut at {n}"), || "verifies".into());
        run.check(p.verify_with_chain(&good, &[], &[&c[0].der()[..n.min(c[0].der().len() - 1)]], at(T0 + 500)).is_err(), || format!("anchor cut at {n}"), || "verifies".into());
    }
}

/// The header's parameters, read the plain way: separators inside quotes and brackets do not count.
type Params = (Option<String>, Option<String>, Option<String>);
fn reference(tail: &str) -> Option<Params> {
    let mut segs = vec![String::new()];
    let (mut quote, mut angle, mut esc) = (false, false, false);
    for ch in tail.chars() {
        if ch == ';' && !quote && !angle {
            segs.push(String::new());
            continue;
        }
        segs.last_mut()?.push(ch);
        if esc {
            esc = false;
        } else if quote {
            esc = ch == '\\';
            quote = ch != '"';
        } else if angle {
            angle = ch != '>';
        } else {
            quote = ch == '"';
            angle = ch == '<';
        }
    }
    let mut out: Params = (None, None, None);
    for s in segs {
        let Some((k, v)) = s.split_once('=') else { continue };
        let v = v.trim();
        let plain = v.strip_prefix('"').and_then(|v| v.strip_suffix('"')).unwrap_or(v).to_string();
        match k.trim().to_ascii_lowercase().as_str() {
            "info" => out.0 = Some(v.strip_prefix('<')?.strip_suffix('>')?.trim().to_string()),
            "alg" => out.1 = Some(plain),
            "ppt" => out.2 = Some(plain),
            _ => {}
        }
    }
    Some(out)
}
fn headers(run: &Run, leaf: &Cert) {
    let t = token(HEADER, PAYLOAD, &ring_key(&leaf.key));
    let toks = [";", "info=<https://c.test/c>", "info=<u;v=1>", "info=u", "INFO = < u >", "alg=ES256", "Alg=\"ES256\"", "ppt=shaken", "PPT=\"div\"", "foo", "x=\"a;info=<evil>\"", "y=\"\\\";alg=none\"", "z=<;ppt=no>", " "];
    token_strings(run, &toks, run.pick(4, 6), |tail| {
        run.step(1);
        run.state(&tail);
        // unpaired brackets and quotes mean nothing in particular
        let value = format!("{t};{tail}");
        let want = reference(tail);
        let got = IdentityHeader::parse(&value).ok().map(|h| {
            run.check(h.raw_token == t && h.passport.signing_input == t.rsplit_once('.').unwrap().0.as_bytes(), || format!("parameters {tail:?}"), || "the token changed".into());
            (h.info, h.alg, h.ppt)
        });
        run.check(got == want, || format!("parameters {tail:?}"), || format!("{got:?} instead of {want:?}"));
    });
    // how many parts
    let parts: Vec<&str> = t.split('.').collect();
    for n in 0..=6 {
        for gap in 0..=n {
            // n parts, one of them possibly empty
            let v: Vec<&str> = (0..n).map(|i| if i == gap { "" } else { parts.get(i).copied().unwrap_or("AAAA") }).collect();
            let v = v.join(".");
            run.step(1);
            let full = n == 3 && gap == 3 || n == 3 && gap == 2;
            // an empty signature decodes, but verifies nothing
            let d = Passport::decode(&v);
            run.check(d.is_ok() == full, || format!("token of {n} parts, part {gap} empty"), || format!("decodes: {}", d.is_ok()));
        }
    }
    // protected headers with fields missing, null, repeated or of another type
    let fv = ["", "null", "1", "\"ES256\"", "\"shaken\"", "\"\"", "[]"];
    product(run, &[fv.len(), fv.len(), fv.len(), fv.len()], |v| {
        let f: Vec<String> = ["alg", "typ", "ppt", "x5u"].iter().zip(v).filter(|(_, i)| **i > 0).map(|(k, i)| format!("\"{k}\":{}", fv[*i])).collect();
        let h = format!("{{{}}}", f.join(","));
        let t = token(&h, PAYLOAD, &ring_key(&leaf.key));
        run.step(1);
        run.state(&h);
        let text = |i: usize| fv[i].strip_prefix('"').and_then(|s| s.strip_suffix('"')).map(|s| s.to_string());
        // required: alg and x5u; optional: typ and ppt
        let good = text(v[0]).is_some() && text(v[3]).is_some() && [1, 2].iter().all(|&i| v[i] < 2 || text(v[i]).is_some());
        let d = Passport::decode(&t);
        run.check(d.is_ok() == good, || format!("protected header {h}"), || format!("decodes: {}", d.is_ok()));
        if let Ok(p) = d {
            let ok = Some(&p.header.alg) == text(v[0]).as_ref() && Some(&p.header.x5u) == text(v[3]).as_ref() && p.header.typ == text(v[1]) && p.header.ppt == text(v[2]);
            run.check(ok, || format!("protected header {h}"), || format!("read as {:?}", p.header));
            let g = p.verify_signature(ring_key(&leaf.key).public_key().as_ref()).is_ok();
            run.check(g == (p.header.alg == "ES256"), || format!("protected header {h} verified"), || format!("{g}"));
        }
    });
    // size
    for n in [8190usize, 8191, 8192, 8193, 9000] {
        let v = format!("{t};x={}", "a".repeat(n - t.len() - 3));
        run.check(IdentityHeader::parse(&v).is_ok() == (n <= 8192), || format!("header of {n} bytes"), || "limit".into());
    }
    // claims of wrong types and shapes
    let vals = ["null", "1", "\"A\"", "\"D\"", "\"a\"", "[]", "{}", "{\"tn\":\"1\"}", "{\"tn\":[\"1\"]}", "{\"tn\":1}", "-1", "1.5", "\"\"", "9223372036854775808", ""];
    product(run, &[vals.len(), vals.len(), vals.len(), vals.len()], |v| {
        let mut f = vec![];
        for (k, i) in ["attest", "orig", "dest", "iat"].iter().zip(v) {
            if !vals[*i].is_empty() {
                f.push(format!("\"{k}\":{}", vals[*i]));
            }
        }
        let payload = format!("{{{}}}", f.join(","));
        let t = format!("{}.{}.{}", URL_SAFE_NO_PAD.encode(HEADER), URL_SAFE_NO_PAD.encode(&payload), URL_SAFE_NO_PAD.encode([1u8; 64]));
        run.step(1);
        run.state(&payload);
        match quiet(|| Passport::decode(&t)) {
            Err(p) => run.violation(format!("claims {payload}"), format!("panicked: {p}")),
            Ok(Err(_)) => {}
            Ok(Ok(p)) => {
                let at = vals[v[0]];
                let attest = match at {
                    "\"A\"" => Some(AttestationLevel::A),
                    "null" | "" => None,
                    _ => return run.violation(format!("claims {payload}"), "attestation accepted"),
                };
                let iat = match vals[v[3]] {
                    "null" | "" => None,
                    x => match x.parse::<i64>() {
                        Ok(n) => Some(n),
                        Err(_) => return run.violation(format!("claims {payload}"), "issue time accepted"),
                    },
                };
                let orig = if vals[v[1]] == "{\"tn\":\"1\"}" { Some("1".to_string()) } else { None };
                let dest: Vec<String> = if vals[v[2]] == "{\"tn\":[\"1\"]}" { vec!["1".into()] } else { vec![] };
                let c = &p.claims;
                run.check(c.attest == attest && c.iat == iat && c.orig_tn == orig && c.dest_tns == dest, || format!("claims {payload}"), || format!("read as {c:?}"));
            }
        }
    });
}

pub fn p22(run: &Run) {
    let root = issue("root", true, T0, T1, None);
    let leaf = issue("leaf", false, T0, T1, Some((0, &root)));
    let other = issue("other leaf", false, T0, T1, Some((0, &root)));
    claims(run, &root, &leaf, &other);
    mutations(run, &root, &leaf);
    shapes(run, &root);
    chains(run);
    headers(run, &leaf);
    run.assume("a second signature of the same claims under the same key (an ECDSA signature's complement) is not a change of the identity");
    run.assume("the freshness of the issue time and the signer's right to the number are left to the application, as the crate documents");
}
