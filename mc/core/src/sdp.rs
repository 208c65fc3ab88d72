//! P16..P19: session descriptions, answers, hold/resume and preconditions.
use common::{product, quiet, sequences, token_strings, Run};
use sip_core::{sdp as cs, sdp_offer_answer as oa};
use sip_sdp::{self as ss, SessionDescription};
use std::collections::BTreeMap;

// ---------------------------------------------------------------- reading --

/// Sections of a description: the session's lines, then one per media line.
fn sections(text: &str) -> Vec<Vec<(char, &str)>> {
    let mut out = vec![vec![]];
    for l in text.split('\n') {
        let l = l.trim_end_matches('\r');
        if l.is_empty() {
            continue;
        }
        let k = l.chars().next().unwrap();
        let v = l.get(k.len_utf8() + 1..).unwrap_or("");
        if k == 'm' {
            out.push(vec![]);
        }
        out.last_mut().unwrap().push((k, v));
    }
    out
}
fn num(s: &str) -> String {
    let t = s.strip_prefix('+').unwrap_or(s);
    if !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit()) {
        let z = t.trim_start_matches('0');
        if z.is_empty() { "0".into() } else { z.into() }
    } else {
        s.into()
    }
}
fn words(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
fn nums(s: &str) -> String {
    s.split_whitespace().map(num).collect::<Vec<_>>().join(" ")
}
#[derive(Clone, Copy, PartialEq)]
enum Lib {
    Sdp,
    Core,
}
const SPECIAL: [&str; 7] = ["group", "mid", "rtcp", "sqn", "cdsc", "cpar", "cparm"];
/// What a description says, by section and kind of line, in order: an own
/// reading of the text, in the normal form of the library in question.
fn says(text: &str, lib: Lib) -> Vec<BTreeMap<String, Vec<String>>> {
    let mut out: Vec<BTreeMap<String, Vec<String>>> = vec![];
    for (i, sec) in sections(text).into_iter().enumerate() {
        let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (k, v) in sec {
            let once = |m: &mut BTreeMap<String, Vec<String>>, s: String| {
                m.insert(k.to_string(), vec![s]);
            };
            match k {
                'v' => once(&mut m, num(v)),
                'o' => once(&mut m, words(v)),
                's' | 'i' | 'u' | 'k' => once(&mut m, if lib == Lib::Sdp { v.trim().into() } else { v.into() }),
                'e' | 'p' if lib == Lib::Sdp => once(&mut m, v.trim().into()),
                'e' | 'p' => m.entry(k.into()).or_default().push(v.into()),
                'c' => once(&mut m, words(v)),
                't' => m.entry("t".into()).or_default().push(format!("t {}", nums(v))),
                'r' => m.entry("t".into()).or_default().push(format!("r {}", words(v))),
                'z' => {
                    let e = m.entry("z".into()).or_default();
                    e.extend(v.split_whitespace().enumerate().map(|(i, w)| if i % 2 == 0 && lib == Lib::Core { num(w) } else { w.into() }));
                    if e.is_empty() {
                        m.remove("z");
                    }
                }
                'b' => {
                    let (t, n) = v.split_once(':').unwrap_or((v, ""));
                    m.entry("b".into()).or_default().push(format!("{t}:{}", num(n)));
                }
                'm' => {
                    let w: Vec<&str> = v.split_whitespace().collect();
                    let port = w.get(1).map(|p| p.split('/').take(2).map(num).collect::<Vec<_>>().join("/")).unwrap_or_default();
                    once(&mut m, format!("{} {port} {}", w.first().unwrap_or(&""), w.get(2..).unwrap_or(&[]).join(" ")));
                }
                'a' => {
                    let s: String = match (v.split_once(':'), lib) {
                        (Some((n, x)), Lib::Sdp) => format!("{n}:{}", x.trim_end()),
                        (None, Lib::Sdp) => v.trim().into(),
                        _ => v.into(),
                    };
                    let n = s.split(':').next().unwrap().to_string();
                    if lib == Lib::Core && SPECIAL.iter().any(|p| n.starts_with(p)) {
                        let media_only = n == "mid" || n == "rtcp";
                        let session_only = n == "group";
                        let pulled = if i == 0 { !media_only } else { !session_only };
                        let val = s.splitn(2, ':').nth(1).unwrap_or("");
                        if pulled && (media_only || n == "sqn") {
                            m.insert(format!("a {n}"), vec![if n == "mid" { val.into() } else { nums(val) }]);
                            continue;
                        }
                        if pulled && n == "group" {
                            let mut w: Vec<String> = val.split_whitespace().map(|s| s.to_string()).collect();
                            if let Some(f) = w.first_mut() {
                                if ["LS", "FID", "SRF"].contains(&f.to_ascii_uppercase().as_str()) {
                                    f.make_ascii_uppercase();
                                }
                            }
                            m.entry("a group".into()).or_default().push(w.join(" "));
                            continue;
                        }
                        if pulled && ["cdsc", "cpar", "cparmin", "cparmax"].contains(&n.as_str()) {
                            let c = if n == "cdsc" { "a cdsc".to_string() } else { "a cpar".into() };
                            m.entry(c).or_default().push(format!("{n} {}", if n == "cdsc" { nums(val) } else { val.into() }));
                            continue;
                        }
                    }
                    m.entry("a".into()).or_default().push(s);
                }
                _ if lib == Lib::Core && i == 0 => {}
                _ if lib == Lib::Sdp && k.is_whitespace() && v.trim().is_empty() => {}
                _ => m.entry(format!("?{k}")).or_default().push(v.into()),
            }
        }
        out.push(m);
    }
    out
}
/// Lines in the order the grammar prescribes?
fn in_order(doc: &[&str]) -> bool {
    let ord = |media: bool, k: char| if media { "mickba".find(k) } else { "vosiuepcbtrzka".find(k) };
    let (mut media, mut last, mut t, mut conn, mut lacking) = (false, 0, 0, false, false);
    let mut media_conn = true;
    let mut seen = std::collections::BTreeSet::new();
    for l in doc {
        let k = l.chars().next().unwrap();
        if k == 'm' {
            lacking |= media && !media_conn;
            media = true;
            media_conn = false;
            last = 0;
            seen.clear();
            continue;
        }
        // media order is i c b k a
        let o = if media { "icbka".find(k).map(|p| p + 1) } else { ord(false, k) };
        let Some(mut o) = o else { return false };
        if !media && (k == 't' || k == 'r') {
            if k == 'r' && t == 0 {
                return false;
            }
            o = 9;
        }
        if o < last || (!"btra".contains(k) && !seen.insert(k)) {
            return false;
        }
        last = o;
        t += (k == 't') as usize;
        if k == 'c' {
            if media { media_conn = true } else { conn = true }
        }
    }
    lacking |= media && !media_conn;
    t > 0 && (conn || !lacking)
}

const L: [&str; 26] = [
    "t=0 0", "t=1 20", "r=7d 1h 0 25h", "c=IN IP4 192.0.2.1", "c=IN IP6 2001:db8::1", "m=audio 4000 RTP/AVP 0 96", "m=video 5000/2 UDP/DTLS/SCTP x", "a=sendonly",
    "a=rtpmap:96 opus/48000/2", "b=AS:64", "i=x  y", "k=clear:p:q", "z=1 -1h 2 0", "a=msid: W z", "u=http://h/?a=b", "e=j@h (J)", "e=k@h", "p=+1 2", "b=X-Y:0", "m=message 9 TCP/MSRP *",
    "a=mid:1", "a=group:LS 1 2", "a=sqn:0", "a=rtcp:53020", "k=prompt", "m=IMAGE 5000/1 RTP/SAVPF 127"
];

struct Parsed {
    text: String,
    again: Result<(bool, String), String>,
}
fn via(lib: Lib, doc: &str) -> Option<Parsed> {
    match lib {
        Lib::Sdp => {
            let d = SessionDescription::parse(doc).ok()?;
            let text = d.serialize();
            let again = SessionDescription::parse(&text).map(|e| (e == d, e.serialize())).map_err(|e| e.to_string());
            Some(Parsed { text, again })
        }
        Lib::Core => {
            let d = cs::SdpSession::parse(doc).ok()?;
            let text = d.to_string();
            let again = cs::SdpSession::parse(&text).map(|e| (e == d, e.to_string())).map_err(|e| e.to_string());
            Some(Parsed { text, again })
        }
    }
}
fn name(lib: Lib) -> &'static str {
    if lib == Lib::Sdp { "SessionDescription" } else { "SdpSession" }
}
fn round(run: &Run, lib: Lib, doc: &str, must: bool) {
    run.step(1);
    let key = || format!("{} {doc:?}", name(lib));
    let Some(p) = via(lib, doc) else {
        run.check(!must, key, || "a description whose lines are all well formed and in the prescribed order is refused".into());
        return;
    };
    run.trace();
    match &p.again {
        Err(e) => run.violation(key(), format!("its own printed text {:?} is refused: {e}", p.text)),
        Ok((same, t2)) => {
            run.check(*same, key, || format!("parsing the printed text {:?} yields a different description", p.text));
            run.check(*t2 == p.text, key, || format!("printing again gives {t2:?} instead of {:?}", p.text));
        }
    }
    let (a, b) = (says(doc, lib), says(&p.text, lib));
    run.check(lib == Lib::Sdp || a[0].contains_key("c") || a[1..].iter().all(|m| m.contains_key("c")), key, || "accepted though a media line has no connection of its own and there is none for the session".into());
    run.check(a == b, key, || {
        let d = a.iter().zip(&b).enumerate().find(|(_, (x, y))| x != y);
        format!("the printed text {:?} does not say what the input says: {:?}", p.text, d.map(|(i, (x, y))| (i, x.clone(), y.clone())))
    });
}

pub fn p16(run: &Run) {
    run.assume("a line kind a description may hold once keeps its last occurrence; the special attributes of the sip-core model (group, mid, rtcp, sqn/cdsc/cpar) keep their order among their own kind");
    // every sequence of well-formed lines
    let n = run.pick(4, 5);
    for len in 0..=n {
        let alpha = if len == 5 { 18 } else if len == 4 && !run.thorough() { 25 } else { L.len() };
        sequences(run, alpha, len, |q| {
            let lines: Vec<&str> = ["v=0", "o=- 1 2 IN IP4 h", "s=-"].into_iter().chain(q.iter().map(|&i| L[i])).collect();
            let doc = lines.join("\r\n") + "\r\n";
            run.state(&doc);
            let ok = in_order(&lines);
            round(run, Lib::Sdp, &doc, ok);
            round(run, Lib::Core, &doc, ok);
        });
    }
    // every token string in every kind of line
    let toks: &[&str] = &[" ", ":", "/", "0", "96", "+1", "IN", "IP4", "x", "\r\n", "\n", "\t", "é", "a=", "RTP/AVP", "RTP/AVPF", "audio"];
    let fills: &[(&str, &str)] = &[
        ("v=", ""), ("o=", ""), ("o=- 1 ", ""), ("o=- 1 1 IN IP4 ", ""), ("s=", ""), ("i=", ""), ("u=", ""), ("e=", ""), ("p=", ""), ("c=", ""), ("c=IN IP4", ""), ("b=", ""), ("b=AS:", ""), ("t=", ""), ("t=0 0", ""),
        ("r=", ""), ("r=1 1 0", ""), ("r=7d 1h 0 25h 90m 3d", ""), ("m=video 49170/1 UDP/TLS/RTP/SAVPF 96", ""), ("m=Image 0/01 TCP/TLS/RTP/SAVPF 96", ""), ("a=group:BUNDLE", ""), ("a=group:lipsync", ""), ("z=", ""), ("k=", ""), ("a=", ""), ("a=x", ""), ("a=rtpmap:", ""), ("m=", ""), ("m=audio ", ""), ("m=audio 1 RTP/AVP", ""), ("m=video 9 ", " 1"), ("m=a 1 UDP", ""),
        ("a=mid:", ""), ("a=rtcp:", ""), ("a=sqn:", ""), ("a=group:", ""), ("a=cdsc:1 ", ""), ("x=", ""), ("", ""),
    ];
    let depth = run.pick(3, 4);
    for (pre, post) in fills {
        token_strings(run, toks, depth, |s| {
            let l = format!("{pre}{s}{post}");
            run.state(&l);
            let k = l.chars().next().unwrap_or(' ');
            let base = |k2: char| if k == k2 { l.clone() } else { match k2 { 'v' => "v=0", 'o' => "o=- 1 2 IN IP4 h", 's' => "s=-", _ => "t=0 0" }.to_string() };
            let mut doc = vec![base('v'), base('o'), base('s'), "c=IN IP4 h".into(), base('t')];
            if !"vost".contains(k) {
                doc.push(if pre.starts_with("a=sqn") || pre.starts_with("a=cdsc") { format!("a=sqn:1\r\n{l}") } else { l.clone() });
            }
            for media in [false, true] {
                if media {
                    if "vostmuepzr".contains(k) {
                        break;
                    }
                    let at = doc.len() - 1;
                    doc.insert(at, "m=audio 1 RTP/AVP 0".into());
                }
                let d = doc.join("\r\n") + "\r\n";
                round(run, Lib::Sdp, &d, false);
                round(run, Lib::Core, &d, false);
            }
        });
    }
    accessors(run);
    mutators(run);
    limits(run);
    builders(run);
    // values that carry structure of their own
    rich(run);
}

/// Accessors agree with the lines, for every sequence of attribute lines.
fn accessors(run: &Run) {
    const A: [&str; 19] = [
        "sendonly", "inactive", "sendrecv", "rtpmap:96 opus/48000/2", "rtpmap:0 PCMU/8000", "rtpmap:96 VP8/90000", "rtpmap:300 x/1", "fmtp:96 a=1;b", "fmtp:0 z", "ptime:20", "ptime:x", "maxptime:40", "mid:m1", "setup:actpass", "sendonly:x", "setup:bogus", "rtpmap:0 L16/44100/1", "fmtp:96 a=1;", "recvonly",
    ];
    for len in 0..=run.pick(3, 4) {
        sequences(run, A.len(), len, |q| {
            for split in 0..=len.min(1) {
                // `split` leading attributes stand at session level
                let a: Vec<&str> = q.iter().map(|&i| A[i]).collect();
                let at = |v: &[&str]| v.iter().map(|x| format!("a={x}\r\n")).collect::<String>();
                let doc = format!("v=0\r\no=- 1 2 IN IP4 h\r\ns=-\r\nc=IN IP4 h\r\nt=0 0\r\n{}m=audio 1 RTP/AVP 0 96\r\n{}", at(&a[..split]), at(&a[split..]));
                run.state(&doc);
                run.step(1);
                let key = || format!("accessors {doc:?}");
                let m = &a[split..];
                let dir = |v: &[&str]| v.iter().find(|x| ["sendrecv", "sendonly", "recvonly", "inactive"].contains(x)).map(|s| s.to_string());
                let val = |k: &str| m.iter().filter_map(|x| x.strip_prefix(k).and_then(|r| r.strip_prefix(':'))).map(|s| s.to_string()).collect::<Vec<_>>();
                let d = match SessionDescription::parse(&doc) {
                    Ok(d) => d,
                    Err(e) => return run.violation(key(), format!("SessionDescription refused: {e}")),
                };
                let md = &d.media[0];
                let mut want = format!("{:?} {:?}", dir(&a[..split]), dir(m));
                let mut got = format!("{:?} {:?}", d.direction().map(|x| x.as_token().to_string()), md.direction().map(|x| x.as_token().to_string()));
                let num1 = |k: &str| val(k).first().and_then(|v| v.parse::<u32>().ok());
                want += &format!(" {:?} {:?} {:?} {:?}", num1("ptime"), num1("maxptime"), val("mid").first(), val("setup").first().filter(|v| *v == "actpass"));
                got += &format!(" {:?} {:?} {:?} {:?}", md.ptime(), md.maxptime(), md.mid(), md.setup().map(|s| s.as_token().to_string()));
                let maps: Vec<String> = val("rtpmap").into_iter().filter(|v| !v.starts_with("300")).collect();
                want += &format!(" {maps:?} {:?}", val("fmtp"));
                let show = |pt: u8, n: &str, r: u32, p: Option<&str>| format!("{pt} {n}/{r}{}", p.map(|p| format!("/{p}")).unwrap_or_default());
                got += &format!(
                    " {:?} {:?}",
                    md.rtpmaps_iter().map(|r| show(r.payload_type, &r.encoding_name, r.clock_rate, r.encoding_params.as_deref())).collect::<Vec<_>>(),
                    md.fmtp_iter().map(|f| format!("{} {}", f.payload_type, f.params)).collect::<Vec<_>>()
                );
                for pt in [0u8, 96] {
                    let last = maps.iter().rev().find(|v| v.starts_with(&format!("{pt} ")));
                    want += &format!(" {last:?}");
                    got += &format!(" {:?}", md.rtpmaps.get(&pt).map(|r| show(r.payload_type, &r.encoding_name, r.clock_rate, r.encoding_params.as_deref())).as_ref());
                    let f = val("fmtp");
                    want += &format!(" {:?}", f.iter().find_map(|v| v.strip_prefix(&format!("{pt} "))));
                    got += &format!(" {:?}", md.fmtp_for(pt).map(|f| f.params.to_string()).as_deref());
                }
                run.check(got == want, key, || format!("SessionDescription says {got}, the lines say {want}"));
                let c = match cs::SdpSession::parse(&doc) {
                    Ok(c) => c,
                    Err(e) => return run.violation(key(), format!("SdpSession refused: {e}")),
                };
                let want = format!("{:?} {:?} {maps:?} {:?} {:?}", dir(&a[..split]), dir(m), val("fmtp"), val("mid").last());
                let got = format!(
                    "{:?} {:?} {:?} {:?} {:?}",
                    c.find_direction(None).map(|d| d.as_str().to_string()),
                    c.find_direction(Some(0)).map(|d| d.as_str().to_string()),
                    c.find_rtpmaps(0).iter().map(|r| r.to_value()).collect::<Vec<_>>(),
                    c.find_fmtps(0).iter().map(|f| f.to_value()).collect::<Vec<_>>(),
                    c.media()[0].mid()
                );
                run.check(got == want, key, || format!("SdpSession says {got}, the lines say {want}"));
            }
        });
    }
}

/// Every sequence of edits on a media description against a list of lines.
fn mutators(run: &Run) {
    use ss::attrs::{Direction, Setup};
    let n_ops = 18;
    for len in 1..=run.pick(3, 4) {
        sequences(run, n_ops, len, |q| {
            let mut m = ss::MediaDescription::audio(4000).add_format(0).unwrap().add_format(96).unwrap();
            m = m.add_rtpmap(0, "PCMU", 8000, None).unwrap().add_property("x").unwrap().add_attribute("fmtp", "0 old").unwrap();
            let mut lines: Vec<String> = vec!["rtpmap:0 PCMU/8000".into(), "x".into(), "fmtp:0 old".into()];
            // what a peer may have sent: several directions, neighbours of a number
            for (n, v) in [("sendonly", None), ("fmtp", Some("9 nine")), ("recvonly", None), ("fmtp", Some("96 was")), ("rtpmap", Some("9 G722/8000/1")), ("ptime", Some("20")), ("ptime", Some("40"))] {
                m = match v {
                    Some(v) if n == "rtpmap" => m.add_rtpmap(9, "G722", 8000, v.ends_with("/1").then_some("1")).unwrap(),
                    Some(v) => m.add_attribute(n, v).unwrap(),
                    None => m.add_property(n).unwrap(),
                };
                lines.push(v.map(|v| format!("{n}:{v}")).unwrap_or(n.into()));
            }
            let drop = |l: &mut Vec<String>, p: &str| l.retain(|x| !x.starts_with(p));
            let nodir = |l: &mut Vec<String>| l.retain(|x| !["sendrecv", "sendonly", "recvonly", "inactive"].contains(&x.as_str()));
            let mut replaced = vec![];
            for &o in q {
                match o {
                    0 | 1 => {
                        let (pt, n) = if o == 0 { (96, "opus") } else { (0, "G711") };
                        m.set_rtpmap(pt, n, 48000, Some("2")).unwrap();
                        drop(&mut lines, &format!("rtpmap:{pt} "));
                        lines.push(format!("rtpmap:{pt} {n}/48000/2"));
                    }
                    2 => {
                        let had = lines.iter().any(|l| l.starts_with("rtpmap:0 "));
                        run.check(m.remove_rtpmap(0) == had, || format!("edits {q:?}"), || "remove_rtpmap's answer is wrong".into());
                        drop(&mut lines, "rtpmap:0 ");
                    }
                    3 | 4 => {
                        let d = [Direction::SendOnly, Direction::Inactive][o - 3];
                        m.set_direction(d);
                        nodir(&mut lines);
                        lines.push(d.as_token().into());
                    }
                    5 => {
                        m.clear_direction();
                        nodir(&mut lines);
                    }
                    6 | 7 => {
                        let pt = [0u8, 96][o - 6];
                        m.set_fmtp(pt, "new=1");
                        drop(&mut lines, &format!("fmtp:{pt} "));
                        lines.push(format!("fmtp:{pt} new=1"));
                        replaced.push(pt);
                    }
                    8 => {
                        m.set_ptime(30);
                        drop(&mut lines, "ptime:");
                        lines.push("ptime:30".into());
                    }
                    9 => {
                        m.clear_ptime();
                        drop(&mut lines, "ptime:");
                    }
                    10 => {
                        m.set_maxptime(60);
                        drop(&mut lines, "maxptime:");
                        lines.push("maxptime:60".into());
                    }
                    11 => {
                        m.set_mid("k");
                        drop(&mut lines, "mid:");
                        lines.push("mid:k".into());
                    }
                    12 => {
                        m.set_setup(Setup::Passive);
                        drop(&mut lines, "setup:");
                        lines.push("setup:passive".into());
                    }
                    13 => {
                        let before = format!("{m:?}");
                        run.check(m.set_rtpmap(128, "x", 1, None).is_err() && m.set_rtpmap(97, "a\r\nb", 1, None).is_err(), || format!("edits {q:?}"), || "an impossible mapping was taken".into());
                        run.check(format!("{m:?}") == before, || format!("edits {q:?}"), || "a refused edit changed the description".into());
                    }
                    15 => {
                        m.set_fmtp(9, " y=\r\na=z;\r ");
                        drop(&mut lines, "fmtp:9 ");
                        lines.push("fmtp:9 y=a=z;".into());
                    }
                    16 => {
                        m.set_mid("a\r\0b\n");
                        drop(&mut lines, "mid:");
                        lines.push("mid:ab".into());
                    }
                    17 => {
                        m.set_rtpmap(9, "G722", 8000, Some("1")).unwrap();
                        drop(&mut lines, "rtpmap:9 ");
                        lines.push("rtpmap:9 G722/8000/1".into());
                    }
                    _ => m.rebuild_rtpmaps(),
                }
                run.step(1);
                let got: Vec<String> = m
                    .attributes
                    .iter()
                    .map(|a| match a {
                        ss::Attribute::Property(n) => n.to_string(),
                        ss::Attribute::Value { name, value } => format!("{name}:{value}"),
                    })
                    .collect();
                let (mut g, mut w) = (got.clone(), lines.clone());
                g.sort();
                w.sort();
                run.check(g == w, || format!("edits {q:?}"), || format!("attributes are {got:?}, expected {lines:?}"));
                // untouched attributes keep their order
                let keep = |v: &[String]| v.iter().filter(|l| *l == "x" || *l == "fmtp:0 old" || *l == "rtpmap:0 PCMU/8000").cloned().collect::<Vec<_>>();
                run.check(keep(&got) == keep(&lines), || format!("edits {q:?}"), || format!("untouched attributes were reordered: {got:?}"));
                let mut derived = m.clone();
                derived.rebuild_rtpmaps();
                run.check(derived.rtpmaps == m.rtpmaps, || format!("edits {q:?}"), || format!("the mapping table {:?} disagrees with the lines {got:?}", m.rtpmaps));
            }
            let d = SessionDescription::builder().origin("-", "1", "192.0.2.1").unwrap().session_name("s").unwrap().time(0, 0).media(m).unwrap().build();
            run.state(&d.serialize());
            match SessionDescription::parse(&d.serialize()) {
                Ok(e) => run.check(e == d, || format!("edits {q:?}"), || format!("{:?} parses back differently", d.serialize())),
                Err(e) => run.violation(format!("edits {q:?}"), format!("built description refused: {e}")),
            }
        });
    }
}

fn limits(run: &Run) {
    let head = "v=0\r\no=- 1 2 IN IP4 h\r\ns=-\r\nc=IN IP4 h\r\nt=0 0\r\n";
    let lim = |b, l, ll, at| ss::parse::ParseLimits { max_bytes: b, max_lines: l, max_line_length: ll, max_attributes_per_section: at };
    let big = usize::MAX;
    for extra in 0..8usize {
        for media in 0..3usize {
            let doc = head.to_string() + &"a=abc\r\n".repeat(extra) + &format!("m=audio 1 RTP/AVP 0\r\n{}", "a=abcdefghijklmn\r\n".repeat(extra)).repeat(media);
            let lines = 5 + extra + media * (1 + extra);
            let longest = doc.lines().map(|l| l.len()).max().unwrap();
            run.state(&doc);
            for d in -1i64..=1 {
                let off = |n: usize| (n as i64 + d) as usize;
                let want = d >= 0;
                let t = |what: &str, l, want: bool| {
                    run.step(1);
                    run.check(ss::parse::parse_sdp_with_limits(&doc, l).is_ok() == want, || format!("limit on {what} {d:+} from {extra} attributes, {media} media"), || format!("expected accepted={want}"));
                };
                t("bytes", lim(off(doc.len()), big, big, big), want);
                t("lines", lim(big, off(lines), big, big), want);
                t("line length", lim(big, big, off(longest), big), want);
                if extra > 0 {
                    t("attributes", lim(big, big, big, off(extra)), want);
                }
            }
        }
    }
    // a limit counts octets, and numbers end where the format does
    for (line, n) in [("a=é\r\n", 4usize), ("a=x:\u{1f600}é\r\n", 10), ("i=ab\r\n", 4)] {
        for max in [n - 1, n] {
            run.step(1);
            let d = format!("v=0\r\n{line}");
            let too = matches!(ss::parse::parse_sdp_with_limits(&d, lim(big, big, max, big)), Err(ss::parse::ParseError::LimitExceeded("line length", _)));
            run.check(too == (max < n), || format!("line {line:?} against a limit of {max}"), || format!("reported too long={too}"));
        }
    }
    for proto in RTP {
        for pt in 120..=260u32 {
            run.step(1);
            let doc = format!("{head}m=audio 1 {proto} 0 {pt}\r\n");
            let ok = SessionDescription::parse(&doc).is_ok();
            run.check(ok == (pt < 128), || format!("SessionDescription with payload type {pt} of {proto}"), || format!("accepted={ok}"));
        }
    }
    for (pre, one, max) in [("m=audio 1 RTP/AVP", " 0", 128usize), ("r=1 1", " 1", 50), ("z=", " 1 1h", 50), ("a=group:LS", " 1", 50)] {
        for n in [max - 1, max, max + 1] {
            run.step(1);
            let doc = format!("{head}{pre}{}\r\n", one.repeat(n));
            let ok = cs::SdpSession::parse(&doc).is_ok();
            run.check(ok == (n <= max), || format!("SdpSession {pre} with {n} items"), || format!("accepted={ok}, the limit is {max}"));
        }
    }
    for b in [10_000_000u64, 10_000_001] {
        run.step(1);
        let ok = cs::SdpSession::parse(&format!("{head}b=AS:{b}\r\n")).is_ok();
        run.check(ok == (b <= 10_000_000), || format!("SdpSession bandwidth {b}"), || format!("accepted={ok}"));
    }
    // documented limits of the sip-core parser: n and n+1
    let lines: [(&str, &str, usize); 11] = [
        ("", "e=x\r\n", 10), ("", "p=1\r\n", 10), ("", "b=AS:1\r\n", 20), ("", "a=x\r\n", 100), ("m=audio 1 RTP/AVP 0\r\n", "a=x\r\n", 100), ("m=audio 1 RTP/AVP 0\r\n", "b=AS:1\r\n", 20),
        ("", "m=audio 1 RTP/AVP 0\r\n", 50), ("", "a=group:LS 1\r\n", 20), ("", "r=1 1 1\r\n", 10), ("a=sqn:1\r\n", "a=cdsc:1 audio RTP/AVP 0\r\n", 50), ("", "t=0 0\r\n", 9),
    ];
    for (pre, l, max) in lines {
        for n in [max, max + 1] {
            run.step(1);
            let doc = head.to_string() + pre + &l.repeat(n);
            let ok = cs::SdpSession::parse(&doc).is_ok();
            run.check(ok == (n == max), || format!("SdpSession with {n} times {l:?}"), || format!("accepted={ok}, the limit is {max}"));
        }
    }
    let long: [(&str, usize); 9] = [("s=", 1024), ("i=", 2048), ("u=", 2048), ("e=", 320), ("p=", 32), ("k=", 64), ("a=", 128), ("a=x:", 4096), ("b=", 32)];
    for (l, max) in long {
        for n in [max, max + 1] {
            run.step(1);
            let mut line = format!("{l}{}", "y".repeat(n));
            if l == "b=" {
                line += ":1";
            }
            let doc = if l == "s=" { head.replace("s=-", &line) } else { format!("{head}{line}\r\n") };
            let ok = cs::SdpSession::parse(&doc).is_ok();
            run.check(ok == (n == max), || format!("SdpSession {l} of {n} characters"), || format!("accepted={ok}, the limit is {max}"));
        }
    }
}

/// Default limits, limits of the builders, session-level direction edits.
fn builders(run: &Run) {
    let head = "v=0\r\no=- 1 2 IN IP4 h\r\ns=-\r\nc=IN IP4 h\r\nt=0 0\r\n";
    let media = "m=audio 1 RTP/AVP 0\r\n";
    let ok = |what: &str, n: i64, doc: &str, want: bool| {
        run.step(1);
        run.check(SessionDescription::parse(doc).is_ok() == want, || format!("SessionDescription with {what} {n:+} from the limit"), || format!("expected accepted={want}"));
    };
    for d in -1i64..=1 {
        let at = |n: usize| (n as i64 + d) as usize;
        ok("attributes", d, &format!("{head}{}", "a=x\r\n".repeat(at(500))), d <= 0);
        ok("media attributes", d, &format!("{head}{}{media}{}", "a=x\r\n".repeat(500), "a=x\r\n".repeat(at(500))), d <= 0);
        ok("lines", d, &format!("{head}{}", format!("{media}{}", "a=x\r\n".repeat(499)).repeat(4) + media + &"a=x\r\n".repeat(at(42))), d <= 0);
        ok("line length", d, &format!("{head}a={}\r\n", "x".repeat(at(4094))), d <= 0);
        let mut doc = format!("{head}{}", format!("a={}\r\n", "x".repeat(4070)).repeat(32));
        let room = at(128 * 1024) - doc.len() - 4;
        doc.push_str(&format!("a={}\r\n", "y".repeat(room)));
        ok("bytes", d, &doc, d <= 0);
    }
    // builders: n-1, n and n+1 of everything
    type Made = Result<SessionDescription, String>;
    let e = |x: ss::SdpError| x.to_string();
    let base = || SessionDescription::builder().origin("-", "1", "h").unwrap().session_name("s").unwrap().connection("h").unwrap().time(0, 0);
    let many = |n: usize, f: &dyn Fn(ss::builder::SessionDescriptionBuilder, usize) -> Result<ss::builder::SessionDescriptionBuilder, ss::SdpError>| -> Made { (0..n).try_fold(base(), f).map(|b| b.build()).map_err(e) };
    let manym = |n: usize, f: &dyn Fn(ss::MediaDescription, usize) -> Result<ss::MediaDescription, ss::SdpError>| -> Made { (0..n).try_fold(ss::MediaDescription::audio(1).add_format(0).unwrap(), f).and_then(|m| base().media(m)).map(|b| b.build()).map_err(e) };
    let am = || ss::MediaDescription::audio(1).add_format(0).unwrap();
    let y = |n: usize| "y".repeat(n);
    let kinds: [(&str, usize, &dyn Fn(usize) -> Made); 22] = [
        ("times", 9, &|n| many(n, &|b, i| b.add_time(i as u64, i as u64 + 1))),
        ("media", 20, &|n| many(n, &|b, _| b.media(am()))),
        ("session attributes", 50, &|n| many(n, &|b, i| b.attribute("x", (i % 2 == 0).then_some("v")))),
        ("time zones", 10, &|n| many(n, &|b, i| b.time_zone_adjustment(&i.to_string(), "1h"))),
        ("formats", 49, &|n| manym(n, &|m, i| m.add_format(i as u8 + 1))),
        ("format tokens", 49, &|n| manym(n, &|m, i| if i % 2 == 0 { m.add_format_token(&(i + 1).to_string()) } else { m.add_format(i as u8 + 1) })),
        ("properties", 50, &|n| manym(n, &|m, _| m.add_property("x"))),
        ("attributes", 50, &|n| manym(n, &|m, i| if i % 2 == 0 { m.add_attribute("x", "v") } else { m.add_property("x") })),
        ("mappings", 50, &|n| manym(n, &|m, i| m.add_rtpmap(i as u8, "x", 1000, None))),
        ("replaced mappings", 100, &|n| if n > 100 { Err(String::new()) } else { manym(n, &|m, i| m.add_rtpmap(i as u8 % 50, "x", i as u32 + 1000, None)) }),
        ("user name", 256, &|n| SessionDescription::builder().origin(&y(n), "1", "h").and_then(|b| b.session_name("s")).map(|b| b.time(0, 0).build()).map_err(e)),
        ("session id", 256, &|n| SessionDescription::builder().origin("-", &"1".repeat(n), "h").and_then(|b| b.session_name("s")).map(|b| b.time(0, 0).build()).map_err(e)),
        ("address", 256, &|n| base().connection(&y(n)).map(|b| b.build()).map_err(e)),
        ("media address", 256, &|n| am().connection(&y(n)).and_then(|m| base().media(m)).map(|b| b.build()).map_err(e)),
        ("session name", 512, &|n| base().session_name(&y(n)).map(|b| b.build()).map_err(e)),
        ("session info", 512, &|n| base().session_info(&y(n)).map(|b| b.build()).map_err(e)),
        ("attribute name", 128, &|n| base().attribute(&y(n), None).map(|b| b.build()).map_err(e)),
        ("attribute value", 1024, &|n| base().attribute("x", Some(&y(n))).map(|b| b.build()).map_err(e)),
        ("media attribute value", 1024, &|n| am().add_attribute("x", &y(n)).and_then(|m| base().media(m)).map(|b| b.build()).map_err(e)),
        ("encoding name", 64, &|n| am().add_rtpmap(96, &y(n), 1000, Some("2")).and_then(|m| base().media(m)).map(|b| b.build()).map_err(e)),
        ("clock rate", 1_000_000_000, &|n| am().add_rtpmap(96, "x", n as u32, None).and_then(|m| base().media(m)).map(|b| b.build()).map_err(e)),
        ("payload type", 127, &|n| am().add_format(n as u8).and_then(|m| base().media(m)).map(|b| b.build()).map_err(e)),
    ];
    for (what, max, f) in kinds {
        for n in [max - 1, max, max + 1] {
            run.step(1);
            let key = || format!("built with {what} {n}");
            match f(n) {
                Err(x) => run.check(n > max, key, || format!("refused below the limit of {max}: {x}")),
                Ok(d) => {
                    run.check(n <= max, key, || format!("accepted, the limit is {max}"));
                    let text = d.serialize();
                    run.state(&text);
                    run.check(SessionDescription::parse(&text).as_ref() == Ok(&d), key, || "parses back differently".into());
                }
            }
        }
    }
    // order and values of what the builders were given
    for (n, v) in [("1", "2"), ("2882844526", "-1h")] {
        let d = many(3, &|b, i| b.add_time(i as u64, 9)?.attribute(&format!("k{i}"), Some(v))?.time_zone_adjustment(n, v)?.media(am().add_property(&format!("p{i}"))?)).unwrap();
        let text = d.serialize();
        let at: Vec<Option<usize>> = ["t=0 9", "t=1 9", "t=2 9", &format!("z={n} {v} {n} {v} {n} {v}"), &format!("a=k0:{v}"), &format!("a=k1:{v}"), &format!("a=k2:{v}"), "a=p0", "a=p1", "a=p2"].iter().map(|l| text.find(&format!("\r\n{l}\r\n"))).collect();
        run.check(at.iter().all(|x| x.is_some()) && at.windows(2).all(|w| w[0] < w[1]), || format!("three of everything, {v}"), || format!("{text:?}"));
    }
    // a refused mapping leaves a long description as it was
    for have in [49, 50, 51] {
        let doc = format!("{head}{media}a=rtpmap:0 PCMU/8000\r\n{}", "a=x\r\n".repeat(have - 1));
        let d = SessionDescription::parse(&doc).unwrap();
        for pt in [0u8, 96] {
            run.step(1);
            let mut m = d.media[0].clone();
            let r = m.set_rtpmap(pt, "G711", 8000, None);
            run.check(r.is_ok() == (have - (pt == 0) as usize + 1 <= 50), || format!("mapping {pt} set among {have} attributes"), || format!("{r:?}"));
            run.check(r.is_ok() || m == d.media[0], || format!("mapping {pt} set among {have} attributes"), || "a refused edit changed the description".into());
        }
    }
    use ss::attrs::Direction;
    sequences(run, 5, 3, |q| {
        let mut d = SessionDescription::parse(&format!("{head}a=x\r\na=sendonly\r\na=y:1\r\n{media}a=recvonly\r\n")).unwrap();
        let mut want = Some(Direction::SendOnly);
        for o in q {
            run.step(1);
            match [Some(Direction::SendRecv), Some(Direction::RecvOnly), Some(Direction::Inactive), Some(Direction::SendOnly), None][*o] {
                Some(x) => {
                    d.set_direction(x);
                    want = Some(x);
                }
                None => {
                    d.clear_direction();
                    want = None;
                }
            }
            let text = d.serialize();
            let n = text.lines().filter(|l| ["a=sendrecv", "a=sendonly", "a=recvonly", "a=inactive"].contains(l)).count();
            run.check(d.direction() == want && n == 1 + want.is_some() as usize && d.media[0].direction() == Some(Direction::RecvOnly) && text.contains("a=x\r\n") && text.contains("a=y:1\r\n"), || format!("session directions {q:?}"), || format!("{:?}, expected {want:?}: {text:?}", d.direction()));
        }
    });
}

/// Values with a structure of their own: print, parse, compare.
fn rich(run: &Run) {
    use ss::attrs::*;
    // what the lines of candidates, fingerprints and sources say
    let toks = ["1", "candidate:", " ", "udp", "h", "typ", "host", "raddr", "rport", "9", "x", "70000"];
    let one = |v: &str| SessionDescription::parse(&format!("{HEAD}m=audio 1 RTP/AVP 0\r\na={v}\r\n")).ok().map(|d| d.media[0].clone());
    let cand = |v: &str, key: &dyn Fn() -> String| {
        let w: Vec<&str> = v.split_whitespace().collect();
        let port = |s: &str| s.parse::<u16>().ok();
        let mut want = None;
        if w.len() >= 8 && w.len() % 2 == 0 && w[6] == "typ" {
            if let (Ok(c), Ok(p), Some(n)) = (w[1].parse::<u32>(), w[3].parse::<u32>(), port(w[5])) {
                let last = |k: &str| w[8..].chunks(2).rev().find(|x| x[0] == k).map(|x| x[1]);
                if w[8..].chunks(2).all(|x| x[0] != "rport" || port(x[1]).is_some()) {
                    let ext: Vec<String> = w[8..].chunks(2).filter(|x| x[0] != "raddr" && x[0] != "rport").map(|x| x.join(" ")).collect();
                    want = Some(format!("{} {c} {} {p} {} {n} {} {:?} {:?} {ext:?}", w[0], w[2].to_lowercase(), w[4], w[7], last("raddr"), last("rport").and_then(port)));
                }
            }
        }
        let got = one(&format!("candidate:{v}")).and_then(|m| m.candidates().next()).map(|c| {
            let t = match &c.transport {
                CandidateTransport::Udp => "udp",
                CandidateTransport::Tcp => "tcp",
                // names of transports are compared without regard to case
                CandidateTransport::Other(o) if o.eq_ignore_ascii_case("udp") || o.eq_ignore_ascii_case("tcp") => "not the transport",
                CandidateTransport::Other(o) => o.as_str(),
            };
            let y = match &c.typ {
                CandidateType::Host => "host",
                CandidateType::ServerReflexive => "srflx",
                CandidateType::PeerReflexive => "prflx",
                CandidateType::Relay => "relay",
                CandidateType::Other(o) => o.as_str(),
            };
            let ext: Vec<String> = c.extensions.iter().map(|(k, v)| format!("{k} {v}")).collect();
            format!("{} {} {} {} {} {} {y} {:?} {:?} {ext:?}", c.foundation, c.component, t.to_lowercase(), c.priority, c.connection_address, c.port, c.raddr.as_deref(), c.rport)
        });
        run.check(got == want, key, || format!("read as {got:?}, the line says {want:?}"));
    };
    token_strings(run, &toks, run.pick(4, 5), |s| {
        run.step(1);
        for pre in ["", "1 1 udp 1 h 9 ", "f 2 TCP 7 ::1 0 typ srflx "] {
            let v = format!("{pre}{s}");
            cand(v.trim(), &|| format!("candidate {v:?}"));
        }
    });
    let base = ["1", "1", "udp", "1", "h", "9", "typ", "relay", "raddr", "a", "rport", "5"];
    product(run, &[12, 10], |v| {
        run.step(1);
        let mut w = base;
        w[v[0]] = ["", "x", "0", "4294967296", "65535", "65536", "-1", "typ", "raddr", "UDP"][v[1]];
        let v = w.join(" ");
        cand(&v, &|| format!("candidate {v:?}"));
    });
    token_strings(run, &["1", "sha-256", " ", "AB:CD", ":", "cname", "x", "4294967296"], run.pick(5, 6), |s| {
        let t = s.trim();
        if t.is_empty() || t != s {
            return;
        }
        run.step(1);
        if let Some(m) = one(&format!("fingerprint:{t}")) {
            let want = t.split_once(' ').map(|(h, f)| (h.to_string(), f.trim().to_string()));
            let got = m.fingerprint().map(|f| (f.hash_function.to_string(), f.fingerprint.to_string()));
            run.check(got == want, || format!("fingerprint {t:?}"), || format!("read as {got:?}"));
        }
        if let Some(m) = one(&format!("ssrc:{t}")) {
            let want = t.split_once(' ').and_then(|(i, r)| {
                let r = r.trim();
                Some((i.parse::<u32>().ok()?, r.split(':').next().unwrap().to_string(), r.split_once(':').map(|x| x.1.to_string())))
            });
            let got = m.ssrc_iter().next().map(|f| (f.ssrc_id, f.attribute.to_string(), f.value.map(|v| v.to_string())));
            run.check(got == want, || format!("ssrc {t:?}"), || format!("read as {got:?}"));
        }
    });
    // candidates, fingerprints, sources of sip-sdp
    product(run, &[3, 3, 3, 5, 3, 3, 4], |v| {
        let c = Candidate {
            foundation: ["1", "abc/+", "9"][v[0]].into(),
            component: [1, 2, 256][v[1]],
            transport: [CandidateTransport::Udp, CandidateTransport::Tcp, CandidateTransport::Other("sctp".into())][v[2]].clone(),
            priority: [0, u32::MAX, 2130706431][v[4]],
            connection_address: ["192.0.2.1", "2001:db8::1", "h.local"][v[5]].into(),
            port: [0, 9, 65535][v[1]],
            typ: [CandidateType::Host, CandidateType::ServerReflexive, CandidateType::PeerReflexive, CandidateType::Relay, CandidateType::Other("x".into())][v[3]].clone(),
            raddr: [None, Some("10.0.0.1".into()), None, Some("::1".into())][v[6]].clone(),
            rport: [None, Some(0), Some(65535), Some(9)][v[6]],
            extensions: [vec![], vec![("tcptype".into(), "active".into())], vec![("a".into(), "b".into()), ("a".into(), "c".into())]][v[0]].clone(),
        };
        run.step(1);
        run.state(&format!("{c:?}"));
        let mut m = ss::MediaDescription::audio(1).add_format(0).unwrap();
        m.add_candidate(&c);
        m.add_candidate(&c);
        let got: Vec<Candidate> = m.candidates().collect();
        run.check(got == [c.clone(), c.clone()], || format!("{c:?}"), || format!("read back as {got:?}"));
    });
    let maps = ["0 PCMU/8000", "96 opus/48000/2", "127 a-b/1", "128 x/1", "96 x/0", "96 /8000", "96 x", "x y/1", "96  x/1", "96 x/1/", "96 x/1/2/3", ""];
    for v in maps {
        run.step(1);
        if let Some(r) = cs::RtpMap::parse(v) {
            let again = cs::RtpMap::parse(&r.to_value());
            run.check(again.as_ref() == Some(&r), || format!("rtpmap {v:?}"), || format!("reads back from {:?} as {again:?}", r.to_value()));
        }
    }
    let toks = ["qos", "sec", "mandatory", "optional", "none", "failure", "unknown", "e2e", "local", "remote", "send", "recv", "sendrecv", " ", "x"];
    token_strings(run, &toks, run.pick(5, 6), |s| {
        run.step(1);
        fn t<V: ToString + PartialEq + std::fmt::Debug>(run: &Run, what: &str, s: &str, f: impl Fn(&str) -> Option<V>) {
            if let Some(v) = f(s) {
                let again = f(&v.to_string());
                run.check(again.as_ref() == Some(&v), || format!("{what} {s:?}"), || format!("reads back from {:?} as {again:?}", v.to_string()));
                let w: Vec<String> = s.split_whitespace().map(|x| x.to_string()).collect();
                run.check(v.to_string() == w.join(" "), || format!("{what} {s:?}"), || format!("prints as {:?}", v.to_string()));
            }
        }
        t(run, "curr", s, |s| cs::CurrentStatus::parse(s).ok());
        t(run, "des", s, |s| cs::DesiredStatus::parse(s).ok());
        t(run, "conf", s, |s| cs::ConfirmStatus::parse(s).ok());
    });
    token_strings(run, &["53020", "0", "65536", " ", "IN", "IP4", "IP6", "h", "+1"], run.pick(6, 7), |s| {
        run.step(1);
        if let Ok(r) = cs::RtcpAttribute::parse(s) {
            let again = cs::RtcpAttribute::parse(&r.format());
            run.check(again.as_ref() == Ok(&r), || format!("rtcp {s:?}"), || format!("reads back from {:?} as {again:?}", r.format()));
            run.check(nums(&r.format()) == nums(s), || format!("rtcp {s:?}"), || format!("prints as {:?}", r.format()));
        }
    });
}

// ----------------------------------------------------------------- answers --

/// An own view of a media line.
#[derive(Debug, Clone)]
struct M {
    typ: String,
    port: u16,
    proto: String,
    fmts: Vec<String>,
    attrs: Vec<(String, Option<String>)>,
    conn: Option<String>,
}
fn view(text: &str) -> (Vec<(String, Option<String>)>, Vec<M>, BTreeMap<char, String>) {
    let at = |v: &str| match v.split_once(':') {
        Some((n, x)) => (n.to_string(), Some(x.to_string())),
        None => (v.to_string(), None),
    };
    let secs = sections(text);
    let sa = secs[0].iter().filter(|(k, _)| *k == 'a').map(|(_, v)| at(v)).collect();
    let head = secs[0].iter().map(|(k, v)| (*k, v.to_string())).collect();
    let ms = secs[1..]
        .iter()
        .map(|s| {
            let w: Vec<&str> = s[0].1.split_whitespace().collect();
            M {
                typ: w[0].into(),
                port: w[1].split('/').next().unwrap().parse().unwrap(),
                proto: w[2].into(),
                fmts: w[3..].iter().map(|s| s.to_string()).collect(),
                attrs: s.iter().filter(|(k, _)| *k == 'a').map(|(_, v)| at(v)).collect(),
                conn: s.iter().find(|(k, _)| *k == 'c').map(|(_, v)| v.to_string()),
            }
        })
        .collect();
    (sa, ms, head)
}
fn dir_of(attrs: &[(String, Option<String>)]) -> Option<u8> {
    attrs.iter().find_map(|(n, v)| match (n.as_str(), v) {
        ("inactive", None) => Some(0),
        ("sendonly", None) => Some(1),
        ("recvonly", None) => Some(2),
        ("sendrecv", None) => Some(3),
        _ => None,
    })
}
/// bit 0: sends, bit 1: receives
const DIRS: [&str; 4] = ["inactive", "sendonly", "recvonly", "sendrecv"];
fn mirror(d: u8) -> u8 {
    (d & 1) << 1 | (d >> 1)
}
fn static_codec(pt: &str) -> Option<&'static str> {
    Some(match pt {
        "0" => "PCMU/8000",
        "3" => "GSM/8000",
        "4" => "G723/8000",
        "8" => "PCMA/8000",
        "9" => "G722/8000",
        "18" => "G729/8000",
        _ => return None,
    })
}
/// The codec a payload number stands for in a media section, lower case,
/// a channel count of one left out.
fn codec(m: &M, pt: &str) -> Option<String> {
    let map = m.attrs.iter().rev().find_map(|(n, v)| {
        let v = v.as_ref()?;
        (n == "rtpmap" && v.split(' ').next() == Some(pt)).then(|| v.split_once(' ').map(|x| x.1.to_string()))?
    });
    map.or_else(|| static_codec(pt).map(|s| s.to_string())).map(|s| norm_codec(&s))
}
fn norm_codec(s: &str) -> String {
    let s = s.to_ascii_lowercase();
    s.strip_suffix("/1").filter(|p| p.contains('/')).map(|p| p.to_string()).unwrap_or(s)
}
const RTP: [&str; 5] = ["RTP/AVP", "RTP/SAVP", "RTP/SAVPF", "UDP/TLS/RTP/SAVPF", "TCP/TLS/RTP/SAVPF"];

/// A transport protocol whose formats are RTP payload numbers.
fn is_rtp(proto: &str) -> bool {
    proto.split('/').any(|p| p == "RTP")
}

const HEAD: &str = "v=0\r\no=al 7 3 IN IP4 192.0.2.7\r\ns=talk\r\nc=IN IP4 192.0.2.7\r\nt=0 0\r\n";

struct Side {
    m: M,
}
/// Is `a` an answer that fits line `o` of the offer?
#[allow(clippy::too_many_arguments)]
fn fits(run: &Run, key: &dyn Fn() -> String, i: usize, o: &M, odir: u8, a: &M, a_sess: Option<u8>, local: Option<&Side>, ldir: u8, taken: bool, codecs: Option<&[String]>) -> bool {
    run.check(a.typ == o.typ && a.proto == o.proto, key, || format!("line {i} answers {} {} with {} {}", o.typ, o.proto, a.typ, a.proto));
    run.check(!a.fmts.is_empty(), key, || format!("answer line {i} has no format"));
    let rtp = is_rtp(&o.proto);
    // what both sides can do, in the offer's order
    let supported = |f: &String| -> bool {
        if let Some(cs) = codecs {
            return codec(o, f).is_some_and(|c| cs.contains(&c));
        }
        let Some(l) = local else { return false };
        if !rtp {
            return l.m.fmts.contains(f);
        }
        match codec(o, f) {
            Some(c) => l.m.fmts.iter().any(|x| codec(&l.m, x).as_ref() == Some(&c)),
            None => false,
        }
    };
    let mut common: Vec<&String> = vec![];
    for f in &o.fmts {
        if supported(f) && !(rtp && common.contains(&f)) {
            common.push(f);
        }
    }
    if a.port == 0 {
        return false;
    }
    run.check(o.port != 0, key, || format!("line {i} was rejected in the offer but accepted in the answer"));
    if let Some(l) = local {
        run.check(l.m.proto == o.proto, key, || format!("line {i}: {} was accepted where this side only speaks {}", o.proto, l.m.proto));
        run.check(a.port == l.m.port, key, || format!("line {i}: this side receives on port {}, the answer says {}", l.m.port, a.port));
        run.check(a.conn == l.m.conn, key, || format!("line {i}: this side's connection is {:?}, the answer says {:?}", l.m.conn, a.conn));
    }
    // parameters the offer states and this side does not
    for f in &a.fmts {
        let p = |m: &M, f: &String| m.attrs.iter().filter(|(n, v)| n == "fmtp" && v.as_deref().is_some_and(|v| v.split(' ').next() == Some(f))).count();
        // (answers made from a profile state none but the event range)
        run.check(!rtp || p(o, f) == 0 || p(a, f) == 1 || key().starts_with("profile"), key, || format!("line {i}: the parameters offered for {f} have {} counterparts in the answer", p(a, f)));
    }
    run.check(!taken, key, || format!("line {i}: a second stream of type {} was accepted on one local port", a.typ));
    let mut at = 0;
    for f in &a.fmts {
        match o.fmts[at.min(o.fmts.len())..].iter().position(|x| x == f) {
            Some(p) => at += p + 1,
            None => run.violation(key(), format!("line {i}: format {f} is not offered, repeated or out of the offer's order ({:?} for {:?})", a.fmts, o.fmts)),
        }
        run.check(common.contains(&f), key, || format!("line {i}: format {f} does not mean the same to both sides"));
        if rtp && o.fmts.contains(f) {
            let (x, y) = (codec(o, f), codec(a, f));
            run.check(x == y, key, || format!("line {i}: format {f} is {x:?} in the offer and {y:?} in the answer"));
        }
    }
    for (n, v) in &a.attrs {
        if ["rtpmap", "fmtp"].contains(&n.as_str()) {
            let pt = v.as_deref().unwrap_or("").split(' ').next().unwrap().to_string();
            run.check(a.fmts.contains(&pt), key, || format!("line {i}: a={n} names format {pt}, which the line does not list"));
        }
    }
    let dirs = a.attrs.iter().filter(|(n, v)| v.is_none() && DIRS.contains(&n.as_str())).count();
    run.check(dirs <= 1, key, || format!("line {i}: {dirs} directions"));
    let ad = dir_of(&a.attrs).or(a_sess).unwrap_or(3);
    run.check(ad & !mirror(odir) == 0, key, || format!("line {i}: answered {} to an offer of {}", DIRS[ad as usize], DIRS[odir as usize]));
    run.check(ad & !ldir == 0, key, || format!("line {i}: answered {} though this side only wants {}", DIRS[ad as usize], DIRS[ldir as usize]));
    run.check(ad == mirror(odir) & ldir, key, || format!("line {i}: answered {} where {} was possible", DIRS[ad as usize], DIRS[(mirror(odir) & ldir) as usize]));
    run.check(a.fmts.len() == common.len(), key, || format!("line {i}: formats {:?} of the common {common:?}", a.fmts));
    true
}
fn acceptable(o: &M, local: Option<&Side>, codecs: Option<&[String]>) -> bool {
    if o.port == 0 {
        return false;
    }
    if let Some(cs) = codecs {
        return o.fmts.iter().any(|f| codec(o, f).is_some_and(|c| cs.contains(&c)));
    }
    let Some(l) = local else { return false };
    if l.m.proto != o.proto {
        return false;
    }
    if !is_rtp(&o.proto) {
        return o.fmts.iter().any(|f| l.m.fmts.contains(f));
    }
    o.fmts.iter().any(|f| codec(o, f).is_some_and(|c| l.m.fmts.iter().any(|x| codec(&l.m, x).as_ref() == Some(&c))))
}

/// formats and mappings of a media line
const F: [(&str, &str); 17] = [
    ("0", ""),
    ("8 0", "a=rtpmap:0 PCMU/8000\r\na=rtpmap:8 PCMA/8000\r\n"),
    ("96", "a=rtpmap:96 opus/48000/2\r\na=fmtp:96 o=1\r\n"),
    ("111 0 101", "a=rtpmap:111 OPUS/48000/2\r\na=rtpmap:101 telephone-event/8000\r\na=fmtp:101 0-16\r\n"),
    ("96 97", "a=rtpmap:96 VP8/90000\r\na=rtpmap:97 H264/90000\r\na=fmtp:97 p=1\r\n"),
    ("96 0", "a=rtpmap:96 G722/8000/1\r\na=rtpmap:99 opus/48000/2\r\n"),
    ("96", ""),
    ("0 96", "a=rtpmap:0 opus/48000/2\r\na=rtpmap:96 PCMU/8000\r\n"),
    ("35", "a=rtpmap:35 VP8/90000\r\n"),
    ("97 96", "a=rtpmap:97 opus/48000\r\na=rtpmap:96 opus/48000/2\r\na=fmtp:97 x=1\r\n"),
    ("9 3 18", ""),
    ("35 9", "a=rtpmap:35 opus/48000/2\r\na=ptime:20\r\n"),
    ("120 121", "a=rtpmap:120 opus/48000/2\r\na=rtpmap:121 opus/48000/2\r\n"),
    ("0 8 96 97 3", "a=rtpmap:96 opus/48000/2\r\na=rtpmap:97 VP8/90000\r\n"),
    ("101 102", "a=rtpmap:101 telephone-event/48000\r\na=rtpmap:102 telephone-event/8000\r\na=fmtp:102 0-15\r\n"),
    ("0 100 0 100", "a=rtpmap:100 opus/48000/2\r\na=rtpmap:0 PCMU/8000\r\n"),
    ("100", "a=rtpmap:100 telephone-event/8000/1\r\n"),
];
struct Line {
    text: String,
    m: M,
}
fn line(typ: &str, port: u16, proto: &str, f: (&str, &str), dir: Option<usize>) -> Line {
    // every other number has a connection of its own
    let conn = if port % 4 == 0 && f.0.len() > 2 { format!("c=IN IP4 198.51.100.{}\r\n", port % 251) } else { String::new() };
    let text = format!("m={typ} {port} {proto} {}\r\n{conn}{}{}", f.0, f.1, dir.map(|d| format!("a={}\r\n", DIRS[d])).unwrap_or_default());
    let m = view(&text).1.remove(0);
    Line { text, m }
}

fn offers(full: bool) -> Vec<Line> {
    let mut v = vec![];
    for f in F {
        v.push(line("audio", 4000, "RTP/AVP", f, None));
    }
    for d in 0..4 {
        v.push(line("audio", 4000, "RTP/AVP", F[1], Some(d)));
    }
    v.push(line("audio", 0, "RTP/AVP", F[1], None));
    v.push(line("audio", 4000, "RTP/SAVP", F[1], None));
    v.push(line("video", 4002, "RTP/AVP", F[4], None));
    v.push(line("video", 4002, "UDP/TLS/RTP/SAVPF", F[8], Some(1)));
    v.push(line("video", 0, "RTP/AVP", F[4], None));
    v.push(line("application", 9, "UDP", ("wb x", ""), None));
    v.push(line("message", 9, "TCP/MSRP", ("*", ""), None));
    if full {
        for f in F {
            for d in 0..4 {
                v.push(line("video", 4004, "RTP/AVP", f, Some(d)));
            }
            v.push(line("audio", 4000, "RTP/SAVP", f, None));
        }
        v.push(line("text", 4006, "RTP/AVP", ("98", "a=rtpmap:98 t140/1000\r\n"), None));
    }
    v
}

pub fn p17(run: &Run) {
    run.assume("local capabilities name each media type once and their own formats have mappings (or are the static numbers 0,3,4,8,9,18)");
    let small = offers(false);
    let full = offers(true);
    let caps: Vec<(usize, Option<usize>)> = (0..F.len()).filter(|&i| i != 6).flat_map(|f| [None, Some(0), Some(1), Some(2), Some(3)].map(|d| (f, d))).collect();
    let sess = [None, Some(0usize), Some(1), Some(2)];
    // one line in depth, two lines over everything, three over the small set
    let run_neg = |lines: &[&Line], sd: Option<usize>, cap: (usize, Option<usize>), vid: bool, csd: Option<usize>| {
        let offer = format!("{HEAD}{}{}", sd.map(|d| format!("a={}\r\n", DIRS[d])).unwrap_or_default(), lines.iter().map(|l| l.text.as_str()).collect::<String>());
        let la = line("audio", 7000, "RTP/AVP", F[cap.0], cap.1);
        let lv = line("video", 7002, if vid { "RTP/AVP" } else { "UDP/TLS/RTP/SAVPF" }, F[if vid { 4 } else { 8 }], None);
        let lx = line("application", 7004, "UDP", ("wb", ""), None);
        let local = format!("{HEAD}{}{}{}{}", csd.map(|d| format!("a={}\r\n", DIRS[d])).unwrap_or_default(), la.text, lv.text, lx.text);
        let key = || format!("negotiate_answer offer {:?} capabilities {:?}", &offer[HEAD.len()..], &local[HEAD.len()..]);
        run.step(1);
        run.state(&(offer.clone(), local.clone()));
        let (Ok(o), Ok(l)) = (SessionDescription::parse(&offer), SessionDescription::parse(&local)) else {
            return run.violation(key(), "a well-formed offer or capability set is refused");
        };
        let a = match quiet(|| ss::negotiate::negotiate_answer(&o, "10.0.0.1", &l)) {
            Err(p) => return run.violation(key(), format!("panics: {p}")),
            Ok(Err(e)) => return run.violation(key(), format!("no answer at all: {e}")),
            Ok(Ok(a)) => a,
        };
        run.trace();
        let text = a.serialize();
        run.check(SessionDescription::parse(&text).as_ref() == Ok(&a), key, || format!("the answer {text:?} is not a valid description of itself"));
        let (sa, ms, _) = view(&text);
        run.check(ms.len() == lines.len(), key, || format!("{} answer lines for {} offered", ms.len(), lines.len()));
        let mut taken: Vec<&str> = vec![];
        for (i, (x, m)) in lines.iter().zip(&ms).enumerate() {
            let side = [&la, &lv, &lx].into_iter().find(|c| c.m.typ == x.m.typ).map(|c| Side { m: c.m.clone() });
            let od = dir_of(&x.m.attrs).or(sd.map(|d| d as u8)).unwrap_or(3);
            let ld = side.as_ref().and_then(|s| dir_of(&s.m.attrs)).or(csd.map(|d| d as u8)).unwrap_or(3);
            let was = taken.contains(&x.m.typ.as_str());
            let ok = fits(run, &key, i, &x.m, od, m, dir_of(&sa), side.as_ref(), ld, was, None);
            if acceptable(&x.m, side.as_ref(), None) && !was {
                run.check(ok, key, || format!("line {i} could be accepted but is rejected"));
            }
            if ok {
                taken.push(&x.m.typ);
                // parameters belong to the right codec
                for (n, v) in &m.attrs {
                    if n == "fmtp" {
                        let (pt, p) = v.as_deref().unwrap().split_once(' ').unwrap();
                        let mine = |s: &M, pt: &str| s.attrs.iter().any(|(n, v)| n == "fmtp" && v.as_deref() == Some(&format!("{pt} {p}")));
                        let c = codec(&x.m, pt);
                        let l = side.as_ref().unwrap();
                        let good = mine(&x.m, pt) || l.m.fmts.iter().any(|f| codec(&l.m, f) == c && mine(&l.m, f));
                        run.check(good, key, || format!("line {i}: parameters {p:?} for format {pt} ({c:?}) belong to another codec"));
                    }
                }
            }
        }
    };
    product(run, &[full.len(), sess.len(), caps.len(), 2, 3], |v| run_neg(&[&full[v[0]]], sess[v[1]], caps[v[2]], v[3] == 0, [None, Some(1), Some(0)][v[4]]));
    // every transport protocol on either side
    let protos = ["RTP/AVP", "RTP/SAVP", "RTP/SAVPF", "UDP/TLS/RTP/SAVPF", "TCP/TLS/RTP/SAVPF", "RTP/AVPF", "UDP/TLS/RTP/SAVP", "TCP/RTP/AVP", "UDP", "udptl", "UDP/RTPX/1"];
    product(run, &[protos.len(), protos.len(), F.len(), F.len()], |v| {
        let o = line("audio", 4000, protos[v[0]], F[v[2]], None);
        let l = line("audio", 7000, protos[v[1]], F[v[3]], None);
        let (ot, lt) = (format!("{HEAD}{}", o.text), format!("{HEAD}{}", l.text));
        let key = || format!("negotiate_answer offer {:?} capabilities {:?}", o.text, l.text);
        run.step(1);
        run.state(&(&ot, &lt));
        let (Ok(od), Ok(ld)) = (SessionDescription::parse(&ot), SessionDescription::parse(&lt)) else {
            return run.violation(key(), "a well-formed offer or capability set is refused");
        };
        match quiet(|| ss::negotiate::negotiate_answer(&od, "10.0.0.1", &ld)) {
            Ok(Ok(a)) => {
                let (sa, ms, _) = view(&a.serialize());
                let side = Side { m: l.m.clone() };
                let ok = fits(run, &key, 0, &o.m, 3, &ms[0], dir_of(&sa), Some(&side), 3, false, None);
                run.check(ok == acceptable(&o.m, Some(&side), None), key, || format!("accepted={ok}"));
            }
            e => run.violation(key(), format!("no answer: {:?}", e.map(|e| e.map(|_| ())))),
        }
    });
    let two = if run.thorough() { &full } else { &small };
    let cap2: Vec<_> = caps.iter().filter(|c| run.thorough() || c.1.is_none() || c.0 == 1).cloned().collect();
    product(run, &[two.len(), two.len(), cap2.len(), 2], |v| run_neg(&[&two[v[0]], &two[v[1]]], None, cap2[v[2]], v[3] == 0, None));
    let cap3 = [(1, None), (3, Some(2)), (12, None)];
    product(run, &[small.len(), small.len(), small.len(), cap3.len(), run.pick(1, 4)], |v| run_neg(&[&small[v[0]], &small[v[1]], &small[v[2]]], sess[v[4]], cap3[v[3]], true, None));

    // the offer/answer engine of sip-core
    let audio: [&[(&str, u32, Option<u16>)]; 5] = [&[("PCMU", 8000, Some(1)), ("PCMA", 8000, Some(1))], &[("opus", 48000, Some(2)), ("telephone-event", 8000, None)], &[], &[("G722", 8000, Some(1)), ("gsm", 8000, None)], &[("opus", 48000, None), ("PCMU", 8000, None)]];
    let video: [&[(&str, u32, Option<u16>)]; 2] = [&[("VP8", 90000, None)], &[]];
    let run_oa = |lines: &[&Line], sd: Option<usize>, a: usize, vi: usize, dir: Option<usize>, base: u16, reject: &[usize], addr: &str| {
        let offer = format!("{HEAD}{}{}", sd.map(|d| format!("a={}\r\n", DIRS[d])).unwrap_or_default(), lines.iter().map(|l| l.text.as_str()).collect::<String>());
        let key = || format!("generate_answer offer {:?} audio {:?} video {:?} wish {:?} port {base} reject {reject:?} addr {addr}", &offer[HEAD.len()..], audio[a], video[vi], dir.map(|d| DIRS[d]));
        run.step(1);
        run.state(&key());
        let o = match cs::SdpSession::parse(&offer) {
            Ok(o) => o,
            Err(e) => return run.violation(key(), format!("a well-formed offer is refused: {e}")),
        };
        let mk = |v: &[(&str, u32, Option<u16>)]| v.iter().map(|(n, r, c)| oa::CodecInfo::new(n, *r, *c).unwrap()).collect::<Vec<_>>();
        let mut op = oa::AnswerOptions::new().with_local_address(addr).unwrap().with_base_port(base).with_audio_codecs(mk(audio[a])).unwrap().with_video_codecs(mk(video[vi])).unwrap().with_reject_media(reject.to_vec()).unwrap();
        if let Some(d) = dir {
            op = op.with_direction_override(cs::Direction::parse(DIRS[d]).unwrap());
        }
        let once = |op| quiet(|| oa::OfferAnswerEngine::new().generate_answer(&o, op));
        let a1 = match once(op.clone()) {
            Err(p) => return run.violation(key(), format!("panics: {p}")),
            Ok(Err(e)) => return run.violation(key(), format!("no answer at all: {e}")),
            Ok(Ok(x)) => x,
        };
        if let Ok(Ok(a2)) = once(op) {
            run.check(a1 == a2, key, || "the same offer and options give two different answers".into());
        }
        run.trace();
        let text = a1.to_string();
        run.check(cs::SdpSession::parse(&text).as_ref() == Ok(&a1), key, || format!("the answer {text:?} is not a valid description of itself"));
        let (sa, ms, head) = view(&text);
        run.check(head[&'t'] == "0 0", key, || "timing differs from the offer".into());
        let want = if addr.contains(':') { "IP6" } else { "IP4" };
        run.check(head[&'c'].split(' ').nth(1) == Some(want) && head[&'o'].split(' ').nth(4) == Some(want), key, || format!("address {addr} is announced as c={} o={}", head[&'c'], head[&'o']));
        run.check(ms.len() == lines.len(), key, || format!("{} answer lines for {} offered", ms.len(), lines.len()));
        let mut ports = vec![];
        for (i, (x, m)) in lines.iter().zip(&ms).enumerate() {
            let cs: Vec<String> = match x.m.typ.as_str() {
                "audio" => audio[a],
                "video" => video[vi],
                _ => &[],
            }
            .iter()
            .map(|(n, r, c)| norm_codec(&format!("{n}/{r}{}", c.map(|c| format!("/{c}")).unwrap_or_default())))
            .collect();
            let od = dir_of(&x.m.attrs).or(sd.map(|d| d as u8)).unwrap_or(3);
            let ok = fits(run, &key, i, &x.m, od, m, dir_of(&sa), None, dir.unwrap_or(3) as u8, false, Some(&cs));
            run.check(!(ok && reject.contains(&i)), key, || format!("line {i} was to be rejected"));
            if ok {
                run.check(ports.iter().all(|p: &u16| p.abs_diff(m.port) > 1), key, || format!("line {i}: port {} (or its neighbour for RTCP) given out twice", m.port));
                ports.push(m.port);
                for (n, v) in &m.attrs {
                    if n == "fmtp" {
                        run.check(x.m.attrs.iter().any(|(k, w)| k == n && w == v), key, || format!("line {i}: parameters {v:?} were never offered"));
                    }
                }
            }
            if acceptable(&x.m, None, Some(&cs)) && !reject.contains(&i) && base < 60000 {
                run.check(ok, key, || format!("line {i} could be accepted but is rejected"));
            }
        }
    };
    let rejects: [&[usize]; 3] = [&[], &[0], &[1, 7]];
    let wish = [None, Some(0), Some(1), Some(2), Some(3)];
    product(run, &[full.len(), sess.len(), 5, 2, 5, 2], |v| run_oa(&[&full[v[0]]], sess[v[1]], v[2], v[3], wish[v[4]], 50000, &[], ["10.0.0.1", "2001:db8::2"][v[5]]));
    product(run, &[two.len(), two.len(), 5, 3, 4], |v| run_oa(&[&two[v[0]], &two[v[1]]], None, v[2], 0, None, [50000, 65534, 65535, 1][v[4]], rejects[v[3]], "10.0.0.1"));
    product(run, &[small.len(), small.len(), small.len(), 3, 3], |v| run_oa(&[&small[v[0]], &small[v[1]], &small[v[2]]], None, [0, 1, 4][v[3]], 0, None, [50000, 65532, 65535][v[4]], &[], "10.0.0.1"));
    // the timing lines of the answer are the offer's
    let times = ["t=0 0", "t=1 2", "r=7d 1h 0", "r=1d 1h 0 25h", "t=5 0"];
    for len in 1..=4 {
        sequences(run, times.len(), len, |q| {
            if q[0] == 2 || q[0] == 3 {
                return;
            }
            let t: String = q.iter().map(|&i| format!("{}\r\n", times[i])).collect();
            let offer = HEAD.replace("t=0 0\r\n", &t) + "m=audio 4000 RTP/AVP 0\r\n";
            run.step(1);
            run.state(&offer);
            let key = || format!("generate_answer timing {t:?}");
            let o = cs::SdpSession::parse(&offer).unwrap();
            let a = oa::OfferAnswerEngine::new().generate_answer(&o, oa::AnswerOptions::new()).map(|a| a.to_string()).unwrap_or_default();
            let got: String = a.lines().filter(|l| l.starts_with("t=") || l.starts_with("r=")).map(|l| format!("{l}\r\n")).collect();
            run.check(got == t, key, || format!("the answer is for {got:?}"));
        });
    }
    profiles(run, &small, run_profile);
    statics(run);
    // what the caller configures must be printable
    for bad in ["", "a b", "a\tb"] {
        let e = oa::OfferAnswerEngine::new();
        let o = cs::SdpSession::parse(&format!("{HEAD}m=audio 1 RTP/AVP 0\r\n")).unwrap();
        for (what, op) in [("username", oa::AnswerOptions::new().with_username(bad)), ("session id", oa::AnswerOptions::new().with_session_id(bad)), ("address", oa::AnswerOptions::new().with_local_address(bad))] {
            run.step(1);
            if let Ok(op) = op {
                if let Ok(a) = e.generate_answer(&o, op) {
                    run.check(cs::SdpSession::parse(&a.to_string()).as_ref() == Ok(&a), || format!("generate_answer with {what} {bad:?}"), || format!("answer {:?} is not a valid description of itself", a.to_string()));
                }
            }
        }
    }
}

/// The static assignments of RFC 3551.
const STATIC: [(u8, &str, u32, u8, bool); 24] = [
    (0, "PCMU", 8000, 1, true), (3, "GSM", 8000, 1, true), (4, "G723", 8000, 1, true), (5, "DVI4", 8000, 1, true), (6, "DVI4", 16000, 1, true), (7, "LPC", 8000, 1, true), (8, "PCMA", 8000, 1, true), (9, "G722", 8000, 1, true),
    (10, "L16", 44100, 2, true), (11, "L16", 44100, 1, true), (12, "QCELP", 8000, 1, true), (13, "CN", 8000, 1, true), (14, "MPA", 90000, 1, true), (15, "G728", 8000, 1, true), (16, "DVI4", 11025, 1, true), (17, "DVI4", 22050, 1, true),
    (18, "G729", 8000, 1, true), (25, "CelB", 90000, 0, false), (26, "JPEG", 90000, 0, false), (28, "nv", 90000, 0, false), (31, "H261", 90000, 0, false), (32, "MPV", 90000, 0, false), (33, "MP2T", 90000, 0, false), (34, "H263", 90000, 0, false),
];

/// Every static payload type against every codec, mapped and unmapped, in
/// both roles; packet times; offers from profiles.
fn statics(run: &Run) {
    use sip_core::rtp_avp as avp;
    let table = |pt: u8| STATIC.iter().find(|s| s.0 == pt);
    for pt in 0..=255u8 {
        run.step(1);
        let got = avp::get_static_payload_type(pt).map(|s| (s.payload_type(), s.encoding_name(), s.clock_rate(), s.channels().unwrap_or(0), s.media_type() == "audio"));
        let want = table(pt).copied();
        // MPA has no fixed number of channels
        let same = match (got, want) {
            (Some(g), Some(w)) => (g.0, g.2, g.4) == (w.0, w.2, w.4) && g.1.eq_ignore_ascii_case(w.1) && (pt == 14 || g.3 == w.3),
            (g, w) => g.is_none() && w.is_none(),
        };
        run.check(same, || format!("static payload type {pt}"), || format!("{got:?}, RFC 3551 has {want:?}"));
        run.check(avp::is_static_range(pt) == (pt < 96) && avp::is_dynamic_range(pt) == (96..128).contains(&pt) && avp::is_reserved(pt) == (72..77).contains(&pt), || format!("range of payload type {pt}"), || "wrong".into());
    }
    for s in STATIC {
        for name in [s.1.to_string(), s.1.to_lowercase(), s.1.to_uppercase(), format!("{}x", s.1), s.1[1..].to_string()] {
            let like = |t: &&(u8, &str, u32, u8, bool)| t.1.eq_ignore_ascii_case(&name);
            run.check(avp::get_payload_type(&name) == STATIC.iter().find(like).map(|t| t.0), || format!("payload type of {name}"), || "wrong".into());
            for rate in STATIC.iter().map(|t| t.2).chain([0, s.2 + 1]) {
                run.step(1);
                let want = STATIC.iter().filter(like).find(|t| t.2 == rate).map(|t| t.0);
                run.check(avp::get_payload_type_with_rate(&name, rate) == want, || format!("payload type of {name}/{rate}"), || format!("expected {want:?}"));
            }
        }
    }
    let desc = |fmts: &str, maps: &str| SessionDescription::parse(&format!("{HEAD}m=audio 4000 RTP/AVP {fmts}\r\n{maps}")).unwrap();
    let pts: Vec<Vec<String>> = (0..128u8).map(|pt| vec![pt.to_string()]).collect();
    common::par_for(run, 128, |pt| {
        let bare = &pts[pt][0];
        let mean = table(pt as u8);
        for s in STATIC.iter().chain(&[(0, "DVI4", 8001, 1, true), (0, "L16", 44100, 3, true)]) {
            for ch in [0u8, 1, 2] {
                let n = if ch == 0 { s.3 } else { ch };
                let map = format!("a=rtpmap:100 {}/{}{}\r\n", s.1, s.2, if n > 1 { format!("/{n}") } else { String::new() });
                let fit = mean.is_some_and(|m| m.1.eq_ignore_ascii_case(s.1) && m.2 == s.2 && m.3.max(1) == n.max(1));
                for (o, l, f) in [(desc(bare, ""), desc("100", &map), bare.as_str()), (desc("100", &map), desc(bare, ""), "100")] {
                    run.step(1);
                    let a = ss::negotiate::negotiate_answer(&o, "10.0.0.1", &l).map(|a| (a.media[0].port > 0).then(|| a.media[0].formats.clone()));
                    let want = fit.then(|| f.to_string());
                    let got = a.as_ref().ok().and_then(|x| x.clone()).map(|x| x.join(" "));
                    run.check(a.is_ok() && got == want, || format!("payload type {pt} without a mapping against {map:?}, offered {f}"), || format!("answered {got:?}, expected {want:?}"));
                }
            }
        }
        for other in 0..128u8 {
            run.step(1);
            let a = ss::negotiate::negotiate_answer(&desc(bare, ""), "10.0.0.1", &desc(&other.to_string(), "")).unwrap();
            let want = pt as u8 == other && pt < 96;
            run.check((a.media[0].port > 0) == want, || format!("payload types {pt} and {other} without mappings"), || format!("expected accepted={want}"));
        }
    });
    // packet times: ours, or the offered one
    for o in [None, Some(10u32), Some(20)] {
        for l in [None, Some(20u32), Some(60)] {
            run.step(1);
            let p = |v: Option<u32>| v.map(|v| format!("a=ptime:{v}\r\n")).unwrap_or_default();
            let a = ss::negotiate::negotiate_answer(&desc("0", &p(o)), "10.0.0.1", &desc("0", &p(l))).unwrap();
            let n = a.serialize().matches("a=ptime").count();
            run.check(a.media[0].ptime() == l.or(o) && n <= 1, || format!("packet time {o:?} offered, {l:?} here"), || format!("answered {:?} in {n} lines", a.media[0].ptime()));
        }
    }
    // direction tables
    use ss::negotiate::Direction as D;
    let ds = [D::Inactive, D::SendOnly, D::RecvOnly, D::SendRecv];
    for (i, a) in ds.iter().enumerate() {
        run.check(a.reverse() == ds[mirror(i as u8) as usize], || format!("reverse of {a:?}"), || "wrong".into());
        for (j, b) in ds.iter().enumerate() {
            run.step(1);
            // something flows from one to the other, or nothing is wanted at all
            let fit = if i == 0 || j == 0 { i == j } else { i as u8 & mirror(j as u8) != 0 };
            run.check(a.is_compatible_with(b) == fit, || format!("{a:?} with {b:?}"), || format!("expected {fit}"));
            match a.negotiate(b) {
                Err(_) => run.check(!fit, || format!("negotiating {a:?} with {b:?}"), || "refused".into()),
                Ok(d) => run.check(fit && (d == *a || d == *b) && (i != 3 || d == *b) && (j != 3 || d == *a), || format!("negotiating {a:?} with {b:?}"), || format!("gives {d:?}")),
            }
        }
    }
    // what profiles offer
    use ss::profiles::{create_from_profile, MediaProfileBuilder as B, SdpProfile};
    let check = |what: String, d: SessionDescription, codecs: &[&str], vcodecs: Option<&[&str]>, port: u16, vport: Option<u16>, dir: &str, mux: bool| {
        run.step(1);
        let key = || format!("offer of {what}");
        let text = d.serialize();
        run.state(&text);
        run.check(SessionDescription::parse(&text).as_ref() == Ok(&d), key, || format!("{text:?} is not a valid description of itself"));
        let (_, ms, _) = view(&text);
        let want: Vec<(&str, &[&str])> = [("audio", codecs)].into_iter().chain(vcodecs.map(|v| ("video", v))).collect();
        run.check(ms.len() == want.len(), key, || format!("{} lines", ms.len()));
        for (m, (typ, cs)) in ms.iter().zip(&want) {
            let got: Vec<String> = m.fmts.iter().map(|f| codec(m, f).unwrap_or_default()).collect();
            run.check(m.typ == *typ && m.proto == "RTP/AVP" && got == *cs, key, || format!("{} {} offers {got:?}, expected {cs:?}", m.typ, m.proto));
            let mut seen = vec![];
            for (n, v) in &m.attrs {
                if ["rtpmap", "fmtp", "rtcp-fb"].contains(&n.as_str()) {
                    let pt = v.as_deref().unwrap_or("").split(' ').next().unwrap().to_string();
                    run.check(m.fmts.contains(&pt), key, || format!("a={n} names format {pt}, which the line does not list"));
                    if n == "rtpmap" {
                        run.check(!seen.contains(&pt), key, || format!("format {pt} is mapped twice"));
                        seen.push(pt.clone());
                        let own = STATIC.iter().find(|s| s.0.to_string() == pt);
                        run.check(own.is_none_or(|s| codec(m, &pt) == Some(format!("{}/{}", s.1.to_lowercase(), s.2))), key, || format!("format {pt} is mapped to something else than its static assignment"));
                    }
                    if n == "fmtp" {
                        run.check(codec(m, &pt).as_deref() != Some("telephone-event/8000") || v.as_deref() == Some(&format!("{pt} 0-16")), key, || format!("events {v:?}"));
                    }
                }
            }
            let events = m.fmts.iter().filter(|f| codec(m, f).as_deref() == Some("telephone-event/8000")).count();
            run.check(m.attrs.iter().filter(|(n, _)| n == "fmtp").count() == events, key, || "telephone events without their range".into());
            run.check(dir_of(&m.attrs) == DIRS.iter().position(|x| *x == dir).map(|x| x as u8), key, || format!("direction is not {dir}"));
            run.check(m.attrs.iter().any(|(n, v)| n == "rtcp-mux" && v.is_none()) == mux, key, || format!("rtcp-mux is not {mux}"));
        }
        run.check(ms[0].port == port, key, || format!("port {}", ms[0].port));
        if let Some(v) = ms.get(1) {
            let want = vport.unwrap_or(port.checked_add(2).unwrap_or_else(|| port - 2));
            run.check(v.port == want, key, || format!("video port {}, expected {want}", v.port));
        }
    };
    let (au, vi) = (["pcmu/8000", "pcma/8000", "telephone-event/8000"], ["h264/90000", "vp8/90000"]);
    for port in [1u16, 8000, 65532, 65533, 65534, 65535] {
        for vp in [None, Some(9002u16)] {
            for (name, p, v) in [("audio", SdpProfile::AudioOnly, false), ("audio and video", SdpProfile::AudioVideo, true), ("a custom profile", SdpProfile::Custom, false)] {
                check(format!("{name} port {port} {vp:?}"), create_from_profile(p, "al", "10.0.0.1", port, vp), &au, v.then_some(&vi[..]), port, vp, "sendrecv", false);
            }
            for (k, dir) in DIRS.iter().enumerate() {
                for tel in [false, true] {
                    for mux in [None, Some(false), Some(true)] {
                        for extra in [false, true] {
                            let mut b = if k % 2 == 0 { B::audio_video() } else { B::audio_only() }.direction(dir).telephone_event(tel);
                            if let Some(m) = mux {
                                b = b.rtcp_mux(m);
                            }
                            let mut a = au[..2].to_vec();
                            let mut v = vi.to_vec();
                            if extra {
                                b = b.add_audio_codec(9, "G722", 8000).add_video_codec(98, "AV1", 90000);
                                a.push("g722/8000");
                                v.push("av1/90000");
                            }
                            if tel {
                                a.push(au[2]);
                            }
                            // a video codec turns video on
                            let video = k % 2 == 0 || extra;
                            if k % 2 == 1 {
                                v = vec!["av1/90000"];
                            }
                            check(format!("builder {k} events {tel} mux {mux:?} extra {extra} port {port} {vp:?}"), b.build("al", "10.0.0.1", port, vp), &a, video.then_some(&v[..]), port, vp, dir, mux.unwrap_or(true));
                        }
                    }
                }
            }
        }
    }
    // profile answers take rtcp-mux only where it was offered
    for (offered, mine) in [(false, false), (false, true), (true, false), (true, true)] {
        run.step(1);
        let o = desc("0 101", &format!("a=rtpmap:101 telephone-event/8000\r\n{}", if offered { "a=rtcp-mux\r\n" } else { "" }));
        let a = ss::profiles::negotiate_answer(&o, &B::audio_only().rtcp_mux(mine), "bob", "10.0.0.1", 7000, None).serialize();
        run.check(a.contains("a=rtcp-mux") == (offered && mine), || format!("rtcp-mux offered {offered}, here {mine}"), || a.clone());
        run.check(a.contains("a=fmtp:101 0-16\r\n"), || "event range in a profile answer".into(), || a.clone());
    }
}

type ProfFn = fn(&Run, &[&Line], usize, usize, u16);
fn prof(i: usize) -> (ss::profiles::MediaProfileBuilder, Vec<(u8, &'static str)>) {
    use ss::profiles::MediaProfileBuilder as B;
    match i {
        0 => (B::audio_only(), vec![(0, "pcmu/8000"), (8, "pcma/8000"), (101, "telephone-event/8000")]),
        1 => (B::audio_video(), vec![(0, "pcmu/8000"), (8, "pcma/8000"), (101, "telephone-event/8000"), (96, "h264/90000"), (97, "vp8/90000")]),
        _ => (B::audio_only().telephone_event(false).add_audio_codec(9, "G722", 8000), vec![(0, "pcmu/8000"), (8, "pcma/8000"), (9, "g722/8000")]),
    }
}
/// Profile answers: what they accept was offered, means the same to both and
/// flows in a direction the offer allows; they are printable.
fn run_profile(run: &Run, lines: &[&Line], p: usize, dir: usize, port: u16) {
    let offer = format!("{HEAD}{}", lines.iter().map(|l| l.text.as_str()).collect::<String>());
    let key = || format!("profile answer, offer {:?} profile {p} {} port {port}", &offer[HEAD.len()..], DIRS[dir]);
    run.step(1);
    let Ok(o) = SessionDescription::parse(&offer) else { return run.violation(key(), "a well-formed offer is refused") };
    let (b, codecs) = prof(p);
    let a = match quiet(|| ss::profiles::negotiate_answer(&o, &b.direction(DIRS[dir]), "bob", "10.0.0.1", port, None)) {
        Err(e) => return run.violation(key(), format!("panics: {e}")),
        Ok(a) => a,
    };
    run.trace();
    let text = a.serialize();
    run.check(SessionDescription::parse(&text).as_ref() == Ok(&a), key, || format!("the answer {text:?} is not a valid description of itself"));
    let (sa, ms, _) = view(&text);
    // a profile without video leaves video lines out (recorded finding)
    let lines: Vec<&&Line> = lines.iter().filter(|l| p == 1 || l.m.typ != "video").collect();
    run.check(ms.len() == lines.len(), key, || format!("{} answer lines for {} offered", ms.len(), lines.len()));
    let mut taken: Vec<&str> = vec![];
    for (i, (o, m)) in lines.iter().zip(&ms).enumerate() {
        let mine: Vec<String> = codecs.iter().filter(|c| (c.0 > 95 && c.0 < 100) == (o.m.typ == "video") && o.m.typ != "application").map(|c| c.1.to_string()).collect();
        let was = taken.contains(&o.m.typ.as_str());
        let ok = fits(run, &key, i, &o.m, dir_of(&o.m.attrs).unwrap_or(3), m, dir_of(&sa), None, dir as u8, was, Some(&mine));
        if acceptable(&o.m, None, Some(&mine)) && o.m.proto == "RTP/AVP" && !was {
            run.check(ok, key, || format!("line {i} could be accepted but is rejected"));
        }
        if ok {
            taken.push(&o.m.typ);
        }
    }
}
fn profiles(run: &Run, small: &[Line], f: ProfFn) {
    product(run, &[small.len(), 3, 4], |v| f(run, &[&small[v[0]]], v[1], v[2], 7000));
    product(run, &[small.len(), small.len(), 3, 2], |v| f(run, &[&small[v[0]], &small[v[1]]], v[2], 3, [7000, 65534][v[3]]));
    product(run, &[small.len(), small.len(), small.len()], |v| f(run, &[&small[v[0]], &small[v[1]], &small[v[2]]], 1, 3, 7000));
    // one line per offered line: designated case of a recorded finding
    let (x, y) = (line("audio", 4000, "RTP/AVP", F[0], None), line("video", 4002, "RTP/AVP", F[4], None));
    let offer = SessionDescription::parse(&format!("{HEAD}{}{}", x.text, y.text)).unwrap();
    let a = ss::profiles::negotiate_answer(&offer, &prof(0).0, "bob", "10.0.0.1", 7000, None);
    run.check(a.media.len() == 2, || "profile answer drops an unsupported video line".into(), || format!("{} media lines answer 2 offered", a.media.len()));
}

// ------------------------------------------------------------ hold, resume --

pub fn p18(run: &Run) {
    run.assume("a resume offer undoes a hold offer for streams that were receiving; streams that were already held are resumed, which the interface documents");
    let dirs = [None, Some(0usize), Some(1), Some(2), Some(3)];
    let bodies = [
        "m=audio 4000 RTP/AVP 0 96\r\ni=t\r\nb=AS:9\r\na=mid:1\r\na=rtpmap:96 opus/48000/2\r\n@a=fmtp:96 x=1\r\na=sendonly:x\r\n",
        "m=video 0 RTP/AVP 97\r\n@a=rtpmap:97 VP8/90000\r\na=rtcp:9\r\n",
        "m=message 9 TCP/MSRP *\r\nc=IN IP4 h\r\na=path:x\r\n@",
    ];
    let versions = ["0", "3", "18446744073709551615", "99", "9999999999999999999999"];
    let strip = |t: &str| -> Vec<String> {
        t.lines().filter(|l| !DIRS.iter().any(|d| *l == format!("a={d}")) && !l.starts_with("o=")).map(|s| s.to_string()).collect()
    };
    let ver = |t: &str| view(t).2[&'o'].split(' ').nth(2).unwrap().to_string();
    let grew = |a: &str, b: &str| {
        let t = |s: &str| s.trim_start_matches('0').to_string();
        let (a, b) = (t(a), t(b));
        (b.len(), b.clone()) > (a.len(), a.clone())
    };
    let dirs_of = |t: &str| -> Vec<u8> {
        let (sa, ms, _) = view(t);
        let d = dir_of(&sa).unwrap_or(3);
        ms.iter().map(|m| dir_of(&m.attrs).unwrap_or(d)).collect()
    };
    let n = run.pick(4, 6);
    // session direction, media directions, media set, version, history of holds and resumes
    product(run, &[5, 5, 5, 7, versions.len(), 1 << n], |v| {
        let sets: [&[usize]; 7] = [&[0], &[1], &[2], &[0, 1], &[2, 0], &[0, 1, 2], &[]];
        let mut text = format!("v=0\r\no=al 7 {} IN IP4 192.0.2.7\r\ns=talk\r\nc=IN IP4 192.0.2.7\r\nt=0 0\r\na=tool:x\r\n", versions[v[4]]);
        if let Some(d) = dirs[v[0]] {
            text += &format!("a={}\r\n", DIRS[d]);
        }
        for (i, &s) in sets[v[3]].iter().enumerate() {
            let d = dirs[v[1 + i % 2]];
            text += &bodies[s].replace('@', &d.map(|d| format!("a={}\r\n", DIRS[d])).unwrap_or_default());
        }
        let key = || format!("history {:b} from {text:?}", v[5]);
        let mut cur = match cs::SdpSession::parse(&text) {
            Ok(s) => s,
            Err(e) => return run.violation(key(), format!("a well-formed description is refused: {e}")),
        };
        run.state(&(text.clone(), v[5]));
        let e = oa::OfferAnswerEngine::new();
        let mut before_hold: Option<Vec<u8>> = None;
        for step in 0..n {
            let hold = v[5] >> step & 1 == 1;
            let was = cur.to_string();
            let next = match quiet(|| if hold { e.create_hold_offer(&cur) } else { e.create_resume_offer(&cur) }) {
                Ok(n) => n,
                Err(p) => return run.violation(key(), format!("step {step} panics: {p}")),
            };
            run.step(1);
            let now = next.to_string();
            run.check(cs::SdpSession::parse(&now).as_ref() == Ok(&next), key, || format!("step {step}: {now:?} is not a valid description of itself"));
            run.check(strip(&was) == strip(&now), key, || format!("step {step}: more than the direction changed: {:?} became {:?}", strip(&was), strip(&now)));
            let (o1, o2) = (view(&was).2[&'o'].clone(), view(&now).2[&'o'].clone());
            let cut = |o: &str| o.split(' ').enumerate().filter(|(i, _)| *i != 2).map(|x| x.1.to_string()).collect::<Vec<_>>();
            run.check(cut(&o1) == cut(&o2), key, || format!("step {step}: origin {o1} became {o2}"));
            run.check(grew(&ver(&was), &ver(&now)), key, || format!("step {step}: version {} became {}", ver(&was), ver(&now)));
            let (d1, d2) = (dirs_of(&was), dirs_of(&now));
            for (i, (a, b)) in d1.iter().zip(&d2).enumerate() {
                if hold {
                    run.check(*b == a & 1, key, || format!("step {step}: hold turns line {i} from {} to {}", DIRS[*a as usize], DIRS[*b as usize]));
                } else {
                    run.check(*b == a | 2, key, || format!("step {step}: resume turns line {i} from {} to {}", DIRS[*a as usize], DIRS[*b as usize]));
                }
            }
            if hold {
                before_hold = Some(d1);
            } else if let Some(b) = before_hold.take() {
                if b.iter().all(|d| d & 2 == 2) {
                    run.check(b == d2, key, || format!("step {step}: resuming gives {d2:?}, before the hold it was {b:?}"));
                }
            }
            // the other side's answer mirrors it
            let op = oa::AnswerOptions::new().with_local_address("10.0.0.1").unwrap().with_audio_codecs(vec![oa::CodecInfo::new("PCMU", 8000, Some(1)).unwrap()]).unwrap();
            match e.generate_answer(&next, op) {
                Ok(a) => {
                    for (i, (m, d)) in view(&a.to_string()).1.iter().zip(&d2).enumerate() {
                        if m.port != 0 {
                            let ad = dir_of(&m.attrs).unwrap_or(3);
                            run.check(ad == mirror(*d), key, || format!("step {step}: line {i} offered {} is answered {}", DIRS[*d as usize], DIRS[ad as usize]));
                        }
                    }
                }
                Err(e) => run.violation(key(), format!("step {step}: no answer: {e}")),
            }
            cur = next;
        }
        run.trace();
    });
}

// ----------------------------------------------------------- preconditions --

pub fn p19(run: &Run) {
    let types = ["qos", "sec"];
    let stat = ["e2e", "local", "remote"];
    let dirs = ["none", "send", "recv", "sendrecv"];
    let bits = |d: usize| d as u8; // none 0, send 1, recv 2, sendrecv 3
    let strengths = ["mandatory", "optional", "none", "failure", "unknown"];
    // every status line
    let curr: Vec<(usize, usize, usize)> = (0..2).flat_map(|t| (0..3).flat_map(move |s| (0..4).map(move |d| (t, s, d)))).collect();
    let des: Vec<(usize, usize, usize, usize)> = (0..2).flat_map(|t| (0..5).flat_map(move |g| (0..3).flat_map(move |s| (0..4).map(move |d| (t, g, s, d))))).filter(|x| run.thorough() || x.0 == 0 || (x.1 == 0 && x.3 != 2)).collect();
    let ctext = |c: &(usize, usize, usize)| format!("a=curr:{} {} {}\r\n", types[c.0], stat[c.1], dirs[c.2]);
    let dtext = |c: &(usize, usize, usize, usize)| format!("a=des:{} {} {} {}\r\n", types[c.0], strengths[c.1], stat[c.2], dirs[c.3]);
    let eval = |cs_: &[&(usize, usize, usize)], ds: &[&(usize, usize, usize, usize)], order: usize| {
        let c: String = cs_.iter().map(|c| ctext(c)).collect();
        let d: String = ds.iter().map(|d| dtext(d)).collect();
        let body = if order == 0 { format!("{c}{d}") } else { format!("{d}a=sendrecv\r\n{c}") };
        let text = format!("{HEAD}m=video 2 RTP/AVP 9\r\na=des:qos mandatory e2e sendrecv\r\nm=audio 4000 RTP/AVP 0\r\n{body}");
        run.step(1);
        run.state(&text);
        let key = || format!("preconditions {body:?}");
        let s = match cs::SdpSession::parse(&text) {
            Ok(s) => s,
            Err(e) => {
                run.violation(key(), format!("well-formed preconditions are refused: {e}"));
                return false;
            }
        };
        // own evaluation: what all current lines of that type and scope add up to
        let want = ds.iter().all(|d| d.1 != 0 || {
            let have = cs_.iter().filter(|c| c.0 == d.0 && c.1 == d.2).fold(0, |b, c| b | bits(c.2));
            let any = cs_.iter().any(|c| c.0 == d.0 && c.1 == d.2);
            any && have & bits(d.3) == bits(d.3)
        });
        let got = s.are_preconditions_met(1);
        run.check(got == want, key, || format!("reported met={got}, by the lines {want}"));
        run.check(!s.are_preconditions_met(0), || "preconditions of the other line".into(), || "an unmet line is reported met".into());
        run.check(s.find_current_status(1).len() == cs_.len() && s.find_desired_status(1).len() == ds.len(), key, || "a status line was not read".into());
        run.trace();
        got
    };
    let nc = curr.len();
    let nd = des.len();
    product(run, &[nd + 1, nc + 1, nc + 1, 2], |v| {
        let c: Vec<_> = [v[1], v[2]].iter().filter(|&&i| i < nc).map(|&i| &curr[i]).collect();
        let d: Vec<_> = [v[0]].iter().filter(|&&i| i < nd).map(|&i| &des[i]).collect();
        let r = eval(&c, &d, v[3]);
        // one current line less can only make it less ready
        if v[2] < nc && v[1] < nc {
            let less = eval(&c[..1], &d, v[3]);
            run.check(!less || r, || format!("preconditions {c:?} {d:?}"), || "adding current status made a ready session unready".into());
        }
    });
    product(run, &[nd, nd, nc + 1, run.pick(8, nc + 1)], |v| {
        let extra = if run.thorough() { v[3] } else { [0, 3, 5, 7, 11, 15, 23, nc][v[3]] };
        let c: Vec<_> = [v[2], extra].iter().filter(|&&i| i < nc).map(|&i| &curr[i]).collect();
        eval(&c, &[&des[v[0]], &des[v[1]]], 0);
    });
    // status spread over many lines, one requirement
    let few: Vec<usize> = (0..nc).filter(|i| run.thorough() || (curr[*i].0 == 0 && curr[*i].1 != 2) || *i == 23).collect();
    product(run, &[few.len(), few.len(), few.len(), few.len(), 4], |v| {
        let c: Vec<_> = v[..4].iter().map(|&i| &curr[few[i]]).collect();
        eval(&c, &[&(0, 0, [0, 1, 0, 1][v[4]], [3, 3, 1, 2][v[4]])], 0);
    });
    // answers: the other side's view of the same table
    let conf: Vec<(usize, usize, usize)> = curr.clone();
    product(run, &[nc, nd, conf.len() + 1, 5, 5, 2], |v| {
        let (c, d) = (&curr[v[0]], &des[v[1]]);
        if !run.thorough() && (v[0] + v[1] + v[2]) % 3 != 0 && v[2] != conf.len() {
            return;
        }
        let cf = conf.get(v[2]);
        let body = format!("{}{}{}", ctext(c), dtext(d), cf.map(|c| ctext(c).replace("a=curr", "a=conf")).unwrap_or_default());
        let s = cs::SdpSession::parse(&format!("{HEAD}m=audio 4000 RTP/AVP 0\r\n{body}")).unwrap();
        let pd = |i: usize| cs::PreconditionDirection::parse(dirs[i]).unwrap();
        let mut op = oa::AnswerOptions::new().with_upgrade_preconditions(v[5] == 1);
        if v[3] < 4 {
            op = op.with_qos_local_status(pd(v[3]));
        }
        if v[4] < 4 {
            op = op.with_qos_remote_status(pd(v[4]));
        }
        run.step(1);
        let a = oa::OfferAnswerEngine::new().generate_answer(&s, op).unwrap();
        let got: Vec<String> = a.to_string().lines().filter(|l| ["a=curr", "a=des:", "a=conf"].iter().any(|p| l.starts_with(p))).map(|s| s.to_string()).collect();
        let inv = |d: usize| mirror(d as u8) as usize;
        let swap = [0, 2, 1];
        let mut want = vec![];
        if c.0 == 0 {
            let s = swap[c.1];
            let dd = match s {
                0 => inv(c.2),
                1 => v[3] % 4,
                _ => v[4] % 4,
            };
            want.push(ctext(&(0, s, dd)));
        }
        if d.0 == 0 {
            let g = if v[5] == 1 && d.1 == 1 { 0 } else { d.1 };
            want.push(dtext(&(0, g, swap[d.2], inv(d.3))));
        }
        if let Some(cf) = cf.filter(|c| c.0 == 0) {
            want.push(ctext(&(0, swap[cf.1], inv(cf.2))).replace("a=curr", "a=conf"));
        }
        let want: Vec<String> = want.iter().map(|s| s.trim_end().to_string()).collect();
        run.check(got == want, || format!("answer to preconditions {body:?} local {} remote {} upgrade {}", v[3], v[4], v[5]), || format!("answered {got:?}, expected {want:?}"));
    });
}
