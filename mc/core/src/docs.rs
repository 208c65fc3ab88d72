//! P31: event-package documents. Every document built is printed, read back by
//! the library where it has a reader, and read by an independent reader.
use common::*;
use sip_core::*;
use std::collections::BTreeMap;

// ---- an independent reader of the XML the builders may produce -------------
#[derive(Debug, Default, Clone, PartialEq)]
struct Node {
    name: String,
    attrs: Vec<(String, String)>,
    kids: Vec<Node>,
    text: String,
}
impl Node {
    fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str())
    }
    fn all<'a>(&'a self, n: &'a str) -> impl Iterator<Item = &'a Node> + 'a {
        self.kids.iter().filter(move |k| k.name == n)
    }
    fn one(&self, n: &str) -> Option<&Node> {
        self.kids.iter().find(|k| k.name == n)
    }
}
fn entity(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        let end = rest[i..].find(';')? + i;
        out.push(match &rest[i + 1..end] {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            e => char::from_u32(u32::from_str_radix(e.strip_prefix("#x")?, 16).ok()?)?,
        });
        rest = &rest[end + 1..];
    }
    out.push_str(rest);
    Some(out)
}
fn read_xml(s: &str) -> Option<Node> {
    let s = s.strip_prefix("<?xml ")?;
    let s = &s[s.find("?>")? + 2..];
    let (n, rest) = element(s.trim_start())?;
    rest.trim().is_empty().then_some(n)
}
fn element(s: &str) -> Option<(Node, &str)> {
    let mut rest = s.strip_prefix('<')?;
    let mut n = Node::default();
    let e = rest.find(|c: char| !(c.is_ascii_alphanumeric() || c == '-'))?;
    n.name = rest[..e].to_string();
    if n.name.is_empty() {
        return None;
    }
    rest = &rest[e..];
    loop {
        let t = rest.trim_start();
        if let Some(r) = t.strip_prefix('>') {
            rest = r;
            break;
        }
        if t.len() == rest.len() {
            return None;
        }
        let eq = t.find("=\"")?;
        let name = &t[..eq];
        if name.is_empty() || !name.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-') || n.attr(name).is_some() {
            return None;
        }
        let v = &t[eq + 2..];
        let q = v.find('"')?;
        if v[..q].contains('<') {
            return None;
        }
        n.attrs.push((name.to_string(), entity(&v[..q])?));
        rest = &v[q + 1..];
    }
    loop {
        let lt = rest.find('<')?;
        if rest[..lt].contains("]]>") {
            return None;
        }
        n.text.push_str(&entity(&rest[..lt])?);
        rest = &rest[lt..];
        if let Some(r) = rest.strip_prefix("</") {
            let r = r.strip_prefix(n.name.as_str())?.strip_prefix('>')?;
            return Some((n, r));
        }
        let (k, r) = element(rest)?;
        n.kids.push(k);
        rest = r;
    }
}
fn same(a: Option<&str>, b: Option<&str>) -> bool {
    a.map(str::trim) == b.map(str::trim)
}

// ---- presence ---------------------------------------------------------------
#[derive(Clone, Default, Debug)]
struct Tup {
    id: String,
    status: Option<presence::BasicStatus>,
    contact: Option<String>,
    notes: Vec<String>,
    time: Option<String>,
}
fn pidf(entity: &str, tuples: &[Tup], notes: &[String]) -> Option<presence::PresenceDocument> {
    let mut d = presence::PresenceDocument::new(entity).ok()?;
    for t in tuples {
        let mut x = presence::Tuple::new(&t.id).ok()?;
        if let Some(s) = t.status {
            x = x.with_status(s);
        }
        if let Some(c) = &t.contact {
            x = x.with_contact(c).ok()?;
        }
        for n in &t.notes {
            x = x.with_note(n).ok()?;
        }
        if let Some(c) = &t.time {
            x = x.with_timestamp(c).ok()?;
        }
        d.add_tuple(x).ok()?;
    }
    for n in notes {
        d.add_note(n).ok()?;
    }
    Some(d)
}
fn trimmed(v: impl Iterator<Item = impl AsRef<str>>) -> Vec<String> {
    v.map(|x| x.as_ref().trim().to_string()).collect()
}
fn pidf_check(run: &Run, entity: &str, tuples: &[Tup], notes: &[String]) {
    let key = || format!("presence of {entity:?}, tuples {tuples:?}, notes {notes:?}");
    let Some(d) = pidf(entity, tuples, notes) else { return };
    run.step(1);
    run.trace();
    let xml = d.to_xml();
    let ok = |e: &str, ts: Vec<(String, Option<String>, Option<String>, Vec<String>, Option<String>)>, ns: Vec<String>| {
        e == entity
            && ns == trimmed(notes.iter())
            && ts.len() == tuples.len()
            && ts.iter().zip(tuples).all(|(g, w)| {
                g.0 == w.id
                    && g.1.as_deref() == w.status.map(|s| if s == presence::BasicStatus::Open { "open" } else { "closed" })
                    && same(g.2.as_deref(), w.contact.as_deref())
                    && g.3 == trimmed(w.notes.iter())
                    && same(g.4.as_deref(), w.time.as_deref())
            })
    };
    let node = read_xml(&xml);
    let fine = node.as_ref().is_some_and(|n| {
        let text = |n: &Node, k: &str| n.one(k).map(|x| x.text.clone());
        n.name == "presence"
            && ok(
                n.attr("entity").unwrap_or("\u{1}"),
                n.all("tuple").map(|t| (t.attr("id").unwrap_or("").into(), t.one("status").and_then(|s| text(s, "basic")), text(t, "contact"), trimmed(t.all("note").map(|n| &n.text)), text(t, "timestamp"))).collect(),
                trimmed(n.all("note").map(|n| &n.text)),
            )
    });
    run.check(fine, key, || format!("printed as {xml:?}"));
    match presence::parse_pidf(&xml) {
        Err(e) => run.check(false, key, || format!("{xml:?} is refused: {e}")),
        Ok(p) => run.check(
            ok(
                p.entity(),
                p.tuples().map(|t| (t.id().into(), t.status().map(|s| s.as_str().to_string()), t.contact().map(Into::into), trimmed(t.notes()), t.timestamp().map(Into::into))).collect(),
                trimmed(p.notes()),
            ) && p.basic_status() == tuples.first().and_then(|t| t.status)
                && p.len() == tuples.len()
                && p.is_empty() == tuples.is_empty()
                && d.basic_status() == p.basic_status()
                && p.to_string() == presence::parse_pidf(&p.to_string()).map(|d| d.to_string()).unwrap_or_default(),
            key,
            || format!("{xml:?} is read as {p:?}"),
        ),
    }
    let body = xml.trim_end();
    if tuples.len() > 1 {
        for cut in 0..body.len() {
            if body.is_char_boundary(cut) {
                run.step(1);
                let r = presence::parse_pidf(&body[..cut]);
                run.check(r.is_err(), || format!("presence document cut short: {:?}", &body[..cut]), || format!("read as {r:?}"));
            }
        }
    }
}

// ---- watcher information ----------------------------------------------------
use watcher_info::{WatcherEvent as WE, WatcherStatus as WS};
#[derive(Clone, Debug)]
struct Wat {
    id: String,
    status: usize,
    event: usize,
    name: Option<String>,
    uri: Option<String>,
    exp: Option<u32>,
    dur: Option<u32>,
}
const STATUS: [(WS, &str); 4] = [(WS::Pending, "pending"), (WS::Active, "active"), (WS::Waiting, "waiting"), (WS::Terminated, "terminated")];
const EVENT: [(WE, &str); 8] = [
    (WE::Subscribe, "subscribe"),
    (WE::Approved, "approved"),
    (WE::Deactivated, "deactivated"),
    (WE::Probation, "probation"),
    (WE::Rejected, "rejected"),
    (WE::Timeout, "timeout"),
    (WE::Giveup, "giveup"),
    (WE::Noresource, "noresource"),
];
fn winfo_check(run: &Run, version: u32, state: &str, lists: &[(String, String, Vec<Wat>)]) {
    let key = || format!("watcher information {version} {state:?} {lists:?}");
    let build = || -> Option<watcher_info::WatcherinfoDocument> {
        let mut d = watcher_info::WatcherinfoDocument::new(version, state).ok()?;
        for (r, p, ws) in lists {
            let mut l = watcher_info::WatcherList::new(r.as_str(), p.as_str()).ok()?;
            for w in ws {
                let mut x = watcher_info::Watcher::new(w.id.as_str(), STATUS[w.status].0, EVENT[w.event].0).ok()?;
                if let Some(n) = &w.name {
                    x = x.with_display_name(n.as_str()).ok()?;
                }
                if let Some(n) = &w.uri {
                    x = x.with_uri(n.as_str()).ok()?;
                }
                if let Some(n) = w.exp {
                    x = x.with_expiration(n);
                }
                if let Some(n) = w.dur {
                    x = x.with_duration_subscribed(n);
                }
                l.add_watcher(x).ok()?;
            }
            d.add_watcher_list(l).ok()?;
        }
        Some(d)
    };
    let Some(d) = build() else { return };
    run.step(1);
    run.trace();
    let xml = d.to_xml();
    let fine = read_xml(&xml).is_some_and(|n| {
        n.attr("version") == Some(version.to_string().as_str())
            && n.attr("state") == Some(state.to_ascii_lowercase().as_str())
            && n.kids.len() == lists.len()
            && n.all("watcher-list").zip(lists).all(|(g, (r, p, ws))| {
                g.attr("resource") == Some(r)
                    && g.attr("package") == Some(p)
                    && g.kids.len() == ws.len()
                    && g.all("watcher").zip(ws).all(|(g, w)| {
                        g.attr("id") == Some(&w.id)
                            && g.attr("status") == Some(STATUS[w.status].1)
                            && g.attr("event") == Some(EVENT[w.event].1)
                            && g.attr("display-name") == w.name.as_deref()
                            && g.attr("expiration").map(str::to_string) == w.exp.map(|x| x.to_string())
                            && g.attr("duration-subscribed").map(str::to_string) == w.dur.map(|x| x.to_string())
                            && g.text.trim() == w.uri.as_deref().unwrap_or("").trim()
                            && g.kids.is_empty()
                    })
            })
    });
    run.check(fine, key, || format!("printed as {xml:?}"));
    match watcher_info::parse_watcherinfo(&xml) {
        Err(e) => run.check(false, key, || format!("{xml:?} is refused: {e}")),
        Ok(p) => {
            let full = state.eq_ignore_ascii_case("full");
            let ok = p.version() == version
                && (p.is_full(), p.is_partial(), p.is_empty()) == (full, !full, lists.is_empty())
                && p.watcher_lists().iter().all(|l| l.is_empty() == l.watchers().is_empty())
                && p.state() == state.to_ascii_lowercase()
                && p.watcher_lists().len() == lists.len()
                && p.watcher_lists().iter().zip(lists).all(|(g, (r, pk, ws))| {
                    g.resource() == r
                        && g.package() == pk
                        && g.watchers().len() == ws.len()
                        && g.watchers().iter().zip(ws).all(|(g, w)| {
                            g.id() == w.id
                                && g.status() == STATUS[w.status].0
                                && g.event() == EVENT[w.event].0
                                && g.display_name() == w.name.as_deref()
                                && same(g.uri(), w.uri.as_deref())
                                && g.expiration() == w.exp
                                && g.duration_subscribed() == w.dur
                        })
                });
            run.check(ok, key, || format!("{xml:?} is read as {p:?}"))
        }
    }
    let body = xml.trim_end();
    if lists.len() > 1 {
        for cut in 0..body.len() {
            if body.is_char_boundary(cut) {
                run.step(1);
                let r = watcher_info::parse_watcherinfo(&body[..cut]);
                run.check(r.is_err(), || format!("watcher information cut short: {:?}", &body[..cut]), || format!("read as {r:?}"));
            }
        }
    }
}

// ---- registration information -----------------------------------------------
#[derive(Clone, Debug, Default)]
struct Con {
    id: String,
    gone: bool,
    uri: String,
    event: Option<usize>,
    name: Option<String>,
    call: Option<String>,
    nums: [Option<u32>; 4], // expires retry-after duration cseq
    q: Option<f32>,
}
use reg_event::ContactEvent as CE;
const CEV: [(CE, &str); 9] = [
    (CE::Registered, "registered"),
    (CE::Created, "created"),
    (CE::Refreshed, "refreshed"),
    (CE::Shortened, "shortened"),
    (CE::Expired, "expired"),
    (CE::Deactivated, "deactivated"),
    (CE::Rejected, "rejected"),
    (CE::Unregistered, "unregistered"),
    (CE::Probation, "probation"),
];
fn reg_check(run: &Run, version: u32, full: bool, regs: &[(String, String, usize, Vec<Con>)]) {
    use reg_event::*;
    let key = || format!("registration information {version} {full} {regs:?}");
    let states = [(RegistrationState::Init, "init"), (RegistrationState::Active, "active"), (RegistrationState::Terminated, "terminated")];
    let build = || -> Option<RegInfo> {
        let mut d = RegInfo::new(version, if full { RegInfoState::Full } else { RegInfoState::Partial });
        for (aor, id, st, cs) in regs {
            let mut r = Registration::new(aor, id, states[*st].0).ok()?;
            for c in cs {
                let mut x = Contact::new(&c.id, if c.gone { ContactState::Terminated } else { ContactState::Active }, &c.uri).ok()?;
                if let Some(e) = c.event {
                    x = x.with_event(CEV[e].0);
                }
                if let Some(n) = &c.name {
                    x = x.with_display_name(n).ok()?;
                }
                if let Some(n) = &c.call {
                    x = x.with_call_id(n).ok()?;
                }
                if let Some(q) = c.q {
                    x = x.with_q(q).ok()?;
                }
                if let Some(n) = c.nums[0] {
                    x = x.with_expires(n);
                }
                if let Some(n) = c.nums[1] {
                    x = x.with_retry_after(n);
                }
                if let Some(n) = c.nums[2] {
                    x = x.with_duration_registered(n);
                }
                if let Some(n) = c.nums[3] {
                    x = x.with_cseq(n);
                }
                r.add_contact(x).ok()?;
            }
            d.add_registration(r).ok()?;
        }
        Some(d)
    };
    let Some(d) = build() else { return };
    run.step(1);
    run.trace();
    // the document answers what was put in
    let held = d.version() == version
        && (d.state() == RegInfoState::Full) == full
        && d.is_empty() == regs.is_empty()
        && d.registrations().len() == regs.len()
        && d.registrations().iter().zip(regs).all(|(g, (aor, id, st, cs))| {
            g.aor() == aor
                && g.id() == id
                && g.state() == states[*st].0
                && g.state().as_str() == states[*st].1
                && g.is_empty() == cs.is_empty()
                && g.contacts().len() == cs.len()
                && g.contacts().iter().zip(cs).all(|(g, c)| {
                    g.id() == c.id
                        && g.uri() == c.uri
                        && (g.state() == ContactState::Terminated) == c.gone
                        && g.event() == c.event.map(|e| CEV[e].0)
                        && g.display_name() == c.name.as_deref()
                        && g.call_id() == c.call.as_deref()
                        && [g.expires(), g.retry_after(), g.duration_registered(), g.cseq()] == c.nums
                        && g.q() == c.q
                })
        });
    run.check(held, || format!("answers of {}", key()), || format!("holds {d:?}"));
    let xml = d.to_string();
    let num = |n: &Node, a: &str, w: Option<u32>| n.attr(a).map(str::to_string) == w.map(|x| x.to_string());
    let fine = read_xml(&xml).is_some_and(|n| {
        n.name == "reginfo"
            && n.attr("version") == Some(version.to_string().as_str())
            && n.attr("state") == Some(if full { "full" } else { "partial" })
            && n.kids.len() == regs.len()
            && n.all("registration").zip(regs).all(|(g, (aor, id, st, cs))| {
                g.attr("aor") == Some(aor)
                    && g.attr("id") == Some(id)
                    && g.attr("state") == Some(states[*st].1)
                    && g.kids.len() == cs.len()
                    && g.all("contact").zip(cs).all(|(g, c)| {
                        g.attr("id") == Some(&c.id)
                            && g.attr("state") == Some(if c.gone { "terminated" } else { "active" })
                            && g.attr("event") == c.event.map(|e| CEV[e].1)
                            && g.attr("callid") == c.call.as_deref()
                            && num(g, "expires", c.nums[0])
                            && num(g, "retry-after", c.nums[1])
                            && num(g, "duration-registered", c.nums[2])
                            && num(g, "cseq", c.nums[3])
                            && g.attr("q").map(|q| q.parse::<f32>().ok()) == c.q.map(Some)
                            && g.one("uri").is_some_and(|u| u.text == c.uri)
                            && g.one("display-name").map(|u| u.text.as_str()) == c.name.as_deref()
                            && g.kids.len() == 1 + c.name.is_some() as usize
                    })
            })
    });
    run.check(fine, key, || format!("printed as {xml:?}"));
}

// ---- message summary ----------------------------------------------------------
fn mwi_header(v: &[Option<String>; 7]) -> Option<message_waiting::MessageHeader> {
    let mut h = message_waiting::MessageHeader::new();
    let [to, from, subject, date, prio, id, ctx] = v;
    if let Some(x) = to { h = h.with_to(x).ok()? }
    if let Some(x) = from { h = h.with_from(x).ok()? }
    if let Some(x) = subject { h = h.with_subject(x).ok()? }
    if let Some(x) = date { h = h.with_date(x).ok()? }
    if let Some(x) = prio { h = h.with_priority(x).ok()? }
    if let Some(x) = id { h = h.with_message_id(x).ok()? }
    if let Some(x) = ctx { h = h.with_message_context(x).ok()? }
    Some(h)
}
fn mwi_values(h: &message_waiting::MessageHeader) -> [Option<String>; 7] {
    [h.to(), h.from(), h.subject(), h.date(), h.priority(), h.message_id(), h.message_context()].map(|x| x.map(|s| s.trim().to_string()))
}
use message_waiting::MessageContextClass as MC;
const CLASSES: [MC; 6] = [MC::Voice, MC::Fax, MC::Pager, MC::Multimedia, MC::Text, MC::None];
fn mwi_check(run: &Run, waiting: bool, account: Option<&str>, counts: &[(usize, [u32; 4])], headers: &[[Option<String>; 7]]) {
    let key = || format!("message summary {waiting} {account:?} {counts:?} {headers:?}");
    let build = || -> Option<message_waiting::MessageSummary> {
        let mut s = message_waiting::MessageSummary::new(waiting);
        if let Some(a) = account {
            s.set_account(a).ok()?;
        }
        for (c, n) in counts {
            s.add_message_class(CLASSES[*c], message_waiting::MessageCounts::new(n[0], n[1]).with_urgent(n[2], n[3])).ok()?;
        }
        for h in headers {
            s.add_message_header(mwi_header(h)?).ok()?;
        }
        Some(s)
    };
    let Some(s) = build() else { return };
    run.step(1);
    run.trace();
    let text = s.to_string();
    let want: BTreeMap<MC, [u32; 4]> = counts.iter().map(|(c, n)| (CLASSES[*c], *n)).collect();
    let sums = |k: usize| want.values().map(|v| v[k] as u64).sum::<u64>().min(u32::MAX as u64) as u32;
    let hs: Vec<[Option<String>; 7]> = headers.iter().filter(|h| h.iter().any(|x| x.is_some())).map(|h| h.clone().map(|x| x.map(|s| s.trim().to_string()))).collect();
    let r = quiet(|| {
        let p = message_waiting::parse_message_summary(&text).map_err(|e| e.to_string())?;
        let got: BTreeMap<MC, [u32; 4]> = p.messages().map(|(c, n)| (*c, [n.new_count(), n.old_count(), n.urgent_new(), n.urgent_old()])).collect();
        let ghs: Vec<_> = p.message_headers().map(mwi_values).collect();
        let ok = p.messages_waiting() == waiting
            && same(p.account(), account)
            && got == want
            && ghs == hs
            && p.total_new() == sums(0)
            && p.total_old() == sums(1)
            && p.has_urgent() == want.values().any(|v| v[2] > 0 || v[3] > 0)
            && p.is_empty() == want.is_empty()
            && p.messages().all(|(_, n)| n.has_new() == (n.new_count() > 0) && n.has_urgent() == (n.urgent_new() > 0 || n.urgent_old() > 0))
            && p.messages().all(|(_, n)| n.total() as u64 == (n.new_count() as u64 + n.old_count() as u64).min(u32::MAX as u64) && n.total_urgent() as u64 == (n.urgent_new() as u64 + n.urgent_old() as u64).min(u32::MAX as u64));
        if ok { Ok(()) } else { Err(format!("read as {p:?}")) }
    });
    let r = match r {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    };
    run.check(r.is_ok(), key, || format!("{text:?}: {}", r.clone().unwrap_err()));
    // a reader of the format itself
    let lines: Vec<&str> = text.lines().collect();
    let mut sections: Vec<Vec<&str>> = vec![vec![]];
    for l in lines {
        if l.trim().is_empty() {
            sections.push(vec![])
        } else {
            sections.last_mut().unwrap().push(l)
        }
    }
    let head = 1 + account.is_some() as usize + want.len();
    let names = ["to", "from", "subject", "date", "priority", "message-id", "message-context"];
    let secs: Vec<&Vec<&str>> = sections[1..].iter().filter(|s| !s.is_empty()).collect();
    let ok = sections[0].len() == head
        && sections[0][0] == format!("Messages-Waiting: {}", if waiting { "yes" } else { "no" })
        && secs.len() == hs.len()
        && secs.iter().zip(&hs).all(|(s, h)| {
            let got: Vec<(String, String)> = s.iter().filter_map(|l| l.split_once(':')).map(|(n, v)| (n.to_ascii_lowercase(), v.trim().to_string())).collect();
            let w: Vec<(String, String)> = h.iter().zip(names).filter_map(|(v, n)| v.clone().map(|v| (n.to_string(), v))).collect();
            got == w
        });
    run.check(ok, || format!("lines of {}", key()), || format!("printed as {text:?}"));
}

// ---- CPIM -----------------------------------------------------------------------
#[derive(Clone, Debug, Default)]
struct Cpim {
    headers: Vec<(String, String, Vec<(String, String)>)>,
    ctype: String,
    content: Vec<(String, String)>,
    body: String,
}
fn cpim_check(run: &Run, c: &Cpim) {
    let key = || format!("CPIM {c:?}");
    let build = || -> Option<cpim::CpimMessage> {
        let mut m = cpim::CpimMessage::new(&c.ctype, c.body.clone().into_bytes()).ok()?;
        for (n, v, ps) in &c.headers {
            let mut h = cpim::CpimHeader::new(v).ok()?;
            for (a, b) in ps {
                h = h.with_param(a, b).ok()?;
            }
            m.add_header_obj(n, h).ok()?;
        }
        for (n, v) in &c.content {
            m.add_content_header(n, v).ok()?;
        }
        Some(m)
    };
    let Some(m) = build() else { return };
    run.step(1);
    run.trace();
    let mut held = m.body_as_str() == Ok(c.body.as_str()) && m.body_as_string().as_deref() == Some(c.body.as_str()) && m.get_header("Absent").is_none() && m.get_header_values("Absent").is_empty();
    for (n, _, _) in &c.headers {
        let w: Vec<&str> = c.headers.iter().filter(|h| h.0 == *n).map(|h| h.1.as_str()).collect();
        held &= m.get_header(n) == w.first().copied() && m.get_header_values(n) == w;
    }
    run.check(held, || format!("answers of {}", key()), || format!("holds {m:?}"));
    let Ok(text) = m.to_string() else {
        return run.check(false, key, || "cannot be printed".into());
    };
    let shape = |m: &cpim::CpimMessage| {
        let hs: Vec<(String, Vec<(String, Vec<(String, String)>)>)> = m
            .headers()
            .iter()
            .map(|(n, v)| (n.to_string(), v.iter().map(|h| (h.value().trim().to_string(), h.params().iter().map(|(a, b)| (a.trim().to_string(), b.trim().to_string())).collect())).collect()))
            .collect();
        let ch: Vec<(String, String)> = m.content_headers().iter().map(|(a, b)| (a.to_string(), b.trim().to_string())).collect();
        (hs, m.content_type().trim().to_string(), ch, m.body().to_vec())
    };
    let p = cpim::parse_cpim(&text);
    match &p {
        Err(e) => run.check(false, key, || format!("{text:?} is refused: {e}")),
        Ok(p) => run.check(shape(p) == shape(&m), key, || format!("{text:?} is read as {p:?}")),
    }
    // the same message with bare line feeds
    if !c.body.contains('\r') {
        let lf = text.replace("\r\n", "\n");
        let p = cpim::parse_cpim(&lf);
        run.check(p.as_ref().is_ok_and(|p| shape(p) == shape(&m)), || format!("{} with LF line ends", key()), || format!("{lf:?} is read as {p:?}"));
    }
    // an independent reader
    let ok = (|| {
        let (a, rest) = text.split_once("\r\n\r\n")?;
        let (hd, rest) = if let Some(r) = rest.strip_prefix("\r\n") { ("", r) } else { rest.split_once("\r\n\r\n")? };
        let (ch, body) = rest.split_once("\r\n\r\n")?;
        let n: usize = c.headers.len();
        let hl: Vec<&str> = if hd.is_empty() { vec![] } else { hd.split("\r\n").collect() };
        let cl: Vec<&str> = ch.split("\r\n").collect();
        Some(a == "Content-type: Message/CPIM" && hl.len() == n && body == c.body && cl.iter().filter(|l| l.to_ascii_lowercase().starts_with("content-type:")).count() == 1)
    })();
    run.check(ok == Some(true), || format!("sections of {}", key()), || format!("printed as {text:?}"));
}

// ---- SIP fragments ------------------------------------------------------------------
fn frag_check(run: &Run, start: usize, x: &str, headers: &[(String, String)], body: &[u8]) {
    let key = || format!("fragment start {start} {x:?} headers {headers:?} body {body:?}");
    let build = || -> Option<(sipfrag::SipFrag, Option<String>)> {
        let (mut f, line) = match start {
            0 => (sipfrag::SipFrag::empty(), None),
            1 => (sipfrag::SipFrag::status_only(180, x.into()).ok()?, Some(format!("SIP/2.0 180 {x}"))),
            2 => (sipfrag::SipFrag::response(StatusLine::new(699, x).ok()?).ok()?, Some(format!("SIP/2.0 699 {x}"))),
            3 => {
                let u = Uri::parse(x).ok()?;
                let l = format!("NOTIFY {} SIP/2.0", u.as_str());
                (sipfrag::SipFrag::request(RequestLine::new(Method::Notify, u)).ok()?, Some(l))
            }
            _ => (sipfrag::SipFrag::headers_only(Headers::new()), None),
        };
        for (n, v) in headers {
            f = f.with_header(n, v).ok()?;
        }
        if !body.is_empty() {
            f.add_header("Content-Type", "text/plain").ok()?;
            f.add_header("Content-Length", body.len().to_string()).ok()?;
        }
        f.set_body(body.to_vec()).ok()?;
        Some((f, line))
    };
    let Some((f, line)) = build() else { return };
    run.step(1);
    run.trace();
    let (code, uri) = match start {
        1 => (Some(180), None),
        2 => (Some(699), None),
        3 => (None, Uri::parse(x).ok()),
        _ => (None, None),
    };
    let held = f.status_code() == code
        && f.is_response() == code.is_some()
        && f.is_request() == uri.is_some()
        && f.method().cloned() == uri.as_ref().map(|_| Method::Notify)
        && f.request_uri() == uri.as_ref()
        && f.start_line().is_some() == line.is_some()
        && f.body().as_ref() == body
        && headers.iter().all(|(n, _)| f.headers().get(n).is_some());
    run.check(held, || format!("answers of {}", key()), || format!("holds {f:?}"));
    let text = match quiet(|| f.to_string()) {
        Ok(t) => t,
        Err(e) => return run.check(false, key, || format!("printing panics: {e}")),
    };
    let (head, b) = match text.split_once("\r\n\r\n") {
        Some((h, b)) if !body.is_empty() => (format!("{h}\r\n"), b),
        _ => (text.clone(), ""),
    };
    let mut lines: Vec<&str> = head.split("\r\n").collect();
    let last = lines.pop();
    let mut want: Vec<String> = line.into_iter().collect();
    want.extend(f.headers().iter().map(|h| format!("{}: {}", h.name(), h.value())));
    let ok = last == Some("") && lines == want && b.as_bytes() == body && f.headers().len() == headers.len() + 2 * !body.is_empty() as usize;
    run.check(ok, key, || format!("printed as {text:?}"));
}

const T: [&str; 15] = ["<", ">", "&", "\"", "'", ";", "&lt;", "</note>", "]]>", "<!--", " ", "a", "é", " id=\"", "amp"];
const TRICKY: &str = "a&\"<'>;&amp;";

pub fn p31(run: &Run) {
    run.note("rule", "every text of up to k markup tokens in every field of every document, all document shapes in bounds, every prefix of a document, sizes around each limit");
    run.assume("white space around the text of an element or a header value is not part of it");
    run.assume("readers are asked to read what the builders print; equivalent XML writings (prefixes, comments, single quotes) are outside the documented subset");
    run.assume("CPIM bodies are text");
    let s = |x: &str| x.to_string();
    let o = |x: &str| Some(x.to_string());
    let k = run.pick(4, 5);
    run.note("tokens per field", k);
    let tup = |id: &str| Tup { id: s(id), status: Some(presence::BasicStatus::Open), contact: o(TRICKY), notes: vec![s(TRICKY), s("n")], time: o(TRICKY) };
    let wat = |id: &str| Wat { id: s(id), status: 1, event: 0, name: o(TRICKY), uri: o("sip:a&b@h"), exp: Some(1), dur: Some(0) };
    let con = |id: &str| Con { id: s(id), uri: s(TRICKY), name: o(TRICKY), call: o(TRICKY), nums: [Some(1), Some(2), Some(3), Some(4)], q: Some(0.5), event: Some(0), gone: false };
    token_strings(run, &T, k, |x| {
        run.state(&x);
        let y = tup("t");
        pidf_check(run, x, &[y.clone()], &[]);
        pidf_check(run, "e", &[Tup { id: s(x), ..y.clone() }], &[]);
        pidf_check(run, "e", &[Tup { contact: o(x), ..y.clone() }], &[]);
        pidf_check(run, "e", &[Tup { time: o(x), ..y.clone() }], &[s("n")]);
        pidf_check(run, "e", &[Tup { notes: vec![s("n"), s(x)], ..y.clone() }], &[]);
        pidf_check(run, "e", &[y.clone()], &[s(x), s("n")]);
        let l = |w: Wat| vec![(s("sip:r@h"), s("presence"), vec![w, wat("z")])];
        winfo_check(run, 1, "full", &l(Wat { id: s(x), ..wat("w") }));
        winfo_check(run, 1, "full", &l(Wat { name: o(x), ..wat("w") }));
        winfo_check(run, 1, "full", &l(Wat { uri: Some(format!("sip:{x}@h")), ..wat("w") }));
        winfo_check(run, 1, "full", &l(Wat { uri: Some(format!("tel:+1;a={x}")), ..wat("w") }));
        winfo_check(run, 1, "full", &[(format!("sip:u@h;x={x}"), s("presence"), vec![wat("w")])]);
        winfo_check(run, 1, "full", &[(s("sip:r@h"), s(x), vec![wat("w")])]);
        winfo_check(run, 1, x, &[]);
        let r = |c: Con| vec![(s("sip:r@h"), s("r"), 1, vec![c, con("z")])];
        reg_check(run, 1, true, &[(s(x), s("r"), 1, vec![con("c")])]);
        reg_check(run, 1, true, &[(s("r"), s(x), 1, vec![con("c")])]);
        reg_check(run, 1, true, &r(Con { id: s(x), ..con("") }));
        reg_check(run, 1, true, &r(Con { uri: s(x), ..con("c") }));
        reg_check(run, 1, true, &r(Con { name: o(x), ..con("c") }));
        reg_check(run, 1, true, &r(Con { call: o(x), ..con("c") }));
    });
    // shapes of documents
    let st = [None, Some(presence::BasicStatus::Open), Some(presence::BasicStatus::Closed)];
    product(run, &[3, 2, 3, 2, 3, 2, 3, 4], |d| {
        let t = Tup { id: s("a"), status: st[d[0]], contact: (d[1] == 1).then(|| s("c")), notes: vec![s("n"); d[2]], time: (d[3] == 1).then(|| s("2024-01-01T00:00:00Z")) };
        let u = Tup { id: s("b"), status: st[d[4]], contact: (d[5] == 1).then(|| s("c2")), notes: vec![s("m"); d[6]], time: None };
        let notes: Vec<String> = (0..d[7] / 2).map(|i| format!("d{i}")).collect();
        match d[7] % 2 {
            0 => pidf_check(run, "e", &[t.clone(), u.clone()], &notes),
            _ => pidf_check(run, "e", &[t.clone()], &notes),
        }
        if d[7] == 0 && d[6] == 0 {
            pidf_check(run, "e", &[], &notes);
            pidf_check(run, "e", &[t.clone(), u.clone(), t.clone()], &notes);
        }
    });
    let num = [None, Some(0u32), Some(u32::MAX)];
    product(run, &[4, 8, 2, 2, 3, 3, 3], |d| {
        let w = Wat { id: s("i"), status: d[0], event: d[1], name: (d[2] == 1).then(|| s("N")), uri: (d[3] == 1).then(|| s("sip:u@h")), exp: num[d[4]], dur: num[d[5]] };
        let lists = match d[6] {
            0 => vec![(s("sip:r@h"), s("presence"), vec![w])],
            1 => vec![(s("sip:r@h"), s("presence"), vec![w.clone(), w])],
            _ => vec![(s("sip:r@h"), s("presence"), vec![]), (s("sip:q@h"), s("presence.winfo"), vec![w])],
        };
        winfo_check(run, d[0] as u32, ["full", "partial", "FULL", "Partial"][d[0]], &lists);
    });
    product(run, &[2, 9, 3, 3, 3, 3, 4, 3], |d| {
        let c = Con { id: s("c"), gone: d[0] == 1, uri: s("sip:u@h"), event: (d[1] > 0).then(|| d[1]), name: None, call: None, nums: [num[d[2]], num[d[3]], num[d[4]], num[d[5]]], q: [None, Some(0.0), Some(0.001), Some(1.0)][d[6]] };
        let regs = match d[7] {
            0 => vec![(s("sip:a@h"), s("r"), d[2], vec![c])],
            1 => vec![(s("sip:a@h"), s("r"), d[2], vec![]), (s("sip:b@h"), s("q"), d[3], vec![c.clone(), c])],
            _ => vec![],
        };
        reg_check(run, u32::MAX, d[0] == 0, &regs);
    });
    mwi(run);
    cpims(run);
    frags(run);
    names(run);
    limits(run);
    run.sample(|| format!("presence note {TRICKY:?} is escaped and read back unchanged"));
}

fn mwi(run: &Run) {
    let s = |x: &str| x.to_string();
    let toks = [":", "yes", "no", "Voice-Message: 1/2", "To: x", " ", "/", "(", "1", "a", "é", "\\", "Messages-Waiting: no", "Subject"];
    token_strings(run, &toks, run.pick(4, 5), |x| {
        run.state(&x);
        mwi_check(run, true, Some(x), &[(0, [1, 2, 0, 1])], &[]);
        for f in 0..7 {
            let mut h: [Option<String>; 7] = Default::default();
            h[f] = Some(s(x));
            let mut g: [Option<String>; 7] = Default::default();
            g[(f + 1) % 7] = Some(s("g"));
            mwi_check(run, true, None, &[], &[h, g]);
        }
    });
    let n = [0, 1, u32::MAX];
    product(run, &[2, 2, 6, 3, 3, 3, 3, 6], |d| {
        let a = (d[2], [n[d[3]], n[d[4]], n[d[5]], n[d[6]]]);
        let b = (d[7], [n[d[4]], 7, 0, n[d[3]]]);
        mwi_check(run, d[0] == 1, (d[1] == 1).then_some("sip:a@h"), &[a, b], &[]);
    });
    // sequences of headers, each a set of fields
    let sets: Vec<[Option<String>; 7]> = [0u8, 1, 2, 3, 4, 64, 127, 65].iter().map(|m| std::array::from_fn(|i| (m >> i & 1 == 1).then(|| format!("v{i}")))).collect();
    sequences(run, sets.len(), run.pick(3, 4), |q| {
        let hs: Vec<_> = q.iter().map(|i| sets[*i].clone()).collect();
        mwi_check(run, true, None, &[(1, [1, 0, 0, 0])], &hs);
    });
}

fn cpims(run: &Run) {
    let s = |x: &str| x.to_string();
    let base = Cpim { headers: vec![(s("From"), s("A <im:a@h>"), vec![])], ctype: s("text/plain"), content: vec![], body: s("b") };
    let toks = ["\\", "\"", ":", ";", "=", " ", "a", "é", "\r\n", "\n", "\t", "\u{8}", "lang=en", "\\n", "<", "\u{1}", "\u{85}"];
    token_strings(run, &toks, run.pick(4, 5), |x| {
        run.state(&x);
        let b = &base;
        let h = |n: &str, v: &str, p: Vec<(String, String)>| Cpim { headers: vec![(s("To"), s("t"), vec![]), (s(n), s(v), p)], ..b.clone() };
        cpim_check(run, &h("Subject", x, vec![]));
        cpim_check(run, &h("Subject", x, vec![(s("lang"), s("en"))]));
        cpim_check(run, &h("Subject", "v", vec![(s("lang"), s(x))]));
        cpim_check(run, &h("Subject", "v", vec![(s("lang"), s(x)), (s("z"), s("1"))]));
        cpim_check(run, &h("Subject", "v", vec![(s(x), s("en"))]));
        cpim_check(run, &h(x, "v", vec![]));
        cpim_check(run, &h(x, "v", vec![(s("lang"), s("en"))]));
        cpim_check(run, &Cpim { ctype: s(x), ..b.clone() });
        cpim_check(run, &Cpim { content: vec![(s("Content-ID"), s(x))], ..b.clone() });
        cpim_check(run, &Cpim { content: vec![(s(x), s("v"))], ..b.clone() });
    });
    let toks = ["\r\n", "\n", "a", "From: x", ": ", "Content-type: text/html", "\0", "é", " "];
    token_strings(run, &toks, run.pick(5, 6), |x| {
        run.state(&x);
        for n in 0..2 {
            cpim_check(run, &Cpim { body: s(x), headers: base.headers[n..].to_vec(), ..base.clone() });
        }
        cpim_check(run, &Cpim { body: s(x), content: vec![(s("Content-ID"), s("<1>"))], headers: vec![], ..base.clone() });
    });
    // setting, adding and the named makers, in any order
    sequences(run, 11, run.pick(4, 5), |q| {
        run.step(1);
        let key = || format!("CPIM calls {q:?}");
        let mut m = cpim::CpimMessage::new("text/plain", b"b".to_vec()).unwrap();
        let mut w: BTreeMap<String, Vec<(String, Vec<(String, String)>)>> = BTreeMap::new();
        let mut cw: BTreeMap<String, String> = BTreeMap::new();
        let (mut ctype, mut body) = (s("text/plain"), s("b"));
        for (i, op) in q.iter().enumerate() {
            let v = format!("v{i}");
            let mut put = |n: &str, v: &str, set: bool, ps: Vec<(String, String)>| {
                let e = w.entry(s(n)).or_default();
                if set {
                    e.clear()
                }
                e.push((s(v), ps));
            };
            let r = match op {
                0 => { put("From", &v, true, vec![]); m.with_from(&v) }
                1 => { put("To", &v, false, vec![]); m.with_to(&v) }
                2 => { put("DateTime", &v, true, vec![]); m.with_datetime(&v) }
                3 => { put("Subject", &v, false, vec![]); m.with_subject(&v) }
                4 => { put("Subject", &v, false, vec![(s("lang"), s("en"))]); m.with_subject_lang(&v, "en") }
                5 => { put("cc", &v, false, vec![]); m.with_cc(&v) }
                6 => { put("NS", &format!("{v} <u>"), false, vec![]); m.with_ns(&v, "u") }
                7 => { put("Require", &v, false, vec![]); m.with_require(&v) }
                8 => { put("Subject", &v, true, vec![]); m.set_header("Subject", &v).map(|_| m) }
                9 => {
                    let (n, v) = [("Content-ID", v.clone()), ("content-type", format!("a/{v}"))][i % 2].clone();
                    if i % 2 == 1 { ctype = v.clone() } else { cw.insert(s(n), v.clone()); }
                    m.with_content_header(n, &v)
                }
                _ => { body = v.clone(); m.set_body(v.into_bytes()).map(|_| m) }
            };
            match r {
                Ok(x) => m = x,
                Err(e) => return run.check(false, key, || format!("step {i} refused: {e}")),
            }
        }
        let got: BTreeMap<String, Vec<(String, Vec<(String, String)>)>> =
            m.headers().iter().map(|(n, v)| (n.to_string(), v.iter().map(|h| (s(h.value()), h.params().iter().map(|(a, b)| (a.to_string(), b.to_string())).collect())).collect())).collect();
        let gc: BTreeMap<String, String> = m.content_headers().iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        run.check(got == w && gc == cw && m.content_type() == ctype && m.body() == body.as_bytes(), key, || format!("holds {m:?}"));
    });
    // headers and parameters in any number
    sequences(run, 6, run.pick(4, 5), |q| {
        let kinds = [("To", "x", 0), ("To", "y", 1), ("Subject", "x", 2), ("cc", "", 0), ("NS", "p <u>", 0), ("Require", "a,b", 1)];
        let hs: Vec<_> = q.iter().map(|i| (s(kinds[*i].0), s(kinds[*i].1), (0..kinds[*i].2).map(|p| (format!("p{p}"), format!("v{p}"))).collect())).collect();
        cpim_check(run, &Cpim { headers: hs, ..base.clone() });
    });
}

fn frags(run: &Run) {
    let s = |x: &str| x.to_string();
    let toks = [":", " ", "a", "sip:", "SIP/2.0", "\"", "é", "@h", ";", "200", "Content-Length"];
    token_strings(run, &toks, run.pick(4, 5), |x| {
        run.state(&x);
        for start in 1..4 {
            frag_check(run, start, x, &[(s("To"), s("t"))], b"");
        }
        frag_check(run, 1, "OK", &[(s("N"), s(x)), (s("To"), s("t"))], b"hi");
        frag_check(run, 4, "", &[(s(x), s("v")), (s("To"), s("t"))], b"");
    });
    let bodies: [&[u8]; 8] = [b"", b"a", b"\r\n", b"\r\n\r\n", b"a\r\n\r\nb", "é".as_bytes(), b"\0", b"\xff"];
    product(run, &[5, 4, bodies.len()], |d| {
        let hs: Vec<_> = [(s("To"), s("a")), (s("To"), s("b")), (s("X"), s(""))][..d[1]].to_vec();
        frag_check(run, d[0], "sip:x@h", &hs, bodies[d[2]]);
    });
    // a whole response as a fragment
    product(run, &[4, 4, 3, 4], |d| {
        run.step(1);
        let mut h = Headers::new();
        h.push("To", "t").unwrap();
        if d[0] > 0 {
            h.push("Content-Length", ["0", "1", "2"][d[0] - 1]).unwrap();
        }
        if d[2] > 0 {
            h.push("Content-Type", ["a/b", "text/plain"][d[2] - 1]).unwrap();
        }
        let body = &b"abc"[..d[1]];
        let code = [100u16, 200, 486, 699][d[3]];
        let key = || format!("fragment of a response {code}, length {:?}, type {:?}, {} bytes", d[0], d[2], d[1]);
        let Ok(res) = Response::new(StatusLine::new(code, "R").unwrap(), h, bytes::Bytes::copy_from_slice(body)) else { return };
        let want = body.is_empty() || (d[2] > 0 && d[0] > 0 && d[0] - 1 == body.len());
        let kept: Vec<(String, String)> = res.headers().iter().map(|h| (s(h.name()), s(h.value()))).collect();
        match sipfrag::SipFrag::from_response(res) {
            Err(e) => run.check(!want, key, || format!("refused: {e}")),
            Ok(f) => {
                let got: Vec<(String, String)> = f.headers().iter().map(|h| (s(h.name()), s(h.value()))).collect();
                run.check(want && f.status_code() == Some(code) && f.body().as_ref() == body && got == kept && f.is_response(), key, || format!("holds {f:?}"))
            }
        }
    });
    // a body is only taken with a matching length and a type
    product(run, &[4, 3, 4], |d| {
        let mut f = sipfrag::SipFrag::empty();
        if d[0] > 0 {
            f.add_header("Content-Length", ["0", "1", "2"][d[0] - 1]).unwrap();
        }
        if d[1] > 0 {
            f.add_header("Content-Type", ["a/b", "text/plain"][d[1] - 1]).unwrap();
        }
        run.step(1);
        let body = &b"abc"[..d[2]];
        let want = body.is_empty() || (d[1] > 0 && d[0] > 0 && d[0] - 1 == body.len());
        let got = f.clone().with_body(body.to_vec()).is_ok();
        let mut g = f.clone();
        let got2 = g.set_body(body.to_vec()).is_ok();
        run.check(got == want && got2 == want && (got2 || g.body().is_empty()), || format!("body of {} bytes with headers {:?}", body.len(), d), || format!("accepted {got}, {got2}"));
    });
}

/// Names of statuses and events are read back in any letter case where documented, and nothing else is.
fn names(run: &Run) {
    for (v, n) in STATUS {
        run.check(v.as_str() == n && WS::parse(n) == Some(v) && n.parse() == Ok(v) && v.to_string() == n, || format!("status {n}"), || format!("{v:?}"));
    }
    for (v, n) in EVENT {
        run.check(v.as_str() == n && WE::parse(n) == Some(v) && n.parse() == Ok(v) && v.to_string() == n, || format!("event {n}"), || format!("{v:?}"));
    }
    for (v, n) in CEV {
        run.check(v.as_str() == n && CE::parse(n) == Some(v) && n.parse() == Ok(v), || format!("contact event {n}"), || format!("{v:?}"));
    }
    for c in CLASSES {
        let n = c.header_name();
        run.check(n.to_lowercase() == format!("{}-message", c.as_str()) && MC::from_header_name(n) == Some(c) && MC::from_header_name(&n.to_uppercase()) == Some(c), || format!("class {n}"), || "differs".into());
    }
    for (v, n) in [(reg_event::RegistrationState::Init, "init"), (reg_event::RegistrationState::Active, "active"), (reg_event::RegistrationState::Terminated, "terminated")] {
        run.check(v.as_str() == n, || format!("registration state {n}"), || format!("{v:?}"));
    }
    for (v, n) in [(reg_event::RegInfoState::Full, "full"), (reg_event::RegInfoState::Partial, "partial")] {
        run.check(v.as_str() == n, || format!("document state {n}"), || format!("{v:?}"));
    }
    for (v, n) in [(reg_event::ContactState::Active, "active"), (reg_event::ContactState::Terminated, "terminated")] {
        run.check(v.as_str() == n, || format!("contact state {n}"), || format!("{v:?}"));
    }
    for (v, n) in [(presence::BasicStatus::Open, "open"), (presence::BasicStatus::Closed, "closed")] {
        run.check(v.as_str() == n && presence::BasicStatus::parse(n) == Some(v) && v.to_string() == n, || format!("basic status {n}"), || format!("{v:?}"));
    }
    run.step(37);
}

fn limits(run: &Run) {
    let ck = |what: &str, got: bool, want: bool| {
        run.step(1);
        run.check(got == want, || what.to_string(), || format!("accepted {got}"));
    };
    for n in [0usize, 1, 9, 10, 11, 19, 20, 21, 49, 50, 51, 99, 100, 101, 999, 1000, 1001] {
        let mut d = presence::PresenceDocument::new("e").unwrap();
        let ok = (0..n).all(|i| d.add_tuple(presence::Tuple::new(format!("t{i}")).unwrap()).is_ok());
        ck(&format!("presence with {n} tuples"), ok, n <= 50);
        ck(&format!("tuples kept of {n}"), d.len() == n.min(50), true);
        let xml = presence_xml(n, 0, 0);
        ck(&format!("reading presence with {n} tuples"), presence::parse_pidf(&xml).is_ok(), n <= 50);
        let mut d = presence::PresenceDocument::new("e").unwrap();
        ck(&format!("{n} document notes"), (0..n).all(|_| d.add_note("n").is_ok()), n <= 20);
        ck(&format!("reading {n} document notes"), presence::parse_pidf(&presence_xml(0, n, 0)).is_ok(), n <= 20);
        let mut t = Some(presence::Tuple::new("t").unwrap());
        for _ in 0..n {
            t = t.and_then(|t| t.with_note("n").ok());
        }
        ck(&format!("{n} tuple notes"), t.is_some(), n <= 10);
        ck(&format!("reading {n} tuple notes"), presence::parse_pidf(&presence_xml(1, 0, n)).is_ok(), n <= 10);
        let mut d = watcher_info::WatcherinfoDocument::new(0, "full").unwrap();
        ck(&format!("{n} watcher lists"), (0..n).all(|_| d.add_watcher_list(watcher_info::WatcherList::new("sip:h", "p").unwrap()).is_ok()), n <= 100);
        let xml = format!("<watcherinfo version=\"0\" state=\"full\">{}</watcherinfo>", "<watcher-list resource=\"sip:h\" package=\"p\"></watcher-list>".repeat(n));
        ck(&format!("reading {n} watcher lists"), watcher_info::parse_watcherinfo(&xml).is_ok(), n <= 100);
        let mut l = watcher_info::WatcherList::new("sip:h", "p").unwrap();
        ck(&format!("{n} watchers"), (0..n).all(|_| l.add_watcher(watcher_info::Watcher::new("i", WS::Active, WE::Approved).unwrap()).is_ok()), n <= 1000);
        let xml = format!("<watcherinfo version=\"0\" state=\"full\"><watcher-list resource=\"sip:h\" package=\"p\">{}</watcher-list></watcherinfo>", "<watcher id=\"i\" status=\"active\" event=\"approved\"></watcher>".repeat(n));
        ck(&format!("reading {n} watchers"), watcher_info::parse_watcherinfo(&xml).is_ok(), n <= 1000);
        let mut d = reg_event::RegInfo::new(0, reg_event::RegInfoState::Full);
        ck(&format!("{n} registrations"), (0..n).all(|_| d.add_registration(reg_event::Registration::new("a", "b", reg_event::RegistrationState::Init).unwrap()).is_ok()), n <= 100);
        let mut r = reg_event::Registration::new("a", "b", reg_event::RegistrationState::Init).unwrap();
        ck(&format!("{n} contacts"), (0..n).all(|_| r.add_contact(reg_event::Contact::new("a", reg_event::ContactState::Active, "b").unwrap()).is_ok()), n <= 50);
        let mut m = message_waiting::MessageSummary::new(true);
        ck(&format!("{n} message headers"), (0..n).all(|_| m.add_message_header(message_waiting::MessageHeader::new().with_to("t").unwrap()).is_ok()), n <= 50);
        let text = format!("Messages-Waiting: yes\r\n{}", "\r\nTo: t\r\n".repeat(n));
        ck(&format!("reading {n} message headers"), message_waiting::parse_message_summary(&text).is_ok(), n <= 50);
        let mut m = cpim::CpimMessage::new("a/b", vec![]).unwrap();
        ck(&format!("{n} CPIM headers"), (0..n).all(|i| m.add_header(&format!("H{}", i % 7), "v").is_ok()), n <= 50);
        let text = format!("Content-type: Message/CPIM\r\n\r\nA: b\r\n{}\r\nContent-type: a/b\r\n\r\nx", "To: t\r\n".repeat(n));
        ck(&format!("reading {n} CPIM headers"), cpim::parse_cpim(&text).is_ok(), n < 50);
        let mut m = cpim::CpimMessage::new("a/b", vec![]).unwrap();
        ck(&format!("{n} content headers"), (0..n).all(|i| m.add_content_header(&format!("H{i}"), "v").is_ok()), n <= 20);
        let mut h = Some(cpim::CpimHeader::new("v").unwrap());
        for i in 0..n {
            h = h.and_then(|h| h.with_param(&format!("p{i}"), "v").ok());
        }
        ck(&format!("{n} CPIM parameters"), h.is_some(), n <= 10);
        let ps: String = (0..n).map(|i| format!(";p{i}=v")).collect();
        let text = format!("Content-type: Message/CPIM\r\n\r\nA:{ps} b\r\n\r\nContent-type: a/b\r\n\r\nx");
        ck(&format!("reading {n} CPIM parameters"), cpim::parse_cpim(&text).is_ok(), n <= 10);
    }
    type L = (&'static str, usize, fn(&str) -> bool);
    let t: Vec<L> = vec![
        ("entity", 512, |x| presence::PresenceDocument::new(x).is_ok()),
        ("tuple id", 128, |x| presence::Tuple::new(x).is_ok()),
        ("presence contact", 512, |x| presence::Tuple::new("t").unwrap().with_contact(x).is_ok()),
        ("presence note", 512, |x| presence::Tuple::new("t").unwrap().with_note(x).is_ok()),
        ("document note", 512, |x| presence::PresenceDocument::new("e").unwrap().add_note(x).is_ok()),
        ("timestamp", 64, |x| presence::Tuple::new("t").unwrap().with_timestamp(x).is_ok()),
        ("watcher id", 128, |x| watcher_info::Watcher::new(x, WS::Active, WE::Approved).is_ok()),
        ("watcher name", 256, |x| watcher_info::Watcher::new("i", WS::Active, WE::Approved).unwrap().with_display_name(x).is_ok()),
        ("watcher URI", 512, |x| watcher_info::Watcher::new("i", WS::Active, WE::Approved).unwrap().with_uri(long_uri(x.len())).is_ok()),
        ("watcher package", 64, |x| watcher_info::WatcherList::new("sip:h", x).is_ok()),
        ("registration aor", 512, |x| reg_event::Registration::new(x, "i", reg_event::RegistrationState::Init).is_ok()),
        ("registration id", 128, |x| reg_event::Registration::new("a", x, reg_event::RegistrationState::Init).is_ok()),
        ("contact id", 128, |x| reg_event::Contact::new(x, reg_event::ContactState::Active, "u").is_ok()),
        ("contact uri", 512, |x| reg_event::Contact::new("i", reg_event::ContactState::Active, x).is_ok()),
        ("contact name", 256, |x| reg_event::Contact::new("i", reg_event::ContactState::Active, "u").unwrap().with_display_name(x).is_ok()),
        ("contact call", 256, |x| reg_event::Contact::new("i", reg_event::ContactState::Active, "u").unwrap().with_call_id(x).is_ok()),
        ("summary account", 512, |x| message_waiting::MessageSummary::new(true).set_account(x).is_ok()),
        ("summary header", 1024, |x| message_waiting::MessageHeader::new().with_subject(x).is_ok()),
        ("CPIM name", 128, |x| cpim::CpimMessage::new("a/b", vec![]).unwrap().add_header(x, "v").is_ok()),
        ("CPIM value", 1024, |x| cpim::CpimHeader::new(x).is_ok()),
        ("CPIM parameter", 64, |x| cpim::CpimHeader::new("v").unwrap().with_param(x, "v").is_ok()),
        ("CPIM parameter value", 256, |x| cpim::CpimHeader::new("v").unwrap().with_param("p", x).is_ok()),
        ("CPIM type", 256, |x| cpim::CpimMessage::new(x, vec![]).is_ok()),
        ("CPIM content value", 1024, |x| cpim::CpimMessage::new("a/b", vec![]).unwrap().add_content_header("n", x).is_ok()),
        ("fragment body", 65536, |x| sipfrag::SipFrag::empty().with_header("Content-Type", "a/b").unwrap().with_header("Content-Length", x.len().to_string()).unwrap().with_body(x.as_bytes().to_vec()).is_ok()),
    ];
    for (name, max, f) in t {
        for n in [max - 1, max, max + 1, 2 * max] {
            ck(&format!("{name} of {n} bytes"), f(&"x".repeat(n)), n <= max);
        }
    }
    for c in 0u8..128 {
        let x = format!("a{}b", c as char);
        let ctl = c < 32 || c == 127;
        ck(&format!("byte {c} in a presence note"), presence::Tuple::new("t").unwrap().with_note(&x).is_ok(), !ctl);
        ck(&format!("byte {c} in a registration id"), reg_event::Contact::new(&x, reg_event::ContactState::Active, "u").is_ok(), !ctl);
        ck(&format!("byte {c} in a watcher id"), watcher_info::Watcher::new(x.as_str(), WS::Active, WE::Approved).is_ok(), !ctl);
        ck(&format!("byte {c} in a summary header"), message_waiting::MessageHeader::new().with_to(&x).is_ok(), !ctl);
    }
}
fn presence_xml(tuples: usize, notes: usize, each: usize) -> String {
    let t = format!("<tuple id=\"t\">{}</tuple>", "<note>n</note>".repeat(each));
    format!("<presence entity=\"e\">{}{}</presence>", t.repeat(tuples), "<note>n</note>".repeat(notes))
}

/// A SIP URI of exactly `n` bytes none of whose parts is long.
fn long_uri(n: usize) -> String {
    let mut u = String::from("sip:h");
    let mut i = 0;
    while u.len() < n {
        let left = n - u.len();
        // never leave a piece too short to be a parameter
        let take = if left <= 60 { left } else if left < 70 { 50 } else { 60 };
        let head = format!(";p{}=", (b'a' + i as u8) as char);
        u.push_str(&head);
        u.push_str(&"v".repeat(take - head.len()));
        i += 1;
    }
    u
}
