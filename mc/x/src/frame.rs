//! P29: framing of stream transports. P34: lifetime of a stream session.
//!
//! The real generic `spawn_stream_session` of sip-transport runs on a stand-in
//! stream: P29 delivers a byte stream in enumerated segments, P34 runs
//! histories of reads, writes, stalls, failures and waiting in virtual time.
use crate::manager::rt;
use bytes::Bytes;
use common::*;
use sip_transport::{set_established_idle_timeout, set_stream_keepalive_interval, set_stream_rate_limit, InboundPacket, TransportKind};
use std::collections::VecDeque;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::sync::mpsc;
use tokio::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Open,
    Eof,
    Err,
}

struct Wire {
    inq: VecDeque<Bytes>,
    end: End,
    /// read polled with nothing to give
    idle: bool,
    reader: Option<Waker>,
    /// what the peer received, and when
    out: Vec<(Instant, Vec<u8>)>,
    /// bytes taken by one write
    chunk: usize,
    stalled: bool,
    broken: bool,
    shut: bool,
    writer: Option<Waker>,
}

impl Wire {
    fn new(chunk: usize) -> Arc<Mutex<Wire>> {
        Arc::new(Mutex::new(Wire { inq: VecDeque::new(), end: End::Open, idle: false, reader: None, out: Vec::new(), chunk, stalled: false, broken: false, shut: false, writer: None }))
    }
    fn wake(&mut self) {
        self.idle = false;
        self.reader.take().map(Waker::wake);
        self.writer.take().map(Waker::wake);
    }
    fn sent(&self) -> Vec<u8> {
        self.out.iter().flat_map(|o| o.1.clone()).collect()
    }
}

struct Mock(Arc<Mutex<Wire>>);

impl AsyncRead for Mock {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let mut w = self.0.lock().unwrap();
        let end = w.end;
        match w.inq.front_mut() {
            Some(seg) => {
                let n = seg.len().min(buf.remaining());
                buf.put_slice(&seg.split_to(n));
                if seg.is_empty() {
                    w.inq.pop_front();
                }
                Poll::Ready(Ok(()))
            }
            None if end == End::Eof => Poll::Ready(Ok(())),
            None if end == End::Err => Poll::Ready(Err(std::io::ErrorKind::ConnectionReset.into())),
            None => {
                w.idle = true;
                w.reader = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

impl AsyncWrite for Mock {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<std::io::Result<usize>> {
        let mut w = self.0.lock().unwrap();
        if w.broken {
            return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
        }
        if w.stalled {
            w.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = data.len().min(w.chunk);
        w.out.push((Instant::now(), data[..n].to_vec()));
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.0.lock().unwrap().shut = true;
        Poll::Ready(Ok(()))
    }
}

const PEER: ([u8; 4], u16) = ([192, 0, 2, 7], 50_123);
const LOCAL: ([u8; 4], u16) = ([198, 51, 100, 1], 5060);

struct Session {
    wire: Arc<Mutex<Wire>>,
    rx: mpsc::Receiver<InboundPacket>,
    task: tokio::task::JoinHandle<()>,
}

fn open(kind: TransportKind, chunk: usize, room: usize) -> Session {
    let wire = Wire::new(chunk);
    let (tx, rx) = mpsc::channel(room);
    let task = tokio::spawn(sip_transport::spawn_stream_session(SocketAddr::from(PEER), SocketAddr::from(LOCAL), Mock(wire.clone()), kind, tx, "read", "write"));
    Session { wire, rx, task }
}

// ---------------------------------------------------------------- P29

const MAX_HEADER: usize = 64 * 1024;
const MAX_BODY: usize = 10 * 1024 * 1024;

/// Reference framer over the whole stream: the complete messages, and
/// whether the stream is malformed after them.
fn frames(s: &[u8]) -> (Vec<&[u8]>, bool) {
    let mut out = Vec::new();
    let mut i = 0;
    loop {
        while i < s.len() && (s[i] == b'\r' || s[i] == b'\n') {
            i += 1;
        }
        let rest = &s[i..];
        let Some(h) = rest.windows(4).take(MAX_HEADER + 1).position(|w| w == b"\r\n\r\n") else {
            return (out, rest.len() > MAX_HEADER + 3);
        };
        let mut length: Option<u64> = None;
        let mut bad = false;
        for line in rest[..h].split(|c| *c == b'\n') {
            if matches!(line.first(), Some(b' ' | b'\t')) {
                continue;
            }
            let text = String::from_utf8_lossy(line).to_ascii_lowercase();
            let Some((name, value)) = text.split_once(':') else { continue };
            if !["l", "content-length"].contains(&name.trim()) {
                continue;
            }
            let value = value.trim();
            match value.parse::<u64>() {
                Ok(v) if value.bytes().all(|c| c.is_ascii_digit()) && length.is_none_or(|l| l == v) => length = Some(v),
                _ => bad = true,
            }
        }
        match length {
            Some(l) if !bad && l <= MAX_BODY as u64 => {
                let n = h + 4 + l as usize;
                if rest.len() < n {
                    return (out, false);
                }
                out.push(&rest[..n]);
                i += n;
            }
            _ => return (out, true),
        }
    }
}

/// One stream in the given segments; `cuts` ascending.
async fn deliver(run: &Run, stream: &Bytes, cuts: &[usize], kind: TransportKind, room: usize, probe: bool) {
    let mut s = open(kind, if probe { 3 } else { usize::MAX }, room);
    {
        let mut w = s.wire.lock().unwrap();
        let mut at = 0;
        for c in cuts.iter().copied().chain([stream.len()]) {
            if c > at {
                w.inq.push_back(stream.slice(at..c));
            }
            at = c;
        }
    }
    let mut got: Vec<InboundPacket> = Vec::new();
    let mut quiet = 0;
    loop {
        tokio::task::yield_now().await;
        let before = got.len();
        while let Ok(p) = s.rx.try_recv() {
            got.push(p);
        }
        if s.task.is_finished() || (before == got.len() && s.wire.lock().unwrap().idle) {
            quiet += 1;
            if quiet > 3 {
                break;
            }
        }
    }
    let (want, bad) = frames(stream);
    run.step(1 + cuts.len() as u64);
    let show = || js(&String::from_utf8_lossy(&stream[..stream.len().min(400)]));
    let detail = |got: &[InboundPacket]| format!("{} cut at {cuts:?}: {} messages, expected {}; malformed: {bad}", show(), got.len(), want.len());
    run.check(got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.payload() == *w), || (if got.len() < want.len() { "messages lost" } else { "messages differ" }).into(), || detail(&got));
    run.check(s.task.is_finished() == bad, || (if bad { "a malformed stream stays open" } else { "a well-formed stream is closed" }).into(), || detail(&got));
    run.check(got.iter().all(|p| p.transport() == kind && p.peer() == SocketAddr::from(PEER) && p.local() == Some(SocketAddr::from(LOCAL)) && p.stream().is_some()), || "a message is attributed to another connection".into(), || detail(&got));
    if probe {
        // answers go out on the same connection, whole and in order
        let mut want = Vec::new();
        for (i, p) in got.iter().enumerate() {
            let b = format!("answer {i}\r\n\r\n");
            let sent = p.stream().unwrap().try_send(Bytes::from(b.clone())).is_ok();
            run.check(sent != bad, || (if bad { "a closed connection takes messages" } else { "an answer is refused" }).into(), || detail(&got));
            if sent {
                want.extend(b.into_bytes());
            }
        }
        for _ in 0..20 + want.len() {
            tokio::task::yield_now().await;
        }
        let w = s.wire.lock().unwrap();
        run.check(w.sent() == want, || "answers are not written whole and in order".into(), || format!("{}: wrote {:?}, sent {:?}", show(), String::from_utf8_lossy(&w.sent()), String::from_utf8_lossy(&want)));
        run.check(w.shut == bad, || "the connection is not shut down with its session".into(), || detail(&got));
    }
    s.task.abort();
}

fn cuts_upto(n: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(from: usize, n: usize, k: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        f(cur);
        if k > 0 {
            for c in from..n {
                cur.push(c);
                go(c + 1, n, k - 1, cur, f);
                cur.pop();
            }
        }
    }
    go(1, n, k, &mut Vec::new(), f)
}

const GOOD: [&str; 13] = [
    "\r\n",
    "\r\n\r\n",
    "l:0\r\n\r\n",
    "A b\r\nContent-Length: 2\r\n\r\nhi",
    "l:4\r\n\r\n\r\n\r\n",
    "CONTENT-length \t:\t3 \r\n\r\nl:9",
    "L:2\r\nContent-Length:02\r\n\r\n\r\n",
    "l:7\r\n\r\nl:0\r\n\r\n",
    "s:x\r\n l:5\r\nl:0\r\n\r\n",
    "xl:5\r\nl:1\r\nlx:4\r\n\r\nz",
    "s:a l:5\r\n\tl:6\r\nl :1\r\n\r\n\r",
    "\n",
    "\r",
];
const BAD: [&str; 12] = [
    "x:1\r\n\r\n",
    "l:1\r\nl:2\r\n\r\nab",
    "l:\r\n\r\n",
    "l:-1\r\n\r\n",
    "l:+1\r\n\r\na",
    "l:1 1\r\n\r\na",
    "Content-Length: 0x1\r\n\r\na",
    "l:18446744073709551617\r\n\r\na",
    "l:10485761\r\n\r\n",
    "l:18446744073709551615\r\n\r\n",
    "l:0\r\n 1\r\ncontent-length:\r\n\r\n",
    "l:1,1\r\n\r\na",
];

pub fn p29(run: &Run) {
    set_stream_rate_limit(sip_ratelimit_disabled());
    run.assume("TLS and WebSocket sessions are not run (rustls and tungstenite are not here); the TLS session and the pooled client connections use the same framer");
    run.assume("a Content-Length whose value is folded onto the next line is refused");
    let items: Vec<&str> = GOOD.iter().chain(&BAD).copied().collect();
    let n = items.len();
    // streams of up to three items, then a truncated one
    let mut streams: Vec<String> = Vec::new();
    for a in 0..n {
        for k in 1..=items[a].len() {
            streams.push(items[a][..k].into());
        }
        for b in 0..n {
            if a < GOOD.len() {
                for k in 1..=items[b].len() {
                    streams.push(format!("{}{}", items[a], &items[b][..k]));
                }
            } else {
                streams.push(format!("{}{}", items[a], items[b]));
            }
            for c in 0..n {
                streams.push(format!("{}{}{}", items[a], items[b], items[c]));
            }
        }
    }
    let streams: Vec<Bytes> = streams.into_iter().map(Bytes::from).collect();
    let full = run.pick(9, 14);
    let some = run.pick(2, 3);
    par_for(run, streams.len(), |i| {
        let s = &streams[i];
        let len = s.len();
        rt().block_on(async {
            let kind = if i % 2 == 0 { TransportKind::Tcp } else { TransportKind::Tls };
            let mut all: Vec<Vec<usize>> = Vec::new();
            let k = if len <= full { len } else if len > 40 { some - 1 } else { some };
            cuts_upto(len, k, &mut |c| all.push(c.to_vec()));
            all.push((1..len).collect());
            for (j, c) in all.iter().enumerate() {
                deliver(run, s, c, kind, if j % 5 == 0 { 1 } else { 64 }, j % 7 == 0).await;
                if run.stopped() {
                    return;
                }
            }
            run.traces(all.len() as u64);
        });
    });
    // limits: header and body sizes around them, cut near the end
    let mut big: Vec<(Bytes, Vec<usize>)> = Vec::new();
    for h in MAX_HEADER - 3..=MAX_HEADER + 6 {
        for (done, body) in [(true, ""), (true, "l:0\r\n\r\n"), (false, "")] {
            let mut s = String::from("l:0\r\nx:");
            s.push_str(&"y".repeat(h - s.len()));
            let from = h - 2;
            if done {
                s.push_str("\r\n\r\n");
            }
            s.push_str(body);
            let cuts = (from..s.len()).collect::<Vec<_>>();
            big.push((Bytes::from(s), cuts));
        }
    }
    par_for(run, big.len(), |i| {
        let (s, at) = &big[i];
        rt().block_on(async {
            let mut all = Vec::new();
            cuts_upto(at.len(), some, &mut |c| all.push(c.iter().map(|j| at[*j]).collect::<Vec<_>>()));
            for c in &all {
                deliver(run, s, c, TransportKind::Tcp, 64, false).await;
            }
            run.traces(all.len() as u64);
        });
    });
    let huge: Vec<Bytes> = [(MAX_BODY, MAX_BODY), (MAX_BODY, MAX_BODY - 1), (MAX_BODY + 1, 8)].iter().map(|(l, b)| { let mut s = format!("l:{l}\r\n\r\n").into_bytes(); s.resize(s.len() + b, b'\n'); if l == b { let again = s.clone(); s.extend(again); } Bytes::from(s) }).collect();
    par_for(run, huge.len(), |i| {
        rt().block_on(async {
            for c in [vec![], vec![5], vec![huge[i].len() - 1], vec![14, huge[i].len() / 2]] {
                deliver(run, &huge[i], &c, TransportKind::Tls, 4, false).await;
                run.trace();
            }
        });
    });
    run.note("streams", streams.len() + big.len() + huge.len());
    run.note("segmentations", format!("all of streams up to {full} bytes, up to {some} cuts of longer ones, byte by byte of every one"));
}

fn sip_ratelimit_disabled() -> sip_ratelimit::RateLimitConfig {
    sip_ratelimit::RateLimitConfig::disabled()
}

// ---------------------------------------------------------------- P34

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    /// the first part of a message, then the rest of it
    Part,
    Rest,
    Whole,
    Ping,
    Junk,
    /// waiting, seconds
    Wait(u64),
    Send,
    Stall,
    Resume,
    Break,
    Eof,
    Reset,
}

const HANDSHAKE: u64 = 60;
/// Longest a closing session may wait for a peer that takes no data.
const LINGER: u64 = 60;

#[derive(Clone, Copy)]
struct Conf {
    idle: u64,
    keepalive: u64,
}

async fn settle() {
    for _ in 0..12 {
        tokio::task::yield_now().await;
    }
}

fn history(run: &Run, cf: Conf, ops: &[Op]) {
    rt().block_on(async {
        let mut s = open(TransportKind::Tcp, 4, 64);
        let flow: Mutex<Option<mpsc::Sender<Bytes>>> = Mutex::new(None);
        settle().await;
        let t0 = Instant::now();
        let now = || (Instant::now() - t0).as_millis() as u64;
        // model
        let (mut pending, mut dead, mut established) = (false, false, false);
        let mut deadline = HANDSHAKE * 1000;
        let mut closed_at: Option<u64> = None;
        let mut last_quiet = 0u64; // since when nothing was written
        let (mut stalled, mut broken, mut gave_up) = (false, false, false);
        let mut accepted: Vec<u8> = Vec::new();
        let mut sent = 0;
        let mut messages = 0;
        let text = |i: usize| format!("{:?} idle {} keepalive {} after {:?}", ops, cf.idle, cf.keepalive, &ops[..=i]);
        for (i, op) in ops.iter().enumerate() {
            let t = now();
            let live = !dead;
            let mut data: Option<&'static str> = None;
            match op {
                Op::Part => {
                    data = Some("l:0\r\n");
                    pending = true;
                }
                Op::Rest => data = Some("\r\n"),
                Op::Whole => data = Some("l:0\r\n\r\n"),
                Op::Ping => data = Some("\r\n\r\n"),
                Op::Junk => data = Some("z\r\n\r\n"),
                Op::Wait(d) => {
                    tokio::time::sleep(Duration::from_secs(*d)).await;
                    settle().await;
                }
                Op::Send => {
                    let f = flow.lock().unwrap().clone();
                    if let Some(f) = f {
                        let b = format!("<{sent}>");
                        sent += 1;
                        let ok = f.try_send(Bytes::from(b.clone())).is_ok();
                        if ok {
                            accepted.extend(b.into_bytes());
                        }
                        if !broken && !(dead && stalled) {
                            run.check(ok != dead, || (if dead { "a closed session takes messages" } else { "an open session refuses messages" }).into(), || text(i));
                        }
                    }
                }
                Op::Stall => {
                    s.wire.lock().unwrap().stalled = true;
                    stalled = true;
                }
                Op::Resume => {
                    let mut w = s.wire.lock().unwrap();
                    w.stalled = false;
                    w.wake();
                    stalled = false;
                }
                Op::Break => {
                    let mut w = s.wire.lock().unwrap();
                    w.broken = true;
                    w.wake();
                    broken = true;
                }
                Op::Eof | Op::Reset => {
                    let mut w = s.wire.lock().unwrap();
                    w.end = if *op == Op::Eof { End::Eof } else { End::Err };
                    w.wake();
                    if live {
                        dead = true;
                        closed_at = Some(t);
                    }
                }
            }
            if let Some(d) = data {
                let mut w = s.wire.lock().unwrap();
                w.inq.push_back(Bytes::from_static(d.as_bytes()));
                w.wake();
            }
            settle().await;
            let t = now();
            // deadline passed while waiting?
            if !dead && t >= deadline {
                dead = true;
                closed_at = Some(deadline);
            }
            let mut new = 0;
            if let (Some(_), false) = (data, dead) {
                match op {
                    Op::Rest if pending => {
                        new = 1;
                        pending = false;
                    }
                    Op::Whole if !pending => new = 1,
                    // completes the started header: "l:0 CRLF l:0 CRLF CRLF"
                    Op::Whole => {
                        new = 1;
                        pending = false;
                    }
                    Op::Ping if pending => {
                        new = 1;
                        pending = false;
                    }
                    Op::Junk if !pending => {
                        dead = true;
                        closed_at = Some(t);
                    }
                    // "l:0 CRLF z CRLF CRLF"
                    Op::Junk => {
                        new = 1;
                        pending = false;
                    }
                    _ => {}
                }
                established |= new > 0;
                if established && !dead {
                    deadline = if cf.idle == 0 { u64::MAX } else { t + cf.idle * 1000 };
                }
            }
            let mut got = 0;
            while let Ok(p) = s.rx.try_recv() {
                got += 1;
                *flow.lock().unwrap() = p.stream().cloned();
            }
            messages += got;
            run.check(got == new, || (if got < new { "a message on an open session is lost" } else { "a message appears on a closed session" }).into(), || format!("{}: {got} for {new}", text(i)));
            // what was written
            let w = s.wire.lock().unwrap();
            let out = w.sent();
            let mut plain = String::from_utf8_lossy(&out).into_owned();
            let pings = plain.matches("\r\n\r\n").count();
            plain = plain.replace("\r\n\r\n", "");
            let acc = String::from_utf8_lossy(&accepted).into_owned();
            gave_up |= dead && stalled && s.task.is_finished();
            if gave_up {
                run.check(t >= closed_at.unwrap() + 20_000 || broken || plain.trim_end_matches(['\r', '\n']) == acc, || "a session gives up at once what it accepted".into(), || text(i));
            }
            if !stalled && !broken && !gave_up {
                run.check(plain == acc || plain.trim_end_matches(['\r', '\n']) == acc, || "what was accepted is not written whole and in order".into(), || format!("{}: wrote {plain:?}, accepted {acc:?}", text(i)));
            } else {
                run.check(acc.starts_with(&plain.replace(['\r', '\n'], "")), || "something else than what was accepted is written".into(), || format!("{}: wrote {plain:?}, accepted {acc:?}", text(i)));
            }
            run.check(cf.keepalive > 0 || pings == 0, || "a keepalive although they are off".into(), || text(i));
            run.check(established || pings == 0, || "a keepalive before the first message".into(), || text(i));
            if let Some(o) = w.out.last() {
                last_quiet = last_quiet.max((o.0 - t0).as_millis() as u64);
            }
            if established && !dead && cf.keepalive > 0 && !stalled && !broken && !ops[..=i].iter().any(|o| *o == Op::Stall) {
                run.check(t.saturating_sub(last_quiet) <= cf.keepalive * 1000 + 50 || w.out.is_empty() && t < cf.keepalive * 1000, || "an established session is quiet for longer than the keepalive interval".into(), || format!("{}: nothing for {} ms", text(i), t - last_quiet));
            }
            // end of the session
            let finished = s.task.is_finished();
            let shut = w.shut;
            drop(w);
            if !dead {
                run.check(!finished && (broken || !shut), || "an open session ends".into(), || text(i));
            } else if !stalled || t >= closed_at.unwrap() + LINGER * 1000 {
                run.check(finished, || (if closed_at == Some(deadline) { "an idle session stays open" } else { "a closed session does not end" }).into(), || format!("{} at {t} ms", text(i)));
                if !stalled {
                    run.check(shut || ops[..=i].contains(&Op::Stall), || "the connection is not shut down with its session".into(), || text(i));
                }
            }
            run.step(1);
        }
        run.trace();
        let _ = messages;
        s.task.abort();
    });
}

pub fn p34(run: &Run) {
    set_stream_rate_limit(sip_ratelimit_disabled());
    let confs = [Conf { idle: 100, keepalive: 0 }, Conf { idle: 100, keepalive: 40 }, Conf { idle: 0, keepalive: 25 }, Conf { idle: 30, keepalive: 0 }];
    let alpha = [Op::Part, Op::Rest, Op::Whole, Op::Ping, Op::Junk, Op::Wait(29), Op::Wait(41), Op::Send, Op::Stall, Op::Resume, Op::Break, Op::Eof, Op::Reset];
    let len = run.pick(4, 5);
    for cf in confs {
        set_established_idle_timeout(cf.idle);
        set_stream_keepalive_interval(cf.keepalive);
        sequences(run, alpha.len(), len, |s| {
            let mut ops: Vec<Op> = s.iter().map(|i| alpha[*i]).collect();
            // two starts and an ending that lets everything happen
            for pre in [&[][..], &[Op::Whole, Op::Send][..], &[Op::Whole, Op::Stall, Op::Send, Op::Send][..]] {
                let mut h = pre.to_vec();
                h.append(&mut ops.clone());
                h.extend([Op::Wait(101), Op::Wait(61), Op::Send]);
                history(run, cf, &h);
            }
            ops.clear();
        });
        if run.stopped() {
            return;
        }
    }
    run.note("histories", format!("all of {len} operations of {} under {} configurations", alpha.len(), confs.len()));
}
