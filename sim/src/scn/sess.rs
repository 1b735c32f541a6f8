//! Sessions: matching by id, isolation, abandoned set-ups and idle connections; stray connections on any port.
use super::link::{opt, payload};
use super::net::{base, cap, floor, hang};
use super::*;
use crate::os::{Ev, Fault, MS, SEC, US};
use bytes::Bytes;
use std::io::{Read, Write};
use std::sync::Arc;
use tp::*;

const REAL: &[&str] = &["mpc-net: tcp, tls, quic, tcp_session, tcp_session_blocking, blocking, async_net", "tokio runtime and drivers, mio, quinn, rustls, std threads, locks and sockets"];
const STUB: &[&str] = &["kernel: threads' scheduling, futex, clocks, TCP, UDP, epoll, eventfd, name service (virtual)", "entropy (seeded)"];
const SIMPLE: &[(&str, i64)] = &[("n", 2), ("sessions", 1), ("rounds", 1), ("msgs", 1), ("maxsize", 0), ("jitter_us", 0), ("lat_min_us", 10), ("lat_max_us", 10), ("sndbuf", 65536), ("rcvbuf", 65536), ("seg_max", 65536), ("strays", 1)];
pub fn scenarios() -> Vec<Scn> {
    vec![
        Scn { name: "sessions", props: &["N07"], weight: 1, make: make_sessions, run: run_sessions, simple: SIMPLE, real: REAL, stub: STUB },
        Scn { name: "stray", props: &["N08"], weight: 1, make: make_stray, run: run_stray, simple: SIMPLE, real: REAL, stub: STUB },
    ]
}
fn nm(c: &Cfg) -> &'static str { name(c.get("tp")) }
fn others(n: usize, p: usize) -> Vec<usize> { (0..n).filter(|&q| q != p).collect() }
fn small(c: &Cfg) -> bool { c.get("seg_max") < 1000 || c.get("sndbuf") < 1000 || c.get("rcvbuf") < 1000 }
fn us(c: &Cfg, k: &str) -> u64 { c.or(k, 0) as u64 * US }

/// Ids that are easy to confuse: they differ in one bit, in one half only, or are extreme.
fn session_ids(r: &mut Rng, k: usize) -> Vec<u128> {
    let base = match r.below(4) { 0 => 0, 1 => u128::MAX, 2 => 1u128 << 64, _ => (r.next() as u128) << 64 | r.next() as u128 };
    let mut v = vec![base];
    while v.len() < k {
        let x = match r.below(3) { 0 => base ^ 1 << r.below(128), 1 => base ^ (r.next() as u128) << 64, _ => base.rotate_left(64) ^ r.below(4) as u128 };
        if !v.contains(&x) { v.push(x); }
    }
    v
}
/// Everyone sends to everyone on the session's network and checks what arrives.
#[allow(clippy::too_many_arguments)]
fn talk(net: &Net, prop: &'static str, kind: &str, seed: u64, tag: usize, n: usize, p: usize, msgs: usize, len: usize, what: &str) -> bool {
    for i in 0..msgs { for q in others(n, p) { if let Err(e) = net.send(q, Bytes::from(payload(seed, tag, p, q, i as u64, len))) { viol(prop, kind, format!("{what}: send {i} P{p}->P{q}: {e:#}")); return false; } } }
    for i in 0..msgs { for q in others(n, p) {
        match net.recv(q) {
            Ok(d) if d[..] == payload(seed, tag, q, p, i as u64, len)[..] => {}
            Ok(d) => {
                let of = (0..64).find(|&t| (0..msgs.max(4)).any(|j| d[..] == payload(seed, t, q, p, j as u64, d.len())[..]));
                viol(prop, if of.is_some_and(|t| t != tag) { "sessions-mixed" } else { "wrong-message" }, format!("{what}: receive {i} at P{p} from P{q} returned {} bytes that are not that message{}", d.len(), match of { Some(t) => format!(" but one of session {t}"), None => String::new() }));
                return false;
            }
            Err(e) => { viol(prop, kind, format!("{what}: receive {i} P{q}->P{p}: {e:#}")); return false; }
        }
    } }
    true
}

// ---- N07 ------------------------------------------------------------------------------------------------
fn make_sessions(r: &mut Rng, _p: &str, i: u64, c: &mut Cfg) {
    let tp = [SESS, SESSB][(i % 2) as usize];
    let n = *r.pick(&[2, 2, 3, 3, 4]);
    base(r, c, tp, n, 1);
    c.set("v6", 0).set("perm", 0);
    // 0: concurrent sessions, 1: an abandoned set-up and its repetition, 2: connections nobody picks up.
    c.set("mode", [0, 1, 2, 1][(i / 2 % 4) as usize]).set("sessions", r.usize(1, 4) as i64).set("rounds", r.usize(1, 3) as i64).set("msgs", r.logu(1, 12) as i64).set("maxsize", *r.pick(&[1, 40, 3000]))
        .set("jitter_us", *r.pick(&[0i64, 300, 20_000, 400_000])).set("idle_ms", *r.pick(&[5_000i64, 8_000, 20_000]));
    // Who is late for the first session: nobody, the highest party (longer than the idle time), the lowest one (shorter than it).
    c.set("late", r.below(3) as i64);
    c.set("who", 1 + r.below((1 << n) - 2) as i64).set("limit_ms", *r.pick(&[3_000i64, 6_000])).set("gap", r.below(2) as i64).set("stagger", r.below(2) as i64).set("other", r.below(2) as i64).set("phase_ms", r.below(20_000) as i64).set("ordered", r.below(2) as i64);
    if c.get("mode") == 1 && r.chance(1, 2) { let k = r.usize(1, n - 1); c.set("who", (1 << k) - 1).set("stagger", 0); }
    cap(c, "stall_max_us", 5000);
    if small(c) { cap(c, "maxsize", 40); }
}
fn run_sessions(c: &Cfg) {
    match c.get("mode") { 0 => run_concurrent(c), 1 => run_abandon(c), _ => run_idle(c) }
}
fn run_concurrent(c: &Cfg) {
    let mut o = opt(c);
    o.idle = us(c, "idle_ms") * 1000;
    let (n, k, rounds, msgs, len, seed, late, jit) = (o.n, c.us("sessions"), c.us("rounds"), c.us("msgs"), c.us("maxsize"), c.get("seed") as u64, c.get("late"), us(c, "jitter_us"));
    let mut r = Rng::new(seed ^ 21);
    let ids = Arc::new(session_ids(&mut r, k));
    let delays: Arc<Vec<u64>> = Arc::new((0..n * k * rounds).map(|_| if jit > 0 { r.below(jit) } else { 0 }).collect());
    let c1 = c.clone();
    let mut tasks = vec![];
    for p in 0..n {
        let (o, ids, delays, c1) = (o.clone(), ids.clone(), delays.clone(), c1.clone());
        tasks.push(go(p, true, format!("P{p}"), move || {
            let h = match Handler::new(&o, p) { Ok(h) => h, Err(e) => { viol("N07", "setup", format!("{e:#}")); return; } };
            gate(1, n, 600 * SEC);
            for round in 0..rounds {
                let mut th = vec![];
                for s in 0..k {
                    let (h, id, d, c2, idle) = (h.share(), ids[s], delays[(round * k + s) * n + p], c1.clone(), o.idle);
                    th.push(go(p, false, format!("P{p} session {s} round {round}"), move || {
                        os::sleep(d);
                        if round == 0 && s == 0 {
                            if late == 1 && p == n - 1 { os::sleep(idle * 3 + SEC); feat(format!("{} set-up longer than the idle time", nm(&c2))); }
                            if late == 2 && p == 0 { os::sleep(idle / 10 * 6); feat(format!("{} late pick-up", nm(&c2))); }
                        }
                        let what = format!("{} session {s} (id {id:x}) round {round}", nm(&c2));
                        let net = match h.init(id, None) { Ok(x) => x, Err(e) => { viol("N07", "setup", format!("{what}: set-up of P{p} failed: {e:#}")); return; } };
                        if net.id() != p { viol("N07", "id", format!("{what}: P{p} is told it is {}", net.id())); }
                        talk(&net, "N07", "session-failed", seed, s + round * k, n, p, msgs, len, &what);
                        if let Err(e) = net.flush() { viol("N07", "session-failed", format!("{what}: flush: {e:#}")); }
                        // One session stays open while the others come and go.
                        if s + 1 < k { drop(net); arrive(100 + round as u64); } else { await_gate(100 + round as u64, (k - 1) * n, 900 * SEC); drop(net); }
                    }));
                }
                if !wait_tasks(&th, 1000 * SEC) { hang("N07", "hang", &c1, &th, "a session is not established or does not work"); }
                for m in panics(&th) { viol("N07", "panic", m); }
                if round > 0 { feat("session ids used again"); }
                gate(2 + round as u64, n, 900 * SEC);
            }
            std::mem::forget(h);
        }));
    }
    if !wait_tasks(&tasks, 3000 * SEC) { hang("N07", "hang", c, &tasks, "sessions do not finish"); }
    for m in panics(&tasks) { viol("N07", "panic", m); }
    feat(format!("{} {n} parties {k} sessions", nm(c)));
}

/// A set-up that not all parties take part in, next to other sessions, and its repetition by all of them.
fn run_abandon(c: &Cfg) {
    let mut o = opt(c);
    o.idle = us(c, "idle_ms") * 1000;
    let lim = us(c, "limit_ms") * 1000;
    o.connect_timeout = Some(lim);
    let (n, msgs, len, seed, who, jit) = (o.n, c.us("msgs"), c.us("maxsize"), c.get("seed") as u64, c.get("who") as u64, us(c, "jitter_us").min(400 * MS));
    let mut r = Rng::new(seed ^ 22);
    let ids = Arc::new(session_ids(&mut r, 3));
    let joins: Vec<bool> = (0..n).map(|p| who >> p & 1 == 1).collect();
    let joins = Arc::new(joins);
    let prefix = (1..n).all(|p| !joins[p] || joins[p - 1]);
    let stagger: Arc<Vec<u64>> = Arc::new((0..n).map(|_| if c.on("stagger") { r.below(2 * lim) } else { r.below(lim / 4) }).collect());
    // A connection of an abandoned attempt that its peer never picked up is kept there for the idle time.
    let clean = prefix && !c.on("stagger");
    let long = c.get("gap") == 1;
    // Unless the connection of the repeated attempt has replaced it by the time the party joins.
    let ordered = c.on("ordered");
    let kind = if long { "retry-after-idle" } else if clean { "retry" } else if ordered { "retry-newest" } else { "retry-stale" };
    let gap = if long { o.idle * 3 + 2 * SEC } else { 2 * SEC };
    let c1 = c.clone();
    let mut tasks = vec![];
    for p in 0..n {
        let (o, ids, joins, stagger, c1) = (o.clone(), ids.clone(), joins.clone(), stagger.clone(), c1.clone());
        let d = if jit > 0 { r.below(jit) } else { 0 };
        let d2 = if ordered { (n - 1 - p) as u64 * lim / 5 } else if jit > 0 { r.below(jit) } else { 0 };
        tasks.push(go(p, true, format!("P{p}"), move || {
            let h = match Handler::new(&o, p) { Ok(h) => h, Err(e) => { viol("N07", "setup", format!("{e:#}")); return; } };
            gate(1, n, 600 * SEC);
            // A session that exists throughout.
            let y = match h.init(ids[1], Some(lim)) { Ok(x) => x, Err(e) => { viol("N07", "setup", format!("{}: P{p}: {e:#}", nm(&c1))); return; } };
            talk(&y, "N07", "session-disturbed", seed, 1, n, p, 1, len, "session next to an abandoned set-up");
            gate(2, n, 600 * SEC);
            let t = { let (h, c2, id, j, st) = (h.share(), c1.clone(), ids[0], joins[p], stagger[p]);
                let missing = (p + 1..n).any(|q| !joins[q]); go(p, false, format!("P{p} abandoned set-up"), move || {
                if !j { return; }
                os::sleep(st);
                let t0 = os::now();
                // Who only connects does not wait for an answer.
                if h.init(id, Some(lim)).is_ok() { if missing { viol("N07", "established-without-peers", format!("{}: P{p} established a session although a party it waits for takes no part", nm(&c2))); } }
                else { feat(format!("{} abandoned after {}", nm(&c2), if os::now() - t0 >= lim { "its time" } else { "an error" })); }
            }) };
            let t2 = { let (h, c2, id, on) = (h.share(), c1.clone(), ids[2], c1.on("other")); go(p, false, format!("P{p} other set-up"), move || {
                if !on { return; }
                os::sleep(lim / 2 + d);
                match h.init(id, Some(lim)) { Ok(z) => { talk(&z, "N07", "session-disturbed", seed, 2, n, p, msgs, len, "session set up next to an abandoned one"); z.flush().ok(); gate(7, n, 600 * SEC); }
                    Err(e) => viol("N07", "session-disturbed", format!("{}: P{p}: the set-up of another session failed: {e:#}", nm(&c2))) }
            }) };
            wait_tasks(&[t, t2], 900 * SEC);
            for m in panics(&[t, t2]) { viol("N07", "panic", m); }
            talk(&y, "N07", "session-disturbed", seed, 3, n, p, msgs, len, "session next to an abandoned set-up");
            gate(3, n, 900 * SEC);
            os::sleep(gap);
            gate(4, n, 900 * SEC);
            os::sleep(d2);
            let what = format!("{}: repeated set-up after {} of {n} parties abandoned it", nm(&c1), joins.iter().filter(|x| **x).count());
            match h.init(ids[0], Some(lim)) {
                Ok(x) => { if talk(&x, "N07", kind, seed, 4, n, p, msgs, len, &what) { feat(format!("{} {kind} works", nm(&c1))); } gate(5, n, 60 * SEC); drop(x); }
                Err(e) => { viol("N07", kind, format!("{what}: P{p}: {e:#}")); gate(5, n, 60 * SEC); }
            }
            talk(&y, "N07", "session-disturbed", seed, 5, n, p, 1, len, "session next to an abandoned set-up");
            gate(6, n, 600 * SEC);
            std::mem::forget((y, h));
        }));
    }
    // A receive from a dead connection fails; one from a connection nobody uses may wait for good.
    if !wait_tasks(&tasks, 3000 * SEC) { let k = if kind == "retry-stale" { kind } else { "hang" }; hang("N07", k, c, &tasks, "sessions do not finish"); }
    for m in panics(&tasks) { viol("N07", "panic", m); }
    feat(format!("{} {n} parties mask {who} {kind}", nm(c)));
}

/// Connections for sessions nobody sets up.
fn run_idle(c: &Cfg) {
    let mut o = opt(c);
    o.idle = us(c, "idle_ms") * 1000;
    o.n = 2;
    let (n, msgs, len, seed, k) = (o.n, c.us("msgs"), c.us("maxsize"), c.get("seed") as u64, c.us("sessions"));
    let (idle, phase) = (o.idle, us(c, "phase_ms") * 1000);
    let mut r = Rng::new(seed ^ 23);
    let ids = Arc::new(session_ids(&mut r, k + 1));
    let gaps: Arc<Vec<u64>> = Arc::new((0..k).map(|_| r.below(idle * 2)).collect());
    let mut tasks = vec![];
    for p in 0..n {
        let (o, ids, gaps, c1) = (o.clone(), ids.clone(), gaps.clone(), c.clone());
        tasks.push(go(p, true, format!("P{p}"), move || {
            let h = match Handler::new(&o, p) { Ok(h) => h, Err(e) => { viol("N07", "setup", format!("{e:#}")); return; } };
            gate(1, n, 600 * SEC);
            let y = match h.init(ids[k], None) { Ok(x) => x, Err(e) => { viol("N07", "setup", format!("{e:#}")); return; } };
            let mut th = vec![];
            if p == 1 { for s in 0..k {
                let (id, g, c2, port) = (ids[s], gaps[s], c1.clone(), o.port);
                th.push(go(p, false, format!("idle connection {s}"), move || {
                    os::sleep(phase + g);
                    let t0 = os::now();
                    let Ok(mut x) = std::net::TcpStream::connect(("p0.sim", port)) else { return };
                    let mut b = id.to_be_bytes().to_vec();
                    b.extend(1u64.to_be_bytes());
                    if x.write_all(&b).is_err() { return; }
                    let sent = os::now();
                    x.set_read_timeout(Some(std::time::Duration::from_nanos(10 * idle))).unwrap();
                    let res = loop { match x.read(&mut [0u8; 1]) { Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue, r => break r } };
                    let t = os::now();
                    match res {
                        Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => viol("N07", "idle-kept", format!("{}: a connection nobody picks up is still open after {} idle times", nm(&c2), (t - sent) / idle)),
                        Ok(1) => viol("N07", "idle-data", format!("{}: data on a connection nobody picked up", nm(&c2))),
                        _ => {
                            if t < t0 + idle { viol("N07", "idle-early", format!("{}: a connection is discarded after {} ms, idle time {} ms", nm(&c2), (t - t0) / MS, idle / MS)); }
                            if t > sent + 3 * idle + 3 * SEC { viol("N07", "idle-late", format!("{}: a connection is discarded only after {} ms, idle time {} ms", nm(&c2), (t - t0) / MS, idle / MS)); }
                            feat(format!("{} discarded in idle time {}", nm(&c2), (t - sent) / idle));
                        }
                    }
                }));
            } }
            wait_tasks(&th, 3000 * SEC);
            gate(2, n, 4000 * SEC);
            talk(&y, "N07", "session-disturbed", seed, 40, n, p, msgs, len, "session next to discarded connections");
            // The ids are usable.
            for s in 0..k { match h.init(ids[s], None) { Ok(x) => { talk(&x, "N07", "retry-after-idle", seed, s, n, p, msgs, len, "session whose idle connection was discarded"); gate(10 + s as u64, n, 600 * SEC); } Err(e) => viol("N07", "retry-after-idle", format!("{e:#}")) } }
            gate(3, n, 600 * SEC);
            std::mem::forget((y, h));
        }));
    }
    if !wait_tasks(&tasks, 8000 * SEC) { hang("N07", "hang", c, &tasks, "sessions do not finish"); }
    for m in panics(&tasks) { viol("N07", "panic", m); }
}

// ---- N08 ------------------------------------------------------------------------------------------------
const SILENT: i64 = 0; // sends nothing
const PART: i64 = 1; // sends part of an introduction
const CLOSE: i64 = 2; // sends part of an introduction and closes
const RST: i64 = 3; // sends part of an introduction and is reset
const GARBAGE: i64 = 4; // sends random bytes, more than an introduction
const WRONG: i64 = 5; // a complete introduction that names nobody
fn make_stray(r: &mut Rng, _p: &str, i: u64, c: &mut Cfg) {
    let tp = [SESS, SESSB, TCP, SESS, SESSB, TLS, SESS, SESSB, QUIC][(i % 9) as usize];
    let n = r.usize(2, 3);
    base(r, c, tp, n, 1);
    c.set("v6", 0).set("perm", 0).set("sessions", r.usize(1, 3) as i64).set("strays", r.usize(1, 6) as i64).set("msgs", r.logu(1, 10) as i64).set("maxsize", *r.pick(&[1, 40, 3000])).set("jitter_us", *r.pick(&[0i64, 300, 20_000, 1_000_000]))
        .set("kinds", 1 + r.below(63) as i64).set("nets", r.usize(1, 2) as i64);
    if r.chance(1, 2) && (tp == SESS || tp == SESSB) { c.set("accept_err", r.logu(1000, 400_000) as i64); }
    cap(c, "stall_max_us", 5000);
    cap(c, "lat_max_us", 20_000);
    floor(c, "seg_max", 100);
    if tp == TCP || tp == TLS || tp == QUIC {
        // Introductions are read one after another there: silent connections are a case of their own.
        if r.chance(1, 12) { c.set("kinds", 1).set("connect_us", if r.chance(1, 2) { 3_000_000 } else { 0 }); }
        else { let k = c.get("kinds") & !(1 << SILENT | 1 << PART); c.set("kinds", if k == 0 { 1 << CLOSE } else { k }); if r.chance(1, 2) { c.set("connect_us", 60_000_000); } }
    }
    if small(c) { cap(c, "maxsize", 40); }
}
/// One stray connection to `target`, `o.n` is the stray's host.
fn stray(o: &Opt, c: &Cfg, target: usize, kind: i64, ids: &[u128], r: &mut Rng) {
    let sess = o.tp == SESS || o.tp == SESSB;
    let port = o.port + target as u16;
    if o.tp == QUIC { return stray_quic(o, target, kind, r); }
    let Ok(mut x) = std::net::TcpStream::connect((format!("p{target}.sim"), port)) else { return };
    let full = if sess { 24 } else { 16 };
    let mut b = vec![0u8; full];
    match kind {
        SILENT => b.clear(),
        GARBAGE => { b.resize(full + r.usize(0, 2000), 0); r.fill(&mut b); }
        WRONG => {
            b.clear();
            if sess {
                // A session of the others with a party that does not exist, or another session.
                let own = r.chance(1, 2);
                let id = if own { ids[r.usize(0, ids.len() - 1)] } else { (r.next() as u128) << 64 | 77 };
                b.extend(id.to_be_bytes());
                b.extend((*r.pick(&[o.n as u64, u64::MAX, target as u64, 1 << 32])).to_be_bytes());
            } else {
                // A network or a party that does not exist.
                let (i, p) = *r.pick(&[(o.nets as u64, 0u64), (u64::MAX, 0), (0, target as u64), (0, o.n as u64), (0, u64::MAX), (1 << 32, 1 << 32)]);
                b.extend(i.to_be_bytes());
                b.extend(p.to_be_bytes());
            }
        }
        _ => { r.fill(&mut b); b.truncate(r.usize(0, full - 1)); if sess && b.len() >= 16 { b[..16].copy_from_slice(&ids[0].to_be_bytes()); } }
    }
    if o.tp == TLS && kind == WRONG {
        let mut roots = rustls::RootCertStore::empty();
        for x in certs(o.n) { roots.add(x).unwrap(); }
        let cc = rustls::ClientConfig::builder().with_root_certificates(roots).with_no_client_auth();
        let conn = rustls::ClientConnection::new(Arc::new(cc), rustls::pki_types::ServerName::try_from(format!("p{target}.sim")).unwrap()).unwrap();
        let mut t = rustls::StreamOwned::new(conn, x);
        b.push(if r.chance(1, 3) { 2 } else { 0 });
        let intr = |e: &std::io::Error| e.kind() == std::io::ErrorKind::Interrupted;
        while t.conn.is_handshaking() { match t.conn.complete_io(&mut t.sock) { Err(e) if !intr(&e) => return, _ => {} } }
        let mut res = t.write_all(&b);
        while res.is_ok() { match t.flush() { Err(e) if intr(&e) => {} r => { res = r; break; } } }
        if res.is_err() { return; }
        feat("tls stray completed a handshake");
        os::sleep(r.below(300) * SEC);
        return;
    }
    let _ = x.write_all(&b);
    match kind {
        CLOSE => {}
        RST => { let h = o.n; os::at(os::now() + r.below(3 * MS), Ev::Fault(Fault::ResetLink { a: target, b: h })); os::sleep(10 * MS); }
        _ => os::sleep(r.range(100, 2000) * SEC),
    }
    note(|| format!("stray of {} at P{target} over", c.get("seed")));
}
fn stray_quic(o: &Opt, target: usize, kind: i64, r: &mut Rng) {
    let addr: std::net::SocketAddr = { use std::net::ToSocketAddrs; match (format!("p{target}.sim"), o.port + target as u16).to_socket_addrs() { Ok(mut a) => a.next().unwrap(), Err(_) => return } };
    if kind == GARBAGE {
        let Ok(u) = std::net::UdpSocket::bind("0.0.0.0:0") else { return };
        for _ in 0..r.usize(1, 10) { let mut b = vec![0u8; r.usize(1, 1300)]; r.fill(&mut b); if r.chance(1, 2) { b[0] |= 0xc0; } let _ = u.send_to(&b, addr); os::sleep(r.below(20 * MS)); }
        return;
    }
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
    let (n, hold) = (o.n, r.range(100, 1000));
    let id = *r.pick(&[n as u32, u32::MAX, target as u32]);
    let cut = r.usize(0, 3);
    rt.block_on(async move {
        let mut roots = rustls::RootCertStore::empty();
        for x in certs(n) { roots.add(x).unwrap(); }
        let cc = rustls::ClientConfig::builder().with_root_certificates(roots).with_no_client_auth();
        let mut q = quinn::ClientConfig::new(Arc::new(quinn::crypto::rustls::QuicClientConfig::try_from(cc).unwrap()));
        let mut t = quinn::TransportConfig::default();
        t.keep_alive_interval(Some(std::time::Duration::from_secs(1)));
        q.transport_config(Arc::new(t));
        let Ok(ep) = quinn::Endpoint::client("0.0.0.0:0".parse().unwrap()) else { return };
        let Ok(cf) = ep.connect_with(q, addr, &format!("p{target}.sim")) else { return };
        let Ok(Ok(conn)) = tokio::time::timeout(std::time::Duration::from_secs(60), cf).await else { return };
        feat("quic stray completed a handshake");
        let Ok(mut uni) = conn.open_uni().await else { return };
        match kind {
            SILENT => {}
            PART | CLOSE => { let _ = uni.write_all(&id.to_be_bytes()[..cut]).await; if kind == CLOSE { let _ = uni.finish(); tokio::time::sleep(std::time::Duration::from_millis(50)).await; conn.close(7u32.into(), b"stray"); ep.wait_idle().await; return; } }
            RST => { let _ = uni.reset(3u32.into()); tokio::time::sleep(std::time::Duration::from_millis(50)).await; conn.close(7u32.into(), b"stray"); ep.wait_idle().await; return; }
            _ => { let _ = uni.write_all(&id.to_be_bytes()).await; let _ = uni.finish(); }
        }
        tokio::time::sleep(std::time::Duration::from_secs(hold)).await;
    });
    rt.shutdown_background();
}
fn run_stray(c: &Cfg) {
    let mut o = opt(c);
    o.idle = 60 * SEC;
    let sess = o.tp == SESS || o.tp == SESSB;
    if sess { o.connect_timeout = Some(60 * SEC); }
    let (n, k, msgs, len, seed, jit, kinds, strays) = (o.n, if sess { c.us("sessions") } else { o.nets }, c.us("msgs"), c.us("maxsize"), c.get("seed") as u64, us(c, "jitter_us"), c.get("kinds"), c.us("strays"));
    let mut r = Rng::new(seed ^ 24);
    let ids = Arc::new(session_ids(&mut r, k));
    let bad: Vec<i64> = (0..6).filter(|b| kinds >> b & 1 == 1).collect();
    let silent = !sess && bad.iter().any(|b| *b == SILENT || *b == PART);
    let kind = if silent { "setup-blocked-by-silent" } else { "setup" };
    let mut tasks = vec![];
    for p in 0..n {
        let (o, ids, c1) = (o.clone(), ids.clone(), c.clone());
        let start: Vec<u64> = (0..k + 1).map(|_| if jit > 0 { r.below(jit) } else { 0 }).collect();
        tasks.push(go(p, true, format!("P{p}"), move || {
            os::sleep(start[0]);
            if sess {
                let h = match Handler::new(&o, p) { Ok(h) => h, Err(e) => { viol("N08", "setup", format!("{e:#}")); return; } };
                gate(1, n, 600 * SEC);
                let mut th = vec![];
                for s in 0..k {
                    let (h, id, d, c2) = (h.share(), ids[s], start[s + 1], c1.clone());
                    th.push(go(p, false, format!("P{p} session {s}"), move || {
                        gate(10 + s as u64, n, 600 * SEC);
                        let t0 = os::now();
                        os::sleep(d);
                        let what = format!("{} session {s}", nm(&c2));
                        let net = match h.init(id, Some(100 * SEC)) { Ok(x) => x, Err(e) => { viol("N08", "setup", format!("{what}: P{p}: {e:#}")); return; } };
                        let t = os::now() - t0;
                        // Every message of the set-up takes far less than this.
                        if t > 20 * SEC { viol("N08", "setup-delayed", format!("{what}: set-up at P{p} took {} ms", t / MS)); }
                        talk(&net, "N08", "session-failed", seed, s, n, p, msgs, len, &what);
                        gate(20 + s as u64, n, 600 * SEC);
                        os::sleep(d);
                        talk(&net, "N08", "session-failed", seed, s + 10, n, p, msgs, len, &what);
                        gate(30 + s as u64, n, 600 * SEC);
                        std::mem::forget(net);
                    }));
                }
                if !wait_tasks(&th, 900 * SEC) { hang("N08", "hang", &c1, &th, "sessions blocked by stray connections"); }
                for m in panics(&th) { viol("N08", "panic", m); }
                gate(2, n, 900 * SEC);
                std::mem::forget(h);
            } else {
                let env = match build(&o, p) { Ok(e) => e, Err(e) => { viol("N08", kind, format!("{}: silent stray {silent}: P{p}: {e:#}", nm(&c1))); return; } };
                let what = format!("{}: silent stray {silent}", nm(&c1));
                feat(format!("{} established", nm(&c1)));
                for (k, net) in env.nets.iter().enumerate() { talk(net, "N08", if silent { kind } else { "session-failed" }, seed, k, n, p, msgs, len, &what); }
                gate(2, n, 900 * SEC);
                os::sleep(start[k] * 2);
                for (k, net) in env.nets.iter().enumerate() { talk(net, "N08", if silent { kind } else { "session-failed" }, seed, k + 10, n, p, msgs, len, &what); }
                gate(3, n, 900 * SEC);
                std::mem::forget(env);
            }
        }));
    }
    for i in 0..strays {
        let (o, ids, c1, kd, target) = (o.clone(), ids.clone(), c.clone(), *r.pick(&bad), r.usize(0, n - 1));
        let (d, mut r2) = (r.below(jit * 2 + 2 * MS), Rng::new(r.next()));
        go(n, i == 0, format!("stray {i}"), move || {
            if sess { await_gate(1, n, 600 * SEC); }
            os::sleep(d);
            feat(format!("{} stray kind {kd}", nm(&c1)));
            stray(&o, &c1, target, kd, &ids, &mut r2);
        });
    }
    if !wait_tasks(&tasks, 2000 * SEC) { hang("N08", if silent { kind } else { "hang" }, c, &tasks, "blocked by stray connections"); }
    for m in panics(&tasks) { viol("N08", "panic", m); }
}
