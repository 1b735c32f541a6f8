//! Transport scenarios beyond plain exchange: limits, wiring, failures, flush, timeouts, statistics, release, back-pressure, joins.
use super::link::{opt, payload, size};
use super::*;
use crate::os::{CrashMode, Ev, Fault, MS, SEC, US};
use bytes::Bytes;
use std::sync::Arc;
use tp::*;

const REAL: &[&str] = &["mpc-net: local, tcp, tls, quic, tcp_session, tcp_session_blocking, blocking, async_net", "crossbeam-channel, parking_lot, tokio runtime and drivers, mio, quinn, rustls, std threads, locks and sockets"];
const STUB: &[&str] = &["kernel: threads' scheduling, futex, clocks, TCP, UDP, epoll, eventfd, name service (virtual)", "entropy (seeded)"];
const SIMPLE: &[(&str, i64)] = &[("n", 2), ("nets", 1), ("msgs", 1), ("maxsize", 0), ("v6", 0), ("perm", 0), ("jitter_us", 0), ("lat_min_us", 10), ("lat_max_us", 10), ("sndbuf", 65536), ("rcvbuf", 65536), ("seg_max", 65536), ("size_mix", 0), ("dns_us", 0), ("slow_us", 0), ("rounds", 1)];
macro_rules! scn { ($n:literal, $p:expr, $w:literal, $m:ident, $r:ident) => { Scn { name: $n, props: $p, weight: $w, make: $m, run: $r, simple: SIMPLE, real: REAL, stub: STUB } } }
pub fn scenarios() -> Vec<Scn> {
    vec![
        scn!("limit", &["N02"], 1, make_limit, run_limit),
        scn!("wiring", &["N03"], 1, make_wiring, run_wiring),
        scn!("failure", &["N04"], 1, make_failure, run_failure),
        scn!("flush", &["N05"], 1, make_flush, run_flush),
        scn!("timeout", &["N06"], 1, make_timeout, run_timeout),
        scn!("stats", &["N09"], 1, make_stats, run_stats),
        scn!("release", &["N10"], 1, make_release, run_release),
        scn!("pressure", &["N11"], 1, make_pressure, run_pressure),
        scn!("joins", &["N12"], 1, make_joins, run_joins),
    ]
}
pub fn base(r: &mut Rng, c: &mut Cfg, tp: i64, n: usize, nets: usize) {
    c.set("tp", tp).set("n", n as i64).set("nets", nets as i64).set("v6", (r.below(6) == 0) as i64).set("perm", if r.chance(1, 3) { r.below(1000) as i64 } else { 0 });
    sched_knobs(r, c, n);
    tcp_knobs(r, c);
    if tp == QUIC {
        if r.chance(1, 2) { c.set("udp_drop", r.logu(100, 20_000) as i64); }
        if r.chance(1, 2) { c.set("udp_dup", r.logu(100, 30_000) as i64); }
        if r.chance(1, 2) { c.set("udp_reorder", r.logu(100, 60_000) as i64); }
        c.set("stall", 0);
    }
    c.set("max_steps", 8_000_000);
}
pub fn cap(c: &mut Cfg, k: &str, v: i64) { let x = c.or(k, 0).min(v); c.set(k, x); }
pub fn floor(c: &mut Cfg, k: &str, v: i64) { let x = c.or(k, 0).max(v); c.set(k, x); }
fn small_links(c: &Cfg) -> bool { c.get("seg_max") < 1000 || c.get("sndbuf") < 1000 || c.get("rcvbuf") < 1000 }
fn nm(c: &Cfg) -> &'static str { name(c.get("tp")) }
fn others(n: usize, p: usize) -> Vec<usize> { (0..n).filter(|&q| q != p).collect() }
pub fn hang(prop: &str, kind: &str, c: &Cfg, ids: &[usize], what: &str) { viol(prop, kind, format!("{}: {what}: {} [{}]", nm(c), unfinished(ids), os::describe_threads())); }
/// Drop a network of which this is the last reference.
fn drop_net(n: Net) { drop(n); }

// ---- N02 ------------------------------------------------------------------------------------------------
fn make_limit(r: &mut Rng, _p: &str, i: u64, c: &mut Cfg) {
    let tp = [TCP, SESS, TLS, SESSB, QUIC, TCP, SESS][(i % 7) as usize];
    base(r, c, tp, 2, 1);
    c.set("mode", if tp == TCP || tp == SESS || tp == SESSB { r.below(3) as i64 } else { r.below(2) as i64 })
        .set("max_frame", *r.pick(&[0i64, 1, 7, 8, 9, 100, 4096, 8192, 65_527, 65_536, 70_000])).set("msgs", r.range(1, 12) as i64).set("announce", r.below(6) as i64).set("body", r.below(3) as i64).set("over", r.logu(1, 5000) as i64);
    if small_links(c) { c.set("max_frame", c.get("max_frame").min(4096)); }
}
/// Sizes at and around the limit.
fn near(r: &mut Rng, lim: usize, over: bool) -> usize {
    let d = r.usize(0, 3);
    match r.below(if over { 6 } else { 4 }) { 0 => lim, 1 => lim.saturating_sub(d), 2 => r.usize(0, lim), 3 => lim.saturating_sub(8 + d) , 4 => lim + 1, _ => lim + 1 + r.usize(0, lim + 20) }
}
fn run_limit(c: &Cfg) {
    let o = opt(c);
    let (lim, msgs, mode, seed) = (c.us("max_frame"), c.us("msgs"), c.get("mode"), c.get("seed") as u64);
    let mut r = Rng::new(seed ^ 5);
    let c1 = c.clone();
    match mode {
        // Both sides agree on the limit: too long sends fail, all others arrive.
        0 => {
            let sizes: Arc<Vec<Vec<usize>>> = Arc::new((0..2).map(|_| (0..msgs).map(|_| near(&mut r, lim, true)).chain([1.min(lim)]).collect()).collect());
            let ids = parties(&o, "N02", &[0, 1], &[], move |p, env| {
                let net = env.nets[0].clone();
                for (i, &len) in sizes[p].iter().enumerate() {
                    let res = net.send(1 - p, Bytes::from(payload(seed, 0, p, 1 - p, i as u64, len)));
                    if len > lim && res.is_ok() { viol("N02", "oversized-send-accepted", format!("{}: send of {len} bytes accepted, limit {lim}", nm(&c1))); }
                    if let (true, Err(e)) = (len <= lim, res) { viol("N02", "legal-send-refused", format!("{}: send of {len} bytes refused, limit {lim}: {e:#}", nm(&c1))); }
                }
                for (i, &len) in sizes[1 - p].iter().enumerate().filter(|x| *x.1 <= lim) {
                    match net.recv(1 - p) {
                        Ok(d) if d[..] == payload(seed, 0, 1 - p, p, i as u64, len)[..] => {}
                        Ok(d) => { viol("N02", "wrong-message", format!("{}: {} bytes received instead of message {i} of {len} bytes, limit {lim}", nm(&c1), d.len())); break; }
                        Err(e) => { viol("N02", "legal-message-lost", format!("{}: message {i} of {len} bytes, limit {lim}: {e:#}", nm(&c1))); break; }
                    }
                }
                gate(9, 2, 600 * SEC);
                std::mem::forget(env);
            });
            if !wait_tasks(&ids, 1000 * SEC) { hang("N02", "hang", c, &ids, "messages within the limit not delivered"); }
            for m in panics(&ids) { viol("N02", "panic", m); }
            feat(format!("{} agreed limit", nm(c)));
        }
        // The sender allows more than the receiver.
        1 => {
            let bad = r.usize(0, msgs - 1);
            let over = c.us("over").max(1);
            let sizes: Arc<Vec<usize>> = Arc::new((0..msgs).map(|i| if i == bad { lim + over } else { near(&mut r, lim, false) }).collect());
            let s2 = sizes.clone();
            let mut big = o.clone(); big.max_frame = Some(lim + over + 1000);
            let mut ids = vec![];
            let snd = 1 - (seed % 2) as usize;
            for p in 0..2 {
                let (o, sizes, c1) = (if p == snd { big.clone() } else { o.clone() }, s2.clone(), c.clone());
                ids.extend(parties(&o, "N02", &[p], &[], move |p, env| {
                    let net = env.nets[0].clone();
                    if p == snd {
                        for (i, &len) in sizes.iter().enumerate() { if net.send(1 - p, Bytes::from(payload(seed, 0, p, 1 - p, i as u64, len))).is_err() { break; } }
                        gate(9, 2, 300 * SEC);
                    } else {
                        let mut got = 0;
                        while let Ok(d) = net.recv(snd) {
                            if got >= bad { viol("N02", "data-after-oversized-frame", format!("{}: receive {got} returned {} bytes although frame {bad} announced {} > {lim}", nm(&c1), d.len(), sizes[bad])); break; }
                            if d[..] != payload(seed, 0, snd, p, got as u64, sizes[got])[..] { viol("N02", "wrong-message", format!("{}: message {got}", nm(&c1))); break; }
                            got += 1;
                        }
                        if got < bad { viol("N02", "complete-frames-lost", format!("{}: only {got} of {bad} frames before the oversized one were delivered", nm(&c1))); }
                        for _ in 0..2 { if net.recv(snd).is_ok() { viol("N02", "data-after-oversized-frame", format!("{}: receive after the failure returned data", nm(&c1))); } }
                        gate(9, 2, 300 * SEC);
                    }
                    std::mem::forget(env);
                }));
            }
            if !wait_tasks(&ids, 1000 * SEC) { hang("N02", "hang", c, &ids, "receive of an oversized frame does not fail"); }
            for m in panics(&ids) { viol("N02", "panic", m); }
            feat(format!("{} oversized frame from a peer", nm(c)));
        }
        // A peer that speaks the protocol by hand and announces any length.
        _ => {
            let good: Arc<Vec<usize>> = Arc::new((0..msgs - 1).map(|_| near(&mut r, lim, false)).collect());
            let ann: u64 = [lim as u64 + 1, u64::MAX, 1 << 63, u32::MAX as u64 + 1, lim as u64 + (1 << 32), lim as u64 + 1 + r.below(100_000)][c.us("announce")];
            let (body, tp) = (c.get("body"), o.tp);
            let (g2, o2) = (good.clone(), o.clone());
            // P0 is under test; P1 is the rogue and connects or is connected to as its id demands.
            let v = parties(&o, "N02", &[0], &[], move |_p, env| {
                let net = env.nets[0].clone();
                let mut got = 0;
                while let Ok(d) = net.recv(1) {
                    if got >= g2.len() || d[..] != payload(seed, 0, 1, 0, got as u64, g2[got])[..] { viol("N02", "data-after-oversized-frame", format!("{}: receive {got} returned {} bytes; the frame announced {ann} > {lim}", nm(&c1), d.len())); break; }
                    got += 1;
                }
                if got < g2.len() { viol("N02", "complete-frames-lost", format!("{}: only {got} of {} frames before the oversized one were delivered", nm(&c1), g2.len())); }
                for _ in 0..2 { if net.recv(1).is_ok() { viol("N02", "data-after-oversized-frame", format!("{}: receive after the failure returned data", nm(&c1))); } }
                std::mem::forget(env);
            });
            go(1, true, "rogue", move || {
                use std::io::{Read, Write};
                // TCP: the lower id connects, so P1 listens; sessions: the higher id connects.
                let s = if tp == TCP {
                    let l = match std::net::TcpListener::bind(("0.0.0.0", o2.port + 1)) { Ok(l) => l, Err(_) => return };
                    let Ok((mut s, _)) = l.accept() else { return };
                    let mut h = [0u8; 16];
                    let _ = s.read_exact(&mut h);
                    s
                } else {
                    gate(0x5e55_0000, 2, 600 * SEC);
                    let Ok(mut s) = std::net::TcpStream::connect(("p0.sim", o2.port)) else { return };
                    let mut h = 1000u128.to_be_bytes().to_vec();
                    h.extend(1u64.to_be_bytes());
                    if s.write_all(&h).is_err() { return; }
                    s
                };
                let mut s = s;
                let mut buf = vec![];
                for (i, &len) in good.iter().enumerate() { buf.extend((len as u64).to_be_bytes()); buf.extend(payload(seed, 0, 1, 0, i as u64, len)); }
                buf.extend(ann.to_be_bytes());
                if body > 0 { buf.extend(vec![7u8; ann.min(3 * lim as u64 + 100) as usize]); }
                if body > 1 { buf.extend(4u64.to_be_bytes()); buf.extend([1, 2, 3, 4]); }
                let _ = s.write_all(&buf);
                let _ = s.flush();
                os::sleep(800 * SEC);
                drop(s);
            });
            if !wait_tasks(&v, 500 * SEC) { hang("N02", "hang", c, &v, "receive of an oversized frame does not fail"); }
            for m in panics(&v) { viol("N02", "panic", m); }
            feat(format!("{} hand-made frame announcing kind {}", nm(c), c.get("announce")));
        }
    }
}

// ---- N03 ------------------------------------------------------------------------------------------------
fn make_wiring(r: &mut Rng, _p: &str, i: u64, c: &mut Cfg) {
    let tp = [TCP, TLS, QUIC, SESSB, SESS, TCP, TLS, QUIC][(i % 8) as usize];
    let n = if r.chance(1, 6) && tp != QUIC { r.usize(5, 6) } else { r.usize(2, 4) };
    let k = r.usize(1, 3);
    base(r, c, tp, n, k);
    c.set("jitter_us", *r.pick(&[0i64, 1000, 200_000, 5_000_000])).set("dns_us", if r.chance(1, 2) { r.logu(1, 300_000) as i64 } else { 0 });
    if tp == TCP || tp == TLS { if r.chance(1, 2) { c.set("refuse", r.logu(1000, 500_000) as i64); } }
    if r.chance(1, 3) { c.set("lat_max_us", r.logu(1000, 400_000) as i64); }
}
fn run_wiring(c: &Cfg) {
    let o = opt(c);
    let seed = c.get("seed") as u64;
    let mut r = Rng::new(seed ^ 3);
    os::s().net.dns_delay_max = c.or("dns_us", 0) as u64 * US;
    let j = c.or("jitter_us", 0) as u64 * US;
    let starts: Vec<u64> = (0..o.n).map(|_| if j > 0 { r.below(j) } else { 0 }).collect();
    // One slow pair of hosts.
    if c.get("lat_max_us") > 1000 { let a = r.usize(0, o.n - 1); let b = (a + 1) % o.n; os::s().net.link.insert((a.min(b), a.max(b)), (US, 20 * US)); }
    let (n, nets, c1) = (o.n, o.nets, c.clone());
    let ids = parties(&o, "N03", &(0..n).collect::<Vec<_>>(), &starts, move |p, env| {
        let tok = |k: usize, a: usize, b: usize| payload(seed, k, a, b, 0, 24);
        for (k, net) in env.nets.iter().enumerate() {
            if net.id() != p { viol("N03", "id", format!("{}: network {k} of P{p} says it is party {}", nm(&c1), net.id())); }
            for q in others(n, p) { if let Err(e) = net.send(q, Bytes::from(tok(k, p, q))) { viol("N03", "send", format!("{}: network {k} P{p}->P{q}: {e:#}", nm(&c1))); } }
        }
        for (k, net) in env.nets.iter().enumerate() { for q in others(n, p) {
            match net.recv(q) {
                Ok(d) if d[..] == tok(k, q, p)[..] => {}
                Ok(d) => {
                    let mut who = "an unknown sender".to_string();
                    for k2 in 0..nets { for a in 0..n { for b in 0..n { if a != b && tok(k2, a, b)[..] == d[..] { who = format!("P{a} for P{b} on network {k2}"); } } } }
                    viol("N03", "cross-wired", format!("{}: P{p} network {k} endpoint for P{q} is connected to {who}", nm(&c1)));
                }
                Err(e) => viol("N03", "recv", format!("{}: network {k} P{q}->P{p}: {e:#}", nm(&c1))),
            }
        } }
        gate(4, n, 900 * SEC);
        std::mem::forget(env);
    });
    if !wait_tasks(&ids, 1000 * SEC) { hang("N03", "hang", c, &ids, "set-up does not complete"); }
    for m in panics(&ids) { viol("N03", "panic", m); }
    feat(format!("{} {} parties {} networks", nm(c), n, nets));
}

// ---- N04 ------------------------------------------------------------------------------------------------
fn make_failure(r: &mut Rng, _p: &str, i: u64, c: &mut Cfg) {
    let tp = [TCP, SESS, TLS, SESSB, QUIC, LOCAL, TCP, SESS][(i % 8) as usize];
    let n = r.usize(2, if tp == QUIC { 3 } else { 4 });
    base(r, c, tp, n, 1);
    c.set("msgs", r.logu(3, 60) as i64).set("size_mix", r.below(5) as i64).set("maxsize", *r.pick(&[64, 5000, 70_000, 200_000]))
        .set("victim", r.usize(0, n - 1) as i64).set("how", if tp == LOCAL { 3 } else { r.below(4) as i64 }).set("delay_us", r.logu(1, 3000) as i64).set("slow_us", if r.chance(1, 3) { r.logu(10, 3000) as i64 } else { 0 });
    let at = r.below(c.get("msgs") as u64) as i64;
    c.set("at", at);
    if small_links(c) { c.set("maxsize", c.get("maxsize").min(5000)); }
    if tp == QUIC { cap(c, "maxsize", 70_000); cap(c, "msgs", 25); if c.get("how") == 1 || c.get("how") == 2 { c.set("how", 0); } if c.get("how") == 3 { c.set("how", 0); } c.set("at", c.get("at").min(c.get("msgs") - 1)); }
}
fn run_failure(c: &Cfg) {
    let o = opt(c);
    let seed = c.get("seed") as u64;
    let (n, msgs, f, how, at) = (o.n, c.us("msgs"), c.us("victim"), c.get("how"), c.us("at"));
    let mut r = Rng::new(seed ^ 8);
    let sizes: Arc<Vec<Vec<usize>>> = Arc::new((0..n * n).map(|_| (0..msgs).map(|_| size(&mut r, c.get("size_mix"), c.us("maxsize"))).collect()).collect());
    let tgt = (f + 1 + r.usize(0, n - 2)) % n; // the other end of a reset link
    let (delay, slow) = (c.get("delay_us") as u64 * US, c.or("slow_us", 0) as u64 * US);
    let c1 = c.clone();
    let survivors: Vec<usize> = others(n, f);
    static SURV: Glob<Vec<usize>> = Glob::new();
    let body = move |p: usize, env: Env| {
        let net = env.nets[0].clone();
        drop(env.nets);
        if !gate(77, n, 900 * SEC) { return; }
        let mut th = vec![];
        let dying = |a: usize, b: usize| if how == 2 { (a == f && b == tgt) || (b == f && a == tgt) } else { a == f || b == f };
        for q in others(n, p) {
            let (a, b, s1, s2, c2, c3) = (net.clone(), net.clone(), sizes.clone(), sizes.clone(), c1.clone(), c1.clone());
            let (dead, dead2) = (dying(p, q), dying(q, p));
            let t1 = go(p, false, format!("P{p} send->{q}"), move || for i in 0..msgs {
                if p == f && i == at && q == others(n, p)[0] {
                    match how { 0 => os::at(os::now() + delay, Ev::Fault(Fault::Crash { party: f, mode: CrashMode::Exit })), 1 => os::at(os::now() + delay, Ev::Fault(Fault::Crash { party: f, mode: CrashMode::Reset })), 2 => os::at(os::now() + delay, Ev::Fault(Fault::ResetLink { a: f, b: tgt })), _ => {} }
                }
                // A graceful leave: the victim sends only part of its messages and drops its network.
                if p == f && how == 3 && i >= at { break; }
                let len = s1[p * n + q][i];
                match a.send(q, Bytes::from(payload(seed, 0, p, q, i as u64, len))) { Ok(()) => {} Err(e) => { if !dead { viol("N04", "survivors-disturbed", format!("{}: send {i} P{p}->P{q}: {e:#}", nm(&c2))); } feat("send to failed peer refused"); break; } }
            });
            let recv_all = !(p == f && how == 3);
            let t2 = go(p, false, format!("P{p} recv<-{q}"), move || {
                if !recv_all { return; }
                let mut i = 0;
                let mut failed = false;
                while i < msgs {
                    if slow > 0 { os::sleep(slow); }
                    match b.recv(q) {
                        Ok(d) => {
                            let len = s2[q * n + p][i];
                            if d[..] != payload(seed, 0, q, p, i as u64, len)[..] { viol("N04", "garbage", format!("{}: receive {i} at P{p} from P{q} returned {} bytes that are not message {i} ({len} bytes)", nm(&c3), d.len())); return; }
                            i += 1;
                        }
                        Err(e) => { if !dead2 { viol("N04", "survivors-disturbed", format!("{}: receive {i} P{q}->P{p}: {e:#}", nm(&c3))); } failed = true; break; }
                    }
                }
                if q == f && how == 3 && i < at { viol("N04", "complete-messages-lost", format!("{}: P{p} got only {i} of the {at} messages P{f} sent before it closed", nm(&c3))); }
                if how == 3 && q == f && !failed { return; }
                if failed {
                    feat(format!("{} failure seen after {}", nm(&c3), if i == 0 { "no message" } else { "some messages" }));
                    for _ in 0..3 { if let Ok(d) = b.recv(q) { viol("N04", "data-after-error", format!("{}: P{p} received {} bytes from P{q} after a receive had failed", nm(&c3), d.len())); break; } }
                }
            });
            th.push(t1); th.push(t2);
        }
        if p == f && how == 3 {
            // Leave once everything was accepted.
            wait_tasks(&th, 3000 * SEC);
            drop_net(net);
            SURV.with(|v| v.push(f));
            wake();
            // The process goes on (and with it the handler, for sessions).
            os::sleep(5000 * SEC);
            drop(env.handler);
            return;
        }
        drop(net);
        wait_tasks(&th, 3000 * SEC);
        for m in panics(&th) { viol("N04", "panic", m); }
        SURV.with(|v| v.push(p));
        wake();
        // The handler (sessions) stays until the end.
        let _h = env.handler;
        os::sleep(5000 * SEC);
    };
    let ids = parties(&o, "N04", &(0..n).collect::<Vec<_>>(), &[], body);
    let ok = wait_for(2500 * SEC, || SURV.with(|v| survivors.iter().all(|p| v.contains(p))));
    if !ok { hang("N04", "hang", c, &ids, &format!("victim P{f} how {how} at message {at}: a survivor blocks for good")); }
    feat(format!("{} how{how}", nm(c)));
}

// ---- N05 ------------------------------------------------------------------------------------------------
fn make_flush(r: &mut Rng, _p: &str, i: u64, c: &mut Cfg) {
    let tp = [TCP, SESS, TLS, SESSB, QUIC, TCP, SESSB][(i % 7) as usize];
    let n = r.usize(2, 3);
    let k = r.usize(1, 2);
    base(r, c, tp, n, k);
    // 0: flush, then the process ends; 1: drop without flush, then the process ends; 2: the same with one dead peer;
    // 3: a dead peer: flush must not claim success for messages that cannot be handed over.
    c.set("mode", r.below(4) as i64).set("msgs", r.logu(1, 100) as i64).set("size_mix", r.below(5) as i64).set("maxsize", *r.pick(&[64, 5000, 70_000, 200_000])).set("sender", r.usize(0, n - 1) as i64)
        .set("slow_us", *r.pick(&[0i64, 0, 1000, 300_000])).set("threads", r.below(2) as i64);
    if c.get("mode") >= 2 && n < 3 { c.set("n", 3); }
    if tp == QUIC { cap(c, "msgs", 30); cap(c, "maxsize", 70_000); c.set("nets", 1); if c.get("mode") == 0 && !r.chance(1, 4) { c.set("mode", 1); } if c.get("mode") == 3 { c.set("mode", 2); } }
    if small_links(c) { c.set("maxsize", c.get("maxsize").min(5000)); }
    if r.chance(1, 2) { c.set("sndbuf", 262_144).set("rcvbuf", 262_144); }
}
fn run_flush(c: &Cfg) {
    let o = opt(c);
    let seed = c.get("seed") as u64;
    let (n, msgs, snd, mode) = (o.n, c.us("msgs"), c.us("sender"), c.get("mode"));
    let mut r = Rng::new(seed ^ 8);
    let sizes: Arc<Vec<usize>> = Arc::new((0..msgs).map(|_| size(&mut r, c.get("size_mix"), c.us("maxsize"))).collect());
    let slow = c.or("slow_us", 0) as u64 * US;
    let dead = if mode >= 2 { Some((snd + 1 + r.usize(0, n - 2)) % n) } else { None };
    let live: Vec<usize> = others(n, snd).into_iter().filter(|&p| Some(p) != dead).collect();
    static OK: Glob<(bool, Vec<usize>)> = Glob::new();
    let c1 = c.clone();
    let (threads, live2) = (c.on("threads"), live.clone());
    let ids = parties(&o, "N05", &(0..n).collect::<Vec<_>>(), &[], move |p, env| {
        if Some(p) == dead {
            gate(1, n, 600 * SEC);
            os::at(os::now(), Ev::Fault(Fault::Crash { party: p, mode: CrashMode::Reset }));
            os::sleep(5000 * SEC);
            return;
        }
        gate(1, n, 600 * SEC);
        if p != snd {
            if slow > 0 { os::sleep(slow); }
            for (k, net) in env.nets.iter().enumerate() { for (i, &len) in sizes.iter().enumerate() {
                match net.recv(snd) {
                    Ok(d) if d[..] == payload(seed, k, snd, p, i as u64, len)[..] => {}
                    Ok(_) => { viol("N05", "wrong-message", format!("{}: message {i}", nm(&c1))); return; }
                    Err(e) => {
                        let done = OK.with(|x| x.0);
                        let kind = match mode { 0 => "lost-after-flush", 1 => "lost-after-drop", 2 => "lost-after-drop-with-dead-peer", _ => "lost-after-failed-flush" };
                        if mode != 3 { viol("N05", kind, format!("{}: P{p} got {i} of {msgs} messages of network {k} (sender's call returned: {done}), then: {e:#}", nm(&c1))); }
                        OK.with(|x| x.1.push(p)); wake();
                        return;
                    }
                }
                if slow > 0 && i % 16 == 0 { os::sleep(slow / 10); }
            } }
            OK.with(|x| x.1.push(p));
            wake();
            // A live peer keeps its network until the sender is gone.
            if o_tp(&c1) != QUIC || mode == 0 { os::sleep(4000 * SEC); }
            drop(env.nets);
            os::sleep(4000 * SEC);
            return;
        }
        // The sender.
        if let Some(d) = dead { if mode == 3 {
            // Let the failure become known first.
            os::sleep(5 * SEC);
            let mut ok = true;
            for _ in 0..3 { ok &= env.nets[0].send(d, Bytes::from(vec![1u8; 100])).is_ok(); os::sleep(SEC); }
            if env.nets[0].flush().is_ok() { viol("N05", "flush-claims-success", format!("{}: flush returned success although messages for the failed P{d} cannot have been handed over (sends accepted: {ok})", nm(&c1))); }
            feat("flush with a dead peer");
        } }
        let go_send = move |net: Net, k: usize, q: usize, sizes: Arc<Vec<usize>>, c1: Cfg| for (i, &len) in sizes.iter().enumerate() {
            if let Err(e) = net.send(q, Bytes::from(payload(seed, k, snd, q, i as u64, len))) { viol("N05", "send-failed", format!("{}: send {i} to live P{q}: {e:#}", nm(&c1))); return; }
        };
        let mut th = vec![];
        for (k, net) in env.nets.iter().enumerate() {
            if let (Some(d), 2) = (dead, mode) { for _ in 0..3 { let _ = net.send(d, Bytes::from_static(b"to a dead peer")); } os::sleep(200 * MS); }
            for &q in &live2 {
                let (net, s2, c2) = (net.clone(), sizes.clone(), c1.clone());
                if threads { th.push(go(p, false, format!("send->{q}"), move || go_send(net, k, q, s2, c2))); } else { go_send(net, k, q, s2, c2); }
            }
        }
        wait_tasks(&th, 3000 * SEC);
        match mode {
            0 => for net in &env.nets { if let Err(e) = net.flush() { viol("N05", "flush-failed", format!("{}: flush with live peers: {e:#}", nm(&c1))); } },
            3 => { for net in &env.nets { let _ = net.flush(); } }
            _ => { for net in env.nets { drop_net(net); } }
        }
        OK.with(|x| x.0 = true);
        note(|| "sender ends its process".into());
        os::at(os::now(), Ev::Fault(Fault::Crash { party: p, mode: CrashMode::Exit }));
        os::sleep(5000 * SEC);
    });
    let ok = wait_for(3000 * SEC, || OK.with(|x| live.iter().all(|p| x.1.contains(p))));
    if !ok { let d = OK.with(|x| x.0); hang("N05", if d { "never-delivered" } else { "hang" }, c, &ids, &format!("mode {mode}: live peers do not get all messages (sender's call returned: {d})")); }
    feat(format!("{} mode{mode}", nm(c)));
}
fn o_tp(c: &Cfg) -> i64 { c.get("tp") }

// ---- N06 ------------------------------------------------------------------------------------------------
fn make_timeout(r: &mut Rng, _p: &str, i: u64, c: &mut Cfg) {
    let mode = (i % 8) as i64;
    let tp = *r.pick(match mode { 0 => &[LOCAL, TCP, TLS, QUIC, SESS, SESSB][..], 1 => &[LOCAL, TCP, TLS, SESS, SESSB, QUIC][..], 2 | 3 => &[TCP, TLS, SESS, SESSB, QUIC][..], 4 | 5 => &[TCP, TLS, QUIC, SESSB, SESS][..], 6 => &[TCP, TLS, SESS, SESSB, QUIC, LOCAL][..], _ => &[TCP, TLS, QUIC, SESSB][..] });
    let n = r.usize(2, 3);
    base(r, c, tp, n, 1);
    // 0: receive from a silent peer; 1: send to a peer that stopped reading; 2: flush; 3: drop; 4: set-up, peer never appears;
    // 5: set-up, something answers but never speaks; 6: no timeout configured and a slow peer; 7: set-up against a black hole.
    c.set("mode", mode).set("t_ms", r.logu(20, 5000) as i64).set("party", r.usize(0, n - 1) as i64).set("hole", r.below(2) as i64).set("stall", 0).set("msize", *r.pick(&[1i64, 1000, 60_000])).set("late_ms", r.logu(1, 60_000) as i64);
    if tp == QUIC && mode == 1 { c.set("msize", 60_000); }
    floor(c, "sndbuf", 4096); floor(c, "rcvbuf", 4096); floor(c, "seg_max", 1460);
    cap(c, "lat_max_us", 2000); cap(c, "lat_min_us", 2000);
    if c.get("policy") == 2 { c.set("policy", 0); }
}
fn run_timeout(c: &Cfg) {
    let mut o = opt(c);
    let (mode, n, who, seed) = (c.get("mode"), o.n, c.us("party"), c.get("seed") as u64);
    let t = c.get("t_ms") as u64 * MS;
    let slack = 200 * MS;
    let c1 = c.clone();
    let peer = (who + 1) % n;
    let hole = c.on("hole") && o.tp != LOCAL;
    let msize = c.us("msize");
    match mode {
        0 | 6 => {
            if mode == 0 { o.timeout = Some(t); }
            let late = c.get("late_ms") as u64 * MS;
            let late = if o.tp == QUIC { late.min(20 * SEC) } else { late };
            let ids = parties(&o, "N06", &(0..n).collect::<Vec<_>>(), &[], move |p, env| {
                let net = env.nets[0].clone();
                gate(1, n, 900 * SEC);
                if p == who {
                    if mode == 0 {
                        for _ in 0..2 {
                            let t0 = os::now();
                            let r = net.recv(peer);
                            let el = os::now() - t0;
                            if r.is_ok() { viol("N06", "phantom", format!("{}: receive from a silent peer returned data", nm(&c1))); }
                            if el + 2 * MS < t { viol("N06", "early", format!("{}: receive failed after {} us, timeout {} us", nm(&c1), el / US, t / US)); }
                            if el > t + slack { viol("N06", "recv-late", format!("{}: receive failed after {} us, timeout {} us", nm(&c1), el / US, t / US)); }
                        }
                    } else {
                        let r = net.recv(peer);
                        if let Err(e) = r { viol("N06", "slow-peer-fails", format!("{}: receive without a timeout failed: {e:#}", nm(&c1))); }
                    }
                    gate(2, 2, 900 * SEC);
                    // The process can go on: the same link still works.
                    for i in 0..3 { match net.recv(peer) { Ok(d) if d[..] == payload(seed, 0, peer, who, i, 50)[..] => {} Ok(_) => viol("N06", "wrong-after-timeout", format!("{}: wrong message {i} after a timeout", nm(&c1))), Err(e) => { viol("N06", "dead-after-timeout", format!("{}: receive {i} after a timeout: {e:#}", nm(&c1))); break; } } }
                } else if p == peer {
                    if mode == 6 { os::sleep(late); if let Err(e) = net.send(who, Bytes::from_static(b"late")) { viol("N06", "slow-peer-fails", format!("{}: {e:#}", nm(&c1))); } }
                    gate(2, 2, 900 * SEC);
                    for i in 0..3 { if let Err(e) = net.send(who, Bytes::from(payload(seed, 0, peer, who, i, 50))) { viol("N06", "dead-after-timeout", format!("{}: send {i}: {e:#}", nm(&c1))); } }
                    let _ = net.flush();
                }
                gate(3, n, 900 * SEC);
                std::mem::forget(env);
            });
            if !wait_tasks(&ids, 1000 * SEC) { hang("N06", "recv-blocks", c, &ids, "receive is not bounded by the timeout"); }
            for m in panics(&ids) { viol("N06", "panic", m); }
        }
        1 => {
            // The peer stops reading (its application stands still) or is cut off.
            o.timeout = Some(t);
            let ids = parties(&o, "N06", &(0..n).collect::<Vec<_>>(), &[], move |p, env| {
                let net = env.nets[0].clone();
                gate(1, n, 900 * SEC);
                if p == who {
                    if hole { os::apply_fault(Fault::Partition { a: who, b: peer }); }
                    let mut bytes = 0usize;
                    let mut failed = 0;
                    let mut k = 0;
                    while failed < 2 && k < 3000 && bytes < 6_000_000 {
                        let t0 = os::now();
                        let r = net.send(peer, Bytes::from(vec![k as u8; msize]));
                        let el = os::now() - t0;
                        if el > 6 * t + slack { viol("N06", "send-late", format!("{}: send {k} took {} us, timeout {} us, result ok {}", nm(&c1), el / US, t / US, r.is_ok())); return; }
                        if r.is_err() { failed += 1; feat("send timed out"); }
                        bytes += msize; k += 1;
                    }
                    SENT_OK.with(|x| *x = true);
                    wake();
                } else if p == peer { wait_for(3000 * SEC, || SENT_OK.with(|x| *x)); }
                std::mem::forget(env);
                os::sleep(3000 * SEC);
            });
            if !wait_for(2500 * SEC, || SENT_OK.with(|x| *x)) && VIOLS.with(|v| v.is_empty()) { hang("N06", "send-blocks", c, &ids[who..who + 1], "send to a peer that stopped reading blocks for good"); }
        }
        2 | 3 => {
            // flush or drop while the peer accepts nothing and the queue is full.
            o.flush_timeout = Some(t);
            let full = c.get("msize") != 1000;
            let sent: &'static std::sync::atomic::AtomicUsize = Box::leak(Box::new(Default::default()));
            let ids = parties(&o, "N06", &(0..n).collect::<Vec<_>>(), &[], move |p, env| {
                let mut nets = env.nets;
                let net = nets.pop().unwrap();
                gate(1, n, 900 * SEC);
                if p == who {
                    os::apply_fault(Fault::Partition { a: who, b: peer });
                    // Fill the queue from another thread, whose send then stays blocked.
                    let a = Arc::downgrade(&net);
                    if full {
                        go(p, false, "filler", move || loop { let Some(n) = a.upgrade() else { return }; if mode == 3 && sent.load(std::sync::atomic::Ordering::SeqCst) >= 32 { return; } if n.send(peer, Bytes::from(vec![0u8; 60_000])).is_err() { return; } sent.fetch_add(1, std::sync::atomic::Ordering::SeqCst); });
                        wait_for(2 * SEC, || false);
                    } else { let _ = net.send(peer, Bytes::from(vec![0u8; 300_000])); }
                    let t0 = os::now();
                    let what = if mode == 2 {
                        let r = net.flush();
                        if r.is_ok() && o_tp(&c1) != QUIC { viol("N06", "flush-claims-success", format!("{}: flush to a cut-off peer with more queued than the kernel takes returned success", nm(&c1))); }
                        "flush"
                    } else { drop_net(net.clone()); drop(net); "drop" };
                    let el = os::now() - t0;
                    // Per peer: waiting for the queue and waiting for the acknowledgement.
                    let bound = 2 * (n as u64 - 1) * t + slack;
                    if el > bound { viol("N06", if mode == 2 { "flush-late" } else { "drop-late" }, format!("{}: {what} took {} ms, flush timeout {} ms, {} peers", nm(&c1), el / MS, t / MS, n - 1)); }
                    feat(format!("{what} against a peer that accepts nothing, queue full {full}"));
                    SENT_OK.with(|x| *x = true);
                    wake();
                    os::sleep(9000 * SEC);
                } else { let _keep = (net, env.handler); wait_for(3000 * SEC, || SENT_OK.with(|x| *x)); os::sleep(9000 * SEC); }
            });
            if !wait_for(1500 * SEC, || SENT_OK.with(|x| *x)) { hang("N06", if mode == 2 { "flush-blocks" } else { "drop-blocks" }, c, &ids[who..who + 1], "flush or drop is not bounded by the flush timeout"); }
        }
        _ => {
            // Set-up with a connect timeout; the peer is absent (4), mute (5) or unreachable (7).
            o.connect_timeout = Some(t);
            if o.tp == TCP || o.tp == TLS { /* the retry pause of 100 ms belongs to the bound */ }
            let o2 = o.clone();
            let mute = mode == 5;
            if mode == 7 { for q in others(n, who) { os::apply_fault(Fault::Partition { a: who, b: q }); } }
            if mute {
                // Something listens on the peers' ports and connects to ours, and says nothing.
                for q in others(n, who) {
                    let o3 = o.clone();
                    go(q, true, format!("mute{q}"), move || {
                        let Ok(l) = std::net::TcpListener::bind(("0.0.0.0", o3.port + q as u16)) else { return };
                        let t2 = go(q, false, "connects", move || for _ in 0..2 { if let Ok(s) = std::net::TcpStream::connect((format!("p{who}.sim"), o3.port + who as u16)) { std::mem::forget(s); } os::sleep(100 * MS); });
                        loop { match l.accept() { Ok((s, _)) => std::mem::forget(s), Err(_) => break } }
                        wait_tasks(&[t2], 9000 * SEC);
                    });
                }
            }
            let ids = vec![go(who, true, format!("P{who}"), move || {
                let t0 = os::now();
                let r: eyre::Result<()> = match o2.tp {
                    SESS | SESSB => Handler::new(&o2, who).and_then(|h| { os::sleep(50 * MS); let r = h.init(7, o2.connect_timeout).map(|_| ()); std::mem::forget(h); r }),
                    _ => build(&o2, who).map(|e| std::mem::forget(e)),
                };
                let el = os::now() - t0;
                if r.is_ok() && !mute { viol("N06", "phantom-setup", format!("{}: set-up succeeded without peers", nm(&c1))); }
                // Per peer (and for TLS per connection): one wait for the connection, one for its introduction.
                let conns = (n as u64 - 1) * if o2.tp == TLS { 2 } else { 1 };
                let bound = conns * (3 * t + 150 * MS) + if mute { 2 * (n as u64 - 1) * t } else { 0 } + 2 * slack;
                if el > bound { viol("N06", "setup-late", format!("{}: set-up took {} ms, connect timeout {} ms, {} peers ({})", nm(&c1), el / MS, t / MS, n - 1, if mute { "mute" } else { "absent" })); }
                SENT_OK.with(|x| *x = true);
                wake();
            })];
            if !wait_for(2000 * SEC, || SENT_OK.with(|x| *x)) { hang("N06", "setup-blocks", c, &ids, &format!("set-up is not bounded by the connect timeout (peers {})", if mute { "mute" } else { "absent" })); }
            for m in panics(&ids) { viol("N06", "panic", m); }
        }
    }
    feat(format!("{} mode{mode}{}", nm(c), if mode == 1 && hole { " cut off" } else { "" }));
}
static SENT_OK: Glob<bool> = Glob::new();

// ---- N09 ------------------------------------------------------------------------------------------------
fn make_stats(r: &mut Rng, _p: &str, i: u64, c: &mut Cfg) {
    let tp = [TCP, SESS, TLS, SESSB, QUIC, LOCAL, TCP][(i % 7) as usize];
    let n = r.usize(2, if tp == QUIC { 3 } else { 4 });
    let k = r.usize(1, 2);
    base(r, c, tp, n, k);
    c.set("rounds", r.range(1, 4) as i64).set("msgs", r.logu(1, 40) as i64).set("size_mix", r.below(5) as i64).set("maxsize", *r.pick(&[64, 5000, 40_000])).set("limit", r.below(2) as i64).set("end", r.below(3) as i64);
    if small_links(c) { c.set("maxsize", c.get("maxsize").min(3000)); }
    if c.on("limit") && tp != LOCAL { c.set("max_frame", 50_000); }
    if c.get("end") == 1 && tp == LOCAL { c.set("timeout_us", r.logu(1000, 300_000) as i64).set("stall", 0); c.set("policy", 0); }
}
fn run_stats(c: &Cfg) {
    let o = opt(c);
    let seed = c.get("seed") as u64;
    let (n, rounds, msgs, end) = (o.n, c.us("rounds"), c.us("msgs"), c.get("end"));
    let c1 = c.clone();
    let (mix, max, tmo) = (c.get("size_mix"), c.us("maxsize"), o.timeout.is_some());
    let over = c.or("max_frame", -1) >= 0;
    let ids = parties(&o, "N09", &(0..n).collect::<Vec<_>>(), &[], move |p, env| {
        // Totals per network and peer as the calls themselves report them.
        let tot: Arc<Vec<Vec<[std::sync::atomic::AtomicUsize; 2]>>> = Arc::new(env.nets.iter().map(|_| (0..n).map(|_| Default::default()).collect()).collect());
        let ld = |k: usize, q: usize| { use std::sync::atomic::Ordering::SeqCst; (tot[k][q][0].load(SeqCst), tot[k][q][1].load(SeqCst)) };
        let plan = move |rd: usize, k: usize, a: usize, b: usize| -> Vec<usize> { let mut r = Rng::new(os::rng::mix(seed, ((rd * 100 + k * 20 + a) * 20 + b) as u64)); (0..msgs).map(|_| size(&mut r, mix, max)).collect() };
        let check = |k: usize, when: &str| {
            let s = env.nets[k].get_connection_stats();
            let mut seen = vec![];
            for (q, v) in s.iter() { seen.push(q); if q == p || q >= n { viol("N09", "phantom-peer", format!("{}: statistics of P{p} list party {q}", nm(&c1))); continue; } if v != ld(k, q) { viol("N09", "wrong-total", format!("{}: {when}: network {k} of P{p} reports {:?} for P{q}, calls moved {:?}", nm(&c1), v, ld(k, q))); } if s.get(q) != Some(v) { viol("N09", "get-iter", "get and iter disagree"); } }
            if seen != others(n, p) { viol("N09", "peers", format!("{}: statistics of P{p} list {seen:?}", nm(&c1))); }
            if s.get(p).is_some() { viol("N09", "phantom-peer", "own id listed"); }
            s
        };
        for rd in 0..rounds {
            let before: Vec<_> = (0..env.nets.len()).map(|k| (check(k, "between rounds"), (0..n).map(|q| ld(k, q)).collect::<Vec<_>>())).collect();
            let mut th = vec![];
            for (k, net) in env.nets.iter().enumerate() { for q in others(n, p) {
                let (a, b, t1, t2) = (net.clone(), net.clone(), tot.clone(), tot.clone());
                let c2 = c1.clone();
                th.push(go(p, false, format!("P{p} send->{q}"), move || for (i, len) in plan(rd, k, p, q).into_iter().enumerate() {
                    if over && i % 5 == 3 { if a.send(q, Bytes::from(vec![0u8; 50_001])).is_ok() { viol("N09", "oversized", "too long a message accepted"); } }
                    if a.send(q, Bytes::from(vec![rd as u8; len])).is_ok() { t1[k][q][0].fetch_add(len, std::sync::atomic::Ordering::SeqCst); } else if !tmo { viol("N09", "send", format!("{}: send failed", nm(&c2))); }
                }));
                let c2 = c1.clone();
                th.push(go(p, false, format!("P{p} recv<-{q}"), move || for _ in 0..msgs { match b.recv(q) { Ok(d) => { t2[k][q][1].fetch_add(d.len(), std::sync::atomic::Ordering::SeqCst); } Err(e) => { if !tmo { viol("N09", "recv", format!("{}: receive failed: {e:#}", nm(&c2))); } } } }));
            } }
            if !wait_tasks(&th, 1000 * SEC) { return; }
            for m in panics(&th) { viol("N09", "panic", m); }
            for (k, (b, lb)) in before.iter().enumerate() {
                let s = check(k, "after a round");
                let d = s.get_diff_to(b);
                for q in others(n, p) { let w = (ld(k, q).0 - lb[q].0, ld(k, q).1 - lb[q].1); if d.get(&q) != Some(&w) { viol("N09", "difference", format!("{}: difference for P{q} is {:?}, traffic was {w:?}", nm(&c1), d.get(&q))); } }
            }
        }
        if !gate(5, n, 900 * SEC) { return; }
        if end == 1 && n > 1 && (tmo || o_tp(&c1) != LOCAL) && o_tp(&c1) != QUIC {
            // Traffic that fails: nothing of it was accepted or received. P1 leaves, the others go on.
            if p == 1 { if !tmo { os::at(os::now(), Ev::Fault(Fault::Crash { party: 1, mode: CrashMode::Reset })); } os::sleep(3000 * SEC); return; }
            os::sleep(2 * SEC);
            if !tmo { if env.nets[0].recv(1).is_ok() { viol("N09", "phantom", "data from a dead peer"); } }
            let mut bad = 0;
            for i in 0..80 { if bad > 3 { break; } let len = 1 + i * 7 % 90; if env.nets[0].send(1, Bytes::from(vec![1u8; len])).is_ok() { tot[0][1][0].fetch_add(len, std::sync::atomic::Ordering::SeqCst); } else { bad += 1; feat("failing send counted or not"); } os::sleep(10 * MS); }
            check(0, "after failed sends");
        }
        if p == 0 { DONE.with(|d| *d = true); }
        gate(6, n - (end == 1) as usize, 900 * SEC);
        std::mem::forget(env);
    });
    let w: Vec<usize> = if end == 1 { ids.iter().copied().enumerate().filter(|x| x.0 != 1).map(|x| x.1).collect() } else { ids };
    if !wait_tasks(&w, 2500 * SEC) { hang("N09", "hang", c, &w, "exchange does not finish"); }
    for m in panics(&w) { viol("N09", "panic", m); }
    feat(format!("{} rounds{rounds} end{end}", nm(c)));
}
static DONE: Glob<bool> = Glob::new();

// ---- N10 ------------------------------------------------------------------------------------------------
fn make_release(r: &mut Rng, _p: &str, i: u64, c: &mut Cfg) {
    let tp = [TCP, SESS, TLS, SESSB, QUIC][(i % 5) as usize];
    let n = r.usize(2, 3);
    let k = if tp == QUIC { r.usize(1, 2) } else { r.usize(1, 3) };
    base(r, c, tp, n, k);
    c.set("rounds", if r.chance(1, 2) { 1 } else { r.range(2, 3) as i64 }).set("msgs", r.logu(1, 20) as i64).set("maxsize", 3000).set("size_mix", 0).set("jitter_us", r.logu(1, 2_000_000) as i64).set("unread", r.below(2) as i64);
}
fn run_release(c: &Cfg) {
    let o = opt(c);
    let seed = c.get("seed") as u64;
    let (n, nets, msgs, rounds) = (o.n, o.nets, c.us("msgs"), c.us("rounds"));
    let jit = c.get("jitter_us") as u64 * US;
    let unread = c.on("unread");
    let c1 = c.clone();
    let gone: &'static std::sync::atomic::AtomicUsize = Box::leak(Box::new(Default::default()));
    let traffic = move |p: usize, nets: &[Net]| {
        for (k, net) in nets.iter().enumerate() {
            for q in others(n, p) { for i in 0..msgs { let _ = net.send(q, Bytes::from(payload(seed, k, p, q, i as u64, 500))); } if unread { let _ = net.send(q, Bytes::from_static(b"never read")); } }
            for q in others(n, p) { for i in 0..msgs { match net.recv(q) { Ok(d) if d[..] == payload(seed, k, q, p, i as u64, 500)[..] => {} x => { viol("N10", "traffic", format!("{}: receive {i} from P{q}: {:?}", nm(&c1), x.map(|d| d.len()))); return; } } } }
        }
    };
    let mut ids = vec![];
    let mut r = Rng::new(seed ^ 4);
    for p in 0..n {
        let o = o.clone();
        let traffic = traffic.clone();
        let wait: Vec<u64> = (0..rounds).map(|_| r.below(jit)).collect();
        ids.push(go(p, true, format!("P{p}"), move || {
            if o.tp == SESS || o.tp == SESSB {
                let h = match Handler::new(&o, p) { Ok(h) => h, Err(e) => return viol("N10", "setup", format!("{e:#}")) };
                gate(1, n, 900 * SEC);
                os::sleep(SEC);
                let base = (os::net::open_objs(p).len(), os::live_threads(p).len());
                for rd in 0..rounds {
                    let mut v = vec![];
                    for k in 0..nets { match h.init((rd * 10 + k) as u128 + 1, None) { Ok(n) => v.push(n), Err(e) => return viol("N10", "setup", format!("round {rd}: {e:#}")) } }
                    traffic(p, &v);
                    os::sleep(wait[rd]);
                    drop(v);
                    gate(10 + rd as u64, n, 900 * SEC);
                    os::sleep(90 * SEC);
                    let (ob, th) = (os::net::open_objs(p), os::live_threads(p));
                    // The runtime's own helper threads may come and go; sockets may not.
                    if ob.len() > base.0 { viol("N10", "sockets-left", format!("{}: round {rd}: P{p} still has {ob:?}", name(o.tp))); }
                    if th.len() > base.1 { viol("N10", "threads-left", format!("{}: round {rd}: P{p} has {} threads, {} before: {th:?}", name(o.tp), th.len(), base.1)); }
                    gate(20 + rd as u64, n, 900 * SEC);
                }
                std::mem::forget(h);
            } else {
                for rd in 0..rounds {
                    let mut o = o.clone();
                    o.port += 100 * rd as u16;
                    let env = match build(&o, p) { Ok(e) => e, Err(e) => return viol("N10", "setup", format!("round {rd}: {}: {e:#}", name(o.tp))) };
                    traffic(p, &env.nets);
                    gate(30 + rd as u64, n, 900 * SEC);
                    os::sleep(wait[rd]);
                    drop(env);
                    gate(10 + rd as u64, n, 900 * SEC);
                    os::sleep(90 * SEC);
                    let (ob, th) = (os::net::open_objs(p), os::live_threads(p));
                    if !ob.is_empty() { viol("N10", "sockets-left", format!("{}: round {rd}: P{p} still has {ob:?}", name(o.tp))); }
                    if th.len() > 1 { viol("N10", "threads-left", format!("{}: round {rd}: P{p} still has {th:?}", name(o.tp))); }
                    gate(20 + rd as u64, n, 900 * SEC);
                }
            }
            gone.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        }));
    }
    if !wait_tasks(&ids, 5000 * SEC) { hang("N10", "hang", c, &ids, "drop does not return"); }
    for m in panics(&ids) { viol("N10", "panic", m); }
    feat(format!("{} rounds{rounds}", nm(c)));
}

// ---- N11 ------------------------------------------------------------------------------------------------
fn make_pressure(r: &mut Rng, _p: &str, i: u64, c: &mut Cfg) {
    let tp = [TCP, SESS, TLS, SESSB, LOCAL, QUIC, TCP, SESS][(i % 8) as usize];
    let n = r.usize(2, 3);
    let k = if tp == QUIC { 1 } else { r.usize(1, 2) };
    base(r, c, tp, n, k);
    c.set("slow_us", *r.pick(&[1000i64, 100_000, 5_000_000])).set("msize", if tp == QUIC { 60_000 } else { *r.pick(&[3000, 20_000, 60_000]) }).set("side", r.usize(0, n - 1) as i64);
    for x in ["sndbuf", "rcvbuf"] { cap(c, x, 65_536); floor(c, x, 4096); }
    floor(c, "seg_max", 1460);
    if c.get("sndbuf") == 4096 || c.get("rcvbuf") == 4096 { c.set("msize", c.get("msize").min(3000)); }
}
fn run_pressure(c: &Cfg) {
    let o = opt(c);
    let seed = c.get("seed") as u64;
    let (n, msize, snd) = (o.n, c.us("msize"), c.us("side"));
    let rcv = (snd + 1) % n;
    let slow = c.get("slow_us") as u64 * US;
    // Two queues of 32, one message in each pump, one being sent, and what kernel and codec buffers hold (QUIC: its send and receive windows).
    let held = if o.tp == LOCAL { 0 } else if o.tp == QUIC { 4_000_000 } else { c.us("sndbuf") + c.us("rcvbuf") + 2 * 65_536 + 4 * msize };
    let bound = 64 + 6 + held / (msize + 8);
    let total = bound + 60;
    let c1 = c.clone();
    static CNT: Glob<(usize, usize, bool)> = Glob::new(); // sent, side exchanges done, released
    let ids = parties(&o, "N11", &(0..n).collect::<Vec<_>>(), &[], move |p, env| {
        let net = env.nets[0].clone();
        gate(1, n, 900 * SEC);
        let mut th = vec![];
        if p == snd {
            let (net, c2) = (net.clone(), c1.clone());
            th.push(go(p, false, "flood", move || for i in 0..total { if let Err(e) = net.send(rcv, Bytes::from(payload(seed, 0, snd, rcv, i as u64, msize))) { viol("N11", "send-failed", format!("{}: send {i}: {e:#}", nm(&c2))); return; } CNT.with(|x| x.0 += 1); }));
        }
        if p == rcv {
            let (net, c2) = (net.clone(), c1.clone());
            th.push(go(p, false, "slow receiver", move || {
                os::sleep(30 * SEC);
                // The receiver has read nothing for a long time: the sender must have stopped.
                let (sent, side, _) = CNT.with(|x| *x);
                if sent > bound { viol("N11", "unbounded", format!("{}: sender got {sent} messages of {msize} bytes ahead of a receiver that read none (bound {bound})", nm(&c2))); }
                if sent >= total { viol("N11", "unbounded", format!("{}: all {total} messages accepted", nm(&c2))); }
                let want = side_links(n, snd, rcv, env_nets(&c2));
                if side < want { viol("N11", "others-stopped", format!("{}: only {side} of {want} exchanges with other peers, directions and networks finished while P{rcv} was not reading from P{snd} [{}]", nm(&c2), os::describe_threads())); }
                CNT.with(|x| x.2 = true);
                for i in 0..total {
                    if i % 40 == 7 { os::sleep(slow); }
                    match net.recv(snd) { Ok(d) if d[..] == payload(seed, 0, snd, rcv, i as u64, msize)[..] => {} Ok(_) => { viol("N11", "wrong-message", format!("{}: message {i} lost or reordered", nm(&c2))); return; } Err(e) => { viol("N11", "recv-failed", format!("{}: message {i}: {e:#}", nm(&c2))); return; } }
                }
            }));
        }
        // Everything else goes on meanwhile: other peers, the opposite direction, other networks.
        for (k, net) in env.nets.iter().enumerate() { for q in others(n, p) {
            for dir in 0..2 {
                let (a, b) = if dir == 0 { (p, q) } else { (q, p) };
                if k == 0 && a == snd && b == rcv { continue; }
                let (net, c2) = (net.clone(), c1.clone());
                th.push(go(p, false, format!("P{p} side {a}->{b}"), move || {
                    for i in 0..40u64 {
                        if dir == 0 { if let Err(e) = net.send(q, Bytes::from(payload(seed, k + 5, a, b, i, 200))) { viol("N11", "send-failed", format!("{}: side traffic {e:#}", nm(&c2))); return; } }
                        else { match net.recv(q) { Ok(d) if d[..] == payload(seed, k + 5, a, b, i, 200)[..] => {} x => { viol("N11", "wrong-message", format!("{}: side traffic {a}->{b} {i}: {:?}", nm(&c2), x.map(|d| d.len()))); return; } } }
                    }
                    if dir == 1 { CNT.with(|x| x.1 += 1); }
                }));
            }
        } }
        wait_tasks(&th, 3000 * SEC);
        for m in panics(&th) { viol("N11", "panic", m); }
        gate(2, n, 3000 * SEC);
        std::mem::forget(env);
    });
    if !wait_tasks(&ids, 3500 * SEC) { hang("N11", "hang", c, &ids, "traffic does not resume"); }
    for m in panics(&ids) { viol("N11", "panic", m); }
    feat(format!("{} message size {msize}", nm(c)));
}
fn env_nets(c: &Cfg) -> usize { c.us("nets") }
fn side_links(n: usize, _s: usize, _r: usize, nets: usize) -> usize { n * (n - 1) * nets - 1 }

// ---- N12 ------------------------------------------------------------------------------------------------
fn make_joins(r: &mut Rng, _p: &str, _i: u64, c: &mut Cfg) {
    let k = r.range(2, 8);
    c.set("k", k as i64).set("n", 2).set("panic", if r.chance(1, 3) { r.below(k) as i64 } else { -1 }).set("mode", r.below(3) as i64);
    sched_knobs(r, c, 2);
    c.set("max_steps", 2_000_000);
}
fn run_joins(c: &Cfg) {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    let (k, pn, mode, seed) = (c.us("k"), c.get("panic"), c.get("mode"), c.get("seed") as u64);
    let runs: &'static Vec<AtomicUsize> = Box::leak(Box::new((0..8).map(|_| AtomicUsize::new(0)).collect()));
    let open: &'static AtomicUsize = Box::leak(Box::new(AtomicUsize::new(0)));
    let nets: &'static Vec<mpc_net::local::LocalNetwork> = Box::leak(Box::new(mpc_net::local::LocalNetwork::new(8)));
    let mut r = Rng::new(seed ^ 2);
    let naps: Vec<u64> = (0..8).map(|_| if r.chance(1, 2) { r.logu(1, 50 * MS) } else { 0 }).collect();
    let id = go(0, true, "joiner", move || {
        let f = |i: usize| { let nap = naps[i]; move || -> usize {
            use mpc_net::Network;
            runs[i].fetch_add(1, SeqCst);
            open.fetch_add(1, SeqCst);
            if nap > 0 { os::sleep(nap); }
            match mode {
                // All meet, or pass a message round over the network: only concurrent closures get through.
                0 => { if !gate(100, k, 500 * SEC) { viol("N12", "not-concurrent", format!("join{k}: closure {i} waits for the others for good")); } }
                1 => { let (nx, pv) = ((i + 1) % k, (i + k - 1) % k); let _ = nets[i].send(nx, Bytes::from(vec![i as u8])); match nets[i].recv(pv) { Ok(d) if d[..] == [pv as u8] => {} _ => viol("N12", "wrong-message", format!("join{k}: closure {i}")) } }
                _ => {}
            }
            open.fetch_sub(1, SeqCst);
            if pn == i as i64 { panic!("closure {i} panics"); }
            i * 1000 + seed as usize % 1000
        } };
        let base = seed as usize % 1000;
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Vec<usize> { match k {
            2 => { let x = mpc_net::join(f(0), f(1)); vec![x.0, x.1] }
            3 => { let x = mpc_net::join3(f(0), f(1), f(2)); vec![x.0, x.1, x.2] }
            4 => { let x = mpc_net::join4(f(0), f(1), f(2), f(3)); vec![x.0, x.1, x.2, x.3] }
            5 => { let x = mpc_net::join5(f(0), f(1), f(2), f(3), f(4)); vec![x.0, x.1, x.2, x.3, x.4] }
            6 => { let x = mpc_net::join6(f(0), f(1), f(2), f(3), f(4), f(5)); vec![x.0, x.1, x.2, x.3, x.4, x.5] }
            7 => { let x = mpc_net::join7(f(0), f(1), f(2), f(3), f(4), f(5), f(6)); vec![x.0, x.1, x.2, x.3, x.4, x.5, x.6] }
            _ => { let x = mpc_net::join8(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7)); vec![x.0, x.1, x.2, x.3, x.4, x.5, x.6, x.7] }
        } }));
        if open.load(SeqCst) != 0 { viol("N12", "returned-early", format!("join{k} returned while {} closures were running", open.load(SeqCst))); }
        match res {
            Ok(v) => { if pn >= 0 { viol("N12", "panic-lost", format!("join{k}: closure {pn} panicked, the caller got a result")); } if v != (0..k).map(|i| i * 1000 + base).collect::<Vec<_>>() { viol("N12", "order", format!("join{k} returned {v:?}")); } }
            Err(p) => if pn < 0 { viol("N12", "spurious-panic", format!("join{k}: {}", panic_text(&p))); },
        }
        for (i, x) in runs.iter().enumerate() { let want = (i < k) as usize; if x.load(SeqCst) != want { viol("N12", "times", format!("join{k}: closure {i} ran {} times", x.load(SeqCst))); } }
    });
    if !wait_tasks(&[id], 1000 * SEC) { viol("N12", "not-concurrent", format!("join{k} (mode {mode}) does not finish [{}]", os::describe_threads())); }
    for m in panics(&[id]) { viol("N12", "panic", m); }
    feat(format!("join{k} mode{mode} panic{}", (pn >= 0) as u8));
}
