//! Message exchange over every transport: order, integrity, limits, statistics, flush and drop, back-pressure.
use super::*;
use crate::os::{MS, SEC};
use bytes::Bytes;
use std::collections::BTreeMap;
use tp::*;
use std::sync::Arc;

pub fn scenarios() -> Vec<Scn> {
    const REAL: &[&str] = &["mpc-net: local, tcp, tls, quic, tcp_session, tcp_session_blocking, blocking, async_net", "crossbeam-channel, parking_lot, tokio runtime and drivers, mio, quinn, rustls, std threads, locks and sockets"];
    const STUB: &[&str] = &["kernel: threads' scheduling, futex, clocks, TCP, UDP, epoll, eventfd, name service (virtual)", "entropy (seeded)"];
    vec![Scn { name: "exchange", props: &["N01"], weight: 1, make: make_exchange, run: run_exchange, real: REAL, stub: STUB,
        simple: &[("n", 2), ("nets", 1), ("msgs", 1), ("maxsize", 0), ("mode", 0), ("tp", 0), ("v6", 0), ("perm", 0), ("jitter_us", 0), ("lat_min_us", 10), ("lat_max_us", 10), ("sndbuf", 65536), ("rcvbuf", 65536), ("seg_max", 65536), ("size_mix", 0)] }]
}

/// The payload of message `idx` on network `k` from `a` to `b`.
pub fn payload(seed: u64, k: usize, a: usize, b: usize, idx: u64, len: usize) -> Vec<u8> {
    let mut r = Rng::new(os::rng::mix(os::rng::mix(seed, (k as u64) << 40 | (a as u64) << 20 | b as u64), idx));
    let mut v = vec![0u8; len];
    r.fill(&mut v);
    v
}
pub fn size(r: &mut Rng, mix: i64, max: usize) -> usize {
    if max == 0 { return 0; }
    let x = match mix {
        0 => r.usize(1, 64),
        1 => *r.pick(&[0usize, 1, 7, 8, 9, 64, 1000]),
        2 => r.logu(1, 70_000) as usize,
        3 => { let b = *r.pick(&[8usize, 4096, 8192, 16384, 65528, 65536]); b + r.usize(0, 4) - 2.min(b) }
        _ => match r.below(12) { 0 => 0, 1 => max, 2..=4 => r.usize(0, 16), 5..=8 => r.logu(1, 9000) as usize, 9 => 65536 - 8 + r.usize(0, 16), _ => r.logu(1, max as u64) as usize },
    };
    x.min(max)
}

fn make_exchange(r: &mut Rng, _prop: &str, i: u64, c: &mut Cfg) {
    let tp = [TCP, SESSB, SESS, TLS, QUIC, LOCAL, TCP, SESS][(i % 8) as usize];
    let n = if tp == QUIC || tp == TLS { r.usize(2, 3) } else { r.usize(2, 4) };
    let nets = if tp == LOCAL { 1 } else { r.usize(1, 3) };
    c.set("tp", tp).set("n", n as i64).set("nets", nets as i64).set("mode", r.below(3) as i64).set("msgs", r.logu(1, if tp == QUIC { 30 } else { 80 }) as i64)
        .set("size_mix", r.below(5) as i64).set("maxsize", *r.pick(&[64, 5000, 70_000, 70_000, 400_000])).set("v6", (r.below(5) == 0) as i64).set("perm", if r.chance(1, 2) { r.below(1000) as i64 } else { 0 })
        .set("jitter_us", if r.chance(1, 2) { r.logu(1, 5000) as i64 } else { 0 });
    if tp == QUIC && c.get("maxsize") > 70_000 { c.set("maxsize", 70_000); }
    sched_knobs(r, c, n);
    tcp_knobs(r, c);
    if tp == QUIC { if r.chance(1, 2) { c.set("udp_drop", r.logu(100, 30_000) as i64); } if r.chance(1, 2) { c.set("udp_dup", r.logu(100, 30_000) as i64); } if r.chance(1, 2) { c.set("udp_reorder", r.logu(100, 60_000) as i64); } c.set("stall", 0); }
    if c.get("seg_max") < 1000 || c.get("sndbuf") < 1000 { c.set("maxsize", c.get("maxsize").min(5000)); }
    c.set("max_steps", 6_000_000);
}
pub fn opt(c: &Cfg) -> Opt {
    let mut o = Opt::new(c.get("tp"), c.us("n"));
    o.nets = c.or("nets", 1) as usize;
    o.v6 = c.on("v6"); o.perm = c.or("perm", 0) as u64;
    let t = |k: &str| if c.or(k, 0) > 0 { Some(c.get(k) as u64 * os::US) } else { None };
    o.timeout = t("timeout_us"); o.flush_timeout = t("flush_us"); o.connect_timeout = t("connect_us");
    if c.or("max_frame", -1) >= 0 { o.max_frame = Some(c.us("max_frame")); }
    o
}

type Link = (usize, usize, usize);
#[derive(Default)]
struct World { sent: BTreeMap<Link, Vec<usize>>, got: BTreeMap<Link, u64>, recv_bytes: BTreeMap<Link, usize>, up: BTreeMap<usize, Result<(), String>> }
static W: Glob<World> = Glob::new();

/// What went wrong when `got` is not the expected message.
fn diagnose(seed: u64, l: Link, idx: u64, got: &[u8], plan: &BTreeMap<Link, Vec<usize>>) -> String {
    for (&(k, a, b), v) in plan { for (i, &len) in v.iter().enumerate() { if len == got.len() && len > 0 && payload(seed, k, a, b, i as u64, len) == got { return format!("message {idx} on network {} from P{} to P{}: returned message {i} of network {k} from P{a} to P{b}", l.0, l.1, l.2); } } }
    format!("message {idx} on network {} from P{} to P{} ({} bytes expected): returned {} bytes that were never sent as a message", l.0, l.1, l.2, plan[&l].get(idx as usize).copied().unwrap_or(0), got.len())
}
fn run_exchange(c: &Cfg) {
    let o = opt(c);
    let seed = c.get("seed") as u64;
    let (n, nets, msgs, mode) = (o.n, o.nets, c.us("msgs"), c.get("mode"));
    let mut r = Rng::new(seed ^ 0x11);
    let mut plan: BTreeMap<Link, Vec<usize>> = BTreeMap::new();
    let (mix, max) = (c.get("size_mix"), c.us("maxsize"));
    for k in 0..nets { for a in 0..n { for b in 0..n { if a != b {
        let m = if mode == 0 { r.usize(msgs / 2, msgs) } else { msgs };
        plan.insert((k, a, b), (0..m).map(|_| size(&mut r, mix, max)).collect());
    } } } }
    let plan: &'static BTreeMap<Link, Vec<usize>> = Box::leak(Box::new(plan));
    let mut locals: Vec<Option<mpc_net::local::LocalNetwork>> = if o.tp == LOCAL { mpc_net::local::LocalNetwork::new(n).into_iter().map(Some).collect() } else { (0..n).map(|_| None).collect() };
    let mut ids = vec![];
    for p in 0..n {
        let o = o.clone();
        let local = locals[p].take();
        let jit = c.or("jitter_us", 0) as u64 * os::US;
        let start = if jit > 0 { r.below(jit) } else { 0 };
        ids.push(go(p, true, format!("P{p}"), move || {
            if start > 0 { os::sleep(start); }
            let env = match local { Some(l) => Ok(Env { nets: vec![Arc::new(l) as Net], handler: None }), None => build(&o, p) };
            let env = match env { Ok(e) => e, Err(e) => { viol("N01", "setup", format!("P{p} could not set up over {}: {e:#}", name(o.tp))); return; } };
            W.with(|w| { w.up.insert(p, Ok(())); });
            let mut th = vec![];
            for (k, net) in env.nets.iter().enumerate() {
                if net.id() != p { viol("N01", "id", format!("P{p} network {k} says it is {}", net.id())); }
                match mode {
                    0 => for q in (0..n).filter(|&q| q != p) {
                        let (a, b) = (net.clone(), net.clone());
                        th.push(go(p, false, format!("P{p} net{k} send->{q}"), move || for (i, &len) in plan[&(k, p, q)].iter().enumerate() { send1(&*a, seed, (k, p, q), i, len); }));
                        th.push(go(p, false, format!("P{p} net{k} recv<-{q}"), move || for i in 0..plan[&(k, q, p)].len() { if !recv1(&*b, seed, (k, q, p), i, plan) { break; } }));
                    },
                    1 => { let a = net.clone(); th.push(go(p, false, format!("P{p} net{k}"), move || for i in 0..msgs {
                        for q in (0..n).filter(|&q| q != p) { send1(&*a, seed, (k, p, q), i, plan[&(k, p, q)][i]); }
                        for q in (0..n).filter(|&q| q != p) { if !recv1(&*a, seed, (k, q, p), i, plan) { return; } }
                    })); }
                    _ => { let a = net.clone(); th.push(go(p, false, format!("P{p} net{k}"), move || {
                        let mut i = 0;
                        while i < msgs {
                            let e = (i + 25).min(msgs);
                            for q in (0..n).filter(|&q| q != p) { for j in i..e { send1(&*a, seed, (k, p, q), j, plan[&(k, p, q)][j]); } }
                            for q in (0..n).filter(|&q| q != p).rev() { for j in i..e { if !recv1(&*a, seed, (k, q, p), j, plan) { return; } } }
                            i = e;
                        }
                    })); }
                }
            }
            wait_tasks(&th, 3600 * SEC);
            for m in panics(&th) { viol("N01", "panic", m); }
            // Hold everything until all parties are done, so that set-down plays no part here.
            gate(77, n, 3600 * SEC);
            std::mem::forget(env);
        }));
    }
    if !wait_tasks(&ids, 3000 * SEC) { viol("N01", "hang", format!("{} exchange does not finish: {} [{}]", name(o.tp), unfinished(&ids), os::describe_threads())); }
    for m in panics(&ids) { viol("N01", "panic", m); }
    feat(format!("{} mode{mode} nets{nets}", name(o.tp)));
}
fn send1(net: &dyn mpc_net::Network, seed: u64, l: Link, i: usize, len: usize) {
    if let Err(e) = net.send(l.2, Bytes::from(payload(seed, l.0, l.1, l.2, i as u64, len))) { viol("N01", "send-failed", format!("send {i} on network {} from P{} to P{}: {e:#}", l.0, l.1, l.2)); }
}
fn recv1(net: &dyn mpc_net::Network, seed: u64, l: Link, i: usize, plan: &BTreeMap<Link, Vec<usize>>) -> bool {
    match net.recv(l.1) {
        Ok(d) => { let len = plan[&l][i]; if d[..] != payload(seed, l.0, l.1, l.2, i as u64, len)[..] { viol("N01", "wrong-message", diagnose(seed, l, i as u64, &d, plan)); return false; } true }
        Err(e) => { viol("N01", "recv-failed", format!("receive {i} on network {} at P{} from P{}: {e:#}", l.0, l.2, l.1)); false }
    }
}
pub const _MS: u64 = MS;
