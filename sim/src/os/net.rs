//! Virtual network: hosts (one per party), TCP connections, UDP, listeners, epoll, eventfd.
use super::*;
use std::collections::VecDeque;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

pub const FD_BASE: i32 = 5000;

#[derive(Debug)]
pub enum NetEv {
    Pump { conn: usize, dir: usize },
    Syn { obj: usize, gen_: u64, to: SocketAddr, tries: u32 },
    ConnDone { obj: usize, gen_: u64, res: Result<usize, i32> },
    Rst { conn: usize, side: usize },
    Udp { from: SocketAddr, to: SocketAddr, host: usize, data: Vec<u8> },
}

#[derive(Debug, Default)]
pub struct Dir {
    pub tx: VecDeque<u8>, pub rx: VecDeque<u8>, pub fin_q: bool, pub fin_d: bool, pub sched: bool, pub nospace: bool,
    pub tx_total: u64, pub lost: bool,
}
#[derive(Debug)]
pub struct Conn {
    pub d: [Dir; 2], pub host: [usize; 2], pub addr: [SocketAddr; 2], pub rst: [bool; 2], pub err_taken: [bool; 2], pub closed: [bool; 2], pub sock: [Option<usize>; 2],
    pub silent: [bool; 2],
}
#[derive(Debug)]
pub enum St { Fresh, Listening { q: VecDeque<usize>, backlog: usize }, Connecting { gen_: u64 }, Conn { c: usize, side: usize }, Failed }
#[derive(Debug)]
pub struct Tcp { pub st: St, pub host: usize, pub local: Option<SocketAddr>, pub v6: bool, pub nonblock: bool, pub rto: u64, pub sto: u64, pub so_err: i32, pub wr_shut: bool, pub rd_shut: bool }
#[derive(Debug)]
pub struct Udp { pub host: usize, pub local: Option<SocketAddr>, pub v6: bool, pub nonblock: bool, pub rto: u64, pub q: VecDeque<(SocketAddr, Vec<u8>)> }
#[derive(Debug)]
pub struct Reg { pub fd: i32, pub obj: usize, pub ev: u32, pub data: u64, pub pend: u32, pub disabled: bool }
#[derive(Debug)]
pub enum Obj { Tcp(Tcp), Udp(Udp), Epoll(Vec<Reg>), EventFd { n: u64, nonblock: bool, sema: bool } }
#[derive(Debug)]
pub struct Ent { pub o: Obj, pub refs: usize, pub party: usize, pub proc: usize }

pub struct Net {
    pub objs: Vec<Option<Ent>>,
    pub fds: BTreeMap<i32, usize>,
    pub conns: Vec<Conn>,
    pub next_port: BTreeMap<usize, u16>,
    pub blocked: BTreeSet<(usize, usize)>,
    pub dead_hosts: BTreeSet<usize>,
    pub gen_: u64,
    pub dns_delay_max: u64,
    /// Link latency overrides (a, b) -> (min, max).
    pub link: BTreeMap<(usize, usize), (u64, u64)>,
}
pub const IN: u32 = 1; pub const OUT: u32 = 4; pub const ERR: u32 = 8; pub const HUP: u32 = 16; pub const RDHUP: u32 = 0x2000; pub const ET: u32 = 1 << 31;

impl Net {
    pub fn new() -> Self {
        Net { objs: Vec::new(), fds: BTreeMap::new(), conns: Vec::new(), next_port: BTreeMap::new(), blocked: BTreeSet::new(), dead_hosts: BTreeSet::new(), gen_: 0, dns_delay_max: 0, link: BTreeMap::new() }
    }
    pub fn add(&mut self, o: Obj, party: usize, proc: usize) -> i32 {
        let e = Ent { o, refs: 1, party, proc };
        self.objs.push(Some(e));
        let id = self.objs.len() - 1;
        self.new_fd(id)
    }
    pub fn new_fd(&mut self, obj: usize) -> i32 {
        let mut fd = FD_BASE;
        while self.fds.contains_key(&fd) { fd += 1; }
        self.fds.insert(fd, obj);
        fd
    }
    pub fn obj(&mut self, id: usize) -> Option<&mut Ent> { self.objs.get_mut(id).and_then(|o| o.as_mut()) }
    pub fn tcp(&mut self, id: usize) -> Option<&mut Tcp> { match self.obj(id) { Some(Ent { o: Obj::Tcp(t), .. }) => Some(t), _ => None } }
    pub fn udp(&mut self, id: usize) -> Option<&mut Udp> { match self.obj(id) { Some(Ent { o: Obj::Udp(t), .. }) => Some(t), _ => None } }
    pub fn eph(&mut self, host: usize) -> u16 { let p = self.next_port.entry(host).or_insert(40000); *p += 1; *p }
}

pub fn host_ip(h: usize, v6: bool) -> IpAddr {
    if v6 { IpAddr::V6(Ipv6Addr::new(0xfd00, 0, 0, 0, 0, 0, 0, h as u16 + 1)) } else { IpAddr::V4(Ipv4Addr::new(10, 0, 0, h as u8 + 1)) }
}
/// The host an address names, seen from host `from`.
pub fn host_of(a: &IpAddr, from: usize) -> Option<usize> {
    match a {
        IpAddr::V4(v) if v.is_loopback() || v.is_unspecified() => Some(from),
        IpAddr::V4(v) => { let o = v.octets(); if o[0] == 10 && o[3] > 0 { Some(o[3] as usize - 1) } else { None } }
        IpAddr::V6(v) => {
            if let Some(m) = v.to_ipv4_mapped() { return host_of(&IpAddr::V4(m), from); }
            if v.is_loopback() || v.is_unspecified() { return Some(from); }
            let s = v.segments(); if s[0] == 0xfd00 && s[7] > 0 { Some(s[7] as usize - 1) } else { None }
        }
    }
}
pub fn latency(a: usize, b: usize) -> u64 {
    let m = s();
    if a == b { return m.nrng.logu(2 * US, m.cfg.lat_max.min(200 * US)); }
    let (lo, hi) = m.net.link.get(&(a.min(b), a.max(b))).copied().unwrap_or((m.cfg.lat_min, m.cfg.lat_max));
    m.nrng.logu(lo.max(1), hi.max(lo).max(1))
}
pub fn is_blocked(a: usize, b: usize) -> bool { a != b && s().net.blocked.contains(&(a.min(b), a.max(b))) }
fn ev(delay: u64, e: NetEv) { let t = s().now + delay; at(t, Ev::Net(e)); }

pub fn readiness(id: usize) -> u32 {
    let m = s();
    let Some(e) = m.net.objs[id].as_ref() else { return HUP };
    match &e.o {
        Obj::Tcp(t) => match &t.st {
            St::Fresh => OUT | HUP,
            St::Listening { q, .. } => if q.is_empty() { 0 } else { IN },
            St::Connecting { .. } => 0,
            St::Failed => IN | OUT | ERR | HUP | RDHUP,
            St::Conn { c, side } => {
                let k = &m.net.conns[*c];
                let rd = &k.d[1 - side];
                let wd = &k.d[*side];
                let mut r = 0;
                if !rd.rx.is_empty() || rd.fin_d || k.rst[*side] || t.rd_shut { r |= IN; }
                if rd.fin_d { r |= RDHUP; }
                if wd.tx.len() < m.cfg.sndbuf || k.rst[*side] || t.wr_shut { r |= OUT; }
                if k.rst[*side] { r |= ERR | HUP | RDHUP; }
                if rd.fin_d && t.wr_shut { r |= HUP; }
                r
            }
        },
        Obj::Udp(u) => OUT | if u.q.is_empty() { 0 } else { IN },
        Obj::EventFd { n, .. } => OUT | if *n > 0 { IN } else { 0 },
        Obj::Epoll(regs) => {
            let v: Vec<(usize, u32, u32)> = regs.iter().filter(|r| !r.disabled).map(|r| (r.obj, r.ev, r.pend)).collect();
            for (o, e, p) in v { let rd = readiness(o) & (e | ERR | HUP); if rd != 0 && (e & ET == 0 || p & rd != 0) { return IN; } }
            0
        }
    }
}
/// The state of `id` changed; `bits` are the new edges.
pub fn edge(id: usize, bits: u32) {
    notify(Key::Obj(id));
    let m = s();
    for e in 0..m.net.objs.len() {
        if let Some(Ent { o: Obj::Epoll(regs), .. }) = m.net.objs[e].as_mut() {
            let mut hit = false;
            for r in regs.iter_mut() { if r.obj == id && !r.disabled { r.pend |= bits; hit = true; } }
            if hit { notify(Key::Obj(e)); }
        }
    }
}

pub fn sched_pump(c: usize, dir: usize, delay: u64) {
    let k = &mut s().net.conns[c];
    if k.d[dir].sched { return; }
    k.d[dir].sched = true;
    ev(delay, NetEv::Pump { conn: c, dir });
}
pub fn kick(c: usize, dir: usize) { let (a, b) = { let k = &s().net.conns[c]; (k.host[0], k.host[1]) }; let l = latency(a, b); sched_pump(c, dir, l); }

fn pump(c: usize, dir: usize) {
    let m = s();
    let k = &mut m.net.conns[c];
    k.d[dir].sched = false;
    let (snd, rcv) = (dir, 1 - dir);
    if k.d[dir].lost { k.d[dir].tx.clear(); return; }
    if is_blocked(k.host[0], k.host[1]) { return; }
    if k.silent[rcv] { return; }
    if k.closed[rcv] || k.rst[rcv] {
        if !k.d[dir].tx.is_empty() {
            k.d[dir].tx.clear();
            if !k.rst[snd] && !k.silent[rcv] { let l = latency(k.host[0], k.host[1]); ev(l, NetEv::Rst { conn: c, side: snd }); }
        }
        return;
    }
    let room = m.cfg.rcvbuf.saturating_sub(k.d[dir].rx.len());
    let avail = k.d[dir].tx.len();
    if avail > 0 && room > 0 {
        let seg = m.nrng.logu(1, m.cfg.seg_max.max(1) as u64) as usize;
        let n = avail.min(room).min(seg);
        let d = &mut k.d[dir];
        if d.tx.len() == n && d.rx.is_empty() { std::mem::swap(&mut d.tx, &mut d.rx); } else { let mv: Vec<u8> = d.tx.drain(..n).collect(); d.rx.extend(mv); }
        let ns = std::mem::take(&mut d.nospace);
        m.stats.tcp_bytes += n as u64;
        hash(0xd0 + dir as u64, n as u64);
        let (so, ro) = (k.sock[snd], k.sock[rcv]);
        tr(|| format!("deliver conn{c} dir{dir} {n} bytes"));
        if let Some(o) = ro { edge(o, IN); }
        if let Some(o) = so { if ns { edge(o, OUT); } else { notify(Key::Obj(o)); } }
    }
    let m = s();
    let k = &mut m.net.conns[c];
    if !k.d[dir].tx.is_empty() {
        if k.d[dir].rx.len() < m.cfg.rcvbuf { let l = m.nrng.logu(1, m.cfg.lat_max.max(1) / 4 + 1); sched_pump(c, dir, l); }
    } else if k.d[dir].fin_q && !k.d[dir].fin_d {
        k.d[dir].fin_d = true;
        tr(|| format!("FIN conn{c} dir{dir}"));
        if let Some(o) = s().net.conns[c].sock[rcv] { edge(o, IN | RDHUP | HUP); }
    }
}

fn rst(c: usize, side: usize) {
    let k = &mut s().net.conns[c];
    if k.rst[side] || k.closed[side] || k.silent[side] { return; }
    if is_blocked(k.host[0], k.host[1]) { return; }
    k.rst[side] = true;
    k.d[side].tx.clear();
    tr(|| format!("RST conn{c} side{side}"));
    if let Some(o) = s().net.conns[c].sock[side] { edge(o, IN | OUT | ERR | HUP | RDHUP); }
}

fn find_listener(host: usize, to: &SocketAddr) -> Option<usize> {
    let m = s();
    for (i, e) in m.net.objs.iter().enumerate() {
        if let Some(Ent { o: Obj::Tcp(t), .. }) = e {
            if t.host == host && matches!(t.st, St::Listening { .. }) {
                let l = t.local.unwrap();
                if l.port() == to.port() && (l.ip().is_unspecified() || l.ip() == to.ip() || (l.ip().is_loopback() && to.ip().is_loopback())) { return Some(i); }
            }
        }
    }
    None
}

pub fn fire(e: NetEv) {
    let m = s();
    match e {
        NetEv::Pump { conn, dir } => pump(conn, dir),
        NetEv::Rst { conn, side } => rst(conn, side),
        NetEv::Syn { obj, gen_, to, tries } => {
            let Some(t) = m.net.tcp(obj) else { return };
            let St::Connecting { gen_: g } = t.st else { return };
            if g != gen_ { return; }
            let from = t.host;
            let local = t.local.unwrap();
            let v6 = to.is_ipv6();
            let Some(host) = host_of(&to.ip(), from) else { ev(MS, NetEv::ConnDone { obj, gen_, res: Err(libc::EHOSTUNREACH) }); return };
            let retry = |tries: u32| { if tries >= 6 { ev(32 * SEC, NetEv::ConnDone { obj, gen_, res: Err(libc::ETIMEDOUT) }) } else { ev(SEC << tries, NetEv::Syn { obj, gen_, to, tries: tries + 1 }) } };
            if is_blocked(from, host) || m.net.dead_hosts.contains(&host) { retry(tries); return; }
            let lat = latency(from, host);
            match find_listener(host, &to) {
                None => { ev(lat, NetEv::ConnDone { obj, gen_, res: Err(libc::ECONNREFUSED) }); }
                Some(l) => {
                    let (full, party, proc) = { let en = m.net.obj(l).unwrap(); let (p, q) = (en.party, en.proc); match &en.o { Obj::Tcp(Tcp { st: St::Listening { q: qq, backlog }, .. }) => (qq.len() > *backlog, p, q), _ => (true, p, q) } };
                    if full { retry(tries); return; }
                    if roll("refuse_connect", m.cfg.refuse_ppm) { ev(lat, NetEv::ConnDone { obj, gen_, res: Err(libc::ECONNREFUSED) }); return; }
                    let srv_local = SocketAddr::new(if to.ip().is_unspecified() { host_ip(host, v6) } else { to.ip() }, to.port());
                    let cl = SocketAddr::new(if local.ip().is_unspecified() { host_ip(from, v6) } else { local.ip() }, local.port());
                    m.net.conns.push(Conn { d: Default::default(), host: [from, host], addr: [cl, srv_local], rst: [false; 2], err_taken: [false; 2], closed: [false; 2], sock: [Some(obj), None], silent: [false; 2] });
                    let c = m.net.conns.len() - 1;
                    m.stats.conns += 1;
                    m.net.objs.push(Some(Ent { o: Obj::Tcp(Tcp { st: St::Conn { c, side: 1 }, host, local: Some(srv_local), v6, nonblock: false, rto: 0, sto: 0, so_err: 0, wr_shut: false, rd_shut: false }), refs: 0, party, proc }));
                    let so = m.net.objs.len() - 1;
                    m.net.conns[c].sock[1] = Some(so);
                    // SO_RCVTIMEO / SO_SNDTIMEO of a listener are inherited by accepted sockets on Linux.
                    let (lr, ls) = { let t = m.net.tcp(l).unwrap(); (t.rto, t.sto) };
                    { let t = m.net.tcp(so).unwrap(); t.rto = lr; t.sto = ls; }
                    if let Some(Tcp { st: St::Listening { q, .. }, .. }) = m.net.tcp(l) { q.push_back(so); }
                    tr(|| format!("SYN accepted conn{c} host{from}->host{host}:{}", to.port()));
                    edge(l, IN);
                    ev(lat, NetEv::ConnDone { obj, gen_, res: Ok(c) });
                }
            }
        }
        NetEv::ConnDone { obj, gen_, res } => {
            let Some(t) = m.net.tcp(obj) else {
                if let Ok(c) = res { close_side(c, 0, true); }
                return };
            let St::Connecting { gen_: g } = t.st else { return };
            if g != gen_ { return; }
            match res {
                Ok(c) => { t.st = St::Conn { c, side: 0 }; edge(obj, OUT | if readiness(obj) & IN != 0 { IN } else { 0 }); }
                Err(e) => { t.st = St::Failed; t.so_err = e; edge(obj, IN | OUT | ERR | HUP); }
            }
        }
        NetEv::Udp { from, to, host, data } => {
            if m.net.dead_hosts.contains(&host) { return; }
            if let Some(fh) = host_of(&from.ip(), host) { if is_blocked(fh, host) { return; } }
            let mut hit = None;
            for (i, e) in m.net.objs.iter_mut().enumerate() {
                if let Some(Ent { o: Obj::Udp(u), .. }) = e {
                    if u.host == host { if let Some(l) = u.local { if l.port() == to.port() { if u.q.len() < 2000 { u.q.push_back((from, data)); hit = Some(i); } break; } } }
                }
            }
            hash(0xdd, to.port() as u64);
            if let Some(i) = hit { edge(i, IN); }
        }
    }
}

/// The endpoint goes away. `graceful`: as close(2) does it.
pub fn close_side(c: usize, side: usize, graceful: bool) {
    let m = s();
    let k = &mut m.net.conns[c];
    if k.closed[side] { return; }
    let unread = !k.d[1 - side].rx.is_empty();
    k.closed[side] = true;
    k.sock[side] = None;
    if k.rst[side] { return; }
    let l = latency(k.host[0], k.host[1]);
    if !graceful || unread {
        k.d[side].tx.clear();
        k.d[side].lost = true;
        tr(|| format!("abort conn{c} side{side} unread={unread}"));
        ev(l, NetEv::Rst { conn: c, side: 1 - side });
    } else {
        k.d[side].fin_q = true;
        sched_pump(c, side, l);
        if !k.d[1 - side].tx.is_empty() { sched_pump(c, 1 - side, l); }
    }
}

/// Release one reference of an object.
pub fn unref(id: usize) {
    let m = s();
    let Some(e) = m.net.obj(id) else { return };
    if e.refs > 1 { e.refs -= 1; return; }
    destroy(id, true);
}
pub fn destroy(id: usize, graceful: bool) {
    let m = s();
    let Some(e) = m.net.objs[id].take() else { return };
    for o in m.net.objs.iter_mut().flatten() { if let Obj::Epoll(r) = &mut o.o { r.retain(|r| r.obj != id); } }
    if let Obj::Tcp(t) = e.o {
        match t.st {
            St::Conn { c, side } => close_side(c, side, graceful),
            St::Listening { q, .. } => for so in q { if let Some(Ent { o: Obj::Tcp(Tcp { st: St::Conn { c, side }, .. }), .. }) = m.net.objs[so].take() { close_side(c, side, false); } },
            _ => {}
        }
    }
    notify(Key::Obj(id));
}

pub fn crash_host(p: usize, mode: CrashMode) {
    let m = s();
    let ids: Vec<usize> = m.net.objs.iter().enumerate().filter(|(_, e)| matches!(e, Some(e) if e.party == p && !matches!(&e.o, Obj::Tcp(Tcp { st: St::Conn { .. }, .. }) if false))).map(|(i, _)| i).collect();
    match mode {
        CrashMode::Silent => {
            m.net.dead_hosts.insert(p);
            for k in m.net.conns.iter_mut() { for sd in 0..2 { if k.host[sd] == p { k.silent[sd] = true; k.d[sd].lost = true; k.d[sd].tx.clear(); } } }
            for id in ids { if let Some(e) = m.net.objs[id].as_mut() { if let Obj::Tcp(Tcp { st: St::Listening { .. }, .. }) | Obj::Udp(_) = e.o { m.net.objs[id] = None; } } }
        }
        CrashMode::Exit => for id in ids { destroy(id, true); },
        CrashMode::Reset => for id in ids { destroy(id, false); },
    }
    let dead: Vec<i32> = m.net.fds.iter().filter(|(_, o)| m.net.objs[**o].is_none()).map(|(f, _)| *f).collect();
    for f in dead { m.net.fds.remove(&f); }
}
pub fn heal(a: usize, b: usize) {
    let m = s();
    m.net.blocked.remove(&(a.min(b), a.max(b)));
    for c in 0..m.net.conns.len() {
        let h = m.net.conns[c].host;
        if (h[0] == a && h[1] == b) || (h[0] == b && h[1] == a) {
            for d in 0..2 { let l = m.nrng.logu(MS, 2 * SEC); sched_pump(c, d, l); }
        }
    }
}
pub fn reset_link(a: usize, b: usize) {
    let m = s();
    for c in 0..m.net.conns.len() {
        let h = m.net.conns[c].host;
        if (h[0] == a && h[1] == b) || (h[0] == b && h[1] == a) {
            for sd in 0..2 { let d = &mut s().net.conns[c].d[sd]; d.lost = true; d.tx.clear(); let l = m.nrng.logu(1, m.cfg.lat_max); ev(l, NetEv::Rst { conn: c, side: sd }); }
        }
    }
}
/// Open sockets and epoll objects of a party (and its kernel-side connections).
pub fn open_objs(party: usize) -> Vec<String> {
    s().net.objs.iter().enumerate().filter_map(|(i, e)| e.as_ref().filter(|e| e.party == party).map(|e| format!("#{i} {}", match &e.o {
        Obj::Tcp(t) => match &t.st { St::Listening { .. } => format!("listener {:?}", t.local), St::Conn { c, side } => format!("tcp conn{c}/{side} {:?}", t.local), _ => "tcp".into() },
        Obj::Udp(u) => format!("udp {:?}", u.local), Obj::Epoll(_) => "epoll".into(), Obj::EventFd { .. } => "eventfd".into() }))).collect()
}
pub fn udp_send(from_obj: usize, to: SocketAddr, data: Vec<u8>) -> Result<(), i32> {
    let m = s();
    let Some((host, mut local, v6)) = m.net.udp(from_obj).map(|u| (u.host, u.local, u.v6)) else { return Err(libc::EBADF) };
    if local.is_none() {
        let p = m.net.eph(host);
        let a = SocketAddr::new(host_ip(host, v6), p);
        m.net.udp(from_obj).unwrap().local = Some(a);
        local = Some(a);
    }
    let local = local.unwrap();
    if data.len() > 65507 { return Err(libc::EMSGSIZE); }
    let Some(dst) = host_of(&to.ip(), host) else { return Err(libc::ENETUNREACH) };
    m.stats.udp_pkts += 1;
    if data.len() > 1472 { return Err(libc::EMSGSIZE); }
    if is_blocked(host, dst) { return Ok(()); }
    let from = SocketAddr::new(if local.ip().is_unspecified() { host_ip(host, to.is_ipv6()) } else { local.ip() }, local.port());
    if roll("udp_drop", m.cfg.udp_drop_ppm) { return Ok(()); }
    let n = if roll("udp_dup", m.cfg.udp_dup_ppm) { 2 } else { 1 };
    for _ in 0..n {
        let mut l = latency(host, dst);
        if roll("udp_reorder", m.cfg.udp_reorder_ppm) { l += m.nrng.logu(MS, 30 * MS); }
        ev(l, NetEv::Udp { from, to, host: dst, data: data.clone() });
    }
    Ok(())
}
