//! The libc entry points that the simulated system answers. Outside a simulation each goes to the kernel.
use super::net::*;
use super::raw::{libc6, set_errno};
use super::*;
use libc::{c_char, c_int, c_uint, c_void, iovec, msghdr, mmsghdr, size_t, sockaddr, socklen_t, ssize_t, timespec};
use std::net::SocketAddr;

type PcFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
type PjFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
static mut REAL_CREATE: Option<PcFn> = None;
static mut REAL_JOIN: Option<PjFn> = None;
static mut EXIT_KEY: libc::pthread_key_t = 0;

pub fn init_real() {
    unsafe {
        if REAL_CREATE.is_some() { return; }
        REAL_CREATE = Some(std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr())));
        REAL_JOIN = Some(std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr())));
        libc::pthread_key_create(&raw mut EXIT_KEY, Some(on_exit));
    }
}
extern "C" fn on_exit(v: *mut c_void) {
    if !on() { return; }
    let t = v as usize - 1;
    let m = s();
    m.threads[t].exit_iters += 1;
    if m.threads[t].exit_iters < 4 { unsafe { libc::pthread_setspecific(EXIT_KEY, v); } return; }
    thread_exit(t);
}
fn fail(e: c_int) -> c_int { set_errno(e); -1 }
fn failz(e: c_int) -> ssize_t { set_errno(e); -1 }
fn sim_obj(fd: c_int) -> Option<usize> {
    if fd < FD_BASE || !on() { return None; }
    let r = s().net.fds.get(&fd).copied();
    // The descriptors of a crashed process are gone; its threads must not notice.
    if r.is_none() { let _g = sim_guard(); die_if_doomed(); }
    r
}
fn mine(fd: c_int) -> bool { fd >= FD_BASE && on() }
fn me() -> (usize, usize) { let m = s(); let t = &m.threads[m.cur]; (t.party, t.proc) }
fn host() -> usize { let p = me().0; if p == SHARED { 200 } else { p } }

// ---- threads ----------------------------------------------------------------------------------
struct Start { f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void, tid: usize }
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let st = unsafe { std::ptr::read(p as *mut Start) };
    set_tid(st.tid);
    thread_begin(st.tid);
    unsafe { libc::free(p); libc::pthread_setspecific(EXIT_KEY, (st.tid + 1) as *mut c_void); }
    (st.f)(st.arg)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    unsafe {
        if !on() { init_real(); return REAL_CREATE.unwrap()(t, a, f, arg); }
        let g = sim_guard();
        let (p, q) = me();
        let tid = new_thread(p, q);
        let st = libc::malloc(std::mem::size_of::<Start>()) as *mut Start;
        std::ptr::write(st, Start { f, arg, tid });
        tr(|| format!("spawn t{tid}"));
        let r = REAL_CREATE.unwrap()(t, a, tramp, st as *mut c_void);
        if r != 0 { raw::write_fd(2, b"sim: pthread_create failed\n"); raw::exit_group(87); }
        s().threads[tid].pthread = *t;
        drop(g);
        yield_point(false);
        0
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    unsafe {
        if !on() { init_real(); return REAL_JOIN.unwrap()(t, r); }
        let Some(tid) = s().threads.iter().rposition(|x| x.pthread == t) else { return REAL_JOIN.unwrap()(t, r) };
        while s().threads[tid].state != TState::Done { if block(&[Key::Join(tid)], None, "join") == Wake::Deadlock { break; } }
        if s().threads[tid].state != TState::Done { return libc::EDEADLK; }
        if !r.is_null() { *r = std::ptr::null_mut(); }
        0
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !on() { return unsafe { libc6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) } as c_int; }
    yield_now(); 0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, n: size_t, set: *mut libc::cpu_set_t) -> c_int {
    unsafe {
        if !on() { let r = libc6(libc::SYS_sched_getaffinity, pid as i64, n as i64, set as i64, 0, 0, 0); return if r < 0 { -1 } else { std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, n - r as usize); 0 }; }
        std::ptr::write_bytes(set as *mut u8, 0, n);
        for i in 0..s().cfg.ncpu.min(n * 8) { *(set as *mut u8).add(i / 8) |= 1 << (i % 8); }
        0
    }
}

// ---- futex, entropy, generic syscall ------------------------------------------------------------
unsafe fn futex(uaddr: usize, op: i64, val: u32, ts: *const timespec, val3: u32) -> i64 {
    let cmd = op & 0x7f;
    match cmd {
        0 | 9 => {
            yield_point(true);
            let bits = if cmd == 9 { val3 } else { u32::MAX };
            let cur = unsafe { (*(uaddr as *const std::sync::atomic::AtomicU32)).load(Ordering::SeqCst) };
            if cur != val { set_errno(libc::EAGAIN); return -1; }
            if roll("futex_spurious", s().cfg.spurious_ppm) { return 0; }
            let dl = if ts.is_null() { None } else {
                let t = unsafe { &*ts };
                let ns = (t.tv_sec as i128 * SEC as i128 + t.tv_nsec as i128).clamp(0, (u64::MAX / 4) as i128) as u64;
                Some(if cmd == 9 { if op & 256 != 0 { (ns as i128 - wall_base() - s().wall_off as i128).max(0) as u64 } else { ns } } else { s().now.saturating_add(ns) })
            };
            if let Some(d) = dl { if d <= s().now { yield_point(true); set_errno(libc::ETIMEDOUT); return -1; } }
            match block(&[Key::Futex(uaddr, bits)], dl, "futex") { Wake::Timeout => { set_errno(libc::ETIMEDOUT); -1 } _ => 0 }
        }
        1 | 10 => {
            let n = { let _g = sim_guard(); futex_wake(uaddr, val, if cmd == 10 { val3 } else { u32::MAX }) };
            yield_point(false);
            n as i64
        }
        _ => { raw::write_fd(2, b"sim: unsupported futex op\n"); raw::exit_group(88) }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    unsafe {
        if on() {
            match n {
                libc::SYS_futex => return futex(a as usize, b, c as u32, d as *const timespec, f as u32),
                libc::SYS_getrandom => return getrandom(a as *mut c_void, b as usize, c as u32) as i64,
                libc::SYS_sched_yield => { yield_now(); return 0; }
                _ => {}
            }
        }
        libc6(n, a, b, c, d, e, f)
    }
}
/// Give a party's entropy source a new seed.
pub fn reseed(party: usize, seed: u64) { let _g = sim_guard(); s().ent.insert(party as _, Rng::new(seed)); }
pub fn entropy(buf: &mut [u8]) {
    let p = me().0;
    let m = s();
    let seed = m.cfg.entropy.get(&p).copied().unwrap_or(rng::mix(m.cfg.seed ^ 0xE17, p as u64));
    m.ent.entry(p).or_insert_with(|| Rng::new(seed)).fill(buf);
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    if !on() { return unsafe { libc6(libc::SYS_getrandom, p as i64, n as i64, fl as i64, 0, 0, 0) } as ssize_t; }
    let _g = sim_guard();
    entropy(unsafe { std::slice::from_raw_parts_mut(p as *mut u8, n) });
    n as ssize_t
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getentropy(p: *mut c_void, n: size_t) -> c_int { unsafe { if getrandom(p, n, 0) == n as ssize_t { 0 } else { -1 } } }

// ---- clocks ---------------------------------------------------------------------------------------
pub fn wall_base() -> i128 { 1_790_000_000i128 * SEC as i128 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(c: libc::clockid_t, ts: *mut timespec) -> c_int {
    unsafe {
        if !on() { return libc6(libc::SYS_clock_gettime, c as i64, ts as i64, 0, 0, 0, 0) as c_int; }
        let m = s();
        m.now += 20;
        let v: i128 = if c == libc::CLOCK_REALTIME || c == 5 {
            if roll("clock_jump", m.cfg.clock_jump_ppm) { let j = m.frng.logu(MS, 86400 * SEC) as i64; m.wall_off += if m.frng.chance(1, 2) { j } else { -j }; }
            wall_base() + m.now as i128 + m.wall_off as i128 } else { m.now as i128 };
        (*ts).tv_sec = (v / SEC as i128) as i64;
        (*ts).tv_nsec = (v % SEC as i128) as i64;
        0
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    unsafe {
        if !on() { return libc6(libc::SYS_gettimeofday, tv as i64, tz as i64, 0, 0, 0, 0) as c_int; }
        let mut ts: timespec = std::mem::zeroed();
        clock_gettime(libc::CLOCK_REALTIME, &mut ts);
        (*tv).tv_sec = ts.tv_sec; (*tv).tv_usec = ts.tv_nsec / 1000; 0
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    unsafe { let mut ts: timespec = std::mem::zeroed(); clock_gettime(libc::CLOCK_REALTIME, &mut ts); if !t.is_null() { *t = ts.tv_sec; } ts.tv_sec }
}
fn ts_ns(t: &timespec) -> u64 { (t.tv_sec as u128 * SEC as u128 + t.tv_nsec as u128).min((u64::MAX / 4) as u128) as u64 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(r: *const timespec, rem: *mut timespec) -> c_int {
    unsafe {
        if !on() { return libc6(libc::SYS_nanosleep, r as i64, rem as i64, 0, 0, 0, 0) as c_int; }
        let d = s().now + ts_ns(&*r);
        block(&[Key::None], Some(d), "sleep"); 0
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(c: libc::clockid_t, fl: c_int, r: *const timespec, rem: *mut timespec) -> c_int {
    unsafe {
        if !on() { let x = raw::sys6(libc::SYS_clock_nanosleep, c as i64, fl as i64, r as i64, rem as i64, 0, 0); return -x as c_int; }
        let d = if fl & 1 != 0 { ts_ns(&*r) } else { s().now + ts_ns(&*r) };
        block(&[Key::None], Some(d), "sleep"); 0
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int { let t = timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 }; unsafe { nanosleep(&t, std::ptr::null_mut()) } }

// ---- sockets ----------------------------------------------------------------------------------------
unsafe fn get_addr(a: *const sockaddr, l: socklen_t) -> Option<SocketAddr> {
    unsafe {
        if a.is_null() { return None; }
        match (*a).sa_family as c_int {
            libc::AF_INET if l as usize >= std::mem::size_of::<libc::sockaddr_in>() => { let x = &*(a as *const libc::sockaddr_in); Some(SocketAddr::new(std::net::Ipv4Addr::from(u32::from_be(x.sin_addr.s_addr)).into(), u16::from_be(x.sin_port))) }
            libc::AF_INET6 => { let x = &*(a as *const libc::sockaddr_in6); let ip = std::net::Ipv6Addr::from(x.sin6_addr.s6_addr); Some(SocketAddr::new(ip.to_ipv4_mapped().map(Into::into).unwrap_or(ip.into()), u16::from_be(x.sin6_port))) }
            _ => None,
        }
    }
}
unsafe fn put_addr(sa: SocketAddr, v6: bool, a: *mut sockaddr, l: *mut socklen_t) {
    unsafe {
        if a.is_null() || l.is_null() { return; }
        let sa = if v6 { if let std::net::IpAddr::V4(x) = sa.ip() { SocketAddr::new(x.to_ipv6_mapped().into(), sa.port()) } else { sa } } else { sa };
        match sa {
            SocketAddr::V4(x) => { let mut o: libc::sockaddr_in = std::mem::zeroed(); o.sin_family = libc::AF_INET as u16; o.sin_port = x.port().to_be(); o.sin_addr.s_addr = u32::from(*x.ip()).to_be();
                let n = std::mem::size_of_val(&o); std::ptr::copy_nonoverlapping(&o as *const _ as *const u8, a as *mut u8, n.min(*l as usize)); *l = n as u32; }
            SocketAddr::V6(x) => { let mut o: libc::sockaddr_in6 = std::mem::zeroed(); o.sin6_family = libc::AF_INET6 as u16; o.sin6_port = x.port().to_be(); o.sin6_addr.s6_addr = x.ip().octets();
                let n = std::mem::size_of_val(&o); std::ptr::copy_nonoverlapping(&o as *const _ as *const u8, a as *mut u8, n.min(*l as usize)); *l = n as u32; }
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if !on() || !(d == libc::AF_INET || d == libc::AF_INET6) { return unsafe { libc6(libc::SYS_socket, d as i64, t as i64, p as i64, 0, 0, 0) } as c_int; }
    yield_point(true);
    let _g = sim_guard();
    let nb = t & libc::SOCK_NONBLOCK != 0;
    let v6 = d == libc::AF_INET6;
    let (pa, pr) = me();
    let h = host();
    let o = match t & 0xf {
        libc::SOCK_STREAM => Obj::Tcp(Tcp { st: St::Fresh, host: h, local: None, v6, nonblock: nb, rto: 0, sto: 0, so_err: 0, wr_shut: false, rd_shut: false }),
        libc::SOCK_DGRAM => Obj::Udp(Udp { host: h, local: None, v6, nonblock: nb, rto: 0, q: Default::default() }),
        _ => return fail(libc::EPROTONOSUPPORT),
    };
    s().net.add(o, pa, pr)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn socketpair(d: c_int, t: c_int, p: c_int, sv: *mut c_int) -> c_int { unsafe { libc6(libc::SYS_socketpair, d as i64, t as i64, p as i64, sv as i64, 0, 0) as c_int } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if !mine(fd) { return unsafe { libc6(libc::SYS_bind, fd as i64, a as i64, l as i64, 0, 0, 0) } as c_int; }
    yield_point(true);
    let _g = sim_guard();
    let Some(id) = sim_obj(fd) else { return fail(libc::EBADF) };
    let Some(mut sa) = (unsafe { get_addr(a, l) }) else { return fail(libc::EINVAL) };
    let m = s();
    let h = host();
    if !sa.ip().is_unspecified() && host_of(&sa.ip(), h) != Some(h) { return fail(libc::EADDRNOTAVAIL); }
    if sa.port() == 0 { sa.set_port(m.net.eph(h)); }
    let is_udp = m.net.udp(id).is_some();
    for e in m.net.objs.iter().flatten() {
        let (l, hh) = match &e.o { Obj::Tcp(t) if !is_udp && matches!(t.st, St::Listening { .. } | St::Fresh) => (t.local, t.host), Obj::Udp(u) if is_udp => (u.local, u.host), _ => continue };
        if hh == h && l.map(|l| l.port()) == Some(sa.port()) { return fail(libc::EADDRINUSE); }
    }
    match &mut m.net.obj(id).unwrap().o { Obj::Tcp(t) => t.local = Some(sa), Obj::Udp(u) => u.local = Some(sa), _ => return fail(libc::EINVAL) }
    tr(|| format!("bind fd{fd} {sa}"));
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn listen(fd: c_int, bl: c_int) -> c_int {
    if !mine(fd) { return unsafe { libc6(libc::SYS_listen, fd as i64, bl as i64, 0, 0, 0, 0) } as c_int; }
    yield_point(true);
    let _g = sim_guard();
    let Some(id) = sim_obj(fd) else { return fail(libc::EBADF) };
    let m = s();
    let h = host();
    let e = m.net.eph(h);
    let Some(t) = m.net.tcp(id) else { return fail(libc::EINVAL) };
    if t.local.is_none() { t.local = Some(SocketAddr::new(host_ip(h, t.v6), e)); }
    t.st = St::Listening { q: Default::default(), backlog: bl.max(0) as usize };
    0
}
/// Wait until `id` has one of `mask` (or is gone); Err(errno) on timeout, interruption.
fn wait_ready(id: usize, mask: u32, nonblock: bool, tmo: u64, can_eintr: bool, what: &'static str) -> Result<(), c_int> {
    let dl = if tmo > 0 { Some(s().now + tmo) } else { None };
    loop {
        if s().net.objs[id].is_none() { return Err(libc::EBADF); }
        let r = { let _g = sim_guard(); readiness(id) };
        if r & (mask | ERR | HUP) != 0 { return Ok(()); }
        if nonblock { return Err(libc::EAGAIN); }
        if can_eintr && roll("eintr", s().cfg.eintr_ppm) { return Err(libc::EINTR); }
        match block(&[Key::Obj(id)], dl, what) { Wake::Timeout => return Err(libc::EAGAIN), Wake::Deadlock => return Err(libc::EDEADLK), _ => {} }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int { unsafe { accept4(fd, a, l, 0) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, fl: c_int) -> c_int {
    if !mine(fd) { return unsafe { libc6(libc::SYS_accept4, fd as i64, a as i64, l as i64, fl as i64, 0, 0) } as c_int; }
    yield_point(true);
    let Some(id) = sim_obj(fd) else { return fail(libc::EBADF) };
    let Some((nb, rto)) = s().net.tcp(id).map(|t| (t.nonblock, t.rto)) else { return fail(libc::ENOTSOCK) };
    if let Err(e) = wait_ready(id, IN, nb, rto, true, "accept") { return fail(e); }
    let _g = sim_guard();
    let m = s();
    if roll("accept_error", m.cfg.accept_err_ppm) {
        // A connection that died in the queue, or the process is out of descriptors for a moment.
        return fail(*m.frng.pick(&[libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ECONNABORTED]));
    }
    let Some(t) = m.net.tcp(id) else { return fail(libc::EBADF) };
    let v6 = t.v6;
    let so = match &mut t.st { St::Listening { q, .. } => match q.pop_front() { Some(x) => x, None => return fail(libc::EAGAIN) }, _ => return fail(libc::EINVAL) };
    let n = m.net.new_fd(so);
    m.net.obj(so).unwrap().refs = 1;
    let t = m.net.tcp(so).unwrap();
    t.nonblock = fl & libc::SOCK_NONBLOCK != 0;
    t.v6 = v6;
    let St::Conn { c, .. } = t.st else { unreachable!() };
    m.net.conns[c].sock[1] = Some(so);
    let peer = m.net.conns[c].addr[0];
    unsafe { put_addr(peer, v6, a, l); }
    tr(|| format!("accept fd{fd} -> fd{n} conn{c}"));
    n
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if !mine(fd) { return unsafe { libc6(libc::SYS_connect, fd as i64, a as i64, l as i64, 0, 0, 0) } as c_int; }
    yield_point(true);
    let Some(id) = sim_obj(fd) else { return fail(libc::EBADF) };
    let Some(sa) = (unsafe { get_addr(a, l) }) else { return fail(libc::EAFNOSUPPORT) };
    let (nb, sto) = {
        let _g = sim_guard();
        let m = s();
        if m.net.udp(id).is_some() { return fail(libc::EOPNOTSUPP); }
        let h = host();
        let port = m.net.eph(h);
        let g = { m.net.gen_ += 1; m.net.gen_ };
        let Some(t) = m.net.tcp(id) else { return fail(libc::ENOTSOCK) };
        match &t.st { St::Conn { .. } => return fail(libc::EISCONN), St::Connecting { .. } => return fail(libc::EALREADY), St::Listening { .. } => return fail(libc::EINVAL), _ => {} }
        if t.local.is_none() { t.local = Some(SocketAddr::new(host_ip(t.host, sa.is_ipv6()), port)); }
        t.st = St::Connecting { gen_: g };
        let r = (t.nonblock, t.sto);
        let from = t.host;
        let lat = host_of(&sa.ip(), from).map(|d| latency(from, d)).unwrap_or(MS);
        at(s().now + lat, Ev::Net(NetEv::Syn { obj: id, gen_: g, to: sa, tries: 0 }));
        tr(|| format!("connect fd{fd} -> {sa}"));
        r
    };
    if nb { return fail(libc::EINPROGRESS); }
    match wait_ready(id, OUT, false, sto, false, "connect") { Err(libc::EAGAIN) => return fail(libc::EINPROGRESS), Err(e) => return fail(e), Ok(()) => {} }
    match s().net.tcp(id) { Some(t) if t.so_err != 0 => { let e = std::mem::take(&mut t.so_err); t.st = St::Fresh; fail(e) } Some(_) => 0, None => fail(libc::EBADF) }
}
fn conn_of(id: usize) -> Result<(usize, usize), c_int> {
    match s().net.tcp(id) { Some(Tcp { st: St::Conn { c, side }, .. }) => Ok((*c, *side)), Some(_) => Err(libc::ENOTCONN), None => Err(libc::ENOTSOCK) }
}
unsafe fn tcp_read(id: usize, bufs: &[(*mut u8, usize)], fl: c_int) -> Result<usize, c_int> {
    let (nb, rto) = { let t = s().net.tcp(id).ok_or(libc::EBADF)?; (t.nonblock || fl & libc::MSG_DONTWAIT != 0, t.rto) };
    conn_of(id)?;
    let total: usize = bufs.iter().map(|b| b.1).sum();
    if total == 0 { return Ok(0); }
    // An interrupted call: only a blocking one, and before anything was transferred.
    if !nb && roll("eintr", s().cfg.eintr_ppm) { return Err(libc::EINTR); }
    wait_ready(id, IN, nb, rto, true, "recv")?;
    let (c, side) = conn_of(id)?;
    let _g = sim_guard();
    let m = s();
    let k = &mut m.net.conns[c];
    let d = &mut k.d[1 - side];
    if d.rx.is_empty() {
        if k.rst[side] { if !k.err_taken[side] { k.err_taken[side] = true; tr(|| format!("recv conn{c}/{side} -> ECONNRESET")); return Err(libc::ECONNRESET); } return Ok(0); }
        tr(|| format!("recv conn{c}/{side} -> EOF"));
        return Ok(0);
    }
    let mut n = total.min(d.rx.len());
    if !nb && n > 1 && roll("short_read", m.cfg.short_read_ppm) { n = m.frng.logu(1, n as u64 - 1) as usize; }
    let d = &mut s().net.conns[c].d[1 - side];
    let mut left = n;
    let peek = fl & libc::MSG_PEEK != 0;
    let mut off = 0;
    for (p, len) in bufs {
        let k = left.min(*len);
        let (a, b) = d.rx.as_slices();
        for i in 0..k { let j = off + i; unsafe { *p.add(i) = if j < a.len() { a[j] } else { b[j - a.len()] }; } }
        off += k; left -= k;
        if left == 0 { break; }
    }
    if !peek { d.rx.drain(..n); if !d.tx.is_empty() || d.fin_q && !d.fin_d { kick(c, 1 - side); } }
    hash(0x4e, n as u64);
    tr(|| format!("recv conn{c}/{side} {n} bytes"));
    Ok(n)
}
unsafe fn tcp_write(id: usize, bufs: &[(*const u8, usize)], fl: c_int) -> Result<usize, c_int> {
    let (nb, sto) = { let t = s().net.tcp(id).ok_or(libc::EBADF)?; (t.nonblock || fl & libc::MSG_DONTWAIT != 0, t.sto) };
    conn_of(id)?;
    let total: usize = bufs.iter().map(|b| b.1).sum();
    if !nb && roll("eintr", s().cfg.eintr_ppm) { return Err(libc::EINTR); }
    let mut limit = total;
    if !nb && total > 1 && roll("short_write", s().cfg.short_write_ppm) { limit = s().frng.logu(1, total as u64 - 1) as usize; }
    let dl = if sto > 0 { Some(s().now + sto) } else { None };
    let mut done = 0usize;
    loop {
        {
            let _g = sim_guard();
            let m = s();
            let (c, side) = conn_of(id)?;
            let wr_shut = m.net.tcp(id).unwrap().wr_shut;
            let k = &mut m.net.conns[c];
            if k.rst[side] {
                if done > 0 { return Ok(done); }
                if !k.err_taken[side] { k.err_taken[side] = true; tr(|| format!("send conn{c}/{side} -> ECONNRESET")); return Err(libc::ECONNRESET); }
                return Err(libc::EPIPE);
            }
            if wr_shut { return if done > 0 { Ok(done) } else { Err(libc::EPIPE) }; }
            let space = m.cfg.sndbuf.saturating_sub(k.d[side].tx.len());
            let n = space.min(limit - done);
            if n > 0 {
                let (mut skip, mut left) = (done, n);
                for (p, len) in bufs {
                    if skip >= *len { skip -= len; continue; }
                    let k2 = left.min(len - skip);
                    k.d[side].tx.extend(unsafe { std::slice::from_raw_parts(p.add(skip), k2) });
                    skip = 0; left -= k2;
                    if left == 0 { break; }
                }
                k.d[side].tx_total += n as u64;
                done += n;
                kick(c, side);
                hash(0x3e, n as u64);
                tr(|| format!("send conn{c}/{side} {n}/{total} bytes"));
            }
            if done == limit { if limit == total && s().net.conns[c].d[side].tx.len() >= s().cfg.sndbuf { s().net.conns[c].d[side].nospace = true; } return Ok(done); }
            s().net.conns[c].d[side].nospace = true;
            if nb { return if done > 0 { Ok(done) } else { Err(libc::EAGAIN) }; }
        }
        match block(&[Key::Obj(id)], dl, "send") {
            Wake::Timeout => return if done > 0 { Ok(done) } else { tr(|| "send -> EAGAIN (timeout)".into()); Err(libc::EAGAIN) },
            Wake::Deadlock => return Err(libc::EDEADLK),
            _ => if roll("eintr", s().cfg.eintr_ppm) { return if done > 0 { Ok(done) } else { Err(libc::EINTR) } },
        }
    }
}
unsafe fn do_read(fd: c_int, bufs: &[(*mut u8, usize)], fl: c_int) -> ssize_t {
    yield_point(true);
    let Some(id) = sim_obj(fd) else { return failz(libc::EBADF) };
    enum K { T, U, E(u64, bool, bool), X }
    let k = match s().net.obj(id).map(|e| &e.o) { Some(Obj::Tcp(_)) => K::T, Some(Obj::Udp(_)) => K::U, Some(Obj::EventFd { n, nonblock, sema }) => K::E(*n, *nonblock, *sema), _ => K::X };
    match k {
        K::T => match unsafe { tcp_read(id, bufs, fl) } { Ok(n) => n as ssize_t, Err(e) => failz(e) },
        K::U => {
            let mut iov: Vec<iovec> = bufs.iter().map(|b| iovec { iov_base: b.0 as *mut c_void, iov_len: b.1 }).collect();
            match udp_recv(id, &mut iov, fl) { Ok((_, n, _)) => n as ssize_t, Err(e) => failz(e) }
        }
        K::E(n, nb, sema) => {
            if n == 0 { if nb { return failz(libc::EAGAIN); } if let Err(e) = wait_ready(id, IN, nb, 0, false, "eventfd") { return failz(e); } }
            let _g = sim_guard();
            if let Some(Ent { o: Obj::EventFd { n, .. }, .. }) = s().net.obj(id) {
                let v = if sema { 1 } else { *n };
                *n -= v;
                unsafe { std::ptr::copy_nonoverlapping(&v as *const u64 as *const u8, bufs[0].0, 8); }
            }
            8
        }
        K::X => failz(libc::EINVAL),
    }
}
unsafe fn do_write(fd: c_int, bufs: &[(*const u8, usize)], fl: c_int) -> ssize_t {
    yield_point(true);
    let Some(id) = sim_obj(fd) else { return failz(libc::EBADF) };
    enum K { T, E, X }
    let k = match s().net.obj(id).map(|e| &e.o) { Some(Obj::Tcp(_)) => K::T, Some(Obj::EventFd { .. }) => K::E, _ => K::X };
    match k {
        K::T => match unsafe { tcp_write(id, bufs, fl) } { Ok(n) => n as ssize_t, Err(e) => failz(e) },
        K::E => {
            let _g = sim_guard();
            let mut v = 0u64;
            unsafe { std::ptr::copy_nonoverlapping(bufs[0].0, &mut v as *mut u64 as *mut u8, 8); }
            if let Some(Ent { o: Obj::EventFd { n, .. }, .. }) = s().net.obj(id) { *n = n.saturating_add(v); }
            edge(id, IN);
            8
        }
        K::X => failz(libc::EINVAL),
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t { unsafe { if !mine(fd) { return libc6(libc::SYS_read, fd as i64, b as i64, n as i64, 0, 0, 0) as ssize_t; } do_read(fd, &[(b as *mut u8, n)], 0) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t { unsafe { if !mine(fd) { return libc6(libc::SYS_write, fd as i64, b as i64, n as i64, 0, 0, 0) as ssize_t; } do_write(fd, &[(b as *const u8, n)], 0) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, fl: c_int) -> ssize_t { unsafe { if !mine(fd) { return libc6(libc::SYS_recvfrom, fd as i64, b as i64, n as i64, fl as i64, 0, 0) as ssize_t; } do_read(fd, &[(b as *mut u8, n)], fl) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, fl: c_int) -> ssize_t { unsafe { if !mine(fd) { return libc6(libc::SYS_sendto, fd as i64, b as i64, n as i64, fl as i64, 0, 0) as ssize_t; } do_write(fd, &[(b as *const u8, n)], fl) } }
unsafe fn iov_r(i: *const iovec, n: usize) -> Vec<(*mut u8, usize)> { (0..n).map(|k| unsafe { let v = &*i.add(k); (v.iov_base as *mut u8, v.iov_len) }).collect() }
unsafe fn iov_w(i: *const iovec, n: usize) -> Vec<(*const u8, usize)> { (0..n).map(|k| unsafe { let v = &*i.add(k); (v.iov_base as *const u8, v.iov_len) }).collect() }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, i: *const iovec, n: c_int) -> ssize_t { unsafe { if !mine(fd) { return libc6(libc::SYS_readv, fd as i64, i as i64, n as i64, 0, 0, 0) as ssize_t; } let v = { let _g = sim_guard(); iov_r(i, n as usize) }; do_read(fd, &v, 0) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, i: *const iovec, n: c_int) -> ssize_t { unsafe { if !mine(fd) { return libc6(libc::SYS_writev, fd as i64, i as i64, n as i64, 0, 0, 0) as ssize_t; } let v = { let _g = sim_guard(); iov_w(i, n as usize) }; do_write(fd, &v, 0) } }

fn udp_recv(id: usize, iov: &mut [iovec], fl: c_int) -> Result<(SocketAddr, usize, bool), c_int> {
    let (nb, rto) = { let u = s().net.udp(id).ok_or(libc::EBADF)?; (u.nonblock || fl & libc::MSG_DONTWAIT != 0, u.rto) };
    loop {
        { let _g = sim_guard();
          if let Some((from, data)) = s().net.udp(id).ok_or(libc::EBADF)?.q.pop_front() {
            let mut off = 0;
            for v in iov { let k = (data.len() - off).min(v.iov_len); unsafe { std::ptr::copy_nonoverlapping(data[off..].as_ptr(), v.iov_base as *mut u8, k); } off += k; if off == data.len() { break; } }
            return Ok((from, off, off < data.len()));
          } }
        wait_ready(id, IN, nb, rto, true, "udp recv")?;
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: size_t, fl: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
    unsafe {
        if !mine(fd) { return libc6(libc::SYS_recvfrom, fd as i64, b as i64, n as i64, fl as i64, a as i64, l as i64) as ssize_t; }
        let Some(id) = sim_obj(fd) else { return failz(libc::EBADF) };
        if s().net.udp(id).is_none() { return do_read(fd, &[(b as *mut u8, n)], fl); }
        yield_point(true);
        match udp_recv(id, &mut [iovec { iov_base: b, iov_len: n }], fl) { Ok((f, n, _)) => { let v6 = s().net.udp(id).map(|u| u.v6).unwrap_or(false); put_addr(f, v6, a, l); n as ssize_t } Err(e) => failz(e) }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: size_t, fl: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t {
    unsafe {
        if !mine(fd) { return libc6(libc::SYS_sendto, fd as i64, b as i64, n as i64, fl as i64, a as i64, l as i64) as ssize_t; }
        let Some(id) = sim_obj(fd) else { return failz(libc::EBADF) };
        if s().net.udp(id).is_none() { return do_write(fd, &[(b as *const u8, n)], fl); }
        yield_point(true);
        let _g = sim_guard();
        let Some(to) = get_addr(a, l) else { return failz(libc::EDESTADDRREQ) };
        match udp_send(id, to, std::slice::from_raw_parts(b as *const u8, n).to_vec()) { Ok(()) => n as ssize_t, Err(e) => failz(e) }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, fl: c_int) -> ssize_t {
    unsafe {
        if !mine(fd) { return libc6(libc::SYS_sendmsg, fd as i64, m as i64, fl as i64, 0, 0, 0) as ssize_t; }
        let Some(id) = sim_obj(fd) else { return failz(libc::EBADF) };
        if s().net.udp(id).is_none() { let v = { let _g = sim_guard(); iov_w((*m).msg_iov, (*m).msg_iovlen) }; return do_write(fd, &v, fl); }
        yield_point(true);
        let _g = sim_guard();
        let Some(to) = get_addr((*m).msg_name as *const sockaddr, (*m).msg_namelen) else { return failz(libc::EDESTADDRREQ) };
        let mut d = Vec::new();
        for (p, n) in iov_w((*m).msg_iov, (*m).msg_iovlen) { d.extend_from_slice(std::slice::from_raw_parts(p, n)); }
        let n = d.len();
        match udp_send(id, to, d) { Ok(()) => n as ssize_t, Err(e) => failz(e) }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut msghdr, fl: c_int) -> ssize_t {
    unsafe {
        if !mine(fd) { return libc6(libc::SYS_recvmsg, fd as i64, m as i64, fl as i64, 0, 0, 0) as ssize_t; }
        let Some(id) = sim_obj(fd) else { return failz(libc::EBADF) };
        if s().net.udp(id).is_none() { let v = { let _g = sim_guard(); iov_r((*m).msg_iov, (*m).msg_iovlen) }; return do_read(fd, &v, fl); }
        yield_point(true);
        let iov = std::slice::from_raw_parts_mut((*m).msg_iov, (*m).msg_iovlen);
        match udp_recv(id, iov, fl) {
            Ok((f, n, tr)) => { let v6 = s().net.udp(id).map(|u| u.v6).unwrap_or(false); let mut l = (*m).msg_namelen; put_addr(f, v6, (*m).msg_name as *mut sockaddr, &mut l); (*m).msg_namelen = l; (*m).msg_controllen = 0; (*m).msg_flags = if tr { libc::MSG_TRUNC } else { 0 }; n as ssize_t }
            Err(e) => failz(e),
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn recvmmsg(fd: c_int, v: *mut mmsghdr, n: c_uint, fl: c_int, t: *mut timespec) -> c_int {
    unsafe {
        if !mine(fd) { return libc6(libc::SYS_recvmmsg, fd as i64, v as i64, n as i64, fl as i64, t as i64, 0) as c_int; }
        let mut k = 0;
        while k < n {
            let r = recvmsg(fd, &mut (*v.add(k as usize)).msg_hdr, if k > 0 { fl | libc::MSG_DONTWAIT } else { fl });
            if r < 0 { return if k > 0 { k as c_int } else { -1 }; }
            (*v.add(k as usize)).msg_len = r as c_uint;
            k += 1;
            if let Some(id) = sim_obj(fd) { if s().net.udp(id).map(|u| u.q.is_empty()).unwrap_or(true) { break; } }
        }
        k as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendmmsg(fd: c_int, v: *mut mmsghdr, n: c_uint, fl: c_int) -> c_int {
    unsafe {
        if !mine(fd) { return libc6(libc::SYS_sendmmsg, fd as i64, v as i64, n as i64, fl as i64, 0, 0) as c_int; }
        let mut k = 0;
        while k < n { let r = sendmsg(fd, &(*v.add(k as usize)).msg_hdr, fl); if r < 0 { return if k > 0 { k as c_int } else { -1 }; } (*v.add(k as usize)).msg_len = r as c_uint; k += 1; }
        k as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !mine(fd) { return unsafe { libc6(libc::SYS_shutdown, fd as i64, how as i64, 0, 0, 0, 0) } as c_int; }
    yield_point(true);
    let _g = sim_guard();
    let Some(id) = sim_obj(fd) else { return fail(libc::EBADF) };
    if let Some(t) = s().net.tcp(id) { if let St::Listening { .. } = t.st { t.st = St::Fresh; edge(id, IN | HUP); return 0; } }
    let (c, side) = match conn_of(id) { Ok(x) => x, Err(e) => return fail(e) };
    if s().net.conns[c].rst[side] { return fail(libc::ENOTCONN); }
    tr(|| format!("shutdown conn{c}/{side} {how}"));
    if how != libc::SHUT_RD { s().net.tcp(id).unwrap().wr_shut = true; s().net.conns[c].d[side].fin_q = true; kick(c, side); }
    if how != libc::SHUT_WR { s().net.tcp(id).unwrap().rd_shut = true; s().net.conns[c].d[1 - side].fin_d = true; }
    edge(id, IN | OUT | if how != libc::SHUT_WR { RDHUP } else { 0 });
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !mine(fd) { return unsafe { libc6(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0) } as c_int; }
    yield_point(true);
    let _g = sim_guard();
    let m = s();
    let Some(id) = m.net.fds.remove(&fd) else { return fail(libc::EBADF) };
    for o in m.net.objs.iter_mut().flatten() { if let Obj::Epoll(r) = &mut o.o { r.retain(|r| !(r.fd == fd && r.obj == id)); } }
    tr(|| format!("close fd{fd}"));
    unref(id);
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int { if !mine(fd) { return unsafe { libc6(libc::SYS_dup, fd as i64, 0, 0, 0, 0, 0) } as c_int; } let _g = sim_guard(); do_dup(fd) }
fn do_dup(fd: c_int) -> c_int { let Some(id) = sim_obj(fd) else { return fail(libc::EBADF) }; s().net.obj(id).unwrap().refs += 1; s().net.new_fd(id) }
fn nonblock_ref(id: usize) -> Option<&'static mut bool> { match &mut s().net.obj(id)?.o { Obj::Tcp(t) => Some(&mut t.nonblock), Obj::Udp(u) => Some(&mut u.nonblock), Obj::EventFd { nonblock, .. } => Some(nonblock), _ => None } }
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !mine(fd) { return unsafe { libc6(libc::SYS_fcntl, fd as i64, cmd as i64, arg as i64, 0, 0, 0) } as c_int; }
    let _g = sim_guard();
    let Some(id) = sim_obj(fd) else { return fail(libc::EBADF) };
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => do_dup(fd),
        libc::F_GETFD => libc::FD_CLOEXEC,
        libc::F_SETFD => 0,
        libc::F_GETFL => libc::O_RDWR | if nonblock_ref(id).map(|b| *b).unwrap_or(false) { libc::O_NONBLOCK } else { 0 },
        libc::F_SETFL => { if let Some(b) = nonblock_ref(id) { *b = arg as c_int & libc::O_NONBLOCK != 0; } 0 }
        _ => fail(libc::EINVAL),
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int { unsafe { do_fcntl(fd, cmd, arg) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int { unsafe { do_fcntl(fd, cmd, arg) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    if !mine(fd) { return unsafe { libc6(libc::SYS_ioctl, fd as i64, req as i64, arg as i64, 0, 0, 0) } as c_int; }
    let _g = sim_guard();
    let Some(id) = sim_obj(fd) else { return fail(libc::EBADF) };
    match req as i64 {
        x if x == libc::FIONBIO as i64 => { let v = unsafe { *(arg as *const c_int) }; if let Some(b) = nonblock_ref(id) { *b = v != 0; } 0 }
        x if x == libc::FIOCLEX as i64 => 0,
        _ => fail(libc::ENOTTY),
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn setsockopt(fd: c_int, lvl: c_int, opt: c_int, v: *const c_void, l: socklen_t) -> c_int {
    if !mine(fd) { return unsafe { libc6(libc::SYS_setsockopt, fd as i64, lvl as i64, opt as i64, v as i64, l as i64, 0) } as c_int; }
    let _g = sim_guard();
    let Some(id) = sim_obj(fd) else { return fail(libc::EBADF) };
    let e = s().net.obj(id).unwrap();
    match (lvl, opt) {
        (libc::SOL_SOCKET, libc::SO_RCVTIMEO) | (libc::SOL_SOCKET, libc::SO_SNDTIMEO) => {
            let tv = unsafe { &*(v as *const libc::timeval) };
            let ns = (tv.tv_sec as u128 * SEC as u128 + tv.tv_usec as u128 * 1000).min(u64::MAX as u128 / 4) as u64;
            match (&mut e.o, opt == libc::SO_RCVTIMEO) { (Obj::Tcp(t), true) => t.rto = ns, (Obj::Tcp(t), false) => t.sto = ns, (Obj::Udp(u), true) => u.rto = ns, _ => {} }
            tr(|| format!("setsockopt fd{fd} {} {ns}ns", if opt == libc::SO_RCVTIMEO { "RCVTIMEO" } else { "SNDTIMEO" }));
            0
        }
        (libc::SOL_UDP, _) => fail(libc::ENOPROTOOPT),
        _ => 0,
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getsockopt(fd: c_int, lvl: c_int, opt: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    if !mine(fd) { return unsafe { libc6(libc::SYS_getsockopt, fd as i64, lvl as i64, opt as i64, v as i64, l as i64, 0) } as c_int; }
    let _g = sim_guard();
    let Some(id) = sim_obj(fd) else { return fail(libc::EBADF) };
    let bufsz = s().cfg.sndbuf as c_int;
    let put = |x: c_int| unsafe { *(v as *mut c_int) = x; *l = 4; 0 };
    let puttv = |ns: u64| unsafe { (*(v as *mut libc::timeval)).tv_sec = (ns / SEC) as i64; (*(v as *mut libc::timeval)).tv_usec = ((ns % SEC) / 1000) as i64; *l = 16; 0 };
    match (lvl, opt) {
        (libc::SOL_SOCKET, libc::SO_ERROR) => {
            let mut e = s().net.tcp(id).map(|t| std::mem::take(&mut t.so_err)).unwrap_or(0);
            if e == 0 { if let Ok((c, side)) = conn_of(id) { let k = &mut s().net.conns[c]; if k.rst[side] && !k.err_taken[side] { k.err_taken[side] = true; e = libc::ECONNRESET; } } }
            put(e)
        }
        (libc::SOL_SOCKET, libc::SO_RCVTIMEO) => puttv(s().net.tcp(id).map(|t| t.rto).unwrap_or(0)),
        (libc::SOL_SOCKET, libc::SO_SNDTIMEO) => puttv(s().net.tcp(id).map(|t| t.sto).unwrap_or(0)),
        (libc::SOL_SOCKET, libc::SO_RCVBUF) | (libc::SOL_SOCKET, libc::SO_SNDBUF) => put(bufsz),
        (libc::SOL_SOCKET, libc::SO_TYPE) => { let d = s().net.udp(id).is_some(); put(if d { libc::SOCK_DGRAM } else { libc::SOCK_STREAM }) }
        _ => put(0),
    }
}
fn addrs(id: usize) -> (Option<SocketAddr>, Option<SocketAddr>, bool) {
    let m = s();
    match &m.net.objs[id].as_ref().unwrap().o {
        Obj::Tcp(t) => match &t.st { St::Conn { c, side } => (Some(m.net.conns[*c].addr[*side]), Some(m.net.conns[*c].addr[1 - *side]), t.v6), _ => (t.local, None, t.v6) },
        Obj::Udp(u) => (u.local, None, u.v6),
        _ => (None, None, false),
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if !mine(fd) { return unsafe { libc6(libc::SYS_getsockname, fd as i64, a as i64, l as i64, 0, 0, 0) } as c_int; }
    let _g = sim_guard();
    let Some(id) = sim_obj(fd) else { return fail(libc::EBADF) };
    let (x, _, v6) = addrs(id);
    let d = SocketAddr::new(if v6 { std::net::Ipv6Addr::UNSPECIFIED.into() } else { std::net::Ipv4Addr::UNSPECIFIED.into() }, 0);
    unsafe { put_addr(x.unwrap_or(d), v6, a, l); } 0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if !mine(fd) { return unsafe { libc6(libc::SYS_getpeername, fd as i64, a as i64, l as i64, 0, 0, 0) } as c_int; }
    let _g = sim_guard();
    let Some(id) = sim_obj(fd) else { return fail(libc::EBADF) };
    let (_, x, v6) = addrs(id);
    match x { Some(x) => { unsafe { put_addr(x, v6, a, l); } 0 } None => fail(libc::ENOTCONN) }
}

// ---- readiness ------------------------------------------------------------------------------------
#[unsafe(no_mangle)]
pub unsafe extern "C" fn poll(f: *mut libc::pollfd, n: libc::nfds_t, tmo: c_int) -> c_int {
    unsafe {
        let v = std::slice::from_raw_parts_mut(f, n as usize);
        if !on() || !v.iter().any(|p| p.fd >= FD_BASE) {
            if on() && n > 0 { return libc6(libc::SYS_poll, f as i64, n as i64, 0, 0, 0, 0) as c_int; }
            return libc6(libc::SYS_poll, f as i64, n as i64, tmo as i64, 0, 0, 0) as c_int;
        }
        yield_point(true);
        if roll("eintr", s().cfg.eintr_ppm) { return fail(libc::EINTR); }
        let dl = if tmo < 0 { None } else { Some(s().now + tmo as u64 * MS) };
        loop {
            let mut k = 0;
            let mut keys = Vec::new();
            { let _g = sim_guard();
            for p in v.iter_mut() {
                p.revents = 0;
                if let Some(id) = sim_obj(p.fd) { keys.push(Key::Obj(id)); let r = readiness(id); let want = p.events as u32 & 0xffff; p.revents = (r & (want | ERR | HUP)) as i16; if p.revents != 0 { k += 1; } }
            } }
            if k > 0 || tmo == 0 { return k; }
            match block(&keys, dl, "poll") { Wake::Timeout => return 0, Wake::Deadlock => return fail(libc::EINTR), _ => {} }
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn epoll_create1(fl: c_int) -> c_int {
    if !on() { return unsafe { libc6(libc::SYS_epoll_create1, fl as i64, 0, 0, 0, 0, 0) } as c_int; }
    let _g = sim_guard();
    let (p, q) = me();
    s().net.add(Obj::Epoll(Vec::new()), p, q)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, e: *mut libc::epoll_event) -> c_int {
    if !mine(ep) { return unsafe { libc6(libc::SYS_epoll_ctl, ep as i64, op as i64, fd as i64, e as i64, 0, 0) } as c_int; }
    let _g = sim_guard();
    let (Some(eid), Some(id)) = (sim_obj(ep), sim_obj(fd)) else { return fail(libc::EBADF) };
    let rd = readiness(id);
    let Some(Ent { o: Obj::Epoll(regs), .. }) = s().net.obj(eid) else { return fail(libc::EINVAL) };
    let pos = regs.iter().position(|r| r.fd == fd && r.obj == id);
    let (ev, data) = if e.is_null() { (0, 0) } else { unsafe { ((*e).events, (*e).u64) } };
    match (op, pos) {
        (libc::EPOLL_CTL_ADD, None) => regs.push(Reg { fd, obj: id, ev, data, pend: rd, disabled: false }),
        (libc::EPOLL_CTL_ADD, Some(_)) => return fail(libc::EEXIST),
        (libc::EPOLL_CTL_MOD, Some(i)) => { regs[i].ev = ev; regs[i].data = data; regs[i].pend = rd; regs[i].disabled = false; }
        (libc::EPOLL_CTL_DEL, Some(i)) => { regs.remove(i); }
        _ => return fail(libc::ENOENT),
    }
    notify(Key::Obj(eid));
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn epoll_wait(ep: c_int, out: *mut libc::epoll_event, max: c_int, tmo: c_int) -> c_int {
    if !mine(ep) { return unsafe { libc6(libc::SYS_epoll_wait, ep as i64, out as i64, max as i64, tmo as i64, 0, 0) } as c_int; }
    yield_point(true);
    let Some(eid) = sim_obj(ep) else { return fail(libc::EBADF) };
    if tmo != 0 && roll("eintr", s().cfg.eintr_ppm) { return fail(libc::EINTR); }
    let dl = if tmo < 0 { None } else { Some(s().now + tmo as u64 * MS) };
    loop {
        {
            let _g = sim_guard();
            let cand: Vec<(usize, usize, u32, u32)> = match s().net.obj(eid) { Some(Ent { o: Obj::Epoll(r), .. }) => r.iter().enumerate().filter(|(_, r)| !r.disabled).map(|(i, r)| (i, r.obj, r.ev, r.pend)).collect(), _ => return fail(libc::EBADF) };
            let mut hits: Vec<(usize, u32)> = Vec::new();
            for (i, o, ev, pend) in cand {
                let r = readiness(o) & (ev | ERR | HUP);
                if r == 0 { continue; }
                if ev & ET != 0 && pend & r == 0 { continue; }
                hits.push((i, r));
            }
            if !hits.is_empty() {
                s().rng.shuffle(&mut hits);
                let Some(Ent { o: Obj::Epoll(regs), .. }) = s().net.obj(eid) else { return fail(libc::EBADF) };
                let mut k = 0;
                for (i, r) in hits.into_iter().take(max as usize) {
                    unsafe { (*out.add(k)).events = r; (*out.add(k)).u64 = regs[i].data; }
                    regs[i].pend = 0;
                    if regs[i].ev & (1 << 30) != 0 { regs[i].disabled = true; }
                    k += 1;
                }
                hash(0xe9, k as u64);
                return k as c_int;
            }
            if tmo == 0 { return 0; }
        }
        match block(&[Key::Obj(eid)], dl, "epoll") { Wake::Timeout => return 0, Wake::Deadlock => return fail(libc::EINTR), _ => {} }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn eventfd(n: c_uint, fl: c_int) -> c_int {
    if !on() { return unsafe { libc6(libc::SYS_eventfd2, n as i64, fl as i64, 0, 0, 0, 0) } as c_int; }
    let _g = sim_guard();
    let (p, q) = me();
    s().net.add(Obj::EventFd { n: n as u64, nonblock: fl & libc::EFD_NONBLOCK != 0, sema: fl & libc::EFD_SEMAPHORE != 0 }, p, q)
}

// ---- names ------------------------------------------------------------------------------------------
/// Simulated resolver: numeric addresses, localhost, and `p<i>.sim`.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getaddrinfo(node: *const c_char, svc: *const c_char, hints: *const libc::addrinfo, res: *mut *mut libc::addrinfo) -> c_int {
    unsafe {
        if !on() { return libc::EAI_FAIL; }
        yield_point(true);
        let name = { let _g = sim_guard(); if node.is_null() { "0.0.0.0".to_string() } else { std::ffi::CStr::from_ptr(node).to_string_lossy().into_owned() } };
        let dm = s().net.dns_delay_max;
        if dm > 0 { let d = s().nrng.logu(1, dm); block(&[Key::None], Some(s().now + d), "dns"); }
        let _g = sim_guard();
        if roll("dns_error", s().cfg.dns_err_ppm) { return libc::EAI_AGAIN; }
        let ip: std::net::IpAddr = if let Ok(ip) = name.parse() { ip } else if name == "localhost" { std::net::Ipv4Addr::LOCALHOST.into() } else if let Some(h) = name.strip_prefix('p').and_then(|x| x.strip_suffix(".sim")).and_then(|x| x.parse::<usize>().ok()) { host_ip(h, false) } else { return libc::EAI_NONAME };
        let port: u16 = if svc.is_null() { 0 } else { std::ffi::CStr::from_ptr(svc).to_string_lossy().parse().unwrap_or(0) };
        let st = if hints.is_null() { libc::SOCK_STREAM } else { (*hints).ai_socktype };
        let a = libc::calloc(1, std::mem::size_of::<libc::addrinfo>() + 64) as *mut libc::addrinfo;
        let sa = (a as *mut u8).add(std::mem::size_of::<libc::addrinfo>()) as *mut sockaddr;
        let mut l: socklen_t = 64;
        put_addr(SocketAddr::new(ip, port), false, sa, &mut l);
        (*a).ai_family = if ip.is_ipv4() { libc::AF_INET } else { libc::AF_INET6 };
        (*a).ai_socktype = if st == 0 { libc::SOCK_STREAM } else { st };
        (*a).ai_addrlen = l;
        (*a).ai_addr = sa;
        *res = a;
        0
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn freeaddrinfo(a: *mut libc::addrinfo) { unsafe { libc::free(a as *mut c_void) } }
