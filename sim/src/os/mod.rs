//! The simulated operating system: one token, seeded scheduling, virtual time, virtual network.
//!
//! Every thread of the process is a real pthread, but only the holder of the token runs. All state
//! below is touched by the token holder only.
pub mod raw;
pub mod rng;
pub mod net;
pub mod calls;

use rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

pub const SHARED: usize = usize::MAX;
pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

static mut SIM: *mut Sim = std::ptr::null_mut();
/// True while a simulation owns this process.
pub static ON: AtomicBool = AtomicBool::new(false);
thread_local! { static TID: Cell<u32> = const { Cell::new(u32::MAX) }; }
static mut ALLOC_COUNTDOWN: u64 = u64::MAX;
static mut IN_SIM: bool = false;

#[inline(always)]
pub fn s() -> &'static mut Sim { unsafe { &mut *SIM } }
/// Is the calling thread one the simulator runs?
#[inline(always)]
pub fn on() -> bool { ON.load(Ordering::Relaxed) && TID.with(|t| t.get()) != u32::MAX }

#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
    /// At each yield point switch with probability ppm, to a uniformly chosen thread.
    Random { ppm: u32 },
    /// Random priorities, changed at random points (probabilistic concurrency testing).
    Pct { change_ppm: u32 },
    /// Like Random, but one party is scheduled only rarely.
    Starve { ppm: u32, party: usize },
}

/// Knobs of one simulated execution. All probabilities are in parts per million per opportunity.
#[derive(Clone, Debug)]
pub struct OsCfg {
    pub seed: u64,
    pub policy: Policy,
    pub alloc_yield: u64,
    pub lat_min: u64,
    pub lat_max: u64,
    pub sndbuf: usize,
    pub rcvbuf: usize,
    pub seg_max: usize,
    pub short_read_ppm: u32,
    pub short_write_ppm: u32,
    pub eintr_ppm: u32,
    pub spurious_ppm: u32,
    pub accept_err_ppm: u32,
    pub refuse_ppm: u32,
    pub dns_err_ppm: u32,
    pub udp_drop_ppm: u32,
    pub udp_dup_ppm: u32,
    pub udp_reorder_ppm: u32,
    pub stall_ppm: u32,
    pub stall_max: u64,
    pub clock_jump_ppm: u32,
    pub step_cost: u64,
    pub max_steps: u64,
    pub ncpu: usize,
    /// Injected-fault sequence numbers that are suppressed (minimisation).
    pub mask: BTreeSet<u64>,
    /// No faults at or after this sequence number (minimisation).
    pub fault_limit: u64,
    /// No voluntary preemption after this many (minimisation).
    pub preempt_limit: u64,
    /// Entropy seed per party; missing ones derive from `seed`.
    pub entropy: BTreeMap<usize, u64>,
    pub trace: bool,
}
impl Default for OsCfg {
    fn default() -> Self {
        OsCfg { seed: 1, policy: Policy::Random { ppm: 100_000 }, alloc_yield: 0, lat_min: 10 * US, lat_max: 500 * US,
            sndbuf: 64 << 10, rcvbuf: 64 << 10, seg_max: 16 << 10, short_read_ppm: 0, short_write_ppm: 0, eintr_ppm: 0,
            spurious_ppm: 0, accept_err_ppm: 0, refuse_ppm: 0, dns_err_ppm: 0, udp_drop_ppm: 0, udp_dup_ppm: 0, udp_reorder_ppm: 0,
            stall_ppm: 0, stall_max: 0, clock_jump_ppm: 0, step_cost: 200, max_steps: 3_000_000, ncpu: 2,
            mask: BTreeSet::new(), fault_limit: u64::MAX, preempt_limit: u64::MAX, entropy: BTreeMap::new(), trace: false }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Key { Futex(usize, u32), Obj(usize), Join(usize), Custom(u64), None }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wake { Notified, Timeout, Deadlock }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TState { Runnable, Blocked, Done }

pub struct Th {
    pub state: TState,
    pub keys: Vec<Key>,
    pub deadline: Option<u64>,
    pub wake: Wake,
    pub party: usize,
    pub proc: usize,
    pub dead: bool,
    pub park: *const AtomicU32,
    pub pthread: libc::pthread_t,
    pub prio: u64,
    pub exit_iters: u32,
    pub what: &'static str,
    /// Set while the thread is in a simulator primitive of the harness itself: must not be stopped there.
    pub shielded: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum CrashMode {
    /// The process ends; the kernel closes its sockets (pending data is still sent).
    Exit,
    /// The process ends and its connections are reset; unsent data is lost.
    Reset,
    /// Power loss: nothing is sent any more.
    Silent,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    Crash { party: usize, mode: CrashMode },
    /// All links between a and b stop carrying traffic.
    Partition { a: usize, b: usize },
    Heal { a: usize, b: usize },
    /// The party's threads are not scheduled for `ns`.
    Stall { party: usize, ns: u64 },
    /// Established TCP connections between a and b are reset.
    ResetLink { a: usize, b: usize },
    /// Wall clock jump.
    ClockJump { ns: i64 },
}
pub enum Ev { Net(net::NetEv), Fault(Fault), Wake(u64), Call(Box<dyn FnOnce()>) }

pub struct PanicRec { pub party: usize, pub thread: usize, pub msg: String }

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub threads: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub tcp_bytes: u64,
    pub udp_pkts: u64,
    pub conns: u64,
}

pub struct Sim {
    pub cfg: OsCfg,
    pub now: u64,
    pub wall_off: i64,
    pub rng: Rng,
    pub nrng: Rng,
    pub frng: Rng,
    pub ent: BTreeMap<usize, Rng>,
    pub threads: Vec<Th>,
    pub cur: usize,
    pub evs: BTreeMap<(u64, u64), Ev>,
    pub ev_seq: u64,
    pub fault_seq: u64,
    pub paused: BTreeMap<usize, u64>,
    pub dead_procs: BTreeSet<usize>,
    pub net: net::Net,
    pub stats: Stats,
    pub hash: u64,
    pub trace: Vec<String>,
    pub panics: Vec<PanicRec>,
    pub step_limit_hit: bool,
    pub deadlocks: u64,
    pub next_proc: usize,
    pub since_fair: u64,
    pub user_log: Vec<String>,
    pub faults_on: bool,
}

pub fn tr(f: impl FnOnce() -> String) {
    let m = s();
    if m.cfg.trace && m.trace.len() < 400_000 {
        let _g = guard();
        let t = m.cur; let p = m.threads[t].party;
        let pn = if p == SHARED { "-".to_string() } else { format!("P{p}") };
        let line = format!("{:>12.6}ms t{t}/{pn} {}", m.now as f64 / 1e6, f());
        m.trace.push(line);
    }
}
pub fn hash(a: u64, b: u64) { let m = s(); m.hash = (m.hash ^ a.wrapping_mul(0x9E3779B97F4A7C15) ^ b).wrapping_mul(0x100000001b3).rotate_left(23); }

/// Install the simulator in this (single-threaded, forked) process; the caller becomes thread 0.
pub fn install(cfg: OsCfg) {
    calls::init_real();
    let mut r = Rng::new(cfg.seed ^ 0x51_0AD);
    let alloc_yield = cfg.alloc_yield;
    let sim = Sim {
        rng: r.fork(), nrng: r.fork(), frng: r.fork(), ent: BTreeMap::new(), cfg, now: SEC, wall_off: 0, threads: Vec::with_capacity(1024),
        cur: 0, evs: BTreeMap::new(), ev_seq: 0, fault_seq: 0, paused: BTreeMap::new(), dead_procs: BTreeSet::new(), net: net::Net::new(),
        stats: Stats::default(), hash: 0xcbf29ce484222325, trace: Vec::new(), panics: Vec::new(), step_limit_hit: false, deadlocks: 0,
        next_proc: 1000, since_fair: 0, user_log: Vec::new(), faults_on: true,
    };
    unsafe { SIM = Box::into_raw(Box::new(sim)); }
    new_thread(SHARED, SHARED);
    s().threads[0].pthread = unsafe { libc::pthread_self() };
    TID.with(|t| t.set(0));
    unsafe { ALLOC_COUNTDOWN = if alloc_yield == 0 { u64::MAX } else { alloc_yield }; IN_SIM = false; }
    ON.store(true, Ordering::SeqCst);
    std::panic::set_hook(Box::new(|info| {
        if !on() {
            raw::write_fd(2, format!("harness panic: {info}\n").as_bytes());
            return;
        }
        let t = TID.with(|t| t.get()) as usize;
        let was = unsafe { IN_SIM };
        unsafe { IN_SIM = true; }
        let msg = format!("{info}");
        let m = s();
        let party = m.threads[t].party;
        tr(|| format!("PANIC {msg}"));
        m.panics.push(PanicRec { party, thread: t, msg });
        unsafe { IN_SIM = was; }
    }));
}
pub fn on_any() -> bool { ON.load(Ordering::Relaxed) }
pub fn uninstall() { ON.store(false, Ordering::SeqCst); }

pub fn new_thread(party: usize, proc: usize) -> usize {
    let m = s();
    let id = m.threads.len();
    let prio = m.rng.next() | 1;
    m.threads.push(Th { state: TState::Runnable, keys: vec![], deadline: None, wake: Wake::Notified, party, proc, dead: false,
        park: Box::leak(Box::new(AtomicU32::new(0))), pthread: 0, prio, exit_iters: 0, what: "new", shielded: 0 });
    m.stats.threads += 1;
    id
}
pub fn set_tid(t: usize) { TID.with(|c| c.set(t as u32)); }
pub fn park_self(t: usize) {
    let w = unsafe { &*s().threads[t].park };
    while w.load(Ordering::Acquire) == 0 {
        unsafe { raw::sys6(libc::SYS_futex, w as *const _ as i64, 128, 0, 0, 0, 0); }
    }
    w.store(0, Ordering::Relaxed);
}
fn unpark(t: usize) {
    let w = unsafe { &*s().threads[t].park };
    w.store(1, Ordering::Release);
    unsafe { raw::sys6(libc::SYS_futex, w as *const _ as i64, 129, 1, 0, 0, 0); }
}

struct Guard(bool);
fn guard() -> Guard { unsafe { let w = IN_SIM; IN_SIM = true; Guard(w) } }
impl Drop for Guard { fn drop(&mut self) { unsafe { IN_SIM = self.0 } } }

/// Is this thread schedulable?
fn ready(m: &Sim, t: usize) -> bool {
    let th = &m.threads[t];
    th.state == TState::Runnable && !th.dead && !(th.party != SHARED && m.paused.contains_key(&th.party) && th.shielded == 0)
}

fn fire_due() {
    loop {
        let m = s();
        let Some((&(t, q), _)) = m.evs.first_key_value() else { break };
        if t > m.now { break; }
        let ev = m.evs.remove(&(t, q)).unwrap();
        match ev {
            Ev::Net(e) => net::fire(e),
            Ev::Fault(f) => apply_fault(f),
            Ev::Wake(k) => { notify(Key::Custom(k)); }
            Ev::Call(f) => f(),
        }
    }
    let m = s();
    let now = m.now;
    m.paused.retain(|_, u| *u > now);
    for th in m.threads.iter_mut() {
        if th.state == TState::Blocked && !th.dead {
            if let Some(d) = th.deadline {
                if d <= now { th.state = TState::Runnable; th.wake = Wake::Timeout; th.keys.clear(); th.deadline = None; }
            }
        }
    }
}

/// Choose the thread to run next; advances virtual time when nobody is runnable.
fn pick(voluntary: bool) -> usize {
    loop {
        fire_due();
        let m = s();
        let mut ready_list: [u32; 1024] = [0; 1024];
        let mut n = 0;
        for t in 0..m.threads.len() { if ready(m, t) && n < 1024 { ready_list[n] = t as u32; n += 1; } }
        if n > 0 {
            let l = &ready_list[..n];
            let c = m.cur as u32;
            m.since_fair += 1;
            if m.since_fair > 2000 { m.since_fair = 0; return *m.rng.pick(l) as usize; }
            let limit = m.stats.preempts >= m.cfg.preempt_limit;
            if limit {
                if voluntary && l.contains(&c) { return c as usize; }
                // deterministic: next id after the current one
                return *l.iter().find(|&&t| t > c).unwrap_or(&l[0]) as usize;
            }
            return match m.cfg.policy {
                Policy::Random { .. } => *m.rng.pick(l) as usize,
                Policy::Pct { .. } => *l.iter().max_by_key(|&&t| m.threads[t as usize].prio).unwrap() as usize,
                Policy::Starve { party, .. } => {
                    let others: Vec<u32> = l.iter().copied().filter(|&t| m.threads[t as usize].party != party).collect();
                    if others.is_empty() || m.rng.chance(1, 50) { *m.rng.pick(l) as usize } else { *m.rng.pick(&others) as usize }
                }
            };
        }
        // Nobody runnable: jump to the next instant at which something can happen.
        let mut next = u64::MAX;
        if let Some((&(t, _), _)) = m.evs.first_key_value() { next = next.min(t); }
        for th in &m.threads {
            if th.state == TState::Blocked && !th.dead { if let Some(d) = th.deadline { next = next.min(d); } }
        }
        for (_, &u) in &m.paused { next = next.min(u); }
        if next == u64::MAX {
            // Deadlock: hand control to the supervisor.
            m.deadlocks += 1;
            let th = &mut m.threads[0];
            if th.state != TState::Blocked { raw::write_fd(2, b"sim: no runnable thread and no supervisor\n"); raw::exit_group(86); }
            th.state = TState::Runnable; th.wake = Wake::Deadlock; th.keys.clear(); th.deadline = None;
            return 0;
        }
        m.now = m.now.max(next);
    }
}

fn switch_to(next: usize) {
    let me = s().cur;
    hash(next as u64, s().now);
    tr(|| format!("SW t{me}->t{next} steps {} cd {}", s().stats.steps, unsafe { ALLOC_COUNTDOWN }));
    if next == me { return; }
    s().stats.switches += 1;
    s().cur = next;
    unpark(next);
    park_self(me);
    unsafe { IN_SIM = true; }
    if s().threads[me].dead { freeze(); }
}
/// First thing a new thread does once it holds the token.
pub fn thread_begin(t: usize) { park_self(t); unsafe { IN_SIM = false; } if s().threads[t].dead { freeze(); } }
pub fn mark_in_sim() { unsafe { IN_SIM = true; } }
pub fn sim_guard() -> SimGuard { SimGuard { _g: guard() } }
/// While it lives, no allocation of the harness is a scheduling point.
pub struct SimGuard { _g: Guard }

/// The calling thread belongs to a crashed process: never runs again.
fn freeze() -> ! {
    loop { let w = AtomicU32::new(0); unsafe { raw::sys6(libc::SYS_futex, &w as *const _ as i64, 128, 0, 0, 0, 0); } }
}

fn step_tick(cost: u64) {
    let m = s();
    m.stats.steps += 1;
    m.now += cost;
    if m.stats.steps > m.cfg.max_steps && !m.step_limit_hit {
        m.step_limit_hit = true;
        tr(|| "STEP LIMIT".into());
        // Only the supervisor may continue.
        for t in 1..m.threads.len() { m.threads[t].dead = true; }
        let th = &mut m.threads[0];
        if th.state == TState::Blocked { th.state = TState::Runnable; th.wake = Wake::Deadlock; th.keys.clear(); th.deadline = None; }
        let me = m.cur;
        if me != 0 { m.cur = 0; unpark(0); freeze(); }
    }
}

/// A point at which the running thread may be preempted. `safe`: the thread may also be stopped here for good.
pub fn yield_point(safe: bool) {
    if unsafe { IN_SIM } { return; }
    let _g = guard();
    step_tick(s().cfg.step_cost);
    if safe { die_if_doomed(); }
    let m = s();
    if safe && m.cfg.stall_ppm > 0 && m.faults_on {
        let p = m.threads[m.cur].party;
        if p != SHARED && m.frng.ppm(m.cfg.stall_ppm) {
            let d = m.frng.logu(1000, m.cfg.stall_max);
            if take_fault("stall") { let until = m.now + d; m.paused.insert(p, until); tr(|| format!("stalled for {}us", d / 1000)); }
        }
    }
    let pre = match m.cfg.policy { Policy::Random { ppm } | Policy::Starve { ppm, .. } => m.rng.ppm(ppm), Policy::Pct { change_ppm } => {
        if m.rng.ppm(change_ppm) { let p = m.rng.next() >> 1; let c = m.cur; m.threads[c].prio = p; } true } };
    let due = m.evs.first_key_value().map(|(k, _)| k.0 <= m.now).unwrap_or(false);
    if due { fire_due(); }
    let limited = m.stats.preempts >= m.cfg.preempt_limit;
    let paused = !ready(m, m.cur);
    if paused || (pre && !limited) {
        let n = pick(true);
        if n != s().cur { s().stats.preempts += 1; }
        switch_to(n);
    } else { hash(0x77, m.now); }
    // the process may have crashed meanwhile
    if safe { die_if_doomed(); }
}
/// Give way explicitly (sched_yield).
pub fn yield_now() {
    if unsafe { IN_SIM } { return; }
    let _g = guard();
    step_tick(s().cfg.step_cost * 4);
    let m = s();
    let c = m.cur;
    m.threads[c].prio &= 0xffff;
    // Prefer somebody else.
    fire_due();
    let l: Vec<usize> = (0..m.threads.len()).filter(|&t| t != c && ready(m, t)).collect();
    if l.is_empty() {
        // a spinning thread alone: let time pass so that timers can fire
        m.now += 2 * US;
        fire_due();
        if !ready(s(), c) { let n = pick(true); switch_to(n); }
        return;
    }
    let n = *m.rng.pick(&l);
    switch_to(n);
}

/// Block the calling thread on any of `keys` or until `deadline` (virtual ns).
pub fn block(keys: &[Key], deadline: Option<u64>, what: &'static str) -> Wake {
    let _g = guard();
    step_tick(s().cfg.step_cost);
    die_if_doomed();
    let m = s();
    let c = m.cur;
    {
        let th = &mut m.threads[c];
        th.keys.clear();
        th.keys.extend_from_slice(keys);
        th.deadline = deadline;
        th.state = TState::Blocked;
        th.wake = Wake::Notified;
        th.what = what;
    }
    hash(0x99, m.now);
    let n = pick(false);
    switch_to(n);
    let m = s();
    let th = &mut m.threads[c];
    th.what = "run";
    th.wake
}

pub fn notify(k: Key) -> usize {
    let mut n = 0;
    for th in s().threads.iter_mut() {
        if th.state == TState::Blocked && th.keys.contains(&k) {
            th.state = TState::Runnable; th.wake = Wake::Notified; th.keys.clear(); th.deadline = None; n += 1;
        }
    }
    n
}
/// Wake up to `max` waiters of a futex, in seeded order.
pub fn futex_wake(addr: usize, max: u32, bits: u32) -> usize {
    let m = s();
    let mut w: Vec<usize> = (0..m.threads.len()).filter(|&t| !m.threads[t].dead && m.threads[t].state == TState::Blocked
        && m.threads[t].keys.iter().any(|k| matches!(k, Key::Futex(a, b) if *a == addr && b & bits != 0))).collect();
    if w.len() > 1 { m.rng.shuffle(&mut w); }
    w.truncate(max as usize);
    for &t in &w { let th = &mut m.threads[t]; th.state = TState::Runnable; th.wake = Wake::Notified; th.keys.clear(); th.deadline = None; }
    w.len()
}

pub fn die_if_doomed() {
    let m = s();
    let c = m.cur;
    let th = &m.threads[c];
    if th.party != SHARED && th.shielded == 0 && m.dead_procs.contains(&th.proc) {
        m.threads[c].dead = true;
        tr(|| "stopped (process crashed)".into());
        let n = pick(false);
        s().cur = n;
        s().stats.switches += 1;
        hash(n as u64, s().now);
        unpark(n);
        freeze();
    }
}

/// The thread ended; hand the token on without waiting for it again.
pub fn thread_exit(t: usize) {
    let _g = guard();
    let m = s();
    m.threads[t].state = TState::Done;
    notify(Key::Join(t));
    step_tick(s().cfg.step_cost);
    let n = pick(false);
    hash(n as u64, s().now);
    s().cur = n;
    s().stats.switches += 1;
    unpark(n);
    // The thread stays parked for good: a real exit would run beside the token holder and make addresses depend on timing.
    freeze();
}

pub fn at(t: u64, ev: Ev) { let _g = guard(); let m = s(); m.ev_seq += 1; let q = m.ev_seq; m.evs.insert((t.max(m.now), q), ev); }

/// Count one injected fault; false if minimisation suppresses it.
pub fn take_fault(kind: &'static str) -> bool {
    let _g = guard();
    let m = s();
    if !m.faults_on { return false; }
    let i = m.fault_seq;
    m.fault_seq += 1;
    if i >= m.cfg.fault_limit || m.cfg.mask.contains(&i) { return false; }
    *m.stats.faults.entry(kind).or_insert(0) += 1;
    hash(0xfa17, i);
    tr(|| format!("FAULT #{i} {kind}"));
    true
}
/// Roll for a probabilistic fault.
pub fn roll(kind: &'static str, ppm: u32) -> bool {
    if ppm == 0 || !s().faults_on { return false; }
    if s().frng.ppm(ppm) { take_fault(kind) } else { false }
}

pub fn apply_fault(f: Fault) {
    let kind = match &f {
        Fault::Crash { mode: CrashMode::Exit, .. } => "crash_exit", Fault::Crash { mode: CrashMode::Reset, .. } => "crash_reset",
        Fault::Crash { mode: CrashMode::Silent, .. } => "crash_silent", Fault::Partition { .. } => "partition", Fault::Heal { .. } => "heal",
        Fault::Stall { .. } => "stall", Fault::ResetLink { .. } => "reset_link", Fault::ClockJump { .. } => "clock_jump" };
    if !take_fault(kind) { return; }
    tr(|| format!("{f:?}"));
    match f {
        Fault::Crash { party, mode } => crash(party, mode),
        Fault::Partition { a, b } => { s().net.blocked.insert((a.min(b), a.max(b))); }
        Fault::Heal { a, b } => net::heal(a, b),
        Fault::Stall { party, ns } => { let u = s().now + ns; s().paused.insert(party, u); }
        Fault::ResetLink { a, b } => net::reset_link(a, b),
        Fault::ClockJump { ns } => { s().wall_off += ns; }
    }
}
/// Stop every thread of the party's current processes and treat its sockets as `mode` says.
pub fn crash(party: usize, mode: CrashMode) {
    let m = s();
    let procs: BTreeSet<usize> = m.threads.iter().filter(|t| t.party == party).map(|t| t.proc).collect();
    m.dead_procs.extend(procs);
    for t in 0..m.threads.len() {
        let th = &mut m.threads[t];
        if th.party == party && th.state == TState::Blocked && th.shielded == 0 { th.dead = true; }
    }
    m.paused.remove(&party);
    net::crash_host(party, mode);
}

/// Allocation hook: a preemption point inside otherwise syscall-free code.
#[inline(always)]
pub fn alloc_point() {
    if !ON.load(Ordering::Relaxed) { return; }
    unsafe {
        if IN_SIM { return; }
        if ALLOC_COUNTDOWN == u64::MAX { return; }
        if ALLOC_COUNTDOWN > 0 { ALLOC_COUNTDOWN -= 1; return; }
    }
    if !on() { return; }
    alloc_yield_slow();
}
#[cold]
fn alloc_yield_slow() {
    let m = s();
    let y = m.cfg.alloc_yield;
    unsafe { ALLOC_COUNTDOWN = m.rng.range(1, 2 * y); }
    if std::thread::panicking() { return; }
    let _g = guard();
    step_tick(s().cfg.step_cost);
    let m = s();
    if m.stats.preempts >= m.cfg.preempt_limit { return; }
    let n = pick(true);
    if n != s().cur { s().stats.preempts += 1; }
    switch_to(n);
}

// ---- services for scenarios -------------------------------------------------------------------

pub fn now() -> u64 { s().now }
pub fn cur_party() -> usize { s().threads[s().cur].party }
/// Spawn a thread that belongs to `party`, as a new process of it if `new_proc`.
pub fn spawn<F: FnOnce() + Send + 'static>(party: usize, new_proc: bool, f: F) -> std::thread::JoinHandle<()> {
    let m = s();
    let c = m.cur;
    let (op, oq) = (m.threads[c].party, m.threads[c].proc);
    let pr = if new_proc { m.next_proc += 1; m.next_proc } else { oq };
    m.threads[c].party = party;
    m.threads[c].proc = pr;
    m.threads[c].shielded += 1;
    let h = std::thread::spawn(f);
    let m = s();
    m.threads[c].party = op;
    m.threads[c].proc = oq;
    m.threads[c].shielded -= 1;
    h
}
/// Wait on a harness condition; wakes on `notify(Key::Custom(k))`.
pub fn wait_custom(k: u64, deadline: u64, mut cond: impl FnMut() -> bool) -> bool {
    loop {
        if cond() { return true; }
        if now() >= deadline { return false; }
        match block(&[Key::Custom(k)], Some(deadline), "custom") {
            Wake::Deadlock => return cond(),
            _ => {}
        }
    }
}
pub fn sleep(ns: u64) { let d = now() + ns; block(&[Key::None], Some(d), "sleep"); }
pub fn proc_of_cur() -> usize { s().threads[s().cur].proc }
/// Live threads of a party.
pub fn live_threads(party: usize) -> Vec<(usize, &'static str)> {
    s().threads.iter().enumerate().filter(|(_, t)| t.party == party && t.state != TState::Done && !t.dead).map(|(i, t)| (i, t.what)).collect()
}
pub fn describe_threads() -> String {
    let mut o = String::new();
    for (i, t) in s().threads.iter().enumerate() {
        if t.state != TState::Done && !t.dead {
            o += &format!("t{i}/{} {:?} {} {:?}; ", if t.party == SHARED { "-".into() } else { format!("P{}", t.party) }, t.state, t.what, t.keys);
        }
    }
    o
}
