//! Running simulations: one forked child per execution, search, minimisation, replay, evidence.
use crate::os::{self, raw, rng::Rng, OsCfg, Policy};
use crate::scn;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub type Res<T> = Result<T, String>;

/// Everything one execution depends on: named integers.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Cfg { pub v: BTreeMap<String, i64>, pub mask: BTreeSet<u64> }
impl Cfg {
    pub fn get(&self, k: &str) -> i64 { match self.v.get(k) { Some(x) => *x, None => panic!("missing parameter {k}") } }
    pub fn or(&self, k: &str, d: i64) -> i64 { self.v.get(k).copied().unwrap_or(d) }
    pub fn us(&self, k: &str) -> usize { self.get(k).max(0) as usize }
    pub fn on(&self, k: &str) -> bool { self.or(k, 0) != 0 }
    pub fn set(&mut self, k: &str, x: i64) -> &mut Self { self.v.insert(k.to_string(), x); self }
    pub fn json(&self) -> Value { json!({"params": self.v, "mask": self.mask}) }
    pub fn parse(j: &Value) -> Cfg {
        Cfg { v: j["params"].as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_i64().unwrap_or(0))).collect()).unwrap_or_default(),
            mask: j["mask"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default() }
    }
    pub fn os(&self) -> OsCfg {
        let d = OsCfg::default();
        let p = |k: &str| self.or(k, 0) as u32;
        OsCfg {
            seed: self.get("seed") as u64,
            policy: match self.or("policy", 0) { 0 => Policy::Random { ppm: self.or("switch_ppm", 100_000) as u32 }, 1 => Policy::Pct { change_ppm: self.or("switch_ppm", 20_000) as u32 }, _ => Policy::Starve { ppm: self.or("switch_ppm", 100_000) as u32, party: self.or("starve", 0) as usize } },
            alloc_yield: self.or("alloc_yield", 0) as u64,
            lat_min: self.or("lat_min_us", 10) as u64 * os::US, lat_max: self.or("lat_max_us", 500) as u64 * os::US,
            sndbuf: self.or("sndbuf", 65536) as usize, rcvbuf: self.or("rcvbuf", 65536) as usize, seg_max: self.or("seg_max", 16384) as usize,
            short_read_ppm: p("short_read"), short_write_ppm: p("short_write"), eintr_ppm: p("eintr"), spurious_ppm: p("spurious"), accept_err_ppm: p("accept_err"),
            refuse_ppm: p("refuse"), dns_err_ppm: p("dns_err"), udp_drop_ppm: p("udp_drop"), udp_dup_ppm: p("udp_dup"), udp_reorder_ppm: p("udp_reorder"),
            stall_ppm: p("stall"), stall_max: self.or("stall_max_us", 0) as u64 * os::US, clock_jump_ppm: p("clock_jump"),
            step_cost: self.or("step_ns", d.step_cost as i64) as u64, max_steps: self.or("max_steps", d.max_steps as i64) as u64, ncpu: self.or("ncpu", 2) as usize,
            mask: self.mask.clone(), fault_limit: self.or("fault_limit", i64::MAX) as u64, preempt_limit: self.or("preempt_limit", i64::MAX) as u64,
            entropy: self.v.iter().filter_map(|(k, v)| k.strip_prefix("entropy").and_then(|x| x.parse().ok()).map(|p: usize| (p, *v as u64))).collect(), trace: self.on("trace"),
        }
    }
}

/// Result of one execution.
#[derive(Clone, Debug, Default)]
pub struct Out { pub viol: Vec<(String, String, String)>, pub j: Value, pub crashed: Option<String> }
impl Out {
    pub fn hash(&self) -> String { self.j["hash"].as_str().unwrap_or("-").to_string() }
    pub fn find(&self, prop: &str, known: &[Known]) -> Option<&(String, String, String)> { self.viol.iter().find(|v| v.0 == prop && !is_known(known, v)) }
}

/// Re-execute without address randomisation and with a fixed environment, so that layout is the same in every process.
pub fn stabilise() {
    unsafe {
        if std::env::var_os("DST_STABLE").is_none() {
            let p = libc::personality(0xffff_ffff);
            if p >= 0 { libc::personality((p | 0x0040000) as libc::c_ulong); }
            let exe = std::ffi::CString::new("/proc/self/exe").unwrap();
            let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
            let mut argv: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
            argv.push(std::ptr::null());
            let mut env: Vec<std::ffi::CString> = ["DST_STABLE=1", "TOKIO_WORKER_THREADS=2", "RUST_BACKTRACE=0", "RUST_LIB_BACKTRACE=0", "PATH=/usr/bin:/bin"].iter().map(|s| std::ffi::CString::new(*s).unwrap()).collect();
            for k in ["RAYON_NUM_THREADS", "VERIF_SEED", "VERIF_TIER"] { if let Ok(v) = std::env::var(k) { env.push(std::ffi::CString::new(format!("{k}={v}")).unwrap()); } }
            let mut envp: Vec<*const libc::c_char> = env.iter().map(|a| a.as_ptr()).collect();
            envp.push(std::ptr::null());
            let target = std::fs::read_link("/proc/self/exe").ok().and_then(|p| std::ffi::CString::new(p.to_string_lossy().as_bytes()).ok()).unwrap_or(exe);
            libc::execve(target.as_ptr(), argv.as_ptr(), envp.as_ptr());
            std::env::set_var("DST_STABLE", "0");
        }
    }
}

fn pipe() -> (i32, i32) { let mut p = [0i32; 2]; unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC); } (p[0], p[1]) }

static CRASH_FD: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
/// Reports where the process aborted (addresses relative to the executable's image) and ends it.
extern "C" fn on_fatal(sig: libc::c_int) {
    let mut a = [std::ptr::null_mut::<libc::c_void>(); 48];
    let n = unsafe { os::mark_in_sim(); libc::backtrace(a.as_mut_ptr(), 48) };
    let mut b = [0u8; 2048];
    let mut w = std::io::Cursor::new(&mut b[..]);
    use std::io::Write;
    let _ = write!(w, "CRASH signal {sig} at");
    for x in &a[..n as usize] { let _ = write!(w, " {:x}", (*x as usize).wrapping_sub(0x5555_5555_4000)); }
    if os::on_any() { for p in os::s().panics.iter().rev().take(3) { let _ = write!(w, " | {}", &p.msg[..p.msg.len().min(300)]); } }
    let l = w.position() as usize;
    raw::write_fd(CRASH_FD.load(std::sync::atomic::Ordering::Relaxed), &b[..l]);
    raw::exit_group(200);
}
fn catch_fatal(fd: i32) {
    CRASH_FD.store(fd, std::sync::atomic::Ordering::Relaxed);
    unsafe {
        let mut a = [std::ptr::null_mut::<libc::c_void>(); 4];
        libc::backtrace(a.as_mut_ptr(), 4); // loads the unwinder now
        for s in [libc::SIGILL, libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_fatal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}

/// In the child: run the scenario and write the result to `fd`. Never returns.
fn child(name: &str, cfg: &Cfg, fd: i32) -> ! {
    catch_fatal(fd);
    let sc = scn::find(name).expect("scenario");
    // Allocations of scenario threads are scheduling points in some runs, so the tree must have one canonical shape.
    let mut c2 = cfg.clone();
    c2.mask = cfg.mask.iter().copied().collect();
    c2.v = cfg.v.iter().map(|(k, v)| (k.clone(), *v)).collect();
    os::install(c2.os());
    let done: &'static std::sync::atomic::AtomicBool = Box::leak(Box::new(std::sync::atomic::AtomicBool::new(false)));
    let h = os::spawn(os::SHARED, true, move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sc.run)(&c2)));
        if r.is_err() { let m = os::s().panics.iter().rev().map(|p| p.msg.clone()).next().unwrap_or_default(); scn::viol("HARNESS", "panic", format!("scenario driver panicked: {m}")); }
        done.store(true, std::sync::atomic::Ordering::SeqCst);
        os::notify(os::Key::Custom(u64::MAX));
    });
    let mut dead = false;
    while !done.load(std::sync::atomic::Ordering::SeqCst) {
        if os::block(&[os::Key::Custom(u64::MAX)], None, "supervise") == os::Wake::Deadlock { dead = !done.load(std::sync::atomic::Ordering::SeqCst); break; }
    }
    std::mem::forget(h);
    let _g = os::sim_guard();
    let m = os::s();
    if dead && !m.step_limit_hit { scn::viol("HARNESS", "deadlock", format!("driver never finished: {}", os::describe_threads())); }
    let j = json!({
        "viol": scn::take_viols(), "hash": format!("{:016x}", m.hash), "steps": m.stats.steps, "switches": m.stats.switches, "preempts": m.stats.preempts,
        "threads": m.stats.threads, "now": m.now - os::SEC, "faults": m.stats.faults, "tcp_bytes": m.stats.tcp_bytes, "udp": m.stats.udp_pkts, "conns": m.stats.conns,
        "nfaults": m.fault_seq, "limit": m.step_limit_hit, "feat": scn::take_feats(), "panics": m.panics.iter().map(|p| p.msg.clone()).take(5).collect::<Vec<_>>(),
        "trace": if m.cfg.trace { json!(m.trace) } else { json!(null) }, "log": m.user_log, "data": scn::take_data(),
    });
    os::uninstall();
    raw::write_fd(fd, j.to_string().as_bytes());
    raw::exit_group(0)
}

struct Job { pid: i32, fd: i32, buf: Vec<u8>, start: std::time::Duration, tag: usize, name: String, cfg: Cfg }
fn start(name: &str, cfg: &Cfg, tag: usize) -> Job {
    let (r, w) = pipe();
    let pid = unsafe { libc::fork() };
    if pid == 0 { unsafe { libc::close(r); let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 }; libc::setrlimit(libc::RLIMIT_CORE, &l); libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); } child(name, cfg, w); }
    unsafe { libc::close(w); }
    Job { pid, fd: r, buf: Vec::new(), start: raw::real_now(), tag, name: name.into(), cfg: cfg.clone() }
}
fn finish(j: Job, timed_out: bool) -> Out {
    unsafe { if timed_out { libc::kill(j.pid, libc::SIGKILL); } libc::close(j.fd); }
    let mut st = 0;
    unsafe { while libc::waitpid(j.pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {} }
    let mut o = Out::default();
    match serde_json::from_slice::<Value>(&j.buf) {
        Ok(v) if !timed_out => {
            o.viol = v["viol"].as_array().map(|a| a.iter().map(|x| (x[0].as_str().unwrap_or("").into(), x[1].as_str().unwrap_or("").into(), x[2].as_str().unwrap_or("").into())).collect()).unwrap_or_default();
            o.j = v;
        }
        _ => {
            let why = if timed_out { "wall-clock limit".to_string() } else if libc::WIFSIGNALED(st) { format!("killed by signal {}", libc::WTERMSIG(st)) } else { format!("exit status {}", libc::WEXITSTATUS(st)) };
            let why = if j.buf.starts_with(b"CRASH") { String::from_utf8_lossy(&j.buf).to_string() } else { why };
            // An abort of the code under test (double panic, stack overflow, abort()) is deterministic and visible here.
            o.crashed = Some(why);
        }
    }
    o
}
/// Run jobs from `next` on `par` processes until it gives none; hand each result to `got` (return false to stop).
pub fn pool(par: usize, wall: f64, mut next: impl FnMut() -> Option<(String, Cfg, usize)>, mut got: impl FnMut(&str, &Cfg, usize, Out) -> bool) {
    let mut live: Vec<Job> = Vec::new();
    let mut open = true;
    loop {
        while open && live.len() < par { match next() { Some((n, c, t)) => live.push(start(&n, &c, t)), None => open = false } }
        if live.is_empty() { return; }
        let mut p: Vec<libc::pollfd> = live.iter().map(|j| libc::pollfd { fd: j.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(p.as_mut_ptr(), p.len() as u64, 200); }
        let now = raw::real_now();
        let mut i = 0;
        let mut rev: Vec<i16> = p.iter().map(|x| x.revents).collect();
        while i < live.len() {
            let mut end = false;
            if rev[i] != 0 {
                let mut b = [0u8; 65536];
                let n = unsafe { raw::sys6(libc::SYS_read, live[i].fd as i64, b.as_mut_ptr() as i64, b.len() as i64, 0, 0, 0) };
                if n > 0 { live[i].buf.extend_from_slice(&b[..n as usize]); } else if n != -(libc::EINTR as i64) { end = true; }
            }
            let late = (now - live[i].start).as_secs_f64() > wall;
            if end || late {
                let j = live.swap_remove(i);
                rev.swap_remove(i);
                let (n, c, t) = (j.name.clone(), j.cfg.clone(), j.tag);
                let o = finish(j, late && !end);
                if !got(&n, &c, t, o) { open = false; for j in live.drain(..) { finish(j, true); } return; }
            } else { i += 1; }
        }
    }
}
pub fn one(name: &str, cfg: &Cfg, wall: f64) -> Out {
    let mut r = None;
    let mut todo = Some((name.to_string(), cfg.clone(), 0));
    pool(1, wall, || todo.take(), |_, _, _, o| { r = Some(o); true });
    r.unwrap()
}

// ---- known findings -----------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Known { pub property: String, pub kind: String, pub contains: String, pub text: String }
pub fn is_known(k: &[Known], v: &(String, String, String)) -> bool { k.iter().any(|k| k.property == v.0 && k.kind == v.1 && v.2.contains(&k.contains)) }
fn load_known(root: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    // "finding: property=<id> kind=<kind> contains=<substring> | <text>"; "fixed:" lines suppress nothing.
    t.lines().filter_map(|l| l.strip_prefix("finding: ")).filter_map(|l| {
        let (h, text) = l.split_once(" | ")?;
        let f = |k: &str, h: &str| -> Option<String> { let i = h.find(&format!("{k}="))? + k.len() + 1; Some(h[i..].to_string()) };
        let property = f("property", h)?.split(' ').next()?.to_string();
        let kind = f("kind", h)?.split(' ').next()?.to_string();
        let contains = f("contains", h).unwrap_or_default().trim_matches('"').to_string();
        Some(Known { property, kind, contains, text: text.to_string() })
    }).collect()
}

// ---- minimisation ---------------------------------------------------------------------------------------
/// Shrink a failing configuration while the same kind of violation of the same property persists.
pub fn minimise(name: &str, cfg: &Cfg, prop: &str, kind: &str, known: &[Known], secs: f64, wall: f64, par: usize) -> (Cfg, u64) {
    let t0 = raw::real_now();
    let sc = scn::find(name).unwrap();
    let mut best = cfg.clone();
    let mut runs = 0u64;
    let left = || secs - (raw::real_now() - t0).as_secs_f64();
    let fails = |o: &Out| o.viol.iter().any(|v| v.0 == prop && v.1 == kind && !is_known(known, v)) || (kind == "abort" && o.crashed.is_some());
    // Tries the candidates in parallel and keeps the first (in order) that still fails.
    let mut try_ = |cands: Vec<Cfg>, runs: &mut u64| -> Option<Cfg> {
        let mut hit: Option<usize> = None;
        let mut it = cands.iter().cloned().enumerate().collect::<std::collections::VecDeque<_>>();
        pool(par, wall, || { it.pop_front().map(|(i, c)| (name.to_string(), c, i)) }, |_, _, t, o| { *runs += 1; if fails(&o) { hit = Some(hit.map_or(t, |h| h.min(t))); return false; } true });
        hit.map(|i| cands[i].clone())
    };
    for _round in 0..4 {
        let before = best.clone();
        // 1. every knob towards its simplest value
        let keys: Vec<String> = best.v.keys().cloned().collect();
        for k in keys {
            if k == "seed" || k == "trace" || k.starts_with("entropy") || left() < 0.0 { continue; }
            let Some(&simple) = sc.simple.iter().find(|s| s.0 == k).map(|s| &s.1).or(if KNOB_ZERO.contains(&k.as_str()) { Some(&0) } else { None }) else { continue };
            loop {
                let cur = best.get(&k);
                if cur == simple || left() < 0.0 { break; }
                let mut c = Vec::new();
                for x in [simple, simple + (cur - simple) / 2, cur - (cur - simple).signum()] { if x != cur { let mut b = best.clone(); b.set(&k, x); c.push(b); } }
                match try_(c, &mut runs) { Some(b) => best = b, None => break }
            }
        }
        // 2. fewer preemptions, fewer faults (binary search on the prefix, then one by one)
        for lim in ["preempt_limit", "fault_limit"] {
            if left() < 0.0 { break; }
            let o = one(name, &best, wall); runs += 1;
            let (mut lo, mut hi) = (0i64, best.or(lim, i64::MAX).min(o.j[if lim == "preempt_limit" { "preempts" } else { "nfaults" }].as_i64().unwrap_or(0)));
            while lo < hi && left() > 0.0 {
                let mid = lo + (hi - lo) / 2;
                let mut b = best.clone(); b.set(lim, mid);
                if try_(vec![b.clone()], &mut runs).is_some() { best = b; hi = mid; } else { lo = mid + 1; }
            }
        }
        let n = best.or("fault_limit", i64::MAX).min(one(name, &best, wall).j["nfaults"].as_i64().unwrap_or(0)).min(400) as u64;
        let mut chunk = (n / 2).max(1);
        while n > 0 && left() > 0.0 {
            let mut i = 0;
            while i < n && left() > 0.0 {
                let add: Vec<u64> = (i..(i + chunk).min(n)).filter(|x| !best.mask.contains(x)).collect();
                if !add.is_empty() { let mut b = best.clone(); b.mask.extend(add); if let Some(b) = try_(vec![b], &mut runs) { best = b; } }
                i += chunk;
            }
            if chunk == 1 { break; }
            chunk /= 2;
        }
        if best == before || left() < 0.0 { break; }
    }
    (best, runs)
}
const KNOB_ZERO: &[&str] = &["short_read", "short_write", "eintr", "spurious", "accept_err", "refuse", "dns_err", "udp_drop", "udp_dup", "udp_reorder", "stall", "stall_max_us", "clock_jump", "alloc_yield", "policy"];

// ---- command line -----------------------------------------------------------------------------------------
fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned() }
pub fn cli(a: &[String]) -> i32 {
    let root = arg(a, "--root").unwrap_or("/verif".into());
    let par = arg(a, "--par").and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4));
    match a.first().map(|s| s.as_str()) {
        Some("check") => { scn::prepare(); check(a, &root, par) }
        Some("replay") => { scn::prepare(); replay(&a[1], &root, a.iter().any(|x| x == "--trace")) }
        Some("run") => { scn::prepare(); debug_run(a) }
        Some("det") => { scn::prepare(); det(a, par) }
        Some("list") => { for s in scn::all() { println!("{} {:?}", s.name, s.props); } 0 }
        _ => { eprintln!("usage: dst check --property ID --tier quick|thorough [--seed N] [--secs N] | replay FILE | run SCENARIO SEED [--trace] [k=v..] | det | list"); 2 }
    }
}
pub fn gen_cfg(sc: &scn::Scn, prop: &str, seed: u64, i: u64) -> Cfg {
    let s = os::rng::mix(os::rng::mix(seed, i), sc.name.bytes().fold(7u64, |h, b| os::rng::mix(h, b as u64)));
    let mut r = Rng::new(s);
    let mut c = Cfg::default();
    c.set("seed", (r.next() >> 16) as i64);
    (sc.make)(&mut r, prop, i, &mut c);
    c
}
fn debug_run(a: &[String]) -> i32 {
    let sc = scn::find(&a[1]).expect("scenario");
    let n: u64 = a[2].parse().unwrap();
    let prop = arg(a, "--property").unwrap_or(sc.props[0].into());
    let mut c = gen_cfg(sc, &prop, arg(a, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1), n);
    let tr = a.iter().any(|x| x == "--trace");
    if tr { c.set("trace", 1); }
    for x in &a[3..] { if let Some((k, v)) = x.split_once('=') { c.set(k, v.parse().unwrap()); } }
    println!("cfg {}", c.json());
    let t = raw::real_now();
    let o = one(sc.name, &c, arg(a, "--wall").and_then(|x| x.parse().ok()).unwrap_or(120.0));
    if let Some(t) = o.j["trace"].as_array() { for l in t { println!("{}", l.as_str().unwrap_or("")); } }
    let mut j = o.j.clone();
    if let Some(m) = j.as_object_mut() { m.remove("trace"); }
    println!("{j}\ncrashed {:?} wall {:.3}s", o.crashed, (raw::real_now() - t).as_secs_f64());
    for v in &o.viol { println!("VIOL {v:?}"); }
    0
}
/// Same seeds twice, in different processes and at different parallelism: hashes must agree.
fn det(a: &[String], par: usize) -> i32 {
    let n: u64 = arg(a, "--n").and_then(|x| x.parse().ok()).unwrap_or(8);
    let only = arg(a, "--scenario");
    let mut bad = 0;
    for sc in scn::all() {
        if only.as_deref().map(|o| o != sc.name).unwrap_or(false) { continue; }
        let cfgs: Vec<Cfg> = (0..n).map(|i| gen_cfg(sc, sc.props[(i as usize) % sc.props.len()], 77, i)).collect();
        let mut h: Vec<Vec<String>> = vec![vec![]; n as usize];
        for p in [par, 2] {
            let mut it = 0..n as usize;
            let cf = &cfgs;
            pool(p, 300.0, || it.next().map(|i| (sc.name.to_string(), cf[i].clone(), i)), |_, _, t, o| { h[t].push(if let Some(c) = o.crashed { format!("crash {c}") } else { o.hash() + &o.j["now"].to_string() }); true });
        }
        let k = h.iter().enumerate().filter(|(_, v)| v[0] != v[1]).map(|(i, _)| i).collect::<Vec<_>>();
        println!("{}: {} of {n} differ {:?} crashes {}", sc.name, k.len(), k, h.iter().flatten().filter(|x| x.starts_with("crash")).count());
        bad += k.len();
    }
    if bad > 0 { 1 } else { 0 }
}

fn check(a: &[String], root: &str, par: usize) -> i32 {
    let prop = arg(a, "--property").expect("--property");
    let tier = arg(a, "--tier").unwrap_or("quick".into());
    let seed: u64 = arg(a, "--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|x| x.parse().ok()).unwrap_or(1);
    let secs: f64 = arg(a, "--secs").and_then(|x| x.parse().ok()).unwrap_or(if tier == "quick" { 40.0 } else { 1200.0 });
    let wall = if tier == "quick" { 120.0 } else { 300.0 };
    let known = load_known(root);
    let scs: Vec<&'static scn::Scn> = scn::all().iter().filter(|s| s.props.contains(&prop.as_str())).collect();
    if scs.is_empty() { eprintln!("no scenario decides {prop}"); return 2; }
    let t0 = raw::real_now();
    let mut agg = Agg::default();
    let mut first: Option<(String, Cfg, (String, String, String))> = None;
    let mut known_seen: BTreeMap<usize, u64> = BTreeMap::new();
    let mut harness: Vec<String> = vec![];
    let mut i = 0u64;
    // Scenarios take turns according to weight; the mapping from index to configuration depends on the seed only.
    let order: Vec<&'static scn::Scn> = scs.iter().flat_map(|s| std::iter::repeat_n(*s, s.weight as usize)).collect();
    {
        let (agg, first, harness, known_seen) = (&mut agg, &mut first, &mut harness, &mut known_seen);
        let (order2, prop2, known2) = (&order, &prop, &known);
        pool(par, wall, || {
            if (raw::real_now() - t0).as_secs_f64() > secs { return None; }
            let sc = order2[(i as usize) % order2.len()];
            let at = i as usize % order2.len();
            let turn = order2[..at].iter().filter(|s| s.name == sc.name).count() as u64;
            let k = i / order2.len() as u64 * sc.weight as u64 + turn; // the scenario's own count
            let c = gen_cfg(sc, prop2, seed, k);
            i += 1;
            Some((sc.name.to_string(), c, i as usize - 1))
        }, |n, c, t, o| {
            agg.add(n, c, &o);
            if let Some(w) = &o.crashed {
                if w.contains("wall-clock") { agg.slow += 1; harness.push(format!("{n} #{t}: {w}")); return true; }
                *first = Some((n.into(), c.clone(), (prop2.clone(), "abort".into(), format!("the process aborted: {w}"))));
                return false;
            }
            for v in &o.viol {
                if v.0 == "HARNESS" { harness.push(format!("{n} #{t}: {} {}", v.1, v.2)); }
                if v.0 == *prop2 { if let Some(k) = known2.iter().position(|k| is_known(std::slice::from_ref(k), v)) { *known_seen.entry(k).or_insert(0) += 1; } }
            }
            if let Some(v) = o.find(prop2, known2) { *first = Some((n.into(), c.clone(), v.clone())); return false; }
            true
        });
    }
    let mut code = 0;
    let mut viol_list = vec![];
    if let Some((n, c, v)) = first {
        println!("found: scenario {n} {} — {}: {}", c.get("seed"), v.1, v.2);
        let (m, runs) = minimise(&n, &c, &prop, &v.1, &known, if tier == "quick" { 40.0 } else { 240.0 }, wall, par);
        let mut mt = m.clone(); mt.set("trace", 1);
        let o = one(&n, &mt, wall);
        let o2 = one(&n, &m, wall);
        let vv = o.viol.iter().find(|x| x.0 == prop && x.1 == v.1).cloned().unwrap_or(v.clone());
        let dir = format!("{root}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{}-{}.json", n, c.get("seed"));
        let tr: Vec<Value> = o.j["trace"].as_array().cloned().unwrap_or_default();
        let tail = tr.len().saturating_sub(3000);
        let faults: Vec<&Value> = tr.iter().filter(|l| l.as_str().map(|s| s.contains("FAULT")).unwrap_or(false)).collect();
        let j = json!({"property": prop, "scenario": n, "kind": vv.1, "violation": vv.2, "config": m.json(), "hash": o2.hash(), "original": c.json(), "minimisation_runs": runs,
            "preemptions": o2.j["preempts"], "faults": o2.j["faults"], "fault_trace": faults, "log": o.j["log"], "trace_tail": &tr[tail..]});
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).ok();
        println!("{}: {}", vv.1, vv.2);
        println!("minimised in {runs} runs: {}", m.json());
        println!("VIOLATION property={prop} replay={path}");
        viol_list.push(json!({"kind": vv.1, "detail": vv.2, "replay": path}));
        code = 1;
    }
    for (i, k) in known.iter().enumerate() { if k.property == prop { println!("KNOWN-FINDING: property={prop} {} (seen in {} runs)", k.text, known_seen.get(&i).unwrap_or(&0)); } }
    if !harness.is_empty() { println!("inconclusive runs: {} e.g. {}", harness.len(), harness[0]); }
    let secs_used = (raw::real_now() - t0).as_secs_f64();
    let ev = agg.evidence(&prop, &tier, seed, secs_used, viol_list, harness.len(), &scs);
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).ok();
    println!("{prop}: {} runs, {} distinct schedules, {:.1} s simulated, {:.0} s wall, faults {:?}", agg.runs, agg.hashes.len(), agg.sim_ns as f64 / 1e9, secs_used, agg.faults);
    // A harness that cannot decide anything must not look like a pass.
    if code == 0 && agg.runs < 3 { println!("no answer: only {} runs", agg.runs); return 2; }
    code
}

#[derive(Default)]
struct Agg { runs: u64, slow: u64, steps: u64, switches: u64, preempts: u64, sim_ns: u64, hashes: BTreeSet<String>, nontrivial: BTreeSet<String>, faults: BTreeMap<String, u64>, feats: BTreeMap<String, u64>, per: BTreeMap<String, u64>,
    threads: u64, tcp: u64, udp: u64, conns: u64, limit: u64, samples: Vec<Value>, with_faults: u64 }
impl Agg {
    fn add(&mut self, n: &str, c: &Cfg, o: &Out) {
        self.runs += 1;
        *self.per.entry(n.into()).or_insert(0) += 1;
        if o.crashed.is_some() { return; }
        let g = |k: &str| o.j[k].as_u64().unwrap_or(0);
        self.steps += g("steps"); self.switches += g("switches"); self.preempts += g("preempts"); self.sim_ns += g("now"); self.threads += g("threads"); self.tcp += g("tcp_bytes"); self.udp += g("udp"); self.conns += g("conns");
        if o.j["limit"].as_bool().unwrap_or(false) { self.limit += 1; }
        self.hashes.insert(o.hash());
        let f: u64 = o.j["faults"].as_object().map(|m| m.values().filter_map(|x| x.as_u64()).sum()).unwrap_or(0);
        if f > 0 { self.with_faults += 1; }
        if g("preempts") >= 2 || f > 0 { self.nontrivial.insert(o.hash()); }
        if let Some(m) = o.j["faults"].as_object() { for (k, v) in m { *self.faults.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0); } }
        if let Some(m) = o.j["feat"].as_array() { for k in m { *self.feats.entry(k.as_str().unwrap_or("").into()).or_insert(0) += 1; } }
        if self.samples.len() < 8 && (self.samples.is_empty() || self.runs % 17 == 0) { self.samples.push(json!({"scenario": n, "config": c.v, "hash": o.hash(), "steps": g("steps"), "preemptions": g("preempts"), "simulated_ms": g("now") / 1_000_000, "faults": o.j["faults"], "features": o.j["feat"]})); }
    }
    #[allow(clippy::too_many_arguments)]
    fn evidence(&self, prop: &str, tier: &str, seed: u64, secs: f64, viol: Vec<Value>, inconclusive: usize, scs: &[&'static scn::Scn]) -> Value {
        let real: BTreeSet<&str> = scs.iter().flat_map(|s| s.real.iter().copied()).collect();
        let stub: BTreeSet<&str> = scs.iter().flat_map(|s| s.stub.iter().copied()).collect();
        json!({
            "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": secs, "violations": viol.len(), "violation_list": viol,
            "coverage": {
                "evaluations": self.runs, "distinct_nontrivial": self.nontrivial.len(),
                "rule": "one evaluation is one complete simulated execution; it counts as non-trivial if at least two preemptions or one injected fault happened, and as distinct by the hash of its whole schedule, deliveries and faults",
                "distinct_schedules": self.hashes.len(), "runs_with_injected_faults": self.with_faults, "runs_per_hour": (self.runs as f64 / secs.max(0.001) * 3600.0) as u64,
                "seeds_per_hour": (self.runs as f64 / secs.max(0.001) * 3600.0) as u64,
                "simulated_seconds": self.sim_ns as f64 / 1e9, "scheduler_steps": self.steps, "context_switches": self.switches, "preemptions": self.preempts, "threads_created": self.threads,
                "tcp_bytes_delivered": self.tcp, "udp_packets": self.udp, "connections": self.conns, "faults_injected": self.faults, "situations_reached": self.feats, "runs_per_scenario": self.per,
                "runs_cut_at_step_limit": self.limit, "inconclusive_runs": inconclusive, "components_real": real, "components_simulated": stub, "samples": self.samples,
            },
            "assumptions": ["threads interleave at synchronisation, system-call and (in part of the runs) allocation points; sequentially consistent memory", "the virtual kernel implements TCP, UDP, epoll, futex and clock semantics as Linux documents them"],
        })
    }
}
fn replay(file: &str, _root: &str, tr: bool) -> i32 {
    let Ok(t) = std::fs::read_to_string(file) else { eprintln!("cannot read {file}"); return 2 };
    let j: Value = serde_json::from_str(&t).expect("replay file");
    let mut c = Cfg::parse(&j["config"]);
    let name = j["scenario"].as_str().unwrap().to_string();
    let o = one(&name, &c, 300.0);
    if tr { c.set("trace", 1); let o = one(&name, &c, 300.0); if let Some(t) = o.j["trace"].as_array() { for l in t { println!("{}", l.as_str().unwrap_or("")); } } }
    let prop = j["property"].as_str().unwrap();
    let kind = j["kind"].as_str().unwrap();
    let hit = o.viol.iter().find(|v| v.0 == prop && v.1 == kind).cloned().or(if kind == "abort" { o.crashed.clone().map(|c| (prop.to_string(), "abort".to_string(), c)) } else { None });
    println!("schedule hash {} (recorded {})", o.hash(), j["hash"].as_str().unwrap_or("-"));
    match hit { Some(v) => { println!("{}: {}", v.1, v.2); println!("VIOLATION property={prop} replay={file}"); 1 } None => { println!("not reproduced; violations now: {:?}", o.viol); 0 } }
}
