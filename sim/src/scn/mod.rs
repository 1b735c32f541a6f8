//! Scenarios: what the simulated parties do, and what must hold.
use crate::os::{self, rng::Rng, Key, SHARED};
use crate::run::Cfg;
use std::cell::UnsafeCell;
use std::collections::BTreeSet;
use std::sync::OnceLock;

pub mod link;
pub mod mpc;
pub mod gadgets;
pub mod proof;
#[cfg(feature = "rep3")]
pub mod rep3;
#[cfg(feature = "rep3")]
pub mod rep3gad;
#[cfg(feature = "rep3")]
pub mod rep3rand;
#[cfg(feature = "rep3")]
pub mod vm;
#[cfg(feature = "rep3")]
pub mod honk;
#[cfg(feature = "rep3")]
pub mod noir;
pub mod net;
pub mod sess;
pub mod tp;

pub struct Scn {
    pub name: &'static str,
    pub props: &'static [&'static str],
    pub weight: u32,
    /// Parameters for execution number `i` of a search for violations of a property.
    pub make: fn(&mut Rng, &str, u64, &mut Cfg),
    pub run: fn(&Cfg),
    /// Simplest value of each parameter the minimiser may change.
    pub simple: &'static [(&'static str, i64)],
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
}
pub fn all() -> &'static [Scn] {
    static V: OnceLock<Vec<Scn>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v = Vec::new();
        v.extend(link::scenarios());
        v.extend(net::scenarios());
        v.extend(sess::scenarios());
        v.extend(mpc::scenarios()); v.extend(gadgets::scenarios()); v.extend(proof::scenarios());
        #[cfg(feature = "rep3")]
        v.extend(rep3::scenarios());
        #[cfg(feature = "rep3")]
        v.extend(rep3rand::scenarios());
        #[cfg(feature = "rep3")]
        v.extend(rep3gad::scenarios());
        #[cfg(feature = "rep3")]
        v.extend(vm::scenarios());
        #[cfg(feature = "rep3")]
        v.extend(honk::scenarios());
        #[cfg(feature = "rep3")]
        v.extend(noir::scenarios());
        v
    })
}
pub fn find(n: &str) -> Option<&'static Scn> { all().iter().find(|s| s.name == n) }

/// State shared by simulated threads; only the token holder touches it, and never across a scheduling point.
pub struct Glob<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Sync for Glob<T> {}
impl<T: Default> Glob<T> {
    pub const fn new() -> Self { Glob(UnsafeCell::new(None)) }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        let _g = os::sim_guard();
        f(unsafe { (*self.0.get()).get_or_insert_with(T::default) })
    }
}

static VIOLS: Glob<Vec<(String, String, String)>> = Glob::new();
static FEATS: Glob<BTreeSet<String>> = Glob::new();
static DATA: Glob<std::collections::BTreeMap<String, String>> = Glob::new();
/// Report a violation of `prop`; `kind` names what went wrong independently of the run.
pub fn viol(prop: &str, kind: &str, msg: impl Into<String>) {
    let msg = msg.into();
    let _g = os::sim_guard();
    os::tr(|| format!("VIOLATION {prop} {kind}: {msg}"));
    VIOLS.with(|v| if v.len() < 20 && !v.iter().any(|x| x.0 == prop && x.1 == kind) { v.push((prop.into(), kind.into(), msg)) });
}
/// A situation worth counting was reached.
pub fn feat(s: impl Into<String>) { let s = s.into(); FEATS.with(|f| { f.insert(s); }); }
#[allow(dead_code)]
pub fn data(k: &str, v: String) { DATA.with(|d| { d.insert(k.into(), v); }); }
pub fn take_viols() -> Vec<(String, String, String)> { VIOLS.with(std::mem::take) }
pub fn take_feats() -> BTreeSet<String> { FEATS.with(std::mem::take) }
pub fn take_data() -> std::collections::BTreeMap<String, String> { DATA.with(std::mem::take) }
pub fn note(f: impl FnOnce() -> String) { let _g = os::sim_guard(); os::tr(f); }

#[derive(Clone, Debug, PartialEq)]
pub enum End { Ok, Panic(String) }
static ENDS: Glob<Vec<Option<End>>> = Glob::new();
static TNAMES: Glob<Vec<String>> = Glob::new();
const K_TASK: u64 = 1 << 40;
/// Start a thread of `party`; its end (and panic, if any) is recorded.
pub fn go(party: usize, new_proc: bool, name: impl Into<String>, f: impl FnOnce() + Send + 'static) -> usize {
    let id = ENDS.with(|e| { e.push(None); e.len() - 1 });
    let name = name.into();
    TNAMES.with(|n| n.push(name));
    let h = os::spawn(party, new_proc, move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let end = match r { Ok(()) => End::Ok, Err(p) => End::Panic(panic_text(&p)) };
        ENDS.with(|e| e[id] = Some(end));
        let _g = os::sim_guard();
        os::notify(Key::Custom(K_TASK));
    });
    std::mem::forget(h);
    id
}
pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned()).unwrap_or("panic".into())
}
pub fn ended(id: usize) -> Option<End> { ENDS.with(|e| e[id].clone()) }
pub fn task_name(id: usize) -> String { TNAMES.with(|n| n[id].clone()) }
/// Wait until all tasks ended, at most `ns` of virtual time.
pub fn wait_tasks(ids: &[usize], ns: u64) -> bool { let d = os::now() + ns; os::wait_custom(K_TASK, d, || ids.iter().all(|&i| ended(i).is_some())) }
pub fn unfinished(ids: &[usize]) -> String { ids.iter().filter(|&&i| ended(i).is_none()).map(|&i| task_name(i)).collect::<Vec<_>>().join(", ") }
pub fn panics(ids: &[usize]) -> Vec<String> { ids.iter().filter_map(|&i| match ended(i) { Some(End::Panic(m)) => Some(format!("{}: {m}", task_name(i))), _ => None }).collect() }
pub fn wake() { let _g = os::sim_guard(); os::notify(Key::Custom(K_TASK)); }
/// Wait for a harness condition that other threads change (they call `wake`).
pub fn wait_for(ns: u64, cond: impl FnMut() -> bool) -> bool { let d = os::now() + ns; os::wait_custom(K_TASK, d, cond) }

/// A one-shot meeting of harness threads.
static GATES: Glob<std::collections::BTreeMap<u64, usize>> = Glob::new();
pub fn gate(id: u64, n: usize, ns: u64) -> bool {
    arrive(id);
    await_gate(id, n, ns)
}
/// Count an arrival without waiting for the others.
pub fn arrive(id: u64) {
    GATES.with(|g| *g.entry(id).or_insert(0) += 1);
    wake();
}
pub fn await_gate(id: u64, n: usize, ns: u64) -> bool { wait_for(ns, || GATES.with(|g| g.get(&id).copied().unwrap_or(0)) >= n) }

/// Everything that must exist before the first fork.
pub fn prepare() {
    tp::prepare();
    #[cfg(feature = "rep3")]
    honk::prepare();
}

/// Scheduling knobs common to all scenarios.
pub fn sched_knobs(r: &mut Rng, c: &mut Cfg, parties: usize) {
    match r.below(10) {
        0..=5 => { c.set("policy", 0).set("switch_ppm", r.logu(2_000, 500_000) as i64); }
        6..=7 => { c.set("policy", 1).set("switch_ppm", r.logu(1_000, 100_000) as i64); }
        _ => { c.set("policy", 2).set("switch_ppm", r.logu(10_000, 300_000) as i64).set("starve", r.usize(0, parties.max(1) - 1) as i64); }
    }
    if r.chance(1, 3) { c.set("alloc_yield", r.logu(3, 300) as i64); }
    let lo = r.logu(1, 200); let hi = lo * r.logu(1, 60);
    c.set("lat_min_us", lo as i64).set("lat_max_us", hi as i64);
    if r.chance(1, 4) { c.set("stall", r.logu(20, 2000) as i64).set("stall_max_us", r.logu(10, 20_000) as i64); }
    if r.chance(1, 5) { c.set("spurious", r.logu(100, 20_000) as i64); }
}
/// Byte-stream knobs.
pub fn tcp_knobs(r: &mut Rng, c: &mut Cfg) {
    c.set("sndbuf", *r.pick(&[512, 4096, 65536, 65536, 262144])).set("rcvbuf", *r.pick(&[512, 4096, 65536, 65536, 262144])).set("seg_max", *r.pick(&[7, 100, 1460, 16384, 65536]));
    if r.chance(1, 2) { c.set("short_read", r.logu(1000, 500_000) as i64); }
    if r.chance(1, 2) { c.set("short_write", r.logu(1000, 500_000) as i64); }
    if r.chance(1, 2) { c.set("eintr", r.logu(1000, 200_000) as i64); }
}
pub const _S: usize = SHARED;
