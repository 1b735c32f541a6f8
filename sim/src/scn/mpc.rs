//! Shamir protocols: random programs on shared values, gadgets, correlated randomness, failing parties.
use super::*;
use crate::os::{CrashMode, Ev, Fault, SEC};
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{CurveGroup, PrimeGroup};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use bytes::Bytes;
use mpc_core::protocols::shamir::{self, arithmetic as ar, network::ShamirNetworkExt, pointshare as pt, poly, ShamirPointShare, ShamirPreprocessing, ShamirPrimeFieldShare, ShamirState};
use mpc_core::MpcState;
use mpc_net::Network;
use rand::SeedableRng;
use std::ops::Mul;
use std::sync::Arc;
use tp::*;

pub const REAL: &[&str] = &["mpc-core: protocols/shamir (state, randomness, arithmetic, points, polynomials, network), gadgets", "mpc-net: local and tcp transports, join", "rayon, crossbeam-channel, std threads and locks"];
pub const STUB: &[&str] = &["kernel: threads' scheduling, futex, clocks, TCP (virtual)", "entropy (seeded)", "a thin wrapper around each network records, delays or damages messages"];
const SIMPLE: &[(&str, i64)] = &[("tp", 0), ("n", 3), ("t", 1), ("ops", 1), ("curve", 0), ("jitter_us", 0), ("workers", 1), ("pre", 0), ("vmax", 1), ("hold", 1), ("lat_min_us", 10), ("lat_max_us", 10), ("seg_max", 65536)];

pub fn scenarios() -> Vec<Scn> {
    let s = |name, props, weight, make, run| Scn { name, props, weight, make, run, real: REAL, stub: STUB, simple: SIMPLE };
    vec![
        s("shamir", &["S01", "S02"], 1, make_shamir as fn(&mut Rng, &str, u64, &mut Cfg), run_shamir as fn(&Cfg)),
        s("shamir-faults", &["S04"], 1, make_faults, run_shamir),
        s("pairs", &["S03"], 1, make_pairs, run_pairs),
    ]
}

// ---- a network that records, delays and damages -----------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub struct Sent { pub net: usize, pub from: usize, pub to: usize, pub data: Bytes }
/// What happens to a party at its `at`-th network operation.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Plan { pub party: usize, pub at: u64, pub kind: i64, pub arg: u64 }
pub const K_NONE: i64 = 0;
pub const K_EXIT: i64 = 1; // the process ends
pub const K_RESET: i64 = 2; // the process ends, its connections are reset
pub const K_LEAVE: i64 = 3; // the party gives up: its operation fails and it drops its networks
pub const K_HANG: i64 = 4; // the party does nothing any more
pub const K_MUTE: i64 = 5; // everything it sends from now on is lost
pub const K_CUT: i64 = 6; // its machine is cut off from all others
pub const K_SHORT: i64 = 10; // a message loses its last bytes
pub const K_LONG: i64 = 11; // a message grows by some bytes
pub const K_EMPTY: i64 = 12; // a message is empty
pub const K_FEWER: i64 = 13; // a message holds fewer elements, properly encoded
pub const K_MORE: i64 = 14; // a message holds more elements, properly encoded
pub const K_PREFIX: i64 = 15; // a message claims another number of elements
pub const K_BAD: i64 = 16; // an element of a message is not one of the field or curve
pub fn kind_name(k: i64) -> &'static str { match k { K_NONE => "none", K_EXIT => "exit", K_RESET => "reset", K_LEAVE => "leave", K_HANG => "hang", K_MUTE => "mute", K_CUT => "cut", K_SHORT => "short", K_LONG => "long", K_EMPTY => "empty", K_FEWER => "fewer", K_MORE => "more", K_PREFIX => "prefix", K_BAD => "bad-element", _ => "?" } }

#[derive(Default)]
pub struct Wire { pub log: Vec<Sent>, pub rlog: Vec<Sent>, pub keep: bool, pub ops: std::collections::BTreeMap<usize, u64>, pub plan: Plan, pub hit: bool, pub muted: bool, pub left: bool, pub damaged: Option<(usize, usize, usize, u64, String)>, seq: std::collections::BTreeMap<(usize, usize, usize), u64>, rseq: std::collections::BTreeMap<(usize, usize, usize), u64>, pub victim_got: bool, pub jitter: u64, pub jr: Option<Rng>, pub sent: u64, pub n: usize }
pub static WIRE: Glob<Wire> = Glob::new();
#[derive(Clone)]
pub struct Tap { pub inner: Net, pub k: usize }
enum Act { Go, Die(CrashMode), Leave, Hang, Cut }
impl Tap {
    fn tick(&self) -> eyre::Result<()> {
        let me = self.inner.id();
        let (act, nap) = WIRE.with(|w| {
            let o = w.ops.entry(me).or_insert(0);
            *o += 1;
            let now = *o;
            let j = w.jitter;
            let mut nap = 0;
            if let Some(r) = &mut w.jr { if j > 0 && r.chance(1, 3) { nap = r.below(j); } }
            let p = w.plan;
            if p.kind == K_NONE || p.kind >= K_SHORT || p.party != me { return (Act::Go, nap); }
            if w.left { return (Act::Leave, 0); }
            if now < p.at || w.hit { return (Act::Go, nap); }
            w.hit = true;
            (match p.kind { K_EXIT => Act::Die(CrashMode::Exit), K_RESET => Act::Die(CrashMode::Reset), K_LEAVE => { w.left = true; Act::Leave } K_HANG => Act::Hang, K_MUTE => { w.muted = true; Act::Go } _ => Act::Cut }, nap)
        });
        match act {
            Act::Go => { if nap > 0 { os::sleep(nap); } }
            Act::Die(mode) => { os::at(os::now(), Ev::Fault(Fault::Crash { party: me, mode })); os::sleep(100_000 * SEC); }
            Act::Leave => { os::take_fault("leave"); eyre::bail!("(test) the party gives up") }
            Act::Hang => { os::take_fault("hang"); os::sleep(100_000 * SEC); }
            Act::Cut => { let n = WIRE.with(|w| w.n); for q in 0..n { if q != me { os::apply_fault(Fault::Partition { a: me, b: q }); } } }
        }
        Ok(())
    }
}
/// Is this the message that carries a seed of the shared generators (where all bytes are valid)?
fn is_seed(n: usize, k: usize, me: usize, to: usize, i: u64) -> bool { let send = (n - 1) / 2 + ((n - 1) & 1 == 1 && me < n / 2) as usize; k == 0 && i == 0 && (to + n - me) % n <= send }
/// Count and size of the elements of a vector of field elements or points (the size tells it from a single small element).
fn shape(d: &[u8]) -> Option<(usize, usize)> { if d.len() < 8 { return None; } let c = u64::from_le_bytes(d[..8].try_into().unwrap()) as usize; if c == 0 || c > d.len() || (d.len() - 8) % c != 0 || (d.len() - 8) / c % 16 != 0 { None } else { Some((c, (d.len() - 8) / c)) } }
/// The message with one vector's element count changed, keeping the encoding valid.
/// The element sizes of two vectors, one after the other: (count, element size) of each.
fn two_vecs(d: &[u8]) -> Option<[(usize, usize); 2]> {
    let num = |at: usize| d.get(at..at + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()) as usize);
    let c = num(0).filter(|c| *c > 0 && *c < d.len())?;
    for sz in [32, 64, 96, 128, 48, 192, 1, 2, 4, 8, 16] {
        let at = 8 + c * sz;
        let Some(k) = num(at).filter(|k| *k > 0 && *k < d.len()) else { continue };
        let rest = d.len() - at - 8;
        if rest > 0 && rest % k == 0 && [32, 64, 96, 128, 48, 192, 1, 2, 4, 8, 16].contains(&(rest / k)) { return Some([(c, sz), (k, rest / k)]); }
    }
    None
}
fn recount(d: &[u8], more: bool, arg: u64) -> Option<Vec<u8>> {
    let other = |c: usize| if more { c + 1 + (arg % 3) as usize } else { c - 1 - (arg as usize % c) };
    if let Some([(c, x), (k, y)]) = two_vecs(d).filter(|_| arg % 8 != 7) {
        // one of the two vectors, or both
        let (nc, nk) = match arg / 8 % 3 { 0 => (other(c), k), 1 => (c, other(k)), _ => (other(c), other(k)) };
        let mut v = (nc as u64).to_le_bytes().to_vec();
        for i in 0..nc { let s = 8 + (i % c) * x; v.extend_from_slice(&d[s..s + x]); }
        v.extend((nk as u64).to_le_bytes());
        for i in 0..nk { let s = 16 + c * x + (i % k) * y; v.extend_from_slice(&d[s..s + y]); }
        return Some(v);
    }
    if d.len() < 8 { return None; }
    let c = u64::from_le_bytes(d[..8].try_into().unwrap()) as usize;
    if c == 0 || c > d.len() || (d.len() - 8) % c != 0 { return None; }
    let sz = (d.len() - 8) / c;
    let nc = other(c);
    let mut v = (nc as u64).to_le_bytes().to_vec();
    for i in 0..nc { let s = 8 + (i % c) * sz; v.extend_from_slice(&d[s..s + sz]); }
    Some(v)
}
impl Network for Tap {
    fn id(&self) -> usize { self.inner.id() }
    fn send(&self, to: usize, data: Bytes) -> eyre::Result<()> {
        self.tick()?;
        let me = self.inner.id();
        let (data, damaged, lost) = WIRE.with(|w| {
            w.sent += 1;
            if w.muted && w.plan.party == me { return (data, None, true); }
            let q = w.seq.entry((self.k, me, to)).or_insert(0);
            let i = *q;
            *q += 1;
            if w.keep { w.log.push(Sent { net: self.k, from: me, to, data: data.clone() }); }
            let p = w.plan;
            if p.kind < K_SHORT || p.party != me || w.hit || w.ops[&me] < p.at { return (data, None, false); }
            let a = p.arg;
            let d = match p.kind {
                K_EMPTY => vec![],
                K_SHORT => data[..data.len() - (1 + a as usize % data.len().max(1)).min(data.len())].to_vec(),
                K_LONG => { let mut v = data.to_vec(); for x in 0..1 + a % 40 { v.push((a >> (x % 50)) as u8); } v }
                K_PREFIX => match shape(&data) { Some((c, _)) => { let mut v = data.to_vec(); let x = match a % 6 { 0 => 0, 1 => u64::MAX, 2 => 1 << 61, 3 => c as u64 + 1, 4 => c as u64 - 1, _ => 1 << (a % 63) }; if x == c as u64 { return (data, None, false); } v[..8].copy_from_slice(&x.to_le_bytes()); v } None => vec![] },
                K_BAD => { if is_seed(w.n, self.k, me, to, i) { return (data, None, false); } let sz = match shape(&data) { Some((_, s)) => s, None => data.len() }; let mut v = data.to_vec(); let l = v.len(); for x in &mut v[l - sz..] { *x = 0xff; } v }
                k => recount(&data, k == K_MORE, a).unwrap_or_else(|| data[..data.len() / 2].to_vec()),
            };
            if d == data { return (data, None, false); }
            w.hit = true;
            let text = format!("message {i} on network {} from P{me} to P{to} ({} -> {} bytes)", self.k, data.len(), d.len());
            w.damaged = Some((self.k, me, to, i, text));
            (Bytes::from(d), Some(()), false)
        });
        if damaged.is_some() { os::take_fault("damage"); }
        if lost { os::take_fault("lose_message"); return Ok(()); }
        self.inner.send(to, data)
    }
    fn recv(&self, from: usize) -> eyre::Result<Bytes> {
        self.tick()?;
        let r = self.inner.recv(from);
        let me = self.inner.id();
        if let Ok(d) = &r { WIRE.with(|w| { if w.keep { w.rlog.push(Sent { net: self.k, from, to: me, data: d.clone() }); } let q = w.rseq.entry((self.k, from, me)).or_insert(0); let i = *q; *q += 1; if let Some((k, a, b, j, _)) = &w.damaged { if (*k, *a, *b, *j) == (self.k, from, me, i) { w.victim_got = true; } } }); }
        r
    }
    fn flush(&self) -> eyre::Result<()> { self.inner.flush() }
    fn get_connection_stats(&self) -> mpc_net::ConnectionStats { self.inner.get_connection_stats() }
}

/// Give the simulation its rayon workers.
pub fn workers(c: &Cfg) { let _ = rayon::ThreadPoolBuilder::new().num_threads(c.or("workers", 1).max(1) as usize).build_global(); }
pub fn wire(c: &Cfg) {
    let (n, seed) = (c.us("n"), c.get("seed") as u64);
    WIRE.with(|w| {
        w.n = n;
        w.jitter = c.or("jitter_us", 0) as u64 * os::US;
        w.jr = Some(Rng::new(seed ^ 0x717));
        w.plan = Plan { party: c.or("fp", 0) as usize % n, at: c.or("fat", 0) as u64, kind: c.or("fkind", 0), arg: c.or("farg", 0) as u64 };
    });
}
pub fn taps(env: &Env) -> Vec<Tap> { env.nets.iter().enumerate().map(|(k, n)| Tap { inner: n.clone(), k }).collect() }

// ---- reference arithmetic ---------------------------------------------------------------------------
pub fn konst<F: PrimeField>(seed: u64) -> F {
    match seed % 11 { 0 => F::zero(), 1 => F::one(), 2 => -F::one(), 3 => F::from(2u64), 4 => F::from(seed), 5 => -F::from(seed >> 8), _ => F::rand(&mut rand_chacha::ChaCha12Rng::seed_from_u64(seed)) }
}
pub fn konst_p<C: CurveGroup>(seed: u64) -> C { match seed % 7 { 0 => C::zero(), 1 => C::generator(), _ => C::rand(&mut rand_chacha::ChaCha12Rng::seed_from_u64(seed)) } }
/// Values at 0 and at `x` of the polynomial through the points (xs, ys).
fn lagrange_at<F: PrimeField>(xs: &[u64], x: u64) -> Vec<F> {
    xs.iter().map(|&i| { let (mut a, mut b) = (F::one(), F::one()); for &j in xs { if j != i { a *= F::from(x) - F::from(j); b *= F::from(i) - F::from(j); } } a * b.inverse().unwrap() }).collect()
}
/// The secret, if all shares lie on one polynomial of degree `t`.
pub fn secret<F: PrimeField>(sh: &[F], t: usize) -> Result<F, String> {
    let xs: Vec<u64> = (1..=t as u64 + 1).collect();
    for p in t + 1..sh.len() { let l = lagrange_at::<F>(&xs, p as u64 + 1); let v: F = l.iter().zip(sh).map(|(a, b)| *a * b).sum(); if v != sh[p] { return Err(format!("P{p}'s share is not on the degree-{t} polynomial of the first {}", t + 1)); } }
    Ok(lagrange_at::<F>(&xs, 0).iter().zip(sh).map(|(a, b)| *a * b).sum())
}
pub fn secret_p<C: CurveGroup>(sh: &[C], t: usize) -> Result<C, String> {
    let xs: Vec<u64> = (1..=t as u64 + 1).collect();
    let comb = |x: u64| -> C { lagrange_at::<C::ScalarField>(&xs, x).iter().zip(sh).map(|(a, b)| *b * a).sum() };
    for p in t + 1..sh.len() { if comb(p as u64 + 1) != sh[p] { return Err(format!("P{p}'s point share is not on the degree-{t} polynomial of the first {}", t + 1)); } }
    Ok(comb(0))
}

// ---- programs ---------------------------------------------------------------------------------------
type Sf<S> = <S as ark_ec::CurveConfig>::ScalarField;
type Fs<S> = ShamirPrimeFieldShare<Sf<S>>;
type Ps<S> = ShamirPointShare<Projective<S>>;
#[derive(Clone, Debug)]
pub enum Op {
    Lin { k: u64, a: usize, b: usize, c: u64 }, LinVec { add: bool, a: Vec<usize>, b: Vec<usize> }, Trivial(Vec<u64>), Eval(Vec<usize>, u64),
    Mul(usize, usize), MulVec(Vec<usize>, Vec<usize>), Reduce(Vec<usize>, Vec<usize>), BigReduce(Vec<usize>, Vec<usize>, usize),
    Inv(usize), InvVec(Vec<usize>), Div(usize, usize), DivPub(usize, u64), PubDiv(u64, usize), InvZero(bool), Rand,
    Open(usize), OpenVec(Vec<usize>), MulOpenVec(Vec<usize>, Vec<usize>),
    PLin { k: u64, a: usize, b: usize, c: u64 }, PFromF(usize, u64), PScale(usize, u64), PMul(usize, usize), PMsm(Vec<usize>, u64), PTrivial(u64),
    POpen(usize), POpenMany(Vec<usize>), POpenHalf(usize, usize), POpenF(usize, usize), POpenFMany(Vec<usize>, Vec<usize>),
    Buffer(usize), Par(usize, Vec<Vec<Op>>),
}
/// How many values each operation adds to the registers.
fn grows(o: &Op) -> (usize, usize) {
    match o {
        Op::Lin { .. } | Op::Eval(..) | Op::Mul(..) | Op::Inv(_) | Op::Div(..) | Op::DivPub(..) | Op::PubDiv(..) | Op::Rand => (1, 0),
        Op::LinVec { a, .. } => (a.len(), 0), Op::Trivial(v) => (v.len(), 0), Op::MulVec(a, _) | Op::Reduce(a, _) => (a.len(), 0), Op::BigReduce(..) => (1, 0), Op::InvVec(a) => (a.len(), 0),
        Op::PLin { .. } | Op::PFromF(..) | Op::PScale(..) | Op::PMul(..) | Op::PMsm(..) | Op::PTrivial(_) => (0, 1),
        Op::Par(_, b) => b.iter().flatten().map(grows).fold((0, 0), |x, y| (x.0 + y.0, x.1 + y.1)),
        _ => (0, 0),
    }
}
/// Operations the generator can produce; `zero` tells which registers may be zero (not invertible).
struct Gen<'a> { r: &'a mut Rng, vmax: usize, points: bool, nets: usize, cheap: bool }
impl Gen<'_> {
    fn i(&mut self, n: usize) -> usize { self.r.below(n as u64) as usize }
    fn v(&mut self, n: usize) -> Vec<usize> { let l = self.r.usize(1, self.vmax); (0..l).map(|_| self.r.below(n as u64) as usize).collect() }
    fn vv(&mut self, n: usize) -> (Vec<usize>, Vec<usize>) { let a = self.v(n); let b = (0..a.len()).map(|_| self.r.below(n as u64) as usize).collect(); (a, b) }
    fn op(&mut self, nf: usize, np: usize, depth: usize) -> Op {
        loop {
            let k = self.r.below(if self.points { 36 } else { 24 });
            return match k {
                0..=2 => Op::Lin { k: self.r.below(12), a: self.i(nf), b: self.i(nf), c: self.r.next() },
                3 => { let (a, b) = self.vv(nf); Op::LinVec { add: self.r.chance(1, 2), a, b } }
                4 => { let l = self.r.usize(1, 3); Op::Trivial((0..l).map(|_| self.r.next()).collect()) }
                5 => { let v = self.v(nf); if self.r.chance(1, 3) { let big: Vec<usize> = (0..self.r.usize(17, 70)).map(|_| self.r.below(nf as u64) as usize).collect(); Op::Eval(big, self.r.next()) } else { Op::Eval(v, self.r.next()) } }
                6..=8 => Op::Mul(self.i(nf), self.i(nf)),
                9 | 10 => { let (a, b) = self.vv(nf); Op::MulVec(a, b) }
                11 => { let (a, b) = self.vv(nf); Op::Reduce(a, b) }
                12 => { if self.cheap || !self.r.chance(1, 4) { continue; } let (a, b) = self.vv(nf); Op::BigReduce(a, b, self.r.usize(1030, 2600)) }
                13 => Op::Inv(self.i(nf)),
                14 => Op::InvVec(self.v(nf)),
                15 => Op::Div(self.i(nf), self.i(nf)),
                16 => if self.r.chance(1, 2) { Op::DivPub(self.i(nf), self.r.next()) } else { Op::PubDiv(self.r.next(), self.i(nf)) },
                17 => if self.r.chance(1, 3) { Op::InvZero(self.r.chance(1, 2)) } else { Op::Rand },
                18 | 19 => Op::Open(self.i(nf)),
                20 => Op::OpenVec(self.v(nf)),
                21 => { let (a, b) = self.vv(nf); Op::MulOpenVec(a, b) }
                22 => { if self.cheap { continue; } Op::Buffer(self.r.logu(1, 60) as usize) }
                23 => {
                    if depth > 0 || self.nets < 2 { continue; }
                    let m = self.r.usize(2, self.nets);
                    let amount = self.r.logu(1, 12) as usize - 1;
                    let b = (0..m).map(|_| { let mut f = nf; let mut p = np; let l = self.r.usize(1, 3); (0..l).map(|_| { let o = self.op(f, p, 1); let g = grows(&o); f += g.0; p += g.1; o }).collect() }).collect();
                    Op::Par(amount, b)
                }
                24 | 25 => Op::PLin { k: self.r.below(10), a: self.i(np), b: self.i(np), c: self.r.next() },
                26 => Op::PFromF(self.i(nf), self.r.next()),
                27 => Op::PScale(self.i(np), self.r.next()),
                28 | 29 => Op::PMul(self.i(np), self.i(nf)),
                30 => { let l = self.r.usize(1, self.vmax.min(6)); Op::PMsm((0..l).map(|_| self.r.below(nf as u64) as usize).collect(), self.r.next()) }
                31 => Op::PTrivial(self.r.next()),
                32 => Op::POpen(self.i(np)),
                33 => Op::POpenMany(self.v(np)),
                34 => if self.r.chance(1, 2) { Op::POpenHalf(self.i(np), self.i(nf)) } else { Op::POpenF(self.i(np), self.i(nf)) },
                _ => { let l = self.r.usize(1, self.vmax.min(5)); Op::POpenFMany((0..l).map(|_| self.r.below(np as u64) as usize).collect(), (0..l).map(|_| self.r.below(nf as u64) as usize).collect()) }
            };
        }
    }
}

/// What one operation gave one party.
pub enum Got<S: SWCurveConfig> { Vals { f: Vec<Fs<S>>, p: Vec<Ps<S>>, of: Vec<Sf<S>>, op: Vec<Projective<S>> }, Par(Vec<Vec<Got<S>>>), Fail(String) }
impl<S: SWCurveConfig> Clone for Got<S> {
    fn clone(&self) -> Self { match self { Got::Vals { f, p, of, op } => Got::Vals { f: f.clone(), p: p.clone(), of: of.clone(), op: op.clone() }, Got::Par(v) => Got::Par(v.clone()), Got::Fail(s) => Got::Fail(s.clone()) } }
}
struct Regs<S: SWCurveConfig> { f: Vec<Fs<S>>, p: Vec<Ps<S>> }
impl<S: SWCurveConfig> Clone for Regs<S> { fn clone(&self) -> Self { Regs { f: self.f.clone(), p: self.p.clone() } } }

fn exec<S: SWCurveConfig>(o: &Op, r: &Regs<S>, nets: &[Tap], st: &mut ShamirState<Sf<S>>) -> eyre::Result<Got<S>> where Sf<S>: PrimeField {
    let net = &nets[0];
    let (mut f, mut p, mut of, mut op) = (vec![], vec![], vec![], vec![]);
    let fv = |v: &[usize]| -> Vec<Fs<S>> { v.iter().map(|&i| r.f[i]).collect() };
    let pv = |v: &[usize]| -> Vec<Ps<S>> { v.iter().map(|&i| r.p[i].clone()).collect() };
    match o {
        Op::Lin { k, a, b, c } => {
            let (x, y, c) = (r.f[*a], r.f[*b], konst::<Sf<S>>(*c));
            f.push(match k {
                0 => ar::add(x, y), 1 => ar::sub(x, y), 2 => ar::neg(x), 3 => ar::add_public(x, c), 4 => ar::mul_public(x, c),
                5 => { let mut z = x; ar::add_assign(&mut z, y); z } 6 => { let mut z = x; ar::sub_assign(&mut z, y); z } 7 => { let mut z = x; ar::add_assign_public(&mut z, c); z } 8 => { let mut z = x; ar::mul_assign_public(&mut z, c); z }
                9 => x + y, 10 => x - &y, _ => { let mut z = x; z += &y; z -= x; z *= c; z }
            });
        }
        Op::LinVec { add, a, b } => { let mut x = fv(a); let y = fv(b); if *add { ar::add_vec_assign(&mut x, &y) } else { ar::sub_vec_assign(&mut x, &y) } f = x; }
        Op::Trivial(v) => { let c: Vec<Sf<S>> = v.iter().map(|&s| konst(s)).collect(); if c.len() == 1 { f.push(ar::promote_to_trivial_share(c[0])) } else { f = ar::promote_to_trivial_shares(&c) } }
        Op::Eval(v, x) => f.push(poly::eval_poly(&fv(v), konst(*x))),
        Op::Mul(a, b) => f.push(ar::mul(r.f[*a], r.f[*b], net, st)?),
        Op::MulVec(a, b) => f = ar::mul_vec(&fv(a), &fv(b), net, st)?,
        Op::Reduce(a, b) => f = net.degree_reduce_many(st, ar::local_mul_vec(&fv(a), &fv(b)))?,
        Op::BigReduce(a, b, l) => {
            // more elements than one rayon piece; folded into one value
            let x: Vec<_> = (0..*l).map(|i| r.f[a[i % a.len()]]).collect();
            let y: Vec<_> = (0..*l).map(|i| ar::mul_public(r.f[b[i % b.len()]], Sf::<S>::from(i as u64 + 1))).collect();
            let m = ar::local_mul_vec(&x, &y);
            if m.len() != *l { eyre::bail!("wrong length"); }
            let w: Sf<S> = m.iter().enumerate().map(|(i, v)| *v * Sf::<S>::from(3 * i as u64 + 7)).sum();
            f.push(net.degree_reduce(st, w)?);
        }
        Op::Inv(a) => f.push(ar::inv(r.f[*a], net, st)?),
        Op::InvVec(a) => f = ar::inv_vec(&fv(a), net, st)?,
        Op::Div(a, b) => f.push(ar::div(r.f[*a], r.f[*b], net, st)?),
        Op::DivPub(a, c) => f.push(ar::div_shared_by_public(r.f[*a], konst(*c))?),
        Op::PubDiv(c, a) => f.push(ar::div_public_by_shared(konst(*c), r.f[*a], net, st)?),
        Op::InvZero(vec) => { let z = ar::sub(r.f[0], r.f[0]); if *vec { ar::inv_vec(&[r.f[0], z], net, st)?; } else { ar::inv(z, net, st)?; } }
        Op::Rand => f.push(st.rand(net)?),
        Op::Open(a) => of.push(ar::open(r.f[*a], net, st)?),
        Op::OpenVec(a) => of = ar::open_vec(&fv(a), net, st)?,
        Op::MulOpenVec(a, b) => of = ar::mul_open_vec(&fv(a), &fv(b), net, st)?,
        Op::PLin { k, a, b, c } => {
            let (x, y, c) = (&r.p[*a], &r.p[*b], konst_p::<Projective<S>>(*c));
            let mut z = x.clone();
            p.push(match k { 0 => pt::add(x, y), 1 => pt::sub(x, y), 2 => { pt::add_assign(&mut z, y); z } 3 => { pt::sub_assign(&mut z, y); z } 4 => { pt::add_assign_public(&mut z, &c); z } 5 => { pt::sub_assign_public(&mut z, &c); z }
                6 => { pt::add_assign_public_affine(&mut z, &c.into_affine()); z } 7 => { pt::sub_assign_public_affine(&mut z, &c.into_affine()); z } 8 => x + y, _ => x - y });
        }
        Op::PFromF(a, c) => p.push(pt::scalar_mul_public_point(r.f[*a], &konst_p::<Projective<S>>(*c))),
        Op::PScale(a, c) => p.push(pt::scalar_mul_public_scalar(&r.p[*a], &konst(*c))),
        Op::PMul(a, b) => p.push(pt::scalar_mul(&r.p[*a], r.f[*b], net, st)?),
        Op::PMsm(v, c) => { let pts: Vec<Affine<S>> = (0..v.len()).map(|i| konst_p::<Projective<S>>(c.wrapping_add(i as u64)).into_affine()).collect(); p.push(pt::msm_public_points(&pts, &fv(v))) }
        Op::PTrivial(c) => p.push(pt::promote_to_trivial_share(&konst_p::<Projective<S>>(*c))),
        Op::POpen(a) => op.push(pt::open_point(&r.p[*a], net, st)?),
        Op::POpenMany(a) => op = pt::open_point_many(&pv(a), net, st)?,
        Op::POpenHalf(a, b) => op.push(pt::open_half_point(pt::scalar_mul_local(&r.p[*a], r.f[*b]), net, st)?),
        Op::POpenF(a, b) => { let (x, y) = pt::open_point_and_field(&r.p[*a], &r.f[*b], net, st)?; op.push(x); of.push(y); }
        Op::POpenFMany(a, b) => { let (x, y) = pt::open_point_and_field_many(&pv(a), &fv(b), net, st)?; op = x; of = y; }
        Op::Buffer(n) => st.buffer_triples(net, *n)?,
        Op::Par(amount, b) => {
            let mut sts = vec![];
            for _ in 1..b.len() { sts.push(st.fork(*amount)?); }
            let mut it = sts.into_iter();
            let mut s1 = it.next();
            let mut s2 = it.next();
            let run = |ops: &[Op], k: usize, st: &mut ShamirState<Sf<S>>| sub(ops, r.clone(), &nets[k..], st);
            let out = if b.len() == 2 {
                let (x, y) = mpc_net::join(|| run(&b[0], 0, st), || run(&b[1], 1, s1.as_mut().unwrap()));
                vec![x?, y?]
            } else {
                let (x, y, z) = mpc_net::join3(|| run(&b[0], 0, st), || run(&b[1], 1, s1.as_mut().unwrap()), || run(&b[2], 2, s2.as_mut().unwrap()));
                vec![x?, y?, z?]
            };
            return Ok(Got::Par(out));
        }
    }
    Ok(Got::Vals { f, p, of, op })
}
/// Run operations in order; an inversion of zero must fail and leaves everything in step.
fn sub<S: SWCurveConfig>(ops: &[Op], mut r: Regs<S>, nets: &[Tap], st: &mut ShamirState<Sf<S>>) -> eyre::Result<Vec<Got<S>>> where Sf<S>: PrimeField {
    let mut out = vec![];
    for o in ops {
        let g = match exec(o, &r, nets, st) { Ok(g) => g, Err(e) if format!("{e:#}").contains("nverse of zero") || format!("{e:#}").contains("invert zero") => Got::Fail(format!("{e:#}")), Err(e) => return Err(e.wrap_err(format!("operation {}", short(o)))) };
        push(o, &g, &mut r);
        out.push(g);
    }
    Ok(out)
}
pub fn short(o: &Op) -> String { let s = format!("{o:?}"); s.chars().take(60).collect() }
/// Registers after an operation (a failed one adds trivial zeros in place of its results).
fn push<S: SWCurveConfig>(o: &Op, g: &Got<S>, r: &mut Regs<S>) {
    match g {
        Got::Vals { f, p, .. } => { r.f.extend(f.iter().cloned()); r.p.extend(p.iter().cloned()); }
        Got::Par(v) => { let Op::Par(_, b) = o else { unreachable!() }; for (ops, gs) in b.iter().zip(v) { for (o, g) in ops.iter().zip(gs) { push(o, g, r); } } }
        Got::Fail(_) => { let (a, b) = grows(o); for _ in 0..a { r.f.push(ShamirPrimeFieldShare::zero_share()); } for _ in 0..b { r.p.push(ShamirPointShare::new(Projective::zero())); } }
    }
}

/// Plain values; None where they depend on a random value that cannot be known.
struct Plain<S: SWCurveConfig> { f: Vec<Option<Sf<S>>>, p: Vec<Option<Projective<S>>> }
impl<S: SWCurveConfig> Clone for Plain<S> { fn clone(&self) -> Self { Plain { f: self.f.clone(), p: self.p.clone() } } }
enum Want<S: SWCurveConfig> { Vals { f: Vec<Option<Sf<S>>>, p: Vec<Option<Projective<S>>>, of: Vec<Option<Sf<S>>>, op: Vec<Option<Projective<S>>>, fresh: bool }, Fail, Par, Unknown }
fn want<S: SWCurveConfig>(o: &Op, v: &Plain<S>) -> Want<S> where Sf<S>: PrimeField {
    type O<T> = Option<T>;
    let (mut f, mut p, mut of, mut op) = (vec![], vec![], vec![], vec![]);
    let x = |i: &usize| -> O<Sf<S>> { v.f[*i] };
    let y = |i: &usize| -> O<Projective<S>> { v.p[*i] };
    let zip = |a: &[usize], b: &[usize]| -> Vec<O<Sf<S>>> { a.iter().zip(b).map(|(i, j)| Some(v.f[*i]? * v.f[*j]?)).collect() };
    macro_rules! inv { ($e:expr) => { match $e { None => return Want::Unknown, Some(z) => match Field::inverse(&z) { Some(z) => z, None => return Want::Fail } } } }
    match o {
        Op::Lin { k, a, b, c } => {
            let c = konst::<Sf<S>>(*c);
            let (s, t) = (x(a), x(b));
            f.push((|| Some(match k { 0 | 5 | 9 => s? + t?, 1 | 6 | 10 => s? - t?, 2 => -s?, 3 | 7 => s? + c, 4 | 8 => s? * c, _ => (s? + t? - s?) * c }))());
        }
        Op::LinVec { add, a, b } => for (i, j) in a.iter().zip(b) { f.push((|| Some(if *add { x(i)? + x(j)? } else { x(i)? - x(j)? }))()) },
        Op::Trivial(c) => f = c.iter().map(|&s| Some(konst(s))).collect(),
        Op::Eval(w, s) => { let s = konst::<Sf<S>>(*s); f.push((|| { let mut acc = Sf::<S>::zero(); let mut pw = Sf::<S>::one(); for i in w { acc += x(i)? * pw; pw *= s; } Some(acc) })()) }
        Op::Mul(a, b) => f = zip(&[*a], &[*b]),
        Op::MulVec(a, b) | Op::Reduce(a, b) => f = zip(a, b),
        Op::BigReduce(a, b, l) => f.push((|| { let mut acc = Sf::<S>::zero(); for i in 0..*l { acc += x(&a[i % a.len()])? * x(&b[i % b.len()])? * Sf::<S>::from(i as u64 + 1) * Sf::<S>::from(3 * i as u64 + 7); } Some(acc) })()),
        Op::Inv(a) => f.push(Some(inv!(x(a)))),
        Op::InvVec(a) => { let mut unknown = false; let mut out = vec![]; for i in a { match x(i) { None => unknown = true, Some(z) => match Field::inverse(&z) { Some(z) => out.push(Some(z)), None => return Want::Fail } } } if unknown { return Want::Unknown; } f = out; }
        Op::Div(a, b) => { let d = inv!(x(b)); f.push(x(a).map(|z| z * d)); }
        Op::DivPub(a, c) => { let d = inv!(Some(konst::<Sf<S>>(*c))); f.push(x(a).map(|z| z * d)); }
        Op::PubDiv(c, a) => { let d = inv!(x(a)); f.push(Some(konst::<Sf<S>>(*c) * d)); }
        Op::InvZero(_) => return Want::Fail,
        Op::Rand => return Want::Vals { f: vec![None], p, of, op, fresh: true },
        Op::Open(a) => of.push(x(a)),
        Op::OpenVec(a) => of = a.iter().map(x).collect(),
        Op::MulOpenVec(a, b) => of = zip(a, b),
        Op::PLin { k, a, b, c } => { let c = konst_p::<Projective<S>>(*c); p.push((|| Some(match k { 0 | 2 | 8 => y(a)? + y(b)?, 1 | 3 | 9 => y(a)? - y(b)?, 4 | 6 => y(a)? + c, _ => y(a)? - c }))()) }
        Op::PFromF(a, c) => p.push(x(a).map(|s| konst_p::<Projective<S>>(*c) * s)),
        Op::PScale(a, c) => p.push(y(a).map(|q| q * konst::<Sf<S>>(*c))),
        Op::PMul(a, b) => p.push((|| Some(y(a)? * x(b)?))()),
        Op::PMsm(w, c) => p.push((|| { let mut acc = Projective::<S>::zero(); for (i, j) in w.iter().enumerate() { acc += konst_p::<Projective<S>>(c.wrapping_add(i as u64)) * x(j)?; } Some(acc) })()),
        Op::PTrivial(c) => p.push(Some(konst_p(*c))),
        Op::POpen(a) => op.push(y(a)),
        Op::POpenMany(a) => op = a.iter().map(y).collect(),
        Op::POpenHalf(a, b) => op.push((|| Some(y(a)? * x(b)?))()),
        Op::POpenF(a, b) => { op.push(y(a)); of.push(x(b)); }
        Op::POpenFMany(a, b) => { op = a.iter().map(y).collect(); of = b.iter().map(x).collect(); }
        Op::Buffer(_) => {}
        Op::Par(..) => return Want::Par,
    }
    Want::Vals { f, p, of, op, fresh: false }
}

/// Compares what the parties got with the plain computation. `got[p]` is None if the party did not get that far.
struct Judge { prop: String, share_prop: String, n: usize, t: usize, rng: Rng }
impl Judge {
    fn bad(&self, prop: &str, kind: &str, o: &Op, what: String) { viol(prop, kind, format!("{} (n={} t={}): {what}", short(o), self.n, self.t)); }
    fn ops<S: SWCurveConfig>(&mut self, ops: &[Op], v: &mut Plain<S>, got: &[Option<Vec<Got<S>>>]) where Sf<S>: PrimeField {
        for (i, o) in ops.iter().enumerate() {
            let g: Vec<Option<&Got<S>>> = got.iter().map(|p| p.as_ref().and_then(|p| p.get(i))).collect();
            self.op(o, v, &g);
        }
    }
    fn op<S: SWCurveConfig>(&mut self, o: &Op, v: &mut Plain<S>, g: &[Option<&Got<S>>]) where Sf<S>: PrimeField {
        let (prop, sprop) = (self.prop.clone(), self.share_prop.clone());
        let w = want(o, v);
        if let Want::Par = w {
            let Op::Par(_, b) = o else { unreachable!() };
            let base = v.clone();
            for (k, ops) in b.iter().enumerate() {
                let sub: Vec<Option<Vec<Got<S>>>> = g.iter().map(|x| match x { Some(Got::Par(v)) => Some(v[k].clone()), _ => None }).collect();
                let mut bv = base.clone();
                self.ops(ops, &mut bv, &sub);
                v.f.extend_from_slice(&bv.f[base.f.len()..]);
                v.p.extend_from_slice(&bv.p[base.p.len()..]);
            }
            return;
        }
        let (gf, gp) = grows(o);
        for (q, x) in g.iter().enumerate() {
            match (x, &w) {
                (Some(Got::Fail(e)), Want::Vals { .. }) => self.bad(&prop, "failed", o, format!("P{q}: {e}")),
                (Some(Got::Vals { .. }), Want::Fail) => self.bad(&prop, "no-error", o, format!("P{q} gives a result where inverting zero must fail")),
                (Some(Got::Vals { of, op, .. }), Want::Vals { of: wf, op: wp, .. }) => {
                    if of.len() != wf.len() || op.len() != wp.len() { self.bad(&prop, "wrong-result", o, format!("P{q} opened {} field elements and {} points instead of {} and {}", of.len(), op.len(), wf.len(), wp.len())); continue; }
                    for (j, (a, b)) in of.iter().zip(wf).enumerate() { if b.is_some_and(|b| b != *a) { self.bad(&prop, "wrong-result", o, format!("P{q} opened a wrong value (element {j} of {})", of.len())); break; } }
                    for (j, (a, b)) in op.iter().zip(wp).enumerate() { if b.is_some_and(|b| b != *a) { self.bad(&prop, "wrong-result", o, format!("P{q} opened a wrong point (element {j} of {})", op.len())); break; } }
                }
                _ => {}
            }
        }
        // The sharings, if every party has its share.
        let all: Option<Vec<(&Vec<Fs<S>>, &Vec<Ps<S>>)>> = g.iter().map(|x| match x { Some(Got::Vals { f, p, .. }) => Some((f, p)), _ => None }).collect();
        let mut nf: Vec<Option<Sf<S>>> = vec![None; gf];
        let mut np: Vec<Option<Projective<S>>> = vec![None; gp];
        match w {
            Want::Vals { f, p, fresh, .. } => { if !fresh { nf = f; np = p; } }
            Want::Fail => { nf = vec![Some(Sf::<S>::zero()); gf]; np = vec![Some(Projective::zero()); gp]; }
            _ => {}
        }
        if let Some(all) = all {
            if all.iter().any(|x| x.0.len() != gf || x.1.len() != gp) { self.bad(&sprop, "length", o, "parties hold different numbers of shares".into()); }
            else {
                for j in 0..gf {
                    let sh: Vec<Sf<S>> = all.iter().map(|x| x.0[j].a).collect();
                    match secret(&sh, self.t) {
                        Err(e) => self.bad(&sprop, "inconsistent", o, format!("element {j} of {gf}: {e}")),
                        Ok(s) => match nf[j] {
                            None => nf[j] = Some(s),
                            Some(x) => { if s != x { self.bad(&sprop, "wrong-sharing", o, format!("element {j} of {gf} shares a wrong value")); } else { self.subset(o, &all.iter().map(|x| x.0[j]).collect::<Vec<_>>(), s); } }
                        },
                    }
                }
                for j in 0..gp {
                    let sh: Vec<Projective<S>> = all.iter().map(|x| x.1[j].a).collect();
                    match secret_p(&sh, self.t) {
                        Err(e) => self.bad(&sprop, "inconsistent", o, format!("point {j} of {gp}: {e}")),
                        Ok(s) => match np[j] {
                            None => np[j] = Some(s),
                            Some(x) => if s != x { self.bad(&sprop, "wrong-sharing", o, format!("point {j} of {gp} shares a wrong value")); } else { self.subset_p(o, &all.iter().map(|x| x.1[j].clone()).collect::<Vec<_>>(), s); }
                        },
                    }
                }
            }
        }
        v.f.extend(nf);
        v.p.extend(np);
    }
    fn pick(&mut self) -> Vec<usize> { let mut ids: Vec<usize> = (0..self.n).collect(); self.rng.shuffle(&mut ids); let k = self.rng.usize(self.t + 1, self.n); ids.truncate(k); ids }
    /// Reconstruction with the library from a random large enough set of parties in random order.
    fn subset<F: PrimeField>(&mut self, o: &Op, sh: &[ShamirPrimeFieldShare<F>], s: F) {
        let ids = self.pick();
        let part: Vec<_> = ids.iter().map(|&i| sh[i]).collect();
        let co: Vec<usize> = ids.iter().map(|i| i + 1).collect();
        let sprop = self.share_prop.clone();
        match shamir::combine_field_element(&part, &co, self.t) { Ok(x) if x == s => {} Ok(_) => self.bad(&sprop, "reconstruct", o, format!("parties {co:?} reconstruct another value")), Err(e) => self.bad(&sprop, "reconstruct", o, format!("parties {co:?}: {e:#}")) }
        let two: Vec<Vec<_>> = part.iter().map(|x| vec![*x, ShamirPrimeFieldShare::new(x.a.double()), *x]).collect();
        match shamir::combine_field_elements(&two, &co, self.t) { Ok(x) if x == [s, s.double(), s] => {} _ => self.bad(&sprop, "reconstruct", o, format!("parties {co:?} reconstruct another vector")) }
        if self.t > 0 { if shamir::combine_field_element(&part[..self.t], &co[..self.t], self.t).is_ok() { self.bad(&sprop, "reconstruct", o, "too few shares are accepted".into()); } }
    }
    fn subset_p<C: CurveGroup>(&mut self, o: &Op, sh: &[ShamirPointShare<C>], s: C) {
        let ids = self.pick();
        let part: Vec<_> = ids.iter().map(|&i| sh[i].clone()).collect();
        let co: Vec<usize> = ids.iter().map(|i| i + 1).collect();
        let sprop = self.share_prop.clone();
        match shamir::combine_curve_point(&part, &co, self.t) { Ok(x) if x == s => {} Ok(_) => self.bad(&sprop, "reconstruct", o, format!("parties {co:?} reconstruct another point")), Err(e) => self.bad(&sprop, "reconstruct", o, format!("parties {co:?}: {e:#}")) }
    }
}

pub fn pick_nt(r: &mut Rng, big: bool) -> (usize, usize) { let v: &[(usize, usize)] = &[(3, 1), (3, 1), (4, 1), (5, 2), (5, 1), (6, 2), (7, 3), (7, 2), (2, 0), (3, 0), (8, 3), (6, 1)]; *r.pick(if big { v } else { &v[..5] }) }
fn make_shamir(r: &mut Rng, _prop: &str, i: u64, c: &mut Cfg) {
    let (n, t) = pick_nt(r, true);
    let tp = if i % 6 == 5 && n <= 5 { TCP } else { LOCAL };
    c.set("tp", tp).set("n", n as i64).set("t", t as i64).set("ops", r.usize(3, 24) as i64).set("curve", r.below(5) as i64).set("points", r.chance(2, 3) as i64).set("nets", r.usize(1, 3) as i64)
        .set("vmax", r.logu(1, 24) as i64).set("pre", r.logu(1, 80) as i64 - 1).set("workers", r.usize(1, 3) as i64).set("jitter_us", if r.chance(1, 2) { r.logu(1, 5000) as i64 } else { 0 }).set("hold", r.below(2) as i64);
    sched_knobs(r, c, n);
    c.set("seg_max", 16384);
    if tp == TCP { tcp_knobs(r, c); }
    if c.on("alloc_yield") { c.set("alloc_yield", c.get("alloc_yield").max(40)); }
    c.set("max_steps", 8_000_000);
}
fn make_faults(r: &mut Rng, _prop: &str, i: u64, c: &mut Cfg) {
    make_shamir(r, "", i, c);
    let (n, t) = pick_nt(r, false);
    c.set("n", n as i64).set("t", t as i64).set("ops", r.usize(2, 10) as i64);
    let tp = if i % 3 == 2 { TCP } else { LOCAL };
    c.set("tp", tp);
    if tp == TCP { tcp_knobs(r, c); c.set("jitter_us", 0).set("stall", 0); }
    let kinds: &[i64] = if tp == TCP { &[K_EXIT, K_RESET, K_LEAVE, K_HANG, K_MUTE, K_CUT, K_LONG, K_FEWER, K_BAD] } else { &[K_LEAVE, K_HANG, K_MUTE, K_SHORT, K_LONG, K_EMPTY, K_FEWER, K_MORE, K_FEWER, K_MORE, K_PREFIX, K_BAD] };
    c.set("fkind", *r.pick(kinds)).set("fp", r.below(n as u64) as i64).set("fat", r.logu(1, 60) as i64).set("farg", (r.next() >> 20) as i64).set("timeout_us", 2_000_000).set("faulty", 1).set("pre", r.logu(1, 12) as i64 - 1);
    c.set("points", r.chance(3, 4) as i64);
}

fn run_shamir(c: &Cfg) {
    match c.get("curve") { 0 | 4 => shamir_on::<ark_bn254::g1::Config>(c), 1 => shamir_on::<ark_bls12_381::g1::Config>(c), 2 => shamir_on::<ark_grumpkin::GrumpkinConfig>(c), _ => shamir_on::<ark_bn254::g2::Config>(c) }
}
const CAP: u64 = 2000 * SEC;
fn shamir_on<S: SWCurveConfig>(c: &Cfg) where Sf<S>: PrimeField {
    workers(c);
    wire(c);
    let faulty = c.on("faulty");
    let (n, t) = (c.us("n"), c.us("t"));
    let t = t.min((n - 1) / 2);
    let seed = c.get("seed") as u64;
    let mut r = Rng::new(seed ^ 0x5a);
    let mut o = link::opt(c);
    o.nets = if c.get("tp") == LOCAL { c.us("nets") } else { c.us("nets").clamp(1, 3) };
    // inputs and program
    let mut dr = rand_chacha::ChaCha12Rng::seed_from_u64(seed ^ 0xdea1);
    let vals: Vec<Sf<S>> = (0..5).map(|i| if i == 4 { konst(r.next()) } else { Sf::<S>::rand(&mut dr) }).collect();
    let pts: Vec<Projective<S>> = (0..3).map(|_| konst_p(r.next())).collect();
    let fs = shamir::share_field_elements(&vals, t, n, &mut dr);
    let ps: Vec<Vec<Ps<S>>> = pts.iter().map(|p| shamir::share_curve_point(*p, t, n, &mut dr)).collect();
    let (mut nf, mut np) = (vals.len(), pts.len());
    let mut g = Gen { r: &mut r, vmax: c.us("vmax").max(1), points: c.on("points"), nets: o.nets, cheap: faulty };
    let ops: Vec<Op> = (0..c.us("ops")).map(|_| { let x = g.op(nf, np, 0); let d = grows(&x); nf += d.0; np += d.1; x }).collect();
    note(|| format!("program {ops:?}"));
    let (prop, sprop) = if faulty { ("S04", "S04") } else { ("S01", "S02") };
    // dealing
    let mut j = Judge { prop: prop.into(), share_prop: sprop.into(), n, t, rng: Rng::new(seed ^ 0x991) };
    let mut plain: Plain<S> = Plain { f: vec![], p: vec![] };
    if fs.len() != n || fs.iter().any(|x| x.len() != vals.len()) { viol(sprop, "deal", "wrong number of shares dealt"); return; }
    for (i, v) in vals.iter().enumerate() { let sh: Vec<_> = fs.iter().map(|x| x[i]).collect(); let raw: Vec<_> = sh.iter().map(|x| x.a).collect(); match secret(&raw, t) { Ok(s) if s == *v => j.subset(&Op::Rand, &sh, s), e => viol(sprop, "deal", format!("dealt element {i} (n={n} t={t}): {}", if let Err(e) = e { e } else { "shares another value".into() })) } plain.f.push(Some(*v)); }
    for (i, v) in pts.iter().enumerate() { let raw: Vec<_> = ps[i].iter().map(|x| x.a).collect(); match secret_p(&raw, t) { Ok(s) if s == *v => j.subset_p(&Op::Rand, &ps[i], s), e => viol(sprop, "deal", format!("dealt point {i} (n={n} t={t}): {}", if let Err(e) = e { e } else { "shares another value".into() })) } plain.p.push(Some(*v)); }
    let ops = Arc::new(ops);
    let res: Arc<Glob<std::collections::BTreeMap<usize, Party<S>>>> = Arc::new(Glob::new());
    let (pre, hold) = (c.us("pre"), c.on("hold") && !faulty);
    let regs: Arc<Vec<Regs<S>>> = Arc::new((0..n).map(|p| Regs { f: fs[p].clone(), p: ps.iter().map(|x| x[p].clone()).collect() }).collect());
    let (ops2, res2) = (ops.clone(), res.clone());
    let all: Vec<usize> = (0..n).collect();
    let body = move |p: usize, env: Env| {
        if faulty { gate(76, n, CAP); }
        let nets = taps(&env);
        let put = |f: &mut dyn FnMut(&mut Party<S>)| res2.with(|m| f(m.entry(p).or_default()));
        put(&mut |x| x.t0 = os::now());
        let run = || -> eyre::Result<()> {
            let mut st: ShamirState<Sf<S>> = ShamirPreprocessing::new(n, t, pre, &nets[0])?.into();
            let mut r = regs[p].clone();
            for o in ops2.iter() {
                let g = match exec(o, &r, &nets, &mut st) { Ok(g) => g, Err(e) if format!("{e:#}").contains("nverse of zero") || format!("{e:#}").contains("invert zero") => Got::Fail(format!("{e:#}")), Err(e) => return Err(e.wrap_err(format!("operation {}", short(o)))) };
                push(o, &g, &mut r);
                let mut g = Some(g);
                put(&mut |x| x.got.push(g.take().unwrap()));
            }
            Ok(())
        };
        let e = run();
        put(&mut |x| { x.t1 = os::now(); x.end = Some(match &e { Ok(()) => Ok(()), Err(e) => Err(format!("{e:#}")) }) });
        if hold { gate(77, n, CAP); }
        drop(nets);
        drop(env);
    };
    let ids = parties(&o, prop, &all, &[], body);
    finish(prop, &ids, faulty, &o);
    let mut got: Vec<Option<Vec<Got<S>>>> = vec![];
    let (plan, hit, vg, dmg) = WIRE.with(|w| (w.plan, w.hit, w.victim_got, w.damaged.clone()));
    for p in 0..n {
        let x = res.with(|m| m.remove(&p)).unwrap_or_default();
        match &x.end {
            Some(Err(e)) if !faulty || !hit => viol(prop, "failed", format!("P{p} (n={n} t={t}): {e}")),
            Some(Ok(())) if vg && dmg.as_ref().is_some_and(|d| d.2 == p) => viol(prop, "accepted-damaged", format!("P{p} finished all operations although a message had the wrong length: {}", dmg.as_ref().unwrap().4)),
            _ => {}
        }
        if faulty && x.end.is_some() && x.t1 - x.t0 > 10 * o.timeout.unwrap_or(SEC) { viol(prop, "slow-error", format!("P{p} took {} ms with a timeout of {} ms", (x.t1 - x.t0) / os::MS, o.timeout.unwrap_or(0) / os::MS)); }
        got.push(if x.t0 == 0 { None } else { Some(x.got) });
    }
    if faulty { feat(format!("{} {}", kind_name(plan.kind), if hit { "hit" } else { "late" })); }
    for o in ops.iter() { let s = format!("{o:?}"); feat(format!("op {}", s.split(['(', ' ', '{']).next().unwrap_or(""))); }
    feat(format!("n{n} t{t}"));
    j.ops(&ops, &mut plain, &got);
}
struct Party<S: SWCurveConfig> { t0: u64, t1: u64, got: Vec<Got<S>>, end: Option<Result<(), String>> }
impl<S: SWCurveConfig> Default for Party<S> { fn default() -> Self { Party { t0: 0, t1: 0, got: vec![], end: None } } }

/// Wait for the parties; hangs and panics are violations (the faulty party may be stopped for good).
pub fn finish(prop: &str, ids: &[usize], faulty: bool, o: &Opt) {
    let stopped = |i: usize| faulty && WIRE.with(|w| w.hit && w.plan.party == i && matches!(w.plan.kind, K_EXIT | K_RESET | K_HANG));
    let lim = if faulty { 60 * o.timeout.unwrap_or(SEC) } else { CAP };
    let d = os::now() + lim;
    let ok = wait_for(d - os::now(), || ids.iter().enumerate().all(|(p, &i)| ended(i).is_some() || stopped(p)));
    if !ok { viol(prop, "hang", format!("parties do not finish: {} [{}]", unfinished(ids), os::describe_threads())); }
    for m in panics(ids) { viol(prop, "panic", m); }
}

// ---- correlated randomness --------------------------------------------------------------------------
fn make_pairs(r: &mut Rng, _prop: &str, i: u64, c: &mut Cfg) {
    make_shamir(r, "", i, c);
    c.set("tp", LOCAL).set("ops", r.usize(3, 14) as i64).set("points", 0).set("victim", r.below(8) as i64).set("phases", r.usize(1, 3) as i64).set("many", r.chance(1, 12) as i64);
}
#[derive(Clone, Debug)]
enum St { Get(usize, usize), Rand(usize, usize), Buffer(usize, usize), Fork(usize, usize), Par(Vec<(usize, usize)>), Mul(usize, usize, usize), MulVec(usize, Vec<usize>, Vec<usize>), PMul(usize, usize) }
/// A consumed pair, as far as one party sees it: its share of degree t and its share of degree 2t.
#[derive(Clone)]
struct Pair<S: SWCurveConfig> { what: String, t: Option<Sf<S>>, tt: Option<Sf<S>>, pt: Option<Projective<S>>, ptt: Option<Projective<S>> }
fn run_pairs(c: &Cfg) {
    match c.get("curve") { 0 | 4 => pairs_on::<ark_bn254::g1::Config>(c), 1 => pairs_on::<ark_bls12_381::g1::Config>(c), 2 => pairs_on::<ark_grumpkin::GrumpkinConfig>(c), _ => pairs_on::<ark_bn254::g1::Config>(c) }
}
/// Programs of requests for random pairs on a family of forked states, run in phases: each phase sets the whole
/// protocol up anew; all but the first have the entropy of the first but for one party.
fn pairs_on<S: SWCurveConfig>(c: &Cfg) where Sf<S>: PrimeField {
    const P: &str = "S03";
    workers(c);
    wire(c);
    let (n, t) = (c.us("n"), c.us("t"));
    let t = t.min((n - 1) / 2);
    let seed = c.get("seed") as u64;
    let mut r = Rng::new(seed ^ 0x5b);
    let mut o = link::opt(c);
    o.nets = 3;
    let mut dr = rand_chacha::ChaCha12Rng::seed_from_u64(seed ^ 0xdea2);
    let vals: Vec<Sf<S>> = (0..3).map(|_| Sf::<S>::rand(&mut dr)).collect();
    let fs = Arc::new(shamir::share_field_elements(&vals, t, n, &mut dr));
    let pv = Projective::<S>::rand(&mut dr);
    let ps = Arc::new(shamir::share_curve_point(pv, t, n, &mut dr));
    let mut states = 1usize;
    let many = c.on("many");
    let mut prog = vec![];
    for _ in 0..c.us("ops") {
        let k = r.below(states as u64) as usize;
        let cnt = |r: &mut Rng| if many && r.chance(1, 3) { r.usize(900, 2600) } else { r.logu(1, 40) as usize };
        prog.push(match r.below(12) {
            0 | 1 => St::Get(k, cnt(&mut r)),
            2 => St::Rand(k, r.usize(1, 4)),
            3 => St::Buffer(k, r.logu(1, 100) as usize - 1),
            4..=6 => { states += 1; St::Fork(k, if r.chance(1, 3) { r.usize(0, 3) } else { r.logu(1, 300) as usize - 1 }) }
            7 if states > 1 => { let mut v: Vec<usize> = (0..states).collect(); r.shuffle(&mut v); v.truncate(3); St::Par(v.into_iter().map(|s| (s, r.logu(1, 30) as usize)).collect()) }
            8 | 9 => St::Mul(k, r.below(2) as usize, r.below(2) as usize),
            10 => { let l = r.logu(1, 20) as usize; St::MulVec(k, (0..l).map(|_| r.below(3) as usize).collect(), (0..l).map(|_| r.below(3) as usize).collect()) }
            _ => St::PMul(k, r.below(3) as usize),
        });
    }
    note(|| format!("program {prog:?}"));
    for s in &prog { let s = format!("{s:?}"); feat(format!("op {}", s.split('(').next().unwrap_or(""))); }
    feat(format!("n{n} t{t}"));
    let phases = c.us("phases").clamp(1, 3);
    let victim = c.us("victim") % n;
    WIRE.with(|w| w.keep = true);
    type Hist<S> = Vec<Pair<S>>;
    let res: Arc<Glob<std::collections::BTreeMap<(usize, usize), Hist<S>>>> = Arc::new(Glob::new());
    let errs: Arc<Glob<Vec<String>>> = Arc::new(Glob::new());
    let all: Vec<usize> = (0..n).collect();
    let pre = c.us("pre");
    let (prog, res2, errs2) = (Arc::new(prog), res.clone(), errs.clone());
    let body = move |p: usize, env: Env| {
        let nets = taps(&env);
        for ph in 0..phases {
            // phase 1 repeats phase 0 with other entropy for one party, phase 2 with other entropy for all
            os::calls::reseed(p, os::rng::mix(seed ^ if ph == 2 || (ph == 1 && p == victim) { 0x77 + ph as u64 } else { 0 }, p as u64));
            let mut h: Hist<S> = vec![];
            let e = (|| -> eyre::Result<()> {
                let mut st: Vec<ShamirState<Sf<S>>> = vec![ShamirPreprocessing::new(n, t, pre, &nets[0])?.into()];
                let fp = |what: String, x: (Sf<S>, Sf<S>)| Pair::<S> { what, t: Some(x.0), tt: Some(x.1), pt: None, ptt: None };
                for (i, s) in prog.iter().enumerate() {
                    match s {
                        St::Get(k, m) => for q in 0..*m { let x = st[*k].get_pair(&nets[0])?; h.push(fp(format!("step {i} get {q} of state {k}"), x)); },
                        St::Rand(k, m) => for q in 0..*m { let x = st[*k].rand(&nets[0])?; h.push(Pair { what: format!("step {i} rand {q} of state {k}"), t: Some(x.a), tt: None, pt: None, ptt: None }); },
                        St::Buffer(k, m) => st[*k].buffer_triples(&nets[0], *m)?,
                        St::Fork(k, m) => { let f = st[*k].fork(*m)?; st.push(f); }
                        St::Par(v) => {
                            let mut mine: Vec<(usize, usize, &mut ShamirState<Sf<S>>)> = st.iter_mut().enumerate().filter_map(|(j, s)| v.iter().find(|x| x.0 == j).map(|x| (j, x.1, s))).collect();
                            mine.sort_by_key(|x| v.iter().position(|y| y.0 == x.0));
                            let run = |net: usize, k: usize, m: usize, s: &mut ShamirState<Sf<S>>| -> eyre::Result<Hist<S>> { (0..m).map(|q| s.get_pair(&nets[net]).map(|x| fp(format!("step {i} concurrent get {q} of state {k}"), x))).collect() };
                            let mut it = mine.into_iter();
                            let (a, b, d) = (it.next().unwrap(), it.next().unwrap(), it.next());
                            let (x, y, z) = mpc_net::join3(|| run(0, a.0, a.1, a.2), || run(1, b.0, b.1, b.2), || d.map(|d| run(2, d.0, d.1, d.2)).unwrap_or(Ok(vec![])));
                            h.extend(x?); h.extend(y?); h.extend(z?);
                        }
                        St::Mul(k, a, b) => {
                            let x = ar::local_mul_vec(&[fs[p][*a]], &[fs[p][*b]]);
                            masked(&mut h, i, *k, p, n, t, &x, |st| st.iter().map(|s| s.a).collect(), || Ok(vec![ar::mul(fs[p][*a], fs[p][*b], &nets[0], &mut st[*k])?]))?;
                        }
                        St::MulVec(k, a, b) => {
                            let (va, vb): (Vec<_>, Vec<_>) = (a.iter().map(|&j| fs[p][j]).collect(), b.iter().map(|&j| fs[p][j]).collect());
                            let x = ar::local_mul_vec(&va, &vb);
                            masked(&mut h, i, *k, p, n, t, &x, |st| st.iter().map(|s| s.a).collect(), || ar::mul_vec(&va, &vb, &nets[0], &mut st[*k]))?;
                        }
                        St::PMul(k, b) => {
                            let from = WIRE.with(|w| w.log.len());
                            let x = pt::scalar_mul(&ps[p], fs[p][*b], &nets[0], &mut st[*k])?;
                            let (m, kv) = king_msgs(from, p, n, t);
                            let m = m.and_then(|d| <Projective<S> as ark_serialize::CanonicalDeserialize>::deserialize_uncompressed_unchecked(&d[8..]).ok());
                            let kv = kv.and_then(|d| <Projective<S> as ark_serialize::CanonicalDeserialize>::deserialize_uncompressed_unchecked(&d[8..]).ok());
                            let kv = if p >= n - t { Some(Projective::zero()) } else { kv };
                            h.push(Pair { what: format!("step {i} point multiplication in state {k}"), t: None, tt: None, pt: if p == 0 { None } else { kv.map(|v| v - x.a) }, ptt: m.map(|m| m - ps[p].a * fs[p][*b].a) });
                        }
                    }
                }
                Ok(())
            })();
            if let Err(e) = e { errs2.with(|v| v.push(format!("P{p} in phase {ph}: {e:#}"))); }
            res2.with(|m| m.insert((ph, p), h));
        }
        gate(77, n, CAP);
    };
    let ids = parties(&o, P, &all, &[], body);
    finish(P, &ids, false, &o);
    errs.with(|v| for e in v.drain(..) { viol(P, "failed", format!("(n={n} t={t}) {e}")); });
    let g = <Projective<S> as PrimeGroup>::generator();
    let mut first: Vec<Option<Sf<S>>> = vec![];
    for ph in 0..phases {
        let h: Vec<Hist<S>> = all.iter().map(|p| res.with(|m| m.remove(&(ph, *p))).unwrap_or_default()).collect();
        let len = h[0].len();
        if h.iter().any(|x| x.len() != len) { viol(P, "out-of-step", "parties consumed different numbers of pairs"); return; }
        // no value is used twice by a party
        for (p, hp) in h.iter().enumerate() {
            for (deg, get) in [(t, (|x: &Pair<S>| x.t) as fn(&Pair<S>) -> Option<Sf<S>>), (2 * t, |x: &Pair<S>| x.tt)] {
                let mut seen: std::collections::HashMap<Vec<u8>, String> = Default::default();
                for x in hp {
                    let Some(v) = get(x) else { continue };
                    if v.is_zero() { viol(P, "zero-mask", format!("P{p}'s share of degree {deg} is zero: {} (n={n} t={t})", x.what)); }
                    let mut b = vec![];
                    ark_serialize::CanonicalSerialize::serialize_uncompressed(&v, &mut b).unwrap();
                    if let Some(y) = seen.insert(b, x.what.clone()) { viol(P, "reused", format!("P{p}'s random value of degree {deg} in [{}] is that of [{y}] (n={n} t={t})", x.what)); break; }
                }
                let pts: Vec<(Projective<S>, String)> = hp.iter().filter_map(|x| if deg == t && t < 2 * t || deg == t && deg == 0 { x.pt } else { x.ptt }.map(|v| (v, x.what.clone()))).take(12).collect();
                for (j, a) in pts.iter().enumerate() {
                    if a.0.is_zero() { viol(P, "zero-mask", format!("P{p}'s mask is zero: {} (n={n} t={t})", a.1)); }
                    for b in &pts[..j] { if a.0 == b.0 { viol(P, "reused", format!("P{p}'s mask of [{}] is that of [{}] (n={n} t={t})", a.1, b.1)); } }
                    for x in hp.iter().take(60) { if let Some(v) = get(x) { if g.mul(v) == a.0 { viol(P, "reused", format!("P{p}'s mask of [{}] is that of [{}] (n={n} t={t})", a.1, x.what)); } } }
                }
            }
        }
        // all parties hold shares of one value at both degrees
        let mut secrets: std::collections::HashMap<Vec<u8>, usize> = Default::default();
        for i in 0..len {
            let what = &h[0][i].what;
            let sh: Option<Vec<Sf<S>>> = h.iter().map(|x| x[i].t).collect();
            let Some(sh) = sh else { if ph == 0 { first.push(None); } continue };
            let s = match secret(&sh, t) { Ok(s) => s, Err(e) => { viol(P, "inconsistent", format!("[{what}] (n={n} t={t}): {e}")); continue; } };
            if s.is_zero() { viol(P, "zero-mask", format!("[{what}] (n={n} t={t}): the random value is zero")); }
            let mut b = vec![];
            ark_serialize::CanonicalSerialize::serialize_uncompressed(&s, &mut b).unwrap();
            if let Some(j) = secrets.insert(b, i) { viol(P, "reused", format!("the random value of [{what}] is that of [{}] (n={n} t={t})", h[0][j].what)); }
            if t > 0 && secret(&sh, t - 1).is_ok() { viol(P, "low-degree", format!("[{what}] (n={n} t={t}): {t} parties can reconstruct the random value")); }
            if let Some(sh2) = h.iter().map(|x| x[i].tt).collect::<Option<Vec<_>>>() {
                match secret(&sh2, 2 * t) { Ok(x) if x == s => {} Ok(_) => viol(P, "mismatch", format!("[{what}] (n={n} t={t}): the sharings of degree t and 2t hold different values")), Err(e) => viol(P, "inconsistent", format!("[{what}] (n={n} t={t}): {e}")) }
                if t > 0 && secret(&sh2, 2 * t - 1).is_ok() { viol(P, "low-degree", format!("[{what}] (n={n} t={t}): the sharing of degree 2t has a lower degree")); }
            }
            if ph == 0 { first.push(Some(s)); } else if (t > 0 || ph == 2) && first.get(i).copied().flatten() == Some(s) { viol(P, "predictable", format!("[{what}] (n={n} t={t}): the random value does not depend on {}", if ph == 1 { format!("P{victim}'s entropy") } else { "any entropy".into() })); }
        }
        feat(format!("phase {ph}"));
    }
}
/// The message a party sent to the king and the one it got from the king in its last multiplication, after `from` in the log.
fn king_msgs(from: usize, p: usize, n: usize, t: usize) -> (Option<Bytes>, Option<Bytes>) {
    WIRE.with(|w| {
        let m = if p > 0 && p <= 2 * t { w.log[from..].iter().rev().find(|s| s.net == 0 && s.from == p && s.to == 0).map(|s| s.data.clone()) } else { None };
        let k = if p > 0 && p < n - t { w.rlog.iter().rev().find(|s| s.net == 0 && s.from == 0 && s.to == p).map(|s| s.data.clone()) } else { None };
        (m, k)
    })
}
/// Run a multiplication of field elements and derive from the messages which masks it used.
fn masked<S: SWCurveConfig>(h: &mut Vec<Pair<S>>, i: usize, k: usize, p: usize, n: usize, t: usize, plain: &[Sf<S>], shares: impl Fn(&[Fs<S>]) -> Vec<Sf<S>>, f: impl FnOnce() -> eyre::Result<Vec<Fs<S>>>) -> eyre::Result<()> where Sf<S>: PrimeField {
    let from = WIRE.with(|w| w.log.len());
    let x = shares(&f()?);
    let (m, kv) = king_msgs(from, p, n, t);
    let dec = |d: Bytes| <Vec<Sf<S>> as ark_serialize::CanonicalDeserialize>::deserialize_uncompressed_unchecked(&d[..]).ok().filter(|v| v.len() == plain.len());
    let (m, kv) = (m.and_then(dec), kv.and_then(dec));
    for j in 0..plain.len() {
        let tt = m.as_ref().map(|m| m[j] - plain[j]);
        let t_ = if p == 0 { None } else if p >= n - t { Some(-x[j]) } else { kv.as_ref().map(|v| v[j] - x[j]) };
        h.push(Pair { what: format!("step {i} multiplication {j} in state {k}"), t: t_, tt, pt: None, ptt: None });
    }
    Ok(())
}
