//! Collaborative UltraHonk: replicated and Shamir provers on random circuits (all gate kinds, lookups, memory, copy
//! constraints) laid out by the harness, compared with the single-party prover and judged by the verifier.
use super::mpc::*;
use super::rep3::STUB;
use super::*;
use crate::os::SEC;
use ark_ec::{AffineRepr, CurveGroup, PrimeGroup};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use co_noir_common::crs::ProverCrs;
use co_noir_common::keys::plain_proving_key::PlainProvingKey;
use co_noir_common::keys::proving_key::ProvingKey;
use co_noir_common::keys::types::ActiveRegionData;
use co_noir_common::keys::verification_key::{VerifyingKey, VerifyingKeyBarretenberg};
use co_noir_common::mpc::{rep3::Rep3UltraHonkDriver, shamir::ShamirUltraHonkDriver, NoirUltraHonkProver};
use co_noir_common::polynomials::entities::PrecomputedEntities;
use co_noir_common::polynomials::polynomial::Polynomial;
use co_noir_common::transcript::{Poseidon2Sponge, Transcript, TranscriptHasher};
use co_noir_common::types::{Bn254G1, ZeroKnowledge};
use co_ultrahonk::prelude::{Rep3CoUltraHonk, ShamirCoUltraHonk, UltraHonk};
use mpc_core::protocols::{rep3, shamir};
use noir_types::HonkProof;
use rand::SeedableRng;
use std::collections::BTreeMap;
use std::sync::{Arc, OnceLock};
use tp::*;

type C = Bn254G1;
type F = ark_bn254::Fr;
type P = ark_bn254::Bn254;
const REAL_H: &[&str] = &["co-ultrahonk: prover with the replicated and Shamir drivers", "ultrahonk: single-party prover and verifier", "co-noir-common: keys, drivers, transcripts", "mpc-core: protocols/rep3, protocols/shamir", "mpc-net: local and tcp transports, join", "rayon, crossbeam-channel, std threads and locks"];
const SIMPLE: &[(&str, i64)] = &[("tp", 0), ("n", 3), ("t", 1), ("jitter_us", 0), ("workers", 1), ("gates", 1), ("pub", 0), ("hold", 1), ("zk", 0), ("keccak", 1), ("shamir", 0), ("serde", 0), ("copy", 0), ("lat_min_us", 10), ("lat_max_us", 10), ("seg_max", 65536)];

pub fn scenarios() -> Vec<Scn> {
    let s = |name, props, make| Scn { name, props, weight: 1, make, run, real: REAL_H, stub: STUB, simple: SIMPLE };
    vec![s("ultrahonk", &["H01"], make as fn(&mut Rng, &str, u64, &mut Cfg)), s("ultrahonk-faults", &["H02"], make_faults)]
}
fn common(r: &mut Rng, i: u64, c: &mut Cfg) {
    let sh = r.chance(2, 5);
    let (n, t) = if sh { *r.pick(&[(3, 1), (3, 1), (4, 1), (5, 2), (5, 1), (2, 0), (7, 3)]) } else { (3, 1) };
    let tp = if i % 7 == 6 && n <= 5 { TCP } else { LOCAL };
    c.set("tp", tp).set("shamir", sh as i64).set("n", n as i64).set("t", t as i64).set("workers", r.usize(1, 4) as i64).set("jitter_us", if r.chance(1, 4) { r.logu(10, 3000) as i64 } else { 0 });
    sched_knobs(r, c, n);
    c.set("seg_max", 16384);
    if tp == TCP { tcp_knobs(r, c); }
    if c.on("alloc_yield") { c.set("alloc_yield", c.get("alloc_yield").max(120)); }
    c.set("zk", r.chance(1, 2) as i64).set("keccak", r.chance(3, 4) as i64).set("serde", r.chance(1, 2) as i64).set("pub", (r.logu(1, 8) - 1) as i64).set("copy", r.below(4) as i64).set("kinds", if r.chance(1, 2) { 0xffff } else { (r.next() & 0xffff) as i64 });
    c.set("max_steps", 12_000_000);
}
fn make(r: &mut Rng, _p: &str, i: u64, c: &mut Cfg) {
    common(r, i, c);
    let big = c.get("n") > 4;
    c.set("gates", if i % 30 == 11 && !big { r.usize(30, 70) } else { r.logu(1, if big { 5 } else { 14 }) as usize } as i64).set("garble", (i % 6 == 4) as i64);
    if c.on("garble") { c.set("zk", 0); }
    let few = c.get("gates").min(6);
    if i % 4 == 1 { c.set("phases", 3).set("zk", 1).set("victim", r.below(8) as i64).set("gates", few).set("tp", LOCAL); if c.get("t") == 0 { c.set("n", 3).set("t", 1); } }
}
fn make_faults(r: &mut Rng, _p: &str, i: u64, c: &mut Cfg) {
    common(r, i, c);
    if c.get("n") > 4 { c.set("n", 4).set("t", 1); }
    let n = c.get("n");
    let tp = if i % 3 == 2 { TCP } else { LOCAL };
    c.set("tp", tp);
    if tp == TCP { tcp_knobs(r, c); c.set("jitter_us", 0).set("stall", 0).set("seg_max", 65536).set("sndbuf", 65536).set("rcvbuf", 65536); }
    let kinds: &[i64] = if tp == TCP { &[K_EXIT, K_RESET, K_LEAVE, K_HANG, K_MUTE, K_CUT, K_LONG, K_FEWER] } else { &[K_LEAVE, K_HANG, K_MUTE, K_SHORT, K_LONG, K_EMPTY, K_FEWER, K_MORE, K_PREFIX] };
    c.set("gates", r.logu(1, 5) as i64).set("fkind", *r.pick(kinds)).set("fp", r.below(n as u64) as i64).set("fat", r.logu(1, 160) as i64).set("farg", (r.next() >> 20) as i64).set("timeout_us", 2_000_000).set("faulty", 1);
}

// ---- reference string -----------------------------------------------------------------------------------
const SRS: usize = 1024;
struct Srs { tau: F, g1: Arc<ProverCrs<C>>, g2: ark_bn254::G2Affine }
static SRS_: OnceLock<Srs> = OnceLock::new();
pub fn prepare() {
    let tau = konst::<F>(0x7a0);
    let mut p = tau;
    let mut v = vec![C::generator().into_affine()];
    for _ in 1..SRS { v.push((C::generator() * p).into_affine()); p *= tau; }
    let _ = SRS_.set(Srs { tau, g1: Arc::new(ProverCrs { monomials: v }), g2: (ark_bn254::G2Projective::generator() * tau).into_affine() });
}
fn srs() -> &'static Srs { SRS_.get().unwrap() }
/// The commitment to a polynomial, from the trapdoor.
fn commit(v: &[F]) -> C { let mut s = F::zero(); for x in v.iter().rev() { s = s * srs().tau + x; } C::generator() * s }

// ---- circuits -------------------------------------------------------------------------------------------
const QM: usize = 0; const QC: usize = 1; const QL: usize = 2; const QR: usize = 3; const QO: usize = 4; const Q4: usize = 5;
const LOOKUP: usize = 6; const ARITH: usize = 7; const RANGE: usize = 8; const ELL: usize = 9; const MEM: usize = 10; const NNF: usize = 11; const PEXT: usize = 12; const PINT: usize = 13;
const SIGMA: usize = 14; const ID: usize = 18; const TABLE: usize = 22; const LFIRST: usize = 26; const LLAST: usize = 27;
const KINDS: [&str; 10] = ["arithmetic", "range", "elliptic", "lookup", "poseidon-external", "poseidon-internal", "non-native", "rom", "ram", "timestamp"];
type Cell = (usize, usize);
#[derive(Clone, Copy)]
enum Rec { Read, Write, SharedRead, SharedWrite }
#[derive(Clone)]
struct Circ { size: usize, npub: usize, w: Vec<Vec<F>>, q: Vec<Vec<F>>, recs: Vec<(usize, Rec)>, first: usize, last: usize, public: Vec<F> }
struct B<'a> { r: &'a mut Rng, copy: u64, w: Vec<[F; 4]>, q: Vec<[F; 14]>, groups: Vec<Vec<Cell>>, of: BTreeMap<Cell, usize>, from: Vec<Cell>, recs: Vec<(usize, Rec)>, table: Vec<[F; 4]>, toff: usize, counts: Vec<u64> }
type V = (F, Option<Cell>);
impl B<'_> {
    fn k(&mut self) -> F { konst(self.r.next()) }
    fn nz(&mut self) -> F { let x = self.k(); if x.is_zero() { F::one() } else { x } }
    /// A value: new, or the copy of one there is.
    fn val(&mut self) -> V {
        if !self.from.is_empty() && self.r.below(4) < self.copy { let c = self.from[self.r.below(self.from.len() as u64) as usize]; (self.w[c.1][c.0], Some(c)) } else { (self.k(), None) }
    }
    fn sel(&mut self) -> F { match self.r.below(4) { 0 => F::zero(), 1 => F::one(), _ => self.k() } }
    fn row(&mut self) -> usize { self.w.push([F::zero(); 4]); self.q.push([F::zero(); 14]); self.w.len() - 1 }
    fn join(&mut self, a: Cell, b: Cell) {
        let g = |s: &mut Self, c: Cell| *s.of.entry(c).or_insert_with(|| { s.groups.push(vec![c]); s.groups.len() - 1 });
        let (x, y) = (g(self, a), g(self, b));
        if x == y { return; }
        let v = std::mem::take(&mut self.groups[y]);
        for c in &v { self.of.insert(*c, x); }
        self.groups[x].extend(v);
    }
    fn put(&mut self, row: usize, col: usize, v: V) {
        self.w[row][col] = v.0;
        if let Some(c) = v.1 { if c != (col, row) { self.join(c, (col, row)); } }
        self.from.push((col, row));
    }
    fn fix(&mut self, row: usize, col: usize, x: F) { self.put(row, col, (x, None)); }
    /// A row of arbitrary values.
    fn any(&mut self) -> usize { let i = self.row(); for c in 0..4 { let v = self.val(); self.put(i, c, v); } i }
    fn arith(&mut self) {
        let i = self.any();
        let a = self.r.usize(1, 3) as u64;
        let mut q = [F::zero(); 14];
        for j in [QM, QL, QR, QO, Q4] { q[j] = self.sel(); }
        q[ARITH] = F::from(a);
        let mut next = [F::zero(); 4];
        if a > 1 {
            let j = self.row();
            if a == 3 && self.r.chance(1, 2) { q[QM] = self.k(); }
            for c in 0..4 { let v = self.val(); self.put(j, c, v); }
            if a == 3 { let x = q[QM] + self.w[i][0] + self.w[i][3]; self.w[j][0] = x; self.from.retain(|c| *c != (0, j)); self.unlink((0, j)); }
            next = self.w[j];
        }
        let w = self.w[i];
        let half = -F::from(2u64).inverse().unwrap();
        q[QC] = -((F::from(a) - F::from(3u64)) * q[QM] * w[0] * w[1] * half + q[QL] * w[0] + q[QR] * w[1] + q[QO] * w[2] + q[Q4] * w[3] + (F::from(a) - F::one()) * next[3]);
        self.q[i] = q;
    }
    fn unlink(&mut self, c: Cell) { if let Some(g) = self.of.remove(&c) { self.groups[g].retain(|x| *x != c); } }
    fn range(&mut self) {
        let (mut x, c) = self.val();
        let mut first = Some(c);
        for _ in 0..self.r.usize(1, 3) {
            let i = self.row();
            for col in 0..4 { if first.is_none() { x += F::from(self.r.below(4)); } self.put(i, col, (x, first.take().flatten())); }
            self.q[i][RANGE] = F::one();
        }
        x += F::from(self.r.below(4));
        let j = self.any();
        self.unlink((0, j));
        self.w[j][0] = x;
    }
    fn curve_point(&mut self) -> (F, F) { loop { let x = F::from(self.r.next()); if let Some(y) = (x * x * x - F::from(17u64)).sqrt() { return (x, if self.r.chance(1, 2) { y } else { -y }); } } }
    fn elliptic(&mut self) {
        let (mut x1, mut y1) = self.curve_point();
        let mut i = self.any();
        for c in 1..3 { self.unlink((c, i)); }
        self.w[i][1] = x1; self.w[i][2] = y1;
        for _ in 0..self.r.usize(1, 3) {
            let j = self.any();
            for c in 0..4 { self.unlink((c, j)); }
            self.q[i][ELL] = F::one();
            let (x3, y3);
            if self.r.chance(1, 2) {
                self.q[i][QM] = F::one();
                let l = x1 * x1 * F::from(3u64) / (y1 + y1);
                x3 = l * l - x1 - x1;
                y3 = l * (x1 - x3) - y1;
            } else {
                let (x2, y2) = self.curve_point();
                if x2 == x1 { break; }
                let s = if self.r.chance(1, 2) { F::one() } else { -F::one() };
                self.q[i][QL] = s;
                let l = (s * y2 - y1) / (x2 - x1);
                x3 = l * l - x1 - x2;
                y3 = l * (x1 - x3) - y1;
                self.w[j][0] = x2; self.w[j][3] = y2;
            }
            self.w[j][1] = x3; self.w[j][2] = y3;
            (x1, y1, i) = (x3, y3, j);
        }
    }
    fn lookup(&mut self) {
        if self.table.is_empty() {
            self.toff = self.r.usize(0, 6);
            let idx = F::from(self.r.below(40));
            let two = if self.r.chance(1, 2) { idx } else { F::from(self.r.below(40)) };
            for k in 0..self.r.usize(1, 9) { let e = [self.k(), self.k(), self.k(), if k < 4 { idx } else { two }]; self.table.push(e); self.counts.push(0); }
        }
        let n = self.r.usize(1, 4);
        let rows: Vec<usize> = (0..=n).map(|_| self.row()).collect();
        for c in 0..4 { let v = self.val(); self.put(rows[n], c, v); }
        for k in (0..n).rev() {
            let (i, j) = (rows[k], rows[k + 1]);
            let e = self.r.below(self.table.len() as u64) as usize;
            self.counts[e] += 1;
            let t = self.table[e];
            let q = [self.sel(), self.sel(), self.sel()];
            let next = self.w[j];
            self.q[i][LOOKUP] = F::one();
            self.q[i][QO] = t[3]; self.q[i][QR] = q[0]; self.q[i][QM] = q[1]; self.q[i][QC] = q[2];
            for c in 0..3 { self.fix(i, c, t[c] - q[c] * next[c]); }
            let v = self.val(); self.put(i, 3, v);
        }
    }
    fn poseidon(&mut self, ext: bool) {
        let mut i = self.any();
        for _ in 0..self.r.usize(1, 3) {
            let s = self.w[i];
            let mut q = [F::zero(); 4];
            for x in q.iter_mut() { *x = self.k(); }
            let p5 = |x: F| x.square().square() * x;
            let v: Vec<F> = if ext {
                let u: Vec<F> = (0..4).map(|k| p5(s[k] + q[k])).collect();
                [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]].iter().map(|m: &[u64; 4]| (0..4).map(|k| u[k] * F::from(m[k])).sum()).collect()
            } else {
                let d = &mpc_core::gadgets::poseidon2::POSEIDON2_BN254_T4_PARAMS.mat_internal_diag_m_1;
                let u = [p5(s[0] + q[0]), s[1], s[2], s[3]];
                let t: F = u.iter().sum();
                (0..4).map(|k| u[k] * d[k] + t).collect()
            };
            if ext { for (k, x) in [QL, QR, QO, Q4].into_iter().zip(q) { self.q[i][k] = x; } } else { self.q[i][QL] = q[0]; }
            self.q[i][if ext { PEXT } else { PINT }] = F::one();
            i = self.row();
            for (c, x) in v.into_iter().enumerate() { self.fix(i, c, x); }
        }
    }
    fn nnf(&mut self) {
        let i = self.any();
        let j = self.any();
        let l = F::from(2u64).pow([68]);
        let b = F::from(1u64 << 14);
        let (w, x) = (self.w[i], self.w[j]);
        let set = |s: &mut Self, r: usize, v: F| { s.unlink((3, r)); s.w[r][3] = v; };
        let q: &[usize];
        match self.r.below(5) {
            0 => { q = &[QO, Q4]; set(self, i, (((x[1] * b + x[0]) * b + w[2]) * b + w[1]) * b + w[0]); }
            1 => { q = &[QO, QM]; set(self, j, (((x[2] * b + x[1]) * b + x[0]) * b + w[3]) * b + w[2]); }
            2 => { q = &[QR, QO]; set(self, i, (w[0] * x[1] + x[0] * w[1]) * l + x[0] * x[1] - w[2]); }
            3 => { q = &[QR, Q4]; set(self, j, (w[0] * w[3] + w[1] * w[2] - x[2]) * l + w[0] * x[1] + x[0] * w[1]); }
            _ => { q = &[QR, QM]; set(self, j, (w[0] * x[1] + x[0] * w[1]) * l + x[0] * x[1] + w[3] - x[2]); }
        }
        self.q[i][NNF] = F::one();
        for k in q { self.q[i][*k] = F::one(); }
    }
    /// A row whose last wire is filled in by the prover.
    fn record(&mut self, v: [F; 3], rec: Rec) -> usize {
        let i = self.row();
        for c in 0..3 { self.fix(i, c, v[c]); }
        self.recs.push((i, rec));
        self.q[i][MEM] = F::one();
        i
    }
    fn rom(&mut self) {
        let cells: Vec<[F; 2]> = (0..self.r.usize(1, 3)).map(|_| [self.k(), self.k()]).collect();
        let base = self.k();
        let mut reads: Vec<usize> = (0..self.r.usize(1, 4)).map(|_| self.r.below(cells.len() as u64) as usize).collect();
        let kind = |s: &mut Self| if s.r.chance(1, 4) { Rec::SharedRead } else { Rec::Read };
        let mut by: Vec<Vec<usize>> = vec![vec![]; cells.len()];
        for &k in &reads { let rec = kind(self); let i = self.record([base + F::from(k as u64), cells[k][0], cells[k][1]], rec); self.q[i][QL] = F::one(); self.q[i][QM] = F::one(); by[k].push(i); }
        for k in 0..cells.len() { if !reads.contains(&k) { reads.push(k); } }
        reads.sort();
        for (n, &k) in reads.iter().enumerate() {
            let rec = kind(self);
            let i = self.record([base + F::from(k as u64), cells[k][0], cells[k][1]], rec);
            self.q[i][QL] = F::one();
            self.q[i][if n + 1 < reads.len() { QR } else { QM }] = F::one();
            if let Some(u) = by[k].pop() { self.join((3, u), (3, i)); }
        }
    }
    fn ram(&mut self) {
        let base = self.k();
        let cells = self.r.usize(1, 3);
        let mut t = 0u64;
        let mut log: Vec<(u64, u64, F, bool)> = vec![];
        let mut mem = vec![F::zero(); cells];
        for (k, m) in mem.iter_mut().enumerate() { *m = self.k(); log.push((k as u64, t, *m, true)); t += 1; }
        for _ in 0..self.r.usize(1, 5) { let k = self.r.below(cells as u64) as usize; let w = self.r.chance(1, 2); if w { mem[k] = self.k(); } log.push((k as u64, t, mem[k], w)); t += 1; }
        let kind = |s: &mut Self, w: bool| match (s.r.chance(1, 3), w) { (true, true) => Rec::SharedWrite, (true, false) => Rec::SharedRead, (false, true) => Rec::Write, _ => Rec::Read };
        let mut un = vec![];
        for &(k, t, v, w) in &log { let rec = kind(self, w); let i = self.record([base + F::from(k), F::from(t), v], rec); self.q[i][QL] = F::one(); self.q[i][QM] = F::one(); if w { self.q[i][QC] = F::one(); } un.push(((k, t), i)); }
        log.sort_by_key(|x| (x.0, x.1));
        for (n, &(k, t, v, w)) in log.iter().enumerate() {
            let rec = kind(self, w);
            let i = self.record([base + F::from(k), F::from(t), v], rec);
            if n + 1 < log.len() { self.q[i][QO] = F::one(); } else { self.q[i][MEM] = F::zero(); }
            let u = un.iter().find(|x| x.0 == (k, t)).unwrap().1;
            self.join((3, u), (3, i));
        }
    }
    fn stamp(&mut self) {
        let i = self.any();
        let j = self.any();
        let x = (F::one() - (self.w[j][0] - self.w[i][0])) * (self.w[j][1] - self.w[i][1]);
        self.unlink((2, i));
        self.w[i][2] = x;
        self.q[i][MEM] = F::one(); self.q[i][QL] = F::one(); self.q[i][Q4] = F::one();
    }
}
fn circuit(c: &Cfg) -> (Circ, Vec<&'static str>) {
    let mut r = Rng::new(c.get("seed") as u64 ^ 0x401c);
    let npub = c.us("pub") + 8;
    let public: Vec<F> = (0..npub).map(|_| konst(r.next())).collect();
    let garble = c.on("garble");
    let mut b = B { r: &mut r, copy: c.or("copy", 0) as u64, w: vec![], q: vec![], groups: vec![], of: BTreeMap::new(), from: vec![], recs: vec![], table: vec![], toff: 0, counts: vec![] };
    b.row();
    for x in &public { let i = b.row(); b.fix(i, 0, *x); b.fix(i, 1, *x); b.join((0, i), (1, i)); }
    // the first cell of a public input's class is the one the verifier knows
    let mask = c.or("kinds", 0xffff) as u64 & 0x3ff;
    let kinds: Vec<usize> = (0..10).filter(|k| mask == 0 || mask >> k & 1 == 1).collect();
    let mut used = vec![];
    for _ in 0..c.us("gates").max(1) {
        let k = *b.r.pick(&kinds);
        used.push(KINDS[k]);
        match k { 0 => b.arith(), 1 => b.range(), 2 => b.elliptic(), 3 => b.lookup(), 4 => b.poseidon(true), 5 => b.poseidon(false), 6 => b.nnf(), 7 => b.rom(), 8 => b.ram(), _ => b.stamp() }
        if b.w.len() > 230 { break; }
    }
    b.any();
    let rows = b.w.len();
    let size = (rows.max(b.toff + b.table.len()) + 4).next_power_of_two().max(16);
    let mut w = vec![vec![F::zero(); size]; 6];
    let mut q = vec![vec![F::zero(); size]; 28];
    for i in 0..rows { for k in 0..4 { w[k][i] = b.w[i][k]; } for k in 0..14 { q[k][i] = b.q[i][k]; } }
    for (k, t) in b.table.iter().enumerate() {
        for c in 0..4 { q[TABLE + c][b.toff + k] = t[c]; }
        w[4][b.toff + k] = F::from(b.counts[k]);
        w[5][b.toff + k] = F::from((b.counts[k] > 0) as u64);
    }
    let id = |(col, row): Cell| F::from(row as u64 + ((col as u64) << 28));
    for i in 1..rows { for k in 0..4 { q[ID + k][i] = id((k, i)); q[SIGMA + k][i] = id((k, i)); } }
    for g in &b.groups {
        let mut g = g.clone();
        g.sort();
        for (k, c) in g.iter().enumerate() { q[SIGMA + c.0][c.1] = id(g[(k + 1) % g.len()]); }
    }
    for (i, _) in public.iter().enumerate() {
        // the cycle of a public input continues outside of the table
        q[SIGMA][1 + i] = -F::from(i as u64 + 2);
        let mut cyc: Vec<Cell> = b.groups[b.of[&(0, 1 + i)]].iter().copied().filter(|c| *c != (0, 1 + i)).collect();
        cyc.sort_by_key(|c| (*c != (1, 1 + i), *c));
        for (k, c) in cyc.iter().enumerate() { q[SIGMA + c.0][c.1] = if k + 1 < cyc.len() { id(cyc[k + 1]) } else { id((0, 1 + i)) }; }
    }
    q[LFIRST][0] = F::one();
    q[LLAST][rows - 1] = F::one();
    let recs = b.recs.clone();
    if garble {
        // gates need not hold: only the single-party prover is the measure; copies and lookups still do
        for i in 1..rows {
            if !q[LOOKUP][i].is_zero() { continue; }
            for k in (0..6).chain(7..14) { if b.r.chance(1, 5) { q[k][i] = konst(b.r.next()); } }
        }
    }
    (Circ { size, npub, w, q, recs, first: 1, last: rows - 1, public }, used)
}
impl Circ {
    fn region(&self) -> ActiveRegionData { let mut a = ActiveRegionData::new(); a.add_range(self.first, self.last + 1); a }
    fn plain(&self) -> PlainProvingKey<C> {
        let mut k = PlainProvingKey::<C> { crs: srs().g1.clone(), circuit_size: self.size as u32, public_inputs: self.public.clone(), num_public_inputs: self.npub as u32, pub_inputs_offset: 1, final_active_wire_idx: self.last, active_region_data: self.region(), ..Default::default() };
        for (p, v) in k.polynomials.witness.elements.iter_mut().zip(&self.w) { *p = Polynomial::new(v.clone()); }
        for (p, v) in k.polynomials.precomputed.elements.iter_mut().zip(&self.q) { *p = Polynomial::new(v.clone()); }
        for (i, r) in &self.recs { if matches!(r, Rec::Read | Rec::SharedRead) { k.memory_read_records.push(*i as u32) } else { k.memory_write_records.push(*i as u32) } }
        k
    }
    fn vk(&self) -> VerifyingKey<P> {
        let mut commitments = PrecomputedEntities::default();
        for (c, v) in commitments.elements.iter_mut().zip(&self.q) { *c = commit(v).into_affine(); }
        VerifyingKey { crs: srs().g2, inner_vk: VerifyingKeyBarretenberg { log_circuit_size: self.size.ilog2() as u64, num_public_inputs: self.npub as u64, pub_inputs_offset: 1, commitments } }
    }
    fn key<T: NoirUltraHonkProver<C>>(&self, shares: Vec<T::ArithmeticShare>, types: Vec<T::ArithmeticShare>) -> eyre::Result<ProvingKey<T, C>> {
        let mut plain = self.plain();
        let shared = |r: &Rec| matches!(r, Rec::SharedRead | Rec::SharedWrite);
        let of = |w: bool| self.recs.iter().filter(|x| !shared(&x.1) && matches!(x.1, Rec::Write) == w).map(|x| x.0 as u32).collect();
        plain.memory_read_records = of(false);
        plain.memory_write_records = of(true);
        let mut k = ProvingKey::<T, C>::from_plain_key_and_shares(&plain, shares)?;
        k.memory_records_shared = self.recs.iter().filter(|x| shared(&x.1)).map(|x| x.0 as u32).zip(types).collect();
        Ok(k)
    }
    fn types(&self) -> Vec<F> { self.recs.iter().filter_map(|x| match x.1 { Rec::SharedRead => Some(F::zero()), Rec::SharedWrite => Some(F::one()), _ => None }).collect() }
    /// The polynomials that depend on challenges: the fourth wire, the inverses of the lookups, the permutation product.
    fn derived(&self, eta: F, beta: F, gamma: F) -> [Vec<F>; 3] {
        let mut w4 = self.w[3].clone();
        for (i, r) in &self.recs { w4[*i] += self.w[0][*i] * eta + self.w[1][*i] * eta.square() + self.w[2][*i] * eta.square() * eta + if matches!(r, Rec::Write | Rec::SharedWrite) { F::one() } else { F::zero() }; }
        let b = [F::one(), beta, beta.square(), beta.square() * beta];
        let inv = (0..self.size).map(|i| {
            if self.q[LOOKUP][i].is_zero() && self.w[5][i].is_zero() { return F::zero(); }
            let next = |k: usize| self.w[k].get(i + 1).copied().unwrap_or_default();
            let e = [self.w[0][i] + self.q[QR][i] * next(0), self.w[1][i] + self.q[QM][i] * next(1), self.w[2][i] + self.q[QC][i] * next(2), self.q[QO][i]];
            let rd: F = gamma + (0..4).map(|k| e[k] * b[k]).sum::<F>();
            let wr: F = gamma + (0..4).map(|k| self.q[TABLE + k][i] * b[k]).sum::<F>();
            (rd * wr).inverse().unwrap_or_default()
        }).collect();
        let mut z = vec![F::zero(); self.size];
        let mut acc = F::one();
        for i in self.first..=self.last {
            z[i] = acc;
            for k in 0..4 { let x = if k == 3 { w4[i] } else { self.w[k][i] }; acc *= (x + beta * self.q[ID + k][i] + gamma) / (x + beta * self.q[SIGMA + k][i] + gamma); }
        }
        [w4, inv, z]
    }
}

// ---- runs -----------------------------------------------------------------------------------------------
fn run(c: &Cfg) { if c.on("keccak") { honk_on::<sha3::Keccak256>(c) } else { honk_on::<Poseidon2Sponge>(c) } }
#[derive(Clone)]
enum Share { R(Vec<rep3::Rep3PrimeFieldShare<F>>, Vec<rep3::Rep3PrimeFieldShare<F>>), S(Vec<shamir::ShamirPrimeFieldShare<F>>, Vec<shamir::ShamirPrimeFieldShare<F>>) }
fn wash<T: NoirUltraHonkProver<C>>(k: ProvingKey<T, C>, on: bool) -> eyre::Result<ProvingKey<T, C>> { if on { Ok(bincode::deserialize(&bincode::serialize(&k)?)?) } else { Ok(k) } }
const EARLY: [&str; 8] = ["W_L", "W_R", "W_O", "LOOKUP_READ_COUNTS", "LOOKUP_READ_TAGS", "W_4", "LOOKUP_INVERSES", "Z_PERM"];

fn honk_on<H: TranscriptHasher<F>>(c: &Cfg) where H::DataType: Sync {
    workers(c);
    wire(c);
    let sh = c.on("shamir");
    let (n, t) = (if sh { c.us("n") } else { 3 }, c.us("t"));
    let t = t.min((n - 1) / 2);
    let seed = c.get("seed") as u64;
    let (faulty, zk, garble) = (c.on("faulty"), c.on("zk"), c.on("garble"));
    let has_zk = ZeroKnowledge::from(zk);
    let prop: &'static str = if faulty { "H02" } else { "H01" };
    let (circ, used) = circuit(c);
    let circ = Arc::new(circ);
    let vk = Arc::new(circ.vk());
    let what = format!("circuit of size {} with {} public inputs and {} gates ({}), {}, {}, {}", circ.size, circ.npub - 8, used.len(), used.join(" "), if zk { "zero-knowledge" } else { "plain" }, if c.on("keccak") { "Keccak" } else { "Poseidon2" }, if sh { format!("Shamir n={n} t={t}") } else { "replicated".into() });
    note(|| what.clone());
    for u in &used { feat(format!("gate {u}")); }
    feat(if sh { format!("Shamir n{n} t{t}") } else { "replicated".into() });
    feat(format!("size {}", circ.size));
    feat(format!("zk {zk} keccak {}", c.on("keccak")));
    if garble { feat("garbled"); }
    let mut o = link::opt(c);
    o.nets = 1;
    let mut dr = rand_chacha::ChaCha12Rng::seed_from_u64(seed ^ 0xdea3);
    let w: Vec<F> = circ.w.concat();
    let types = circ.types();
    let dealt: Arc<Vec<Share>> = Arc::new(if sh {
        let a = shamir::share_field_elements(&w, t, n, &mut dr);
        let b = if types.is_empty() { vec![vec![]; n] } else { shamir::share_field_elements(&types, t, n, &mut dr) };
        a.into_iter().zip(b).map(|(x, y)| Share::S(x, y)).collect()
    } else {
        let a = rep3::share_field_elements(&w, &mut dr);
        let b = rep3::share_field_elements(&types, &mut dr);
        a.into_iter().zip(b).map(|(x, y)| Share::R(x, y)).collect()
    });
    type Out<H> = (Vec<<H as TranscriptHasher<F>>::DataType>, Vec<<H as TranscriptHasher<F>>::DataType>);
    type Res<H> = BTreeMap<(usize, usize), (u64, u64, Result<Out<H>, String>)>;
    let res: Arc<Glob<Res<H>>> = Arc::new(Glob::new());
    let phases = (c.or("phases", 1) as usize).clamp(1, 3);
    let victim = c.or("victim", 0) as usize % n;
    let all: Vec<usize> = (0..n).collect();
    let hold = c.on("hold") && !faulty;
    let serde = c.on("serde");
    let (res2, circ2, vk2, dealt2) = (res.clone(), circ.clone(), vk.clone(), dealt.clone());
    let body = move |p: usize, env: Env| {
        if faulty { gate(76, n, 2000 * os::SEC); }
        let nets = taps(&env);
        for ph in 0..phases {
            if phases > 1 { os::calls::reseed(p, os::rng::mix(seed ^ if ph == 2 || (ph == 1 && p == victim) { 0x77 + ph as u64 } else { 0 }, p as u64)); }
            let t0 = os::now();
            let g: eyre::Result<(HonkProof<H::DataType>, Vec<H::DataType>)> = (|| match dealt2[p].clone() {
                Share::R(w, ty) => Rep3CoUltraHonk::<C, H>::prove(&nets[0], wash(circ2.key::<Rep3UltraHonkDriver>(w, ty)?, serde)?, &srs().g1, has_zk, &vk2.inner_vk),
                Share::S(w, ty) => ShamirCoUltraHonk::<C, H>::prove(&nets[0], n, t, wash(circ2.key::<ShamirUltraHonkDriver>(w, ty)?, serde)?, &srs().g1, has_zk, &vk2.inner_vk),
            })();
            let mut g = Some(g.map(|(a, b)| (a.inner(), b)).map_err(|e| format!("{e:#}")));
            let t1 = os::now();
            res2.with(|m| m.insert((ph, p), (t0, t1, g.take().unwrap())));
        }
        if hold { gate(77, n, 2000 * os::SEC); }
        drop(nets);
        drop(env);
    };
    let ids = parties(&o, prop, &all, &[], body);
    finish(prop, &ids, faulty, &o);
    let (plan, hit, vg, dmg) = WIRE.with(|w| (w.plan, w.hit, w.victim_got, w.damaged.clone()));
    if faulty { feat(format!("{} {}", kind_name(plan.kind), if hit { "hit" } else { "late" })); }
    let valid = |p: &[H::DataType], public: &[H::DataType]| -> bool {
        let (p, public) = (p.to_vec(), public.to_vec());
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| UltraHonk::<C, H>::verify::<P>(HonkProof::new(p), &public, &vk, has_zk).unwrap_or(false))).unwrap_or(false)
    };
    let public: Vec<H::DataType> = circ.public[..circ.npub - 8].iter().flat_map(|x| H::convert_scalarfield_into::<C>(x)).collect();
    // what one party alone would prove
    let alone: Option<Out<H>> = if zk { None } else { match UltraHonk::<C, H>::prove(circ.plain(), ZeroKnowledge::No, &vk.inner_vk) { Ok((a, b)) => Some((a.inner(), b)), Err(e) => { viol(prop, "alone", format!("the single-party prover fails ({what}): {e:#}")); None } } };
    if let (Some((a, b)), false) = (&alone, garble) { if !valid(a, b) { viol(prop, "alone-invalid", format!("the single-party prover's proof does not verify ({what})")); } }
    let mut r = Rng::new(seed ^ 0x77a);
    let mut seen: Vec<Option<Vec<H::DataType>>> = vec![];
    for ph in 0..phases {
        let mut first: Option<(usize, Vec<H::DataType>)> = None;
        for p in 0..n {
            let Some((t0, t1, g)) = res.with(|m| m.remove(&(ph, p))) else { continue };
            if faulty && t1 - t0 > 10 * o.timeout.unwrap_or(SEC) { viol(prop, "slow-error", format!("P{p} took {} ms with a timeout of {} ms ({what})", (t1 - t0) / os::MS, o.timeout.unwrap_or(0) / os::MS)); }
            match g {
                Err(e) => { if !faulty || !hit { viol(prop, "failed", format!("P{p} ({what}): {e}")); } }
                Ok((pf, pi)) => {
                    if vg && dmg.as_ref().is_some_and(|d| d.2 == p) { viol(prop, "accepted-damaged", format!("P{p} outputs a proof although a message had the wrong length: {} ({what})", dmg.as_ref().unwrap().4)); }
                    if pi != public { viol(prop, "public-inputs", format!("P{p}'s public inputs are not those of the circuit ({what})")); }
                    if let Some((a, _)) = &alone { if *a != pf && !faulty { let k = a.iter().zip(&pf).position(|x| x.0 != x.1); viol(prop, "not-alone", format!("P{p}'s proof is not the single-party prover's: element {k:?} of {} ({what})", a.len())); } }
                    match &first {
                        Some((_, f)) if *f == pf => {}
                        Some((q, _)) if !faulty => viol(prop, "different", format!("P{p} and P{q} output different proofs ({what})")),
                        _ => {
                            if !garble && !valid(&pf, &public) { viol(prop, "invalid", format!("P{p}'s proof does not verify ({what})")); }
                            if first.is_none() { first = Some((p, pf)); }
                        }
                    }
                }
            }
        }
        if let (Some((p, f)), true) = (&first, !faulty && !garble && ph == 0) {
            if !public.is_empty() {
                let mut x = public.clone();
                let k = r.below(x.len() as u64) as usize;
                let was = x[k];
                x[k] = H::convert_scalarfield_into::<C>(&(circ.public[k] + F::one()))[0];
                if x[k] != was && valid(f, &x) { viol(prop, "accepts-other", format!("P{p}'s proof verifies against another public input {k} ({what})")); }
                if valid(f, &public[1..]) { viol(prop, "accepts-other", format!("P{p}'s proof verifies with a public input missing ({what})")); }
            }
            let mut x = f.clone();
            let k = r.usize(8, x.len() - 1);
            let d = H::convert_scalarfield_into::<C>(&konst::<F>(r.next()))[0];
            if x[k] != d && d != H::DataType::default() && x[k] != H::DataType::default() { x[k] = d; if valid(&x, &public) { viol(prop, "accepts-altered", format!("P{p}'s proof verifies with element {k} of {} altered ({what})", f.len())); } }
        }
        seen.push(first.map(|x| x.1));
    }
    if faulty || garble { return; }
    // ---- early commitments: against the trapdoor, and their blinding
    let mut inner: Vec<Vec<C>> = vec![];
    for (ph, f) in seen.iter().enumerate() {
        let Some(f) = f else { inner.push(vec![]); continue };
        let mut tr = Transcript::<F, H>::new_verifier(HonkProof::new(public.iter().chain(f.iter()).copied().collect()));
        let got = (|| -> eyre::Result<(Vec<C>, [F; 3])> {
            let h = vk.hash_with_origin_tagging::<H, C>("", &mut tr);
            tr.add_fr_to_hash_buffer::<C>("VK_HASH".into(), h);
            for i in 0..circ.npub { tr.receive_fr_from_prover::<C>(format!("PUBLIC_INPUT_{i}"))?; }
            let mut v: Vec<C> = vec![];
            if zk { tr.receive_point_from_prover::<C>("Gemini:masking_poly_comm".into())?; }
            for k in 0..3 { v.push(tr.receive_point_from_prover::<C>(EARLY[k].into())?.into_group()); }
            let eta = tr.get_challenge::<C>("eta".into());
            for k in 3..6 { v.push(tr.receive_point_from_prover::<C>(EARLY[k].into())?.into_group()); }
            let bg = tr.get_challenges::<C>(&["beta".to_string(), "gamma".to_string()]);
            for k in 6..8 { v.push(tr.receive_point_from_prover::<C>(EARLY[k].into())?.into_group()); }
            Ok((v, [eta, bg[0], bg[1]]))
        })();
        let Ok((v, [eta, beta, gamma])) = got else { viol(prop, "malformed", format!("the proof cannot be read ({what})")); continue };
        let [w4, inv, z] = circ.derived(eta, beta, gamma);
        let plain: [&[F]; 8] = [&circ.w[0], &circ.w[1], &circ.w[2], &circ.w[4], &circ.w[5], &w4, &inv, &z];
        let d: Vec<C> = v.iter().zip(plain).map(|(c, p)| *c - commit(p)).collect();
        for (k, x) in d.iter().enumerate() {
            if zk && x.is_zero() { viol(prop, "zero-blinding", format!("the commitment to {} is not blinded (run {ph}, {what})", EARLY[k])); }
            if !zk && !x.is_zero() { viol(prop, "wrong-commitment", format!("the commitment to {} is not that to the polynomial ({what})", EARLY[k])); }
            if zk { for j in 0..k { if d[j] == *x { viol(prop, "reused-blinding", format!("{} and {} have the same blinding (run {ph}, {what})", EARLY[j], EARLY[k])); } } }
        }
        inner.push(d);
    }
    if phases < 2 || !zk { return; }
    for a in 0..inner.len() { for b in a + 1..inner.len() {
        let who = if a == 0 && b == 1 { format!("with other randomness of P{victim} only") } else { "with other randomness".to_string() };
        for (k, (x, y)) in inner[a].iter().zip(&inner[b]).enumerate() { if x == y { viol(prop, "unblinded", format!("the blinding of {} is the same in a run {who} ({what})", EARLY[k])); } }
        let (Some(x), Some(y)) = (&seen[a], &seen[b]) else { continue };
        for k in 8..x.len().min(y.len()) { if x[k] == y[k] && x[k] != H::DataType::default() { viol(prop, "unblinded", format!("element {k} of {} is the same in a run {who} ({what})", x.len())); } }
    } }
}
