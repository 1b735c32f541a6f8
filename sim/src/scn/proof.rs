//! Collaborative proving: Groth16 and Plonk over Shamir sharings, on random circuits whose keys the harness makes
//! itself (so that it knows the trapdoor and can look at the blinding inside a proof).
use super::*;
use crate::scn::mpc::*;
use ark_ec::pairing::Pairing;
use ark_ec::scalar_mul::BatchMulPreprocessing;
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup, PrimeGroup};
use ark_ff::{FftField, Field, LegendreSymbol, One, PrimeField, UniformRand, Zero};
use ark_groth16::{Proof, ProvingKey, VerifyingKey};
use ark_poly::{univariate::DensePolynomial, Polynomial};
use circom_types::plonk::{Additions, CircomPolynomial, PlonkProof, VerificationKey as PlonkVk, VerifyingKey as PlonkZkVk, Zkey};
use circom_types::traits::CircomArkworksPairingBridge;
use co_circom_types::SharedWitness;
use co_groth16::{CircomReduction, Groth16, LibSnarkReduction, ShamirCoGroth16};
use co_plonk::{Plonk, ShamirCoPlonk};
use mpc_core::protocols::shamir::ShamirPrimeFieldShare;
use rand::SeedableRng;
use sha3::{Digest, Keccak256};
use std::sync::Arc;
use taceo_groth16::ConstraintMatrices;
use tp::*;

const REAL_P: &[&str] = &["co-groth16, co-plonk: provers with the Shamir drivers, verifiers", "mpc-core: protocols/shamir", "mpc-net: local and tcp transports, join", "arkworks, rayon, crossbeam-channel, std threads and locks"];
#[cfg(feature = "rep3")]
const REAL_R: &[&str] = &["co-groth16, co-plonk: provers with the replicated and Shamir drivers, verifiers", "co-circom-types and co-circom's library: sharing, compression, translation of witnesses", "mpc-core: protocols/rep3, bridges, protocols/shamir", "mpc-net: local and tcp transports, join", "arkworks, bincode, rayon, crossbeam-channel, std threads and locks"];
const SIMPLE: &[(&str, i64)] = &[("tp", 0), ("n", 3), ("t", 1), ("curve", 0), ("jitter_us", 0), ("workers", 1), ("rows", 1), ("pub", 1), ("hold", 1), ("adds", 0), ("lat_min_us", 10), ("lat_max_us", 10), ("seg_max", 65536)];

pub fn scenarios() -> Vec<Scn> {
    let s = |name, props, weight, make, run| Scn { name, props, weight, make, run, real: REAL_P, stub: STUB, simple: SIMPLE };
    vec![
        s("groth16", &["P01"], 1, make_groth as fn(&mut Rng, &str, u64, &mut Cfg), run_proof as fn(&Cfg)),
        s("plonk", &["P02"], 1, make_plonk, run_proof),
        s("blinding", &["P03"], 1, make_blind, run_proof),
        s("proof-faults", &["P04"], 1, make_pfaults, run_proof),
        s("proof-sizes", &["P04"], 1, make_sizes, run_proof),
        #[cfg(feature = "rep3")]
        Scn { name: "proof-rep3", props: &["R05"], weight: 1, make: make_rep3, run: run_proof, real: REAL_R, stub: STUB_R, simple: SIMPLE },
        #[cfg(feature = "rep3")]
        Scn { name: "proof-rep3-faults", props: &["R06"], weight: 1, make: make_rep3_faults, run: run_proof, real: REAL_R, stub: STUB_R, simple: SIMPLE },
    ]
}
#[cfg(feature = "rep3")]
const STUB_R: &[&str] = &["kernel: threads' scheduling, futex, clocks, TCP (virtual)", "entropy (seeded)", "a thin wrapper around each network records, delays or damages messages", "fancy-garbling, scuttlebutt and circom-mpc-compiler (not available offline; not reached here)", "share files: bincode bytes kept in memory"];
#[cfg(feature = "rep3")]
fn to_rep3(r: &mut Rng, c: &mut Cfg) {
    // 1: replicated prover, 2: Groth16 through the Shamir bridge, 3: witness translated to Shamir
    let mode = if c.get("plonk") == 1 { *r.pick(&[1, 1, 1, 3]) } else { *r.pick(&[1, 1, 1, 2, 2, 3]) };
    c.set("rep3", mode).set("n", 3).set("t", 1).set("form", r.below(6) as i64);
}
#[cfg(feature = "rep3")]
fn make_rep3(r: &mut Rng, p: &str, i: u64, c: &mut Cfg) {
    if i % 5 < 2 { make_plonk(r, p, i / 5, c); c.set("rows", c.get("rows").min(16)); } else { make_groth(r, p, i, c); }
    if i % 4 == 1 { let rows = c.get("rows").min(if c.get("plonk") == 1 { 5 } else { 40 }); c.set("phases", 3).set("victim", r.below(8) as i64).set("blind", 1).set("rows", rows).set("tp", LOCAL); }
    to_rep3(r, c);
}
#[cfg(feature = "rep3")]
fn make_rep3_faults(r: &mut Rng, p: &str, i: u64, c: &mut Cfg) {
    if i % 4 == 3 { make_sizes(r, p, i / 4, c) } else { make_pfaults(r, p, i, c) }
    c.set("fp", c.or("fp", 0) % 3);
    if c.get("fkind") == K_BAD { c.set("fkind", K_FEWER); }
    if c.get("plonk") == 1 && c.get("fkind") != 0 { c.set("fat", r.logu(1, 150) as i64); }
    to_rep3(r, c);
}
fn common(r: &mut Rng, i: u64, c: &mut Cfg, big: bool) {
    let (n, t) = pick_nt(r, big);
    let tp = if i % 6 == 5 && n <= 5 { TCP } else { LOCAL };
    c.set("tp", tp).set("n", n as i64).set("t", t as i64).set("curve", r.chance(1, 4) as i64).set("workers", r.usize(1, 4) as i64).set("jitter_us", if r.chance(1, 2) { r.logu(1, 5000) as i64 } else { 0 }).set("hold", r.below(2) as i64).set("phases", 1);
    sched_knobs(r, c, n);
    c.set("seg_max", 16384);
    if tp == TCP { tcp_knobs(r, c); }
    if c.on("alloc_yield") { c.set("alloc_yield", c.get("alloc_yield").max(60)); }
    c.set("max_steps", 12_000_000);
}
fn make_groth(r: &mut Rng, _p: &str, i: u64, c: &mut Cfg) {
    common(r, i, c, true);
    let rows = if i % 40 == 17 { r.usize(300, 700) } else { r.logu(1, 60) as usize };
    c.set("plonk", 0).set("rows", rows as i64).set("pub", (r.logu(1, 8) - 1) as i64).set("circom", r.chance(2, 3) as i64);
}
fn make_plonk(r: &mut Rng, _p: &str, i: u64, c: &mut Cfg) {
    common(r, i, c, true);
    if c.get("n") > 5 && r.chance(2, 3) { c.set("n", 3).set("t", 1); }
    c.set("plonk", 1).set("rows", r.logu(1, 28) as i64).set("pub", (r.logu(1, 6) - 1) as i64).set("adds", r.below(6) as i64);
}
fn make_blind(r: &mut Rng, p: &str, i: u64, c: &mut Cfg) {
    if i % 3 == 0 { make_plonk(r, p, i, c); c.set("rows", c.get("rows").min(6)); } else { make_groth(r, p, i, c); c.set("rows", c.get("rows").min(40)); }
    if c.get("t") == 0 { c.set("n", 3).set("t", 1); }
    c.set("tp", LOCAL).set("phases", 3).set("victim", r.below(8) as i64).set("blind", 1);
}
fn make_pfaults(r: &mut Rng, p: &str, i: u64, c: &mut Cfg) {
    if i % 2 == 0 { make_plonk(r, p, i, c); c.set("rows", c.get("rows").min(5)); } else { make_groth(r, p, i, c); c.set("rows", c.get("rows").min(20)); }
    let (n, t) = pick_nt(r, false);
    c.set("n", n as i64).set("t", t as i64);
    let tp = if i % 3 == 2 { TCP } else { LOCAL };
    c.set("tp", tp);
    if tp == TCP { tcp_knobs(r, c); c.set("jitter_us", 0).set("stall", 0).set("seg_max", 65536).set("sndbuf", 65536).set("rcvbuf", 65536); }
    let kinds: &[i64] = if tp == TCP { &[K_EXIT, K_RESET, K_LEAVE, K_HANG, K_MUTE, K_CUT, K_LONG, K_FEWER] } else { &[K_LEAVE, K_HANG, K_MUTE, K_SHORT, K_LONG, K_EMPTY, K_FEWER, K_MORE, K_PREFIX, K_BAD] };
    let ops = if c.get("plonk") == 1 { 400 } else { 30 };
    c.set("fkind", *r.pick(kinds)).set("fp", r.below(n as u64) as i64).set("fat", r.logu(1, ops) as i64).set("farg", (r.next() >> 20) as i64).set("timeout_us", 2_000_000).set("faulty", 1);
}
fn make_sizes(r: &mut Rng, p: &str, i: u64, c: &mut Cfg) {
    if i % 2 == 0 { make_plonk(r, p, i, c); c.set("rows", c.get("rows").min(5)); } else { make_groth(r, p, i, c); c.set("rows", c.get("rows").min(20)); }
    c.set("tp", LOCAL).set("timeout_us", 2_000_000).set("faulty", 1).set("sizes", 1).set("who", r.below(10) as i64 - 2).set("dpub", r.below(5) as i64 - 2).set("dwit", r.below(7) as i64 - 3);
    if c.get("dpub") == 0 && c.get("dwit") == 0 { c.set("dwit", -1); }
    c.set("fkind", 0);
}

// ---- circuits ---------------------------------------------------------------------------------------
fn roots<F: PrimeField + FftField>(pow: usize) -> F {
    // the root of unity snarkjs uses
    let mut q = F::one();
    while q.legendre() != LegendreSymbol::QuadraticNonResidue { q += F::one(); }
    let mut z = q.pow(F::TRACE);
    for _ in pow..F::TWO_ADICITY as usize { z.square_in_place(); }
    z
}
/// Values at `x` of the Lagrange polynomials of the powers of `w` (of order `m`).
fn lagranges<F: PrimeField>(w: F, m: usize, x: F) -> Vec<F> {
    let z = (x.pow([m as u64]) - F::one()) / F::from(m as u64);
    let mut p = F::one();
    (0..m).map(|_| { let v = z * p / (x - p); p *= w; v }).collect()
}
type Row<F> = Vec<(F, usize)>;
fn dot<F: PrimeField>(r: &Row<F>, w: &[F]) -> F { r.iter().map(|(c, i)| *c * w[*i]).sum() }
/// A random satisfied constraint system: matrices and the full assignment.
fn r1cs<F: PrimeField>(r: &mut Rng, rows: usize, npub: usize) -> (ConstraintMatrices<F>, Vec<F>) {
    let ni = npub + 1;
    let free = r.usize(1, 4);
    let mut w: Vec<F> = vec![F::one()];
    for _ in 0..npub + free { w.push(konst(r.next())); }
    let (mut a, mut b, mut c): (Vec<Row<F>>, Vec<Row<F>>, Vec<Row<F>>) = (vec![], vec![], vec![]);
    fn row<F: PrimeField>(r: &mut Rng, n: usize) -> Row<F> {
        let l = r.logu(1, 5) as usize - (r.chance(1, 20)) as usize;
        let mut v: Row<F> = vec![];
        for _ in 0..l { let i = r.below(n as u64) as usize; if !v.iter().any(|x| x.1 == i) { v.push((konst(r.next()), i)); } }
        v
    }
    for _ in 0..rows {
        let (x, y, mut z) = (row(r, w.len()), row(r, w.len()), if r.chance(1, 2) { row(r, w.len()) } else { vec![] });
        let d = dot(&x, &w) * dot(&y, &w) - dot(&z, &w);
        if r.chance(3, 4) { z.push((F::one(), w.len())); w.push(d); } else { match z.iter_mut().find(|t| t.1 == 0) { Some(t) => t.0 += d, None => z.push((d, 0)) } }
        a.push(x); b.push(y); c.push(z);
    }
    let nz = |m: &Vec<Row<F>>| m.iter().map(|r| r.len()).sum();
    (ConstraintMatrices { num_instance_variables: ni, num_witness_variables: w.len() - ni, num_constraints: rows, a_num_non_zero: nz(&a), b_num_non_zero: nz(&b), c_num_non_zero: nz(&c), a, b, c }, w)
}
struct GKey<P: Pairing> { pkey: ProvingKey<P>, mats: ConstraintMatrices<P::ScalarField>, w: Vec<P::ScalarField>, circom: bool, alpha: P::ScalarField, beta: P::ScalarField, delta: P::ScalarField, at: P::ScalarField, bt: P::ScalarField }
/// Keys for a constraint system, from a trapdoor.
fn groth_setup<P: Pairing>(r: &mut Rng, rows: usize, npub: usize, circom: bool) -> GKey<P> {
    type F<P> = <P as Pairing>::ScalarField;
    let (mats, w) = r1cs::<F<P>>(r, rows, npub);
    let mut dr = rand_chacha::ChaCha12Rng::seed_from_u64(r.next());
    let ni = mats.num_instance_variables;
    let m = (rows + ni).next_power_of_two();
    let pow = m.ilog2() as usize;
    let [alpha, beta, gamma, delta, tau]: [F<P>; 5] = std::array::from_fn(|_| F::<P>::rand(&mut dr));
    let root = if circom { roots::<F<P>>(pow) } else { F::<P>::get_root_of_unity(m as u64).unwrap() };
    let l = lagranges(root, m, tau);
    let nv = w.len();
    let (mut a, mut b, mut c) = (vec![F::<P>::zero(); nv], vec![F::<P>::zero(); nv], vec![F::<P>::zero(); nv]);
    for i in 0..rows { for (v, j) in &mats.a[i] { a[*j] += *v * l[i]; } for (v, j) in &mats.b[i] { b[*j] += *v * l[i]; } for (v, j) in &mats.c[i] { c[*j] += *v * l[i]; } }
    for j in 0..ni { a[j] += l[rows + j]; }
    let (gi, di) = (gamma.inverse().unwrap(), delta.inverse().unwrap());
    let k: Vec<F<P>> = (0..nv).map(|j| (beta * a[j] + alpha * b[j] + c[j]) * if j < ni { gi } else { di }).collect();
    let h: Vec<F<P>> = if circom {
        let l2 = lagranges(roots::<F<P>>(pow + 1), 2 * m, tau);
        (0..m).map(|i| l2[2 * i + 1] * di).collect()
    } else {
        let z = (tau.pow([m as u64]) - F::<P>::one()) * di;
        (0..m - 1).scan(z, |s, _| { let v = *s; *s *= tau; Some(v) }).collect()
    };
    let t1 = BatchMulPreprocessing::new(P::G1::generator(), 4 * nv + m);
    let t2 = BatchMulPreprocessing::new(P::G2::generator(), nv);
    let (g1, g2) = (|v: &[F<P>]| t1.batch_mul(v), |v: &[F<P>]| t2.batch_mul(v));
    let e1 = g1(&[alpha, beta, delta]);
    let e2 = g2(&[beta, gamma, delta]);
    let vk = VerifyingKey::<P> { alpha_g1: e1[0], beta_g2: e2[0], gamma_g2: e2[1], delta_g2: e2[2], gamma_abc_g1: g1(&k[..ni]) };
    let pkey = ProvingKey { vk, beta_g1: e1[1], delta_g1: e1[2], a_query: g1(&a), b_g1_query: g1(&b), b_g2_query: g2(&b), h_query: g1(&h), l_query: g1(&k[ni..]) };
    let (at, bt) = (a.iter().zip(&w).map(|(x, y)| *x * y).sum(), b.iter().zip(&w).map(|(x, y)| *x * y).sum());
    GKey { pkey, mats, w, circom, alpha, beta, delta, at, bt }
}

struct PKey<P: Pairing + CircomArkworksPairingBridge> { zkey: Arc<Zkey<P>>, vk: PlonkVk<P>, w: Vec<P::ScalarField>, full: Vec<P::ScalarField>, tau: P::ScalarField, root: P::ScalarField }
/// A random satisfied Plonk circuit as snarkjs lays it out, with its key.
fn plonk_setup<P: Pairing + CircomArkworksPairingBridge>(r: &mut Rng, rows: usize, npub: usize, adds: usize, bls: bool) -> PKey<P> {
    type F<P> = <P as Pairing>::ScalarField;
    let mut dr = rand_chacha::ChaCha12Rng::seed_from_u64(r.next());
    // signal 0 is zero, then come the public ones, the private ones and the additions
    let free = r.usize(1, 4);
    let mut w: Vec<F<P>> = vec![F::<P>::zero()];
    for _ in 0..npub + free { w.push(konst(r.next())); }
    // gates: ql qr qo qm qc a b c
    let z = F::<P>::zero();
    let mut gates: Vec<([F<P>; 5], [usize; 3])> = (0..npub).map(|i| ([F::<P>::one(), z, z, z, z], [i + 1, 0, 0])).collect();
    // the additions come last in the numbering, so private signals must be known first: make the wires' values now
    let outs = r.usize(1, rows.max(1));
    let base = w.len();
    let total = base + outs + adds;
    let mut full = w.clone();
    full.resize(total, z);
    let mut known: Vec<usize> = (0..base).collect();
    let mut additions: Vec<Additions<P>> = vec![];
    let mut made = 0;
    while made < outs {
        // additions may use every signal known when they are computed: only inputs, outputs and earlier additions
        let (a, b) = (*r.pick(&known), *r.pick(&known));
        let [ql, qr, qm, qc]: [F<P>; 4] = std::array::from_fn(|_| if r.chance(1, 3) { z } else { konst(r.next()) });
        let qo = loop { let x = konst::<F<P>>(r.next()); if !x.is_zero() { break x; } };
        let c = base + made;
        full[c] = -(ql * full[a] + qr * full[b] + qm * full[a] * full[b] + qc) / qo;
        gates.push(([ql, qr, qo, qm, qc], [a, b, c]));
        known.push(c);
        made += 1;
    }
    for k in 0..adds {
        let (a, b) = (*r.pick(&known), *r.pick(&known));
        let (f1, f2): (F<P>, F<P>) = (konst(r.next()), konst(r.next()));
        full[base + outs + k] = f1 * full[a] + f2 * full[b];
        additions.push(Additions { signal_id1: a as u32, signal_id2: b as u32, factor1: f1, factor2: f2 });
        known.push(base + outs + k);
    }
    while gates.len() < npub + rows {
        // a gate without an own output: the constant makes it hold
        let [a, b, c]: [usize; 3] = std::array::from_fn(|_| if adds > 0 && r.chance(1, 2) { total - 1 - r.below(adds as u64) as usize } else { *r.pick(&known) });
        let [ql, qr, qm, qo]: [F<P>; 4] = std::array::from_fn(|_| if r.chance(1, 3) { z } else { konst(r.next()) });
        gates.push(([ql, qr, qo, qm, -(ql * full[a] + qr * full[b] + qm * full[a] * full[b] + qo * full[c])], [a, b, c]));
    }
    let nc = gates.len();
    let pow = (nc.max(5) + r.below(2) as usize).next_power_of_two().ilog2() as usize; // at least 8, as in snarkjs
    let m = 1usize << pow;
    let (root, root4) = (roots::<F<P>>(pow), roots::<F<P>>(pow + 2));
    let mi = F::<P>::from(m as u64).inverse().unwrap();
    let poly = |ev: Vec<F<P>>| -> CircomPolynomial<F<P>> {
        let mut e = ev; e.resize(m, F::<P>::zero());
        // plain transforms: the domains are small
        let wi = root.inverse().unwrap();
        let coeffs: Vec<F<P>> = (0..m).map(|k| { let s = wi.pow([k as u64]); let mut p = F::<P>::one(); let mut v = F::<P>::zero(); for x in &e { v += *x * p; p *= s; } v * mi }).collect();
        let mut x = F::<P>::one();
        let dp = DensePolynomial { coeffs };
        let evaluations = (0..4 * m).map(|_| { let v = dp.evaluate(&x); x *= root4; v }).collect();
        CircomPolynomial { coeffs: dp, evaluations }
    };
    let (k1, k2) = (F::<P>::from(2u64), F::<P>::from(3u64));
    // the permutation links all positions of a signal in a cycle
    let mut at: Vec<Vec<(usize, usize)>> = vec![vec![]; total];
    for (i, g) in gates.iter().enumerate() { for col in 0..3 { at[g.1[col]].push((col, i)); } }
    let id = |(col, i): (usize, usize)| [F::<P>::one(), k1, k2][col] * root.pow([i as u64]);
    let mut sig: [Vec<F<P>>; 3] = std::array::from_fn(|col| (0..m).map(|i| id((col, i))).collect());
    for ps in &at { for (k, p) in ps.iter().enumerate() { sig[p.0][p.1] = id(ps[(k + 1) % ps.len()]); } }
    let tau = F::<P>::rand(&mut dr);
    let mut p = F::<P>::one();
    let taus: Vec<F<P>> = (0..m + 6).map(|_| { let v = p; p *= tau; v }).collect();
    let t1 = BatchMulPreprocessing::new(P::G1::generator(), m + 14);
    let p_tau = t1.batch_mul(&taus);
    let com = |q: &CircomPolynomial<F<P>>| -> P::G1Affine { t1.batch_mul(&[q.evaluate(&tau)])[0] };
    let sel = |k: usize| poly(gates.iter().map(|g| g.0[k]).collect());
    let (ql, qr, qo, qm, qc) = (sel(0), sel(1), sel(2), sel(3), sel(4));
    let [s1, s2, s3] = sig.map(poly);
    let lagrange = (0..npub).map(|i| poly((0..m).map(|j| if i == j { F::<P>::one() } else { F::<P>::zero() }).collect())).collect();
    let x_2 = (P::G2::generator() * tau).into_affine();
    let zk = PlonkZkVk::<P> { k1, k2, qm: com(&qm), ql: com(&ql), qr: com(&qr), qo: com(&qo), qc: com(&qc), s1: com(&s1), s2: com(&s2), s3: com(&s3), x_2 };
    let mut vk: PlonkVk<P> = vk_template(bls);
    (vk.n_public, vk.power, vk.k1, vk.k2) = (npub, pow, k1, k2);
    (vk.qm, vk.ql, vk.qr, vk.qo, vk.qc, vk.s1, vk.s2, vk.s3, vk.x2) = (zk.qm, zk.ql, zk.qr, zk.qo, zk.qc, zk.s1, zk.s2, zk.s3, zk.x_2);
    let map = |k: usize| gates.iter().map(|g| g.1[k]).collect::<Vec<_>>();
    let zkey = Zkey { n_vars: total, n_public: npub, domain_size: m, pow, n_additions: adds, n_constraints: nc, verifying_key: zk, additions, map_a: map(0), map_b: map(1), map_c: map(2), qm_poly: qm, ql_poly: ql, qr_poly: qr, qo_poly: qo, qc_poly: qc, s1_poly: s1, s2_poly: s2, s3_poly: s3, lagrange, p_tau };
    let mut w = full[..base + outs].to_vec();
    w[0] = F::<P>::one();
    PKey { zkey: Arc::new(zkey), vk, w, full, tau, root }
}
/// A verification key with the fields the library does not let others set; everything else is overwritten.
fn vk_template<P: Pairing + CircomArkworksPairingBridge>(bls: bool) -> PlonkVk<P> {
    let g = P::G1Affine::generator();
    let h = P::G2Affine::generator();
    // coordinates of the generators, through the library's own writer
    let s = |x: String| x;
    let (g1, g2) = {
        let (x, y) = g.xy().unwrap();
        let (hx, hy) = h.xy().unwrap();
        let two = |v: &str| -> Vec<String> { let d: Vec<String> = v.split(|c: char| !c.is_ascii_digit()).filter(|t| t.len() > 5).map(|t| t.to_string()).collect(); d };
        (serde_json::json!([s(format!("{x}")), s(format!("{y}")), "1"]), serde_json::json!([two(&format!("{hx}")), two(&format!("{hy}")), ["1", "0"]]))
    };
    serde_json::from_value(serde_json::json!({ "protocol": "plonk", "curve": if bls { "bls12381" } else { "bn128" }, "nPublic": 0, "power": 1, "k1": "2", "k2": "3", "Qm": g1, "Ql": g1, "Qr": g1, "Qo": g1, "Qc": g1, "S1": g1, "S2": g1, "S3": g1, "X_2": g2, "w": "1" })).expect("template")
}

// ---- running ----------------------------------------------------------------------------------------
fn run_proof(c: &Cfg) {
    if c.get("curve") == 1 { proof_on::<ark_bls12_381::Bls12_381, _, _>(c, true) } else { proof_on::<ark_bn254::Bn254, _, _>(c, false) }
}
enum Key<P: Pairing + CircomArkworksPairingBridge> { G(GKey<P>), P(PKey<P>) }
#[derive(Clone, PartialEq, Debug)]
enum Pf<P: Pairing> { G(Proof<P>), P(PlonkOut<P>) }
#[derive(Clone, PartialEq, Debug)]
struct PlonkOut<P: Pairing> { pts: Vec<P::G1Affine>, ev: Vec<P::ScalarField> }
fn out<P: Pairing + CircomArkworksPairingBridge>(p: &PlonkProof<P>) -> PlonkOut<P> { PlonkOut { pts: vec![p.a, p.b, p.c, p.z, p.t1, p.t2, p.t3, p.wxi, p.wxiw], ev: vec![p.eval_a, p.eval_b, p.eval_c, p.eval_s1, p.eval_s2, p.eval_zw] } }
const NAMES: [&str; 15] = ["A", "B", "C", "Z", "T1", "T2", "T3", "Wxi", "Wxiw", "eval_a", "eval_b", "eval_c", "eval_s1", "eval_s2", "eval_zw"];

enum Dealt<F: PrimeField> {
    Shamir(SharedWitness<F, ShamirPrimeFieldShare<F>>),
    #[cfg(feature = "rep3")]
    File(Vec<u8>),
}
const FORMS: [&str; 6] = ["plain", "none", "half", "seeded", "seeded-half", "batch"];
#[cfg(not(feature = "rep3"))]
fn deal_files<F: PrimeField>(_: &[F], _: usize, _: i64, _: &mut rand_chacha::ChaCha12Rng) -> Vec<Dealt<F>> { vec![] }
/// The parties' share files.
#[cfg(feature = "rep3")]
fn deal_files<F: PrimeField>(w: &[F], npub: usize, form: i64, r: &mut rand_chacha::ChaCha12Rng) -> Vec<Dealt<F>> {
    use co_circom_types::{BatchedWitness, CompressedRep3SharedWitness as C, Compression, Rep3SharedWitness};
    let wit = || circom_types::Witness { values: w.to_vec() };
    let v: [C<F>; 3] = match form {
        0 => Rep3SharedWitness::share_rep3(wit(), npub, r).map(C::from),
        5 => {
            // the middle one of a batch
            let other = |r: &mut rand_chacha::ChaCha12Rng| Rep3SharedWitness::share_rep3(circom_types::Witness { values: w.iter().map(|x| *x + F::rand(r)).collect() }, npub, r);
            let b = [other(r), Rep3SharedWitness::share_rep3(wit(), npub, r), other(r)];
            [0, 1, 2].map(|p| {
                let b = BatchedWitness { public_inputs: (0..npub).map(|i| b.iter().map(|x| x[p].public_inputs[i]).collect()).collect(), witness: (0..w.len() - npub).map(|i| b.iter().map(|x| x[p].witness[i]).collect()).collect() };
                let v = b.unbatch();
                if v.len() != 3 { viol("R05", "unbatch", format!("a batch of 3 gives {} witnesses", v.len())); }
                C::from(v.into_iter().nth(1).unwrap())
            })
        }
        k => C::share_rep3(wit(), npub, r, [Compression::None, Compression::HalfShares, Compression::SeededShares, Compression::SeededHalfShares][k as usize - 1]),
    };
    v.into_iter().map(|x| Dealt::File(bincode::serialize(&x).unwrap())).collect()
}
fn resize<F: PrimeField, S: Default + Clone + ark_serialize::CanonicalSerialize + ark_serialize::CanonicalDeserialize>(sw: &mut SharedWitness<F, S>, (a, b): (usize, usize)) { sw.public_inputs.resize(a, F::one()); sw.witness.resize(b, S::default()); }

fn proof_on<P, C1, C2>(c: &Cfg, bls: bool)
where
    P: Pairing<G1 = Projective<C1>, G1Affine = Affine<C1>, G2 = Projective<C2>, G2Affine = Affine<C2>> + CircomArkworksPairingBridge,
    C1: SWCurveConfig<ScalarField = P::ScalarField>,
    C2: SWCurveConfig<ScalarField = P::ScalarField>,
{
    type F<P> = <P as Pairing>::ScalarField;
    workers(c);
    wire(c);
    let (n, t) = (c.us("n"), c.us("t"));
    let t = t.min((n - 1) / 2);
    let seed = c.get("seed") as u64;
    let (plonk, faulty, sizes, blind) = (c.on("plonk"), c.on("faulty"), c.on("sizes"), c.on("blind"));
    let rep3 = c.or("rep3", 0);
    let prop: &'static str = if rep3 > 0 { if faulty { "R06" } else { "R05" } } else if faulty { "P04" } else if blind { "P03" } else if plonk { "P02" } else { "P01" };
    let mut r = Rng::new(seed ^ 0x9f);
    let (rows, npub) = (c.us("rows").max(1), c.us("pub"));
    let key: Arc<Key<P>> = Arc::new(if plonk { Key::P(plonk_setup(&mut r, rows, npub, c.or("adds", 0) as usize, bls)) } else { Key::G(groth_setup(&mut r, rows, npub, c.on("circom"))) });
    let w: Vec<F<P>> = match &*key { Key::G(k) => k.w.clone(), Key::P(k) => k.w.clone() };
    let what = format!("{} circuit with {rows} rows, {npub} public inputs, n={n} t={t}", match &*key { Key::P(k) => format!("Plonk {} additions, domain {},", k.zkey.n_additions, k.zkey.domain_size), Key::G(k) => format!("Groth16 ({})", if k.circom { "circom" } else { "libsnark" }) });
    note(|| what.clone());
    feat(format!("n{n} t{t}"));
    feat(format!("public {}", npub.min(4)));
    if let Key::P(k) = &*key { feat(format!("domain {}", k.zkey.domain_size)); }
    let mut o = link::opt(c);
    o.nets = if plonk { 8 } else { 2 };
    let mut dr = rand_chacha::ChaCha12Rng::seed_from_u64(seed ^ 0xdea3);
    let public = w[..npub + 1].to_vec();
    let dealt: Arc<Vec<Dealt<F<P>>>> = Arc::new(if rep3 > 0 { deal_files(&w, npub + 1, c.or("form", 0), &mut dr) } else { SharedWitness::share_shamir(circom_types::Witness { values: w.clone() }, npub + 1, t, n, &mut dr).into_iter().map(Dealt::Shamir).collect() });
    if rep3 > 0 { feat(format!("{} form {}", ["", "replicated", "bridge", "translated"][rep3 as usize], FORMS[c.or("form", 0) as usize % 6])); }
    // wrong sizes: one party's or all parties' witnesses
    let (who, dpub, dwit) = (c.or("who", 0), c.or("dpub", 0), c.or("dwit", 0));
    let hurt = move |p: usize| sizes && (who < 0 || who as usize % n == p);
    let (np, nw) = (npub + 1, w.len() - npub - 1);
    let size = move |p: usize| if hurt(p) { (if dpub == -2 { 0 } else { (np as i64 + dpub).max(0) as usize }, if dwit == -3 { 0 } else { (nw as i64 + dwit).max(0) as usize }) } else { (np, nw) };
    let wrong: Vec<bool> = (0..n).map(|p| size(p) != (np, nw)).collect();
    type Res<P> = std::collections::BTreeMap<(usize, usize), (u64, u64, Result<Pf<P>, String>)>;
    let res: Arc<Glob<Res<P>>> = Arc::new(Glob::new());
    let proofs: Arc<Glob<Vec<PlonkProof<P>>>> = Arc::new(Glob::new());
    let phases = c.us("phases").clamp(1, 3);
    let victim = c.or("victim", 0) as usize % n;
    let all: Vec<usize> = (0..n).collect();
    let hold = c.on("hold") && !faulty;
    let (key2, res2, dealt2, proofs2) = (key.clone(), res.clone(), dealt.clone(), proofs.clone());
    let body = move |p: usize, env: Env| {
        if faulty { gate(76, n, 2000 * os::SEC); }
        let nets = taps(&env);
        for ph in 0..phases {
            if blind { os::calls::reseed(p, os::rng::mix(seed ^ if ph == 2 || (ph == 1 && p == victim) { 0x77 + ph as u64 } else { 0 }, p as u64)); }
            let t0 = os::now();
            let keep = |x: PlonkProof<P>| { let o = out(&x); let mut x = Some(x); proofs2.with(|v| v.push(x.take().unwrap())); Pf::P(o) };
            let shamir = |mut sw: SharedWitness<F<P>, ShamirPrimeFieldShare<F<P>>>| -> eyre::Result<Pf<P>> {
                resize(&mut sw, size(p));
                match &*key2 {
                    Key::G(k) => (if k.circom { ShamirCoGroth16::<P>::prove::<_, CircomReduction>(&nets[0], &nets[1], n, t, &k.pkey, &k.mats, sw) } else { ShamirCoGroth16::<P>::prove::<_, LibSnarkReduction>(&nets[0], &nets[1], n, t, &k.pkey, &k.mats, sw) }).map(Pf::G),
                    Key::P(k) => { let nets: &[Tap; 8] = nets[..8].try_into().unwrap(); ShamirCoPlonk::<P>::prove(nets, n, t, k.zkey.clone(), sw).map(keep) }
                }
            };
            let g: eyre::Result<Pf<P>> = match &dealt2[p] {
                Dealt::Shamir(sw) => shamir(sw.clone()),
                #[cfg(feature = "rep3")]
                Dealt::File(b) => (|| {
                    let cw: co_circom_types::CompressedRep3SharedWitness<F<P>> = bincode::deserialize(b)?;
                    if rep3 == 3 { return shamir(co_circom_lib::translate_witness(cw, &nets[0])?); }
                    let mut sw = co_circom_lib::uncompress_shared_witness(cw, &nets[0])?;
                    resize(&mut sw, size(p));
                    use co_groth16::Rep3CoGroth16 as R;
                    match (&*key2, rep3 == 2) {
                        (Key::G(k), true) => (if k.circom { R::<P>::prove_with_shamir_bridge::<_, CircomReduction>(&nets[0], &nets[1], &k.pkey, &k.mats, sw) } else { R::<P>::prove_with_shamir_bridge::<_, LibSnarkReduction>(&nets[0], &nets[1], &k.pkey, &k.mats, sw) }).map(Pf::G),
                        (Key::G(k), false) => (if k.circom { R::<P>::prove::<_, CircomReduction>(&nets[0], &nets[1], &k.pkey, &k.mats, sw) } else { R::<P>::prove::<_, LibSnarkReduction>(&nets[0], &nets[1], &k.pkey, &k.mats, sw) }).map(Pf::G),
                        (Key::P(k), _) => { let nets: &[Tap; 8] = nets[..8].try_into().unwrap(); co_plonk::Rep3CoPlonk::<P>::prove(nets, k.zkey.clone(), sw).map(keep) }
                    }
                })(),
            };
            let mut g = Some(g.map_err(|e| format!("{e:#}")));
            let t1 = os::now();
            res2.with(|m| m.insert((ph, p), (t0, t1, g.take().unwrap())));
        }
        if hold { gate(77, n, 2000 * os::SEC); }
        drop(nets);
        drop(env);
    };
    let ids = parties(&o, prop, &all, &[], body);
    finish(prop, &ids, faulty, &o);
    let (plan, hit, vg, dmg) = WIRE.with(|w| (w.plan, w.hit, w.victim_got, w.damaged.clone()));
    if faulty { feat(format!("{} {}", if sizes { "sizes" } else { kind_name(plan.kind) }, if sizes { if wrong.iter().any(|x| *x) { "wrong" } else { "same" } } else if hit { "hit" } else { "late" })); }
    let plonk_proofs: Vec<PlonkProof<P>> = proofs.with(std::mem::take);
    let valid = |p: &Pf<P>, public: &[F<P>]| -> bool { match (p, &*key) { (Pf::G(p), Key::G(k)) => Groth16::<P>::verify(&k.pkey.vk, p, public).is_ok(), (Pf::P(x), Key::P(k)) => plonk_proofs.iter().find(|y| out(y) == *x).is_some_and(|y| Plonk::<P>::verify(&k.vk, y, public).is_ok()), _ => false } };
    let mut seen: Vec<Option<Pf<P>>> = vec![];
    for ph in 0..phases {
        let mut first: Option<(usize, Pf<P>)> = None;
        for p in 0..n {
            let Some((t0, t1, g)) = res.with(|m| m.remove(&(ph, p))) else { continue };
            if faulty && t1 - t0 > 10 * o.timeout.unwrap_or(os::SEC) { viol(prop, "slow-error", format!("P{p} took {} ms with a timeout of {} ms ({what})", (t1 - t0) / os::MS, o.timeout.unwrap_or(0) / os::MS)); }
            match g {
                Err(e) => { if if sizes { !wrong.iter().any(|x| *x) } else { !faulty || !hit } { viol(prop, "failed", format!("P{p} ({what}): {e}")); } }
                Ok(pf) => {
                    if sizes && wrong[p] { viol(prop, "accepted-size", format!("P{p} outputs a proof for a witness of the wrong size ({what}, {} public and {} private values instead of {} and {})", size(p).0, size(p).1, np, nw)); }
                    if vg && dmg.as_ref().is_some_and(|d| d.2 == p) { viol(prop, "accepted-damaged", format!("P{p} outputs a proof although a message had the wrong length: {} ({what})", dmg.as_ref().unwrap().4)); }
                    match &first {
                        Some((q, f)) if *f == pf => {}
                        Some((q, _)) if !faulty => viol(prop, "different", format!("P{p} and P{q} output different proofs ({what})")),
                        _ => {
                            if !valid(&pf, &public[1..]) { viol(prop, "invalid", format!("P{p}'s proof does not verify ({what})")); }
                            if first.is_none() { first = Some((p, pf)); }
                        }
                    }
                }
            }
        }
        if let (Some((p, f)), true) = (&first, !faulty && !blind) {
            // and against no other public inputs
            if npub > 0 {
                let mut x = public[1..].to_vec();
                let k = r.below(npub as u64) as usize;
                x[k] += konst_nz::<F<P>>(r.next());
                if valid(f, &x) { viol(prop, "accepts-other", format!("P{p}'s proof verifies against another public input {k} ({what})")); }
                if valid(f, &public[1..npub]) { viol(prop, "accepts-other", format!("P{p}'s proof verifies with a public input missing ({what})")); }
            }
            let mut x = public[1..].to_vec();
            x.push(F::<P>::zero());
            if valid(f, &x) { viol(prop, "accepts-other", format!("P{p}'s proof verifies with one public input more ({what})")); }
        }
        seen.push(first.map(|x| x.1));
    }
    if !blind { return; }
    // ---- blinding
    let who = |a: usize, b: usize| if a == 0 && b == 1 { format!("with other randomness of P{victim} only") } else { "with other randomness".to_string() };
    let mut inner: Vec<Vec<(String, Vec<u8>)>> = vec![];
    for (ph, f) in seen.iter().enumerate() {
        let Some(f) = f else { inner.push(vec![]); continue };
        let mut v = vec![];
        let mut add = |name: &str, b: Vec<u8>, zero: bool| { if zero { viol(prop, "zero-blinding", format!("{name} is zero (run {ph}, {what})")); } v.push((name.to_string(), b)); };
        match (f, &*key) {
            (Pf::G(p), Key::G(k)) => {
                let di = k.delta.inverse().unwrap();
                let rr = (p.a.into_group() - P::G1::generator() * (k.alpha + k.at)) * di;
                let ss = (p.b.into_group() - P::G2::generator() * (k.beta + k.bt)) * di;
                add("r", ser(&rr), rr.is_zero());
                add("s", ser(&ss), ss.is_zero());
                if P::pairing(rr, P::G2::generator()) == P::pairing(P::G1::generator(), ss) { viol(prop, "reused-blinding", format!("r and s are the same (run {ph}, {what})")); }
                add("A", ser(&p.a), false); add("B", ser(&p.b), false); add("C", ser(&p.c), false);
            }
            (Pf::P(p), Key::P(k)) => {
                for (i, x) in p.pts.iter().enumerate() { add(NAMES[i], ser(x), false); }
                for (i, x) in p.ev.iter().enumerate() { add(NAMES[9 + i], ser(x), false); }
                for (name, b, zero) in plonk_blinding(k, p, &public[1..], prop, &what) { add(&name, b, zero); }
                let bs: Vec<&(String, Vec<u8>)> = v.iter().filter(|x| x.0.starts_with("blinding")).collect();
                for (i, a) in bs.iter().enumerate() { for b in &bs[..i] { if a.1 == b.1 { viol(prop, "reused-blinding", format!("{} and {} are the same (run {ph}, {what})", a.0, b.0)); } } }
            }
            _ => {}
        }
        inner.push(v);
    }
    for a in 0..inner.len() { for b in a + 1..inner.len() { for (x, y) in inner[a].iter().zip(&inner[b]) { if x.1 == y.1 { viol(prop, "unblinded", format!("{} is the same in a run {} ({what})", x.0, who(a, b))); } } } }
}
fn ser<T: ark_serialize::CanonicalSerialize>(x: &T) -> Vec<u8> { let mut b = vec![]; x.serialize_uncompressed(&mut b).unwrap(); b }
fn konst_nz<F: PrimeField>(s: u64) -> F { let x = konst::<F>(s); if x.is_zero() { F::one() } else { x } }

/// Challenges as snarkjs derives them.
struct Tr(Keccak256);
impl Tr {
    fn new() -> Tr { Tr(Keccak256::new()) }
    fn f<F: PrimeField>(mut self, x: &F) -> Tr { let mut b = ser(x); b.reverse(); self.0.update(&b); self }
    fn p<A: AffineRepr>(mut self, p: &A) -> Tr where A::BaseField: Field {
        match p.xy() { Some((x, y)) => { for v in [x, y] { let mut b = ser(&v); b.reverse(); self.0.update(&b); } } None => { let l = <A::BaseField as Field>::BasePrimeField::MODULUS_BIT_SIZE.div_ceil(8) as usize; self.0.update(vec![0u8; 2 * l]); } }
        self
    }
    fn end<F: PrimeField>(self) -> F { F::from_be_bytes_mod_order(&self.0.finalize()) }
}
/// What the trapdoor shows of the blinding of a Plonk proof: b_1 to b_6 in the exponent, and combinations of b_7 to b_9.
fn plonk_blinding<P: Pairing + CircomArkworksPairingBridge>(k: &PKey<P>, p: &PlonkOut<P>, public: &[P::ScalarField], prop: &str, what: &str) -> Vec<(String, Vec<u8>, bool)> {
    type F<P> = <P as Pairing>::ScalarField;
    let (v, z) = (&k.vk, &k.zkey);
    let m = z.domain_size;
    let mut tr = Tr::new();
    for q in [&v.qm, &v.ql, &v.qr, &v.qo, &v.qc, &v.s1, &v.s2, &v.s3] { tr = tr.p(q); }
    for x in public { tr = tr.f(x); }
    for q in &p.pts[..3] { tr = tr.p(q); }
    let beta: F<P> = tr.end();
    let gamma: F<P> = Tr::new().f(&beta).end();
    let alpha: F<P> = Tr::new().f(&beta).f(&gamma).p(&p.pts[3]).end();
    let xi: F<P> = Tr::new().f(&alpha).p(&p.pts[4]).p(&p.pts[5]).p(&p.pts[6]).end();
    let g = P::G1::generator();
    let (lt, lx) = (lagranges(k.root, m, k.tau), lagranges(k.root, m, xi));
    let zh = |x: F<P>| x.pow([m as u64]) - F::<P>::one();
    let col = |map: &Vec<usize>| -> Vec<F<P>> { let mut c: Vec<F<P>> = map.iter().map(|i| k.full[*i]).collect(); c.resize(m, F::<P>::zero()); c };
    let cols = [col(&z.map_a), col(&z.map_b), col(&z.map_c)];
    let at = |c: &[F<P>], l: &[F<P>]| -> F<P> { c.iter().zip(l).map(|(a, b)| *a * b).sum() };
    let mut o = vec![];
    for i in 0..3 {
        let q = (p.pts[i].into_group() - g * at(&cols[i], &lt)) * zh(k.tau).inverse().unwrap();
        let y = (p.ev[i] - at(&cols[i], &lx)) / zh(xi);
        let lin = (q - g * y) * (k.tau - xi).inverse().unwrap();
        let con = g * y - lin * xi;
        o.push((format!("blinding b{} (of {})", 2 * i + 1, NAMES[i]), ser(&lin), lin.is_zero()));
        o.push((format!("blinding b{} (of {})", 2 * i + 2, NAMES[i]), ser(&con), con.is_zero()));
    }
    // the permutation polynomial
    let mut zs = vec![F::<P>::one()];
    let mut wp = F::<P>::one();
    for i in 0..m - 1 {
        let (a, b, c) = (cols[0][i], cols[1][i], cols[2][i]);
        let num = (a + beta * wp + gamma) * (b + beta * v.k1 * wp + gamma) * (c + beta * v.k2 * wp + gamma);
        let den = (a + beta * z.s1_poly.evaluations[4 * i] + gamma) * (b + beta * z.s2_poly.evaluations[4 * i] + gamma) * (c + beta * z.s3_poly.evaluations[4 * i] + gamma);
        zs.push(zs[i] * num / den);
        wp *= k.root;
    }
    let y = xi * k.root;
    let q = (p.pts[3].into_group() - g * at(&zs, &lt)) * zh(k.tau).inverse().unwrap();
    let e = (p.ev[5] - at(&zs, &lagranges(k.root, m, y))) / zh(y);
    o.push(("blinding of Z at the trapdoor".into(), ser(&q), q.is_zero()));
    o.push(("blinding of Z at the challenge".into(), ser(&e), e.is_zero()));
    for mask in 1..8u64 {
        let f = |x: F<P>| -> F<P> { let mut s = F::<P>::zero(); if mask & 1 != 0 { s += F::<P>::one(); } if mask & 2 != 0 { s += x; } if mask & 4 != 0 { s += x.square(); } s };
        if !f(y).is_zero() && q == g * (e * f(k.tau) / f(y)) { viol(prop, "reused-blinding", format!("the blinding values of Z are equal or zero (pattern {mask:03b}, {what})")); }
    }
    o
}
