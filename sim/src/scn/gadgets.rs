//! Poseidon2 and Merkle trees on shared values.
use super::mpc::*;
use super::*;
use ark_bn254::Fr;
use ark_ff::{UniformRand, Zero};
use mpc_core::gadgets::poseidon2::{Poseidon2, Poseidon2Precomputations};
#[cfg(feature = "rep3")]
use mpc_core::gadgets::poseidon2::{CircomTracePlainHasher, CircomTraceShamirHasher};
use mpc_core::protocols::shamir::{self, arithmetic as ar, ShamirPreprocessing, ShamirPrimeFieldShare, ShamirState};
use mpc_core::MpcState;
use rand::SeedableRng;
use std::sync::Arc;
use tp::*;

/// The build with the replicated protocols also has the tracing variants of the permutation.
const P: &str = if cfg!(feature = "rep3") { "R03" } else { "S05" };

const SIMPLE: &[(&str, i64)] = &[("n", 3), ("t", 1), ("ops", 1), ("jitter_us", 0), ("workers", 1), ("pre", 0), ("width", 0), ("nets", 1), ("lat_min_us", 10), ("lat_max_us", 10), ("tp", 0)];
pub fn scenarios() -> Vec<Scn> { vec![Scn { name: "gadgets", props: &[P], weight: 1, make, run, real: REAL, stub: STUB, simple: SIMPLE }] }

fn make(r: &mut Rng, _prop: &str, i: u64, c: &mut Cfg) {
    let (n, t) = pick_nt(r, false);
    let width = if r.chance(1, 9) { 3 } else { r.below(3) as i64 };
    c.set("tp", if i % 8 == 7 { TCP } else { LOCAL }).set("n", n as i64).set("t", t as i64).set("ops", r.usize(1, 4) as i64).set("width", width).set("pre", r.logu(1, 600) as i64 - 1)
        .set("nets", r.usize(1, 2) as i64).set("workers", r.usize(1, 2) as i64).set("jitter_us", if r.chance(1, 4) { r.logu(1, 500) as i64 } else { 0 });
    sched_knobs(r, c, n);
    if c.get("tp") == TCP { tcp_knobs(r, c); c.set("seg_max", 16384).set("sndbuf", 65536).set("rcvbuf", 65536); }
    if c.on("alloc_yield") { c.set("alloc_yield", c.get("alloc_yield").max(200)); }
    c.set("max_steps", 8_000_000);
}
type Sh = ShamirPrimeFieldShare<Fr>;
type Pre = Poseidon2Precomputations<Sh>;
#[derive(Clone, Debug)]
enum Hop { Plain { x: usize, in_place: bool }, Batch { calls: Vec<Call>, spare: usize }, Merkle { sponge: bool, arity: usize, levels: u32 }, Fork(usize, Vec<usize>) }
/// One call that consumes precomputed material for one permutation per listed input.
#[derive(Clone, Debug)]
enum Call { One { x: usize, in_place: bool }, Packed { x: Vec<usize>, in_place: bool }, Trace(Vec<usize>), TracePacked([usize; 2]) }

fn run(c: &Cfg) { match c.get("width") { 0 => on::<2, 4>(c), 1 => on::<3, 6>(c), 2 => on::<4, 8>(c), _ => on::<16, 32>(c) } }
fn arr<A: Copy, const T: usize>(v: &[A]) -> [A; T] { v.try_into().ok().unwrap() }
fn on<const T: usize, const T2: usize>(c: &Cfg) {
    workers(c);
    wire(c);
    let (n, t) = (c.us("n"), c.us("t"));
    let t = t.min((n - 1) / 2);
    let seed = c.get("seed") as u64;
    let mut r = Rng::new(seed ^ 0x6a);
    let mut o = link::opt(c);
    o.nets = c.us("nets").clamp(1, 2);
    let big = T == 16;
    let hash = Arc::new(Poseidon2::<Fr, T, 5>::default());
    let mut dr = rand_chacha::ChaCha12Rng::seed_from_u64(seed ^ 0xdea3);
    // inputs of permutations: random, constant and equal vectors
    let ins: Vec<Vec<Fr>> = (0..4).map(|i| match i { 3 => vec![Fr::zero(); T], 2 => (0..T).map(|_| konst(r.next())).collect(), _ => (0..T).map(|_| Fr::rand(&mut dr)).collect() }).collect();
    let leaves: Vec<Fr> = (0..64).map(|i| if i % 7 == 3 { konst(r.next()) } else { Fr::rand(&mut dr) }).collect();
    let ins_sh: Arc<Vec<Vec<Vec<Sh>>>> = Arc::new(ins.iter().map(|x| shamir::share_field_elements(x, t, n, &mut dr)).collect());
    let lv_sh = Arc::new(shamir::share_field_elements(&leaves, t, n, &mut dr));
    let arities: &[(bool, usize)] = match T { 2 => &[(false, 2)], 3 => &[(false, 2), (false, 3), (true, 2)], 4 => &[(false, 2), (false, 4), (false, 3), (true, 2), (true, 3)], _ => &[(false, 16), (false, 4), (true, 4), (true, 2)] };
    let ops: Vec<Hop> = (0..c.us("ops")).map(|_| match r.below(10) {
        0 | 1 => Hop::Plain { x: r.usize(0, 3), in_place: r.chance(1, 2) },
        2..=5 => {
            let calls = (0..r.usize(1, if big { 2 } else { 4 })).map(|_| match r.below(if cfg!(feature = "rep3") { 4 } else { 2 }) {
                0 => Call::One { x: r.usize(0, 3), in_place: r.chance(1, 2) },
                1 => { let l = r.usize(1, if big { 2 } else { 5 }); Call::Packed { x: (0..l).map(|_| r.usize(0, 3)).collect(), in_place: r.chance(1, 2) } }
                2 => { let l = r.usize(1, if big { 2 } else { 4 }); Call::Trace((0..l).map(|_| r.usize(0, 3)).collect()) }
                _ => Call::TracePacked([r.usize(0, 3), r.usize(0, 3)]),
            }).collect();
            Hop::Batch { calls, spare: if r.chance(1, 4) { 1 } else { 0 } }
        }
        6..=8 => { let (sponge, arity) = *r.pick(arities); let mut m = 1; while arity.pow(m + 1) <= if big { 16 } else { 32 } { m += 1; } Hop::Merkle { sponge, arity, levels: r.usize(1, m as usize) as u32 } }
        _ => if o.nets < 2 { Hop::Plain { x: 0, in_place: false } } else { Hop::Fork(r.logu(1, 500) as usize - 1, (0..2).map(|_| r.usize(0, 3)).collect()) },
    }).collect();
    note(|| format!("T={T} program {ops:?}"));
    for s in &ops { let s = format!("{s:?}"); feat(format!("op {}", s.split(['(', ' ', '{']).next().unwrap_or(""))); if let Hop::Merkle { .. } = &ops[0] { feat(s); } }
    feat(format!("T{T} n{n} t{t}"));
    WIRE.with(|w| w.keep = true);
    // each operation gives groups of shares, opened by all
    let all: Vec<usize> = (0..n).collect();
    type Out = Vec<Result<Vec<(Vec<Sh>, Vec<Fr>)>, String>>;
    let res: Arc<Glob<std::collections::BTreeMap<usize, Out>>> = Arc::new(Glob::new());
    let offs: Arc<Glob<Vec<(usize, String)>>> = Arc::new(Glob::new());
    let (ops2, res2, offs2, h2) = (Arc::new(ops.clone()), res.clone(), offs.clone(), hash.clone());
    let pre = c.us("pre");
    let body = move |p: usize, env: Env| {
        let nets = taps(&env);
        let x = |i: usize| -> Vec<Sh> { ins_sh[i][p].clone() };
        let xs = |v: &[usize]| -> Vec<Sh> { v.iter().flat_map(|&i| ins_sh[i][p].clone()).collect() };
        let mut out: Out = vec![];
        let e = (|| -> eyre::Result<()> {
            let mut st: ShamirState<Fr> = ShamirPreprocessing::new(n, t, pre, &nets[0])?.into();
            for (i, h) in ops2.iter().enumerate() {
                let from = WIRE.with(|w| w.log.len());
                let net = &nets[0];
                let one = |st: &mut ShamirState<Fr>, net: &Tap, i: usize, in_place: bool| -> eyre::Result<Vec<Sh>> { if in_place { let mut s: [Sh; T] = arr(&x(i)); h2.shamir_permutation_in_place(&mut s, net, st)?; Ok(s.to_vec()) } else { Ok(h2.shamir_permutation(&arr(&x(i)), net, st)?.to_vec()) } };
                let got: Vec<Vec<Sh>> = match h {
                    Hop::Plain { x, in_place } => vec![one(&mut st, net, *x, *in_place)?],
                    Hop::Batch { calls, spare } => {
                        let total: usize = calls.iter().map(|c| match c { Call::One { .. } => 1, Call::Packed { x, .. } | Call::Trace(x) => x.len(), Call::TracePacked(_) => 2 }).sum();
                        let mut pc: Pre = h2.precompute_shamir(total + spare, net, &mut st)?;
                        let mut g = vec![];
                        for c in calls {
                            match c {
                                Call::One { x: i, in_place: true } => { let mut s: [Sh; T] = arr(&x(*i)); h2.shamir_permutation_in_place_with_precomputation(&mut s, &mut pc, net, &mut st)?; g.push(s.to_vec()); }
                                Call::One { x: i, .. } => g.push(h2.shamir_permutation_with_precomputation(&arr(&x(*i)), &mut pc, net, &mut st)?.to_vec()),
                                Call::Packed { x: v, in_place: true } => { let mut s = xs(v); h2.shamir_permutation_in_place_with_precomputation_packed(&mut s, &mut pc, net, &mut st)?; g.push(s); }
                                Call::Packed { x: v, .. } => g.push(h2.shamir_permutation_with_precomputation_packed(&xs(v), &mut pc, net, &mut st)?),
                                #[cfg(feature = "rep3")]
                                Call::Trace(v) => { let (s, tr) = h2.shamir_permutation_in_place_with_precomputation_intermediate_vec(xs(v), &mut pc, net, &mut st)?; g.push(s); g.extend(tr); }
                                #[cfg(feature = "rep3")]
                                Call::TracePacked(v) => { let (s, tr) = h2.shamir_permutation_in_place_with_precomputation_intermediate_packed::<_, T2, 2>(arr(&xs(v)), &mut pc, net, &mut st)?; g.push(s.to_vec()); g.extend(tr); }
                                #[cfg(not(feature = "rep3"))]
                                _ => unreachable!(),
                            }
                            offs2.with(|v| v.push((i, format!("{}", pc.get_offset()))));
                        }
                        if pc.consumed() != (*spare == 0) { offs2.with(|v| v.push((usize::MAX, format!("P{p}: material for {total} permutations and {spare} more is {}consumed after {total}", if pc.consumed() { "" } else { "not " })))); }
                        g
                    }
                    Hop::Merkle { sponge, arity, levels } => {
                        let v: Vec<Sh> = lv_sh[p][..arity.pow(*levels)].to_vec();
                        vec![vec![match (sponge, arity) {
                            (true, 2) => h2.merkle_tree_sponge_shamir::<2, _>(v, net, &mut st)?, (true, 3) => h2.merkle_tree_sponge_shamir::<3, _>(v, net, &mut st)?, (true, _) => h2.merkle_tree_sponge_shamir::<4, _>(v, net, &mut st)?,
                            (_, 2) => h2.merkle_tree_compression_shamir::<2, _>(v, net, &mut st)?, (_, 3) => h2.merkle_tree_compression_shamir::<3, _>(v, net, &mut st)?, (_, 4) => h2.merkle_tree_compression_shamir::<4, _>(v, net, &mut st)?, _ => h2.merkle_tree_compression_shamir::<16, _>(v, net, &mut st)?,
                        }]]
                    }
                    Hop::Fork(k, v) => {
                        let mut s1 = st.fork(*k)?;
                        let (a, b) = mpc_net::join(|| one(&mut st, &nets[0], v[0], false), || one(&mut s1, &nets[1], v[1], true));
                        vec![a?, b?]
                    }
                };
                // masked values are fresh: a party never sends the same element twice to the same party
                let dup = WIRE.with(|w| {
                    let mut seen: std::collections::HashSet<(usize, [u8; 32])> = Default::default();
                    let mut dup = None;
                    for s in w.log[from..].iter().filter(|s| s.from == p) {
                        let body: &[u8] = if s.data.len() % 32 == 8 { &s.data[8..] } else { &s.data[..] };
                        for e in body.chunks_exact(32) { if !seen.insert((s.to, e.try_into().unwrap())) { dup = Some(s.to); } }
                    }
                    dup
                });
                if let Some(q) = dup { offs2.with(|v| v.push((usize::MAX - 1, format!("P{p} sends P{q} the same masked value twice in operation {i} ({h:?}, T={T} n={n} t={t})")))); }
                let mut o = vec![];
                for g in got { let v = ar::open_vec(&g, net, &mut st)?; o.push((g, v)); }
                out.push(Ok(o));
            }
            Ok(())
        })();
        if let Err(e) = e { out.push(Err(format!("{e:#}"))); }
        let mut out = Some(out);
        res2.with(|m| m.insert(p, out.take().unwrap()));
        gate(77, n, 3000 * os::SEC);
    };
    let ids = parties(&o, P, &all, &[], body);
    finish(P, &ids, false, &o);
    offs.with(|v| {
        for (i, m) in v.iter() { if *i >= usize::MAX - 1 { viol(P, if *i == usize::MAX { "material" } else { "repeated-mask" }, m.clone()); } }
        let mut per: std::collections::BTreeMap<(usize, String), usize> = Default::default();
        for (i, m) in v.iter() { if *i < usize::MAX - 1 { *per.entry((*i, m.clone())).or_default() += 1; } }
        for ((i, m), k) in per { if k != n { viol(P, "out-of-step", format!("operation {i}: offset {m} is reached {k} times by {n} parties")); } }
    });
    let perm = |i: usize| -> Vec<Fr> { hash.permutation(&arr(&ins[i])).to_vec() };
    #[cfg(not(feature = "rep3"))]
    let trace = |_: usize| -> Vec<Fr> { vec![] };
    #[cfg(feature = "rep3")]
    let trace = |i: usize| -> Vec<Fr> { hash.plain_permutation_intermediate(arr(&ins[i])).map(|x| x.1).unwrap_or_default() };
    let outs: Vec<Out> = all.iter().map(|p| res.with(|m| m.remove(p)).unwrap_or_default()).collect();
    for (i, h) in ops.iter().enumerate() {
        let want: Vec<Vec<Fr>> = match h {
            Hop::Plain { x, .. } => vec![perm(*x)],
            Hop::Batch { calls, .. } => calls.iter().flat_map(|c| match c {
                Call::One { x, .. } => vec![perm(*x)],
                Call::Packed { x, .. } => vec![x.iter().flat_map(|&i| perm(i)).collect()],
                Call::Trace(x) => { let mut v = vec![x.iter().flat_map(|&i| perm(i)).collect()]; v.extend(x.iter().map(|&i| trace(i))); v }
                Call::TracePacked(x) => { let mut v = vec![x.iter().flat_map(|&i| perm(i)).collect()]; v.extend(x.iter().map(|&i| trace(i))); v }
            }).collect(),
            Hop::Merkle { sponge, arity, levels } => {
                let v = leaves[..arity.pow(*levels)].to_vec();
                vec![vec![match (sponge, arity) { (true, 2) => hash.merkle_tree_sponge::<2>(v), (true, 3) => hash.merkle_tree_sponge::<3>(v), (true, _) => hash.merkle_tree_sponge::<4>(v), (_, 2) => hash.merkle_tree_compression::<2>(v), (_, 3) => hash.merkle_tree_compression::<3>(v), (_, 4) => hash.merkle_tree_compression::<4>(v), _ => hash.merkle_tree_compression::<16>(v) }]]
            }
            Hop::Fork(_, v) => v.iter().map(|&i| perm(i)).collect(),
        };
        let at = format!("operation {i} of {}: {h:?} (T={T} n={n} t={t})", ops.len());
        for (p, o) in outs.iter().enumerate() {
            match o.get(i) {
                Some(Ok(g)) => {
                    if g.len() != want.len() { viol(P, "wrong-result", format!("P{p} got {} vectors instead of {}: {at}", g.len(), want.len())); continue; }
                    for (k, (a, b)) in g.iter().zip(&want).enumerate() { if &a.1 != b { viol(P, "wrong-result", format!("P{p}: vector {k} of {} is wrong: {at}", want.len())); break; } }
                }
                Some(Err(e)) => viol(P, "failed", format!("P{p}: {e}: {at}")),
                None => {}
            }
        }
        // the shares themselves
        if outs.iter().all(|o| matches!(o.get(i), Some(Ok(g)) if g.len() == want.len())) {
            'v: for k in 0..want.len() { for j in 0..want[k].len() {
                let sh: Option<Vec<Fr>> = outs.iter().map(|o| match &o[i] { Ok(g) => g[k].0.get(j).map(|s| s.a), _ => None }).collect();
                match sh.map(|s| secret(&s, t)) { Some(Ok(s)) if s == want[k][j] => {} Some(Err(e)) => { viol(P, "inconsistent", format!("element {j} of vector {k}: {e}: {at}")); break 'v; } _ => { viol(P, "wrong-sharing", format!("element {j} of vector {k} shares a wrong value: {at}")); break 'v; } }
            } }
        }
    }
}
