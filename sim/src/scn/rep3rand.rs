//! Correlated randomness of the replicated protocols: requests on families of forked states, and masks seen through operations.
use super::mpc::*;
use super::rep3::{ub, Bs, Fs, Pj, Ps, Sf, CAP, REAL, STUB, U};
use super::*;
use ark_ec::short_weierstrass::SWCurveConfig;
use ark_ff::{PrimeField, UniformRand, Zero};
use ark_serialize::CanonicalSerialize;
use mpc_core::protocols::rep3::{self, arithmetic as ar, binary as bi, conversion as cv, conversion::A2BType, pointshare as pt, Rep3State};
use mpc_core::protocols::rep3_ring::{self as ring, ring::ring_impl::RingElement, Rep3RingShare};
use mpc_core::uint::FieldUint;
use mpc_core::MpcState;
use rand::SeedableRng;
use std::sync::Arc;
use tp::*;

const P: &str = "R02";
const SIMPLE: &[(&str, i64)] = &[("tp", 0), ("ops", 1), ("curve", 0), ("jitter_us", 0), ("workers", 1), ("phases", 1), ("many", 0), ("yao", 0), ("lat_min_us", 10), ("lat_max_us", 10), ("seg_max", 65536)];

pub fn scenarios() -> Vec<Scn> { vec![Scn { name: "rep3-rand", props: &["R02"], weight: 1, make, run, real: REAL, stub: STUB, simple: SIMPLE }] }

fn make(r: &mut Rng, _prop: &str, i: u64, c: &mut Cfg) {
    let tp = if i % 9 == 8 { TCP } else { LOCAL };
    c.set("tp", tp).set("n", 3).set("ops", r.usize(2, 22) as i64).set("curve", r.below(3) as i64).set("nets", 3).set("yao", r.chance(1, 4) as i64).set("many", r.chance(1, 6) as i64)
        .set("workers", r.usize(1, 3) as i64).set("jitter_us", if r.chance(1, 3) { r.logu(1, 500) as i64 } else { 0 }).set("phases", [1, 1, 2, 3][r.below(4) as usize]).set("victim", r.below(3) as i64);
    sched_knobs(r, c, 3);
    c.set("seg_max", 16384);
    if tp == TCP { tcp_knobs(r, c); c.set("seg_max", 16384).set("sndbuf", 65536).set("rcvbuf", 65536); }
    if c.on("alloc_yield") { c.set("alloc_yield", c.get("alloc_yield").max(300)); }
    c.set("max_steps", 10_000_000);
}
fn run(c: &Cfg) { match c.get("curve") { 0 => on::<ark_bn254::g1::Config>(c), 1 => on::<ark_bls12_381::g1::Config>(c), _ => on::<ark_grumpkin::GrumpkinConfig>(c) } }

/// What one party holds of one random value.
enum Rel<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>> {
    /// summands of zero
    F(Sf<S>), P(Pj<S>), W(Vec<u128>, u32), X(U<S>),
    /// own value and the previous party's
    Pair(Vec<u8>, Vec<u8>),
    /// the same for all, for parties 1 and 2
    Same(Vec<u8>), Garb(Option<Vec<u8>>),
    /// a masked message
    Msg(Vec<u8>),
}
struct It<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>> { what: String, rel: Rel<S> }
#[derive(Clone, Debug)]
enum Rq { Fes, Mask, MaskVec(usize), Ecs, MaskEc, El(u32), ElVec(u32, usize), Uint, Uint1, Seeds, Perm(usize), Shared, Garb, Delta, Rng1, Shf }
#[derive(Clone, Debug)]
enum St { Get(usize, Rq, usize), Fork(usize), Par(Vec<(usize, Rq)>), Mul(usize, usize, usize), MulVec(usize, Vec<usize>, Vec<usize>), And(usize, usize, usize), PMul(usize, usize), Ring(usize, usize), A2B(usize, usize), B2A(usize, usize), Inject(usize, usize), Eq(usize, usize), Lt(usize, usize, usize), Inv(usize, usize), Yao(usize, usize), Pt2F(usize) }

fn by<T: CanonicalSerialize>(x: &T) -> Vec<u8> { let mut v = vec![]; x.serialize_uncompressed(&mut v).unwrap(); v }
fn req<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>>(q: &Rq, st: &mut Rep3State, p: usize, what: String) -> Vec<It<S>> {
    let r = &mut st.rngs.rand;
    let it = |rel| vec![It { what: what.clone(), rel }];
    match q {
        Rq::Fes => { let (a, b) = r.random_fes::<Sf<S>>(); it(Rel::Pair(by(&a), by(&b))) }
        Rq::Mask => it(Rel::F(r.masking_field_element())),
        Rq::MaskVec(n) => r.masking_field_elements_vec::<Sf<S>>(*n).into_iter().enumerate().map(|(i, x)| It { what: format!("{what} element {i}"), rel: Rel::F(x) }).collect(),
        Rq::Ecs => { let (a, b) = r.random_ecs::<Pj<S>>(); it(Rel::Pair(by(&a), by(&b))) }
        Rq::MaskEc => it(Rel::P(r.masking_ec_element())),
        Rq::El(8) => it(Rel::W((0..20).map(|_| r.masking_element::<RingElement<u8>>().0 as u128).collect(), 8)),
        Rq::El(64) => it(Rel::W((0..2).map(|_| r.masking_element::<RingElement<u64>>().0 as u128).collect(), 64)),
        Rq::El(_) => it(Rel::W(vec![r.masking_element::<RingElement<u128>>().0], 128)),
        Rq::ElVec(8, n) => it(Rel::W(r.masking_elements_vec::<RingElement<u8>>(20 + *n).into_iter().map(|x| x.0 as u128).collect(), 8)),
        Rq::ElVec(64, n) => it(Rel::W(r.masking_elements_vec::<RingElement<u64>>(2 + *n).into_iter().map(|x| x.0 as u128).collect(), 64)),
        Rq::ElVec(_, n) => it(Rel::W(r.masking_elements_vec::<RingElement<u128>>(*n).into_iter().map(|x| x.0).collect(), 128)),
        Rq::Uint => { let (a, b) = r.random_uint::<U<S>>(<Sf<S> as PrimeField>::MODULUS_BIT_SIZE as usize); it(Rel::Pair(by(&a), by(&b))) }
        Rq::Uint1 => { let (a, b) = (r.random_uint_rng1::<U<S>>(200), r.random_uint_rng2::<U<S>>(200)); it(Rel::Pair(by(&a), by(&b))) }
        Rq::Seeds => { let (a, b) = r.random_seeds(); it(Rel::Pair(a.to_vec(), b.to_vec())) }
        Rq::Perm(n) => { let (a, b) = r.random_perm((0..40 + *n as u64).collect()); it(Rel::Pair(by(&a), by(&b))) }
        Rq::Rng1 => { let (a, b) = (r.random_field_element_rng1::<Sf<S>>(), r.random_field_element_rng2::<Sf<S>>()); it(Rel::Pair(by(&a), by(&b))) }
        Rq::Shf => { let (a, b) = r.random_elements::<RingElement<u128>>(); it(Rel::Pair(a.0.to_le_bytes().to_vec(), b.0.to_le_bytes().to_vec())) }
        Rq::Shared => it(Rel::Same(st.rngs.generate_shared::<[u8; 32]>(st.id).to_vec())),
        Rq::Garb => it(Rel::Garb(if p == 0 { None } else { Some(st.rngs.generate_garbler_randomness::<u128>(st.id).to_le_bytes().to_vec()) })),
        Rq::Delta => it(Rel::Garb(if p == 0 { None } else { st.rngs.generate_random_garbler_delta(st.id).map(|d| format!("{d:?}").into_bytes()) })),
    }
}
fn rq(r: &mut Rng, many: bool) -> Rq {
    let n = if many && r.chance(1, 2) { r.usize(500, 2600) } else { r.logu(1, 30) as usize };
    let b = *r.pick(&[8u32, 64, 128]);
    match r.below(17) { 0 => Rq::Fes, 1 => Rq::Mask, 2 | 3 => Rq::MaskVec(n), 4 => Rq::Ecs, 5 => Rq::MaskEc, 6 => Rq::El(b), 7 => Rq::ElVec(b, n), 8 => Rq::Uint, 9 => Rq::Uint1, 10 => Rq::Seeds, 11 => Rq::Perm(n.min(60)), 12 => Rq::Shared, 13 => Rq::Garb, 14 => Rq::Rng1, 15 => Rq::Delta, _ => Rq::Shf }
}
fn on<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>>(c: &Cfg) {
    workers(c);
    wire(c);
    let seed = c.get("seed") as u64;
    let mut r = Rng::new(seed ^ 0x5d);
    let mut o = link::opt(c);
    o.nets = 3;
    let mut dr = rand_chacha::ChaCha12Rng::seed_from_u64(seed ^ 0xdea5);
    let vals: Vec<Sf<S>> = (0..2).map(|_| Sf::<S>::rand(&mut dr)).collect();
    let fs: Arc<[Vec<Fs<S>>; 3]> = Arc::new(rep3::share_field_elements(&vals, &mut dr));
    let bs: Arc<Vec<[Bs<S>; 3]>> = Arc::new(vals.iter().map(|x| rep3::share_binary(*x, &mut dr)).collect());
    let ps: Arc<[Ps<S>; 3]> = Arc::new(rep3::share_curve_point(Pj::<S>::rand(&mut dr), &mut dr));
    let rs: Arc<[Rep3RingShare<u128>; 3]> = Arc::new(ring::share_ring_element(RingElement(r.next() as u128 * 0x1_0000_0001_0000), &mut dr));
    let mut states = 1usize;
    let many = c.on("many");
    let mut prog = vec![];
    for _ in 0..c.us("ops") {
        let k = r.below(states as u64) as usize;
        let (a, b) = (r.below(2) as usize, r.below(2) as usize);
        prog.push(match r.below(26) {
            0..=5 => { let q = rq(&mut r, many); St::Get(k, q, r.usize(1, 3)) }
            6..=9 => { states += 1; St::Fork(k) }
            10 | 11 if states > 1 => { let mut v: Vec<usize> = (0..states).collect(); r.shuffle(&mut v); v.truncate(3); St::Par(v.into_iter().map(|s| (s, rq(&mut r, many))).collect()) }
            12 => St::Mul(k, a, b),
            13 => { let l = if many && r.chance(1, 2) { r.usize(500, 2000) } else { r.logu(1, 20) as usize }; St::MulVec(k, (0..l).map(|_| r.below(2) as usize).collect(), (0..l).map(|_| r.below(2) as usize).collect()) }
            14 => St::And(k, a, b), 15 => St::PMul(k, a), 16 => St::Ring(k, r.usize(1, 4)), 17 => St::A2B(k, a), 18 => St::B2A(k, a), 19 => St::Inject(k, r.usize(1, 5)), 20 => St::Eq(k, a), 21 => St::Lt(k, a, b), 22 => St::Inv(k, a), 23 => St::Yao(k, a),
            24 => St::Pt2F(k),
            _ => St::Get(k, Rq::Seeds, 1),
        });
    }
    note(|| format!("program {prog:?}"));
    for s in &prog { let s = format!("{s:?}"); feat(format!("op {}", s.split('(').next().unwrap_or(""))); }
    let phases = c.us("phases").clamp(1, 3);
    let victim = c.us("victim") % 3;
    WIRE.with(|w| w.keep = true);
    let res: Arc<Glob<std::collections::BTreeMap<(usize, usize), Vec<It<S>>>>> = Arc::new(Glob::new());
    let errs: Arc<Glob<Vec<String>>> = Arc::new(Glob::new());
    let (prog, res2, errs2) = (Arc::new(prog), res.clone(), errs.clone());
    let a2b = if c.on("yao") { A2BType::Yao } else { A2BType::Direct };
    let body = move |p: usize, env: Env| {
        let nets = taps(&env);
        for ph in 0..phases {
            // phase 1 repeats phase 0 with other entropy for one party, phase 2 with other entropy for all
            os::calls::reseed(p, os::rng::mix(seed ^ if ph == 2 || (ph == 1 && p == victim) { 0x77 + ph as u64 } else { 0 }, p as u64));
            let mut h: Vec<It<S>> = vec![];
            let n = &nets[0];
            // the messages this party sends while an operation runs
            let sent = |from: usize, what: &str, h: &mut Vec<It<S>>| WIRE.with(|w| for (j, m) in w.log[from..].iter().filter(|m| m.from == p && m.data.len() >= 40).enumerate() { h.push(It { what: format!("{what} message {j} to P{}", m.to), rel: Rel::Msg([&[m.to as u8], &m.data[8..]].concat()) }); });
            let mark = || WIRE.with(|w| w.log.len());
            let e = (|| -> eyre::Result<()> {
                let mut st: Vec<Rep3State> = vec![Rep3State::new(n, a2b)?];
                for (i, s) in prog.iter().enumerate() {
                    let what = |t: &str, k: usize| format!("step {i} {t} in state {k}");
                    match s {
                        St::Get(k, q, m) => for _ in 0..*m { h.extend(req(q, &mut st[*k], p, what(&format!("{q:?}"), *k))); },
                        St::Fork(k) => { let f = st[*k].fork(0)?; st.push(f); }
                        St::Par(v) => {
                            let mut mine: Vec<(usize, &Rq, &mut Rep3State)> = st.iter_mut().enumerate().filter_map(|(j, s)| v.iter().find(|x| x.0 == j).map(|x| (j, &x.1, s))).collect();
                            mine.sort_by_key(|x| v.iter().position(|y| y.0 == x.0));
                            let run = |k: usize, q: &Rq, s: &mut Rep3State| -> Vec<It<S>> { req(q, s, p, format!("step {i} concurrent {q:?} in state {k}")) };
                            let mut it = mine.into_iter();
                            let (a, b, d) = (it.next().unwrap(), it.next().unwrap(), it.next());
                            let (x, y, z) = mpc_net::join3(|| run(a.0, a.1, a.2), || run(b.0, b.1, b.2), || d.map(|d| run(d.0, d.1, d.2)).unwrap_or_default());
                            h.extend(x); h.extend(y); h.extend(z);
                        }
                        St::Mul(k, a, b) => { let (x, y) = (fs[p][*a], fs[p][*b]); let z = ar::mul(x, y, n, &mut st[*k])?; h.push(It { what: what("multiplication", *k), rel: Rel::F(z.a - x * y) }); }
                        St::MulVec(k, a, b) => { let (x, y): (Vec<_>, Vec<_>) = (a.iter().map(|&j| fs[p][j]).collect(), b.iter().map(|&j| fs[p][j]).collect()); let z = ar::mul_vec(&x, &y, n, &mut st[*k])?; for (j, z) in z.iter().enumerate() { h.push(It { what: format!("{} element {j}", what("vector multiplication", *k)), rel: Rel::F(z.a - x[j] * y[j]) }); } }
                        St::And(k, a, b) => { let (x, y) = (&bs[*a][p], &bs[*b][p]); let z = bi::and(x, y, n, &mut st[*k])?; h.push(It { what: what("and", *k), rel: Rel::X(z.a ^ (x & y)) }); }
                        St::PMul(k, a) => { let x = fs[p][*a]; let z = pt::scalar_mul(&ps[p], x, n, &mut st[*k])?; h.push(It { what: what("point multiplication", *k), rel: Rel::P(z.a - x * &ps[p]) }); }
                        St::Ring(k, m) => { let x = rs[p]; let z = if *m == 1 { vec![ring::arithmetic::mul(x, x, n, &mut st[*k])?] } else { ring::arithmetic::mul_vec(&vec![x; *m], &vec![x; *m], n, &mut st[*k])? }; for z in z { h.push(It { what: what("ring multiplication", *k), rel: Rel::W(vec![(z.a - x * x).0], 128) }); } }
                        St::A2B(k, a) => { let f = mark(); let _ = cv::a2b(fs[p][*a], n, &mut st[*k])?; sent(f, &what("a2b", *k), &mut h); }
                        St::B2A(k, a) => { let f = mark(); let _ = cv::b2a(&bs[*a][p], n, &mut st[*k])?; sent(f, &what("b2a", *k), &mut h); }
                        St::Inject(k, m) => { let f = mark(); let x = (bs[0][p] >> 3).and_mask(&ub::<U<S>>(&1u8.into())); let _ = cv::bit_inject_many(&vec![x; *m], n, &mut st[*k])?; sent(f, &what(&format!("bit injection of {m}"), *k), &mut h); }
                        St::Eq(k, a) => { let f = mark(); let _ = ar::eq_bit_public(fs[p][*a], vals[0], n, &mut st[*k])?; sent(f, &what("comparison", *k), &mut h); }
                        St::Lt(k, a, b) => { let f = mark(); let _ = ar::lt(fs[p][*a], fs[p][*b], n, &mut st[*k])?; sent(f, &what("order", *k), &mut h); }
                        St::Inv(k, a) => { let f = mark(); let _ = ar::inv(fs[p][*a], n, &mut st[*k])?; sent(f, &what("inverse", *k), &mut h); }
                        St::Yao(k, a) => { let f = mark(); let _ = cv::a2y2b(fs[p][*a], n, &mut st[*k])?; sent(f, &what("garbled conversion", *k), &mut h); }
                        St::Pt2F(k) => { let f = mark(); let _ = cv::point_share_to_fieldshares::<Pj<S>, _>(ps[p].clone(), n, &mut st[*k])?; sent(f, &what("point to coordinates", *k), &mut h); }
                    }
                }
                // in the end every state is still in step
                for (k, s) in st.iter_mut().enumerate() { for q in [Rq::Mask, Rq::Fes, Rq::Shared, Rq::Shf, Rq::MaskEc] { h.extend(req(&q, s, p, format!("at the end {q:?} in state {k}"))); } let z = cv::b2a(&bs[0][p], n, s)?; let v = ar::open(z, n)?; if v != vals[0] { eyre::bail!("conversion at the end in state {k} gives a wrong value: generators are out of step"); } }
                Ok(())
            })();
            if let Err(e) = e { note(|| format!("P{p}: {e:#}")); errs2.with(|v| v.push(format!("P{p} in phase {ph}: {e:#}"))); }
            res2.with(|m| m.insert((ph, p), h));
        }
        gate(77, 3, CAP);
    };
    let ids = parties(&o, P, &[0, 1, 2], &[], body);
    finish(P, &ids, false, &o);
    errs.with(|v| for e in v.drain(..) { viol(P, "failed", e); });
    let mut first: [Vec<It<S>>; 3] = Default::default();
    for ph in 0..phases {
        let h: [Vec<It<S>>; 3] = [0, 1, 2].map(|p| res.with(|m| m.remove(&(ph, p))).unwrap_or_default());
        // every party's values are fresh
        for (p, hp) in h.iter().enumerate() {
            let mut seen: std::collections::HashMap<Vec<u8>, &str> = Default::default();
            for x in hp {
                let v: Vec<Vec<u8>> = match &x.rel {
                    Rel::F(v) => { if v.is_zero() { viol(P, "zero-mask", format!("P{p}'s mask is zero: {}", x.what)); } vec![by(v)] }
                    Rel::P(v) => { if v.is_zero() { viol(P, "zero-mask", format!("P{p}'s mask is zero: {}", x.what)); } vec![by(v)] }
                    Rel::X(v) => { if v.is_zero() { viol(P, "zero-mask", format!("P{p}'s mask is zero: {}", x.what)); } vec![by(v)] }
                    Rel::W(v, b) => { if v.iter().all(|x| *x == 0) { viol(P, "zero-mask", format!("P{p}'s mask is zero: {}", x.what)); }
                        // chunks of at least 128 bits
                        v.chunks((128 / *b as usize).max(1)).filter(|w| w.len() * *b as usize >= 128).map(|w| w.iter().flat_map(|x| x.to_le_bytes()[..*b as usize / 8].to_vec()).collect()).collect() }
                    Rel::Pair(a, b) => { if a == b { viol(P, "same-pair", format!("P{p}'s two generators give the same value: {}", x.what)); } vec![a.clone(), b.clone()] }
                    Rel::Same(a) => vec![a.clone()], Rel::Garb(a) => a.iter().cloned().collect(), Rel::Msg(m) => vec![m.clone()],
                };
                for v in v { if let Some(y) = seen.insert(v, &x.what) { viol(P, "reused", format!("P{p}'s value of [{}] is that of [{y}]", x.what)); break; } }
            }
        }
        let h2: [Vec<&It<S>>; 3] = [0, 1, 2].map(|p| h[p].iter().filter(|x| !matches!(x.rel, Rel::Msg(_))).collect());
        if h2.iter().any(|x| x.len() != h2[0].len()) { viol(P, "out-of-step", "parties have different numbers of values"); return; }
        for i in 0..h2[0].len() {
            let what = &h2[0][i].what;
            let ok = match [0, 1, 2].map(|p| &h2[p][i].rel) {
                [Rel::F(a), Rel::F(b), Rel::F(c)] => (*a + b + c).is_zero(),
                [Rel::P(a), Rel::P(b), Rel::P(c)] => (*a + b + c).is_zero(),
                [Rel::X(a), Rel::X(b), Rel::X(c)] => (*a ^ *b ^ *c).is_zero(),
                [Rel::W(a, w), Rel::W(b, _), Rel::W(c, _)] => a.len() == b.len() && b.len() == c.len() && a.iter().zip(b).zip(c).all(|((a, b), c)| { let s = a.wrapping_add(*b).wrapping_add(*c); if *w == 128 { s == 0 } else { s & ((1u128 << w) - 1) == 0 } }),
                [Rel::Pair(a, b), Rel::Pair(a1, b1), Rel::Pair(a2, b2)] => b == a2 && b1 == a && b2 == a1,
                [Rel::Same(a), Rel::Same(b), Rel::Same(c)] => a == b && b == c,
                [Rel::Garb(_), Rel::Garb(b), Rel::Garb(c)] => b.is_some() && b == c,
                _ => false,
            };
            if !ok { viol(P, "out-of-step", format!("[{what}]: the parties' values do not fit together")); break; }
        }
        // values depend on the parties' entropy
        drop(h2);
        if ph == 0 { first = h; continue; }
        for p in 0..3 {
            if ph == 1 && p != victim && p != (victim + 1) % 3 { continue; }
            for (x, y) in first[p].iter().zip(&h[p]) {
                let same = match (&x.rel, &y.rel) {
                    (Rel::F(a), Rel::F(b)) => a == b, (Rel::P(a), Rel::P(b)) => a == b, (Rel::X(a), Rel::X(b)) => a == b, (Rel::W(a, _), Rel::W(b, _)) => a == b,
                    (Rel::Pair(a, b), Rel::Pair(c, d)) => if ph == 2 { a == c || b == d } else if p == victim { a == c } else { b == d },
                    (Rel::Same(a), Rel::Same(b)) if ph == 2 => a == b, (Rel::Garb(Some(a)), Rel::Garb(Some(b))) if ph == 2 => a == b, (Rel::Msg(a), Rel::Msg(b)) if ph == 2 => a == b,
                    _ => false,
                };
                if same { viol(P, "predictable", format!("P{p}'s value of [{}] does not change with the entropy of {}", x.what, if ph == 2 { "all parties".to_string() } else { format!("P{victim}") })); break; }
            }
        }
    }
}
