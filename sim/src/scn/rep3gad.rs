//! Three-party rings, conversions, garbled-circuit gadgets, look-ups, sorting, Poseidon2 and the bridge to Shamir sharings.
use super::mpc::{konst, konst_p, Tap};
use super::rep3::*;
use super::*;
use ark_ec::short_weierstrass::SWCurveConfig;
use ark_ff::{One, PrimeField, Zero};
use mpc_core::gadgets::poseidon2::Poseidon2;
use mpc_core::protocols::rep3::{self, arithmetic as ar, yao, Rep3PointShare, Rep3PrimeFieldShare, Rep3State};
use mpc_core::protocols::rep3_ring::{self, arithmetic as ra, binary as rb, casts, conversion as rc, gadgets, ring::{bit::Bit, int_ring::IntRing2k, ring_impl::RingElement}, yao as ry, Rep3RingShare};
use mpc_core::uint::{FieldUint, U1024};
use mpc_core::MpcState;
use num_bigint::BigUint;
use num_traits::AsPrimitive;
use rand::distributions::{Distribution, Standard};
use rand::SeedableRng;
use std::sync::Arc;

pub fn scenarios() -> Vec<Scn> { vec![Scn { name: "rep3-gadgets", props: &["R03"], weight: 4, make, run, real: REAL, stub: STUB, simple: SIMPLE }] }

fn make(r: &mut Rng, _prop: &str, i: u64, c: &mut Cfg) {
    super::rep3::make(r, "", i, c);
    c.set("ops", r.usize(1, 8) as i64).set("vmax", r.logu(1, 12) as i64).set("nets", r.usize(1, 3) as i64);
}
fn run(c: &Cfg) {
    match c.get("curve") { 0 | 3 => on::<ark_bn254::g1::Config>(c, "R03", bn_op), 1 => on::<ark_bls12_381::g1::Config>(c, "R03", gadget_op), _ => on::<ark_grumpkin::GrumpkinConfig>(c, "R03", gadget_op) }
}

trait Curve: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint> {}
impl<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>> Curve for S {}

// ---- values -------------------------------------------------------------------------------------------
type Sh<T> = Arc<Vec<[Rep3RingShare<T>; 3]>>;
fn big<T: IntRing2k>(x: T) -> BigUint { bz(x.cast_to_uint::<U1024>()) }
fn el<T: IntRing2k>(x: &BigUint) -> RingElement<T> { RingElement(T::cast_from_uint(&ub::<U1024>(x))) }
fn two(k: usize) -> BigUint { BigUint::one() << k }
fn below(x: BigUint, k: usize) -> BigUint { x % two(k) }
/// A value of `k` bits, often at a boundary.
fn pick(r: &mut Rng, k: usize) -> BigUint {
    let m = two(k);
    let mut rnd = |bits: usize| { let mut v = BigUint::zero(); for _ in 0..bits.div_ceil(64) { v = (v << 64) + r.next(); } v % two(bits) };
    let a = rnd(64);
    let sel: u64 = (&a % 10u64).try_into().unwrap();
    match sel { 0 => BigUint::zero(), 1 => BigUint::one() % m, 2 => m - 1u64, 3 => two(k - 1), 4 => two(k - 1) - 1u64, 5 => (a >> 40usize) % 300u64 % m, 6 => { let b = rnd(k.max(1)); b >> (k / 2) } _ => rnd(k) }
}
fn rng(g: &mut Gen) -> rand_chacha::ChaCha12Rng { rand_chacha::ChaCha12Rng::seed_from_u64(g.r.next()) }
fn deal<T: IntRing2k>(g: &mut Gen, v: &[BigUint], xor: bool) -> Sh<T> where Standard: Distribution<T> {
    let mut d = rng(g);
    if g.r.chance(1, 2) { // all at once
        let e: Vec<RingElement<T>> = v.iter().map(el::<T>).collect();
        let [a, b, c] = if xor { rep3_ring::share_ring_elements_binary(&e, &mut d) } else { rep3_ring::share_ring_elements(&e, &mut d) };
        return Arc::new((0..v.len()).map(|i| [a[i], b[i], c[i]]).collect());
    }
    Arc::new(v.iter().map(|x| if xor { rep3_ring::share_ring_element_binary(el::<T>(x), &mut d) } else { rep3_ring::share_ring_element(el::<T>(x), &mut d) }).collect())
}
fn mine<T: IntRing2k>(s: &Sh<T>, st: &Rep3State) -> Vec<Rep3RingShare<T>> { let p = nth(st.id); s.iter().map(|x| x[p]).collect() }
fn rv<S: Curve, T: IntRing2k>(xor: bool, x: Rep3RingShare<T>) -> Val<S> { Val::Ring { bits: T::K, xor, a: big(x.a.0), b: big(x.b.0) } }
fn rvs<S: Curve, T: IntRing2k>(xor: bool, x: Vec<Rep3RingShare<T>>) -> Vec<Val<S>> { x.into_iter().map(|x| rv(xor, x)).collect() }
fn fdeal<F: PrimeField>(g: &mut Gen, v: &[F]) -> Arc<[Vec<Rep3PrimeFieldShare<F>>; 3]> { let mut d = rng(g); Arc::new(rep3::share_field_elements(v, &mut d)) }
fn fbig<F: FieldUint>(x: &F) -> BigUint { bz(x.to_uint()) }
/// Field elements below 2^bits (or any, if that is too many).
fn fpick<F: FieldUint>(g: &mut Gen, bits: usize) -> F { let x = pick(g.r, bits.min(F::MODULUS_BIT_SIZE as usize)); let m: BigUint = F::MODULUS.into(); if g.r.chance(1, 12) && bits >= F::MODULUS_BIT_SIZE as usize { return -F::one(); } fu(&(x % m)) }
macro_rules! vals { ($k:ident, $e:expr) => { $e.into_iter().map(Val::$k).collect::<Vec<_>>() } }

// ---- rings ----------------------------------------------------------------------------------------------
fn ring_op<S: Curve, T: IntRing2k>(g: &mut Gen, p: &Plain<S>) -> Op<S> where Standard: Distribution<T> {
    let k = T::K;
    let m = two(k);
    let len = g.r.usize(1, g.vmax.max(1));
    let a: Vec<BigUint> = (0..len).map(|_| pick(g.r, k)).collect();
    let b: Vec<BigUint> = (0..len).map(|i| if g.r.chance(1, 6) { a[i].clone() } else { pick(g.r, k) }).collect();
    let c = pick(g.r, k);
    let bits: Vec<BigUint> = (0..len).map(|_| BigUint::from(g.r.below(2))).collect();
    let (x, y) = (a[0].clone(), b[0].clone());
    let w1 = |v: BigUint| vec![Want::Ring(v % two(k))];
    let name = |s: &str| format!("{s}<{k}>");
    let heavy = g.heavy && g.r.chance(1, 2);
    loop {
        return match g.r.below(60) {
            0..=5 => {
                let q = g.r.below(12);
                let (sa, ce) = (deal::<T>(g, &[x.clone(), y.clone()], false), el::<T>(&c));
                let w = match q { 0 | 8 => &x + &y, 1 | 9 => &x + &m - &y, 2 | 10 => &x + &c, 3 => &x + &m - &c, 4 => &c + &m - &x, 5 | 11 => &x * &c, 6 => &m - &x, _ => &x + &y * &c };
                op(&name(&format!("rlin{q}")), w1(w), move |_, _, st| { let v = mine(&sa, st); let (x, y, id) = (v[0], v[1], st.id); let mut t = x; Ok(vec![rv(false, match q {
                    0 => ra::add(x, y), 1 => ra::sub(x, y), 2 => ra::add_public(x, ce, id), 3 => ra::sub_shared_by_public(x, ce, id), 4 => ra::sub_public_by_shared(ce, x, id), 5 => ra::mul_public(x, ce), 6 => ra::neg(x), 7 => ra::add_mul_public(x, y, ce),
                    8 => { ra::add_assign(&mut t, y); t } 9 => { ra::sub_assign(&mut t, y); t } 10 => { ra::add_assign_public(&mut t, ce, id); t } _ => { ra::mul_assign_public(&mut t, ce); t } })]) })
            }
            6 | 7 => { let q = g.r.below(2); let (sa, sb) = (deal::<T>(g, &a, false), deal::<T>(g, &b, false)); let w = a.iter().zip(&b).map(|(x, y)| Want::Ring(if q == 0 { x + y } else { x + &m - y } % &m)).collect(); op(&name("rlin_vec"), w, move |_, _, st| { let (mut x, y) = (mine(&sa, st), mine(&sb, st)); if q == 0 { ra::add_vec_assign(&mut x, &y) } else { ra::sub_vec_assign(&mut x, &y) } Ok(rvs(false, x)) }) }
            8 | 9 => { let sa = deal::<T>(g, &[x.clone(), y.clone()], false); op(&name("rmul"), w1(&x * &y), move |_, n, st| { let v = mine(&sa, st); Ok(vec![rv(false, ra::mul(v[0], v[1], &n[0], st)?)]) }) }
            10 | 11 => { let q = g.r.chance(1, 2); let (sa, sb) = (deal::<T>(g, &a, false), deal::<T>(g, &b, false)); op(&name(if q { "rmul_vec" } else { "rlocal_mul_vec" }), a.iter().zip(&b).map(|(x, y)| Want::Ring(x * y % &m)).collect(), move |_, n, st| { let (x, y) = (mine(&sa, st), mine(&sb, st)); Ok(rvs(false, if q { ra::mul_vec(&x, &y, &n[0], st)? } else { ra::reshare_vec(ra::local_mul_vec(&x, &y, st), &n[0])? })) }) }
            12 => { let (q, sa, w) = (g.r.below(3), deal::<T>(g, &a, false), a.clone()); op(&name("ropen"), vec![Want::Ob(true)], move |_, n, st| { let v = mine(&sa, st); let r = match q { 0 => vec![ra::open(v[0], &n[0])?], _ => ra::open_vec(&v, &n[0])? }; Ok(vec![Val::Ob(r.len() == if q == 0 { 1 } else { w.len() } && r.iter().zip(&w).all(|(x, y)| big(x.0) == *y))]) }) }
            13 => { let (q, sa, sb) = (g.r.chance(1, 2), deal::<T>(g, &a, false), deal::<T>(g, &b, false)); let w: Vec<BigUint> = a.iter().zip(&b).map(|(x, y)| x * y % &m).collect(); op(&name("rmul_open"), vec![Want::Ob(true)], move |_, n, st| { let (x, y) = (mine(&sa, st), mine(&sb, st)); let r = if q { vec![ra::mul_open(x[0], y[0], &n[0], st)?] } else { ra::mul_open_vec(&x, &y, &n[0], st)? }; Ok(vec![Val::Ob(r.len() == if q { 1 } else { w.len() } && r.iter().zip(&w).all(|(x, y)| big(x.0) == *y))]) }) }
            14 => { let d = bits[0].clone(); let sa = deal::<T>(g, &[d.clone(), x.clone(), y.clone()], false); op(&name("rcmux"), w1(if d.is_one() { x.clone() } else { y.clone() }), move |_, n, st| { let v = mine(&sa, st); Ok(vec![rv(false, ra::cmux(v[0], v[1], v[2], &n[0], st)?)]) }) }
            15 => { let sa = deal::<T>(g, &[x.clone(), y.clone(), c.clone()], false); op(&name("radd_mul"), w1(&x + &y * &c), move |_, n, st| { let v = mine(&sa, st); Ok(vec![rv(false, ra::add_mul(v[0], v[1], v[2], &n[0], st)?)]) }) }
            16 => { let e = pick(g.r, k.min(7)); let (sa, ee) = (deal::<T>(g, &[x.clone()], false), el::<T>(&e)); op(&name("rpow"), w1(x.modpow(&e, &m)), move |_, n, st| { let v = mine(&sa, st); Ok(vec![rv(false, ra::pow_public(v[0], ee, &n[0], st)?)]) }) }
            17..=21 => {
                let q = g.r.below(12);
                let (sa, ye) = (deal::<T>(g, &[x.clone(), y.clone()], false), el::<T>(&y));
                let w = match q / 2 { 0 => x < y, 1 => x <= y, 2 => x > y, 3 => x >= y, 4 => x == y, _ => x != y };
                op(&name(["rlt", "rlt_public", "rle", "rle_public", "rgt", "rgt_public", "rge", "rge_public", "req", "req_public", "rneq", "rneq_public"][q as usize]), vec![Want::Ring((w as u64).into())], move |_, n, st| { let v = mine(&sa, st); let (x, y, n) = (v[0], v[1], &n[0]); Ok(vec![rv(true, match q {
                    0 => ra::lt(x, y, n, st)?, 1 => ra::lt_public(x, ye, n, st)?, 2 => ra::le(x, y, n, st)?, 3 => ra::le_public(x, ye, n, st)?, 4 => ra::gt(x, y, n, st)?, 5 => ra::gt_public(x, ye, n, st)?, 6 => ra::ge(x, y, n, st)?, 7 => ra::ge_public(x, ye, n, st)?,
                    8 => ra::eq(x, y, n, st)?, 9 => ra::eq_public(x, ye, n, st)?, 10 => ra::neq(x, y, n, st)?, _ => ra::neq_public(x, ye, n, st)? })]) })
            }
            22 => { let z = if g.r.chance(1, 3) { BigUint::zero() } else { x.clone() }; let sa = deal::<T>(g, &[z.clone()], false); op(&name("ris_zero"), vec![Want::Ob(z.is_zero())], move |_, n, st| { let v = mine(&sa, st); Ok(vec![Val::Ob(ra::is_zero(v[0], &n[0], st)?)]) }) }
            23 => { let s = g.i(k); let (sa, e) = (deal::<T>(g, &[x.clone()], false), el::<T>(&s.into())); if big(e.0) != s.into() { continue; } op(&name("rpow_2"), w1(&x << s), move |_, _, st| { let v = mine(&sa, st); Ok(vec![rv(false, ra::pow_2_public(v[0], e))]) }) }
            24 => { let b2: Vec<BigUint> = bits.iter().map(|_| BigUint::from(g.r.below(2))).collect(); let q = g.r.chance(1, 2); let (sa, sb) = (deal::<T>(g, &bits, false), deal::<T>(g, &b2, false)); let n_ = if q { 1 } else { len }; op(&name("rarith_xor"), (0..n_).map(|i| Want::Ring(&bits[i] ^ &b2[i])).collect(), move |_, n, st| { let (x, y) = (mine(&sa, st), mine(&sb, st)); Ok(rvs(false, if q { vec![ra::arithmetic_xor(x[0], y[0], &n[0], st)?] } else { ra::arithmetic_xor_many(&x, &y, &n[0], st)? })) }) }
            // binary
            25..=28 => {
                let q = g.r.below(9);
                let s = g.i(k);
                let (sa, ce, se) = (deal::<T>(g, &[x.clone(), y.clone()], true), el::<T>(&c), el::<T>(&s.into()));
                if q >= 5 && q <= 6 && big(se.0) != s.into() { continue; }
                let w = match q { 0 => &x ^ &y, 1 => &x ^ &c, 2 => &x | &y, 3 => &x | &c, 4 => &x & &c, 5 => &x >> s, 6 => &x << s, 7 => &x & &y, _ => c.clone() };
                op(&name(["bxor", "bxor_public", "bor", "bor_public", "band_public", "bshr", "bshl", "band", "bpromote"][q as usize]), w1(w), move |_, n, st| { let v = mine(&sa, st); let (x, y, n) = (v[0], v[1], &n[0]); Ok(vec![rv(true, match q { 0 => rb::xor(&x, &y), 1 => rb::xor_public(&x, &ce, st.id), 2 => rb::or(&x, &y, n, st)?, 3 => rb::or_public(&x, &ce, st.id), 4 => rb::and_with_public(&x, &ce), 5 => rb::shift_r_public(&x, se), 6 => rb::shift_l_public(&x, se), 7 => rb::and(&x, &y, n, st)?, _ => rb::promote_to_trivial_share(st.id, &ce) })]) })
            }
            29 => { let (sa, sb) = (deal::<T>(g, &a, true), deal::<T>(g, &b, true)); op(&name("band_vec"), a.iter().zip(&b).map(|(x, y)| Want::Ring(x & y)).collect(), move |_, n, st| { let (x, y) = (mine(&sa, st), mine(&sb, st)); Ok(rvs(true, rb::and_vec(&x, &y, &n[0], st)?)) }) }
            30 => { let sa = deal::<T>(g, &[x.clone(), y.clone(), c.clone()], true); let w = (&x & &y) | ((&x ^ (&m - 1u64)) & &c); op(&name("bcmux"), w1(w), move |_, n, st| { let v = mine(&sa, st); Ok(vec![rv(true, rb::cmux(&v[0], &v[1], &v[2], &n[0], st)?)]) }) }
            31 => { let sa = deal::<T>(g, &a, true); op(&name("bor_tree"), w1(a.iter().fold(BigUint::zero(), |s, x| s | x)), move |_, n, st| { let v = mine(&sa, st); Ok(vec![rv(true, rb::or_tree(v, &n[0], st)?)]) }) }
            32 => { let z = if g.r.chance(1, 3) { BigUint::zero() } else { x.clone() }; let sa = deal::<T>(g, &[z.clone()], true); op(&name("bis_zero"), vec![Want::Ring((z.is_zero() as u64).into())], move |_, n, st| { let v = mine(&sa, st); Ok(vec![rv(true, rb::is_zero(&v[0], &n[0], st)?)]) }) }
            33 => { let (sa, w, q) = (deal::<T>(g, &[x.clone()], true), x.clone(), g.r.chance(1, 2)); op(&name("bopen"), vec![Want::Ob(true)], move |_, n, st| { let v = mine(&sa, st); Ok(vec![Val::Ob(big((if q { rb::open(&v[0], &n[0])? } else { ra::open_bit(v[0], &n[0])? }).0) == w)]) }) }
            // conversions
            34..=36 => { let q = g.r.below(4); if q > 1 && !heavy { continue; } let sa = deal::<T>(g, &[x.clone()], false); op(&name(["ra2b", "ra2b_selector", "ra2y2b", "ra2y2b_streaming"][q as usize]), w1(x.clone()), move |_, n, st| { let v = mine(&sa, st)[0]; let n = &n[0]; Ok(vec![rv(true, match q { 0 => rc::a2b(v, n, st)?, 1 => rc::a2b_selector(v, n, st)?, 2 => rc::a2y2b(v, n, st)?, _ => rc::a2y2b_streaming(v, n, st)? })]) }) }
            37 => { let sa = deal::<T>(g, &a, false); op(&name("ra2b_many"), a.iter().cloned().map(Want::Ring).collect(), move |_, n, st| { let v = mine(&sa, st); Ok(rvs(true, rc::a2b_many(&v, &n[0], st)?)) }) }
            38..=40 => { let q = g.r.below(4); if q > 1 && !heavy { continue; } let sa = deal::<T>(g, &[x.clone()], true); op(&name(["rb2a", "rb2a_selector", "rb2y2a", "rb2y2a_streaming"][q as usize]), w1(x.clone()), move |_, n, st| { let v = mine(&sa, st)[0]; let n = &n[0]; Ok(vec![rv(false, match q { 0 => rc::b2a(&v, n, st)?, 1 => rc::b2a_selector(&v, n, st)?, 2 => rc::b2y2a(&v, n, st)?, _ => rc::b2y2a_streaming(&v, n, st)? })]) }) }
            41 => { let sa = deal::<T>(g, &a, true); op(&name("rb2a_many"), a.iter().cloned().map(Want::Ring).collect(), move |_, n, st| { let v = mine(&sa, st); Ok(rvs(false, rc::b2a_many(&v, &n[0], st)?)) }) }
            42 | 43 => {
                // sharings of one bit: the components are bits
                let q = g.r.below(5);
                let sb = deal::<Bit>(g, &bits, true);
                let n_ = if q % 2 == 0 && q < 4 { 1 } else { len };
                let want = if q == 4 { bits.iter().map(|b| Want::F(fu(b))).collect() } else { bits[..n_].iter().cloned().map(Want::Ring).collect() };
                op(&name(["rbit_inject", "rbit_inject_many", "rbit_inject_from_bit", "rbit_inject_from_bits_many", "rbits_to_field"][q as usize]), want, move |_, n, st| {
                    let v = mine(&sb, st);
                    let wide: Vec<Rep3RingShare<T>> = v.iter().map(|x| Rep3RingShare::new(T::from(x.a.0.convert()), T::from(x.b.0.convert()))).collect();
                    let n = &n[0];
                    Ok(match q { 0 => vec![rv(false, rc::bit_inject(&wide[0], n, st)?)], 1 => rvs(false, rc::bit_inject_many(&wide, n, st)?), 2 => vec![rv(false, rc::bit_inject_from_bit::<T, _>(&v[0], n, st)?)], 3 => rvs(false, rc::bit_inject_from_bits_many::<T, _>(&v, n, st)?), _ => vals!(F, rc::bit_inject_from_bits_to_field_many::<Sf<S>, _>(&v, n, st)?) })
                })
            }
            44 | 45 => {
                if !heavy { continue; }
                let q = g.r.below(6);
                let (sa, sb, sv) = (deal::<T>(g, &[x.clone()], false), deal::<T>(g, &[x.clone()], true), deal::<T>(g, &a, true));
                let (want, xor) = match q { 0 | 1 | 3 => (w1(x.clone()), false), 5 => (a.iter().cloned().map(Want::Ring).collect(), true), _ => (w1(x.clone()), true) };
                op(&name(["ra2y+y2a", "ra2y_streaming+y2a_streaming", "ra2y+y2b", "rb2y+y2a", "rb2y+y2b", "rb2y_many+y2b_many"][q as usize]), want, move |_, n, st| {
                    let n = &n[0];
                    let id = st.id;
                    let d = st.rngs.generate_random_garbler_delta(id);
                    let (x, xb, v) = (mine(&sa, st)[0], mine(&sb, st)[0], mine(&sv, st));
                    Ok(rvs(xor, match q {
                        0 => { let y = rc::a2y(x, d, n, st)?; vec![rc::y2a(y, d, n, st)?] }
                        1 => { let y = rc::a2y_streaming(x, d, n, st)?; vec![rc::y2a_streaming(y, d, n, st)?] }
                        2 => { let y = rc::a2y(x, d, n, st)?; vec![rc::y2b(y, n, st)?] }
                        3 => { let y = rc::b2y(&xb, d, n, st)?; vec![rc::y2a(y, d, n, st)?] }
                        4 => { let y = rc::b2y(&xb, d, n, st)?; vec![rc::y2b(y, n, st)?] }
                        _ => { let y = rc::b2y_many(&v, d, n, st)?; rc::y2b_many(y, n, st)? }
                    }))
                })
            }
            // between rings and fields
            46 | 47 => {
                let fb = Sf::<S>::MODULUS_BIT_SIZE as usize;
                let q = g.r.below(5);
                if (q == 1 || q == 3) && !heavy { continue; }
                if q == 4 && k < fb { continue; }
                if q != 4 && k >= fb { continue; }
                let md: BigUint = Sf::<S>::MODULUS.into();
                let n_ = if q == 0 || q == 1 { 1 } else { len };
                let a: Vec<BigUint> = if q == 4 { a.iter().map(|x| x % &md).collect() } else { a.clone() }; // a large ring's value has to fit
                let sa = deal::<T>(g, &a, false);
                op(&name(["ring_to_field_a2b", "ring_to_field_selector", "ring_to_field_a2b_many", "ring_to_field_many", "ring_to_field_big"][q as usize]), a[..n_].iter().map(|x| Want::F(fu(&(x % &md)))).collect(), move |_, n, st| { let v = mine(&sa, st); let n = &n[0]; Ok(vals!(F, match q { 0 => vec![casts::ring_to_field_a2b::<T, Sf<S>, _>(v[0], n, st)?], 1 => vec![casts::ring_to_field_selector::<T, Sf<S>, _>(v[0], n, st)?], 2 => casts::ring_to_field_a2b_many::<T, Sf<S>, _>(&v, n, st)?, 3 => ry::ring_to_field_many::<T, Sf<S>, _>(&v, n, st)?, _ => casts::ring_to_field_a2b_big_ring_many::<T, Sf<S>, _>(&v, n, st)? })) })
            }
            48 | 49 => {
                let q = g.r.below(5);
                if q >= 3 && !heavy { continue; }
                let idx = g.v(p.f.len(), 5);
                let n_ = if q < 2 { 1 } else { idx.len() };
                if k >= Sf::<S>::MODULUS_BIT_SIZE as usize { continue; }
                let want = idx[..n_].iter().map(|&i| Want::Ring(below(fbig(&p.f[i]), k))).collect();
                op(&name(["field_to_ring_a2b", "field_to_ring_selector", "field_to_ring_a2b_many", "field_to_ring_many", "field_to_ring_many"][q as usize]), want, move |s, n, st| { let v: Vec<_> = idx.iter().map(|&i| s.f[i]).collect(); let n = &n[0]; Ok(rvs::<S, T>(false, match q { 0 => vec![casts::field_to_ring_a2b(v[0], n, st)?], 1 => vec![casts::field_to_ring_selector(v[0], n, st)?], 2 => casts::field_to_ring_a2b_many(&v, n, st)?, _ => ry::field_to_ring_many(&v, n, st)? })) })
            }
            // division
            50 | 51 => {
                if !heavy || k > 128 { continue; }
                let q = g.r.below(4);
                let s = g.i(k);
                let one_ = g.r.chance(1, 2);
                let n_ = if one_ { 1 } else { len.min(4) };
                let a: Vec<BigUint> = a[..n_].to_vec();
                let d: Vec<BigUint> = (0..n_).map(|i| { let t = if g.r.chance(1, 2) && k > 2 { &b[i] >> (k / 2) } else { b[i].clone() }; if t.is_zero() { BigUint::one() } else { t } }).collect();
                let (sa, sd) = (deal::<T>(g, &a, false), deal::<T>(g, &d, false));
                let (ea, ed): (Vec<RingElement<T>>, Vec<RingElement<T>>) = (a.iter().map(el::<T>).collect(), d.iter().map(el::<T>).collect());
                let want = a.iter().zip(&d).map(|(x, y)| Want::Ring(if q == 0 { x >> s } else { x / y })).collect();
                op(&name(["ring_div_power_2", "ring_div", "ring_div_by_public", "ring_div_by_shared"][q as usize]), want, move |_, n, st| {
                    let (x, d, n) = (mine(&sa, st), mine(&sd, st), &n[0]);
                    Ok(rvs(false, match (q, one_) { (0, true) => vec![ry::ring_div_power_2(x[0], n, st, s)?], (0, _) => ry::ring_div_power_2_many(&x, n, st, s)?, (1, true) => vec![ry::ring_div(x[0], d[0], n, st)?], (1, _) => ry::ring_div_many(&x, &d, n, st)?, (2, true) => vec![ry::ring_div_by_public(x[0], ed[0], n, st)?], (2, _) => ry::ring_div_by_public_many(&x, &ed, n, st)?, (_, true) => vec![ry::ring_div_by_shared(ea[0], d[0], n, st)?], _ => ry::ring_div_by_shared_many(&ea, &d, n, st)? }))
                })
            }
            52 => {
                if !heavy || k > 128 { continue; }
                let cb = g.r.usize(1, k);
                let nd = g.r.usize(1, (Sf::<S>::MODULUS_BIT_SIZE as usize - 1) / cb).min(12);
                let vals_: Vec<Sf<S>> = (0..len.min(3)).map(|_| fpick(g, nd * cb)).collect();
                let fsh = fdeal(g, &vals_);
                let want = vals_.iter().flat_map(|x| { let x = fbig(x); (0..nd).map(move |i| Want::Ring(below(&x >> (i * cb), cb))).collect::<Vec<_>>() }).collect();
                op(&name("decompose_to_rings"), want, move |_, n, st| { let x = &fsh[nth(st.id)]; Ok(rvs::<S, T>(false, if x.len() == 1 { ry::decompose_field_to_rings(x[0], &n[0], st, nd, cb)? } else { ry::decompose_field_to_rings_many(x, &n[0], st, nd, cb)? })) })
            }
            // one-hot vectors and look-ups
            53 => {
                let kk = g.r.usize(1, k.min(6));
                let i = g.i(1 << kk);
                let rnd = g.r.chance(1, 2);
                let sa = deal::<T>(g, &[i.into()], true);
                if rnd {
                    op(&name("rand_ohv"), vec![Want::Ob(true)], move |_, n, st| { let (r, e) = gadgets::ohv::rand_ohv::<T, _>(kk, &n[0], st)?; let r = big(rb::open(&r, &n[0])?.0); if e.len() != 1 << kk { eyre::bail!("(test) wrong length") } let mut ok = true; for (j, x) in e.iter().enumerate() { let b = rb::open(x, &n[0])?; ok &= b.0.convert() == (r == j.into()); } Ok(vec![Val::Ob(ok)]) })
                } else {
                    let mut sh: Sh<T> = sa;
                    // the components have to be within the number of bits
                    let mk = el::<T>(&(two(kk) - 1u64));
                    sh = Arc::new(sh.iter().map(|x| x.map(|y| Rep3RingShare { a: y.a & mk, b: y.b & mk })).collect());
                    op(&name("ohv"), (0..1usize << kk).map(|j| Want::Ring(((i == j) as u64).into())).collect(), move |_, n, st| { let v = mine(&sh, st)[0]; Ok(rvs(true, gadgets::ohv::ohv(kk, v, &n[0], st)?)) })
                }
            }
            54..=57 => {
                let mx = 1usize << k.min(6);
                let ll = g.r.usize(2, mx);
                let i = g.i(ll);
                let q = g.r.below(5);
                            let kk = ll.next_power_of_two().ilog2() as usize;
                if (q == 1 || q == 2) && (g.nets < 2 || kk + (kk & 1) > k) { continue; }
                let mk = el::<T>(&(two(kk) - 1u64));
                let sa = deal::<T>(g, &[i.into()], true);
                let sa: Sh<T> = Arc::new(sa.iter().map(|x| x.map(|y| Rep3RingShare { a: y.a & mk, b: y.b & mk })).collect());
                let lut: Vec<Sf<S>> = (0..ll).map(|_| konst(g.r.next())).collect();
                let lut2: Vec<Sf<S>> = (0..ll).map(|_| konst(g.r.next())).collect();
                let val: Sf<S> = konst(g.r.next());
                match q {
                    0 => op(&name("read_public_lut"), vec![Want::B(lut[i].to_uint())], move |_, n, st| { let v = mine(&sa, st)[0]; Ok(vec![Val::B(gadgets::lut_field::read_public_lut(&lut, v, &n[0], st)?)]) }),
                    1 => op(&name("read_public_lut_low_depth"), vec![Want::Xor(lut[i].to_uint())], move |_, n, st| { let v = mine(&sa, st)[0]; let mut s1 = st.fork(0)?; Ok(vec![Val::Xor(gadgets::lut_field::read_public_lut_low_depth(&lut, v, &n[0], &n[1], st, &mut s1)?)]) }),
                    2 => { let ls = vec![lut, lut2]; op(&name("read_multiple_public_lut_low_depth"), ls.iter().map(|l| Want::Xor(l[i].to_uint())).collect(), move |_, n, st| { let v = mine(&sa, st)[0]; let mut s1 = st.fork(0)?; Ok(vals!(Xor, gadgets::lut_field::read_multiple_public_lut_low_depth(&ls, v, &n[0], &n[1], st, &mut s1)?)) }) }
                    3 => { let fsh = fdeal(g, &lut); op(&name("read_shared_lut"), vec![Want::Add(lut[i])], move |_, n, st| { let v = mine(&sa, st)[0]; Ok(vec![Val::Add(gadgets::lut_field::read_shared_lut(&fsh[nth(st.id)], v, &n[0], st)?)]) }) }
                    _ => { let mut all = lut.clone(); all.push(val); let fsh = fdeal(g, &all); let want = (0..ll).map(|j| Want::F(if j == i { val } else { lut[j] })).collect(); op(&name("write_lut"), want, move |_, n, st| { let v = mine(&sa, st)[0]; let s = &fsh[nth(st.id)]; let mut l = s[..ll].to_vec(); gadgets::lut_field::write_lut(&s[ll], &mut l, v, &n[0], st)?; Ok(vals!(F, l)) }) }
                }
            }
            _ => {
                let mx = 1usize << k.min(4);
                let ll = g.r.usize(2, mx);
                let i = g.i(ll);
                let q = g.r.below(4);
                let kk = ll.next_power_of_two().ilog2() as usize;
                let mk = el::<T>(&(two(kk) - 1u64));
                let sa = deal::<T>(g, &[i.into()], true);
                let sa: Sh<T> = Arc::new(sa.iter().map(|x| x.map(|y| Rep3RingShare { a: y.a & mk, b: y.b & mk })).collect());
                let lut: Vec<Pj<S>> = (0..ll + 1).map(|_| konst_p(g.r.next())).collect();
                let mut d = rng(g);
                let psh: Arc<Vec<[Rep3PointShare<Pj<S>>; 3]>> = Arc::new(lut.iter().map(|x| rep3::share_curve_point(*x, &mut d)).collect());
                let l2 = lut[..ll].to_vec();
                match q {
                    0 => op(&name("read_public_lut_curve"), vec![Want::P(lut[i])], move |_, n, st| { let v = mine(&sa, st)[0]; Ok(vec![Val::P(gadgets::lut_curve::read_public_lut(&l2, v, &n[0], st)?)]) }),
                    1 => { let ls = vec![l2.clone(), l2.iter().rev().cloned().collect()]; op(&name("read_public_luts_curve"), vec![Want::P(lut[i]), Want::P(lut[ll - 1 - i])], move |_, n, st| { let v = mine(&sa, st)[0]; Ok(vals!(P, gadgets::lut_curve::read_public_luts(&ls, v, &n[0], st)?)) }) }
                    2 => op(&name("read_shared_lut_curve"), vec![Want::AddP(lut[i])], move |_, n, st| { let v = mine(&sa, st)[0]; let l: Vec<_> = psh[..ll].iter().map(|x| x[nth(st.id)].clone()).collect(); Ok(vec![Val::AddP(gadgets::lut_curve::read_shared_lut(&l, v, &n[0], st)?)]) }),
                    _ => op(&name("write_lut_curve"), (0..ll).map(|j| Want::P(if j == i { lut[ll] } else { lut[j] })).collect(), move |_, n, st| { let v = mine(&sa, st)[0]; let p = nth(st.id); let mut l: Vec<_> = psh[..ll].iter().map(|x| x[p].clone()).collect(); gadgets::lut_curve::write_lut(&psh[ll][p], &mut l, v, &n[0], st)?; Ok(vals!(P, l)) }),
                }
            }
        };
    }
}
fn cast_op<S: Curve, T: IntRing2k + AsPrimitive<V>, V: IntRing2k>(g: &mut Gen) -> Op<S> where Standard: Distribution<T> + Distribution<V> {
    let (k, l) = (T::K, V::K);
    let len = g.r.usize(1, g.vmax.clamp(1, 5));
    let a: Vec<BigUint> = (0..len).map(|_| pick(g.r, k)).collect();
    let sa = deal::<T>(g, &a, false);
    let q = loop { let q = g.r.below(6); if (q == 0 && l > k) || (q == 1 && l <= k) || (q == 5 && l <= k) || (q >= 3 && !g.heavy) { continue; } break q; };
    let w: Vec<Want<S>> = a.iter().map(|x| Want::Ring(below(x.clone(), l))).collect();
    let w = if q == 5 { w } else { w[..1].to_vec() };
    op(&format!("{}<{k},{l}>", ["downcast", "upcast_a2b", "cast_a2b", "cast_gc", "ring_cast_selector", "upcast_many"][q as usize]), w, move |_, n, st| { let v = mine(&sa, st); let n = &n[0]; Ok(rvs::<S, V>(false, match q { 0 => vec![casts::downcast(v[0])], 1 => vec![casts::upcast_a2b(v[0], n, st)?], 2 => vec![casts::cast_a2b(v[0], n, st)?], 3 => vec![casts::cast_gc(v[0], n, st)?], 4 => vec![casts::ring_cast_selector(v[0], n, st)?], _ => ry::upcast_many(&v, n, st)? })) })
}

// ---- gadgets over field elements -----------------------------------------------------------------------
fn field_op<S: Curve>(g: &mut Gen, p: &Plain<S>) -> Op<S> {
    let fb = Sf::<S>::MODULUS_BIT_SIZE as usize;
    let md: BigUint = Sf::<S>::MODULUS.into();
    let len = g.r.usize(1, g.vmax.clamp(1, 4));
    loop {
        let one_ = g.r.chance(1, 2);
        let n_ = if one_ { 1 } else { len };
        return match g.r.below(22) {
            0..=2 => {
                let total = g.r.usize(1, fb - 1);
                let chunk = g.r.usize(1, total).max(total.div_ceil(40));
                let other = g.r.chance(1, 3);
                let v: Vec<Sf<S>> = (0..n_).map(|_| fpick(g, total)).collect();
                let fsh = fdeal(g, &v);
                let nd = total.div_ceil(chunk);
                let parts = v.iter().flat_map(|x| { let x = below(fbig(x), total); (0..nd).map(move |i| below(&x >> (i * chunk), chunk)).collect::<Vec<_>>() });
                if other {
                    if chunk >= Bf::<S>::MODULUS_BIT_SIZE as usize { continue; }
                    op("decompose_to_other_field", parts.map(|x| Want::Fb(fu(&x))).collect(), move |_, n, st| { let x = &fsh[nth(st.id)]; Ok(vals!(Fb, if one_ { yao::decompose_arithmetic_to_other_field::<Sf<S>, Bf<S>, _>(x[0], &n[0], st, total, chunk)? } else { yao::decompose_arithmetic_to_other_field_many::<Sf<S>, Bf<S>, _>(x, &n[0], st, total, chunk)? })) })
                } else {
                    op("decompose", parts.map(|x| Want::F(fu(&x))).collect(), move |_, n, st| { let x = &fsh[nth(st.id)]; Ok(vals!(F, if one_ { yao::decompose_arithmetic(x[0], &n[0], st, total, chunk)? } else { yao::decompose_arithmetic_many(x, &n[0], st, total, chunk)? })) })
                }
            }
            3 | 4 => {
                let bs = g.r.usize(2, fb);
                let mid = g.r.usize(1, bs - 1);
                let lo = g.r.usize(0, mid - 1);
                let v: Vec<Sf<S>> = (0..n_).map(|_| fpick(g, bs)).collect();
                let fsh = fdeal(g, &v);
                let want = v.iter().flat_map(|x| { let x = below(fbig(x), bs); [Want::F(fu(&below(&x >> lo, mid - lo))), Want::F(fu(&(&x >> mid)))] }).collect();
                op("slice", want, move |_, n, st| { let x = &fsh[nth(st.id)]; Ok(vals!(F, if one_ { yao::slice_arithmetic(x[0], &n[0], st, lo, mid, bs)? } else { yao::slice_arithmetic_many(x, &n[0], st, lo, mid, bs)? })) })
            }
            5 | 6 => { let x: Sf<S> = fpick(g, fb); let fsh = fdeal(g, &[x]); let b = g.r.usize(1, fb - 1); op("mod_power_2", vec![Want::F(fu(&below(fbig(&x), b)))], move |_, n, st| Ok(vec![Val::F(yao::field_mod_power_2(fsh[nth(st.id)][0], &n[0], st, b)?)])) }
            7..=10 => {
                let q = g.r.below(4);
                let s = g.r.usize(0, fb - 1);
                let v: Vec<Sf<S>> = (0..n_).map(|_| fpick(g, fb)).collect();
                let d: Vec<Sf<S>> = (0..n_).map(|_| { let b = *g.r.pick(&[fb, fb / 2, 8, 64]); let x: Sf<S> = fpick(g, b); if x.is_zero() { Sf::<S>::one() } else { x } }).collect();
                let (fsh, dsh) = (fdeal(g, &v), fdeal(g, &d));
                let want = v.iter().zip(&d).map(|(x, y)| { let x = fbig(x); Want::F(fu(&(if q == 0 { x >> s } else { x / fbig(y) } % &md))) }).collect();
                op(["int_div_power_2", "int_div", "int_div_by_public", "int_div_by_shared"][q as usize], want, move |_, n, st| {
                    let (x, y, n) = (&fsh[nth(st.id)], &dsh[nth(st.id)], &n[0]);
                    Ok(vals!(F, match (q, one_) { (0, true) => vec![yao::field_int_div_power_2(x[0], n, st, s)?], (0, _) => yao::field_int_div_power_2_many(x, n, st, s)?, (1, true) => vec![yao::field_int_div(x[0], y[0], n, st)?], (1, _) => yao::field_int_div_many(x, y, n, st)?, (2, true) => vec![yao::field_int_div_by_public(x[0], d[0], n, st)?], (2, _) => yao::field_int_div_by_public_many(x, &d, n, st)?, (_, true) => vec![yao::field_int_div_by_shared(v[0], y[0], n, st)?], _ => yao::field_int_div_by_shared_many(&v, y, n, st)? }))
                })
            }
            11 | 12 => {
                let base = g.r.usize(1, 12);
                let total = g.r.usize(1, 100);
                let rot = g.i(64);
                let and = g.r.chance(1, 2);
                let nd = total.div_ceil(base);
                let (v, w): (Vec<Sf<S>>, Vec<Sf<S>>) = ((0..n_).map(|_| fpick(g, total)).collect(), (0..n_).map(|_| fpick(g, total)).collect());
                let (fsh, gsh) = (fdeal(g, &v), fdeal(g, &w));
                let mut want = vec![];
                for (x, y) in v.iter().zip(&w) {
                    let (x, y) = (fbig(x), fbig(y));
                    let cut = |x: &BigUint, i: usize| -> u64 { below(x >> (i * base), base).try_into().unwrap() };
                    for i in 0..nd { want.push(Want::F(cut(&x, i).into())); }
                    for i in 0..nd { want.push(Want::F(cut(&y, i).into())); }
                    for i in 0..nd { let t = if and { cut(&x, i) & cut(&y, i) } else { cut(&x, i) ^ cut(&y, i) }; want.push(Want::F(t.rotate_right(rot as u32).into())); }
                }
                op(if and { "slice_and" } else { "slice_xor" }, want, move |_, n, st| { let (x, y, n) = (&fsh[nth(st.id)], &gsh[nth(st.id)], &n[0]); Ok(vals!(F, match (and, one_) { (true, true) => yao::slice_and(x[0], y[0], n, st, base, rot, total)?, (true, _) => yao::slice_and_many(x, y, n, st, base, rot, total)?, (_, true) => yao::slice_xor(x[0], y[0], n, st, base, rot, total)?, _ => yao::slice_xor_many(x, y, n, st, base, rot, total)? })) })
            }
            13..=15 => {
                if g.nets < 2 { continue; }
                let bits = g.r.usize(1, 12);
                let (a, b) = (g.r.usize(1, 6), g.i(4));
                let by = g.r.chance(1, 2);
                let v: Vec<Sf<S>> = (0..a + b).map(|_| if g.r.chance(1, 4) { konst(g.r.next()) } else { fpick(g, bits) }).collect();
                let key = |x: &Sf<S>| below(fbig(x), bits);
                if !by {
                    let fsh = fdeal(g, &v[..a]);
                    let mut w = v.clone();
                    w.sort_by_key(key); // stable
                    let public = v[a..].to_vec();
                    op("radix_sort", w.into_iter().map(Want::F).collect(), move |_, n, st| { let mut s1 = st.fork(0)?; Ok(vals!(F, gadgets::sort::radix_sort_fields(fsh[nth(st.id)].clone(), public.clone(), bits, &n[0], &n[1], st, &mut s1)?)) })
                } else {
                    let order: Vec<bool> = { let mut o: Vec<bool> = (0..a + b).map(|i| i < a).collect(); g.r.shuffle(&mut o); o };
                    let (mut i, mut j) = (0, a);
                    let keys: Vec<Sf<S>> = order.iter().map(|&s| if s { i += 1; v[i - 1] } else { j += 1; v[j - 1] }).collect();
                    let mut perm: Vec<usize> = (0..a + b).collect();
                    perm.sort_by_key(|&i| key(&keys[i]));
                    let m = g.r.usize(1, 3);
                    let cols: Vec<Vec<Sf<S>>> = (0..m).map(|_| (0..a + b).map(|_| konst(g.r.next())).collect()).collect();
                    let fsh = fdeal(g, &v[..a]);
                    let csh: Vec<_> = cols.iter().map(|c| fdeal(g, c)).collect();
                    let public = v[a..].to_vec();
                    let want = cols.iter().flat_map(|c| perm.iter().map(|&i| Want::F(c[i])).collect::<Vec<_>>()).collect();
                    op("radix_sort_by", want, move |_, n, st| { let mut s1 = st.fork(0)?; let p = nth(st.id); let r = gadgets::sort::radix_sort_fields_vec_by(&fsh[p], &public, &order, csh.iter().map(|c| c[p].as_slice()).collect(), bits, &n[0], &n[1], st, &mut s1)?; Ok(vals!(F, r.into_iter().flatten().collect::<Vec<_>>())) })
                }
            }
            16..=18 => {
                // the bridge to Shamir sharings of degree one
                let q = g.r.below(5);
                let idx = g.v(p.f.len(), 5);
                let jdx = g.w(p.f.len(), idx.len());
                let pi = g.i(p.p.len());
                let want = match q { 0 => vec![Want::Sh(p.f[idx[0]])], 1 => idx.iter().map(|&i| Want::Sh(p.f[i])).collect(), 2 => vec![Want::ShP(p.p[pi])], 3 => vec![Want::Sh(p.f[idx[0]] * p.f[jdx[0]])], _ => idx.iter().zip(&jdx).map(|(&i, &j)| Want::Sh(p.f[i] * p.f[j])).collect() };
                op(["bridge", "bridge_vec", "bridge_point", "bridge_additive", "bridge_additive_vec"][q as usize], want, move |s, n, st| {
                    let v: Vec<_> = idx.iter().map(|&i| s.f[i]).collect();
                    let w: Vec<_> = jdx.iter().map(|&i| s.f[i]).collect();
                    bridge(q, v, w, s.p[pi].clone(), &n[0], st)
                })
            }
            _ => base_op(g, p),
        };
    }
}
fn bridge<S: Curve>(q: u64, v: Vec<Fs<S>>, w: Vec<Fs<S>>, p: Ps<S>, n: &Tap, st: &mut Rep3State) -> eyre::Result<Vec<Val<S>>> {
    use mpc_core::protocols::shamir::{ShamirPreprocessing, ShamirState};
    let id = st.id;
    Ok(match q {
        0 => vec![Val::Sh(ShamirState::translate_primefield_repshare(v[0], id))],
        1 => vals!(Sh, ShamirState::translate_primefield_repshare_vec(v, id)),
        2 => vec![Val::ShP(ShamirState::<Sf<S>>::translate_point_repshare(p, id))],
        _ => {
            let l = ar::local_mul_vec(&v, &w, st);
            let mut sh: ShamirState<Sf<S>> = ShamirPreprocessing::new(3, 1, if l.len() % 2 == 0 { l.len() } else { 0 }, n)?.into();
            if q == 3 { vec![Val::Sh(sh.translate_primefield_addshare(l[0], n)?)] } else { vals!(Sh, sh.translate_primefield_addshare_vec(l, n)?) }
        }
    })
}
fn gadget_op<S: Curve>(g: &mut Gen, p: &Plain<S>) -> Op<S> {
    match g.r.below(20) {
        0 => ring_op::<S, Bit>(g, p), 1 | 2 => ring_op::<S, u8>(g, p), 3 => ring_op::<S, u16>(g, p), 4 | 5 => ring_op::<S, u32>(g, p), 6 | 7 => ring_op::<S, u64>(g, p), 8 | 9 => ring_op::<S, u128>(g, p), 10 => ring_op::<S, mpc_core::uint::U512>(g, p),
        11 => match g.r.below(8) { 0 => cast_op::<S, u8, u16>(g), 1 => cast_op::<S, u8, u64>(g), 2 => cast_op::<S, u16, u128>(g), 3 => cast_op::<S, u64, u8>(g), 4 => cast_op::<S, u128, u32>(g), 5 => cast_op::<S, u32, u32>(g), 6 => cast_op::<S, u32, u64>(g), _ => cast_op::<S, u64, u128>(g) },
        12 => base_op(g, p),
        _ => field_op(g, p),
    }
}
fn bn_op(g: &mut Gen, p: &Plain<ark_bn254::g1::Config>) -> Op<ark_bn254::g1::Config> {
    if !g.r.chance(1, 6) { return gadget_op(g, p); }
    match g.r.below(4) { 0 => pos_op::<2>(g, &[]), 1 => pos_op::<3>(g, &[(true, 2), (false, 3)]), 2 => pos_op::<4>(g, &[(true, 2), (true, 3), (false, 2), (false, 4)]), _ => pos_op::<16>(g, &[]) }
}
fn pos_op<const T: usize>(g: &mut Gen, arities: &[(bool, usize)]) -> Op<ark_bn254::g1::Config> {
    type F = ark_bn254::Fr;
    type W = Want<ark_bn254::g1::Config>;
    let hash = Arc::new(Poseidon2::<F, T, 5>::default());
    let m = g.r.usize(1, if T == 16 { 2 } else { 4 });
    let v: Vec<F> = (0..T * m).map(|_| konst(g.r.next())).collect();
    let fsh = fdeal(g, &v);
    let outs: Vec<F> = v.chunks(T).flat_map(|x| hash.permutation(x.try_into().unwrap())).collect();
    let arr = |x: &[Rep3PrimeFieldShare<F>]| -> [Rep3PrimeFieldShare<F>; T] { x.try_into().ok().unwrap() };
    let q = g.r.below(6);
    if q >= 4 && !arities.is_empty() {
        let (sponge, arity) = *g.r.pick(arities);
        let mut l = 1;
        while arity.pow(l + 1) <= 16 { l += 1; }
        let leaves: Vec<F> = (0..arity.pow(g.r.usize(1, l as usize) as u32)).map(|_| konst(g.r.next())).collect();
        let fsh = fdeal(g, &leaves);
        let root = match (sponge, arity) { (true, 2) => hash.merkle_tree_sponge::<2>(leaves), (true, _) => hash.merkle_tree_sponge::<3>(leaves), (_, 2) => hash.merkle_tree_compression::<2>(leaves), (_, 3) => hash.merkle_tree_compression::<3>(leaves), _ => hash.merkle_tree_compression::<4>(leaves) };
        return op(&format!("merkle<{T},{arity}>"), vec![W::F(root)], move |_, n, st| { let l = fsh[nth(st.id)].clone(); let n = &n[0]; Ok(vec![Val::F(match (sponge, arity) { (true, 2) => hash.merkle_tree_sponge_rep3::<2, _>(l, n, st)?, (true, _) => hash.merkle_tree_sponge_rep3::<3, _>(l, n, st)?, (_, 2) => hash.merkle_tree_compression_rep3::<2, _>(l, n, st)?, (_, 3) => hash.merkle_tree_compression_rep3::<3, _>(l, n, st)?, _ => hash.merkle_tree_compression_rep3::<4, _>(l, n, st)? })]) });
    }
    let in_place = g.r.chance(1, 2);
    let additive = g.r.chance(1, 3);
    let spare = g.r.below(2) as usize;
    let used: usize = if q == 0 { 1 } else { m };
    op(&format!("poseidon2<{T}>{}", ["", " precomputed", " packed", " mixed", " precomputed", " packed"][q as usize]), outs[..used * T].iter().map(|x| W::F(*x)).collect(), move |_, n, st| {
        let x = &fsh[nth(st.id)];
        let n = &n[0];
        let mut r: Vec<Rep3PrimeFieldShare<F>> = vec![];
        match q {
            0 => { if in_place { let mut a = arr(&x[..T]); hash.rep3_permutation_in_place(&mut a, n, st)?; r.extend(a) } else { r.extend(hash.rep3_permutation(&arr(&x[..T]), n, st)?) } }
            1 | 4 if additive => { let mut pc = hash.precompute_rep3_additive(m + spare, n, st)?; for c in x.chunks(T) { r.extend(hash.rep3_permutation_additive_with_precomputation(&arr(c), &mut pc, n, st)?); } }
            1 | 4 => { let mut pc = hash.precompute_rep3(m + spare, n, st)?; for c in x.chunks(T) { if in_place { let mut a = arr(c); hash.rep3_permutation_in_place_with_precomputation(&mut a, &mut pc, n)?; r.extend(a) } else { r.extend(hash.rep3_permutation_with_precomputation(&arr(c), &mut pc, n)?) } } }
            2 | 5 => { let mut pc = hash.precompute_rep3(m + spare, n, st)?; if in_place { let mut a = x.to_vec(); hash.rep3_permutation_in_place_with_precomputation_packed(&mut a, &mut pc, n)?; r = a } else { r = hash.rep3_permutation_with_precomputation_packed(x, &mut pc, n)? } }
            _ => { let mut pc = hash.precompute_rep3(m + spare, n, st)?; r.extend(hash.rep3_permutation_with_precomputation(&arr(&x[..T]), &mut pc, n)?); if m > 1 { r.extend(hash.rep3_permutation_with_precomputation_packed(&x[T..], &mut pc, n)?) } }
        }
        Ok(vals!(F, r))
    })
}
