//! Replicated three-party protocols: random programs on shared values compared with the plain computation.
use super::mpc::*;
use super::*;
use crate::os::SEC;
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{AdditiveGroup, Field, One, PrimeField, UniformRand, Zero};
use mpc_core::protocols::rep3::{self, arithmetic as ar, binary as bi, conversion as cv, conversion::A2BType, id::PartyID, pointshare as pt, poly, Rep3PointShare, Rep3PrimeFieldShare, Rep3State, Rep3UintShare};
use mpc_core::uint::{FieldUint, UintBackend};
use mpc_core::MpcState;
use rand::SeedableRng;
use std::sync::Arc;
use tp::*;

pub const REAL: &[&str] = &["mpc-core: protocols/rep3, protocols/rep3_ring, bridges, gadgets", "mpc-net: local and tcp transports, join", "rayon, crossbeam-channel, std threads and locks"];
pub const STUB: &[&str] = &["kernel: threads' scheduling, futex, clocks, TCP (virtual)", "entropy (seeded)", "a thin wrapper around each network records, delays or damages messages", "fancy-garbling and scuttlebutt (not available offline): wire labels, blocks and a mixing function in place of AES hashing; garbling and evaluation are the repository's"];
pub const SIMPLE: &[(&str, i64)] = &[("tp", 0), ("ops", 1), ("curve", 0), ("jitter_us", 0), ("workers", 1), ("vmax", 1), ("yao", 0), ("lat_min_us", 10), ("lat_max_us", 10), ("seg_max", 65536)];
pub const CAP: u64 = 3000 * SEC;

pub fn scenarios() -> Vec<Scn> {
    let s = |name, props, weight, make, run| Scn { name, props, weight, make, run, real: REAL, stub: STUB, simple: SIMPLE };
    vec![
        s("rep3", &["R01"], 1, make as fn(&mut Rng, &str, u64, &mut Cfg), run as fn(&Cfg)),
        s("rep3-faults", &["R04"], 1, make_faults, run),
    ]
}

pub type Sf<S> = <S as ark_ec::CurveConfig>::ScalarField;
pub type Bf<S> = <S as ark_ec::CurveConfig>::BaseField;
pub type U<S> = <Sf<S> as FieldUint>::Uint;
pub type Fs<S> = Rep3PrimeFieldShare<Sf<S>>;
pub type Bs<S> = Rep3UintShare<Sf<S>>;
pub type Ps<S> = Rep3PointShare<Projective<S>>;
pub type Pj<S> = Projective<S>;

/// What an operation gives one party.
pub enum Val<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>> {
    F(Fs<S>), Bit(Bs<S>), B(Bs<S>), P(Ps<S>),
    /// share in the base field; share that is only additive; pair of replicated bits
    Fb(Rep3PrimeFieldShare<Bf<S>>), Add(Sf<S>), AddP(Pj<S>), Xor(U<S>), Rb(bool, bool),
    Of(Sf<S>), Ou(U<S>), Op(Pj<S>), Ob(bool),
    /// share in a ring or of a number of bits, as bytes
    Ring { bits: usize, xor: bool, a: num_bigint::BigUint, b: num_bigint::BigUint },
    Sh(mpc_core::protocols::shamir::ShamirPrimeFieldShare<Sf<S>>), ShP(mpc_core::protocols::shamir::ShamirPointShare<Pj<S>>),
}
/// What it must be.
pub enum Want<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>> { F(Sf<S>), AnyF, Root(Sf<S>), Bit(bool), B(U<S>), P(Pj<S>), Fb(Bf<S>), Add(Sf<S>), AddP(Pj<S>), Xor(U<S>), Rb(bool), Of(Sf<S>), Ou(U<S>), Op(Pj<S>), Ob(bool), Ring(num_bigint::BigUint), Sh(Sf<S>), ShP(Pj<S>) }
impl<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>> Clone for Want<S> {
    fn clone(&self) -> Self {
        use Want::*;
        match self { F(x) => F(*x), AnyF => AnyF, Root(x) => Root(*x), Bit(x) => Bit(*x), B(x) => B(*x), P(x) => P(*x), Fb(x) => Fb(*x), Add(x) => Add(*x), AddP(x) => AddP(*x), Xor(x) => Xor(*x), Rb(x) => Rb(*x), Of(x) => Of(*x), Ou(x) => Ou(*x), Op(x) => Op(*x), Ob(x) => Ob(*x), Ring(x) => Ring(x.clone()), Sh(x) => Sh(*x), ShP(x) => ShP(*x) }
    }
}
pub struct Shares<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>> { pub f: Vec<Fs<S>>, pub bit: Vec<Bs<S>>, pub b: Vec<Bs<S>>, pub p: Vec<Ps<S>> }
impl<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>> Clone for Shares<S> { fn clone(&self) -> Self { Shares { f: self.f.clone(), bit: self.bit.clone(), b: self.b.clone(), p: self.p.clone() } } }
pub struct Plain<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>> { pub f: Vec<Sf<S>>, pub bit: Vec<bool>, pub b: Vec<U<S>>, pub p: Vec<Pj<S>> }
impl<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>> Clone for Plain<S> { fn clone(&self) -> Self { Plain { f: self.f.clone(), bit: self.bit.clone(), b: self.b.clone(), p: self.p.clone() } } }
impl<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>> Plain<S> {
    pub fn push(&mut self, w: &[Want<S>]) { for w in w { match w { Want::F(x) => self.f.push(*x), Want::Bit(x) => self.bit.push(*x), Want::B(x) => self.b.push(*x), Want::P(x) => self.p.push(*x), _ => {} } } }
}
impl<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>> Shares<S> {
    pub fn push(&mut self, w: &[Want<S>], v: &[Val<S>]) {
        for (w, v) in w.iter().zip(v) { match (w, v) { (Want::F(_), Val::F(x)) => self.f.push(*x), (Want::Bit(_), Val::Bit(x)) => self.bit.push(*x), (Want::B(_), Val::B(x)) => self.b.push(*x), (Want::P(_), Val::P(x)) => self.p.push(x.clone()), _ => {} } }
    }
}
pub type Ex<S> = Arc<dyn Fn(&Shares<S>, &[Tap], &mut Rep3State) -> eyre::Result<Vec<Val<S>>> + Send + Sync>;
impl<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>> Clone for Op<S> { fn clone(&self) -> Self { Op { name: self.name.clone(), what: self.what.clone(), want: self.want.clone(), err: self.err, ex: self.ex.clone() } } }
pub struct Op<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>> { pub name: String, pub what: String, pub want: Vec<Want<S>>, pub err: bool, pub ex: Ex<S> }
pub fn op<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>>(name: &str, want: Vec<Want<S>>, ex: impl Fn(&Shares<S>, &[Tap], &mut Rep3State) -> eyre::Result<Vec<Val<S>>> + Send + Sync + 'static) -> Op<S> { Op { name: name.into(), what: name.into(), want, err: false, ex: Arc::new(ex) } }
pub fn fails<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>>(mut o: Op<S>) -> Op<S> { o.err = true; o.want = vec![]; o }
pub fn bz<X: UintBackend>(x: X) -> num_bigint::BigUint { x.into() }
pub fn ub<X: UintBackend>(x: &num_bigint::BigUint) -> X { X::from_le_bytes(&{ let mut v = x.to_bytes_le(); v.resize(X::BYTES, 0); v }) }
pub fn fu<F: PrimeField>(x: &num_bigint::BigUint) -> F { F::from_le_bytes_mod_order(&x.to_bytes_le()) }
pub fn nth(p: PartyID) -> usize { p.into() }

/// Choices of a program's operations.
pub struct Gen<'a> { pub r: &'a mut Rng, pub vmax: usize, pub nets: usize, pub heavy: bool, pub depth: usize }
impl Gen<'_> {
    pub fn i(&mut self, n: usize) -> usize { self.r.below(n as u64) as usize }
    pub fn v(&mut self, n: usize, max: usize) -> Vec<usize> { let l = self.r.usize(1, self.vmax.min(max).max(1)); (0..l).map(|_| self.r.below(n as u64) as usize).collect() }
    pub fn w(&mut self, n: usize, len: usize) -> Vec<usize> { (0..len).map(|_| self.r.below(n as u64) as usize).collect() }
}
fn small<F: FieldUint>(r: &mut Rng) -> F { match r.below(5) { 0 => F::zero(), 1 => F::one(), 2 => -F::one(), 3 => F::from(r.below(300)), _ => konst(r.next()) } }

macro_rules! vals { ($k:ident, $e:expr) => { $e.into_iter().map(Val::$k).collect::<Vec<_>>() } }
fn bit<F: FieldUint>(b: bool) -> F::Uint { F::Uint::from(b as u64) }

/// One operation of the base set (R01).
pub fn base_op<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>>(g: &mut Gen, p: &Plain<S>) -> Op<S> {
    let (nf, nb, nz, np) = (p.f.len(), p.bit.len(), p.b.len(), p.p.len());
    let m = <Sf<S> as FieldUint>::modulus_uint();
    let bits = Sf::<S>::MODULUS_BIT_SIZE as usize;
    loop {
        let k = g.r.below(100);
        let heavy = g.heavy || g.r.chance(1, 3);
        let (i, j, l) = (g.i(nf), g.i(nf), g.i(nf));
        let (x, y, z) = (p.f[i], p.f[j], p.f[l]);
        let c: Sf<S> = small(g.r);
        return match k {
            0..=4 => {
                let q = g.r.below(16);
                let w = match q { 0 | 1 | 13 => x + y, 2 | 3 | 14 => x - y, 4 | 5 => x + c, 6 => x - c, 7 => c - x, 8 | 9 => x * c, 10 => -x, 11 => x + y * c, 12 => x.double(), _ => (x + y - x) * c };
                op(&format!("lin{q}"), vec![Want::F(w)], move |s, _, st| {
                    let (a, b, id) = (s.f[i], s.f[j], st.id);
                    let mut t = a;
                    Ok(vec![Val::F(match q {
                        0 => ar::add(a, b), 1 => { ar::add_assign(&mut t, b); t } 2 => ar::sub(a, b), 3 => { ar::sub_assign(&mut t, b); t } 4 => ar::add_public(a, c, id), 5 => { ar::add_assign_public(&mut t, c, id); t }
                        6 => ar::sub_shared_by_public(a, c, id), 7 => ar::sub_public_by_shared(c, a, id), 8 => ar::mul_public(a, c), 9 => { ar::mul_assign_public(&mut t, c); t } 10 => ar::neg(a), 11 => ar::add_mul_public(a, b, c),
                        12 => { if g_parity(c) { t.double_in_place(); t } else { a.double() } } 13 => a + b, 14 => a - b, _ => { t += b; t -= a; t *= c; t }
                    })])
                })
            }
            5 => { let (a, b) = (g.v(nf, 20), g.r.chance(1, 2)); let d = g.w(nf, a.len()); op("lin_vec", a.iter().zip(&d).map(|(&i, &j)| Want::F(if b { p.f[i] + p.f[j] } else { p.f[i] - p.f[j] })).collect(), move |s, _, _| { let mut x: Vec<_> = a.iter().map(|&i| s.f[i]).collect(); let y: Vec<_> = d.iter().map(|&i| s.f[i]).collect(); if b { ar::add_vec_assign(&mut x, &y) } else { ar::sub_vec_assign(&mut x, &y) } Ok(vals!(F, x)) }) }
            6 => { let q = g.r.below(4); let c2: Sf<S> = small(g.r); let b = bit_of(c); op("promote", vec![Want::F(c)], move |_, _, st| Ok(vec![Val::F(match q { 0 => ar::promote_to_trivial_share(st.id, c), 1 => Rep3PrimeFieldShare::promote_from_trivial(&c, st.id), 2 => Rep3PrimeFieldShare::promote_from_trivial_with_scalar(&c, &c2, st.id), _ => { let _ = b; ar::add_public(Rep3PrimeFieldShare::default(), c, st.id) } })])) }
            7 => { let len = if g.r.chance(1, 3) { g.r.usize(17, 80) } else { g.r.usize(1, 5) }; let v = g.w(nf, len); let mut acc = Sf::<S>::zero(); for i in v.iter().rev() { acc = acc * c + p.f[*i]; } op("eval_poly", vec![Want::F(acc)], move |s, _, _| { let x: Vec<_> = v.iter().map(|&i| s.f[i]).collect(); Ok(vec![Val::F(poly::eval_poly(&x, c))]) }) }
            8..=11 => op("mul", vec![Want::F(x * y)], move |s, n, st| Ok(vec![Val::F(ar::mul(s.f[i], s.f[j], &n[0], st)?)])),
            12 | 13 => { let a = g.v(nf, 40); let b = g.w(nf, a.len()); let q = g.r.chance(1, 2); op(if q { "mul_vec" } else { "local_mul_vec" }, a.iter().zip(&b).map(|(&i, &j)| Want::F(p.f[i] * p.f[j])).collect(), move |s, n, st| { let (x, y): (Vec<_>, Vec<_>) = (a.iter().map(|&i| s.f[i]).collect(), b.iter().map(|&i| s.f[i]).collect()); Ok(vals!(F, if q { ar::mul_vec(&x, &y, &n[0], st)? } else { let z = ar::local_mul_vec(&x, &y, st); ar::reshare_vec(z, &n[0])? })) }) }
            14 => {
                if g.depth > 0 || !heavy { continue; }
                let len = g.r.usize(1030, 2400);
                let mut acc = Sf::<S>::zero();
                for q in 0..len { acc += (x + Sf::<S>::from(q as u64)) * y * Sf::<S>::from(3 * q as u64 + 7); }
                op("big_mul", vec![Want::F(acc)], move |s, n, st| { let a: Vec<_> = (0..len).map(|q| ar::add_public(s.f[i], Sf::<S>::from(q as u64), st.id)).collect(); let b = vec![s.f[j]; len]; let v = ar::reshare_vec(ar::local_mul_vec(&a, &b, st), &n[0])?; if v.len() != len { eyre::bail!("(test) wrong length") } let mut t = Rep3PrimeFieldShare::zero_share(); for (q, v) in v.into_iter().enumerate() { ar::add_assign(&mut t, ar::mul_public(v, Sf::<S>::from(3 * q as u64 + 7))); } Ok(vec![Val::F(t)]) })
            }
            15 => { let o = op("inv", vec![Want::F(x.inverse().unwrap_or_default())], move |s, n, st| Ok(vec![Val::F(ar::inv(s.f[i], &n[0], st)?)])); if x.is_zero() { fails(o) } else { o } }
            16 => { let a = g.v(nf, 12); let z = a.iter().any(|&i| p.f[i].is_zero()); let w = a.iter().map(|&i| Want::F(p.f[i].inverse().unwrap_or_default())).collect(); let o = op("inv_vec", w, move |s, n, st| { let x: Vec<_> = a.iter().map(|&i| s.f[i]).collect(); Ok(vals!(F, ar::inv_vec(&x, &n[0], st)?)) }); if z { fails(o) } else { o } }
            17 => { let q = g.r.below(3); let d = if q == 1 { c } else { y }; let num = if q == 2 { c } else { x }; let o = op(&format!("div{q}"), vec![Want::F(num * d.inverse().unwrap_or_default())], move |s, n, st| Ok(vec![Val::F(match q { 0 => ar::div(s.f[i], s.f[j], &n[0], st)?, 1 => ar::div_shared_by_public(s.f[i], c)?, _ => ar::div_public_by_shared(c, s.f[j], &n[0], st)? })])); if d.is_zero() { fails(o) } else { o } }
            18 => op("rand", vec![Want::AnyF], move |_, _, st| Ok(vec![Val::F(ar::rand(st))])),
            19 | 20 => op("open", vec![Want::Of(x)], move |s, n, _| Ok(vec![Val::Of(ar::open(s.f[i], &n[0])?)])),
            21 => { let a = g.v(nf, 30); op("open_vec", a.iter().map(|&i| Want::Of(p.f[i])).collect(), move |s, n, _| { let x: Vec<_> = a.iter().map(|&i| s.f[i]).collect(); Ok(vals!(Of, ar::open_vec(&x, &n[0])?)) }) }
            22 => op("mul_open", vec![Want::Of(x * y)], move |s, n, st| Ok(vec![Val::Of(ar::mul_open(s.f[i], s.f[j], &n[0], st)?)])),
            23 => { let a = g.v(nf, 20); let b = g.w(nf, a.len()); op("mul_open_vec", a.iter().zip(&b).map(|(&i, &j)| Want::Of(p.f[i] * p.f[j])).collect(), move |s, n, st| { let (x, y): (Vec<_>, Vec<_>) = (a.iter().map(|&i| s.f[i]).collect(), b.iter().map(|&i| s.f[i]).collect()); Ok(vals!(Of, ar::mul_open_vec(&x, &y, &n[0], st)?)) }) }
            24 => op("add_mul", vec![Want::F(x + y * z)], move |s, n, st| Ok(vec![Val::F(ar::add_mul(s.f[i], s.f[j], s.f[l], &n[0], st)?)])),
            25 => { if nb == 0 { continue; } let b = g.i(nb); let t = p.bit[b]; op("cmux", vec![Want::F(if t { x } else { y })], move |s, n, st| { let c = cv::bit_inject(&s.bit[b], &n[0], st)?; Ok(vec![Val::F(ar::cmux(c, s.f[i], s.f[j], &n[0], st)?)]) }) }
            26 => { if nb == 0 { continue; } let b = g.i(nb); let a = g.v(nf, 12); let d = g.w(nf, a.len()); let t = p.bit[b]; op("cmux_vec", a.iter().zip(&d).map(|(&i, &j)| Want::F(if t { p.f[i] } else { p.f[j] })).collect(), move |s, n, st| { let c = cv::bit_inject(&s.bit[b], &n[0], st)?; let (x, y): (Vec<_>, Vec<_>) = (a.iter().map(|&i| s.f[i]).collect(), d.iter().map(|&i| s.f[i]).collect()); Ok(vals!(F, ar::cmux_vec(c, &x, &y, &n[0], st)?)) }) }
            27 => { let sq = g.r.chance(3, 4); let v = if sq { x.square() } else { x }; if v.is_zero() { continue; } let o = op("sqrt", vec![Want::Root(v)], move |s, n, st| { let a = if sq { ar::mul(s.f[i], s.f[i], &n[0], st)? } else { s.f[i] }; Ok(vec![Val::F(ar::sqrt(a, &n[0], st)?)]) }); if v.sqrt().is_none() { fails(o) } else { o } }
            28 => { let e: Sf<S> = match g.r.below(4) { 0 => Sf::<S>::zero(), 1 => Sf::<S>::from(g.r.below(20)), 2 => Sf::<S>::from(g.r.next() >> g.r.below(60)), _ => if heavy { c } else { Sf::<S>::from(5u64) } }; op("pow_public", vec![Want::F(x.pow(e.into_bigint()))], move |s, n, st| Ok(vec![Val::F(ar::pow_public(s.f[i], e, &n[0], st)?)])) }
            29..=33 => {
                let q = g.r.below(12);
                let (a, b) = (x, if q < 4 || q == 8 { y } else { if g.r.chance(1, 3) { x } else { c } });
                let w = match q { 0 | 4 => a < b, 1 | 5 => a <= b, 2 | 6 => a > b, 3 | 7 => a >= b, 8 => a >= b, 9 => a >= b, _ => a <= b };
                op(["lt", "le", "gt", "ge", "lt_public", "le_public", "gt_public", "ge_public", "ge_bit", "ge_public_bit", "le_public_bit", "le_public_bit"][q as usize], vec![if q < 8 { Want::F(Sf::<S>::from(w)) } else { Want::Bit(w) }], move |s, n, st| {
                    let n = &n[0];
                    Ok(vec![match q { 0 => Val::F(ar::lt(s.f[i], s.f[j], n, st)?), 1 => Val::F(ar::le(s.f[i], s.f[j], n, st)?), 2 => Val::F(ar::gt(s.f[i], s.f[j], n, st)?), 3 => Val::F(ar::ge(s.f[i], s.f[j], n, st)?),
                        4 => Val::F(ar::lt_public(s.f[i], b, n, st)?), 5 => Val::F(ar::le_public(s.f[i], b, n, st)?), 6 => Val::F(ar::gt_public(s.f[i], b, n, st)?), 7 => Val::F(ar::ge_public(s.f[i], b, n, st)?),
                        8 => Val::Bit(ar::ge_bit(s.f[i], s.f[j], n, st)?), 9 => Val::Bit(ar::ge_public_bit(s.f[i], b, n, st)?), _ => Val::Bit(ar::le_public_bit(s.f[i], b, n, st)?) }])
                })
            }
            34..=37 => {
                let q = g.r.below(11);
                let a = g.v(nf, 6);
                let same = g.r.chance(1, 2);
                let d: Vec<usize> = if same { a.clone() } else { g.w(nf, a.len()) };
                let pc: Vec<Sf<S>> = d.iter().map(|&i| if g.r.chance(1, 2) { p.f[i] } else { konst(g.r.next()) }).collect();
                let publ = matches!(q, 2 | 3 | 6 | 7 | 9);
                let e: Vec<bool> = (0..a.len()).map(|q| p.f[a[q]] == if publ { pc[q] } else { p.f[d[q]] }).collect();
                let fe = |b: bool| Want::F(Sf::<S>::from(b));
                let want = match q { 0 | 2 => vec![fe(e[0])], 1 | 3 => e.iter().map(|&b| fe(b)).collect(), 4 | 6 => vec![Want::Bit(e[0])], 5 | 7 => e.iter().map(|&b| Want::Bit(b)).collect(), 8 | 9 => vec![fe(!e[0])], _ => vec![Want::Ob(p.f[a[0]].is_zero())] };
                op(["eq", "eq_many", "eq_public", "eq_public_many", "eq_bit", "eq_bit_many", "eq_bit_public", "eq_bit_public_many", "neq", "neq_public", "is_zero"][q as usize], want, move |s, n, st| {
                    let n = &n[0];
                    let (x, y): (Vec<_>, Vec<_>) = (a.iter().map(|&i| s.f[i]).collect(), d.iter().map(|&i| s.f[i]).collect());
                    Ok(match q { 0 => vec![Val::F(ar::eq(x[0], y[0], n, st)?)], 1 => vals!(F, ar::eq_many(&x, &y, n, st)?), 2 => vec![Val::F(ar::eq_public(x[0], pc[0], n, st)?)], 3 => vals!(F, ar::eq_public_many(&x, &pc, n, st)?), 4 => vec![Val::Bit(ar::eq_bit(x[0], y[0], n, st)?)], 5 => vals!(Bit, ar::eq_bit_many(&x, &y, n, st)?),
                        6 => vec![Val::Bit(ar::eq_bit_public(x[0], pc[0], n, st)?)], 7 => vals!(Bit, ar::eq_bit_public_many(&x, &pc, n, st)?), 8 => vec![Val::F(ar::neq(x[0], y[0], n, st)?)], 9 => vec![Val::F(ar::neq_public(x[0], pc[0], n, st)?)], _ => vec![Val::Ob(ar::is_zero(x[0], n, st)?)] })
                })
            }
            38 => { let e = g.r.below(bits as u64); op("pow_2_public", vec![Want::F(x * Sf::<S>::from(2u64).pow([e]))], move |s, _, _| Ok(vec![Val::F(ar::pow_2_public(s.f[i], Sf::<S>::from(e)))])) }
            39 | 40 => { if nb == 0 { continue; } let a = g.v(nb, 8); let d = g.w(nb, a.len()); let q = a.len() == 1; op("arithmetic_xor", a.iter().zip(&d).map(|(&i, &j)| Want::F(Sf::<S>::from(p.bit[i] ^ p.bit[j]))).collect(), move |s, n, st| { let x: Vec<_> = a.iter().map(|&i| s.bit[i]).collect(); let y: Vec<_> = d.iter().map(|&i| s.bit[i]).collect(); let x = cv::bit_inject_many(&x, &n[0], st)?; let y = cv::bit_inject_many(&y, &n[0], st)?; Ok(vals!(F, if q { vec![ar::arithmetic_xor(x[0], y[0], &n[0], st)?] } else { ar::arithmetic_xor_many(&x, &y, &n[0], st)? })) }) }
            41 => { let a = g.v(nf, 12); let rc = PartyID::try_from(g.i(3)).unwrap(); let none = g.r.chance(1, 2); op("reshare_2_to_3", a.iter().map(|&i| Want::F(p.f[i])).collect(), move |s, n, st| { let x: Vec<_> = a.iter().map(|&i| s.f[i]).collect(); let len = x.len(); Ok(vals!(F, ar::reshare_from_2_to_3_parties(if none && st.id == rc { None } else { Some(x) }, len, rc, &n[0], st)?)) }) }
            // binary
            42..=45 => {
                let (a, b) = (g.i(nz), g.i(nz));
                let (u, v) = (p.b[a], p.b[b]);
                let cu = konst::<Sf<S>>(g.r.next()).to_uint();
                let sh = g.r.below(bits as u64) as usize;
                let q = g.r.below(10);
                let w = match q { 0 => u ^ v, 1 => u ^ cu, 2 | 3 => u | v, 4 => u | cu, 5 | 9 => u & v, 6 => u & cu, 7 => u >> sh, _ => u << sh };
                op(["xor", "xor_public", "or", "or", "or_public", "and", "and_with_public", "shift_r_public", "shift_l_public", "and"][q as usize], vec![Want::B(w)], move |s, n, st| {
                    let (x, y) = (&s.b[a], &s.b[b]);
                    Ok(vec![Val::B(match q { 0 => bi::xor(x, y), 1 => bi::xor_public(x, &cu, st.id), 2 | 3 => bi::or(x, y, &n[0], st)?, 4 => bi::or_public(x, &cu, st.id), 5 | 9 => bi::and(x, y, &n[0], st)?, 6 => bi::and_with_public(x, &cu), 7 => bi::shift_r_public(x, Sf::<S>::from(sh as u64)), _ => bi::shift_l_public(x, Sf::<S>::from(sh as u64)) })])
                })
            }
            46 => { let a = g.v(nz, 10); let b = g.w(nz, a.len()); op("and_vec", a.iter().zip(&b).map(|(&i, &j)| Want::B(p.b[i] & p.b[j])).collect(), move |s, n, st| { let (x, y): (Vec<_>, Vec<_>) = (a.iter().map(|&i| s.b[i]).collect(), b.iter().map(|&i| s.b[i]).collect()); Ok(vals!(B, bi::and_vec(&x, &y, &n[0], st)?)) }) }
            47 => { let a = g.v(nz, 6); let cs: Vec<U<S>> = a.iter().map(|_| konst::<Sf<S>>(g.r.next()).to_uint()).collect(); op("xor_public_vec", a.iter().zip(&cs).map(|(&i, c)| Want::B(p.b[i] ^ *c)).collect(), move |s, _, st| { let x: Vec<_> = a.iter().map(|&i| s.b[i]).collect(); Ok(vals!(B, bi::xor_public_vec(&x, &cs, st.id))) }) }
            48 => { if nb == 0 { continue; } let v = g.w(nb, 8); let sh: u64 = v.iter().enumerate().map(|(q, &i)| (p.bit[i] as u64) << q).sum(); op("shift_l_public_by_shared", vec![Want::F(c * Sf::<S>::from(2u64).pow([sh]))], move |s, n, st| { let mut t = Rep3UintShare::zero_share(); for (q, &i) in v.iter().enumerate() { t ^= s.bit[i] << q; } Ok(vec![Val::F(bi::shift_l_public_by_shared(c, &t, &n[0], st)?)]) }) }
            49 => { let a = g.i(nz); let q = g.r.chance(1, 2); op("open_binary", vec![Want::Ou(p.b[a])], move |s, n, _| Ok(vec![Val::Ou(if q { bi::open(&s.b[a], &n[0])? } else { ar::open_bit(s.b[a], &n[0])? })])) }
            50 => { let cu = c.to_uint(); op("promote_binary", vec![Want::B(cu)], move |_, _, st| Ok(vec![Val::B(bi::promote_to_trivial_share(st.id, &cu))])) }
            51 => { let (a, b, d) = (g.i(nz), g.i(nz), g.i(nz)); let w = (p.b[a] & p.b[b]) | (!p.b[a] & p.b[d]); op("cmux_binary", vec![Want::B(w)], move |s, n, st| Ok(vec![Val::B(bi::cmux(&s.b[a], &s.b[b], &s.b[d], &n[0], st)?)])) }
            52 => { let a = g.v(nz, 8); let b = g.w(nz, a.len()); let d = g.w(nz, a.len()); let w = (0..a.len()).map(|q| Want::B((p.b[a[q]] & p.b[b[q]]) | (!p.b[a[q]] & p.b[d[q]]))).collect(); op("cmux_many_binary", w, move |s, n, st| { let f = |v: &[usize]| -> Vec<Bs<S>> { v.iter().map(|&i| s.b[i]).collect() }; Ok(vals!(B, bi::cmux_many(&f(&a), &f(&b), &f(&d), &n[0], st)?)) }) }
            53 => { let a = g.v(nz, 9); let w = a.iter().fold(U::<S>::zero(), |t, &i| t | p.b[i]); op("or_tree", vec![Want::B(w)], move |s, n, st| { let x: Vec<_> = a.iter().map(|&i| s.b[i]).collect(); Ok(vec![Val::B(bi::or_tree(x, &n[0], st)?)]) }) }
            54 | 55 => { let a = g.v(nz, 6); let q = a.len() == 1; let mk = U::<S>::mask(bits); let zero = g.r.chance(1, 4); op("is_zero_binary", a.iter().map(|&i| Want::Bit(zero || (p.b[i] & mk).is_zero())).collect(), move |s, n, st| { let x: Vec<_> = a.iter().map(|&i| { let x = s.b[i]; if zero { bi::xor(&x, &x) } else { x } }).collect(); Ok(vals!(Bit, if q { vec![bi::is_zero(&x[0], &n[0], st)?] } else { bi::is_zero_many(x, &n[0], st)? })) }) }
            56 => { if nb == 0 { continue; } let (a, b) = (g.i(nb), g.i(nb)); op("xor_bit", vec![Want::Bit(p.bit[a] ^ p.bit[b])], move |s, _, _| Ok(vec![Val::Bit(s.bit[a] ^ s.bit[b])])) }
            57 => { let a = g.i(nz); let q = g.r.below(bits as u64) as usize; op("extract_bit", vec![Want::Bit(p.b[a].bit(q))], move |s, _, _| Ok(vec![Val::Bit((s.b[a] >> q).and_mask(&U::<S>::one()))])) }
            // conversions
            58..=60 => { let q = g.r.below(4); if q > 1 && !heavy { continue; } op(["a2b", "a2b_selector", "a2y2b", "a2y2b_streaming"][q as usize], vec![Want::B(x.to_uint())], move |s, n, st| { let n = &n[0]; Ok(vec![Val::B(match q { 0 => cv::a2b(s.f[i], n, st)?, 1 => cv::a2b_selector(s.f[i], n, st)?, 2 => cv::a2y2b(s.f[i], n, st)?, _ => cv::a2y2b_streaming(s.f[i], n, st)? })]) }) }
            61 => { let a = g.v(nf, 5); let q = heavy && g.r.chance(1, 2); op(if q { "a2y2b_many" } else { "a2b_many" }, a.iter().map(|&i| Want::B(p.f[i].to_uint())).collect(), move |s, n, st| { let x: Vec<_> = a.iter().map(|&i| s.f[i]).collect(); Ok(vals!(B, if q { cv::a2y2b_many(&x, &n[0], st)? } else { cv::a2b_many(&x, &n[0], st)? })) }) }
            62..=64 => { let ok: Vec<usize> = (0..nz).filter(|&i| p.b[i] < m).collect(); if ok.is_empty() { continue; } let a = *g.r.pick(&ok); let q = g.r.below(4); if q > 1 && !heavy { continue; } op(["b2a", "b2a_selector", "b2y2a", "b2y2a_streaming"][q as usize], vec![Want::F(Sf::<S>::from_uint_reduced(&p.b[a]))], move |s, n, st| { let n = &n[0]; Ok(vec![Val::F(match q { 0 => cv::b2a(&s.b[a], n, st)?, 1 => cv::b2a_selector(&s.b[a], n, st)?, 2 => cv::b2y2a(&s.b[a], n, st)?, _ => cv::b2y2a_streaming(&s.b[a], n, st)? })]) }) }
            65 => { let ok: Vec<usize> = (0..nz).filter(|&i| p.b[i] < m).collect(); if ok.is_empty() { continue; } let a: Vec<usize> = g.v(ok.len(), 5).into_iter().map(|i| ok[i]).collect(); op("b2a_many", a.iter().map(|&i| Want::F(Sf::<S>::from_uint_reduced(&p.b[i]))).collect(), move |s, n, st| { let x: Vec<_> = a.iter().map(|&i| s.b[i]).collect(); Ok(vals!(F, cv::b2a_many(&x, &n[0], st)?)) }) }
            66 | 67 => { if nb == 0 { continue; } let a = g.i(nb); let q = g.r.below(2); op(["bit_inject", "bit_inject_from_bits"][q as usize], vec![Want::F(Sf::<S>::from(p.bit[a]))], move |s, n, st| Ok(vec![Val::F(if q == 0 { cv::bit_inject(&s.bit[a], &n[0], st)? } else { cv::bit_inject_from_bits((s.bit[a].a.bit(0), s.bit[a].b.bit(0)), &n[0], st)? })])) }
            68 => { if nb == 0 { continue; } let a = g.v(nb, 20); op("bit_inject_many", a.iter().map(|&i| Want::F(Sf::<S>::from(p.bit[i]))).collect(), move |s, n, st| { let x: Vec<_> = a.iter().map(|&i| s.bit[i]).collect(); Ok(vals!(F, cv::bit_inject_many(&x, &n[0], st)?)) }) }
            69 | 70 => {
                if !heavy { continue; }
                let q = g.r.below(5);
                let ok: Vec<usize> = (0..nz).filter(|&i| p.b[i] < m).collect();
                if q >= 3 && ok.is_empty() { continue; }
                let a = if ok.is_empty() { 0 } else { *g.r.pick(&ok) };
                let w = match q { 0 | 1 => Want::F(x), 2 => Want::B(x.to_uint()), 3 => Want::F(Sf::<S>::from_uint_reduced(&p.b[a])), _ => Want::B(p.b[a]) };
                op(["a2y+y2a", "a2y_streaming+y2a_streaming", "a2y+y2b", "b2y+y2a", "b2y+y2b"][q as usize], vec![w], move |s, n, st| {
                    let n = &n[0];
                    let id = st.id;
                    let d = st.rngs.generate_random_garbler_delta(id);
                    Ok(vec![match q {
                        0 => { let y = cv::a2y(s.f[i], d, n, st)?; Val::F(cv::y2a(y, d, n, st)?) }
                        1 => { let y = cv::a2y_streaming(s.f[i], d, n, st)?; Val::F(cv::y2a_streaming(y, d, n, st)?) }
                        2 => { let y = cv::a2y(s.f[i], d, n, st)?; Val::B(cv::y2b(y, n, st)?) }
                        3 => { let y = cv::b2y(&s.b[a], d, n, st)?; Val::F(cv::y2a(y, d, n, st)?) }
                        _ => { let y = cv::b2y(&s.b[a], d, n, st)?; Val::B(cv::y2b(y, n, st)?) }
                    }])
                })
            }
            71 => { if !heavy { continue; } let a = g.v(nf, 4); op("a2y_many+y2b_many", a.iter().map(|&i| Want::B(p.f[i].to_uint())).collect(), move |s, n, st| { let id = st.id; let d = st.rngs.generate_random_garbler_delta(id); let x: Vec<_> = a.iter().map(|&i| s.f[i]).collect(); let y = cv::a2y_many(&x, d, &n[0], st)?; Ok(vals!(B, cv::y2b_many(y, &n[0], st)?)) }) }
            72 | 73 => {
                if !heavy { continue; }
                let a = g.v(np, 3);
                let one_ = a.len() == 1 && g.r.chance(1, 2);
                let xy = |q: &Pj<S>| -> [Bf<S>; 3] { let f = q.into_affine(); if f.is_zero() { [Bf::<S>::zero(), Bf::<S>::zero(), Bf::<S>::one()] } else { [f.x, f.y, Bf::<S>::zero()] } };
                // coordinates of the point at infinity are not specified: only the flag is compared
                let want: Vec<Want<S>> = a.iter().flat_map(|&i| { let v = xy(&p.p[i]); v.map(Want::Fb) }).collect();
                let inf: Vec<bool> = a.iter().map(|&i| p.p[i].is_zero()).collect();
                op("point_to_field", want, move |s, n, st| {
                    let x: Vec<_> = fresh(a.iter().map(|&i| s.p[i].clone()).collect(), &n[0], st)?;
                    let (mut xs, mut ys, zs) = if one_ { let (x, y, z) = cv::point_share_to_fieldshares::<Pj<S>, _>(x[0].clone(), &n[0], st)?; (vec![x], vec![y], vec![z]) } else { cv::point_share_to_fieldshares_many::<Pj<S>, _>(&x, &n[0], st)? };
                    if xs.len() != inf.len() || ys.len() != inf.len() || zs.len() != inf.len() { eyre::bail!("(test) wrong length") }
                    for q in 0..inf.len() { if inf[q] { xs[q] = Rep3PrimeFieldShare::zero_share(); ys[q] = Rep3PrimeFieldShare::zero_share(); } }
                    Ok((0..xs.len()).flat_map(|q| [Val::Fb(xs[q]), Val::Fb(ys[q]), Val::Fb(zs[q])]).collect())
                })
            }
            74 => {
                if !heavy || std::any::type_name::<S>().contains("bls12_381") { continue; } // only BN254 and Grumpkin are offered
                let a = g.v(np, 3);
                let one_ = a.len() == 1 && g.r.chance(1, 2);
                op("field_to_point", a.iter().map(|&i| Want::P(p.p[i])).collect(), move |s, n, st| {
                    let x: Vec<_> = fresh(a.iter().map(|&i| s.p[i].clone()).collect(), &n[0], st)?;
                    let (xs, ys, zs) = cv::point_share_to_fieldshares_many::<Pj<S>, _>(&x, &n[0], st)?;
                    Ok(vals!(P, if one_ { vec![cv::fieldshares_to_pointshare::<Pj<S>, _>(xs[0], ys[0], zs[0], &n[0], st)?] } else { cv::fieldshares_to_pointshare_many::<Pj<S>, _>(&xs, &ys, &zs, &n[0], st)? }))
                })
            }
            // points
            75..=78 => {
                let (a, b) = (g.i(np), g.i(np));
                let (u, v, cp) = (p.p[a], p.p[b], konst_p::<Pj<S>>(g.r.next()));
                let q = g.r.below(9);
                let w = match q { 0 | 1 | 6 => u + v, 2 | 3 | 7 => u - v, 4 => u + cp, 5 => u - cp, _ => u * c };
                op(&format!("plin{q}"), vec![Want::P(w)], move |s, _, st| { let (x, y) = (&s.p[a], &s.p[b]); let mut z = x.clone(); Ok(vec![Val::P(match q { 0 => pt::add(x, y), 1 => { pt::add_assign(&mut z, y); z } 2 => pt::sub(x, y), 3 => { pt::sub_assign(&mut z, y); z } 4 => { pt::add_assign_public(&mut z, &cp, st.id); z } 5 => { pt::sub_assign_public(&mut z, &cp, st.id); z } 6 => x + y, 7 => x - y, _ => pt::scalar_mul_public_scalar(x, c) })]) })
            }
            79 => { let cp = konst_p::<Pj<S>>(g.r.next()); op("scalar_mul_public_point", vec![Want::P(cp * x)], move |s, _, _| Ok(vec![Val::P(pt::scalar_mul_public_point(&cp, s.f[i]))])) }
            80 => { let cp = konst_p::<Pj<S>>(g.r.next()); op("promote_point", vec![Want::P(cp)], move |_, _, st| Ok(vec![Val::P(pt::promote_to_trivial_share(st.id, &cp))])) }
            81..=83 => { let a = g.i(np); op("scalar_mul", vec![Want::P(p.p[a] * x)], move |s, n, st| Ok(vec![Val::P(pt::scalar_mul(&s.p[a], s.f[i], &n[0], st)?)])) }
            84 => { let a = g.v(np, 5); let b = g.w(nf, a.len()); op("scalar_mul_many", a.iter().zip(&b).map(|(&i, &j)| Want::P(p.p[i] * p.f[j])).collect(), move |s, n, st| { let x: Vec<_> = a.iter().map(|&i| s.p[i].clone()).collect(); let y: Vec<_> = b.iter().map(|&i| s.f[i]).collect(); Ok(vals!(P, pt::scalar_mul_many(&x, &y, &n[0], st)?)) }) }
            85 => { let a = g.i(np); op("open_half_point", vec![Want::Op(p.p[a] * x)], move |s, n, st| { let h = pt::scalar_mul_local(&s.p[a], s.f[i], st); Ok(vec![Val::Op(pt::open_half_point(h, &n[0])?)]) }) }
            86 | 87 => { let a = g.i(np); op("open_point", vec![Want::Op(p.p[a])], move |s, n, _| Ok(vec![Val::Op(pt::open_point(&s.p[a], &n[0])?)])) }
            88 => { let a = g.v(np, 8); op("open_point_many", a.iter().map(|&i| Want::Op(p.p[i])).collect(), move |s, n, _| { let x: Vec<_> = a.iter().map(|&i| s.p[i].clone()).collect(); Ok(vals!(Op, pt::open_point_many(&x, &n[0])?)) }) }
            89 => { let a = g.i(np); op("open_point_and_field", vec![Want::Op(p.p[a]), Want::Of(x)], move |s, n, _| { let (u, v) = pt::open_point_and_field(&s.p[a], &s.f[i], &n[0])?; Ok(vec![Val::Op(u), Val::Of(v)]) }) }
            90 => { let a = g.v(np, 5); let b = g.v(nf, 5); op("open_point_and_field_many", a.iter().map(|&i| Want::Op(p.p[i])).chain(b.iter().map(|&i| Want::Of(p.f[i]))).collect(), move |s, n, _| { let x: Vec<_> = a.iter().map(|&i| s.p[i].clone()).collect(); let y: Vec<_> = b.iter().map(|&i| s.f[i]).collect(); let (u, v) = pt::open_point_and_field_many(&x, &y, &n[0])?; Ok(vals!(Op, u).into_iter().chain(vals!(Of, v)).collect()) }) }
            91 => { let v = g.v(nf, 8); let pts: Vec<Affine<S>> = v.iter().map(|_| konst_p::<Pj<S>>(g.r.next()).into_affine()).collect(); let w = v.iter().zip(&pts).fold(Pj::<S>::zero(), |t, (&i, q)| t + *q * p.f[i]); op("msm", vec![Want::P(w)], move |s, _, _| { let x: Vec<_> = v.iter().map(|&i| s.f[i]).collect(); Ok(vec![Val::P(pt::msm_public_points::<Pj<S>, S>(&pts, &x))]) }) }
            92 | 93 => {
                if !heavy { continue; }
                let a = g.v(np, 3);
                let zero = g.r.chance(1, 3);
                let one_ = a.len() == 1;
                op("point_is_zero", a.iter().map(|&i| Want::Rb(zero || p.p[i].is_zero())).collect(), move |s, n, st| { let x: Vec<_> = fresh(a.iter().map(|&i| if zero { pt::sub(&s.p[i], &s.p[i]) } else { s.p[i].clone() }).collect(), &n[0], st)?; let v = if one_ { vec![pt::is_zero::<Pj<S>, _>(x[0].clone(), &n[0], st)?] } else { pt::is_zero_many::<Pj<S>, _>(&x, &n[0], st)? }; Ok(v.into_iter().map(|(a, b)| Val::Rb(a, b)).collect()) })
            }
            94 => {
                if !heavy { continue; }
                let a = g.v(nf, 6);
                let bs = g.r.usize(1, 40);
                let mk = U::<S>::mask(bs);
                let mut w: Vec<U<S>> = a.iter().map(|&i| p.f[i].to_uint() & mk).collect();
                w.sort();
                op("sort_yao", w.iter().map(|u| Want::F(Sf::<S>::from_uint_reduced(u))).collect(), move |s, n, st| { let x: Vec<_> = a.iter().map(|&i| s.f[i]).collect(); Ok(vals!(F, rep3::gadgets::sort::batcher_odd_even_merge_sort_yao(&x, &n[0], st, bs)?)) })
            }
            // forks
            _ => {
                if g.depth > 0 || g.nets < 2 { continue; }
                let m = g.r.usize(2, g.nets);
                let mut subs: Vec<Vec<Op<S>>> = vec![];
                let mut want = vec![];
                g.depth += 1;
                for _ in 0..m {
                    let mut q = p.clone();
                    let mut v = vec![];
                    for _ in 0..g.r.usize(1, 3) { let o = loop { let o = base_op(g, &q); if !o.err { break o; } }; q.push(&o.want); want.extend(o.want.iter().cloned()); v.push(o); }
                    subs.push(v);
                }
                g.depth -= 1;
                let what = format!("fork[{}]", subs.iter().map(|v| v.iter().map(|o| o.what.clone()).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(" | "));
                let mut o = op("fork", want, move |s, n, st| par(&subs, s, n, st));
                o.what = what;
                o
            }
        };
    }
}
fn g_parity<F: PrimeField>(c: F) -> bool { c.into_bigint().as_ref()[0] & 1 == 1 }
fn bit_of<F: FieldUint>(c: F) -> F::Uint { bit::<F>(c.is_zero()) }
/// New sharings of the same points: the conversions to coordinates state that no share may be the point at infinity, as those of constants are.
fn fresh<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>>(x: Vec<Ps<S>>, n: &Tap, st: &mut Rep3State) -> eyre::Result<Vec<Ps<S>>> {
    let one = ar::promote_to_trivial_share(st.id, Sf::<S>::one());
    Ok(pt::scalar_mul_many(&x, &vec![one; x.len()], n, st)?)
}
fn par<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>>(subs: &[Vec<Op<S>>], s: &Shares<S>, n: &[Tap], st: &mut Rep3State) -> eyre::Result<Vec<Val<S>>> {
    let mut sts = vec![];
    for _ in 1..subs.len() { sts.push(st.fork(0)?); }
    let mut it = sts.into_iter();
    let (mut s1, mut s2) = (it.next(), it.next());
    let run = |ops: &[Op<S>], k: usize, st: &mut Rep3State| -> eyre::Result<Vec<Val<S>>> {
        let mut r = s.clone();
        let mut out = vec![];
        for o in ops { let v = (o.ex)(&r, &n[k..], st)?; if v.len() != o.want.len() { eyre::bail!("(test) {} gives {} values instead of {}", o.what, v.len(), o.want.len()); } r.push(&o.want, &v); out.extend(v); }
        Ok(out)
    };
    let mut out;
    if subs.len() == 2 { let (x, y) = mpc_net::join(|| run(&subs[0], 0, st), || run(&subs[1], 1, s1.as_mut().unwrap())); out = x?; out.extend(y?); }
    else { let (x, y, z) = mpc_net::join3(|| run(&subs[0], 0, st), || run(&subs[1], 1, s1.as_mut().unwrap()), || run(&subs[2], 2, s2.as_mut().unwrap())); out = x?; out.extend(y?); out.extend(z?); }
    Ok(out)
}

// ---- running and judging ----------------------------------------------------------------------------
pub fn make(r: &mut Rng, _prop: &str, i: u64, c: &mut Cfg) {
    let tp = if i % 7 == 6 { TCP } else { LOCAL };
    c.set("tp", tp).set("n", 3).set("ops", r.usize(2, 16) as i64).set("curve", r.below(4) as i64).set("nets", r.usize(1, 3) as i64).set("yao", r.chance(1, 3) as i64)
        .set("vmax", r.logu(1, 24) as i64).set("workers", r.usize(1, 3) as i64).set("jitter_us", if r.chance(1, 3) { r.logu(1, 2000) as i64 } else { 0 }).set("hold", r.below(2) as i64);
    sched_knobs(r, c, 3);
    c.set("seg_max", 16384);
    if tp == TCP { tcp_knobs(r, c); c.set("seg_max", 16384).set("sndbuf", 65536).set("rcvbuf", 65536); }
    if c.on("alloc_yield") { c.set("alloc_yield", c.get("alloc_yield").max(200)); }
    c.set("max_steps", 8_000_000);
}
fn make_faults(r: &mut Rng, _prop: &str, i: u64, c: &mut Cfg) {
    make(r, "", i, c);
    c.set("ops", r.usize(1, 8) as i64);
    let tp = if i % 3 == 2 { TCP } else { LOCAL };
    c.set("tp", tp);
    // garbled circuits are long messages: keep the network fast enough for the timeout
    if tp == TCP { tcp_knobs(r, c); c.set("jitter_us", 0).set("stall", 0).set("seg_max", 16384).set("sndbuf", 262144).set("rcvbuf", 262144); }
    let kinds: &[i64] = if tp == TCP { &[K_EXIT, K_RESET, K_LEAVE, K_HANG, K_MUTE, K_CUT, K_LONG, K_FEWER] } else { &[K_LEAVE, K_HANG, K_MUTE, K_SHORT, K_LONG, K_EMPTY, K_FEWER, K_MORE, K_FEWER, K_MORE, K_PREFIX] };
    c.set("fkind", *r.pick(kinds)).set("fp", r.below(3) as i64).set("fat", r.logu(1, 60) as i64).set("farg", (r.next() >> 20) as i64).set("timeout_us", if tp == TCP { 10_000_000 } else { 2_000_000 }).set("faulty", 1);
}
fn run(c: &Cfg) {
    let prop = if c.on("faulty") { "R04" } else { "R01" };
    match c.get("curve") { 0 | 3 => on::<ark_bn254::g1::Config>(c, prop, base_op), 1 => on::<ark_bls12_381::g1::Config>(c, prop, base_op), _ => on::<ark_grumpkin::GrumpkinConfig>(c, prop, base_op) }
}
pub struct Party<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>> { t0: u64, t1: u64, got: Vec<Result<Vec<Val<S>>, String>>, end: Option<Result<(), String>> }
impl<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>> Default for Party<S> { fn default() -> Self { Party { t0: 0, t1: 0, got: vec![], end: None } } }

pub fn on<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>>(c: &Cfg, prop: &'static str, gen_op: fn(&mut Gen, &Plain<S>) -> Op<S>) {
    workers(c);
    wire(c);
    let faulty = c.on("faulty");
    let n = 3;
    let seed = c.get("seed") as u64;
    let mut r = Rng::new(seed ^ 0x5c);
    let mut o = link::opt(c);
    o.nets = c.us("nets").clamp(1, 3);
    let mut dr = rand_chacha::ChaCha12Rng::seed_from_u64(seed ^ 0xdea4);
    let vals: Vec<Sf<S>> = (0..5).map(|i| if i >= 3 { konst(r.next()) } else { Sf::<S>::rand(&mut dr) }).collect();
    let bins: Vec<Sf<S>> = (0..3).map(|i| if i == 2 { konst(r.next()) } else { Sf::<S>::rand(&mut dr) }).collect();
    let pts: Vec<Pj<S>> = (0..3).map(|_| konst_p(r.next())).collect();
    let fsh: [Vec<Fs<S>>; 3] = match r.below(3) {
        0 => rep3::share_field_elements(&vals, &mut dr),
        1 => { let [a, b, d] = rep3::share_field_elements_seeded::<Sf<S>, _, rep3::SeedRng>(&vals, &mut dr); let e = |x: rep3::ReplicatedSeedType<Vec<Sf<S>>, rep3::SeedRng>| x.expand_vec().unwrap_or_default(); [e(a), e(b), e(d)] }
        _ => { let v: Vec<Option<Sf<S>>> = vals.iter().map(|x| Some(*x)).collect(); rep3::share_maybe_field_elements(&v, &mut dr).map(|v| v.into_iter().flatten().collect()) }
    };
    let bsh: Vec<[Bs<S>; 3]> = bins.iter().map(|x| rep3::share_binary(*x, &mut dr)).collect();
    let psh: Vec<[Ps<S>; 3]> = pts.iter().map(|x| rep3::share_curve_point(*x, &mut dr)).collect();
    // dealing
    if fsh.iter().any(|x| x.len() != vals.len()) { viol(prop, "deal", "wrong number of shares dealt"); return; }
    let deal = |i: usize, w: Want<S>, v: [Val<S>; 3]| if let Some(e) = check(&w, &[&v[0], &v[1], &v[2]]) { viol(prop, "deal", format!("dealt value {i}: {e}")); };
    for i in 0..vals.len() { deal(i, Want::F(vals[i]), [0, 1, 2].map(|p| Val::F(fsh[p][i]))); }
    for i in 0..bins.len() { deal(i, Want::B(bins[i].to_uint()), [0, 1, 2].map(|p| Val::B(bsh[i][p]))); }
    for i in 0..pts.len() { deal(i, Want::P(pts[i]), [0, 1, 2].map(|p| Val::P(psh[i][p].clone()))); }
    let mut plain: Plain<S> = Plain { f: vals.clone(), bit: vec![], b: bins.iter().map(|x| x.to_uint()).collect(), p: pts.clone() };
    let mut sh: Vec<Shares<S>> = (0..3).map(|p| Shares { f: fsh[p].clone(), bit: vec![], b: bsh.iter().map(|x| x[p]).collect(), p: psh.iter().map(|x| x[p].clone()).collect() }).collect();
    // some bits of dealt values
    for i in 0..4 { let (w, q) = (i % bins.len(), (i * 61 + r.below(60) as usize) % (Sf::<S>::MODULUS_BIT_SIZE as usize - 1)); plain.bit.push(bins[w].to_uint().bit(q)); for p in 0..3 { let x = (bsh[w][p] >> q).and_mask(&U::<S>::one()); sh[p].bit.push(x); } }
    let mut g = Gen { r: &mut r, vmax: c.us("vmax").max(1), nets: o.nets, heavy: !faulty, depth: 0 };
    let ops: Vec<Op<S>> = (0..c.us("ops")).map(|_| { let o = loop { let o = gen_op(&mut g, &plain); if !(faulty && o.err) { break o; } }; plain.push(&o.want); o }).collect();
    note(|| format!("program {:?}", ops.iter().map(|o| o.what.clone()).collect::<Vec<_>>()));
    let ops = Arc::new(ops);
    let res: Arc<Glob<std::collections::BTreeMap<usize, Party<S>>>> = Arc::new(Glob::new());
    let hold = c.on("hold") && !faulty;
    let (ops2, res2) = (ops.clone(), res.clone());
    let all: Vec<usize> = (0..n).collect();
    let a2b = if c.on("yao") { A2BType::Yao } else { A2BType::Direct };
    let body = move |p: usize, env: Env| {
        if faulty { gate(76, n, CAP); }
        let nets = taps(&env);
        let put = |f: &mut dyn FnMut(&mut Party<S>)| res2.with(|m| f(m.entry(p).or_default()));
        put(&mut |x| x.t0 = os::now());
        let run = || -> eyre::Result<()> {
            let mut st = Rep3State::new(&nets[0], a2b)?;
            let mut s = sh[p].clone();
            for o in ops2.iter() {
                let v = match (o.ex)(&s, &nets, &mut st) { Ok(v) => Ok(v), Err(e) if o.err && !format!("{e:#}").contains("(test)") => Err(format!("{e:#}")), Err(e) => return Err(e.wrap_err(format!("operation {}", o.what))) };
                if let Ok(v) = &v { if v.len() != o.want.len() && !o.err { eyre::bail!("(test) operation {} gives {} values instead of {}", o.what, v.len(), o.want.len()); } s.push(&o.want, v); }
                let mut v = Some(v);
                put(&mut |x| x.got.push(v.take().unwrap()));
            }
            Ok(())
        };
        let e = run();
        put(&mut |x| { x.t1 = os::now(); x.end = Some(match &e { Ok(()) => Ok(()), Err(e) => Err(format!("{e:#}")) }) });
        if hold { gate(77, n, CAP); }
        drop(nets);
        drop(env);
    };
    let ids = parties(&o, prop, &all, &[], body);
    finish(prop, &ids, faulty, &o);
    let (plan, hit, vg, dmg) = WIRE.with(|w| (w.plan, w.hit, w.victim_got, w.damaged.clone()));
    let mut got = vec![];
    for p in 0..n {
        let x = res.with(|m| m.remove(&p)).unwrap_or_default();
        match &x.end {
            Some(Err(e)) if !faulty || !hit => viol(prop, "failed", format!("P{p}: {e}")),
            Some(Ok(())) if vg && dmg.as_ref().is_some_and(|d| d.2 == p) => viol(prop, "accepted-damaged", format!("P{p} finished all operations although a message had the wrong length: {}; operations {:?}", dmg.as_ref().unwrap().4, ops.iter().map(|o| o.what.as_str()).collect::<Vec<_>>())),
            _ => {}
        }
        if faulty && x.end.is_some() && x.t1 - x.t0 > 10 * o.timeout.unwrap_or(SEC) { viol(prop, "slow-error", format!("P{p} took {} ms with a timeout of {} ms", (x.t1 - x.t0) / os::MS, o.timeout.unwrap_or(0) / os::MS)); }
        got.push(x.got);
    }
    if faulty { feat(format!("{} {}", kind_name(plan.kind), if hit { "hit" } else { "late" })); }
    for o in ops.iter() { feat(format!("op {}", o.name)); }
    feat(if c.on("yao") { "a2b yao" } else { "a2b direct" });
    for (i, o) in ops.iter().enumerate() {
        for (p, g) in got.iter().enumerate() {
            match g.get(i) {
                Some(Ok(_)) if o.err => viol(prop, "no-error", format!("{}: P{p} gives a result where it must fail", o.what)),
                Some(Ok(v)) => for (k, (w, v)) in o.want.iter().zip(v).enumerate() { if let Some(e) = open_ok(w, v) { viol(prop, "wrong-result", format!("{} (value {k} of {}): P{p} {e}", o.what, o.want.len())); break; } },
                _ => {}
            }
        }
        if let (Some(Ok(a)), Some(Ok(b)), Some(Ok(d))) = (got[0].get(i), got[1].get(i), got[2].get(i)) { if !o.err { for k in 0..o.want.len() { if let Some(e) = check(&o.want[k], &[&a[k], &b[k], &d[k]]) { viol(prop, "wrong-sharing", format!("{} (value {k} of {}): {e}", o.what, o.want.len())); break; } } } }
    }
}
/// Is an opened value right?
fn open_ok<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>>(w: &Want<S>, v: &Val<S>) -> Option<String> {
    let ok = match (w, v) { (Want::Of(x), Val::Of(y)) => x == y, (Want::Ou(x), Val::Ou(y)) => x == y, (Want::Op(x), Val::Op(y)) => x == y, (Want::Ob(x), Val::Ob(y)) => x == y, _ => true };
    if ok { None } else { Some("opened a wrong value".into()) }
}
/// Do the three shares replicate each other and combine to the wanted value?
pub fn check<S: SWCurveConfig<ScalarField: FieldUint, BaseField: FieldUint>>(w: &Want<S>, v: &[&Val<S>; 3]) -> Option<String> {
    fn repl<T: PartialEq>(a: [T; 3], b: [T; 3]) -> Option<String> { for p in 0..3 { if b[p] != a[(p + 2) % 3] { return Some(format!("P{p}'s second share is not P{}'s first", (p + 2) % 3)); } } None }
    fn fl<F: PrimeField>(v: [Rep3PrimeFieldShare<F>; 3]) -> Result<F, String> { match repl(v.map(|x| x.a), v.map(|x| x.b)) { Some(e) => Err(e), None => { let s = v[0].a + v[1].a + v[2].a; if rep3::combine_field_element(v[0], v[1], v[2]) != s || rep3::combine_field_elements(&[v[0]], &[v[1]], &[v[2]]) != [s] { Err("the library combines the shares to another value".into()) } else { Ok(s) } } } }
    let is = |ok: bool| if ok { None } else { Some("the shares combine to a wrong value".to_string()) };
    match (w, v) {
        (Want::F(_) | Want::AnyF | Want::Root(_), [Val::F(a), Val::F(b), Val::F(c)]) => match fl([*a, *b, *c]) { Err(e) => Some(e), Ok(s) => is(match w { Want::F(x) => s == *x, Want::Root(x) => s.square() == *x, _ => !s.is_zero() }) },
        (Want::Fb(x), [Val::Fb(a), Val::Fb(b), Val::Fb(c)]) => match fl([*a, *b, *c]) { Err(e) => Some(e), Ok(s) => is(s == *x) },
        (Want::Bit(x), [Val::Bit(a), Val::Bit(b), Val::Bit(c)]) => repl([a.a, b.a, c.a], [a.b, b.b, c.b]).or_else(|| is((a.a ^ b.a ^ c.a) == bit::<Sf<S>>(*x))),
        (Want::B(x), [Val::B(a), Val::B(b), Val::B(c)]) => repl([a.a, b.a, c.a], [a.b, b.b, c.b]).or_else(|| is((a.a ^ b.a ^ c.a) == *x && rep3::combine_binary_element(*a, *b, *c) == *x)),
        (Want::P(x), [Val::P(a), Val::P(b), Val::P(c)]) => repl([a.a, b.a, c.a], [a.b, b.b, c.b]).or_else(|| is(a.a + b.a + c.a == *x && rep3::combine_curve_point(*a, *b, *c) == *x)),
        (Want::Add(x), [Val::Add(a), Val::Add(b), Val::Add(c)]) => is(*a + b + c == *x),
        (Want::AddP(x), [Val::AddP(a), Val::AddP(b), Val::AddP(c)]) => is(*a + b + c == *x),
        (Want::Xor(x), [Val::Xor(a), Val::Xor(b), Val::Xor(c)]) => is(*a ^ *b ^ *c == *x),
        (Want::Rb(x), [Val::Rb(a, a2), Val::Rb(b, b2), Val::Rb(c, c2)]) => repl([*a, *b, *c], [*a2, *b2, *c2]).or_else(|| is(a ^ b ^ c == *x)),
        (Want::Ring(x), [Val::Ring { bits, xor, a, b }, Val::Ring { a: a1, b: b1, .. }, Val::Ring { a: a2, b: b2, .. }]) => repl([a, a1, a2], [b, b1, b2]).or_else(|| { let s = if *xor { a ^ a1 ^ a2 } else { (a + a1 + a2) % (num_bigint::BigUint::from(1u8) << *bits) }; is(s == *x) }),
        (Want::Sh(x), [Val::Sh(a), Val::Sh(b), Val::Sh(c)]) => match secret(&[a.a, b.a, c.a], 1) { Err(e) => Some(e), Ok(s) => is(s == *x) },
        (Want::ShP(x), [Val::ShP(a), Val::ShP(b), Val::ShP(c)]) => match secret_p(&[a.a, b.a, c.a], 1) { Err(e) => Some(e), Ok(s) => is(s == *x) },
        _ => None,
    }
}
