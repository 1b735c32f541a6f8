//! Witness extension: random Circom-like programs (templates, functions, branches on shared and public values, loops,
//! sub-components, accelerated components) run by the MPC virtual machine over shared inputs, compared with an
//! interpreter of the program's syntax tree that shares nothing with the machine.
use super::mpc::*;
use super::rep3::{bz, fu, CAP, STUB};
use super::*;
use crate::os::SEC;
use ark_ff::{PrimeField, Zero};
use circom_mpc_vm::mpc_vm::{BatchedRep3WitnessExtension, Rep3WitnessExtension, ShamirWitnessExtension, VMConfig};
use circom_mpc_vm::op_codes::{CodeBlock, MpcOpCode as O};
use circom_mpc_vm::types::{CoCircomCompilerParsed, FunDecl, TemplateDecl};
use circom_mpc_vm::{BatchedRep3VmType, Rep3VmType, ShamirVmType};
use mpc_core::gadgets::poseidon2::{CircomTracePlainHasher, Poseidon2};
use mpc_core::protocols::rep3::{self, conversion::A2BType, Rep3PrimeFieldShare};
use mpc_core::protocols::shamir::{self, ShamirPrimeFieldShare};
use mpc_core::uint::FieldUint;
use num_bigint::BigUint;
use rand::SeedableRng;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use tp::*;

const REAL_V: &[&str] = &["circom-mpc-vm: machine, accelerators, replicated, batched, Shamir and plain drivers", "mpc-core: protocols/rep3, protocols/shamir, gadgets", "mpc-net: local and tcp transports, join"];
const SIMPLE: &[(&str, i64)] = &[("tp", 0), ("stmts", 1), ("depth", 0), ("funs", 0), ("templs", 0), ("curve", 0), ("jitter_us", 0), ("workers", 1), ("yao", 0), ("batch", 1), ("lat_min_us", 10), ("lat_max_us", 10), ("seg_max", 65536)];

pub fn scenarios() -> Vec<Scn> {
    let s = |name, props, weight, make, run| Scn { name, props, weight, make, run, real: REAL_V, stub: STUB, simple: SIMPLE };
    vec![s("witness-extension", &["V01"], 1, make as fn(&mut Rng, &str, u64, &mut Cfg), run as fn(&Cfg)), s("witness-faults", &["V02"], 1, make_faults, run)]
}

// ---- syntax ---------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
enum Kind { B, S(usize), F }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Bop { Add, Sub, Mul, Div, IDiv, Mod, Pow, Shl, Shr, Lt, Le, Gt, Ge, Eq, Neq, And, Or, BAnd, BOr, BXor }
/// A place: a base plus terms `expr * stride`.
#[derive(Clone, Debug)]
struct Ix { base: usize, dims: Vec<(E, usize)> }
#[derive(Clone, Debug)]
enum E { K(usize), Var(Ix), Sig(Ix), Out(Box<Ix>, Option<usize>, Ix), Neg(Box<E>), Bin(Bop, Box<E>, Box<E>), EqN(usize, Ix, Ix), Call(usize, Vec<E>) }
#[derive(Clone, Debug)]
enum S { Var(Ix, usize, Vec<E>), Sig(Ix, usize, Vec<E>), CallN(Ix, usize, usize, Vec<E>), If(E, Vec<S>, Vec<S>), While(E, Vec<S>), New { t: usize, n: usize, off: usize, jump: usize }, In(Ix, Option<usize>, Ix, Vec<E>), Assert(E), Ret(E), RetN(usize), Log(E) }
#[derive(Clone, Debug)]
struct Fun { name: String, params: Vec<Kind>, ret: Kind, nret: usize, vars: usize, body: Vec<S>, loops: bool, sqrt: bool, pub_only: bool }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Acc { No, Bits(usize), Add(usize), IsZero, Pos(usize) }
#[derive(Clone, Debug)]
struct Templ { name: String, comp: String, acc: Acc, ins: Vec<Kind>, outs: Vec<Kind>, own: usize, size: usize, vars: usize, subs: usize, maps: Vec<usize>, body: Vec<S> }
struct Prog<F: PrimeField> { consts: Vec<F>, funs: Vec<Fun>, templs: Vec<Templ>, inputs: Vec<(String, usize, usize)>, npub: usize, outs: Vec<(String, usize, usize)>, map: Vec<usize> }

// ---- generation -------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct Group { base: usize, len: usize, kind: Kind, public: bool, ready: bool }
#[derive(Clone, Debug)]
struct Comp { first: usize, n: usize, t: usize, mapped: bool }
#[derive(Clone)]
struct Ctx { vars: Vec<Group>, sigs: Vec<Group>, comps: Vec<Comp>, counters: Vec<(usize, usize)>, nvars: usize, shared: bool, in_fun: Option<(Kind, usize)>, loops: bool, subs: usize, assignable: usize, top: bool }
struct G<'a, F: PrimeField> { r: &'a mut Rng, lvl: i64, consts: Vec<F>, funs: Vec<Fun>, templs: Vec<Templ>, depth: usize, budget: i64, asserts: bool, pos: bool }
const REP3: i64 = 0;
const SHAMIR: i64 = 1;
const BATCH: i64 = 2;
fn bits(k: Kind) -> usize { match k { Kind::B => 1, Kind::S(n) => n, Kind::F => usize::MAX } }
/// The calls in indices are of identities.
fn no_calls(e: E) -> E { let f = |mut x: Ix| { for (e, _) in &mut x.dims { if let E::Call(_, a) = e { *e = a[0].clone(); } } x }; match e { E::Var(x) => E::Var(f(x)), E::Sig(x) => E::Sig(f(x)), e => e } }
fn bx(e: E) -> Box<E> { Box::new(e) }
fn at(base: usize) -> Ix { Ix { base, dims: vec![] } }
impl<F: PrimeField + FieldUint> G<'_, F> {
    fn konst(&mut self, v: F) -> E { if let Some(i) = self.consts.iter().position(|x| *x == v) { return E::K(i); } self.consts.push(v); E::K(self.consts.len() - 1) }
    fn num(&mut self, v: u64) -> E { self.konst(F::from(v)) }
    fn rnd(&mut self, k: Kind) -> F { let m = F::MODULUS_BIT_SIZE as usize; match k { Kind::B => F::from(self.r.below(2)), Kind::S(n) => { let b = self.r.usize(0, n.min(m - 1)); let mut v = BigUint::zero(); for _ in 0..b { v = (v << 1usize) + self.r.below(2); } fu(&v) } Kind::F => konst(self.r.next()) } }
    fn lit(&mut self, k: Kind) -> E { let v = self.rnd(k); self.konst(v) }
    /// An index into `len` elements, perhaps by loop counters.
    fn index(&mut self, c: &Ctx, base: usize, len: usize) -> Ix {
        if !c.counters.is_empty() && self.r.chance(2, 3) {
            let mut left = len;
            let mut dims = vec![];
            for (v, bound) in c.counters.clone() {
                if bound > 0 && bound <= left && self.r.chance(2, 3) {
                    let stride = if self.r.chance(1, 2) { 1 } else { (left / bound).max(1) };
                    let e = E::Var(at(v));
                    let f = self.funs.iter().position(|f| f.pub_only);
                    let e = match f { Some(f) if !c.shared && c.in_fun.is_none() && self.r.chance(1, 3) => E::Call(f, vec![e]), _ => e };
                    dims.push((e, stride));
                    left -= (bound - 1) * stride;
                }
            }
            if !dims.is_empty() { return Ix { base: base + self.r.usize(0, left - 1), dims }; }
        }
        at(base + self.r.usize(0, len - 1))
    }
    /// A readable place of a kind that fits; true if certainly public.
    fn place(&mut self, c: &Ctx, k: Kind, public: bool) -> Option<(E, bool, Kind)> {
        let fits = |g: &Group| g.ready && bits(g.kind) <= bits(k) && (!public || g.public);
        let v: Vec<(u8, Group)> = c.vars.iter().filter(|g| fits(g)).map(|g| (0, g.clone())).chain(c.sigs.iter().filter(|g| fits(g)).map(|g| (1, g.clone()))).collect();
        let mut outs: Vec<(usize, usize, Kind, Option<usize>)> = vec![];
        if !public { for cm in &c.comps { let t = &self.templs[cm.t]; for (o, ok) in t.outs.iter().enumerate() { if bits(*ok) <= bits(k) { for i in 0..cm.n { outs.push((cm.first + i, o, *ok, if cm.mapped { Some(0) } else { None })); } } } } }
        let n = v.len() + outs.len().min(4);
        if n == 0 { return None; }
        let i = self.r.below(n as u64) as usize;
        if i >= v.len() { let (s, o, ok, m) = outs[self.r.below(outs.len() as u64) as usize]; return Some((E::Out(Box::new(at(s)), m, at(o)), false, ok)); }
        let (w, g) = v[i].clone();
        let ix = self.index(c, g.base, g.len);
        Some((if w == 0 { E::Var(ix) } else { E::Sig(ix) }, g.public, g.kind))
    }
    fn atom(&mut self, c: &Ctx, k: Kind, public: bool) -> (E, bool) {
        if !c.counters.is_empty() && !matches!(k, Kind::B) && self.r.chance(1, 5) { let (v, b) = c.counters[self.r.below(c.counters.len() as u64) as usize]; if b <= 1 << bits(k).min(20) { return (E::Var(at(v)), true); } }
        if self.r.chance(4, 5) { if let Some((e, p, _)) = self.place(c, k, public) { return (e, p); } }
        (self.lit(k), true)
    }
    /// Not zero, whatever the values.
    fn nonzero(&mut self, c: &Ctx, public: bool, d: usize) -> (E, bool) {
        if self.r.chance(1, 3) { let v = 1 + self.r.logu(1, 1 << 40); let v = match self.r.below(4) { 0 => v.next_power_of_two(), 1 => self.r.below(3) + 1, _ => v }; return (self.num(v), true); }
        let (e, p) = self.expr(c, Kind::S(30), public, d);
        let k = 1 + self.r.logu(1, 100);
        (E::Bin(Bop::Add, bx(e), bx(self.num(k))), p)
    }
    /// An expression of (at most) the kind; true if its value is certainly public.
    fn expr(&mut self, c: &Ctx, k: Kind, public: bool, d: usize) -> (E, bool) {
        self.budget -= 1;
        if d == 0 || self.budget < 0 { return self.atom(c, k, public); }
        let full = self.lvl == REP3;
        // operations that only the replicated machine has on shared values
        let (np, d) = (public || !full, d - 1);
        let cmp = self.lvl != BATCH;
        macro_rules! bin { ($o:ident, $ka:expr, $pa:expr, $kb:expr, $pb:expr) => {{ let (a, p) = self.expr(c, $ka, $pa, d); let (b, q) = self.expr(c, $kb, $pb, d); (E::Bin(Bop::$o, bx(a), bx(b)), p && q) }} }
        let w = self.r.below(20);
        match k {
            Kind::B => match w {
                0..=7 if cmp => {
                    let kk = match self.r.below(4) { 0 => Kind::B, 1 => Kind::S(8), _ => Kind::F };
                    let (a, p) = self.expr(c, kk, np, d);
                    let (b, q) = if self.r.chance(1, 8) { (a.clone(), p) } else { self.expr(c, kk, np, d) };
                    let o = *self.r.pick(&[Bop::Lt, Bop::Le, Bop::Gt, Bop::Ge, Bop::Eq, Bop::Neq]);
                    (E::Bin(o, bx(a), bx(b)), p && q)
                }
                8 | 9 if cmp => {
                    let g: Vec<Group> = c.vars.iter().filter(|g| g.ready && g.len > 1 && (!np || g.public)).cloned().collect();
                    if g.is_empty() { return self.atom(c, k, public); }
                    let (a, b) = (self.r.pick(&g).clone(), self.r.pick(&g).clone());
                    let n = self.r.usize(1, a.len.min(b.len));
                    (E::EqN(n, at(a.base), at(b.base)), a.public && b.public)
                }
                10 | 11 if cmp => bin!(And, Kind::B, public, Kind::B, public),
                12 | 13 if cmp => bin!(Or, Kind::B, public, Kind::B, public),
                14 | 15 => { let (a, p) = self.expr(c, Kind::B, public, d); let one = self.num(1); (E::Bin(Bop::Sub, bx(one), bx(a)), p) }
                16 => bin!(Mul, Kind::B, public, Kind::B, public),
                17 => self.call(c, k, public, d),
                _ => self.atom(c, k, public),
            },
            Kind::S(n) => match w {
                0..=3 if n > 2 => bin!(Add, Kind::S(n - 1), public, Kind::S(n - 1), public),
                4 | 5 if n > 3 => bin!(Mul, Kind::S(n / 2), public, Kind::S(n / 2), public),
                6 if cmp => bin!(BAnd, k, np, k, np),
                7 if cmp => bin!(BOr, k, np, k, np),
                8 if cmp => bin!(BXor, k, np, k, np),
                9 | 10 if cmp => { let (a, p) = self.expr(c, k, np, d); let s = self.r.usize(0, 40); (E::Bin(Bop::Shr, bx(a), bx(self.num(s as u64))), p) }
                11 if cmp => { let (a, p) = self.expr(c, k, np, d); let (b, q) = self.nonzero(c, np, d); (E::Bin(Bop::IDiv, bx(a), bx(b)), p && q) }
                12 if cmp && n > 4 => { let m = 1 + self.r.below(1 << (n - 1).min(30)); let (a, p) = self.expr(c, Kind::F, np, d); (E::Bin(Bop::Mod, bx(a), bx(self.num(m))), p) }
                13 if cmp && n >= 9 && full => { let (b, _) = self.expr(c, Kind::S(3), public, d); (E::Bin(Bop::Shl, bx(self.num(1)), bx(b)), false) }
                14 | 15 => self.expr(c, Kind::B, public, d),
                16 | 17 => self.call(c, k, public, d),
                _ => self.atom(c, k, public),
            },
            Kind::F => match w {
                0 | 1 => bin!(Add, Kind::F, public, Kind::F, public),
                2 | 3 => bin!(Sub, Kind::F, public, Kind::F, public),
                4..=6 => bin!(Mul, Kind::F, public, Kind::F, public),
                7 if cmp => { let (a, p) = self.expr(c, Kind::F, public, d); (E::Neg(bx(a)), p) }
                8 if cmp && !(public && (c.shared || c.in_fun.is_some())) => { let (a, p) = self.expr(c, Kind::F, public, d); let (b, q) = self.nonzero(c, public, d); (E::Bin(Bop::Div, bx(a), bx(b)), p && q && !c.shared && c.in_fun.is_none()) }
                9 if cmp => { let (a, p) = self.expr(c, Kind::F, np, d); let (b, q) = self.nonzero(c, np, d); (E::Bin(if self.r.chance(1, 2) { Bop::IDiv } else { Bop::Mod }, bx(a), bx(b)), p && q) }
                10 if cmp => { let (a, p) = self.expr(c, Kind::F, np, d); let e = match self.r.below(4) { 0 => self.r.below(3), 1 => self.r.logu(1, 1 << 20), _ => self.r.below(12) }; (E::Bin(Bop::Pow, bx(a), bx(self.num(e))), p && e > 0) }
                11 if cmp => { let (a, p) = self.expr(c, Kind::F, np, d); let left = self.r.chance(1, 2); let top = if left { F::MODULUS_BIT_SIZE as usize - 1 } else { 260 }; let s = self.r.usize(0, top); (E::Bin(if left { Bop::Shl } else { Bop::Shr }, bx(a), bx(self.num(s as u64))), p) }
                12 if cmp => bin!(BAnd, Kind::F, np, Kind::F, np),
                13 if cmp => { let o = self.r.chance(1, 2); let (a, p) = self.expr(c, Kind::F, np, d); let kk = if self.r.chance(1, 2) { Kind::F } else { Kind::S(60) }; let (b, q) = self.expr(c, kk, np, d); (E::Bin(if o { Bop::BOr } else { Bop::BXor }, bx(a), bx(b)), p && q) }
                14 => { let n = self_bits(self.r); self.expr(c, Kind::S(n), public, d) },
                15 if full => { match self.funs.iter().position(|f| f.sqrt) { Some(f) => { let (a, _) = self.atom(c, Kind::F, public); (E::Call(f, vec![E::Bin(Bop::Mul, bx(a.clone()), bx(a))]), false) } None => self.atom(c, k, public) } }
                16 | 17 => self.call(c, k, public, d),
                _ => self.atom(c, k, public),
            },
        }
    }
    fn call(&mut self, c: &Ctx, k: Kind, public: bool, d: usize) -> (E, bool) {
        let v: Vec<usize> = (0..self.funs.len()).filter(|&i| { let f = &self.funs[i]; !public && !f.sqrt && !f.pub_only && f.nret == 1 && bits(f.ret) <= bits(k) && !((f.loops || self.lvl == SHAMIR) && (c.shared || c.in_fun.is_some())) }).collect();
        if v.is_empty() { return self.atom(c, k, public); }
        let f = *self.r.pick(&v);
        let a = self.args(c, f, d);
        (E::Call(f, a), false)
    }
    fn args(&mut self, c: &Ctx, f: usize, d: usize) -> Vec<E> { let ps = self.funs[f].params.clone(); ps.iter().map(|k| self.expr(c, *k, false, d.min(1)).0).collect() }
    fn kind(&mut self) -> Kind { match self.r.below(7) { 0 | 1 => Kind::B, 2 => Kind::S(8), 3 => Kind::S(40), _ => Kind::F } }
    fn new_var(&mut self, c: &mut Ctx, kind: Kind, len: usize) -> usize { let base = c.nvars; c.nvars += len; c.vars.push(Group { base, len, kind, public: true, ready: true }); c.vars.len() - 1 }
    /// Statements; the context describes what is known afterwards.
    fn block(&mut self, c: &mut Ctx, n: usize, depth: usize) -> Vec<S> {
        let mut v = vec![];
        for _ in 0..n { if self.budget < 0 { break; } self.stmt(c, depth, &mut v); }
        v
    }
    fn stmt(&mut self, c: &mut Ctx, depth: usize, out: &mut Vec<S>) {
        self.budget -= 1;
        let ed = self.r.usize(0, 1 + self.depth);
        match self.r.below(24) {
            0..=5 => self.set_var(c, ed, out),
            6..=9 if c.assignable > 0 => {
                let i = self.r.below(c.assignable as u64) as usize;
                let g = c.sigs[i].clone();
                // signals are assigned once, before they are read, except that a shared branch may change them
                if g.ready != c.shared { return self.set_var(c, ed, out); }
                let (n, ix) = if !c.shared || self.r.chance(1, 2) { (g.len, at(g.base)) } else { (1, self.index(c, g.base, g.len)) };
                let mut p = !c.shared;
                let es = (0..n).map(|_| { let (e, q) = self.expr(c, g.kind, false, ed); p &= q; e }).collect();
                out.push(S::Sig(ix, n, es));
                c.sigs[i].ready = true;
                c.sigs[i].public = p;
            }
            10..=13 if depth > 0 => {
                // a branch
                let want_pub = self.lvl == BATCH || self.r.chance(1, 3);
                let (e, p) = self.expr(c, Kind::B, want_pub, ed.max(1));
                if !p && self.lvl == BATCH { return; }
                let mut a = c.clone();
                let mut b = c.clone();
                a.shared |= !p; b.shared |= !p; a.top = false; b.top = false;
                let n = self.r.usize(1, 3);
                let mut x = self.block(&mut a, n, depth - 1);
                if b.shared { for (q, p) in b.vars.iter_mut().zip(&a.vars) { q.public &= p.public; } for (q, p) in b.sigs.iter_mut().zip(&a.sigs) { q.public &= p.public; } }
                let both = self.r.chance(1, 2);
                let n = self.r.usize(1, 2);
                let mut y = if both { self.block(&mut b, n, depth - 1) } else { vec![] };
                if let Some((rk, nr)) = c.in_fun { if self.r.chance(1, 2) { self.ret(&a, rk, nr, &mut x); } if both && self.r.chance(1, 4) { self.ret(&b, rk, nr, &mut y); } }
                // a division that is only reached when it is possible
                if self.lvl != BATCH && self.r.chance(1, 6) { if let (Some((e, p, _)), Some(i)) = (self.place(c, Kind::F, false), self.var_of(c, Kind::F)) {
                    let z = self.num(0);
                    let g = c.vars[i].clone();
                    if self.lvl == REP3 || p { let num = no_calls(self.atom(&a, Kind::F, false).0); let e = no_calls(e); out.push(S::If(E::Bin(Bop::Neq, bx(e.clone()), bx(z)), vec![S::Var(at(g.base), 1, vec![E::Bin(Bop::Div, bx(num), bx(e))])], vec![])); c.vars[i].public = false; return; }
                } }
                if x.is_empty() { return; }
                out.push(S::If(e, x, y));
                self.merge(c, &a, &b);
            }
            14 | 15 if depth > 0 && !c.shared && c.loops => {
                // a loop over a counter
                let bound = self.r.usize(0, 4);
                let i = self.new_var(c, Kind::S(8), 1);
                let base = c.vars[i].base;
                c.vars[i].ready = false; // only read through `counters`
                let zero = self.num(0);
                out.push(S::Var(at(base), 1, vec![zero]));
                for g in c.vars.iter_mut().chain(c.sigs.iter_mut()) { g.public = false; }
                let mut b = c.clone();
                b.top = false;
                b.counters.push((base, bound));
                let n = self.r.usize(1, 3);
                let mut body = self.block(&mut b, n, depth - 1);
                if let Some((rk, nr)) = c.in_fun { if self.r.chance(1, 4) { let (e, p) = self.expr(&b, Kind::B, self.lvl == BATCH, 1); if p || self.lvl != BATCH { let mut x = vec![]; let mut b2 = b.clone(); b2.shared |= !p; self.ret(&b2, rk, nr, &mut x); body.push(S::If(e, x, vec![])); } } }
                let one = self.num(1);
                body.push(S::Var(at(base), 1, vec![E::Bin(Bop::Add, bx(E::Var(at(base))), bx(one))]));
                let lim = self.num(bound as u64);
                out.push(S::While(E::Bin(Bop::Lt, bx(E::Var(at(base))), bx(lim)), body));
                // what the body may have done any number of times
                c.nvars = c.nvars.max(b.nvars);
                c.subs = c.subs.max(b.subs);
            }
            16..=18 if c.top && !self.templs.is_empty() => self.comp(c, ed, out),
            19 | 20 => {
                // an array result
                let v: Vec<usize> = (0..self.funs.len()).filter(|&i| self.funs[i].nret > 1 && !((self.funs[i].loops || self.lvl == SHAMIR) && (c.shared || c.in_fun.is_some()))).collect();
                if v.is_empty() { return self.set_var(c, ed, out); }
                let f = *self.r.pick(&v);
                let (k, n) = (self.funs[f].ret, self.funs[f].nret);
                let Some(i) = (0..c.vars.len()).find(|&i| c.vars[i].ready && c.vars[i].kind == k && c.vars[i].len == n) else { return self.set_var(c, ed, out) };
                let a = self.args(c, f, ed);
                out.push(S::CallN(at(c.vars[i].base), n, f, a));
                c.vars[i].public = false;
            }
            21 if self.asserts => {
                let mut p = self.lvl != REP3;
                if c.shared && self.lvl == SHAMIR { p = true; }
                let (e, q) = self.expr(c, Kind::B, p, ed);
                if self.lvl == SHAMIR && (c.shared || !q) || self.lvl == BATCH { return; }
                // mostly one that holds
                let one = self.num(1);
                let e = if self.r.chance(9, 10) { let n = E::Bin(Bop::Sub, bx(one), bx(e.clone())); E::Bin(Bop::Or, bx(e), bx(n)) } else { e };
                out.push(S::Assert(e));
            }
            22 => { let e = self.atom(c, Kind::F, false).0; out.push(S::Log(e)); }
            _ => self.set_var(c, ed, out),
        }
    }
    fn var_of(&mut self, c: &Ctx, k: Kind) -> Option<usize> { let v: Vec<usize> = (0..c.vars.len()).filter(|&i| c.vars[i].kind == k && c.vars[i].ready).collect(); if v.is_empty() { None } else { Some(*self.r.pick(&v)) } }
    fn set_var(&mut self, c: &mut Ctx, ed: usize, out: &mut Vec<S>) {
        let v: Vec<usize> = (0..c.vars.len()).filter(|&i| c.vars[i].ready).collect();
        if v.is_empty() { return; }
        let i = *self.r.pick(&v);
        let g = c.vars[i].clone();
        let (n, ix) = if g.len > 1 && self.r.chance(1, 3) { (g.len, at(g.base)) } else { (1, self.index(c, g.base, g.len)) };
        let mut p = !c.shared;
        let es: Vec<E> = (0..n).map(|_| { let (e, q) = self.expr(c, g.kind, false, ed); p &= q; e }).collect();
        out.push(S::Var(ix, n, es));
        c.vars[i].public = p && (n == g.len || g.public);
    }
    fn ret(&mut self, c: &Ctx, k: Kind, n: usize, out: &mut Vec<S>) {
        if n == 1 { let (e, _) = self.expr(c, k, false, 1); out.push(S::Ret(e)); return; }
        if let Some(i) = (0..c.vars.len()).filter(|&i| c.vars[i].kind == k && c.vars[i].len >= n && c.vars[i].ready).collect::<Vec<_>>().first().copied() { let g = &c.vars[i]; let off = self.r.usize(0, g.len - n); out.push(S::RetN(g.base + off)); }
    }
    fn merge(&mut self, c: &mut Ctx, a: &Ctx, b: &Ctx) {
        for (i, g) in c.vars.iter_mut().enumerate() { g.public = a.vars[i].public && b.vars[i].public; }
        for (i, g) in c.sigs.iter_mut().enumerate() { g.public = a.sigs[i].public && b.sigs[i].public; g.ready = a.sigs[i].ready && b.sigs[i].ready; }
        c.nvars = a.nvars.max(b.nvars);
    }
    fn comp(&mut self, c: &mut Ctx, ed: usize, out: &mut Vec<S>) {
        let t = self.r.below(self.templs.len() as u64) as usize;
        let tm = self.templs[t].clone();
        let n = if self.r.chance(1, 3) { self.r.usize(2, 3) } else { 1 };
        let first = c.subs;
        c.subs += n;
        let mapped = !tm.maps.is_empty() && self.r.chance(1, 2);
        out.push(S::New { t, n, off: usize::MAX, jump: tm.size });
        let ni = tm.ins.len();
        let no = tm.outs.len();
        let val = |s: &mut Self, k: Kind, w: usize, c: &Ctx| (0..w).map(|_| s.expr(c, k, s.lvl == SHAMIR && matches!(tm.acc, Acc::Bits(_) | Acc::IsZero | Acc::Add(_)), ed).0).collect::<Vec<_>>();
        // equal inputs to all by a loop over the component's number, or one by one
        if n > 1 && c.loops && ni > 0 && self.r.chance(1, 2) && !mapped {
            let i = self.new_var(c, Kind::S(8), 1);
            let base = c.vars[i].base;
            c.vars[i].ready = false;
            let (zero, one, lim) = (self.num(0), self.num(1), self.num(n as u64));
            let mut b = c.clone();
            for g in &mut b.vars { g.public = false; }
            b.counters.push((base, n));
            let mut body = vec![];
            for (i, k) in tm.ins.iter().enumerate() { let e = val(self, *k, 1, &b); body.push(S::In(Ix { base: first, dims: vec![(E::Var(at(base)), 1)] }, None, at(no + i), e)); }
            body.push(S::Var(at(base), 1, vec![E::Bin(Bop::Add, bx(E::Var(at(base))), bx(one))]));
            out.push(S::Var(at(base), 1, vec![zero]));
            out.push(S::While(E::Bin(Bop::Lt, bx(E::Var(at(base))), bx(lim)), body));
        } else {
            for s in first..first + n {
                let mut i = 0;
                while i < ni {
                    let w = if self.r.chance(1, 2) && tm.ins[i..].iter().all(|k| *k == tm.ins[i]) { ni - i } else { 1 };
                    let e = val(self, tm.ins[i], w, c);
                    // through the map: entry 0 is the outputs' offset, entry 1 the inputs'
                    out.push(if mapped { S::In(at(s), Some(1), at(i), e) } else { S::In(at(s), None, at(no + i), e) });
                    i += w;
                    if self.r.chance(1, 4) { self.set_var(c, 1, out); }
                }
            }
        }
        c.comps.push(Comp { first, n, t, mapped });
    }
    fn fun(&mut self, i: usize, stmts: usize) {
        let np = self.r.usize(1, 3);
        let params: Vec<Kind> = (0..np).map(|_| self.kind()).collect();
        let mut c = Ctx { vars: vec![], sigs: vec![], comps: vec![], counters: vec![], nvars: 0, shared: false, in_fun: None, loops: self.r.chance(1, 2), subs: 0, assignable: 0, top: false };
        for k in &params { let i = self.new_var(&mut c, *k, 1); c.vars[i].public = false; }
        let ret = self.kind();
        let nret = if self.r.chance(1, 3) { self.r.usize(2, 3) } else { 1 };
        for _ in 0..self.r.usize(0, 2) { let k = self.kind(); let l = if self.r.chance(1, 3) { self.r.usize(2, 5) } else { 1 }; self.new_var(&mut c, k, l); }
        if nret > 1 { let l = nret + self.r.usize(0, 1); self.new_var(&mut c, ret, l); }
        c.in_fun = Some((ret, nret));
        self.budget = 10 + 6 * stmts as i64;
        let (a, loops) = (self.asserts, c.loops);
        let depth = 2;
        let mut body = self.block(&mut c, stmts, depth);
        self.asserts = a;
        self.ret(&c, ret, nret, &mut body);
        self.funs.push(Fun { name: format!("fun_{i}"), params, ret, nret, vars: c.nvars, body, loops, sqrt: false, pub_only: false });
    }
    /// A template with `ins` inputs; `None` for an accelerated one.
    fn templ(&mut self, name: &str, ins: Vec<(Kind, bool)>, nout: usize, nmid: usize, stmts: usize) -> Templ {
        let ni = ins.len();
        let mut c = Ctx { vars: vec![], sigs: vec![], comps: vec![], counters: vec![], nvars: 0, shared: false, in_fun: None, loops: true, subs: 0, assignable: 0, top: true };
        let outs: Vec<Kind> = (0..nout).map(|_| self.kind()).collect();
        for (i, k) in outs.iter().enumerate() { c.sigs.push(Group { base: i, len: 1, kind: *k, public: false, ready: false }); }
        // inputs as read-only groups: equal neighbours form arrays
        let mut i = 0;
        let mut inputs = vec![];
        while i < ni { let mut l = 1; while i + l < ni && ins[i + l] == ins[i] && self.r.chance(2, 3) { l += 1; } inputs.push(Group { base: nout + i, len: l, kind: ins[i].0, public: ins[i].1, ready: true }); i += l; }
        let mut b = nout + ni;
        let mut left = nmid;
        while left > 0 { let l = self.r.usize(1, left.min(4)); let kind = self.kind(); c.sigs.push(Group { base: b, len: l, kind, public: false, ready: false }); b += l; left -= l; }
        let own = b;
        for _ in 0..self.r.usize(1, 4) { let k = self.kind(); let l = if self.r.chance(1, 3) { self.r.usize(2, 6) } else { 1 }; self.new_var(&mut c, k, l); }
        c.assignable = c.sigs.len();
        c.sigs.extend(inputs);
        self.budget = 30 + 14 * stmts as i64;
        let depth = self.depth;
        let mut body = self.block(&mut c, stmts, depth);
        self.budget = self.budget.max(12);
        for i in 0..c.assignable { if !c.sigs[i].ready { let g = c.sigs[i].clone(); let mut p = true; let ed = self.r.usize(0, 2); let es = (0..g.len).map(|_| { let (e, q) = self.expr(&c, g.kind, false, ed); p &= q; e }).collect(); body.push(S::Sig(at(g.base), g.len, es)); c.sigs[i].ready = true; c.sigs[i].public = p; } }
        // sub-components live behind the own signals
        let mut size = own;
        place_subs(&mut body, &self.templs, &mut size);
        Templ { name: name.into(), comp: name.into(), acc: Acc::No, ins: ins.iter().map(|x| x.0).collect(), outs, own, size, vars: c.nvars, subs: c.subs, maps: vec![0, nout], body }
    }
}
fn self_bits(r: &mut Rng) -> usize { *r.pick(&[1, 4, 8, 20, 40, 64, 90]) }
fn place_subs(b: &mut [S], t: &[Templ], size: &mut usize) {
    for s in b { match s { S::New { t: i, n, off, .. } => { *off = *size; *size += t[*i].size * *n; } S::If(_, x, y) => { place_subs(x, t, size); place_subs(y, t, size); } S::While(_, x) => place_subs(x, t, size), _ => {} } }
}

// ---- interpreter ----------------------------------------------------------------------------------------
struct Frame<F> { vars: Vec<F>, off: usize, comps: Vec<(usize, usize, usize)>, nret: usize }
struct Run<'a, F: PrimeField> { p: &'a Prog<F>, sig: Vec<F>, asserts: u64, branches: [u64; 2], steps: u64 }
fn big<F: FieldUint>(x: F) -> BigUint { bz(x.to_uint()) }
fn flag<F: PrimeField>(b: bool) -> F { if b { F::one() } else { F::zero() } }
/// Position of an element when the upper half of the field counts as negative numbers.
fn signed<F: PrimeField + FieldUint>(x: F) -> (bool, BigUint) { let v = big(x); let m: BigUint = F::MODULUS.into(); let half = &m >> 1usize; (v <= half, v) }
fn apply<F: PrimeField + FieldUint>(o: Bop, a: F, b: F) -> Result<F, String> {
    let small = |x: F| -> usize { let v = big(x); if v > BigUint::from(100_000u64) { 100_000 } else { v.try_into().unwrap() } };
    Ok(match o {
        Bop::Add => a + b, Bop::Sub => a - b, Bop::Mul => a * b,
        Bop::Div => a * b.inverse().ok_or("(gen) division by zero")?,
        Bop::IDiv => { if b.is_zero() { return Err("(gen) division by zero".into()); } fu(&(big(a) / big(b))) }
        Bop::Mod => { if b.is_zero() { return Err("(gen) division by zero".into()); } fu(&(big(a) % big(b))) }
        Bop::Pow => a.pow(b.into_bigint()),
        Bop::Shl => a * F::from(2u64).pow([small(b) as u64]),
        Bop::Shr => fu(&(big(a) >> small(b))),
        Bop::Lt => flag(signed(a) < signed(b)), Bop::Le => flag(signed(a) <= signed(b)), Bop::Gt => flag(signed(a) > signed(b)), Bop::Ge => flag(signed(a) >= signed(b)),
        Bop::Eq => flag(a == b), Bop::Neq => flag(a != b),
        Bop::And => flag(a.is_one() && b.is_one()), Bop::Or => flag(a.is_one() || b.is_one()),
        Bop::BAnd => fu(&(big(a) & big(b))), Bop::BOr => fu(&(big(a) | big(b))), Bop::BXor => fu(&(big(a) ^ big(b))),
    })
}
impl<F: PrimeField + FieldUint> Run<'_, F> {
    fn ix(&mut self, x: &Ix, f: &mut Frame<F>) -> Result<usize, String> { let mut i = x.base; for (e, s) in &x.dims { let v: usize = big(self.ev(e, f)?).try_into().map_err(|_| "(gen) index")?; i += v * s; } Ok(i) }
    fn ev(&mut self, e: &E, f: &mut Frame<F>) -> Result<F, String> {
        Ok(match e {
            E::K(i) => self.p.consts[*i],
            E::Var(x) => { let i = self.ix(x, f)?; f.vars[i] }
            E::Sig(x) => { let i = self.ix(x, f)?; self.sig[f.off + i] }
            E::Out(c, _, x) => { let c = self.ix(c, f)?; let i = self.ix(x, f)?; self.sig[f.comps[c].1 + i] }
            E::Neg(a) => -self.ev(a, f)?,
            E::Bin(o, a, b) => { let (a, b) = (self.ev(a, f)?, self.ev(b, f)?); apply(*o, a, b)? }
            E::EqN(n, a, b) => { let (a, b) = (self.ix(a, f)?, self.ix(b, f)?); flag(f.vars[a..a + n] == f.vars[b..b + n]) }
            E::Call(i, a) => self.call(*i, a, f)?[0],
        })
    }
    fn call(&mut self, i: usize, a: &[E], f: &mut Frame<F>) -> Result<Vec<F>, String> {
        let p = self.p;
        let fun = &p.funs[i];
        let mut v = vec![];
        for e in a { v.push(self.ev(e, f)?); }
        if fun.sqrt { let r = v[0].sqrt().ok_or("(gen) no square root")?; return Ok(vec![if signed(r).0 { r } else { -r }]); }
        v.resize(fun.vars.max(v.len()), F::zero());
        let mut g = Frame { vars: v, off: 0, comps: vec![], nret: fun.nret };
        self.block(&fun.body, &mut g)?.ok_or("(gen) function without result".into())
    }
    fn block(&mut self, b: &[S], f: &mut Frame<F>) -> Result<Option<Vec<F>>, String> {
        for s in b { if let Some(r) = self.stmt(s, f)? { return Ok(Some(r)); } }
        Ok(None)
    }
    fn stmt(&mut self, s: &S, f: &mut Frame<F>) -> Result<Option<Vec<F>>, String> {
        self.steps += 1;
        match s {
            S::Var(x, _, es) => { let mut v = vec![]; for e in es { v.push(self.ev(e, f)?); } let i = self.ix(x, f)?; f.vars[i..i + v.len()].copy_from_slice(&v); }
            S::Sig(x, _, es) => { let mut v = vec![]; for e in es { v.push(self.ev(e, f)?); } let i = f.off + self.ix(x, f)?; self.sig[i..i + v.len()].copy_from_slice(&v); }
            S::CallN(x, n, i, a) => { let v = self.call(*i, a, f)?; let j = self.ix(x, f)?; f.vars[j..j + n].copy_from_slice(&v[..*n]); }
            S::If(e, x, y) => { let c = !self.ev(e, f)?.is_zero(); self.branches[c as usize] += 1; return self.block(if c { x } else { y }, f); }
            S::While(e, x) => { while !self.ev(e, f)?.is_zero() { if let Some(r) = self.block(x, f)? { return Ok(Some(r)); } } }
            S::New { t, n, off, jump } => { for k in 0..*n { let o = f.off + off + k * jump; f.comps.push((*t, o, 0)); if self.p.templs[*t].ins.is_empty() { self.component(*t, o)?; } } }
            S::In(c, m, x, es) => {
                let mut v = vec![]; for e in es { v.push(self.ev(e, f)?); }
                let (c, mut i) = (self.ix(c, f)?, self.ix(x, f)?);
                let (t, o, given) = f.comps[c];
                if let Some(m) = m { i += self.p.templs[t].maps[*m]; }
                self.sig[o + i..o + i + v.len()].copy_from_slice(&v);
                f.comps[c].2 = given + v.len();
                if f.comps[c].2 == self.p.templs[t].ins.len() { self.component(t, o)?; }
            }
            S::Assert(e) => { self.asserts += 1; if self.ev(e, f)?.is_zero() { return Err("Assertion".into()); } }
            S::Ret(e) => return Ok(Some(vec![self.ev(e, f)?])),
            S::RetN(i) => { let mut v = f.vars[*i..].to_vec(); v.resize(f.nret, F::zero()); return Ok(Some(v)); }
            S::Log(e) => { self.ev(e, f)?; }
        }
        Ok(None)
    }
    fn component(&mut self, t: usize, off: usize) -> Result<(), String> {
        let p = self.p;
        let t = &p.templs[t];
        let (no, ni) = (t.outs.len(), t.ins.len());
        let x: Vec<F> = self.sig[off + no..off + no + ni].to_vec();
        let put = |s: &mut Self, o: Vec<F>, m: Vec<F>| { s.sig[off..off + o.len()].copy_from_slice(&o); s.sig[off + no + ni..off + no + ni + m.len()].copy_from_slice(&m); };
        match t.acc {
            Acc::No => { let mut f = Frame { vars: vec![F::zero(); t.vars], off, comps: vec![], nret: 0 }; self.block(&t.body, &mut f)?; }
            Acc::Bits(n) => { let v = big(x[0]); put(self, (0..n).map(|i| flag(v.bit(i as u64))).collect(), vec![]); }
            Acc::Add(n) => {
                let num = |x: &[F]| x.iter().fold(BigUint::zero(), |a, b| (a << 1usize) + big(*b));
                let s = num(&x[..n]) + num(&x[n..]);
                put(self, (0..n).rev().map(|i| flag(s.bit(i as u64))).collect(), vec![flag(s.bit(n as u64))]);
            }
            Acc::IsZero => { let z = x[0].is_zero(); put(self, vec![flag(z)], vec![x[0].inverse().unwrap_or(F::zero())]); }
            Acc::Pos(_) => { let (o, m) = poseidon(&x); put(self, o, m); }
        }
        Ok(())
    }
}
fn poseidon<F: PrimeField>(x: &[F]) -> (Vec<F>, Vec<F>) {
    fn go<F: PrimeField, const T: usize>(x: &[F]) -> (Vec<F>, Vec<F>) { let p = Poseidon2::<F, T, 5>::default(); let (o, m) = p.plain_permutation_intermediate(std::array::from_fn(|i| x[i])).expect("trace"); (o.to_vec(), m.to_vec()) }
    match x.len() { 2 => go::<F, 2>(x), 3 => go::<F, 3>(x), 4 => go::<F, 4>(x), _ => go::<F, 16>(x) }
}

// ---- code, as the compiler emits it -----------------------------------------------------------------------
fn c_ix<F: PrimeField>(p: &Prog<F>, x: &Ix, o: &mut CodeBlock) {
    o.push(O::PushIndex(x.base));
    for (e, s) in &x.dims { if *s != 1 { o.push(O::PushIndex(*s)); } c_e(p, e, o); o.push(O::ToIndex); if *s != 1 { o.push(O::MulIndex); } o.push(O::AddIndex); }
}
fn c_e<F: PrimeField>(p: &Prog<F>, e: &E, o: &mut CodeBlock) {
    match e {
        E::K(i) => o.push(O::PushConstant(*i)),
        E::Var(x) => { c_ix(p, x, o); o.push(O::LoadVars(1)); }
        E::Sig(x) => { c_ix(p, x, o); o.push(O::LoadSignals(1)); }
        E::Out(c, m, x) => { c_ix(p, x, o); c_ix(p, c, o); o.push(O::OutputSubComp(m.is_some(), m.unwrap_or(0), 1)); }
        E::Neg(a) => { c_e(p, a, o); o.push(O::Neg); }
        E::Bin(b, x, y) => { c_e(p, x, o); c_e(p, y, o); o.push(match b { Bop::Add => O::Add, Bop::Sub => O::Sub, Bop::Mul => O::Mul, Bop::Div => O::Div, Bop::IDiv => O::IntDiv, Bop::Mod => O::Mod, Bop::Pow => O::Pow, Bop::Shl => O::ShiftL, Bop::Shr => O::ShiftR, Bop::Lt => O::Lt, Bop::Le => O::Le, Bop::Gt => O::Gt, Bop::Ge => O::Ge, Bop::Eq => O::Eq(1), Bop::Neq => O::Neq, Bop::And => O::BoolAnd, Bop::Or => O::BoolOr, Bop::BAnd => O::BitAnd, Bop::BOr => O::BitOr, Bop::BXor => O::BitXOr }); }
        E::EqN(n, a, b) => { c_ix(p, a, o); o.push(O::LoadVars(*n)); c_ix(p, b, o); o.push(O::LoadVars(*n)); o.push(O::Eq(*n)); }
        E::Call(..) => unreachable!(),
    }
}
fn c_block<F: PrimeField>(p: &Prog<F>, b: &[S]) -> CodeBlock { let mut o = vec![]; for s in b { c_s(p, s, &mut o); } o }
fn c_s<F: PrimeField>(p: &Prog<F>, s: &S, o: &mut CodeBlock) {
    match s {
        S::Var(x, n, es) => { for e in es { c_e(p, e, o); } c_ix(p, x, o); o.push(O::StoreVars(*n)); }
        S::Sig(x, n, es) => { for e in es { c_e(p, e, o); } c_ix(p, x, o); o.push(O::StoreSignals(*n)); }
        S::CallN(x, n, f, a) => { for e in a { c_e(p, e, o); } o.push(O::Call(p.funs[*f].name.clone(), p.funs[*f].nret)); c_ix(p, x, o); o.push(O::StoreVars(*n)); }
        S::If(e, x, y) => {
            c_e(p, e, o);
            let t = c_block(p, x);
            o.push(O::If(t.len() + 2));
            o.extend(t);
            if y.is_empty() { o.push(O::EndTruthyBranch(0)); } else { let f = c_block(p, y); o.push(O::EndTruthyBranch(f.len() + 2)); o.extend(f); o.push(O::EndFalsyBranch); }
        }
        S::While(e, x) => { let start = o.len(); c_e(p, e, o); let pl = o.len() - start; let b = c_block(p, x); o.push(O::JumpIfFalse(b.len() + 2)); let bl = b.len(); o.extend(b); o.push(O::JumpBack(bl + pl + 1)); }
        S::New { t, n, off, jump } => { o.push(O::PushIndex(*off)); o.push(O::PushIndex(*jump)); o.push(O::CreateCmp(p.templs[*t].name.clone(), *n)); }
        S::In(c, m, x, es) => { for e in es { c_e(p, e, o); } c_ix(p, x, o); c_ix(p, c, o); o.push(O::InputSubComp(m.is_some(), m.unwrap_or(0), es.len())); }
        S::Assert(e) => { c_e(p, e, o); o.push(O::Assert(7)); }
        S::Ret(e) => { c_e(p, e, o); o.push(O::ReturnFun); }
        S::RetN(i) => { o.push(O::PushIndex(*i)); o.push(O::ReturnFun); }
        S::Log(e) => { o.push(O::LogString(0)); c_e(p, e, o); o.push(O::Log); o.push(O::LogFlush(1)); }
    }
}
/// The front end has calls stand alone: each one inside an expression moves into a fresh variable before the statement.
struct Hoist { next: usize, pre: Vec<S> }
impl Hoist {
    fn ix(&mut self, x: &Ix) -> Ix { Ix { base: x.base, dims: x.dims.iter().map(|(e, s)| (self.e(e), *s)).collect() } }
    fn es(&mut self, e: &[E]) -> Vec<E> { e.iter().map(|e| self.e(e)).collect() }
    fn e(&mut self, e: &E) -> E {
        match e {
            E::K(_) => e.clone(),
            E::Var(x) => E::Var(self.ix(x)),
            E::Sig(x) => E::Sig(self.ix(x)),
            E::Out(c, m, x) => { let x = self.ix(x); E::Out(Box::new(self.ix(c)), *m, x) }
            E::Neg(a) => E::Neg(bx(self.e(a))),
            E::Bin(b, x, y) => { let x = self.e(x); E::Bin(*b, bx(x), bx(self.e(y))) }
            E::EqN(n, a, b) => { let a = self.ix(a); E::EqN(*n, a, self.ix(b)) }
            E::Call(f, a) => { let a = self.es(a); let t = self.next; self.next += 1; self.pre.push(S::CallN(at(t), 1, *f, a)); E::Var(at(t)) }
        }
    }
    fn block(&mut self, b: &[S]) -> Vec<S> {
        let mut out = vec![];
        for s in b {
            let outer = std::mem::take(&mut self.pre);
            let s = match s {
                S::Var(x, n, es) => { let es = self.es(es); S::Var(self.ix(x), *n, es) }
                S::Sig(x, n, es) => { let es = self.es(es); S::Sig(self.ix(x), *n, es) }
                S::CallN(x, n, f, a) => { let a = self.es(a); S::CallN(self.ix(x), *n, *f, a) }
                S::If(e, x, y) => { let e = self.e(e); let pre = std::mem::take(&mut self.pre); let x = self.block(x); let y = self.block(y); self.pre = pre; S::If(e, x, y) }
                S::While(e, x) => { let e = self.e(e); let pre = std::mem::take(&mut self.pre); let mut x = self.block(x); x.extend(pre.iter().cloned()); self.pre = pre; S::While(e, x) }
                S::In(c, m, x, es) => { let es = self.es(es); let c = self.ix(c); S::In(c, *m, self.ix(x), es) }
                S::Assert(e) => S::Assert(self.e(e)),
                S::Ret(e) => S::Ret(self.e(e)),
                S::Log(e) => S::Log(self.e(e)),
                S::New { .. } | S::RetN(_) => s.clone(),
            };
            out.append(&mut self.pre);
            out.push(s);
            self.pre = outer;
        }
        out
    }
}
fn hoist(b: &[S], vars: usize) -> (Vec<S>, usize) { let mut h = Hoist { next: vars, pre: vec![] }; let b = h.block(b); (b, h.next) }
fn code<F: PrimeField>(p: &Prog<F>) -> CoCircomCompilerParsed<F> {
    let funs: HashMap<String, FunDecl> = p.funs.iter().map(|f| { let (b, vars) = hoist(&f.body, f.vars); let mut b = c_block(p, &b); b.push(O::ReturnSharedIfFun); (f.name.clone(), FunDecl::new(f.params.len(), vars, b)) }).collect();
    let templs: HashMap<String, TemplateDecl> = p.templs.iter().map(|t| { let (b, vars) = hoist(&t.body, t.vars); let mut b = c_block(p, &b); b.push(O::Return); (t.name.clone(), TemplateDecl::new(t.name.clone(), t.comp.clone(), t.ins.len(), t.outs.len(), t.subs, vars, t.maps.clone(), b)) }).collect();
    let m = p.templs.last().unwrap();
    let outs: HashMap<String, (usize, usize)> = p.outs.iter().map(|(n, o, l)| (n.clone(), (*o, *l))).collect();
    CoCircomCompilerParsed::new(m.name.clone(), 1 + m.size, p.consts.clone(), vec!["log".into()], funs, templs, p.map.clone(), m.ins.len(), m.outs.len(), p.inputs.clone(), outs, vec![])
}

fn show<F: PrimeField>(p: &Prog<F>, vals: &[F]) -> String {
    fn ix(x: &Ix) -> String { let mut s = x.base.to_string(); for (a, k) in &x.dims { s += &format!("+{k}*{}", e(a)); } s }
    fn e(x: &E) -> String { match x { E::K(i) => format!("c{i}"), E::Var(x) => format!("v[{}]", ix(x)), E::Sig(x) => format!("s[{}]", ix(x)), E::Out(c, m, x) => format!("comp{}.{m:?}[{}]", ix(c), ix(x)), E::Neg(a) => format!("-{}", e(a)), E::Bin(b, x, y) => format!("({} {b:?} {})", e(x), e(y)), E::EqN(n, a, b) => format!("eq{n}({}, {})", ix(a), ix(b)), E::Call(f, a) => format!("f{f}({})", es(a)) } }
    fn es(x: &[E]) -> String { x.iter().map(e).collect::<Vec<_>>().join(", ") }
    fn ss(b: &[S], d: usize, o: &mut String) {
        for s in b {
            let pad = " ".repeat(2 * d);
            *o += &match s {
                S::Var(x, n, a) => format!("{pad}v[{}]:{n} = {}\n", ix(x), es(a)),
                S::Sig(x, n, a) => format!("{pad}s[{}]:{n} <-- {}\n", ix(x), es(a)),
                S::CallN(x, n, f, a) => format!("{pad}v[{}]:{n} = f{f}({})\n", ix(x), es(a)),
                S::If(c, x, y) => { let mut t = format!("{pad}if {} {{\n", e(c)); ss(x, d + 1, &mut t); if !y.is_empty() { t += &format!("{pad}}} else {{\n"); ss(y, d + 1, &mut t); } t + &format!("{pad}}}\n") }
                S::While(c, x) => { let mut t = format!("{pad}while {} {{\n", e(c)); ss(x, d + 1, &mut t); t + &format!("{pad}}}\n") }
                S::New { t, n, off, jump } => format!("{pad}new T{t} x{n} at {off} step {jump}\n"),
                S::In(c, m, x, a) => format!("{pad}comp{}.{m:?}[{}] <-- {}\n", ix(c), ix(x), es(a)),
                S::Assert(a) => format!("{pad}assert {}\n", e(a)),
                S::Ret(a) => format!("{pad}return {}\n", e(a)),
                S::RetN(i) => format!("{pad}return v[{i}..]\n"),
                S::Log(a) => format!("{pad}log {}\n", e(a)),
            };
        }
    }
    let mut o = String::new();
    for (i, k) in p.consts.iter().enumerate() { o += &format!("c{i} = {k}\n"); }
    for (i, f) in p.funs.iter().enumerate() { o += &format!("function f{i} {}({:?}) -> {:?}*{} {}\n", f.name, f.params, f.ret, f.nret, if f.sqrt { "sqrt" } else { "" }); ss(&f.body, 1, &mut o); }
    for (i, t) in p.templs.iter().enumerate() { o += &format!("template T{i} {} {:?} in {:?} out {:?}\n", t.name, t.acc, t.ins, t.outs); ss(&t.body, 1, &mut o); }
    o += &format!("inputs {:?}, {} public, values {}\n", p.inputs, p.npub, vals.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "));
    o
}

// ---- whole programs -----------------------------------------------------------------------------------------
struct Case<F: PrimeField> { prog: Prog<F>, /// kind and publicness of each input signal
    ins: Vec<(Kind, bool)>, vals: Vec<Vec<F>>, want: Vec<Result<Vec<F>, String>>, stats: (u64, [u64; 2]), uses: Vec<&'static str> }
fn program<F: PrimeField + FieldUint>(c: &Cfg, r: &mut Rng) -> Case<F> {
    let lvl = c.get("lvl");
    let pos = c.get("curve") == 0;
    let mut g: G<F> = G { r, lvl, consts: vec![], funs: vec![], templs: vec![], depth: c.us("depth").min(3), budget: 0, asserts: lvl != BATCH && c.on("asserts"), pos };
    if lvl != BATCH { // an identity on small public numbers, by a branch or a loop
        let p = E::Var(at(0));
        let (two, zero, one) = (g.num(2), g.num(0), g.num(1));
        let _ = zero;
        let body = match g.r.below(3) { 0 => vec![S::Ret(p)], 1 => vec![S::If(E::Bin(Bop::Lt, bx(p.clone()), bx(two)), vec![S::Ret(p.clone())], vec![]), S::Ret(p)], _ => vec![S::If(E::Bin(Bop::Ge, bx(p.clone()), bx(one.clone())), vec![S::Ret(E::Bin(Bop::Add, bx(E::Bin(Bop::Sub, bx(p.clone()), bx(one.clone()))), bx(one)))], vec![S::Ret(p)])] };
        g.funs.push(Fun { name: "idf".into(), params: vec![Kind::S(8)], ret: Kind::S(8), nret: 1, vars: 1, body, loops: false, sqrt: false, pub_only: true });
    }
    if lvl == REP3 { g.funs.push(Fun { name: "sqrt_0".into(), params: vec![Kind::F], ret: Kind::F, nret: 1, vars: 1, body: vec![S::Ret(E::Var(at(0)))], loops: false, sqrt: true, pub_only: false }); }
    // accelerated components
    if c.us("templs") > 0 {
        let mut acc = |g: &mut G<F>, comp: &str, a: Acc, ins: Vec<Kind>, outs: Vec<Kind>, mid: usize| { let own = ins.len() + outs.len() + mid; let name = format!("{comp}_{}", g.templs.len()); let no = outs.len(); g.templs.push(Templ { name, comp: comp.into(), acc: a, ins, outs, own, size: own, vars: 0, subs: 0, maps: vec![0, no], body: vec![] }); };
        if lvl == REP3 || lvl == SHAMIR {
            let n = g.r.usize(1, 20); if g.r.chance(1, 2) { acc(&mut g, "Num2Bits", Acc::Bits(n), vec![Kind::F], vec![Kind::B; n], 0); }
            if g.r.chance(1, 8) && lvl == REP3 { acc(&mut g, "Num2Bits", Acc::Bits(254), vec![Kind::F], vec![Kind::B; 254], 0); }
            if g.r.chance(1, 2) { acc(&mut g, "IsZero", Acc::IsZero, vec![Kind::F], vec![Kind::B], 1); }
            if pos && g.r.chance(1, 4) { let t = *g.r.pick(&[2, 3, 4, 16]); let m = poseidon::<F>(&vec![F::zero(); t]).1.len(); acc(&mut g, "Poseidon2", Acc::Pos(t), vec![Kind::F; t], vec![Kind::F; t], m); }
        }
        let n = g.r.usize(1, 12); if g.r.chance(1, 2) { acc(&mut g, "AddBits", Acc::Add(n), vec![Kind::B; 2 * n], vec![Kind::B; n], 1); }
    }
    let stmts = c.us("stmts").max(1);
    for i in 0..c.us("funs") { let n = g.r.usize(1, 4); g.fun(i, n); }
    for i in 0..c.us("templs") { let lo = if g.r.chance(1, 8) { 0 } else { 1 }; let (ni, no, nm) = (g.r.usize(lo, 4), g.r.usize(1, 3), g.r.usize(0, 3)); let ins = (0..ni).map(|_| (g.kind(), false)).collect(); let n = g.r.usize(1, 4); let t = g.templ(&format!("T{i}"), ins, no, nm, n); g.templs.push(t); }
    // inputs of the main component: the public ones first
    let (mut ins, mut inputs, mut vals): (Vec<(Kind, bool)>, Vec<(String, usize, usize)>, Vec<F>) = (vec![], vec![], vec![]);
    let no = g.r.usize(1, 4);
    let (np, ns) = (g.r.usize(0, 3), g.r.usize(1, 5));
    let mut npub = 0;
    for j in 0..np + ns {
        let kind = if j < 2 * np { g.kind() } else { *g.r.pick(&[Kind::B, Kind::F, Kind::S(16), Kind::F]) };
        let len = if g.r.chance(1, 3) { g.r.usize(2, 5) } else { 1 };
        let public = if j < np { !g.r.chance(1, 4) } else { g.r.chance(1, 6) };
        inputs.push((format!("in{j}"), 1 + no + ins.len(), len));
        for _ in 0..len { ins.push((kind, public)); vals.push(F::zero()); }
        if j < np { npub = ins.len(); }
    }
    let shown: Vec<(Kind, bool)> = ins.iter().map(|(k, p)| (*k, *p && lvl != BATCH)).collect();
    let nm = g.r.usize(0, 6);
    let mut main = g.templ("Main", shown, no, nm, stmts);
    main.outs = vec![Kind::F; no];
    g.templs.push(main);
    let m = g.templs.last().unwrap().size;
    let fixed = 1 + no + npub;
    let mut rest: Vec<usize> = (fixed..m + 1).collect();
    for i in (1..rest.len()).rev() { let j = g.r.below(i as u64 + 1) as usize; rest.swap(i, j); }
    if g.r.chance(1, 3) { let k = g.r.usize(0, rest.len()); rest.truncate(k); }
    let map: Vec<usize> = (0..fixed).chain(rest).collect();
    let outs = if no > 1 && g.r.chance(1, 2) { vec![("o0".to_string(), 1, 1), ("o1".to_string(), 2, no - 1)] } else { vec![("o0".to_string(), 1, no)] };
    let batch = if lvl == BATCH { c.us("batch").max(1) } else { 1 };
    let vals: Vec<Vec<F>> = (0..batch).map(|_| ins.iter().map(|(k, _)| g.rnd(*k)).collect()).collect();
    let prog = Prog { consts: g.consts, funs: g.funs, templs: g.templs, inputs, npub, outs, map };
    let mut stats = (0, [0, 0]);
    let want = vals.iter().map(|v| {
        let mut run = Run { p: &prog, sig: vec![F::zero(); m + 1], asserts: 0, branches: [0, 0], steps: 0 };
        run.sig[0] = F::one();
        run.sig[1 + no..1 + no + v.len()].copy_from_slice(v);
        let e = run.component(prog.templs.len() - 1, 1);
        stats = (run.asserts, run.branches);
        e.map(|_| prog.map.iter().map(|i| run.sig[*i]).collect())
    }).collect();
    let mut uses = vec![];
    for t in &prog.templs { if t.acc != Acc::No { uses.push(match t.acc { Acc::Bits(_) => "Num2Bits", Acc::Add(_) => "AddBits", Acc::IsZero => "IsZero", _ => "Poseidon2" }); } }
    Case { prog, ins, vals, want, stats, uses }
}

// ---- running and judging ------------------------------------------------------------------------------------
pub fn make(r: &mut Rng, _prop: &str, i: u64, c: &mut Cfg) {
    let tp = if i % 7 == 6 { TCP } else { LOCAL };
    let lvl = match i % 6 { 4 => SHAMIR, 5 => BATCH, _ => REP3 };
    let (n, t) = if lvl == SHAMIR { pick_nt(r, false) } else { (3, 1) };
    c.set("tp", tp).set("lvl", lvl).set("n", n as i64).set("t", t as i64).set("stmts", r.logu(1, 16) as i64).set("depth", r.usize(0, 3) as i64).set("funs", r.usize(0, 4) as i64).set("templs", r.usize(0, 3) as i64).set("curve", r.below(3) as i64)
        .set("asserts", r.chance(1, 2) as i64).set("yao", r.chance(1, 4) as i64).set("leaky", r.below(2) as i64).set("pre", r.logu(1, 60) as i64 - 1).set("batch", r.usize(1, 4) as i64).set("workers", r.usize(1, 3) as i64).set("jitter_us", if r.chance(1, 3) { r.logu(1, 2000) as i64 } else { 0 }).set("hold", r.below(2) as i64);
    sched_knobs(r, c, n);
    c.set("seg_max", 16384);
    if tp == TCP { tcp_knobs(r, c); c.set("seg_max", 16384).set("sndbuf", 65536).set("rcvbuf", 65536); }
    if c.on("alloc_yield") { c.set("alloc_yield", c.get("alloc_yield").max(400)); }
    c.set("max_steps", 10_000_000).set("mis", 0).set("fp", 0).set("fkind", 0).set("fat", 0).set("farg", 0).set("faulty", 0);
}
fn make_faults(r: &mut Rng, _prop: &str, i: u64, c: &mut Cfg) {
    make(r, "", i, c);
    let tp = if i % 3 == 2 { TCP } else { LOCAL };
    let stmts = c.get("stmts").min(6);
    c.set("tp", tp).set("stmts", stmts).set("asserts", 0);
    if tp == TCP { tcp_knobs(r, c); c.set("jitter_us", 0).set("stall", 0).set("seg_max", 16384).set("sndbuf", 262144).set("rcvbuf", 262144); }
    c.set("faulty", 1).set("timeout_us", if tp == TCP { 10_000_000 } else { 2_000_000 });
    let fp = r.below(c.get("n") as u64) as i64;
    c.set("fp", fp);
    if i % 5 == 0 { c.set("mis", 1 + r.below(2) as i64); return; }
    let kinds: &[i64] = if tp == TCP { &[K_EXIT, K_RESET, K_LEAVE, K_HANG, K_MUTE, K_CUT, K_LONG, K_FEWER] } else { &[K_LEAVE, K_HANG, K_MUTE, K_SHORT, K_LONG, K_EMPTY, K_FEWER, K_MORE, K_PREFIX] };
    c.set("fkind", *r.pick(kinds)).set("fat", r.logu(1, 60) as i64).set("farg", (r.next() >> 20) as i64);
}
fn run(c: &Cfg) { match c.get("curve") { 0 => on::<ark_bn254::Fr>(c), 1 => on::<ark_bls12_381::Fr>(c), _ => on::<ark_grumpkin::Fr>(c) } }
#[derive(Clone)]
enum Sh<F: PrimeField> { R(Rep3PrimeFieldShare<F>), S(ShamirPrimeFieldShare<F>) }
struct Out<F: PrimeField> { public: Vec<F>, shares: Vec<Sh<F>>, outs: Vec<Option<Vec<F>>> }
struct Party<F: PrimeField> { t0: u64, t1: u64, end: Option<Result<Vec<Out<F>>, String>> }
impl<F: PrimeField> Default for Party<F> { fn default() -> Self { Party { t0: 0, t1: 0, end: None } } }

fn on<F: PrimeField + FieldUint>(c: &Cfg) {
    workers(c);
    wire(c);
    let faulty = c.on("faulty");
    let prop = if faulty { "V02" } else { "V01" };
    let (n, t, lvl, seed) = (c.us("n").max(2), c.us("t"), c.get("lvl"), c.get("seed") as u64);
    let mut r = Rng::new(seed ^ 0x711);
    let mut o = link::opt(c);
    o.n = n;
    o.nets = 2;
    let mut dr = rand_chacha::ChaCha12Rng::seed_from_u64(seed ^ 0xdea4);
    let case: Case<F> = program(c, &mut r);
    if c.v.contains_key("dump") { viol("PROG", "program", show(&case.prog, &case.vals[0])); }
    if let Some(Err(e)) = case.want.iter().find(|w| matches!(w, Err(e) if e.starts_with("(gen)"))) { feat(format!("unusable program: {e}")); return; }
    let fails = case.want.iter().any(|w| w.is_err());
    let parsed = code(&case.prog);
    note(|| { let mut s = String::new(); for f in &case.prog.funs { s += &format!("\n{f:?}"); } for t in &case.prog.templs { s += &format!("\n{t:?}"); } format!("inputs {:?} {:?}{s}\nconstants {:?}", case.ins, case.vals.iter().map(|v| v.iter().map(|x| x.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>(), case.prog.consts.iter().map(|x| x.to_string()).collect::<Vec<_>>()) });
    let named = |f: &dyn Fn(usize) -> Option<()>| { let mut v = vec![]; let mut i = 0; for (name, _, len) in &case.prog.inputs { for k in 0..*len { f(i); v.push(if *len == 1 { name.clone() } else { format!("{name}[{k}]") }); i += 1; } } v };
    let names = named(&|_| None);
    let npub = case.prog.npub;
    let no = case.prog.templs.last().unwrap().outs.len();
    let cut = 1 + no + npub;
    let outn: Vec<String> = case.prog.outs.iter().map(|x| x.0.clone()).collect();
    let onames = outn.clone();
    // the same program in the clear
    let plain = |b: usize, v: &[F]| -> Result<(Vec<F>, Vec<F>), String> {
        let m: BTreeMap<String, F> = names.iter().cloned().zip(v.iter().copied()).collect();
        let parsed = parsed.clone();
        let _ = b;
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || parsed.to_plain_vm(VMConfig::new()).run(m, npub))) { Ok(Ok(x)) => { let w = x.into_shared_witness(); Ok((w.public_inputs, w.witness)) } Ok(Err(e)) => Err(format!("{e:#}")), Err(p) => Err(format!("panic: {}", panic_text(&p))) }
    };
    for (b, v) in case.vals.iter().enumerate() {
        match (plain(b, v), &case.want[b]) {
            (Ok((p, w)), Ok(want)) => { if p != want[..cut] || w != want[cut..] { let k = p.iter().chain(&w).zip(want).position(|(a, b)| a != b); viol("V01", "wrong-plain", format!("the machine in the clear gives another witness than the program's meaning, at position {k:?} (signal {:?})", k.map(|k| case.prog.map[k]))); } }
            (Ok(_), Err(e)) => viol("V01", "plain-accepts", format!("the machine in the clear accepts a program that fails: {e}")),
            (Err(e), Ok(_)) => viol("V01", "plain-fails", format!("the machine in the clear fails: {e}")),
            (Err(e), Err(_)) => { if !e.contains("ssertion") { viol("V01", "plain-fails", format!("the machine in the clear fails, but not at the assertion: {e}")); } }
        }
    }
    let batch = case.vals.len();
    // shares of the inputs
    let rsh: Vec<Vec<[Rep3PrimeFieldShare<F>; 3]>> = case.vals.iter().map(|v| v.iter().map(|x| rep3::share_field_element(*x, &mut dr)).collect()).collect();
    let ssh: Vec<Vec<ShamirPrimeFieldShare<F>>> = case.vals[0].iter().map(|x| shamir::share_field_element(*x, t, n, &mut dr)).collect();
    let res: Arc<Glob<BTreeMap<usize, Party<F>>>> = Arc::new(Glob::new());
    let res2 = res.clone();
    let hold = c.on("hold") && !faulty;
    let all: Vec<usize> = (0..n).collect();
    let (mis, fp) = (c.get("mis"), c.us("fp") % n);
    let (yao, leaky, pre) = (c.on("yao"), c.on("leaky"), c.us("pre"));
    let ins: Vec<bool> = case.ins.iter().map(|x| x.1).collect();
    let vals = case.vals.clone();
    let body = move |p: usize, env: Env| {
        if faulty { gate(76, n, CAP); }
        let nets = taps(&env);
        res2.with(|m| m.entry(p).or_default().t0 = os::now());
        let run = || -> eyre::Result<Vec<Out<F>>> {
            let bad = mis > 0 && p == fp;
            let cfg = VMConfig { allow_leaky_logs: leaky ^ (bad && mis == 1), a2b_type: if yao ^ (bad && mis == 2) { A2BType::Yao } else { A2BType::Direct } };
            let names = names.iter().cloned();
            Ok(match lvl {
                REP3 => {
                    let m = names.enumerate().map(|(i, s)| (s, if ins[i] { Rep3VmType::Public(vals[0][i]) } else { rsh[0][i][p].into() })).collect();
                    let x = Rep3WitnessExtension::new(&nets[0], &nets[1], &parsed, cfg)?.run(m, npub)?;
                    let outs = onames.iter().map(|s| x.get_output(s)).collect();
                    let w = x.into_shared_witness();
                    vec![Out { public: w.public_inputs, shares: w.witness.into_iter().map(Sh::R).collect(), outs }]
                }
                SHAMIR => {
                    let m = names.enumerate().map(|(i, s)| (s, if ins[i] { ShamirVmType::Public(vals[0][i]) } else { ssh[i][p].into() })).collect();
                    let x = ShamirWitnessExtension::new(&nets[0], n, t, pre, &parsed, cfg)?.run(m, npub)?;
                    let outs = onames.iter().map(|s| x.get_output(s)).collect();
                    let w = x.into_shared_witness();
                    vec![Out { public: w.public_inputs, shares: w.witness.into_iter().map(Sh::S).collect(), outs }]
                }
                _ => {
                    let m = names.enumerate().map(|(i, s)| (s, if ins[i] { BatchedRep3VmType::Public(vals.iter().map(|v| v[i]).collect()) } else { BatchedRep3VmType::Arithmetic(rsh.iter().map(|v| v[i][p]).collect()) })).collect();
                    let x = BatchedRep3WitnessExtension::new(&nets[0], &nets[1], &parsed, cfg, batch)?.run(m, npub)?;
                    let outs: Vec<Option<Vec<Vec<F>>>> = onames.iter().map(|s| x.get_output(s)).collect();
                    x.into_shared_witness().unbatch().into_iter().enumerate().map(|(b, w)| Out { public: w.public_inputs, shares: w.witness.into_iter().map(Sh::R).collect(), outs: outs.iter().map(|o| o.as_ref().map(|o| o.iter().map(|v| v[b]).collect())).collect() }).collect()
                }
            })
        };
        let e = run();
        res2.with(|m| { let x = m.entry(p).or_default(); x.t1 = os::now(); x.end = Some(e.map_err(|e| format!("{e:#}"))) });
        if hold { gate(77, n, CAP); }
        drop(nets);
        drop(env);
    };
    let ids = parties(&o, prop, &all, &[], body);
    finish(prop, &ids, faulty, &o);
    let (plan, hit, vg, dmg) = WIRE.with(|w| (w.plan, w.hit, w.victim_got, w.damaged.clone()));
    let mut got = vec![];
    for p in 0..n {
        let x = res.with(|m| m.remove(&p)).unwrap_or_default();
        match &x.end {
            Some(Ok(_)) if mis > 0 && (p == fp || p == (fp + 1) % n) => viol(prop, "config-mismatch-accepted", format!("P{p} finishes although P{fp} was configured differently")),
            Some(Err(e)) if fails && !faulty => { if !e.contains("ssertion") && !e.contains("onnect") && !e.contains("closed") && !e.contains("recv") { viol(prop, "failed", format!("P{p} fails, but not at the assertion: {e}")); } }
            Some(Ok(_)) if fails => viol(prop, "assertion-ignored", format!("P{p} finishes although an assertion fails")),
            Some(Err(e)) if !faulty || !(hit || mis > 0) => viol(prop, "failed", format!("P{p}: {e}")),
            Some(Ok(_)) if vg && dmg.as_ref().is_some_and(|d| d.2 == p) => viol(prop, "accepted-damaged", format!("P{p} finished although a message had the wrong length: {}", dmg.as_ref().unwrap().4)),
            _ => {}
        }
        if faulty && x.end.is_some() && x.t1 - x.t0 > 10 * o.timeout.unwrap_or(SEC) { viol(prop, "slow-error", format!("P{p} took {} ms with a timeout of {} ms", (x.t1 - x.t0) / os::MS, o.timeout.unwrap_or(0) / os::MS)); }
        got.push(x.end.and_then(|e| e.ok()));
    }
    feat(["rep3", "shamir", "batched"][lvl as usize % 3]);
    if faulty { feat(if mis > 0 { format!("config mismatch {mis}") } else { format!("{} {}", kind_name(plan.kind), if hit { "hit" } else { "late" }) }); }
    if fails { feat("failing assertion"); }
    for u in &case.uses { feat(format!("component {u}")); }
    if case.stats.0 > 0 { feat("assert"); }
    if case.stats.1[0] > 0 { feat("branch not taken"); }
    if case.stats.1[1] > 0 { feat("branch taken"); }
    if fails { return; }
    for (b, want) in case.want.iter().enumerate() {
        let want = want.as_ref().unwrap();
        for (p, g) in got.iter().enumerate() {
            let Some(g) = g else { continue };
            if g.len() != batch { viol(prop, "wrong-batch", format!("P{p} has {} witnesses instead of {batch}", g.len())); return; }
            if g[b].public != want[..cut] { let k = g[b].public.iter().zip(want).position(|(a, b)| a != b); viol(prop, "wrong-public", format!("P{p}: public part of witness {b} is wrong at position {k:?} of {cut}")); }
            for (k, (name, o, l)) in case.prog.outs.iter().enumerate() { if g[b].outs[k].as_deref() != Some(&want[*o..*o + *l]) { viol(prop, "wrong-output", format!("P{p}: output {name} of witness {b} is wrong")); } }
            if g[b].shares.len() + cut != want.len() { viol(prop, "wrong-length", format!("P{p}: {} shares instead of {}", g[b].shares.len(), want.len() - cut)); return; }
        }
        if got.iter().any(|g| g.is_none()) { continue; }
        for k in cut..want.len() {
            let s: Vec<Sh<F>> = got.iter().map(|g| g.as_ref().unwrap()[b].shares[k - cut].clone()).collect();
            let v = match &s[0] {
                Sh::R(_) => { let x: Vec<Rep3PrimeFieldShare<F>> = s.iter().map(|x| if let Sh::R(x) = x { *x } else { unreachable!() }).collect(); if (0..3).any(|p| x[p].b != x[(p + 2) % 3].a) { None } else { Some(x[0].a + x[1].a + x[2].a) } }
                Sh::S(_) => { let x: Vec<F> = s.iter().map(|x| if let Sh::S(x) = x { x.inner() } else { unreachable!() }).collect(); secret(&x, t).ok() }
            };
            match v { None => viol(prop, "wrong-sharing", format!("the shares of position {k} of witness {b} do not fit together")), Some(v) if v != want[k] => viol(prop, "wrong-witness", format!("position {k} (signal {}) of witness {b} is wrong{}", case.prog.map[k], if c.v.contains_key("dump") { format!(": {v} instead of {}", want[k]) } else { String::new() })), _ => {} }
        }
    }
}
