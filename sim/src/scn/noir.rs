//! Noir: random programs (ACIR with unconstrained Brillig functions) with public and shared inputs; the extended witness,
//! the circuit and the keys that the parties compute on shares are compared with values computed by the harness.
use super::mpc::*;
use super::rep3::STUB;
use super::*;
use acir::acir_field::GenericFieldElement;
use acir::circuit::brillig::{BrilligBytecode, BrilligFunctionId, BrilligInputs, BrilligOutputs};
use acir::circuit::opcodes::{BlackBoxFuncCall as Bb, BlockId, BlockType, FunctionInput, MemOp, MemOpKind, Opcode};
use acir::circuit::{Circuit, Program, PublicInputs};
use acir::native_types::{Expression, Witness, WitnessMap};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use brillig::{BinaryFieldOp as Fo, BinaryIntOp as Io, BitSize, BlackBoxOp, HeapArray, HeapVector, IntegerBitSize as Ib, MemoryAddress, Opcode as Bo, SemiFlattenedLength, ValueOrArray};
use co_acvm::solver::{PlainCoSolver, Rep3CoSolver, ShamirCoSolver};
use co_acvm::{PlainAcvmSolver, Rep3AcvmType, ShamirAcvmType};
use mpc_core::protocols::{rep3, shamir};
use noirc_artifacts::program::ProgramArtifact;
use num_bigint::BigUint;
use rand::SeedableRng;
use std::collections::BTreeMap;
use std::sync::Arc;
use tp::*;

type F = ark_bn254::Fr;
type G = GenericFieldElement<F>;
const REAL_N: &[&str] = &["co-acvm: solver, drivers (plain, replicated, Shamir)", "co-brillig: virtual machine, drivers", "mpc-core: protocols/rep3, rep3_ring, shamir, gadgets, lookup tables", "mpc-net: local and tcp transports, join", "rayon, crossbeam-channel, std threads and locks"];
const SIMPLE: &[(&str, i64)] = &[("tp", 0), ("n", 3), ("t", 1), ("jitter_us", 0), ("workers", 1), ("ops", 1), ("brops", 1), ("hold", 1), ("shamir", 0), ("rets", 0), ("lat_min_us", 10), ("lat_max_us", 10), ("seg_max", 65536)];
const KINDS: i64 = 12;

pub fn scenarios() -> Vec<Scn> {
    let s = |name, props, make| Scn { name, props, weight: 1, make, run, real: REAL_N, stub: STUB, simple: SIMPLE };
    vec![s("noir-witness", &["H03"], make as fn(&mut Rng, &str, u64, &mut Cfg))]
}
fn make(r: &mut Rng, _p: &str, i: u64, c: &mut Cfg) {
    let sh = r.chance(1, 5);
    let (n, t) = if sh { *r.pick(&[(3, 1), (4, 1), (5, 2), (2, 0)]) } else { (3, 1) };
    let tp = if i % 9 == 8 { TCP } else { LOCAL };
    c.set("tp", tp).set("shamir", sh as i64).set("n", n as i64).set("t", t as i64).set("workers", r.usize(1, 3) as i64).set("jitter_us", if r.chance(1, 4) { r.logu(10, 2000) as i64 } else { 0 });
    sched_knobs(r, c, n);
    c.set("seg_max", 16384);
    if tp == TCP { tcp_knobs(r, c); }
    if c.on("alloc_yield") { c.set("alloc_yield", c.get("alloc_yield").max(200)); }
    let kinds = if r.chance(1, 2) { (1 << KINDS) - 1 } else { (r.next() & ((1 << KINDS) - 1)) as i64 | 1 };
    c.set("ops", r.logu(1, 30) as i64).set("brops", r.logu(1, 40) as i64).set("rets", (r.logu(1, 6) - 1) as i64).set("kinds", kinds).set("heavy", (i % 5 == 3) as i64).set("pubs", *r.pick(&[0, 20, 50, 50, 90]));
    c.set("max_steps", 15_000_000);
}

// ---- the reference ------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug)]
struct Wit { v: F, sec: Sec, bits: usize }
/// Whether a value may be shared, and whether it must be because it depends on secret values.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Sec { may: bool, must: bool }
const PUB: Sec = Sec { may: false, must: false };
impl Sec {
    fn of(b: bool) -> Sec { Sec { may: b, must: b } }
    fn when(self, b: bool) -> Sec { Sec { may: self.may, must: self.must && b } }
    /// Of a product of values that are zero or not.
    fn mul(self, x0: bool, y: Sec, y0: bool) -> Sec { self.when(!y0 || y.must) | y.when(!x0 || self.must) }
}
impl std::ops::BitOr for Sec { type Output = Sec; fn bitor(self, o: Sec) -> Sec { Sec { may: self.may || o.may, must: self.must || o.must } } }
fn big(x: &F) -> BigUint { x.into_bigint().into() }
fn bits(x: &F) -> usize { big(x).bits() as usize }
fn neg_inv(a: F, b: F) -> F { -a * b.inverse().unwrap() }
fn ibits(b: Ib) -> usize { u32::from(b) as usize }

struct Gen<'a> { r: &'a mut Rng, sh: bool, key: bool, brops: usize, w: Vec<Wit>, ninp: usize, points: Vec<usize>, ops: Vec<Opcode<G>>, fns: Vec<BrilligBytecode<G>>, used: Vec<&'static str>, pss: BTreeMap<String, Vec<F>>, yao: i64, heavy: i64 }
fn g(x: F) -> G { G::from_repr(x) }
fn wi(i: usize) -> Witness { Witness(i as u32) }

impl Gen<'_> {
    fn k(&mut self) -> F { konst(self.r.next()) }
    fn nz(&mut self) -> F { let x = self.k(); if x.is_zero() { F::one() } else { x } }
    fn add(&mut self, v: F, sec: Sec, bits: usize) -> usize { self.w.push(Wit { v, sec, bits }); self.w.len() - 1 }
    /// A witness of at most `b` bits.
    fn pick(&mut self, b: usize) -> Option<usize> {
        let c: Vec<usize> = (0..self.w.len()).filter(|i| self.w[*i].bits <= b).collect();
        if c.is_empty() { return None; }
        // late witnesses are taken more often: chains
        Some(if self.r.chance(1, 3) { c[c.len() - 1 - self.r.usize(0, (c.len() - 1).min(5))] } else { *self.r.pick(&c) })
    }
    fn input(&mut self, b: usize) -> (FunctionInput<G>, Wit) {
        if let (true, Some(i)) = (self.r.chance(7, 8), self.pick(b)) { return (FunctionInput::Witness(wi(i)), self.w[i]); }
        let v = if b >= 254 { self.k() } else { F::from(BigUint::from(self.r.next()) % (BigUint::one() << b.min(64))) };
        (FunctionInput::Constant(g(v)), Wit { v, sec: PUB, bits: b })
    }
    /// A public witness with a value.
    fn fixed(&mut self, v: F) -> usize {
        let q = self.nz();
        let i = self.add(v, PUB, bits(&v));
        self.ops.push(Opcode::AssertZero(Expression { mul_terms: vec![], linear_combinations: vec![(g(q), wi(i))], q_c: g(-q * v) }));
        i
    }
    fn expr(&mut self, nm: usize, nl: usize) -> (Expression<G>, F, Sec) {
        let mut e = Expression { mul_terms: vec![], linear_combinations: vec![], q_c: g(self.k()) };
        let (mut v, mut sec) = (e.q_c.into_repr(), PUB);
        for _ in 0..nm {
            let (Some(a), Some(b)) = (self.pick(254), self.pick(254)) else { break };
            let q = if !self.key && self.r.chance(1, 8) { F::zero() } else { self.nz() };
            e.mul_terms.push((g(q), wi(a), wi(b)));
            let (x, y) = (self.w[a], self.w[b]);
            v += q * x.v * y.v;
            sec = sec | x.sec.mul(x.v.is_zero(), y.sec, y.v.is_zero()).when(!q.is_zero());
        }
        let mut seen = std::collections::BTreeSet::new();
        for _ in 0..nl {
            let Some(a) = self.pick(254) else { break };
            if !seen.insert(a) { continue; }
            let q = self.nz();
            e.linear_combinations.push((g(q), wi(a)));
            v += q * self.w[a].v;
            sec = sec | self.w[a].sec;
        }
        (e, v, sec)
    }
    fn assert_zero(&mut self) {
        let (nm, nl) = (self.r.below(3) as usize, self.r.below(4) as usize);
        let (mut e, v, sec) = self.expr(nm, nl);
        match self.r.below(8) {
            0 => { // nothing to solve
                if e.mul_terms.is_empty() && e.linear_combinations.is_empty() { return; }
                e.q_c = g(e.q_c.into_repr() - v);
            }
            1 | 2 => { // the unknown is multiplied by a known witness
                let Some(a) = self.pick(254) else { return };
                let x = self.w[a];
                if x.v.is_zero() { return; }
                let q = self.nz();
                let n = self.w.len();
                let pair = if self.r.chance(1, 2) { (wi(a), wi(n)) } else { (wi(n), wi(a)) };
                e.mul_terms.push((g(q), pair.0, pair.1));
                let s = sec | x.sec.when(!v.is_zero());
                self.add(neg_inv(v, q * x.v), s, 254);
            }
            _ => {
                let q = if self.r.chance(1, 3) { -F::one() } else { self.nz() };
                let n = self.w.len();
                let at = self.r.usize(0, e.linear_combinations.len());
                e.linear_combinations.insert(at, (g(q), wi(n)));
                self.add(neg_inv(v, q), sec, 254);
            }
        }
        self.ops.push(Opcode::AssertZero(e));
        self.used.push("assert");
    }
    fn logic(&mut self, xor: bool) {
        let nb = *self.r.pick(if self.key { &[1, 2, 8, 16, 32, 32, 64] } else { &[1, 2, 3, 7, 8, 16, 31, 32, 33, 64, 100, 127, 128] });
        let (mut l, a) = self.input(nb);
        let (r, b) = self.input(nb);
        if self.sh && (a.sec.may || b.sec.may) { return; }
        if let (FunctionInput::Constant(_), FunctionInput::Constant(_)) = (&l, &r) { match self.pick(nb) { Some(i) if !(self.sh && self.w[i].sec.may) => { l = FunctionInput::Witness(wi(i)); } _ => return } }
        let a = if let FunctionInput::Witness(w) = l { self.w[w.0 as usize] } else { a };
        let v = if xor { big(&a.v) ^ big(&b.v) } else { big(&a.v) & big(&b.v) };
        let sec = if xor { a.sec | b.sec } else { a.sec.mul(a.v.is_zero(), b.sec, b.v.is_zero()) };
        let o = self.add(F::from(v), sec, nb);
        let (lhs, rhs, num_bits, output) = (l, r, nb as u32, wi(o));
        self.ops.push(Opcode::BlackBoxFuncCall(if xor { Bb::XOR { lhs, rhs, num_bits, output } } else { Bb::AND { lhs, rhs, num_bits, output } }));
        self.used.push(if xor { "xor" } else { "and" });
    }
    fn range(&mut self) {
        let top = if self.key { 64 } else { 253 };
        let Some(a) = self.pick(top) else { return };
        let b = self.w[a].bits.max(1);
        let num_bits = if self.r.chance(1, 2) { b } else { self.r.usize(b, top.max(b)) } as u32;
        self.ops.push(Opcode::BlackBoxFuncCall(Bb::RANGE { input: FunctionInput::Witness(wi(a)), num_bits }));
        self.used.push("range");
    }
    fn memory(&mut self) {
        if self.sh { return; }
        let id = BlockId(self.ops.len() as u32);
        let len = self.r.logu(1, 12) as usize;
        let init: Vec<usize> = (0..len).filter_map(|_| self.pick(254)).collect();
        if init.len() < len { return; }
        let mut m: Vec<(F, Sec)> = init.iter().map(|i| (self.w[*i].v, self.w[*i].sec)).collect();
        self.ops.push(Opcode::MemoryInit { block_id: id, init: init.iter().map(|i| wi(*i)).collect(), block_type: BlockType::Memory });
        let rom = self.r.chance(1, 2);
        for _ in 0..self.r.logu(1, 8) {
            let c: Vec<usize> = (0..self.w.len()).filter(|i| big(&self.w[*i].v) < BigUint::from(len)).collect();
            let idx = if c.is_empty() || self.r.chance(1, 4) { let v = F::from(self.r.below(len as u64)); self.fixed(v) } else { *self.r.pick(&c) };
            let ix = self.w[idx];
            let at = u64::try_from(big(&ix.v)).unwrap() as usize;
            let (operation, value) = if rom || self.r.chance(1, 2) {
                let mut s = m[at].1 | ix.sec.when(len > 1 && m.iter().any(|x| x.0 != m[0].0));
                s.may |= m.iter().any(|x| x.1.may);
                (MemOpKind::Read, self.add(m[at].0, s, 254))
            } else {
                let v = self.pick(254).unwrap();
                if ix.sec.may { for x in m.iter_mut() { x.1 = Sec { may: true, must: x.1.must || (ix.sec.must && x.0 != self.w[v].v && len > 1) }; } }
                m[at] = (self.w[v].v, self.w[v].sec | ix.sec.when(false));
                (MemOpKind::Write, v)
            };
            self.ops.push(Opcode::MemoryOp { block_id: id, op: MemOp { operation, index: wi(idx), value: wi(value), _field: Default::default() } });
        }
        self.used.push(if rom { "rom" } else { "ram" });
    }
    fn outs(&mut self, v: Vec<F>, sec: Sec, b: usize) -> Vec<Witness> { v.into_iter().map(|x| { let i = self.add(x, sec, b); wi(i) }).collect() }
    fn poseidon(&mut self) {
        let ins: Vec<(FunctionInput<G>, Wit)> = (0..4).map(|_| self.input(254)).collect();
        let p = mpc_core::gadgets::poseidon2::Poseidon2::<F, 4, 5>::default();
        let mut s = [F::zero(); 4];
        for (a, b) in s.iter_mut().zip(&ins) { *a = b.1.v; }
        p.permutation_in_place(&mut s);
        let outputs = self.outs(s.to_vec(), ins.iter().fold(PUB, |a, x| a | x.1.sec), 254);
        self.ops.push(Opcode::BlackBoxFuncCall(Bb::Poseidon2Permutation { inputs: ins.iter().map(|x| x.0).collect(), outputs }));
        self.used.push("poseidon2");
    }
    fn many(&mut self, n: usize, b: usize) -> (Vec<FunctionInput<G>>, Vec<u64>, Sec) {
        let v: Vec<_> = (0..n).map(|_| self.input(b)).collect();
        (v.iter().map(|x| x.0).collect(), v.iter().map(|x| u64::try_from(big(&x.1.v)).unwrap()).collect(), v.iter().fold(PUB, |a, x| a | x.1.sec))
    }
    fn hash(&mut self) {
        if self.sh || self.heavy <= 0 { return; }
        self.heavy -= 1;
        match self.r.below(4) {
            0 => {
                let (m, mv, s1) = self.many(16, 32);
                let (h, hv, s2) = self.many(8, 32);
                let mut st: [u32; 8] = std::array::from_fn(|i| hv[i] as u32);
                let blk: Vec<u8> = mv.iter().flat_map(|x| (*x as u32).to_be_bytes()).collect();
                sha2::compress256(&mut st, &[*sha2::digest::generic_array::GenericArray::from_slice(&blk)]);
                let o = self.outs(st.iter().map(|x| F::from(*x)).collect(), s1 | s2, 32);
                self.ops.push(Opcode::BlackBoxFuncCall(Bb::Sha256Compression { inputs: Box::new(m.try_into().unwrap()), hash_values: Box::new(h.try_into().unwrap()), outputs: Box::new(o.try_into().unwrap()) }));
                self.used.push("sha256");
            }
            x @ (1 | 2) => {
                let len = if self.key { self.r.usize(1, 40) } else { *self.r.pick(&[0, 1, 3, 31, 32, 33, 63, 64, 65, 80]) };
                let (m, mv, s) = self.many(len, 8);
                let bytes: Vec<u8> = mv.iter().map(|x| *x as u8).collect();
                let d: [u8; 32] = if x == 1 { use blake2::Digest; blake2::Blake2s256::digest(&bytes).into() } else { *blake3::hash(&bytes).as_bytes() };
                let o = self.outs(d.iter().map(|x| F::from(*x)).collect(), s, 8);
                let (inputs, outputs) = (m, Box::new(o.try_into().unwrap()));
                self.ops.push(Opcode::BlackBoxFuncCall(if x == 1 { Bb::Blake2s { inputs, outputs } } else { Bb::Blake3 { inputs, outputs } }));
                self.used.push(if x == 1 { "blake2s" } else { "blake3" });
            }
            _ => {
                let n = 16 * self.r.usize(1, 2);
                let ((m, mv, s1), (iv, ivv, s2), (k, kv, s3)) = (self.many(n, 8), self.many(16, 8), self.many(16, 8));
                let b = |v: &[u64]| v.iter().map(|x| *x as u8).collect::<Vec<u8>>();
                let ct = libaes::Cipher::new_128(&b(&kv).try_into().unwrap()).cbc_encrypt(&b(&ivv), &b(&mv));
                let outputs = self.outs(ct.iter().map(|x| F::from(*x)).collect(), s1 | s2 | s3, 8);
                self.ops.push(Opcode::BlackBoxFuncCall(Bb::AES128Encrypt { inputs: m, iv: Box::new(iv.try_into().unwrap()), key: Box::new(k.try_into().unwrap()), outputs }));
                self.used.push("aes128");
            }
        }
    }
    fn point(&mut self) -> ([FunctionInput<G>; 3], ark_grumpkin::Affine, Sec) {
        let i = *self.r.pick(&self.points);
        if self.r.chance(1, 6) {
            let p: ark_grumpkin::Affine = ark_grumpkin::Projective::rand(&mut rand_chacha::ChaCha12Rng::seed_from_u64(self.r.next())).into();
            return ([FunctionInput::Constant(g(p.x)), FunctionInput::Constant(g(p.y)), FunctionInput::Constant(g(F::zero()))], p, PUB);
        }
        let p = if self.w[i + 2].v.is_one() { ark_grumpkin::Affine::identity() } else { ark_grumpkin::Affine::new_unchecked(self.w[i].v, self.w[i + 1].v) };
        ([0, 1, 2].map(|k| FunctionInput::Witness(wi(i + k))), p, { let (f, z) = (self.w[i + 2].sec, self.w[i + 2].v.is_one()); (self.w[i].sec | self.w[i + 1].sec).when(f.must || !z) | f })
    }
    fn curve(&mut self) {
        if self.sh || self.points.is_empty() || self.heavy <= 0 { return; }
        self.heavy -= 1;
        let one = FunctionInput::Constant(g(F::one()));
        let (p, sec);
        let msm = self.r.chance(1, 2);
        let mut ins = (vec![], vec![]);
        let mut two = vec![];
        if msm {
            let mut acc = ark_grumpkin::Projective::default();
            let mut s = PUB;
            for _ in 0..self.r.usize(1, 3) {
                let (x, q, s1) = self.point();
                let (lo, a) = self.input(128);
                let (hi, b) = self.input(120);
                let k: BigUint = big(&a.v) + (big(&b.v) << 128);
                acc += q * ark_grumpkin::Fr::from(k.clone());
                ins.0.extend(x);
                ins.1.extend([lo, hi]);
                s = s | s1.when(!k.is_zero() || (a.sec | b.sec).must) | (a.sec | b.sec).when(!q.is_zero() || s1.must);
            }
            (p, sec) = (acc.into_affine(), s);
        } else {
            let (a, x, s1) = self.point();
            let (b, y, s2) = self.point();
            two = vec![a, b];
            (p, sec) = ((x + y).into_affine(), s1 | s2);
        }
        let (x, y) = p.xy().unwrap_or_default();
        let i = self.add(x, sec, 254);
        self.add(y, sec, 254);
        self.add(F::from(p.is_zero()), sec, 1);
        self.points.push(i);
        let outputs = (wi(i), wi(i + 1), wi(i + 2));
        self.ops.push(Opcode::BlackBoxFuncCall(if msm { Bb::MultiScalarMul { points: ins.0, scalars: ins.1, predicate: one, outputs } } else { Bb::EmbeddedCurveAdd { input1: Box::new(two[0]), input2: Box::new(two[1]), predicate: one, outputs } }));
        self.used.push(if msm { "msm" } else { "curve add" });
    }
    fn brillig(&mut self) {
        // the predicate
        let mode = self.r.below(10);
        let bit = (0..self.w.len()).filter(|i| self.w[*i].bits <= 1).collect::<Vec<_>>();
        let lin = |i: usize| Expression { mul_terms: vec![], linear_combinations: vec![(g(F::one()), wi(i))], q_c: g(F::zero()) };
        let (predicate, on, psec) = match mode {
            0 => (Expression { mul_terms: vec![], linear_combinations: vec![], q_c: g(F::zero()) }, false, PUB),
            1 | 2 if !bit.is_empty() => { let i = *self.r.pick(&bit); (lin(i), self.w[i].v.is_one(), self.w[i].sec) }
            _ => (Expression { mul_terms: vec![], linear_combinations: vec![], q_c: g(F::one()) }, true, PUB),
        };
        let skipped = !on && !psec.may;
        let mut ins: Vec<BrilligInputs<G>> = vec![];
        let mut vals: Vec<(F, Sec)> = vec![];
        for _ in 0..self.r.usize(1, 5) {
            let (e, v, s) = if self.r.chance(2, 3) { let w = if self.r.chance(1, 2) { 64 } else { 254 }; let Some(i) = self.pick(w) else { continue }; (lin(i), self.w[i].v, self.w[i].sec) } else { self.expr(1, 1) };
            if self.r.chance(1, 4) && !ins.is_empty() { if let Some(BrilligInputs::Array(a)) = ins.last_mut() { a.push(e); } else { ins.push(BrilligInputs::Array(vec![e])); } } else { ins.push(BrilligInputs::Single(e)); }
            vals.push((v, s));
        }
        if vals.is_empty() { return; }
        let plain_store = !skipped && !psec.may;
        let (brops, sh, yao, nth) = (self.brops, self.sh, self.yao, self.fns.len());
        let mut b = Br { r: self.r, sh, code: vec![], regs: vec![], next: 10, bodies: vec![], ctx: None, outer: vec![], yao, used: vec![], pss: BTreeMap::new(), nth };
        let out = b.program(&vals, brops, plain_store);
        self.yao = b.yao;
        let (code, used, pss) = (b.code, b.used, b.pss);
        self.used.extend(used);
        if plain_store { self.pss.extend(pss); }
        let id = BrilligFunctionId(self.fns.len() as u32);
        self.fns.push(BrilligBytecode { function_name: format!("f{nth}"), bytecode: code });
        let mut outputs = vec![];
        for o in out {
            let v = if on { F::from(o.v.clone()) } else { F::zero() };
            let b = match o.ty { None => 254, Some(b) => ibits(b) };
            // where the mask is secret, so is the result
            let i = self.add(v, if skipped { PUB } else { o.sec.when(on) | psec }, b);
            if self.r.chance(1, 3) { if let Some(BrilligOutputs::Array(a)) = outputs.last_mut() { a.push(wi(i)); } else { outputs.push(BrilligOutputs::Array(vec![wi(i)])); } } else { outputs.push(BrilligOutputs::Simple(wi(i))); }
        }
        self.ops.push(Opcode::BrilligCall { id, inputs: ins, outputs, predicate });
        self.used.push(if skipped { "brillig skipped" } else if psec.may { "brillig masked" } else { "brillig" });
    }
}

// ---- unconstrained functions -----------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct Reg { a: u32, ty: Option<Ib>, v: BigUint, sec: Sec }
struct Br<'a> { r: &'a mut Rng, sh: bool, code: Vec<Bo<G>>, regs: Vec<Reg>, next: u32, bodies: Vec<(usize, Vec<Bo<G>>)>, ctx: Option<bool>, outer: Vec<Reg>, yao: i64, used: Vec<&'static str>, pss: BTreeMap<String, Vec<F>>, nth: usize }
const SP: u32 = 4;
const OUT: u32 = 700;
fn bsz(t: Option<Ib>) -> BitSize { t.map_or(BitSize::Field, BitSize::Integer) }
fn wrap(t: Option<Ib>, v: BigUint) -> BigUint { match t { None => big(&F::from(v)), Some(b) => v % (BigUint::one() << ibits(b)) } }
const INTS: [Ib; 6] = [Ib::U1, Ib::U8, Ib::U16, Ib::U32, Ib::U64, Ib::U128];

impl Br<'_> {
    fn ad(&mut self, a: u32) -> MemoryAddress { if a >= SP && self.r.chance(1, 4) { MemoryAddress::Relative(a - SP) } else { MemoryAddress::Direct(a) } }
    fn fresh(&mut self) -> u32 { self.next += 1; self.next - 1 }
    fn new(&mut self, ty: Option<Ib>, v: BigUint, sec: Sec) -> u32 {
        // sometimes a register is reused
        if self.r.chance(1, 6) && !self.regs.is_empty() { let k = self.r.below(self.regs.len() as u64) as usize; let a = self.regs[k].a; self.regs[k] = Reg { a, ty, v, sec }; return a; }
        let a = self.fresh();
        self.regs.push(Reg { a, ty, v, sec });
        a
    }
    fn konst(&mut self, ty: Option<Ib>, v: BigUint) -> u32 { let a = self.fresh(); let d = self.ad(a); self.code.push(Bo::Const { destination: d, bit_size: bsz(ty), value: g(F::from(v)) }); a }
    fn u32(&mut self, v: u32) -> u32 { self.konst(Some(Ib::U32), v.into()) }
    fn ty(&mut self) -> Option<Ib> { if self.r.chance(1, 3) { None } else { Some(*self.r.pick(&INTS)) } }
    fn val(&mut self, ty: Option<Ib>) -> BigUint {
        let f: F = konst(self.r.next());
        let v = match self.r.below(4) { 0 => BigUint::from(self.r.below(4)), 1 => (BigUint::one() << ty.map_or(253, ibits)) - BigUint::from(1 + self.r.below(2)), _ => big(&f) };
        wrap(ty, v)
    }
    fn pick(&mut self, f: impl Fn(&Reg) -> bool) -> Option<Reg> {
        let c: Vec<&Reg> = self.regs.iter().filter(|x| f(x)).collect();
        if c.is_empty() { return None; }
        let k = if self.r.chance(1, 2) { c.len() - 1 - self.r.usize(0, (c.len() - 1).min(3)) } else { self.r.below(c.len() as u64) as usize };
        Some(c[k].clone())
    }
    /// Two registers of the same type.
    fn two(&mut self) -> Option<(Reg, Reg)> {
        let a = self.pick(|_| true)?;
        let t = a.ty;
        if self.r.chance(1, 6) { let v = self.val(t); let k = self.konst(t, v.clone()); let b = Reg { a: k, ty: t, v, sec: PUB }; return Some(if self.r.chance(1, 2) { (a, b) } else { (b, a) }); }
        let b = self.pick(|x| x.ty == t)?;
        Some((a, b))
    }
    fn arith(&mut self) {
        let Some((x, y)) = self.two() else { return };
        let sec = x.sec | y.sec;
        let k = self.r.below(8);
        let (bit, fld) = (x.ty == Some(Ib::U1), x.ty.is_none());
        if self.sh && sec.may && (k > 3 || !fld) { return; }
        let one = BigUint::one();
        let m: BigUint = match x.ty { None => F::MODULUS.into(), Some(b) => &one << ibits(b) };
        let taken = self.ctx != Some(false);
        let mut s = sec;
        let (fo, io, v, ty) = match k {
            0 => (Fo::Add, Io::Add, (&x.v + &y.v) % &m, x.ty),
            1 => (Fo::Sub, Io::Sub, (&x.v + &m - &y.v) % &m, x.ty),
            2 => { s = x.sec.mul(x.v == BigUint::ZERO, y.sec, y.v == BigUint::ZERO); (Fo::Mul, Io::Mul, (&x.v * &y.v) % &m, x.ty) }
            3 | 4 => {
                if bit || (y.v == BigUint::ZERO && (taken || (fld && k == 4))) { return; }
                s = x.sec | y.sec.when(fld && x.v != BigUint::ZERO);
                if self.ctx.is_some() && (!fld || k == 3) {
                    // the divisor is replaced by one if the branch is not taken, and so depends on the condition
                    s = Sec { may: true, must: x.sec.must };
                    if !fld { let cost = if x.ty == Some(Ib::U128) { 4 } else { 1 }; if self.yao < cost { return; } self.yao -= cost; }
                    (if k == 3 { Fo::Div } else { Fo::IntegerDiv }, Io::Div, if !taken { x.v.clone() } else if fld { big(&(F::from(x.v.clone()) * F::from(y.v.clone()).inverse().unwrap())) } else { &x.v / &y.v }, x.ty)
                } else if fld && k == 3 {
                    let v = if y.v == BigUint::ZERO { F::zero() } else { F::from(x.v.clone()) * F::from(y.v.clone()).inverse().unwrap() };
                    (Fo::Div, Io::Div, big(&v), x.ty)
                } else {
                    let pow2 = !y.sec.may && y.v.count_ones() == 1;
                    if sec.may && !pow2 { let cost = if fld || x.ty == Some(Ib::U128) { 4 } else { 1 }; if self.yao < cost { return; } self.yao -= cost; }
                    (Fo::IntegerDiv, Io::Div, &x.v / &y.v, x.ty)
                }
            }
            5 => (Fo::Equals, Io::Equals, BigUint::from((x.v == y.v) as u8), Some(Ib::U1)),
            6 => (Fo::LessThan, Io::LessThan, BigUint::from((x.v < y.v) as u8), Some(Ib::U1)),
            _ => (Fo::LessThanEquals, Io::LessThanEquals, BigUint::from((x.v <= y.v) as u8), Some(Ib::U1)),
        };
        let (lhs, rhs) = (self.ad(x.a), self.ad(y.a));
        let a = self.new(ty, v, s);
        let destination = self.ad(a);
        self.code.push(match x.ty { None => Bo::BinaryFieldOp { destination, op: fo, lhs, rhs }, Some(bit_size) => Bo::BinaryIntOp { destination, op: io, bit_size, lhs, rhs } });
        self.used.push(match (x.ty, k) { (None, 0..=2) => "f ring", (None, 3) => "f div", (None, 4) => "f int div", (None, _) => "f compare", (_, 0..=2) => "i ring", (_, 3 | 4) => "i div", _ => "i compare" });
    }
    fn step(&mut self, labels: bool) {
        match self.r.below(if labels { 13 } else { 9 }) {
            0..=3 => self.arith(),
            4 | 5 => {
                let Some(x) = self.pick(|_| true) else { return };
                if self.sh && x.sec.may { return; }
                let t = self.ty();
                let v = wrap(t, x.v.clone());
                let source = self.ad(x.a);
                let a = self.new(t, v, x.sec);
                let destination = self.ad(a);
                self.code.push(Bo::Cast { destination, source, bit_size: bsz(t) });
                self.used.push(match (x.ty, t) { (None, None) => "cast f f", (None, _) => "cast f i", (_, None) => "cast i f", (Some(a), Some(b)) => if ibits(a) < ibits(b) { "cast up" } else { "cast down" } });
            }
            6 => {
                let Some(x) = self.pick(|x| x.ty.is_some()) else { return };
                if self.sh && x.sec.may { return; }
                let b = x.ty.unwrap();
                let v = ((BigUint::one() << ibits(b)) - 1u8) ^ &x.v;
                let source = self.ad(x.a);
                let a = self.new(x.ty, v, x.sec);
                let destination = self.ad(a);
                self.code.push(Bo::Not { destination, source, bit_size: b });
                self.used.push("not");
            }
            7 => {
                let Some(x) = self.pick(|_| true) else { return };
                match self.r.below(3) {
                    0 => { let source = self.ad(x.a); let a = self.new(x.ty, x.v, x.sec); let destination = self.ad(a); self.code.push(Bo::Mov { destination, source }); }
                    1 => { let cell = 500 + self.r.below(50) as u32; let p = self.u32(cell); let (dp, s) = (self.ad(p), self.ad(x.a)); self.code.push(Bo::Store { destination_pointer: dp, source: s }); let sp = self.ad(p); let a = self.new(x.ty, x.v, x.sec); let d = self.ad(a); self.code.push(Bo::Load { destination: d, source_pointer: sp }); }
                    _ => { let t = self.ty(); let v = self.val(t); let a = self.fresh(); self.regs.push(Reg { a, ty: t, v: v.clone(), sec: PUB }); let p = self.u32(a); let dp = self.ad(p); self.code.push(Bo::IndirectConst { destination_pointer: dp, bit_size: bsz(t), value: g(F::from(v)) }); }
                }
                self.used.push("move");
            }
            8 => { let t = self.ty(); let v = self.val(t); let a = self.konst(t, v.clone()); self.regs.push(Reg { a, ty: t, v, sec: PUB }); }
            9 => self.radix(),
            10 => self.lp(),
            11 => self.public_if(),
            _ => {
                if self.ctx.is_some() { return; }
                // a call: the body is placed behind everything else
                let at = self.code.len();
                self.code.push(Bo::Call { location: 0 });
                let keep = std::mem::take(&mut self.code);
                for _ in 0..self.r.usize(1, 5) { self.step(false); }
                self.code.push(Bo::Return);
                let body = std::mem::replace(&mut self.code, keep);
                self.bodies.push((at, body));
                self.used.push("call");
            }
        }
    }
    fn radix(&mut self) {
        let Some(x) = self.pick(|x| x.ty.is_none()) else { return };
        if self.sh && x.sec.may { return; }
        let radix = *self.r.pick(&[2u32, 2, 4, 16, 256, 256, 3, 10, 255]);
        let pow2 = radix.is_power_of_two();
        if x.sec.may && !pow2 { if self.yao < 8 { return; } self.yao -= 8; }
        let n = if pow2 { *self.r.pick(&[1usize, 2, 8, 16, 31, 32]) } else { 2 };
        let bits = radix == 2 && self.r.chance(1, 2);
        let t = Some(if bits { Ib::U1 } else { Ib::U8 });
        let base = self.next;
        self.next += n as u32;
        let mut v = x.v.clone();
        let mut limbs = vec![];
        for _ in 0..n { limbs.push(&v % radix); v /= radix; }
        limbs.reverse();
        let (rx, ob, nl, p) = (self.u32(radix), self.konst(Some(Ib::U1), BigUint::from(bits as u8)), self.u32(n as u32), self.u32(base));
        let input = self.ad(x.a);
        let [radix, output_bits, num_limbs, output_pointer] = [rx, ob, nl, p].map(|a| self.ad(a));
        self.code.push(Bo::BlackBox(BlackBoxOp::ToRadix { input, radix, output_pointer, num_limbs, output_bits }));
        for (k, v) in limbs.into_iter().enumerate() { self.regs.push(Reg { a: base + k as u32, ty: t, v, sec: x.sec }); }
        self.used.push("to radix");
    }
    fn lp(&mut self) {
        let Some((x, y)) = self.two() else { return };
        if self.sh && (x.sec.may || y.sec.may) && x.ty.is_some() { return; }
        let times = self.r.usize(1, 4) as u32;
        let m: BigUint = match x.ty { None => F::MODULUS.into(), Some(b) => BigUint::one() << ibits(b) };
        let acc = self.fresh();
        let (d, s) = (self.ad(acc), self.ad(x.a));
        self.code.push(Bo::Mov { destination: d, source: s });
        let (cnt, one, lim) = (self.u32(0), self.u32(1), self.u32(times));
        let flag = self.fresh();
        let at = self.code.len();
        let mul = self.r.chance(1, 2);
        let (destination, lhs, rhs) = (self.ad(acc), self.ad(acc), self.ad(y.a));
        self.code.push(match x.ty { None => Bo::BinaryFieldOp { destination, op: if mul { Fo::Mul } else { Fo::Add }, lhs, rhs }, Some(bit_size) => Bo::BinaryIntOp { destination, op: if mul { Io::Mul } else { Io::Add }, bit_size, lhs, rhs } });
        let d = MemoryAddress::Direct;
        self.code.push(Bo::BinaryIntOp { destination: d(cnt), op: Io::Add, bit_size: Ib::U32, lhs: d(cnt), rhs: d(one) });
        self.code.push(Bo::BinaryIntOp { destination: d(flag), op: Io::LessThan, bit_size: Ib::U32, lhs: d(cnt), rhs: d(lim) });
        self.code.push(Bo::JumpIf { condition: d(flag), location: at });
        let mut v = x.v.clone();
        for _ in 0..times { v = if mul { v * &y.v } else { v + &y.v } % &m; }
        let sec = if mul { x.sec.mul(x.v == BigUint::ZERO, y.sec, y.v == BigUint::ZERO) } else { x.sec | y.sec };
        self.regs.push(Reg { a: acc, ty: x.ty, v, sec });
        self.used.push("loop");
    }
    fn public_if(&mut self) {
        let Some(c) = self.pick(|x| !x.sec.may && x.ty == Some(Ib::U1)) else { return };
        let condition = self.ad(c.a);
        let at = self.code.len();
        self.code.push(Bo::JumpIf { condition, location: 0 });
        let taken = c.v == BigUint::one();
        // the false branch, a jump over the true branch, the true branch
        for side in [false, true] {
            if side == taken { for _ in 0..2 { self.step(false); } } else if self.r.chance(1, 2) { self.trap(); } else { let (a, b) = (self.fresh(), self.fresh()); self.code.push(Bo::Mov { destination: MemoryAddress::Direct(a), source: MemoryAddress::Direct(b) }); }
            if !side { self.code.push(Bo::Jump { location: 0 }); let k = self.code.len(); if let Bo::JumpIf { location, .. } = &mut self.code[at] { *location = k; } self.outer.push(Reg { a: (k - 1) as u32, ty: None, v: BigUint::ZERO, sec: PUB }); }
        }
        let j = self.outer.pop().unwrap().a as usize;
        let k = self.code.len();
        if let Bo::Jump { location } = &mut self.code[j] { *location = k; }
        self.used.push("public if");
    }
    fn trap(&mut self) { let d = MemoryAddress::Direct; self.code.push(Bo::Trap { revert_data: HeapVector { pointer: d(1), size: d(1) } }); }
    fn store(&mut self) {
        let f: Vec<Reg> = (0..self.r.usize(1, 3)).filter_map(|_| self.pick(|x| x.ty.is_none())).collect();
        if f.is_empty() { return; }
        let name = format!("s{}x{}", self.nth, self.pss.len());
        let (nb, fb) = (self.next, self.next + name.len() as u32);
        self.next += (name.len() + f.len()) as u32;
        for (k, ch) in name.bytes().enumerate() { self.code.push(Bo::Const { destination: MemoryAddress::Direct(nb + k as u32), bit_size: BitSize::Integer(Ib::U8), value: g(F::from(ch)) }); }
        for (k, x) in f.iter().enumerate() { let s = self.ad(x.a); self.code.push(Bo::Mov { destination: MemoryAddress::Direct(fb + k as u32), source: s }); }
        let (p, q) = (self.u32(nb), self.u32(fb));
        let h = |p: u32, n: usize| ValueOrArray::HeapArray(HeapArray { pointer: MemoryAddress::Direct(p), size: SemiFlattenedLength(n as u32) });
        let ty = brillig::HeapValueType::Array { value_types: vec![], size: 0 };
        self.code.push(Bo::ForeignCall { function: "TACEO_store".into(), destinations: vec![], destination_value_types: vec![], inputs: vec![h(p, name.len()), h(q, f.len())], input_value_types: vec![ty.clone(), ty] });
        self.pss.insert(name, f.iter().map(|x| F::from(x.v.clone())).collect());
        self.used.push("store");
    }
    fn stop(&mut self, outs: &[Reg]) {
        for (k, x) in outs.iter().enumerate() { let s = self.ad(x.a); self.code.push(Bo::Mov { destination: MemoryAddress::Direct(OUT + k as u32), source: s }); }
        let (p, n) = (self.u32(OUT), self.u32(outs.len() as u32));
        let (pointer, size) = (self.ad(p), self.ad(n));
        self.code.push(Bo::Stop { return_data: HeapVector { pointer, size } });
    }
    fn program(&mut self, calldata: &[(F, Sec)], len: usize, stores: bool) -> Vec<Reg> {
        self.code.push(Bo::Const { destination: MemoryAddress::Direct(0), bit_size: BitSize::Integer(Ib::U32), value: g(F::from(SP)) });
        let (off, n) = (self.r.below(calldata.len() as u64) as usize, calldata.len());
        let off = if self.r.chance(2, 3) { 0 } else { off };
        let (s, o) = (self.u32((n - off) as u32), self.u32(off as u32));
        let base = self.next;
        self.next += (n - off) as u32;
        let d = MemoryAddress::Direct;
        self.code.push(Bo::CalldataCopy { destination_address: d(base), size_address: d(s), offset_address: d(o) });
        for (k, (v, sec)) in calldata[off..].iter().enumerate() { self.regs.push(Reg { a: base + k as u32, ty: None, v: big(v), sec: *sec }); }
        for _ in 0..len { self.step(true); }
        if stores && self.r.chance(1, 4) { self.store(); }
        if self.r.chance(1, 6) { self.code.push(Bo::ForeignCall { function: "__debug_var".into(), destinations: vec![], destination_value_types: vec![], inputs: vec![], input_value_types: vec![] }); }
        let cond = if self.pss.is_empty() && self.r.chance(1, 2) { self.pick(|x| x.sec.may && x.ty == Some(Ib::U1)) } else { None };
        let nout = self.r.usize(1, 6);
        let outs = if let Some(c) = cond {
            let condition = self.ad(c.a);
            let at = self.code.len();
            self.code.push(Bo::JumpIf { condition, location: 0 });
            let truth = c.v == BigUint::one();
            let (regs, next) = (self.regs.clone(), self.next);
            let types: Vec<Option<Ib>> = (0..nout).map(|_| self.pick(|_| true).unwrap().ty).collect();
            let traps = self.r.chance(1, 4);
            let mut result = vec![];
            for side in [false, true] {
                self.regs = regs.clone();
                self.next = next;
                for x in self.regs.iter_mut() { if x.a == c.a { x.v = BigUint::from(side as u8); x.sec = PUB; } }
                if side { let k = self.code.len(); if let Bo::JumpIf { location, .. } = &mut self.code[at] { *location = k; } }
                self.ctx = Some(side == truth);
                if traps && side != truth { self.trap(); continue; }
                for _ in 0..self.r.usize(1, 6) { self.step(false); }
                let mut outs = vec![];
                for t in &types { outs.push(match self.pick(|x| x.ty == *t) { Some(x) => x, None => { let v = self.val(*t); let a = self.konst(*t, v.clone()); Reg { a, ty: *t, v, sec: PUB } } }); }
                self.stop(&outs);
                if side == truth { result = outs; }
            }
            self.ctx = None;
            for x in result.iter_mut() { x.sec = Sec { may: true, must: false }; } // both sides may hold the same public value
            self.used.push(if traps { "shared if with trap" } else { "shared if" });
            result
        } else {
            let outs: Vec<Reg> = (0..nout).map(|_| self.pick(|_| true).unwrap()).collect();
            self.stop(&outs);
            outs
        };
        for (at, body) in std::mem::take(&mut self.bodies) {
            let k = self.code.len();
            if let Bo::Call { location } = &mut self.code[at] { *location = k; }
            self.code.extend(body);
        }
        outs
    }
}

pub struct Prog { pub art: ProgramArtifact, w: Vec<Wit>, ninp: usize, rets: Vec<usize>, pss: BTreeMap<String, Vec<F>>, used: Vec<&'static str> }
fn program(c: &Cfg, key: bool) -> Prog {
    let mut r = Rng::new(c.get("seed") as u64 ^ 0x4017);
    let (kinds, pubs, sh) = (c.get("kinds"), c.get("pubs") as u64, c.on("shamir"));
    let mut w = vec![];
    let mut points = vec![];
    for k in 0..16 {
        let (v, bits): (F, usize) = match k {
            0..=2 => (konst(r.next()), 254),
            3 | 4 => (F::from(r.below(2)), 1),
            5 | 6 => (F::from(r.below(4)), 2),
            7 | 8 => (F::from(r.below(256)), 8),
            9 | 10 => (F::from(r.next() as u32), 32),
            11 => (F::from(r.next()), 64),
            12 => (F::from(r.next() as u128 | (r.next() as u128) << 64), 128),
            _ => (F::from(r.below(12)), 8),
        };
        w.push(Wit { v, sec: Sec::of(!r.chance(pubs, 100)), bits });
    }
    if !sh && kinds >> 9 & 1 == 1 && c.on("heavy") {
        for k in 0..3u64 {
            points.push(w.len());
            let mut p: ark_grumpkin::Affine = ark_grumpkin::Projective::rand(&mut rand_chacha::ChaCha12Rng::seed_from_u64(r.next())).into();
            if k > 0 { let i = points[0]; if r.chance(1, 3) && w[i + 2].v.is_zero() { p = ark_grumpkin::Affine::new_unchecked(w[i].v, if r.chance(1, 2) { w[i + 1].v } else { -w[i + 1].v }); } }
            let inf = r.chance(1, 6);
            let (x, y) = if inf { (F::zero(), F::zero()) } else { (p.x, p.y) };
            let sec = !r.chance(pubs, 100);
            for (v, b) in [(x, 254), (y, 254), (F::from(inf), 1)] { w.push(Wit { v, sec: Sec::of(sec ^ r.chance(1, 8)), bits: b }); }
        }
    }
    let ninp = w.len();
    let yao = if c.on("heavy") { 10 } else { 3 };
    let mut g = Gen { r: &mut r, sh, key, brops: c.us("brops"), w, ninp, points, ops: vec![], fns: vec![], used: vec![], pss: BTreeMap::new(), yao, heavy: if c.on("heavy") { 2 } else { 0 } };
    for _ in 0..c.us("ops") {
        let k = g.r.below(KINDS as u64);
        if kinds >> k & 1 == 0 { g.assert_zero(); continue; }
        match k {
            0..=2 => g.assert_zero(),
            3 => g.logic(false),
            4 => g.logic(true),
            5 => g.range(),
            6 => g.memory(),
            7 => g.poseidon(),
            8 => g.hash(),
            9 => g.curve(),
            _ => g.brillig(),
        }
    }
    if g.ops.is_empty() { g.assert_zero(); g.fixed(F::one()); }
    let nr = c.us("rets").min(g.w.len() - ninp);
    let mut rets: Vec<usize> = (0..nr).map(|_| g.r.usize(ninp, g.w.len() - 1)).collect();
    rets.sort();
    rets.dedup();
    let circuit = Circuit {
        function_name: "main".into(),
        opcodes: g.ops,
        private_parameters: (0..ninp).filter(|i| g.w[*i].sec.may).map(wi).collect(),
        public_parameters: PublicInputs((0..ninp).filter(|i| !g.w[*i].sec.may).map(wi).collect()),
        return_values: PublicInputs(rets.iter().map(|i| wi(*i)).collect()),
    };
    let abi = noirc_abi::Abi { parameters: (0..ninp).map(|i| noirc_abi::AbiParameter { name: format!("i{i}"), typ: noirc_abi::AbiType::Field, visibility: if g.w[i].sec.may { noirc_abi::AbiVisibility::Private } else { noirc_abi::AbiVisibility::Public } }).collect(), return_type: None, error_types: BTreeMap::new() };
    let mut used = g.used.clone();
    used.sort();
    used.dedup();
    Prog { art: ProgramArtifact { abi, bytecode: Program { functions: vec![circuit], unconstrained_functions: g.fns } }, w: g.w, ninp: g.ninp, rets, pss: g.pss, used }
}

// ---- runs ------------------------------------------------------------------------------------------------
#[derive(Clone)]
enum Ent { P(F), R(rep3::Rep3PrimeFieldShare<F>), S(shamir::ShamirPrimeFieldShare<F>) }
type Got = Result<(BTreeMap<u32, Ent>, Vec<Ent>, BTreeMap<String, Vec<Ent>>), String>;
fn ent_r(x: Rep3AcvmType<F>) -> Ent { match x { Rep3AcvmType::Public(x) => Ent::P(x), Rep3AcvmType::Shared(x) => Ent::R(x) } }
fn ent_s(x: ShamirAcvmType<F>) -> Ent { match x { ShamirAcvmType::Public(x) => Ent::P(x), ShamirAcvmType::Shared(x) => Ent::S(x) } }
/// The value behind the parties' entries, and whether it is public.
fn value(e: &[Ent], t: usize) -> Result<(F, bool), String> {
    match &e[0] {
        Ent::P(x) => { for (p, y) in e.iter().enumerate() { match y { Ent::P(y) if x == y => {} Ent::P(_) => return Err(format!("P{p} and P0 hold different public values")), _ => return Err(format!("public for P0 and shared for P{p}")) } } Ok((*x, true)) }
        Ent::R(_) => {
            let v: Vec<rep3::Rep3PrimeFieldShare<F>> = e.iter().filter_map(|x| if let Ent::R(x) = x { Some(*x) } else { None }).collect();
            if v.len() < e.len() { return Err("shared for P0 and public for another".into()); }
            for p in 0..3 { if v[p].a != v[(p + 1) % 3].b { return Err(format!("the shares of P{p} and P{} do not agree", (p + 1) % 3)); } }
            Ok((v[0].a + v[1].a + v[2].a, false))
        }
        Ent::S(_) => {
            let v: Vec<F> = e.iter().filter_map(|x| if let Ent::S(x) = x { Some(x.inner()) } else { None }).collect();
            if v.len() < e.len() { return Err("shared for P0 and public for another".into()); }
            Ok((secret(&v, t)?, false))
        }
    }
}
fn run(c: &Cfg) {
    workers(c);
    wire(c);
    let prop: &'static str = "H03";
    let sh = c.on("shamir");
    let (n, t) = if sh { (c.us("n"), c.us("t")) } else { (3, 1) };
    let t = t.min((n - 1) / 2);
    let seed = c.get("seed") as u64;
    let pr = Arc::new(program(c, false));
    let what = format!("program of {} opcodes and {} witnesses ({}), {}", pr.art.bytecode.functions[0].opcodes.len(), pr.w.len(), pr.used.join(", "), if sh { format!("Shamir n={n} t={t}") } else { "replicated".into() });
    note(|| what.clone());
    for u in &pr.used { feat(format!("op {u}")); }
    feat(if sh { format!("Shamir n{n} t{t}") } else { "replicated".into() });
    // one party alone
    let map = |f: &dyn Fn(usize) -> F| { let mut m = WitnessMap::default(); for i in 0..pr.ninp { m.insert(wi(i), f(i)); } m };
    let alone = (|| -> Result<(), String> {
        let s = PlainCoSolver::<F>::new_bn254_with_witness(PlainAcvmSolver::default(), pr.art.clone(), map(&|i| pr.w[i].v)).map_err(|e| format!("{e:#}"))?;
        let (mut st, _) = s.solve_with_output().map_err(|e| format!("{e:#}"))?;
        let m = st.pop().ok_or("no witness")?.witness;
        for (i, w) in pr.w.iter().enumerate() { match m.get(&wi(i)) { Some(x) if *x == w.v => {} x => return Err(format!("witness {i} is {x:?}, expected {}", w.v)) } }
        Ok(())
    })();
    if let Err(e) = alone { viol(prop, "alone", format!("computed by one party in the clear: {e} ({what})")); return; }
    let mut o = link::opt(c);
    o.nets = 2;
    let mut dr = rand_chacha::ChaCha12Rng::seed_from_u64(seed ^ 0x717);
    let mut dealt: Vec<Vec<Ent>> = vec![vec![]; n];
    for w in &pr.w[..pr.ninp] {
        let e: Vec<Ent> = if !w.sec.may { vec![Ent::P(w.v); n] } else if sh { shamir::share_field_elements(&[w.v], t, n, &mut dr).into_iter().map(|x| Ent::S(x[0])).collect() } else { rep3::share_field_element(w.v, &mut dr).into_iter().map(Ent::R).collect() };
        for (d, e) in dealt.iter_mut().zip(e) { d.push(e); }
    }
    let res: Arc<Glob<BTreeMap<usize, Got>>> = Arc::new(Glob::new());
    let hold = c.on("hold");
    let (res2, pr2, dealt) = (res.clone(), pr.clone(), Arc::new(dealt));
    let body = move |p: usize, env: Env| {
        let nets = taps(&env);
        let got: eyre::Result<_> = (|| if sh {
            let mut m = WitnessMap::default();
            for (i, e) in dealt[p].iter().enumerate() { m.insert(wi(i), match e { Ent::P(x) => ShamirAcvmType::Public(*x), Ent::S(x) => ShamirAcvmType::Shared(*x), _ => unreachable!() }); }
            let (mut st, store) = ShamirCoSolver::new_with_witness(&nets[0], n, t, pr2.art.clone(), m)?.solve_with_output()?;
            let (out, pss) = store.into_inner();
            Ok((st.pop().unwrap().witness.into_iter().map(|(k, v)| (k.0, ent_s(v))).collect(), out.into_iter().map(ent_s).collect(), pss.into_iter().map(|(k, v)| (k, v.into_iter().map(ent_s).collect())).collect()))
        } else {
            let mut m = WitnessMap::default();
            for (i, e) in dealt[p].iter().enumerate() { m.insert(wi(i), match e { Ent::P(x) => Rep3AcvmType::Public(*x), Ent::R(x) => Rep3AcvmType::Shared(*x), _ => unreachable!() }); }
            let (mut st, store) = Rep3CoSolver::new_with_witness(&nets[0], &nets[1], pr2.art.clone(), m)?.solve_with_output()?;
            let (out, pss) = store.into_inner();
            Ok((st.pop().unwrap().witness.into_iter().map(|(k, v)| (k.0, ent_r(v))).collect(), out.into_iter().map(ent_r).collect(), pss.into_iter().map(|(k, v)| (k, v.into_iter().map(ent_r).collect())).collect()))
        })();
        let mut got = Some(got.map_err(|e| format!("{e:#}")));
        res2.with(|m| m.insert(p, got.take().unwrap()));
        if hold { gate(77, n, 2000 * os::SEC); }
        drop(nets);
        drop(env);
    };
    let all: Vec<usize> = (0..n).collect();
    let ids = parties(&o, prop, &all, &[], body);
    finish(prop, &ids, false, &o);
    let mut got = vec![];
    for p in 0..n { match res.with(|m| m.remove(&p)) { Some(Ok(x)) => got.push(x), Some(Err(e)) => { viol(prop, "failed", format!("P{p}: {e} ({what})")); return; } None => return } }
    for (i, w) in pr.w.iter().enumerate() {
        let e: Vec<Ent> = got.iter().filter_map(|x| x.0.get(&(i as u32)).cloned()).collect();
        if e.len() < n { viol(prop, "missing", format!("witness {i} is missing ({what})")); return; }
        match value(&e, t) {
            Err(x) => { viol(prop, "shares", format!("witness {i}: {x} ({what})")); return; }
            Ok((v, public)) => {
                if v != w.v { viol(prop, "wrong", format!("witness {i} is {v}, expected {} ({what})", w.v)); return; }
                if public && w.sec.must && !pr.rets.contains(&i) { viol(prop, "published", format!("witness {i} depends on secret inputs and is not returned, but is public ({what})")); return; }
                if !public && pr.rets.contains(&i) { viol(prop, "not-opened", format!("witness {i} is returned but still shared ({what})")); return; }
            }
        }
    }
    for p in 0..n {
        if got[p].0.len() != pr.w.len() { viol(prop, "surplus", format!("P{p} has {} witnesses instead of {} ({what})", got[p].0.len(), pr.w.len())); }
        let want: Vec<F> = pr.rets.iter().map(|i| pr.w[*i].v).collect();
        let mut outs: Vec<F> = got[p].1.iter().filter_map(|x| if let Ent::P(x) = x { Some(*x) } else { None }).collect();
        if outs != want { outs.reverse(); }
        if outs != want { viol(prop, "outputs", format!("P{p}'s outputs are not the returned values ({what})")); }
        if got[p].2.keys().ne(pr.pss.keys()) { viol(prop, "store", format!("P{p} has stored {:?} instead of {:?} ({what})", got[p].2.keys(), pr.pss.keys())); return; }
    }
    for (k, v) in &pr.pss { for (i, x) in v.iter().enumerate() {
        let e: Vec<Ent> = got.iter().filter_map(|g| g.2[k].get(i).cloned()).collect();
        if e.len() < n { viol(prop, "store", format!("stored value {k}[{i}] is missing ({what})")); return; }
        match value(&e, t) { Ok((y, _)) if y == *x => {} _ => { viol(prop, "store", format!("stored value {k}[{i}] is not what was stored ({what})")); return; } }
    } }
}
