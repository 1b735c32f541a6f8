//! A stand-in for the part of swanky's `fancy-garbling` that mpc-core uses: binary wire labels, their
//! hash, bundles, and the traits that garblers and evaluators implement. The garbling itself (half
//! gates, circuits, transport) is mpc-core's own code. The hash is a mixing function, not a cipher.
use rand::{CryptoRng, Rng, RngCore};
use scuttlebutt::Block;
use std::fmt::{Debug, Display};
use subtle::{Choice, ConditionallySelectable};

pub mod errors {
    use std::fmt::{self, Display, Formatter};
    macro_rules! err {
        ($n:ident { $($v:ident),* }) => {
            #[derive(Debug)]
            pub enum $n { CommunicationError(String), FancyError(FancyError), $($v),* }
            impl Display for $n {
                fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
            }
            impl std::error::Error for $n {}
            impl From<FancyError> for $n {
                fn from(e: FancyError) -> Self { $n::FancyError(e) }
            }
        };
    }
    #[derive(Debug)]
    pub enum FancyError { UnequalModuli, NotImplemented, InvalidArg(String), InvalidArgNum { got: usize, needed: usize }, InvalidArgMod { got: u16, needed: u16 }, ArgNotBinary, UninitializedValue }
    impl Display for FancyError {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
    }
    impl std::error::Error for FancyError {}
    err!(GarblerError { AsymmetricHalfGateModuliMax8, TruthTableRequired });
    err!(EvaluatorError { DecodingFailed });
}
pub use errors::FancyError;

pub mod util {
    use scuttlebutt::Block;
    /// The tweak of output `i` and value `k`.
    pub fn output_tweak(i: usize, k: u16) -> Block { u128::from(((i as u64) << 32) | k as u64).into() }
    /// A tweak of two numbers.
    pub fn tweak2(i: u64, j: u64) -> Block { ((i as u128) | ((j as u128) << 64)).into() }
    pub fn tweak(i: usize) -> Block { (i as u128).into() }
}

fn mix(mut x: u128) -> u128 {
    for _ in 0..2 {
        x ^= x >> 67;
        x = x.wrapping_mul(0x9e3779b97f4a7c15f39cc0605cedc835);
        x ^= x >> 59;
        x = x.wrapping_mul(0xd1342543de82ef95c2b2ae3d27d4eb4f);
    }
    x ^ (x >> 64)
}

pub trait WireLabel: Clone + HasModulus {
    fn as_block(&self) -> Block;
    fn from_block(b: Block, q: u16) -> Self;
    fn color(&self) -> u16;
    fn plus_eq<'a>(&'a mut self, o: &Self) -> &'a mut Self;
    fn cmul_eq(&mut self, c: u16) -> &mut Self;
    fn negate_eq(&mut self) -> &mut Self;
    fn zero(q: u16) -> Self;
    fn rand<R: CryptoRng + RngCore>(r: &mut R, q: u16) -> Self;
    fn rand_delta<R: CryptoRng + Rng>(r: &mut R, q: u16) -> Self;
    fn hash_to_mod(h: Block, q: u16) -> Self;
    fn hash(&self, tweak: Block) -> Block { mix(u128::from(self.as_block()) ^ mix(u128::from(tweak) ^ 0x5851f42d4c957f2d)).into() }
    fn plus(&self, o: &Self) -> Self { self.clone().plus_mov(o) }
    fn plus_mov(mut self, o: &Self) -> Self { self.plus_eq(o); self }
    fn cmul(&self, c: u16) -> Self { self.clone().cmul_mov(c) }
    fn cmul_mov(mut self, c: u16) -> Self { self.cmul_eq(c); self }
    fn negate(&self) -> Self { self.clone().negate_mov() }
    fn negate_mov(mut self) -> Self { self.negate_eq(); self }
    fn minus(&self, o: &Self) -> Self { self.plus(&o.negate()) }
}

pub trait HasModulus {
    fn modulus(&self) -> u16;
}

/// A binary wire label; its least significant bit is the colour.
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub struct WireMod2 { val: Block }

impl HasModulus for WireMod2 {
    fn modulus(&self) -> u16 { 2 }
}
impl ConditionallySelectable for WireMod2 {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { WireMod2 { val: Block::conditional_select(&a.val, &b.val, c) } }
}
impl WireLabel for WireMod2 {
    fn as_block(&self) -> Block { self.val }
    fn from_block(val: Block, q: u16) -> Self { assert_eq!(q, 2); WireMod2 { val } }
    fn color(&self) -> u16 { (self.val.0[0] & 1) as u16 }
    fn plus_eq<'a>(&'a mut self, o: &Self) -> &'a mut Self { self.val ^= o.val; self }
    fn cmul_eq(&mut self, c: u16) -> &mut Self { if c & 1 == 0 { self.val = Block::default(); } self }
    fn negate_eq(&mut self) -> &mut Self { self }
    fn zero(_q: u16) -> Self { Self::default() }
    fn rand<R: CryptoRng + RngCore>(r: &mut R, _q: u16) -> Self { WireMod2 { val: r.gen() } }
    fn rand_delta<R: CryptoRng + Rng>(r: &mut R, q: u16) -> Self { let mut w = Self::rand(r, q); w.val.0[0] |= 1; w }
    fn hash_to_mod(h: Block, q: u16) -> Self { Self::from_block(h, q) }
}

pub fn hash_wires<const Q: usize, W: WireLabel>(wires: [&W; Q], tweak: Block) -> [Block; Q] { wires.map(|w| w.hash(tweak)) }

/// A bundle of binary wires.
#[derive(Clone, Debug)]
pub struct BinaryBundle<W>(Vec<W>);
impl<W: Clone + HasModulus> BinaryBundle<W> {
    pub fn new(ws: Vec<W>) -> Self { BinaryBundle(ws) }
    pub fn wires(&self) -> &[W] { &self.0 }
    pub fn wires_mut(&mut self) -> &mut Vec<W> { &mut self.0 }
    pub fn size(&self) -> usize { self.0.len() }
    pub fn iter(&self) -> std::slice::Iter<'_, W> { self.0.iter() }
    pub fn extract(self) -> Self { self }
}

pub trait Fancy {
    type Item: Clone + HasModulus;
    type Error: Debug + Display + From<FancyError>;
    fn constant(&mut self, x: u16, q: u16) -> Result<Self::Item, Self::Error>;
    fn output(&mut self, x: &Self::Item) -> Result<Option<u16>, Self::Error>;
    fn outputs(&mut self, xs: &[Self::Item]) -> Result<Option<Vec<u16>>, Self::Error> {
        let mut out = Vec::with_capacity(xs.len());
        let mut all = true;
        for x in xs { match self.output(x)? { Some(v) => out.push(v), None => all = false } }
        Ok(all.then_some(out))
    }
}

pub trait FancyBinary: Fancy {
    fn xor(&mut self, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error>;
    fn and(&mut self, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error>;
    fn negate(&mut self, x: &Self::Item) -> Result<Self::Item, Self::Error>;
    fn or(&mut self, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error> {
        let nx = self.negate(x)?;
        let ny = self.negate(y)?;
        let z = self.and(&nx, &ny)?;
        self.negate(&z)
    }
    fn mux(&mut self, b: &Self::Item, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error> {
        let d = self.xor(x, y)?;
        let s = self.and(b, &d)?;
        self.xor(x, &s)
    }
    fn and_many(&mut self, args: &[Self::Item]) -> Result<Self::Item, Self::Error> {
        let mut acc = args.first().ok_or(FancyError::InvalidArgNum { got: 0, needed: 1 })?.clone();
        for a in &args[1..] { acc = self.and(&acc, a)?; }
        Ok(acc)
    }
    fn or_many(&mut self, args: &[Self::Item]) -> Result<Self::Item, Self::Error> {
        let mut acc = args.first().ok_or(FancyError::InvalidArgNum { got: 0, needed: 1 })?.clone();
        for a in &args[1..] { acc = self.or(&acc, a)?; }
        Ok(acc)
    }
    fn xor_many(&mut self, args: &[Self::Item]) -> Result<Self::Item, Self::Error> {
        let mut acc = args.first().ok_or(FancyError::InvalidArgNum { got: 0, needed: 1 })?.clone();
        for a in &args[1..] { acc = self.xor(&acc, a)?; }
        Ok(acc)
    }
}
