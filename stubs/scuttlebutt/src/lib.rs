//! A stand-in for the part of swanky's `scuttlebutt` that mpc-core uses: the 128-bit block.
use rand::distributions::{Distribution, Standard};
use rand::Rng;
use subtle::{Choice, ConditionallySelectable};

#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, Debug)]
pub struct Block(pub [u8; 16]);

impl From<u128> for Block {
    fn from(x: u128) -> Self { Block(x.to_le_bytes()) }
}
impl From<Block> for u128 {
    fn from(x: Block) -> Self { u128::from_le_bytes(x.0) }
}
impl AsRef<[u8]> for Block {
    fn as_ref(&self) -> &[u8] { &self.0 }
}
impl AsMut<[u8]> for Block {
    fn as_mut(&mut self) -> &mut [u8] { &mut self.0 }
}
impl std::ops::BitXor for Block {
    type Output = Block;
    fn bitxor(self, o: Block) -> Block { (u128::from(self) ^ u128::from(o)).into() }
}
impl std::ops::BitXorAssign for Block {
    fn bitxor_assign(&mut self, o: Block) { *self = *self ^ o }
}
impl std::ops::BitAnd for Block {
    type Output = Block;
    fn bitand(self, o: Block) -> Block { (u128::from(self) & u128::from(o)).into() }
}
impl ConditionallySelectable for Block {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        let mut r = [0u8; 16];
        for (r, (a, b)) in r.iter_mut().zip(a.0.iter().zip(&b.0)) { *r = u8::conditional_select(a, b, c); }
        Block(r)
    }
}
impl Distribution<Block> for Standard {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> Block { r.gen::<u128>().into() }
}
