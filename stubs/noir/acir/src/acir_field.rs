use ark_ff::{BigInteger, PrimeField};
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct GenericFieldElement<F: PrimeField>(F);
pub type FieldElement = GenericFieldElement<ark_bn254::Fr>;

impl<F: PrimeField> GenericFieldElement<F> {
    pub fn from_repr(f: F) -> Self {
        Self(f)
    }
    pub fn into_repr(self) -> F {
        self.0
    }
}

impl<F: PrimeField> fmt::Display for GenericFieldElement<F> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<F: PrimeField> fmt::Debug for GenericFieldElement<F> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

pub trait AcirField: Clone + Copy + Sized + PartialEq + fmt::Debug + fmt::Display {
    fn zero() -> Self;
    fn one() -> Self;
    fn is_zero(&self) -> bool;
    fn is_one(&self) -> bool;
    fn num_bits(&self) -> u32;
}

impl<F: PrimeField> AcirField for GenericFieldElement<F> {
    fn zero() -> Self {
        Self(F::zero())
    }
    fn one() -> Self {
        Self(F::one())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
    fn is_one(&self) -> bool {
        self.0.is_one()
    }
    fn num_bits(&self) -> u32 {
        self.0.into_bigint().num_bits()
    }
}
