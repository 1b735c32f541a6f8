use crate::acir_field::AcirField;
use std::collections::btree_map;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Witness(pub u32);

impl Witness {
    pub fn witness_index(&self) -> u32 {
        self.0
    }
    pub const fn as_usize(&self) -> usize {
        self.0 as usize
    }
}
impl From<u32> for Witness {
    fn from(v: u32) -> Self {
        Self(v)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Expression<F> {
    pub mul_terms: Vec<(F, Witness, Witness)>,
    pub linear_combinations: Vec<(F, Witness)>,
    pub q_c: F,
}

impl<F> Expression<F> {
    pub fn to_const(&self) -> Option<&F> {
        (self.mul_terms.is_empty() && self.linear_combinations.is_empty()).then_some(&self.q_c)
    }
}
impl<F: AcirField> Default for Expression<F> {
    fn default() -> Self {
        Self { mul_terms: vec![], linear_combinations: vec![], q_c: F::zero() }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct WitnessMap<F>(BTreeMap<Witness, F>);

impl<F> Default for WitnessMap<F> {
    fn default() -> Self {
        Self(BTreeMap::new())
    }
}
impl<F> WitnessMap<F> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn get(&self, w: &Witness) -> Option<&F> {
        self.0.get(w)
    }
    pub fn get_index(&self, i: u32) -> Option<&F> {
        self.0.get(&Witness(i))
    }
    pub fn contains_key(&self, w: &Witness) -> bool {
        self.0.contains_key(w)
    }
    pub fn insert(&mut self, w: Witness, v: F) -> Option<F> {
        self.0.insert(w, v)
    }
}
impl<F> From<BTreeMap<Witness, F>> for WitnessMap<F> {
    fn from(m: BTreeMap<Witness, F>) -> Self {
        Self(m)
    }
}
impl<F> IntoIterator for WitnessMap<F> {
    type Item = (Witness, F);
    type IntoIter = btree_map::IntoIter<Witness, F>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct WitnessStack<F> {
    stack: Vec<StackItem<F>>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StackItem<F> {
    pub index: u32,
    pub witness: WitnessMap<F>,
}
impl<F> Default for WitnessStack<F> {
    fn default() -> Self {
        Self { stack: vec![] }
    }
}
impl<F> WitnessStack<F> {
    pub fn push(&mut self, index: u32, witness: WitnessMap<F>) {
        self.stack.push(StackItem { index, witness });
    }
    pub fn pop(&mut self) -> Option<StackItem<F>> {
        self.stack.pop()
    }
    pub fn peek(&self) -> Option<&StackItem<F>> {
        self.stack.last()
    }
    pub fn length(&self) -> usize {
        self.stack.len()
    }
    pub fn deserialize(_: &[u8]) -> Result<Self, String> {
        Err("not available in the stand-in".into())
    }
}
