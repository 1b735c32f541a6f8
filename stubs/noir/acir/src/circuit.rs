use crate::native_types::Witness;
use std::collections::BTreeSet;
use std::fmt;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct PublicInputs(pub BTreeSet<Witness>);

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Circuit<F> {
    pub function_name: String,
    pub opcodes: Vec<Opcode<F>>,
    pub private_parameters: BTreeSet<Witness>,
    pub public_parameters: PublicInputs,
    pub return_values: PublicInputs,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Program<F> {
    pub functions: Vec<Circuit<F>>,
    pub unconstrained_functions: Vec<brillig::BrilligBytecode<F>>,
}

pub use opcodes::Opcode;

pub mod brillig {
    use crate::native_types::{Expression, Witness};
    use std::fmt;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
    pub struct BrilligFunctionId(pub u32);
    impl BrilligFunctionId {
        pub fn as_usize(&self) -> usize {
            self.0 as usize
        }
    }
    impl fmt::Display for BrilligFunctionId {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct BrilligBytecode<F> {
        pub function_name: String,
        pub bytecode: Vec<crate::brillig::Opcode<F>>,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum BrilligInputs<F> {
        Single(Expression<F>),
        Array(Vec<Expression<F>>),
        MemoryArray(super::opcodes::BlockId),
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum BrilligOutputs {
        Simple(Witness),
        Array(Vec<Witness>),
    }
}

pub mod opcodes {
    use super::brillig::{BrilligFunctionId, BrilligInputs, BrilligOutputs};
    use crate::native_types::{Expression, Witness};

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
    pub struct BlockId(pub u32);
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum MemOpKind {
        Read,
        Write,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct MemOp<F> {
        pub operation: MemOpKind,
        pub index: Witness,
        pub value: Witness,
        pub _field: std::marker::PhantomData<F>,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum BlockType {
        Memory,
        CallData(u32),
        ReturnData,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum FunctionInput<F> {
        Constant(F),
        Witness(Witness),
    }
    impl<F> FunctionInput<F> {
        pub fn to_witness(&self) -> Witness {
            match self {
                Self::Constant(_) => panic!("expected a witness, found a constant"),
                Self::Witness(w) => *w,
            }
        }
    }

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum BlackBoxFuncCall<F> {
        AES128Encrypt { inputs: Vec<FunctionInput<F>>, iv: Box<[FunctionInput<F>; 16]>, key: Box<[FunctionInput<F>; 16]>, outputs: Vec<Witness> },
        AND { lhs: FunctionInput<F>, rhs: FunctionInput<F>, num_bits: u32, output: Witness },
        XOR { lhs: FunctionInput<F>, rhs: FunctionInput<F>, num_bits: u32, output: Witness },
        RANGE { input: FunctionInput<F>, num_bits: u32 },
        Blake2s { inputs: Vec<FunctionInput<F>>, outputs: Box<[Witness; 32]> },
        Blake3 { inputs: Vec<FunctionInput<F>>, outputs: Box<[Witness; 32]> },
        EcdsaSecp256k1 {
            public_key_x: Box<[FunctionInput<F>; 32]>,
            public_key_y: Box<[FunctionInput<F>; 32]>,
            signature: Box<[FunctionInput<F>; 64]>,
            hashed_message: Box<[FunctionInput<F>; 32]>,
            predicate: FunctionInput<F>,
            output: Witness,
        },
        EcdsaSecp256r1 {
            public_key_x: Box<[FunctionInput<F>; 32]>,
            public_key_y: Box<[FunctionInput<F>; 32]>,
            signature: Box<[FunctionInput<F>; 64]>,
            hashed_message: Box<[FunctionInput<F>; 32]>,
            predicate: FunctionInput<F>,
            output: Witness,
        },
        MultiScalarMul { points: Vec<FunctionInput<F>>, scalars: Vec<FunctionInput<F>>, predicate: FunctionInput<F>, outputs: (Witness, Witness, Witness) },
        EmbeddedCurveAdd { input1: Box<[FunctionInput<F>; 3]>, input2: Box<[FunctionInput<F>; 3]>, predicate: FunctionInput<F>, outputs: (Witness, Witness, Witness) },
        Keccakf1600 { inputs: Box<[FunctionInput<F>; 25]>, outputs: Box<[Witness; 25]> },
        RecursiveAggregation {
            verification_key: Vec<FunctionInput<F>>,
            proof: Vec<FunctionInput<F>>,
            public_inputs: Vec<FunctionInput<F>>,
            key_hash: FunctionInput<F>,
            proof_type: u32,
            predicate: FunctionInput<F>,
        },
        Poseidon2Permutation { inputs: Vec<FunctionInput<F>>, outputs: Vec<Witness> },
        Sha256Compression { inputs: Box<[FunctionInput<F>; 16]>, hash_values: Box<[FunctionInput<F>; 8]>, outputs: Box<[Witness; 8]> },
    }

    impl<F: Copy> BlackBoxFuncCall<F> {
        pub fn name(&self) -> &'static str {
            "black box function"
        }
        pub fn get_inputs_vec(&self) -> Vec<FunctionInput<F>> {
            use BlackBoxFuncCall::*;
            match self {
                AES128Encrypt { inputs, iv, key, .. } => inputs.iter().chain(iv.iter()).chain(key.iter()).copied().collect(),
                AND { lhs, rhs, .. } | XOR { lhs, rhs, .. } => vec![*lhs, *rhs],
                RANGE { input, .. } => vec![*input],
                Blake2s { inputs, .. } | Blake3 { inputs, .. } | Poseidon2Permutation { inputs, .. } => inputs.clone(),
                EcdsaSecp256k1 { public_key_x, public_key_y, signature, hashed_message, predicate, .. }
                | EcdsaSecp256r1 { public_key_x, public_key_y, signature, hashed_message, predicate, .. } => {
                    public_key_x.iter().chain(public_key_y.iter()).chain(signature.iter()).chain(hashed_message.iter()).chain([predicate]).copied().collect()
                }
                MultiScalarMul { points, scalars, predicate, .. } => points.iter().chain(scalars).chain([predicate]).copied().collect(),
                EmbeddedCurveAdd { input1, input2, predicate, .. } => input1.iter().chain(input2.iter()).chain([predicate]).copied().collect(),
                Keccakf1600 { inputs, .. } => inputs.to_vec(),
                RecursiveAggregation { verification_key, proof, public_inputs, key_hash, predicate, .. } => {
                    verification_key.iter().chain(proof).chain(public_inputs).chain([key_hash, predicate]).copied().collect()
                }
                Sha256Compression { inputs, hash_values, .. } => inputs.iter().chain(hash_values.iter()).copied().collect(),
            }
        }
    }

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Opcode<F> {
        AssertZero(Expression<F>),
        BlackBoxFuncCall(BlackBoxFuncCall<F>),
        MemoryOp { block_id: BlockId, op: MemOp<F> },
        MemoryInit { block_id: BlockId, init: Vec<Witness>, block_type: BlockType },
        BrilligCall { id: BrilligFunctionId, inputs: Vec<BrilligInputs<F>>, outputs: Vec<BrilligOutputs>, predicate: Expression<F> },
        Call { id: u32, inputs: Vec<Witness>, outputs: Vec<Witness>, predicate: Expression<F> },
    }
}

impl<F: fmt::Debug> fmt::Display for Opcode<F> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
