//! The opcodes of Brillig.
use std::fmt;

pub type Label = usize;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum MemoryAddress {
    Direct(u32),
    Relative(u32),
}
impl MemoryAddress {
    pub fn direct(a: u32) -> Self {
        Self::Direct(a)
    }
    pub fn relative(o: u32) -> Self {
        Self::Relative(o)
    }
    pub fn unwrap_direct(self) -> u32 {
        match self {
            Self::Direct(a) => a,
            Self::Relative(_) => panic!("expected a direct memory address"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum IntegerBitSize {
    U1,
    U8,
    U16,
    U32,
    U64,
    U128,
}
impl From<IntegerBitSize> for u32 {
    fn from(b: IntegerBitSize) -> u32 {
        match b {
            IntegerBitSize::U1 => 1,
            IntegerBitSize::U8 => 8,
            IntegerBitSize::U16 => 16,
            IntegerBitSize::U32 => 32,
            IntegerBitSize::U64 => 64,
            IntegerBitSize::U128 => 128,
        }
    }
}
impl fmt::Display for IntegerBitSize {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "u{}", u32::from(*self))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum BitSize {
    Field,
    Integer(IntegerBitSize),
}
impl fmt::Display for BitSize {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SemiFlattenedLength(pub u32);
impl SemiFlattenedLength {
    pub fn to_usize(self) -> usize {
        self.0 as usize
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct HeapArray {
    pub pointer: MemoryAddress,
    pub size: SemiFlattenedLength,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct HeapVector {
    pub pointer: MemoryAddress,
    pub size: MemoryAddress,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum HeapValueType {
    Simple(BitSize),
    Array { value_types: Vec<HeapValueType>, size: u32 },
    Vector { value_types: Vec<HeapValueType> },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum ValueOrArray {
    MemoryAddress(MemoryAddress),
    HeapArray(HeapArray),
    HeapVector(HeapVector),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinaryFieldOp {
    Add,
    Sub,
    Mul,
    Div,
    IntegerDiv,
    Equals,
    LessThan,
    LessThanEquals,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinaryIntOp {
    Add,
    Sub,
    Mul,
    Div,
    Equals,
    LessThan,
    LessThanEquals,
    And,
    Or,
    Xor,
    Shl,
    Shr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BlackBoxOp {
    ToRadix { input: MemoryAddress, radix: MemoryAddress, output_pointer: MemoryAddress, num_limbs: MemoryAddress, output_bits: MemoryAddress },
    Other,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Opcode<F> {
    BinaryFieldOp { destination: MemoryAddress, op: BinaryFieldOp, lhs: MemoryAddress, rhs: MemoryAddress },
    BinaryIntOp { destination: MemoryAddress, op: BinaryIntOp, bit_size: IntegerBitSize, lhs: MemoryAddress, rhs: MemoryAddress },
    Not { destination: MemoryAddress, source: MemoryAddress, bit_size: IntegerBitSize },
    Cast { destination: MemoryAddress, source: MemoryAddress, bit_size: BitSize },
    JumpIf { condition: MemoryAddress, location: Label },
    Jump { location: Label },
    CalldataCopy { destination_address: MemoryAddress, size_address: MemoryAddress, offset_address: MemoryAddress },
    Call { location: Label },
    Const { destination: MemoryAddress, bit_size: BitSize, value: F },
    IndirectConst { destination_pointer: MemoryAddress, bit_size: BitSize, value: F },
    Return,
    ForeignCall {
        function: String,
        destinations: Vec<ValueOrArray>,
        destination_value_types: Vec<HeapValueType>,
        inputs: Vec<ValueOrArray>,
        input_value_types: Vec<HeapValueType>,
    },
    Mov { destination: MemoryAddress, source: MemoryAddress },
    ConditionalMov { destination: MemoryAddress, source_a: MemoryAddress, source_b: MemoryAddress, condition: MemoryAddress },
    Load { destination: MemoryAddress, source_pointer: MemoryAddress },
    Store { destination_pointer: MemoryAddress, source: MemoryAddress },
    BlackBox(BlackBoxOp),
    Trap { revert_data: HeapVector },
    Stop { return_data: HeapVector },
}
