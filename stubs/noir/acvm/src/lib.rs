pub mod brillig_vm { pub const MEMORY_ADDRESSING_BIT_SIZE: acir::brillig::IntegerBitSize = acir::brillig::IntegerBitSize::U32; }
