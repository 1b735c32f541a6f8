pub use acir::brillig::*;
