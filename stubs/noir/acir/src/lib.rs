//! The data types of Noir's intermediate representation, as far as co-noir reads them. No logic worth verifying lives here.
pub mod acir_field;
pub mod brillig;
pub mod circuit;
pub mod native_types;
pub use acir_field::{AcirField, FieldElement};
