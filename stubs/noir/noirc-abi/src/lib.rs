use acir::{native_types::WitnessMap, FieldElement};
use std::collections::BTreeMap;

pub const MAIN_RETURN_NAME: &str = "return";
pub type InputMap = BTreeMap<String, input_parser::InputValue>;

#[derive(Clone, Debug, PartialEq)]
pub enum AbiType {
    Field,
    Array { length: u32, typ: Box<AbiType> },
}
impl AbiType {
    pub fn field_count(&self) -> u32 {
        match self {
            AbiType::Field => 1,
            AbiType::Array { length, typ } => length * typ.field_count(),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AbiVisibility {
    Public,
    Private,
}
#[derive(Clone, Debug, PartialEq)]
pub struct AbiParameter {
    pub name: String,
    pub typ: AbiType,
    pub visibility: AbiVisibility,
}
#[derive(Clone, Debug, PartialEq)]
pub struct AbiReturnType {
    pub abi_type: AbiType,
    pub visibility: AbiVisibility,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Abi {
    pub parameters: Vec<AbiParameter>,
    pub return_type: Option<AbiReturnType>,
    pub error_types: BTreeMap<u64, String>,
}
impl Abi {
    pub fn is_empty(&self) -> bool {
        self.parameters.is_empty() && self.return_type.is_none()
    }
    pub fn to_btree_map(&self) -> BTreeMap<String, AbiType> {
        self.parameters.iter().map(|p| (p.name.clone(), p.typ.clone())).collect()
    }
    pub fn encode(&self, _: &InputMap, _: Option<input_parser::InputValue>) -> Result<WitnessMap<FieldElement>, errors::InputParserError> {
        Err(errors::InputParserError::Unavailable)
    }
    #[allow(clippy::type_complexity)]
    pub fn decode(&self, _: &WitnessMap<FieldElement>) -> Result<(InputMap, Option<input_parser::InputValue>), errors::InputParserError> {
        Err(errors::InputParserError::Unavailable)
    }
}

pub mod errors {
    #[derive(Debug)]
    pub enum InputParserError {
        MissingArgument(String),
        Unavailable,
    }
    impl std::fmt::Display for InputParserError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for InputParserError {}
}

pub mod input_parser {
    use super::{errors::InputParserError, Abi, AbiType, InputMap};
    #[derive(Clone, Debug, PartialEq)]
    pub enum InputValue {
        Field(acir::FieldElement),
        Vec(Vec<InputValue>),
    }
    impl InputValue {
        pub fn try_from_json(_: json::JsonTypes, _: &AbiType, _: &str) -> Result<Self, InputParserError> {
            Err(InputParserError::Unavailable)
        }
    }
    pub enum Format {
        Json,
        Toml,
    }
    impl Format {
        pub fn parse(&self, _: &str, _: &Abi) -> Result<InputMap, InputParserError> {
            Err(InputParserError::Unavailable)
        }
    }
    pub mod json {
        #[derive(Clone, Debug)]
        pub enum JsonTypes {
            String(String),
            Integer(i64),
            Bool(bool),
            Array(Vec<JsonTypes>),
            Table(std::collections::BTreeMap<String, JsonTypes>),
        }
    }
}
