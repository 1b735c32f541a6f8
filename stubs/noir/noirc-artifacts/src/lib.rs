pub mod program {
    use acir::{circuit::Program, FieldElement};

    #[derive(Clone, Debug)]
    pub struct ProgramArtifact {
        pub abi: noirc_abi::Abi,
        pub bytecode: Program<FieldElement>,
    }

    impl<'de> serde::Deserialize<'de> for ProgramArtifact {
        fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
            Err(serde::de::Error::custom("not available in the stand-in"))
        }
    }
}
