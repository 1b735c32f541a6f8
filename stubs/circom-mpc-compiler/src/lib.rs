//! Stand-in for the compiler, which needs circom's crates (not available offline): only the names that co-circom's
//! library hands on.
pub struct CoCircomCompiler;
pub struct CompilerConfig;
pub enum SimplificationLevel {}
