//! Interface of `rust-to-wasm-compiler` as /repo uses it (signatures only).
use std::fmt;
use std::path::Path;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum WasiSupport {
    Enabled,
    Disabled,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Profile {
    Dev,
    Release,
}
#[derive(Debug, Clone)]
pub struct CompilerSetupError(());
#[derive(Debug)]
pub struct CompilationError(());
macro_rules! err { ($($t:ident)*) => { $(
    impl fmt::Display for $t {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} }
    }
    impl std::error::Error for $t {}
)* } }
err!(CompilerSetupError CompilationError);
pub struct RustToWasmCompiler(());
impl RustToWasmCompiler {
    pub fn new() -> Result<Self, CompilerSetupError> {
        loop {}
    }
    pub fn compile(&self, _: WasiSupport, _: &Path, _: Profile) -> Result<Vec<u8>, CompilationError> {
        loop {}
    }
    pub fn compile_source(&self, _: WasiSupport, _: &str, _: &str, _: Profile) -> Result<Vec<u8>, CompilationError> {
        loop {}
    }
}
