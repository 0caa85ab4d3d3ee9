//! Interface of `asc-compiler-rs` as /repo uses it (signatures only).
pub mod error {
    use std::fmt;
    #[derive(Debug, Clone)]
    pub struct CompilerSetupError(());
    #[derive(Debug)]
    pub struct CompilationError(());
    macro_rules! err { ($($t:ident)*) => { $(
        impl fmt::Display for $t {
            fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} }
        }
        impl std::error::Error for $t {}
    )* } }
    err!(CompilerSetupError CompilationError);
}
pub mod options {
    pub struct CompilerOptions(());
    impl CompilerOptions {
        pub fn default_for(_: impl Into<String>) -> Self {
            loop {}
        }
    }
}
pub mod compiler {
    #[derive(Debug, Clone)]
    pub struct Compiler(());
    impl Compiler {
        pub fn new() -> Result<Self, super::error::CompilerSetupError> {
            loop {}
        }
        pub fn compile(&self, _: &super::options::CompilerOptions) -> Result<Vec<u8>, super::error::CompilationError> {
            loop {}
        }
    }
}
