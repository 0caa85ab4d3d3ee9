//! Interface of `wasabi_wasm` as /repo uses it: the types as they are, the
//! functions by signature only (their meaning is in vf/models_wasm.py; nothing
//! here runs).
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

pub struct Idx<T>(u32, PhantomData<fn() -> T>);
impl<T> Clone for Idx<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Idx<T> {}
impl<T> PartialEq for Idx<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T> Eq for Idx<T> {}
impl<T> PartialOrd for Idx<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<T> Ord for Idx<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl<T> Hash for Idx<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<T> fmt::Debug for Idx<T> {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        loop {}
    }
}
impl<T> Idx<T> {
    pub fn to_u32(self) -> u32 {
        self.0
    }
    pub fn to_usize(self) -> usize {
        self.0 as usize
    }
}
impl<T> From<u32> for Idx<T> {
    fn from(i: u32) -> Self {
        Idx(i, PhantomData)
    }
}
impl<T> From<usize> for Idx<T> {
    fn from(i: usize) -> Self {
        Idx(i as u32, PhantomData)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Ord, PartialOrd, Debug)]
pub struct Label(u32);
impl Label {
    pub fn to_u32(self) -> u32 {
        self.0
    }
    pub fn to_usize(self) -> usize {
        self.0 as usize
    }
}
impl From<u32> for Label {
    fn from(i: u32) -> Self {
        Label(i)
    }
}
impl From<usize> for Label {
    fn from(i: usize) -> Self {
        Label(i as u32)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Ord, PartialOrd)]
pub enum RefType {
    FuncRef,
    ExternRef,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Ord, PartialOrd)]
pub enum ValType {
    I32,
    I64,
    F32,
    F64,
    Ref(RefType),
}
impl ValType {
    pub fn zero(self) -> Val {
        loop {}
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Ord, PartialOrd)]
pub struct F32(u32);
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Ord, PartialOrd)]
pub struct F64(u64);
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Ord, PartialOrd)]
pub enum Val {
    I32(i32),
    I64(i64),
    F32(F32),
    F64(F64),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Ord, PartialOrd)]
pub struct FunctionType(u64);
impl FunctionType {
    pub fn new(_: &[ValType], _: &[ValType]) -> Self {
        loop {}
    }
    pub fn empty() -> Self {
        loop {}
    }
    pub fn inputs(&self) -> &'static [ValType] {
        loop {}
    }
    pub fn results(&self) -> &'static [ValType] {
        loop {}
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Ord, PartialOrd)]
pub struct Memarg {
    pub alignment_exp: u8,
    pub offset: u32,
}
pub trait MemoryOp: Sized {}
impl MemoryOp for LoadOp {}
impl MemoryOp for StoreOp {}
impl Memarg {
    pub fn default(_: impl MemoryOp) -> Self {
        loop {}
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Ord, PartialOrd)]
pub enum LocalOp {
    Get,
    Set,
    Tee,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Ord, PartialOrd)]
pub enum GlobalOp {
    Get,
    Set,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Ord, PartialOrd)]
pub enum LoadOp {
    I32Load,
    I64Load,
    F32Load,
    F64Load,
    I32Load8S,
    I32Load8U,
    I32Load16S,
    I32Load16U,
    I64Load8S,
    I64Load8U,
    I64Load16S,
    I64Load16U,
    I64Load32S,
    I64Load32U,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Ord, PartialOrd)]
pub enum StoreOp {
    I32Store,
    I64Store,
    F32Store,
    F64Store,
    I32Store8,
    I32Store16,
    I64Store8,
    I64Store16,
    I64Store32,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Ord, PartialOrd)]
pub enum UnaryOp {
    I32Eqz,
    I64Eqz,
    I32Clz,
    I32Ctz,
    I32Popcnt,
    I64Clz,
    I64Ctz,
    I64Popcnt,
    F32Abs,
    F32Neg,
    F32Ceil,
    F32Floor,
    F32Trunc,
    F32Nearest,
    F32Sqrt,
    F64Abs,
    F64Neg,
    F64Ceil,
    F64Floor,
    F64Trunc,
    F64Nearest,
    F64Sqrt,
    I32WrapI64,
    I32TruncF32S,
    I32TruncF32U,
    I32TruncF64S,
    I32TruncF64U,
    I32TruncSatF32S,
    I32TruncSatF32U,
    I32TruncSatF64S,
    I32TruncSatF64U,
    I64ExtendI32S,
    I64ExtendI32U,
    I64TruncF32S,
    I64TruncF32U,
    I64TruncF64S,
    I64TruncF64U,
    I64TruncSatF32S,
    I64TruncSatF32U,
    I64TruncSatF64S,
    I64TruncSatF64U,
    F32ConvertI32S,
    F32ConvertI32U,
    F32ConvertI64S,
    F32ConvertI64U,
    F32DemoteF64,
    F64ConvertI32S,
    F64ConvertI32U,
    F64ConvertI64S,
    F64ConvertI64U,
    F64PromoteF32,
    I32ReinterpretF32,
    I64ReinterpretF64,
    F32ReinterpretI32,
    F64ReinterpretI64,
    I32Extend8S,
    I32Extend16S,
    I64Extend8S,
    I64Extend16S,
    I64Extend32S,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Ord, PartialOrd)]
pub enum BinaryOp {
    I32Eq,
    I32Ne,
    I32LtS,
    I32LtU,
    I32GtS,
    I32GtU,
    I32LeS,
    I32LeU,
    I32GeS,
    I32GeU,
    I64Eq,
    I64Ne,
    I64LtS,
    I64LtU,
    I64GtS,
    I64GtU,
    I64LeS,
    I64LeU,
    I64GeS,
    I64GeU,
    F32Eq,
    F32Ne,
    F32Lt,
    F32Gt,
    F32Le,
    F32Ge,
    F64Eq,
    F64Ne,
    F64Lt,
    F64Gt,
    F64Le,
    F64Ge,
    I32Add,
    I32Sub,
    I32Mul,
    I32DivS,
    I32DivU,
    I32RemS,
    I32RemU,
    I32And,
    I32Or,
    I32Xor,
    I32Shl,
    I32ShrS,
    I32ShrU,
    I32Rotl,
    I32Rotr,
    I64Add,
    I64Sub,
    I64Mul,
    I64DivS,
    I64DivU,
    I64RemS,
    I64RemU,
    I64And,
    I64Or,
    I64Xor,
    I64Shl,
    I64ShrS,
    I64ShrU,
    I64Rotl,
    I64Rotr,
    F32Add,
    F32Sub,
    F32Mul,
    F32Div,
    F32Min,
    F32Max,
    F32Copysign,
    F64Add,
    F64Sub,
    F64Mul,
    F64Div,
    F64Min,
    F64Max,
    F64Copysign,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, Ord, PartialOrd)]
pub enum Instr {
    Unreachable,
    Nop,
    Block(FunctionType),
    Loop(FunctionType),
    If(FunctionType),
    Else,
    End,
    Br(Label),
    BrIf(Label),
    BrTable { table: Box<[Label]>, default: Label },
    Return,
    Call(Idx<Function>),
    CallIndirect(FunctionType, Idx<Table>),
    RefNull(RefType),
    RefIsNull,
    RefFunc(Idx<Function>),
    Drop,
    Select,
    TypedSelect(ValType),
    Local(LocalOp, Idx<Local>),
    Global(GlobalOp, Idx<Global>),
    TableGet(Idx<Table>),
    TableSet(Idx<Table>),
    TableSize(Idx<Table>),
    TableGrow(Idx<Table>),
    TableFill(Idx<Table>),
    TableCopy(Idx<Table>, Idx<Table>),
    TableInit(Idx<Table>, Idx<Element>),
    ElemDrop(Idx<Element>),
    Load(LoadOp, Memarg),
    Store(StoreOp, Memarg),
    MemorySize(Idx<Memory>),
    MemoryGrow(Idx<Memory>),
    MemoryFill,
    MemoryCopy,
    MemoryInit(Idx<Data>),
    DataDrop(Idx<Data>),
    Const(Val),
    Unary(UnaryOp),
    Binary(BinaryOp),
}
pub type Expr = Vec<Instr>;
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Local {
    pub type_: ValType,
    pub name: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Code {
    pub locals: Vec<Local>,
    pub body: Expr,
}
impl Code {
    pub fn new() -> Self {
        loop {}
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum ImportOrPresent<T> {
    Import(String, String),
    Present(T),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Function {
    pub type_: FunctionType,
    pub code: ImportOrPresent<Code>,
    pub export: Vec<String>,
    pub name: Option<String>,
}
impl Function {
    pub fn new(_: FunctionType, _: Code, _: Vec<String>) -> Self {
        loop {}
    }
    pub fn code(&self) -> Option<&Code> {
        match &self.code {
            ImportOrPresent::Present(c) => Some(c),
            ImportOrPresent::Import(..) => None,
        }
    }
    pub fn code_mut(&mut self) -> Option<&mut Code> {
        match &mut self.code {
            ImportOrPresent::Present(c) => Some(c),
            ImportOrPresent::Import(..) => None,
        }
    }
    pub fn locals(&self) -> impl Iterator<Item = (Idx<Local>, &Local)> {
        self.code().into_iter().flat_map(|c| c.locals.iter().map(|l| (Idx::from(0u32), l)))
    }
    pub fn add_fresh_local(&mut self, _: ValType) -> Idx<Local> {
        loop {}
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Limits {
    pub initial_size: u32,
    pub max_size: Option<u32>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Table {
    pub limits: Limits,
    pub import: Option<(String, String)>,
    pub ref_type: RefType,
    pub export: Vec<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Memory {
    pub limits: Limits,
    pub import: Option<(String, String)>,
    pub export: Vec<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Global {
    pub export: Vec<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Data(());
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum ElementMode {
    Passive,
    Active { table: Idx<Table>, offset: Expr },
    Declarative,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Element {
    pub typ: RefType,
    pub init: Vec<Expr>,
    pub mode: ElementMode,
}
#[derive(Debug, Clone)]
pub struct Module {
    pub functions: Vec<Function>,
    pub globals: Vec<Global>,
    pub tables: Vec<Table>,
    pub memories: Vec<Memory>,
    pub data: Vec<Data>,
    pub elements: Vec<Element>,
    pub start: Option<Idx<Function>>,
}
#[derive(Debug)]
pub struct ParseError(());
#[derive(Debug)]
pub struct EncodeError(());
pub struct Offsets(());
pub struct ParseIssue(());
macro_rules! err { ($($t:ident)*) => { $(
    impl fmt::Display for $t {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} }
    }
    impl std::error::Error for $t {}
)* } }
err!(ParseError EncodeError);
impl Module {
    pub fn new() -> Self {
        loop {}
    }
    pub fn from_bytes(_: &[u8]) -> Result<(Self, Offsets, Vec<ParseIssue>), ParseError> {
        loop {}
    }
    pub fn to_bytes(&self) -> Result<Vec<u8>, EncodeError> {
        loop {}
    }
    pub fn functions(&self) -> impl Iterator<Item = (Idx<Function>, &Function)> {
        self.functions.iter().map(|f| (Idx::from(0u32), f))
    }
    pub fn function(&self, _: Idx<Function>) -> &Function {
        loop {}
    }
    pub fn function_mut(&mut self, _: Idx<Function>) -> &mut Function {
        loop {}
    }
    pub fn add_function(&mut self, _: FunctionType, _: Vec<ValType>, _: Vec<Instr>) -> Idx<Function> {
        loop {}
    }
    pub fn add_function_import(&mut self, _: FunctionType, _: String, _: String) -> Idx<Function> {
        loop {}
    }
}
pub mod types {
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum InferredInstructionType {
        Unreachable,
        Reachable(FunctionType),
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct ErrorInner {
        pub message: String,
        pub instruction_idx: Option<Idx<Instr>>,
        pub instruction: Option<Instr>,
        pub function_name: Option<String>,
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct TypeError(pub Box<ErrorInner>);
    impl fmt::Display for TypeError {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
            loop {}
        }
    }
    impl std::error::Error for TypeError {}
    pub struct TypeChecker<'m>(&'m Module);
    impl<'m> TypeChecker<'m> {
        pub fn begin_function(_: &Function, _: &'m Module) -> Self {
            loop {}
        }
        pub fn check_next_instr(&mut self, _: &Instr) -> Result<InferredInstructionType, TypeError> {
            loop {}
        }
    }
}
