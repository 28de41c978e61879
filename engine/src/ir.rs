//! In-memory LLVM IR (only what the executor needs).
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    C(u64),
    W(Arc<u128>),
    S(u32),
    Agg(Arc<Vec<Val>>),
}

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Type {
    Void,
    Int(u32),
    Float,
    Double,
    Ptr,
    Vec(u64, TyId),
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Func(TyId, Vec<TyId>, bool),
    Label,
    Meta,
    Opaque,
}

#[derive(Default)]
pub struct Types {
    pub tys: Vec<Type>,
    pub map: HashMap<Type, TyId>,
    pub sizes: Vec<(u64, u64)>, // size, align (filled lazily)
}

impl Types {
    pub fn mk(&mut self, t: Type) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let i = self.tys.len() as u32;
        self.tys.push(t.clone());
        self.map.insert(t, i);
        let sa = self.compute(i);
        self.sizes.push(sa);
        i
    }
    pub fn get(&self, i: TyId) -> &Type {
        &self.tys[i as usize]
    }
    /// alloc size (stride) and abi alignment
    pub fn size(&self, i: TyId) -> u64 {
        self.sizes[i as usize].0
    }
    pub fn align(&self, i: TyId) -> u64 {
        self.sizes[i as usize].1
    }
    fn compute(&self, i: TyId) -> (u64, u64) {
        match self.get(i) {
            Type::Void | Type::Label | Type::Meta | Type::Func(..) | Type::Opaque => (0, 1),
            Type::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let p = b.next_power_of_two().max(1);
                if *w > 64 {
                    let s = (b + 15) / 16 * 16;
                    (s, 16)
                } else {
                    (p, p)
                }
            }
            Type::Float => (4, 4),
            Type::Double => (8, 8),
            Type::Ptr => (8, 8),
            Type::Vec(n, e) => {
                let eb = self.bits(*e);
                let b = (n * eb + 7) / 8;
                let p = b.next_power_of_two().max(1);
                (p, p)
            }
            Type::Arr(n, e) => (n * self.size(*e), self.align(*e)),
            Type::Struct(f, packed) => {
                let mut off = 0u64;
                let mut al = 1u64;
                for &x in f {
                    let a = if *packed { 1 } else { self.align(x) };
                    off = (off + a - 1) / a * a;
                    off += self.size(x);
                    al = al.max(a);
                }
                off = (off + al - 1) / al * al;
                (off, al)
            }
        }
    }
    pub fn bits(&self, i: TyId) -> u64 {
        match self.get(i) {
            Type::Int(w) => *w as u64,
            Type::Float => 32,
            Type::Double | Type::Ptr => 64,
            Type::Vec(n, e) => n * self.bits(*e),
            _ => self.size(i) * 8,
        }
    }
    pub fn field_off(&self, i: TyId, idx: usize) -> (u64, TyId) {
        match self.get(i) {
            Type::Struct(f, packed) => {
                let mut off = 0u64;
                for (k, &x) in f.iter().enumerate() {
                    let a = if *packed { 1 } else { self.align(x) };
                    off = (off + a - 1) / a * a;
                    if k == idx {
                        return (off, x);
                    }
                    off += self.size(x);
                }
                panic!("field_off")
            }
            Type::Arr(_, e) => (idx as u64 * self.size(*e), *e),
            Type::Vec(_, e) => ((idx as u64 * self.bits(*e)) / 8, *e),
            t => panic!("field_off of {:?}", t),
        }
    }
    pub fn nelem(&self, i: TyId) -> usize {
        match self.get(i) {
            Type::Struct(f, _) => f.len(),
            Type::Arr(n, _) | Type::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn elem(&self, i: TyId, k: usize) -> TyId {
        match self.get(i) {
            Type::Struct(f, _) => f[k],
            Type::Arr(_, e) | Type::Vec(_, e) => *e,
            t => panic!("elem of {:?}", t),
        }
    }
    pub fn is_agg(&self, i: TyId) -> bool {
        matches!(self.get(i), Type::Struct(..) | Type::Arr(..) | Type::Vec(..))
    }
    pub fn zero(&self, i: TyId) -> Val {
        if self.is_agg(i) {
            let n = self.nelem(i);
            Val::Agg(Arc::new((0..n).map(|k| self.zero(self.elem(i, k))).collect()))
        } else {
            Val::C(0)
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    PtrToInt,
    IntToPtr,
    BitCast,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Nand,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Builtin(u32), // index into module.builtins (name)
    Ind(Opnd),
    Asm(String, String),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, TyId, Opnd, Opnd),
    ICmp(Pred, TyId, Opnd, Opnd),
    FCmp(String, TyId, Opnd, Opnd),
    FNeg(TyId, Opnd),
    Cast(CastOp, TyId, TyId, Opnd),
    /// base + constant offset + sum(idx * scale); idx width
    Gep(Opnd, i64, Vec<(Opnd, u64, u32)>),
    Load(TyId, Opnd, bool),
    Store(TyId, Opnd, Opnd, bool),
    Alloca(TyId, Opnd, u64),
    Select(TyId, TyId, Opnd, Opnd, Opnd),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(TyId, Opnd, u32, Vec<(Val, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Call(Callee, Vec<(TyId, Opnd)>, TyId, Option<u32>), // Option = invoke normal dest
    ExtractValue(Opnd, Vec<u32>),
    InsertValue(TyId, Opnd, Opnd, Vec<u32>),
    ExtractElement(TyId, Opnd, Opnd),
    InsertElement(TyId, Opnd, Opnd, Opnd),
    Shuffle(TyId, Opnd, Opnd, Vec<i32>),
    Rmw(RmwOp, TyId, Opnd, Opnd),
    CmpXchg(TyId, Opnd, Opnd, Opnd),
    Fence,
    Freeze(Opnd),
    Landing,
    Unsupported(String),
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    /// phi: dest register, incoming (pred block, value)
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<(u32, Inst)>, // dest reg (u32::MAX none)
}

pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ret: TyId,
    pub params: Vec<TyId>,
    pub param_byval: Vec<Option<u64>>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub tls: bool,
    pub constant: bool,
}

pub struct Module {
    pub types: Types,
    pub funcs: Vec<Func>,
    pub func_by_name: HashMap<String, u32>,
    pub builtins: Vec<String>,
    pub globals: Vec<Global>,
    pub global_by_name: HashMap<String, u64>,
    /// initial memory image of the globals: (addr, bytes)
    /// globals whose accesses are no scheduling points (logging, panic counting, cpu detection)
    pub quiet: Vec<(u64, u64)>,
    pub image: Vec<(u64, Vec<u8>)>,
    /// function address -> callee
    pub addr_func: HashMap<u64, Callee>,
    pub errno_addr: u64,
}

pub const GLOBAL_BASE: u64 = 0x0000_0001_0000_0000;
pub const TLS_BASE: u64 = 0x0000_0002_0000_0000;
pub const STACK_BASE: u64 = 0x0000_0003_0000_0000; // + thread << 28
pub const HEAP_BASE: u64 = 0x0000_0004_0000_0000;
pub const FUNC_BASE: u64 = 0x0000_0100_0000_0000;
