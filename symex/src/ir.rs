// In-memory form of an LLVM IR module, decoded for interpretation.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Vec(u32, Arc<Ty>),
    Other,
}

fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    /// Bit width of a scalar (pointers are 64 bits).
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    /// Store size rounded to allocation size.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => up(((*w as u64) + 7) / 8, self.align()),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*packed {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    up(o, self.align())
                }
            }
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    /// Bytes a store of this type writes.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        o = up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn nelem(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum CVal {
    I(u128),
    Agg(Vec<CVal>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opd {
    R(u32),
    C(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FPred {
    False,
    Oeq,
    Ogt,
    Oge,
    Olt,
    Ole,
    One,
    Ord,
    Ueq,
    Ugt,
    Uge,
    Ult,
    Ule,
    Une,
    Uno,
    True,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub to: u32,
    pub moves: Box<[(u32, Opd)]>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(usize),
    Ptr(Opd),
    Asm(String),
}

#[derive(Debug)]
pub struct CallI {
    pub d: Option<u32>,
    pub callee: Callee,
    pub args: Vec<(Opd, Ty)>,
    pub ret: Ty,
    pub normal: Option<Edge>, // invoke
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: Bin, ty: Ty, d: u32, a: Opd, b: Opd },
    FNeg { ty: Ty, d: u32, a: Opd },
    ICmp { p: Pred, ty: Ty, d: u32, a: Opd, b: Opd },
    FCmp { p: FPred, ty: Ty, d: u32, a: Opd, b: Opd },
    Cast { k: Cast, from: Ty, to: Ty, d: u32, a: Opd },
    Select { cty: Ty, ty: Ty, d: u32, c: Opd, a: Opd, b: Opd },
    Freeze { d: u32, a: Opd },
    Alloca { d: u32, off: u64 },
    AllocaDyn { d: u32, elem: u64, n: Opd, nty: Ty },
    Load { ty: Ty, d: u32, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    /// base + const + sum(idx * scale); indices sign-extended from their width
    Gep { d: u32, base: Opd, off: i64, idx: Box<[(Opd, u32, i64)]> },
    ExtractValue { ty: Ty, d: u32, a: Opd, idx: Vec<u32> },
    InsertValue { ty: Ty, d: u32, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractElem { ty: Ty, d: u32, a: Opd, i: Opd },
    InsertElem { ty: Ty, d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, n: u32, a: Opd, b: Opd, mask: Vec<Option<u32>> },
    AtomicRmw { op: String, ty: Ty, d: u32, p: Opd, v: Opd },
    CmpXchg { ty: Ty, d: u32, p: Opd, e: Opd, n: Opd },
    Nop,
    Call(Box<CallI>),
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { ty: Ty, v: Opd, cases: Vec<(u128, Edge)>, def: Edge },
    Ret(Option<(Opd, Ty)>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Func {
    pub id: usize,
    pub name: String,
    pub nregs: u32,
    pub nparams: u32,
    pub consts: Vec<(CVal, Ty)>,
    pub blocks: Vec<Vec<Inst>>,
    pub frame: u64,
    pub ninst: usize,
}

pub struct FnDecl {
    pub name: String,
    pub ret: Ty,
    pub nparams: usize,
    pub body: Option<(usize, usize)>, // byte range: from '(' of params
    pub parsed: OnceLock<Result<Arc<Func>, String>>,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub size: u64,
    pub constant: bool,
    pub init: Option<Vec<u8>>,
    pub init_pos: Option<usize>,
    pub alias: bool,
}

pub struct Module {
    pub src: Vec<u8>,
    pub types: HashMap<String, Ty>,
    pub funcs: Vec<FnDecl>,
    pub fn_by_name: HashMap<String, usize>,
    pub globals: Vec<Global>,
    pub gl_by_name: HashMap<String, usize>,
    pub aliases: HashMap<String, String>,
}

pub const OBJ_SHIFT: u32 = 32;
pub const FN_OBJ: u64 = 1;
pub const GL_OBJ0: u64 = 2;

impl Module {
    pub fn fn_addr(&self, i: usize) -> u64 {
        (FN_OBJ << OBJ_SHIFT) + (i as u64) * 16
    }
    pub fn gl_addr(&self, i: usize) -> u64 {
        (GL_OBJ0 + i as u64) << OBJ_SHIFT
    }
    pub fn sym_addr(&self, name: &str) -> Option<u64> {
        if let Some(a) = self.aliases.get(name) {
            return self.sym_addr(a);
        }
        if let Some(&i) = self.fn_by_name.get(name) {
            return Some(self.fn_addr(i));
        }
        self.gl_by_name.get(name).map(|&i| self.gl_addr(i))
    }
}
