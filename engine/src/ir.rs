//! Compact in-memory form of the LLVM IR subset rustc produces.
use crate::interp::V;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Struct(Vec<Ty>, bool),
    Array(u64, Box<Ty>),
    Vector(u64, Box<Ty>),
    Float(u32),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (*w + 7) / 8 {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|x| x.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.store_size().next_power_of_two(),
            Ty::Float(w) => *w as u64 / 8,
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w + 7) / 8) as u64,
            Ty::Ptr => 8,
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f {
                    if !packed {
                        o = o.next_multiple_of(t.align());
                    }
                    o += t.alloc_size();
                }
                if !packed {
                    o = o.next_multiple_of(self.align());
                }
                o
            }
            Ty::Array(n, t) => n * t.alloc_size(),
            Ty::Vector(n, t) => match **t {
                // elements are packed without padding
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.store_size(),
            },
            Ty::Float(w) => *w as u64 / 8,
            _ => 0,
        }
    }
    pub fn alloc_size(&self) -> u64 {
        self.store_size().next_multiple_of(self.align().max(1))
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = o.next_multiple_of(t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.alloc_size();
                }
                o
            }
            Ty::Array(_, t) => i as u64 * t.alloc_size(),
            Ty::Vector(_, t) => i as u64 * t.store_size(),
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Array(_, t) | Ty::Vector(_, t) => t,
            _ => panic!("elem of scalar"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Big(crate::big::Big),
    Null,
    Undef,
    Zero,
    Global(String),
    Agg(Vec<(Ty, Const)>),
    Bytes(Vec<u8>),
    Splat(Box<Const>),
    /// base + byte offset
    Gep(Box<Const>, Ty, Vec<Const>),
    Cast(Box<Const>),
    Bin(String, Box<Const>, Box<Const>, u32),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(V),
    C(Box<(Ty, Const)>), // unresolved constant (resolved at link time)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
}

pub const NOREG: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Fn(u32),
    Intr(u32),
    Ind(Op),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { d: u32, size: u64, align: u64, n: Option<Op> },
    Load { d: u32, ty: Ty, p: Op },
    Store { ty: Ty, v: Op, p: Op },
    Gep { d: u32, base: Op, off: i64, idx: Vec<(Op, u32, i64)> },
    Bin { d: u32, op: BinOp, w: u32, a: Op, b: Op, nuw: bool, nsw: bool, disjoint: bool, lanes: u32 },
    Icmp { d: u32, p: Pred, w: u32, a: Op, b: Op, lanes: u32 },
    Cast { d: u32, op: CastOp, from: Ty, to: Ty, a: Op },
    Select { d: u32, ty: Ty, c: Op, a: Op, b: Op },
    Call { d: u32, callee: Callee, args: Vec<Op>, ret: Ty, normal: Option<u32>, name: String },
    ExtractValue { d: u32, a: Op, idx: Vec<u32> },
    InsertValue { d: u32, a: Op, v: Op, idx: Vec<u32>, ty: Ty },
    ExtractElt { d: u32, a: Op, i: Op },
    InsertElt { d: u32, a: Op, v: Op, i: Op, n: usize },
    Shuffle { d: u32, a: Op, b: Op, mask: Op, n: usize },
    AtomicRmw { d: u32, op: String, ty: Ty, p: Op, v: Op },
    CmpXchg { d: u32, ty: Ty, p: Op, c: Op, n: Op },
    Copy { d: u32, a: Op },
    Nop,
    Br(u32),
    CondBr { c: Op, t: u32, f: u32 },
    Switch { w: u32, v: Op, cases: Vec<(u128, u32)>, def: u32 },
    Ret(Option<Op>),
    Unreachable,
    Unsupported(String),
}

#[derive(Default, Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub is_decl: bool,
}
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub align: u64,
    pub constant: bool,
}
pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub aliases: Vec<(String, Const)>,
}
