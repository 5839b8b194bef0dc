//! In-memory form of an LLVM module, lowered to scalar "leaf" operations.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Meta,
    Label,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) if w % 8 != 0 => (n * w as u64).div_ceil(8),
                _ => n * t.size(),
            },
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Label => 0,
            Ty::Int(_) => self.store_size().next_multiple_of(self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(..) => self.store_size().next_multiple_of(self.align()),
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                for f in fs {
                    if !packed {
                        off = off.next_multiple_of(f.align());
                    }
                    off += f.size();
                }
                if *packed {
                    off
                } else {
                    off.next_multiple_of(self.align())
                }
            }
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, &Ty) {
        match self {
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        off = off.next_multiple_of(f.align());
                    }
                    if k == i {
                        return (off, f);
                    }
                    off += f.size();
                }
                panic!("bad field")
            }
            Ty::Arr(_, t) => (t.size() * i as u64, t),
            Ty::Vec(_, t) => (t.size() * i as u64, t),
            _ => panic!("field_off of scalar"),
        }
    }
    /// scalar leaves: (byte offset, width in bits)
    pub fn leaves(&self) -> Vec<(u64, u32)> {
        let mut v = Vec::new();
        self.leaves_into(0, &mut v);
        v
    }
    fn leaves_into(&self, base: u64, v: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Int(w) => v.push((base, *w)),
            Ty::Ptr | Ty::F64 => v.push((base, 64)),
            Ty::F32 => v.push((base, 32)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.leaves_into(base + i * t.size(), v)
                }
            }
            Ty::Struct(fs, _) => {
                for i in 0..fs.len() {
                    let (o, t) = self.field_off(i);
                    t.leaves_into(base + o, v)
                }
            }
            _ => {}
        }
    }
    pub fn nleaves(&self) -> usize {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => 1,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nleaves(),
            Ty::Struct(fs, _) => fs.iter().map(|f| f.nleaves()).sum(),
            _ => 0,
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("width of {self:?}"),
        }
    }
}

/// Scalar operand.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opd {
    R(u32),
    C(u64),
    /// index into Module.wide
    W(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Same,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Memcpy,
    Memmove,
    Memset,
    Memcmp,
    Bcmp,
    Ctpop,
    Cttz,
    Ctlz,
    UMin,
    UMax,
    SMin,
    SMax,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Fshl,
    Fshr,
    Bswap,
    Bitreverse,
    Abs,
    Assume,
    Nop,
    Expect,
    UCmp,
    SCmp,
    Trap,
    // harness interface
    SymU8,
    SymU16,
    SymU32,
    SymU64,
    SymConc,
    SymAssume,
    SymFail,
    SymCover,
    SymObserve,
    SymPanic,
    SymSelect8,
    SymAlloc,
    SymDealloc,
}

#[derive(Clone, Debug)]
pub enum Instr {
    Bin { op: BinOp, w: u32, d: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u32, d: u32, a: Opd, b: Opd },
    Cast { k: CastK, wf: u32, wt: u32, d: u32, a: Opd },
    Concat { d: u32, parts: Box<[(Opd, u32)]> }, // low to high
    Extract { d: u32, a: Opd, wa: u32, lo: u32, w: u32 },
    Select { d: u32, c: Opd, a: Opd, b: Opd, w: u32 },
    Gep { d: u32, base: Opd, off: u64, terms: Box<[(Opd, u64, u32)]> },
    Load { d: u32, p: Opd, off: u64, w: u32 },
    Store { v: Opd, p: Opd, off: u64, w: u32 },
    Alloca { d: u32, size: u64 },
    AtomicRmw { op: u8, d: u32, p: Opd, v: Opd, w: u32 },
    CmpXchg { d: u32, p: Opd, c: Opd, n: Opd, w: u32 },
    Call { f: u32, args: Box<[Opd]>, d: u32 },
    CallInd { p: Opd, args: Box<[Opd]>, d: u32 },
    Intrin { k: Intr, w: u32, args: Box<[Opd]>, d: u32 },
    Ret { v: Box<[Opd]> },
    Br { e: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, w: u32, cases: Box<[(u64, u32)]>, def: u32 },
    Unreachable,
    Unsupported(Box<str>),
}

#[derive(Clone, Debug, Default)]
pub struct Edge {
    pub target: u32, // instruction index
    pub block: u32,
    pub moves: Box<[(u32, Opd)]>,
}

#[derive(Clone, Debug, Default)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>, // slots of flattened params
    pub code: Vec<Instr>,
    pub dbg: Vec<u32>,
    pub block_of: Vec<u32>,
    pub nblocks: u32,
    pub edges: Vec<Edge>,
    pub defined: bool,
}

#[derive(Clone, Debug)]
pub enum Reloc {
    Func(u32),
    Global(u32, u64),
}

#[derive(Clone, Debug, Default)]
pub struct Global {
    pub name: String,
    pub data: Vec<u8>,
    pub relocs: Vec<(u64, Reloc)>,
    pub constant: bool,
}

#[derive(Default, Clone, Debug)]
pub struct DbgLoc {
    pub line: u32,
    pub scope: u32,
    pub inlined: u32,
}

#[derive(Default)]
pub struct Debug {
    pub locs: HashMap<u32, DbgLoc>,
    pub scopes: HashMap<u32, (u32, u32, Option<String>)>, // scope -> (parent scope, file, subprogram name)
    pub files: HashMap<u32, String>,
}

impl Debug {
    /// (file, line, function) chain, innermost first
    pub fn chain(&self, mut id: u32) -> Vec<(String, u32, String)> {
        let mut out = Vec::new();
        while id != 0 {
            let Some(l) = self.locs.get(&id) else { break };
            let mut s = l.scope;
            let mut file = 0;
            let mut name = String::new();
            for _ in 0..64 {
                let Some((parent, f, n)) = self.scopes.get(&s) else { break };
                if file == 0 {
                    file = *f;
                }
                if let Some(n) = n {
                    name = n.clone();
                    break;
                }
                s = *parent;
            }
            out.push((
                self.files.get(&file).cloned().unwrap_or_default(),
                l.line,
                name,
            ));
            id = l.inlined;
        }
        out
    }
}

#[derive(Default)]
pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub wide: Vec<(u128, u32)>,
    pub debug: Debug,
}

pub const FUNC_BASE: u64 = 0x4000_0000;
pub const GLOBAL_BASE: u64 = 0x1;
pub const STACK_BASE: u64 = 0x1000_0000;
pub const HEAP_BASE: u64 = 0x2000_0000;
