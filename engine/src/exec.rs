//! Path-forking symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Val {
    pub e: E, // 0 = concrete
    pub c: u64,
}
const fn cv(c: u64) -> Val {
    Val { e: 0, c }
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub bytes: Vec<u8>,
    pub sym: Option<Box<Vec<E>>>,
    pub constant: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dec {
    Forced(bool),
    Fork(bool),
    Val(u64),
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub pc: u32,
    pub base: u32,
    pub ret: u32,
    pub smark: u32,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub stack: Vec<Rc<Obj>>,
    pub heap: Vec<Option<Rc<Obj>>>,
    pub globals: Vec<Rc<Obj>>,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub widths: Vec<u8>,
    pub decs: Vec<Dec>,
    pub idecs: Vec<Dec>,
    pub pending: Vec<Dec>, // reversed
    pub instrs: u64,
    pub obs: Vec<Val>,
    pub covers: u64,
    pub run: u32,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Killed,
    Viol(String),
    Internal(String),
}
type R<T> = Result<T, Stop>;

pub struct X {
    pub m: &'static Module,
    pub ar: Arena,
    pub smt: Smt,
    pub stack: Vec<State>,
    pub prefix: Vec<Dec>, // reversed
    pub cov: Vec<Vec<bool>>,
    pub forks: u64,
    pub instrs: u64,
    pub max_instrs: u64,
    affine: FxMap<(u64, u32, u32, u32), Option<Rc<Vec<u64>>>>,
    init_globals: Vec<Rc<Obj>>,
    scratch: Vec<Val>,
    pub trace: Option<std::collections::HashMap<String, u64>>,
}

pub fn make_globals(m: &Module) -> Vec<Rc<Obj>> {
    let mut v = Vec::new();
    for g in &m.globals {
        let mut b = g.data.clone();
        for (off, r) in &g.relocs {
            let a = match r {
                Reloc::Func(f) => (FUNC_BASE + *f as u64) << 32,
                Reloc::Global(k, o) => ((GLOBAL_BASE + *k as u64) << 32).wrapping_add(*o),
            };
            b[*off as usize..*off as usize + 8].copy_from_slice(&a.to_le_bytes());
        }
        v.push(Rc::new(Obj { size: b.len() as u64, bytes: b, sym: None, constant: g.constant }));
    }
    v
}

fn m64(w: u32) -> u64 {
    if w >= 64 { u64::MAX } else { (1 << w) - 1 }
}
fn s64(v: u64, w: u32) -> i64 {
    if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) }
}

impl X {
    pub fn new(m: &'static Module, max_instrs: u64) -> X {
        X {
            m,
            ar: Arena::new(),
            smt: Smt::new(),
            stack: vec![],
            prefix: vec![],
            cov: m.funcs.iter().map(|f| vec![false; f.nblocks as usize]).collect(),
            forks: 0,
            instrs: 0,
            max_instrs,
            affine: Default::default(),
            init_globals: make_globals(m),
            scratch: vec![],
            trace: std::env::var("SYMEX_TRACE").ok().map(|_| Default::default()),
        }
    }
    /// forget all expressions (only legal when no state is alive)
    pub fn reset(&mut self) {
        let st = std::mem::take(&mut self.smt.st);
        self.ar = Arena::new();
        self.smt = Smt::new();
        self.smt.st = st;
    }
    pub fn initial(&mut self, run: u32, f: u32, args: &[u64], model: Vec<u64>) -> State {
        let fun = &self.m.funcs[f as usize];
        let mut regs = vec![cv(0); fun.nregs as usize];
        for (i, a) in args.iter().enumerate() {
            regs[fun.params[i] as usize] = cv(*a);
        }
        State {
            frames: vec![Frame { f, pc: 0, base: 0, ret: 0, smark: 0 }],
            regs,
            stack: vec![],
            heap: vec![],
            globals: self.init_globals.clone(),
            pc: vec![],
            model: Model::new(model),
            widths: vec![],
            decs: vec![],
            idecs: vec![],
            pending: vec![],
            instrs: 0,
            obs: vec![],
            covers: 0,
            run,
        }
    }

    // ---------- values ----------
    #[inline(always)]
    fn get(&mut self, s: &State, base: u32, o: Opd) -> Val {
        match o {
            Opd::R(r) => s.regs[(base + r) as usize],
            Opd::C(c) => cv(c),
            Opd::W(k) => {
                let (v, w) = self.m.wide[k as usize];
                Val { e: self.ar.cst(v, w), c: 0 }
            }
        }
    }
    fn ex(&mut self, v: Val, w: u32) -> E {
        if v.e != 0 { v.e } else { self.ar.cst(v.c as u128, w) }
    }
    fn nv(&self, e: E) -> Val {
        if self.ar.w(e) <= 64 {
            if let Some(k) = self.ar.is_c(e) {
                return cv(k as u64);
            }
        }
        Val { e, c: 0 }
    }
    pub fn eval(&self, s: &State, v: Val) -> u128 {
        if v.e == 0 { v.c as u128 } else { self.ar.eval(v.e, &s.model) }
    }

    // ---------- decisions ----------
    fn merge_model(&self, s: &State, upd: &[(u32, u64)]) -> Rc<Model> {
        if upd.is_empty() {
            return s.model.clone();
        }
        let mut v = s.model.vals.clone();
        for (i, k) in upd {
            if v.len() <= *i as usize {
                v.resize(*i as usize + 1, 0)
            }
            v[*i as usize] = *k;
        }
        Model::new(v)
    }
    fn decide(&mut self, s: &mut State, cond: E) -> R<bool> {
        if let Some(k) = self.ar.is_c(cond) {
            return Ok(k == 1);
        }
        if let Some(d) = s.pending.pop() {
            s.idecs.push(d);
            match d {
                Dec::Forced(b) | Dec::Fork(b) => return Ok(b),
                _ => return Err(Stop::Internal("decision replay mismatch".into())),
            }
        }
        if let Some(d) = self.prefix.pop() {
            s.decs.push(d);
            s.idecs.push(d);
            match d {
                Dec::Forced(b) => return Ok(b),
                Dec::Fork(b) => {
                    let c = if b { cond } else { self.ar.not(cond) };
                    s.pc.push(c);
                    return Ok(b);
                }
                _ => return Err(Stop::Internal("prefix replay mismatch".into())),
            }
        }
        let b = self.ar.eval(cond, &s.model) == 1;
        let ncond = self.ar.not(cond);
        let (this, other) = if b { (cond, ncond) } else { (ncond, cond) };
        match self.smt.check(&mut self.ar, &s.pc, other, &s.widths, &s.model) {
            Res::Unsat => {
                s.decs.push(Dec::Forced(b));
                s.idecs.push(Dec::Forced(b));
                Ok(b)
            }
            Res::Sat(upd) => {
                let mut o = s.clone();
                o.model = self.merge_model(s, &upd);
                o.pc.push(other);
                o.decs.push(Dec::Fork(!b));
                let mut p = s.idecs.clone();
                p.push(Dec::Fork(!b));
                p.reverse();
                o.pending = p;
                o.idecs.clear();
                self.forks += 1;
                if self.trace.is_some() {
                    let k = format!("{:?} {}", self.where_is(s).iter().take(6).map(|x| format!("{}:{}:{}", x.0.rsplit('/').next().unwrap_or(""), x.1, x.2)).collect::<Vec<_>>(), if std::env::var("SYMEX_TRACE").unwrap() == "2" { self.ar.show(cond, 3) } else { String::new() });
                    *self.trace.as_mut().unwrap().entry(k).or_insert(0) += 1;
                }
                self.stack.push(o);
                s.pc.push(this);
                s.decs.push(Dec::Fork(b));
                s.idecs.push(Dec::Fork(b));
                Ok(b)
            }
            Res::Unknown => Err(Stop::Internal("solver returned unknown".into())),
        }
    }
    /// choose a concrete value for an expression, forking for the alternatives
    fn pick(&mut self, s: &mut State, v: Val) -> R<u64> {
        if v.e == 0 {
            return Ok(v.c);
        }
        let w = self.ar.w(v.e);
        loop {
            let k = if let Some(d) = s.pending.pop() {
                s.idecs.push(d);
                let Dec::Val(k) = d else { return Err(Stop::Internal("pick replay mismatch".into())) };
                k
            } else if let Some(d) = self.prefix.pop() {
                let Dec::Val(k) = d else { return Err(Stop::Internal("pick prefix mismatch".into())) };
                s.decs.push(d);
                s.idecs.push(d);
                k
            } else {
                let k = self.ar.eval(v.e, &s.model) as u64;
                s.decs.push(Dec::Val(k));
                s.idecs.push(Dec::Val(k));
                k
            };
            let c = self.ar.cst(k as u128, w);
            let q = self.ar.bin(Op::Eq, v.e, c);
            if self.decide(s, q)? {
                return Ok(k);
            }
        }
    }
    fn truth(&mut self, s: &mut State, v: Val) -> R<bool> {
        if v.e == 0 { Ok(v.c & 1 == 1) } else { self.decide(s, v.e) }
    }

    // ---------- memory ----------
    #[inline(always)]
    fn obj<'a>(s: &'a State, addr: u64, n: u64, write: bool) -> R<(&'a Obj, usize)> {
        let id = addr >> 32;
        let off = addr & 0xffff_ffff;
        let o: Option<&Rc<Obj>> = if id >= HEAP_BASE {
            s.heap.get((id - HEAP_BASE) as usize).and_then(|x| x.as_ref())
        } else if id >= STACK_BASE {
            s.stack.get((id - STACK_BASE) as usize)
        } else if id >= GLOBAL_BASE {
            s.globals.get((id - GLOBAL_BASE) as usize)
        } else {
            None
        };
        match o {
            Some(o) if off + n <= o.size && !(write && o.constant) => Ok((o, off as usize)),
            _ => Err(Stop::Viol(format!("ub: invalid {} of {n} bytes at {addr:#x}", if write { "write" } else { "read" }))),
        }
    }
    fn obj_mut<'a>(s: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        Self::obj(s, addr, n, true)?;
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as usize;
        let o = if id >= HEAP_BASE {
            s.heap[(id - HEAP_BASE) as usize].as_mut().unwrap()
        } else if id >= STACK_BASE {
            &mut s.stack[(id - STACK_BASE) as usize]
        } else {
            &mut s.globals[(id - GLOBAL_BASE) as usize]
        };
        Ok((Rc::make_mut(o), off))
    }
    fn load(&mut self, s: &State, addr: u64, w: u32) -> R<Val> {
        let n = w.div_ceil(8) as usize;
        let (o, off) = Self::obj(s, addr, n as u64, false)?;
        if let Some(sy) = &o.sym {
            let r = &sy[off..off + n];
            if r.iter().any(|e| *e != 0) {
                let mut acc: Option<E> = None;
                for i in 0..n {
                    let b = if sy[off + i] != 0 { sy[off + i] } else { self.ar.cst(o.bytes[off + i] as u128, 8) };
                    acc = Some(match acc {
                        None => b,
                        Some(x) => self.ar.concat(b, x),
                    });
                }
                let mut e = acc.unwrap();
                if w % 8 != 0 {
                    e = self.ar.extract(e, 0, w);
                }
                return Ok(self.nv(e));
            }
        }
        if n <= 8 {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&o.bytes[off..off + n]);
            Ok(cv(u64::from_le_bytes(b) & m64(w)))
        } else {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.bytes[off..off + n]);
            let e = self.ar.cst(u128::from_le_bytes(b), w);
            Ok(Val { e, c: 0 })
        }
    }
    fn store(&mut self, s: &mut State, addr: u64, v: Val, w: u32) -> R<()> {
        let n = w.div_ceil(8) as usize;
        let (o, off) = Self::obj_mut(s, addr, n as u64)?;
        if v.e == 0 {
            debug_assert!(n <= 8);
            o.bytes[off..off + n].copy_from_slice(&(v.c & m64(w)).to_le_bytes()[..n]);
            if let Some(sy) = &mut o.sym {
                sy[off..off + n].fill(0);
            }
            return Ok(());
        }
        let mut e = v.e;
        if w % 8 != 0 {
            e = self.ar.zext(e, n as u32 * 8);
        }
        if o.sym.is_none() {
            o.sym = Some(Box::new(vec![0; o.size as usize]));
        }
        for i in 0..n {
            let b = self.ar.extract(e, i as u32 * 8, 8);
            let sy = o.sym.as_mut().unwrap();
            if let Some(k) = self.ar.is_c(b) {
                o.bytes[off + i] = k as u8;
                sy[off + i] = 0;
            } else {
                sy[off + i] = b;
            }
        }
        Ok(())
    }
    /// load through a symbolic address
    fn load_sym(&mut self, s: &mut State, p: Val, off: u64, w: u32) -> R<Val> {
        let o = self.ar.cst(off as u128, 64);
        let a = self.ar.bin(Op::Add, p.e, o);
        if self.ar.is_ctree(a) {
            let mut err = None;
            let mut leaves = vec![];
            self.ar.map_tree(a, &mut |ar, k| {
                leaves.push(k as u64);
                ar.cst(k, 64)
            });
            let mut vals = vec![];
            for k in leaves {
                match self.load(s, k, w) {
                    Ok(v) => vals.push(self.ex(v, w)),
                    Err(e) => {
                        err = Some(e);
                        break;
                    }
                }
            }
            if err.is_none() {
                let mut i = 0;
                let r = self.ar.map_tree(a, &mut |_, _| {
                    i += 1;
                    vals[i - 1]
                });
                return Ok(self.nv(r));
            }
        }
        // constant bits + a few varying bits: table lookup
        if self.looks_indexed(a) {
            let f = self.ar.as_lin(a);
            let var = f.t.iter().fold(0u128, |x, (_, m)| x | m) as u64;
            if var != 0 {
                let lo = var.trailing_zeros();
                let k = 64 - var.leading_zeros() - lo;
                let base = f.k as u64 & !(m64(k) << lo);
                if k <= 12
                    && let Some(tab) = self.affine_table(s, base, k, lo, w)
                {
                    let g = LinForm { w: k, k: (f.k >> lo) & mask(k), t: f.t.iter().map(|(a, m)| (*a, m >> lo)).collect() };
                    let t0 = tab[0];
                    let r = self.ar.lin_table(&g, t0, &|j| tab[1 << j] ^ t0, w);
                    return Ok(self.nv(r));
                }
            }
        }
        if self.trace.is_some() {
            let k = format!("load_sym {}", self.ar.show(a, 4));
            *self.trace.as_mut().unwrap().entry(k).or_insert(0) += 1;
        }
        let addr = self.pick(s, Val { e: a, c: 0 })?;
        self.load(s, addr, w)
    }
    /// constant high bits followed by at most 16 unknown ones
    fn looks_indexed(&self, a: E) -> bool {
        let n = self.ar.n[a as usize];
        match n.op {
            Op::Lin => true,
            Op::Concat => self.ar.is_c(n.a).is_some_and(|_| self.ar.w(n.a) >= 48),
            _ => false,
        }
    }
    /// Is the constant table GF(2)-affine in its index (as CRC tables are)?
    fn affine_table(&mut self, s: &State, base: u64, k: u32, lo: u32, w: u32) -> Option<Rc<Vec<u64>>> {
        if w > 64 || w % 8 != 0 {
            return None;
        }
        if let Some(r) = self.affine.get(&(base, k, lo, w)) {
            return r.clone();
        }
        let id = base >> 32;
        if !(GLOBAL_BASE..STACK_BASE).contains(&id) || !s.globals[(id - GLOBAL_BASE) as usize].constant {
            return None;
        }
        let mut t = vec![];
        for i in 0..1u64 << k {
            match self.load(s, base + (i << lo), w) {
                Ok(Val { e: 0, c }) => t.push(c),
                _ => {
                    self.affine.insert((base, k, lo, w), None);
                    return None;
                }
            }
        }
        let ok = (0..t.len()).all(|i| {
            let mut x = t[0];
            for j in 0..k {
                if i >> j & 1 == 1 {
                    x ^= t[1 << j] ^ t[0]
                }
            }
            x == t[i]
        });
        let r = if ok { Some(Rc::new(t)) } else { None };
        self.affine.insert((base, k, lo, w), r.clone());
        r
    }
    fn copy(&mut self, s: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, sf) = Self::obj(s, src, n, false)?;
        let n = n as usize;
        let b = so.bytes[sf..sf + n].to_vec();
        let sy = so.sym.as_ref().map(|v| v[sf..sf + n].to_vec()).filter(|v| v.iter().any(|e| *e != 0));
        let (o, f) = Self::obj_mut(s, dst, n as u64)?;
        o.bytes[f..f + n].copy_from_slice(&b);
        match sy {
            None => {
                if let Some(x) = &mut o.sym {
                    x[f..f + n].fill(0)
                }
            }
            Some(v) => {
                if o.sym.is_none() {
                    o.sym = Some(Box::new(vec![0; o.size as usize]));
                }
                o.sym.as_mut().unwrap()[f..f + n].copy_from_slice(&v);
            }
        }
        Ok(())
    }

    // ---------- arithmetic ----------
    fn bin_c(op: BinOp, a: u64, b: u64, w: u32) -> u64 {
        let m = m64(w);
        (match op {
            BinOp::Add => a.wrapping_add(b),
            BinOp::Sub => a.wrapping_sub(b),
            BinOp::Mul => a.wrapping_mul(b),
            BinOp::And => a & b,
            BinOp::Or => a | b,
            BinOp::Xor => a ^ b,
            BinOp::Shl => {
                if b >= w as u64 {
                    0
                } else {
                    a << b
                }
            }
            BinOp::LShr => {
                if b >= w as u64 {
                    0
                } else {
                    a >> b
                }
            }
            BinOp::AShr => (s64(a, w) >> b.min(63)) as u64,
            BinOp::UDiv => a / b,
            BinOp::URem => a % b,
            BinOp::SDiv => s64(a, w).wrapping_div(s64(b, w)) as u64,
            BinOp::SRem => s64(a, w).wrapping_rem(s64(b, w)) as u64,
        }) & m
    }
    fn op_of(op: BinOp) -> Op {
        match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::UDiv => Op::UDiv,
            BinOp::URem => Op::URem,
            BinOp::SDiv => Op::SDiv,
            BinOp::SRem => Op::SRem,
        }
    }
    fn binary(&mut self, s: &mut State, op: BinOp, a: Val, b: Val, w: u32) -> R<Val> {
        let div = matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem);
        if a.e == 0 && b.e == 0 && w <= 64 {
            if div && b.c == 0 {
                return Err(Stop::Viol("ub: division by zero".into()));
            }
            return Ok(cv(Self::bin_c(op, a.c, b.c, w)));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        if div {
            let z = self.ar.cst(0, w);
            let q = self.ar.bin(Op::Eq, y, z);
            if self.decide(s, q)? {
                return Err(Stop::Viol("ub: division by zero".into()));
            }
        }
        let r = self.ar.bin(Self::op_of(op), x, y);
        Ok(self.nv(r))
    }
    fn cmp(&mut self, p: Pred, a: Val, b: Val, w: u32) -> Val {
        if a.e == 0 && b.e == 0 && w <= 64 {
            let (x, y) = (a.c, b.c);
            let (sx, sy) = (s64(x, w), s64(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            };
            return cv(r as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let ar = &mut self.ar;
        let r = match p {
            Pred::Eq => ar.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = ar.bin(Op::Eq, x, y);
                ar.not(e)
            }
            Pred::Ult => ar.bin(Op::Ult, x, y),
            Pred::Ugt => ar.bin(Op::Ult, y, x),
            Pred::Ule => {
                let e = ar.bin(Op::Ult, y, x);
                ar.not(e)
            }
            Pred::Uge => {
                let e = ar.bin(Op::Ult, x, y);
                ar.not(e)
            }
            Pred::Slt => ar.bin(Op::Slt, x, y),
            Pred::Sgt => ar.bin(Op::Slt, y, x),
            Pred::Sle => {
                let e = ar.bin(Op::Slt, y, x);
                ar.not(e)
            }
            Pred::Sge => {
                let e = ar.bin(Op::Slt, x, y);
                ar.not(e)
            }
        };
        self.nv(r)
    }
    fn select(&mut self, c: Val, a: Val, b: Val, w: u32) -> Val {
        if c.e == 0 {
            return if c.c & 1 == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.ar.ite(c.e, x, y);
        self.nv(r)
    }

    fn set(s: &mut State, base: u32, d: u32, v: Val) {
        s.regs[(base + d) as usize] = v;
    }

    fn intrin(&mut self, s: &mut State, base: u32, k: Intr, w: u32, args: &[Opd], d: u32) -> R<()> {
        use Intr::*;
        let mut av = [cv(0); 4];
        for (i, o) in args.iter().take(4).enumerate() {
            av[i] = self.get(s, base, *o);
        }
        let [a, b, c, _] = av;
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                Self::set(s, base, d, v);
                return Ok(());
            }};
        }
        let conc = a.e == 0 && b.e == 0 && c.e == 0 && w <= 64;
        match k {
            Memcpy | Memmove => {
                let dst = self.pick(s, a)?;
                let src = self.pick(s, b)?;
                let n = self.pick(s, c)?;
                self.copy(s, dst, src, n)
            }
            Memset => {
                let dst = self.pick(s, a)?;
                let n = self.pick(s, c)?;
                if n == 0 {
                    return Ok(());
                }
                let (o, f) = Self::obj_mut(s, dst, n)?;
                let n = n as usize;
                if b.e == 0 {
                    o.bytes[f..f + n].fill(b.c as u8);
                    if let Some(sy) = &mut o.sym {
                        sy[f..f + n].fill(0)
                    }
                } else {
                    if o.sym.is_none() {
                        o.sym = Some(Box::new(vec![0; o.size as usize]));
                    }
                    o.sym.as_mut().unwrap()[f..f + n].fill(b.e);
                }
                Ok(())
            }
            Memcmp | Bcmp => {
                let x = self.pick(s, a)?;
                let y = self.pick(s, b)?;
                let n = self.pick(s, c)?;
                if n > 0 {
                    Self::obj(s, x, n, false)?;
                    Self::obj(s, y, n, false)?;
                }
                let mut acc = self.ar.cst(0, 32);
                let one = self.ar.cst(1, 32);
                let m1 = self.ar.cst(u128::MAX, 32);
                for i in (0..n).rev() {
                    let p = self.load(s, x + i, 8)?;
                    let q = self.load(s, y + i, 8)?;
                    if p.e == 0 && q.e == 0 {
                        if p.c != q.c {
                            acc = if p.c < q.c { m1 } else { one };
                        }
                        continue;
                    }
                    let (p, q) = (self.ex(p, 8), self.ex(q, 8));
                    let eq = self.ar.bin(Op::Eq, p, q);
                    let v = if k == Bcmp {
                        one
                    } else {
                        let lt = self.ar.bin(Op::Ult, p, q);
                        self.ar.ite(lt, m1, one)
                    };
                    acc = self.ar.ite(eq, acc, v);
                }
                ret!(self.nv(acc))
            }
            Ctpop => {
                if conc {
                    ret!(cv((a.c & m64(w)).count_ones() as u64))
                }
                let e = self.ex(a, w);
                let mut acc = self.ar.cst(0, w);
                for i in 0..w {
                    let x = self.ar.extract(e, i, 1);
                    let x = self.ar.zext(x, w);
                    acc = self.ar.bin(Op::Add, acc, x);
                }
                ret!(self.nv(acc))
            }
            Cttz | Ctlz => {
                if conc {
                    let v = a.c & m64(w);
                    let r = if v == 0 {
                        w as u64
                    } else if k == Cttz {
                        v.trailing_zeros() as u64
                    } else {
                        (v.leading_zeros() - (64 - w)) as u64
                    };
                    ret!(cv(r))
                }
                let e = self.ex(a, w);
                let mut acc = self.ar.cst(w as u128, w);
                for j in 0..w {
                    let i = if k == Cttz { w - 1 - j } else { j };
                    let x = self.ar.extract(e, i, 1);
                    let v = if k == Cttz { i } else { w - 1 - i };
                    let v = self.ar.cst(v as u128, w);
                    acc = self.ar.ite(x, v, acc);
                }
                ret!(self.nv(acc))
            }
            UMin | UMax | SMin | SMax => {
                let p = if matches!(k, UMin | UMax) { Pred::Ult } else { Pred::Slt };
                let lt = self.cmp(p, a, b, w);
                let r = if matches!(k, UMin | SMin) { self.select(lt, a, b, w) } else { self.select(lt, b, a, w) };
                ret!(r)
            }
            UAddSat => {
                let r = self.binary(s, BinOp::Add, a, b, w)?;
                let o = self.cmp(Pred::Ult, r, a, w);
                let m = self.ar.cst(u128::MAX, w);
                let m = self.nv(m);
                ret!(self.select(o, m, r, w))
            }
            USubSat => {
                let r = self.binary(s, BinOp::Sub, a, b, w)?;
                let o = self.cmp(Pred::Ult, a, b, w);
                let z = self.ar.cst(0, w);
                let z = self.nv(z);
                ret!(self.select(o, z, r, w))
            }
            SAddSat | SSubSat => Err(Stop::Internal("signed saturating arithmetic".into())),
            UAddO | USubO => {
                let (r, o) = if k == UAddO {
                    let r = self.binary(s, BinOp::Add, a, b, w)?;
                    (r, self.cmp(Pred::Ult, r, a, w))
                } else {
                    (self.binary(s, BinOp::Sub, a, b, w)?, self.cmp(Pred::Ult, a, b, w))
                };
                Self::set(s, base, d, r);
                Self::set(s, base, d + 1, o);
                Ok(())
            }
            UMulO => {
                if conc {
                    let r = a.c as u128 * b.c as u128;
                    Self::set(s, base, d, cv(r as u64 & m64(w)));
                    Self::set(s, base, d + 1, cv((r > mask(w)) as u64));
                    return Ok(());
                }
                if w > 64 {
                    return Err(Stop::Internal("umul.overflow i128".into()));
                }
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let x = self.ar.zext(x, 2 * w);
                let y = self.ar.zext(y, 2 * w);
                let r = self.ar.bin(Op::Mul, x, y);
                let lo = self.ar.extract(r, 0, w);
                let hi = self.ar.extract(r, w, w);
                let z = self.ar.cst(0, w);
                let e = self.ar.bin(Op::Eq, hi, z);
                let o = self.ar.not(e);
                let (lo, o) = (self.nv(lo), self.nv(o));
                Self::set(s, base, d, lo);
                Self::set(s, base, d + 1, o);
                Ok(())
            }
            SAddO | SSubO | SMulO => {
                if w > 63 && !conc {
                    return Err(Stop::Internal("signed overflow arithmetic on wide symbolic value".into()));
                }
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let x = self.ar.sext(x, 2 * w);
                let y = self.ar.sext(y, 2 * w);
                let op = match k {
                    SAddO => Op::Add,
                    SSubO => Op::Sub,
                    _ => Op::Mul,
                };
                let r = self.ar.bin(op, x, y);
                let lo = self.ar.extract(r, 0, w);
                let back = self.ar.sext(lo, 2 * w);
                let e = self.ar.bin(Op::Eq, r, back);
                let o = self.ar.not(e);
                let (lo, o) = (self.nv(lo), self.nv(o));
                Self::set(s, base, d, lo);
                Self::set(s, base, d + 1, o);
                Ok(())
            }
            Fshl | Fshr => {
                let sh = self.pick(s, c)? % w as u64;
                if w > 64 {
                    return Err(Stop::Internal("funnel shift i128".into()));
                }
                if a.e == 0 && b.e == 0 {
                    let v = ((a.c as u128) << w) | b.c as u128;
                    let r = if k == Fshl { (v << sh) >> w } else { v >> sh };
                    ret!(cv(r as u64 & m64(w)))
                }
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let sh = sh as u32;
                if sh == 0 {
                    ret!(if k == Fshl { a } else { b })
                }
                let l = if k == Fshl { w - sh } else { sh };
                let hi = self.ar.extract(x, 0, l);
                let hi = if l == w { x } else { hi };
                let lo = self.ar.extract(y, l, w - l);
                // result = (x:y) >> l, low w bits
                let r = self.ar.concat(hi, lo);
                ret!(self.nv(r))
            }
            Bswap => {
                if conc {
                    ret!(cv(a.c.swap_bytes() >> (64 - w)))
                }
                let e = self.ex(a, w);
                let mut acc = self.ar.extract(e, 0, 8);
                for i in 1..w / 8 {
                    let x = self.ar.extract(e, i * 8, 8);
                    acc = self.ar.concat(acc, x);
                }
                ret!(self.nv(acc))
            }
            Bitreverse => {
                if conc {
                    ret!(cv(a.c.reverse_bits() >> (64 - w)))
                }
                let e = self.ex(a, w);
                let mut acc = self.ar.extract(e, 0, 1);
                for i in 1..w {
                    let x = self.ar.extract(e, i, 1);
                    acc = self.ar.concat(acc, x);
                }
                ret!(self.nv(acc))
            }
            Abs => {
                let z = self.ar.cst(0, w);
                let z = self.nv(z);
                let n = self.binary(s, BinOp::Sub, z, a, w)?;
                let lt = self.cmp(Pred::Slt, a, z, w);
                ret!(self.select(lt, n, a, w))
            }
            Assume => {
                if !self.truth(s, a)? {
                    return Err(Stop::Viol("ub: compiler assumption violated".into()));
                }
                Ok(())
            }
            Expect => ret!(a),
            UCmp | SCmp => {
                let (wa, wr) = (w & 0xffff, w >> 16);
                let p = if k == UCmp { Pred::Ult } else { Pred::Slt };
                let lt = self.cmp(p, a, b, wa);
                let gt = self.cmp(p, b, a, wa);
                let m1 = cv(m64(wr));
                let g = self.select(gt, cv(1), cv(0), wr);
                ret!(self.select(lt, m1, g, wr))
            }
            Trap => Err(Stop::Viol("trap".into())),
            Nop => Ok(()),
            SymU8 | SymU16 | SymU32 | SymU64 => {
                let w = match k {
                    SymU8 => 8,
                    SymU16 => 16,
                    SymU32 => 32,
                    _ => 64,
                };
                let idx = s.widths.len() as u32;
                s.widths.push(w as u8);
                let e = self.ar.var(idx, w);
                ret!(Val { e, c: 0 })
            }
            SymConc => {
                let v = self.pick(s, a)?;
                ret!(cv(v))
            }
            SymAssume => {
                if a.e == 0 {
                    return if a.c & 1 == 1 { Ok(()) } else { Err(Stop::Killed) };
                }
                if self.ar.eval(a.e, &s.model) == 1 {
                    s.pc.push(a.e);
                    return Ok(());
                }
                match self.smt.check(&mut self.ar, &s.pc, a.e, &s.widths, &s.model) {
                    Res::Unsat => Err(Stop::Killed),
                    Res::Sat(u) => {
                        s.model = self.merge_model(s, &u);
                        s.pc.push(a.e);
                        Ok(())
                    }
                    Res::Unknown => Err(Stop::Internal("solver returned unknown".into())),
                }
            }
            SymFail => {
                let code = self.pick(s, a)?;
                Err(Stop::Viol(format!("fail:{code}")))
            }
            SymPanic => Err(Stop::Viol("panic".into())),
            SymCover => {
                let i = self.pick(s, a)?;
                s.covers |= 1 << i;
                Ok(())
            }
            SymObserve => {
                s.obs.push(a);
                Ok(())
            }
            SymSelect8 => ret!(self.select(a, b, c, 8)),
            SymAlloc => {
                let n = self.pick(s, a)?;
                if n > 1 << 20 {
                    return Err(Stop::Internal(format!("allocation of {n} bytes")));
                }
                let id = HEAP_BASE + s.heap.len() as u64;
                s.heap.push(Some(Rc::new(Obj { size: n, bytes: vec![0xAA; n as usize], sym: None, constant: false })));
                ret!(cv(id << 32))
            }
            SymDealloc => {
                let p = self.pick(s, a)?;
                let id = (p >> 32).wrapping_sub(HEAP_BASE) as usize;
                match s.heap.get_mut(id) {
                    Some(x) if x.is_some() && p & 0xffff_ffff == 0 => {
                        *x = None;
                        Ok(())
                    }
                    _ => Err(Stop::Viol("ub: invalid free".into())),
                }
            }
        }
    }

    fn jump(&mut self, s: &mut State, f: &'static Func, e: u32) {
        let ed = &f.edges[e as usize];
        let fr = s.frames.last_mut().unwrap();
        fr.pc = ed.target;
        let (fi, base) = (fr.f, fr.base);
        self.cov[fi as usize][ed.block as usize] = true;
        match ed.moves.len() {
            0 => {}
            1 => {
                let v = self.get(s, base, ed.moves[0].1);
                Self::set(s, base, ed.moves[0].0, v);
            }
            _ => {
                let mut t = std::mem::take(&mut self.scratch);
                t.clear();
                for (_, o) in ed.moves.iter() {
                    t.push(self.get(s, base, *o));
                }
                for (i, (d, _)) in ed.moves.iter().enumerate() {
                    Self::set(s, base, *d, t[i]);
                }
                self.scratch = t;
            }
        }
    }

    fn call(&mut self, s: &mut State, f: u32, args: &[Opd], d: u32) -> R<()> {
        let fun = &self.m.funcs[f as usize];
        if !fun.defined {
            return Err(Stop::Internal(format!("call to undefined function {}", fun.name)));
        }
        if s.frames.len() > 400 {
            return Err(Stop::Viol("ub: call stack overflow".into()));
        }
        let base = s.frames.last().unwrap().base;
        let nb = s.regs.len() as u32;
        s.regs.resize(nb as usize + fun.nregs as usize, cv(0));
        for (i, o) in args.iter().enumerate() {
            let v = self.get(s, base, *o);
            s.regs[(nb + fun.params[i]) as usize] = v;
        }
        let smark = s.stack.len() as u32;
        s.frames.push(Frame { f, pc: 0, base: nb, ret: d, smark });
        self.cov[f as usize][0] = true;
        Ok(())
    }

    /// run one path to its end
    pub fn run(&mut self, s: &mut State, stop: &dyn Fn() -> bool) -> Stop {
        self.cov[s.frames[0].f as usize][0] = true;
        let mut n = 0u64;
        let r = loop {
            n += 1;
            if n & 0xfff == 0 && stop() {
                break Stop::Internal("deadline".into());
            }
            if s.instrs + n > self.max_instrs {
                break Stop::Viol("hang: instruction limit reached".into());
            }
            match self.step(s) {
                Ok(()) => {}
                Err(e) => break e,
            }
        };
        s.instrs += n;
        self.instrs += n;
        r
    }

    #[inline(always)]
    fn step(&mut self, s: &mut State) -> R<()> {
        let m: &'static Module = self.m;
        let fr = s.frames.last_mut().unwrap();
        let f: &'static Func = &m.funcs[fr.f as usize];
        let base = fr.base;
        let ins = &f.code[fr.pc as usize];
        if !s.idecs.is_empty() {
            s.idecs.clear();
        }
        match ins {
            Instr::Bin { op, w, d, a, b } => {
                let a = self.get(s, base, *a);
                let b = self.get(s, base, *b);
                let v = self.binary(s, *op, a, b, *w)?;
                Self::set(s, base, *d, v);
            }
            Instr::Icmp { p, w, d, a, b } => {
                let a = self.get(s, base, *a);
                let b = self.get(s, base, *b);
                let v = self.cmp(*p, a, b, *w);
                Self::set(s, base, *d, v);
            }
            Instr::Cast { k, wf, wt, d, a } => {
                let a = self.get(s, base, *a);
                let v = if a.e == 0 && *wt <= 64 {
                    match k {
                        CastK::Trunc => cv(a.c & m64(*wt)),
                        CastK::SExt => cv(s64(a.c, *wf) as u64 & m64(*wt)),
                        _ => a,
                    }
                } else if wf == wt {
                    a
                } else {
                    let x = self.ex(a, *wf);
                    let r = match k {
                        CastK::Trunc => self.ar.extract(x, 0, *wt),
                        CastK::ZExt => self.ar.zext(x, *wt),
                        CastK::SExt => self.ar.sext(x, *wt),
                        CastK::Same => x,
                    };
                    self.nv(r)
                };
                Self::set(s, base, *d, v);
            }
            Instr::Concat { d, parts } => {
                let mut acc: Option<E> = None;
                for (o, w) in parts.iter() {
                    let v = self.get(s, base, *o);
                    let x = self.ex(v, *w);
                    acc = Some(match acc {
                        None => x,
                        Some(l) => self.ar.concat(x, l),
                    });
                }
                let v = self.nv(acc.unwrap());
                Self::set(s, base, *d, v);
            }
            Instr::Extract { d, a, wa, lo, w } => {
                let v = self.get(s, base, *a);
                let x = self.ex(v, *wa);
                let x = self.ar.extract(x, *lo, *w);
                let v = self.nv(x);
                Self::set(s, base, *d, v);
            }
            Instr::Select { d, c, a, b, w } => {
                let c = self.get(s, base, *c);
                let a = self.get(s, base, *a);
                let b = self.get(s, base, *b);
                let v = self.select(c, a, b, *w);
                Self::set(s, base, *d, v);
            }
            Instr::Gep { d, base: b, off, terms } => {
                let mut p = self.get(s, base, *b);
                let mut k = *off;
                let mut sy: Option<E> = None;
                for (o, sc, w) in terms.iter() {
                    let v = self.get(s, base, *o);
                    if v.e == 0 {
                        k = k.wrapping_add((s64(v.c, *w) as u64).wrapping_mul(*sc));
                    } else {
                        let x = self.ar.sext(v.e, 64);
                        let c = self.ar.cst(*sc as u128, 64);
                        let t = self.ar.bin(Op::Mul, x, c);
                        sy = Some(match sy {
                            None => t,
                            Some(y) => self.ar.bin(Op::Add, y, t),
                        });
                    }
                }
                if p.e == 0 {
                    p.c = p.c.wrapping_add(k);
                } else {
                    let c = self.ar.cst(k as u128, 64);
                    p.e = self.ar.bin(Op::Add, p.e, c);
                }
                if let Some(y) = sy {
                    let x = self.ex(p, 64);
                    let r = self.ar.bin(Op::Add, y, x);
                    p = self.nv(r);
                }
                Self::set(s, base, *d, p);
            }
            Instr::Load { d, p, off, w } => {
                let p = self.get(s, base, *p);
                let v = if p.e == 0 { self.load(s, p.c.wrapping_add(*off), *w)? } else { self.load_sym(s, p, *off, *w)? };
                Self::set(s, base, *d, v);
            }
            Instr::Store { v, p, off, w } => {
                let p = self.get(s, base, *p);
                let a = self.pick(s, p)?.wrapping_add(*off);
                let v = self.get(s, base, *v);
                self.store(s, a, v, *w)?;
            }
            Instr::Alloca { d, size } => {
                let id = STACK_BASE + s.stack.len() as u64;
                s.stack.push(Rc::new(Obj { size: *size, bytes: vec![0xAA; *size as usize], sym: None, constant: false }));
                Self::set(s, base, *d, cv(id << 32));
            }
            Instr::AtomicRmw { op, d, p, v, w } => {
                let p = self.get(s, base, *p);
                let a = self.pick(s, p)?;
                let v = self.get(s, base, *v);
                let old = self.load(s, a, *w)?;
                let o = match op {
                    0 => None,
                    1 => Some(BinOp::Add),
                    2 => Some(BinOp::Sub),
                    3 => Some(BinOp::And),
                    4 => Some(BinOp::Or),
                    _ => Some(BinOp::Xor),
                };
                let nv = match o {
                    None => v,
                    Some(o) => self.binary(s, o, old, v, *w)?,
                };
                self.store(s, a, nv, *w)?;
                Self::set(s, base, *d, old);
            }
            Instr::CmpXchg { d, p, c, n, w } => {
                let p = self.get(s, base, *p);
                let a = self.pick(s, p)?;
                let c = self.get(s, base, *c);
                let n = self.get(s, base, *n);
                let old = self.load(s, a, *w)?;
                let eq = self.cmp(Pred::Eq, old, c, *w);
                let ok = self.truth(s, eq)?;
                if ok {
                    self.store(s, a, n, *w)?;
                }
                Self::set(s, base, *d, old);
                Self::set(s, base, *d + 1, cv(ok as u64));
            }
            Instr::Call { f, args, d } => {
                s.frames.last_mut().unwrap().pc += 1;
                return self.call(s, *f, args, *d);
            }
            Instr::CallInd { p, args, d } => {
                let p = self.get(s, base, *p);
                let a = self.pick(s, p)?;
                let id = (a >> 32).wrapping_sub(FUNC_BASE);
                if id as usize >= m.funcs.len() || a & 0xffff_ffff != 0 {
                    return Err(Stop::Viol(format!("ub: call through bad pointer {a:#x}")));
                }
                s.frames.last_mut().unwrap().pc += 1;
                return self.call(s, id as u32, args, *d);
            }
            Instr::Intrin { k, w, args, d } => {
                self.intrin(s, base, *k, *w, args, *d)?;
            }
            Instr::Ret { v } => {
                let vals: Vec<Val> = v.iter().map(|o| self.get(s, base, *o)).collect();
                let fr = s.frames.pop().unwrap();
                s.stack.truncate(fr.smark as usize);
                s.regs.truncate(fr.base as usize);
                match s.frames.last() {
                    None => return Err(Stop::Done),
                    Some(c) => {
                        let b = c.base;
                        for (i, v) in vals.into_iter().enumerate() {
                            Self::set(s, b, fr.ret + i as u32, v);
                        }
                    }
                }
                return Ok(());
            }
            Instr::Br { e } => {
                self.jump(s, f, *e);
                return Ok(());
            }
            Instr::CondBr { c, t, f: fe } => {
                let c = self.get(s, base, *c);
                let b = self.truth(s, c)?;
                self.jump(s, f, if b { *t } else { *fe });
                return Ok(());
            }
            Instr::Switch { v, w, cases, def } => {
                let x = self.get(s, base, *v);
                let mut e = *def;
                if x.e == 0 {
                    for (k, t) in cases.iter() {
                        if *k == x.c {
                            e = *t;
                            break;
                        }
                    }
                } else {
                    for (k, t) in cases.iter() {
                        let c = self.ar.cst(*k as u128, *w);
                        let q = self.ar.bin(Op::Eq, x.e, c);
                        if self.decide(s, q)? {
                            e = *t;
                            break;
                        }
                    }
                }
                self.jump(s, f, e);
                return Ok(());
            }
            Instr::Unreachable => return Err(Stop::Viol("ub: unreachable code reached".into())),
            Instr::Unsupported(t) => return Err(Stop::Internal(format!("unsupported instruction: {t}"))),
        }
        s.frames.last_mut().unwrap().pc += 1;
        Ok(())
    }

    pub fn where_is(&self, s: &State) -> Vec<(String, u32, String)> {
        let mut out = vec![];
        for (i, fr) in s.frames.iter().rev().enumerate() {
            let f = &self.m.funcs[fr.f as usize];
            let pc = if i == 0 { fr.pc } else { fr.pc.saturating_sub(1) };
            if let Some(d) = f.dbg.get(pc as usize) {
                out.extend(self.m.debug.chain(*d));
            }
        }
        out
    }
}
