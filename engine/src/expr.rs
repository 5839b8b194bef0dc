//! Hash-consed bit-vector expressions with local simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
        self.0 ^= self.0 >> 29;
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    Concat, // a = high part, b = low part
    Extract, // a, c = low bit
    SExt,
    Eq,
    Ult,
    Slt,
    Ite,
    Lin, // GF(2)-linear form, a = index into Arena.lin
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub d: u32,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub struct Model {
    pub vals: Vec<u64>,
    memo: std::cell::RefCell<FxMap<E, u128>>,
}
impl Model {
    pub fn new(vals: Vec<u64>) -> Rc<Model> {
        Rc::new(Model { vals, memo: Default::default() })
    }
}

pub type VarSet = Rc<[u64]>;

/// k ^ XOR over terms of (atom ? mask : 0); atoms are 1-bit expressions, sorted.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct LinForm {
    pub w: u32,
    pub k: u128,
    pub t: Rc<[(E, u128)]>,
}

pub struct Arena {
    pub n: Vec<Node>,
    tab: FxMap<Node, E>,
    exm: FxMap<(E, u32, u32), E>,
    leaves: Vec<u8>, // const-tree leaf count, 0 = not a const tree
    vs: Vec<Option<VarSet>>,
    empty: VarSet,
    pub lin: Vec<LinForm>,
    lintab: FxMap<LinForm, u32>,
}

const MAXLEAF: u8 = 24;

pub fn binop_const(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x >= 0 { m } else { 1 }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sext(a, w);
            let sh = if b >= w as u128 { w.min(127) as u128 } else { b };
            (s >> sh) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Concat => unreachable!(),
        _ => unreachable!(),
    };
    r & m
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            n: Vec::new(),
            tab: Default::default(),
            exm: Default::default(),
            leaves: Vec::new(),
            vs: Vec::new(),
            empty: Rc::from(Vec::new()),
            lin: Vec::new(),
            lintab: Default::default(),
        };
        // index 0 is reserved to mean "concrete"
        a.n.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, d: 0 });
        a.leaves.push(0);
        a.vs.push(None);
        a
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    fn mk(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32, d: u32) -> E {
        debug_assert!(w > 0);
        let nd = Node { op, w: w as u16, a, b, c, d };
        if let Some(e) = self.tab.get(&nd) {
            return *e;
        }
        let e = self.n.len() as u32;
        let l = match op {
            Op::Const => 1,
            Op::Ite => {
                let (x, y) = (self.leaves[b as usize], self.leaves[c as usize]);
                if x == 0 || y == 0 || x as u32 + y as u32 > MAXLEAF as u32 { 0 } else { x + y }
            }
            _ => 0,
        };
        self.n.push(nd);
        self.leaves.push(l);
        self.vs.push(None);
        self.tab.insert(nd, e);
        e
    }
    pub fn cst(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        self.mk(Op::Const, w, v as u32, (v >> 32) as u32, (v >> 64) as u32, (v >> 96) as u32)
    }
    pub fn var(&mut self, idx: u32, w: u32) -> E {
        self.mk(Op::Var, w, idx, 0, 0, 0)
    }
    pub fn is_c(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.a as u128 | (n.b as u128) << 32 | (n.c as u128) << 64 | (n.d as u128) << 96)
        } else {
            None
        }
    }
    pub fn is_ctree(&self, e: E) -> bool {
        self.leaves[e as usize] > 0
    }
    fn ctree(&self, e: E) -> bool {
        // a genuine (non constant) const tree
        self.leaves[e as usize] > 1
    }
    fn nd(&self, e: E) -> Node {
        self.n[e as usize]
    }
    /// map a function over the leaves of a const tree
    pub fn map_tree(&mut self, e: E, f: &mut dyn FnMut(&mut Arena, u128) -> E) -> E {
        let n = self.nd(e);
        if n.op == Op::Const {
            let v = self.is_c(e).unwrap();
            return f(self, v);
        }
        debug_assert!(n.op == Op::Ite);
        let x = self.map_tree(n.b, f);
        let y = self.map_tree(n.c, f);
        self.ite(n.a, x, y)
    }
    fn lift(&mut self, op: Op, a: E, b: E, w: u32) -> Option<E> {
        let (ca, cb) = (self.is_c(a), self.is_c(b));
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
        let fold = |x: u128, y: u128| -> u128 { binop_const(op, x, y, w) & mask(rw) };
        if let (Some(x), Some(y)) = (ca, cb) {
            return Some(self.cst(fold(x, y), rw));
        }
        if let (true, Some(y)) = (self.ctree(a), cb) {
            return Some(self.map_tree(a, &mut |s, x| s.cst(fold(x, y), rw)));
        }
        if let (Some(x), true) = (ca, self.ctree(b)) {
            return Some(self.map_tree(b, &mut |s, y| s.cst(fold(x, y), rw)));
        }
        if self.ctree(a) && self.ctree(b) {
            let (na, nb) = (self.nd(a), self.nd(b));
            if na.a == nb.a {
                let x = self.bin(op, na.b, nb.b);
                let y = self.bin(op, na.c, nb.c);
                return Some(self.ite(na.a, x, y));
            }
        }
        None
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.cst(mask(w), w);
        self.bin(Op::Xor, a, m)
    }
    fn mknot(&mut self, a: E) -> E {
        let n = self.nd(a);
        match n.op {
            Op::Not => n.a,
            Op::Lin => {
                let mut f = self.lin[n.a as usize].clone();
                f.k ^= mask(f.w);
                self.mk_lin(f)
            }
            Op::Concat => {
                let h = self.not(n.a);
                let l = self.not(n.b);
                self.concat(h, l)
            }
            _ => self.mk(Op::Not, n.w as u32, a, 0, 0, 0),
        }
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{op:?}");
        if let Some(r) = self.lift(op, a, b, w) {
            return r;
        }
        let (mut a, mut b) = (a, b);
        if matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul | Op::Eq) && (self.is_c(a).is_some() || (self.is_c(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let cb = self.is_c(b);
        match op {
            Op::And | Op::Or => {
                if a == b {
                    return a;
                }
                let (id, ab) = if op == Op::And { (mask(w), 0) } else { (0, mask(w)) };
                if cb == Some(id) {
                    return a;
                }
                if cb == Some(ab) {
                    return b;
                }
                let (na, nb) = (self.nd(a), self.nd(b));
                if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                    return self.cst(ab, w);
                }
                if let Some(k) = cb {
                    // split the constant into runs
                    let mut runs = vec![];
                    let mut i = 0;
                    while i < w {
                        let bit = (k >> i) & 1;
                        let mut j = i;
                        while j < w && (k >> j) & 1 == bit {
                            j += 1
                        }
                        runs.push((i, j - i, bit));
                        i = j;
                    }
                    if runs.len() <= 6 {
                        let mut acc: Option<E> = None;
                        for (lo, l, bit) in runs {
                            let keep = (bit == 1) == (op == Op::And);
                            let p = if keep { self.extract(a, lo, l) } else { self.cst(if op == Op::And { 0 } else { u128::MAX }, l) };
                            acc = Some(match acc {
                                None => p,
                                Some(x) => self.concat(p, x),
                            });
                        }
                        return acc.unwrap();
                    }
                }
                if let Some(r) = self.split_bitwise(op, a, b) {
                    return r;
                }
                if w == 1 && op == Op::And {
                    // absorb: x & (x | y), x & (x & y)
                    for (x, n) in [(a, nb), (b, na)] {
                        if n.op == Op::And && (n.a == x || n.b == x) {
                            return if x == a { b } else { a };
                        }
                        if n.op == Op::Or && (n.a == x || n.b == x) {
                            return x;
                        }
                    }
                }
                if w == 1 && op == Op::Or {
                    for (x, n) in [(a, nb), (b, na)] {
                        if n.op == Op::Or && (n.a == x || n.b == x) {
                            return if x == a { b } else { a };
                        }
                        if n.op == Op::And && (n.a == x || n.b == x) {
                            return x;
                        }
                    }
                }
                self.mk(op, w, a, b, 0, 0)
            }
            Op::Xor => {
                if a == b {
                    return self.cst(0, w);
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(mask(w)) {
                    return self.mknot(a);
                }
                let (na, nb) = (self.nd(a), self.nd(b));
                if na.op == Op::Xor {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                    if let (Some(k), Some(k2)) = (cb, self.is_c(na.b)) {
                        let k = self.cst(k ^ k2, w);
                        return self.bin(Op::Xor, na.a, k);
                    }
                }
                if nb.op == Op::Xor {
                    if nb.a == a {
                        return nb.b;
                    }
                    if nb.b == a {
                        return nb.a;
                    }
                }
                if na.op == Op::Not && nb.op == Op::Not {
                    return self.bin(Op::Xor, na.a, nb.a);
                }
                if na.op == Op::Lin || nb.op == Op::Lin || (w > 1 && self.leaves[a as usize] == 2 && self.leaves[b as usize] == 2) {
                    let x = self.as_lin(a);
                    let y = self.as_lin(b);
                    return self.lin_xor(&x, &y);
                }
                if let Some(r) = self.split_bitwise(op, a, b) {
                    return r;
                }
                self.mk(op, w, a, b, 0, 0)
            }
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                let na = self.nd(a);
                if let Some(k) = cb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.is_c(na.b) {
                            let k = self.cst(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, na.a, k);
                        }
                    }
                    let z = self.known_zero(a);
                    if k & !z & mask(w) == 0 {
                        return self.bin(if na.op == Op::Lin { Op::Xor } else { Op::Or }, a, b);
                    }
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                self.mk(op, w, a, b, 0, 0)
            }
            Op::Sub => {
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(k) = cb {
                    let k = self.cst(k.wrapping_neg(), w);
                    return self.bin(Op::Add, a, k);
                }
                self.mk(op, w, a, b, 0, 0)
            }
            Op::Mul => {
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
                self.mk(op, w, a, b, 0, 0)
            }
            Op::UDiv | Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        if op == Op::UDiv {
                            let s = self.cst(k.trailing_zeros() as u128, w);
                            return self.bin(Op::LShr, a, s);
                        }
                        let m = self.cst(k - 1, w);
                        return self.bin(Op::And, a, m);
                    }
                }
                self.mk(op, w, a, b, 0, 0)
            }
            Op::SDiv | Op::SRem => self.mk(op, w, a, b, 0, 0),
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if op == Op::AShr {
                        let k = (k.min(w as u128 - 1)) as u32;
                        let x = self.extract(a, k, w - k);
                        return self.sext(x, w);
                    }
                    if k >= w as u128 {
                        return self.cst(0, w);
                    }
                    let k = k as u32;
                    let z = self.cst(0, k);
                    return if op == Op::Shl {
                        let x = self.extract(a, 0, w - k);
                        self.concat(x, z)
                    } else {
                        let x = self.extract(a, k, w - k);
                        self.concat(z, x)
                    };
                }
                self.mk(op, w, a, b, 0, 0)
            }
            Op::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if w == 1 {
                    if let Some(k) = cb {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                let (na, nb) = (self.nd(a), self.nd(b));
                if na.op == Op::Lin || nb.op == Op::Lin {
                    if let Some(k) = cb {
                        let f = self.lin[na.a as usize].clone();
                        return self.lin_eq(&f, k);
                    }
                    let x = self.as_lin(a);
                    let y = self.as_lin(b);
                    let z = self.lin_xor(&x, &y);
                    let c0 = self.cst(0, w);
                    return self.bin(Op::Eq, z, c0);
                }
                if let Some(k) = cb {
                    match na.op {
                        Op::Concat => {
                            let wl = self.w(na.b);
                            let kh = self.cst(k >> wl, w - wl);
                            let kl = self.cst(k, wl);
                            let h = self.bin(Op::Eq, na.a, kh);
                            let l = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Not => {
                            let k = self.cst(!k, w);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Xor => {
                            if let Some(k2) = self.is_c(na.b) {
                                let k = self.cst(k ^ k2, w);
                                return self.bin(Op::Eq, na.a, k);
                            }
                            if k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Add => {
                            if let Some(k2) = self.is_c(na.b) {
                                let k = self.cst(k.wrapping_sub(k2), w);
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Sub if k == 0 => return self.bin(Op::Eq, na.a, na.b),
                        Op::SExt => {
                            let wi = self.w(na.a);
                            let back = sext(k & mask(wi), wi) as u128 & mask(w);
                            if back != k {
                                return self.cst(0, 1);
                            }
                            let k = self.cst(k, wi);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Ite => {
                            // ite(c, const, x) == k
                            if self.is_c(na.b).is_some() || self.is_c(na.c).is_some() {
                                let kk = b;
                                let x = self.bin(Op::Eq, na.b, kk);
                                let y = self.bin(Op::Eq, na.c, kk);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                } else if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                    let h = self.bin(Op::Eq, na.a, nb.a);
                    let l = self.bin(Op::Eq, na.b, nb.b);
                    return self.bin(Op::And, h, l);
                } else if na.op == Op::Concat || nb.op == Op::Concat {
                    // split if one side has a constant part
                    let (n, o) = if na.op == Op::Concat { (na, b) } else { (nb, a) };
                    let wl = self.w(n.b);
                    if self.is_c(n.a).is_some() || self.is_c(n.b).is_some() {
                        let oh = self.extract(o, wl, w - wl);
                        let ol = self.extract(o, 0, wl);
                        let h = self.bin(Op::Eq, n.a, oh);
                        let l = self.bin(Op::Eq, n.b, ol);
                        return self.bin(Op::And, h, l);
                    }
                } else if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
                    let x = self.bin(Op::Eq, na.b, nb.b);
                    let y = self.bin(Op::Eq, na.c, nb.c);
                    return self.ite(na.a, x, y);
                }
                self.mk(op, 1, a, b, 0, 0)
            }
            Op::Ult => {
                if a == b || cb == Some(0) {
                    return self.cst(0, 1);
                }
                let ca = self.is_c(a);
                if ca == Some(mask(w)) {
                    return self.cst(0, 1);
                }
                if cb == Some(1) {
                    let z = self.cst(0, w);
                    return self.bin(Op::Eq, a, z);
                }
                if ca == Some(0) {
                    let z = self.cst(0, w);
                    let e = self.bin(Op::Eq, b, z);
                    return self.not(e);
                }
                if w == 1 {
                    let n = self.not(a);
                    return self.bin(Op::And, n, b);
                }
                if let Some(k) = cb {
                    // maximum possible value of a
                    if !self.known_zero(a) & mask(w) < k {
                        return self.cst(1, 1);
                    }
                }
                if let Some(k) = ca {
                    if !self.known_zero(b) & mask(w) <= k {
                        return self.cst(0, 1);
                    }
                }
                let (na, nb) = (self.nd(a), self.nd(b));
                // strip equal high parts
                if na.op == Op::Concat && nb.op == Op::Concat && na.a == nb.a && self.w(na.b) == self.w(nb.b) {
                    return self.bin(Op::Ult, na.b, nb.b);
                }
                if na.op == Op::Concat
                    && let Some(h) = self.is_c(na.a)
                {
                    let wl = self.w(na.b);
                    if let Some(k) = cb {
                        let kh = k >> wl;
                        if h < kh {
                            return self.cst(1, 1);
                        }
                        if h > kh {
                            return self.cst(0, 1);
                        }
                        let kl = self.cst(k, wl);
                        return self.bin(Op::Ult, na.b, kl);
                    }
                    if nb.op != Op::Concat && h == 0 && self.w(nb.a) == 0 {
                        // nothing
                    }
                }
                if nb.op == Op::Concat
                    && let Some(h) = self.is_c(nb.a)
                {
                    let wl = self.w(nb.b);
                    if let Some(k) = ca {
                        let kh = k >> wl;
                        if kh < h {
                            return self.cst(1, 1);
                        }
                        if kh > h {
                            return self.cst(0, 1);
                        }
                        let kl = self.cst(k, wl);
                        return self.bin(Op::Ult, kl, nb.b);
                    }
                }
                // both zero-extended to different widths
                if na.op == Op::Concat && nb.op == Op::Concat && self.is_c(na.a) == Some(0) && self.is_c(nb.a) == Some(0) {
                    let wl = self.w(na.b).max(self.w(nb.b));
                    let x = self.extract(a, 0, wl);
                    let y = self.extract(b, 0, wl);
                    return self.bin(Op::Ult, x, y);
                }
                self.mk(op, 1, a, b, 0, 0)
            }
            Op::Slt => {
                if a == b {
                    return self.cst(0, 1);
                }
                let sa = self.extract(a, w - 1, 1);
                let sb = self.extract(b, w - 1, 1);
                match (self.is_c(sa), self.is_c(sb)) {
                    (Some(x), Some(y)) if x == y => return self.bin(Op::Ult, a, b),
                    (Some(x), Some(_)) => return self.cst(x, 1),
                    _ => {}
                }
                if cb == Some(0) {
                    return sa;
                }
                self.mk(op, 1, a, b, 0, 0)
            }
            _ => unreachable!("{op:?}"),
        }
    }
    fn known_zero(&self, e: E) -> u128 {
        let n = self.nd(e);
        let w = n.w as u32;
        match n.op {
            Op::Const => !self.is_c(e).unwrap() & mask(w),
            Op::Concat => {
                let wl = self.w(n.b);
                (self.known_zero(n.a) << wl) | self.known_zero(n.b)
            }
            Op::Lin => {
                let f = &self.lin[n.a as usize];
                !f.t.iter().fold(f.k, |x, (_, m)| x | m) & mask(w)
            }
            Op::Ite if self.leaves[e as usize] > 0 => self.known_zero(n.b) & self.known_zero(n.c),
            _ => 0,
        }
    }
    fn split_bitwise(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.nd(a), self.nd(b));
        let w = na.w as u32;
        let mut cuts = vec![];
        if na.op == Op::Concat {
            cuts.push(self.w(na.b))
        }
        if nb.op == Op::Concat {
            cuts.push(self.w(nb.b))
        }
        cuts.sort();
        cuts.dedup();
        for c in cuts {
            let al = self.extract(a, 0, c);
            let bl = self.extract(b, 0, c);
            let ah = self.extract(a, c, w - c);
            let bh = self.extract(b, c, w - c);
            let kc = |s: &Arena, e: E| s.is_c(e).is_some();
            if kc(self, al) || kc(self, bl) || kc(self, ah) || kc(self, bh) {
                let l = self.bin(op, al, bl);
                let h = self.bin(op, ah, bh);
                return Some(self.concat(h, l));
            }
        }
        None
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let z = self.cst(0, w - wa);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(k) = self.is_c(a) {
            return self.cst(sext(k, wa) as u128, w);
        }
        if self.ctree(a) {
            return self.map_tree(a, &mut |s, k| s.cst(sext(k, wa) as u128, w));
        }
        let top = self.extract(a, wa - 1, 1);
        if wa > 1 && self.is_c(top) == Some(0) {
            return self.zext(a, w);
        }
        if wa == 1 {
            let x = self.cst(u128::MAX, w);
            let y = self.cst(0, w);
            return self.ite(a, x, y);
        }
        let n = self.nd(a);
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    fn merge(&mut self, h: E, l: E) -> Option<E> {
        let (nh, nl) = (self.nd(h), self.nd(l));
        let w = nh.w as u32 + nl.w as u32;
        let wl = nl.w as u32;
        if let (Some(x), Some(y)) = (self.is_c(h), self.is_c(l)) {
            if w > 128 {
                return None;
            }
            return Some(self.cst((x << wl) | y, w));
        }
        if w <= 128 && (nh.op == Op::Lin || nl.op == Op::Lin) {
            let ok = |s: &Arena, n: &Node, e: E| n.op == Op::Lin || s.leaves[e as usize] == 1 || s.leaves[e as usize] == 2 || n.w == 1;
            if ok(self, &nh, h) && ok(self, &nl, l) {
                let x = self.as_lin(h);
                let y = self.as_lin(l);
                let x = LinForm { w, k: x.k << wl, t: x.t.iter().map(|(a, m)| (*a, m << wl)).collect() };
                let y = LinForm { w, ..y };
                return Some(self.lin_xor(&x, &y));
            }
        }
        // adjacent extracts
        let part = |n: &Node, e: E| if n.op == Op::Extract { (n.a, n.c) } else { (e, 0) };
        let (sl, lo) = part(&nl, l);
        if nh.op == Op::Extract && nh.a == sl && nh.c == lo + wl {
            return Some(self.extract(sl, lo, w));
        }
        if w <= 128 {
            if let (true, Some(y)) = (self.ctree(h), self.is_c(l)) {
                return Some(self.map_tree(h, &mut |s, x| s.cst((x << wl) | y, w)));
            }
            if let (Some(x), true) = (self.is_c(h), self.ctree(l)) {
                return Some(self.map_tree(l, &mut |s, y| s.cst((x << wl) | y, w)));
            }
            if self.ctree(h) && self.ctree(l) && nh.a == nl.a {
                let x = self.concat(nh.b, nl.b);
                let y = self.concat(nh.c, nl.c);
                return Some(self.ite(nh.a, x, y));
            }
        }
        None
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (nh, nl) = (self.nd(h), self.nd(l));
        if nh.op == Op::Concat {
            let x = self.concat(nh.b, l);
            return self.concat(nh.a, x);
        }
        let w = nh.w as u32 + nl.w as u32;
        if let Some(r) = self.merge(h, l) {
            return r;
        }
        if nl.w == 1 && w <= 128 && self.is_c(h).is_some() && nl.op != Op::Lin {
            let k = self.is_c(h).unwrap() << 1;
            let x = self.cst(k | 1, w);
            let y = self.cst(k, w);
            return self.ite(l, x, y);
        }
        if nl.op == Op::Concat {
            if let Some(r) = self.merge(h, nl.a) {
                return self.concat(r, nl.b);
            }
        }
        // ite(c, a, b) ++ ite(c, x, y) where arms re-merge (e.g. bytes of a selected word)
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let x = self.merge(nh.b, nl.b);
            let y = self.merge(nh.c, nl.c);
            if let (Some(x), Some(y)) = (x, y) {
                return self.ite(nh.a, x, y);
            }
        }
        self.mk(Op::Concat, w, h, l, 0, 0)
    }
    pub fn extract(&mut self, x: E, lo: u32, w: u32) -> E {
        let n = self.nd(x);
        let wx = n.w as u32;
        debug_assert!(lo + w <= wx);
        if w == wx {
            return x;
        }
        match n.op {
            Op::Const => {
                let v = self.is_c(x).unwrap();
                return self.cst(v >> lo, w);
            }
            Op::Var => return self.mk(Op::Extract, w, x, 0, lo, 0),
            Op::Extract => return self.extract(n.a, lo + n.c, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            _ => {}
        }
        if let Some(r) = self.exm.get(&(x, lo, w)) {
            return *r;
        }
        let r = match n.op {
            Op::Not => {
                let a = self.extract(n.a, lo, w);
                self.not(a)
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                self.bin(n.op, a, b)
            }
            Op::Ite => {
                let a = self.extract(n.b, lo, w);
                let b = self.extract(n.c, lo, w);
                self.ite(n.a, a, b)
            }
            Op::SExt if lo + w <= self.w(n.a) => self.extract(n.a, lo, w),
            Op::Lin => {
                let f = self.lin[n.a as usize].clone();
                let m = mask(w);
                let g = LinForm { w, k: (f.k >> lo) & m, t: f.t.iter().map(|(a, k)| (*a, (k >> lo) & m)).filter(|(_, k)| *k != 0).collect() };
                self.mk_lin(g)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let a = self.extract(n.a, 0, w);
                let b = self.extract(n.b, 0, w);
                self.bin(n.op, a, b)
            }
            _ => self.mk(Op::Extract, w, x, 0, lo, 0),
        };
        self.exm.insert((x, lo, w), r);
        r
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.is_c(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.nd(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        let (na, nb) = (self.nd(a), self.nd(b));
        // arms that differ by a constant keep a GF(2)-linear shape
        if w > 1 && !(self.is_ctree(a) && self.is_ctree(b)) && (na.op == Op::Lin || nb.op == Op::Lin || na.op == Op::Xor || nb.op == Op::Xor) {
            let x = self.bin(Op::Xor, a, b);
            if let Some(k) = self.is_c(x) {
                let y = self.as_lin(b);
                let kx = self.cst(k, w);
                let z = self.cst(0, w);
                let t = self.mk(Op::Ite, w, c, kx, z, 0);
                let t = self.as_lin(t);
                return self.lin_xor(&y, &t);
            }
        }
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if w == 1 {
            match (self.is_c(a), self.is_c(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
        if nb.op == Op::Ite && nb.b == a {
            let d = self.bin(Op::Or, c, nb.a);
            return self.ite(d, a, nb.c);
        }
        if na.op == Op::Ite && na.c == b {
            let d = self.bin(Op::And, c, na.a);
            return self.ite(d, na.b, b);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }

    // ---------- GF(2)-linear forms ----------
    pub fn mk_lin(&mut self, f: LinForm) -> E {
        let w = f.w;
        if f.t.is_empty() {
            return self.cst(f.k, w);
        }
        if f.t.len() == 1 {
            let (a, m) = f.t[0];
            let x = self.cst(f.k ^ m, w);
            let y = self.cst(f.k, w);
            return self.ite(a, x, y);
        }
        let i = match self.lintab.get(&f) {
            Some(i) => *i,
            None => {
                let i = self.lin.len() as u32;
                self.lin.push(f.clone());
                self.lintab.insert(f, i);
                i
            }
        };
        self.mk(Op::Lin, w, i, 0, 0, 0)
    }
    fn lin_merge(x: &LinForm, y: &LinForm) -> LinForm {
        let mut t = Vec::with_capacity(x.t.len() + y.t.len());
        let (mut i, mut j) = (0, 0);
        while i < x.t.len() || j < y.t.len() {
            if j == y.t.len() || (i < x.t.len() && x.t[i].0 < y.t[j].0) {
                t.push(x.t[i]);
                i += 1;
            } else if i == x.t.len() || y.t[j].0 < x.t[i].0 {
                t.push(y.t[j]);
                j += 1;
            } else {
                let m = x.t[i].1 ^ y.t[j].1;
                if m != 0 {
                    t.push((x.t[i].0, m));
                }
                i += 1;
                j += 1;
            }
        }
        LinForm { w: x.w, k: x.k ^ y.k, t: t.into() }
    }
    fn lin_xor(&mut self, x: &LinForm, y: &LinForm) -> E {
        let f = Self::lin_merge(x, y);
        self.mk_lin(f)
    }
    /// rewrite with 1-bit atoms replaced by linear forms
    pub fn reduce(&mut self, e: E, sub: &FxMap<E, LinForm>, memo: &mut FxMap<E, E>) -> E {
        if let Some(x) = memo.get(&e) {
            return *x;
        }
        let n = self.nd(e);
        let w = n.w as u32;
        let var = n.op == Op::Var || (n.op == Op::Extract && self.n[n.a as usize].op == Op::Var);
        let r = match n.op {
            Op::Const => e,
            _ if n.op == Op::Lin || var => {
                let f = if w == 1 && var { LinForm { w, k: 0, t: Rc::from([(e, 1)]) } } else { self.as_lin(e) };
                let mut acc = LinForm { w, k: f.k, t: Rc::from([]) };
                let mut hit = false;
                for (x, m) in f.t.iter() {
                    let g = match sub.get(x) {
                        Some(g) => {
                            hit = true;
                            let k = if g.k & 1 == 1 { *m } else { 0 };
                            LinForm { w, k, t: g.t.iter().map(|(y, _)| (*y, *m)).collect() }
                        }
                        None => LinForm { w, k: 0, t: Rc::from([(*x, *m)]) },
                    };
                    acc = Self::lin_merge(&acc, &g);
                }
                if hit { self.mk_lin(acc) } else { e }
            }
            Op::Var => e,
            Op::Not => {
                let a = self.reduce(n.a, sub, memo);
                if a == n.a { e } else { self.not(a) }
            }
            Op::Extract => {
                let a = self.reduce(n.a, sub, memo);
                if a == n.a { e } else { self.extract(a, n.c, w) }
            }
            Op::SExt => {
                let a = self.reduce(n.a, sub, memo);
                if a == n.a { e } else { self.sext(a, w) }
            }
            Op::Ite => {
                let a = self.reduce(n.a, sub, memo);
                let b = self.reduce(n.b, sub, memo);
                let c = self.reduce(n.c, sub, memo);
                if a == n.a && b == n.b && c == n.c { e } else { self.ite(a, b, c) }
            }
            Op::Concat => {
                let a = self.reduce(n.a, sub, memo);
                let b = self.reduce(n.b, sub, memo);
                if a == n.a && b == n.b { e } else { self.concat(a, b) }
            }
            op => {
                let a = self.reduce(n.a, sub, memo);
                let b = self.reduce(n.b, sub, memo);
                if a == n.a && b == n.b { e } else { self.bin(op, a, b) }
            }
        };
        memo.insert(e, r);
        r
    }
    /// view an expression as a linear form over its bits
    pub fn as_lin(&mut self, e: E) -> LinForm {
        let n = self.nd(e);
        let w = n.w as u32;
        match n.op {
            Op::Const => LinForm { w, k: self.is_c(e).unwrap(), t: Rc::from([]) },
            Op::Lin => self.lin[n.a as usize].clone(),
            Op::Not => {
                let mut f = self.as_lin(n.a);
                f.k ^= mask(w);
                f
            }
            Op::Xor => {
                let x = self.as_lin(n.a);
                let y = self.as_lin(n.b);
                Self::lin_merge(&x, &y)
            }
            Op::Concat => {
                let x = self.as_lin(n.a);
                let y = self.as_lin(n.b);
                let wl = y.w;
                let x = LinForm { w, k: x.k << wl, t: x.t.iter().map(|(a, m)| (*a, m << wl)).collect() };
                let y = LinForm { w, ..y };
                Self::lin_merge(&x, &y)
            }
            Op::Ite if w > 1 && self.is_c(n.b).is_some() && self.is_c(n.c).is_some() => {
                let (x, y) = (self.is_c(n.b).unwrap(), self.is_c(n.c).unwrap());
                let c = self.as_lin(n.a);
                let m = x ^ y;
                LinForm { w, k: y ^ if c.k == 1 { m } else { 0 }, t: c.t.iter().map(|(a, _)| (*a, m)).collect() }
            }
            _ if w == 1 => LinForm { w, k: 0, t: Rc::from([(e, 1)]) },
            _ => {
                let mut acc = LinForm { w, k: 0, t: Rc::from([]) };
                for j in 0..w {
                    let b = self.extract(e, j, 1);
                    let f = self.as_lin(b);
                    let f = LinForm { w, k: f.k << j, t: f.t.iter().map(|(a, m)| (*a, m << j)).collect() };
                    acc = Self::lin_merge(&acc, &f);
                }
                acc
            }
        }
    }
    /// apply a GF(2)-affine table to a linear form
    pub fn lin_table(&mut self, idx: &LinForm, tab0: u64, delta: &dyn Fn(u32) -> u64, w: u32) -> E {
        let ap = |m: u128| -> u128 {
            let mut r = 0u64;
            let mut x = m;
            while x != 0 {
                r ^= delta(x.trailing_zeros());
                x &= x - 1;
            }
            r as u128
        };
        let t: Vec<(E, u128)> = idx.t.iter().map(|(a, m)| (*a, ap(*m))).filter(|(_, m)| *m != 0).collect();
        let f = LinForm { w, k: tab0 as u128 ^ ap(idx.k), t: t.into() };
        self.mk_lin(f)
    }
    /// f == c as a conjunction of reduced parity equations
    fn lin_eq(&mut self, f: &LinForm, c: u128) -> E {
        let n = f.t.len();
        let nw = n / 64 + 1;
        let rhs = f.k ^ c;
        let mut rows: Vec<Vec<u64>> = Vec::new();
        for bit in 0..f.w {
            let mut r = vec![0u64; nw + 1];
            for (i, (_, m)) in f.t.iter().enumerate() {
                if (m >> bit) & 1 == 1 {
                    r[i / 64] |= 1 << (i % 64)
                }
            }
            r[nw] = ((rhs >> bit) & 1) as u64;
            rows.push(r);
        }
        let mut rank = 0;
        for col in 0..n {
            let Some(p) = (rank..rows.len()).find(|r| rows[*r][col / 64] >> (col % 64) & 1 == 1) else { continue };
            rows.swap(rank, p);
            let piv = rows[rank].clone();
            for (i, r) in rows.iter_mut().enumerate() {
                if i != rank && r[col / 64] >> (col % 64) & 1 == 1 {
                    for (x, y) in r.iter_mut().zip(&piv) {
                        *x ^= y
                    }
                }
            }
            rank += 1;
        }
        if rows[rank..].iter().any(|r| r[nw] == 1) {
            return self.cst(0, 1);
        }
        let mut acc = self.cst(1, 1);
        for r in &rows[..rank] {
            let t: Vec<(E, u128)> = (0..n).filter(|i| r[i / 64] >> (i % 64) & 1 == 1).map(|i| (f.t[i].0, 1)).collect();
            let e = if t.len() == 1 {
                if r[nw] == 1 { t[0].0 } else { self.not(t[0].0) }
            } else {
                self.mk_lin(LinForm { w: 1, k: (r[nw] ^ 1) as u128, t: t.into() })
            };
            acc = self.bin(Op::And, acc, e);
        }
        acc
    }

    pub fn vars(&mut self, e: E) -> VarSet {
        if let Some(v) = &self.vs[e as usize] {
            return v.clone();
        }
        let n = self.nd(e);
        if n.op == Op::Lin {
            let mut v: Vec<u64> = vec![];
            for (a, _) in self.lin[n.a as usize].t.clone().iter() {
                let s = self.vars(*a);
                if v.len() < s.len() {
                    v.resize(s.len(), 0)
                }
                for (i, x) in s.iter().enumerate() {
                    v[i] |= x
                }
            }
            let r: VarSet = Rc::from(v);
            self.vs[e as usize] = Some(r.clone());
            return r;
        }
        let kids: &[E] = &match n.op {
            Op::Const => [0, 0, 0],
            Op::Var => [0, 0, 0],
            Op::Not | Op::Extract | Op::SExt => [n.a, 0, 0],
            Op::Ite => [n.a, n.b, n.c],
            _ => [n.a, n.b, 0],
        };
        let r: VarSet = if n.op == Op::Var {
            let mut v = vec![0u64; n.a as usize / 64 + 1];
            v[n.a as usize / 64] |= 1 << (n.a % 64);
            Rc::from(v)
        } else {
            let mut acc = self.empty.clone();
            for k in kids {
                if *k != 0 {
                    let s = self.vars(*k);
                    if acc.is_empty() {
                        acc = s;
                    } else if !s.is_empty() && !Rc::ptr_eq(&acc, &s) && *acc != *s {
                        let mut v = acc.to_vec();
                        if v.len() < s.len() {
                            v.resize(s.len(), 0)
                        }
                        for (i, x) in s.iter().enumerate() {
                            v[i] |= x
                        }
                        acc = Rc::from(v);
                    }
                }
            }
            acc
        };
        self.vs[e as usize] = Some(r.clone());
        r
    }

    pub fn eval(&self, e: E, m: &Model) -> u128 {
        let n = &self.n[e as usize];
        let w = n.w as u32;
        match n.op {
            Op::Const => return self.is_c(e).unwrap(),
            Op::Var => return m.vals.get(n.a as usize).copied().unwrap_or(0) as u128 & mask(w),
            _ => {}
        }
        if let Some(v) = m.memo.borrow().get(&e) {
            return *v;
        }
        let r = match n.op {
            Op::Not => !self.eval(n.a, m) & mask(w),
            Op::Concat => {
                let wl = self.w(n.b);
                (self.eval(n.a, m) << wl) | self.eval(n.b, m)
            }
            Op::Extract => (self.eval(n.a, m) >> n.c) & mask(w),
            Op::SExt => sext(self.eval(n.a, m), self.w(n.a)) as u128 & mask(w),
            Op::Lin => {
                let f = &self.lin[n.a as usize];
                let mut r = f.k;
                for (a, k) in f.t.iter() {
                    if self.eval(*a, m) == 1 {
                        r ^= k
                    }
                }
                r
            }
            Op::Ite => {
                if self.eval(n.a, m) == 1 {
                    self.eval(n.b, m)
                } else {
                    self.eval(n.c, m)
                }
            }
            Op::Eq | Op::Ult | Op::Slt => {
                let wa = self.w(n.a);
                binop_const(n.op, self.eval(n.a, m), self.eval(n.b, m), wa)
            }
            _ => binop_const(n.op, self.eval(n.a, m), self.eval(n.b, m), w),
        };
        m.memo.borrow_mut().insert(e, r);
        r
    }
    #[allow(dead_code)]
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = &self.n[e as usize];
        if depth == 0 && !matches!(n.op, Op::Const | Op::Var) {
            return format!("#{e}");
        }
        let d = depth.saturating_sub(1);
        match n.op {
            Op::Const => format!("{:#x}:{}", self.is_c(e).unwrap(), n.w),
            Op::Var => format!("v{}:{}", n.a, n.w),
            Op::Not => format!("~{}", self.show(n.a, d)),
            Op::Lin => format!("lin({})", self.lin[n.a as usize].t.len()),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d), n.c, n.w),
            Op::SExt => format!("sext({},{})", self.show(n.a, d), n.w),
            Op::Ite => format!("({}?{}:{})", self.show(n.a, d), self.show(n.b, d), self.show(n.c, d)),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, d), self.show(n.b, d)),
        }
    }
}
