//! Z3 back end: translation, constraint slicing and query cache.
use crate::expr::*;
use crate::expr::Model;
use crate::z3::*;
use std::ffi::CString;
use std::ptr::null_mut;
use std::rc::Rc;
use std::time::Instant;

#[derive(Default, Clone, Debug)]
pub struct QStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub fallback: u64,
    pub linear: u64,
    pub secs: f64,
    pub max_secs: f64,
}

pub enum Res {
    Unsat,
    Sat(Vec<(u32, u64)>),
    Unknown,
}

pub struct Smt {
    ctx: Ctx,
    simple: Solver,
    qf: Solver,
    bv: Vec<Ast>,   // expression as a bit vector
    bl: Vec<Ast>,   // expression as a bool
    cache: FxMap<Vec<E>, Option<Rc<Vec<(u32, u64)>>>>,
    pub st: QStats,
    pub one: Ast,
}

extern "C" fn on_err(_c: Ctx, code: std::os::raw::c_int) {
    eprintln!("z3 error {code}");
    std::process::abort();
}

impl Smt {
    pub fn new() -> Smt {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let sym = |s: &str| {
                let c = CString::new(s).unwrap();
                Z3_mk_string_symbol(ctx, c.as_ptr())
            };
            let simple = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, simple);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, sym("timeout"), 3000);
            Z3_solver_set_params(ctx, simple, p);
            let qf = Z3_mk_solver_for_logic(ctx, sym("QF_BV"));
            Z3_solver_inc_ref(ctx, qf);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, sym("timeout"), 120_000);
            Z3_solver_set_params(ctx, qf, p);
            let s1 = Z3_mk_bv_sort(ctx, 1);
            let one = Z3_mk_unsigned_int64(ctx, 1, s1);
            Smt { ctx, simple, qf, bv: vec![], bl: vec![], cache: Default::default(), st: Default::default(), one }
        }
    }
    fn sort(&self, w: u32) -> Sort {
        unsafe { Z3_mk_bv_sort(self.ctx, w) }
    }
    fn num(&self, v: u128, w: u32) -> Ast {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, self.sort(w))
            } else {
                let c = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, c.as_ptr(), self.sort(w))
            }
        }
    }
    pub fn var_ast(&self, idx: u32, w: u32) -> Ast {
        unsafe { Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, (idx * 128 + w) as i32), self.sort(w)) }
    }
    fn as_bool(&mut self, a: &Arena, e: E) -> Ast {
        let i = e as usize;
        if self.bl.len() <= i {
            self.bl.resize(a.n.len().max(i + 1), null_mut())
        }
        if !self.bl[i].is_null() {
            return self.bl[i];
        }
        let n = a.n[i];
        debug_assert_eq!(n.w, 1);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.a == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => Z3_mk_not(c, self.as_bool(a, n.a)),
                Op::And | Op::Or => {
                    let v = [self.as_bool(a, n.a), self.as_bool(a, n.b)];
                    if n.op == Op::And { Z3_mk_and(c, 2, v.as_ptr()) } else { Z3_mk_or(c, 2, v.as_ptr()) }
                }
                Op::Lin => {
                    let f = a.lin[n.a as usize].clone();
                    let mut r = if f.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) };
                    for (x, _) in f.t.iter() {
                        r = Z3_mk_xor(c, r, self.as_bool(a, *x));
                    }
                    r
                }
                Op::Xor => Z3_mk_xor(c, self.as_bool(a, n.a), self.as_bool(a, n.b)),
                Op::Eq => Z3_mk_eq(c, self.as_bv(a, n.a), self.as_bv(a, n.b)),
                Op::Ult => Z3_mk_bvult(c, self.as_bv(a, n.a), self.as_bv(a, n.b)),
                Op::Slt => Z3_mk_bvslt(c, self.as_bv(a, n.a), self.as_bv(a, n.b)),
                Op::Ite => Z3_mk_ite(c, self.as_bool(a, n.a), self.as_bool(a, n.b), self.as_bool(a, n.c)),
                _ => Z3_mk_eq(c, self.as_bv(a, e), self.one),
            }
        };
        self.bl[i] = r;
        r
    }
    fn as_bv(&mut self, a: &Arena, e: E) -> Ast {
        let i = e as usize;
        if self.bv.len() <= i {
            self.bv.resize(a.n.len().max(i + 1), null_mut())
        }
        if !self.bv[i].is_null() {
            return self.bv[i];
        }
        let n = a.n[i];
        let c = self.ctx;
        let w = n.w as u32;
        let r = unsafe {
            macro_rules! b2 {
                ($f:ident) => {{
                    let x = self.as_bv(a, n.a);
                    let y = self.as_bv(a, n.b);
                    $f(c, x, y)
                }};
            }
            match n.op {
                Op::Const => self.num(a.is_c(e).unwrap(), w),
                Op::Var => self.var_ast(n.a, w),
                Op::Not => Z3_mk_bvnot(c, self.as_bv(a, n.a)),
                Op::And => b2!(Z3_mk_bvand),
                Op::Or => b2!(Z3_mk_bvor),
                Op::Xor => b2!(Z3_mk_bvxor),
                Op::Add => b2!(Z3_mk_bvadd),
                Op::Sub => b2!(Z3_mk_bvsub),
                Op::Mul => b2!(Z3_mk_bvmul),
                Op::UDiv => b2!(Z3_mk_bvudiv),
                Op::SDiv => b2!(Z3_mk_bvsdiv),
                Op::URem => b2!(Z3_mk_bvurem),
                Op::SRem => b2!(Z3_mk_bvsrem),
                Op::Shl => b2!(Z3_mk_bvshl),
                Op::LShr => b2!(Z3_mk_bvlshr),
                Op::AShr => b2!(Z3_mk_bvashr),
                Op::Concat => b2!(Z3_mk_concat),
                Op::Extract => Z3_mk_extract(c, n.c + w - 1, n.c, self.as_bv(a, n.a)),
                Op::SExt => Z3_mk_sign_ext(c, w - a.w(n.a), self.as_bv(a, n.a)),
                Op::Eq | Op::Ult | Op::Slt => Z3_mk_ite(c, self.as_bool(a, e), self.one, self.num(0, 1)),
                Op::Lin => {
                    let f = a.lin[n.a as usize].clone();
                    let mut r = self.num(f.k, w);
                    let z = self.num(0, w);
                    for (x, k) in f.t.iter() {
                        let b = self.as_bool(a, *x);
                        let t = Z3_mk_ite(c, b, self.num(*k, w), z);
                        r = Z3_mk_bvxor(c, r, t);
                    }
                    r
                }
                Op::Ite => {
                    let x = self.as_bool(a, n.a);
                    let y = self.as_bv(a, n.b);
                    let z = self.as_bv(a, n.c);
                    Z3_mk_ite(c, x, y, z)
                }
            }
        };
        self.bv[i] = r;
        r
    }

    /// Is `pc && cond` satisfiable?  Only the constraints that share variables with
    /// `cond` (transitively) are sent: the rest are satisfied by the current model.
    pub fn check(&mut self, a: &mut Arena, pc: &[E], cond: E, widths: &[u8], cur: &Model) -> Res {
        if let Some(k) = a.is_c(cond) {
            return if k == 1 { Res::Sat(vec![]) } else { Res::Unsat };
        }
        let mut set: Vec<u64> = a.vars(cond).to_vec();
        let sets: Vec<VarSet> = pc.iter().map(|e| a.vars(*e)).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if used[i] {
                    continue;
                }
                let s = &sets[i];
                if s.iter().zip(set.iter()).any(|(x, y)| x & y != 0) {
                    used[i] = true;
                    ch = true;
                    if set.len() < s.len() {
                        set.resize(s.len(), 0)
                    }
                    for (k, x) in s.iter().enumerate() {
                        set[k] |= x
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut key: Vec<E> = (0..pc.len()).filter(|i| used[*i]).map(|i| pc[i]).collect();
        key.sort_unstable();
        key.dedup();
        if key.binary_search(&cond).is_ok() {
            // cond already asserted: the current model satisfies it
            return Res::Sat(vec![]);
        }
        let nc = a.not(cond);
        if key.binary_search(&nc).is_ok() {
            return Res::Unsat;
        }
        key.push(cond);
        if let Some(r) = self.cache.get(&key) {
            self.st.cached += 1;
            return match r {
                None => Res::Unsat,
                Some(v) => Res::Sat(v.to_vec()),
            };
        }
        let t0 = Instant::now();
        if let Some(r) = self.linear(a, &key, &set, widths, cur) {
            self.st.queries += 1;
            self.st.linear += 1;
            self.st.secs += t0.elapsed().as_secs_f64();
            match &r {
                Res::Sat(v) => {
                    self.st.sat += 1;
                    self.cache.insert(key, Some(Rc::new(v.clone())));
                }
                _ => {
                    self.st.unsat += 1;
                    self.cache.insert(key, None);
                }
            }
            return r;
        }
        let asts: Vec<Ast> = key.iter().map(|e| self.as_bool(a, *e)).collect();
        let mut vars = vec![];
        for (i, x) in set.iter().enumerate() {
            let mut x = *x;
            while x != 0 {
                let b = x.trailing_zeros();
                vars.push(i as u32 * 64 + b);
                x &= x - 1;
            }
        }
        let c = self.ctx;
        let mut out = Res::Unknown;
        unsafe {
            for (k, s) in [self.simple, self.qf].into_iter().enumerate() {
                if k == 1 {
                    self.st.fallback += 1;
                }
                Z3_solver_push(c, s);
                for x in &asts {
                    Z3_solver_assert(c, s, *x)
                }
                let r = Z3_solver_check(c, s);
                if r == 1 {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut v = vec![];
                    for i in &vars {
                        let w = widths[*i as usize] as u32;
                        let mut o: Ast = null_mut();
                        let mut k = 0u64;
                        if Z3_model_eval(c, m, self.var_ast(*i, w), true, &mut o) && Z3_get_numeral_uint64(c, o, &mut k) {
                            v.push((*i, k));
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    out = Res::Sat(v);
                } else if r == -1 {
                    out = Res::Unsat;
                }
                Z3_solver_pop(c, s, 1);
                if r != 0 {
                    break;
                }
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        if dt > 2.0 && std::env::var("SYMEX_SLOW").is_ok() {
            let mut t = format!("SLOW {dt:.1} {}\n", match &out { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" });
            for e in &key {
                t += &format!("   {}\n", a.show(*e, 6));
            }
            eprintln!("{t}");
        }
        self.st.queries += 1;
        self.st.secs += dt;
        if dt > self.st.max_secs {
            self.st.max_secs = dt
        }
        match &out {
            Res::Sat(v) => {
                self.st.sat += 1;
                self.cache.insert(key, Some(Rc::new(v.clone())));
            }
            Res::Unsat => {
                self.st.unsat += 1;
                self.cache.insert(key, None);
            }
            Res::Unknown => {}
        }
        out
    }
    /// Queries dominated by parity equations (checksums): Gaussian elimination over GF(2). An
    /// inconsistent subset of equations is a proof of unsatisfiability; a solution counts only
    /// after every constraint of the query has been evaluated under it.
    fn linear(&mut self, a: &mut Arena, key: &[E], set: &[u64], widths: &[u8], cur: &Model) -> Option<Res> {
        // x == (c ? p : q) and "x is one of two values" (as a range test) are split into cases
        let mut flat: Vec<E> = vec![];
        let mut splits: Vec<Vec<Vec<E>>> = vec![];
        let mut work: Vec<E> = key.to_vec();
        let mut cases = 1usize;
        while let Some(e) = work.pop() {
            let n = a.n[e as usize];
            if n.op == Op::And {
                work.push(n.a);
                work.push(n.b);
                continue;
            }
            if n.op == Op::Eq && cases <= 16 {
                let (x, y) = if a.n[n.a as usize].op == Op::Ite { (n.b, n.a) } else { (n.a, n.b) };
                let i = a.n[y as usize];
                if i.op == Op::Ite && i.w > 1 && i.w <= 32 {
                    let nc = a.not(i.a);
                    let p = a.bin(Op::Eq, x, i.b);
                    let q = a.bin(Op::Eq, x, i.c);
                    splits.push(vec![vec![nc, q], vec![i.a, p]]);
                    cases *= 2;
                    continue;
                }
            }
            if n.op == Op::Not && cases <= 16 {
                let u = a.n[n.a as usize];
                if u.op == Op::Ult {
                    if let Some(top) = a.is_c(u.b) {
                        let y = a.n[u.a as usize];
                        let w = y.w as u32;
                        if w > 1 && w <= 64 && mask(w) - top <= 1 && y.op == Op::Add {
                            let mut v = vec![];
                            for k in top..=mask(w) {
                                let c = a.cst(k, w);
                                let (x, off) = if a.is_c(y.b).is_some() { (y.a, y.b) } else { (y.b, y.a) };
                                let c = a.bin(Op::Sub, c, off);
                                v.push(vec![a.bin(Op::Eq, x, c)]);
                            }
                            cases *= v.len();
                            splits.push(v);
                            continue;
                        }
                    }
                }
            }
            flat.push(e);
        }
        let mut all_unsat = true;
        for case in 0..cases {
            let mut cs = flat.clone();
            let mut k = case;
            for v in &splits {
                cs.extend(&v[k % v.len()]);
                k /= v.len();
            }
            match self.linear_case(a, key, cs, set, widths, cur, 2) {
                Some(Res::Unsat) => {}
                Some(Res::Sat(v)) => return Some(Res::Sat(v)),
                _ => {
                    all_unsat = false;
                    if case == 0 && splits.is_empty() {
                        return None;
                    }
                }
            }
        }
        if all_unsat { Some(Res::Unsat) } else { None }
    }
    fn linear_case(&mut self, a: &mut Arena, key: &[E], cs: Vec<E>, set: &[u64], widths: &[u8], cur: &Model, rounds: u32) -> Option<Res> {
        // conjuncts as equations over 1-bit atoms: (atoms, right-hand side)
        let mut eqs: Vec<(Vec<E>, bool)> = vec![];
        let mut work = cs;
        let mut big = 0;
        let mut others: Vec<E> = vec![];
        while let Some(e) = work.pop() {
            if let Some(k) = a.is_c(e) {
                if k == 0 {
                    return Some(Res::Unsat);
                }
                continue;
            }
            let n = a.n[e as usize];
            match n.op {
                Op::And => {
                    work.push(n.a);
                    work.push(n.b);
                }
                Op::Lin => {
                    let f = &a.lin[n.a as usize];
                    if f.t.len() >= 3 {
                        big += 1;
                    }
                    eqs.push((f.t.iter().map(|x| x.0).collect(), f.k & 1 == 0));
                }
                Op::Not => {
                    others.push(e);
                    eqs.push((vec![n.a], false))
                }
                Op::Eq if a.n[n.a as usize].w <= 32 => {
                    let (x, y) = if a.is_c(n.b).is_some() { (n.a, n.b) } else { (n.b, n.a) };
                    match a.is_c(y) {
                        Some(k) => {
                            for j in 0..a.n[x as usize].w as u32 {
                                let b = a.extract(x, j, 1);
                                eqs.push((vec![b], k >> j & 1 == 1));
                            }
                        }
                        None => {
                            others.push(e);
                            eqs.push((vec![e], true))
                        }
                    }
                }
                _ => {
                    others.push(e);
                    eqs.push((vec![e], true))
                }
            }
        }
        if big < 4 {
            return None;
        }
        let mut vars: Vec<u32> = vec![];
        for (i, x) in set.iter().enumerate() {
            for b in 0..64 {
                if x >> b & 1 == 1 {
                    vars.push(i as u32 * 64 + b);
                }
            }
        }
        let mut idx: FxMap<E, usize> = Default::default();
        let mut atoms: Vec<E> = vec![];
        // atom -> (variable, bit)
        let mut bit: Vec<Option<(u32, u32)>> = vec![];
        for (t, _) in &eqs {
            for x in t {
                if !idx.contains_key(x) {
                    idx.insert(*x, atoms.len());
                    atoms.push(*x);
                    let n = a.n[*x as usize];
                    bit.push(match n.op {
                        Op::Var => Some((n.a, 0)),
                        Op::Extract if a.n[n.a as usize].op == Op::Var => Some((a.n[n.a as usize].a, n.c)),
                        _ => None,
                    });
                }
            }
        }
        let n = atoms.len();
        let nw = n / 64 + 1;
        let mut rows: Vec<Vec<u64>> = eqs
            .iter()
            .map(|(t, b)| {
                let mut r = vec![0u64; nw + 1];
                for x in t {
                    let i = idx[x];
                    r[i / 64] ^= 1 << (i % 64);
                }
                r[nw] = *b as u64;
                r
            })
            .collect();
        let mut rank = 0;
        let mut piv: Vec<usize> = vec![];
        // solve for variables that nothing else constrains, where there is a choice
        let mut busy: Vec<u64> = vec![];
        for e in &others {
            let v = a.vars(*e);
            busy.resize(busy.len().max(v.len()), 0);
            for (x, y) in busy.iter_mut().zip(v.iter()) {
                *x |= y;
            }
        }
        for pass in 0..3 {
            for col in 0..n {
                let p = match bit[col] {
                    None => 2,
                    Some((v, _)) => (busy.get(v as usize / 64).copied().unwrap_or(0) >> (v % 64) & 1) as usize,
                };
                if p != pass {
                    continue;
                }
                let Some(p) = (rank..rows.len()).find(|r| rows[*r][col / 64] >> (col % 64) & 1 == 1) else { continue };
                rows.swap(rank, p);
                let pr = rows[rank].clone();
                for (i, r) in rows.iter_mut().enumerate() {
                    if i != rank && r[col / 64] >> (col % 64) & 1 == 1 {
                        for (x, y) in r.iter_mut().zip(&pr) {
                            *x ^= y
                        }
                    }
                }
                piv.push(col);
                rank += 1;
            }
        }
        if rows[rank..].iter().any(|r| r[nw] == 1) {
            return Some(Res::Unsat);
        }
        let mut seed = 0x9e37_79b9_7f4a_7c15u64 ^ (key.len() as u64) << 32 ^ n as u64;
        let mut rnd = || {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            seed
        };
        // few solutions: try them all
        let nbits: usize = vars.iter().map(|v| widths[*v as usize] as usize).sum();
        let np = piv.iter().filter(|c| bit[**c].is_some()).count();
        let dim = nbits - np;
        let every = dim <= 8;
        let free: Vec<(u32, u32)> = if every {
            let pset: Vec<(u32, u32)> = piv.iter().filter_map(|c| bit[*c]).collect();
            vars.iter().flat_map(|v| (0..widths[*v as usize] as u32).map(|b| (*v, b))).filter(|x| !pset.contains(x)).collect()
        } else {
            vec![]
        };
        for trial in 0..if every { 1u64 << dim } else { 24 } {
            let mut vals: Vec<u64> = (0..widths.len()).map(|i| cur.vals.get(i).copied().unwrap_or(0)).collect();
            for (k, (v, b)) in free.iter().enumerate() {
                vals[*v as usize] = vals[*v as usize] & !(1 << b) | (trial >> k & 1) << b;
            }
            for v in vars.iter().filter(|_| !every) {
                let m = mask(widths[*v as usize] as u32) as u64;
                let keep = trial == 0 || (trial < 8 && rnd() % 8 != 0) || (trial < 16 && rnd() % 2 != 0);
                if !keep {
                    vals[*v as usize] = rnd() & m;
                }
            }
            let cm = Model::new(vals.clone());
            for (k, c) in piv.iter().enumerate() {
                let Some((v, b)) = bit[*c] else { continue };
                let r = &rows[k];
                let mut x = r[nw] & 1;
                for i in 0..n {
                    if i != *c && r[i / 64] >> (i % 64) & 1 == 1 {
                        x ^= match bit[i] {
                            Some((v, b)) => vals[v as usize] >> b & 1,
                            None => a.eval(atoms[i], &cm) as u64 & 1,
                        };
                    }
                }
                vals[v as usize] = vals[v as usize] & !(1 << b) | x << b;
            }
            let m = Model::new(vals.clone());
            if key.iter().all(|e| a.eval(*e, &m) == 1) {
                return Some(Res::Sat(vars.iter().map(|v| (*v, vals[*v as usize])).collect()));
            }
        }
        // a pivot row never mentions another pivot, so with only variable bits in the rows the
        // loop above has visited every solution of the equations
        let opaque_in_rows = (0..np).any(|k| (0..n).any(|i| bit[i].is_none() && rows[k][i / 64] >> (i % 64) & 1 == 1));
        if every && !opaque_in_rows {
            return Some(Res::Unsat);
        }
        // use the equations to simplify everything else
        let mut sub: FxMap<E, LinForm> = Default::default();
        let mut cs: Vec<E> = vec![];
        for (k, c) in piv.iter().enumerate() {
            let r = &rows[k];
            let t: Vec<(E, u128)> = (0..n).filter(|i| r[i / 64] >> (i % 64) & 1 == 1 && i != c).map(|i| (atoms[i], 1)).collect();
            let mut f = LinForm { w: 1, k: r[nw] as u128, t: t.into() };
            let mut t = f.t.to_vec();
            t.sort_unstable();
            f.t = t.into();
            if bit[*c].is_some() {
                let rhs = a.mk_lin(f.clone());
                let e = a.bin(Op::Eq, atoms[*c], rhs);
                cs.push(e);
                sub.insert(atoms[*c], f);
            }
        }
        let mut memo: FxMap<E, E> = Default::default();
        let mut changed = false;
        for e in others {
            let x = a.reduce(e, &sub, &mut memo);
            if a.is_c(x) == Some(0) {
                return Some(Res::Unsat);
            }
            changed |= x != e;
            cs.push(x);
        }
        if changed && rounds > 0 {
            return self.linear_case(a, key, cs, set, widths, cur, rounds - 1);
        }
        None
    }
}
impl Drop for Smt {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.simple);
            Z3_solver_dec_ref(self.ctx, self.qf);
            Z3_del_context(self.ctx);
        }
    }
}
