//! Parser for the subset of LLVM textual IR that rustc emits with panic=abort.
use crate::ir::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
enum T {
    Word(String),
    Local(String),
    Glob(String),
    Meta(String),
    Num(u128, bool), // magnitude, negative
    Float(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Dots,
    Attr,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s.len() - i > 2 {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            if let Ok(v) = u8::from_str_radix(h, 16) {
                o.push(v);
                i += 3;
                continue;
            }
        }
        o.push(s[i]);
        i += 1;
    }
    o
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if c == b';' {
            break;
        }
        match c {
            b'%' | b'@' => {
                let st;
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1
                    }
                    name = String::from_utf8_lossy(&unescape(&b[st..j])).to_string();
                    i = j + 1;
                } else {
                    st = i + 1;
                    let mut j = st;
                    while j < b.len() && is_id(b[j]) {
                        j += 1
                    }
                    name = s[st..j].to_string();
                    i = j;
                }
                out.push(if c == b'%' { T::Local(name) } else { T::Glob(name) });
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && is_id(b[j]) {
                    j += 1
                }
                out.push(T::Meta(s[i + 1..j].to_string()));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && is_id(b[j]) {
                    j += 1
                }
                out.push(T::Attr);
                i = j;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(T::Str(unescape(&b[i + 1..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(T::CStr(unescape(&b[i + 2..j])));
                i = j + 1;
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(T::Dots);
                i += 3;
            }
            b'0'..=b'9' | b'-' => {
                let neg = c == b'-';
                let mut j = if neg { i + 1 } else { i };
                let st = j;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || ((b[j] == b'+' || b[j] == b'-') && (b[j - 1] == b'e'))) {
                    j += 1
                }
                let t = &s[st..j];
                if t.bytes().all(|c| c.is_ascii_digit()) {
                    out.push(T::Num(t.parse().unwrap(), neg));
                } else {
                    out.push(T::Float(s[i..j].to_string()));
                }
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = i;
                while j < b.len() && is_id(b[j]) {
                    j += 1
                }
                out.push(T::Word(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct Cur<'a> {
    t: &'a [T],
    i: usize,
    types: &'a HashMap<String, Ty>,
}
impl<'a> Cur<'a> {
    fn peek(&self) -> Option<&'a T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> &'a T {
        let r = &self.t[self.i];
        self.i += 1;
        r
    }
    fn isp(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {c} at {} in {:?}", self.i, self.t)
        }
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::Word(x)) if x == w)
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        self.expect('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => d -= 1,
                _ => {}
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(T::Word(w)) => {
                (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
                    || matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "metadata" | "label" | "half")
            }
            Some(T::P('[' | '{' | '<')) => true,
            Some(T::Local(n)) => self.types.contains_key(n),
            _ => false,
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            if self.at_type() {
                return;
            }
            match self.peek() {
                Some(T::Word(w)) => {
                    let w = w.clone();
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_parens();
                    } else if w == "align" {
                        self.i += 1;
                    }
                }
                Some(T::Attr) => self.i += 1,
                Some(T::Str(_)) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    /// skip param attributes after the type, before the value
    fn skip_val_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(T::Word(w)) => {
                    if matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "splat" | "sub" | "add" | "trunc" | "xor" | "bitcast" | "blockaddress" | "none" | "asm"
                    ) || self.at_type()
                    {
                        return;
                    }
                    let w = w.clone();
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_parens();
                    } else if w == "align" {
                        self.i += 1;
                    }
                }
                Some(T::Str(_)) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.next() {
            T::Word(w) => match w.as_str() {
                "ptr" => {
                    if self.isw("addrspace") {
                        self.i += 1;
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "half" => Ty::Int(16),
                "metadata" => Ty::Meta,
                "label" => Ty::Label,
                w if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w}"))),
                w => panic!("type {w} in {:?}", self.t),
            },
            T::Local(n) => self.types.get(n).cloned().unwrap_or_else(|| panic!("type %{n}")),
            T::P('[') => {
                let T::Num(n, _) = self.next() else { panic!() };
                let n = *n as u64;
                assert!(self.eatw("x"));
                let t = self.ty();
                self.expect(']');
                Ty::Arr(n, Box::new(t))
            }
            T::P('{') => {
                let mut v = Vec::new();
                if !self.eat('}') {
                    loop {
                        v.push(self.ty());
                        if self.eat('}') {
                            break;
                        }
                        self.expect(',');
                    }
                }
                Ty::Struct(v, false)
            }
            T::P('<') => {
                if self.isp('{') {
                    self.i += 1;
                    let mut v = Vec::new();
                    if !self.eat('}') {
                        loop {
                            v.push(self.ty());
                            if self.eat('}') {
                                break;
                            }
                            self.expect(',');
                        }
                    }
                    self.expect('>');
                    Ty::Struct(v, true)
                } else {
                    let T::Num(n, _) = self.next() else { panic!() };
                    let n = *n as u64;
                    assert!(self.eatw("x"));
                    let t = self.ty();
                    self.expect('>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            x => panic!("type expected, got {x:?} in {:?}", self.t),
        };
        t
    }
}

/// A constant value as leaves.
#[derive(Clone, Debug)]
enum CLeaf {
    I(u128),
    G(String, u64),
}

fn mask128(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

fn parse_const(c: &mut Cur, ty: &Ty, out: &mut Vec<CLeaf>) {
    let zero = |out: &mut Vec<CLeaf>| {
        for _ in 0..ty.nleaves() {
            out.push(CLeaf::I(0))
        }
    };
    match c.next() {
        T::Num(v, neg) => {
            let w = ty.width();
            let v = if *neg { v.wrapping_neg() } else { *v };
            out.push(CLeaf::I(v & mask128(w)))
        }
        T::Float(s) => {
            let v = if let Some(h) = s.strip_prefix("0x") {
                let b = u64::from_str_radix(h, 16).unwrap_or(0);
                if *ty == Ty::F32 { (f64::from_bits(b) as f32).to_bits() as u128 } else { b as u128 }
            } else {
                let f: f64 = s.parse().unwrap_or(0.0);
                if *ty == Ty::F32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }
            };
            out.push(CLeaf::I(v))
        }
        T::Glob(n) => out.push(CLeaf::G(n.clone(), 0)),
        T::CStr(s) => {
            for b in s {
                out.push(CLeaf::I(*b as u128))
            }
        }
        T::P(o @ ('[' | '{' | '<')) => {
            let mut close = match o {
                '[' => ']',
                '{' => '}',
                _ => '>',
            };
            let mut packed = false;
            if *o == '<' && c.isp('{') {
                c.i += 1;
                close = '}';
                packed = true;
            }
            if !c.eat(close) {
                loop {
                    let t = c.ty();
                    parse_const(c, &t, out);
                    if c.eat(close) {
                        break;
                    }
                    c.expect(',');
                }
            }
            if packed {
                c.expect('>');
            }
        }
        T::Word(w) => match w.as_str() {
            "true" => out.push(CLeaf::I(1)),
            "false" => out.push(CLeaf::I(0)),
            "null" | "zeroinitializer" | "none" => zero(out),
            "undef" | "poison" => {
                for (_, w) in ty.leaves() {
                    out.push(CLeaf::I(0xAAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAAu128 & mask128(w) & if w == 1 { 0 } else { u128::MAX }))
                }
            }
            "splat" => {
                c.expect('(');
                let t = c.ty();
                let mut v = Vec::new();
                parse_const(c, &t, &mut v);
                c.expect(')');
                for _ in 0..ty.nleaves() {
                    out.push(v[0].clone())
                }
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                c.expect('(');
                let t = c.ty();
                let mut v = Vec::new();
                parse_const(c, &t, &mut v);
                assert!(c.eatw("to"));
                let _ = c.ty();
                c.expect(')');
                out.extend(v);
            }
            "sub" | "add" | "xor" => {
                while matches!(c.peek(), Some(T::Word(_))) {
                    c.i += 1
                }
                c.expect('(');
                let mut vals = Vec::new();
                loop {
                    let t = c.ty();
                    parse_const(c, &t, &mut vals);
                    if c.eat(')') {
                        break;
                    }
                    c.expect(',');
                }
                match (&vals[0], &vals[1]) {
                    (CLeaf::I(a), CLeaf::I(b)) => {
                        let r = match w.as_str() {
                            "sub" => a.wrapping_sub(*b),
                            "add" => a.wrapping_add(*b),
                            _ => a ^ b,
                        };
                        out.push(CLeaf::I(r & mask128(ty.width())))
                    }
                    _ => panic!("constexpr {w}"),
                }
            }
            "getelementptr" => {
                while matches!(c.peek(), Some(T::Word(_))) {
                    let w = c.next();
                    if *w == T::Word("inrange".into()) {
                        c.skip_parens();
                    }
                }
                c.expect('(');
                let mut t = c.ty();
                c.expect(',');
                let pt = c.ty();
                let mut v = Vec::new();
                parse_const(c, &pt, &mut v);
                let mut off = 0u64;
                let mut first = true;
                while c.eat(',') {
                    c.eatw("inrange");
                    let it = c.ty();
                    let mut iv = Vec::new();
                    parse_const(c, &it, &mut iv);
                    let CLeaf::I(k) = iv[0] else { panic!() };
                    let k = sext64(k, it.width());
                    if first {
                        off = off.wrapping_add(t.size().wrapping_mul(k as u64));
                        first = false;
                    } else {
                        let (o, nt) = if matches!(t, Ty::Struct(..)) {
                            let (o, nt) = t.field_off(k as usize);
                            (o, nt.clone())
                        } else {
                            let (_, nt) = t.field_off(0);
                            (nt.size().wrapping_mul(k as u64), nt.clone())
                        };
                        off = off.wrapping_add(o);
                        t = nt;
                    }
                }
                c.expect(')');
                match &v[0] {
                    CLeaf::G(n, o) => out.push(CLeaf::G(n.clone(), o.wrapping_add(off))),
                    CLeaf::I(x) => out.push(CLeaf::I((*x as u64).wrapping_add(off) as u128)),
                }
            }
            w => panic!("constant {w} in {:?}", c.t),
        },
        x => panic!("constant {x:?} in {:?}", c.t),
    }
}

fn sext64(v: u128, w: u32) -> i64 {
    let v = v as u64;
    if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) }
}

fn logical_lines(text: &str) -> Vec<String> {
    // join multi-line switch bodies
    let mut out = Vec::new();
    let mut acc: Option<String> = None;
    for l in text.lines() {
        if let Some(a) = &mut acc {
            a.push(' ');
            a.push_str(l);
            if l.trim_start().starts_with(']') {
                out.push(acc.take().unwrap());
            }
            continue;
        }
        if l.starts_with("  switch ") && !l.contains(']') {
            acc = Some(l.to_string());
            continue;
        }
        out.push(l.to_string());
    }
    out
}

pub fn parse(text: &str) -> Module {
    let lines = logical_lines(text);
    let mut m = Module::default();
    let mut types: HashMap<String, Ty> = HashMap::new();
    // pass 1: named types, globals & functions names
    for l in &lines {
        if l.starts_with('%') && l.contains(" = type ") {
            let toks = lex(l);
            let T::Local(n) = &toks[0] else { panic!() };
            let mut c = Cur { t: &toks, i: 3, types: &types };
            let t = c.ty();
            types.insert(n.clone(), t);
        }
    }
    let mut globs: Vec<(usize, u32)> = Vec::new();
    for (li, l) in lines.iter().enumerate() {
        if l.starts_with('@') {
            let end = if l.starts_with("@\"") { l[2..].find('"').unwrap() + 3 } else { l.find(' ').unwrap() };
            let name = if l.starts_with("@\"") { l[2..end - 1].to_string() } else { l[1..end].to_string() };
            let rest = &l[end..];
            if rest.contains(" alias ") && !rest.contains(" constant ") && !rest.contains(" global ") {
                continue;
            }
            let id = m.globals.len() as u32;
            m.gidx.insert(name.clone(), id);
            m.globals.push(Global { name, ..Default::default() });
            globs.push((li, id));
        } else if l.starts_with("define ") || l.starts_with("declare ") {
            let at = l.find('@').unwrap();
            let name = if l.as_bytes()[at + 1] == b'"' {
                let e = l[at + 2..].find('"').unwrap();
                l[at + 2..at + 2 + e].to_string()
            } else {
                let e = l[at..].find('(').unwrap();
                l[at + 1..at + e].to_string()
            };
            let id = m.funcs.len() as u32;
            m.fidx.insert(name.clone(), id);
            m.funcs.push(Func { name, defined: l.starts_with("define "), ..Default::default() });
        }
    }
    // aliases to functions
    for l in &lines {
        if l.starts_with('@') && l.contains(" alias ") && !l.contains(" constant ") {
            let toks = lex(l);
            let T::Glob(n) = &toks[0] else { continue };
            if let Some(T::Glob(t)) = toks.iter().rev().find(|t| matches!(t, T::Glob(_))) {
                if let Some(&f) = m.fidx.get(t) {
                    m.fidx.insert(n.clone(), f);
                }
            }
        }
    }
    // globals
    for (li, id) in globs {
        let toks = lex(&lines[li]);
        let mut i = 2;
        let mut constant = false;
        let mut external = false;
        loop {
            match &toks[i] {
                T::Word(w) if w == "constant" => {
                    constant = true;
                    i += 1;
                    break;
                }
                T::Word(w) if w == "global" => {
                    i += 1;
                    break;
                }
                T::Word(w) if w == "external" => {
                    external = true;
                    i += 1;
                }
                T::Word(w) if w == "thread_local" => i += 1,
                _ => i += 1,
            }
        }
        let mut c = Cur { t: &toks, i, types: &types };
        let ty = c.ty();
        let mut data = vec![0u8; ty.size() as usize];
        let mut relocs = Vec::new();
        if !external {
            let mut vals = Vec::new();
            parse_const(&mut c, &ty, &mut vals);
            let lv = ty.leaves();
            assert_eq!(lv.len(), vals.len(), "global {}", m.globals[id as usize].name);
            for ((off, w), v) in lv.iter().zip(vals) {
                match v {
                    CLeaf::I(x) => {
                        let n = w.div_ceil(8) as usize;
                        data[*off as usize..*off as usize + n].copy_from_slice(&x.to_le_bytes()[..n]);
                    }
                    CLeaf::G(n, o) => {
                        if let Some(f) = m.fidx.get(&n) {
                            relocs.push((*off, Reloc::Func(*f)));
                        } else {
                            relocs.push((*off, Reloc::Global(m.gidx[&n], o)));
                        }
                    }
                }
            }
        }
        let g = &mut m.globals[id as usize];
        g.data = data;
        g.relocs = relocs;
        g.constant = constant;
    }
    // metadata
    for l in &lines {
        if l.starts_with('!') {
            parse_meta(l, &mut m.debug);
        }
    }
    // functions
    let mut i = 0;
    while i < lines.len() {
        if lines[i].starts_with("define ") {
            let st = i;
            while lines[i] != "}" {
                i += 1;
            }
            let at = lines[st].find('@').unwrap();
            let name = if lines[st].as_bytes()[at + 1] == b'"' {
                let e = lines[st][at + 2..].find('"').unwrap();
                lines[st][at + 2..at + 2 + e].to_string()
            } else {
                let e = lines[st][at..].find('(').unwrap();
                lines[st][at + 1..at + e].to_string()
            };
            let id = m.fidx[&name];
            let f = parse_func(&lines[st..i], &mut m, &types, &name);
            m.funcs[id as usize] = f;
        }
        i += 1;
    }
    m
}

fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let mut st = 0;
    loop {
        let p = l[st..].find(k)? + st;
        let prev = l.as_bytes()[p - 1];
        if prev == b'(' || prev == b' ' {
            let r = &l[p + k.len()..];
            return Some(r);
        }
        st = p + 1;
    }
}
fn num(s: Option<&str>) -> u32 {
    let Some(s) = s else { return 0 };
    let s = s.trim_start_matches('!');
    let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    s[..e].parse().unwrap_or(0)
}
fn strv(s: Option<&str>) -> Option<String> {
    let s = s?;
    let s = s.strip_prefix('"')?;
    Some(s[..s.find('"')?].to_string())
}

fn parse_meta(l: &str, d: &mut Debug) {
    let Some(eq) = l.find(" = ") else { return };
    let Ok(id) = l[1..eq].parse::<u32>() else { return };
    let r = l[eq + 3..].trim_start_matches("distinct ");
    if r.starts_with("!DILocation(") {
        d.locs.insert(id, DbgLoc { line: num(field(r, "line: ")), scope: num(field(r, "scope: ")), inlined: num(field(r, "inlinedAt: ")) });
    } else if r.starts_with("!DISubprogram(") {
        d.scopes.insert(id, (num(field(r, "scope: ")), num(field(r, "file: ")), Some(strv(field(r, "name: ")).unwrap_or_default())));
    } else if r.starts_with("!DILexicalBlock") {
        d.scopes.insert(id, (num(field(r, "scope: ")), num(field(r, "file: ")), None));
    } else if r.starts_with("!DIFile(") {
        let f = strv(field(r, "filename: ")).unwrap_or_default();
        let dir = strv(field(r, "directory: ")).unwrap_or_default();
        d.files.insert(id, if f.starts_with('/') { f } else { format!("{dir}/{f}") });
    }
}

struct Fb<'a> {
    m: &'a mut Module,
    slots: HashMap<String, u32>,
    nregs: u32,
    code: Vec<Instr>,
    dbg: Vec<u32>,
    block_of: Vec<u32>,
}

impl<'a> Fb<'a> {
    fn slot(&mut self, n: &str, leaves: usize) -> u32 {
        if let Some(s) = self.slots.get(n) {
            return *s;
        }
        let s = self.nregs;
        self.nregs += leaves as u32;
        self.slots.insert(n.to_string(), s);
        s
    }
    fn tmp(&mut self) -> u32 {
        self.nregs += 1;
        self.nregs - 1
    }
    fn cval(&mut self, l: &CLeaf, w: u32) -> Opd {
        match l {
            CLeaf::I(x) => {
                if w > 64 {
                    self.m.wide.push((*x, w));
                    Opd::W(self.m.wide.len() as u32 - 1)
                } else {
                    Opd::C(*x as u64)
                }
            }
            CLeaf::G(n, o) => {
                if let Some(f) = self.m.fidx.get(n) {
                    Opd::C((FUNC_BASE + *f as u64) << 32)
                } else if let Some(g) = self.m.gidx.get(n) {
                    Opd::C(((GLOBAL_BASE + *g as u64) << 32).wrapping_add(*o))
                } else {
                    panic!("unknown global @{n}")
                }
            }
        }
    }
    fn val(&mut self, c: &mut Cur, ty: &Ty) -> Vec<Opd> {
        if *ty == Ty::Meta {
            // metadata operand: skip
            match c.next() {
                T::Meta(_) => {
                    if c.isp('(') {
                        c.skip_parens();
                    } else if c.isp('{') {
                        let mut d = 0;
                        loop {
                            match c.next() {
                                T::P('{') => d += 1,
                                T::P('}') => {
                                    d -= 1;
                                    if d == 0 {
                                        break;
                                    }
                                }
                                _ => {}
                            }
                        }
                    }
                }
                _ => {
                    // e.g. metadata ptr %x
                    while c.peek().is_some() && !c.isp(',') && !c.isp(')') {
                        c.i += 1
                    }
                }
            }
            return vec![];
        }
        if let Some(T::Local(n)) = c.peek() {
            c.i += 1;
            let nl = ty.nleaves();
            let s = self.slot(n, nl);
            return (0..nl as u32).map(|k| Opd::R(s + k)).collect();
        }
        let mut v = Vec::new();
        parse_const(c, ty, &mut v);
        let lv = ty.leaves();
        assert_eq!(lv.len(), v.len());
        lv.iter().zip(v.iter()).map(|((_, w), l)| self.cval(l, *w)).collect()
    }
    fn tval(&mut self, c: &mut Cur) -> (Ty, Vec<Opd>) {
        c.skip_attrs();
        let t = c.ty();
        c.skip_val_attrs();
        let v = self.val(c, &t);
        (t, v)
    }
}

fn agg_index(ty: &Ty, idx: &[u64]) -> (usize, Ty) {
    let mut base = 0;
    let mut t = ty.clone();
    for &k in idx {
        let nt = match &t {
            Ty::Struct(fs, _) => {
                for f in &fs[..k as usize] {
                    base += f.nleaves()
                }
                fs[k as usize].clone()
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                base += k as usize * e.nleaves();
                (**e).clone()
            }
            _ => panic!(),
        };
        t = nt;
    }
    (base, t)
}

enum Term {
    None,
    Br(String),
    Cond(Opd, String, String),
    Switch(Opd, u32, Vec<(u64, String)>, String),
}

fn parse_func(lines: &[String], m: &mut Module, types: &HashMap<String, Ty>, name: &str) -> Func {
    let mut fb = Fb { m, slots: HashMap::new(), nregs: 0, code: vec![], dbg: vec![], block_of: vec![] };
    // header
    let toks = lex(&lines[0]);
    let gi = toks.iter().position(|t| matches!(t, T::Glob(n) if n == name)).unwrap();
    let mut c = Cur { t: &toks, i: gi + 1, types };
    c.expect('(');
    let mut params = Vec::new();
    let mut argn = 0;
    if !c.eat(')') {
        loop {
            if matches!(c.peek(), Some(T::Dots)) {
                c.i += 1;
            } else {
                let ty = c.ty();
                c.skip_val_attrs();
                let nm = match c.peek() {
                    Some(T::Local(n)) => {
                        c.i += 1;
                        if n.parse::<u32>().is_ok() {
                            argn += 1;
                        }
                        n.clone()
                    }
                    _ => {
                        argn += 1;
                        format!("{}", argn - 1)
                    }
                };
                let nl = ty.nleaves();
                let s = fb.slot(&nm, nl);
                for k in 0..nl as u32 {
                    params.push(s + k)
                }
            }
            if c.eat(')') {
                break;
            }
            c.expect(',');
        }
    }
    // blocks
    let mut block_names: Vec<String> = Vec::new();
    let mut block_start: Vec<u32> = Vec::new();
    let mut phis: Vec<Vec<(u32, Vec<(Vec<Opd>, String)>)>> = Vec::new();
    let mut terms: Vec<(usize, Term)> = Vec::new();
    for l in &lines[1..] {
        if l.is_empty() || l.starts_with(';') {
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let e = if l.starts_with('"') { l[1..].find('"').unwrap() + 2 } else { l.find(':').unwrap() };
            let n = l[..e].trim_matches('"').to_string();
            block_names.push(n);
            block_start.push(fb.code.len() as u32);
            phis.push(vec![]);
            continue;
        }
        let t = l.trim_start();
        if t.starts_with(';') || t.starts_with("#dbg_") {
            continue;
        }
        if block_names.is_empty() {
            block_names.push(argn.to_string());
            block_start.push(0);
            phis.push(vec![]);
        }
        let bi = block_names.len() as u32 - 1;
        // dbg
        let dbg = match l.find(", !dbg !") {
            Some(p) => num(Some(&l[p + 7..])),
            None => 0,
        };
        let toks = lex(l);
        let term = parse_instr(&toks, &mut fb, types, l, &mut phis[bi as usize]);
        while fb.dbg.len() < fb.code.len() {
            fb.dbg.push(dbg);
            fb.block_of.push(bi);
        }
        if !matches!(term, Term::None) {
            terms.push((fb.code.len() - 1, term));
        }
    }
    let bidx: HashMap<&str, u32> = block_names.iter().enumerate().map(|(i, n)| (n.as_str(), i as u32)).collect();
    let mut edges: Vec<Edge> = Vec::new();
    let block_of = fb.block_of.clone();
    for (ci, t) in terms {
        let from = block_names[block_of[ci] as usize].clone();
        let mut mk = |to: &str| -> u32 {
            let b = bidx[to];
            let mut moves = Vec::new();
            for (d, inc) in &phis[b as usize] {
                let (v, _) = inc.iter().find(|(_, n)| *n == from).unwrap_or_else(|| panic!("phi {from}->{to} in {name}"));
                for (k, o) in v.iter().enumerate() {
                    moves.push((d + k as u32, *o));
                }
            }
            edges.push(Edge { target: block_start[b as usize], block: b, moves: moves.into() });
            edges.len() as u32 - 1
        };
        fb.code[ci] = match t {
            Term::Br(n) => Instr::Br { e: mk(&n) },
            Term::Cond(c, a, b) => {
                let t = mk(&a);
                let f = mk(&b);
                Instr::CondBr { c, t, f }
            }
            Term::Switch(v, w, cs, d) => {
                let cases = cs.iter().map(|(k, n)| (*k, mk(n))).collect();
                let def = mk(&d);
                Instr::Switch { v, w, cases, def }
            }
            Term::None => unreachable!(),
        };
    }
    Func { name: name.to_string(), nregs: fb.nregs, params, code: fb.code, dbg: fb.dbg, block_of: fb.block_of, nblocks: block_names.len() as u32, edges, defined: true }
}

fn binop(w: &str) -> Option<BinOp> {
    Some(match w {
        "add" => BinOp::Add,
        "sub" => BinOp::Sub,
        "mul" => BinOp::Mul,
        "udiv" => BinOp::UDiv,
        "sdiv" => BinOp::SDiv,
        "urem" => BinOp::URem,
        "srem" => BinOp::SRem,
        "shl" => BinOp::Shl,
        "lshr" => BinOp::LShr,
        "ashr" => BinOp::AShr,
        "and" => BinOp::And,
        "or" => BinOp::Or,
        "xor" => BinOp::Xor,
        _ => return None,
    })
}

fn intrinsic(n: &str) -> Option<Intr> {
    use Intr::*;
    let s = match n {
        "memcpy" => return Some(Memcpy),
        "memmove" => return Some(Memmove),
        "memset" => return Some(Memset),
        "memcmp" => return Some(Memcmp),
        "bcmp" => return Some(Bcmp),
        "sym_u8" => return Some(SymU8),
        "sym_u16" => return Some(SymU16),
        "sym_u32" => return Some(SymU32),
        "sym_u64" => return Some(SymU64),
        "sym_concretize" => return Some(SymConc),
        "sym_assume" => return Some(SymAssume),
        "sym_fail" => return Some(SymFail),
        "sym_cover" => return Some(SymCover),
        "sym_observe" => return Some(SymObserve),
        "sym_panic" => return Some(SymPanic),
        "sym_select8" => return Some(SymSelect8),
        "sym_alloc" => return Some(SymAlloc),
        "sym_dealloc" => return Some(SymDealloc),
        _ => n.strip_prefix("llvm.")?,
    };
    let h = |p: &str| s == p || s.starts_with(&format!("{p}."));
    Some(if h("memcpy") || h("memcpy.inline") {
        Memcpy
    } else if h("memmove") {
        Memmove
    } else if h("memset") {
        Memset
    } else if h("ctpop") {
        Ctpop
    } else if h("cttz") {
        Cttz
    } else if h("ctlz") {
        Ctlz
    } else if h("umin") {
        UMin
    } else if h("umax") {
        UMax
    } else if h("smin") {
        SMin
    } else if h("smax") {
        SMax
    } else if h("uadd.sat") {
        UAddSat
    } else if h("usub.sat") {
        USubSat
    } else if h("sadd.sat") {
        SAddSat
    } else if h("ssub.sat") {
        SSubSat
    } else if h("uadd.with.overflow") {
        UAddO
    } else if h("usub.with.overflow") {
        USubO
    } else if h("umul.with.overflow") {
        UMulO
    } else if h("sadd.with.overflow") {
        SAddO
    } else if h("ssub.with.overflow") {
        SSubO
    } else if h("smul.with.overflow") {
        SMulO
    } else if h("fshl") {
        Fshl
    } else if h("fshr") {
        Fshr
    } else if h("bswap") {
        Bswap
    } else if h("bitreverse") {
        Bitreverse
    } else if h("abs") {
        Abs
    } else if h("assume") {
        Assume
    } else if h("expect") {
        Expect
    } else if h("ucmp") {
        UCmp
    } else if h("scmp") {
        SCmp
    } else if h("trap") || h("ubsantrap") {
        Trap
    } else if h("lifetime.start") || h("lifetime.end") || h("experimental.noalias.scope.decl") || h("dbg.value") || h("dbg.declare") || h("donothing") || h("sideeffect") || h("prefetch") {
        Nop
    } else {
        return None;
    })
}

fn parse_instr(toks: &[T], fb: &mut Fb, types: &HashMap<String, Ty>, line: &str, phis: &mut Vec<(u32, Vec<(Vec<Opd>, String)>)>) -> Term {
    let mut c = Cur { t: toks, i: 0, types };
    let mut dst: Option<String> = None;
    if let (Some(T::Local(n)), Some(T::P('='))) = (toks.first(), toks.get(1)) {
        dst = Some(n.clone());
        c.i = 2;
    }
    let T::Word(op) = c.next() else { panic!("instr {line}") };
    let mut op = op.as_str();
    while matches!(op, "tail" | "musttail" | "notail") {
        let T::Word(o) = c.next() else { panic!() };
        op = o;
    }
    let d = dst.as_deref();
    macro_rules! unsup {
        () => {{
            fb.code.push(Instr::Unsupported(line.trim().into()));
            return Term::None;
        }};
    }
    if let Some(b) = binop(op) {
        while matches!(c.peek(), Some(T::Word(w)) if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint")) {
            c.i += 1;
        }
        let ty = c.ty();
        let a = fb.val(&mut c, &ty);
        c.expect(',');
        let e = fb.val(&mut c, &ty);
        let s = fb.slot(d.unwrap(), ty.nleaves());
        for (k, (_, w)) in ty.leaves().iter().enumerate() {
            fb.code.push(Instr::Bin { op: b, w: *w, d: s + k as u32, a: a[k], b: e[k] });
        }
        return Term::None;
    }
    match op {
        "icmp" => {
            c.eatw("samesign");
            let T::Word(p) = c.next() else { panic!() };
            let p = match p.as_str() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                _ => panic!(),
            };
            let ty = c.ty();
            let a = fb.val(&mut c, &ty);
            c.expect(',');
            let e = fb.val(&mut c, &ty);
            let s = fb.slot(d.unwrap(), ty.nleaves());
            for (k, (_, w)) in ty.leaves().iter().enumerate() {
                fb.code.push(Instr::Icmp { p, w: *w, d: s + k as u32, a: a[k], b: e[k] });
            }
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
            while matches!(c.peek(), Some(T::Word(w)) if matches!(w.as_str(), "nuw" | "nsw" | "nneg")) {
                c.i += 1;
            }
            let ty = c.ty();
            let a = fb.val(&mut c, &ty);
            assert!(c.eatw("to"));
            let tt = c.ty();
            let s = fb.slot(d.unwrap(), tt.nleaves());
            let la = ty.leaves();
            let lt = tt.leaves();
            if la.len() == lt.len() {
                for k in 0..la.len() {
                    let (wf, wt) = (la[k].1, lt[k].1);
                    let kk = match op {
                        "sext" => CastK::SExt,
                        _ if wf > wt => CastK::Trunc,
                        _ if wf < wt => CastK::ZExt,
                        _ => CastK::Same,
                    };
                    fb.code.push(Instr::Cast { k: kk, wf, wt, d: s + k as u32, a: a[k] });
                }
            } else {
                let total: u32 = la.iter().map(|x| x.1).sum();
                if total > 128 || op != "bitcast" {
                    unsup!()
                }
                let t = fb.tmp();
                fb.code.push(Instr::Concat { d: t, parts: a.iter().zip(&la).map(|(o, l)| (*o, l.1)).collect() });
                let mut lo = 0;
                for (k, l) in lt.iter().enumerate() {
                    fb.code.push(Instr::Extract { d: s + k as u32, a: Opd::R(t), wa: total, lo, w: l.1 });
                    lo += l.1;
                }
            }
        }
        "freeze" => {
            let ty = c.ty();
            let a = fb.val(&mut c, &ty);
            let s = fb.slot(d.unwrap(), ty.nleaves());
            for (k, (_, w)) in ty.leaves().iter().enumerate() {
                fb.code.push(Instr::Cast { k: CastK::Same, wf: *w, wt: *w, d: s + k as u32, a: a[k] });
            }
        }
        "select" => {
            while matches!(c.peek(), Some(T::Word(w)) if matches!(w.as_str(), "fast" | "nnan" | "ninf" | "nsz")) {
                c.i += 1;
            }
            let ct = c.ty();
            let cv = fb.val(&mut c, &ct);
            c.expect(',');
            let ty = c.ty();
            let a = fb.val(&mut c, &ty);
            c.expect(',');
            let _ = c.ty();
            let e = fb.val(&mut c, &ty);
            let s = fb.slot(d.unwrap(), ty.nleaves());
            for (k, (_, w)) in ty.leaves().iter().enumerate() {
                let cc = if cv.len() > 1 { cv[k] } else { cv[0] };
                fb.code.push(Instr::Select { d: s + k as u32, c: cc, a: a[k], b: e[k], w: *w });
            }
        }
        "phi" => {
            let ty = c.ty();
            let mut inc = Vec::new();
            loop {
                c.expect('[');
                let v = fb.val(&mut c, &ty);
                c.expect(',');
                let T::Local(n) = c.next() else { panic!() };
                c.expect(']');
                inc.push((v, n.clone()));
                if !(c.isp(',') && matches!(c.t.get(c.i + 1), Some(T::P('[')))) {
                    break;
                }
                c.i += 1;
            }
            let s = fb.slot(d.unwrap(), ty.nleaves());
            phis.push((s, inc));
        }
        "getelementptr" => {
            while matches!(c.peek(), Some(T::Word(_))) && !c.at_type() {
                let w = c.next();
                if *w == T::Word("inrange".into()) {
                    c.skip_parens();
                }
            }
            let mut t = c.ty();
            c.expect(',');
            let pt = c.ty();
            let base = fb.val(&mut c, &pt);
            if base.len() != 1 {
                unsup!()
            }
            let mut off = 0u64;
            let mut terms = Vec::new();
            let mut first = true;
            while c.isp(',') && !matches!(c.t.get(c.i + 1), Some(T::Meta(_))) {
                c.i += 1;
                let it = c.ty();
                let iv = fb.val(&mut c, &it);
                let scale;
                if first {
                    scale = t.size();
                    first = false;
                } else if matches!(t, Ty::Struct(..)) {
                    let Opd::C(k) = iv[0] else { panic!() };
                    let (o, nt) = t.field_off(k as usize);
                    off = off.wrapping_add(o);
                    let nt = nt.clone();
                    t = nt;
                    continue;
                } else {
                    let nt = t.field_off(0).1.clone();
                    scale = nt.size();
                    t = nt;
                }
                match iv[0] {
                    Opd::C(k) => off = off.wrapping_add(scale.wrapping_mul(sext64(k as u128, it.width()) as u64)),
                    o => terms.push((o, scale, it.width())),
                }
            }
            let s = fb.slot(d.unwrap(), 1);
            fb.code.push(Instr::Gep { d: s, base: base[0], off, terms: terms.into() });
        }
        "load" => {
            c.eatw("atomic");
            c.eatw("volatile");
            let ty = c.ty();
            c.expect(',');
            let pt = c.ty();
            let p = fb.val(&mut c, &pt);
            let s = fb.slot(d.unwrap(), ty.nleaves());
            if matches!(&ty, Ty::Vec(_, t) if t.width() % 8 != 0) {
                unsup!()
            }
            // the pointer register could be overwritten only if same slot: impossible in SSA
            for (k, (o, w)) in ty.leaves().iter().enumerate() {
                fb.code.push(Instr::Load { d: s + k as u32, p: p[0], off: *o, w: *w });
            }
        }
        "store" => {
            c.eatw("atomic");
            c.eatw("volatile");
            let ty = c.ty();
            let v = fb.val(&mut c, &ty);
            c.expect(',');
            let pt = c.ty();
            let p = fb.val(&mut c, &pt);
            if matches!(&ty, Ty::Vec(_, t) if t.width() % 8 != 0) {
                unsup!()
            }
            for (k, (o, w)) in ty.leaves().iter().enumerate() {
                fb.code.push(Instr::Store { v: v[k], p: p[0], off: *o, w: *w });
            }
        }
        "alloca" => {
            let ty = c.ty();
            let mut n = 1;
            if c.isp(',') && matches!(c.t.get(c.i + 1), Some(T::Word(w)) if w.starts_with('i')) {
                c.i += 1;
                let it = c.ty();
                let v = fb.val(&mut c, &it);
                match v[0] {
                    Opd::C(k) => n = k,
                    _ => unsup!(),
                }
            }
            let s = fb.slot(d.unwrap(), 1);
            fb.code.push(Instr::Alloca { d: s, size: ty.size() * n });
        }
        "extractvalue" => {
            let ty = c.ty();
            let a = fb.val(&mut c, &ty);
            let mut idx = vec![];
            while c.isp(',') && matches!(c.t.get(c.i + 1), Some(T::Num(..))) {
                c.i += 1;
                let T::Num(k, _) = c.next() else { panic!() };
                idx.push(*k as u64);
            }
            let (b, t) = agg_index(&ty, &idx);
            let s = fb.slot(d.unwrap(), t.nleaves());
            for (k, (_, w)) in t.leaves().iter().enumerate() {
                fb.code.push(Instr::Cast { k: CastK::Same, wf: *w, wt: *w, d: s + k as u32, a: a[b + k] });
            }
        }
        "insertvalue" => {
            let ty = c.ty();
            let mut a = fb.val(&mut c, &ty);
            c.expect(',');
            let vt = c.ty();
            let v = fb.val(&mut c, &vt);
            let mut idx = vec![];
            while c.isp(',') && matches!(c.t.get(c.i + 1), Some(T::Num(..))) {
                c.i += 1;
                let T::Num(k, _) = c.next() else { panic!() };
                idx.push(*k as u64);
            }
            let (b, _) = agg_index(&ty, &idx);
            a[b..b + v.len()].copy_from_slice(&v);
            let s = fb.slot(d.unwrap(), ty.nleaves());
            for (k, (_, w)) in ty.leaves().iter().enumerate() {
                fb.code.push(Instr::Cast { k: CastK::Same, wf: *w, wt: *w, d: s + k as u32, a: a[k] });
            }
        }
        "extractelement" => {
            let ty = c.ty();
            let a = fb.val(&mut c, &ty);
            c.expect(',');
            let it = c.ty();
            let iv = fb.val(&mut c, &it);
            let Opd::C(k) = iv[0] else { unsup!() };
            let (_, et) = agg_index(&ty, &[0]);
            let s = fb.slot(d.unwrap(), 1);
            let w = et.width();
            fb.code.push(Instr::Cast { k: CastK::Same, wf: w, wt: w, d: s, a: a[k as usize] });
        }
        "insertelement" => {
            let ty = c.ty();
            let mut a = fb.val(&mut c, &ty);
            c.expect(',');
            let vt = c.ty();
            let v = fb.val(&mut c, &vt);
            c.expect(',');
            let it = c.ty();
            let iv = fb.val(&mut c, &it);
            let Opd::C(k) = iv[0] else { unsup!() };
            a[k as usize] = v[0];
            let s = fb.slot(d.unwrap(), ty.nleaves());
            for (k, (_, w)) in ty.leaves().iter().enumerate() {
                fb.code.push(Instr::Cast { k: CastK::Same, wf: *w, wt: *w, d: s + k as u32, a: a[k] });
            }
        }
        "shufflevector" => {
            let ty = c.ty();
            let mut a = fb.val(&mut c, &ty);
            c.expect(',');
            let t2 = c.ty();
            let b = fb.val(&mut c, &t2);
            c.expect(',');
            let mt = c.ty();
            let mv = fb.val(&mut c, &mt);
            a.extend(b);
            let (_, et) = agg_index(&ty, &[0]);
            let w = et.width();
            let s = fb.slot(d.unwrap(), mv.len());
            for (k, o) in mv.iter().enumerate() {
                let Opd::C(i) = o else { unsup!() };
                let src = a.get(*i as usize).copied().unwrap_or(Opd::C(0));
                fb.code.push(Instr::Cast { k: CastK::Same, wf: w, wt: w, d: s + k as u32, a: src });
            }
        }
        "atomicrmw" => {
            c.eatw("volatile");
            let T::Word(o) = c.next() else { panic!() };
            let o = match o.as_str() {
                "xchg" => 0,
                "add" => 1,
                "sub" => 2,
                "and" => 3,
                "or" => 4,
                "xor" => 5,
                _ => unsup!(),
            };
            let pt = c.ty();
            let p = fb.val(&mut c, &pt);
            c.expect(',');
            let ty = c.ty();
            let v = fb.val(&mut c, &ty);
            let s = fb.slot(d.unwrap(), 1);
            fb.code.push(Instr::AtomicRmw { op: o, d: s, p: p[0], v: v[0], w: ty.width() });
        }
        "cmpxchg" => {
            c.eatw("weak");
            c.eatw("volatile");
            let pt = c.ty();
            let p = fb.val(&mut c, &pt);
            c.expect(',');
            let ty = c.ty();
            let e = fb.val(&mut c, &ty);
            c.expect(',');
            let _ = c.ty();
            let n = fb.val(&mut c, &ty);
            let s = fb.slot(d.unwrap(), 2);
            fb.code.push(Instr::CmpXchg { d: s, p: p[0], c: e[0], n: n[0], w: ty.width() });
        }
        "fence" => {}
        "call" => {
            c.skip_attrs();
            let rt = c.ty();
            // optional function type for varargs
            if c.isp('(') {
                c.skip_parens();
            }
            let nl = rt.nleaves();
            enum Callee {
                F(String),
                P(Opd),
            }
            if c.isw("asm") {
                unsup!()
            }
            let callee = match c.next() {
                T::Glob(n) => Callee::F(n.clone()),
                T::Local(n) => Callee::P(Opd::R(fb.slot(n, 1))),
                x => panic!("callee {x:?} in {line}"),
            };
            c.expect('(');
            let mut args = Vec::new();
            let mut aty = Vec::new();
            if !c.eat(')') {
                loop {
                    let (t, v) = fb.tval(&mut c);
                    args.extend(v);
                    aty.push(t);
                    if c.eat(')') {
                        break;
                    }
                    c.expect(',');
                }
            }
            let s = match d {
                Some(n) => fb.slot(n, nl),
                None => {
                    let s = fb.nregs;
                    fb.nregs += nl as u32;
                    s
                }
            };
            match callee {
                Callee::F(n) => {
                    if let Some(k) = intrinsic(&n) {
                        if k == Intr::Nop {
                            return Term::None;
                        }
                        let vlen = match &rt {
                            Ty::Vec(n, _) => Some(*n as usize),
                            _ => None,
                        };
                        if let Some(n) = vlen {
                            let w = agg_index(&rt, &[0]).1.width();
                            let na = args.len() / n;
                            for e in 0..n {
                                let a: Vec<Opd> = (0..na).map(|j| args[j * n + e]).collect();
                                fb.code.push(Instr::Intrin { k, w, args: a.into(), d: s + e as u32 });
                            }
                            return Term::None;
                        }
                        let w = match k {
                            Intr::UCmp | Intr::SCmp => aty[0].width() | (rt.width() << 16),
                            _ => match &rt {
                                Ty::Struct(f, _) if !f.is_empty() => f[0].width(),
                                Ty::Int(w) => *w,
                                _ => 0,
                            },
                        };
                        fb.code.push(Instr::Intrin { k, w, args: args.into(), d: s });
                        return Term::None;
                    }
                    let f = *fb.m.fidx.get(&n).unwrap_or_else(|| panic!("unknown function @{n}"));
                    fb.code.push(Instr::Call { f, args: args.into(), d: s });
                }
                Callee::P(p) => fb.code.push(Instr::CallInd { p, args: args.into(), d: s }),
            }
        }
        "ret" => {
            let t = c.ty();
            let v = if t == Ty::Void { vec![] } else { fb.val(&mut c, &t) };
            fb.code.push(Instr::Ret { v: v.into() });
        }
        "br" => {
            let t = c.ty();
            if t == Ty::Label {
                let T::Local(n) = c.next() else { panic!() };
                fb.code.push(Instr::Unreachable);
                return Term::Br(n.clone());
            }
            let v = fb.val(&mut c, &t);
            c.expect(',');
            c.ty();
            let T::Local(a) = c.next() else { panic!() };
            c.expect(',');
            c.ty();
            let T::Local(b) = c.next() else { panic!() };
            fb.code.push(Instr::Unreachable);
            return Term::Cond(v[0], a.clone(), b.clone());
        }
        "switch" => {
            let t = c.ty();
            let v = fb.val(&mut c, &t);
            c.expect(',');
            c.ty();
            let T::Local(def) = c.next() else { panic!() };
            c.expect('[');
            let mut cases = vec![];
            while !c.eat(']') {
                let ct = c.ty();
                let k = fb.val(&mut c, &ct);
                let k = match k[0] {
                    Opd::C(k) => k,
                    _ => unsup!(),
                };
                c.expect(',');
                c.ty();
                let T::Local(n) = c.next() else { panic!() };
                cases.push((k, n.clone()));
            }
            fb.code.push(Instr::Unreachable);
            return Term::Switch(v[0], t.width(), cases, def.clone());
        }
        "unreachable" => fb.code.push(Instr::Unreachable),
        _ => unsup!(),
    }
    Term::None
}
