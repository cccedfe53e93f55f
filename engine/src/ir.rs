// Textual LLVM IR reader: indexes a module, lays out globals and decodes
// functions lazily into a scalarised instruction form.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F64,
    F32,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ST {
    I(u32),
    F64,
    F32,
}
impl ST {
    pub fn w(self) -> u32 {
        match self {
            ST::I(w) => w,
            ST::F64 => 64,
            ST::F32 => 32,
        }
    }
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 1,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.scalar_bits() as u64 / 8).max(1).next_power_of_two(),
            Ty::Struct(f, p) => {
                if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) }
            }
        }
    }
    pub fn scalar_bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("scalar_bits {:?}", self),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                let b = (n * t.scalar_bits() as u64 + 7) / 8;
                b.max(1).next_power_of_two()
            }
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn leaves(&self, off: u64, out: &mut Vec<(u64, ST)>) {
        match self {
            Ty::Void | Ty::Meta => {}
            Ty::Int(w) => out.push((off, ST::I(*w))),
            Ty::Ptr => out.push((off, ST::I(64))),
            Ty::F64 => out.push((off, ST::F64)),
            Ty::F32 => out.push((off, ST::F32)),
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.leaves(off + i * t.size(), out)
                }
            }
            Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.leaves(off + i * t.size(), out)
                }
            }
            Ty::Struct(f, _) => {
                for i in 0..f.len() {
                    let (o, t) = self.field(i as u64);
                    t.leaves(off + o, out)
                }
            }
        }
    }
    pub fn nleaves(&self) -> usize {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nleaves(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nleaves()).sum(),
            _ => 1,
        }
    }
    pub fn lv(&self) -> Vec<(u64, ST)> {
        let mut v = vec![];
        self.leaves(0, &mut v);
        v
    }
}

/// Scalar operand.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opd {
    R(u32),
    C(u64),
    /// 128-bit constant (lo, hi)
    W(u64, u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Zext, Sext, Trunc, SiToFp, UiToFp, FpToSi, FpToUi, FpTrunc, FpExt, Move }

#[derive(Clone, Debug)]
pub struct Target {
    pub pc: u32,
    pub moves: Rc<Vec<(u32, Opd)>>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(usize),     // function index in module (defined)
    Ext(Rc<str>),      // external or intrinsic
    Ind(Opd),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca { dst: u32, size: u64, n: Opd },
    Load { dst: u32, ptr: Opd, leaves: Rc<Vec<(u64, ST)>> },
    Store { ptr: Opd, vals: Rc<Vec<(u64, ST, Opd)>> },
    Gep { dst: u32, base: Opd, off: i64, terms: Rc<Vec<(Opd, u32, i64)>> },
    Bin { op: BinOp, w: u32, dst: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u32, dst: u32, a: Opd, b: Opd },
    Fcmp { p: u8, w: u32, dst: u32, a: Opd, b: Opd }, // p: bits: 1=eq 2=gt 4=lt 8=uno
    FNeg { w: u32, dst: u32, a: Opd },
    Cast { op: CastOp, dst: u32, a: Opd, fw: u32, tw: u32 },
    Pack { dst: u32, parts: Rc<Vec<Opd>>, pw: u32 },   // parts[0] least significant
    Unpack { dst: u32, a: Opd, fw: u32, n: u32, pw: u32 },
    Select { dst: u32, c: Opd, a: Opd, b: Opd, w: u32 },
    Moves(Rc<Vec<(u32, Opd)>>),
    Dyn { dst: u32, idx: Opd, parts: Rc<Vec<Opd>>, w: u32 }, // extractelement dynamic
    Call { dst: u32, leaves: Rc<Vec<ST>>, callee: Callee, args: Rc<Vec<Opd>>, argw: Rc<Vec<u32>>, normal: Option<Target> },
    Br(Target),
    CondBr { c: Opd, t: Target, f: Target },
    Switch { v: Opd, w: u32, cases: Rc<Vec<(u64, Target)>>, def: Target },
    Ret(Rc<Vec<Opd>>),
    Unreachable,
    Rmw { op: u8, dst: u32, ptr: Opd, v: Opd, w: u32 },
    CmpXchg { dst: u32, ptr: Opd, cmp: Opd, new: Opd, w: u32 },
    Nop,
}

pub struct Func {
    pub name: String,
    pub ins: Vec<Ins>,
    pub nregs: usize,
    pub params: Vec<(u32, u32)>, // slot, width (flattened)
    pub is_hash: bool,
    pub pretty: String,
}

pub struct FuncDecl {
    pub name: String,
    pub lines: (usize, usize), // define line .. closing line index
    pub addr: u64,
}

pub struct GlobalDecl {
    pub name: String,
    pub line: usize,
    pub addr: u64,
    pub constant: bool,
}

pub struct Module {
    pub text: &'static str,
    pub lines: Vec<(u32, u32)>,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<GlobalDecl>,
    pub gmap: HashMap<String, u64>, // symbol name -> address
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, usize>,
    pub faddr: HashMap<u64, usize>,
    pub ext_addr: HashMap<u64, Rc<str>>,
    pub first_free_obj: u64,
}

pub const OBJ_SHIFT: u32 = 24;
thread_local! { pub static REL: std::cell::RefCell<Vec<u64>> = std::cell::RefCell::new(vec![]); }


// ------------------------------------------------------------------ cursor
pub struct Cur<'a> {
    s: &'a [u8],
    p: usize,
}
impl<'a> Cur<'a> {
    pub fn new(s: &'a str) -> Cur<'a> { Cur { s: s.as_bytes(), p: 0 } }
    fn ws(&mut self) {
        loop {
            while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t' || self.s[self.p] == b'\n') { self.p += 1; }
            // inline comments, such as the class names printed in is.fpclass calls
            if self.s[self.p..].starts_with(b"/*") { while self.p < self.s.len() && !self.s[self.p..].starts_with(b"*/") { self.p += 1; } self.p += 2; } else { return; }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() { self.s[self.p] } else { 0 }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            let e = self.p + t.len();
            let last = t.as_bytes()[t.len() - 1];
            if last.is_ascii_alphanumeric() && e < self.s.len() {
                let c = self.s[e];
                if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' { return false; }
            }
            self.p = e;
            true
        } else { false }
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            panic!("IR parse: expected '{}' at '{}'", t, self.rest());
        }
    }
    fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.p..self.s.len().min(self.p + 120)]).to_string() }
    fn word(&mut self) -> &'a str {
        self.ws();
        let b = self.p;
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'+' { self.p += 1; } else { break; }
        }
        std::str::from_utf8(&self.s[b..self.p]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    /// name after % or @ (cursor on first char after sigil)
    fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            self.p += 1;
            let b = self.p;
            while self.s[self.p] != b'"' { self.p += 1; }
            let r = std::str::from_utf8(&self.s[b..self.p]).unwrap().to_string();
            self.p += 1;
            return r;
        }
        let b = self.p;
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' { self.p += 1; } else { break; }
        }
        std::str::from_utf8(&self.s[b..self.p]).unwrap().to_string()
    }
    fn skip_paren(&mut self) {
        self.ws();
        let mut d = 0;
        while self.p < self.s.len() {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.p += 1; return; } }
                b'"' => { self.p += 1; while self.s[self.p] != b'"' { self.p += 1; } }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn num_u128(&mut self) -> (bool, u128) {
        self.ws();
        let neg = if self.s[self.p] == b'-' { self.p += 1; true } else { false };
        let mut v: u128 = 0;
        while self.p < self.s.len() && self.s[self.p].is_ascii_digit() {
            v = v.wrapping_mul(10).wrapping_add((self.s[self.p] - b'0') as u128);
            self.p += 1;
        }
        (neg, v)
    }
}

fn is_val_kw(w: &str) -> bool {
    matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr"
        | "bitcast" | "sub" | "add" | "trunc" | "splat" | "c" | "none" | "xor" | "mul" | "shl")
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ir").into_boxed_str());
        let mut lines = Vec::new();
        let b = text.as_bytes();
        let mut s = 0usize;
        for i in 0..b.len() {
            if b[i] == b'\n' {
                lines.push((s as u32, i as u32));
                s = i + 1;
            }
        }
        let mut m = Module { text, lines, types: HashMap::new(), globals: vec![], gmap: HashMap::new(), funcs: vec![], fmap: HashMap::new(),
            faddr: HashMap::new(), ext_addr: HashMap::new(), first_free_obj: 0 };
        let mut next = 0u64;
        let mut aliases = vec![];
        let mut i = 0;
        while i < m.lines.len() {
            let l = m.line(i);
            let c = l.as_bytes().first().cloned().unwrap_or(0);
            match c {
                b'%' => {
                    let mut cu = Cur::new(l);
                    cu.expect("%");
                    let n = cu.name();
                    cu.expect("=");
                    cu.expect("type");
                    let t = m.ty(&mut cu);
                    m.types.insert(n, t);
                }
                b'@' => {
                    let mut cu = Cur::new(l);
                    cu.expect("@");
                    let n = cu.name();
                    cu.expect("=");
                    if l.contains(" alias ") {
                        aliases.push(i);
                    } else {
                        let addr = (next + 1) << OBJ_SHIFT;
                        next += 1;
                        let constant = l.contains(" constant ");
                        m.gmap.insert(n.clone(), addr);
                        m.globals.push(GlobalDecl { name: n, line: i, addr, constant });
                    }
                }
                b'd' if l.starts_with("define") || l.starts_with("declare") => {
                    let at = l.find('@').unwrap();
                    let mut cu = Cur::new(&l[at + 1..]);
                    let n = cu.name();
                    let addr = (next + 1) << OBJ_SHIFT;
                    next += 1;
                    m.gmap.insert(n.clone(), addr);
                    if l.starts_with("define") {
                        let st = i;
                        while m.line(i) != "}" { i += 1; }
                        let idx = m.funcs.len();
                        m.funcs.push(FuncDecl { name: n.clone(), lines: (st, i), addr });
                        m.fmap.insert(n, idx);
                        m.faddr.insert(addr, idx);
                    } else {
                        m.ext_addr.insert(addr, Rc::from(n.as_str()));
                    }
                }
                b'!' => break,
                _ => {}
            }
            i += 1;
        }
        // later lines are metadata only, except attributes (ignored)
        for i in aliases {
            let l = m.line(i);
            let n = { let mut cu = Cur::new(l); cu.expect("@"); cu.name() };
            let at = l.rfind('@').unwrap();
            let t = { let mut cu = Cur::new(&l[at + 1..]); cu.name() };
            if let Some(a) = m.gmap.get(&t).cloned() {
                m.gmap.insert(n.clone(), a);
                if let Some(f) = m.fmap.get(&t).cloned() { m.fmap.insert(n, f); }
            }
        }
        m.first_free_obj = next + 1;
        m
    }
    pub fn line(&self, i: usize) -> &'static str {
        let (a, b) = self.lines[i];
        &self.text[a as usize..b as usize]
    }

    pub fn ty(&self, c: &mut Cur) -> Ty {
        let mut t = match c.peek() {
            b'{' => { c.expect("{"); let v = self.ty_list(c, "}"); Ty::Struct(Rc::new(v), false) }
            b'<' => {
                c.expect("<");
                if c.eat("{") {
                    let v = self.ty_list(c, "}");
                    c.expect(">");
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let (_, n) = c.num_u128();
                    c.expect("x");
                    let t = self.ty(c);
                    c.expect(">");
                    Ty::Vec(n as u64, Rc::new(t))
                }
            }
            b'[' => {
                c.expect("[");
                let (_, n) = c.num_u128();
                c.expect("x");
                let t = self.ty(c);
                c.expect("]");
                Ty::Arr(n as u64, Rc::new(t))
            }
            b'%' => { c.expect("%"); let n = c.name(); self.types.get(&n).cloned().unwrap_or(Ty::Struct(Rc::new(vec![]), false)) }
            _ => {
                let w = c.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "metadata" | "label" | "token" => Ty::Meta,
                    _ if w.starts_with('i') && w.len() > 1 => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {} {}", w, c.rest()))),
                    _ => panic!("IR type '{}' at {}", w, c.rest()),
                }
            }
        };
        // function type: T (args)
        if c.peek() == b'(' {
            // caller decides; only valid in call position
            let p = c.p;
            let _ = p;
        }
        if let Ty::Ptr = t {
            if c.eat("addrspace") { c.skip_paren(); t = Ty::Ptr; }
        }
        t
    }
    fn ty_list(&self, c: &mut Cur, end: &str) -> Vec<Ty> {
        let mut v = vec![];
        if c.eat(end) { return v; }
        loop {
            v.push(self.ty(c));
            if c.eat(",") { continue; }
            c.expect(end);
            return v;
        }
    }

    fn float_const(&self, w: &str, t: &Ty) -> Option<u64> {
        let is64 = *t == Ty::F64;
        let enc = |d: f64| if is64 { d.to_bits() } else { (d as f32).to_bits() as u64 };
        let v = match w {
            "+inf" | "inf" => enc(f64::INFINITY),
            "-inf" => enc(f64::NEG_INFINITY),
            "+qnan" | "qnan" | "nan" | "+nan" => if is64 { 0x7ff8000000000000 } else { 0x7fc00000 },
            "-qnan" | "-nan" => if is64 { 0xfff8000000000000 } else { 0xffc00000 },
            _ => {
                if let Some(h) = w.strip_prefix("f0x") {
                    u64::from_str_radix(h, 16).ok()?
                } else if let Some(h) = w.strip_prefix("0x") {
                    let b = u64::from_str_radix(h, 16).ok()?;
                    if is64 { b } else { (f64::from_bits(b) as f32).to_bits() as u64 }
                } else { enc(w.parse::<f64>().ok()?) }
            }
        };
        Some(v)
    }

    /// parse a constant of type t into leaf operands; `loc` resolves %names
    fn value(&self, c: &mut Cur, t: &Ty, loc: &mut dyn FnMut(&str, &Ty) -> u32) -> Vec<Opd> {
        let n = t.nleaves();
        match c.peek() {
            b'%' => {
                c.expect("%");
                let nm = c.name();
                let base = loc(&nm, t);
                return (0..n as u32).map(|i| Opd::R(base + i)).collect();
            }
            b'@' => {
                c.expect("@");
                let nm = c.name();
                let a = *self.gmap.get(&nm).unwrap_or_else(|| panic!("unknown global {}", nm));
                return vec![Opd::C(a)];
            }
            b'{' | b'[' => {
                let close = if c.peek() == b'{' { c.expect("{"); "}" } else { c.expect("["); "]" };
                return self.agg(c, close, loc);
            }
            b'<' => {
                c.expect("<");
                if c.eat("{") {
                    let v = self.agg(c, "}", loc);
                    c.expect(">");
                    return v;
                }
                return self.agg(c, ">", loc);
            }
            b'!' => { // metadata operand
                c.expect("!");
                if c.peek() == b'{' { while c.peek() != b'}' { c.p += 1; } c.p += 1; }
                else if c.peek() == b'"' { c.name(); } else { c.word(); if c.peek() == b'(' { c.skip_paren(); } }
                return vec![];
            }
            _ => {}
        }
        let save = c.p;
        let w = c.word();
        match w {
            "true" => return vec![Opd::C(1)],
            "false" => return vec![Opd::C(0)],
            "null" | "none" => return vec![Opd::C(0)],
            "undef" | "poison" | "zeroinitializer" => return vec![Opd::C(0); n],
            "c" => {
                // string
                assert!(c.s[c.p] == b'"');
                c.p += 1;
                let mut v = vec![];
                while c.s[c.p] != b'"' {
                    let ch = c.s[c.p];
                    if ch == b'\\' {
                        if c.s[c.p + 1] == b'\\' { v.push(Opd::C(b'\\' as u64)); c.p += 2; }
                        else {
                            let h = std::str::from_utf8(&c.s[c.p + 1..c.p + 3]).unwrap();
                            v.push(Opd::C(u64::from_str_radix(h, 16).unwrap()));
                            c.p += 3;
                        }
                    } else { v.push(Opd::C(ch as u64)); c.p += 1; }
                }
                c.p += 1;
                return v;
            }
            "splat" => {
                c.expect("(");
                let t2 = self.ty(c);
                let v = self.value(c, &t2, loc);
                c.expect(")");
                let lanes = n / v.len().max(1);
                let mut o = vec![];
                for _ in 0..lanes { o.extend_from_slice(&v); }
                return o;
            }
            "getelementptr" => {
                loop { let k = c.peek_word(); if matches!(k, "inbounds" | "nuw" | "nusw" | "inrange") { c.word(); if c.peek() == b'(' && k == "inrange" { c.skip_paren(); } } else { break; } }
                c.expect("(");
                let bt = self.ty(c);
                c.expect(",");
                let pt = self.ty(c);
                let b = self.value(c, &pt, loc);
                let mut off: i64 = match b[0] { Opd::C(x) => x as i64, _ => panic!("const gep base") };
                let mut cur = bt;
                let mut first = true;
                while c.eat(",") {
                    c.eat("inrange");
                    let it = self.ty(c);
                    let v = self.value(c, &it, loc);
                    let ix = match v[0] { Opd::C(x) => sext64(x, it.scalar_bits()), _ => panic!() };
                    if first { off += ix * cur.size() as i64; first = false; }
                    else { let (o, t3) = match &cur { Ty::Struct(..) => cur.field(ix as u64), Ty::Arr(_, e) | Ty::Vec(_, e) => ((ix * e.size() as i64) as u64, (**e).clone()), _ => panic!() }; off = off.wrapping_add(o as i64); cur = t3; }
                }
                c.expect(")");
                return vec![Opd::C(off as u64)];
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                c.expect("(");
                let t1 = self.ty(c);
                let v = self.value(c, &t1, loc);
                c.expect("to");
                let t2 = self.ty(c);
                c.expect(")");
                if let (Opd::C(x), true) = (v[0], t2.nleaves() == 1) {
                    let w2 = t2.scalar_bits();
                    // relative table entry (difference of two addresses): object
                    // addresses are 64-bit wide, so the full difference is kept
                    // in a side table that llvm.load.relative consults
                    if w == "trunc" && w2 == 32 && t1.scalar_bits() == 64 {
                        return vec![Opd::C(REL.with(|r| { let mut r = r.borrow_mut(); r.push(x); (r.len() - 1) as u64 }))];
                    }
                    return vec![Opd::C(if w2 >= 64 { x } else { x & ((1u64 << w2) - 1) })];
                }
                return v;
            }
            "add" | "sub" | "mul" | "xor" => {
                loop { let k = c.peek_word(); if matches!(k, "nuw" | "nsw") { c.word(); } else { break; } }
                c.expect("(");
                let t1 = self.ty(c);
                let a = self.value(c, &t1, loc);
                c.expect(",");
                let t2 = self.ty(c);
                let b = self.value(c, &t2, loc);
                c.expect(")");
                if let (Opd::C(x), Opd::C(y)) = (a[0], b[0]) {
                    let r = match w { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "mul" => x.wrapping_mul(y), _ => x ^ y };
                    let w = t1.scalar_bits();
                    return vec![Opd::C(if w >= 64 { r } else { r & ((1u64 << w) - 1) })];
                }
                panic!("const expr");
            }
            _ => {}
        }
        match t {
            Ty::Int(wd) => {
                c.p = save;
                let (neg, v) = c.num_u128();
                let mut x = if neg { (v as i128).wrapping_neg() as u128 } else { v };
                if *wd < 128 { x &= (1u128 << *wd) - 1; }
                if *wd <= 64 { vec![Opd::C(x as u64)] } else { vec![Opd::W(x as u64, (x >> 64) as u64)] }
            }
            Ty::F64 | Ty::F32 => vec![Opd::C(self.float_const(w, t).unwrap_or_else(|| panic!("float const {}", w)))],
            _ => panic!("IR value '{}' type {:?} at {}", w, t, c.rest()),
        }
    }
    fn agg(&self, c: &mut Cur, close: &str, loc: &mut dyn FnMut(&str, &Ty) -> u32) -> Vec<Opd> {
        let mut v = vec![];
        if c.eat(close) { return v; }
        loop {
            let t = self.ty(c);
            v.extend(self.value(c, &t, loc));
            if c.eat(",") { continue; }
            c.expect(close);
            return v;
        }
    }

    pub fn global_init(&self, g: &GlobalDecl) -> Option<Vec<u8>> {
        let l = self.line(g.line);
        let mut c = Cur::new(l);
        c.expect("@");
        c.name();
        c.expect("=");
        loop {
            let w = c.word();
            if w == "constant" || w == "global" { break; }
            if w == "external" {
                // no initialiser
                return None;
            }
            if c.peek() == b'(' { c.skip_paren(); }
            if w.is_empty() { panic!("global {}", l); }
        }
        let t = self.ty(&mut c);
        let v = self.value(&mut c, &t, &mut |_, _| panic!("local in global"));
        let lv = t.lv();
        let mut out = vec![0u8; t.size() as usize];
        for (k, (o, st)) in lv.iter().enumerate() {
            let nb = ((st.w() + 7) / 8) as usize;
            let (lo, hi) = match v[k] { Opd::C(x) => (x, 0), Opd::W(a, b) => (a, b), _ => unreachable!() };
            for b in 0..nb {
                let x = if b < 8 { lo >> (8 * b) } else { hi >> (8 * (b - 8)) };
                out[*o as usize + b] = x as u8;
            }
        }
        Some(out)
    }

    fn skip_attrs(&self, c: &mut Cur) {
        loop {
            let ch = c.peek();
            if ch == b'#' { c.p += 1; c.word(); continue; }
            if ch == b'"' { c.name(); if c.eat("=") { c.ws(); c.name(); } continue; }
            if !ch.is_ascii_lowercase() { return; }
            let p = c.p;
            let w = c.word();
            if is_val_kw(w) || w == "to" || w == "x" { c.p = p; return; }
            if w == "align" { if c.peek() == b'(' { c.skip_paren(); } else { c.num_u128(); } continue; }
            if c.s.get(c.p) == Some(&b'(') { c.skip_paren(); }
        }
    }

    pub fn decode(&self, fi: usize) -> Func {
        let fd = &self.funcs[fi];
        let mut d = Dec { m: self, slots: HashMap::new(), nregs: 0, ins: vec![], blocks: HashMap::new(), phis: HashMap::new(), cur: String::new(), fixups: vec![] };
        // header
        let head = self.line(fd.lines.0);
        let at = head.find('@').unwrap();
        let mut c = Cur::new(&head[at + 1..]);
        c.name();
        c.expect("(");
        let mut params = vec![];
        let mut argno = 0;
        if !c.eat(")") {
            loop {
                if c.eat("...") { c.expect(")"); break; }
                let t = self.ty(&mut c);
                self.skip_attrs(&mut c);
                let name = if c.eat("%") { c.name() } else { let n = format!("{}", argno); n };
                argno += 1;
                let s = d.slot(&name, &t);
                for (k, (_, st)) in t.lv().iter().enumerate() { params.push((s + k as u32, st.w())); }
                if c.eat(",") { continue; }
                c.expect(")");
                break;
            }
        }
        // gather logical lines
        let mut stmts: Vec<String> = vec![];
        let mut i = fd.lines.0 + 1;
        while i < fd.lines.1 {
            let l = self.line(i);
            i += 1;
            let t = l.trim();
            if t.is_empty() || t.starts_with(';') || t.starts_with('#') { continue; }
            if t.starts_with("switch ") || t.contains(" = switch ") {
                let mut s = t.to_string();
                if !t.contains(']') {
                    loop { let l2 = self.line(i).trim(); i += 1; s.push(' '); s.push_str(l2); if l2.starts_with(']') { break; } }
                }
                stmts.push(s);
                continue;
            }
            if l.starts_with("          ") {
                let last = stmts.last_mut().unwrap();
                last.push(' ');
                last.push_str(t);
                continue;
            }
            stmts.push(if l.starts_with(' ') { t.to_string() } else { format!(":{}", l) });
        }
        // first pass: phis & labels. Unlabelled entry block gets number = next unnamed value
        let entry_label = {
            if let Some(s0) = stmts.get(0) {
                if s0.starts_with(':') { None } else { Some(format!("{}", argno_unnamed(head, argno))) }
            } else { None }
        };
        let mut label = entry_label.clone().unwrap_or_default();
        for s in &stmts {
            if let Some(r) = s.strip_prefix(':') { label = label_name(r); continue; }
            if let Some(eq) = s.find(" = phi ") {
                let nm = { let mut c = Cur::new(&s[1..eq + 1]); c.name() };
                let mut c = Cur::new(&s[eq + 7..]);
                loop { let w = c.peek_word(); if matches!(w, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { c.word(); } else { break; } }
                let t = self.ty(&mut c);
                let dst = d.slot(&nm, &t);
                loop {
                    c.expect("[");
                    let v = { let dd = &mut d; let m = self; m.value(&mut c, &t, &mut |n, t| dd.slot(n, t)) };
                    c.expect(",");
                    c.expect("%");
                    let from = c.name();
                    c.expect("]");
                    let e = d.phis.entry((from, label.clone())).or_insert_with(Vec::new);
                    for (k, o) in v.iter().enumerate() { e.push((dst + k as u32, *o)); }
                    if c.peek() == b',' { let p = c.p; c.expect(","); if c.peek() == b'!' { c.p = p; break; } } else { break; }
                }
            }
        }
        d.cur = entry_label.unwrap_or_default();
        let first = d.cur.clone();
        d.blocks.insert(first, 0);
        for s in &stmts {
            if let Some(r) = s.strip_prefix(':') {
                d.cur = label_name(r);
                let pc = d.ins.len() as u32;
                let k = d.cur.clone();
                d.blocks.insert(k, pc);
                continue;
            }
            d.stmt(s, fd);
        }
        // fix up targets
        let blocks = d.blocks;
        let fix = |t: &mut Target, fx: &Vec<String>| { t.pc = *blocks.get(&fx[t.pc as usize]).unwrap_or_else(|| panic!("no block {}", fx[t.pc as usize])); };
        let fx = d.fixups;
        for ins in d.ins.iter_mut() {
            match ins {
                Ins::Br(t) => fix(t, &fx),
                Ins::CondBr { t, f, .. } => { fix(t, &fx); fix(f, &fx); }
                Ins::Switch { cases, def, .. } => { fix(def, &fx); for (_, t) in Rc::get_mut(cases).unwrap() { fix(t, &fx); } }
                Ins::Call { normal: Some(t), .. } => fix(t, &fx),
                _ => {}
            }
        }
        let mut pretty = fd.name.clone();
        for k in 1..4usize {
            if fd.lines.0 < k { break; }
            let l = self.line(fd.lines.0 - k);
            if l.starts_with("; Function Attrs") { continue; }
            if l.starts_with("; ") { pretty = l[2..].trim().to_string(); }
            break;
        }
        Func { pretty, name: fd.name.clone(), ins: d.ins, nregs: d.nregs as usize, params, is_hash: fd.name.contains("hash_one") }
    }
}

fn argno_unnamed(head: &str, nargs: usize) -> usize {
    // number of unnamed parameters (numeric names) = next number for the entry block
    let at = head.find('@').unwrap();
    let h = &head[at..];
    let mut n = 0;
    let mut k = 0;
    while k <= nargs {
        let pat1 = format!("%{}", k);
        let mut found = false;
        let mut s = 0;
        while let Some(p) = h[s..].find(&pat1) {
            let e = s + p + pat1.len();
            let nx = h.as_bytes().get(e).cloned().unwrap_or(b' ');
            if !(nx.is_ascii_alphanumeric() || nx == b'_' || nx == b'.') { found = true; break; }
            s = e;
        }
        if found { n = k + 1; }
        k += 1;
    }
    n
}

fn label_name(r: &str) -> String {
    let mut c = Cur::new(r);
    c.name()
}

pub fn sext64(x: u64, w: u32) -> i64 {
    if w >= 64 { x as i64 } else { ((x << (64 - w)) as i64) >> (64 - w) }
}

struct Dec<'m> {
    m: &'m Module,
    slots: HashMap<String, u32>,
    nregs: u32,
    ins: Vec<Ins>,
    blocks: HashMap<String, u32>,
    phis: HashMap<(String, String), Vec<(u32, Opd)>>,
    cur: String,
    fixups: Vec<String>,
}

impl<'m> Dec<'m> {
    fn slot(&mut self, n: &str, t: &Ty) -> u32 {
        if let Some(s) = self.slots.get(n) { return *s; }
        let s = self.nregs;
        self.nregs += t.nleaves().max(1) as u32;
        self.slots.insert(n.to_string(), s);
        s
    }
    fn val(&mut self, c: &mut Cur, t: &Ty) -> Vec<Opd> {
        let m = self.m;
        m.value(c, t, &mut |n, t| self.slot(n, t))
    }
    fn tyval(&mut self, c: &mut Cur) -> (Ty, Vec<Opd>) {
        let t = self.m.ty(c);
        if t == Ty::Meta { return (t, vec![]); }
        self.m.skip_attrs(c);
        let v = self.val(c, &t);
        (t, v)
    }
    fn target(&mut self, lab: String) -> Target {
        let moves = self.phis.get(&(self.cur.clone(), lab.clone())).cloned().unwrap_or_default();
        self.fixups.push(lab);
        Target { pc: (self.fixups.len() - 1) as u32, moves: Rc::new(moves) }
    }
    fn label(&mut self, c: &mut Cur) -> Target {
        c.expect("label");
        c.expect("%");
        let n = c.name();
        self.target(n)
    }
    fn stmt(&mut self, s: &str, fd: &FuncDecl) {
        let m = self.m;
        let mut c = Cur::new(s);
        let mut dst: Option<String> = None;
        if c.peek() == b'%' {
            c.expect("%");
            dst = Some(c.name());
            c.expect("=");
        }
        let mut op = c.word();
        while matches!(op, "tail" | "musttail" | "notail") { op = c.word(); }
        let dn = dst.unwrap_or_default();
        match op {
            "alloca" => {
                c.eat("inalloca");
                let t = m.ty(&mut c);
                let mut n = Opd::C(1);
                if c.eat(",") && !c.peek_word().starts_with("align") && c.peek().is_ascii_lowercase() {
                    let (_, v) = self.tyval(&mut c);
                    n = v[0];
                }
                let d = self.slot(&dn, &Ty::Ptr);
                self.ins.push(Ins::Alloca { dst: d, size: t.size(), n });
            }
            "load" => {
                c.eat("atomic");
                c.eat("volatile");
                let t = m.ty(&mut c);
                c.expect(",");
                let (_, p) = self.tyval(&mut c);
                let d = self.slot(&dn, &t);
                self.ins.push(Ins::Load { dst: d, ptr: p[0], leaves: Rc::new(vec_lv(&t)) });
            }
            "store" => {
                c.eat("atomic");
                c.eat("volatile");
                let (t, v) = self.tyval(&mut c);
                c.expect(",");
                let (_, p) = self.tyval(&mut c);
                let vals = vec_lv(&t).iter().zip(v.iter()).map(|((o, s), v)| (*o, *s, *v)).collect();
                self.ins.push(Ins::Store { ptr: p[0], vals: Rc::new(vals) });
            }
            "getelementptr" => {
                loop { let k = c.peek_word(); if matches!(k, "inbounds" | "nuw" | "nusw" | "inrange") { c.word(); if k == "inrange" && c.peek() == b'(' { c.skip_paren(); } } else { break; } }
                let bt = m.ty(&mut c);
                c.expect(",");
                let (pt, b) = self.tyval(&mut c);
                assert!(pt == Ty::Ptr, "vector gep in {}", fd.name);
                let mut off: i64 = 0;
                let mut terms = vec![];
                let mut cur = bt;
                let mut first = true;
                while c.eat(",") {
                    if c.peek() == b'!' { break; }
                    let (it, v) = self.tyval(&mut c);
                    let iw = it.scalar_bits();
                    let esz;
                    let nt;
                    if first { esz = cur.size() as i64; nt = cur.clone(); first = false; }
                    else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = match v[0] { Opd::C(x) => x, _ => panic!() };
                                let (o, t) = cur.field(k);
                                off += o as i64;
                                cur = t;
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => { esz = e.size() as i64; nt = (**e).clone(); }
                            _ => panic!("gep"),
                        }
                    }
                    match v[0] { Opd::C(x) => off = off.wrapping_add(sext64(x, iw).wrapping_mul(esz)), o => terms.push((o, iw, esz)) }
                    cur = nt;
                }
                let d = self.slot(&dn, &Ty::Ptr);
                self.ins.push(Ins::Gep { dst: d, base: b[0], off, terms: Rc::new(terms) });
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let bop = match op { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem,
                    "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr,
                    "fadd" => BinOp::FAdd, "fsub" => BinOp::FSub, "fmul" => BinOp::FMul, "fdiv" => BinOp::FDiv, _ => BinOp::FRem };
                flags(&mut c);
                let t = m.ty(&mut c);
                let a = self.val(&mut c, &t);
                c.expect(",");
                let b = self.val(&mut c, &t);
                let d = self.slot(&dn, &t);
                for (k, (_, st)) in vec_lv(&t).iter().enumerate() {
                    self.ins.push(Ins::Bin { op: bop, w: st.w(), dst: d + k as u32, a: a[k], b: b[k] });
                }
            }
            "icmp" => {
                flags(&mut c);
                let p = match c.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("icmp {}", x) };
                let t = m.ty(&mut c);
                let a = self.val(&mut c, &t);
                c.expect(",");
                let b = self.val(&mut c, &t);
                let d = self.slot(&dn, &bool_like(&t));
                for (k, (_, st)) in vec_lv(&t).iter().enumerate() {
                    self.ins.push(Ins::Icmp { p, w: st.w(), dst: d + k as u32, a: a[k], b: b[k] });
                }
            }
            "fcmp" => {
                flags(&mut c);
                let p = match c.word() { "false" => 0, "oeq" => 1, "ogt" => 2, "oge" => 3, "olt" => 4, "ole" => 5, "one" => 6, "ord" => 7, "uno" => 8, "ueq" => 9, "ugt" => 10, "uge" => 11, "ult" => 12, "ule" => 13, "une" => 14, "true" => 15, x => panic!("fcmp {}", x) };
                let t = m.ty(&mut c);
                let a = self.val(&mut c, &t);
                c.expect(",");
                let b = self.val(&mut c, &t);
                let d = self.slot(&dn, &bool_like(&t));
                for (k, (_, st)) in vec_lv(&t).iter().enumerate() {
                    self.ins.push(Ins::Fcmp { p, w: st.w(), dst: d + k as u32, a: a[k], b: b[k] });
                }
            }
            "fneg" => {
                flags(&mut c);
                let t = m.ty(&mut c);
                let a = self.val(&mut c, &t);
                let d = self.slot(&dn, &t);
                for (k, (_, st)) in vec_lv(&t).iter().enumerate() { self.ins.push(Ins::FNeg { w: st.w(), dst: d + k as u32, a: a[k] }); }
            }
            "zext" | "sext" | "trunc" | "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fptrunc" | "fpext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" => {
                flags(&mut c);
                let t = m.ty(&mut c);
                let a = self.val(&mut c, &t);
                c.expect("to");
                let t2 = m.ty(&mut c);
                let d = self.slot(&dn, &t2);
                let la = vec_lv(&t);
                let lb = vec_lv(&t2);
                if op == "bitcast" && la.len() != lb.len() {
                    if lb.len() == 1 {
                        self.ins.push(Ins::Pack { dst: d, parts: Rc::new(a), pw: la[0].1.w() });
                    } else if la.len() == 1 {
                        self.ins.push(Ins::Unpack { dst: d, a: a[0], fw: la[0].1.w(), n: lb.len() as u32, pw: lb[0].1.w() });
                    } else {
                        let tot = la.len() as u32 * la[0].1.w();
                        assert!(tot <= 128);
                        let tmp = self.nregs;
                        self.nregs += 1;
                        self.ins.push(Ins::Pack { dst: tmp, parts: Rc::new(a), pw: la[0].1.w() });
                        self.ins.push(Ins::Unpack { dst: d, a: Opd::R(tmp), fw: tot, n: lb.len() as u32, pw: lb[0].1.w() });
                    }
                    return;
                }
                let k = match op { "zext" => CastOp::Zext, "sext" => CastOp::Sext, "trunc" => CastOp::Trunc, "sitofp" => CastOp::SiToFp, "uitofp" => CastOp::UiToFp, "fptosi" => CastOp::FpToSi, "fptoui" => CastOp::FpToUi, "fptrunc" => CastOp::FpTrunc, "fpext" => CastOp::FpExt,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => { let (x, y) = (la[0].1.w(), lb[0].1.w()); if x < y { CastOp::Zext } else if x > y { CastOp::Trunc } else { CastOp::Move } }
                    _ => CastOp::Move };
                for i in 0..la.len() {
                    self.ins.push(Ins::Cast { op: k, dst: d + i as u32, a: a[i], fw: la[i].1.w(), tw: lb[i].1.w() });
                }
            }
            "select" => {
                flags(&mut c);
                let (ct, cv) = self.tyval(&mut c);
                c.expect(",");
                let (t, a) = self.tyval(&mut c);
                c.expect(",");
                let (_, b) = self.tyval(&mut c);
                let d = self.slot(&dn, &t);
                let vecc = matches!(ct, Ty::Vec(..));
                for (k, (_, st)) in vec_lv(&t).iter().enumerate() {
                    self.ins.push(Ins::Select { dst: d + k as u32, c: cv[if vecc { k } else { 0 }], a: a[k], b: b[k], w: st.w() });
                }
            }
            "phi" => {}
            "freeze" => {
                let (t, a) = self.tyval(&mut c);
                let d = self.slot(&dn, &t);
                self.moves(d, &a);
            }
            "extractvalue" => {
                let (t, a) = self.tyval(&mut c);
                let (lo, rt) = self.agg_path(&mut c, &t);
                let d = self.slot(&dn, &rt);
                let n = rt.nleaves();
                self.moves(d, &a[lo..lo + n]);
            }
            "insertvalue" => {
                let (t, mut a) = self.tyval(&mut c);
                c.expect(",");
                let (_, v) = self.tyval(&mut c);
                let (lo, _) = self.agg_path(&mut c, &t);
                for (k, o) in v.iter().enumerate() { a[lo + k] = *o; }
                let d = self.slot(&dn, &t);
                self.moves(d, &a);
            }
            "extractelement" => {
                let (t, a) = self.tyval(&mut c);
                c.expect(",");
                let (_, i) = self.tyval(&mut c);
                let et = match &t { Ty::Vec(_, e) => (**e).clone(), _ => panic!() };
                let d = self.slot(&dn, &et);
                match i[0] { Opd::C(k) => self.moves(d, &a[k as usize..k as usize + 1]), o => self.ins.push(Ins::Dyn { dst: d, idx: o, parts: Rc::new(a), w: et.scalar_bits() }) }
            }
            "insertelement" => {
                let (t, mut a) = self.tyval(&mut c);
                c.expect(",");
                let (_, v) = self.tyval(&mut c);
                c.expect(",");
                let (_, i) = self.tyval(&mut c);
                match i[0] { Opd::C(k) => a[k as usize] = v[0], _ => panic!("dynamic insertelement") }
                let d = self.slot(&dn, &t);
                self.moves(d, &a);
            }
            "shufflevector" => {
                let (t, a) = self.tyval(&mut c);
                c.expect(",");
                let (_, b) = self.tyval(&mut c);
                c.expect(",");
                let (mt, mv) = self.tyval(&mut c);
                let n = match mt { Ty::Vec(n, _) => n, _ => panic!() };
                let et = match &t { Ty::Vec(_, e) => e.clone(), _ => panic!() };
                let mut all = a.clone();
                all.extend(b);
                let r: Vec<Opd> = mv.iter().map(|o| match o { Opd::C(k) => all[*k as usize], _ => panic!() }).collect();
                let d = self.slot(&dn, &Ty::Vec(n, et));
                self.moves(d, &r);
            }
            "call" | "invoke" => {
                // [fast flags] [cc] [ret attrs] ty [fnty] callee(args)
                loop {
                    let ch = c.peek();
                    if ch == b'{' || ch == b'<' || ch == b'[' || ch == b'%' { break; }
                    let w = c.peek_word();
                    if matches!(w, "void" | "ptr" | "double" | "float" | "metadata" | "token") || (w.starts_with('i') && w.len() > 1 && w[1..].chars().all(|x| x.is_ascii_digit())) { break; }
                    if w.is_empty() { if ch == b'"' { c.name(); if c.eat("=") { c.name(); } continue; } panic!("call at {}", c.rest()); }
                    c.word();
                    if w == "align" && c.peek() != b'(' { c.num_u128(); }
                    if c.s.get(c.p) == Some(&b'(') { c.skip_paren(); }
                }
                let rt = m.ty(&mut c);
                if c.peek() == b'(' { c.skip_paren(); }
                let callee_val: Callee = match c.peek() {
                    b'@' => {
                        c.expect("@");
                        let n = c.name();
                        if let Some(f) = m.fmap.get(&n) { Callee::Direct(*f) } else { Callee::Ext(Rc::from(n.as_str())) }
                    }
                    b'%' => { let v = self.val(&mut c, &Ty::Ptr); Callee::Ind(v[0]) }
                    _ => {
                        if c.eat("asm") { Callee::Ext(Rc::from("asm")) } else { let v = self.val(&mut c, &Ty::Ptr); Callee::Ind(v[0]) }
                    }
                };
                if let Callee::Ext(n) = &callee_val {
                    if &**n == "asm" {
                        self.ins.push(Ins::Call { dst: 0, leaves: Rc::new(vec![]), callee: Callee::Ext(Rc::from("asm")), args: Rc::new(vec![]), argw: Rc::new(vec![]), normal: None });
                        return;
                    }
                    let skip = ["llvm.lifetime", "llvm.assume", "llvm.experimental.noalias", "llvm.dbg", "llvm.x86.sse2.pause", "llvm.prefetch", "llvm.donothing", "llvm.invariant"];
                    if skip.iter().any(|p| n.starts_with(p)) { return; }
                }
                c.expect("(");
                let mut args = vec![];
                let mut argw = vec![];
                if !c.eat(")") {
                    loop {
                        let (t, v) = self.tyval(&mut c);
                        if t == Ty::Meta { while !matches!(c.peek(), b',' | b')') { if c.peek() == b'(' { c.skip_paren(); } else { c.p += 1; } } }
                        for (k, (_, st)) in t.lv().iter().enumerate() { args.push(v[k]); argw.push(st.w()); }
                        if c.eat(",") { continue; }
                        c.expect(")");
                        break;
                    }
                }
                let d = if rt == Ty::Void { 0 } else if dn.is_empty() { let s = self.nregs; self.nregs += rt.nleaves().max(1) as u32; s } else { self.slot(&dn, &rt) };
                let mut normal = None;
                if op == "invoke" {
                    let p = s.find(" to label ").expect("invoke dest");
                    let mut c2 = Cur::new(&s[p + 4..]);
                    normal = Some(self.label(&mut c2));
                }
                self.ins.push(Ins::Call { dst: d, leaves: Rc::new(rt.lv().iter().map(|x| x.1).collect()), callee: callee_val, args: Rc::new(args), argw: Rc::new(argw), normal });
            }
            "br" => {
                if c.peek_word() == "label" { let t = self.label(&mut c); self.ins.push(Ins::Br(t)); }
                else {
                    let (_, v) = self.tyval(&mut c);
                    c.expect(",");
                    let t = self.label(&mut c);
                    c.expect(",");
                    let f = self.label(&mut c);
                    self.ins.push(Ins::CondBr { c: v[0], t, f });
                }
            }
            "switch" => {
                let (t, v) = self.tyval(&mut c);
                c.expect(",");
                let def = self.label(&mut c);
                c.expect("[");
                let mut cases = vec![];
                while !c.eat("]") {
                    let (_, cv) = self.tyval(&mut c);
                    c.expect(",");
                    let l = self.label(&mut c);
                    let k = match cv[0] { Opd::C(x) => x, _ => panic!("switch case") };
                    cases.push((k, l));
                }
                self.ins.push(Ins::Switch { v: v[0], w: t.scalar_bits(), cases: Rc::new(cases), def });
            }
            "ret" => {
                if c.peek_word() == "void" { self.ins.push(Ins::Ret(Rc::new(vec![]))); }
                else { let (_, v) = self.tyval(&mut c); self.ins.push(Ins::Ret(Rc::new(v))); }
            }
            "unreachable" | "resume" => self.ins.push(Ins::Unreachable),
            "landingpad" => { self.ins.push(Ins::Nop); }
            "fence" => {}
            "atomicrmw" => {
                c.eat("volatile");
                let k = match c.word() { "xchg" => 0u8, "add" => 1, "sub" => 2, "and" => 3, "or" => 4, "xor" => 5, x => panic!("rmw {}", x) };
                let (_, p) = self.tyval(&mut c);
                c.expect(",");
                let (t, v) = self.tyval(&mut c);
                let d = self.slot(&dn, &t);
                self.ins.push(Ins::Rmw { op: k, dst: d, ptr: p[0], v: v[0], w: t.scalar_bits() });
            }
            "cmpxchg" => {
                c.eat("weak");
                c.eat("volatile");
                let (_, p) = self.tyval(&mut c);
                c.expect(",");
                let (t, x) = self.tyval(&mut c);
                c.expect(",");
                let (_, y) = self.tyval(&mut c);
                let rt = Ty::Struct(Rc::new(vec![t.clone(), Ty::Int(1)]), false);
                let d = self.slot(&dn, &rt);
                self.ins.push(Ins::CmpXchg { dst: d, ptr: p[0], cmp: x[0], new: y[0], w: t.scalar_bits() });
            }
            _ => panic!("IR instruction '{}' in {}: {}", op, fd.name, s),
        }
    }
    fn moves(&mut self, d: u32, a: &[Opd]) {
        let v: Vec<(u32, Opd)> = a.iter().enumerate().map(|(k, o)| (d + k as u32, *o)).collect();
        self.ins.push(Ins::Moves(Rc::new(v)));
    }
    fn agg_path(&mut self, c: &mut Cur, t: &Ty) -> (usize, Ty) {
        let mut cur = t.clone();
        let mut lo = 0;
        while c.eat(",") {
            if c.peek() == b'!' { break; }
            let (_, k) = c.num_u128();
            match &cur {
                Ty::Struct(f, _) => { for j in 0..k as usize { lo += f[j].nleaves(); } let n = f[k as usize].clone(); cur = n; }
                Ty::Arr(_, e) => { lo += k as usize * e.nleaves(); let n = (**e).clone(); cur = n; }
                _ => panic!("agg path"),
            }
        }
        (lo, cur)
    }
}

/// leaves with memory offsets; sub-byte vectors are not memory types here
fn vec_lv(t: &Ty) -> Vec<(u64, ST)> { t.lv() }

fn bool_like(t: &Ty) -> Ty {
    match t { Ty::Vec(n, _) => Ty::Vec(*n, Rc::new(Ty::Int(1))), _ => Ty::Int(1) }
}
fn flags(c: &mut Cur) {
    loop {
        let w = c.peek_word();
        if matches!(w, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { c.word(); } else { break; }
    }
}
