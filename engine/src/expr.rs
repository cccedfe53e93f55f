// Hash-consed bit-vector / floating-point expression DAG with a simplifier,
// a concrete evaluator and 256-entry tables for single-byte expressions.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    C(u64),
    E(E),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
    SAddO, SSubO, SMulO, UMulO,
    FAdd, FSub, FMul, FDiv, FRem, FEq, FLt, FLe, FUno, FRnd, // FRnd: c = mode 0 floor 1 ceil 2 trunc 3 nearest-even 4 nearest-away
    SiToF, UiToF, FToSiSat, FToUiSat, F32To64, F64To32, Lut, Ctlz, Cttz, Popcnt, FSqrt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64); } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub struct SymInfo {
    pub w: u32,
    pub idx: usize,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub vs: Vec<u32>, // per node: var-set id
    map: FxMap<Node, E>,
    pub hi: Vec<u64>,
    pub syms: Vec<SymInfo>,
    symmap: FxMap<(usize, u32), u32>,
    pub sets: Vec<Rc<Vec<u32>>>,
    setmap: HashMap<Vec<u32>, u32>,
    setu: FxMap<(u32, u32), u32>,
    tts: FxMap<E, Rc<Vec<u64>>>,
    pub luts: Vec<Rc<Vec<u64>>>,
    lutmap: HashMap<(u32, Vec<u64>), u32>,
    bits: FxMap<E, Rc<[u64; 4]>>,
}

pub fn mask(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn mask128(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sx(x: u64, w: u32) -> i64 { if w >= 64 { x as i64 } else { ((x << (64 - w)) as i64) >> (64 - w) } }
pub fn sx128(x: u128, w: u32) -> i128 { if w >= 128 { x as i128 } else { ((x << (128 - w)) as i128) >> (128 - w) } }

fn round_even(x: f64) -> f64 {
    let r = x.round();
    if (x - x.trunc()).abs() == 0.5 { 2.0 * (x / 2.0).round() } else { r }
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx { nodes: vec![], vs: vec![], map: Default::default(), hi: vec![0], syms: vec![], symmap: Default::default(),
            sets: vec![Rc::new(vec![])], setmap: HashMap::new(), setu: Default::default(), tts: Default::default(), luts: vec![], lutmap: HashMap::new(), bits: Default::default() };
        c.setmap.insert(vec![], 0);
        c
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.setu.get(&k) { return *r; }
        let mut v: Vec<u32> = self.sets[a as usize].iter().chain(self.sets[b as usize].iter()).cloned().collect();
        v.sort();
        v.dedup();
        let r = self.set_of(v);
        self.setu.insert(k, r);
        r
    }
    fn set_of(&mut self, v: Vec<u32>) -> u32 {
        if let Some(r) = self.setmap.get(&v) { return *r; }
        let r = self.sets.len() as u32;
        self.sets.push(Rc::new(v.clone()));
        self.setmap.insert(v, r);
        r
    }
    pub fn varset(&self, e: E) -> &Rc<Vec<u32>> { &self.sets[self.vs[e as usize] as usize] }
    pub fn single(&self, e: E) -> Option<u32> {
        let v = self.varset(e);
        if v.len() == 1 && self.syms[v[0] as usize].w <= 8 { Some(v[0]) } else { None }
    }
    fn kids(n: &Node) -> usize {
        match n.op {
            Op::Const | Op::Sym | Op::Lut => 0,
            Op::Ite => 3,
            Op::Extract | Op::ZExt | Op::SExt | Op::FRnd | Op::SiToF | Op::UiToF | Op::FToSiSat | Op::FToUiSat | Op::F32To64 | Op::F64To32 | Op::Ctlz | Op::Cttz | Op::Popcnt | Op::FSqrt => 1,
            _ => 2,
        }
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) { return *e; }
        let s = match n.op {
            Op::Const => 0,
            Op::Sym | Op::Lut => self.set_of(vec![n.a]),
            _ => {
                let k = Self::kids(&n);
                let mut s = self.vs[n.a as usize];
                if k > 1 { s = self.union(s, self.vs[n.b as usize]); }
                if k > 2 { s = self.union(s, self.vs[n.c as usize]); }
                s
            }
        };
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.vs.push(s);
        self.map.insert(n, id);
        id
    }
    pub fn konst(&mut self, w: u32, v: u128) -> E {
        let v = v & mask128(w);
        let h = (v >> 64) as u64;
        let a = if h == 0 { 0 } else {
            match self.hi.iter().position(|x| *x == h) { Some(p) => p as u32, None => { self.hi.push(h); self.hi.len() as u32 - 1 } }
        };
        self.mk(Node { op: Op::Const, w: w as u16, a, b: v as u32, c: (v >> 32) as u32 })
    }
    pub fn cval(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(((self.hi[n.a as usize] as u128) << 64) | ((n.c as u128) << 32) | n.b as u128) } else { None }
    }
    pub fn sym(&mut self, idx: usize, w: u32) -> Val {
        let s = match self.symmap.get(&(idx, w)) {
            Some(s) => *s,
            None => {
                let s = self.syms.len() as u32;
                self.syms.push(SymInfo { w, idx });
                self.symmap.insert((idx, w), s);
                s
            }
        };
        Val::E(self.mk(Node { op: Op::Sym, w: w as u16, a: s, b: 0, c: 0 }))
    }
    pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    /// node id for a value of width w
    pub fn e(&mut self, v: Val, w: u32) -> E {
        match v { Val::C(x) => self.konst(w, x as u128), Val::E(e) => { debug_assert_eq!(self.w(e), w); e } }
    }
    fn fin(&self, e: E) -> Val {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const && n.w <= 64 { Val::C(((n.c as u64) << 32) | n.b as u64) } else { Val::E(e) }
    }
    fn n(&self, e: E) -> Node { self.nodes[e as usize] }

    pub fn eval_op(op: Op, w: u32, cw: u32, a: u128, b: u128, c: u128, aux: u32, wb: u32) -> u128 {
        // w: result width, cw: width of first child, wb: width of second child
        let m = mask128(w);
        let fa = || f64::from_bits(a as u64);
        let fb = || f64::from_bits(b as u64);
        let r: u128 = match op {
            Op::Add => a.wrapping_add(b),
            Op::Sub => a.wrapping_sub(b),
            Op::Mul => a.wrapping_mul(b),
            Op::UDiv => if b == 0 { m } else { a / b },
            Op::URem => if b == 0 { a } else { a % b },
            Op::SDiv => { let (x, y) = (sx128(a, w), sx128(b, w)); if y == 0 { if x >= 0 { m } else { 1 } } else { x.wrapping_div(y) as u128 } }
            Op::SRem => { let (x, y) = (sx128(a, w), sx128(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => if b >= w as u128 { 0 } else { a << b },
            Op::LShr => if b >= w as u128 { 0 } else { a >> b },
            Op::AShr => { let x = sx128(a, w); (if b >= w as u128 { if x < 0 { -1 } else { 0 } } else { x >> b }) as u128 }
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Ule => (a <= b) as u128,
            Op::Slt => (sx128(a, cw) < sx128(b, cw)) as u128,
            Op::Sle => (sx128(a, cw) <= sx128(b, cw)) as u128,
            Op::Ite => if a != 0 { b } else { c },
            Op::Concat => (a << wb) | b,
            Op::Extract => a >> aux,
            Op::ZExt => a,
            Op::SExt => sx128(a, cw) as u128,
            Op::SAddO => { let r = sx128(a, cw).wrapping_add(sx128(b, cw)); if cw == 128 { sx128(a, cw).checked_add(sx128(b, cw)).is_none() as u128 } else { (sx128(r as u128 & mask128(cw), cw) != r) as u128 } }
            Op::SSubO => { let r = sx128(a, cw).wrapping_sub(sx128(b, cw)); if cw == 128 { sx128(a, cw).checked_sub(sx128(b, cw)).is_none() as u128 } else { (sx128(r as u128 & mask128(cw), cw) != r) as u128 } }
            Op::SMulO => match sx128(a, cw).checked_mul(sx128(b, cw)) { None => 1, Some(r) => (sx128(r as u128 & mask128(cw), cw) != r) as u128 },
            Op::UMulO => match a.checked_mul(b) { None => 1, Some(r) => (r > mask128(cw)) as u128 },
            Op::FAdd => (fa() + fb()).to_bits() as u128,
            Op::FSub => (fa() - fb()).to_bits() as u128,
            Op::FMul => (fa() * fb()).to_bits() as u128,
            Op::FDiv => (fa() / fb()).to_bits() as u128,
            Op::FRem => (fa() % fb()).to_bits() as u128,
            Op::FSqrt => fa().sqrt().to_bits() as u128,
            Op::FEq => (fa() == fb()) as u128,
            Op::FLt => (fa() < fb()) as u128,
            Op::FLe => (fa() <= fb()) as u128,
            Op::FUno => (fa().is_nan() || fb().is_nan()) as u128,
            Op::FRnd => { let x = fa(); (match aux { 0 => x.floor(), 1 => x.ceil(), 2 => x.trunc(), 3 => round_even(x), _ => x.round() }).to_bits() as u128 }
            Op::SiToF => if w == 64 { if cw <= 64 { (sx(a as u64, cw) as f64).to_bits() as u128 } else { (sx128(a, cw) as f64).to_bits() as u128 } } else { (sx128(a, cw) as f32).to_bits() as u128 },
            Op::UiToF => if w == 64 { (a as f64).to_bits() as u128 } else { (a as f32).to_bits() as u128 },
            Op::FToSiSat => { let x = fa(); if w >= 64 { (x as i64) as u128 } else { let lo = -(1i128 << (w - 1)); let hi = (1i128 << (w - 1)) - 1; if x.is_nan() { 0 } else { (x as i128).max(lo).min(hi) as u128 } } }
            Op::FToUiSat => { let x = fa(); if w >= 64 { (x as u64) as u128 } else { (x as u128).min(m) } }
            Op::F32To64 => (f32::from_bits(a as u32) as f64).to_bits() as u128,
            Op::F64To32 => (fa() as f32).to_bits() as u128,
            Op::Ctlz => { let mut n = 0; while n < w && (a >> (w - 1 - n)) & 1 == 0 { n += 1; } n as u128 }
            Op::Cttz => { let mut n = 0; while n < w && (a >> n) & 1 == 0 { n += 1; } n as u128 }
            Op::Popcnt => a.count_ones() as u128,
            Op::Const | Op::Sym | Op::Lut => unreachable!(),
        };
        r & m
    }

    fn fold(&mut self, op: Op, w: u32, a: E, b: E, c: E, aux: u32) -> Option<Val> {
        let k = Self::kids(&Node { op, w: 0, a: 0, b: 0, c: 0 });
        let ca = self.cval(a)?;
        let cb = if k > 1 { self.cval(b)? } else { 0 };
        let cc = if k > 2 { self.cval(c)? } else { 0 };
        let cw = self.w(a);
        let wb = if k > 1 { self.w(b) } else { 0 };
        let r = Self::eval_op(op, w, cw, ca, cb, cc, aux, wb);
        Some(if w <= 64 { Val::C(r as u64) } else { Val::E(self.konst(w, r)) })
    }

    pub fn not1(&mut self, v: Val) -> Val {
        match v { Val::C(x) => Val::C((x & 1) ^ 1), Val::E(_) => self.bin(Op::Xor, 1, v, Val::C(1)) }
    }

    /// binary op with operand width w (result width w for arithmetic, 1 for comparisons)
    pub fn bin(&mut self, op: Op, w: u32, x: Val, y: Val) -> Val {
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::SAddO | Op::SSubO | Op::SMulO | Op::UMulO | Op::FEq | Op::FLt | Op::FLe | Op::FUno);
        let rw = if cmp { 1 } else { w };
        if w <= 64 {
            if let (Val::C(a), Val::C(b)) = (x, y) {
                return Val::C(Self::eval_op(op, rw, w, a as u128, b as u128, 0, 0, w) as u64);
            }
        }
        let (mut x, mut y) = (x, y);
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::SAddO | Op::SMulO | Op::UMulO | Op::FAdd | Op::FMul | Op::FEq | Op::FUno);
        if comm {
            match (x, y) {
                (Val::C(_), Val::E(_)) => std::mem::swap(&mut x, &mut y),
                (Val::E(a), Val::E(b)) => {
                    let (ka, kb) = (self.n(a).op == Op::Const, self.n(b).op == Op::Const);
                    if (ka && !kb) || (ka == kb && a > b) { std::mem::swap(&mut x, &mut y); }
                }
                _ => {}
            }
        }
        if x == y {
            match op {
                Op::Sub | Op::Xor => return self.kv(w, 0),
                Op::And | Op::Or => return x,
                Op::Eq | Op::Ule | Op::Sle => return Val::C(1),
                Op::Ult | Op::Slt | Op::FLt => return Val::C(0),
                _ => {}
            }
        }
        let all = mask128(w);
        let yk: Option<u128> = match y { Val::C(k) => Some(k as u128), Val::E(e) => self.cval(e) };
        let xk: Option<u128> = match x { Val::C(k) => Some(k as u128), Val::E(e) => self.cval(e) };
        if op == Op::Sub { if let Some(k) = yk { let nk = self.kv(w, k.wrapping_neg() & all); return self.bin(Op::Add, w, x, nk); } }
        if let (Some(k), Val::E(a)) = (yk, x) {
            let na = self.n(a);
            match op {
                Op::Add | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if k == 0 => return x,
                Op::And if k == 0 => return self.kv(w, 0),
                Op::And if k == all => return x,
                Op::Or if k == all => return self.kv(w, all),
                Op::Mul if k == 0 => return self.kv(w, 0),
                Op::Mul if k == 1 => return x,
                Op::UDiv if k == 1 => return x,
                Op::Mul if k.is_power_of_two() => { let s = self.kv(w, k.trailing_zeros() as u128); return self.bin(Op::Shl, w, x, s); }
                Op::UDiv if k.is_power_of_two() => { let s = self.kv(w, k.trailing_zeros() as u128); return self.bin(Op::LShr, w, x, s); }
                Op::URem if k.is_power_of_two() => { let s = self.kv(w, k - 1); return self.bin(Op::And, w, x, s); }
                Op::Shl | Op::LShr if k >= w as u128 => return self.kv(w, 0),
                Op::Shl => { // shl x, k = concat(extract(x, w-k-1..0), 0_k)
                    let lo = self.extract(x, 0, w - k as u32, w);
                    return self.concat(lo, w - k as u32, self.kz(k as u32), k as u32);
                }
                Op::LShr => { let hi = self.extract(x, k as u32, w - k as u32, w); return self.zext(hi, w - k as u32, w); }
                Op::Ult if k == 0 => return Val::C(0),
                Op::Ult if k == 1 => { let z = self.kv(w, 0); return self.bin(Op::Eq, w, x, z); }
                Op::Ule if k == all => return Val::C(1),
                Op::Ule if k == 0 => { let z = self.kv(w, 0); return self.bin(Op::Eq, w, x, z); }
                Op::Ule => { let k1 = self.kv(w, k + 1); return self.bin(Op::Ult, w, x, k1); }
                Op::Sle if sx128(k, w) == sx128(all >> 1, w) => return Val::C(1),
                Op::Sle => { let k1 = self.kv(w, (k + 1) & all); return self.bin(Op::Slt, w, x, k1); }
                _ => {}
            }
            match (op, na.op) {
                (Op::Add, Op::Add) | (Op::And, Op::And) | (Op::Or, Op::Or) | (Op::Xor, Op::Xor) => {
                    if let Some(k2) = self.cval(na.b) {
                        let r = Self::eval_op(op, w, w, k, k2, 0, 0, w);
                        let r = self.kv(w, r);
                        let a = self.fin(na.a);
                        return self.bin(op, w, a, r);
                    }
                }
                _ => {}
            }
            if op == Op::Eq {
                if w == 1 { return if k == 1 { x } else { self.bin(Op::Xor, 1, x, Val::C(1)) }; }
                match na.op {
                    Op::ZExt => {
                        let iw = self.w(na.a);
                        if k > mask128(iw) { return Val::C(0); }
                        let kk = self.kv(iw, k);
                        return self.bin(Op::Eq, iw, self.fin(na.a), kk);
                    }
                    Op::SExt => {
                        let iw = self.w(na.a);
                        let t = k & mask128(iw);
                        if (sx128(t, iw) as u128) & all != k { return Val::C(0); }
                        let kk = self.kv(iw, t);
                        return self.bin(Op::Eq, iw, self.fin(na.a), kk);
                    }
                    Op::Add | Op::Xor => if let Some(k2) = self.cval(na.b) {
                        let r = if na.op == Op::Add { k.wrapping_sub(k2) & all } else { k ^ k2 };
                        let r = self.kv(w, r);
                        return self.bin(Op::Eq, w, self.fin(na.a), r);
                    },
                    Op::Ite => {
                        let (p, q) = (self.cval(na.b), self.cval(na.c));
                        if p.is_some() || q.is_some() {
                            let kk = self.kv(w, k);
                            let pe = self.bin(Op::Eq, w, self.fin(na.b), kk);
                            let qe = self.bin(Op::Eq, w, self.fin(na.c), kk);
                            return self.ite(self.fin(na.a), pe, qe, 1);
                        }
                    }
                    Op::Concat => {
                        let (wa, wb) = (self.w(na.a), self.w(na.b));
                        let k1 = self.kv(wa, k >> wb);
                        let k2 = self.kv(wb, k & mask128(wb));
                        if self.n(na.a).op == Op::Const || self.n(na.b).op == Op::Const || (self.vs[na.a as usize] != self.vs[na.b as usize]) {
                            let e1 = self.bin(Op::Eq, wa, self.fin(na.a), k1);
                            let e2 = self.bin(Op::Eq, wb, self.fin(na.b), k2);
                            return self.bin(Op::And, 1, e1, e2);
                        }
                    }
                    _ => {}
                }
            }
            if op == Op::Ult && na.op == Op::ZExt {
                let iw = self.w(na.a);
                if k > mask128(iw) { return Val::C(1); }
                let kk = self.kv(iw, k);
                return self.bin(Op::Ult, iw, self.fin(na.a), kk);
            }
            if op == Op::Slt && na.op == Op::ZExt {
                if sx128(k, w) < 0 { return Val::C(0); }
                let kk = self.kv(w, k);
                return self.bin(Op::Ult, w, x, kk);
            }
            if op == Op::And && na.op == Op::ZExt {
                let iw = self.w(na.a);
                let kk = self.kv(iw, k & mask128(iw));
                let r = self.bin(Op::And, iw, self.fin(na.a), kk);
                return self.zext(r, iw, w);
            }
            if op == Op::And && k & (k + 1) == 0 { // low mask
                let n = (128 - k.leading_zeros()) as u32;
                let lo = self.extract(x, 0, n, w);
                return self.zext(lo, n, w);
            }
            if (op == Op::Xor || op == Op::Or) && na.op == Op::ZExt {
                let iw = self.w(na.a);
                if k <= mask128(iw) {
                    let kk = self.kv(iw, k);
                    let r = self.bin(op, iw, self.fin(na.a), kk);
                    return self.zext(r, iw, w);
                }
            }
            if w == 1 && op == Op::Xor && k == 1 {
                // push negation through ite of constants handled in ite; double negation folded above
                if na.op == Op::Ite {
                    if self.cval(na.b).is_some() || self.cval(na.c).is_some() {
                        let p = self.not1(self.fin(na.b));
                        let q = self.not1(self.fin(na.c));
                        return self.ite(self.fin(na.a), p, q, 1);
                    }
                }
            }
        }
        if let (Some(k), Val::E(b)) = (xk, y) {
            let nb = self.n(b);
            match op {
                Op::Ult if k == all => return Val::C(0),
                Op::Ule if k == 0 => return Val::C(1),
                Op::Ule if k > 0 => { // k <= y  <=> not (y < k)
                    let kk = self.kv(w, k);
                    let r = self.bin(Op::Ult, w, y, kk);
                    return self.not1(r);
                }
                Op::Ult => { let kk = self.kv(w, k + 1); let r = self.bin(Op::Ult, w, y, kk); return self.not1(r); }
                Op::Sle => { let kk = self.kv(w, k); let r = self.bin(Op::Slt, w, y, kk); return self.not1(r); }
                Op::Slt => { if k == all >> 1 { return Val::C(0); } let kk = self.kv(w, (k + 1) & all); let r = self.bin(Op::Slt, w, y, kk); return self.not1(r); }
                Op::Shl | Op::LShr | Op::AShr if k == 0 => return self.kv(w, 0),
                _ => { let _ = nb; }
            }
        }
        if let (Val::E(a), Val::E(b)) = (x, y) {
            let (na, nb) = (self.n(a), self.n(b));
            if matches!(op, Op::Eq | Op::Ult | Op::Ule) && na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                let iw = self.w(na.a);
                return self.bin(op, iw, self.fin(na.a), self.fin(nb.a));
            }
            if matches!(op, Op::Or) {
                // or(zext(x), concat(y, 0_k)) with disjoint bits -> concat
                let r = self.or_disjoint(a, b, w).or_else(|| self.or_disjoint(b, a, w));
                if let Some(r) = r { return r; }
            }
            if w == 1 {
                match op {
                    Op::And | Op::Or | Op::Xor => {
                        // x op not x
                        let is_not = |n: Node, o: E| n.op == Op::Xor && n.a == o && self.cval(n.b) == Some(1);
                        if is_not(na, b) || is_not(nb, a) { return Val::C(if op == Op::And { 0 } else { 1 }); }
                    }
                    _ => {}
                }
            }
            if op == Op::Sub && nb.op == Op::Add && nb.a == a { // a - (a + k) = -k
                if let Some(k) = self.cval(nb.b) { return self.kv(w, k.wrapping_neg() & all); }
            }
            if op == Op::Sub && na.op == Op::Add && na.a == b { return self.fin(na.b); }
        }
        let a = self.e(x, w);
        let b = self.e(y, w);
        if let Some(v) = self.fold(op, rw, a, b, 0, 0) { return v; }
        let e = self.mk(Node { op, w: rw as u16, a, b, c: 0 });
        Val::E(e)
    }
    fn or_disjoint(&mut self, a: E, b: E, w: u32) -> Option<Val> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt && nb.op == Op::Concat {
            let iw = self.w(na.a);
            let lw = self.w(nb.b);
            if self.cval(nb.b) == Some(0) && iw <= lw {
                let lo = self.zext(self.fin(na.a), iw, lw);
                return Some(self.concat(self.fin(nb.a), w - lw, lo, lw));
            }
        }
        None
    }
    fn kz(&self, _w: u32) -> Val { Val::C(0) }
    pub fn kv(&mut self, w: u32, v: u128) -> Val {
        if w <= 64 { Val::C(v as u64 & mask(w)) } else { Val::E(self.konst(w, v)) }
    }
    pub fn extract(&mut self, v: Val, lo: u32, n: u32, w: u32) -> Val {
        if n == w { return v; }
        match v {
            Val::C(x) => Val::C((x >> lo) & mask(n)),
            Val::E(e) => {
                if let Some(k) = self.cval(e) { return self.kv(n, k >> lo); }
                let nd = self.n(e);
                match nd.op {
                    Op::Extract => return self.extract(self.fin(nd.a), lo + nd.c, n, self.w(nd.a)),
                    Op::ZExt => {
                        let iw = self.w(nd.a);
                        if lo >= iw { return self.kv(n, 0); }
                        if lo + n <= iw { return self.extract(self.fin(nd.a), lo, n, iw); }
                        let p = self.extract(self.fin(nd.a), lo, iw - lo, iw);
                        return self.zext(p, iw - lo, n);
                    }
                    Op::SExt => {
                        let iw = self.w(nd.a);
                        if lo + n <= iw { return self.extract(self.fin(nd.a), lo, n, iw); }
                        if lo == 0 { return self.sext(self.fin(nd.a), iw, n); }
                    }
                    Op::Concat => {
                        let (wa, wb) = (self.w(nd.a), self.w(nd.b));
                        if lo >= wb { return self.extract(self.fin(nd.a), lo - wb, n, wa); }
                        if lo + n <= wb { return self.extract(self.fin(nd.b), lo, n, wb); }
                        let h = self.extract(self.fin(nd.a), 0, lo + n - wb, wa);
                        let l = self.extract(self.fin(nd.b), lo, wb - lo, wb);
                        return self.concat(h, lo + n - wb, l, wb - lo);
                    }
                    Op::Ite => {
                        if self.cval(nd.b).is_some() || self.cval(nd.c).is_some() {
                            let p = self.extract(self.fin(nd.b), lo, n, w);
                            let q = self.extract(self.fin(nd.c), lo, n, w);
                            return self.ite(self.fin(nd.a), p, q, n);
                        }
                    }
                    Op::And | Op::Or | Op::Xor => {
                        let p = self.extract(self.fin(nd.a), lo, n, w);
                        let q = self.extract(self.fin(nd.b), lo, n, w);
                        return self.bin(nd.op, n, p, q);
                    }
                    Op::Add | Op::Mul | Op::Sub if lo == 0 => {
                        let p = self.extract(self.fin(nd.a), lo, n, w);
                        let q = self.extract(self.fin(nd.b), lo, n, w);
                        return self.bin(nd.op, n, p, q);
                    }
                    _ => {}
                }
                let r = self.mk(Node { op: Op::Extract, w: n as u16, a: e, b: 0, c: lo });
                Val::E(r)
            }
        }
    }
    pub fn zext(&mut self, v: Val, fw: u32, tw: u32) -> Val {
        if fw == tw { return v; }
        match v {
            Val::C(x) => self.kv(tw, x as u128),
            Val::E(e) => {
                if let Some(k) = self.cval(e) { return self.kv(tw, k); }
                let n = self.n(e);
                if n.op == Op::ZExt { return self.zext(self.fin(n.a), self.w(n.a), tw); }
                if n.op == Op::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() && fw > 1 {
                    let p = self.zext(self.fin(n.b), fw, tw);
                    let q = self.zext(self.fin(n.c), fw, tw);
                    return self.ite(self.fin(n.a), p, q, tw);
                }
                Val::E(self.mk(Node { op: Op::ZExt, w: tw as u16, a: e, b: 0, c: 0 }))
            }
        }
    }
    pub fn sext(&mut self, v: Val, fw: u32, tw: u32) -> Val {
        if fw == tw { return v; }
        match v {
            Val::C(x) => self.kv(tw, sx(x, fw) as i128 as u128 & mask128(tw)),
            Val::E(e) => {
                if let Some(k) = self.cval(e) { return self.kv(tw, sx128(k, fw) as u128 & mask128(tw)); }
                let n = self.n(e);
                if n.op == Op::SExt { return self.sext(self.fin(n.a), self.w(n.a), tw); }
                if n.op == Op::ZExt { return self.zext(self.fin(n.a), self.w(n.a), tw); }
                if n.op == Op::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
                    let p = self.sext(self.fin(n.b), fw, tw);
                    let q = self.sext(self.fin(n.c), fw, tw);
                    return self.ite(self.fin(n.a), p, q, tw);
                }
                Val::E(self.mk(Node { op: Op::SExt, w: tw as u16, a: e, b: 0, c: 0 }))
            }
        }
    }
    /// hi:wh ++ lo:wl
    pub fn concat(&mut self, h: Val, wh: u32, l: Val, wl: u32) -> Val {
        if wh == 0 { return l; }
        if wl == 0 { return h; }
        let w = wh + wl;
        if let (Val::C(a), Val::C(b)) = (h, l) { return self.kv(w, ((a as u128) << wl) | b as u128); }
        let hk = match h { Val::C(x) => Some(x as u128), Val::E(e) => self.cval(e) };
        if hk == Some(0) { return self.zext(l, wl, w); }
        let (a, b) = (self.e(h, wh), self.e(l, wl));
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Extract {
            if nb.op == Op::Extract && nb.a == na.a && na.c == nb.c + wl { return self.extract(self.fin(na.a), nb.c, w, self.w(na.a)); }
            if nb.op == Op::Concat {
                let nc = self.n(nb.a);
                let wbb = self.w(nb.b);
                if nc.op == Op::Extract && nc.a == na.a && na.c == nc.c + (wl - wbb) {
                    let hh = self.extract(self.fin(na.a), nc.c, wh + wl - wbb, self.w(na.a));
                    return self.concat(hh, wh + wl - wbb, self.fin(nb.b), wbb);
                }
            }
            if na.a == b && na.c == wl && false { }
        }
        // extract(e, k..) over low part that is whole e's low bits when e == b's parent (w(e)==wl) not applicable
        if na.op == Op::Concat && nb.op == Op::Extract {
            // normalise to right-nested: concat(concat(x,y), z) -> concat(x, concat(y,z))
            let wy = self.w(na.b);
            let yz = self.concat(self.fin(na.b), wy, l, wl);
            return self.concat(self.fin(na.a), wh - wy, yz, wy + wl);
        }
        if let Some(v) = self.fold(Op::Concat, w, a, b, 0, 0) { return v; }
        Val::E(self.mk(Node { op: Op::Concat, w: w as u16, a, b, c: 0 }))
    }
    pub fn ite(&mut self, c: Val, a: Val, b: Val, w: u32) -> Val {
        let ce = match c { Val::C(x) => return if x & 1 == 1 { a } else { b }, Val::E(e) => e };
        if a == b { return a; }
        let nc = self.n(ce);
        if nc.op == Op::Xor && self.cval(nc.b) == Some(1) { return self.ite(self.fin(nc.a), b, a, w); }
        if w == 1 {
            match (a, b) {
                (Val::C(1), Val::C(0)) => return c,
                (Val::C(0), Val::C(1)) => return self.not1(c),
                (Val::C(1), _) => return self.bin(Op::Or, 1, c, b),
                (Val::C(0), _) => { let n = self.not1(c); return self.bin(Op::And, 1, n, b); }
                (_, Val::C(0)) => return self.bin(Op::And, 1, c, a),
                (_, Val::C(1)) => { let n = self.not1(c); return self.bin(Op::Or, 1, n, a); }
                _ => {}
            }
        }
        let (mut x, mut y) = (self.e(a, w), self.e(b, w));
        let nx = self.n(x);
        if nx.op == Op::Ite && nx.a == ce { x = nx.b; }
        let ny = self.n(y);
        if ny.op == Op::Ite && ny.a == ce { y = ny.c; }
        if x == y { return self.fin(x); }
        Val::E(self.mk(Node { op: Op::Ite, w: w as u16, a: ce, b: x, c: y }))
    }
    pub fn un(&mut self, op: Op, rw: u32, v: Val, fw: u32, aux: u32) -> Val {
        let a = self.e(v, fw);
        if let Some(r) = self.fold(op, rw, a, 0, 0, aux) { return r; }
        Val::E(self.mk(Node { op, w: rw as u16, a, b: 0, c: aux }))
    }
    /// table over one <=8-bit symbol
    pub fn lut(&mut self, sym: u32, w: u32, tab: Vec<u64>) -> Val {
        if tab.iter().all(|x| *x == tab[0]) { return Val::C(tab[0]); }
        let id = match self.lutmap.get(&(w, tab.clone())) {
            Some(i) => *i,
            None => { let i = self.luts.len() as u32; self.luts.push(Rc::new(tab.clone())); self.lutmap.insert((w, tab), i); i }
        };
        Val::E(self.mk(Node { op: Op::Lut, w: w as u16, a: sym, b: id, c: 0 }))
    }

    // ------------------------------------------------------------ evaluation
    pub fn eval(&self, e: E, model: &[u128]) -> u128 {
        let mut memo: FxMap<E, u128> = Default::default();
        self.eval_m(e, model, &mut memo)
    }
    pub fn eval_m(&self, e: E, model: &[u128], memo: &mut FxMap<E, u128>) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.cval(e).unwrap(),
            Op::Sym => return model.get(n.a as usize).cloned().unwrap_or(0),
            Op::Lut => { let x = model.get(n.a as usize).cloned().unwrap_or(0) as usize; return self.luts[n.b as usize][x.min(255)] as u128; }
            _ => {}
        }
        if let Some(v) = memo.get(&e) { return *v; }
        let k = Self::kids(&n);
        let a = self.eval_m(n.a, model, memo);
        let r = if n.op == Op::Ite {
            if a != 0 { self.eval_m(n.b, model, memo) } else { self.eval_m(n.c, model, memo) }
        } else {
            let b = if k > 1 { self.eval_m(n.b, model, memo) } else { 0 };
            let wb = if k > 1 { self.w(n.b) } else { 0 };
            Self::eval_op(n.op, n.w as u32, self.w(n.a), a, b, 0, n.c, wb)
        };
        memo.insert(e, r);
        r
    }
    /// values of a single-byte-symbol expression (width <= 64) for all 256 symbol values
    pub fn table(&mut self, e: E) -> Rc<Vec<u64>> {
        if let Some(t) = self.tts.get(&e) { return t.clone(); }
        let n = self.n(e);
        let mut out = vec![0u64; 256];
        match n.op {
            Op::Const => { let k = self.cval(e).unwrap() as u64; for o in out.iter_mut() { *o = k; } }
            Op::Sym => { let m = mask(n.w as u32) as usize; for i in 0..256 { out[i] = (i & m) as u64; } }
            Op::Lut => { out = (*self.luts[n.b as usize]).clone(); }
            _ => {
                let k = Self::kids(&n);
                let wide = n.w > 64 || self.w(n.a) > 64 || (k > 1 && self.w(n.b) > 64);
                if wide {
                    let s = self.varset(e)[0] as usize;
                    let mut model = vec![0u128; s + 1];
                    for i in 0..256 { model[s] = i as u128; out[i] = self.eval(e, &model) as u64; }
                } else {
                    let ta = self.table(n.a);
                    let tb = if k > 1 { Some(self.table(n.b)) } else { None };
                    let tc = if k > 2 { Some(self.table(n.c)) } else { None };
                    let wa = self.w(n.a);
                    let wb = if k > 1 { self.w(n.b) } else { 0 };
                    for i in 0..256 {
                        let a = ta[i] as u128;
                        let b = tb.as_ref().map(|t| t[i] as u128).unwrap_or(0);
                        let c = tc.as_ref().map(|t| t[i] as u128).unwrap_or(0);
                        out[i] = Self::eval_op(n.op, n.w as u32, wa, a, b, c, n.c, wb) as u64;
                    }
                }
            }
        }
        let r = Rc::new(out);
        self.tts.insert(e, r.clone());
        r
    }
    /// bitset of symbol values for which the 1-bit expression is true
    pub fn truth(&mut self, e: E) -> Rc<[u64; 4]> {
        if let Some(t) = self.bits.get(&e) { return t.clone(); }
        let t = self.table(e);
        let mut b = [0u64; 4];
        for i in 0..256 { if t[i] & 1 == 1 { b[i / 64] |= 1 << (i % 64); } }
        let r = Rc::new(b);
        self.bits.insert(e, r.clone());
        r
    }
    pub fn show(&self, e: E, d: usize) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}", self.cval(e).unwrap()),
            Op::Sym => format!("s{}", n.a),
            Op::Lut => format!("lut{}[s{}]", n.b, n.a),
            _ => {
                if d == 0 { return "..".into(); }
                let k = Self::kids(&n);
                let mut s = format!("({:?}:{} {}", n.op, n.w, self.show(n.a, d - 1));
                if k > 1 { s += " "; s += &self.show(n.b, d - 1); }
                if k > 2 { s += " "; s += &self.show(n.c, d - 1); }
                if k == 1 { s += &format!(" #{}", n.c); }
                s + ")"
            }
        }
    }
    pub fn nkids(n: &Node) -> usize { Self::kids(n) }
}
