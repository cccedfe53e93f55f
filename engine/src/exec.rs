// Symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub struct Frame {
    pub f: Rc<Func>,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
    pub ret_dst: u32,
}
impl Clone for Frame {
    fn clone(&self) -> Frame { Frame { f: self.f.clone(), pc: self.pc, regs: self.regs.clone(), allocas: self.allocas.clone(), ret_dst: self.ret_dst } }
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub general: Vec<E>,
    pub doms: Vec<[u64; 4]>, // per global symbol id
    pub ingen: Vec<bool>,
    pub model: Vec<u128>,
    pub inputs: Vec<u32>,
    pub trace: Vec<(u32, Val)>,
    pub ninstr: u64,
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub kind: String, // assert | panic | hang | overflow
    pub id: u64,
    pub loc: String,
    pub bt: Vec<String>,
    pub inputs: Vec<(u32, u128)>,
    pub trace: Vec<(u32, u64)>,
}

pub struct Sample {
    pub inputs: Vec<(u32, u128)>,
    pub trace: Vec<(u32, u64)>,
}

#[derive(PartialEq)]
enum Stop { Done, Panic(String), Assume, Hang, Overflow, Err(String), Exit }

enum Flow { Next, Redo, Stop(Stop) }

pub struct Limits { pub instr: u64, pub depth: usize, pub secs: f64, pub paths: u64, pub samples: usize, pub max_viol: usize }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hook { None, Panic, AllocErr }

pub struct Engine {
    pub m: Module,
    pub x: Ctx,
    pub z: Z3,
    funcs: Vec<Option<Rc<Func>>>,
    hooks: Vec<Hook>,
    pool: Vec<Vec<Val>>,
    work: Vec<State>,
    qcache: HashMap<Vec<E>, Option<Rc<Vec<(u32, u128)>>>>,
    pub lim: Limits,
    pub params: Vec<u64>,
    // results
    pub paths: u64,
    pub pruned: u64,
    pub forks: u64,
    pub instrs: u64,
    pub checks: BTreeMap<u64, (u64, u64)>, // id -> (reached, solver-discharged)
    pub reached: BTreeMap<u64, u64>,
    pub viols: Vec<Violation>,
    vseen: HashMap<String, usize>,
    pub errors: Vec<String>,
    pub incomplete: Option<String>,
    pub samples: Vec<Sample>,
    pub xcheck: u64,
    pub cachehits: u64,
    pub byte_decisions: u64,
    pub maxdepth: usize,
    pub max_path_instr: u64,
    pub conc: u64,
    pub trace_calls: bool,
    pub seed: u64,
    pub prof: HashMap<String, u64>,
    pub forkprof: HashMap<String, u64>,
    pub profiling: bool,
    pub leaves: Vec<Vec<E>>,
    leaf_atoms: usize,
    pub coverage: &'static str,
    pub xfull: u64,
    t0: Instant,
}

const LEAF_ATOMS: usize = 150000;
const ALL: [u64; 4] = [!0; 4];

impl Engine {
    pub fn new(path: &str, lim: Limits, timeout_ms: u32) -> Engine {
        let m = Module::load(path);
        let nf = m.funcs.len();
        let hooks = m.funcs.iter().map(|f| hook_of(&f.name)).collect();
        Engine { m, x: Ctx::new(), z: Z3::new(timeout_ms), funcs: vec![None; nf], hooks, pool: vec![], work: vec![], qcache: HashMap::new(), lim, params: vec![],
            paths: 0, pruned: 0, forks: 0, instrs: 0, checks: BTreeMap::new(), reached: BTreeMap::new(), viols: vec![], vseen: HashMap::new(), errors: vec![], incomplete: None,
            samples: vec![], xcheck: 0, cachehits: 0, byte_decisions: 0, maxdepth: 0, max_path_instr: 0, conc: 0, trace_calls: false, seed: 1, prof: HashMap::new(), forkprof: HashMap::new(), profiling: false, leaves: vec![], leaf_atoms: 0, coverage: "not run", xfull: 1500, t0: Instant::now() }
    }
    fn func(&mut self, i: usize) -> Rc<Func> {
        if let Some(f) = &self.funcs[i] { return f.clone(); }
        let f = Rc::new(self.m.decode(i));
        self.funcs[i] = Some(f.clone());
        f
    }
    pub fn functions_used(&self) -> Vec<String> {
        self.funcs.iter().flatten().map(|f| f.pretty.clone()).collect()
    }

    pub fn run(&mut self, entry: &str) {
        self.t0 = Instant::now();
        let mut mem = Mem::new(self.m.first_free_obj);
        for g in &self.m.globals {
            if let Some(d) = self.m.global_init(g) {
                mem.put(g.addr >> SH, Obj { data: d, sym: vec![], ro: g.constant, heap: false });
            } else {
                mem.put(g.addr >> SH, Obj { data: vec![0; 16], sym: vec![], ro: false, heap: false });
            }
        }
        let fi = match self.m.fmap.get(entry) { Some(f) => *f, None => { self.errors.push(format!("no entry {}", entry)); return; } };
        let f = self.func(fi);
        let regs = vec![Val::C(0); f.nregs];
        let st = State { top: Frame { f, pc: 0, regs, allocas: vec![], ret_dst: 0 }, stack: vec![], mem, pc: vec![], general: vec![], doms: vec![], ingen: vec![], model: vec![], inputs: vec![], trace: vec![], ninstr: 0 };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.lim.secs { self.incomplete = Some(format!("time limit after {} paths, {} pending", self.paths, self.work.len() + 1)); break; }
            if self.paths >= self.lim.paths { self.incomplete = Some(format!("path limit {}", self.paths)); break; }
            let stop = self.run_path(&mut st);
            self.instrs += 0;
            if st.ninstr > self.max_path_instr { self.max_path_instr = st.ninstr; }
            if !matches!(stop, Stop::Err(_)) { let pc = st.pc.clone(); self.leaf(pc); }
            match stop {
                Stop::Done | Stop::Exit => {
                    self.paths += 1;
                    if self.paths <= self.xfull || self.paths % 16 == 0 { self.cross_check(&st); }
                    self.sample(&st);
                }
                Stop::Panic(loc) => { self.paths += 1; if self.cross_check(&st) { let bt = self.bt(&st); self.violation("panic", 0, loc, bt, &st, None); } }
                Stop::Hang => { self.paths += 1; if self.cross_check(&st) { let bt = self.bt(&st); let loc = bt.iter().rev().take(200).last().cloned().unwrap_or_default(); let _ = loc; self.violation("hang", 0, "instruction budget exceeded".into(), bt, &st, None); } }
                Stop::Overflow => { self.paths += 1; if self.cross_check(&st) { let bt = self.bt(&st); self.violation("overflow", 0, "call depth exceeded".into(), bt, &st, None); } }
                Stop::Assume => self.pruned += 1,
                Stop::Err(e) => {
                    if e == "timeout" { self.incomplete = Some(format!("time limit after {} paths, {} pending", self.paths, self.work.len() + 1)); break; }
                    let bt = self.bt(&st); self.errors.push(format!("{} @ {}", e, bt.join(" < "))); if self.errors.len() > 20 { self.incomplete = Some("too many engine errors".into()); break; }
                }
            }
            if self.viols.len() >= self.lim.max_viol { self.incomplete = Some("violation limit".into()); break; }
        }
        // final query: no input within the bounds escapes the explored paths
        if self.incomplete.is_none() && self.errors.is_empty() {
            if self.leaf_atoms > LEAF_ATOMS { self.coverage = "too many paths for one query"; }
            else if self.leaves.iter().any(|l| l.is_empty()) { self.coverage = "concrete"; }
            else {
                let lv = std::mem::take(&mut self.leaves);
                self.coverage = match self.z.covered(&self.x, &lv, 20000) {
                    Res::Unsat => "unsat",
                    Res::Unknown => "unknown",
                    Res::Sat(_) => { self.errors.push("coverage query: some input is on no explored path".into()); "sat" }
                };
            }
        }
    }
    fn leaf(&mut self, pc: Vec<E>) {
        self.leaf_atoms += pc.len();
        if self.leaf_atoms <= LEAF_ATOMS { self.leaves.push(pc); }
    }
    fn bt(&self, st: &State) -> Vec<String> {
        let mut v = vec![st.top.f.pretty.clone()];
        for f in st.stack.iter().rev().take(12) { v.push(f.f.pretty.clone()); }
        v
    }
    fn cross_check(&mut self, st: &State) -> bool {
        if st.pc.is_empty() { return true; }
        // the solver confirms the whole path condition, independently of the byte-domain layer
        match self.z.check(&self.x, &st.pc) {
            Res::Sat(_) => { self.xcheck += 1; true }
            Res::Unsat => { self.errors.push("path condition refuted by solver (byte-domain layer disagrees)".into()); false }
            Res::Unknown => { self.errors.push("solver unknown on a path condition".into()); false }
        }
    }
    fn inputs_of(&self, st: &State, model: &[u128]) -> Vec<(u32, u128)> {
        st.inputs.iter().map(|s| (self.x.syms[*s as usize].w, model.get(*s as usize).cloned().unwrap_or(0))).collect()
    }
    fn trace_of(&self, st: &State, model: &[u128]) -> Vec<(u32, u64)> {
        st.trace.iter().map(|(t, v)| (*t, match v { Val::C(x) => *x, Val::E(e) => self.x.eval(*e, model) as u64 })).collect()
    }
    fn sample(&mut self, st: &State) {
        // deterministic reservoir over completed paths
        let s = Sample { inputs: self.inputs_of(st, &st.model), trace: self.trace_of(st, &st.model) };
        if self.samples.len() < self.lim.samples { self.samples.push(s); }
        else if self.lim.samples > 0 {
            self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let k = (self.seed >> 33) % self.paths.max(1);
            if (k as usize) < self.lim.samples { self.samples[k as usize] = s; }
        }
    }
    fn violation(&mut self, kind: &str, id: u64, loc: String, bt: Vec<String>, st: &State, model: Option<Vec<u128>>) {
        let key = format!("{}:{}:{}", kind, id, loc);
        let n = self.vseen.entry(key).or_insert(0);
        *n += 1;
        if *n > 3 { return; }
        let model = model.unwrap_or_else(|| st.model.clone());
        let v = Violation { kind: kind.into(), id, loc, bt, inputs: self.inputs_of(st, &model), trace: self.trace_of(st, &model) };
        self.viols.push(v);
    }

    // ------------------------------------------------------- constraints
    fn dom(&self, st: &State, s: u32) -> [u64; 4] {
        st.doms.get(s as usize).cloned().unwrap_or(ALL)
    }
    fn add(&mut self, st: &mut State, e: E) {
        st.pc.push(e);
        if let Some(s) = self.x.single(e) {
            let t = self.x.truth(e);
            while st.doms.len() <= s as usize { st.doms.push(ALL); }
            for i in 0..4 { st.doms[s as usize][i] &= t[i]; }
        } else {
            st.general.push(e);
            for s in self.x.varset(e).iter() {
                while st.ingen.len() <= *s as usize { st.ingen.push(false); }
                st.ingen[*s as usize] = true;
            }
        }
    }
    /// is `e` (1-bit) satisfiable together with the path condition? returns model changes
    fn sat(&mut self, st: &State, e: E) -> Result<Option<Vec<(u32, u128)>>, String> {
        if let Some(s) = self.x.single(e) {
            let t = self.x.truth(e);
            let d = self.dom(st, s);
            let mut first = None;
            for i in 0..256u32 { let k = (i / 64) as usize; if d[k] & t[k] & (1 << (i % 64)) != 0 { first = Some(i); break; } }
            let mw = self.x.syms[s as usize].w;
            match first {
                None => { self.byte_decisions += 1; return Ok(None); }
                Some(v) => if !st.ingen.get(s as usize).cloned().unwrap_or(false) { self.byte_decisions += 1; return Ok(Some(vec![(s, v as u128 & mask128(mw))])); }
            }
        }
        // slice
        let mut vars: HashSet<u32> = self.x.varset(e).iter().cloned().collect();
        let mut cons: Vec<E> = vec![e];
        let mut used = vec![false; st.general.len()];
        loop {
            let mut ch = false;
            for (i, g) in st.general.iter().enumerate() {
                if used[i] { continue; }
                let vs = self.x.varset(*g).clone();
                if vs.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    cons.push(*g);
                    for v in vs.iter() { vars.insert(*v); }
                }
            }
            if !ch { break; }
        }
        let mut vv: Vec<u32> = vars.into_iter().collect();
        vv.sort();
        for s in vv {
            if self.x.syms[s as usize].w <= 8 {
                let d = self.dom(st, s);
                if d != ALL {
                    let w = self.x.syms[s as usize].w;
                    let n = 1usize << w;
                    let tab: Vec<u64> = (0..256).map(|i| if i < n { (d[i / 64] >> (i % 64)) & 1 } else { 0 }).collect();
                    match self.x.lut(s, 1, tab) { Val::C(1) => {} Val::C(_) => return Ok(None), Val::E(k) => cons.push(k) }
                }
            }
        }
        cons.sort();
        cons.dedup();
        if let Some(r) = self.qcache.get(&cons) { self.cachehits += 1; return Ok(r.as_ref().map(|r| (**r).clone())); }
        let r = match self.z.check(&self.x, &cons) {
            Res::Sat(m) => Some(m),
            Res::Unsat => None,
            Res::Unknown => return Err("solver unknown/timeout".into()),
        };
        self.qcache.insert(cons, r.clone().map(Rc::new));
        Ok(r)
    }
    fn apply(st: &mut State, m: &[(u32, u128)]) {
        for (s, v) in m {
            while st.model.len() <= *s as usize { st.model.push(0); }
            st.model[*s as usize] = *v;
        }
    }
    fn holds(&self, st: &State, e: E) -> bool { self.x.eval(e, &st.model) & 1 == 1 }

    /// decide a symbolic condition; returns the direction to follow in `st`, queueing the other one.
    /// `st.top.pc` must still point at the deciding instruction; the queued state re-executes it.
    fn branch(&mut self, st: &mut State, c: E) -> Result<bool, String> {
        let here = self.holds(st, c);
        let cv = Val::E(c);
        let nc = self.x.not1(cv);
        let nce = self.x.e(nc, 1);
        let (mine, other) = if here { (c, nce) } else { (nce, c) };
        if let Some(m) = self.sat(st, other)? {
            self.forks += 1;
            if self.profiling { *self.forkprof.entry(st.top.f.pretty.clone()).or_insert(0) += 1; }
            let mut o = st.clone();
            self.add(&mut o, other);
            Self::apply(&mut o, &m);
            self.work.push(o);
            self.add(st, mine);
        }
        Ok(here)
    }
    /// fork until `v` has one value on this path
    fn concretize(&mut self, st: &mut State, v: Val, w: u32) -> Result<u64, String> {
        match v {
            Val::C(x) => Ok(x),
            Val::E(e) => {
                let k = self.x.eval(e, &st.model);
                let kv = self.x.kv(w, k);
                let eq = self.x.bin(Op::Eq, w, v, kv);
                if let Val::E(q) = eq {
                    self.conc += 1;
                    let r = self.branch(st, q)?;
                    debug_assert!(r);
                }
                Ok(k as u64)
            }
        }
    }

    // ------------------------------------------------------------ memory
    fn resolve(&self, st: &State, a: u64, n: usize) -> Result<usize, String> {
        match st.mem.get(a) {
            Some(o) => {
                let off = (a & ((1 << SH) - 1)) as usize;
                if off + n > o.data.len() { return Err(format!("out-of-bounds access {:#x} size {} of object size {}", a, n, o.data.len())); }
                Ok(off)
            }
            None => Err(format!("access to dead or invalid address {:#x}", a)),
        }
    }
    fn load(&mut self, st: &State, a: u64, w: u32) -> Result<Val, String> {
        let n = ((w + 7) / 8) as usize;
        let off = self.resolve(st, a, n)?;
        let o = st.mem.get(a).unwrap();
        if o.concrete(off, n) {
            if n <= 8 {
                let mut x = 0u64;
                for i in 0..n { x |= (o.data[off + i] as u64) << (8 * i); }
                return Ok(Val::C(x & mask(w)));
            }
            let mut x = 0u128;
            for i in 0..n { x |= (o.data[off + i] as u128) << (8 * i); }
            return Ok(self.x.kv(w, x & mask128(w)));
        }
        let o = o.clone();
        let mut acc = byte_of(&o, off);
        for i in 1..n {
            let b = byte_of(&o, off + i);
            acc = self.x.concat(b, 8, acc, 8 * i as u32);
        }
        Ok(self.x.extract(acc, 0, w, 8 * n as u32))
    }
    fn store(&mut self, st: &mut State, a: u64, v: Val, w: u32) -> Result<(), String> {
        let n = ((w + 7) / 8) as usize;
        let off = self.resolve(st, a, n)?;
        let v = if w % 8 != 0 { self.x.zext(v, w, 8 * n as u32) } else { v };
        let mut bytes: Vec<Val> = vec![];
        if let Val::E(_) = v {
            for i in 0..n { bytes.push(self.x.extract(v, 8 * i as u32, 8, 8 * n as u32)); }
        }
        let o = st.mem.get_mut(a).unwrap();
        if o.ro { return Err("store to constant".into()); }
        match v {
            Val::C(x) => {
                for i in 0..n { o.data[off + i] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 }; }
                if !o.sym.is_empty() { for i in 0..n { o.sym[off + i] = 0; } }
            }
            Val::E(_) => {
                for i in 0..n { set_byte(o, off + i, bytes[i]); }
            }
        }
        Ok(())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Result<(), String> {
        if n == 0 { return Ok(()); }
        let n = n as usize;
        let so = self.resolve(st, s, n)?;
        let dof = self.resolve(st, d, n)?;
        let src = st.mem.get(s).unwrap().clone();
        let o = st.mem.get_mut(d).unwrap();
        if o.ro { return Err("copy to constant".into()); }
        if !src.concrete(so, n) {
            if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
            o.sym[dof..dof + n].copy_from_slice(&src.sym[so..so + n]);
        } else if !o.sym.is_empty() {
            for k in &mut o.sym[dof..dof + n] { *k = 0; }
        }
        o.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        Ok(())
    }
    fn bytes_at(&self, st: &State, a: u64, n: u64) -> Result<Vec<Val>, String> {
        if n == 0 { return Ok(vec![]); }
        let off = self.resolve(st, a, n as usize)?;
        let o = st.mem.get(a).unwrap();
        Ok((0..n as usize).map(|i| byte_of(o, off + i)).collect())
    }
    fn cstr(&self, st: &State, a: u64, n: u64) -> String {
        match self.bytes_at(st, a, n.min(400)) {
            Ok(v) => v.iter().map(|b| match b { Val::C(x) => *x as u8 as char, Val::E(e) => (self.x.eval(*e, &st.model) as u8) as char }).collect(),
            Err(_) => String::new(),
        }
    }

    #[inline]
    fn v(&mut self, st: &State, o: Opd) -> Val {
        match o {
            Opd::R(r) => st.top.regs[r as usize],
            Opd::C(c) => Val::C(c),
            Opd::W(l, h) => Val::E(self.x.konst(128, (l as u128) | ((h as u128) << 64))),
        }
    }
    fn vw(&mut self, st: &State, o: Opd, w: u32) -> Val {
        let v = self.v(st, o);
        if w > 64 { if let Val::C(x) = v { return Val::E(self.x.konst(w, x as u128)); } }
        v
    }
    #[inline]
    fn jump(&mut self, st: &mut State, t: &Target) {
        match t.moves.len() {
            0 => {}
            1 => { let (d, o) = t.moves[0]; let v = self.v(st, o); st.top.regs[d as usize] = v; }
            _ => {
                let vals: Vec<Val> = t.moves.iter().map(|(_, o)| match *o { Opd::R(r) => st.top.regs[r as usize], Opd::C(c) => Val::C(c), Opd::W(l, h) => Val::E(self.x.konst(128, (l as u128) | ((h as u128) << 64))) }).collect();
                for (k, (d, _)) in t.moves.iter().enumerate() { st.top.regs[*d as usize] = vals[k]; }
            }
        }
        st.top.pc = t.pc;
    }

    fn run_path(&mut self, st: &mut State) -> Stop {
        let mut tick = 0u32;
        loop {
            let f = st.top.f.clone();
            // inner loop while the frame's function stays the same
            loop {
                let pc = st.top.pc as usize;
                let ins = &f.ins[pc];
                st.ninstr += 1;
                self.instrs += 1;
                tick += 1;
                if tick >= 100_000 {
                    tick = 0;
                    if st.ninstr > self.lim.instr { return Stop::Hang; }
                    if self.profiling { *self.prof.entry(f.pretty.clone()).or_insert(0) += 1; }
                    if self.t0.elapsed().as_secs_f64() > self.lim.secs { return Stop::Err("timeout".into()); }
                }
                match self.step(st, ins) {
                    Ok(Flow::Next) => {}
                    Ok(Flow::Redo) => { break; } // frame changed
                    Ok(Flow::Stop(s)) => return s,
                    Err(e) => return Stop::Err(e),
                }
            }
        }
    }

    fn binop(&mut self, op: BinOp, w: u32, a: Val, b: Val) -> Result<Val, String> {
        if w <= 64 {
            if let (Val::C(x), Val::C(y)) = (a, b) {
                let m = mask(w);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                    BinOp::Shl => if y >= w as u64 { 0 } else { x << y },
                    BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                    BinOp::AShr => (sx(x, w) >> y.min(63)) as u64,
                    BinOp::UDiv => { if y == 0 { return Err("udiv by zero".into()); } x / y }
                    BinOp::URem => { if y == 0 { return Err("urem by zero".into()); } x % y }
                    BinOp::SDiv => { if y == 0 { return Err("sdiv by zero".into()); } sx(x, w).wrapping_div(sx(y, w)) as u64 }
                    BinOp::SRem => { if y == 0 { return Err("srem by zero".into()); } sx(x, w).wrapping_rem(sx(y, w)) as u64 }
                    _ => {
                        if w == 64 {
                            let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                            (match op { BinOp::FAdd => p + q, BinOp::FSub => p - q, BinOp::FMul => p * q, BinOp::FDiv => p / q, _ => p % q }).to_bits()
                        } else {
                            let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match op { BinOp::FAdd => p + q, BinOp::FSub => p - q, BinOp::FMul => p * q, BinOp::FDiv => p / q, _ => p % q }).to_bits() as u64
                        }
                    }
                };
                return Ok(Val::C(r & m));
            }
        }
        let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem,
            BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr,
            BinOp::FAdd => Op::FAdd, BinOp::FSub => Op::FSub, BinOp::FMul => Op::FMul, BinOp::FDiv => Op::FDiv, BinOp::FRem => Op::FRem };
        Ok(self.x.bin(o, w, a, b))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: Val, b: Val) -> Val {
        if w <= 64 {
            if let (Val::C(x), Val::C(y)) = (a, b) {
                let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                    Pred::Sgt => sx(x, w) > sx(y, w), Pred::Sge => sx(x, w) >= sx(y, w), Pred::Slt => sx(x, w) < sx(y, w), Pred::Sle => sx(x, w) <= sx(y, w) };
                return Val::C(r as u64);
            }
        }
        match p {
            Pred::Eq => self.x.bin(Op::Eq, w, a, b),
            Pred::Ne => { let r = self.x.bin(Op::Eq, w, a, b); self.x.not1(r) }
            Pred::Ult => self.x.bin(Op::Ult, w, a, b),
            Pred::Ule => self.x.bin(Op::Ule, w, a, b),
            Pred::Ugt => self.x.bin(Op::Ult, w, b, a),
            Pred::Uge => self.x.bin(Op::Ule, w, b, a),
            Pred::Slt => self.x.bin(Op::Slt, w, a, b),
            Pred::Sle => self.x.bin(Op::Sle, w, a, b),
            Pred::Sgt => self.x.bin(Op::Slt, w, b, a),
            Pred::Sge => self.x.bin(Op::Sle, w, b, a),
        }
    }
    fn fcmp(&mut self, p: u8, w: u32, a: Val, b: Val) -> Result<Val, String> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = if w == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
            let r = if x.is_nan() || y.is_nan() { p & 8 != 0 } else if x == y { p & 1 != 0 } else if x > y { p & 2 != 0 } else { p & 4 != 0 };
            return Ok(Val::C(r as u64));
        }
        if w != 64 { return Err("symbolic f32".into()); }
        let x = &mut self.x;
        Ok(match p {
            0 => Val::C(0),
            1 => x.bin(Op::FEq, 64, a, b),
            2 => x.bin(Op::FLt, 64, b, a),
            3 => x.bin(Op::FLe, 64, b, a),
            4 => x.bin(Op::FLt, 64, a, b),
            5 => x.bin(Op::FLe, 64, a, b),
            6 => { let l = x.bin(Op::FLt, 64, a, b); let g = x.bin(Op::FLt, 64, b, a); x.bin(Op::Or, 1, l, g) }
            7 => { let u = x.bin(Op::FUno, 64, a, b); x.not1(u) }
            8 => x.bin(Op::FUno, 64, a, b),
            9 => { let l = x.bin(Op::FLt, 64, a, b); let g = x.bin(Op::FLt, 64, b, a); let r = x.bin(Op::Or, 1, l, g); x.not1(r) }
            10 => { let r = x.bin(Op::FLe, 64, a, b); x.not1(r) }
            11 => { let r = x.bin(Op::FLt, 64, a, b); x.not1(r) }
            12 => { let r = x.bin(Op::FLe, 64, b, a); x.not1(r) }
            13 => { let r = x.bin(Op::FLt, 64, b, a); x.not1(r) }
            14 => { let r = x.bin(Op::FEq, 64, a, b); x.not1(r) }
            _ => Val::C(1),
        })
    }

    #[inline(always)]
    fn set(&mut self, st: &mut State, d: u32, v: Val) { st.top.regs[d as usize] = v; }

    fn step(&mut self, st: &mut State, ins: &Ins) -> Result<Flow, String> {
        match ins {
            Ins::Bin { op, w, dst, a, b } => {
                let x = self.vw(st, *a, *w);
                let y = self.vw(st, *b, *w);
                let r = self.binop(*op, *w, x, y)?;
                self.set(st, *dst, r);
            }
            Ins::Icmp { p, w, dst, a, b } => {
                let x = self.vw(st, *a, *w);
                let y = self.vw(st, *b, *w);
                let r = self.icmp(*p, *w, x, y);
                self.set(st, *dst, r);
            }
            Ins::CondBr { c, t, f } => {
                let v = self.v(st, *c);
                let b = match v { Val::C(x) => x & 1 == 1, Val::E(e) => self.branch(st, e)? };
                self.jump(st, if b { t } else { f });
                return Ok(Flow::Next);
            }
            Ins::Br(t) => { self.jump(st, t); return Ok(Flow::Next); }
            Ins::Load { dst, ptr, leaves } => {
                let p = self.v(st, *ptr);
                match p {
                    Val::C(a) => for (k, (o, s)) in leaves.iter().enumerate() {
                        let v = self.load(st, a.wrapping_add(*o), s.w())?;
                        self.set(st, *dst + k as u32, v);
                    },
                    Val::E(e) => {
                        if let Some(vals) = self.lut_load(st, e, leaves)? {
                            for (k, v) in vals.into_iter().enumerate() { self.set(st, *dst + k as u32, v); }
                        } else {
                            let a = self.concretize(st, p, 64)?;
                            for (k, (o, s)) in leaves.iter().enumerate() {
                                let v = self.load(st, a.wrapping_add(*o), s.w())?;
                                self.set(st, *dst + k as u32, v);
                            }
                        }
                    }
                }
            }
            Ins::Store { ptr, vals } => {
                let p = self.v(st, *ptr);
                let a = self.concretize(st, p, 64)?;
                for (o, s, v) in vals.iter() {
                    let x = self.vw(st, *v, s.w());
                    self.store(st, a.wrapping_add(*o), x, s.w())?;
                }
            }
            Ins::Gep { dst, base, off, terms } => {
                let b = self.v(st, *base);
                let mut r = match b { Val::C(x) => Val::C(x.wrapping_add(*off as u64)), e => if *off != 0 { self.x.bin(Op::Add, 64, e, Val::C(*off as u64)) } else { e } };
                for (o, w, sc) in terms.iter() {
                    let v = self.v(st, *o);
                    let t = match v {
                        Val::C(x) => Val::C((sx(x, *w)).wrapping_mul(*sc) as u64),
                        e => { let e64 = self.x.sext(e, *w, 64); self.x.bin(Op::Mul, 64, e64, Val::C(*sc as u64)) }
                    };
                    r = match (r, t) { (Val::C(x), Val::C(y)) => Val::C(x.wrapping_add(y)), (x, y) => self.x.bin(Op::Add, 64, x, y) };
                }
                self.set(st, *dst, r);
            }
            Ins::Cast { op, dst, a, fw, tw } => {
                let v = self.vw(st, *a, *fw);
                let r = match op {
                    CastOp::Move => v,
                    CastOp::Zext => self.x.zext(v, *fw, *tw),
                    CastOp::Sext => self.x.sext(v, *fw, *tw),
                    CastOp::Trunc => self.x.extract(v, 0, *tw, *fw),
                    CastOp::SiToFp => self.x.un(Op::SiToF, *tw, v, *fw, 0),
                    CastOp::UiToFp => self.x.un(Op::UiToF, *tw, v, *fw, 0),
                    CastOp::FpToSi => self.x.un(Op::FToSiSat, *tw, v, *fw, 0),
                    CastOp::FpToUi => self.x.un(Op::FToUiSat, *tw, v, *fw, 0),
                    CastOp::FpTrunc => self.x.un(Op::F64To32, 32, v, 64, 0),
                    CastOp::FpExt => self.x.un(Op::F32To64, 64, v, 32, 0),
                };
                self.set(st, *dst, r);
            }
            Ins::Select { dst, c, a, b, w } => {
                let cv = self.v(st, *c);
                let x = self.vw(st, *a, *w);
                let y = self.vw(st, *b, *w);
                let r = match cv { Val::C(k) => if k & 1 == 1 { x } else { y }, _ => self.x.ite(cv, x, y, *w) };
                self.set(st, *dst, r);
            }
            Ins::Moves(mv) => {
                if mv.len() == 1 { let (d, o) = mv[0]; let v = self.v(st, o); self.set(st, d, v); }
                else {
                    let vals: Vec<Val> = mv.iter().map(|(_, o)| *o).map(|o| self.v(st, o)).collect();
                    for (k, (d, _)) in mv.iter().enumerate() { self.set(st, *d, vals[k]); }
                }
            }
            Ins::Alloca { dst, size, n } => {
                let nn = self.v(st, *n);
                let nn = self.concretize(st, nn, 64)?;
                let a = st.mem.alloc(size * nn, false);
                st.top.allocas.push(a);
                self.set(st, *dst, Val::C(a));
            }
            Ins::Call { dst, leaves, callee, args, argw, normal } => {
                return self.call(st, *dst, leaves, callee, args, argw, normal.as_ref());
            }
            Ins::Ret(vs) => {
                let vals: Vec<Val> = vs.iter().map(|o| *o).map(|o| self.v(st, o)).collect();
                return self.ret(st, &vals);
            }
            Ins::Switch { v, w, cases, def } => {
                let x = self.v(st, *v);
                match x {
                    Val::C(k) => {
                        for (c, t) in cases.iter() { if *c == k { self.jump(st, t); return Ok(Flow::Next); } }
                        self.jump(st, def);
                        return Ok(Flow::Next);
                    }
                    Val::E(e) => {
                        // follow the model's case; queue one state for everything else
                        let k = self.x.eval(e, &st.model) as u64;
                        let hit = cases.iter().position(|(c, _)| *c == k);
                        let tgt = match hit { Some(i) => &cases[i].1, None => def };
                        // condition for this target (several cases may share it)
                        let mut cond = Val::C(0);
                        let isdef = hit.is_none() || tgt.pc == def.pc && tgt.moves == def.moves;
                        for (c, t) in cases.iter() {
                            let same = t.pc == tgt.pc && t.moves == tgt.moves;
                            if same != isdef {
                                let q = self.x.bin(Op::Eq, *w, x, Val::C(*c));
                                cond = self.x.bin(Op::Or, 1, cond, q);
                            }
                        }
                        if isdef { cond = self.x.not1(cond); }
                        if let Val::E(ce) = cond { let r = self.branch(st, ce)?; debug_assert!(r); }
                        self.jump(st, tgt);
                        return Ok(Flow::Next);
                    }
                }
            }
            Ins::Fcmp { p, w, dst, a, b } => {
                let x = self.v(st, *a);
                let y = self.v(st, *b);
                let r = self.fcmp(*p, *w, x, y)?;
                self.set(st, *dst, r);
            }
            Ins::FNeg { w, dst, a } => {
                let x = self.v(st, *a);
                let r = self.x.bin(Op::Xor, *w, x, Val::C(1u64 << (*w - 1)));
                self.set(st, *dst, r);
            }
            Ins::Pack { dst, parts, pw } => {
                let mut acc = self.v(st, parts[0]);
                let mut w = *pw;
                for p in parts.iter().skip(1) {
                    let v = self.v(st, *p);
                    acc = self.x.concat(v, *pw, acc, w);
                    w += *pw;
                }
                self.set(st, *dst, acc);
            }
            Ins::Unpack { dst, a, fw, n, pw } => {
                let v = self.vw(st, *a, *fw);
                for i in 0..*n { let r = self.x.extract(v, i * pw, *pw, *fw); self.set(st, *dst + i, r); }
            }
            Ins::Dyn { dst, idx, parts, w } => {
                let _ = w;
                let i = self.v(st, *idx);
                let i = self.concretize(st, i, 64)?;
                let v = self.v(st, parts[i as usize % parts.len()]);
                self.set(st, *dst, v);
            }
            Ins::Rmw { op, dst, ptr, v, w } => {
                let p = self.v(st, *ptr);
                let a = self.concretize(st, p, 64)?;
                let old = self.load(st, a, *w)?;
                let x = self.v(st, *v);
                let new = match op { 0 => x, 1 => self.x.bin(Op::Add, *w, old, x), 2 => self.x.bin(Op::Sub, *w, old, x), 3 => self.x.bin(Op::And, *w, old, x), 4 => self.x.bin(Op::Or, *w, old, x), _ => self.x.bin(Op::Xor, *w, old, x) };
                self.store(st, a, new, *w)?;
                self.set(st, *dst, old);
            }
            Ins::CmpXchg { dst, ptr, cmp, new, w } => {
                let p = self.v(st, *ptr);
                let a = self.concretize(st, p, 64)?;
                let old = self.load(st, a, *w)?;
                let c = self.v(st, *cmp);
                let n = self.v(st, *new);
                let eq = self.x.bin(Op::Eq, *w, old, c);
                let nv = self.x.ite(eq, n, old, *w);
                self.store(st, a, nv, *w)?;
                self.set(st, *dst, old);
                self.set(st, *dst + 1, eq);
            }
            Ins::Unreachable => return Err("reached unreachable".into()),
            Ins::Nop => {}
        }
        st.top.pc += 1;
        Ok(Flow::Next)
    }

    /// load through a pointer that depends on one byte symbol, from concrete memory: table expression
    fn lut_load(&mut self, st: &State, e: E, leaves: &[(u64, ST)]) -> Result<Option<Vec<Val>>, String> {
        let s = match self.x.single(e) { Some(s) => s, None => return Ok(None) };
        let t = self.x.table(e);
        let d = self.dom(st, s);
        let w = self.x.syms[s as usize].w;
        let n = 1usize << w;
        let mut tabs: Vec<Vec<u64>> = vec![vec![0; 256]; leaves.len()];
        let mut first: Option<usize> = None;
        for i in 0..n {
            if d[i / 64] >> (i % 64) & 1 == 0 { continue; }
            for (k, (o, lt)) in leaves.iter().enumerate() {
                if lt.w() > 64 { return Ok(None); }
                let a = t[i].wrapping_add(*o);
                let nb = ((lt.w() + 7) / 8) as usize;
                let obj = match st.mem.get(a) { Some(o) => o, None => return Ok(None) };
                let off = (a & ((1 << SH) - 1)) as usize;
                if off + nb > obj.data.len() || !obj.concrete(off, nb) { return Ok(None); }
                let mut x = 0u64;
                for j in 0..nb { x |= (obj.data[off + j] as u64) << (8 * j); }
                tabs[k][i] = x & mask(lt.w());
            }
            if first.is_none() { first = Some(i); }
        }
        let first = match first { Some(f) => f, None => return Ok(None) };
        let mut out = vec![];
        for (k, (_, lt)) in leaves.iter().enumerate() {
            let dflt = tabs[k][first];
            for i in 0..256 { if i >= n || d[i / 64] >> (i % 64) & 1 == 0 { tabs[k][i] = dflt; } }
            // pointers through tables would only fork later; keep scalar tables
            let v = self.x.lut(s, lt.w(), tabs[k].clone());
            out.push(v);
        }
        Ok(Some(out))
    }

    fn ret(&mut self, st: &mut State, vals: &[Val]) -> Result<Flow, String> {
        let al = std::mem::take(&mut st.top.allocas);
        for a in al { st.mem.free(a); }
        match st.stack.pop() {
            None => Ok(Flow::Stop(Stop::Done)),
            Some(fr) => {
                let fr = match Rc::try_unwrap(fr) { Ok(f) => f, Err(r) => (*r).clone() };
                let old = std::mem::replace(&mut st.top, fr);
                let dst = old.ret_dst;
                if self.pool.len() < 64 { self.pool.push(old.regs); }
                for (k, v) in vals.iter().enumerate() { st.top.regs[dst as usize + k] = *v; }
                // caller pc points at the call; advance
                let f = st.top.f.clone();
                if let Ins::Call { normal: Some(t), .. } = &f.ins[st.top.pc as usize] { self.jump(st, t); } else { st.top.pc += 1; }
                Ok(Flow::Redo)
            }
        }
    }
    fn finish_call(&mut self, st: &mut State, normal: Option<&Target>) -> Result<Flow, String> {
        match normal { Some(t) => self.jump(st, t), None => st.top.pc += 1 }
        Ok(Flow::Next)
    }

    fn call(&mut self, st: &mut State, dst: u32, leaves: &Rc<Vec<ST>>, callee: &Callee, args: &[Opd], argw: &[u32], normal: Option<&Target>) -> Result<Flow, String> {
        let fi = match callee {
            Callee::Direct(i) => *i,
            Callee::Ext(n) => {
                let n = n.clone();
                return self.external(st, dst, leaves, &n, args, argw, normal);
            }
            Callee::Ind(o) => {
                let v = self.v(st, *o);
                let a = self.concretize(st, v, 64)?;
                match self.m.faddr.get(&a) {
                    Some(i) => *i,
                    None => match self.m.ext_addr.get(&a).cloned() {
                        Some(n) => return self.external(st, dst, leaves, &n, args, argw, normal),
                        None => return Err(format!("indirect call to {:#x}", a)),
                    },
                }
            }
        };
        let vals: Vec<Val> = { let mut v = Vec::with_capacity(args.len()); for (k, o) in args.iter().enumerate() { v.push(self.vw(st, *o, argw[k])); } v };
        if self.hooks[fi] != Hook::None {
            let nm = self.m.funcs[fi].name.clone();
            let loc = self.find_loc(st, &vals);
            return Ok(Flow::Stop(Stop::Panic(format!("{} [{}]", loc, short(&nm)))));
        }
        if st.stack.len() >= self.lim.depth { return Ok(Flow::Stop(Stop::Overflow)); }
        let f = self.func(fi);
        if f.is_hash {
            // hashing is done on concrete keys only: fork over the key's values
            if self.concretize_slices(st, &vals)? { /* same path continues with concrete bytes */ }
        }
        let mut regs = self.pool.pop().unwrap_or_default();
        regs.clear();
        regs.resize(f.nregs, Val::C(0));
        for (k, (slot, _)) in f.params.iter().enumerate() { if k < vals.len() { regs[*slot as usize] = vals[k]; } }
        let fr = Frame { f, pc: 0, regs, allocas: vec![], ret_dst: dst };
        let old = std::mem::replace(&mut st.top, fr);
        st.stack.push(Rc::new(old));
        if st.stack.len() > self.maxdepth { self.maxdepth = st.stack.len(); }
        if self.trace_calls { eprintln!("{:>width$}{}", "", st.top.f.pretty.clone(), width = st.stack.len()); }
        Ok(Flow::Redo)
    }
    fn concretize_slices(&mut self, st: &mut State, vals: &[Val]) -> Result<bool, String> {
        let mut any = false;
        for k in 0..vals.len() {
            if let Val::C(a) = vals[k] {
                if let Some(o) = st.mem.get(a) {
                    let o = o.clone();
                    let off = (a & ((1 << SH) - 1)) as usize;
                    let n = match vals.get(k + 1) { Some(Val::C(n)) if off + *n as usize <= o.data.len() => *n as usize, _ => continue };
                    if n > 64 || o.concrete(off, n) { continue; }
                    for i in 0..n {
                        let b = byte_of(&o, off + i);
                        let c = self.concretize(st, b, 8)?;
                        self.store(st, a + i as u64, Val::C(c), 8)?;
                        any = true;
                    }
                }
            }
        }
        Ok(any)
    }
    fn find_loc(&self, st: &State, vals: &[Val]) -> String {
        let rd = |a: u64, n: u32| -> Option<u64> {
            let o = st.mem.get(a)?;
            let off = (a & ((1 << SH) - 1)) as usize;
            if off + n as usize > o.data.len() { return None; }
            let mut x = 0u64;
            for i in 0..n as usize { x |= (o.data[off + i] as u64) << (8 * i); }
            Some(x)
        };
        for v in vals.iter().rev() {
            if let Val::C(a) = v {
                if let (Some(p), Some(n), Some(l), Some(c)) = (rd(*a, 8), rd(a + 8, 8), rd(a + 16, 4), rd(a + 20, 4)) {
                    if n > 3 && n < 300 {
                        let s = self.cstr(st, p, n);
                        if s.ends_with(".rs") { return format!("{}:{}:{}", s, l, c); }
                    }
                }
            }
        }
        "?".into()
    }

    fn external(&mut self, st: &mut State, dst: u32, leaves: &Rc<Vec<ST>>, name: &str, args: &[Opd], argw: &[u32], normal: Option<&Target>) -> Result<Flow, String> {
        let mut a: Vec<Val> = Vec::with_capacity(args.len());
        for (k, o) in args.iter().enumerate() { let v = self.vw(st, *o, argw[k]); a.push(v); }
        let rw = leaves.get(0).map(|s| s.w()).unwrap_or(0);
        if let Some(r) = name.strip_prefix("llvm.") {
            let base = r.split('.').next().unwrap();
            // scalar / vector intrinsics operate lane by lane
            let lanes = leaves.len();
            match base {
                "memcpy" | "memmove" => {
                    let d = self.concretize(st, a[0], 64)?;
                    let s = self.concretize(st, a[1], 64)?;
                    let n = self.concretize(st, a[2], argw[2])?;
                    self.copy(st, d, s, n)?;
                }
                "memset" => {
                    let d = self.concretize(st, a[0], 64)?;
                    let n = self.concretize(st, a[2], argw[2])?;
                    if n > 0 {
                        let off = self.resolve(st, d, n as usize)?;
                        let o = st.mem.get_mut(d).unwrap();
                        for i in 0..n as usize { set_byte(o, off + i, a[1]); }
                    }
                }
                "trap" | "ubsantrap" => return Ok(Flow::Stop(Stop::Panic("trap".into()))),
                "sadd" | "uadd" | "ssub" | "usub" | "smul" | "umul" | "sshl" | "ushl" => {
                    let w = argw[0];
                    if r.contains(".with.overflow") {
                        let (op, ov) = match base { "sadd" => (Op::Add, Op::SAddO), "ssub" => (Op::Sub, Op::SSubO), "smul" => (Op::Mul, Op::SMulO), "umul" => (Op::Mul, Op::UMulO), "uadd" => (Op::Add, Op::Ult), "usub" => (Op::Sub, Op::Ult), _ => return Err(name.into()) };
                        let v = self.x.bin(op, w, a[0], a[1]);
                        let o = match base { "uadd" => self.x.bin(Op::Ult, w, v, a[0]), "usub" => self.x.bin(Op::Ult, w, a[0], a[1]), _ => self.x.bin(ov, w, a[0], a[1]) };
                        self.set(st, dst, v);
                        self.set(st, dst + 1, o);
                    } else if r.contains(".sat") {
                        for l in 0..lanes {
                            let (p, q) = (a[l], a[lanes + l]);
                            let w = argw[l];
                            let v = match base {
                                "uadd" => { let s = self.x.bin(Op::Add, w, p, q); let o = self.x.bin(Op::Ult, w, s, p); let m = self.x.kv(w, mask128(w)); self.x.ite(o, m, s, w) }
                                "usub" => { let s = self.x.bin(Op::Sub, w, p, q); let o = self.x.bin(Op::Ult, w, p, q); let z = self.x.kv(w, 0); self.x.ite(o, z, s, w) }
                                "sadd" | "ssub" => {
                                    let (op, ov) = if base == "sadd" { (Op::Add, Op::SAddO) } else { (Op::Sub, Op::SSubO) };
                                    let s = self.x.bin(op, w, p, q);
                                    let o = self.x.bin(ov, w, p, q);
                                    let z = self.x.kv(w, 0);
                                    let neg = self.x.bin(Op::Slt, w, p, z);
                                    let lo = self.x.kv(w, 1u128 << (w - 1));
                                    let hi = self.x.kv(w, (1u128 << (w - 1)) - 1);
                                    let m = self.x.ite(neg, lo, hi, w);
                                    self.x.ite(o, m, s, w)
                                }
                                _ => return Err(name.into()),
                            };
                            self.set(st, dst + l as u32, v);
                        }
                    } else { return Err(format!("intrinsic {}", name)); }
                }
                "umin" | "umax" | "smin" | "smax" => for l in 0..lanes {
                    let (p, q) = (a[l], a[lanes + l]);
                    let w = argw[l];
                    let c = self.x.bin(if base.starts_with('u') { Op::Ult } else { Op::Slt }, w, p, q);
                    let v = if base.ends_with("min") { self.x.ite(c, p, q, w) } else { self.x.ite(c, q, p, w) };
                    self.set(st, dst + l as u32, v);
                },
                "abs" => {
                    let w = argw[0];
                    let z = self.x.kv(w, 0);
                    let n = self.x.bin(Op::Sub, w, z, a[0]);
                    let c = self.x.bin(Op::Slt, w, a[0], z);
                    let v = self.x.ite(c, n, a[0], w);
                    self.set(st, dst, v);
                }
                "scmp" | "ucmp" => {
                    let w = argw[0];
                    let op = if base == "scmp" { Op::Slt } else { Op::Ult };
                    let lt = self.x.bin(op, w, a[0], a[1]);
                    let gt = self.x.bin(op, w, a[1], a[0]);
                    let m1 = self.x.kv(rw, mask128(rw));
                    let one = self.x.kv(rw, 1);
                    let z = self.x.kv(rw, 0);
                    let r1 = self.x.ite(gt, one, z, rw);
                    let v = self.x.ite(lt, m1, r1, rw);
                    self.set(st, dst, v);
                }
                "ctpop" | "ctlz" | "cttz" => {
                    let op = match base { "ctpop" => Op::Popcnt, "ctlz" => Op::Ctlz, _ => Op::Cttz };
                    let v = self.x.un(op, rw, a[0], argw[0], 0);
                    self.set(st, dst, v);
                }
                "bswap" => {
                    let w = argw[0];
                    let n = w / 8;
                    let mut acc = self.x.extract(a[0], w - 8, 8, w);
                    for i in 1..n { let b = self.x.extract(a[0], w - 8 * (i + 1), 8, w); acc = self.x.concat(b, 8, acc, 8 * i); }
                    self.set(st, dst, acc);
                }
                "bitreverse" => {
                    let w = argw[0];
                    let mut acc = self.x.extract(a[0], w - 1, 1, w);
                    for i in 1..w { let b = self.x.extract(a[0], w - 1 - i, 1, w); acc = self.x.concat(b, 1, acc, i); }
                    self.set(st, dst, acc);
                }
                "fshl" | "fshr" => {
                    let w = argw[0];
                    let s = self.x.bin(Op::URem, w, a[2], Val::C(w as u64));
                    let ws = self.x.bin(Op::Sub, w, Val::C(w as u64), s);
                    let v = if base == "fshl" { let h = self.x.bin(Op::Shl, w, a[0], s); let l = self.x.bin(Op::LShr, w, a[1], ws); self.x.bin(Op::Or, w, h, l) }
                        else { let h = self.x.bin(Op::Shl, w, a[0], ws); let l = self.x.bin(Op::LShr, w, a[1], s); self.x.bin(Op::Or, w, h, l) };
                    self.set(st, dst, v);
                }
                "fabs" => { let v = self.x.bin(Op::And, rw, a[0], Val::C(mask(rw) >> 1)); self.set(st, dst, v); }
                "copysign" => {
                    let m = self.x.bin(Op::And, rw, a[0], Val::C(mask(rw) >> 1));
                    let s = self.x.bin(Op::And, rw, a[1], Val::C(1u64 << (rw - 1)));
                    let v = self.x.bin(Op::Or, rw, m, s);
                    self.set(st, dst, v);
                }
                "floor" | "ceil" | "trunc" | "rint" | "nearbyint" | "roundeven" | "round" => {
                    let k = match base { "floor" => 0, "ceil" => 1, "trunc" => 2, "round" => 4, _ => 3 };
                    let v = self.x.un(Op::FRnd, 64, a[0], 64, k);
                    self.set(st, dst, v);
                }
                "sqrt" => { let v = self.x.un(Op::FSqrt, 64, a[0], 64, 0); self.set(st, dst, v); }
                "fptosi" | "fptoui" => {
                    let v = self.x.un(if base == "fptosi" { Op::FToSiSat } else { Op::FToUiSat }, rw, a[0], argw[0], 0);
                    self.set(st, dst, v);
                }
                "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                    let lt = if base.starts_with("min") { self.fcmp(4, 64, a[0], a[1])? } else { self.fcmp(4, 64, a[1], a[0])? };
                    let an = self.fcmp(8, 64, a[0], a[0])?;
                    let bn = self.fcmp(8, 64, a[1], a[1])?;
                    let r0 = self.x.ite(lt, a[0], a[1], 64);
                    let r1 = self.x.ite(an, a[1], r0, 64);
                    let v = self.x.ite(bn, a[0], r1, 64);
                    self.set(st, dst, v);
                }
                "is" => { // is.constant / is.fpclass
                    if r.starts_with("is.constant") { self.set(st, dst, Val::C(0)); }
                    else if r.starts_with("is.fpclass") {
                        let k = match a[1] { Val::C(k) => k, _ => return Err("fpclass".into()) };
                        let v = self.fpclass(a[0], k);
                        self.set(st, dst, v);
                    } else { return Err(format!("intrinsic {}", name)); }
                }
                "expect" => { self.set(st, dst, a[0]); }
                "threadlocal" => { self.set(st, dst, a[0]); }
                "ptrmask" => { let v = self.x.bin(Op::And, 64, a[0], a[1]); self.set(st, dst, v); }
                "load" if r.starts_with("load.relative") => {
                    let b = self.concretize(st, a[0], 64)?;
                    let o = a[1];
                    let o64 = self.x.sext(o, argw[1], 64);
                    let p = self.x.bin(Op::Add, 64, Val::C(b), o64);
                    let p = self.concretize(st, p, 64)?;
                    let v = self.load(st, p, 32)?;
                    let v64 = match v { Val::C(k) => Val::C(crate::ir::REL.with(|r| r.borrow().get(k as usize).cloned()).ok_or("relative table entry")?), _ => return Err("symbolic relative entry".into()) };
                    let r = self.x.bin(Op::Add, 64, Val::C(b), v64);
                    self.set(st, dst, r);
                }
                "vector" => {
                    // reductions over one vector argument
                    let w = argw[0];
                    let op = if r.contains("reduce.or") { Op::Or } else if r.contains("reduce.and") { Op::And } else if r.contains("reduce.add") { Op::Add } else if r.contains("reduce.xor") { Op::Xor } else { return Err(format!("intrinsic {}", name)) };
                    let mut acc = a[0];
                    for v in a.iter().skip(1) { acc = self.x.bin(op, w, acc, *v); }
                    self.set(st, dst, acc);
                }
                _ => return Err(format!("intrinsic {}", name)),
            }
            return self.finish_call(st, normal);
        }
        match name {
            "vs_u8" | "vs_u64" | "vs_u32" | "vs_u16" => {
                let w = match name { "vs_u8" => 8, "vs_u16" => 16, "vs_u32" => 32, _ => 64 };
                let idx = st.inputs.len();
                let v = self.x.sym(idx, w);
                if let Val::E(e) = v { let s = self.x.nodes[e as usize].a; st.inputs.push(s); while st.model.len() <= s as usize { st.model.push(0); } }
                self.set(st, dst, v);
            }
            "vs_assume" => {
                match a[0] {
                    Val::C(x) => if x & 1 == 0 { return Ok(Flow::Stop(Stop::Assume)); },
                    Val::E(_) => {
                        let c = self.x.extract(a[0], 0, 1, argw[0]);
                        match c {
                            Val::C(x) => if x & 1 == 0 { return Ok(Flow::Stop(Stop::Assume)); },
                            Val::E(c) => {
                                let nv = self.x.not1(Val::E(c));
                                let ne = self.x.e(nv, 1);
                                let mut l = st.pc.clone();
                                l.push(ne);
                                if self.holds(st, c) {
                                    self.leaf(l);
                                    // only add if it restricts anything
                                    self.add(st, c);
                                } else {
                                    match self.sat(st, c)? {
                                        Some(m) => { self.leaf(l); self.add(st, c); Self::apply(st, &m); }
                                        None => return Ok(Flow::Stop(Stop::Assume)),
                                    }
                                }
                            }
                        }
                    }
                }
            }
            "vs_check" => {
                let id = self.concretize(st, a[0], argw[0])?;
                let c = self.x.extract(a[1], 0, 1, argw[1]);
                let ent = self.checks.entry(id).or_insert((0, 0));
                ent.0 += 1;
                match c {
                    Val::C(x) => if x & 1 == 0 {
                        if self.cross_check(st) { let bt = self.bt(st); self.violation("assert", id, format!("check {}", id), bt, st, None); }
                        return Ok(Flow::Stop(Stop::Exit));
                    },
                    Val::E(e) => {
                        let n = self.x.not1(Val::E(e));
                        let ne = self.x.e(n, 1);
                        // the solver decides the assertion over the whole path condition
                        let mut cons = st.pc.clone();
                        cons.push(ne);
                        cons.sort();
                        cons.dedup();
                        // independent slice is enough and keeps queries small
                        let r = if cons.len() > 60 { self.sat_z3(st, ne)? } else {
                            match self.z.check(&self.x, &cons) { Res::Sat(m) => Some(m), Res::Unsat => None, Res::Unknown => return Err(format!("solver unknown on check {}", id)) }
                        };
                        match r {
                            None => { self.checks.get_mut(&id).unwrap().1 += 1; }
                            Some(m) => {
                                let mut o = st.clone();
                                Self::apply(&mut o, &m);
                                let bt = self.bt(st);
                                self.violation("assert", id, format!("check {}", id), bt, &o, None);
                                let mut l = st.pc.clone();
                                l.push(ne);
                                match self.sat(st, e)? {
                                    Some(m2) => { self.leaf(l); if !self.holds(st, e) { Self::apply(st, &m2); } self.add(st, e); }
                                    None => return Ok(Flow::Stop(Stop::Exit)),
                                }
                            }
                        }
                    }
                }
            }
            "vs_reach" => { let id = self.concretize(st, a[0], argw[0])?; *self.reached.entry(id).or_insert(0) += 1; }
            "vs_conc" => { let v = self.concretize(st, a[0], 64)?; self.set(st, dst, Val::C(v)); }
            "vs_obs" => { let t = self.concretize(st, a[0], argw[0])?; let v = self.x.zext(a[1], argw[1], 64); st.trace.push((t as u32, v)); }
            "vs_obs_bytes" => {
                let t = self.concretize(st, a[0], argw[0])?;
                let p = self.concretize(st, a[1], 64)?;
                let n = self.concretize(st, a[2], 64)?;
                let b = self.bytes_at(st, p, n)?;
                st.trace.push((t as u32, Val::C(n)));
                for v in b { let v = self.x.zext(v, 8, 64); st.trace.push((t as u32, v)); }
            }
            "vs_param" => { let k = self.concretize(st, a[0], argw[0])?; let v = self.params.get(k as usize).cloned().unwrap_or(0); self.set(st, dst, Val::C(v)); }
            "vs_stop" => return Ok(Flow::Stop(Stop::Exit)),
            "vs_print" => { let p = self.concretize(st, a[0], 64)?; let n = self.concretize(st, a[1], 64)?; let s = self.cstr(st, p, n); eprintln!("[vs_print] {}", s); }
            "vs_dump" => { let s = match a[0] { Val::C(x) => format!("{:#x}", x), Val::E(e) => self.x.show(e, 12) }; eprintln!("[vs_dump] {}", s); }
            "malloc" => { let n = self.concretize(st, a[0], 64)?; if n >= 1 << SH { if self.trace_calls { eprintln!("malloc {:#x}", n); } self.set(st, dst, Val::C(0)); } else { let p = st.mem.alloc(n, true); self.set(st, dst, Val::C(p)); } }
            "calloc" => { let n = self.concretize(st, a[0], 64)?; let k = self.concretize(st, a[1], 64)?; let p = st.mem.alloc(n * k, true); self.set(st, dst, Val::C(p)); }
            "realloc" => {
                let p = self.concretize(st, a[0], 64)?;
                let n = self.concretize(st, a[1], 64)?;
                if n >= 1 << SH { return Err("allocation too large".into()); }
                let q = st.mem.alloc(n, true);
                if p != 0 {
                    let on = st.mem.get(p).map(|o| o.data.len() as u64).ok_or("realloc of dead object")?;
                    self.copy(st, q, p, on.min(n))?;
                    st.mem.free(p);
                }
                self.set(st, dst, Val::C(q));
            }
            "posix_memalign" => {
                let pp = self.concretize(st, a[0], 64)?;
                let n = self.concretize(st, a[2], 64)?;
                let q = st.mem.alloc(n, true);
                self.store(st, pp, Val::C(q), 64)?;
                self.set(st, dst, Val::C(0));
            }
            "free" => { let p = self.concretize(st, a[0], 64)?; if p != 0 && !st.mem.free(p) { return Err("double free".into()); } }
            "memcmp" | "bcmp" => {
                let p = self.concretize(st, a[0], 64)?;
                let q = self.concretize(st, a[1], 64)?;
                let n = self.concretize(st, a[2], 64)?;
                let x = self.bytes_at(st, p, n)?;
                let y = self.bytes_at(st, q, n)?;
                let r = if name == "bcmp" {
                    let mut c = Val::C(1);
                    for i in 0..x.len() { let e = self.x.bin(Op::Eq, 8, x[i], y[i]); c = self.x.bin(Op::And, 1, c, e); }
                    let c = self.x.not1(c);
                    self.x.zext(c, 1, 32)
                } else {
                    let mut acc = Val::C(0);
                    for i in (0..x.len()).rev() {
                        let e = self.x.bin(Op::Eq, 8, x[i], y[i]);
                        let l = self.x.bin(Op::Ult, 8, x[i], y[i]);
                        let d = self.x.ite(l, Val::C(0xffff_ffff), Val::C(1), 32);
                        acc = self.x.ite(e, acc, d, 32);
                    }
                    acc
                };
                self.set(st, dst, r);
            }
            "strlen" => {
                let p = self.concretize(st, a[0], 64)?;
                let mut n = 0u64;
                loop { let b = self.load(st, p + n, 8)?; match b { Val::C(0) => break, Val::C(_) => n += 1, _ => return Err("strlen symbolic".into()) } }
                self.set(st, dst, Val::C(n));
            }
            "write" => { let n = self.concretize(st, a[2], 64)?; self.set(st, dst, Val::C(n)); }
            "getenv" => self.set(st, dst, Val::C(0)),
            "getrandom" => {
                let p = self.concretize(st, a[0], 64)?;
                let n = self.concretize(st, a[1], 64)?;
                for i in 0..n { self.store(st, p + i, Val::C(0), 8)?; }
                self.set(st, dst, Val::C(n));
            }
            "__errno_location" => { let p = st.mem.alloc(8, true); self.set(st, dst, Val::C(p)); }
            "abort" | "exit" | "_exit" => return Ok(Flow::Stop(Stop::Panic("abort".into()))),
            "asm" => {}
            "round" => { let v = self.x.un(Op::FRnd, 64, a[0], 64, 4); self.set(st, dst, v); }
            "fmod" => { let v = self.x.bin(Op::FRem, 64, a[0], a[1]); self.set(st, dst, v); }
            _ => return Err(format!("external function {}", name)),
        }
        self.finish_call(st, normal)
    }
    fn sat_z3(&mut self, st: &State, e: E) -> Result<Option<Vec<(u32, u128)>>, String> {
        // always ask the solver, with only the constraints that share variables with e
        let mut vars: HashSet<u32> = self.x.varset(e).iter().cloned().collect();
        let mut cons: Vec<E> = vec![e];
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, g) in st.pc.iter().enumerate() {
                if used[i] { continue; }
                let vs = self.x.varset(*g).clone();
                if vs.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    cons.push(*g);
                    for v in vs.iter() { vars.insert(*v); }
                }
            }
            if !ch { break; }
        }
        cons.sort();
        cons.dedup();
        match self.z.check(&self.x, &cons) { Res::Sat(m) => Ok(Some(m)), Res::Unsat => Ok(None), Res::Unknown => Err("solver unknown on an assertion".into()) }
    }
    fn fpclass(&mut self, v: Val, k: u64) -> Val {
        // bits: 0 snan 1 qnan 2 ninf 3 nnorm 4 nsub 5 nzero 6 pzero 7 psub 8 pnorm 9 pinf
        let x = &mut self.x;
        let abs = x.bin(Op::And, 64, v, Val::C(mask(64) >> 1));
        let sg = x.extract(v, 63, 1, 64);
        let inf = Val::C(0x7ff0000000000000);
        let is_nan = x.bin(Op::Ult, 64, inf, abs);
        let q = x.extract(v, 51, 1, 64);
        let is_inf = x.bin(Op::Eq, 64, abs, inf);
        let is_zero = x.bin(Op::Eq, 64, abs, Val::C(0));
        let below = x.bin(Op::Ult, 64, abs, Val::C(0x0010000000000000));
        let nz = x.not1(is_zero);
        let is_sub = x.bin(Op::And, 1, below, nz);
        let lt_inf = x.bin(Op::Ult, 64, abs, inf);
        let nb = x.not1(below);
        let is_norm = x.bin(Op::And, 1, lt_inf, nb);
        let ng = sg;
        let ps = x.not1(sg);
        let nq = x.not1(q);
        let parts = [(is_nan, nq), (is_nan, q), (is_inf, ng), (is_norm, ng), (is_sub, ng), (is_zero, ng), (is_zero, ps), (is_sub, ps), (is_norm, ps), (is_inf, ps)];
        let mut r = Val::C(0);
        for (i, (c, s)) in parts.iter().enumerate() {
            if k >> i & 1 == 1 { let t = x.bin(Op::And, 1, *c, *s); r = x.bin(Op::Or, 1, r, t); }
        }
        r
    }
}

fn byte_of(o: &Obj, off: usize) -> Val {
    if !o.sym.is_empty() && o.sym[off] != 0 { Val::E(o.sym[off] - 1) } else { Val::C(o.data[off] as u64) }
}
fn set_byte(o: &mut Obj, off: usize, v: Val) {
    match v {
        Val::C(x) => { o.data[off] = x as u8; if !o.sym.is_empty() { o.sym[off] = 0; } }
        Val::E(e) => { if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; } o.sym[off] = e + 1; }
    }
}
fn hook_of(n: &str) -> Hook {
    let pats = ["9panicking9panic_fmt", "9panicking5panic", "9panicking18panic_bounds_check", "9panicking18panic_nounwind", "6option13unwrap_failed", "6option13expect_failed", "6result13unwrap_failed",
        "9panicking11panic_const", "rust_begin_unwind", "9panicking13assert_failed", "3str16slice_error_fail", "7raw_vec17capacity_overflow", "4cell22panic_already", "18panic_already_borrowed", "26panic_already_mutably", "5index26slice_start_index_len_fail", "5index24slice_end_index_len_fail", "5index22slice_index_order_fail", "5index16slice_index_fail", "9panicking14panic_explicit", "9panicking19panic_cannot_unwind", "9panicking16panic_in_cleanup", "9panicking11panic_display"];
    if n.contains("panic_count") || n.contains("PanicPayload") { return Hook::None; }
    if n.contains("handle_alloc_error") { return Hook::AllocErr; }
    if n.contains("9panicking11begin_panic") && !n.contains("closure") { return Hook::Panic; }
    if pats.iter().any(|p| n.contains(p)) && (n.contains("core") || n.contains("alloc") || n.contains("rust_begin_unwind")) { return Hook::Panic; }
    Hook::None
}

/// crude demangling: keep the readable path components of a v0 symbol
pub fn short(n: &str) -> String {
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut k = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() && k < 1000 { k = k * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' && k > 0 { j += 1; }
            if k > 1 && j + k <= b.len() && b[j..j + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && (b[j].is_ascii_alphabetic() || b[j] == b'_') {
                out.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
            i = j.max(i + 1);
        } else { i += 1; }
    }
    if out.is_empty() { n.to_string() } else { out.join("::") }
}
