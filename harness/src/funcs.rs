//! variables, functions, iteration: programs drawn from a grammar against a reference interpreter
use crate::nodes::prog;
use crate::num::*;
use crate::vs;
use amxml::dom::*;
use amxml::verif::*;
use std::rc::Rc;

#[derive(Clone)]
enum E {
    Ext(usize), Lit(i64), Var(u8), Dot, Empty,
    Seq(X, X), Sub(X, X),
    Let(Vec<(u8, X)>, X), For(Vec<(u8, X)>, X), Quant(bool, Vec<(u8, X)>, X),
    Fun(Vec<u8>, X), Call(X, Vec<Option<X>>), Arrow(X, X, Vec<Option<X>>),
    Ref(usize), Named(usize, Vec<Option<X>>), ArrowNamed(X, usize, Vec<Option<X>>),
    Bang(X, X), Pred(X, X), If(X, X, X), Arr(X, X), MapC(X, X), Look(X, X), Unary(X), All(X),
}
type X = Rc<E>;
#[derive(Clone)]
enum V { Int(i64), Bool(bool), Node, Fun(Rc<F>), Arr(Vec<Vec<V>>), Map(Vec<V>, Vec<V>) }
struct F { arity: usize, kind: K }
enum K { Closure(Vec<u8>, X, Env), Named(usize), Part(Rc<F>, Vec<Option<Vec<V>>>) }
type Env = Vec<(u8, Vec<V>)>;
#[derive(Clone)]
struct Focus { item: Option<V>, pos: usize }
/// Er: an error for certain; Skip: the standard leaves it open, or it lies outside this model
enum Stop { Er, Skip }
type Re = Result<Vec<V>, Stop>;
const NAMED: [(&str, usize); 10] = [("count", 1), ("reverse", 1), ("head", 1), ("tail", 1), ("for-each", 2), ("filter", 2), ("boolean", 1), ("exactly-one", 1), ("insert-before", 3), ("empty", 1)];

struct In { ext: [i64; 3] }

fn dup(x: &V) -> Vec<V> { vec![x.clone()] }
impl In {
    fn eval(&self, e: &E, env: &Env, f: &Focus) -> Re {
        Ok(match e {
            E::Ext(i) => vec![V::Int(self.ext[*i])],
            E::Lit(n) => vec![V::Int(*n)],
            E::Empty => vec![],
            E::Var(n) => match env.iter().rev().find(|b| b.0 == *n) { Some(b) => b.1.clone(), None => return Err(Stop::Er) },
            E::Dot => match &f.item { Some(v) => dup(v), None => return Err(Stop::Skip) },
            E::Seq(a, b) => { let mut v = self.eval(a, env, f)?; v.extend(self.eval(b, env, f)?); v }
            E::Sub(a, b) => {
                let (a, b) = (self.eval(a, env, f)?, self.eval(b, env, f)?);
                if a.is_empty() && b.is_empty() { return Ok(vec![]) }
                // with one operand empty, the other may or may not be looked at
                if a.is_empty() || b.is_empty() { return Err(Stop::Skip) }
                if a.iter().chain(b.iter()).any(|x| match x { V::Arr(_) => true, _ => false }) { return Err(Stop::Skip) }
                let (a, b) = (atoms(&a)?, atoms(&b)?);
                if a.len() > 1 || b.len() > 1 { return Err(Stop::Er) }
                match (&a[0], &b[0]) { (V::Int(x), V::Int(y)) => vec![V::Int(x - y)], _ => return Err(Stop::Skip) }
            }
            E::Let(bs, body) => {
                let mut env = env.clone();
                for (n, x) in bs { let v = self.eval(x, &env, f)?; env.push((*n, v)); }
                self.eval(body, &env, f)?
            }
            E::For(bs, body) => self.each(bs, env, f, &mut |env| self.eval(body, env, f))?,
            E::Quant(every, bs, body) => {
                // all outcomes in order; an error only counts if nothing before it decides
                let mut decided = false;
                let r = self.each(bs, env, f, &mut |env| { let b = self.eval(body, env, f).and_then(|v| ebv(&v)); match b { Ok(b) => { if b != *every { decided = true } Ok(vec![]) } Err(s) => if decided { Err(Stop::Skip) } else { Err(s) } } });
                match r { Ok(_) => vec![V::Bool(decided != *every)], Err(s) => return Err(s) }
            }
            E::Fun(ps, body) => vec![V::Fun(Rc::new(F { arity: ps.len(), kind: K::Closure(ps.clone(), body.clone(), env.clone()) }))],
            E::Call(g, args) => { let g = self.eval(g, env, f)?; let args = self.args(args, env, f)?; self.apply(&g, args)? }
            E::Arrow(a, g, rest) => { let mut args = vec![Some(self.eval(a, env, f)?)]; args.extend(self.args(rest, env, f)?); let g = self.eval(g, env, f)?; self.apply(&g, args)? }
            E::Ref(k) => vec![V::Fun(Rc::new(F { arity: NAMED[*k].1, kind: K::Named(*k) }))],
            E::Named(k, args) => { let args = self.args(args, env, f)?; self.apply(&[V::Fun(Rc::new(F { arity: NAMED[*k].1, kind: K::Named(*k) }))], args)? }
            E::ArrowNamed(a, k, rest) => { let mut args = vec![Some(self.eval(a, env, f)?)]; args.extend(self.args(rest, env, f)?); self.apply(&[V::Fun(Rc::new(F { arity: NAMED[*k].1, kind: K::Named(*k) }))], args)? }
            E::Bang(a, b) => { let mut out = vec![]; for (i, v) in self.eval(a, env, f)?.into_iter().enumerate() { out.extend(self.eval(b, env, &Focus { item: Some(v), pos: i + 1 })?); } out }
            E::Pred(a, b) => {
                let mut out = vec![];
                for (i, v) in self.eval(a, env, f)?.into_iter().enumerate() {
                    let p = self.eval(b, env, &Focus { item: Some(v.clone()), pos: i + 1 })?;
                    let keep = match &p[..] { [V::Int(n)] => *n == i as i64 + 1, _ => ebv(&p)? };
                    if keep { out.push(v) }
                }
                out
            }
            E::If(c, a, b) => if ebv(&self.eval(c, env, f)?)? { self.eval(a, env, f)? } else { self.eval(b, env, f)? },
            E::Arr(a, b) => vec![V::Arr(vec![self.eval(a, env, f)?, self.eval(b, env, f)?])],
            E::Look(a, k) => { let (a, k) = (self.eval(a, env, f)?, self.eval(k, env, f)?); self.look(&a, &k)? }
            E::Unary(k) => { let k = self.eval(k, env, f)?; match &f.item { Some(v) => self.look(&dup(v), &k)?, None => return Err(Stop::Skip) } }
            E::All(a) => {
                let mut out = vec![];
                for v in self.eval(a, env, f)? { match v { V::Arr(m) => for x in m { out.extend(x) }, V::Map(p, q) => { if !p.is_empty() && !q.is_empty() { return Err(Stop::Skip) } out.extend(p); out.extend(q) } _ => return Err(Stop::Er) } }
                out
            }
            E::MapC(a, b) => vec![V::Map(self.eval(a, env, f)?, self.eval(b, env, f)?)],
        })
    }
    fn each(&self, bs: &[(u8, X)], env: &Env, f: &Focus, body: &mut dyn FnMut(&Env) -> Re) -> Re {
        if bs.is_empty() { return body(env) }
        let mut out = vec![];
        for v in self.eval(&bs[0].1, env, f)? { let mut env = env.clone(); env.push((bs[0].0, vec![v])); out.extend(self.each(&bs[1..], &env, f, body)?); }
        Ok(out)
    }
    fn args(&self, a: &[Option<X>], env: &Env, f: &Focus) -> Result<Vec<Option<Vec<V>>>, Stop> {
        let mut out = vec![];
        for x in a { out.push(match x { Some(x) => Some(self.eval(x, env, f)?), None => None }); }
        Ok(out)
    }
    fn look(&self, a: &[V], k: &[V]) -> Re {
        let mut out = vec![];
        for v in a { match v { V::Arr(_) | V::Map(..) => for k in atoms(k)? { out.extend(self.apply(&dup(v), vec![Some(vec![k])])?) }, _ => return Err(Stop::Er) } }
        Ok(out)
    }
    fn apply(&self, g: &[V], args: Vec<Option<Vec<V>>>) -> Re {
        if g.len() != 1 { return Err(Stop::Er) }
        match &g[0] {
            V::Fun(g) => {
                if args.len() != g.arity { return Err(Stop::Er) }
                let open = args.iter().filter(|x| x.is_none()).count();
                if open > 0 { return Ok(vec![V::Fun(Rc::new(F { arity: open, kind: K::Part(g.clone(), args) }))]) }
                self.call(g, args.into_iter().map(|x| x.unwrap()).collect())
            }
            V::Arr(m) => {
                if args.len() != 1 { return Err(Stop::Er) }
                let a = match &args[0] { Some(a) => atoms(a)?, None => return Err(Stop::Skip) };
                match &a[..] { [V::Int(n)] => if *n == 1 { Ok(m[0].clone()) } else if *n == 2 { Ok(m[1].clone()) } else { Err(Stop::Er) }, _ => Err(Stop::Er) }
            }
            V::Map(one, other) => {
                if args.len() != 1 { return Err(Stop::Er) }
                let a = match &args[0] { Some(a) => atoms(a)?, None => return Err(Stop::Skip) };
                match &a[..] { [V::Int(n)] => Ok(if *n == 1 { one.clone() } else if *n == 7 { other.clone() } else { vec![] }), [V::Bool(_)] => Ok(vec![]), _ => Err(Stop::Er) }
            }
            _ => Err(Stop::Er),
        }
    }
    fn call(&self, g: &F, args: Vec<Vec<V>>) -> Re {
        match &g.kind {
            K::Closure(ps, body, env) => { let mut env = env.clone(); for (p, a) in ps.iter().zip(args) { env.push((*p, a)); } self.eval(body, &env, &Focus { item: None, pos: 0 }) }
            K::Part(g, fixed) => { let mut it = args.into_iter(); let all = fixed.iter().map(|x| match x { Some(v) => v.clone(), None => it.next().unwrap() }).collect(); self.call(g, all) }
            K::Named(k) => {
                let s = &args[0];
                Ok(match *k {
                    0 => vec![V::Int(s.len() as i64)],
                    1 => s.iter().rev().cloned().collect(),
                    2 => s.iter().take(1).cloned().collect(),
                    3 => s.iter().skip(1).cloned().collect(),
                    4 | 5 => {
                        let f = match &args[1][..] { [V::Fun(f)] => { if f.arity != 1 { return if s.is_empty() { Err(Stop::Skip) } else { Err(Stop::Er) } } } [V::Arr(_)] | [V::Map(..)] => {} _ => return if s.is_empty() { Err(Stop::Skip) } else { Err(Stop::Er) } };
                        let _ = f;
                        let mut out = vec![];
                        for v in s {
                            let r = self.apply(&args[1], vec![Some(dup(v))])?;
                            if *k == 4 { out.extend(r) } else { match &atoms(&r)?[..] { [V::Bool(b)] => if *b { out.push(v.clone()) }, [V::Node] => return Err(Stop::Skip), _ => return Err(Stop::Er) } }
                        }
                        out
                    }
                    6 => vec![V::Bool(ebv(s)?)],
                    7 => if s.len() == 1 { s.clone() } else { return Err(Stop::Er) },
                    8 => {
                        let n = match &atoms(&args[1])?[..] { [V::Int(n)] => *n, [V::Node] => return Err(Stop::Skip), _ => return Err(Stop::Er) };
                        let mut out: Vec<V> = vec![];
                        let mut done = false;
                        for (i, v) in s.iter().enumerate() { if !done && n <= i as i64 + 1 { out.extend(args[2].iter().cloned()); done = true; } out.push(v.clone()); }
                        if !done { out.extend(args[2].iter().cloned()) }
                        out
                    }
                    _ => vec![V::Bool(s.is_empty())],
                })
            }
        }
    }
}
/// atomization; a function has no value
fn atoms(v: &[V]) -> Re {
    let mut out = vec![];
    for x in v { match x { V::Int(_) | V::Bool(_) => out.push(x.clone()), V::Fun(_) | V::Map(..) => return Err(Stop::Er), V::Node => return Err(Stop::Skip), V::Arr(m) => for x in m { out.extend(atoms(x)?) } } }
    Ok(out)
}
fn ebv(v: &[V]) -> Result<bool, Stop> {
    match v {
        [] => Ok(false),
        [V::Node, ..] => Ok(true),
        [V::Bool(b)] => Ok(*b),
        [V::Int(n)] => Ok(*n != 0),
        _ => Err(Stop::Er),
    }
}

/// builds the program: productions from the parameters in prefix order, leaves and names symbolic
struct Gen { at: u32, free: bool, two: bool, leaf: bool }
impl Gen {
    fn code(&mut self) -> u64 { if self.leaf { return 0 } self.at += 1; vs::param(self.at) }
    fn name(&self) -> u8 { if self.two && vs::coin() { b'y' } else { b'x' } }
    fn sub(&mut self, sc: &[u8], dot: bool) -> X { Rc::new(self.expr(sc, dot)) }
    fn binds(&mut self, n: usize, sc: &mut Vec<u8>, dot: bool) -> Vec<(u8, X)> { (0..n).map(|_| { let e = self.sub(sc, dot); let v = self.name(); sc.push(v); (v, e) }).collect() }
    fn expr(&mut self, sc: &[u8], dot: bool) -> E {
        let c = self.code();
        if c == 38 {
            // any production at all, over leaves
            let k = vs::pick(45) as u64;
            let k = if k < 32 { k + 1 } else { k + 8 };
            self.leaf = true;
            let e = self.prod(k, sc, dot);
            self.leaf = false;
            return e
        }
        self.prod(c, sc, dot)
    }
    fn prod(&mut self, c: u64, sc: &[u8], dot: bool) -> E {
        match c {
            0 => {
                // $a, 1, the names in scope, and what is allowed besides
                let mut cand = vec![E::Ext(0)];
                for n in [b'x', b'y'].iter() { if sc.contains(n) { cand.push(E::Var(*n)) } }
                if dot { cand.push(E::Dot) }
                if self.free { cand.push(E::Var(b'z')) }
                if cand.len() < 3 { cand.push(E::Ext(1)) }
                let k = vs::pick(cand.len() as u32);
                cand.swap_remove(k)
            }
            1 => E::Seq(self.sub(sc, dot), self.sub(sc, dot)),
            2 => E::Sub(self.sub(sc, dot), self.sub(sc, dot)),
            3..=8 => {
                let n = if c % 2 == 0 { 2 } else { 1 };
                let mut sc = sc.to_vec();
                let b = self.binds(n, &mut sc, dot);
                let body = self.sub(&sc, dot);
                if c < 5 { E::Let(b, body) } else if c < 7 { E::For(b, body) } else { E::Quant(vs::coin(), b, body) }
            }
            9 | 10 | 11 => {
                let n = c as usize - 9;
                let mut sc = sc.to_vec();
                let mut ps = vec![];
                for i in 0..n { let p = if i == 0 { self.name() } else if ps[0] == b'x' { b'y' } else { b'x' }; ps.push(p); sc.push(p); }
                let body = self.sub(&sc, false);
                E::Fun(ps, body)
            }
            12..=18 => {
                let f = self.sub(sc, dot);
                let mut a = |me: &mut Gen| Some(me.sub(sc, dot));
                let args = match c { 12 => vec![], 13 => vec![a(self)], 14 => vec![a(self), a(self)], 15 => vec![None], 16 => vec![None, a(self)], 17 => vec![a(self), None], _ => vec![None, None] };
                E::Call(f, args)
            }
            19 | 20 | 21 => {
                let (a, f) = (self.sub(sc, dot), self.sub(sc, dot));
                let args = match c { 19 => vec![], 20 => vec![Some(self.sub(sc, dot))], _ => vec![None] };
                E::Arrow(a, f, args)
            }
            22 => E::Ref(vs::pick(NAMED.len() as u32)),
            23 => E::Bang(self.sub(sc, dot), self.sub(sc, true)),
            24 => E::Pred(self.sub(sc, dot), self.sub(sc, true)),
            25 => E::If(self.sub(sc, dot), self.sub(sc, dot), self.sub(sc, dot)),
            26 => E::Arr(self.sub(sc, dot), self.sub(sc, dot)),
            27 => E::MapC(self.sub(sc, dot), self.sub(sc, dot)),
            28 => E::Empty,
            29 => E::Lit(vs::pick(4) as i64),
            30 => E::Named(8, vec![Some(self.sub(sc, dot)), None, Some(self.sub(sc, dot))]),
            31 => E::ArrowNamed(self.sub(sc, dot), 8, vec![None, Some(self.sub(sc, dot))]),
            32 => { let k = [0, 1, 2, 3, 6][vs::pick(5)]; E::ArrowNamed(self.sub(sc, dot), k, vec![]) }
            33 => E::Var(b'x'),
            34 => E::Var(b'y'),
            35 => if dot { E::Dot } else { E::Ext(2) },
            36 => E::Ext(0),
            37 => E::Ext(1),
            50 => E::Look(self.sub(sc, dot), self.sub(sc, dot)),
            51 => if dot { E::Unary(self.sub(sc, true)) } else { E::All(self.sub(sc, false)) },
            52 => E::All(self.sub(sc, dot)),
            k => { let k = k as usize - 40; let mut args = vec![]; for _ in 0..NAMED[k].1 { args.push(Some(self.sub(sc, dot))) } E::Named(k, args) }
        }
    }
}
fn show(e: &E, o: &mut String) {
    let args = |a: &[Option<X>], o: &mut String| { o.push('('); for (i, x) in a.iter().enumerate() { if i > 0 { o.push(',') } match x { Some(x) => show(x, o), None => o.push('?') } } o.push(')') };
    let bin = |a: &E, s: &str, b: &E, o: &mut String| { o.push('('); show(a, o); o.push_str(s); show(b, o); o.push(')') };
    let binds = |w: &str, b: &[(u8, X)], s: &str, r: &str, body: &E, o: &mut String| {
        o.push('('); o.push_str(w);
        for (i, (n, x)) in b.iter().enumerate() { if i > 0 { o.push_str(", ") } o.push('$'); o.push(*n as char); o.push_str(s); show(x, o); }
        o.push_str(r); show(body, o); o.push(')')
    };
    match e {
        E::Ext(i) => o.push_str(["$a", "$b", "$c"][*i]),
        E::Lit(n) => o.push((b'0' + *n as u8) as char),
        E::Empty => o.push_str("()"),
        E::Var(n) => { o.push('$'); o.push(*n as char) }
        E::Dot => o.push('.'),
        E::Seq(a, b) => bin(a, ", ", b, o),
        E::Sub(a, b) => bin(a, " - ", b, o),
        E::Let(b, x) => binds("let ", b, " := ", " return ", x, o),
        E::For(b, x) => binds("for ", b, " in ", " return ", x, o),
        E::Quant(all, b, x) => binds(if *all { "every " } else { "some " }, b, " in ", " satisfies ", x, o),
        E::Fun(ps, b) => { o.push_str("function("); for (i, p) in ps.iter().enumerate() { if i > 0 { o.push(',') } o.push('$'); o.push(*p as char) } o.push_str("){"); show(b, o); o.push('}') }
        E::Call(f, a) => { let p = match **f { E::Var(_) | E::Ref(_) | E::Fun(..) | E::Call(..) => false, _ => true }; if p { o.push('(') } show(f, o); if p { o.push(')') } args(a, o) }
        E::Arrow(x, f, a) => { o.push('('); show(x, o); o.push_str(" => "); let v = match **f { E::Var(_) => true, _ => false }; if !v { o.push('(') } show(f, o); if !v { o.push(')') } args(a, o); o.push(')') }
        E::Ref(k) => { o.push_str(NAMED[*k].0); o.push('#'); o.push((b'0' + NAMED[*k].1 as u8) as char) }
        E::Named(k, a) => { o.push_str(NAMED[*k].0); args(a, o) }
        E::ArrowNamed(x, k, a) => { o.push('('); show(x, o); o.push_str(" => "); o.push_str(NAMED[*k].0); args(a, o); o.push(')') }
        E::Bang(a, b) => bin(a, " ! ", b, o),
        E::Pred(a, b) => { o.push('('); show(a, o); o.push_str(")["); show(b, o); o.push(']') }
        E::If(c, a, b) => { o.push_str("(if ("); show(c, o); o.push_str(") then "); show(a, o); o.push_str(" else "); show(b, o); o.push(')') }
        E::Arr(a, b) => { o.push('['); show(a, o); o.push_str(", "); show(b, o); o.push(']') }
        E::Look(a, k) => { o.push('('); show(a, o); o.push_str(")?("); show(k, o); o.push(')') }
        E::Unary(k) => { o.push_str("?("); show(k, o); o.push(')') }
        E::All(a) => { o.push('('); show(a, o); o.push_str(")?*") }
        E::MapC(a, b) => { o.push_str("map{1: "); show(a, o); o.push_str(", 7: "); show(b, o); o.push('}') }
    }
}
fn seq_eq(r: &[Value], w: &[V]) -> bool {
    if r.len() != w.len() { return false }
    let mut ok = true;
    for (x, y) in r.iter().zip(w) {
        ok &= match (x, y) {
            (Value::Integer(a), V::Int(b)) => *a == *b,
            (Value::Boolean(a), V::Bool(b)) => *a == *b,
            (Value::Node(_), V::Node) => true,
            (Value::Other(_), V::Fun(_)) => true,
            (Value::Array(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| seq_eq(a, b)),
            (Value::Map(m), V::Map(p, q)) => m.len() == 2 && m.iter().all(|(k, v)| match k { Value::Integer(1) => seq_eq(v, p), Value::Integer(7) => seq_eq(v, q), _ => false }),
            _ => false,
        };
    }
    ok
}

/// parameter 0: 1 adds an undeclared name to the leaves, 2 lets every binder be either of two names; then the productions
#[no_mangle]
pub extern "C-unwind" fn f_prog() {
    let fl = vs::param(0);
    let e = Gen { at: 0, free: fl & 1 != 0, two: fl & 2 != 0, leaf: false }.expr(&[], false);
    let mut s = String::new();
    show(&e, &mut s);
    vs::obs_str(1, &s);
    let d = doc();
    let p = prog(&s);
    let mut ext = [0i64; 3];
    for x in ext.iter_mut() { *x = vs::i64(); vs::assume((*x >= 0) & (*x < 9)); }
    let vars: Vec<(&str, Vec<Value>)> = ["a", "b", "c"].iter().zip(ext.iter()).map(|(n, v)| (*n, vec![Value::Integer(*v)])).collect();
    let r = run(&p, &d, &vars);
    match (In { ext }).eval(&e, &vec![], &Focus { item: None, pos: 0 }) {
        Ok(w) => { ck!(1, "the program gives what the standard says", match &r { Ok(v) => seq_eq(v, &w), Err(_) => false }); }
        Err(Stop::Er) => { ck_opt!(2, "undeclared variables, wrong numbers of arguments and calls of something that is no function are errors", r.is_err()); }
        Err(Stop::Skip) => {}
    }
}

/// iteration over sequences of any length up to the bound: order, flattening, quantifiers, positions
#[no_mangle]
pub extern "C-unwind" fn f_iter() {
    use crate::seqs::*;
    let d = doc();
    let (n, m, kind) = (vs::param(0) as usize, vs::param(1) as usize, vs::param(2));
    let p: Vec<Program> = ["for $x in $s return $x", "for $x in $s, $y in $t return ($x, $y)", "for $x in $s return for $y in $t return ($x, $y)", "$s ! .", "$s ! (., $t)", "$s ! $t ! .", "for-each($s, function($x){($x, $t)})", "$s => for-each(function($x){$x})", "let $x := $s return ($x, $t)", "let $x := $s, $y := $t return ($y, $x)", "for $x in $s return ()", "$s ! ()",
        "$s ! position()", "$s ! last()", "for $i in 1 to count($s) return $s[$i]", "some $x in $s satisfies $x = $k", "every $x in $s satisfies $x = $k", "some $x in $s, $y in $t satisfies $x = $y", "every $x in $s, $y in $t satisfies $x = $y", "filter($s, function($x){$x = $k})", "$s[. = $k]", "for $x in $s return if ($x = $k) then $x else ()", "not(every $x in $s satisfies not($x = $k))", "some $x in $s satisfies every $y in $t satisfies $x = $y", "every $x in $s satisfies some $y in $t satisfies $x = $y", "for $x in $s, $x in ($x, $x) return $x", "for $x in $s return let $y := $x return ($y, $x)", "(for $x in $s return $x), $t", "$s ! $t ! position()", "$s ! ($t ! last())", "$s ! $t ! last()", "$s ! (., .) ! position()", "some $x in $s satisfies $x[. = $k] instance of item()", "some $x in $s satisfies exists($x[. = $k])", "let $x := $k return ((for $x in $s return 1)[. = 0], (let $x := ($s, $t) return ())[. = 0], (some $x in $s satisfies false())[. = $k], (every $x in $s satisfies false())[. = $k], $x)"].iter().map(|s| prog(s)).collect();
    let (s, t, k) = (items(n, kind), items(m, kind), It::any(kind % 10));
    let go = |i: usize| run(&p[i], &d, &[("s", vals(&s)), ("t", vals(&t)), ("k", vec![k.v()])]);
    let eq = |a: &It, b: &It| -> bool { if a.k > 2 { a.f == b.f } else { a.i == b.i } };
    let mut pairs = vec![];
    let (mut st, mut tn, mut twice, mut dbl) = (vec![], vec![], vec![], vec![]);
    for x in &s { for y in &t { pairs.push(*x); pairs.push(*y); } st.push(*x); st.extend(t.iter().cloned()); tn.extend(t.iter().cloned()); dbl.push(*x); dbl.push(*x); }
    twice.extend(s.iter().cloned()); twice.extend(t.iter().cloned());
    let mut back = t.clone(); back.extend(s.iter().cloned());
    ck!(1, "for over one sequence gives the items in order", is_seq(&go(0), &s) && is_seq(&go(3), &s) && is_seq(&go(7), &s) && is_seq(&go(14), &s));
    ck!(2, "for over two sequences gives all pairs, the first slowest", is_seq(&go(1), &pairs) && is_seq(&go(2), &pairs));
    ck!(3, "! and for-each append the results item by item", is_seq(&go(4), &st) && is_seq(&go(6), &st) && is_seq(&go(5), &tn));
    ck!(4, "let binds whole sequences", is_seq(&go(8), &twice) && is_seq(&go(9), &back) && is_seq(&go(27), &twice));
    ck!(5, "nothing returned is nothing in the result", is_seq(&go(10), &[]) && is_seq(&go(11), &[]));
    let nums: Vec<It> = (0..n).map(|i| It { k: 0, i: i as i64 + 1, f: 0.0 }).collect();
    let last: Vec<It> = (0..n).map(|_| It { k: 0, i: n as i64, f: 0.0 }).collect();
    ck!(6, "! sets position and size", is_seq(&go(12), &nums) && is_seq(&go(13), &last));
    let count = |a: usize| -> Vec<It> { (0..a).map(|i| It { k: 0, i: i as i64 + 1, f: 0.0 }).collect() };
    let same = |a: usize, b: usize| -> Vec<It> { (0..a).map(|_| It { k: 0, i: b as i64, f: 0.0 }).collect() };
    ck!(11, "! associates to the left", is_seq(&go(28), &count(n * m)) && is_seq(&go(29), &same(n * m, m)) && is_seq(&go(30), &same(n * m, n * m)) && is_seq(&go(31), &count(2 * n)));
    if k.k != 2 { ck!(13, "an inner variable of the same name leaves the outer one alone", is_seq(&go(34), &[k])); }
    ck!(7, "a variable may be bound again", is_seq(&go(25), &dbl) && is_seq(&go(26), &dbl));
    let (mut any, mut all, mut sa, mut sl, mut some_all, mut all_some) = (false, true, false, true, false, true);
    for x in &s {
        any |= eq(x, &k); all &= eq(x, &k);
        let (mut some, mut every) = (false, true);
        for y in &t { some |= eq(x, y); every &= eq(x, y); }
        sa |= some; sl &= every; some_all |= every; all_some &= some;
    }
    ck!(8, "some and every are the disjunction and the conjunction", is_bool(&go(15), any) && is_bool(&go(16), all) && is_bool(&go(17), sa) && is_bool(&go(18), sl) && is_bool(&go(22), any) && is_bool(&go(32), any) && is_bool(&go(33), any));
    ck!(9, "quantifiers nest", is_bool(&go(23), some_all) && is_bool(&go(24), all_some));
    // one path per outcome
    let keep: Vec<It> = s.iter().filter(|x| eq(x, &k)).cloned().collect();
    ck!(10, "filter, a predicate and an if keep exactly the items that satisfy it", is_seq(&go(19), &keep) && is_seq(&go(20), &keep) && is_seq(&go(21), &keep));
}

/// sequences of nodes, any of three in any order and number: nothing is dropped, moved or merged
#[no_mangle]
pub extern "C-unwind" fn f_nodes() {
    let n = vs::param(0) as usize;
    let d = new_document("<r x='1'><a/><a/></r>").unwrap();
    let r = d.root_element();
    let pool = [r.rc_clone(), r.first_child().unwrap(), r.children()[1].rc_clone(), r.attributes()[0].rc_clone()];
    let s: Vec<usize> = (0..n).map(|_| vs::pick(vs::param(1) as u32)).collect();
    let k = vs::pick(vs::param(1) as u32);
    let nodes = |s: &[usize]| -> Vec<Value> { s.iter().map(|i| Value::Node(pool[*i].rc_clone())).collect() };
    let go = |e: &str| run(&prog(e), &d, &[("s", nodes(&s)), ("k", nodes(&[k]))]);
    let gives = |e: &str, w: &[usize]| match go(e) { Ok(v) => v.len() == w.len() && v.iter().zip(w).all(|(v, w)| match v { Value::Node(q) => *q == pool[*w], _ => false }), Err(_) => false };
    let truth = |e: &str, w: bool| crate::num::is_bool(&go(e), w);
    let mut back = s.clone();
    back.reverse();
    let twice: Vec<usize> = s.iter().flat_map(|i| vec![*i, *i]).collect();
    let with: Vec<usize> = s.iter().flat_map(|i| vec![*i, k]).collect();
    let keep: Vec<usize> = s.iter().filter(|i| **i == k).cloned().collect();
    let drop: Vec<usize> = s.iter().filter(|i| **i != k).cloned().collect();
    ck!(1, "for, let, ! and for-each give every node, in order", gives("for $x in $s return $x", &s) && gives("$s ! .", &s) && gives("for-each($s, function($x){$x})", &s) && gives("let $x := $s return $x", &s) && gives("for $x in $s return ($x, $x)", &twice) && gives("$s ! (., .)", &twice) && gives("for $x in $s return ($x, $k)", &with) && gives("$s ! (., $k)", &with) && gives("for $x in $s, $y in ($x, $k) return $y", &with) && gives("for-each($s, function($x){($x, $k)})", &with));
    ck!(2, "filters keep every node that satisfies them", gives("$s[. is $k]", &keep) && gives("filter($s, function($x){$x is $k})", &keep) && gives("for $x in $s return if ($x is $k) then $x else ()", &keep) && gives("$s ! .[. is $k]", &keep) && gives("for $x in $s return $x[. is $k]", &keep) && gives("$s[not(. is $k)]", &drop));
    ck!(3, "quantifiers over nodes", truth("some $x in $s satisfies $x is $k", !keep.is_empty()) && truth("every $x in $s satisfies $x is $k", drop.is_empty()) && truth("some $x in $s satisfies $x[. is $k]", !keep.is_empty()) && truth("every $x in $s satisfies $x[. is $k]", drop.is_empty()) && truth("every $x in $s satisfies not($x[. is $k])", keep.is_empty()) && truth("some $x in $s satisfies ()", false) && truth("every $x in $s satisfies ()", n == 0));
    ck!(4, "sequence functions keep nodes apart", gives("reverse($s)", &back) && gives("reverse(reverse($s))", &s) && gives("(head($s), tail($s))", &s) && gives("insert-before($s, 1, ())", &s) && gives("remove($s, 0)", &s) && gives("subsequence($s, 1)", &s) && gives("($s, ())", &s) && gives("if ($k) then $s else ()", &s) && gives("[$s](1)", &s) && gives("map{1: $s}(1)", &s) && gives("array{$s}?*", &s) && gives("function($p){$p}($s)", &s) && gives("array:flatten([$s])", &s) && crate::num::is_int(&go("count($s)"), n as i64));
}
