//! XPath numbers, comparisons, booleans
use crate::nodes::prog;
use crate::vs;
use amxml::dom::*;
use amxml::verif::*;

pub fn doc() -> NodePtr { new_document("<r/>").unwrap() }
pub type R = Result<Vec<Value>, Box<dyn std::error::Error>>;
pub fn one(r: &R) -> Option<&Value> { match r { Ok(v) => if v.len() == 1 { Some(&v[0]) } else { None }, Err(_) => None } }
pub fn is_int(r: &R, n: i64) -> bool { match one(r) { Some(Value::Integer(x)) => *x == n, _ => false } }
pub fn is_bool(r: &R, b: bool) -> bool { match one(r) { Some(Value::Boolean(x)) => *x == b, _ => false } }
pub fn is_str(r: &R, s: &str) -> bool { match one(r) { Some(Value::Str(x)) => x == s, _ => false } }
pub fn is_empty(r: &R) -> bool { match r { Ok(v) => v.is_empty(), Err(_) => false } }
/// the same double: equal bits, or both NaN
pub fn same(a: f64, b: f64) -> bool { (a.to_bits() == b.to_bits()) | ((a != a) & (b != b)) }
pub fn is_dbl(r: &R, d: f64) -> bool { match one(r) { Some(Value::Double(x)) => same(*x, d), _ => false } }
pub fn is_dec(r: &R, d: f64) -> bool { match one(r) { Some(Value::Decimal(x)) => same(*x, d), _ => false } }

/// integer arithmetic: exact, or an error when the result is not a 64-bit integer
#[no_mangle]
pub extern "C-unwind" fn q_int() {
    let op = vs::param(0) as usize;
    let p = prog(["$a + $b", "$a - $b", "$a * $b", "$a idiv $b", "$a mod $b", "- $a", "abs($a)", "+ $a", "floor($a)", "ceiling($a)", "round($a)", "- - $a", "$a + $b - $b", "1 - $a"][op]);
    let d = doc();
    let (a, b) = (vs::i64(), vs::i64());
    let r = run(&p, &d, &[("a", vec![Value::Integer(a)]), ("b", vec![Value::Integer(b)])]);
    let want = match op {
        0 => a.checked_add(b),
        1 => a.checked_sub(b),
        2 => a.checked_mul(b),
        3 => if b == 0 { None } else { a.checked_div(b) },
        4 => if b == 0 { None } else { Some(a.wrapping_rem(b)) },
        5 => a.checked_neg(),
        6 => a.checked_abs(),
        11 => a.checked_neg().map(|_| a),
        12 => a.checked_add(b).map(|_| a),
        13 => 1i64.checked_sub(a),
        _ => Some(a),
    };
    ck!(1, "integer operations give the exact integer, or an error when there is none", match want { Some(n) => is_int(&r, n), None => r.is_err() });
}

/// one numeric operand: kind 0 integer, 1 decimal, 2 double
#[derive(Clone, Copy)]
pub struct Num { pub k: u64, pub i: i64, pub f: f64 }
impl Num {
    /// integers are small when they will be mixed with other types (their conversion goes through text)
    pub fn any(k: u64, mixed: bool) -> Num {
        match k {
            0 => { let i = vs::i64(); if mixed { vs::assume(((i >= -3) & (i <= 12)) | (i == i64::max_value()) | (i == i64::min_value()) | (i == 9007199254740993) | (i == -9007199254740995)); let i = vs::conc(i as u64) as i64; Num { k, i, f: i as f64 } } else { Num { k, i, f: 0.0 } } }
            1 => { let f = vs::f64(); vs::assume(f.is_finite()); Num { k, i: 0, f } }
            _ => { let f = vs::f64(); Num { k, i: 0, f } }
        }
    }
    pub fn val(&self) -> Vec<Value> { vec![match self.k { 0 => Value::Integer(self.i), 1 => Value::Decimal(self.f), _ => Value::Double(self.f) }] }
}

/// decimal and double arithmetic is IEEE arithmetic with the wider type; division of decimals by zero is an error
#[no_mangle]
pub extern "C-unwind" fn q_float() {
    let (op, ka, kb) = (vs::param(0) as usize, vs::param(1), vs::param(2));
    let p = prog(["$a + $b", "$a - $b", "$a * $b", "$a div $b", "- $a", "+ $a", "abs($a)"][op]);
    let d = doc();
    let unary = op >= 4;
    let a = Num::any(ka, unary || ka != kb || op == 3);
    let b = if unary { Num { k: kb, i: 1, f: 1.0 } } else { Num::any(kb, ka != kb || op == 3) };
    let r = run(&p, &d, &[("a", a.val()), ("b", b.val())]);
    let want = match op { 0 => a.f + b.f, 1 => a.f - b.f, 2 => a.f * b.f, 3 => a.f / b.f, 4 => -a.f, 5 => a.f, _ => a.f.abs() };
    let kind = if unary { ka } else if op == 3 && ka == 0 && kb == 0 { 1 } else if ka > kb { ka } else { kb };
    if op == 3 && kb < 2 && b.f == 0.0 {
        ck_opt!(1, "div by an integer or decimal zero is an error", r.is_err());
    } else if kind == 2 {
        ck_opt!(2, "an operation with a double gives the IEEE double result", is_dbl(&r, want));
    } else {
        ck_opt!(3, "an operation on decimals gives the correctly rounded decimal", is_dec(&r, want));
    }
}

/// idiv truncates the quotient towards zero; impossible quotients are errors
#[no_mangle]
pub extern "C-unwind" fn q_idiv() {
    let (ka, kb) = (vs::param(0), vs::param(1));
    let p = prog("$a idiv $b");
    let d = doc();
    let small = |n: Num| { vs::assume((n.i > -100) & (n.i < 100)); n };
    let a = small(Num::any(ka, true));
    let b = if kb == 0 { small(Num::any(kb, true)) } else { Num { k: kb, i: 0, f: [2.0, -0.5, 1.0, 0.0, f64::INFINITY, f64::NAN, -8.0, 1.5, 0.1, -3.0][vs::pick(if kb == 1 { 4 } else { vs::param(2) as u32 })] } };
    let r = run(&p, &d, &[("a", a.val()), ("b", b.val())]);
    let q = a.f / b.f;
    let bad = b.f == 0.0 || a.f != a.f || b.f != b.f || a.f.is_infinite();
    if bad {
        ck_opt!(1, "idiv by zero, of NaN or of an infinite value is an error", r.is_err());
    } else if q.abs() < 9.0e18 {
        ck!(2, "idiv is the quotient rounded towards zero", is_int(&r, q as i64));
    } else if q.abs() > 9.3e18 {
        ck_opt!(3, "a quotient that is no 64-bit integer is an error", r.is_err());
    }
}

/// floor, ceiling and round are exact for every value
#[no_mangle]
pub extern "C-unwind" fn q_round() {
    let (f, k) = (vs::param(0), vs::param(1));
    let p = prog(["floor($a)", "ceiling($a)", "round($a)"][f as usize]);
    let d = doc();
    let a = Num::any(k, true);
    let r = run(&p, &d, &[("a", a.val())]);
    let v = match one(&r) { Some(Value::Double(x)) if k == 2 => *x, Some(Value::Decimal(x)) if k == 1 => *x, _ => { ck!(1, "rounding keeps the numeric type", false); return } };
    ck!(1, "rounding keeps the numeric type", true);
    let x = a.f;
    if x != x { ck_opt!(2, "NaN stays NaN", v != v); return }
    if x.is_infinite() { ck_opt!(3, "infinities stay", v == x); return }
    if x.abs() >= 4503599627370496.0 { ck!(4, "values without fraction stay", v == x); return }
    let i = v as i64;
    ck!(5, "the result is an integer", i as f64 == v);
    let e = x - v;
    match f {
        0 => { ck!(6, "floor is the largest integer not above", (v <= x) & (v + 1.0 > x)); }
        1 => { ck!(7, "ceiling is the smallest integer not below", (v >= x) & (v - 1.0 < x)); }
        _ => { ck!(8, "round is the nearest integer, halves upwards", (e >= -0.5) & (e < 0.5)); }
    }
    if k == 2 && v == 0.0 && (x < 0.0 || (x == 0.0 && x.is_sign_negative())) { ck!(9, "a double that rounds up to zero from below is negative zero", v.is_sign_negative()); }
}

const FL: [f64; 14] = [0.0, -0.0, 1.0, -1.0, 2.5, -2.5, 7.0, -7.0, 0.1, 3.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e300];
/// mod of decimals and doubles keeps the sign of the dividend and is exact
#[no_mangle]
pub extern "C-unwind" fn q_mod() {
    let (ka, kb) = (vs::param(0), vs::param(1));
    let p = prog("$a mod $b");
    let d = doc();
    let a = if ka == 0 { let n = Num::any(0, true); if kb == 0 { vs::assume((n.i > -100) & (n.i < 100)); } n } else { Num { k: ka, i: 0, f: FL[vs::pick(if ka == 1 { 10 } else { 14 })] } };
    let b = if kb == 0 { let n = Num::any(0, true); if ka == 0 { vs::assume((n.i > -100) & (n.i < 100)); } n } else { Num { k: kb, i: 0, f: FL[vs::pick(if kb == 1 { 10 } else { 14 })] } };
    let r = run(&p, &d, &[("a", a.val()), ("b", b.val())]);
    let w = a.f % b.f;
    let k = if ka > kb { ka } else { kb };
    let ok = if kb < 2 && b.f == 0.0 { r.is_err() } else if k == 2 { is_dbl(&r, w) } else if k == 1 { is_dec(&r, w) } else { is_int(&r, w as i64) };
    ck!(1, "mod is the exact remainder with the sign of the dividend; a decimal zero divisor is an error", ok);
}

/// one comparable operand: kind 0 integer, 1 decimal, 2 double, 3 string, 4 boolean
pub struct Op { pub k: u64, pub n: Num, pub s: String, pub b: bool }
impl Op {
    pub fn any(k: u64, mixed: bool, len: usize) -> Op {
        let z = Num { k: 0, i: 0, f: 0.0 };
        match k {
            0 | 1 | 2 => Op { k, n: Num::any(k, mixed), s: String::new(), b: false },
            3 => Op { k, n: z, s: vs::string(b"abz", len), b: false },
            _ => Op { k, n: z, s: String::new(), b: vs::below(2) == 1 },
        }
    }
    pub fn val(&self) -> Value {
        match self.k { 0 => Value::Integer(self.n.i), 1 => Value::Decimal(self.n.f), 2 => Value::Double(self.n.f), 3 => Value::Str(self.s.clone()), _ => Value::Boolean(self.b) }
    }
    /// eq, ne, lt, le, gt, ge; None when the operands do not compare
    pub fn cmp(&self, o: &Op, op: usize) -> Option<bool> {
        if self.k < 3 && o.k < 3 {
            if self.k == 0 && o.k == 0 { let (a, b) = (self.n.i, o.n.i); return Some([a == b, a != b, a < b, a <= b, a > b, a >= b][op]) }
            let (a, b) = (self.n.f, o.n.f);
            return Some([a == b, a != b, a < b, a <= b, a > b, a >= b][op]);
        }
        if self.k == 3 && o.k == 3 {
            let (a, b) = (self.s.as_bytes(), o.s.as_bytes());
            let n = if a.len() < b.len() { a.len() } else { b.len() };
            let mut ord = 0i32;
            for i in 0..n { if ord == 0 { if a[i] < b[i] { ord = -1 } else if a[i] > b[i] { ord = 1 } } }
            if ord == 0 { ord = (a.len() as i32 - b.len() as i32).signum(); }
            return Some([ord == 0, ord != 0, ord < 0, ord <= 0, ord > 0, ord >= 0][op]);
        }
        if self.k == 4 && o.k == 4 { let (a, b) = (self.b as u8, o.b as u8); return Some([a == b, a != b, a < b, a <= b, a > b, a >= b][op]) }
        None
    }
}

/// value comparison of two atomic values of any types
#[no_mangle]
pub extern "C-unwind" fn q_cmp() {
    let (ka, kb) = (vs::param(0), vs::param(1));
    let len = vs::param(2) as usize;
    let progs: Vec<Program> = ["eq", "ne", "lt", "le", "gt", "ge"].iter().map(|o| prog(&["$a ", *o, " $b"].concat())).collect();
    let gen: Vec<Program> = ["=", "!=", "<", "<=", ">", ">="].iter().map(|o| prog(&["$a ", *o, " $b"].concat())).collect();
    let d = doc();
    // operands that do not compare end up in an error message, so numbers are representatives there
    let other = ka != kb && (ka >= 3 || kb >= 3);
    let pick = |k: u64| -> Op { if k == 0 { Op { k, n: Num { k, i: vs::pick(3) as i64 - 1, f: 0.0 }, s: String::new(), b: false } } else if k < 3 { Op { k, n: Num { k, i: 0, f: FL[vs::pick(5)] }, s: String::new(), b: false } } else { Op::any(k, true, len) } };
    let (a, b) = if other { (pick(ka), pick(kb)) } else { (Op::any(ka, ka != kb, len), Op::any(kb, ka != kb, len)) };
    for op in 0..6 {
        let want = a.cmp(&b, op);
        let r = run(&progs[op], &d, &[("a", vec![a.val()]), ("b", vec![b.val()])]);
        match want {
            Some(w) => { ck_opt!(1, "value comparison of comparable values", is_bool(&r, w)); }
            None => { ck_opt!(2, "value comparison of values of different kinds is an error", r.is_err()); }
        }
        let r = run(&gen[op], &d, &[("a", vec![a.val()]), ("b", vec![b.val()])]);
        ck!(3, "general comparison of single values agrees with value comparison", is_bool(&r, want.unwrap_or(false)));
    }
    for op in 0..6 {
        ck!(4, "value comparison with an empty operand is empty", is_empty(&run(&progs[op], &d, &[("a", vec![]), ("b", vec![b.val()])])) && is_empty(&run(&progs[op], &d, &[("a", vec![a.val()]), ("b", vec![])])));
        ck!(5, "value comparison with a sequence of several items is an error", run(&progs[op], &d, &[("a", vec![Value::Integer(1), Value::Integer(1)]), ("b", vec![Value::Integer(1)])]).is_err());
        ck!(6, "general comparison with an empty sequence is false", is_bool(&run(&gen[op], &d, &[("a", vec![a.val()]), ("b", vec![])]), false));
    }
}

/// general comparison of sequences is existential
#[no_mangle]
pub extern "C-unwind" fn q_gen() {
    let (la, lb, ka, kb) = (vs::param(0) as usize, vs::param(1) as usize, vs::param(2), vs::param(3));
    let op = vs::param(4) as usize;
    let p = prog(&["$a ", ["=", "!=", "<", "<=", ">", ">="][op], " $b"].concat());
    let d = doc();
    // ka, kb: 0-4 that kind everywhere; 9: integers and strings alternating
    let kind = |k: u64, i: usize| if k == 9 { if i % 2 == 0 { 0 } else { 3 } } else { k };
    let a: Vec<Op> = (0..la).map(|i| Op::any(kind(ka, i), ka != kb && (ka > 0 || kb > 0) && ka < 3 && kb < 3, 1)).collect();
    let b: Vec<Op> = (0..lb).map(|i| Op::any(kind(kb, i), ka != kb && (ka > 0 || kb > 0) && ka < 3 && kb < 3, 1)).collect();
    let mut want = false;
    for x in &a { for y in &b { want |= x.cmp(y, op).unwrap_or(false); } }
    let r = run(&p, &d, &[("a", a.iter().map(|x| x.val()).collect()), ("b", b.iter().map(|x| x.val()).collect())]);
    ck!(1, "a general comparison holds when some pair of items compares", is_bool(&r, want));
}

/// effective boolean value, and everything that uses it
#[no_mangle]
pub extern "C-unwind" fn q_ebv() {
    let k = vs::param(0);
    let progs: Vec<Program> = ["boolean($a)", "not($a)", "$a and true()", "true() and $a", "$a or false()", "false() or $a", "if ($a) then true() else false()", "exists((1)[$a])", "some $x in 1 satisfies $a", "every $x in 1 satisfies $a", "not(not($a))", "filter(1, function($x) { boolean($a) }) = 1"].iter().map(|s| prog(s)).collect();
    let d = new_document("<r><a/><b/></r>").unwrap();
    let root = d.root_element();
    let (seq, want): (Vec<Value>, Option<bool>) = match k {
        0 => { let i = vs::i64(); (vec![Value::Integer(i)], Some(i != 0)) }
        1 => { let f = vs::f64(); vs::assume(f.is_finite()); (vec![Value::Decimal(f)], Some(f != 0.0)) }
        2 => { let f = vs::f64(); (vec![Value::Double(f)], Some((f != 0.0) & (f == f))) }
        3 => { let s = vs::string(b"0f ", 2); let e = s.len() != 0; (vec![Value::Str(s)], Some(e)) }
        4 => { let b = vs::below(2) == 1; (vec![Value::Boolean(b)], Some(b)) }
        5 => (vec![], Some(false)),
        6 => (vec![Value::Node(root.rc_clone())], Some(true)),
        7 => (vec![Value::Node(root.rc_clone()), Value::Integer(vs::i64())], Some(true)),
        8 => (vec![Value::Integer(vs::pick(3) as i64), Value::Integer(vs::pick(3) as i64)], None),
        9 => (vec![Value::Str(vs::string(b"a", 1)), Value::Node(root.rc_clone())], None),
        _ => (vec![Value::Array(vec![])], None),
    };
    let dup = |s: &Vec<Value>| -> Vec<Value> { s.iter().map(|v| match v { Value::Integer(i) => Value::Integer(*i), Value::Decimal(f) => Value::Decimal(*f), Value::Double(f) => Value::Double(*f), Value::Str(s) => Value::Str(s.clone()), Value::Boolean(b) => Value::Boolean(*b), Value::Node(n) => Value::Node(n.rc_clone()), _ => Value::Array(vec![]) }).collect() };
    for (i, p) in progs.iter().enumerate() {
        let r = run(p, &root, &[("a", dup(&seq))]);
        if i == 7 && k < 3 { continue }     // a number in a predicate is a position
        match want {
            Some(w) => { ck_opt!(1, "conditions are decided by the effective boolean value", is_bool(&r, if i == 1 { !w } else { w })); }
            None => { ck_opt!(2, "a sequence without effective boolean value is an error", r.is_err()); }
        }
    }
}

/// and / or are the boolean operations; not() of both
#[no_mangle]
pub extern "C-unwind" fn q_logic() {
    const P: [&str; 8] = ["$a and $b", "$a or $b", "$a and $b or $c", "$a or $b and $c", "not($a and $b)", "if ($a) then $b else $c", "if ($a) then if ($b) then 1 = 1 else $c else $c and $b", "not($a) or ($b and not($c))"];
    let d = doc();
    let progs: Vec<Program> = P.iter().map(|s| prog(s)).collect();
    let (a, b, c) = (vs::below(2) == 1, vs::below(2) == 1, vs::below(2) == 1);
    let v = |x: bool| vec![Value::Boolean(x)];
    for (i, p) in progs.iter().enumerate() {
        let want = match i { 0 => a & b, 1 => a | b, 2 => (a & b) | c, 3 => a | (b & c), 4 => !(a & b), 5 => if a { b } else { c }, 6 => if a { b | c } else { c & b }, _ => !a | (b & !c) };
        ck!(1, "and, or, not and if combine truth values as defined, with and binding tighter than or", is_bool(&run(p, &d, &[("a", v(a)), ("b", v(b)), ("c", v(c))]), want));
    }
    let e = prog("if ($a) then 1 else 1 idiv 0");
    let f = prog("if ($a) then 1 idiv 0 else 2");
    ck!(2, "only the branch that is taken is evaluated", is_int(&run(&e, &d, &[("a", v(true))]), 1) && is_int(&run(&f, &d, &[("a", v(false))]), 2) && run(&e, &d, &[("a", v(false))]).is_err() && run(&f, &d, &[("a", v(true))]).is_err());
}
