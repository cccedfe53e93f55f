//! sequence types: instance of, subtypes in function signatures, conversion of arguments and results
use crate::num::one;
use crate::nodes::prog;
use crate::vs;
use amxml::dom::*;
use amxml::verif::*;

#[derive(Clone, Copy, PartialEq)]
enum A { Int, Dec, Num, Dbl, Str, Bool, Any, Untyped }
#[derive(Clone)]
enum I { Item, Node, Elem(u8), Attr(u8), Text, Comment, Pi(u8), AnyFun, AnyMap, AnyArr, At(A), Map(A, Box<T>), Arr(Box<T>), Fun(Vec<T>, Box<T>) }
#[derive(Clone)]
enum T { Empty, Occ(I, u8) }
#[derive(Clone)]
enum W { Int, Dec, Dbl, Str, Bool, Doc, Elem(u8), Attr(u8), Text, Comment, Pi(u8), Map(Vec<(W, Vec<W>)>), Arr(Vec<Vec<W>>), Fun(Vec<T>, T, String) }
/// None: the standard and the rule amxml's own tests fix differ, or it is left open
type B3 = Option<bool>;
fn and3(x: B3, y: B3) -> B3 { if x == Some(false) || y == Some(false) { Some(false) } else if x.is_none() || y.is_none() { None } else { Some(true) } }
fn both(x: B3, y: B3) -> B3 { if x == y { x } else { None } }
const ATOMS: [A; 8] = [A::Int, A::Dec, A::Num, A::Dbl, A::Str, A::Bool, A::Any, A::Untyped];
fn aname(a: A) -> &'static str { match a { A::Int => "integer", A::Dec => "decimal", A::Num => "numeric", A::Dbl => "double", A::Str => "string", A::Bool => "boolean", A::Any => "anyAtomicType", A::Untyped => "untypedAtomic" } }
fn derives(a: A, b: A) -> bool {
    a == b || b == A::Any || (b == A::Num && (a == A::Int || a == A::Dec || a == A::Dbl)) || (b == A::Dec && a == A::Int)
}
fn any_seq() -> T { T::Occ(I::Item, b'*') }

// ---- printing
fn show_i(i: &I, xs: bool, o: &mut String) {
    let named = |k: &str, n: u8, o: &mut String| { o.push_str(k); o.push('('); if n != 0 { o.push(n as char) } o.push(')') };
    let atom = |a: A, o: &mut String| { if xs { o.push_str("xs:") } o.push_str(aname(a)) };
    match i {
        I::Item => o.push_str("item()"), I::Node => o.push_str("node()"), I::Text => o.push_str("text()"), I::Comment => o.push_str("comment()"),
        I::Elem(n) => named("element", *n, o), I::Attr(n) => named("attribute", *n, o),
        I::Pi(n) => if *n == b'Q' { o.push_str("processing-instruction('q')") } else { named("processing-instruction", *n, o) },
        I::AnyFun => o.push_str("function(*)"), I::AnyMap => o.push_str("map(*)"), I::AnyArr => o.push_str("array(*)"),
        I::At(a) => atom(*a, o),
        I::Map(k, v) => { o.push_str("map("); atom(*k, o); o.push_str(", "); show_t(v, xs, o); o.push(')') }
        I::Arr(t) => { o.push_str("array("); show_t(t, xs, o); o.push(')') }
        I::Fun(ps, r) => { o.push_str("function("); for (k, p) in ps.iter().enumerate() { if k > 0 { o.push(',') } show_t(p, xs, o) } o.push_str(") as "); show_t(r, xs, o) }
    }
}
fn show_t(t: &T, xs: bool, o: &mut String) {
    match t {
        T::Empty => o.push_str("empty-sequence()"),
        // without parentheses the indicator would belong to the result type
        T::Occ(i, c) => { let par = match i { I::Fun(..) => *c != b' ', _ => false }; if par { o.push('(') } show_i(i, xs, o); if par { o.push(')') } if *c != b' ' { o.push(*c as char) } }
    }
}
fn show_w(w: &W, o: &mut String) {
    match w {
        W::Int => o.push_str("$i"), W::Dec => o.push_str("$d"), W::Dbl => o.push_str("$e"), W::Str => o.push_str("$s"), W::Bool => o.push_str("$b"),
        W::Doc => o.push('/'), W::Elem(n) => o.push(*n as char), W::Attr(n) => { o.push('@'); o.push(*n as char) }
        W::Text => o.push_str("text()"), W::Comment => o.push_str("comment()"),
        W::Pi(n) => { o.push_str("processing-instruction("); o.push(*n as char); o.push(')') }
        W::Map(m) => { o.push_str("map{"); for (i, (k, v)) in m.iter().enumerate() { if i > 0 { o.push(',') } match k { W::Int => o.push((b'1' + i as u8) as char), W::Str => { o.push('"'); o.push((b'k' + i as u8) as char); o.push('"') } W::Bool => o.push_str(if i == 0 { "true()" } else { "false()" }), _ => { o.push((b'1' + i as u8) as char); o.push_str(".5") } } o.push(':'); show_v(v, o) } o.push('}') }
        W::Arr(m) => { o.push('['); for (i, v) in m.iter().enumerate() { if i > 0 { o.push(',') } show_v(v, o) } o.push(']') }
        W::Fun(_, _, s) => o.push_str(s),
    }
}
fn show_v(v: &[W], o: &mut String) { o.push('('); for (i, w) in v.iter().enumerate() { if i > 0 { o.push_str(", ") } show_w(w, o) } o.push(')') }

// ---- reference
fn occurs(n: usize, c: u8) -> bool { match c { b'?' => n <= 1, b'*' => true, b'+' => n >= 1, _ => n == 1 } }
fn inst(v: &[W], t: &T) -> B3 {
    match t {
        T::Empty => Some(v.is_empty()),
        T::Occ(i, c) => { let mut r = Some(occurs(v.len(), *c)); for w in v { r = and3(r, inst_i(w, i)) } r }
    }
}
fn inst_i(w: &W, i: &I) -> B3 {
    Some(match (i, w) {
        (I::Item, _) => true,
        (I::Node, W::Doc) | (I::Node, W::Elem(_)) | (I::Node, W::Attr(_)) | (I::Node, W::Text) | (I::Node, W::Comment) | (I::Node, W::Pi(_)) => true,
        (I::Elem(n), W::Elem(m)) => *n == 0 || *n == b'*' || n == m,
        (I::Attr(n), W::Attr(m)) => *n == 0 || *n == b'*' || n == m,
        (I::Pi(n), W::Pi(m)) => *n == 0 || (*n | 32) == *m,
        (I::Text, W::Text) | (I::Comment, W::Comment) => true,
        (I::AnyFun, W::Fun(..)) | (I::AnyFun, W::Map(_)) | (I::AnyFun, W::Arr(_)) | (I::AnyMap, W::Map(_)) | (I::AnyArr, W::Arr(_)) => true,
        (I::At(a), W::Int) => derives(A::Int, *a),
        (I::At(a), W::Dec) => derives(A::Dec, *a),
        (I::At(a), W::Dbl) => derives(A::Dbl, *a),
        (I::At(a), W::Str) => derives(A::Str, *a),
        (I::At(a), W::Bool) => derives(A::Bool, *a),
        (I::Map(k, t), W::Map(m)) => { let mut r = Some(true); for (key, v) in m { r = and3(r, inst_i(key, &I::At(*k))); r = and3(r, inst(v, t)) } return r }
        (I::Arr(t), W::Arr(m)) => { let mut r = Some(true); for v in m { r = and3(r, inst(v, t)) } return r }
        (I::Fun(ps, r), W::Fun(qs, s, _)) => return sub_fun(qs, s, ps, r),
        (I::Fun(ps, r), W::Map(m)) => {
            if ps.len() != 1 { return Some(false) }
            // the standard: a function from atomic values to the values or nothing; amxml: from the keys to the values
            let mut values = Some(true); let mut keys = Some(true);
            for (key, v) in m { values = and3(values, inst(v, r)); keys = and3(keys, match &ps[0] { T::Occ(i @ I::At(_), _) => inst_i(key, i), _ => Some(false) }) }
            return both(and3(and3(values, inst(&[], r)), sub(&ps[0], &T::Occ(I::At(A::Any), b' '))), and3(values, keys))
        }
        (I::Fun(ps, r), W::Arr(m)) => {
            if ps.len() != 1 { return Some(false) }
            let mut values = Some(true);
            for v in m { values = and3(values, inst(v, r)) }
            return both(and3(values, sub(&ps[0], &T::Occ(I::At(A::Int), b' '))), and3(values, inst(&[W::Int], &ps[0])))
        }
        _ => false,
    })
}
fn sub_fun(qs: &[T], s: &T, ps: &[T], r: &T) -> B3 {
    if qs.len() != ps.len() { return Some(false) }
    let mut x = sub(s, r);
    for (p, q) in ps.iter().zip(qs) { x = and3(x, sub(p, q)) }
    x
}
fn sub(a: &T, b: &T) -> B3 {
    match (a, b) {
        (T::Empty, T::Empty) => Some(true),
        (T::Empty, T::Occ(_, c)) => Some(occurs(0, *c)),
        (T::Occ(..), T::Empty) => Some(false),
        (T::Occ(i, c), T::Occ(k, d)) => {
            let fits = (occurs(0, *d) || !occurs(0, *c)) && (occurs(2, *d) || !occurs(2, *c));
            and3(Some(fits), sub_i(i, k))
        }
    }
}
/// map(*) and array(*) written out
fn norm(i: &I) -> I { match i { I::AnyMap => I::Map(A::Any, Box::new(any_seq())), I::AnyArr => I::Arr(Box::new(any_seq())), _ => i.clone() } }
fn sub_i(a: &I, b: &I) -> B3 {
    let (a, b) = (norm(a), norm(b));
    Some(match (&a, &b) {
        (_, I::Item) => true,
        (I::Node, I::Node) | (I::Elem(_), I::Node) | (I::Attr(_), I::Node) | (I::Text, I::Node) | (I::Comment, I::Node) | (I::Pi(_), I::Node) => true,
        (I::Text, I::Text) | (I::Comment, I::Comment) => true,
        (I::Elem(n), I::Elem(m)) | (I::Attr(n), I::Attr(m)) => *m == 0 || *m == b'*' || n == m,
        (I::Pi(n), I::Pi(m)) => *m == 0 || (*n != 0 && (*n | 32) == (*m | 32)),
        (I::At(x), I::At(y)) => derives(*x, *y),
        (I::AnyFun, I::AnyFun) | (I::Fun(..), I::AnyFun) | (I::Map(..), I::AnyFun) | (I::Arr(_), I::AnyFun) => true,
        (I::Fun(qs, s), I::Fun(ps, r)) => return sub_fun(qs, s, ps, r),
        (I::Map(k, v), I::Map(l, w)) => return and3(Some(derives(*k, *l)), sub(v, w)),
        (I::Arr(v), I::Arr(w)) => return sub(v, w),
        (I::Map(k, v), I::Fun(ps, r)) => {
            if ps.len() != 1 { return Some(false) }
            let own = match &ps[0] { T::Occ(i, _) => sub_i(&I::At(*k), i), T::Empty => Some(false) };
            return both(and3(and3(sub(v, r), Some(inst(&[], r) == Some(true))), sub(&ps[0], &T::Occ(I::At(A::Any), b' '))), and3(sub(v, r), own))
        }
        (I::Arr(v), I::Fun(ps, r)) => {
            if ps.len() != 1 { return Some(false) }
            let own = match &ps[0] { T::Occ(I::At(x), _) => Some(derives(A::Int, *x)), _ => Some(false) };
            return both(and3(sub(v, r), sub(&ps[0], &T::Occ(I::At(A::Int), b' '))), and3(sub(v, r), own))
        }
        _ => false,
    })
}

// ---- generators: leaf(set) with symbolic choice; occurrence indicators and names are symbolic characters
const LEAVES: usize = 18;
fn leaf_i(set: u64) -> I {
    let k = if set == 1 { [0, 16, 10, 2, 7][vs::pick(5)] } else if set >= 100 { set as usize - 100 } else { vs::pick(LEAVES as u32) };
    match k {
        0 => I::Item, 1 => I::Node, 2 => I::Elem(*pick_of(b"ab*\0")), 3 => I::Attr(*pick_of(b"xy*\0")), 4 => I::Text, 5 => I::Comment, 6 => I::Pi(*pick_of(b"pqQ\0")),
        7 => I::AnyFun, 8 => I::AnyMap, 9 => I::AnyArr, n => I::At(ATOMS[n - 10]),
    }
}
fn pick_of(s: &'static [u8]) -> &'static u8 { &s[vs::pick(s.len() as u32)] }
fn occ() -> u8 { *pick_of(b" ?*+") }
fn leaf_t(set: u64) -> T {
    if set == 2 { return [any_seq(), T::Occ(I::At(A::Int), b' '), T::Occ(I::At(A::Int), b'?'), T::Occ(I::At(A::Dec), b'+'), T::Occ(I::Elem(b'a'), b'*'), T::Occ(I::AnyFun, b' '), T::Empty, T::Occ(I::At(A::Str), b' ')][vs::pick(8)].clone() }
    if set < 100 && vs::pick(6) == 5 { T::Empty } else { T::Occ(leaf_i(set), occ()) }
}
fn bx(t: T) -> Box<T> { Box::new(t) }
fn key_a() -> A { ATOMS[[0, 1, 4, 6][vs::pick(4)]] }
/// shapes of types
fn typ(shape: u64, set: u64) -> T {
    let i = match shape {
        0 => return leaf_t(set),
        1 => I::Map(key_a(), bx(leaf_t(set))),
        2 => I::Arr(bx(leaf_t(set))),
        3 => I::Fun(vec![leaf_t(set)], bx(leaf_t(set))),
        4 => I::Fun(vec![], bx(leaf_t(set))),
        5 => I::Fun(vec![leaf_t(set), leaf_t(set)], bx(any_seq())),
        6 => I::Arr(bx(T::Occ(I::Arr(bx(leaf_t(set))), occ()))),
        7 => I::Map(key_a(), bx(T::Occ(I::Arr(bx(leaf_t(set))), occ()))),
        8 => I::Fun(vec![leaf_t(set)], bx(any_seq())),
        9 => I::Fun(vec![T::Occ(I::Fun(vec![leaf_t(set)], bx(leaf_t(set))), b' ')], bx(any_seq())),
        10 => I::Fun(vec![], bx(T::Occ(I::Fun(vec![leaf_t(set)], bx(leaf_t(set))), b' '))),
        _ => I::Arr(bx(T::Occ(I::Map(key_a(), bx(leaf_t(set))), occ()))),
    };
    T::Occ(i, if shape >= 3 { b' ' } else { *pick_of(b" *") })
}
fn leaf_w(set: u64) -> W {
    let k = if set == 1 { [0, 3, 6][vs::pick(3)] } else if set == 2 { [0, 1, 3, 6, 9, 13, 14][vs::pick(7)] } else { vs::pick(16) };
    match k {
        0 => W::Int, 1 => W::Dec, 2 => W::Dbl, 3 => W::Str, 4 => W::Bool, 5 => W::Doc, 6 => W::Elem(b'a'), 7 => W::Elem(b'b'), 8 => W::Attr(*pick_of(b"xy")), 9 => W::Text, 10 => W::Comment, 11 => W::Pi(b'p'), 12 => W::Pi(b'q'),
        13 => W::Map(vec![]), 14 => W::Arr(vec![]), _ => fun(vec![], any_seq()),
    }
}
fn seq_w(max: u32, set: u64) -> Vec<W> { let n = vs::pick(max + 1); (0..n).map(|_| leaf_w(set)).collect() }
fn fun(ps: Vec<T>, r: T) -> W {
    let mut o = String::from("function(");
    for (k, p) in ps.iter().enumerate() { if k > 0 { o.push(',') } o.push('$'); o.push((b'p' + k as u8) as char); o.push_str(" as "); show_t(p, true, &mut o) }
    o.push_str(") as "); show_t(&r, true, &mut o); o.push_str("{()}");
    W::Fun(ps, r, o)
}
fn key_w() -> W { [W::Int, W::Str, W::Bool, W::Dec][vs::pick(4)].clone() }
/// shapes of values
fn val(shape: u64) -> Vec<W> {
    match shape {
        0 => vec![],
        1 => vec![leaf_w(0)],
        2 => vec![leaf_w(0), leaf_w(2)],
        3 => { let k = key_w(); let n = vs::pick(3); vec![W::Map((0..n).map(|_| (k.clone(), seq_w(1, 1))).collect())] }
        4 => { let n = vs::pick(3); vec![W::Arr((0..n).map(|k| if k == 0 { seq_w(2, 1) } else { vec![leaf_w(1)] }).collect())] }
        5 => vec![W::Arr(vec![vec![W::Arr(vec![seq_w(2, 1)])]])],
        6 => vec![W::Map(vec![(key_w(), vec![W::Arr(vec![seq_w(2, 1)])])])],
        7 => vec![W::Map(vec![(key_w(), vec![leaf_w(1)]), (key_w(), vec![leaf_w(1)])])],
        8 => vec![W::Arr(vec![vec![W::Map(vec![(key_w(), seq_w(1, 1))])]])],
        9 => vec![leaf_w(1), leaf_w(1), leaf_w(2)],
        11 => vec![W::Map(vec![(key_w(), seq_w(1, 1))])],
        _ => vec![W::Arr(vec![vec![leaf_w(2)]]), W::Arr(vec![vec![leaf_w(1)]])],
    }
}
fn doc() -> NodePtr { new_document("<r x='5' y='true'><a>5</a><b>z</b>t<!--c--><?p 1?><?q 2?></r>").unwrap() }
struct Ext { i: i64, d: f64, e: f64, s: String, b: bool }
fn ext() -> Ext { let i = vs::i64(); vs::assume((i >= 0) & (i < 9)); Ext { i, d: vs::f64(), e: vs::f64(), s: vs::string_n(b"a5", 1), b: vs::bool() } }
fn go(s: &str, x: &Ext) -> Result<Vec<Value>, Box<dyn std::error::Error>> { go_in(&doc(), s, x) }
fn go_in(d: &NodePtr, s: &str, x: &Ext) -> Result<Vec<Value>, Box<dyn std::error::Error>> {
    vs::obs_str(1, s);
    let p = prog(s);
    run(&p, &d.root_element(), &[("i", vec![Value::Integer(x.i)]), ("d", vec![Value::Decimal(x.d)]), ("e", vec![Value::Double(x.e)]), ("s", vec![Value::Str(x.s.clone())]), ("b", vec![Value::Boolean(x.b)])])
}
fn is_bool(r: &Result<Vec<Value>, Box<dyn std::error::Error>>, w: bool) -> bool { match one(r) { Some(Value::Boolean(b)) => *b == w, _ => false } }
fn instance(v: &[W], t: &T, xs: bool) -> Option<bool> {
    let mut s = String::new();
    show_v(v, &mut s); s.push_str(" instance of "); show_t(t, xs, &mut s);
    let r = go(&s, &ext());
    inst(v, t).map(|w| is_bool(&r, w))
}

/// parameters: shape of the value, shape of the type, leaves of the type
#[no_mangle]
pub extern "C-unwind" fn y_inst() {
    let (v, t) = (val(vs::param(0)), typ(vs::param(1), vs::param(2)));
    let xs = match vs::param(3) { 0 => true, 1 => false, _ => vs::coin() };
    if let Some(ok) = instance(&v, &t, xs) { ck!(1, "instance of: number of items, kind, name, content", ok); }
}
/// signatures of inline functions: parameter 0: 0 results, 1 arguments, 2 number of arguments, 3 partial application; then the shapes and leaves of the two types
#[no_mangle]
pub extern "C-unwind" fn y_fun() {
    let k = vs::param(0);
    let (a, b) = (typ(vs::param(1), vs::param(2)), typ(vs::param(3), vs::param(4)));
    let (w, t) = match k {
        0 => (fun(vec![], a), T::Occ(I::Fun(vec![], bx(b)), b' ')),
        1 => (fun(vec![a], any_seq()), T::Occ(I::Fun(vec![b], bx(any_seq())), b' ')),
        2 => { let (n, m) = (vs::pick(4), vs::pick(4)); (fun(vec![a; n], any_seq()), T::Occ(I::Fun(vec![b; m], bx(any_seq())), b' ')) }
        _ => {
            // function($p as a, $q as a, $r as c) with one or two of the arguments fixed
            let c = T::Occ(I::At(A::Int), b' ');
            let ps = vec![a.clone(), c.clone(), a.clone()];
            let open = 1 + vs::pick(6);
            let mut s = match fun(ps.clone(), c) { W::Fun(_, _, s) => s, _ => unreachable!() };
            if vs::coin() { s = "let $f := ".to_owned() + &s + " return $f"; }
            s.insert(0, '('); s.push_str(")(");
            for k in 0..3 { if k > 0 { s.push(',') } s.push_str(if open >> k & 1 == 1 { "?" } else { "1" }) }
            s.push(')');
            let left: Vec<T> = (0..3).filter(|k| open >> k & 1 == 1).map(|k| ps[k].clone()).collect();
            let want = vs::pick(3);
            (W::Fun(left, T::Occ(I::At(A::Int), b' '), s), T::Occ(I::Fun(vec![b; want], bx(T::Occ(I::At(A::Dec), b' '))), b' '))
        }
    };
    if let Some(ok) = instance(&[w], &t, true) { ck!(1, "a function is an instance of a function type iff its result type is a subtype and its argument types are supertypes", ok); }
}
/// name, argument types and result type as the standard gives them
fn signature(k: usize) -> (&'static str, Vec<T>) {
    let t = |i: I, c: u8| T::Occ(i, c);
    match k {
        0 => ("nilled#1", vec![t(I::Node, b'?'), t(I::At(A::Bool), b'?')]),
        1 => ("string#0", vec![t(I::At(A::Str), b' ')]),
        2 => ("string#1", vec![t(I::Item, b'?'), t(I::At(A::Str), b' ')]),
        3 => ("data#0", vec![t(I::At(A::Any), b'*')]),
        4 => ("data#1", vec![t(I::Item, b'*'), t(I::At(A::Any), b'*')]),
        5 => ("abs#1", vec![t(I::At(A::Num), b'?'), t(I::At(A::Num), b'?')]),
        6 => ("ceiling#1", vec![t(I::At(A::Num), b'?'), t(I::At(A::Num), b'?')]),
        7 => ("floor#1", vec![t(I::At(A::Num), b'?'), t(I::At(A::Num), b'?')]),
        8 => ("round#1", vec![t(I::At(A::Num), b'?'), t(I::At(A::Num), b'?')]),
        9 => ("number#0", vec![t(I::At(A::Dbl), b' ')]),
        10 => ("number#1", vec![t(I::At(A::Any), b'?'), t(I::At(A::Dbl), b' ')]),
        11 => ("codepoints-to-string#1", vec![t(I::At(A::Int), b'*'), t(I::At(A::Str), b' ')]),
        12 => ("string-to-codepoints#1", vec![t(I::At(A::Str), b'?'), t(I::At(A::Int), b'*')]),
        13 => ("compare#2", vec![t(I::At(A::Str), b'?'), t(I::At(A::Str), b'?'), t(I::At(A::Int), b'?')]),
        14 => ("codepoint-equal#2", vec![t(I::At(A::Str), b'?'), t(I::At(A::Str), b'?'), t(I::At(A::Bool), b'?')]),
        15 => ("concat#2", vec![t(I::At(A::Any), b'?'), t(I::At(A::Any), b'?'), t(I::At(A::Str), b' ')]),
        16 => ("concat#3", vec![t(I::At(A::Any), b'?'), t(I::At(A::Any), b'?'), t(I::At(A::Any), b'?'), t(I::At(A::Str), b' ')]),
        17 => ("substring#2", vec![t(I::At(A::Str), b'?'), t(I::At(A::Dbl), b' '), t(I::At(A::Str), b' ')]),
        18 => ("substring#3", vec![t(I::At(A::Str), b'?'), t(I::At(A::Dbl), b' '), t(I::At(A::Dbl), b' '), t(I::At(A::Str), b' ')]),
        19 => ("string-length#0", vec![t(I::At(A::Int), b' ')]),
        20 => ("string-length#1", vec![t(I::At(A::Str), b'?'), t(I::At(A::Int), b' ')]),
        21 => ("normalize-space#0", vec![t(I::At(A::Str), b' ')]),
        22 => ("normalize-space#1", vec![t(I::At(A::Str), b'?'), t(I::At(A::Str), b' ')]),
        23 => ("upper-case#1", vec![t(I::At(A::Str), b'?'), t(I::At(A::Str), b' ')]),
        24 => ("lower-case#1", vec![t(I::At(A::Str), b'?'), t(I::At(A::Str), b' ')]),
        25 => ("translate#3", vec![t(I::At(A::Str), b'?'), t(I::At(A::Str), b' '), t(I::At(A::Str), b' '), t(I::At(A::Str), b' ')]),
        26 => ("contains#2", vec![t(I::At(A::Str), b'?'), t(I::At(A::Str), b'?'), t(I::At(A::Bool), b' ')]),
        27 => ("starts-with#2", vec![t(I::At(A::Str), b'?'), t(I::At(A::Str), b'?'), t(I::At(A::Bool), b' ')]),
        28 => ("ends-with#2", vec![t(I::At(A::Str), b'?'), t(I::At(A::Str), b'?'), t(I::At(A::Bool), b' ')]),
        29 => ("substring-before#2", vec![t(I::At(A::Str), b'?'), t(I::At(A::Str), b'?'), t(I::At(A::Str), b' ')]),
        30 => ("substring-after#2", vec![t(I::At(A::Str), b'?'), t(I::At(A::Str), b'?'), t(I::At(A::Str), b' ')]),
        31 => ("true#0", vec![t(I::At(A::Bool), b' ')]),
        32 => ("false#0", vec![t(I::At(A::Bool), b' ')]),
        33 => ("boolean#1", vec![t(I::Item, b'*'), t(I::At(A::Bool), b' ')]),
        34 => ("not#1", vec![t(I::Item, b'*'), t(I::At(A::Bool), b' ')]),
        35 => ("name#0", vec![t(I::At(A::Str), b' ')]),
        36 => ("name#1", vec![t(I::Node, b'?'), t(I::At(A::Str), b' ')]),
        37 => ("local-name#0", vec![t(I::At(A::Str), b' ')]),
        38 => ("local-name#1", vec![t(I::Node, b'?'), t(I::At(A::Str), b' ')]),
        39 => ("lang#1", vec![t(I::At(A::Str), b'?'), t(I::At(A::Bool), b' ')]),
        40 => ("lang#2", vec![t(I::At(A::Str), b'?'), t(I::Node, b' '), t(I::At(A::Bool), b' ')]),
        41 => ("root#0", vec![t(I::Node, b' ')]),
        42 => ("root#1", vec![t(I::Node, b'?'), t(I::Node, b'?')]),
        43 => ("empty#1", vec![t(I::Item, b'*'), t(I::At(A::Bool), b' ')]),
        44 => ("exists#1", vec![t(I::Item, b'*'), t(I::At(A::Bool), b' ')]),
        45 => ("head#1", vec![t(I::Item, b'*'), t(I::Item, b'?')]),
        46 => ("tail#1", vec![t(I::Item, b'*'), t(I::Item, b'*')]),
        47 => ("insert-before#3", vec![t(I::Item, b'*'), t(I::At(A::Int), b' '), t(I::Item, b'*'), t(I::Item, b'*')]),
        48 => ("remove#2", vec![t(I::Item, b'*'), t(I::At(A::Int), b' '), t(I::Item, b'*')]),
        49 => ("reverse#1", vec![t(I::Item, b'*'), t(I::Item, b'*')]),
        50 => ("subsequence#2", vec![t(I::Item, b'*'), t(I::At(A::Dbl), b' '), t(I::Item, b'*')]),
        51 => ("subsequence#3", vec![t(I::Item, b'*'), t(I::At(A::Dbl), b' '), t(I::At(A::Dbl), b' '), t(I::Item, b'*')]),
        52 => ("index-of#2", vec![t(I::At(A::Any), b'*'), t(I::At(A::Any), b' '), t(I::At(A::Int), b'*')]),
        53 => ("zero-or-one#1", vec![t(I::Item, b'*'), t(I::Item, b'?')]),
        54 => ("one-or-more#1", vec![t(I::Item, b'*'), t(I::Item, b'+')]),
        55 => ("exactly-one#1", vec![t(I::Item, b'*'), t(I::Item, b' ')]),
        56 => ("count#1", vec![t(I::Item, b'*'), t(I::At(A::Int), b' ')]),
        57 => ("avg#1", vec![t(I::At(A::Any), b'*'), t(I::At(A::Any), b'?')]),
        58 => ("max#1", vec![t(I::At(A::Any), b'*'), t(I::At(A::Any), b'?')]),
        59 => ("min#1", vec![t(I::At(A::Any), b'*'), t(I::At(A::Any), b'?')]),
        60 => ("sum#1", vec![t(I::At(A::Any), b'*'), t(I::At(A::Any), b' ')]),
        61 => ("sum#2", vec![t(I::At(A::Any), b'*'), t(I::At(A::Any), b'?'), t(I::At(A::Any), b'?')]),
        62 => ("position#0", vec![t(I::At(A::Int), b' ')]),
        63 => ("last#0", vec![t(I::At(A::Int), b' ')]),
        64 => ("map:size#1", vec![t(I::AnyMap, b' '), t(I::At(A::Int), b' ')]),
        65 => ("map:keys#1", vec![t(I::AnyMap, b' '), t(I::At(A::Any), b'*')]),
        66 => ("map:contains#2", vec![t(I::AnyMap, b' '), t(I::At(A::Any), b' '), t(I::At(A::Bool), b' ')]),
        67 => ("map:get#2", vec![t(I::AnyMap, b' '), t(I::At(A::Any), b' '), t(I::Item, b'*')]),
        68 => ("array:size#1", vec![t(I::AnyArr, b' '), t(I::At(A::Int), b' ')]),
        69 => ("array:get#2", vec![t(I::AnyArr, b' '), t(I::At(A::Int), b' '), t(I::Item, b'*')]),
        70 => ("array:flatten#1", vec![t(I::Item, b'*'), t(I::Item, b'*')]),
        71 => ("for-each#2", vec![t(I::Item, b'*'), t(I::Fun(vec![t(I::Item, b' ')], bx(any_seq())), b' '), any_seq()]),
        73 => ("string-join#1", vec![t(I::At(A::Any), b'*'), t(I::At(A::Str), b' ')]),
        74 => ("string-join#2", vec![t(I::At(A::Any), b'*'), t(I::At(A::Str), b' '), t(I::At(A::Str), b' ')]),
        _ => ("filter#2", vec![t(I::Item, b'*'), t(I::Fun(vec![t(I::Item, b' ')], bx(t(I::At(A::Bool), b' '))), b' '), any_seq()]),
    }
}
const SIGS: u32 = 75;
/// signatures of the functions: one part of the function type replaced by any type, or any argument fixed
#[no_mangle]
pub extern "C-unwind" fn y_named() {
    let (k, part, set) = (vs::param(0) as usize * 8 + vs::pick(8), vs::param(1), vs::param(2));
    if k >= SIGS as usize { return }
    let (name, mut sig) = signature(k);
    let own = sig.pop().unwrap();
    let (mut ps, mut r) = (sig.clone(), own.clone());
    let mut text = String::from(name);
    match part {
        0 => {}
        1 => r = typ(0, set),
        2 => { if ps.is_empty() { return } let i = vs::pick(ps.len() as u32); ps[i] = typ(0, set); }
        3 => if ps.is_empty() || vs::coin() { ps.push(any_seq()) } else { ps.pop(); },
        _ => {
            if ps.is_empty() { return }
            // fixed in part
            let open = vs::pick(1 << ps.len()) | 1 << vs::pick(ps.len() as u32);
            let way = vs::pick(3);
            if way == 0 { text.truncate(name.find('#').unwrap()) } else if way == 1 { text.insert(0, '('); text.push(')') } else { text = "(let $f := ".to_owned() + &text + " return $f)" }
            text.push('(');
            for k in 0..ps.len() { if k > 0 { text.push(',') } text.push_str(if open >> k & 1 == 1 { "?" } else { "()" }) }
            text.push(')');
            sig = (0..ps.len()).filter(|k| open >> k & 1 == 1).map(|k| ps[k].clone()).collect();
            ps = sig.clone();
            if part == 5 { let i = vs::pick(ps.len() as u32); ps[i] = typ(0, set); }
        }
    }
    let w = W::Fun(sig, own, text);
    if let Some(ok) = instance(&[w], &T::Occ(I::Fun(ps, bx(r)), b' '), true) { ck!(1, "a function is an instance of the function types that fit its signature", ok); }
}

// ---- conversion
/// what an item is after conversion to the atomic type; Err: an error
fn convert(w: &W, a: A, x: &Ext, out: &mut Vec<Value>) -> bool {
    let node = |s: &str, out: &mut Vec<Value>| -> bool {
        out.push(match (a, s) {
            (A::Any, _) | (A::Str, _) => Value::Str(s.to_owned()),
            (A::Int, "5") => Value::Integer(5), (A::Dec, "5") => Value::Decimal(5.0), (A::Dbl, "5") | (A::Num, "5") => Value::Double(5.0), (A::Bool, "true") => Value::Boolean(true),
            _ => return false,
        });
        true
    };
    match w {
        W::Int => { out.push(if a == A::Dbl { Value::Double(x.i as f64) } else { Value::Integer(x.i) }); derives(A::Int, a) || a == A::Dbl }
        W::Dec => { out.push(if a == A::Dbl { Value::Double(x.d) } else { Value::Decimal(x.d) }); derives(A::Dec, a) || a == A::Dbl }
        W::Dbl => { out.push(Value::Double(x.e)); derives(A::Dbl, a) }
        W::Str => { out.push(Value::Str(x.s.clone())); derives(A::Str, a) }
        W::Bool => { out.push(Value::Boolean(x.b)); derives(A::Bool, a) }
        W::Elem(b'a') | W::Attr(b'x') => node("5", out),
        W::Attr(_) => node("true", out),
        W::Elem(_) => node("z", out),
        W::Text => node("t", out),
        W::Arr(m) => m.iter().all(|v| v.iter().all(|w| convert(w, a, x, out))),
        _ => false,
    }
}
fn plain(w: &W) -> bool { match w { W::Doc | W::Comment | W::Pi(_) => false, W::Arr(m) => m.iter().all(|v| v.iter().all(plain)), _ => true } }
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Integer(x), Value::Integer(y)) => x == y,
        (Value::Decimal(x), Value::Decimal(y)) | (Value::Double(x), Value::Double(y)) => crate::num::same(*x, *y),
        (Value::Str(x), Value::Str(y)) => x == y,
        (Value::Boolean(x), Value::Boolean(y)) => x == y,
        _ => false,
    }
}
/// parameter 0: 0 argument, 1 result, 2 argument of a partial application; shapes of value and type, leaves of the type
#[no_mangle]
pub extern "C-unwind" fn y_conv() {
    let how = vs::param(0);
    let (v, t) = (val(vs::param(1)), typ(vs::param(2), vs::param(3)));
    if !v.iter().all(plain) { return }
    let x = ext();
    // plain finite decimals
    let mut x = x;
    if v.len() > 1 { x = Ext { i: 3, d: 1.5, e: 0.5, s: x.s, b: x.b } }
    vs::assume((x.d == 1.5) | (x.d == -2.25)); vs::assume((x.e == 0.5) | (x.e == 1e30));
    let (mut ty, mut s, mut value) = (String::new(), String::new(), String::new());
    show_t(&t, true, &mut ty); show_v(&v, &mut value);
    match how {
        0 => { s.push_str("function($x as "); s.push_str(&ty); s.push_str("){$x}("); s.push_str(&value); s.push(')') }
        1 => { s.push_str("function() as "); s.push_str(&ty); s.push('{'); s.push_str(&value); s.push_str("}()") }
        _ => { s.push_str("function($z, $x as "); s.push_str(&ty); s.push_str("){$x}(1, ?)("); s.push_str(&value); s.push(')') }
    }
    let r = go(&s, &x);
    match &t {
        T::Occ(I::At(a), c) => {
            let mut want = vec![];
            let ok = v.iter().all(|w| convert(w, *a, &x, &mut want)) && occurs(want.len(), *c);
            if *a == A::Untyped && !v.is_empty() { return }
            if ok { ck!(1, "the value is atomized, node values are cast, numbers promoted", match &r { Ok(g) => g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| same(a, b)), Err(_) => false }); }
            else { ck!(2, "a value that does not fit the declared type is an error", r.is_err()); }
        }
        _ => {
            // functions are not coerced
            match inst(&v, &t) {
                Some(true) => { ck!(3, "a value of the declared type is passed on as it is", match &r { Ok(g) => g.len() == v.len(), Err(_) => false }); }
                Some(false) => { ck!(2, "a value that does not fit the declared type is an error", r.is_err()); }
                None => {}
            }
        }
    }
}

// ---- arguments of the built-in functions
const CALLS: [(&str, A, u8); 78] = [
    ("abs(#)", A::Num, b'?'), ("ceiling(#)", A::Num, b'?'), ("floor(#)", A::Num, b'?'), ("round(#)", A::Num, b'?'),
    ("number(#)", A::Any, b'?'), ("codepoints-to-string(#)", A::Int, b'*'), ("string-to-codepoints(#)", A::Str, b'?'),
    ("compare(#, 'a')", A::Str, b'?'), ("compare('a', #)", A::Str, b'?'), ("codepoint-equal(#, '5')", A::Str, b'?'), ("codepoint-equal('5', #)", A::Str, b'?'),
    ("concat(#, 'b')", A::Any, b'?'), ("concat('a', 'b', #)", A::Any, b'?'), ("string-join(#)", A::Any, b'*'), ("string-join(#, '-')", A::Any, b'*'), ("string-join(('a', 'b'), #)", A::Str, b' '),
    ("substring(#, 1)", A::Str, b'?'), ("substring('abc', #)", A::Dbl, b' '), ("substring('abc', 1, #)", A::Dbl, b' '), ("substring(#, 1, 1)", A::Str, b'?'),
    ("string-length(#)", A::Str, b'?'), ("normalize-space(#)", A::Str, b'?'), ("upper-case(#)", A::Str, b'?'), ("lower-case(#)", A::Str, b'?'),
    ("translate(#, 'a', 'b')", A::Str, b'?'), ("translate('a5z', #, 'x')", A::Str, b' '), ("translate('a5z', 'a', #)", A::Str, b' '),
    ("contains(#, '5')", A::Str, b'?'), ("contains('5az', #)", A::Str, b'?'), ("starts-with(#, '5')", A::Str, b'?'), ("starts-with('5az', #)", A::Str, b'?'),
    ("ends-with(#, '5')", A::Str, b'?'), ("ends-with('az5', #)", A::Str, b'?'), ("substring-before(#, '5')", A::Str, b'?'), ("substring-before('za5', #)", A::Str, b'?'), ("substring-after(#, 'a')", A::Str, b'?'), ("substring-after('za5', #)", A::Str, b'?'),
    ("insert-before((1, 2), #, 9)", A::Int, b' '), ("remove((1, 2, 3), #)", A::Int, b' '), ("subsequence((1, 2, 3), #)", A::Dbl, b' '), ("subsequence((1, 2, 3), 1, #)", A::Dbl, b' '),
    ("index-of(#, '5')", A::Any, b'*'), ("index-of(('5', 'a', 'true'), #)", A::Any, b' '),
    ("map:contains(map{'5' : 1, 'a' : 2}, #)", A::Any, b' '), ("map:get(map{'5' : 1, 'a' : 2}, #)", A::Any, b' '), ("array:get([7, 8, 9], #)", A::Int, b' '),
    ("sum(#)", A::Any, b'*'), ("avg(#)", A::Any, b'*'), ("max(#)", A::Any, b'*'), ("min(#)", A::Any, b'*'), ("sum((), #)", A::Any, b'?'), ("lang(#)", A::Str, b'?'),
    // operands
    ("# + 1", A::Num, b'?'), ("7 - #", A::Num, b'?'), ("- #", A::Num, b'?'), ("# * 2", A::Num, b'?'), ("2.5 div #", A::Num, b'?'), ("# idiv 2", A::Num, b'?'), ("# mod 2", A::Num, b'?'),
    ("# to 7", A::Int, b'?'), ("1 to #", A::Int, b'?'), ("# || 'a'", A::Any, b'?'), ("'a' || #", A::Any, b'?'),
    ("# cast as xs:string?", A::Any, b'?'), ("# cast as xs:integer?", A::Any, b'?'), ("# cast as xs:double", A::Any, b' '), ("# castable as xs:integer", A::Any, b' '), ("# castable as xs:boolean?", A::Any, b'?'),
    ("# eq '5'", A::Any, b'?'), ("'a' lt #", A::Any, b'?'), ("# = '5'", A::Any, b'*'), ("('a', '5') != #", A::Any, b'*'),
    ("[7, 8, 9]?(#)", A::Int, b'*'), ("map{'5' : 1, 'a' : 2}?(#)", A::Any, b'*'), ("[7, 8, 9](#)", A::Int, b' '), ("map{'5' : 1, 'a' : 2}(#)", A::Any, b' '), ("map{# : 1}?*", A::Any, b' '), ("map:keys(map{# : 1})", A::Any, b' '),
];
fn has_node(w: &W) -> bool { match w { W::Elem(_) | W::Attr(_) | W::Text | W::Doc | W::Comment | W::Pi(_) => true, W::Arr(m) => m.iter().any(|v| v.iter().any(has_node)), _ => false } }
/// parameters: the call, the shape of the argument, the form of the call
#[no_mangle]
pub extern "C-unwind" fn y_args() {
    let (call, a, c) = CALLS[vs::param(0) as usize];
    let way = vs::param(2);
    let v = val(vs::param(1));
    if !v.iter().all(plain) { return }
    let mut value = String::new();
    show_v(&v, &mut value);
    let has = |s: &str| value.contains(s);
    let x = Ext { i: if has("$i") { [0, 2, 5][vs::pick(3)] } else { 0 }, d: 1.5, e: if has("$e") { [0.5, 2.0][vs::pick(2)] } else { 0.5 }, s: if has("$s") { ["a", "5"][vs::pick(2)].to_owned() } else { String::new() }, b: has("$b") && vs::coin() };
    // the aggregates take a node's value as a number
    let agg = call.starts_with("sum") || call.starts_with("avg") || call.starts_with("m");
    if agg && !call.starts_with("map") && v.iter().any(has_node) { return }
    let with = |s: &str| -> String {
        match way {
            0 => call.replace("#", s),
            1 => call.replace("#", "?") + "(" + s + ")",
            _ => { let n = call.find('(').unwrap(); let args = call[n + 1..call.len() - 1].replace("#", s); let k = match call { "concat(#, 'b')" | "string-join(#, '-')" => 2, _ => arity(&call[n + 1..]) }; [&call[..n], "#", ["", "1", "2", "3"][k], "(", &args, ")"].concat() }
        }
    };
    let r = go(&with(&value), &x);
    let mut want = vec![];
    let ok = v.iter().all(|w| convert(w, a, &x, &mut want)) && occurs(want.len(), c);
    if ok {
        let p = prog(&call.replace("#", "$c"));
        let d = doc();
        let e = run(&p, &d.root_element(), &[("c", want)]);
        ck!(1, "the argument is atomized, node values are cast, numbers promoted", match (&r, &e) { (Ok(g), Ok(e)) => g.len() == e.len() && g.iter().zip(e).all(|(a, b)| same(a, b)), (Err(_), Err(_)) => true, _ => false });
    } else if call.contains("castable") {
        ck_opt!(3, "what cannot be atomized to one value is not castable", match one(&r) { Some(Value::Boolean(b)) => !*b, _ => r.is_err() });
    } else {
        ck!(2, "an argument that does not fit the signature is an error", r.is_err());
    }
}
fn arity(s: &str) -> usize {
    let (mut d, mut n) = (0, 1);
    for c in s.bytes() { match c { b'(' | b'{' | b'[' => d += 1, b')' | b'}' | b']' => d -= 1, b',' if d == 0 => n += 1, _ => {} } }
    n
}
fn same_or_node(a: &Value, b: &Value) -> bool { match (a, b) { (Value::Node(x), Value::Node(y)) => x == y, _ => same(a, b) } }
fn alike(r: &Result<Vec<Value>, Box<dyn std::error::Error>>, e: &Result<Vec<Value>, Box<dyn std::error::Error>>) -> bool {
    match (r, e) { (Ok(g), Ok(e)) => g.len() == e.len() && g.iter().zip(e).all(|(a, b)| same_or_node(a, b)), (Err(_), Err(_)) => true, _ => false }
}
fn conc() -> Ext { Ext { i: 2, d: 1.5, e: 0.5, s: ["a", "5"][vs::pick(2)].to_owned(), b: vs::coin() } }
const FOCUS: [(&str, &str); 12] = [("string()", "string(.)"), ("data()", "data(.)"), ("number()", "number(.)"), ("string-length()", "string-length(string(.))"), ("normalize-space()", "normalize-space(string(.))"), ("name()", "name(.)"), ("local-name()", "local-name(.)"), ("namespace-uri()", "namespace-uri(.)"), ("root()", "root(.)"), ("nilled()", "nilled(.)"), ("lang('en')", "lang('en', .)"), ("boolean(.)", "not(not(.))")];
/// functions of the context item: parameter 0 the function, 1 the shape of the value
#[no_mangle]
pub extern "C-unwind" fn y_focus() {
    let (f, g) = FOCUS[vs::param(0) as usize];
    let v = val(vs::param(1));
    let (x, d) = (conc(), doc());
    let mut s = String::new();
    show_v(&v, &mut s);
    let r = go_in(&d, &[&s, " ! ", f].concat(), &x);
    let e = go_in(&d, &[&s, " ! ", g].concat(), &x);
    ck!(1, "without an argument the function takes the context item", alike(&r, &e));
    if v.is_empty() { ck!(2, "of no item there is no result", match &r { Ok(r) => r.is_empty(), Err(_) => false }); }
    // the same through a reference and a partial application
    if f != "lang('en')" && g.matches('(').count() == 1 {
        let n = f.find('(').unwrap();
        let a = go_in(&d, &[&s, " ! (", &f[..n], "#1(.))"].concat(), &x);
        let b = go_in(&d, &[&s, " ! ", &f[..n], "(?)(.)"].concat(), &x);
        ck!(3, "however the function is called", alike(&a, &e) && alike(&b, &e));
    }
}
const NODE_ARG: [(&str, &str, u8); 6] = [("name(#)", "name()", b's'), ("local-name(#)", "local-name()", b's'), ("namespace-uri(#)", "namespace-uri()", b's'), ("root(#)", "root()", b'0'), ("nilled(#)", "nilled()", b'0'), ("lang('en', #)", "lang('en')", b'e')];
/// functions of one node or none
#[no_mangle]
pub extern "C-unwind" fn y_node_arg() {
    let (call, f, none) = NODE_ARG[vs::param(0) as usize];
    let v = val(vs::param(1));
    let (x, d) = (conc(), doc());
    let mut s = String::new();
    show_v(&v, &mut s);
    let r = go_in(&d, &call.replace("#", &s), &x);
    let node = |w: &W| match w { W::Arr(_) => false, W::Doc | W::Comment | W::Pi(_) => true, w => has_node(w) };
    if v.is_empty() {
        ck!(1, "of no node", match (&r, none) { (Ok(r), b's') => match &r[..] { [Value::Str(s)] => s.is_empty(), _ => false }, (Ok(r), b'0') => r.is_empty(), (Err(_), b'e') => true, _ => false });
    } else if v.len() == 1 && node(&v[0]) {
        let e = go_in(&d, &[&s, "/", f].concat(), &x);
        ck!(2, "of a node it is what a path step gives there", r.is_ok() && alike(&r, &e));
    } else {
        ck!(3, "of several items or of something that is no node it is an error", r.is_err());
    }
}

const TNAMES: [&str; 13] = ["untyped", "anyType", "untypedAtomic", "anyAtomicType", "anySimpleType", "string", "integer", "decimal", "numeric", "double", "boolean", "anyURI", "untyped"];
/// element and attribute tests with a type; there is no schema: elements are untyped, attributes untypedAtomic.
/// parameter 0: 0 element, 1 attribute, 2 other nodes
#[no_mangle]
pub extern "C-unwind" fn y_kind() {
    let k = vs::param(0);
    let nil = vs::pick(6);
    let nil_text = ["", " xsi:nil='true'", " xsi:nil='false'", " xsi:nil=''", " xsi:nil='truex'", " nil='true'"][nil];
    let d = new_document(&["<r xmlns:xsi='http://www.w3.org/2001/XMLSchema-instance'><a x='5'", nil_text, ">5<!--c--><?p q?></a></r>"].concat()).unwrap();
    let (t, n) = (TNAMES[vs::pick(12)], ["a", "*", "b", "x"][vs::pick(4)]);
    let q = k == 0 && vs::coin();
    let typed = match k { 0 | 2 => t == "untyped" || t == "anyType", _ => t == "untypedAtomic" || t == "anyAtomicType" || t == "anySimpleType" || t == "anyType" };
    let named = n == "*" || n == ["a", "x", ""][k as usize];
    let nilled = k == 0 && nil == 1;
    let w = k < 2 && typed && named && (q || !nilled);
    let test = [["element(", "attribute(", "element("][k as usize], n, ", xs:", t, if q { "?)" } else { ")" }].concat();
    let on = ["/r/a", "/r/a/@x", "/r/a/(text()|comment()|processing-instruction())"][k as usize];
    let e = d.root_element();
    let count = |s: &str| -> Option<i64> { vs::obs_str(1, s); match one(&run(&prog(s), &e, &[])) { Some(Value::Integer(i)) => Some(*i), _ => None } };
    let truth = |s: &str, w: bool| is_bool(&run(&prog(s), &e, &[]), w);
    ck!(1, "a test for name and type selects the nodes of that name and type", count(&["count(", on, "/self::node()[self::", &test, "])"].concat()) == if k == 1 { None } else { Some(w as i64) } || k == 1);
    if k == 1 { ck!(2, "on the attribute axis too", count(&["count(/r/a/attribute::", &test, ")"].concat()) == Some(if n == "*" && w { 1 + (nil > 0) as i64 } else { w as i64 })); }
    if k < 2 {
        ck!(3, "instance of agrees", truth(&["exactly-one(", on, ") instance of ", &test].concat(), w));
        ck!(4, "conversion agrees", run(&prog(&["function($p as ", &test, "){1}(", on, ")"].concat()), &e, &[]).is_ok() == w);
    }
    if k == 0 { ck!(5, "nilled", truth("nilled(/r/a)", nilled) && truth("/r/a/nilled()", nilled)); }
}

/// inline functions of several parameters with a type each: parameter 0 their number, 1 the one whose type and argument vary, 2 the way of the call
#[no_mangle]
pub extern "C-unwind" fn y_params() {
    let (n, at, way) = (vs::param(0) as usize, vs::param(1) as usize, vs::param(2));
    let x = Ext { i: 3, d: 1.5, e: 0.5, s: String::from("5"), b: true };
    let t = [T::Occ(I::At(A::Dbl), b' '), T::Occ(I::At(A::Str), b'?'), T::Occ(I::At(A::Int), b'*'), T::Occ(I::At(A::Any), b'+'), any_seq(), T::Occ(I::Elem(b'a'), b' '), T::Empty][vs::pick(7)].clone();
    let v = [vec![W::Int], vec![W::Elem(b'a')], vec![W::Arr(vec![vec![W::Int, W::Int]])], vec![W::Str], vec![]][vs::pick(5)].clone();
    let names: [&str; 5] = [["a", "b", "c", "d", "e"], ["e", "d", "c", "b", "a"], ["x", "xx", "x-1", "x.y", "_"], ["p", "a", "if", "for", "x"]][vs::pick(4)];
    let (mut f, mut args, mut body, mut open) = (String::from("function("), vec![], String::from("["), String::new());
    for k in 0..n {
        if k > 0 { f.push_str(", "); body.push_str(", "); open.push_str(", ") }
        f.push('$'); f.push_str(names[k]); body.push('$'); body.push_str(names[k]);
        let mut a = String::new();
        if k == at { f.push_str(" as "); show_t(&t, true, &mut f); show_v(&v, &mut a) } else { if k % 2 == 1 || k == n - 1 { f.push_str(" as xs:double") } a = ["(10)", "(11)", "(12)", "(13)", "(14)"][k].to_string() }
        open.push_str(if (way == 1) || (way == 2 && k != at) || (way == 3 && k == at) { "?" } else { &a });
        args.push(a);
    }
    f.push_str("){"); f.push_str(&body); f.push_str("]}");
    let rest: Vec<&str> = (0..n).filter(|k| match way { 1 => true, 2 => *k != at, 3 => *k == at, _ => false }).map(|k| &args[k][..]).collect();
    f.push('('); f.push_str(&open); f.push(')');
    if way > 0 { f.push('('); f.push_str(&rest.join(", ")); f.push(')') }
    let mut want = vec![];
    let ok = match &t { T::Occ(I::At(a), c) => v.iter().all(|w| convert(w, *a, &x, &mut want)) && occurs(want.len(), *c), t => inst(&v, t) == Some(true) };
    let r = go(&f, &x);
    if !ok { ck_opt!(2, "an argument that does not fit its parameter is an error", r.is_err()); return }
    let good = match one(&r) {
        Some(Value::Array(m)) => m.len() == n && (0..n).all(|k| if k == at { match &t { T::Occ(I::At(_), _) => m[k].len() == want.len() && m[k].iter().zip(&want).all(|(a, b)| same(a, b)), _ => m[k].len() == v.len() } } else { m[k].len() == 1 && same(&m[k][0], &if k % 2 == 1 || k == n - 1 { Value::Double(10.0 + k as f64) } else { Value::Integer(10 + k as i64) }) }),
        _ => false,
    };
    ck_opt!(1, "every parameter gets its argument, converted to its type", good);
}
