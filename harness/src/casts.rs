//! cast, castable, number(), string()
use crate::nodes::prog;
use crate::num::*;
use crate::vs;
use amxml::dom::*;
use amxml::verif::*;

const TYPES: [&str; 5] = ["string", "integer", "decimal", "double", "boolean"];
fn s(x: &str) -> Vec<Value> { vec![Value::Str(String::from(x))] }

/// the lexical form of a number: mantissa, power of ten, has an exponent part, is an integer literal
struct Lex { m: i64, neg: bool, scale: i32, exp: bool, int: bool }
fn lex(t: &[u8]) -> Option<Lex> {
    let (mut a, mut b) = (0, t.len());
    while a < b && is_ws(t[a]) { a += 1 }
    while a < b && is_ws(t[b - 1]) { b -= 1 }
    let t = &t[a..b];
    let mut i = 0;
    let mut l = Lex { m: 0, neg: false, scale: 0, exp: false, int: true };
    if i < t.len() && (t[i] == b'+' || t[i] == b'-') { l.neg = t[i] == b'-'; i += 1 }
    let mut digits = 0;
    while i < t.len() && t[i].is_ascii_digit() { l.m = l.m * 10 + (t[i] - b'0') as i64; i += 1; digits += 1 }
    if i < t.len() && t[i] == b'.' {
        l.int = false;
        i += 1;
        while i < t.len() && t[i].is_ascii_digit() { l.m = l.m * 10 + (t[i] - b'0') as i64; i += 1; digits += 1; l.scale -= 1 }
    }
    if digits == 0 { return None }
    if i < t.len() && (t[i] == b'e' || t[i] == b'E') {
        l.int = false;
        l.exp = true;
        i += 1;
        let mut neg = false;
        if i < t.len() && (t[i] == b'+' || t[i] == b'-') { neg = t[i] == b'-'; i += 1 }
        let (mut e, mut d) = (0i32, 0);
        while i < t.len() && t[i].is_ascii_digit() { e = e * 10 + (t[i] - b'0') as i32; i += 1; d += 1 }
        if d == 0 { return None }
        l.scale += if neg { -e } else { e };
    }
    if i < t.len() { return None }
    Some(l)
}
fn is_ws(b: u8) -> bool { (b == b' ') | (b == b'\t') | (b == b'\n') | (b == b'\r') }
fn value(l: &Lex) -> f64 {
    let mut p = 1.0;
    for _ in 0..l.scale.abs() { p *= 10.0 }
    let v = if l.scale < 0 { l.m as f64 / p } else { l.m as f64 * p };
    if l.neg { -v } else { v }
}

/// strings to numbers: accepted exactly when in the lexical space, with the value denoted
#[no_mangle]
pub extern "C-unwind" fn c_num() {
    let (n, alpha) = (vs::param(0) as usize, vs::param(1));
    let d = doc();
    let cast: Vec<Program> = TYPES.iter().map(|t| prog(&["$s cast as xs:", *t].concat())).collect();
    let able: Vec<Program> = TYPES.iter().map(|t| prog(&["$s castable as xs:", *t].concat())).collect();
    let number = prog("number($s)");
    let t = vs::string_n(match alpha { 0 => b"059+-. ", 1 => b"12.e+-", 2 => b"0 \t\n", _ => b"7-eE.x" }, n);
    let l = lex(t.as_bytes());
    let v = match &l { Some(l) => value(l), None => 0.0 };
    let go = |p: &Program| run(p, &d, &[("s", s(&t))]);
    let int = match &l { Some(l) => l.int, None => false };
    let dec = match &l { Some(l) => !l.exp, None => false };
    ck!(1, "castable tells exactly the strings that denote a value of the type", is_bool(&go(&able[1]), int) && is_bool(&go(&able[2]), dec) && is_bool(&go(&able[3]), l.is_some()));
    ck!(2, "cast as integer gives the integer written, or fails", if int { is_int(&go(&cast[1]), v as i64) } else { go(&cast[1]).is_err() });
    ck!(3, "cast as decimal gives the decimal written, or fails", if dec { match one(&go(&cast[2])) { Some(Value::Decimal(x)) => *x == v, _ => false } } else { go(&cast[2]).is_err() });
    ck!(4, "cast as double gives the double written, or fails", if l.is_some() { is_dbl(&go(&cast[3]), v) } else { go(&cast[3]).is_err() });
    ck!(5, "number() gives the double written, or NaN", is_dbl(&go(&number), if l.is_some() { v } else { f64::NAN }));
    ck!(6, "a string cast to string is itself", is_str(&go(&cast[0]), &t));
}

/// special values and other words
#[no_mangle]
pub extern "C-unwind" fn c_word() {
    let d = doc();
    const W: [(&str, Option<f64>); 15] = [("INF", Some(f64::INFINITY)), ("-INF", Some(f64::NEG_INFINITY)), ("NaN", Some(f64::NAN)), ("inf", None), ("-inf", None), ("nan", None), ("infinity", None), ("-Infinity", None), ("NAN", None), ("Inf", None), ("-NaN", None), ("1_0", None), ("0x1", None), ("1 0", None), ("\u{a0}1", None)];
    let (w, v) = W[vs::pick(15)];
    // white space around is ignored
    let t = [&vs::string(b" \t\n\r", 1)[..], w, &vs::string(b" \t\n\r", 1)[..]].concat();
    let go = |e: &str| run(&prog(e), &d, &[("s", s(&t))]);
    ck!(1, "INF, -INF and NaN are the only words that denote a double", match v { Some(v) => is_dbl(&go("$s cast as xs:double"), v) && is_dbl(&go("number($s)"), v) && is_bool(&go("$s castable as xs:double"), true), None => go("$s cast as xs:double").is_err() && is_dbl(&go("number($s)"), f64::NAN) && is_bool(&go("$s castable as xs:double"), false) });
    ck!(2, "words denote no decimal and no integer", is_bool(&go("$s castable as xs:decimal or $s castable as xs:integer"), false) && go("$s cast as xs:decimal").is_err() && go("$s cast as xs:integer").is_err());
}

/// strings to booleans
#[no_mangle]
pub extern "C-unwind" fn c_bool() {
    let d = doc();
    let (c, k) = (prog("$s cast as xs:boolean"), prog("$s castable as xs:boolean"));
    let w = vs::pick(3);
    let t = if w < 2 { let mut b = [&b"true"[..], &b"false"[..]][w].to_vec(); let i = vs::pick(b.len() as u32); b[i] = vs::ch(b"aeflrstu1"); String::from_utf8(b).unwrap() } else { vs::string(b"01 2", vs::param(0) as usize) };
    let b = t.as_bytes();
    let (mut x, mut y) = (0, b.len());
    while x < y && is_ws(b[x]) { x += 1 }
    while x < y && is_ws(b[y - 1]) { y -= 1 }
    let want = match &t[x..y] { "true" | "1" => Some(true), "false" | "0" => Some(false), _ => None };
    let go = |p: &Program| run(p, &d, &[("s", s(&t))]);
    ck!(1, "true, 1, false and 0 are the only strings that denote a boolean", is_bool(&go(&k), want.is_some()) && match want { Some(w) => is_bool(&go(&c), w), None => go(&c).is_err() });
}

/// integers and booleans to every type
#[no_mangle]
pub extern "C-unwind" fn c_int() {
    let d = doc();
    let i = vs::i64();
    let p: Vec<Program> = ["$i cast as xs:integer", "$i castable as xs:integer and $i castable as xs:boolean and $i cast as xs:integer = $i", "$i cast as xs:boolean"].iter().map(|s| prog(s)).collect();
    let go = |k: usize| run(&p[k], &d, &[("i", vec![Value::Integer(i)])]);
    ck!(1, "an integer is an integer and castable to boolean", is_int(&go(0), i) && is_bool(&go(1), true));
    ck!(2, "a non-zero integer is true", is_bool(&go(2), i != 0));
}
/// integers and text; conversion to the other numeric types
#[no_mangle]
pub extern "C-unwind" fn c_int_str() {
    const X: [i64; 12] = [i64::min_value(), i64::max_value(), 1000, -1000, 99999, 123456789, 1000000000000, -10, 4294967296, 9007199254740993, -9999999999, 100000000000000000];
    let i = if vs::param(0) == 0 { X[vs::pick(12)] } else { let i = vs::i64(); vs::assume((i >= -(vs::param(0) as i64)) & (i <= vs::param(0) as i64)); vs::conc(i as u64) as i64 };
    let d = doc();
    let p: Vec<Program> = ["string($i) cast as xs:integer", "string($i)", "string($i) = ($i cast as xs:string)", "$i cast as xs:double", "$i cast as xs:decimal", "number($i)", "$i castable as xs:decimal and $i castable as xs:double and $i castable as xs:string"].iter().map(|s| prog(s)).collect();
    let go = |k: usize| run(&p[k], &d, &[("i", vec![Value::Integer(i)])]);
    ck!(3, "an integer survives the way through a string", is_int(&go(0), i));
    // canonical form: no sign but minus, no leading zero
    let ok = match one(&go(1)) { Some(Value::Str(t)) => { let b = t.as_bytes(); let k = if i < 0 { 1 } else { 0 }; let mut ok = b.len() > k; if ok { ok = (k == 0) | (b[0] == b'-'); ok &= (b[k] != b'0') | (i == 0); for c in &b[k..] { ok &= c.is_ascii_digit(); } } ok } _ => false };
    ck!(4, "an integer is written in canonical form", ok && is_bool(&go(2), true));
    ck!(5, "an integer as double or decimal is the nearest one", is_dbl(&go(3), i as f64) && is_dec(&go(4), i as f64) && is_dbl(&go(5), i as f64) && is_bool(&go(6), true));
}
#[no_mangle]
pub extern "C-unwind" fn c_from_bool() {
    let d = doc();
    let b = vs::bool();
    let go = |e: &str| run(&prog(e), &d, &[("b", vec![Value::Boolean(b)])]);
    let f = if b { 1.0 } else { 0.0 };
    ck!(1, "true is one and false is zero", is_int(&go("$b cast as xs:integer"), b as i64) && is_dbl(&go("$b cast as xs:double"), f) && is_dec(&go("$b cast as xs:decimal"), f) && is_dbl(&go("number($b)"), f) && is_bool(&go("$b cast as xs:boolean"), b));
    ck!(2, "booleans are written true and false", is_str(&go("string($b)"), if b { "true" } else { "false" }) && is_str(&go("$b cast as xs:string"), if b { "true" } else { "false" }));
}

/// doubles (2) and decimals (1) to the other numeric types and to boolean
#[no_mangle]
pub extern "C-unwind" fn c_flt() {
    let d = doc();
    let k = vs::param(0);
    let p: Vec<Program> = ["$x cast as xs:integer", "$x cast as xs:decimal", "$x cast as xs:double", "$x cast as xs:boolean", "number($x)", "$x castable as xs:integer", "$x castable as xs:decimal", "$x castable as xs:double and $x castable as xs:boolean"].iter().map(|s| prog(s)).collect();
    let x = vs::f64();
    vs::assume(x.is_finite() & (x < 9223372036854775808.0) & (x >= -9223372036854775808.0));
    let go = |i: usize| run(&p[i], &d, &[("x", vec![if k == 1 { Value::Decimal(x) } else { Value::Double(x) }])]);
    ck!(1, "cast as integer truncates towards zero", is_int(&go(0), x as i64));
    ck!(2, "every finite value is a decimal and a double", match one(&go(1)) { Some(Value::Decimal(y)) => *y == x, _ => false } && match one(&go(2)) { Some(Value::Double(y)) => *y == x, _ => false } && match one(&go(4)) { Some(Value::Double(y)) => *y == x, _ => false });
    ck!(3, "zero is false, every other number is true", is_bool(&go(3), x != 0.0));
    ck!(4, "finite values are castable to every type", is_bool(&go(5), true) && is_bool(&go(6), true) && is_bool(&go(7), true));
}
/// values without an integer or decimal
#[no_mangle]
pub extern "C-unwind" fn c_flt_bad() {
    let d = doc();
    const X: [f64; 8] = [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 9223372036854775808.0, -9223372036854777856.0, 1e300, -1e19, 1.8446744073709552e19];
    let x = X[vs::pick(8)];
    let go = |e: &str| run(&prog(e), &d, &[("x", vec![Value::Double(x)])]);
    ck!(1, "a value that is no 64-bit integer cannot be cast to one", go("$x cast as xs:integer").is_err() && is_bool(&go("$x castable as xs:integer"), false));
    ck!(2, "infinities and NaN are no decimals", is_bool(&go("$x castable as xs:decimal"), x.is_finite()) && go("$x cast as xs:decimal").is_err() == !x.is_finite());
    ck!(3, "every double is a double", is_dbl(&go("$x cast as xs:double"), x) && is_dbl(&go("number($x)"), x) && is_bool(&go("$x castable as xs:double"), true));
    ck!(4, "NaN is false, other doubles are true", is_bool(&go("$x cast as xs:boolean"), x == x));
    ck!(5, "special doubles are written INF, -INF and NaN", x.is_finite() || is_str(&go("string($x)"), if x != x { "NaN" } else if x > 0.0 { "INF" } else { "-INF" }));
    ck!(6, "a double survives the way through a string", is_dbl(&go("number(string($x))"), x));
}
/// numbers to strings and back
#[no_mangle]
pub extern "C-unwind" fn c_str() {
    let d = doc();
    const X: [(f64, &str); 14] = [(0.0, "0"), (1.0, "1"), (-1.0, "-1"), (1.5, "1.5"), (-0.25, "-0.25"), (100.0, "100"), (0.1, "0.1"), (123456.0, "123456"), (2.5, "2.5"), (1e-7, ""), (1e21, ""), (0.1 + 0.2, ""), (5e-324, ""), (1.7976931348623157e308, "")];
    let (x, t) = X[vs::pick(14)];
    let v = if vs::coin() { Value::Double(x) } else { Value::Decimal(x) };
    let go = |e: &str| run(&prog(e), &d, &[("x", vec![match &v { Value::Double(x) => Value::Double(*x), _ => Value::Decimal(x) }])]);
    ck!(1, "numbers are written in their shortest form", t == "" || is_str(&go("string($x)"), t) && is_str(&go("$x cast as xs:string"), t) && is_str(&go("concat($x, '')"), t) && is_str(&go("string-join($x, '')"), t));
    ck!(2, "a number survives the way through a string", is_dbl(&go("number(string($x))"), x));
}

/// occurrence: empty and several items
#[no_mangle]
pub extern "C-unwind" fn c_occ() {
    let d = doc();
    let k = vs::pick(5);
    let n = vs::pick(3);
    let v = || (0..n).map(|_| Value::Integer(1)).collect::<Vec<Value>>();
    let go = |a: &str, b: &str| run(&prog(&[a, TYPES[k], b].concat()), &d, &[("s", v())]);
    ck!(1, "exactly one item is castable, with ? also none", is_bool(&go("$s castable as xs:", ""), n == 1) && is_bool(&go("$s castable as xs:", "?"), n < 2));
    ck!(2, "casting needs exactly one item, with ? at most one", go("$s cast as xs:", "").is_err() == (n != 1) && match go("$s cast as xs:", "?") { Ok(r) => r.len() == n && n < 2, Err(_) => n == 2 });
    ck!(3, "number() and string() of nothing", n != 0 || is_dbl(&run(&prog("number($s)"), &d, &[("s", v())]), f64::NAN) && is_str(&run(&prog("string($s)"), &d, &[("s", v())]), ""));
}

/// nodes are cast by their string value
#[no_mangle]
pub extern "C-unwind" fn c_node() {
    let n = vs::param(0) as usize;
    let p: Vec<Program> = ["integer", "decimal", "double", "boolean", "string"].iter().map(|t| prog(&["every $n in (., @k) satisfies ($n cast as xs:", *t, ") = (string($n) cast as xs:", *t, ")"].concat())).collect();
    let q: Vec<Program> = TYPES.iter().map(|t| prog(&["every $n in (., @k, b) satisfies ($n castable as xs:", *t, ") = (string($n) castable as xs:", *t, ")"].concat())).collect();
    let num = prog("number(.) = number(@k) and number() = number(string()) or string(number()) = 'NaN' and string(number(@k)) = 'NaN'");
    let t = vs::string_n(b"01-.x", n);
    let d = match new_document(&["<r k=\"", &t, "\"><!-- 1 --><e/>", &t[..n / 2], "<b>", &t[n / 2..], "</b></r>"].concat()) { Ok(d) => d, Err(_) => { ck!(110, "the document parses", false); return } };
    let r = d.root_element();
    let l = lex(t.as_bytes());
    for (i, q) in q.iter().enumerate() {
        ck!(1, "a node is castable when its string value is", is_bool(&run(q, &r, &[]), true));
        let ok = match i { 0 => true, 1 => match &l { Some(l) => l.int, None => false }, 2 | 3 => l.is_some(), _ => t == "0" || t == "1" };
        let i = [4, 0, 1, 2, 3][i];
        ck!(2, "a node is cast by way of its string value", if ok { is_bool(&run(&p[i], &r, &[]), true) } else { run(&p[i], &r, &[]).is_err() });
    }
    ck!(3, "number() of a node is that of its string value", is_bool(&run(&num, &r, &[]), true));
}
