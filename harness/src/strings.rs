//! XPath string functions
use crate::nodes::prog;
use crate::num::*;
use crate::vs;
use amxml::dom::*;
use amxml::verif::*;

/// a string as characters, each with symbolic content and a chosen UTF-8 length
#[derive(Clone)]
pub struct Text { pub c: Vec<Vec<u8>> }
impl Text {
    pub fn new() -> Text { Text { c: vec![] } }
    /// up to max characters out of the classes 1 (ASCII), 2, 3, 4 (two letters each), selected by the bits of cls
    pub fn any(max: usize, cls: u64) -> Text { let n = vs::pick(max as u32 + 1); Text::exactly(n, cls) }
    pub fn exactly(n: usize, cls: u64) -> Text {
        let lens: Vec<usize> = (1..5).filter(|l| cls >> (l - 1) & 1 == 1).collect();
        let mut c = vec![];
        for _ in 0..n { c.push(Text::one(lens[if lens.len() == 1 { 0 } else { vs::pick(lens.len() as u32) }])) }
        Text { c }
    }
    fn one(l: usize) -> Vec<u8> {
        let last = vs::u8();
        match l {
            1 => { vs::assume((last == b'a') | (last == b'b') | (last == b' ')); vec![last] }
            2 => { vs::assume((last == 0xa8) | (last == 0xa9)); vec![0xc3, last] }
            3 => { vs::assume((last == 0x82) | (last == 0x84)); vec![0xe3, 0x81, last] }
            _ => { vs::assume((last == 0xb7) | (last == 0xbe)); vec![0xf0, 0xa0, 0xae, last] }
        }
    }
    pub fn s(&self) -> String { let mut v = vec![]; for c in &self.c { v.extend_from_slice(c); } unsafe { String::from_utf8_unchecked(v) } }
    pub fn v(&self) -> Vec<Value> { vec![Value::Str(self.s())] }
    pub fn len(&self) -> usize { self.c.len() }
    pub fn part(&self, a: usize, b: usize) -> Text { Text { c: self.c[a..b].to_vec() } }
    pub fn plus(&self, o: &Text) -> Text { let mut c = self.c.clone(); c.extend(o.c.iter().cloned()); Text { c } }
    /// o occurs at position i
    pub fn at(&self, i: usize, o: &Text) -> bool {
        if i + o.len() > self.len() { return false }
        let mut ok = true;
        for k in 0..o.len() { ok &= ceq(&self.c[i + k], &o.c[k]); }
        ok
    }
}
fn ceq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false }
    let mut ok = true;
    for i in 0..a.len() { ok &= a[i] == b[i]; }
    ok
}
/// the string is this text, compared without forking on the content
fn seq(s: &str, t: &Text) -> bool { let w = t.s(); ceq(s.as_bytes(), w.as_bytes()) }
fn gives(r: &R, t: &Text) -> bool { match one(r) { Some(Value::Str(x)) => seq(x, t), _ => false } }
fn ints(r: &R) -> Option<Vec<i64>> {
    match r { Ok(v) => { let mut o = vec![]; for x in v { match x { Value::Integer(i) => o.push(*i), _ => return None } } Some(o) } Err(_) => None }
}
/// XPath rounding: nearest integer, halves upwards
fn round(x: f64) -> f64 { let f = x.floor(); if x - f >= 0.5 { f + 1.0 } else { f } }

const REP: [f64; 9] = [1.0, 0.5, 1.5, 2.0, -0.5, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
/// substring: the characters whose position p satisfies round(start) <= p < round(start) + round(length)
#[no_mangle]
pub extern "C-unwind" fn s_sub() {
    // param 3: 1 small integers, 0 any starting double, 2 any double as length
    let (n, cls, three, int, kind) = (vs::param(0) as usize, vs::param(1), vs::param(2) == 1, vs::param(3) == 1, vs::param(3));
    let p = prog(if three { "substring($s, $a, $b)" } else { "substring($s, $a)" });
    let d = doc();
    let s = Text::exactly(n, cls);
    let (a, b) = if int { (vs::pick(7) as i64 as f64 - 2.0, vs::pick(6) as i64 as f64 - 1.0) } else { let rep = |k: u64| if kind == k { vs::f64() } else { REP[vs::param(4) as usize] }; (rep(0), if three { rep(2) } else { 0.0 }) };
    let val = |x: f64| vec![if int { Value::Integer(x as i64) } else { Value::Double(x) }];
    let r = run(&p, &d, &[("s", s.v()), ("a", val(a)), ("b", val(b))]);
    let from = round(a);
    let to = from + round(b);
    let mut want = Text::new();
    for i in 0..n {
        let q = (i + 1) as f64;
        if from <= q && (!three || q < to) { want.c.push(s.c[i].clone()); }
    }
    ck!(1, "substring keeps the characters at the positions the rounded bounds select", gives(&r, &want));
}

/// contains, starts-with, ends-with, substring-before, substring-after
#[no_mangle]
pub extern "C-unwind" fn s_find() {
    let (n, m, cls) = (vs::param(0) as usize, vs::param(1) as usize, vs::param(2));
    let p: Vec<Program> = ["contains", "starts-with", "ends-with", "substring-before", "substring-after"].iter().map(|f| prog(&[*f, "($s, $t)"].concat())).collect();
    let d = doc();
    let (s, t) = (Text::exactly(n, cls), Text::exactly(m, cls));
    let mut at = None;
    for i in 0..n + 1 { if at.is_none() && s.at(i, &t) { at = Some(i) } }
    let go = |i: usize| run(&p[i], &d, &[("s", s.v()), ("t", t.v())]);
    ck!(1, "contains holds exactly when the second string occurs in the first", is_bool(&go(0), at.is_some()));
    ck!(2, "starts-with holds exactly when the first string begins with the second", is_bool(&go(1), s.at(0, &t)));
    ck!(3, "ends-with holds exactly when the first string ends with the second", is_bool(&go(2), n >= m && s.at(n - m, &t)));
    let (before, after) = match at { Some(i) => (s.part(0, i), s.part(i + m, n)), None => (Text::new(), Text::new()) };
    ck!(4, "substring-before is what precedes the first occurrence, or empty", gives(&go(3), &before));
    ck!(5, "substring-after is what follows the first occurrence, or empty", gives(&go(4), &after));
}

/// translate replaces by position, the first occurrence counting, and drops what has no counterpart
#[no_mangle]
pub extern "C-unwind" fn s_translate() {
    let (n, a, b, cls) = (vs::param(0) as usize, vs::param(1) as usize, vs::param(2) as usize, vs::param(3));
    let p = prog("translate($s, $a, $b)");
    let d = doc();
    let (s, f, t) = (Text::exactly(n, cls), Text::exactly(a, cls), Text::exactly(b, cls));
    let mut want = Text::new();
    for c in &s.c {
        let mut k = None;
        for (i, x) in f.c.iter().enumerate() { if k.is_none() && ceq(c, x) { k = Some(i) } }
        match k { None => want.c.push(c.clone()), Some(i) => if i < b { want.c.push(t.c[i].clone()) } }
    }
    ck!(1, "translate maps, keeps and removes characters as defined", gives(&run(&p, &d, &[("s", s.v()), ("a", f.v()), ("b", t.v())]), &want));
}

/// concat, || and string-join
#[no_mangle]
pub extern "C-unwind" fn s_concat() {
    let (n, cls) = (vs::param(0) as usize, vs::param(1));
    let p: Vec<Program> = ["concat($a, $b)", "$a || $b", "concat($a, $b, $c)", "$a || $b || $c", "string-join(($a, $b, $c), $s)", "string-join(($a, $b, $c))", "string-join((), $s)", "string-join(($a, $b), $s)"].iter().map(|s| prog(s)).collect();
    let d = doc();
    // each operand may also be the empty sequence
    let t: Vec<Option<Text>> = (0..3).map(|_| if vs::coin() { Some(Text::any(n, cls)) } else { None }).collect();
    let sep = Text::any(n, 1);
    let val = |i: usize| match &t[i] { Some(x) => x.v(), None => vec![] };
    let txt = |i: usize| match &t[i] { Some(x) => x.clone(), None => Text::new() };
    let join = |k: usize, s: &Text| -> Text { let mut o = Text::new(); let mut first = true; for i in 0..k { if let Some(x) = &t[i] { if !first { o = o.plus(s); } first = false; o = o.plus(x); } } o };
    let (ab, abc) = (txt(0).plus(&txt(1)), txt(0).plus(&txt(1)).plus(&txt(2)));
    for (i, p) in p.iter().enumerate() {
        let r = run(p, &d, &[("a", val(0)), ("b", val(1)), ("c", val(2)), ("s", sep.v())]);
        let want = match i { 0 | 1 => ab.clone(), 2 | 3 => abc.clone(), 4 => join(3, &sep), 5 => join(3, &Text::new()), 6 => Text::new(), _ => join(2, &sep) };
        if i < 4 { ck!(1, "concat and || append the strings, an empty operand counting as the empty string", gives(&r, &want)); }
        else { ck!(2, "string-join puts the separator between the strings", gives(&r, &want)); }
    }
}

/// string-length and the code points of any character
#[no_mangle]
pub extern "C-unwind" fn s_code() {
    let (n, len) = (vs::param(0) as usize, vs::param(1) as usize);
    let p: Vec<Program> = ["string-length($s)", "string-to-codepoints($s)", "codepoints-to-string(string-to-codepoints($s)) = $s", "codepoints-to-string(reverse(string-to-codepoints($s)))"].iter().map(|s| prog(s)).collect();
    let d = doc();
    let s = Text { c: (0..n).map(|_| if len == 1 { vs::ascii_n(1) } else { vs::uchar(len) }.into_bytes()).collect() };
    let cp = |c: &[u8]| -> i64 { let b = |i: usize| (c[i] & 0x3f) as i64; match len { 1 => c[0] as i64, 2 => (c[0] & 0x1f) as i64 * 64 + b(1), 3 => (c[0] & 0xf) as i64 * 4096 + b(1) * 64 + b(2), _ => (c[0] & 7) as i64 * 262144 + b(1) * 4096 + b(2) * 64 + b(3) } };
    let r: Vec<R> = p.iter().map(|p| run(p, &d, &[("s", s.v())])).collect();
    ck!(1, "string-length counts characters", is_int(&r[0], n as i64));
    let want: Vec<i64> = s.c.iter().map(|c| cp(c)).collect();
    let got = ints(&r[1]);
    let mut ok = false;
    if let Some(g) = got { ok = g.len() == n; if ok { for i in 0..n { ok &= g[i] == want[i]; } } }
    ck!(2, "string-to-codepoints gives the Unicode code points", ok);
    ck!(3, "codepoints-to-string inverts string-to-codepoints", is_bool(&r[2], true));
    let mut back = s.clone();
    back.c.reverse();
    ck!(4, "codepoints-to-string builds the string of the code points in order", gives(&r[3], &back));
}

/// codepoints-to-string of any integers
#[no_mangle]
pub extern "C-unwind" fn s_point() {
    let p = prog("codepoints-to-string($a)");
    let q = prog("string-to-codepoints(codepoints-to-string($a))");
    let d = doc();
    let n = vs::param(0) as usize;
    let a: Vec<i64> = (0..n).map(|_| vs::i64()).collect();
    let v: Vec<Value> = a.iter().map(|i| Value::Integer(*i)).collect();
    let w: Vec<Value> = a.iter().map(|i| Value::Integer(*i)).collect();
    let mut ok = true;
    for i in &a { ok &= (*i >= 1) & (*i <= 0x10ffff) & !((*i >= 0xd800) & (*i <= 0xdfff)); }
    let r = run(&p, &d, &[("a", v)]);
    if ok {
        let mut same = false;
        if let Some(g) = ints(&run(&q, &d, &[("a", w)])) { same = g.len() == n; if same { for i in 0..n { same &= g[i] == a[i]; } } }
        ck!(1, "every code point survives the way through a string", r.is_ok() && same);
    } else {
        ck_opt!(2, "what is no Unicode code point is an error", r.is_err());
    }
}

/// upper-case and lower-case
#[no_mangle]
pub extern "C-unwind" fn s_case() {
    let (n, k) = (vs::param(0) as usize, vs::param(1));
    let (u, l) = (prog("upper-case($s)"), prog("lower-case($s)"));
    let d = doc();
    let c: Vec<Vec<u8>> = (0..n).map(|_| if k == 0 { vs::ascii_n(1).into_bytes() } else { let b = vs::u8(); vs::assume((b >= 0x80) & (b < 0xbf) & (b != 0x97) & (b != 0x9f) & (b != 0xb7)); vec![0xc3, b] }).collect();
    let s = Text { c };
    let map = |up: bool| Text { c: s.c.iter().map(|c| { let mut c = c.clone(); let i = c.len() - 1; let b = c[i]; let (lo, hi) = if k == 0 { if up { (b'a', b'z') } else { (b'A', b'Z') } } else if up { (0xa0, 0xbe) } else { (0x80, 0x9e) }; let hit = (b >= lo) & (b <= hi); c[i] = b ^ ((hit as u8) << 5); c }).collect() };
    ck!(1, "upper-case maps every letter to its capital and leaves the rest", gives(&run(&u, &d, &[("s", s.v())]), &map(true)));
    ck!(2, "lower-case maps every capital to its small letter and leaves the rest", gives(&run(&l, &d, &[("s", s.v())]), &map(false)));
}

/// compare and codepoint-equal
#[no_mangle]
pub extern "C-unwind" fn s_cmp() {
    let (n, m, cls) = (vs::param(0) as usize, vs::param(1) as usize, vs::param(2));
    let (c, e) = (prog("compare($a, $b)"), prog("codepoint-equal($a, $b)"));
    let d = doc();
    let (a, b) = (Text::exactly(n, cls), Text::exactly(m, cls));
    let mut ord = 0i64;
    let k = if n < m { n } else { m };
    // UTF-8 order is code point order
    for i in 0..k { if ord == 0 { let (x, y) = (&a.c[i], &b.c[i]); if x.len() != y.len() { ord = if x.len() < y.len() { -1 } else { 1 } } else { for j in 0..x.len() { if ord == 0 { if x[j] < y[j] { ord = -1 } else if x[j] > y[j] { ord = 1 } } } } } }
    if ord == 0 { ord = (n as i64 - m as i64).signum(); }
    ck!(1, "compare orders strings by code points", is_int(&run(&c, &d, &[("a", a.v()), ("b", b.v())]), ord));
    ck!(2, "codepoint-equal holds exactly for equal strings", is_bool(&run(&e, &d, &[("a", a.v()), ("b", b.v())]), ord == 0));
    ck!(3, "comparing with an empty operand is empty", is_empty(&run(&c, &d, &[("a", a.v()), ("b", vec![])])) && is_empty(&run(&e, &d, &[("a", vec![]), ("b", b.v())])) && is_empty(&run(&c, &d, &[("a", vec![]), ("b", b.v())])) && is_empty(&run(&e, &d, &[("a", a.v()), ("b", vec![])])));
}

/// the string functions with an empty sequence, and normalize-space of at most one word
#[no_mangle]
pub extern "C-unwind" fn s_empty() {
    let d = doc();
    let t = vs::string(b"ab", 2);
    let v = |s: &str| -> Vec<Value> { if s == "E" { vec![] } else { vec![Value::Str(String::from(s))] } };
    let nonempty = t.len() > 0;
    for (e, want) in [("upper-case(())", Some("")), ("lower-case(())", Some("")), ("normalize-space(())", Some("")), ("substring((), 1)", Some("")), ("substring((), 1, 1)", Some("")), ("translate((), $t, $t)", Some("")), ("substring-before((), $t)", Some("")), ("substring-after((), $t)", Some("")), ("substring-before($t, ())", Some("")), ("codepoints-to-string(())", Some("")), ("concat((), ())", Some("")), ("string(())", Some("")), ("string-to-codepoints(())", None)].iter() {
        let r = run(&prog(e), &d, &[("t", v(&t))]);
        match want { Some(w) => { ck!(1, "an empty sequence counts as the empty string", is_str(&r, w)); } None => { ck!(2, "no string has no code points", is_empty(&r)); } }
    }
    ck!(3, "an empty sequence has string length zero", is_int(&run(&prog("string-length(())"), &d, &[]), 0));
    ck!(4, "substring-after nothing is the whole string", is_str(&run(&prog("substring-after($t, ())"), &d, &[("t", v(&t))]), &t));
    ck!(5, "every string contains, starts with and ends with the empty sequence", is_bool(&run(&prog("contains($t, ()) and starts-with($t, ()) and ends-with($t, ()) and contains((), ()) and starts-with((), '') and ends-with((), '')"), &d, &[("t", v(&t))]), true));
    ck!(6, "the empty sequence contains only the empty string", is_bool(&run(&prog("contains((), $t) or starts-with((), $t) or ends-with((), $t)"), &d, &[("t", v(&t))]), !nonempty));
}

/// normalize-space strips white space around one word
#[no_mangle]
pub extern "C-unwind" fn s_trim() {
    let p = prog("normalize-space($s)");
    let d = doc();
    let n = vs::param(0) as usize;
    let (a, mut w, b) = (vs::string(b" \t\r\n", n), vs::string(b"abz", n), vs::string(b" \t\r\n", n));
    // one more character of so many bytes, any but the four that are white space
    let l = vs::param(1) as usize;
    if l > 0 {
        let c = if l == 1 { vs::ascii_n(1) } else { vs::uchar(l) };
        if l == 1 { let c = c.as_bytes()[0]; vs::assume((c != b' ') & (c != b'\t') & (c != b'\r') & (c != b'\n')); }
        w = if vs::coin() { [&c[..], &w[..]].concat() } else { [&w[..], &c[..]].concat() };
    }
    ck!(1, "normalize-space removes leading and trailing white space", is_str(&run(&p, &d, &[("s", vec![Value::Str([&a[..], &w[..], &b[..]].concat())])]), &w));
}

/// string functions on the context item and on nodes use the string value
#[no_mangle]
pub extern "C-unwind" fn s_node() {
    let n = vs::param(0) as usize;
    let p: Vec<Program> = ["string()", "string(.)", "concat(., '')", "upper-case(lower-case(.))", "substring(., 1)", "translate(., '', '')", "string-join(., '-')", "data(.)", "codepoints-to-string(string-to-codepoints(.))", ". || ''", "substring-after(., '')"].iter().map(|s| prog(s)).collect();
    let q: Vec<Program> = ["string-length()", "string-length(.)", "string-length(string())"].iter().map(|s| prog(s)).collect();
    let s = vs::string_n(b"AZ", n);
    let d = new_document(&["<r k=\"", &s, "\"><e/>", &s[..n / 2], "<b>", &s[n / 2..], "</b><!--x--></r>"].concat());
    let d = match d { Ok(d) => d, Err(_) => { ck!(110, "the document parses", false); return } };
    let r = d.root_element();
    for c in [&r, &d, &r.attributes()[0]].iter() {
        for p in &p { ck!(1, "a node argument stands for its string value", is_str(&run(p, c, &[]), &s)); }
        for p in &q { ck!(2, "string-length of a node counts its string value", is_int(&run(p, c, &[]), n as i64)); }
    }
}
