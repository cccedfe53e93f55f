//! XPath sequences: construction, sequence functions, aggregates
use crate::nodes::prog;
use crate::num::*;
use crate::vs;
use amxml::dom::*;
use amxml::verif::*;

/// an item with symbolic content: kind 0 integer, 1 one-letter string, 2 boolean, 3 double, 4 decimal
#[derive(Clone, Copy)]
pub struct It { pub k: u64, pub i: i64, pub f: f64 }
impl It {
    pub fn any(k: u64) -> It {
        match k {
            0 => It { k, i: vs::i64(), f: 0.0 },
            1 => It { k, i: vs::ch(b"abc") as i64, f: 0.0 },
            2 => It { k, i: vs::below(2) as i64, f: 0.0 },
            3 => It { k, i: 0, f: vs::f64() },
            _ => { let f = vs::f64(); vs::assume(f.is_finite()); It { k, i: 0, f } }
        }
    }
    pub fn v(&self) -> Value {
        match self.k { 0 => Value::Integer(self.i), 1 => Value::Str(String::from_utf8(vec![self.i as u8]).unwrap()), 2 => Value::Boolean(self.i != 0), 3 => Value::Double(self.f), _ => Value::Decimal(self.f) }
    }
    pub fn is(&self, v: &Value) -> bool {
        match v {
            Value::Integer(i) => self.k == 0 && *i == self.i,
            Value::Str(s) => { let b = s.as_bytes(); self.k == 1 && b.len() == 1 && b[0] as i64 == self.i }
            Value::Boolean(b) => self.k == 2 && *b == (self.i != 0),
            Value::Double(d) => self.k == 3 && same(*d, self.f),
            Value::Decimal(d) => self.k == 4 && same(*d, self.f),
            _ => false,
        }
    }
}
pub fn vals(s: &[It]) -> Vec<Value> { s.iter().map(|x| x.v()).collect() }
/// the result is exactly this sequence
pub fn is_seq(r: &R, w: &[It]) -> bool {
    match r {
        Ok(v) => { if v.len() != w.len() { return false } let mut ok = true; for i in 0..w.len() { ok &= w[i].is(&v[i]); } ok }
        Err(_) => false,
    }
}
/// kinds: a decimal digit per item, last digit first item
pub fn items(n: usize, kinds: u64) -> Vec<It> { let mut k = kinds; (0..n).map(|_| { let x = It::any(k % 10); k /= 10; x }).collect() }

/// head, tail, reverse, empty, exists, count and the cardinality checks; the comma flattens
#[no_mangle]
pub extern "C-unwind" fn t_basic() {
    let d = doc();
    let n = vs::param(0) as usize;
    let p: Vec<Program> = ["head($s)", "tail($s)", "reverse($s)", "empty($s)", "exists($s)", "count($s)", "zero-or-one($s)", "one-or-more($s)", "exactly-one($s)", "($s, $s)", "((), $s, ())", "(head($s), tail($s))", "reverse(reverse($s))", "count(($s, (), $s, 1))", "not(empty($s))", "($s)"].iter().map(|s| prog(s)).collect();
    let s = items(n, vs::param(1));
    let go = |i: usize| run(&p[i], &d, &[("s", vals(&s))]);
    ck!(1, "head is the first item", is_seq(&go(0), &s[..if n > 0 { 1 } else { 0 }]));
    ck!(2, "tail is all but the first item", is_seq(&go(1), &s[if n > 0 { 1 } else { 0 }..]));
    let mut back = s.clone();
    back.reverse();
    ck!(3, "reverse turns the order around", is_seq(&go(2), &back));
    ck!(4, "empty and exists tell whether there are items", is_bool(&go(3), n == 0) && is_bool(&go(4), n > 0) && is_bool(&go(14), n > 0));
    ck!(5, "count is the number of items", is_int(&go(5), n as i64) && is_int(&go(13), 2 * n as i64 + 1));
    let check = |i: usize, ok: bool| { let r = go(i); if ok { is_seq(&r, &s) } else { r.is_err() } };
    ck!(6, "zero-or-one, one-or-more and exactly-one pass their sequence or fail", check(6, n <= 1) && check(7, n >= 1) && check(8, n == 1));
    let mut twice = s.clone();
    twice.extend(s.iter());
    ck!(7, "the comma appends sequences", is_seq(&go(9), &twice) && is_seq(&go(10), &s) && is_seq(&go(11), &s) && is_seq(&go(12), &s) && is_seq(&go(15), &s));
}

/// insert-before, remove and positional selection with any position
#[no_mangle]
pub extern "C-unwind" fn t_pos() {
    let d = doc();
    let (n, m) = (vs::param(0) as usize, vs::param(1) as usize);
    let p: Vec<Program> = ["insert-before($s, $p, $t)", "remove($s, $p)", "subsequence($s, 1, 1)"].iter().map(|s| prog(s)).collect();
    let (s, t) = (items(n, 0), items(m, 1111));
    let pos = vs::i64();
    let go = |i: usize| run(&p[i], &d, &[("s", vals(&s)), ("t", vals(&t)), ("p", vec![Value::Integer(pos)])]);
    let (a, b) = (go(0), go(1));
    // 0-based index of the insertion point
    let mut at = n;
    for i in 0..n { if at == n && pos <= i as i64 + 1 { at = i } }
    let mut w = s[..at].to_vec();
    w.extend(t.iter());
    w.extend(s[at..].iter());
    ck!(1, "insert-before puts the items before the position, clamped to the sequence", is_seq(&a, &w));
    let mut w = vec![];
    for i in 0..n { if pos != i as i64 + 1 { w.push(s[i]); } }
    ck!(2, "remove drops the item at the position and nothing else", is_seq(&b, &w));
}

/// the empty sequence as argument of insert-before and remove
#[no_mangle]
pub extern "C-unwind" fn t_none() {
    let d = doc();
    let s = items(vs::param(0) as usize, 0);
    ck!(1, "inserting into or from nothing", is_seq(&run(&prog("insert-before((), 1, $s)"), &d, &[("s", vals(&s))]), &s) && is_seq(&run(&prog("insert-before($s, 2, ())"), &d, &[("s", vals(&s))]), &s));
    ck!(2, "functions of the empty sequence give the empty sequence", ["head(())", "tail(())", "reverse(())", "remove((), 1)", "subsequence((), 1)", "subsequence((), 1, 2)", "index-of((), 1)", "zero-or-one(())", "()", "((), ())", "max(())", "min(())", "avg(())", "sum((), ())", "data(())"].iter().all(|e| is_empty(&run(&prog(e), &d, &[]))));
}

const REP: [f64; 9] = [1.0, 0.5, 1.5, 2.0, -0.5, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
fn round(x: f64) -> f64 { let f = x.floor(); if x - f >= 0.5 { f + 1.0 } else { f } }
/// subsequence: the items whose position p satisfies round(start) <= p < round(start) + round(length)
#[no_mangle]
pub extern "C-unwind" fn t_sub() {
    // param 2: 0 any starting double, 1 small integers, 2 any double as length
    let (n, three, kind) = (vs::param(0) as usize, vs::param(1) == 1, vs::param(2));
    let p = prog(if three { "subsequence($s, $a, $b)" } else { "subsequence($s, $a)" });
    let d = doc();
    let s = items(n, 0);
    let rep = |k: u64| if kind == k { vs::f64() } else { REP[vs::param(3) as usize] };
    let (a, b) = if kind == 1 { (vs::pick(7) as i64 as f64 - 2.0, vs::pick(6) as i64 as f64 - 1.0) } else { (rep(0), if three { rep(2) } else { 0.0 }) };
    let val = |x: f64| vec![if kind == 1 { Value::Integer(x as i64) } else { Value::Double(x) }];
    let r = run(&p, &d, &[("s", vals(&s)), ("a", val(a)), ("b", val(b))]);
    let from = round(a);
    let to = from + round(b);
    let mut w = vec![];
    for i in 0..n { let q = (i + 1) as f64; if from <= q && (!three || q < to) { w.push(s[i]); } }
    ck!(1, "subsequence keeps the items at the positions the rounded bounds select", is_seq(&r, &w));
}

/// ranges
#[no_mangle]
pub extern "C-unwind" fn t_to() {
    let d = doc();
    let p: Vec<Program> = ["$a to $b", "count($a to $b)", "reverse($a to $b)", "($a to $b)[last()]", "for $x in $a to $b return $x"].iter().map(|s| prog(s)).collect();
    let (a, b) = (vs::i64(), vs::i64());
    let max = vs::param(0) as i64;
    // the length is bounded, the position on the number line is not
    vs::assume((a > b) | ((b.wrapping_sub(a) >= 0) & (b.wrapping_sub(a) < max)));
    let go = |i: usize| run(&p[i], &d, &[("a", vec![Value::Integer(a)]), ("b", vec![Value::Integer(b)])]);
    let r: Vec<R> = (0..5).map(|i| go(i)).collect();
    let n = if a > b { 0 } else { b.wrapping_sub(a) as usize + 1 };
    let mut w: Vec<It> = (0..n).map(|i| It { k: 0, i: a + i as i64, f: 0.0 }).collect();
    ck!(1, "a range counts up from the first to the last integer", is_seq(&r[0], &w) && is_seq(&r[4], &w));
    ck!(2, "the size of a range", is_int(&r[1], n as i64));
    ck!(3, "the last item of a range", is_seq(&r[3], if n > 0 { &w[n - 1..] } else { &w[..0] }));
    w.reverse();
    ck!(4, "a range can be reversed", is_seq(&r[2], &w));
}
#[no_mangle]
pub extern "C-unwind" fn t_to_none() {
    let d = doc();
    let a = vs::i64();
    let v = || vec![Value::Integer(a)];
    ck!(1, "a range with an empty bound is empty", is_empty(&run(&prog("$a to ()"), &d, &[("a", v())])) && is_empty(&run(&prog("() to $a"), &d, &[("a", v())])));
    ck!(2, "a range bound of several items is an error", run(&prog("(1, 2) to $a"), &d, &[("a", v())]).is_err() && run(&prog("$a to (1, 2)"), &d, &[("a", v())]).is_err());
}

/// index-of lists every position with an equal value
#[no_mangle]
pub extern "C-unwind" fn t_index() {
    let d = doc();
    let p = prog("index-of($s, $x)");
    let n = vs::param(0) as usize;
    // items of different kinds: numbers are representatives
    let mixed = vs::param(3) == 1;
    let mut k = vs::param(1);
    let mut any = |k: u64| if !mixed || k == 1 || k == 2 { It::any(k) } else if k == 0 { It { k, i: vs::pick(3) as i64, f: 0.0 } } else { It { k, i: 0, f: [0.0, 1.0, 1.5, f64::NAN][vs::pick(if k == 3 { 4 } else { 3 })] } };
    let s: Vec<It> = (0..n).map(|_| { let x = any(k % 10); k /= 10; x }).collect();
    let x = any(vs::param(2));
    let num = |x: &It| if x.k == 0 { x.i as f64 } else { x.f };
    let isnum = |x: &It| x.k == 0 || x.k > 2;
    let r = run(&p, &d, &[("s", vals(&s)), ("x", vec![x.v()])]);
    let mut w = vec![];
    for i in 0..n { if s[i].k == x.k || isnum(&s[i]) && isnum(&x) { let eq = if s[i].k == x.k && x.k < 3 { s[i].i == x.i } else { num(&s[i]) == num(&x) }; if eq { w.push(It { k: 0, i: i as i64 + 1, f: 0.0 }); } } }
    ck!(1, "index-of gives the positions of the equal items, ascending", is_seq(&r, &w));
}

/// sum, avg, max, min of integers
#[no_mangle]
pub extern "C-unwind" fn t_agg_int() {
    let d = doc();
    let p: Vec<Program> = ["sum($s)", "max($s)", "min($s)", "count($s)", "sum($s, 7)"].iter().map(|s| prog(s)).collect();
    let n = vs::param(0) as usize;
    let s = items(n, 0);
    let go = |i: usize| run(&p[i], &d, &[("s", vals(&s))]);
    // partial sums decide about overflow
    let mut sum = Some(0i64);
    for x in &s { sum = match sum { Some(a) => a.checked_add(x.i), None => None }; }
    match sum {
        Some(v) => { ck!(1, "sum adds up the integers", is_int(&go(0), v) && is_int(&go(4), if n == 0 { 7 } else { v })); }
        None => { ck_opt!(2, "a sum that is no 64-bit integer is an error", go(0).is_err()); }
    }
    let (mut hi, mut lo) = (i64::min_value(), i64::max_value());
    for x in &s { if x.i > hi { hi = x.i } if x.i < lo { lo = x.i } }
    if n > 0 { ck_opt!(3, "max is the largest and min the smallest", is_int(&go(1), hi) && is_int(&go(2), lo)); }
    else { ck_opt!(4, "max and min of nothing are empty", is_empty(&go(1)) && is_empty(&go(2))); }
}

/// sum, avg, max, min of decimals (kind 4) or doubles (kind 3)
#[no_mangle]
pub extern "C-unwind" fn t_agg_flt() {
    let d = doc();
    let (n, kind, f) = (vs::param(0) as usize, vs::param(1), vs::param(2) as usize);
    let p = prog(["sum($s)", "max($s)", "min($s)", "avg($s)"][f]);
    let s: Vec<It> = (0..n).map(|_| It::any(kind)).collect();
    let r = run(&p, &d, &[("s", vals(&s))]);
    let mut nan = false;
    for x in &s { nan |= x.f != x.f; }
    let one = |w: f64| if kind == 3 { is_dbl(&r, w) } else { is_dec(&r, w) };
    match f {
        0 | 3 => {
            // the running sum starts at the integer 0
            let mut w = 0.0;
            for x in &s { w += x.f; }
            if f == 3 { w /= n as f64; }
            ck_opt!(1, "sum and avg are the IEEE results in sequence order", one(w));
        }
        _ => {
            let mut w = s[0].f;
            for x in &s { if if f == 1 { x.f > w } else { x.f < w } { w = x.f } }
            ck_opt!(2, "max and min pick the extreme value, NaN if there is one", if nan { is_dbl(&r, f64::NAN) } else { match crate::num::one(&r) { Some(Value::Double(v)) => kind == 3 && *v == w, Some(Value::Decimal(v)) => kind == 4 && *v == w, _ => false } });
        }
    }
}

/// avg of integers is the exact quotient; aggregates of nodes use their numeric value; max and min of strings
#[no_mangle]
pub extern "C-unwind" fn t_agg_misc() {
    let d = doc();
    let n = vs::param(0) as usize;
    let v: Vec<i64> = (0..n).map(|_| vs::pick(5) as i64 - 2).collect();
    let mut sum = 0;
    for x in &v { sum += x; }
    let s = || v.iter().map(|x| Value::Integer(*x)).collect::<Vec<Value>>();
    ck!(1, "avg of integers is the quotient of sum and count", match one(&run(&prog("avg($s)"), &d, &[("s", s())])) { Some(Value::Decimal(x)) => *x == sum as f64 / n as f64, Some(Value::Integer(x)) => *x * n as i64 == sum, _ => false });
    let mut xml = String::from("<r>");
    for x in &v { xml = [&xml[..], "<e>", ["-2", "-1", "0", "1", "2"][(*x + 2) as usize], "</e>"].concat(); }
    let xml = [&xml[..], "</r>"].concat();
    let e = new_document(&xml).unwrap();
    let (mut hi, mut lo) = (v[0], v[0]);
    for x in &v { if *x > hi { hi = *x } if *x < lo { lo = *x } }
    let go = |p: &str| run(&prog(p), &e, &[]);
    ck!(2, "aggregates of nodes are those of their numeric values", is_dbl(&go("sum(//e)"), sum as f64) && is_dbl(&go("max(//e)"), hi as f64) && is_dbl(&go("min(//e)"), lo as f64) && is_dbl(&go("avg(//e)"), sum as f64 / n as f64) && is_int(&go("count(//e)"), n as i64));
}
/// max and min of strings
#[no_mangle]
pub extern "C-unwind" fn t_agg_str() {
    let d = doc();
    let n = vs::param(0) as usize;
    let s = items(n, 1111);
    let (mut hi, mut lo) = (s[0], s[0]);
    for x in &s { if x.i > hi.i { hi = *x } if x.i < lo.i { lo = *x } }
    ck!(1, "max and min of strings compare them by code points", is_seq(&run(&prog("max($s)"), &d, &[("s", vals(&s))]), &[hi]) && is_seq(&run(&prog("min($s)"), &d, &[("s", vals(&s))]), &[lo]));
    ck!(2, "count does not depend on the kind of the items", is_int(&run(&prog("count($s)"), &d, &[("s", vals(&s))]), n as i64));
}
/// aggregates of items of different kinds: parameter 0 their number, 1 the aggregate, 2 whether strings and booleans occur
#[no_mangle]
pub extern "C-unwind" fn t_agg_mix() {
    let (n, f, all) = (vs::param(0) as usize, vs::param(1) as usize, vs::param(2) == 1);
    let d = new_document("<r><e>2</e><e>-3</e></r>").unwrap();
    let es = match run(&prog("/r/e"), &d, &[]) { Ok(v) => v, Err(_) => return };
    let mut s: Vec<Value> = vec![];
    // 0 integer, 1 decimal, 2 double, 3 string, 4 boolean
    let mut kinds = vec![];
    let mut nums: Vec<f64> = vec![];
    for _ in 0..n {
        match vs::pick(if all { 7 } else { 5 }) {
            0 => { let i = [1, 2, -3][vs::pick(3)]; s.push(Value::Integer(i)); kinds.push(0); nums.push(i as f64) }
            1 => { let x = [1.5, 2.0][vs::pick(2)]; s.push(Value::Decimal(x)); kinds.push(1); nums.push(x) }
            2 => { let x = [0.5, 2.0, f64::NAN][vs::pick(3)]; s.push(Value::Double(x)); kinds.push(2); nums.push(x) }
            3 => { s.push(Value::Node(match &es[0] { Value::Node(n) => n.clone(), _ => return })); kinds.push(2); nums.push(2.0) }
            4 => { s.push(Value::Node(match &es[1] { Value::Node(n) => n.clone(), _ => return })); kinds.push(2); nums.push(-3.0) }
            5 => { s.push(Value::Str(["a", "2"][vs::pick(2)].to_owned())); kinds.push(3) }
            _ => { s.push(Value::Boolean(true)); kinds.push(4) }
        }
    }
    let r = run(&prog(["max($s)", "min($s)", "sum($s)", "avg($s)"][f]), &d, &[("s", s)]);
    if kinds.iter().any(|k| *k > 2) {
        if kinds.iter().any(|k| *k != kinds[0]) && !nums.iter().any(|x| x.is_nan()) { ck_opt!(1, "numbers and other values have no extreme", f > 1 || r.is_err()); }
        return;
    }
    let top = kinds.iter().cloned().max().unwrap();
    let (mut w, mut nan) = (if f < 2 { nums[0] } else { 0.0 }, false);
    for x in &nums {
        nan |= x.is_nan();
        match f { 0 => if *x > w { w = *x }, 1 => if *x < w { w = *x }, _ => w += *x }
    }
    if f == 3 { w /= n as f64 }
    if nan { w = f64::NAN }
    let kind = match one(&r) { Some(Value::Integer(_)) => 0, Some(Value::Decimal(_)) => 1, Some(Value::Double(_)) => 2, _ => 9 };
    let val = match one(&r) { Some(Value::Integer(i)) => *i as f64, Some(Value::Decimal(x)) | Some(Value::Double(x)) => *x, _ => return ck!(2, "an aggregate of numbers is a number", false) };
    ck!(2, "an aggregate of numbers is a number", true);
    ck!(3, "its value does not depend on the kinds of the numbers", crate::num::same(val, w));
    ck!(4, "its type is the common type of the numbers", kind == top || f == 3 && top == 0 && kind == 1);
}
