//! maps and arrays
use crate::nodes::prog;
use crate::num::*;
use crate::seqs::*;
use crate::vs;
use amxml::dom::*;
use amxml::verif::*;

/// a key: any integer, any boolean, any one-letter string; among mixed kinds of number, representatives
fn key(k: u64, mixed: bool) -> It {
    if !mixed || k == 1 || k == 2 { return It::any(k) }
    if k == 0 { It { k, i: vs::pick(3) as i64, f: 0.0 } } else { It { k, i: 0, f: [1.0, 0.0, 1.5, f64::NAN][vs::pick(if k == 3 { 4 } else { 3 })] } }
}
fn same_key(a: &It, b: &It) -> bool {
    let num = |x: &It| x.k == 0 || x.k > 2;
    if a.k == 0 && b.k == 0 || a.k == b.k && a.k < 3 { return a.i == b.i }
    if !(num(a) && num(b)) { return false }
    let v = |x: &It| if x.k == 0 { x.i as f64 } else { x.f };
    let (x, y) = (v(a), v(b));
    (x == y) | ((x != x) & (y != y))
}

/// map constructor, size, keys, contains, get, call, lookup and wildcard
#[no_mangle]
pub extern "C-unwind" fn m_map() {
    let d = doc();
    let (n, mut kinds, probe, mixed) = (vs::param(0) as usize, vs::param(1), vs::param(2), vs::param(3) == 1);
    let make = ["map{}", "map{$k0: $v0}", "map{$k0: $v0, $k1: $v1}", "map{$k0: $v0, $k1: $v1, $k2: $v2}"][n];
    let with = |e: &str| prog(&["let $m := ", make, " return ", e].concat());
    let p: Vec<Program> = ["map:size($m)", "map:keys($m)", "map:contains($m, $x)", "map:get($m, $x)", "$m($x)", "$m?($x)", "$m?*", "$m ! ?($x)", "for $k in map:keys($m) return $m($k)", "$m instance of map(*)", "$m => map:get($x)", "$m ! ?*", "($m, $m)?($x)", "$m?($x, $x)"].iter().map(|e| with(e)).collect();
    let mut ks = vec![];
    let mut vs_ = vec![];
    for i in 0..n { ks.push(key(kinds % 10, mixed)); kinds /= 10; vs_.push(items([3, 1, 0][i], 0)); }
    let x = key(probe, mixed);
    let names = [("k0", "v0"), ("k1", "v1"), ("k2", "v2")];
    let vars = || { let mut o = vec![("x", vec![x.v()])]; for i in 0..n { o.push((names[i].0, vec![ks[i].v()])); o.push((names[i].1, vals(&vs_[i]))); } o };
    let mut dup = false;
    for i in 0..n { for j in 0..i { dup |= same_key(&ks[i], &ks[j]); } }
    let go = |i: usize| run(&p[i], &d, &vars());
    if dup {
        ck_opt!(1, "a map with two entries of the same key is an error", go(0).is_err());
        return
    }
    let mut hit = None;
    for i in 0..n { if same_key(&ks[i], &x) { hit = Some(i) } }
    let found: Vec<It> = match hit { Some(i) => vs_[i].clone(), None => vec![] };
    ck!(2, "map:size counts the entries", is_int(&go(0), n as i64));
    // keys come in no particular order, but each exactly once
    let r = go(1);
    let mut ok = false;
    if let Ok(v) = &r { ok = v.len() == n; for k in &ks { let mut c = 0; for x in v { if k.is(x) { c += 1 } } ok &= c == 1; } }
    ck!(3, "map:keys lists every key once", ok);
    ck!(4, "map:contains tells whether there is an entry", is_bool(&go(2), hit.is_some()));
    ck!(5, "map:get, call and lookup give the value of the key, or nothing", is_seq(&go(3), &found) && is_seq(&go(4), &found) && is_seq(&go(5), &found) && is_seq(&go(7), &found) && is_seq(&go(10), &found));
    let all: usize = vs_.iter().map(|v| v.len()).sum();
    let (a, b, c) = (go(6), go(8), go(11));
    let order = |r: &R| -> bool { if n != 2 { return r.as_ref().map(|v| v.len() == all).unwrap_or(false) } let (mut x, mut y) = (vs_[0].clone(), vs_[1].clone()); x.extend(vs_[1].iter()); y.extend(vs_[0].iter()); is_seq(r, &x) | is_seq(r, &y) };
    ck!(6, "the wildcard lists all values", order(&a) && order(&b) && order(&c));
    ck!(7, "a map is a map", is_bool(&go(9), true));
    let mut two = found.clone();
    two.extend(found.iter());
    ck!(8, "lookup over several maps or several keys appends the results", is_seq(&go(12), &two) && is_seq(&go(13), &two));
}

/// lookup by name and by integer literal; nested maps and arrays
#[no_mangle]
pub extern "C-unwind" fn m_nest() {
    let d = doc();
    let s = items(3, 0);
    let vars = || vec![("a", vec![s[0].v()]), ("b", vec![s[1].v()]), ("c", vec![s[2].v()])];
    let go = |e: &str| run(&prog(e), &d, &vars());
    let (a, b, c) = (&s[..1], &s[1..2], &s[2..]);
    for (e, w) in [("map{'x': $a, 'y': $b}?x", a), ("map{'x': $a, 'y': $b}?y", b), ("map{1: $a, 2: $b}?2", b), ("map{'x': map{'y': $c}}?x?y", c), ("map{'x': [$a, $b, $c]}?x?2", b), ("map{'x': [$a, $b, $c]}?x(3)", c), ("[[$a, $b], [$c]](1)(2)", b), ("[[$a, $b], [$c]]?2?1", c), ("[map{'x': $a}, map{'x': $b}](2)('x')", b), ("map{'x': [$a, map{'y': [$b, $c]}]}?x?2?y?2", c), ("[$a, $b] ! ?2", b), ("map{'x': $a} ! ?x", a), ("[$a, $b][?1 = $a]?2", b), ("array:get([$a, $b], 1)", a), ("[$a, [$b, $c]] => array:flatten() => head()", a), ("let $m := map{'x': [$a, $b]} return $m?x(1)", a), ("map{'if': $a}?if", a), ("map{'a-b': $c}?a-b", c), ("(map{'x': $a}?x, ())", a)].iter() {
        ck!(1, "lookups reach into nested maps and arrays", is_seq(&go(e), w));
    }
    ck!(2, "looking up in something that is neither map nor array is an error", go("$a?x").is_err() && go("$a?*").is_err() && go("(map{'x': 1}, $a)?x").is_err());
    ck!(3, "a key is a single atomic value", go("map{($a, $b): 1}").is_err() && go("map{(): 1}").is_err());
}

/// array constructors, size, get, call, lookup, wildcard, flatten; any position
#[no_mangle]
pub extern "C-unwind" fn m_arr() {
    let d = doc();
    let (n, curly) = (vs::param(0) as usize, vs::param(1) == 1);
    let make = if curly { ["array{}", "array{$v0}", "array{$v0, $v1}", "array{$v0, $v1, $v2}", "array{$v0, $v1, $v2, $v3}", "array{$v0, $v1, $v2, $v3, $v4}"][n] } else { ["[]", "[$v0]", "[$v0, $v1]", "[$v0, $v1, $v2]", "[$v0, $v1, $v2, $v3]", "[$v0, $v1, $v2, $v3, $v4]"][n] };
    let with = |e: &str| prog(&["let $m := ", make, " return ", e].concat());
    let p: Vec<Program> = ["array:size($m)", "array:get($m, $x)", "$m($x)", "$m?($x)", "$m ! ?($x)", "$m => array:get($x)", "$m?*", "array:flatten($m)", "$m instance of array(*)", "for $i in 1 to array:size($m) return $m($i)", "array:flatten([$m, [], [[$m]]])", "count($m)", "array:flatten(($m, 7, $m))", "data($m)", "($m, $m)?($x)", "data([$m, []])"].iter().map(|e| with(e)).collect();
    // the members have 3, 1, 0, 2 and 1 items
    let seqs: Vec<Vec<It>> = (0..n).map(|i| items([3, 1, 0, 2, 1][i], 10)).collect();
    let mut all = vec![];
    for s in &seqs { all.extend(s.iter().cloned()); }
    let members: Vec<Vec<It>> = if curly { all.iter().map(|x| vec![*x]).collect() } else { seqs.clone() };
    let size = members.len();
    const X: [i64; 4] = [i64::min_value(), i64::max_value(), -1, 1 << 32];
    let k = vs::pick(size as u32 + 6);
    let pos = if k < size + 2 { k as i64 } else { X[k - size - 2] };
    let names = ["v0", "v1", "v2", "v3", "v4"];
    let vars = || { let mut o = vec![("x", vec![Value::Integer(pos)])]; for i in 0..n { o.push((names[i], vals(&seqs[i]))); } o };
    let go = |i: usize| run(&p[i], &d, &vars());
    ck!(1, "array:size counts the members", is_int(&go(0), size as i64));
    if pos >= 1 && pos <= size as i64 {
        let w = &members[pos as usize - 1];
        ck_opt!(2, "array:get, call and lookup give the member at the position", is_seq(&go(1), w) && is_seq(&go(2), w) && is_seq(&go(3), w) && is_seq(&go(4), w) && is_seq(&go(5), w));
        let mut two = w.clone();
        two.extend(w.iter());
        ck_opt!(3, "lookup over several arrays appends the results", is_seq(&go(14), &two));
    } else {
        ck!(4, "a position outside the array is an error", (1..6).all(|i| go(i).is_err()) && go(14).is_err());
    }
    let mut twice = all.clone();
    twice.extend(all.iter());
    ck!(5, "the wildcard and array:flatten list the contents in order", is_seq(&go(6), &all) && is_seq(&go(7), &all) && is_seq(&go(9), &all) && is_seq(&go(10), &twice));
    ck!(6, "an array is one item", is_bool(&go(8), true) && is_int(&go(11), 1));
    let mut mid = all.clone();
    mid.push(It { k: 0, i: 7, f: 0.0 });
    mid.extend(all.iter());
    ck!(7, "array:flatten flattens arrays among other items", is_seq(&go(12), &mid));
    ck!(8, "atomizing an array gives the atomized members", is_seq(&go(13), &all) && is_seq(&go(15), &all));
}
/// comparisons see into arrays
#[no_mangle]
pub extern "C-unwind" fn m_cmp() {
    let d = doc();
    let s = items(3, 0);
    let p: Vec<Program> = ["[$a, $b] = $c", "$c != [$a, ($b)]", "[$a] eq $c", "[[$a], $b] < $c"].iter().map(|s| prog(s)).collect();
    let go = |i: usize| run(&p[i], &d, &[("a", vec![s[0].v()]), ("b", vec![s[1].v()]), ("c", vec![s[2].v()])]);
    let (a, b, c) = (s[0].i, s[1].i, s[2].i);
    ck!(1, "a comparison atomizes arrays", is_bool(&go(0), (a == c) | (b == c)) && is_bool(&go(1), (a != c) | (b != c)) && is_bool(&go(2), a == c) && is_bool(&go(3), (a < c) | (b < c)));
}

/// keys of every kind side by side, also those that are written alike
#[no_mangle]
pub extern "C-unwind" fn m_keys() {
    let d = doc();
    let n = vs::param(0) as usize;
    // value, and the class of equal keys it belongs to
    let pool: Vec<(Value, u32)> = vec![(Value::Integer(1), 0), (Value::Str(String::from("1")), 1), (Value::Boolean(true), 2), (Value::Str(String::from("true")), 3), (Value::Decimal(1.5), 4), (Value::Str(String::from("1.5")), 5), (Value::Double(1.0), 0), (Value::Str(String::new()), 6),
        (Value::Integer(0), 7), (Value::Boolean(false), 8), (Value::Double(std::f64::NAN), 9), (Value::Str(String::from("NaN")), 10), (Value::Double(1.5), 4), (Value::Decimal(1.0), 0), (Value::Integer(-1), 11), (Value::Double(-0.0), 7)];
    let pool = &pool[..if n == 2 { 16 } else { 8 }];
    let make = ["map{}", "map{$k0: 0}", "map{$k0: 0, $k1: 1}", "map{$k0: 0, $k1: 1, $k2: 2}"][n];
    let with = |e: &str| prog(&["let $m := ", make, " return ", e].concat());
    let p: Vec<Program> = ["map:keys($m)", "map:size($m)", "map:get($m, $x)", "$m($x)", "map:contains($m, $x)", "$m?($x)"].iter().map(|e| with(e)).collect();
    let copy = |v: &Value| match v { Value::Integer(i) => Value::Integer(*i), Value::Decimal(f) => Value::Decimal(*f), Value::Double(f) => Value::Double(*f), Value::Str(s) => Value::Str(s.clone()), Value::Boolean(b) => Value::Boolean(*b), _ => vs::stop() };
    let alike = |a: &Value, b: &Value| match (a, b) { (Value::Integer(x), Value::Integer(y)) => x == y, (Value::Decimal(x), Value::Decimal(y)) | (Value::Double(x), Value::Double(y)) => same(*x, *y), (Value::Str(x), Value::Str(y)) => x == y, (Value::Boolean(x), Value::Boolean(y)) => x == y, _ => false };
    let k: Vec<usize> = (0..n).map(|_| vs::pick(pool.len() as u32)).collect();
    let names = ["k0", "k1", "k2"];
    let go = |i: usize, x: &Value| { let mut o = vec![("x", vec![copy(x)])]; for i in 0..n { o.push((names[i], vec![copy(&pool[k[i]].0)])); } run(&p[i], &d, &o) };
    let zero = Value::Integer(0);
    if (0..n).any(|i| (0..i).any(|j| pool[k[i]].1 == pool[k[j]].1)) {
        ck_opt!(1, "a map with two entries of the same key is an error", go(0, &zero).is_err());
        return
    }
    ck!(2, "map:keys gives every key as it was written, once", match go(0, &zero) { Ok(r) => r.len() == n && (0..n).all(|i| r.iter().filter(|x| alike(x, &pool[k[i]].0)).count() == 1), Err(_) => false });
    ck!(3, "map:size counts the entries", is_int(&go(1, &zero), n as i64));
    for (x, c) in pool {
        let hit = (0..n).find(|i| pool[k[*i]].1 == *c);
        let want = |r: R| match hit { Some(i) => is_int(&r, i as i64), None => is_empty(&r) };
        ck!(4, "only an equal key finds the entry", want(go(2, x)) && want(go(3, x)) && is_bool(&go(4, x), hit.is_some()) && want(go(5, x)));
    }
}

/// any nesting of sequences and arrays
fn shape(depth: u32, width: u32, n: &mut usize, in_array: bool) -> String {
    let k = vs::pick(width + 1);
    let mut s = String::new();
    for i in 0..k {
        if i > 0 { s.push_str(", ") }
        match vs::pick(if depth > 0 { 3 } else { 1 }) {
            0 => { s.push_str(["$v0", "$v1", "$v2", "$v3", "$v4"][*n % 5]); *n += 1; }
            1 => { s.push('['); s.push_str(&shape(depth - 1, width, n, true)); s.push(']') }
            _ => { if in_array { s.push('(') } else { s.push_str("array{") } s.push_str(&shape(depth - 1, width, n, false)); s.push(if in_array { ')' } else { '}' }) }
        }
    }
    s
}
#[no_mangle]
pub extern "C-unwind" fn m_flat() {
    let d = doc();
    let mut n = 0;
    let s = shape(vs::param(0) as u32, vs::param(1) as u32, &mut n, false);
    let v = items(5, 0);
    let w: Vec<It> = (0..n).map(|i| v[i % 5]).collect();
    let vars = || vec![("v0", vec![v[0].v()]), ("v1", vec![v[1].v()]), ("v2", vec![v[2].v()]), ("v3", vec![v[3].v()]), ("v4", vec![v[4].v()])];
    let p = prog(&["let $z := (", &s, "), $x := [$z], $y := array{$z} return (array:flatten($z), data($z), array:flatten($x), data($x), array:flatten($y), data($y), array:flatten(($x, $y)), reverse(array:flatten($z)))"].concat());
    let mut all = vec![];
    for _ in 0..8 { all.extend(w.iter().cloned()) }
    all.extend(w.iter().rev().cloned());
    ck!(1, "array:flatten and atomization give the items of all nested arrays in order", is_seq(&run(&p, &d, &vars()), &all));
}
