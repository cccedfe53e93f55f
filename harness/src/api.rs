//! the four public entry points, the notation of results, and XPath on edited documents
use crate::model::*;
use crate::nodes::*;
use crate::vs;
use amxml::dom::*;

/// an expected item: a node of the model, or the notation of any other item
#[derive(Clone, PartialEq)]
enum R { N(usize), A(String) }
fn a(s: &str) -> Vec<R> { vec![R::A(String::from(s))] }
fn ns(v: Vec<usize>) -> Vec<R> { v.into_iter().map(R::N).collect() }

const PIECES: [&str; 26] = ["//node()", "//@*", ".", "()", "1", "2.5", "3e0", "'s'", "true()", "..", "reverse(//*)", "string(.)", "/", "count(//*)", "*[1]", "-0e0",
    "[1, .]", "map{'k': .}", "(., .)", "for $x in //* return $x/@*", "1 + 'x'", "//*/..", "(//*)[last()]", "concat('<', '&amp;')", "text() | @*", "[(), (1, 2.0), [false()]]"];
fn show(m: &M, r: &[R]) -> String {
    if r.len() == 1 { return show1(m, &r[0]) }
    let mut o = String::from("(");
    for (k, x) in r.iter().enumerate() { if k > 0 { o.push_str(", ") } o.push_str(&show1(m, x)) }
    o.push(')');
    o
}
fn show1(m: &M, r: &R) -> String {
    match r {
        R::A(s) => s.clone(),
        R::N(i) => {
            let n = &m.n[*i];
            let at = |i: usize| [&m.n[i].name[..], "=\"", &m.n[i].val, "\""].concat();
            match n.k {
                K::Root => String::from("(DocumentRoot)"),
                K::Elem => { let mut o = ["<", &n.name].concat(); for x in &n.at { o.push(' '); o.push_str(&at(*x)) } o.push('>'); o }
                K::Text => n.val.clone(),
                K::Attr => at(*i),
                _ => String::new(),
            }
        }
    }
}
/// what a piece gives in context node i; None for an error
fn piece(m: &M, k: usize, i: usize) -> Option<Vec<R>> {
    let all = m.doc_order();
    let elems: Vec<usize> = all.iter().cloned().filter(|x| m.n[*x].k == K::Elem).collect();
    let one = |i: usize| vec![R::N(i)];
    Some(match k {
        0 => ns(all.into_iter().filter(|x| *x != 0 && m.n[*x].k != K::Attr).collect()),
        1 => ns(all.into_iter().filter(|x| m.n[*x].k == K::Attr).collect()),
        2 => one(i),
        3 => vec![],
        4 => a("1"),
        5 => a("2.5"),
        6 => a("3e0"),
        7 => a("\"s\""),
        8 => a("true"),
        9 => ns(m.axis(Ax::Parent, i)),
        10 => { let mut e = elems; e.reverse(); ns(e) }
        11 => vec![R::A(["\"", &m.string_value(i), "\""].concat())],
        12 => one(0),
        13 => vec![R::A(((elems.len() as u8 + b'0') as char).to_string())],
        14 => ns(m.step(Ax::Child, &Test::Any, i).into_iter().take(1).collect()),
        15 => a("-0e0"),
        16 => vec![R::A(["[1, ", &show1(m, &R::N(i)), "]"].concat())],
        17 => vec![R::A(["{\"k\" => ", &show1(m, &R::N(i)), "}"].concat())],
        18 => vec![R::N(i), R::N(i)],
        19 => { let mut o = vec![]; for e in elems { for x in &m.n[e].at { o.push(R::N(*x)) } } o }
        20 => return None,
        21 => ns(m.sort(&elems.iter().map(|e| m.n[*e].parent).collect::<Vec<_>>())),
        22 => vec![R::N(*elems.last().unwrap())],
        23 => a("\"<&amp;\""),
        24 => ns(m.sort(&m.axis(Ax::Child, i).into_iter().filter(|x| m.n[*x].k == K::Text).chain(m.n[i].at.iter().cloned()).collect::<Vec<_>>())),
        _ => a("[(), (1, 2.0), [false]]"),
    })
}

/// all entry points report the same result, in the documented notation, and leave the document alone
#[no_mangle]
pub extern "C-unwind" fn a_api() {
    let p = vs::param(1) as usize;
    let m = gen(vs::param(0) as usize);
    let (d, v) = document(&m);
    let xml = d.to_string();
    let lo = vs::param(2) as usize;
    for i in 0..m.n.len() {
        for q in lo..(lo + 4).min(PIECES.len() + 1) {
            // the piece alone, then followed by every other one
            let (x, want) = if q == PIECES.len() { (String::from(PIECES[p]), piece(&m, p, i)) } else {
                let w = match (piece(&m, p, i), piece(&m, q, i)) { (Some(mut a), Some(b)) => { a.extend(b); Some(a) } _ => None };
                ([PIECES[p], ", ", PIECES[q]].concat(), w)
            };
            let n = &v[i];
            let (s, ns, fi) = (n.eval_xpath(&x), n.get_nodeset(&x), n.get_first_node(&x));
            let mut seen = vec![];
            let e = n.each_node(&x, |y| seen.push(index_of(&v, &y)));
            match want {
                None => {
                    ck_opt!(1, "an error is an error at every entry point", s.is_err() && ns.is_err() && fi.is_none() && e.is_err());
                    ck_opt!(2, "each_node calls nothing when the expression fails", seen.is_empty());
                }
                Some(w) => {
                    ck_opt!(3, "a result is a result at every entry point", s.is_ok() && ns.is_ok() && e.is_ok());
                    let s = s.unwrap();
                    ck_opt!(4, "the result has as many items as the expression gives", s.len() == w.len());
                    let again = n.eval_xpath(&x).unwrap();
                    ck_opt!(5, "the notation of the result is the documented one", s.to_string() == show(&m, &w));
                    ck_opt!(6, "evaluating once more gives the same result", again.to_string() == show(&m, &w));
                    let items: Vec<_> = (0..w.len()).map(|k| s.get_item(k)).collect();
                    std::mem::drop(s);
                    for k in 0..w.len() {
                        let node = items[k].as_nodeptr();
                        ck_opt!(7, "an item is a node exactly when the expression gives that node there", match (&w[k], &node) { (R::N(j), Some(y)) => v[*j] == *y, (R::A(_), None) => true, _ => false });
                        ck_opt!(8, "the notation of an item is the documented one", items[k].to_string() == show1(&m, &w[k]));
                    }
                    let nodes: Vec<usize> = w.iter().filter_map(|r| match r { R::N(j) => Some(*j), _ => None }).collect();
                    let ns: Vec<usize> = ns.unwrap().iter().map(|y| index_of(&v, y)).collect();
                    ck_opt!(9, "get_nodeset gives the nodes of the result", ns == nodes);
                    ck_opt!(10, "each_node visits the nodes of the result, in order", seen == nodes);
                    ck_opt!(11, "get_first_node gives the first node of the result", fi.map(|y| index_of(&v, &y)) == nodes.first().cloned());
                }
            }
        }
    }
    ck!(12, "evaluation leaves the document as it was", d.to_string() == xml && bind(&m, &d).map_or(false, |b| (0..b.len()).all(|k| b[k] == v[k])));
}


const BAD: [&str; 24] = ["", " ", "1 +", "//", "a[", "a]", "(1", "'x", "$v", "f(1)", "1 = ", "for $x in", "..a", "if (1) then 2", "1 idiv 0", "'a' + 1", "a/1/b", "exactly-one(())", "let $x := 1 return $y",
    "(1, 2) eq 1", "[1](2)", "'x' cast as integer", "-'a'", "count()"];
/// expressions that are malformed or fail: an error at every entry point, never a panic
#[no_mangle]
pub extern "C-unwind" fn a_bad() {
    let m = gen(vs::param(0) as usize);
    let (d, v) = document(&m);
    let xml = d.to_string();
    let k = vs::pick(BAD.len() as u32);
    for i in 0..m.n.len() {
        let n = &v[i];
        let mut calls = 0;
        let e = n.each_node(BAD[k], |_| calls += 1);
        // a/1/b is only an error where there is an a
        let may = k == 16;
        ck!(1, "an error at every entry point", may || n.eval_xpath(BAD[k]).is_err() && n.get_nodeset(BAD[k]).is_err() && n.get_first_node(BAD[k]).is_none() && e.is_err() && calls == 0);
    }
    ck!(2, "errors leave the document as it was", d.to_string() == xml);
}

/// normal form of a number: digits without leading or trailing zeros, and the exponent of the first digit
fn digits(int: &[u8], frac: &[u8]) -> (Vec<u8>, i32) {
    let mut v: Vec<u8> = int.to_vec();
    v.extend(frac);
    let mut e = int.len() as i32 - 1;
    while !v.is_empty() && v[0] == b'0' { v.remove(0); e -= 1; }
    while !v.is_empty() && v[v.len() - 1] == b'0' { v.pop(); }
    (v, e)
}
fn dec(int: &[u8], frac: &[u8]) -> String {
    let mut i = int.to_vec();
    while i.len() > 1 && i[0] == b'0' { i.remove(0); }
    if i.is_empty() { i.push(b'0') }
    let mut f = frac.to_vec();
    while !f.is_empty() && f[f.len() - 1] == b'0' { f.pop(); }
    if f.is_empty() { f.push(b'0') }
    i.push(b'.');
    i.extend(f);
    String::from_utf8(i).unwrap()
}
fn dbl(int: &[u8], frac: &[u8], e: i32) -> String {
    let (v, x) = digits(int, frac);
    if v.is_empty() { return String::from("0e0") }
    let mut o = vec![v[0]];
    if v.len() > 1 { o.push(b'.'); o.extend(&v[1..]) }
    let x = x + e;
    o.push(b'e');
    if x < 0 { o.push(b'-') }
    let x = x.abs() as u8;
    if x >= 10 { o.push(b'0' + x / 10) }
    o.push(b'0' + x % 10);
    String::from_utf8(o).unwrap()
}

/// the notation of an atomic result, read as an expression, is that result again
#[no_mangle]
pub extern "C-unwind" fn a_lit() {
    let (kind, n, f) = (vs::param(0), vs::param(1) as usize, vs::param(2) as usize);
    let d = new_document("<r/>").unwrap();
    let dig = |n: usize| -> Vec<u8> { (0..n).map(|_| b'0' + vs::pick(10) as u8).collect() };
    let (src, want) = match kind {
        0 => { let s = vs::string_n(b"az '<&(1.", n); (["\"", &s, "\""].concat(), ["\"", &s, "\""].concat()) }
        1 => { let t = dig(n); let mut w = t.clone(); while w.len() > 1 && w[0] == b'0' { w.remove(0); } (String::from_utf8(t).unwrap(), String::from_utf8(w).unwrap()) }
        2 => { let (i, q) = (dig(n), dig(f)); let mut t = i.clone(); t.push(b'.'); t.extend(&q); (String::from_utf8(t).unwrap(), dec(&i, &q)) }
        3 => {
            let (i, q) = (dig(n), dig(f));
            let x = vs::pick(5);
            let mut t = i.clone();
            if f > 0 { t.push(b'.'); t.extend(&q) }
            t.extend([&b"e0"[..], b"E1", b"e-1", b"E+2", b"e12"][x]);
            (String::from_utf8(t).unwrap(), dbl(&i, &q, [0, 1, -1, 2, 12][x]))
        }
        _ => { let k = vs::pick(2); (String::from(["true()", "false()"][k]), String::from(["true", "false"][k])) }
    };
    let r = d.eval_xpath(&src);
    ck!(1, "a literal is an expression", r.is_ok());
    let r = r.unwrap();
    ck!(2, "a literal is one atomic item", r.len() == 1 && r.get_item(0).as_nodeptr().is_none());
    ck!(3, "a literal in its normal form", r.to_string() == want && r.get_item(0).to_string() == want);
    if kind < 4 {
        let again = d.eval_xpath(&r.to_string());
        ck_opt!(4, "the notation read as an expression is the same item", match again { Ok(a) => a.to_string() == want, Err(_) => false });
        let ty = d.eval_xpath(&[&want, " instance of ", ["xs:string", "xs:integer", "xs:decimal", "xs:double"][kind as usize]].concat());
        ck_opt!(5, "the notation shows the type", match ty { Ok(a) => a.to_string() == "true", Err(_) => false });
    }
}

/// one edit of the real tree and of the model; false when the edit does not apply to that node
fn edit(m: &mut M, v: &mut Vec<NodePtr>, op: usize, t: usize, step: usize) -> bool {
    let p = m.n[t].parent;
    let elem = m.n[t].k == K::Elem;
    if p == NONE || m.n[t].k == K::Attr { return false }
    let pos = m.n[p].ch.iter().position(|x| *x == t).unwrap();
    // the new subtree: an element with an attribute and a child
    let xml = ["<n x='2'><a/></n>", "<a y='3'>w</a>"][step];
    let graft = |m: &mut M, p: usize, at: usize| {
        let i = m.add(p, K::Elem, ["n", "a"][step], "");
        m.add(i, K::Attr, ["x", "y"][step], ["2", "3"][step]);
        if step == 0 { m.add(i, K::Elem, "a", ""); } else { m.add(i, K::Text, "", "w"); }
        m.n[p].ch.pop();
        m.n[p].ch.insert(at, i);
    };
    match op {
        0 => { if !elem { return false } let d = new_document(xml).unwrap(); v[t].append_child(&d.root_element()); let e = m.n[t].ch.len(); graft(m, t, e); }
        1 => { let d = new_document(xml).unwrap(); v[t].insert_as_previous_sibling(&d.root_element()); graft(m, p, pos); }
        2 => { let d = new_document(xml).unwrap(); v[t].insert_as_next_sibling(&d.root_element()); graft(m, p, pos + 1); }
        3 => { v[p].delete_child(&v[t]); m.n[p].ch.remove(pos); m.n[t].parent = NONE; }
        4 => { let d = new_document(xml).unwrap(); v[t].replace_with(&d.root_element()); m.n[p].ch.remove(pos); m.n[t].parent = NONE; graft(m, p, pos); }
        5 => { if !elem { return false } v[t].rc_clone().set_attribute("y", "7"); match m.n[t].at.iter().find(|x| m.n[**x].name == "y").cloned() { Some(x) => m.n[x].val = String::from("7"), None => { m.add(t, K::Attr, "y", "7"); } } }
        6 => { if m.n[t].at.is_empty() { return false } let x = m.n[t].at[0]; let nm = m.n[x].name.clone(); v[t].rc_clone().delete_attribute(&nm); m.n[t].at.remove(0); m.n[x].parent = NONE; }
        _ => {
            // move to the end of the root element
            if t == 1 || m.n[1].k != K::Elem || m.root_of(1) != 0 { return false }
            v[1].append_child(&v[t]);
            m.n[p].ch.remove(pos);
            m.n[1].ch.push(t);
            m.n[t].parent = 1;
        }
    }
    true
}
/// pointers of all nodes of the model, in the document and detached; None when a tree differs
fn rebind(m: &M, d: &NodePtr, old: &[NodePtr]) -> Option<Vec<NodePtr>> {
    let mut v = bind(m, d)?;
    for i in 0..old.len() {
        let r = m.root_of(i);
        if r != 0 { v[i] = old[i].rc_clone() }
        else if m.n[i].k != K::Attr && v[i] != old[i] { return None }
    }
    Some(v)
}

/// XPath on an edited document, and on what was cut out of it, sees exactly the trees that are there now
#[no_mangle]
pub extern "C-unwind" fn a_edit() {
    let (g, op1, op2) = (vs::param(0) as usize, vs::param(1) as usize, vs::param(2) as usize);
    let axes: Vec<_> = AXES.iter().map(|(ax, n)| (*ax, prog(&[n, "::node()"].concat()))).collect();
    let union = prog("$p | $q");
    let (before, same) = (prog("$p << $q"), prog("$p is $q"));
    let all = prog("//node() | //@*");
    let mut m = gen(g);
    let (d, mut v) = document(&m);
    for (step, op) in [op1, op2].iter().enumerate() {
        if *op > 7 { break }
        // look at the order first, so that it is known when the edit happens
        ck!(1, "all nodes in document order before the edit", eval_nodes(&all, &d, &[], &v) == Some(m.doc_order().into_iter().skip(1).collect()));
        let cand: Vec<usize> = m.doc_order().into_iter().filter(|x| *x != 0 && m.n[*x].k != K::Attr).collect();
        if cand.is_empty() { return }
        let t = cand[vs::pick(cand.len() as u32)];
        if !edit(&mut m, &mut v, *op, t, step) { return }
        let b = rebind(&m, &d, &v);
        ck!(2, "the edited tree is the model's", b.is_some());
        v = b.unwrap();
    }
    ck_opt!(3, "all nodes in document order after the edit", eval_nodes(&all, &d, &[], &v) == Some(m.doc_order().into_iter().skip(1).collect()));
    let val = |i: usize| vec![amxml::verif::Value::Node(v[i].rc_clone())];
    let truth = |p: &amxml::verif::Program, i: usize, j: usize| match amxml::verif::run(p, &v[0], &[("p", val(i)), ("q", val(j))]) { Ok(r) => match r.first() { Some(amxml::verif::Value::Boolean(b)) => Some(*b), _ => None }, _ => None };
    let ord = m.doc_order();
    for i in 0..m.n.len() {
        let r = m.root_of(i);
        if m.n[r].k == K::Attr { continue }
        ck!(4, "root() is the root of the tree the node is in now", index_of(&v, &v[i].root()) == r);
        for (ax, p) in &axes {
            let want = m.sort_in(r, &m.step(*ax, &Test::Node, i));
            ck!(5, "every axis follows the tree as it is now, also in a detached tree", eval_nodes(p, &v[i], &[], &v) == Some(want));
        }
        if r == 0 {
            let pi = ord.iter().position(|x| *x == i).unwrap();
            for (pj, j) in ord.iter().enumerate() {
                ck!(6, "<< and is follow the tree as it is now", truth(&before, i, *j) == Some(pi < pj) && truth(&same, i, *j) == Some(pi == pj));
                if pj < pi { ck_opt!(7, "union is in the order of the tree as it is now", eval_nodes(&union, &d, &[("p", val(i)), ("q", val(*j))], &v) == Some(vec![*j, i])); }
            }
        }
    }
}
