//! XPath over nodes: axes, node tests, paths, predicates, node-set operators, string values
use crate::model::*;
use crate::vs;
use amxml::dom::*;
use amxml::verif::*;

pub fn prog(s: &str) -> Program { match compile(s) { Ok(p) => p, Err(_) => { ck!(110, "the expression compiles", false); loop {} } } }
/// result as indices into the model, NONE for anything else
pub fn nodes_of(v: &[NodePtr], r: &[Value]) -> Vec<usize> {
    r.iter().map(|x| match x { Value::Node(p) => index_of(v, p), _ => NONE }).collect()
}
pub fn eval_nodes(p: &Program, cur: &NodePtr, vars: &[(&str, Vec<Value>)], v: &[NodePtr]) -> Option<Vec<usize>> {
    run(p, cur, vars).ok().map(|r| nodes_of(v, &r))
}
pub fn document(m: &M) -> (NodePtr, Vec<NodePtr>) {
    let d = new_document(&m.to_xml(0));
    ck!(111, "the document parses", d.is_ok());
    let d = d.unwrap();
    let v = bind(m, &d);
    ck!(112, "the document parses to its tree", v.is_some());
    (d, v.unwrap())
}
const TESTS: [&str; 7] = ["node()", "*", "a", "text()", "comment()", "processing-instruction()", "element()"];
fn test_of(k: usize) -> Test {
    match k { 0 => Test::Node, 1 | 6 => Test::Any, 2 => Test::Name(String::from("a")), 3 => Test::Text, 4 => Test::Comment, _ => Test::Pi }
}
pub fn gen(k: usize) -> M {
    let (nodes, kinds, attrs, names): (usize, u32, usize, &'static [u8]) =
        [(3, 4, 1, &b"ab"[..]), (4, 2, 0, &b"a"[..]), (2, 4, 2, &b"ax"[..]), (5, 1, 0, &b"a"[..]), (4, 1, 1, &b"ab"[..]), (4, 4, 0, &b"a"[..]), (5, 2, 0, &b"a"[..]), (4, 1, 0, &b"ab"[..]), (2, 4, 1, &b"a"[..]), (2, 4, 1, &b"a"[..]), (3, 1, 0, &b"a"[..]), (109, 4, 0, &b"ab"[..]), (211, 4, 0, &b"ab"[..]), (201, 1, 9, &b"a"[..])][k];
    let mut m = Gen { nodes, kinds, attrs, names, text: b"t" }.make();
    if k == 9 || k == 10 {
        // a prolog and an epilog
        if vs::coin() { let i = m.add(0, K::Comm, "", "c"); m.n[0].ch.pop(); m.n[0].ch.insert(0, i); }
        if vs::coin() { let i = m.add(0, K::Pi, "p", "q"); m.n[0].ch.pop(); m.n[0].ch.insert(0, i); }
        match vs::pick(4) {
            0 => {}
            1 => { m.add(0, K::Pi, "a", "r"); }
            2 => { m.add(0, K::Comm, "", "d"); }
            _ => { let i = m.add(0, K::Elem, "a", ""); m.add(i, K::Elem, "b", ""); }
        }
    }
    m
}

/// every axis and node test from every node
#[no_mangle]
pub extern "C-unwind" fn p_axis() {
    let t = vs::param(1) as usize;
    let progs: Vec<Program> = AXES.iter().map(|(ax, n)| prog(&if t == 6 && *ax == Ax::Attribute { String::from("attribute::attribute()") } else { [*n, "::", TESTS[t]].concat() })).collect();
    let m = gen(vs::param(0) as usize);
    let (_d, v) = document(&m);
    for i in 0..m.n.len() {
        for (k, (ax, _)) in AXES.iter().enumerate() {
            let want = m.sort(&m.step(*ax, &test_of(t), i));
            let got = eval_nodes(&progs[k], &v[i], &[], &v);
            ck!(1, "axis and node test select exactly the nodes the standard says, in document order", got == Some(want));
        }
    }
}

/// two-step paths, doubled in every abbreviated and parenthesised form: each node once, in document order
#[no_mangle]
pub extern "C-unwind" fn p_path() {
    let a = vs::param(1) as usize;
    let t = vs::param(2) as usize;
    let (ax1, n1) = AXES[a];
    let mut progs = vec![];
    for (_, n2) in AXES.iter() {
        progs.push((prog(&[n1, "::node()/", n2, "::", TESTS[t]].concat()), prog(&["(", n1, "::node())/(", n2, "::", TESTS[t], ")"].concat())));
    }
    let m = gen(vs::param(0) as usize);
    let (_d, v) = document(&m);
    for i in 0..m.n.len() {
        let first = m.axis(ax1, i);
        for (k, (ax2, _)) in AXES.iter().enumerate() {
            let mut all = vec![];
            for f in &first { all.extend(m.step(*ax2, &test_of(t), *f)) }
            let want = m.sort(&all);
            ck!(1, "a path gives every node it reaches exactly once, in document order", eval_nodes(&progs[k].0, &v[i], &[], &v).as_ref() == Some(&want));
            ck!(2, "parentheses around the steps change nothing", eval_nodes(&progs[k].1, &v[i], &[], &v) == Some(want));
        }
    }
}

/// a step that is any expression: once for each node of the path before it, in document order, with its position
#[no_mangle]
pub extern "C-unwind" fn p_chain() {
    let a = vs::param(1) as usize;
    let (ax1, n1) = AXES[a];
    let mut progs = vec![];
    for (_, n2) in AXES.iter() {
        let e = [n1, "::node()/", n2, "::node()"].concat();
        progs.push((prog(&[&e, "/position()"].concat()), prog(&[&e, "/last()"].concat()), prog(&[&e, "/name()"].concat()), prog(&[&e, "//self::node()/position()"].concat())));
    }
    let m = gen(vs::param(0) as usize);
    let (_d, v) = document(&m);
    let ints = |p: &Program, i: usize| -> Option<Vec<i64>> { run(p, &v[i], &[]).ok().map(|r| r.iter().map(|x| match x { Value::Integer(n) => *n, _ => -1 }).collect()) };
    for i in 0..m.n.len() {
        let first = m.axis(ax1, i);
        for (k, (ax2, _)) in AXES.iter().enumerate() {
            let mut all = vec![];
            for f in &first { all.extend(m.step(*ax2, &Test::Node, *f)) }
            let want = m.sort(&all);
            let n = want.len();
            ck!(1, "position() in a step counts the nodes of the path before it", ints(&progs[k].0, i) == Some((1..=n as i64).collect()));
            ck!(2, "last() in a step is the number of nodes of the path before it", ints(&progs[k].1, i) == Some(vec![n as i64; n]));
            let names = run(&progs[k].2, &v[i], &[]);
            ck!(3, "a step that gives other items is evaluated once for each node, in document order", match names { Ok(r) => r.len() == n && r.iter().zip(want.iter()).all(|(x, q)| match x { Value::Str(s) => *s == v[*q].name(), _ => false }), Err(_) => false });
            let mut deep = vec![];
            for q in &want { deep.extend(m.step(Ax::DescendantOrSelf, &Test::Node, *q)) }
            let d = m.sort(&deep).len();
            ck!(4, "and after //", ints(&progs[k].3, i) == Some((1..=d as i64).collect()));
        }
    }
}

/// abbreviated steps mean their long forms; absolute paths start at the document
#[no_mangle]
pub extern "C-unwind" fn p_abbr() {
    const P: [(&str, &str); 12] = [
        ("a", "child::a"), ("@x", "attribute::x"), (".", "self::node()"), ("..", "parent::node()"), (".//a", "self::node()/descendant-or-self::node()/child::a"),
        ("a//b", "child::a/descendant-or-self::node()/child::b"), ("//a", "/descendant-or-self::node()/child::a"), ("//@x", "/descendant-or-self::node()/attribute::x"),
        ("//a/..", "/descendant-or-self::node()/child::a/parent::node()"), ("*/@*", "child::*/attribute::*"), ("/", "ancestor-or-self::node()[last()]"), ("/*", "root()/child::*")];
    let mut progs: Vec<(Program, Program)> = P.iter().map(|(s, l)| (prog(s), prog(l))).collect();
    // // before every axis
    if vs::param(1) == 1 {
        progs.clear();
        for (_, a) in AXES.iter() {
            progs.push((prog(&[".//", a, "::node()"].concat()), prog(&["(./descendant-or-self::node())/", a, "::node()"].concat())));
            progs.push((prog(&["//", a, "::*"].concat()), prog(&["(/descendant-or-self::node())/", a, "::*"].concat())));
            progs.push((prog(&["a//", a, "::node()/.."].concat()), prog(&["((a/descendant-or-self::node())/", a, "::node())/parent::node()"].concat())));
        }
    }
    let m = gen(vs::param(0) as usize);
    let (_d, v) = document(&m);
    for i in 0..m.n.len() {
        for (k, (s, l)) in progs.iter().enumerate() {
            let (x, y) = (eval_nodes(s, &v[i], &[], &v), eval_nodes(l, &v[i], &[], &v));
            ck!(1, "an abbreviated path means its long form", x.is_some() && x == y);
            let x = x.unwrap();
            ck!(2, "results are in document order without duplicates", m.sort(&x) == x);
            if k == 6 && vs::param(1) == 0 { ck_opt!(3, "//a finds every element called a, from every context node", x == m.doc_order().into_iter().filter(|q| m.n[*q].k == K::Elem && m.n[*q].name == "a").collect::<Vec<_>>()); }
            if k == 10 && vs::param(1) == 0 { ck_opt!(4, "/ is the document node from every context node", x == [0]); }
        }
    }
}

fn position_of(v: &Vec<usize>, x: usize) -> Option<usize> { v.iter().position(|q| *q == x) }

/// positional predicates count along the axis direction, per context node of the step
#[no_mangle]
pub extern "C-unwind" fn p_pred() {
    let t = vs::param(1) as usize;
    let kind = vs::param(2);
    let pred = ["[$k]", "[position() = $k]", "[position() < $k]", "[last()]", "[position() >= $k]", "[last() - $k]", "[position() != last()]", "[$k = position()][1]", "[position() > 1][$k]", "[true()][$k]", "[$d]", "[position() le $d]"][kind as usize];
    let progs: Vec<Program> = AXES.iter().map(|(_, n)| prog(&[n, "::", TESTS[t], pred].concat())).collect();
    let m = gen(vs::param(0) as usize);
    let (_d, v) = document(&m);
    let k = vs::i64();
    let d = vs::f64();
    if kind == 5 { vs::assume(k > i64::MIN / 2) }
    if kind == 10 { vs::assume(d == d) }
    for i in 0..m.n.len() {
        for (q, (ax, _)) in AXES.iter().enumerate() {
            let s = m.step(*ax, &test_of(t), i);
            let n = s.len() as i64;
            let mut want = vec![];
            for p in 1..=n {
                let x = s[p as usize - 1];
                let keep = match kind {
                    0 | 1 | 7 | 9 => p == k,
                    2 => p < k,
                    3 => p == n,
                    4 => p >= k,
                    5 => p == n - k,
                    6 => p != n,
                    8 => p > 1 && p - 1 == k,
                    10 => p as f64 == d,
                    _ => p as f64 <= d,
                };
                if keep { want.push(x) }
            }
            let vars = vec![("k", vec![Value::Integer(k)]), ("d", vec![Value::Double(d)])];
            let got = eval_nodes(&progs[q], &v[i], &vars, &v);
            ck!(1, "a positional predicate keeps exactly the items at those positions, counted along the axis", got == Some(m.sort(&want)));
        }
    }
}

/// predicates that are not positions, nested and chained, on steps and on parenthesised sequences
#[no_mangle]
pub extern "C-unwind" fn p_filter() {
    let m = {
        const P: [&str; 14] = ["//*[@x]", "//*[a]", "//*[not(*)]", "//*[*[a]]", "//*[.//a][1]", "(//*)[2]", "//*[last()]/@x", "(//*)[last()]", "//*[a][@x]", "//*[@x = 't']", "//*[*[2]]", "//node()[self::a or parent::a]", "//*[count(*) = 1]", "//a[1]/*[last()]"];
        let progs: Vec<Program> = P.iter().map(|s| prog(s)).collect();
        let m = gen(vs::param(0) as usize);
        let (_d, v) = document(&m);
        let all = m.doc_order();
        let isa = |x: usize| m.n[x].k == K::Elem && m.n[x].name == "a";
        let elems: Vec<usize> = all.iter().cloned().filter(|x| m.n[*x].k == K::Elem).collect();
        let kids = |x: usize| m.step(Ax::Child, &Test::Any, x);
        let hasx = |x: usize| m.n[x].at.iter().any(|y| m.n[*y].name == "x");
        let x_of = |x: usize| m.n[x].at.iter().cloned().find(|y| m.n[*y].name == "x");
        for (k, p) in progs.iter().enumerate() {
            let want: Vec<usize> = match k {
                0 => elems.iter().cloned().filter(|x| hasx(*x)).collect(),
                1 => elems.iter().cloned().filter(|x| kids(*x).iter().any(|c| isa(*c))).collect(),
                2 => elems.iter().cloned().filter(|x| kids(*x).is_empty()).collect(),
                3 => elems.iter().cloned().filter(|x| kids(*x).iter().any(|c| kids(*c).iter().any(|d| isa(*d)))).collect(),
                4 => elems.iter().cloned().filter(|x| { let f: Vec<usize> = kids(m.n[*x].parent).into_iter().filter(|c| m.step(Ax::Descendant, &Test::Any, *c).iter().any(|d| isa(*d))).collect(); f.first() == Some(x) }).collect(),
                5 => elems.iter().cloned().skip(1).take(1).collect(),
                6 => { let l: Vec<usize> = elems.iter().cloned().filter(|x| kids(m.n[*x].parent).last() == Some(x)).filter_map(|x| x_of(x)).collect(); m.sort(&l) }
                7 => elems.last().cloned().into_iter().collect(),
                8 => elems.iter().cloned().filter(|x| hasx(*x) && kids(*x).iter().any(|c| isa(*c))).collect(),
                9 => elems.iter().cloned().filter(|x| hasx(*x)).collect(),
                10 => elems.iter().cloned().filter(|x| kids(*x).iter().any(|c| kids(*c).len() >= 2)).collect(),
                11 => all.iter().cloned().filter(|x| m.n[*x].k != K::Attr && m.n[*x].k != K::Root && (isa(*x) || isa(m.n[*x].parent))).collect(),
                12 => elems.iter().cloned().filter(|x| kids(*x).len() == 1).collect(),
                _ => elems.iter().cloned().filter(|x| { let q = m.n[*x].parent; q != 0 && isa(q) && kids(q).last() == Some(x) && { let s: Vec<usize> = kids(m.n[q].parent).into_iter().filter(|c| isa(*c)).collect(); s.first() == Some(&q) } }).collect(),
            };
            let want = if k == 10 { elems.iter().cloned().filter(|x| kids(*x).len() >= 2).collect() } else { want };
            ck!(1, "a predicate keeps exactly the items for which it holds", eval_nodes(p, &v[0], &[], &v) == Some(want));
        }
        m
    };
    let _ = position_of(&m.doc_order(), 0);
}

/// union, intersect, except, is, <<, >> on arbitrary node sequences
#[no_mangle]
pub extern "C-unwind" fn p_sets() {
    let ops = ["$p | $q", "$p union $q", "$p intersect $q", "$p except $q"];
    let progs: Vec<Program> = ops.iter().map(|s| prog(s)).collect();
    let cmp: Vec<Program> = ["$p is $q", "$p << $q", "$p >> $q"].iter().map(|s| prog(s)).collect();
    let m = gen(vs::param(0) as usize);
    let (_d, v) = document(&m);
    let n = v.len() as u32;
    let (lp, lq) = (vs::param(1) as usize, vs::param(2) as usize);
    let p: Vec<usize> = (0..lp).map(|_| vs::pick(n)).collect();
    let q: Vec<usize> = (0..lq).map(|_| vs::pick(n)).collect();
    let val = |s: &Vec<usize>| -> Vec<Value> { s.iter().map(|x| Value::Node(v[*x].rc_clone())).collect() };
    for (k, pr) in progs.iter().enumerate() {
        let want: Vec<usize> = (0..v.len()).filter(|x| { let (i, j) = (p.contains(x), q.contains(x)); match k { 0 | 1 => i || j, 2 => i && j, _ => i && !j } }).collect();
        let got = eval_nodes(pr, &v[0], &[("p", val(&p)), ("q", val(&q))], &v);
        ck!(1, "union, intersect and except are the set operations, in document order without duplicates", got == Some(m.sort(&want)));
    }
    for (k, pr) in cmp.iter().enumerate() {
        let r = run(pr, &v[0], &[("p", val(&p)), ("q", val(&q))]);
        let ord = m.doc_order();
        if lp == 1 && lq == 1 {
            let (a, b) = (position_of(&ord, p[0]).unwrap(), position_of(&ord, q[0]).unwrap());
            let want = match k { 0 => a == b, 1 => a < b, _ => a > b };
            ck_opt!(2, "is, << and >> compare identity and document order of two nodes", match r { Ok(s) => s.len() == 1 && match s[0] { Value::Boolean(b) => b == want, _ => false }, Err(_) => false });
        } else if lp == 0 || lq == 0 {
            ck_opt!(3, "is, << and >> with an empty operand give the empty sequence", match r { Ok(s) => s.len() == 0, Err(_) => false });
        } else {
            ck_opt!(4, "is, << and >> with several nodes on a side are an error", r.is_err());
        }
    }
}

/// string value and the functions that look at one node
#[no_mangle]
pub extern "C-unwind" fn p_node_fn() {
    const F: [&str; 12] = ["string()", "string(.)", "name()", "name(.)", "local-name()", "local-name(.)", "root()", "root(.)", "string-length()", "count(ancestor::node())", "exists(..)", "data()"];
    let f = vs::param(1) as usize;
    let p = prog(F[f]);
    let m = gen(vs::param(0) as usize);
    let (_d, v) = document(&m);
    for i in 0..m.n.len() {
        let r = run(&p, &v[i], &[]);
        let n = &m.n[i];
        let mut depth = 0;
        let mut q = i;
        while m.n[q].parent != NONE { depth += 1; q = m.n[q].parent; }
        let s = |want: &str| match &r { Ok(r) => r.len() == 1 && match &r[0] { Value::Str(s) => s == want, _ => false }, Err(_) => false };
        let name: &str = match n.k { K::Elem | K::Attr | K::Pi => &n.name, _ => "" };
        let ok = match f {
            0 | 1 | 11 => s(&m.string_value(i)),
            2 | 3 | 4 | 5 => s(name),
            6 | 7 => match &r { Ok(r) => nodes_of(&v, r) == [0], _ => false },
            8 => match &r { Ok(r) => r.len() == 1 && match r[0] { Value::Integer(x) => x as usize == m.string_value(i).len(), _ => false }, _ => false },
            9 => match &r { Ok(r) => r.len() == 1 && match r[0] { Value::Integer(x) => x == depth, _ => false }, _ => false },
            _ => match &r { Ok(r) => r.len() == 1 && match r[0] { Value::Boolean(x) => x == (depth > 0), _ => false }, _ => false },
        };
        ck!(1, "a function of one node returns what the standard defines", ok);
    }
}

/// the path operator and the set operators on any items, node or not
#[no_mangle]
pub extern "C-unwind" fn p_step() {
    let progs = [prog("$p/$s"), prog("$p/(if (. is $m) then $s else $t)"), prog("$p/($s, $t)")];
    let sets: Vec<Program> = ["$p | $s", "$s union $p", "$p intersect $s", "$s except $p"].iter().map(|s| prog(s)).collect();
    let m = gen(vs::param(0) as usize);
    let (_d, v) = document(&m);
    let n = v.len() as u32;
    let x = vs::i64();
    // NONE stands for the number x
    let draw = |k: u64| -> Vec<usize> { (0..k).map(|_| { let i = vs::pick(n + 1); if i == v.len() { NONE } else { i } }).collect() };
    let (p, s, t) = (draw(vs::param(1)), draw(vs::param(2)), draw(vs::param(3)));
    let mark = vs::pick(n);
    let val = |s: &Vec<usize>| -> Vec<Value> { s.iter().map(|i| if *i == NONE { Value::Integer(x) } else { Value::Node(v[*i].rc_clone()) }).collect() };
    let same = |r: &[Value], want: &[usize]| r.len() == want.len() && r.iter().zip(want).all(|(r, w)| match r { Value::Node(q) => *w != NONE && *q == v[*w], Value::Integer(i) => *w == NONE && *i == x, _ => false });
    let atom = |s: &Vec<usize>| s.contains(&NONE);
    let vars = [("p", val(&p)), ("s", val(&s)), ("t", val(&t)), ("m", vec![Value::Node(v[mark].rc_clone())])];
    for (k, pr) in progs.iter().enumerate() {
        let r = run(pr, &v[0], &vars);
        let mut all: Vec<usize> = vec![];
        for i in &p {
            match k {
                0 => all.extend(&s),
                1 => all.extend(if *i == mark { &s } else { &t }),
                _ => { all.extend(&s); all.extend(&t) }
            }
        }
        if atom(&p) {
            ck_opt!(1, "the left side of / must be nodes", r.is_err());
        } else if atom(&all) && all.iter().any(|i| *i != NONE) {
            ck_opt!(2, "a path that yields nodes and other items is an error", r.is_err());
        } else {
            let want = if atom(&all) { all } else { m.sort(&all) };
            ck!(3, "a path gives the nodes of all steps once in document order, or all the other items in order", match r { Ok(r) => same(&r, &want), Err(_) => false });
        }
    }
    for (k, pr) in sets.iter().enumerate() {
        let r = run(pr, &v[0], &vars);
        if atom(&p) || atom(&s) {
            ck_opt!(4, "the operands of union, intersect and except must be nodes", r.is_err());
        } else {
            let want: Vec<usize> = (0..v.len()).filter(|q| { let (i, j) = (p.contains(q), s.contains(q)); match k { 0 | 1 => i || j, 2 => i && j, _ => j && !i } }).collect();
            ck!(5, "union, intersect and except of nodes are the set operations", match r { Ok(r) => same(&r, &m.sort(&want)), Err(_) => false });
        }
    }
}

const NTESTS: [&str; 24] = ["a", "ab", "A", "p:a", "pq:a", "P:ab", "*", "p:*", "pq:*", "P:*", "*:a", "*:ab", "Q{u}a", "Q{v}ab", "Q{v}*", "Q{}a", "Q{}*", "K(a)", "K(ab)", "K(p:a)", "K(*)", "K()", "node()", "item()"];
/// name and kind tests: parameter 0 elements, attributes or processing instructions; 1 the length of the local name
#[no_mangle]
pub extern "C-unwind" fn p_tests() {
    let (kind, n) = (vs::param(0), vs::param(1) as usize);
    let l = vs::string_n(if kind == 2 { b"pqP" } else { b"abA" }, n);
    if kind == 2 {
        let t = ["p", "pq", "P", "'p'", "\"pq\"", "'pp'", "'Pq'", "", "'q'"];
        let progs: Vec<Program> = t.iter().map(|t| prog(&["//processing-instruction(", t, ")"].concat())).collect();
        let d = new_document(&["<r><?", &l, " p?><p/><pq/></r>"].concat()).unwrap();
        for (t, p) in t.iter().zip(&progs) {
            let w = t.trim_matches(|c| c == '\'' || c == '"');
            let want = w == "" || l == w;
            ck!(1, "processing-instruction(name) selects by the whole target", match run(p, &d, &[]) { Ok(r) => match &r[..] { [Value::Node(n)] => want && n.node_type() == NodeType::Instruction, [] => !want, _ => false }, Err(_) => false });
        }
        return;
    }
    let (elem, kt) = (kind == 0, if kind == 0 { "element" } else { "attribute" });
    let progs: Vec<Option<Program>> = NTESTS.iter().map(|t| if *t == "item()" { None } else { Some(prog(&[if elem { "/r/" } else { "/r/e/@" }, &if t.starts_with("K") { [kt, &t[1..]].concat() } else { (*t).to_string() }].concat())) }).collect();
    let k = vs::pick(4);
    let (pre, uri) = [("", ""), ("p", "u"), ("pq", "v"), ("P", "w")][k];
    let name = [pre, if k > 0 { ":" } else { "" }, &l].concat();
    let x = if elem { ["<", &name, "/>t<!--a--><?a a?>"].concat() } else { ["<e ", &name, "='a'>t</e>"].concat() };
    let d = new_document(&["<r xmlns:p='u' xmlns:pq='v' xmlns:P='w'>", &x, "</r>"].concat()).unwrap();
    for (t, p) in NTESTS.iter().zip(&progs) {
        let p = match p { Some(p) => p, None => continue };
        let t = if t.starts_with("K(") { &t[2..t.len() - 1] } else { t };
        let node = if t == "node()" { true } else if t == "" || t == "*" { true } else if t.starts_with("Q{") { let e = t.find('}').unwrap(); &t[2..e] == uri && (&t[e + 1..] == "*" || t[e + 1..] == *l) }
            else if t.starts_with("*:") { t[2..] == *l } else if t.ends_with(":*") { t[..t.len() - 2] == *pre } else { t == name };
        let want = if t == "node()" && elem { 4 } else { node as usize };
        ck!(2, "a name or kind test selects by the whole name", match run(p, &d, &[]) { Ok(r) => r.len() == want && r.iter().take(1).all(|x| match x { Value::Node(n) => n.name() == name, _ => false }), Err(_) => false });
    }
}

const FSET: [&str; 8] = ["$r/$s", "$r/($s, ())", "($s)/.", "$s | ()", "$s union $s", "$r/(for $x in $s return $x)", "$r/($s | $s[2])", "$s//."];
/// any sequence of nodes as the last step, the first step or an operand, in any order and number
#[no_mangle]
pub extern "C-unwind" fn p_order() {
    let n = vs::param(0) as usize;
    let d = new_document("<r x='1'><a/>t<!--c--><b/></r>").unwrap();
    let r = d.root_element();
    let mut pool = vec![r.rc_clone(), r.attributes()[0].rc_clone()];
    pool.extend(r.children());
    // in document order
    let s: Vec<usize> = (0..n).map(|_| vs::pick(vs::param(1) as u32)).collect();
    let mut want = s.clone();
    want.sort();
    want.dedup();
    let val = |s: &[usize]| -> Vec<Value> { s.iter().map(|i| Value::Node(pool[*i].rc_clone())).collect() };
    for (k, e) in FSET.iter().enumerate() {
        if k == 7 && s.contains(&0) { continue }
        let g = run(&prog(e), &d, &[("s", val(&s)), ("r", val(&[0]))]);
        ck!(1, "a path or union gives each node once in document order", match g { Ok(g) => g.len() == want.len() && g.iter().zip(&want).all(|(g, w)| match g { Value::Node(q) => *q == pool[*w], _ => false }), Err(_) => false });
    }
}

const FOCUS: [&str; 26] = ["()", "$t ! ()", "$t ! .", "$t ! position()", "$t ! (if (. = 1) then () else last())", "$t[false()]", "$t[. = 1]", "$t[last()]", "$t[position() = last()]", "$t[1][1]", "$t ! $t", "$t ! ($t ! ())", "$n/*", "$n/*/()", "$n/*/position()", "$n/*[last()]/@*", "$n//@*[. = 1]", "$n/..", "($n/*, $n)/(last(), 1)", "for $x in $t return $x ! ()",
    "for-each($t, function($x){()})", "filter($t, function($x){$x = 1})", "function(){$t ! ()}()", "some $x in $t satisfies $x[. = 3]", "$t[()]", "$n/*/ancestor::*[1]"];
/// whatever is evaluated in between, the focus afterwards is the one from before
#[no_mangle]
pub extern "C-unwind" fn p_focus() {
    use crate::num::is_int;
    let (lo, hi) = (vs::param(0) as usize, vs::param(1) as usize);
    let mut progs = vec![];
    for f in &FOCUS[lo..hi] {
        progs.push((prog(&["$s ! ((", f, ")[$no], position(), last(), .)"].concat()),
            prog(&["$s[count((", f, ")) ge 0 and position() = last()]"].concat()),
            prog(&["$s[(", f, ")[$no] = 0 or position() = $k]"].concat()),
            prog(&["count($n/*[(", f, ")[$no] = 0 or position() = $k])"].concat()),
            prog(&["$n/*/((", f, ")[$no], position(), last(), number(@x))"].concat()),
            prog(&["$s ! (for-each($s, function($y){(", f, ")[$no]}), position(), last(), .)"].concat())));
    }
    let d = new_document("<r><a x='1'/><a x='2'/></r>").unwrap();
    let n = vs::below(4) as usize;
    let n = vs::conc(n as u64) as usize;
    let t = vs::conc(vs::below(4) as u64) as usize;
    let s: Vec<i64> = (0..n).map(|_| vs::i64()).collect();
    let k = vs::i64();
    let vars = [("s", s.iter().map(|x| Value::Integer(*x)).collect()), ("t", (1..=t).map(|x| Value::Integer(x as i64)).collect()), ("n", vec![Value::Node(d.root_element())]), ("k", vec![Value::Integer(k)]), ("no", vec![Value::Boolean(false)])];
    let ints = |p: &Program| -> Option<Vec<i64>> { run(p, &d, &vars).ok().map(|r| r.iter().map(|x| match x { Value::Integer(i) => *i, Value::Double(f) => *f as i64, _ => -77 }).collect()) };
    let mut all = vec![];
    for (i, x) in s.iter().enumerate() { all.extend([i as i64 + 1, n as i64, *x].iter().cloned()) }
    let at: Vec<i64> = if k >= 1 && k <= n as i64 { vec![s[vs::conc(k as u64) as usize - 1]] } else { vec![] };
    for p in &progs {
        ck!(1, "position(), last() and the item are the same after an inner expression", ints(&p.0).as_ref() == Some(&all));
        ck!(2, "last() in a predicate after an inner expression", ints(&p.1) == Some(s.last().cloned().into_iter().collect()));
        ck!(3, "position() in a predicate after an inner expression", ints(&p.2).as_ref() == Some(&at));
        ck!(4, "position() in a predicate of a step", is_int(&run(&p.3, &d, &vars), (k == 1 || k == 2) as i64));
        ck!(5, "position() and last() in a step", ints(&p.4) == Some(vec![1, 2, 1, 2, 2, 2]));
        ck!(6, "and after a function was called", ints(&p.5).as_ref() == Some(&all));
    }
}

const PABBR: [(&str, &str); 16] = [("..", "parent::node()"), (".", "self::node()"), ("@x", "attribute::x"), ("@*", "attribute::*"), ("a", "child::a"), ("*", "child::*"), (".//a", "self::node()/descendant-or-self::node()/child::a"), ("../a", "parent::node()/child::a"), ("//@x", "/descendant-or-self::node()/attribute::x"), ("../..", "parent::node()/parent::node()"), ("./..", "self::node()/parent::node()"), ("text()", "child::text()"), ("@attribute()", "attribute::attribute()"), (".//..", "self::node()/descendant-or-self::node()/parent::node()"), ("*/.", "child::*/self::node()"), ("../@x", "parent::node()/attribute::x")];
/// predicates after abbreviated steps
#[no_mangle]
pub extern "C-unwind" fn p_predabbr() {
    let pred = ["[$k]", "[self::a]", "[position() = $k]", "[1][$k]", "[@x]", "[last()][self::*]"][vs::param(1) as usize];
    let mut progs = vec![];
    for (a, l) in PABBR.iter() {
        progs.push((prog(&[*a, pred].concat()), prog(&[*l, pred].concat())));
        progs.push((prog(&[*a, pred, "/.."].concat()), prog(&["(", *l, pred, ")/parent::node()"].concat())));
        progs.push((prog(&["*[", *a, pred, "]"].concat()), prog(&["child::*[", *l, pred, "]"].concat())));
    }
    let m = gen(vs::param(0) as usize);
    let (_d, v) = document(&m);
    let k = vs::i64();
    for i in 0..m.n.len() {
        for (s, l) in &progs {
            let vars = [("k", vec![Value::Integer(k)])];
            let (x, y) = (eval_nodes(s, &v[i], &vars, &v), eval_nodes(l, &v[i], &vars, &v));
            ck!(1, "a predicate after an abbreviated step is one after the step it stands for", x.is_some() && x == y);
        }
    }
}
