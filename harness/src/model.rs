//! Reference document model, independent of the crate: a plain tree plus the
//! definitions of serialisation, document order and the XPath axes over it.
use crate::vs;
use amxml::dom::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { Root, Elem, Text, Comm, Pi, Attr }

#[derive(Clone)]
pub struct N { pub k: K, pub name: String, pub val: String, pub parent: usize, pub ch: Vec<usize>, pub at: Vec<usize> }

#[derive(Clone)]
pub struct M { pub n: Vec<N> }

pub const NONE: usize = usize::MAX;

pub fn enc(s: &str) -> String {
    let mut o = String::new();
    for c in s.bytes() {
        match c {
            b'&' => o.push_str("&amp;"),
            b'<' => o.push_str("&lt;"),
            b'>' => o.push_str("&gt;"),
            b'"' => o.push_str("&quot;"),
            b'\'' => o.push_str("&apos;"),
            b'\r' => o.push_str("&#13;"),
            _ => unsafe { o.as_mut_vec().push(c) },
        }
    }
    o
}

impl M {
    pub fn new() -> M { M { n: vec![N { k: K::Root, name: String::new(), val: String::new(), parent: NONE, ch: vec![], at: vec![] }] } }
    pub fn add(&mut self, parent: usize, k: K, name: &str, val: &str) -> usize {
        let i = self.n.len();
        self.n.push(N { k, name: name.to_string(), val: val.to_string(), parent, ch: vec![], at: vec![] });
        if k == K::Attr { self.n[parent].at.push(i) } else { self.n[parent].ch.push(i) }
        i
    }
    /// canonical serialisation
    pub fn xml(&self, i: usize, o: &mut String) {
        let n = &self.n[i];
        match n.k {
            K::Root => for c in &n.ch { self.xml(*c, o) },
            K::Elem => {
                o.push('<');
                o.push_str(&n.name);
                for a in &n.at {
                    o.push(' ');
                    o.push_str(&self.n[*a].name);
                    o.push_str("=\"");
                    o.push_str(&enc(&self.n[*a].val));
                    o.push('"');
                }
                if n.ch.is_empty() { o.push_str("/>") } else {
                    o.push('>');
                    for c in &n.ch { self.xml(*c, o) }
                    o.push_str("</");
                    o.push_str(&n.name);
                    o.push('>');
                }
            }
            K::Text => o.push_str(&enc(&n.val)),
            K::Comm => { o.push_str("<!--"); o.push_str(&n.val); o.push_str("-->") }
            K::Pi => { o.push_str("<?"); o.push_str(&n.name); o.push(' '); o.push_str(&n.val); o.push_str("?>") }
            K::Attr => {}
        }
    }
    pub fn to_xml(&self, i: usize) -> String { let mut o = String::new(); self.xml(i, &mut o); o }
    /// four-space indented form, every construct on a line of its own
    pub fn pretty(&self, i: usize, ind: usize, o: &mut String) {
        let n = &self.n[i];
        let sp = " ".repeat(ind);
        match n.k {
            K::Root => for c in &n.ch { self.pretty(*c, ind, o) },
            K::Elem => {
                o.push_str(&sp);
                o.push('<');
                o.push_str(&n.name);
                for a in &n.at { o.push(' '); o.push_str(&self.n[*a].name); o.push_str("=\""); o.push_str(&enc(&self.n[*a].val)); o.push('"'); }
                if n.ch.is_empty() { o.push_str("/>\n") } else {
                    o.push_str(">\n");
                    for c in &n.ch { self.pretty(*c, ind + 4, o) }
                    o.push_str(&sp); o.push_str("</"); o.push_str(&n.name); o.push_str(">\n");
                }
            }
            K::Attr => {}
            _ => { o.push_str(&sp); self.xml(i, o); o.push('\n') }
        }
    }
    /// all nodes reachable from i in document order (attributes after their element)
    pub fn order(&self, i: usize, o: &mut Vec<usize>) {
        o.push(i);
        for a in &self.n[i].at { o.push(*a) }
        for c in &self.n[i].ch { self.order(*c, o) }
    }
    pub fn doc_order(&self) -> Vec<usize> { let mut o = vec![]; self.order(0, &mut o); o }
    pub fn root_of(&self, mut i: usize) -> usize { while self.n[i].parent != NONE { i = self.n[i].parent } i }
    pub fn string_value(&self, i: usize) -> String {
        let n = &self.n[i];
        match n.k {
            K::Root | K::Elem => {
                let mut o = String::new();
                fn rec(m: &M, i: usize, o: &mut String) { for c in &m.n[i].ch { match m.n[*c].k { K::Text => o.push_str(&m.n[*c].val), K::Elem => rec(m, *c, o), _ => {} } } }
                rec(self, i, &mut o);
                o
            }
            _ => n.val.clone(),
        }
    }
    pub fn is_ancestor(&self, a: usize, i: usize) -> bool {
        let mut p = self.n[i].parent;
        while p != NONE { if p == a { return true } p = self.n[p].parent }
        false
    }
    /// nodes on the axis, in axis order (reverse axes: nearest first)
    pub fn axis(&self, ax: Ax, i: usize) -> Vec<usize> {
        let n = &self.n[i];
        let mut o = vec![];
        match ax {
            Ax::Slf => o.push(i),
            Ax::Child => o = n.ch.clone(),
            Ax::Attribute => o = n.at.clone(),
            Ax::Parent => if n.parent != NONE { o.push(n.parent) },
            Ax::Ancestor | Ax::AncestorOrSelf => {
                let mut p = if ax == Ax::Ancestor { n.parent } else { i };
                while p != NONE { o.push(p); p = self.n[p].parent }
            }
            Ax::Descendant | Ax::DescendantOrSelf => {
                let mut v = vec![];
                self.order(i, &mut v);
                for x in v { if (self.n[x].k != K::Attr && x != i) || (x == i && ax == Ax::DescendantOrSelf) { o.push(x) } }
            }
            Ax::FollowingSibling | Ax::PrecedingSibling => if n.parent != NONE && n.k != K::Attr {
                let s = &self.n[n.parent].ch;
                let k = s.iter().position(|x| *x == i).unwrap();
                if ax == Ax::FollowingSibling { o = s[k + 1..].to_vec() } else { o = s[..k].to_vec(); o.reverse() }
            },
            Ax::Following | Ax::Preceding => {
                let mut all = vec![];
                self.order(self.root_of(i), &mut all);
                let k = all.iter().position(|x| *x == i).unwrap();
                for (q, x) in all.iter().enumerate() {
                    if self.n[*x].k == K::Attr { continue }
                    if ax == Ax::Following && q > k && !self.is_ancestor(i, *x) { o.push(*x) }
                    if ax == Ax::Preceding && q < k && !self.is_ancestor(*x, i) { o.push(*x) }
                }
                if ax == Ax::Preceding { o.reverse() }
            }
        }
        o
    }
    /// axis plus name test ("*", name, or kind test) with the axis' principal node kind
    pub fn step(&self, ax: Ax, test: &Test, i: usize) -> Vec<usize> {
        self.axis(ax, i).into_iter().filter(|x| self.test(ax, test, *x)).collect()
    }
    pub fn test(&self, ax: Ax, t: &Test, x: usize) -> bool {
        let n = &self.n[x];
        let princ = if ax == Ax::Attribute { K::Attr } else { K::Elem };
        match t {
            Test::Any => n.k == princ,
            Test::Name(s) => n.k == princ && n.name == *s,
            Test::Node => true,
            Test::Text => n.k == K::Text,
            Test::Comment => n.k == K::Comm,
            Test::Pi => n.k == K::Pi,
        }
    }
    /// the nodes of one tree, in its order
    pub fn sort_in(&self, root: usize, v: &[usize]) -> Vec<usize> { let mut o = vec![]; self.order(root, &mut o); o.into_iter().filter(|x| v.contains(x)).collect() }
    pub fn sort(&self, v: &[usize]) -> Vec<usize> { self.doc_order().into_iter().filter(|x| v.contains(x)).collect() }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ax { Slf, Child, Attribute, Parent, Ancestor, AncestorOrSelf, Descendant, DescendantOrSelf, FollowingSibling, PrecedingSibling, Following, Preceding }
pub const AXES: [(Ax, &str); 12] = [(Ax::Slf, "self"), (Ax::Child, "child"), (Ax::Attribute, "attribute"), (Ax::Parent, "parent"), (Ax::Ancestor, "ancestor"), (Ax::AncestorOrSelf, "ancestor-or-self"),
    (Ax::Descendant, "descendant"), (Ax::DescendantOrSelf, "descendant-or-self"), (Ax::FollowingSibling, "following-sibling"), (Ax::PrecedingSibling, "preceding-sibling"), (Ax::Following, "following"), (Ax::Preceding, "preceding")];
pub enum Test { Any, Name(String), Node, Text, Comment, Pi }

pub fn kind_of(n: &NodePtr) -> K {
    match n.node_type() {
        NodeType::DocumentRoot => K::Root,
        NodeType::Element => K::Elem,
        NodeType::Text => K::Text,
        NodeType::Comment => K::Comm,
        NodeType::Instruction | NodeType::XMLDecl => K::Pi,
        NodeType::Attribute => K::Attr,
        NodeType::Directive => K::Comm,
    }
}

/// pointers of the real tree in the model's document order; None when the shapes differ
pub fn bind(m: &M, root: &NodePtr) -> Option<Vec<NodePtr>> {
    let mut v: Vec<Option<NodePtr>> = vec![None; m.n.len()];
    if !bind_sub(m, 0, root, &mut v) { return None }
    let mut o = vec![];
    for x in v { match x { Some(p) => o.push(p), None => o.push(root.rc_clone()) } }
    Some(o)
}
fn bind_sub(m: &M, i: usize, p: &NodePtr, v: &mut Vec<Option<NodePtr>>) -> bool {
    let n = &m.n[i];
    if kind_of(p) != n.k { return false }
    if n.k != K::Root && !(p.name() == n.name) { return false }
    if !(n.k == K::Elem || n.k == K::Root) && !(p.value() == n.val) { return false }
    v[i] = Some(p.rc_clone());
    let (c, a) = (p.children(), p.attributes());
    if c.len() != n.ch.len() || a.len() != n.at.len() { return false }
    for k in 0..a.len() { if !bind_sub(m, n.at[k], &a[k], v) { return false } }
    for k in 0..c.len() { if !bind_sub(m, n.ch[k], &c[k], v) { return false } }
    true
}
pub fn index_of(v: &[NodePtr], p: &NodePtr) -> usize {
    for i in 0..v.len() { if v[i] == *p { return i } }
    NONE
}

/// Document generator: `elems` element nodes below one root element plus leaves, shape and kinds chosen symbolically.
/// Every choice of shape is a path of its own; names stay symbolic.
pub struct Gen { pub nodes: usize, pub kinds: u32, pub attrs: usize, pub names: &'static [u8], pub text: &'static [u8] }
impl Gen {
    /// kinds: 1 elements only, 2 +text, 3 +comment, 4 +processing instruction
    /// nodes: below 100, every shape of that many nodes; 100 + n, n nodes below each other; 200 + n, n children of the top element.
    /// In the large shapes only the last nodes (the last one anywhere, of any kind) and the attributes of the first are symbolic
    pub fn make(&self) -> M {
        const AT: [&'static str; 10] = ["x", "y", "z", "x1", "y1", "z1", "x2", "y2", "z2", "w"];
        let (large, count) = (self.nodes >= 100, self.nodes % 100);
        let mut m = M::new();
        let name = |al: &[u8], free: bool| -> String { if al.len() == 1 || !free { (al[0] as char).to_string() } else { vs::string_n(al, 1) } };
        let top = m.add(0, K::Elem, &name(self.names, true), "");
        for k in 0..self.attrs {
            if large && k + 3 < self.attrs { m.add(top, K::Attr, AT[k], AT[k]); } else if vs::coin() { m.add(top, K::Attr, AT[k], &vs::string_n(self.text, 1)); }
        }
        let mut open = vec![top];
        for i in 1..count {
            let free = !large || i + 2 >= count;
            // close 0..k open elements, then add a node
            let up = if open.len() > 1 { if !large || i + 1 == count { vs::pick(open.len() as u32) } else if self.nodes < 200 { 0 } else { open.len() - 1 } } else { 0 };
            for _ in 0..up { open.pop(); }
            let p = *open.last().unwrap();
            let last_is_text = m.n[p].ch.last().map_or(false, |c| m.n[*c].k == K::Text);
            let k = if self.kinds == 1 { 0 } else if !large || i + 1 == count { vs::pick(self.kinds) } else if self.nodes < 200 { 0 } else { [0, 1, 0, 0, 2, 3, 1, 3, 2, 0][i % 10] % self.kinds as usize };
            let text = |al: &[u8]| if free { vs::string_n(al, 1) } else { String::from("t") };
            match k {
                0 => {
                    let e = m.add(p, K::Elem, &name(self.names, free), "");
                    if free { for k in 0..self.attrs.min(3) { if vs::coin() { m.add(e, K::Attr, AT[k], &vs::string_n(self.text, 1)); } } }
                    open.push(e);
                }
                1 => { if last_is_text { vs::assume(false) } m.add(p, K::Text, "", &text(self.text)); }
                2 => { m.add(p, K::Comm, "", &text(b"cd")); }
                _ => { m.add(p, K::Pi, "p", &text(b"qr")); }
            }
        }
        m
    }
}
