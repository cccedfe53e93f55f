//! XML parsing, serialisation, DOM navigation and mutation
use crate::model::*;
use crate::vs;
use amxml::dom::*;
use amxml::sax::*;

/// the tree as data: adjacent text nodes merged, empty ones dropped
pub fn extract(root: &NodePtr) -> M {
    let mut m = M::new();
    ext(&mut m, 0, root);
    m
}
fn ext(m: &mut M, i: usize, p: &NodePtr) {
    for a in p.attributes().iter() { m.add(i, K::Attr, &a.name(), &a.value()); }
    for c in p.children().iter() {
        let k = kind_of(c);
        if k == K::Text {
            if c.value().len() == 0 { continue }
            if let Some(l) = m.n[i].ch.last() {
                if m.n[*l].k == K::Text { let l = *l; m.n[l].val.push_str(&c.value()); continue }
            }
        }
        let j = m.add(i, k, &c.name(), &c.value());
        ext(m, j, c);
    }
}
/// unambiguous flat form
fn flat(m: &M, i: usize, o: &mut String) {
    let n = &m.n[i];
    o.push_str(match n.k { K::Root => "R", K::Elem => "E", K::Text => "T", K::Comm => "C", K::Pi => "P", K::Attr => "A" });
    o.push_str(&n.name); o.push('\u{1}'); o.push_str(&n.val); o.push('\u{2}');
    for a in &n.at { flat(m, *a, o) }
    for c in &n.ch { flat(m, *c, o) }
    o.push('\u{3}');
}
pub fn dump(root: &NodePtr) -> String { let m = extract(root); let mut o = String::new(); flat(&m, 0, &mut o); o }

fn rt(d: &NodePtr) {
    let s = d.to_string();
    vs::obs_str(1, &s);
    let _ = d.to_pretty_string();
    let r = new_document(&s);
    ck!(102, "the serialised document parses again", r.is_ok());
    let d2 = r.unwrap();
    ck!(103, "parsing the serialised document gives the same tree", dump(d) == dump(&d2));
    ck!(104, "serialisation is stable from then on", new_document(&d2.to_string()).map(|x| x.to_string()).unwrap_or(String::new()) == d2.to_string());
}

const CTX: [(&str, &str); 16] = [("", ""), ("<a", ""), ("<a>", "</a>"), ("<a x=\"", "\"/>"), ("<a x", "/>"), ("<!", ">"), ("<?", "?>"), ("<a><!--", "--></a>"),
    ("<a>&", ";</a>"), ("<a><![", "</a>"), ("<a x='", "'>"), ("<a>&#", ";b</a>"), ("<", "/>"), ("<a></", ">"), ("<a/>", ""), ("<a x='&#x", ";'/>")];

/// arbitrary bytes in every lexical context: the parser stops, never panics, and what it accepts round-trips
#[no_mangle]
pub extern "C-unwind" fn x_total() {
    let (pre, post) = CTX[vs::param(0) as usize];
    let n = vs::param(1) as usize;
    let mut s = String::from(pre);
    s.push_str(&vs::ascii_n(n));
    s.push_str(post);
    let mut dec = SaxDecoder::new(&s).unwrap();
    let mut k = 0;
    let mut toks = 0;
    loop {
        k += 1;
        match dec.raw_token() { Ok(XmlToken::EOF) => break, Ok(_) => toks += 1, Err(_) => {} }
        if k > 2 * s.len() + 4 { break }
    }
    vs::obs(2, toks);
    ck!(1, "raw_token reaches the end of input in at most two tokens per byte", k <= 2 * s.len() + 4);
    match new_document(&s) { Ok(d) => rt(&d), Err(_) => vs::obs(3, 1) }
}

/// reference decoder for one text or attribute value (predefined entities, character references)
fn ref_decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'&' { o.push(b[i] as char); i += 1; continue }
        let mut hit = false;
        for (n, c) in [("&lt;", '<'), ("&gt;", '>'), ("&amp;", '&'), ("&quot;", '"'), ("&apos;", '\'')] {
            if b[i..].starts_with(n.as_bytes()) { o.push(c); i += n.len(); hit = true; break }
        }
        if hit { continue }
        if i + 1 < b.len() && b[i + 1] == b'#' {
            let hex = i + 2 < b.len() && b[i + 2] == b'x';
            let mut k = if hex { i + 3 } else { i + 2 };
            let st = k;
            let mut v: u64 = 0;
            while k < b.len() && b[k] != b';' {
                let d = match b[k] { c @ b'0'..=b'9' => c - b'0', c @ b'a'..=b'f' if hex => c - b'a' + 10, c @ b'A'..=b'F' if hex => c - b'A' + 10, _ => return None };
                v = v * if hex { 16 } else { 10 } + d as u64;
                if v > 0x10ffff { v = 0x110000 }
                k += 1;
            }
            if k >= b.len() || k == st { return None }
            if v == 0 { return None }
            o.push(char::from_u32(v as u32).unwrap_or('\u{3013}'));
            i = k + 1;
            continue;
        }
        o.push('&');
        i += 1;
    }
    Some(o)
}

/// references in text and attribute values decode in one pass
#[no_mangle]
pub extern "C-unwind" fn x_decode() {
    const PRE: [&str; 8] = ["", "&", "&#", "&#x", "&#38;", "&amp;", "&#x26;l", "&l"];
    let (p, n, post) = (PRE[vs::param(0) as usize], vs::param(1) as usize, ["", ";", "t;", "#60;"][vs::param(2) as usize]);
    let mid = vs::string_n(match vs::param(3) { 0 => b"0123456789", 1 => b"0123456789abcdefABCDEF", 2 => b"lgtampquos;&#xE9", _ => b"&#x3;amlt" }, n);
    let s = [p, &mid, post].concat();
    let want = ref_decode(&s);
    vs::assume(want.is_some());
    let want = want.unwrap();
    let attr = vs::coin();
    let x = if attr { ["<a x=\"", &s, "\"/>"].concat() } else { ["<a>", &s, "</a>"].concat() };
    let d = new_document(&x);
    ck!(1, "a document with references parses", d.is_ok());
    let d = d.unwrap().root_element();
    let got = if attr { d.attribute_value("x").unwrap() } else { match d.first_child() { Some(t) => t.value(), None => String::new() } };
    vs::obs_str(1, &got);
    ck!(2, "every reference decodes to its character, exactly once", got == want);
}

/// escaping on output is exact, and undone by parsing
#[no_mangle]
pub extern "C-unwind" fn x_escape() {
    let n = vs::param(0) as usize;
    let v = vs::ascii_n(n);
    if vs::param(1) == 0 {
        let doc = new_document("<a/>").unwrap();
        doc.root_element().set_attribute("x", &v);
        let s = doc.to_string();
        vs::obs_str(1, &s);
        ck!(1, "attribute value is escaped exactly", s == ["<a x=\"", &enc(&v), "\"/>"].concat());
        let r = new_document(&s);
        ck!(2, "the result parses", r.is_ok());
        ck!(3, "and gives the same value back", r.unwrap().root_element().attribute_value("x") == Some(v));
    } else {
        vs::assume(!v.contains("]]>"));
        vs::assume(!v.contains('\r'));
        let doc = new_document(&["<a><![CDATA[", &v, "]]></a>"].concat()).unwrap();
        let s = doc.to_string();
        vs::obs_str(1, &s);
        ck!(1, "text is escaped exactly", s == ["<a>", &enc(&v), "</a>"].concat());
        let r = new_document(&s);
        ck!(2, "the result parses", r.is_ok());
        ck!(3, "and gives the same value back", dump(&r.unwrap()) == dump(&doc));
    }
}

/// line ends: CR LF and a CR alone read as one LF, everywhere in the document
#[no_mangle]
pub extern "C-unwind" fn x_cr() {
    let t = vs::string(b"\r\na", vs::param(1) as usize);
    let b = t.as_bytes();
    let mut w = String::new();
    for i in 0..b.len() {
        if b[i] == b'a' { w.push('a'); }
        if b[i] == b'\r' || (b[i] == b'\n' && (i == 0 || b[i - 1] != b'\r')) { w.push('\n'); }
    }
    let s = match vs::param(0) {
        0 => ["<a>x", &t, "y</a>"].concat(),
        1 => ["<a k=\"x", &t, "y\"/>"].concat(),
        2 => ["<a><!--x", &t, "y--></a>"].concat(),
        3 => ["<a><![CDATA[x", &t, "y]]></a>"].concat(),
        4 => ["<a><?p x", &t, "y?></a>"].concat(),
        _ => { vs::assume(!t.contains('a')); ["<a ", &t, "k=\"v\" ", &t, "/>", &t].concat() }
    };
    let d = new_document(&s);
    ck!(1, "parses", d.is_ok());
    let d = d.unwrap();
    let e = d.root_element();
    let w = ["x", &w, "y"].concat();
    match vs::param(0) {
        1 => ck!(2, "the attribute has the line ends as LF", e.attribute_value("k") == Some(w)),
        5 => ck!(3, "line ends are white space in a tag", e.attribute_value("k") == Some(String::from("v")) && e.attributes().len() == 1 && e.children().len() == 0),
        _ => ck!(4, "the content has the line ends as LF", e.children().len() == 1 && e.first_child().unwrap().value() == w),
    }
}

/// every Unicode character survives in text, attribute values and comments
#[no_mangle]
pub extern "C-unwind" fn x_uni() {
    let c = vs::uchar(vs::param(0) as usize);
    let w = ["x", &c, "y"].concat();
    let s = ["<a x=\"", &w, "\">", &w, "<!--", &w, "--></a>"].concat();
    let d = new_document(&s);
    ck!(1, "non-ASCII content parses", d.is_ok());
    let d = d.unwrap();
    let e = d.root_element();
    ck!(2, "attribute value kept", e.attribute_value("x") == Some(w.clone()));
    ck!(3, "text kept", e.first_child().unwrap().value() == w);
    ck!(4, "comment kept", e.nth_child(1).unwrap().value() == w);
    ck!(5, "serialised unchanged", d.to_string() == s);
}

/// end tags must match the innermost open element
#[no_mangle]
pub extern "C-unwind" fn x_end() {
    let n = [vs::string(b"ab:", 2), vs::string(b"ab:", 2), vs::string(b"ab:", 2), vs::string(b"ab:", 2)];
    vs::assume(n[0].len() > 0 && n[1].len() > 0);
    let s = ["<", &n[0], "><", &n[1], "></", &n[2], "></", &n[3], ">"].concat();
    let d = new_document(&s);
    ck!(1, "accepted exactly when both end tags match", d.is_ok() == (n[2] == n[1] && n[3] == n[0]));
    if let Ok(d) = d {
        let e = d.root_element();
        ck!(2, "outer element", e.name() == n[0] && d.children().len() == 1);
        ck!(3, "inner element", e.children().len() == 1 && e.first_child().unwrap().name() == n[1]);
    }
}

/// malformed constructs are errors
#[no_mangle]
pub extern "C-unwind" fn x_bad() {
    let t = vs::string(b"ab >-?]/", vs::param(1) as usize);
    let s = match vs::param(0) {
        0 => { vs::assume(!t.contains("-->")); ["<a><!--", &t].concat() }
        1 => { vs::assume(!t.contains("?>")); ["<a><?p", &t].concat() }
        2 => { vs::assume(!t.contains("]]>")); ["<a><![CDATA[", &t].concat() }
        3 => ["<a x=\"", &t].concat(),
        4 => ["<a x='", &t].concat(),
        5 => { vs::assume(!t.contains('>')); ["<a ", &t].concat() }
        6 => { vs::assume(t.len() > 0 && !t.starts_with(' ')); ["<a x=", &t, "/>"].concat() }
        7 => { vs::assume(!t.contains('>')); ["<a></a", &t].concat() }
        8 => { vs::assume(!t.contains('>')); ["<a/>", "<!D ", &t].concat() }
        9 => ["<a/><![CD", &t, "[x]]>"].concat(),
        10 => { vs::assume(t.len() > 0 && !t.starts_with('-')); ["<a/><!-", &t, "-->"].concat() }
        11 => { vs::assume(t.len() > 0 && !t.starts_with('>')); ["<a /", &t, ">"].concat() }
        12 => { vs::assume(t.len() > 0 && !t.starts_with('a') && !t.starts_with('b') && !t.starts_with('?') && !t.starts_with('/')); ["<", &t, ">"].concat() }
        13 => { vs::assume(t.len() > 0 && !t.starts_with('a') && !t.starts_with('b') && !t.starts_with(' ') && !t.starts_with('>')); vs::assume(t != "/"); vs::assume(!t.starts_with("/>")); ["<a ", &t, ">"].concat() }
        14 => ["<a/></", &t, ">"].concat(),
        16 => ["<a>", &t].concat(),
        17 => ["<b><a/>", &t, "<a>", "</a>"].concat(),
        18 => ["<a><b>", &t, "</b>"].concat(),
        _ => { vs::assume(t.len() > 0 && !t.starts_with(' ') && !t.contains('=')); ["<a x ", &t, "/>"].concat() }
    };
    let d = new_document(&s);
    ck!(1, "malformed markup is rejected", d.is_err());
}

/// renders a model as XML text with symbolic choices of lexical form
fn render(m: &M, i: usize, o: &mut String, var: u32) {
    let n = &m.n[i];
    match n.k {
        K::Root => for c in &n.ch { render(m, *c, o, var) },
        K::Elem => {
            o.push('<'); o.push_str(&n.name);
            for a in &n.at {
                let f = vs::pick(var.min(6));
                o.push_str([" ", "\n", " \t", "  ", "\t", "\n "][f]);
                o.push_str(&m.n[*a].name);
                o.push_str(["=", " =", "= ", " = ", "=\n", "\n=\t"][f]);
                let q = if f & 1 == 0 { "\"" } else { "'" };
                o.push_str(q); o.push_str(&enc(&m.n[*a].val)); o.push_str(q);
            }
            let f = vs::pick(var.min(3));
            if n.ch.is_empty() && f != 1 { o.push_str(if f == 0 { "/>" } else { " />" }) } else {
                o.push_str(if f == 2 { " >" } else { ">" });
                for c in &n.ch { render(m, *c, o, var) }
                o.push_str("</"); o.push_str(&n.name); o.push_str(if f == 1 { " >" } else { ">" });
            }
        }
        K::Text => match vs::pick(var.min(3)) {
            0 => o.push_str(&enc(&n.val)),
            1 => { o.push_str("<![CDATA["); o.push_str(&n.val); o.push_str("]]>") }
            _ => for c in n.val.bytes() { let c = vs::conc(c as u64) as u8; if vs::coin() { o.push_str(&["&#", &dec(c), ";"].concat()) } else { o.push_str(&["&#x", &hex(c), ";"].concat()) } },
        },
        K::Comm => { o.push_str("<!--"); o.push_str(&n.val); o.push_str("-->") }
        K::Pi => { o.push_str("<?"); o.push_str(&n.name); o.push_str(if vs::pick(var.min(2)) == 0 { " " } else { "\n " }); o.push_str(&n.val); o.push_str("?>") }
        K::Attr => {}
    }
}
fn dec(c: u8) -> String { let mut s = String::new(); for d in [c / 100, c / 10 % 10, c % 10] { s.push((b'0' + d) as char) } s }
fn hex(c: u8) -> String { let mut s = String::new(); for d in [c >> 4, c & 15] { s.push(b"0123456789aBcDeF"[d as usize] as char) } s }

/// well-formed documents in every lexical variant parse to exactly their tree
#[no_mangle]
pub extern "C-unwind" fn x_doc() {
    let g = Gen { nodes: vs::param(0) as usize, kinds: vs::param(1) as u32, attrs: vs::param(2) as usize, names: b"ab", text: b"x<&>\"' \n]" };
    let m = g.make();
    let mut s = String::new();
    render(&m, 0, &mut s, vs::param(3) as u32);
    vs::obs_str(1, &s);
    let d = new_document(&s);
    ck!(1, "well-formed document parses", d.is_ok());
    let d = d.unwrap();
    ck!(2, "the tree is exactly the document's", bind(&m, &d).is_some());
    ck!(3, "canonical serialisation is exact", d.to_string() == m.to_xml(0));
}

/// the SAX token sequence of a document
#[no_mangle]
pub extern "C-unwind" fn x_sax() {
    let g = Gen { nodes: vs::param(0) as usize, kinds: vs::param(1) as u32, attrs: vs::param(2) as usize, names: b"ab", text: b"x<& " };
    let m = g.make();
    let s = m.to_xml(0);
    let mut want = String::new();
    fn ev(m: &M, i: usize, o: &mut String) {
        let n = &m.n[i];
        match n.k {
            K::Root => for c in &n.ch { ev(m, *c, o) },
            K::Elem => {
                o.push_str("[S"); o.push_str(&n.name);
                for a in &n.at { o.push_str("\u{1}"); o.push_str(&m.n[*a].name); o.push_str("\u{2}"); o.push_str(&m.n[*a].val) }
                for c in &n.ch { ev(m, *c, o) }
                o.push_str("[E"); o.push_str(&n.name)
            }
            K::Text => { o.push_str("[T"); o.push_str(&n.val) }
            K::Comm => { o.push_str("[C"); o.push_str(&n.val) }
            K::Pi => { o.push_str("[P"); o.push_str(&n.name); o.push_str("\u{2}"); o.push_str(&n.val) }
            K::Attr => {}
        }
    }
    ev(&m, 0, &mut want);
    let mut got = String::new();
    let mut dec = SaxDecoder::new(&s).unwrap();
    loop {
        match dec.raw_token() {
            Ok(XmlToken::EOF) => break,
            Ok(XmlToken::StartElement { name, attr }) => { got.push_str("[S"); got.push_str(&name); for a in attr.iter() { got.push_str("\u{1}"); got.push_str(a.name()); got.push_str("\u{2}"); got.push_str(a.value()) } }
            Ok(XmlToken::EndElement { name }) => { got.push_str("[E"); got.push_str(&name) }
            Ok(XmlToken::CharData { chardata }) => { got.push_str("[T"); got.push_str(&chardata) }
            Ok(XmlToken::ProcInst { target, inst }) => { got.push_str("[P"); got.push_str(&target); got.push_str("\u{2}"); got.push_str(&inst) }
            Ok(XmlToken::Comment { comment }) => { got.push_str("[C"); got.push_str(&comment) }
            Ok(XmlToken::Directive { .. }) => got.push_str("[D"),
            Err(_) => { got.push_str("[!"); break }
        }
    }
    vs::obs_str(1, &got);
    ck!(1, "the token sequence is exactly the document's", got == want);
}

/// directives are skipped up to their matching bracket
#[no_mangle]
pub extern "C-unwind" fn x_directive() {
    let t = vs::string_n(b"<> x\"", vs::param(0) as usize);
    // balanced and never closing the outer bracket
    let mut depth = 0i32;
    let mut ok = true;
    for c in t.bytes() { if c == b'<' { depth += 1 } if c == b'>' { depth -= 1; if depth < 0 { ok = false; break } } }
    vs::assume(ok && depth == 0);
    let d = new_document(&["<!D", &t, "><a>q</a>"].concat());
    ck!(1, "document with a directive parses", d.is_ok());
    let d = d.unwrap();
    ck!(2, "the directive leaves nothing behind", d.to_string() == "<a>q</a>");
}

/// navigation agrees with the tree
#[no_mangle]
pub extern "C-unwind" fn x_nav() {
    let g = Gen { nodes: vs::param(0) as usize, kinds: vs::param(1) as u32, attrs: vs::param(2) as usize, names: b"ab", text: b"x<" };
    let m = g.make();
    let d = new_document(&m.to_xml(0)).unwrap();
    let b = bind(&m, &d);
    ck!(1, "document tree", b.is_some());
    let b = b.unwrap();
    nav(&m, &b, &d);
}
pub fn nav(m: &M, b: &[NodePtr], d: &NodePtr) {
    let ord = m.doc_order();
    let mut last = i64::MIN;
    for x in ord.iter() {
        let (n, p) = (&m.n[*x], &b[*x]);
        let o = p.document_order();
        ck!(110, "document order is strictly increasing along the document", o > last);
        last = o;
        ck!(111, "root() is the document node", p.root() == *d);
        ck!(112, "parent() is the containing node", match p.parent() { None => n.parent == NONE, Some(q) => n.parent != NONE && q == b[n.parent] });
        ck!(113, "root_element() is the first top-level element", p.root_element() == b[m.n[0].ch.iter().find(|c| m.n[**c].k == K::Elem).cloned().unwrap_or(0)]);
        let ch = p.children();
        ck!(114, "children()", ch.len() == n.ch.len());
        for k in 0..n.ch.len() {
            ck!(115, "children() and nth_child()", ch[k] == b[n.ch[k]] && p.nth_child(k).map_or(false, |c| c == b[n.ch[k]]));
        }
        ck!(116, "nth_child() past the end", p.nth_child(n.ch.len()).is_none() && p.nth_child(usize::MAX).is_none());
        ck!(117, "first_child()", match p.first_child() { None => n.ch.is_empty(), Some(c) => !n.ch.is_empty() && c == b[n.ch[0]] });
        let at = p.attributes();
        ck!(118, "attributes()", at.len() == n.at.len());
        for k in 0..n.at.len() {
            let a = &m.n[n.at[k]];
            ck!(119, "attributes() and attribute_value()", at[k] == b[n.at[k]] && p.attribute_value(&a.name) == Some(a.val.clone()));
        }
        ck!(120, "attribute_value() of an absent attribute", p.attribute_value("none").is_none() && p.attribute_value("").is_none());
        if n.k == K::Elem {
            ck!(121, "to_string() of a subtree", p.to_string() == m.to_xml(*x));
            let mut s = String::new();
            for c in &n.ch { s.push_str(&m.to_xml(*c)) }
            ck!(122, "inner_xml()", p.inner_xml() == s);
        }
    }
}

/// indented serialisation: every construct on its own line at four spaces per level
#[no_mangle]
pub extern "C-unwind" fn x_pretty() {
    let g = Gen { nodes: vs::param(0) as usize, kinds: vs::param(1) as u32, attrs: vs::param(2) as usize, names: b"ab", text: b"x<" };
    let m = g.make();
    let d = new_document(&m.to_xml(0)).unwrap();
    let mut want = String::new();
    m.pretty(0, 0, &mut want);
    let got = d.to_pretty_string();
    vs::obs_str(1, &got);
    ck!(1, "indented form is exact", got == want);
    let b = bind(&m, &d).unwrap();
    let x = vs::pick(m.n.len() as u32);
    vs::assume(m.n[x].k == K::Elem);
    let mut w = String::new();
    m.pretty(x, 0, &mut w);
    ck!(2, "indented form of a subtree starts at column 0", b[x].to_pretty_string() == w);
    // ignoring the white space put around it, the content is unchanged
    ck!(3, "indentation only adds white space around text", {
        let r = new_document(&got);
        r.is_ok() && strip(&extract(&r.unwrap())) == strip(&m)
    });
}
fn strip(m: &M) -> String {
    let mut o = String::new();
    fn rec(m: &M, i: usize, o: &mut String) {
        let n = &m.n[i];
        let v = if n.k == K::Text { n.val.trim().to_string() } else { n.val.clone() };
        if n.k == K::Text && v.is_empty() { return }
        o.push_str(match n.k { K::Root => "R", K::Elem => "E", K::Text => "T", K::Comm => "C", K::Pi => "P", K::Attr => "A" });
        o.push_str(&n.name); o.push('\u{1}'); o.push_str(&v); o.push('\u{2}');
        for a in &n.at { rec(m, *a, o) }
        for c in &n.ch { rec(m, *c, o) }
        o.push('\u{3}');
    }
    rec(m, 0, &mut o);
    o
}

/// depth nested elements, each with optional xmlns, xmlns:p, xmlns:q declarations, the innermost
/// with the given name and with extra attributes and content: the document and the innermost
/// element's namespace for no prefix, p and q
fn ns_doc(depth: usize, name: &str, extra: &str, content: &str) -> (NodePtr, [String; 3]) {
    let mut s = String::new();
    let mut inscope = [String::new(), String::new(), String::new()];
    for l in 0..depth {
        s.push('<');
        s.push_str(if l == depth - 1 { name } else { ["r", "s"][l] });
        for k in 0..3 {
            if vs::coin() {
                let v = vs::string(b"uv", 1);
                s.push_str([" xmlns='", " xmlns:p='", " xmlns:q='"][k]); s.push_str(&v); s.push('\'');
                inscope[k] = v;
            }
        }
        if l == depth - 1 { s.push_str(extra) }
        s.push('>');
    }
    s.push_str(content);
    s.push_str("</"); s.push_str(name); s.push('>');
    for l in (0..depth - 1).rev() { s.push_str(["</r>", "</s>"][l]) }
    (new_document(&s).unwrap(), inscope)
}

/// names split at their first colon; namespace lookup takes the nearest declaration
#[no_mangle]
pub extern "C-unwind" fn x_ns() {
    let depth = vs::param(0) as usize;
    let name = ["n", "p:n", "q:n", "pp:n", "p:q:n"][vs::param(1) as usize];
    let (d, inscope) = ns_doc(depth, name, "", "");
    let mut e = d.root_element();
    for _ in 1..depth { e = e.first_child().unwrap(); }
    let (ln, sp, k) = [("n", "", 0), ("n", "p", 1), ("n", "q", 2), ("n", "pp", 9), ("q:n", "p", 1)][vs::param(1) as usize];
    ck!(1, "local_name() is what follows the first colon", e.local_name() == ln);
    ck!(2, "space_name() is what precedes the first colon", e.space_name() == sp);
    let want = if k < 3 { inscope[k].clone() } else { String::new() };
    let got = e.namespace_uri();
    vs::obs_str(1, &got);
    ck!(3, "namespace_uri() is the innermost declaration in scope, or empty", got == want);
}

/// namespaces of attributes and other nodes, and the name tests that look at namespaces
#[no_mangle]
pub extern "C-unwind" fn x_nsq() {
    use crate::nodes::prog;
    use amxml::verif::*;
    let (depth, w) = (vs::param(0) as usize, vs::param(1) as usize);
    let q: Vec<Program> = ["Q{u}n", "Q{u}*", "Q{v}n", "*:n", "*:m", "p:*", "n", "p:n", "*/@Q{u}a", "*/@*:a", "*/@Q{}a", "*/@p:*", "*[namespace-uri() = 'u']", "*/@a/namespace-uri()", "*/@*[local-name() = 'a'][2]/namespace-uri()", "*/name()", "*/local-name()", "*/text()/namespace-uri()", "*/comment()/namespace-uri()"].iter().map(|e| prog(e)).collect();
    let (name, k) = [("n", 0), ("p:n", 1), ("q:n", 2)][w];
    let (d, inscope) = ns_doc(depth, name, " a='1' p:a='2' xml:b='3'", "t<!--c-->");
    let mut e = d.root_element();
    for _ in 1..depth { e = e.first_child().unwrap(); }
    let up = e.parent().unwrap();
    let at: Vec<NodePtr> = e.attributes().into_iter().filter(|a| !a.name().starts_with("xmlns")).collect();
    ck!(1, "an attribute without prefix is in no namespace", at.len() == 3 && at[0].namespace_uri() == "");
    ck!(2, "an attribute with a prefix is in the namespace of that prefix", at[1].namespace_uri() == inscope[1]);
    ck!(3, "the prefix xml is predeclared", at[2].namespace_uri() == "http://www.w3.org/XML/1998/namespace");
    let ch = e.children();
    ck!(4, "texts, comments and documents have no namespace", ch.len() == 2 && ch[0].namespace_uri() == "" && ch[1].namespace_uri() == "" && d.namespace_uri() == "");
    let go = |i: usize| match run(&q[i], &up, &[]) { Ok(v) => v, Err(_) => vec![Value::Other(String::from("error"))] };
    let only = |i: usize, n: &NodePtr, yes: bool| { let v = go(i); if yes { v.len() == 1 && match &v[0] { Value::Node(m) => m == n, _ => false } } else { v.is_empty() } };
    let text = |i: usize, t: &str| { let v = go(i); v.len() == 1 && match &v[0] { Value::Str(s) => s == t, _ => false } };
    let u = &inscope[k];
    ck!(5, "Q{uri}name selects by namespace and local name", only(0, &e, u == "u") && only(2, &e, u == "v"));
    ck!(6, "Q{uri}* selects by namespace", only(1, &e, u == "u"));
    ck!(7, "*:name selects by local name", only(3, &e, true) && only(4, &e, false));
    ck!(8, "prefix:* selects by prefix", only(5, &e, k == 1) && only(6, &e, k == 0) && only(7, &e, k == 1));
    ck!(9, "Q{uri}name of attributes", only(8, &at[1], inscope[1] == "u"));
    ck!(10, "*:name of attributes finds every prefix", go(9).len() == 2);
    ck!(11, "Q{}name finds attributes in no namespace", if inscope[1] == "" { go(10).len() == 2 } else { only(10, &at[0], true) });
    ck!(12, "prefix:* of attributes", only(11, &at[1], true));
    ck!(13, "namespace-uri() of an element", only(12, &e, u == "u"));
    ck!(14, "namespace-uri() of attributes, texts and comments", text(13, "") && text(14, &inscope[1]) && text(17, "") && text(18, ""));
    ck!(15, "name() and local-name()", text(15, name) && text(16, "n"));
}

/// lang(): the innermost xml:lang decides, without regard to case, up to a hyphen
#[no_mangle]
pub extern "C-unwind" fn x_lang() {
    use crate::nodes::prog;
    use amxml::verif::*;
    let (n, m) = (vs::param(0) as usize, vs::param(1) as usize);
    let q: Vec<Program> = ["lang($l)", "lang($l, .)", "*/text()/lang($l)", "*/@y/lang($l)", "ancestor-or-self::*[lang($l)]/local-name()", "lang((), .)"].iter().map(|e| prog(e)).collect();
    let mut s = String::from("<r");
    let mut lang: Option<String> = None;
    let mut outer: Option<String> = None;
    for l in 0..2 {
        if vs::coin() {
            let v = vs::string(b"eEn-", if l == 0 { n.min(1) } else { n });
            s.push_str(" xml:lang='"); s.push_str(&v); s.push('\'');
            if l == 0 { outer = Some(v.clone()) }
            lang = Some(v);
        }
        s.push_str(if l == 0 { "><x" } else { "><c y='1'>t</c></x></r>" });
    }
    let d = new_document(&s).unwrap();
    let e = d.root_element().first_child().unwrap();
    let t = vs::string(b"eEn-", m);
    let hit = |have: &Option<String>| -> bool { match have { None => false, Some(v) => {
        let (v, t) = (v.as_bytes(), t.as_bytes());
        if v.len() < t.len() { return false }
        let mut ok = true;
        for i in 0..t.len() { ok &= v[i] | 0x20 == t[i] | 0x20; }
        ok & (v.len() == t.len() || v[t.len()] == b'-')
    } } };
    let w = hit(&lang);
    let vars = [("l", vec![Value::Str(t.clone())])];
    let go = |i: usize| run(&q[i], &e, &vars);
    let is = |i: usize, b: bool| match go(i) { Ok(v) => v.len() == 1 && match &v[0] { Value::Boolean(x) => *x == b, _ => false }, Err(_) => false };
    ck!(1, "lang() holds when the innermost xml:lang is the language or a variant of it", is(0, w));
    ck!(2, "lang() of a given node", is(1, w));
    ck!(3, "lang() of a text or attribute is that of its element", is(2, w) && is(3, w));
    let o = hit(&outer);
    let names = match go(4) { Ok(v) => v.len() as i32, Err(_) => -1 };
    ck!(4, "an inner xml:lang overrides the outer one", names == w as i32 + o as i32);
    let none = match &lang { Some(v) => v.is_empty() || v.as_bytes()[0] == b'-', None => false };
    ck!(5, "no language is the empty language", is(5, none));
}

/// random-access edits: any sequence of k operations matches the list model
#[no_mangle]
pub extern "C-unwind" fn x_ops() {
    let k = vs::param(0) as usize;
    let mut m = M::new();
    // <r x="1"><a/>t<b><c/></b></r>
    let r = m.add(0, K::Elem, "r", "");
    m.add(r, K::Attr, "x", "1");
    m.add(r, K::Elem, "a", "");
    m.add(r, K::Text, "", "t");
    let b_ = m.add(r, K::Elem, "b", "");
    m.add(b_, K::Elem, "c", "");
    let d = new_document(&m.to_xml(0)).unwrap();
    let primed = vs::param(1) == 1;
    let mut b = bind(&m, &d).unwrap();
    for step in 0..k {
        if primed { let _ = b[1].document_order(); }
        // target: any non-attribute node still in the document other than the document node
        let cand: Vec<usize> = m.doc_order().into_iter().filter(|x| *x != 0 && m.n[*x].k != K::Attr).collect();
        let t = cand[vs::pick(cand.len() as u32)];
        let op = vs::pick(7);
        let src = ["<n y=\"2\"><m/>w</n>", "<o z=\"3\"/>", "<q><!--k--></q>"][step.min(2)];
        let new = || new_document(src).unwrap();
        let graft = |m: &mut M, p: usize, at: usize| {
            let i = match step.min(2) {
                0 => { let i = m.add(p, K::Elem, "n", ""); m.add(i, K::Attr, "y", "2"); m.add(i, K::Elem, "m", ""); m.add(i, K::Text, "", "w"); i }
                1 => { let i = m.add(p, K::Elem, "o", ""); m.add(i, K::Attr, "z", "3"); i }
                _ => { let i = m.add(p, K::Elem, "q", ""); m.add(i, K::Comm, "", "k"); i }
            };
            m.n[p].ch.pop();
            m.n[p].ch.insert(at, i);
        };
        let p = m.n[t].parent;
        let pos = m.n[p].ch.iter().position(|x| *x == t).unwrap();
        match op {
            0 => { vs::assume(m.n[t].k == K::Elem); let nd = new(); b[t].append_child(&nd.root_element()); let e = m.n[t].ch.len(); graft(&mut m, t, e); ck!(6, "an appended node leaves its old tree", nd.to_string() == "" && nd.children().is_empty()); if vs::param(2) == 1 { std::mem::drop(nd) } else { std::mem::forget(nd) } }
            1 => { let nd = new(); b[t].insert_as_previous_sibling(&nd.root_element()); graft(&mut m, p, pos); ck!(7, "an inserted tree is copied", nd.to_string() == src && nd.root_element().root() == nd); }
            2 => { let nd = new(); b[t].insert_as_next_sibling(&nd.root_element()); graft(&mut m, p, pos + 1); ck!(7, "an inserted tree is copied", nd.to_string() == src && nd.root_element().root() == nd); }
            3 => { b[p].delete_child(&b[t]); m.n[p].ch.remove(pos); m.n[t].parent = NONE; }
            4 => { let nd = new(); b[t].replace_with(&nd.root_element()); m.n[p].ch.remove(pos); m.n[t].parent = NONE; graft(&mut m, p, pos); ck!(7, "an inserted tree is copied", nd.to_string() == src && nd.root_element().root() == nd); }
            5 => {
                vs::assume(m.n[t].k == K::Elem);
                let nm = ["x", "y", "w"][vs::pick(3)];
                let v = vs::string_n(b"1<", 1);
                b[t].rc_clone().set_attribute(nm, &v);
                match m.n[t].at.iter().find(|a| m.n[**a].name == nm).cloned() { Some(a) => m.n[a].val = v, None => { m.add(t, K::Attr, nm, &v); } }
            }
            _ => {
                vs::assume(m.n[t].k == K::Elem);
                let nm = ["x", "y", "w"][vs::pick(3)];
                b[t].rc_clone().delete_attribute(nm);
                if let Some(q) = m.n[t].at.iter().position(|a| m.n[*a].name == nm) { m.n[t].at.remove(q); }
            }
        }
        let nb = bind(&m, &d);
        ck!(1, "the tree after the edit is the model's", nb.is_some());
        let nb = nb.unwrap();
        // nodes that stay keep their identity
        for x in m.doc_order() { if x < b.len() && m.n[x].k != K::Attr { ck!(2, "nodes keep their identity across edits", nb[x] == b[x]) } }
        b = nb;
    }
    nav(&m, &b, &d);
    ck!(3, "serialisation after the edits", d.to_string() == m.to_xml(0));
    let all = d.get_nodeset("//node()").unwrap();
    let want: Vec<usize> = m.doc_order().into_iter().filter(|x| *x != 0 && m.n[*x].k != K::Attr).collect();
    ck!(4, "XPath sees the edited tree in document order", all.len() == want.len() && (0..all.len()).all(|i| all[i] == b[want[i]]));
    let all = d.get_nodeset("//@*/..").unwrap();
    let want: Vec<usize> = m.doc_order().into_iter().filter(|x| !m.n[*x].at.is_empty()).collect();
    ck!(5, "XPath parents of attributes", all.len() == want.len() && (0..all.len()).all(|i| all[i] == b[want[i]]));
}

/// a node outlives the document handle it came from
#[no_mangle]
pub extern "C-unwind" fn x_orphan() {
    let e = {
        let d = new_document("<r xmlns='u'><a x='1'><b/></a></r>").unwrap();
        let r = d.root_element();
        let a = r.first_child().unwrap();
        match vs::pick(3) { 0 => r, 1 => a, _ => a.first_child().unwrap() }
    };
    // the ancestors are gone: every query still answers
    let p = e.parent();
    ck!(1, "no parent once the document is gone", p.is_none());
    ck!(2, "the node is its own root", e.root() == e);
    ck!(3, "queries on an orphan work", e.to_string().len() > 0 && e.get_nodeset("//b").is_ok());
    let _ = (e.namespace_uri(), e.document_order(), e.root_element());
}

/// a deleted node is detached, and can be put back anywhere
#[no_mangle]
pub extern "C-unwind" fn x_move() {
    let mut m = M::new();
    let r = m.add(0, K::Elem, "r", "");
    let a = m.add(r, K::Elem, "a", "");
    let c = m.add(a, K::Elem, "c", "");
    m.add(c, K::Attr, "x", "1");
    let b_ = m.add(r, K::Elem, "b", "");
    m.add(b_, K::Text, "", "t");
    let d = new_document(&m.to_xml(0)).unwrap();
    let b = bind(&m, &d).unwrap();
    let cand = [a, c, b_];
    let t = cand[vs::pick(3)];
    let q = cand[vs::pick(3)];
    let del = vs::coin();
    let _ = d.document_order();
    let p = m.n[t].parent;
    if del {
        b[p].delete_child(&b[t]);
        ck!(1, "a deleted node has no parent", b[t].parent().is_none());
        ck!(2, "a deleted node is its own root", b[t].root() == b[t]);
    }
    let cyc = t == q || m.is_ancestor(t, q);
    if cyc && !del {
        b[q].append_child(&b[t]);
        ck!(3, "a node cannot be put below itself", d.to_string() == m.to_xml(0));
        return;
    }
    vs::assume(!cyc);
    b[q].append_child(&b[t]);
    let k = m.n[p].ch.iter().position(|x| *x == t).unwrap();
    m.n[p].ch.remove(k);
    m.n[q].ch.push(t);
    m.n[t].parent = q;
    let nb = bind(&m, &d);
    ck!(4, "appending a node moves it", nb.is_some());
    let nb = nb.unwrap();
    ck!(5, "the moved node keeps its identity", nb[t] == b[t]);
    nav(&m, &nb, &d);
}

const PIECES: [&str; 20] = ["&lt;", "&amp;", "&#62;", "&#x26;", "&", ";", "\n", " ", "\t", "]", "]]", "-", "--", "?", ">", "x", "\"", "'", "=", "/"];
/// the content of every construct that holds characters arrives exactly
#[no_mangle]
pub extern "C-unwind" fn x_content() {
    let (kind, n) = (vs::param(0), vs::param(1) as usize);
    let mut t = String::new();
    if vs::param(2) == 0 {
        t = vs::ascii_n(n);
        vs::assume(!t.contains('\r'));
    } else if vs::param(2) == 1 {
        for _ in 0..n { t.push_str(PIECES[vs::pick(PIECES.len() as u32)]) }
    } else {
        for _ in 0..n { t.push_str(["\n", " ", "x", "&lt;", "]", "-", "?", ">"][vs::pick(8)]) }
    }
    let sib = if vs::param(2) == 2 { 1 } else { vs::pick(3) };
    let (l, r) = [("", ""), ("<b/>", ""), ("<!--q-->", "<?r s?>")][sib];
    // no terminator inside
    let (s, want, i) = match kind {
        0 => { vs::assume(!t.contains('<')); let w = ref_decode(&t); vs::assume(w.is_some()); (["<a>", l, &t, r, "</a>"].concat(), w.unwrap(), 0) }
        1 => { vs::assume(!t.contains("]]>")); let mut u = t.clone(); u.push_str("]]>"); vs::assume(u.find("]]>") == Some(t.len())); (["<a>", l, "<![CDATA[", &t, "]]>", r, "</a>"].concat(), t.clone(), 0) }
        2 => { let mut u = t.clone(); u.push_str("-->"); vs::assume(u.find("-->") == Some(t.len())); (["<a>", l, "<!--", &t, "-->", r, "</a>"].concat(), t.clone(), 0) }
        3 => {
            let mut u = t.clone(); u.push_str("?>"); vs::assume(u.find("?>") == Some(t.len()));
            (["<a>", l, "<?p ", &t, "?>", r, "</a>"].concat(), t.trim_start_matches(|c| c == ' ' || c == '\n' || c == '\t').to_string(), 0)
        }
        4 => { vs::assume(!t.contains('"')); let w = ref_decode(&t); vs::assume(w.is_some()); (["<a y='1' x=\"", &t, "\" z='2'>", l, r, "</a>"].concat(), w.unwrap(), 1) }
        _ => { vs::assume(!t.contains('\'')); let w = ref_decode(&t); vs::assume(w.is_some()); (["<a y='1' x='", &t, "' z='2'>", l, r, "</a>"].concat(), w.unwrap(), 1) }
    };
    let d = new_document(&s);
    ck!(1, "the document parses", d.is_ok());
    let d = d.unwrap();
    let a = d.root_element();
    if i == 1 {
        ck_opt!(2, "attribute value is exact", a.attribute_value("x") == Some(want.clone()));
        ck_opt!(3, "the neighbouring attributes are untouched", a.attributes().len() == 3 && a.attribute_value("y") == Some("1".to_string()) && a.attribute_value("z") == Some("2".to_string()));
    } else {
        let k = if sib == 0 { 0 } else { 1 };
        let c = a.nth_child(k);
        if kind == 0 && t.len() == 0 {
            ck_opt!(4, "no character data, no other content", a.children().len() == [0, 1, 2][sib]);
        } else {
            ck_opt!(5, "the content is one node between its siblings", c.is_some() && a.children().len() == [1, 2, 3][sib]);
            let c = c.unwrap();
            ck_opt!(6, "of the right kind", kind_of(&c) == [K::Text, K::Text, K::Comm, K::Pi][kind as usize]);
            let v = c.value();
            vs::obs_str(1, &v);
            ck_opt!(7, "with exactly its content", v == want);
        }
    }
    rt(&d);
}

/// a document cut off anywhere: accepted exactly where no construct and no element is left open
#[no_mangle]
pub extern "C-unwind" fn x_cut() {
    let n = vs::string_n(b"ab", vs::param(0) as usize);
    let t = vs::string_n(b"ab ", vs::param(1) as usize);
    let p = |s: &[&str]| -> String { s.concat() };
    // construct, change of depth, text (which may be cut inside)
    let doc: Vec<(String, i32, bool)> = match vs::param(2) {
        0 => vec![(p(&["<?", &n, " ", &t, "?>"]), 0, false), (p(&["<!--", &t, "-->"]), 0, false), (p(&["<", &n, " ", &n, "=\"", &t, "\">"]), 1, false), (p(&["x", &t]), 0, true), (p(&["</", &n, ">"]), -1, false)],
        1 => vec![(p(&["<", &n, "/>"]), 0, false), (p(&["<?", &n, " ", &t, "?>"]), 0, false), (p(&["<!--", &t, "-->"]), 0, false), (p(&["<", &n, " >"]), 1, false), (p(&["</", &n, " >"]), -1, false), (p(&["<![CDATA[", &t, "]]>"]), 0, false)],
        2 => vec![(p(&["<", &n, ">"]), 1, false), (p(&["<![CDATA[", &t, "]]>"]), 0, false), (p(&["<", &n, ">"]), 1, false), (p(&["<!--", &t, "-->"]), 0, false), (p(&["</", &n, ">"]), -1, false), (p(&["<?", &n, "\n", &t, "?>"]), 0, false), (p(&["</", &n, ">"]), -1, false)],
        3 => vec![(p(&["<!", &n, " ", &t, ">"]), 0, false), (p(&["<!D [<!", &n, " <", &t, ">>]>"]), 0, false), (p(&["<", &n, " a='1'\tb = '", &t, "'/>"]), 0, false), (String::from("\n"), 0, true)],
        _ => vec![(p(&["<", &n, " a='", &t, ">'", "/>"]), 0, false), (p(&["<", &n, " a=\"", &t, "/>'\">"]), 1, false), (p(&["<!--", &t, "<a>-->"]), 0, false), (p(&["<?", &n, " <!--?>"]), 0, false), (p(&["</", &n, ">"]), -1, false), (p(&["<!--?>]]>", &t, "-->"]), 0, false)],
    };
    let total: usize = doc.iter().map(|d| d.0.len()).sum();
    let cut = vs::pick(total as u32 + 1);
    let (mut at, mut depth, mut ok, mut all) = (0, 0, true, String::new());
    for (s, d, text) in &doc {
        if at < cut {
            if cut < at + s.len() { ok = *text } else { depth += d }
        }
        at += s.len();
        all.push_str(s);
    }
    let d = new_document(&all[..cut]);
    if ok && depth == 0 {
        ck!(1, "a document in which everything is closed is accepted", d.is_ok());
        if cut == total {
            let d = d.unwrap();
            ck!(2, "and has the elements that were written", d.children().iter().filter(|c| c.node_type() == NodeType::Element).all(|c| c.name() == n));
        }
    } else {
        ck!(3, "a document that ends inside a construct or an element is rejected", d.is_err());
    }
}

/// processing instructions and the XML declaration: `<?xml ...?>` alone is the declaration
#[no_mangle]
pub extern "C-unwind" fn x_pi() {
    let t = ["", "x", "xm", "xml"][vs::param(0) as usize].to_string() + &vs::string_n(b"xmlX-s", vs::param(1) as usize);
    let c = vs::string_n(b"?x >", vs::param(2) as usize);
    let at = vs::pick(4);
    vs::assume(t.len() > 0 && &t[..1] != "-" && !c.contains("?>") && !c.starts_with(" ") && !(t != "xml" && t.to_ascii_lowercase() == "xml"));
    vs::assume(c.len() > 0 || t != "xml");
    // the declaration is only ever first
    vs::assume(at == 0 || t != "xml");
    let pi = ["<?", &t, if c.len() > 0 { " " } else { "" }, &c, "?>"].concat();
    let xml = match at { 0 => [&pi[..], "<r/>"].concat(), 1 => ["<!--c-->", &pi, "<r/>"].concat(), 2 => ["<r>", &pi, "</r>"].concat(), _ => ["<r/>", &pi].concat() };
    let d = new_document(&xml);
    ck!(1, "the document parses", d.is_ok());
    let d = d.unwrap();
    let p = match at { 0 => d.nth_child(0), 1 => d.nth_child(1), 2 => d.root_element().nth_child(0), _ => d.nth_child(1) };
    ck!(2, "the instruction is where it was written", p.is_some());
    let p = p.unwrap();
    if t == "xml" {
        ck!(3, "<?xml?> is the XML declaration", p.node_type() == NodeType::XMLDecl && p.value() == c);
    } else {
        ck!(4, "anything else is a processing instruction", p.node_type() == NodeType::Instruction && p.name() == t && p.value() == c);
    }
    let back = d.to_string();
    let want = if c.len() > 0 { xml } else { xml.replace("?>", " ?>") };
    ck!(5, "and is written back", back == want || c.len() == 0);
}

const ATTR_NAMES: [&str; 7] = ["a", "b", "A", "aa", "c", "p:a", "xml:b"];
/// a history of attribute edits: names are compared exactly, the others stay as and where they are
#[no_mangle]
pub extern "C-unwind" fn x_attrs() {
    let (n0, k) = (vs::param(0) as usize, vs::param(1) as usize);
    let mut m: Vec<(usize, String)> = vec![];
    let mut s = String::from("<r><e");
    for i in [0, 1, 4, 2].iter().take(n0) { m.push((*i, "1".to_string())); s.push_str(&[" ", ATTR_NAMES[*i], "='1'"].concat()) }
    s.push_str("><f a='9'/></e></r>");
    let d = new_document(&s).unwrap();
    let r = d.root_element();
    let mut e = r.first_child().unwrap();
    for _ in 0..k {
        let i = vs::pick(ATTR_NAMES.len() as u32);
        if vs::coin() {
            let v = ["", "<\"", "'&"][vs::pick(3)];
            e.set_attribute(ATTR_NAMES[i], v);
            match m.iter().position(|x| x.0 == i) { Some(p) => m[p].1 = v.to_string(), None => m.push((i, v.to_string())) }
        } else {
            e.delete_attribute(ATTR_NAMES[i]);
            m.retain(|x| x.0 != i);
        }
    }
    for i in 0..ATTR_NAMES.len() {
        let w = m.iter().find(|x| x.0 == i).map(|x| x.1.clone());
        ck!(1, "attribute_value() after the edits", e.attribute_value(ATTR_NAMES[i]) == w);
    }
    let at = e.attributes();
    ck!(2, "attributes() after the edits, in order", at.len() == m.len() && (0..m.len()).all(|i| at[i].name() == ATTR_NAMES[m[i].0] && at[i].value() == m[i].1 && at[i].parent().map_or(false, |p| p == e)));
    let mut w = String::from("<r><e");
    for (i, v) in &m { w.push_str(&[" ", ATTR_NAMES[*i], "=\"", &v.replace("&", "&amp;").replace("<", "&lt;").replace("\"", "&quot;").replace("'", "&apos;"), "\""].concat()) }
    w.push_str("><f a=\"9\"/></e></r>");
    ck!(3, "serialisation after the edits", d.to_string() == w);
    let x = d.get_nodeset("//@a").unwrap();
    let has = m.iter().any(|x| x.0 == 0);
    ck!(4, "XPath sees the edited attributes", x.len() == 1 + has as usize && x.iter().all(|a| a.name() == "a") && x[x.len() - 1].value() == "9");
    let x = d.get_nodeset("/r/e/@*").unwrap();
    ck!(5, "in attribute order", x.len() == m.len() && (0..m.len()).all(|i| x[i] == at[i]));
}

/// several top-level nodes: root() and root_element() from anywhere
#[no_mangle]
pub extern "C-unwind" fn x_roots() {
    let n = vs::param(0) as usize;
    let mut s = String::new();
    let mut first: Option<usize> = None;
    for i in 0..n {
        let k = vs::pick(5);
        if k < 2 && first.is_none() { first = Some(i) }
        s.push_str(["<a><c z='1'/>t</a>", "<b/>", "<!--a-->", "<?a b?>", "<!--<a/>-->"][k]);
    }
    let d = new_document(&s).unwrap();
    ck!(1, "as many top-level nodes as were written", d.children().len() == n && (0..n).all(|i| d.nth_child(i).map_or(false, |c| c.parent().map_or(false, |p| p == d))));
    let want = match first { Some(i) => d.nth_child(i).unwrap(), None => d.rc_clone() };
    let mut st = vec![d.rc_clone()];
    while let Some(x) = st.pop() {
        ck!(2, "root_element() is the first top-level element", x.root_element() == want);
        ck!(3, "root() is the document node", x.root() == d);
        for c in x.children() { st.push(c) }
        for c in x.attributes() { st.push(c) }
    }
    let all = d.get_nodeset("/*").unwrap();
    ck!(4, "/* is the top-level elements", all.len() == d.children().iter().filter(|c| c.node_type() == NodeType::Element).count() && first.map_or(true, |_| all[0] == want));
}
