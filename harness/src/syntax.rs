//! XPath syntax: totality of lexer and parser, rejection of malformed input, precedence
use crate::nodes::prog;
use crate::num::*;
use crate::vs;
use amxml::dom::*;
use amxml::verif::*;

// ---------------------------------------------------------------- reference recogniser (XPath 3.1 grammar)
#[derive(Clone, Copy, PartialEq)]
enum T { Eof, Name, QName, Wild, Int, Num, Str, Sym(&'static str) }
#[derive(Clone, Copy)]
struct Tok { k: T, s: usize, e: usize }

fn name_start(c: u8) -> bool { (c >= b'a') & (c <= b'z') | (c >= b'A') & (c <= b'Z') | (c == b'_') }
fn digit(c: u8) -> bool { (c >= b'0') & (c <= b'9') }
fn name_char(c: u8) -> bool { name_start(c) | digit(c) | (c == b'.') | (c == b'-') }
fn space(c: u8) -> bool { (c == b' ') | (c == b'\t') | (c == b'\n') | (c == b'\r') }

/// the tokens, or None when there is a lexical error; the flag is set where the standard's reading is moot
fn tokens(b: &[u8], may: &mut bool) -> Option<Vec<Tok>> {
    let at = |i: usize| if i < b.len() { b[i] } else { 0 };
    let mut v: Vec<Tok> = vec![];
    let mut i = 0;
    let name = |mut i: usize| { while name_char(at(i)) { i += 1 } i };
    loop {
        while space(at(i)) { i += 1 }
        if i >= b.len() { break }
        let (c, d, s) = (at(i), at(i + 1), i);
        if c == b'(' && d == b':' {
            let mut depth = 0;
            loop {
                if i + 1 >= b.len() { return None }
                if at(i) == b'(' && at(i + 1) == b':' { depth += 1; i += 2 } else if at(i) == b':' && at(i + 1) == b')' { depth -= 1; i += 2 } else { i += 1 }
                if depth == 0 { break }
            }
            continue
        }
        if c == b'"' || c == b'\'' {
            i += 1;
            loop {
                if i >= b.len() { return None }
                if at(i) == c { if at(i + 1) == c { i += 2; continue } i += 1; break }
                i += 1;
            }
            v.push(Tok { k: T::Str, s, e: i });
            continue
        }
        if digit(c) || c == b'.' && digit(d) {
            let mut k = T::Int;
            while digit(at(i)) { i += 1 }
            if at(i) == b'.' { k = T::Num; i += 1; while digit(at(i)) { i += 1 } }
            if at(i) == b'e' || at(i) == b'E' {
                k = T::Num;
                i += 1;
                if at(i) == b'+' || at(i) == b'-' { i += 1 }
                if !digit(at(i)) { return None }
                while digit(at(i)) { i += 1 }
            }
            // a number and a name need a separator, but many processors do without
            if name_char(at(i)) && at(i) != b'-' { *may = true }
            v.push(Tok { k, s, e: i });
            continue
        }
        if c == b'Q' && d == b'{' {
            while i < b.len() && at(i) != b'}' { if i > s + 1 && at(i) == b'{' { *may = true } i += 1 }
            if i >= b.len() { return None }
            i += 1;
            if name_start(at(i)) { i = name(i); v.push(Tok { k: T::QName, s, e: i }) } else if at(i) == b'*' { i += 1; v.push(Tok { k: T::Wild, s, e: i }) } else { *may = true; return None }
            continue
        }
        if name_start(c) {
            i = name(i);
            if at(i) == b':' && name_start(at(i + 1)) { i = name(i + 1); v.push(Tok { k: T::QName, s, e: i }) } else if at(i) == b':' && at(i + 1) == b'*' { i += 2; v.push(Tok { k: T::Wild, s, e: i }) } else { v.push(Tok { k: T::Name, s, e: i }) }
            continue
        }
        if c == b'*' && d == b':' && name_start(at(i + 2)) { i = name(i + 2); v.push(Tok { k: T::Wild, s, e: i }); continue }
        let mut hit = None;
        for t in ["//", "::", ":=", "=>", "!=", "||", "<=", "<<", ">=", ">>", "..", "/", ":", "=", "!", "|", "<", ">", ",", "?", "+", "-", "*", "$", "[", "]", "(", ")", "@", "#", "{", "}", "."].iter() {
            let x = t.as_bytes();
            if x[0] == c && (x.len() == 1 || x[1] == d) { hit = Some(*t); break }
        }
        match hit { Some(t) => { i += t.len(); v.push(Tok { k: T::Sym(t), s, e: i }) } None => return None }
    }
    Some(v)
}

const AXES: [&str; 12] = ["child", "descendant", "attribute", "self", "descendant-or-self", "following-sibling", "following", "parent", "ancestor", "preceding-sibling", "preceding", "ancestor-or-self"];
const FUNCS: [(&str, usize, usize); 30] = [("abs", 1, 1), ("not", 1, 1), ("sum", 1, 2), ("max", 1, 1), ("min", 1, 1), ("avg", 1, 1), ("count", 1, 1), ("true", 0, 0), ("false", 0, 0), ("last", 0, 0), ("position", 0, 0), ("name", 0, 1), ("root", 0, 1), ("string", 0, 1), ("data", 0, 1), ("number", 0, 1), ("concat", 2, 99), ("substring", 2, 3), ("head", 1, 1), ("tail", 1, 1), ("exists", 1, 1), ("empty", 1, 1), ("boolean", 1, 1), ("floor", 1, 1), ("contains", 2, 2), ("reverse", 1, 1), ("remove", 2, 2), ("lang", 1, 2), ("subsequence", 2, 3), ("string-length", 0, 1)];

struct P<'a> { b: &'a [u8], t: Vec<Tok>, i: usize, may: bool }
impl<'a> P<'a> {
    fn k(&self, o: usize) -> T { if self.i + o < self.t.len() { self.t[self.i + o].k } else { T::Eof } }
    fn is(&self, s: &'static str) -> bool { self.k(0) == T::Sym(s) }
    fn sym(&mut self, s: &'static str) -> bool { if self.is(s) { self.i += 1; true } else { false } }
    /// the token is this word: one decision on all its letters
    fn word_at(&self, o: usize, w: &str) -> bool {
        if self.k(o) != T::Name { return false }
        let t = self.t[self.i + o];
        let w = w.as_bytes();
        if t.e - t.s != w.len() { return false }
        let mut ok = true;
        for j in 0..w.len() { ok &= self.b[t.s + j] == w[j]; }
        ok
    }
    fn kw(&mut self, w: &str) -> bool { if self.word_at(0, w) { self.i += 1; true } else { false } }
    fn eqname(&mut self) -> bool { if self.k(0) == T::Name || self.k(0) == T::QName { self.i += 1; true } else { false } }
    fn expr(&mut self) -> bool { loop { if !self.single() { return false } if !self.sym(",") { return true } } }
    fn single(&mut self) -> bool {
        if self.k(0) == T::Name && self.k(1) == T::Sym("$") {
            let bind = if self.kw("for") { 0 } else if self.kw("let") { 1 } else if self.kw("some") || self.kw("every") { 2 } else { return false };
            loop {
                if !(self.sym("$") && self.eqname()) { return false }
                if bind == 1 { if !self.sym(":=") { return false } } else if !self.kw("in") { return false }
                if !self.single() { return false }
                if !self.sym(",") { break }
            }
            if !self.kw(if bind == 2 { "satisfies" } else { "return" }) { return false }
            return self.single()
        }
        if self.k(1) == T::Sym("(") && self.kw("if") {
            return self.sym("(") && self.expr() && self.sym(")") && self.kw("then") && self.single() && self.kw("else") && self.single()
        }
        self.or()
    }
    fn or(&mut self) -> bool { loop { if !self.and() { return false } if !self.kw("or") { return true } } }
    fn and(&mut self) -> bool { loop { if !self.cmp() { return false } if !self.kw("and") { return true } } }
    fn cmp(&mut self) -> bool {
        if !self.cat() { return false }
        let mut op = false;
        for s in ["=", "!=", "<", "<=", ">", ">=", "<<", ">>"].iter() { if self.sym(s) { op = true; break } }
        if !op { for w in ["eq", "ne", "lt", "le", "gt", "ge", "is"].iter() { if self.kw(w) { op = true; break } } }
        if op { self.cat() } else { true }
    }
    fn cat(&mut self) -> bool { loop { if !self.range() { return false } if !self.sym("||") { return true } } }
    fn range(&mut self) -> bool { if !self.add() { return false } if self.kw("to") { self.add() } else { true } }
    fn add(&mut self) -> bool { loop { if !self.mul() { return false } if !(self.sym("+") || self.sym("-")) { return true } } }
    fn mul(&mut self) -> bool { loop { if !self.union() { return false } if !(self.sym("*") || self.kw("div") || self.kw("idiv") || self.kw("mod")) { return true } } }
    fn union(&mut self) -> bool { loop { if !self.inter() { return false } if !(self.sym("|") || self.kw("union")) { return true } } }
    fn inter(&mut self) -> bool { loop { if !self.instance() { return false } if !(self.kw("intersect") || self.kw("except")) { return true } } }
    fn two(&mut self, a: &str, b: &str) -> bool { if self.word_at(0, a) && self.word_at(1, b) { self.i += 2; true } else { false } }
    fn instance(&mut self) -> bool {
        if !self.unary_arrow() { return false }
        if self.two("cast", "as") && !self.single_type() { return false }
        if self.two("castable", "as") && !self.single_type() { return false }
        if self.two("treat", "as") && !self.seq_type() { return false }
        if self.two("instance", "of") && !self.seq_type() { return false }
        true
    }
    fn single_type(&mut self) -> bool { if !self.eqname() { return false } self.sym("?"); true }
    fn unary_arrow(&mut self) -> bool {
        while self.sym("+") || self.sym("-") {}
        if !self.map() { return false }
        while self.sym("=>") {
            let s = self.i;
            if self.eqname() { if !self.args(Some(s), 1) { return false } }
            else if self.sym("$") { if !(self.eqname() && self.args(None, 0)) { return false } }
            else if self.is("(") { if !(self.paren() && self.args(None, 0)) { return false } }
            else { return false }
        }
        true
    }
    fn map(&mut self) -> bool { loop { if !self.path() { return false } if !self.sym("!") { return true } } }
    fn path(&mut self) -> bool {
        if self.sym("//") { return self.rel() }
        if self.sym("/") { return if self.step_ahead() { self.rel() } else { true } }
        self.rel()
    }
    fn step_ahead(&self) -> bool { match self.k(0) { T::Name | T::QName | T::Wild | T::Int | T::Num | T::Str => true, T::Sym(s) => ["*", "@", "..", ".", "$", "(", "[", "?"].contains(&s), T::Eof => false } }
    fn rel(&mut self) -> bool { loop { if !self.step() { return false } if !(self.sym("/") || self.sym("//")) { return true } } }
    fn preds(&mut self) -> bool { while self.sym("[") { if !(self.expr() && self.sym("]")) { return false } } true }
    fn step(&mut self) -> bool {
        match self.k(0) {
            T::Sym("..") => { self.i += 1; return self.preds() }
            T::Sym("@") => { self.i += 1; return self.node_test() && self.preds() }
            T::Sym("*") | T::Wild => { self.i += 1; return self.preds() }
            T::Name | T::QName => {
                match self.k(1) {
                    T::Sym("::") => {
                        if self.k(0) != T::Name { return false }
                        let mut ok = false;
                        for a in AXES.iter() { if self.word_at(0, a) { ok = true; break } }
                        if !ok { if self.word_at(0, "namespace") { self.may = true } return false }
                        self.i += 2;
                        return self.node_test() && self.preds()
                    }
                    T::Sym("(") => { if self.kind_ahead() { return self.node_test() && self.preds() } }
                    T::Sym("{") => { if !(self.word_at(0, "map") || self.word_at(0, "array")) { return self.node_test() && self.preds() } }
                    T::Sym("#") => {}
                    _ => return self.node_test() && self.preds(),
                }
            }
            _ => {}
        }
        if !self.primary() { return false }
        loop {
            match self.k(0) {
                T::Sym("[") => { self.i += 1; if !(self.expr() && self.sym("]")) { return false } }
                T::Sym("(") => if !self.args(None, 0) { return false },
                T::Sym("?") => { self.i += 1; if !self.key() { return false } }
                _ => return true,
            }
        }
    }
    fn kind_ahead(&self) -> bool {
        for w in ["node", "text", "comment", "element", "attribute", "processing-instruction", "document-node", "schema-element", "schema-attribute", "namespace-node"].iter() { if self.word_at(0, w) { return true } }
        false
    }
    fn node_test(&mut self) -> bool {
        match self.k(0) {
            T::Sym("*") | T::Wild => { self.i += 1; true }
            T::Name | T::QName => {
                if self.k(1) != T::Sym("(") { self.i += 1; return true }
                if self.kind_ahead() { self.kind() } else { false }
            }
            _ => false,
        }
    }
    fn kind(&mut self) -> bool {
        if self.kw("element") || self.kw("attribute") {
            let el = { let t = self.t[self.i - 1]; t.e - t.s == 7 };
            if !self.sym("(") { return false }
            if self.sym(")") { return true }
            if !(self.sym("*") || self.eqname()) { return false }
            if self.sym(",") { if !self.eqname() { return false } if el { self.sym("?"); } }
            return self.sym(")")
        }
        if self.kw("processing-instruction") {
            if !self.sym("(") { return false }
            if self.k(0) == T::Name || self.k(0) == T::Str { self.i += 1 }
            return self.sym(")")
        }
        if self.kw("document-node") {
            if !self.sym("(") { return false }
            if self.word_at(0, "element") || self.word_at(0, "schema-element") { if !self.kind() { return false } }
            return self.sym(")")
        }
        if self.kw("schema-element") || self.kw("schema-attribute") { return self.sym("(") && self.eqname() && self.sym(")") }
        self.i += 1;
        self.sym("(") && self.sym(")")
    }
    fn paren(&mut self) -> bool { if !self.sym("(") { return false } if self.sym(")") { return true } self.expr() && self.sym(")") }
    fn key(&mut self) -> bool { if self.k(0) == T::Name || self.k(0) == T::Int || self.is("*") { self.i += 1; return true } self.paren() }
    /// an argument list; of a named function (the token), whose arity is checked with extra arguments added
    fn args(&mut self, name: Option<usize>, extra: usize) -> bool {
        if !self.sym("(") { return false }
        let mut n = extra;
        if !self.sym(")") {
            loop {
                let hole = self.is("?") && (self.k(1) == T::Sym(",") || self.k(1) == T::Sym(")"));
                if hole { self.i += 1 } else if !self.single() { return false }
                n += 1;
                if !self.sym(",") { break }
            }
            if !self.sym(")") { return false }
        }
        if let Some(i) = name {
            // the arity of an arrow call is checked when it is evaluated
            if extra > 0 || self.t[i].k != T::Name { self.may = true; return true }
            let keep = self.i;
            self.i = i;
            let mut known = false;
            for f in FUNCS.iter() { if self.word_at(0, f.0) { known = true; if n < f.1 || n > f.2 { self.i = keep; return false } break } }
            let short = self.t[i].e - self.t[i].s <= 2;
            self.i = keep;
            if !known { if short { return false } self.may = true }
        }
        true
    }
    fn primary(&mut self) -> bool {
        match self.k(0) {
            T::Int | T::Num | T::Str | T::Sym(".") => { self.i += 1; true }
            T::Sym("$") => { self.i += 1; self.eqname() }
            T::Sym("(") => self.paren(),
            T::Sym("?") => { self.i += 1; self.key() }
            T::Sym("[") => {
                self.i += 1;
                if self.sym("]") { return true }
                loop { if !self.single() { return false } if !self.sym(",") { return self.sym("]") } }
            }
            T::Name | T::QName => {
                let s = self.i;
                if self.k(1) == T::Sym("#") {
                    self.i += 2;
                    if self.k(0) != T::Int { return false }
                    self.i += 1;
                    self.may = true;
                    return true
                }
                if self.k(1) == T::Sym("{") {
                    if self.kw("map") {
                        self.i += 1;
                        if self.sym("}") { return true }
                        loop { if !(self.single() && self.sym(":") && self.single()) { return false } if !self.sym(",") { return self.sym("}") } }
                    }
                    if self.kw("array") { self.i += 1; if self.sym("}") { return true } return self.expr() && self.sym("}") }
                    return false
                }
                if self.kw("function") {
                    if !self.sym("(") { return false }
                    if !self.sym(")") {
                        loop {
                            if !(self.sym("$") && self.eqname()) { return false }
                            self.may = true;                        // parameters of the same name
                            if self.kw("as") && !self.seq_type() { return false }
                            if !self.sym(",") { break }
                        }
                        if !self.sym(")") { return false }
                    }
                    if self.kw("as") && !self.seq_type() { return false }
                    if !self.sym("{") { return false }
                    if self.sym("}") { return true }
                    return self.expr() && self.sym("}")
                }
                for w in ["if", "item", "empty-sequence", "switch", "typeswitch", "map", "array"].iter() { if self.word_at(0, w) { return false } }
                self.i += 1;
                self.args(Some(s), 0)
            }
            _ => false,
        }
    }
    fn seq_type(&mut self) -> bool {
        if self.k(1) == T::Sym("(") && self.kw("empty-sequence") { return self.sym("(") && self.sym(")") }
        if !self.item_type() { return false }
        let _ = self.sym("?") || self.sym("*") || self.sym("+");
        true
    }
    fn item_type(&mut self) -> bool {
        if self.is("(") { self.i += 1; return self.item_type() && self.sym(")") }
        if self.k(1) == T::Sym("(") {
            if self.kind_ahead() { return self.kind() }
            if self.kw("item") { return self.sym("(") && self.sym(")") }
            if self.kw("map") { self.i += 1; if self.sym("*") { return self.sym(")") } return self.eqname() && self.sym(",") && self.seq_type() && self.sym(")") }
            if self.kw("array") { self.i += 1; if self.sym("*") { return self.sym(")") } return self.seq_type() && self.sym(")") }
            if self.kw("function") {
                self.i += 1;
                if self.sym("*") { return self.sym(")") }
                if !self.sym(")") { loop { if !self.seq_type() { return false } if !self.sym(",") { break } } if !self.sym(")") { return false } }
                return self.kw("as") && self.seq_type()
            }
        }
        self.eqname()
    }
}
/// Some(whether the string is an XPath expression), or None where this reference makes no claim
fn valid(b: &[u8]) -> Option<bool> {
    let mut may = false;
    let t = match tokens(b, &mut may) { Some(t) => t, None => return if may { None } else { Some(false) } };
    let mut p = P { b, t, i: 0, may };
    let ok = p.expr() && p.k(0) == T::Eof;
    if p.may && ok || may { None } else if !ok && p.may { None } else { Some(ok) }
}

// ---------------------------------------------------------------- checks
/// contexts: prefix and suffix around the free characters
const CTX: [(&str, &str); 24] = [("", ""), ("a", ""), ("", "a"), ("1", ""), ("a[", "]"), ("(", ")"), ("'", "'"), ("(:", ":)"), ("a", "b"), ("1", "1"), ("$", ""), ("abs(", ")"), ("Q{", "}a"), ("map{", "}"), ("map{1:", "}"), ("[1", "2]"), ("for $x in ", "return 1"), ("if(1)then", "else 1"), ("1 instance of", ""), ("a/", ""), ("//", "a"), ("(1)", "(2)"), ("@", "b"), ("function(", "){1}")];

fn judge(s: &str) {
    let r = compile(s).is_ok();
    let w = valid(s.as_bytes());
    vs::obs(9, r as u64);
    ck_opt!(1, "an expression of the grammar is accepted", w != Some(true) || r);
    ck_opt!(2, "a string that is no expression is a syntax error", w != Some(false) || !r);
}
/// n arbitrary ASCII characters (of class k: 0 any, 1 no name characters) in context c
#[no_mangle]
pub extern "C-unwind" fn l_any() {
    let (c, n) = (vs::param(0) as usize, vs::param(1) as usize);
    let mut s = String::from(CTX[c].0);
    s.push_str(&vs::ascii_n(n));
    s.push_str(CTX[c].1);
    judge(&s);
}

const CORPUS: [&str; 36] = ["for $x in (1,2) return $x+1", "let $a:=1,$b:='s' return $a", "some $x in a satisfies $x>=2", "every $x in a,$y in b satisfies 1", "if(a)then b else c", "//a[@b='c']/text()|d", "1 cast as xs:integer?", "1 castable as xs:double",
    "a instance of element(b)*", "map{'k':1,2:(3)}?k", "[1,(2)](1)?*", "function($p as item()*)as xs:int{$p}(1)", "abs(?)(-1)", "concat#2", "a!b=>count()", "child::a/..//@*", "1 to 3 div 4", "5 idiv 6 mod 7", "a is b", "a<<b", "a||'x'!=\"y\"", "1.5e3-.5", "a except b intersect c", "a union b", "(:c:)a eq 1 and b or c", "processing-instruction('t')", "array{1}?(1)", "Q{u}a/*:b/c:*", "a instance of map(xs:int,item()+)", "a instance of function(item())as xs:int", "a instance of array(*)", "ancestor-or-self::node()[1][2]", "-+- a * * * a", "*[. lt last()]", "attribute(a,b)/element(*)/document-node(element(c))", "a treat as (item())"];
/// one of the expressions, with n arbitrary ASCII characters put at any place instead of d characters
#[no_mangle]
pub extern "C-unwind" fn l_edit() {
    let (c, n, d) = (CORPUS[vs::param(0) as usize], vs::param(1) as usize, vs::param(2) as usize);
    let p = vs::pick((c.len() - d + 1) as u32);
    let mut s = String::from(&c[..p]);
    s.push_str(&vs::ascii_n(n));
    s.push_str(&c[p + d..]);
    judge(&s);
}

// ---------------------------------------------------------------- precedence, scope of operands, white space, words as names
/// operator, precedence (higher binds tighter), 0 left-associative / 1 not associative / 2 complete on its right
const OPS: [(&str, u32, u32); 38] = [("or", 1, 0), ("and", 2, 0), ("=", 3, 1), ("!=", 3, 1), ("<", 3, 1), ("<=", 3, 1), (">", 3, 1), (">=", 3, 1), ("eq", 3, 1), ("ne", 3, 1), ("lt", 3, 1), ("le", 3, 1), ("gt", 3, 1), ("ge", 3, 1),
    ("is", 3, 1), ("<<", 3, 1), (">>", 3, 1), ("||", 4, 0), ("to", 5, 1), ("+", 6, 0), ("-", 6, 0), ("*", 7, 0), ("div", 7, 0), ("idiv", 7, 0), ("mod", 7, 0), ("union", 8, 0), ("|", 8, 0), ("intersect", 9, 0), ("except", 9, 0),
    ("instance of xs:integer", 10, 2), ("treat as item()", 11, 2), ("castable as xs:integer", 12, 2), ("cast as xs:string", 13, 2), ("=> abs()", 14, 2), ("!", 16, 0), ("/", 17, 0), ("/..", 17, 3), ("[1]", 18, 3)];

fn eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Integer(x), Value::Integer(y)) => x == y,
        (Value::Boolean(x), Value::Boolean(y)) => x == y,
        (Value::Str(x), Value::Str(y)) => x == y,
        (Value::Decimal(x), Value::Decimal(y)) | (Value::Double(x), Value::Double(y)) => same(*x, *y),
        (Value::Node(x), Value::Node(y)) => x == y,
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| eqs(p, q)),
        (Value::Map(x), Value::Map(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| eq(&p.0, &q.0) && eqs(&p.1, &q.1)),
        (Value::Other(x), Value::Other(y)) => x == y,
        _ => false,
    }
}
fn eqs(a: &[Value], b: &[Value]) -> bool { a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| eq(x, y)) }
/// equal values, or both an error
fn agree(a: &R, b: &R) -> bool { match (a, b) { (Ok(x), Ok(y)) => eqs(x, y), (Err(_), Err(_)) => true, _ => false } }

struct Opnds { d: NodePtr, n: Vec<NodePtr> }
impl Opnds {
    fn new() -> Opnds {
        let d = new_document("<r><a>1</a><a>2</a><a>3</a></r>").unwrap();
        let n = d.root_element().children();
        Opnds { d, n }
    }
    fn val(&self, k: u64) -> Vec<Value> {
        match k {
            0 => { let b = vs::below(4); vec![Value::Integer(b as i64)] }
            3 => { let b = vs::pick(4); vec![Value::Integer(b as i64)] }
            1 => { let b = vs::pick(4); if b == 3 { vec![] } else { vec![Value::Node(self.n[b].rc_clone())] } }
            _ => vec![Value::Boolean(vs::bool())],
        }
    }
}

/// `$a op1 $b op2 $c` means what the precedence of the operators says
#[no_mangle]
pub extern "C-unwind" fn l_prec() {
    let (o1, k) = (vs::param(0) as usize, vs::param(1));
    let o2 = vs::pick(OPS.len() as u32);
    let ((t1, l1, s1), (t2, l2, s2)) = (OPS[o1], OPS[o2]);
    let b = if s1 >= 2 { "" } else { " $b" };
    let c = if s2 >= 2 { "" } else { " $c" };
    let flat = ["$a ", t1, b, " ", t2, c].concat();
    // the operand of a type or arrow operator cannot be extended by a tighter one, comparisons and ranges do not chain
    let bad = if s1 == 2 { l2 > l1 || l2 == l1 && l1 < 14 } else { l1 == l2 && s1 == 1 };
    // an occurrence indicator swallows the operator
    if s1 == 2 && l1 < 12 && (t2 == "+" || t2 == "*") { vs::stop() }
    let p = compile(&flat);
    if bad { ck_opt!(2, "operators that do not associate are a syntax error", p.is_err()); return }
    ck!(1, "operators combine", p.is_ok());
    let p = match p { Ok(p) => p, Err(_) => return };
    let left = s1 >= 2 || l1 >= l2;
    let q = prog(&if left { ["($a ", t1, b, ") ", t2, c].concat() } else { ["$a ", t1, " (", &b[1..], " ", t2, c, ")"].concat() });
    let x = Opnds::new();
    // fractions of representatives only
    let k = if k == 0 && (t1 == "div" || t2 == "div") { 3 } else { k };
    let (a, b, c) = (x.val(k), x.val(k), x.val(k));
    let go = |p: &Program| run(p, &x.d, &[("a", copy(&a)), ("b", copy(&b)), ("c", copy(&c))]);
    ck!(3, "operators bind as their precedence and associativity say", agree(&go(&p), &go(&q)));
}
fn copy(v: &[Value]) -> Vec<Value> {
    v.iter().map(|x| match x { Value::Integer(n) => Value::Integer(*n), Value::Boolean(b) => Value::Boolean(*b), Value::Node(n) => Value::Node(n.rc_clone()), _ => Value::Other(String::from("?")) }).collect()
}

/// the operand of unary minus, of if, for, let, some, every, and of a comma
#[no_mangle]
pub extern "C-unwind" fn l_scope() {
    let k = vs::param(0);
    let o = vs::pick(OPS.len() as u32);
    let f = vs::param(1) as usize;
    let (t, l, s) = OPS[o];
    let c = if s >= 2 { "" } else { " $c" };
    let e = ["$b ", t, c].concat();
    let g = ["($b ", t, c, ")"].concat();
    let x = Opnds::new();
    let (a, b, c_) = (x.val(k), x.val(k), x.val(k));
    let go = |p: &Program| run(p, &x.d, &[("a", copy(&a)), ("b", copy(&b)), ("c", copy(&c_))]);
    let (flat, full) = match f {
        0 => (["- ", &e].concat(), if l > 14 { ["- ", &g].concat() } else { ["(- $b) ", t, c].concat() }),
        1 => (["if ($a) then 0 else ", &e].concat(), ["if ($a) then 0 else ", &g].concat()),
        2 => (["for $i in 1 to 2 return ", &e].concat(), ["for $i in 1 to 2 return ", &g].concat()),
        3 => (["let $i := ", &e, " return $i"].concat(), ["let $i := ", &g, " return $i"].concat()),
        4 => (["some $i in (1, 2) satisfies ", &e].concat(), ["some $i in (1, 2) satisfies ", &g].concat()),
        5 => (["every $i in ", &e, " satisfies $i"].concat(), ["every $i in ", &g, " satisfies $i"].concat()),
        6 => (["$a, ", &e, ", $a"].concat(), ["($a), ", &g, ", ($a)"].concat()),
        7 => (["for $i in $b return $i, ", &e].concat(), ["(for $i in $b return $i), ", &g].concat()),
        8 => (["if ($a) then ", &e, " else ", &e, ", 1"].concat(), ["(if ($a) then ", &g, " else ", &g, "), 1"].concat()),
        9 => (["count((", &e, ")) , [", &e, "](1)"].concat(), ["count((", &g, ")), [", &g, "](1)"].concat()),
        _ => (["+ - + ", &e].concat(), if l > 14 { ["+ (- (+ ", &g, "))"].concat() } else { ["(- (+ $b)) ", t, c].concat() }),
    };
    let p = compile(&flat);
    ck!(1, "the expression is accepted", p.is_ok());
    let p = match p { Ok(p) => p, Err(_) => return };
    ck!(2, "an expression extends as far to the right as its precedence allows", agree(&go(&p), &go(&prog(&full))));
    // these expressions are no operands
    if s < 2 {
        let w = ["if ($a) then 1 else 2", "for $i in 1 return $i", "let $i := 1 return $i", "some $i in 1 satisfies $i", "every $i in 1 satisfies $i"][f % 5];
        ck_opt!(3, "a condition or quantified expression is no operand", compile(&["$b ", t, " ", w].concat()).is_err());
        ck_opt!(4, "a parenthesised one is", compile(&["$b ", t, " (", w, ")"].concat()).is_ok());
    }
    if l > 14 && s < 2 { ck_opt!(5, "a signed operand stands only below the arrow, map and path operators", compile(&["$b ", t, " - $c"].concat()).is_err()) }
    if l < 10 && s < 2 { ck_opt!(6, "a signed operand", compile(&["$b ", t, " - $c"].concat()).is_ok()) }
}

/// chains whose grouping shows in positions, in contexts or in order: flat, and grouped explicitly
const CHAINS: [(&str, &str); 18] = [
    ("($a, $b) ! (., $c) ! position()", "(($a, $b) ! (., $c)) ! position()"), ("($a, $b) ! (., $c) ! last()", "(($a, $b) ! (., $c)) ! last()"), ("($a, $b) ! (., $c) ! (. + position()) ! (., last())", "((($a, $b) ! (., $c)) ! (. + position())) ! (., last())"),
    ("$a => concat($b) => concat($c)", "($a => concat($b)) => concat($c)"), ("($a, $b) => remove($c) => count()", "(($a, $b) => remove($c)) => count()"), ("$a - $b => abs()", "$a - ($b => abs())"),
    ("a/b/position()", "(a/b)/position()"), ("a ! b/position()", "a ! (b/position())"), ("a/b ! position()", "(a/b) ! position()"), ("a/b[$c]", "a/(b[$c])"), ("(a/b)[$c]", "(for $i in a/b return $i)[$c]"), ("a//b[$c]", "a/descendant-or-self::node()/child::b[$c]"),
    ("a//self::a", "(a/descendant-or-self::node())/self::a"), ("b/..//a", "((b/..)/descendant-or-self::node())/a"), (".//.", "./descendant-or-self::node()/."), ("-$a ! (. - $b)", "-($a ! (. - $b))"), ("a union b except a[$c]", "a union (b except a[$c])"), ("$a to $b ! $c", "$a to ($b ! $c)")];
/// chains of maps, arrows and steps group from the left, predicates bind to their step
#[no_mangle]
pub extern "C-unwind" fn l_assoc() {
    let (f, g) = CHAINS[vs::param(0) as usize];
    let (p, q) = (prog(f), prog(g));
    let d = new_document("<r><a><b/><b/><a/></a><b/><a><a/><b/></a></r>").unwrap();
    let (a, b, c) = (vs::pick(4) as i64, vs::pick(4) as i64, vs::pick(4) as i64);
    let go = |p: &Program| run(p, &d.root_element(), &[("a", vec![Value::Integer(a)]), ("b", vec![Value::Integer(b)]), ("c", vec![Value::Integer(c)])]);
    let r = go(&p);
    ck!(1, "evaluates", r.is_ok());
    ck!(2, "a chain means the grouping of its operators", agree(&r, &go(&q)));
}

const GAPS: [&str; 9] = [" ", "\t", "\n", "\r\n", "(::)", "(: :)", "(:(:x:):)", " (: ) ' :) ", "(:)':)"];
/// white space and comments between tokens change nothing, and superfluous white space can go
#[no_mangle]
pub extern "C-unwind" fn l_space() {
    let c = CORPUS[vs::param(0) as usize];
    let g = GAPS[vs::pick(GAPS.len() as u32)];
    let mut may = false;
    let t = tokens(c.as_bytes(), &mut may).unwrap();
    let p = vs::pick(t.len() as u32 + 1);
    let at = if p == 0 { 0 } else { t[p - 1].e };
    let s = [&c[..at], g, &c[at..]].concat();
    let d = new_document("<r a='1'><a b='c'>1</a><a b='d'>2<c/></a><d/></r>").unwrap();
    let n = d.root_element();
    let q = compile(&s);
    ck!(1, "white space or a comment between two tokens is allowed", q.is_ok());
    ck!(2, "it does not change the value", match q { Ok(q) => agree(&run(&q, &n, &[]), &run(&prog(c), &n, &[])), Err(_) => false });
    // all spaces that are not needed to keep two names apart left out; one space between all tokens
    let (mut tight, mut loose) = (String::new(), String::new());
    for (i, x) in t.iter().enumerate() {
        let w = &c[x.s..x.e];
        let word = |c: char| c.is_ascii_alphanumeric() || c == '.' || c == '_' || c == '-';
        if i > 0 {
            let (l, r) = (tight.chars().last().unwrap(), w.chars().next().unwrap());
            if word(l) && word(r) || l == ':' && (r == '*' || word(r) || r == ':') || l == '*' && r == ':' || word(l) && r == ':' || l == '/' && r == '/' { tight.push(' ') }
            loose.push(' ');
        }
        tight.push_str(w);
        loose.push_str(w);
    }
    let (p, q) = (compile(&tight), compile(&loose));
    ck!(3, "superfluous white space may be left out or put in", p.is_ok() && q.is_ok());
    if let (Ok(p), Ok(q)) = (p, q) { let r = run(&prog(c), &n, &[]); ck!(4, "without changing the value", agree(&run(&p, &n, &[]), &r) && agree(&run(&q, &n, &[]), &r)) }
}

const WORDS: [&str; 58] = ["and", "or", "div", "mod", "idiv", "eq", "ne", "lt", "le", "gt", "ge", "is", "to", "union", "intersect", "except", "instance", "of", "treat", "as", "cast", "castable", "return", "in", "then", "else", "satisfies", "for", "let", "some", "every", "if",
    "map", "array", "function", "item", "node", "text", "comment", "element", "attribute", "processing-instruction", "document-node", "empty-sequence", "namespace-node", "schema-element", "schema-attribute", "switch", "typeswitch", "child", "parent", "self", "descendant", "ancestor-or-self", "following", "preceding-sibling", "namespace", "e"];
const USES: [&str; 90] = ["N", "a/N", "N/a", "//N", "/r/N", "@N", "child::N", "N/@N", "N = N", "N and N", "N or N", "N + 1", "N div N", "N|N", "N * N", "N - N", "(N, N)", "(N)[1]", "N[N]", "N[1]", "N[@N]", "let $N := 1 return $N", "for $N in N return $N", "for $x in N return N", "some $x in N satisfies N", "every $x in (N) satisfies (N)", "if (N) then N else N",
    "map{'N':1}?N", "map{'N':1} ! ?N", "map{'N':1}('N')", "N instance of element(N)", "N instance of element()", "N castable as xs:integer", "N cast as xs:integer?", "count(N)", "N/N/..", "N! N", "self::N", "descendant-or-self::N", "p:N", "N:p", "N is N", "N != N", "N < N", "N <= N", "N > N", "N >= N", "N eq N", "N ne N", "N lt N", "N le N", "N gt N", "N ge N", "a << N", "a >> N", "N || N", "N union N", "N intersect N", "N except N", "1 to N", "- N", "+ N", "1 - N", "1 mod N", "1 idiv N", "[N]", "[1, N]", "array{N}", "map{1: N}", "function(){N}()", "a => count() = N", "N[. = N]", "a[N and N]", "a/(N)", "(N|N)/N", "N != 1 and N", "*/N", "* * N", "a//N", "..//N", "../N", "./N", "@*/N", "a except N/N", "if (N) then N/N else N | N", "N = N/N", "count(N) + count(N)", "a instance of element(N)+", "N treat as item()*", "N || N || N"];
/// every word of the syntax is an ordinary name where a name is expected
#[no_mangle]
pub extern "C-unwind" fn l_word() {
    let u = USES[vs::param(0) as usize];
    let w = WORDS[vs::pick(WORDS.len() as u32)];
    let mk = |n: &str| u.replace("N", n);
    let docm = |n: &str| new_document(&"<r xmlns:p='u'><N N='1'>1<a/></N><a><N><a/></N></a></r>".replace("N", n)).unwrap();
    let (p, q) = (compile(&mk(w)), prog(&mk("zz")));
    ck!(1, "a word of the syntax may be a name", p.is_ok());
    let p = match p { Ok(p) => p, Err(_) => return };
    let (d, e) = (docm(w), docm("zz"));
    let (r, s) = (run(&p, &d.root_element(), &[]), run(&q, &e.root_element(), &[]));
    let flat = |r: &R| -> Option<Vec<(u32, i64, String)>> { match r { Err(_) => None, Ok(v) => Some(v.iter().map(|x| match x { Value::Node(n) => (0, n.document_order(), n.to_string().replace(w, "zz")), Value::Integer(n) => (1, *n, String::new()), Value::Boolean(b) => (2, *b as i64, String::new()), Value::Str(s) => (3, 0, s.clone()), _ => (4, 0, String::new()) }).collect()) } };
    ck!(2, "and selects what any other name would", flat(&r).is_some() == flat(&s).is_some() && if u.contains("'N'") || flat(&r).is_none() { true } else { match (&r, &s) { (Ok(x), Ok(y)) => x.len() == y.len() && flat(&r).map(|v| v.iter().map(|t| (t.0, t.1)).collect::<Vec<_>>()) == flat(&s).map(|v| v.iter().map(|t| (t.0, t.1)).collect::<Vec<_>>()), _ => false } });
}

/// literals denote exactly what they spell
#[no_mangle]
pub extern "C-unwind" fn l_lit() {
    let n = vs::param(1) as usize;
    let d = doc();
    match vs::param(0) {
        0 => {
            // a string literal: the delimiter is doubled inside, nothing else is special
            let q = ['\'', '"'][vs::pick(2)];
            let s = vs::ascii_n(n);
            let mut t = String::new();
            t.push(q);
            for c in s.chars() { t.push(c); if c == q { t.push(q) } }
            t.push(q);
            let r = compile(&t).and_then(|p| run(&p, &d, &[]));
            ck!(1, "a string literal is its text with doubled delimiters single", is_str(&r, &s));
            let r = compile(&["(", &t, " , 1)[1]"].concat()).and_then(|p| run(&p, &d, &[]));
            ck!(2, "and ends at its delimiter", is_str(&r, &s));
        }
        1 => {
            // 2^63 - 1 = 9223372036854775807
            let s = ["92233720368547758070"[..vs::param(2) as usize].to_string(), vs::string_n(b"0123456789", n)].concat();
            let mut v: i128 = 0;
            for c in s.bytes() { v = v * 10 + (c - b'0') as i128; }
            let r = compile(&s).and_then(|p| run(&p, &d, &[]));
            ck!(3, "an integer literal is its number, or an error beyond 64 bits", if v <= i64::max_value() as i128 { is_int(&r, v as i64) } else { r.is_err() });
        }
        _ => {
            // one or two Unicode characters of any length in a literal or a comment
            let u = vs::uchar(2 + vs::pick(3));
            let r = compile(&["'a", &u, "b'"].concat()).and_then(|p| run(&p, &d, &[]));
            ck!(4, "any character may stand in a string literal", is_str(&r, &["a", &u, "b"].concat()));
            let r = compile(&["1 (:", &u, ":) + 1"].concat()).and_then(|p| run(&p, &d, &[]));
            ck!(5, "and in a comment", is_int(&r, 2));
        }
    }
}
