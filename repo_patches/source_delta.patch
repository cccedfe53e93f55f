From e49c4a8a945bfd7b9ef823e43c125143f9e9752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 01/90] verif: guarded hook (cfg amxml_verif) to evaluate an
 XPath with bound variables and typed results

---
 src/lib.rs             |   2 +
 src/verif.rs           | 112 +++++++++++++++++++++++++++++++++++++++++
 src/xpath_impl/eval.rs |  15 ++++++
 3 files changed, 129 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 2a83335..3fcb357 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -140,6 +140,8 @@
 pub mod xmlerror;
 pub mod sax;
 pub mod dom;
+#[cfg(amxml_verif)]
+pub mod verif;
 
 pub mod xpath;
 mod xpath_impl {
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..1ca0c83
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,112 @@
+//
+// verif.rs
+//
+// Verification hook: built only with `--cfg amxml_verif`.
+// Evaluates an XPath with externally bound variables, and hands over
+// the typed items of the result.
+//
+
+use std::error::Error;
+
+use dom::*;
+use xpath_impl::eval::*;
+use xpath_impl::parser::*;
+use xpath_impl::xitem::*;
+use xpath_impl::xsequence::*;
+
+pub enum Value {
+    Integer(i64),
+    Decimal(f64),
+    Double(f64),
+    Str(String),
+    Boolean(bool),
+    Node(NodePtr),
+    Array(Vec<Vec<Value>>),
+    Map(Vec<(Value, Vec<Value>)>),
+    Other(String),
+}
+
+pub struct Program {
+    xnode: XNodePtr,
+}
+
+pub fn compile(xpath: &str) -> Result<Program, Box<Error>> {
+    return Ok(Program{ xnode: compile_xpath(&String::from(xpath))? });
+}
+
+pub fn run(program: &Program, node: &NodePtr, vars: &[(&str, Vec<Value>)])
+                                    -> Result<Vec<Value>, Box<Error>> {
+    let mut v: Vec<(String, XSequence)> = vec!{};
+    for &(name, ref items) in vars.iter() {
+        v.push((String::from(name), to_xsequence(items)));
+    }
+    let result = match_xpath_with_vars(node, &program.xnode, &v)?;
+    return Ok(from_xsequence(&result));
+}
+
+fn to_xsequence(items: &Vec<Value>) -> XSequence {
+    let mut seq = new_xsequence();
+    for item in items.iter() {
+        seq.push(&to_xitem(item));
+    }
+    return seq;
+}
+
+fn to_xitem(item: &Value) -> XItem {
+    match *item {
+        Value::Integer(n) => new_xitem_integer(n),
+        Value::Decimal(n) => new_xitem_decimal(n),
+        Value::Double(n) => new_xitem_double(n),
+        Value::Str(ref s) => new_xitem_string(s),
+        Value::Boolean(b) => new_xitem_boolean(b),
+        Value::Node(ref node) => new_xitem_node(node),
+        Value::Array(ref v) => {
+            let a: Vec<XSequence> = v.iter().map(|s| to_xsequence(s)).collect();
+            new_xitem_array(&a)
+        },
+        Value::Map(ref v) => {
+            let m: Vec<(XItem, XSequence)> = v.iter().map(
+                            |e| (to_xitem(&e.0), to_xsequence(&e.1))).collect();
+            new_xitem_map(&m)
+        },
+        Value::Other(ref s) => new_xitem_string(s),
+    }
+}
+
+fn from_xsequence(seq: &XSequence) -> Vec<Value> {
+    return seq.iter().map(|item| from_xitem(item)).collect();
+}
+
+fn from_xitem(item: &XItem) -> Value {
+    match *item {
+        XItem::XIInteger{value} => Value::Integer(value),
+        XItem::XIDecimal{value} => Value::Decimal(value),
+        XItem::XIDouble{value} => Value::Double(value),
+        XItem::XIString{ref value} => Value::Str(value.clone()),
+        XItem::XIBoolean{value} => Value::Boolean(value),
+        XItem::XINode{ref value} => Value::Node(value.rc_clone()),
+        XItem::XIArray{ref value} => {
+            let mut v: Vec<Vec<Value>> = vec!{};
+            for i in 0 .. value.array_size() {
+                let index = new_xitem_integer(i as i64 + 1);
+                v.push(match value.array_get(&index) {
+                    Some(s) => from_xsequence(&s),
+                    None => vec!{ Value::Other(String::from("?")) },
+                });
+            }
+            Value::Array(v)
+        },
+        XItem::XIMap{ref value} => {
+            let mut v: Vec<(Value, Vec<Value>)> = vec!{};
+            for key in value.map_keys().iter() {
+                let val = match value.map_get(key) {
+                    Some(s) => from_xsequence(&s),
+                    None => vec!{ Value::Other(String::from("?")) },
+                };
+                v.push((from_xitem(key), val));
+            }
+            Value::Map(v)
+        },
+        XItem::XItemXNodePtr{value: _} => Value::Other(String::from("function")),
+    }
+}
diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 7361426..bda0cdf 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -176,6 +176,21 @@ pub fn match_xpath(start_node: &NodePtr, xnode: &XNodePtr) -> Result<XSequence,
     return evaluate_xnode(&start_xsequence, xnode, &mut eval_env);
 }
 
+// ---------------------------------------------------------------------
+// 検証用: 変数を束縛した上で評価する。
+//
+#[cfg(amxml_verif)]
+pub fn match_xpath_with_vars(start_node: &NodePtr, xnode: &XNodePtr,
+        vars: &Vec<(String, XSequence)>) -> Result<XSequence, Box<Error>> {
+
+    let mut eval_env = new_eval_env();
+    for &(ref name, ref value) in vars.iter() {
+        eval_env.set_var(name, value);
+    }
+    let start_xsequence = new_singleton_node(start_node);
+    return evaluate_xnode(&start_xsequence, xnode, &mut eval_env);
+}
+
 // ---------------------------------------------------------------------
 // あるXMLノードに対して、XPath構文木のあるノードを適用し、評価結果を返す。
 //
-- 
2.43.0


From 56bc6b2862ea9638290586eedb898c829b93bb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 02/90] fix: start/end tags without a name, and anything but
 attributes inside a start tag, are syntax errors

'<a' at end of input looped forever, '<>' and '</>' were accepted as
nameless elements, and an attribute following another one without a
space was dropped silently.
---
 src/sax.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sax.rs b/src/sax.rs
index 6c8d53b..02f2d3c 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -187,6 +187,9 @@ impl SaxDecoder {
             } else if ch == '/' {              // End Element: </foo>
                 let name = self.get_name();
                 self.get_until_ch('>')?;
+                if name == "" {
+                    return Err(xml_syntax_error!("Element name missing after </"));
+                }
                 return Ok(XmlToken::EndElement{name});
 
             // ---------------------------------------------------------
@@ -246,6 +249,9 @@ impl SaxDecoder {
             } else {                    // Start Element
                 self.ungetchar();
                 let name = self.get_name();
+                if name == "" {
+                    return Err(xml_syntax_error!("Element name missing after <"));
+                }
                 let mut attr = vec!{};
                 loop {
                     self.skip_spaces();
@@ -270,6 +276,7 @@ impl SaxDecoder {
                             self.get_until_ch('>')?;
                             return Err(xml_syntax_error!("attr_name: no Eq"));
                         }
+                        continue;
                     }
                     ch = self.getchar();
                     if ch == '>' {
@@ -282,6 +289,10 @@ impl SaxDecoder {
                         } else {
                             return Err(xml_syntax_error!("illegal char after /"));
                         }
+                    } else if ch == EOF {
+                        return Err(xml_syntax_error!("Unexpected EOF in start tag"));
+                    } else {
+                        return Err(xml_syntax_error!("illegal char in start tag"));
                     }
                 }
                 return Ok(XmlToken::StartElement{name, attr});
-- 
2.43.0


From 381851dcec2176ee46d9cd2dc82a59ccc0d99da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 03/90] fix: decode each entity or character reference exactly
 once

'&#38;lt;' was decoded twice into '<', and '&#0;' produced a NUL that
the parser itself takes for the end of input.
---
 src/sax.rs | 74 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/src/sax.rs b/src/sax.rs
index 02f2d3c..a6da1f4 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -882,47 +882,55 @@ fn char_is_in_ranges(ch: char, ch_ranges: &[(u32, u32)]) -> bool {
 // [68] EntityRef ::= '&' Name ';'              // 実体参照
 //
 fn decode_entity(s: &String) -> String {
+    let entity_specs = [
+        ( "&gt;", ">" ),
+        ( "&lt;", "<" ),
+        ( "&quot;", "\"" ),
+        ( "&apos;", "'" ),
+        ( "&amp;", "&" ),
+    ];
 
     // -----------------------------------------------------------------
+    // 先頭から順に一度だけデコードする。
+    // デコード結果に現れた「&」を、再び参照の始まりと見做してはならない。
     //
-    let mut buf = s.clone();
-    for (pattern, radix) in [("&#x", 16), ("&#", 10)].iter() {
-        loop {
-            let ss = buf.clone();
-            let v: Vec<&str> = ss.splitn(2, pattern).collect();
-            if v.len() != 2 {
-                break;
-            }
+    let mut buf = String::new();
+    let mut rest: &str = s.as_str();
+    while let Some(pos) = rest.find('&') {
+        buf.push_str(&rest[.. pos]);
+        rest = &rest[pos ..];
 
-            let w: Vec<&str> = v[1].splitn(2, ";").collect();
-            if w.len() != 2 {
-                break;
-            }
-
-            let head = v[0];
-            let entity = w[0];
-            let tail = w[1];
+        if let Some(spec) = entity_specs.iter().find(|spec| rest.starts_with(spec.0)) {
+            buf.push_str(spec.1);
+            rest = &rest[spec.0.len() ..];
+            continue;
+        }
 
-            let u = u32::from_str_radix(&entity, *radix as u32).unwrap_or(0x3013);
+        let (prefix_len, radix) = if rest.starts_with("&#x") {
+            (3, 16)
+        } else if rest.starts_with("&#") {
+            (2, 10)
+        } else {
+            (0, 0)
+        };
+        match rest.find(';') {
+            Some(end) if prefix_len != 0 => {
+                let u = u32::from_str_radix(&rest[prefix_len .. end], radix)
+                                        .unwrap_or(0x3013);
                                                             // \u3013 = '〓'
-            let ch = char::from_u32(u).unwrap_or('〓');
-            buf = format!("{}{}{}", &head, ch, &tail);
+                buf.push(match char::from_u32(u) {
+                    Some(EOF) | None => '〓',
+                    Some(ch) => ch,
+                });
+                rest = &rest[end + 1 ..];
+            },
+            _ => {
+                buf.push('&');
+                rest = &rest[1 ..];
+            },
         }
     }
-
-    // -----------------------------------------------------------------
-    //
-    let entity_specs = [
-        [ "&gt;", ">" ],
-        [ "&lt;", "<" ],
-        [ "&quot;", "\"" ],
-        [ "&apos;", "'" ],
-        [ "&amp;", "&" ],
-    ];
-    for spec in entity_specs.iter() {
-        buf = buf.replace(spec[0], spec[1]);
-    }
-
+    buf.push_str(rest);
     return buf;
 }
 
-- 
2.43.0


From b013cbb0657390b08b88b1f75fb7bf8c3af9117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 04/90] fix: serialise a carriage return as a character
 reference

The parser drops raw carriage returns, so the value was lost when the
serialised document was read again.
---
 src/dom.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dom.rs b/src/dom.rs
index 196d2d4..26a53dd 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1003,6 +1003,7 @@ fn encode_entity(s: &String) -> String {
         [ "<", "&lt;" ],
         [ "\"", "&quot;" ],
         [ "'", "&apos;" ],
+        [ "\r", "&#13;" ],
     ];
     let mut str = s.clone();
     for spec in specs.iter() {
-- 
2.43.0


From e84867bcd144753c21b9450cd3baa6f9dc45e561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 05/90] fix: a node whose document has been dropped has no
 parent, instead of panicking

---
 src/dom.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 26a53dd..613cda1 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -440,10 +440,11 @@ impl NodePtr {
             if let Some(value) = val {
                 return value.clone();
             }
-            curr = match (*curr).parent {
-                Some(ref p) => p.borrow().upgrade().unwrap(),
+            let parent = match wrap_rc_clone(&curr).parent() {
+                Some(p) => p,
                 None => return String::new(),
             };
+            curr = parent.unwrap_rc();
         }
         return String::new();
     }
@@ -464,13 +465,11 @@ impl NodePtr {
     /// ```
     ///
     pub fn root(&self) -> NodePtr {
-        let mut curr = self.unwrap_rc();
-        loop {
-            curr = match (*curr).parent {
-                Some(ref p) => p.borrow().upgrade().unwrap(),
-                None => return wrap_rc_clone(&curr),
-            };
+        let mut curr = self.rc_clone();
+        while let Some(parent) = curr.parent() {
+            curr = parent;
         }
+        return curr;
     }
 
     // =================================================================
@@ -501,7 +500,8 @@ impl NodePtr {
 
     // =================================================================
     /// Returns the parent of the 'node', or None
-    /// if 'node' has no parent (i.e. is DocumentRoot).
+    /// if 'node' has no parent (i.e. is DocumentRoot,
+    /// or the document which the node belonged to is already dropped).
     ///
     /// # Examples
     ///
@@ -517,8 +517,10 @@ impl NodePtr {
     pub fn parent(&self) -> Option<NodePtr> {
         match self.unwrap_rc().parent {
             Some(ref p) => {
-                let parent_node = p.borrow().upgrade().unwrap();
-                return Some(wrap_rc_clone(&parent_node));
+                match p.borrow().upgrade() {
+                    Some(parent_node) => return Some(wrap_rc_clone(&parent_node)),
+                    None => return None,
+                }
             },
             None => return None,
         }
-- 
2.43.0


From 9014a33fa9aa745181e178a206f2e61a84eca74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 06/90] fix: inserting a sibling copies the whole subtree

The copy shared its children and attributes with the inserted node, so
that their parent() was still the original one: document order and
XPath axes were wrong below an inserted node, and panicked once the
original document was dropped.
---
 src/dom.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 613cda1..c36944e 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -240,14 +240,21 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
 }
 
 // ---------------------------------------------------------------------
+// source以下の木全体を複製し、親をparentとする。
+// 子・属性の親も、複製された側のノードでなければならない。
 //
-fn shallow_copy_rc_rels(target: &mut RcNode, source: &RcNode) {
+fn copy_rc_tree(source: &RcNode, parent: &mut RcNode) -> RcNode {
+    let mut target = make_new_rc_node(source.node_type.clone(),
+                Some(parent), &source.name, &source.value);
     for ch in source.children.borrow().iter() {
-        target.children.borrow_mut().push(Rc::clone(ch));
+        let ch_dup = copy_rc_tree(ch, &mut target);
+        target.children.borrow_mut().push(ch_dup);
     }
     for at in source.attributes.borrow().iter() {
-        target.attributes.borrow_mut().push(Rc::clone(at));
+        let at_dup = copy_rc_tree(at, &mut target);
+        target.attributes.borrow_mut().push(at_dup);
     }
+    return target;
 }
 
 // =====================================================================
@@ -653,13 +660,8 @@ impl NodePtr {
             let mut rc_parent = parent.unwrap_rc();
             let rc_new_node = new_node.unwrap_rc();
 
-            let mut rc_new_node_dup = make_new_child_rc_node(
-                rc_new_node.node_type.clone(),
-                &mut rc_parent,
-                &rc_new_node.name,
-                &rc_new_node.value,
-                n);
-            shallow_copy_rc_rels(&mut rc_new_node_dup, &rc_new_node);
+            let rc_new_node_dup = copy_rc_tree(&rc_new_node, &mut rc_parent);
+            rc_parent.children.borrow_mut().insert(n, rc_new_node_dup);
         }
         self.clear_document_order();
     }
@@ -697,13 +699,8 @@ impl NodePtr {
             let mut rc_parent = parent.unwrap_rc();
             let rc_new_node = new_node.unwrap_rc();
 
-            let mut rc_new_node_dup = make_new_child_rc_node(
-                rc_new_node.node_type.clone(),
-                &mut rc_parent,
-                &rc_new_node.name,
-                &rc_new_node.value,
-                n + 1);
-            shallow_copy_rc_rels(&mut rc_new_node_dup, &rc_new_node);
+            let rc_new_node_dup = copy_rc_tree(&rc_new_node, &mut rc_parent);
+            rc_parent.children.borrow_mut().insert(n + 1, rc_new_node_dup);
         }
         self.clear_document_order();
     }
-- 
2.43.0


From b3ba5d5339f677890246a697f6b8d985a616face Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 07/90] fix: append_child() moves the node, and delete_child()
 detaches it

parent(), root() and document_order() of an appended node still answered
for the place it came from (or panicked when that document was dropped),
and appending a node to one of its own descendants made a cycle.
---
 src/dom.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index c36944e..842d34a 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -598,7 +598,9 @@ impl NodePtr {
 
     // =================================================================
     /// Appends the node tree 'new_child' as the last child of
-    /// the element node.
+    /// the element node. The tree is moved from its old place, if any.
+    /// Nothing happens when 'new_child' is the element node itself or
+    /// one of its ancestors.
     ///
     /// # Examples
     ///
@@ -621,8 +623,22 @@ impl NodePtr {
     /// ```
     ///
     pub fn append_child(&self, new_child: &NodePtr) {
+        let mut ancestor = Some(self.rc_clone());
+        while let Some(node) = ancestor {
+            if node == *new_child {
+                return;             // 自分自身や祖先を子にすることはできない。
+            }
+            ancestor = node.parent();
+        }
+
+        if let Some(old_parent) = new_child.parent() {
+            old_parent.delete_child(new_child);
+        }
         let rc_self = self.unwrap_rc();
         let rc_new_child = new_child.unwrap_rc();
+        if let Some(ref p) = rc_new_child.parent {
+            *p.borrow_mut() = Rc::downgrade(&rc_self);
+        }
         rc_self.children.borrow_mut().push(Rc::clone(&rc_new_child));
         self.clear_document_order();
     }
@@ -730,7 +746,11 @@ impl NodePtr {
         let n = self.find_child_index(target);
         if n != usize::MAX {
             let rc_node = self.unwrap_rc();
-            (*rc_node).children.borrow_mut().remove(n);
+            let removed = (*rc_node).children.borrow_mut().remove(n);
+            if let Some(ref p) = removed.parent {
+                *p.borrow_mut() = Weak::new();
+            }
+            removed.order.set(0);
         }
         self.clear_document_order();
     }
-- 
2.43.0


From de263aaf7cb68e2582745f748248ac9e87ad8374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 08/90] fix: an element left open at the end of input is a
 syntax error

---
 src/dom.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 842d34a..a8cce37 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -183,6 +183,11 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
     loop {
         match dec.raw_token() {
             Ok(XmlToken::EOF) => {
+                if curr_node.node_type != NodeType::DocumentRoot {
+                    return Err(xml_syntax_error!(
+                        "Unexpected EOF: element {} is not closed",
+                        curr_node.name.as_str()));
+                }
                 break;
             },
             Ok(XmlToken::StartElement{name, attr}) => {
-- 
2.43.0


From 66eb3227d2a78b63a70a07ea9b255828ad1ad89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 09/90] fix: integer arithmetic reports overflow as a dynamic
 error instead of panicking or wrapping

---
 src/xpath_impl/xitem.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 573f0a8..8a92614 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -813,21 +813,21 @@ pub fn xitem_compare(lhs: &XItem, rhs: &XItem) -> Result<i64, Box<Error>> {
 //
 pub fn xitem_numeric_add(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a + b },
+                |a, b| { a.checked_add(b) },
                 |a, b| { a + b },
                 |a, b| { a + b });
 }
 
 pub fn xitem_numeric_subtract(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a - b },
+                |a, b| { a.checked_sub(b) },
                 |a, b| { a - b },
                 |a, b| { a - b });
 }
 
 pub fn xitem_numeric_multiply(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a * b },
+                |a, b| { a.checked_mul(b) },
                 |a, b| { a * b },
                 |a, b| { a * b });
 }
@@ -853,7 +853,7 @@ pub fn xitem_numeric_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error
         _ => return Err(cant_occur!("xitem_numeric_divide: rhs_a")),
     };
     return xitem_numeric_operation(lhs, &rhs_a,
-                |a, b| { a / b },
+                |a, b| { a.checked_div(b) },
                 |a, b| { a / b },
                 |a, b| { a / b });
 }
@@ -894,7 +894,10 @@ pub fn xitem_numeric_integer_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, B
         _ => 0,
     };
     if rhs != 0 {
-        return Ok(new_xitem_integer(lhs / rhs));
+        return match lhs.checked_div(rhs) {
+            Some(n) => Ok(new_xitem_integer(n)),
+            None => Err(dynamic_error!("Numeric operation overflow/underflow.")),
+        };
     } else {
         return Err(dynamic_error!("Division by zero"));
     }
@@ -918,7 +921,7 @@ pub fn xitem_numeric_mod(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>>
     }
 
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a.rem(b) },
+                |a, b| { Some(a.wrapping_rem(b)) },
                 |a, b| { a.rem(b) },
                 |a, b| { a.rem(b) });
 }
@@ -938,7 +941,12 @@ pub fn xitem_numeric_unary_plus(arg: &XItem) -> Result<XItem, Box<Error>> {
 //
 pub fn xitem_numeric_unary_minus(arg: &XItem) -> Result<XItem, Box<Error>> {
     match arg {
-        XItem::XIInteger{value} => return Ok(new_xitem_integer(value.neg())),
+        XItem::XIInteger{value} => {
+            return match value.checked_neg() {
+                Some(n) => Ok(new_xitem_integer(n)),
+                None => Err(dynamic_error!("Numeric operation overflow/underflow.")),
+            };
+        },
         XItem::XIDecimal{value} => return Ok(new_xitem_decimal(value.neg())),
         XItem::XIDouble{value} => return Ok(new_xitem_double(value.neg())),
         _ => return Err(type_error!("xitem_numeric_operation: Not numeric")),
@@ -951,7 +959,7 @@ pub fn xitem_numeric_unary_minus(arg: &XItem) -> Result<XItem, Box<Error>> {
 //
 fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
         mut int_op: FINT, mut dec_op: FDEC, mut dbl_op: FDBL) -> Result<XItem, Box<Error>>
-        where FINT: FnMut(i64, i64) -> i64,
+        where FINT: FnMut(i64, i64) -> Option<i64>,
               FDEC: FnMut(f64, f64) -> f64,
               FDBL: FnMut(f64, f64) -> f64 {
 
@@ -959,7 +967,10 @@ fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
         XItem::XIInteger{value: lhs} => {
             match rhs {
                 XItem::XIInteger{value: rhs} => {
-                    return Ok(new_xitem_integer(int_op(*lhs, *rhs)));
+                    return match int_op(*lhs, *rhs) {
+                        Some(n) => Ok(new_xitem_integer(n)),
+                        None => Err(dynamic_error!("Numeric operation overflow/underflow.")),
+                    };
                 },
                 XItem::XIDecimal{value: rhs} => {
                     return Ok(new_xitem_decimal(dec_op(int_to_dec(*lhs), *rhs)));
-- 
2.43.0


From 5156065658ac69caf10e308f7ee90255f6999546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 10/90] fix: abs() of the smallest integer is an overflow
 error, not a panic

---
 src/xpath_impl/func.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index e7e956d..6d415d8 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -436,7 +436,7 @@ fn fn_data(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_abs(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a.abs() },
+                |a| { a.checked_abs() },
                 |a| { a.abs() },
                 |a| { a.abs() });
 }
@@ -448,7 +448,7 @@ fn fn_abs(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_ceiling(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
+                |a| { Some(a) },
                 |a| { a.ceil() },
                 |a| { ceil_x(a) });
 }
@@ -460,7 +460,7 @@ fn fn_ceiling(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_floor(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
+                |a| { Some(a) },
                 |a| { a.floor() },
                 |a| { floor_x(a) });
 }
@@ -472,7 +472,7 @@ fn fn_floor(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_round(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
+                |a| { Some(a) },
                 |a| { (a + 0.5).floor() },
                         // a.round() ではない。
                         // round(-2.5) => -2 となるようにするため。
@@ -512,13 +512,16 @@ fn round_x(num: f64) -> f64 {
 //
 fn fn_numeric_unary<FINT, FDEC, FDBL>(args: &Vec<&XSequence>,
         mut int_op: FINT, mut dec_op: FDEC, mut dbl_op: FDBL) -> Result<XSequence, Box<Error>>
-        where FINT: FnMut(i64) -> i64,
+        where FINT: FnMut(i64) -> Option<i64>,
               FDEC: FnMut(f64) -> f64,
               FDBL: FnMut(f64) -> f64 {
     if let Ok(arg) = args[0].get_singleton_item() {
         match arg {
             XItem::XIInteger{value: arg} => {
-                return Ok(new_singleton_integer(int_op(arg)));
+                return match int_op(arg) {
+                    Some(n) => Ok(new_singleton_integer(n)),
+                    None => Err(dynamic_error!("Numeric operation overflow/underflow.")),
+                };
             },
             XItem::XIDecimal{value: arg} => {
                 return Ok(new_singleton_decimal(dec_op(arg)));
-- 
2.43.0


From db877d3e257ca4bcbb50b81f01a12bc8c518afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 11/90] fix: round() is exact for values whose sum with 0.5 is
 not representable

---
 src/xpath_impl/func.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 6d415d8..335f5cc 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -473,7 +473,7 @@ fn fn_floor(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 fn fn_round(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
                 |a| { Some(a) },
-                |a| { (a + 0.5).floor() },
+                |a| { round_half_up(a) },
                         // a.round() ではない。
                         // round(-2.5) => -2 となるようにするため。
                 |a| { round_x(a) });
@@ -504,7 +504,19 @@ fn round_x(num: f64) -> f64 {
        (-0.5 <= num && num < 0.0) {
         return 1.0 / f64::NEG_INFINITY;                 // 負のゼロ
     } else {
-        return (num + 0.5).floor();
+        return round_half_up(num);
+    }
+}
+
+// 「(num + 0.5).floor()」では、加算の丸め誤差により隣の整数になることがある。
+// num - num.floor() には誤差がない。
+//
+fn round_half_up(num: f64) -> f64 {
+    let floor = num.floor();
+    if num - floor >= 0.5 {
+        return floor + 1.0;
+    } else {
+        return floor;
     }
 }
 
-- 
2.43.0


From fc14e2a03895c079be0ba09f267ac7a5396dcab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:46 +0000
Subject: [PATCH 12/90] fix: abs/ceiling/floor/round/number report a type error
 instead of dropping an unsuitable argument

---
 src/xpath_impl/func.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 335f5cc..d79357f 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -527,8 +527,8 @@ fn fn_numeric_unary<FINT, FDEC, FDBL>(args: &Vec<&XSequence>,
         where FINT: FnMut(i64) -> Option<i64>,
               FDEC: FnMut(f64) -> f64,
               FDBL: FnMut(f64) -> f64 {
-    if let Ok(arg) = args[0].get_singleton_item() {
-        match arg {
+    if ! args[0].is_empty() {
+        match args[0].get_singleton_item()? {
             XItem::XIInteger{value: arg} => {
                 return match int_op(arg) {
                     Some(n) => Ok(new_singleton_integer(n)),
@@ -541,7 +541,7 @@ fn fn_numeric_unary<FINT, FDEC, FDBL>(args: &Vec<&XSequence>,
             XItem::XIDouble{value: arg} => {
                 return Ok(new_singleton_double(dbl_op(arg)));
             },
-            _ => {},
+            _ => return Err(type_error!("{}: Not numeric", args[0].to_string())),
         }
     }
     return Ok(new_xsequence());
@@ -561,10 +561,7 @@ fn fn_number(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     if args[0].is_empty() {
         return Ok(new_singleton_double(f64::NAN));
     }
-    let mut result = 0.0;
-    if let Ok(arg) = args[0].get_singleton_item() {
-        result = arg.get_as_raw_double()?;
-    }
+    let result = args[0].get_singleton_item()?.get_as_raw_double()?;
     return Ok(new_singleton_double(result));
 }
 
-- 
2.43.0


From 117d77843b94660cc0d33f6688aeac2c3561e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 13/90] fix: idiv truncates the quotient, not its operands, and
 rejects operands that are not numbers

---
 src/xpath_impl/xitem.rs | 46 +++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 8a92614..aa93b25 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -33,6 +33,16 @@ fn f64_to_i64(f: f64) -> i64 {
     return f as i64;
 }
 
+// 0方向に丸めた値がi64で表せないとき (NaN、INFを含む) はNone。
+//
+fn checked_f64_to_i64(f: f64) -> Option<i64> {
+    if -9223372036854775808.0 <= f && f < 9223372036854775808.0 {
+        return Some(f as i64);
+    } else {
+        return None;
+    }
+}
+
 fn i64_to_f64(n: i64) -> f64 {
     return n as f64;
 }
@@ -881,17 +891,22 @@ pub fn xitem_numeric_integer_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, B
         _ => {},
     }
 
-    let lhs = match lhs {
-        XItem::XIInteger{value} => *value,
-        XItem::XIDecimal{value} => f64_to_i64(*value),
-        XItem::XIDouble{value} => f64_to_i64(*value),
-        _ => 0,
-    };
-    let rhs = match rhs {
-        XItem::XIInteger{value} => *value,
-        XItem::XIDecimal{value} => f64_to_i64(*value),
-        XItem::XIDouble{value} => f64_to_i64(*value),
-        _ => 0,
+    // 整数どうしでない場合は、商を求めてから0方向に丸める
+    // (オペランドを先に整数に丸めると、「1.5 idiv 0.5」が3にならない)。
+    //
+    let lhs_dbl = xitem_numeric_value(lhs)?;
+    let rhs_dbl = xitem_numeric_value(rhs)?;
+    let (lhs, rhs) = match (lhs, rhs) {
+        (XItem::XIInteger{value: lhs}, XItem::XIInteger{value: rhs}) => (*lhs, *rhs),
+        _ => {
+            if rhs_dbl == 0.0 {
+                return Err(dynamic_error!("Division by zero"));
+            }
+            return match checked_f64_to_i64(lhs_dbl / rhs_dbl) {
+                Some(n) => Ok(new_xitem_integer(n)),
+                None => Err(dynamic_error!("Numeric operation overflow/underflow.")),
+            };
+        },
     };
     if rhs != 0 {
         return match lhs.checked_div(rhs) {
@@ -903,6 +918,15 @@ pub fn xitem_numeric_integer_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, B
     }
 }
 
+fn xitem_numeric_value(item: &XItem) -> Result<f64, Box<Error>> {
+    match item {
+        XItem::XIInteger{value} => return Ok(i64_to_f64(*value)),
+        XItem::XIDecimal{value} => return Ok(*value),
+        XItem::XIDouble{value} => return Ok(*value),
+        _ => return Err(type_error!("xitem_numeric_operation: Not numeric")),
+    }
+}
+
 // ---------------------------------------------------------------------
 //
 pub fn xitem_numeric_mod(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
-- 
2.43.0


From db44f62d40c6a01d21ce28eb3da6ccf983f484c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 14/90] fix: cast/castable reject strings and numbers that have
 no value in the target numeric type

---
 src/xpath_impl/xitem.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index aa93b25..09e04d4 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -562,17 +562,19 @@ impl XItem {
                 }
             },
             "double" | "xs:double" => {
-                if let Ok(d) = self.get_as_raw_double() {
+                if let Some(d) = self.cast_to_f64() {
                     return Ok(new_xitem_double(d));
                 }
             },
             "decimal" | "xs:decimal" => {
-                if let Ok(d) = self.get_as_raw_decimal() {
-                    return Ok(new_xitem_decimal(d));
+                if let Some(d) = self.cast_to_f64() {
+                    if d.is_finite() {              // NaN、INFはdecimalにない
+                        return Ok(new_xitem_decimal(d));
+                    }
                 }
             },
             "integer" | "xs:integer" => {
-                if let Ok(i) = self.get_as_raw_integer() {
+                if let Some(i) = self.cast_to_i64() {
                     return Ok(new_xitem_integer(i));
                 }
             },
@@ -587,6 +589,26 @@ impl XItem {
                                 self.to_string(), type_name));
     }
 
+    // -----------------------------------------------------------------
+    // 数値へのキャスト。数値を表さない文字列、
+    // また、整数についてはi64で表せない値の場合、None。
+    //
+    fn cast_to_f64(&self) -> Option<f64> {
+        match self.atomize() {
+            XItem::XIString{value} => return f64::from_str(value.trim()).ok(),
+            item => return item.get_as_raw_double().ok(),
+        }
+    }
+
+    fn cast_to_i64(&self) -> Option<i64> {
+        match self.atomize() {
+            XItem::XIString{value} => return i64::from_str(value.trim()).ok(),
+            XItem::XIDecimal{value} => return checked_f64_to_i64(value),
+            XItem::XIDouble{value} => return checked_f64_to_i64(value),
+            item => return item.get_as_raw_integer().ok(),
+        }
+    }
+
     // -----------------------------------------------------------------
     //
     pub fn get_as_raw_xnodeptr(&self) -> Result<XNodePtr, Box<Error>> {
-- 
2.43.0


From 0f4b99bf7a67a24762108b53b64f11bbb1e308bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 15/90] fix: le, ge, <= and >= are false when an operand is
 NaN; ne, le and ge on an empty operand are empty

---
 src/xpath_impl/oper.rs      |  8 ++++++++
 src/xpath_impl/xitem.rs     | 16 ++++++++++++++++
 src/xpath_impl/xsequence.rs | 22 ++++++++++++++--------
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index ca093de..f960b91 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -89,6 +89,14 @@ pub fn op_numeric_greater_than(args: &Vec<&XSequence>) -> Result<XSequence, Box<
     return op_numeric_comparison(args, xitem_numeric_greater_than);
 }
 
+pub fn op_numeric_less_than_or_equal(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
+    return op_numeric_comparison(args, xitem_numeric_less_than_or_equal);
+}
+
+pub fn op_numeric_greater_than_or_equal(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
+    return op_numeric_comparison(args, xitem_numeric_greater_than_or_equal);
+}
+
 // ---------------------------------------------------------------------
 //
 fn op_numeric_comparison<F>(args: &Vec<&XSequence>, mut func_op: F) -> Result<XSequence, Box<Error>>
diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 09e04d4..a8e3a31 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -1083,6 +1083,22 @@ pub fn xitem_numeric_greater_than(lhs: &XItem, rhs: &XItem) -> Result<bool, Box<
             |a, b| { a > b });
 }
 
+// 「! (lhs > rhs)」ではない (NaNを含む比較は常にfalse)。
+//
+pub fn xitem_numeric_less_than_or_equal(lhs: &XItem, rhs: &XItem) -> Result<bool, Box<Error>> {
+    return xitem_numeric_comparison(lhs, rhs,
+            |a, b| { a <= b },
+            |a, b| { a <= b },
+            |a, b| { a <= b });
+}
+
+pub fn xitem_numeric_greater_than_or_equal(lhs: &XItem, rhs: &XItem) -> Result<bool, Box<Error>> {
+    return xitem_numeric_comparison(lhs, rhs,
+            |a, b| { a >= b },
+            |a, b| { a >= b },
+            |a, b| { a >= b });
+}
+
 // ---------------------------------------------------------------------
 // 数値と数値の比較: 必要に応じ、型を昇格する。
 //
diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 4005ef6..2023f82 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -381,8 +381,10 @@ pub fn value_compare_eq(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 }
 
 pub fn value_compare_ne(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
-    let result = value_compare_eq(lhs, rhs)?;
-    return fn_not(&vec!{&result});
+    return value_comparison(lhs, rhs,
+            |arg| { fn_not(&vec!{&op_numeric_equal(arg)?}) },
+            |arg| { arg != 0 },
+            |arg| { fn_not(&vec!{&op_boolean_equal(arg)?}) });
 }
 
 pub fn value_compare_lt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
@@ -393,8 +395,10 @@ pub fn value_compare_lt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 }
 
 pub fn value_compare_le(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
-    let result = value_compare_gt(lhs, rhs)?;
-    return fn_not(&vec!{&result});
+    return value_comparison(lhs, rhs,
+            |arg| { op_numeric_less_than_or_equal(arg) },
+            |arg| { arg <= 0 },
+            |arg| { fn_not(&vec!{&op_boolean_greater_than(arg)?}) });
 }
 
 pub fn value_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
@@ -405,8 +409,10 @@ pub fn value_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 }
 
 pub fn value_compare_ge(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
-    let result = value_compare_lt(lhs, rhs)?;
-    return fn_not(&vec!{&result});
+    return value_comparison(lhs, rhs,
+            |arg| { op_numeric_greater_than_or_equal(arg) },
+            |arg| { arg >= 0 },
+            |arg| { fn_not(&vec!{&op_boolean_less_than(arg)?}) });
 }
 
 // ---------------------------------------------------------------------
@@ -476,7 +482,7 @@ pub fn general_compare_lt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence,
 
 pub fn general_compare_le(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     return general_comparison(lhs, rhs,
-        |s, t| { let b = xitem_numeric_greater_than(s, t)?; return Ok(! b); },
+        |s, t| { xitem_numeric_less_than_or_equal(s, t) },
         |arg| { arg <= 0 },
         |s, t| { let b = xitem_boolean_greater_than(s, t)?; return Ok(! b); });
 }
@@ -490,7 +496,7 @@ pub fn general_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence,
 
 pub fn general_compare_ge(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     return general_comparison(lhs, rhs,
-        |s, t| { let b = xitem_numeric_less_than(s, t)?; return Ok(! b); },
+        |s, t| { xitem_numeric_greater_than_or_equal(s, t) },
         |arg| { arg >= 0 },
         |s, t| { let b = xitem_boolean_less_than(s, t)?; return Ok(! b); });
 }
-- 
2.43.0


From 7357bb664f0a21b4879765d09546feab15355e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 16/90] fix: intersect and except return their nodes in
 document order without duplicates

---
 src/xpath_impl/oper.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index f960b91..6e2a733 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -227,7 +227,7 @@ pub fn op_union(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence,
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-pub fn op_intersect(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+pub fn op_intersect(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
@@ -235,11 +235,11 @@ pub fn op_intersect(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSeque
             node_array.push(n.rc_clone());
         }
     }
-    // eval_env.sort_by_doc_order(&mut node_array);
+    eval_env.sort_by_doc_order(&mut node_array);
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-pub fn op_except(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+pub fn op_except(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
@@ -247,7 +247,7 @@ pub fn op_except(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence
             node_array.push(n.rc_clone());
         }
     }
-    // eval_env.sort_by_doc_order(&mut node_array);
+    eval_env.sort_by_doc_order(&mut node_array);
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-- 
2.43.0


From 9fa88e8f2328b029fff80e706398bf23fa7e0994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 17/90] fix: a predicate that is not a position is decided by
 its effective boolean value

---
 src/xpath_impl/eval.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index bda0cdf..fa987e5 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1320,19 +1320,14 @@ fn filter_by_predicate(xseq: &XSequence, xnode: &XNodePtr,
         eval_env.set_position(old_position);
 
         // 評価結果をもとに、このアイテムを残すかどうか判定する。
-        let mut do_push = false;
-        match val.get_singleton_item() {
-            Ok(XItem::XIInteger{value}) => {
-                do_push = value == usize_to_i64(position);
-            },
-            Ok(XItem::XINode{value: _}) => {
-                do_push = true;
-            },
-            Ok(XItem::XIBoolean{value}) => {
-                do_push = value;
-            },
-            _ => {},
-        }
+        // 数値 (シングルトン) であれば文脈位置と比較し、
+        // それ以外は実効ブール値による。
+        let do_push = match val.get_singleton_item() {
+            Ok(XItem::XIInteger{value}) => value == usize_to_i64(position),
+            Ok(XItem::XIDecimal{value}) => value == position as f64,
+            Ok(XItem::XIDouble{value}) => value == position as f64,
+            _ => val.effective_boolean_value()?,
+        };
         if do_push {
             result.push(&xitem.clone());
         }
-- 
2.43.0


From 918745c98f821d9ba4be6b4aea08c9099884f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 18/90] fix: some/every remove their variable when they stop
 early

---
 src/xpath_impl/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index fa987e5..71646d8 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -608,10 +608,10 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             for xitem in range.iter() {
                 eval_env.set_var_item(var_name.as_str(), xitem);
                 let rhs = evaluate_xnode(xseq, &get_right(xnode), eval_env)?;
+                eval_env.remove_var(var_name.as_str());
                 if rhs.effective_boolean_value()? == true {
                     return Ok(new_singleton_boolean(true));
                 }
-                eval_env.remove_var(var_name.as_str());
             }
             return Ok(new_singleton_boolean(false));
         },
@@ -626,10 +626,10 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             for xitem in range.iter() {
                 eval_env.set_var_item(var_name.as_str(), xitem);
                 let rhs = evaluate_xnode(xseq, &get_right(xnode), eval_env)?;
+                eval_env.remove_var(var_name.as_str());
                 if rhs.effective_boolean_value()? == false {
                     return Ok(new_singleton_boolean(false));
                 }
-                eval_env.remove_var(var_name.as_str());
             }
             return Ok(new_singleton_boolean(true));
         },
-- 
2.43.0


From 47a0362ce6cb97fbeb845c232efb2905019378c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:15 +0000
Subject: [PATCH 19/90] fix: following and preceding axes of an attribute

---
 src/xpath_impl/eval.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 71646d8..f287c85 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -953,7 +953,13 @@ fn array_descendant_or_self(node: &NodePtr) -> Vec<NodePtr> {
 //
 fn array_following(node: &NodePtr) -> Vec<NodePtr> {
     let mut node_array: Vec<NodePtr> = vec!{};
-    if node.node_type() != NodeType::Attribute {
+    if node.node_type() == NodeType::Attribute {
+        // 属性は、文書順では親要素の直後、子ノードの前にある。
+        if let Some(parent) = node.parent() {
+            node_array.append(&mut array_descendant(&parent));
+            node_array.append(&mut array_following(&parent));
+        }
+    } else {
         let all_nodes = array_descendant_or_self(&node.root());
         let descendant_or_self_nodes = array_descendant_or_self(&node);
         let mut self_occured = false;
@@ -995,7 +1001,11 @@ fn array_following_sibling(node: &NodePtr) -> Vec<NodePtr> {
 //
 fn array_preceding(node: &NodePtr) -> Vec<NodePtr> {
     let mut node_array: Vec<NodePtr> = vec!{};
-    if node.node_type() != NodeType::Attribute {
+    if node.node_type() == NodeType::Attribute {
+        if let Some(parent) = node.parent() {
+            node_array.append(&mut array_preceding(&parent));
+        }
+    } else {
         let all_nodes = array_descendant_or_self(&node.root());
         let ancestor_nodes = array_ancestor(&node);
         let mut self_occured = false;
-- 
2.43.0


From ea47f696f87c5219c5fb4d79702831c5f482002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 20/90] fix: position() and last() on the right of / and !

---
 Cargo.lock             |  5 ++++-
 src/xpath_impl/eval.rs | 12 ++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index e4e4c79..ccabd88 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,4 +1,7 @@
+# This file is automatically @generated by Cargo.
+# It is not intended for manual editing.
+version = 4
+
 [[package]]
 name = "amxml"
 version = "0.5.3"
-
diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index f287c85..5c8aed4 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -239,9 +239,13 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             let mut atom_exists = false;
             let mut result_seq = new_xsequence();
 
-            for item in lhs.iter() {
+            for (i, item) in lhs.iter().enumerate() {
                 let xseq = new_singleton(&item);
+                let old_position = eval_env.set_position(i + 1);
+                let old_last = eval_env.set_last(lhs.len());
                 let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
+                eval_env.set_last(old_last);
+                eval_env.set_position(old_position);
 
                 if val_seq.is_empty() {
                     continue;
@@ -304,9 +308,13 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             //     整列や重複排除はしない。
             //
             let mut result_seq = new_xsequence();
-            for item in lhs.iter() {
+            for (i, item) in lhs.iter().enumerate() {
                 let xseq = new_singleton(&item);
+                let old_position = eval_env.set_position(i + 1);
+                let old_last = eval_env.set_last(lhs.len());
                 let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
+                eval_env.set_last(old_last);
+                eval_env.set_position(old_position);
                 result_seq.append(&val_seq);
             }
 
-- 
2.43.0


From c8ebf9be3136374973c0649f283eef4b23556507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 21/90] fix: a named function reference or partial application
 bound to a variable can be called

---
 src/xpath_impl/eval.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 5c8aed4..57c3027 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1401,16 +1401,10 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     }
 
     // -----------------------------------------------------------------
-    // インライン函数
+    // インライン函数 | 名前付き函数参照 | 部分函数
     //
     if let Ok(inline_func_xnode) = curr_xseq.get_singleton_xnodeptr() {
-        match get_xnode_type(&inline_func_xnode) {
-            XNodeType::InlineFunction => {
-                return call_inline_func(&inline_func_xnode,
-                            argument_xseq, xseq, eval_env);
-            },
-            _ => {}
-        }
+        return call_function(&inline_func_xnode, argument_xseq, xseq, eval_env);
     }
 
     // -----------------------------------------------------------------
-- 
2.43.0


From 8d04192bbce1fb73f6a9c3ce12837feef0c6e8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 22/90] fix: calling a function item, map or array with the
 wrong number of arguments is a type error

---
 src/xpath_impl/eval.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 57c3027..3a29ea9 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1411,6 +1411,10 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     // マップ
     //
     if let Ok(map_item) = curr_xseq.get_singleton_map() {
+        if argument_xseq.len() != 1 {
+            return Err(type_error!("マップ: 引数の個数が合致しない: {}。",
+                argument_xseq.len()));
+        }
         let key = argument_xseq[0].get_singleton_item()?;
         if let Some(v) = map_item.map_get(&key) {
             return Ok(v);
@@ -1424,6 +1428,10 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     // 配列
     //
     if let Ok(array_item) = curr_xseq.get_singleton_array() {
+        if argument_xseq.len() != 1 {
+            return Err(type_error!("配列: 引数の個数が合致しない: {}。",
+                argument_xseq.len()));
+        }
         let index_item = argument_xseq[0].get_singleton_item()?;
         if let Some(v) = array_item.array_get(&index_item) {
             return Ok(v);
@@ -1463,6 +1471,11 @@ fn call_inline_func(inline_func_xnode: &XNodePtr,
         sequence_types.push(get_left(&param_xnode));
         param_xnode = get_right(&param_xnode);
     }
+    if param_names.len() != argument_xseq.len() {
+        return Err(type_error!(
+                "インライン函数: 引数の個数が合致しない: {}。",
+                argument_xseq.len()));
+    }
 
     // -----------------------------------------------------------------
     // 実引数の値を変数 (仮引数) に束縛する。
@@ -1566,6 +1579,10 @@ fn call_partial_func(func_xnode: &XNodePtr,
         }
         curr_xnode = get_right(&curr_xnode);
     }
+    if i != argument_xseq.len() {
+        return Err(type_error!(
+                "部分函数: 引数の個数が合致しない: {}。", argument_xseq.len()));
+    }
 
     return evaluate_function(&get_xnode_name(&func_xnode),
             &mut args_array, context_xseq, eval_env);
-- 
2.43.0


From a8414b36784b6557197f4076690474e2b0c453ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 23/90] fix: a function is an item

---
 src/xpath_impl/xitem.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index a8e3a31..4bb2947 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -491,10 +491,7 @@ impl XItem {
     // An item is either an atomic value, a node, or a function.
     //
     pub fn is_item(&self) -> bool {
-        match self {
-            XItem::XItemXNodePtr{value: _} => return false,
-            _ => return true,
-        }
+        return true;
     }
 
     // -----------------------------------------------------------------
-- 
2.43.0


From 0f465a3a9f2feb697a56b4f1c783968782792cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 24/90] fix: the string value of an element or document leaves
 out comments and processing instructions

---
 src/xpath_impl/xitem.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 4bb2947..1cfe8b8 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -307,7 +307,9 @@ impl NodePtr {
             NodeType::DocumentRoot | NodeType::Element => {
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.string_value();
+                    if ch.is_part_of_string_value() {
+                        s += &ch.string_value();
+                    }
                 }
                 return s;
             },
@@ -321,6 +323,16 @@ impl NodePtr {
         }
     }
 
+    // 要素や文書の文字列値は、子孫テキスト・ノードの連結であって、
+    // コメントや処理命令の内容は含まない。
+    //
+    fn is_part_of_string_value(&self) -> bool {
+        match self.node_type() {
+            NodeType::Element | NodeType::Text => return true,
+            _ => return false,
+        }
+    }
+
     // =================================================================
     // Returns the typed value of DOM node.
     // 型註釈がないとすれば、string_valueと同じ結果になる。
@@ -353,7 +365,9 @@ impl NodePtr {
             NodeType::DocumentRoot => {             // xs:untypedAtomic
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.typed_value();
+                    if ch.is_part_of_string_value() {
+                        s += &ch.typed_value();
+                    }
                 }
                 return s;
             },
@@ -369,7 +383,9 @@ impl NodePtr {
             NodeType::Element => {                  // xs:untypedAtomic
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.typed_value();
+                    if ch.is_part_of_string_value() {
+                        s += &ch.typed_value();
+                    }
                 }
                 return s;
             },
-- 
2.43.0


From b014e23affd6e2e780dfc7d30271d44b92539b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 25/90] fix: the string value of a processing instruction is
 its content

---
 src/xpath_impl/xitem.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 1cfe8b8..cd6a397 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -313,11 +313,9 @@ impl NodePtr {
                 }
                 return s;
             },
-            NodeType::Text | NodeType::Attribute | NodeType::Comment => {
-                return format!("{}", self.value());
-            },
+            NodeType::Text | NodeType::Attribute | NodeType::Comment |
             NodeType::XMLDecl | NodeType::Instruction => {
-                return format!("{} {}", self.name(), self.value());
+                return format!("{}", self.value());
             },
             _ => return String::new(),
         }
@@ -375,7 +373,7 @@ impl NodePtr {
                 return format!("{}", self.value());
             },
             NodeType::Instruction => {              // xs:string
-                return format!("{} {}", self.name(), self.value());
+                return format!("{}", self.value());
             },
             NodeType::Attribute => {                // xs:untypedAtomic
                 return format!("{}", self.value());
-- 
2.43.0


From b51e8f7f1ca329931a8fdd8a9e410ae077fa2cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 26/90] fix: translate() uses the first occurrence of a
 character in the map string

---
 src/xpath_impl/func.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index d79357f..0f12002 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -890,6 +890,7 @@ fn fn_translate(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         for (i, c) in from_runes.iter().enumerate() {
             if ch == c {
                 index = i;
+                break;                      // 最初のものが有効
             }
         }
         if index != usize::MAX {
-- 
2.43.0


From 59d69fce89cff56b53a5f0547ed8d321afcb45a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 27/90] fix: codepoints-to-string() rejects every number that
 is not a code point

---
 src/xpath_impl/func.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 0f12002..3e90d7c 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -5,6 +5,7 @@
 // Copyright (C) 2018 KOYAMA Hiro <tac@amris.co.jp>
 //
 
+use std::char;
 use std::error::Error;
 use std::f64;
 use std::i64;
@@ -576,22 +577,18 @@ fn fn_number(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // fn:codepoints-to-string($arg as xs:integer*) as xs:string
 //
 fn fn_codepoints_to_string(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    let mut v: Vec<u16> = vec!{};
+    let mut s = String::new();
     for item in args[0].iter() {
-        let uni = item.get_as_raw_integer()? as u64;
-        if 0x10000 <= uni {                             // 代用対
-            let hi = (uni - 0x10000) / 0x0400 + 0xD800;
-            let lo = (uni - 0x10000) % 0x0400 + 0xDC00;
-            v.push(hi as u16);
-            v.push(lo as u16);
-        } else {
-            v.push(uni as u16);
+        let uni = item.get_as_raw_integer()?;
+        if uni < 1 || 0x10FFFF < uni {
+            return Err(dynamic_error!("Code point not valid."));
+        }
+        match char::from_u32(uni as u32) {
+            Some(ch) => s.push(ch),
+            None => return Err(dynamic_error!("Code point not valid.")),
         }
     }
-    match String::from_utf16(&v) {
-        Ok(s) => return Ok(new_singleton_string(&s)),
-        Err(_) => return Err(dynamic_error!("Code point not valid.")),
-    }
+    return Ok(new_singleton_string(&s));
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From d16e34aa4b24e11a55b0c6bbd45f6ff71510a650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 28/90] fix: substring()/subsequence() with very large, very
 small or infinite positions

---
 src/xpath_impl/func.rs | 54 ++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 3e90d7c..ec80425 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -778,9 +778,9 @@ fn fn_substring(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
     let starting_loc = args[1].get_singleton_item()?.get_as_raw_double()?;
     let length = if args.len() == 2 {
-            f64::INFINITY
+            None
         } else {
-            args[2].get_singleton_item()?.get_as_raw_double()?
+            Some(args[2].get_singleton_item()?.get_as_raw_double()?)
         };
     let (b, e) = subcollection_index_sub(sv.len(), starting_loc, length);
 
@@ -1333,9 +1333,9 @@ fn fn_subsequence(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
     let starting_loc = args[1].get_singleton_item()?.get_as_raw_double()?;
     let length = if args.len() == 2 {
-            f64::INFINITY
+            None
         } else {
-            args[2].get_singleton_item()?.get_as_raw_double()?
+            Some(args[2].get_singleton_item()?.get_as_raw_double()?)
         };
     let (b, e) = subcollection_index_sub(
                     source_sequence.len(), starting_loc, length);
@@ -1699,6 +1699,7 @@ fn array_flatten(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // ある長さの順序つき集合 (C; 文字列、シーケンスなど) の部分集合を
 // 取得するために、開始位置 b と終了位置 e を求める。
 // s (starting_loc、1起点の値) と l (length) はf64型で、NaNやInfにもなりうる。
+// l の指定がなければ (None) 末尾まで。
 // Cの要素 (番号 i := [b, e)、0起点の値) から成る部分集合を
 // 取得すればよいよう、bとe (usize型) を求めて返す。
 // 空集合を取得するべき場合は、b = 0、e = 0 を返す。
@@ -1707,41 +1708,22 @@ fn array_flatten(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //                  15.1.10 fn:subsequence
 //
 fn subcollection_index_sub(source_length: usize,
-                           starting_loc: f64, length: f64) -> (usize, usize) {
+                           starting_loc: f64, length: Option<f64>) -> (usize, usize) {
 
-    if starting_loc.is_nan() || starting_loc.is_infinite() {
+    // 1起点の位置pについて、round(s) <= p かつ p < round(s) + round(l)。
+    // s、lがNaNや±∞でも、和や比較はf64の規則による。
+    //
+    let beg = round_x(starting_loc);
+    let end = match length {
+        Some(length) => beg + round_x(length),
+        None => f64::INFINITY,
+    };
+    if ! (beg < end) {
         return (0, 0);
     }
-    let beg_pos = round_x(starting_loc) as i64;     // 有限値
-    let mut b = beg_pos - 1;                        // 0起点の値に補正
-    if b < 0 {
-        b = 0;
-    }
-    if source_length as i64 <= b {
-        b = source_length as i64;
-    }
-
-    let mut e: i64;
-    if length.is_infinite() && length.is_sign_positive() {
-        e = source_length as i64;
-    } else {
-        if length.is_nan() || length.is_sign_negative() {
-            return (0, 0);
-        }
-        let len_str = if length.is_infinite() {
-                source_length as i64
-            } else {
-                round_x(length) as i64                 // 非負の有限値
-            };
-        e = beg_pos + len_str - 1;
-        if e < b {
-            e = b;
-        }
-        if source_length as i64 <= e {
-            e = source_length as i64;
-        }
-    }
-
+    let limit = source_length as f64 + 1.0;
+    let b = beg.max(1.0).min(limit) - 1.0;          // 0起点の値に補正
+    let e = end.max(1.0).min(limit) - 1.0;
     return (b as usize, e as usize);
 
 }
-- 
2.43.0


From 96f6af0a83ec986b7087cc6c07e1abc3dd983d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 29/90] fix: insert-before() with the smallest integer as its
 position

---
 src/xpath_impl/func.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index ec80425..b4c2d93 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1268,7 +1268,7 @@ fn fn_tail(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_insert_before(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let target = args[0];
-    let mut position = args[1].get_singleton_integer()? - 1;
+    let mut position = args[1].get_singleton_integer()?.saturating_sub(1);
     let inserts = args[2];
     if position <= 0 {
         position = 0;
-- 
2.43.0


From 10b30b96de56aa101def783c41e45eb619a5eca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 30/90] fix: index-of() skips items that cannot be compared
 with the one searched for

---
 src/xpath_impl/func.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index b4c2d93..e6bbc7f 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1360,11 +1360,14 @@ fn fn_subsequence(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_index_of(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let seq_param = args[0];
-    let srch_param = args[1];
+    let srch_param = new_singleton(&args[1].get_singleton_item()?);
     let mut result = new_xsequence();
     for (i, v) in seq_param.iter().enumerate() {
-        if value_compare_eq(&new_singleton(v), srch_param)?.get_singleton_boolean()? == true {
-            result.push(&new_xitem_integer(usize_to_i64(i + 1)));
+        // 比較できない値は、異なる値と見なす。
+        if let Ok(b) = value_compare_eq(&new_singleton(v), &srch_param) {
+            if b.get_singleton_boolean()? == true {
+                result.push(&new_xitem_integer(usize_to_i64(i + 1)));
+            }
         }
     }
     return Ok(result);
-- 
2.43.0


From a9d7d0e6714d6b4c3fb0ef1aa4eb11409b0bd61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 31/90] fix: max() and min() of a sequence with NaN are NaN

---
 src/xpath_impl/func.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index e6bbc7f..8be7641 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1455,6 +1455,9 @@ fn fn_max(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
     let mut max_item = args[0].get_item(0).clone();
     for item in args[0].iter() {
+        if is_nan(item) {
+            return Ok(new_singleton_double(f64::NAN));
+        }
         let b = value_compare_lt(&new_singleton(&max_item), &new_singleton(item))?;
         if b.effective_boolean_value()? == true {
             max_item = item.clone();
@@ -1476,6 +1479,9 @@ fn fn_min(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
     let mut max_item = args[0].get_item(0).clone();
     for item in args[0].iter() {
+        if is_nan(item) {
+            return Ok(new_singleton_double(f64::NAN));
+        }
         let b = value_compare_gt(&new_singleton(&max_item), &new_singleton(item))?;
         if b.effective_boolean_value()? == true {
             max_item = item.clone();
@@ -1485,6 +1491,15 @@ fn fn_min(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return Ok(new_singleton(&max_item));
 }
 
+// NaNは、どの値と比較してもfalseになる。NaNを含むシーケンスのmax/minはNaN。
+//
+fn is_nan(item: &XItem) -> bool {
+    match item {
+        XItem::XIDouble{value} => return value.is_nan(),
+        _ => return false,
+    }
+}
+
 // ---------------------------------------------------------------------
 // 14.4.5 fn:sum
 // fn:sum($arg as xs:anyAtomicType*) as xs:anyAtomicType
-- 
2.43.0


From 4a6af29dc7e41742a8ba3b8aa98811b0633d8ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 32/90] fix: lang() looks at the nearest xml:lang and compares
 whole subtags, ignoring case

---
 src/xpath_impl/func.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 8be7641..d5a59fb 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1165,24 +1165,25 @@ fn fn_lang_1(args: &Vec<&XSequence>, context_xseq: &XSequence,
 }
 
 fn fn_lang(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    if args[0].is_empty() {
-        return Ok(new_singleton_string(&""));
-    }
-    let testlang = args[0].get_singleton_string()?;
+    let testlang = if args[0].is_empty() {
+            String::new()
+        } else {
+            args[0].get_singleton_string()?.to_lowercase()
+        };
     let node = args[1].get_singleton_node()?;
 
-    let mut xmllang = String::new();
-    for n in array_ancestor_or_self(&node).iter() {
-                                // array_ancestor_or_self() !!!!!!!!!!!!
+    // もっとも内側のxml:langが有効。
+    // その値が$testlangと等しいか、「$testlang-...」の形であればtrue。
+    //
+    for n in array_ancestor_or_self(&node).iter().rev() {
         if let Some(val) = n.attribute_value("xml:lang") {
-            xmllang = val.to_lowercase();
-            break;
+            let xmllang = val.to_lowercase();
+            let result = xmllang == testlang ||
+                         xmllang.starts_with(&(testlang + "-"));
+            return Ok(new_singleton_boolean(result));
         }
     }
-    let v: Vec<&str> = xmllang.splitn(2, "-").collect();
-    let result = v[0] == testlang;
-
-    return Ok(new_singleton_boolean(result));
+    return Ok(new_singleton_boolean(false));
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From 1b83f01cb2b807736e23df9b35df7457e13b0edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 33/90] fix: an empty XPath is a syntax error, not a panic

---
 src/xpath_impl/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index c37ca3d..ee1d589 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -488,7 +488,7 @@ impl Lexer {
             ( "cast",     "as", TType::CastAs ),
         ];
         let mut i = 1;
-        while self.tokens[i+1].t_type != TType::EOF {
+        while self.tokens[i].t_type != TType::EOF {
             if self.tokens[i].t_type == TType::InnerName &&
                self.tokens[i+1].t_type == TType::InnerName {
                 for (str1, str2, t_type) in operator_pair_words.iter() {
-- 
2.43.0


From 07285ab285373933eae891040a5252b1f7363024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 34/90] fix: a double literal has one exponent, with at least
 one digit

---
 src/xpath_impl/lexer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index ee1d589..cd6b828 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -637,8 +637,8 @@ impl Lexer {
                 numeric_literal.push_str(&self.fetch_numeric_after_period()?);
             } else {
                 self.unread_rune();
+                numeric_literal.push_str(&self.fetch_numeric_after_e()?);
             }
-            numeric_literal.push_str(&self.fetch_numeric_after_e()?);
             return Ok(numeric_literal);
         } else if ch1 == '.' {
             self.unread_rune();
@@ -679,13 +679,15 @@ impl Lexer {
             ch1 = self.read_rune();
             if ch1 == '+' || ch1 == '-' {
                 numeric_after_e.push(ch1);
-            } else if is_digit(ch1) {
-                self.unread_rune();
             } else {
+                self.unread_rune();
+            }
+            let digits = self.fetch_digits();
+            if digits.is_empty() {
                 return Err(xpath_syntax_error!(
                         "指数を表す [eE] の後には数字が必要。"));
             }
-            numeric_after_e.push_str(&self.fetch_digits());
+            numeric_after_e.push_str(&digits);
         } else {
             self.unread_rune();
         }
-- 
2.43.0


From 286982c4d7e8d0bdc9695850d0d2f6a0e7bb5711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 35/90] fix: operator names after a * name test, and element or
 variable names after $ ! || := {

---
 src/xpath_impl/lexer.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index cd6b828..273480a 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -443,6 +443,11 @@ impl Lexer {
             TType::NodeAfter,       // (註2)
             TType::Asterisk,
             TType::Colon,           // (註1)
+            TType::Dollar,
+            TType::OperatorMap,
+            TType::OperatorConcat,
+            TType::Bind,
+            TType::LeftCurly,
         ];
 
         let operator_words: HashMap<&str, TType> = [
@@ -464,10 +469,16 @@ impl Lexer {
             ( "except",    TType::Except ),         // (註2)
         ].iter().cloned().collect();
 
+        let mut prev_is_wildcard = false;
         let mut i = 1;
         while self.tokens[i].t_type != TType::EOF {
-            if ! prev_t_types.contains(&self.tokens[i-1].t_type) &&
-               self.tokens[i].t_type == TType::InnerName {
+            // 直前の「*」が名前テストであれば (乗算記号でなければ)、
+            // その次は演算子である。
+            let after_operand = prev_is_wildcard ||
+                ! prev_t_types.contains(&self.tokens[i-1].t_type);
+            prev_is_wildcard = ! after_operand &&
+                self.tokens[i].t_type == TType::Asterisk;
+            if after_operand && self.tokens[i].t_type == TType::InnerName {
                 if let Some(op_type) = operator_words.get(self.tokens[i].name.as_str()) {
                     self.tokens[i].t_type = op_type.clone();
                 }
-- 
2.43.0


From 80947ef92f8d102742c9e87390e6e3a5d34a439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 36/90] fix: an integer literal out of range is an error, not 0

---
 src/xpath_impl/eval.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 3a29ea9..03bb593 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -693,7 +693,11 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             return Ok(new_singleton_string(&get_xnode_name(&xnode)));
         },
         XNodeType::IntegerLiteral => {
-            return Ok(new_singleton_integer(atoi(&get_xnode_name(&xnode))));
+            let literal = get_xnode_name(&xnode);
+            match i64::from_str(&literal) {
+                Ok(n) => return Ok(new_singleton_integer(n)),
+                Err(_) => return Err(dynamic_error!("Integer literal {}: overflow.", literal)),
+            }
         },
         XNodeType::DecimalLiteral => {
             return Ok(new_singleton_decimal(atof(&get_xnode_name(&xnode))));
-- 
2.43.0


From 86edc9601f433b84e194a7d433267c1a3c9c6c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 37/90] fix: string functions take the string value of a node
 argument

---
 src/xpath_impl/xsequence.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 2023f82..3014ab1 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -166,10 +166,11 @@ impl XSequence {
 
     // -----------------------------------------------------------------
     // シングルトンかつ文字列であれば、その文字列を返す。
+    // ノードの場合は原子化し、その文字列を返す。
     //
     pub fn get_singleton_string(&self) -> Result<String, Box<Error>> {
         let item = self.get_singleton_item()?;
-        match item {
+        match item.atomize() {
             XItem::XIString{value} => return Ok(value),
             _ => {},
         }
-- 
2.43.0


From b7204f245472798b12fa4a4a4a574289f4a8686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 38/90] fix: is, << and >> with an empty operand are empty

---
 src/xpath_impl/oper.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index 6e2a733..029084d 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -190,6 +190,9 @@ pub fn op_node_after(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSeque
 
 fn op_node_compare(args: &Vec<XSequence>, eval_env: &EvalEnv,
                     ordering: Ordering) -> Result<XSequence, Box<Error>> {
+    if args[0].is_empty() || args[1].is_empty() {
+        return Ok(new_xsequence());
+    }
     let node1 = args[0].get_singleton_node()?;
     let node2 = args[1].get_singleton_node()?;
     let result = eval_env.compare_by_doc_order(&node1, &node2);
-- 
2.43.0


From f0ae2fddc34d1bc0f672d59b0655c65ecb51c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:42 +0000
Subject: [PATCH 39/90] fix: arithmetic on a node uses its number, and on the
 empty sequence is empty

---
 src/xpath_impl/oper.rs | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index 029084d..07d63a9 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -50,15 +50,17 @@ pub fn op_numeric_mod(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
 }
 
 pub fn op_numeric_unary_plus(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
-    let arg = args[0].get_singleton_item()?;
-    let result = xitem_numeric_unary_plus(&arg)?;
-    return Ok(new_singleton(&result));
+    return match op_numeric_operand(&args[0])? {
+        Some(arg) => Ok(new_singleton(&xitem_numeric_unary_plus(&arg)?)),
+        None => Ok(new_xsequence()),
+    };
 }
 
 pub fn op_numeric_unary_minus(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
-    let arg = args[0].get_singleton_item()?;
-    let result = xitem_numeric_unary_minus(&arg)?;
-    return Ok(new_singleton(&result));
+    return match op_numeric_operand(&args[0])? {
+        Some(arg) => Ok(new_singleton(&xitem_numeric_unary_minus(&arg)?)),
+        None => Ok(new_xsequence()),
+    };
 }
 
 // ---------------------------------------------------------------------
@@ -66,10 +68,27 @@ pub fn op_numeric_unary_minus(args: &Vec<XSequence>) -> Result<XSequence, Box<Er
 fn op_numeric_operation<F>(args: &Vec<XSequence>, mut func_op: F) -> Result<XSequence, Box<Error>>
     where F: FnMut(&XItem, &XItem) -> Result<XItem, Box<Error>> {
 
-    let lhs = args[0].get_singleton_item()?;
-    let rhs = args[1].get_singleton_item()?;
-    let result = func_op(&lhs, &rhs)?;
-    return Ok(new_singleton(&result));
+    let lhs = op_numeric_operand(&args[0])?;
+    let rhs = op_numeric_operand(&args[1])?;
+    return match (lhs, rhs) {
+        (Some(lhs), Some(rhs)) => Ok(new_singleton(&func_op(&lhs, &rhs)?)),
+        _ => Ok(new_xsequence()),
+    };
+}
+
+// ---------------------------------------------------------------------
+// 3.5 Arithmetic Expressions
+// 演算数が空シーケンスならばNone (結果も空シーケンス)。
+// ノードは原子化し、倍精度浮動小数点数にキャストする。
+//
+fn op_numeric_operand(arg: &XSequence) -> Result<Option<XItem>, Box<Error>> {
+    if arg.is_empty() {
+        return Ok(None);
+    }
+    return match arg.get_singleton_item()? {
+        XItem::XINode{value} => Ok(Some(new_xitem_node(&value).cast_as("double")?)),
+        item => Ok(Some(item)),
+    };
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From a393061cc31363b38fc4a6229601f74c6d9bc184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:07 +0000
Subject: [PATCH 40/90] fix: a node compared with a number (=, <, ...) is
 compared as a number

---
 src/xpath_impl/xsequence.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 3014ab1..99df587 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -459,6 +459,8 @@ fn value_comparison<FNUM, FSTR, FBOOL>(lhs: &XSequence, rhs: &XSequence,
 //
 // XPath 1.0 非互換モードの場合、一方のオペランドが数値型であっても、
 // もう一方を数値型に変換することはない。
+// ただしノード (型註釈がないので、原子化した結果はxs:untypedAtomic) は、
+// もう一方が数値型であれば、倍精度浮動小数点数にキャストして比較する。
 //
 pub fn general_compare_eq(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     return general_comparison(lhs, rhs,
@@ -511,8 +513,10 @@ fn general_comparison<FNUM, FSTR, FBOOL>(lhs: &XSequence, rhs: &XSequence,
           FSTR: FnMut(i64) -> bool,
           FBOOL: FnMut(&XItem, &XItem) -> Result<bool, Box<Error>> {
 
-    for xitem_lhs in lhs.atomize().iter() {
-        for xitem_rhs in rhs.atomize().iter() {
+    for lhs_item in lhs.iter() {
+        for rhs_item in rhs.iter() {
+            let xitem_lhs = general_operand(lhs_item, rhs_item);
+            let xitem_rhs = general_operand(rhs_item, lhs_item);
             if let Ok(b) = num_op(&xitem_lhs, &xitem_rhs) {
                 if b == true {
                     return Ok(new_singleton_boolean(true));
@@ -535,6 +539,17 @@ fn general_comparison<FNUM, FSTR, FBOOL>(lhs: &XSequence, rhs: &XSequence,
 
 }
 
+fn general_operand(item: &XItem, other: &XItem) -> XItem {
+    if let XItem::XINode{value: _} = item {
+        if other.is_numeric() {
+            if let Ok(number) = item.cast_as("double") {
+                return number;
+            }
+        }
+    }
+    return item.atomize();
+}
+
 // =====================================================================
 //
 #[cfg(test)]
-- 
2.43.0


From 254cc0bd8875cfc58a897d7b283fafb52bfd52f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:39 +0000
Subject: [PATCH 41/90] fix: abs/ceiling/floor/round/max/min of nodes use their
 numbers

---
 src/xpath_impl/func.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index d5a59fb..7bd4581 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -529,7 +529,7 @@ fn fn_numeric_unary<FINT, FDEC, FDBL>(args: &Vec<&XSequence>,
               FDEC: FnMut(f64) -> f64,
               FDBL: FnMut(f64) -> f64 {
     if ! args[0].is_empty() {
-        match args[0].get_singleton_item()? {
+        match node_to_double(&args[0].get_singleton_item()?)? {
             XItem::XIInteger{value: arg} => {
                 return match int_op(arg) {
                     Some(n) => Ok(new_singleton_integer(n)),
@@ -1454,8 +1454,9 @@ fn fn_max(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         return Ok(new_xsequence());
     }
 
-    let mut max_item = args[0].get_item(0).clone();
+    let mut max_item = node_to_double(args[0].get_item(0))?;
     for item in args[0].iter() {
+        let ref item = node_to_double(item)?;
         if is_nan(item) {
             return Ok(new_singleton_double(f64::NAN));
         }
@@ -1478,8 +1479,9 @@ fn fn_min(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         return Ok(new_xsequence());
     }
 
-    let mut max_item = args[0].get_item(0).clone();
+    let mut max_item = node_to_double(args[0].get_item(0))?;
     for item in args[0].iter() {
+        let ref item = node_to_double(item)?;
         if is_nan(item) {
             return Ok(new_singleton_double(f64::NAN));
         }
@@ -1492,6 +1494,15 @@ fn fn_min(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return Ok(new_singleton(&max_item));
 }
 
+// 数値を求める函数の引数がノードならば、倍精度浮動小数点数にキャストする。
+//
+fn node_to_double(item: &XItem) -> Result<XItem, Box<Error>> {
+    match item {
+        XItem::XINode{value: _} => return item.cast_as("double"),
+        _ => return Ok(item.clone()),
+    }
+}
+
 // NaNは、どの値と比較してもfalseになる。NaNを含むシーケンスのmax/minはNaN。
 //
 fn is_nan(item: &XItem) -> bool {
-- 
2.43.0


From ab0737299a33ef587a5065ade3f3f0cd8fd29c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 42/90] fix: several unary operators in a row

---
 src/xpath_impl/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 71ad020..e6f5663 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -1700,14 +1700,14 @@ fn parse_unary_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     match tok.get_type() {
         TType::Minus => {
             lex.get_token();
-            let next_node = parse_value_expr(lex)?;
+            let next_node = parse_unary_expr(lex)?;
             let xnode_op = new_xnode(XNodeType::OperatorUnaryMinus, "-");
             assign_as_right(&xnode_op, &next_node);
             return Ok(xnode_op);
         },
         TType::Plus => {
             lex.get_token();
-            let next_node = parse_value_expr(lex)?;
+            let next_node = parse_unary_expr(lex)?;
             let xnode_op = new_xnode(XNodeType::OperatorUnaryPlus, "+");
             assign_as_right(&xnode_op, &next_node);
             return Ok(xnode_op);
-- 
2.43.0


From 432fb707821f825fa8f2557a076d62f1873ac4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 43/90] fix: a missing operand, step, type or argument is a
 syntax error

---
 src/xpath_impl/parser.rs | 53 +++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index e6f5663..2e4a8a1 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -368,11 +368,15 @@ fn parse_axis_step(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
                     "{}: namespace 軸は未実装。",
                     lex.around_tokens().as_str()));
             }
-            return parse_node_test(lex, axis);
+            let xnode = parse_node_test(lex, axis)?;
+            error_if_nil!(lex, xnode, "{}: 軸名の後にはノードテストが必要。");
+            return Ok(xnode);
         },
         TType::At => {  // 「@」は「attribute::」の省略形
             lex.get_token();
-            return parse_node_test(lex, &XNodeType::AxisAttribute);
+            let xnode = parse_node_test(lex, &XNodeType::AxisAttribute)?;
+            error_if_nil!(lex, xnode, "{}: @ の後にはノードテストが必要。");
+            return Ok(xnode);
         },
         TType::DotDot => {// 「..」は「parent::node()」の省略形
             lex.get_token();
@@ -796,6 +800,7 @@ fn parse_predicate(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let xnode = parse_expr(lex)?;
+    error_if_nil!(lex, xnode, "{}: 述語には式が必要。");
 
     error_if_not_ttype!(lex, TType::RightBracket, "{}: 述語を閉じる「]」が必要。");
     lex.get_token();
@@ -864,9 +869,7 @@ fn parse_for_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = for_expr_xnode.clone();
     loop {
         let var_bind_xnode = parse_simple_for_binding(lex)?;
-        if is_nil_xnode(&var_bind_xnode) {
-            break;
-        }
+        error_if_nil!(lex, var_bind_xnode, "{}: 変数の束縛が必要。");
         assign_as_right(&curr_xnode, &var_bind_xnode);
         curr_xnode = get_right(&curr_xnode);
 
@@ -881,6 +884,7 @@ fn parse_for_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(for_expr_xnode);
@@ -917,9 +921,7 @@ fn parse_let_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = let_expr_xnode.clone();
     loop {
         let var_bind_xnode = parse_simple_let_binding(lex)?;
-        if is_nil_xnode(&var_bind_xnode) {
-            break;
-        }
+        error_if_nil!(lex, var_bind_xnode, "{}: 変数の束縛が必要。");
         assign_as_right(&curr_xnode, &var_bind_xnode);
         curr_xnode = get_right(&curr_xnode);
 
@@ -934,6 +936,7 @@ fn parse_let_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(let_expr_xnode);
@@ -964,6 +967,7 @@ fn parse_simple_let_binding(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     let var_bind_xnode = new_xnode(XNodeType::LetVarBind, &var_name);
     assign_as_left(&var_bind_xnode, &expr_single_xnode);
 
@@ -1006,9 +1010,7 @@ fn parse_quantified_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = quantified_expr_xnode.clone();
     loop {
         let xnode_var_bind = parse_simple_binding(lex, &xnode_ttype)?;
-        if is_nil_xnode(&xnode_var_bind) {
-            break;
-        }
+        error_if_nil!(lex, xnode_var_bind, "{}: 変数の束縛が必要。");
         assign_as_right(&curr_xnode, &xnode_var_bind);
         curr_xnode = get_right(&curr_xnode);
 
@@ -1023,6 +1025,7 @@ fn parse_quantified_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(quantified_expr_xnode);
@@ -1054,6 +1057,7 @@ fn parse_simple_binding(lex: &mut Lexer, xnode_type: &XNodeType) -> Result<XNode
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     let var_bind_xnode = new_xnode(xnode_type.clone(), &var_name);
     assign_as_left(&var_bind_xnode, &expr_single_xnode);
 
@@ -1245,6 +1249,7 @@ fn parse_instanceof_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_treat_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::InstanceOf {
+        error_if_nil!(lex, xnode, "{}: 演算子の左辺に式が必要。");
         lex.get_token();
         let seq_type_xnode = parse_sequence_type(lex)?;
         if is_nil_xnode(&seq_type_xnode) {
@@ -1268,6 +1273,7 @@ fn parse_treat_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_castable_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::TreatAs {
+        error_if_nil!(lex, xnode, "{}: 演算子の左辺に式が必要。");
         lex.get_token();
         let seq_type_xnode = parse_sequence_type(lex)?;
         if is_nil_xnode(&seq_type_xnode) {
@@ -1408,6 +1414,7 @@ pub fn parse_function_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let sequence_type_xnode = parse_sequence_type(lex)?;
+    error_if_nil!(lex, sequence_type_xnode, "{}: 型の指定が必要。");
     let return_type_xnode = new_xnode(XNodeType::ReturnType, "");
     assign_as_left(&return_type_xnode, &sequence_type_xnode);
     assign_as_right(&return_type_xnode, &sequence_type_list_xnode);
@@ -1427,6 +1434,7 @@ fn parse_sequence_type_list(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: 型の指定が必要。");
         let param_xnode = new_xnode(XNodeType::Param, "");
         assign_as_left(&param_xnode, &sequence_type_xnode);
         assign_as_right(&curr, &param_xnode);
@@ -1481,6 +1489,7 @@ fn parse_map_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         lex.get_token();
 
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: 型の指定が必要。");
         assign_as_right(&xnode, &sequence_type_xnode);
 
     }
@@ -1519,6 +1528,7 @@ fn parse_array_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         assign_as_left(&sequence_type_xnode, &item_test_xnode);
     } else {
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: 型の指定が必要。");
         assign_as_left(&xnode, &sequence_type_xnode);
     }
 
@@ -1536,6 +1546,7 @@ fn parse_parenthesized_item_type(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>
     lex.get_token();
 
     let xnode = parse_item_type(lex)?;
+    error_if_nil!(lex, xnode, "{}: 型の指定が必要。");
 
     error_if_not_ttype!(lex, TType::RightParen, "{}: 閉じ括弧が必要。");
     lex.get_token();
@@ -1558,6 +1569,7 @@ fn parse_castable_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_cast_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::CastableAs {
+        error_if_nil!(lex, xnode, "{}: 演算子の左辺に式が必要。");
         lex.get_token();
         let single_type_xnode = parse_single_type(lex)?;
         if is_nil_xnode(&single_type_xnode) {
@@ -1587,6 +1599,7 @@ fn parse_cast_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_arrow_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::CastAs {
+        error_if_nil!(lex, xnode, "{}: 演算子の左辺に式が必要。");
         lex.get_token();
         let single_type_xnode = parse_single_type(lex)?;
         if is_nil_xnode(&single_type_xnode) {
@@ -1653,6 +1666,7 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_unary_expr(lex)?;
     let mut curr_xnode = xnode.clone();
     while lex.next_token().get_type() == TType::Arrow {
+        error_if_nil!(lex, curr_xnode, "{}: 演算子の左辺に式が必要。");
         lex.get_token();
 
         let func_name = parse_static_func_name(lex)?;
@@ -1701,6 +1715,7 @@ fn parse_unary_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         TType::Minus => {
             lex.get_token();
             let next_node = parse_unary_expr(lex)?;
+            error_if_nil!(lex, next_node, "{}: 単項演算子の後には式が必要。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryMinus, "-");
             assign_as_right(&xnode_op, &next_node);
             return Ok(xnode_op);
@@ -1708,6 +1723,7 @@ fn parse_unary_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         TType::Plus => {
             lex.get_token();
             let next_node = parse_unary_expr(lex)?;
+            error_if_nil!(lex, next_node, "{}: 単項演算子の後には式が必要。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryPlus, "+");
             assign_as_right(&xnode_op, &next_node);
             return Ok(xnode_op);
@@ -1747,8 +1763,10 @@ fn parse_bin_op_sub(lex: &mut Lexer,
             Some(t) => t,
             None => break,
         };
+        error_if_nil!(lex, xnode, "{}: 演算子の左辺に式が必要。");
         lex.get_token();
         let next_node = sub_parser(lex)?;
+        error_if_nil!(lex, next_node, "{}: 演算子の右辺に式が必要。");
 
         let xnode_op = new_xnode(n_type.clone(), tok.get_name());
         assign_as_left(&xnode_op, &xnode);
@@ -1807,9 +1825,8 @@ fn parse_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             assign_as_left(&op_path_xnode_l, &ds_xnode);
 
             let rel_xnode = parse_relative_path_expr(lex)?;
-            if ! is_nil_xnode(&rel_xnode) {
-                assign_as_right(&op_path_xnode_l, &rel_xnode);
-            }
+            error_if_nil!(lex, rel_xnode, "{}: // の後には相対パスが必要。");
+            assign_as_right(&op_path_xnode_l, &rel_xnode);
             return Ok(op_path_xnode_u);
         },
         _ => {
@@ -1847,6 +1864,7 @@ fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             TType::Slash => {
                 lex.get_token();
                 let step_expr_xnode = parse_step_expr(lex)?;
+                error_if_nil!(lex, step_expr_xnode, "{}: / の後にはステップが必要。");
                 let op_path_xnode = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr Slash");
                 assign_as_left(&op_path_xnode, &step_expr_xnode);
                 assign_as_right(&curr_xnode, &op_path_xnode);
@@ -1855,6 +1873,7 @@ fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             TType::SlashSlash => {
                 lex.get_token();
                 let step_expr_xnode = parse_step_expr(lex)?;
+                error_if_nil!(lex, step_expr_xnode, "{}: // の後にはステップが必要。");
 
                 let op_path_xnode_u = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr SlashSlash 1");
                 let ds_xnode = new_xnode(XNodeType::AxisDescendantOrSelf, "node()");
@@ -2210,6 +2229,7 @@ fn parse_inline_function_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     if tok.get_type() == TType::Name && tok.get_name() == "as" {
         lex.get_token();
         let xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, xnode, "{}: 型の指定が必要。");
         assign_as_left(&return_type_xnode, &xnode);
     } else {        // 型の省略時は「item()*」
         assign_as_left(&return_type_xnode, &default_sequence_type());
@@ -2236,6 +2256,7 @@ fn parse_param_list(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let param_xnode = parse_param(lex)?;
+        error_if_nil!(lex, param_xnode, "{}: カンマの後には引数が必要。");
         assign_as_right(&curr, &param_xnode);
         curr = param_xnode.clone();
     }
@@ -2261,6 +2282,7 @@ fn parse_param(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     if tok.get_type() == TType::Name && tok.get_name() == "as" {
         lex.get_token();
         let seq_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, seq_type_xnode, "{}: 型の指定が必要。");
         let param_xnode = new_xnode(XNodeType::Param, &param_name);
         assign_as_left(&param_xnode, &seq_type_xnode);
         return Ok(param_xnode);
@@ -2344,6 +2366,7 @@ fn parse_map_constructor_entries(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let entry_xnode = parse_map_constructor_entry(lex)?;
+        error_if_nil!(lex, entry_xnode, "{}: カンマの後にはマップの要素が必要。");
         let entry_list_xnode = new_xnode(XNodeType::MapConstruct, "");
         assign_as_left(&entry_list_xnode, &entry_xnode);
         assign_as_right(&curr_xnode, &entry_list_xnode);
@@ -2448,6 +2471,7 @@ fn parse_expr_in_array(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let expr_xnode = parse_expr_single(lex)?;
+        error_if_nil!(lex, expr_xnode, "{}: カンマの後には配列の要素が必要。");
         let entry_xnode = new_xnode(XNodeType::ArrayEntry, "");
         assign_as_left(&entry_xnode, &expr_xnode);
         assign_as_right(&curr_xnode, &entry_xnode);
@@ -2633,6 +2657,7 @@ fn parse_argument_list_sub(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let next_arg_xnode = parse_argument(lex)?;
+        error_if_nil!(lex, next_arg_xnode, "{}: カンマの後には引数が必要。");
         assign_as_right(&curr, &next_arg_xnode);
         curr = next_arg_xnode.clone();
     }
-- 
2.43.0


From 53d778bf7d536aa25363cd65b4b523039c847266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 44/90] fix: return, in, then, else, satisfies and as are
 required where the grammar has them

---
 src/xpath_impl/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 2e4a8a1..7b128a4 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -224,7 +224,7 @@ macro_rules! error_if_not_ttype {
 //
 macro_rules! error_if_not_name {
     ( $lex: expr, $name: expr, $msg: expr ) => {
-        if $lex.next_token().get_type() != TType::Name &&
+        if $lex.next_token().get_type() != TType::Name ||
            $lex.next_token().get_name() != $name {
             return Err(xpath_syntax_error!($msg,
                 $lex.around_tokens().as_str()));
-- 
2.43.0


From caa99c4d303d4eadc7167547198377d41d0a8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 45/90] fix: .. may be followed by predicates

---
 src/xpath_impl/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 7b128a4..dc02d5f 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -380,7 +380,10 @@ fn parse_axis_step(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         },
         TType::DotDot => {// 「..」は「parent::node()」の省略形
             lex.get_token();
-            return Ok(new_xnode(XNodeType::AxisParent, "node()"));
+            let axis_xnode = new_xnode(XNodeType::AxisParent, "node()");
+            let predicates_xnode = parse_predicate_list(lex, true)?;
+            assign_as_right(&axis_xnode, &predicates_xnode);
+            return Ok(axis_xnode);
         },
         _ => {  // 「空」は「child::」の省略形
             return parse_node_test(lex, &XNodeType::AxisChild);
-- 
2.43.0


From b6f2d9e11cda1d0b2e47895d6bdaac7ab3d54ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 46/90] fix: array{} and an inline function with an empty body

---
 src/xpath_impl/parser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index dc02d5f..ad44326 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -2314,7 +2314,7 @@ fn parse_function_body(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     error_if_not_ttype!(lex, TType::LeftCurly, "{}: 函数本体を始める左波括弧が必要。");
     lex.get_token();
 
-    let xnode = parse_expr(lex)?;
+    let xnode = parse_enclosed_expr(lex)?;
 
     error_if_not_ttype!(lex, TType::RightCurly, "{}: 函数本体を閉じる右波括弧が必要。");
     lex.get_token();
@@ -2322,6 +2322,16 @@ fn parse_function_body(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     return Ok(xnode);
 }
 
+// ---------------------------------------------------------------------
+// 波括弧の中の Expr? を解析する。
+// 空の場合は、空シーケンス "()" に相当する構文木を返す。
+//
+fn parse_enclosed_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
+    let xnode = parse_expr(lex)?;
+    return_if_non_nil!(xnode);
+    return Ok(new_xnode(XNodeType::ParenthesizedExpr, ""));
+}
+
 // ---------------------------------------------------------------------
 // [ 69] MapConstructor ::= "map" "{" (MapConstructorEntry ("," MapConstructorEntry)*)? "}"
 // これを次のように分解する。
@@ -2445,7 +2455,7 @@ fn parse_curly_array_constructor(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>
     error_if_not_ttype!(lex, TType::LeftCurly, "{}: 配列を開く左波括弧が必要。");
     lex.get_token();
 
-    let array_top_xnode = parse_expr(lex)?;
+    let array_top_xnode = parse_enclosed_expr(lex)?;
 
     error_if_not_ttype!(lex, TType::RightCurly, "{}: 配列を閉じる右波括弧が必要。");
     lex.get_token();
-- 
2.43.0


From 323bb7f9a01f8fe886112454213fb1b5645a40aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 47/90] fix: a parenthesized item type means the item type
 within

---
 src/xpath_impl/parser.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index ad44326..5eb588d 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -1554,9 +1554,7 @@ fn parse_parenthesized_item_type(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>
     error_if_not_ttype!(lex, TType::RightParen, "{}: 閉じ括弧が必要。");
     lex.get_token();
 
-    let paren_xnode = new_xnode(XNodeType::ParenthesizedItemType, "");
-    assign_as_left(&paren_xnode, &xnode);
-    return Ok(paren_xnode);
+    return Ok(xnode);
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From 7071ab160a263d643550b0935fd0e7a74a7ebb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 48/90] fix: map keys of different kinds (3 and "3") are
 different keys

---
 src/xpath_impl/xitem.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index cd6a397..06f48fa 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -520,8 +520,7 @@ impl XItem {
     }
 
     // -----------------------------------------------------------------
-    // 若干厳密さに欠ける (例えば、"3" と3が同じになってしまう) が、
-    // 当面、raw_stringとして比較する。
+    // 原子化した上で、同種の値どうしを比較する。種類が異なればfalse。
     //
     // (1) string (、anyURI、untypedAtomic) どうしの場合:
     //     fn:codepoint-equal($k1, $k2) で比較する。
@@ -535,19 +534,18 @@ impl XItem {
     //     fn:deep-equal($k1, $k2) で比較する。
     //
     pub fn op_same_key(&self, other: &XItem) -> bool {
-        let k1 = self.get_as_raw_string();
-        if let Err(_) = k1 {
-            return false;
-        }
-        let k1 = k1.unwrap();
-
-        let k2 = other.get_as_raw_string();
-        if let Err(_) = k2 {
-            return false;
+        match (self.atomize(), other.atomize()) {
+            (XItem::XIString{value: k1}, XItem::XIString{value: k2}) => return k1 == k2,
+            (XItem::XIBoolean{value: k1}, XItem::XIBoolean{value: k2}) => return k1 == k2,
+            (XItem::XIInteger{value: k1}, XItem::XIInteger{value: k2}) => return k1 == k2,
+            (ref k1, ref k2) if k1.is_numeric() && k2.is_numeric() => {
+                match (k1.get_as_raw_double(), k2.get_as_raw_double()) {
+                    (Ok(d1), Ok(d2)) => return d1 == d2 || d1.is_nan() && d2.is_nan(),
+                    _ => return false,
+                }
+            },
+            _ => return false,
         }
-        let k2 = k2.unwrap();
-
-        return k1 == k2;
     }
 
     // -----------------------------------------------------------------
-- 
2.43.0


From cff71d9022a9da57a14fa9972d33e1a8aad380c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 49/90] fix: a reference to an undefined variable is an error,
 not the empty sequence

---
 src/xpath_impl/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 03bb593..98ed1bb 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -777,7 +777,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             if let Some(xseq) = eval_env.get_var(var_name.as_str()) {
                 return Ok(xseq);
             } else {
-                return Ok(new_xsequence());
+                return Err(dynamic_error!("${}: 変数が定義されていない。", var_name));
             }
         },
 
-- 
2.43.0


From cd5e5cc89880d441004863a721f24d35a8d88ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 50/90] fix: an axis step from an item that is not a node is a
 type error

---
 src/xpath_impl/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 98ed1bb..b61d58b 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -803,6 +803,9 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
 //
 fn match_location_path(xseq: &XSequence, xnode: &XNodePtr,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
+    if ! xseq.is_no_atom() {
+        return Err(type_error!("軸ステップ: 文脈アイテムがノードでない。"));
+    }
     let mut new_node_array: Vec<NodePtr> = vec!{};
     for node in xseq.to_nodeset().iter() {
         let mut matched_xseq = match_loc_step(node, xnode, eval_env)?;
-- 
2.43.0


From 1f882a2d6c746263272f743f68e45d903160feff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 51/90] fix: the key of a map entry is atomized

---
 src/xpath_impl/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index b61d58b..3ea091d 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2452,7 +2452,7 @@ fn convert_xnode_to_map_array(xnode: &XNodePtr,
                 }
 
                 let map_key_xnode = get_left(&map_entry_xnode);
-                let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.get_singleton_item()?;
+                let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.get_singleton_item()?.atomize();
 
                 let map_value_xnode = get_right(&map_entry_xnode);
                 let val = evaluate_xnode(context_xseq, &map_value_xnode, eval_env)?;
-- 
2.43.0


From 47a80f80eb3bfc1340b5f58c57d00fefdde118d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:19 +0000
Subject: [PATCH 52/90] fix: a colon between a map key and its value need not
 be surrounded by spaces

---
 src/xpath_impl/lexer.rs  | 26 +++++++++++++++++++++++++-
 src/xpath_impl/parser.rs |  2 +-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 273480a..9614369 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -28,7 +28,8 @@ pub enum TType {
     DotDot,
     Dot,
     ColonColon,
-    Colon,
+    Colon,                  // QNameを構成するコロン
+    MapColon,               // マップのキーと値を区切るコロン
     ValueEQ,
     ValueNE,
     ValueGT,
@@ -343,6 +344,14 @@ impl Lexer {
 
         for (keyword, ttype) in keywords_spec.iter() {
             if self.look_ahead_keyword(keyword) == true {
+                if keyword.starts_with(":") && ! keyword.starts_with("::") &&
+                   *ttype != TType::Bind &&
+                   ! self.is_qname_colon(keyword.len()) {
+                    if *ttype == TType::ColonAsterisk {
+                        self.unread_rune();         // "*"
+                    }
+                    return Ok(new_token(TType::MapColon, ":"));
+                }
                 return Ok(new_token(ttype.clone(), keyword));
             }
         }
@@ -391,6 +400,20 @@ impl Lexer {
         }
     }
 
+    // -----------------------------------------------------------------
+    // 直前に読んだ字句 ":" または ":*" (長さはlen) のコロンが、空白を挟まずに
+    // 名前の直後にあり、名前または "*" の直前にあれば、
+    // QNameまたはWildcardを構成するコロンである。
+    //
+    fn is_qname_colon(&self, len: usize) -> bool {
+        let colon = self.ch_index - len;
+        return self.tokens.last().map_or(false,
+                        |tok| tok.t_type == TType::InnerName) &&
+               is_name_char(self.char_vec[colon - 1]) &&
+               self.char_vec.get(colon + 1).map_or(false,
+                        |ch| *ch == '*' || is_name_start_char(*ch));
+    }
+
     // -----------------------------------------------------------------
     // 特別なトークン規則 (1)
     // 前にトークンがあり、そのトークンが
@@ -443,6 +466,7 @@ impl Lexer {
             TType::NodeAfter,       // (註2)
             TType::Asterisk,
             TType::Colon,           // (註1)
+            TType::MapColon,
             TType::Dollar,
             TType::OperatorMap,
             TType::OperatorConcat,
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 5eb588d..367e30c 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -2399,7 +2399,7 @@ fn parse_map_constructor_entry(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>>
     let key_xnode = parse_expr_single(lex)?;
     return_if_nil!(key_xnode);
 
-    error_if_not_ttype!(lex, TType::Colon, "{}: MapConstructorのコロンが必要。");
+    error_if_not_ttype!(lex, TType::MapColon, "{}: MapConstructorのコロンが必要。");
     lex.get_token();
 
     let value_xnode = parse_expr_single(lex)?;
-- 
2.43.0


From 1759b43c00f0163d5176bc08ec5221c2b5bca16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 53/90] fix: the name tests *:name, Q{uri}name and Q{uri}*
 select by local name and namespace

---
 src/xpath_impl/eval.rs  | 19 +++++++++++++++++++
 src/xpath_impl/lexer.rs |  2 ++
 2 files changed, 21 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 3ea091d..96331a0 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1133,6 +1133,25 @@ fn match_name_test(node: &NodePtr, xnode: &XNodePtr) -> bool {
         }
     }
 
+    // -------------------------------------------------------------
+    // 「*:na」との照合にもとづく判定
+    //
+    if v.len() == 2 && v[0] == "*" {
+        return node.local_name() == v[1];
+    }
+
+    // -------------------------------------------------------------
+    // 「Q{uri}na」「Q{uri}*」との照合にもとづく判定
+    //
+    if name_test_pattern.starts_with("Q{") {
+        if let Some(end) = name_test_pattern.find('}') {
+            let uri = &name_test_pattern[2 .. end];
+            let local = &name_test_pattern[end + 1 ..];
+            return node.namespace_uri() == uri &&
+                   (local == "*" || local == node.local_name());
+        }
+    }
+
     return false;
 }
 
diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 9614369..70c50fa 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -467,6 +467,8 @@ impl Lexer {
             TType::Asterisk,
             TType::Colon,           // (註1)
             TType::MapColon,
+            TType::AsteriskColon,
+            TType::BracedURILiteral,
             TType::Dollar,
             TType::OperatorMap,
             TType::OperatorConcat,
-- 
2.43.0


From 85f21def249908c42b2f8e8833deea1ddf445d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:28 +0000
Subject: [PATCH 54/90] fix: an unprefixed attribute, a text node and a comment
 have no namespace, and the prefix xml is predeclared

---
 src/dom.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index a8cce37..2e54b01 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -441,6 +441,22 @@ impl NodePtr {
     pub fn namespace_uri(&self) -> String {
         let mut xmlns_attr = String::from("xmlns");
         let space = self.space_name();
+        match self.node_type() {
+            NodeType::Element => {},
+            NodeType::Attribute => {
+                // デフォルトの名前空間は属性に及ばない。
+                if space.as_str() == "xmlns" || self.name() == "xmlns" {
+                    return String::from("http://www.w3.org/2000/xmlns/");
+                }
+                if space.as_str() == "" {
+                    return String::new();
+                }
+            },
+            _ => return String::new(),
+        }
+        if space.as_str() == "xml" {
+            return String::from("http://www.w3.org/XML/1998/namespace");
+        }
         if space.as_str() != "" {
             xmlns_attr += &":";
             xmlns_attr += &space;
-- 
2.43.0


From 5039e5af10779cd4e77f2300948cd26580798a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:41 +0000
Subject: [PATCH 55/90] fix: calling a map with a key it does not contain gives
 the empty sequence

---
 src/xpath_impl/eval.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 96331a0..8d5e4d9 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1442,12 +1442,7 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
                 argument_xseq.len()));
         }
         let key = argument_xseq[0].get_singleton_item()?;
-        if let Some(v) = map_item.map_get(&key) {
-            return Ok(v);
-        } else {
-            return Err(dynamic_error!(
-                    "map_lookup: key = {}: 値が見つからない。", key));
-        }
+        return Ok(map_item.map_get(&key).unwrap_or_else(new_xsequence));
     }
 
     // -----------------------------------------------------------------
-- 
2.43.0


From 11103001c4f20a8d9a4413da46eb4c38482fef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:53 +0000
Subject: [PATCH 56/90] fix: an array index out of bounds is an error in a
 lookup and in array:get

---
 src/xpath_impl/eval.rs | 2 ++
 src/xpath_impl/func.rs | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 8d5e4d9..0c37f7b 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -763,6 +763,8 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
                     if let Some(v) = xitem_array.array_get(index) {
                         result.append(&v);
                     } else {
+                        return Err(dynamic_error!(
+                            "lookup: Array index ({}) out of bounds.", index));
                     }
                 }
                 return Ok(result);
diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 7bd4581..55bf9ae 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1692,7 +1692,8 @@ fn array_get(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let index = args[1].get_singleton_item()?;
     match xseq_array.array_get(&index) {
         Some(v) => return Ok(v),
-        None => return Ok(new_xsequence()),
+        None => return Err(dynamic_error!(
+            "array:get: Array index ({}) out of bounds.", index)),
     }
 }
 
-- 
2.43.0


From b6722e60b0093be45d5198b77140a563ca8db2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 57/90] fix: two entries of a map constructor with the same key
 are an error

---
 src/xpath_impl/eval.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 0c37f7b..29ee9f1 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2470,6 +2470,10 @@ fn convert_xnode_to_map_array(xnode: &XNodePtr,
                 let map_key_xnode = get_left(&map_entry_xnode);
                 let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.get_singleton_item()?.atomize();
 
+                if vec_item.iter().any(|entry| entry.0.op_same_key(&key)) {
+                    return Err(dynamic_error!("マップのキーが重複している。"));
+                }
+
                 let map_value_xnode = get_right(&map_entry_xnode);
                 let val = evaluate_xnode(context_xseq, &map_value_xnode, eval_env)?;
                 vec_item.push((key, val));
-- 
2.43.0


From 34246609d0bb8b029255d8046427056462d9b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:31 +0000
Subject: [PATCH 58/90] fix: atomization and comparisons use the members of an
 array

---
 src/xpath_impl/func.rs      | 13 +------------
 src/xpath_impl/xsequence.rs | 24 ++++++++++++++++++++----
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 55bf9ae..6cbbb13 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1702,18 +1702,7 @@ fn array_get(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // array:flatten($input as item()*) as item()*
 //
 fn array_flatten(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    let mut result = new_xsequence();
-    for xitem in args[0].iter() {
-        match xitem.get_as_raw_array() {
-            Ok(xseq_array) => {
-                result.append(&xseq_array.array_flatten());
-            },
-            _ => {
-                result.push(xitem);
-            },
-        }
-    }
-    return Ok(result);
+    return Ok(args[0].array_flatten());
 }
 
 // ---------------------------------------------------------------------
diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 99df587..18d29fd 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -238,16 +238,30 @@ impl XSequence {
     }
 
     // -----------------------------------------------------------------
-    // 原子化
+    // 原子化 (配列は、その要素を並べたものとする)
     //
     pub fn atomize(&self) -> XSequence {
         let mut seq = new_xsequence();
-        for v in self.value.iter() {
+        for v in self.array_flatten().value.iter() {
             seq.push(&v.atomize());
         }
         return seq;
     }
 
+    // -----------------------------------------------------------------
+    // 配列を、その要素を並べたものに置き換える。
+    //
+    pub fn array_flatten(&self) -> XSequence {
+        let mut seq = new_xsequence();
+        for v in self.value.iter() {
+            match v {
+                XItem::XIArray{value} => seq.append(&value.array_flatten()),
+                _ => seq.push(v),
+            }
+        }
+        return seq;
+    }
+
     // -----------------------------------------------------------------
     //
     pub fn is_empty(&self) -> bool {
@@ -425,6 +439,8 @@ fn value_comparison<FNUM, FSTR, FBOOL>(lhs: &XSequence, rhs: &XSequence,
           FSTR: FnMut(i64) -> bool,
           FBOOL: FnMut(&Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
+    let lhs = lhs.atomize();
+    let rhs = rhs.atomize();
     if lhs.is_empty() || rhs.is_empty() {
         return Ok(new_xsequence());
     }
@@ -433,8 +449,6 @@ fn value_comparison<FNUM, FSTR, FBOOL>(lhs: &XSequence, rhs: &XSequence,
                     "value_compare: operand is not singleton: {} : {}",
                     lhs.to_string(), rhs.to_string()));
     }
-    let lhs = lhs.atomize();
-    let rhs = rhs.atomize();
     if let Ok(result) = num_op(&vec!{&lhs, &rhs}) {
         return Ok(result);
     }
@@ -513,6 +527,8 @@ fn general_comparison<FNUM, FSTR, FBOOL>(lhs: &XSequence, rhs: &XSequence,
           FSTR: FnMut(i64) -> bool,
           FBOOL: FnMut(&XItem, &XItem) -> Result<bool, Box<Error>> {
 
+    let lhs = lhs.array_flatten();
+    let rhs = rhs.array_flatten();
     for lhs_item in lhs.iter() {
         for rhs_item in rhs.iter() {
             let xitem_lhs = general_operand(lhs_item, rhs_item);
-- 
2.43.0


From 5d3194b4956c98db2fdc453ac003cfec56681a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:40 +0000
Subject: [PATCH 59/90] fix: the range operator accepts empty operands and
 casts nodes to integers

---
 src/xpath_impl/oper.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index 07d63a9..9cb0434 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -279,8 +279,11 @@ pub fn op_except(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence,
 //   (XPath 3.1 では演算子の項に載っていない)
 //
 pub fn op_to(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
-    let firstval = args[0].get_singleton_integer()?;
-    let lastval = args[1].get_singleton_integer()?;
+    if args[0].is_empty() || args[1].is_empty() {
+        return Ok(new_xsequence());
+    }
+    let firstval = range_operand(&args[0])?;
+    let lastval = range_operand(&args[1])?;
     let mut seq = new_xsequence();
     for n in firstval ..= lastval {
         seq.push(&new_xitem_integer(n));
@@ -288,6 +291,15 @@ pub fn op_to(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
     return Ok(seq);
 }
 
+// ノード (型註釈がないので、原子化した結果はxs:untypedAtomic) は、
+// 整数にキャストする。
+fn range_operand(arg: &XSequence) -> Result<i64, Box<Error>> {
+    if let Ok(XItem::XINode{value: _}) = arg.get_singleton_item() {
+        return arg.cast_as("integer")?.get_singleton_integer();
+    }
+    return arg.get_singleton_integer();
+}
+
 // =====================================================================
 //
 #[cfg(test)]
-- 
2.43.0


From 8f49ed4f3e4c979f20154a31e69fb8e814f3254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 60/90] fix: only the lexical forms of xs:double are numbers,
 not Rust's inf, nan and infinity

---
 src/xpath_impl/xitem.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 06f48fa..499d529 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -21,11 +21,31 @@ use xpath_impl::xsequence::*;
 // ---------------------------------------------------------------------
 //
 fn atof(s: &str) -> f64 {
-    return f64::from_str(s.trim()).unwrap_or(f64::NAN);
+    return parse_double(s).unwrap_or(f64::NAN);
 }
 
 fn atoi(s: &str) -> i64 {
-    return i64::from_str(s.trim()).unwrap_or(0);
+    return i64::from_str(trim_xml_spaces(s)).unwrap_or(0);
+}
+
+// 両端の空白 (XMLの空白文字) を取り除く。
+fn trim_xml_spaces(s: &str) -> &str {
+    return s.trim_matches(|ch| ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n');
+}
+
+// xs:doubleの字句形式。無限大は「INF」と書き、その他の語は数値でない。
+fn parse_double(s: &str) -> Option<f64> {
+    let s = trim_xml_spaces(s);
+    match s {
+        "INF" | "+INF" => return Some(f64::INFINITY),
+        "-INF" => return Some(f64::NEG_INFINITY),
+        "NaN" => return Some(f64::NAN),
+        _ => {},
+    }
+    if s.bytes().any(|b| b.is_ascii_alphabetic() && b != b'e' && b != b'E') {
+        return None;
+    }
+    return f64::from_str(s).ok();
 }
 
 fn f64_to_i64(f: f64) -> i64 {
@@ -604,14 +624,14 @@ impl XItem {
     //
     fn cast_to_f64(&self) -> Option<f64> {
         match self.atomize() {
-            XItem::XIString{value} => return f64::from_str(value.trim()).ok(),
+            XItem::XIString{value} => return parse_double(&value),
             item => return item.get_as_raw_double().ok(),
         }
     }
 
     fn cast_to_i64(&self) -> Option<i64> {
         match self.atomize() {
-            XItem::XIString{value} => return i64::from_str(value.trim()).ok(),
+            XItem::XIString{value} => return i64::from_str(trim_xml_spaces(&value)).ok(),
             XItem::XIDecimal{value} => return checked_f64_to_i64(value),
             XItem::XIDouble{value} => return checked_f64_to_i64(value),
             item => return item.get_as_raw_integer().ok(),
-- 
2.43.0


From af9cca28bc88eec22b210d03596b1f789277f39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:03 +0000
Subject: [PATCH 61/90] fix: a string with an exponent is not a decimal

---
 src/xpath_impl/xitem.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 499d529..3d8fd5b 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -596,6 +596,12 @@ impl XItem {
                 }
             },
             "decimal" | "xs:decimal" => {
+                if let XItem::XIString{ref value} = self.atomize() {
+                    if value.contains(|ch| ch == 'e' || ch == 'E') {
+                        return Err(type_error!("Item {}: can't cast to {}",
+                                self.to_string(), type_name));
+                    }
+                }
                 if let Some(d) = self.cast_to_f64() {
                     if d.is_finite() {              // NaN、INFはdecimalにない
                         return Ok(new_xitem_decimal(d));
-- 
2.43.0


From 2242e20df0dd1dd77eceb404613e906e3294a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 62/90] fix: white space around the string is ignored in a cast
 to boolean

---
 src/xpath_impl/xitem.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 3d8fd5b..a301931 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -814,7 +814,7 @@ impl XItem {
     pub fn get_as_raw_boolean(&self) -> Result<bool, Box<Error>> {
         match self {
             XItem::XINode{value} => {
-                match value.string_value().as_str() {
+                match trim_xml_spaces(&value.string_value()) {
                     "true" | "1" => return Ok(true),
                     "false" | "0" => return Ok(false),
                     _ => {},
@@ -822,7 +822,7 @@ impl XItem {
             },
             XItem::XIInteger{value} => return Ok(*value != 0),
             XItem::XIString{value} => {
-                match value.as_str() {
+                match trim_xml_spaces(value) {
                     "true" | "1" => return Ok(true),
                     "false" | "0" => return Ok(false),
                     _ => {},
-- 
2.43.0


From e046780336ba15797f766387fe9ca651a2c69054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:06 +0000
Subject: [PATCH 63/90] fix: the string value of an infinity is INF or -INF

---
 src/xpath_impl/xitem.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index a301931..1e5897d 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -704,9 +704,9 @@ impl XItem {
                     return Ok(String::from("NaN"));
                 } else if value.is_infinite() {
                     if value.signum() == 1.0 {
-                        return Ok(String::from("+Infinity"));
+                        return Ok(String::from("INF"));
                     } else {
-                        return Ok(String::from("-Infinity"));
+                        return Ok(String::from("-INF"));
                     }
                 } else {
                     return Ok(String::from(format!("{}", value)));
-- 
2.43.0


From 0842ceb00e5825cdc6c6265244aa7354fb6d0cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 64/90] fix: a name after return, in, then, else or satisfies
 is not an operator

---
 src/xpath_impl/lexer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 70c50fa..559ee25 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -495,15 +495,22 @@ impl Lexer {
             ( "except",    TType::Except ),         // (註2)
         ].iter().cloned().collect();
 
+        let keywords = ["return", "in", "then", "else", "satisfies"];
         let mut prev_is_wildcard = false;
+        let mut prev_is_keyword = false;
         let mut i = 1;
         while self.tokens[i].t_type != TType::EOF {
             // 直前の「*」が名前テストであれば (乗算記号でなければ)、
             // その次は演算子である。
-            let after_operand = prev_is_wildcard ||
+            // また、演算子が現れうる位置の「return」などは構文上の語であり、
+            // その次は演算子ではない。
+            let after_operand = prev_is_wildcard || ! prev_is_keyword &&
                 ! prev_t_types.contains(&self.tokens[i-1].t_type);
             prev_is_wildcard = ! after_operand &&
                 self.tokens[i].t_type == TType::Asterisk;
+            prev_is_keyword = after_operand &&
+                self.tokens[i].t_type == TType::InnerName &&
+                keywords.contains(&self.tokens[i].name.as_str());
             if after_operand && self.tokens[i].t_type == TType::InnerName {
                 if let Some(op_type) = operator_words.get(self.tokens[i].name.as_str()) {
                     self.tokens[i].t_type = op_type.clone();
-- 
2.43.0


From 1190024f448f37c36784f267cfe0dfdc5e3638f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 65/90] fix: * and a colon before something that is no name are
 two symbols

---
 src/xpath_impl/lexer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 559ee25..2aeaee0 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -344,6 +344,13 @@ impl Lexer {
 
         for (keyword, ttype) in keywords_spec.iter() {
             if self.look_ahead_keyword(keyword) == true {
+                // "*:" は名前の直前でなければ、"*" と ":" である。
+                if *ttype == TType::AsteriskColon &&
+                   ! self.char_vec.get(self.ch_index).map_or(false,
+                        |ch| is_name_start_char(*ch)) {
+                    self.unread_rune();             // ":"
+                    return Ok(new_token(TType::Asterisk, "*"));
+                }
                 if keyword.starts_with(":") && ! keyword.starts_with("::") &&
                    *ttype != TType::Bind &&
                    ! self.is_qname_colon(keyword.len()) {
-- 
2.43.0


From bc2133ccdcd2ad76a22892efbdb43e14f613c4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:23 +0000
Subject: [PATCH 66/90] fix: a qualified name has one colon, so the next one
 separates a map key from its value

---
 src/xpath_impl/lexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 2aeaee0..18f4a12 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -414,8 +414,12 @@ impl Lexer {
     //
     fn is_qname_colon(&self, len: usize) -> bool {
         let colon = self.ch_index - len;
+        let before = &self.tokens[self.tokens.len().saturating_sub(2)];
         return self.tokens.last().map_or(false,
                         |tok| tok.t_type == TType::InnerName) &&
+               before.t_type != TType::Colon &&
+               before.t_type != TType::AsteriskColon &&
+               before.t_type != TType::BracedURILiteral &&
                is_name_char(self.char_vec[colon - 1]) &&
                self.char_vec.get(colon + 1).map_or(false,
                         |ch| *ch == '*' || is_name_start_char(*ch));
-- 
2.43.0


From a4d859658cee71cd5bc830a0237c0635b8e7ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 67/90] fix: an operator name may follow the occurrence
 indicator of a type

---
 src/xpath_impl/lexer.rs | 47 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 18f4a12..770544f 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -515,7 +515,9 @@ impl Lexer {
             // その次は演算子である。
             // また、演算子が現れうる位置の「return」などは構文上の語であり、
             // その次は演算子ではない。
-            let after_operand = prev_is_wildcard || ! prev_is_keyword &&
+            // 直前の「*」や「+」が型の出現標識であれば、その次は演算子である。
+            let after_operand = prev_is_wildcard ||
+                self.is_occurrence_indicator(i - 1) || ! prev_is_keyword &&
                 ! prev_t_types.contains(&self.tokens[i-1].t_type);
             prev_is_wildcard = ! after_operand &&
                 self.tokens[i].t_type == TType::Asterisk;
@@ -531,6 +533,49 @@ impl Lexer {
         }
     }
 
+    // -----------------------------------------------------------------
+    // 「instance of」や「as」に続く型の直後の「*」または「+」であるか否か。
+    //
+    fn is_occurrence_indicator(&self, i: usize) -> bool {
+        let is_type_keyword = |tok: &Token| -> bool {
+            return tok.t_type == TType::InnerName &&
+                   (tok.name == "of" || tok.name == "as");
+        };
+        let t_type = &self.tokens[i].t_type;
+        if *t_type != TType::Asterisk && *t_type != TType::Plus {
+            return false;
+        }
+
+        let mut j = i - 1;                  // 型の末尾
+        let mut depth = 0;
+        loop {
+            match self.tokens[j].t_type {
+                TType::EOF => return false,
+                TType::RightParen => depth += 1,
+                TType::LeftParen => depth -= 1,
+                _ => {},
+            }
+            if depth <= 0 {
+                break;
+            }
+            j -= 1;
+        }
+        if self.tokens[j].t_type == TType::LeftParen {
+            j -= 1;
+            if is_type_keyword(&self.tokens[j]) {
+                return true;
+            }
+        }
+        if self.tokens[j].t_type != TType::InnerName {
+            return false;
+        }
+        j -= 1;
+        if self.tokens[j].t_type == TType::Colon {
+            j -= 2;
+        }
+        return is_type_keyword(&self.tokens[j]);
+    }
+
     // -----------------------------------------------------------------
     // 特別なトークン規則 (2)
     // 2語から成るトークンを縮約する。
-- 
2.43.0


From a7a50be8f3c45f5c69408ffb6bdce29b522f8079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:45 +0000
Subject: [PATCH 68/90] fix: a blank XPath is a syntax error

---
 src/xpath_impl/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 367e30c..f5e16e7 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -295,6 +295,7 @@ fn parse_main(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_expr(lex)?;
 
     error_if_not_ttype!(lex, TType::EOF, "{}: 余分な字句が継続。");
+    error_if_nil!(lex, xnode, "{}: 式が必要。");
 
     return Ok(xnode);
 }
-- 
2.43.0


From 1309eb8f21966174daa217851b17b473fce35a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 69/90] fix: names after as, $ and ? are names, and a ? after a
 type is an occurrence indicator (lexer)

---
 src/xpath_impl/lexer.rs | 91 +++++++++++++++++++++--------------------
 1 file changed, 46 insertions(+), 45 deletions(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 770544f..baaca3f 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -268,16 +268,11 @@ impl Lexer {
         lexer.index = 1;
 
         // -------------------------------------------------------------
-        // 特別なトークン規則 (1)
+        // 特別なトークン規則 (1) (2)
         // 所定の条件のとき、名前を演算子に書き替え。
-        //
-        lexer.rewrite_operator_type();
-
-        // -------------------------------------------------------------
-        // 特別なトークン規則 (2)
         // 2語から成るトークンを縮約。縮約によって生じたNopを削除。
         //
-        lexer.rewrite_pair_words();
+        lexer.rewrite_operator_type();
         lexer.eliminate_nops();
 
         // -------------------------------------------------------------
@@ -485,6 +480,14 @@ impl Lexer {
             TType::OperatorConcat,
             TType::Bind,
             TType::LeftCurly,
+            TType::Question,
+        ];
+
+        let operator_pair_words: [(&str, &str, TType); 4] = [
+            ( "instance", "of", TType::InstanceOf ),
+            ( "treat",    "as", TType::TreatAs ),
+            ( "castable", "as", TType::CastableAs ),
+            ( "cast",     "as", TType::CastAs ),
         ];
 
         let operator_words: HashMap<&str, TType> = [
@@ -506,7 +509,7 @@ impl Lexer {
             ( "except",    TType::Except ),         // (註2)
         ].iter().cloned().collect();
 
-        let keywords = ["return", "in", "then", "else", "satisfies"];
+        let keywords = ["return", "in", "then", "else", "satisfies", "as"];
         let mut prev_is_wildcard = false;
         let mut prev_is_keyword = false;
         let mut i = 1;
@@ -515,7 +518,7 @@ impl Lexer {
             // その次は演算子である。
             // また、演算子が現れうる位置の「return」などは構文上の語であり、
             // その次は演算子ではない。
-            // 直前の「*」や「+」が型の出現標識であれば、その次は演算子である。
+            // 直前の「?」「*」「+」が型の出現標識であれば、その次は演算子である。
             let after_operand = prev_is_wildcard ||
                 self.is_occurrence_indicator(i - 1) || ! prev_is_keyword &&
                 ! prev_t_types.contains(&self.tokens[i-1].t_type);
@@ -528,23 +531,43 @@ impl Lexer {
                 if let Some(op_type) = operator_words.get(self.tokens[i].name.as_str()) {
                     self.tokens[i].t_type = op_type.clone();
                 }
+                // 2語から成るトークンを縮約する。
+                let (next_type, next_name) = (self.tokens[i+1].t_type.clone(),
+                                              self.tokens[i+1].name.clone());
+                for (str1, str2, t_type) in operator_pair_words.iter() {
+                    if next_type == TType::InnerName && next_name == *str2 &&
+                       self.tokens[i].name == *str1 {
+                        self.tokens[i].t_type = t_type.clone();
+                        self.tokens[i+1].t_type = TType::Nop;
+                        prev_is_keyword = true;
+                        i += 1;
+                        break;
+                    }
+                }
             }
             i += 1;
         }
     }
 
     // -----------------------------------------------------------------
-    // 「instance of」や「as」に続く型の直後の「*」または「+」であるか否か。
+    // 「instance of」や「as」に続く型の直後の「?」「*」または「+」であるか否か。
+    // 「cast as」や「castable as」の型には「?」だけが付く。
     //
     fn is_occurrence_indicator(&self, i: usize) -> bool {
-        let is_type_keyword = |tok: &Token| -> bool {
-            return tok.t_type == TType::InnerName &&
-                   (tok.name == "of" || tok.name == "as");
-        };
         let t_type = &self.tokens[i].t_type;
-        if *t_type != TType::Asterisk && *t_type != TType::Plus {
+        if *t_type != TType::Asterisk && *t_type != TType::Plus &&
+           *t_type != TType::Question {
             return false;
         }
+        let is_type_keyword = |j: usize| -> bool {
+            return match self.tokens[j].t_type {
+                TType::InnerName => self.tokens[j].name == "as",
+                TType::Nop => *t_type == TType::Question ||
+                              self.tokens[j-1].t_type == TType::InstanceOf ||
+                              self.tokens[j-1].t_type == TType::TreatAs,
+                _ => false,
+            };
+        };
 
         let mut j = i - 1;                  // 型の末尾
         let mut depth = 0;
@@ -562,7 +585,7 @@ impl Lexer {
         }
         if self.tokens[j].t_type == TType::LeftParen {
             j -= 1;
-            if is_type_keyword(&self.tokens[j]) {
+            if is_type_keyword(j) {
                 return true;
             }
         }
@@ -573,34 +596,7 @@ impl Lexer {
         if self.tokens[j].t_type == TType::Colon {
             j -= 2;
         }
-        return is_type_keyword(&self.tokens[j]);
-    }
-
-    // -----------------------------------------------------------------
-    // 特別なトークン規則 (2)
-    // 2語から成るトークンを縮約する。
-    //
-    fn rewrite_pair_words(&mut self) {
-        let operator_pair_words: [(&str, &str, TType); 4] = [
-            ( "instance", "of", TType::InstanceOf ),
-            ( "treat",    "as", TType::TreatAs ),
-            ( "castable", "as", TType::CastableAs ),
-            ( "cast",     "as", TType::CastAs ),
-        ];
-        let mut i = 1;
-        while self.tokens[i].t_type != TType::EOF {
-            if self.tokens[i].t_type == TType::InnerName &&
-               self.tokens[i+1].t_type == TType::InnerName {
-                for (str1, str2, t_type) in operator_pair_words.iter() {
-                    if self.tokens[i].name.as_str() == *str1 &&
-                       self.tokens[i+1].name.as_str() == *str2 {
-                        self.tokens[i].t_type = t_type.clone();
-                        self.tokens[i+1].t_type = TType::Nop;
-                    }
-                }
-            }
-            i += 1;
-        }
+        return is_type_keyword(j);
     }
 
     // -----------------------------------------------------------------
@@ -652,8 +648,13 @@ impl Lexer {
         let mut i = 1;
         while self.tokens[i].t_type != TType::EOF {
             if self.tokens[i].t_type == TType::InnerName {
+                // 変数名や、「?」に続くキーは、書き替えない。
+                let is_plain_name =
+                    self.tokens[i-1].t_type == TType::Dollar ||
+                    self.tokens[i-1].t_type == TType::Question;
                 for (name, next_t_type, new_t_type) in name_and_symbol_tbl.iter() {
-                    if self.tokens[i].name.as_str() == *name &&
+                    if ! is_plain_name &&
+                       self.tokens[i].name.as_str() == *name &&
                        self.tokens[i+1].t_type == *next_t_type {
                         self.tokens[i].t_type = new_t_type.clone();
                     }
-- 
2.43.0


From 80f41d1866d68bf712db6a831bd2c7684f9c2029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:15 +0000
Subject: [PATCH 70/90] fix: a function item keeps the variables and arguments
 of its definition, also when partially applied

---
 src/verif.rs                |   2 +-
 src/xpath_impl/eval.rs      | 257 +++++++++++++++++++++---------------
 src/xpath_impl/func.rs      |   6 +-
 src/xpath_impl/xitem.rs     |  12 +-
 src/xpath_impl/xsequence.rs |  17 +--
 5 files changed, 163 insertions(+), 131 deletions(-)

diff --git a/src/verif.rs b/src/verif.rs
index 1ca0c83..c5c28cc 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -107,6 +107,6 @@ fn from_xitem(item: &XItem) -> Value {
             }
             Value::Map(v)
         },
-        XItem::XItemXNodePtr{value: _} => Value::Other(String::from("function")),
+        XItem::XItemXNodePtr{..} => Value::Other(String::from("function")),
     }
 }
diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 29ee9f1..ed22a65 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -10,6 +10,7 @@ use std::cmp::Ordering;
 use std::error::Error;
 use std::f64;
 use std::i64;
+use std::mem;
 use std::str::FromStr;
 use std::usize;
 
@@ -709,9 +710,23 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
         XNodeType::InlineFunction |
         XNodeType::NamedFunctionRef |
         XNodeType::PartialFunctionCall => {
-            // インライン函数 | 名前付き函数参照:
+            // インライン函数 | 名前付き函数参照 | 部分函数:
             // この時点では評価せず、シングルトンとして包んで返す。
-            return Ok(new_singleton_xnodeptr(&xnode));
+            // ただし、変数の値や、部分函数の「?」以外の引数の値は、
+            // この時点のものを保持しておく。
+            let mut bound: Vec<(String, XSequence)> = vec!{};
+            if xnode_type == XNodeType::InlineFunction {
+                for entry in eval_env.var_vec.iter() {
+                    bound.push((entry.name.clone(), entry.value.clone()));
+                }
+            }
+            if xnode_type == XNodeType::PartialFunctionCall {
+                let (args, _) = evaluate_arguments(xseq, &get_right(&xnode), eval_env)?;
+                for val in args.iter() {
+                    bound.push((String::new(), val.clone()));
+                }
+            }
+            return Ok(new_singleton_xnodeptr(&xnode, bound));
         },
 
         XNodeType::Map |
@@ -1417,56 +1432,77 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
                 curr_xnode: &XNodePtr,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
-    let arg_xnode = get_left(&curr_xnode);
-
-    let mut argument_xseq: Vec<XSequence> = vec!{};
-    let mut curr_arg_top = arg_xnode.clone();
-    while ! is_nil_xnode(&curr_arg_top) {
-        let arg_expr = get_left(&curr_arg_top);
-        let val = evaluate_xnode(xseq, &arg_expr, eval_env)?;
-        argument_xseq.push(val);
-        curr_arg_top = get_right(&curr_arg_top);
-    }
-
-    // -----------------------------------------------------------------
-    // インライン函数 | 名前付き函数参照 | 部分函数
-    //
-    if let Ok(inline_func_xnode) = curr_xseq.get_singleton_xnodeptr() {
-        return call_function(&inline_func_xnode, argument_xseq, xseq, eval_env);
-    }
+    let (argument_xseq, has_placeholder) =
+            evaluate_arguments(xseq, &get_left(&curr_xnode), eval_env)?;
 
     // -----------------------------------------------------------------
-    // マップ
+    // 「?」があれば部分函数: 函数そのものと、「?」以外の引数の値を
+    // 保持しておく。
     //
-    if let Ok(map_item) = curr_xseq.get_singleton_map() {
-        if argument_xseq.len() != 1 {
-            return Err(type_error!("マップ: 引数の個数が合致しない: {}。",
-                argument_xseq.len()));
+    if has_placeholder {
+        let mut bound = vec!{(String::new(), curr_xseq.clone())};
+        for val in argument_xseq.iter() {
+            bound.push((String::new(), val.clone()));
         }
-        let key = argument_xseq[0].get_singleton_item()?;
-        return Ok(map_item.map_get(&key).unwrap_or_else(new_xsequence));
+        return Ok(new_singleton_xnodeptr(&curr_xnode, bound));
     }
 
-    // -----------------------------------------------------------------
-    // 配列
-    //
-    if let Ok(array_item) = curr_xseq.get_singleton_array() {
-        if argument_xseq.len() != 1 {
-            return Err(type_error!("配列: 引数の個数が合致しない: {}。",
-                argument_xseq.len()));
-        }
-        let index_item = argument_xseq[0].get_singleton_item()?;
-        if let Some(v) = array_item.array_get(&index_item) {
-            return Ok(v);
+    return call_function(curr_xseq, argument_xseq, xseq, eval_env);
+}
+
+// ---------------------------------------------------------------------
+// 引数並び (ArgumentTopまたはArgumentPlaceholderを右に連結したもの) のうち、
+// 「?」以外の引数を評価する。
+// 戻り値: (引数値の配列, 「?」の有無)
+//
+fn evaluate_arguments(xseq: &XSequence, arg_xnode: &XNodePtr,
+                eval_env: &mut EvalEnv) -> Result<(Vec<XSequence>, bool), Box<Error>> {
+
+    let mut argument_xseq: Vec<XSequence> = vec!{};
+    let mut has_placeholder = false;
+    let mut curr_arg_top = arg_xnode.clone();
+    while ! is_nil_xnode(&curr_arg_top) {
+        if get_xnode_type(&curr_arg_top) == XNodeType::ArgumentPlaceholder {
+            has_placeholder = true;
         } else {
-            return Err(dynamic_error!(
-                "Array index ({}) out of bounds.", index_item));
+            let arg_expr = get_left(&curr_arg_top);
+            let val = evaluate_xnode(xseq, &arg_expr, eval_env)?;
+            argument_xseq.push(val);
         }
+        curr_arg_top = get_right(&curr_arg_top);
     }
+    return Ok((argument_xseq, has_placeholder));
+}
 
-    return Err(cant_occur!(
-                "apply_argument: インライン函数/マップ/配列でない。"));
+// ---------------------------------------------------------------------
+// 引数並びのうち、「?」の位置にargument_xseqの値を、それ以外の位置に
+// fixed_xseqの値を置いた、引数値の配列を返す。
+//
+fn fill_placeholders(arg_xnode: &XNodePtr, fixed_xseq: &[(String, XSequence)],
+                argument_xseq: &Vec<XSequence>) -> Result<Vec<XSequence>, Box<Error>> {
 
+    let mut args_array: Vec<XSequence> = vec!{};
+    let mut fixed_iter = fixed_xseq.iter();
+    let mut argument_iter = argument_xseq.iter();
+    let mut curr_xnode = arg_xnode.clone();
+    while ! is_nil_xnode(&curr_xnode) {
+        let val = if get_xnode_type(&curr_xnode) == XNodeType::ArgumentPlaceholder {
+            argument_iter.next().map(|xseq| xseq.clone())
+        } else {
+            fixed_iter.next().map(|entry| entry.1.clone())
+        };
+        match val {
+            Some(xseq) => args_array.push(xseq),
+            None => return Err(type_error!(
+                        "部分函数: 引数の個数が合致しない: {}。", argument_xseq.len())),
+        }
+        curr_xnode = get_right(&curr_xnode);
+    }
+    if argument_iter.next().is_some() {
+        return Err(type_error!(
+                "部分函数: 引数の個数が合致しない: {}。", argument_xseq.len()));
+    }
+    return Ok(args_array);
 }
 
 // ---------------------------------------------------------------------
@@ -1553,87 +1589,93 @@ fn call_named_func(func_xnode: &XNodePtr,
 }
 
 // ---------------------------------------------------------------------
-// 静的函数の部分函数呼び出し。
+// 函数呼び出し。
+// インライン函数、名前付き函数参照、部分函数、マップ、配列。
 //
-// func_xnode: 部分函数呼び出しの構文木
-//             引数のうちArgumentTopは、普通の静的函数と同様、
-//             文脈ノードに対してleft以下を評価し、引数として函数に渡す。
-//             ArgumentPlaceholderである場合はargument_xseq[i]を
-//             引数として函数に渡す。
+// func_xseq: シングルトン (函数)。
+// argument_xseq: 引数の値。
+// context_xseq: 文脈シーケンス。
+// eval_env: 評価環境 (変数の値など)。
+//
+// 部分函数の構文木は次のとおりである。
+// 「?」以外の引数は、部分函数を作る時点で評価してある。
 //
 // PartialFunctionCall --- ArgumentTop --- ArgumentPlaceholder ---...
 //    (func_name)               |                  (第2引数)
 //                             ... (第1引数)
 //
-// argument_xseq: 長さはArgumentPlaceholderの個数と同じ。
-//                argument_xseq[i]をArgumentPlaceholder部分の引数として
-//                函数に渡す。
-//
-// context_xseq: 文脈シーケンス。
-//               ArgumentTopである引数は、文脈シーケンスに対して評価する。
-//               関数の評価も文脈シーケンスに対しておこなう。
-//
-// eval_env: 評価環境 (変数の値など)。
+// ArgumentListTop                      (函数値の部分函数)
+//       |
+//  ArgumentTop --- ArgumentPlaceholder ---...
 //
-fn call_partial_func(func_xnode: &XNodePtr,
+pub fn call_function(func_xseq: &XSequence,
                 argument_xseq: Vec<XSequence>,
                 context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
-    let mut args_array: Vec<XSequence> = vec!{};
-    let mut curr_xnode = get_right(&func_xnode);
-    let mut i = 0;
-    while ! is_nil_xnode(&curr_xnode) {
-        match get_xnode_type(&curr_xnode) {
-            XNodeType::ArgumentTop => {
-                let arg = evaluate_xnode(context_xseq, &get_left(&curr_xnode), eval_env)?;
-                args_array.push(arg);
-            },
-            XNodeType::ArgumentPlaceholder => {
-                if i >= argument_xseq.len() {
-                    return Err(dynamic_error!("函数呼び出しの「?」に渡すべき引数が足りない。"));
-                }
-                args_array.push(argument_xseq[i].clone());
-                i += 1;
-            },
-            _ => {
-                return Err(cant_occur!("call_partial_func: ArgumentTopでもArgumentPlaceholderでもでない。"));
+    match func_xseq.get_singleton_item()? {
+        XItem::XItemXNodePtr{ref value, ref bound} => {
+            match get_xnode_type(value) {
+                XNodeType::InlineFunction => {
+                    // 函数の定義時に見えていた変数だけが見える状態で実行する。
+                    let mut var_vec: Vec<VarNameValue> = vec!{};
+                    for (name, val) in bound.iter() {
+                        var_vec.push(VarNameValue{
+                            name: name.clone(),
+                            value: val.clone(),
+                        });
+                    }
+                    let saved = mem::replace(&mut eval_env.var_vec, var_vec);
+                    let result = call_inline_func(value, argument_xseq, context_xseq, eval_env);
+                    eval_env.var_vec = saved;
+                    return result;
+                },
+                XNodeType::NamedFunctionRef => {
+                    return call_named_func(value, argument_xseq, context_xseq, eval_env);
+                },
+                XNodeType::PartialFunctionCall => {
+                    let args_array = fill_placeholders(&get_right(value),
+                                            bound, &argument_xseq)?;
+                    return evaluate_function(&get_xnode_name(value),
+                                            &args_array, context_xseq, eval_env);
+                },
+                XNodeType::ArgumentListTop => {
+                    let args_array = fill_placeholders(&get_left(value),
+                                            &bound[1 ..], &argument_xseq)?;
+                    return call_function(&bound[0].1, args_array, context_xseq, eval_env);
+                },
+                _ => {
+                    return Err(cant_occur!("call_function: XNodeType = {:?}",
+                            get_xnode_type(value)));
+                },
             }
-        }
-        curr_xnode = get_right(&curr_xnode);
-    }
-    if i != argument_xseq.len() {
-        return Err(type_error!(
-                "部分函数: 引数の個数が合致しない: {}。", argument_xseq.len()));
-    }
-
-    return evaluate_function(&get_xnode_name(&func_xnode),
-            &mut args_array, context_xseq, eval_env);
-
-}
-
-// ---------------------------------------------------------------------
-// 函数呼び出し。
-// インライン函数、名前付き函数参照、部分函数。
-//
-pub fn call_function(func_xnode: &XNodePtr,
-                argument_xseq: Vec<XSequence>,
-                context_xseq: &XSequence,
-                eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
-
-    match get_xnode_type(&func_xnode) {
-        XNodeType::InlineFunction => {
-            return call_inline_func(func_xnode, argument_xseq, context_xseq, eval_env);
         },
-        XNodeType::NamedFunctionRef => {
-            return call_named_func(func_xnode, argument_xseq, context_xseq, eval_env);
+
+        XItem::XIMap{value: ref map_item} => {
+            if argument_xseq.len() != 1 {
+                return Err(type_error!("マップ: 引数の個数が合致しない: {}。",
+                    argument_xseq.len()));
+            }
+            let key = argument_xseq[0].get_singleton_item()?;
+            return Ok(map_item.map_get(&key).unwrap_or_else(new_xsequence));
         },
-        XNodeType::PartialFunctionCall => {
-            return call_partial_func(func_xnode, argument_xseq, context_xseq, eval_env);
+
+        XItem::XIArray{value: ref array_item} => {
+            if argument_xseq.len() != 1 {
+                return Err(type_error!("配列: 引数の個数が合致しない: {}。",
+                    argument_xseq.len()));
+            }
+            let index_item = argument_xseq[0].get_singleton_item()?;
+            if let Some(v) = array_item.array_get(&index_item) {
+                return Ok(v);
+            } else {
+                return Err(dynamic_error!(
+                    "Array index ({}) out of bounds.", index_item));
+            }
         },
+
         _ => {
-            return Err(cant_occur!("call_h_function: XNodeType = {:?}",
-                    get_xnode_type(&func_xnode)));
+            return Err(type_error!("函数/マップ/配列でない。"));
         },
     }
 }
@@ -1774,7 +1816,8 @@ fn match_sequence_any_function_test(xseq: &XSequence) -> bool {
             match get_xnode_type(&xnode) {
                 XNodeType::InlineFunction |
                 XNodeType::NamedFunctionRef |
-                XNodeType::PartialFunctionCall => {
+                XNodeType::PartialFunctionCall |
+                XNodeType::ArgumentListTop => {
                     is_function = true;
                 },
                 _ => {},
diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 6cbbb13..217bdc1 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1583,12 +1583,11 @@ fn fn_last(_args: &Vec<&XSequence>, _xseq: &XSequence,
 fn fn_for_each(args: &Vec<&XSequence>, context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
-    let action_xnode = args[1].get_singleton_xnodeptr()?;
     let mut result = new_xsequence();
     for xitem in args[0].iter() {
         let argument_xseq = new_singleton(xitem);
         let result_xseq = call_function(
-                &action_xnode, vec!{argument_xseq}, context_xseq, eval_env)?;
+                args[1], vec!{argument_xseq}, context_xseq, eval_env)?;
         result.append(&result_xseq);
     }
     return Ok(result);
@@ -1602,12 +1601,11 @@ fn fn_for_each(args: &Vec<&XSequence>, context_xseq: &XSequence,
 fn fn_filter(args: &Vec<&XSequence>, context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
-    let func_xnode = args[1].get_singleton_xnodeptr()?;
     let mut result = new_xsequence();
     for xitem in args[0].iter() {
         let argument_xseq = new_singleton(xitem);
         let result_xseq = call_function(
-                &func_xnode, vec!{argument_xseq}, context_xseq, eval_env)?;
+                args[1], vec!{argument_xseq}, context_xseq, eval_env)?;
         if result_xseq.effective_boolean_value()? == true {
             result.push(&xitem);
         }
diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 1e5897d..5e1a39d 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -89,6 +89,9 @@ pub enum XItem {
     XItemXNodePtr {
         value: XNodePtr,
             // (内部処理用) インライン函数をXItemとして扱う。
+        bound: Vec<(String, XSequence)>,
+            // インライン函数: 定義時に見えていた変数の名前と値。
+            // 部分函数: 「?」以外の引数の値 (名前は空)。
     },
     XIMap {
         value: XSeqMap,
@@ -267,9 +270,10 @@ impl XSeqArray {
 
 // =====================================================================
 //
-pub fn new_xitem_xnodeptr(xnode: &XNodePtr) -> XItem {
+pub fn new_xitem_xnodeptr(xnode: &XNodePtr, bound: Vec<(String, XSequence)>) -> XItem {
     return XItem::XItemXNodePtr {
         value: xnode.clone(),
+        bound: bound,
     }
 }
 
@@ -457,7 +461,7 @@ impl fmt::Display for XItem {
                     return write!(f, "false");
                 }
             },
-            XItem::XItemXNodePtr{value} => {
+            XItem::XItemXNodePtr{value, ..} => {
                 return write!(f, "{}", value);
             },
             XItem::XIMap{value} => {
@@ -478,7 +482,7 @@ impl XItem {
     //
     pub fn xs_type(&self) -> String {
         match self {
-            XItem::XItemXNodePtr{value: _} => return String::from("function(*)"),
+            XItem::XItemXNodePtr{..} => return String::from("function(*)"),
             XItem::XIMap{value: _} => return String::from("map(*)"),
             XItem::XIArray{value: _} => return String::from("array(*)"),
             XItem::XINode{value: _} => return String::from("node"),
@@ -648,7 +652,7 @@ impl XItem {
     //
     pub fn get_as_raw_xnodeptr(&self) -> Result<XNodePtr, Box<Error>> {
         match self {
-            XItem::XItemXNodePtr{value} => {
+            XItem::XItemXNodePtr{value, ..} => {
                 return Ok(value.clone());
             },
             _ => {
diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 18d29fd..5666a23 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -47,8 +47,8 @@ pub fn new_xsequence_from_node_array(node_array: &Vec<NodePtr>) -> XSequence {
     return xsequence;
 }
 
-pub fn new_singleton_xnodeptr(xnode: &XNodePtr) -> XSequence {
-    return new_singleton(&new_xitem_xnodeptr(xnode));
+pub fn new_singleton_xnodeptr(xnode: &XNodePtr, bound: Vec<(String, XSequence)>) -> XSequence {
+    return new_singleton(&new_xitem_xnodeptr(xnode, bound));
 }
 
 pub fn new_singleton_node(node: &NodePtr) -> XSequence {
@@ -112,19 +112,6 @@ impl XSequence {
         }
     }
 
-    // -----------------------------------------------------------------
-    // シングルトンかつXNodePtrであれば、そのノードを返す。
-    //
-    pub fn get_singleton_xnodeptr(&self) -> Result<XNodePtr, Box<Error>> {
-        let item = self.get_singleton_item()?;
-        match item {
-            XItem::XItemXNodePtr{value} => return Ok(value.clone()),
-            _ => {},
-        }
-
-        return Err(type_error!("This sequence must be singleton xnodeptr."));
-    }
-
     // -----------------------------------------------------------------
     // シングルトンかつノードであれば、そのノードを返す。
     //
-- 
2.43.0


From df1a38509c7ed7def5118d045f0be294dc50cffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:21 +0000
Subject: [PATCH 71/90] fix: function references, arrow calls and parameter
 names are checked when parsed

---
 src/xpath_impl/parser.rs | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index f5e16e7..9e928db 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -10,6 +10,7 @@ use std::collections::HashMap;
 use std::fmt;
 use std::error::Error;
 use std::rc::Rc;
+use std::str::FromStr;
 
 use xmlerror::*;
 use xpath_impl::lexer::*;
@@ -1643,7 +1644,7 @@ fn parse_single_type(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 // [ 29] ArrowExpr ::= UnaryExpr ( "=>" ArrowFunctionSpecifier ArgumentList)*
 // [ 55] ArrowFunctionSpecifier ::= EQName
 //                                | VarRef
-//                                | ParenthesizedExpr                  ☆
+//                                | ParenthesizedExpr
 //
 // UnaryExprを第1引数とすることを除き、FunctionCallと同じ構文木を生成する。
 //
@@ -1673,17 +1674,18 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 
         let func_name = parse_static_func_name(lex)?;
         if func_name != "" {
-            let fcall_xnode = new_xnode(XNodeType::FunctionCall, &func_name);
             let arglist_xnode = parse_argument_list(lex)?;
             let arg_top_xnode = new_xnode(XNodeType::ArgumentTop, "");
             assign_as_left(&arg_top_xnode, &curr_xnode);
             assign_as_right(&arg_top_xnode, &arglist_xnode);
-            assign_as_right(&fcall_xnode, &arg_top_xnode);
-            curr_xnode = fcall_xnode.clone();
+            curr_xnode = new_function_call(&func_name, &arg_top_xnode)?;
             continue;
         }
 
-        let varref_xnode = parse_varref(lex)?;
+        let mut varref_xnode = parse_varref(lex)?;
+        if is_nil_xnode(&varref_xnode) {
+            varref_xnode = parse_parenthesized_expr(lex)?;
+        }
         if ! is_nil_xnode(&varref_xnode) {
             let apply_argment_xnode = new_xnode(XNodeType::ApplyArgument, "");
             assign_as_left(&apply_argment_xnode, &varref_xnode);
@@ -2192,6 +2194,12 @@ fn parse_named_function_ref(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         return Ok(new_nil_xnode());
     }
     let arity = tok.get_name();
+    if ! usize::from_str(arity).ok().map_or(false,
+                |n| func::check_function_spec(&func_name, n)) {
+        return Err(xpath_syntax_error!(
+            "{}: 函数が未実装、または引数の数 ({}) が不適切。",
+            func_name, arity));
+    }
     lex.get_token();
 
     let xnode = new_xnode(XNodeType::NamedFunctionRef,
@@ -2259,6 +2267,14 @@ fn parse_param_list(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         lex.get_token();
         let param_xnode = parse_param(lex)?;
         error_if_nil!(lex, param_xnode, "{}: カンマの後には引数が必要。");
+        let mut prev = top_param_xnode.clone();
+        while ! is_nil_xnode(&prev) {
+            if get_xnode_name(&prev) == get_xnode_name(&param_xnode) {
+                return Err(xpath_syntax_error!(
+                        "{}: 引数名が重複している。", lex.around_tokens().as_str()));
+            }
+            prev = get_right(&prev);
+        }
         assign_as_right(&curr, &param_xnode);
         curr = param_xnode.clone();
     }
@@ -2597,6 +2613,14 @@ fn parse_function_call(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     }
 
     let arg_node = parse_argument_list(lex)?;       // 引数が0個ならばNil
+    return new_function_call(&func_name, &arg_node);
+}
+
+// ---------------------------------------------------------------------
+// 函数名と引数並びから、函数呼び出し (または部分函数呼び出し) を表す
+// 構文木を作る。
+//
+fn new_function_call(func_name: &str, arg_node: &XNodePtr) -> Result<XNodePtr, Box<Error>> {
 
     // -------------------------------------------------------------
     // 引数の数を調べる。
@@ -2615,7 +2639,7 @@ fn parse_function_call(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     // -------------------------------------------------------------
     // この時点で函数表と照合して、函数の存在や引数の数を検査する。
     //
-    if func::check_function_spec(&func_name, arity) == false {
+    if func::check_function_spec(func_name, arity) == false {
         return Err(xpath_syntax_error!(
             "{}: 函数が未実装、または引数の数 ({}) が不適切。",
             func_name, arity));
@@ -2629,8 +2653,8 @@ fn parse_function_call(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             } else {
                 XNodeType::FunctionCall
             },
-            &func_name);
-    assign_as_right(&func_node, &arg_node);
+            func_name);
+    assign_as_right(&func_node, arg_node);
 
     return Ok(func_node);
 }
-- 
2.43.0


From 94d8a5e085ed903473b63a3170ec64d692fc9820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:26 +0000
Subject: [PATCH 72/90] fix: partial application of something that is no
 function, or with a wrong number of arguments, is an error

---
 src/xpath_impl/eval.rs | 48 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index ed22a65..d5e3296 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1440,6 +1440,11 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     // 保持しておく。
     //
     if has_placeholder {
+        let arity = function_arity(curr_xseq)?;
+        let num_args = count_arguments(&get_left(&curr_xnode), |_| true);
+        if arity != num_args {
+            return Err(type_error!("部分函数: 引数の個数が合致しない: {}。", num_args));
+        }
         let mut bound = vec!{(String::new(), curr_xseq.clone())};
         for val in argument_xseq.iter() {
             bound.push((String::new(), val.clone()));
@@ -1450,6 +1455,49 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     return call_function(curr_xseq, argument_xseq, xseq, eval_env);
 }
 
+// ---------------------------------------------------------------------
+// 引数並びのうち、条件に合うノードの個数を返す。
+//
+fn count_arguments<F>(arg_xnode: &XNodePtr, f: F) -> usize
+                where F: Fn(&XNodePtr) -> bool {
+    let mut n = 0;
+    let mut curr_xnode = arg_xnode.clone();
+    while ! is_nil_xnode(&curr_xnode) {
+        if f(&curr_xnode) {
+            n += 1;
+        }
+        curr_xnode = get_right(&curr_xnode);
+    }
+    return n;
+}
+
+// ---------------------------------------------------------------------
+// 函数 (マップ/配列を含む) の引数の個数。
+//
+fn function_arity(func_xseq: &XSequence) -> Result<usize, Box<Error>> {
+    let is_placeholder = |xnode: &XNodePtr|
+                get_xnode_type(xnode) == XNodeType::ArgumentPlaceholder;
+    match func_xseq.get_singleton_item()? {
+        XItem::XItemXNodePtr{ref value, ..} => {
+            match get_xnode_type(value) {
+                XNodeType::InlineFunction =>
+                    Ok(count_arguments(&get_right(&get_right(value)), |_| true)),
+                XNodeType::NamedFunctionRef => {
+                    let func_name = get_xnode_name(value);
+                    Ok(atoi(func_name.split("#").nth(1).unwrap_or("")) as usize)
+                },
+                XNodeType::PartialFunctionCall =>
+                    Ok(count_arguments(&get_right(value), is_placeholder)),
+                XNodeType::ArgumentListTop =>
+                    Ok(count_arguments(&get_left(value), is_placeholder)),
+                _ => Err(type_error!("函数/マップ/配列でない。")),
+            }
+        },
+        XItem::XIMap{..} | XItem::XIArray{..} => Ok(1),
+        _ => Err(type_error!("函数/マップ/配列でない。")),
+    }
+}
+
 // ---------------------------------------------------------------------
 // 引数並び (ArgumentTopまたはArgumentPlaceholderを右に連結したもの) のうち、
 // 「?」以外の引数を評価する。
-- 
2.43.0


From 95fd7aeac026e488c6eb7daee0d765943a0dae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:49 +0000
Subject: [PATCH 73/90] fix: a function or a map has no value to compare or to
 use as a key

---
 src/xpath_impl/eval.rs      |  8 ++++----
 src/xpath_impl/func.rs      |  8 ++++----
 src/xpath_impl/xsequence.rs | 26 +++++++++++++++++++++-----
 3 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index d5e3296..beaa993 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -760,7 +760,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
         },
 
         XNodeType::UnaryLookupByExpr => {
-            let expr = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
+            let expr = evaluate_xnode(xseq, &get_left(xnode), eval_env)?.atomize()?;
 
             if let Ok(xitem_map) = xseq.get_singleton_map() {
                 let mut result = new_xsequence();
@@ -1704,7 +1704,7 @@ pub fn call_function(func_xseq: &XSequence,
                 return Err(type_error!("マップ: 引数の個数が合致しない: {}。",
                     argument_xseq.len()));
             }
-            let key = argument_xseq[0].get_singleton_item()?;
+            let key = argument_xseq[0].get_singleton_atom()?;
             return Ok(map_item.map_get(&key).unwrap_or_else(new_xsequence));
         },
 
@@ -1713,7 +1713,7 @@ pub fn call_function(func_xseq: &XSequence,
                 return Err(type_error!("配列: 引数の個数が合致しない: {}。",
                     argument_xseq.len()));
             }
-            let index_item = argument_xseq[0].get_singleton_item()?;
+            let index_item = argument_xseq[0].get_singleton_atom()?;
             if let Some(v) = array_item.array_get(&index_item) {
                 return Ok(v);
             } else {
@@ -2559,7 +2559,7 @@ fn convert_xnode_to_map_array(xnode: &XNodePtr,
                 }
 
                 let map_key_xnode = get_left(&map_entry_xnode);
-                let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.get_singleton_item()?.atomize();
+                let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.get_singleton_atom()?;
 
                 if vec_item.iter().any(|entry| entry.0.op_same_key(&key)) {
                     return Err(dynamic_error!("マップのキーが重複している。"));
diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 217bdc1..964c055 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -413,7 +413,7 @@ fn fn_data_0(_args: &Vec<&XSequence>, context_xseq: &XSequence,
 }
 
 fn fn_data(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    return Ok(args[0].atomize());
+    return args[0].atomize();
 }
 
 // ---------------------------------------------------------------------
@@ -1649,7 +1649,7 @@ fn map_keys(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn map_contains(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let xseq_map = args[0].get_singleton_map()?;
-    let key = args[1].get_singleton_item()?;
+    let key = args[1].get_singleton_atom()?;
     let result = xseq_map.map_contains(&key);
     return Ok(new_singleton_boolean(result));
 }
@@ -1660,7 +1660,7 @@ fn map_contains(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn map_get(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let xseq_map = args[0].get_singleton_map()?;
-    let key = args[1].get_singleton_item()?;
+    let key = args[1].get_singleton_atom()?;
     match xseq_map.map_get(&key) {
         Some(v) => return Ok(v),
         None => return Ok(new_xsequence()),
@@ -1687,7 +1687,7 @@ fn array_size(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn array_get(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let xseq_array = args[0].get_singleton_array()?;
-    let index = args[1].get_singleton_item()?;
+    let index = args[1].get_singleton_atom()?;
     match xseq_array.array_get(&index) {
         Some(v) => return Ok(v),
         None => return Err(dynamic_error!(
diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 5666a23..b6e9e0e 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -227,12 +227,26 @@ impl XSequence {
     // -----------------------------------------------------------------
     // 原子化 (配列は、その要素を並べたものとする)
     //
-    pub fn atomize(&self) -> XSequence {
+    // 函数やマップには型付きの値がないので、エラーとする。
+    //
+    pub fn atomize(&self) -> Result<XSequence, Box<Error>> {
         let mut seq = new_xsequence();
         for v in self.array_flatten().value.iter() {
-            seq.push(&v.atomize());
+            match v {
+                XItem::XIMap{..} | XItem::XItemXNodePtr{..} => {
+                    return Err(type_error!("函数/マップは原子化できない。"));
+                },
+                _ => seq.push(&v.atomize()),
+            }
         }
-        return seq;
+        return Ok(seq);
+    }
+
+    // -----------------------------------------------------------------
+    // 原子化した結果がシングルトンであれば、その値を返す。
+    //
+    pub fn get_singleton_atom(&self) -> Result<XItem, Box<Error>> {
+        return self.atomize()?.get_singleton_item();
     }
 
     // -----------------------------------------------------------------
@@ -426,8 +440,8 @@ fn value_comparison<FNUM, FSTR, FBOOL>(lhs: &XSequence, rhs: &XSequence,
           FSTR: FnMut(i64) -> bool,
           FBOOL: FnMut(&Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
-    let lhs = lhs.atomize();
-    let rhs = rhs.atomize();
+    let lhs = lhs.atomize()?;
+    let rhs = rhs.atomize()?;
     if lhs.is_empty() || rhs.is_empty() {
         return Ok(new_xsequence());
     }
@@ -514,6 +528,8 @@ fn general_comparison<FNUM, FSTR, FBOOL>(lhs: &XSequence, rhs: &XSequence,
           FSTR: FnMut(i64) -> bool,
           FBOOL: FnMut(&XItem, &XItem) -> Result<bool, Box<Error>> {
 
+    lhs.atomize()?;
+    rhs.atomize()?;
     let lhs = lhs.array_flatten();
     let rhs = rhs.array_flatten();
     for lhs_item in lhs.iter() {
-- 
2.43.0


From 5e4944e1dadc74c1644ae7fd8fc2026d0708a850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:07 +0000
Subject: [PATCH 74/90] fix: an index of an array is an integer

---
 src/xpath_impl/eval.rs  | 8 ++++----
 src/xpath_impl/func.rs  | 2 +-
 src/xpath_impl/xitem.rs | 9 ++++++---
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index beaa993..f4e4b89 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -760,11 +760,11 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
         },
 
         XNodeType::UnaryLookupByExpr => {
-            let expr = evaluate_xnode(xseq, &get_left(xnode), eval_env)?.atomize()?;
+            let expr = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
 
             if let Ok(xitem_map) = xseq.get_singleton_map() {
                 let mut result = new_xsequence();
-                for key in expr.iter() {
+                for key in expr.atomize()?.iter() {
                     if let Some(v) = xitem_map.map_get(key) {
                         result.append(&v);
                     } else {
@@ -774,7 +774,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
 
             } else if let Ok(xitem_array) = xseq.get_singleton_array() {
                 let mut result = new_xsequence();
-                for index in expr.iter() {
+                for index in expr.array_flatten().iter() {
                     if let Some(v) = xitem_array.array_get(index) {
                         result.append(&v);
                     } else {
@@ -1713,7 +1713,7 @@ pub fn call_function(func_xseq: &XSequence,
                 return Err(type_error!("配列: 引数の個数が合致しない: {}。",
                     argument_xseq.len()));
             }
-            let index_item = argument_xseq[0].get_singleton_atom()?;
+            let index_item = argument_xseq[0].array_flatten().get_singleton_item()?;
             if let Some(v) = array_item.array_get(&index_item) {
                 return Ok(v);
             } else {
diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 964c055..739d7bd 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1687,7 +1687,7 @@ fn array_size(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn array_get(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let xseq_array = args[0].get_singleton_array()?;
-    let index = args[1].get_singleton_atom()?;
+    let index = args[1].array_flatten().get_singleton_item()?;
     match xseq_array.array_get(&index) {
         Some(v) => return Ok(v),
         None => return Err(dynamic_error!(
diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 5e1a39d..ad85092 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -238,9 +238,12 @@ impl XSeqArray {
     }
 
     pub fn array_get(&self, index: &XItem) -> Option<XSequence> {
-        let i = index.get_as_raw_integer();
-        match i {
-            Ok(i) => {
+        let index = match index {
+            XItem::XINode{..} => index.cast_as("integer"),
+            _ => Ok(index.clone()),
+        };
+        match index {
+            Ok(XItem::XIInteger{value: i}) => {
                 if 1 <= i && i <= self.v.len() as i64 {
                     return Some(self.v[(i - 1) as usize].clone());
                 }
-- 
2.43.0


From 44148c0ed79bcb762e566ce41721f8f676edcfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:48 +0000
Subject: [PATCH 75/90] fix: the key of a postfix lookup is evaluated in the
 context of the whole expression

---
 src/xpath_impl/eval.rs   | 129 +++++++++++++++++++++++++--------------
 src/xpath_impl/parser.rs |   3 +-
 2 files changed, 85 insertions(+), 47 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index f4e4b89..d2684ba 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -361,6 +361,30 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             return apply_argument(xseq, &primary_expr, &postfix_xnode, eval_env);
         },
 
+        XNodeType::ApplyLookup => {
+            // 左辺値 (PrimaryExpr) の各アイテムについて検索する。
+            // キーは、全体と同じ文脈で評価する。
+            //
+            let lookup_xnode = get_right(xnode);
+            let primary_expr = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
+            let by_keys = get_xnode_type(&lookup_xnode) == XNodeType::UnaryLookupByExpr;
+            let keys = if by_keys {
+                evaluate_xnode(xseq, &get_left(&lookup_xnode), eval_env)?
+            } else {
+                new_xsequence()
+            };
+            let mut result = new_xsequence();
+            for item in primary_expr.iter() {
+                let target = new_singleton(item);
+                result.append(&if by_keys {
+                    lookup_by_keys(&target, &keys)?
+                } else {
+                    lookup_by_wildcard(&target)?
+                });
+            }
+            return Ok(result);
+        },
+
         XNodeType::OperatorConcatenate => {
             // シーケンスを連結する。
             //
@@ -738,55 +762,12 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
         },
 
         XNodeType::UnaryLookupByWildcard => {
-            if let Ok(xitem_map) = xseq.get_singleton_map() {
-                let mut result = new_xsequence();
-                for key in xitem_map.map_keys().iter() {
-                    result.append(&xitem_map.map_get(key).unwrap());
-                }
-                return Ok(result);
-
-            } else if let Ok(xitem_array) = xseq.get_singleton_array() {
-                let size = xitem_array.array_size();
-                let mut result = new_xsequence();
-                for i in 1 ..= size {
-                    let index = new_xitem_integer(i as i64);
-                    result.append(&xitem_array.array_get(&index).unwrap());
-                }
-                return Ok(result);
-
-            } else {
-                return Err(type_error!("lookup: マップ/配列でない。"));
-            }
+            return lookup_by_wildcard(xseq);
         },
 
         XNodeType::UnaryLookupByExpr => {
-            let expr = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
-
-            if let Ok(xitem_map) = xseq.get_singleton_map() {
-                let mut result = new_xsequence();
-                for key in expr.atomize()?.iter() {
-                    if let Some(v) = xitem_map.map_get(key) {
-                        result.append(&v);
-                    } else {
-                    }
-                }
-                return Ok(result);
-
-            } else if let Ok(xitem_array) = xseq.get_singleton_array() {
-                let mut result = new_xsequence();
-                for index in expr.array_flatten().iter() {
-                    if let Some(v) = xitem_array.array_get(index) {
-                        result.append(&v);
-                    } else {
-                        return Err(dynamic_error!(
-                            "lookup: Array index ({}) out of bounds.", index));
-                    }
-                }
-                return Ok(result);
-
-            } else {
-                return Err(type_error!("lookup: マップ/配列でない。"));
-            }
+            let keys = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
+            return lookup_by_keys(xseq, &keys);
         },
 
         XNodeType::VarRef => {
@@ -1455,6 +1436,62 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     return call_function(curr_xseq, argument_xseq, xseq, eval_env);
 }
 
+// ---------------------------------------------------------------------
+// マップ/配列の値をすべて並べたシーケンスを返す。
+//
+fn lookup_by_wildcard(xseq: &XSequence) -> Result<XSequence, Box<Error>> {
+    if let Ok(xitem_map) = xseq.get_singleton_map() {
+        let mut result = new_xsequence();
+        for key in xitem_map.map_keys().iter() {
+            result.append(&xitem_map.map_get(key).unwrap());
+        }
+        return Ok(result);
+
+    } else if let Ok(xitem_array) = xseq.get_singleton_array() {
+        let size = xitem_array.array_size();
+        let mut result = new_xsequence();
+        for i in 1 ..= size {
+            let index = new_xitem_integer(i as i64);
+            result.append(&xitem_array.array_get(&index).unwrap());
+        }
+        return Ok(result);
+
+    } else {
+        return Err(type_error!("lookup: マップ/配列でない。"));
+    }
+}
+
+// ---------------------------------------------------------------------
+// マップ/配列から、キーに対応する値を並べたシーケンスを返す。
+//
+fn lookup_by_keys(xseq: &XSequence, keys: &XSequence) -> Result<XSequence, Box<Error>> {
+    if let Ok(xitem_map) = xseq.get_singleton_map() {
+        let mut result = new_xsequence();
+        for key in keys.atomize()?.iter() {
+            if let Some(v) = xitem_map.map_get(key) {
+                result.append(&v);
+            } else {
+            }
+        }
+        return Ok(result);
+
+    } else if let Ok(xitem_array) = xseq.get_singleton_array() {
+        let mut result = new_xsequence();
+        for index in keys.array_flatten().iter() {
+            if let Some(v) = xitem_array.array_get(index) {
+                result.append(&v);
+            } else {
+                return Err(dynamic_error!(
+                    "lookup: Array index ({}) out of bounds.", index));
+            }
+        }
+        return Ok(result);
+
+    } else {
+        return Err(type_error!("lookup: マップ/配列でない。"));
+    }
+}
+
 // ---------------------------------------------------------------------
 // 引数並びのうち、条件に合うノードの個数を返す。
 //
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 9e928db..9ccda1b 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -131,6 +131,7 @@ pub enum XNodeType {
     SquareArray,
     CurlyArray,
     ArrayEntry,
+    ApplyLookup,
     UnaryLookupByExpr,
     UnaryLookupByWildcard,
     ParenthesizedExpr,
@@ -1962,7 +1963,7 @@ fn parse_postfix_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
                     new_xnode(XNodeType::ApplyArgument, "")
                 },
                 _ => {
-                    new_xnode(XNodeType::OperatorMap, "")
+                    new_xnode(XNodeType::ApplyLookup, "")
                 },
             };
         assign_as_left(&apply_postfix_xnode, &curr_xnode);
-- 
2.43.0


From 71b58415568376c2433beecded97d80afa6d837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:25 +0000
Subject: [PATCH 76/90] fix: signatures of one-or-more, exactly-one,
 normalize-space, string-to-codepoints and concat

---
 src/xpath_impl/func.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 739d7bd..d108541 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -43,7 +43,7 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:number#0", "function() as xs:double" ),
     ( "fn:number#1", "function(xs:anyAtomicType?) as xs:double" ),
     ( "fn:codepoints-to-string#1", "function(xs:integer*) as xs:string" ),
-    ( "fn:string-to-codepoints#1", "function(xs:string*) as xs:integer*" ),
+    ( "fn:string-to-codepoints#1", "function(xs:string?) as xs:integer*" ),
     ( "fn:compare#2", "function(xs:string?, xs:string?) as xs:integer?" ),
     ( "fn:compare#3", "function(xs:string?, xs:string?, xs:string) as xs:integer?" ),
     ( "fn:codepoint-equal#2", "function(xs:string?, xs:string?) as xs:boolean?" ),
@@ -55,8 +55,8 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:substring#3", "function(xs:string?, xs:double, xs:double) as xs:string" ),
     ( "fn:string-length#0", "function() as xs:integer" ),
     ( "fn:string-length#1", "function(xs:string?) as xs:integer" ),
-    ( "fn:normalize-space#0", "function() as xs:integer" ),
-    ( "fn:normalize-space#1", "function(xs:string?) as xs:integer" ),
+    ( "fn:normalize-space#0", "function() as xs:string" ),
+    ( "fn:normalize-space#1", "function(xs:string?) as xs:string" ),
     ( "fn:upper-case#1", "function(xs:string?) as xs:string" ),
     ( "fn:lower-case#1", "function(xs:string?) as xs:string" ),
     ( "fn:translate#3", "function(xs:string?, xs:string, xs:string) as xs:string" ),
@@ -96,8 +96,8 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:index-of#2", "function(xs:anyAtomicType*, xs:anyAtomicType) as xs:integer*" ),
     ( "fn:index-of#3", "function(xs:anyAtomicType*, xs:anyAtomicType, xs:string) as xs:integer*" ),
     ( "fn:zero-or-one#1", "function(item()*) as item()?" ),
-    ( "fn:one-or-more#1", "function(item()*) as item()?" ),
-    ( "fn:exactly-one#1", "function(item()*) as item()?" ),
+    ( "fn:one-or-more#1", "function(item()*) as item()+" ),
+    ( "fn:exactly-one#1", "function(item()*) as item()" ),
     ( "fn:count#1", "function(item()*) as xs:integer" ),
     ( "fn:avg#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
     ( "fn:max#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
@@ -127,6 +127,14 @@ pub fn get_function_signature(func_name: &str) -> String {
             return String::from(*t_signature);
         }
     }
+
+    // concatの引数は2個以上 (上限なし)。
+    if func_name.starts_with("fn:concat#") {
+        if let Ok(arity) = func_name["fn:concat#".len() ..].parse::<usize>() {
+            let params = vec!["xs:anyAtomicType?"; arity];
+            return format!("function({}) as xs:string", params.join(", "));
+        }
+    }
     return String::new();
 }
 
-- 
2.43.0


From 3e10d7cc7670c60ba17690d14f0bc4a0985c78cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:25 +0000
Subject: [PATCH 77/90] fix: subtypes of element, attribute and
 processing-instruction tests; number of arguments of maps and arrays

---
 src/xpath_impl/eval.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index d2684ba..a47e733 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2317,7 +2317,7 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
                 }
             },
             XNodeType::PITest => {                          // 9. 10.
-                let pi_name = get_xnode_name(bi);
+                let pi_name = get_xnode_name(&get_left(bi));
                 if pi_name == "" {
                     if get_xnode_type(ai) == XNodeType::KindTest &&
                        get_xnode_type(&get_left(ai)) == XNodeType::PITest {
@@ -2331,6 +2331,24 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
                     }
                 }
             },
+            XNodeType::ElementTest |                        // 13. - 18.
+            XNodeType::AttributeTest => {                   // 20. - 23.
+                let ai_test = get_left(ai);
+                let bi_test = get_left(bi);
+                if get_xnode_type(ai) == XNodeType::KindTest &&
+                   get_xnode_type(&ai_test) == get_xnode_type(&bi_test) {
+                    let ai_name = get_xnode_name(&ai_test);
+                    let bi_name = get_xnode_name(&bi_test);
+                    let ai_type = get_xnode_name(&get_left(&ai_test));
+                    let bi_type = get_xnode_name(&get_left(&bi_test));
+                    if (bi_name == "*" || ai_name == bi_name) &&
+                       (bi_type.ends_with("?") || ! ai_type.ends_with("?")) &&
+                       derives_from(ai_type.trim_right_matches('?'),
+                                    bi_type.trim_right_matches('?')) {
+                        return true;
+                    }
+                }
+            },
             _ => {},
         }
     }
@@ -2459,7 +2477,8 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
         let param_xnode = get_right(&ret_xnode);  // Param
         let seq_xnode = get_left(&param_xnode);   // SequenceType
         let bi_key = get_left(&seq_xnode);          // AtomicOrUnionType
-        if subtype_itemtype(&ai_key, &bi_key) &&
+        if count_arguments(&param_xnode, |_| true) == 1 &&
+           subtype_itemtype(&ai_key, &bi_key) &&
            subtype(&ai_val, &bi_val) {
             return true;
         }
@@ -2516,7 +2535,8 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
         let param_xnode = get_right(&ret_xnode);  // Param
         let seq_xnode = get_left(&param_xnode);   // SequenceType
         let bi_arg = get_left(&seq_xnode);          // AtomicOrUnitonType
-        if derives_from("xs:integer", &get_xnode_name(&bi_arg)) &&
+        if count_arguments(&param_xnode, |_| true) == 1 &&
+           derives_from("xs:integer", &get_xnode_name(&bi_arg)) &&
            subtype(&ai_elem, &bi_elem) {
             return true;
         }
-- 
2.43.0


From a513415b4c320e19da01c5f70b85b6bbdcf79c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:26 +0000
Subject: [PATCH 78/90] fix: the type of a partially applied function is
 derived from that of the function

---
 src/xpath_impl/eval.rs | 159 ++++++++++++++++++++++++++---------------
 1 file changed, 103 insertions(+), 56 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index a47e733..115fce1 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1947,66 +1947,22 @@ fn match_sequence_typed_function_test(xseq: &XSequence, type_xnode: &XNodePtr) -
 
         // -------------------------------------------------------------
         //
-        if let Ok(xnode) = xitem.get_as_raw_xnodeptr() {
-
-            let sig_xnode: XNodePtr;
-
-            match get_xnode_type(&xnode) {
-
-                // -----------------------------------------------------
-                // (名前付き函数参照)
-                // シグニチャー表を引き、テキスト形式のシグニチャーを
-                // 構文木に変換する。
-                //
-                XNodeType::NamedFunctionRef => {
-                    let func_name = get_xnode_name(&xnode);
-                    let signature = get_function_signature(func_name.as_str());
-                    if signature == "" {
-                        return Ok(false);
-                    }
-                    let mut lex = Lexer::new(&signature)?;
-                    sig_xnode = parse_function_test(&mut lex)?;
-                },
-
-                // -----------------------------------------------------
-                // (インライン函数)
-                //
-                XNodeType::InlineFunction => {
-                    sig_xnode = xnode.clone();
-                },
-
-                XNodeType::PartialFunctionCall => {
-                    sig_xnode = xnode.clone();
-                },
-                _ => {
-                    return Ok(false);
-                },
+        if let XItem::XItemXNodePtr{..} = xitem {
+            let sig = match function_signature(xitem)? {
+                Some(sig) => sig,
+                None => return Ok(false),
+            };
+            if sig.len() != signature_xnode.len() {     // 引数の個数
+                return Ok(false);
             }
-
-            let mut i = 0;
-            let mut curr = get_right(&sig_xnode);
-            while ! is_nil_xnode(&curr) {
-                if signature_xnode.len() <= i {     // 引数が多い。
+            if ! subtype(&sig[0], &signature_xnode[0]) {    // 戻り値型
+                return Ok(false);
+            }
+            for i in 1 .. sig.len() {                       // 引数型
+                if ! subtype(&signature_xnode[i], &sig[i]) {
                     return Ok(false);
                 }
-                let type_xnode = get_left(&curr);
-                if i == 0 {                 // 戻り値型
-                    if ! subtype(&type_xnode, &signature_xnode[i]) {
-                        return Ok(false);
-                    }
-                } else {                    // 引数型
-                    if ! subtype(&signature_xnode[i], &type_xnode) {
-                        return Ok(false);
-                    }
-                }
-                curr = get_right(&curr);
-                i += 1;
-            }
-            if signature_xnode.len() != i {         // 引数が少ない。
-                return Ok(false);
             }
-            // -------------------------------------------------
-            //
 
             is_function = true;
         }
@@ -2056,6 +2012,97 @@ fn match_sequence_typed_function_test(xseq: &XSequence, type_xnode: &XNodePtr) -
     return Ok(true);
 }
 
+// ---------------------------------------------------------------------
+// 函数のシグニチャーを構文木の配列として返す。
+// [0]: 戻り値型の定義。
+// [n]: 第n引数の型の定義。
+// シグニチャーが判らないときはNoneを返す。
+//
+fn function_signature(xitem: &XItem) -> Result<Option<Vec<XNodePtr>>, Box<Error>> {
+    match xitem {
+        XItem::XItemXNodePtr{value, bound} => {
+            match get_xnode_type(value) {
+                // インライン函数
+                XNodeType::InlineFunction => {
+                    return Ok(Some(signature_to_vec(value)));
+                },
+
+                // 名前付き函数参照
+                XNodeType::NamedFunctionRef => {
+                    return named_function_signature(&get_xnode_name(value));
+                },
+
+                // 部分函数: 元の函数のシグニチャーから、
+                // 値を固定した引数を除く。
+                XNodeType::PartialFunctionCall => {
+                    let arg_xnode = get_right(value);
+                    let func_name = format!("{}#{}", get_xnode_name(value),
+                                    count_arguments(&arg_xnode, |_| true));
+                    let sig = named_function_signature(&func_name)?;
+                    return Ok(sig.map(|s| remove_fixed_params(&s, &arg_xnode)));
+                },
+                XNodeType::ArgumentListTop => {
+                    let sig = function_signature(&bound[0].1.get_singleton_item()?)?;
+                    return Ok(sig.map(|s| remove_fixed_params(&s, &get_left(value))));
+                },
+                _ => return Ok(None),
+            }
+        },
+        XItem::XIMap{..} => {
+            return parse_signature("function(xs:anyAtomicType) as item()*");
+        },
+        XItem::XIArray{..} => {
+            return parse_signature("function(xs:integer) as item()*");
+        },
+        _ => return Ok(None),
+    }
+}
+
+// ---------------------------------------------------------------------
+// シグニチャー表を引き、テキスト形式のシグニチャーを構文木に変換する。
+//
+fn named_function_signature(func_name: &str) -> Result<Option<Vec<XNodePtr>>, Box<Error>> {
+    let signature = get_function_signature(func_name);
+    if signature == "" {
+        return Ok(None);
+    }
+    return parse_signature(&signature);
+}
+
+fn parse_signature(signature: &str) -> Result<Option<Vec<XNodePtr>>, Box<Error>> {
+    let mut lex = Lexer::new(&String::from(signature))?;
+    return Ok(Some(signature_to_vec(&parse_function_test(&mut lex)?)));
+}
+
+fn signature_to_vec(xnode: &XNodePtr) -> Vec<XNodePtr> {
+    let mut sig: Vec<XNodePtr> = vec!{};
+    let mut curr = get_right(xnode);
+    while ! is_nil_xnode(&curr) {
+        sig.push(get_left(&curr));
+        curr = get_right(&curr);
+    }
+    return sig;
+}
+
+// ---------------------------------------------------------------------
+// シグニチャーの引数型のうち、引数並びの「?」に対応するもののみを残す。
+//
+fn remove_fixed_params(sig: &Vec<XNodePtr>, arg_xnode: &XNodePtr) -> Vec<XNodePtr> {
+    let mut result: Vec<XNodePtr> = vec!{};
+    let mut curr = arg_xnode.clone();
+    for (i, xnode) in sig.iter().enumerate() {
+        if i == 0 {
+            result.push(xnode.clone());
+        } else {
+            if get_xnode_type(&curr) == XNodeType::ArgumentPlaceholder {
+                result.push(xnode.clone());
+            }
+            curr = get_right(&curr);
+        }
+    }
+    return result;
+}
+
 // ---------------------------------------------------------------------
 // シーケンス xseq の型を、シーケンス型の定義 type_xnode と照合する。
 // type_xnode が XNodeType::ArrayTest である場合。
-- 
2.43.0


From 2a23fd6f7f74ac52e60c518aad72c7a253df0150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:27 +0000
Subject: [PATCH 79/90] fix: arguments and results of inline functions are
 converted to the declared types

---
 src/xpath_impl/eval.rs | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 115fce1..e58d5b5 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1625,11 +1625,7 @@ fn call_inline_func(inline_func_xnode: &XNodePtr,
     // 実引数の値を変数 (仮引数) に束縛する。
     //
     for (i, val) in argument_xseq.iter().enumerate() {
-        if match_sequence_type(&val, &sequence_types[i])? == false {
-            return Err(type_error!(
-                    "インライン函数: 引数の型が合致していない: {}。",
-                    val.to_string()));
-        }
+        let val = convert_sequence_type(&val, &sequence_types[i])?;
         eval_env.set_var(&param_names[i], &val);
     }
 
@@ -1647,7 +1643,39 @@ fn call_inline_func(inline_func_xnode: &XNodePtr,
         i -= 1;
     }
 
-    return Ok(value);
+    return convert_sequence_type(&value, &get_left(&return_type));
+}
+
+// ---------------------------------------------------------------------
+// 函数変換規則: インライン函数の引数や戻り値を、宣言された型に変換する。
+// 宣言された型がAtomicOrUnionTypeであるときは原子化し、
+// ノードの値はその型にキャスト、数値はxs:doubleに昇格する。
+// 変換した値が宣言された型に合致しないときはエラーとする。
+//
+fn convert_sequence_type(xseq: &XSequence, xnode: &XNodePtr) -> Result<XSequence, Box<Error>> {
+    let mut result = xseq.clone();
+    let type_xnode = get_left(xnode);
+    if get_xnode_type(&type_xnode) == XNodeType::AtomicOrUnionType {
+        let type_name = get_xnode_name(&type_xnode);
+        result = new_xsequence();
+        for item in xseq.array_flatten().iter() {
+            let val = match (item, type_name.as_str()) {
+                (XItem::XINode{..}, "xs:anyAtomicType") => item.atomize(),
+                (XItem::XINode{..}, "xs:numeric") => item.cast_as("xs:double")?,
+                (XItem::XINode{..}, _) => item.cast_as(&type_name)?,
+                (XItem::XIInteger{..}, "xs:double") |
+                (XItem::XIDecimal{..}, "xs:double") => item.cast_as(&type_name)?,
+                _ => item.clone(),
+            };
+            result.push(&val);
+        }
+    }
+    if match_sequence_type(&result, xnode)? == false {
+        return Err(type_error!(
+                "インライン函数: 引数または戻り値の型が合致していない: {}。",
+                xseq.to_string()));
+    }
+    return Ok(result);
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From f344fd49d23d333c70ac1f67bd9d1a0cc851d14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:12 +0000
Subject: [PATCH 80/90] fix: sum#1 always has a result, also in its signature

---
 src/xpath_impl/func.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index d108541..7b57e82 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -104,7 +104,7 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:max#2", "function(xs:anyAtomicType*, xs:string) as xs:anyAtomicType?" ),
     ( "fn:min#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
     ( "fn:min#2", "function(xs:anyAtomicType*, xs:string) as xs:anyAtomicType?"  ),
-    ( "fn:sum#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
+    ( "fn:sum#1", "function(xs:anyAtomicType*) as xs:anyAtomicType" ),
     ( "fn:sum#2", "function(xs:anyAtomicType*, xs:anyAtomicType?) as xs:anyAtomicType?" ),
     ( "fn:position#0", "function() as xs:integer" ),
     ( "fn:last#0", "function() as xs:integer" ),
-- 
2.43.0


From 52a77a04080a7ca717f3887b846774d6c393b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 81/90] fix: a path step that mixes nodes and other items for
 one node is an error

---
 src/xpath_impl/eval.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index e58d5b5..ac3b1a1 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -257,10 +257,11 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
                 //       評価値がすべてノードのみのシーケンスか否かを
                 //       調べておく。
                 //
-                if val_seq.is_no_atom() {
-                    node_exists = true;
-                } else {
-                    atom_exists = true;
+                for item in val_seq.iter() {
+                    match item {
+                        XItem::XINode{value: _} => node_exists = true,
+                        _ => atom_exists = true,
+                    }
                 }
                 result_seq.append(&val_seq);
 
-- 
2.43.0


From 1cce716dbeeba2bba153e56d7c379f30f14a6c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:22 +0000
Subject: [PATCH 82/90] fix: union, intersect and except of anything but nodes
 is an error

---
 src/xpath_impl/oper.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index 9cb0434..d7778c7 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -9,6 +9,7 @@ use std::cmp::Ordering;
 use std::error::Error;
 
 use dom::*;
+use xmlerror::*;
 use xpath_impl::eval::*;
 use xpath_impl::xitem::*;
 use xpath_impl::xsequence::*;
@@ -237,7 +238,18 @@ pub fn op_concatenate(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
 // Equals, Union, Intersection and Except
 //   (XPath 3.1 では演算子の項に載っていない)
 //
+// オペランドは、ノードのみのシーケンス (空シーケンスは可) に限る。
+//
+fn check_nodeset_operands(args: &Vec<XSequence>) -> Result<(), Box<Error>> {
+    if args.iter().all(|arg| arg.is_no_atom()) {
+        return Ok(());
+    } else {
+        return Err(type_error!("Set operator: There is an item other than node."));
+    }
+}
+
 pub fn op_union(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+    check_nodeset_operands(args)?;
     let mut node_array: Vec<NodePtr> = vec!{};
     for n in args[0].to_nodeset().iter() {          // lhs
         node_array.push(n.rc_clone());
@@ -250,6 +262,7 @@ pub fn op_union(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence,
 }
 
 pub fn op_intersect(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+    check_nodeset_operands(args)?;
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
@@ -262,6 +275,7 @@ pub fn op_intersect(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequen
 }
 
 pub fn op_except(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+    check_nodeset_operands(args)?;
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
-- 
2.43.0


From 99584253df4490286d34328cce5fa0cc494b7942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:50 +0000
Subject: [PATCH 83/90] fix: the arguments of a built-in function are converted
 to the types of its signature

---
 src/xpath_impl/eval.rs | 76 ++++++++++++++++++++++++++++++++++--------
 src/xpath_impl/func.rs | 34 +++++++++++++++++--
 2 files changed, 95 insertions(+), 15 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index ac3b1a1..ad26ca6 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1657,19 +1657,7 @@ fn convert_sequence_type(xseq: &XSequence, xnode: &XNodePtr) -> Result<XSequence
     let mut result = xseq.clone();
     let type_xnode = get_left(xnode);
     if get_xnode_type(&type_xnode) == XNodeType::AtomicOrUnionType {
-        let type_name = get_xnode_name(&type_xnode);
-        result = new_xsequence();
-        for item in xseq.array_flatten().iter() {
-            let val = match (item, type_name.as_str()) {
-                (XItem::XINode{..}, "xs:anyAtomicType") => item.atomize(),
-                (XItem::XINode{..}, "xs:numeric") => item.cast_as("xs:double")?,
-                (XItem::XINode{..}, _) => item.cast_as(&type_name)?,
-                (XItem::XIInteger{..}, "xs:double") |
-                (XItem::XIDecimal{..}, "xs:double") => item.cast_as(&type_name)?,
-                _ => item.clone(),
-            };
-            result.push(&val);
-        }
+        result = convert_to_atomic_type(xseq, &get_xnode_name(&type_xnode))?;
     }
     if match_sequence_type(&result, xnode)? == false {
         return Err(type_error!(
@@ -1679,6 +1667,68 @@ fn convert_sequence_type(xseq: &XSequence, xnode: &XNodePtr) -> Result<XSequence
     return Ok(result);
 }
 
+fn convert_to_atomic_type(xseq: &XSequence, type_name: &str) -> Result<XSequence, Box<Error>> {
+    let mut result = new_xsequence();
+    for item in xseq.array_flatten().iter() {
+        let val = match (item, type_name) {
+            (XItem::XINode{..}, "xs:anyAtomicType") => item.atomize(),
+            (XItem::XINode{..}, "xs:numeric") => item.cast_as("xs:double")?,
+            (XItem::XINode{..}, _) => item.cast_as(type_name)?,
+            (XItem::XIInteger{..}, "xs:double") |
+            (XItem::XIDecimal{..}, "xs:double") => item.cast_as(type_name)?,
+            _ => item.clone(),
+        };
+        result.push(&val);
+    }
+    return Ok(result);
+}
+
+fn is_atomic_type(item: &XItem, type_name: &str) -> bool {
+    match item {
+        XItem::XItemXNodePtr{..} | XItem::XIMap{..} | XItem::XIArray{..} => return false,
+        _ => {},
+    }
+    let item_type = item.xs_type();
+    return type_name == "xs:anyAtomicType" ||
+           type_name == item_type ||
+           derives_from(item_type.as_str(), type_name);
+}
+
+// ---------------------------------------------------------------------
+// 函数変換規則: 組み込み函数の引数を、シグニチャーの型に変換する。
+// 原子値の型でない引数 (ノード、函数、マップ、配列) は、函数の側で検査する。
+//
+// param_types: 引数の型 (シグニチャーの表記)
+//
+pub fn convert_arguments(args: &Vec<XSequence>,
+                param_types: &Vec<String>) -> Result<Vec<XSequence>, Box<Error>> {
+    let mut result: Vec<XSequence> = vec!{};
+    for (i, arg) in args.iter().enumerate() {
+        if i < param_types.len() && param_types[i].starts_with("xs:") {
+            result.push(convert_to_type(arg, &param_types[i])?);
+        } else {
+            result.push(arg.clone());
+        }
+    }
+    return Ok(result);
+}
+
+pub fn convert_to_type(xseq: &XSequence, seq_type: &str) -> Result<XSequence, Box<Error>> {
+    let type_name = seq_type.trim_right_matches(|c| c == '?' || c == '*');
+    let indicator = &seq_type[type_name.len() ..];
+    let result = if type_name == "xs:anyAtomicType" {
+        xseq.array_flatten()                // ノードの値に型はないので、函数の側で扱う。
+    } else {
+        convert_to_atomic_type(xseq, type_name)?
+    };
+    if ! match_occurence(&result, indicator)? ||
+       ! result.iter().all(|item| is_atomic_type(item, type_name)) {
+        return Err(type_error!("値の型が {} に合致していない: {}。",
+                seq_type, xseq.to_string()));
+    }
+    return Ok(result);
+}
+
 // ---------------------------------------------------------------------
 // 名前付き函数参照を、引数を渡して呼び出す。
 //
diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 7b57e82..e8f5fab 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -49,8 +49,8 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:codepoint-equal#2", "function(xs:string?, xs:string?) as xs:boolean?" ),
     ( "fn:concat#2", "function(xs:anyAtomicType?, xs:anyAtomicType?) as xs:string" ),
         // concatの引数は2個以上 (上限なし)
-    ( "fn:string-join#1", "function(xs:string*) as xs:string" ),
-    ( "fn:string-join#2", "function(xs:string*, xs:string) as xs:string" ),
+    ( "fn:string-join#1", "function(xs:anyAtomicType*) as xs:string" ),
+    ( "fn:string-join#2", "function(xs:anyAtomicType*, xs:string) as xs:string" ),
     ( "fn:substring#2", "function(xs:string?, xs:double) as xs:string" ),
     ( "fn:substring#3", "function(xs:string?, xs:double, xs:double) as xs:string" ),
     ( "fn:string-length#0", "function() as xs:integer" ),
@@ -138,6 +138,35 @@ pub fn get_function_signature(func_name: &str) -> String {
     return String::new();
 }
 
+// ---------------------------------------------------------------------
+// シグニチャーから、引数の型 ("xs:string?" など) を順に取り出す。
+//
+fn param_types(func_name: &str, arity: usize) -> Vec<String> {
+    let signature = get_function_signature(&format!("{}#{}", func_name, arity));
+    let mut types: Vec<String> = vec!{};
+    let mut depth = 0;
+    let mut curr = String::new();
+    for ch in signature.trim_left_matches("function").chars() {
+        if ch == ')' {
+            depth -= 1;
+        }
+        if depth == 0 && ch == ')' {
+            break;
+        }
+        if depth == 1 && ch == ',' {
+            types.push(curr.trim().replace("numeric", "xs:numeric"));
+            curr = String::new();
+        } else if 0 < depth {
+            curr.push(ch);
+        }
+        if ch == '(' {
+            depth += 1;
+        }
+    }
+    types.push(curr.trim().replace("numeric", "xs:numeric"));
+    return types;
+}
+
 // ---------------------------------------------------------------------
 // 函数表。
 // - 実行時に、函数の実体を検索するために使うほか、
@@ -316,6 +345,7 @@ pub fn evaluate_function(func_name: &str, args: &Vec<XSequence>,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
     let num_args = args.len();
+    let args = convert_arguments(args, &param_types(func_name, num_args))?;
     let mut ref_args: Vec<&XSequence> = vec!{};
     for xseq in args.iter() {
         ref_args.push(xseq);
-- 
2.43.0


From 571ba467d096719e703efa9d05750f69086cd7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:53 +0000
Subject: [PATCH 84/90] fix: string-length, normalize-space and number without
 an argument take the context item as their argument

---
 src/xpath_impl/func.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index e8f5fab..3af3858 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -593,7 +593,7 @@ fn fn_numeric_unary<FINT, FDEC, FDBL>(args: &Vec<&XSequence>,
 //
 fn fn_number_0(_args: &Vec<&XSequence>, context_xseq: &XSequence,
                _eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
-    return fn_number(&vec!{context_xseq});
+    return fn_number(&vec!{&convert_to_type(context_xseq, "xs:anyAtomicType?")?});
 }
 
 fn fn_number(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
@@ -836,7 +836,7 @@ fn fn_substring(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_string_length_0(_args: &Vec<&XSequence>, context_xseq: &XSequence,
                _eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
-    return fn_string_length(&vec!{context_xseq});
+    return fn_string_length(&vec!{&fn_string(&vec!{context_xseq})?});
 }
 
 fn fn_string_length(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
@@ -857,7 +857,7 @@ fn fn_string_length(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_normalize_space_0(_args: &Vec<&XSequence>, context_xseq: &XSequence,
                _eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
-    return fn_normalize_space(&vec!{context_xseq});
+    return fn_normalize_space(&vec!{&fn_string(&vec!{context_xseq})?});
 }
 
 fn fn_normalize_space(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-- 
2.43.0


From 96aa5f4ed064c2fbb0f0547018e5b37d6d1373b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:56 +0000
Subject: [PATCH 85/90] fix: the function given to filter() answers with a
 boolean

---
 src/xpath_impl/func.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 3af3858..4042681 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1644,6 +1644,7 @@ fn fn_filter(args: &Vec<&XSequence>, context_xseq: &XSequence,
         let argument_xseq = new_singleton(xitem);
         let result_xseq = call_function(
                 args[1], vec!{argument_xseq}, context_xseq, eval_env)?;
+        let result_xseq = convert_to_type(&result_xseq, "xs:boolean")?;
         if result_xseq.effective_boolean_value()? == true {
             result.push(&xitem);
         }
-- 
2.43.0


From a431484e97297d0f5db3ac1ef6441ad8a3a6bf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:57 +0000
Subject: [PATCH 86/90] fix: the operands of arithmetic, range, concatenation
 and cast are atomized

---
 src/xpath_impl/eval.rs      |  2 +-
 src/xpath_impl/oper.rs      |  2 ++
 src/xpath_impl/xsequence.rs | 10 ++++++----
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index ad26ca6..9c9924a 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -538,7 +538,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
         XNodeType::OperatorConcat => {
             let lhs = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
             let rhs = evaluate_xnode(xseq, &get_right(xnode), eval_env)?;
-            return fn_concat(&vec!{&lhs, &rhs});
+            return fn_concat(&vec!{&lhs.array_flatten(), &rhs.array_flatten()});
         },
 
         XNodeType::OperatorUnion => {
diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index d7778c7..d2906b2 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -83,6 +83,7 @@ fn op_numeric_operation<F>(args: &Vec<XSequence>, mut func_op: F) -> Result<XSeq
 // ノードは原子化し、倍精度浮動小数点数にキャストする。
 //
 fn op_numeric_operand(arg: &XSequence) -> Result<Option<XItem>, Box<Error>> {
+    let arg = arg.array_flatten();
     if arg.is_empty() {
         return Ok(None);
     }
@@ -293,6 +294,7 @@ pub fn op_except(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence,
 //   (XPath 3.1 では演算子の項に載っていない)
 //
 pub fn op_to(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
+    let args: Vec<XSequence> = args.iter().map(|arg| arg.array_flatten()).collect();
     if args[0].is_empty() || args[1].is_empty() {
         return Ok(new_xsequence());
     }
diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index b6e9e0e..704586e 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -334,11 +334,12 @@ impl XSequence {
     //     キャスト指定の末尾が "?" であれば、空シーケンスもキャスト可能。
     //
     pub fn castable_as(&self, type_name: &str) -> bool {
-        if self.is_empty() {
+        let flat = self.array_flatten();
+        if flat.is_empty() {
             return type_name.ends_with("?");
         }
 
-        if let Ok(xitem) = self.get_singleton_item() {
+        if let Ok(xitem) = flat.get_singleton_item() {
             return xitem.castable_as(type_name.trim_right_matches('?'));
         }
 
@@ -354,13 +355,14 @@ impl XSequence {
     //      キャスト指定の末尾が "?" でなければエラー。
     //
     pub fn cast_as(&self, type_name: &str) -> Result<XSequence, Box<Error>> {
-        if self.is_empty() {
+        let flat = self.array_flatten();
+        if flat.is_empty() {
             if type_name.ends_with("?") {
                 return Ok(new_xsequence());
             }
         }
 
-        if let Ok(xitem) = self.get_singleton_item() {
+        if let Ok(xitem) = flat.get_singleton_item() {
             if let Ok(result) = xitem.atomize().cast_as(type_name.trim_right_matches('?')) {
                 return Ok(new_singleton(&result));
             }
-- 
2.43.0


From 2f853aabf86f48ac28967d35c3969dd21660abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:17 +0000
Subject: [PATCH 87/90] fix: the largest and smallest of numbers has their
 common type

---
 src/xpath_impl/func.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 4042681..c0e3cae 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1504,7 +1504,7 @@ fn fn_max(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         }
     }
 
-    return Ok(new_singleton(&max_item));
+    return Ok(new_singleton(&promote_extremum(&max_item, args[0])?));
 }
 
 // ---------------------------------------------------------------------
@@ -1529,7 +1529,24 @@ fn fn_min(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         }
     }
 
-    return Ok(new_singleton(&max_item));
+    return Ok(new_singleton(&promote_extremum(&max_item, args[0])?));
+}
+
+// max/minの結果は、シーケンス中の値に共通の数値型に昇格させる。
+//
+fn promote_extremum(item: &XItem, xseq: &XSequence) -> Result<XItem, Box<Error>> {
+    if ! item.is_numeric() {
+        return Ok(item.clone());
+    }
+    let mut type_name = "integer";
+    for v in xseq.iter() {
+        match v {
+            XItem::XIDouble{value: _} | XItem::XINode{value: _} => type_name = "double",
+            XItem::XIDecimal{value: _} if type_name == "integer" => type_name = "decimal",
+            _ => {},
+        }
+    }
+    return item.cast_as(type_name);
 }
 
 // 数値を求める函数の引数がノードならば、倍精度浮動小数点数にキャストする。
-- 
2.43.0


From 6d3e966aabc3e8a5309940e824e09df8d5a687c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:29 +0000
Subject: [PATCH 88/90] fix: white space for normalize-space() is what XML
 calls white space

---
 src/xpath_impl/func.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index c0e3cae..9cf9365 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -866,7 +866,7 @@ fn fn_normalize_space(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     }
 
     let arg = args[0].get_singleton_string()?;
-    let v: Vec<&str> = arg.split_whitespace().collect();
+    let v: Vec<&str> = arg.split(|ch| ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n').collect();
     let mut result = String::new();
     for t in v.iter() {
         result += t;
-- 
2.43.0


From a8e6892070e4e0b2912bca005368a29a894a3339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:32 +0000
Subject: [PATCH 89/90] fix: a carriage return alone is a line end too

---
 src/sax.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sax.rs b/src/sax.rs
index a6da1f4..625437b 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -150,8 +150,19 @@ impl SaxDecoder {
     /// Creates a new XML parser reading from String.
     ///
     pub fn new(xml_string: &str) -> Result<SaxDecoder, Box<Error>> {
+        // 改行「CR LF」および単独のCRは、LFとして扱う。
+        let mut char_vec: Vec<char> = vec!{};
+        let mut prev = EOF;
+        for ch in xml_string.chars() {
+            if ch == '\r' {
+                char_vec.push('\n');
+            } else if ! (prev == '\r' && ch == '\n') {
+                char_vec.push(ch);
+            }
+            prev = ch;
+        }
         return Ok(SaxDecoder{
-            char_vec: xml_string.chars().filter(|x| *x != '\r').collect(),
+            char_vec,
                 // XML 1.0: 行末の処理
                 // 解析前に改行すべてを #x0A に標準化する。
             index: 0,
-- 
2.43.0


From d7d2992c160331eca9b9a07a344c2800cbd88296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:27 +0000
Subject: [PATCH 90/90] fix: a path takes its steps from left to right

---
 src/xpath_impl/parser.rs | 71 ++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 9ccda1b..2c7ea41 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -1810,9 +1810,9 @@ fn parse_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             let root_xnode = new_xnode(XNodeType::AxisRoot, "node()");
             assign_as_left(&op_path_xnode, &root_xnode);
 
-            let rel_xnode = parse_relative_path_expr(lex)?;
+            let rel_xnode = parse_relative_path_expr(lex, &root_xnode)?;
             if ! is_nil_xnode(&rel_xnode) {
-                assign_as_right(&op_path_xnode, &rel_xnode);
+                return Ok(rel_xnode);
             }
             return Ok(op_path_xnode);
         },
@@ -1824,18 +1824,15 @@ fn parse_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             let root_xnode = new_xnode(XNodeType::AxisRoot, "/");
             assign_as_left(&op_path_xnode_u, &root_xnode);
 
-            let op_path_xnode_l = new_xnode(XNodeType::OperatorPath, "parse_path_expr SlashSlash 2");
             let ds_xnode = new_xnode(XNodeType::AxisDescendantOrSelf, "node()");
-            assign_as_right(&op_path_xnode_u, &op_path_xnode_l);
-            assign_as_left(&op_path_xnode_l, &ds_xnode);
+            assign_as_right(&op_path_xnode_u, &ds_xnode);
 
-            let rel_xnode = parse_relative_path_expr(lex)?;
+            let rel_xnode = parse_relative_path_expr(lex, &op_path_xnode_u)?;
             error_if_nil!(lex, rel_xnode, "{}: // の後には相対パスが必要。");
-            assign_as_right(&op_path_xnode_l, &rel_xnode);
-            return Ok(op_path_xnode_u);
+            return Ok(rel_xnode);
         },
         _ => {
-            return parse_relative_path_expr(lex);
+            return parse_relative_path_expr(lex, &new_nil_xnode());
         },
     }
 }
@@ -1843,25 +1840,30 @@ fn parse_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 // ---------------------------------------------------------------------
 // [ 37] RelativePathExpr ::= StepExpr (("/" | "//") StepExpr)*
 //
-//  OpPath --- OpPath --- OpPath --- OpPath --- x
-//    |          |          |          |
-//    |          |          |       AxisXXX --- (predicate)
-//    |          |          |
-//    |          |       AxisXXX --- (predicate)
-//    |          |
-//    |     AxisDescendantOrSelf
-//    |
-// AxisXXX --- (predicate)
+// 左結合: ステップごとに、そこまでの結果を整列、重複排除し、
+// そのサイズと位置を文脈として、次のステップを評価する。
+//
+//              OpPath --- AxisXXX --- (predicate)
+//                |
+//              OpPath --- AxisDescendantOrSelf
+//                |
+// (left) --- OpPath --- AxisXXX --- (predicate)
 //
-fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
+// left_xnode: 先頭の「/」や「//」に相当するノード。なければNil。
+//
+fn parse_relative_path_expr(lex: &mut Lexer, left_xnode: &XNodePtr) -> Result<XNodePtr, Box<Error>> {
 
     let step_expr_xnode = parse_step_expr(lex)?;
     if is_nil_xnode(&step_expr_xnode) {
         return Ok(new_nil_xnode());
     }
-    let top_op_path_xnode = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr TOP");
-    assign_as_left(&top_op_path_xnode, &step_expr_xnode);
-    let mut curr_xnode = top_op_path_xnode.clone();
+    let mut curr_xnode = step_expr_xnode.clone();
+    if ! is_nil_xnode(left_xnode) {
+        let top_op_path_xnode = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr TOP");
+        assign_as_left(&top_op_path_xnode, left_xnode);
+        assign_as_right(&top_op_path_xnode, &step_expr_xnode);
+        curr_xnode = top_op_path_xnode;
+    }
 
     loop {
         let tok = lex.next_token();
@@ -1871,8 +1873,8 @@ fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
                 let step_expr_xnode = parse_step_expr(lex)?;
                 error_if_nil!(lex, step_expr_xnode, "{}: / の後にはステップが必要。");
                 let op_path_xnode = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr Slash");
-                assign_as_left(&op_path_xnode, &step_expr_xnode);
-                assign_as_right(&curr_xnode, &op_path_xnode);
+                assign_as_left(&op_path_xnode, &curr_xnode);
+                assign_as_right(&op_path_xnode, &step_expr_xnode);
                 curr_xnode = op_path_xnode.clone();
             },
             TType::SlashSlash => {
@@ -1882,13 +1884,12 @@ fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 
                 let op_path_xnode_u = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr SlashSlash 1");
                 let ds_xnode = new_xnode(XNodeType::AxisDescendantOrSelf, "node()");
-                assign_as_left(&op_path_xnode_u, &ds_xnode);
+                assign_as_left(&op_path_xnode_u, &curr_xnode);
+                assign_as_right(&op_path_xnode_u, &ds_xnode);
 
                 let op_path_xnode_l = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr SlashSlash 2");
-                assign_as_left(&op_path_xnode_l, &step_expr_xnode);
-
-                assign_as_right(&op_path_xnode_u, &op_path_xnode_l);
-                assign_as_right(&curr_xnode, &op_path_xnode_u);
+                assign_as_left(&op_path_xnode_l, &op_path_xnode_u);
+                assign_as_right(&op_path_xnode_l, &step_expr_xnode);
                 curr_xnode = op_path_xnode_l.clone();
             },
             _ => {
@@ -1898,17 +1899,9 @@ fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     }
 
     // -----------------------------------------------------------------
-    // 最後にtop_op_path_xnode (最上位のxnode) を返す。
-    // ただし、「(("/" | "//") StepExpr)*」部分が0個だった (rightがNil) 場合は
-    // 冗長なので、top_op_path_xnodeの左辺ノードを返す。
+    // 最後に、最上位のxnodeを返す。
     //
-    let right_of_top = get_right(&top_op_path_xnode);
-    if is_nil_xnode(&right_of_top) {
-        let left_of_top = get_left(&top_op_path_xnode);
-        return Ok(left_of_top);
-    } else {
-        return Ok(top_op_path_xnode);
-    }
+    return Ok(curr_xnode);
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0

