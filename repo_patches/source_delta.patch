From 42246b9780393be7fd9eb2551ce5141da0b74bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 01/82] fix: report an unterminated start tag instead of
 looping forever

---
 src/sax.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sax.rs b/src/sax.rs
index 6c8d53b..bf3b542 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -282,6 +282,8 @@ impl SaxDecoder {
                         } else {
                             return Err(xml_syntax_error!("illegal char after /"));
                         }
+                    } else if ch == EOF {
+                        return Err(xml_syntax_error!("Unexpected EOF in start tag"));
                     }
                 }
                 return Ok(XmlToken::StartElement{name, attr});
-- 
2.43.0


From 3792e0ed5c26ce7808092ddd1aa6747c13eaf16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 02/82] fix: reject illegal characters and missing names in
 start tags

Stray characters were skipped, so that e.g. <a b="1"c="2"/> silently
lost the attribute c.
---
 src/sax.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sax.rs b/src/sax.rs
index bf3b542..944440f 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -246,6 +246,9 @@ impl SaxDecoder {
             } else {                    // Start Element
                 self.ungetchar();
                 let name = self.get_name();
+                if name == "" {
+                    return Err(xml_syntax_error!("no name in start tag"));
+                }
                 let mut attr = vec!{};
                 loop {
                     self.skip_spaces();
@@ -284,6 +287,8 @@ impl SaxDecoder {
                         }
                     } else if ch == EOF {
                         return Err(xml_syntax_error!("Unexpected EOF in start tag"));
+                    } else if ! is_space(ch) {
+                        return Err(xml_syntax_error!("illegal char in start tag"));
                     }
                 }
                 return Ok(XmlToken::StartElement{name, attr});
-- 
2.43.0


From 4e3049047df10c5ac110f86f349a2a708db5d8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 03/82] fix: reject malformed end tags such as </> and </a b>

---
 src/sax.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sax.rs b/src/sax.rs
index 944440f..efde7fe 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -186,7 +186,13 @@ impl SaxDecoder {
             //
             } else if ch == '/' {              // End Element: </foo>
                 let name = self.get_name();
-                self.get_until_ch('>')?;
+                if name == "" {
+                    return Err(xml_syntax_error!("no name in end tag"));
+                }
+                self.skip_spaces();
+                if self.getchar() != '>' {
+                    return Err(xml_syntax_error!("illegal char in end tag"));
+                }
                 return Ok(XmlToken::EndElement{name});
 
             // ---------------------------------------------------------
-- 
2.43.0


From af91954c1b534395ef72fb5ddf0b34a06c43cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 04/82] fix: reject documents whose elements are not closed at
 the end of input

---
 src/dom.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 196d2d4..55660d8 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -236,6 +236,10 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
             },
         }
     }
+    if ! Rc::ptr_eq(&curr_node, &doc_root) {
+        return Err(xml_syntax_error!("Element not closed: {}",
+            curr_node.name.as_str()));
+    }
     return Ok(NodePtr{rc_node: doc_root});
 }
 
-- 
2.43.0


From 9ec1340690f4e52d61e0a9aa7196962e9d3b9bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 05/82] fix: decode entity and character references only once

The result of a character reference was decoded again, e.g. &#38;lt;
became '<' instead of '&lt;'.
---
 src/sax.rs | 67 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/src/sax.rs b/src/sax.rs
index efde7fe..d2bd158 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -884,46 +884,49 @@ fn char_is_in_ranges(ch: char, ch_ranges: &[(u32, u32)]) -> bool {
 // [68] EntityRef ::= '&' Name ';'              // 実体参照
 //
 fn decode_entity(s: &String) -> String {
+    let entity_specs = [
+        ( "&gt;", ">" ),
+        ( "&lt;", "<" ),
+        ( "&quot;", "\"" ),
+        ( "&apos;", "'" ),
+        ( "&amp;", "&" ),
+    ];
 
     // -----------------------------------------------------------------
+    // 先頭から順に1回だけ走査する。
+    // // デコード結果の文字列は、再びデコードの対象としてはならない。
     //
-    let mut buf = s.clone();
-    for (pattern, radix) in [("&#x", 16), ("&#", 10)].iter() {
-        loop {
-            let ss = buf.clone();
-            let v: Vec<&str> = ss.splitn(2, pattern).collect();
-            if v.len() != 2 {
-                break;
-            }
-
-            let w: Vec<&str> = v[1].splitn(2, ";").collect();
-            if w.len() != 2 {
-                break;
-            }
-
-            let head = v[0];
-            let entity = w[0];
-            let tail = w[1];
+    let mut buf = String::new();
+    let mut rest: &str = s.as_str();
+    while let Some(pos) = rest.find('&') {
+        buf.push_str(&rest[.. pos]);
+        rest = &rest[pos ..];
 
-            let u = u32::from_str_radix(&entity, *radix as u32).unwrap_or(0x3013);
+        if rest.starts_with("&#") {
+            if let Some(end) = rest.find(';') {
+                let entity = &rest[2 .. end];
+                let (digits, radix) = if entity.starts_with("x") {
+                        (&entity[1 ..], 16)
+                    } else {
+                        (entity, 10)
+                    };
+                let u = u32::from_str_radix(digits, radix).unwrap_or(0x3013);
                                                             // \u3013 = '〓'
-            let ch = char::from_u32(u).unwrap_or('〓');
-            buf = format!("{}{}{}", &head, ch, &tail);
+                buf.push(char::from_u32(u).unwrap_or('〓'));
+                rest = &rest[end + 1 ..];
+                continue;
+            }
+        } else if let Some(spec) = entity_specs.iter()
+                                    .find(|spec| rest.starts_with(spec.0)) {
+            buf.push_str(spec.1);
+            rest = &rest[spec.0.len() ..];
+            continue;
         }
-    }
 
-    // -----------------------------------------------------------------
-    //
-    let entity_specs = [
-        [ "&gt;", ">" ],
-        [ "&lt;", "<" ],
-        [ "&quot;", "\"" ],
-        [ "&apos;", "'" ],
-        [ "&amp;", "&" ],
-    ];
-    for spec in entity_specs.iter() {
-        buf = buf.replace(spec[0], spec[1]);
+        buf.push('&');
+        rest = &rest[1 ..];
     }
+    buf.push_str(rest);
 
     return buf;
 }
-- 
2.43.0


From 771ecff16cc4a7e65e8f555210717ba332a8ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 06/82] fix: treat a parent that no longer exists as no parent

A node held beyond the lifetime of its document made parent(), root(),
etc. panic.
---
 src/dom.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 55660d8..e7bad56 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -444,8 +444,8 @@ impl NodePtr {
             if let Some(value) = val {
                 return value.clone();
             }
-            curr = match (*curr).parent {
-                Some(ref p) => p.borrow().upgrade().unwrap(),
+            curr = match wrap_rc_clone(&curr).parent() {
+                Some(p) => p.unwrap_rc(),
                 None => return String::new(),
             };
         }
@@ -470,8 +470,8 @@ impl NodePtr {
     pub fn root(&self) -> NodePtr {
         let mut curr = self.unwrap_rc();
         loop {
-            curr = match (*curr).parent {
-                Some(ref p) => p.borrow().upgrade().unwrap(),
+            curr = match wrap_rc_clone(&curr).parent() {
+                Some(p) => p.unwrap_rc(),
                 None => return wrap_rc_clone(&curr),
             };
         }
@@ -521,8 +521,10 @@ impl NodePtr {
     pub fn parent(&self) -> Option<NodePtr> {
         match self.unwrap_rc().parent {
             Some(ref p) => {
-                let parent_node = p.borrow().upgrade().unwrap();
-                return Some(wrap_rc_clone(&parent_node));
+                match p.borrow().upgrade() {
+                    Some(parent_node) => return Some(wrap_rc_clone(&parent_node)),
+                    None => return None,
+                }
             },
             None => return None,
         }
-- 
2.43.0


From dc07422a550a3b3b7b0984d3efe595e9553939a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 07/82] fix: copy the whole subtree on
 insert_as_previous/next_sibling

Only the topmost node was copied: its children and attributes were shared
with the source tree and kept their old parent, so that parent(), root(),
reverse axes and document order were wrong below the inserted node.
---
 src/dom.rs | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index e7bad56..76e9417 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -245,13 +245,21 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
 
 // ---------------------------------------------------------------------
 //
-fn shallow_copy_rc_rels(target: &mut RcNode, source: &RcNode) {
-    for ch in source.children.borrow().iter() {
-        target.children.borrow_mut().push(Rc::clone(ch));
-    }
+// RcNodeを、子孫および属性も含めて複製する。
+// 複製したノードの親はparentとするが、parentの子としては登録しない。
+//
+fn copy_rc_node(source: &RcNode, parent: &mut RcNode) -> RcNode {
+    let mut node = make_new_rc_node(source.node_type.clone(),
+                Some(parent), &source.name, &source.value);
     for at in source.attributes.borrow().iter() {
-        target.attributes.borrow_mut().push(Rc::clone(at));
+        let copied = copy_rc_node(at, &mut node);
+        node.attributes.borrow_mut().push(copied);
     }
+    for ch in source.children.borrow().iter() {
+        let copied = copy_rc_node(ch, &mut node);
+        node.children.borrow_mut().push(copied);
+    }
+    return node;
 }
 
 // =====================================================================
@@ -657,13 +665,8 @@ impl NodePtr {
             let mut rc_parent = parent.unwrap_rc();
             let rc_new_node = new_node.unwrap_rc();
 
-            let mut rc_new_node_dup = make_new_child_rc_node(
-                rc_new_node.node_type.clone(),
-                &mut rc_parent,
-                &rc_new_node.name,
-                &rc_new_node.value,
-                n);
-            shallow_copy_rc_rels(&mut rc_new_node_dup, &rc_new_node);
+            let rc_new_node_dup = copy_rc_node(&rc_new_node, &mut rc_parent);
+            rc_parent.children.borrow_mut().insert(n, rc_new_node_dup);
         }
         self.clear_document_order();
     }
@@ -701,13 +704,8 @@ impl NodePtr {
             let mut rc_parent = parent.unwrap_rc();
             let rc_new_node = new_node.unwrap_rc();
 
-            let mut rc_new_node_dup = make_new_child_rc_node(
-                rc_new_node.node_type.clone(),
-                &mut rc_parent,
-                &rc_new_node.name,
-                &rc_new_node.value,
-                n + 1);
-            shallow_copy_rc_rels(&mut rc_new_node_dup, &rc_new_node);
+            let rc_new_node_dup = copy_rc_node(&rc_new_node, &mut rc_parent);
+            rc_parent.children.borrow_mut().insert(n + 1, rc_new_node_dup);
         }
         self.clear_document_order();
     }
-- 
2.43.0


From 8d77e80d2c6c64536f70a619989be1f94613995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 08/82] fix: a node deleted from its parent no longer reports
 that parent

---
 src/dom.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 76e9417..b2a51fa 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -736,6 +736,7 @@ impl NodePtr {
         if n != usize::MAX {
             let rc_node = self.unwrap_rc();
             (*rc_node).children.borrow_mut().remove(n);
+            target.set_parent(Weak::new());
         }
         self.clear_document_order();
     }
@@ -772,6 +773,15 @@ impl NodePtr {
         self.clear_document_order();
     }
 
+    // -----------------------------------------------------------------
+    // 親ノードを設定する。DocumentRootに対しては何もしない。
+    //
+    fn set_parent(&self, parent: Weak<Node>) {
+        if let Some(ref p) = self.unwrap_rc().parent {
+            *p.borrow_mut() = parent;
+        }
+    }
+
     // -----------------------------------------------------------------
     // find_child_index
     //
-- 
2.43.0


From 527252fcd28d304b172885c21e410ce0894d142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 09/82] fix: make append_child() move the node to its new
 parent

The node kept its old parent and stayed in the old parent's children as
well, so that it was in two trees at once; appending an ancestor made a
cycle.
---
 src/dom.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index b2a51fa..bbd492b 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -628,6 +628,21 @@ impl NodePtr {
     pub fn append_child(&self, new_child: &NodePtr) {
         let rc_self = self.unwrap_rc();
         let rc_new_child = new_child.unwrap_rc();
+
+        // 自分自身や祖先を子にすることはできない。
+        let mut curr = Some(self.rc_clone());
+        while let Some(node) = curr {
+            if node == *new_child {
+                return;
+            }
+            curr = node.parent();
+        }
+
+        // 現在の親から切り離してから、自分の子とする。
+        if let Some(old_parent) = new_child.parent() {
+            old_parent.delete_child(new_child);
+        }
+        new_child.set_parent(Rc::downgrade(&rc_self));
         rc_self.children.borrow_mut().push(Rc::clone(&rc_new_child));
         self.clear_document_order();
     }
-- 
2.43.0


From 1c41f0db561be3e3d2f655b0e37c1f23f5fd247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 10/82] fix: recompute document order in a subtree after it is
 detached

---
 src/dom.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dom.rs b/src/dom.rs
index bbd492b..e136f7f 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -752,6 +752,7 @@ impl NodePtr {
             let rc_node = self.unwrap_rc();
             (*rc_node).children.borrow_mut().remove(n);
             target.set_parent(Weak::new());
+            target.clear_document_order();
         }
         self.clear_document_order();
     }
-- 
2.43.0


From 14cd99adfc5408c80b77868a86a72feb954f7da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 11/82] fix: the default namespace does not apply to unprefixed
 attributes

---
 src/dom.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index e136f7f..b1ea1de 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -444,6 +444,9 @@ impl NodePtr {
         if space.as_str() != "" {
             xmlns_attr += &":";
             xmlns_attr += &space;
+        } else if self.node_type() == NodeType::Attribute {
+            // 接頭辞のない属性には、既定の名前空間を適用しない。
+            return String::new();
         }
 
         let mut curr = self.unwrap_rc();
-- 
2.43.0


From dee6f876e6ef84b49393adb2ea43e250e24c4506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 12/82] fix: an empty XPath expression is a syntax error, not a
 panic

---
 src/xpath_impl/lexer.rs  | 3 ++-
 src/xpath_impl/parser.rs | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index c37ca3d..d7c1ffe 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -488,7 +488,8 @@ impl Lexer {
             ( "cast",     "as", TType::CastAs ),
         ];
         let mut i = 1;
-        while self.tokens[i+1].t_type != TType::EOF {
+        while i + 1 < self.tokens.len() &&
+              self.tokens[i+1].t_type != TType::EOF {
             if self.tokens[i].t_type == TType::InnerName &&
                self.tokens[i+1].t_type == TType::InnerName {
                 for (str1, str2, t_type) in operator_pair_words.iter() {
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 71ad020..9a39b7f 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -293,6 +293,7 @@ pub fn compile_xpath(xpath: &String) -> Result<XNodePtr, Box<Error>> {
 //
 fn parse_main(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_expr(lex)?;
+    error_if_nil!(lex, xnode, "{}: 式が必要。");
 
     error_if_not_ttype!(lex, TType::EOF, "{}: 余分な字句が継続。");
 
-- 
2.43.0


From 42afb71085dc78843b2f2c20da75205e55cc99b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 13/82] fix: an incomplete XPath expression is a syntax error,
 not a panic

---
 src/xpath_impl/eval.rs   | 13 ++++++++++--
 src/xpath_impl/parser.rs | 46 ++++++++++++++++++++++++++++------------
 2 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 7361426..3b342e7 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -183,7 +183,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
                     eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
     if is_nil_xnode(xnode) {
-        panic!("Can't occur: evaluate_xnode, xnode is nil");
+        return Err(cant_occur!("evaluate_xnode: xnode is nil"));
     }
 
     let xnode_type = get_xnode_type(&xnode);
@@ -1457,7 +1457,13 @@ fn call_inline_func(inline_func_xnode: &XNodePtr,
     // -----------------------------------------------------------------
     // インライン函数を実行する。
     //
-    let value = evaluate_xnode(context_xseq, &func_body_xnode, eval_env)?;
+    //   函数本体が空の場合は空シーケンスを返す。
+    //
+    let value = if is_nil_xnode(&func_body_xnode) {
+            new_xsequence()
+        } else {
+            evaluate_xnode(context_xseq, &func_body_xnode, eval_env)?
+        };
 
     // -----------------------------------------------------------------
     // 変数 (仮引数) を削除する。
@@ -2450,6 +2456,9 @@ fn convert_xnode_to_map_array(xnode: &XNodePtr,
             // 配列の実体を取り出す。
             //
             let array_entry_xnode = get_left(&xnode);
+            if is_nil_xnode(&array_entry_xnode) {           // array{}
+                return Ok(new_xitem_array(&vec!{}));
+            }
             let val_xseq = evaluate_xnode(context_xseq, &array_entry_xnode, eval_env)?;
             let mut vec_item: Vec<XSequence> = vec!{};
             for item in val_xseq.iter() {
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 9a39b7f..eccfbae 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -369,11 +369,15 @@ fn parse_axis_step(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
                     "{}: namespace 軸は未実装。",
                     lex.around_tokens().as_str()));
             }
-            return parse_node_test(lex, axis);
+            let xnode = parse_node_test(lex, axis)?;
+            error_if_nil!(lex, xnode, "{}: 軸名の後にノード・テストが必要。");
+            return Ok(xnode);
         },
         TType::At => {  // 「@」は「attribute::」の省略形
             lex.get_token();
-            return parse_node_test(lex, &XNodeType::AxisAttribute);
+            let xnode = parse_node_test(lex, &XNodeType::AxisAttribute)?;
+            error_if_nil!(lex, xnode, "{}: @ の後にノード・テストが必要。");
+            return Ok(xnode);
         },
         TType::DotDot => {// 「..」は「parent::node()」の省略形
             lex.get_token();
@@ -797,6 +801,7 @@ fn parse_predicate(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let xnode = parse_expr(lex)?;
+    error_if_nil!(lex, xnode, "{}: 述語の式が必要。");
 
     error_if_not_ttype!(lex, TType::RightBracket, "{}: 述語を閉じる「]」が必要。");
     lex.get_token();
@@ -865,9 +870,7 @@ fn parse_for_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = for_expr_xnode.clone();
     loop {
         let var_bind_xnode = parse_simple_for_binding(lex)?;
-        if is_nil_xnode(&var_bind_xnode) {
-            break;
-        }
+        error_if_nil!(lex, var_bind_xnode, "{}: 変数束縛が必要。");
         assign_as_right(&curr_xnode, &var_bind_xnode);
         curr_xnode = get_right(&curr_xnode);
 
@@ -882,6 +885,7 @@ fn parse_for_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: return/satisfies の後に式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(for_expr_xnode);
@@ -918,9 +922,7 @@ fn parse_let_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = let_expr_xnode.clone();
     loop {
         let var_bind_xnode = parse_simple_let_binding(lex)?;
-        if is_nil_xnode(&var_bind_xnode) {
-            break;
-        }
+        error_if_nil!(lex, var_bind_xnode, "{}: 変数束縛が必要。");
         assign_as_right(&curr_xnode, &var_bind_xnode);
         curr_xnode = get_right(&curr_xnode);
 
@@ -935,6 +937,7 @@ fn parse_let_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: return/satisfies の後に式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(let_expr_xnode);
@@ -965,6 +968,7 @@ fn parse_simple_let_binding(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 変数に束縛する式が必要。");
     let var_bind_xnode = new_xnode(XNodeType::LetVarBind, &var_name);
     assign_as_left(&var_bind_xnode, &expr_single_xnode);
 
@@ -1007,9 +1011,7 @@ fn parse_quantified_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = quantified_expr_xnode.clone();
     loop {
         let xnode_var_bind = parse_simple_binding(lex, &xnode_ttype)?;
-        if is_nil_xnode(&xnode_var_bind) {
-            break;
-        }
+        error_if_nil!(lex, xnode_var_bind, "{}: 変数束縛が必要。");
         assign_as_right(&curr_xnode, &xnode_var_bind);
         curr_xnode = get_right(&curr_xnode);
 
@@ -1024,6 +1026,7 @@ fn parse_quantified_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: return/satisfies の後に式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(quantified_expr_xnode);
@@ -1055,6 +1058,7 @@ fn parse_simple_binding(lex: &mut Lexer, xnode_type: &XNodeType) -> Result<XNode
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 変数に束縛する式が必要。");
     let var_bind_xnode = new_xnode(xnode_type.clone(), &var_name);
     assign_as_left(&var_bind_xnode, &expr_single_xnode);
 
@@ -1246,6 +1250,7 @@ fn parse_instanceof_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_treat_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::InstanceOf {
+        error_if_nil!(lex, xnode, "{}: 演算子の左辺となる式が必要。");
         lex.get_token();
         let seq_type_xnode = parse_sequence_type(lex)?;
         if is_nil_xnode(&seq_type_xnode) {
@@ -1269,6 +1274,7 @@ fn parse_treat_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_castable_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::TreatAs {
+        error_if_nil!(lex, xnode, "{}: 演算子の左辺となる式が必要。");
         lex.get_token();
         let seq_type_xnode = parse_sequence_type(lex)?;
         if is_nil_xnode(&seq_type_xnode) {
@@ -1559,6 +1565,7 @@ fn parse_castable_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_cast_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::CastableAs {
+        error_if_nil!(lex, xnode, "{}: 演算子の左辺となる式が必要。");
         lex.get_token();
         let single_type_xnode = parse_single_type(lex)?;
         if is_nil_xnode(&single_type_xnode) {
@@ -1588,6 +1595,7 @@ fn parse_cast_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_arrow_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::CastAs {
+        error_if_nil!(lex, xnode, "{}: 演算子の左辺となる式が必要。");
         lex.get_token();
         let single_type_xnode = parse_single_type(lex)?;
         if is_nil_xnode(&single_type_xnode) {
@@ -1654,6 +1662,7 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_unary_expr(lex)?;
     let mut curr_xnode = xnode.clone();
     while lex.next_token().get_type() == TType::Arrow {
+        error_if_nil!(lex, curr_xnode, "{}: 演算子の左辺となる式が必要。");
         lex.get_token();
 
         let func_name = parse_static_func_name(lex)?;
@@ -1702,6 +1711,7 @@ fn parse_unary_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         TType::Minus => {
             lex.get_token();
             let next_node = parse_value_expr(lex)?;
+            error_if_nil!(lex, next_node, "{}: 単項演算子の後に式が必要。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryMinus, "-");
             assign_as_right(&xnode_op, &next_node);
             return Ok(xnode_op);
@@ -1709,6 +1719,7 @@ fn parse_unary_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         TType::Plus => {
             lex.get_token();
             let next_node = parse_value_expr(lex)?;
+            error_if_nil!(lex, next_node, "{}: 単項演算子の後に式が必要。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryPlus, "+");
             assign_as_right(&xnode_op, &next_node);
             return Ok(xnode_op);
@@ -1748,8 +1759,10 @@ fn parse_bin_op_sub(lex: &mut Lexer,
             Some(t) => t,
             None => break,
         };
+        error_if_nil!(lex, xnode, "{}: 演算子の左辺となる式が必要。");
         lex.get_token();
         let next_node = sub_parser(lex)?;
+        error_if_nil!(lex, next_node, "{}: 演算子の右辺となる式が必要。");
 
         let xnode_op = new_xnode(n_type.clone(), tok.get_name());
         assign_as_left(&xnode_op, &xnode);
@@ -1808,9 +1821,8 @@ fn parse_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             assign_as_left(&op_path_xnode_l, &ds_xnode);
 
             let rel_xnode = parse_relative_path_expr(lex)?;
-            if ! is_nil_xnode(&rel_xnode) {
-                assign_as_right(&op_path_xnode_l, &rel_xnode);
-            }
+            error_if_nil!(lex, rel_xnode, "{}: 「//」の後にステップが必要。");
+            assign_as_right(&op_path_xnode_l, &rel_xnode);
             return Ok(op_path_xnode_u);
         },
         _ => {
@@ -1848,6 +1860,7 @@ fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             TType::Slash => {
                 lex.get_token();
                 let step_expr_xnode = parse_step_expr(lex)?;
+                error_if_nil!(lex, step_expr_xnode, "{}: 「/」の後にステップが必要。");
                 let op_path_xnode = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr Slash");
                 assign_as_left(&op_path_xnode, &step_expr_xnode);
                 assign_as_right(&curr_xnode, &op_path_xnode);
@@ -1856,6 +1869,7 @@ fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             TType::SlashSlash => {
                 lex.get_token();
                 let step_expr_xnode = parse_step_expr(lex)?;
+                error_if_nil!(lex, step_expr_xnode, "{}: 「/」の後にステップが必要。");
 
                 let op_path_xnode_u = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr SlashSlash 1");
                 let ds_xnode = new_xnode(XNodeType::AxisDescendantOrSelf, "node()");
@@ -2237,6 +2251,7 @@ fn parse_param_list(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let param_xnode = parse_param(lex)?;
+        error_if_nil!(lex, param_xnode, "{}: コンマの後に引数が必要。");
         assign_as_right(&curr, &param_xnode);
         curr = param_xnode.clone();
     }
@@ -2345,6 +2360,7 @@ fn parse_map_constructor_entries(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let entry_xnode = parse_map_constructor_entry(lex)?;
+        error_if_nil!(lex, entry_xnode, "{}: コンマの後にマップの項目が必要。");
         let entry_list_xnode = new_xnode(XNodeType::MapConstruct, "");
         assign_as_left(&entry_list_xnode, &entry_xnode);
         assign_as_right(&curr_xnode, &entry_list_xnode);
@@ -2449,6 +2465,7 @@ fn parse_expr_in_array(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let expr_xnode = parse_expr_single(lex)?;
+        error_if_nil!(lex, expr_xnode, "{}: コンマの後に式が必要。");
         let entry_xnode = new_xnode(XNodeType::ArrayEntry, "");
         assign_as_left(&entry_xnode, &expr_xnode);
         assign_as_right(&curr_xnode, &entry_xnode);
@@ -2634,6 +2651,7 @@ fn parse_argument_list_sub(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let next_arg_xnode = parse_argument(lex)?;
+        error_if_nil!(lex, next_arg_xnode, "{}: コンマの後に引数が必要。");
         assign_as_right(&curr, &next_arg_xnode);
         curr = next_arg_xnode.clone();
     }
-- 
2.43.0


From cbc54206d482ba2af9d3811ca7a59a6705a81f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 14/82] fix: require the keywords then, else, return, in and
 satisfies

---
 src/xpath_impl/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index eccfbae..e6f23d5 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -224,7 +224,7 @@ macro_rules! error_if_not_ttype {
 //
 macro_rules! error_if_not_name {
     ( $lex: expr, $name: expr, $msg: expr ) => {
-        if $lex.next_token().get_type() != TType::Name &&
+        if $lex.next_token().get_type() != TType::Name ||
            $lex.next_token().get_name() != $name {
             return Err(xpath_syntax_error!($msg,
                 $lex.around_tokens().as_str()));
-- 
2.43.0


From 5b20d3f56864fd157ffb00deae1a7b82b2f32ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 15/82] fix: accept repeated unary operators such as --1

---
 src/xpath_impl/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index e6f23d5..6fc51e8 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -1703,14 +1703,14 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 }
 
 // ---------------------------------------------------------------------
-// [ 23] UnaryExpr ::= ( "-" | "+" )? ValueExpr
+// [ 30] UnaryExpr ::= ( "-" | "+" )* ValueExpr
 //
 fn parse_unary_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let tok = lex.next_token();
     match tok.get_type() {
         TType::Minus => {
             lex.get_token();
-            let next_node = parse_value_expr(lex)?;
+            let next_node = parse_unary_expr(lex)?;
             error_if_nil!(lex, next_node, "{}: 単項演算子の後に式が必要。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryMinus, "-");
             assign_as_right(&xnode_op, &next_node);
@@ -1718,7 +1718,7 @@ fn parse_unary_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         },
         TType::Plus => {
             lex.get_token();
-            let next_node = parse_value_expr(lex)?;
+            let next_node = parse_unary_expr(lex)?;
             error_if_nil!(lex, next_node, "{}: 単項演算子の後に式が必要。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryPlus, "+");
             assign_as_right(&xnode_op, &next_node);
-- 
2.43.0


From c1e9c95d46820f3a6081e183bd349feeb60d2af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 16/82] fix: accept predicates after the abbreviated step '..'

---
 src/xpath_impl/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 6fc51e8..1185c85 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -381,7 +381,10 @@ fn parse_axis_step(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         },
         TType::DotDot => {// 「..」は「parent::node()」の省略形
             lex.get_token();
-            return Ok(new_xnode(XNodeType::AxisParent, "node()"));
+            let axis_xnode = new_xnode(XNodeType::AxisParent, "node()");
+            let predicates_xnode = parse_predicate_list(lex, true)?;
+            assign_as_right(&axis_xnode, &predicates_xnode);
+            return Ok(axis_xnode);
         },
         _ => {  // 「空」は「child::」の省略形
             return parse_node_test(lex, &XNodeType::AxisChild);
-- 
2.43.0


From b0a438f4aecf1af8fa21bc228a70245fe1e9f8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 17/82] fix: integer overflow is a dynamic error, not a panic
 or wraparound

---
 src/xpath_impl/func.rs  | 16 ++++++++++------
 src/xpath_impl/xitem.rs | 26 ++++++++++++++++++--------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index e7e956d..da837e0 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -436,7 +436,7 @@ fn fn_data(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_abs(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a.abs() },
+                |a| { a.checked_abs() },
                 |a| { a.abs() },
                 |a| { a.abs() });
 }
@@ -448,7 +448,7 @@ fn fn_abs(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_ceiling(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
+                |a| { Some(a) },
                 |a| { a.ceil() },
                 |a| { ceil_x(a) });
 }
@@ -460,7 +460,7 @@ fn fn_ceiling(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_floor(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
+                |a| { Some(a) },
                 |a| { a.floor() },
                 |a| { floor_x(a) });
 }
@@ -472,7 +472,7 @@ fn fn_floor(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_round(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
+                |a| { Some(a) },
                 |a| { (a + 0.5).floor() },
                         // a.round() ではない。
                         // round(-2.5) => -2 となるようにするため。
@@ -512,13 +512,17 @@ fn round_x(num: f64) -> f64 {
 //
 fn fn_numeric_unary<FINT, FDEC, FDBL>(args: &Vec<&XSequence>,
         mut int_op: FINT, mut dec_op: FDEC, mut dbl_op: FDBL) -> Result<XSequence, Box<Error>>
-        where FINT: FnMut(i64) -> i64,
+        where FINT: FnMut(i64) -> Option<i64>,
               FDEC: FnMut(f64) -> f64,
               FDBL: FnMut(f64) -> f64 {
     if let Ok(arg) = args[0].get_singleton_item() {
         match arg {
             XItem::XIInteger{value: arg} => {
-                return Ok(new_singleton_integer(int_op(arg)));
+                match int_op(arg) {
+                    Some(n) => return Ok(new_singleton_integer(n)),
+                    None => return Err(dynamic_error!(
+                            "Numeric operation overflow/underflow.")),
+                }
             },
             XItem::XIDecimal{value: arg} => {
                 return Ok(new_singleton_decimal(dec_op(arg)));
diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 573f0a8..4c7f1c5 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -813,21 +813,21 @@ pub fn xitem_compare(lhs: &XItem, rhs: &XItem) -> Result<i64, Box<Error>> {
 //
 pub fn xitem_numeric_add(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a + b },
+                |a, b| { a.checked_add(b) },
                 |a, b| { a + b },
                 |a, b| { a + b });
 }
 
 pub fn xitem_numeric_subtract(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a - b },
+                |a, b| { a.checked_sub(b) },
                 |a, b| { a - b },
                 |a, b| { a - b });
 }
 
 pub fn xitem_numeric_multiply(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a * b },
+                |a, b| { a.checked_mul(b) },
                 |a, b| { a * b },
                 |a, b| { a * b });
 }
@@ -853,7 +853,7 @@ pub fn xitem_numeric_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error
         _ => return Err(cant_occur!("xitem_numeric_divide: rhs_a")),
     };
     return xitem_numeric_operation(lhs, &rhs_a,
-                |a, b| { a / b },
+                |a, b| { a.checked_div(b) },
                 |a, b| { a / b },
                 |a, b| { a / b });
 }
@@ -918,7 +918,7 @@ pub fn xitem_numeric_mod(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>>
     }
 
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a.rem(b) },
+                |a, b| { Some(a.wrapping_rem(b)) },
                 |a, b| { a.rem(b) },
                 |a, b| { a.rem(b) });
 }
@@ -938,7 +938,13 @@ pub fn xitem_numeric_unary_plus(arg: &XItem) -> Result<XItem, Box<Error>> {
 //
 pub fn xitem_numeric_unary_minus(arg: &XItem) -> Result<XItem, Box<Error>> {
     match arg {
-        XItem::XIInteger{value} => return Ok(new_xitem_integer(value.neg())),
+        XItem::XIInteger{value} => {
+            match value.checked_neg() {
+                Some(n) => return Ok(new_xitem_integer(n)),
+                None => return Err(dynamic_error!(
+                        "Numeric operation overflow/underflow.")),
+            }
+        },
         XItem::XIDecimal{value} => return Ok(new_xitem_decimal(value.neg())),
         XItem::XIDouble{value} => return Ok(new_xitem_double(value.neg())),
         _ => return Err(type_error!("xitem_numeric_operation: Not numeric")),
@@ -951,7 +957,7 @@ pub fn xitem_numeric_unary_minus(arg: &XItem) -> Result<XItem, Box<Error>> {
 //
 fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
         mut int_op: FINT, mut dec_op: FDEC, mut dbl_op: FDBL) -> Result<XItem, Box<Error>>
-        where FINT: FnMut(i64, i64) -> i64,
+        where FINT: FnMut(i64, i64) -> Option<i64>,
               FDEC: FnMut(f64, f64) -> f64,
               FDBL: FnMut(f64, f64) -> f64 {
 
@@ -959,7 +965,11 @@ fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
         XItem::XIInteger{value: lhs} => {
             match rhs {
                 XItem::XIInteger{value: rhs} => {
-                    return Ok(new_xitem_integer(int_op(*lhs, *rhs)));
+                    match int_op(*lhs, *rhs) {
+                        Some(n) => return Ok(new_xitem_integer(n)),
+                        None => return Err(dynamic_error!(
+                                "Numeric operation overflow/underflow.")),
+                    }
                 },
                 XItem::XIDecimal{value: rhs} => {
                     return Ok(new_xitem_decimal(dec_op(int_to_dec(*lhs), *rhs)));
-- 
2.43.0


From c11597f746b1e88e5fdcffb21f83b0befb6d0d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 18/82] fix: reject numeric literals that are malformed or out
 of range

---
 src/xpath_impl/eval.rs  | 7 ++++++-
 src/xpath_impl/lexer.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 3b342e7..a51493a 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -670,7 +670,12 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             return Ok(new_singleton_string(&get_xnode_name(&xnode)));
         },
         XNodeType::IntegerLiteral => {
-            return Ok(new_singleton_integer(atoi(&get_xnode_name(&xnode))));
+            let literal = get_xnode_name(&xnode);
+            match i64::from_str(&literal) {
+                Ok(n) => return Ok(new_singleton_integer(n)),
+                Err(_) => return Err(dynamic_error!(
+                        "{}: Numeric operation overflow/underflow.", literal)),
+            }
         },
         XNodeType::DecimalLiteral => {
             return Ok(new_singleton_decimal(atof(&get_xnode_name(&xnode))));
diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index d7c1ffe..9be44a6 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -686,7 +686,12 @@ impl Lexer {
                 return Err(xpath_syntax_error!(
                         "指数を表す [eE] の後には数字が必要。"));
             }
-            numeric_after_e.push_str(&self.fetch_digits());
+            let digits = self.fetch_digits();
+            if digits == "" {
+                return Err(xpath_syntax_error!(
+                        "指数を表す [eE] の後には数字が必要。"));
+            }
+            numeric_after_e.push_str(&digits);
         } else {
             self.unread_rune();
         }
-- 
2.43.0


From 22d0b59593015e2939e0bae7207b996de0507aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 19/82] fix: idiv truncates the quotient, not the operands

---
 src/xpath_impl/xitem.rs | 62 ++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 4c7f1c5..770cd37 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -33,6 +33,11 @@ fn f64_to_i64(f: f64) -> i64 {
     return f as i64;
 }
 
+// 小数部を切り捨てた値が、i64型で表現できる範囲内にあるか (NaNならばfalse)。
+fn is_in_i64_range(f: f64) -> bool {
+    return -9223372036854775808.0 <= f && f < 9223372036854775808.0;
+}
+
 fn i64_to_f64(n: i64) -> f64 {
     return n as f64;
 }
@@ -861,43 +866,38 @@ pub fn xitem_numeric_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error
 // ---------------------------------------------------------------------
 //
 pub fn xitem_numeric_integer_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
-    match lhs {
-        XItem::XIDouble{value} => {
-            if value.is_nan() {
-                return Err(dynamic_error!("Numeric operation overflow/underflow."));
-            }
-            if ! value.is_finite() {
-                return Err(dynamic_error!("Numeric operation overflow/underflow."));
+    if let XItem::XIInteger{value: lhs} = lhs {
+        if let XItem::XIInteger{value: rhs} = rhs {
+            if *rhs == 0 {
+                return Err(dynamic_error!("Division by zero"));
             }
-        },
-        _ => {},
-    }
-    match rhs {
-        XItem::XIDouble{value} => {
-            if value.is_nan() {
-                return Err(dynamic_error!("Numeric operation overflow/underflow."));
+            match lhs.checked_div(*rhs) {
+                Some(n) => return Ok(new_xitem_integer(n)),
+                None => return Err(dynamic_error!(
+                        "Numeric operation overflow/underflow.")),
             }
-        },
-        _ => {},
+        }
     }
 
-    let lhs = match lhs {
-        XItem::XIInteger{value} => *value,
-        XItem::XIDecimal{value} => f64_to_i64(*value),
-        XItem::XIDouble{value} => f64_to_i64(*value),
-        _ => 0,
-    };
-    let rhs = match rhs {
-        XItem::XIInteger{value} => *value,
-        XItem::XIDecimal{value} => f64_to_i64(*value),
-        XItem::XIDouble{value} => f64_to_i64(*value),
-        _ => 0,
-    };
-    if rhs != 0 {
-        return Ok(new_xitem_integer(lhs / rhs));
-    } else {
+    // -----------------------------------------------------------------
+    // 商を求めてから、小数部を切り捨てる。
+    //
+    if ! lhs.is_numeric() || ! rhs.is_numeric() {
+        return Err(type_error!("xitem_numeric_integer_divide: Not numeric"));
+    }
+    let lhs = lhs.get_as_raw_double()?;
+    let rhs = rhs.get_as_raw_double()?;
+    if lhs.is_nan() || lhs.is_infinite() || rhs.is_nan() {
+        return Err(dynamic_error!("Numeric operation overflow/underflow."));
+    }
+    if rhs == 0.0 {
         return Err(dynamic_error!("Division by zero"));
     }
+    let quotient = (lhs / rhs).trunc();
+    if ! is_in_i64_range(quotient) {
+        return Err(dynamic_error!("Numeric operation overflow/underflow."));
+    }
+    return Ok(new_xitem_integer(f64_to_i64(quotient)));
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From 9b5d5e50786f93243e9c1341dbb8bb62a91fdf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 20/82] fix: a double dividend promotes a zero divisor instead
 of raising an error

---
 src/xpath_impl/xitem.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 770cd37..396e096 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -837,9 +837,31 @@ pub fn xitem_numeric_multiply(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Err
                 |a, b| { a * b });
 }
 
+// ---------------------------------------------------------------------
+// 被除数がdoubleの場合、整数やdecimalのゼロである除数もdoubleに昇格するので、
+// ゼロ除算のエラーにはならない。
+//
+fn promote_zero_divisor(lhs: &XItem, rhs: &XItem) -> Option<XItem> {
+    if let XItem::XIDouble{value: _} = lhs {
+        match rhs {
+            XItem::XIInteger{value} if *value == 0 => {
+                return Some(new_xitem_double(0.0));
+            },
+            XItem::XIDecimal{value} if *value == 0.0 => {
+                return Some(new_xitem_double(*value));
+            },
+            _ => {},
+        }
+    }
+    return None;
+}
+
 // ---------------------------------------------------------------------
 //
 pub fn xitem_numeric_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
+    if let Some(rhs) = promote_zero_divisor(lhs, rhs) {
+        return xitem_numeric_divide(lhs, &rhs);
+    }
     let rhs_a = match rhs {
         XItem::XIInteger{value: rhs} => {
             if *rhs == 0 {
@@ -855,7 +877,7 @@ pub fn xitem_numeric_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error
             new_xitem_decimal(*rhs)
         },
         XItem::XIDouble{value: rhs} => new_xitem_double(*rhs),
-        _ => return Err(cant_occur!("xitem_numeric_divide: rhs_a")),
+        _ => return Err(type_error!("xitem_numeric_divide: Not numeric")),
     };
     return xitem_numeric_operation(lhs, &rhs_a,
                 |a, b| { a.checked_div(b) },
@@ -903,6 +925,9 @@ pub fn xitem_numeric_integer_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, B
 // ---------------------------------------------------------------------
 //
 pub fn xitem_numeric_mod(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
+    if let Some(rhs) = promote_zero_divisor(lhs, rhs) {
+        return xitem_numeric_mod(lhs, &rhs);
+    }
     match rhs {
         XItem::XIInteger{value: rhs} => {
             if *rhs == 0 {
-- 
2.43.0


From 0e47b0d5f5bf6955a13316d54099ae9f14eada36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 21/82] fix: a value that is not a number can't be cast to
 integer or decimal

---
 src/xpath_impl/xitem.rs | 58 ++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 32 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 396e096..a1c34f6 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -24,10 +24,6 @@ fn atof(s: &str) -> f64 {
     return f64::from_str(s.trim()).unwrap_or(f64::NAN);
 }
 
-fn atoi(s: &str) -> i64 {
-    return i64::from_str(s.trim()).unwrap_or(0);
-}
-
 fn f64_to_i64(f: f64) -> i64 {
     // return i64::from_str(&format!("{}", f)).unwrap_or(i64::MAX);
     return f as i64;
@@ -694,29 +690,21 @@ impl XItem {
     // -----------------------------------------------------------------
     //
     pub fn get_as_raw_decimal(&self) -> Result<f64, Box<Error>> {
-        match self {
-            XItem::XINode{value} => {
-                return Ok(atof(&value.string_value()));
-            },
-            XItem::XIString{ref value} => {
-                return Ok(atof(value.as_str()));
-            },
-            XItem::XIInteger{ref value} => {
-                return Ok(i64_to_f64(*value));
-            },
-            XItem::XIDecimal{ref value} => {
-                return Ok(*value);
-            },
-            XItem::XIDouble{ref value} => {
-                return Ok(*value);
-            },
-            XItem::XIBoolean{value} => {
-                return Ok(if *value == true { 1.0 } else { 0.0 });
-            },
-            _ => {},
-        }
-        return Err(type_error!(
+        let d = match self {
+            XItem::XINode{value} => atof(&value.string_value()),
+            XItem::XIString{ref value} => atof(value.as_str()),
+            XItem::XIInteger{ref value} => i64_to_f64(*value),
+            XItem::XIDecimal{ref value} => *value,
+            XItem::XIDouble{ref value} => *value,
+            XItem::XIBoolean{value} => if *value == true { 1.0 } else { 0.0 },
+            _ => f64::NAN,
+        };
+        // NaNや無限大はdecimalとして表現できない。
+        if d.is_nan() || d.is_infinite() {
+            return Err(type_error!(
                 "Item {}: can't cast to decimal", self.to_string()));
+        }
+        return Ok(d);
     }
 
     // -----------------------------------------------------------------
@@ -724,16 +712,22 @@ impl XItem {
     pub fn get_as_raw_integer(&self) -> Result<i64, Box<Error>> {
         match self {
             XItem::XINode{value} => {
-                return Ok(atoi(&value.string_value()));
+                if let Ok(i) = i64::from_str(value.string_value().trim()) {
+                    return Ok(i);
+                }
             },
             XItem::XIInteger{value} => return Ok(*value),
             XItem::XIString{value} => {
-                return Ok(atoi(value));
+                if let Ok(i) = i64::from_str(value.trim()) {
+                    return Ok(i);
+                }
+            },
+            XItem::XIDecimal{value} | XItem::XIDouble{value} => {
+                // NaN、無限大、範囲外の値はキャストできない。
+                if is_in_i64_range(*value) {
+                    return Ok(f64_to_i64(*value));
+                }
             },
-            XItem::XIDecimal{value} => return Ok(f64_to_i64(*value)),
-            XItem::XIDouble{value} => return Ok(f64_to_i64(*value)),
-                        // dbl->intはキャストできない場合がある。
-                        // NaNなど?
             XItem::XIBoolean{value} => {
                 if *value == true {
                     return Ok(1);
-- 
2.43.0


From 11b8c960988f28c2926638a76018b297392071f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 22/82] fix: codepoints-to-string rejects numbers that are not
 code points

---
 src/xpath_impl/func.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index da837e0..23a7c36 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -5,6 +5,7 @@
 // Copyright (C) 2018 KOYAMA Hiro <tac@amris.co.jp>
 //
 
+use std::char;
 use std::error::Error;
 use std::f64;
 use std::i64;
@@ -568,22 +569,18 @@ fn fn_number(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // fn:codepoints-to-string($arg as xs:integer*) as xs:string
 //
 fn fn_codepoints_to_string(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    let mut v: Vec<u16> = vec!{};
+    let mut s = String::new();
     for item in args[0].iter() {
-        let uni = item.get_as_raw_integer()? as u64;
-        if 0x10000 <= uni {                             // 代用対
-            let hi = (uni - 0x10000) / 0x0400 + 0xD800;
-            let lo = (uni - 0x10000) % 0x0400 + 0xDC00;
-            v.push(hi as u16);
-            v.push(lo as u16);
-        } else {
-            v.push(uni as u16);
+        let uni = item.get_as_raw_integer()?;
+        if uni < 0 || 0x10FFFF < uni {
+            return Err(dynamic_error!("Code point not valid."));
+        }
+        match char::from_u32(uni as u32) {
+            Some(ch) => s.push(ch),
+            None => return Err(dynamic_error!("Code point not valid.")),
         }
     }
-    match String::from_utf16(&v) {
-        Ok(s) => return Ok(new_singleton_string(&s)),
-        Err(_) => return Err(dynamic_error!("Code point not valid.")),
-    }
+    return Ok(new_singleton_string(&s));
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From 222e7907ab011dba1b0f46d96013a6594200c2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 23/82] fix: no overflow in substring, subsequence and
 insert-before positions

---
 src/xpath_impl/func.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 23a7c36..46c8556 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1259,7 +1259,7 @@ fn fn_tail(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_insert_before(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let target = args[0];
-    let mut position = args[1].get_singleton_integer()? - 1;
+    let mut position = args[1].get_singleton_integer()?.saturating_sub(1);
     let inserts = args[2];
     if position <= 0 {
         position = 0;
@@ -1704,7 +1704,7 @@ fn subcollection_index_sub(source_length: usize,
         return (0, 0);
     }
     let beg_pos = round_x(starting_loc) as i64;     // 有限値
-    let mut b = beg_pos - 1;                        // 0起点の値に補正
+    let mut b = beg_pos.saturating_sub(1);                        // 0起点の値に補正
     if b < 0 {
         b = 0;
     }
@@ -1724,7 +1724,7 @@ fn subcollection_index_sub(source_length: usize,
             } else {
                 round_x(length) as i64                 // 非負の有限値
             };
-        e = beg_pos + len_str - 1;
+        e = beg_pos.saturating_add(len_str).saturating_sub(1);
         if e < b {
             e = b;
         }
-- 
2.43.0


From 37cc1ef10e4fb09a49917fa27bc8de8f7c2b566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 24/82] fix: unbind the variable when some/every stops early

---
 src/xpath_impl/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index a51493a..f522fbc 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -593,10 +593,10 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             for xitem in range.iter() {
                 eval_env.set_var_item(var_name.as_str(), xitem);
                 let rhs = evaluate_xnode(xseq, &get_right(xnode), eval_env)?;
+                eval_env.remove_var(var_name.as_str());
                 if rhs.effective_boolean_value()? == true {
                     return Ok(new_singleton_boolean(true));
                 }
-                eval_env.remove_var(var_name.as_str());
             }
             return Ok(new_singleton_boolean(false));
         },
@@ -611,10 +611,10 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             for xitem in range.iter() {
                 eval_env.set_var_item(var_name.as_str(), xitem);
                 let rhs = evaluate_xnode(xseq, &get_right(xnode), eval_env)?;
+                eval_env.remove_var(var_name.as_str());
                 if rhs.effective_boolean_value()? == false {
                     return Ok(new_singleton_boolean(false));
                 }
-                eval_env.remove_var(var_name.as_str());
             }
             return Ok(new_singleton_boolean(true));
         },
-- 
2.43.0


From d577552a2c8ca748ddf008a12f0a15875ce96cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 25/82] fix: a wrong number of arguments in a dynamic call is
 an error, not a panic

---
 src/xpath_impl/eval.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index f522fbc..dbb4305 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1394,6 +1394,9 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     // マップ
     //
     if let Ok(map_item) = curr_xseq.get_singleton_map() {
+        if argument_xseq.len() != 1 {
+            return Err(type_error!("マップに渡す引数は1個でなければならない。"));
+        }
         let key = argument_xseq[0].get_singleton_item()?;
         if let Some(v) = map_item.map_get(&key) {
             return Ok(v);
@@ -1407,6 +1410,9 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     // 配列
     //
     if let Ok(array_item) = curr_xseq.get_singleton_array() {
+        if argument_xseq.len() != 1 {
+            return Err(type_error!("配列に渡す引数は1個でなければならない。"));
+        }
         let index_item = argument_xseq[0].get_singleton_item()?;
         if let Some(v) = array_item.array_get(&index_item) {
             return Ok(v);
@@ -1450,6 +1456,11 @@ fn call_inline_func(inline_func_xnode: &XNodePtr,
     // -----------------------------------------------------------------
     // 実引数の値を変数 (仮引数) に束縛する。
     //
+    if argument_xseq.len() != param_names.len() {
+        return Err(type_error!(
+                "インライン函数: 引数の個数が合致しない: {}。",
+                argument_xseq.len()));
+    }
     for (i, val) in argument_xseq.iter().enumerate() {
         if match_sequence_type(&val, &sequence_types[i])? == false {
             return Err(type_error!(
@@ -1555,6 +1566,9 @@ fn call_partial_func(func_xnode: &XNodePtr,
         }
         curr_xnode = get_right(&curr_xnode);
     }
+    if i != argument_xseq.len() {
+        return Err(dynamic_error!("函数呼び出しの「?」に渡すべき引数が多すぎる。"));
+    }
 
     return evaluate_function(&get_xnode_name(&func_xnode),
             &mut args_array, context_xseq, eval_env);
-- 
2.43.0


From 1a47bb1a3c6e1028505c4fd774c3e0ecfdd4fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 26/82] fix: allow a dynamic call of a named function reference
 or partial function

---
 src/xpath_impl/eval.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index dbb4305..2b4ba5d 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1378,16 +1378,10 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     }
 
     // -----------------------------------------------------------------
-    // インライン函数
+    // インライン函数、名前付き函数参照、部分函数
     //
-    if let Ok(inline_func_xnode) = curr_xseq.get_singleton_xnodeptr() {
-        match get_xnode_type(&inline_func_xnode) {
-            XNodeType::InlineFunction => {
-                return call_inline_func(&inline_func_xnode,
-                            argument_xseq, xseq, eval_env);
-            },
-            _ => {}
-        }
+    if let Ok(func_xnode) = curr_xseq.get_singleton_xnodeptr() {
+        return call_function(&func_xnode, argument_xseq, xseq, eval_env);
     }
 
     // -----------------------------------------------------------------
@@ -1422,8 +1416,8 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
         }
     }
 
-    return Err(cant_occur!(
-                "apply_argument: インライン函数/マップ/配列でない。"));
+    return Err(type_error!(
+                "apply_argument: 函数/マップ/配列でない。"));
 
 }
 
-- 
2.43.0


From ed320c1dc42391a74cb76f19e5ae74067d40c97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 27/82] fix: a predicate that is not an integer uses its
 effective boolean value

---
 src/xpath_impl/eval.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 2b4ba5d..fc6c81e 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1310,19 +1310,15 @@ fn filter_by_predicate(xseq: &XSequence, xnode: &XNodePtr,
         eval_env.set_position(old_position);
 
         // 評価結果をもとに、このアイテムを残すかどうか判定する。
-        let mut do_push = false;
-        match val.get_singleton_item() {
-            Ok(XItem::XIInteger{value}) => {
-                do_push = value == usize_to_i64(position);
-            },
-            Ok(XItem::XINode{value: _}) => {
-                do_push = true;
-            },
-            Ok(XItem::XIBoolean{value}) => {
-                do_push = value;
-            },
-            _ => {},
-        }
+        //   数値のシングルトン: 文脈位置と等しければ残す。
+        //   その他: 実効ブール値がtrueならば残す。
+        //
+        let do_push = match val.get_singleton_item() {
+            Ok(XItem::XIInteger{value}) => value == usize_to_i64(position),
+            Ok(XItem::XIDecimal{value}) |
+            Ok(XItem::XIDouble{value}) => value == position as f64,
+            _ => val.effective_boolean_value()?,
+        };
         if do_push {
             result.push(&xitem.clone());
         }
-- 
2.43.0


From 28948f88470cbc49a17308812de98950967548fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 28/82] fix: NaN and empty operands in <=, >=, ne, le and ge
 comparisons

---
 src/xpath_impl/oper.rs      |  8 ++++++++
 src/xpath_impl/xitem.rs     | 15 +++++++++++++++
 src/xpath_impl/xsequence.rs | 19 +++++++++++++------
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index ca093de..f960b91 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -89,6 +89,14 @@ pub fn op_numeric_greater_than(args: &Vec<&XSequence>) -> Result<XSequence, Box<
     return op_numeric_comparison(args, xitem_numeric_greater_than);
 }
 
+pub fn op_numeric_less_than_or_equal(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
+    return op_numeric_comparison(args, xitem_numeric_less_than_or_equal);
+}
+
+pub fn op_numeric_greater_than_or_equal(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
+    return op_numeric_comparison(args, xitem_numeric_greater_than_or_equal);
+}
+
 // ---------------------------------------------------------------------
 //
 fn op_numeric_comparison<F>(args: &Vec<&XSequence>, mut func_op: F) -> Result<XSequence, Box<Error>>
diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index a1c34f6..46319e0 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -1055,6 +1055,21 @@ pub fn xitem_numeric_greater_than(lhs: &XItem, rhs: &XItem) -> Result<bool, Box<
             |a, b| { a > b });
 }
 
+// NaNとの比較は常にfalseなので、「>」の否定では代用できない。
+pub fn xitem_numeric_less_than_or_equal(lhs: &XItem, rhs: &XItem) -> Result<bool, Box<Error>> {
+    return xitem_numeric_comparison(lhs, rhs,
+            |a, b| { a <= b },
+            |a, b| { a <= b },
+            |a, b| { a <= b });
+}
+
+pub fn xitem_numeric_greater_than_or_equal(lhs: &XItem, rhs: &XItem) -> Result<bool, Box<Error>> {
+    return xitem_numeric_comparison(lhs, rhs,
+            |a, b| { a >= b },
+            |a, b| { a >= b },
+            |a, b| { a >= b });
+}
+
 // ---------------------------------------------------------------------
 // 数値と数値の比較: 必要に応じ、型を昇格する。
 //
diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 4005ef6..ba667fa 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -382,6 +382,9 @@ pub fn value_compare_eq(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 
 pub fn value_compare_ne(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     let result = value_compare_eq(lhs, rhs)?;
+    if result.is_empty() {
+        return Ok(result);
+    }
     return fn_not(&vec!{&result});
 }
 
@@ -393,8 +396,10 @@ pub fn value_compare_lt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 }
 
 pub fn value_compare_le(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
-    let result = value_compare_gt(lhs, rhs)?;
-    return fn_not(&vec!{&result});
+    return value_comparison(lhs, rhs,
+            |arg| { op_numeric_less_than_or_equal(arg) },
+            |arg| { arg <= 0 },
+            |arg| { let b = op_boolean_greater_than(arg)?; return fn_not(&vec!{&b}); });
 }
 
 pub fn value_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
@@ -405,8 +410,10 @@ pub fn value_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 }
 
 pub fn value_compare_ge(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
-    let result = value_compare_lt(lhs, rhs)?;
-    return fn_not(&vec!{&result});
+    return value_comparison(lhs, rhs,
+            |arg| { op_numeric_greater_than_or_equal(arg) },
+            |arg| { arg >= 0 },
+            |arg| { let b = op_boolean_less_than(arg)?; return fn_not(&vec!{&b}); });
 }
 
 // ---------------------------------------------------------------------
@@ -476,7 +483,7 @@ pub fn general_compare_lt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence,
 
 pub fn general_compare_le(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     return general_comparison(lhs, rhs,
-        |s, t| { let b = xitem_numeric_greater_than(s, t)?; return Ok(! b); },
+        |s, t| { xitem_numeric_less_than_or_equal(s, t) },
         |arg| { arg <= 0 },
         |s, t| { let b = xitem_boolean_greater_than(s, t)?; return Ok(! b); });
 }
@@ -490,7 +497,7 @@ pub fn general_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence,
 
 pub fn general_compare_ge(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     return general_comparison(lhs, rhs,
-        |s, t| { let b = xitem_numeric_less_than(s, t)?; return Ok(! b); },
+        |s, t| { xitem_numeric_greater_than_or_equal(s, t) },
         |arg| { arg >= 0 },
         |s, t| { let b = xitem_boolean_less_than(s, t)?; return Ok(! b); });
 }
-- 
2.43.0


From 89c3fe994cd9bf94ce637e2565aef5b75c3417e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 29/82] fix: path expressions are left associative, so atomic
 last steps keep document order

---
 src/xpath_impl/parser.rs | 101 +++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 57 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 1185c85..bbe1e7f 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -1800,33 +1800,29 @@ fn parse_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         TType::Slash => {
             lex.get_token();
 
-            let op_path_xnode = new_xnode(XNodeType::OperatorPath, "parse_path_expr Slash");
             let root_xnode = new_xnode(XNodeType::AxisRoot, "node()");
-            assign_as_left(&op_path_xnode, &root_xnode);
 
-            let rel_xnode = parse_relative_path_expr(lex)?;
-            if ! is_nil_xnode(&rel_xnode) {
-                assign_as_right(&op_path_xnode, &rel_xnode);
+            let step_xnode = parse_step_expr(lex)?;
+            if is_nil_xnode(&step_xnode) {
+                let op_path_xnode = new_xnode(XNodeType::OperatorPath, "parse_path_expr Slash");
+                assign_as_left(&op_path_xnode, &root_xnode);
+                return Ok(op_path_xnode);
             }
-            return Ok(op_path_xnode);
+            let op_path_xnode = join_path(&root_xnode, &step_xnode, "parse_path_expr Slash");
+            return parse_following_steps(lex, op_path_xnode);
         },
 
         TType::SlashSlash => {
             lex.get_token();
 
-            let op_path_xnode_u = new_xnode(XNodeType::OperatorPath, "parse_path_expr SlashSlash 1");
             let root_xnode = new_xnode(XNodeType::AxisRoot, "/");
-            assign_as_left(&op_path_xnode_u, &root_xnode);
-
-            let op_path_xnode_l = new_xnode(XNodeType::OperatorPath, "parse_path_expr SlashSlash 2");
             let ds_xnode = new_xnode(XNodeType::AxisDescendantOrSelf, "node()");
-            assign_as_right(&op_path_xnode_u, &op_path_xnode_l);
-            assign_as_left(&op_path_xnode_l, &ds_xnode);
+            let op_path_xnode_u = join_path(&root_xnode, &ds_xnode, "parse_path_expr SlashSlash 1");
 
-            let rel_xnode = parse_relative_path_expr(lex)?;
-            error_if_nil!(lex, rel_xnode, "{}: 「//」の後にステップが必要。");
-            assign_as_right(&op_path_xnode_l, &rel_xnode);
-            return Ok(op_path_xnode_u);
+            let step_xnode = parse_step_expr(lex)?;
+            error_if_nil!(lex, step_xnode, "{}: 「//」の後にステップが必要。");
+            let op_path_xnode_l = join_path(&op_path_xnode_u, &step_xnode, "parse_path_expr SlashSlash 2");
+            return parse_following_steps(lex, op_path_xnode_l);
         },
         _ => {
             return parse_relative_path_expr(lex);
@@ -1837,26 +1833,30 @@ fn parse_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 // ---------------------------------------------------------------------
 // [ 37] RelativePathExpr ::= StepExpr (("/" | "//") StepExpr)*
 //
-//  OpPath --- OpPath --- OpPath --- OpPath --- x
-//    |          |          |          |
-//    |          |          |       AxisXXX --- (predicate)
-//    |          |          |
-//    |          |       AxisXXX --- (predicate)
-//    |          |
-//    |     AxisDescendantOrSelf
-//    |
-// AxisXXX --- (predicate)
+// 左結合: A/B//C は ((A/B)/descendant-or-self::node())/C とする。
+//
+//              OpPath --- AxisXXX (C) --- (predicate)
+//                |
+//            OpPath --- AxisDescendantOrSelf
+//              |
+//          OpPath --- AxisXXX (B) --- (predicate)
+//            |
+//         AxisXXX (A) --- (predicate)
 //
 fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 
     let step_expr_xnode = parse_step_expr(lex)?;
-    if is_nil_xnode(&step_expr_xnode) {
-        return Ok(new_nil_xnode());
-    }
-    let top_op_path_xnode = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr TOP");
-    assign_as_left(&top_op_path_xnode, &step_expr_xnode);
-    let mut curr_xnode = top_op_path_xnode.clone();
+    return_if_nil!(step_expr_xnode);
+    return parse_following_steps(lex, step_expr_xnode);
+}
+
+// ---------------------------------------------------------------------
+// (("/" | "//") StepExpr)* を解析し、左側のパスxnodeに順次つなぐ。
+//
+fn parse_following_steps(lex: &mut Lexer,
+                path_xnode: XNodePtr) -> Result<XNodePtr, Box<Error>> {
 
+    let mut curr_xnode = path_xnode;
     loop {
         let tok = lex.next_token();
         match tok.get_type() {
@@ -1864,45 +1864,32 @@ fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
                 lex.get_token();
                 let step_expr_xnode = parse_step_expr(lex)?;
                 error_if_nil!(lex, step_expr_xnode, "{}: 「/」の後にステップが必要。");
-                let op_path_xnode = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr Slash");
-                assign_as_left(&op_path_xnode, &step_expr_xnode);
-                assign_as_right(&curr_xnode, &op_path_xnode);
-                curr_xnode = op_path_xnode.clone();
+                curr_xnode = join_path(&curr_xnode, &step_expr_xnode, "parse_following_steps Slash");
             },
             TType::SlashSlash => {
                 lex.get_token();
                 let step_expr_xnode = parse_step_expr(lex)?;
                 error_if_nil!(lex, step_expr_xnode, "{}: 「/」の後にステップが必要。");
 
-                let op_path_xnode_u = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr SlashSlash 1");
                 let ds_xnode = new_xnode(XNodeType::AxisDescendantOrSelf, "node()");
-                assign_as_left(&op_path_xnode_u, &ds_xnode);
-
-                let op_path_xnode_l = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr SlashSlash 2");
-                assign_as_left(&op_path_xnode_l, &step_expr_xnode);
-
-                assign_as_right(&op_path_xnode_u, &op_path_xnode_l);
-                assign_as_right(&curr_xnode, &op_path_xnode_u);
-                curr_xnode = op_path_xnode_l.clone();
+                curr_xnode = join_path(&curr_xnode, &ds_xnode, "parse_following_steps SlashSlash 1");
+                curr_xnode = join_path(&curr_xnode, &step_expr_xnode, "parse_following_steps SlashSlash 2");
             },
             _ => {
-                break;
+                return Ok(curr_xnode);
             },
         }
     }
+}
 
-    // -----------------------------------------------------------------
-    // 最後にtop_op_path_xnode (最上位のxnode) を返す。
-    // ただし、「(("/" | "//") StepExpr)*」部分が0個だった (rightがNil) 場合は
-    // 冗長なので、top_op_path_xnodeの左辺ノードを返す。
-    //
-    let right_of_top = get_right(&top_op_path_xnode);
-    if is_nil_xnode(&right_of_top) {
-        let left_of_top = get_left(&top_op_path_xnode);
-        return Ok(left_of_top);
-    } else {
-        return Ok(top_op_path_xnode);
-    }
+// ---------------------------------------------------------------------
+// 左右のxnodeをパス演算子でつなぐ。
+//
+fn join_path(left: &XNodePtr, right: &XNodePtr, name: &str) -> XNodePtr {
+    let op_path_xnode = new_xnode(XNodeType::OperatorPath, name);
+    assign_as_left(&op_path_xnode, left);
+    assign_as_right(&op_path_xnode, right);
+    return op_path_xnode;
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From 8499688d96b527807948c95276bd299db47a9c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 30/82] fix: position() and last() follow the items of the left
 operand in / and !

---
 src/xpath_impl/eval.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index fc6c81e..816834f 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -224,9 +224,14 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             let mut atom_exists = false;
             let mut result_seq = new_xsequence();
 
-            for item in lhs.iter() {
+            let last = lhs.len();
+            for (i, item) in lhs.iter().enumerate() {
                 let xseq = new_singleton(&item);
+                let old_position = eval_env.set_position(i + 1);
+                let old_last = eval_env.set_last(last);
                 let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
+                eval_env.set_last(old_last);
+                eval_env.set_position(old_position);
 
                 if val_seq.is_empty() {
                     continue;
@@ -288,11 +293,28 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             // (2) lhsの各ノードについて右辺値を評価し、順に合併していく。
             //     整列や重複排除はしない。
             //
+            // 検索子 (E?S) の場合、Sの文脈位置はEの外側のものと同じ。
+            //
+            let is_lookup = match get_xnode_type(&right_xnode) {
+                    XNodeType::UnaryLookupByExpr |
+                    XNodeType::UnaryLookupByWildcard => true,
+                    _ => false,
+                };
+            let last = lhs.len();
             let mut result_seq = new_xsequence();
-            for item in lhs.iter() {
+            for (i, item) in lhs.iter().enumerate() {
                 let xseq = new_singleton(&item);
-                let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
-                result_seq.append(&val_seq);
+                if is_lookup {
+                    let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
+                    result_seq.append(&val_seq);
+                } else {
+                    let old_position = eval_env.set_position(i + 1);
+                    let old_last = eval_env.set_last(last);
+                    let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
+                    eval_env.set_last(old_last);
+                    eval_env.set_position(old_position);
+                    result_seq.append(&val_seq);
+                }
             }
 
             return Ok(result_seq);
-- 
2.43.0


From 88f7293d68d89f3f9a8e67c5eae32ec64d289bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 31/82] fix: a map or array as a map key is a type error, so
 that lookup does not panic

---
 src/xpath_impl/eval.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 816834f..cd1e857 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2444,6 +2444,7 @@ fn convert_xnode_to_map_array(xnode: &XNodePtr,
 
                 let map_key_xnode = get_left(&map_entry_xnode);
                 let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.get_singleton_item()?;
+                key.get_as_raw_string()?;   // キーは原子値でなければならない。
 
                 let map_value_xnode = get_right(&map_entry_xnode);
                 let val = evaluate_xnode(context_xseq, &map_value_xnode, eval_env)?;
-- 
2.43.0


From 58684b36c5b9b0ad1aa925f9e7ee30dde60a6353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 32/82] fix: translate() maps a character by its first
 occurrence in the map string

---
 src/xpath_impl/func.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 46c8556..b62487e 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -879,6 +879,7 @@ fn fn_translate(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         for (i, c) in from_runes.iter().enumerate() {
             if ch == c {
                 index = i;
+                break;
             }
         }
         if index != usize::MAX {
-- 
2.43.0


From 7de4c2b6caa3c7de6dd58352ff79bed7719c11e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 33/82] fix: lang() uses the nearest xml:lang and compares
 case-insensitively

---
 src/xpath_impl/func.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index b62487e..c8b37c3 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1157,24 +1157,25 @@ fn fn_lang_1(args: &Vec<&XSequence>, context_xseq: &XSequence,
 }
 
 fn fn_lang(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    if args[0].is_empty() {
-        return Ok(new_singleton_string(&""));
-    }
-    let testlang = args[0].get_singleton_string()?;
+    let testlang = if ! args[0].is_empty() {
+            args[0].get_singleton_string()?.to_lowercase()
+        } else {
+            String::new()
+        };
     let node = args[1].get_singleton_node()?;
 
-    let mut xmllang = String::new();
-    for n in array_ancestor_or_self(&node).iter() {
-                                // array_ancestor_or_self() !!!!!!!!!!!!
+    // array_ancestor_or_self() は文書順なので、逆順に見て、
+    // 最も近い (内側の) xml:lang属性を調べる。
+    for n in array_ancestor_or_self(&node).iter().rev() {
         if let Some(val) = n.attribute_value("xml:lang") {
-            xmllang = val.to_lowercase();
-            break;
+            let xmllang = val.to_lowercase();
+            let result = xmllang == testlang ||
+                         xmllang.starts_with(&format!("{}-", testlang));
+            return Ok(new_singleton_boolean(result));
         }
     }
-    let v: Vec<&str> = xmllang.splitn(2, "-").collect();
-    let result = v[0] == testlang;
 
-    return Ok(new_singleton_boolean(result));
+    return Ok(new_singleton_boolean(false));
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From b34bbbc702386e72416ca467bdd256bfe1fccedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 34/82] fix: intersect and except return nodes in document
 order without duplicates

---
 src/xpath_impl/oper.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index f960b91..6e2a733 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -227,7 +227,7 @@ pub fn op_union(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence,
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-pub fn op_intersect(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+pub fn op_intersect(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
@@ -235,11 +235,11 @@ pub fn op_intersect(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSeque
             node_array.push(n.rc_clone());
         }
     }
-    // eval_env.sort_by_doc_order(&mut node_array);
+    eval_env.sort_by_doc_order(&mut node_array);
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-pub fn op_except(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+pub fn op_except(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
@@ -247,7 +247,7 @@ pub fn op_except(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence
             node_array.push(n.rc_clone());
         }
     }
-    // eval_env.sort_by_doc_order(&mut node_array);
+    eval_env.sort_by_doc_order(&mut node_array);
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-- 
2.43.0


From 78db616895ef62e9ec59067032d44bc488e96f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 35/82] fix: index-of() treats values that cannot be compared
 as distinct

---
 src/xpath_impl/func.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index c8b37c3..5a0e52c 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1355,9 +1355,13 @@ fn fn_index_of(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let seq_param = args[0];
     let srch_param = args[1];
     let mut result = new_xsequence();
+    srch_param.get_singleton_item()?;
     for (i, v) in seq_param.iter().enumerate() {
-        if value_compare_eq(&new_singleton(v), srch_param)?.get_singleton_boolean()? == true {
-            result.push(&new_xitem_integer(usize_to_i64(i + 1)));
+        // 比較できない型の値は、等しくないものとして扱う。
+        if let Ok(eq) = value_compare_eq(&new_singleton(v), srch_param) {
+            if eq.get_singleton_boolean()? == true {
+                result.push(&new_xitem_integer(usize_to_i64(i + 1)));
+            }
         }
     }
     return Ok(result);
-- 
2.43.0


From 1d5d955df2340be229075a7c0146ab6e270c0764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 36/82] fix: arithmetic with an empty operand gives an empty
 sequence

---
 src/xpath_impl/oper.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index 6e2a733..a158155 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -50,12 +50,18 @@ pub fn op_numeric_mod(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
 }
 
 pub fn op_numeric_unary_plus(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
+    if args[0].is_empty() {
+        return Ok(new_xsequence());
+    }
     let arg = args[0].get_singleton_item()?;
     let result = xitem_numeric_unary_plus(&arg)?;
     return Ok(new_singleton(&result));
 }
 
 pub fn op_numeric_unary_minus(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
+    if args[0].is_empty() {
+        return Ok(new_xsequence());
+    }
     let arg = args[0].get_singleton_item()?;
     let result = xitem_numeric_unary_minus(&arg)?;
     return Ok(new_singleton(&result));
@@ -66,6 +72,10 @@ pub fn op_numeric_unary_minus(args: &Vec<XSequence>) -> Result<XSequence, Box<Er
 fn op_numeric_operation<F>(args: &Vec<XSequence>, mut func_op: F) -> Result<XSequence, Box<Error>>
     where F: FnMut(&XItem, &XItem) -> Result<XItem, Box<Error>> {
 
+    // いずれかの演算数が空シーケンスならば、結果も空シーケンス。
+    if args[0].is_empty() || args[1].is_empty() {
+        return Ok(new_xsequence());
+    }
     let lhs = args[0].get_singleton_item()?;
     let rhs = args[1].get_singleton_item()?;
     let result = func_op(&lhs, &rhs)?;
-- 
2.43.0


From 4785eb9d6106b7cbf3835a7883cdc8f7d61fa4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 37/82] fix: is, <<, >> and to with an empty operand give an
 empty sequence

---
 src/xpath_impl/oper.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index a158155..9a0363b 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -200,6 +200,9 @@ pub fn op_node_after(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSeque
 
 fn op_node_compare(args: &Vec<XSequence>, eval_env: &EvalEnv,
                     ordering: Ordering) -> Result<XSequence, Box<Error>> {
+    if args[0].is_empty() || args[1].is_empty() {
+        return Ok(new_xsequence());
+    }
     let node1 = args[0].get_singleton_node()?;
     let node2 = args[1].get_singleton_node()?;
     let result = eval_env.compare_by_doc_order(&node1, &node2);
@@ -267,6 +270,9 @@ pub fn op_except(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence,
 //   (XPath 3.1 では演算子の項に載っていない)
 //
 pub fn op_to(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
+    if args[0].is_empty() || args[1].is_empty() {
+        return Ok(new_xsequence());
+    }
     let firstval = args[0].get_singleton_integer()?;
     let lastval = args[1].get_singleton_integer()?;
     let mut seq = new_xsequence();
-- 
2.43.0


From 3f44da468e3d483275607db0515ca9c659d29c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 38/82] fix: a non-node operand of union, intersect or except
 is a type error

---
 src/xpath_impl/oper.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index 9a0363b..6cb69a8 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -9,6 +9,7 @@ use std::cmp::Ordering;
 use std::error::Error;
 
 use dom::*;
+use xmlerror::*;
 use xpath_impl::eval::*;
 use xpath_impl::xitem::*;
 use xpath_impl::xsequence::*;
@@ -228,7 +229,17 @@ pub fn op_concatenate(args: &Vec<XSequence>) -> Result<XSequence, Box<Error>> {
 // Equals, Union, Intersection and Except
 //   (XPath 3.1 では演算子の項に載っていない)
 //
+fn check_nodes_only(args: &Vec<XSequence>) -> Result<(), Box<Error>> {
+    for arg in args.iter() {
+        if arg.to_nodeset().len() != arg.len() {
+            return Err(type_error!("union/intersect/except: ノード以外のアイテムがある。"));
+        }
+    }
+    return Ok(());
+}
+
 pub fn op_union(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+    check_nodes_only(args)?;
     let mut node_array: Vec<NodePtr> = vec!{};
     for n in args[0].to_nodeset().iter() {          // lhs
         node_array.push(n.rc_clone());
@@ -241,6 +252,7 @@ pub fn op_union(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence,
 }
 
 pub fn op_intersect(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+    check_nodes_only(args)?;
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
@@ -253,6 +265,7 @@ pub fn op_intersect(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequen
 }
 
 pub fn op_except(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+    check_nodes_only(args)?;
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
-- 
2.43.0


From 0aa4b42020ce8402116829a4ff8087a264241468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 39/82] fix: a reference to an unbound variable is an error

---
 src/xpath_impl/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index cd1e857..d38fb3d 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -777,7 +777,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             if let Some(xseq) = eval_env.get_var(var_name.as_str()) {
                 return Ok(xseq);
             } else {
-                return Ok(new_xsequence());
+                return Err(dynamic_error!("${}: undefined variable.", var_name));
             }
         },
 
-- 
2.43.0


From 3864570e1d26671a6a4a61906e04274ec94e67ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 40/82] fix: escape carriage returns when serializing, as the
 parser drops literal ones

---
 src/dom.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dom.rs b/src/dom.rs
index b1ea1de..ff3567d 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1036,6 +1036,7 @@ fn encode_entity(s: &String) -> String {
         [ "<", "&lt;" ],
         [ "\"", "&quot;" ],
         [ "'", "&apos;" ],
+        [ "\r", "&#xD;" ],
     ];
     let mut str = s.clone();
     for spec in specs.iter() {
-- 
2.43.0


From 0e228e23306d025ff7cbeeea1e4f0ab1c99f44b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 41/82] fix: a replaced or deleted attribute node has no parent

---
 src/dom.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index ff3567d..c334a2f 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -867,7 +867,8 @@ impl NodePtr {
 
         let r_index = self.find_attribute_index(name);
         if r_index != usize::MAX {
-            (*rc_node).attributes.borrow_mut().remove(r_index);
+            let old_node = (*rc_node).attributes.borrow_mut().remove(r_index);
+            wrap_rc_clone(&old_node).set_parent(Weak::new());
             (*rc_node).attributes.borrow_mut().insert(r_index, Rc::clone(&attr_node));
         } else {
             (*rc_node).attributes.borrow_mut().push(Rc::clone(&attr_node));
@@ -894,7 +895,8 @@ impl NodePtr {
         let r_index = self.find_attribute_index(name);
         if r_index != usize::MAX {
             let rc_node = self.unwrap_rc();
-            (*rc_node).attributes.borrow_mut().remove(r_index);
+            let old_node = (*rc_node).attributes.borrow_mut().remove(r_index);
+            wrap_rc_clone(&old_node).set_parent(Weak::new());
         }
         self.clear_document_order();
     }
-- 
2.43.0


From eb81a39934fbc10c021b73217a44182fdc6c0e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 42/82] fix: the following and preceding axes of an attribute
 node

---
 src/xpath_impl/eval.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index d38fb3d..f5ce8af 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -965,7 +965,13 @@ fn array_descendant_or_self(node: &NodePtr) -> Vec<NodePtr> {
 //
 fn array_following(node: &NodePtr) -> Vec<NodePtr> {
     let mut node_array: Vec<NodePtr> = vec!{};
-    if node.node_type() != NodeType::Attribute {
+    if node.node_type() == NodeType::Attribute {
+        // 属性ノードの後には、親要素の子孫も現れる。
+        if let Some(parent) = node.parent() {
+            node_array.append(&mut array_descendant(&parent));
+            node_array.append(&mut array_following(&parent));
+        }
+    } else {
         let all_nodes = array_descendant_or_self(&node.root());
         let descendant_or_self_nodes = array_descendant_or_self(&node);
         let mut self_occured = false;
@@ -1007,7 +1013,11 @@ fn array_following_sibling(node: &NodePtr) -> Vec<NodePtr> {
 //
 fn array_preceding(node: &NodePtr) -> Vec<NodePtr> {
     let mut node_array: Vec<NodePtr> = vec!{};
-    if node.node_type() != NodeType::Attribute {
+    if node.node_type() == NodeType::Attribute {
+        if let Some(parent) = node.parent() {
+            node_array.append(&mut array_preceding(&parent));
+        }
+    } else {
         let all_nodes = array_descendant_or_self(&node.root());
         let ancestor_nodes = array_ancestor(&node);
         let mut self_occured = false;
-- 
2.43.0


From 02649b1b578682662ea9dcc021f063e7784c00ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 43/82] fix: comments and processing instructions are not part
 of an element's string value

---
 src/xpath_impl/xitem.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 46319e0..578cd58 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -298,7 +298,10 @@ impl NodePtr {
             NodeType::DocumentRoot | NodeType::Element => {
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.string_value();
+                    match ch.node_type() {
+                        NodeType::Element | NodeType::Text => s += &ch.string_value(),
+                        _ => {},        // 註釈や処理命令は含めない。
+                    }
                 }
                 return s;
             },
@@ -344,7 +347,10 @@ impl NodePtr {
             NodeType::DocumentRoot => {             // xs:untypedAtomic
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.typed_value();
+                    match ch.node_type() {
+                        NodeType::Element | NodeType::Text => s += &ch.typed_value(),
+                        _ => {},        // 註釈や処理命令は含めない。
+                    }
                 }
                 return s;
             },
@@ -360,7 +366,10 @@ impl NodePtr {
             NodeType::Element => {                  // xs:untypedAtomic
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.typed_value();
+                    match ch.node_type() {
+                        NodeType::Element | NodeType::Text => s += &ch.typed_value(),
+                        _ => {},        // 註釈や処理命令は含めない。
+                    }
                 }
                 return s;
             },
-- 
2.43.0


From a007daa94c5042d70b5be9f8941b2125ebe54aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 44/82] fix: the string value of a processing instruction is
 its content

---
 src/xpath_impl/xitem.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 578cd58..64e6bf0 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -309,7 +309,7 @@ impl NodePtr {
                 return format!("{}", self.value());
             },
             NodeType::XMLDecl | NodeType::Instruction => {
-                return format!("{} {}", self.name(), self.value());
+                return format!("{}", self.value());
             },
             _ => return String::new(),
         }
@@ -358,7 +358,7 @@ impl NodePtr {
                 return format!("{}", self.value());
             },
             NodeType::Instruction => {              // xs:string
-                return format!("{} {}", self.name(), self.value());
+                return format!("{}", self.value());
             },
             NodeType::Attribute => {                // xs:untypedAtomic
                 return format!("{}", self.value());
-- 
2.43.0


From 1bee026d7e2f79d88d624bce245b0758e07186d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 45/82] fix: function values keep the variables that were in
 scope where they were created

---
 src/xpath_impl/eval.rs      | 50 ++++++++++++++++++++++++++++++-------
 src/xpath_impl/func.rs      |  8 +++---
 src/xpath_impl/xitem.rs     | 14 +++++++----
 src/xpath_impl/xsequence.rs | 12 +++++----
 4 files changed, 61 insertions(+), 23 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index f5ce8af..844b66c 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -131,6 +131,26 @@ impl EvalEnv {
         }
     }
 
+    // -----------------------------------------------------------------
+    // すべての変数 (内側のスコープのものから順)。
+    //
+    fn get_all_vars(&self) -> Vec<(String, XSequence)> {
+        return self.var_vec.iter().map(|entry| {
+            (entry.name.clone(), entry.value.clone())
+        }).collect();
+    }
+
+    // -----------------------------------------------------------------
+    // 変数をすべて入れ換え、元の変数を返す。
+    //
+    fn replace_all_vars(&mut self, vars: Vec<(String, XSequence)>) -> Vec<(String, XSequence)> {
+        let old_vars = self.get_all_vars();
+        self.var_vec = vars.into_iter().map(|(name, value)| {
+            VarNameValue{name, value}
+        }).collect();
+        return old_vars;
+    }
+
     // -----------------------------------------------------------------
     //
     fn get_var(&self, name: &str) -> Option<XSequence> {
@@ -711,7 +731,8 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
         XNodeType::PartialFunctionCall => {
             // インライン函数 | 名前付き函数参照:
             // この時点では評価せず、シングルトンとして包んで返す。
-            return Ok(new_singleton_xnodeptr(&xnode));
+            // 函数本体から参照できるように、現在の変数も一緒に保存する。
+            return Ok(new_singleton_xnodeptr(&xnode, eval_env.get_all_vars()));
         },
 
         XNodeType::Map |
@@ -1408,8 +1429,8 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     // -----------------------------------------------------------------
     // インライン函数、名前付き函数参照、部分函数
     //
-    if let Ok(func_xnode) = curr_xseq.get_singleton_xnodeptr() {
-        return call_function(&func_xnode, argument_xseq, xseq, eval_env);
+    if let Ok(func) = curr_xseq.get_singleton_xnodeptr() {
+        return call_function(&func, argument_xseq, xseq, eval_env);
     }
 
     // -----------------------------------------------------------------
@@ -1601,26 +1622,37 @@ fn call_partial_func(func_xnode: &XNodePtr,
 // 函数呼び出し。
 // インライン函数、名前付き函数参照、部分函数。
 //
-pub fn call_function(func_xnode: &XNodePtr,
+//
+// func: 函数の構文木と、函数を生成した時点の変数。
+//
+pub fn call_function(func: &(XNodePtr, Vec<(String, XSequence)>),
                 argument_xseq: Vec<XSequence>,
                 context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
-    match get_xnode_type(&func_xnode) {
+    let (func_xnode, vars) = func;
+
+    // 函数を生成した時点の変数のもとで評価し、元に戻す。
+    let saved_vars = eval_env.replace_all_vars(vars.clone());
+
+    let result = match get_xnode_type(&func_xnode) {
         XNodeType::InlineFunction => {
-            return call_inline_func(func_xnode, argument_xseq, context_xseq, eval_env);
+            call_inline_func(func_xnode, argument_xseq, context_xseq, eval_env)
         },
         XNodeType::NamedFunctionRef => {
-            return call_named_func(func_xnode, argument_xseq, context_xseq, eval_env);
+            call_named_func(func_xnode, argument_xseq, context_xseq, eval_env)
         },
         XNodeType::PartialFunctionCall => {
-            return call_partial_func(func_xnode, argument_xseq, context_xseq, eval_env);
+            call_partial_func(func_xnode, argument_xseq, context_xseq, eval_env)
         },
         _ => {
             return Err(cant_occur!("call_h_function: XNodeType = {:?}",
                     get_xnode_type(&func_xnode)));
         },
-    }
+    };
+
+    eval_env.replace_all_vars(saved_vars);
+    return result;
 }
 
 // ---------------------------------------------------------------------
diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 5a0e52c..fccface 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1550,12 +1550,12 @@ fn fn_last(_args: &Vec<&XSequence>, _xseq: &XSequence,
 fn fn_for_each(args: &Vec<&XSequence>, context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
-    let action_xnode = args[1].get_singleton_xnodeptr()?;
+    let func = args[1].get_singleton_xnodeptr()?;
     let mut result = new_xsequence();
     for xitem in args[0].iter() {
         let argument_xseq = new_singleton(xitem);
         let result_xseq = call_function(
-                &action_xnode, vec!{argument_xseq}, context_xseq, eval_env)?;
+                &func, vec!{argument_xseq}, context_xseq, eval_env)?;
         result.append(&result_xseq);
     }
     return Ok(result);
@@ -1569,12 +1569,12 @@ fn fn_for_each(args: &Vec<&XSequence>, context_xseq: &XSequence,
 fn fn_filter(args: &Vec<&XSequence>, context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
-    let func_xnode = args[1].get_singleton_xnodeptr()?;
+    let func = args[1].get_singleton_xnodeptr()?;
     let mut result = new_xsequence();
     for xitem in args[0].iter() {
         let argument_xseq = new_singleton(xitem);
         let result_xseq = call_function(
-                &func_xnode, vec!{argument_xseq}, context_xseq, eval_env)?;
+                &func, vec!{argument_xseq}, context_xseq, eval_env)?;
         if result_xseq.effective_boolean_value()? == true {
             result.push(&xitem);
         }
diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 64e6bf0..4c76ee8 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -60,6 +60,8 @@ pub enum XItem {
     XItemXNodePtr {
         value: XNodePtr,
             // (内部処理用) インライン函数をXItemとして扱う。
+        vars: Vec<(String, XSequence)>,
+            // 函数を生成した時点で有効な変数とその値。
     },
     XIMap {
         value: XSeqMap,
@@ -238,9 +240,11 @@ impl XSeqArray {
 
 // =====================================================================
 //
-pub fn new_xitem_xnodeptr(xnode: &XNodePtr) -> XItem {
+pub fn new_xitem_xnodeptr(xnode: &XNodePtr,
+                          vars: Vec<(String, XSequence)>) -> XItem {
     return XItem::XItemXNodePtr {
         value: xnode.clone(),
+        vars,
     }
 }
 
@@ -423,7 +427,7 @@ impl fmt::Display for XItem {
                     return write!(f, "false");
                 }
             },
-            XItem::XItemXNodePtr{value} => {
+            XItem::XItemXNodePtr{value, ..} => {
                 return write!(f, "{}", value);
             },
             XItem::XIMap{value} => {
@@ -444,7 +448,7 @@ impl XItem {
     //
     pub fn xs_type(&self) -> String {
         match self {
-            XItem::XItemXNodePtr{value: _} => return String::from("function(*)"),
+            XItem::XItemXNodePtr{..} => return String::from("function(*)"),
             XItem::XIMap{value: _} => return String::from("map(*)"),
             XItem::XIArray{value: _} => return String::from("array(*)"),
             XItem::XINode{value: _} => return String::from("node"),
@@ -492,7 +496,7 @@ impl XItem {
     //
     pub fn is_item(&self) -> bool {
         match self {
-            XItem::XItemXNodePtr{value: _} => return false,
+            XItem::XItemXNodePtr{..} => return false,
             _ => return true,
         }
     }
@@ -591,7 +595,7 @@ impl XItem {
     //
     pub fn get_as_raw_xnodeptr(&self) -> Result<XNodePtr, Box<Error>> {
         match self {
-            XItem::XItemXNodePtr{value} => {
+            XItem::XItemXNodePtr{value, ..} => {
                 return Ok(value.clone());
             },
             _ => {
diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index ba667fa..756f823 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -47,8 +47,9 @@ pub fn new_xsequence_from_node_array(node_array: &Vec<NodePtr>) -> XSequence {
     return xsequence;
 }
 
-pub fn new_singleton_xnodeptr(xnode: &XNodePtr) -> XSequence {
-    return new_singleton(&new_xitem_xnodeptr(xnode));
+pub fn new_singleton_xnodeptr(xnode: &XNodePtr,
+                              vars: Vec<(String, XSequence)>) -> XSequence {
+    return new_singleton(&new_xitem_xnodeptr(xnode, vars));
 }
 
 pub fn new_singleton_node(node: &NodePtr) -> XSequence {
@@ -113,12 +114,13 @@ impl XSequence {
     }
 
     // -----------------------------------------------------------------
-    // シングルトンかつXNodePtrであれば、そのノードを返す。
+    // シングルトンかつXNodePtrであれば、そのノードと変数表を返す。
     //
-    pub fn get_singleton_xnodeptr(&self) -> Result<XNodePtr, Box<Error>> {
+    pub fn get_singleton_xnodeptr(&self)
+                    -> Result<(XNodePtr, Vec<(String, XSequence)>), Box<Error>> {
         let item = self.get_singleton_item()?;
         match item {
-            XItem::XItemXNodePtr{value} => return Ok(value.clone()),
+            XItem::XItemXNodePtr{value, vars} => return Ok((value.clone(), vars.clone())),
             _ => {},
         }
 
-- 
2.43.0


From e7e00121b61ac474e9db9c865f1e0b846d4d6b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 46/82] fix: a function value is an item, so it can be passed
 to an inline function

---
 src/xpath_impl/xitem.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 4c76ee8..9fa0536 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -495,10 +495,7 @@ impl XItem {
     // An item is either an atomic value, a node, or a function.
     //
     pub fn is_item(&self) -> bool {
-        match self {
-            XItem::XItemXNodePtr{..} => return false,
-            _ => return true,
-        }
+        return true;        // 函数もアイテムである。
     }
 
     // -----------------------------------------------------------------
-- 
2.43.0


From 9d26e69bb8773682b0009e66e8c727719f0d98dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 47/82] fix: document order stays right when the root of an
 edited tree is dropped

---
 src/dom.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index c334a2f..446af2a 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -916,8 +916,12 @@ impl NodePtr {
     // -----------------------------------------------------------------
     //
     fn clear_document_order(&self) {
-        let root = self.root();
-        root.unwrap_rc().order.set(0);
+        // 根ノードへの参照がなくなり、途中のノードが根になることもある。
+        let mut curr = Some(self.rc_clone());
+        while let Some(node) = curr {
+            node.unwrap_rc().order.set(0);
+            curr = node.parent();
+        }
     }
 
     // =================================================================
-- 
2.43.0


From 010f012a607bb2ed6f92d3dd528fcf78ac724c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 48/82] fix: name test *:local matches the local name with any
 prefix

---
 src/xpath_impl/eval.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 844b66c..3f629c9 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1142,9 +1142,12 @@ fn match_name_test(node: &NodePtr, xnode: &XNodePtr) -> bool {
     }
 
     // -------------------------------------------------------------
-    // 「na:*」との照合にもとづく判定
+    // 「na:*」や「*:na」との照合にもとづく判定
     //
     let v: Vec<&str> = name_test_pattern.splitn(2, ":").collect();
+    if v.len() == 2 && v[0] == "*" {
+        return node.local_name() == v[1];
+    }
     if v.len() == 2 && v[1] == "*" {
         if node.space_name() == v[0] {
             return true;
-- 
2.43.0


From d2a77e35ffd38baa9e7e4aa318eaf99f999723ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 49/82] fix: fn:round is exact where adding 0.5 would lose
 precision

---
 src/xpath_impl/func.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index fccface..bf1eaea 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -474,7 +474,7 @@ fn fn_floor(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 fn fn_round(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
                 |a| { Some(a) },
-                |a| { (a + 0.5).floor() },
+                |a| { round_half_up(a) },
                         // a.round() ではない。
                         // round(-2.5) => -2 となるようにするため。
                 |a| { round_x(a) });
@@ -505,7 +505,19 @@ fn round_x(num: f64) -> f64 {
        (-0.5 <= num && num < 0.0) {
         return 1.0 / f64::NEG_INFINITY;                 // 負のゼロ
     } else {
-        return (num + 0.5).floor();
+        return round_half_up(num);
+    }
+}
+
+// (num + 0.5).floor() では、加算の丸め誤差により、0.49999999999999994 や
+// 絶対値の大きい奇数に対して誤った値になる。
+//
+fn round_half_up(num: f64) -> f64 {
+    let floor = num.floor();
+    if num - floor < 0.5 {
+        return floor;
+    } else {
+        return floor + 1.0;
     }
 }
 
-- 
2.43.0


From 1125f3e7e22df85386600282dfa1ba08e683b03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 50/82] fix: substring and subsequence accept any position and
 length

---
 src/xpath_impl/func.rs | 54 +++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index bf1eaea..ff863e1 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -782,9 +782,9 @@ fn fn_substring(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
     let starting_loc = args[1].get_singleton_item()?.get_as_raw_double()?;
     let length = if args.len() == 2 {
-            f64::INFINITY
+            None
         } else {
-            args[2].get_singleton_item()?.get_as_raw_double()?
+            Some(args[2].get_singleton_item()?.get_as_raw_double()?)
         };
     let (b, e) = subcollection_index_sub(sv.len(), starting_loc, length);
 
@@ -1338,9 +1338,9 @@ fn fn_subsequence(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 
     let starting_loc = args[1].get_singleton_item()?.get_as_raw_double()?;
     let length = if args.len() == 2 {
-            f64::INFINITY
+            None
         } else {
-            args[2].get_singleton_item()?.get_as_raw_double()?
+            Some(args[2].get_singleton_item()?.get_as_raw_double()?)
         };
     let (b, e) = subcollection_index_sub(
                     source_sequence.len(), starting_loc, length);
@@ -1708,6 +1708,7 @@ fn array_flatten(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // ある長さの順序つき集合 (C; 文字列、シーケンスなど) の部分集合を
 // 取得するために、開始位置 b と終了位置 e を求める。
 // s (starting_loc、1起点の値) と l (length) はf64型で、NaNやInfにもなりうる。
+// l (length) がNoneならば終端まで。
 // Cの要素 (番号 i := [b, e)、0起点の値) から成る部分集合を
 // 取得すればよいよう、bとe (usize型) を求めて返す。
 // 空集合を取得するべき場合は、b = 0、e = 0 を返す。
@@ -1716,43 +1717,22 @@ fn array_flatten(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //                  15.1.10 fn:subsequence
 //
 fn subcollection_index_sub(source_length: usize,
-                           starting_loc: f64, length: f64) -> (usize, usize) {
-
-    if starting_loc.is_nan() || starting_loc.is_infinite() {
+                           starting_loc: f64, length: Option<f64>) -> (usize, usize) {
+
+    // f64のまま計算する (Infや、i64の範囲を超える値でも正しく扱うため)。
+    let beg_pos = round_x(starting_loc);
+    let end_pos = match length {
+        Some(length) => beg_pos + round_x(length),
+        None => f64::INFINITY,
+    };
+    if beg_pos.is_nan() || end_pos.is_nan() {
         return (0, 0);
     }
-    let beg_pos = round_x(starting_loc) as i64;     // 有限値
-    let mut b = beg_pos.saturating_sub(1);                        // 0起点の値に補正
-    if b < 0 {
-        b = 0;
-    }
-    if source_length as i64 <= b {
-        b = source_length as i64;
-    }
-
-    let mut e: i64;
-    if length.is_infinite() && length.is_sign_positive() {
-        e = source_length as i64;
-    } else {
-        if length.is_nan() || length.is_sign_negative() {
-            return (0, 0);
-        }
-        let len_str = if length.is_infinite() {
-                source_length as i64
-            } else {
-                round_x(length) as i64                 // 非負の有限値
-            };
-        e = beg_pos.saturating_add(len_str).saturating_sub(1);
-        if e < b {
-            e = b;
-        }
-        if source_length as i64 <= e {
-            e = source_length as i64;
-        }
-    }
 
+    let last = source_length as f64;
+    let b = (beg_pos - 1.0).max(0.0).min(last);     // 0起点の値に補正
+    let e = (end_pos - 1.0).max(b).min(last);
     return (b as usize, e as usize);
-
 }
 
 // =====================================================================
-- 
2.43.0


From 42d8b36fc0515cd68fefc66af70aac5c5f21ffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 51/82] fix: abs, ceiling, floor, round and number reject
 arguments they cannot use

---
 src/xpath_impl/func.rs | 47 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index ff863e1..0f3ed49 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -528,25 +528,29 @@ fn fn_numeric_unary<FINT, FDEC, FDBL>(args: &Vec<&XSequence>,
         where FINT: FnMut(i64) -> Option<i64>,
               FDEC: FnMut(f64) -> f64,
               FDBL: FnMut(f64) -> f64 {
-    if let Ok(arg) = args[0].get_singleton_item() {
-        match arg {
-            XItem::XIInteger{value: arg} => {
-                match int_op(arg) {
-                    Some(n) => return Ok(new_singleton_integer(n)),
-                    None => return Err(dynamic_error!(
-                            "Numeric operation overflow/underflow.")),
-                }
-            },
-            XItem::XIDecimal{value: arg} => {
-                return Ok(new_singleton_decimal(dec_op(arg)));
-            },
-            XItem::XIDouble{value: arg} => {
-                return Ok(new_singleton_double(dbl_op(arg)));
-            },
-            _ => {},
-        }
+    if args[0].is_empty() {
+        return Ok(new_xsequence());
+    }
+    match args[0].get_singleton_item()? {
+        XItem::XIInteger{value: arg} => {
+            match int_op(arg) {
+                Some(n) => return Ok(new_singleton_integer(n)),
+                None => return Err(dynamic_error!(
+                        "Numeric operation overflow/underflow.")),
+            }
+        },
+        XItem::XIDecimal{value: arg} => {
+            return Ok(new_singleton_decimal(dec_op(arg)));
+        },
+        XItem::XIDouble{value: arg} => {
+            return Ok(new_singleton_double(dbl_op(arg)));
+        },
+        arg @ XItem::XINode{..} => {
+            // ノードは、型なしの原子値として、doubleに変換する。
+            return Ok(new_singleton_double(dbl_op(arg.get_as_raw_double()?)));
+        },
+        _ => return Err(type_error!("Argument is not a number.")),
     }
-    return Ok(new_xsequence());
 }
 
 // ---------------------------------------------------------------------
@@ -563,11 +567,8 @@ fn fn_number(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     if args[0].is_empty() {
         return Ok(new_singleton_double(f64::NAN));
     }
-    let mut result = 0.0;
-    if let Ok(arg) = args[0].get_singleton_item() {
-        result = arg.get_as_raw_double()?;
-    }
-    return Ok(new_singleton_double(result));
+    let arg = args[0].get_singleton_item()?;
+    return Ok(new_singleton_double(arg.get_as_raw_double()?));
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From b30b428fe2b8a25d72646534d441aa61b4c393bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 52/82] fix: decimal arithmetic that overflows is an error, not
 infinity

---
 src/xpath_impl/xitem.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 9fa0536..ed3e126 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -1001,7 +1001,7 @@ fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
                     }
                 },
                 XItem::XIDecimal{value: rhs} => {
-                    return Ok(new_xitem_decimal(dec_op(int_to_dec(*lhs), *rhs)));
+                    return new_finite_decimal(dec_op(int_to_dec(*lhs), *rhs));
                 },
                 XItem::XIDouble{value: rhs} => {
                     return Ok(new_xitem_double(dbl_op(int_to_dbl(*lhs), *rhs)));
@@ -1012,10 +1012,10 @@ fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
         XItem::XIDecimal{value: lhs} => {
             match rhs {
                 XItem::XIInteger{value: rhs} => {
-                    return Ok(new_xitem_decimal(dec_op(*lhs, int_to_dec(*rhs))));
+                    return new_finite_decimal(dec_op(*lhs, int_to_dec(*rhs)));
                 },
                 XItem::XIDecimal{value: rhs} => {
-                    return Ok(new_xitem_decimal(dec_op(*lhs, *rhs)));
+                    return new_finite_decimal(dec_op(*lhs, *rhs));
                 },
                 XItem::XIDouble{value: rhs} => {
                     return Ok(new_xitem_double(dec_op(dec_to_dbl(*lhs), *rhs)));
@@ -1042,6 +1042,14 @@ fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
     return Err(type_error!("xitem_numeric_operation: Not numeric"));
 }
 
+// NaNや無限大はdecimalとして表現できない。
+fn new_finite_decimal(d: f64) -> Result<XItem, Box<Error>> {
+    if d.is_nan() || d.is_infinite() {
+        return Err(dynamic_error!("Numeric operation overflow/underflow."));
+    }
+    return Ok(new_xitem_decimal(d));
+}
+
 // ---------------------------------------------------------------------
 //
 pub fn xitem_numeric_equal(lhs: &XItem, rhs: &XItem) -> Result<bool, Box<Error>> {
-- 
2.43.0


From 5f3a2ecb9da2e31fa7d8b743de57d3feeed5b6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 53/82] fix: xs:decimal has no negative zero

---
 src/xpath_impl/xitem.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index ed3e126..dd1232e 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -279,7 +279,8 @@ pub fn new_xitem_integer(value: i64) -> XItem {
 }
 
 pub fn new_xitem_decimal(value: f64) -> XItem {
-    return XItem::XIDecimal{value};
+    // xs:decimal には負のゼロがない。
+    return XItem::XIDecimal{value: if value == 0.0 { 0.0 } else { value }};
 }
 
 pub fn new_xitem_double(value: f64) -> XItem {
-- 
2.43.0


From b1d40f8e67e6ce549c8402051600be14977b8f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 54/82] fix: function type tests compare names of element,
 attribute and PI tests

---
 src/xpath_impl/eval.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 3f629c9..a98f732 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2209,7 +2209,7 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
                 }
             },
             XNodeType::PITest => {                          // 9. 10.
-                let pi_name = get_xnode_name(bi);
+                let pi_name = get_xnode_name(&get_left(bi));
                 if pi_name == "" {
                     if get_xnode_type(ai) == XNodeType::KindTest &&
                        get_xnode_type(&get_left(ai)) == XNodeType::PITest {
@@ -2223,6 +2223,24 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
                     }
                 }
             },
+            XNodeType::ElementTest |                        // 13. 14.
+            XNodeType::AttributeTest => {                   // 20. 21.
+                // 型名を省略した場合のみ (型名がある場合は同じ型名に限る)。
+                let a_test = get_left(ai);
+                let b_test = get_left(bi);
+                if get_xnode_type(ai) == XNodeType::KindTest &&
+                   get_xnode_type(&a_test) == get_xnode_type(&b_test) {
+                    let b_name = get_xnode_name(&b_test);
+                    let b_type = get_xnode_name(&get_left(&b_test));
+                    let match_name = b_name == "*" ||
+                                     b_name == get_xnode_name(&a_test);
+                    let match_type = b_type.starts_with("xs:anyType") ||
+                                     b_type == get_xnode_name(&get_left(&a_test));
+                    if match_name && match_type {
+                        return true;
+                    }
+                }
+            },
             _ => {},
         }
     }
-- 
2.43.0


From 589451a5afd9ad1e36296555230d7619b7203fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 55/82] fix: tell operator words from names by their position
 in the expression

---
 src/xpath_impl/lexer.rs  | 83 +++++++++++++++++++++++++++++-----------
 src/xpath_impl/parser.rs |  4 +-
 2 files changed, 64 insertions(+), 23 deletions(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 9be44a6..15ecfad 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -5,7 +5,6 @@
 // Copyright (C) 2018 KOYAMA Hiro <tac@amris.co.jp>
 //
 
-use std::collections::HashMap;
 use std::error::Error;
 
 use xmlerror::*;
@@ -143,6 +142,46 @@ impl Token {
     pub fn get_name(&self) -> &str {
         return self.name.as_str();
     }
+
+    // -----------------------------------------------------------------
+    // 演算子の来るべき位置にある場合の、トークンの種類を返す。
+    // rewrite_operator_type() では、"*" や "?" の次の名前を演算子とは
+    // 扱わないが (乗算演算子などの後の名前であり得るため)、
+    // 演算子の位置に名前が現れることはない。
+    //
+    pub fn get_operator_type(&self) -> TType {
+        if self.t_type == TType::Name {
+            if let Some(op_type) = operator_word_type(&self.name) {
+                return op_type;
+            }
+        }
+        return self.t_type.clone();
+    }
+}
+
+// ---------------------------------------------------------------------
+// 演算子として使う名前であれば、そのトークン種を返す。
+//
+fn operator_word_type(name: &str) -> Option<TType> {
+    return match name {
+        "and" => Some(TType::And),
+        "or" => Some(TType::Or),
+        "div" => Some(TType::Div),
+        "mod" => Some(TType::Mod),
+        "idiv" => Some(TType::IDiv),  // (註2)
+        "eq" => Some(TType::ValueEQ),  // (註2)
+        "ne" => Some(TType::ValueNE),  // (註2)
+        "lt" => Some(TType::ValueLT),  // (註2)
+        "le" => Some(TType::ValueLE),  // (註2)
+        "gt" => Some(TType::ValueGT),  // (註2)
+        "ge" => Some(TType::ValueGE),  // (註2)
+        "is" => Some(TType::IsSameNode),  // (註2)
+        "to" => Some(TType::To),  // (註2)
+        "union" => Some(TType::Union),  // (註2)
+        "intersect" => Some(TType::Intersect),  // (註2)
+        "except" => Some(TType::Except),  // (註2)
+        _ => None,
+    };
 }
 
 // =====================================================================
@@ -173,6 +212,18 @@ impl Lexer {
         return s;
     }
 
+    // -----------------------------------------------------------------
+    // 演算対象の来るべき位置にある、"and"、"div" などの字句を名前に戻す。
+    // 例: 「return div」、「then and」
+    //
+    pub fn operator_word_to_name(&mut self) {
+        let index = self.index;
+        if operator_word_type(&self.tokens[index].name) ==
+           Some(self.tokens[index].get_type()) {
+            self.tokens[index].t_type = TType::Name;
+        }
+    }
+
     // -----------------------------------------------------------------
     //
     pub fn next_token(&self) -> Token {
@@ -443,33 +494,21 @@ impl Lexer {
             TType::NodeAfter,       // (註2)
             TType::Asterisk,
             TType::Colon,           // (註1)
+            TType::AsteriskColon,   // (註2)
+            TType::Dollar,          // (註2)
+            TType::Question,        // (註2)
+            TType::OperatorConcat,  // (註2)
+            TType::OperatorMap,     // (註2)
+            TType::Bind,            // (註2)
+            TType::LeftCurly,       // (註2)
         ];
 
-        let operator_words: HashMap<&str, TType> = [
-            ( "and",       TType::And ),
-            ( "or",        TType::Or ),
-            ( "div",       TType::Div ),
-            ( "mod",       TType::Mod ),
-            ( "idiv",      TType::IDiv ),           // (註2)
-            ( "eq",        TType::ValueEQ ),        // (註2)
-            ( "ne",        TType::ValueNE ),        // (註2)
-            ( "lt",        TType::ValueLT ),        // (註2)
-            ( "le",        TType::ValueLE ),        // (註2)
-            ( "gt",        TType::ValueGT ),        // (註2)
-            ( "ge",        TType::ValueGE ),        // (註2)
-            ( "is",        TType::IsSameNode ),     // (註2)
-            ( "to",        TType::To ),             // (註2)
-            ( "union",     TType::Union ),          // (註2)
-            ( "intersect", TType::Intersect ),      // (註2)
-            ( "except",    TType::Except ),         // (註2)
-        ].iter().cloned().collect();
-
         let mut i = 1;
         while self.tokens[i].t_type != TType::EOF {
             if ! prev_t_types.contains(&self.tokens[i-1].t_type) &&
                self.tokens[i].t_type == TType::InnerName {
-                if let Some(op_type) = operator_words.get(self.tokens[i].name.as_str()) {
-                    self.tokens[i].t_type = op_type.clone();
+                if let Some(op_type) = operator_word_type(&self.tokens[i].name) {
+                    self.tokens[i].t_type = op_type;
                 }
             }
             i += 1;
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index bbe1e7f..8ee0115 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -397,6 +397,8 @@ fn parse_axis_step(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 // [ 47] NameTest ::= EQName | Wildcard
 //
 fn parse_node_test(lex: &mut Lexer, axis_type: &XNodeType) -> Result<XNodePtr, Box<Error>> {
+    lex.operator_word_to_name();
+
     let mut name = parse_wildcard(lex)?;
     if name == "" {
         name = parse_eqname(lex, "")?;
@@ -1758,7 +1760,7 @@ fn parse_bin_op_sub(lex: &mut Lexer,
     let mut xnode = sub_parser(lex)?;
     loop {
         let tok = lex.next_token();
-        let n_type = match token_node_map.get(&tok.get_type()) {
+        let n_type = match token_node_map.get(&tok.get_operator_type()) {
             Some(t) => t,
             None => break,
         };
-- 
2.43.0


From 03515dea9e9d3be7645a685b9c527b35ec056795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:20 +0000
Subject: [PATCH 56/82] fix: an axis step whose context item is not a node is a
 type error

---
 src/xpath_impl/eval.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index a98f732..189fd9d 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -824,6 +824,12 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
 //
 fn match_location_path(xseq: &XSequence, xnode: &XNodePtr,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
+    for item in xseq.iter() {
+        if item.as_nodeptr().is_none() {
+            return Err(type_error!("Axis step: context item is not a node."));
+        }
+    }
+
     let mut new_node_array: Vec<NodePtr> = vec!{};
     for node in xseq.to_nodeset().iter() {
         let mut matched_xseq = match_loc_step(node, xnode, eval_env)?;
-- 
2.43.0


From 317dd6981a4e7d61dc8a77d231ae400a38358dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 57/82] fix: only elements and attributes have a namespace URI

---
 src/dom.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 446af2a..9aeda2e 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -439,6 +439,12 @@ impl NodePtr {
     /// ```
     ///
     pub fn namespace_uri(&self) -> String {
+        // 要素と属性のほかは、名前空間に属さない。
+        if self.node_type() != NodeType::Element &&
+           self.node_type() != NodeType::Attribute {
+            return String::new();
+        }
+
         let mut xmlns_attr = String::from("xmlns");
         let space = self.space_name();
         if space.as_str() != "" {
-- 
2.43.0


From 70feabbb247115c770f9a21cf3ca3fb7caa0d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 58/82] fix: a path step that yields nodes mixed with other
 items is an error

---
 src/xpath_impl/eval.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 189fd9d..b991304 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -262,10 +262,12 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
                 //       評価値がすべてノードのみのシーケンスか否かを
                 //       調べておく。
                 //
-                if val_seq.is_no_atom() {
-                    node_exists = true;
-                } else {
-                    atom_exists = true;
+                for item in val_seq.iter() {
+                    if item.as_nodeptr().is_some() {
+                        node_exists = true;
+                    } else {
+                        atom_exists = true;
+                    }
                 }
                 result_seq.append(&val_seq);
 
-- 
2.43.0


From 576ae5bb7d2b84d7beddcb9da44d9e117ee58cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 59/82] fix: string-length() and normalize-space() without
 argument use the string value of the context item

---
 src/xpath_impl/func.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 0f3ed49..844b12b 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -803,7 +803,8 @@ fn fn_substring(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_string_length_0(_args: &Vec<&XSequence>, context_xseq: &XSequence,
                _eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
-    return fn_string_length(&vec!{context_xseq});
+    // 引数省略時の既定値は fn:string(.)
+    return fn_string_length(&vec!{&fn_string(&vec!{context_xseq})?});
 }
 
 fn fn_string_length(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
@@ -824,7 +825,8 @@ fn fn_string_length(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_normalize_space_0(_args: &Vec<&XSequence>, context_xseq: &XSequence,
                _eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
-    return fn_normalize_space(&vec!{context_xseq});
+    // 引数省略時の既定値は fn:string(.)
+    return fn_normalize_space(&vec!{&fn_string(&vec!{context_xseq})?});
 }
 
 fn fn_normalize_space(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-- 
2.43.0


From e3c47b6ceaca179abc369d57ec1e9eb6e4d94b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 60/82] fix: references and arrow calls to unknown functions
 are syntax errors

---
 src/xpath_impl/parser.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 8ee0115..114ed87 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -1677,6 +1677,19 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             let arg_top_xnode = new_xnode(XNodeType::ArgumentTop, "");
             assign_as_left(&arg_top_xnode, &curr_xnode);
             assign_as_right(&arg_top_xnode, &arglist_xnode);
+
+            let mut arity: usize = 0;
+            let mut arg = arg_top_xnode.clone();
+            while ! is_nil_xnode(&arg) {
+                arity += 1;
+                arg = get_right(&arg);
+            }
+            if ! func::check_function_spec(&func_name, arity) {
+                return Err(xpath_syntax_error!(
+                    "{}: 函数が未実装、または引数の数 ({}) が不適切。",
+                    func_name, arity));
+            }
+
             assign_as_right(&fcall_xnode, &arg_top_xnode);
             curr_xnode = fcall_xnode.clone();
             continue;
@@ -2180,6 +2193,16 @@ fn parse_named_function_ref(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let arity = tok.get_name();
     lex.get_token();
 
+    let known = match arity.parse::<usize>() {
+        Ok(n) => func::check_function_spec(&func_name, n),
+        Err(_) => false,
+    };
+    if ! known {
+        return Err(xpath_syntax_error!(
+            "{}#{}: 函数が未実装、または引数の数が不適切。",
+            func_name, arity));
+    }
+
     let xnode = new_xnode(XNodeType::NamedFunctionRef,
                     &(func_name + &"#" + &arity));
     return Ok(xnode);
-- 
2.43.0


From 50054036e195adb919cf2ed4f047f9169d91b13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 61/82] fix: a missing type in a function, map or array type or
 a declaration is a syntax error

---
 src/xpath_impl/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 114ed87..8a97e8e 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -1420,6 +1420,7 @@ pub fn parse_function_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let sequence_type_xnode = parse_sequence_type(lex)?;
+    error_if_nil!(lex, sequence_type_xnode, "{}: as の後に型が必要。");
     let return_type_xnode = new_xnode(XNodeType::ReturnType, "");
     assign_as_left(&return_type_xnode, &sequence_type_xnode);
     assign_as_right(&return_type_xnode, &sequence_type_list_xnode);
@@ -1439,6 +1440,7 @@ fn parse_sequence_type_list(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: コンマの後に型が必要。");
         let param_xnode = new_xnode(XNodeType::Param, "");
         assign_as_left(&param_xnode, &sequence_type_xnode);
         assign_as_right(&curr, &param_xnode);
@@ -1493,6 +1495,7 @@ fn parse_map_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         lex.get_token();
 
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: 値の型の指定がない。");
         assign_as_right(&xnode, &sequence_type_xnode);
 
     }
@@ -1531,6 +1534,7 @@ fn parse_array_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         assign_as_left(&sequence_type_xnode, &item_test_xnode);
     } else {
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: 要素の型の指定がない。");
         assign_as_left(&xnode, &sequence_type_xnode);
     }
 
@@ -1548,6 +1552,7 @@ fn parse_parenthesized_item_type(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>
     lex.get_token();
 
     let xnode = parse_item_type(lex)?;
+    error_if_nil!(lex, xnode, "{}: 括弧の中に型の指定がない。");
 
     error_if_not_ttype!(lex, TType::RightParen, "{}: 閉じ括弧が必要。");
     lex.get_token();
@@ -2240,6 +2245,7 @@ fn parse_inline_function_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     if tok.get_type() == TType::Name && tok.get_name() == "as" {
         lex.get_token();
         let xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, xnode, "{}: as の後に型が必要。");
         assign_as_left(&return_type_xnode, &xnode);
     } else {        // 型の省略時は「item()*」
         assign_as_left(&return_type_xnode, &default_sequence_type());
@@ -2292,6 +2298,7 @@ fn parse_param(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     if tok.get_type() == TType::Name && tok.get_name() == "as" {
         lex.get_token();
         let seq_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, seq_type_xnode, "{}: as の後に型が必要。");
         let param_xnode = new_xnode(XNodeType::Param, &param_name);
         assign_as_left(&param_xnode, &seq_type_xnode);
         return Ok(param_xnode);
-- 
2.43.0


From 6783072283e8875da77c6d7cf92f0f3a14e3311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 62/82] fix: white space around the colon separates a map key
 from its value

---
 src/xpath_impl/lexer.rs  | 24 +++++++++++++++++++++++-
 src/xpath_impl/parser.rs |  2 +-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 15ecfad..72d2eef 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -126,12 +126,14 @@ pub enum TType {
 pub struct Token {
     t_type: TType,
     name: String,
+    after_space: bool,              // 直前に空白または註釈がある。
 }
 
 fn new_token(t_type: TType, name: &str) -> Token {
     return Token {
         t_type: t_type,
         name: String::from(name),
+        after_space: false,
     };
 }
 
@@ -230,6 +232,21 @@ impl Lexer {
         return self.tokens[self.index].clone();
     }
 
+    // -----------------------------------------------------------------
+    // 次のトークンが、QNameの中のコロンであるか (前後に空白を置かず、
+    // 後に名前が続く場合に限る)。
+    //
+    pub fn is_colon_in_qname(&self) -> bool {
+        if self.tokens[self.index].t_type != TType::Colon {
+            return false;
+        }
+        let after = &self.tokens[self.index + 1];
+        return ! self.tokens[self.index].after_space && ! after.after_space &&
+               after.t_type != TType::StringLiteral &&
+               after.t_type != TType::BracedURILiteral &&
+               after.name.chars().next().map_or(false, is_name_start_char);
+    }
+
     // -----------------------------------------------------------------
     //
     pub fn get_token(&mut self) -> Token {
@@ -283,6 +300,7 @@ impl Lexer {
         self.tokens.push(Token{
             t_type: ttype,
             name: String::from(name),
+            after_space: false,
         });
     }
 
@@ -303,15 +321,19 @@ impl Lexer {
         // 先頭と末尾に番兵としてEOFを入れておく。
         //
         lexer.push_token(TType::EOF, "");
+        let mut prev_end = 0;
         loop {
             lexer.skip_spaces();
-            let tok = lexer.get_tok()?;
+            let begin = lexer.ch_index;
+            let mut tok = lexer.get_tok()?;
             if tok.t_type == TType::EOF {
                 break;
             }
             if tok.t_type == TType::Nop {
                 continue;
             }
+            tok.after_space = prev_end < begin;
+            prev_end = lexer.ch_index;
             lexer.tokens.push(tok);
         }
         lexer.push_token(TType::EOF, "");
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 8a97e8e..db7efb0 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -2773,7 +2773,7 @@ fn parse_qname(lex: &mut Lexer, default_prefix: &str) -> Result<String, Box<Erro
     lex.get_token();
 
     let tok = lex.next_token();
-    if tok.get_type() != TType::Colon {
+    if ! lex.is_colon_in_qname() {
         if default_prefix != "" {
             return Ok(String::from(default_prefix) + &":" + &qname);
         } else {
-- 
2.43.0


From 4527909e334dd7b2f541505e4b6720d7eb7bf383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 63/82] fix: map keys are compared by kind and value, atomized,
 and must not be duplicated

---
 src/xpath_impl/eval.rs  |  7 ++++++-
 src/xpath_impl/xitem.rs | 38 +++++++++++++++++++++++---------------
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index b991304..ed505d6 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2514,8 +2514,13 @@ fn convert_xnode_to_map_array(xnode: &XNodePtr,
                 }
 
                 let map_key_xnode = get_left(&map_entry_xnode);
-                let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.get_singleton_item()?;
+                let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.get_singleton_item()?.atomize();
                 key.get_as_raw_string()?;   // キーは原子値でなければならない。
+                if vec_item.iter().any(|(k, _)| k.op_same_key(&key)) {
+                    return Err(dynamic_error!(
+                            "Map constructor: key {} is duplicated.",
+                            key.to_string()));
+                }
 
                 let map_value_xnode = get_right(&map_entry_xnode);
                 let val = evaluate_xnode(context_xseq, &map_value_xnode, eval_env)?;
diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index dd1232e..2854f35 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -511,9 +511,6 @@ impl XItem {
     }
 
     // -----------------------------------------------------------------
-    // 若干厳密さに欠ける (例えば、"3" と3が同じになってしまう) が、
-    // 当面、raw_stringとして比較する。
-    //
     // (1) string (、anyURI、untypedAtomic) どうしの場合:
     //     fn:codepoint-equal($k1, $k2) で比較する。
     // (2) decimal、double (、float) どうしの場合:
@@ -526,19 +523,30 @@ impl XItem {
     //     fn:deep-equal($k1, $k2) で比較する。
     //
     pub fn op_same_key(&self, other: &XItem) -> bool {
-        let k1 = self.get_as_raw_string();
-        if let Err(_) = k1 {
-            return false;
-        }
-        let k1 = k1.unwrap();
-
-        let k2 = other.get_as_raw_string();
-        if let Err(_) = k2 {
-            return false;
+        match (self.atomize(), other.atomize()) {
+            (XItem::XIString{value: k1}, XItem::XIString{value: k2}) => {
+                return k1 == k2;
+            },
+            (XItem::XIBoolean{value: k1}, XItem::XIBoolean{value: k2}) => {
+                return k1 == k2;
+            },
+            (XItem::XIInteger{value: k1}, XItem::XIInteger{value: k2}) => {
+                return k1 == k2;
+            },
+            (XItem::XIInteger{value: k1}, XItem::XIDecimal{value: k2}) |
+            (XItem::XIInteger{value: k1}, XItem::XIDouble{value: k2}) |
+            (XItem::XIDecimal{value: k2}, XItem::XIInteger{value: k1}) |
+            (XItem::XIDouble{value: k2}, XItem::XIInteger{value: k1}) => {
+                return k1 as f64 == k2 && k1 as i128 == k2 as i128;
+            },
+            (XItem::XIDecimal{value: k1}, XItem::XIDecimal{value: k2}) |
+            (XItem::XIDecimal{value: k1}, XItem::XIDouble{value: k2}) |
+            (XItem::XIDouble{value: k1}, XItem::XIDecimal{value: k2}) |
+            (XItem::XIDouble{value: k1}, XItem::XIDouble{value: k2}) => {
+                return k1 == k2 || k1.is_nan() && k2.is_nan();
+            },
+            _ => return false,
         }
-        let k2 = k2.unwrap();
-
-        return k1 == k2;
     }
 
     // -----------------------------------------------------------------
-- 
2.43.0


From 4c07eb2076e14df903fd9f96633aaee0b3e34998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 64/82] fix: calling a map with an absent key gives the empty
 sequence, as map:get does

---
 src/xpath_impl/eval.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index ed505d6..bc05a53 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1455,8 +1455,7 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
         if let Some(v) = map_item.map_get(&key) {
             return Ok(v);
         } else {
-            return Err(dynamic_error!(
-                    "map_lookup: key = {}: 値が見つからない。", key));
+            return Ok(new_xsequence());     // map:get() と同様。
         }
     }
 
-- 
2.43.0


From 1c011924f5fd6bd31e1dde81ec0d0decc95c108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 65/82] fix: the key expression of a postfix lookup is
 evaluated in the outer context

---
 src/xpath_impl/eval.rs   | 130 ++++++++++++++++++++-------------------
 src/xpath_impl/parser.rs |   6 +-
 2 files changed, 71 insertions(+), 65 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index bc05a53..77afbe0 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -315,28 +315,16 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             // (2) lhsの各ノードについて右辺値を評価し、順に合併していく。
             //     整列や重複排除はしない。
             //
-            // 検索子 (E?S) の場合、Sの文脈位置はEの外側のものと同じ。
-            //
-            let is_lookup = match get_xnode_type(&right_xnode) {
-                    XNodeType::UnaryLookupByExpr |
-                    XNodeType::UnaryLookupByWildcard => true,
-                    _ => false,
-                };
             let last = lhs.len();
             let mut result_seq = new_xsequence();
             for (i, item) in lhs.iter().enumerate() {
                 let xseq = new_singleton(&item);
-                if is_lookup {
-                    let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
-                    result_seq.append(&val_seq);
-                } else {
-                    let old_position = eval_env.set_position(i + 1);
-                    let old_last = eval_env.set_last(last);
-                    let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
-                    eval_env.set_last(old_last);
-                    eval_env.set_position(old_position);
-                    result_seq.append(&val_seq);
-                }
+                let old_position = eval_env.set_position(i + 1);
+                let old_last = eval_env.set_last(last);
+                let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
+                eval_env.set_last(old_last);
+                eval_env.set_position(old_position);
+                result_seq.append(&val_seq);
             }
 
             return Ok(result_seq);
@@ -745,54 +733,22 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             return Ok(new_singleton(&xitem));
         },
 
-        XNodeType::UnaryLookupByWildcard => {
-            if let Ok(xitem_map) = xseq.get_singleton_map() {
-                let mut result = new_xsequence();
-                for key in xitem_map.map_keys().iter() {
-                    result.append(&xitem_map.map_get(key).unwrap());
-                }
-                return Ok(result);
-
-            } else if let Ok(xitem_array) = xseq.get_singleton_array() {
-                let size = xitem_array.array_size();
-                let mut result = new_xsequence();
-                for i in 1 ..= size {
-                    let index = new_xitem_integer(i as i64);
-                    result.append(&xitem_array.array_get(&index).unwrap());
-                }
-                return Ok(result);
-
-            } else {
-                return Err(type_error!("lookup: マップ/配列でない。"));
-            }
-        },
-
+        XNodeType::UnaryLookupByWildcard |
         XNodeType::UnaryLookupByExpr => {
-            let expr = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
-
-            if let Ok(xitem_map) = xseq.get_singleton_map() {
-                let mut result = new_xsequence();
-                for key in expr.iter() {
-                    if let Some(v) = xitem_map.map_get(key) {
-                        result.append(&v);
-                    } else {
-                    }
-                }
-                return Ok(result);
-
-            } else if let Ok(xitem_array) = xseq.get_singleton_array() {
-                let mut result = new_xsequence();
-                for index in expr.iter() {
-                    if let Some(v) = xitem_array.array_get(index) {
-                        result.append(&v);
-                    } else {
-                    }
-                }
-                return Ok(result);
+            return lookup(xseq, xnode, xseq, eval_env);
+        },
 
-            } else {
-                return Err(type_error!("lookup: マップ/配列でない。"));
+        XNodeType::ApplyLookup => {
+            // 左辺値の各アイテム (マップ/配列) を検索する。
+            // 検索子の中の式は、左辺値の外側の文脈で評価する。
+            //
+            let lhs = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
+            let mut result = new_xsequence();
+            for item in lhs.iter() {
+                result.append(&lookup(&new_singleton(&item),
+                                    &get_right(xnode), xseq, eval_env)?);
             }
+            return Ok(result);
         },
 
         XNodeType::VarRef => {
@@ -820,6 +776,54 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
     }
 }
 
+// ---------------------------------------------------------------------
+// マップ/配列 target を、検索子 xnode により検索する。
+// 検索子の中の式は、文脈 xseq で評価する。
+//
+fn lookup(target: &XSequence, xnode: &XNodePtr, xseq: &XSequence,
+                eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
+    if get_xnode_type(xnode) == XNodeType::UnaryLookupByWildcard {
+        if let Ok(xitem_map) = target.get_singleton_map() {
+            let mut result = new_xsequence();
+            for key in xitem_map.map_keys().iter() {
+                result.append(&xitem_map.map_get(key).unwrap());
+            }
+            return Ok(result);
+
+        } else if let Ok(xitem_array) = target.get_singleton_array() {
+            let size = xitem_array.array_size();
+            let mut result = new_xsequence();
+            for i in 1 ..= size {
+                let index = new_xitem_integer(i as i64);
+                result.append(&xitem_array.array_get(&index).unwrap());
+            }
+            return Ok(result);
+
+        } else {
+            return Err(type_error!("lookup: マップ/配列でない。"));
+        }
+    }
+
+    let expr = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
+    let mut result = new_xsequence();
+    if let Ok(xitem_map) = target.get_singleton_map() {
+        for key in expr.iter() {
+            if let Some(v) = xitem_map.map_get(key) {
+                result.append(&v);
+            }
+        }
+    } else if let Ok(xitem_array) = target.get_singleton_array() {
+        for index in expr.iter() {
+            if let Some(v) = xitem_array.array_get(index) {
+                result.append(&v);
+            }
+        }
+    } else {
+        return Err(type_error!("lookup: マップ/配列でない。"));
+    }
+    return Ok(result);
+}
+
 // ---------------------------------------------------------------------
 // XSequence中の各ノードに対し、xnodeで示されるLocStepを適用して
 // 合致するノード集合を取得し、その合併をXSequenceとして返す。
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index db7efb0..97339ab 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -90,6 +90,7 @@ pub enum XNodeType {
     VarRef,
     ApplyPredicate,
     ApplyArgument,
+    ApplyLookup,
     KindTest,
     DocumentTest,
     ElementTest,
@@ -1929,7 +1930,7 @@ fn parse_step_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 // [ 49a] PostfixExpr ::= PrimaryExpr Postfix*
 // [ 49b] Postfix ::= Predicate | ArgumentList | Lookup
 //
-//     [OperatorMap] -- (lookup)
+//     [ApplyLookup] -- (lookup)
 //           |
 //   [ApplyArgument] -- (argument_list)
 //           |
@@ -1944,6 +1945,7 @@ fn parse_step_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 // (Postfix Lookup)
 // KeySpacifierがNCName、IntegerLiteral、Wildcard ("*") の場合、
 // E?S は、単項検索子を使った式 E ! ?S と同等。
+// ParenthesizedExprの場合、SはEの外側の文脈で評価する。
 //
 fn parse_postfix_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let primary_xnode = parse_primary_expr(lex)?;
@@ -1964,7 +1966,7 @@ fn parse_postfix_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
                     new_xnode(XNodeType::ApplyArgument, "")
                 },
                 _ => {
-                    new_xnode(XNodeType::OperatorMap, "")
+                    new_xnode(XNodeType::ApplyLookup, "")
                 },
             };
         assign_as_left(&apply_postfix_xnode, &curr_xnode);
-- 
2.43.0


From 3b4855eb43ffacdb8840b955235963b0909e7c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 66/82] fix: an empty CDATA section makes no text node

---
 src/dom.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 9aeda2e..5d4ab6a 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -208,6 +208,8 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
                     None => Rc::clone(&curr_node),
                 };
             },
+            Ok(XmlToken::CharData{ref chardata}) if chardata == "" => {},
+                                    // 空のCDATA区間はノードにならない。
             Ok(XmlToken::CharData{chardata}) => {
                 make_new_child_rc_node(NodeType::Text,
                             &mut curr_node,
-- 
2.43.0


From 31874658b6bd93096ec066613cf23731876b41d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 67/82] fix: signatures of normalize-space, one-or-more,
 exactly-one, string-to-codepoints and sum

---
 src/xpath_impl/func.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 844b12b..20d45e7 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -43,7 +43,7 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:number#0", "function() as xs:double" ),
     ( "fn:number#1", "function(xs:anyAtomicType?) as xs:double" ),
     ( "fn:codepoints-to-string#1", "function(xs:integer*) as xs:string" ),
-    ( "fn:string-to-codepoints#1", "function(xs:string*) as xs:integer*" ),
+    ( "fn:string-to-codepoints#1", "function(xs:string?) as xs:integer*" ),
     ( "fn:compare#2", "function(xs:string?, xs:string?) as xs:integer?" ),
     ( "fn:compare#3", "function(xs:string?, xs:string?, xs:string) as xs:integer?" ),
     ( "fn:codepoint-equal#2", "function(xs:string?, xs:string?) as xs:boolean?" ),
@@ -55,8 +55,8 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:substring#3", "function(xs:string?, xs:double, xs:double) as xs:string" ),
     ( "fn:string-length#0", "function() as xs:integer" ),
     ( "fn:string-length#1", "function(xs:string?) as xs:integer" ),
-    ( "fn:normalize-space#0", "function() as xs:integer" ),
-    ( "fn:normalize-space#1", "function(xs:string?) as xs:integer" ),
+    ( "fn:normalize-space#0", "function() as xs:string" ),
+    ( "fn:normalize-space#1", "function(xs:string?) as xs:string" ),
     ( "fn:upper-case#1", "function(xs:string?) as xs:string" ),
     ( "fn:lower-case#1", "function(xs:string?) as xs:string" ),
     ( "fn:translate#3", "function(xs:string?, xs:string, xs:string) as xs:string" ),
@@ -96,15 +96,15 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:index-of#2", "function(xs:anyAtomicType*, xs:anyAtomicType) as xs:integer*" ),
     ( "fn:index-of#3", "function(xs:anyAtomicType*, xs:anyAtomicType, xs:string) as xs:integer*" ),
     ( "fn:zero-or-one#1", "function(item()*) as item()?" ),
-    ( "fn:one-or-more#1", "function(item()*) as item()?" ),
-    ( "fn:exactly-one#1", "function(item()*) as item()?" ),
+    ( "fn:one-or-more#1", "function(item()*) as item()+" ),
+    ( "fn:exactly-one#1", "function(item()*) as item()" ),
     ( "fn:count#1", "function(item()*) as xs:integer" ),
     ( "fn:avg#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
     ( "fn:max#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
     ( "fn:max#2", "function(xs:anyAtomicType*, xs:string) as xs:anyAtomicType?" ),
     ( "fn:min#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
     ( "fn:min#2", "function(xs:anyAtomicType*, xs:string) as xs:anyAtomicType?"  ),
-    ( "fn:sum#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
+    ( "fn:sum#1", "function(xs:anyAtomicType*) as xs:anyAtomicType" ),
     ( "fn:sum#2", "function(xs:anyAtomicType*, xs:anyAtomicType?) as xs:anyAtomicType?" ),
     ( "fn:position#0", "function() as xs:integer" ),
     ( "fn:last#0", "function() as xs:integer" ),
-- 
2.43.0


From 75bd1b17f9a7d8118d949d7f9d0c770685f9e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 68/82] fix: concat with any number of arguments has a function
 signature

---
 src/xpath_impl/func.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 20d45e7..84cbfcf 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -127,6 +127,14 @@ pub fn get_function_signature(func_name: &str) -> String {
             return String::from(*t_signature);
         }
     }
+
+    // concatの引数は何個でもよい。
+    if func_name.starts_with("fn:concat#") {
+        if let Ok(n) = func_name["fn:concat#".len() ..].parse::<usize>() {
+            return format!("function({}) as xs:string",
+                    vec!["xs:anyAtomicType?"; n].join(", "));
+        }
+    }
     return String::new();
 }
 
-- 
2.43.0


From abf3a39d79792db3ca3c3090b80fc38055ee7393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 69/82] fix: a partially applied function has the signature of
 its open parameters

---
 src/xpath_impl/eval.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 77afbe0..c3762e6 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1853,6 +1853,7 @@ fn match_sequence_typed_function_test(xseq: &XSequence, type_xnode: &XNodePtr) -
         if let Ok(xnode) = xitem.get_as_raw_xnodeptr() {
 
             let sig_xnode: XNodePtr;
+            let mut fixed_params: Vec<bool> = vec!{};   // 部分函数で値を固定した引数
 
             match get_xnode_type(&xnode) {
 
@@ -1878,17 +1879,39 @@ fn match_sequence_typed_function_test(xseq: &XSequence, type_xnode: &XNodePtr) -
                     sig_xnode = xnode.clone();
                 },
 
+                // -----------------------------------------------------
+                // (部分函数)
+                // 元の函数のシグニチャーから、値を固定した引数を除く。
+                //
                 XNodeType::PartialFunctionCall => {
-                    sig_xnode = xnode.clone();
+                    let mut arg = get_right(&xnode);
+                    while ! is_nil_xnode(&arg) {
+                        fixed_params.push(get_xnode_type(&arg) != XNodeType::ArgumentPlaceholder);
+                        arg = get_right(&arg);
+                    }
+                    let func_name = format!("{}#{}", get_xnode_name(&xnode), fixed_params.len());
+                    let signature = get_function_signature(func_name.as_str());
+                    if signature == "" {
+                        return Ok(false);
+                    }
+                    let mut lex = Lexer::new(&signature)?;
+                    sig_xnode = parse_function_test(&mut lex)?;
                 },
                 _ => {
                     return Ok(false);
                 },
             }
 
+            let mut n = 0;
             let mut i = 0;
             let mut curr = get_right(&sig_xnode);
             while ! is_nil_xnode(&curr) {
+                if 0 < n && n <= fixed_params.len() && fixed_params[n - 1] {
+                    curr = get_right(&curr);
+                    n += 1;
+                    continue;
+                }
+                n += 1;
                 if signature_xnode.len() <= i {     // 引数が多い。
                     return Ok(false);
                 }
-- 
2.43.0


From 5ba45a2d16eb8c13791011664ddd1bf637a721fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 70/82] fix: casts of strings accept exactly the lexical forms
 of the target type

---
 src/xpath_impl/func.rs  |  2 +-
 src/xpath_impl/xitem.rs | 63 ++++++++++++++++++++++++++++++++++-------
 2 files changed, 54 insertions(+), 11 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 84cbfcf..ab52e59 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1524,7 +1524,7 @@ fn fn_sum(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         if n.is_numeric() {
             val = xitem_numeric_add(&val, &n)?;
         } else {
-            let n_double = n.cast_as("double")?;
+            let n_double = new_xitem_double(n.get_as_raw_double()?);
             val = xitem_numeric_add(&val, &n_double)?;
         }
                         // 必要に応じて型の昇格をしながら加算していく。
diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 2854f35..59e172d 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -21,7 +21,44 @@ use xpath_impl::xsequence::*;
 // ---------------------------------------------------------------------
 //
 fn atof(s: &str) -> f64 {
-    return f64::from_str(s.trim()).unwrap_or(f64::NAN);
+    return f64::from_str(s).unwrap_or(f64::NAN);
+}
+
+// ---------------------------------------------------------------------
+// 文字列の前後にある、XMLとしての空白を除く。
+// str::trim() と異なり、U+00A0などは除かない。
+//
+fn trim_xml_space(s: &str) -> &str {
+    return s.trim_matches(|ch| ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r');
+}
+
+// ---------------------------------------------------------------------
+// 文字列がxs:doubleの字句であれば、その値を返す。
+// 当実装での文字列表現である "+Infinity" / "-Infinity" も受け入れる。
+//
+fn lexical_double(s: &str) -> Option<f64> {
+    let s = trim_xml_space(s);
+    match s {
+        "INF" | "+INF" | "+Infinity" => return Some(f64::INFINITY),
+        "-INF" | "-Infinity" => return Some(f64::NEG_INFINITY),
+        "NaN" => return Some(f64::NAN),
+        _ => {},
+    }
+    // "inf"、"nan" などを除く。
+    if s.chars().any(|ch| ch.is_ascii_alphabetic() && ch != 'e' && ch != 'E') {
+        return None;
+    }
+    return f64::from_str(s).ok();
+}
+
+// ---------------------------------------------------------------------
+// 文字列がxs:decimalの字句であれば、その値を返す。
+//
+fn lexical_decimal(s: &str) -> Option<f64> {
+    if s.contains(|ch: char| ch.is_ascii_alphabetic()) {
+        return None;
+    }
+    return lexical_double(s);
 }
 
 fn f64_to_i64(f: f64) -> i64 {
@@ -572,7 +609,11 @@ impl XItem {
                 }
             },
             "double" | "xs:double" => {
-                if let Ok(d) = self.get_as_raw_double() {
+                let d = match self.atomize() {
+                    XItem::XIString{value} => lexical_double(value.as_str()),
+                    item => item.get_as_raw_double().ok(),
+                };
+                if let Some(d) = d {
                     return Ok(new_xitem_double(d));
                 }
             },
@@ -683,10 +724,10 @@ impl XItem {
     pub fn get_as_raw_double(&self) -> Result<f64, Box<Error>> {
         match self {
             XItem::XINode{value} => {
-                return Ok(atof(&value.string_value()));
+                return Ok(lexical_double(&value.string_value()).unwrap_or(f64::NAN));
             },
             XItem::XIString{ref value} => {
-                return Ok(atof(value.as_str()));
+                return Ok(lexical_double(value.as_str()).unwrap_or(f64::NAN));
             },
             XItem::XIInteger{ref value} => {
                 return Ok(i64_to_f64(*value));
@@ -710,8 +751,10 @@ impl XItem {
     //
     pub fn get_as_raw_decimal(&self) -> Result<f64, Box<Error>> {
         let d = match self {
-            XItem::XINode{value} => atof(&value.string_value()),
-            XItem::XIString{ref value} => atof(value.as_str()),
+            XItem::XINode{value} =>
+                lexical_decimal(&value.string_value()).unwrap_or(f64::NAN),
+            XItem::XIString{ref value} =>
+                lexical_decimal(value.as_str()).unwrap_or(f64::NAN),
             XItem::XIInteger{ref value} => i64_to_f64(*value),
             XItem::XIDecimal{ref value} => *value,
             XItem::XIDouble{ref value} => *value,
@@ -731,13 +774,13 @@ impl XItem {
     pub fn get_as_raw_integer(&self) -> Result<i64, Box<Error>> {
         match self {
             XItem::XINode{value} => {
-                if let Ok(i) = i64::from_str(value.string_value().trim()) {
+                if let Ok(i) = i64::from_str(trim_xml_space(&value.string_value())) {
                     return Ok(i);
                 }
             },
             XItem::XIInteger{value} => return Ok(*value),
             XItem::XIString{value} => {
-                if let Ok(i) = i64::from_str(value.trim()) {
+                if let Ok(i) = i64::from_str(trim_xml_space(value)) {
                     return Ok(i);
                 }
             },
@@ -765,7 +808,7 @@ impl XItem {
     pub fn get_as_raw_boolean(&self) -> Result<bool, Box<Error>> {
         match self {
             XItem::XINode{value} => {
-                match value.string_value().as_str() {
+                match trim_xml_space(&value.string_value()) {
                     "true" | "1" => return Ok(true),
                     "false" | "0" => return Ok(false),
                     _ => {},
@@ -773,7 +816,7 @@ impl XItem {
             },
             XItem::XIInteger{value} => return Ok(*value != 0),
             XItem::XIString{value} => {
-                match value.as_str() {
+                match trim_xml_space(value) {
                     "true" | "1" => return Ok(true),
                     "false" | "0" => return Ok(false),
                     _ => {},
-- 
2.43.0


From 7d31293bf4c59752cf14e66ddfe39f1f44113ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 71/82] fix: normalize-space() splits at XML white space only

---
 src/xpath_impl/func.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index ab52e59..0dd55a6 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -843,7 +843,8 @@ fn fn_normalize_space(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     }
 
     let arg = args[0].get_singleton_string()?;
-    let v: Vec<&str> = arg.split_whitespace().collect();
+    let v: Vec<&str> = arg.split(|ch| ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r')
+                          .collect();
     let mut result = String::new();
     for t in v.iter() {
         result += t;
-- 
2.43.0


From daef25aaf59ff9a1208566f3d3a0332777078d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:49 +0000
Subject: [PATCH 72/82] fix: ':*' and '*:' are wildcards only next to a name

---
 src/xpath_impl/lexer.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 72d2eef..33663ee 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -333,6 +333,7 @@ impl Lexer {
                 continue;
             }
             tok.after_space = prev_end < begin;
+            lexer.split_wildcard(&mut tok);
             prev_end = lexer.ch_index;
             lexer.tokens.push(tok);
         }
@@ -361,6 +362,31 @@ impl Lexer {
         return Ok(lexer);
     }
 
+    // -----------------------------------------------------------------
+    // ":*" は直前が名前であるとき、"*:" は直後が名前であるときに限り、
+    // Wildcardの一部である。その他の場合 (マップ構築子のコロンなど) は、
+    // 二つの字句に分ける。
+    //
+    fn split_wildcard(&mut self, tok: &mut Token) {
+        let is_wildcard = match tok.t_type {
+            TType::ColonAsterisk => ! tok.after_space &&
+                self.tokens[self.tokens.len() - 1].t_type == TType::InnerName,
+            TType::AsteriskColon =>
+                self.ch_index < self.char_vec.len() &&
+                is_name_start_char(self.char_vec[self.ch_index]),
+            _ => return,
+        };
+        if ! is_wildcard {
+            self.unread_rune();
+            tok.name.pop();
+            tok.t_type = if tok.t_type == TType::ColonAsterisk {
+                TType::Colon
+            } else {
+                TType::Asterisk
+            };
+        }
+    }
+
     // -----------------------------------------------------------------
     //
     fn get_tok(&mut self) -> Result<Token, Box<Error>> {
-- 
2.43.0


From 5132a668a1d8ad6da96acf7c7d6f5ca52d54b80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 73/82] fix: a numeric literal has at most one exponent

---
 src/xpath_impl/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 33663ee..a088983 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -725,8 +725,8 @@ impl Lexer {
                 numeric_literal.push_str(&self.fetch_numeric_after_period()?);
             } else {
                 self.unread_rune();
+                numeric_literal.push_str(&self.fetch_numeric_after_e()?);
             }
-            numeric_literal.push_str(&self.fetch_numeric_after_e()?);
             return Ok(numeric_literal);
         } else if ch1 == '.' {
             self.unread_rune();
-- 
2.43.0


From 508fe7d7fb71479335c4d408ecee0491f0880d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:04 +0000
Subject: [PATCH 74/82] fix: element(n, type) in a declared type was a subtype
 only of the identical type

---
 src/xpath_impl/eval.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index c3762e6..7a6d462 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2257,9 +2257,8 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
                     }
                 }
             },
-            XNodeType::ElementTest |                        // 13. 14.
-            XNodeType::AttributeTest => {                   // 20. 21.
-                // 型名を省略した場合のみ (型名がある場合は同じ型名に限る)。
+            XNodeType::ElementTest |                        // 13. ～ 18.
+            XNodeType::AttributeTest => {                   // 20. ～ 23.
                 let a_test = get_left(ai);
                 let b_test = get_left(bi);
                 if get_xnode_type(ai) == XNodeType::KindTest &&
@@ -2268,8 +2267,11 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
                     let b_type = get_xnode_name(&get_left(&b_test));
                     let match_name = b_name == "*" ||
                                      b_name == get_xnode_name(&a_test);
-                    let match_type = b_type.starts_with("xs:anyType") ||
-                                     b_type == get_xnode_name(&get_left(&a_test));
+                    let a_type = get_xnode_name(&get_left(&a_test));
+                    let match_type = derives_from(
+                                        a_type.trim_right_matches('?'),
+                                        b_type.trim_right_matches('?')) &&
+                                     (b_type.ends_with("?") || ! a_type.ends_with("?"));
                     if match_name && match_type {
                         return true;
                     }
-- 
2.43.0


From b6eee18a0a0a1c84082d13825c7d9da0f9a3f461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 75/82] fix: attribute(n) without an axis selected children

---
 src/xpath_impl/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 97339ab..5e280d1 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -387,6 +387,10 @@ fn parse_axis_step(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             assign_as_right(&axis_xnode, &predicates_xnode);
             return Ok(axis_xnode);
         },
+        TType::AttributeTest => {
+            // 軸名を省略したAttributeTestは「attribute::」の省略形
+            return parse_node_test(lex, &XNodeType::AxisAttribute);
+        },
         _ => {  // 「空」は「child::」の省略形
             return parse_node_test(lex, &XNodeType::AxisChild);
         },
-- 
2.43.0


From 114006b916c9382b0cc66b6f9994fb757024108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:20 +0000
Subject: [PATCH 76/82] fix: angle brackets in literals, comments and PIs of a
 DOCTYPE were counted

---
 src/sax.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sax.rs b/src/sax.rs
index d2bd158..977bbb5 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -433,6 +433,16 @@ impl SaxDecoder {
         let mut s = String::new();
         let mut nest_level = 1;
         loop {
+            // 注釈、処理命令、引用符の中にある山括弧は数えない。
+            if self.look_ahead_keyword("<!--") == true {
+                s += &format!("<!--{}-->", self.get_until("-->")?);
+                continue;
+            }
+            if self.look_ahead_keyword("<?") == true {
+                s += &format!("<?{}?>", self.get_until("?>")?);
+                continue;
+            }
+
             let ch = self.getchar();
             if ch == EOF {
                 return Err(xml_syntax_error!("Unexpected EOF while searching matching bracket"));
@@ -445,6 +455,8 @@ impl SaxDecoder {
                 if nest_level == 0 {
                     return Ok(s);
                 }
+            } else if ch == '"' || ch == '\'' {
+                s += &format!("{}{}{}", ch, self.get_until_ch(ch)?, ch);
             } else {
                 s.push(ch);
             }
-- 
2.43.0


From 2fe26b5f9f66e530530cce999439db82ff447985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 77/82] fix: a carriage return alone is a line end as well

---
 src/sax.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sax.rs b/src/sax.rs
index 977bbb5..c547023 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -151,7 +151,7 @@ impl SaxDecoder {
     ///
     pub fn new(xml_string: &str) -> Result<SaxDecoder, Box<Error>> {
         return Ok(SaxDecoder{
-            char_vec: xml_string.chars().filter(|x| *x != '\r').collect(),
+            char_vec: xml_string.replace("\r\n", "\n").replace("\r", "\n").chars().collect(),
                 // XML 1.0: 行末の処理
                 // 解析前に改行すべてを #x0A に標準化する。
             index: 0,
-- 
2.43.0


From 93a55eab614f0f89c62441b4dff3718968b5e7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:59 +0000
Subject: [PATCH 78/82] fix: decode text with many unterminated references in
 linear time

---
 src/sax.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sax.rs b/src/sax.rs
index c547023..8e54cbf 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -910,11 +910,12 @@ fn decode_entity(s: &String) -> String {
     //
     let mut buf = String::new();
     let mut rest: &str = s.as_str();
+    let mut has_semicolon = true;
     while let Some(pos) = rest.find('&') {
         buf.push_str(&rest[.. pos]);
         rest = &rest[pos ..];
 
-        if rest.starts_with("&#") {
+        if rest.starts_with("&#") && has_semicolon {
             if let Some(end) = rest.find(';') {
                 let entity = &rest[2 .. end];
                 let (digits, radix) = if entity.starts_with("x") {
@@ -928,6 +929,7 @@ fn decode_entity(s: &String) -> String {
                 rest = &rest[end + 1 ..];
                 continue;
             }
+            has_semicolon = false;      // もう探す必要がない。
         } else if let Some(spec) = entity_specs.iter()
                                     .find(|spec| rest.starts_with(spec.0)) {
             buf.push_str(spec.1);
-- 
2.43.0


From c071758bf0f19686d23b058ca8430d245ff61df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:31 +0000
Subject: [PATCH 79/82] fix: partial calls with the arrow operator

---
 src/xpath_impl/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 5e280d1..f0714bf 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -1682,15 +1682,18 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 
         let func_name = parse_static_func_name(lex)?;
         if func_name != "" {
-            let fcall_xnode = new_xnode(XNodeType::FunctionCall, &func_name);
             let arglist_xnode = parse_argument_list(lex)?;
             let arg_top_xnode = new_xnode(XNodeType::ArgumentTop, "");
             assign_as_left(&arg_top_xnode, &curr_xnode);
             assign_as_right(&arg_top_xnode, &arglist_xnode);
 
             let mut arity: usize = 0;
+            let mut is_partial_call = false;
             let mut arg = arg_top_xnode.clone();
             while ! is_nil_xnode(&arg) {
+                if get_xnode_type(&arg) == XNodeType::ArgumentPlaceholder {
+                    is_partial_call = true;
+                }
                 arity += 1;
                 arg = get_right(&arg);
             }
@@ -1700,6 +1703,13 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
                     func_name, arity));
             }
 
+            let fcall_xnode = new_xnode(
+                    if is_partial_call {
+                        XNodeType::PartialFunctionCall
+                    } else {
+                        XNodeType::FunctionCall
+                    },
+                    &func_name);
             assign_as_right(&fcall_xnode, &arg_top_xnode);
             curr_xnode = fcall_xnode.clone();
             continue;
-- 
2.43.0


From 21c3ea71f091a8c24ad0fdce9480cac60eb60e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:48 +0000
Subject: [PATCH 80/82] fix: evaluate the given arguments of a partial call
 where it is written

---
 src/xpath_impl/eval.rs | 43 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 7a6d462..5031d1b 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -716,9 +716,25 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             return Ok(new_singleton_double(atof(&get_xnode_name(&xnode))));
         },
 
-        XNodeType::InlineFunction |
-        XNodeType::NamedFunctionRef |
         XNodeType::PartialFunctionCall => {
+            // 部分函数呼び出し: 「?」でない引数はこの時点で評価し、
+            // 現在の変数と一緒に保存する (cf. fixed_arg_name())。
+            let mut vars = eval_env.get_all_vars();
+            let mut curr = get_right(xnode);
+            let mut i = 0;
+            while ! is_nil_xnode(&curr) {
+                if get_xnode_type(&curr) == XNodeType::ArgumentTop {
+                    let arg = evaluate_xnode(xseq, &get_left(&curr), eval_env)?;
+                    vars.push((fixed_arg_name(i), arg));
+                }
+                i += 1;
+                curr = get_right(&curr);
+            }
+            return Ok(new_singleton_xnodeptr(&xnode, vars));
+        },
+
+        XNodeType::InlineFunction |
+        XNodeType::NamedFunctionRef => {
             // インライン函数 | 名前付き函数参照:
             // この時点では評価せず、シングルトンとして包んで返す。
             // 函数本体から参照できるように、現在の変数も一緒に保存する。
@@ -1577,8 +1593,8 @@ fn call_named_func(func_xnode: &XNodePtr,
 // 静的函数の部分函数呼び出し。
 //
 // func_xnode: 部分函数呼び出しの構文木
-//             引数のうちArgumentTopは、普通の静的函数と同様、
-//             文脈ノードに対してleft以下を評価し、引数として函数に渡す。
+//             引数のうちArgumentTopは、部分函数を生成した時点で評価した
+//             値を、引数として函数に渡す。
 //             ArgumentPlaceholderである場合はargument_xseq[i]を
 //             引数として函数に渡す。
 //
@@ -1591,8 +1607,7 @@ fn call_named_func(func_xnode: &XNodePtr,
 //                函数に渡す。
 //
 // context_xseq: 文脈シーケンス。
-//               ArgumentTopである引数は、文脈シーケンスに対して評価する。
-//               関数の評価も文脈シーケンスに対しておこなう。
+//               関数の評価を文脈シーケンスに対しておこなう。
 //
 // eval_env: 評価環境 (変数の値など)。
 //
@@ -1607,8 +1622,12 @@ fn call_partial_func(func_xnode: &XNodePtr,
     while ! is_nil_xnode(&curr_xnode) {
         match get_xnode_type(&curr_xnode) {
             XNodeType::ArgumentTop => {
-                let arg = evaluate_xnode(context_xseq, &get_left(&curr_xnode), eval_env)?;
-                args_array.push(arg);
+                match eval_env.get_var(&fixed_arg_name(args_array.len())) {
+                    Some(arg) => args_array.push(arg),
+                    None => {
+                        return Err(cant_occur!("call_partial_func: 引数の値がない。"));
+                    },
+                }
             },
             XNodeType::ArgumentPlaceholder => {
                 if i >= argument_xseq.len() {
@@ -1632,6 +1651,14 @@ fn call_partial_func(func_xnode: &XNodePtr,
 
 }
 
+// ---------------------------------------------------------------------
+// 部分函数呼び出しの、「?」でない第i引数の値を保存する変数の名前。
+// 変数名として現れ得ない名前にする。
+//
+fn fixed_arg_name(i: usize) -> String {
+    return format!("#{}", i);
+}
+
 // ---------------------------------------------------------------------
 // 函数呼び出し。
 // インライン函数、名前付き函数参照、部分函数。
-- 
2.43.0


From 66eca0262b1b91cd9d181978c6f2e6dce6ffb1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:32 +0000
Subject: [PATCH 81/82] fix: maps and arrays as the function of for-each and
 filter

---
 src/xpath_impl/eval.rs      | 12 +++++++++++-
 src/xpath_impl/func.rs      | 16 ++++++++++------
 src/xpath_impl/xsequence.rs |  9 +++++++++
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 5031d1b..e3cc61e 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1457,6 +1457,16 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
         curr_arg_top = get_right(&curr_arg_top);
     }
 
+    return call_item(curr_xseq, argument_xseq, xseq, eval_env);
+}
+
+// ---------------------------------------------------------------------
+// 函数/マップ/配列 (シングルトン curr_xseq) に、引数の値を適用する。
+//
+pub fn call_item(curr_xseq: &XSequence, argument_xseq: Vec<XSequence>,
+                xseq: &XSequence,
+                eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
+
     // -----------------------------------------------------------------
     // インライン函数、名前付き函数参照、部分函数
     //
@@ -1666,7 +1676,7 @@ fn fixed_arg_name(i: usize) -> String {
 //
 // func: 函数の構文木と、函数を生成した時点の変数。
 //
-pub fn call_function(func: &(XNodePtr, Vec<(String, XSequence)>),
+fn call_function(func: &(XNodePtr, Vec<(String, XSequence)>),
                 argument_xseq: Vec<XSequence>,
                 context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 0dd55a6..9b07375 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1574,12 +1574,14 @@ fn fn_last(_args: &Vec<&XSequence>, _xseq: &XSequence,
 fn fn_for_each(args: &Vec<&XSequence>, context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
-    let func = args[1].get_singleton_xnodeptr()?;
+    if ! args[1].is_singleton_function() {
+        return Err(type_error!("函数でない。"));
+    }
     let mut result = new_xsequence();
     for xitem in args[0].iter() {
         let argument_xseq = new_singleton(xitem);
-        let result_xseq = call_function(
-                &func, vec!{argument_xseq}, context_xseq, eval_env)?;
+        let result_xseq = call_item(
+                args[1], vec!{argument_xseq}, context_xseq, eval_env)?;
         result.append(&result_xseq);
     }
     return Ok(result);
@@ -1593,12 +1595,14 @@ fn fn_for_each(args: &Vec<&XSequence>, context_xseq: &XSequence,
 fn fn_filter(args: &Vec<&XSequence>, context_xseq: &XSequence,
                 eval_env: &mut EvalEnv) -> Result<XSequence, Box<Error>> {
 
-    let func = args[1].get_singleton_xnodeptr()?;
+    if ! args[1].is_singleton_function() {
+        return Err(type_error!("函数でない。"));
+    }
     let mut result = new_xsequence();
     for xitem in args[0].iter() {
         let argument_xseq = new_singleton(xitem);
-        let result_xseq = call_function(
-                &func, vec!{argument_xseq}, context_xseq, eval_env)?;
+        let result_xseq = call_item(
+                args[1], vec!{argument_xseq}, context_xseq, eval_env)?;
         if result_xseq.effective_boolean_value()? == true {
             result.push(&xitem);
         }
diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 756f823..95ad8fc 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -166,6 +166,15 @@ impl XSequence {
         return Err(type_error!("This sequence must be singleton array."));
     }
 
+    // -----------------------------------------------------------------
+    // シングルトンかつ函数 (マップや配列も函数の一種) か否か。
+    //
+    pub fn is_singleton_function(&self) -> bool {
+        return self.get_singleton_xnodeptr().is_ok() ||
+               self.get_singleton_map().is_ok() ||
+               self.get_singleton_array().is_ok();
+    }
+
     // -----------------------------------------------------------------
     // シングルトンかつ文字列であれば、その文字列を返す。
     //
-- 
2.43.0


From fd50d116853e3a1b6c41e116f0a35793ff2438ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:46 +0000
Subject: [PATCH 82/82] fix: type tests of concat with a huge arity

---
 src/xpath_impl/eval.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index e3cc61e..43343de 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1901,6 +1901,13 @@ fn match_sequence_typed_function_test(xseq: &XSequence, type_xnode: &XNodePtr) -
                 //
                 XNodeType::NamedFunctionRef => {
                     let func_name = get_xnode_name(&xnode);
+                    // 引数の個数が異なれば合致しない。
+                    // (concat#100000000 などのシグニチャーは生成しない)
+                    let arity = func_name.split("#").last()
+                                         .and_then(|n| n.parse::<usize>().ok());
+                    if arity != Some(signature_xnode.len() - 1) {
+                        return Ok(false);
+                    }
                     let signature = get_function_signature(func_name.as_str());
                     if signature == "" {
                         return Ok(false);
-- 
2.43.0

