From 4789d1bd610ed5d14f16a0de71900edcae3afe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 01/16] fix: a repeated rule definition is looked up among the
 rules, not the tokens

---
 src/tool/visitor/grammar_visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index 6836e31..27c79c5 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -93,7 +93,7 @@ impl SyntaxisVisitor for SymbolVisitor<'_> {
 
   fn visit_parser_rule(&mut self, ctx: &dyn ParserRuleContext) -> Box<dyn std::any::Any> {
     let name = &ctx.rule_ref().unwrap().symbol.text;
-    if self.grammar.vocabulary.is_terminal_name_defined(name) {
+    if self.grammar.vocabulary.is_nonterminal_name_defined(name) {
       println!("重复定义 rule: {}", name);
       return self.default_result();
     }
-- 
2.43.0


From 59357894a8d5cfdd9aa3cb20a9f0f4a00606eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 02/16] fix: share a helper rule only between identical
 operands (token and rule ids overlap)

---
 src/tool/visitor/grammar_visitor.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index 27c79c5..d385f60 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -114,9 +114,9 @@ pub struct ProductionVisitor<'a> {
   block_cache: HashMap<Vec<Vec<ProductionItem>>, usize>,
 
 
-  star_cache: HashMap<usize, usize>,
-  plus_cache: HashMap<usize, usize>,
-  question_cache: HashMap<usize, usize>,
+  star_cache: HashMap<ProductionItem, usize>,
+  plus_cache: HashMap<ProductionItem, usize>,
+  question_cache: HashMap<ProductionItem, usize>,
 }
 
 impl<'a> ProductionVisitor<'a> {
@@ -199,7 +199,7 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         // item * => item2 -> item item2 | epsilon
 
         // 查看是否已存在 item_id 即为 新产生式的 id。
-        if let Some(item_id) = self.star_cache.get(&id) {
+        if let Some(item_id) = self.star_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -214,14 +214,14 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
 
-        self.star_cache.insert(id, self.next_rule_id);
+        self.star_cache.insert(item, self.next_rule_id);
 
         self.next_rule_id += 1;
         return Box::new(item2);
       }
       else if let Some(_) = suffix.plus() {
         // item * => item2 -> item item2 | item
-        if let Some(item_id) = self.plus_cache.get(&id) {
+        if let Some(item_id) = self.plus_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -235,13 +235,13 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
 
-        self.plus_cache.insert(id, self.next_rule_id);
+        self.plus_cache.insert(item, self.next_rule_id);
         self.next_rule_id += 1;
         return Box::new(item2);
       }
       else {
         // item * => item2 -> item | epsilon
-        if let Some(item_id) = self.question_cache.get(&id) {
+        if let Some(item_id) = self.question_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -254,7 +254,7 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         let p2 = Production::new(self.next_rule_id, &vec![item]);
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
-        self.question_cache.insert(id, self.next_rule_id);
+        self.question_cache.insert(item, self.next_rule_id);
         self.next_rule_id += 1;
         return Box::new(item2);
       }
-- 
2.43.0


From b070c1c5621ea3cf954d97545bcd884949464701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 03/16] fix: lower X+ so that its alternatives can be told
 apart by one token

---
 src/tool/visitor/grammar_visitor.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index d385f60..0130477 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -220,7 +220,7 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         return Box::new(item2);
       }
       else if let Some(_) = suffix.plus() {
-        // item * => item2 -> item item2 | item
+        // item + => item2 -> item rest, rest -> item rest | epsilon
         if let Some(item_id) = self.plus_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
@@ -229,14 +229,16 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         self.grammar.vocabulary.add_unnamed_nonterminal(self.next_rule_id);
         let item2 = ProductionItem::NonTerminal(self.next_rule_id);
 
-        // 添加两条产生式
-        let p1 = Production::new(self.next_rule_id, &vec![item.clone()]);
-        let p2 = Production::new(self.next_rule_id, &vec![item, item2.clone()]);
-        self.grammar.productions.insert(p1);
-        self.grammar.productions.insert(p2);
+        // 两条产生式不能都以 item 开头，否则 LL(1) 分析表冲突，因此引入第二个匿名非终结符
+        let rest_id = self.next_rule_id + 1;
+        self.grammar.vocabulary.add_unnamed_nonterminal(rest_id);
+        let rest = ProductionItem::NonTerminal(rest_id);
+        self.grammar.productions.insert(Production::new(self.next_rule_id, &vec![item, rest]));
+        self.grammar.productions.insert(Production::new(rest_id, &vec![item, rest]));
+        self.grammar.productions.insert(Production::new(rest_id, &vec![]));
 
         self.plus_cache.insert(item, self.next_rule_id);
-        self.next_rule_id += 1;
+        self.next_rule_id += 2;
         return Box::new(item2);
       }
       else {
-- 
2.43.0


From 1126203efa4308d9aaf0d31fc1d91262207ba153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 04/16] fix: build the LL(1) table in a fixed order, so that
 conflicting cells are reproducible

---
 src/tool/grammar/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tool/grammar/mod.rs b/src/tool/grammar/mod.rs
index cc4aa36..a5d34b9 100644
--- a/src/tool/grammar/mod.rs
+++ b/src/tool/grammar/mod.rs
@@ -193,7 +193,8 @@ impl Grammar {
   // 构造预测分析表
   pub fn ll1_table(&self, first_set: &HashMap<Production, Collection>, follow_set: &HashMap<usize, HashSet<usize>>) -> HashMap<(usize, usize), Rc<Production>> {
     let mut result: HashMap<(usize, usize), Rc<Production>> = HashMap::new();
-    let productions: Vec<Rc<Production>> = self.productions.iter().map(|p| { Rc::new(p.clone()) }).collect();
+    let mut productions: Vec<Rc<Production>> = self.productions.iter().map(|p| { Rc::new(p.clone()) }).collect();
+    productions.sort(); // 冲突时的结果不能依赖哈希表的遍历顺序
     for production in productions.iter() {
       let first = first_set.get(&production).unwrap();
       let rule_id = production.left;
@@ -253,13 +254,13 @@ impl Display for Grammar {
 }
 
 
-#[derive(PartialEq, Eq, Clone, Hash, Debug, Copy)]
+#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Hash, Debug, Copy)]
 pub enum ProductionItem {
   NonTerminal(usize),
   Terminal(usize),
 }
 
-#[derive(PartialEq, Eq, Clone, Hash, Debug)]
+#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Hash, Debug)]
 pub struct Production {
   pub left: usize, 
   pub right: Vec<ProductionItem>,
-- 
2.43.0


From c9093c45d41da708ef682e37d893b67e07708ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 05/16] fix: separate nonterminals from their neighbours when
 printing a grammar

---
 src/tool/grammar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/grammar/mod.rs b/src/tool/grammar/mod.rs
index a5d34b9..e8eac3d 100644
--- a/src/tool/grammar/mod.rs
+++ b/src/tool/grammar/mod.rs
@@ -236,7 +236,7 @@ impl Display for Grammar {
       for item in production.right.iter() {
         match item {
           ProductionItem::NonTerminal(id) => {
-            write!(f, "{}", self.vocabulary.get_nonterminal_name_with_default(*id))?
+            write!(f, " {}", self.vocabulary.get_nonterminal_name_with_default(*id))?
           },
           ProductionItem::Terminal(id) => {
             let name = self.vocabulary.get_terminal_name(*id);
-- 
2.43.0


From ad004ac84d9f5d40d82dcbb2df32457d5603aa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 06/16] fix: the generated parser hands out its own typed
 contexts, not those with the other token numbering

---
 src/tool/v1/syntaxis_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool/v1/syntaxis_parser.rs b/src/tool/v1/syntaxis_parser.rs
index f8d4991..3431729 100644
--- a/src/tool/v1/syntaxis_parser.rs
+++ b/src/tool/v1/syntaxis_parser.rs
@@ -1,6 +1,8 @@
 use std::{collections::HashMap, rc::Rc};
 
-use crate::{runtime::{token::Token, ast::{rule_context::RuleContext, terminal_context::TerminalContext, ast_context::ASTContext}, vocabulary::Vocabulary}, tool::{grammar::{Production, ProductionItem}, syntaxis::syntaxis_context::{RuleListContext, ParserRuleContext, BlockContext, AlternativeContext, EpsilonContext, ElementContext, EbnfSuffixContext, LexerRuleContext, RegularContext}}};
+use crate::{runtime::{token::Token, ast::{rule_context::RuleContext, terminal_context::TerminalContext, ast_context::ASTContext}, vocabulary::Vocabulary}, tool::grammar::{Production, ProductionItem}};
+
+use super::syntaxis_context::{RuleListContext, ParserRuleContext, BlockContext, AlternativeContext, EpsilonContext, ElementContext, EbnfSuffixContext, LexerRuleContext, RegularContext};
 
 
 
-- 
2.43.0


From 47aa84f027b5110ebaae24ba39560dc2d963e389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 07/16] fix: an empty sub-rule at the edge of a node no longer
 hides its first or last token

---
 src/runtime/ast/rule_context.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/runtime/ast/rule_context.rs b/src/runtime/ast/rule_context.rs
index 9be510c..4299c40 100644
--- a/src/runtime/ast/rule_context.rs
+++ b/src/runtime/ast/rule_context.rs
@@ -35,41 +35,35 @@ impl RuleContext {
   pub fn get_rule_index(&self) -> usize { self.rule_index }
 
   pub fn get_first_terminal(&self) -> Option<&TerminalContext> { 
-    if self.children.len() <= 0 { return None }
-    match &self.children[0] {
+    self.children.iter().find_map(|child| match child {
       ASTContext::Terminal(ctx) => Some(ctx),
       ASTContext::Rule(ctx) => ctx.get_first_terminal(),
       ASTContext::Error(_) => None,
-    }
-
+    })
   }
 
   pub fn get_last_terminal(&self) -> Option<&TerminalContext> { 
-    if self.children.len() <= 0 { return None }
-    match &self.children.last().unwrap() {
+    self.children.iter().rev().find_map(|child| match child {
       ASTContext::Terminal(ctx) => Some(ctx),
       ASTContext::Rule(ctx) => ctx.get_last_terminal(),
       ASTContext::Error(_) => None,
-    }
+    })
   }
 
   pub fn get_start_token(&self) -> Option<Token> {
-    if self.children.len() <= 0 { return None }
-    match &self.children[0] {
+    self.children.iter().find_map(|child| match child {
       ASTContext::Terminal(ctx) => Some(ctx.symbol.clone()),
       ASTContext::Rule(ctx) => ctx.get_start_token(),
       ASTContext::Error(ctx) => Some(ctx.symbol.clone()),
-    }
-
+    })
   }
 
   pub fn get_stop_token(&self) -> Option<Token> {
-    if self.children.len() <= 0 { return None }
-    match self.children.last().unwrap() {
+    self.children.iter().rev().find_map(|child| match child {
       ASTContext::Terminal(ctx) => Some(ctx.symbol.clone()),
       ASTContext::Rule(ctx) => ctx.get_stop_token(),
       ASTContext::Error(ctx) => Some(ctx.symbol.clone()),
-    }
+    })
   }
 
   pub fn get_terminal(&self, token_type: usize, i: usize) -> Option<&TerminalContext> {
-- 
2.43.0


From 439bcbc4d98a140bc02222ae406a4fb887836844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:59 +0000
Subject: [PATCH 08/16] fix: the stop token lies at the end of the input, not
 ten bytes behind it

---
 src/tool/templates/target/rust/lexer.tera | 5 +++--
 src/tool/v1/syntaxis_lexer.rs             | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tool/templates/target/rust/lexer.tera b/src/tool/templates/target/rust/lexer.tera
index 2def620..98ebcb3 100644
--- a/src/tool/templates/target/rust/lexer.tera
+++ b/src/tool/templates/target/rust/lexer.tera
@@ -56,6 +56,7 @@ impl Lexer for {{name}}Lexer {
   fn scan(&mut self) -> Result<Token, Error> {
     if self.cursor > self.input.len() { return Err(Error {}) }
     else if self.cursor >= self.input.len() {
+      let end = self.cursor;
       self.cursor += 10;
       return Ok(Token {
         token_type: 1,
@@ -67,8 +68,8 @@ impl Lexer for {{name}}Lexer {
         channel: 0,
         text: "_STOP".to_owned(),
         token_index: self.token_index,
-        char_start_index: self.cursor,
-        char_stop_index: self.cursor,
+        char_start_index: end,
+        char_stop_index: end,
       });
     }
     let mut len = 0;
diff --git a/src/tool/v1/syntaxis_lexer.rs b/src/tool/v1/syntaxis_lexer.rs
index cdeb40c..c0afc16 100644
--- a/src/tool/v1/syntaxis_lexer.rs
+++ b/src/tool/v1/syntaxis_lexer.rs
@@ -79,6 +79,7 @@ impl Lexer for SyntaxisLexer {
   fn scan(&mut self) -> Result<Token, crate::runtime::lexer::Error> {
     if self.cursor > self.input.len() { return Err(Error {}) }
     else if self.cursor >= self.input.len() {
+      let end = self.cursor;
       self.cursor += 10;
       return Ok(Token {
         token_type: 1,
@@ -90,8 +91,8 @@ impl Lexer for SyntaxisLexer {
         channel: 0,
         text: "_STOP".to_owned(),
         token_index: self.token_index,
-        char_start_index: self.cursor,
-        char_stop_index: self.cursor,
+        char_start_index: end,
+        char_stop_index: end,
       });
     }
     let mut len = 0;
-- 
2.43.0


From fee5eca2e5300bb89ed51fe5f2f5da7330239c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:59 +0000
Subject: [PATCH 09/16] fix: spell the token name QUESTION like its constant

---
 src/tool/syntaxis/syntaxis_lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/syntaxis/syntaxis_lexer.rs b/src/tool/syntaxis/syntaxis_lexer.rs
index 00f6db8..de1d428 100644
--- a/src/tool/syntaxis/syntaxis_lexer.rs
+++ b/src/tool/syntaxis/syntaxis_lexer.rs
@@ -72,7 +72,7 @@ impl SyntaxisLexer {
 
     let token_names = vec![
       "_START", "_STOP", "LINE_COMMENT", "BLOCK_COMMENT", "WS", "FRAGMENT", "TOKEN_REF",
-      "RULE_REF", "COLON", "OR", "SEMI", "STAR", "PLUS", "QUEStION", "DOT",
+      "RULE_REF", "COLON", "OR", "SEMI", "STAR", "PLUS", "QUESTION", "DOT",
       "NOT", "LPAREN", "RPAREN", "POUND", "STRING_LITERAL", "RANGE", "REGULAR_LITERAL", "EPSILON"
     ];
 
-- 
2.43.0


From c7769c582238beb7f77d11cdc7dd1ade24200f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:59 +0000
Subject: [PATCH 10/16] fix: a scanner generated from a grammar without
 WHITE_SPACE compiles

---
 src/tool/templates/target/rust/lexer.tera | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/templates/target/rust/lexer.tera b/src/tool/templates/target/rust/lexer.tera
index 98ebcb3..0112e74 100644
--- a/src/tool/templates/target/rust/lexer.tera
+++ b/src/tool/templates/target/rust/lexer.tera
@@ -130,7 +130,7 @@ impl Lexer for {{name}}Lexer {
   fn scan_all_on_channel_tokens(&mut self, channel: usize) -> Vec<Token> {
     let mut result = Vec::new();
     while let Ok(token) = self.scan() {
-      if token.token_type == {{name}}Lexer::WHITE_SPACE { continue; }
+      {% for token in tokens %}{% if token.token_name == "WHITE_SPACE" %}if token.token_type == {{name}}Lexer::WHITE_SPACE { continue; }{% endif %}{% endfor %}
       if token.channel == channel {
         result.push(token);
       }
-- 
2.43.0


From 535090c5bc658866ecdb97d37581cf57bdeae3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:59 +0000
Subject: [PATCH 11/16] fix: text in a drawing can no longer start an
 interpolation or close the script

---
 src/tool/gui/ast_drawer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool/gui/ast_drawer.rs b/src/tool/gui/ast_drawer.rs
index ec55cc6..f101ce1 100644
--- a/src/tool/gui/ast_drawer.rs
+++ b/src/tool/gui/ast_drawer.rs
@@ -25,7 +25,8 @@ impl ASTDrawer {
   }
 
   fn escape(s: &str) -> String {
-    s.replace("\\", "\\\\").replace("`", "\\`")
+    // 结果会放入 <script> 中的模板字符串，除引号外还要防止插值以及提前结束 script
+    s.replace("\\", "\\\\").replace("`", "\\`").replace("$", "\\$").replace("<", "\\x3c").replace("\r", "\\r")
   }
 
   fn dump(ast: &RuleContext) -> String {
-- 
2.43.0


From a31431643e0f6629accbc69430e5482176ebf779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:59 +0000
Subject: [PATCH 12/16] fix: write the whole drawing, not just what the first
 write call takes

---
 src/tool/gui/ast_drawer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/gui/ast_drawer.rs b/src/tool/gui/ast_drawer.rs
index f101ce1..d46baa3 100644
--- a/src/tool/gui/ast_drawer.rs
+++ b/src/tool/gui/ast_drawer.rs
@@ -57,7 +57,7 @@ impl ASTDrawer {
     
 
     let mut file = std::fs::File::create(filename).unwrap();
-    file.write(result.as_bytes()).unwrap();
+    file.write_all(result.as_bytes()).unwrap();
   }
 }
 
-- 
2.43.0


From 8ecd36691bd6c85c3d931a401d8e3d17123c344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:25 +0000
Subject: [PATCH 13/16] fix: the pattern of a quoted literal matches exactly
 its text

---
 src/tool/visitor/lexer_rule_visitor.rs | 29 ++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/tool/visitor/lexer_rule_visitor.rs b/src/tool/visitor/lexer_rule_visitor.rs
index 67d695d..be0382a 100644
--- a/src/tool/visitor/lexer_rule_visitor.rs
+++ b/src/tool/visitor/lexer_rule_visitor.rs
@@ -64,6 +64,27 @@ impl LexerRuleVisitor {
 }
 
 
+// 将字符串字面量(不含引号)中的转义序列替换为实际字符, 从左到右只扫描一遍
+pub(crate) fn unescape(text: &str) -> String {
+  let mut result = String::new();
+  let mut chars = text.chars();
+  while let Some(c) = chars.next() {
+    if c != '\\' { result.push(c); continue; }
+    match chars.next() {
+      Some('n') => result.push('\n'),
+      Some('t') => result.push('\t'),
+      Some('r') => result.push('\r'),
+      Some(c) => {
+        if c != '\\' && c != '\'' { result.push('\\'); }
+        result.push(c);
+      },
+      None => result.push('\\'),
+    }
+  }
+  result
+}
+
+
 pub struct StringLiteralVisitor {
   pub data: Vec<LexerRuleData>,
   pub next_token_type: usize, // 注意初始化为 2
@@ -82,13 +103,9 @@ impl SyntaxisVisitor for StringLiteralVisitor {
 
 
       // abc  ab\n
-      let literal = &name[1..name.len()-1]
-        .replace("\\n", "\n").replace("\\t", "\t").replace("\\\\", "\\")
-        .replace("\\r", "\r").replace("\\'", "\'").replace("+", "\\+")
-        .replace("*", "\\*")
-      ;
+      let literal = unescape(&name[1..name.len()-1]);
 
-      self.data.push( LexerRuleData {token_type: self.next_token_type, token_name: format!("T_{}", self.next_token_type), regex: format!("^({})", literal) });
+      self.data.push( LexerRuleData {token_type: self.next_token_type, token_name: format!("T_{}", self.next_token_type), regex: format!("^({})", regex::escape(&literal)) });
       self.next_token_type += 1;
     }
     self.default_result()
-- 
2.43.0


From a310d478dccaf09d0474f2b7f676691f37e05495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:25 +0000
Subject: [PATCH 14/16] fix: quoted literals in rules become tokens instead of
 panicking

---
 src/tool/visitor/grammar_visitor.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index 0130477..32b9f2d 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -4,7 +4,7 @@ use std::collections::HashMap;
 
 use crate::tool::{grammar::{Grammar, ProductionItem, Production}, syntaxis::{syntaxis_visitor::SyntaxisVisitor, syntaxis_context::{ElementContext, LexerRuleContext, ParserRuleContext}}};
 
-use super::lexer_rule_visitor::LexerRuleData;
+use super::lexer_rule_visitor::{LexerRuleData, unescape};
 
 /**
  * 第一遍 将所有的语法规则中的字符串字面量转换为 token
@@ -21,10 +21,10 @@ pub struct StringLiteralToTokenVisitor<'a> {
 
 impl<'a> StringLiteralToTokenVisitor<'a> {
   // 将字符串字面量转义为对应的实际字符串
-  fn escape(_input: &str) -> String { todo!() }
+  fn escape(input: &str) -> String { format!("'{}'", unescape(&input[1..input.len()-1])) }
   
   // 将字符串字面量转义为识别它的正则表达式
-  fn regular_escape(_input: &str) -> String { todo!() }
+  fn regular_escape(input: &str) -> String { format!("^({})", regex::escape(&unescape(&input[1..input.len()-1]))) }
 
   pub fn new(grammar: &'a mut Grammar, first_token_id: usize) -> Self {
     Self { grammar, next_token_id: first_token_id, data: Vec::new(), }
@@ -177,7 +177,7 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
       item = ProductionItem::Terminal(id);
     }
     else if let Some(literal) = ctx.string_literal() {
-      id = self.grammar.vocabulary.get_terminal_id_by_name(&literal.symbol.text).unwrap();
+      id = self.grammar.vocabulary.get_terminal_id_by_name(&StringLiteralToTokenVisitor::escape(&literal.symbol.text)).unwrap();
       item = ProductionItem::Terminal(id);
     }
     else if let Some(rule) = ctx.rule_ref() {
-- 
2.43.0


From ac135d9674c811f32ac8600d34b72cef83f1c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:25 +0000
Subject: [PATCH 15/16] fix: quoted literals inside groups become tokens, too

---
 src/tool/visitor/grammar_visitor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index 32b9f2d..9b305f7 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -48,7 +48,8 @@ impl SyntaxisVisitor for StringLiteralToTokenVisitor<'_> {
       self.data.push(LexerRuleData { token_type: self.next_token_id, token_name: format!("_T_{}", self.next_token_id), regex: regular_string, });
       self.next_token_id += 1;
     }
-    self.default_result()
+    // 字面量可能出现在括号内
+    self.visit_children(ctx.as_rule())
   }
 }
 
-- 
2.43.0


From 9fcb361ab35aeafd2893c3ce51ff95c574d96521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:23 +0000
Subject: [PATCH 16/16] fix: a pattern can no longer end its literal in a
 generated scanner

---
 src/tool/templates/target/rust/lexer.tera | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/templates/target/rust/lexer.tera b/src/tool/templates/target/rust/lexer.tera
index 0112e74..dcaae9c 100644
--- a/src/tool/templates/target/rust/lexer.tera
+++ b/src/tool/templates/target/rust/lexer.tera
@@ -32,7 +32,7 @@ impl {{name}}Lexer {
 
       // 这里也需要使用模板
       {% for token in tokens %}
-      Regex::new(r####"{{token.regex}}"####).unwrap(), // {{token.token_name}}{% endfor %}
+      Regex::new("{{token.regex | replace(from='\', to='\\') | replace(from='"', to='\"')}}").unwrap(), // {{token.token_name}}{% endfor %}
     
     ];
     
-- 
2.43.0

